#include "/repo/CEX/XmssCore.h"
