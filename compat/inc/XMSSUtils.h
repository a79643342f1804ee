#include "/repo/CEX/XmssUtils.h"
