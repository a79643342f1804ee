#include "/repo/CEX/IKdf.h"
