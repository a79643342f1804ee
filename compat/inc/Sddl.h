#include <sddl.h>
