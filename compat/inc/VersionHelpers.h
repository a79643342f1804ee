#include <versionhelpers.h>
