#include <wincrypt.h>
