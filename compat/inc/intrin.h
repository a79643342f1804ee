/* With -fms-compatibility, clang's own intrin.h contradicts mingw-w64's headers: use mingw-w64's. */
#pragma once
#include <immintrin.h>
#include "/usr/x86_64-w64-mingw32/include/intrin.h"
