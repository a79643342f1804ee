/* Included before every source file: what MSVC's headers bring in by themselves and mingw-w64's do not. */
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <io.h>
#include <share.h>
#include <sys/stat.h>
#define _XCR_XFEATURE_ENABLED_MASK 0
#include <vector>
#include <array>
#include <iostream>
#include <memory>
#include <string>
/* CexConfig.h knows MinGW but does not detect the processor for it: give it the compiler that the project is for. */
#define _MSC_VER 1930
#pragma push_macro("__SIZEOF_INT128__")
#undef __SIZEOF_INT128__
#include "/repo/CEX/CexConfig.h"
#pragma pop_macro("__SIZEOF_INT128__")
#undef _MSC_VER
/* Only MSVC can have a pragma there. */
#undef CEX_OPTIMIZE_IGNORE
#undef CEX_OPTIMIZE_RESUME
#define CEX_OPTIMIZE_IGNORE
#define CEX_OPTIMIZE_RESUME
/* The project loads unaligned memory with these. MSVC compiles them to unaligned moves, clang does not. */
#include <immintrin.h>
#define _mm_load_si128 _mm_loadu_si128
#define _mm_store_si128 _mm_storeu_si128
#define _mm256_load_si256 _mm256_loadu_si256
#define _mm256_store_si256 _mm256_storeu_si256
