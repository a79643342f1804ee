/* MSVC header for the AVX-512 intrinsics */
#include <immintrin.h>
