/* the portable variant of src/utf8.c: the headers are read first, then the vector extensions are hidden */
#include <stdbool.h>
#include <x86intrin.h>
#undef __AVX512F__
#undef __AVX2__
#undef __AVX__
#undef __SSE2__
#include "src/utf8.c"
