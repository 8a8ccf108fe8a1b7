/* Forced into every translation unit of the quad-precision replay build: the same sources with the
   real type widened to 113-bit precision, so that a violation of exact-arithmetic semantics smaller
   than double rounding can still be confirmed by running the code. */
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <quadmath.h>
#undef NAN
#undef INFINITY
#define RS_QUAD 1
#define double __float128
#define sqrt sqrtq
#define fabs fabsq
#define sin sinq
#define cos cosq
#define pow powq
#define floor floorq
#define ceil ceilq
#define log2 log2q
