/* Forced into harness code for configurations with -DSINGLE_PRECISION: the harness's reals get the library's type. */
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
#define double float
#define RS_TOL_SP
