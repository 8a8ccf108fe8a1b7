/* Interface between harnesses and the symbolic engine (rsym) / the native replay runtime. */
#ifndef RS_H
#define RS_H
#ifdef __cplusplus
extern "C" {
#endif
double rs_real(const char *name);                 /* fresh unconstrained real            */
int rs_int(const char *name, int lo, int hi);     /* every value in [lo,hi] is explored  */
int rs_sint(const char *name, int lo, int hi);    /* any integer in [lo,hi], kept symbolic      */
int rs_param(const char *name, int dflt);         /* job parameter                       */
void rs_assume(int cond);
void rs_assert(int cond, const char *msg);
void rs_eq(double a, double b, const char *msg);  /* a == b for every input on this path */
void rs_le(double a, double b, const char *msg);
void rs_lt(double a, double b, const char *msg);
int rs_same(double a, double b);                   /* identical as functions of the inputs (syntactic, no case split) */
void rs_reach(const char *label);
long rs_live_heap(void);
int rs_is_native(void);
void rs_debug(const char *msg, double x);
#ifdef __cplusplus
}
#endif
#endif
