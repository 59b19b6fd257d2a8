#include "v.h"
int v_norm_fixed;
double v_norm_value;
#include <stdarg.h>
int v_exit_ok = 1;
int v_exit_reach = 0;
int v_rng_mode = 0;
double v_rng_value = 0.5;
double v_rng_seq[8];
int v_rng_len = 0, v_rng_pos = 0, v_rng_after = 0;

#ifdef V_CBMC
double nondet_double(void);
int nondet_int(void);
_Bool nondet_bool(void);
unsigned char nondet_uchar(void);
static double in_d(void) { double v_in_d = nondet_double(); return v_in_d; }
static int in_i(void) { int v_in_i = nondet_int(); return v_in_i; }
static unsigned char in_c(void) { unsigned char v_in_c = nondet_uchar(); return v_in_c; }
#else
#include <unistd.h>
static FILE *rf;
static unsigned long long in_raw(const char *kind)
{
    char k[8];
    unsigned long long u = 0;
    if (!rf) {
        const char *n = getenv("V_REPLAY");
        rf = n ? fopen(n, "r") : NULL;
    }
    if (!rf || fscanf(rf, "%7s %llx", k, &u) != 2) {
        fflush(stdout);
        fprintf(stderr, "REPLAY: inputs exhausted\n");
        _exit(4);
    }
    if (k[0] != kind[0]) {
        fflush(stdout);
        fprintf(stderr, "REPLAY: input kind mismatch\n");
        _exit(5);
    }
    return u;
}
static double in_d(void) { unsigned long long u = in_raw("d"); _Float64 d; memcpy(&d, &u, 8); return (double) d; }
static int in_i(void) { return (int) (unsigned) in_raw("i"); }
static unsigned char in_c(void) { return (unsigned char) in_raw("c"); }
void v_assume_failed(void) { fflush(stdout); fprintf(stderr, "REPLAY: assumption not met\n"); _exit(3); }
void v_assert_failed(const char *msg) { fflush(stdout); fprintf(stderr, "REPLAY: ASSERTION FAILED: %s\n", msg); _exit(1); }
void v_reach(void) { fprintf(stderr, "REPLAY: end of harness reached\n"); }
#endif

double nd_any_double(void) { return in_d(); }
double nd_double(void)
{
    double d = in_d();
    V_ASSUME(d >= -1e6 && d <= 1e6);
    return d;
}
double nd_unit(void)
{
    double d = in_d();
    V_ASSUME(d >= 0 && d <= 1);
    return d;
}
int nd_int(int lo, int hi)
{
    int i = in_i();
    V_ASSUME(i >= lo && i <= hi);
    return i;
}
bool nd_bool(void)
{
    unsigned char c = in_c();
    V_ASSUME(c <= 1);
    return c == 1;
}
unsigned char nd_byte(void) { return in_c(); }
double nd_small(int lo, int hi) { return (double) nd_int(lo, hi); }
double nd_grid(int lo, int hi, double step) { return nd_int(lo, hi) * step; }

bool v_same(double a, double b)
{
    if (a != a) return b != b; /* NaN */
    if (a == 0) return b == 0;
    return a == b;
}

#define V_RNG_TAB 128
static double v_rng_tab[V_RNG_TAB];
static int v_rng_drawn;
int v_rng_seeded;
uint32_t v_rng_seed;
double v_rng_grid = 0;
static double v_rng_fresh(void)
{
    if (v_rng_grid > 0) {
        int i = in_i();
        V_ASSUME(i >= 1 && i <= 7);
        return i * v_rng_grid;
    }
    double u = in_d();
    V_ASSUME(u > 0 && u < 1);
    return u;
}
/* RNG: an arbitrary value in (0,1) */
double dsfmt_gv_genrand_open_open(void)
{
    if (v_rng_mode == 2) {
        return 0.5;
    }
    if (v_rng_mode == 4) {
        if (v_rng_pos < v_rng_len) return v_rng_seq[v_rng_pos++];
        v_rng_mode = v_rng_after;
    }
    if (v_rng_mode == 5) { /* the sequence a seed determines */
        if (v_rng_pos == v_rng_drawn) {
#ifdef V_CBMC
            __CPROVER_assert(v_rng_drawn < V_RNG_TAB, "BOUND: number of random draws");
#endif
            v_rng_tab[v_rng_drawn++] = v_rng_fresh();
        }
        return v_rng_tab[v_rng_pos++];
    }
    if (v_rng_mode == 3) {
        return v_rng_value;
    }
    if (v_rng_mode == 1) {
        int i = in_i();
        V_ASSUME(i >= 1 && i <= 7);
        return i * 0.125;
    }
    double u = in_d();
    V_ASSUME(u > 0 && u < 1);
    return u;
}
/* mode 5: a seed fixes an arbitrary sequence of draws */
void dsfmt_gv_init_gen_rand(uint32_t seed)
{
    v_rng_seed = seed;
    ++v_rng_seeded;
    if (v_rng_mode == 5) v_rng_pos = 0;
}
void omp_set_num_threads(int n) { (void) n; }

int v_printf(const char *fmt, ...) { (void) fmt; return 0; }
int v_fprintf(FILE *f, const char *fmt, ...) { (void) f; (void) fmt; return 0; }
int v_fflush(FILE *f) { (void) f; return 0; }

__attribute__((noreturn)) void v_exit(int status)
{
    (void) status;
#ifdef V_CBMC
    if (v_exit_reach) {
        __CPROVER_assert(0, "WITNESS");
    }
    __CPROVER_assert(v_exit_ok, "the program must not give up (exit) here");
    __CPROVER_assume(0);
    for (;;) { }
#else
    fprintf(stderr, "REPLAY: exit() called\n");
    if (!v_exit_ok) {
        v_assert_failed("the program must not give up (exit) here");
    }
    _exit(0);
#endif
}
size_t v_strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i] != 0) ++i; return i; }
