/* libm models. Default: an arbitrary result within the documented range. */
#include "v.h"
#ifdef V_CBMC
/* arbitrary but consistent functions: equal arguments give equal results */
double __CPROVER_uninterpreted_exp(double);
double __CPROVER_uninterpreted_log(double);
double __CPROVER_uninterpreted_log2(double);
double __CPROVER_uninterpreted_sin(double);
double __CPROVER_uninterpreted_cos(double);
double __CPROVER_uninterpreted_tanh(double);
double __CPROVER_uninterpreted_sqrt(double);
double __CPROVER_uninterpreted_pow(double, double);
#define UF1(f, x) __CPROVER_uninterpreted_##f(x)
#define UF2(f, x, y) __CPROVER_uninterpreted_##f(x, y)
#else
#define UF1(f, x) nd_any_double()
#define UF2(f, x, y) nd_any_double()
#endif
double v_exp(double x) { double v_in_d = UF1(exp, x); double r = v_in_d; V_ASSUME(r >= 0 && r <= V_DBL_MAX); V_ASSUME(x != 0 || r == 1); V_ASSUME(x > 0 || r <= 1); V_ASSUME(x < 0 || r >= 1); return r; }
double v_log(double x) { if (v_norm_fixed) return -0.5; double v_in_d = UF1(log, x); double r = v_in_d; V_ASSUME(x < 1 || r >= 0); V_ASSUME(x > 1 || r <= 0); V_ASSUME(r >= -746 && r <= 710); return r; }
double v_expm1(double x) { return v_exp(x) - 1; }
double v_log1p(double x) { return v_log(1 + x); }
double v_sin(double x) { if (v_norm_fixed == 2) return x + 1; if (v_norm_fixed) return v_norm_value; double v_in_d = UF1(sin, x); double r = v_in_d; V_ASSUME(r >= -1 && r <= 1); return r; }
double v_cos(double x) { if (v_norm_fixed == 2) return x; if (v_norm_fixed) return v_norm_value; double v_in_d = UF1(cos, x); double r = v_in_d; V_ASSUME(r >= -1 && r <= 1); return r; }
double v_tanh(double x) { double v_in_d = UF1(tanh, x); double r = v_in_d; V_ASSUME(r >= -1 && r <= 1); V_ASSUME(x < 0 || r >= 0); V_ASSUME(x > 0 || r <= 0); return r; }
double v_sqrt(double x) { if (x == 0 || x == 1) return x; if (x == 4) return 2; double v_in_d = UF1(sqrt, x); double r = v_in_d; V_ASSUME(r >= 0); V_ASSUME(x < 1 || (r >= 1 && r <= x)); V_ASSUME(x > 1 || (r <= 1 && r >= x)); return r; }
double v_pow(double x, double y)
{
    if (y == 0 || y == 1 || y == 2 || y == 3 || y == 4 || y == 5 || y == -1 || y == -2 || y == -3 || y == -4 || y == -5) {
        /* integer exponents: by multiplication */
        double r = 1;
        const int n = (int) (y < 0 ? -y : y);
        if (n >= 1) r = r * x;
        if (n >= 2) r = r * x;
        if (n >= 3) r = r * x;
        if (n >= 4) r = r * x;
        if (n >= 5) r = r * x;
        return y < 0 ? 1 / r : r;
    }
    double v_in_d = UF2(pow, x, y);
    double r = v_in_d;
    V_ASSUME(!(x > 0) || r >= 0);
    V_ASSUME(!(x >= 1 && y <= 0) || r <= 1);
    V_ASSUME(!(x >= 1 && y >= 0) || r >= 1);
    return r;
}
double v_log2(double x)
{
    if (x == 1) return 0;
    if (x == 2) return 1;
    if (x == 4) return 2;
    if (x == 8) return 3;
    if (x == 16) return 4;
    if (x == 32) return 5;
    double v_in_d = UF1(log2, x);
    double r = v_in_d;
    V_ASSUME(x > 1 || r < 0);
    V_ASSUME(x < 1 || r > 0);
    V_ASSUME(x < 2 || r > 1);
    V_ASSUME(x > 2 || r < 1);
    V_ASSUME(x < 4 || r > 2);
    V_ASSUME(x > 4 || r < 2);
    V_ASSUME(x < 8 || r > 3);
    V_ASSUME(x > 8 || r < 3);
    V_ASSUME(x < 16 || r > 4);
    V_ASSUME(x > 16 || r < 4);
    V_ASSUME(x < 32 || r > 5);
    V_ASSUME(x > 32 || r < 5);
    return r;
}
double v_strtod(const char *s, char **end)
{
    (void) s;
    if (end) *end = (char *) s;
    V_ASSERT(s != NULL, "strtod is given a string");
    volatile char c = s[0]; /* must be readable */
    (void) c;
    return nd_double();
}

/* exact models */
double v_floor(double x)
{
    if (!(x > -1e6 && x < 1e6)) return x; /* outside: integral already in the narrow formats used; stated bound otherwise */
    int i = (int) x;
    double r = (double) i;
    return r > x ? r - 1 : r;
}
double v_ceil(double x)
{
    if (!(x > -1e6 && x < 1e6)) return x;
    int i = (int) x;
    double r = (double) i;
    return r < x ? r + 1 : r;
}
double v_round(double x)
{
    if (!(x > -1e6 && x < 1e6)) return x;
    int i = (int) x;
    double r = (double) i;
    double f = x - r;
    if (f >= 0.5) return r + 1;
    if (f <= -0.5) return r - 1;
    return r;
}
double v_fabs(double x) { return x < 0 ? -x : (x == 0 ? 0 : x); }
double v_fmax(double a, double b) { if (a != a) return b; if (b != b) return a; return a < b ? b : a; }
double v_fmin(double a, double b) { if (a != a) return b; if (b != b) return a; return b < a ? b : a; }
