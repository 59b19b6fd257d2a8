//@ property P23
//@ default fmt=16.10 func=h_linear unwind=12 timeout=400 checks=mem kinds="cond:dummy;act:integer;pred:nlms;loss:loss_mae"
//@ case name=nlms_compute defs="-DCOMPUTE -DPRED=PRED_TYPE_NLMS_LINEAR -DXD=2" bounds="2 inputs, 2 outputs, inputs and weights on grids"
//@ case name=nlms2_compute defs="-DCOMPUTE -DPRED=PRED_TYPE_NLMS_QUADRATIC -DXD=2" bounds="2 inputs, 2 outputs, inputs and weights on grids"
//@ case name=rls_compute defs="-DCOMPUTE -DPRED=PRED_TYPE_RLS_LINEAR -DXD=2" kinds="cond:dummy;act:integer;pred:rls" bounds="2 inputs, 2 outputs, inputs and weights on grids"
//@ case name=rls2_compute defs="-DCOMPUTE -DPRED=PRED_TYPE_RLS_QUADRATIC -DXD=2" kinds="cond:dummy;act:integer;pred:rls" bounds="2 inputs, 2 outputs, inputs and weights on grids"
//@ case name=nlms_update func=h_nlms defs="-DNLMS -DPRED=PRED_TYPE_NLMS_LINEAR -DXD=3" bounds="3 inputs, 2 outputs, values on grids, norms that are powers of two"
//@ case name=nlms2_update func=h_nlms defs="-DNLMS -DPRED=PRED_TYPE_NLMS_QUADRATIC -DXD=2" bounds="2 inputs, 2 outputs, values on grids, norms that are powers of two"
//@ case name=rls_update func=h_rls defs="-DRLS" kinds="cond:dummy;act:integer;pred:rls" bounds="one input, 2 outputs, gain matrix and values on grids, divisors that are powers of two"
//@ case name=constant func=h_constant defs="-DCONSTANT" kinds="cond:dummy;act:integer;pred:constant" bounds="2 outputs, any experience, values on grids"
//@ case name=init func=h_fresh defs="-DFRESH -DPRED=PRED_TYPE_NLMS_QUADRATIC" bounds="2 inputs, 2 outputs, any draws"
//@ case name=init_rls func=h_fresh defs="-DFRESH -DPRED=PRED_TYPE_RLS_LINEAR" kinds="cond:dummy;act:integer;pred:rls" bounds="2 inputs, 2 outputs"
//@ case name=eta func=h_eta defs="-DETA" fmt=16.7 bounds="any learning rate, mutation rate and draws"
#include "same.h"
#ifdef PRED
#define IS_RLS (PRED == PRED_TYPE_RLS_LINEAR || PRED == PRED_TYPE_RLS_QUADRATIC)
#define IS_QUAD (PRED == PRED_TYPE_NLMS_QUADRATIC || PRED == PRED_TYPE_RLS_QUADRATIC)
static double *weights(struct Cl *c, int *n)
{
    if (IS_RLS) { struct PredRLS *p = c->pred; *n = p->n; return p->weights; }
    struct PredNLMS *p = c->pred;
    *n = p->n;
    return p->weights;
}
#endif
#if defined(COMPUTE) || defined(NLMS)
#define NF (IS_QUAD ? 1 + XD + XD * (XD + 1) / 2 : 1 + XD)
/* the terms of the polynomial: constant, linear, products of inputs */
static void terms(const double *x, double *f)
{
    int k = 0;
    f[k++] = X.pred->x0;
    for (int i = 0; i < XD; ++i) f[k++] = x[i];
    if (IS_QUAD) for (int i = 0; i < XD; ++i) for (int j = i; j < XD; ++j) f[k++] = x[i] * x[j];
}
#endif
#ifdef COMPUTE
void h_linear(void)
{
    v_rng_mode = 2;
    hx_init(XD, 2, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED);
    X.pred->x0 = nd_grid(1, 2, 1);
    struct Cl *c = hx_new(1);
    double x[XD], f[10], y[10];
    int n;
    double *w = weights(c, &n);
    V_ASSERT(n == NF, "one weight per term and output");
    for (int i = 0; i < XD; ++i) { x[i] = nd_grid(-2, 2, 0.5); y[i] = x[i]; }
    double keep[20];
    for (int i = 0; i < n * 2; ++i) { w[i] = nd_grid(-2, 2, 1); keep[i] = w[i]; }
    const double *p = cl_predict(&X, c, x);
    terms(x, f);
    for (int o = 0; o < 2; ++o) {
        double s = 0;
        for (int i = 0; i < n; ++i) s += f[i] * w[o * n + i];
        V_ASSERT(p[o] == s && c->prediction[o] == s, "a linear prediction is the weighted sum of the input's terms");
    }
    for (int i = 0; i < n * 2; ++i) V_ASSERT(w[i] == keep[i], "predicting changes no weight");
    for (int i = 0; i < XD; ++i) V_ASSERT(x[i] == y[i], "predicting does not change the input");
    V_REACH();
}
#endif
#ifdef NLMS
void h_nlms(void)
{
    v_rng_mode = 2;
    hx_init(XD, 2, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED);
    X.pred->x0 = 1;
    struct Cl *c = hx_new(1);
    struct PredNLMS *m = c->pred;
    const int n = m->n;
    m->eta = nd_grid(0, 4, 0.25);
    double x[XD], y[2], f[10], keep[20], e[2], norm = 1;
    for (int i = 0; i < XD; ++i) { x[i] = nd_int(-1, 1); norm += x[i] * x[i]; }
    V_ASSUME(norm == 1 || norm == 2 || norm == 4);
    for (int i = 0; i < n * 2; ++i) { m->weights[i] = nd_grid(-2, 2, 1); keep[i] = m->weights[i]; }
    for (int o = 0; o < 2; ++o) y[o] = nd_grid(-2, 2, 1);
    cl_predict(&X, c, x);
    for (int o = 0; o < 2; ++o) e[o] = y[o] - c->prediction[o];
    pred_update(&X, c, x, y);
    terms(x, f);
    for (int o = 0; o < 2; ++o) for (int i = 0; i < n; ++i)
        V_ASSERT(m->weights[o * n + i] == keep[o * n + i] + m->eta * e[o] * f[i] / norm, "normalised least mean squares moves the weights along the input by the learning rate times the error over the input's norm");
    V_REACH();
}
#endif
#ifdef RLS
void h_rls(void)
{
    v_rng_mode = 2;
    hx_init(1, 2, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_RLS_LINEAR);
    X.pred->x0 = 1;
    X.pred->lambda = nd_bool() ? 1 : 0.5;
    struct Cl *c = hx_new(1);
    struct PredRLS *m = c->pred;
    double P[2][2], w[4], x[1], y[2], e[2];
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { P[i][j] = nd_int(-1, 2); m->matrix[i * 2 + j] = P[i][j]; }
    for (int i = 0; i < 4; ++i) { w[i] = nd_int(-1, 1); m->weights[i] = w[i]; }
    for (int i = 0; i < 4; ++i) m->tmp_matrix1[i] = m->tmp_matrix2[i] = 3; /* left over from before */
    x[0] = nd_int(-1, 2);
    for (int o = 0; o < 2; ++o) y[o] = nd_int(-1, 1);
    const double f[2] = { 1, x[0] };
    const double v[2] = { P[0][0] + P[0][1] * x[0], P[1][0] + P[1][1] * x[0] };
    const double div = X.pred->lambda + v[0] + v[1] * x[0];
    V_ASSUME(div == 0.5 || div == 1 || div == 2 || div == 4);
    cl_predict(&X, c, x);
    for (int o = 0; o < 2; ++o) e[o] = y[o] - (w[o * 2] + w[o * 2 + 1] * x[0]);
    pred_update(&X, c, x, y);
    for (int o = 0; o < 2; ++o) for (int i = 0; i < 2; ++i)
        V_ASSERT(m->weights[o * 2 + i] == w[o * 2 + i] + e[o] * v[i] / div, "recursive least squares moves the weights by the gain times the error");
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
        const double fP = P[0][j] + f[1] * P[1][j];
        V_ASSERT(m->matrix[i * 2 + j] == (P[i][j] - v[i] / div * fP) / X.pred->lambda, "the gain matrix follows the recursive least squares update");
    }
    V_REACH();
}
#endif
#ifdef CONSTANT
void h_constant(void)
{
    v_rng_mode = 2;
    hx_init(1, 2, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.BETA = 0.25;
    struct Cl *c = hx_new(1);
    c->exp = nd_int(1, 1000);
    V_ASSUME(c->exp != 3); /* 1/3 is not exact */
    double p[2], y[2], x[1] = { 0 };
    for (int o = 0; o < 2; ++o) { p[o] = nd_grid(-8, 8, 0.25); y[o] = nd_grid(-8, 8, 0.25); c->prediction[o] = p[o]; }
    const double *q = cl_predict(&X, c, x);
    V_ASSERT(q[0] == p[0] && q[1] == p[1], "a constant prediction does not depend on the input");
    pred_update(&X, c, x, y);
    for (int o = 0; o < 2; ++o) {
        const double d = y[o] - p[o];
        V_ASSERT(c->prediction[o] == p[o] + (c->exp == 1 ? d : c->exp == 2 ? d / 2 : d / 4), "a constant prediction is the mean of the targets, then moves by the learning rate");
    }
    V_REACH();
}
#endif
#ifdef FRESH
void h_fresh(void)
{
    v_rng_mode = 0;
    hx_init(2, 2, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED);
    X.pred->evolve_eta = nd_bool();
    X.pred->scale_factor = nd_grid(1, 8, 4);
    struct Cl *c = hx_new(1);
    int n;
    double *w = weights(c, &n);
    for (int i = 0; i < 2 * n; ++i) V_ASSERT(i % n == 0 || w[i] == 0, "new rules start without slope");
    if (IS_RLS) {
        struct PredRLS *p = c->pred;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) V_ASSERT(p->matrix[i * n + j] == (i == j ? X.pred->scale_factor : 0), "the gain matrix starts as the scaled identity");
    } else {
        struct PredNLMS *p = c->pred;
        V_ASSERT(X.pred->evolve_eta ? p->eta >= X.pred->eta_min && p->eta <= X.pred->eta : p->eta == X.pred->eta, "the learning rate starts within its range");
    }
    V_REACH();
}
#endif
#ifdef ETA
void h_eta(void)
{
    v_rng_mode = 0;
    hx_init(1, 1, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_NLMS_LINEAR);
    X.pred->evolve_eta = nd_bool();
    X.pred->eta = nd_unit(); X.pred->eta_min = nd_unit();
    V_ASSUME(X.pred->eta_min <= X.pred->eta);
    struct Cl *c = hx_new(1);
    struct PredNLMS *p = c->pred;
    p->eta = nd_unit();
    V_ASSUME(p->eta >= X.pred->eta_min && p->eta <= X.pred->eta);
    p->mu[0] = nd_unit();
    p->weights[0] = 1; p->weights[1] = 2;
    const double old = p->eta;
    const bool changed = pred_mutate(&X, c);
    V_ASSERT(p->eta >= X.pred->eta_min && p->eta <= X.pred->eta, "evolved learning rates stay within their range");
    V_ASSERT(X.pred->evolve_eta || p->eta == old, "learning rates change only if they evolve");
    V_ASSERT(changed == (p->eta != old), "a change is reported exactly when one was made");
    V_ASSERT(p->weights[0] == 1 && p->weights[1] == 2, "mutation changes no weight");
    V_REACH();
}
#endif
