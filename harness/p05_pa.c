//@ property P05
//@ default unwind=5 timeout=300 kinds="cond:dummy;act:integer;pred:constant"
//@ case name=pa_2x1 func=h_pa defs="-DNA=2 -DYD=1 -DNR=2" bounds="2 rules, 2 actions, 1 output; predictions -4..4, fitness k/8"
//@ case name=pa_1x2 func=h_pa defs="-DNA=1 -DYD=2 -DNR=2" bounds="2 rules, 1 action, 2 outputs"
//@ case name=pa_2x2 func=h_pa defs="-DNA=2 -DYD=2 -DNR=2" bounds="2 rules, 2 actions, 2 outputs"
//@ case name=pa_3r func=h_pa defs="-DNA=2 -DYD=1 -DNR=3 -DSMALL" cost=20 bounds="3 rules, 2 actions, predictions -1..1, fitness k/2"
//@ case name=pa_empty func=h_empty defs="-DNA=2 -DYD=1"
//@ case name=best func=h_best defs="-DBEST -DNA=3" bounds="3 actions, any value of the number format"
//@ case name=rand func=h_rand defs="-DRAND -DNA=3" uwa=0 bounds="3 actions, at most 4 draws"
//@ case name=val func=h_val defs="-DVAL -DNA=3"
#include "hx.h"
#include "act_integer.h"
#ifdef SMALL
#define PR 1
#else
#define PR 4
#endif
#define ACTION(c) (((struct ActInteger *) (c)->act)->action)
#ifdef NR
void h_pa(void)
{
    v_rng_mode = 2;
    hx_init(1, YD, NA, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *c[NR];
    double p[NR][YD];
    double fit[NR];
    for (int i = 0; i < NR; ++i) {
        c[i] = hx_add(i + 1);
#ifdef SMALL
        c[i]->fit = nd_grid(1, 2, 0.5);
#endif
        fit[i] = c[i]->fit;
        ACTION(c[i]) = nd_int(0, NA - 1);
        for (int j = 0; j < YD; ++j) { p[i][j] = nd_small(-PR, PR); c[i]->prediction[j] = p[i][j]; }
    }
    for (int k = 0; k < NA * YD; ++k) { X.pa[k] = nd_small(-9, 9); X.nr[k] = nd_small(-9, 9); } /* left over from before */
    double x[1] = { 0 };
    clset_match(&X, x, false);
    pa_build(&X, x);
    for (int a = 0; a < NA; ++a) for (int j = 0; j < YD; ++j) {
        double s = 0, w = 0;
        for (int i = 0; i < NR; ++i) if (ACTION(c[i]) == a) { s += p[i][j] * fit[i]; w += fit[i]; }
        const double want = w != 0 ? s / w : 0;
        V_ASSERT(X.pa[a * YD + j] == want, "the system prediction is the fitness-weighted mean of the matching rules with the action");
        V_ASSERT(X.nr[a * YD + j] == w, "the weight of an action is the total fitness advocating it");
        if (YD == 1) V_ASSERT(pa_val(&X, a) == want, "the value reported for an action is its prediction");
    }
    for (int i = 0; i < NR; ++i) V_ASSERT(c[i]->fit == fit[i] && c[i]->num == i + 1, "predicting changes no rule");
    V_REACH();
}
#endif
void h_empty(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 2, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.pa[0] = nd_small(-9, 9); X.pa[1] = nd_small(-9, 9); X.nr[0] = nd_small(-9, 9); X.nr[1] = nd_small(-9, 9);
    double x[1] = { 0 };
    pa_build(&X, x);
    V_ASSERT(X.pa[0] == 0 && X.pa[1] == 0 && X.nr[0] == 0 && X.nr[1] == 0, "without matching rules the prediction is zero");
    V_REACH();
}
#ifdef BEST
void h_best(void)
{
    hx_init(1, 1, NA, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    for (int a = 0; a < NA; ++a) X.pa[a] = nd_double();
    v_rng_mode = 1;
    const int b = pa_best_action(&X);
    V_ASSERT(b >= 0 && b < NA, "the best action is one of the actions");
    double m = X.pa[0];
    for (int a = 0; a < NA; ++a) {
        V_ASSERT(X.pa[a] <= X.pa[b], "no action has a higher prediction than the best one");
        if (X.pa[a] > m) m = X.pa[a];
    }
    V_ASSERT(pa_best_val(&X) == m, "the best value is the largest prediction");
    V_REACH();
}
#endif
#ifdef RAND
void h_rand(void)
{
    hx_init(1, 1, NA, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    for (int a = 0; a < NA; ++a) X.nr[a] = nd_grid(0, 8, 0.125);
    const int b = pa_rand_action(&X);
    V_ASSERT(b >= 0 && b < NA, "a random action is one of the actions");
    V_ASSERT(X.nr[b] > 0, "a random action is advocated by some matching rule");
    V_REACH();
}
#endif
#ifdef VAL
void h_val(void)
{
    hx_init(1, 1, NA, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    for (int a = 0; a < NA; ++a) X.pa[a] = nd_double();
    const int a = nd_int(-2, NA + 1);
    const double v = pa_val(&X, a);
    V_ASSERT(a >= 0 && a < NA, "the value of an unknown action is refused");
    V_ASSERT(v == X.pa[a], "the value reported for an action is its prediction");
    V_REACH();
}
#endif
