//@ property P06
//@ default unwind=5 timeout=300 kinds="cond:dummy;act:integer;pred:constant;loss:loss_mae"
//@ case name=upd_early func=h_upd defs="-DEXP=2 -DBETA_=0.25" bounds="experience 2, learning rate 1/4: running average phase; values on grids"
//@ case name=upd_first func=h_upd defs="-DEXP=0 -DBETA_=0.25" bounds="first update"
//@ case name=upd_late func=h_upd defs="-DEXP=9 -DBETA_=0.25" bounds="experience 9: fixed learning rate"
//@ case name=upd_edge func=h_upd defs="-DEXP=3 -DBETA_=0.25" bounds="experience reaches 4 = 1/learning rate"
//@ case name=acc func=h_acc defs="-DACC" bounds="error k/8, target error 1/2, exponent 1"
//@ case name=fit1 func=h_fit defs="-DFIT -DNR=1" bounds="1 rule"
//@ case name=fit2 func=h_fit defs="-DFIT -DNR=2" cost=40 timeout=400 bounds="2 rules, accuracies 1 or 1/16..1/4"
//@ case name=setsum func=h_sum defs="-DSUM" bounds="2 rules of equal accuracy"
#include "hx.h"
#include "act_integer.h"
#ifdef EXP
void h_upd(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 2, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.BETA = BETA_;
    struct Cl *c = hx_add(1), *d = hx_add(2);
    double *p = c->prediction;
    c->exp = EXP;
    const double err = c->err, size = c->size;
    const int num = c->num, age = c->age, mt = c->mtotal, time = c->time;
    const double p0 = nd_small(-4, 4);
    p[0] = p0;
    double x[1] = { 0 }, y[1];
    y[0] = nd_small(-4, 4);
    const double de = d->err, df = d->fit;
    const int dx = d->exp;
    const double e = y[0] > p0 ? y[0] - p0 : p0 - y[0];
    const int set_num = nd_int(1, 8);
    const double fit = c->fit;
    cl_update(&X, c, x, y, set_num, true);
    V_ASSERT(c->exp == EXP + 1, "an update adds one to the experience");
    const int n = EXP + 1;
    if (n * BETA_ < 1) {
        V_ASSERT(c->err == (err * (n - 1) + e) / n, "while inexperienced the error is the average of the errors seen");
        V_ASSERT(c->size == (size * (n - 1) + set_num) / n, "while inexperienced the set size is the average of the sizes seen");
        V_ASSERT(p[0] == (p0 * (n - 1) + y[0]) / n, "while inexperienced a constant prediction is the average of the targets");
    } else {
        V_ASSERT(c->err == err + BETA_ * (e - err), "the error moves towards the loss of the prediction made before the update");
        V_ASSERT(c->size == size + BETA_ * (set_num - size), "the set size estimate moves towards the set's size");
        V_ASSERT(p[0] == p0 + BETA_ * (y[0] - p0), "a constant prediction moves towards the target");
    }
    V_ASSERT(c->fit == fit && c->num == num && c->age == age && c->mtotal == mt && c->time == time, "an update changes nothing else of the rule");
    V_ASSERT(d->err == de && d->fit == df && d->exp == dx, "an update changes no other rule");
    V_REACH();
}
#endif
#ifdef ACC
void h_acc(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 2, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.E0 = 0.5; X.ALPHA = 0.25; X.NU = 1;
    struct Cl *a = hx_new(1), *b = hx_new(1);
    a->err = nd_grid(0, 32, 0.125);
    b->err = nd_grid(0, 32, 0.125);
    const double ka = cl_acc(&X, a), kb = cl_acc(&X, b);
    V_ASSERT(ka > 0 && ka <= 1, "accuracy lies in (0,1]");
    V_ASSERT((ka == 1) == (a->err <= X.E0), "accuracy is one exactly up to the target error");
    V_ASSERT(a->err > b->err || ka >= kb, "a larger error never gives a larger accuracy");
    if (a->err > X.E0) V_ASSERT(ka == 0.25 * (1 / (a->err / 0.5)), "accuracy falls with the power of the relative error");
    V_REACH();
}
#endif
#ifdef FIT
void h_fit(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 2, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.E0 = 0.5; X.ALPHA = 0.5; X.NU = 1; X.BETA = 0.5;
    struct Cl *c[2] = {0};
    double f[2], e[2], k[2], sum = 0;
    double x[1] = { 0 }, y[1] = { 0 };
    for (int i = 0; i < NR; ++i) {
        c[i] = hx_add(i + 1);
        c[i]->exp = 4;
        f[i] = c[i]->fit;
        /* error after the update: half way between err and the loss |0-p| */
        const int q = nd_int(0, 2);
        e[i] = q == 0 ? 0.25 : q == 1 ? 1.0 : 4.0;
        c[i]->err = e[i];
        c[i]->prediction[0] = nd_bool() ? e[i] : -e[i];
        clset_add(&X.mset, c[i]);
        k[i] = q == 0 ? 1 : q == 1 ? 0.25 : 0.0625;
        sum += k[i] * c[i]->num;
    }
    struct Cl *o = hx_add(1);
    const double of = o->fit;
    clset_update(&X, &X.mset, x, y, true);
    for (int i = 0; i < NR; ++i) {
        V_ASSERT(c[i]->err == e[i], "the error moves towards the loss");
        const double want = f[i] + 0.5 * ((k[i] * c[i]->num) / sum - f[i]);
        const double d = c[i]->fit - want;
        V_ASSERT(d <= 0.02 && d >= -0.02, "fitness moves towards the rule's share of the set's accuracy");
        V_ASSERT(c[i]->exp == 5, "every rule of the set is updated once");
    }
    V_ASSERT(o->fit == of && o->exp <= 100, "rules outside the set keep their fitness");
    V_REACH();
}
#endif
#ifdef SUM
void h_sum(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 2, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.E0 = 0.5; X.BETA = 0.5;
    struct Cl *a = hx_add(1), *b = hx_add(3);
    a->err = 0; b->err = 0; a->exp = 4; b->exp = 4;
    a->prediction[0] = 0; b->prediction[0] = 0;
    const double fa = a->fit, fb = b->fit;
    clset_add(&X.mset, a);
    clset_add(&X.mset, b);
    double x[1] = { 0 }, y[1] = { 0 };
    clset_update(&X, &X.mset, x, y, true);
    V_ASSERT(a->fit == fa + 0.5 * (0.25 - fa) && b->fit == fb + 0.5 * (0.75 - fb), "equally accurate rules share fitness by numerosity");
    V_REACH();
}
#endif
