//@ property P04
//@ default func=h_rect unwind=5 timeout=300 kinds="cond:rectangle;act:integer;pred:constant"
//@ case name=gen_csr2 fmt=64 defs="-DRECT=COND_TYPE_HYPERRECTANGLE_CSR -DXD=2" bounds="2 inputs, any finite C double up to 1e6"
//@ case name=gen_ubr2 fmt=64 defs="-DRECT=COND_TYPE_HYPERRECTANGLE_UBR -DXD=2" bounds="2 inputs, any finite C double up to 1e6"
//@ case name=gen_tern func=h_tern kinds="cond:ternary;act:integer;pred:constant" defs="-DTERN -DXD=2 -DBITS=2" bounds="2 inputs of 2 bits"
//@ case name=gen_ellip1 func=h_ellip kinds="cond:ellipsoid;act:integer;pred:constant" defs="-DELLIP -DXD=1" bounds="1 input, spreads powers of two, values on a 1/4 grid"
//@ case name=gen_ellip2c func=h_ellip kinds="cond:ellipsoid;act:integer;pred:constant" defs="-DELLIP -DXD=2 -DCONCENTRIC" bounds="2 inputs, equal centres, spreads powers of two, values on a 1/4 grid"
//@ case name=gen_ellip2 func=h_ellip kinds="cond:ellipsoid;act:integer;pred:constant" defs="-DELLIP -DXD=2" known=KF1 kassert="a more general rule matches whatever the specific one matches" bounds="2 inputs, any centres: the recorded finding"
//@ case name=gen_other func=h_other kinds="cond:dummy;act:integer;pred:constant" defs="-DOTHER"
//@ case name=subs_set func=h_subs defs="-DSUBS" unwind=4 cost=50 bounds="2 rules, 1 input on a 1/8 grid, numerosities 1 and 2"
//@ case name=subs_set3 func=h_subs3 defs="-DSUBS3" unwind=5 cost=60 bounds="3 rules, concrete nesting, symbolic experience and error"
#include "hx.h"
#include "cond_rectangle.h"
#include "cond_ellipsoid.h"
#include "cond_ternary.h"
#include "act_integer.h"
#define ACTION(c) (((struct ActInteger *) (c)->act)->action)
#ifdef RECT
static struct Cl *mk(void)
{
    struct Cl *c = hx_new(1);
    struct CondRectangle *r = c->cond;
    for (int i = 0; i < XD; ++i) {
        r->b1[i] = nd_double();
        r->b2[i] = nd_double();
    }
    ACTION(c) = nd_int(0, 1);
    return c;
}
void h_rect(void)
{
    v_rng_mode = 2;
    hx_init(XD, 1, 2, RECT, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *a = mk(), *b = mk();
    double x[XD];
    for (int i = 0; i < XD; ++i) x[i] = nd_double();
    const bool g = cl_general(&X, a, b);
    if (g) {
        V_ASSERT(ACTION(a) == ACTION(b), "a more general rule advocates the same action");
        V_ASSERT(!cond_match(&X, b, x) || cond_match(&X, a, x), "a more general rule matches whatever the specific one matches");
    }
    /* and a rule is recognised as more general when it contains the other */
    const struct CondRectangle *p = a->cond, *q = b->cond;
    bool inside = ACTION(a) == ACTION(b);
    for (int i = 0; i < XD; ++i) {
        double l1 = p->b1[i] - p->b2[i], u1 = p->b1[i] + p->b2[i], l2 = q->b1[i] - q->b2[i], u2 = q->b1[i] + q->b2[i];
        if (RECT == COND_TYPE_HYPERRECTANGLE_UBR) {
            l1 = p->b1[i] < p->b2[i] ? p->b1[i] : p->b2[i]; u1 = p->b1[i] < p->b2[i] ? p->b2[i] : p->b1[i];
            l2 = q->b1[i] < q->b2[i] ? q->b1[i] : q->b2[i]; u2 = q->b1[i] < q->b2[i] ? q->b2[i] : q->b1[i];
        }
        if (l2 < l1 || u2 > u1) inside = false;
    }
    V_ASSERT(!inside || g, "a rule that contains another with the same action is its generalisation");
    V_REACH();
}
#endif
#ifdef TERN
static struct Cl *mk(void)
{
    struct Cl *c = hx_new(1);
    struct CondTernary *t = c->cond;
    for (int i = 0; i < XD * BITS; ++i) {
        const int s = nd_int(0, 2);
        t->string[i] = s == 0 ? '0' : s == 1 ? '1' : '#';
    }
    ACTION(c) = nd_int(0, 1);
    return c;
}
void h_tern(void)
{
    v_rng_mode = 2;
    hx_param(XD, 1, 2, COND_TYPE_TERNARY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.cond->bits = BITS;
    hx_sets();
    xcsf_init(&X);
    struct Cl *a = mk(), *b = mk();
    double x[XD];
    for (int i = 0; i < XD; ++i) x[i] = nd_grid(-1, 9, 0.125);
    const bool g = cl_general(&X, a, b);
    if (g) {
        V_ASSERT(ACTION(a) == ACTION(b), "a more general rule advocates the same action");
        V_ASSERT(!cond_match(&X, b, x) || cond_match(&X, a, x), "a more general rule matches whatever the specific one matches");
    }
    bool inside = ACTION(a) == ACTION(b), same = true;
    const char *s = ((struct CondTernary *) a->cond)->string, *t = ((struct CondTernary *) b->cond)->string;
    for (int i = 0; i < XD * BITS; ++i) {
        if (s[i] != '#' && s[i] != t[i]) inside = false;
        if (s[i] != t[i]) same = false;
    }
    V_ASSERT(!inside || same || g, "a rule that strictly contains another with the same action is its generalisation");
    V_REACH();
}
#endif
#ifdef ELLIP
static struct Cl *mk(void)
{
    struct Cl *c = hx_new(1);
    struct CondEllipsoid *e = c->cond;
    for (int i = 0; i < XD; ++i) {
        const int k = nd_int(0, 2);
        e->center[i] = nd_grid(-4, 4, 0.25);
        e->spread[i] = k == 0 ? 0.5 : k == 1 ? 1.0 : 2.0;
    }
    ACTION(c) = nd_int(0, 1);
    return c;
}
void h_ellip(void)
{
    v_rng_mode = 2;
    hx_init(XD, 1, 2, COND_TYPE_HYPERELLIPSOID, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *a = mk(), *b = mk();
    double x[XD];
    const struct CondEllipsoid *p = a->cond, *q = b->cond;
    for (int i = 0; i < XD; ++i) x[i] = nd_grid(-8, 8, 0.25);
#ifdef CONCENTRIC
    for (int i = 0; i < XD; ++i) V_ASSUME(p->center[i] == q->center[i]);
#endif
    const bool g = cl_general(&X, a, b);
    if (g) {
        V_ASSERT(ACTION(a) == ACTION(b), "a more general rule advocates the same action");
        V_ASSERT(!cond_match(&X, b, x) || cond_match(&X, a, x), "a more general rule matches whatever the specific one matches");
    }
#if XD == 1
    const bool inside = ACTION(a) == ACTION(b) && q->center[0] - q->spread[0] >= p->center[0] - p->spread[0] && q->center[0] + q->spread[0] <= p->center[0] + p->spread[0];
    V_ASSERT(!inside || g, "a rule that contains another with the same action is its generalisation");
#endif
    V_REACH();
}
#endif
#ifdef OTHER
#include "cond_gp.h"
#include "cond_dgp.h"
#include "cond_neural.h"
#include "cond_dummy.h"
#include "rule_dgp.h"
#include "rule_neural.h"
#include "act_neural.h"
/* representations without a generality test never claim to be more general */
void h_other(void)
{
    hx_init(1, 1, 2, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *a = hx_new(1), *b = hx_new(1);
    ACTION(a) = nd_int(0, 1); ACTION(b) = nd_int(0, 1);
    V_ASSERT(!cond_gp_general(&X, a, b) && !cond_dgp_general(&X, a, b) && !cond_neural_general(&X, a, b) &&
             !rule_dgp_cond_general(&X, a, b) && !rule_neural_cond_general(&X, a, b), "no generality is claimed where none can be shown");
    V_REACH();
}
#endif
#ifdef SUBS
/* set subsumption after an update: who absorbs whom */
void h_subs(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 2, COND_TYPE_HYPERRECTANGLE_UBR, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.SET_SUBSUMPTION = true;
    X.THETA_SUB = nd_int(0, 4);
    X.E0 = 0.5;
    X.BETA = 0.5;
    struct Cl *c[2];
    for (int i = 0; i < 2; ++i) {
        c[i] = hx_add(i + 1);
        c[i]->exp = nd_int(1, 4);
        struct CondRectangle *r = c[i]->cond;
        r->b1[0] = nd_grid(0, 4, 0.125);
        r->b2[0] = nd_grid(4, 8, 0.125);
        ACTION(c[i]) = nd_int(0, 1);
        c[i]->err = nd_grid(0, 8, 0.125);
        clset_add(&X.mset, c[i]);
    }
    double x[1] = { 0.5 }, y[1];
    y[0] = 0;
    c[0]->prediction[0] = nd_grid(0, 8, 0.125);
    c[1]->prediction[0] = nd_grid(0, 8, 0.125);
    bool gen[2] = { cl_general(&X, c[0], c[1]), cl_general(&X, c[1], c[0]) };
    clset_update(&X, &X.mset, x, y, true);
    /* experience and error are those after the update */
    bool sub[2];
    for (int i = 0; i < 2; ++i) sub[i] = c[i]->exp > X.THETA_SUB && c[i]->err < X.E0;
    hx_books(&X.pset);
    hx_books(&X.mset);
    V_ASSERT(X.pset.num == 3, "subsumption conserves the total numerosity");
    V_ASSERT(X.mset.num == 3, "subsumption conserves the set's numerosity");
    for (int i = 0; i < 2; ++i) {
        const int j = 1 - i;
        if (!hx_in(&X.pset, c[i])) {
            V_ASSERT(hx_count(&X.kset, c[i]) == 1 && hx_count(&X.mset, c[i]) == 0, "an absorbed rule leaves every set and is freed once");
            V_ASSERT(sub[j], "only an experienced and accurate rule absorbs another");
            V_ASSERT(gen[j], "a rule only absorbs a more specific one");
            V_ASSERT(c[j]->num == 3, "the absorbing rule takes over the numerosity");
        }
    }
    if ((sub[0] && gen[0]) != (sub[1] && gen[1])) {
        V_ASSERT(X.pset.size == 1, "a subsumable rule is absorbed");
    }
    V_REACH();
}
#endif
#ifdef SUBS3
void h_subs3(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND_TYPE_HYPERRECTANGLE_UBR, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.SET_SUBSUMPTION = true;
    X.THETA_SUB = 4;
    X.E0 = 0.5;
    X.BETA = 0.5;
    struct Cl *c[3];
    /* nested: 0 inside 1 inside 2 */
    const double lo[3] = { 0.375, 0.25, 0.125 }, hi[3] = { 0.5, 0.625, 0.75 };
    for (int i = 0; i < 3; ++i) {
        c[i] = hx_add(1);
        c[i]->exp = nd_int(1, 6);
        struct CondRectangle *r = c[i]->cond;
        r->b1[0] = lo[i];
        r->b2[0] = hi[i];
        c[i]->err = nd_grid(0, 8, 0.125);
        clset_add(&X.mset, c[i]);
        c[i]->prediction[0] = nd_grid(0, 8, 0.125);
    }
    double x[1] = { 0.5 }, y[1] = { 0 };
    clset_update(&X, &X.mset, x, y, true);
    bool sub[3];
    for (int i = 0; i < 3; ++i) sub[i] = c[i]->exp > X.THETA_SUB && c[i]->err < X.E0;
    const int g = sub[2] ? 2 : sub[1] ? 1 : sub[0] ? 0 : -1; /* most general accurate rule */
    hx_books(&X.pset);
    hx_books(&X.mset);
    V_ASSERT(X.pset.num == 3 && X.mset.num == 3, "subsumption conserves the total numerosity");
    for (int i = 0; i < 3; ++i) {
        V_ASSERT(hx_in(&X.pset, c[i]) == (i >= g), "the most general accurate rule absorbs exactly the rules inside it");
        V_ASSERT(hx_count(&X.kset, c[i]) == (i < g), "absorbed rules are handed to the kill list once");
    }
    V_REACH();
}
#endif
