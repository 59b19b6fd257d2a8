//@ property P03
//@ default func=h_rect unwind=5 timeout=300 kinds="cond:rectangle;act:integer;pred:constant"
//@ case name=csr1 defs="-DRECT=COND_TYPE_HYPERRECTANGLE_CSR -DXD=1 -DLIM=64" bounds="1 input; centre, spread, input any multiple of 1/8 in [-8,8]"
//@ case name=csr2 defs="-DRECT=COND_TYPE_HYPERRECTANGLE_CSR -DXD=2 -DLIM=8" bounds="2 inputs; centres, spreads, inputs any multiple of 1/8 in [-1,1]"
//@ case name=ubr2 fmt=64 defs="-DRECT=COND_TYPE_HYPERRECTANGLE_UBR -DXD=2 -DLIM=1024" bounds="2 inputs; bounds, inputs any multiple of 1/8 in [-128,128], C double"
//@ case name=ellip2 func=h_ellip kinds="cond:ellipsoid;act:integer;pred:constant" defs="-DELLIP -DXD=2" bounds="2 inputs, spreads powers of two, values on a 1/4 grid"
//@ case name=tern1 func=h_tern kinds="cond:ternary;act:integer;pred:constant" defs="-DTERN -DXD=2 -DBITS=1" bounds="2 inputs of 1 bit"
//@ case name=tern3 func=h_tern kinds="cond:ternary;act:integer;pred:constant" defs="-DTERN -DXD=1 -DBITS=3" bounds="1 input of 3 bits"
//@ case name=mset_csr func=h_mset defs="-DMSET -DNR=2" unwind=4 bounds="2 rules, match set formation without covering"
//@ case name=aset func=h_aset kinds="cond:dummy;act:integer;pred:constant" defs="-DASET" unwind=5 bounds="3 rules, 3 actions, action set formation"
#include "hx.h"
#include "cond_rectangle.h"
#include "cond_ellipsoid.h"
#include "cond_ternary.h"
#include "act_integer.h"
#ifdef RECT
void h_rect(void)
{
    v_rng_mode = 2;
    hx_init(XD, 1, 1, RECT, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *c = hx_new(1);
    struct CondRectangle *r = c->cond;
    double x[XD];
    bool in = true;
    const int age = c->age, mt = c->mtotal;
    for (int i = 0; i < XD; ++i) {
        int b1 = nd_int(-LIM, LIM), b2 = nd_int(-LIM, LIM), xi = nd_int(-LIM, LIM);
        r->b1[i] = b1 * 0.125;
        r->b2[i] = b2 * 0.125;
        x[i] = xi * 0.125;
        if (RECT == COND_TYPE_HYPERRECTANGLE_CSR) {
            if (xi - b1 > b2 || b1 - xi > b2) in = false;
        } else {
            const int lo = b1 < b2 ? b1 : b2, hi = b1 < b2 ? b2 : b1;
            if (xi < lo || xi > hi) in = false;
        }
    }
    V_ASSERT(cl_match(&X, c, x) == in, "a hyperrectangle matches exactly the inputs inside it, borders included");
    V_ASSERT(cl_m(&X, c) == in, "the match flag is that of the last test");
    V_ASSERT(c->age == age + 1 && c->mtotal == mt + in, "tests and matches are counted");
    V_REACH();
}
#endif
#ifdef ELLIP
void h_ellip(void)
{
    v_rng_mode = 2;
    hx_init(XD, 1, 1, COND_TYPE_HYPERELLIPSOID, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *c = hx_new(1);
    struct CondEllipsoid *r = c->cond;
    double x[XD];
    int d = 0;
    for (int i = 0; i < XD; ++i) {
        int b = nd_int(-8, 8), xi = nd_int(-8, 8), k = nd_int(0, 2);
        r->center[i] = b * 0.25;
        r->spread[i] = k == 0 ? 0.5 : k == 1 ? 1.0 : 2.0;
        x[i] = xi * 0.25;
        const int q = (xi - b) * (k == 0 ? 4 : k == 1 ? 2 : 1); /* 8 (x-c)/s */
        d += q * q;
    }
    V_ASSERT(cl_match(&X, c, x) == (d < 64), "a hyperellipsoid matches exactly the inputs inside it");
    V_REACH();
}
#endif
#ifdef TERN
void h_tern(void)
{
    v_rng_mode = 2;
    hx_param(XD, 1, 1, COND_TYPE_TERNARY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.cond->bits = BITS;
    hx_sets();
    xcsf_init(&X);
    struct Cl *c = hx_new(1);
    struct CondTernary *t = c->cond;
    V_ASSERT(t->length == XD * BITS, "one symbol per input bit");
    double x[XD];
    bool in = true;
    for (int i = 0; i < XD; ++i) {
        const int k = nd_int(-1, 33); /* x = k/32 */
        x[i] = k * 0.03125;
        int v = k < 0 ? 0 : k >= 32 ? (1 << BITS) - 1 : (k << BITS) >> 5; /* first BITS binary digits */
        for (int j = 0; j < BITS; ++j) {
            const int s = nd_int(0, 2);
            t->string[i * BITS + j] = s == 0 ? '0' : s == 1 ? '1' : '#';
            const int bit = (v >> (BITS - 1 - j)) & 1;
            if (s != 2 && s != bit) in = false;
        }
    }
    V_ASSERT(cl_match(&X, c, x) == in, "a ternary string matches exactly the inputs whose digits agree with it");
    V_REACH();
}
#endif
#ifdef MSET
void h_mset(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 2, COND_TYPE_HYPERRECTANGLE_CSR, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.BETA = 0.5;
    struct Cl *c[NR];
    bool in[NR];
    int age[NR], mt[NR], n = 0, num = 0;
    double x[1];
    x[0] = nd_grid(-8, 8, 0.125);
    double mfrac = 0;
    for (int i = 0; i < NR; ++i) {
        c[i] = hx_add(i + 1);
        c[i]->age = 1 + 2 * nd_int(0, 1); /* 1 or 3: becomes 2 or 4 */
        c[i]->mtotal = nd_int(0, 1);
        c[i]->m = nd_bool();
        c[i]->action = nd_int(0, 1);
        age[i] = c[i]->age; mt[i] = c[i]->mtotal;
        struct CondRectangle *r = c[i]->cond;
        r->b1[0] = nd_grid(-8, 8, 0.125);
        r->b2[0] = nd_grid(0, 8, 0.125);
        ((struct ActInteger *) c[i]->act)->action = nd_int(0, 1);
        in[i] = x[0] >= r->b1[0] - r->b2[0] && x[0] <= r->b1[0] + r->b2[0];
        n += in[i];
        num += in[i] ? c[i]->num : 0;
    }
    const double msize = nd_small(0, 4);
    X.mset_size = msize;
    clset_match(&X, x, false);
    V_ASSERT(X.pset.size == NR && X.pset.num == NR * (NR + 1) / 2, "matching leaves the population as it is");
    for (int i = 0; i < NR; ++i) {
        V_ASSERT(hx_count(&X.pset, c[i]) == 1, "the population keeps every rule");
        V_ASSERT(hx_count(&X.mset, c[i]) == (in[i] ? 1 : 0), "the match set holds exactly the matching rules");
        V_ASSERT(c[i]->age == age[i] + 1 && c[i]->mtotal == mt[i] + in[i], "tests and matches are counted exactly once");
        V_ASSERT(c[i]->action == ((struct ActInteger *) c[i]->act)->action || !in[i], "a matching rule's advocated action is up to date");
        V_ASSERT(c[i]->m == in[i], "the match flag is that of the current input");
    }
    V_ASSERT(X.mset.size == n && X.mset.num == num, "the match set's counts are right");
    V_ASSERT(X.mset_size == msize + (n - msize) * 0.5, "the match set size average moves towards the new size");
    V_REACH();
}
#endif
#ifdef ASET
void h_aset(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 3, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *c[3];
    for (int i = 0; i < 3; ++i) {
        c[i] = hx_add(i + 1);
        ((struct ActInteger *) c[i]->act)->action = nd_int(0, 2);
    }
    double x[1];
    x[0] = nd_grid(-8, 8, 0.125);
    clset_match(&X, x, false);
    const int a = nd_int(0, 2);
    clset_action(&X, a);
    int n = 0, num = 0;
    for (int i = 0; i < 3; ++i) {
        const bool in = ((struct ActInteger *) c[i]->act)->action == a;
        V_ASSERT(hx_count(&X.aset, c[i]) == in, "the action set holds exactly the matching rules with the action");
        n += in;
        num += in ? c[i]->num : 0;
    }
    V_ASSERT(X.aset.size == n && X.aset.num == num, "the action set's counts are right");
    V_ASSERT(X.mset.size == 3, "forming the action set leaves the match set as it is");
    V_REACH();
}
#endif
