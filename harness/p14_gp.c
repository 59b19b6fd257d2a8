//@ property P14
//@ default fmt=16.10 func=h_eval unwind=8 timeout=300 checks=mem kinds="cond:gp;act:integer;pred:constant"
//@ case name=eval_add defs="-DF=0" bounds="one addition of an input and a constant, any values on a grid"
//@ case name=eval_sub defs="-DF=1" bounds="one subtraction, any values on a grid"
//@ case name=eval_mul defs="-DF=2" bounds="one multiplication, any values on a grid"
//@ case name=eval_div defs="-DF=3" bounds="one division, any values on a grid, zero included"
//@ case name=eval_l defs="-DF=1 -DG=2 -DLEFT" bounds="a difference whose left operand is a product, any values on a grid"
//@ case name=eval_r defs="-DF=3 -DG=1" bounds="a quotient whose divisor is a difference, any values on a grid"
//@ case name=eval_lr defs="-DF=2 -DG=0 -DLEFT" bounds="a product of a sum, any values on a grid"
//@ case name=rand7 func=h_rand defs="-DRAND -DDEPTH=2 -DLEN=7" unwind=9 bounds="trees of depth up to 2 within 7 nodes, any draws"
//@ case name=rand6 func=h_rand defs="-DRAND -DDEPTH=2 -DLEN=6" unwind=9 bounds="trees of depth up to 2 that must fit in 6 nodes, any draws"
//@ case name=rand2 func=h_rand defs="-DRAND -DDEPTH=2 -DLEN=2" unwind=9 bounds="trees limited to 2 nodes, any draws"
//@ case name=mut func=h_mut defs="-DMUT" bounds="trees of 5 nodes, any contents, draws any multiples of 1/8 (or all equal to any multiple of 1/16)"
//@ case name=cross func=h_cross defs="-DCROSS" bounds="trees of 5 and 3 nodes, any crossover points"
//@ case name=consts func=h_consts defs="-DCONSTS" bounds="3 constants, any range"
#include "same.h"
#define NF 4
static struct GPTree *gp_of(struct Cl *c) { return &((struct CondGP *) c->cond)->gp; }
static void setup(int nc, int depth, int len)
{
    v_rng_mode = 2;
    hx_param(2, 1, 1, COND_TYPE_GP, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    hx_sets();
    hx_gp(nc, depth, len);
}
/* a prefix expression of exactly len nodes whose nodes are functions or terminals */
static bool wellformed(const struct GPTree *t, int nc)
{
    int open = 1;
    if (t->len < 1) return false;
    for (int i = 0; i < t->len; ++i) {
        const int v = t->tree[i];
        if (open < 1 || v < 0 || v >= NF + nc + X.x_dim) return false;
        open += v < NF ? 1 : -1;
    }
    return open == 0;
}
/* a tree of the given shape with arbitrary functions and terminals */
static void plant(struct GPTree *t, int len, bool left, int nc)
{
    static const int s3[3] = { 1, 0, 0 }, s5r[5] = { 1, 0, 1, 0, 0 }, s5l[5] = { 1, 1, 0, 0, 0 };
    const int *s = len == 3 ? s3 : left ? s5l : s5r;
    free(t->tree);
    t->tree = malloc(sizeof(int) * len);
    t->len = len;
    for (int i = 0; i < len; ++i) t->tree[i] = s[i] ? nd_int(0, NF - 1) : nd_int(NF, NF + nc + X.x_dim - 1);
}
#ifdef F
static double lim(double a) { return a < -1000 ? -1000 : a > 1000 ? 1000 : a; }
static double op(int f, double a, double b)
{
    a = lim(a); b = lim(b);
    return f == 0 ? a + b : f == 1 ? a - b : f == 2 ? a * b : b != 0 ? a / b : a;
}
void h_eval(void)
{
    setup(2, 1, 3);
    struct Cl *c = hx_new(1);
    struct GPTree *g = gp_of(c);
    /* terminals: 4, 5 constants; 6, 7 inputs */
#ifndef G
    static const int t[] = { F, 7, 4 };
#elif defined(LEFT)
    static const int t[] = { F, G, 6, 4, 7 };
#else
    static const int t[] = { F, 5, G, 7, 6 };
#endif
    const int n = sizeof(t) / sizeof(t[0]);
    free(g->tree);
    g->tree = malloc(sizeof(t));
    g->len = n;
    for (int i = 0; i < n; ++i) g->tree[i] = t[i];
    double x[2], *k = X.cond->targs->constants;
    x[0] = nd_small(-2, 2); x[1] = nd_small(-2, 2);
    k[0] = nd_bool() ? 0.5 : nd_bool() ? 2000 : -2000;
    k[1] = nd_small(-2, 2);
    if (F == 3 && nd_bool()) k[0] = 0;
#ifndef G
    const double r = op(F, x[1], k[0]);
#elif defined(LEFT)
    const double r = op(F, op(G, x[0], k[0]), x[1]);
#else
    const double r = op(F, k[1], op(G, x[1], x[0]));
#endif
    g->pos = 0;
    const double v = tree_eval(g, X.cond->targs, x);
    V_ASSERT(v == r, "a tree computes the arithmetic expression it denotes, with operands limited to a thousand and division by zero guarded");
    V_ASSERT(cond_match(&X, c, x) == (r > 0.5), "a tree matches exactly when its value is above one half");
    V_ASSERT(cond_match(&X, c, x) == (r > 0.5), "matching again gives the same answer");
    V_ASSERT(cond_size(&X, c) == n, "a tree's size is its number of nodes");
    V_REACH();
}
#endif
#ifdef RAND
void h_rand(void)
{
    setup(1, DEPTH, LEN);
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(&X, c, 1, 0);
    /* eight arbitrary draws decide the first attempt; later ones give terminals */
    v_rng_mode = 4; v_rng_len = 8; v_rng_after = 3; v_rng_value = 0.25;
    for (int i = 0; i < 8; ++i) v_rng_seq[i] = nd_grid(1, 7, 0.125);
    cl_rand(&X, c);
    const struct GPTree *t = gp_of(c);
    V_ASSERT(t->len <= LEN, "random trees stay within the length limit");
    V_ASSERT(wellformed(t, 1), "random trees are complete expressions over known functions and terminals");
    V_ASSERT(t->mu[0] >= 0.0005 && t->mu[0] <= 1, "mutation rates lie between 0.0005 and one");
    V_REACH();
}
#endif
#ifdef MUT
void h_mut(void)
{
    setup(2, 1, 3);
    struct Cl *c = hx_new(1);
    struct GPTree *t = gp_of(c);
    plant(t, 5, nd_bool(), 2);
    int old[5];
    for (int i = 0; i < 5; ++i) old[i] = t->tree[i];
    t->mu[0] = nd_bool() ? 0.05 : 0.0005;
    v_rng_mode = nd_bool() ? 1 : 3;
    v_rng_value = nd_grid(1, 15, 0.0625);
    const bool changed = cond_mutate(&X, c);
    V_ASSERT(t->len == 5 && wellformed(t, 2), "mutated trees are complete expressions over known functions and terminals");
    bool diff = false;
    for (int i = 0; i < 5; ++i) {
        if (t->tree[i] != old[i]) diff = true;
        V_ASSERT((t->tree[i] < NF) == (old[i] < NF), "mutation exchanges functions for functions and terminals for terminals");
        if (v_rng_mode == 3 && v_rng_value >= t->mu[0]) V_ASSERT(t->tree[i] == old[i], "nodes mutate with the rule's own mutation rate");
    }
    V_ASSERT(changed == diff, "mutation reports a change exactly when the tree changed");
    V_REACH();
}
#endif
#ifdef CROSS
static void one(int i, int j, int v)
{
    struct Cl *c = hx_new(1), *d = hx_new(1);
    struct GPTree *s = gp_of(c), *t = gp_of(d);
    static const int s0[5] = { 0, 4, 1, 5, 6 }, t0[3] = { 2, 7, 4 };
    free(s->tree); free(t->tree);
    s->tree = malloc(sizeof(s0)); t->tree = malloc(sizeof(t0));
    s->len = 5; t->len = 3;
    int n = 0, m = 0;
    for (int k = 0; k < 5; ++k) { s->tree[k] = s0[k]; n += s0[k] == v; }
    for (int k = 0; k < 3; ++k) { t->tree[k] = t0[k]; n += t0[k] == v; }
    v_rng_mode = 4; v_rng_pos = 0; v_rng_len = 3; v_rng_after = 2;
    v_rng_seq[0] = 0.5; v_rng_seq[1] = (i + 0.5) / 5; v_rng_seq[2] = (j + 0.5) / 3;
    X.ea->p_crossover = 1;
    const bool changed = cond_crossover(&X, c, d);
    V_ASSERT(changed, "crossover is reported");
    V_ASSERT(s->len + t->len == 8 && s->len >= 1 && t->len >= 1, "crossover exchanges subtrees: no node is lost or made");
    V_ASSERT(wellformed(s, 2) && wellformed(t, 2), "offspring are complete expressions over known functions and terminals");
    for (int k = 0; k < s->len; ++k) m += s->tree[k] == v;
    for (int k = 0; k < t->len; ++k) m += t->tree[k] == v;
    V_ASSERT(n == m, "crossover exchanges subtrees: the nodes are those of the parents");
    V_ASSERT(s->len > 1 || s->tree[0] >= NF, "a single node is a terminal");
    X.ea->p_crossover = 0;
    V_ASSERT(!cond_crossover(&X, c, d), "no crossover at probability zero");
    v_rng_mode = 2;
}
void h_cross(void)
{
    setup(2, 1, 3);
    const int v = nd_int(0, NF + 3), k = nd_int(0, 14);
    for (int i = 0; i < 5; ++i)
        for (int j = 0; j < 3; ++j)
            if (k == 3 * i + j) one(i, j, v);
    V_REACH();
}
#endif
#ifdef CONSTS
void h_consts(void)
{
    setup(3, 1, 3);
    struct ArgsGPTree *a = X.cond->targs;
    a->min = nd_grid(-8, 8, 0.25); a->max = nd_grid(-8, 8, 0.25);
    V_ASSUME(a->min <= a->max);
    v_rng_mode = 1;
    tree_args_init_constants(a);
    for (int i = 0; i < 3; ++i) V_ASSERT(a->constants[i] >= a->min && a->constants[i] <= a->max, "constants lie within their range");
    V_REACH();
}
#endif
