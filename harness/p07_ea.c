//@ property P07
//@ default unwind=5 timeout=400 kinds="cond:dummy;act:integer;pred:constant"
//@ case name=trig func=h_trig defs="-DTRIG" bounds="set of 2 rules, numerosities 1 and 2, times 0..100, threshold 0..50"
//@ case name=trig_empty func=h_trig0 defs="-DTRIG0" bounds="empty set"
//@ case name=off_dummy func=h_off defs="-DOFF -DNA=2 -DCOND=COND_TYPE_DUMMY -DLIM=20" unwind=6 cost=30 bounds="2 rules in the set, 1 outside, no crossover, two offspring"
//@ case name=off_limit func=h_off defs="-DOFF -DNA=1 -DCOND=COND_TYPE_DUMMY -DLIM=4 -DFIXSEL" unwind=6 cost=30 bounds="as off_dummy, population at its limit of 4"
//@ case name=off_lambda4 func=h_off defs="-DOFF -DNA=1 -DCOND=COND_TYPE_DUMMY -DLIM=20 -DLAMBDA=4 -DFIXSEL" unwind=6 bounds="four offspring, single action"
//@ case name=off_csr func=h_off kinds="cond:rectangle;act:integer;pred:constant" defs="-DOFF -DNA=1 -DRECT -DCOND=COND_TYPE_HYPERRECTANGLE_CSR -DLIM=20 -DFIXSEL" unwind=6 cost=30 bounds="1 input, no crossover, two offspring"
//@ case name=xo_csr func=h_off kinds="cond:rectangle;act:integer;pred:constant" defs="-DOFF -DNA=1 -DRECT -DXO -DCOND=COND_TYPE_HYPERRECTANGLE_CSR -DLIM=20" unwind=6 cost=30 bounds="1 input, crossover, two offspring"
//@ case name=sub_csr func=h_sub kinds="cond:rectangle;act:integer;pred:constant" defs="-DSUB -DCOND=COND_TYPE_HYPERRECTANGLE_CSR" unwind=6 cost=50 bounds="1 input, subsumption on, 2 rules in the set"
//@ case name=sub_out func=h_sub kinds="cond:rectangle;act:integer;pred:constant" defs="-DSUB -DOUT -DCOND=COND_TYPE_HYPERRECTANGLE_CSR" unwind=6 cost=50 bounds="as sub_csr, any parents; centres outside the domain, so that mutation always modifies an offspring"
//@ case name=sel_rw func=h_sel defs="-DSEL" bounds="roulette over 2 rules, any draw k/64"
//@ case name=sel_zero func=h_zero defs="-DZERO" bounds="roulette over 3 rules, zero fitness"
//@ case name=sel_tour func=h_tour defs="-DTOUR" bounds="tournament over 3 rules, full size"
#include "hx.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#ifndef LAMBDA
#define LAMBDA 2
#endif
static struct Cl *member(int num)
{
    struct Cl *c = hx_add(num);
    clset_add(&X.aset, c);
    return c;
}
#ifdef TRIG
void h_trig(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *a = member(1), *b = member(2);
    X.ea->theta = nd_int(0, 50);
    X.ea->p_crossover = 0;
    X.POP_SIZE = 20;
    X.time = nd_int(0, 120);
    const int t0 = X.time, ta = a->time, tb = b->time;
    const double fa = a->fit, fb = b->fit;
    ea(&X, &X.aset);
    V_ASSERT(X.time == t0 + 1, "the clock advances by one");
    /* mean time (ta + 2 tb)/3, with both sides multiplied by 3 */
    const int gap3 = 3 * (t0 + 1) - (ta + 2 * tb);
    const bool ran = X.pset.num != 3;
    if (gap3 > 3 * X.ea->theta + 1) V_ASSERT(ran, "the evolutionary algorithm runs when the rules have waited longer than the threshold");
    if (gap3 < 3 * X.ea->theta - 1) V_ASSERT(!ran, "the evolutionary algorithm does not run before the threshold");
    if (ran) {
        V_ASSERT(a->time == t0 + 1 && b->time == t0 + 1, "the rules of the set are stamped with the current time");
        V_ASSERT(X.pset.num == 5, "two offspring are added");
    } else {
        V_ASSERT(a->time == ta && b->time == tb && a->num == 1 && b->num == 2 && X.pset.size == 2, "otherwise nothing changes but the clock");
    }
    V_ASSERT(a->fit == fa && b->fit == fb, "parents keep their fitness");
    hx_books(&X.pset);
    V_REACH();
}
#endif
#ifdef TRIG0
void h_trig0(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *a = hx_add(2);
    const int ta = a->time;
    X.ea->theta = 0;
    X.time = nd_int(0, 100);
    const int t0 = X.time;
    ea(&X, &X.aset);
    V_ASSERT(X.time == t0 + 1 && X.pset.num == 2 && X.pset.size == 1 && a->num == 2 && a->time == ta, "an empty set only advances the clock");
    V_REACH();
}
#endif
#if defined(OFF) || defined(SUB)
struct Snap { double err, fit, size, pred, b1, b2; int num, exp, age, mt, act; };
static void snap(const struct Cl *c, struct Snap *s)
{
    s->err = c->err; s->fit = c->fit; s->size = c->size; s->pred = c->prediction[0];
    s->num = c->num; s->exp = c->exp; s->age = c->age; s->mt = c->mtotal;
    s->act = ((struct ActInteger *) c->act)->action;
    s->b1 = s->b2 = 0;
#if defined(RECT) || defined(SUB)
    s->b1 = ((struct CondRectangle *) c->cond)->b1[0];
    s->b2 = ((struct CondRectangle *) c->cond)->b2[0];
#endif
}
static bool kept(const struct Snap *s, const struct Snap *t)
{
    return s->err == t->err && s->fit == t->fit && s->size == t->size && s->pred == t->pred && s->b1 == t->b1 && s->b2 == t->b2 && s->exp == t->exp &&
        s->age == t->age && s->mt == t->mt && s->act == t->act;
}
static double *first_input(struct Cl *c);
#endif
#ifdef OFF
void h_off(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, NA, COND, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *o = hx_add(1), *a = member(1), *b = member(2);
#ifdef RECT
    ((struct CondRectangle *) a->cond)->b1[0] = nd_grid(0, 4, 0.25);
    ((struct CondRectangle *) b->cond)->b1[0] = nd_grid(0, 4, 0.25);
    ((struct CondRectangle *) a->cond)->b2[0] = nd_grid(1, 4, 0.25);
    ((struct CondRectangle *) b->cond)->b2[0] = nd_grid(1, 4, 0.25);
#endif
    ((struct ActInteger *) a->act)->action = NA == 1 ? 0 : nd_int(0, NA - 1);
    ((struct ActInteger *) b->act)->action = NA == 1 ? 0 : nd_int(0, NA - 1);
    a->prediction[0] = nd_small(-4, 4);
    b->prediction[0] = nd_small(-4, 4);
    X.ea->theta = 0;
    X.ea->lambda = LAMBDA;
    X.ea->err_reduc = 0.5; X.ea->fit_reduc = 0.25;
    X.POP_SIZE = LIM;
    X.time = 100;
#ifdef XO
    X.ea->p_crossover = 1;
#else
    X.ea->p_crossover = 0;
#endif
    struct Snap so, sa, sb, to, ta, tb;
    const int otime = o->time;
    snap(o, &so); snap(a, &sa); snap(b, &sb);
#ifdef FIXSEL
    /* one parent is certain to be chosen */
    if (nd_bool()) { a->fit = 0; sa.fit = 0; } else { b->fit = 0; sb.fit = 0; }
#endif
    v_rng_mode = 1;
    ea(&X, &X.aset);
    snap(o, &to); snap(a, &ta); snap(b, &tb);
    V_ASSERT(kept(&so, &to) && o->time == otime, "a rule outside the set keeps all its values");
    V_ASSERT(kept(&sa, &ta) && kept(&sb, &tb), "parents and other rules of the set keep their values");
    hx_books(&X.pset);
    V_ASSERT(X.pset.num == (4 + LAMBDA < LIM ? 4 + LAMBDA : LIM), "the offspring are added and the limit is enforced");
#if LIM >= 20
    V_ASSERT(hx_in(&X.pset, a) && hx_in(&X.pset, b) && hx_in(&X.pset, o) && to.num == 1, "no rule is lost");
    V_ASSERT(a->time == 101 && b->time == 101, "the set is stamped");
#endif
    for (struct Clist *i = X.pset.list; i != NULL; i = i->next) {
        struct Cl *c = i->cl;
        if (c == o || c == a || c == b) continue;
        struct Snap t;
        snap(c, &t);
        V_ASSERT(c->num == 1 && c->exp == 0 && c->age == 0 && c->mtotal == 0 && c->time == 101, "an offspring starts afresh");
        V_ASSERT(t.act >= 0 && t.act < NA, "an offspring's action exists");
        const bool fa = t.size == sa.size && t.err == 0.5 * sa.err && t.fit == 0.25 * sa.fit && t.pred == sa.pred;
        const bool fb = t.size == sb.size && t.err == 0.5 * sb.err && t.fit == 0.25 * (sb.fit / 2) && t.pred == sb.pred;
#if LAMBDA == 2
#ifdef XO
        const bool z = (t.size == sa.size && t.pred == sa.pred) || (t.size == sb.size && t.pred == sb.pred);
        const double fs[3] = { sa.fit, 0.5 * (sa.fit + sb.fit / 2), sb.fit / 2 };
        bool ok = false;
        if (t.err == 0.5 * sa.err && t.fit == 0.25 * fs[0]) ok = true;
        if (t.err == 0.5 * sb.err && t.fit == 0.25 * fs[2]) ok = true;
        if (t.err == 0.5 * (0.5 * (sa.err + sb.err)) && t.fit == 0.25 * fs[1]) ok = true;
        V_ASSERT(z, "an offspring inherits its parent's prediction and set size");
        V_ASSERT(ok, "an offspring's error and fitness are its parents' means, reduced");
#else
        V_ASSERT(fa || fb, "an offspring has its parent's prediction, set size, reduced error and reduced fitness per copy");
        if (fa && !fb) V_ASSERT(t.b1 != sa.b1 || t.b2 != sa.b2 || t.act != sa.act, "an unmodified offspring raises its parent's numerosity instead of being added");
        if (fb && !fa) V_ASSERT(t.b1 != sb.b1 || t.b2 != sb.b2 || t.act != sb.act, "an unmodified offspring raises its parent's numerosity instead of being added");
#endif
#endif
    }
#ifdef FIXSEL
#if LIM >= 20
    if (sa.fit == 0) V_ASSERT(ta.num == sa.num, "only parents gain copies");
    if (sb.fit == 0) V_ASSERT(tb.num == sb.num, "only parents gain copies");
#endif
#endif
    V_REACH();
}
#endif
#ifdef SUB
void h_sub(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *c[2] = { member(1), member(1) };
    struct Snap s[2], t[2], u;
    bool able[2];
    X.THETA_SUB = 10; X.E0 = 0.5;
    X.ea->subsumption = true;
    X.ea->theta = 0; X.ea->p_crossover = 0; X.POP_SIZE = 20; X.time = 100;
    for (int i = 0; i < 2; ++i) {
#ifdef OUT
        ((struct CondRectangle *) c[i]->cond)->b1[0] = nd_small(2, 3);
        ((struct CondRectangle *) c[i]->cond)->b2[0] = nd_small(1, 8);
#else
        ((struct CondRectangle *) c[i]->cond)->b1[0] = nd_grid(0, 4, 0.25);
        ((struct CondRectangle *) c[i]->cond)->b2[0] = nd_grid(1, 8, 0.25);
#endif
        snap(c[i], &s[i]);
        able[i] = c[i]->exp > 10 && c[i]->err < 0.5;
    }
#ifndef OUT
    c[1]->fit = 0; s[1].fit = 0; /* rule 0 is both parents */
#endif
    v_rng_mode = 1;
    ea(&X, &X.aset);
    hx_books(&X.pset);
    V_ASSERT(X.pset.num == 4, "each offspring adds one to the population's numerosity, subsumed or not");
    for (int i = 0; i < 2; ++i) { snap(c[i], &t[i]); V_ASSERT(kept(&s[i], &t[i]), "subsumption changes only the numerosity"); }
#ifdef OUT
    V_ASSERT(able[0] || t[0].num == 1, "only an experienced and accurate rule subsumes an offspring");
#endif
    V_ASSERT(able[1] || t[1].num == 1, "only an experienced and accurate rule subsumes an offspring");
    for (struct Clist *i = X.pset.list; i != NULL; i = i->next) {
        if (i->cl == c[0] || i->cl == c[1]) continue;
        snap(i->cl, &u);
        for (int k = 0; k < 2; ++k) {
            const bool covers = s[k].b1 - s[k].b2 <= u.b1 - u.b2 && s[k].b1 + s[k].b2 >= u.b1 + u.b2;
            V_ASSERT(!(able[k] && covers), "an offspring covered by an experienced and accurate rule of the set is subsumed");
        }
    }
    V_REACH();
}
#endif
#ifdef SEL
/* roulette: who gains the copies shows who was the parent */
void h_sel(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *a = member(1), *b = member(1);
    a->fit = nd_small(0, 8);
    b->fit = nd_small(0, 8);
    V_ASSUME(a->fit + b->fit > 0);
    X.ea->theta = 0; X.ea->p_crossover = 0; X.POP_SIZE = 20; X.time = 100;
    const double u = nd_grid(1, 63, 0.015625);
    v_rng_mode = 3;
    v_rng_value = u;
    ea(&X, &X.aset);
    const double p = u * (a->fit + b->fit);
    V_ASSERT(X.pset.size == 2 && X.pset.num == 4, "unmodified offspring are copies");
    V_ASSERT((a->num == 3 && b->num == 1) || (a->num == 1 && b->num == 3), "equal draws choose the same parent");
    if (a->num == 3) V_ASSERT(p <= a->fit || p >= b->fit, "a parent is chosen in proportion to its fitness");
    if (b->num == 3) V_ASSERT(p <= b->fit || p >= a->fit, "a parent is chosen in proportion to its fitness");
    if (a->num == 3) V_ASSERT(a->fit > 0, "a rule without fitness is not a parent");
    if (b->num == 3) V_ASSERT(b->fit > 0, "a rule without fitness is not a parent");
    V_REACH();
}
#endif
#ifdef ZERO
void h_zero(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *c[3];
    for (int i = 0; i < 3; ++i) { c[i] = member(1); c[i]->fit = nd_small(0, 2); }
    V_ASSUME(c[0]->fit + c[1]->fit + c[2]->fit > 0);
    X.ea->theta = 0; X.ea->p_crossover = 0; X.POP_SIZE = 20; X.time = 100;
    v_rng_mode = 0;
    ea(&X, &X.aset);
    V_ASSERT(X.pset.num == 5, "two offspring");
    for (int i = 0; i < 3; ++i) V_ASSERT(c[i]->num == 1 || c[i]->fit > 0, "a rule without fitness is not a parent");
    V_REACH();
}
#endif
#ifdef TOUR
void h_tour(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *c[3];
    for (int i = 0; i < 3; ++i) { c[i] = member(1); c[i]->fit = nd_small(1, 8); }
    X.ea->theta = 0; X.ea->p_crossover = 0; X.POP_SIZE = 20; X.time = 100;
    X.ea->select_type = EA_SELECT_TOURNAMENT;
    X.ea->select_size = 1;
    v_rng_mode = 0;
    ea(&X, &X.aset);
    V_ASSERT(X.pset.num == 5, "two offspring");
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        V_ASSERT(c[i]->num == 1 || c[i]->fit >= c[j]->fit, "a tournament over the whole set is won by the fittest");
    V_REACH();
}
#endif
