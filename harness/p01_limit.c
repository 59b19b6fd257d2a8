//@ property P01
//@ default func=h_limit kinds="cond:dummy;act:integer;pred:constant" unwind=5 timeout=300
//@ case name=lim_1_2 defs="-DN1=1 -DN2=2 -DN3=0 -DPOP=2" bounds="2 rules, numerosities 1 and 2, limit 2"
//@ case name=lim_3 defs="-DN1=3 -DN2=0 -DN3=0 -DPOP=2" bounds="1 rule, numerosity 3, limit 2"
//@ case name=lim_1_1_1 defs="-DN1=1 -DN2=1 -DN3=1 -DPOP=2" bounds="3 rules of numerosity 1, limit 2"
//@ case name=lim_2_1_2 defs="-DN1=2 -DN2=1 -DN3=2 -DPOP=4" bounds="3 rules of numerosity 2,1,2, limit 4"
//@ case name=lim_under defs="-DN1=1 -DN2=1 -DN3=0 -DPOP=5" bounds="2 rules, under the limit"
//@ case name=vote_1 func=h_vote defs="-DVOTE -DNUM=1" bounds="1 rule, numerosity 1, values on grids"
//@ case name=vote_2 func=h_vote defs="-DVOTE -DNUM=2" bounds="1 rule, numerosity 2, values on grids"
//@ case name=prop_11 func=h_prop defs="-DPROP -DN1=1 -DN2=1" bounds="2 rules, set sizes 1..8, any draw k/64"
//@ case name=prop_21 func=h_prop defs="-DPROP -DN1=2 -DN2=1" bounds="2 rules of numerosity 2 and 1, any draw k/64"
//@ case name=wheel func=h_wheel defs="-DWHEEL" bounds="2 rules, two draws"
//@ case name=comp_2 func=h_comp kinds="cond:ternary;act:integer;pred:constant" defs="-DCOMP -DNR=2" unwind=6 bounds="2 rules of different size, compaction, two draws k/8"
//@ case name=comp_3 func=h_comp kinds="cond:ternary;act:integer;pred:constant" defs="-DCOMP -DNR=3" unwind=6 bounds="3 rules of different size, compaction, two draws k/8"
#include "hx.h"
#include "cond_ternary.h"
#ifdef POP
void h_limit(void)
{
    hx_init(1, 1, 2, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.POP_SIZE = POP;
    X.M_PROBATION = 50;
    X.THETA_DEL = nd_int(0, 100);
    X.COMPACTION = nd_bool();
    X.error = nd_grid(0, 8, 0.125);
    X.E0 = 0.5;
    struct Cl *c[3] = {0};
    int n[3] = {N1, N2, N3};
    bool dead[3];
    int pre = 0;
    for (int i = 0; i < 3; ++i) if (n[i] > 0) {
        c[i] = hx_add(n[i]);
        pre += n[i];
        dead[i] = c[i]->mtotal == 0 && c[i]->age > X.M_PROBATION;
    }
    clset_pset_enforce_limit(&X);
    hx_books(&X.pset);
    V_ASSERT(X.pset.num == (pre < POP ? pre : POP), "deletion stops exactly at the limit");
    int deleted = 0;
    for (int i = 0; i < 3; ++i) if (n[i] > 0) {
        const int k = hx_count(&X.pset, c[i]);
        if (k == 0) {
            V_ASSERT(hx_count(&X.kset, c[i]) == 1, "a removed rule is handed to the kill list once");
            deleted += n[i];
        } else {
            V_ASSERT(k == 1, "a rule is in the population once");
            V_ASSERT(c[i]->num <= n[i], "deletion never increases a numerosity");
            V_ASSERT(hx_count(&X.kset, c[i]) == 0, "a kept rule is not on the kill list");
            deleted += n[i] - c[i]->num;
        }
    }
    V_ASSERT(deleted == pre - X.pset.num, "exactly the surplus is deleted");
    /* rules that never matched during their probation go first */
    for (int i = 0; i < 3; ++i) if (n[i] > 0) for (int j = 0; j < 3; ++j) if (n[j] > 0 && i != j) {
        if (dead[i] && !dead[j] && hx_in(&X.pset, c[i])) {
            V_ASSERT(hx_in(&X.pset, c[j]) && c[j]->num == n[j], "a never-matching rule is deleted before any other");
        }
    }
    V_REACH();
}
#endif
#ifdef VOTE
void h_vote(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 2, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.THETA_DEL = nd_int(0, 4);
    X.DELTA = 0.25;
    struct Cl *c = hx_add(NUM);
    c->exp = nd_int(0, 6);
    const double avg = nd_grid(1, 8, 0.25);
    const double f = c->fit / NUM;
    const double v = cl_del_vote(&X, c, avg);
    const double base = c->size * NUM;
    if (c->exp > X.THETA_DEL && f < X.DELTA * avg) {
        V_ASSERT(v == base * avg / f || v == base * (avg / f), "the vote of an experienced rule of low fitness is raised by its relative fitness");
        V_ASSERT(v > base, "a low fitness raises the vote");
    } else {
        V_ASSERT(v == base, "the deletion vote is the set size estimate times the numerosity");
    }
    V_REACH();
}
#endif
#ifdef PROP
/* two rules, one copy too many: the deleted one is picked in proportion to the votes */
void h_prop(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 2, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.POP_SIZE = 2; X.THETA_DEL = 1000;
    X.COMPACTION = false;
    struct Cl *a = hx_add(N1), *b = hx_add(N2);
    X.POP_SIZE = N1 + N2 - 1;
    a->mtotal = 1; b->mtotal = 1;
    const double va = a->size * N1, vb = b->size * N2;
    const double u = nd_grid(1, 63, 0.015625);
    v_rng_mode = 3;
    v_rng_value = u;
    const double p = u * (va + vb);
    clset_pset_enforce_limit(&X);
    const bool da = !hx_in(&X.pset, a) || a->num < N1, db = !hx_in(&X.pset, b) || b->num < N2;
    V_ASSERT(da != db, "exactly one copy of one rule is deleted");
    /* whichever rule's slice comes first on the wheel */
    if (da) V_ASSERT(p <= va || p >= vb, "a rule is deleted with a probability in proportion to its vote");
    if (db) V_ASSERT(p <= vb || p >= va, "a rule is deleted with a probability in proportion to its vote");
    V_REACH();
}
#endif
#ifdef WHEEL
/* one order of slices serves for all draws: with u small the first slice's rule
 * goes, with u large the other's, so each rule's share is exactly its vote */
void h_wheel(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 2, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.THETA_DEL = 1000;
    X.COMPACTION = false;
    X.POP_SIZE = 1;
    struct Cl *a[2], *b[2];
    double s[2] = { nd_small(1, 8), nd_small(1, 8) };
    bool first[2];
    double u[2] = { 0.0078125, nd_grid(1, 63, 0.015625) };
    for (int k = 0; k < 2; ++k) {
        hx_sets();
        v_rng_mode = 2;
        a[k] = hx_add(1); b[k] = hx_add(1);
        a[k]->mtotal = b[k]->mtotal = 1;
        a[k]->size = s[0]; b[k]->size = s[1];
        v_rng_mode = 3;
        v_rng_value = u[k];
        clset_pset_enforce_limit(&X);
        first[k] = !hx_in(&X.pset, a[k]);
    }
    const double p = u[1] * (s[0] + s[1]), v = first[0] ? s[0] : s[1];
    if (first[1] == first[0]) V_ASSERT(p <= v, "a rule's share of the wheel is its vote");
    else V_ASSERT(p >= v, "a rule's share of the wheel is its vote");
    V_REACH();
}
#endif
#ifdef COMP
/* compaction: two spins, the larger winner goes */
void h_comp(void)
{
    v_rng_mode = 2;
    hx_init(3, 1, 1, COND_TYPE_TERNARY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.THETA_DEL = 1000;
    X.COMPACTION = true;
    X.E0 = 0.5;
    X.error = nd_grid(0, 8, 0.125);
    X.POP_SIZE = NR - 1;
    struct Cl *c[NR];
    int len[NR];
    double tot = 0;
    for (int i = 0; i < NR; ++i) {
        c[i] = hx_add(1);
        c[i]->mtotal = 1;
        c[i]->size = 1;
        tot += 1;
        len[i] = nd_int(1, 3);
        ((struct CondTernary *) c[i]->cond)->length = len[i]; /* rules of different size */
    }
    v_rng_mode = 1;
    clset_pset_enforce_limit(&X);
    hx_books(&X.pset);
    int gone = 0;
    for (int i = 0; i < NR; ++i) {
        const int k = hx_count(&X.pset, c[i]);
        V_ASSERT(k <= 1, "a rule is in the population once");
        if (k == 0) { ++gone; V_ASSERT(hx_count(&X.kset, c[i]) == 1 && c[i]->num == 0, "the removed rule is set aside"); }
        else V_ASSERT(c[i]->num == 1, "other rules are untouched");
    }
    V_ASSERT(gone == 1, "exactly one rule is deleted");
    V_REACH();
}
#endif
