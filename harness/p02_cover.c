//@ property P02
//@ default func=h_empty unwind=5 timeout=300
//@ case name=empty_dummy kinds="cond:dummy;act:integer;pred:constant" defs="-DCOND=COND_TYPE_DUMMY -DNA=2 -DXD=1"
//@ case name=empty_csr kinds="cond:rectangle;act:integer;pred:constant" defs="-DCOND=COND_TYPE_HYPERRECTANGLE_CSR -DNA=2 -DXD=2"
//@ case name=empty_ubr kinds="cond:rectangle;act:integer;pred:constant" defs="-DCOND=COND_TYPE_HYPERRECTANGLE_UBR -DNA=2 -DXD=2"
//@ case name=empty_tern kinds="cond:ternary;act:integer;pred:constant" defs="-DCOND=COND_TYPE_TERNARY -DNA=2 -DXD=2"
//@ case name=empty_ellip kinds="cond:ellipsoid;act:integer;pred:constant" defs="-DCOND=COND_TYPE_HYPERELLIPSOID -DNA=2 -DXD=2"
//@ case name=empty_na3 kinds="cond:rectangle;act:integer;pred:constant" defs="-DCOND=COND_TYPE_HYPERRECTANGLE_CSR -DNA=3 -DXD=1"
//@ case name=empty_na1 kinds="cond:rectangle;act:integer;pred:constant" defs="-DCOND=COND_TYPE_HYPERRECTANGLE_CSR -DNA=1 -DXD=1"
//@ default func=h_partial unwind=6 uwa=0 timeout=300
//@ case name=part_00 kinds="cond:dummy;act:integer;pred:constant" defs="-DA1=0 -DA2=0 -DPOP=3"
//@ case name=part_01 kinds="cond:dummy;act:integer;pred:constant" defs="-DA1=0 -DA2=1 -DPOP=3"
//@ case name=part_11 kinds="cond:dummy;act:integer;pred:constant" defs="-DA1=1 -DA2=1 -DPOP=4"
//@ case name=part_full kinds="cond:dummy;act:integer;pred:constant" defs="-DA1=0 -DA2=0 -DPOP=2 -DROUNDS -DONE" unwind=4 cost=60 bounds="2 rules of the same action at the limit of 2: covering forces deletions, the covering rule may itself be deleted and covering repeats"
//@ case name=part_del kinds="cond:dummy;act:integer;pred:constant" defs="-DA1=1 -DA2=-1 -DPOP=2 -DROUNDS -DN1=2" unwind=3 bounds="1 rule of numerosity 2 at the limit: the covering rule itself may be deleted and covering repeats; at most 2 rounds"
//@ default func=h_cover unwind=4 uwa=0 timeout=300
//@ case name=cov_gp kinds="cond:gp;act:integer;pred:constant" defs="-DCOVER=COND_TYPE_GP" bounds="trees of up to 3 nodes, covering tries at most 3 random trees"
//@ case name=cov_dgp kinds="cond:dgp;act:integer;pred:constant" defs="-DCOVER=COND_TYPE_DGP" bounds="graphs of 2 nodes, 3 random graphs"
//@ case name=cov_rule_dgp kinds="cond:rule_dgp;act:rule_dgp;pred:constant" defs="-DCOVER=RULE_TYPE_DGP" bounds="graphs of 2 nodes, 3 random graphs, 2 actions"
//@ case name=cov_rule_net kinds="cond:rule_neural;act:rule_neural;pred:constant;layer:connected" defs="-DCOVER=RULE_TYPE_NEURAL" unwind=8 bounds="one connected layer with one input, 3 random networks, 2 actions"
//@ case name=cov_net kinds="cond:neural;act:integer;pred:constant;layer:connected" defs="-DCOVER=COND_TYPE_NEURAL" unwind=8 bounds="one connected layer with one input, 3 random networks"
#include "hx.h"
#include "act_integer.h"
#include "net.h"
#ifndef ACT
#define ACT ACT_TYPE_INTEGER
#endif
#ifndef POP
#define POP 4
#endif
#ifndef N1
#define N1 1
#define NI 2
#else
#define NI 1
#endif
/* the match set is right for x, and every action is advocated */
static void covered(const double *x, int na)
{
    hx_books(&X.pset);
    hx_books(&X.mset);
    V_ASSERT(X.pset.num <= X.POP_SIZE, "covering keeps the population within its limit");
    for (int a = 0; a < na; ++a) {
        bool have = false;
        for (struct Clist *i = X.mset.list; i != NULL; i = i->next) if (i->cl->action == a && act_compute(&X, i->cl, x) == a) have = true;
        V_ASSERT(have, "after covering, every action is advocated in the match set");
    }
    for (struct Clist *i = X.mset.list; i != NULL; i = i->next) {
        V_ASSERT(hx_count(&X.pset, i->cl) == 1, "every match set member is in the population");
        V_ASSERT(cond_match(&X, i->cl, x), "every match set member matches the input");
    }
    for (struct Clist *i = X.pset.list; i != NULL; i = i->next) {
        V_ASSERT(hx_count(&X.mset, i->cl) == (cond_match(&X, i->cl, x) ? 1 : 0), "the match set holds exactly the matching rules");
        V_ASSERT(i->cl->m == cond_match(&X, i->cl, x), "the rule's match flag is that of the current input");
    }
}
#ifdef COVER
void h_cover(void)
{
    v_rng_mode = 2;
    hx_param(1, 1, 2, COVER, ACT, PRED_TYPE_CONSTANT);
    hx_sets();
    hx_gp(1, 1, 3);
    hx_dgp(2, 1, 1, true);
    X.cond->largs = nl_args(CONNECTED, 1, COVER == RULE_TYPE_NEURAL ? 2 : 1);
    X.act->largs = nl_args(CONNECTED, 1, 2);
    X.STATEFUL = false;
    X.explore = nd_bool();
    double x[1];
    x[0] = nd_grid(0, 8, 0.125);
    const int action = nd_int(0, 1);
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(&X, c, 1, 0);
    v_rng_mode = 1;
    v_norm_fixed = 2;
    cl_cover(&X, c, x, action);
    V_ASSERT(c->m && c->action == action, "a covering rule is recorded as matching with the missing action");
    V_ASSERT(cond_match(&X, c, x), "a covering rule matches the input");
    V_ASSERT(act_compute(&X, c, x) == action, "a covering rule advocates the missing action");
    V_REACH();
}
#endif
#ifdef COND
void h_empty(void)
{
    v_rng_mode = 1;
    hx_init(XD, 1, NA, COND, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.POP_SIZE = 4;
    X.cond->spread_min = nd_grid(1, 8, 0.125);
    X.cond->min = nd_grid(-8, 0, 0.125);
    X.cond->max = nd_grid(0, 8, 0.125);
    V_ASSUME(X.cond->max > X.cond->min);
    X.time = nd_int(0, 100);
    double x[XD];
    for (int i = 0; i < XD; ++i) x[i] = nd_grid(-16, 16, 0.125);
    clset_match(&X, x, true);
    V_ASSERT(X.pset.size == NA && X.pset.num == NA, "one rule is created per action");
    covered(x, NA);
    for (struct Clist *i = X.pset.list; i != NULL; i = i->next) {
        const struct Cl *c = i->cl;
        V_ASSERT(c->num == 1 && c->exp == 0, "a new rule has numerosity one and no experience");
        V_ASSERT(c->fit == X.INIT_FITNESS && c->err == X.INIT_ERROR, "a new rule has the initial fitness and error");
        V_ASSERT(c->time == X.time, "a new rule carries the current time");
    }
    V_REACH();
}
#elif !defined(COVER)
void h_partial(void)
{
    v_rng_mode = 1;
    hx_init(1, 1, 2, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.POP_SIZE = POP;
    struct Cl *c[2];
    const int a[2] = {A1, A2};
    int age[2], mt[2];
    for (int i = 0; i < NI; ++i) {
        c[i] = hx_add(N1);
        c[i]->exp = 0;
        c[i]->size = 1;
        ((struct ActInteger *) c[i]->act)->action = a[i];
        c[i]->action = nd_int(0, 1);
        age[i] = c[i]->age;
        mt[i] = c[i]->mtotal;
    }
    double x[1];
    x[0] = nd_grid(-16, 16, 0.125);
#ifdef ONE
    v_rng_mode = 3;
    v_rng_value = nd_grid(1, 7, 0.125);
    for (int i = 0; i < NI; ++i) { c[i]->fit = 1; c[i]->mtotal = 1; c[i]->age = 1; age[i] = mt[i] = 1; }
#endif
    clset_match(&X, x, true);
    covered(x, 2);
    const bool need = NI == 1 || A1 == A2;
    if (!need) V_ASSERT(X.pset.num == 2 && X.pset.size == 2, "no rule is created when every action is already advocated");
#ifndef ROUNDS
    if (need) V_ASSERT(X.pset.num == 3 && hx_in(&X.pset, c[0]) && hx_in(&X.pset, c[1]), "only the missing action is covered");
#endif
    for (int i = 0; i < NI; ++i) if (hx_in(&X.pset, c[i])) {
        V_ASSERT(c[i]->age == age[i] + 1, "being tested counts once");
        V_ASSERT(c[i]->mtotal == mt[i] + 1, "matches are counted exactly");
        V_ASSERT(c[i]->action == a[i], "existing rules keep their action");
    }
    V_REACH();
}
#endif
