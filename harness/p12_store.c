//@ property P12
//@ default fmt=64 func=h_store unwind=8 timeout=300 flags="--max-field-sensitivity-array-size 256" checks=mem
//@ case name=csr kinds="cond:rectangle;act:integer;pred:constant" defs="-DHIST=0 -DCOND=COND_TYPE_HYPERRECTANGLE_CSR -DPRED=PRED_TYPE_CONSTANT -DCK=rect -DPK=none" bounds="2 rules, any contents; stored, changed and joined by others, retrieved"
//@ case name=ellip kinds="cond:ellipsoid;act:integer;pred:nlms" defs="-DHIST=0 -DCOND=COND_TYPE_HYPERELLIPSOID -DPRED=PRED_TYPE_NLMS_LINEAR -DCK=ellip -DPK=nlms" bounds="2 rules, any contents; stored, changed and joined by others, retrieved"
//@ case name=tern kinds="cond:ternary;act:integer;pred:constant" defs="-DHIST=0 -DCOND=COND_TYPE_TERNARY -DPRED=PRED_TYPE_CONSTANT -DCK=tern -DPK=none" unwind=11 bounds="2 rules, any contents; stored, changed and joined by others, retrieved"
//@ case name=gp kinds="cond:gp;act:integer;pred:constant" defs="-DHIST=0 -DGP -DCOND=COND_TYPE_GP -DPRED=PRED_TYPE_CONSTANT -DCK=gp -DPK=none" bounds="2 rules, trees of 3 nodes, any contents; stored, changed and joined by others, retrieved"
//@ case name=dgp kinds="cond:dgp;act:integer;pred:constant" defs="-DHIST=0 -DDGP -DCOND=COND_TYPE_DGP -DPRED=PRED_TYPE_CONSTANT -DCK=dgp -DPK=none" bounds="2 rules, graphs of 2 nodes, any contents; stored, changed and joined by others, retrieved"
//@ case name=again kinds="cond:rectangle;act:integer;pred:constant" defs="-DHIST=1 -DCOND=COND_TYPE_HYPERRECTANGLE_CSR -DPRED=PRED_TYPE_CONSTANT -DCK=rect -DPK=none" bounds="another population stored before"
//@ case name=twice kinds="cond:rectangle;act:integer;pred:constant" defs="-DHIST=2 -DCOND=COND_TYPE_HYPERRECTANGLE_CSR -DPRED=PRED_TYPE_CONSTANT -DCK=rect -DPK=none" bounds="retrieved a second time"
//@ case name=empty kinds="cond:rectangle;act:integer;pred:constant" func=h_empty defs="-DHIST=3 -DCOND=COND_TYPE_HYPERRECTANGLE_CSR -DPRED=PRED_TYPE_CONSTANT -DCK=rect -DPK=none" bounds="retrieved without a stored population"
//@ case name=stored_empty kinds="cond:rectangle;act:integer;pred:constant" func=h_stored_empty defs="-DHIST=3 -DCOND=COND_TYPE_HYPERRECTANGLE_CSR -DPRED=PRED_TYPE_CONSTANT -DCK=rect -DPK=none" bounds="an empty population stored after another"
//@ case name=predicts kinds="cond:dummy;act:integer;pred:constant" func=h_predicts defs="-DHIST=3 -DCOND=COND_TYPE_DUMMY -DPRED=PRED_TYPE_CONSTANT -DCK=none -DPK=none" fmt=16.7 bounds="2 rules, any predictions and fitnesses on grids; predictions before and after"
#include "same.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
static int any_int(void) { return nd_int(-2147483647, 2147483647); }
static void scramble(struct Cl *c)
{
    c->err = SYM(); c->fit = SYM(); c->size = SYM();
    c->exp = any_int(); c->time = any_int(); c->age = any_int(); c->mtotal = any_int();
    c->m = nd_bool();
    c->action = nd_int(0, 2);
    symd(c->prediction, 2);
    sym_act_int(c);
    CAT(sym_, CK)(c);
    CAT(sym_, PK)(c);
}
static void setup(void)
{
    v_rng_mode = 2;
    hx_init(2, 2, 3, COND, ACT_TYPE_INTEGER, PRED);
#ifdef GP
    hx_gp(1, 1, 3);
#else
    hx_gp(0, 1, 3);
#endif
#ifdef DGP
    hx_dgp(2, 2, 3, true);
#else
    hx_dgp(1, 1, 1, false);
#endif
}
static void check(struct Cl **ref)
{
    V_ASSERT(X.pset.size == 2 && X.pset.num == 3, "the population has the size it was stored with");
    hx_books(&X.pset);
    for (int i = 0; i < 2; ++i) {
        const struct Cl *a = hx_nth(&X.pset, i);
        const struct Cl *b = ref[a->num == 1 ? 0 : 1];
        V_ASSERT(same_books(a, b), "a retrieved rule has the parameters it was stored with");
        V_ASSERT(same_act_int(a, b), "a retrieved rule has the action it was stored with");
        V_ASSERT(CAT(same_, CK)(a, b), "a retrieved rule has the condition it was stored with");
        V_ASSERT(CAT(same_, PK)(a, b), "a retrieved rule has the prediction function it was stored with");
        if (PRED == PRED_TYPE_CONSTANT) V_ASSERT(eqd(a->prediction, b->prediction, 2), "a retrieved rule has the prediction it was stored with");
        V_ASSERT(a->cond_vptr == b->cond_vptr && a->act_vptr == b->act_vptr && a->pred_vptr == b->pred_vptr, "a retrieved rule keeps its representation");
    }
    V_ASSERT(hx_nth(&X.pset, 0)->num != hx_nth(&X.pset, 1)->num, "each rule is retrieved once");
}
#if HIST < 3
void h_store(void)
{
    setup();
    struct Cl *ref[2], *c[2];
#if HIST == 1
    struct Cl *old = hx_add(1);
    scramble(old);
    xcsf_store_pset(&X); /* will be replaced */
    clset_kill(&X, &X.pset);
    clset_init(&X.pset);
#endif
    for (int i = 0; i < 2; ++i) {
        c[i] = hx_new(i + 1);
        scramble(c[i]);
        clset_add(&X.pset, c[i]);
        ref[i] = malloc(sizeof(struct Cl));
        cl_init_copy(&X, ref[i], c[i]); /* copies are exact: property P08 */
    }
    xcsf_store_pset(&X);
    check(ref); /* the current population is as it was */
    V_ASSERT(hx_nth(&X.pset, 0) == c[0] || hx_nth(&X.pset, 0) == c[1], "storing leaves the population in place");
    /* learning goes on */
    scramble(c[0]); scramble(c[1]);
    c[0]->num = 5; X.pset.num = 7;
    hx_add(4);
    xcsf_retrieve_pset(&X);
    check(ref);
#if HIST == 2
    xcsf_retrieve_pset(&X); /* nothing is stored any more: the population stays */
    check(ref);
#endif
    V_REACH();
}
#endif
#if HIST == 3
void h_empty(void)
{
    setup();
    struct Cl *ref[2];
    for (int i = 0; i < 2; ++i) {
        struct Cl *c = hx_new(i + 1);
        scramble(c);
        clset_add(&X.pset, c);
        ref[i] = malloc(sizeof(struct Cl));
        cl_init_copy(&X, ref[i], c);
    }
    xcsf_retrieve_pset(&X);
    check(ref);
    V_REACH();
}
void h_stored_empty(void)
{
    setup();
    scramble(hx_add(2));
    xcsf_store_pset(&X);
    clset_kill(&X, &X.pset);
    clset_init(&X.pset);
    xcsf_store_pset(&X); /* nothing to store: what was stored before is out of date */
    struct Cl *ref[2];
    for (int i = 0; i < 2; ++i) {
        struct Cl *c = hx_new(i + 1);
        scramble(c);
        clset_add(&X.pset, c);
        ref[i] = malloc(sizeof(struct Cl));
        cl_init_copy(&X, ref[i], c);
    }
    xcsf_retrieve_pset(&X);
    check(ref);
    V_REACH();
}
void h_predicts(void)
{
    setup();
    for (int i = 0; i < 2; ++i) {
        struct Cl *c = hx_new(1);
        c->prediction[0] = nd_small(-2, 2); c->prediction[1] = 0;
        c->fit = 1; c->err = 1; c->exp = 1;
        ((struct ActInteger *) c->act)->action = nd_int(0, 2);
        clset_add(&X.pset, c);
    }
    double x[2] = { 0.5, 0.5 }, cover[6] = { 0 }, before[6], after[6];
    xcs_supervised_predict(&X, x, before, 1, cover);
    xcsf_store_pset(&X);
    struct Cl *a = hx_nth(&X.pset, 0);
    a->prediction[0] = nd_small(-2, 2);
    a->fit = 0.5;
    ((struct ActInteger *) a->act)->action = nd_int(0, 2);
    xcsf_retrieve_pset(&X);
    xcs_supervised_predict(&X, x, after, 1, cover);
    for (int i = 0; i < 6; ++i) V_ASSERT(before[i] == after[i], "the retrieved population predicts as the stored one did");
    V_REACH();
}
#endif
