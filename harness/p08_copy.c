//@ property P08
//@ default fmt=64 func=h_copy unwind=9 timeout=300 checks=leak kinds="cond:dummy;act:integer;pred:constant;layer:connected"
//@ case name=constant defs="-DCOND=COND_TYPE_DUMMY -DPRED=PRED_TYPE_CONSTANT -DCK=none -DPK=none" bounds="2 outputs, any contents"
//@ case name=csr_nlms defs="-DCOND=COND_TYPE_HYPERRECTANGLE_CSR -DPRED=PRED_TYPE_NLMS_QUADRATIC -DCK=rect -DPK=nlms" kinds="cond:rectangle;act:integer;pred:nlms" unwind=13 bounds="2 inputs, 2 outputs, any contents"
//@ case name=ellip_rls defs="-DCOND=COND_TYPE_HYPERELLIPSOID -DPRED=PRED_TYPE_RLS_LINEAR -DCK=ellip -DPK=rlsw" kinds="cond:ellipsoid;act:integer;pred:rls" unwind=11 bounds="2 inputs, 2 outputs, any contents"
//@ case name=ternary defs="-DCOND=COND_TYPE_TERNARY -DPRED=PRED_TYPE_CONSTANT -DCK=tern -DPK=none" kinds="cond:ternary;act:integer;pred:constant" bounds="2 inputs of 2 bits, any contents"
//@ case name=gp defs="-DCOND=COND_TYPE_GP -DPRED=PRED_TYPE_CONSTANT -DCK=gp -DPK=none" kinds="cond:gp;act:integer;pred:constant" bounds="trees of 3 nodes"
//@ case name=dgp defs="-DCOND=COND_TYPE_DGP -DPRED=PRED_TYPE_CONSTANT -DCK=dgp -DPK=none" kinds="cond:dgp;act:integer;pred:constant" bounds="graphs of 2 nodes"
//@ case name=rule_dgp defs="-DCOND=RULE_TYPE_DGP -DPRED=PRED_TYPE_CONSTANT -DCK=rdgp -DPK=none" kinds="cond:rule_dgp;act:rule_dgp;pred:constant" bounds="graphs of 3 nodes"
//@ case name=neural defs="-DCOND=COND_TYPE_NEURAL -DPRED=PRED_TYPE_NEURAL -DCK=cnet -DPK=pnet" kinds="cond:neural;act:integer;pred:neural;layer:connected" bounds="networks of one connected layer with 2 inputs and up to 2 neurons"
//@ case name=rule_neural defs="-DCOND=RULE_TYPE_NEURAL -DPRED=PRED_TYPE_CONSTANT -DCK=rnet -DPK=none" kinds="cond:rule_neural;act:rule_neural;pred:constant;layer:connected" bounds="networks of one connected layer"
//@ case name=act_neural defs="-DCOND=COND_TYPE_DUMMY -DPRED=PRED_TYPE_CONSTANT -DCK=none -DPK=none -DACT=ACT_TYPE_NEURAL" kinds="cond:dummy;act:neural;pred:constant;layer:connected" bounds="networks of one connected layer"
//@ default fmt=16.7 unwind=9 timeout=300 checks=leak kinds="cond:rectangle;act:integer;pred:constant"
//@ case name=cross func=h_cross defs="-DCROSS" bounds="2 inputs, any draws"
//@ case name=life func=h_life defs="-DLIFE" bounds="one learning trial with covering and the deletion of a rule, one input, 2 actions, population limit 2"
//@ case name=life_ea func=h_life defs="-DLIFE -DEA" bounds="one learning trial with the evolutionary algorithm, one action, population limit 1"
//@ case name=kill func=h_kill defs="-DKILL" bounds="population and stored population of 2 rules"
#include "same.h"
#include "net.h"
#include "cond_neural.h"
#include "pred_neural.h"
#include "act_neural.h"
#include "rule_neural.h"
#include "rule_dgp.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#ifndef ACT
#define ACT ACT_TYPE_INTEGER
#endif
#ifdef COND
static void net_sym(struct Net *n) { for (struct Llist *i = n->tail; i != NULL; i = i->prev) nl_sym(i->layer); }
static void net_same(const struct Net *a, const struct Net *b)
{
    V_ASSERT(a->n_layers == b->n_layers && a->n_inputs == b->n_inputs && a->n_outputs == b->n_outputs, "networks have the same shape");
    nl_same(a->tail->layer, b->tail->layer);
    V_ASSERT(b->output == b->head->layer->output, "the network's output is its last layer's");
}
/* a copy starts with a fresh gain matrix: only the weights are inherited */
static void sym_rlsw(struct Cl *c) { sym_rls(c); }
static bool same_rlsw(const struct Cl *a, const struct Cl *b)
{
    const struct PredRLS *p = a->pred, *q = b->pred;
    return p->n == q->n && p->n_weights == q->n_weights && eqd(p->weights, q->weights, p->n_weights);
}
static void sym_rdgp(struct Cl *c) { sym_graph(&((struct RuleDGP *) c->cond)->dgp); }
static bool same_rdgp(const struct Cl *a, const struct Cl *b) { const struct RuleDGP *p = a->cond, *q = b->cond; return p->n_outputs == q->n_outputs && same_graph(&p->dgp, &q->dgp); }
static void sym_cnet(struct Cl *c) { net_sym(&((struct CondNeural *) c->cond)->net); }
static bool same_cnet(const struct Cl *a, const struct Cl *b) { net_same(&((struct CondNeural *) a->cond)->net, &((struct CondNeural *) b->cond)->net); return true; }
static void sym_rnet(struct Cl *c) { net_sym(&((struct RuleNeural *) c->cond)->net); }
static bool same_rnet(const struct Cl *a, const struct Cl *b) { net_same(&((struct RuleNeural *) a->cond)->net, &((struct RuleNeural *) b->cond)->net); return true; }
static void sym_pnet(struct Cl *c) { net_sym(&((struct PredNeural *) c->pred)->net); }
static bool same_pnet(const struct Cl *a, const struct Cl *b) { net_same(&((struct PredNeural *) a->pred)->net, &((struct PredNeural *) b->pred)->net); return true; }
static void rule_sym(struct Cl *c)
{
    CAT(sym_, CK)(c);
    CAT(sym_, PK)(c);
    symd(c->prediction, X.y_dim);
    c->fit = SYM(); c->err = SYM(); c->num = nd_int(1, 9); c->exp = nd_int(0, 9); c->size = SYM(); c->time = nd_int(0, 9); c->age = nd_int(0, 9); c->mtotal = nd_int(0, 9);
    c->m = nd_bool(); c->action = nd_int(0, 2);
    if (COND < RULE_TYPE_DGP) {
        if (ACT == ACT_TYPE_INTEGER) sym_act_int(c);
        else net_sym(&((struct ActNeural *) c->act)->net);
    }
}
static void rule_same(const struct Cl *a, const struct Cl *b)
{
    V_ASSERT(a->cond_vptr == b->cond_vptr && a->act_vptr == b->act_vptr && a->pred_vptr == b->pred_vptr, "copies have the same representation");
    V_ASSERT(same_books(a, b), "copies have the same books");
    V_ASSERT(CAT(same_, CK)(a, b), "copies have the same condition");
    V_ASSERT(CAT(same_, PK)(a, b), "copies have the same prediction");
    if (PRED == PRED_TYPE_CONSTANT) V_ASSERT(eqd(a->prediction, b->prediction, X.y_dim), "copies predict the same");
    if (COND < RULE_TYPE_DGP) {
        if (ACT == ACT_TYPE_INTEGER) V_ASSERT(same_act_int(a, b), "copies have the same action");
        else net_same(&((struct ActNeural *) a->act)->net, &((struct ActNeural *) b->act)->net);
    }
}
static void rule_free(struct Cl *c) { cl_free(&X, c); }
void h_copy(void)
{
    v_rng_mode = 2;
    hx_param(2, 2, COND == RULE_TYPE_NEURAL ? 2 : 3, COND, ACT, PRED);
    X.cond->bits = 2;
    hx_sets();
    hx_gp(1, 1, 3);
    hx_dgp(COND == RULE_TYPE_DGP ? 3 : 2, 1, 2, true);
    X.cond->largs = nl_args(CONNECTED, 2, COND == RULE_TYPE_NEURAL ? 2 : 1);
    X.pred->largs = nl_args(CONNECTED, 2, 2);
    X.act->largs = nl_args(CONNECTED, 2, 3);
    struct Cl *a = malloc(sizeof(struct Cl)), *b = malloc(sizeof(struct Cl)), *k = malloc(sizeof(struct Cl));
    cl_init(&X, a, 1, 0);
    cl_rand(&X, a);
    rule_sym(a);
    cl_init_copy(&X, b, a);
    cl_init_copy(&X, k, a);
    rule_same(a, b);
    rule_free(a); /* whatever a copy shared with its source is gone now */
    rule_same(b, k);
    rule_free(b);
    rule_free(k);
    layer_args_free(&X.cond->largs); layer_args_free(&X.pred->largs); layer_args_free(&X.act->largs);
    free(X.cond->targs->constants); free(X.cond->targs); free(X.cond->dargs);
    free(X.cond); free(X.act); free(X.pred); free(X.ea); free(X.population_file);
    V_REACH();
}
#endif
static inline void sys_free(void)
{
    xcsf_free(&X);
    free(X.cond); free(X.act); free(X.pred); free(X.ea); free(X.population_file);
}
#ifdef CROSS
/* offspring do not share memory with their parents or each other */
void h_cross(void)
{
    v_rng_mode = 2;
    hx_init(2, 1, 2, COND_TYPE_HYPERRECTANGLE_CSR, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *p = hx_new(1), *q = hx_new(1), *a = malloc(sizeof(struct Cl)), *b = malloc(sizeof(struct Cl));
    sym_rect(p); sym_rect(q);
    X.ea->pred_reset = nd_bool();
    cl_init(&X, a, 1, 0); cl_init(&X, b, 1, 0);
    cl_copy(&X, a, p); cl_copy(&X, b, q);
    X.ea->p_crossover = 1;
    v_rng_mode = 1;
    cl_crossover(&X, a, b);
    cl_free(&X, p);
    cl_free(&X, q);
    cl_mutate(&X, a);
    cl_free(&X, b);
    const double x[2] = { 0.5, 0.5 };
    cl_match(&X, a, x);
    cl_predict(&X, a, x);
    cl_free(&X, a);
    sys_free();
    V_REACH();
}
#endif
#ifdef LIFE
/* everything allocated during a trial is released exactly once */
void h_life(void)
{
    v_rng_mode = 2;
#ifdef EA
    hx_init(1, 1, 1, COND_TYPE_HYPERRECTANGLE_CSR, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.ea->theta = 0; X.ea->lambda = 2; X.ea->p_crossover = 0;
    X.time = 10;
    X.explore = true;
#else
    hx_init(1, 1, 2, COND_TYPE_HYPERRECTANGLE_CSR, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
#endif
    X.POP_SIZE = 1;
    struct Cl *a = hx_add(1);
    struct CondRectangle *r = a->cond;
    r->b1[0] = 0.5; r->b2[0] = 0.25;
    a->time = 0; a->exp = 1; a->age = 1; a->mtotal = 1;
    const double x[1] = { 0.5 }, y[1] = { 0.5 };
    v_rng_mode = 3;
#ifdef EA
    v_rng_value = nd_grid(1, 7, 0.125);
#else
    v_rng_value = 0.5;
    X.POP_SIZE = 2;
    X.M_PROBATION = 10;
    struct Cl *b = hx_add(1); /* never matched: deleted first */
    ((struct CondRectangle *) b->cond)->b1[0] = 8;
    b->age = 20; b->mtotal = 0; b->exp = 0;
    ((struct ActInteger *) a->act)->action = 0;
#endif
    clset_init(&X.mset); clset_init(&X.aset); clset_init(&X.kset);
    clset_match(&X, x, true);
    clset_action(&X, 0);
    clset_update(&X, &X.aset, x, y, true);
#ifdef EA
    ea(&X, &X.aset);
#endif
    clset_kill(&X, &X.kset);
    clset_free(&X.aset);
    clset_free(&X.mset);
    V_ASSERT(X.pset.num == 1 || X.pset.num == 2, "the limit holds");
    sys_free();
    V_REACH();
}
#endif
#ifdef KILL
void h_kill(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND_TYPE_HYPERRECTANGLE_CSR, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    hx_add(1); hx_add(2);
    xcsf_store_pset(&X);
    hx_add(1);
    xcsf_retrieve_pset(&X);
    V_ASSERT(X.pset.size == 2 && X.pset.num == 3, "the stored population is back");
    hx_add(1);
    if (nd_bool()) xcsf_store_pset(&X);
    sys_free();
    V_REACH();
}
#endif
