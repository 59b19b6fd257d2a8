//@ property P09
//@ default fmt=64 unwind=8 timeout=300 flags="--max-field-sensitivity-array-size 256" checks=mem
//@ case name=params_noname func=h_params defs="-DPARAMS -DNAME=0" kinds="cond:dummy;act:integer;pred:constant" bounds="every parameter any value of its type, no population file"
//@ case name=params func=h_params defs="-DPARAMS -DNAME=2" kinds="cond:dummy;act:integer;pred:constant" bounds="every parameter any value of its type"
//@ case name=largs func=h_largs defs="-DLARGS" kinds="cond:dummy;act:integer;pred:constant" bounds="two layers for a network prediction, any values"
//@ case name=gpargs func=h_gpargs defs="-DGPARGS" kinds="cond:dummy;act:integer;pred:constant" bounds="3 constants in the file, 2 in the loading system"
//@ case name=dims func=h_dims defs="-DDIMS" kinds="cond:dummy;act:integer;pred:constant" bounds="file with 2 actions and 2 outputs, system with 1 and 1"
//@ default fmt=64 func=h_rule unwind=8 timeout=300 flags="--max-field-sensitivity-array-size 256" checks=mem
//@ case name=rule_csr kinds="cond:rectangle;act:integer;pred:constant" defs="-DRULE -DCOND=COND_TYPE_HYPERRECTANGLE_CSR -DPRED=PRED_TYPE_CONSTANT -DCK=rect -DPK=none" bounds="2 rules, 2 inputs, 2 outputs, any contents"
//@ case name=rule_ubr kinds="cond:rectangle;act:integer;pred:constant" defs="-DRULE -DCOND=COND_TYPE_HYPERRECTANGLE_UBR -DPRED=PRED_TYPE_CONSTANT -DCK=rect -DPK=none" bounds="2 rules, 2 inputs, 2 outputs, any contents"
//@ case name=rule_ellip kinds="cond:ellipsoid;act:integer;pred:nlms" defs="-DRULE -DCOND=COND_TYPE_HYPERELLIPSOID -DPRED=PRED_TYPE_NLMS_LINEAR -DCK=ellip -DPK=nlms" bounds="2 rules, 2 inputs, 2 outputs, any contents"
//@ case name=rule_tern kinds="cond:ternary;act:integer;pred:rls" defs="-DRULE -DCOND=COND_TYPE_TERNARY -DPRED=PRED_TYPE_RLS_LINEAR -DCK=tern -DPK=rls" bounds="2 rules, 2 inputs, 2 outputs, any contents" unwind=11
//@ case name=rule_gp kinds="cond:gp;act:integer;pred:constant" defs="-DRULE -DGP -DCOND=COND_TYPE_GP -DPRED=PRED_TYPE_CONSTANT -DCK=gp -DPK=none" bounds="2 rules, trees of 3 nodes, any contents"
//@ case name=rule_dgp kinds="cond:dgp;act:integer;pred:constant" defs="-DRULE -DDGP -DCOND=COND_TYPE_DGP -DPRED=PRED_TYPE_CONSTANT -DCK=dgp -DPK=none" bounds="2 rules, graphs of 2 nodes with 2 links, any contents"
#include "same.h"
#include "neural_layer_args.h"
#include "neural_layer.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
static struct XCSF Z; /* the system that was saved */
/* X becomes Z; X starts again as another system */
static void other(int x_dim, int y_dim, int n_actions, int cond, int pred)
{
    Z = X;
    hx_init(x_dim, y_dim, n_actions, cond, ACT_TYPE_INTEGER, pred);
    hx_gp(2, 1, 3);
    hx_dgp(1, 1, 1, false);
}
static int any_int(void) { return nd_int(-2147483647, 2147483647); }
#ifdef PARAMS
#define D(f) X.f = nd_double();
#define I(f) X.f = any_int();
#define B(f) X.f = nd_bool();
#define REALS(F) F(error) F(mset_size) F(aset_size) F(mfrac) F(HUBER_DELTA) F(GAMMA) F(P_EXPLORE) F(E0) F(ALPHA) F(NU) F(BETA) F(DELTA) F(INIT_FITNESS) F(INIT_ERROR) \
    F(ea->select_size) F(ea->theta) F(ea->p_crossover) F(ea->err_reduc) F(ea->fit_reduc) \
    F(cond->eta) F(cond->min) F(cond->max) F(cond->spread_min) F(cond->p_dontcare) F(cond->targs->max) F(cond->targs->min) \
    F(pred->eta) F(pred->eta_min) F(pred->lambda) F(pred->scale_factor) F(pred->x0)
#define INTS(F) F(time) F(OMP_NUM_THREADS) F(RANDOM_STATE) F(MAX_TRIALS) F(PERF_TRIALS) F(POP_SIZE) F(TELETRANSPORTATION) F(THETA_SUB) F(THETA_DEL) F(M_PROBATION) \
    F(ea->select_type) F(ea->lambda) F(act->type) F(cond->type) F(cond->bits) F(cond->dargs->max_k) F(cond->dargs->max_t) F(cond->dargs->n) F(cond->dargs->n_inputs) \
    F(cond->targs->n_inputs) F(cond->targs->init_depth) F(cond->targs->max_len) F(pred->type)
#define BOOLS(F) F(explore) F(POP_INIT) F(SET_SUBSUMPTION) F(STATEFUL) F(COMPACTION) F(ea->subsumption) F(ea->pred_reset) F(cond->dargs->evolve_cycles) F(pred->evolve_eta)
#define CHK(f) V_ASSERT(X.f == Z.f, "loading restores parameter " #f);
void h_params(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    hx_gp(2, 1, 3); hx_dgp(1, 1, 1, false);
    REALS(D) INTS(I) BOOLS(B)
    X.LOSS_FUNC = nd_int(0, LOSS_HUBER);
    loss_set_func(&X);
    const double k0 = X.cond->targs->constants[0], k1 = X.cond->targs->constants[1];
    free(X.population_file);
    X.population_file = calloc(4, 1);
    for (int i = 0; i < NAME; i++) X.population_file[i] = 'p' + i;
    const size_t s = xcsf_save(&X, "f");
    other(1, 1, 1, COND_TYPE_DUMMY, PRED_TYPE_CONSTANT);
    const size_t r = xcsf_load(&X, "f");
    V_ASSERT(s == r && v_file_pos == v_file_len, "everything written is read");
    V_ASSERT(v_file_open == 0, "files are closed");
    REALS(CHK) INTS(CHK) BOOLS(CHK)
    CHK(LOSS_FUNC) CHK(x_dim) CHK(y_dim) CHK(n_actions)
    V_ASSERT(X.loss_ptr == Z.loss_ptr, "the loss function is the saved one");
    V_ASSERT(X.cond->targs->n_constants == 2 && X.cond->targs->constants[0] == k0 && X.cond->targs->constants[1] == k1, "constants are restored");
    V_ASSERT(NAME == 0 ? X.population_file[0] == 0 : X.population_file[0] == 'p' && X.population_file[1] == 'q' && X.population_file[2] == 0, "the population file name is restored");
    V_ASSERT(X.pset.size == 0 && X.pset.num == 0 && X.pset.list == NULL, "an empty population stays empty");
    V_REACH();
}
#endif
#ifdef LARGS
static struct ArgsLayer *sym_layer(int type)
{
    struct ArgsLayer *a = malloc(sizeof(struct ArgsLayer));
    layer_args_init(a);
    a->type = type; a->n_inputs = any_int(); a->n_init = any_int(); a->n_max = any_int(); a->max_neuron_grow = any_int(); a->function = any_int(); a->recurrent_function = any_int();
    a->height = any_int(); a->width = any_int(); a->channels = any_int(); a->size = any_int(); a->stride = any_int(); a->pad = any_int();
    a->eta = nd_double(); a->eta_min = nd_double(); a->momentum = nd_double(); a->decay = nd_double(); a->probability = nd_double(); a->scale = nd_double();
    a->evolve_weights = nd_bool(); a->evolve_neurons = nd_bool(); a->evolve_functions = nd_bool(); a->evolve_eta = nd_bool(); a->evolve_connect = nd_bool(); a->sgd_weights = nd_bool();
    a->next = NULL;
    return a;
}
static bool same_layer(const struct ArgsLayer *a, const struct ArgsLayer *b)
{
    return a->type == b->type && a->n_inputs == b->n_inputs && a->n_init == b->n_init && a->n_max == b->n_max && a->max_neuron_grow == b->max_neuron_grow &&
        a->function == b->function && a->recurrent_function == b->recurrent_function && a->height == b->height && a->width == b->width && a->channels == b->channels &&
        a->size == b->size && a->stride == b->stride && a->pad == b->pad && a->eta == b->eta && a->eta_min == b->eta_min && a->momentum == b->momentum &&
        a->decay == b->decay && a->probability == b->probability && a->scale == b->scale && a->evolve_weights == b->evolve_weights && a->evolve_neurons == b->evolve_neurons &&
        a->evolve_functions == b->evolve_functions && a->evolve_eta == b->evolve_eta && a->evolve_connect == b->evolve_connect && a->sgd_weights == b->sgd_weights;
}
void h_largs(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    hx_gp(2, 1, 3); hx_dgp(1, 1, 1, false);
    X.pred->largs = sym_layer(nd_int(CONNECTED, UPSAMPLE));
    X.pred->largs->next = sym_layer(nd_int(CONNECTED, UPSAMPLE));
    X.act->largs = sym_layer(CONNECTED);
    xcsf_save(&X, "f");
    other(1, 1, 1, COND_TYPE_DUMMY, PRED_TYPE_CONSTANT);
    X.pred->largs = sym_layer(DROPOUT);
    xcsf_load(&X, "f");
    V_ASSERT(v_file_pos == v_file_len, "everything written is read");
    const struct ArgsLayer *a = Z.pred->largs, *b = X.pred->largs;
    V_ASSERT(b != NULL && same_layer(a, b), "layer parameters are restored");
    V_ASSERT(b->next != NULL && same_layer(a->next, b->next) && b->next->next == NULL, "all layers are restored in order");
    V_ASSERT(X.act->largs != NULL && same_layer(Z.act->largs, X.act->largs) && X.act->largs->next == NULL, "layer parameters of actions are restored");
    V_ASSERT(X.cond->largs == NULL, "an empty list stays empty");
    V_REACH();
}
#endif
#ifdef GPARGS
void h_gpargs(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    hx_gp(3, 1, 3); hx_dgp(1, 1, 1, false);
    symd(X.cond->targs->constants, 3);
    xcsf_save(&X, "f");
    other(1, 1, 1, COND_TYPE_DUMMY, PRED_TYPE_CONSTANT);
    xcsf_load(&X, "f");
    V_ASSERT(v_file_pos == v_file_len, "everything written is read");
    V_ASSERT(X.cond->targs->n_constants == 3 && eqd(X.cond->targs->constants, Z.cond->targs->constants, 3), "constants are restored");
    V_REACH();
}
#endif
#ifdef DIMS
void h_dims(void)
{
    v_rng_mode = 2;
    hx_init(1, 2, 2, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    hx_gp(1, 1, 3); hx_dgp(1, 1, 1, false);
    struct Cl *a = hx_add(1), *b = hx_add(1);
    ((struct ActInteger *) a->act)->action = 0;
    ((struct ActInteger *) b->act)->action = 1;
    symd(a->prediction, 2); symd(b->prediction, 2);
    a->fit = 1; b->fit = 1;
    xcsf_save(&X, "f");
    other(1, 1, 1, COND_TYPE_DUMMY, PRED_TYPE_CONSTANT);
    hx_gp(1, 1, 3);
    xcsf_load(&X, "f");
    double x[1] = { 0.5 }, p[4], cover[4] = { 0 };
    xcs_supervised_predict(&X, x, p, 1, cover);
    V_ASSERT(p[0] == a->prediction[0] && p[1] == a->prediction[1] && p[2] == b->prediction[0] && p[3] == b->prediction[1], "a loaded system predicts as the saved one");
    V_REACH();
}
#endif
#ifdef RULE
void h_rule(void)
{
    v_rng_mode = 2;
    hx_init(2, 2, 3, COND, ACT_TYPE_INTEGER, PRED);
#ifdef GP
    hx_gp(1, 1, 3);
#else
    hx_gp(0, 1, 3);
#endif
#ifdef DGP
    hx_dgp(2, 2, 3, true);
#else
    hx_dgp(1, 1, 1, false);
#endif
    struct Cl *c[2];
    for (int i = 0; i < 2; ++i) {
        c[i] = hx_new(i + 1);
        c[i]->err = nd_double(); c[i]->fit = nd_double(); c[i]->size = nd_double();
        c[i]->exp = any_int(); c[i]->time = any_int(); c[i]->age = any_int(); c[i]->mtotal = any_int();
        c[i]->m = nd_bool();
        c[i]->action = nd_int(0, 2);
        symd(c[i]->prediction, 2);
        sym_act_int(c[i]);
        CAT(sym_, CK)(c[i]);
        CAT(sym_, PK)(c[i]);
        clset_add(&X.pset, c[i]);
    }
    const size_t s = xcsf_save(&X, "f");
    other(1, 1, 1, COND, PRED);
    hx_add(1); /* the loading system has a population of its own */
    const size_t r = xcsf_load(&X, "f");
    V_ASSERT(s == r && v_file_pos == v_file_len, "everything written is read");
    V_ASSERT(X.pset.size == 2, "the loaded population replaces the old one");
    hx_books(&X.pset);
    V_ASSERT(X.pset.num == 3, "the total numerosity is restored");
    for (int i = 0; i < 2; ++i) {
        const struct Cl *a = hx_nth(&Z.pset, i), *b = hx_nth(&X.pset, i);
        V_ASSERT(a != b && same_books(a, b), "a rule's parameters are restored, in order");
        V_ASSERT(a->m == b->m && a->action == b->action && eqd(a->prediction, b->prediction, 2), "a rule's current match, action and prediction are restored");
        V_ASSERT(same_act_int(a, b), "a rule's action is restored");
        V_ASSERT(CAT(same_, CK)(a, b), "a rule's condition is restored");
        V_ASSERT(CAT(same_, PK)(a, b), "a rule's prediction function is restored");
        V_ASSERT(a->cond_vptr == b->cond_vptr && a->act_vptr == b->act_vptr && a->pred_vptr == b->pred_vptr, "a rule keeps its representation");
    }
    V_REACH();
}
#endif
