//@ property P15
//@ default fmt=16.10 func=h_eval unwind=8 timeout=300 checks=mem kinds="cond:dgp;act:integer;pred:constant"
//@ case name=eval1 fmt=16.7 checks=none defs="-DEVAL=1 -DNN=3" bounds="graphs of 3 nodes with 2 links each and 2 inputs, any links, functions, states in halves, one update cycle"
//@ case name=eval2 fmt=16.7 checks=none defs="-DEVAL=2 -DNN=2" bounds="graphs of 2 nodes with 2 links each and 2 inputs, any links, functions, states in halves, two update cycles"
//@ case name=new func=h_new defs="-DNEW" bounds="graphs of 2 nodes with 2 links each and 2 inputs, any draws on a grid, at most 1 to 4 cycles"
//@ case name=mut func=h_mut defs="-DMUT" fmt=16.7 bounds="graphs of 2 nodes with 2 links each, any contents, any draws on a grid"
//@ case name=action2 func=h_action defs="-DACTION=2 -DOUT=1" kinds="cond:rule_dgp;act:rule_dgp;pred:constant" bounds="2 actions, any node states"
//@ case name=action3 func=h_action defs="-DACTION=3 -DOUT=2" kinds="cond:rule_dgp;act:rule_dgp;pred:constant" bounds="3 actions, any node states"
//@ case name=action4 func=h_action defs="-DACTION=4 -DOUT=2" kinds="cond:rule_dgp;act:rule_dgp;pred:constant" bounds="4 actions, any node states"
//@ case name=small func=h_small defs="-DSMALL=1" kinds="cond:rule_dgp;act:rule_dgp;pred:constant" bounds="graph rules of 1 to 4 nodes for 4 actions"
//@ default func=h_import fmt=16.7 unwind=20 timeout=300 checks=mem
//@ case name=import_big defs="-DIMPORT=3 -DARG=2" kinds="cond:dgp;act:integer;pred:constant" bounds="graph of 3 nodes imported where 2 are the default"
//@ case name=import_less defs="-DIMPORT=1 -DARG=2" kinds="cond:dgp;act:integer;pred:constant" bounds="graph of 1 node imported where 2 are the default"
//@ case name=import_rule defs="-DIMPORT=1 -DARG=2 -DRULE" kinds="cond:rule_dgp;act:rule_dgp;pred:constant" bounds="graph rule of 1 node imported where 2 are needed"
#include "same.h"
#include "rule_dgp.h"
static void setup(int cond, int na, int n, int k, int t, bool evolve)
{
    v_rng_mode = 2;
    hx_param(2, 1, na, cond, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    hx_sets();
    hx_dgp(n, k, t, evolve);
}
static bool valid(const struct Graph *g)
{
    bool ok = g->n >= 1 && g->klen == g->n * g->max_k && g->n_inputs == X.x_dim && g->t >= 1 && g->t <= g->max_t;
    for (int i = 0; i < g->n; ++i) ok = ok && g->function[i] >= 0 && g->function[i] < 3 && g->initial_state[i] >= 0 && g->initial_state[i] <= 1 && g->state[i] >= 0 && g->state[i] <= 1;
    for (int i = 0; i < g->klen; ++i) ok = ok && g->connectivity[i] >= 0 && g->connectivity[i] < g->n + g->n_inputs;
    for (int i = 0; i < 3; ++i) ok = ok && g->mu[i] >= 0 && g->mu[i] <= 1;
    return ok;
}
#ifdef EVAL
static double node(int f, double a, double b)
{
    double s = f == 0 ? 1 - a : f == 1 ? a * b : a + b;
    return s < 0 ? 0 : s > 1 ? 1 : s;
}
void h_eval(void)
{
    setup(COND_TYPE_DGP, 1, NN, 2, EVAL, false);
    struct Cl *c = hx_new(1);
    struct Graph *g = &((struct CondDGP *) c->cond)->dgp;
    double x[2], v[2 + NN], w[NN];
    for (int i = 0; i < 2; ++i) x[i] = nd_grid(0, 2, 0.5);
    for (int i = 0; i < NN; ++i) { g->initial_state[i] = nd_grid(0, 2, 0.5); g->state[i] = nd_grid(0, 2, 0.5); g->function[i] = nd_int(0, 2); }
    for (int i = 0; i < 2 * NN; ++i) g->connectivity[i] = nd_int(0, NN + 1);
    g->t = EVAL;
    X.STATEFUL = nd_bool();
    for (int i = 0; i < NN; ++i) w[i] = X.STATEFUL ? g->state[i] : g->initial_state[i];
    for (int t = 0; t < EVAL; ++t) {
        for (int i = 0; i < 2; ++i) v[i] = x[i];
        for (int i = 0; i < NN; ++i) v[2 + i] = w[i];
        for (int i = 0; i < NN; ++i) w[i] = node(g->function[i], v[g->connectivity[2 * i]], v[g->connectivity[2 * i + 1]]);
    }
    const bool m = cond_match(&X, c, x);
    for (int i = 0; i < NN; ++i) V_ASSERT(g->state[i] == w[i], "all nodes update together, from the states of the cycle before");
    V_ASSERT(m == (w[0] > 0.5), "a graph matches exactly when its first node is above one half");
    V_ASSERT(valid(g), "updating keeps the graph valid");
    V_REACH();
}
#endif
#ifdef NEW
void h_new(void)
{
    setup(COND_TYPE_DGP, 1, 2, 2, 1, false);
    X.cond->dargs->max_t = nd_int(1, 4);
    X.cond->dargs->evolve_cycles = nd_bool();
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(&X, c, 1, 0);
    v_rng_mode = 1;
    cl_rand(&X, c);
    const struct Graph *g = &((struct CondDGP *) c->cond)->dgp;
    V_ASSERT(valid(g) && g->n == 2 && g->max_k == 2, "new graphs are valid");
    V_ASSERT(g->evolve_cycles || g->t == X.cond->dargs->max_t, "the number of cycles is fixed unless it evolves");
    V_REACH();
}
#endif
#ifdef MUT
void h_mut(void)
{
    const bool evolve = nd_bool();
    setup(COND_TYPE_DGP, 1, 2, 2, 4, evolve);
    struct Cl *c = hx_new(1);
    struct Graph *g = &((struct CondDGP *) c->cond)->dgp;
    sym_graph(g);
    const int t = g->t;
    int f[2], k[4];
    double s[2];
    for (int i = 0; i < 2; ++i) { f[i] = g->function[i]; s[i] = g->initial_state[i]; }
    for (int i = 0; i < 4; ++i) k[i] = g->connectivity[i];
    v_norm_fixed = 1;
    v_norm_value = nd_small(-1, 1);
    v_rng_mode = nd_bool() ? 1 : 3;
    v_rng_value = nd_grid(1, 15, 0.0625);
    const bool changed = cond_mutate(&X, c);
    V_ASSERT(valid(g), "mutated graphs are valid");
    V_ASSERT(g->n == 2 && g->max_k == 2, "mutation keeps the number of nodes");
    bool diff = g->t != t;
    for (int i = 0; i < 2; ++i) {
        if (g->function[i] != f[i]) diff = true;
        if (v_rng_mode == 3 && v_rng_value >= g->mu[0]) V_ASSERT(g->function[i] == f[i], "functions mutate with their own rate");
    }
    for (int i = 0; i < 4; ++i) {
        if (g->connectivity[i] != k[i]) diff = true;
        if (v_rng_mode == 3 && v_rng_value >= g->mu[1]) V_ASSERT(g->connectivity[i] == k[i], "links mutate with their own rate");
    }
    V_ASSERT(changed || !diff, "every change is reported");
    V_ASSERT(evolve || g->t == t, "the number of cycles is fixed unless it evolves");
    V_REACH();
}
#endif
#ifdef ACTION
void h_action(void)
{
    setup(RULE_TYPE_DGP, ACTION, 3, 1, 1, false);
    struct Cl *c = hx_new(1);
    struct RuleDGP *r = c->cond;
    sym_graph(&r->dgp);
    int a = 0;
    for (int i = 0; i < OUT; ++i) if (r->dgp.state[i + 1] > 0.5) a += 1 << i;
    if (a > ACTION - 1) a = ACTION - 1;
    double x[2] = { 0, 0 };
    V_ASSERT(act_compute(&X, c, x) == a, "a graph rule's action is the binary number its output nodes spell, limited to the known actions");
    V_REACH();
}
#endif
#ifdef SMALL
void h_small(void)
{
    v_exit_ok = 1; /* refusing is fine */
    setup(RULE_TYPE_DGP, 4, nd_int(1, 4), 1, 1, false);
    v_exit_ok = X.cond->dargs->n < 3;
    struct Cl *c = hx_new(1);
    double x[2] = { 0, 0 };
    cond_match(&X, c, x);
    const int a = act_compute(&X, c, x);
    V_ASSERT(a >= 0 && a < 4, "actions are known actions");
    V_REACH();
}
#endif
#ifdef IMPORT
void h_import(void)
{
    v_rng_mode = 2;
#ifdef RULE
    v_exit_ok = 1; v_exit_reach = 1; /* must be refused */
    setup(RULE_TYPE_DGP, 2, ARG, 1, 3, false);
#else
    setup(COND_TYPE_DGP, 2, ARG, 1, 3, false);
    v_exit_ok = 0;
#endif
    cJSON *json = cJSON_CreateObject(), *cond = cJSON_CreateObject(), *g = cJSON_CreateObject();
#ifdef RULE
    cJSON_AddStringToObject(cond, "type", "rule_dgp");
#else
    cJSON_AddStringToObject(cond, "type", "dgp");
#endif
    cJSON_AddNumberToObject(g, "n", IMPORT);
    cJSON_AddItemToObject(cond, "graph", g);
    cJSON_AddItemToObject(json, "condition", cond);
    clset_json_insert_cl(&X, json);
#ifdef RULE
    V_ASSERT(false, "a graph too small for its outputs is refused");
#else
    struct Cl *c = hx_nth(&X.pset, 0);
    const struct Graph *p = &((struct CondDGP *) c->cond)->dgp;
    V_ASSERT(p->n == IMPORT && valid(p), "what a partial description leaves open is filled in as for a new graph");
    const double x[2] = { nd_grid(0, 8, 0.125), 0.5 };
    cond_match(&X, c, x);
    struct Cl *d = malloc(sizeof(struct Cl));
    cl_init_copy(&X, d, c);
    V_ASSERT(same_dgp(c, d), "copies of imported graphs equal them");
    cond_match(&X, d, x);
    cl_free(&X, d);
    V_REACH();
#endif
}
#endif
