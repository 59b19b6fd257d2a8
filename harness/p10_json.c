//@ property P10
//@ default fmt=64 func=h_round unwind=18 timeout=300 checks=mem flags="--unwindset j_eq.0:24 --unwindset j_dup.0:24 --unwindset j_dup.1:24 --unwindset strncmp.0:24" kinds="cond:dummy;act:integer;pred:constant"
//@ case name=csr defs="-DCOND=COND_TYPE_HYPERRECTANGLE_CSR -DPRED=PRED_TYPE_CONSTANT -DCK=rect -DPK=none" kinds="cond:rectangle;act:integer;pred:constant" bounds="2 rules, 2 inputs, 2 outputs, any contents"
//@ case name=ubr defs="-DCOND=COND_TYPE_HYPERRECTANGLE_UBR -DPRED=PRED_TYPE_NLMS_LINEAR -DCK=rect -DPK=nlms" kinds="cond:rectangle;act:integer;pred:nlms" bounds="2 rules, 2 inputs, 2 outputs, any contents"
//@ case name=ellip defs="-DCOND=COND_TYPE_HYPERELLIPSOID -DPRED=PRED_TYPE_NLMS_QUADRATIC -DCK=ellip -DPK=nlms" kinds="cond:ellipsoid;act:integer;pred:nlms" bounds="2 rules, 2 inputs, 2 outputs, any contents"
//@ case name=tern defs="-DCOND=COND_TYPE_TERNARY -DPRED=PRED_TYPE_RLS_LINEAR -DCK=tern -DPK=rlsw" kinds="cond:ternary;act:integer;pred:rls" bounds="2 rules, 2 inputs of one bit, 2 outputs, any contents"
//@ case name=dgp defs="-DDGP -DCOND=COND_TYPE_DGP -DPRED=PRED_TYPE_CONSTANT -DCK=jdgp -DPK=none" kinds="cond:dgp;act:integer;pred:constant" bounds="2 rules, graphs of 3 nodes with one link each, any contents"
//@ case name=rls2 defs="-DCOND=COND_TYPE_DUMMY -DPRED=PRED_TYPE_RLS_QUADRATIC -DCK=none -DPK=rlsw" kinds="cond:dummy;act:integer;pred:rls" bounds="2 rules, 2 inputs, 2 outputs, any contents"
//@ case name=empty func=h_empty defs="-DEMPTY" unwind=3 bounds="an empty population"
//@ case name=parts1 func=h_parts defs="-DPARTS=1" kinds="cond:rectangle;act:integer;pred:nlms" bounds="one rule, one choice of the parts exported"
//@ case name=parts2 func=h_parts defs="-DPARTS=2" kinds="cond:rectangle;act:integer;pred:nlms" bounds="one rule, one choice of the parts exported"
//@ case name=parts4 func=h_parts defs="-DPARTS=4" kinds="cond:rectangle;act:integer;pred:nlms" bounds="one rule, one choice of the parts exported"
//@ case name=limit func=h_limit defs="-DLIMIT" kinds="cond:dummy;act:integer;pred:constant" fmt=16.7 bounds="2 rules into a population with room for one less"
//@ case name=links func=h_links defs="-DLINKS" kinds="cond:dgp;act:integer;pred:constant" bounds="graph of 2 nodes and one input, any integer links and cycles, with or without mutation rates"
//@ case name=values func=h_values defs="-DVALUES" kinds="cond:dgp;act:integer;pred:constant" bounds="graph of 2 nodes, any states and mutation rates"
//@ default fmt=64 func=h_len unwind=18 timeout=300 checks=mem flags="--unwindset j_eq.0:24 --unwindset j_dup.0:24 --unwindset j_dup.1:24 --unwindset strncmp.0:24"
//@ case name=len_csr defs="-DLEN -DCOND_=COND_TYPE_HYPERRECTANGLE_CSR -DTYPE=hyperrectangle_csr -DARRAY=spread -DWHERE=condition" kinds="cond:rectangle;act:integer;pred:nlms" bounds="an array one too long"
//@ case name=len_ubr defs="-DLEN -DCOND_=COND_TYPE_HYPERRECTANGLE_UBR -DTYPE=hyperrectangle_ubr -DARRAY=bound2 -DWHERE=condition" kinds="cond:rectangle;act:integer;pred:nlms" bounds="an array one too long"
//@ case name=len_ellip defs="-DLEN -DCOND_=COND_TYPE_HYPERELLIPSOID -DTYPE=hyperellipsoid -DARRAY=center -DWHERE=condition" kinds="cond:ellipsoid;act:integer;pred:nlms" bounds="an array one too long"
//@ case name=len_nlms defs="-DLEN -DCOND_=COND_TYPE_HYPERELLIPSOID -DTYPE=nlms_linear -DARRAY=weights -DWHERE=prediction -DLN=7" kinds="cond:ellipsoid;act:integer;pred:nlms" bounds="an array one too long"
//@ case name=len_mu defs="-DLEN -DCOND_=COND_TYPE_HYPERELLIPSOID -DTYPE=integer -DARRAY=mutation -DWHERE=action -DLN=2" kinds="cond:ellipsoid;act:integer;pred:nlms" bounds="an array one too long"
//@ case name=type defs="-DLEN -DCOND_=COND_TYPE_HYPERELLIPSOID -DTYPE=ternary -DARRAY=center -DWHERE=condition -DLN=2" kinds="cond:ellipsoid;act:integer;pred:nlms" bounds="a condition of another type"
#include "same.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
static struct XCSF Z;
static int any_int(void) { return nd_int(-2147483647, 2147483647); }
static void sym_jdgp(struct Cl *c)
{
    struct Graph *g = &((struct CondDGP *) c->cond)->dgp;
    sym_graph(g);
    for (int i = 0; i < g->n; ++i) g->function[i] = (i + 2) % 3; /* names are text: one fixed order of all three */
}
static bool same_jdgp(const struct Cl *a, const struct Cl *b) { return same_dgp(a, b); }
static void sym_rlsw(struct Cl *c) { symd(((struct PredRLS *) c->pred)->weights, ((struct PredRLS *) c->pred)->n_weights); }
static bool same_rlsw(const struct Cl *a, const struct Cl *b) { const struct PredRLS *p = a->pred, *q = b->pred; return p->n_weights == q->n_weights && eqd(p->weights, q->weights, p->n_weights); }
#ifdef COND
void h_round(void)
{
    v_rng_mode = 2;
    v_exit_ok = 0;
    hx_init(2, 2, 3, COND, ACT_TYPE_INTEGER, PRED);
#ifdef DGP
    hx_dgp(3, 1, 3, true);
#endif
    X.POP_SIZE = 8;
    for (int i = 0; i < 2; ++i) {
        struct Cl *c = hx_new(i + 1);
        c->err = nd_double(); c->fit = nd_double(); c->size = nd_double();
        c->exp = any_int(); c->time = any_int(); c->age = any_int(); c->mtotal = any_int();
        c->m = nd_bool();
        c->action = nd_int(0, 2);
        symd(c->prediction, 2);
        sym_act_int(c);
        CAT(sym_, CK)(c);
        CAT(sym_, PK)(c);
        clset_add(&X.pset, c);
    }
    char *s = clset_json_export(&X, &X.pset, true, true, true);
    Z = X;
    clset_init(&X.pset);
    clset_json_insert(&X, s);
    free(s);
    V_ASSERT(X.pset.size == 2 && X.pset.num == 3, "every rule is inserted");
    hx_books(&X.pset);
    for (int i = 0; i < 2; ++i) {
        const struct Cl *a = hx_nth(&Z.pset, i), *b = hx_nth(&X.pset, i);
        V_ASSERT(a != b && same_books(a, b), "a rule's parameters are restored, in order");
        V_ASSERT(a->m == b->m && a->action == b->action && eqd(a->prediction, b->prediction, 2), "a rule's current match, action and prediction are restored");
        V_ASSERT(same_act_int(a, b), "a rule's action is restored");
        V_ASSERT(CAT(same_, CK)(a, b), "a rule's condition is restored");
        V_ASSERT(CAT(same_, PK)(a, b), "a rule's prediction function is restored");
    }
    V_REACH();
}
#endif

#ifdef EMPTY
void h_empty(void)
{
    v_rng_mode = 2;
    v_exit_ok = 0;
    hx_init(1, 1, 2, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    char *s = clset_json_export(&X, &X.pset, true, true, true);
    clset_json_insert(&X, s);
    free(s);
    V_ASSERT(X.pset.size == 0 && X.pset.num == 0 && X.pset.list == NULL, "inserting no rules changes nothing");
    V_REACH();
}
#endif
#ifdef PARTS
void h_parts(void)
{
    v_rng_mode = 2;
    v_exit_ok = 0;
    hx_init(1, 1, 2, COND_TYPE_HYPERRECTANGLE_CSR, ACT_TYPE_INTEGER, PRED_TYPE_NLMS_LINEAR);
    struct Cl *a = hx_add(1);
    sym_act_int(a); sym_rect(a); sym_nlms(a);
    const bool c = PARTS & 1, t = (PARTS & 2) != 0, p = (PARTS & 4) != 0;
    char *s = cl_json_export(&X, a, c, t, p);
    cJSON *json = cJSON_Parse(s);
    V_ASSERT((cJSON_GetObjectItem(json, "condition") != NULL) == c, "the condition is exported if and only if asked for");
    V_ASSERT((cJSON_GetObjectItem(json, "action") != NULL) == t, "the action is exported if and only if asked for");
    V_ASSERT((cJSON_GetObjectItem(json, "prediction") != NULL) == p, "the prediction is exported if and only if asked for");
    clset_json_insert_cl(&X, json);
    const struct Cl *b = hx_nth(&X.pset, 0);
    V_ASSERT(X.pset.size == 2 && b != a, "the rule is added");
    V_ASSERT(same_books(a, b), "the books are those exported");
    V_ASSERT((!c || same_rect(a, b)) && (!t || same_act_int(a, b)) && (!p || same_nlms(a, b)), "the parts given are those exported");
    V_REACH();
}
#endif
#ifdef LIMIT
void h_limit(void)
{
    v_rng_mode = 2;
    v_exit_ok = 0;
    hx_init(1, 1, 2, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.POP_SIZE = 8;
    hx_add(1); hx_add(1);
    char *s = clset_json_export(&X, &X.pset, true, true, true);
    X.POP_SIZE = 3;
    v_rng_mode = 1;
    clset_json_insert(&X, s);
    V_ASSERT(X.pset.num == 3, "the limit holds");
    hx_books(&X.pset);
    V_REACH();
}
#endif
#if defined(LINKS) || defined(VALUES)
static cJSON *graph(const int *links, int t, const double *states, const double *mu)
{
    cJSON *json = cJSON_CreateObject(), *c = cJSON_CreateObject(), *g = cJSON_CreateObject();
    cJSON_AddStringToObject(c, "type", "dgp");
    cJSON_AddNumberToObject(g, "t", t);
    cJSON_AddItemToObject(g, "initial_state", cJSON_CreateDoubleArray(states, 2));
    cJSON_AddItemToObject(g, "current_state", cJSON_CreateDoubleArray(states + 2, 2));
    cJSON_AddItemToObject(g, "connectivity", cJSON_CreateIntArray(links, 2));
    if (mu != NULL) cJSON_AddItemToObject(g, "mutation", cJSON_CreateDoubleArray(mu, 3));
    cJSON_AddItemToObject(c, "graph", g);
    cJSON_AddItemToObject(json, "condition", c);
    return json;
}
#endif
#ifdef LINKS
void h_links(void)
{
    v_rng_mode = 2;
    v_exit_ok = 1; /* refusing is fine */
    hx_init(1, 1, 2, COND_TYPE_DGP, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    hx_dgp(2, 1, 2, true);
    const double states[4] = { 0.5, 0.25, 0.125, 1 };
    int links[2], t = nd_int(1, 2);
    const bool bad = nd_bool();
    for (int i = 0; i < 2; ++i) {
        links[i] = any_int();
        if (!bad) V_ASSUME(links[i] >= 0 && links[i] <= 2);
    }
    if (!bad) v_exit_ok = 0;
    cJSON *json = graph(links, t, states, NULL);
    clset_json_insert_cl(&X, json);
    const struct Graph *g = &((struct CondDGP *) hx_nth(&X.pset, 0)->cond)->dgp;
    for (int i = 0; i < 2; ++i) {
        V_ASSERT(g->connectivity[i] >= 0 && g->connectivity[i] < 3, "links stay within the graph and its inputs");
        V_ASSERT(g->connectivity[i] == links[i], "links are those given");
        V_ASSERT(g->initial_state[i] == states[i] && g->state[i] == states[i + 2], "states are those given");
    }
    V_ASSERT(g->t == t, "cycles are those given");
    for (int i = 0; i < 3; ++i) V_ASSERT(g->mu[i] > 0 && g->mu[i] <= 1, "mutation rates not given are initialised as for a new rule");
    V_REACH();
}
#endif
#ifdef VALUES
void h_values(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 2, COND_TYPE_DGP, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    hx_dgp(2, 1, 2, true);
    const int links[2] = { 0, 1 };
    double s[4], m[3];
    bool ok = true;
    for (int i = 0; i < 4; ++i) { s[i] = nd_double(); ok = ok && s[i] >= 0 && s[i] <= 1; }
    for (int i = 0; i < 3; ++i) { m[i] = nd_double(); ok = ok && m[i] >= 0 && m[i] <= 1; }
    v_exit_ok = !ok;
    cJSON *json = graph(links, 1, s, m);
    clset_json_insert_cl(&X, json);
    V_ASSERT(ok, "values out of range are refused");
    const struct Graph *g = &((struct CondDGP *) hx_nth(&X.pset, 0)->cond)->dgp;
    V_ASSERT(eqd(g->initial_state, s, 2) && eqd(g->state, s + 2, 2) && eqd(g->mu, m, 3), "values are those given");
    V_REACH();
}
#endif
#ifdef LEN
#define STR_(s) #s
#define STR(s) STR_(s)
#ifndef LN
#define LN 3
#endif
/* text of the wrong shape is refused */
void h_len(void)
{
    v_rng_mode = 2;
    hx_init(2, 2, 2, COND_, ACT_TYPE_INTEGER, PRED_TYPE_NLMS_LINEAR);
    double v[LN];
    for (int i = 0; i < LN; ++i) v[i] = nd_unit();
    cJSON *json = cJSON_CreateObject(), *c = cJSON_CreateObject();
    cJSON_AddStringToObject(c, "type", STR(TYPE));
    cJSON_AddItemToObject(c, STR(ARRAY), cJSON_CreateDoubleArray(v, LN));
    cJSON_AddItemToObject(json, STR(WHERE), c);
    v_exit_ok = 1; v_exit_reach = 1;
    clset_json_insert_cl(&X, json);
    V_ASSERT(0, "text of the wrong length or type is refused");
}
#endif
