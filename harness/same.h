/* Field-by-field equality of rules (everything that decides later behaviour;
 * scratch buffers are left out), and symbolic contents for each representation. */
#ifndef SAME_H
#define SAME_H
#include "hx.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "cond_ellipsoid.h"
#include "cond_ternary.h"
#include "cond_gp.h"
#include "cond_dgp.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#ifndef SYM
#define SYM() nd_double()
#endif
static bool eqd(const double *a, const double *b, int n) { for (int i = 0; i < n; ++i) if (!(a[i] == b[i])) return false; return true; }
static bool eqi(const int *a, const int *b, int n) { for (int i = 0; i < n; ++i) if (a[i] != b[i]) return false; return true; }
static void symd(double *a, int n) { for (int i = 0; i < n; ++i) a[i] = SYM(); }
static void symu(double *a, int n) { for (int i = 0; i < n; ++i) a[i] = nd_unit(); }
static bool same_books(const struct Cl *a, const struct Cl *b)
{
    return a->err == b->err && a->fit == b->fit && a->num == b->num && a->exp == b->exp && a->size == b->size && a->time == b->time &&
        a->age == b->age && a->mtotal == b->mtotal;
}
static void sym_act_int(struct Cl *c)
{
    ((struct ActInteger *) c->act)->action = nd_int(0, X.n_actions - 1);
    symu(((struct ActInteger *) c->act)->mu, 1);
}
static bool same_act_int(const struct Cl *a, const struct Cl *b)
{
    const struct ActInteger *p = a->act, *q = b->act;
    return p->action == q->action && eqd(p->mu, q->mu, 1);
}
static void sym_rect(struct Cl *c)
{
    struct CondRectangle *p = c->cond;
    symd(p->b1, X.x_dim); symd(p->b2, X.x_dim); symu(p->mu, 1);
}
static bool same_rect(const struct Cl *a, const struct Cl *b)
{
    const struct CondRectangle *p = a->cond, *q = b->cond;
    return eqd(p->b1, q->b1, X.x_dim) && eqd(p->b2, q->b2, X.x_dim) && eqd(p->mu, q->mu, 1);
}
static void sym_ellip(struct Cl *c)
{
    struct CondEllipsoid *p = c->cond;
    symd(p->center, X.x_dim); symd(p->spread, X.x_dim); symu(p->mu, 1);
}
static bool same_ellip(const struct Cl *a, const struct Cl *b)
{
    const struct CondEllipsoid *p = a->cond, *q = b->cond;
    return eqd(p->center, q->center, X.x_dim) && eqd(p->spread, q->spread, X.x_dim) && eqd(p->mu, q->mu, 1);
}
static void sym_tern(struct Cl *c)
{
    struct CondTernary *p = c->cond;
    for (int i = 0; i < p->length; ++i) { const int k = nd_int(0, 2); p->string[i] = k == 0 ? '0' : k == 1 ? '1' : '#'; }
    symu(p->mu, 1);
}
static bool same_tern(const struct Cl *a, const struct Cl *b)
{
    const struct CondTernary *p = a->cond, *q = b->cond;
    if (p->length != q->length) return false;
    for (int i = 0; i < p->length; ++i) if (p->string[i] != q->string[i]) return false;
    return eqd(p->mu, q->mu, 1);
}
/* a fixed shape (x0 + c0) with symbolic leaves */
static void sym_gp(struct Cl *c)
{
    struct GPTree *g = &((struct CondGP *) c->cond)->gp;
    const int n_leaf = X.cond->targs->n_constants + X.cond->targs->n_inputs;
    free(g->tree);
    g->tree = malloc(sizeof(int) * 3);
    g->len = 3;
    g->tree[0] = nd_int(0, 3);
    g->tree[1] = 4 + nd_int(0, n_leaf - 1);
    g->tree[2] = 4 + nd_int(0, n_leaf - 1);
    symu(g->mu, 1);
}
static bool same_gp(const struct Cl *a, const struct Cl *b)
{
    const struct GPTree *p = &((struct CondGP *) a->cond)->gp, *q = &((struct CondGP *) b->cond)->gp;
    return p->len == q->len && eqi(p->tree, q->tree, p->len) && eqd(p->mu, q->mu, 1);
}
static void sym_graph(struct Graph *g)
{
    for (int i = 0; i < g->n; ++i) { g->initial_state[i] = nd_unit(); g->state[i] = nd_unit(); g->function[i] = nd_int(0, 2); }
    for (int i = 0; i < g->klen; ++i) g->connectivity[i] = nd_int(0, g->n + g->n_inputs - 1);
    g->t = nd_int(1, g->max_t);
    symu(g->mu, 3);
}
static bool same_graph(const struct Graph *p, const struct Graph *q)
{
    return p->n == q->n && p->klen == q->klen && p->max_k == q->max_k && p->max_t == q->max_t && p->n_inputs == q->n_inputs && p->t == q->t &&
        p->evolve_cycles == q->evolve_cycles && eqd(p->initial_state, q->initial_state, p->n) && eqd(p->state, q->state, p->n) &&
        eqi(p->function, q->function, p->n) && eqi(p->connectivity, q->connectivity, p->klen) && eqd(p->mu, q->mu, 3);
}
static void sym_dgp(struct Cl *c) { sym_graph(&((struct CondDGP *) c->cond)->dgp); }
static bool same_dgp(const struct Cl *a, const struct Cl *b) { return same_graph(&((struct CondDGP *) a->cond)->dgp, &((struct CondDGP *) b->cond)->dgp); }
static void sym_none(struct Cl *c) { (void) c; }
static bool same_none(const struct Cl *a, const struct Cl *b) { (void) a; (void) b; return true; }
static void sym_nlms(struct Cl *c)
{
    struct PredNLMS *p = c->pred;
    symd(p->weights, p->n_weights); symu(p->mu, 1); p->eta = nd_unit();
}
static bool same_nlms(const struct Cl *a, const struct Cl *b)
{
    const struct PredNLMS *p = a->pred, *q = b->pred;
    return p->n == q->n && p->n_weights == q->n_weights && eqd(p->weights, q->weights, p->n_weights) && eqd(p->mu, q->mu, 1) && p->eta == q->eta;
}
static void sym_rls(struct Cl *c)
{
    struct PredRLS *p = c->pred;
    symd(p->weights, p->n_weights); symd(p->matrix, p->n * p->n);
}
static bool same_rls(const struct Cl *a, const struct Cl *b)
{
    const struct PredRLS *p = a->pred, *q = b->pred;
    return p->n == q->n && p->n_weights == q->n_weights && eqd(p->weights, q->weights, p->n_weights) && eqd(p->matrix, q->matrix, p->n * p->n);
}
#endif
