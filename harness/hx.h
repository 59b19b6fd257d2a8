/* Shared harness helpers: a system built by the code's own initialisation and
 * classifiers with symbolic bookkeeping. */
#ifndef HX_H
#define HX_H
#include "v.h"
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "action.h"
#include "prediction.h"
#include "ea.h"
#include "loss.h"
#include "pa.h"
#include "param.h"
#include "xcs_supervised.h"
#include "xcs_rl.h"
static struct XCSF X;

/* the documented default parameters, with the given representation; no random
 * initial population. (The code's own param_init draws 100 random constants and
 * builds default networks; it is exercised by the parameter properties.) */
#include "dgp.h"
#include "gp.h"
static void hx_param(int x_dim, int y_dim, int n_actions, int cond, int act, int pred)
{
    X.cond = calloc(1, sizeof(struct ArgsCond));
    X.act = calloc(1, sizeof(struct ArgsAct));
    X.pred = calloc(1, sizeof(struct ArgsPred));
    X.ea = calloc(1, sizeof(struct ArgsEA));
    X.population_file = calloc(1, 1);
    X.x_dim = x_dim; X.y_dim = y_dim; X.n_actions = n_actions;
    X.OMP_NUM_THREADS = 1; X.RANDOM_STATE = 1; X.POP_INIT = false;
    X.MAX_TRIALS = 1; X.PERF_TRIALS = 1; X.POP_SIZE = 4;
    param_set_loss_func(&X, LOSS_MAE);
    X.HUBER_DELTA = 1; X.E0 = 0.01; X.ALPHA = 0.1; X.NU = 5; X.BETA = 0.1; X.DELTA = 0.1;
    X.THETA_DEL = 20; X.INIT_FITNESS = 0.01; X.INIT_ERROR = 0; X.M_PROBATION = 10000;
    X.STATEFUL = true; X.COMPACTION = false; X.GAMMA = 0.95; X.TELETRANSPORTATION = 50;
    X.P_EXPLORE = 0.9; X.SET_SUBSUMPTION = false; X.THETA_SUB = 100;
    ea_param_defaults(&X);
    X.cond->type = cond; X.cond->eta = 0; X.cond->min = 0; X.cond->max = 1; X.cond->spread_min = 0.125;
    X.cond->p_dontcare = 0.5; X.cond->bits = 1;
    X.act->type = act;
    X.pred->type = pred; X.pred->eta = 0.125; X.pred->eta_min = 0.0625; X.pred->lambda = 1; X.pred->scale_factor = 4;
    X.pred->x0 = 1; X.pred->evolve_eta = false;
}
static void hx_gp(int n_constants, int depth, int max_len)
{
    X.cond->targs = calloc(1, sizeof(struct ArgsGPTree));
    X.cond->targs->max = 1; X.cond->targs->min = 0; X.cond->targs->n_inputs = X.x_dim;
    X.cond->targs->n_constants = n_constants; X.cond->targs->init_depth = depth; X.cond->targs->max_len = max_len;
    X.cond->targs->constants = malloc(sizeof(double) * n_constants);
    for (int i = 0; i < n_constants; ++i) X.cond->targs->constants[i] = nd_grid(0, 8, 0.125);
}
static void hx_dgp(int n, int max_k, int max_t, bool evolve)
{
    X.cond->dargs = calloc(1, sizeof(struct ArgsDGP));
    X.cond->dargs->n = n; X.cond->dargs->max_k = max_k; X.cond->dargs->max_t = max_t;
    X.cond->dargs->n_inputs = X.x_dim; X.cond->dargs->evolve_cycles = evolve;
}
static void hx_sets(void)
{
    clset_init(&X.pset);
    clset_init(&X.mset);
    clset_init(&X.aset);
    clset_init(&X.kset);
    clset_init(&X.prev_aset);
    clset_init(&X.prev_pset);
    X.env = NULL;
}
static void hx_init(int x_dim, int y_dim, int n_actions, int cond, int act, int pred)
{
    hx_param(x_dim, y_dim, n_actions, cond, act, pred);
    hx_sets();
    xcsf_init(&X);
}
/* symbolic bookkeeping; numerosity is given (it decides loop counts) */
static void hx_book(struct Cl *c, int num)
{
    c->num = num;
    c->fit = nd_grid(1, 8, 0.125);
    c->err = nd_grid(0, 8, 0.125);
    c->size = nd_small(1, 8);
    c->exp = nd_int(0, 100);
    c->time = nd_int(0, 100);
    c->age = nd_int(0, 100);
    c->mtotal = nd_int(0, 100);
    V_ASSUME(c->mtotal <= c->age);
}
static struct Cl *hx_new(int num)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(&X, c, 1, 0);
    int m = v_rng_mode;
    cl_rand(&X, c);
    v_rng_mode = m;
    hx_book(c, num);
    return c;
}
static struct Cl *hx_add(int num)
{
    struct Cl *c = hx_new(num);
    clset_add(&X.pset, c);
    return c;
}
static struct Cl *hx_nth(const struct Set *s, int n)
{
    const struct Clist *i = s->list;
    while (i != NULL && n > 0) { i = i->next; --n; }
    return i == NULL ? NULL : i->cl;
}
static bool hx_in(const struct Set *s, const struct Cl *c)
{
    for (const struct Clist *i = s->list; i != NULL; i = i->next) if (i->cl == c) return true;
    return false;
}
static int hx_count(const struct Set *s, const struct Cl *c)
{
    int n = 0;
    for (const struct Clist *i = s->list; i != NULL; i = i->next) if (i->cl == c) ++n;
    return n;
}
/* the population's books balance */
static void hx_books(const struct Set *s)
{
    int num = 0, size = 0;
    for (const struct Clist *i = s->list; i != NULL; i = i->next) {
        V_ASSERT(i->cl->num >= 1, "every rule kept has a numerosity of at least one");
        num += i->cl->num;
        ++size;
    }
    V_ASSERT(size == s->size, "recorded number of rules equals the rules in the set");
    V_ASSERT(num == s->num, "recorded numerosity equals the sum of numerosities");
}
#endif
