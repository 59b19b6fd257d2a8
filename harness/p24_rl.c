//@ property P24
//@ default fmt=16.10 func=h_trial unwind=8 timeout=400 checks=mem kinds="cond:dummy;act:integer;pred:constant;loss:loss_mae"
//@ case name=trial unwind=10 func=h_trial defs="-DTRIAL -DSTEPS=3" bounds="one exploring and one exploiting trial of 2 and 1 or 2 steps, one rule, any rewards"
//@ case name=teleport unwind=10 func=h_trial defs="-DTRIAL -DSTEPS=2 -DNEVER" bounds="the environment never ends; at most 2 steps are allowed"
//@ case name=td_01 func=h_td defs="-DTD -DA1=0 -DA2=1" bounds="2 steps with different actions, 2 rules, any predictions and rewards, ending or not"
//@ case name=td_11 func=h_td defs="-DTD -DA1=1 -DA2=1" bounds="2 steps with the same action, 2 rules, any predictions and rewards, ending or not"
//@ case name=decision func=h_decision defs="-DDECISION" bounds="2 rules, 2 actions, any predictions, exploration probability and draws"
//@ case name=linear func=h_linear defs="-DLINEAR" kinds="cond:dummy;act:integer;pred:nlms;loss:loss_mae" bounds="2 steps, one rule with a linear prediction that is in both action sets, any states and rewards"
//@ case name=fit func=h_fit defs="-DFIT" bounds="one single-step update, 2 rules, 2 actions, any reward"
#include "same.h"
#include "env.h"
static double ab(double a) { return a < 0 ? -a : a; }
#ifdef TRIAL
/* an environment with two steps: the second one ends the trial */
#ifndef LEN1
#define LEN1 2
#endif
static int step, resets, execs, act[8], len[2];
static double rew[8];
static double st[1];
static bool env_done(const struct XCSF *x) { (void) x; 
#ifdef NEVER
    return false;
#else
    return step == len[resets - 1];
#endif
}
static bool env_multi(const struct XCSF *x) { (void) x; return true; }
static double env_exec(const struct XCSF *x, const int a)
{
    (void) x;
    V_ASSERT(a == 0, "actions executed exist");
    act[execs] = a;
    ++step;
    return rew[execs++];
}
static double env_max(const struct XCSF *x) { (void) x; return 1; }
static const double *env_st(const struct XCSF *x) { (void) x; return st; }
static void env_fre(const struct XCSF *x) { (void) x; }
static void env_res(const struct XCSF *x) { (void) x; step = 0; ++resets; }
static const struct EnvVtbl vt = { env_done, env_multi, env_exec, env_max, env_st, env_fre, env_res };
void h_trial(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.env_vptr = &vt;
    X.TELETRANSPORTATION = STEPS;
    X.MAX_TRIALS = 1; X.PERF_TRIALS = 100;
    X.GAMMA = 0.5; X.BETA = 0.5; X.ea->theta = 1000; X.E0 = 100;
    struct Cl *c = hx_add(1);
    c->exp = 10; c->fit = 1; c->time = 0; c->err = 0; c->size = 1;
    double p = nd_int(-2, 2);
    c->prediction[0] = p;
    for (int i = 0; i < 8; ++i) rew[i] = nd_int(-2, 2);
    len[0] = 2; len[1] = LEN1;
    const double perf = xcs_rl_exp(&X);
    V_ASSERT(resets == 2 && execs == len[0] + len[1], "a trial lasts until the environment is done or the step limit is reached");
    V_ASSERT(perf == len[1], "the performance is the number of steps of the exploiting trials");
    /* what temporal difference learning makes of the rewards */
    int k = 0;
    for (int t = 0; t < 2; ++t) {
        for (int s = 1; s <= len[t]; ++s) {
            if (s > 1) p += ((rew[k - 1] + p / 2) - p) / 2;
#ifndef NEVER
            if (s == len[t]) p += (rew[k] - p) / 2;
#endif
            ++k;
        }
    }
    V_ASSERT(c->prediction[0] == p, "each action set learns its reward plus the discounted best prediction of the next state, the last one its reward");
    V_ASSERT(X.pset.size == 1 && X.pset.num == 1, "no rule is lost or added");
    V_REACH();
}
#endif
#if defined(TD) || defined(DECISION)
static struct Cl *c[2];
static double p[2];
static void two(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 2, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.GAMMA = 0.5; X.BETA = 0.5; X.ea->theta = 1000; X.E0 = 100;
    for (int i = 0; i < 2; ++i) {
        c[i] = hx_add(1);
        c[i]->exp = 10; c[i]->fit = 1; c[i]->time = 0; c[i]->err = 0; c[i]->size = 1;
        p[i] = nd_int(-2, 2);
        c[i]->prediction[0] = p[i];
        ((struct ActInteger *) c[i]->act)->action = i;
    }
}
#endif
#ifdef TD
void h_td(void)
{
    two();
    X.explore = false;
    const double s[1] = { 0.5 };
    const double r1 = nd_int(-2, 2), r2 = nd_int(-2, 2);
    const bool done = nd_bool();
    xcs_rl_init_trial(&X);
    xcs_rl_init_step(&X);
    xcs_rl_decision(&X, s);
    xcs_rl_update(&X, s, A1, r1, false);
    xcs_rl_error(&X, A1, r1, false, 1);
    xcs_rl_end_step(&X, s, A1, r1);
    V_ASSERT(c[0]->prediction[0] == p[0] && c[1]->prediction[0] == p[1], "nothing is learnt before the next state is known");
    X.error = nd_int(0, 2);
    const double old = X.error;
    xcs_rl_init_step(&X);
    xcs_rl_decision(&X, s);
    xcs_rl_update(&X, s, A2, r2, done);
    const double e = xcs_rl_error(&X, A2, r2, done, 4);
    xcs_rl_end_step(&X, s, A2, r2);
    xcs_rl_end_trial(&X);
    V_ASSERT(e == (ab(r1 + p[A2] / 2 - p[A1]) + (done ? ab(r2 - p[A2]) : 0)) / 4, "the error of a step is its loss as a part of the highest payoff");
    V_ASSERT(X.error == old + (e - old) / 2, "the running error follows the errors by the learning rate");
    const double best = p[0] > p[1] ? p[0] : p[1];
    p[A1] += (r1 + best / 2 - p[A1]) / 2;
    if (done) p[A2] += (r2 - p[A2]) / 2;
    for (int i = 0; i < 2; ++i) V_ASSERT(c[i]->prediction[0] == p[i], "each action set learns its reward plus the discounted best prediction of the next state, the last one its reward");
    V_ASSERT(X.pset.size == 2 && X.pset.num == 2, "no rule is lost or added");
    V_REACH();
}
#endif
#ifdef DECISION
void h_decision(void)
{
    two();
    const double s[1] = { 0.5 };
    X.explore = nd_bool();
    X.P_EXPLORE = nd_grid(0, 2, 0.5);
    v_rng_mode = 1;
    xcs_rl_init_step(&X);
    const int a = xcs_rl_decision(&X, s);
    V_ASSERT(a == 0 || a == 1, "the decision is an existing action");
    const double best = p[0] > p[1] ? p[0] : p[1];
    V_ASSERT((X.explore && X.P_EXPLORE > 0) || p[a] == best, "without exploration the best action is chosen");
    V_ASSERT(c[0]->prediction[0] == p[0] && c[1]->prediction[0] == p[1] && c[0]->exp == 10 && X.pset.size == 2, "deciding teaches nothing");
    V_REACH();
}
#endif
#ifdef LINEAR
void h_linear(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_NLMS_LINEAR);
    X.GAMMA = 0.5; X.BETA = 0.5; X.ea->theta = 1000; X.E0 = 100; X.pred->x0 = 1;
    X.explore = false;
    struct Cl *c = hx_add(1);
    struct PredNLMS *m = c->pred;
    c->exp = 10; c->fit = 1; c->time = 0; c->err = 0; c->size = 1;
    m->eta = 0.5;
    double w[2];
    for (int i = 0; i < 2; ++i) { w[i] = nd_int(-2, 2); m->weights[i] = w[i]; }
    const double s1[1] = { nd_int(-1, 1) }, s2[1] = { nd_int(-1, 1) };
    const double r1 = nd_int(-2, 2), r2 = nd_int(-2, 2);
    xcs_rl_init_trial(&X);
    xcs_rl_init_step(&X);
    int a = xcs_rl_decision(&X, s1);
    xcs_rl_update(&X, s1, a, r1, false);
    xcs_rl_error(&X, a, r1, false, 1);
    xcs_rl_end_step(&X, s1, a, r1);
    V_ASSERT(m->weights[0] == w[0] && m->weights[1] == w[1] && c->exp == 10, "nothing is learnt before the next state is known");
    xcs_rl_init_step(&X);
    a = xcs_rl_decision(&X, s2);
    xcs_rl_update(&X, s2, a, r2, true);
    xcs_rl_error(&X, a, r2, true, 1);
    xcs_rl_end_step(&X, s2, a, r2);
    xcs_rl_end_trial(&X);
    const double n1 = 1 + s1[0] * s1[0], n2 = 1 + s2[0] * s2[0];
    const double e1 = r1 + (w[0] + w[1] * s2[0]) / 2 - (w[0] + w[1] * s1[0]);
    w[0] += e1 / 2 / n1; w[1] += e1 / 2 * s1[0] / n1;
    const double e2 = r2 - (w[0] + w[1] * s2[0]);
    w[0] += e2 / 2 / n2; w[1] += e2 / 2 * s2[0] / n2;
    V_ASSERT(m->weights[0] == w[0] && m->weights[1] == w[1], "each state's prediction learns that state's return, also when a rule acts twice in a row");
    V_ASSERT(c->err == ab(e1) / 4 + ab(e2) / 2, "each state's error is learnt from that state's prediction");
    V_ASSERT(c->exp == 12, "a rule gains experience once per update");
    V_REACH();
}
#endif
#ifdef FIT
void h_fit(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 2, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.BETA = 0.5; X.ea->theta = 1000; X.E0 = 100;
    struct Cl *c[2];
    double p[2];
    for (int i = 0; i < 2; ++i) {
        c[i] = hx_add(1);
        c[i]->exp = 10; c[i]->fit = 1; c[i]->time = 0; c[i]->err = 0; c[i]->size = 1;
        p[i] = nd_int(-4, 4);
        c[i]->prediction[0] = p[i];
        ((struct ActInteger *) c[i]->act)->action = i;
    }
    const double s[1] = { nd_unit() };
    const int a = nd_int(0, 1);
    const double r = nd_int(-4, 4);
    X.error = nd_int(0, 4);
    const double old = X.error;
    const double e = xcs_rl_fit(&X, s, a, r);
    V_ASSERT(e == ab(r - p[a]), "the error returned is the loss before learning");
    V_ASSERT(X.error == old + (e - old) / 2, "the running error follows the loss by the learning rate");
    V_ASSERT(c[a]->prediction[0] == p[a] + (r - p[a]) / 2 && c[a]->exp == 11, "rules of the chosen action learn the reward");
    V_ASSERT(c[1 - a]->prediction[0] == p[1 - a] && c[1 - a]->exp == 10 && c[1 - a]->err == 0, "rules of other actions are not updated");
    V_ASSERT(X.pset.size == 2, "no rule is lost or added");
    V_REACH();
}
#endif
