//@ property P25
//@ default fmt=16.7 func=h_predict unwind=7 timeout=400 checks=mem kinds="cond:rectangle;act:integer;pred:constant;loss:loss_mae"
//@ case name=predict defs="-DPREDICT" bounds="2 rules, one input, 2 outputs, 2 rows, cover values given"
//@ case name=actions defs="-DPREDICT -DACTS=2" bounds="2 rules, one input, 2 actions, 2 rows, cover values given"
//@ case name=score func=h_score defs="-DSCORE" bounds="2 rules, one input, one output, 2 rows, cover values given"
//@ case name=score_n1 func=h_score_n defs="-DSCORE_N=1" bounds="as above, scored on 1 random rows"
//@ case name=score_n2 func=h_score_n defs="-DSCORE_N=2" bounds="as above, scored on 2 random rows"
//@ case name=score_n3 func=h_score_n defs="-DSCORE_N=3" bounds="as above, scored on 3 random rows"
//@ default fmt=16.7 func=h_fit unwind=7 timeout=400 checks=mem kinds="cond:dummy;act:integer;pred:constant;loss:loss_mae"
//@ case name=fit defs="-DFIT -DTEST=0" bounds="2 trials over 3 rows, any start, in order"
//@ case name=fit_test defs="-DFIT -DTEST=1" bounds="2 trials over 3 rows with 2 rows of test data, any start, in order"
//@ case name=fit_shuffle func=h_shuffle defs="-DSHUFFLE" bounds="one trial over 3 rows, any draws"
#include "same.h"
#ifndef ACTS
#define ACTS 1
#endif
/* a population of two interval rules with any contents */
static struct Cl *r[2];
static struct Cl old[2];
static double ob[2][8];
static void pop(int y_dim, int n_actions)
{
    v_rng_mode = 2;
    hx_init(1, y_dim, n_actions, COND_TYPE_HYPERRECTANGLE_UBR, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    for (int i = 0; i < 2; ++i) {
        r[i] = hx_add(1);
        struct CondRectangle *c = r[i]->cond;
        c->b1[0] = nd_grid(0, 8, 0.125); c->b2[0] = nd_grid(0, 8, 0.125);
        V_ASSUME(c->b1[0] <= c->b2[0]);
        for (int k = 0; k < y_dim; ++k) r[i]->prediction[k] = nd_grid(-4, 4, 0.5);
        if (n_actions > 1) ((struct ActInteger *) r[i]->act)->action = i;
        r[i]->action = 0;
        old[i] = *r[i];
        ob[i][0] = c->b1[0]; ob[i][1] = c->b2[0]; ob[i][2] = c->mu[0];
        for (int k = 0; k < y_dim; ++k) ob[i][3 + k] = r[i]->prediction[k];
        ob[i][5] = ((struct ActInteger *) r[i]->act)->action;
    }
    X.time = nd_int(0, 100);
    v_rng_mode = 1;
}
static bool covers(int i, double x) { return x >= ob[i][0] && x <= ob[i][1]; }
static void unchanged(int time)
{
    V_ASSERT(X.pset.size == 2 && X.pset.num == 2 && hx_nth(&X.pset, 0) == r[1] && hx_nth(&X.pset, 1) == r[0], "the population is unchanged");
    V_ASSERT(X.time == time, "the clock does not move");
    for (int i = 0; i < 2; ++i) {
        const struct Cl *c = r[i];
        const struct CondRectangle *q = c->cond;
        V_ASSERT(c->err == old[i].err && c->fit == old[i].fit && c->num == old[i].num && c->exp == old[i].exp && c->size == old[i].size && c->time == old[i].time, "a rule's learnt parameters are unchanged");
        V_ASSERT(q->b1[0] == ob[i][0] && q->b2[0] == ob[i][1] && q->mu[0] == ob[i][2] && ((struct ActInteger *) c->act)->action == (int) ob[i][5], "a rule's condition and action are unchanged");
        for (int k = 0; k < X.y_dim; ++k) V_ASSERT(c->prediction[k] == ob[i][3 + k], "a rule's prediction is unchanged");
    }
}
#ifdef PREDICT
void h_predict(void)
{
    pop(ACTS == 1 ? 2 : 1, ACTS);
    double x[2], cover[2], p[4];
    for (int i = 0; i < 2; ++i) { x[i] = nd_grid(0, 8, 0.125); cover[i] = nd_grid(-4, 4, 0.5); }
    const int t = X.time;
    xcs_supervised_predict(&X, x, p, 2, cover);
    for (int k = 0; k < 2; ++k) {
        const bool a = covers(0, x[k]), b = covers(1, x[k]);
        for (int j = 0; j < 2; ++j) {
            if (!a && !b) V_ASSERT(p[k * 2 + j] == cover[j], "an input that no rule matches gets the given cover values");
            if (ACTS == 1) {
                if (a && !b) V_ASSERT(p[k * 2 + j] == ob[0][3 + j], "an input that one rule matches gets its prediction");
                if (!a && b) V_ASSERT(p[k * 2 + j] == ob[1][3 + j], "an input that one rule matches gets its prediction");
            } else if (a || b) {
                V_ASSERT(p[k * 2 + j] == (covers(j, x[k]) ? ob[j][3] : 0), "each action gets the prediction of the rules advocating it");
            }
        }
    }
    unchanged(t);
    V_REACH();
}
#endif
#if defined(SCORE) || defined(SCORE_N)
static double ab(double a) { return a < 0 ? -a : a; }
static double p[2], loss[2];
static struct Input d;
static double x[2], y[2], cover[1];
static void expect(void)
{
    d.x = x; d.y = y; d.x_dim = 1; d.y_dim = 1; d.n_samples = 2;
    cover[0] = nd_grid(-4, 4, 0.5);
    for (int k = 0; k < 2; ++k) { x[k] = nd_grid(0, 8, 0.125); y[k] = nd_grid(-4, 4, 0.5); V_ASSUME(!covers(0, x[k]) || !covers(1, x[k])); }
    for (int k = 0; k < 2; ++k) {
        p[k] = covers(0, x[k]) ? ob[0][3] : covers(1, x[k]) ? ob[1][3] : cover[0];
        loss[k] = ab(p[k] - y[k]);
    }
}
#endif
#ifdef SCORE
void h_score(void)
{
    pop(1, 1);
    expect();
    const int t = X.time;
    const double e = xcs_supervised_score(&X, &d, cover);
    V_ASSERT(e == (loss[0] + loss[1]) / 2, "the score is the mean loss over the data");
    unchanged(t);
    V_REACH();
}
#endif
#ifdef SCORE_N
void h_score_n(void)
{
    pop(1, 1);
    expect();
    const int t = X.time, n = SCORE_N;
    const double e = xcs_supervised_score_n(&X, &d, n, cover);
    if (n == 1) V_ASSERT(e == loss[0] || e == loss[1], "a score on one row is the loss of a row");
    if (n == 2) V_ASSERT(e == loss[0] || e == loss[1] || e == (loss[0] + loss[1]) / 2, "a score on two rows is the mean loss of rows of the data");
    if (n == 3) V_ASSERT(e == (loss[0] + loss[1]) / 2, "a score on more rows than there are is that of all rows");
    unchanged(t);
    V_REACH();
}
#endif
#if defined(FIT) || defined(SHUFFLE)
static double ab(double a) { return a < 0 ? -a : a; }
static struct Cl *one(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.ea->theta = 1000;
    X.BETA = 0.25;
    struct Cl *c = hx_add(1);
    c->exp = 0; c->fit = 1; c->err = 0; c->prediction[0] = 0; c->time = 0; c->size = 1;
    return c;
}
#endif
#ifdef FIT
void h_fit(void)
{
    struct Cl *c = one();
    double x[3] = { 0 }, y[3], tx[2] = { 0 }, ty[2];
    for (int i = 0; i < 3; ++i) y[i] = nd_grid(-4, 4, 0.5);
    for (int i = 0; i < 2; ++i) ty[i] = nd_grid(-4, 4, 0.5);
    const struct Input train = { x, y, 1, 1, 3 }, test = { tx, ty, 1, 1, 2 };
    const int start = nd_int(0, 5);
    X.error = 0;
    const double e = xcs_supervised_fit(&X, &train, TEST ? &test : NULL, false, start, 2);
    /* the one rule predicts 0, then the first target; the mean of both after two updates */
    const double y0 = y[start % 3], y1 = y[(start + 1) % 3];
    V_ASSERT(c->exp == 2 && c->prediction[0] == y0 + (y1 - y0) / 2, "training visits the rows in order from the start given, once per trial");
    const double l0 = ab(y0), l1 = ab(y1 - y0);
    V_ASSERT(e == (l0 + l1) / 2, "the training error is the mean loss before learning");
    const double x1 = l0 * 0.25;
    V_ASSERT(X.error == x1 + (l1 - x1) * 0.25, "the running error follows the losses by the learning rate");
    V_ASSERT(X.time == 2, "only training advances the clock");
    V_ASSERT(X.pset.size == 1 && X.pset.num == 1, "no rule is added when all inputs are covered");
    V_REACH();
}
#endif
#ifdef SHUFFLE
void h_shuffle(void)
{
    struct Cl *c = one();
    double x[3] = { 0 }, y[3];
    for (int i = 0; i < 3; ++i) y[i] = nd_grid(-4, 4, 0.5);
    const struct Input train = { x, y, 1, 1, 3 };
    v_rng_mode = 0;
    const double e = xcs_supervised_fit(&X, &train, NULL, true, 0, 1);
    V_ASSERT(c->prediction[0] == y[0] || c->prediction[0] == y[1] || c->prediction[0] == y[2], "shuffled training uses a row of the data");
    V_ASSERT(e == ab(c->prediction[0]), "the training error is the loss before learning");
    V_REACH();
}
#endif
