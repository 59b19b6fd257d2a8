//@ property P17
//@ default fmt=16.7 func=h_loss unwind=6 timeout=300 checks=mem kinds="cond:dummy;act:integer;pred:constant;loss:loss_mae,loss_mse,loss_rmse,loss_log,loss_binary_log,loss_onehot,loss_huber"
//@ case name=mae defs="-DLF=LOSS_MAE -DYD=2" bounds="2 outputs, values on a grid of 9"
//@ case name=mse defs="-DLF=LOSS_MSE -DYD=2" bounds="2 outputs, values on a grid of 9"
//@ case name=rmse defs="-DLF=LOSS_RMSE -DYD=2" bounds="2 outputs, values on a grid of 9"
//@ case name=log defs="-DLF=LOSS_LOG -DYD=2" bounds="2 outputs, targets 0 or 1, any predictions"
//@ case name=binary_log defs="-DLF=LOSS_BINARY_LOG -DYD=2" bounds="2 outputs, targets 0 or 1, any predictions"
//@ case name=onehot defs="-DLF=LOSS_ONEHOT -DYD=3" bounds="3 outputs, targets 0 or 1, any predictions"
//@ case name=huber defs="-DLF=LOSS_HUBER -DYD=2" bounds="2 outputs, values and threshold on grids"
//@ case name=single func=h_single defs="-DYD=1" bounds="one output, any predictions and targets: signs and zeros of all losses"
//@ case name=names func=h_names defs="-DYD=1" unwind=14 bounds="all losses"
#include "hx.h"
#ifdef LF
static double ab(double a) { return a < 0 ? -a : a; }
double v_log(double);
void h_loss(void)
{
    v_rng_mode = 2;
    v_exit_ok = 0;
    hx_init(1, YD, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    param_set_loss_func(&X, LF);
    V_ASSERT(X.LOSS_FUNC == LF, "the loss is accepted");
    double p[YD], y[YD];
    for (int i = 0; i < YD; ++i) {
        if (LF == LOSS_LOG || LF == LOSS_BINARY_LOG || LF == LOSS_ONEHOT) {
            p[i] = nd_unit();
            y[i] = nd_bool() ? 1 : 0;
        } else {
            p[i] = nd_grid(-4, 4, 0.5);
            y[i] = nd_grid(-4, 4, 0.5);
        }
    }
    X.HUBER_DELTA = nd_grid(1, 4, 0.5);
    double q[YD], z[YD];
    for (int i = 0; i < YD; ++i) { q[i] = p[i]; z[i] = y[i]; }
    const double e = (X.loss_ptr)(&X, p, y);
    for (int i = 0; i < YD; ++i) V_ASSERT(p[i] == q[i] && y[i] == z[i], "computing a loss changes nothing");
    double want = 0;
    if (LF == LOSS_MAE) { for (int i = 0; i < YD; ++i) want += ab(p[i] - y[i]); want /= YD; }
    if (LF == LOSS_MSE || LF == LOSS_RMSE) { for (int i = 0; i < YD; ++i) want += (p[i] - y[i]) * (p[i] - y[i]); want /= YD; }
    if (LF == LOSS_RMSE) want = sqrt(want);
    if (LF == LOSS_HUBER) {
        for (int i = 0; i < YD; ++i) {
            const double a = ab(p[i] - y[i]), d = X.HUBER_DELTA;
            want += a <= d ? a * a / 2 : d * (a - d / 2);
        }
        want /= YD;
    }
    if (LF == LOSS_LOG) { for (int i = 0; i < YD; ++i) if (y[i] == 1) want -= v_log(p[i] > DBL_EPSILON ? p[i] : DBL_EPSILON); }
    if (LF == LOSS_BINARY_LOG) { for (int i = 0; i < YD; ++i) { const double a = y[i] == 1 ? p[i] : 1 - p[i]; want -= v_log(a > DBL_EPSILON ? a : DBL_EPSILON); } }
    if (LF == LOSS_ONEHOT) {
        /* right when the highest output is the target's */
        bool right = false, unique = true;
        int top = 0;
        for (int i = 1; i < YD; ++i) if (p[i] > p[top]) top = i;
        for (int i = 0; i < YD; ++i) { if (i != top && p[i] == p[top]) unique = false; }
        right = y[top] == 1;
        V_ASSERT(e == 0 || e == 1, "a one-hot loss is zero or one");
        V_ASSERT(!unique || e == (right ? 0 : 1), "a one-hot loss is zero exactly when the highest output is the target's");
        V_REACH();
        return;
    }
    V_ASSERT(e == want, "the loss is the documented function of prediction and target");
    V_REACH();
}
#endif
void h_single(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    const double p = nd_grid(-64, 64, 0.0625), y = nd_grid(-64, 64, 0.0625);
    X.HUBER_DELTA = nd_grid(1, 8, 0.25);
    for (int f = LOSS_MAE; f <= LOSS_HUBER; ++f) {
        if (f == LOSS_LOG || f == LOSS_BINARY_LOG || f == LOSS_ONEHOT) continue;
        X.LOSS_FUNC = f;
        loss_set_func(&X);
        const double e = (X.loss_ptr)(&X, &p, &y);
        V_ASSERT(e >= 0, "a loss is not negative");
        V_ASSERT((e == 0) == (p == y), "a loss is zero exactly for a perfect prediction");
    }
    V_REACH();
}
void h_names(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    v_exit_ok = 0;
    for (int f = LOSS_MAE; f <= LOSS_HUBER; ++f) {
        V_ASSERT(loss_type_as_int(loss_type_as_string(f)) == f, "a loss's name stands for it");
        X.LOSS_FUNC = LOSS_INVALID;
        V_ASSERT(param_set_loss_func_string(&X, loss_type_as_string(f)) == PARAM_FOUND && X.LOSS_FUNC == f, "a loss can be set by name");
        param_set_loss_func(&X, f);
        V_ASSERT(X.LOSS_FUNC == f, "setting a loss selects it");
        V_ASSERT(X.loss_ptr == (f == LOSS_MAE ? &loss_mae : f == LOSS_MSE ? &loss_mse : f == LOSS_RMSE ? &loss_rmse : f == LOSS_LOG ? &loss_log : f == LOSS_BINARY_LOG ? &loss_binary_log : f == LOSS_ONEHOT ? &loss_onehot : &loss_huber), "the selected loss is the one computed");
    }
    V_REACH();
}
