//@ property P21
//@ default fmt=16.10 func=h_act unwind=6 timeout=300 checks=none kinds="layer:connected"
//@ case name=logistic defs="-DQACT=LOGISTIC" bounds="any state on a grid of 33, arbitrary exponential"
//@ case name=relu defs="-DQACT=RELU" bounds="any state on a grid of 33"
//@ case name=gaussian defs="-DQACT=GAUSSIAN" bounds="any state on a grid of 33, arbitrary exponential"
//@ case name=tanh defs="-DQACT=TANH" bounds="any state on a grid of 33, arbitrary tanh"
//@ case name=sin defs="-DQACT=SIN" bounds="any state on a grid of 33, arbitrary sine and cosine"
//@ case name=cos defs="-DQACT=COS" bounds="any state on a grid of 33, arbitrary sine and cosine"
//@ case name=softplus defs="-DQACT=SOFT_PLUS" bounds="any state on a grid of 33, arbitrary exponential and logarithm"
//@ case name=linear defs="-DQACT=LINEAR" bounds="any state on a grid of 33"
//@ case name=leaky defs="-DQACT=LEAKY" bounds="any state on a grid of 33"
//@ case name=selu defs="-DQACT=SELU" bounds="any state on a grid of 33, arbitrary exponential"
//@ case name=loggy defs="-DQACT=LOGGY" bounds="any state on a grid of 33, arbitrary exponential"
//@ case name=actarray func=h_actarray defs="-DACTA" bounds="2 neurons, any state" fmt=16.7
//@ default fmt=16.10 func=h_gemm unwind=6 timeout=300 checks=none kinds="layer:connected"
//@ case name=gemm_nn defs="-DGEMM -DQTA=0 -DQTB=0" bounds="2x2x2 and rows longer than the matrix, values -2 to 2"
//@ case name=gemm_nt defs="-DGEMM -DQTA=0 -DQTB=1" bounds="2x2x2 and rows longer than the matrix, values -2 to 2"
//@ case name=gemm_tn defs="-DGEMM -DQTA=1 -DQTB=0" bounds="2x2x2 and rows longer than the matrix, values -2 to 2"
//@ case name=gemm_tt defs="-DGEMM -DQTA=1 -DQTB=1" bounds="2x2x2 and rows longer than the matrix, values -2 to 2"
//@ case name=vectors func=h_vectors defs="-DVECTORS" bounds="3 elements, strides 1 and 2, values -2 to 2"
//@ default fmt=16.10 func=h_connected unwind=8 timeout=300 checks=mem kinds="layer:connected"
//@ case name=connected defs="-DQCONN -DQI=2 -DQO=2 -DQF=LINEAR" bounds="2 inputs, 2 neurons, values -2 to 2"
//@ case name=connected_relu defs="-DQCONN -DQI=2 -DQO=2 -DQF=RELU" bounds="2 inputs, 2 neurons, values -2 to 2"
//@ case name=connected_wide defs="-DQCONN -DQI=3 -DQO=1 -DQF=RELU" bounds="3 inputs, 1 neuron, values -2 to 2"
//@ case name=connected_tall defs="-DQCONN -DQI=1 -DQO=3 -DQF=LINEAR" bounds="1 input, 3 neurons, values -2 to 2"
//@ case name=connected_big tier=thorough defs="-DQCONN -DQI=3 -DQO=3 -DQF=RELU" unwind=11 timeout=1200 bounds="3 inputs, 3 neurons, values -2 to 2"
//@ case name=update func=h_update defs="-DQUPDATE -DQLT=CONNECTED" bounds="2 inputs, 1 neuron, any rate, momentum, decay, weights and updates on grids" kinds="layer:connected"
//@ case name=update_conv func=h_update defs="-DQUPDATE -DQLT=CONVOLUTIONAL" bounds="1 filter of 2 weights, any rate, momentum, decay, weights and updates on grids" kinds="layer:convolutional"
//@ default fmt=16.10 func=h_conv unwind=14 timeout=400 checks=mem kinds="layer:convolutional"
//@ case name=conv_2x3 defs="-DQCONV -DQC=1 -DQH=2 -DQW=3 -DQK=2 -DQS=1 -DQP=0 -DQN=1 -DQF=LINEAR" bounds="1 channel 2x3, 1 filter 2x2, values -1 to 1"
//@ case name=conv_filters defs="-DQCONV -DQC=2 -DQH=1 -DQW=2 -DQK=1 -DQS=1 -DQP=0 -DQN=2 -DQF=RELU" bounds="2 channels 1x2, 2 filters 1x1, values -1 to 1"
//@ case name=conv_pad tier=thorough defs="-DQCONV -DQC=1 -DQH=1 -DQW=2 -DQK=2 -DQS=1 -DQP=1 -DQN=1 -DQF=RELU" bounds="1 channel 1x2, 1 filter 2x2, padding 1, values -1 to 1"
//@ case name=conv_pad1 defs="-DQCONV -DQC=1 -DQH=1 -DQW=1 -DQK=2 -DQS=1 -DQP=1 -DQN=1 -DQF=RELU" bounds="1 channel 1x1, 1 filter 2x2, padding 1, values -1 to 1"
//@ case name=conv_stride defs="-DQCONV -DQC=1 -DQH=2 -DQW=3 -DQK=2 -DQS=2 -DQP=1 -DQN=1 -DQF=LINEAR" bounds="1 channel 2x3, 1 filter 2x2, stride 2, padding 1, values -1 to 1"
//@ case name=conv_1_stride defs="-DQCONV -DQC=2 -DQH=2 -DQW=3 -DQK=1 -DQS=2 -DQP=0 -DQN=1 -DQF=LINEAR" bounds="2 channels 2x3, 1 filter 1x1, stride 2, values -1 to 1"
//@ case name=conv_1_pad defs="-DQCONV -DQC=1 -DQH=1 -DQW=2 -DQK=1 -DQS=1 -DQP=1 -DQN=2 -DQF=LINEAR" bounds="1 channel 1x2, 2 filters 1x1, padding 1, values -1 to 1"
//@ case name=conv_channels defs="-DQCONV -DQC=2 -DQH=2 -DQW=2 -DQK=2 -DQS=1 -DQP=0 -DQN=2 -DQF=LINEAR" unwind=18 bounds="2 channels 2x2, 2 filters 2x2, values -1 to 1"
//@ case name=conv_3x3 defs="-DQCONV -DQC=1 -DQH=1 -DQW=2 -DQK=3 -DQS=1 -DQP=1 -DQN=1 -DQF=LINEAR" unwind=22 bounds="1 channel 1x2, 1 filter 3x3, padding 1, values -1 to 1"
//@ default fmt=16.10 func=h_pool unwind=20 timeout=300 checks=mem
//@ case name=maxpool defs="-DQPOOL=MAXPOOL -DQC=1 -DQH=2 -DQW=3 -DQK=2 -DQS=1 -DQP=0" kinds="layer:maxpool" bounds="1 channel 2x3, window 2, values -2 to 2"
//@ case name=maxpool_stride defs="-DQPOOL=MAXPOOL -DQC=2 -DQH=2 -DQW=4 -DQK=2 -DQS=2 -DQP=0" kinds="layer:maxpool" bounds="2 channels 2x4, window 2, stride 2, values -2 to 2"
//@ case name=maxpool_pad defs="-DQPOOL=MAXPOOL -DQC=1 -DQH=2 -DQW=3 -DQK=2 -DQS=2 -DQP=1" kinds="layer:maxpool" bounds="1 channel 2x3, window 2, stride 2, padding 1, values -2 to 2"
//@ case name=maxpool_pad2 defs="-DQPOOL=MAXPOOL -DQC=2 -DQH=2 -DQW=2 -DQK=3 -DQS=1 -DQP=2" kinds="layer:maxpool" bounds="2 channels 2x2, window 3, padding 2, values -2 to 2"
//@ case name=avgpool defs="-DQPOOL=AVGPOOL -DQC=2 -DQH=1 -DQW=2 -DQK=1 -DQS=1 -DQP=0" kinds="layer:avgpool" bounds="2 channels 1x2, values -2 to 2"
//@ case name=avgpool_2x2 defs="-DQPOOL=AVGPOOL -DQC=2 -DQH=2 -DQW=2 -DQK=1 -DQS=1 -DQP=0" kinds="layer:avgpool" bounds="2 channels 2x2, values -2 to 2"
//@ case name=upsample defs="-DQPOOL=UPSAMPLE -DQC=2 -DQH=1 -DQW=2 -DQK=1 -DQS=2 -DQP=0" kinds="layer:upsample" bounds="2 channels 1x2, factor 2, values -2 to 2"
//@ case name=upsample_3 defs="-DQPOOL=UPSAMPLE -DQC=1 -DQH=2 -DQW=1 -DQK=1 -DQS=3 -DQP=0" kinds="layer:upsample" bounds="1 channel 2x1, factor 3, values -2 to 2"
//@ default fmt=16.10 func=h_softmax unwind=8 timeout=300 checks=mem
//@ case name=softmax2 defs="-DQSOFT=2" kinds="layer:softmax" bounds="2 inputs -4 to 4, temperatures 1/2, 1, 2, arbitrary exponential"
//@ case name=softmax3 tier=thorough timeout=3000 defs="-DQSOFT=3" kinds="layer:softmax" bounds="3 inputs -4 to 4, temperatures 1/2, 1, 2, arbitrary exponential"
//@ case name=dropout func=h_drop defs="-DQDROP=DROPOUT" kinds="layer:dropout" bounds="2 inputs, any draws, probabilities 0, 1/2, 3/4"
//@ case name=noise func=h_drop defs="-DQDROP=NOISE" kinds="layer:noise" bounds="2 inputs, any draws, probabilities 0, 1/2, 3/4"
//@ case name=recurrent func=h_recurrent defs="-DQREC -DRM=1 -DRN=1 -DSTEPS=2" kinds="layer:recurrent,connected" bounds="1 input, 1 neuron, 2 steps, values -1 to 1"
//@ case name=recurrent_wide tier=thorough timeout=1800 func=h_recurrent defs="-DQREC -DRM=2 -DRN=1 -DSTEPS=2" kinds="layer:recurrent,connected" bounds="1 input, 1 neuron, 2 steps, values -2 to 2"
//@ case name=recurrent2 func=h_recurrent defs="-DQREC -DRM=1 -DRN=2 -DSTEPS=1" kinds="layer:recurrent,connected" bounds="1 input, 2 neurons, 1 step, values -1 to 1"
//@ case name=recurrent_back func=h_recback defs="-DQRB" kinds="layer:recurrent,connected" bounds="1 input, 1 neuron, any state and error, values -2 to 2"
//@ case name=lstm func=h_lstm defs="-DQLS -DSTEPS=1" kinds="layer:lstm,connected" bounds="1 input, 1 neuron, 1 step from any cell and output, values -1 to 1"
//@ case name=lstm2 tier=thorough timeout=3000 func=h_lstm defs="-DQLS -DSTEPS=2" kinds="layer:lstm,connected" bounds="1 input, 1 neuron, 2 steps from any cell and output, values -1 to 1"
//@ default fmt=16.10 func=h_net unwind=8 timeout=300 checks=mem kinds="layer:connected,softmax,dropout"
//@ case name=chain defs="-DQNET" bounds="2 connected layers of 1 neuron, values on grids" kinds="layer:connected"
//@ case name=chain2 defs="-DQNET2" func=h_net2 bounds="2 connected layers of 2 and 1 neurons, RELU then LINEAR, values -2 to 2" kinds="layer:connected"
//@ case name=fixed_behind defs="-DFIXED" func=h_fixed bounds="a convolutional layer without weight learning behind a connected one, values -2 to 2" kinds="layer:connected,convolutional"
#include "v.h"
#include "neural.h"
#include "neural_layer.h"
#include "neural_layer_args.h"
#include "neural_activations.h"
#include "blas.h"
#include "image.h"
#ifndef SYM
#define SYM() nd_small(-2, 2)
#endif
#include "net.h"
double v_exp(double), v_log(double), v_sin(double), v_cos(double), v_tanh(double);
static double ab(double a) { return a < 0 ? -a : a; }
static bool near(double a, double b) { return a == b || ab(a - b) <= 0.015625; }
static void symi(double *a, int n, int m) { for (int i = 0; i < n; ++i) a[i] = nd_small(-m, m); }
#ifdef QACT
/* the named function, and its derivative */
void h_act(void)
{
    v_rng_mode = 2; v_exit_ok = 0;
    const double x = nd_grid(-16, 16, 0.125);
    const double e = v_exp(-x), ep = v_exp(x), g = v_exp(-x * x), t = v_tanh(x), sn = v_sin(x), cs = v_cos(x);
    V_ASSUME(e > 0.125 && e < 8 && ep > 0.125 && ep < 8 && near(e * ep, 1));
    const double f = neural_activate(QACT, x), d = neural_gradient(QACT, x);
    const double s = 1 / (1 + e);
    double wf = 0, wd = 0;
    switch (QACT) {
    case LOGISTIC: wf = s; wd = s * (1 - s); break;
    case RELU: wf = x > 0 ? x : 0; wd = x > 0 ? 1 : 0; break;
    case GAUSSIAN: wf = g; wd = -2 * x * g; break;
    case TANH: wf = t; wd = 1 - t * t; break;
    case SIN: wf = sn; wd = cs; break;
    case COS: wf = cs; wd = -sn; break;
    case SOFT_PLUS: wf = v_log(1 + ep); wd = s; break;
    case LINEAR: wf = x; wd = 1; break;
    case LEAKY: wf = x > 0 ? x : x * .1; wd = x > 0 ? 1 : .1; break;
    case SELU: wf = 1.0507 * (x > 0 ? x : 1.6732 * (ep - 1)); wd = 1.0507 * (x >= 0 ? 1 : 1.6732 * ep); break;
    case LOGGY: wf = 2 * s - 1; wd = 2 * s * (1 - s); break;
    }
    V_ASSERT(near(f, wf) || (QACT == SELU && ab(f - wf) <= 0.125), "the activation is the named function");
    V_ASSERT(x == 0 || near(d, wd) || (QACT == SELU && ab(d - wd) <= 0.125) || (QACT == SOFT_PLUS && ab(d - wd) <= 0.03125) || (QACT == LOGGY && ab(d - wd) <= 0.0625), "the gradient is the derivative of the activation");
    V_REACH();
}
#endif
#ifdef ACTA
void h_actarray(void)
{
    v_rng_mode = 2; v_exit_ok = 0;
    double s[2], o[2], in[2], dl[2], d0[2];
    for (int i = 0; i < 2; ++i) { in[i] = s[i] = nd_small(-120, 120); dl[i] = d0[i] = nd_small(-4, 4); }
    const int f = nd_bool() ? LINEAR : RELU;
    neural_activate_array(s, o, 2, f);
    for (int i = 0; i < 2; ++i) {
        const double c = in[i] < -100 ? -100 : in[i] > 100 ? 100 : in[i];
        V_ASSERT(s[i] == c, "a neuron's state is kept between -100 and 100");
        V_ASSERT(o[i] == (f == RELU && c < 0 ? 0 : c), "every neuron's output is its activated state");
    }
    neural_gradient_array(s, dl, 2, f);
    for (int i = 0; i < 2; ++i) V_ASSERT(dl[i] == (f == RELU && !(s[i] > 0) ? 0 : d0[i]), "every error is multiplied by the derivative at its neuron's state");
    V_REACH();
}
#endif
#ifdef GEMM
void h_gemm(void)
{
    v_rng_mode = 2; v_exit_ok = 0;
    /* M=2, N=2, K=2; each matrix lies in rows of 3 */
    double a[6], b[6], c[6], w[6];
    symi(a, 6, 2); symi(b, 6, 2); symi(c, 6, 2);
    const double alpha = nd_small(-2, 2), beta = nd_small(0, 1);
    for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j) {
            double s = 0;
            for (int k = 0; k < 2; ++k) s += (QTA ? a[k * 3 + i] : a[i * 3 + k]) * (QTB ? b[j * 3 + k] : b[k * 3 + j]);
            w[i * 3 + j] = beta * c[i * 3 + j] + alpha * s;
        }
    w[2] = c[2]; w[5] = c[5];
    blas_gemm(QTA, QTB, 2, 2, 2, alpha, a, 3, b, 3, beta, c, 3);
    for (int i = 0; i < 6; ++i) V_ASSERT(c[i] == w[i], "a matrix product is exact for each transposition");
    V_REACH();
}
#endif
#ifdef VECTORS
void h_vectors(void)
{
    v_rng_mode = 2; v_exit_ok = 0;
    double x[6], y[6], z[6];
    symi(x, 6, 2); symi(y, 6, 2);
    const double al = nd_small(-2, 2);
    const int ix = 1, iy = 2;
    for (int i = 0; i < 6; ++i) z[i] = y[i];
    const int what = nd_int(0, 5);
    if (what == 0) { blas_axpy(3, al, x, ix, y, iy); for (int i = 0; i < 3; ++i) z[i * iy] += al * x[i * ix]; }
    if (what == 1) { blas_scal(3, al, y, iy); for (int i = 0; i < 3; ++i) z[i * iy] *= al; }
    if (what == 2) { blas_fill(3, al, y, iy); for (int i = 0; i < 3; ++i) z[i * iy] = al; }
    if (what == 3) { blas_mul(3, x, ix, y, iy); for (int i = 0; i < 3; ++i) z[i * iy] *= x[i * ix]; }
    if (what == 4) V_ASSERT(blas_dot(3, x, ix, y, iy) == x[0] * y[0] + x[1] * y[2] + x[2] * y[4], "a dot product is the sum of the products");
    if (what == 5) V_ASSERT(blas_sum(x, 3) == x[0] + x[1] + x[2], "a sum adds every element");
    for (int i = 0; i < 6; ++i) V_ASSERT(y[i] == z[i], "a vector operation does what it is named for, elsewhere nothing");
    V_REACH();
}
#endif
static struct Net NT;
static struct Layer *mk(struct ArgsLayer *a) { struct Layer *l = layer_init(a); free(a); return l; }
#ifdef QCONN
void h_connected(void)
{
    v_rng_mode = 2; v_exit_ok = 0; v_norm_fixed = 1;
    struct ArgsLayer *a = nl_args(CONNECTED, QI, QO);
    a->function = QF;
    a->sgd_weights = nd_bool();
    const bool sgd = a->sgd_weights;
    struct Layer *l = mk(a);
    symi(l->weights, QI * QO, 2); symi(l->biases, QO, 2);
    symi(l->weight_updates, QI * QO, 2); symi(l->bias_updates, QO, 2);
    double x[QI], w[QI * QO], b[QO], s[QO], wu[QI * QO], bu[QO], d[QO], up[QI], up0[QI];
    symi(x, QI, 2); symi(up, QI, 2);
    for (int i = 0; i < QI; ++i) up0[i] = up[i];
    for (int i = 0; i < QI * QO; ++i) { w[i] = l->weights[i]; wu[i] = l->weight_updates[i]; }
    for (int i = 0; i < QO; ++i) { b[i] = l->biases[i]; bu[i] = l->bias_updates[i]; }
    layer_forward(l, &NT, x);
    for (int o = 0; o < QO; ++o) {
        s[o] = b[o];
        for (int i = 0; i < QI; ++i) s[o] += w[o * QI + i] * x[i];
        const double y = QF == RELU && s[o] < 0 ? 0 : s[o];
        V_ASSERT(layer_output(l)[o] == y, "a connected neuron outputs its activated bias plus weighted inputs");
    }
    for (int o = 0; o < QO; ++o) l->delta[o] = d[o] = nd_small(-2, 2);
    const bool first = nd_bool();
    layer_backward(l, &NT, x, first ? NULL : up);
    for (int o = 0; o < QO; ++o) {
        if (QF == RELU && !(s[o] > 0)) d[o] = 0;
        V_ASSERT(l->bias_updates[o] == bu[o] + (sgd ? d[o] : 0), "a bias gathers its neuron's error, with gradient descent");
        for (int i = 0; i < QI; ++i) V_ASSERT(l->weight_updates[o * QI + i] == wu[o * QI + i] + (sgd ? d[o] * x[i] : 0), "a weight gathers its neuron's error times its input, with gradient descent");
    }
    for (int i = 0; i < QI; ++i) {
        double e = up0[i];
        if (!first) for (int o = 0; o < QO; ++o) e += d[o] * w[o * QI + i];
        V_ASSERT(up[i] == e, "the error reaching an input is the weighted sum of the neurons' errors");
        }
    for (int i = 0; i < QI * QO; ++i) V_ASSERT(l->weights[i] == w[i], "only an update changes weights");
    for (int i = 0; i < QO; ++i) V_ASSERT(l->biases[i] == b[i], "only an update changes biases");
    V_REACH();
}
#endif
#ifdef QUPDATE
static double c10(double v) { return v < -10 ? -10 : v > 10 ? 10 : v; }
void h_update(void)
{
    v_rng_mode = 2; v_exit_ok = 0; v_norm_fixed = 1;
    struct ArgsLayer *a = nl_args(QLT, 2, 1);
    if (QLT == CONVOLUTIONAL) { a->channels = 2; a->width = 1; a->height = 1; a->size = 1; }
    a->sgd_weights = nd_bool();
    const bool sgd = a->sgd_weights;
    struct Layer *l = mk(a);
    V_ASSERT(l->n_weights == 2 && l->n_biases == 1, "the layer has two weights and a bias");
    double w[2], u[2];
    bool on[2];
    for (int i = 0; i < 2; ++i) {
        on[i] = l->weight_active[i] = nd_bool();
        w[i] = l->weights[i] = on[i] ? nd_small(-10, 10) : 0;
        u[i] = l->weight_updates[i] = nd_small(-4, 4);
    }
    const double b = l->biases[0] = nd_small(-10, 10), v = l->bias_updates[0] = nd_small(-4, 4);
    const double eta = l->eta = nd_grid(0, 4, 0.25), mom = l->momentum = nd_grid(0, 2, 0.5), dec = l->decay = nd_grid(0, 1, 0.25);
    const bool go = sgd && eta > 0;
    layer_update(l);
    V_ASSERT(l->biases[0] == (go ? c10(b + eta * v) : b), "a bias moves by the rate times what it gathered, kept in range; without gradient descent not at all");
    V_ASSERT(l->bias_updates[0] == (go ? mom * v : v), "a momentum's share of a bias update stays");
    for (int i = 0; i < 2; ++i) {
        const double g = u[i] - (dec > 0 ? dec * w[i] : 0);
        V_ASSERT(l->weights[i] == (go ? (on[i] ? c10(w[i] + eta * g) : 0) : w[i]), "a weight moves by the rate times its decayed gradient, kept in range; a disabled one stays zero; without gradient descent not at all");
        V_ASSERT(l->weight_updates[i] == (go ? mom * g : u[i]), "a momentum's share of a weight update stays");
    }
    V_REACH();
}
#endif
#ifdef QCONV
#define QOH ((QH + 2 * QP - QK) / QS + 1)
#define QOW ((QW + 2 * QP - QK) / QS + 1)
#define QNIN (QC * QH * QW)
#define QNW (QN * QC * QK * QK)
#define QNOUT (QN * QOH * QOW)
void h_conv(void)
{
    v_rng_mode = 2; v_exit_ok = 0; v_norm_fixed = 1;
    struct ArgsLayer *a = nl_args(CONVOLUTIONAL, QNIN, QN);
    a->channels = QC; a->height = QH; a->width = QW; a->size = QK; a->stride = QS; a->pad = QP; a->function = QF;
    a->sgd_weights = nd_bool();
    const bool sgd = a->sgd_weights;
    struct Layer *l = mk(a);
    V_ASSERT(l->n_outputs == QNOUT && l->out_h == QOH && l->out_w == QOW && l->out_c == QN && l->n_inputs == QNIN && l->n_weights == QNW, "a convolution has the size its window, stride and padding give");
    double x[QNIN], w[QNW], b[QN], s[QNOUT], d[QNOUT], up[QNIN], want[QNIN], gu[QNW];
    symi(x, QNIN, 1);
    for (int i = 0; i < QNW; ++i) { w[i] = l->weights[i] = nd_small(-1, 1); gu[i] = 0; }
    for (int i = 0; i < QN; ++i) b[i] = l->biases[i] = nd_small(-1, 1);
    for (int i = 0; i < QNIN; ++i) up[i] = want[i] = 0;
    layer_forward(l, &NT, x);
    for (int f = 0; f < QN; ++f)
        for (int r = 0; r < QOH; ++r)
            for (int c = 0; c < QOW; ++c) {
                double v = 0;
                for (int ch = 0; ch < QC; ++ch)
                    for (int i = 0; i < QK; ++i)
                        for (int j = 0; j < QK; ++j) {
                            const int y = r * QS + i - QP, z = c * QS + j - QP;
                            if (y >= 0 && y < QH && z >= 0 && z < QW) v += w[((f * QC + ch) * QK + i) * QK + j] * x[(ch * QH + y) * QW + z];
                        }
                v += b[f];
                const int o = (f * QOH + r) * QOW + c;
                s[o] = v;
                V_ASSERT(layer_output(l)[o] == (QF == RELU && v < 0 ? 0 : v), "a convolution outputs its activated bias plus the weighted window");
            }
    for (int o = 0; o < QNOUT; ++o) l->delta[o] = d[o] = nd_small(-1, 1);
    const bool first = nd_bool();
    layer_backward(l, &NT, x, first ? NULL : up);
    for (int f = 0; f < QN; ++f) {
        double bu = 0;
        for (int r = 0; r < QOH; ++r)
            for (int c = 0; c < QOW; ++c) {
                const int o = (f * QOH + r) * QOW + c;
                if (QF == RELU && !(s[o] > 0)) d[o] = 0;
                bu += d[o];
                }
        V_ASSERT(l->bias_updates[f] == (sgd ? bu : 0), "a filter's bias gathers the errors of its outputs, with gradient descent");
    }
    for (int f = 0; f < QN; ++f)
        for (int ch = 0; ch < QC; ++ch)
            for (int i = 0; i < QK; ++i)
                for (int j = 0; j < QK; ++j) {
                    const int q = ((f * QC + ch) * QK + i) * QK + j;
                    for (int r = 0; r < QOH; ++r)
                        for (int c = 0; c < QOW; ++c) {
                            const int y = r * QS + i - QP, z = c * QS + j - QP, o = (f * QOH + r) * QOW + c;
                            if (y >= 0 && y < QH && z >= 0 && z < QW) { gu[q] += d[o] * x[(ch * QH + y) * QW + z]; want[(ch * QH + y) * QW + z] += d[o] * w[q]; }
                        }
                    V_ASSERT(l->weight_updates[q] == (sgd ? gu[q] : 0), "a filter weight gathers its errors times the inputs it met, with gradient descent");
                }
    for (int i = 0; i < QNIN; ++i) V_ASSERT(up[i] == (first ? 0 : want[i]), "the error reaching an input is the weighted sum of the errors of the windows it lies in");
    V_REACH();
}
#endif
#ifdef QPOOL
#define QNIN (QC * QH * QW)
#define QOH (QPOOL == MAXPOOL ? (QH + QP - QK) / QS + 1 : QPOOL == AVGPOOL ? 1 : QH * QS)
#define QOW (QPOOL == MAXPOOL ? (QW + QP - QK) / QS + 1 : QPOOL == AVGPOOL ? 1 : QW * QS)
#define QNOUT (QC * QOH * QOW)
void h_pool(void)
{
    v_rng_mode = 2; v_exit_ok = 0;
    struct ArgsLayer *a = nl_args(QPOOL, QNIN, 1);
    a->channels = QC; a->height = QH; a->width = QW; a->size = QK; a->stride = QS; a->pad = QP;
    struct Layer *l = mk(a);
    V_ASSERT(l->n_outputs == QNOUT && l->out_h == QOH && l->out_w == QOW && l->out_c == QC && l->n_inputs == QNIN, "a pooling layer has the size its window, stride and padding give");
    double x[QNIN], d[QNOUT], up[QNIN], want[QNIN];
    symi(x, QNIN, 2);
    for (int i = 0; i < QNIN; ++i) up[i] = want[i] = nd_small(-2, 2);
    layer_forward(l, &NT, x);
    for (int o = 0; o < QNOUT; ++o) l->delta[o] = d[o] = nd_small(-2, 2);
    double total = 0, got = 0;
    for (int ch = 0; ch < QC; ++ch)
        for (int r = 0; r < QOH; ++r)
            for (int c = 0; c < QOW; ++c) {
                const int o = (ch * QOH + r) * QOW + c;
                if (QPOOL == MAXPOOL) {
                    double m = -100;
                    int at = -1, ties = 0;
                    for (int i = 0; i < QK; ++i)
                        for (int j = 0; j < QK; ++j) {
                            const int y = r * QS + i - QP / 2, z = c * QS + j - QP / 2;
                            if (y < 0 || y >= QH || z < 0 || z >= QW) continue;
                            const int q = (ch * QH + y) * QW + z;
                            if (x[q] == m) ++ties;
                            if (x[q] > m) { m = x[q]; at = q; ties = 0; }
                        }
                    V_ASSERT(layer_output(l)[o] == m, "a maximum pooling output is the largest input of its window");
                    V_ASSUME(ties == 0); /* with equal inputs the error may go to either */
                    for (int q = 0; q < QNIN; ++q) if (q == at) want[q] += d[o];
                } else if (QPOOL == AVGPOOL) {
                    double s = 0;
                    for (int q = 0; q < QH * QW; ++q) { s += x[ch * QH * QW + q]; want[ch * QH * QW + q] += d[o] / (QH * QW); }
                    V_ASSERT(layer_output(l)[o] == s / (QH * QW), "an average pooling output is the mean of its channel");
                } else {
                    const int q = (ch * QH + r / QS) * QW + c / QS;
                    V_ASSERT(layer_output(l)[o] == x[q], "an upsampled output is the input of the pixel it lies in");
                    want[q] += d[o];
                }
            }
    (void) total; (void) got;
    layer_backward(l, &NT, x, NULL);
    layer_backward(l, &NT, x, up);
    for (int i = 0; i < QNIN; ++i) V_ASSERT(up[i] == want[i], "pooling passes each error to the inputs it came from");
    layer_update(l);
    V_REACH();
}
#endif
#ifdef QSOFT
void h_softmax(void)
{
    v_rng_mode = 2; v_exit_ok = 0;
    struct ArgsLayer *a = nl_args(SOFTMAX, QSOFT, QSOFT);
    a->scale = nd_bool() ? 1 : nd_bool() ? 2 : 0.5;
    const double sc = a->scale;
    struct Layer *l = mk(a);
    double x[QSOFT], e[QSOFT], up[QSOFT], up0[QSOFT], sum = 0;
    symi(x, QSOFT, 4); symi(up, QSOFT, 2);
    double top = x[0];
    for (int i = 1; i < QSOFT; ++i) if (x[i] > top) top = x[i];
    for (int i = 0; i < QSOFT; ++i) { up0[i] = up[i]; e[i] = v_exp((x[i] - top) / sc); sum += e[i]; }
    /* exp is increasing */
    for (int i = 0; i < QSOFT; ++i) for (int j = 0; j < QSOFT; ++j) V_ASSUME(!(x[i] > x[j]) || e[i] > e[j]);
    layer_forward(l, &NT, x);
    const double *o = layer_output(l);
    double all = 0;
    for (int i = 0; i < QSOFT; ++i) {
        V_ASSERT(near(o[i] * sum, e[i]), "a softmax output is its share of the exponentials of the inputs over the temperature");
        V_ASSERT(o[i] >= 0 && o[i] <= 1, "a softmax output is a probability");
        all += o[i];
        for (int j = 0; j < QSOFT; ++j) V_ASSERT(!(x[i] > x[j]) || o[i] >= o[j], "a larger input has no smaller softmax output");
    }
    V_ASSERT(near(all, 1), "softmax outputs sum to one");
    for (int i = 0; i < QSOFT; ++i) l->delta[i] = nd_small(-2, 2);
    layer_backward(l, &NT, x, NULL);
    layer_backward(l, &NT, x, up);
    for (int i = 0; i < QSOFT; ++i) V_ASSERT(up[i] == up0[i] + l->delta[i], "softmax passes its errors on");
    V_REACH();
}
#endif
#ifdef QDROP
void h_drop(void)
{
    v_exit_ok = 0; v_norm_fixed = 2;
    struct ArgsLayer *a = nl_args(QDROP, 2, 2);
    const int pick = nd_int(0, 2);
    a->probability = pick == 0 ? 0 : pick == 1 ? 0.5 : 0.75;
    a->scale = 1;
    const double p = a->probability, scale = pick == 0 ? 1 : pick == 1 ? 2 : 4;
    v_rng_mode = 2;
    struct Layer *l = mk(a);
    double x[2], up[2];
    symi(x, 2, 2);
    NT.train = false;
    layer_forward(l, &NT, x);
    for (int i = 0; i < 2; ++i) V_ASSERT(layer_output(l)[i] == x[i], "outside training a noise or dropout layer changes nothing");
    NT.train = true;
    if (QDROP == DROPOUT) {
        v_rng_mode = 4; v_rng_len = 2; v_rng_after = 2;
        for (int i = 0; i < 2; ++i) v_rng_seq[i] = nd_grid(0, 7, 0.125);
        v_rng_pos = 0;
        layer_forward(l, &NT, x);
        double d[2];
        for (int i = 0; i < 2; ++i) {
            const bool off = v_rng_seq[i] < p;
            V_ASSERT(layer_output(l)[i] == (off ? 0 : x[i] * scale), "in training an input is dropped with its probability, otherwise scaled to keep its mean");
            l->delta[i] = d[i] = nd_small(-2, 2);
            up[i] = 0;
        }
        layer_backward(l, &NT, x, NULL);
        layer_backward(l, &NT, x, up);
        for (int i = 0; i < 2; ++i) V_ASSERT(up[i] == (v_rng_seq[i] < p ? 0 : d[i] * scale), "errors pass where inputs passed, scaled alike");
    } else {
        v_rng_mode = 1;
        layer_forward(l, &NT, x);
        for (int i = 0; i < 2; ++i) {
            V_ASSERT(p > 0 || layer_output(l)[i] == x[i], "without probability there is no noise");
            l->delta[i] = nd_small(-2, 2);
            up[i] = 1;
        }
        layer_backward(l, &NT, x, NULL);
        layer_backward(l, &NT, x, up);
        for (int i = 0; i < 2; ++i) V_ASSERT(up[i] == 1 + l->delta[i], "a noise layer passes its errors on");
    }
    V_REACH();
}
#endif
#ifdef QREC
static double row(const struct Layer *l, int o, const double *x, int n)
{
    double s = l->biases[o];
    for (int i = 0; i < n; ++i) s += l->weights[o * n + i] * x[i];
    return s;
}
void h_recurrent(void)
{
    v_rng_mode = 2; v_exit_ok = 0; v_norm_fixed = 1;
    struct ArgsLayer *a = nl_args(RECURRENT, 1, RN);
    a->function = RELU;
    struct Layer *l = mk(a);
    struct Layer *sub[3] = { l->input_layer, l->self_layer, l->output_layer };
    for (int i = 0; i < 3; ++i) { symi(sub[i]->weights, sub[i]->n_weights, RM); symi(sub[i]->biases, RN, RM); }
    const bool lin = sub[0]->function == LINEAR && sub[1]->function == LINEAR;
    (void) lin;
    double prev[RN], st[RN], out[RN];
    for (int i = 0; i < RN; ++i) { prev[i] = nd_small(-1, 1); l->output[i] = prev[i]; }
    for (int t = 0; t < STEPS; ++t) {
        double x[1];
        symi(x, 1, RM);
        layer_forward(l, &NT, x);
        for (int i = 0; i < RN; ++i) {
            const double in = neural_activate(sub[0]->function, row(sub[0], i, x, 1));
            const double self = neural_activate(sub[1]->function, row(sub[1], i, prev, RN));
            st[i] = in + self;
        }
        for (int i = 0; i < RN; ++i) {
            double s = row(sub[2], i, st, RN);
            s = s < -100 ? -100 : s > 100 ? 100 : s;
            out[i] = neural_activate(sub[2]->function, s);
            V_ASSERT(layer_output(l)[i] == out[i], "a recurrent neuron outputs its weighted sum of the weighted input and the weighted previous output");
        }
        for (int i = 0; i < RN; ++i) prev[i] = out[i];
    }
    V_REACH();
}
#endif
#ifdef QRB
/* errors of one step: through the output weights, and on through the input weights */
void h_recback(void)
{
    v_rng_mode = 2; v_exit_ok = 0; v_norm_fixed = 1;
    struct ArgsLayer *a = nl_args(RECURRENT, 1, 1);
    a->function = LINEAR;
    struct Layer *l = mk(a);
    struct Layer *in = l->input_layer, *out = l->output_layer, *self = l->self_layer;
    in->weights[0] = nd_small(-2, 2); out->weights[0] = nd_small(-2, 2); self->weights[0] = nd_small(-2, 2);
    in->biases[0] = nd_small(-2, 2); out->biases[0] = nd_small(-2, 2); self->biases[0] = nd_small(-2, 2);
    double x[1], up[1] = { 0 };
    symi(x, 1, 2);
    layer_forward(l, &NT, x);
    const double st = in->weights[0] * x[0] + in->biases[0] + self->biases[0];
    /* what an earlier pass left behind does not matter */
    in->delta[0] = nd_small(-2, 2); self->delta[0] = nd_small(-2, 2);
    const double d = nd_small(-2, 2);
    l->delta[0] = d;
    layer_backward(l, &NT, x, up);
    V_ASSERT(out->bias_updates[0] == d && out->weight_updates[0] == d * st, "a recurrent layer's output weights gather their error times the state");
    const double e = d * out->weights[0];
    V_ASSERT(in->bias_updates[0] == e && in->weight_updates[0] == e * x[0], "a recurrent layer's input weights gather the error passed back times the input");
    V_ASSERT(self->bias_updates[0] == e, "a recurrent layer's own biases gather the error passed back");
    V_ASSERT(up[0] == e * in->weights[0], "the error reaching an input is weighted by the output and the input weights");
    const double b0 = in->biases[0], b1 = out->biases[0], b2 = self->biases[0];
    in->eta = out->eta = self->eta = 0.5;
    layer_update(l);
    V_ASSERT(in->biases[0] == b0 + 0.5 * e && out->biases[0] == b1 + 0.5 * d && self->biases[0] == b2 + 0.5 * e, "an update moves all three");
    V_REACH();
}
#endif
#ifdef QLS
void h_lstm(void)
{
    v_rng_mode = 2; v_exit_ok = 0; v_norm_fixed = 1;
    struct ArgsLayer *a = nl_args(LSTM, 1, 1);
    a->function = LINEAR; a->recurrent_function = RELU;
    struct Layer *l = mk(a);
    V_ASSERT(l->function == LINEAR && l->recurrent_function == RELU, "an LSTM layer takes both functions");
    struct Layer *u[4] = { l->uf, l->ui, l->ug, l->uo }, *w[4] = { l->wf, l->wi, l->wg, l->wo };
    for (int k = 0; k < 4; ++k) {
        u[k]->weights[0] = nd_small(-1, 1); u[k]->biases[0] = nd_small(-1, 1);
        w[k]->weights[0] = nd_small(-1, 1); w[k]->biases[0] = nd_small(-1, 1);
        V_ASSERT(u[k]->function == LINEAR && w[k]->function == LINEAR, "the gates of an LSTM sum linearly");
    }
    double h = nd_small(-1, 1), c = nd_small(-1, 1);
    l->h[0] = h; l->c[0] = c;
    for (int t = 0; t < STEPS; ++t) {
        double x[1], z[4];
        symi(x, 1, 1);
        layer_forward(l, &NT, x);
        for (int k = 0; k < 4; ++k) z[k] = (u[k]->biases[0] + u[k]->weights[0] * x[0]) + (w[k]->biases[0] + w[k]->weights[0] * h);
        for (int k = 0; k < 4; ++k) z[k] = neural_activate(k == 2 ? LINEAR : RELU, z[k]);
        c = z[0] * c + z[1] * z[2];
        c = c < -100 ? -100 : c > 100 ? 100 : c;
        h = z[3] * c;
        V_ASSERT(layer_output(l)[0] == h, "an LSTM neuron outputs its output gate times its activated cell; the cell forgets and takes in by its gates");
    }
    V_REACH();
}
#endif
#if defined(QNET) || defined(QNET2) || defined(FIXED)
static void add(struct Layer *l) { neural_push(&NT, l); }
#endif
#ifdef QNET
/* one neuron behind another: the whole step is known in closed form */
void h_net(void)
{
    v_rng_mode = 2; v_exit_ok = 0; v_norm_fixed = 1;
    neural_init(&NT);
    struct Layer *a = mk(nl_args(CONNECTED, 1, 1)), *b = mk(nl_args(CONNECTED, 1, 1));
    add(a); add(b);
    V_ASSERT(NT.n_layers == 2 && NT.n_inputs == 1 && NT.n_outputs == 1, "the network has both layers");
    const double w1 = a->weights[0] = nd_small(-2, 2), b1 = a->biases[0] = nd_small(-2, 2), w2 = b->weights[0] = nd_small(-2, 2), b2 = b->biases[0] = nd_small(-2, 2);
    a->eta = 0.5; b->eta = 0.25; a->momentum = b->momentum = 0; a->decay = b->decay = 0;
    const double x = nd_small(-1, 1), y = nd_small(-2, 2);
    neural_propagate(&NT, &x, nd_bool());
    const double h = w1 * x + b1, o = w2 * h + b2;
    V_ASSERT(neural_output(&NT, 0) == o && neural_outputs(&NT)[0] == o, "a network outputs what its layers compute one after another");
    neural_learn(&NT, &y, &x);
    const double d2 = y - o, d1 = d2 * w2;
    V_ASSERT(b->biases[0] == clamp(b2 + 0.25 * d2, -10, 10) && b->weights[0] == clamp(w2 + 0.25 * d2 * h, -10, 10), "the output layer follows the gradient of the squared error");
    V_ASSERT(a->biases[0] == clamp(b1 + 0.5 * d1, -10, 10) && a->weights[0] == clamp(w1 + 0.5 * d1 * x, -10, 10), "the hidden layer follows the gradient of the squared error");
    V_REACH();
}
#endif
#ifdef QNET2
void h_net2(void)
{
    v_rng_mode = 2; v_exit_ok = 0; v_norm_fixed = 1;
    neural_init(&NT);
    struct ArgsLayer *p = nl_args(CONNECTED, 1, 2);
    p->function = RELU;
    struct Layer *a = mk(p), *b = mk(nl_args(CONNECTED, 2, 1));
    add(a); add(b);
    double w1[2], b1[2], w2[2], h[2];
    for (int i = 0; i < 2; ++i) { w1[i] = a->weights[i] = nd_small(-2, 2); b1[i] = a->biases[i] = nd_small(-2, 2); w2[i] = b->weights[i] = nd_small(-2, 2); }
    const double b2 = b->biases[0] = nd_small(-2, 2);
    a->eta = 0.5; b->eta = 0.25; a->momentum = b->momentum = 0; a->decay = b->decay = 0;
    const double x = nd_small(-1, 1), y = nd_small(-2, 2);
    /* what an earlier pass left behind does not matter */
    for (int i = 0; i < 2; ++i) { a->delta[i] = nd_small(-2, 2); }
    b->delta[0] = nd_small(-2, 2);
    neural_propagate(&NT, &x, true);
    double o = b2;
    for (int i = 0; i < 2; ++i) { h[i] = w1[i] * x + b1[i]; if (h[i] < 0) h[i] = 0; o += w2[i] * h[i]; }
    V_ASSERT(neural_output(&NT, 0) == o, "a network outputs what its layers compute one after another");
    neural_learn(&NT, &y, &x);
    const double d2 = y - o;
    for (int i = 0; i < 2; ++i) {
        const double d1 = h[i] > 0 ? d2 * w2[i] : 0;
        V_ASSERT(b->weights[i] == clamp(w2[i] + 0.25 * d2 * h[i], -10, 10), "the output layer follows the gradient of the squared error");
        V_ASSERT(a->biases[i] == clamp(b1[i] + 0.5 * d1, -10, 10) && a->weights[i] == clamp(w1[i] + 0.5 * d1 * x, -10, 10), "the hidden layer follows the gradient of the squared error");
    }
    V_ASSERT(b->biases[0] == clamp(b2 + 0.25 * d2, -10, 10), "the output bias follows the gradient of the squared error");
    V_REACH();
}
#endif
#ifdef FIXED
/* a layer whose weights are not learnt still passes the exact gradient on */
void h_fixed(void)
{
    v_rng_mode = 2; v_exit_ok = 0; v_norm_fixed = 1;
    neural_init(&NT);
    struct ArgsLayer *p = nl_args(CONVOLUTIONAL, 1, 1);
    p->function = RELU; p->sgd_weights = false;
    struct Layer *a = mk(nl_args(CONNECTED, 1, 1)), *b = mk(p);
    add(a); add(b);
    const double w1 = a->weights[0] = nd_small(-2, 2), b1 = a->biases[0] = nd_small(-2, 2), w2 = b->weights[0] = nd_small(-2, 2), b2 = b->biases[0] = nd_small(-2, 2);
    a->eta = 0.5; a->momentum = 0; a->decay = 0;
    const double x = nd_small(-2, 2), y = nd_small(-2, 2);
    neural_propagate(&NT, &x, true);
    const double h = w1 * x + b1, s = w2 * h + b2, o = s < 0 ? 0 : s;
    V_ASSERT(neural_output(&NT, 0) == o, "a network outputs what its layers compute one after another");
    neural_learn(&NT, &y, &x);
    const double d2 = s > 0 ? y - o : 0, d1 = d2 * w2;
    V_ASSERT(b->biases[0] == b2 && b->weights[0] == w2, "a layer without weight learning keeps its weights");
    V_ASSERT(a->biases[0] == clamp(b1 + 0.5 * d1, -10, 10) && a->weights[0] == clamp(w1 + 0.5 * d1 * x, -10, 10), "the layer before follows the gradient of the squared error");
    V_REACH();
}
#endif
