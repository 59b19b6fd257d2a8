//@ property P20
//@ default fmt=16.7 unwind=9 timeout=300 checks=leak kinds="layer:connected"
//@ case name=insert func=h_insert defs="-DINS" bounds="networks of 1 and 2 layers, every position" flags="--max-field-sensitivity-array-size 256"
//@ case name=remove func=h_remove defs="-DREM" bounds="networks of 2 and 3 layers, every position"
//@ case name=expand1 func=h_expand defs="-DEXPAND=1" kinds="layer:connected" bounds="network prediction with one layer"
//@ case name=expand2 func=h_expand defs="-DEXPAND=2" kinds="layer:connected" bounds="network prediction with two layers"
//@ case name=classifier func=h_classifier defs="-DCLASSIFIER" kinds="layer:connected,softmax" bounds="autoencoder with 2 layers, any number of removals"
//@ case name=draw func=h_draw defs="-DDRAW" checks=none uwa=0 unwind=4 bounds="any layer size up to 4, growth up to 3, any draws, up to 3 redraws"
//@ case name=grow func=h_grow defs="-DGROW=1" bounds="2 inputs, 1 to 2 neurons"
//@ case name=shrink func=h_grow defs="-DGROW=-1" bounds="2 inputs, 2 to 1 neurons"
//@ case name=connect func=h_connect defs="-DCONNECT" uwa=0 bounds="2 inputs, 2 neurons, any masks and draws, up to 8 redraws"
//@ case name=weights func=h_weights defs="-DWEIGHTS" bounds="2 inputs, 1 neuron, any weights and draws"
//@ case name=sgdmask func=h_sgdmask defs="-DSGDMASK" bounds="2 inputs, 1 neuron, any weights, updates and masks" checks=none
//@ default fmt=16.7 func=h_chain unwind=13 timeout=300 checks=leak
//@ case name=grow_connected defs="-DCHAIN=CONNECTED -DBY=1" kinds="layer:connected" bounds="2 to 3 neurons feeding the layer"
//@ case name=shrink_connected defs="-DCHAIN=CONNECTED -DBY=-1" kinds="layer:connected" bounds="2 to 1 neurons feeding the layer"
//@ case name=grow_dropout defs="-DCHAIN=DROPOUT -DBY=1" kinds="layer:connected,dropout" bounds="2 to 3 neurons feeding the layer"
//@ case name=shrink_noise defs="-DCHAIN=NOISE -DBY=-1" kinds="layer:connected,noise" bounds="2 to 1 neurons feeding the layer"
//@ case name=grow_softmax defs="-DCHAIN=SOFTMAX -DBY=1" kinds="layer:connected,softmax" bounds="2 to 3 neurons feeding the layer"
//@ case name=grow_recurrent defs="-DCHAIN=RECURRENT -DBY=1" kinds="layer:connected,recurrent" bounds="2 to 3 neurons feeding the layer"
//@ case name=grow_lstm defs="-DCHAIN=LSTM -DBY=1" kinds="layer:connected,lstm" bounds="2 to 3 neurons feeding the layer"
//@ case name=shrink_maxpool defs="-DCHAIN=MAXPOOL -DBY=-1" kinds="layer:connected,maxpool" bounds="2 to 1 neurons feeding the layer"
//@ case name=grow_upsample defs="-DCHAIN=UPSAMPLE -DBY=1" kinds="layer:connected,upsample" bounds="2 to 3 neurons feeding the layer"
//@ case name=grow_avgpool defs="-DCHAIN=AVGPOOL -DBY=1" kinds="layer:connected,avgpool" bounds="2 to 3 neurons feeding the layer"
//@ case name=shrink_conv defs="-DCHAIN=CONVOLUTIONAL -DBY=-1" kinds="layer:connected,convolutional" bounds="2 to 1 neurons feeding the layer"
//@ default fmt=16.7 func=h_self unwind=13 timeout=300 checks=leak
//@ case name=self_grow_recurrent defs="-DSELF=RECURRENT -DN0=1 -DN1=2" kinds="layer:recurrent,connected" bounds="1 to 2 neurons, any weights"
//@ case name=self_shrink_recurrent defs="-DSELF=RECURRENT -DN0=2 -DN1=1" kinds="layer:recurrent,connected" bounds="2 to 1 neurons, any weights"
//@ case name=self_grow_lstm defs="-DSELF=LSTM -DN0=1 -DN1=2" kinds="layer:lstm,connected" bounds="1 to 2 neurons, any weights"
//@ case name=self_shrink_lstm defs="-DSELF=LSTM -DN0=2 -DN1=1" kinds="layer:lstm,connected" bounds="2 to 1 neurons, any weights"
//@ case name=self_grow_conv defs="-DSELF=CONVOLUTIONAL -DN0=1 -DN1=2" kinds="layer:convolutional" bounds="1 to 2 neurons, any weights"
//@ case name=self_shrink_conv defs="-DSELF=CONVOLUTIONAL -DN0=2 -DN1=1" kinds="layer:convolutional" bounds="2 to 1 neurons, any weights"
//@ case name=self_grow_connected defs="-DSELF=CONNECTED -DN0=1 -DN1=2" kinds="layer:connected" bounds="1 to 2 neurons, any weights"
//@ case name=self_shrink_connected defs="-DSELF=CONNECTED -DN0=2 -DN1=1" kinds="layer:connected" bounds="2 to 1 neurons, any weights"
#define SYM() nd_grid(-8, 8, 0.125)
#include "hx.h"
#include "net.h"
#include "pred_neural.h"
static inline void param_free_min(void)
{
    free(X.cond); free(X.act); free(X.pred); free(X.ea); free(X.population_file);
}
static void chain(const struct Net *n, int layers)
{
    V_ASSERT(n->n_layers == layers, "the number of layers is right");
    int k = 0;
    for (const struct Llist *i = n->tail; i != NULL; i = i->prev) {
        V_ASSERT((i->next == NULL) == (i == n->tail) && (i->prev == NULL) == (i == n->head), "the list of layers has two ends");
        V_ASSERT(i->next == NULL || i->next->prev == i, "neighbours agree");
        ++k;
    }
    V_ASSERT(k == layers, "every layer is in the list");
    V_ASSERT(n->n_inputs == n->tail->layer->n_inputs && n->n_outputs == n->head->layer->n_outputs, "network sizes are its end layers'");
    V_ASSERT(neural_outputs(n) == n->head->layer->output, "the output is the last layer's");
}
static void feeds(const struct Net *n)
{
    for (const struct Llist *i = n->tail; i != NULL; i = i->prev)
        V_ASSERT(i->next == NULL || i->layer->n_inputs == i->next->layer->n_outputs, "each layer takes what the one before gives");
}
static struct Layer *mk(int type, int n_inputs, int n_outputs)
{
    struct ArgsLayer *a = nl_args(type, n_inputs, n_outputs);
    struct Layer *l = layer_init(a);
    free(a);
    return l;
}
static struct Layer *nth(const struct Net *n, int k)
{
    const struct Llist *i = n->tail;
    for (; k > 0 && i != NULL; --k) i = i->prev;
    return i == NULL ? NULL : i->layer;
}
#ifdef INS
void h_insert(void)
{
    v_rng_mode = 2;
    for (int n = 1; n <= 2; ++n) {
        for (int pos = 0; pos <= n; ++pos) {
            struct Net net;
            neural_init(&net);
            struct Layer *a = mk(CONNECTED, 1, 2), *b = NULL, *c = mk(CONNECTED, 2, 1);
            neural_push(&net, a);
            if (n == 2) { b = mk(CONNECTED, 2, 3); neural_push(&net, b); }
            neural_insert(&net, c, pos);
            chain(&net, n + 1);
            int k = 0;
            for (int i = 0; i <= n; ++i) {
                if (i == pos) V_ASSERT(nth(&net, i) == c, "the layer is inserted at its position");
                else { V_ASSERT(nth(&net, i) == (k == 0 ? a : b), "the other layers keep their order"); ++k; }
            }
            neural_free(&net);
        }
    }
    V_REACH();
}
#endif
#ifdef REM
void h_remove(void)
{
    v_rng_mode = 2;
    for (int n = 2; n <= 3; ++n) {
        for (int pos = 0; pos < n; ++pos) {
            struct Net net;
            neural_init(&net);
            struct Layer *l[3];
            for (int i = 0; i < n; ++i) { l[i] = mk(CONNECTED, i + 1, i + 2); neural_push(&net, l[i]); }
            neural_remove(&net, pos);
            chain(&net, n - 1);
            int k = 0;
            for (int i = 0; i < n; ++i) if (i != pos) { V_ASSERT(nth(&net, k) == l[i], "the other layers keep their order"); ++k; }
            neural_free(&net);
        }
    }
    V_REACH();
}
#endif
#ifdef EXPAND
void h_expand(void)
{
    v_rng_mode = 2;
    hx_param(2, 1, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_NEURAL);
    X.pred->largs = nl_args(CONNECTED, 2, EXPAND == 1 ? 1 : 2);
    if (EXPAND == 2) X.pred->largs->next = nl_args(CONNECTED, 2, 1);
    struct Cl c;
    pred_neural_init(&X, &c);
    struct Net *n = &((struct PredNeural *) c.pred)->net;
    const struct Layer *out = n->head->layer;
    pred_neural_expand(&X, &c);
    chain(n, EXPAND + 1);
    feeds(n);
    V_ASSERT(n->head->layer == out && n->n_outputs == 1 && n->n_inputs == 2, "the output layer and the network's sizes stay");
    const double x[2] = { 0.5, 0.5 };
    neural_propagate(n, x, true);
    pred_neural_free(&X, &c);
    layer_args_free(&X.pred->largs);
    param_free_min();
    V_REACH();
}
#endif
#ifdef CLASSIFIER
void h_classifier(void)
{
    v_rng_mode = 2;
    hx_param(2, 2, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_NEURAL);
    X.pred->largs = nl_args(CONNECTED, 2, 1);
    X.pred->largs->next = nl_args(CONNECTED, 2, 2);
    struct Cl c;
    pred_neural_init(&X, &c);
    struct Net *n = &((struct PredNeural *) c.pred)->net;
    for (int k = 1; k <= 3; k += 2) {
        pred_neural_ae_to_classifier(&X, &c, k);
        chain(n, 3);
        feeds(n);
        V_ASSERT(n->head->layer->type == SOFTMAX && n->n_outputs == 2 && n->n_inputs == 2, "a classifier has one output per class");
    }
    const double x[2] = { 0.5, 0.5 };
    neural_propagate(n, x, true);
    pred_neural_free(&X, &c);
    layer_args_free(&X.pred->largs);
    param_free_min();
    V_REACH();
}
#endif
#ifdef DRAW
void h_draw(void)
{
    struct Layer l;
    layer_defaults(&l);
    l.n_outputs = nd_int(1, 4);
    l.max_outputs = nd_int(1, 4);
    V_ASSUME(l.max_outputs >= l.n_outputs);
    l.max_neuron_grow = nd_int(1, 3);
    v_rng_mode = 0;
    const int n = layer_mutate_neurons(&l, nd_unit());
    V_ASSERT(l.n_outputs + n >= 1 && l.n_outputs + n <= l.max_outputs, "a layer keeps between one and its maximum number of neurons");
    V_ASSERT(n >= -l.max_neuron_grow && n <= l.max_neuron_grow, "no more neurons than allowed are added or removed");
    V_REACH();
}
#endif
static int count_active(const struct Layer *l)
{
    int n = 0;
    for (int i = 0; i < l->n_weights; ++i) n += l->weight_active[i] ? 1 : 0;
    return n;
}
#ifdef GROW
void h_grow(void)
{
    v_rng_mode = 2;
    const int n0 = GROW > 0 ? 1 : 2, n1 = n0 + GROW;
    struct Layer *l = mk(CONNECTED, 2, n0);
    nl_symd(l->weights, l->n_weights); nl_symd(l->biases, l->n_biases);
    for (int i = 0; i < l->n_weights; ++i) l->weight_active[i] = nd_bool();
    double w[4], b[2]; bool m[4];
    for (int i = 0; i < l->n_weights; ++i) { w[i] = l->weights[i]; m[i] = l->weight_active[i]; }
    for (int i = 0; i < l->n_biases; ++i) b[i] = l->biases[i];
    l->options = nd_bool() ? LAYER_EVOLVE_CONNECT : 0;
    v_rng_mode = 1;
    layer_add_neurons(l, GROW);
    V_ASSERT(l->n_outputs == n1 && l->n_biases == n1 && l->n_weights == 2 * n1, "sizes follow the number of neurons");
    V_ASSERT(l->out_w * l->out_h * l->out_c == n1, "the image size follows the number of neurons");
    V_ASSERT(l->n_active == count_active(l), "the active connections are counted");
    for (int i = 0; i < 2 * n1; ++i) {
        if (i < 2 * n0) V_ASSERT(l->weights[i] == w[i] && l->weight_active[i] == m[i], "kept neurons keep their weights");
        else V_ASSERT(l->weight_active[i] || l->weights[i] == 0, "an absent connection has weight zero");
        if (i >= 2 * n0) V_ASSERT(l->weight_updates[i] == 0, "new connections start without updates");
    }
    for (int i = 0; i < n1; ++i) {
        V_ASSERT(i < n0 ? l->biases[i] == b[i] : l->biases[i] == 0, "kept neurons keep their bias");
        V_ASSERT(i < n0 || (l->output[i] == 0 && l->state[i] == 0 && l->delta[i] == 0 && l->bias_updates[i] == 0), "new neurons start at rest");
    }
    nl_free(l);
    V_REACH();
}
#endif
#ifdef CONNECT
void h_connect(void)
{
    v_rng_mode = 2;
    struct Layer *l = mk(CONNECTED, 2, 2);
    double w[4]; bool m[4];
    for (int i = 0; i < 4; ++i) {
        m[i] = l->weight_active[i] = nd_bool();
        w[i] = l->weights[i] = m[i] ? nd_grid(1, 8, 0.125) : 0;
    }
    layer_calc_n_active(l);
    V_ASSERT(l->n_active == count_active(l), "the active connections are counted");
    v_rng_mode = 1;
    const bool mod = layer_mutate_connectivity(l, nd_grid(0, 8, 0.125), nd_grid(0, 8, 0.125));
    V_ASSERT(l->n_active == count_active(l), "the active connections are counted");
    bool diff = false;
    for (int i = 0; i < 4; ++i) {
        diff = diff || m[i] != l->weight_active[i];
        V_ASSERT(l->weight_active[i] || l->weights[i] == 0, "an absent connection has weight zero");
        V_ASSERT(!(m[i] && l->weight_active[i]) || l->weights[i] == w[i], "a kept connection keeps its weight");
    }
    V_ASSERT(mod == diff, "a change is reported exactly when one was made");
    layer_ensure_input_represention(l);
    V_ASSERT(l->n_active == count_active(l), "the active connections are counted");
    V_ASSERT((l->weight_active[0] || l->weight_active[1]) && (l->weight_active[2] || l->weight_active[3]), "every neuron has an input");
    V_ASSERT((l->weight_active[0] || l->weight_active[2]) && (l->weight_active[1] || l->weight_active[3]), "every input is used");
    for (int i = 0; i < 4; ++i) V_ASSERT(l->weight_active[i] || l->weights[i] == 0, "an absent connection has weight zero");
    nl_free(l);
    V_REACH();
}
#endif
#ifdef WEIGHTS
void h_weights(void)
{
    v_rng_mode = 2;
    struct Layer *l = mk(CONNECTED, 2, 1);
    double w[2], b;
    for (int i = 0; i < 2; ++i) {
        l->weight_active[i] = nd_bool();
        w[i] = l->weights[i] = l->weight_active[i] ? nd_small(-10, 10) : 0;
    }
    b = l->biases[0] = nd_small(-10, 10);
    v_rng_mode = 0;
    const bool mod = layer_mutate_weights(l, nd_grid(0, 8, 0.125));
    for (int i = 0; i < 2; ++i) {
        V_ASSERT(l->weights[i] >= -10 && l->weights[i] <= 10, "weights stay in range");
        V_ASSERT(l->weight_active[i] || l->weights[i] == 0, "an absent connection has weight zero");
    }
    V_ASSERT(l->biases[0] >= -10 && l->biases[0] <= 10, "biases stay in range");
    V_ASSERT(mod == (w[0] != l->weights[0] || w[1] != l->weights[1] || b != l->biases[0]), "a change is reported exactly when one was made");
    nl_free(l);
    V_REACH();
}
#endif
#ifdef SGDMASK
void h_sgdmask(void)
{
    v_rng_mode = 2;
    struct Layer *l = mk(CONNECTED, 2, 1);
    double w[2], u[2], b, v;
    for (int i = 0; i < 2; ++i) {
        l->weight_active[i] = nd_bool();
        w[i] = l->weights[i] = l->weight_active[i] ? nd_small(-10, 10) : 0;
        u[i] = l->weight_updates[i] = nd_small(-100, 100);
    }
    b = l->biases[0] = nd_small(-10, 10);
    v = l->bias_updates[0] = nd_small(-100, 100);
    l->eta = 0.5; l->momentum = 0.5; l->decay = nd_bool() ? 0.5 : 0;
    l->options = nd_bool() ? LAYER_SGD_WEIGHTS : 0;
    const bool sgd = l->options != 0;
    layer_update(l);
    for (int i = 0; i < 2; ++i) {
        V_ASSERT(l->weights[i] >= -10 && l->weights[i] <= 10, "weights stay in range");
        V_ASSERT(l->weight_active[i] || l->weights[i] == 0, "an absent connection has weight zero");
        double e = w[i] + 0.5 * (u[i] - l->decay * w[i]);
        e = e > 10 ? 10 : e < -10 ? -10 : e;
        if (sgd) V_ASSERT(!l->weight_active[i] || l->weights[i] == e, "weights follow the gradient, decay and rate");
        else V_ASSERT(l->weights[i] == w[i] && l->weight_updates[i] == u[i], "nothing is learned without gradient descent");
        if (sgd) V_ASSERT(l->weight_updates[i] == 0.5 * (u[i] - l->decay * w[i]), "momentum is kept");
    }
    double e = b + 0.5 * v;
    e = e > 10 ? 10 : e < -10 ? -10 : e;
    V_ASSERT(l->biases[0] == (sgd ? e : b), "biases follow the gradient");
    nl_free(l);
    V_REACH();
}
#endif
#ifdef CHAIN
void h_chain(void)
{
    v_rng_mode = 2;
    struct ArgsLayer *args = nl_args(CONNECTED, 1, 2);
    args->next = nl_args(CHAIN, 2, 1);
    struct Net n;
    neural_create(&n, args);
    layer_args_free(&args);
    feeds(&n);
    nl_symd(n.head->layer->weights, has_weights(CHAIN) ? n.head->layer->n_weights : 0);
    layer_add_neurons(n.tail->layer, BY);
    neural_resize(&n);
    feeds(&n);
    for (const struct Llist *i = n.tail; i != NULL; i = i->prev) {
        const struct Layer *l = i->layer;
        V_ASSERT(l->out_w * l->out_h * l->out_c == l->n_outputs, "the image size is the number of outputs");
        if (has_weights(l->type)) V_ASSERT(l->n_active == count_active(l), "the active connections are counted");
    }
    /* every array has the right size: used without leaving it */
    const double x[1] = { 0.5 };
    double y[8] = { 0 };
    neural_propagate(&n, x, true);
    neural_learn(&n, y, x);
    neural_free(&n);
    V_REACH();
}
#endif
#ifdef SELF
void h_self(void)
{
    v_rng_mode = 2;
    struct ArgsLayer *a = nl_args(SELF, 1, N0);
    a->n_max = 2; a->evolve_neurons = true; a->evolve_weights = true; a->evolve_eta = true; a->evolve_functions = false;
    struct Net n;
    neural_create(&n, a);
    layer_args_free(&a);
    struct Layer *l = n.head->layer;
    for (int i = 0; i < N_MU_LAYER; ++i) l->mu[i] = 0.1;
    v_norm_fixed = 1;
    v_norm_value = N1 > N0 ? 2 : -2;
    V_ASSERT(neural_mutate(&n), "a change is reported");
    V_ASSERT(l->n_outputs == N1, "the layer grows and shrinks within its range");
    V_ASSERT(l->eta >= 0.125 && l->eta <= 0.5, "the learning rate stays in its range");
    V_ASSERT(l->out_w * l->out_h * l->out_c == l->n_outputs, "the image size is the number of outputs");
    V_ASSERT(layer_output(l) == l->output, "the output is the layer's own");
    for (int i = N0; i < N1; ++i) {
        V_ASSERT(l->output[i] == 0 && l->delta[i] == 0, "new neurons start at rest");
        if (SELF == RECURRENT) V_ASSERT(l->state[i] == 0 && l->prev_state[i] == 0, "new neurons start without a past");
        if (SELF == LSTM) V_ASSERT(l->c[i] == 0 && l->h[i] == 0 && l->prev_state[i] == 0 && l->prev_cell[i] == 0 && l->dc[i] == 0, "new neurons start without a past");
    }
    const double x[1] = { 0.5 };
    double y[2] = { 0, 0 };
    neural_propagate(&n, x, true);
    neural_learn(&n, y, x);
    neural_free(&n);
    V_REACH();
}
#endif
