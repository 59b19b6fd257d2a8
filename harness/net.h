/* Networks: layers built by the code's own initialisation, symbolic contents and
 * field-by-field equality. */
#ifndef NET_H
#define NET_H
#include "v.h"
#include "neural.h"
#include "neural_layer.h"
#include "neural_layer_args.h"
#include "neural_activations.h"
#ifndef SYM
#define SYM() nd_double()
#endif
#define N_MU_LAYER 6
static bool nl_eqd(const double *a, const double *b, int n) { for (int i = 0; i < n; ++i) if (!(a[i] == b[i])) return false; return true; }
static void nl_symd(double *a, int n) { for (int i = 0; i < n; ++i) a[i] = SYM(); }
static bool has_weights(int t) { return t == CONNECTED || t == CONVOLUTIONAL; }
static bool has_mu(int t) { return t == CONNECTED || t == CONVOLUTIONAL || t == RECURRENT || t == LSTM; }
/* layer parameters: 1x1 image unless changed by the caller */
static struct ArgsLayer *nl_args(int type, int n_inputs, int n_init)
{
    struct ArgsLayer *a = malloc(sizeof(struct ArgsLayer));
    layer_args_init(a);
    a->type = type; a->n_inputs = n_inputs; a->n_init = n_init; a->n_max = n_init + 2; a->max_neuron_grow = 1;
    a->function = LINEAR; a->recurrent_function = LINEAR;
    a->height = 1; a->width = n_inputs; a->channels = 1; a->size = 1; a->stride = 1; a->pad = 0;
    a->eta = 0.5; a->eta_min = 0.125; a->momentum = 0.5; a->decay = 0; a->probability = 0.5; a->scale = 1;
    a->sgd_weights = true;
    return a;
}
static void nl_sym1(struct Layer *l)
{
    l->function = nd_int(0, NUM_ACTIVATIONS - 1);
    l->options = (uint32_t) nd_int(0, 63);
    l->eta = SYM(); l->eta_max = SYM(); l->eta_min = SYM(); l->momentum = SYM(); l->decay = SYM();
    l->max_neuron_grow = nd_int(0, 9); l->max_outputs = nd_int(1, 9);
    if (has_mu(l->type)) nl_symd(l->mu, N_MU_LAYER);
    if (has_weights(l->type)) {
        nl_symd(l->weights, l->n_weights); nl_symd(l->biases, l->n_biases);
        for (int i = 0; i < l->n_weights; ++i) l->weight_active[i] = nd_bool();
        l->n_active = nd_int(0, l->n_weights);
    }
    if (l->type == NOISE || l->type == DROPOUT) { l->probability = SYM(); l->scale = SYM(); }
    if (l->type == SOFTMAX) l->scale = SYM();
}
static void nl_sym(struct Layer *l)
{
    switch (l->type) {
    case CONNECTED: case CONVOLUTIONAL: nl_sym1(l); break;
    case RECURRENT:
        nl_symd(l->mu, N_MU_LAYER);
        nl_sym1(l->input_layer); nl_sym1(l->self_layer); nl_sym1(l->output_layer);
        l->n_active = nd_int(0, 9); l->eta = SYM(); l->function = nd_int(0, NUM_ACTIVATIONS - 1); l->options = (uint32_t) nd_int(0, 63); l->max_outputs = nd_int(1, 9);
        l->eta_max = l->input_layer->eta_max; l->eta_min = l->input_layer->eta_min; /* always the same */
        break;
    case LSTM:
        nl_symd(l->mu, N_MU_LAYER);
        nl_sym1(l->uf); nl_sym1(l->ui); nl_sym1(l->ug); nl_sym1(l->uo); nl_sym1(l->wf); nl_sym1(l->wi); nl_sym1(l->wg); nl_sym1(l->wo);
        l->n_active = nd_int(0, 9); l->eta = SYM(); l->eta_max = SYM(); l->momentum = SYM(); l->decay = SYM(); l->max_neuron_grow = nd_int(0, 9); l->max_outputs = nd_int(1, 9);
        l->function = nd_int(0, NUM_ACTIVATIONS - 1); l->recurrent_function = nd_int(0, NUM_ACTIVATIONS - 1); l->options = (uint32_t) nd_int(0, 63);
        break;
    case NOISE: case DROPOUT: l->probability = SYM(); l->scale = SYM(); break;
    case SOFTMAX: l->scale = SYM(); break;
    default: break;
    }
}
#define EQ(f) V_ASSERT(a->f == b->f, "layer field " #f " is equal");
#define EQA(f, n) V_ASSERT(nl_eqd(a->f, b->f, n), "layer array " #f " is equal");
static void nl_same1(const struct Layer *a, const struct Layer *b)
{
    EQ(type) EQ(layer_vptr) EQ(options) EQ(function) EQ(recurrent_function) EQ(n_inputs) EQ(n_outputs) EQ(max_outputs) EQ(max_neuron_grow)
    EQ(n_weights) EQ(n_biases) EQ(n_active) EQ(eta) EQ(eta_max) EQ(eta_min) EQ(momentum) EQ(decay) EQ(scale) EQ(probability)
    EQ(height) EQ(width) EQ(channels) EQ(pad) EQ(out_w) EQ(out_h) EQ(out_c) EQ(size) EQ(stride) EQ(n_filters)
    if (has_mu(a->type)) { EQA(mu, N_MU_LAYER) }
    if (has_weights(a->type)) {
        EQA(weights, a->n_weights) EQA(biases, a->n_biases)
        for (int i = 0; i < a->n_weights; ++i) EQ(weight_active[i])
    }
}
static void nl_same(const struct Layer *a, const struct Layer *b)
{
    nl_same1(a, b);
    V_ASSERT(b->output != NULL && b->delta != NULL && layer_output(b) == b->output, "the layer has its own output");
    if (a->type == RECURRENT) {
        nl_same1(a->input_layer, b->input_layer); nl_same1(a->self_layer, b->self_layer); nl_same1(a->output_layer, b->output_layer);
        V_ASSERT(b->output == b->output_layer->output && b->delta == b->output_layer->delta, "a recurrent layer's output is its output layer's");
    }
    if (a->type == LSTM) {
        nl_same1(a->uf, b->uf); nl_same1(a->ui, b->ui); nl_same1(a->ug, b->ug); nl_same1(a->uo, b->uo);
        nl_same1(a->wf, b->wf); nl_same1(a->wi, b->wi); nl_same1(a->wg, b->wg); nl_same1(a->wo, b->wo);
    }
}
static void nl_free(struct Layer *l) { layer_free(l); free(l); }
#endif
