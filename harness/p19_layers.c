//@ property P19
//@ default fmt=64 func=h_copy unwind=9 timeout=300 checks=leak kinds="layer:connected"
//@ case name=copy_connected defs="-DTYPE=CONNECTED" bounds="2 inputs, 2 neurons, any contents"
//@ case name=copy_dropout defs="-DTYPE=DROPOUT" kinds="layer:dropout" bounds="2 inputs"
//@ case name=copy_noise defs="-DTYPE=NOISE" kinds="layer:noise" bounds="2 inputs"
//@ case name=copy_softmax defs="-DTYPE=SOFTMAX" kinds="layer:softmax" bounds="2 inputs"
//@ case name=copy_recurrent defs="-DTYPE=RECURRENT" kinds="layer:recurrent,connected" bounds="2 inputs, 1 neuron"
//@ case name=copy_lstm defs="-DTYPE=LSTM" kinds="layer:lstm,connected" bounds="2 inputs, 1 neuron"
//@ case name=copy_maxpool defs="-DTYPE=MAXPOOL" kinds="layer:maxpool" bounds="2x1 image"
//@ case name=copy_conv defs="-DTYPE=CONVOLUTIONAL" kinds="layer:convolutional" bounds="2x1 image, 2 filters of size 1"
//@ case name=copy_avgpool defs="-DTYPE=AVGPOOL" kinds="layer:avgpool" bounds="2x1 image"
//@ case name=copy_upsample defs="-DTYPE=UPSAMPLE" kinds="layer:upsample" bounds="2x1 image"
//@ default fmt=64 func=h_file unwind=9 timeout=300 checks=leak kinds="layer:connected" flags="--max-field-sensitivity-array-size 256"
//@ case name=file_connected defs="-DTYPE=CONNECTED" bounds="2 inputs, 2 neurons, any contents"
//@ case name=file_dropout defs="-DTYPE=DROPOUT" kinds="layer:dropout" bounds="2 inputs"
//@ case name=file_noise defs="-DTYPE=NOISE" kinds="layer:noise" bounds="2 inputs"
//@ case name=file_softmax defs="-DTYPE=SOFTMAX" kinds="layer:softmax" bounds="2 inputs"
//@ case name=file_recurrent defs="-DTYPE=RECURRENT" kinds="layer:recurrent,connected" bounds="2 inputs, 1 neuron"
//@ case name=file_lstm defs="-DTYPE=LSTM" kinds="layer:lstm,connected" bounds="2 inputs, 1 neuron"
//@ case name=file_maxpool defs="-DTYPE=MAXPOOL" kinds="layer:maxpool" bounds="2x1 image"
//@ case name=file_conv defs="-DTYPE=CONVOLUTIONAL" kinds="layer:convolutional" bounds="2x1 image, 2 filters of size 1"
//@ case name=file_avgpool defs="-DTYPE=AVGPOOL" kinds="layer:avgpool" bounds="2x1 image"
//@ case name=file_upsample defs="-DTYPE=UPSAMPLE" kinds="layer:upsample" bounds="2x1 image"
//@ case name=net_copy func=h_net defs="-DTYPE=CONNECTED -DCOPY=1" kinds="layer:connected,softmax" bounds="3 layers: connected, connected, softmax"
//@ case name=net_file func=h_net defs="-DTYPE=CONNECTED -DCOPY=0" kinds="layer:connected,softmax" bounds="3 layers: connected, connected, softmax"
#include "net.h"
static struct Layer *any_layer(void)
{
    v_rng_mode = 2;
    struct ArgsLayer *a = nl_args(TYPE, 2, TYPE == RECURRENT || TYPE == LSTM ? 1 : 2);
    if (TYPE == UPSAMPLE) a->stride = 2;
    struct Layer *l = layer_init(a);
    free(a);
    nl_sym(l);
    return l;
}
void h_copy(void)
{
    struct Layer *a = any_layer(), *b = layer_copy(a), *k = layer_copy(a);
    nl_same(a, b);
    nl_free(a);
    nl_same(k, b);
    nl_free(b);
    nl_free(k);
    V_REACH();
}
void h_file(void)
{
    struct Layer *a = any_layer();
    FILE *fp = fopen("f", "wb");
    const size_t s = layer_save(a, fp);
    fclose(fp);
    struct Layer *b = malloc(sizeof(struct Layer));
    fp = fopen("f", "rb");
    const size_t r = layer_load(b, fp);
    V_ASSERT(s == r && v_file_pos == v_file_len, "everything written is read");
    fclose(fp);
    nl_same(a, b);
    nl_free(a);
    nl_free(b);
    V_REACH();
}

#ifdef COPY
static void chain(const struct Net *n, int layers)
{
    V_ASSERT(n->n_layers == layers, "the number of layers is kept");
    int k = 0;
    for (const struct Llist *i = n->tail; i != NULL; i = i->prev) {
        V_ASSERT((i->next == NULL) == (i == n->tail) && (i->prev == NULL) == (i == n->head), "the list of layers has two ends");
        V_ASSERT(i->next == NULL || (i->next->prev == i && i->layer->n_inputs == i->next->layer->n_outputs), "each layer feeds the next");
        ++k;
    }
    V_ASSERT(k == layers, "every layer is in the list");
    V_ASSERT(n->n_inputs == n->tail->layer->n_inputs && n->n_outputs == n->head->layer->n_outputs, "network sizes are its end layers'");
    V_ASSERT(n->output == n->head->layer->output && neural_outputs(n) == n->output, "the output is the last layer's");
}
void h_net(void)
{
    v_rng_mode = 2;
    struct ArgsLayer *args = nl_args(CONNECTED, 1, 2);
    args->next = nl_args(CONNECTED, 7, 1);
    args->next->next = nl_args(SOFTMAX, 7, 7);
    struct Net a, b;
    neural_create(&a, args);
    layer_args_free(&args);
    chain(&a, 3);
    for (struct Llist *i = a.tail; i != NULL; i = i->prev) nl_sym(i->layer);
#if COPY
    neural_copy(&b, &a);
#else
    FILE *fp = fopen("f", "wb");
    const size_t s = neural_save(&a, fp);
    fclose(fp);
    fp = fopen("f", "rb");
    const size_t r = neural_load(&b, fp);
    V_ASSERT(s == r && v_file_pos == v_file_len, "everything written is read");
    fclose(fp);
#endif
    chain(&b, 3);
    const struct Llist *i = a.tail, *j = b.tail;
    nl_same(i->layer, j->layer);
    nl_same(i->prev->layer, j->prev->layer);
    nl_same(i->prev->prev->layer, j->prev->prev->layer);
    neural_free(&a);
    chain(&b, 3);
    neural_free(&b);
    V_REACH();
}
#endif
