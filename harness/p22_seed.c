//@ property P22
//@ default fmt=16.7 func=h_normal unwind=8 timeout=300 checks=none kinds="cond:rectangle;act:integer;pred:nlms;loss:loss_mae"
//@ case name=normal_0 defs="-DNORMAL=0" bounds="no normal draws before seeding, 4 normal and one uniform draws after it"
//@ case name=normal_2 defs="-DNORMAL=2" bounds="two normal draws before seeding"
//@ case name=normal_1 defs="-DNORMAL=1" known=KF2 kassert="the same seed gives the same draws" bounds="one normal draw before seeding"
//@ case name=seed func=h_seed defs="-DSEED" bounds="any integer seed"
//@ case name=run func=h_run defs="-DRUN" unwind=10 bounds="one learning trial of 2 samples from an empty population, one input, 2 actions, any data and draws"
#include "same.h"
#include "utils.h"
#ifdef NORMAL
void h_normal(void)
{
    v_rng_mode = 5; v_rng_grid = 0.125; v_norm_fixed = 2;
    double a[5], b[5];
    rand_init_seed(7);
    for (int i = 0; i < 4; ++i) a[i] = rand_normal(0, 1);
    a[4] = rand_uniform(0, 1);
    for (int i = 0; i < NORMAL; ++i) rand_normal(0, 1);
    rand_init_seed(7);
    for (int i = 0; i < 4; ++i) b[i] = rand_normal(0, 1);
    b[4] = rand_uniform(0, 1);
    for (int i = 0; i < 5; ++i) V_ASSERT(a[i] == b[i], "the same seed gives the same draws");
    V_REACH();
}
#endif
#ifdef SEED
void h_seed(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 1, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    const int a = nd_int(-2147483647, 2147483647);
    v_rng_seeded = 0;
    param_set_random_state(&X, a);
    V_ASSERT(v_rng_seeded == 1 && X.RANDOM_STATE == a, "setting the random state seeds the generator");
    V_ASSERT(a < 0 || v_rng_seed == (uint32_t) a, "the generator gets the seed given");
    V_REACH();
}
#endif
#ifdef RUN
#include "cond_rectangle.h"
static struct XCSF Z;
static void run(double *x, double *y)
{
    hx_param(1, 1, 2, COND_TYPE_HYPERRECTANGLE_CSR, ACT_TYPE_INTEGER, PRED_TYPE_NLMS_LINEAR);
    hx_sets();
    X.ea->theta = 1000;
    X.cond->eta = 0;
    param_set_random_state(&X, 3);
    xcsf_init(&X);
    struct Input d = { x, y, 1, 1, 2 };
    xcs_supervised_fit(&X, &d, NULL, true, 0, 1);
}
void h_run(void)
{
    v_rng_mode = 5;
    v_rng_grid = 0.125;
    v_norm_fixed = 1; v_norm_value = 0.5;
    double x[2], y[2];
    for (int i = 0; i < 2; ++i) { x[i] = nd_grid(0, 8, 0.125); y[i] = nd_grid(0, 8, 0.125); }
    run(x, y);
    Z = X;
    run(x, y);
    V_ASSERT(Z.pset.size == X.pset.size && Z.pset.num == X.pset.num && Z.time == X.time && v_same(Z.error, X.error), "the same seed gives the same population");
    for (int i = 0; i < 2; ++i) {
        const struct Cl *a = hx_nth(&Z.pset, i), *b = hx_nth(&X.pset, i);
        V_ASSERT(a != NULL && b != NULL, "one rule per action");
        V_ASSERT(same_books(a, b) && same_rect(a, b) && same_act_int(a, b) && same_nlms(a, b), "the same seed gives the same rules");
    }
    V_REACH();
}
#endif
