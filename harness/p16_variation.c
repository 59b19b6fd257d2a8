//@ property P16
//@ default fmt=16.7 func=h_box unwind=6 timeout=300 kinds="cond:rectangle;act:integer;pred:constant"
//@ case name=mut_csr defs="-DBOX=1 -DXD=2" bounds="2 inputs; centre, spread, range on a grid, any rate; normal draws of -2..2 standard deviations"
//@ case name=mut_ubr defs="-DBOX=2 -DXD=1" bounds="1 input; bounds, range on a grid, any rate; normal draws of -2..2 standard deviations"
//@ case name=mut_ellip defs="-DBOX=3 -DXD=2" kinds="cond:ellipsoid;act:integer;pred:constant" bounds="2 inputs; centre, spread, range on a grid, any rate; normal draws of -2..2 standard deviations"
//@ case name=mut_tern func=h_tern defs="-DTERN -DXD=3" kinds="cond:ternary;act:integer;pred:constant" bounds="strings of 3 symbols, any draws"
//@ case name=mut_ubr2 tier=thorough timeout=1200 defs="-DBOX=2 -DXD=2" bounds="2 inputs; bounds, range on a grid, any rate; normal draws of -2..2 standard deviations"
//@ case name=mut_act func=h_act defs="-DACTI" kinds="cond:dummy;act:integer;pred:constant" bounds="1 to 4 actions, any draws"
//@ case name=cross_csr func=h_cross defs="-DCROSS=1 -DXD=2" bounds="2 inputs, any contents and draws"
//@ case name=cross_ubr func=h_cross defs="-DCROSS=2 -DXD=2" bounds="2 inputs, any contents and draws"
//@ case name=cross_ellip func=h_cross defs="-DCROSS=3 -DXD=2" kinds="cond:ellipsoid;act:integer;pred:constant" bounds="2 inputs, any contents and draws"
//@ case name=cross_tern func=h_cross_tern defs="-DCROSST -DXD=3" kinds="cond:ternary;act:integer;pred:constant" bounds="strings of 3 symbols, any contents and draws"
//@ case name=new_csr func=h_new defs="-DNEW=1 -DXD=2" bounds="2 inputs, any range on a grid, any draws"
//@ case name=new_ubr func=h_new defs="-DNEW=2 -DXD=2" bounds="2 inputs, any range on a grid, any draws"
//@ case name=new_ellip func=h_new defs="-DNEW=3 -DXD=2" kinds="cond:ellipsoid;act:integer;pred:constant" bounds="2 inputs, any range on a grid, any draws"
//@ case name=new_tern func=h_new_tern defs="-DNEWT -DXD=2" kinds="cond:ternary;act:integer;pred:constant" bounds="2 inputs of 2 bits, any draws"
//@ case name=upd_csr func=h_upd defs="-DUPD=1 -DXD=2" bounds="2 inputs, values on an exact grid"
//@ case name=upd_ubr func=h_upd defs="-DUPD=2 -DXD=2" bounds="2 inputs, values on an exact grid"
//@ case name=upd_ellip func=h_upd defs="-DUPD=3 -DXD=2" kinds="cond:ellipsoid;act:integer;pred:constant" bounds="2 inputs, values on an exact grid"
//@ case name=sam func=h_sam defs="-DSAM" unwind=12 kinds="cond:dummy;act:integer;pred:constant" bounds="one rate of each kind, any draws"
#include "same.h"
#include "sam.h"
#if defined(BOX) || defined(CROSS) || defined(NEW) || defined(UPD)
#if BOX == 1 || CROSS == 1 || NEW == 1 || UPD == 1
#define COND COND_TYPE_HYPERRECTANGLE_CSR
#elif BOX == 2 || CROSS == 2 || NEW == 2 || UPD == 2
#define COND COND_TYPE_HYPERRECTANGLE_UBR
#define UBR 1
#else
#define COND COND_TYPE_HYPERELLIPSOID
#define ELL 1
#endif
static double *gene(const struct Cl *c, int k)
{
#ifdef ELL
    const struct CondEllipsoid *e = c->cond;
    return k == 0 ? e->center : e->spread;
#else
    const struct CondRectangle *e = c->cond;
    return k == 0 ? e->b1 : e->b2;
#endif
}
static double *rate(const struct Cl *c)
{
#ifdef ELL
    return ((struct CondEllipsoid *) c->cond)->mu;
#else
    return ((struct CondRectangle *) c->cond)->mu;
#endif
}
#endif
#ifdef BOX
static double clip(double a, double lo, double hi) { return a < lo ? lo : a > hi ? hi : a; }
void h_box(void)
{
    v_rng_mode = 2;
    hx_init(XD, 1, 1, COND, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *c = hx_new(1);
    X.cond->min = nd_grid(-8, 8, 0.25);
    X.cond->max = nd_grid(-8, 8, 0.25);
    V_ASSUME(X.cond->min < X.cond->max);
    double old[2][XD];
    for (int i = 0; i < XD; ++i) {
        old[0][i] = gene(c, 0)[i] = nd_grid(-32, 32, 0.125);
        old[1][i] = gene(c, 1)[i] = nd_grid(-32, 32, 0.125);
#ifndef UBR
        V_ASSUME(old[1][i] > 0);
#endif
    }
    rate(c)[0] = nd_unit();
    v_norm_fixed = 1;
    v_norm_value = nd_small(-2, 2);
    const bool changed = cond_mutate(&X, c);
    const double mu = rate(c)[0];
    V_ASSERT(mu >= 0.0005 && mu <= 1, "mutation rates stay between 0.0005 and one");
    bool diff = false;
    for (int i = 0; i < XD; ++i) {
        const double a = gene(c, 0)[i], b = gene(c, 1)[i];
        if (a != old[0][i] || b != old[1][i]) diff = true;
        V_ASSERT(a >= X.cond->min && a <= X.cond->max, "mutation keeps centres and bounds within the range of inputs");
        V_ASSERT(a == clip(old[0][i] + v_norm_value * mu, X.cond->min, X.cond->max), "mutation moves a gene by a normal draw scaled by the rule's own mutation rate");
#ifdef UBR
        V_ASSERT(b >= X.cond->min && b <= X.cond->max, "mutation keeps centres and bounds within the range of inputs");
        V_ASSERT(b == clip(old[1][i] + v_norm_value * mu, X.cond->min, X.cond->max), "mutation moves a gene by a normal draw scaled by the rule's own mutation rate");
#else
        V_ASSERT(b > 0, "mutation keeps spreads positive");
        const double w = old[1][i] + v_norm_value * mu;
        V_ASSERT(b == w || (w < 0.125 && b <= 0.125), "mutation moves a gene by a normal draw scaled by the rule's own mutation rate");
#endif
    }
    V_ASSERT(changed == diff, "mutation reports a change exactly when the condition changed");
    V_REACH();
}
#endif
#ifdef TERN
void h_tern(void)
{
    v_rng_mode = 2;
    hx_param(XD, 1, 1, COND_TYPE_TERNARY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.cond->bits = 1;
    hx_sets();
    xcsf_init(&X);
    struct Cl *c = hx_new(1);
    sym_tern(c);
    struct CondTernary *t = c->cond;
    char old[XD];
    for (int i = 0; i < XD; ++i) old[i] = t->string[i];
    v_rng_mode = nd_bool() ? 0 : 3;
    v_rng_value = nd_unit();
    V_ASSUME(v_rng_value < 1 && v_rng_value > 0);
    v_norm_fixed = 1;
    v_norm_value = nd_small(-2, 2);
    const bool changed = cond_mutate(&X, c);
    const double mu = t->mu[0];
    V_ASSERT(mu >= 0.0005 && mu <= 1, "mutation rates stay between 0.0005 and one");
    bool diff = false;
    V_ASSERT(t->length == XD, "mutation keeps the length");
    for (int i = 0; i < XD; ++i) {
        const char s = t->string[i];
        if (s != old[i]) diff = true;
        V_ASSERT(s == '0' || s == '1' || s == '#', "ternary strings hold only 0, 1 and #");
        V_ASSERT(s == old[i] || (s == '#') != (old[i] == '#'), "mutation generalises specified symbols and specifies general ones");
        if (v_rng_mode == 3) V_ASSERT((s != old[i]) == (v_rng_value < mu), "each symbol mutates with the rule's own mutation rate");
    }
    V_ASSERT(changed == diff, "mutation reports a change exactly when the condition changed");
    V_REACH();
}
#endif
#ifdef ACTI
void h_act(void)
{
    v_rng_mode = 2;
    hx_init(1, 1, 4, COND_TYPE_DUMMY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *c = hx_new(1);
    X.n_actions = nd_int(1, 4);
    struct ActInteger *a = c->act;
    const int old = a->action = nd_int(0, 3);
    V_ASSUME(old < X.n_actions);
    a->mu[0] = nd_unit();
    v_rng_mode = nd_bool() ? 0 : 3;
    v_rng_value = nd_grid(1, 15, 0.0625);
    v_norm_fixed = 1;
    v_norm_value = nd_small(-2, 2);
    const bool changed = act_mutate(&X, c);
    V_ASSERT(a->mu[0] >= 0.0005 && a->mu[0] <= 1, "mutation rates stay between 0.0005 and one");
    V_ASSERT(a->action >= 0 && a->action < X.n_actions, "mutated actions are actions");
    V_ASSERT(changed == (a->action != old), "mutation reports a change exactly when the action changed");
    if (v_rng_mode == 3) {
        int k = 0;
        while (k + 1 < X.n_actions && v_rng_value * X.n_actions >= k + 1) ++k;
        V_ASSERT(a->action == (v_rng_value < a->mu[0] ? k : old), "an action mutates to any action, with the rule's own mutation rate");
    }
    double x[1] = { 0 };
    V_ASSERT(act_compute(&X, c, x) == a->action, "the rule advocates its action");
    V_REACH();
}
#endif
#ifdef CROSS
void h_cross(void)
{
    v_rng_mode = 2;
    hx_init(XD, 1, 1, COND, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *c = hx_new(1), *d = hx_new(1);
    double old[2][2][XD];
    for (int k = 0; k < 2; ++k)
        for (int i = 0; i < XD; ++i) {
            old[0][k][i] = gene(c, k)[i] = nd_double();
            old[1][k][i] = gene(d, k)[i] = nd_double();
        }
    X.ea->p_crossover = nd_unit();
    v_rng_mode = nd_bool() ? 0 : 3;
    v_rng_value = nd_unit();
    V_ASSUME(v_rng_value < 1 && v_rng_value > 0);
    const bool changed = cond_crossover(&X, c, d);
    bool diff = false;
    for (int k = 0; k < 2; ++k)
        for (int i = 0; i < XD; ++i) {
            const double a = gene(c, k)[i], b = gene(d, k)[i];
            const bool kept = a == old[0][k][i] && b == old[1][k][i], swapped = b == old[0][k][i] && a == old[1][k][i];
            V_ASSERT(kept || swapped, "crossover keeps or exchanges each gene, position by position");
            if (!kept) diff = true;
            if (v_rng_mode == 3) V_ASSERT(v_rng_value < X.ea->p_crossover && v_rng_value < 0.5 ? swapped : kept, "crossover happens with its probability and exchanges genes evenly");
        }
    V_ASSERT(changed || !diff, "crossover reports every change");
    V_ASSERT(!(X.ea->p_crossover == 0 && (changed || diff)), "no crossover at probability zero");
    if (v_rng_mode == 3) V_ASSERT(changed == (v_rng_value < X.ea->p_crossover && v_rng_value < 0.5), "crossover is reported when genes were exchanged");
    V_REACH();
}
#endif
#ifdef CROSST
void h_cross_tern(void)
{
    v_rng_mode = 2;
    hx_param(XD, 1, 1, COND_TYPE_TERNARY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.cond->bits = 1;
    hx_sets();
    xcsf_init(&X);
    struct Cl *c = hx_new(1), *d = hx_new(1);
    sym_tern(c);
    sym_tern(d);
    struct CondTernary *s = c->cond, *t = d->cond;
    char old[2][XD];
    for (int i = 0; i < XD; ++i) { old[0][i] = s->string[i]; old[1][i] = t->string[i]; }
    X.ea->p_crossover = nd_unit();
    v_rng_mode = nd_bool() ? 0 : 3;
    v_rng_value = nd_unit();
    V_ASSUME(v_rng_value < 1 && v_rng_value > 0);
    const bool changed = cond_crossover(&X, c, d);
    bool diff = false;
    for (int i = 0; i < XD; ++i) {
        const char a = s->string[i], b = t->string[i];
        const bool kept = a == old[0][i] && b == old[1][i], swapped = b == old[0][i] && a == old[1][i];
        V_ASSERT(kept || swapped, "crossover keeps or exchanges each gene, position by position");
        if (!kept) diff = true;
        if (v_rng_mode == 3) V_ASSERT(v_rng_value < X.ea->p_crossover && v_rng_value < 0.5 ? swapped : kept, "crossover happens with its probability and exchanges genes evenly");
    }
    V_ASSERT(changed || !diff, "crossover reports every change");
    V_ASSERT(!(X.ea->p_crossover == 0 && (changed || diff)), "no crossover at probability zero");
    V_REACH();
}
#endif
#ifdef NEW
void h_new(void)
{
    v_rng_mode = 2;
    hx_init(XD, 1, 3, COND, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.cond->min = nd_grid(-8, 8, 0.25);
    X.cond->max = nd_grid(-8, 8, 0.25);
    V_ASSUME(X.cond->min < X.cond->max);
    const double width = X.cond->max - X.cond->min;
    X.cond->spread_min = nd_grid(1, 16, 0.25);
    V_ASSUME(X.cond->spread_min <= width);
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(&X, c, 1, 0);
    v_rng_mode = 1; /* draws are multiples of 1/8 */
    cl_rand(&X, c);
    V_ASSERT(rate(c)[0] >= 0.0005 && rate(c)[0] <= 1, "initial mutation rates lie between 0.0005 and one");
    const int a = ((struct ActInteger *) c->act)->action;
    V_ASSERT(a >= 0 && a < 3, "initial actions are actions");
    for (int i = 0; i < XD; ++i) {
        V_ASSERT(gene(c, 0)[i] >= X.cond->min && gene(c, 0)[i] <= X.cond->max, "new conditions lie within the range of inputs");
#ifdef UBR
        V_ASSERT(gene(c, 1)[i] >= X.cond->min && gene(c, 1)[i] <= X.cond->max, "new conditions lie within the range of inputs");
#else
        V_ASSERT(gene(c, 1)[i] >= X.cond->spread_min && gene(c, 1)[i] <= width, "new spreads lie between the smallest spread and the range of inputs");
#endif
    }
    double x[XD];
    for (int i = 0; i < XD; ++i) x[i] = nd_grid(-8, 8, 0.25);
    cond_cover(&X, c, x);
    for (int i = 0; i < XD; ++i) {
#ifdef UBR
        const double lo = gene(c, 0)[i], hi = gene(c, 1)[i];
        V_ASSERT(lo <= x[i] && x[i] <= hi, "a covering box surrounds the input");
        V_ASSERT(hi - lo >= X.cond->spread_min && hi - lo <= width, "a covering box is as wide as the spread limits say");
#else
        V_ASSERT(gene(c, 0)[i] == x[i], "a covering condition is centred on the input");
        V_ASSERT(gene(c, 1)[i] >= X.cond->spread_min && gene(c, 1)[i] <= width, "covering spreads lie between the smallest spread and the range of inputs");
#endif
    }
    V_ASSERT(cond_match(&X, c, x), "a covering condition matches the input");
    V_REACH();
}
#endif
#ifdef NEWT
void h_new_tern(void)
{
    v_rng_mode = 2;
    hx_param(XD, 1, 3, COND_TYPE_TERNARY, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    X.cond->bits = 2;
    hx_sets();
    xcsf_init(&X);
    X.cond->p_dontcare = nd_unit();
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(&X, c, 1, 0);
    v_rng_mode = nd_bool() ? 0 : 3;
    v_rng_value = nd_unit();
    V_ASSUME(v_rng_value < 1 && v_rng_value > 0);
    const bool gen = v_rng_value < X.cond->p_dontcare;
    cl_rand(&X, c);
    struct CondTernary *t = c->cond;
    V_ASSERT(t->length == 2 * XD, "one symbol per input bit");
    for (int i = 0; i < 2 * XD; ++i) {
        const char s = t->string[i];
        V_ASSERT(s == '0' || s == '1' || s == '#', "ternary strings hold only 0, 1 and #");
        if (v_rng_mode == 3) V_ASSERT(s == (gen ? '#' : v_rng_value < 0.5 ? '0' : '1'), "symbols are general with the don't care probability, else evenly 0 or 1");
    }
    double x[XD];
    int q[XD];
    for (int i = 0; i < XD; ++i) { const int k = nd_int(-1, 9); x[i] = k * 0.125; q[i] = k < 0 ? 0 : k > 7 ? 3 : k / 2; }
    cond_cover(&X, c, x);
    for (int i = 0; i < XD; ++i)
        for (int j = 0; j < 2; ++j) {
            const char s = t->string[2 * i + j], b = (q[i] >> (1 - j)) & 1 ? '1' : '0';
            V_ASSERT(s == '#' || s == b, "a covering string is the input with some symbols general");
            if (v_rng_mode == 3) V_ASSERT(s == (gen ? '#' : b), "covering symbols are general with the don't care probability");
        }
    V_ASSERT(cond_match(&X, c, x), "a covering condition matches the input");
    V_REACH();
}
#endif
#ifdef UPD
void h_upd(void)
{
    v_rng_mode = 2;
    hx_init(XD, 1, 1, COND, ACT_TYPE_INTEGER, PRED_TYPE_CONSTANT);
    struct Cl *c = hx_new(1);
    X.cond->eta = nd_grid(0, 4, 0.25);
    double x[XD], y[1] = { 0 }, want[XD], s[XD];
    for (int i = 0; i < XD; ++i) {
        const int a = nd_int(-8, 8), b = nd_int(-8, 8);
        gene(c, 0)[i] = a;
        s[i] = gene(c, 1)[i] = nd_small(1, 8);
        x[i] = b;
        want[i] = a;
#ifndef UBR
        want[i] += X.cond->eta * (b - a);
#endif
    }
    cond_update(&X, c, x, y);
    for (int i = 0; i < XD; ++i) {
        V_ASSERT(gene(c, 0)[i] == want[i], "an update moves the centre towards the input by the gradient descent rate");
        V_ASSERT(gene(c, 1)[i] == s[i], "an update leaves the spread alone");
    }
    V_REACH();
}
#endif
#ifdef SAM
static bool listed(double m)
{
    static const double t[10] = { 0.0005, 0.001, 0.002, 0.003, 0.005, 0.01, 0.015, 0.02, 0.05, 0.1 };
    for (int i = 0; i < 10; ++i) if (m == t[i]) return true;
    return false;
}
void h_sam(void)
{
    const int type[3] = { SAM_LOG_NORMAL, SAM_RATE_SELECT, SAM_UNIFORM };
    double mu[3], old[3];
    v_rng_mode = 0;
    sam_init(mu, 3, type);
    for (int i = 0; i < 3; ++i) V_ASSERT(mu[i] >= 0.0005 && mu[i] <= 1, "initial mutation rates lie between 0.0005 and one");
    V_ASSERT(listed(mu[1]), "selected rates come from the list of rates");
    for (int i = 0; i < 3; ++i) old[i] = mu[i] = nd_unit();
    v_norm_fixed = 1;
    v_norm_value = nd_small(-2, 2);
    sam_adapt(mu, 3, type);
    V_ASSERT(mu[0] >= 0.0005 && mu[0] <= 1, "adapted mutation rates lie between 0.0005 and one");
    if (old[0] >= 0.0005) V_ASSERT(v_norm_value >= 0 ? mu[0] >= old[0] : mu[0] <= old[0], "log normal adaptation scales the rate by the exponential of a normal draw");
    V_ASSERT(mu[1] == old[1] || listed(mu[1]), "selected rates come from the list of rates");
    V_ASSERT(mu[2] == old[2] || (mu[2] >= 0.0005 && mu[2] <= 1), "adapted mutation rates lie between 0.0005 and one");
    V_REACH();
}
#endif
