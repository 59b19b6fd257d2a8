/* Harness interface: nondeterministic inputs, assumptions, assertions. Under
 * CBMC the inputs are symbolic; natively they replay a recorded counterexample. */
#ifndef V_H
#define V_H
#include "override.h"
double nd_double(void);   /* any double that is not a NaN, |x| <= 1e6 (see v.c) */
double nd_any_double(void); /* any bit pattern, NaN and infinities included */
double nd_unit(void);     /* any double in [0,1] */
int nd_int(int lo, int hi); /* any int in [lo,hi] */
bool nd_bool(void);
double nd_small(int lo, int hi); /* an integer-valued double in [lo,hi] */
double nd_grid(int lo, int hi, double step); /* integer in [lo,hi] times step */
unsigned char nd_byte(void);
void v_fail(const char *msg);
#ifdef V_CBMC
void __CPROVER_assume(_Bool);
void __CPROVER_assert(_Bool, const char *);
#define V_ASSUME(c) __CPROVER_assume(c)
#define V_ASSERT(c, msg) __CPROVER_assert((c), msg)
#define V_REACH() __CPROVER_assert(0, "WITNESS")
#else
void v_assume_failed(void);
void v_assert_failed(const char *msg);
void v_reach(void);
#define V_ASSUME(c) do { if (!(c)) v_assume_failed(); } while (0)
#define V_ASSERT(c, msg) do { if (!(c)) v_assert_failed(msg); } while (0)
#define V_REACH() v_reach()
#endif
/* how exit() in the code under test is judged: */
extern int v_exit_ok;    /* 1: exit() ends the path quietly; 0: exit() is a violation */
extern int v_exit_reach; /* 1: reaching exit() counts as the witness */
/* memory file */
#ifndef V_FILE_MAX
#define V_FILE_MAX 4096
#endif
#ifndef V_CELLS
#define V_CELLS 256
#endif
extern unsigned char v_file[V_FILE_MAX];
extern int v_file_len, v_file_pos;
extern int v_file_open, v_file_fail;
/* RNG */
extern int v_rng_mode;  /* 0: any double in (0,1); 1: multiples of 1/8 ; 2: fixed 0.5; 3: v_rng_value */
extern double v_rng_value;
/* 4: v_rng_seq[0..v_rng_len), then mode v_rng_after */
extern double v_rng_seq[8];
extern int v_rng_len, v_rng_pos, v_rng_after;
/* 5: seeding restarts an arbitrary sequence */
extern int v_rng_seeded; /* how often the generator was seeded */
extern uint32_t v_rng_seed;
extern double v_rng_grid;
/* 1: every normal draw has the value v_norm_value standard deviations */
extern int v_norm_fixed; /* 2: cos and sin are simple functions of their argument */
extern double v_norm_value;
/* exact equality of doubles as bit patterns (0 and -0 are distinguished) */
bool v_same(double a, double b);
#endif
