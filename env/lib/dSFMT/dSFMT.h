/* Environment model of dSFMT: an arbitrary value in the open interval (0,1). */
#ifndef V_DSFMT_H
#define V_DSFMT_H
#include <stdint.h>
double dsfmt_gv_genrand_open_open(void);
void dsfmt_gv_init_gen_rand(uint32_t seed);
#endif
