#ifndef V_OMP_H
#define V_OMP_H
void omp_set_num_threads(int n);
#endif
