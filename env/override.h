/* Force-included before every /repo/xcsf source: the environment of the code
 * under test (files, output, process exit, libm, RNG) is replaced by models. */
#ifndef V_OVERRIDE_H
#define V_OVERRIDE_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <limits.h>
#include <time.h>
int v_printf(const char *fmt, ...);
int v_fprintf(FILE *f, const char *fmt, ...);
int v_snprintf(char *s, size_t n, const char *fmt, ...);
__attribute__((noreturn)) void v_exit(int status);
FILE *v_fopen(const char *name, const char *mode);
int v_fclose(FILE *f);
size_t v_fread(void *p, size_t size, size_t n, FILE *f);
size_t v_fwrite(const void *p, size_t size, size_t n, FILE *f);
int v_fgetc(FILE *f);
char *v_fgets(char *s, int n, FILE *f);
int v_feof(FILE *f);
int v_fseek(FILE *f, long off, int whence);
long v_ftell(FILE *f);
void v_rewind(FILE *f);
int v_fflush(FILE *f);
double v_exp(double), v_log(double), v_log2(double), v_sin(double), v_cos(double), v_tanh(double), v_sqrt(double), v_expm1(double), v_log1p(double);
double v_pow(double, double), v_floor(double), v_ceil(double), v_round(double), v_fabs(double), v_fmax(double, double), v_fmin(double, double);
size_t v_strnlen(const char *s, size_t n);
double v_strtod(const char *s, char **end);
/* limits of the number format in use */
#ifndef V_DBL_EPSILON
#define V_DBL_EPSILON 2.2204460492503131e-16
#define V_DBL_MAX 1.7976931348623157e+308
#define V_DBL_MIN 2.2250738585072014e-308
#endif
#ifndef V_ENV_IMPL
#define printf v_printf
#define fprintf v_fprintf
#define snprintf v_snprintf
#define exit(x) v_exit(x)
#define fopen v_fopen
#define fclose v_fclose
#define fread v_fread
#define fwrite v_fwrite
#define fgetc v_fgetc
#define getc v_fgetc
#define fgets v_fgets
#define feof v_feof
#define fseek v_fseek
#define ftell v_ftell
#define rewind v_rewind
#define fflush v_fflush
#define exp(x) v_exp(x)
#define log(x) v_log(x)
#define log2(x) v_log2(x)
#define expm1(x) v_expm1(x)
#define log1p(x) v_log1p(x)
#define sin(x) v_sin(x)
#define cos(x) v_cos(x)
#define tanh(x) v_tanh(x)
#define sqrt(x) v_sqrt(x)
#define pow(x, y) v_pow(x, y)
#define strtod v_strtod
#define strnlen(s, n) v_strnlen(s, n)
#define floor(x) v_floor(x)
#define ceil(x) v_ceil(x)
#define round(x) v_round(x)
#define fabs(x) v_fabs(x)
#define fmax(x, y) v_fmax(x, y)
#define fmin(x, y) v_fmin(x, y)
#undef DBL_EPSILON
#define DBL_EPSILON (V_DBL_EPSILON)
#undef DBL_MAX
#define DBL_MAX (V_DBL_MAX)
#undef DBL_MIN
#define DBL_MIN (V_DBL_MIN)
#endif
#endif
