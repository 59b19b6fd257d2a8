/* Model of the external cJSON library: an object tree. cJSON_Print hands out a
 * text that stands for the tree, cJSON_Parse of that text gives the tree back
 * (cJSON prints doubles so that they read back unchanged; NaN and infinities
 * are printed as null, which the model reproduces). Keys are compared exactly. */
#include "v.h"
#include "lib/cJSON/cJSON.h"
#include <stdarg.h>
#define JMAX 96
static cJSON *j_tab[JMAX];
static int j_n;
static char *j_dup(const char *s)
{
    size_t n = 0;
    while (s[n] != 0) ++n;
    char *r = malloc(n + 1);
    for (size_t i = 0; i <= n; ++i) r[i] = s[i];
    return r;
}
static int j_eq(const char *a, const char *b)
{
    size_t i = 0;
    while (a[i] != 0 && a[i] == b[i]) ++i;
    return a[i] == b[i];
}
static cJSON *j_new(int type)
{
    cJSON *c = malloc(sizeof(cJSON));
    c->next = NULL; c->prev = NULL; c->child = NULL; c->type = type;
    c->valuestring = NULL; c->valueint = 0; c->valuedouble = 0; c->string = NULL;
    return c;
}
static cJSON *j_copy(const cJSON *s)
{
    cJSON *c = j_new(s->type);
    c->valueint = s->valueint;
    c->valuedouble = s->valuedouble;
    if (s->valuestring) c->valuestring = j_dup(s->valuestring);
    if (s->string) c->string = j_dup(s->string);
    cJSON *last = NULL;
    for (const cJSON *i = s->child; i != NULL; i = i->next) {
        cJSON *n = j_copy(i);
        if (last) { last->next = n; n->prev = last; } else { c->child = n; }
        last = n;
    }
    if (last) c->child->prev = last; /* the first item points back to the last, as in the library */
    return c;
}
static void j_free(cJSON *item)
{
    while (item != NULL) {
        cJSON *next = item->next;
        if (item->child) j_free(item->child);
        free(item->valuestring);
        free(item->string);
        free(item);
        item = next;
    }
}
char *cJSON_Print(const cJSON *item)
{
    int h = 0;
    /* the tree is kept for the text; a tree printed twice (or changed after) is copied */
#ifdef V_CBMC
    __CPROVER_assert(j_n < JMAX, "BOUND: number of JSON texts");
#endif
    h = j_n++;
    j_tab[h] = j_copy(item);
    char *s = malloc(8);
    s[0] = '{'; s[1] = (char) ('0' + h / 10); s[2] = (char) ('0' + h % 10); s[3] = '}'; s[4] = 0;
    return s;
}
char *cJSON_PrintUnformatted(const cJSON *item) { return cJSON_Print(item); }
cJSON *cJSON_Parse(const char *t)
{
    if (t == NULL || t[0] != '{' || t[1] < '0') return NULL;
    int h = (t[1] - '0') * 10 + (t[2] - '0');
    if (h < 0 || h >= j_n) return NULL;
    return j_copy(j_tab[h]);
}
void cJSON_Delete(cJSON *item) { j_free(item); }
static void j_append(cJSON *p, cJSON *c)
{
    if (p->child == NULL) { p->child = c; c->prev = c; return; }
    cJSON *l = p->child;
    while (l->next != NULL) l = l->next;
    l->next = c;
    c->prev = l;
    c->next = NULL;
    p->child->prev = c;
}
int cJSON_GetArraySize(const cJSON *a) { int n = 0; if (a == NULL) return 0; for (const cJSON *i = a->child; i != NULL; i = i->next) ++n; return n; }
cJSON *cJSON_GetArrayItem(const cJSON *a, int idx) { if (a == NULL || idx < 0) return NULL; cJSON *i = a->child; while (i != NULL && idx > 0) { i = i->next; --idx; } return i; }
cJSON *cJSON_GetObjectItem(const cJSON *const o, const char *const s)
{
    if (o == NULL || s == NULL) return NULL;
    for (cJSON *i = o->child; i != NULL; i = i->next) if (i->string != NULL && j_eq(i->string, s)) return i;
    return NULL;
}
cJSON *cJSON_GetObjectItemCaseSensitive(const cJSON *const o, const char *const s) { return cJSON_GetObjectItem(o, s); }
cJSON_bool cJSON_HasObjectItem(const cJSON *o, const char *s) { return cJSON_GetObjectItem(o, s) != NULL; }
const char *cJSON_GetErrorPtr(void) { return "error"; }
char *cJSON_GetStringValue(const cJSON *const i) { return cJSON_IsString(i) ? i->valuestring : NULL; }
double cJSON_GetNumberValue(const cJSON *const i) { return i != NULL && i->type == cJSON_Number ? i->valuedouble : 0.0; }
cJSON_bool cJSON_IsInvalid(const cJSON *const i) { return i != NULL && (i->type & 0xFF) == cJSON_Invalid; }
cJSON_bool cJSON_IsFalse(const cJSON *const i) { return i != NULL && (i->type & 0xFF) == cJSON_False; }
cJSON_bool cJSON_IsTrue(const cJSON *const i) { return i != NULL && (i->type & 0xFF) == cJSON_True; }
cJSON_bool cJSON_IsBool(const cJSON *const i) { return i != NULL && (i->type & (cJSON_True | cJSON_False)) != 0; }
cJSON_bool cJSON_IsNull(const cJSON *const i) { return i != NULL && (i->type & 0xFF) == cJSON_NULL; }
cJSON_bool cJSON_IsNumber(const cJSON *const i) { return i != NULL && (i->type & 0xFF) == cJSON_Number; }
cJSON_bool cJSON_IsString(const cJSON *const i) { return i != NULL && (i->type & 0xFF) == cJSON_String; }
cJSON_bool cJSON_IsArray(const cJSON *const i) { return i != NULL && (i->type & 0xFF) == cJSON_Array; }
cJSON_bool cJSON_IsObject(const cJSON *const i) { return i != NULL && (i->type & 0xFF) == cJSON_Object; }
cJSON *cJSON_CreateNull(void) { return j_new(cJSON_NULL); }
cJSON *cJSON_CreateTrue(void) { return j_new(cJSON_True); }
cJSON *cJSON_CreateFalse(void) { return j_new(cJSON_False); }
cJSON *cJSON_CreateBool(cJSON_bool b) { return j_new(b ? cJSON_True : cJSON_False); }
cJSON *cJSON_CreateNumber(double num)
{
    cJSON *c = j_new(cJSON_Number);
    c->valuedouble = num;
    if (num >= 2147483647.0) c->valueint = INT_MAX;
    else if (num <= -2147483648.0) c->valueint = INT_MIN;
    else if (num == num) c->valueint = (int) num;
    else { c->valueint = 0; }
    if (num != num || num > V_DBL_MAX || num < -V_DBL_MAX) c->type = cJSON_NULL; /* what the printed text says */
    return c;
}
cJSON *cJSON_CreateString(const char *s) { cJSON *c = j_new(cJSON_String); c->valuestring = j_dup(s); return c; }
cJSON *cJSON_CreateArray(void) { return j_new(cJSON_Array); }
cJSON *cJSON_CreateObject(void) { return j_new(cJSON_Object); }
cJSON *cJSON_CreateIntArray(const int *x, int n)
{
    cJSON *a = j_new(cJSON_Array), *last = NULL;
    for (int i = 0; i < n; ++i) {
        cJSON *c = j_new(cJSON_Number);
        c->valueint = x[i];
        c->valuedouble = (double) x[i];
        if (last) { last->next = c; c->prev = last; } else { a->child = c; }
        last = c;
    }
    if (last) a->child->prev = last;
    return a;
}
cJSON *cJSON_CreateDoubleArray(const double *x, int n)
{
    cJSON *a = j_new(cJSON_Array), *last = NULL;
    for (int i = 0; i < n; ++i) {
        cJSON *c = cJSON_CreateNumber(x[i]);
        if (last) { last->next = c; c->prev = last; } else { a->child = c; }
        last = c;
    }
    if (last) a->child->prev = last;
    return a;
}
cJSON_bool cJSON_AddItemToArray(cJSON *a, cJSON *item) { if (a == NULL || item == NULL) return 0; j_append(a, item); return 1; }
cJSON_bool cJSON_AddItemToObject(cJSON *o, const char *s, cJSON *item) { if (o == NULL || item == NULL || s == NULL) return 0; free(item->string); item->string = j_dup(s); j_append(o, item); return 1; }
#define J_ADD(mk) cJSON *c = (mk); cJSON_AddItemToObject(o, s, c); return c
cJSON *cJSON_AddNullToObject(cJSON *const o, const char *const s) { J_ADD(cJSON_CreateNull()); }
cJSON *cJSON_AddTrueToObject(cJSON *const o, const char *const s) { J_ADD(cJSON_CreateTrue()); }
cJSON *cJSON_AddFalseToObject(cJSON *const o, const char *const s) { J_ADD(cJSON_CreateFalse()); }
cJSON *cJSON_AddBoolToObject(cJSON *const o, const char *const s, const cJSON_bool b) { J_ADD(cJSON_CreateBool(b)); }
cJSON *cJSON_AddNumberToObject(cJSON *const o, const char *const s, const double n) { J_ADD(cJSON_CreateNumber(n)); }
cJSON *cJSON_AddStringToObject(cJSON *const o, const char *const s, const char *const v) { J_ADD(cJSON_CreateString(v)); }
cJSON *cJSON_AddObjectToObject(cJSON *const o, const char *const s) { J_ADD(cJSON_CreateObject()); }
cJSON *cJSON_AddArrayToObject(cJSON *const o, const char *const s) { J_ADD(cJSON_CreateArray()); }

int v_snprintf(char *s, size_t n, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    size_t o = 0;
    for (size_t i = 0; fmt[i] != 0; ++i) {
        if (fmt[i] == '%' && fmt[i + 1] == 'd') {
            int v = va_arg(ap, int);
            char b[12];
            int k = 0;
            unsigned u = v < 0 ? 0u - (unsigned) v : (unsigned) v;
            do { b[k++] = (char) ('0' + u % 10); u /= 10; } while (u != 0);
            if (v < 0) b[k++] = '-';
            while (k > 0) { --k; if (o + 1 < n) s[o] = b[k]; ++o; }
            ++i;
        } else if (fmt[i] == '%' && fmt[i + 1] == 's') {
            const char *p = va_arg(ap, const char *);
            for (size_t k = 0; p[k] != 0; ++k) { if (o + 1 < n) s[o] = p[k]; ++o; }
            ++i;
        } else {
            if (o + 1 < n) s[o] = fmt[i];
            ++o;
        }
    }
    va_end(ap);
    if (n > 0) s[o < n ? o : n - 1] = 0;
    return (int) o;
}
