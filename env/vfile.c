/* One in-memory file (enough for save/load, configuration and data files). */
#include "v.h"
unsigned char v_file[V_FILE_MAX];
int v_file_len, v_file_pos;
int v_file_open, v_file_fail;
static char v_fhandle[8];
FILE *v_fopen(const char *name, const char *mode)
{
    (void) name;
    if (v_file_fail) return NULL;
    ++v_file_open;
    if (mode[0] == 'w') {
        v_file_len = 0;
    }
    v_file_pos = 0;
    return (FILE *) v_fhandle;
}
int v_fclose(FILE *f) { V_ASSERT(f == (FILE *) v_fhandle && v_file_open > 0, "fclose of an open file"); --v_file_open; return 0; }
#ifdef V_CBMC
/* Binary records: one cell per element (of 1, 2, 4 or 8 bytes). An element is
 * read back with the size it was written with; anything else is reported. */
static unsigned long v_cell[V_CELLS];
static unsigned char v_cell_size[V_CELLS];
static void put(const unsigned char *p, size_t size)
{
    __CPROVER_assert(v_file_pos < V_CELLS, "BOUND: memory file large enough");
    if (size == 8) v_cell[v_file_pos] = *(const unsigned long *) p;
    else if (size == 4) v_cell[v_file_pos] = *(const unsigned *) p;
    else if (size == 2) v_cell[v_file_pos] = *(const unsigned short *) p;
    else v_cell[v_file_pos] = *p;
    v_cell_size[v_file_pos] = (unsigned char) size;
    ++v_file_pos;
}
static bool get(unsigned char *p, size_t size)
{
    if (v_file_pos >= v_file_len) return false;
    __CPROVER_assert(v_cell_size[v_file_pos] == size, "a file is read back element by element as it was written");
    __CPROVER_assume(v_cell_size[v_file_pos] == size);
    if (size == 8) *(unsigned long *) p = v_cell[v_file_pos];
    else if (size == 4) *(unsigned *) p = (unsigned) v_cell[v_file_pos];
    else if (size == 2) *(unsigned short *) p = (unsigned short) v_cell[v_file_pos];
    else *p = (unsigned char) v_cell[v_file_pos];
    ++v_file_pos;
    return true;
}
static size_t unit(size_t size) { return size == 8 || size == 4 || size == 2 || size == 1 ? size : size % 8 == 0 ? 8 : size % 4 == 0 ? 4 : 1; }
size_t v_fwrite(const void *p, size_t size, size_t n, FILE *f)
{
    (void) f;
    const size_t u = unit(size), m = n * (size / u);
    for (size_t i = 0; i < m; ++i) put((const unsigned char *) p + i * u, u);
    if (v_file_pos > v_file_len) v_file_len = v_file_pos;
    return n;
}
size_t v_fread(void *p, size_t size, size_t n, FILE *f)
{
    (void) f;
    const size_t u = unit(size), m = n * (size / u);
    size_t i = 0;
    for (; i < m; ++i) if (!get((unsigned char *) p + i * u, u)) break;
    return i / (size / u);
}
#else
size_t v_fwrite(const void *p, size_t size, size_t n, FILE *f)
{
    (void) f;
    const unsigned char *c = p;
    const int total = (int) (size * n);
    for (int i = 0; i < total; ++i) {
        v_file[v_file_pos] = c[i];
        ++v_file_pos;
    }
    if (v_file_pos > v_file_len) v_file_len = v_file_pos;
    return n;
}
size_t v_fread(void *p, size_t size, size_t n, FILE *f)
{
    (void) f;
    unsigned char *c = p;
    size_t got = 0;
    for (size_t k = 0; k < n; ++k) {
        if (v_file_pos + (int) size > v_file_len) break;
        for (size_t i = 0; i < size; ++i) {
            c[k * size + i] = v_file[v_file_pos];
            ++v_file_pos;
        }
        ++got;
    }
    return got;
}
#endif
int v_fgetc(FILE *f)
{
    (void) f;
    if (v_file_pos >= v_file_len) { v_file_pos = v_file_len + 1; return -1; }
    return v_file[v_file_pos++];
}
char *v_fgets(char *s, int n, FILE *f)
{
    int i = 0;
    while (i < n - 1) {
        int ch = v_fgetc(f);
        if (ch < 0) break;
        s[i++] = (char) ch;
        if (ch == '\n') break;
    }
    if (i == 0) return NULL;
    s[i] = 0;
    return s;
}
int v_feof(FILE *f) { (void) f; return v_file_pos > v_file_len; }
int v_fseek(FILE *f, long off, int whence)
{
    (void) f;
    v_file_pos = whence == SEEK_END ? v_file_len + (int) off : whence == SEEK_CUR ? v_file_pos + (int) off : (int) off;
    return 0;
}
long v_ftell(FILE *f) { (void) f; return v_file_pos; }
void v_rewind(FILE *f) { (void) f; v_file_pos = 0; }
