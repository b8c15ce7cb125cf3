#include <stdlib.h>
__attribute__((visibility("default"))) long cx_live = 0;
static void *cx_malloc(size_t n) { void *p = malloc(n); if (p) cx_live++; return p; }
static void *cx_calloc(size_t a, size_t b) { void *p = calloc(a, b); if (p) cx_live++; return p; }
static void *cx_realloc(void *q, size_t n) { if (!q) cx_live++; return realloc(q, n); }
static void cx_free(void *p) { if (p) cx_live--; free(p); }
#define malloc cx_malloc
#define calloc cx_calloc
#define realloc cx_realloc
#define free cx_free
