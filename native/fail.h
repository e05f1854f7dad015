/* allocation stand-ins: fail on request, count live blocks */
#ifndef VF_FAIL_H
#define VF_FAIL_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdint.h>
#include <time.h>
#include <stdbool.h>
extern long vf_failin, vf_live, vf_failed;
static inline int vf_fails(void) { if (vf_failin > 0 && --vf_failin == 0) { vf_failed++; return 1; } return 0; }
static inline void *vf_malloc(size_t n) { void *p; if (vf_fails() || n > (1ull << 32)) return NULL; p = malloc(n); if (p) { vf_live++; memset(p, 0xa5, n); } return p; }
static inline void *vf_calloc(size_t a, size_t b) { void *p; if (vf_fails() || (b && a > (1ull << 32) / b)) return NULL; p = calloc(a, b); if (p) vf_live++; return p; }
static inline void *vf_realloc(void *o, size_t n) { void *p; if (vf_fails() || n > (1ull << 32)) return NULL; p = realloc(o, n); if (p && !o) vf_live++; return p; }
static inline void vf_free(void *p) { if (p) vf_live--; free(p); }
static inline char *vf_strdup(const char *s) { char *p; if (vf_fails()) return NULL; p = strdup(s); if (p) vf_live++; return p; }
#ifndef VF_NOREPLACE
#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define free vf_free
#undef strdup
#define strdup vf_strdup
#endif
#endif
