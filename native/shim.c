/* allocation stand-ins used when replaying on the real code: every block ends (or starts) at a guard page */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <sys/mman.h>
#include <stdio.h>
#include <stdarg.h>
#define MAXB 100000
static struct { unsigned char *base, *map; size_t size, maplen; int alive, registered; } B[MAXB];
static int nb, nplan, iplan, errs, front; static const unsigned char *plan;
static size_t maxalloc = (size_t)1 << 28;
void vf_reset(const unsigned char *p, int n, int fr) { nb = 0; plan = p; nplan = n; iplan = 0; errs = 0; front = fr; }
int vf_count(void) { return nb; }
int vf_errs(void) { return errs; }
int vf_calls(void) { return iplan; }
void vf_info(int i, uint64_t *a, uint64_t *s, int *al) { *a = (uint64_t)B[i].base; *s = B[i].size; *al = B[i].alive; }
static int add(size_t size, size_t align) {
    if (nb >= MAXB) return -1;
    size_t pl = ((size + 4095) / 4096) * 4096; if (!pl) pl = 4096;
    unsigned char *m = mmap(0, pl + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return -1;
    mprotect(m + 4096, pl, PROT_READ | PROT_WRITE);
    unsigned char *b = front ? m + 4096 : m + 4096 + ((pl - size) / align) * align;
    memset(m + 4096, 0xA5, pl);
    B[nb].base = b; B[nb].map = m; B[nb].size = size; B[nb].maplen = pl + 8192; B[nb].alive = 1; return nb++;
}
void *vf_block(size_t size, size_t align) { int i = add(size, align); return i < 0 ? 0 : B[i].base; }
static int fails(size_t n) { int k = iplan++; if (k < nplan && !plan[k]) { errno = ENOMEM; return 1; } if (n > maxalloc) { errno = ENOMEM; return 1; } return 0; }
void *vf_malloc(size_t n) { if (fails(n)) return 0; int i = add(n, (n % 16) ? ((n % 8) ? 1 : 8) : 16); return i < 0 ? 0 : B[i].base; }
void *vf_calloc(size_t n, size_t s) { size_t t; if (__builtin_mul_overflow(n, s, &t)) { iplan++; return 0; } void *p = vf_malloc(t); if (p) memset(p, 0, t); return p; }
static int find(void *p) { for (int i = nb - 1; i >= 0; i--) if (B[i].base == p) return i; return -1; }
void vf_free(void *p) { if (!p) return; int i = find(p); if (i < 0 || !B[i].alive) { errs++; return; } B[i].alive = 0; mprotect(B[i].map + 4096, B[i].maplen - 8192, PROT_NONE); }
void *vf_realloc(void *p, size_t n) {
    if (!p) return vf_malloc(n);
    int i = find(p); if (i < 0 || !B[i].alive) { errs++; return 0; }
    if (n == 0) { errs++; }
    unsigned char *q = vf_malloc(n); if (!q) return 0;
    memcpy(q, p, B[i].size < n ? B[i].size : n); vf_free(p); return q;
}

static const unsigned char *vsn; static int nvsn, ivsn;
void vf_setvsn(const unsigned char *p, int n) { vsn = p; nvsn = n; ivsn = 0; }
int vf_vsnprintf(char *d, size_t n, const char *f, va_list ap) { int k = ivsn++; if (k < nvsn && !vsn[k]) return -1; return vsnprintf(d, n, f, ap); }
