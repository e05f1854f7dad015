// SRCS:
#include "sc_array.h"
#include "search.h"
struct vf_rec { int64_t a; int32_t b; };
sc_array_def(struct vf_rec, rec);
static int cmpi(const void *a, const void *b) { int x = *(const int *) a, y = *(const int *) b; return x < y ? -1 : x > y; }
static int64_t keyof_int(int v) { return v; }
static int64_t keyof_64(uint64_t v) { return (int64_t) v; }
static int64_t keyof_rec(struct vf_rec v) { CHECK(v.b == (int32_t) (v.a * 3)); return v.a; }
static int mk_int(int64_t k) { return (int) k; }
static uint64_t mk_64(int64_t k) { return (uint64_t) k; }
static struct vf_rec mk_rec(int64_t k) { struct vf_rec r = {k, (int32_t) (k * 3)}; return r; }
#define RUN(name, T, ISINT) \
static void one_##name(void) { \
	struct sc_array_##name a; int64_t m[600]; size_t n = 0; H(#name ": "); sc_array_init(&a); int ops = below(120); \
	for (int o = 0; o < ops; o++) { int op = below(30); \
		if (op < 14) { int64_t k = (int64_t) below(100000) - 50000; vf_failin = below(8) ? 0 : 1; vf_failed = 0; H("add %ld ", (long) k); sc_array_add(&a, mk_##name(k)); CHECK(sc_array_oom(&a) == (vf_failed != 0)); if (!vf_failed) m[n++] = k; vf_failin = 0; } \
		else if (op < 18 && n) { size_t idx = below(n); H("del %zu ", idx); sc_array_del(&a, idx); for (size_t i = idx; i + 1 < n; i++) m[i] = m[i + 1]; n--; } \
		else if (op < 20 && n) { size_t i = below(n); H("delun %zu ", i); sc_array_del_unordered(&a, i); m[i] = m[--n]; } \
		else if (op < 23 && n) { H("dellast "); sc_array_del_last(&a); n--; } \
		else if (op == 23 && !below(8)) { H("clear "); sc_array_clear(&a); n = 0; } \
		else if (op == 24 && ISINT && n) { H("sort "); sc_array_sort(&a, cmpi); int t[600]; for (size_t i = 0; i < n; i++) t[i] = (int) m[i]; qsort(t, n, sizeof t[0], cmpi); for (size_t i = 0; i < n; i++) m[i] = t[i]; } \
		else if (op == 25 && !below(8)) { H("term "); sc_array_term(&a); CHECK(vf_live == 0); n = 0; } \
		CHECK(sc_array_size(&a) == n); for (size_t i = 0; i < n; i++) CHECK(keyof_##name(sc_array_at(&a, i)) == m[i]); \
		if (n) CHECK(keyof_##name(sc_array_last(&a)) == m[n - 1]); \
		{ T e; size_t c = 0, stop = below(5) ? n + 1 : below(n + 1); sc_array_foreach (&a, e) { CHECK(c < n); CHECK(keyof_##name(e) == m[c]); if (c++ == stop) break; } CHECK(c == (stop < n ? stop + 1 : n)); } \
	} sc_array_term(&a); CHECK(vf_live == 0); }
RUN(int, int, 1) RUN(64, uint64_t, 0) RUN(rec, struct vf_rec, 0)
static void one(void) { switch (below(3)) { case 0: one_int(); break; case 1: one_64(); break; default: one_rec(); } }
