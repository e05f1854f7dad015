// SRCS:
#include "sc_queue.h"
#include "search.h"
struct vf_rec { int64_t a; int32_t b; };
sc_queue_def(struct vf_rec, rec);
static int64_t keyof_int(int v) { return v; }
static int64_t keyof_64(uint64_t v) { return (int64_t) v; }
static int64_t keyof_rec(struct vf_rec v) { CHECK(v.b == (int32_t) (v.a * 3)); return v.a; }
static int mk_int(int64_t k) { return (int) k; }
static uint64_t mk_64(int64_t k) { return (uint64_t) k; }
static struct vf_rec mk_rec(int64_t k) { struct vf_rec r = {k, (int32_t) (k * 3)}; return r; }
#define RUN(name, T) \
static void one_##name(void) { \
	struct sc_queue_##name q; int64_t m[2048]; size_t f = 1024, n = 0; H(#name ": "); vf_failed = 0; vf_failin = below(10) ? 0 : 1; sc_queue_init(&q); CHECK(sc_queue_oom(&q) == (vf_failed != 0)); vf_failin = 0; if (vf_failed) { sc_queue_term(&q); return; } int ops = below(200); int bias = below(3); \
	for (int o = 0; o < ops; o++) { int op = below(30); \
		if (op < 14 + bias) { int64_t k = (int64_t) below(100000) - 50000; vf_failin = below(8) ? 0 : 1; vf_failed = 0; int first = below(2 + bias) == 0; H("%s %ld ", first ? "addfirst" : "addlast", (long) k); if (first) sc_queue_add_first(&q, mk_##name(k)); else sc_queue_add_last(&q, mk_##name(k)); CHECK(sc_queue_oom(&q) == (vf_failed != 0)); if (!vf_failed) { if (first) m[--f] = k; else m[f + n] = k; n++; } vf_failin = 0; } \
		else if (op < 28 && n) { int first = below(2); H("%s ", first ? "delfirst" : "dellast"); T v; if (first) { v = sc_queue_del_first(&q); CHECK(keyof_##name(v) == m[f]); f++; } else { v = sc_queue_del_last(&q); CHECK(keyof_##name(v) == m[f + n - 1]); } n--; } \
		else if (op == 28 && !below(8)) { H("clear "); sc_queue_clear(&q); n = 0; f = 1024; } \
		CHECK(sc_queue_size(&q) == n); CHECK(sc_queue_empty(&q) == (n == 0)); for (size_t i = 0; i < n; i++) CHECK(keyof_##name(sc_queue_at(&q, i)) == m[f + i]); \
		if (n) { CHECK(keyof_##name(sc_queue_peek_first(&q)) == m[f]); CHECK(keyof_##name(sc_queue_peek_last(&q)) == m[f + n - 1]); } \
		{ T e; size_t c = 0, stop = below(5) ? n + 1 : below(n + 1); sc_queue_foreach (&q, e) { CHECK(c < n); CHECK(keyof_##name(e) == m[f + c]); if (c++ == stop) break; } CHECK(c == (stop < n ? stop + 1 : n)); } \
	} sc_queue_term(&q); CHECK(vf_live == 0); }
RUN(int, int) RUN(64, uint64_t) RUN(rec, struct vf_rec)
static void one(void) { switch (below(3)) { case 0: one_int(); break; case 1: one_64(); break; default: one_rec(); } }
