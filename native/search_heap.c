// SRCS: heap/sc_heap.c
#include "sc_heap.h"
#include "search.h"
static void one(void) {
	struct sc_heap h; int64_t ks[512]; uintptr_t ds[512]; int n = 0; size_t cap = below(3) ? below(20) : 0; int range = below(2) ? 4 : 1000;
	H("cap %zu: ", cap); if (!sc_heap_init(&h, cap)) CHECK(0);
	int ops = below(150); for (int o = 0; o < ops; o++) {
		int op = below(20);
		if (op < 11) { int64_t k = below(20) ? (int64_t) below(range) - range / 2 : (below(2) ? INT64_MIN : INT64_MAX); uintptr_t d = rnd(); vf_failin = below(8) ? 0 : 1; vf_failed = 0;
			H("add %ld ", (long) k); if (sc_heap_add(&h, k, (void *) d)) { CHECK(!vf_failed); ks[n] = k; ds[n++] = d; } else { CHECK(vf_failed); H("oom "); } vf_failin = 0; vf_failed = 0; }
		else if (op < 18) { int64_t m = 0; for (int i = 0; i < n; i++) if (i == 0 || ks[i] < m) m = ks[i]; struct sc_heap_data *p = sc_heap_peek(&h); CHECK((p == NULL) == (n == 0)); if (p) CHECK(p->key == m);
			H("pop "); p = sc_heap_pop(&h); CHECK((p == NULL) == (n == 0)); if (p) { CHECK(p->key == m); int f = -1; for (int i = 0; i < n; i++) if (ks[i] == p->key && ds[i] == (uintptr_t) p->data) f = i; CHECK(f >= 0); n--; ks[f] = ks[n]; ds[f] = ds[n]; } }
		else if (op == 18 && !below(10)) { H("clear "); sc_heap_clear(&h); n = 0; }
		CHECK(sc_heap_size(&h) == (size_t) n);
	}
	sc_heap_term(&h); CHECK(vf_live == 0);
}
