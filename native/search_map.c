// SRCS: map/sc_map.c
#include "sc_map.h"
#include "search.h"
static const char *K[] = {0,"a","b","c","d","aa","bb","cc","dd","ee","ff","gg","hh","ii","jj","kk","ll","mm","nn","oo","pp","a longer key than eight","another longer key 12345678","x1234567","y12345678"};
#define NK 25
static uint64_t pool[40]; static char copies[2][NK][40];
#define SCAL(name, KT, VT) static void run_##name(void) { \
	struct sc_map_##name m; bool has[40] = {0}; VT val[40]; uint32_t n = 0; int nk = 4 + below(36); uint32_t lf = below(2) ? 0 : 25 + below(71); uint32_t cap = below(3) ? below(20) : 0; \
	KT key[40]; for (int i = 0; i < nk; i++) { again: key[i] = i == 0 ? 0 : (KT) (below(2) ? below(64) * (1 + below(2) * 63) : (below(3) ? rnd() : (uint64_t) -1 - below(16))); if (i && !key[i]) goto again; for (int j = 0; j < i; j++) if (key[j] == key[i]) goto again; } \
	H(#name " cap %u lf %u: ", cap, lf); vf_failin = below(8) ? 0 : 1; if (!sc_map_init_##name(&m, cap, lf)) { CHECK(vf_failed); vf_failed = 0; return; } vf_failin = 0; \
	int ops = below(120); for (int o = 0; o < ops; o++) { int i = below(nk); VT v = (VT) (below(4) ? rnd() | 1 : 0); int op = below(40); \
		if (op < 20) { vf_failin = below(10) ? 0 : 1; vf_failed = 0; H("put %d ", i); VT r = sc_map_put_##name(&m, key[i], v); if (sc_map_oom(&m)) { CHECK(vf_failed); H("oom "); } else { CHECK(!vf_failed); CHECK(sc_map_found(&m) == has[i]); CHECK(r == (has[i] ? val[i] : (VT) 0)); if (!has[i]) n++; has[i] = true; val[i] = v; } vf_failin = 0; vf_failed = 0; } \
		else if (op < 30) { H("del %d ", i); VT r = sc_map_del_##name(&m, key[i]); CHECK(sc_map_found(&m) == has[i]); CHECK(r == (has[i] ? val[i] : (VT) 0)); if (has[i]) n--; has[i] = false; } \
		else if (op < 36) { H("get %d ", i); VT r = sc_map_get_##name(&m, key[i]); CHECK(sc_map_found(&m) == has[i]); CHECK(r == (has[i] ? val[i] : (VT) 0)); } \
		else if (op == 36 && !below(3)) { H("clear "); sc_map_clear_##name(&m); memset(has, 0, sizeof has); n = 0; } \
		CHECK(sc_map_size_##name(&m) == n); \
		if (below(8) == 0) { for (int k = 0; k < nk; k++) { VT r = sc_map_get_##name(&m, key[k]); CHECK(sc_map_found(&m) == has[k]); CHECK(r == (has[k] ? val[k] : (VT) 0)); } ITER(name, KT, VT) } \
	} ITER(name, KT, VT) sc_map_term_##name(&m); CHECK(vf_live == 0); }
#define FIND(k) ({ int f_ = -1; for (int z = 0; z < nk; z++) if (key[z] == (k)) f_ = z; f_; })
#define ITER(name, KT, VT) { KT k; VT v; bool seen[40] = {0}; uint32_t c = 0; H("iter "); sc_map_foreach(&m, k, v) { int f = FIND(k); CHECK(f >= 0 && has[f] && !seen[f] && v == val[f]); seen[f] = true; c++; CHECK(c <= n); } CHECK(c == n); \
	c = 0; memset(seen, 0, sizeof seen); sc_map_foreach_key(&m, k) { int f = FIND(k); CHECK(f >= 0 && has[f] && !seen[f]); seen[f] = true; c++; CHECK(c <= n); } CHECK(c == n); \
	c = 0; sc_map_foreach_value(&m, v) { int f = 0; for (int z = 0; z < nk; z++) f |= has[z] && val[z] == v; CHECK(f); c++; CHECK(c <= n); } CHECK(c == n); }
SCAL(int, int, int) SCAL(intv, int, void *) SCAL(ints, int, const char *) SCAL(ll, long long, long long) SCAL(llv, long long, void *) SCAL(lls, long long, const char *) SCAL(32, uint32_t, uint32_t) SCAL(64, uint64_t, uint64_t) SCAL(64v, uint64_t, void *) SCAL(64s, uint64_t, const char *)
#undef SCAL
#undef FIND
#define FIND(k) ({ int f_ = -1; for (int z = 0; z < nk; z++) if ((K[z] == NULL) == ((k) == NULL) && (!(k) || !strcmp(K[z], (k)))) f_ = z; f_; })
#define STR(name, VT) static void run_##name(void) { \
	typedef const char *KT; struct sc_map_##name m; bool has[40] = {0}; VT val[40]; uint32_t n = 0; int nk = NK; uint32_t lf = below(2) ? 0 : 25 + below(71); uint32_t cap = below(3) ? below(20) : 0; \
	for (int c = 0; c < 2; c++) for (int i = 1; i < NK; i++) strcpy(copies[c][i], K[i]); \
	H(#name " cap %u lf %u: ", cap, lf); if (!sc_map_init_##name(&m, cap, lf)) CHECK(0); \
	int ops = below(120); for (int o = 0; o < ops; o++) { int i = below(nk); const char *key = i ? copies[below(2)][i] : NULL; VT v = (VT) (below(4) ? rnd() | 1 : 0); int op = below(40); \
		if (op < 20) { vf_failin = below(10) ? 0 : 1; vf_failed = 0; H("put %d ", i); VT r = sc_map_put_##name(&m, key, v); if (sc_map_oom(&m)) { CHECK(vf_failed); H("oom "); } else { CHECK(!vf_failed); CHECK(sc_map_found(&m) == has[i]); CHECK(r == (has[i] ? val[i] : (VT) 0)); if (!has[i]) n++; has[i] = true; val[i] = v; } vf_failin = 0; vf_failed = 0; } \
		else if (op < 30) { H("del %d ", i); VT r = sc_map_del_##name(&m, key); CHECK(sc_map_found(&m) == has[i]); CHECK(r == (has[i] ? val[i] : (VT) 0)); if (has[i]) n--; has[i] = false; } \
		else if (op < 36) { H("get %d ", i); VT r = sc_map_get_##name(&m, key); CHECK(sc_map_found(&m) == has[i]); CHECK(r == (has[i] ? val[i] : (VT) 0)); } \
		else if (op == 36 && !below(3)) { H("clear "); sc_map_clear_##name(&m); memset(has, 0, sizeof has); n = 0; } \
		CHECK(sc_map_size_##name(&m) == n); \
		if (below(8) == 0) { for (int k = 0; k < nk; k++) { VT r = sc_map_get_##name(&m, K[k]); CHECK(sc_map_found(&m) == has[k]); CHECK(r == (has[k] ? val[k] : (VT) 0)); } ITER(name, KT, VT) } \
	} ITER(name, KT, VT) sc_map_term_##name(&m); CHECK(vf_live == 0); }
STR(str, const char *) STR(sv, void *) STR(s64, uint64_t) STR(sll, long long)
static void (*F[])(void) = {run_int, run_intv, run_ints, run_ll, run_llv, run_lls, run_32, run_64, run_64v, run_64s, run_str, run_sv, run_s64, run_sll};
static void one(void) { if (!below(2000)) { struct sc_map_32 m; uint32_t c = (uint32_t) ((1u << 31) + below(1u << 31)); H("init cap %u ", c); if (sc_map_init_32(&m, c, 0)) { H("get "); sc_map_get_32(&m, 5); CHECK(!sc_map_found(&m)); H("put "); sc_map_put_32(&m, 5, 6); CHECK(sc_map_get_32(&m, 5) == 6 && sc_map_found(&m)); sc_map_term_32(&m); } vf_live = 0; return; } F[below(14)](); }
