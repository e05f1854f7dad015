/* instantiates the iteration macros of /repo/map/sc_map.h for every map type; the bodies report each visit */
#include "sc_map.c"
#define IT(name, K, V) \
	void vf_pair_##name(K k, V v); void vf_key_##name(K k); void vf_value_##name(V v); \
	void it_pair_##name(struct sc_map_##name *m) { K k; V v; sc_map_foreach (m, k, v) { vf_pair_##name(k, v); } } \
	void it_key_##name(struct sc_map_##name *m) { K k; sc_map_foreach_key (m, k) { vf_key_##name(k); } } \
	void it_value_##name(struct sc_map_##name *m) { V v; sc_map_foreach_value (m, v) { vf_value_##name(v); } }
IT(int, int, int) IT(intv, int, void *) IT(ints, int, const char *) IT(ll, long long, long long) IT(llv, long long, void *)
IT(lls, long long, const char *) IT(32, uint32_t, uint32_t) IT(64, uint64_t, uint64_t) IT(64v, uint64_t, void *) IT(64s, uint64_t, const char *)
IT(str, const char *, const char *) IT(sv, const char *, void *) IT(s64, const char *, uint64_t) IT(sll, const char *, long long)
