/* instantiates the macros of /repo/array/sc_array.h; the functions below contain nothing else */
#include "sc_array.h"
#include <stdbool.h>
struct vf_rec { int64_t a; int32_t b; };
typedef unsigned char uchar;
sc_array_def(struct vf_rec, rec);
sc_array_def(uchar, uchar);
#define W(name, T) \
	bool vf_visit_##name(T *v); int vf_cmp_##name(const void *a, const void *b); \
	void a_init_##name(struct sc_array_##name *a) { sc_array_init(a); } \
	void a_term_##name(struct sc_array_##name *a) { sc_array_term(a); } \
	void a_add_##name(struct sc_array_##name *a, T *v) { sc_array_add(a, *v); } \
	void a_clear_##name(struct sc_array_##name *a) { sc_array_clear(a); } \
	bool a_oom_##name(struct sc_array_##name *a) { return sc_array_oom(a); } \
	void a_at_##name(struct sc_array_##name *a, size_t i, T *r) { *r = sc_array_at(a, i); } \
	void a_put_##name(struct sc_array_##name *a, size_t i, T *r) { sc_array_at(a, i) = *r; } \
	size_t a_size_##name(struct sc_array_##name *a) { return sc_array_size(a); } \
	void a_del_##name(struct sc_array_##name *a, size_t idx) { sc_array_del(a, idx); } \
	void a_delun_##name(struct sc_array_##name *a, size_t idx) { sc_array_del_unordered(a, idx); } \
	void a_dellast_##name(struct sc_array_##name *a) { sc_array_del_last(a); } \
	void a_last_##name(struct sc_array_##name *a, T *r) { *r = sc_array_last(a); } \
	void a_sort_##name(struct sc_array_##name *a) { sc_array_sort(a, vf_cmp_##name); } \
	void a_foreach_##name(struct sc_array_##name *a) { T e; sc_array_foreach (a, e) { if (vf_visit_##name(&e)) break; } }
W(int, int) W(64, uint64_t) W(ptr, void *) W(double, double) W(rec, struct vf_rec) W(uchar, uchar)
