/* instantiates the macros of /repo/queue/sc_queue.h; the functions below contain nothing else */
#include "sc_queue.h"
struct vf_rec { int64_t a; int32_t b; };
typedef unsigned char uchar;
sc_queue_def(struct vf_rec, rec);
sc_queue_def(uchar, uchar);
#define W(name, T) \
	bool vf_visit_##name(T *v); \
	void q_init_##name(struct sc_queue_##name *q) { sc_queue_init(q); } \
	void q_term_##name(struct sc_queue_##name *q) { sc_queue_term(q); } \
	bool q_oom_##name(struct sc_queue_##name *q) { return sc_queue_oom(q); } \
	size_t q_size_##name(struct sc_queue_##name *q) { return sc_queue_size(q); } \
	void q_clear_##name(struct sc_queue_##name *q) { sc_queue_clear(q); } \
	bool q_empty_##name(struct sc_queue_##name *q) { return sc_queue_empty(q); } \
	void q_at_##name(struct sc_queue_##name *q, size_t i, T *r) { *r = sc_queue_at(q, i); } \
	void q_peekfirst_##name(struct sc_queue_##name *q, T *r) { *r = sc_queue_peek_first(q); } \
	void q_peeklast_##name(struct sc_queue_##name *q, T *r) { *r = sc_queue_peek_last(q); } \
	void q_addlast_##name(struct sc_queue_##name *q, T *v) { sc_queue_add_last(q, *v); } \
	void q_addfirst_##name(struct sc_queue_##name *q, T *v) { sc_queue_add_first(q, *v); } \
	void q_dellast_##name(struct sc_queue_##name *q, T *r) { *r = sc_queue_del_last(q); } \
	void q_delfirst_##name(struct sc_queue_##name *q, T *r) { *r = sc_queue_del_first(q); } \
	void q_foreach_##name(struct sc_queue_##name *q) { T e; sc_queue_foreach (q, e) { if (vf_visit_##name(&e)) break; } }
W(int, int) W(64, uint64_t) W(ptr, void *) W(double, double) W(rec, struct vf_rec) W(uchar, uchar)
