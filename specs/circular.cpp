// Contracts of the circular buffers (buckets) of seq/tiered_vector.hpp. Every operation starts from an arbitrary valid buffer: any
// power of two capacity, any begin position, any size the precondition of the operation allows, any contents.
#include "vf.hpp"
#include <seq/tiered_vector.hpp>
using namespace seq;
#ifndef VF_T
#define VF_T uint64_t
#endif
typedef VF_T T;
typedef detail::CircularBuffer<T> CB;
#ifndef VF_MAXLOG
#define VF_MAXLOG 16 // SEQ_MAX_BUCKET_SIZE
#endif
struct Old
{
	CB* b;
	uint64_t cap, n, s;
	T* snap; // snapshot of the elements
	T* raw;	 // snapshot of the whole block
};
static inline Old any_buffer(uint64_t min_size, bool full_allowed, bool must_full)
{
	Old o;
	uint64_t lg = vf_size("log2 capacity", 1, VF_MAXLOG);
	o.cap = uint64_t(1) << lg;
	o.n = vf_size("size", min_size, uint64_t(1) << VF_MAXLOG);
	o.s = vf_size("begin", 0, uint64_t(1) << VF_MAXLOG);
	vf_assume(o.n <= o.cap && o.s < o.cap);
	if (!full_allowed)
		vf_assume(o.n < o.cap);
	if (must_full)
		vf_assume(o.n == o.cap);
	uint64_t bytes = CB::start_data + o.cap * sizeof(T);
	o.b = static_cast<CB*>(vf_heap(bytes, 4, "buffer"));
	o.b->size = int(o.n);
	o.b->max_size_ = int(o.cap);
	o.b->max_size1 = int(o.cap - 1);
	o.b->begin = int(o.s);
	o.raw = static_cast<T*>(vf_snapshot(o.b));
	o.snap = reinterpret_cast<T*>(reinterpret_cast<char*>(o.raw) + CB::start_data);
	return o;
}
static inline T at(const Old& o, uint64_t i) { return o.snap[(o.s + i) & (o.cap - 1)]; }
static inline void valid(const Old& o, uint64_t n)
{
	vf_assert(uint64_t(o.b->size) == n, "size");
	vf_assert(uint64_t(o.b->max_size_) == o.cap && uint64_t(o.b->max_size1) == o.cap - 1, "capacity");
	vf_assert(o.b->begin >= 0 && uint64_t(o.b->begin) < o.cap, "the begin position is inside the buffer");
}
static inline T now(const Old& o, uint64_t i) { return (*o.b)[int(i)]; }
// The element operations of small types are loops. Their invariants speak of one arbitrary element i: p and q are its places in the
// storage before and after, v is its value; first is where the first of the (at most two)
// loops starts, end where it stops, last where the second stops.
static uint64_t g_p, g_q, g_first, g_last, g_end, g_cap;
static T g_v;
static bool g_on;
static inline uint64_t ix(bool c, uint64_t i) { return vf_native() ? (c ? i : 0) : i; }
static inline uint64_t idx(const T* p) { return (vf_offset(p) - CB::start_data) / sizeof(T); }
static inline bool has(T* p, bool in, uint64_t k)
{
	in = vf::both(in, g_on);
	return vf::imp(in, reinterpret_cast<T*>(reinterpret_cast<char*>(p) - vf_offset(p) + CB::start_data)[ix(in, k)] == g_v);
}
VF_HINT(aligned, T* p) { return vf_offset(p) % sizeof(T) == 0; }
VF_HINT(inside, T* p) { return vf::both(vf_offset(p) >= CB::start_data, vf_offset(p) < CB::start_data + g_cap * sizeof(T)); }
VF_HINT(down_kept, T* p) { return has(p, g_p < idx(p), g_p); }
VF_HINT(down_moved, T* p) { return has(p, vf::both(g_q > idx(p), g_q <= g_first), g_q); }
VF_HINT(down_kept_other, T* p) { return has(p, g_p > g_first, g_p); }
VF_HINT(down_moved_first, T* p) { return has(p, g_q <= g_first, g_q); }
VF_HINT(down_kept2, T* p) { return has(p, vf::both(g_p < idx(p), g_p > g_first), g_p); }
VF_HINT(up_kept2, T* p) { return has(p, vf::both(g_p > idx(p), g_p < g_first), g_p); }
VF_HINT(down_one, T* p) { return idx(p) <= g_first; }
VF_HINT(down_end, T* p) { return idx(p) >= g_end; }
VF_HINT(up_end, T* p) { return idx(p) <= g_end; }
VF_HINT(down_last, T* p) { return idx(p) >= g_last; }
VF_HINT(up_last, T* p) { return idx(p) <= g_last; }
VF_HINT(down_two, T* p) { return idx(p) > g_first; }
VF_HINT(up_one, T* p) { return idx(p) >= g_first; }
VF_HINT(up_two, T* p) { return idx(p) < g_first; }
VF_HINT(down_moved2, T* p) { return has(p, vf::both(g_q > idx(p), g_q > g_first), g_q); }
VF_HINT(up_kept, T* p) { return has(p, g_p > idx(p), g_p); }
VF_HINT(up_moved, T* p) { return has(p, vf::both(g_q < idx(p), g_q >= g_first), g_q); }
VF_HINT(up_kept_other, T* p) { return has(p, g_p < g_first, g_p); }
VF_HINT(up_moved_first, T* p) { return has(p, g_q >= g_first, g_q); }
VF_HINT(up_moved2, T* p) { return has(p, vf::both(g_q < idx(p), g_q < g_first), g_q); }
enum Kind
{
	GHOST_EMPLACE,
	GHOST_IPB,
	GHOST_IPF,
	GHOST_ERASE
};
static inline void ghost(const Old& o, uint64_t i, uint64_t p, Kind k)
{
	if (CB::relocatable)
		return; // no loop
	uint64_t m = o.cap - 1, old = 0, nw = 0, nb = o.s; // logical position before and after, begin after
	bool right = false;				     // the loops go down
	g_cap = o.cap;
	if (k == GHOST_EMPLACE || k == GHOST_IPB) {
		right = p > o.n / 2;
		g_on = k == GHOST_EMPLACE ? i < o.n : i + 1 < o.n;
		nb = right ? o.s : (o.s - 1) & m;
		old = i;
		nw = i < p ? i : i + 1;
		g_first = right ? (o.s + (k == GHOST_EMPLACE ? o.n : o.n - 1)) & m : nb;
	}
	else if (k == GHOST_IPF) {
		right = !(p < o.n / 2);
		g_on = i + 1 < o.n;
		nb = right ? (o.s + 1) & m : o.s;
		old = i + 1;
		nw = i < p - 1 ? i : i + 1;
		g_first = right ? (nb + o.n - 1) & m : nb;
	}
	else {
		bool up = p > o.n / 2;
		right = !up;
		g_on = i + 1 < o.n;
		nb = up ? o.s : (o.s + 1) & m;
		old = i < p ? i : i + 1;
		nw = i;
		g_first = (o.s + p) & m;
	}
	if (k == GHOST_ERASE)
		g_last = (right ? o.s : o.s + o.n - 1) & m;
	else
		g_last = (nb + (k == GHOST_IPF ? p - 1 : p)) & m;
	g_end = right ? (g_last > g_first ? 0 : g_last) : (g_last < g_first ? m : g_last);
	g_p = (o.s + old) & m;
	g_q = (nb + nw) & m;
	g_v = at(o, old);
	vf_hint(VF_FN(aligned));
	vf_hint(VF_FN(inside));
	if (right) {
		vf_hint(VF_FN(down_one));
		vf_hint(VF_FN(down_end));
		vf_hint(VF_FN(down_last));
		vf_hint(VF_FN(down_two));
		vf_hint(VF_FN(down_kept));
		vf_hint(VF_FN(down_kept2));
		vf_hint(VF_FN(down_moved));
		vf_hint(VF_FN(down_kept_other));
		vf_hint(VF_FN(down_moved_first));
		vf_hint(VF_FN(down_moved2));
	}
	else {
		vf_hint(VF_FN(up_one));
		vf_hint(VF_FN(up_end));
		vf_hint(VF_FN(up_last));
		vf_hint(VF_FN(up_two));
		vf_hint(VF_FN(up_kept));
		vf_hint(VF_FN(up_kept2));
		vf_hint(VF_FN(up_moved));
		vf_hint(VF_FN(up_kept_other));
		vf_hint(VF_FN(up_moved_first));
		vf_hint(VF_FN(up_moved2));
	}
	vf_frame(o.b->buffer(), o.cap * sizeof(T)); // the loops leave the header alone
	vf_generic(false);
	vf_require_term(true);
	vf_cut_loops(true);
}
VF_PROOF(push)
{
	Old o = any_buffer(0, false, false);
	T x = vf::any<T>("x");
	bool front = vf::any<bool>("front");
	uint64_t i = vf_size("i", 0, uint64_t(1) << VF_MAXLOG);
	T* p = front ? o.b->emplace_front(x) : o.b->emplace_back(x);
	valid(o, o.n + 1);
	vf_assert(p == &(*o.b)[front ? 0 : int(o.n)] && *p == x, "the new element");
	if (i < o.n)
		vf_assert(now(o, front ? i + 1 : i) == at(o, i), "the other elements keep value and order");
	vf_cover("end");
}
VF_PROOF(rotate)
{
	Old o = any_buffer(0, true, true);
	T x = vf::any<T>("x"), y = x;
	bool front = vf::any<bool>("front");
	uint64_t i = vf_size("i", 0, uint64_t(1) << VF_MAXLOG);
	if (front)
		o.b->push_front_pop_back(y);
	else
		o.b->push_back_pop_front(y);
	valid(o, o.n);
	vf_assert(now(o, front ? 0 : o.n - 1) == x, "the new element");
	vf_assert(y == at(o, front ? o.n - 1 : 0), "the removed element is given back");
	if (i + 1 < o.n)
		vf_assert(now(o, front ? i + 1 : i) == at(o, front ? i : i + 1), "the other elements keep value and order");
	vf_cover("end");
}
VF_PROOF(pop)
{
	Old o = any_buffer(1, true, false);
	bool front = vf::any<bool>("front");
	uint64_t i = vf_size("i", 0, uint64_t(1) << VF_MAXLOG);
	if (front)
		o.b->pop_front();
	else
		o.b->pop_back();
	valid(o, o.n - 1);
	if (i + 1 < o.n)
		vf_assert(now(o, i) == at(o, front ? i + 1 : i), "the other elements keep value and order");
	vf_cover("end");
}
VF_PROOF(emplace)
{
	Old o = any_buffer(0, false, false);
	T x = vf::any<T>("x");
	uint64_t i = vf_size("i", 0, uint64_t(1) << VF_MAXLOG), p = vf_size("pos", 0, uint64_t(1) << VF_MAXLOG);
	vf_assume(p <= o.n);
	ghost(o, i, p, GHOST_EMPLACE);
	T* r = o.b->emplace(int(p), x);
	vf_cut_loops(false);
	valid(o, o.n + 1);
	vf_assert(r == &(*o.b)[int(p)] && *r == x, "the new element");
	if (i < o.n)
		vf_assert(now(o, i < p ? i : i + 1) == at(o, i), "the other elements keep value and order");
	vf_cover("end");
}
VF_PROOF(erase)
{
	Old o = any_buffer(1, true, false);
	uint64_t i = vf_size("i", 0, uint64_t(1) << VF_MAXLOG), p = vf_size("pos", 0, uint64_t(1) << VF_MAXLOG);
	vf_assume(p < o.n);
	ghost(o, i, p, GHOST_ERASE);
	o.b->erase(int(p));
	vf_cut_loops(false);
	valid(o, o.n - 1);
	if (i + 1 < o.n)
		vf_assert(now(o, i) == at(o, i < p ? i : i + 1), "the other elements keep value and order");
	vf_cover("end");
}
VF_PROOF(insert_pop_back)
{
	Old o = any_buffer(0, true, true);
	T x = vf::any<T>("x");
	uint64_t i = vf_size("i", 0, uint64_t(1) << VF_MAXLOG), p = vf_size("pos", 0, uint64_t(1) << VF_MAXLOG);
	vf_assume(p < o.n);
	ghost(o, i, p, GHOST_IPB);
	T r = o.b->insert_pop_back(int(p), x);
	vf_cut_loops(false);
	valid(o, o.n);
	vf_assert(r == at(o, o.n - 1), "the removed element is given back");
	vf_assert(now(o, p) == x, "the new element");
	if (i + 1 < o.n)
		vf_assert(now(o, i < p ? i : i + 1) == at(o, i), "the other elements keep value and order");
	vf_cover("end");
}
VF_PROOF(insert_pop_front)
{
	Old o = any_buffer(0, true, true);
	T x = vf::any<T>("x");
	uint64_t i = vf_size("i", 0, uint64_t(1) << VF_MAXLOG), p = vf_size("pos", 1, uint64_t(1) << VF_MAXLOG);
	vf_assume(p <= o.n);
	ghost(o, i, p, GHOST_IPF);
	T r = o.b->insert_pop_front(int(p), x);
	vf_cut_loops(false);
	valid(o, o.n);
	vf_assert(r == at(o, 0), "the removed element is given back");
	vf_assert(now(o, p - 1) == x, "the new element");
	if (i + 1 < o.n)
		vf_assert(now(o, i < p - 1 ? i : i + 1) == at(o, i + 1), "the other elements keep value and order");
	vf_cover("end");
}
VF_PROOF(erase_push)
{
	Old o = any_buffer(0, true, true);
	T x = vf::any<T>("x"), y = x;
	bool front = vf::any<bool>("front");
	uint64_t i = vf_size("i", 0, uint64_t(1) << VF_MAXLOG), p = vf_size("pos", 0, uint64_t(1) << VF_MAXLOG);
	vf_assume(p < o.n);
	ghost(o, i, p, GHOST_ERASE);
	if (front)
		o.b->erase_push_front(int(p), std::move(y));
	else
		o.b->erase_push_back(int(p), std::move(y));
	vf_cut_loops(false);
	valid(o, o.n);
	vf_assert(now(o, front ? 0 : o.n - 1) == x, "the new element");
	if (i + 1 < o.n)
		vf_assert(now(o, front ? i + 1 : i) == at(o, i < p ? i : i + 1), "the other elements keep value and order");
	vf_cover("end");
}
