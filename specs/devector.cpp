// Contracts of seq/devector.hpp. Every operation starts from an arbitrary valid devector (any capacity, any position of the
// elements inside the allocation, any contents), so that the contracts compose over any history of operations.
// Type invariant: no allocation and three null pointers, or a live block of exactly capacity() elements that holds the elements.
#include "vf.hpp"
#include <seq/devector.hpp>
using namespace seq;
#ifndef VF_T
#define VF_T uint32_t
#endif
typedef VF_T T;
typedef devector<T> D;
struct Raw
{
	T* data;
	T* start;
	T* end;
	size_t capacity;
};
static_assert(sizeof(Raw) == sizeof(D), "devector layout");
static constexpr uint64_t MAXCAP = 1ull << 40;
static inline Raw& raw(D& d) { return reinterpret_cast<Raw&>(d); }
// ghost view of a devector: the elements it held when the view was taken
struct Old
{
	uint64_t n, s, cap;
	T* data;
	T* snap;
};
static inline Old any_valid(D& d, const char* cap, const char* start, const char* size, const char* name, bool allocated)
{
	Old o = { 0, 0, 0, nullptr, nullptr };
	if (allocated) {
		o.cap = vf_size(cap, 1, MAXCAP);
		o.n = vf_size(size, 0, o.cap);
		o.s = vf_size(start, 0, o.cap);
		vf_assume(o.s <= o.cap - o.n);
		o.data = vf::heap<T>(o.cap, name);
		o.snap = vf::snap(o.data);
	}
	Raw& r = raw(d);
	r.data = o.data;
	r.start = o.data + o.s;
	r.end = o.data + o.s + o.n;
	r.capacity = o.cap;
	return o;
}
static inline T at(const Old& o, uint64_t i) { return o.snap[o.s + i]; }
// the type invariant, and one live block if there is an allocation
static inline void valid(D& d, const char* what)
{
	(void)what;
	Raw& r = raw(d);
	if (r.capacity == 0) {
		vf_assert(int(r.data == nullptr) & int(r.start == nullptr) & int(r.end == nullptr), "a devector without capacity has no storage");
	}
	else {
		vf_assert(vf_alive(r.data), "the storage is alive");
		vf_assert(vf_offset(r.data) == 0, "the storage is the start of a block");
		vf_assert(vf_obj_size(r.data) == r.capacity * sizeof(T), "the storage has room for exactly capacity() elements");
		vf_assert(vf_same_object(r.data, r.start) && vf_same_object(r.data, r.end), "the elements are in the storage");
		vf_assert(vf_offset(r.start) % sizeof(T) == 0 && vf_offset(r.end) % sizeof(T) == 0, "the elements are aligned");
		vf_assert(vf_offset(r.start) <= vf_offset(r.end) && vf_offset(r.end) <= r.capacity * sizeof(T), "the elements are inside the storage");
	}
}
// guarded index (the verifier leaves reads outside of an object unconstrained in hints)
static inline uint64_t ix(bool c, uint64_t i) { return vf_native() ? (c ? i : 0) : i; }
static uint64_t g_live;
static inline void end(D& d)
{
	valid(d, "");
	vf_assert(vf_live_heap() == g_live + (raw(d).capacity ? 1 : 0), "exactly the storage is allocated");
	vf_assert(d.front_capacity() + d.size() + d.back_capacity() == d.capacity(), "the capacities add up");
	d.~D();
	vf_assert(vf_live_heap() == g_live, "destruction releases the storage");
	vf_cover("end");
}
union Slot
{
	D d;
	Slot() {}
	~Slot() {}
};
static inline void grow_contract()
{
	Slot s;
	raw(s.d).capacity = vf_any_u64("cap");
	vf_assume(raw(s.d).capacity <= MAXCAP);
	size_t c = reinterpret_cast<detail::DEVectorData<T, std::allocator<T>>&>(s.d).grow_capacity();
	vf_assert(c > raw(s.d).capacity && c >= 2 && c <= 2 * MAXCAP + 2, "the capacity grows");
	vf_cover("end");
}
VF_PROOF(grow_capacity) { grow_contract(); }
extern "C" size_t dv_grow_stub(const void* self)
{
	size_t old = ((const Raw*)self)->capacity;
	vf_assert(old <= MAXCAP, "precondition of grow_capacity");
	size_t c = vf_any_u64("grown capacity");
	vf_assume(c > old && c >= 2 && c <= 2 * MAXCAP + 2);
	return c;
}
#define BEGIN(alloc)                                                                                                                                                                                   \
	g_live = vf_live_heap();                                                                                                                                                                       \
	Slot sl;                                                                                                                                                                                       \
	D& d = sl.d;                                                                                                                                                                                   \
	Old o = any_valid(d, "cap", "start", "size", "storage", alloc)
template<bool A>
static inline void push_back()
{
	BEGIN(A);
	T x = vf::any<T>("x");
	T& r = d.emplace_back(x);
	vf_assert(d.size() == o.n + 1, "size");
	vf_assert(&r == d.end() - 1 && r == x && d.back() == x, "the new element is the last");
	uint64_t i = vf_any_u64("i");
	if (i < o.n)
		vf_assert(d[i] == at(o, i), "the other elements keep value and order");
	end(d);
}
VF_PROOF(push_back) { vf_replace("grow_capacity", (const void*)&dv_grow_stub); push_back<true>(); }
VF_PROOF(push_back_empty) { vf_replace("grow_capacity", (const void*)&dv_grow_stub); push_back<false>(); }
template<bool A>
static inline void push_front()
{
	BEGIN(A);
	T x = vf::any<T>("x");
	T& r = d.emplace_front(x);
	vf_assert(d.size() == o.n + 1, "size");
	vf_assert(&r == d.begin() && r == x && d.front() == x, "the new element is the first");
	uint64_t i = vf_any_u64("i");
	if (i < o.n)
		vf_assert(d[i + 1] == at(o, i), "the other elements keep value and order");
	end(d);
}
VF_PROOF(push_front) { vf_replace("grow_capacity", (const void*)&dv_grow_stub); push_front<true>(); }
VF_PROOF(push_front_empty) { vf_replace("grow_capacity", (const void*)&dv_grow_stub); push_front<false>(); }
// The argument of an insertion may be an element of the devector itself.
template<bool FRONT>
static inline void push_self()
{
	BEGIN(true);
	uint64_t k = vf_size("k", 0, MAXCAP), i = vf_any_u64("i");
	vf_assume(k < o.n);
	if (FRONT)
		d.push_front(d[k]);
	else
		d.push_back(d[k]);
	vf_assert(d.size() == o.n + 1, "size");
	vf_assert((FRONT ? d.front() : d.back()) == at(o, k), "the new element is the value the argument had");
	if (i < o.n)
		vf_assert(d[FRONT ? i + 1 : i] == at(o, i), "the other elements keep value and order");
	end(d);
}
VF_PROOF(push_back_self) { vf_replace("grow_capacity", (const void*)&dv_grow_stub); push_self<false>(); }
VF_PROOF(push_front_self) { vf_replace("grow_capacity", (const void*)&dv_grow_stub); push_self<true>(); }
template<bool A, bool SELF>
static inline void emplace_at()
{
	BEGIN(A);
	uint64_t p = vf_size("p", 0, MAXCAP), i = vf_any_u64("i"), k = vf_size("k", 0, MAXCAP);
	vf_assume(p <= o.n);
	T x = vf::any<T>("x");
	T* r;
	if (SELF) {
		vf_assume(k < o.n);
		x = d[k];
		r = d.insert(d.cbegin() + p, d[k]);
	}
	else
		r = d.emplace(d.cbegin() + p, x);
	vf_assert(d.size() == o.n + 1, "size");
	vf_assert(r == d.begin() + p && *r == x, "the result designates the new element, at the position");
	if (i < o.n)
		vf_assert(d[i < p ? i : i + 1] == at(o, i), "the other elements keep value and order");
	end(d);
}
VF_PROOF(emplace) { vf_replace("grow_capacity", (const void*)&dv_grow_stub); emplace_at<true, false>(); }
VF_PROOF(emplace_empty) { vf_replace("grow_capacity", (const void*)&dv_grow_stub); emplace_at<false, false>(); }
VF_PROOF(insert_self) { vf_replace("grow_capacity", (const void*)&dv_grow_stub); emplace_at<true, true>(); }
VF_PROOF(pop)
{
	BEGIN(true);
	vf_assume(o.n > 0);
	uint64_t i = vf_any_u64("i");
	bool front = vf::any<bool>("front");
	if (front)
		d.pop_front();
	else
		d.pop_back();
	vf_assert(d.size() == o.n - 1, "size");
	if (i < o.n - 1)
		vf_assert(d[i] == at(o, front ? i + 1 : i), "the other elements keep value and order");
	end(d);
}
VF_PROOF(erase_range)
{
	BEGIN(true);
	uint64_t a = vf_size("a", 0, MAXCAP), b = vf_size("b", 0, MAXCAP), i = vf_any_u64("i");
	vf_assume(a <= b && b <= o.n);
	const T* r = d.erase(d.cbegin() + a, d.cbegin() + b);
	vf_assert(d.size() == o.n - (b - a), "size");
	vf_assert(r == d.begin() + a, "the result designates the element after the erased ones");
	if (i < d.size())
		vf_assert(d[i] == at(o, i < a ? i : i + (b - a)), "the other elements keep value and order");
	end(d);
}
VF_PROOF(erase_one)
{
	BEGIN(true);
	uint64_t a = vf_size("a", 0, MAXCAP), i = vf_any_u64("i");
	vf_assume(a < o.n);
	const T* r = d.erase(d.cbegin() + a);
	vf_assert(d.size() == o.n - 1, "size");
	vf_assert(r == d.begin() + a, "the result designates the element after the erased one");
	if (i < d.size())
		vf_assert(d[i] == at(o, i < a ? i : i + 1), "the other elements keep value and order");
	end(d);
}
template<bool A, class F>
static inline void same_elements(F f)
{
	BEGIN(A);
	uint64_t i = vf_any_u64("i");
	f(d, o);
	vf_assert(d.size() == o.n, "size");
	if (i < o.n)
		vf_assert(d[i] == at(o, i), "the elements keep value and order");
	end(d);
}
static inline void do_reserve(D& d, const Old&)
{
	uint64_t c = vf_size("c", 0, MAXCAP);
	d.reserve(c);
	vf_assert(d.capacity() >= c, "the capacity is reserved");
}
static inline void do_shrink(D& d, const Old&)
{
	d.shrink_to_fit();
	vf_assert(d.capacity() == d.size(), "nothing more than the elements is allocated");
}
VF_PROOF(reserve) { same_elements<true>(do_reserve); }
VF_PROOF(reserve_empty) { same_elements<false>(do_reserve); }
VF_PROOF(shrink_to_fit) { same_elements<true>(do_shrink); }
VF_PROOF(shrink_to_fit_empty) { same_elements<false>(do_shrink); }
VF_PROOF(clear)
{
	BEGIN(true);
	d.clear();
	vf_assert(d.size() == 0 && d.empty() && d.begin() == d.end(), "no element");
	vf_assert(d.capacity() == o.cap, "the storage is kept");
	end(d);
}
static inline T* base(T* p) { return reinterpret_cast<T*>(reinterpret_cast<char*>(p) - vf_offset(p)); }
VF_HINT(aligned, T* first) { return vf_offset(first) % sizeof(T) == 0; }
// copy, move, swap
template<bool A>
static inline void copies()
{
	BEGIN(A);
	uint64_t i = vf_any_u64("i");
	{
		D c(d);
		vf_assert(c.size() == o.n && d.size() == o.n, "size of the copy and of the original");
		if (i < o.n) {
			vf_assert(c[i] == at(o, i), "the copy holds the elements");
			vf_assert(d[i] == at(o, i), "the original keeps its elements");
			c[i] = 77;
			vf_assert(d[i] == at(o, i), "the copy is independent");
		}
		valid(c, "");
		vf_assert(vf_live_heap() == g_live + (o.cap ? 1 : 0) + (o.n ? 1 : 0), "one block per devector");
	}
	end(d);
}
VF_PROOF(copy) { copies<true>(); }
VF_PROOF(copy_empty) { copies<false>(); }
VF_PROOF(move_construct)
{
	BEGIN(true);
	uint64_t i = vf_any_u64("i");
	{
		D c(std::move(d));
		vf_assert(c.size() == o.n && d.size() == 0 && d.capacity() == 0, "the elements are transferred");
		if (i < o.n)
			vf_assert(c[i] == at(o, i), "the elements keep value and order");
		vf_assert(c.capacity() == o.cap, "the storage is transferred");
		valid(c, "");
		vf_assert(vf_live_heap() == g_live + 1, "one block");
	}
	end(d);
}
template<bool A, bool B, int MOVE>
static inline void assignment()
{
	g_live = vf_live_heap();
	Slot sa, sb;
	D &a = sa.d, &b = sb.d;
	Old oa = any_valid(a, "cap a", "start a", "size a", "storage a", A), ob = any_valid(b, "cap b", "start b", "size b", "storage b", B);
	uint64_t i = vf_any_u64("i");
	if (MOVE == 0) {
		vf_term(oa.n);
		vf_term(ob.n);
		vf_hint(VF_FN(aligned));
		vf_require_term(true);
		vf_cut_loops(true);
		a = b;
		vf_cut_loops(false);
	}
	else if (MOVE == 1)
		a = std::move(b);
	else
		a.swap(b);
	vf_assert(a.size() == ob.n, "size of the target");
	if (i < ob.n)
		vf_assert(a[i] == at(ob, i), "the target holds the elements of the source");
	if (MOVE == 0) {
		vf_assert(b.size() == ob.n, "size of the source");
		if (i < ob.n)
			vf_assert(b[i] == at(ob, i), "the source keeps its elements");
	}
	else if (MOVE == 2) {
		vf_assert(b.size() == oa.n, "size of the other devector");
		if (i < oa.n)
			vf_assert(b[i] == at(oa, i), "the other devector holds the elements of the first");
	}
	valid(a, "");
	valid(b, "");
	vf_assert(vf_live_heap() == g_live + (a.capacity() ? 1 : 0) + (b.capacity() ? 1 : 0), "one block per devector");
	a.~D();
	b.~D();
	vf_assert(vf_live_heap() == g_live, "destruction releases the storage");
	vf_cover("end");
}
// resizing: the loops that construct elements are cut; g_q1, g_q2 are the places of an arbitrary element i in the two cases
// (in the storage as it is, or in a new storage)
static uint64_t g_q1, g_q2;
static T g_v;
static bool g_new;
VF_HINT(filled1, T* first)
{
	bool in = vf::both(g_new, vf_offset(first) > g_q1 * sizeof(T));
	return vf::imp(in, base(first)[ix(in, g_q1)] == g_v);
}
VF_HINT(filled2, T* first)
{
	bool in = vf::both(g_new, vf_offset(first) > g_q2 * sizeof(T));
	return vf::imp(in, base(first)[ix(in, g_q2)] == g_v);
}
template<bool A, bool FRONT, int HOW>
static inline void resize()
{
	BEGIN(A);
	uint64_t n = vf_size("new size", 0, MAXCAP), i = vf_any_u64("i");
	T x = HOW ? vf::any<T>("x") : 0;
	vf_assume(i < n);
	g_v = x;
	g_new = FRONT || i >= o.n;
	if (FRONT) {
		g_q1 = o.s + o.n - n + i;
		g_q2 = i;
	}
	else {
		g_q1 = o.s + i;
		g_q2 = i;
	}
	vf_term(n);
	vf_term(o.n);
	vf_term(o.s);
	vf_hint(VF_FN(aligned));
	vf_hint(VF_FN(filled1));
	vf_hint(VF_FN(filled2));
	vf_require_term(true);
	vf_cut_loops(true);
	if (FRONT) {
		if (HOW)
			d.resize_front(n, x);
		else
			d.resize_front(n);
	}
	else {
		if (HOW)
			d.resize(n, x);
		else
			d.resize(n);
	}
	vf_cut_loops(false);
	vf_assert(d.size() == n, "size");
	if (!FRONT)
		vf_assert(d[i] == (i < o.n ? at(o, i) : x), "the elements are kept, new ones are copies of the value");
	else if (n >= o.n)
		vf_assert(d[i] == (i < n - o.n ? x : at(o, i - (n - o.n))), "the elements are kept, new ones are copies of the value");
	else
		vf_assert(d[i] == at(o, i + (o.n - n)), "the last elements are kept");
	end(d);
}
VF_PROOF(resize) { resize<true, false, 0>(); }
VF_PROOF(resize_value) { resize<true, false, 1>(); }
VF_PROOF(resize_empty) { resize<false, false, 1>(); }
VF_PROOF(resize_front) { resize<true, true, 0>(); }
VF_PROOF(resize_front_value) { resize<true, true, 1>(); }
VF_PROOF(resize_front_empty) { resize<false, true, 1>(); }
// reserve_back, reserve_front: p and q are the places of an arbitrary element before and after
static uint64_t g_p, g_q, g_d;
static uint64_t g_lo, g_hi;
VF_HINT(in_source, T* p) { return vf::both(vf_offset(p) >= g_lo, vf_offset(p) <= g_hi); }
VF_HINT(after_source, T* p) { return vf_offset(p) >= g_hi; }
VF_HINT(same_distance, T* a, T* b) { return vf_offset(a) - vf_offset(b) == g_d; }
VF_HINT(moved_left, T* dst)
{
	bool in = vf_offset(dst) > g_q * sizeof(T);
	return vf::imp(in, base(dst)[ix(in, g_q)] == g_v);
}
VF_HINT(kept_left, T* src)
{
	bool in = vf_offset(src) <= g_p * sizeof(T);
	return vf::imp(in, base(src)[ix(in, g_p)] == g_v);
}
VF_HINT(moved_right, T* dst)
{
	bool in = vf_offset(dst) <= g_q * sizeof(T);
	return vf::imp(in, base(dst)[ix(in, g_q)] == g_v);
}
VF_HINT(kept_right, T* src)
{
	bool in = vf_offset(src) > g_p * sizeof(T);
	return vf::imp(in, base(src)[ix(in, g_p)] == g_v);
}
template<bool A, bool FRONT>
static inline void reserve_side()
{
	BEGIN(A);
	uint64_t c = vf_size("c", 0, MAXCAP), i = vf_any_u64("i");
	if (A) {
		vf_assume(i < o.n);
		g_p = o.s + i;
		g_q = (FRONT ? c : o.cap - c - o.n) + i;
		g_d = (g_p - g_q) * sizeof(T);
		g_v = at(o, i);
		vf_term(o.n);
		vf_hint(VF_FN(aligned));
		g_lo = o.s * sizeof(T);
		g_hi = (o.s + o.n) * sizeof(T);
		vf_hint(VF_FN(in_source));
		vf_hint(VF_FN(same_distance));
		if (FRONT) {
			vf_hint(VF_FN(after_source));
			vf_hint(VF_FN(moved_right));
			vf_hint(VF_FN(kept_right));
		}
		else {
			vf_hint(VF_FN(moved_left));
			vf_hint(VF_FN(kept_left));
		}
		vf_generic(false);
		vf_require_term(true);
		vf_cut_loops(true);
	}
	if (FRONT)
		d.reserve_front(c);
	else
		d.reserve_back(c);
	vf_cut_loops(false);
	vf_assert((FRONT ? d.front_capacity() : d.back_capacity()) >= c, "the capacity is reserved");
	vf_assert(d.size() == o.n, "size");
	if (A)
		vf_assert(d[i] == at(o, i), "the elements keep value and order");
	end(d);
}
VF_PROOF(reserve_back) { reserve_side<true, false>(); }
VF_PROOF(reserve_front) { reserve_side<true, true>(); }
VF_PROOF(reserve_back_empty) { reserve_side<false, false>(); }
VF_PROOF(reserve_front_empty) { reserve_side<false, true>(); }
// assignment of a range of another container
template<bool A>
static inline void assign_range()
{
	BEGIN(A);
	uint64_t n = vf_size("n", 1, MAXCAP), k = vf_size("k", 0, MAXCAP), i = vf_any_u64("i");
	vf_assume(k <= n && i < n - k);
	const T* src = vf::heap<T>(n, "source");
	const T* old = vf::snap(src);
	vf_term(o.n);
	vf_term(n - k);
	vf_hint(VF_FN(aligned));
	vf_require_term(true);
	vf_cut_loops(true);
	d.assign(src + k, src + n);
	vf_cut_loops(false);
	vf_assert(d.size() == n - k, "size");
	vf_assert(d[i] == old[k + i], "the elements are those of the range");
	++g_live;
	end(d);
}
VF_PROOF(assign_range) { assign_range<true>(); }
VF_PROOF(assign_range_empty) { assign_range<false>(); }
VF_PROOF(copy_assign) { assignment<true, true, 0>(); }
VF_PROOF(copy_assign_to_empty) { assignment<false, true, 0>(); }
VF_PROOF(copy_assign_empty) { assignment<true, false, 0>(); }
VF_PROOF(move_assign) { assignment<true, true, 1>(); }
VF_PROOF(move_assign_to_empty) { assignment<false, true, 1>(); }
VF_PROOF(swap) { assignment<true, true, 2>(); }
VF_PROOF(swap_empty) { assignment<true, false, 2>(); }
