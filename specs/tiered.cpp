// Contracts of the addressing of seq/tiered_vector.hpp: random access, position to (bucket, index), iterator movements. The container
// is arbitrary: any number of buckets, any bucket capacity (power of two up to SEQ_MAX_BUCKET_SIZE), a first and a last bucket of any
// size, every other one full (the invariant of the container), each bucket beginning anywhere in its storage.
// Only the buckets an access is entitled to look at exist: the first one and the ones that hold the positions involved.
#include "vf.hpp"
#include <seq/tiered_vector.hpp>
using namespace seq;
#ifndef VF_T
#define VF_T uint32_t
#endif
typedef VF_T T;
typedef tiered_vector<T> TV;
typedef TV::bucket_manager M;
typedef TV::const_iterator CI;
typedef TV::iterator I;
typedef detail::CircularBuffer<T> CB;
typedef M::StoreBucketType SB;
static_assert(sizeof(SB) == 8, "bucket reference");
struct RawM
{
	SB* data;
	SB* start;
	SB* end;
	size_t capacity;
	size_t size;
	int bucket_size, bucket_size1, bucket_bits;
};
static_assert(sizeof(RawM) == sizeof(M), "manager layout");
static uint64_t g_cap, g_n, g_first, g_last, g_size, g_bits;
static SB* g_buckets;
union Slot
{
	M m;
	Slot() {}
	~Slot() {}
};
static inline uint64_t size_of(uint64_t b) { return b == 0 ? g_first : b == g_n - 1 ? g_last : g_cap; }
static inline CB* bucket(uint64_t b, const char* name)
{
	CB* c = static_cast<CB*>(vf_heap(CB::start_data + g_cap * sizeof(T), 4, name));
	c->size = int(size_of(b));
	c->max_size_ = int(g_cap);
	c->max_size1 = int(g_cap - 1);
	uint64_t s = vf_size("begin", 0, 1 << 16);
	vf_assume(s < g_cap);
	c->begin = int(s);
	g_buckets[b].bucket = c;
	return c;
}
static inline void any_manager(M& m)
{
	RawM& r = reinterpret_cast<RawM&>(m);
	g_bits = vf_size("log2 capacity", 1, 16);
	g_cap = uint64_t(1) << g_bits;
	g_n = vf_size("buckets", 1, uint64_t(1) << 30);
	g_first = vf_size("first", 1, 1 << 16);
	g_last = vf_size("last", 1, 1 << 16);
	vf_assume(g_first <= g_cap && g_last <= g_cap);
	if (g_n == 1)
		g_size = g_first;
	else
		g_size = g_first + (g_n - 2) * g_cap + g_last;
	g_buckets = static_cast<SB*>(vf_heap(g_n * 8, 8, "buckets"));
	r.data = r.start = g_buckets;
	r.end = g_buckets + g_n;
	r.capacity = g_n;
	r.size = g_size;
	r.bucket_size = int(g_cap);
	r.bucket_size1 = int(g_cap - 1);
	r.bucket_bits = int(g_bits);
}
// an arbitrary position of the container: index k of bucket b
struct Place
{
	uint64_t b, k, pos;
	CB* c;
};
static inline uint64_t pos_of(uint64_t b, uint64_t k) { return b == 0 ? k : g_first + ((b - 1) << g_bits) + k; }
static inline Place any_place(const char* name)
{
	Place p;
	p.b = vf_size("b", 0, uint64_t(1) << 30);
	p.k = vf_size("k", 0, 1 << 16);
	vf_assume(p.b < g_n);
	vf_assume(p.k < size_of(p.b));
	p.pos = pos_of(p.b, p.k);
	CB* f = bucket(0, "first bucket");
	p.c = p.b == 0 ? f : bucket(p.b, name);
	return p;
}
static inline T* element(const Place& p) { return p.c->buffer() + ((uint64_t(p.c->begin) + p.k) & (g_cap - 1)); }
VF_PROOF(random_access)
{
	Slot s;
	any_manager(s.m);
	Place p = any_place("bucket");
	vf_assert(p.pos < g_size, "the places are the positions");
	vf_assert(&s.m.at(p.pos) == element(p) && &static_cast<const M&>(s.m).at(p.pos) == element(p), "random access gives the element");
	auto x = s.m.indexes(p.pos);
	vf_assert(uint64_t(x.first) == p.b && uint64_t(x.second) == p.k, "bucket and index of a position");
	vf_assert(s.m.bucket_index(p.pos) == p.b && s.m.bucket_index(p.pos, g_first) == p.b, "bucket of a position");
	vf_assert(uint64_t(s.m.bucket_pos(p.pos)) == p.k && uint64_t(s.m.bucket_pos(p.pos, g_first)) == p.k, "index of a position");
	vf_cover("end");
}
// every position is a place
VF_PROOF(positions)
{
	Slot s;
	any_manager(s.m);
	bucket(0, "first bucket");
	uint64_t pos = vf_any_u64("pos");
	vf_assume(pos < g_size);
	auto x = s.m.indexes(pos);
	vf_assert(x.first >= 0 && uint64_t(x.first) < g_n && x.second >= 0 && uint64_t(x.second) < size_of(uint64_t(x.first)), "every position is in a bucket");
	vf_assert(pos_of(uint64_t(x.first), uint64_t(x.second)) == pos, "positions and places are in bijection");
	vf_cover("end");
}
// Iterators. A valid iterator holds a position in [0, size] and, before the end, the place of its position.
static inline CI any_iterator(M& m, const Place& p)
{
	CI it;
	it.mgr = &m;
	it.pos = p.pos;
	it.indexes = { int(p.b), int(p.k) };
	return it;
}
static inline void valid(const CI& it, uint64_t pos)
{
	vf_assert(it.pos == pos, "position of the iterator");
	if (pos == g_size)
		vf_assert(it.indexes.first == 0 && it.indexes.second == 0, "the end has no place");
	else {
		vf_assert(it.indexes.first >= 0 && uint64_t(it.indexes.first) < g_n && it.indexes.second >= 0 && uint64_t(it.indexes.second) < size_of(uint64_t(it.indexes.first)), "the iterator is in a bucket");
		vf_assert(pos_of(uint64_t(it.indexes.first), uint64_t(it.indexes.second)) == pos, "the place of the iterator is the one of its position");
	}
}
VF_PROOF(iterator_begin_end)
{
	Slot s;
	any_manager(s.m);
	bucket(0, "first bucket");
	valid(CI(&s.m, 0), 0);
	valid(CI(&s.m), g_size);
	uint64_t pos = vf_any_u64("pos");
	vf_assume(pos <= g_size);
	valid(CI(&s.m, pos, 0), pos);
	vf_cover("end");
}
VF_PROOF(iterator_deref)
{
	Slot s;
	any_manager(s.m);
	Place p = any_place("bucket");
	CI it = any_iterator(s.m, p);
	vf_assert(&*it == element(p) && it.operator->() == element(p), "an iterator designates the element at its position");
	vf_cover("end");
}
VF_PROOF(iterator_increment)
{
	Slot s;
	any_manager(s.m);
	Place p = any_place("bucket");
	CI it = any_iterator(s.m, p), a = it++;
	vf_assert(a.pos == p.pos && uint64_t(a.indexes.first) == p.b && uint64_t(a.indexes.second) == p.k, "the postfix increment gives the iterator as it was");
	valid(it, p.pos + 1);
	vf_cover("end");
}
VF_PROOF(iterator_decrement)
{
	Slot s;
	any_manager(s.m);
	Place p = any_place("bucket");
	vf_assume(p.pos > 0);
	CI it = any_iterator(s.m, p);
	--it;
	valid(it, p.pos - 1);
	vf_cover("end");
}
VF_PROOF(iterator_decrement_end)
{
	Slot s;
	any_manager(s.m);
	bucket(0, "first bucket");
	CI it(&s.m);
	--it;
	valid(it, g_size - 1);
	vf_cover("end");
}
template<bool MINUS>
static inline void iterator_move()
{
	Slot s;
	any_manager(s.m);
	Place p = any_place("bucket");
	uint64_t target = vf_any_u64("target");
	vf_assume(target <= g_size);
	CI it = any_iterator(s.m, p);
	if (MINUS)
		it -= std::ptrdiff_t(p.pos - target);
	else
		it += std::ptrdiff_t(target - p.pos);
	valid(it, target);
	vf_cover("end");
}
VF_PROOF(iterator_add) { iterator_move<false>(); }
VF_PROOF(iterator_sub) { iterator_move<true>(); }
VF_PROOF(iterator_move_end)
{
	Slot s;
	any_manager(s.m);
	bucket(0, "first bucket");
	uint64_t target = vf_any_u64("target");
	vf_assume(target <= g_size);
	CI it(&s.m);
	it += std::ptrdiff_t(target - g_size);
	valid(it, target);
	vf_cover("end");
}
VF_PROOF(iterator_index)
{
	Slot s;
	any_manager(s.m);
	Place p = any_place("bucket"), q;
	q.b = vf_size("b2", 0, uint64_t(1) << 30);
	q.k = vf_size("k2", 0, 1 << 16);
	vf_assume(q.b < g_n);
	vf_assume(q.k < size_of(q.b));
	q.pos = pos_of(q.b, q.k);
	if (q.b == p.b)
		q.c = p.c;
	else if (q.b == 0)
		q.c = g_buckets[0].bucket;
	else
		q.c = bucket(q.b, "other bucket");
	CI it = any_iterator(s.m, p);
	vf_assert(&it[std::ptrdiff_t(q.pos - p.pos)] == element(q), "indexing an iterator gives the element at that distance");
	vf_cover("end");
}
// Iterators used by the algorithms that see the buckets as full blocks.
typedef detail::tvector_ra_iterator<M> RA;
VF_PROOF(block_iterator)
{
	Slot s;
	any_manager(s.m);
	uint64_t a = vf_any_u64("a"), b = vf_any_u64("b");
	vf_assume(a <= g_n << g_bits);
	vf_assume(b <= g_n << g_bits);
	RA x(&s.m, g_buckets + (a >> g_bits), int(a & (g_cap - 1))), y(&s.m, g_buckets + (b >> g_bits), int(b & (g_cap - 1)));
	vf_assert(y - x == std::ptrdiff_t(b - a), "distance");
	vf_assert((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "order");
	RA z = x;
	z += std::ptrdiff_t(b - a);
	vf_assert(z == y, "moving by the distance");
	if (a < g_n << g_bits) {
		RA n = x;
		++n;
		vf_assert(n - x == 1 && n > x, "increment");
		--n;
		vf_assert(n == x, "decrement");
	}
	vf_cover("end");
}
