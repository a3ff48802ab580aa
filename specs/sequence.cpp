// Contracts of the chunk operations and iterators of seq/sequence.hpp. The sequence is arbitrary: any number of chunks, any occupation
// of the chunks, any order of the list of partially free chunks. Only the neighbourhood of the operation exists in memory: the end node,
// the chunk the operation works on, its neighbours in the list of chunks and in the list of free chunks. Every other link leads to an
// inaccessible object, so an operation that is proved here reads and writes the neighbourhood only, whatever the rest of the sequence.
#include "vf.hpp"
#include <seq/sequence.hpp>
using namespace seq;
#ifndef VF_PAD
#define VF_PAD 0
#endif
struct Pod
{
	uint64_t v;
#if VF_PAD > 0
	uint64_t pad[VF_PAD];
#endif
};
typedef Pod T;
#ifndef VF_ALIGN
#define VF_ALIGN false
#endif
typedef sequence<T, std::allocator<T>, VF_ALIGN> S;
typedef S::Data D;
typedef detail::list_chunk<T> C;
typedef detail::base_list_chunk<T> B;
typedef S::const_iterator CI;
static constexpr int64_t COUNT = int64_t(C::count);
static constexpr uint64_t FULL = C::full;
struct Raw
{
	D* d;
};
union Slot
{
	S s;
	Slot() {}
	~Slot() {}
};
// what is known of a node of the neighbourhood
struct Node
{
	B* p; // null: not there
	B *prev, *next, *pf, *nf;
	uint64_t used;
	int64_t index;
	int start, end;
	T* storage; // snapshot of the elements
};
enum
{
	E,
	M,
	P,
	N,
	F,
	G,
	NODES
};
static Node w[NODES];
static D* d;
static B* far_away;
static uint64_t g_size, g_new;
static int64_t g_at; // position of the new element of M, -1: none
static inline uint64_t bit(int64_t i) { return uint64_t(1) << (i & 63); }
static inline uint64_t below(int64_t i) { return i >= 64 ? ~uint64_t(0) : bit(i & 63) - 1; }
static inline bool wf(uint64_t used, int64_t start, int64_t end)
{
	return bool(int(start >= 0) & int(start < end) & int(end <= COUNT) & int(used >> (start & 63) & 1) & int(used >> (end - 1) & 1) & int((used & below(start)) == 0) & int((used & ~below(end)) == 0));
}
static inline void new_node(int i, const char* name, int fullness)
{
	Node& n = w[i];
	C* c = static_cast<C*>(vf_heap(sizeof(C), 8, name));
	n.p = c;
	n.used = vf_any_u64("used");
	n.start = int(vf_size("start", 0, 63));
	n.end = int(vf_size("end", 1, 64));
	vf_assume(n.start < n.end && n.end <= COUNT);
	vf_assume(wf(n.used, n.start, n.end));
	if (fullness == 1)
		vf_assume(n.used == FULL);
	if (fullness == 0)
		vf_assume(n.used != FULL);
	n.index = int64_t(vf_any_u64("index"));
	vf_assume(n.index > -(int64_t(1) << 60) && n.index < int64_t(1) << 60);
	n.prev = n.next = far_away;
	n.pf = n.nf = far_away;
}
static inline void any_end()
{
	far_away = static_cast<B*>(vf_heap(1, 1, "elsewhere"));
	D* m = static_cast<D*>(vf_heap(sizeof(D), 8, "data"));
	d = m;
	g_size = vf_size("size", 1, uint64_t(1) << 56);
	Node& e = w[E];
	e.p = &d->end;
	e.prev = e.next = e.pf = e.nf = far_away;
	e.used = FULL;
	e.start = e.end = 0;
	e.index = LLONG_MAX;
}
static inline void store(Slot& s)
{
	reinterpret_cast<Raw&>(s).d = d;
	d->chunks = vf_any_u64("chunks");
	d->size = g_size;
	for (int i = 0; i < NODES; ++i)
		if (w[i].p) {
			Node& n = w[i];
			B* b = n.p;
			b->prev = n.prev, b->next = n.next, b->prev_free = n.pf, b->next_free = n.nf;
			b->used = n.used, b->node_index = n.index, b->start = n.start, b->end = n.end;
			if (i != E)
				n.storage = reinterpret_cast<T*>(reinterpret_cast<char*>(vf_snapshot(b)) + (reinterpret_cast<char*>(static_cast<C*>(b)->buffer()) - reinterpret_cast<char*>(b)));
		}
}
// the whole neighbourhood is as described by w (k: an arbitrary element)
static inline void check(uint64_t k)
{
	vf_assert(d->size == g_size, "size");
	for (int i = 0; i < NODES; ++i)
		if (w[i].p) {
			Node& n = w[i];
			B* b = n.p;
			vf_assert(b->prev == n.prev && b->next == n.next, "order of the chunks");
			vf_assert(b->prev_free == n.pf && b->next_free == n.nf, "list of the partially free chunks");
			vf_assert(b->used == n.used, "occupied positions");
			vf_assert(b->node_index == n.index, "index of the chunk");
			vf_assert(b->start == n.start && b->end == n.end, "bounds of the occupied positions");
			if (i != E) {
				vf_assert(wf(n.used, n.start, n.end), "chunk invariant");
				{
					uint64_t now = static_cast<C*>(b)->buffer()[k].v, old = n.storage[k].v;
					vf_assert(vf::imp(n.used >> k & 1, vf::both(i == M, int64_t(k) == g_at) ? now == g_new : now == old), "elements keep their value and their place");
				}
			}
		}
}
static inline void link(int a, int b) { w[a].next = w[b].p, w[b].prev = w[a].p; }
static inline void link_free(int a, int b) { w[a].nf = w[b].p, w[b].pf = w[a].p; }
static inline uint64_t choice(const char* n, uint64_t last) { return vf_pick(n, 0, last); }
// A neighbour of M in the list of chunks: the end node or a chunk.
static inline int neighbour(int which, bool end)
{
	if (end)
		return E;
	new_node(which, which == P ? "previous chunk" : "next chunk", 2);
	return which;
}
// A neighbour in the list of free chunks: the end node, one of the neighbours in the list of chunks, or another chunk.
static inline int free_neighbour(int fresh, int p, int n, const char* name)
{
	uint64_t c = choice(name, 3);
	if (c == 0)
		return E;
	if (c == 1 && p != E && w[p].used != FULL)
		return p;
	if (c == 2 && n != E && w[n].used != FULL)
		return n;
	new_node(fresh, name, 0);
	return fresh;
}
static int g_p, g_n, g_pf, g_nf;
// M: an arbitrary chunk with its neighbourhood
// front, back: 0 no, 1 yes, 2 either
// mode: 0 full chunk, 1 partially free chunk, 2 either, 3 first of the free list, 4 in the free list but not first
static inline void any_chunk(int front, int back, bool free_list = true, int mode = 2)
{
	for (int i = 0; i < NODES; ++i)
		w[i].p = nullptr;
	any_end();
	g_at = -1;
	new_node(M, "chunk", mode == 0 ? 1 : mode == 2 ? 2 : 0);
	bool first = front == 2 ? choice("is first", 1) == 0 : front, last = back == 2 ? choice("is last", 1) == 0 : back;
	g_p = neighbour(P, first);
	g_n = neighbour(N, last);
	link(g_p, M);
	link(M, g_n);
	// indexes grow along the list
	if (g_p != E)
		vf_assume(w[g_p].index < w[M].index);
	if (g_n != E)
		vf_assume(w[M].index < w[g_n].index);
	for (int i = P; i <= N; ++i)
		if (w[i].p && w[i].used == FULL)
			w[i].pf = w[i].nf = w[E].p; // what full chunks hold
	if (!free_list)
		g_pf = g_nf = E; // its links are not looked at
	else if (w[M].used != FULL) {
		g_pf = mode == 3 ? E : free_neighbour(F, g_p, g_n, "previous free");
		if (mode == 4)
			vf_assume(g_pf != E);
		g_nf = free_neighbour(G, g_p, g_n, "next free");
		vf_assume(g_pf != g_nf || g_pf == E);
		link_free(g_pf, M);
		link_free(M, g_nf);
	}
	else {
		w[M].pf = w[M].nf = w[E].p;
		g_pf = E;
		g_nf = free_neighbour(G, g_p, g_n, "first free");
		link_free(E, g_nf);
	}
}
static inline void unlink()
{
	// M leaves both lists; a full chunk enters the free list first
	link(g_p, g_n);
	link_free(g_pf, g_nf);
	w[M].p = nullptr;
}
static inline T any_value()
{
	T x;
	memset(&x, 0, sizeof(x));
	x.v = vf_any_u64("x");
	return x;
}
// expected state after the insertion of a value in M at position i
static inline void inserted(int64_t i, uint64_t value)
{
	w[M].used |= bit(i);
	if (i < w[M].start)
		w[M].start = int(i);
	if (i >= w[M].end)
		w[M].end = int(i) + 1;
	if (w[M].used == FULL) {
		link_free(g_pf, g_nf);
		w[M].pf = w[M].nf = w[E].p;
	}
	g_at = i;
	g_new = value;
	++g_size;
}
static inline void erased(int64_t i)
{
	bool was_full = w[M].used == FULL;
	w[M].used &= ~bit(i);
	if (w[M].used == 0)
		unlink();
	else {
		if (was_full)
			link_free(E, M), link_free(M, g_nf);
		// the bounds are the ones the invariant states
		w[M].start = w[M].p->start;
		w[M].end = w[M].p->end;
	}
	--g_size;
}
static inline bool no_used_between(uint64_t used, int64_t a, int64_t b) { return (used & below(b) & ~below(a)) == 0; }
// push at an end when the end chunk has room there
template<bool FRONT>
static inline void push_room()
{
	any_chunk(FRONT ? 1 : 2, FRONT ? 2 : 1);
	vf_assume(FRONT ? w[M].start > 0 : w[M].end < COUNT);
	Slot s;
	store(s);
	T x = any_value();
	uint64_t k = vf_size("k", 0, COUNT - 1), heap = vf_live_heap();
	int64_t i = FRONT ? w[M].start - 1 : w[M].end;
	auto it = FRONT ? s.s.emplace_front_iter(x) : s.s.emplace_back_iter(x);
	inserted(i, x.v);
	check(k);
	vf_assert(it.node == w[M].p && it.pos == i && it->v == x.v, "the iterator designates the new element");
	vf_assert(vf_live_heap() == heap, "nothing is allocated");
	vf_cover("end");
}
VF_PROOF(push_back_room) { push_room<false>(); }
VF_PROOF(push_front_room) { push_room<true>(); }
// push at an end when the end chunk has no room there, or there is no chunk
template<bool FRONT>
static inline void push_chunk(bool empty)
{
	if (empty) {
		for (int i = 0; i < NODES; ++i)
			w[i].p = nullptr;
		any_end();
		g_at = -1;
		g_size = 0;
		w[E].prev = w[E].next = w[E].pf = w[E].nf = w[E].p;
		g_nf = E;
	}
	else {
		any_chunk(FRONT ? 1 : 2, FRONT ? 2 : 1);
		vf_assume(FRONT ? w[M].start == 0 : w[M].end == COUNT);
		if (w[M].used != FULL && g_pf != E) {
			// M is not the first free chunk: another one is
			g_nf = g_pf;
			if (g_pf == F)
				w[E].nf = w[F].p, w[F].pf = w[E].p;
			else
				w[E].nf = w[g_pf].p, w[g_pf].pf = w[E].p;
		}
		else if (w[M].used != FULL)
			g_nf = M;
	}
	Slot s;
	store(s);
	T x = any_value();
	uint64_t k = vf_size("k", 0, COUNT - 1), heap = vf_live_heap();
	uint64_t chunks = d->chunks;
	auto it = FRONT ? s.s.emplace_front_iter(x) : s.s.emplace_back_iter(x);
	vf_assert(vf_live_heap() == heap + 1, "one chunk is allocated");
	vf_assert(d->chunks == chunks + 1, "chunk count");
	B* b = FRONT ? d->end.next : d->end.prev;
	int64_t i = FRONT ? COUNT - 1 : 0;
	vf_assert(it.node == b && it.pos == i && it->v == x.v, "the iterator designates the new element");
	vf_assert(b->used == bit(i) && b->start == i && b->end == i + 1, "the new chunk holds the new element only");
	vf_assert(b->prev == (FRONT || empty ? w[E].p : w[M].p) && b->next == (FRONT && !empty ? w[M].p : w[E].p), "place of the new chunk");
	if (!empty)
		vf_assert(FRONT ? b->node_index < w[M].index : b->node_index > w[M].index, "indexes grow along the list");
	vf_assert(b->node_index < LLONG_MAX, "the end is after the new chunk");
	vf_assert(b->prev_free == w[E].p && b->next_free == w[g_nf].p, "the new chunk is partially free");
	// the rest
	w[E].nf = w[g_nf].pf = b;
	if (FRONT)
		w[E].next = b;
	else
		w[E].prev = b;
	if (empty)
		w[E].next = w[E].prev = b;
	else if (FRONT)
		w[M].prev = b;
	else
		w[M].next = b;
	++g_size;
	check(k);
	vf_cover("end");
}
VF_PROOF(push_back_chunk) { push_chunk<false>(false); }
VF_PROOF(push_front_chunk) { push_chunk<true>(false); }
VF_PROOF(push_back_empty) { push_chunk<false>(true); }
VF_PROOF(push_front_empty) { push_chunk<true>(true); }
// insertion anywhere: into the first free chunk
VF_PROOF(insert_free)
{
	any_chunk(2, 2, true, 3);
	Slot s;
	store(s);
	T x = any_value();
	uint64_t k = vf_size("k", 0, COUNT - 1), heap = vf_live_heap();
	auto it = s.s.insert(x);
	vf_assert(it.node == w[M].p, "the element goes to the first free chunk");
	vf_assert(it.pos >= 0 && it.pos < COUNT && !(w[M].used >> it.pos & 1), "at a position that was free");
	inserted(it.pos, x.v);
	check(k);
	vf_assert(it->v == x.v, "the iterator designates the new element");
	vf_assert(vf_live_heap() == heap, "nothing is allocated");
	vf_cover("end");
}
template<int FROM> // 0 pop_front, 1 pop_back, 2 erase
static inline void remove_one(int front, int back, int mode = 2)
{
	any_chunk(front, back, true, mode);
	Slot s;
	store(s);
	uint64_t k = vf_size("k", 0, COUNT - 1), heap = vf_live_heap(), chunks = d->chunks;
	int64_t i = FROM == 0 ? w[M].start : FROM == 1 ? w[M].end - 1 : int64_t(vf_size("pos", 0, COUNT - 1));
	if (FROM == 2)
		vf_assume(w[M].used >> i & 1);
	bool only = w[M].used == bit(i), last = (w[M].used & ~below(i + 1)) == 0;
	B* mp = w[M].p;
	uint64_t used = w[M].used;
	if (FROM == 0)
		s.s.pop_front();
	else if (FROM == 1)
		s.s.pop_back();
	else {
		auto it = s.s.erase(CI(static_cast<C*>(mp), i));
		if (last)
			vf_assert(it.node == w[g_n].p && it.pos == w[g_n].start, "the next element is the first one of the next chunk");
		else
			vf_assert(it.node == mp && it.pos > i && it.pos < COUNT && (used >> it.pos & 1) && no_used_between(used, i + 1, it.pos), "the next element");
	}
	erased(i);
	check(k);
	vf_assert(vf_live_heap() == heap - (only ? 1 : 0) && d->chunks == chunks - (only ? 1 : 0), "a chunk is freed when and only when it is empty");
	vf_cover("end");
}
VF_PROOF(pop_front) { remove_one<0>(1, 2); }
VF_PROOF(pop_back) { remove_one<1>(2, 1); }
VF_PROOF(erase_only) { remove_one<2>(1, 1); }
VF_PROOF(erase_first_full) { remove_one<2>(1, 0, 0); }
VF_PROOF(erase_first_free) { remove_one<2>(1, 0, 1); }
VF_PROOF(erase_last_full) { remove_one<2>(0, 1, 0); }
VF_PROOF(erase_last_free) { remove_one<2>(0, 1, 1); }
VF_PROOF(erase_middle_full) { remove_one<2>(0, 0, 0); }
VF_PROOF(erase_middle_free_first) { remove_one<2>(0, 0, 3); }
VF_PROOF(erase_middle_free_other) { remove_one<2>(0, 0, 4); }
VF_PROOF(iterators)
{
	any_chunk(2, 2, false);
	Slot s;
	store(s);
	uint64_t k = vf_size("k", 0, COUNT - 1);
	int64_t i = int64_t(vf_size("pos", 0, COUNT - 1));
	vf_assume(w[M].used >> i & 1);
	C* m = static_cast<C*>(w[M].p);
	uint64_t used = w[M].used;
	CI it(m, i), a = it, b = it;
	vf_assert(&*it == m->buffer() + i && it.operator->() == m->buffer() + i, "an iterator designates its element");
	++a;
	if ((used & ~below(i + 1)) == 0)
		vf_assert(a.node == w[g_n].p && a.pos == w[g_n].start, "increment: first element of the next chunk");
	else
		vf_assert(a.node == m && a.pos > i && a.pos < COUNT && (used >> a.pos & 1) && no_used_between(used, i + 1, a.pos), "increment: next element of the chunk");
	vf_assert(a > it && it < a && a != it && a >= it && it <= a && !(a < it) && !(a == it), "order of the iterators");
	if (g_p != E || (used & below(i)) != 0) {
		--b;
		if ((used & below(i)) == 0)
			vf_assert(b.node == w[g_p].p && b.pos == w[g_p].end - 1, "decrement: last element of the previous chunk");
		else
			vf_assert(b.node == m && b.pos >= 0 && b.pos < i && (used >> b.pos & 1) && no_used_between(used, b.pos + 1, i), "decrement: previous element of the chunk");
		vf_assert(b < it && it > b && b != it && b <= it && it >= b && !(b > it) && !(b == it), "order of the iterators");
	}
	check(k);
	vf_cover("end");
}
VF_PROOF(ends)
{
	any_chunk(1, 1, false);
	Slot s;
	store(s);
	vf_assert(s.s.begin().node == w[M].p && s.s.begin().pos == w[M].start, "begin");
	CI e = s.s.end();
	vf_assert(e.node == w[E].p && e.pos == 0, "end");
	--e;
	vf_assert(e.node == w[M].p && e.pos == w[M].end - 1, "the last element is before the end");
	vf_assert(&s.s.front() == static_cast<C*>(w[M].p)->buffer() + w[M].start && &s.s.back() == static_cast<C*>(w[M].p)->buffer() + w[M].end - 1, "front and back");
	vf_assert(s.s.size() == g_size && !s.s.empty(), "size");
	vf_cover("end");
}
