// Contracts of the hash table of seq/ordered_map.hpp (robin hood probing, linear probing when the distances overflow).
// The table is arbitrary: any power of two number of slots, any contents that satisfy the invariant of the table.
#include "vf.hpp"
#include <seq/ordered_map.hpp>
using namespace seq;
typedef uint64_t T;
static uint64_t g_mask, g_hash, g_j, g_dj, g_it, g_addr, g_max;
static bool g_has; // the key is present: at slot j, element g_it
static uint64_t* g_tab;
struct Hash
{
	using is_avalanching = void; // used as it is: any 64 bit value
	size_t operator()(const T&) const { return g_hash; }
};
struct Equal
{
	// at most one element is equal to the key: the one at address g_addr
	bool operator()(const T& a, const T&) const { return vf::both(g_has, reinterpret_cast<uintptr_t>(&a) == g_addr); }
};
typedef std::allocator<T> Al;
typedef detail::SparseFlatNodeHashTable<T, T, Hash, Equal, Al> H;
typedef H::node_type RN;
typedef detail::list_chunk<T> C;
static_assert(sizeof(RN) == 8, "slot");
union Slot
{
	H h;
	Slot() {}
	~Slot() {}
};
static const uint64_t IT = (uint64_t(1) << 48) - 1;
static inline int64_t dist_of(uint64_t v) { return int8_t(v >> 48); }
static inline uint64_t small(uint64_t h) { return h >> 56 ? h >> 56 : 1; }
static inline uint64_t address_of(uint64_t it) { return (it & ~uint64_t(C::count - 1)) + offsetof(C, storage) + (it & (C::count - 1)) * sizeof(T); }
static inline uint64_t from_home(uint64_t i) { return (i - g_hash) & g_mask; }
VF_PROOF(slot)
{
	uint64_t it = vf_any_u64("it");
	vf_assume(it <= IT && it >= C::count);
	uint8_t h = vf::any<uint8_t>("hash");
	int16_t d = int16_t(vf_size("dist", 0, 127)), e = int16_t(vf_size("dist2", 0, 127));
	RN n(h, d, it);
	vf_assert(n.hash() == h && n.distance() == d && n.as_iter() == it && n.is_same(it) && !n.null(), "a slot gives back what it was made of");
	vf_assert(reinterpret_cast<uint64_t>(n.node()) + n.pos() == it && n.pos() < C::count && reinterpret_cast<uint64_t>(n.node()) % C::count == 0, "chunk and position");
	uint64_t o = vf_any_u64("other");
	vf_assert(n.is_same(o) == (o == it), "identity of an element");
	n.set_distance(e);
	vf_assert(n.hash() == h && n.distance() == e && n.as_iter() == it, "changing the distance changes nothing else");
	n.empty();
	vf_assert(n.distance() == -1 && n.null() && n.hash() == 0 && !n.is_same(it), "an empty slot");
	RN t(h, d, it);
	t.empty_tombstone();
	vf_assert(t.is_tombstone() && t.null() && t.hash() == 0 && t.distance() == 127 && !t.is_same(it), "a tombstone");
	RN z;
	vf_assert(z.distance() == -1 && z.null() && z.hash() == 0, "a new slot is empty");
	uint64_t full = vf_any_u64("h");
	vf_assert(RN::small_hash(full) == small(full) && RN::small_hash(full) != 0, "partial hash");
	vf_cover("end");
}
// what holds of slot i of a table in robin hood mode
static inline bool slot_ok(uint64_t i)
{
	uint64_t v = g_tab[i], it = v & IT;
	int64_t d = dist_of(v);
	bool used = d >= 0, r = d >= -1 && d <= int64_t(g_max);
	r = vf::both(r, vf::imp(used, vf::both(it >= C::count, v >> 56 != 0)));
	r = vf::both(r, vf::imp(!used, v == uint64_t(0xff) << 48));
	r = vf::both(r, vf::imp(vf::both(used, address_of(it) == g_addr), it == g_it));
	r = vf::both(r, vf::imp(vf::both(g_has, it == g_it), i == g_j));
	r = vf::both(r, vf::imp(vf::both(g_has, i == g_j), vf::both(it == g_it, vf::both(v >> 56 == small(g_hash), vf::both(d == int64_t(g_dj), from_home(i) == g_dj)))));
	// consequence of the order of the distances (lemma `run`)
	return vf::both(r, vf::imp(vf::both(g_has, from_home(i) <= g_dj), d >= int64_t(from_home(i))));
}
static inline bool linear_ok(uint64_t i)
{
	uint64_t v = g_tab[i], it = v & IT;
	int64_t d = dist_of(v);
	bool used = vf::both(d >= 0, d != 127), r = d >= -1;
	r = vf::both(r, vf::imp(used, vf::both(it >= C::count, v >> 56 != 0)));
	r = vf::both(r, vf::imp(d == -1, v == uint64_t(0xff) << 48));
	r = vf::both(r, vf::imp(d == 127, v == uint64_t(127) << 48));
	r = vf::both(r, vf::imp(vf::both(used, address_of(it) == g_addr), it == g_it));
	r = vf::both(r, vf::imp(vf::both(g_has, it == g_it), i == g_j));
	r = vf::both(r, vf::imp(vf::both(g_has, i == g_j), vf::both(it == g_it, vf::both(v >> 56 == small(g_hash), used))));
	return vf::both(r, vf::imp(vf::both(g_has, from_home(i) <= g_dj), d != -1)); // no hole before the element
}
static inline bool ordered(uint64_t i) { return dist_of(g_tab[(i + 1) & g_mask]) <= dist_of(g_tab[i]) + 1; }
VF_HINT(fact_robin, uint64_t i) { return slot_ok(i); }
VF_HINT(fact_linear, uint64_t i) { return linear_ok(i); }
VF_HINT(fact_order, uint64_t i) { return ordered(i); }
static inline void any_table(H& h, bool robin, uint64_t lg0 = 0)
{
	uint64_t lg = lg0 ? lg0 : vf_size("log2 slots", 0, 40);
	g_mask = (uint64_t(1) << lg) - 1;
	g_tab = vf::heap<uint64_t>(g_mask + 1, "slots");
	h.d_buckets = reinterpret_cast<RN*>(g_tab);
	h.d_hash_mask = g_mask;
	h.d_hash_len = lg;
	h.d_next_target = vf_any_u64("next target");
	g_max = robin ? vf_size("max distance", 1, 125) : 126;
	h.d_max_dist = int(g_max);
	h.d_load_factor = 0.6f;
	struct Raw
	{
		H::sequence_type::Data* d;
	};
	reinterpret_cast<Raw&>(h.d_seq).d = static_cast<H::sequence_type::Data*>(vf_heap(sizeof(H::sequence_type::Data), 8, "data"));
	g_hash = vf_any_u64("hash");
	g_it = vf_any_u64("element");
	g_has = vf::any<bool>("present");
	g_j = vf_any_u64("slot");
	vf_assume(g_it >= C::count && g_it <= IT);
	g_addr = address_of(g_it);
	vf_assume(g_j <= g_mask);
	g_dj = from_home(g_j);
	if (robin && g_has)
		vf_assume(g_dj <= g_max);
}
static inline uint64_t idx(const RN* p) { return vf_offset(p) / 8; }
VF_HINT(at, RN* it, int16_t dist) { return vf::both(vf_offset(it) % 8 == 0, idx(it) == ((g_hash + uint64_t(int64_t(dist))) & g_mask)); }
VF_HINT(range, int16_t dist) { return vf::both(dist >= 0, dist <= int64_t(g_max) + 1); }
VF_HINT(before, int16_t dist) { return vf::imp(g_has, uint64_t(int64_t(dist)) <= g_dj); }
VF_HINT(lat, uint64_t i, uint64_t index) { return index == ((g_hash + i) & g_mask); }
VF_HINT(lrange, uint64_t i) { return i <= g_mask + 1; }
VF_HINT(lbefore, uint64_t i) { return vf::imp(g_has, i <= g_dj); }
template<class I>
static inline void found(H& h, I it)
{
	if (g_has)
		vf_assert(it.as_uint() == g_it, "a key that is present is found");
	else
		vf_assert(it == h.d_seq.end(), "a key that is absent is not found");
	vf_cover("end");
}
VF_PROOF(find)
{
	Slot s;
	any_table(s.h, true);
	vf_on_read(g_tab, VF_FN(fact_robin), g_mask + 1);
	vf_assume(slot_ok(g_j));
	vf_hint(VF_FN(at));
	vf_hint(VF_FN(range));
	vf_hint(VF_FN(before));
	vf_generic(false);
	vf_require_term(true);
	vf_cut_loops(true);
	T key = 0;
	auto it = s.h.find(key);
	vf_cut_loops(false);
	found(s.h, it);
}
VF_PROOF(find_linear)
{
	Slot s;
	any_table(s.h, false);
	vf_on_read(g_tab, VF_FN(fact_linear), g_mask + 1);
	vf_assume(linear_ok(g_j));
	vf_hint(VF_FN(lat));
	vf_hint(VF_FN(lrange));
	vf_hint(VF_FN(lbefore));
	vf_generic(false);
	vf_require_term(true);
	vf_cut_loops(true);
	T key = 0;
	auto it = s.h.find(key);
	vf_cut_loops(false);
	found(s.h, it);
}
// The slot of a position of the sequence is the only one that holds it.
VF_HINT(nbefore, uint64_t index) { return vf::imp(index > g_j, index >= (g_hash & g_mask)); }
VF_HINT(nrange, uint64_t index) { return index <= g_mask + 1; }
VF_PROOF(find_node)
{
	Slot s;
	any_table(s.h, true);
	vf_assume(g_has);
	vf_on_read(g_tab, VF_FN(fact_robin), g_mask + 1);
	vf_assume(slot_ok(g_j));
	H::const_iterator it;
	it.from_uint(g_it);
	vf_hint(VF_FN(nrange));
	vf_generic(false);
	vf_require_term(false);
	vf_cut_loops(true);
	RN* n = s.h.find_node(g_hash, it);
	vf_cut_loops(false);
	vf_assert(n == s.h.d_buckets + g_j, "the slot of an element");
	vf_cover("end");
}
// Removal. p: slot of the removed element, z: a slot that ends the shift (the table always has an empty one), i: an arbitrary slot.
static uint64_t g_p, g_z, g_i, *g_old;
static H* g_table;
static H::sequence_type* g_erased_from;
static uint64_t g_erased;
extern "C" RN* stub_find_node(H* h, size_t hash, const H::const_iterator& it)
{
	vf_assert(hash == g_hash && it.as_uint() == g_it, "the slot of the removed element is looked up");
	return h->d_buckets + g_p;
}
extern "C" H::iterator stub_seq_erase(H::sequence_type* s, H::const_iterator it)
{
	g_erased_from = s;
	g_erased = it.as_uint();
	return H::iterator(it.node, it.pos);
}
static inline uint64_t from_p(uint64_t i) { return (i - g_p) & g_mask; }
static inline uint64_t shifted(uint64_t v) { return (v & ~(uint64_t(0xff) << 48)) | (uint64_t(uint8_t(dist_of(v) - 1)) << 48); }
static inline bool moved(uint64_t q, uint64_t i)
{
	uint64_t now = g_tab[i], old = g_old[i], nxt = g_old[(i + 1) & g_mask];
	return from_p(i) < from_p(q) ? vf::both(now == shifted(nxt), dist_of(nxt) > 0) : now == old;
}
VF_HINT(shift_i, RN* q) { return moved(idx(q), g_i); }
VF_HINT(shift_i1, RN* q) { return moved(idx(q), (g_i + 1) & g_mask); }
VF_HINT(shift_im1, RN* q) { return moved(idx(q), (g_i - 1) & g_mask); }
VF_HINT(shift_z, RN* q) { return vf::both(from_p(idx(q)) < from_p(g_z), g_tab[g_z] == g_old[g_z]); }
VF_HINT(shift_n, RN* q) { return g_tab[(idx(q) + 1) & g_mask] == g_old[(idx(q) + 1) & g_mask]; }
VF_HINT(shift_al, RN* q) { return vf::both(vf_offset(q) % 8 == 0, idx(q) <= g_mask); }
VF_HINT(shift_q, RN* q, RN* n) { return vf::both(vf_offset(n) % 8 == 0, idx(n) == ((idx(q) + 1) & g_mask)); }
VF_HINT(shift_d, RN* n, int16_t d) { return int64_t(d) == dist_of(g_tab[idx(n)]); }
template<bool ROBIN>
static inline void erase(uint64_t lg = 0)
{
	Slot s;
	any_table(s.h, ROBIN, lg);
	vf_assume(g_mask > 0);
	g_p = g_j;
	g_z = vf_any_u64("end of the run");
	g_i = vf_any_u64("i");
	vf_assume(g_z <= g_mask && g_z != g_p && g_i <= g_mask);
	g_old = static_cast<uint64_t*>(vf_snapshot(g_tab));
	vf_assume(dist_of(g_old[g_z]) <= 0);
	uint64_t i = g_i, n1 = (i + 1) & g_mask, n2 = (i + 2) & g_mask;
	// a slot without element is the empty slot; distances grow by at most one (for the slots in question)
	if (ROBIN) {
		vf_assume(dist_of(g_old[i]) >= -1 && dist_of(g_old[n1]) >= -1 && dist_of(g_old[n2]) >= -1);
		vf_assume(dist_of(g_old[n1]) <= dist_of(g_old[i]) + 1 && dist_of(g_old[n2]) <= dist_of(g_old[n1]) + 1);
	}
	H::const_iterator it;
	it.from_uint(g_it);
	vf_hint(VF_FN(shift_i));
	vf_hint(VF_FN(shift_i1));
	vf_hint(VF_FN(shift_im1));
	vf_hint(VF_FN(shift_z));
	vf_hint(VF_FN(shift_n));
	vf_hint(VF_FN(shift_al));
	vf_hint(VF_FN(shift_q));
	vf_hint(VF_FN(shift_d));
	vf_generic(false);
	vf_require_term(false);
	vf_cut_loops(true);
	s.h.erase_hash(g_hash, it);
	vf_cut_loops(false);
	vf_assert(g_erased_from == &s.h.d_seq && g_erased == g_it, "the element is removed from the sequence");
	uint64_t now = g_tab[i], old = g_old[i], nxt = g_old[n1], next_now = g_tab[n1];
	if (ROBIN) {
		bool kept = now == old, took = vf::both(dist_of(nxt) > 0, now == shifted(nxt)), freed = vf::both(dist_of(nxt) <= 0, now == uint64_t(0xff) << 48);
		vf_assert(kept || took || freed, "a slot keeps its element, takes the one of the next slot or becomes empty");
		if (i == g_p)
			vf_assert(took || freed, "the removed element leaves the table");
		if (n1 != g_p)
			vf_assert(next_now == nxt || took, "the other elements stay in the table");
		if (took && !kept && n1 != g_p)
			vf_assert(next_now != nxt || nxt == shifted(g_old[n2]), "no element is doubled");
		vf_assert(dist_of(next_now) <= dist_of(now) + 1, "the distances still grow by at most one");
	}
	else
		vf_assert(now == (i == g_p ? uint64_t(127) << 48 : old), "the slot becomes a tombstone");
	vf_cover("end");
}
#define STUBS                                                                                                                                                                                                                                    \
	vf_replace("find_node\\(unsigned", (const void*)&stub_find_node);                                                                                                                                                                            \
	vf_replace("^seq::sequence<.*>::erase\\(seq::detail::sequence_const_iterator<seq::sequence<unsigned long, std::allocator<unsigned long>, true> *>\\)", (const void*)&stub_seq_erase)
#define ERASE(lg)                                                                                                                                                                                                                                \
	VF_PROOF(erase_robin_##lg)                                                                                                                                                                                                                   \
	{                                                                                                                                                                                                                                            \
		STUBS;                                                                                                                                                                                                                                   \
		erase<true>(lg);                                                                                                                                                                                                                         \
	}
// one proof per size of the table
ERASE(1)
ERASE(2)
ERASE(3)
ERASE(4)
ERASE(5)
ERASE(6)
ERASE(7)
ERASE(8)
VF_PROOF(erase_linear)
{
	STUBS;
	erase<false>();
}
// Insertion without robin hood: the new element takes the first free slot, after the search has failed.
static uint64_t g_new;
static int g_emplaced;
extern "C" H::iterator stub_emplace(H::sequence_type*, const T*)
{
	++g_emplaced;
	// from here on the table is written: a copy of it (the facts about the slots are attached to the array that is only read)
	uint64_t* copy = vf::heap<uint64_t>(g_mask + 1, "copy");
	memcpy(copy, g_tab, (g_mask + 1) * 8);
	g_table->d_buckets = reinterpret_cast<RN*>(copy);
	H::const_iterator it;
	it.from_uint(g_new);
	return H::iterator(it.node, it.pos);
}
static uint64_t g_f; // the first free slot from the home slot of the key
static inline bool is_free(uint64_t v) { return (dist_of(v) == -1) | (dist_of(v) == 127); }
static inline bool first_free(uint64_t i) { return vf::both(linear_ok(i), vf::imp(from_home(i) < from_home(g_f), !is_free(g_tab[i]))); }
VF_HINT(fact_free, uint64_t i) { return first_free(i); }
VF_HINT(ins_nf, uint64_t i, uint64_t index, uint64_t insert_index)
{
	bool none = insert_index == g_mask + 1;
	return vf::both(none | (insert_index == g_f), vf::imp(from_home(g_f) < i, !none));
}
VF_PROOF(insert_linear)
{
	vf_replace("Policy<.*>::emplace", (const void*)&stub_emplace);
	Slot s;
	any_table(s.h, false);
	g_new = vf_any_u64("new element");
	g_f = vf_any_u64("free slot");
	g_i = vf_any_u64("i");
	vf_assume(g_f <= g_mask && g_i <= g_mask && g_new >= C::count && g_new <= IT);
	vf_assume(is_free(g_tab[g_f]));
	vf_on_read(g_tab, VF_FN(fact_free), g_mask + 1);
	vf_assume(first_free(g_j) && first_free(g_f));
	vf_hint(VF_FN(lat));
	vf_hint(VF_FN(lrange));
	vf_hint(VF_FN(lbefore));
	vf_hint(VF_FN(ins_nf));
	vf_generic(false);
	vf_require_term(true);
	g_table = &s.h;
	vf_cut_loops(true);
	T key = 0;
	auto r = s.h.insert_linear(detail::InsertPolicy<detail::Anywhere>{}, key);
	vf_cut_loops(false);
	uint64_t got = r.first.as_uint();
	if (g_has) {
		vf_assert(!r.second && got == g_it && g_emplaced == 0, "a present key is returned, nothing changes");
	}
	else {
		vf_assert(r.second && got == g_new && g_emplaced == 1, "an absent key is inserted");
		uint64_t now = reinterpret_cast<uint64_t*>(s.h.d_buckets)[g_i], old = g_tab[g_i];
		vf_assert(g_i == g_f || now == old, "the other slots do not change");
		uint64_t put = reinterpret_cast<uint64_t*>(s.h.d_buckets)[g_f];
		vf_assert((put & IT) == g_new && put >> 56 == small(g_hash), "the new element takes the first free slot: there is no hole before it");
		vf_assert(dist_of(put) == (g_f == (g_hash & g_mask) ? 0 : 126), "the slot is used");
	}
	vf_cover("end");
}
// Lemma: distances that grow by at most one from a slot to the next give the property of the run from the home slot to the element
VF_HINT(run_t, uint64_t t) { return vf::both(t <= g_dj, dist_of(g_tab[(g_hash + t) & g_mask]) >= int64_t(t)); }
VF_PROOF(run)
{
	Slot s;
	any_table(s.h, true);
	g_has = true;
	vf_assume(g_dj <= g_max);
	vf_on_read(g_tab, VF_FN(fact_order), g_mask + 1);
	vf_assume(dist_of(g_tab[g_j]) == int64_t(g_dj)); // the distance is the one to the home slot
	uint64_t u = vf_size("u", 0, 126);
	vf_assume(u <= g_dj);
	vf_hint(VF_FN(run_t));
	vf_term(u);
	vf_require_term(true);
	vf_cut_loops(true);
	uint64_t t = g_dj;
	while (t != u) {
		volatile uint8_t x = uint8_t(g_tab[(g_hash + t - 1) & g_mask]); // instantiates the order
		(void)x;
		--t;
	}
	vf_cut_loops(false);
	vf_assert(dist_of(g_tab[(g_hash + u) & g_mask]) >= int64_t(u), "no slot from the home to the element stops the search");
	vf_cover("end");
}
