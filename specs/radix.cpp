// Contracts of the keys and leaves of seq/internal/radix_tree.hpp.
#include "vf.hpp"
#include <string>
#include <tuple>
#include <type_traits>
#include <seq/internal/radix_tree.hpp>
using namespace seq;
typedef uint64_t u64;
typedef uint8_t u8;
template<class T>
static inline radix_detail::RadixHasher<T> key_of(T v)
{
	return radix_detail::RadixHasher<T>{}.hash(v);
}
// the radix key of an arithmetic value: order preserving and injective, any group of its bits is read exactly
template<class T>
static inline bool nan_of(T v)
{
	if constexpr (std::is_floating_point_v<T>)
		return v != v;
	return false;
}
template<class T>
static inline void arith_key()
{
	T a = vf::any<T>("a"), b = vf::any<T>("b");
	vf_assume(!nan_of(a) && !nan_of(b));
	if constexpr (std::is_floating_point_v<T>)
		vf_assume(a != 0 || b != 0); // 0.0 and -0.0 are equal with different bits (not claimed)
	auto ha = key_of(a), hb = key_of(b);
	vf_assert((u64(ha.value) < u64(hb.value)) == (a < b), "keys have the order of the values");
	if (!std::is_floating_point_v<T>)
		vf_assert((u64(ha.value) == u64(hb.value)) == (a == b), "different values have different keys");
	vf_assert(radix_detail::RadixHasher<T>::less(a, b) == (a < b) && ha.equal(a, b) == (a == b), "comparison of the values");
	constexpr u64 bits = sizeof(T) * 8;
	vf_assert(ha.get_size() == bits, "number of bits of the key");
	u64 start = vf_any_u64("start"), count = vf_any_u64("count");
	vf_assume(start < bits && count <= 32 && count <= bits - start);
	u64 want = count ? ((u64(ha.value) << (64 - bits)) << start) >> (64 - count) : 0;
	vf_assert(ha.n_bits(start, count) == want, "group of bits of the key");
	u64 n = vf_any_u64("bits");
	vf_assume(n >= 1 && n <= bits - start && (sizeof(T) >= 4 || n <= 32));
	u64 wa = ((u64(ha.value) << (64 - bits)) << start) >> (64 - n), wb = ((u64(hb.value) << (64 - bits)) << start) >> (64 - n);
	if constexpr (radix_detail::RadixHasher<T>::has_fast_check_prefix && std::is_integral_v<T>)
		vf_assert(ha.check_prefix(ha, hb, start, n) == (wa == wb), "keys have the same prefix");
	vf_assert(vf::imp(ha.value == hb.value, ha.tiny_hash() == hb.tiny_hash()), "equal keys have the same small hash");
	vf_cover("end");
}
VF_PROOF(key_u8) { arith_key<u8>(); }
VF_PROOF(key_i8) { arith_key<signed char>(); }
VF_PROOF(key_u16) { arith_key<uint16_t>(); }
VF_PROOF(key_i16) { arith_key<int16_t>(); }
VF_PROOF(key_u32) { arith_key<uint32_t>(); }
VF_PROOF(key_i32) { arith_key<int32_t>(); }
VF_PROOF(key_u64) { arith_key<u64>(); }
VF_PROOF(key_i64) { arith_key<int64_t>(); }
VF_PROOF(key_float) { arith_key<float>(); }
VF_PROOF(key_double) { arith_key<double>(); }
// groups of bits of the key of a string: the bits of the characters, zeros after the end
template<class C, class S>
static inline void string_bits()
{
	typedef std::make_unsigned_t<C> U;
	constexpr u64 w = sizeof(C) * 8;
	u64 n = vf_size("length", 0, u64(1) << 40);
	C* d = vf::array<C>(n, "text");
	radix_detail::RadixHasher<S> h;
	h.data = d;
	h.size = n;
	vf_assert(h.get_size() == n * w, "number of bits of the key");
	u64 start = vf_any_u64("start"), count = vf_any_u64("count"), k = vf_any_u64("k");
	vf_assume(start <= n * w + 64 && count <= 32 && k < count);
	unsigned r = h.n_bits(start, count);
	u64 pos = start + k, at = pos / w;
	unsigned bit = 0;
	if (at < n)
		bit = unsigned(U(d[at]) >> (w - 1 - pos % w)) & 1;
	vf_assert(((r >> (count - 1 - k)) & 1) == bit, "bit of the key");
	vf_assert(count == 32 || r >> count == 0, "no other bit");
	vf_assert(h.n_bits(start, 0) == 0, "no bits");
	vf_cover("end");
}
VF_PROOF(bits_char) { string_bits<char, std::string>(); }
VF_PROOF(bits_char16) { string_bits<char16_t, std::u16string>(); }
VF_PROOF(bits_char32) { string_bits<char32_t, std::u32string>(); }
// order of strings of any length: decided by the first difference (ghost), the shorter one first
static u64 g_d;
template<class C>
static const C* g_a;
template<class C>
static const C* g_b;
VF_HINT(same8, u64 i) { return vf::imp(i < g_d, g_a<char>[i] == g_b<char>[i]); }
VF_HINT(same16, u64 i) { return vf::imp(i < g_d, g_a<char16_t>[i] == g_b<char16_t>[i]); }
VF_HINT(pos8, const char* v1, const char* v2) { return vf::both(vf_offset(v1) == vf_offset(v2), vf_offset(v1) <= g_d); }
VF_HINT(pos16, u64 i) { return i <= g_d; }
template<class C, class S>
static inline void string_order(bool less, const void* fact, const void* inv)
{
	typedef std::make_unsigned_t<C> U;
	u64 la = vf_size("length of a", 0, u64(1) << 40), lb = vf_size("length of b", 0, u64(1) << 40), l = la < lb ? la : lb;
	if (!less)
		vf_assume(la == lb);
	C *a = vf::array<C>(la, "a"), *b = vf::array<C>(lb, "b");
	g_a<C> = a;
	g_b<C> = b;
	u64 d = vf_size("first difference", 0, l);
	vf_assume(d <= l);
	g_d = d;
	if (d < l)
		vf_assume(a[d] != b[d]);
	if (vf_native())
		for (u64 i = 0; i < d; ++i)
			b[i] = a[i];
	vf_on_read(b, fact, d);
	vf_term(l);
	vf_term(d);
	vf_hint(inv);
	vf_require_term(true);
	vf_unroll(4);
	vf_cut_loops(true);
	typedef radix_detail::RadixHasher<S> H;
	bool r = less ? H::less(a, la, b, lb) : H::equal(a, la, b, lb);
	vf_cut_loops(false);
	if (less)
		vf_assert(r == (d < l ? U(a[d]) < U(b[d]) : la < lb), "lexicographic order");
	else
		vf_assert(r == (d == l), "equality");
	vf_cover("end");
}
VF_PROOF(less_char) { string_order<char, std::string>(true, VF_FN(same8), VF_FN(pos8)); }
VF_PROOF(equal_char) { string_order<char, std::string>(false, VF_FN(same8), VF_FN(pos8)); }
VF_PROOF(less_char16) { string_order<char16_t, std::u16string>(true, VF_FN(same16), VF_FN(pos16)); }
VF_PROOF(equal_char16) { string_order<char16_t, std::u16string>(false, VF_FN(same16), VF_FN(pos16)); }
VF_PROOF(equal_lengths)
{
	char a[4] = {}, b[4] = {};
	u64 la = vf_size("la", 0, 4), lb = vf_size("lb", 0, 4);
	vf_assume(la != lb);
	vf_assert(!radix_detail::RadixHasher<std::string>::equal(a, la, b, lb), "different lengths");
	vf_cover("end");
}
VF_PROOF(movemask)
{
	u64 w = vf_any_u64("word");
	u64 k = vf_any_u64("k");
	vf_assume(k < 8);
	u64 m = radix_detail::movemask8(w);
	vf_assert(((m >> (8 * k)) & 0xff) == (((w >> (8 * k)) & 0xff) == 0 ? 0x80u : 0u), "zero bytes are marked, and they only");
	vf_cover("end");
}
// Leaves: any leaf of any size. The key compares with the elements as a ghost position does.
struct Key0 {};
static const u8* g_node;
static u64 g_values, g_size, g_lo, g_th;
static bool g_has; // the element at g_lo is equal to the key
typedef radix_detail::LeafNode<u64, true> Leaf;
typedef radix_detail::LeafNode<u64, false> ULeaf;
static inline u64 index_of(const u64& e) { return (vf_offset(&e) - g_values) / 8; }
struct Ex
{
	const u64& operator()(const u64& e) const { return e; }
	Key0 operator()(Key0) const { return Key0{}; }
};
struct Eq
{
	bool operator()(const u64& e, Key0) const
	{
		vf_assert(index_of(e) < g_size, "only the elements of the leaf are read");
		return vf::both(g_has, index_of(e) == g_lo);
	}
};
struct Lt
{
	bool operator()(const u64& e, Key0) const
	{
		vf_assert(index_of(e) < g_size, "only the elements of the leaf are read");
		return index_of(e) < g_lo;
	}
	bool operator()(Key0, const u64& e) const { return index_of(e) >= g_lo + g_has; }
	static bool less(const u64& e, Key0 k) { return Lt{}(e, k); }
	static bool less(Key0 k, const u64& e) { return Lt{}(k, e); }
	static bool less(const u64& l, const u64& r) { return l < r; }
};
template<class L>
static inline L* any_leaf(u64 lo, u64 hi, bool full_allowed = true)
{
	u64 cap = u64(8) << vf_pick("log2 of the capacity", 0, 3);
	u64 n = vf_size("size", lo, hi);
	vf_assume(n <= cap && (full_allowed || n < cap));
	u8* b = static_cast<u8*>(vf_heap(8 + cap + cap * 8, 1, "leaf"));
	L* l = reinterpret_cast<L*>(b);
	*l->size() = uint32_t(n);
	*l->capacity() = uint32_t(cap);
	g_node = b;
	g_values = vf_offset(l->values());
	g_size = n;
	vf_assert(g_values == 8 + cap, "values are after the header and the small hashes");
	return l;
}
static unsigned stub_lower_bound(const u64*, unsigned, const Key0&) { return unsigned(g_lo); }
VF_HINT(not_before, uint32_t i) { return vf::imp(g_has, i <= g_lo); }
VF_HINT(mult8, uint32_t i) { return vf::both(i % 8 == 0, i <= g_size); }
VF_HINT(group, uint64_t found, uint32_t i)
{
	return vf::both((found & ~0x8080808080808080ull) == 0, vf::imp(vf::both(g_has, vf::both(g_lo >= i, g_lo < i + 8)), (found >> ((8 * (g_lo - i)) & 63)) & 0x80));
}
VF_HINT(tail, uint64_t found)
{
	u64 c = g_size & ~u64(7);
	return vf::both((found & 0x8080808080808080ull & ((u64(1) << (8 * (g_size - c))) - 1)) == found, vf::imp(vf::both(g_has, g_lo >= c), (found >> ((8 * (g_lo - c)) & 63)) & 0x80));
}
template<class L>
static inline L* find_setup()
{
	L* l = any_leaf<L>(1, 64);
	g_has = vf::any<bool>("present");
	g_lo = vf_size("position", 0, 64);
	vf_assume(g_lo <= g_size - g_has);
	g_th = vf_any_u8("small hash");
	if (g_has)
		vf_assume(l->hashs()[g_lo] == u8(g_th));
	vf_hint(VF_FN(not_before));
	vf_hint(VF_FN(mult8));
	vf_require_term(true);
	vf_unroll(9);
	vf_hint(VF_FN(group));
	vf_hint(VF_FN(tail));
	vf_hint_outer(true);
	vf_cut_loops(true);
	return l;
}
VF_PROOF(leaf_find)
{
	vf_replace("compute_lower_bound", (const void*)&stub_lower_bound);
	Leaf* l = find_setup<Leaf>();
	unsigned r = l->find<Ex, Eq, Lt>(Eq{}, 0, u8(g_th), Key0{});
	vf_cut_loops(false);
	vf_assert(r == (g_has ? unsigned(g_lo) : unsigned(-1)), "a key is found where it is, and not found when it is absent");
	vf_cover("end");
}
VF_PROOF(leaf_find_insert)
{
	vf_replace("compute_lower_bound", (const void*)&stub_lower_bound);
	Leaf* l = find_setup<Leaf>();
	auto r = l->find_insert<true, Ex, Eq, Lt>(Eq{}, 0, u8(g_th), Key0{});
	vf_cut_loops(false);
	vf_assert(r.first == (g_has ? l->values() + g_lo : nullptr), "a key is found where it is, and not found when it is absent");
	if (!g_has)
		vf_assert(r.second == g_lo, "an absent key goes to the position that keeps the order");
	vf_cover("end");
}
VF_PROOF(uleaf_find_insert)
{
	ULeaf* l = find_setup<ULeaf>();
	auto r = l->find_insert<false, Ex, Eq, Lt>(Eq{}, 0, u8(g_th), Key0{});
	vf_cut_loops(false);
	vf_assert(r.first == (g_has ? l->values() + g_lo : nullptr), "a key is found where it is, and not found when it is absent");
	vf_cover("end");
}
// sizes of the blocks
template<class T, bool S>
static inline void layout()
{
	typedef radix_detail::LeafNode<T, S> L;
	unsigned n = vf_any_u32("size");
	vf_assume(n >= 1 && n <= L::max_capacity);
	unsigned c = L::capacity_for_size(n);
	vf_assert(c >= n && c >= L::min_capacity && c <= L::max_capacity, "the capacity has room for the elements");
	unsigned h = L::hash_for_size(n, c);
	vf_assert(h >= L::header_size + c && h < L::header_size + c + alignof(T), "room for the header and the small hashes");
	vf_assert(h % alignof(T) == 0, "values are aligned");
	vf_assert(h + c * sizeof(T) >= L::header_size + (n & ~7u) + 8, "groups of small hashes are read inside of the block");
	vf_cover("end");
}
struct S3
{
	char c[3];
};
struct S24
{
	u64 c[3];
};
struct alignas(16) S16
{
	char c[16];
};
VF_PROOF(layout_1) { layout<char, true>(); }
VF_PROOF(layout_3) { layout<S3, true>(); }
VF_PROOF(layout_8) { layout<u64, true>(); }
VF_PROOF(layout_16) { layout<S16, true>(); }
VF_PROOF(layout_24) { layout<S24, true>(); }
VF_PROOF(ulayout_1) { layout<char, false>(); }
VF_PROOF(ulayout_8) { layout<u64, false>(); }
VF_PROOF(ulayout_24) { layout<S24, false>(); }
// insertion and erasure
struct Dir
{
	using child_ptr = void*;
	using vector_type = int;
};
template<class L>
struct Alloc : radix_detail::NodeAllocator<std::allocator<u64>, u64, Dir, L>
{
	Alloc()
	  : radix_detail::NodeAllocator<std::allocator<u64>, u64, Dir, L>(std::allocator<u64>{})
	{
	}
};
template<class L>
static inline void leaf_insert(bool grow, unsigned lg)
{
	u64 cap = u64(8) << lg, n = grow ? cap : vf_size("size", 1, cap - 1);
	vf_heap_gran(1);
	Alloc<L> al;
	L* l = al.allocate(L::hash_for_size(unsigned(n), unsigned(cap)), unsigned(cap));
	*l->size() = uint32_t(n);
	*l->capacity() = uint32_t(cap);
	u64 pos = L::is_sorted ? vf_size("position", 0, cap) : n;
	vf_assume(pos <= n);
	u64 v = vf_any_u64("value");
	u8 th = vf_any_u8("small hash");
	u64 k = vf_size("k", 0, cap - 1);
	vf_assume(k < n);
	u64 was = l->values()[k];
	u8 hwas = l->hashs()[k];
	vf_unroll(100);
	u64 live = vf_live_heap();
	auto r = l->template insert<Ex, Lt>(al, 0, unsigned(pos), th, radix_detail::EmplacePolicy{}, v);
	L* m = r.first;
	vf_assert(vf_live_heap() == live, "the previous block is given back");
	vf_assert(r.second == pos && *m->size() == n + 1 && *m->capacity() == (grow ? L::capacity_for_size(unsigned(n + 1)) : cap), "position and size");
	vf_assert(vf_obj_size(m) - vf_offset(m) >= 8 + *m->capacity() * 9, "the block has room for the capacity");
	vf_assert(m->values()[pos] == v && m->hashs()[pos] == th, "the element is inserted where it goes");
	u64 to = k < pos ? k : k + 1;
	vf_assert(m->values()[to] == was && m->hashs()[to] == hwas, "the other elements and their small hashes keep their order");
	vf_cover("end");
}
VF_PROOF(insert_8) { leaf_insert<Leaf>(false, 0); }
VF_PROOF(insert_16) { leaf_insert<Leaf>(false, 1); }
VF_PROOF(insert_32) { leaf_insert<Leaf>(false, 2); }
VF_PROOF(insert_64) { leaf_insert<Leaf>(false, 3); }
VF_PROOF(insert_grow_8) { leaf_insert<Leaf>(true, 0); }
VF_PROOF(insert_grow_16) { leaf_insert<Leaf>(true, 1); }
VF_PROOF(insert_grow_32) { leaf_insert<Leaf>(true, 2); }
VF_PROOF(uinsert_64) { leaf_insert<ULeaf>(false, 3); }
VF_PROOF(uinsert_grow_8) { leaf_insert<ULeaf>(true, 0); }
VF_PROOF(uinsert_grow_64) { leaf_insert<ULeaf>(true, 3); }
template<class L>
static inline void leaf_erase(unsigned lg)
{
	u64 cap = u64(8) << lg, n = vf_size("size", cap == 8 ? 1 : cap / 2 + 1, cap);
	vf_heap_gran(1);
	Alloc<L> al;
	L* l = al.allocate(L::hash_for_size(unsigned(n), unsigned(cap)), unsigned(cap));
	*l->size() = uint32_t(n);
	*l->capacity() = uint32_t(cap);
	u64 pos = vf_size("position", 0, cap), k = vf_size("k", 0, cap);
	vf_assume(pos < n && k < n);
	u64 was = l->values()[k];
	u8 hwas = l->hashs()[k];
	u64 live = vf_live_heap();
	L* m = l->erase(al, unsigned(pos));
	if (n == 1) {
		vf_assert(!m && vf_live_heap() == live - 1, "an empty leaf is given back");
		return;
	}
	vf_assert(vf_live_heap() == live, "one block");
	vf_assert(*m->size() == n - 1 && *m->capacity() >= n - 1 && vf_obj_size(m) - vf_offset(m) >= 8 + *m->capacity() * 9, "the block has room for the capacity");
	if (k != pos) {
		u64 to = k < pos ? k : k - 1;
		vf_assert(m->values()[to] == was && m->hashs()[to] == hwas, "the other elements and their small hashes keep their order");
	}
	vf_cover("end");
}
VF_PROOF(erase_8) { leaf_erase<Leaf>(0); }
VF_PROOF(erase_16) { leaf_erase<Leaf>(1); }
VF_PROOF(erase_32) { leaf_erase<Leaf>(2); }
VF_PROOF(erase_64) { leaf_erase<Leaf>(3); }
VF_PROOF(uerase_16) { leaf_erase<ULeaf>(1); }

// failures: the allocation, or the construction of the new element
static bool g_throw;
struct Throwing
{
	template<class T, class A>
	static T* emplace(T* dst, A&& a)
	{
		if (g_throw)
			throw 1;
		return new (dst) T(std::forward<A>(a));
	}
};
template<class L>
static inline void leaf_throw(bool grow, unsigned lg)
{
	u64 cap = u64(8) << lg, n = grow ? cap : vf_size("size", 1, cap - 1);
	vf_heap_gran(1);
	Alloc<L> al;
	L* l = al.allocate(L::hash_for_size(unsigned(n), unsigned(cap)), unsigned(cap));
	*l->size() = uint32_t(n);
	*l->capacity() = uint32_t(cap);
	u64 pos = L::is_sorted ? vf_size("position", 0, cap) : n;
	vf_assume(pos <= n);
	u64 v = vf_any_u64("value"), k = vf_size("k", 0, cap - 1);
	vf_assume(k < n);
	u64 was = l->values()[k];
	u8 hwas = l->hashs()[k];
	vf_unroll(100);
	u64 live = vf_live_heap();
	vf_alloc_may_fail(true);
	g_throw = vf::any<bool>("the constructor throws");
	bool thrown = false;
	try {
		auto r = l->template insert<Ex, Lt>(al, 0, unsigned(pos), u8(3), Throwing{}, v);
		vf_assert(*r.first->size() == n + 1 && !g_throw, "inserted");
		vf_cover("inserted");
	}
	catch (...) {
		thrown = true;
	}
	vf_assert(vf_live_heap() == live, "nothing is leaked");
	if (thrown) {
		vf_assert(*l->size() == n && *l->capacity() == cap && l->values()[k] == was && l->hashs()[k] == hwas, "a failed insertion changes nothing");
		vf_cover("thrown");
	}
}
VF_PROOF(throw_insert_8) { leaf_throw<Leaf>(false, 0); }
VF_PROOF(throw_insert_64) { leaf_throw<Leaf>(false, 3); }
VF_PROOF(throw_grow_8) { leaf_throw<Leaf>(true, 0); }
VF_PROOF(throw_grow_32) { leaf_throw<Leaf>(true, 2); }
VF_PROOF(throw_ugrow_64) { leaf_throw<ULeaf>(true, 3); }
VF_PROOF(throw_uinsert_8) { leaf_throw<ULeaf>(false, 0); }
VF_PROOF(throw_make)
{
	Alloc<Leaf> al;
	vf_heap_gran(1);
	u64 live = vf_live_heap(), v = vf_any_u64("value");
	vf_alloc_may_fail(true);
	g_throw = vf::any<bool>("the constructor throws");
	try {
		auto r = Leaf::make(al, 5, Throwing{}, v);
		vf_assert(r.second == r.first->values() && *r.second == v && *r.first->size() == 1 && r.first->hashs()[0] == 5, "a leaf of one element");
		vf_assert(vf_live_heap() == live + 1, "one block");
		Leaf::destroy(al, r.first);
		vf_cover("made");
	}
	catch (...) {
		vf_cover("thrown");
	}
	vf_assert(vf_live_heap() == live, "nothing is leaked");
}

// hash containers: the radix key is the hash value
struct Hash
{
	using is_avalanching = void;
	u64 operator()(const u64& k) const { return k * 3 + 1; }
};
struct EqualTo
{
	bool operator()(const u64& a, const u64& b) const { return (a ^ b) == 0; }
};
VF_PROOF(hashed_key)
{
	typedef radix_detail::RadixHasherUnordered<u64, Hash, Lt, EqualTo> H;
	u64 a = vf_any_u64("a"), b = vf_any_u64("b"), start = vf_any_u64("start"), count = vf_any_u64("count");
	H h;
	auto k = h.hash(a);
	vf_assert(k.value == Hash{}(a) && k.get_size() == 64, "the radix key is the hash value");
	vf_assert(k.equal(a, b) == (a == b), "keys are compared with the equality of the container");
	vf_assume(start < 64 && count <= 32 && count <= 64 - start);
	vf_assert(k.n_bits(start, count) == (count ? (k.value << start) >> (64 - count) : 0), "group of bits of the key");
	vf_assert(vf::imp(a == b, h.hash(b).value == k.value && h.hash(b).tiny_hash() == k.tiny_hash()), "equal keys have the same radix key and small hash");
	vf_cover("end");
}
