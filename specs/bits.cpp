// Contracts of seq/bits.hpp: every postcondition is stated against a naive mathematical definition, for all inputs.
#include "vf.hpp"
#include <seq/bits.hpp>
using namespace seq;
static inline unsigned naive_pop(uint64_t x, unsigned w)
{
	unsigned r = 0;
	for (unsigned i = 0; i < w; ++i)
		r += (unsigned)((x >> i) & 1u);
	return r;
}
static inline uint64_t low(unsigned n) { return n >= 64 ? ~0ull : ((1ull << n) - 1); }

VF_PROOF(popcnt64)
{
	uint64_t x = vf_any_u64("x");
	vf_assert(popcnt64(x) == naive_pop(x, 64), "popcnt64 counts the set bits");
	vf_assert(detail::popcount64(x) == naive_pop(x, 64), "the portable 64 bits population count counts the set bits");
}
VF_PROOF(popcnt32)
{
	uint32_t x = vf_any_u32("x");
	vf_assert(popcnt32(x) == naive_pop(x, 32), "popcnt32 counts the set bits");
	vf_assert(detail::popcount32(x) == naive_pop(x, 32), "the portable 32 bits population count counts the set bits");
}
VF_PROOF(popcnt16)
{
	uint16_t x = vf_any_u16("x");
	vf_assert(popcnt16(x) == naive_pop(x, 16), "popcnt16 counts the set bits");
}
VF_PROOF(popcnt8)
{
	uint8_t x = vf_any_u8("x");
	vf_assert(popcnt8(x) == naive_pop(x, 8), "popcnt8 counts the set bits");
}
template<class T>
static inline void fwd(T x, unsigned r)
{
	unsigned w = sizeof(T) * 8;
	vf_assert(r < w, "forward scan gives a bit index");
	vf_assert(((uint64_t)x >> r) & 1, "forward scan gives a set bit");
	vf_assert((((uint64_t)x) & low(r)) == 0, "no lower bit is set");
}
template<class T>
static inline void rev(T x, unsigned r)
{
	unsigned w = sizeof(T) * 8;
	vf_assert(r < w, "reverse scan gives a bit index");
	vf_assert(((uint64_t)x >> r) & 1, "reverse scan gives a set bit");
	vf_assert((((uint64_t)x >> r) >> 1) == 0, "no higher bit is set");
}
VF_PROOF(scan8)
{
	uint8_t x = vf_any_u8("x");
	vf_assume(x != 0);
	fwd<uint8_t>(x, bit_scan_forward_8(x));
	rev<uint8_t>(x, bit_scan_reverse_8(x));
}
VF_PROOF(scan32)
{
	uint32_t x = vf_any_u32("x");
	vf_assume(x != 0);
	fwd<uint32_t>(x, bit_scan_forward_32(x));
	rev<uint32_t>(x, bit_scan_reverse_32(x));
}
VF_PROOF(scan64)
{
	uint64_t x = vf_any_u64("x");
	vf_assume(x != 0);
	fwd<uint64_t>(x, bit_scan_forward_64(x));
	rev<uint64_t>(x, bit_scan_reverse_64(x));
	fwd<uint64_t>(x, bit_scan_forward((size_t)x));
	rev<uint64_t>(x, bit_scan_reverse((size_t)x));
}
VF_PROOF(scan8_zero)
{
	vf_assert(bit_scan_forward_8(0) == 8, "forward scan of an empty byte");
	vf_assert(bit_scan_reverse_8(0) == 8, "reverse scan of an empty byte");
}
template<class T>
static inline void digits(T x)
{
	unsigned n = 1;
	uint64_t p = 10; // 10^n
	for (int i = 0; i < 19; ++i) {
		if ((uint64_t)x >= p)
			++n;
		if (i < 18)
			p *= 10;
	}
	vf_assert(count_digits_base_10<T>(x) == n, "number of decimal digits");
}
VF_PROOF(digits8) { digits<uint8_t>(vf_any_u8("x")); }
VF_PROOF(digits16) { digits<uint16_t>(vf_any_u16("x")); }
VF_PROOF(digits32) { digits<uint32_t>(vf_any_u32("x")); }
VF_PROOF(digits64) { digits<uint64_t>(vf_any_u64("x")); }

static uint64_t g_x;
static uint8_t g_rank[65]; // ghost: g_rank[p] = number of set bits of g_x below p
VF_HINT(nth, uint64_t value, uint32_t pos) { return pos < 64 && ((g_x >> pos) & 1) && value == (g_x & ~low(pos)); }
VF_HINT(nthrank, uint32_t pos, uint32_t i) { return pos >= 64 || i == g_rank[pos]; }
VF_PROOF(nth_bit_set)
{
	uint64_t x = vf_any_u64("x");
	uint32_t n = vf_any_u32("n");
	g_x = x;
	g_rank[0] = 0;
	for (unsigned i = 0; i < 64; ++i)
		g_rank[i + 1] = (uint8_t)(g_rank[i] + ((x >> i) & 1));
	vf_hint(VF_FN(nth));
	vf_hint(VF_FN(nthrank));
	vf_cut_loops(true);
	unsigned r = nth_bit_set(x, n);
	vf_cut_loops(false);
	vf_assert(r <= 64, "index or 64");
	if (r == 64)
		vf_assert(g_rank[64] <= n, "64 only when there is no such bit");
	else {
		vf_assert((x >> r) & 1, "the bit is set");
		vf_assert(g_rank[r] == n, "exactly n set bits below");
	}
}
template<unsigned N>
static inline void consec(uint64_t x)
{
	unsigned r = consecutive_N_bits<N>((size_t)x);
	uint64_t mask = low(N);
	unsigned first = (unsigned)-1;
	for (unsigned i = 0; i < 64; ++i) {
		unsigned k = 63 - i;
		if (k + N <= 64 && ((x >> k) & mask) == mask)
			first = k;
	}
	vf_assert(r == first, "first position of N consecutive set bits");
}
VF_PROOF(consecutive_bits1) { consec<1>(vf_any_u64("x")); }
VF_PROOF(consecutive_bits2) { consec<2>(vf_any_u64("x")); }
VF_PROOF(consecutive_bits3) { consec<3>(vf_any_u64("x")); }
VF_PROOF(consecutive_bits5) { consec<5>(vf_any_u64("x")); }
VF_PROOF(consecutive_bits8) { consec<8>(vf_any_u64("x")); }
VF_PROOF(consecutive_bits17) { consec<17>(vf_any_u64("x")); }
VF_PROOF(consecutive_bits63) { consec<63>(vf_any_u64("x")); }
VF_PROOF(consecutive_bits64) { consec<64>(vf_any_u64("x")); }

static inline uint64_t rev_bytes(uint64_t x, unsigned n)
{
	uint64_t r = 0;
	for (unsigned i = 0; i < n; ++i)
		r |= ((x >> (8 * i)) & 0xff) << (8 * (n - 1 - i));
	return r;
}
VF_PROOF(byte_swap)
{
	uint64_t x = vf_any_u64("x");
	vf_assert(byte_swap_64(x) == rev_bytes(x, 8), "byte_swap_64 reverses the bytes");
	vf_assert(byte_swap_32((uint32_t)x) == (uint32_t)rev_bytes((uint32_t)x, 4), "byte_swap_32 reverses the bytes");
	vf_assert(byte_swap_16((uint16_t)x) == (uint16_t)rev_bytes((uint16_t)x, 2), "byte_swap_16 reverses the bytes");
}
template<class T>
static inline void revbits(T x)
{
	using U = std::make_unsigned_t<T>;
	U r = (U)reverse_bits<T>(x);
	unsigned w = sizeof(T) * 8;
	uint64_t e = 0;
	for (unsigned i = 0; i < w; ++i)
		e |= (((uint64_t)(U)x >> i) & 1) << (w - 1 - i);
	vf_assert((uint64_t)r == e, "reverse_bits mirrors the bit pattern");
}
VF_PROOF(reverse_bits_u8) { revbits<uint8_t>(vf_any_u8("x")); }
VF_PROOF(reverse_bits_i8) { revbits<int8_t>((int8_t)vf_any_u8("x")); }
VF_PROOF(reverse_bits_u16) { revbits<uint16_t>(vf_any_u16("x")); }
VF_PROOF(reverse_bits_i16) { revbits<int16_t>((int16_t)vf_any_u16("x")); }
VF_PROOF(reverse_bits_u32) { revbits<uint32_t>(vf_any_u32("x")); }
VF_PROOF(reverse_bits_i32) { revbits<int32_t>((int32_t)vf_any_u32("x")); }
VF_PROOF(reverse_bits_u64) { revbits<uint64_t>(vf_any_u64("x")); }
VF_PROOF(reverse_bits_i64) { revbits<int64_t>((int64_t)vf_any_u64("x")); }

// reading and writing touch exactly the bytes of the value, at any alignment, in the stated order
template<class F>
static inline void wr(F f, unsigned n, bool be, const char*)
{
	unsigned char* b = vf::array<unsigned char>(n + 9, "buf");
	unsigned char* s = vf::snap(b);
	uint64_t v = vf_any_u64("v");
	uint64_t o = vf_size("o", 0, 9);
	f(b + o, v);
	uint64_t k = vf_size("k", 0, n + 8);
	if (k < o || k >= o + n)
		vf_assert(b[k] == s[k], "bytes outside the value are not written");
	else
		vf_assert(b[k] == (unsigned char)(v >> (8 * (be ? n - 1 - (k - o) : k - o))), "byte order of the written value");
}
VF_PROOF(write_LE_16) { wr([](void* p, uint64_t v) { write_LE_16(p, (uint16_t)v); }, 2, false, ""); }
VF_PROOF(write_LE_32) { wr([](void* p, uint64_t v) { write_LE_32(p, (uint32_t)v); }, 4, false, ""); }
VF_PROOF(write_LE_64) { wr([](void* p, uint64_t v) { write_LE_64(p, v); }, 8, false, ""); }
VF_PROOF(write_BE_64) { wr([](void* p, uint64_t v) { write_BE_64(p, v); }, 8, true, ""); }
VF_PROOF(write_size_t) { wr([](void* p, uint64_t v) { write_size_t(p, (size_t)v); }, 8, false, ""); }
template<class F>
static inline void rdx(F f, unsigned n, bool be)
{
	unsigned char* b = vf::array<unsigned char>(n + 9, "buf");
	uint64_t o = vf_size("o", 0, 9);
	uint64_t e = 0;
	for (unsigned i = 0; i < n; ++i)
		e |= (uint64_t)b[o + i] << (8 * (be ? n - 1 - i : i));
	vf_assert((uint64_t)f(b + o) == e, "value read in the stated byte order");
}
VF_PROOF(read_LE_16) { rdx([](const void* p) { return read_LE_16(p); }, 2, false); }
VF_PROOF(read_LE_32) { rdx([](const void* p) { return read_LE_32(p); }, 4, false); }
VF_PROOF(read_LE_64) { rdx([](const void* p) { return read_LE_64(p); }, 8, false); }
VF_PROOF(read_BE_16) { rdx([](const void* p) { return read_BE_16(p); }, 2, true); }
VF_PROOF(read_BE_32) { rdx([](const void* p) { return read_BE_32(p); }, 4, true); }
VF_PROOF(read_BE_64) { rdx([](const void* p) { return read_BE_64(p); }, 8, true); }
VF_PROOF(read_16) { rdx([](const void* p) { return read_16(p); }, 2, false); }
VF_PROOF(read_32) { rdx([](const void* p) { return read_32(p); }, 4, false); }
VF_PROOF(read_64) { rdx([](const void* p) { return read_64(p); }, 8, false); }
VF_PROOF(read_ptr_t) { rdx([](const void* p) { return (uint64_t)read_ptr_t(p); }, 8, false); }
VF_PROOF(read_size_t) { rdx([](const void* p) { return (uint64_t)read_size_t(p); }, 8, false); }
VF_PROOF(read_LE_size_t) { rdx([](const void* p) { return (uint64_t)read_LE_size_t(p); }, 8, false); }
VF_PROOF(read_BE_size_t) { rdx([](const void* p) { return (uint64_t)read_BE_size_t(p); }, 8, true); }

template<uint64_t S>
static inline void sbs()
{
	vf_assert(static_bit_scan_reverse<S>::value == (size_t)(63 - __builtin_clzll(S)), "compile time reverse scan");
}
VF_PROOF(static_scan)
{
	sbs<1>(); sbs<2>(); sbs<3>(); sbs<4>(); sbs<7>(); sbs<8>(); sbs<64>(); sbs<65>(); sbs<1ull << 40>(); sbs<~0ull>();
}
VF_PROOF(umul)
{
	uint64_t a = vf_any_u64("a"), b = vf_any_u64("b");
	uint64_t lo, hi;
	umul128(a, b, &lo, &hi);
	unsigned __int128 r = (unsigned __int128)a * b;
	vf_assert(lo == (uint64_t)r && hi == (uint64_t)(r >> 64), "full 64x64 product");
}
VF_PROOF(handmade_alloc)
{
	uint64_t n = vf_size("n", 1, 1ull << 40);
	uint64_t sh = vf_size("shift", 0, 8);
	uint64_t live = vf_live_heap();
	uint64_t al = 1ull << sh;
	void* p = detail::handmade_aligned_malloc(n, al);
	vf_assert(((uintptr_t)p & (al - 1)) == 0, "the block has the requested alignment");
	((char*)p)[0] = 1;
	uint64_t k = vf_any_u64("k");
	vf_assume(k < n);
	((char*)p)[k] = 2; // every byte is usable (bounds obligation)
	detail::handmade_aligned_free(p);
	vf_assert(vf_live_heap() == live, "freed");
}
VF_PROOF(aligned_alloc)
{
	uint64_t n = vf_size("n", 1, 1ull << 40);
	uint64_t live = vf_live_heap();
	void* p = aligned_malloc(n, 64);
	vf_assert(((uintptr_t)p & 63) == 0, "the block has the requested alignment");
	uint64_t k = vf_any_u64("k");
	vf_assume(k < n);
	((char*)p)[k] = 2;
	aligned_free(p);
	vf_assert(vf_live_heap() == live, "freed");
}
