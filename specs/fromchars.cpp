// Contracts of integer from_chars for texts of any length: spaces, sign, digits [d,e), then a non-digit or the end.
// g_fold is the specification function: g_fold[i] is the value denoted by the digits [d,i) modulo the width of the type.
#include "vf.hpp"
#include <seq/charconv.hpp>
using namespace seq;
static uint64_t g_n, g_s, g_d, g_e, g_base;
static const void* g_buf;
static const void* g_fold;
static inline bool space(int c) { return bool((int)(c == ' ') | (int)((c >= 9) & (c <= 13))); }
// guarded index (the verifier leaves reads outside of the ghost arrays unconstrained)
static inline uint64_t ix(bool c, uint64_t i) { return vf_native() ? (c ? i : 0) : i; }
static inline unsigned digit(int c)
{
	if (g_base <= 10)
		return (unsigned)c - '0';
	unsigned a = (unsigned)c - '0', b = ((unsigned)c | 32u) - 'a';
	return a <= 9u ? a : b <= 25u ? b + 10u : 99u;
}
template<class C> static inline int ch(uint64_t i) { return (int)((const C*)g_buf)[i]; }
#define FORMS(C, U)                                                                                                                                                                                    \
	VF_HINT(fact_##C##U, uint64_t i)                                                                                                                                                                \
	{                                                                                                                                                                                              \
		bool in = vf::both(i >= g_d, i < g_e), sp = i < g_s;                                                                                                                                    \
		uint64_t j = ix(in, i);                                                                                                                                                                       \
		bool a = vf::imp(sp, space(ch<C>(ix(sp, i))));                                                                                                                                         \
		bool b = vf::imp(in, digit(ch<C>(j)) < (unsigned)g_base);                                                                                                                               \
		bool c = vf::imp(in, ((const U*)g_fold)[ix(in, j + 1)] == (U)(((const U*)g_fold)[j] * (U)g_base + (U)digit(ch<C>(j))));                                                               \
		return vf::both(a, vf::both(b, c));                                                                                                                                                     \
	}                                                                                                                                                                                              \
	VF_HINT(inv_##C##U, const C* p, U x, int first, uint32_t st)                                                                                                                                    \
	{                                                                                                                                                                                              \
		uint64_t o = vf_offset(p) / sizeof(C);                                                                                                                                                  \
		bool in = vf::both(vf_offset(p) % sizeof(C) == 0, vf::both(o > g_d, o <= g_e + 1)), ok = st == 0;                                                                                                                                \
		bool nd = vf::imp(o - 1 == g_e, digit(first) >= (unsigned)g_base);                                                                                                                          \
		bool a = vf::both(vf::both(vf::both(in, nd), vf_hintfn_fact_##C##U(ix(in, o - 1))), vf::both(x == ((const U*)g_fold)[ix(in, o - 1)], first == ch<C>(ix(in, o - 1))));                                                                              \
		bool b = vf::both(vf::both(vf_offset(p) == g_n * sizeof(C), g_e == g_n), vf::both(x == ((const U*)g_fold)[g_n], first == -1));                                                                                \
		return vf::both(vf::imp(ok, a), vf::imp(!ok, vf::both(b, st == 22)));                                                                                                                   \
	}                                                                                                                                                                                              \
	VF_HINT(iv2_##C##U, const C* p, U x, unsigned val, uint32_t st)                                                                                                                                \
	{                                                                                                                                                                                              \
		uint64_t o = vf_offset(p) / sizeof(C);                                                                                                                                                  \
		bool in = vf::both(vf_offset(p) % sizeof(C) == 0, vf::both(o > g_d, o <= g_e + 1)), ok = st == 0;                                                                                                                                \
		bool nd = vf::both(vf::imp(o - 1 == g_e, val >= (unsigned)g_base), vf::imp(o - 1 < g_e, val == digit(ch<C>(ix(in, o - 1)))));                                                          \
		bool a = vf::both(vf::both(vf::both(in, nd), vf_hintfn_fact_##C##U(ix(in, o - 1))), x == ((const U*)g_fold)[ix(in, o - 1)]);                                                           \
		bool b = vf::both(vf::both(vf_offset(p) == g_n * sizeof(C), g_e == g_n), vf::both(x == ((const U*)g_fold)[g_n], val >= (unsigned)g_base));                                                                    \
		return vf::both(vf::imp(ok, a), vf::imp(!ok, vf::both(b, st == 22)));                                                                                                                   \
	}                                                                                                                                                                                              \
	VF_HINT(spc_##C##U, const C* p, int first, uint32_t st)                                                                                                                                        \
	{                                                                                                                                                                                              \
		uint64_t o = vf_offset(p) / sizeof(C);                                                                                                                                                  \
		bool in = vf::both(vf_offset(p) % sizeof(C) == 0, vf::both(o > 0, o <= g_s + 1));                                                                                                                                                \
		return vf::both(vf::both(in, vf_hintfn_fact_##C##U(ix(in, o - 1))), vf::both(first == ch<C>(ix(in, o - 1)), st == 0));                                                                                                                 \
	} \
	VF_HINT(sp2_##C##U, const C* p, C first, uint32_t st)                                                                                                                                        \
	{                                                                                                                                                                                              \
		uint64_t o = vf_offset(p) / sizeof(C);                                                                                                                                                  \
		bool in = vf::both(vf_offset(p) % sizeof(C) == 0, vf::both(o > 0, o <= g_s + 1));                                                                                                                                                \
		return vf::both(vf::both(in, vf_hintfn_fact_##C##U(ix(in, o - 1))), vf::both((int)first == ch<C>(ix(in, o - 1)), st == 0));                                                                                                                 \
	}
typedef char32_t c32;
template<class T, class C>
static inline void text(unsigned base, const void* fact, const void* inv, const void* iv2, const void* spc, const void* sp2)
{
	using U = std::make_unsigned_t<T>;
	uint64_t n = vf_size("n", 1, 1ull << 40);
	C* b = vf::array<C>(n, "text");
	U* fold = vf::array<U>(n + 1, "fold");
	uint64_t s = vf_size("spaces", 0, n), d = vf_size("first digit", 0, n), e = vf_size("end", 0, n);
	vf_assume(vf::both(vf::both(s <= d, d <= s + 1), vf::both(d < e, e <= n)));
	g_n = n; g_s = s; g_d = d; g_e = e; g_base = base; g_buf = b; g_fold = fold;
	const bool sg = d > s;
	if (vf_native() && sg && b[s] != (C)'-')
		b[s] = (C)'+';
	const C c = b[sg ? s : 0];
	vf_assume(vf::imp(sg, (int)(c == (C)'+') | ((int)(c == (C)'-') & (int)std::is_signed_v<T>)));
	const bool neg = vf::both(sg, c == (C)'-');
	const C z = b[e < n ? e : 0];
	vf_assume(vf::imp(e < n, digit((int)z) >= base));
	if (base == 16) // "0x" prefix: another contract
		vf_assume(vf::imp(vf::both(e - d == 1, e < n), ((int)z | 32) != 'x'));
	vf_assume(fold[d] == 0);
	if (vf_native()) { // make the text well formed and compute the specification function
		for (uint64_t i = 0; i < s; ++i)
			if (!space((int)b[i]))
				b[i] = " \t\n\v\f\r"[(unsigned)b[i] % 6];
		fold[d] = 0;
		for (uint64_t i = d; i < e; ++i) {
			if (digit((int)b[i]) >= base)
				b[i] = (C) "0123456789abcdefghijklmnopqrstuvwxyz"[(unsigned)b[i] % base];
			fold[i + 1] = (U)(fold[i] * (U)base + (U)digit((int)b[i]));
		}
	}
	vf_on_read(b, fact, n);
	vf_term(n); vf_term(s); vf_term(e);
	vf_hint(inv);
	if (base != 10)
		vf_hint(iv2);
	if (sizeof(C) < 4)
		vf_hint(sp2);
	vf_hint(spc);
	vf_generic(false);
	vf_require_term(true);
	vf_unroll(8);
	vf_cut_loops(true);
	T v;
	auto r = from_chars(b, b + n, v, (int)base);
	vf_cut_loops(false);
	vf_assert(r.ec == std::errc(), "a well formed text is accepted");
	vf_assert(r.ptr == b + e, "the longest run of digits is consumed");
	vf_assert((U)v == (neg ? (U)(0 - fold[e]) : fold[e]), "the value is the one denoted by sign and digits");
	vf_cover("read");
}
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef wchar_t wc;
FORMS(char, u64)
FORMS(char, u32)
FORMS(wc, u32)
FORMS(char, u8)
#define F(C, U) VF_FN(fact_##C##U), VF_FN(inv_##C##U), VF_FN(iv2_##C##U), VF_FN(spc_##C##U), VF_FN(sp2_##C##U)
VF_PROOF(i32_10) { text<int, char>(10, F(char, u32)); }
VF_PROOF(u64_10) { text<u64, char>(10, F(char, u64)); }
VF_PROOF(i64_10) { text<int64_t, char>(10, F(char, u64)); }
VF_PROOF(i32_10_wide) { text<int, wc>(10, F(wc, u32)); }
#ifdef VF_LONG
VF_PROOF(u32_16) { text<u32, char>(16, F(char, u32)); }
#endif
VF_PROOF(i64_2) { text<int64_t, char>(2, F(char, u64)); }
VF_PROOF(i8_10) { text<signed char, char>(10, F(char, u8)); }
VF_PROOF(i32_36) { text<int, char>(36, F(char, u32)); }
