// Contracts of seq/internal/binary_search.hpp for ranges of any length: the range is abstract (element k compares with the
// sought value as k compares with a ghost partition point), so the result is the partition point for every sorted range.
#include "vf.hpp"
#include <iterator>
#include <utility>
#include <seq/bits.hpp>
#include <seq/type_traits.hpp>
#include <seq/internal/binary_search.hpp>
static size_t g_n, g_lo, g_hi; // [0,lo) less, [lo,hi) equal, [hi,n) greater
template<size_t SZ>
struct Val
{
	size_t i;
	char pad[SZ];
};
template<>
struct Val<0>
{
	size_t i;
};
template<class V>
struct Iter
{
	using value_type = V;
	using difference_type = std::ptrdiff_t;
	using pointer = V*;
	using reference = V;
	using iterator_category = std::random_access_iterator_tag;
	size_t base;
	size_t operator[](size_t k) const
	{
		vf_assert(base + k < g_n, "only elements of the range are read");
		return base + k;
	}
	Iter& operator+=(size_t k)
	{
		base += k;
		return *this;
	}
	size_t operator-(const Iter& o) const { return base - o.base; }
};
struct Key0 {};
struct Cmp;
struct Less
{
	bool operator()(size_t idx, Key0) const { return idx < g_lo; }
	bool operator()(Key0, size_t idx) const { return idx >= g_hi; }
};
struct Cmp : Less
{
	using comparable = int;
	int compare(size_t idx, Key0) const { return idx < g_lo ? -(int)(idx % 7 + 1) : idx < g_hi ? 0 : (int)(idx % 5 + 1); }
};
VF_HINT(low, uint64_t low, uint64_t size) { return low <= g_lo && size <= g_n && low <= g_n - size && g_lo <= low + size; }
VF_HINT(se, uint64_t s, uint64_t e) { return s <= g_lo && s <= e && e <= g_n && g_lo <= e; }
VF_HINT(se2, uint64_t s, uint64_t e) { return s <= g_lo && s <= e && e <= g_n && g_hi <= e; }
VF_HINT(ex, uint64_t e, bool m) { return !m || (e >= g_lo && e < g_hi); }
VF_HINT(exn, uint64_t e, bool m) { return m || e == g_n || e >= g_hi; }
VF_HINT(lin, uint64_t low) { return low <= g_lo; }
static inline void setup(uint64_t maxn)
{
	g_n = vf_size("n", 0, maxn);
	g_lo = vf_any_u64("lo");
	g_hi = vf_any_u64("hi");
	vf_assume(g_lo <= g_hi && g_hi <= g_n);
	vf_term(g_n);
	vf_require_term(true);
	vf_unroll(8);
	vf_cut_loops(true);
}
static constexpr bool has_exact(const Less&) { return false; }
static constexpr bool has_exact(const Cmp&) { return true; }
template<class Key, size_t SZ, bool Multi, class S, class L>
static inline void lb(uint64_t maxn)
{
	setup(maxn);
	if (has_exact(L{})) {
		vf_hint(Multi ? VF_FN(se) : VF_FN(se2));
		vf_hint(VF_FN(ex));
		vf_hint(VF_FN(exn));
	}
	else
		vf_hint(VF_FN(low)), vf_hint(VF_FN(lin));
	auto r = seq::lower_bound<Multi, Key>(Iter<Val<SZ>>{ 0 }, (S)g_n, Key0{}, L{});
	vf_cut_loops(false);
	vf_unroll(200);
	if (r.second)
		vf_assert(r.first >= g_lo && r.first < g_hi, "an exact match is an equal element");
	if (Multi || !r.second)
		vf_assert(r.first == g_lo, "position of the first element that is not less");
	if (has_exact(L{}) && g_lo != g_hi)
		vf_assert(r.second, "an equal element is reported as an exact match");
	vf_cover("returned");
}
#define BIG (1ull << 60)
VF_PROOF(arith_4) { lb<int, 0, false, size_t, Less>(BIG); }
VF_PROOF(arith_16) { lb<double, 8, false, size_t, Less>(BIG); }
VF_PROOF(arith_multi) { lb<int, 24, true, size_t, Less>(BIG); }
VF_PROOF(generic) { lb<Key0, 0, false, size_t, Less>(BIG); }
VF_PROOF(generic_multi) { lb<Key0, 0, true, size_t, Less>(BIG); }
VF_PROOF(compare) { lb<Key0, 0, false, size_t, Cmp>(BIG); }
VF_PROOF(compare_multi) { lb<Key0, 0, true, size_t, Cmp>(BIG); }
VF_PROOF(arith_u32) { lb<int, 0, false, uint32_t, Less>((1ull << 31) - 1); }
