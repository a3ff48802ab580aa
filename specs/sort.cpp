// Contracts of the kernels of seq/algorithm.hpp. Merging: ranges of any length, abstract elements; the order of the two sorted
// ranges is an arbitrary monotone ghost function: element i of the first range is greater than exactly rank[i] elements
// of the second one. Small sorts: every content of the elements.
#ifndef NDEBUG
#define NDEBUG // without the debug checks (is_sorted) of the algorithms
#endif
#include "vf.hpp"
#include <iterator>
#include <utility>
#include <seq/algorithm.hpp>
namespace ad = seq::algo_detail;
static size_t* g_rank;
static size_t g_n1, g_n2; // lengths
static size_t g_a, g_b;   // ghost: elements of each range that were written
static size_t g_pending;  // ghost: the current position was written
extern "C" bool vf_rank_fact(uint64_t i)
{
	return vf::both(g_rank[i] <= g_n2, i == 0 || g_rank[i - (i != 0)] <= g_rank[i]);
}
struct EA
{
	size_t i;
};
struct EB
{
	size_t j;
};
template<class V>
struct In
{
	using value_type = V;
	using difference_type = std::ptrdiff_t;
	using pointer = V*;
	using reference = V;
	using iterator_category = std::bidirectional_iterator_tag;
	size_t p;
	V operator*() const
	{
		vf_assert(p < (std::is_same_v<V, EA> ? g_n1 : g_n2), "only elements of the range are read");
		return V{ p };
	}
	In& operator++()
	{
		++p;
		return *this;
	}
	In operator++(int)
	{
		In r = *this;
		++p;
		return r;
	}
	In& operator--()
	{
		--p;
		return *this;
	}
	bool operator==(const In& o) const { return p == o.p; }
	bool operator!=(const In& o) const { return p != o.p; }
};
struct Slot
{
	void operator=(const EA& a) const
	{
		vf_assert(!g_pending, "each position is written once");
		vf_assert(a.i == g_a, "the elements of the first range are written in order");
		vf_assert(g_rank[a.i] == g_b, "an element of the first range is written after exactly the smaller ones of the second");
		++g_a;
		if (g_a < g_n1)
			vf_assume(vf_rank_fact(g_a)); // the rank is monotone
		g_pending = 1;
	}
	void operator=(const EB& b) const
	{
		vf_assert(!g_pending, "each position is written once");
		vf_assert(b.j == g_b, "the elements of the second range are written in order");
		vf_assert(g_a == 0 || g_rank[g_a - 1] <= b.j, "not before an element of the first range that is not greater");
		vf_assert(g_a == g_n1 || g_rank[g_a] > b.j, "before the greater elements of the first range");
		++g_b;
		g_pending = 1;
	}
};
struct Out
{
	using value_type = void;
	using difference_type = std::ptrdiff_t;
	using pointer = void;
	using reference = void;
	using iterator_category = std::output_iterator_tag;
	char dummy;
	Slot operator*() const { return Slot{}; }
	Out& operator++()
	{
		vf_assert(g_pending, "no position is skipped");
		g_pending = 0;
		return *this;
	}
	struct Post
	{
		struct Write
		{
			template<class T>
			void operator=(const T& t) const
			{
				Slot{} = t;
				g_pending = 0;
			}
		};
		Write operator*() const { return Write{}; }
	};
	Post operator++(int) { return Post{}; }
	Out operator+(std::ptrdiff_t) const { return *this; }
};
struct Cmp
{
	bool operator()(EB b, EA a) const { return b.j < g_rank[a.i]; }
};
VF_HINT(a, uint64_t i) { return vf::both(vf::both(i == g_a, i <= g_n1), !g_pending); }
VF_HINT(b, uint64_t j) { return vf::both(vf::both(j == g_b, j <= g_n2), !g_pending); }
VF_HINT(lo, uint64_t) { return g_a == 0 || g_a > g_n1 || g_rank[g_a - 1] <= g_b; }
VF_HINT(hi, uint64_t) { return g_a >= g_n1 || g_rank[g_a] >= g_b; }
// before the increment of the last turn
VF_HINT(b1, uint64_t j) { return j + 1 == g_b; }
VF_HINT(b2, uint64_t j) { return j < g_n2; }
VF_HINT(pe, uint64_t j) { return !g_pending; }
VF_HINT(in, uint64_t) { return g_a < g_n1; }
static void setup()
{
	g_n1 = vf_size("n1", 0, 1u << 20);
	g_n2 = vf_size("n2", 0, 1u << 20);
	g_rank = vf::array<size_t>(g_n1, "rank");
	g_a = g_b = 0;
	g_pending = 0;
	vf_on_read(g_rank, (const void*)&vf_rank_fact, g_n1);
	vf_cut_loops(true);
	vf_require_term(true);
	vf_generic(false);
	vf_hint(VF_FN(a));
	vf_hint(VF_FN(b));
	vf_hint(VF_FN(lo));
	vf_hint(VF_FN(hi));
	vf_hint(VF_FN(b1));
	vf_hint(VF_FN(b2));
	vf_hint(VF_FN(pe));
	vf_hint(VF_FN(in));
}
VF_PROOF(merge_forward)
{
	setup();
	ad::merge_forward<false>(In<EA>{ 0 }, In<EA>{ g_n1 }, In<EB>{ 0 }, In<EB>{ g_n2 }, Out{ 0 }, Cmp{});
	vf_assert(g_a == g_n1 && g_b == g_n2 && !g_pending, "every element is written");
}
// ---- small sorts: the low 3 bits of an element are its first position, the other 3 its rank: every strict weak order of up
// to 8 elements has at most 8 classes
typedef uint8_t V;
struct KeyLess
{
	bool operator()(V a, V b) const noexcept { return (a >> 3) < (b >> 3); }
};
template<unsigned N, class F>
static inline void small_sort(F f)
{
	V in[8], a[8];
	for (unsigned i = 0; i < N; ++i)
		a[i] = in[i] = V((vf_any_u8("rank") & 7u) << 3 | i);
	f(a);
	for (unsigned i = 0; i < N; ++i) {
		vf_assert(i == 0 || a[i - 1] < a[i], "sorted, equal elements in their order");
		bool found = false;
		for (unsigned j = 0; j < N; ++j)
			found |= a[i] == in[j];
		vf_assert(found, "an element of the input");
	}
}
// contract of swap_branchless (proved below), used by the network
static void swap_contract(V& a, V& b, bool less)
{
	V x = V((a ^ b) & V(-(int)less));
	a ^= x;
	b ^= x;
}
VF_PROOF(swap_branchless)
{
	V in[2] = { vf_any_u8("a"), vf_any_u8("b") }, s[2] = { in[0], in[1] };
	bool less = vf::any<bool>("less");
	ad::swap_branchless(s[0], s[1], less);
	vf_assert(s[0] == (less ? in[1] : in[0]) && s[1] == (less ? in[0] : in[1]), "exchanged if and only if asked");
}
VF_PROOF(network_8)
{
	vf_replace("swap_branchless", (const void*)&swap_contract);
	small_sort<8>([](V* a) { vf_assert(ad::atom_sort_8<8>(a, 8, KeyLess{}) == a + 8, "end of the sorted elements"); });
}
template<unsigned N>
static inline void ins()
{
	small_sort<N>([](V* a) { vf_assert(ad::insertion_sort_n(a, N, KeyLess{}) == a + N, "end of the sorted elements"); });
}
VF_PROOF(insertion_1) { ins<1>(); }
VF_PROOF(insertion_2) { ins<2>(); }
VF_PROOF(insertion_3) { ins<3>(); }
VF_PROOF(insertion_4) { ins<4>(); }
VF_PROOF(insertion_5) { ins<5>(); }
