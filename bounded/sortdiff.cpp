// Bounded stand-in for C19: sorting and merging algorithms of seq/algorithm.hpp against the standard stable ones, over
// generated ranges of every run structure. TY 0: relocatable elements, 1: elements that record that they were moved from.
#include "bt.hpp"
#include <algorithm>
#include <deque>
#include <forward_list>
#include <list>
#include <seq/algorithm.hpp>
#ifndef TY
#define TY 0
#endif
struct E
{
	int key = 0, id = 0;
#if TY == 1
	bool live = true;
	std::string pad = "some text that does not fit a small buffer";
	E() = default;
	E(int k, int i)
	  : key(k)
	  , id(i)
	{
	}
	E(const E&) = default;
	E& operator=(const E&) = default;
	E(E&& o) noexcept
	  : key(o.key)
	  , id(o.id)
	  , live(o.live)
	  , pad(std::move(o.pad))
	{
		o.live = false;
	}
	E& operator=(E&& o) noexcept
	{
		key = o.key;
		id = o.id;
		live = o.live;
		pad = std::move(o.pad);
		if (this != &o)
			o.live = false;
		return *this;
	}
#else
	E() = default;
	E(int k, int i)
	  : key(k)
	  , id(i)
	{
	}
#endif
	bool operator==(const E& o) const { return key == o.key && id == o.id; }
};
static void alive(const E& a)
{
#if TY == 1
	CHECKM("an element that was moved from is used", a.live);
#else
	(void)a;
#endif
}
struct Less
{
	int mode = 0;
	bool operator()(const E& a, const E& b) const
	{
		alive(a);
		alive(b);
		switch (mode) {
			case 0:
				return a.key < b.key;
			case 1:
				return a.key > b.key;
			default:
				return (a.key & 3) < (b.key & 3);
		}
	}
};
struct Hash
{
	int mode = 0;
	size_t operator()(const E& a) const
	{
		alive(a);
		return mode == 0 ? size_t(a.key) * 0x9E3779B97F4A7C15ull : mode == 1 ? size_t(a.key & 3) : 7;
	}
};
struct Equal
{
	bool operator()(const E& a, const E& b) const
	{
		alive(a);
		alive(b);
		return a.key == b.key;
	}
};
typedef std::vector<E> V;
static const char* pn[] = { "random", "few keys", "ascending", "descending", "runs", "organ pipe", "nearly sorted", "equal", "saw tooth", "descending with equal keys", "mixed runs", "two halves" };
static V generate(bt::Rng& r, size_t n, unsigned pattern)
{
	V v;
	v.reserve(n);
	size_t run = r.in(1, 1 + r.below(n ? n : 1)), teeth = r.in(2, 40);
	int k = 0;
	bool up = true;
	for (size_t i = 0; i < n; ++i) {
		switch (pattern) {
			case 0: k = int(r.below(1000000)); break;
			case 1: k = int(r.below(5)); break;
			case 2: k = int(i); break;
			case 3: k = int(n - i); break;
			case 4: k = i % run == 0 ? int(r.below(100)) : k + int(r.below(4)); break;
			case 5: k = int(i < n / 2 ? i : n - i); break;
			case 6: k = r.one_in(12) ? int(r.below(n)) : int(i); break;
			case 7: k = 3; break;
			case 8: k = int(i % teeth); break;
			case 9: k = int((n - i) / teeth); break;
			case 10:
				if (r.one_in(run < 30 ? run : 30))
					up = !up, k = int(r.below(100));
				k += up ? int(r.below(3)) : -int(r.below(3));
				break;
			default: k = int((i + n / 2) % (n ? n : 1)); break;
		}
		v.push_back(E(k, int(i)));
	}
	return v;
}
template<class C>
static void same(const C& c, const V& want, const char* what)
{
	CHECK(size_t(std::distance(c.begin(), c.end())) == want.size());
	size_t i = 0;
	for (const E& e : c) {
		alive(e);
		if (!(e == want[i])) {
			char b[200];
			snprintf(b, sizeof b, "%s: element %zu of %zu is (%d,%d) instead of (%d,%d)", what, i, want.size(), e.key, e.id, want[i].key, want[i].id);
			bt::fail(__FILE__, __LINE__, b);
		}
		++i;
	}
}
// calls f with a buffer: one of the predefined sizes, or a block of exactly the given size
template<class F>
static void with_buffer(bt::Rng& r, size_t n, F f)
{
	unsigned b = unsigned(r.below(8));
	bt::step("buffer %u", b);
	if (b == 0)
		f(seq::default_buffer);
	else if (b == 1)
		f(seq::medium_buffer);
	else if (b == 2)
		f(seq::small_buffer);
	else if (b == 3)
		f(seq::tiny_buffer);
	else {
		size_t sz = b == 4 ? 0 : r.below(b == 5 ? 17 : n + 2);
		bt::step("%zu elements", sz);
		V v(sz);
		f(seq::buffer<E*>{ v.data(), v.size() });
	}
}
template<class C>
static auto at(C& c, size_t i)
{
	return std::next(c.begin(), ptrdiff_t(i));
}
template<class C>
static void run(bt::Rng& r, V v, Less l, unsigned op)
{
	V want = v;
	size_t n = v.size();
	if (op == 0) {
		std::stable_sort(want.begin(), want.end(), l);
		C c(v.begin(), v.end());
		with_buffer(r, n, [&](auto b) { seq::net_sort(c.begin(), c.end(), l, b); });
		same(c, want, "net_sort");
	}
	else if (op == 1) {
		std::stable_sort(want.begin(), want.end(), l);
		C c(v.begin(), v.end());
		with_buffer(r, n, [&](auto b) { seq::net_sort_size(c.begin(), n, l, b); });
		same(c, want, "net_sort_size");
	}
	else if (op == 2) {
		size_t m = r.one_in(4) ? r.below(n < 3 ? n + 1 : 3) : r.below(n + 1);
		if (r.one_in(5))
			m = n - m;
		bt::step("middle %zu", m);
		std::stable_sort(v.begin(), v.begin() + ptrdiff_t(m), l);
		std::stable_sort(v.begin() + ptrdiff_t(m), v.end(), l);
		want = v;
		std::inplace_merge(want.begin(), want.begin() + ptrdiff_t(m), want.end(), l);
		C c(v.begin(), v.end());
		with_buffer(r, n, [&](auto b) { seq::inplace_merge(c.begin(), at(c, m), c.end(), l, b); });
		same(c, want, "inplace_merge");
	}
	else if (op == 3) {
		size_t m = r.one_in(3) ? r.below(n < 4 ? n + 1 : 4) : r.below(n + 1);
		if (r.one_in(4))
			m = n - m;
		bt::step("middle %zu", m);
		std::stable_sort(v.begin(), v.begin() + ptrdiff_t(m), l);
		std::stable_sort(v.begin() + ptrdiff_t(m), v.end(), l);
		C a(v.begin(), v.begin() + ptrdiff_t(m)), b(v.begin() + ptrdiff_t(m), v.end());
		std::merge(v.begin(), v.begin() + ptrdiff_t(m), v.begin() + ptrdiff_t(m), v.end(), want.begin(), l);
		V out(n);
		auto e = seq::merge(a.begin(), a.end(), b.begin(), b.end(), out.begin(), l);
		CHECK(e == out.end());
		same(out, want, "merge");
	}
	else if (op == 4) {
		std::stable_sort(v.begin(), v.end(), l);
		want = v;
		// descending, equal elements in their order
		std::reverse(v.begin(), v.end());
		for (size_t i = 0; i < n;) {
			size_t j = i + 1;
			while (j < n && !l(v[i], v[j]) && !l(v[j], v[i]))
				++j;
			std::reverse(v.begin() + ptrdiff_t(i), v.begin() + ptrdiff_t(j));
			i = j;
		}
		C c(v.begin(), v.end());
		seq::reverse_descending(c.begin(), c.end(), l);
		same(c, want, "reverse_descending");
	}
	else if (op == 5) {
		want.clear();
		for (const E& e : v)
			if (std::none_of(want.begin(), want.end(), [&](const E& x) { return x.key == e.key; }))
				want.push_back(e);
		C c(v.begin(), v.end());
		auto e = seq::unique(c.begin(), c.end(), Hash{ int(r.below(3)) }, Equal{});
		V got(c.begin(), e);
		same(got, want, "unique");
	}
}
static void runs(bt::Rng& r, V v, Less l)
{
	V want = v;
	std::stable_sort(want.begin(), want.end(), l);
	std::vector<V::iterator> it;
	size_t n = v.size(), pos = 0, mx = r.in(1, 1 + n / r.in(1, 40));
	it.push_back(v.begin());
	while (pos < n) {
		size_t k = r.in(1, mx);
		if (k > n - pos)
			k = n - pos;
		std::stable_sort(v.begin() + ptrdiff_t(pos), v.begin() + ptrdiff_t(pos + k), l);
		pos += k;
		it.push_back(v.begin() + ptrdiff_t(pos));
	}
	bt::step("%zu runs", it.size() - 1);
	with_buffer(r, n, [&](auto b) { seq::inplace_merge(it.data(), it.size(), l, b); });
	same(v, want, "inplace_merge of runs");
}
int main(int argc, char** argv)
{
	uint64_t total = argc > 1 ? strtoull(argv[1], nullptr, 10) : 20000;
	for (uint64_t round = 0; bt::cases() < total; ++round) {
		bt::Rng r(round + 1000003 * TY);
		bt::hist().clear();
		static const size_t lim[] = { 4, 20, 40, 140, 300, 20, 70, 1200 };
		size_t n = r.below(lim[round % 8] + 1);
		if (round % 400 == 399)
			n = r.below(20000);
		unsigned p = unsigned(r.below(12)), op = unsigned(r.below(7)), c = unsigned(r.below(3));
		Less l{ int(r.below(3)) };
		if (op == 5 && n > 400)
			n %= 400;
		char b[200];
		snprintf(b, sizeof b, "round %llu, %zu elements, pattern %s, operation %u, container %u, order %d", (unsigned long long)round, n, pn[p], op, c, l.mode);
		bt::ctx() = b;
		bt::sample("%s", b);
		V v = generate(r, n, p);
		if (op == 6)
			runs(r, v, l);
		else if (c == 0)
			run<V>(r, v, l, op);
		else if (c == 1)
			run<std::list<E>>(r, v, l, op);
		else
			run<std::deque<E>>(r, v, l, op);
		++bt::cases();
	}
	return bt::done();
}
