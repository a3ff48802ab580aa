// Bounded stand-in for the associative containers: random histories against a reference list of (key, value).
// -DCONT=0 flat_set 1 flat_map 2 flat_multiset 3 flat_multimap 4 ordered_set 5 ordered_map 6 radix_set 7 radix_map
//        8 radix_hash_set 9 radix_hash_map
// -DKEY: see below, -DTY: mapped type, -DHM: hash function, -DSTABLE=0/1 (flat), -DFUSE=1: element operations throw (C21)
#include "elems.hpp"
#include <algorithm>
#include <list>
#include <map>
#include <sstream>
#include <string_view>
#include <tuple>
#include <limits>
#include <cmath>
#ifndef CONT
#define CONT 0
#endif
#ifndef KEY
#define KEY 0
#endif
#ifndef HM
#define HM 0
#endif
#ifndef STABLE
#define STABLE 1
#endif
#ifndef FUSE
#define FUSE 0
#endif
#if CONT <= 3
#include <seq/flat_map.hpp>
#elif CONT <= 5
#include <seq/ordered_map.hpp>
#elif CONT <= 7
#include <seq/radix_map.hpp>
#else
#include <seq/radix_hash_map.hpp>
#endif
#include <seq/tiny_string.hpp>
using namespace el;
using bt::Rng;
static Rng rng;
#if KEY == 0
using K = int;
#elif KEY == 1
using K = uint64_t;
#elif KEY == 2
using K = std::string;
#elif KEY == 3
using K = seq::tiny_string<char>;
#elif KEY == 4
using K = Tr<0>;
#elif KEY == 5
using K = double;
#elif KEY == 6
using K = int8_t;
#elif KEY == 7
using K = std::wstring;
#elif KEY == 8
using K = std::tuple<int, uint16_t, int64_t>;
#elif KEY == 9
using K = int64_t;
#elif KEY == 10
using K = float;
#elif KEY == 11
using K = uint16_t;
#elif KEY == 12
using K = std::vector<int64_t>;
#elif KEY == 13
using K = std::u16string;
#endif
static constexpr bool KSTR = KEY == 2 || KEY == 3;
static constexpr bool FLAT = CONT <= 3, ORD = CONT == 4 || CONT == 5, RAD = CONT == 6 || CONT == 7, RHASH = CONT >= 8;
static constexpr bool MAP = CONT % 2 == 1, MULTI = CONT == 2 || CONT == 3, SORTED = FLAT || RAD;
static constexpr bool KTR = KEY == 4;
// ---- keys of a round: distinct, sorted; a key is designated by its rank
static std::vector<K> keys;
static bool keyless(const K& a, const K& b)
{
#if KEY == 2
	return a < b;
#elif KEY == 3
	return std::string(a.data(), a.size()) < std::string(b.data(), b.size());
#elif KEY == 7
	// radix keys order wchar_t by their unsigned value
	return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](wchar_t x, wchar_t y) { return RAD ? (uint32_t)x < (uint32_t)y : x < y; });
#else
	return a < b;
#endif
}
static std::string rstr()
{
	static const std::string pool[] = { "", "a", "ab", "abcdefgh", "abcdefghi", std::string("\0", 1), std::string("a\0b", 3), "\xff\xfe", "commonprefixcommonprefix", "\x80", "abcdefgg", "the quick brown fox jumps over the lazy dog " };
	std::string s;
	if (rng.one_in(2))
		s = pool[rng.below(12)];
	if (rng.one_in(4))
		s += pool[rng.below(12)];
	size_t n = rng.below(rng.one_in(4) ? 24 : 6);
	unsigned alpha = rng.one_in(2) ? 2 : 256;
	for (size_t i = 0; i < n; ++i)
		s += alpha == 2 ? char('a' + rng.below(2)) : char(rng.below(256));
	return s;
}
static K rkey(unsigned mode, uint64_t u)
{
	(void)u;
	(void)mode;
#if KEY == 0
	switch (mode) {
		case 0: return (int)rng.below(u * 3 + 3) - (int)u;
		case 1: return (int)(uint32_t)rng();
		case 2: return (int)(uint32_t)(rng.skewed() * (rng.one_in(2) ? 1 : ~0ull));
		default: return rng.one_in(30) ? (rng.one_in(2) ? INT32_MIN : INT32_MAX) : (int)(rng.below(u + 1) << 16);
	}
#elif KEY == 1 || KEY == 9
	switch (mode) {
		case 0: return (K)(rng.below(u * 3 + 3) - (KEY == 9 ? u : 0));
		case 1: return (K)rng();
		case 2: return (K)(rng.skewed() * (rng.one_in(2) ? 1 : ~0ull));
		default: return (K)(rng.below(8) << (8 * rng.below(8)) | rng.below(8) << (8 * rng.below(8)) | rng.below(4) << (8 * rng.below(8)));
	}
#elif KEY == 2
	return rstr();
#elif KEY == 3
	{
		std::string s = rstr();
		return K(s.data(), s.size());
	}
#elif KEY == 4
	return K(mode ? rng() >> 1 : rng.below(u * 3 + 3));
#elif KEY == 5 || KEY == 10
	switch (mode) {
		case 0: return (K)(int64_t)(rng.below(u * 3 + 3) - u) + 0;
		case 1: return (K)((double)(int64_t)rng() * 1e-19 + 0.0);
		case 2: {
			static const double sp[] = { std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), (double)std::numeric_limits<K>::denorm_min(), (double)std::numeric_limits<K>::max(), (double)-std::numeric_limits<K>::max(), (double)-std::numeric_limits<K>::denorm_min(), 1, -1 };
			if (rng.one_in(6))
				return (K)sp[rng.below(8)];
			return (K)(std::ldexp((double)(int64_t)rng() * 1e-19, (int)rng.below(60) - 30) + 0.0);
		}
		default: return (K)((double)rng.below(u * 2 + 2) / 3 + 0.0);
	}
#elif KEY == 6
	return (int8_t)rng();
#elif KEY == 7
	{
		std::string s = rstr();
		std::wstring w;
		for (char c : s)
			w += (wchar_t)(rng.one_in(8) ? (rng.one_in(2) ? 0x10000u + (uint8_t)c : 0x100u * (uint8_t)c) : (uint8_t)c);
		return w;
	}
#elif KEY == 12
	{
		std::string s = rstr();
		K w;
		for (char c : s)
			w.push_back(rng.one_in(4) ? (int64_t)((uint64_t)(uint8_t)c << rng.below(57)) : rng.one_in(4) ? -(int64_t)(uint8_t)c : (int64_t)(uint8_t)c);
		return w;
	}
#elif KEY == 13
	{
		std::string s = rstr();
		K w;
		for (char c : s)
			w += (char16_t)(rng.one_in(8) ? 0x100u * (uint8_t)c : (uint8_t)c);
		return w;
	}
#elif KEY == 8
	return K((int)(mode ? rng() : rng.below(4) - 2), (uint16_t)(mode == 1 ? rng() : rng.below(4)), (int64_t)(mode >= 2 ? rng() : rng.below(8) - 4));
#elif KEY == 11
	return (K)(mode ? rng() : rng.below(u * 3 + 3));
#endif
}
static int code(const K& k)
{
	auto it = std::lower_bound(keys.begin(), keys.end(), k, keyless);
	if (it == keys.end() || keyless(k, *it))
		bt::fail(__FILE__, __LINE__, "the container holds a key that was never inserted");
	return (int)(it - keys.begin());
}
static void newkeys(size_t u)
{
	keys.clear();
	unsigned mode = (unsigned)rng.below(4);
	for (size_t i = 0; i < u * 3 && keys.size() < u; ++i) {
		if (!KTR || true) {
			keys.push_back(rkey(mode, u));
			if (i == u * 3 / 2 || keys.size() == u) {
				std::sort(keys.begin(), keys.end(), keyless);
				keys.erase(std::unique(keys.begin(), keys.end(), [](const K& a, const K& b) { return !keyless(a, b) && !keyless(b, a); }), keys.end());
			}
		}
	}
	std::sort(keys.begin(), keys.end(), keyless);
	keys.erase(std::unique(keys.begin(), keys.end(), [](const K& a, const K& b) { return !keyless(a, b) && !keyless(b, a); }), keys.end());
	keys.shrink_to_fit();
}
#if HM == 0
using H = seq::hasher<K>;
#else
struct H
{
#if HM >= 4
	using is_avalanching = int;
#endif
	uint64_t salt = 0; // a stateful hash function: equal only for equal salts
	size_t operator()(const K& k) const
	{
		uint64_t c = (uint64_t)code(k) + salt;
		switch (HM) {
			case 1: return c % 7;
			case 2: return 42;
			case 3: return c;
			case 4: return c << 56;
			case 5: return c;
			case 6: return c % 200 ? c : 0;
			default: return c * 0x9E3779B97F4A7C15ull;
		}
	}
};
#endif
struct KEq
{
	template<class A, class B>
	bool operator()(const A& a, const B& b) const
	{
		return a == b;
	}
};
#if CONT == 0
using Cont = seq::flat_set<K, std::less<>, std::allocator<K>, STABLE>;
#elif CONT == 1
using Cont = seq::flat_map<K, T, std::less<>, std::allocator<std::pair<K, T>>, STABLE>;
#elif CONT == 2
using Cont = seq::flat_multiset<K, std::less<>, std::allocator<K>, STABLE>;
#elif CONT == 3
using Cont = seq::flat_multimap<K, T, std::less<>, std::allocator<std::pair<K, T>>, STABLE>;
#elif CONT == 4
using Cont = seq::ordered_set<K, H>;
#elif CONT == 5
using Cont = seq::ordered_map<K, T, H>;
#elif CONT == 6
using Cont = seq::radix_set<K>;
#elif CONT == 7
using Cont = seq::radix_map<K, T>;
#elif CONT == 8
using Cont = seq::radix_hash_set<K, H>;
#elif CONT == 9
using Cont = seq::radix_hash_map<K, T, H>;
#endif
using VT = typename Cont::value_type;
static uint64_t nextv()
{
	if (!MAP)
		return 0;
	static uint64_t n = 0;
	++n;
	return X::range <= 256 ? n % X::range : (n * 2654435761u) % X::range;
}
template<class Val>
static const K& keyof(const Val& v)
{
	if constexpr (MAP)
		return v.first;
	else
		return v;
}
template<class Val>
static uint64_t valof(const Val& v)
{
	if constexpr (MAP)
		return X::val(v.second);
	else
		return 0;
}
static VT mk(int c, uint64_t v)
{
	(void)v;
#if CONT % 2 == 1
	return VT(keys[(size_t)c], X::make(v));
#else
	return VT(keys[(size_t)c]);
#endif
}
using P = std::pair<int, uint64_t>;
using Ref = std::vector<P>;
template<class C>
static Ref values(const C& c)
{
	Ref r;
	r.reserve(c.size());
	for (auto it = c.begin(); it != c.end(); ++it)
		r.push_back(P(code(keyof(*it)), valof(*it)));
	return r;
}
template<class C>
static std::vector<const void*> addrs(const C& c)
{
	std::vector<const void*> r;
	if constexpr (ORD)
		for (auto it = c.begin(); it != c.end(); ++it)
			r.push_back(&keyof(*it));
	return r;
}
// input iterator over a vector of values: single pass, the referenced value dies at the next step
struct InIt
{
	using iterator_category = std::input_iterator_tag;
	using value_type = VT;
	using difference_type = std::ptrdiff_t;
	using pointer = const VT*;
	using reference = const VT&;
	const std::vector<VT>* v;
	size_t i;
	reference operator*() const { return (*v)[i]; }
	pointer operator->() const { return &(*v)[i]; }
	InIt& operator++()
	{
		++i;
		return *this;
	}
	InIt operator++(int)
	{
		InIt t = *this;
		++i;
		return t;
	}
	bool operator==(const InIt& o) const { return i == o.i; }
	bool operator!=(const InIt& o) const { return i != o.i; }
};
static bool contains_code(const Ref& o, int c)
{
	for (auto& p : o)
		if (p.first == c)
			return true;
	return false;
}
static size_t lb(const Ref& o, int c) // first rank not less than c in a sorted reference
{
	return (size_t)(std::lower_bound(o.begin(), o.end(), c, [](const P& p, int k) { return p.first < k; }) - o.begin());
}
static size_t ub(const Ref& o, int c)
{
	return (size_t)(std::upper_bound(o.begin(), o.end(), c, [](int k, const P& p) { return k < p.first; }) - o.begin());
}
static size_t pos(const Ref& o, int c) // first occurrence or size
{
	if (!ORD) {
		size_t p = lb(o, c);
		return p < o.size() && o[p].first == c ? p : o.size();
	}
	for (size_t i = 0; i < o.size(); ++i)
		if (o[i].first == c)
			return i;
	return o.size();
}
static int rcode() { return (int)rng.below(keys.size()); }

template<class C>
struct Slot
{
	C c;
	Ref o;
};
template<class C>
struct Hist
{
	std::vector<Slot<C>> s;
	size_t limit;

	// ---- the content, in iteration order
	static void same(const C& c, const Ref& o, const char* what)
	{
		CHECKM(what, c.size() == o.size());
		CHECK(c.empty() == o.empty());
		if (RHASH) {
			std::vector<char> seen(o.size(), 0);
			size_t n = 0;
			for (auto it = c.begin(); it != c.end(); ++it, ++n) {
				CHECKM(what, n < o.size());
				size_t p = pos(o, code(keyof(*it)));
				CHECKM("iteration gives a key that is not there", p < o.size());
				CHECKM("iteration gives a key twice", !seen[p]);
				seen[p] = 1;
				CHECKM("the mapped value", valof(*it) == o[p].second);
			}
			CHECKM("iteration gives every key", n == o.size());
			return;
		}
		size_t i = 0;
		for (auto it = c.begin(); it != c.end(); ++it, ++i) {
			CHECKM(what, i < o.size());
			int k = code(keyof(*it));
			if (k != o[i].first || valof(*it) != o[i].second) {
				char b[160];
				snprintf(b, sizeof b, "%s: element %zu of %zu is key %d value %llu instead of key %d value %llu", what, i, o.size(), k, (unsigned long long)valof(*it), o[i].first, (unsigned long long)o[i].second);
				bt::fail(__FILE__, __LINE__, "iteration gives the keys in order", b);
			}
		}
		CHECKM(what, i == o.size());
	}
	template<class It>
	static void at(const C& c, const Ref& o, It it, size_t p)
	{
		if (p >= o.size()) {
			CHECKM("the iterator is the end", it == c.end());
			return;
		}
		CHECKM("the iterator is not the end", it != c.end());
		CHECKM("the iterator designates the key", code(keyof(*it)) == o[p].first);
		if (!MULTI)
			CHECKM("the iterator designates the value", valof(*it) == o[p].second);
		if constexpr (FLAT)
			CHECKM("the iterator has the right position", (size_t)(it - c.begin()) == p);
	}
	static void lookups(const C& c, const Ref& o, int k)
	{
		C& m = const_cast<C&>(c);
		const K& key = keys[(size_t)k];
		size_t p = pos(o, k), n = o.size();
		size_t cnt = 0;
		if (MULTI)
			cnt = ub(o, k) - lb(o, k);
		else
			cnt = p < n;
		CHECKM("contains", c.contains(key) == (p < n));
		CHECKM("count", c.count(key) == cnt);
		// find on a multi container gives any equivalent element: the first one here
		auto f = c.find(key);
		if (MULTI && p < n) {
			CHECK(f != c.end());
			CHECKM("find gives the key", code(keyof(*f)) == k);
		}
		else
			at(c, o, f, p);
		auto g = m.find(key);
		CHECKM("find of a non const container", (g == m.end()) == (p >= n));
		if (p < n)
			CHECK(code(keyof(*g)) == k);
#if (KEY == 2 || KEY == 3) && (CONT <= 3 || HM == 0)
		{
			std::string_view sv(key.data(), key.size());
			CHECKM("lookup with a view", c.contains(sv) == (p < n));
			CHECKM("lookup with a view", c.count(sv) == cnt);
			auto h = c.find(sv);
			CHECK((h == c.end()) == (p >= n));
			if (p < n)
				CHECK(code(keyof(*h)) == k);
			if (key.size() == strlen(key.c_str()))
				CHECKM("lookup with a C string", c.contains(key.c_str()) == (p < n));
		}
#endif
		if constexpr (MAP && !MULTI) {
			if (p < n) {
				CHECKM("at", X::val(c.at(key)) == o[p].second);
				CHECKM("at", X::val(m.at(key)) == o[p].second);
			}
			else {
				bool thrown = false;
				try {
					(void)c.at(key);
				}
				catch (const std::out_of_range&) {
					thrown = true;
				}
				CHECKM("at throws for a key that is not there", thrown);
			}
		}
		if constexpr (SORTED) {
			at(c, o, c.lower_bound(key), lb(o, k));
			at(c, o, c.upper_bound(key), ub(o, k));
			CHECK((m.lower_bound(key) == m.end()) == (lb(o, k) == n));
			CHECK((m.upper_bound(key) == m.end()) == (ub(o, k) == n));
			auto er = c.equal_range(key);
			size_t d = 0;
			for (auto i = er.first; i != er.second && d <= n; ++i, ++d)
				CHECKM("equal_range holds only the key", code(keyof(*i)) == k);
			CHECKM("equal_range holds every occurrence of the key", d == cnt);
			auto em = m.equal_range(key);
			d = 0;
			for (auto i = em.first; i != em.second && d <= n; ++i, ++d)
				;
			CHECKM("equal_range holds every occurrence of the key", d == cnt);
			if constexpr (FLAT) {
				CHECK((size_t)(er.first - c.begin()) == lb(o, k));
				CHECK(c.lower_bound_pos(key) == lb(o, k));
				CHECK(c.upper_bound_pos(key) == ub(o, k));
				auto ep = c.equal_range_pos(key);
				CHECK(ep.first == lb(o, k) && ep.second == ub(o, k));
				size_t fp = c.find_pos(key);
				CHECK(MULTI ? (fp == n) == (p == n) : fp == (p < n ? p : n));
				if (p < n) {
					CHECK(fp < n);
					CHECK(code(keyof(c.pos(fp))) == k);
				}
			}
#if KEY == 3 || (KEY == 2 && CONT <= 3)
			{
				std::string_view sv(key.data(), key.size());
				at(c, o, c.lower_bound(sv), lb(o, k));
				at(c, o, c.upper_bound(sv), ub(o, k));
			}
#endif
		}
		if constexpr (RAD) {
			auto q = c.find_ptr(key);
			CHECKM("find_ptr", (q != nullptr) == (p < n));
			if (q) {
				CHECK(code(keyof(*q)) == k);
				CHECK(valof(*q) == o[p].second);
			}
		}
#if (CONT == 6 || CONT == 7) && (KEY == 2 || KEY == 3 || KEY == 7)
		{
			// prefix of a random length of the key
			K pre = key;
			if (!pre.empty() && rng.one_in(2))
				pre.resize(rng.below(pre.size() + 1));
			auto isp = [&](const K& x) { return x.size() >= pre.size() && std::equal(pre.begin(), pre.end(), x.begin()); };
			size_t first = n, pc = 0;
			for (size_t i = 0; i < n; ++i)
				if (isp(keys[(size_t)o[i].first])) {
					if (!pc)
						first = i;
					++pc;
				}
			auto it = c.prefix(pre);
			if (pc)
				at(c, o, it, first);
			else
				CHECKM("prefix without any key", it == c.end());
			auto pr = c.prefix_range(pre);
			size_t d = 0;
			for (auto i = pr.first; i != pr.second && d <= n; ++i, ++d) {
				CHECK(first + d < n);
				CHECKM("prefix_range gives the keys with the prefix in order", code(keyof(*i)) == o[first + d].first);
			}
			CHECKM("prefix_range gives every key with the prefix", d == pc);
		}
#endif
	}
	static void deep(const C& c, const Ref& o)
	{
		for (int i = 0; i < 8; ++i)
			lookups(c, o, rcode());
		if (rng.one_in(6))
			for (int i = 0; i < (int)keys.size(); ++i) {
				CHECKM("contains (all keys)", c.contains(keys[(size_t)i]) == (pos(o, i) < o.size()));
			}
		if constexpr (!RHASH) {
			C& m = const_cast<C&>(c);
			size_t i = o.size();
			for (auto it = c.rbegin(); it != c.rend(); ++it) {
				CHECK(i > 0);
				CHECKM("reverse iteration", code(keyof(*it)) == o[--i].first);
			}
			CHECK(i == 0);
			i = o.size();
			for (auto it = m.end(); it != m.begin();) {
				CHECK(i > 0);
				--it;
				CHECKM("backward iteration", code(keyof(*it)) == o[--i].first);
			}
			CHECK(i == 0);
			for (auto it = m.begin(); it != m.end(); it++, ++i)
				CHECK(code(keyof(*it)) == o[i].first);
			CHECK(i == o.size());
		}
	}
	// ---- reference operations
	static bool radd(Ref& o, int k, uint64_t v) // sorted reference; true if inserted
	{
		if (!MULTI && pos(o, k) < o.size())
			return false;
		o.insert(o.begin() + (ptrdiff_t)ub(o, k), P(k, v));
		return true;
	}
	// the container c must be o plus possibly the new pair at any place (ordered containers): o becomes the content of c
	static void anywhere(const C& c, Ref& o, int k, uint64_t v, bool isnew)
	{
		if (!isnew)
			return;
		Ref n = values(c);
		CHECK(n.size() == o.size() + 1);
		size_t p = 0;
		while (p < n.size() && n[p].first != k)
			++p;
		CHECKM("the inserted key is there", p < n.size());
		CHECKM("the inserted value is there", n[p].second == v);
		o.insert(o.begin() + (ptrdiff_t)p, P(k, v));
	}
	template<class R>
	static void inserted(const C& c, Ref& o, const R& r, int k, uint64_t v, int where = 0) // where: 0 anywhere, 1 back, 2 front
	{
		bool isnew = MULTI || pos(o, k) >= o.size();
		if constexpr (ORD) {
			if (isnew && where == 1)
				o.push_back(P(k, v));
			else if (isnew && where == 2)
				o.insert(o.begin(), P(k, v));
			else
				anywhere(c, o, k, v, isnew);
		}
		else
			radd(o, k, v);
		size_t p = MULTI ? ub(o, k) - 1 : pos(o, k);
		if constexpr (MULTI)
			at(c, o, r, p);
		else {
			CHECKM("insertion tells if the key was new", r.second == isnew);
			at(c, o, r.first, p);
		}
	}
	void total()
	{
		if constexpr ((MAP && X::tracked) || KTR) {
			size_t n = KTR ? keys.size() : 0;
			for (auto& x : s)
				n += x.o.size() * ((MAP && X::tracked ? 1 : 0) + (KTR ? 1 : 0));
			if (live() != (long)n) {
				char b[120];
				snprintf(b, sizeof b, "%ld live objects, %zu expected", live(), n);
				bt::fail(__FILE__, __LINE__, "every element is constructed and destroyed exactly once", b);
			}
		}
	}
	// after an exception: any consistent content without a foreign or lost element is accepted
	void resync(Slot<C>& x)
	{
		if constexpr (ORD)
			x.c.rehash(); // only needed, and only does something, if the exception interrupted a direct modification of the sequence
		Ref n = values(x.c);
		if (!ORD)
			for (size_t i = 1; i < n.size(); ++i)
				if (!RHASH)
					CHECKM("the keys are sorted after an exception", MULTI ? n[i - 1].first <= n[i].first : n[i - 1].first < n[i].first);
		if (RHASH)
			std::sort(n.begin(), n.end());
		if (ORD) {
			std::vector<int> ks;
			for (auto& p : n)
				ks.push_back(p.first);
			std::sort(ks.begin(), ks.end());
			CHECKM("the keys are unique after an exception", std::adjacent_find(ks.begin(), ks.end()) == ks.end());
		}
		x.o = n;
		same(x.c, x.o, "after an exception");
		for (auto& p : x.o)
			CHECKM("every key is found after an exception", x.c.contains(keys[(size_t)p.first]));
	}
	void one()
	{
		Slot<C>& x = s[rng.below(s.size())];
		C& c = x.c;
		Ref& o = x.o;
		Ref before;
		bool big = o.size() >= limit;
		unsigned op = (unsigned)rng.below(64);
		if (big && op < 24)
			op = 30 + (unsigned)rng.below(6);
		int k = rcode();
		uint64_t v = nextv();
		++bt::cases();
		auto ad = addrs(c);
		Ref old;
		if (ORD || FUSE)
			old = o;
		bool strong = false, moved = false;
		if (FUSE)
			before = o;
		if (FUSE && rng.one_in(3))
			fuse() = (long)rng.below(rng.one_in(2) ? 4 : 30);
		try {
			switch (op) {
				case 0:
				case 1:
				case 2:
				case 3: {
					bt::step("insert(key %d)", k);
					strong = true;
					const VT val = mk(k, v);
					auto r = c.insert(val);
					fuse() = -1;
					inserted(c, o, r, k, v);
					break;
				}
				case 4:
				case 5:
				case 6: {
					bt::step("insert(key %d&&)", k);
					strong = true;
					auto r = c.insert(mk(k, v));
					fuse() = -1;
					inserted(c, o, r, k, v);
					break;
				}
				case 7: {
					bt::step("emplace(%d)", k);
					strong = true;
					if constexpr (MAP) {
						auto r = c.emplace(keys[(size_t)k], X::make(v));
						fuse() = -1;
						inserted(c, o, r, k, v);
					}
					else {
						auto r = c.emplace(keys[(size_t)k]);
						fuse() = -1;
						inserted(c, o, r, k, v);
					}
					break;
				}
				case 8:
				case 9: {
					if constexpr (MAP && !MULTI) {
						bt::step("try_emplace(%d)", k);
						strong = true;
						auto r = c.try_emplace(keys[(size_t)k], X::make(v));
						fuse() = -1;
						inserted(c, o, r, k, v);
					}
					break;
				}
				case 10:
				case 11: {
					if constexpr (MAP && !MULTI) {
						bt::step("operator[](%d) = v", k);
						bool was = pos(o, k) < o.size();
						T& t = op == 10 ? c[keys[(size_t)k]] : c[K(keys[(size_t)k])];
						if (!FUSE) {
							CHECKM("operator[] gives the value", was ? X::val(t) == o[pos(o, k)].second : X::val(t) == X::val(T()));
						}
						t = X::make(v);
						fuse() = -1;
						if (was)
							o[pos(o, k)].second = v;
						else if (ORD)
							anywhere(c, o, k, v, true);
						else
							radd(o, k, v);
					}
					break;
				}
				case 12: {
					if constexpr (MAP && !MULTI) {
						bt::step("insert_or_assign(%d)", k);
						auto r = c.insert_or_assign(keys[(size_t)k], X::make(v));
						fuse() = -1;
						if (pos(o, k) < o.size()) {
							CHECK(!r.second);
							o[pos(o, k)].second = v;
							at(c, o, r.first, pos(o, k));
						}
						else
							inserted(c, o, r, k, v);
					}
					break;
				}
				case 13:
				case 14:
				case 15: {
					// a random, a close, or an exact hint
					size_t h = rng.below(o.size() + 1);
					if (SORTED && rng.one_in(2))
						h = rng.one_in(3) ? lb(o, k) : ub(o, k);
					bt::step("insert(hint %zu, key %d)", h, k);
					strong = true;
					auto it = c.begin();
					std::advance(it, (ptrdiff_t)h);
					const VT val = mk(k, v);
					auto r = op == 13 ? c.insert(it, val) : op == 14 ? c.insert(it, mk(k, v)) : c.emplace_hint(it, mk(k, v));
					fuse() = -1;
					bool isnew = MULTI || pos(o, k) >= o.size();
					if constexpr (ORD)
						anywhere(c, o, k, v, isnew);
					else
						radd(o, k, v);
					at(c, o, r, MULTI ? ub(o, k) - 1 : pos(o, k));
					break;
				}
				case 16:
				case 17:
				case 18:
				case 19: {
					// range insertion / assignment
					bool small = rng.one_in(2);
					size_t n = rng.below(small ? 4 : (limit / 2 + 2));
					std::vector<VT> in;
					Ref w;
					for (size_t i = 0; i < n; ++i)
						w.push_back(P(rcode(), nextv()));
					unsigned kind = (unsigned)rng.below(5);
					bool su = FLAT && rng.one_in(4), assign = !ORD && !RHASH && op == 19;
					if (su && !assign) {
						std::stable_sort(w.begin(), w.end(), [](const P& a, const P& b) { return a.first < b.first; });
						if (!MULTI)
							w.erase(std::unique(w.begin(), w.end(), [](const P& a, const P& b) { return a.first == b.first; }), w.end());
					}
					in.reserve(w.size());
					for (auto& p : w)
						in.push_back(mk(p.first, p.second));
					bt::step("%s range of %zu, kind %u%s", assign ? "assign" : "insert", w.size(), kind, su ? " sorted" : "");
					std::list<VT> li(in.begin(), in.end());
					if (assign) {
						if constexpr (FLAT || RAD) {
							if (kind == 0)
								c.assign(in.begin(), in.end());
							else if (kind == 1)
								c.assign(li.begin(), li.end());
							else if (kind == 2)
								c.assign(InIt{ &in, 0 }, InIt{ &in, in.size() });
							else if (in.size() == 3) {
								if (kind == 3)
									c = { in[0], in[1], in[2] };
								else
									c = C({ in[0], in[1], in[2] });
							}
							else
								c = C(li.begin(), li.end());
						}
					}
					else if (FLAT && su) {
#if CONT <= 3
#if CONT <= 1
						auto tag = seq::sorted_unique;
#else
						auto tag = seq::sorted_equivalent;
#endif
						if (kind == 1)
							c.insert(tag, li.begin(), li.end());
						else if (kind == 2)
							c.insert(tag, InIt{ &in, 0 }, InIt{ &in, in.size() });
						else if (kind == 3 && in.size() == 3)
							c.insert(tag, { in[0], in[1], in[2] });
						else
							c.insert(tag, in.begin(), in.end());
#endif
					}
					else if (kind == 1)
						c.insert(li.begin(), li.end());
					else if (kind == 2)
						c.insert(InIt{ &in, 0 }, InIt{ &in, in.size() });
					else if (kind == 3 && in.size() == 3)
						c.insert({ in[0], in[1], in[2] });
					else
						c.insert(in.begin(), in.end());
					fuse() = -1;
					if (assign)
						o.clear();
					if constexpr (ORD) {
						Ref nw = values(c);
						// the elements that were there keep their order; each new key has the value of its first occurrence
						Ref keep, exp = o;
						for (auto& p : w)
							if (!contains_code(exp, p.first))
								exp.push_back(p);
						for (auto& p : nw)
							if (contains_code(o, p.first))
								keep.push_back(p);
						CHECKM("range insertion keeps the order of the other elements", keep == o);
						Ref a = nw, b = exp;
						std::sort(a.begin(), a.end());
						std::sort(b.begin(), b.end());
						CHECKM("range insertion adds every new key once", a == b);
						o = nw;
					}
					else if (FLAT && !STABLE && MAP && !assign && !su) {
						// equal keys of the range: any of them / any order
						Ref nw = values(c), exp = o;
						for (auto& p : w)
							radd(exp, p.first, p.second);
						CHECK(nw.size() == exp.size());
						for (size_t i = 0; i < nw.size(); ++i)
							CHECK(nw[i].first == exp[i].first);
						for (auto& p : nw)
							CHECK(std::find(o.begin(), o.end(), p) != o.end() || std::find(w.begin(), w.end(), p) != w.end());
						// (with Stable == false, the sort may also exchange an existing element and an equal new one)
						o = nw;
					}
					else if (FLAT && !STABLE && MAP && assign) {
						Ref nw = values(c), exp;
						for (auto& p : w)
							radd(exp, p.first, p.second);
						CHECK(nw.size() == exp.size());
						for (size_t i = 0; i < nw.size(); ++i)
							CHECK(nw[i].first == exp[i].first);
						for (auto& p : nw)
							CHECK(std::find(w.begin(), w.end(), p) != w.end());
						o = nw;
					}
					else
						for (auto& p : w)
							radd(o, p.first, p.second);
					break;
				}
				case 20:
				case 21: {
#if CONT == 4 || CONT == 5
					bool front = op == 21;
					bt::step("push_%s(%d)", front ? "front" : "back", k);
					strong = true;
					unsigned kind = (unsigned)rng.below(4);
					const VT val = mk(k, v);
#if CONT == 5
					auto r = kind == 0   ? (front ? c.push_front(val) : c.push_back(val))
						 : kind == 1 ? (front ? c.push_front(mk(k, v)) : c.push_back(mk(k, v)))
						 : kind == 2 ? (front ? c.emplace_front(keys[(size_t)k], X::make(v)) : c.emplace_back(keys[(size_t)k], X::make(v)))
							     : (front ? c.try_emplace_front(keys[(size_t)k], X::make(v)) : c.try_emplace_back(keys[(size_t)k], X::make(v)));
#else
					auto r = kind == 0   ? (front ? c.push_front(val) : c.push_back(val))
						 : kind == 1 ? (front ? c.push_front(mk(k, v)) : c.push_back(mk(k, v)))
							     : (front ? c.emplace_front(keys[(size_t)k]) : c.emplace_back(keys[(size_t)k]));
#endif
					fuse() = -1;
					inserted(c, o, r, k, v, front ? 2 : 1);
#elif CONT == 3
					bt::step("insert_pos(%d)", k);
					const VT val = mk(k, v);
					size_t p = c.insert_pos(val);
					fuse() = -1;
					radd(o, k, v);
					CHECK(p == ub(o, k) - 1);
#elif CONT == 1
					bt::step("%s_pos(%d)", op == 20 ? "try_emplace" : "insert_or_assign", k);
					bool isnew = pos(o, k) >= o.size();
					auto p = op == 20 ? c.try_emplace_pos(keys[(size_t)k], X::make(v)) : c.insert_or_assign_pos(keys[(size_t)k], X::make(v));
					fuse() = -1;
					radd(o, k, v);
					if (!isnew && op == 21)
						o[pos(o, k)].second = v;
					CHECK(p.second == isnew);
					CHECK(p.first == pos(o, k));
#elif CONT == 0
					bt::step("insert_pos(%d)", k);
					bool isnew = pos(o, k) >= o.size();
					auto p = c.insert_pos(keys[(size_t)k]);
					fuse() = -1;
					radd(o, k, v);
					CHECK(p.second == isnew);
					CHECK(p.first == pos(o, k));
#endif
					break;
				}
				case 22: {
#if CONT == 5
					bool front = rng.one_in(2);
					bt::step("push_%s_or_assign(%d)", front ? "front" : "back", k);
					auto r = front ? c.push_front_or_assign(keys[(size_t)k], X::make(v)) : c.push_back_or_assign(K(keys[(size_t)k]), X::make(v));
					fuse() = -1;
					if (pos(o, k) < o.size()) {
						CHECK(!r.second);
						o[pos(o, k)].second = v;
						at(c, o, r.first, pos(o, k));
					}
					else
						inserted(c, o, r, k, v, front ? 2 : 1);
#elif CONT == 1 || CONT == 7 || CONT == 9
					size_t h = SORTED && rng.one_in(2) ? ub(o, k) : rng.below(o.size() + 1);
					bt::step("try_emplace(hint %zu, %d)", h, k);
					strong = true;
					auto it = c.begin();
					std::advance(it, (ptrdiff_t)h);
					auto r = c.try_emplace(it, keys[(size_t)k], X::make(v));
					fuse() = -1;
					radd(o, k, v);
					at(c, o, r, pos(o, k));
#endif
					break;
				}
				case 23: {
#if CONT == 1 || CONT == 5 || CONT == 7 || CONT == 9
					size_t h = SORTED && rng.one_in(2) ? ub(o, k) : rng.below(o.size() + 1);
					bt::step("insert_or_assign(hint %zu, %d)", h, k);
					auto it = c.begin();
					std::advance(it, (ptrdiff_t)h);
					auto r = c.insert_or_assign(it, keys[(size_t)k], X::make(v));
					fuse() = -1;
					bool isnew = pos(o, k) >= o.size();
					if (!isnew)
						o[pos(o, k)].second = v;
					else if (ORD)
						anywhere(c, o, k, v, true);
					else
						radd(o, k, v);
					at(c, o, r, pos(o, k));
#endif
					break;
				}
				case 24:
				case 25:
				case 30:
				case 31:
				case 32: {
					if (op >= 30 && !o.empty())
						k = o[rng.below(o.size())].first;
					size_t n = MULTI ? ub(o, k) - lb(o, k) : (size_t)(pos(o, k) < o.size());
					bt::step("erase(key %d): %zu", k, n);
					size_t r;
#if (KEY == 2 || KEY == 3) && (CONT <= 3 || HM == 0)
					if (rng.one_in(2))
						r = c.erase(std::string_view(keys[(size_t)k].data(), keys[(size_t)k].size()));
					else
#endif
						r = c.erase(keys[(size_t)k]);
					fuse() = -1;
					CHECKM("erase gives the number of elements erased", r == n);
					if (n) {
						size_t p = pos(o, k);
						o.erase(o.begin() + (ptrdiff_t)p, o.begin() + (ptrdiff_t)(p + n));
						moved = true;
					}
					break;
				}
				case 26:
				case 27:
				case 33:
				case 34: {
					if (o.empty())
						break;
					size_t p = rng.below(o.size());
					auto it = c.begin();
					std::advance(it, (ptrdiff_t)p);
					int kk = code(keyof(*it));
					bt::step("erase(iterator at %zu, key %d)", p, kk);
					auto r = c.erase(it);
					fuse() = -1;
					if (RHASH) {
						o.erase(o.begin() + (ptrdiff_t)pos(o, kk));
						size_t left = 0;
						for (; r != c.end() && left <= o.size(); ++r)
							++left;
						CHECKM("erase gives the next element", left == o.size() - p);
					}
					else {
						o.erase(o.begin() + (ptrdiff_t)p);
						at(c, o, r, p);
					}
					moved = true;
					break;
				}
				case 28:
				case 35: {
					size_t a = rng.below(o.size() + 1), b = a + rng.below((rng.one_in(3) ? o.size() - a : std::min<size_t>(o.size() - a, 4)) + 1);
					bt::step("erase(%zu, %zu)", a, b);
					auto i = c.begin(), j = c.begin();
					std::advance(i, (ptrdiff_t)a);
					std::advance(j, (ptrdiff_t)b);
					if (RHASH) {
						std::vector<int> gone;
						for (auto q = i; q != j; ++q)
							gone.push_back(code(keyof(*q)));
						c.erase(i, j);
						fuse() = -1;
						for (int g : gone)
							o.erase(o.begin() + (ptrdiff_t)pos(o, g));
					}
					else {
						auto r = c.erase(i, j);
						fuse() = -1;
						o.erase(o.begin() + (ptrdiff_t)a, o.begin() + (ptrdiff_t)b);
						at(c, o, r, a);
					}
					moved = true;
					break;
				}
				case 29: {
					if (!rng.one_in(4))
						break;
					unsigned m = 2 + (unsigned)rng.below(6), q = (unsigned)rng.below(m);
					if (rng.one_in(8))
						m = 1, q = 0;
					bt::step("erase_if(key %% %u == %u)", m, q);
					size_t n = 0;
					for (auto& p : o)
						n += (unsigned)p.first % m == q;
					size_t r = (size_t)erase_if(c, [&](const auto& e) { return (unsigned)code(keyof(e)) % m == q; });
					fuse() = -1;
					CHECKM("erase_if gives the number of elements erased", r == n);
					o.erase(std::remove_if(o.begin(), o.end(), [&](const P& p) { return (unsigned)p.first % m == q; }), o.end());
					moved = true;
					break;
				}
				case 36:
					if (rng.one_in(6)) {
						bt::step("clear");
						c.clear();
						fuse() = -1;
						o.clear();
						moved = true;
					}
					break;
				case 37:
				case 38: {
					if (s.size() < 2)
						break;
					Slot<C>& y = s[rng.below(s.size())];
					if (&y == &x) {
						bt::step("self copy assignment");
						C& self = c;
						c = self;
						fuse() = -1;
						moved = true;
						break;
					}
					moved = true;
					switch (rng.below(6)) {
						case 0:
							bt::step("swap");
							if (rng.one_in(2))
								c.swap(y.c);
							else
								std::swap(c, y.c);
							fuse() = -1;
							o.swap(y.o);
							same(y.c, y.o, "swap");
							break;
						case 1: {
							bt::step("copy assignment from %zu elements", y.o.size());
							c = y.c;
							fuse() = -1;
							o = y.o;
							same(y.c, y.o, "source of a copy assignment");
							break;
						}
						case 2: {
							bt::step("copy construction");
							C n(y.c);
							fuse() = -1;
							same(n, y.o, "copy construction");
							deep(n, y.o);
							CHECKM("operator==", n == y.c);
							CHECKM("operator!=", !(n != y.c));
							break;
						}
						case 3: {
							bt::step("move construction and assignment");
							C n(std::move(y.c));
							fuse() = -1;
							same(n, y.o, "move construction");
							deep(n, y.o);
							CHECKM("a moved from container is usable", y.c.size() == 0);
							lookups(y.c, Ref(), k);
							y.c = std::move(n);
							same(y.c, y.o, "move assignment");
							break;
						}
						case 4: {
							bt::step("move assignment");
							c = std::move(y.c);
							fuse() = -1;
							o = y.o;
							y.c.clear();
							y.o.clear();
							break;
						}
						default: {
							bt::step("comparison");
							bool eq;
							if (ORD) {
								Ref a = o, b = y.o;
								std::sort(a.begin(), a.end());
								std::sort(b.begin(), b.end());
								eq = a == b;
							}
							else
								eq = o == y.o;
							if constexpr (!(MAP && TY == 5)) {
								CHECKM("operator==", (c == y.c) == eq);
								CHECKM("operator!=", (c != y.c) == !eq);
							}
							fuse() = -1;
							moved = false;
							break;
						}
					}
					break;
				}
				case 39: {
#if CONT == 0 || CONT == 1 || CONT == 2 || CONT == 3 || CONT == 6 || CONT == 7
					if (s.size() < 2 || !rng.one_in(3))
						break;
					Slot<C>& y = s[rng.below(s.size())];
					if (&y == &x || o.size() + y.o.size() > limit * 2)
						break;
					bt::step("merge %zu elements", y.o.size());
					c.merge(y.c);
					fuse() = -1;
					Ref rem;
					for (auto& p : y.o)
						if (!radd(o, p.first, p.second))
							rem.push_back(p);
					y.o = rem;
					same(y.c, y.o, "source of merge");
					deep(y.c, y.o);
#endif
					break;
				}
				case 40:
				case 41: {
#if CONT == 4 || CONT == 5
					moved = true;
					switch (rng.below(6)) {
						case 0: {
							bt::step("sort");
							c.sort(std::less<>());
							std::sort(o.begin(), o.end());
							break;
						}
						case 1: {
							bt::step("shrink_to_fit");
							c.shrink_to_fit();
							break;
						}
						case 2: {
							bt::step("rehash");
							c.rehash();
							moved = false;
							break;
						}
						case 3: {
							size_t n = rng.below(o.size() * 4 + 2);
							bt::step("rehash(%zu)", n);
							c.rehash(n);
							moved = false;
							break;
						}
						case 4: {
							size_t n = rng.below(o.size() * 3 + 2);
							bt::step("reserve(%zu)", n);
							c.reserve(n);
							moved = false;
							break;
						}
						default: {
							float f = (float)rng.below(120) / 100.f;
							bt::step("max_load_factor(%g)", (double)f);
							c.max_load_factor(f);
							moved = false;
						}
					}
					fuse() = -1;
#elif CONT == 6
					bt::step("shrink_to_fit");
					c.shrink_to_fit();
					fuse() = -1;
					moved = true;
#elif CONT >= 8
					switch (rng.below(3)) {
						case 0: {
							bt::step("rehash");
							c.rehash();
							break;
						}
						default: {
							size_t n = rng.below(o.size() * 3 + 2);
							bt::step("reserve(%zu)", n);
							c.reserve(n);
						}
					}
					fuse() = -1;
					moved = true;
#endif
					break;
				}
				case 42: {
#if CONT == 4 || CONT == 5
					// direct access to the sequence, then rehash removes the duplicates in a stable way
					if (big || !rng.one_in(3))
						break;
					bt::step("sequence().push_back then rehash");
					size_t n = rng.below(8);
					for (size_t i = 0; i < n; ++i) {
						int kk = rcode();
						uint64_t vv = nextv();
						c.sequence().push_back(mk(kk, vv));
						if (!contains_code(o, kk))
							o.push_back(P(kk, vv));
					}
					if (n)
						c.rehash();
					fuse() = -1;
#endif
					break;
				}
				case 43: {
					// construction from a range
					if (!rng.one_in(3))
						break;
					std::vector<VT> in;
					Ref w;
					size_t n = rng.below(12);
					in.reserve(n);
					for (size_t i = 0; i < n; ++i) {
						w.push_back(P(rcode(), nextv()));
						in.push_back(mk(w.back().first, w.back().second));
					}
					bt::step("construction from a range of %zu", n);
					C d(in.begin(), in.end());
					fuse() = -1;
					Ref e;
					for (auto& p : w)
						if (ORD) {
							if (!contains_code(e, p.first))
								e.push_back(p);
						}
						else
							radd(e, p.first, p.second);
					if (!(FLAT && MAP && !STABLE))
						same(d, e, "construction from a range");
					break;
				}
				default:
					fuse() = -1;
					for (int i = 0; i < 3; ++i)
						lookups(c, o, rng.one_in(2) || o.empty() ? rcode() : o[rng.below(o.size())].first);
					return;
			}
		}
		catch (const Thrown&) {
			fuse() = -1;
			bt::step("  threw");
			for (auto& y : s)
				resync(y);
			total();
			if (strong) {
				// a single insertion that throws adds nothing and loses nothing
				CHECKM("an insertion that throws leaves the content unchanged", x.o == before);
			}
			return;
		}
		fuse() = -1;
		total();
		if (rng.one_in(limit > 100 ? 12 : 2))
			same(c, o, "content");
		else
			CHECK(c.size() == o.size());
		lookups(c, o, k);
		if (rng.one_in(12))
			deep(c, o);
		if (ORD && !moved && !ad.empty()) {
			// references and iterators stay valid whatever is inserted
			auto nad = addrs(c);
			Ref n = values(c);
			std::map<int, const void*> mm;
			for (size_t i = 0; i < n.size(); ++i)
				mm[n[i].first] = nad[i];
			for (size_t i = 0; i < old.size(); ++i)
				CHECKM("addresses of the elements are stable", mm.count(old[i].first) && mm[old[i].first] == ad[i]);
		}
	}
};
int main(int argc, char** argv)
{
	uint64_t total = argc > 1 ? strtoull(argv[1], nullptr, 10) : 20000;
	static const char* cn[] = { "flat_set", "flat_map", "flat_multiset", "flat_multimap", "ordered_set", "ordered_map", "radix_set", "radix_map", "radix_hash_set", "radix_hash_map" };
	static const size_t limits[] = { 4, 10, 24, 60, 140, 300, 700, 2500 };
	uint64_t round = 0;
	while (bt::cases() < total) {
		rng = Rng(5000 + round * 17 + CONT * 1000003 + KEY * 101 + HM * 7);
		size_t li = round < 24 ? round % 6 : rng.below(HM == 2 ? 6 : 8);
		if ((HM == 1 || HM == 2 || HM == 4) && li > 5)
			li = 5;
		char b[200];
		newkeys(limits[li] + 2 + rng.below(limits[li] * 2));
		snprintf(b, sizeof b, "%s, key type %d, mapped type %s, hash %d, round %llu, size limit %zu, %zu keys", cn[CONT], KEY, MAP ? tyname() : "none", HM, (unsigned long long)round, limits[li], keys.size());
		bt::ctx() = b;
		bt::hist().clear();
		{
			Hist<Cont> h;
			h.limit = limits[li];
			h.s.resize(1 + rng.below(3));
			size_t steps = 150 + rng.below(500) + (li > 4 ? 600 : 0);
			if (limits[li] >= 700) {
				// fill
				auto& x = h.s[0];
				for (size_t i = 0; i < limits[li] - limits[li] / 4; ++i) {
					int k = rcode();
					uint64_t v = nextv();
					auto r = x.c.insert(mk(k, v));
					h.inserted(x.c, x.o, r, k, v);
					if (ORD && i > 900)
						break;
				}
			}
			for (size_t i = 0; i < steps; ++i)
				h.one();
			for (auto& x : h.s) {
				h.same(x.c, x.o, "end of the round");
				h.deep(x.c, x.o);
			}
			if (round < 5)
				bt::sample("%s: %zu operations, last: %s", b, steps, bt::hist().empty() ? "" : bt::hist().back().c_str());
		}
		keys.clear();
		if ((MAP && X::tracked) || KTR)
			CHECKM("every element is destroyed", live() == 0);
		++round;
	}
	printf("rounds %llu, exceptions %ld\n", (unsigned long long)round, fired());
	return bt::done();
}
