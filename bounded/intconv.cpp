// Bounded stand-in: integer to_chars / from_chars against a reference, every 8/16-bit value and random wider ones, every base,
// every format, every buffer size around the exact one, and malformed texts. usage: intconv to|from N
#include "bt.hpp"
#include <algorithm>
#include <charconv>
#include <type_traits>
#include <seq/charconv.hpp>
using namespace bt;
template<class T>
static std::string ref(T v, int base, const seq::integral_chars_format& f)
{
	using U = std::make_unsigned_t<T>;
	bool neg = std::is_signed_v<T> && v < 0;
	uint64_t a = neg ? (uint64_t)(U)(0 - (U)v) : (uint64_t)(U)v;
	std::string s;
	bool z = a == 0;
	do {
		s += (f.upper_case && base != 10 ? "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" : "0123456789abcdefghijklmnopqrstuvwxyz")[a % (unsigned)base];
		a /= (unsigned)base;
	} while (a);
	while (s.size() < f.integral_min_width)
		s += '0';
	if (base == 16 && f.hex_prefix && !z)
		s += "x0";
	if (neg)
		s += '-';
	std::reverse(s.begin(), s.end());
	return s;
}
template<class T, class C>
static void one_to(T v, int base, const seq::integral_chars_format& f, size_t room)
{
	std::string r = ref(v, base, f);
	C* b = (C*)malloc(room * sizeof(C) + 0);
	auto x = seq::to_chars(b, b + room, v, base, f);
	++cases();
	char m[200];
	snprintf(m, sizeof m, "value %lld base %d width %d prefix %d upper %d room %zu expected %s type size %zu char size %zu", (long long)v, base, f.integral_min_width, f.hex_prefix, f.upper_case, room, r.c_str(), sizeof(T), sizeof(C));
	if (r.size() <= room) {
		CHECKM(m, x.ec == std::errc());
		CHECKM(m, x.ptr == b + r.size());
		for (size_t i = 0; i < r.size(); ++i)
			CHECKM(m, b[i] == (C)r[i]);
	}
	else {
		CHECKM(m, x.ec == std::errc::value_too_large);
		CHECKM(m, x.ptr == b + room);
	}
	free(b);
	if (cases() % 100003 == 1)
		sample("to_chars %s", m);
}
template<class T, class C>
static void to(Rng& g, T v, bool full)
{
	static const int bases[] = { 10, 16, 2, 8, 36, 3, 7, 11, 35 };
	seq::integral_chars_format f;
	size_t n = ref(v, 10, f).size();
	one_to<T, C>(v, 10, f, n);
	one_to<T, C>(v, 10, f, n - 1);
	if (!full)
		return;
	int base = g.one_in(3) ? bases[g.below(9)] : (int)g.in(2, 36);
	f = seq::integral_chars_format((unsigned char)(g.one_in(4) ? g.below(256) : g.below(30)), g.one_in(2), g.one_in(2));
	n = ref(v, base, f).size();
	one_to<T, C>(v, base, f, n);
	one_to<T, C>(v, base, f, n - 1);
	one_to<T, C>(v, base, f, g.below(n + 1));
	one_to<T, C>(v, base, f, n + g.below(5));
	f.integral_min_width = (unsigned char)g.below(24);
	n = ref(v, 10, f).size();
	one_to<T, C>(v, 10, f, n);
	one_to<T, C>(v, 10, f, n - 1);
}
// reference parser: [spaces][+-]digits, a "0x" prefix in base 16; returns the consumed length, 0 when there is no number
template<class T>
static size_t refparse(const std::vector<long>& t, int base, T& v, bool& fits)
{
	size_t i = 0, n = t.size();
	auto dig = [&](size_t k) -> int {
		if (k >= n)
			return 99;
		long c = t[k];
		return c >= '0' && c <= '9' ? (int)(c - '0') : c >= 'a' && c <= 'z' ? (int)(c - 'a' + 10) : c >= 'A' && c <= 'Z' ? (int)(c - 'A' + 10) : 99;
	};
	while (i < n && (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13)))
		++i;
	bool neg = false;
	if (i < n && (t[i] == '+' || t[i] == '-')) {
		neg = t[i] == '-';
		if (neg && !std::is_signed_v<T>)
			return 0;
		++i;
	}
	if (dig(i) >= base)
		return 0;
	if (base == 16 && t[i] == '0' && i + 1 < n && (t[i + 1] == 'x' || t[i + 1] == 'X')) {
		if (dig(i + 2) >= base)
			return 0; // documented as a malformed prefix
		i += 2;
	}
	unsigned __int128 a = 0;
	fits = true;
	const unsigned __int128 lim = std::is_signed_v<T> ? (unsigned __int128)std::numeric_limits<T>::max() + neg : (unsigned __int128)std::numeric_limits<T>::max();
	while (dig(i) < base) {
		a = a * (unsigned)base + (unsigned)dig(i);
		if (a > lim) {
			fits = false;
			a = 0;
		}
		++i;
	}
	v = (T)(neg ? 0 - (std::make_unsigned_t<T>)a : (std::make_unsigned_t<T>)a);
	return i;
}
template<class T, class C>
static void one_from(const std::vector<long>& t, int base)
{
	T v = 0, x = 77;
	bool fits = false;
	size_t k = refparse<T>(t, base, v, fits);
	C* b = (C*)malloc(t.size() * sizeof(C));
	std::string m = "text:";
	for (size_t i = 0; i < t.size(); ++i) {
		b[i] = (C)t[i];
		char q[16];
		snprintf(q, sizeof q, t[i] > 32 && t[i] < 127 ? "%c" : "\\%ld", t[i] > 32 && t[i] < 127 ? (int)t[i] : (int)t[i]);
		m += q;
	}
	m += " base " + std::to_string(base) + " type size " + std::to_string(sizeof(T)) + (std::is_signed_v<T> ? "s" : "u") + " char size " + std::to_string(sizeof(C));
	auto r = seq::from_chars((const C*)b, (const C*)b + t.size(), x, base);
	++cases();
	if (k == 0) {
		CHECKM(m, r.ec == std::errc::invalid_argument);
		CHECKM(m, r.ptr == b);
		CHECKM(m, x == 0);
	}
	else {
		CHECKM(m, r.ec == std::errc());
		CHECKM(m, r.ptr == b + k);
		if (fits)
			CHECKM(m, x == v);
	}
	free(b);
	if (cases() % 50021 == 1)
		sample("from_chars %s", m.c_str());
}
template<class T, class C>
static void from(Rng& g)
{
	int base = g.one_in(2) ? 10 : g.one_in(2) ? 16 : (int)g.in(2, 36);
	std::vector<long> t;
	if (g.one_in(3)) { // noise over the interesting alphabet
		static const char al[] = "0123456789abcxXzZfFgG+- \t\n\v\f\r.\x01/:@`[{";
		size_t n = g.below(8);
		for (size_t i = 0; i < n; ++i)
			t.push_back(g.one_in(12) ? (long)(signed char)g() : al[g.below(sizeof al - 1)]);
		if (sizeof(C) > 1 && n && g.one_in(2))
			t[g.below(n)] = g.one_in(3) ? (long)(int)g() : g.one_in(2) ? -1 : (long)(al[g.below(sizeof al - 1)] + 256 * (int)g.in(1, 255));
		if (sizeof(C) == 1)
			for (auto& c : t)
				c = (signed char)c;
		if (sizeof(C) == 2)
			for (auto& c : t)
				c = (uint16_t)c;
	}
	else {
		for (size_t i = g.below(4); i > 0; --i)
			t.push_back(" \t\n\v\f\r"[g.below(6)]);
		T v = (T)g.skewed();
		if (g.one_in(8))
			v = g.one_in(2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
		std::string s = ref(v, base, seq::integral_chars_format((unsigned char)g.below(g.one_in(4) ? 40 : 2), g.one_in(2), g.one_in(2)));
		if (s[0] != '-' && g.one_in(4))
			t.push_back('+');
		for (char c : s)
			t.push_back(c);
		if (g.one_in(2))
			t.push_back(" .,zZ+-/:@"[g.below(10)]);
		if (g.one_in(4))
			t.push_back('0' + g.below(10));
	}
	if (sizeof(C) == 2) // 0xFFFF is the end mark of 16-bit characters
		for (auto& c : t)
			if (c == 0xFFFF)
				c = 0xFFFE;
	one_from<T, C>(t, base);
}
template<class T, class C>
static void round_trip(T v, int base, const seq::integral_chars_format& f)
{
	C b[300];
	auto r = seq::to_chars(b, b + 300, v, base, f);
	T x = (T)~v;
	auto q = seq::from_chars((const C*)b, (const C*)r.ptr, x, base);
	++cases();
	char m[100];
	snprintf(m, sizeof m, "value %lld base %d", (long long)v, base);
	CHECKM(m, r.ec == std::errc() && q.ec == std::errc() && q.ptr == r.ptr);
	CHECKM(m, x == v);
}
template<class T>
static T interesting(Rng& g)
{
	if (g.one_in(6)) { // around powers of ten and two, both signs
		uint64_t p = 1;
		for (int k = (int)g.below(20); k > 0; --k)
			p *= 10;
		if (g.one_in(2))
			p = 1ull << g.below(64);
		p += g.below(5) - 2;
		return (T)(g.one_in(2) ? p : 0 - p);
	}
	if (g.one_in(20))
		return g.one_in(2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
	return (T)(g.one_in(2) ? g.skewed() : 0 - g.skewed());
}
template<class T>
static void all_to(Rng& g, uint64_t n)
{
	if (sizeof(T) <= 2)
		for (long v = std::numeric_limits<T>::min(); v <= (long)std::numeric_limits<T>::max(); ++v)
			to<T, char>(g, (T)v, v % 8 == 0);
	for (uint64_t i = 0; i < n; ++i) {
		to<T, char>(g, interesting<T>(g), true);
		if (i % 4 == 0) {
			to<T, wchar_t>(g, interesting<T>(g), true);
			to<T, char16_t>(g, interesting<T>(g), true);
		}
	}
}
template<class T>
static void all_from(Rng& g, uint64_t n)
{
	if (sizeof(T) <= 2)
		for (long v = std::numeric_limits<T>::min(); v <= (long)std::numeric_limits<T>::max(); ++v)
			round_trip<T, char>((T)v, 10, seq::integral_chars_format());
	for (uint64_t i = 0; i < n; ++i) {
		from<T, char>(g);
		round_trip<T, char>(interesting<T>(g), (int)g.in(2, 36), seq::integral_chars_format((unsigned char)(g.one_in(4) ? g.below(256) : 0), g.one_in(2), g.one_in(2)));
		if (i % 4 == 0) {
			from<T, wchar_t>(g);
			from<T, char16_t>(g);
			round_trip<T, wchar_t>(interesting<T>(g), (int)g.in(2, 36), seq::integral_chars_format());
		}
	}
}
int main(int argc, char** argv)
{
	std::string what = argc > 1 ? argv[1] : "to";
	uint64_t n = argc > 2 ? strtoull(argv[2], nullptr, 10) : 20000;
	Rng g(what == "to" ? 1 : 2);
#define ALL(F)                                                                                                                                                                                         \
	F<signed char>(g, n / 4), F<unsigned char>(g, n / 4), F<short>(g, n / 2), F<unsigned short>(g, n / 2), F<int>(g, n), F<unsigned>(g, n), F<long>(g, n), F<unsigned long>(g, n), F<long long>(g, n / 4),       \
	  F<unsigned long long>(g, n / 4), F<char>(g, n / 8)
	if (what == "to")
		ALL(all_to);
	else
		ALL(all_from);
	return done();
}
