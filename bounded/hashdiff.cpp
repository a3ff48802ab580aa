// Bounded stand-in for C03: equal bytes / equal values hash equal whatever their address and class. usage: hashdiff N
#include "bt.hpp"
#include <memory>
#include <string_view>
#include <seq/hash.hpp>
#include <seq/tiny_string.hpp>
using namespace bt;
using seq::hasher;
template<class F>
static void bytes(Rng& g, const char* name, F f)
{
	size_t n = g.one_in(4) ? g.below(600) : g.below(80);
	size_t o1 = g.below(17), o2 = g.below(17);
	char* a = (char*)malloc(n + o1);
	char* b = (char*)malloc(n + o2);
	for (size_t i = 0; i < o1; ++i)
		a[i] = (char)g();
	for (size_t i = 0; i < o2; ++i)
		b[i] = (char)g();
	for (size_t i = 0; i < n; ++i)
		a[o1 + i] = b[o2 + i] = (char)g();
	ctx() = std::string(name) + " length " + std::to_string(n) + " offsets " + std::to_string(o1) + "," + std::to_string(o2);
	uint64_t h = f(a + o1, n);
	CHECK(h == f(b + o2, n));
	CHECK(h == f(a + o1, n));
	free(a);
	free(b);
	cases() += 2;
}
template<class Char>
static void strings(Rng& g)
{
	size_t n = g.one_in(3) ? g.below(200) : g.below(40);
	std::basic_string<Char> s(n, Char('a'));
	bool zero = g.one_in(8);
	for (auto& c : s)
		c = zero ? (Char)g.below(3) : (Char)(1 + g.below(250));
	using T = seq::tiny_string<Char>;
	using T2 = seq::tiny_string<Char, std::char_traits<Char>, std::allocator<Char>, 45>;
	using V = seq::tiny_string<Char, std::char_traits<Char>, seq::view_allocator<Char>, 0>;
	using SV = std::basic_string_view<Char>;
	T t(s.data(), s.size());
	T2 t2(s.data(), s.size());
	if (g.one_in(2)) { // another history: grown then shrunk
		t.append(100, Char('z'));
		t.resize(n);
		t2.append(60, Char('z'));
		t2.resize(n);
	}
	V v(t.data(), t.size());
	SV sv(s);
	ctx() = "string of " + std::to_string(n) + " characters of " + std::to_string(sizeof(Char)) + " bytes";
	const size_t h = hasher<std::basic_string<Char>>{}(s);
	CHECK(hasher<std::basic_string<Char>>{}(t) == h);
	CHECK(hasher<std::basic_string<Char>>{}(t2) == h);
	CHECK(hasher<std::basic_string<Char>>{}(v) == h);
	CHECK(hasher<std::basic_string<Char>>{}(sv) == h);
	CHECK(hasher<T>{}(s) == h && hasher<T>{}(t) == h && hasher<T>{}(t2) == h && hasher<T>{}(v) == h && hasher<T>{}(sv) == h);
	CHECK(hasher<T2>{}(s) == h && hasher<T2>{}(t) == h && hasher<T2>{}(t2) == h && hasher<T2>{}(v) == h && hasher<T2>{}(sv) == h);
	CHECK(hasher<V>{}(s) == h && hasher<V>{}(t) == h && hasher<V>{}(t2) == h && hasher<V>{}(v) == h && hasher<V>{}(sv) == h);
	CHECK(hasher<SV>{}(s) == h && hasher<SV>{}(t) == h && hasher<SV>{}(v) == h && hasher<SV>{}(sv) == h);
	CHECK(std::hash<T>{}(s) == h && std::hash<T>{}(t) == h && std::hash<T2>{}(t) == h && std::hash<V>{}(v) == h);
	if (!zero) {
		CHECK(hasher<T>{}(s.c_str()) == h && hasher<std::basic_string<Char>>{}(t.c_str()) == h && hasher<SV>{}(s.c_str()) == h && std::hash<T>{}(s.c_str()) == h);
	}
	if (g.one_in(10)) {
		CHECK(hasher<SV>{}(SV()) == hasher<T>{}(T()) && hasher<V>{}(V()) == hasher<std::basic_string<Char>>{}(std::basic_string<Char>()));
		CHECK(hasher<T>{}(SV()) == hasher<T>{}(V()));
	}
	std::pair<T, int> p(t, 5), q(T(s.c_str(), n), 5);
	CHECK(hasher<decltype(p)>{}(p) == hasher<decltype(q)>{}(q));
	std::tuple<std::basic_string<Char>, double, T> a(s, 0.0, t), b(s, -0.0, T(s.data(), n));
	CHECK(a == b && hasher<decltype(a)>{}(a) == hasher<decltype(b)>{}(b));
	cases() += 30;
}
template<class I>
static void ints(Rng& g)
{
	I x = (I)g.skewed(), y = x;
	CHECK(hasher<I>{}(x) == hasher<I>{}(y));
	std::pair<I, double> p(x, 0.), q(x, -0.);
	CHECK(hasher<decltype(p)>{}(p) == hasher<decltype(p)>{}(q));
	cases() += 2;
}
int main(int argc, char** argv)
{
	uint64_t n = argc > 1 ? strtoull(argv[1], nullptr, 10) : 20000;
	Rng g(7);
	CHECK(seq::hash_bytes_murmur64(nullptr, 0) == seq::hash_bytes_murmur64("", 0));
	CHECK(seq::hash_bytes_fnv1a(nullptr, 0) == seq::hash_bytes_fnv1a("", 0));
	CHECK(seq::hash_bytes_komihash(nullptr, 0) == seq::hash_bytes_komihash("", 0));
	CHECK(hasher<double>{}(0.) == hasher<double>{}(-0.) && hasher<float>{}(0.f) == hasher<float>{}(-0.f) && hasher<long double>{}(0.L) == hasher<long double>{}(-0.L));
	for (uint64_t i = 0; i < n; ++i) {
		bytes(g, "murmur64", [](const void* p, size_t k) { return seq::hash_bytes_murmur64(p, k); });
		bytes(g, "fnv1a", [](const void* p, size_t k) { return seq::hash_bytes_fnv1a(p, k); });
		bytes(g, "komihash", [](const void* p, size_t k) { return seq::hash_bytes_komihash(p, k); });
		strings<char>(g);
		strings<wchar_t>(g);
		strings<char16_t>(g);
		ints<int>(g);
		ints<long long>(g);
		ints<unsigned char>(g);
		auto u = std::make_unique<int>(3);
		auto s = std::make_shared<int>(4);
		auto s2 = s;
		CHECK(hasher<std::unique_ptr<int>>{}(u) == hasher<int*>{}(u.get()) && hasher<std::unique_ptr<int>>{}(u) == hasher<std::unique_ptr<int>>{}(u.get()));
		CHECK(hasher<std::shared_ptr<int>>{}(s) == hasher<std::shared_ptr<int>>{}(s2) && hasher<std::shared_ptr<int>>{}(s) == hasher<int*>{}(s.get()));
		if (i < 5)
			sample("%s", ctx().c_str());
	}
	return done();
}
