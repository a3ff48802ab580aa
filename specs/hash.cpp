// Contracts of the hash functions: for a message of any length at any address they terminate, read the message only, and
// the value is a function of the length and the bytes (no address, alignment or mutable global can influence it);
// scalar hashers are congruent with ==; composed hashers depend on the component hashes only.
#include "vf.hpp"
#include <string>
#include <string_view>
#include <seq/hash.hpp>
#include <seq/tiny_string.hpp>
using namespace seq;
static const uint8_t* g_msg;
static uint64_t g_len;
template<class F>
static inline void bounds(F f)
{
	uint64_t n = vf_size("n", 0, 1ull << 40);
	g_msg = vf::array<uint8_t>(n, "msg");
	g_len = n;
	uint8_t* snap = vf::snap(const_cast<uint8_t*>(g_msg));
	vf_term(n);
	vf_cut_loops(true);
	vf_no_address(true);
	uint64_t r = f(g_msg, n); // every read is a bounds obligation, every address dependence too
	vf_no_address(false);
	vf_cut_loops(false);
	vf_assert(vf_unchanged(g_msg, snap, 0, n), "the message is not modified");
	(void)r;
	vf_cover("hashed");
}
VF_HINT(rem, const uint8_t* p, uint64_t r) { return vf_offset(p) + r == g_len; }
VF_PROOF(murmur_reads) { vf_require_term(true); bounds([](const void* p, size_t n) { return hash_bytes_murmur64(p, n); }); }
VF_PROOF(fnv_reads) { vf_require_term(true); bounds([](const void* p, size_t n) { return hash_bytes_fnv1a(p, n); }); }
VF_PROOF(komi_reads) { vf_hint(VF_FN(rem)); vf_require_term(true); bounds([](const void* p, size_t n) { return hash_bytes_komihash(p, n); }); }
// empty message at null
VF_PROOF(empty_null)
{
	vf_assert(hash_bytes_murmur64(nullptr, 0) == hash_bytes_murmur64("", 0), "murmur of an empty range at null");
	vf_assert(hash_bytes_fnv1a(nullptr, 0) == hash_bytes_fnv1a("", 0), "fnv of an empty range at null");
	vf_assert(hash_bytes_komihash(nullptr, 0) == hash_bytes_komihash("", 0), "komihash of an empty range at null");
	vf_cover("end");
}
// values that compare equal hash equal
template<class T, class U>
static inline bool bits_equal(T a, T b)
{
	U x, y;
	memcpy(&x, &a, sizeof a);
	memcpy(&y, &b, sizeof b);
	return x == y;
}
template<class T, class U>
static inline void floating()
{
	T a = vf::any<T>("a"), b = vf::any<T>("b");
	if (a == b)
		vf_assert(int(bits_equal<T, U>(a, b)) | (int(a == 0) & int(b == 0)), "equal values have equal bits or are zeros");
	// same bits: same computation (the hasher has no other input); zeros: the 4 combinations
	T z[2] = { T(0), T(-0.0) };
	for (int i = 0; i < 4; ++i) {
		T p = z[i & 1], q = z[i >> 1];
		vf_assert(hasher<T>{}(p) == hasher<T>{}(q), "the zeros hash equal");
		vf_assert(hasher<std::pair<T, int>>{}(std::pair<T, int>(p, 3)) == hasher<std::pair<T, int>>{}(std::pair<T, int>(q, 3)), "pairs of zeros hash equal");
		using Tu = std::tuple<char, T, short>;
		vf_assert(hasher<Tu>{}(Tu(char(1), p, short(2))) == hasher<Tu>{}(Tu(char(1), q, short(2))), "tuples of zeros hash equal");
	}
	vf_no_address(true);
	T c = a;
	vf_assert(hasher<T>{}(a) == hasher<T>{}(c), "the same value hashes equal");
	vf_no_address(false);
	vf_cover("end");
}
template<class T>
static inline void scalar()
{
	T a = vf::any<T>("a"), b = vf::any<T>("b");
	if (a == b) {
		vf_assert(hasher<T>{}(a) == hasher<T>{}(b), "equal values hash equal");
		vf_cover("equal");
	}
	std::pair<T, int> p(a, 3), q(b, 3);
	if (p == q)
		vf_assert(hasher<std::pair<T, int>>{}(p) == hasher<std::pair<T, int>>{}(q), "equal pairs hash equal");
	std::tuple<char, T, short> t(char(1), a, short(2)), u(char(1), b, short(2));
	if (t == u)
		vf_assert(hasher<std::tuple<char, T, short>>{}(t) == hasher<std::tuple<char, T, short>>{}(u), "equal tuples hash equal");
}
#define SCALAR(T, N)                                                                                                                                                                                   \
	VF_PROOF(scalar_##N) { scalar<T>(); }
SCALAR(int, i32)
SCALAR(unsigned char, u8)
SCALAR(signed char, i8)
SCALAR(uint64_t, u64)
SCALAR(bool, bool)
SCALAR(wchar_t, wchar)
SCALAR(char16_t, c16)
VF_PROOF(scalar_float) { floating<float, uint32_t>(); }
VF_PROOF(scalar_double) { floating<double, uint64_t>(); }
enum class En : unsigned char { A, B };
VF_PROOF(scalar_enum)
{
	En a = (En)vf::any<uint8_t>("a");
	vf_assert(hasher<En>{}(a) == hasher<En>{}((unsigned char)a), "an enum and its underlying value hash equal");
	vf_cover("end");
}
VF_PROOF(scalar_pointer)
{
	uint64_t n = vf_size("n", 1, 1000);
	int* a = vf::array<int>(n, "a");
	uint64_t i = vf_size("i", 0, 1000);
	vf_assume(i < n);
	int *p = a + i, *q = &a[n - 1] - (n - 1 - i);
	vf_assert(hasher<int*>{}(p) == hasher<int*>{}(q), "equal pointers hash equal");
	const int* cp = p;
	vf_assert(hasher<std::unique_ptr<int>>{}(cp) == hasher<int*>{}(p), "a unique_ptr hashes as its pointer");
	vf_cover("end");
}
// string hashers of the different string classes call the byte hash on exactly the characters of the string
static const void* g_p;
static uint64_t g_n, g_calls;
extern "C" uint64_t vf_stub_komi(const void* p, size_t n)
{
	++g_calls;
	g_p = p;
	g_n = n;
	return vf_any_u64("hash");
}
template<class Char, class H, class S>
static inline void one(const H& h, const S& s, const Char* d, uint64_t n)
{
	g_calls = 0;
	(void)h(s);
	if (vf_native())
		return;
	vf_assert(g_calls == 1, "one call of the byte hash");
	vf_assert(g_p == (const void*)d, "on the first character");
	vf_assert(g_n == n * sizeof(Char), "with the size of the string in bytes");
}
template<class Char>
static inline void strings()
{
	uint64_t n = vf_size("n", 0, 1ull << 40);
	Char* d = vf::array<Char>(n, "d");
	using SV = std::basic_string_view<Char>;
	SV v(d, n);
	one<Char>(hasher<SV>{}, v, d, n);
	one<Char>(hasher<std::basic_string<Char>>{}, v, d, n);
	one<Char>(hasher<tiny_string<Char>>{}, v, d, n);
	one<Char>(std::hash<tiny_string<Char>>{}, v, d, n);
	using TV = tiny_string<Char, std::char_traits<Char>, view_allocator<Char>, 0>;
	TV t(d, n);
	one<Char>(hasher<TV>{}, t, d, n);
	one<Char>(hasher<std::basic_string<Char>>{}, t, d, n);
	one<Char>(hasher<tiny_string<Char>>{}, t, d, n);
	one<Char>(std::hash<tiny_string<Char>>{}, t, d, n);
	vf_cover("end");
}
#define STRINGS(C, N)                                                                                                                                                                                  \
	VF_PROOF(string_##N)                                                                                                                                                                           \
	{                                                                                                                                                                                              \
		vf_replace("^seq::hash_bytes_komihash\\(", (const void*)&vf_stub_komi);                                                                                                              \
		strings<C>();                                                                                                                                                                          \
	}
STRINGS(char, char)
STRINGS(wchar_t, wchar)
