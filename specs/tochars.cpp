// Contracts of integer to_chars: canonical text, range respected.
#include "vf.hpp"
#include <seq/charconv.hpp>
using namespace seq;
typedef unsigned __int128 u128;
template<class T, class C>
static inline void base10(uint64_t maxlen, uint64_t lo = 0, uint64_t hi = ~0ull)
{
	using U = std::make_unsigned_t<T>;
	T v = vf::any<T>("v");
	if (lo || ~hi)
		vf_assume(vf::both((uint64_t)v >= lo, (uint64_t)v <= hi)); // the magnitudes are split over harnesses
	uint64_t n = vf_size("n", 0, maxlen);
	C* b = vf::array<C>(n, "buf"); // exactly n characters: a write outside is a bounds obligation
	integral_chars_format f;
	auto r = to_chars(b, b + n, v, 10, f);
	bool neg = std::is_signed_v<T> && v < 0;
	U a = neg ? (U)(0 - (U)v) : (U)v;
	unsigned nd = 1;
	{
		uint64_t p = 10;
		for (unsigned i = 1; i < (sizeof(U) == 8 ? 20u : 10u); ++i) {
			if (a >= p)
				++nd;
			p *= 10;
		}
	}
	unsigned len = (f.integral_min_width > nd ? f.integral_min_width : nd) + neg;
	vf_assert((r.ec == std::errc()) == (len <= n), "fails exactly when the text does not fit");
	if (r.ec != std::errc()) {
		vf_assert(r.ec == std::errc::value_too_large && r.ptr == b + n, "failure is reported with the end of the range");
		vf_cover("too large");
		return;
	}
	vf_assert(r.ptr == b + len, "length: sign and digits, padded to the minimum width");
	vf_assert(!neg || b[0] == (C)'-', "minus sign");
	// the decimal digits of a are the remainders of repeated division (two digits at a time)
	U x = a;
	for (unsigned i = len; i > neg;) {
		U r = (U)(x % 100);
		--i;
		vf_assert(b[i] == (C)('0' + (int)(r % 10)), "the digits denote the value");
		if (i > neg) {
			--i;
			vf_assert(b[i] == (C)('0' + (int)(r / 10)), "the digits denote the value");
		}
		x = (U)(x / 100);
	}
	vf_cover("written");
}
VF_PROOF(u8_10) { base10<uint8_t, char>(8); }
VF_PROOF(u16_10) { base10<uint16_t, char>(8); }
VF_PROOF(i16_10) { base10<int16_t, wchar_t>(8); }
VF_PROOF(u32_10) { base10<uint32_t, char>(14); }
VF_PROOF(i32_10) { base10<int32_t, char>(14); }
#define E18 1000000000000000000ull
VF_PROOF(u64_10a) { base10<uint64_t, char>(24, 0, 99999999); }
VF_PROOF(u64_10b) { base10<uint64_t, char>(24, 100000000, 999999999999ull); }
VF_PROOF(u64_10c) { base10<uint64_t, char>(24, 1000000000000ull, 99999999999999ull); }
VF_PROOF(u64_10d) { base10<uint64_t, char>(24, 100000000000000ull, 9999999999999999ull); }
VF_PROOF(u64_10e) { base10<uint64_t, char>(24, 10000000000000000ull, E18 - 1); }
VF_PROOF(u64_10f) { base10<uint64_t, char>(24, E18, ~0ull - 1); }
VF_PROOF(u64_10g) { base10<uint64_t, char>(24, ~0ull - 1, ~0ull); }
