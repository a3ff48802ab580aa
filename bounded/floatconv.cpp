// Bounded stand-in: floating point to_chars / from_chars against printf / strtod, within tolerances. usage: floatconv N
#include "bt.hpp"
#include <cmath>
#include <cfloat>
#include <limits>
#include <seq/charconv.hpp>
using namespace bt;
static double rnd_double(Rng& g)
{
	double m = (double)g.skewed();
	if (g.one_in(3))
		m = (double)(g() % 1000);
	if (m == 0)
		m = 1;
	int e = (int)g.in(0, g.one_in(3) ? 560 : g.one_in(2) ? 40 : 12);
	e = g.one_in(2) ? e / 2 : -(e / 2);
	double d = m * std::pow(10., e);
	if (g.one_in(6)) { // powers of ten and neighbours
		d = std::pow(10., (int)g.in(0, 560) - 280);
		if (g.one_in(2))
			d = std::nextafter(d, g.one_in(2) ? 0. : 1e300);
	}
	if (g.one_in(4))
		d = 1. / d;
	if (!(std::fabs(d) < 1e290) || !(std::fabs(d) > 1e-290))
		d = 1.5;
	return g.one_in(2) ? d : -d;
}
static double worst_w = 0, worst_r = 0;
static void reading(const std::string& s, double expect, size_t len, const char* what)
{
	char* b = (char*)malloc(s.size());
	memcpy(b, s.data(), s.size());
	double x = -3;
	auto r = seq::from_chars((const char*)b, (const char*)b + s.size(), x);
	++cases();
	std::string m = std::string(what) + " text '" + s + "'";
	CHECKM(m, r.ec == std::errc());
	CHECKM(m, r.ptr == b + len);
	if (expect == 0 || std::isinf(expect))
		CHECKM(m, x == expect);
	else {
		double e = std::fabs((x - expect) / expect);
		if (e > worst_r)
			worst_r = e;
		char q[80];
		snprintf(q, sizeof q, " got %.17g expected %.17g", x, expect);
		CHECKM(m + q, e <= 4e-15);
	}
	float f = -3;
	auto rf = seq::from_chars((const char*)b, (const char*)b + s.size(), f);
	CHECKM(m, rf.ec == std::errc() && rf.ptr == b + len);
	if (std::fabs(expect) < 1e37 && std::fabs(expect) > 1e-36)
		CHECKM(m, std::fabs(((double)f - expect) / expect) <= 6e-7);
	free(b);
}
static void writing(Rng& g, double d)
{
	int prec = (int)g.below(16);
	int k = (int)g.below(3);
	seq::chars_format fmt = k == 0 ? seq::scientific : k == 1 ? seq::fixed : seq::general;
	if (k == 1 && (std::fabs(d) > 1e17))
		k = 0, fmt = seq::scientific;
	char buf[700];
	auto r = seq::to_chars(buf, buf + sizeof buf, d, fmt, prec, '.', 'e', false);
	++cases();
	char m[300];
	snprintf(m, sizeof m, "value %.17g format %d precision %d", d, k, prec);
	CHECKM(m, r.ec == std::errc());
	std::string s(buf, r.ptr);
	std::string full = std::string(m) + " text '" + s + "'";
	char* e;
	double v = strtod(s.c_str(), &e);
	CHECKM(full, e == s.c_str() + s.size() && !s.empty()); // the whole text is one number
	CHECKM(full, s.find_first_not_of("0123456789.e+-") == std::string::npos);
	CHECKM(full, (s[0] == '-') == (d < 0));
	// unit of the last required digit
	double lg = std::floor(std::log10(std::fabs(d)));
	double unit = k == 0 ? std::pow(10., lg - prec) : k == 1 ? std::pow(10., -prec) : std::pow(10., lg - std::max(prec - 1, 0));
	double err = std::fabs(v - d);
	double tol = (k == 1 ? 0.55 : 0.5000001) * unit + std::fabs(d) * 1e-12;
	if (k == 2)
		tol = 1.0001 * unit + std::fabs(d) * 1e-12; // at powers of ten the general format may keep one digit less
	char q[100];
	snprintf(q, sizeof q, " read back %.17g", v);
	CHECKM(full + q, err <= tol);
	if (k != 1) {
		double w = (err - 0.5 * unit) / std::fabs(d);
		if (w > worst_w)
			worst_w = w;
	}
	// layout
	if (k == 0)
		CHECKM(full, s.find('e') != std::string::npos);
	if (k == 1)
		CHECKM(full, s.find('e') == std::string::npos);
	size_t dot = s.find('.');
	if (dot != std::string::npos && k != 2) {
		size_t nd = s.find('e') == std::string::npos ? s.size() - dot - 1 : s.find('e') - dot - 1;
		CHECKM(full, nd <= (size_t)prec);
	}
	// exact and short rooms: same text or an error, never a write outside (ASan)
	for (int i = 0; i < 3; ++i) {
		size_t room = i == 0 ? s.size() : i == 1 ? s.size() - 1 : g.below(s.size() + 1);
		char* b = (char*)malloc(room);
		auto x = seq::to_chars(b, b + room, d, fmt, prec, '.', 'e', false);
		++cases();
		if (x.ec == std::errc()) {
			CHECKM(full, (size_t)(x.ptr - b) == s.size() && memcmp(b, s.data(), s.size()) == 0);
		}
		else
			CHECKM(full, x.ec == std::errc::value_too_large && x.ptr == b + room && room < s.size() + 32);
		if (room < s.size())
			CHECKM(full, x.ec == std::errc::value_too_large);
		free(b);
	}
	if (cases() % 20011 < 4)
		sample("to_chars %s", full.c_str());
	// other separators
	char b2[700];
	auto r2 = seq::to_chars(b2, b2 + sizeof b2, d, fmt, prec, ',', 'E', true);
	std::string t(b2, r2.ptr);
	for (auto& c : t)
		c = c == ',' ? '.' : c == 'E' ? 'e' : c;
	CHECKM(full, t == s);
	// read back by the library
	if (std::fabs(v) < 1e290 && (std::fabs(v) > 1e-290 || v == 0))
		reading(s, v, s.size(), "written");
}
int main(int argc, char** argv)
{
	uint64_t n = argc > 1 ? strtoull(argv[1], nullptr, 10) : 20000;
	Rng g(3);
	for (uint64_t i = 0; i < n; ++i) {
		double d = rnd_double(g);
		writing(g, d);
		// texts from printf and hand made ones
		char b[400];
		snprintf(b, sizeof b, g.one_in(2) ? "%.*e" : "%.*g", (int)g.below(20), d);
		std::string s = b;
		double e = strtod(b, nullptr);
		size_t lead = g.below(3);
		std::string t(lead, ' ');
		if (s[0] != '-' && g.one_in(4))
			t += '+';
		t += s;
		size_t len = t.size();
		static const char* tails[] = { "", "", " ", "x", ",", "/", ":", "..", "-", "+1" };
		std::string tail = tails[g.below(10)];
		if (s.find('.') == std::string::npos && tail == "..")
			tail = "";
		if (std::fabs(e) < 1e290 && std::fabs(e) > 1e-290)
			reading(t + tail, e, len, "printf");
		// plain decimals with many digits
		std::string p;
		int a = (int)g.below(25), c = (int)g.below(25);
		for (int j = 0; j < a; ++j)
			p += (char)('0' + g.below(10));
		if (g.one_in(4))
			p = "000" + p;
		if (c || a == 0) {
			p += '.';
			for (int j = 0; j < c; ++j)
				p += (char)('0' + (g.one_in(3) ? 0 : g.below(10)));
			if (c == 0)
				p += '5';
		}
		double pe = strtod(p.c_str(), nullptr);
		if (pe == 0 || pe > 1e-20)
			reading(p, pe, p.size(), "decimal");
		// malformed
		static const char* bad[] = { "", "+", "-", ".", "e5", "-.", "+.e", "abc", "   ", "--1", "+-1", ".e1", "n", "na", "i", "in", "- 1", "-e" };
		const char* w = bad[g.below(18)];
		double x = 9;
		auto r = seq::from_chars(w, w + strlen(w), x);
		++cases();
		CHECKM(w, r.ec == std::errc::invalid_argument && r.ptr == w && x == 0);
	}
	for (int k = 0; k < 3; ++k) {
		seq::chars_format fmt = k == 0 ? seq::scientific : k == 1 ? seq::fixed : seq::general;
		double sp[] = { 0., -0., INFINITY, -INFINITY, NAN };
		for (double d : sp)
			for (int prec = 0; prec < 18; ++prec) {
				char b[64];
				auto r = seq::to_chars(b, b + 64, d, fmt, prec, '.', 'e', false);
				CHECK(r.ec == std::errc());
				double x = 5;
				auto q = seq::from_chars((const char*)b, (const char*)r.ptr, x);
				++cases();
				std::string s(b, r.ptr);
				CHECKM(s, q.ec == std::errc() && q.ptr == r.ptr);
				CHECKM(s, std::isnan(d) ? std::isnan(x) : x == d);
				for (size_t room = 0; room <= s.size(); ++room) {
					char* e = (char*)malloc(room);
					auto y = seq::to_chars(e, e + room, d, fmt, prec, '.', 'e', false);
					CHECKM(s, y.ec == std::errc() ? std::string(e, y.ptr) == s : y.ptr == e + room && y.ec == std::errc::value_too_large);
					free(e);
				}
			}
	}
	fprintf(stderr, "worst write %g read %g\n", worst_w, worst_r);
	return done();
}
