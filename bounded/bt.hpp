// Common parts of the bounded stand-ins: deterministic generator (VERIF_SEED), case counter, failure report.
#ifndef BT_HPP
#define BT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <ctime>
namespace bt
{
	inline uint64_t seed()
	{
		const char* s = getenv("VERIF_SEED");
		return s ? strtoull(s, nullptr, 10) : 1;
	}
	struct Rng
	{
		uint64_t s;
		explicit Rng(uint64_t x = 0)
		  : s(x * 0x9E3779B97F4A7C15ull + seed() * 0xD1342543DE82EF95ull + 0x2545F4914F6CDD1Dull)
		{
			(*this)();
			(*this)();
		}
		uint64_t operator()()
		{
			s += 0x9E3779B97F4A7C15ull;
			uint64_t z = s;
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			return z ^ (z >> 31);
		}
		uint64_t below(uint64_t n) { return n ? (*this)() % n : 0; }
		uint64_t in(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
		bool one_in(uint64_t n) { return below(n) == 0; }
		// a value with a random number of significant bits
		uint64_t skewed() { return (*this)() >> below(64); }
	};
	inline uint64_t& cases()
	{
		static uint64_t c = 0;
		return c;
	}
	inline std::vector<std::string>& hist()
	{
		static std::vector<std::string> h;
		return h;
	}
	inline std::string& ctx()
	{
		static std::string s;
		return s;
	}
	inline void step(const char* f, ...)
	{
		char b[256];
		va_list a;
		va_start(a, f);
		vsnprintf(b, sizeof b, f, a);
		va_end(a);
		hist().push_back(b);
	}
	[[noreturn]] inline void fail(const char* file, int line, const char* what, const std::string& more = "")
	{
		printf("FAILED %s:%d %s %s\n  configuration: %s\n  history (%zu steps, last 60):\n", file, line, what, more.c_str(), ctx().c_str(), hist().size());
		size_t i = hist().size() > 60 ? hist().size() - 60 : 0;
		for (; i < hist().size(); ++i)
			printf("    %s\n", hist()[i].c_str());
		fflush(stdout);
		_Exit(7);
	}
	inline void sample(const char* f, ...)
	{
		static int n = 0;
		if (n++ >= 5)
			return;
		char b[400];
		va_list a;
		va_start(a, f);
		vsnprintf(b, sizeof b, f, a);
		va_end(a);
		printf("SAMPLE %s\n", b);
	}
	inline double cpu() { return double(clock()) / CLOCKS_PER_SEC; }
	inline int done()
	{
		printf("CASES %llu\n", (unsigned long long)cases());
		fflush(stdout);
		return 0;
	}
}
#define CHECK(...)                                                                                                                                                                                     \
	do {                                                                                                                                                                                           \
		if (!(__VA_ARGS__))                                                                                                                                                                    \
			bt::fail(__FILE__, __LINE__, #__VA_ARGS__);                                                                                                                                    \
	} while (0)
#define CHECKM(msg, ...)                                                                                                                                                                               \
	do {                                                                                                                                                                                           \
		if (!(__VA_ARGS__))                                                                                                                                                                    \
			bt::fail(__FILE__, __LINE__, #__VA_ARGS__, msg);                                                                                                                               \
	} while (0)
#endif
