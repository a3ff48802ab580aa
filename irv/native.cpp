// Native runtime of the contract language: replays counterexamples of the verifier against the real code, and searches
// for failing inputs when the verifier gives none. Not part of any proof.
#include "vf.hpp"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#include <new>
#include <cstring>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <fstream>
#include <sstream>
#include <iostream>

namespace
{
	struct Reject
	{
	};
	template<class T>
	struct Mal // allocator that bypasses operator new
	{
		using value_type = T;
		Mal() {}
		template<class U>
		Mal(const Mal<U>&)
		{
		}
		T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); }
		void deallocate(T* p, size_t) { free(p); }
		bool operator==(const Mal&) const { return true; }
		bool operator!=(const Mal&) const { return false; }
	};
	using Blocks = std::map<uintptr_t, size_t, std::less<uintptr_t>, Mal<std::pair<const uintptr_t, size_t>>>;
	Blocks& blocks()
	{
		static Blocks* b = new (malloc(sizeof(Blocks))) Blocks();
		return *b;
	}
	bool tracking = false;
	bool mayfail = false;
	unsigned failEvery = 0;
	struct Shared
	{
		size_t len;
		char buf[1 << 20];
	};
	Shared* sh = nullptr;
	uint64_t rs = 88172645463325252ull;
	uint64_t rnd()
	{
		rs ^= rs << 13;
		rs ^= rs >> 7;
		rs ^= rs << 17;
		return rs * 0x2545F4914F6CDD1Dull;
	}
	struct Item
	{
		char kind;
		uint64_t v;
		std::string bytes;
		bool nul;
	};
	std::vector<Item>* model = nullptr;
	size_t mpos = 0;
	std::vector<uint64_t>* seen;
	std::vector<void*>* arrays;
	int style = 0;
	void logv(const char* fmt, const char* name, unsigned long long v)
	{
		if (sh && sh->len + 200 < sizeof(sh->buf))
			sh->len += snprintf(sh->buf + sh->len, 200, fmt, name, v);
	}
	uint64_t interesting(unsigned bits)
	{
		uint64_t m = bits == 64 ? ~0ull : ((1ull << bits) - 1);
		if (!seen->empty() && rnd() % 4 == 0)
			return ((*seen)[rnd() % seen->size()] + (rnd() % 3) - 1) & m;
		switch (rnd() % 8) {
			case 0: return rnd() % 4;
			case 1: return rnd() % 20;
			case 2: return rnd() % 300;
			case 3: return ((1ull << (rnd() % bits)) + (rnd() % 3) - 1) & m;
			case 4: return (m - rnd() % 4) & m;
			case 5: return (rnd() >> (rnd() % 64)) & m;
			case 6: return (m >> 1) + rnd() % 3 - 1;
			default: return rnd() & m;
		}
	}
	uint64_t next(const char* name, unsigned bits)
	{
		uint64_t m = bits == 64 ? ~0ull : ((1ull << bits) - 1);
		uint64_t v;
		if (model) {
			if (mpos < model->size() && (*model)[mpos].kind == 'v')
				v = (*model)[mpos++].v & m;
			else {
				++mpos;
				v = 0;
			}
		}
		else
			v = interesting(bits);
		seen->push_back(v);
		logv("v %s %llu\n", name, v);
		return v;
	}
}
void* operator new(size_t n)
{
	if (mayfail && tracking) {
		if (rnd() % 6 == 0)
			throw std::bad_alloc();
	}
	void* p = malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	if (tracking)
		blocks()[(uintptr_t)p] = n;
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
static void del(void* p, size_t n, bool sized)
{
	if (!p)
		return;
	if (tracking) {
		auto it = blocks().find((uintptr_t)p);
		if (it != blocks().end()) {
			if (sized && it->second != n) {
				fprintf(stderr, "FAIL sized deallocation with the wrong size\n");
				_exit(9);
			}
			blocks().erase(it);
		}
	}
	free(p);
}
void operator delete(void* p) noexcept { del(p, 0, false); }
void operator delete[](void* p) noexcept { del(p, 0, false); }
void operator delete(void* p, size_t n) noexcept { del(p, n, true); }
void operator delete[](void* p, size_t n) noexcept { del(p, n, true); }

extern "C" {
uint64_t vf_any_u64(const char* n) { return next(n, 64); }
uint32_t vf_any_u32(const char* n) { return (uint32_t)next(n, 32); }
uint16_t vf_any_u16(const char* n) { return (uint16_t)next(n, 16); }
uint8_t vf_any_u8(const char* n) { return (uint8_t)next(n, 8); }
uint64_t vf_size(const char* n, uint64_t lo, uint64_t hi)
{
	uint64_t v;
	if (model) {
		v = mpos < model->size() ? (*model)[mpos].v : lo;
		++mpos;
		if (v < lo || v > hi)
			throw Reject();
	}
	else {
		uint64_t span = hi - lo;
		uint64_t lim = (style & 3) == 0 ? 4 : (style & 3) == 1 ? 20 : (style & 3) == 2 ? 80 : 600;
		v = lo + rnd() % ((span < lim ? span : lim) + 1);
	}
	seen->push_back(v);
	logv("v %s %llu\n", n, v);
	return v;
}
uint64_t vf_pick(const char* n, uint64_t lo, uint64_t hi) { return vf_size(n, lo, hi); }
void vf_assume(bool b)
{
	if (!b)
		throw Reject();
}
void vf_assert(bool b, const char* l)
{
	if (!b) {
		fprintf(stderr, "FAIL assertion: %s\n", l);
		_exit(9);
	}
}
void vf_cover(const char*) {}
void* vf_array(uint64_t nb, uint32_t g, const char* name)
{
	if (nb > (1ull << 28))
		throw Reject();
	bool t = tracking;
	unsigned char* p = (unsigned char*)malloc(nb ? nb : 1);
	if (!nb) {
		free(p);
		p = (unsigned char*)malloc(0);
	}
	blocks()[(uintptr_t)p] = nb;
	arrays->push_back(p);
	tracking = t;
	if (model) {
		if (mpos < model->size() && (*model)[mpos].kind == 'a' && !(*model)[mpos].nul)
			memcpy(p, (*model)[mpos].bytes.data(), std::min<size_t>(nb, (*model)[mpos].bytes.size()));
		else
			memset(p, 0, nb);
		++mpos;
	}
	else {
		unsigned k = rnd() % 4;
		for (uint64_t i = 0; i + g <= nb; i += g) {
			uint64_t v = k == 0 ? rnd() % 3 : k == 1 ? rnd() % 100 : k == 2 ? interesting(g == 8 ? 64 : 8 * g) : rnd();
			memcpy(p + i, &v, g < 8 ? g : 8);
		}
	}
	if (sh && nb <= 20000) {
		logv("a %s %llu ", name, nb);
		for (uint64_t i = 0; i < nb; ++i)
			if (sh->len + 8 < sizeof(sh->buf))
				sh->len += snprintf(sh->buf + sh->len, 4, "%02x", p[i]);
		logv("%s\n", "", 0);
	}
	return p;
}
void* vf_heap(uint64_t nb, uint32_t g, const char* name)
{
	void* p = vf_array(nb, g, name);
	arrays->pop_back();
	return p;
}
static std::pair<uintptr_t, size_t> blk(const void* p)
{
	auto it = blocks().upper_bound((uintptr_t)p);
	if (it == blocks().begin())
		return { 0, 0 };
	--it;
	if ((uintptr_t)p > it->first + it->second)
		return { 0, 0 };
	return { it->first, it->second };
}
void* vf_snapshot(const void* p)
{
	auto b = blk(p);
	if (!b.first)
		throw Reject();
	char* s = (char*)malloc(b.second ? b.second : 1);
	memcpy(s, (void*)b.first, b.second);
	arrays->push_back(s);
	return s + ((uintptr_t)p - b.first);
}
bool vf_unchanged(const void* p, const void* s, uint64_t lo, uint64_t hi) { return hi <= lo || memcmp((const char*)p + lo, (const char*)s + lo, hi - lo) == 0; }
void vf_hint(const void*) {}
void vf_hint_forall(const void*) {}
void vf_hint_clear() {}
void vf_frame(const void*, uint64_t) {}
void vf_heap_gran(uint32_t) {}
bool vf_alive(const void* p) { return blk(p).first != 0; }
void vf_forall(const void* fn, uint64_t np)
{
	for (int i = 0; i < 400; ++i) {
		bool r = true;
		if (np == 1)
			r = ((bool (*)(uint64_t))fn)(rnd() % (1 + (i & 63)));
		else if (np == 2)
			r = ((bool (*)(uint64_t, uint64_t))fn)(rnd() % (1 + (i & 63)), rnd() % (1 + (i & 63)));
		if (!r)
			throw Reject();
	}
}
void vf_on_read(const void*, const void* fn, uint64_t n)
{
	for (uint64_t i = 0; i < n; ++i)
		if (!((bool (*)(uint64_t))fn)(i))
			throw Reject();
}
void vf_check_forall(const void* fn, uint64_t np, const char* label)
{
	for (int i = 0; i < 400; ++i) {
		bool r = true;
		if (np == 1)
			r = ((bool (*)(uint64_t))fn)(rnd() % (1 + (i & 63)));
		else if (np == 2)
			r = ((bool (*)(uint64_t, uint64_t))fn)(rnd() % (1 + (i & 63)), rnd() % (1 + (i & 63)));
		vf_assert(r, label);
	}
}
void vf_cut_loops(bool) {}
void vf_generic(bool) {}
void vf_no_address(bool) {}
void vf_term(uint64_t) {}
void vf_term_clear() {}
void vf_require_term(bool) {}
void vf_unroll(uint32_t) {}
void vf_hint_outer(bool) {}
uint64_t vf_live_heap() { return blocks().size() - arrays->size() * 0; }
bool vf_native() { return true; }
void vf_alloc_may_fail(bool b) { mayfail = b; }
void vf_replace(const char*, const void*) {}
void vf_atomic_hook(const void*, const void*) { throw Reject(); }
void vf_havoc(void* p, uint64_t n)
{
	for (uint64_t i = 0; i < n; ++i)
		((unsigned char*)p)[i] = (unsigned char)rnd();
}
uint64_t vf_obj_size(const void* p) { return blk(p).second; }
bool vf_same_object(const void* a, const void* b) { return blk(a).first == blk(b).first; }
uint64_t vf_offset(const void* p) { return (uintptr_t)p - blk(p).first; }
void vf_lazy_sort(void*, uint64_t, uint32_t, bool) {}
}
static std::map<std::string, void (*)()>& regs()
{
	static std::map<std::string, void (*)()> r;
	return r;
}
vf::Reg::Reg(const char* n, void (*f)()) { regs()[n] = f; }

static bool once(void (*f)())
{
	std::vector<uint64_t> s;
	std::vector<void*> a;
	seen = &s;
	arrays = &a;
	mpos = 0;
	blocks().clear();
	tracking = true;
	bool ok = true;
	try {
		f();
	}
	catch (const Reject&) {
		ok = false;
	}
	catch (...) {
		fprintf(stderr, "FAIL exception escapes\n");
		_exit(9);
	}
	tracking = false;
	mayfail = false;
	for (void* p : a)
		free(p);
	blocks().clear();
	return ok;
}
// native replay NAME FILE | native search NAME SECONDS SEED OUTFILE
int main(int argc, char** argv)
{
	if (argc < 4)
		return 2;
	std::string mode = argv[1];
	auto it = regs().find(argv[2]);
	if (it == regs().end()) {
		fprintf(stderr, "no such harness\n");
		return 2;
	}
	if (mode == "replay") {
		std::vector<Item> items;
		std::ifstream in(argv[3]);
		std::string line;
		while (std::getline(in, line)) {
			std::istringstream is(line);
			std::string k, name;
			is >> k >> name;
			Item i;
			i.kind = k.empty() ? '#' : k[0];
			i.nul = false;
			i.v = 0;
			if (k == "v")
				is >> i.v;
			else if (k == "a") {
				std::string hex;
				is >> i.v >> hex;
				if (hex == "-")
					i.nul = true;
				else
					for (size_t j = 0; j + 1 < hex.size(); j += 2)
						i.bytes.push_back((char)strtol(hex.substr(j, 2).c_str(), 0, 16));
			}
			else
				continue;
			items.push_back(i);
		}
		model = &items;
		alarm(20);
		bool ok = once(it->second);
		printf(ok ? "PASS\n" : "REJECTED\n");
		return ok ? 0 : 3;
	}
	double secs = atof(argv[3]);
	uint64_t seed = strtoull(argv[4], 0, 10);
	sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	time_t t0 = time(0);
	uint64_t it_no = 0;
	uint64_t* accepted = (uint64_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	while (difftime(time(0), t0) < secs) {
		fflush(stdout);
		pid_t p = fork();
		if (p == 0) {
			for (uint64_t k = 0; k < 2000; ++k) {
				rs = (seed * 0x9E3779B97F4A7C15ull) ^ ((it_no + k + 1) * 0xD1B54A32D192ED03ull);
				if (!rs)
					rs = 1;
				rnd();
				style = (int)(rnd() & 3);
				sh->len = 0;
				sh->buf[0] = 0;
				alarm(5);
				if (once(it->second))
					++*accepted;
				if ((k & 63) == 0 && difftime(time(0), t0) >= secs)
					break;
			}
			_exit(0);
		}
		int st = 0;
		waitpid(p, &st, 0);
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
			std::ofstream o(argv[5]);
			o.write(sh->buf, sh->len);
			printf("FOUND after about %llu runs, status %d\n", (unsigned long long)it_no, st);
			return 1;
		}
		it_no += 2000;
	}
	printf("NONE runs<=%llu accepted=%llu\n", (unsigned long long)it_no, (unsigned long long)*accepted);
	return 0;
}
