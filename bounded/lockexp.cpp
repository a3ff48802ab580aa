// Bounded stand-in for C18: seq/lock.hpp compiled with an instrumented std::atomic, all schedules of small programs explored
// with a bounded number of preemptions (stateless depth first search over the order of the atomic operations).
// args: preemptions for 2 threads, preemptions for 3 threads, cap of schedules per program
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <vector>
#include <ucontext.h>
#include "bt.hpp"
struct Thread
{
	ucontext_t c;
	std::vector<char> stack;
	bool done = false, yielded = false;
	const char* prog = "";
};
static ucontext_t g_main;
static Thread g_t[3];
static int g_n = 0, g_cur = -1;
static bool g_changed; // the last step changed a lock word
static void point()
{
	if (g_cur >= 0)
		swapcontext(&g_t[g_cur].c, &g_main);
}
namespace std
{
	template<class T>
	struct vf_atomic
	{
		T v;
		constexpr vf_atomic() noexcept
		  : v()
		{
		}
		constexpr vf_atomic(T x) noexcept
		  : v(x)
		{
		}
		vf_atomic(const vf_atomic&) = delete;
		vf_atomic& operator=(const vf_atomic&) = delete;
		T load(memory_order = memory_order_seq_cst) const noexcept { point(); return v; }
		void set(T x) noexcept { g_changed |= x != v; v = x; }
		void store(T x, memory_order = memory_order_seq_cst) noexcept { point(); set(x); }
		T exchange(T x, memory_order = memory_order_seq_cst) noexcept { point(); T o = v; set(x); return o; }
		bool compare_exchange_strong(T& e, T x, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept
		{
			point();
			if (v == e) {
				set(x);
				return true;
			}
			e = v;
			return false;
		}
		bool compare_exchange_weak(T& e, T x, memory_order a = memory_order_seq_cst, memory_order b = memory_order_seq_cst) noexcept { return compare_exchange_strong(e, x, a, b); }
		T fetch_add(T x, memory_order = memory_order_seq_cst) noexcept { point(); T o = v; set(T(v + x)); return o; }
		T fetch_sub(T x, memory_order = memory_order_seq_cst) noexcept { point(); T o = v; set(T(v - x)); return o; }
		T fetch_or(T x, memory_order = memory_order_seq_cst) noexcept { point(); T o = v; set(T(v | x)); return o; }
		T fetch_and(T x, memory_order = memory_order_seq_cst) noexcept { point(); T o = v; set(T(v & x)); return o; }
		T fetch_xor(T x, memory_order = memory_order_seq_cst) noexcept { point(); T o = v; set(T(v ^ x)); return o; }
		bool test_and_set(memory_order o = memory_order_seq_cst) noexcept { return exchange(T(1), o); }
		operator T() const noexcept { return load(); }
		T operator=(T x) noexcept { store(x); return x; }
		T operator++() noexcept { return T(fetch_add(1) + 1); }
		T operator--() noexcept { return T(fetch_sub(1) - 1); }
		T operator++(int) noexcept { return fetch_add(1); }
		T operator--(int) noexcept { return fetch_sub(1); }
		T operator+=(T x) noexcept { return T(fetch_add(x) + x); }
		T operator-=(T x) noexcept { return T(fetch_sub(x) - x); }
		T operator|=(T x) noexcept { return T(fetch_or(x) | x); }
		T operator&=(T x) noexcept { return T(fetch_and(x) & x); }
	};
	namespace vf_this_thread
	{
		inline void yield() noexcept
		{
			if (g_cur >= 0)
				g_t[g_cur].yielded = true;
			point();
		}
		template<class D>
		inline void sleep_for(const D&) noexcept
		{
			yield();
		}
	}
}
#include <seq/bits.hpp>
#define atomic vf_atomic
#define this_thread vf_this_thread
#include <seq/lock.hpp>
#undef atomic
#undef this_thread
static int g_w, g_r;
static std::string g_trace;
static void bad(const char* what)
{
	bt::ctx() += " schedule " + g_trace;
	bt::fail(__FILE__, __LINE__, what);


}
template<class L>
static void section(L& l, bool shared)
{
	constexpr bool excl = std::is_same_v<L, seq::spinlock>; // shared access of a spinlock is exclusive
	if (shared && !excl) {
		++g_r;
		if (g_w)
			bad("a reader holds the lock together with a writer");
		point();
		if (!l.is_locked())
			bad("a held lock says it is free");
		--g_r;
		l.unlock_shared();
	}
	else {
		++g_w;
		if (g_w > 1 || g_r)
			bad("a writer holds the lock together with another holder");
		point();
		if (!l.is_locked())
			bad("a held lock says it is free");
		--g_w;
		if (shared)
			l.unlock_shared();
		else
			l.unlock();
	}
}
template<class L>
static L*& the()
{
	static L* l;
	return l;
}
template<class L>
static void body(int k)
{
	L& l = *the<L>();
	for (const char* p = g_t[k].prog; *p; ++p) {
		if (*p == 'L') {
			l.lock();
			section(l, false);
		}
		else if (*p == 'S') {
			l.lock_shared();
			section(l, true);
		}
		else if (*p == 'T') {
			if (l.try_lock())
				section(l, false);
		}
		else if (*p == 'R') {
			if (l.try_lock_shared())
				section(l, true);
		}
	}
	g_t[k].done = true;
	swapcontext(&g_t[k].c, &g_main);
}
// one run under the choices given; choices made beyond are 0. Returns the number of alternatives at each decision.
template<class L>
static void run(const std::vector<int>& pre, std::vector<std::pair<int, int>>& made, int preempt)
{
	static typename std::aligned_storage<sizeof(L), alignof(L)>::type mem;
	the<L>() = new (&mem) L();
	g_w = g_r = 0;
	g_trace.clear();
	made.clear();
	for (int i = 0; i < g_n; ++i) {
		g_t[i].done = g_t[i].yielded = false;
		g_t[i].stack.resize(65536);
		getcontext(&g_t[i].c);
		g_t[i].c.uc_stack.ss_sp = g_t[i].stack.data();
		g_t[i].c.uc_stack.ss_size = g_t[i].stack.size();
		g_t[i].c.uc_link = &g_main;
		makecontext(&g_t[i].c, (void (*)()) & body<L>, 1, i);
	}
	int last = -1, idle = 0;
	for (int steps = 0;; ++steps) {
		int cand[4], nc = 0;
		bool cont = last >= 0 && !g_t[last].done && !g_t[last].yielded;
		if (cont)
			cand[nc++] = last;
		if (!cont || preempt > 0)
			for (int i = 0; i < g_n; ++i)
				if (!g_t[i].done && !g_t[i].yielded && !(cont && i == last))
					cand[nc++] = i;
		if (nc == 0) {
			bool any = false;
			for (int i = 0; i < g_n; ++i) {
				any = any || !g_t[i].done;
				g_t[i].yielded = false;
			}
			if (!any)
				break;
			last = -1;
			if (++idle > 50 || steps > 5000)
				bad("no thread makes progress any more");
			continue;
		}
		int c = 0;
		if (nc > 1) {
			c = made.size() < pre.size() ? pre[made.size()] : 0;
			made.push_back({ c, nc });
		}
		int k = cand[c];
		if (cont && k != last)
			--preempt;
		if (g_trace.size() < 300)
			g_trace += char('0' + k);
		g_cur = k;
		g_changed = false;
		swapcontext(&g_main, &g_t[k].c);
		g_cur = -1;
		if (g_changed || g_t[k].done) {
			for (int i = 0; i < g_n; ++i)
				if (i != k)
					g_t[i].yielded = false;
			idle = 0;
		}
		last = k;
		if (steps > 5000)
			bad("no thread makes progress any more");
	}
	L& l = *the<L>();
	if (l.is_locked())
		bad("the lock stays held although every holder has left");
	if (!l.try_lock())
		bad("a free lock is refused");
	if (l.try_lock() || l.try_lock_shared())
		bad("a lock that is held exclusively is given again");
	l.unlock();
	if (!l.try_lock_shared())
		bad("a free lock is refused");
	bool again = l.try_lock_shared();
	if (again == std::is_same_v<L, seq::spinlock>)
		bad("shared access to a shared lock");
	if (again && l.try_lock())
		bad("a lock that is shared is given exclusively");
	if (again)
		l.unlock_shared();
	if (!l.is_locked() || l.try_lock())
		bad("a lock that is shared is given exclusively");
	l.unlock_shared();
	if (l.is_locked())
		bad("the lock stays held although every holder has left");
	l.~L();
}
template<class L>
static void explore(const char* name, std::initializer_list<const char*> progs, int preempt, uint64_t cap)
{
	g_n = 0;
	bt::ctx() = std::string(name) + " programs";
	for (const char* p : progs) {
		g_t[g_n++].prog = p;
		bt::ctx() += std::string(" ") + p;
	}
	std::string base = bt::ctx();
	std::vector<int> pre;
	std::vector<std::pair<int, int>> made;
	for (uint64_t n = 0; n < cap; ++n) {
		bt::ctx() = base;
		run<L>(pre, made, preempt);
		++bt::cases();
		while (!made.empty() && made.back().first + 1 >= made.back().second)
			made.pop_back();
		if (made.empty())
			return;
		pre.clear();
		for (auto& m : made)
			pre.push_back(m.first);
		++pre.back();
	}
}
template<class L>
static void all(const char* name, int p2, int p3, uint64_t cap)
{
	const char* one[] = { "L", "S", "T", "R", "LS", "SL", "TR", "LL", "SS", "RT" };
	for (const char* a : one)
		for (const char* b : one)
			explore<L>(name, { a, b }, p2, cap);
	const char* three[] = { "L", "S", "T", "R" };
	for (const char* a : three)
		for (const char* b : three)
			for (const char* c : three)
				if (strcmp(a, b) <= 0 && strcmp(b, c) <= 0)
					explore<L>(name, { a, b, c }, p3, cap);
}
// long runs of shared holders: the counter of a small lock does not overflow into the other bits
template<class L>
static void many(const char* name, uint64_t n)
{
	bt::ctx() = std::string(name) + " many readers";
	L l;
	uint64_t got = 0;
	for (uint64_t i = 0; i < n; ++i) {
		if (l.try_lock_shared())
			++got;
		if (l.try_lock())
			bad("a lock that is shared is given exclusively");
		++bt::cases();
	}
	if (got < 2)
		bad("readers do not share the lock");
	for (uint64_t i = 0; i < got; ++i) {
		if (!l.is_locked())
			bad("a held lock says it is free");
		l.unlock_shared();
	}
	if (l.is_locked() || !l.try_lock())
		bad("the lock stays held although every holder has left");
	l.unlock();
}
int main(int argc, char** argv)
{
	int p2 = argc > 1 ? atoi(argv[1]) : 3, p3 = argc > 2 ? atoi(argv[2]) : 2;
	uint64_t cap = argc > 3 ? strtoull(argv[3], nullptr, 10) : 20000;
	all<seq::spinlock>("spinlock", p2, p3, cap);
	all<seq::shared_spinner<uint8_t>>("shared_spinner<uint8_t>", p2, p3, cap);
	all<seq::shared_spinner<uint16_t>>("shared_spinner<uint16_t>", p2, p3, cap);
	all<seq::shared_spinner<uint32_t>>("shared_spinner<uint32_t>", p2, p3, cap);
	all<seq::shared_spinner<uint64_t>>("shared_spinner<uint64_t>", p2, p3, cap);
	many<seq::shared_spinner<uint8_t>>("shared_spinner<uint8_t>", 300);
	many<seq::shared_spinner<uint16_t>>("shared_spinner<uint16_t>", 10000);
	many<seq::shared_spinner<uint32_t>>("shared_spinner<uint32_t>", 100000);
	return bt::done();
}
