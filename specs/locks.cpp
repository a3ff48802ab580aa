// Rely/guarantee contracts of seq/lock.hpp: every thread is checked against every possible behaviour of the others.
// Ghost state: W exclusive holders, R shared holders, P readers that have counted themselves and are about to undo it.
// Invariant: write bit == W, count == R + P, W <= 1, W == 1 => R == 0.
// Between two atomic operations of the thread under proof the word takes any value the invariant allows given what this
// thread holds (w, r, p); every atomic operation of the thread must be one of the allowed transitions.
#include "vf.hpp"
#include <seq/lock.hpp>
#include <seq/concurrent_map.hpp>
using namespace seq;
static uint64_t g_w, g_r, g_p; // what the current thread holds
static bool g_quiet;		   // the other threads do nothing
static bool g_yielded;
template<class L>
struct Word;
template<class U>
struct Word<shared_spinner<U>>
{
	typedef U type;
	static constexpr uint64_t write = 1, need = 2, unit = 4, top = U(~U(0));
};
template<>
struct Word<spinlock>
{
	typedef uint8_t type;
	static constexpr uint64_t write = 1, need = 0, unit = 0, top = 1;
};
template<class L>
union Mem
{
	L l;
	typename Word<L>::type word;
	Mem() {}
	~Mem() {}
};
typedef shared_spinner<uint8_t> S8;
typedef shared_spinner<uint16_t> S16;
typedef shared_spinner<uint32_t> S32;
typedef shared_spinner<uint64_t> S64;
static Mem<S8> m_S8;
static Mem<S16> m_S16;
static Mem<S32> m_S32;
static Mem<S64> m_S64;
static Mem<spinlock> m_spinlock;
template<class L>
static inline uint64_t count(uint64_t v)
{
	if constexpr (Word<L>::unit != 0)
		return v / Word<L>::unit;
	else
		return 0;
}
// what the thread may rely on
template<class L>
static inline bool possible(uint64_t v)
{
	bool r = v <= Word<L>::top, writing = v & Word<L>::write;
	r = vf::both(r, vf::imp(g_w != 0, writing));
	r = vf::both(r, vf::imp(g_r != 0, !writing));
	r = vf::both(r, count<L>(v) >= g_r + g_p);
	if constexpr (sizeof(typename Word<L>::type) > 1)
		r = vf::both(r, count<L>(v) < count<L>(Word<L>::top)); // fewer threads than the counter can count
	return r;
}
template<class L>
static inline void env(Mem<L>& m)
{
	if (g_quiet)
		return;
	uint64_t v = vf_any_u64("word");
	vf_assume(possible<L>(v));
	m.word = static_cast<typename Word<L>::type>(v);
}
// what the thread guarantees
template<class L>
static inline void step(Mem<L>& m, const void* p, uint64_t old, uint64_t now, int order)
{
	typedef Word<L> K;
	vf_assert(p == &m.word, "only the lock word is accessed atomically");
	bool acquire = (order == 2) | (order >= 4), release = order >= 3;
	if (old == now)
		return;
	bool ow = old & K::write, nw = now & K::write;
	uint64_t oc = count<L>(old), nc = count<L>(now);
	if (!ow && nw) {
		vf_assert(oc == 0 && nc == 0 && g_r == 0 && g_w == 0, "exclusive access is taken only when nobody holds the lock");
		vf_assert(acquire, "taking the lock is an acquire operation");
		g_w = 1;
	}
	else if (ow && !nw) {
		vf_assert(g_w == 1 && nc == oc, "exclusive access is given back by its holder only, readers that wait stay counted");
		vf_assert(release, "giving the lock back is a release operation");
		g_w = 0;
	}
	else if (nc == oc + 1) {
		vf_assert((now & (K::write | K::need)) == (old & (K::write | K::need)), "counting a reader changes nothing else");
		vf_assert(acquire, "taking the lock is an acquire operation");
		if (ow)
			++g_p;
		else
			++g_r;
	}
	else if (nc + 1 == oc) {
		vf_assert((now & (K::write | K::need)) == (old & (K::write | K::need)), "a reader that leaves changes nothing else");
		vf_assert(g_r + g_p > 0, "only a reader that is counted leaves");
		vf_assert(release, "giving the lock back is a release operation");
		if (g_r)
			--g_r;
		else
			--g_p;
	}
	else
		vf_assert(nc == oc && nw == ow && (now & K::need), "otherwise a waiting writer is announced and nothing else changes");
}
template<class L>
static inline void start(Mem<L>& m, uint64_t w, uint64_t r)
{
	g_w = w;
	g_r = r;
	g_p = 0;
	g_quiet = false;
	env(m);
}
VF_HINT(hold_w) { return g_w == 0; }
VF_HINT(hold_r) { return vf::both(g_r == 0, g_p == 0); }
#define HOOKS(L)                                                                                                                                                                                                                                 \
	extern "C" void before_##L() { env(m_##L); }                                                                                                                                                                                                 \
	extern "C" void after_##L(const void* p, int, uint64_t o, uint64_t n, int order) { step(m_##L, p, o, n, order); }
extern "C" int stub_yield()
{
	g_yielded = true;
	return 0;
}
#define SETUP(L, w, r)                                                                                                                                                                                                                           \
	vf_replace("^sched_yield$", (const void*)&stub_yield);                                                                                                                                                                                       \
	start(m_##L, w, r);                                                                                                                                                                                                                          \
	vf_atomic_hook((const void*)&before_##L, (const void*)&after_##L);                                                                                                                                                                           \
	vf_hint(VF_FN(hold_w));                                                                                                                                                                                                                      \
	vf_hint(VF_FN(hold_r));                                                                                                                                                                                                                      \
	auto& l = m_##L.l
VF_HINT(exp8, uint8_t expect) { return (expect == 0) | (expect == 2); }
VF_HINT(exp16, uint16_t expect) { return (expect == 0) | (expect == 2); }
VF_HINT(exp32, uint32_t expect) { return (expect == 0) | (expect == 2); }
VF_HINT(exp64, uint64_t expect) { return (expect == 0) | (expect == 2); }
static inline void holds(uint64_t w, uint64_t r, const char*)
{
	vf_assert(g_w == w && g_r == r && g_p == 0, "the thread holds what the call says");
	vf_cover("end");
}
#define CUT(call)                                                                                                                                                                                                                                \
	vf_hint(VF_FN(exp8));                                                                                                                                                                                                                        \
	vf_hint(VF_FN(exp16));                                                                                                                                                                                                                       \
	vf_hint(VF_FN(exp32));                                                                                                                                                                                                                       \
	vf_hint(VF_FN(exp64));                                                                                                                                                                                                                       \
	vf_require_term(false);                                                                                                                                                                                                                      \
	vf_cut_loops(true);                                                                                                                                                                                                                          \
	call;                                                                                                                                                                                                                                        \
	vf_cut_loops(false);                                                                                                                                                                                                                         \
	vf_atomic_hook(nullptr, nullptr)
#define PROOFS(L)                                                                                                                                                                                                                                \
	HOOKS(L)                                                                                                                                                                                                                                     \
	VF_PROOF(L##_lock)                                                                                                                                                                                                                           \
	{                                                                                                                                                                                                                                            \
		SETUP(L, 0, 0);                                                                                                                                                                                                                          \
		CUT(l.lock());                                                                                                                                                                                                                           \
		holds(1, 0, "");                                                                                                                                                                                                                         \
	}                                                                                                                                                                                                                                            \
	VF_PROOF(L##_try_lock)                                                                                                                                                                                                                       \
	{                                                                                                                                                                                                                                            \
		SETUP(L, 0, 0);                                                                                                                                                                                                                          \
		CUT(bool ok = l.try_lock());                                                                                                                                                                                                             \
		holds(ok, 0, "");                                                                                                                                                                                                                        \
	}                                                                                                                                                                                                                                            \
	VF_PROOF(L##_unlock)                                                                                                                                                                                                                         \
	{                                                                                                                                                                                                                                            \
		SETUP(L, 1, 0);                                                                                                                                                                                                                          \
		CUT(l.unlock());                                                                                                                                                                                                                         \
		holds(0, 0, "");                                                                                                                                                                                                                         \
	}                                                                                                                                                                                                                                            \
	VF_PROOF(L##_unlock_alone)                                                                                                                                                                                                                   \
	{                                                                                                                                                                                                                                            \
		/* nobody else uses the lock: it is free again afterwards, and both modes can be taken */                                                                                                                                               \
		SETUP(L, 1, 0);                                                                                                                                                                                                                          \
		vf_assume(count<L>(m_##L.word) == 0);                                                                                                                                                                                                    \
		g_quiet = true;                                                                                                                                                                                                                          \
		bool other = l.try_lock(), other_s = l.try_lock_shared();                                                                                                                                                                                \
		vf_assert(!other && !other_s, "a lock that is held exclusively is not given again");                                                                                                                                                     \
		holds(1, 0, "");                                                                                                                                                                                                                         \
		l.unlock();                                                                                                                                                                                                                              \
		holds(0, 0, "");                                                                                                                                                                                                                         \
		vf_assert(!l.is_locked(), "the lock is free");                                                                                                                                                                                           \
		bool again = l.try_lock();                                                                                                                                                                                                               \
		vf_assert(again, "a free lock can be taken");                                                                                                                                                                                            \
		l.unlock();                                                                                                                                                                                                                              \
		again = l.try_lock_shared();                                                                                                                                                                                                             \
		vf_assert(again, "a free lock can be taken");                                                                                                                                                                                            \
		vf_assert(l.is_locked(), "and is locked then");                                                                                                                                                                                          \
		l.unlock_shared();                                                                                                                                                                                                                       \
		vf_assert(!l.is_locked(), "the lock is free");                                                                                                                                                                                           \
		holds(0, 0, "");                                                                                                                                                                                                                         \
	}
#define SHARED(L)                                                                                                                                                                                                                                \
	VF_PROOF(L##_lock_shared)                                                                                                                                                                                                                    \
	{                                                                                                                                                                                                                                            \
		SETUP(L, 0, 0);                                                                                                                                                                                                                          \
		CUT(l.lock_shared());                                                                                                                                                                                                                    \
		holds(0, 1, "");                                                                                                                                                                                                                         \
	}                                                                                                                                                                                                                                            \
	VF_PROOF(L##_try_lock_shared)                                                                                                                                                                                                                \
	{                                                                                                                                                                                                                                            \
		SETUP(L, 0, 0);                                                                                                                                                                                                                          \
		CUT(bool ok = l.try_lock_shared());                                                                                                                                                                                                      \
		holds(0, ok, "");                                                                                                                                                                                                                        \
	}                                                                                                                                                                                                                                            \
	VF_PROOF(L##_unlock_shared)                                                                                                                                                                                                                  \
	{                                                                                                                                                                                                                                            \
		SETUP(L, 0, 1);                                                                                                                                                                                                                          \
		CUT(l.unlock_shared());                                                                                                                                                                                                                  \
		holds(0, 0, "");                                                                                                                                                                                                                         \
	}                                                                                                                                                                                                                                            \
	VF_PROOF(L##_readers)                                                                                                                                                                                                                        \
	{                                                                                                                                                                                                                                            \
		/* readers share the lock, a writer has to wait for all of them */                                                                                                                                                                      \
		SETUP(L, 0, 1);                                                                                                                                                                                                                          \
		uint64_t c = count<L>(m_##L.word);                                                                                                                                                                                                       \
		vf_assume((m_##L.word & 2) == 0 && c < count<L>(Word<L>::top) / 2);                                                                                                                                                                      \
		g_quiet = true;                                                                                                                                                                                                                          \
		bool ex = l.try_lock();                                                                                                                                                                                                                  \
		vf_assert(!ex, "a lock that is shared is not given exclusively");                                                                                                                                                                        \
		bool sh = l.try_lock_shared();                                                                                                                                                                                                           \
		vf_assert(sh && count<L>(m_##L.word) == c + 1, "a lock that is shared can be shared again");                                                                                                                                             \
		l.unlock_shared();                                                                                                                                                                                                                       \
		holds(0, 1, "");                                                                                                                                                                                                                         \
		l.unlock_shared();                                                                                                                                                                                                                       \
		ex = l.try_lock();                                                                                                                                                                                                                       \
		vf_assert(ex == (c == 1), "the last reader makes the lock available to a writer");                                                                                                                                                       \
		vf_cover("end");                                                                                                                                                                                                                         \
	}
PROOFS(S8)
PROOFS(S16)
PROOFS(S32)
PROOFS(S64)
PROOFS(spinlock)
SHARED(S8)
SHARED(S16)
SHARED(S32)
SHARED(S64)
// spinlock: sharing is exclusive
VF_PROOF(spinlock_shared)
{
	SETUP(spinlock, 0, 0);
	CUT(l.lock_shared());
	holds(1, 0, "");
}
VF_PROOF(spinlock_unlock_shared)
{
	SETUP(spinlock, 1, 0);
	CUT(l.unlock_shared());
	holds(0, 0, "");
}
VF_PROOF(spinlock_try_lock_shared)
{
	SETUP(spinlock, 0, 0);
	CUT(bool ok = l.try_lock_shared());
	holds(ok, 0, "");
}
// Lemma: the transitions preserve the invariant, and the invariant implies what each thread relies on
VF_PROOF(lemma)
{
	// the ghost state of the whole system: W, R, P; this thread holds w, r, p of them
	uint64_t W = vf_any_u64("W"), R = vf_any_u64("R"), P = vf_any_u64("P"), v = vf_any_u64("word"), now = vf_any_u64("next");
	uint64_t big = uint64_t(1) << 40;
	vf_assume(W <= 1 && R < big && P < big && (W == 0 || R == 0) && (v & 1) == W && v / 4 == R + P);
	uint64_t w = vf_any_u64("w"), r = vf_any_u64("r"), p = vf_any_u64("p");
	vf_assume(w <= W && r <= R && p <= P);
	vf_assert(!w || (v & 1), "a holder sees the lock held");
	vf_assert(!r || !(v & 1), "no writer while a reader holds the lock");
	vf_assert(v / 4 >= r + p, "readers are counted");
	uint64_t oc = v / 4, nc = now / 4;
	uint64_t W2 = W, R2 = R, P2 = P;
	bool ow = v & 1, nw = now & 1;
	if (!ow && nw && oc == 0 && nc == 0)
		W2 = W + 1;
	else if (ow && !nw && w == 1 && nc == oc)
		W2 = W - 1;
	else if (nc == oc + 1 && nw == ow)
		ow ? ++P2 : ++R2;
	else if (nc + 1 == oc && nw == ow && r + p > 0)
		r ? --R2 : --P2;
	else if (!(nc == oc && nw == ow))
		return;
	vf_assert(W2 <= 1 && (W2 == 0 || R2 == 0), "at most one writer, and no reader with it");
	vf_assert((now & 1) == W2 && nc == R2 + P2, "the word describes the holders");
	// the other threads keep what they hold
	vf_assert(W2 - (W2 > W ? 1 : 0) + (W2 < W ? 1 : 0) == W, "only this thread's part changes");
	vf_cover("end");
}
// Timed lock
extern "C" int64_t stub_now() { return vf::any<int64_t>("now"); }
extern "C" int64_t stub_now_small()
{
	int64_t t = vf::any<int64_t>("now");
	vf_assume(t >= 0 && t < (int64_t(1) << 61)); // no overflow of the deadline
	return t;
}
VF_PROOF(spinlock_try_lock_until)
{
	vf_replace("^std::chrono::_V2::system_clock::now", (const void*)&stub_now);
	SETUP(spinlock, 0, 0);
	std::chrono::system_clock::time_point t{ std::chrono::system_clock::duration(vf::any<int64_t>("until")) };
	CUT(bool ok = l.try_lock_until(t));
	holds(ok, 0, "");
}
VF_PROOF(spinlock_try_lock_for)
{
	vf_replace("^std::chrono::_V2::system_clock::now", (const void*)&stub_now_small);
	SETUP(spinlock, 0, 0);
	int64_t d = vf::any<int64_t>("duration");
	vf_assume(d >= 0 && d < (int64_t(1) << 61));
	CUT(bool ok = l.try_lock_for(std::chrono::nanoseconds(d)));
	holds(ok, 0, "");
}
// The guards of the concurrent containers
struct Rec
{
	int x, s;
	bool wrong;
	void lock() { wrong |= x || s; ++x; }
	void unlock() { wrong |= x != 1; --x; }
	void lock_shared() { wrong |= x != 0; ++s; }
	void unlock_shared() { wrong |= s < 1; --s; }
};
VF_PROOF(guards)
{
	Rec l{ 0, 0, false };
	{
		detail::LockUnique<Rec> g(l);
		vf_assert(l.x == 1 && l.s == 0, "the guard holds the lock exclusively");
	}
	vf_assert(l.x == 0 && l.s == 0, "and gives it back");
	{
		detail::LockShared<Rec> g(l);
		vf_assert(l.x == 0 && l.s == 1, "the guard shares the lock");
	}
	vf_assert(l.x == 0 && l.s == 0, "and gives it back");
	{
		detail::LockUnique<Rec> g;
		vf_assert(l.x == 0, "nothing is locked yet");
		g.init(l);
		vf_assert(l.x == 1 && l.s == 0, "the guard holds the lock exclusively");
	}
	vf_assert(l.x == 0 && l.s == 0, "and gives it back");
	{
		detail::LockShared<Rec> g;
		g.init(l);
		vf_assert(l.x == 0 && l.s == 1, "the guard shares the lock");
	}
	vf_assert(l.x == 0 && l.s == 0, "and gives it back");
	{
		detail::LockUnique<Rec> g;
		detail::LockShared<Rec> h;
	}
	vf_assert(l.x == 0 && l.s == 0, "a guard without lock does nothing");
	l.lock();
	{
		detail::LockUnique<Rec> g(&l, true);
		vf_assert(l.x == 1, "a guard can adopt a lock that is held");
	}
	vf_assert(l.x == 0 && l.s == 0, "and gives it back");
	l.lock();
	{
		detail::LockUnique<Rec> g;
		g.init(l, true);
		vf_assert(l.x == 1, "a guard can adopt a lock that is held");
	}
	vf_assert(l.x == 0 && l.s == 0, "and gives it back");
	l.lock_shared();
	{
		detail::LockShared<Rec> g(&l, true);
		vf_assert(l.s == 1, "a guard can adopt a lock that is held");
	}
	vf_assert(l.x == 0 && l.s == 0 && !l.wrong, "and gives it back");
	vf_cover("end");
}
