// Failures in seq/devector.hpp: the allocation fails, or the construction of the new element throws, at any point of an
// operation on an arbitrary valid devector.
#define VF_PROOF_BASE
#include "devector.cpp"
static bool g_throw;
static T g_x;
struct Arg
{
	operator T() const
	{
		if (g_throw)
			throw 1;
		return g_x;
	}
};
static inline void may_fail()
{
	vf_alloc_may_fail(true);
	g_throw = vf::any<bool>("the constructor throws");
	g_x = vf::any<T>("x");
}
// after a failure: valid, one block, and (strong guarantee) the same elements; then destruction releases everything
static inline void failed(D& d, const Old& o, bool strong)
{
	valid(d, "");
	vf_assert(vf_live_heap() == g_live + (raw(d).capacity ? 1 : 0), "exactly the storage is allocated");
	if (strong) {
		vf_assert(d.size() == o.n, "the size is unchanged");
		uint64_t i = vf_any_u64("i");
		if (i < o.n)
			vf_assert(d[i] == at(o, i), "the elements are unchanged");
	}
	vf_alloc_may_fail(false);
	d.~D();
	vf_assert(vf_live_heap() == g_live, "destruction releases the storage");
	vf_cover("failed");
}
template<bool A, class F>
static inline void guarded(bool strong, F f)
{
	BEGIN(A);
	may_fail();
	bool thrown = false;
	try {
		f(d, o);
	}
	catch (...) {
		thrown = true;
	}
	if (thrown)
		failed(d, o, strong);
	else {
		vf_alloc_may_fail(false);
		end(d);
	}
}
#define RULE vf_replace("grow_capacity", (const void*)&dv_grow_stub)
static inline void push_b(D& d, const Old&) { d.emplace_back(Arg{}); }
static inline void push_f(D& d, const Old&) { d.emplace_front(Arg{}); }
static inline void in_the_middle(D& d, const Old& o)
{
	uint64_t p = vf_size("p", 0, MAXCAP);
	vf_assume(p <= o.n);
	d.emplace(d.cbegin() + p, Arg{});
}
static inline void reserve_any(D& d, const Old&) { d.reserve(vf_size("reserve", 0, MAXCAP)); }
static inline void shrink(D& d, const Old&) { d.shrink_to_fit(); }
static inline void copy_it(D& d, const Old&)
{
	Slot s;
	new (&s.d) D(d);
	s.d.~D();
}
VF_PROOF(throw_push_back) { RULE; guarded<true>(true, push_b); }
VF_PROOF(throw_push_back_empty) { RULE; guarded<false>(true, push_b); }
VF_PROOF(throw_push_front) { RULE; guarded<true>(true, push_f); }
VF_PROOF(throw_push_front_empty) { RULE; guarded<false>(true, push_f); }
VF_PROOF(throw_emplace) { RULE; guarded<true>(false, in_the_middle); }
VF_PROOF(throw_emplace_empty) { RULE; guarded<false>(false, in_the_middle); }
VF_PROOF(throw_reserve) { RULE; guarded<true>(true, reserve_any); }
VF_PROOF(throw_reserve_empty) { RULE; guarded<false>(true, reserve_any); }
VF_PROOF(throw_shrink) { RULE; guarded<true>(true, shrink); }
VF_PROOF(throw_copy) { RULE; guarded<true>(true, copy_it); }
