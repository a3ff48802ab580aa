// Contract language of the verifier. A contract harness states, for one function of /repo (called for real), the
// precondition (vf_assume), the postcondition (vf_assert), what is arbitrary (vf_any*, vf_array) and the loop-invariant
// templates (vf_hint). The same source is (a) proved for all inputs by irv and (b) compiled natively to replay
// counterexamples against the real code.
#ifndef VF_HPP
#define VF_HPP
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <type_traits>
extern "C" {
uint64_t vf_any_u64(const char* name);
uint32_t vf_any_u32(const char* name);
uint16_t vf_any_u16(const char* name);
uint8_t vf_any_u8(const char* name);
uint64_t vf_size(const char* name, uint64_t lo, uint64_t hi); // arbitrary in [lo,hi]; natively small values are preferred
uint64_t vf_pick(const char* name, uint64_t lo, uint64_t hi); // arbitrary in [lo,hi] (few values: each one is explored apart)
void vf_assume(bool);
void vf_assert(bool, const char* label);
void vf_cover(const char* label);
void* vf_array(uint64_t nbytes, uint32_t gran, const char* name); // fresh object, arbitrary contents, exactly nbytes long
void* vf_heap(uint64_t nbytes, uint32_t gran, const char* name);  // same, but as if obtained from operator new(nbytes)
void* vf_snapshot(const void* p);					 // ghost copy of the whole object p points into
bool vf_unchanged(const void* p, const void* snap, uint64_t lo, uint64_t hi); // bytes [lo,hi) from p equal the snapshot
void vf_hint(const void* fn);						 // loop-invariant template over loop variables
void vf_hint_forall(const void* fn);					 // template whose first parameter is universally quantified
void vf_forall(const void* fn, uint64_t nparams);			 // assume fn(i..) for all i
void vf_on_read(const void* p, const void* fn, uint64_t n); // fn(i) holds of the n elements of p (used at each read; p becomes constant)
void vf_check_forall(const void* fn, uint64_t nparams, const char* label);
void vf_cut_loops(bool on);
void vf_term(uint64_t t);						 // a term the loop templates may compare loop variables with
void vf_term_clear();
void vf_hint_clear();
void vf_frame(const void* p, uint64_t n);				 // loops write the object of p only inside [p,p+n) (checked)
void vf_heap_gran(uint32_t g);					 // unit in which big heap blocks of the code under proof are accessed
bool vf_alive(const void* p);
void vf_require_term(bool on);						 // require termination of the cut loops
void vf_generic(bool on);						 // try the generic arithmetic invariant templates (default) or the hints only
void vf_no_address(bool on);					 // from here the computation must not depend on addresses or mutable globals
void vf_unroll(uint32_t n);
void vf_hint_outer(bool on); // hints may also name the variables of the enclosing loops
uint64_t vf_live_heap();						 // number of live heap blocks
bool vf_native();
void vf_alloc_may_fail(bool on);
void vf_replace(const char* demangled_regex, const void* stub);
void vf_atomic_hook(const void* before, const void* after);
void vf_havoc(void* p, uint64_t n);
uint64_t vf_obj_size(const void* p);
bool vf_same_object(const void* a, const void* b);
uint64_t vf_offset(const void* p);
void vf_lazy_sort(void* p, uint64_t n, uint32_t gran, bool sgn); // native only
}
namespace vf
{
	template<class T>
	inline T any(const char* n)
	{
		if constexpr (std::is_same_v<T, bool>) {
			uint8_t v = vf_any_u8(n);
			vf_assume(v <= 1);
			return v != 0;
		}
		else {
			T r;
			if constexpr (sizeof(T) == 8) {
				uint64_t v = vf_any_u64(n);
				memcpy(&r, &v, 8);
			}
			else if constexpr (sizeof(T) == 4) {
				uint32_t v = vf_any_u32(n);
				memcpy(&r, &v, 4);
			}
			else if constexpr (sizeof(T) == 2) {
				uint16_t v = vf_any_u16(n);
				memcpy(&r, &v, 2);
			}
			else {
				uint8_t v = vf_any_u8(n);
				memcpy(&r, &v, 1);
			}
			return r;
		}
	}
	template<class T>
	inline T* array(size_t n, const char* name)
	{
		return static_cast<T*>(vf_array(n * sizeof(T), sizeof(T), name));
	}
	template<class T>
	inline T* heap(size_t n, const char* name)
	{
		return static_cast<T*>(vf_heap(n * sizeof(T), sizeof(T), name));
	}
	template<class T>
	inline T* snap(const T* p)
	{
		return static_cast<T*>(vf_snapshot(p));
	}
	// logical connectives without short-circuit control flow
	inline bool imp(bool a, bool b) { return bool((int)!a | (int)b); }
	inline bool both(bool a, bool b) { return bool((int)a & (int)b); }
}
#ifdef VF_NATIVE
namespace vf
{
	struct Reg
	{
		Reg(const char* n, void (*f)());
	};
}
#define VF_PROOF(name)                                                                                                                                                                                 \
	extern "C" void vf_proof_##name();                                                                                                                                                             \
	static vf::Reg vf_reg_##name(#name, &vf_proof_##name);                                                                                                                                         \
	extern "C" void vf_proof_##name()
#else
#define VF_PROOF(name) extern "C" void vf_proof_##name()
#endif
#define VF_HINT(name, ...) extern "C" bool vf_hintfn_##name(__VA_ARGS__)
#define VF_FN(name) ((const void*)&vf_hintfn_##name)
#endif
