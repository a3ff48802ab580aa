// Contracts of seq/tagged_pointer.hpp: the pointer part and the tag part are independent, for every aligned address and every tag.
#include "vf.hpp"
#include <seq/tagged_pointer.hpp>
using namespace seq;
struct alignas(64) Big { char x[64]; };
template<class TP, class T>
static inline void contract(uint64_t align)
{
	// every address that has the alignment (not only those of live objects)
	uintptr_t a = vf_any_u64("addr"), b = vf_any_u64("addr2");
	vf_assume((a & (align - 1)) == 0 && (b & (align - 1)) == 0);
	uintptr_t t = vf_any_u64("tag"), u = vf_any_u64("tag2");
	vf_assert((uintptr_t(1) << TP::tag_bits) == align, "the tag uses every bit the alignment leaves free");
	vf_assert(TP::mask_low == align - 1 && TP::mask_high == ~(align - 1), "masks");
	vf_assume(u < align);
	auto P = [](uintptr_t v) { return (T*)v; };
	auto V = [](const void* p) { return (uintptr_t)p; };
	{
		TP p;
		vf_assert(p.ptr() == nullptr && p.tag() == 0, "default construction");
	}
	{
		TP p(P(a));
		vf_assert(V(p.ptr()) == a && p.tag() == 0, "construction from a pointer has tag 0");
	}
	TP p(P(a), t);
	const TP& c = p;
	vf_assert(V(p.ptr()) == a && V(c.ptr()) == a, "construction keeps the pointer");
	vf_assert(p.tag() == (t & (align - 1)), "construction keeps the tag modulo the tag range");
	p.set_tag(u);
	vf_assert(V(p.ptr()) == a && p.tag() == u, "set_tag changes the tag only");
	p.set_ptr(P(b));
	vf_assert(V(p.ptr()) == b && p.tag() == u, "set_ptr changes the pointer only");
	vf_assert(p.full() == (b | u), "full is pointer | tag");
	auto s = p.split();
	vf_assert(V(s.first) == b && s.second == (unsigned)u, "split");
	auto cs = c.split();
	vf_assert(V(cs.first) == b && cs.second == (unsigned)u, "split of a const pointer");
	T* conv = p;
	const T* cconv = c;
	vf_assert(V(conv) == b && V(cconv) == b, "conversion to a pointer drops the tag");
	vf_assert(V(p.operator->()) == b && V(c.operator->()) == b, "member access drops the tag");
	p.set(P(a), t);
	vf_assert(V(p.ptr()) == a && p.tag() == (t & (align - 1)), "set replaces both");
	p.set_full(b | u);
	vf_assert(V(p.ptr()) == b && p.tag() == u, "set_full replaces both");
	TP q(p);
	q.set_tag(0);
	vf_assert(V(p.ptr()) == b && p.tag() == u && q.tag() == 0 && V(q.ptr()) == b, "copies are independent");
}
#define C(name, al, T, ...) VF_PROOF(name) { contract<__VA_ARGS__, T>(al); }
C(stack_char, 1, char, tagged_pointer<char>)
C(stack_short, 2, short, tagged_pointer<short>)
C(stack_int, 4, int, tagged_pointer<int>)
C(stack_double, 8, double, tagged_pointer<double>)
C(stack_big, 64, Big, tagged_pointer<Big>)
C(heap_char, SEQ_DEFAULT_ALIGNMENT, char, tagged_pointer<char, HeapPointer>)
C(heap_int, SEQ_DEFAULT_ALIGNMENT, int, tagged_pointer<int, HeapPointer>)
C(custom_32, 32, int, tagged_pointer<int, CustomAlignment, 32>)
C(custom_4096, 4096, Big, tagged_pointer<Big, CustomAlignment, 4096>)
C(custom_1, 1, int, tagged_pointer<int, CustomAlignment, 1>)
C(void_heap, SEQ_DEFAULT_ALIGNMENT, void, tagged_pointer<void, HeapPointer>)
C(void_stack, SEQ_DEFAULT_ALIGNMENT, void, tagged_pointer<void>)
C(void_custom, 128, void, tagged_pointer<void, CustomAlignment, 128>)
// real objects: the pointed value is reachable through a tagged pointer
VF_PROOF(deref)
{
	int64_t* o = vf::array<int64_t>(1, "o");
	uint64_t t = vf_any_u64("t");
	tagged_pointer<int64_t> p(o, t);
	int64_t v = (int64_t)vf_any_u64("v");
	*p = v;
	vf_assert(*o == v && *static_cast<const tagged_pointer<int64_t>&>(p) == v, "dereference reaches the object");
	vf_assert((void*)&*p == (void*)o, "same object");
}
