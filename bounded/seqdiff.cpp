// Bounded stand-in for devector / tiered_vector / sequence: random histories against a reference sequence of values.
// -DCONT=0 devector, 1 tiered_vector, 2 tiered_vector with tiny buckets, 3 tiered_vector with fixed buckets, 4 sequence
// -DTY=element type, -DFUSE=1: the n-th element operation throws (C21)
#include "elems.hpp"
#include <algorithm>
#include <deque>
#include <list>
#include <iterator>
#include <sstream>
#ifndef CONT
#define CONT 0
#endif
#ifndef FUSE
#define FUSE 0
#endif
#include <seq/devector.hpp>
#include <seq/tiered_vector.hpp>
#include <seq/sequence.hpp>
using namespace el;
using bt::Rng;
using V = std::vector<uint64_t>;
#if CONT == 0
using Cont = seq::devector<T>;
#elif CONT == 1
using Cont = seq::tiered_vector<T>;
#elif CONT == 2
using Cont = seq::tiered_vector<T, std::allocator<T>, 2, 8>;
#elif CONT == 3
using Cont = seq::tiered_vector<T, std::allocator<T>, 4, 4>;
#else
using Cont = seq::sequence<T>;
#endif
static constexpr bool DV = CONT == 0, TV = CONT >= 1 && CONT <= 3, SQ = CONT == 4;
static Rng rng;
static uint64_t nextv()
{
	static uint64_t n = 0;
	++n;
	if (rng.one_in(4))
		return rng.below(X::range < 16 ? X::range : 16);
	return X::range <= 256 ? n % X::range : (n * 2654435761u) % X::range;
}
template<class C>
static V values(const C& c)
{
	V r;
	r.reserve(c.size());
	for (auto it = c.begin(); it != c.end(); ++it)
		r.push_back(X::val(*it));
	return r;
}
// addresses of the elements of a stable container, in order
template<class C>
static std::vector<const T*> addr(const C& c)
{
	std::vector<const T*> r;
	if constexpr (SQ)
		for (auto it = c.begin(); it != c.end(); ++it)
			r.push_back(&*it);
	return r;
}
template<class C>
static void same(const C& c, const V& o, bool deep)
{
	CHECK(c.size() == o.size());
	CHECK(c.empty() == o.empty());
	size_t i = 0;
	for (auto it = c.begin(); it != c.end(); ++it, ++i) {
		CHECK(i < o.size());
		if (X::val(*it) != o[i]) {
			char b[120];
			snprintf(b, sizeof b, "element %zu of %zu is %llu instead of %llu", i, o.size(), (unsigned long long)X::val(*it), (unsigned long long)o[i]);
			bt::fail(__FILE__, __LINE__, "iteration gives the elements in order", b);
		}
	}
	CHECK(i == o.size());
	if (o.size()) {
		CHECK(X::val(c.front()) == o.front());
		CHECK(X::val(c.back()) == o.back());
		CHECK(X::val(const_cast<C&>(c).front()) == o.front());
		CHECK(X::val(const_cast<C&>(c).back()) == o.back());
	}
	if (!deep)
		return;
	i = o.size();
	for (auto it = c.rbegin(); it != c.rend(); ++it) {
		CHECK(i > 0);
		CHECK(X::val(*it) == o[--i]);
	}
	CHECK(i == 0);
	CHECK(c.end() - c.begin() == (ptrdiff_t)o.size());
	CHECK(c.cbegin() == c.begin() && c.cend() == c.end());
	C& m = const_cast<C&>(c);
	i = 0;
	for (auto it = m.begin(); it != m.end(); it++, ++i)
		CHECK(X::val(*it) == o[i]);
	for (auto it = m.rbegin(); it != m.rend(); ++it)
		CHECK(X::val(*it) == o[--i]);
	if (o.empty())
		return;
	for (int k = 0; k < 6; ++k) {
		size_t a = rng.below(o.size()), b = rng.below(o.size() + 1);
		if constexpr (!SQ) {
			CHECK(X::val(c[a]) == o[a]);
			CHECK(X::val(m[a]) == o[a]);
			CHECK(X::val(c.at(a)) == o[a]);
			CHECK(X::val(m.at(a)) == o[a]);
			CHECK(X::val(c.begin()[(ptrdiff_t)a]) == o[a]);
		}
		auto ia = m.begin() + (ptrdiff_t)a;
		auto ib = m.begin() + (ptrdiff_t)b;
		CHECK(X::val(*ia) == o[a]);
		CHECK(ib - ia == (ptrdiff_t)b - (ptrdiff_t)a);
		CHECK((ia < ib) == (a < b));
		CHECK((ia <= ib) == (a <= b));
		CHECK((ia > ib) == (a > b));
		CHECK((ia >= ib) == (a >= b));
		CHECK((ia == ib) == (a == b));
		CHECK((ia != ib) == (a != b));
		CHECK(ia + ((ptrdiff_t)b - (ptrdiff_t)a) == ib);
		CHECK(ib - ((ptrdiff_t)b - (ptrdiff_t)a) == ia);
		CHECK(m.end() - (ptrdiff_t)(o.size() - b) == ib);
		auto ic = ib;
		ic -= (ptrdiff_t)b - (ptrdiff_t)a;
		CHECK(ic == ia);
		ic += (ptrdiff_t)b - (ptrdiff_t)a;
		CHECK(ic == ib);
		if (b < o.size())
			CHECK(X::val(*ib) == o[b]);
		if (b > 0) {
			--ic;
			CHECK(X::val(*ic) == o[b - 1]);
			ic++;
			CHECK(ic == ib);
			ic--;
			CHECK(X::val(*ic) == o[b - 1]);
		}
		if constexpr (TV || SQ) {
			CHECK(c.iterator_at(b) - c.begin() == (ptrdiff_t)b);
			CHECK(m.iterator_at(a) == ia);
			CHECK(X::val(*c.iterator_at(a)) == o[a]);
		}
	}
	if constexpr (!SQ) {
		bool th = false;
		try {
			(void)c.at(o.size());
		}
		catch (const std::out_of_range&) {
			th = true;
		}
		CHECK(th);
	}
	if constexpr (TV) {
		size_t a = rng.below(o.size() + 1), b = a + rng.below(o.size() - a + 1), p = a;
		c.for_each(a, b, [&](const T& t) { CHECK(X::val(t) == o[p++]); });
		CHECK(p == b);
		p = a;
		m.for_each(a, b, [&](T& t) { CHECK(X::val(t) == o[p++]); });
		CHECK(p == b);
	}
	if constexpr (DV) {
		CHECK(c.data() == &c[0] && &*(c.begin() + (ptrdiff_t)(o.size() - 1)) == c.data() + (o.size() - 1));
		CHECK(c.capacity() == c.size() + c.front_capacity() + c.back_capacity());
	}
}
template<class C>
struct State
{
	C c;
	V o;
};
// input iterators of the three categories over values
template<class Cat>
struct Gen
{
	using iterator_category = Cat;
	using value_type = T;
	using difference_type = ptrdiff_t;
	using pointer = const T*;
	using reference = const T&;
	typename std::list<T>::const_iterator it;
	const T& operator*() const { return *it; }
	Gen& operator++()
	{
		++it;
		return *this;
	}
	Gen operator++(int)
	{
		Gen g = *this;
		++it;
		return g;
	}
	bool operator==(const Gen& g) const { return it == g.it; }
	bool operator!=(const Gen& g) const { return it != g.it; }
};
static void arm()
{
	if (FUSE && X::throwing && !rng.one_in(6))
		fuse() = (long)(rng.one_in(3) ? rng.below(60) : rng.below(6));
}
static void disarm() { fuse() = -1; }
// grows/shrinks with a drift so that all sizes from empty to limit are visited
template<class C>
struct Hist
{
	using St = State<C>;
	using T = typename C::value_type;
	using X = el::E<T>;
	std::vector<St> s;
	size_t limit;
	int drift = 1;
	std::string name;
	void total()
	{
		if constexpr (X::tracked) {
			size_t n = 0;
			for (auto& x : s)
				n += x.c.size();
			CHECKM("number of live elements equals the sum of the sizes", (long)n == live());
		}
	}
	template<class F>
	void ranges(V& w, F f)
	{
		// source range of a random kind
		size_t n = rng.one_in(3) ? rng.below(4) : rng.below(limit / 3 + 2);
		for (size_t i = 0; i < n; ++i)
			w.push_back(nextv());
		unsigned k = (unsigned)rng.below(4);
		bt::step("   range of %zu elements, kind %u", n, k);
		if (k == 0) {
			std::vector<T> src;
			src.reserve(n);
			for (auto v : w)
				src.push_back(X::make(v));
			arm();
			f(src.begin(), src.end());
		}
		else if (k == 1) {
			std::list<T> src;
			for (auto v : w)
				src.push_back(X::make(v));
			arm();
			f(src.begin(), src.end());
		}
		else if (k == 2) {
			std::deque<T> src;
			for (auto v : w)
				src.push_back(X::make(v));
			arm();
			f(src.begin(), src.end());
		}
		else {
			std::list<T> src;
			for (auto v : w)
				src.push_back(X::make(v));
			arm();
			f(Gen<std::input_iterator_tag>{ src.begin() }, Gen<std::input_iterator_tag>{ src.end() });
		}
	}
	// 0 = nothing kept, 1 = addresses of the surviving elements must not change (sequence)
	void one()
	{
		size_t idx = rng.below(s.size());
		St& a = s[idx];
		C& c = a.c;
		V& o = a.o;
		size_t n = o.size();
		if (n > limit)
			drift = -1;
		if (n == 0)
			drift = 1;
		if (rng.one_in(40))
			drift = -drift;
		unsigned op = (unsigned)rng.below(100);
		V prev = o;
		auto ad = addr(c);
		bool strong = false;	// contents unchanged when it throws
		bool threw = false;
		// expected addresses after the operation: index map new -> old (-1 free), only for stable containers
		enum
		{
			NONE,
			BACK,
			FRONT,
			ERASE
		} stab = NONE;
		size_t e0 = 0, e1 = 0;
		try {
			if (drift > 0 ? op < 22 : op < 4) {
				uint64_t v = nextv();
				T t = X::make(v);
				bt::step("[%zu] push_back(%llu) size %zu", idx, (unsigned long long)v, n);
				strong = SQ || (DV && std::is_nothrow_move_constructible_v<T>);
				stab = BACK;
				unsigned k = (unsigned)rng.below(3);
				arm();
				if (k == 0)
					c.push_back(std::move(t));
				else if (k == 1 || !X::copyable)
					CHECK(&c.emplace_back(std::move(t)) == &c.back());
				else if constexpr (X::copyable)
					c.push_back(t);
				o.push_back(v);
			}
			else if (drift > 0 ? op < 36 : op < 8) {
				uint64_t v = nextv();
				T t = X::make(v);
				bt::step("[%zu] push_front(%llu) size %zu", idx, (unsigned long long)v, n);
				strong = SQ || (DV && std::is_nothrow_move_constructible_v<T>);
				stab = FRONT;
				unsigned k = (unsigned)rng.below(3);
				arm();
				if (k == 0)
					c.push_front(std::move(t));
				else if (k == 1 || !X::copyable)
					CHECK(&c.emplace_front(std::move(t)) == &c.front());
				else if constexpr (X::copyable)
					c.push_front(t);
				o.insert(o.begin(), v);
			}
			else if (drift > 0 ? op < 40 : op < 26) {
				if (n) {
					bt::step("[%zu] pop_back size %zu", idx, n);
					stab = ERASE;
					e0 = n - 1;
					e1 = n;
					arm();
					c.pop_back();
					o.pop_back();
				}
			}
			else if (drift > 0 ? op < 44 : op < 44) {
				if (n) {
					bt::step("[%zu] pop_front size %zu", idx, n);
					stab = ERASE;
					e0 = 0;
					e1 = 1;
					arm();
					c.pop_front();
					o.erase(o.begin());
				}
			}
			else if (op < 54) {
				// insert one
				uint64_t v = nextv();
				size_t p = rng.below(n + 1);
				T t = X::make(v);
				bt::step("[%zu] insert(%zu, %llu) size %zu", idx, p, (unsigned long long)v, n);
				unsigned k = (unsigned)rng.below(4);
				arm();
				if constexpr (SQ) {
					auto it = (k & 1) ? c.insert(std::move(t)) : c.emplace(std::move(t));
					disarm();
					CHECK(X::val(*it) == v);
					p = (size_t)(it - c.begin());
					o.insert(o.begin() + (ptrdiff_t)p, v);
					V now = values(c);
					CHECKM("a free slot insertion adds exactly one element", now == o);
					// old elements keep their order and their address
					auto nad = addr(c);
					nad.erase(nad.begin() + (ptrdiff_t)p);
					CHECK(nad == ad);
				}
				else {
					if (TV && k == 0) {
						if constexpr (TV)
							c.insert(p, std::move(t));
					}
					else if (TV && k == 1) {
						if constexpr (TV)
							CHECK(X::val(c.emplace(p, std::move(t))) == v);
					}
					else if constexpr (DV) {
						auto it = k < 2 ? c.insert(c.begin() + (ptrdiff_t)p, std::move(t)) : c.emplace(c.begin() + (ptrdiff_t)p, std::move(t));
						CHECK((size_t)(it - c.begin()) == p);
						disarm();
						CHECK(X::val(*it) == v);
					}
					else {
						auto it = c.insert(c.begin() + (ptrdiff_t)p, std::move(t));
						CHECK((size_t)(it - c.begin()) == p);
						disarm();
						CHECK(X::val(*it) == v);
					}
					o.insert(o.begin() + (ptrdiff_t)p, v);
				}
			}
			else if (op < 62) {
				if (n) {
					size_t p = rng.below(n);
					if (rng.one_in(4))
						p = rng.one_in(2) ? 0 : n - 1;
					bt::step("[%zu] erase(%zu) size %zu", idx, p, n);
					stab = ERASE;
					e0 = p;
					e1 = p + 1;
					arm();
					if (TV && rng.one_in(2)) {
						if constexpr (TV)
							c.erase(p);
					}
					else {
						auto it = c.erase(c.begin() + (ptrdiff_t)p);
						CHECK((size_t)(it - c.begin()) == p);
					}
					o.erase(o.begin() + (ptrdiff_t)p);
				}
			}
			else if (op < 66) {
				size_t p = rng.below(n + 1), q = p + (rng.one_in(2) ? rng.below(n - p + 1) : rng.below(std::min<size_t>(n - p, 5) + 1));
				if (rng.one_in(12)) {
					p = 0;
					q = n;
				}
				bt::step("[%zu] erase(%zu,%zu) size %zu", idx, p, q, n);
				stab = ERASE;
				e0 = p;
				e1 = q;
				arm();
				if (TV && rng.one_in(2)) {
					if constexpr (TV)
						c.erase(p, q);
				}
				else {
					auto it = c.erase(c.begin() + (ptrdiff_t)p, c.begin() + (ptrdiff_t)q);
					CHECK((size_t)(it - c.begin()) == p);
				}
				o.erase(o.begin() + (ptrdiff_t)p, o.begin() + (ptrdiff_t)q);
			}
			else if (op < 70) {
				if constexpr (X::copyable) {
					size_t p = rng.below(n + 1);
					V w;
					bt::step("[%zu] insert range at %zu size %zu", idx, p, n);
					ranges(w, [&](auto f, auto l) {
						if constexpr (SQ) {
							c.assign(f, l);
							o = w;
						}
						else {
							if (TV && rng.one_in(2)) {
								if constexpr (TV)
									c.insert(p, f, l);
							}
							else {
								auto it = c.insert(c.begin() + (ptrdiff_t)p, f, l);
								CHECK((size_t)(it - c.begin()) == p);
							}
							o.insert(o.begin() + (ptrdiff_t)p, w.begin(), w.end());
						}
					});
				}
			}
			else if (op < 72) {
				if constexpr (X::copyable && !SQ) {
					size_t p = rng.below(n + 1), k = rng.below(limit / 4 + 2);
					uint64_t v = nextv();
					T t = X::make(v);
					bt::step("[%zu] insert(%zu, n=%zu, %llu) size %zu", idx, p, k, (unsigned long long)v, n);
					arm();
					if (rng.one_in(3)) {
						std::initializer_list<T> il = { t, t, t };
						k = 3;
						auto it = c.insert(c.begin() + (ptrdiff_t)p, il);
						CHECK((size_t)(it - c.begin()) == p);
					}
					else {
						auto it = c.insert(c.begin() + (ptrdiff_t)p, k, t);
						CHECK((size_t)(it - c.begin()) == p);
					}
					o.insert(o.begin() + (ptrdiff_t)p, k, v);
				}
			}
			else if (op < 75) {
				size_t k = rng.one_in(3) ? rng.below(limit + 1) : (n > 4 ? n - 4 : 0) + rng.below(9);
				bool front = rng.one_in(2);
				bool val = X::copyable && rng.one_in(2);
				uint64_t v = val ? nextv() : 0;
				bt::step("[%zu] resize%s(%zu%s) size %zu", idx, front ? "_front" : "", k, val ? ",v" : "", n);
				strong = DV && std::is_nothrow_move_constructible_v<T>;
				if (k < n) {
					stab = ERASE;
					e0 = front ? 0 : k;
					e1 = front ? n - k : n;
				}
				else
					stab = front ? FRONT : BACK;
				if (val) {
					if constexpr (X::copyable) {
						T t = X::make(v);
						arm();
						if (front)
							c.resize_front(k, t);
						else
							c.resize(k, t);
					}
				}
				else {
					arm();
					if (front)
						c.resize_front(k);
					else
						c.resize(k);
				}
				if (front) {
					if (k < n)
						o.erase(o.begin(), o.begin() + (ptrdiff_t)(n - k));
					else
						o.insert(o.begin(), k - n, v);
				}
				else
					o.resize(k, v);
			}
			else if (op < 78) {
				if constexpr (X::copyable) {
					V w;
					unsigned k = (unsigned)rng.below(3);
					bt::step("[%zu] assign kind %u size %zu", idx, k, n);
					if (k == 0)
						ranges(w, [&](auto f, auto l) {
							c.assign(f, l);
							o = w;
						});
					else if (k == 1) {
						uint64_t v = nextv();
						T t = X::make(v);
						size_t m = rng.below(limit / 2 + 2);
						arm();
						c.assign(m, t);
						o.assign(m, v);
					}
					else {
						T t = X::make(5), u = X::make(7);
						arm();
						c.assign({ t, u, t, u, u });
						o = { 5, 7, 5, 7, 7 };
					}
				}
			}
			else if (op < 79) {
				bt::step("[%zu] clear size %zu", idx, n);
				arm();
				c.clear();
				o.clear();
			}
			else if (op < 83) {
				bt::step("[%zu] reserve family, size %zu", idx, n);
				size_t k = rng.below(limit);
				stab = BACK;
				if constexpr (DV) {
					stab = NONE;
					strong = std::is_nothrow_move_constructible_v<T>;
					unsigned w = (unsigned)rng.below(4);
					bt::step("   kind %u %zu", w, k);
					arm();
					if (w == 0) {
						c.reserve(k);
						CHECK(c.capacity() >= k);
					}
					else if (w == 1) {
						c.reserve_back(k);
						CHECK(c.back_capacity() >= k);
						const T* d = c.data();
						if constexpr (X::copyable && !FUSE) {
							for (size_t i = 0; i < k % 7 && i < k; ++i) {
								c.push_back(X::make(i));
								o.push_back(i);
							}
							CHECKM("no reallocation below the reserved capacity", d == c.data());
						}
					}
					else if (w == 2) {
						c.reserve_front(k);
						CHECK(c.front_capacity() >= k);
						const T* d = c.data() + c.size();
						if constexpr (X::copyable && !FUSE) {
							for (size_t i = 0; i < k % 7 && i < k; ++i) {
								c.push_front(X::make(i));
								o.insert(o.begin(), i);
							}
							CHECKM("no reallocation below the reserved capacity", d == c.data() + c.size());
						}
					}
					else {
						c.shrink_to_fit();
						CHECK(c.capacity() == c.size());
					}
				}
				if constexpr (SQ) {
					arm();
					if (rng.one_in(2))
						c.reserve(k);
					else {
						stab = NONE;
						c.shrink_to_fit();
					}
				}
			}
			else if (op < 86) {
				size_t j = rng.below(s.size());
				bt::step("[%zu] swap with [%zu]", idx, j);
				St& b = s[j];
				auto bd = addr(b.c);
				arm();
				if (rng.one_in(2))
					c.swap(b.c);
				else if (rng.one_in(2) && j != idx) {
					C tmp(std::move(c));
					CHECK(c.size() == 0);
					c = std::move(b.c);
					b.c = std::move(tmp);
				}
				else if (j != idx) {
					std::swap(c, b.c);
				}
				if (j != idx) {
					std::swap(o, b.o);
					CHECKM("swapping keeps the addresses", addr(b.c) == ad && addr(c) == bd);
				}
				disarm();
				same(b.c, b.o, true);
			}
			else if (op < 89) {
				if constexpr (X::copyable) {
					size_t j = rng.below(s.size());
					bt::step("[%zu] copied from [%zu]", idx, j);
					St& b = s[j];
					unsigned k = (unsigned)rng.below(4);
					arm();
					if (k == 0) {
						C t(b.c);
						disarm();
						same(t, b.o, true);
						same(b.c, b.o, false);
						std::swap(c, t);
						o = b.o;
					}
					else if (k == 1) {
						c = b.c;
						o = b.o;
					}
					else if (k == 2) {
						C t(b.c.begin(), b.c.end());
						disarm();
						same(t, b.o, true);
					}
					else {
						C t(b.c.size(), X::make(3), std::allocator<T>());
						disarm();
						same(t, V(b.o.size(), 3), true);
						C u(b.c.size());
						same(u, V(b.o.size(), 0), true);
						C w{ X::make(1), X::make(2), X::make(3) };
						same(w, V{ 1, 2, 3 }, true);
						C x(b.c, b.c.get_allocator());
						same(x, b.o, false);
						C y(std::move(x), b.c.get_allocator());
						same(y, b.o, false);
						c = std::move(y);
						o = b.o;
					}
					disarm();
					same(b.c, b.o, false);
				}
			}
			else if (op < 92) {
				// aliasing: the argument is an element of the container
				if constexpr (X::copyable) {
					if (n) {
						size_t p = rng.below(n), q = rng.below(n + 1);
						unsigned k = (unsigned)rng.below(3);
						bt::step("[%zu] aliased insertion of element %zu, kind %u at %zu, size %zu", idx, p, k, q, n);
						uint64_t v = o[p];
						auto it = c.begin() + (ptrdiff_t)p;
						const T& r = *it;
						arm();
						if (k == 0) {
							stab = BACK;
							c.push_back(r);
							o.push_back(v);
						}
						else if (k == 1) {
							stab = FRONT;
							c.push_front(r);
							o.insert(o.begin(), v);
						}
						else if constexpr (DV || TV) {
							c.insert(c.begin() + (ptrdiff_t)q, r);
							o.insert(o.begin() + (ptrdiff_t)q, v);
						}
					}
				}
			}
			else if (op < 94) {
				bt::step("[%zu] sort size %zu", idx, n);
				if constexpr (X::copyable && !std::is_same_v<T, std::string> && !FUSE) {
					if constexpr (SQ) {
						c.sort();
						std::sort(o.begin(), o.end());
					}
					else {
						std::sort(c.begin(), c.end());
						std::sort(o.begin(), o.end());
					}
				}
			}
			else if (op < 96) {
				if (n) {
					size_t p = rng.below(n);
					uint64_t v = nextv();
					bt::step("[%zu] write element %zu", idx, p);
					*(c.begin() + (ptrdiff_t)p) = X::make(v);
					o[p] = v;
					stab = BACK;
				}
			}
			else if (op < 97) {
				bt::step("[%zu] std algorithms on iterators", idx);
				if constexpr (!FUSE) {
					std::reverse(c.begin(), c.end());
					std::reverse(o.begin(), o.end());
				}
			}
			disarm();
		}
		catch (const Thrown&) {
			disarm();
			threw = true;
			bt::step("   threw");
		}
		++bt::cases();
		bool deep = rng.one_in(n < 40 ? 4 : 25);
		if (threw) {
			total();
			for (auto& x : s) {
				V now = values(x.c);
				CHECK(now.size() == x.c.size());
				if (&x == &a && strong)
					CHECKM("strong guarantee", now == prev);
				x.o = now;
			}
			if constexpr (SQ)
				if (strong)
					CHECK(addr(c) == ad);
			if (deep)
				same(c, o, true);
			if (rng.one_in(4)) {
				c.clear();
				o.clear();
				total();
			}
			return;
		}
		total();
		same(c, o, deep);
		if (SQ && stab != NONE) {
			auto nad = addr(c);
			size_t add = nad.size() > ad.size() ? nad.size() - ad.size() : 0;
			bool sorted = false;
			(void)sorted;
			if (stab == BACK)
				CHECKM("addresses of the elements are stable", nad.size() >= ad.size() && std::equal(ad.begin(), ad.end(), nad.begin()));
			else if (stab == FRONT)
				CHECKM("addresses of the elements are stable", nad.size() >= ad.size() && std::equal(ad.begin(), ad.end(), nad.begin() + (ptrdiff_t)add));
			else {
				ad.erase(ad.begin() + (ptrdiff_t)e0, ad.begin() + (ptrdiff_t)e1);
				CHECKM("addresses of the elements are stable", nad == ad);
			}
		}
	}
};
int main(int argc, char** argv)
{
	uint64_t total = argc > 1 ? strtoull(argv[1], nullptr, 10) : 20000;
	static const char* cn[] = { "devector", "tiered_vector", "tiered_vector<2,8>", "tiered_vector<4,4>", "sequence" };
	static const size_t limits[] = { 6, 12, 24, 40, 80, 140, 300, 700 };
	uint64_t round = 0;
	while (bt::cases() < total) {
		rng = Rng(1000 + round * 17 + CONT * 1000003 + TY * 101);
		size_t li = round < 24 ? round % 5 : rng.below(8);
		char b[200];
		snprintf(b, sizeof b, "%s of %s, round %llu, size limit %zu", cn[CONT], tyname(), (unsigned long long)round, limits[li]);
		bt::ctx() = b;
		bt::hist().clear();
		{
			Hist<Cont> h;
			h.limit = limits[li];
			h.s.resize(1 + rng.below(3));
			size_t steps = 100 + rng.below(400) + (li > 5 ? 600 : 0);
			for (size_t i = 0; i < steps; ++i)
				h.one();
			if (round < 5)
				bt::sample("%s: %zu operations, last: %s", b, steps, bt::hist().empty() ? "" : bt::hist().back().c_str());
		}
		if (X::tracked)
			CHECKM("every element is destroyed", live() == 0);
		++round;
	}
	printf("rounds %llu, exceptions %ld\n", (unsigned long long)round, fired());
	return bt::done();
}
