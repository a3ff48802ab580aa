// Element types of the container stand-ins. Every type carries a 64 bit value; the tracked types detect use of dead,
// moved-from-by-memcpy or doubly destroyed objects, count the live objects and can throw at the n-th element operation.
#ifndef ELEMS_HPP
#define ELEMS_HPP
#include "bt.hpp"
#include <memory>
#include <seq/type_traits.hpp>
#include <stdexcept>
namespace el
{
	struct Thrown
	{
	};
	inline long& live()
	{
		static long l = 0;
		return l;
	}
	inline long& fuse()
	{
		static long f = -1;
		return f;
	}
	inline long& fired()
	{
		static long f = 0;
		return f;
	}
	inline void tick()
	{
		if (fuse() >= 0 && fuse()-- == 0) {
			++fired();
			throw Thrown();
		}
	}
	static constexpr uint64_t MOVED = ~0ull;
	// Kind 0: never relocatable, self pointer checked, nothrow move. 1: same, throwing move. 2: relocatable by memcpy, nothrow move
	template<int K>
	struct Tr
	{
		uint64_t* h;
		const void* self;
		void init(uint64_t v)
		{
			h = new uint64_t(v);
			self = K == 2 ? (const void*)h : (const void*)this;
			++live();
		}
		void chk() const
		{
			if (h && self != (K == 2 ? (const void*)h : (const void*)this))
				bt::fail(__FILE__, __LINE__, "use of a dead or bitwise moved element");
			if (!h && self != (K == 2 ? (const void*)&live() : (const void*)this))
				bt::fail(__FILE__, __LINE__, "use of a dead or bitwise moved element");
		}
		void away()
		{
			h = nullptr;
			self = K == 2 ? (const void*)&live() : (const void*)this;
		}
		Tr()
		{
			tick();
			init(0);
		}
		explicit Tr(uint64_t v)
		{
			tick();
			init(v);
		}
		Tr(const Tr& o)
		{
			o.chk();
			tick();
			if (o.h)
				init(*o.h);
			else {
				away();
				++live();
			}
		}
		Tr(Tr&& o) noexcept(K != 1)
		{
			o.chk();
			if (K == 1)
				tick();
			h = o.h;
			self = K == 2 ? (const void*)h : (const void*)this;
			if (!h)
				away();
			o.away();
			++live();
		}
		Tr& operator=(const Tr& o)
		{
			chk();
			o.chk();
			tick();
			if (this != &o) {
				delete h;
				if (o.h) {
					h = new uint64_t(*o.h);
					self = K == 2 ? (const void*)h : (const void*)this;
				}
				else
					away();
			}
			return *this;
		}
		Tr& operator=(Tr&& o) noexcept(K != 1)
		{
			chk();
			o.chk();
			if (K == 1)
				tick();
			if (this != &o) {
				delete h;
				h = o.h;
				self = K == 2 ? (const void*)h : (const void*)this;
				if (!h)
					away();
				o.away();
			}
			return *this;
		}
		~Tr()
		{
			chk();
			delete h;
			h = (uint64_t*)0x10;
			self = (void*)0x20;
			--live();
		}
		uint64_t get() const
		{
			chk();
			return h ? *h : MOVED;
		}
		bool operator<(const Tr& o) const { return get() < o.get(); }
		bool operator==(const Tr& o) const { return get() == o.get(); }
		bool operator!=(const Tr& o) const { return get() != o.get(); }
	};
	struct Pod40
	{
		uint64_t v;
		uint64_t x[4];
		bool operator<(const Pod40& o) const { return v < o.v; }
		bool operator==(const Pod40& o) const { return v == o.v; }
		bool operator!=(const Pod40& o) const { return v != o.v; }
	};
	template<class T>
	struct E;
	template<int K>
	struct E<Tr<K>>
	{
		static constexpr bool tracked = true, copyable = true, throwing = true;
		static constexpr uint64_t range = 1ull << 40;
		static Tr<K> make(uint64_t v) { return Tr<K>(v); }
		static uint64_t val(const Tr<K>& t) { return t.get(); }
	};
	template<>
	struct E<int>
	{
		static constexpr bool tracked = false, copyable = true, throwing = false;
		static constexpr uint64_t range = 1ull << 30;
		static int make(uint64_t v) { return (int)v; }
		static uint64_t val(int t) { return (uint64_t)t; }
	};
	template<>
	struct E<uint8_t>
	{
		static constexpr bool tracked = false, copyable = true, throwing = false;
		static constexpr uint64_t range = 256;
		static uint8_t make(uint64_t v) { return (uint8_t)v; }
		static uint64_t val(uint8_t t) { return (uint64_t)t; }
	};
	template<>
	struct E<double>
	{
		static constexpr bool tracked = false, copyable = true, throwing = false;
		static constexpr uint64_t range = 1ull << 40;
		static double make(uint64_t v) { return (double)v; }
		static uint64_t val(double t) { return (uint64_t)t; }
	};
	template<>
	struct E<Pod40>
	{
		static constexpr bool tracked = false, copyable = true, throwing = false;
		static constexpr uint64_t range = 1ull << 40;
		static Pod40 make(uint64_t v)
		{
			Pod40 p;
			memset(&p, 0, sizeof p);
			p.v = v;
			for (auto& x : p.x)
				x = v ? v * 77 : 0;
			return p;
		}
		static uint64_t val(const Pod40& t)
		{
			for (auto x : t.x)
				if (x != t.v * 77)
					bt::fail(__FILE__, __LINE__, "torn element");
			return t.v;
		}
	};
	template<>
	struct E<std::string>
	{
		static constexpr bool tracked = false, copyable = true, throwing = false;
		static constexpr uint64_t range = 1ull << 40;
		static std::string make(uint64_t v) { return v ? (v & 1 ? std::to_string(v) : std::to_string(v) + ":a rather long tail that needs the heap") : std::string(); }
		static uint64_t val(const std::string& t)
		{
			uint64_t v = strtoull(t.c_str(), nullptr, 10);
			if (t != make(v))
				bt::fail(__FILE__, __LINE__, "torn string");
			return v;
		}
	};
	template<>
	struct E<std::unique_ptr<uint64_t>>
	{
		static constexpr bool tracked = false, copyable = false, throwing = false;
		static constexpr uint64_t range = 1ull << 40;
		static std::unique_ptr<uint64_t> make(uint64_t v) { return std::unique_ptr<uint64_t>(v ? new uint64_t(v) : nullptr); }
		static uint64_t val(const std::unique_ptr<uint64_t>& t) { return t ? *t : 0; }
	};
}
namespace seq
{
	template<>
	struct is_relocatable<el::Tr<0>> : std::false_type
	{
	};
	template<>
	struct is_relocatable<el::Tr<1>> : std::false_type
	{
	};
	template<>
	struct is_relocatable<el::Tr<2>> : std::true_type
	{
	};
}
namespace el
{
#ifndef TY
#define TY 0
#endif
#if TY == 0
	using T = int;
#elif TY == 1
	using T = Tr<0>;
#elif TY == 2
	using T = Tr<1>;
#elif TY == 3
	using T = Tr<2>;
#elif TY == 4
	using T = std::string;
#elif TY == 5
	using T = Pod40;
#elif TY == 6
	using T = uint8_t;
#elif TY == 7
	using T = std::unique_ptr<uint64_t>;
#elif TY == 8
	using T = double;
#endif
	static const char* tyname()
	{
		static const char* n[] = { "int", "tracked", "tracked throwing move", "tracked relocatable", "std::string", "40 byte struct", "uint8_t", "unique_ptr", "double" };
		return n[TY];
	}
	using X = E<T>;
}
#endif
