// C17: interfaces mocked through the macros.  The generated units (gen_iface.py) contain random interfaces, their mocks,
// and for every method how an expectation is set up and how it is called through the interfaces.
#pragma once
#include "../overload/overload.hpp"

#include <array>
#include <map>
#include <tuple>

namespace ifc
{
	using ov::answer;
	using ov::Handle;
	using ov::Only;
	using ov::str;
	using pbt::Case;
	using pbt::Src;

	struct Tok
	{
		int v{};
		static inline int copies = 0;
		Tok(int x = 0) : v{x} {}
		Tok(const Tok& o) : v{o.v} { ++copies; }
		Tok(Tok&& o) noexcept : v{std::exchange(o.v, -1)} {}
		Tok& operator =(const Tok& o) = default;
		Tok& operator =(Tok&& o) = default;
		bool operator ==(const Tok&) const = default;
	};
	struct Pinned
	{
		int v{};
		Pinned(int x = 0) : v{x} {}
		Pinned(const Pinned&) = delete;
		Pinned& operator =(const Pinned&) = delete;
	};
	struct Abstract
	{
		virtual ~Abstract() = default;
		virtual int get() const = 0;
	};
	struct Concrete final : Abstract
	{
		int v{};
		Concrete(int x = 0) : v{x} {}
		int get() const override { return v; }
	};
	enum class Kind { zero };
	using Owner = std::unique_ptr<int>;

	template <typename T>
	struct Maker
	{
		static T make(int v) { return T(v); }
	};
	template <> struct Maker<Owner> { static Owner make(int v) { return std::make_unique<int>(v); } };
	template <> struct Maker<std::string> { static std::string make(int v) { return std::to_string(v); } };
	template <> struct Maker<std::vector<int>> { static std::vector<int> make(int v) { return {v, v}; } };
	template <> struct Maker<std::map<int, int>> { static std::map<int, int> make(int v) { return {{v, 1}}; } };
	template <> struct Maker<std::pair<int, Tok>> { static std::pair<int, Tok> make(int v) { return {v, Tok{v}}; } };
	template <> struct Maker<std::tuple<int, std::string, int>> { static std::tuple<int, std::string, int> make(int v) { return {v, "x", 2}; } };
	template <> struct Maker<std::array<int, 2>> { static std::array<int, 2> make(int v) { return {v, v}; } };
	template <> struct Maker<int*> { static int* make(int v) { static std::map<int, int> m; return &(m[v] = v); } };
	template <> struct Maker<Kind> { static Kind make(int v) { return static_cast<Kind>(v); } };

	inline int val(const int& x) { return x; }
	inline int val(const unsigned long& x) { return static_cast<int>(x); }
	inline int val(const double& x) { return static_cast<int>(x); }
	inline int val(const Tok& x) { return x.v; }
	inline int val(const Pinned& x) { return x.v; }
	inline int val(const Abstract& x) { return x.get(); }
	inline int val(const Kind& x) { return static_cast<int>(x); }
	inline int val(const Owner& x) { return x ? *x : -1; }
	inline int val(int* const& x) { return x ? *x : -1; }
	inline int val(const std::string& x) { return x.empty() ? -1 : std::stoi(x); }
	inline int val(const std::vector<int>& x) { return x.size() == 2 ? x[1] : -1; }
	inline int val(const std::map<int, int>& x) { return x.empty() ? -1 : x.begin()->first; }
	inline int val(const std::pair<int, Tok>& x) { return x.first == x.second.v ? x.first : -1; }
	inline int val(const std::tuple<int, std::string, int>& x) { return std::get<1>(x) == "x" ? std::get<0>(x) : -1; }
	inline int val(const std::array<int, 2>& x) { return x[0] == x[1] ? x[0] : -1; }

	template <typename P>
	struct Obj // the caller's object for a parameter, or the object a result refers to
	{
		using U = std::conditional_t<std::is_same_v<std::remove_cvref_t<P>, Abstract>, Concrete, std::remove_cvref_t<P>>;
		U v;
		explicit Obj(int x) : v(Maker<U>::make(x)) {}
	};
	template <typename P>
		requires (std::is_same_v<std::remove_cvref_t<P>, Pinned>)
	struct Obj<P>
	{
		Pinned v;
		explicit Obj(int x) : v(x) {}
	};
	template <typename P>
		requires (std::is_same_v<std::remove_cvref_t<P>, Abstract>)
	struct Obj<P>
	{
		Concrete v;
		explicit Obj(int x) : v(x) {}
	};

	template <typename P, bool lv, typename T>
	decltype(auto) pass(T& o)
	{
		if constexpr (std::is_reference_v<P>) return static_cast<P>(o);
		else if constexpr (lv && std::is_copy_constructible_v<T>) return (o);
		else return static_cast<T&&>(o);
	}

	// what was seen of one call
	struct Seen
	{
		std::vector<const void*> at{};
		std::vector<int> values{};
	};
	struct Trace
	{
		int id{-1};
		int effects{};
		Seen args{};     // as the expectation saw them
		int returned{};  // value of the configured result
		const void* returnedAt{};
	};
	inline Trace trace{};
	inline int copiesInside{}; // counter when the side effect ran

	template <typename T>
	const void* where(const T& x)
	{
		if constexpr (std::is_polymorphic_v<T>) return dynamic_cast<const void*>(std::addressof(x));
		else return std::addressof(x);
	}

	struct Boom
	{
		int v;
	};
	struct BoomDerived : Boom
	{
	};

	template <typename R, typename Builder>
	std::unique_ptr<Handle> finish(Builder&& b, int id, int upper, int boom)
	{
		auto b2 = std::forward<Builder>(b)
				&& mimicpp::expect::at_most(upper)
				&& mimicpp::then::apply_all([id](auto&... x) {
						trace.id = id;
						++trace.effects;
						(trace.args.at.push_back(where(x)), ...);
						(trace.args.values.push_back(val(x)), ...);
						copiesInside = Tok::copies;
					});
		const auto wrap = [](auto&& e) { return std::make_unique<ov::Scoped1>(mimicpp::ScopedExpectation{std::move(e)}); };
		if constexpr (std::is_void_v<R>)
		{
			if (boom) return wrap(std::move(b2) && mimicpp::finally::throws(BoomDerived{{id}}));
			return wrap(std::move(b2));
		}
		else
		{
		std::shared_ptr<void> o{};
		if constexpr (std::is_reference_v<R>) o = std::make_shared<Obj<R>>(1000 + id);
		return wrap(
			std::move(b2)
			&& mimicpp::finally::returns_result_of([id, boom, o]() -> R {
				if (boom == 1) throw Boom{id};
				if (boom == 2) throw BoomDerived{{id}};
				trace.returned = 1000 + id;
				if constexpr (std::is_reference_v<R>)
				{
					auto& x = static_cast<Obj<R>*>(o.get())->v;
					trace.returnedAt = where(x);
					return static_cast<R>(x);
				}
				else return Maker<R>::make(1000 + id);
			}));
		}
	}

	struct Result
	{
		bool failed{}, isVoid{}, reference{};
		int boom{}; // 1, 2: exception
		int value{};
		const void* at{};
		Seen args{};               // as the caller passed them
		std::vector<bool> byValue{};
		int copies{}, expectedCopies{};
	};

	template <typename R, bool... lvs>
	struct Caller;
	template <typename R, typename... P, bool... lvs>
	struct Caller<R(P...), lvs...>
	{
		template <typename F>
		static void go(F f, int seed, Result& r)
		{
			run(f, seed, r, std::index_sequence_for<P...>{});
		}
		template <typename F, std::size_t... i>
		static void run(F& f, int seed, Result& r, std::index_sequence<i...>)
		{
			std::tuple<std::unique_ptr<Obj<P>>...> objs{std::make_unique<Obj<P>>(seed + static_cast<int>(i))...};
			(r.args.at.push_back(where(std::get<i>(objs)->v)), ...);
			(r.args.values.push_back(seed + static_cast<int>(i)), ...);
			(r.byValue.push_back(!std::is_reference_v<P>), ...);
			r.expectedCopies = (0 + ... + (lvs && (std::is_same_v<P, Tok> || std::is_same_v<P, std::pair<int, Tok>>) ? 1 : 0));
			Tok::copies = 0;
			copiesInside = 0;
			r.isVoid = std::is_void_v<R>;
			r.reference = std::is_reference_v<R>;
			try
			{
				if constexpr (std::is_void_v<R>) f(pass<P, lvs>(std::get<i>(objs)->v)...);
				else
				{
					decltype(auto) x = f(pass<P, lvs>(std::get<i>(objs)->v)...);
					static_assert(std::is_same_v<decltype(x), R>);
					r.value = val(x);
					r.at = where(x);
				}
			}
			catch (const ov::Failed&)
			{
				r.failed = true;
			}
			catch (const BoomDerived& b)
			{
				r.boom = 2;
				r.value = b.v;
			}
			catch (const Boom& b)
			{
				r.boom = 1;
				r.value = b.v;
			}
			r.copies = copiesInside;
		}
	};

	struct Path
	{
		const char* text;
		void (*call)(void* mock, int seed, Result&);
	};
	struct Method
	{
		const char* text;
		int mock;  // methods of one name share a mock
		bool nx;
		std::unique_ptr<Handle> (*arm)(void* mock, int id, int upper, int boom);
		std::vector<Path> paths;
	};
	struct Iface
	{
		const char* text;
		std::vector<Method> methods;
		std::shared_ptr<void> (*make)();
	};
	inline std::vector<Iface (*)()>& ifaces()
	{
		static std::vector<Iface (*)()> s;
		return s;
	}
	struct Add
	{
		explicit Add(Iface (*f)()) { ifaces().push_back(f); }
	};

	inline void run(Src& src, Case& c)
	{
		mimicpp::install_reporter<ov::Reporter>();
		const std::size_t which = src.draw(static_cast<std::uint32_t>(ifaces().size()));
		const Iface iface = ifaces()[which]();
		c.log(str("mock ", which, ": ", iface.text));
		const auto object = iface.make();
		struct Exp
		{
			int id;
			const Method* method;
			int left, boom;
			std::unique_ptr<Handle> handle;
		};
		std::vector<Exp> live;
		int nextId = 0, answered = 0, crowded = 0;
		const int ops = 2 + static_cast<int>(src.draw(14));
		for (int k = 0; k < ops; ++k)
		{
			const std::size_t op = src.weighted({5, 9, 1});
			if (op == 0)
			{
				const Method& m = src.pick(iface.methods);
				const int upper = src.range(1, 3), boom = m.nx ? 0 : static_cast<int>(src.weighted({6, 1, 1})), id = nextId++;
				c.log(str("expectation ", id, " for ", m.text, ", at most ", upper, boom ? ", throws" : ""));
				live.push_back({id, &m, upper, boom, m.arm(object.get(), id, upper, boom)});
			}
			else if (op == 2 && !live.empty())
			{
				const std::size_t i = src.draw(static_cast<std::uint32_t>(live.size()));
				c.log(str("end expectation ", live[i].id));
				live.erase(live.begin() + static_cast<std::ptrdiff_t>(i));
			}
			else if (op == 1)
			{
				const Method* m = &src.pick(iface.methods);
				if (!live.empty() && src.coin(2, 3)) m = live[src.draw(static_cast<std::uint32_t>(live.size()))].method;
				Exp* expected = nullptr;
				for (Exp& e : live)
					if (e.method == m && e.left > 0) expected = &e;
				if (!expected && m->nx) continue;
				const Path& p = src.pick(m->paths);
				c.log(str("call ", m->text, " through ", p.text, expected ? str(" answered by ", expected->id) : std::string{" fails"}));
				trace = {};
				ov::record = {};
				Result r{};
				p.call(object.get(), 10 * (k + 1), r);
				pbt::require(ov::record.other == 0, "nothing else is reported");
				if (ov::record.full + ov::record.none + ov::record.inapplicable != 1)
					pbt::fail(str("the mock is called ", ov::record.full + ov::record.none + ov::record.inapplicable, " times"));
				pbt::require(r.failed == !expected, expected ? "the call fails" : "the call does not fail");
				if (!expected)
				{
					pbt::require(trace.id == -1, "no effects without an answering expectation");
					continue;
				}
				--expected->left;
				++answered;
				crowded += live.size() > 1;
				if (trace.id != expected->id) pbt::fail(str("answered by ", trace.id));
				pbt::require(trace.effects == 1, "the side effect runs once");
				pbt::require(trace.args.values == r.args.values, "the arguments are those of the caller, in this order");
				for (std::size_t i = 0; i < r.args.at.size(); ++i)
					if (!r.byValue[i]) pbt::require(trace.args.at[i] == r.args.at[i], "reference arguments are the caller's objects");
				if (r.copies != r.expectedCopies) pbt::fail(str(r.copies, " copies of arguments instead of ", r.expectedCopies));
				if ((r.boom ? r.isVoid ? 1 : r.boom : 0) != (expected->boom ? r.isVoid ? 1 : expected->boom : 0)) pbt::fail(str("exception ", r.boom, " instead of ", expected->boom));
				if (r.boom) pbt::require(r.value == expected->id, "the exception has its value");
				else if (!r.isVoid)
				{
					pbt::require(r.value == trace.returned && r.value == 1000 + expected->id, "the result comes back unchanged");
					if (r.reference) pbt::require(r.at == trace.returnedAt, "the referenced object comes back");
				}
			}
		}
		c.label(answered ? "answered calls" : "no answered call");
		if (answered && crowded) c.nontrivial = true;
	}
}
