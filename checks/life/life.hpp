// C21: expectations keep what they need.  The generated units (gen_life.py) define expectations from temporary, constant,
// named and moved objects, which are gone afterwards; every object registers itself, every use is checked.
#pragma once
#include "../matchers/common.hpp"

#include <list>
#include <stdexcept>
#include <unordered_set>

namespace life
{
	using mc::Case;
	using mc::Src;
	namespace matches = mimicpp::matches;
	namespace expect = mimicpp::expect;
	namespace then = mimicpp::then;
	namespace finally = mimicpp::finally;

	// ---- who is alive ----------------------------------------------------------------------------------------------------
	inline std::unordered_set<const void*> living;
	inline std::string broken; // first misuse
	inline int failIn{-1};     // the n-th copy or move fails
	inline int failed{};

	struct Fault
	{
	};

	inline void bad(const std::string& what)
	{
		if (broken.empty()) broken = what;
	}

	struct Tracked
	{
		int v{};

		explicit Tracked(int x = 0) : v{x} { enter(); }
		Tracked(const Tracked& o) : v{o.use("copied")}
		{
			maybe();
			enter();
		}
		Tracked(Tracked&& o) : v{o.use("moved")}
		{
			maybe();
			o.v = -1000;
			enter();
		}
		Tracked& operator =(const Tracked& o)
		{
			use("assigned to");
			v = o.use("assigned from");
			return *this;
		}
		Tracked& operator =(Tracked&& o)
		{
			use("assigned to");
			v = o.use("assigned from");
			o.v = -1000;
			return *this;
		}
		~Tracked()
		{
			if (!living.erase(this)) bad("an object was destroyed that does not live");
		}

		int use(const char* how) const
		{
			if (!living.contains(this))
			{
				bad(std::string{"an object was "} + how + " that does not live");
				return -2000;
			}
			return v;
		}
		int get() const
		{
			const int r = use("used");
			if (r == -1000) bad("an object was used that was moved from");
			return r;
		}
		void enter()
		{
			if (!living.insert(this).second) bad("an object was constructed on top of another one");
		}
		static void maybe()
		{
			if (failIn >= 0 && failIn-- == 0)
			{
				++failed;
				throw Fault{};
			}
		}
	};

	// ---- what the definitions are made of
	struct Val : Tracked
	{
		using Tracked::Tracked;
		friend bool operator ==(const Val& a, const Val& b) { return a.get() == b.get(); }
		friend auto operator <=>(const Val& a, const Val& b) { return a.get() <=> b.get(); }
		friend bool operator ==(const Val& a, int b) { return a.get() == b; }
		friend auto operator <=>(const Val& a, int b) { return a.get() <=> b; }
	};

	inline int key(int x) { return x; }
	inline int key(const Val& x) { return x.get(); }
	inline int key(const std::string& x) { return static_cast<int>(x.size()) - 20; }
	template <typename T>
	int key(const std::vector<T>& x)
	{
		int r = static_cast<int>(x.size());
		for (auto& e : x) r += key(e);
		return r;
	}
	template <typename T>
	int key(const std::unique_ptr<T>& x) { return x ? key(*x) : -1; }

	inline std::vector<int> effects;

	struct Effect : Tracked // by invoke, apply_*
	{
		using Tracked::Tracked;
		void operator ()() const { effects.push_back(get()); }
		void operator ()(const auto& a) const { effects.push_back(get() + key(a)); }
		void operator ()(const auto& a, const auto& b) const { effects.push_back(get() + key(a) + key(b)); }
	};
	struct MutEffect : Tracked // changes itself
	{
		using Tracked::Tracked;
		void operator ()() { effects.push_back(get()); ++v; --v; }
	};

	template <typename R>
	R result(int k)
	{
		if constexpr (std::is_same_v<R, std::string>) return std::string(static_cast<std::size_t>(k + 100), 'r');
		else return R{k};
	}

	template <typename R>
	struct Make : Tracked // by returns_result_of, returns_apply_*
	{
		using Tracked::Tracked;
		R operator ()() const { return result<R>(get()); }
		R operator ()(const auto& a) const { return result<R>(get() + key(a)); }
		R operator ()(const auto& a, const auto& b) const { return result<R>(get() + key(a) + key(b)); }
	};
	template <typename R>
	struct Keep : Tracked // returns a reference to a part of itself
	{
		R part;
		explicit Keep(int x) : Tracked{x}, part{result<R>(x)} {}
		const R& operator ()() const { get(); return part; }
		const R& operator ()(const auto&) const { get(); return part; }
		const R& operator ()(const auto&, const auto&) const { get(); return part; }
	};

	struct Even : Tracked // predicate
	{
		using Tracked::Tracked;
		bool operator ()(const auto& a) const { return ((key(a) + get()) & 1) == 0; }
	};
	struct Plus : Tracked // projection
	{
		using Tracked::Tracked;
		int operator ()(const auto& a) const { return key(a) + get(); }
	};
	struct KeepPlus : Tracked // projection to a member of itself
	{
		mutable Val part{};
		using Tracked::Tracked;
		const Val& operator ()(const auto& a) const
		{
			part.v = key(a) + get();
			return part;
		}
	};
	struct Same : Tracked // comparator
	{
		using Tracked::Tracked;
		bool operator ()(const auto& a, const auto& b) const { return (key(a) + get()) == (key(b) + get()); }
	};
	struct Below : Tracked // relation
	{
		using Tracked::Tracked;
		bool operator ()(const auto& a, const auto& b) const { return (key(a) + get()) < (key(b) + get()); }
	};
	struct Match : Tracked // matcher of the user
	{
		using Tracked::Tracked;
		bool matches(const auto& a) const { return ((key(a) + get()) & 1) == 0; }
		std::string describe() const { return "is even with " + std::to_string(get()); }
	};
	struct Pol : Tracked // policy of the user
	{
		using Tracked::Tracked;
		bool is_satisfied() const noexcept
		{
			get();
			return true;
		}
		bool matches(const auto&) const { return get() >= 0; }
		void consume(const auto&) { effects.push_back(get()); }
		std::string describe() const { return "policy " + std::to_string(get()); }
	};
	struct Exc : Tracked // thrown
	{
		using Tracked::Tracked;
	};

	inline std::string text(int k) { return std::string(static_cast<std::size_t>(k < 0 ? 0 : 20 + k), 'a'); }
	inline std::vector<int> numbers(Src& s)
	{
		std::vector<int> r;
		for (int n = s.range(0, 3); n > 0; --n) r.push_back(s.range(-2, 3));
		return r;
	}
	template <typename C>
	C vals(const std::vector<int>& n)
	{
		C r;
		for (int x : n) r.emplace_back(x);
		return r;
	}
	inline std::vector<int> keys(const auto& range)
	{
		std::vector<int> r;
		for (auto& e : range) r.push_back(key(e));
		return r;
	}

	// an object on the heap, that is gone after the definition
	template <typename T>
	std::unique_ptr<std::decay_t<T>> own(T&& x)
	{
		return std::make_unique<std::decay_t<T>>(std::forward<T>(x));
	}

	// ---- one expectation
	template <typename R>
	struct Outcome
	{
		int value{};
		int how{}; // 0 nothing (void), 1 value, 2 Exc, 3 std::runtime_error, 4 the argument itself
	};

	template <typename R, typename P>
	struct Exp
	{
		std::unique_ptr<mimicpp::ScopedExpectation> handle{};
		std::function<bool(const P&)> accepts{};
		std::function<std::vector<int>(const P&)> effects{};
		std::function<Outcome<R>(const P&)> outcome{};
		std::string text{};
		int mock{}; // which one
		bool alive{true};
	};

	template <typename P>
	P makeArg(Src& s)
	{
		if constexpr (std::is_same_v<P, int>) return s.range(-3, 6);
		else if constexpr (std::is_same_v<P, std::string>) return text(s.range(-1, 5));
		else if constexpr (std::is_same_v<P, std::unique_ptr<Val>>) return std::make_unique<Val>(s.range(-3, 6));
		else if constexpr (std::is_same_v<P, Val>) return Val{s.range(-3, 6)};
		else return vals<P>(numbers(s));
	}

	template <typename Sig>
	struct Parts;
	template <typename Ret, typename Param>
	struct Parts<Ret(Param)>
	{
		using R = Ret;
		using P = std::remove_cvref_t<Param>;
		using V = std::remove_cvref_t<Ret>;
	};

	template <typename Sig>
	using ExpOf = Exp<typename Parts<Sig>::R, typename Parts<Sig>::P>;
	template <typename Sig>
	using Maker = ExpOf<Sig> (*)(Src&, mimicpp::Mock<Sig>&, mimicpp::Mock<Sig>*);

	template <typename Sig>
	void history(Src& s, Case& c, std::initializer_list<Maker<Sig>> makers)
	{
		using R = typename Parts<Sig>::R;
		using P = typename Parts<Sig>::P;
		using M = mimicpp::Mock<Sig>;
		mc::reset();
		living.clear();
		broken.clear();
		failIn = -1;
		int nCalls = 0, nGone = 0, nFaults = 0;
		{
			struct Ref
			{
				const std::remove_reference_t<std::conditional_t<std::is_void_v<R>, int, R>>* p;
				int value;
				std::size_t exp;
			};
			std::vector<Ref> refs;
			std::unique_ptr<M> mock = std::make_unique<M>();
			int generation = 0;
			std::vector<ExpOf<Sig>> exps;
			const auto value = [](const auto& r) -> int
			{
				if constexpr (requires { r.size(); }) return static_cast<int>(r.size()) - 100;
				else return key(r);
			};
			const auto add = [&]
			{
				Maker<Sig> m = std::data(makers)[s.draw(static_cast<std::uint32_t>(makers.size()))];
				const bool faulty = s.coin(1, 4);
				if (faulty) failIn = s.range(0, 12);
				const std::size_t before = living.size();
				const int f = failed;
				try
				{
					ExpOf<Sig> e = m(s, *mock, nullptr);
					failIn = -1;
					pbt::require(failed == f, "the failure of a copy was swallowed");
					e.mock = generation;
					c.log("define: " + e.text);
					exps.push_back(std::move(e));
				}
				catch (const Fault&)
				{
					failIn = -1;
					++nFaults;
					c.log("a definition fails");
					pbt::require(living.size() == before, "a failed definition left objects behind");
				}
			};
			add();
			for (int n = s.range(2, 14); n > 0; --n)
			{
				switch (s.weighted({3, 8, 2, 1, 1, 1, 1}))
				{
				case 0: add(); break;
				case 1:
				{
					if (!mock) break;
					P arg = makeArg<P>(s);
					int who = -1;
					for (int k = static_cast<int>(exps.size()) - 1; k >= 0 && who < 0; --k)
						if (exps[static_cast<std::size_t>(k)].alive && exps[static_cast<std::size_t>(k)].mock == generation && exps[static_cast<std::size_t>(k)].accepts(arg)) who = k;
					std::string want = "no match", got;
					std::vector<int> wantEffects;
					Outcome<R> o{};
					if (who >= 0)
					{
						auto& e = exps[static_cast<std::size_t>(who)];
						wantEffects = e.effects(arg);
						o = e.outcome(arg);
						want = o.how == 2 ? "Exc " + std::to_string(o.value) : o.how == 3 ? "error" : o.how == 0 ? "void" : "value " + std::to_string(o.value);
					}
					effects.clear();
					const P* const address = &arg;
					(void)address;
					try
					{
						if constexpr (std::is_void_v<R>)
						{
							if constexpr (std::is_copy_constructible_v<P>) (*mock)(arg);
							else (*mock)(std::move(arg));
							got = "void";
						}
						else
						{
							const auto take = [&](R&& r)
							{
								got = "value " + std::to_string(value(r));
								if constexpr (std::is_reference_v<R>)
									if (o.how == 1 && who >= 0) refs.push_back({std::addressof(r), o.value, static_cast<std::size_t>(who)});
							};
							if constexpr (std::is_copy_constructible_v<P>) take((*mock)(arg));
							else take((*mock)(std::move(arg)));
						}
					}
					catch (const Exc& x) { got = "Exc " + std::to_string(x.get()); }
					catch (const std::runtime_error& x) { got = std::string{"error"} + (std::string{x.what()} == "some message that is long enough not to be stored locally" ? "" : " with another text"); }
					catch (const mc::NoMatch& x)
					{
						got = "no match";
						(void)mimicpp::print(x.call);
						for (auto& r : x.reports) (void)mimicpp::print(r);
					}
					c.log("call -> " + got);
					pbt::require(broken.empty(), broken);
					pbt::require(got == want, "the call yields " + got + ", expected " + want);
					const auto list = [](auto& l)
					{
						std::string r;
						for (int x : l) r += " " + std::to_string(x);
						return r;
					};
					pbt::require(effects == wantEffects, "side effects" + list(effects) + ", expected" + list(wantEffects));
					++nCalls;
					break;
				}
				case 2: // an expectation ends
				case 3: // its handle moves
				{
					if (exps.empty()) break;
					const std::size_t k = s.draw(static_cast<std::uint32_t>(exps.size()));
					auto& e = exps[k];
					if (!e.alive) break;
					auto moved = std::make_unique<mimicpp::ScopedExpectation>(std::move(*e.handle));
					e.handle = std::move(moved);
					if (s.draw(2)) break;
					e.handle.reset();
					e.alive = false;
					std::erase_if(refs, [&](const Ref& r) { return r.exp == k; });
					c.log("end " + std::to_string(k));
					break;
				}
				case 4: // the mock moves
					if (mock) mock = std::make_unique<M>(std::move(*mock));
					break;
				case 5: // the mock is gone, its expectations stay
					mock = std::make_unique<M>();
					++generation;
					++nGone;
					c.log("another mock");
					break;
				default: // stored results are still there
					for (auto& r : refs)
						pbt::require(value(*r.p) == r.value, "a stored result changed to " + std::to_string(value(*r.p)) + ", expected " + std::to_string(r.value));
				}
				pbt::require(broken.empty(), broken);
			}
			if (s.draw(2)) mock.reset();
			pbt::require(mc::log().unfulfilled == 0 && mc::log().errors == 0 && mc::log().exceptions == 0, "unexpected reports");
		}
		pbt::require(broken.empty(), broken);
		mc::reset();
		pbt::require(living.empty(), std::to_string(living.size()) + " objects have never been destroyed");
		if (nFaults) c.label("failed definition");
		if (nGone) c.label("mock gone first");
		c.nontrivial = nCalls > 0;
	}
}

template <>
class mimicpp::custom::Printer<life::Val>
{
public:
	template <typename OutIter>
	static OutIter print(OutIter out, const life::Val& v)
	{
		return mimicpp::format::format_to(std::move(out), "Val {}", v.get());
	}
};
