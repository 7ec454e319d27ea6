// C13: matchers are values.  A pool of matchers is built from each other by copying, moving, negating, nesting and
// handing them to expectations in every value category; each member's verdicts and description are those of its model
// at all times, and neither the callers' objects nor the arguments are ever touched.
#include "common.hpp"

using namespace mc;
namespace matches = mimicpp::matches;
namespace expect = mimicpp::expect;
namespace range = mimicpp::matches::range;
namespace str = mimicpp::matches::str;

namespace
{
	// A payload that notices what is done to it.
	struct Tok
	{
		int v{};
		bool moved{};
		static inline int copies = 0;
		static inline int moves = 0;

		explicit Tok(int x) : v{x} {}
		Tok(const Tok& o) : v{o.v}, moved{o.moved} { ++copies; }
		Tok(Tok&& o) noexcept : v{o.v}, moved{o.moved}
		{
			o.moved = true;
			o.v = -100;
			++moves;
		}
		Tok& operator =(const Tok& o)
		{
			v = o.v;
			moved = o.moved;
			++copies;
			return *this;
		}
		Tok& operator =(Tok&& o) noexcept
		{
			v = std::exchange(o.v, -100);
			moved = std::exchange(o.moved, true);
			++moves;
			return *this;
		}
		friend bool operator ==(const Tok& a, const Tok& b) { return !a.moved && !b.moved && a.v == b.v; }
		friend auto operator <=>(const Tok& a, const Tok& b) { return a.v <=> b.v; }
		friend bool operator ==(const Tok& a, int b) { return !a.moved && a.v == b; }
	};
}

template <>
class mimicpp::custom::Printer<Tok>
{
public:
	template <typename OutIter>
	static OutIter print(OutIter out, const Tok& t)
	{
		return mimicpp::format::format_to(std::move(out), "tok{}{}", t.v, t.moved ? "!" : "");
	}
};

namespace
{
	using Arg = std::vector<Tok>; // what every pool member is asked about

	struct Model
	{
		std::function<bool(const Arg&)> fn;
		std::string d0, d1;
		Model inverted() const
		{
			return {[f = fn](const Arg& a) { return !f(a); }, d1, d0};
		}
	};

	struct SumLess
	{
		Tok limit;
		bool operator ()(const Arg& a) const
		{
			int s = 0;
			for (auto& t : a) s += t.v;
			return !limit.moved && s < limit.v;
		}
	};

	// A pool member.  Types change with negation and nesting, so members are erased.
	struct Any
	{
		virtual ~Any() = default;
		virtual bool matches(Arg&, bool asConst) const = 0;
		virtual std::string describe() const = 0;
		virtual std::unique_ptr<Any> copy() const = 0;
		virtual std::unique_ptr<Any> moveOut() = 0;
		virtual std::unique_ptr<Any> negate(bool rvalue) = 0; // null: too deep
		virtual bool viaMock(const Arg&, int how) = 0;
	};

	template <typename M, int Depth, bool Mock>
	struct Holder final : Any
	{
		M m;
		explicit Holder(M x) : m{std::move(x)} {}
		bool matches(Arg& a, bool asConst) const override { return asConst ? m.matches(std::as_const(a)) : m.matches(a); }
		std::string describe() const override { return std::string{m.describe()}; }
		std::unique_ptr<Any> copy() const override { return std::make_unique<Holder>(m); }
		std::unique_ptr<Any> moveOut() override { return std::make_unique<Holder>(std::move(m)); }
		std::unique_ptr<Any> negate(bool rvalue) override
		{
			if constexpr (Depth < 3)
			{
				using N = decltype(!std::declval<const M&>());
				if (rvalue) return std::make_unique<Holder<N, Depth + 1, Mock && Depth < 1>>(!std::move(m));
				return std::make_unique<Holder<N, Depth + 1, Mock && Depth < 1>>(!std::as_const(m));
			}
			else return nullptr;
		}
		bool viaMock(const Arg& a, int how) override
		{
			if constexpr (Mock)
			{
				switch (how)
				{
				case 0: return mc::viaMock<const Arg&>(m, a);
				case 1: return mc::viaMock<const Arg&>(std::as_const(m), a);
				case 2: return mc::viaMock<const Arg&>(M{m}, a);
				case 3: return mc::viaPolicy<const Arg&>(expect::arg<0>(m), a);
				case 4: return mc::viaPolicy<const Arg&>(expect::arg<0>(std::as_const(m)), a);
				default: return mc::viaPolicy<const Arg&>(expect::arg<0>(M{m}), a);
				}
			}
			else
			{
				Arg& x = const_cast<Arg&>(a);
				return m.matches(x);
			}
		}
	};

	struct Member
	{
		std::unique_ptr<Any> m;
		Model model;
	};

	template <bool Mock, typename M>
	Member member(M m, Model model)
	{
		return {std::make_unique<Holder<M, 0, Mock>>(std::move(m)), std::move(model)};
	}

	bool each(const Arg& a, auto p) { return std::ranges::all_of(a, p); }
	bool some(const Arg& a, auto p) { return std::ranges::any_of(a, p); }

	std::string tok(int v) { return "tok" + std::to_string(v); }

	struct Probes
	{
		std::vector<Arg> args;
		std::vector<Arg> copies;
	};

	void verify(const Member& x, Probes& probes, Src& s, const std::string& name)
	{
		const std::string d = x.m->describe();
		pbt::require(d == x.model.d0, name + ": description is '" + d + "', expected '" + x.model.d0 + "'");
		const bool asConst = s.draw(2);
		for (std::size_t i = 0; i < probes.args.size(); ++i)
		{
			const int copies = Tok::copies;
			const int moves = Tok::moves;
			const bool got = x.m->matches(probes.args[i], asConst);
			pbt::require(Tok::copies == copies && Tok::moves == moves, name + ": matching copied or moved something");
			pbt::require(got == x.model.fn(probes.copies[i]), name + " (" + d + "): " + yn(got) + " " + mimicpp::print(probes.copies[i]));
			pbt::require(std::ranges::equal(probes.args[i], probes.copies[i], [](const Tok& a, const Tok& b) { return a == b; }), name + ": the argument was changed");
		}
	}

	template <bool Mock, typename Inner>
	Member wrap(Src& s, Inner& inner, int how, const std::function<bool(const Tok&)>& f, const std::string& d)
	{
		// nested by name, as constant, as temporary
		const auto make = [&](const auto& fac, const Model& model) -> Member
		{
			if (how == 0) return member<Mock>(fac(inner), model);
			if (how == 1) return member<Mock>(fac(std::as_const(inner)), model);
			return member<Mock>(fac(Inner{inner}), model);
		};
		if (s.draw(2))
			return make([](auto&& x) { return range::each_element(std::forward<decltype(x)>(x)); },
				Model{[f](const Arg& a) { return each(a, f); }, "each el in range: el " + d, "not each el in range: el " + d});
		return make([](auto&& x) { return range::any_element(std::forward<decltype(x)>(x)); },
			Model{[f](const Arg& a) { return some(a, f); }, "any el in range: el " + d, "none el in range: el " + d});
	}

	void poolCase(Src& s, Case& c)
	{
		Probes probes;
		for (int n = s.range(2, 4); n > 0; --n)
		{
			Arg a;
			for (int k = s.range(0, 3); k > 0; --k) a.emplace_back(s.range(0, 3));
			probes.args.push_back(a);
		}
		probes.copies = probes.args;

		// the callers' own objects
		const int x = s.range(0, 3);
		Tok own{x};
		Arg ownRange{probes.copies[s.draw(static_cast<std::uint32_t>(probes.copies.size()))]};
		const Arg ownRangeCopy{ownRange};
		auto eqTok = matches::eq(own);
		auto ltTok = matches::lt(std::as_const(own));
		auto notEq = !eqTok;
		const int limit = s.range(0, 6);
		SumLess ownPred{Tok{limit}};
		auto eqRange = matches::eq(ownRange);

		std::vector<Member> pool;
		const auto invariant = [&](const std::string& after)
		{
			pbt::require(own == x && ownPred.limit == limit && ownRange == ownRangeCopy, after + ": an object of the caller was changed");
			Tok same{x};
			Tok other{x + 1};
			pbt::require(eqTok.matches(same) && !eqTok.matches(other) && std::string{eqTok.describe()} == "== " + tok(x), after + ": the caller's matcher eq was changed");
			pbt::require(!notEq.matches(same) && notEq.matches(other) && std::string{notEq.describe()} == "!= " + tok(x), after + ": the caller's matcher !eq was changed");
			pbt::require(!ltTok.matches(same) && std::string{ltTok.describe()} == "< " + tok(x), after + ": the caller's matcher lt was changed");
			pbt::require(eqRange.matches(ownRange) && std::string{eqRange.describe()} == "== " + mimicpp::print(ownRangeCopy), after + ": the caller's range matcher was changed");
		};
		c.nontrivial = true;
		const int steps = s.range(3, 14);
		for (int step = 0; step < steps; ++step)
		{
			pbt::Span span{s};
			const int op = static_cast<int>(s.weighted({6, 3, 3, 5, 5, 1}));
			const auto idx = pool.empty() ? 0u : s.draw(static_cast<std::uint32_t>(pool.size()));
			std::string what;
			if (op == 0 || pool.empty())
			{
				const int how = static_cast<int>(s.draw(3));
				const int kind = static_cast<int>(s.draw(5));
				static const char* const names[]{"element eq", "element !eq", "element lt", "predicate", "range eq"};
				what = std::string{"build "} + names[kind] + (how == 0 ? " by name" : how == 1 ? " as constant" : " as temporary");
				if (kind == 0) pool.push_back(wrap<true>(s, eqTok, how, [x](const Tok& t) { return t.v == x; }, "== " + tok(x)));
				else if (kind == 1) pool.push_back(wrap<false>(s, notEq, how, [x](const Tok& t) { return t.v != x; }, "!= " + tok(x)));
				else if (kind == 2) pool.push_back(wrap<false>(s, ltTok, how, [x](const Tok& t) { return t.v < x; }, "< " + tok(x)));
				else if (kind == 3)
				{
					Model m{[limit](const Arg& a)
						{
							int sum = 0;
							for (auto& t : a) sum += t.v;
							return sum < limit;
						},
						"passes predicate", "fails predicate"};
					if (how == 0) pool.push_back(member<true>(matches::predicate(ownPred), m));
					else if (how == 1) pool.push_back(member<true>(matches::predicate(std::as_const(ownPred)), m));
					else pool.push_back(member<true>(matches::predicate(SumLess{ownPred}), m));
				}
				else
				{
					const std::string d = mimicpp::print(ownRangeCopy);
					Model m{[ownRangeCopy](const Arg& a) { return a == ownRangeCopy; }, "== " + d, "!= " + d};
					if (how == 0) pool.push_back(member<true>(matches::eq(ownRange), m));
					else if (how == 1) pool.push_back(member<true>(matches::eq(std::as_const(ownRange)), m));
					else pool.push_back(member<true>(matches::eq(Arg{ownRange}), m));
				}
			}
			else if (op == 1)
			{
				what = "copy " + std::to_string(idx);
				pool.push_back({pool[idx].m->copy(), pool[idx].model});
			}
			else if (op == 2)
			{
				what = "move " + std::to_string(idx);
				auto moved = pool[idx].m->moveOut();
				pool[idx].m = std::move(moved);
			}
			else if (op == 3)
			{
				const bool rvalue = s.draw(2);
				what = std::string{"negate "} + (rvalue ? "temporary " : "named ") + std::to_string(idx);
				if (auto n = pool[idx].m->negate(rvalue))
				{
					Member y{std::move(n), pool[idx].model.inverted()};
					if (rvalue) pool[idx] = std::move(y);
					else pool.push_back(std::move(y));
				}
			}
			else if (op == 4)
			{
				const int how = static_cast<int>(s.draw(6));
				const auto p = s.draw(static_cast<std::uint32_t>(probes.args.size()));
				what = "expectation with " + std::to_string(idx) + ", form " + std::to_string(how);
				const bool got = pool[idx].m->viaMock(probes.args[p], how);
				pbt::require(got == pool[idx].model.fn(probes.copies[p]), what + " (" + pool[idx].model.d0 + "): " + yn(got) + " a call with " + mimicpp::print(probes.copies[p]));
			}
			else
			{
				what = "drop " + std::to_string(idx);
				pool.erase(pool.begin() + idx);
			}
			c.log(what);
			c.label(what.substr(0, what.find(' ')));
			for (std::size_t i = 0; i < pool.size(); ++i) verify(pool[i], probes, s, "after '" + what + "': matcher " + std::to_string(i));
			invariant("after '" + what + "'");
		}
	}

	// ---- projections ------------------------------------------------------------------------------------------------
	struct Part
	{
		int a{};
		Tok t{0};
		std::string name{};
		int twice() const { return a * 2; }
		const Tok& tokRef() const { return t; }
	};

	void projectionCase(Src& s, Case& c)
	{
		c.nontrivial = true;
		Part p{s.range(0, 3), Tok{s.range(0, 3)}, std::vector<std::string>{"", "a", "ab"}[s.draw(3)]};
		const int x = s.range(0, 6);
		const bool neg = s.draw(2);
		const int k = static_cast<int>(s.draw(8));
		bool got{};
		bool want{};
		std::string what;
		const int copies = Tok::copies;
		const int moves = Tok::moves;
		switch (k)
		{
		case 0:
			what = "data member";
			got = neg ? viaPolicy<const Part&>(expect::arg<0>(!matches::eq(x), &Part::a), p) : viaPolicy<const Part&>(expect::arg<0>(matches::eq(x), &Part::a), p);
			want = (p.a == x) != neg;
			break;
		case 1:
			what = "member function";
			got = neg ? viaPolicy<const Part&>(expect::arg<0>(!matches::lt(x), &Part::twice), p) : viaPolicy<const Part&>(expect::arg<0>(matches::lt(x), &Part::twice), p);
			want = (p.a * 2 < x) != neg;
			break;
		case 2:
			what = "reference to a part";
			got = viaPolicy<const Part&>(expect::arg<0>(matches::instance(p.t), &Part::tokRef), p);
			want = true;
			break;
		case 3:
			what = "part by reference, other instance";
			{
				Part q{};
				got = viaPolicy<const Part&>(expect::arg<0>(matches::instance(q.t), &Part::tokRef), p);
				want = false;
			}
			break;
		case 4:
		{
			what = "function returning a value";
			const auto proj = [](const Part& q) { return q.name + "b"; };
			got = viaPolicy<Part&>(expect::arg<0>(str::eq("ab"), proj), p);
			want = p.name + "b" == "ab";
			break;
		}
		case 5:
		{
			what = "move-only projection";
			got = viaPolicy<const Part&>(expect::arg<0>(matches::eq(x), [u = std::make_unique<int>(1)](const Part& q) { return q.a + *u; }), p);
			want = p.a + 1 == x;
			break;
		}
		case 6:
		{
			what = "second argument projected";
			mimicpp::Mock<void(int, const Part&)> mock{};
			mimicpp::ScopedExpectation e = mock.expect_call(matches::_, matches::_) && expect::at_least(0) && expect::arg<1>(matches::eq(x), &Part::a)
				&& expect::arg<0>(matches::ge(x));
			const int first = s.range(0, 6);
			try
			{
				mock(first, p);
				got = true;
			}
			catch (const NoMatch&)
			{
			}
			want = p.a == x && first >= x;
			break;
		}
		default:
		{
			what = "projection of a movable argument";
			// the argument is inspected, not consumed
			mimicpp::Mock<void(std::unique_ptr<int>)> mock{};
			int seen = -1;
			mimicpp::ScopedExpectation e = mock.expect_call(matches::_) && expect::at_least(0)
				&& expect::arg<0>(matches::eq(x), [](const std::unique_ptr<int>& u) { return u ? *u : -1; })
				&& expect::arg<0>(matches::predicate([](const std::unique_ptr<int>& u) { return u != nullptr; }))
				&& mimicpp::then::apply_arg<0>([&](std::unique_ptr<int>& u) { seen = u ? *u : -1; });
			try
			{
				mock(std::make_unique<int>(p.a));
				got = true;
			}
			catch (const NoMatch&)
			{
			}
			want = p.a == x;
			pbt::require(!got || seen == p.a, "the argument did not arrive unchanged");
			break;
		}
		}
		c.log("projection: " + what + ", value " + std::to_string(p.a) + ", expected " + std::to_string(x) + (neg ? " negated" : ""));
		pbt::require(got == want, "projection (" + what + "): the expectation " + yn(got) + " the call");
		pbt::require(Tok::copies == copies && (k == 3 || Tok::moves == moves) , "projection (" + what + "): copied or moved a part of the argument");
	}

	// ---- named operands stay what they are, and a matcher built from them does not depend on them ------------------------
	template <typename Str>
	Str text(Src& s)
	{
		using Char = typename Str::value_type;
		Str r{};
		for (int n = s.coin(1, 2) ? s.range(1, 4) : s.range(16, 40); n > 0; --n) r.push_back(static_cast<Char>('a' + s.range(0, 2) - (s.coin(1, 4) ? 32 : 0)));
		return r;
	}

	// every factory: called with a named object, a constant one and a temporary
	template <typename Str>
	void operandCase(Src& s, Case& c)
	{
		c.nontrivial = true;
		const Str orig = text<Str>(s);
		Str named{orig};
		const auto lower = [](Str x)
		{
			for (auto& ch : x)
				if (ch >= 'A' && ch <= 'Z') ch = static_cast<typename Str::value_type>(ch + 32);
			return x;
		};
		const Str arg = s.coin(1, 2) ? orig : s.coin(1, 2) ? orig.substr(0, orig.size() / 2) : s.coin(1, 2) ? orig + orig : lower(orig);
		const int how = static_cast<int>(s.draw(3));
		const int spoil = static_cast<int>(s.draw(3));
		static const char* const hows[]{"named", "constant", "temporary"};
		const auto run = [&](const std::string& what, const auto& factory, const auto& model)
		{
			c.log(what + ", " + hows[how] + " operand");
			c.label(hows[how]);
			const auto test = [&](const auto& m, const auto& reference)
			{
				const std::string d{m.describe()};
				pbt::require(named == orig || how != 0, what + ": building the matcher changed its operand");
				const bool want = model(arg, orig);
				pbt::require(m.matches(arg) == want, what + ": wrong verdict");
				// later changes of the operand do not reach the matcher
				if (spoil == 1) named.assign(1, 'z');
				if (spoil == 2) named = Str{};
				pbt::require(m.matches(arg) == want && std::string{m.describe()} == d, what + ": the matcher changed with its operand");
				auto copy = m;
				auto inv = !copy;
				auto third = std::move(copy);
				pbt::require(third.matches(arg) == want && inv.matches(arg) == !want && std::string{third.describe()} == d, what + ": a copy behaves differently");
				pbt::require(std::string{reference.describe()} == d, what + ": the description depends on the value category of the operand: '" + d + "' and '" + std::string{reference.describe()} + "'");
			};
			const auto reference = factory(Str{orig});
			if (how == 0) test(factory(named), reference);
			else if (how == 1) test(factory(std::as_const(named)), reference);
			else test(factory(Str{named}), reference);
		};
		const auto pre = [](const Str& a, const Str& p) { return a.size() >= p.size() && a.compare(0, p.size(), p) == 0; };
		const auto suf = [](const Str& a, const Str& p) { return a.size() >= p.size() && a.compare(a.size() - p.size(), p.size(), p) == 0; };
		const auto con = [](const Str& a, const Str& p) { return a.find(p) != Str::npos; };
		const auto ci = [lower](const auto& f) { return [f, lower](const Str& a, const Str& p) { return f(lower(a), lower(p)); }; };
#define MC_FACTORY(call) [](auto&& x) { return call; }
#define MC_X std::forward<decltype(x)>(x)
		switch (s.draw(sizeof(typename Str::value_type) == 1 ? 14 : 10))
		{
		case 0: run("eq", MC_FACTORY(matches::eq(MC_X)), std::equal_to<Str>{}); break;
		case 1: run("ne", MC_FACTORY(matches::ne(MC_X)), std::not_equal_to<Str>{}); break;
		case 2: run("lt", MC_FACTORY(matches::lt(MC_X)), std::less<Str>{}); break;
		case 3: run("le", MC_FACTORY(matches::le(MC_X)), std::less_equal<Str>{}); break;
		case 4: run("gt", MC_FACTORY(matches::gt(MC_X)), std::greater<Str>{}); break;
		case 5: run("ge", MC_FACTORY(matches::ge(MC_X)), std::greater_equal<Str>{}); break;
		case 6: run("str::eq", MC_FACTORY(str::eq(MC_X)), std::equal_to<Str>{}); break;
		case 7: run("str::starts_with", MC_FACTORY(str::starts_with(MC_X)), pre); break;
		case 8: run("str::ends_with", MC_FACTORY(str::ends_with(MC_X)), suf); break;
		case 9: run("str::contains", MC_FACTORY(str::contains(MC_X)), con); break;
		default:
			if constexpr (sizeof(typename Str::value_type) == 1)
			{
				switch (s.draw(4))
				{
				case 0: run("case-insensitive str::eq", MC_FACTORY(str::eq(MC_X, mimicpp::case_insensitive)), ci(std::equal_to<Str>{})); break;
				case 1: run("case-insensitive str::starts_with", MC_FACTORY(str::starts_with(MC_X, mimicpp::case_insensitive)), ci(pre)); break;
				case 2: run("case-insensitive str::ends_with", MC_FACTORY(str::ends_with(MC_X, mimicpp::case_insensitive)), ci(suf)); break;
				default: run("case-insensitive str::contains", MC_FACTORY(str::contains(MC_X, mimicpp::case_insensitive)), ci(con)); break;
				}
			}
		}
#undef MC_FACTORY
	}

	// comparators and predicates handed in by name stay usable; range matchers own temporary ranges
	struct TokLess
	{
		Tok t;
		std::vector<int> weights;
		bool operator ()(const Tok& a, const Tok& b) const { return !t.moved && weights.size() == 3 && a.v < b.v; }
	};
	struct TokEq
	{
		Tok t;
		std::vector<int> weights;
		bool operator ()(const Tok& a, const Tok& b) const { return !t.moved && weights.size() == 3 && a.v == b.v; }
	};

	void functorCase(Src& s, Case& c)
	{
		c.nontrivial = true;
		Arg arg, expected;
		for (int n = s.range(0, 4); n > 0; --n) arg.emplace_back(s.range(0, 3));
		expected = arg;
		if (s.coin(1, 2) && !expected.empty()) std::rotate(expected.begin(), expected.begin() + s.range(0, static_cast<int>(expected.size()) - 1), expected.end());
		if (s.coin(1, 3)) expected.emplace_back(s.range(0, 3));
		const Arg expectedCopy{expected}, argCopy{arg};
		TokLess less{Tok{1}, {1, 2, 3}};
		TokEq eq{Tok{1}, {1, 2, 3}};
		const auto pred = [l = less](const Tok& t) { return !l.t.moved && l.weights.size() == 3 && t.v < 2; };
		auto namedPred = pred;
		const int how = static_cast<int>(s.draw(3));
		bool want{};
		std::string what;
		const auto judgeIt = [&](const auto& m)
		{
			pbt::require(m.matches(arg) == want, what + ": wrong verdict");
			if constexpr (std::copy_constructible<std::remove_cvref_t<decltype(m)>>) // an owned range cannot be copied
			{
				auto copy = m;
				auto inv = !copy;
				auto third = std::move(copy);
				pbt::require(third.matches(arg) == want && inv.matches(arg) == !want && m.matches(arg) == want, what + ": a copy behaves differently");
			}
		};
		const auto withFn = [&](const auto& factory, auto& fn)
		{
			if (how == 0) judgeIt(factory(fn));
			else if (how == 1) judgeIt(factory(std::as_const(fn)));
			else judgeIt(factory(std::remove_reference_t<decltype(fn)>{fn}));
		};
		const auto same = [](const Tok& a, const Tok& b) { return a.v == b.v; };
		switch (s.draw(7))
		{
		case 0:
			what = "is_sorted";
			want = std::ranges::is_sorted(arg, {}, &Tok::v);
			withFn([](auto&& f) { return range::is_sorted(std::forward<decltype(f)>(f)); }, less);
			break;
		case 1:
			what = "range::eq with comparator";
			want = std::ranges::equal(arg, expectedCopy, same);
			withFn([&](auto&& f) { return range::eq(Arg{expected}, std::forward<decltype(f)>(f)); }, eq);
			break;
		case 2:
			what = "range::unordered_eq with comparator";
			want = std::ranges::is_permutation(arg, expectedCopy, same);
			withFn([&](auto&& f) { return range::unordered_eq(Arg{expected}, std::forward<decltype(f)>(f)); }, eq);
			break;
		case 3:
			what = "range::eq";
			want = std::ranges::equal(arg, expectedCopy, same);
			withFn([](auto&& r) { return range::eq(std::forward<decltype(r)>(r)); }, expected);
			break;
		case 4:
			what = "range::unordered_eq";
			want = std::ranges::is_permutation(arg, expectedCopy, same);
			withFn([](auto&& r) { return range::unordered_eq(std::forward<decltype(r)>(r)); }, expected);
			break;
		case 5:
			what = "each_element of a predicate";
			want = std::ranges::all_of(arg, [](const Tok& t) { return t.v < 2; });
			withFn([](auto&& p) { return range::each_element(matches::predicate(std::forward<decltype(p)>(p))); }, namedPred);
			break;
		default:
			what = "any_element of a predicate";
			want = std::ranges::any_of(arg, [](const Tok& t) { return t.v < 2; });
			withFn([](auto&& p) { return range::any_element(matches::predicate(std::forward<decltype(p)>(p))); }, namedPred);
			break;
		}
		static const char* const hows[]{"named", "constant", "temporary"};
		c.log(what + ", " + hows[how] + " operand");
		c.label(hows[how]);
		pbt::require(!less.t.moved && less.weights.size() == 3 && !eq.t.moved && eq.weights.size() == 3 && namedPred(Tok{0}), what + ": the caller's function object was changed");
		pbt::require(expected == expectedCopy && arg == argCopy, what + ": a range of the caller was changed");
	}

	// ---- arguments arrive untouched, whatever inspects them ---------------------------------------------------------
	void untouchedCase(Src& s, Case& c)
	{
		c.nontrivial = true;
		const int v = s.range(0, 3);
		const int x = s.range(0, 3);
		Tok arg{v};
		const int copies = Tok::copies;
		const int moves = Tok::moves;
		mimicpp::Mock<void(Tok&&)> mock{};
		auto m = matches::eq(x);
		int order = 0;
		mimicpp::ScopedExpectation e0 = mock.expect_call(m) && expect::at_least(0) && mimicpp::then::invoke([&] { order = 1; });
		mimicpp::ScopedExpectation e1 = mock.expect_call(std::as_const(m)) && expect::at_least(0) && expect::arg<0>(!m) && mimicpp::then::invoke([&] { order = 2; });
		mimicpp::ScopedExpectation e2 = mock.expect_call(!m) && expect::at_least(0) && mimicpp::then::invoke([&] { order = 3; });
		const int times = s.range(1, 4);
		for (int i = 0; i < times; ++i)
		{
			mock(std::move(arg));
			pbt::require(order == (v == x ? 1 : 3), "the wrong expectation answered");
		}
		c.log("argument " + std::to_string(v) + " expected " + std::to_string(x) + ", " + std::to_string(times) + " calls");
		pbt::require(arg == v && Tok::copies == copies && Tok::moves == moves, "the argument was copied, moved or changed");
	}
}

#if PART == 0
static Add a0{"pool", poolCase};
static Add a1{"pool2", poolCase};
#elif PART == 1
static Add b0{"projection", projectionCase};
static Add b1{"untouched", untouchedCase};
#elif PART == 2
static Add d0{"operands", operandCase<std::string>};
static Add d1{"wide operands", operandCase<std::wstring>};
static Add d2{"functors", functorCase};
#else
static pbt::Register r{"C13", runEntry,
	"a case is a history of building, copying, moving, negating, nesting and using matchers (or one projection or mock "
	"set-up); every case is non-trivial", 150000, 3000000};
int main(int argc, char** argv) { return pbt::main(argc, argv); }
#endif
