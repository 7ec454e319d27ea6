// C28: Catch2's matchers, handed to the framework, decide exactly as they do under Catch2.
#define MIMICPP_CONFIG_EXPERIMENTAL_CATCH2_MATCHER_INTEGRATION
#include <catch2/matchers/catch_matchers_all.hpp>
#include <catch2/catch_approx.hpp>
#include <catch2/catch_config.hpp>
#include <catch2/internal/catch_context.hpp>
#if PART % 2 // in either order
#include "mimic++/mimic++.hpp"
#endif
#include "mimic++/adapters/Catch2.hpp"
#include "../matchers/common.hpp"

#include <stdexcept>

using namespace mc;
namespace matches = mimicpp::matches;
namespace expect = mimicpp::expect;
namespace range = mimicpp::matches::range;
namespace cm = Catch::Matchers;

namespace
{
	struct Sized // a user's range
	{
		std::vector<int> v{};
		auto begin() const { return v.begin(); }
		auto end() const { return v.end(); }
		std::size_t size() const { return v.size(); }
		bool empty() const { return v.empty(); }
	};

	// ---- matchers a user wrote for Catch2 -----------------------------------------------------------------------------
	struct DivisibleBy : cm::MatcherGenericBase // new style
	{
		int d;
		explicit DivisibleBy(int x) : d{x} {}
		template <typename T>
		bool match(const T& v) const { return v % d == 0; }
		std::string describe() const override { return "is divisible by " + std::to_string(d); }
	};

	struct Between : cm::MatcherBase<int> // old style
	{
		int lo, hi;
		Between(int l, int h) : lo{l}, hi{h} {}
		bool match(const int& v) const override { return lo <= v && v <= hi; }
		std::string describe() const override { return "is between " + std::to_string(lo) + " and " + std::to_string(hi); }
	};

	struct Brittle : cm::MatcherGenericBase // cannot judge some values
	{
		int bad, good;
		Brittle(int b, int g) : bad{b}, good{g} {}
		bool match(const int& v) const
		{
			if (v == bad) throw std::runtime_error{"brittle"};
			return v == good;
		}
		std::string describe() const override { return "is brittle about " + std::to_string(bad); }
	};

	struct Both : cm::MatcherGenericBase // has matches() as well, which is not what Catch2 asks
	{
		int x;
		explicit Both(int v) : x{v} {}
		bool match(int v) const { return v == x; }
		bool matches(int v) const { return v != x; }
		std::string describe() const override { return "is exactly " + std::to_string(x); }
	};

	template <typename T>
	struct Holder
	{
		T value;
	};

	template <typename T>
	std::string text(const T& v) { return Catch::Detail::stringify(v); }

	// One trial: does the framework, in some place, decide as Catch2 does?  make() builds the matcher afresh each time.
	template <typename T, bool full = true, typename Make>
	void trial(Src& s, Case& c, Make make, const std::vector<T>& args)
	{
		const auto oracle = make();
		const std::string descr = oracle.describe();
		for (const T& given : args)
		{
			T arg = given;
			const bool want = oracle.match(std::as_const(arg));
			const int place = static_cast<int>(s.draw(full ? 11 : 4));
			c.nontrivial = true;
			c.label(want ? "accepted" : "rejected");
			c.label("place " + std::to_string(place));
			c.log("place " + std::to_string(place) + ": \"" + descr + "\" on " + text(given) + ", Catch2 " + yn(want));
			bool got{};
			switch (place)
			{
			case 0: got = viaMock<T>(make(), arg); break;
			case 1: got = viaPolicy<const T&>(expect::arg<0>(make()), arg); break;
			case 2: // the newest that accepts answers
				{
					mimicpp::Mock<int(const T&)> mock{};
					mimicpp::ScopedExpectation e0 = mock.expect_call(matches::_) && expect::at_least(0) && mimicpp::finally::returns(0);
					mimicpp::ScopedExpectation e1 = mock.expect_call(make()) && expect::at_least(0) && mimicpp::finally::returns(1);
					mimicpp::ScopedExpectation moved{std::move(e1)};
					pbt::require(mock(arg) == (want ? 1 : 0), "the wrong expectation answered");
					continue;
				}
			case 3: // the report
				{
					mimicpp::Mock<void(const T&)> mock{};
					mimicpp::ScopedExpectation e = mock.expect_call(make()) && expect::at_least(0);
					try
					{
						mock(arg);
						got = true;
						const auto& m = log().lastMatch;
						pbt::require(m && m->expectationReports.size() >= 1, "nothing is reported for the match");
						bool found = false;
						for (const auto& r : m->expectationReports)
							found = found || (r.description && r.description->find(descr) != std::string::npos && r.isMatching);
						pbt::require(found, "the report of the match lacks the matcher's description");
					}
					catch (const NoMatch& n)
					{
						bool found = false;
						for (const auto& m : n.reports)
							for (const auto& r : m.expectationReports)
								found = found || (r.description && r.description->find(descr) != std::string::npos && !r.isMatching);
						pbt::require(n.reports.size() == 1 && found, "the report of the mismatch lacks the matcher's description");
					}
					break;
				}
			default:
				if constexpr (full)
					switch (place)
					{
					case 4: got = viaMock<const T&>(make(), std::as_const(arg)); break;
					case 5: got = viaMock<T&>(make(), arg); break;
					case 6:
						{
							T copy = arg;
							got = viaMock<T&&>(make(), std::move(copy));
							break;
						}
					case 7: got = viaPolicy<const Holder<T>&>(expect::arg<0>(make(), &Holder<T>::value), Holder<T>{arg}); break;
					case 8: // element by element
						{
							std::vector<Holder<T>> dummy{};
							std::vector<T> elems{};
							bool all = true;
							for (int n = s.range(0, 4); n > 0; --n)
							{
								elems.push_back(s.pick(args));
								all = all && oracle.match(std::as_const(elems).back());
							}
							const bool r = viaMock<const std::vector<T>&>(range::each_element(make()), elems);
							pbt::require(r == all, "each_element decided otherwise than Catch2 does for the elements");
							continue;
						}
					case 9:
						{
							std::vector<T> elems{};
							bool any = false;
							for (int n = s.range(0, 4); n > 0; --n)
							{
								elems.push_back(s.pick(args));
								any = any || oracle.match(std::as_const(elems).back());
							}
							const bool r = viaMock<const std::vector<T>&>(range::any_element(make()), elems);
							pbt::require(r == any, "any_element decided otherwise than Catch2 does for the elements");
							continue;
						}
					case 10: // two parameters, one decided by the framework's own matcher
						{
							mimicpp::Mock<void(int, const T&)> mock{};
							const int x = s.range(0, 1);
							mimicpp::ScopedExpectation e = mock.expect_call(matches::eq(0), make()) && expect::at_least(0);
							bool r = true;
							try { mock(x, arg); } catch (const NoMatch&) { r = false; }
							pbt::require(r == (want && x == 0), "a definition with two matchers decided otherwise");
							continue;
						}
					}
			}
			pbt::require(got == want, "the framework " + yn(got) + " what Catch2 " + yn(want));
			pbt::require(text(arg) == text(given), "the argument was changed");
		}
	}

	// ---- as one matcher, negated, or joined -----------------------------------------------------------------------------
	template <typename T, bool many = true, typename MakeA, typename MakeB>
	void joined(Src& s, Case& c, MakeA makeA, MakeB makeB, const std::vector<T>& args)
	{
		const auto a = makeA();
		const auto b = makeB();
		if constexpr (!many)
		{
			switch (s.weighted({5, 2, 2}))
			{
			case 0: return trial<T, true>(s, c, makeA, args);
			case 1: c.label("not"); return trial<T, false>(s, c, [&] { return !a; }, args);
			default: c.label("or"); return trial<T, false>(s, c, [&] { return a || b; }, args);
			}
		}
		else
		switch (s.weighted({5, 2, 2, 2, 1, 1, 1}))
		{
		case 0: return trial<T, true>(s, c, makeA, args);
		case 1: c.label("not"); return trial<T, false>(s, c, [&] { return !a; }, args);
		case 2: c.label("and"); return trial<T, false>(s, c, [&] { return a && b; }, args);
		case 3: c.label("or"); return trial<T, false>(s, c, [&] { return a || b; }, args);
		case 4:
			{
				c.label("and not");
				const auto nb = !b;
				return trial<T, false>(s, c, [&] { return a && nb; }, args);
			}
		case 5:
			{
				c.label("not or");
				const auto na = !a;
				return trial<T, false>(s, c, [&] { return na || b; }, args);
			}
		default: c.label("three"); return trial<T, false>(s, c, [&] { return a && b && a; }, args);
		}
	}

	// ---- strings --------------------------------------------------------------------------------------------------------
	std::string word(Src& s)
	{
		static constexpr std::string_view alphabet{"abAB. \n"};
		std::string r;
		for (int n = s.range(0, 5); n > 0; --n) r += alphabet[s.draw(static_cast<std::uint32_t>(s.coin(1, 6) ? alphabet.size() : 4))];
		return r;
	}

	std::vector<std::string> stringsAround(Src& s, const std::string& w)
	{
		std::vector<std::string> r;
		for (int n = s.range(1, 4); n > 0; --n)
			switch (s.draw(7))
			{
			case 0: r.push_back(w); break;
			case 1: r.push_back(w + word(s)); break;
			case 2: r.push_back(word(s) + w); break;
			case 3: r.push_back(word(s) + w + word(s)); break;
			case 4:
				{
					std::string u = w;
					for (char& ch : u) ch = s.coin(1, 2) ? static_cast<char>(std::toupper(ch)) : static_cast<char>(std::tolower(ch));
					r.push_back(u);
					break;
				}
			case 5: r.push_back(w.substr(0, w.size() / 2)); break;
			default: r.push_back(word(s));
			}
		return r;
	}

	Catch::CaseSensitive sense(Src& s) { return s.coin(1, 2) ? Catch::CaseSensitive::Yes : Catch::CaseSensitive::No; }

	template <typename K>
	void withString(Src& s, K k) // k(maker)
	{
		const std::string w = word(s);
		const auto cs = sense(s);
		switch (s.draw(5))
		{
		case 0: return k(w, [=] { return cm::Equals(w, cs); });
		case 1: return k(w, [=] { return cm::ContainsSubstring(w, cs); });
		case 2: return k(w, [=] { return cm::StartsWith(w, cs); });
		case 3: return k(w, [=] { return cm::EndsWith(w, cs); });
		default:
			{
				static constexpr std::string_view pool[]{"a*b", "[ab]+", "a|b", ".*", "(ab)?A", "[^a]*", "a.b"};
				const std::string re{pool[s.draw(7)]};
				return k(w, [=] { return cm::Matches(re, cs); });
			}
		}
	}

	#if PART == 0
	void stringCase(Src& s, Case& c)
	{
		withString(s, [&](const std::string& w, auto a)
		{
			const std::string w2 = s.coin(1, 2) ? w : word(s);
			const auto cs = sense(s);
			joined<std::string>(s, c, a, [=] { return cm::ContainsSubstring(w2, cs); }, stringsAround(s, w));
		});
	}
#endif

	// ---- numbers --------------------------------------------------------------------------------------------------------
	#if PART == 1 || PART == 3
	double number(Src& s)
	{
		static const double pool[]{0., -0., 1., -1., .1, .3, 1e-12, 1e300, -1e300, 2.5,
			std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::max(),
			std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
			std::numeric_limits<double>::quiet_NaN()};
		return pool[s.draw(std::size(pool))];
	}

	std::vector<double> around(Src& s, double t, double m)
	{
		std::vector<double> r;
		for (int n = s.range(1, 4); n > 0; --n)
			switch (s.draw(7))
			{
			case 0: r.push_back(t); break;
			case 1: r.push_back(t + m); break;
			case 2: r.push_back(t - m); break;
			case 3: r.push_back(std::nextafter(t, 1e308)); break;
			case 4: r.push_back(std::nextafter(t + m, 1e308)); break;
			case 5: r.push_back(t * (1 + m)); break;
			default: r.push_back(number(s));
			}
		return r;
	}

	void doubleCase(Src& s, Case& c)
	{
		double t = number(s);
		const double m = s.pick(std::vector<double>{0., .5, .25, 1e-9});
		const double t2 = number(s);
		const double fin = std::isfinite(t) ? t : 1.;
		const auto b = [=] { return cm::WithinAbs(std::isfinite(t2) ? t2 : 0., m); };
		const std::vector<double> args = around(s, t, m);
		switch (s.draw(4))
		{
		case 0: return joined<double>(s, c, [=] { return cm::WithinAbs(t, m); }, b, args);
		case 1: return joined<double>(s, c, [=] { return cm::WithinRel(fin, m < 1 ? m : .5); }, b, args);
		case 2:
			{
				const auto ulps = static_cast<std::uint64_t>(s.range(0, 3));
				return joined<double>(s, c, [=] { return cm::WithinULP(fin, ulps); }, b, args);
			}
		default: return joined<double>(s, c, [=] { return cm::IsNaN(); }, b, args);
		}
	}
#endif

	std::vector<int> ints(Src& s, int lo, int hi)
	{
		std::vector<int> r;
		for (int n = s.range(1, 5); n > 0; --n) r.push_back(s.range(lo, hi));
		return r;
	}

	#if PART == 2
	void intCase(Src& s, Case& c)
	{
		const int x = s.range(1, 4), lo = s.range(-4, 4), hi = s.range(-4, 6);
		const std::vector<int> args = ints(s, -5, 6);
		const auto between = [=] { return Between{lo, hi}; };
		const auto divisible = [=] { return DivisibleBy{x}; };
		switch (s.draw(6))
		{
		case 0: return joined<int>(s, c, between, [=] { return Between{-x, x}; }, args);
		case 1: return joined<int>(s, c, divisible, [=] { return DivisibleBy{x + 1}; }, args);
		case 2: return joined<int>(s, c, between, divisible, args); // old and new style mixed
		case 3: return joined<int>(s, c, divisible, between, args);
		case 4: return trial<int>(s, c, [=] { return Both{lo}; }, args);
		default:
			{
				const std::string d = s.coin(1, 2) ? "some {} text" : "";
				return joined<int>(s, c, [=] { return cm::Predicate<int>([=](const int& v) { return v > lo; }, d); }, between, args);
			}
		}
	}

	// A matcher that throws: the call goes on with the other expectations and the failure is reported.
	void brittleCase(Src& s, Case& c)
	{
		c.nontrivial = true;
		const int bad = s.range(0, 2), good = s.range(0, 2);
		mimicpp::Mock<int(int)> mock{};
		mimicpp::ScopedExpectation e0 = mock.expect_call(matches::_) && expect::at_least(0) && mimicpp::finally::returns(0);
		mimicpp::ScopedExpectation e1 = mock.expect_call(Brittle{bad, good}) && expect::at_least(0) && mimicpp::finally::returns(1);
		for (const int v : ints(s, 0, 2))
		{
			c.log("bad " + std::to_string(bad) + " good " + std::to_string(good) + " called with " + std::to_string(v));
			const int before = log().exceptions;
			pbt::require(mock(v) == (v != bad && v == good ? 1 : 0), "the wrong expectation answered");
			pbt::require(log().exceptions - before == (v == bad ? 1 : 0), "the matcher's failure was not reported exactly once");
		}
	}
#endif

	// ---- vectors and ranges -------------------------------------------------------------------------------------------
	std::vector<std::vector<int>> vectorsAround(Src& s, const std::vector<int>& v)
	{
		std::vector<std::vector<int>> r;
		for (int n = s.range(1, 3); n > 0; --n)
		{
			std::vector<int> u = v;
			switch (s.draw(5))
			{
			case 0: break;
			case 1:
				for (std::size_t i = u.size(); i > 1; --i) std::swap(u[i - 1], u[s.draw(static_cast<std::uint32_t>(i))]);
				break;
			case 2: u.push_back(s.range(0, 3)); break;
			case 3: if (!u.empty()) u[s.draw(static_cast<std::uint32_t>(u.size()))] = s.range(0, 3); break;
			default: u.resize(s.draw(4), 1);
			}
			r.push_back(std::move(u));
		}
		return r;
	}

	#if PART == 3
	void vectorCase(Src& s, Case& c)
	{
		std::vector<int> v = ints(s, 0, 3);
		if (s.coin(1, 5)) v.clear();
		const int x = s.range(0, 3);
		const auto args = vectorsAround(s, v);
		const auto has = [&] { return cm::VectorContains(x); };
		switch (s.draw(4))
		{
		case 0: return joined<std::vector<int>>(s, c, [&] { return cm::Equals(std::as_const(v)); }, has, args);
		case 1: return joined<std::vector<int>>(s, c, [&] { return cm::UnorderedEquals(std::as_const(v)); }, has, args);
		case 2: return joined<std::vector<int>>(s, c, [&] { return cm::Contains(std::as_const(v)); }, has, args);
		default: return joined<std::vector<int>>(s, c, has, [&] { return cm::Contains(std::as_const(v)); }, args);
		}
	}
#endif

	#if PART == 3
	void approxCase(Src& s, Case& c)
	{
		std::vector<double> v;
		for (int n = s.range(0, 3); n > 0; --n) v.push_back(std::isfinite(number(s)) ? s.range(-2, 2) * .5 : .5);
		std::vector<std::vector<double>> args;
		for (int n = s.range(1, 3); n > 0; --n)
		{
			args.push_back(v);
			for (double& d : args.back()) if (s.coin(1, 3)) d += s.pick(std::vector<double>{1e-9, .1, .3, 1.});
		}
		const double m = s.pick(std::vector<double>{.05, .2, .5});
		return trial<std::vector<double>>(s, c, [&]
		{
			auto r = cm::Approx(std::as_const(v));
			r.margin(m);
			return r;
		}, args);
	}
#endif

	template <typename R>
	void rangeOf(Src& s, Case& c, const std::vector<R>& args)
	{
		const int x = s.range(0, 3), d = s.range(1, 3);
		const auto n = static_cast<std::size_t>(s.range(0, 4));
		const std::vector<int> other = ints(s, 0, 3);
		const auto sized = [=] { return cm::SizeIs(n); };
		switch (s.draw(9))
		{
		case 0: return joined<R, false>(s, c, sized, [] { return cm::IsEmpty(); }, args);
		case 1: return joined<R, false>(s, c, [] { return cm::IsEmpty(); }, sized, args);
		case 2: return joined<R, false>(s, c, [=] { return cm::Contains(int{x}); }, sized, args);
		case 3: return joined<R, false>(s, c, [=] { return cm::AllMatch(DivisibleBy{d}); }, sized, args);
		case 4: return joined<R, false>(s, c, [=] { return cm::AnyMatch(DivisibleBy{d}); }, sized, args);
		case 5: return joined<R, false>(s, c, [=] { return cm::NoneMatch(DivisibleBy{d}); }, sized, args);
		case 6: return joined<R, false>(s, c, [=] { return cm::SizeIs(DivisibleBy{d}); }, sized, args);
		case 7: return joined<R, false>(s, c, [=] { return cm::RangeEquals(other); }, sized, args);
		default: return joined<R, false>(s, c, [=] { return cm::UnorderedRangeEquals(other); }, sized, args);
		}
	}

		template <typename R>
	void rangeCase(Src& s, Case& c)
	{
		std::vector<R> args;
		for (const auto& v : vectorsAround(s, ints(s, 0, 3)))
		{
			if constexpr (std::same_as<R, Sized>) args.push_back({v});
			else args.emplace_back(v.begin(), v.end());
		}
		rangeOf<R>(s, c, args);
	}

#if PART == 6
	void boolsCase(Src& s, Case& c)
	{
		std::vector<std::vector<bool>> args;
		for (int n = s.range(1, 3); n > 0; --n)
		{
			args.emplace_back();
			for (int k = s.range(0, 3); k > 0; --k) args.back().push_back(s.coin(1, 2));
		}
		switch (s.draw(3))
		{
		case 0: return joined<std::vector<bool>>(s, c, [] { return cm::AllTrue(); }, [] { return cm::AnyTrue(); }, args);
		case 1: return joined<std::vector<bool>>(s, c, [] { return cm::AnyTrue(); }, [] { return cm::IsEmpty(); }, args);
		default: return joined<std::vector<bool>>(s, c, [] { return cm::NoneTrue(); }, [] { return cm::AllTrue(); }, args);
		}
	}
#endif

	// ---- exceptions as arguments --------------------------------------------------------------------------------------
	#if PART == 0
	void exceptionCase(Src& s, Case& c)
	{
		const std::string w = word(s);
		std::vector<std::runtime_error> args;
		for (const std::string& t : stringsAround(s, w)) args.emplace_back(t);
		for (auto& a : args)
		{
			const bool viaMatches = s.coin(1, 2);
			const auto m1 = cm::Message(w);
			const auto m2 = cm::MessageMatches(cm::StartsWith(w));
			const bool want = viaMatches ? m2.match(a) : m1.match(a);
			c.nontrivial = true;
			c.log(text(w) + " against " + text(std::string{a.what()}) + (viaMatches ? " starts" : " equals"));
			bool got{};
			if (s.coin(1, 2))
				got = viaMatches ? viaMock<const std::exception&>(cm::MessageMatches(cm::StartsWith(w)), a)
				                 : viaMock<const std::exception&>(cm::Message(w), a);
			else
				got = viaMatches ? viaMock<std::runtime_error&>(m2, a) : viaMock<std::runtime_error&>(m1, a);
			pbt::require(got == want, "the framework " + yn(got) + " what Catch2 " + yn(want));
		}
	}
#endif
}

#if PART == 0
static Add a0{"strings", stringCase};
static Add a1{"exceptions", exceptionCase};
#elif PART == 1
static Add b0{"doubles", doubleCase};
#elif PART == 2
static Add d0{"ints", intCase};
static Add d1{"brittle", brittleCase};
#elif PART == 3
static Add f0{"vectors", vectorCase};
static Add f1{"approximate vectors", approxCase};
#elif PART == 4
static Add g0{"vectors as ranges", rangeCase<std::vector<int>>};
#elif PART == 5
static Add h0{"lists", rangeCase<std::list<int>>};
#elif PART == 7
static Add i0{"own ranges", rangeCase<Sized>};
#elif PART == 6
static Add k0{"bools", boolsCase};
#else
static pbt::Register r{"C28", runEntry,
	"a case hands one Catch2 matcher (or a composite) with its operands and several arguments to the framework; non-trivial "
	"when at least one argument was judged by both", 400000, 8000000};
int main(int argc, char** argv)
{
	const Catch::Config config{Catch::ConfigData{}}; // Catch2's descriptions of strings ask it
	Catch::getCurrentMutableContext().setConfig(&config);
	return pbt::main(argc, argv);
}
#endif
