// C26: matchers of the user (members, trait, both) in every position, and strings of the user with all string matchers.
#pragma once
#include "../matchers/common.hpp"

#include <memory>
#include <numeric>

namespace cm
{
	using mc::Case;
	using mc::Src;
	namespace m = mimicpp;
	namespace matches = mimicpp::matches;
	namespace expect = mimicpp::expect;
	namespace finally = mimicpp::finally;

	struct Opaque // nothing is known about it
	{
		int v{};
	};

	// ---- what a value looks like to the matchers of this check
	inline int key(int v) { return v; }
	inline int key(const std::string& v) { return static_cast<int>(v.size()); }
	inline int key(const Opaque& v) { return v.v; }
	template <typename T>
	int key(const std::vector<T>& v)
	{
		int r = static_cast<int>(v.size());
		for (const auto& e : v) r += key(e);
		return r;
	}
	template <typename T>
	int key(const std::optional<T>& v) { return v ? key(*v) : -1; }
	template <typename T>
	int key(const std::unique_ptr<T>& v) { return v ? key(*v) : -1; }

	struct Params
	{
		int mod{2};
		int rest{};
		bool accept(int k) const { return ((k % mod) + mod) % mod == rest; }
		std::string text(const char* who) const
		{
			return std::string{who} + " " + std::to_string(mod) + " {} {0} " + std::to_string(rest);
		}
	};

	inline int wrongUse{}; // a function was used that another one takes precedence over

	// ---- matchers
	struct Mem // template member
	{
		Params p{};
		bool matches(const auto& v) const { return p.accept(key(v)); }
		std::string describe() const { return p.text("mem"); }
	};
	struct MemView // description kept elsewhere; verdict only convertible to bool
	{
		Params p{};
		std::string kept{p.text("view")};
		struct Verdict
		{
			bool b;
			operator bool() const { return b; }
		};
		Verdict matches(const auto& v) const { return {p.accept(key(v))}; }
		std::string_view describe() const { return kept; }
	};
	struct MemText // fixed description
	{
		Params p{};
		bool matches(const auto& v) const { return p.accept(key(v)); }
		const char* describe() const { return "fixed {} text"; }
	};
	struct MoveOnly
	{
		Params p{};
		std::unique_ptr<Params> q{std::make_unique<Params>(p)};
		bool matches(const auto& v) const { return q->accept(key(v)); }
		std::string describe() const { return q->text("move only"); }
	};
	struct Trait // by trait only
	{
		Params p{};
	};
	struct Prefer // both: the trait takes precedence
	{
		Params p{};
		bool matches(const auto&) const { ++wrongUse; return false; }
		std::string describe() const { ++wrongUse; return "wrong"; }
	};
	struct Mixed // the verdict by trait, the description by member
	{
		Params p{};
		std::string describe() const { return p.text("mixed"); }
	};
	struct Mixed2 // the description by trait, the verdict by member
	{
		Params p{};
		bool matches(const auto& v) const { return p.accept(key(v)); }
	};
	struct Comparable // could also be compared with, and converted from, the arguments
	{
		Params p{};
		bool matches(const auto& v) const { return p.accept(key(v)); }
		std::string describe() const { return p.text("comparable"); }
		friend bool operator ==(const Comparable&, const auto&) { ++wrongUse; return false; }
		operator int() const { ++wrongUse; return 0; }
	};
	struct Ranged : std::vector<int> // is a range, too
	{
		Params p{};
		Ranged(Params q) : p{q} {}
		bool matches(const auto& v) const { return p.accept(key(v)); }
		std::string describe() const { return p.text("ranged"); }
	};
	struct Stringy : std::string // is a string, too
	{
		Params p{};
		Stringy(Params q) : std::string{"stringy"}, p{q} {}
		bool matches(const auto& v) const { return p.accept(key(v)); }
		std::string describe() const { return p.text("stringy"); }
	};
	template <typename T>
	struct Exact // for one type only
	{
		Params p{};
		bool matches(const T& v) const { return p.accept(key(v)); }
		std::string describe() const { return p.text("exact"); }
	};
	struct Constexpr final
	{
		Params p{};
		constexpr bool matches(const auto& v) const noexcept { return p.accept(key(v)); }
		std::string describe() const { return p.text("final"); }
	};
}

#define CM_TRAIT_MATCHES \
	bool matches(const M& x, const auto& v) const { return x.p.accept(cm::key(v)); }
template <>
struct mimicpp::custom::matcher_traits<cm::Trait>
{
	using M = cm::Trait;
	CM_TRAIT_MATCHES
	std::string describe(const M& x) const { return x.p.text("trait"); }
};
template <>
struct mimicpp::custom::matcher_traits<cm::Prefer>
{
	using M = cm::Prefer;
	CM_TRAIT_MATCHES
	std::string describe(const M& x) const { return x.p.text("prefer"); }
};
template <>
struct mimicpp::custom::matcher_traits<cm::Mixed>
{
	using M = cm::Mixed;
	CM_TRAIT_MATCHES
};
template <>
struct mimicpp::custom::matcher_traits<cm::Mixed2>
{
	static std::string describe(const cm::Mixed2& x) { return x.p.text("mixed2"); }
};

namespace cm
{
	// a requirement: what is expected of it
	struct Want
	{
		bool accepts{true};
		std::string text{}; // without position
	};
	struct Node // a requirement as a tree
	{
		Params p{};
		std::string who{};
	};

	inline std::string describeOf(const std::string& who, const Params& p)
	{
		return who == "fixed" ? "fixed {} text" : p.text(who.c_str());
	}

	inline Params genParams(Src& s)
	{
		Params p;
		p.mod = s.range(1, 4);
		p.rest = s.range(0, p.mod - 1);
		return p;
	}

	template <typename T>
	T gen(Src& s)
	{
		if constexpr (std::is_same_v<T, int>) return s.range(-3, 6);
		else if constexpr (std::is_same_v<T, std::string>) return std::string(static_cast<std::size_t>(s.range(0, 5)), 'x');
		else if constexpr (std::is_same_v<T, Opaque>) return Opaque{s.range(-3, 6)};
		else if constexpr (requires { typename T::element_type; }) return s.coin(1, 4) ? nullptr : std::make_unique<typename T::element_type>(gen<typename T::element_type>(s));
		else if constexpr (requires { typename T::allocator_type; })
		{
			T r;
			for (int n = s.range(0, 3); n > 0; --n) r.push_back(gen<typename T::value_type>(s));
			return r;
		}
		else
		{
			T r{};
			if (s.draw(3)) r.emplace(gen<typename T::value_type>(s));
			return r;
		}
	}

	// the report of one call with one expectation
	struct Seen
	{
		bool matched{};
		std::vector<std::pair<bool, std::string>> requirements{};
		std::string text{};
	};

	inline void check(const Seen& seen, const std::vector<Want>& wants, const std::vector<std::string>& positions)
	{
		bool all = true;
		std::multiset<std::pair<bool, std::string>> expected;
		for (std::size_t i = 0; i < wants.size(); ++i)
		{
			all = all && wants[i].accepts;
			expected.emplace(wants[i].accepts, "expect: " + positions[i] + " " + wants[i].text);
		}
		std::multiset<std::pair<bool, std::string>> got;
		for (auto& r : seen.requirements)
			if (r.second.find("category overload") == std::string::npos && r.second.find("qualified overload") == std::string::npos) got.insert(r);
		const auto list = [](auto& l)
		{
			std::string o;
			for (auto& [b, t] : l) o += std::string{b ? " passed<" : " failed<"} + t + ">";
			return o;
		};
		pbt::require(seen.matched == all, std::string{"the call was "} + (seen.matched ? "answered" : "not answered") + "; requirements:" + list(expected));
		pbt::require(got == expected, "reported" + list(got) + ", expected" + list(expected));
		for (auto& [b, t] : expected)
			pbt::require(seen.text.find(t) != std::string::npos, "the report's text lacks '" + t + "': " + seen.text);
		pbt::require(wrongUse == 0, "a function was used that another one takes precedence over");
	}

	inline Seen seenOf(bool matched, const mimicpp::MatchReport& r)
	{
		Seen s;
		s.matched = matched;
		for (auto& e : r.expectationReports) s.requirements.emplace_back(e.isMatching, e.description.value_or("(none)"));
		s.text = mimicpp::print(r);
		return s;
	}

	template <typename F>
	Seen observe(F call)
	{
		try
		{
			call();
			return seenOf(true, mc::log().lastMatch.value());
		}
		catch (const mc::NoMatch& e)
		{
			pbt::require(e.reports.size() == 1, "one expectation, but " + std::to_string(e.reports.size()) + " reports");
			return seenOf(false, e.reports[0]);
		}
	}

	inline void begin()
	{
		mc::reset();
		wrongUse = 0;
	}
}

// ---- strings of the user ------------------------------------------------------------------------------------------------
namespace cm
{
	// characters
	struct Uni // folds to several characters
	{
		std::uint16_t c{};
		friend bool operator ==(const Uni&, const Uni&) = default;
		friend auto operator <=>(const Uni&, const Uni&) = default;
	};
	struct Tiny // not foldable, not printable
	{
		std::uint8_t c{};
		friend bool operator ==(const Tiny&, const Tiny&) = default;
	};
	// strings
	template <typename C>
	struct Owned // owns its characters
	{
		std::vector<C> data{};
	};
	template <typename C>
	struct MoveOnlyText
	{
		std::unique_ptr<std::vector<C>> data{std::make_unique<std::vector<C>>()};
	};
	template <typename C>
	struct Fancy : std::vector<C> // is a range, too
	{
		using std::vector<C>::vector;
	};
	template <typename C>
	struct CmpText // brings an equality of its own, which string matching must not use
	{
		std::vector<C> data{};
		friend bool operator ==(const CmpText&, const CmpText&) { ++wrongUse; return false; }
	};
	template <typename C>
	struct OwnView // a view type of its own
	{
		const C* b{};
		std::size_t n{};
		const C* begin() const { return b; }
		const C* end() const { return b + n; }
		const C* data() const { return b; }
		std::size_t size() const { return n; }
	};
}
template <typename C>
inline constexpr bool std::ranges::enable_borrowed_range<cm::OwnView<C>> = true;
template <typename C>
inline constexpr bool std::ranges::enable_view<cm::OwnView<C>> = true;

template <>
struct mimicpp::is_character<cm::Uni> : std::true_type {};
template <>
struct mimicpp::is_character<cm::Tiny> : std::true_type {};
template <>
inline constexpr mimicpp::StringViewT mimicpp::string_literal_prefix<cm::Uni>{"uni{}"};

#define CM_STRING(type, expr, viewT) \
	template <typename C> \
	struct mimicpp::string_traits<cm::type<C>> \
	{ \
		using char_t = C; \
		using view_t = viewT; \
		static view_t view(const cm::type<C>& s) { return view_t{(expr).data(), (expr).size()}; } \
	};
CM_STRING(Owned, s.data, std::span<const C>)
CM_STRING(MoveOnlyText, *s.data, cm::OwnView<C>)
CM_STRING(Fancy, s, cm::OwnView<C>)
CM_STRING(CmpText, s.data, std::span<const C>)

// case folding
template <>
struct mimicpp::string_case_fold_converter<wchar_t> // lazily
{
	auto operator ()(auto&& view) const
	{
		return std::views::all(std::forward<decltype(view)>(view))
			| std::views::transform([](const wchar_t c) { return c >= L'A' && c <= L'Z' ? static_cast<wchar_t>(c + 32) : c; });
	}
};
template <>
struct mimicpp::string_case_fold_converter<char16_t> // an owning result
{
	auto operator ()(auto&& view) const
	{
		std::u16string r;
		for (const char16_t c : view) r += c >= u'A' && c <= u'Z' ? static_cast<char16_t>(c + 32) : c;
		return r;
	}
};
template <>
struct mimicpp::string_case_fold_converter<cm::Uni> // a result of another length
{
	auto operator ()(auto&& view) const
	{
		std::vector<cm::Uni> r;
		for (const cm::Uni c : view)
		{
			if (c.c == 0xdf) r.push_back({'s'}), r.push_back({'s'});
			else if (c.c == 0xad) continue; // vanishes
			else r.push_back({static_cast<std::uint16_t>(c.c >= 'A' && c.c <= 'Z' ? c.c + 32 : c.c)});
		}
		return r;
	}
};

template <>
class mimicpp::custom::Printer<cm::Uni>
{
public:
	template <typename OutIter>
	static OutIter print(OutIter out, const cm::Uni& c)
	{
		return mimicpp::format::format_to(std::move(out), "<{}>", c.c);
	}
};

namespace cm
{
	template <typename C>
	std::vector<long> codes(const std::vector<C>& t)
	{
		std::vector<long> r;
		for (const C& c : t)
		{
			if constexpr (std::is_same_v<C, Uni> || std::is_same_v<C, Tiny>) r.push_back(c.c);
			else r.push_back(static_cast<long>(c));
		}
		return r;
	}

	template <typename C>
	std::vector<long> folded(const std::vector<C>& t)
	{
		std::vector<long> r;
		for (const long c : codes(t))
		{
			if (std::is_same_v<C, Uni> && c == 0xdf) r.insert(r.end(), {'s', 's'});
			else if (std::is_same_v<C, Uni> && c == 0xad) continue;
			else r.push_back(c >= 'A' && c <= 'Z' ? c + 32 : c);
		}
		return r;
	}

	inline bool related(int rel, const std::vector<long>& t, const std::vector<long>& p)
	{
		const auto at = [&](std::size_t k) { return k + p.size() <= t.size() && std::equal(p.begin(), p.end(), t.begin() + static_cast<std::ptrdiff_t>(k)); };
		switch (rel)
		{
		case 0: return t == p;
		case 1: return at(0);
		case 2: return p.size() <= t.size() && at(t.size() - p.size());
		default:
			for (std::size_t k = 0; k <= t.size(); ++k)
				if (at(k)) return true;
			return false;
		}
	}

	template <typename C>
	std::string shown(const std::vector<C>& t)
	{
		if constexpr (std::is_same_v<C, char>) return "\"" + std::string(t.begin(), t.end()) + "\"";
		else if constexpr (std::is_same_v<C, Uni>)
		{
			std::string o = "uni{}\"";
			for (auto& c : t) o += "<" + std::to_string(c.c) + ">";
			return o + '"';
		}
		else
		{
			std::string o = std::is_same_v<C, wchar_t> ? "L\"" : std::is_same_v<C, char16_t> ? "u\"" : "\"";
			bool first = true;
			for (const long c : codes(t)) o += (std::exchange(first, false) ? "0x" : ", 0x") + mc::hex(static_cast<unsigned long long>(c));
			return o + '"';
		}
	}

	template <typename C>
	std::vector<C> genText(Src& s, int max)
	{
		static const std::vector<int> alphabet{'a', 'A', 'b', 's', 'S', 0xdf, 0xad, '{'};
		std::vector<C> r;
		for (int n = s.range(0, max); n > 0; --n)
		{
			const int c = alphabet[s.draw(8)];
			if constexpr (std::is_same_v<C, Uni>) r.push_back({static_cast<std::uint16_t>(c)});
			else if constexpr (std::is_same_v<C, Tiny>) r.push_back({static_cast<std::uint8_t>(c)});
			else r.push_back(static_cast<C>(std::is_same_v<C, char> ? c & 0x7f : c));
		}
		return r;
	}

	template <typename S, typename C>
	S as(const std::vector<C>& t)
	{
		if constexpr (std::is_same_v<S, MoveOnlyText<C>>)
		{
			S r;
			*r.data = t;
			return r;
		}
		else if constexpr (std::is_same_v<S, Fancy<C>>) return S(t.begin(), t.end());
		else if constexpr (std::is_same_v<S, Owned<C>> || std::is_same_v<S, CmpText<C>>) return S{t};
		else return S(t.data(), t.size());
	}

	inline const char* const relText[2][4][2]{
		{{"is equal to ", "is not equal to "}, {"starts with ", "starts not with "}, {"ends with ", "ends not with "}, {"contains ", "contains not "}},
		{{"is case-insensitively equal to ", "is case-insensitively not equal to "}, {"case-insensitively starts with ", "case-insensitively starts not with "},
			{"case-insensitively ends with ", "case-insensitively ends not with "}, {"case-insensitively contains ", "case-insensitively contains not "}}};

	template <typename C>
	inline constexpr bool foldable = !std::is_same_v<C, Tiny>;

	// target and pattern types of one character type, every relation
	template <typename C, typename Target, typename Pattern>
	void stringCase(Src& s, Case& c)
	{
		begin();
		const auto t = genText<C>(s, 5);
		auto p = s.coin(1, 3) ? t : genText<C>(s, 3);
		if (s.coin(1, 3) && !p.empty()) p.erase(p.begin());
		const int rel = s.range(0, 3);
		const bool insensitive = foldable<C> && s.coin(1, 2);
		const bool negated = s.coin(1, 3);
		const bool direct = s.coin(1, 6);
		c.log("target " + shown(t) + " pattern " + shown(p) + " relation " + std::to_string(rel) + (insensitive ? " folded" : "") + (negated ? " negated" : ""));
		c.nontrivial = !t.empty() && !p.empty();
		Want w;
		// (a string that cannot be copied is not printed as a string)
		const std::string shownPattern = std::is_copy_constructible_v<Pattern> ? shown(p) : "{?}";
		if (direct)
		{
			w.accepts = codes(t) == codes(p);
			w.text = "is equal to " + shownPattern;
		}
		else
		{
			w.accepts = related(rel, insensitive ? folded(t) : codes(t), insensitive ? folded(p) : codes(p)) != negated;
			w.text = std::string{relText[insensitive][rel][negated]} + shownPattern;
		}
		const auto run = [&](auto matcher)
		{
			m::Mock<void(const Target&)> mock{};
			const Target target = as<Target>(t);
			m::ScopedExpectation e = mock.expect_call(std::move(matcher)) && expect::at_least(0);
			check(observe([&] { mock(target); }), {w}, {"arg[0]"});
			check(observe([&] { mock(target); }), {w}, {"arg[0]"});
			const std::string seen = mimicpp::print(target);
			if (std::is_copy_constructible_v<Target>) pbt::require(seen == shown(t), "printed as " + seen + ", expected " + shown(t));
		};
		namespace str = matches::str;
		const auto neg = [&](auto matcher)
		{
			if (negated) run(!std::move(matcher));
			else run(std::move(matcher));
		};
		const auto pat = [&] { return as<Pattern>(p); };
		if (direct) return run(pat());
		if (!insensitive)
		{
			switch (rel)
			{
			case 0: return neg(str::eq(pat()));
			case 1: return neg(str::starts_with(pat()));
			case 2: return neg(str::ends_with(pat()));
			default: return neg(str::contains(pat()));
			}
		}
		if constexpr (foldable<C>)
		{
			switch (rel)
			{
			case 0: return neg(str::eq(pat(), m::case_insensitive));
			case 1: return neg(str::starts_with(pat(), m::case_insensitive));
			case 2: return neg(str::ends_with(pat(), m::case_insensitive));
			default: return neg(str::contains(pat(), m::case_insensitive));
			}
		}
	}
}
