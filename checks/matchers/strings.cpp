// C11: string matchers against the definitions of text equality, prefix, suffix and substring.
#include "common.hpp"
#include <memory_resource>

using namespace mc;
namespace matches = mimicpp::matches;
namespace str = mimicpp::matches::str;

namespace
{
	template <typename Ch>
	struct UserString // a third-party string type, integrated through string_traits
	{
		std::vector<Ch> data{};
	};
}

template <typename Ch>
struct mimicpp::string_traits<UserString<Ch>>
{
	using char_t = Ch;
	using view_t = std::span<const Ch>;

	[[nodiscard]]
	static view_t view(const UserString<Ch>& s) noexcept { return view_t{s.data.data(), s.data.size()}; }
};

namespace
{
	template <typename Ch>
	using Text = std::vector<Ch>;

	enum Kind { Ptr, MutPtr, Arr, Str, View, Pmr, User };

	// The different kinds of objects that can hold a text; buffers are exactly as long as needed.
	template <typename Ch, Kind K>
	struct Held
	{
		std::unique_ptr<Ch[]> buf;
		std::size_t n;

		explicit Held(const Text<Ch>& t)
			: buf{new Ch[t.size() + (K == View ? 0 : 1)]}, n{t.size()}
		{
			std::copy(t.begin(), t.end(), buf.get());
			if constexpr (K != View) buf[n] = Ch{};
		}

		static constexpr bool terminated = K == Ptr || K == MutPtr || K == Arr;

		template <typename F>
		auto with(F f)
		{
			if constexpr (K == Ptr)
			{
				const Ch* p = buf.get();
				return f(p);
			}
			else if constexpr (K == MutPtr)
			{
				Ch* p = buf.get();
				return f(p);
			}
			else if constexpr (K == Arr)
			{
				Ch a[24];
				std::fill(std::begin(a), std::end(a), static_cast<Ch>('x'));
				std::copy(buf.get(), buf.get() + n + 1, a);
				return f(a);
			}
			else if constexpr (K == Str)
			{
				std::basic_string<Ch> x(buf.get(), n);
				return f(x);
			}
			else if constexpr (K == View)
			{
				std::basic_string_view<Ch> x{buf.get(), n};
				return f(x);
			}
			else if constexpr (K == Pmr)
			{
				std::pmr::basic_string<Ch> x(buf.get(), n);
				return f(x);
			}
			else
			{
				UserString<Ch> x{std::vector<Ch>(buf.get(), buf.get() + n)};
				return f(x);
			}
		}
	};

	template <typename Ch>
	Text<Ch> cut(const Text<Ch>& t, bool terminated)
	{
		if (!terminated) return t;
		return Text<Ch>(t.begin(), std::find(t.begin(), t.end(), Ch{}));
	}

	// ---- the relations, by definition ------------------------------------------------------------------------------
	template <typename Ch>
	bool at(const Text<Ch>& t, const Text<Ch>& p, std::size_t pos)
	{
		if (pos + p.size() > t.size()) return false;
		for (std::size_t i = 0; i < p.size(); ++i)
			if (!(t[pos + i] == p[i])) return false;
		return true;
	}

	template <typename Ch>
	bool relation(int rel, const Text<Ch>& t, const Text<Ch>& p)
	{
		switch (rel)
		{
		case 0: return t.size() == p.size() && at(t, p, 0);
		case 1: return at(t, p, 0);
		case 2: return p.size() <= t.size() && at(t, p, t.size() - p.size());
		default:
			for (std::size_t i = 0; i <= t.size(); ++i)
				if (at(t, p, i)) return true;
			return false;
		}
	}

	template <typename Ch>
	Text<Ch> fold(Text<Ch> t)
	{
		for (Ch& c : t)
			if (c >= static_cast<Ch>('a') && c <= static_cast<Ch>('z')) c = static_cast<Ch>(c - 'a' + 'A');
		return t;
	}

	const char* const relName[]{"equals", "starts with", "ends with", "contains"};
	const char* const desc0[]{"is equal to ", "starts with ", "ends with ", "contains "};
	const char* const desc1[]{"is not equal to ", "starts not with ", "ends not with ", "contains not "};
	const char* const ciDesc0[]{"is case-insensitively equal to ", "case-insensitively starts with ", "case-insensitively ends with ", "case-insensitively contains "};
	const char* const ciDesc1[]{"is case-insensitively not equal to ", "case-insensitively starts not with ", "case-insensitively ends not with ", "case-insensitively contains not "};

	template <typename Ch>
	Ch genChar(Src& s)
	{
		static const unsigned long long chars[]{'a', 'b', 'A', 'B', '@', '`', '[', '{', 'z', 'Z', 0, 0xE9, 0xC9, 0x80, 0xFF, 0x7F, ' ', '}'};
		const auto k = s.weighted({6, 3, 4, 2, 1, 1, 1, 1, 1, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1});
		if (k < std::size(chars)) return static_cast<Ch>(chars[k]);
		return static_cast<Ch>(s.bits());
	}

	template <typename Ch>
	Text<Ch> genText(Src& s, int maxLen)
	{
		Text<Ch> t;
		for (int n = s.range(0, maxLen); n > 0; --n) t.push_back(genChar<Ch>(s));
		return t;
	}

	template <typename Ch>
	Text<Ch> genPattern(Src& s, const Text<Ch>& t)
	{
		const auto n = static_cast<std::uint32_t>(t.size());
		Text<Ch> p;
		switch (s.weighted({3, 4, 4, 5, 3, 2}))
		{
		case 0: return genText<Ch>(s, 4);
		case 1: p = Text<Ch>(t.begin(), t.begin() + s.draw(n + 1)); break;
		case 2: p = Text<Ch>(t.begin() + s.draw(n + 1), t.end()); break;
		case 3:
		{
			const auto a = s.draw(n + 1);
			const auto l = s.draw(n - a + 1);
			p = Text<Ch>(t.begin() + a, t.begin() + a + l);
			break;
		}
		case 4: p = t; break;
		default:
			p = t;
			p.insert(p.begin() + s.draw(n + 1), genChar<Ch>(s));
		}
		// swap cases, now and then one different character
		if (s.coin(1, 2))
		{
			for (Ch& c : p)
			{
				if (!s.draw(2)) continue;
				if (c >= static_cast<Ch>('a') && c <= static_cast<Ch>('z')) c = static_cast<Ch>(c - 'a' + 'A');
				else if (c >= static_cast<Ch>('A') && c <= static_cast<Ch>('Z')) c = static_cast<Ch>(c - 'A' + 'a');
			}
		}
		if (!p.empty() && s.coin(1, 4)) p[s.draw(static_cast<std::uint32_t>(p.size()))] = genChar<Ch>(s);
		if (!p.empty() && s.coin(1, 8))
		{
			auto& c = p[s.draw(static_cast<std::uint32_t>(p.size()))];
			c = static_cast<Ch>(static_cast<unsigned long long>(c) ^ 0x20u);
		}
		if (p.size() > 20) p.resize(20);
		return p;
	}

	struct Verdict
	{
		bool got;
		bool again;
		std::string desc;
	};

	template <typename M, typename T>
	Verdict ask(const M& m, T& target, bool asConst)
	{
		Verdict v{};
		v.got = asConst ? m.matches(std::as_const(target)) : m.matches(target);
		v.again = m.matches(target);
		v.desc = std::string{m.describe()};
		return v;
	}

	template <bool ci, typename M, typename T>
	Verdict askNeg(M m, T& target, bool asConst, int neg)
	{
		if (neg == 1) return ask(!m, target, asConst);
		return ask(m, target, asConst);
	}

	template <bool ci, typename P>
	auto make0(P& p)
	{
		if constexpr (ci) return str::eq(p, mimicpp::case_insensitive);
		else return str::eq(p);
	}
	template <bool ci, typename P>
	auto make1(P& p)
	{
		if constexpr (ci) return str::starts_with(p, mimicpp::case_insensitive);
		else return str::starts_with(p);
	}
	template <bool ci, typename P>
	auto make2(P& p)
	{
		if constexpr (ci) return str::ends_with(p, mimicpp::case_insensitive);
		else return str::ends_with(p);
	}
	template <bool ci, typename P>
	auto make3(P& p)
	{
		if constexpr (ci) return str::contains(p, mimicpp::case_insensitive);
		else return str::contains(p);
	}

	template <bool ci, typename T, typename P>
	Verdict evaluate(int rel, int neg, T& target, P& pattern, bool asConst)
	{
		switch (rel)
		{
		case 0:
			if (neg == 2) return ask(!!make0<ci>(pattern), target, asConst);
			return askNeg<ci>(make0<ci>(pattern), target, asConst, neg);
		case 1: return askNeg<ci>(make1<ci>(pattern), target, asConst, neg);
		case 2: return askNeg<ci>(make2<ci>(pattern), target, asConst, neg);
		default: return askNeg<ci>(make3<ci>(pattern), target, asConst, neg);
		}
	}

	template <typename Ch>
	std::string shown(const Text<Ch>& t) { return refText(t.data(), t.size()); }

	template <typename Ch, Kind TK, Kind PK>
	void stringCase(Src& s, Case& c)
	{
		using HT = Held<Ch, TK>;
		using HP = Held<Ch, PK>;
		const Text<Ch> rawT = genText<Ch>(s, s.coin(1, 6) ? 20 : 6);
		const Text<Ch> rawP = genPattern<Ch>(s, rawT);
		const Text<Ch> t = cut(rawT, HT::terminated);
		const Text<Ch> p = cut(rawP, HP::terminated);
		const int rel = static_cast<int>(s.draw(4));
		constexpr bool foldable = std::is_same_v<Ch, char>;
		const bool ci = foldable && s.draw(2);
		const int neg = static_cast<int>(s.draw(rel == 0 ? 3 : 2));
		const bool asConst = s.draw(2);
		const bool base = ci ? relation(rel, fold(t), fold(p)) : relation(rel, t, p);
		const bool want = base != (neg == 1);
		HT ht{rawT};
		HP hp{rawP};
		const Verdict v = ht.with([&](auto& target)
		{
			return hp.with([&](auto& pattern)
			{
				if constexpr (foldable)
				{
					if (ci) return evaluate<true>(rel, neg, target, pattern, asConst);
				}
				return evaluate<false>(rel, neg, target, pattern, asConst);
			});
		});
		const std::string what = std::string{neg == 1 ? "not: " : neg == 2 ? "not not: " : ""} + shown(t) + (ci ? " case-insensitively " : " ")
			+ relName[rel] + " " + shown(p);
		c.log(what);
		c.nontrivial = !t.empty() && !p.empty();
		c.label(base ? "accept" : "reject");
		pbt::require(v.got == want && v.again == want, what + ": the matcher " + yn(v.got) + " and then " + yn(v.again));
		const std::string d = (ci ? (neg == 1 ? ciDesc1 : ciDesc0) : (neg == 1 ? desc1 : desc0))[rel] + shown(p);
		pbt::require(v.desc == d, what + ": description is '" + v.desc + "', expected '" + d + "'");
	}

	template <typename Ch, Kind TK, Kind PK>
	Add reg(const std::string& ch)
	{
		static const char* const k[]{"ptr", "mutptr", "arr", "str", "view", "pmr", "user"};
		return Add{ch + " " + k[TK] + "/" + k[PK], stringCase<Ch, TK, PK>};
	}

	template <typename Ch>
	int some(const std::string& n)
	{
		reg<Ch, Ptr, Str>(n);
		reg<Ch, Arr, View>(n);
		reg<Ch, Str, Ptr>(n);
		reg<Ch, Str, Str>(n);
		reg<Ch, View, Arr>(n);
		reg<Ch, View, User>(n);
		reg<Ch, User, View>(n);
		reg<Ch, MutPtr, Pmr>(n);
		return 0;
	}

	// every pair of characters
	[[maybe_unused]] void allPairs(Src& s, Case& c)
	{
		const auto x = static_cast<char>(s.draw(256));
		c.log("character " + std::to_string(static_cast<unsigned char>(x)) + " against all characters");
		c.nontrivial = true;
		const std::string target(1, x);
		for (int y = 0; y < 256; ++y)
		{
			const std::string p(1, static_cast<char>(y));
			const bool same = fold(Text<char>{x}) == fold(Text<char>{static_cast<char>(y)});
			const bool got[]{
				str::eq(p, mimicpp::case_insensitive).matches(target),
				str::starts_with(p, mimicpp::case_insensitive).matches(target),
				str::ends_with(p, mimicpp::case_insensitive).matches(target),
				str::contains(p, mimicpp::case_insensitive).matches(target)};
			for (int r = 0; r < 4; ++r)
				pbt::require(got[r] == same, "character " + std::to_string(static_cast<unsigned char>(x)) + " " + relName[r] + " character "
						+ std::to_string(y) + " case-insensitively: " + yn(got[r]));
		}
	}

	// long texts (search algorithms, overlapping occurrences)
	[[maybe_unused]] void longTexts(Src& s, Case& c)
	{
		std::string t;
		for (int n = s.range(0, 60); n > 0; --n) t.push_back("ab"[s.draw(2)]);
		std::string p;
		for (int n = s.range(1, 9); n > 0; --n) p.push_back("ab"[s.draw(2)]);
		if (s.coin(1, 2)) t += p;
		for (int n = s.range(0, 12); n > 0; --n) t.push_back("ab"[s.draw(2)]);
		const Text<char> vt(t.begin(), t.end());
		const Text<char> vp(p.begin(), p.end());
		c.log(t + " contains " + p);
		c.nontrivial = true;
		pbt::require(str::contains(p).matches(t) == relation(3, vt, vp), t + " contains " + p);
		pbt::require((!str::contains(p)).matches(t) != relation(3, vt, vp), t + " contains not " + p);
		std::string up = t;
		for (char& x : up)
			if (s.draw(2)) x = static_cast<char>(x - 32);
		pbt::require(str::contains(p, mimicpp::case_insensitive).matches(up) == relation(3, vt, vp), up + " contains " + p);
		pbt::require(str::ends_with(p).matches(t) == relation(2, vt, vp), t + " ends with " + p);
		pbt::require(str::starts_with(p).matches(t) == relation(1, vt, vp), t + " starts with " + p);
	}

	// texts of hundreds up to tens of thousands of characters
	template <typename Ch>
	void hugeTexts(Src& s, Case& c)
	{
		using Str0 = std::basic_string<Ch>;
		static const Str0 pool = []
		{
			Str0 p;
			std::uint64_t r = 12345;
			for (int i = 0; i < 140000; ++i) p.push_back(static_cast<Ch>("abAB"[pbt::splitmix(r) % 4]));
			return p;
		}();
		static constexpr int bases[]{64, 128, 256, 512, 1024, 4096, 32768, 65536};
		const auto near = [&] { return static_cast<std::size_t>(bases[s.weighted({24, 12, 16, 10, 6, 2, 1, 2})] + s.range(-3, 3)); };
		const std::size_t n = near();
		Str0 t = pool.substr(s.draw(1000), n);
		Str0 p;
		switch (s.draw(7))
		{
		case 0: p = t; break;
		case 1: p = t.substr(0, s.draw(static_cast<std::uint32_t>(n + 1))); break;
		case 2: p = t.substr(s.draw(static_cast<std::uint32_t>(n + 1))); break;
		case 3: p = t.substr(s.draw(static_cast<std::uint32_t>(n)), near()); break;
		case 4: p = t + pool.substr(s.draw(1000), near()); break; // longer than the text
		case 5: p = pool.substr(s.draw(1000), near()) + t; break;
		default: p = t.substr(0, t.size() - std::min(t.size(), near())); break;
		}
		if (!p.empty() && s.coin(1, 3)) p[s.draw(static_cast<std::uint32_t>(p.size()))] = static_cast<Ch>('x');
		if (!t.empty() && s.coin(1, 6)) t[s.draw(static_cast<std::uint32_t>(t.size()))] = Ch{};
		if (!p.empty() && s.coin(1, 10)) p[s.draw(static_cast<std::uint32_t>(p.size()))] = Ch{};
		if (s.coin(1, 30)) (s.draw(2) ? p : t).clear();
		c.nontrivial = !t.empty() && !p.empty();
		const auto lower = [](Str0 x)
		{
			for (Ch& y : x)
				if (y >= static_cast<Ch>('A') && y <= static_cast<Ch>('Z')) y = static_cast<Ch>(y - 'A' + 'a');
			return x;
		};
		const bool ci = std::is_same_v<Ch, char> && s.draw(2);
		const Str0 a = ci ? lower(t) : t, b = ci ? lower(p) : p;
		const std::basic_string_view<Ch> tv{a};
		const bool want[]{a == b, tv.starts_with(b), tv.ends_with(b), tv.find(b) != tv.npos};
		const int rel = static_cast<int>(s.draw(4));
		const std::string what = "text of " + std::to_string(t.size()) + " characters " + (ci ? "case-insensitively " : "") + relName[rel] + " pattern of " + std::to_string(p.size());
		c.log(what);
		c.label(want[rel] ? "accept" : "reject");
		Verdict v[2];
		const std::basic_string_view<Ch> view{t};
		for (int neg = 0; neg < 2; ++neg)
		{
			if constexpr (std::is_same_v<Ch, char>)
			{
				if (ci)
				{
					v[neg] = evaluate<true>(rel, neg, view, p, true);
					continue;
				}
			}
			v[neg] = evaluate<false>(rel, neg, view, p, true);
		}
		pbt::require(v[0].got == want[rel] && v[0].again == want[rel], what + ": the matcher " + yn(!want[rel]));
		pbt::require(v[1].got != want[rel] && v[1].again != want[rel], what + ": the negated matcher " + yn(want[rel]));
	}

	// through a mock, with the pattern given directly or as matcher
	template <typename Param, typename Ch, Kind TK, Kind PK>
	void mockCase(Src& s, Case& c)
	{
		using HT = Held<Ch, TK>;
		using HP = Held<Ch, PK>;
		const Text<Ch> rawT = genText<Ch>(s, 6);
		const Text<Ch> rawP = genPattern<Ch>(s, rawT);
		const Text<Ch> t = cut(rawT, HT::terminated);
		const Text<Ch> p = cut(rawP, HP::terminated);
		HT ht{rawT};
		HP hp{rawP};
		const int how = static_cast<int>(s.draw(4));
		const int rel = how == 3 ? 3 : how == 2 ? 1 : 0;
		const bool want = relation(rel, t, p) != (how == 2);
		const bool got = ht.with([&](auto& target)
		{
			return hp.with([&](auto& pattern)
			{
				if (how == 0) return viaMock<Param>(pattern, target);
				if (how == 1) return viaMock<Param>(std::as_const(pattern), target);
				if (how == 2) return viaMock<Param>(!str::starts_with(pattern), target);
				return viaPolicy<Param>(mimicpp::expect::arg<0>(str::contains(pattern)), target);
			});
		});
		const std::string what = "mock call with " + shown(t) + (how < 2 ? ", expecting " : how == 2 ? ", expecting starts not with " : ", expecting contains ") + shown(p);
		c.log(what);
		c.nontrivial = true;
		pbt::require(got == want, what + ": the expectation " + yn(got) + " the call");
	}
}

#if PART == 0
static int x0 = (reg<char, Ptr, Ptr>("char"), reg<char, Ptr, Str>("char"), reg<char, Ptr, View>("char"), reg<char, Ptr, User>("char"), reg<char, Ptr, Arr>("char"), 0);
#elif PART == 1
static int x1 = (reg<char, Str, Ptr>("char"), reg<char, Str, Str>("char"), reg<char, Str, View>("char"), reg<char, Str, User>("char"), reg<char, Str, Pmr>("char"), 0);
#elif PART == 2
static int x2 = (reg<char, View, Ptr>("char"), reg<char, View, Str>("char"), reg<char, View, View>("char"), reg<char, View, MutPtr>("char"), reg<char, Arr, Arr>("char"), reg<char, Arr, Str>("char"), 0);
#elif PART == 3
static int x3 = (reg<char, User, User>("char"), reg<char, User, Str>("char"), reg<char, MutPtr, MutPtr>("char"), reg<char, Pmr, Str>("char"), reg<char, Pmr, Pmr>("char"), 0);
#elif PART == 4
static int x4 = some<wchar_t>("wchar_t") + some<char8_t>("char8_t");
#elif PART == 5
static int x5 = some<char16_t>("char16_t") + some<char32_t>("char32_t");
#elif PART == 6
static Add pairsAll{"pairs", allPairs};
static Add pairsLong{"long", longTexts};
static Add huge1{"huge char", hugeTexts<char>};
static Add huge2{"huge char16_t", hugeTexts<char16_t>};
static int x6 = (reg<unsigned char, Ptr, Ptr>("uchar"), reg<signed char, Ptr, Ptr>("schar"), 0);
static Add m5{"mock u8string/ptr", mockCase<std::u8string, char8_t, Str, Ptr>};
static Add m6{"mock u32view/str", mockCase<std::u32string_view, char32_t, View, Str>};
#elif PART == 7
static Add m0{"mock string/ptr", mockCase<const std::string&, char, Str, Ptr>};
static Add m1{"mock ptr/string", mockCase<const char*, char, Ptr, Str>};
static Add m2{"mock view/arr", mockCase<std::string_view, char, View, Arr>};
static Add m3{"mock wstring/ptr", mockCase<std::wstring, wchar_t, Str, Ptr>};
static Add m4{"mock u16ptr/view", mockCase<const char16_t*, char16_t, Ptr, View>};
#else
static pbt::Register r{"C11", runEntry,
	"a case is one (text, pattern, relation, case sensitivity, negation, kinds of string objects); non-trivial if both texts "
	"are non-empty", 600000, 12000000};
int main(int argc, char** argv) { return pbt::main(argc, argv); }
#endif
