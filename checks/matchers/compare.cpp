// C10: comparison, predicate, instance and wildcard matchers against the operators themselves.
#include "common.hpp"

using namespace mc;
namespace matches = mimicpp::matches;
namespace expect = mimicpp::expect;

namespace
{
	// Operators are arbitrary relations: nothing but the right operator with the right operands agrees with the table.
	bool table[6][6][6];

	void genTable(Src& s)
	{
		for (auto& t : table)
			for (auto& r : t)
			{
				std::uint32_t bits = s.draw(64);
				for (bool& b : r)
				{
					b = bits & 1u;
					bits >>= 1;
				}
			}
	}

	struct Odd
	{
		int v{};
		friend bool operator ==(const Odd& a, const Odd& b) { return table[0][a.v][b.v]; }
		friend bool operator !=(const Odd& a, const Odd& b) { return table[1][a.v][b.v]; }
		friend bool operator <(const Odd& a, const Odd& b) { return table[2][a.v][b.v]; }
		friend bool operator <=(const Odd& a, const Odd& b) { return table[3][a.v][b.v]; }
		friend bool operator >(const Odd& a, const Odd& b) { return table[4][a.v][b.v]; }
		friend bool operator >=(const Odd& a, const Odd& b) { return table[5][a.v][b.v]; }
	};

	struct OddR
	{
		int v{};
	};

	struct OddL
	{
		int v{};
		friend bool operator ==(const OddL& a, const OddR& b) { return table[0][a.v][b.v]; }
		friend bool operator !=(const OddL& a, const OddR& b) { return table[1][a.v][b.v]; }
		friend bool operator <(const OddL& a, const OddR& b) { return table[2][a.v][b.v]; }
		friend bool operator <=(const OddL& a, const OddR& b) { return table[3][a.v][b.v]; }
		friend bool operator >(const OddL& a, const OddR& b) { return table[4][a.v][b.v]; }
		friend bool operator >=(const OddL& a, const OddR& b) { return table[5][a.v][b.v]; }
	};

	// an argument that must not be copied or moved
	struct Pinned
	{
		int v{};
		explicit Pinned(int x) : v{x} {}
		Pinned(const Pinned&) = delete;
		friend bool operator ==(const Pinned& a, int b) { return a.v == b; }
		friend bool operator !=(const Pinned& a, int b) { return a.v != b; }
		friend bool operator <(const Pinned& a, int b) { return a.v < b; }
		friend bool operator <=(const Pinned& a, int b) { return a.v <= b; }
		friend bool operator >(const Pinned& a, int b) { return a.v > b; }
		friend bool operator >=(const Pinned& a, int b) { return a.v >= b; }
	};

	template <typename T> struct Gen;
	template <> struct Gen<int> { static int make(Src& s) { return genInt(s); } };
	template <> struct Gen<unsigned> { static unsigned make(Src& s) { return static_cast<unsigned>(genInt(s)); } };
	template <> struct Gen<short> { static short make(Src& s) { return static_cast<short>(genInt(s)); } };
	template <> struct Gen<char> { static char make(Src& s) { return "aAbZ01 {}"[s.draw(9)]; } };
	template <> struct Gen<unsigned char> { static unsigned char make(Src& s) { return static_cast<unsigned char>(genInt(s)); } };
	template <> struct Gen<bool> { static bool make(Src& s) { return s.draw(2); } };
	template <> struct Gen<long long>
	{
		static long long make(Src& s)
		{
			return s.coin(1, 3) ? genInt(s) + (1ll << 32) : genInt(s);
		}
	};
	template <> struct Gen<unsigned long long>
	{
		static unsigned long long make(Src& s) { return static_cast<unsigned long long>(Gen<long long>::make(s)); }
	};
	template <> struct Gen<double> { static double make(Src& s) { return genDouble(s); } };
	template <> struct Gen<float> { static float make(Src& s) { return static_cast<float>(genDouble(s)); } };
	template <> struct Gen<std::string>
	{
		static std::string make(Src& s)
		{
			static const std::vector<std::string> v{"", "a", "b", "ab", "A", "abc", std::string("a\0b", 3), std::string("a\0", 2), "{}", "\xff", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"};
			return s.pick(v);
		}
	};
	template <> struct Gen<Plain> { static Plain make(Src& s) { return {s.range(0, 3)}; } };
	template <> struct Gen<Custom> { static Custom make(Src& s) { return {s.range(0, 3)}; } };
	template <> struct Gen<Color> { static Color make(Src& s) { return static_cast<Color>(s.draw(3)); } };
	template <> struct Gen<Odd> { static Odd make(Src& s) { return {s.range(0, 5)}; } };
	template <> struct Gen<OddL> { static OddL make(Src& s) { return {s.range(0, 5)}; } };
	template <> struct Gen<OddR> { static OddR make(Src& s) { return {s.range(0, 5)}; } };
	template <> struct Gen<Pinned> { static Pinned make(Src& s) { return Pinned{s.range(-2, 3)}; } };
	template <typename T> struct Gen<std::vector<T>>
	{
		static std::vector<T> make(Src& s)
		{
			std::vector<T> r;
			for (int n = s.range(0, 3); n > 0; --n) r.push_back(Gen<T>::make(s));
			return r;
		}
	};
	template <typename T> struct Gen<std::optional<T>>
	{
		static std::optional<T> make(Src& s) { return s.coin(1, 3) ? std::optional<T>{} : std::optional<T>{Gen<T>::make(s)}; }
	};
	template <typename A, typename B> struct Gen<std::pair<A, B>>
	{
		static std::pair<A, B> make(Src& s)
		{
			A a = Gen<A>::make(s);
			return {a, Gen<B>::make(s)};
		}
	};
	template <> struct Gen<const int*>
	{
		static const int* make(Src& s)
		{
			static const int arr[4]{};
			return s.coin(1, 4) ? nullptr : arr + s.draw(5);
		}
	};
	template <> struct Gen<std::string_view>
	{
		static std::string_view make(Src& s)
		{
			static const std::vector<std::string_view> v{"", "a", "b", "ab", "A", std::string_view("a\0b", 3)};
			return s.pick(v);
		}
	};
	template <> struct Gen<const char*>
	{
		static const char* make(Src& s)
		{
			static const std::vector<const char*> v{"", "a", "b", "ab", "A", "a\0b"};
			return s.pick(v);
		}
	};

	const char* const opName[]{"==", "!=", "<", "<=", ">", ">="};
	const char* const opInv[]{"!=", "==", ">=", ">", "<=", "<"};

	template <typename A, typename B>
	bool oracle(int op, const A& a, const B& b)
	{
		switch (op)
		{
		case 0: return a == b;
		case 1: return a != b;
		case 2: return a < b;
		case 3: return a <= b;
		case 4: return a > b;
		default: return a >= b;
		}
	}

	// What is asked of a matcher, independent of its type.
	template <typename A>
	struct Erased
	{
		virtual ~Erased() = default;
		virtual bool matches(A&) const = 0;
		virtual bool matchesConst(const A&) const = 0;
		virtual std::string describe() const = 0;
	};

	template <typename M, typename A>
	struct Holder final : Erased<A>
	{
		const M& m;
		explicit Holder(const M& x) : m{x} {}
		bool matches(A& a) const override { return m.matches(a); }
		bool matchesConst(const A& a) const override { return m.matches(a); }
		std::string describe() const override { return std::string{m.describe()}; }
	};

	template <typename A>
	void judgeErased(Src& s, Case& c, const Erased<A>& m, A& arg, bool want, const std::string& desc, const std::string& what)
	{
		const bool asConst = s.draw(2);
		const bool got = asConst ? m.matchesConst(arg) : m.matches(arg);
		c.log(what + (want ? " accepts" : " rejects"));
		pbt::require(got == want, what + ": the matcher " + yn(got) + ", the operator says otherwise");
		const std::string d = m.describe();
		pbt::require(d == desc, what + ": description is '" + d + "', expected '" + desc + "'");
	}

	template <typename M, typename A>
	void judge(Src& s, Case& c, const M& m, A& arg, bool want, const std::string& desc, const std::string& what)
	{
		judgeErased<A>(s, c, Holder<M, A>{m}, arg, want, desc, what);
	}

	template <typename A, typename M>
	void mockJudge(Src& s, Case& c, const M& m, A& arg, bool want, const std::string& what)
	{
		const bool got = s.draw(2) ? viaMock<const A&>(m, arg) : viaMock<const A&>(M{m}, arg);
		c.log(what + " in a mock" + (want ? " accepts" : " rejects"));
		pbt::require(got == want, what + ": the expectation " + yn(got) + " the call, the operator says otherwise");
	}

	template <typename M>
	auto negate(Src& s, const M& m, bool& usedRvalue)
	{
		usedRvalue = s.coin(1, 3);
		if (usedRvalue)
		{
			M copy{m};
			return !std::move(copy);
		}
		return !m;
	}

	template <typename A, typename B, bool withMock>
	void compareCase(Src& s, Case& c)
	{
		if constexpr (std::is_same_v<A, Odd> || std::is_same_v<A, OddL>) genTable(s);
		const int op = static_cast<int>(s.draw(6));
		B expected = Gen<B>::make(s);
		const bool copy = s.coin(1, 3);
		const auto makeArg = [&]() -> A
		{
			if constexpr (std::is_same_v<A, B> && std::is_copy_constructible_v<A>)
			{
				if (copy) return A{expected};
			}
			else if constexpr (std::is_arithmetic_v<A> && std::is_arithmetic_v<B>)
			{
				if (copy && !std::is_floating_point_v<B>) return static_cast<A>(expected);
			}
			return Gen<A>::make(s);
		};
		A arg = makeArg();
		const bool base = oracle(op, arg, expected);
		const std::string e = show(expected);
		const std::string what = "argument " + show(arg) + " " + opName[op] + " " + e;
		c.nontrivial = true;
		c.label(base ? "accept" : "reject");
		const int neg = static_cast<int>(s.draw(3));
		const bool inMock = withMock && s.coin(1, 4);

		const auto run = [&](auto&& matcher)
		{
			const std::string d0 = std::string{opName[op]} + " " + e;
			const std::string d1 = std::string{opInv[op]} + " " + e;
			bool rv{};
			const auto n = negate(s, matcher, rv);
			if constexpr (withMock)
			{
				if (inMock)
				{
					if (neg == 0) mockJudge<A>(s, c, matcher, arg, base, what);
					else mockJudge<A>(s, c, n, arg, !base, "not " + what);
					return;
				}
			}
			if (neg == 0) judge(s, c, matcher, arg, base, d0, what);
			else if (neg == 1) judge(s, c, n, arg, !base, d1, "not " + what);
			else
			{
				judge(s, c, negate(s, n, rv), arg, base, d0, "not not " + what);
				judge(s, c, n, arg, !base, d1, "not " + what);
				judge(s, c, matcher, arg, base, d0, what + " (original)");
			}
		};
		const bool lvalue = s.draw(2);
		const auto pick = [&](auto factory)
		{
			if (lvalue) run(factory(std::as_const(expected)));
			else run(factory(B{expected}));
		};
		switch (op)
		{
		case 0: pick([](auto&& x) { return matches::eq(std::forward<decltype(x)>(x)); }); break;
		case 1: pick([](auto&& x) { return matches::ne(std::forward<decltype(x)>(x)); }); break;
		case 2: pick([](auto&& x) { return matches::lt(std::forward<decltype(x)>(x)); }); break;
		case 3: pick([](auto&& x) { return matches::le(std::forward<decltype(x)>(x)); }); break;
		case 4: pick([](auto&& x) { return matches::gt(std::forward<decltype(x)>(x)); }); break;
		default: pick([](auto&& x) { return matches::ge(std::forward<decltype(x)>(x)); }); break;
		}
	}

	// an argument given directly: equality, text comparison for strings
	template <typename Param, typename A, typename B>
	void directCase(Src& s, Case& c)
	{
		B expected = Gen<B>::make(s);
		A arg = Gen<A>::make(s);
		bool want{};
		if constexpr (std::is_same_v<A, const char*> || std::is_same_v<B, const char*>)
			want = std::string_view{arg} == std::string_view{expected};
		else want = arg == expected;
		bool got{};
		const int how = static_cast<int>(s.draw(3));
		if (how == 0) got = viaMock<Param>(expected, static_cast<Param>(arg));
		else if (how == 1) got = viaMock<Param>(std::as_const(expected), static_cast<Param>(arg));
		else got = viaMock<Param>(B{expected}, static_cast<Param>(arg));
		const std::string what = "argument " + show(arg) + ", expected value " + show(expected) + " given directly";
		c.log(what);
		c.nontrivial = true;
		c.label(want ? "accept" : "reject");
		pbt::require(got == want, what + ": the expectation " + yn(got) + " the call");
	}

#if PART == 6
	// predicates ----------------------------------------------------------------------------------------------------
	int predTable[8];
	bool freePredicate(const int& x) { return predTable[x] != 0; }
	int intPredicate(int x) { return predTable[x] * 2; }

	struct Item
	{
		int v{};
		bool good() const { return predTable[v] != 0; }
	};

	struct CountingPredicate
	{
		int offset{};
		bool operator ()(const int& x) const { return predTable[(x + offset) % 8] != 0; }
	};

	struct MoveOnlyPredicate
	{
		std::unique_ptr<int> offset;
		bool operator ()(int x) const { return predTable[(x + *offset) % 8] != 0; }
	};

	template <typename M, typename A>
	void predicateJudge(Src& s, Case& c, M m, A& arg, bool want, const std::string& d0, const std::string& d1)
	{
		bool rv{};
		const int neg = static_cast<int>(s.draw(4));
		if constexpr (std::is_copy_constructible_v<M>)
		{
			if (neg == 0) judge(s, c, m, arg, want, d0, "predicate");
			else if (neg == 1) judge(s, c, negate(s, m, rv), arg, !want, d1, "not predicate");
			else if (neg == 2)
			{
				const auto n = negate(s, m, rv);
				judge(s, c, negate(s, n, rv), arg, want, d0, "not not predicate");
				judge(s, c, n, arg, !want, d1, "not predicate");
			}
			else mockJudge<A>(s, c, negate(s, m, rv), arg, !want, "not predicate");
		}
		else
		{
			if (neg == 0) judge(s, c, m, arg, want, d0, "move-only predicate");
			else if (neg == 1) judge(s, c, !std::move(m), arg, !want, d1, "not move-only predicate");
			else if (neg == 2) judge(s, c, !!std::move(m), arg, want, d0, "not not move-only predicate");
			else pbt::require(viaMock<const A&>(!std::move(m), arg) == !want, "not move-only predicate in a mock");
		}
	}

	void predicateCase(Src& s, Case& c)
	{
		for (int& v : predTable) v = static_cast<int>(s.draw(2));
		int x = static_cast<int>(s.draw(8));
		const int offset = static_cast<int>(s.draw(8));
		const bool custom = s.draw(2);
		const std::string d0 = custom ? "holds" : "passes predicate";
		const std::string d1 = custom ? "does not hold" : "fails predicate";
		const auto make = [&](auto&& p)
		{
			return custom
				? matches::predicate(std::forward<decltype(p)>(p), "holds", "does not hold")
				: matches::predicate(std::forward<decltype(p)>(p));
		};
		const bool plain = predTable[x];
		const bool shifted = predTable[(x + offset) % 8];
		c.nontrivial = true;
		const int kind = static_cast<int>(s.draw(8));
		c.log("predicate of kind " + std::to_string(kind) + " on " + std::to_string(x));
		switch (kind)
		{
		case 0: predicateJudge(s, c, make(&freePredicate), x, plain, d0, d1); break;
		case 1: predicateJudge(s, c, make(&intPredicate), x, plain, d0, d1); break;
		case 2: predicateJudge(s, c, make(CountingPredicate{offset}), x, shifted, d0, d1); break;
		case 3:
		{
			const CountingPredicate p{offset};
			predicateJudge(s, c, make(p), x, shifted, d0, d1);
			break;
		}
		case 4: predicateJudge(s, c, make(std::function<bool(int)>{CountingPredicate{offset}}), x, shifted, d0, d1); break;
		case 5: predicateJudge(s, c, make([offset](auto v) { return predTable[(v + offset) % 8] != 0; }), x, shifted, d0, d1); break;
		case 6:
		{
			Item i{x};
			predicateJudge(s, c, make(&Item::good), i, plain, d0, d1);
			break;
		}
		default: predicateJudge(s, c, make(MoveOnlyPredicate{std::make_unique<int>(offset)}), x, shifted, d0, d1); break;
		}
	}

	// instance ------------------------------------------------------------------------------------------------------
	struct Addr
	{
		int v{};
		Addr* operator &() { return nullptr; }
		const Addr* operator &() const { return nullptr; }
		friend bool operator ==(const Addr&, const Addr&) { return true; }
	};

	struct Base0 { int a{}; };
	struct Base1 { int b{}; };
	struct Derived : Base0, Base1 {};

	template <typename T>
	void instanceOf(Src& s, Case& c, T* objects, std::size_t n)
	{
		const std::size_t i = s.draw(static_cast<std::uint32_t>(n));
		const std::size_t j = s.draw(static_cast<std::uint32_t>(n));
		const bool asConst = s.draw(2);
		const std::string at = "0x" + hex(reinterpret_cast<std::uintptr_t>(std::addressof(objects[i])), 16);
		const std::string what = "instance " + std::to_string(i) + ", argument is object " + std::to_string(j);
		c.log(what);
		c.nontrivial = true;
		const auto go = [&](auto m)
		{
			bool rv{};
			const bool want = i == j;
			const int neg = static_cast<int>(s.draw(4));
			if (neg == 0) judge(s, c, m, objects[j], want, "is instance at " + at, what);
			else if (neg == 1) judge(s, c, negate(s, m, rv), objects[j], !want, "is not instance at " + at, "not " + what);
			else if (neg == 2) judge(s, c, negate(s, negate(s, m, rv), rv), objects[j], want, "is instance at " + at, "not not " + what);
			else mockJudge<T>(s, c, m, objects[j], want, what);
		};
		if (asConst) go(matches::instance(std::as_const(objects[i])));
		else go(matches::instance(objects[i]));
	}

	void instanceCase(Src& s, Case& c)
	{
		switch (s.draw(8))
		{
		case 0:
		{
			int o[3]{1, 1, 1};
			return instanceOf(s, c, o, 3);
		}
		case 1:
		{
			Addr o[3]{};
			return instanceOf(s, c, o, 3);
		}
		case 2:
		{
			std::string o[3]{};
			return instanceOf(s, c, o, 3);
		}
		case 3:
		{
			char o[4]{"abc"};
			return instanceOf(s, c, o, 4);
		}
		case 4:
		{
			std::vector<int> o[3]{};
			return instanceOf(s, c, o, 3);
		}
		case 5:
		{
			wchar_t o[3]{};
			return instanceOf(s, c, o, 3);
		}
		case 6:
		{
			std::unique_ptr<int> o[2]{};
			return instanceOf(s, c, o, 2);
		}
		default:
		{
			// the base part of an object is the same object
			Derived d[2]{};
			const auto i = s.draw(2);
			const auto j = s.draw(2);
			Base1& b = d[i];
			auto m = matches::instance(b);
			c.log("base instance");
			c.nontrivial = true;
			pbt::require(m.matches(d[j]) == (i == j), "instance matcher of the base part");
			pbt::require((!m).matches(d[j]) == (i != j), "negated instance matcher of the base part");
			return;
		}
		}
	}

	void wildcardCase(Src& s, Case& c)
	{
		c.nontrivial = true;
		int i = genInt(s);
		std::string str = Gen<std::string>::make(s);
		double d = genDouble(s);
		std::unique_ptr<int> u{};
		Pinned p{i};
		c.log("wildcard on " + show(i) + " " + show(str) + " " + show(d));
		pbt::require(matches::_.matches(i) && matches::_.matches(std::as_const(str)) && matches::_.matches(d) && matches::_.matches(u)
				&& matches::_.matches(p), "the wildcard rejects");
		pbt::require(viaMock<std::unique_ptr<int>>(matches::_, std::move(u)), "wildcard in a mock rejects a unique_ptr");
		pbt::require(viaMock<Pinned&>(matches::_, p), "wildcard in a mock rejects a reference");
		pbt::require(viaMock<double>(matches::_, d), "wildcard in a mock rejects a double");
		pbt::require(std::string{matches::_.describe()} == "has no constraints", "description of the wildcard");
	}
#endif
}

#if PART == 0
static Add a0{"int-int", compareCase<int, int, true>};
static Add a1{"long-int", compareCase<long long, int, true>};
static Add a2{"int-long", compareCase<int, long long, false>};
#elif PART == 1
static Add a3{"unsigned-int", compareCase<unsigned, int, false>};
static Add a4{"int-unsigned", compareCase<int, unsigned, false>};
static Add a5{"short-short", compareCase<short, short, false>};
static Add a6{"char-char", compareCase<char, char, true>};
static Add a7{"uchar-int", compareCase<unsigned char, int, false>};
static Add a8{"bool-bool", compareCase<bool, bool, false>};
static Add a9{"ull-ull", compareCase<unsigned long long, unsigned long long, false>};
#elif PART == 2
static Add b0{"double-double", compareCase<double, double, true>};
static Add b1{"float-double", compareCase<float, double, false>};
static Add b2{"double-int", compareCase<double, int, false>};
static Add b3{"string-string", compareCase<std::string, std::string, true>};
#elif PART == 3
static Add c0{"odd-odd", compareCase<Odd, Odd, true>};
static Add c1{"oddl-oddr", compareCase<OddL, OddR, true>};
static Add c2{"pinned-int", compareCase<Pinned, int, true>};
#elif PART == 4
static Add d0{"string-view", compareCase<std::string, std::string_view, false>};
static Add d1{"view-string", compareCase<std::string_view, std::string, false>};
static Add d2{"string-cstr", compareCase<std::string, const char*, false>};
static Add d3{"vector", compareCase<std::vector<int>, std::vector<int>, true>};
static Add d4{"plain", compareCase<Plain, Plain, false>};
static Add d5{"custom", compareCase<Custom, Custom, false>};
#elif PART == 5
static Add e0{"color", compareCase<Color, Color, false>};
static Add e1{"optional-optional", compareCase<std::optional<int>, std::optional<int>, false>};
static Add e2{"optional-int", compareCase<std::optional<int>, int, true>};
static Add e3{"pair", compareCase<std::pair<int, std::string>, std::pair<int, std::string>, false>};
static Add e4{"pointer", compareCase<const int*, const int*, false>};
#elif PART == 6
static Add f0{"predicate", predicateCase};
static Add f0b{"predicate2", predicateCase};
static Add f1{"instance", instanceCase};
static Add f1b{"instance2", instanceCase};
static Add f2{"wildcard", wildcardCase};
#elif PART == 7
static Add g0{"direct int", directCase<int, int, int>};
static Add g1{"direct long/int", directCase<long long, long long, int>};
static Add g2{"direct string/string", directCase<const std::string&, std::string, std::string>};
static Add g3{"direct string/cstr", directCase<std::string, std::string, const char*>};
static Add g4{"direct cstr/string", directCase<const char*, const char*, std::string>};
static Add g5{"direct cstr/cstr", directCase<const char*, const char*, const char*>};
static Add g6{"direct view/string", directCase<std::string_view, std::string_view, std::string>};
static Add g7{"direct view/cstr", directCase<std::string_view, std::string_view, const char*>};
static Add g8{"direct double", directCase<double, double, double>};
static Add g9{"direct vector", directCase<std::vector<int>, std::vector<int>, std::vector<int>>};
static Add h0{"direct optional", directCase<std::optional<int>, std::optional<int>, int>};
static Add h1{"direct color", directCase<Color, Color, Color>};
static Add h2{"direct pointer", directCase<const int*, const int*, const int*>};
#else
static pbt::Register r{"C10", runEntry,
	"a case is one generated matcher (operands, operator or predicate, number of negations, way of passing it) judged on one "
	"generated argument; every case is non-trivial, distinct ones differ in what is listed", 400000, 8000000};
int main(int argc, char** argv) { return pbt::main(argc, argv); }
#endif
