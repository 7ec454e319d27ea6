// C12: range matchers against their defining relations on plain element lists.
#include "common.hpp"

using namespace mc;
namespace matches = mimicpp::matches;
namespace range = mimicpp::matches::range;

namespace
{
	// ---- relations of elements: tables, so that nothing else agrees with them -----------------------------------------
	constexpr int N = 5;
	bool relTable[N][N];
	int classOf[N];
	int rankOf[N];

	void genRelations(Src& s)
	{
		for (auto& r : relTable)
			for (bool& b : r) b = s.draw(2);
		for (int& k : classOf) k = static_cast<int>(s.draw(3));
		for (int& k : rankOf) k = static_cast<int>(s.draw(4));
	}

	struct AnyRelation // arbitrary, asymmetric
	{
		bool operator ()(int a, int b) const { return relTable[a][b]; }
	};
	struct SameClass // an equivalence
	{
		bool operator ()(int a, int b) const { return classOf[a] == classOf[b]; }
	};
	struct ByRank // a strict weak order
	{
		bool operator ()(int a, int b) const { return rankOf[a] < rankOf[b]; }
	};
	struct MoveOnlyByRank
	{
		std::unique_ptr<int> dummy{new int{}};
		bool operator ()(int a, int b) const { return rankOf[a] < rankOf[b] + *dummy; }
	};

	using Elems = std::vector<int>;

	Elems genElems(Src& s, int maxLen)
	{
		Elems e;
		const int kinds = s.range(1, N);
		for (int n = s.range(0, maxLen); n > 0; --n) e.push_back(s.range(0, kinds - 1));
		return e;
	}

	Elems genRelated(Src& s, const Elems& e)
	{
		Elems r = e;
		switch (s.weighted({4, 4, 3, 2, 2}))
		{
		case 0: return r;
		case 1: // shuffle
			for (std::size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[s.draw(static_cast<std::uint32_t>(i))]);
			return r;
		case 2: // one element different
			if (!r.empty()) r[s.draw(static_cast<std::uint32_t>(r.size()))] = s.range(0, N - 1);
			return r;
		case 3: // shorter or longer
			if (!r.empty() && s.draw(2)) r.pop_back();
			else r.push_back(s.range(0, N - 1));
			return r;
		default: return genElems(s, 6);
		}
	}

	std::string shown(const Elems& e) { return show(e); }

	// ---- kinds of ranges ------------------------------------------------------------------------------------------------
	struct Sized // a user-defined sized range
	{
		std::list<int> l;
		auto begin() { return l.begin(); }
		auto end() { return l.end(); }
		auto begin() const { return l.begin(); }
		auto end() const { return l.end(); }
		std::size_t size() const { return l.size(); }
	};

	enum Kind { Vec, ConstVec, List, FwdList, Deque, Span, Trans, Filter, Rev, Shorts, Sub, User };

	template <Kind K, typename F>
	auto with(const Elems& e, F f)
	{
		if constexpr (K == Vec)
		{
			std::vector<int> v{e};
			v.shrink_to_fit();
			return f(v);
		}
		else if constexpr (K == ConstVec)
		{
			const std::vector<int> v{e};
			return f(v);
		}
		else if constexpr (K == List)
		{
			std::list<int> v(e.begin(), e.end());
			return f(v);
		}
		else if constexpr (K == FwdList)
		{
			std::forward_list<int> v(e.begin(), e.end());
			return f(v);
		}
		else if constexpr (K == Deque)
		{
			std::deque<int> v(e.begin(), e.end());
			return f(v);
		}
		else if constexpr (K == Span)
		{
			Elems copy{e};
			std::span<const int> v{copy};
			return f(v);
		}
		else if constexpr (K == Trans)
		{
			Elems copy{e};
			for (int& x : copy) x += 100;
			auto v = copy | std::views::transform([](int x) { return x - 100; });
			return f(v);
		}
		else if constexpr (K == Filter) // cannot be iterated when const
		{
			Elems copy;
			for (const int x : e)
			{
				copy.push_back(-1);
				copy.push_back(x);
			}
			copy.push_back(-1);
			auto v = copy | std::views::filter([](int x) { return x >= 0; });
			return f(v);
		}
		else if constexpr (K == Rev)
		{
			Elems copy(e.rbegin(), e.rend());
			auto v = copy | std::views::reverse;
			return f(v);
		}
		else if constexpr (K == Shorts)
		{
			std::vector<short> v(e.begin(), e.end());
			return f(v);
		}
		else if constexpr (K == Sub)
		{
			std::list<int> l(e.begin(), e.end());
			auto v = std::ranges::subrange(l.begin(), l.end());
			return f(v);
		}
		else
		{
			Sized v{std::list<int>(e.begin(), e.end())};
			return f(v);
		}
	}

	template <typename A>
	struct Erased
	{
		virtual ~Erased() = default;
		virtual bool matches(A&) const = 0;
		virtual std::string describe() const = 0;
	};

	template <typename M, typename A>
	struct Holder final : Erased<A>
	{
		const M& m;
		explicit Holder(const M& x) : m{x} {}
		bool matches(A& a) const override { return m.matches(a); }
		std::string describe() const override { return std::string{m.describe()}; }
	};

	template <typename A>
	void judgeErased(Case& c, const Erased<A>& m, A& target, bool want, const std::string& desc, const std::string& what)
	{
		c.log(what + (want ? " accepts" : " rejects"));
		const bool got = m.matches(target);
		const bool again = m.matches(target);
		pbt::require(got == want && again == want, what + ": the matcher " + yn(got) + " and then " + yn(again));
		const std::string d = m.describe();
		pbt::require(d == desc, what + ": description is '" + d + "', expected '" + desc + "'");
	}

	// neg 0: as is, 1: negated, 2: twice negated
	template <typename M, typename T>
	void judge(Src& s, Case& c, M m, T& target, bool base, const std::string& d0, const std::string& d1, const std::string& what)
	{
		const int neg = static_cast<int>(s.draw(3));
		if (neg == 0) return judgeErased<T>(c, Holder<M, T>{m}, target, base, d0, what);
		auto n = [&]
		{
			if constexpr (std::is_copy_constructible_v<M>)
			{
				if (s.draw(2)) return !std::as_const(m);
			}
			return !std::move(m);
		}();
		using NM = decltype(n);
		if (neg == 1) return judgeErased<T>(c, Holder<NM, T>{n}, target, !base, d1, "not " + what);
		auto nn = !std::move(n);
		judgeErased<T>(c, Holder<decltype(nn), T>{nn}, target, base, d0, "not not " + what);
	}

	bool equalBy(const Elems& a, const Elems& b, const std::function<bool(int, int)>& cmp)
	{
		if (a.size() != b.size()) return false;
		for (std::size_t i = 0; i < a.size(); ++i)
			if (!cmp(a[i], b[i])) return false;
		return true;
	}

	bool permBy(const Elems& a, const Elems& b, const std::function<int(int)>& key)
	{
		std::map<int, int> m;
		for (const int x : a) ++m[key(x)];
		for (const int x : b) --m[key(x)];
		return std::ranges::all_of(m, [](auto& p) { return p.second == 0; });
	}

	bool sortedBy(const Elems& a, const std::function<bool(int, int)>& less)
	{
		for (std::size_t i = 0; i < a.size(); ++i)
			for (std::size_t j = i + 1; j < a.size(); ++j)
				if (less(a[j], a[i])) return false;
		return true;
	}

	template <Kind TK, Kind EK>
	void relationCase(Src& s, Case& c)
	{
		genRelations(s);
		const Elems t = genElems(s, s.coin(1, 5) ? 9 : 5);
		const Elems e = genRelated(s, t);
		c.nontrivial = t.size() > 1 || e.size() > 1;
		const int which = static_cast<int>(s.draw(4));
		with<TK>(t, [&](auto& target)
		{
			with<EK>(e, [&](auto& expected)
			{
				// how the expected range is handed over: named (referred to), or temporary (owned)
				const auto go = [&](auto&& x, const std::string& how)
				{
					using X = decltype(x);
					const std::string ex = shown(e);
					const std::string tx = "range " + shown(t);
					if (which == 0)
						judge(s, c, range::eq(std::forward<X>(x)), target, equalBy(t, e, std::equal_to<>{}), "elements are " + ex, "elements are not " + ex,
							tx + " equals " + ex + how);
					else if (which == 1)
						judge(s, c, range::eq(std::forward<X>(x), AnyRelation{}), target, equalBy(t, e, AnyRelation{}), "elements are " + ex,
							"elements are not " + ex, tx + " equals by relation " + ex + how);
					else if (which == 2)
						judge(s, c, range::unordered_eq(std::forward<X>(x)), target, permBy(t, e, [](int k) { return k; }),
							"is a permutation of " + ex, "is not a permutation of " + ex, tx + " permutation of " + ex + how);
					else
						judge(s, c, range::unordered_eq(std::forward<X>(x), SameClass{}), target, permBy(t, e, [](int k) { return classOf[k]; }),
							"is a permutation of " + ex, "is not a permutation of " + ex, tx + " permutation by class of " + ex + how);
				};
				if constexpr (EK == Vec || EK == List || EK == Deque)
				{
					if (s.draw(2))
					{
						auto copy = expected;
						return go(std::move(copy), " (temporary)");
					}
				}
				go(expected, "");
				return;
			});
			return;
		});
	}

	template <typename T>
	concept Sizeable = requires(T& t) { std::ranges::size(t); };

	template <Kind TK>
	void shapeCase(Src& s, Case& c)
	{
		genRelations(s);
		Elems t = genElems(s, s.coin(1, 5) ? 12 : 4);
		if (s.coin(1, 3)) std::ranges::sort(t);
		if (s.coin(1, 6)) std::ranges::sort(t, std::greater{});
		if (s.coin(1, 4)) std::ranges::sort(t, ByRank{});
		const std::string tx = "range " + shown(t);
		with<TK>(t, [&](auto& target)
		{
			using T = std::remove_reference_t<decltype(target)>;
			switch (s.draw(6))
			{
			case 5:
				c.nontrivial = t.size() > 1;
				judge(s, c, range::is_sorted(MoveOnlyByRank{}), target, sortedBy(t, ByRank{}), "is a sorted range", "is an unsorted range", tx + " sorted by rank (move-only)");
				break;
			case 0:
				c.nontrivial = t.size() > 1;
				judge(s, c, range::is_sorted(), target, sortedBy(t, std::less{}), "is a sorted range", "is an unsorted range", tx + " sorted");
				break;
			case 1:
				c.nontrivial = t.size() > 1;
				judge(s, c, range::is_sorted(std::greater{}), target, sortedBy(t, std::greater{}), "is a sorted range", "is an unsorted range", tx + " sorted descending");
				break;
			case 2:
				c.nontrivial = t.size() > 1;
				judge(s, c, range::is_sorted(ByRank{}), target, sortedBy(t, ByRank{}), "is a sorted range", "is an unsorted range", tx + " sorted by rank");
				break;
			case 3:
				c.nontrivial = true;
				judge(s, c, range::is_empty(), target, t.empty(), "is an empty range", "is not an empty range", tx + " empty");
				break;
			default:
				c.nontrivial = true;
				if constexpr (Sizeable<T>)
				{
					const auto size = static_cast<long long>(t.size());
					const auto sizeCase = [&]<typename I>(I want)
					{
						judge(s, c, range::has_size(want), target, std::cmp_equal(want, size), "has size of " + std::to_string(want),
							"has different size than " + std::to_string(want), tx + " has size " + std::to_string(want));
					};
					const long long delta = s.coin(1, 2) ? 0 : s.range(-2, 2);
					switch (s.draw(4))
					{
					case 0: sizeCase(static_cast<int>(size + delta)); break;
					case 1: sizeCase(static_cast<unsigned char>(size + delta)); break;
					case 2: sizeCase(static_cast<std::size_t>(size + delta)); break;
					default: sizeCase(s.coin(1, 3) ? -size : s.coin(1, 2) ? (1ll << 32) + size : size + delta); break;
					}
				}
			}
		});
	}

	template <Kind TK>
	void elementCase(Src& s, Case& c)
	{
		genRelations(s);
		const Elems t = genElems(s, 5);
		const std::string tx = shown(t);
		c.nontrivial = !t.empty();
		const bool each = s.draw(2);
		const int x = s.range(0, N - 1);
		with<TK>(t, [&](auto& target)
		{
			const auto go = [&](auto inner, const std::function<bool(int)>& holds, const std::string& d)
			{
				const auto count = std::ranges::count_if(t, holds);
				if (each)
				{
					judge(s, c, range::each_element(inner), target, count == static_cast<long>(t.size()), "each el in range: el " + d,
						"not each el in range: el " + d, "each of " + tx + " " + d);
				}
				else
				{
					judge(s, c, range::any_element(std::move(inner)), target, count > 0, "any el in range: el " + d, "none el in range: el " + d,
						"any of " + tx + " " + d);
				}
			};
			switch (s.draw(5))
			{
			case 0: go(matches::eq(x), [&](int y) { return y == x; }, "== " + std::to_string(x)); break;
			case 1: go(matches::lt(x), [&](int y) { return y < x; }, "< " + std::to_string(x)); break;
			case 2: go(!matches::lt(x), [&](int y) { return y >= x; }, ">= " + std::to_string(x)); break;
			case 3: go(matches::predicate([](int y) { return classOf[y] == 0; }), [](int y) { return classOf[y] == 0; }, "passes predicate"); break;
			default: go(matches::_, [](int) { return true; }, "has no constraints"); break;
			}
		});
	}

	[[maybe_unused]] void nestedCase(Src& s, Case& c)
	{
		std::vector<Elems> t;
		for (int n = s.range(0, 4); n > 0; --n) t.push_back(genElems(s, 3));
		const int x = s.range(0, 2);
		const bool outer = s.draw(2);
		const bool inner = s.draw(2);
		const auto holdsInner = [&](const Elems& e)
		{
			const auto k = std::ranges::count(e, x);
			return inner ? k == static_cast<long>(e.size()) : k > 0;
		};
		const auto k = std::ranges::count_if(t, holdsInner);
		const bool want = outer ? k == static_cast<long>(t.size()) : k > 0;
		const std::string what = std::string{outer ? "each" : "any"} + " element: " + (inner ? "each" : "any") + " element == " + std::to_string(x) + " of " + show(t);
		const std::string di = std::string{inner ? "each" : "any"} + " el in range: el == " + std::to_string(x);
		c.nontrivial = !t.empty();
		const auto go = [&](auto m)
		{
			judge(s, c, m, t, want, std::string{outer ? "each" : "any"} + " el in range: el " + di,
				std::string{outer ? "not each" : "none"} + " el in range: el " + di, what);
		};
		if (outer)
		{
			if (inner) go(range::each_element(range::each_element(matches::eq(x))));
			else go(range::each_element(range::any_element(matches::eq(x))));
		}
		else
		{
			if (inner) go(range::any_element(range::each_element(matches::eq(x))));
			else go(range::any_element(range::any_element(matches::eq(x))));
		}
	}

	// strings in ranges, sizes of inner ranges, move-only elements, fixed arrays, vector<bool>, sets, maps
	[[maybe_unused]] void specialCase(Src& s, Case& c)
	{
		c.nontrivial = true;
		switch (s.draw(7))
		{
		case 0:
		{
			std::vector<std::string> t;
			for (int n = s.range(0, 4); n > 0; --n) t.push_back(std::vector<std::string>{"", "a", "ab", "ba", "b"}[s.draw(5)]);
			const auto k = std::ranges::count_if(t, [](auto& x) { return x.starts_with("a"); });
			judge(s, c, range::each_element(matches::str::starts_with("a")), t, k == static_cast<long>(t.size()),
				"each el in range: el starts with \"a\"", "not each el in range: el starts with \"a\"", show(t));
			judge(s, c, range::any_element(matches::str::starts_with("a")), t, k > 0, "any el in range: el starts with \"a\"",
				"none el in range: el starts with \"a\"", show(t));
			std::vector<std::string_view> e(t.begin(), t.end());
			if (!e.empty() && s.draw(2)) e.pop_back();
			judge(s, c, range::eq(e), t, e.size() == t.size(), "elements are " + show(e), "elements are not " + show(e), show(t));
			break;
		}
		case 1:
		{
			std::vector<std::unique_ptr<int>> t;
			Elems vals;
			for (int n = s.range(0, 4); n > 0; --n)
			{
				vals.push_back(s.range(0, 2));
				t.push_back(std::make_unique<int>(vals.back()));
			}
			const int x = s.range(0, 2);
			const auto pred = [x](const std::unique_ptr<int>& p) { return *p == x; };
			const auto k = std::ranges::count(vals, x);
			judge(s, c, range::each_element(matches::predicate(pred)), t, k == static_cast<long>(vals.size()), "each el in range: el passes predicate",
				"not each el in range: el passes predicate", "owned " + show(vals));
			judge(s, c, range::any_element(matches::predicate(pred)), t, k > 0, "any el in range: el passes predicate",
				"none el in range: el passes predicate", "owned " + show(vals));
			judge(s, c, range::has_size(2), t, vals.size() == 2, "has size of 2", "has different size than 2", "owned " + show(vals));
			pbt::require(std::ranges::all_of(t, [](auto& p) { return p != nullptr; }), "an element was moved away");
			break;
		}
		case 2:
		{
			int t[3]{s.range(0, 2), s.range(0, 2), s.range(0, 2)};
			const Elems v(std::begin(t), std::end(t));
			const Elems e = genRelated(s, v);
			judge(s, c, range::eq(e), t, v == e, "elements are " + show(e), "elements are not " + show(e), "array " + show(v));
			judge(s, c, range::is_sorted(), t, std::ranges::is_sorted(v), "is a sorted range", "is an unsorted range", "array " + show(v));
			int e2[2]{v[0], v[1]};
			judge(s, c, range::eq(e2), t, false, "elements are " + show(e2), "elements are not " + show(e2), "array " + show(v) + " and its start");
			std::array<int, 2> first{v[0], v[1]};
			judge(s, c, range::unordered_eq(t), first, false, "is a permutation of " + show(v), "is not a permutation of " + show(v), "start of array " + show(v));
			break;
		}
		case 3:
		{
			std::vector<bool> t;
			for (int n = s.range(0, 4); n > 0; --n) t.push_back(s.draw(2));
			std::vector<bool> e{t};
			if (!e.empty() && s.draw(2)) e[0] = !e[0];
			judge(s, c, range::eq(e), t, e == t, "elements are " + show(e), "elements are not " + show(e), "bits " + show(t));
			judge(s, c, range::any_element(matches::eq(true)), t, std::ranges::count(t, true) > 0, "any el in range: el == true",
				"none el in range: el == true", "bits " + show(t));
			break;
		}
		case 4:
		{
			std::set<int> t;
			for (int n = s.range(0, 4); n > 0; --n) t.insert(s.range(0, 5));
			Elems e(t.begin(), t.end());
			std::ranges::reverse(e);
			judge(s, c, range::unordered_eq(e), t, true, "is a permutation of " + show(e), "is not a permutation of " + show(e), "set " + show(t));
			judge(s, c, range::eq(e), t, t.size() < 2, "elements are " + show(e), "elements are not " + show(e), "set " + show(t) + " reversed");
			judge(s, c, range::is_sorted(), t, true, "is a sorted range", "is an unsorted range", "set " + show(t));
			judge(s, c, range::has_size(t.size()), t, true, "has size of " + std::to_string(t.size()), "has different size than " + std::to_string(t.size()), "set");
			break;
		}
		case 5:
		{
			std::map<int, int> t;
			for (int n = s.range(0, 3); n > 0; --n) t[s.range(0, 3)] = s.range(0, 3);
			const auto k = std::ranges::count_if(t, [](auto& p) { return p.second < p.first; });
			judge(s, c, range::any_element(matches::predicate([](const std::pair<const int, int>& p) { return p.second < p.first; })), t, k > 0,
				"any el in range: el passes predicate", "none el in range: el passes predicate", "map " + show(t));
			judge(s, c, range::is_empty(), t, t.empty(), "is an empty range", "is not an empty range", "map " + show(t));
			break;
		}
		default:
		{
			// the matcher refers to a named range, and owns a temporary one
			Elems named = genElems(s, 4);
			const Elems t = genRelated(s, named);
			auto m = range::eq(std::move(named));
			named = Elems{9, 9, 9};
			const Elems orig = t;
			std::vector<int> target{t};
			auto copyDesc = std::string{m.describe()};
			const bool want = copyDesc == "elements are " + show(t);
			c.log("owned expected range: " + copyDesc);
			pbt::require(m.matches(target) == want, "range matcher with an owned expected range");
			auto moved = std::move(m);
			pbt::require(moved.matches(target) == want && std::string{moved.describe()} == copyDesc, "moved range matcher");
			pbt::require(target == orig, "the target was changed");
		}
		}
	}

	// sizes at and beyond the limits of the type in which the expected size is given
	[[maybe_unused]] void hugeCase(Src& s, Case& c)
	{
		static constexpr long long bases[]{0, 128, 256, 384, 512, 32768, 65536};
		const long long size = std::max(0ll, bases[s.weighted({3, 6, 6, 1, 2, 1, 1})] + s.range(-3, 3));
		static const std::string bytes(70000, 'x');
		const std::string_view target{bytes.data(), static_cast<std::size_t>(size)};
		const long long want = s.coin(1, 2) ? size : s.coin(1, 2) ? size - bases[s.draw(7)] : size + s.range(-2, 2);
		c.nontrivial = size > 100;
		const auto as = [&]<typename I>(std::type_identity<I>, const char* name)
		{
			const I w = static_cast<I>(want);
			judge(s, c, range::has_size(w), target, std::cmp_equal(w, size), "has size of " + std::to_string(w), "has different size than " + std::to_string(w),
				std::to_string(size) + " elements have size " + std::to_string(w) + " (" + name + ")");
		};
		switch (s.draw(8))
		{
		case 0: as(std::type_identity<signed char>{}, "signed char"); break;
		case 1: as(std::type_identity<unsigned char>{}, "unsigned char"); break;
		case 2: as(std::type_identity<short>{}, "short"); break;
		case 3: as(std::type_identity<unsigned short>{}, "unsigned short"); break;
		case 4: as(std::type_identity<int>{}, "int"); break;
		case 5: as(std::type_identity<unsigned>{}, "unsigned"); break;
		case 6: as(std::type_identity<long long>{}, "long long"); break;
		default: as(std::type_identity<std::size_t>{}, "size_t"); break;
		}
	}

	// ranges of hundreds up to tens of thousands of elements
	[[maybe_unused]] void bulkCase(Src& s, Case& c)
	{
		static constexpr int bases[]{0, 32, 64, 128, 256, 512, 32768, 65536};
		const auto near = [&] { return static_cast<std::size_t>(std::max(0, bases[s.weighted({1, 3, 5, 4, 6, 3, 1, 2})] + s.range(-2, 2))); };
		const int which = static_cast<int>(s.draw(6));
		std::size_t n = near();
		const bool permuted = which == 1;
		if (permuted && n > 1000) n -= 32000;
		if (permuted && n > 1000) n = 600;
		const int kinds = s.coin(1, 2) ? 3 : 100000;
		std::vector<int> t(n);
		std::uint64_t r = s.draw(1u << 20);
		for (int& x : t) x = static_cast<int>(pbt::splitmix(r) % static_cast<unsigned>(kinds));
		const auto at = [&](const std::vector<int>& v) { return s.coin(1, 3) ? v.size() - 1 : static_cast<std::size_t>(s.draw(static_cast<std::uint32_t>(v.size()))); };
		c.nontrivial = n > 100;
		const std::string size = "range of " + std::to_string(n) + " elements";
		const auto ask = [&](const auto& m, const auto& target, const bool want, const std::string& what)
		{
			c.log(what);
			c.label(want ? "accept" : "reject");
			pbt::require(m.matches(target) == want, what + ": the matcher " + yn(!want));
			pbt::require((!m).matches(target) != want, what + ": the negated matcher " + yn(want));
		};
		switch (which)
		{
		case 0:
		case 1:
		{
			std::vector<int> e = t;
			if (permuted)
				for (std::size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[pbt::splitmix(r) % i]);
			std::string change = "the same";
			switch (s.draw(4))
			{
			case 0: break;
			case 1:
				if (!e.empty())
				{
					int& x = e[at(e)];
					change = "one of " + std::to_string(x);
					x = x == 1 && s.coin(1, 2) ? 2 : x == 0 ? 1 : x - 1; // other multiplicities, too
				}
				break;
			case 2:
				change = "a shorter";
				if (const auto d = near(); permuted || d > e.size()) e.resize(e.size() - (e.empty() ? 0 : 1));
				else e.resize(e.size() - d);
				break;
			default:
				change = "a longer";
				if (const auto d = permuted ? 1u + s.draw(2) * 255u : near(); d) e.insert(e.end(), d, 1);
			}
			const std::string what = size + (permuted ? " permutes " : " equals ") + change + " of " + std::to_string(e.size());
			if (permuted)
			{
				auto a = t, b = e;
				std::ranges::sort(a);
				std::ranges::sort(b);
				ask(range::unordered_eq(e), t, a == b, what);
			}
			else ask(range::eq(e), t, t == e, what);
			break;
		}
		case 2:
		{
			std::ranges::sort(t);
			if (!t.empty() && s.coin(1, 2))
			{
				auto& x = t[at(t)];
				x += s.coin(1, 2) ? 1 : -1;
			}
			bool want = true;
			for (std::size_t i = 1; i < t.size(); ++i) want = want && t[i - 1] <= t[i];
			ask(range::is_sorted(), t, want, size + " is sorted");
			break;
		}
		case 3: ask(range::is_empty(), t, t.empty(), size + " is empty"); break;
		default:
		{
			const bool each = which == 4;
			std::fill(t.begin(), t.end(), each ? 1 : 0);
			if (!t.empty() && s.coin(1, 2)) t[at(t)] = each ? 0 : 1;
			const auto ones = static_cast<std::size_t>(std::ranges::count(t, 1));
			if (each) ask(range::each_element(matches::eq(1)), t, ones == t.size(), size + ", " + std::to_string(ones) + " match: each");
			else ask(range::any_element(matches::eq(1)), t, ones > 0, size + ", " + std::to_string(ones) + " match: any");
		}
		}
	}

	[[maybe_unused]] void mockCase(Src& s, Case& c)
	{
		genRelations(s);
		const Elems t = genElems(s, 4);
		const Elems e = genRelated(s, t);
		c.nontrivial = true;
		c.log("mock call with " + show(t) + ", expecting something about " + show(e));
		const int k = static_cast<int>(s.draw(6));
		switch (k)
		{
		case 0: pbt::require(viaMock<const std::vector<int>&>(range::eq(e), t) == (e == t), "range::eq in a mock"); break;
		case 1:
			pbt::require(viaMock<std::vector<int>>(!range::unordered_eq(Elems{e}), t) == !permBy(t, e, [](int x) { return x; }),
				"negated range::unordered_eq in a mock");
			break;
		case 2: pbt::require(viaMock<std::span<const int>>(range::is_sorted(ByRank{}), t) == sortedBy(t, ByRank{}), "range::is_sorted in a mock"); break;
		case 3: pbt::require(viaMock<std::vector<int>>(range::has_size(e.size()), t) == (e.size() == t.size()), "range::has_size in a mock"); break;
		case 4:
			pbt::require(viaMock<std::list<int>>(range::each_element(matches::ne(1)), std::list<int>(t.begin(), t.end())) == (std::ranges::count(t, 1) == 0),
				"range::each_element in a mock");
			break;
		default:
			pbt::require(viaMock<std::string_view>(range::any_element(matches::eq('b')), std::string(t.size(), 'a') + (e.size() % 2 ? "b" : ""))
					== (e.size() % 2 == 1), "range::any_element in a mock");
		}
	}
}

#if PART == 0
static Add e00{"vec/vec", relationCase<Vec, Vec>};
static Add e01{"constvec/list", relationCase<ConstVec, List>};
static Add e02{"list/deque", relationCase<List, Deque>};
#elif PART == 1
static Add e10{"fwdlist/vec", relationCase<FwdList, Vec>};
static Add e11{"vec/fwdlist", relationCase<Vec, FwdList>};
static Add e12{"deque/span", relationCase<Deque, Span>};
#elif PART == 2
static Add e20{"span/constvec", relationCase<Span, ConstVec>};
static Add e21{"trans/vec", relationCase<Trans, Vec>};
static Add e22{"filter/vec", relationCase<Filter, Vec>};
#elif PART == 3
static Add e30{"rev/shorts", relationCase<Rev, Shorts>};
static Add e31{"user/sub", relationCase<User, Sub>};
static Add e32{"shorts/trans", relationCase<Shorts, Trans>};
#elif PART == 4
static Add f0{"shape vec", shapeCase<Vec>};
static Add f1{"shape list", shapeCase<List>};
static Add f2{"shape fwdlist", shapeCase<FwdList>};
static Add f3{"shape filter", shapeCase<Filter>};
static Add f4{"shape trans", shapeCase<Trans>};
static Add f5{"shape user", shapeCase<User>};
static Add f6{"shape span", shapeCase<Span>};
#elif PART == 5
static Add g0{"element vec", elementCase<Vec>};
static Add g1{"element constvec", elementCase<ConstVec>};
static Add g2{"element fwdlist", elementCase<FwdList>};
static Add g3{"element filter", elementCase<Filter>};
static Add g4{"element trans", elementCase<Trans>};
#elif PART == 6
static Add h0{"nested", nestedCase};
static Add h1{"special", specialCase};
static Add h2{"special2", specialCase};
#elif PART == 7
static Add h3{"mock", mockCase};
static Add h5{"huge", hugeCase};
static Add h6{"bulk", bulkCase};
static Add h4{"element sub", elementCase<Sub>};
#else
static pbt::Register r{"C12", runEntry,
	"a case is one (range, expected range or value, matcher, comparator, negation, kinds of ranges); non-trivial if the "
	"ranges have elements to compare", 500000, 10000000};
int main(int argc, char** argv) { return pbt::main(argc, argv); }
#endif
