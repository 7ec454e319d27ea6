// C14: generators for values of arbitrary nested types, extending the reference printer of matchers/common.hpp.
#pragma once
#include "../matchers/common.hpp"

#include <any>
#include <atomic>
#include <bitset>
#include <chrono>
#include <complex>
#include <cstring>
#include <functional>
#include <stack>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <variant>

namespace pr
{
	using mc::Case;
	using mc::Src;
	using mc::show;

	// backing storage for views and pointers: every block is allocated on its own and exactly as large as needed
	using Arena = std::vector<std::shared_ptr<void>>;

	template <typename T>
	T* exactBlock(Arena& a, std::size_t n)
	{
		// (no padding in front of or behind the elements, so that the address sanitizer sees every overrun)
		T* p = static_cast<T*>(std::malloc(n ? n * sizeof(T) : 1));
		a.push_back(std::shared_ptr<void>(p, [n](void* q)
		{
			for (std::size_t i = 0; i < n; ++i) static_cast<T*>(q)[i].~T();
			std::free(q);
		}));
		for (std::size_t i = 0; i < n; ++i) new (p + i) T{};
		return p;
	}

	// ---- more user types --------------------------------------------------------------------------------------------
	struct Special // printed by containers' own custom printers only
	{
		int v{};
	};

	template <typename T>
	struct Box // a template with a custom printer, which prints its content by the library
	{
		T v{};
		friend bool operator ==(const Box&, const Box&) = default;
		friend auto operator <=>(const Box&, const Box&) = default;
	};

	template <typename T>
	struct UserRange
	{
		std::forward_list<T> v{};
		auto begin() const { return v.begin(); }
		auto end() const { return v.end(); }
	};

	struct Tree : std::vector<Tree> // a range of itself
	{
		using std::vector<Tree>::vector;
	};

	template <typename T>
	struct MutT // ranges of each other
	{
		std::vector<T> v;
		typename std::vector<T>::const_iterator begin() const { return v.begin(); }
		typename std::vector<T>::const_iterator end() const { return v.end(); }
	};
	struct MutB;
	struct MutA : MutT<MutB>
	{
		MutA();
		MutA(const MutA&);
		MutA& operator =(const MutA&);
		~MutA();
	};
	struct MutB : MutT<MutA>
	{
	};
	inline MutA::MutA() = default;
	inline MutA::MutA(const MutA&) = default;
	inline MutA& MutA::operator =(const MutA&) = default;
	inline MutA::~MutA() = default;

	struct NoCopy
	{
		NoCopy() = default;
		NoCopy(NoCopy&&) = default;
		NoCopy& operator =(NoCopy&&) = default;
		int v{};
	};

	struct Tuple2 // tuple-like through free get
	{
		int a{};
		std::string b{};
		template <std::size_t i>
		friend decltype(auto) get(const Tuple2& t)
		{
			if constexpr (i == 0) return (t.a);
			else return (t.b);
		}
	};

	template <typename T>
	struct TupleM // tuple-like through member get
	{
		T a{};
		bool b{};
		template <std::size_t i>
		decltype(auto) get() const
		{
			if constexpr (i == 0) return (a);
			else return (b);
		}
	};

	struct NoPrintRange // only an input range: opaque, and never consumed
	{
		mutable int consumed{};
		struct It
		{
			using value_type = int;
			using difference_type = std::ptrdiff_t;
			using iterator_concept = std::input_iterator_tag;
			const NoPrintRange* r{};
			int operator *() const { return 1; }
			It& operator ++() { ++r->consumed; return *this; }
			void operator ++(int) { ++r->consumed; }
			bool operator ==(std::default_sentinel_t) const { return r->consumed > 3; }
		};
		It begin() const { ++consumed; return {this}; }
		std::default_sentinel_t end() const { return {}; }
	};

	enum Unscoped : int
	{
		u0,
		u1,
		u2
	};

	struct MyChar // a user character type
	{
		std::uint16_t c;
		friend bool operator ==(const MyChar&, const MyChar&) = default;
		friend auto operator <=>(const MyChar&, const MyChar&) = default;
	};

	struct MyChar2 // a user character type with custom printer and prefix
	{
		std::uint8_t c;
		friend bool operator ==(const MyChar2&, const MyChar2&) = default;
		friend auto operator <=>(const MyChar2&, const MyChar2&) = default;
	};

	struct MyString // a user string
	{
		std::string s{};
	};

	struct Traits : std::char_traits<char>
	{
	};
	using TraitsString = std::basic_string<char, Traits>;

	template <typename T>
	using Opt = std::optional<T>;
	template <typename T>
	using TakeView = std::ranges::take_view<std::span<const T>>;
	template <typename T>
	using RevView = std::ranges::reverse_view<std::span<T>>;
	template <typename T>
	using SubRange = std::ranges::subrange<const T*>;
	template <typename T>
	struct Half
	{
		T operator ()(const T& t) const { return t; }
	};
	template <typename T>
	using TransView = std::ranges::transform_view<std::span<const T>, Half<T>>; // elements are temporaries
	template <typename T>
	using CArr2 = T[2];
}

namespace pr
{
	template <typename C>
	struct BaseTraits
	{
		using char_type = C;
		using int_type = int;
		using off_type = std::streamoff;
		using pos_type = std::streampos;
		using state_type = std::mbstate_t;
		using comparison_category = std::strong_ordering;
		static constexpr std::size_t length(const C* p)
		{
			std::size_t n = 0;
			while (p[n] != C{}) ++n;
			return n;
		}
		static constexpr void assign(C& a, const C& b) { a = b; }
		static constexpr C* assign(C* p, std::size_t n, C c) { return std::fill_n(p, n, c), p; }
		static constexpr bool eq(C a, C b) { return a == b; }
		static constexpr bool lt(C a, C b) { return a < b; }
		static constexpr int compare(const C* a, const C* b, std::size_t n)
		{
			for (; n; --n, ++a, ++b)
				if (*a != *b) return *a < *b ? -1 : 1;
			return 0;
		}
		static constexpr C* copy(C* d, const C* s, std::size_t n) { return std::copy_n(s, n, d), d; }
		static constexpr C* move(C* d, const C* s, std::size_t n) { return std::memmove(d, s, n * sizeof(C)), d; }
		static constexpr const C* find(const C* p, std::size_t n, const C& c)
		{
			for (; n; --n, ++p)
				if (*p == c) return p;
			return nullptr;
		}
		static constexpr int to_int_type(C c) { return c.c; }
		static constexpr C to_char_type(int c) { return {static_cast<decltype(C::c)>(c)}; }
		static constexpr bool eq_int_type(int a, int b) { return a == b; }
		static constexpr int eof() { return -1; }
		static constexpr int not_eof(int c) { return c == -1 ? 0 : c; }
	};
}

template <>
struct std::char_traits<pr::MyChar> : pr::BaseTraits<pr::MyChar> {};
template <>
struct std::char_traits<pr::MyChar2> : pr::BaseTraits<pr::MyChar2> {};

template <>
struct std::tuple_size<pr::Tuple2> : std::integral_constant<std::size_t, 2> {};
template <>
struct std::tuple_element<0, pr::Tuple2> { using type = int; };
template <>
struct std::tuple_element<1, pr::Tuple2> { using type = std::string; };
template <typename T>
struct std::tuple_size<pr::TupleM<T>> : std::integral_constant<std::size_t, 2> {};
template <typename T>
struct std::tuple_element<0, pr::TupleM<T>> { using type = T; };
template <typename T>
struct std::tuple_element<1, pr::TupleM<T>> { using type = bool; };

template <>
struct mimicpp::is_character<pr::MyChar> : std::true_type {};
template <>
struct mimicpp::is_character<pr::MyChar2> : std::true_type {};
template <>
inline constexpr mimicpp::StringViewT mimicpp::string_literal_prefix<pr::MyChar2>{"my"};

template <>
struct mimicpp::string_traits<pr::MyString>
{
	using char_t = char;
	using view_t = std::string_view;
	static view_t view(const pr::MyString& s) { return s.s; }
};

template <>
class mimicpp::custom::Printer<pr::MyChar2>
{
public:
	template <typename OutIter>
	static OutIter print(OutIter out, const pr::MyChar2& c)
	{
		return mimicpp::format::format_to(std::move(out), "({})", static_cast<int>(c.c));
	}
};

template <typename T>
class mimicpp::custom::Printer<pr::Box<T>>
{
public:
	template <typename OutIter>
	static OutIter print(OutIter out, const pr::Box<T>& b)
	{
		out = mimicpp::format::format_to(std::move(out), "Box[");
		out = mimicpp::print(std::move(out), b.v);
		return mimicpp::format::format_to(std::move(out), "]");
	}
};

#define PR_SPECIAL(type, text) \
	template <> \
	class mimicpp::custom::Printer<type> \
	{ \
	public: \
		template <typename OutIter> \
		static OutIter print(OutIter out, std::add_const_t<type>&) \
		{ \
			return mimicpp::format::format_to(std::move(out), text); \
		} \
	};

PR_SPECIAL(std::optional<pr::Special>, "special optional")
PR_SPECIAL(std::vector<pr::Special>, "special vector")
PR_SPECIAL(pr::Special*, "special pointer")
PR_SPECIAL(pr::TraitsString, "special string")
using SpecialPair = std::pair<pr::Special, int>;
PR_SPECIAL(SpecialPair, "special pair")
PR_SPECIAL(std::unique_ptr<pr::Special>, "special owner")

namespace pr
{
	// ---- reference printer ------------------------------------------------------------------------------------------
	// The same layout as mc::show, plus the types above; has to come first, thus everything recursive is repeated here.
	template <typename V> struct Hook {}; // expectations of another check (checks/custom)
	template <typename T> struct IsBox : std::false_type {};
	template <typename T> struct IsBox<Box<T>> : std::true_type {};
	template <typename T> struct IsTupleM : std::false_type {};
	template <typename T> struct IsTupleM<TupleM<T>> : std::true_type {};
	template <typename T> struct IsCtx : std::false_type {};
	template <typename T> struct IsOwner : std::false_type {};
	template <typename T> struct IsOwner<std::unique_ptr<T>> : std::true_type {};
	template <typename T> struct IsOwner<std::shared_ptr<T>> : std::true_type {};
	template <typename... T> struct IsOwner<std::variant<T...>> : std::true_type {};

	template <typename T>
	std::string want(T&& value)
	{
		using V = std::remove_cvref_t<T>;
		if constexpr (requires { Hook<V>::want(value); }) return Hook<V>::want(value);
		else if constexpr (std::is_same_v<V, std::optional<Special>>) return "special optional";
		else if constexpr (std::is_same_v<V, std::vector<Special>>) return "special vector";
		else if constexpr (std::is_same_v<V, Special*>) return "special pointer";
		else if constexpr (std::is_same_v<V, TraitsString>) return "special string";
		else if constexpr (std::is_same_v<V, std::pair<Special, int>>) return "special pair";
		else if constexpr (std::is_same_v<V, std::unique_ptr<Special>>) return "special owner";
		else if constexpr (IsOwner<V>::value || std::is_same_v<V, Tree> || std::is_same_v<V, NoPrintRange>) return "{?}";
		else if constexpr (IsBox<V>::value) return "Box[" + want(value.v) + "]";
		else if constexpr (std::is_same_v<V, Tuple2>) return "{ " + want(value.a) + ", " + want(value.b) + " }";
		else if constexpr (IsTupleM<V>::value) return "{ " + want(value.a) + ", " + want(value.b) + " }";
		else if constexpr (std::is_same_v<V, MyString>) return mc::refText(value.s.data(), value.s.size());
		else if constexpr (std::is_same_v<V, std::basic_string<MyChar>> || std::is_same_v<V, std::basic_string_view<MyChar>>)
		{
			std::string o = "\"";
			for (std::size_t i = 0; i < value.size(); ++i) o += (i ? ", 0x" : "0x") + mc::hex(value[i].c);
			return o + '"';
		}
		else if constexpr (std::is_same_v<V, const MyChar2*>)
		{
			if (!value) return "nullptr";
			std::string o = "my\"";
			for (const MyChar2* p = value; *p != MyChar2{}; ++p) o += "(" + std::to_string(p->c) + ")";
			return o + '"';
		}
		else if constexpr (std::is_same_v<V, std::basic_string<MyChar2>>)
		{
			std::string o = "my\"";
			for (auto& c : value) o += "(" + std::to_string(c.c) + ")";
			return o + '"';
		}
		else if constexpr (std::is_same_v<V, MyChar2>) return "(" + std::to_string(value.c) + ")";
		else if constexpr (mc::IsOptional<V>::value) return value ? "{ value: " + want(*value) + " }" : "nullopt";
		else if constexpr (mc::IsTuple<V>::value)
		{
			std::string o = "{ ";
			bool first = true;
			std::apply([&](const auto&... e) { ((o += (std::exchange(first, false) ? "" : ", ") + want(e)), ...); }, value);
			return o + " }";
		}
		else if constexpr (mc::IsString<V>::value || (std::is_array_v<V> && mc::isChar<std::remove_cv_t<std::remove_extent_t<V>>>)
			|| std::is_same_v<V, mc::CustomRange> || std::is_same_v<V, std::filesystem::path> || std::is_same_v<V, std::vector<bool>::reference>)
			return show(value);
		else if constexpr (std::ranges::forward_range<T>)
		{
			std::string o = "{ ";
			bool first = true;
			for (auto&& e : value) o += (std::exchange(first, false) ? "" : ", ") + want(e);
			return o + " }";
		}
		else if constexpr (std::is_same_v<V, Unscoped>) return "{?}";
		else return show(value);
	}

	// ---- generators -------------------------------------------------------------------------------------------------
	template <typename C>
	C genChar(Src& s)
	{
		static const std::vector<unsigned> plain{'a', 'b', '{', '}', '"', '\\', '%', ' ', '\n', '0', 'x', ':', ','};
		switch (s.weighted({6, 1, 1, 1}))
		{
		case 0: return static_cast<C>(s.pick(plain));
		case 1: return static_cast<C>(0);
		case 2: return static_cast<C>(s.draw(256));
		default: return static_cast<C>(s.bits());
		}
	}
	template <>
	inline MyChar genChar<MyChar>(Src& s) { return {static_cast<std::uint16_t>(s.bits())}; }
	template <>
	inline MyChar2 genChar<MyChar2>(Src& s) { return {static_cast<std::uint8_t>(s.draw(256))}; }

	template <typename C>
	std::basic_string<C> genText(Src& s, bool terminated = false)
	{
		const int n = s.weighted({6, 1}) == 0 ? s.range(0, 5) : s.range(6, 70);
		std::basic_string<C> o;
		if (s.coin(1, 1500)) // a long one, made of few characters
		{
			static constexpr int sizes[]{128, 256, 1024, 4096, 32768, 65536};
			const C some[]{genChar<C>(s), genChar<C>(s), genChar<C>(s)};
			auto r = static_cast<std::uint64_t>(s.bits());
			for (int k = sizes[s.draw(6)] + s.range(-2, 2); k > 0; --k)
				if (const C& c = some[pbt::splitmix(r) % 3]; !(terminated && c == C{})) o.push_back(c);
		}
		for (int i = 0; i < n; ++i)
		{
			C c = genChar<C>(s);
			if (terminated && c == C{}) continue;
			o.push_back(c);
		}
		return o;
	}

	inline int genLen(Src& s)
	{
		if (s.coin(1, 600)) return s.range(250, 300);
		return s.weighted({8, 1}) == 0 ? s.range(0, 3) : s.range(4, 12);
	}

	template <typename T>
	void fill(Src& s, Arena& a, T& v);

	template <typename T> struct IsSpanLike : std::false_type {};
	template <typename T> struct IsSpanLike<std::span<T>> : std::true_type {};
	template <typename T> struct IsVariant : std::false_type {};
	template <typename... T> struct IsVariant<std::variant<T...>> : std::true_type {};

	template <typename T>
	T* block(Src& s, Arena& a, int n)
	{
		T* p = exactBlock<T>(a, static_cast<std::size_t>(n));
		for (int i = 0; i < n; ++i) fill(s, a, p[i]);
		return p;
	}

	template <typename T> struct Filler;

	template <typename T>
	void fill(Src& s, Arena& a, T& v)
	{
		Filler<T>::go(s, a, v);
	}

	template <typename T>
	struct Filler
	{
		static void go(Src& s, Arena& a, T& v)
		{
			if constexpr (std::is_same_v<T, bool>) v = s.draw(2);
			else if constexpr (std::is_same_v<T, long double>) v = static_cast<long double>(mc::genDouble(s));
			else if constexpr (std::is_floating_point_v<T>) v = static_cast<T>(mc::genDouble(s));
			else if constexpr (mc::isChar<T>) v = genChar<T>(s);
			else if constexpr (std::is_integral_v<T>) v = s.coin(1, 6) ? static_cast<T>(s.bits()) : static_cast<T>(mc::genInt(s));
			else if constexpr (std::is_same_v<T, MyChar2>) v.c = static_cast<std::uint8_t>(s.draw(256));
			else if constexpr (std::is_same_v<T, MyString>) v.s = genText<char>(s);
			else if constexpr (std::is_enum_v<T>) v = static_cast<T>(s.draw(3));
			else if constexpr (mc::IsString<T>::value)
			{
				using C = typename mc::IsString<T>::Char;
				auto t = genText<C>(s);
				if constexpr (requires { v.assign(t.begin(), t.end()); }) v.assign(t.begin(), t.end());
				else
				{
					C* p = exactBlock<C>(a, t.size());
					std::copy(t.begin(), t.end(), p);
					v = t.empty() && s.draw(2) ? T{} : T{p, t.size()};
				}
			}
			else if constexpr (std::is_pointer_v<T>)
			{
				using C = std::remove_cv_t<std::remove_pointer_t<T>>;
				if (s.coin(1, 5)) v = nullptr;
				else if constexpr (mc::isChar<C> || std::is_same_v<C, MyChar2> || std::is_same_v<C, MyChar>)
				{
					auto t = genText<std::conditional_t<std::is_same_v<C, signed char> || std::is_same_v<C, unsigned char>, char, C>>(s, true);
					C* p = exactBlock<C>(a, t.size() + 1);
					for (std::size_t i = 0; i < t.size(); ++i) p[i] = static_cast<C>(t[i]);
					p[t.size()] = C{};
					v = p;
				}
				else if constexpr (std::is_void_v<C>) v = exactBlock<int>(a, 1);
				else if constexpr (std::is_function_v<C>) v = s.draw(2) ? +[] {} : nullptr;
				else v = block<C>(s, a, 1);
			}
			else if constexpr (std::is_array_v<T>)
			{
				using E = std::remove_extent_t<T>;
				if constexpr (mc::isChar<E>)
				{
					constexpr std::size_t n = std::extent_v<T>;
					std::fill(std::begin(v), std::end(v), E{});
					const auto len = s.draw(n); // terminated
					for (std::size_t i = 0; i < len; ++i) v[i] = genChar<E>(s);
				}
				else
					for (auto& e : v) fill(s, a, e);
			}
			else if constexpr (IsSpanLike<T>::value)
			{
				using E = std::remove_cv_t<typename T::element_type>;
				const int n = genLen(s);
				v = T{block<E>(s, a, n), static_cast<std::size_t>(n)};
			}
			else if constexpr (requires { v.v; requires !std::ranges::range<T>; }) fill(s, a, v.v);
			else if constexpr (std::is_same_v<T, mc::CustomRange> || std::is_same_v<T, mc::FmtRange>) fill(s, a, v.v);
			else if constexpr (std::is_same_v<T, std::filesystem::path>) v = genText<char>(s, true);
			else if constexpr (std::is_same_v<T, std::nullptr_t> || std::is_same_v<T, std::monostate> || std::is_same_v<T, NoPrintRange>) {}
			else if constexpr (std::is_same_v<T, std::source_location>) v = std::source_location::current();
			else if constexpr (requires { v.a; v.b; })
			{
				fill(s, a, v.a);
				fill(s, a, v.b);
			}
			else if constexpr (std::is_same_v<T, Tree>)
			{
				const int n = s.range(0, 2);
				for (int i = 0; i < n && s.coin(1, 2); ++i) fill(s, a, v.emplace_back());
			}
			else static_assert(sizeof(T) == 0, "no generator");
		}
	};

	template <>
	struct Filler<MutB>
	{
		static void go(Src& s, Arena& a, MutB& v)
		{
			v.v.clear();
			while (s.coin(1, 3)) fill(s, a, v.v.emplace_back());
		}
	};
	template <>
	struct Filler<MutA>
	{
		static void go(Src& s, Arena& a, MutA& v)
		{
			v.v.clear();
			while (s.coin(1, 3)) fill(s, a, v.v.emplace_back());
		}
	};
	template <typename T>
	struct Filler<std::optional<T>>
	{
		static void go(Src& s, Arena& a, std::optional<T>& v)
		{
			if (s.draw(3)) fill(s, a, v.emplace());
		}
	};
	template <typename A, typename B>
	struct Filler<std::pair<A, B>>
	{
		static void go(Src& s, Arena& a, std::pair<A, B>& v)
		{
			fill(s, a, const_cast<std::remove_const_t<A>&>(v.first));
			fill(s, a, v.second);
		}
	};
	template <typename... T>
	struct Filler<std::tuple<T...>>
	{
		static void go(Src& s, Arena& a, std::tuple<T...>& v)
		{
			std::apply([&](auto&... e) { (fill(s, a, e), ...); }, v);
		}
	};
	template <typename... T>
	struct Filler<std::variant<T...>>
	{
		static void go(Src& s, Arena& a, std::variant<T...>& v)
		{
			fill(s, a, v.template emplace<0>());
		}
	};
	template <typename T>
	struct Filler<std::unique_ptr<T>>
	{
		static void go(Src& s, Arena& a, std::unique_ptr<T>& v)
		{
			v = std::make_unique<T>();
			fill(s, a, *v);
		}
	};
	template <typename T>
	struct Filler<std::shared_ptr<T>>
	{
		static void go(Src& s, Arena& a, std::shared_ptr<T>& v)
		{
			v = std::make_shared<T>();
			fill(s, a, *v);
		}
	};
	template <typename T, std::size_t n>
	struct Filler<std::array<T, n>>
	{
		static void go(Src& s, Arena& a, std::array<T, n>& v)
		{
			for (auto& e : v) fill(s, a, e);
		}
	};
	template <typename T>
	struct FillSeq
	{
		static void go(Src& s, Arena& a, T& v)
		{
			v.clear();
			for (int n = genLen(s); n > 0; --n) fill(s, a, v.emplace_back());
		}
	};
	template <typename T> struct Filler<std::vector<T>> : FillSeq<std::vector<T>> {};
	template <> struct Filler<std::vector<bool>>
	{
		static void go(Src& s, Arena&, std::vector<bool>& v)
		{
			for (int n = genLen(s); n > 0; --n) v.push_back(s.draw(2));
		}
	};
	template <typename T> struct Filler<std::deque<T>> : FillSeq<std::deque<T>> {};
	template <typename T> struct Filler<std::list<T>> : FillSeq<std::list<T>> {};
	template <typename T>
	struct Filler<std::forward_list<T>>
	{
		static void go(Src& s, Arena& a, std::forward_list<T>& v)
		{
			v.clear();
			for (int n = genLen(s); n > 0; --n) fill(s, a, v.emplace_front());
		}
	};
	template <typename T>
	struct Filler<UserRange<T>>
	{
		static void go(Src& s, Arena& a, UserRange<T>& v) { fill(s, a, v.v); }
	};
	template <typename T>
	struct FillAssoc
	{
		static void go(Src& s, Arena& a, T& v)
		{
			for (int n = genLen(s); n > 0; --n)
			{
				if constexpr (requires { typename T::mapped_type; })
				{
					std::pair<typename T::key_type, typename T::mapped_type> e{};
					fill(s, a, e);
					v.insert(std::move(e));
				}
				else
				{
					typename T::key_type e{};
					fill(s, a, e);
					v.insert(std::move(e));
				}
			}
		}
	};
	template <typename K> struct Filler<std::set<K>> : FillAssoc<std::set<K>> {};
	template <typename K> struct Filler<std::multiset<K>> : FillAssoc<std::multiset<K>> {};
	template <typename K, typename V> struct Filler<std::map<K, V>> : FillAssoc<std::map<K, V>> {};
	template <typename K, typename V> struct Filler<std::multimap<K, V>> : FillAssoc<std::multimap<K, V>> {};
	template <typename K, typename V> struct Filler<std::unordered_map<K, V>> : FillAssoc<std::unordered_map<K, V>> {};
	template <typename K> struct Filler<std::unordered_set<K>> : FillAssoc<std::unordered_set<K>> {};
	template <typename T>
	struct Filler<TakeView<T>>
	{
		static void go(Src& s, Arena& a, TakeView<T>& v)
		{
			std::span<T> b{};
			fill(s, a, b);
			v = TakeView<T>{b, s.range(0, 4)};
		}
	};
	template <typename T>
	struct Filler<RevView<T>>
	{
		static void go(Src& s, Arena& a, RevView<T>& v)
		{
			std::span<T> b{};
			fill(s, a, b);
			v = RevView<T>{b};
		}
	};
	template <typename T>
	struct Filler<TransView<T>>
	{
		static void go(Src& s, Arena& a, TransView<T>& v)
		{
			std::span<T> b{};
			fill(s, a, b);
			v = TransView<T>{b, {}};
		}
	};
	template <typename T>
	struct Filler<SubRange<T>>
	{
		static void go(Src& s, Arena& a, SubRange<T>& v)
		{
			std::span<T> b{};
			fill(s, a, b);
			v = SubRange<T>{b.data(), b.data() + b.size()};
		}
	};

	// ---- the properties of one type ---------------------------------------------------------------------------------
	struct Punct : std::numpunct<char>
	{
		char do_thousands_sep() const override { return '\''; }
		std::string do_grouping() const override { return "\1"; }
		char do_decimal_point() const override { return ';'; }
		std::string do_truename() const override { return "ja"; }
		std::string do_falsename() const override { return "nein"; }
	};

	template <typename T, bool copyable, bool assignable>
	void typeCase(Src& s, Case& c)
	{
		static const std::locale strange{std::locale::classic(), new Punct};
		std::locale::global(s.coin(1, 4) ? strange : std::locale::classic());
		Arena arena;
		struct Value { T v{}; };
		Value box{};
		T& v = box.v;
		fill(s, arena, v);
		const std::string w = want(std::as_const(v));
		c.log(w);
		c.nontrivial = w.size() > 2 && w != "{?}" && w != "{  }" && w != "\"\"";
		const auto same = [&](const std::string& got, const std::string& expected, const char* where)
		{
			pbt::require(got == expected, std::string{where} + ": printed as '" + got + "', expected '" + expected + "'");
		};

		same(mimicpp::print(std::as_const(v)), w, "constant");
		same(mimicpp::print(v), w, "lvalue");
		same(mimicpp::print(std::move(v)), w, "rvalue");
		same(want(std::as_const(v)), w, "the value was altered; now");
		std::string text = "before ";
		auto out = mimicpp::print(std::back_inserter(text), std::as_const(v));
		*out++ = '!';
		same(text, "before " + w + "!", "appended");
		std::ostringstream stream;
		stream << '[';
		auto out2 = mimicpp::print(std::ostreambuf_iterator<char>{stream}, v);
		*out2++ = ']';
		same(stream.str(), "[" + w + "]", "streamed");

		// inside of other values
		{
			const std::tuple<const T&, int, T&> t{v, 7, v};
			same(mimicpp::print(t), "{ " + w + ", 7, " + w + " }", "in a tuple of references");
		}
		if constexpr (copyable)
		{
			const std::vector<T> vec{v, v};
			if (!std::is_same_v<T, Special> && !requires { Hook<std::vector<T>>::want(vec); }) pbt::require(want(vec) == "{ " + w + ", " + w + " }", "reference printer");
			same(mimicpp::print(vec), want(vec), "in a vector");
			const std::optional<T> opt{v};
			same(mimicpp::print(opt), want(opt), "in an optional");
			const T copy{v};
			same(mimicpp::print(copy), w, "copy");
		}

		// in reports
		mimicpp::Mock<void(const T&)> mock{};
		try
		{
			mock(v);
			pbt::fail("a call without expectation was answered");
		}
		catch (const mc::NoMatch& e)
		{
			pbt::require(e.call.argDetails.size() == 1, "report without argument");
			same(e.call.argDetails[0].stateString, w, "in the report of a failed call");
			const std::string all = mimicpp::print(e.call);
			pbt::require(all.find(w) != std::string::npos, "the report's text '" + all + "' lacks " + w);
		}
		if constexpr (copyable && assignable && std::equality_comparable<T>)
		{
			mimicpp::Mock<void(T)> byValue{};
			mimicpp::ScopedExpectation e = byValue.expect_call(mimicpp::matches::_) && mimicpp::expect::at_least(0);
			byValue(v);
			same(mc::log().lastCall.value().argDetails.at(0).stateString, w, "by value, in the report of an answered call");
			same(std::string{mimicpp::matches::ne(v).describe()}, "!= " + w, "in a matcher's description");
		}
		same(want(std::as_const(v)), w, "the value was altered by a call; now");
		std::locale::global(std::locale::classic());
	}
}
