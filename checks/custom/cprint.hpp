// C26: printers of the user for types that the library (or its formatting backend) could print on its own.  Every value of
// such a type has to be printed by the user's printer, wherever it appears.
#pragma once
#include "../print/print.hpp"

#include <bitset>

namespace cu
{
	enum class Level { low, mid, high }; // also formattable
	struct Both // also formattable
	{
		int v{};
		friend bool operator ==(const Both&, const Both&) = default;
		friend auto operator <=>(const Both&, const Both&) = default;
	};
	struct Listed : std::vector<int> // also a range
	{
		using std::vector<int>::vector;
	};
	struct Keyed : std::map<int, std::string> // also a range
	{
	};
	struct Textual : std::string // derived from a string
	{
	};
	struct Aggregate
	{
		int a{};
		int b{};
	};
	template <typename T>
	struct Wrapped
	{
		T v{};
		friend bool operator ==(const Wrapped&, const Wrapped&) = default;
		friend auto operator <=>(const Wrapped&, const Wrapped&) = default;
	};
}

template <>
struct std::formatter<cu::Level, char> : std::formatter<std::string_view, char>
{
	auto format(cu::Level, auto& ctx) const { return std::formatter<std::string_view, char>::format("never used", ctx); }
};
template <>
struct std::formatter<cu::Both, char> : std::formatter<std::string_view, char>
{
	auto format(const cu::Both&, auto& ctx) const { return std::formatter<std::string_view, char>::format("never used", ctx); }
};
template <typename T>
struct std::formatter<cu::Wrapped<T>, char> : std::formatter<std::string_view, char>
{
	auto format(const cu::Wrapped<T>&, auto& ctx) const { return std::formatter<std::string_view, char>::format("never used", ctx); }
};

// the printers; `x` is the value, parameter types differ on purpose
#define CU_PRINTER(type, param, ...) \
	template <> \
	class mimicpp::custom::Printer<type> \
	{ \
	public: \
		template <mimicpp::print_iterator OutIter> \
		static OutIter print(OutIter out, param x) \
		{ \
			const std::string text = __VA_ARGS__; \
			return std::ranges::copy(text, std::move(out)).out; \
		} \
	}; \
	template <> \
	struct pr::Hook<type> \
	{ \
		static std::string want(param x) { return __VA_ARGS__; } \
	};

CU_PRINTER(short, const short&, "<short " + std::to_string(x) + ">")
CU_PRINTER(unsigned, unsigned, "<unsigned " + std::to_string(x) + ">")
CU_PRINTER(bool, const bool, std::string{x ? "<yes>" : "<no>"})
CU_PRINTER(float, const float, "<float " + std::to_string(std::isnan(x) ? 0 : 1) + ">")
CU_PRINTER(cu::Level, const cu::Level, "<level " + std::to_string(static_cast<int>(x)) + ">")
CU_PRINTER(mc::Color, const mc::Color&, "<color " + std::to_string(static_cast<int>(x)) + ">")
CU_PRINTER(cu::Both, const cu::Both&, "<both {} " + std::to_string(x.v) + ">")
CU_PRINTER(mc::Fmt, const mc::Fmt&, "<fmt " + std::to_string(x.v) + ">")
CU_PRINTER(mc::Plain, const mc::Plain&, "<plain " + std::to_string(x.v) + ">")
CU_PRINTER(cu::Listed, const cu::Listed&, "<listed " + std::to_string(x.size()) + ">")
CU_PRINTER(cu::Keyed, const cu::Keyed&, "<keyed " + std::to_string(x.size()) + ">")
CU_PRINTER(cu::Textual, const cu::Textual&, "<textual " + std::to_string(x.size()) + ">")
CU_PRINTER(cu::Aggregate, const cu::Aggregate&, "<aggregate " + std::to_string(x.a) + " " + std::to_string(x.b) + ">")
CU_PRINTER(std::u16string, const std::u16string&, "<u16string " + std::to_string(x.size()) + ">")
CU_PRINTER(std::string_view, std::string_view, "<string_view " + std::to_string(x.size()) + ">")
CU_PRINTER(const wchar_t*, const wchar_t*, std::string{x ? "<wide>" : "<no wide>"})
CU_PRINTER(int*, const int*, std::string{x ? "<pointer>" : "<null>"})
CU_PRINTER(const void*, const void*, std::string{x ? "<address>" : "<no address>"})
CU_PRINTER(std::nullptr_t, std::nullptr_t, std::string{x == nullptr ? "<nullptr>" : ""})
CU_PRINTER(std::vector<bool>, const std::vector<bool>&, "<bools " + std::to_string(x.size()) + ">")
CU_PRINTER(std::list<short>, const std::list<short>&, "<shorts " + std::to_string(x.size()) + ">")
CU_PRINTER(std::set<int>, const std::set<int>&, "<set " + std::to_string(x.size()) + ">")
CU_PRINTER(std::optional<long>, const std::optional<long>&, "<optional " + std::to_string(x.value_or(-1)) + ">")
CU_PRINTER(std::filesystem::path, const std::filesystem::path&, "<path " + std::to_string(x.native().size()) + ">")
CU_PRINTER(std::source_location, const std::source_location&, "<location " + std::to_string(x.line()) + ">")
CU_PRINTER(std::unique_ptr<int>, const std::unique_ptr<int>&, "<owner " + std::to_string(x ? *x : 0) + ">")
using CuPair = std::pair<int, int>;
CU_PRINTER(CuPair, const CuPair&, "<pair " + std::to_string(x.first) + " " + std::to_string(x.second) + ">")
using CuVariant = std::variant<int, std::string>;
CU_PRINTER(CuVariant, const CuVariant&, "<variant " + std::to_string(x.index()) + ">")
using CuArray = std::array<int, 2>;
CU_PRINTER(CuArray, const CuArray&, "<array " + std::to_string(x[0]) + ">")
using CuFunction = void (*)();
CU_PRINTER(CuFunction, CuFunction, std::string{x ? "<function>" : "<no function>"})
CU_PRINTER(std::tuple<>, const std::tuple<>&, (static_cast<void>(x), std::string{"<empty tuple>"}))
CU_PRINTER(std::monostate, const std::monostate, (static_cast<void>(x), std::string{"<mono>"}))

// a partial specialisation, accepting anything
template <typename T>
class mimicpp::custom::Printer<cu::Wrapped<T>>
{
public:
	template <mimicpp::print_iterator OutIter>
	static OutIter print(OutIter out, auto&& x)
	{
		out = mimicpp::format::format_to(std::move(out), "<wrapped ");
		out = mimicpp::print(std::move(out), x.v);
		*out++ = '>';
		return out;
	}
};
template <typename T>
struct pr::Hook<cu::Wrapped<T>>
{
	static std::string want(const cu::Wrapped<T>& x) { return "<wrapped " + pr::want(x.v) + ">"; }
};

// characters: strings of them are printed character by character, behind the usual prefix
template <>
class mimicpp::custom::Printer<char32_t>
{
public:
	template <mimicpp::print_iterator OutIter>
	static OutIter print(OutIter out, const char32_t c)
	{
		return mimicpp::format::format_to(std::move(out), "[{}]", static_cast<unsigned long>(c));
	}
};
template <>
struct pr::Hook<char32_t>
{
	static std::string want(const char32_t c) { return "[" + std::to_string(static_cast<unsigned long>(c)) + "]"; }
};
template <>
struct pr::Hook<std::u32string>
{
	static std::string want(std::u32string_view t)
	{
		std::string o = "U\"";
		for (const char32_t c : t) o += pr::Hook<char32_t>::want(c);
		return o + '"';
	}
};
template <>
struct pr::Hook<std::u32string_view> : pr::Hook<std::u32string>
{
};
template <>
struct pr::Hook<const char32_t*>
{
	static std::string want(const char32_t* t) { return t ? pr::Hook<std::u32string>::want(t) : "nullptr"; }
};
template <std::size_t n>
struct pr::Hook<char32_t[n]> : pr::Hook<const char32_t*>
{
};
template <std::size_t n>
struct pr::Hook<const char32_t[n]> : pr::Hook<const char32_t*>
{
};

template <>
struct pr::Filler<cu::Level>
{
	static void go(Src& s, Arena&, cu::Level& v) { v = static_cast<cu::Level>(s.draw(3)); }
};
template <>
struct pr::Filler<cu::Both>
{
	static void go(Src& s, Arena&, cu::Both& v) { v.v = mc::genInt(s); }
};
template <>
struct pr::Filler<cu::Listed>
{
	static void go(Src& s, Arena& a, cu::Listed& v) { fill(s, a, static_cast<std::vector<int>&>(v)); }
};
template <>
struct pr::Filler<cu::Keyed>
{
	static void go(Src& s, Arena& a, cu::Keyed& v) { fill(s, a, static_cast<std::map<int, std::string>&>(v)); }
};
template <>
struct pr::Filler<cu::Textual>
{
	static void go(Src& s, Arena& a, cu::Textual& v) { fill(s, a, static_cast<std::string&>(v)); }
};
template <typename T>
struct pr::Filler<cu::Wrapped<T>>
{
	static void go(Src& s, Arena& a, cu::Wrapped<T>& v) { fill(s, a, v.v); }
};
