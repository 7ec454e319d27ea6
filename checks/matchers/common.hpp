// Shared by the matcher, printing and policy checks: a reporter that turns verdicts into values, a reference printer
// that is written from the documented layout, and helpers.
#pragma once

#include "mimic++/mimic++.hpp"
#include "../../lib/pbt.hpp"

#include <array>
#include <charconv>
#include <cmath>
#include <deque>
#include <filesystem>
#include <forward_list>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>

namespace mc
{
	using pbt::Case;
	using pbt::Src;

	struct NoMatch
	{
		mimicpp::CallReport call;
		std::vector<mimicpp::MatchReport> reports;
	};

	struct Inapplicable : NoMatch
	{
	};

	struct Log
	{
		int full = 0;
		int unfulfilled = 0;
		int errors = 0;
		int exceptions = 0;
		std::optional<mimicpp::CallReport> lastCall{};
		std::optional<mimicpp::MatchReport> lastMatch{};
		std::vector<mimicpp::ExpectationReport> ends{};
	};

	inline Log& log()
	{
		static Log l{};
		return l;
	}

	class Reporter final
		: public mimicpp::IReporter
	{
	public:
		[[noreturn]] void report_no_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> m) override
		{
			throw NoMatch{std::move(call), std::move(m)};
		}

		[[noreturn]] void report_inapplicable_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> m) override
		{
			throw Inapplicable{{std::move(call), std::move(m)}};
		}

		void report_full_match(mimicpp::CallReport call, mimicpp::MatchReport m) noexcept override
		{
			++log().full;
			log().lastCall = std::move(call);
			log().lastMatch = std::move(m);
		}

		void report_unfulfilled_expectation(mimicpp::ExpectationReport e) override
		{
			++log().unfulfilled;
			log().ends.push_back(std::move(e));
		}

		void report_error(mimicpp::StringT) override { ++log().errors; }

		void report_unhandled_exception(mimicpp::CallReport, mimicpp::ExpectationReport, std::exception_ptr) override
		{
			++log().exceptions;
		}
	};

	inline void reset()
	{
		mimicpp::install_reporter<Reporter>();
		log() = Log{};
	}

	// does a mock with a parameter of type T accept the argument under this requirement?
	template <typename T, typename M, typename Arg>
	bool viaMock(M&& m, Arg&& arg)
	{
		mimicpp::Mock<void(T)> mock{};
		mimicpp::ScopedExpectation e = mock.expect_call(std::forward<M>(m)) && mimicpp::expect::at_least(0);
		try
		{
			mock(std::forward<Arg>(arg));
			return true;
		}
		catch (const NoMatch&)
		{
			return false;
		}
	}

	template <typename T, typename Policy, typename Arg>
	bool viaPolicy(Policy&& p, Arg&& arg)
	{
		mimicpp::Mock<void(T)> mock{};
		mimicpp::ScopedExpectation e = mock.expect_call(mimicpp::matches::_) && mimicpp::expect::at_least(0)
			&& std::forward<Policy>(p);
		try
		{
			mock(std::forward<Arg>(arg));
			return true;
		}
		catch (const NoMatch&)
		{
			return false;
		}
	}

	inline std::string yn(bool b) { return b ? "accepts" : "rejects"; }

	struct Entry
	{
		std::string name;
		std::function<void(Src&, Case&)> run;
	};

	inline std::vector<Entry>& entries()
	{
		static std::vector<Entry> e{};
		return e;
	}

	struct Add
	{
		Add(std::string name, std::function<void(Src&, Case&)> run) { entries().push_back({std::move(name), std::move(run)}); }
	};

	inline void sortEntries()
	{
		static const bool once = []
		{
			std::stable_sort(entries().begin(), entries().end(), [](const Entry& a, const Entry& b) { return a.name < b.name; });
			return true;
		}();
		(void)once;
	}

	inline void runEntry(Src& s, Case& c)
	{
		sortEntries();
		reset();
		const Entry& e = entries()[s.draw(static_cast<std::uint32_t>(entries().size()))];
		c.label(e.name);
		c.log("entry " + e.name);
		e.run(s, c);
	}
}

// ---- user types -----------------------------------------------------------------------------------------------------
namespace mc
{
	struct Plain // nothing can print this
	{
		int v{};
		friend bool operator ==(const Plain&, const Plain&) = default;
		friend auto operator <=>(const Plain&, const Plain&) = default;
	};

	enum class Color { red, green, blue };

	struct Custom // has a mimicpp::custom::Printer
	{
		int v{};
		friend bool operator ==(const Custom&, const Custom&) = default;
		friend auto operator <=>(const Custom&, const Custom&) = default;
	};

	struct Fmt // has a std::formatter
	{
		int v{};
		friend bool operator ==(const Fmt&, const Fmt&) = default;
		friend auto operator <=>(const Fmt&, const Fmt&) = default;
	};

	struct CustomRange // is a range, but has a custom printer
	{
		std::vector<int> v{};
		auto begin() const { return v.begin(); }
		auto end() const { return v.end(); }
		friend bool operator ==(const CustomRange&, const CustomRange&) = default;
		friend auto operator <=>(const CustomRange&, const CustomRange&) = default;
	};

	struct FmtRange // is a range and formattable: printed as range
	{
		std::vector<int> v{};
		auto begin() const { return v.begin(); }
		auto end() const { return v.end(); }
		friend bool operator ==(const FmtRange&, const FmtRange&) = default;
		friend auto operator <=>(const FmtRange&, const FmtRange&) = default;
	};
}

template <>
class mimicpp::custom::Printer<mc::Custom>
{
public:
	template <typename OutIter>
	static OutIter print(OutIter out, const mc::Custom& c)
	{
		return mimicpp::format::format_to(std::move(out), "<custom {}>", c.v);
	}
};

template <>
class mimicpp::custom::Printer<mc::CustomRange>
{
public:
	template <typename OutIter>
	static OutIter print(OutIter out, const mc::CustomRange& c)
	{
		return mimicpp::format::format_to(std::move(out), "<customrange {}>", c.v.size());
	}
};

#ifdef MIMICPP_CONFIG_USE_FMT
#define MC_FMT_NS fmt
#else
#define MC_FMT_NS std
#endif

template <>
struct MC_FMT_NS::formatter<mc::Fmt, char>
	: public MC_FMT_NS::formatter<std::string_view, char>
{
	auto format(const mc::Fmt& f, auto& ctx) const
	{
		return MC_FMT_NS::formatter<std::string_view, char>::format("fmt:" + std::to_string(f.v), ctx);
	}
};

template <>
struct MC_FMT_NS::formatter<mc::FmtRange, char>
	: public MC_FMT_NS::formatter<std::string_view, char>
{
	auto format(const mc::FmtRange&, auto& ctx) const
	{
		return MC_FMT_NS::formatter<std::string_view, char>::format("never used", ctx);
	}
};

// ---- reference printer ------------------------------------------------------------------------------------------------
namespace mc
{
	template <typename T> struct IsOptional : std::false_type {};
	template <typename T> struct IsOptional<std::optional<T>> : std::true_type {};
	template <typename T> struct IsTuple : std::false_type {};
	template <typename... T> struct IsTuple<std::tuple<T...>> : std::true_type {};
	template <typename A, typename B> struct IsTuple<std::pair<A, B>> : std::true_type {};
	template <typename T> struct IsString : std::false_type { using Char = void; };
	template <typename C, typename T, typename A> struct IsString<std::basic_string<C, T, A>> : std::true_type { using Char = C; };
	template <typename C, typename T> struct IsString<std::basic_string_view<C, T>> : std::true_type { using Char = C; };
	template <typename C>
	inline constexpr bool isChar = std::is_same_v<C, char> || std::is_same_v<C, wchar_t> || std::is_same_v<C, char8_t>
		|| std::is_same_v<C, char16_t> || std::is_same_v<C, char32_t> || std::is_same_v<C, signed char>
		|| std::is_same_v<C, unsigned char>;

	inline std::string hex(unsigned long long v, int width = 0)
	{
		std::string s;
		do
		{
			s.insert(s.begin(), "0123456789abcdef"[v % 16]);
			v /= 16;
		}
		while (v);
		while (static_cast<int>(s.size()) < width) s.insert(s.begin(), '0');
		return s;
	}

	template <typename C>
	std::string refText(const C* p, std::size_t n)
	{
		std::string o;
		if constexpr (std::is_same_v<C, wchar_t>) o = "L";
		if constexpr (std::is_same_v<C, char8_t>) o = "u8";
		if constexpr (std::is_same_v<C, char16_t>) o = "u";
		if constexpr (std::is_same_v<C, char32_t>) o = "U";
		o += '"';
		if constexpr (std::is_same_v<C, char>) o.append(p, n);
		else
		{
			for (std::size_t i = 0; i < n; ++i)
			{
				if (i) o += ", ";
				o += "0x" + hex(static_cast<unsigned long long>(static_cast<std::make_unsigned_t<std::conditional_t<std::is_same_v<C, wchar_t>, int, std::conditional_t<std::is_same_v<C, char8_t>, char, std::conditional_t<std::is_same_v<C, char16_t>, short, std::conditional_t<std::is_same_v<C, char32_t>, int, C>>>>>>(p[i])));
			}
		}
		return o + '"';
	}

	template <typename C>
	std::size_t refLen(const C* p)
	{
		std::size_t n = 0;
		while (p[n] != C{}) ++n;
		return n;
	}

	template <typename T>
	std::string show(T&& value)
	{
		using V = std::remove_cvref_t<T>;
		if constexpr (std::is_same_v<V, Custom>) return "<custom " + std::to_string(value.v) + ">";
		else if constexpr (std::is_same_v<V, CustomRange>) return "<customrange " + std::to_string(value.v.size()) + ">";
		else if constexpr (std::is_same_v<V, std::nullopt_t>) return "nullopt";
		else if constexpr (IsOptional<V>::value)
		{
			if (!value) return "nullopt";
			return "{ value: " + show(*value) + " }";
		}
		else if constexpr (IsTuple<V>::value)
		{
			std::string o = "{ ";
			bool first = true;
			std::apply(
				[&](const auto&... e)
				{
					((o += (std::exchange(first, false) ? "" : ", ") + show(e)), ...);
				},
				value);
			return o + " }";
		}
		else if constexpr (IsString<V>::value) return refText(value.data(), value.size());
		else if constexpr (std::is_array_v<V> && isChar<std::remove_cv_t<std::remove_extent_t<V>>>)
			return refText(&value[0], refLen(&value[0]));
		else if constexpr (std::is_pointer_v<V> && isChar<std::remove_cv_t<std::remove_pointer_t<V>>>)
		{
			if (!value) return "nullptr";
			return refText(value, refLen(value));
		}
		else if constexpr (std::is_null_pointer_v<V>) return "0x0000000000000000";
		else if constexpr (std::is_pointer_v<V>) return "0x" + hex(reinterpret_cast<std::uintptr_t>(value), 16);
		else if constexpr (std::is_same_v<V, std::filesystem::path>) return "{?}";
		else if constexpr (std::is_same_v<V, std::vector<bool>::reference>) return value ? "true" : "false";
		else if constexpr (std::ranges::forward_range<T>)
		{
			std::string o = "{ ";
			bool first = true;
			for (auto&& e : value) o += (std::exchange(first, false) ? "" : ", ") + show(e);
			return o + " }";
		}
		else if constexpr (std::is_same_v<V, bool>) return value ? "true" : "false";
		else if constexpr (std::is_same_v<V, char>) return std::string(1, value);
		else if constexpr (isChar<V> && std::is_default_constructible_v<MC_FMT_NS::formatter<V, char>> && !std::is_same_v<V, signed char> && !std::is_same_v<V, unsigned char>)
			return MC_FMT_NS::format("{}", value); // char8_t, depending on the standard library
		else if constexpr (isChar<V> && !std::is_same_v<V, signed char> && !std::is_same_v<V, unsigned char>) return "{?}";
		else if constexpr (std::is_integral_v<V>) return std::to_string(value);
		else if constexpr (std::is_floating_point_v<V>)
		{
			char buf[64];
			if (std::isnan(value)) return std::signbit(value) ? "-nan" : "nan";
			if (std::isinf(value)) return value < 0 ? "-inf" : "inf";
			const auto r = std::to_chars(buf, buf + sizeof buf, value);
			return std::string(buf, r.ptr);
		}
		else if constexpr (std::is_same_v<V, Fmt>) return "fmt:" + std::to_string(value.v);
		else if constexpr (std::is_same_v<V, std::source_location>)
		{
			return std::string{value.file_name()} + "[" + std::to_string(value.line()) + ":" + std::to_string(value.column()) + "], "
				+ value.function_name();
		}
		else return "{?}";
	}
}

// ---- generators -------------------------------------------------------------------------------------------------------
namespace mc
{
	inline int genInt(Src& s)
	{
		switch (s.weighted({6, 2, 1}))
		{
		case 0: return s.range(-2, 3);
		case 1: return s.range(-1000, 1000);
		default: return std::vector<int>{INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1}[s.draw(4)];
		}
	}

	inline bool simpleNumbers{}; // only numbers for which the shortest text is beyond doubt
	inline double genDouble(Src& s)
	{
		if (simpleNumbers) return static_cast<double>(static_cast<int>(s.draw(2001)) - 1000) / 4;
		static const std::vector<double> special{0.0, -0.0, 1.0, -1.0, 0.1, 0.5, std::nan(""), HUGE_VAL, -HUGE_VAL, 5e-324, 1.7976931348623157e308, 1e21, 123456.789, 16777217.0};
		if (s.coin(1, 4)) return static_cast<double>(static_cast<std::int64_t>(s.bits())) / 65536.0;
		return s.pick(special);
	}
}
