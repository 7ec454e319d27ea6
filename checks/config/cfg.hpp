// C25: the same program, built in different configurations, leaves the same trace.
// This header is part of every configuration's library; only the functions of the "C" interface are visible from outside.
#pragma once
#include "../print/print.hpp"

#include <functional>
#include <regex>
#include <source_location>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

namespace cfg
{
	using pbt::Src;
	using Loc = std::source_location;

	// ---- the trace ----------------------------------------------------------------------------------------------
	struct Trace
	{
		std::string text{};
		bool content{};
		int lines{};

		// source locations are spelled differently by each compiler, addresses differ from run to run
		std::string normal(std::string s) const
		{
			// file[line:column], function
			for (std::size_t p = s.find('['); p != std::string::npos; p = s.find('[', p + 1))
			{
				std::size_t e = p + 1;
				while (e < s.size() && std::isdigit(static_cast<unsigned char>(s[e]))) ++e;
				const std::size_t lineEnd = e;
				if (e == p + 1 || e == s.size() || s[e] != ':') continue;
				for (++e; e < s.size() && std::isdigit(static_cast<unsigned char>(s[e]));) ++e;
				if (s.compare(e, 3, "], ") != 0) continue;
				std::size_t b = p;
				while (b > 0 && s[b - 1] != ' ' && s[b - 1] != '\n') --b;
				const bool ours = s.compare(p - std::min<std::size_t>(p, 8), std::min<std::size_t>(p, 8), "hist.cpp") == 0;
				const std::string with = ours ? "<line " + s.substr(p + 1, lineEnd - p - 1) + ">" : "<elsewhere>";
				s.replace(b, std::min(s.find('\n', e), s.size()) - b, with);
				p = b;
			}
			std::string o;
			for (std::size_t i = 0; i < s.size();)
			{
				if (s.compare(i, 2, "0x") == 0)
				{
					std::size_t e = i + 2;
					while (e < s.size() && std::isxdigit(static_cast<unsigned char>(s[e]))) ++e;
					if (e - i == 18)
					{
						o += s.compare(i + 2, 16, "0000000000000000") == 0 ? "<null>" : "<address>";
						i = e;
						continue;
					}
				}
				o += s[i++];
			}
			return o;
		}

		void put(std::string_view key, std::string value)
		{
			++lines;
			text += key;
			text += ": ";
			text += normal(std::move(value));
			text += '\n';
		}
		void put(std::string_view key, long long v) { put(key, std::to_string(v)); }
	};

	using Fn = std::function<void(Src&, Trace&)>;
	struct Entry
	{
		std::string name;
		int weight;
		Fn run;
	};
	inline std::vector<Entry>& entries()
	{
		static std::vector<Entry> e{};
		return e;
	}
	struct Add
	{
		Add(std::string name, int weight, Fn run) { entries().push_back({std::move(name), weight, std::move(run)}); }
	};

	// ---- values of a type (the types are generated by gen_config.py) ----------------------------------------------
	template <typename T, bool copyable, bool eq>
	void valueCase(Src& s, Trace& t)
	{
		mc::simpleNumbers = true;
		pr::Arena arena;
		struct Value { T v{}; };
		Value box{};
		T& v = box.v;
		pr::fill(s, arena, v);
		t.put("constant", mimicpp::print(std::as_const(v)));
		t.put("lvalue", mimicpp::print(v));
		t.put("rvalue", mimicpp::print(std::move(v)));
		{
			const std::tuple<const T&, int, T&> tup{v, 7, v};
			t.put("tuple", mimicpp::print(tup));
		}
		if constexpr (copyable)
		{
			t.put("vector", mimicpp::print(std::vector<T>{v, v}));
			t.put("optional", mimicpp::print(std::optional<T>{v}));
		}
		mimicpp::Mock<void(const T&)> mock{};
		try
		{
			mock(v);
		}
		catch (const mc::NoMatch& e)
		{
			t.put("argument", e.call.argDetails.at(0).stateString);
		}
		if constexpr (copyable && eq && std::equality_comparable<T>)
		{
			t.put("described", std::string{mimicpp::matches::ne(v).describe()});
			t.put("itself", mimicpp::matches::eq(v).matches(v));
		}
		t.content = true;
	}
}
