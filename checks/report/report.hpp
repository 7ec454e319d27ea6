// C27 (second part): contents of all reports for calls on generated mocks with every kind of overload, parameter and return
// type, default and explicit locations, and expectations with any number of (repeated, empty, awkward) descriptions.
#pragma once
#include "../../lib/pbt.hpp"
#include <mimic++/mimic++.hpp>

#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <source_location>
#include <string>
#include <typeindex>
#include <vector>

namespace rp
{
	using pbt::Case;
	using pbt::Src;
	using Loc = std::source_location;
	using Handle = std::unique_ptr<mimicpp::ScopedExpectation>;

	// ---- values -------------------------------------------------------------------------------------------------
	struct Base
	{
		int v{};
		virtual ~Base() = default;
	};
	struct Derived : Base
	{
		int w{};
	};
	struct Opaque // cannot be printed
	{
		int v{};
	};
	enum class Kind { a, b, c };
	struct Printed
	{
		int v{};
	};
	struct Payload
	{
		std::map<int, std::string> m{};
	};
}

template <>
class mimicpp::custom::Printer<rp::Printed>
{
public:
	template <mimicpp::print_iterator OutIter>
	static OutIter print(OutIter out, const rp::Printed& p)
	{
		return mimicpp::format::format_to(std::move(out), "<printed {} {{}} {{>", p.v);
	}
};

namespace rp
{
	template <typename T>
	T value(Src& s)
	{
		if constexpr (std::is_same_v<T, bool>) return s.coin(1, 2);
		else if constexpr (std::is_same_v<T, char>) return static_cast<char>('a' + s.range(0, 20));
		else if constexpr (std::is_same_v<T, double>) return s.range(-8, 8) / 4.0;
		else if constexpr (std::is_arithmetic_v<T>) return static_cast<T>(s.coin(1, 6) ? std::numeric_limits<T>::max() : static_cast<T>(s.range(0, 99)));
		else if constexpr (std::is_same_v<T, std::string>)
		{
			static const char* const texts[]{"", "a", "two words", "{} {0}", "line\nbreak", "\"quoted\"", "a text that does not fit into the small buffer of a string", "\t,\n"};
			return texts[s.draw(8)];
		}
		else if constexpr (std::is_same_v<T, std::vector<int>>)
		{
			T r{};
			for (int n = s.range(0, 3); n > 0; --n) r.push_back(s.range(0, 9));
			return r;
		}
		else if constexpr (std::is_same_v<T, std::optional<int>>) return s.coin(1, 3) ? T{} : T{s.range(0, 9)};
		else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return s.coin(1, 3) ? T{} : std::make_unique<int>(s.range(0, 9));
		else if constexpr (std::is_same_v<T, std::pair<int, std::string>>) return {s.range(0, 9), value<std::string>(s)};
		else if constexpr (std::is_same_v<T, const char*>)
		{
			static const char* const texts[]{"", "a", "pointed to", "{}"};
			return texts[s.draw(4)];
		}
		else if constexpr (std::is_same_v<T, int*>)
		{
			static int ints[4]{};
			return s.coin(1, 4) ? nullptr : &ints[s.draw(4)];
		}
		else if constexpr (std::is_same_v<T, Kind>) return static_cast<Kind>(s.draw(3));
		else if constexpr (std::is_same_v<T, Printed>) return Printed{s.range(0, 9)};
		else if constexpr (std::is_same_v<T, Opaque>) return Opaque{s.range(0, 9)};
		else return T{};
	}

	// an independent text where that is simple
	template <typename T>
	std::string reference(const T& x)
	{
		if constexpr (std::is_same_v<T, int> || std::is_same_v<T, long> || std::is_same_v<T, unsigned>) return std::to_string(x);
		else if constexpr (std::is_same_v<T, bool>) return x ? "true" : "false";
		else if constexpr (std::is_same_v<T, std::string>) return "\"" + x + "\"";
		else if constexpr (std::is_same_v<T, const char*>) return "\"" + std::string{x} + "\"";
		else if constexpr (std::is_same_v<T, Opaque> || std::is_same_v<T, Derived> || std::is_same_v<T, Base>) return "{?}";
		else if constexpr (std::is_same_v<T, std::vector<int>>)
		{
			std::string r = "{ ";
			for (std::size_t i = 0; i < x.size(); ++i) r += (i ? ", " : "") + std::to_string(x[i]);
			return r + " }";
		}
		else if constexpr (std::is_same_v<T, Printed>) return "<printed " + std::to_string(x.v) + " {} {>";
		else return mimicpp::print(x);
	}

	template <typename P>
	struct Arg
	{
		using T = std::remove_cvref_t<P>;
		using Obj = std::conditional_t<std::is_same_v<T, Base>, Derived, T>; // polymorphic arguments are of a derived type
		Obj v;
		explicit Arg(Src& s) : v(value<Obj>(s)) {}
		P pass() { return static_cast<P>(static_cast<std::conditional_t<std::is_reference_v<P>, P, T&&>>(v)); }
		decltype(auto) give()
		{
			if constexpr (std::is_reference_v<P>) return static_cast<P>(v);
			else return static_cast<T&&>(v);
		}
	};

	// ---- what a call's report must say ------------------------------------------------------------------------------
	struct WantCall
	{
		std::optional<std::type_index> ret{};
		std::vector<std::type_index> types{};
		std::vector<std::string> values{};
		Loc here{};
		bool exact{};
		int cat{}, cst{};
	};

	struct Req
	{
		int arg{-1}; // -1: policy
		std::string text{};
		bool described = true;
		bool accept = true;
		bool throws{};
		std::string full() const { return arg < 0 ? text : "expect: arg[" + std::to_string(arg) + "] " + text; }
	};

	struct Exp
	{
		int id{};
		int overload{};
		std::vector<std::shared_ptr<Req>> reqs{};
		int min{1}, max{1}, count{};
		int form{};
		Loc loc{};  // explicit
		Loc here{}; // where it was set up
		bool exact{};
		bool living{};
		Handle handle{};
	};

	struct World;
	inline World* world{};
	inline int mutate{};

	// requirement on one argument, whose verdict is dictated
	template <typename P>
	struct R
	{
		std::shared_ptr<Req> req{};
		bool matches(std::remove_reference_t<P>&) const;
		template <typename T>
			requires (!std::same_as<T, std::remove_reference_t<P>>)
		bool matches(T&) const = delete;
		std::string describe() const { return req->text; }
	};

	struct Boom
	{
	};

	template <typename P>
	bool R<P>::matches(std::remove_reference_t<P>&) const
	{
		if (req->throws) throw Boom{};
		return req->accept;
	}

	struct Pol
	{
		std::shared_ptr<Req> req{};
		static bool is_satisfied() noexcept { return true; }
		template <typename I>
		bool matches(const I&) const
		{
			if (req->throws) throw Boom{};
			return req->accept;
		}
		std::optional<std::string> describe() const
		{
			if (!req->described) return std::nullopt;
			return req->text;
		}
		template <typename I>
		static void consume(const I&) {}
	};

	// changes whatever it can
	struct Spoil
	{
		template <typename T>
		static void one(T& x)
		{
			if constexpr (!std::is_const_v<T>)
			{
				if constexpr (std::is_same_v<T, int> || std::is_same_v<T, double> || std::is_same_v<T, long>) x = static_cast<T>(x / 2 + 7);
				else if constexpr (std::is_same_v<T, std::string>) x = "spoiled";
				else if constexpr (std::is_same_v<T, std::vector<int>>) x.assign(3, 77);
				else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) x = nullptr;
			}
		}
		template <typename... T>
		void operator ()(T&... x) const
		{
			(one(x), ...);
		}
	};

	template <typename T>
	T& stored()
	{
		using O = std::conditional_t<std::is_same_v<T, Base>, Derived, T>;
		static O o{};
		return o;
	}
	struct Fin
	{
		template <typename Ret, typename... A>
		Ret finalize_call(const mimicpp::call::Info<Ret, A...>&) const
		{
			if constexpr (std::is_void_v<Ret>) return;
			else if constexpr (std::is_reference_v<Ret>) return static_cast<Ret>(stored<std::remove_cvref_t<Ret>>());
			else return std::remove_cv_t<Ret>{};
		}
	};

	// ---- generated declarations ----------------------------------------------------------------------------------
	struct CallPath
	{
		const char* text;
		int overload;
		void (*call)(void*, Src&, WantCall&, const Loc*);
	};
	struct SetUp
	{
		const char* text;
		int overload;
		std::vector<int> args; // argument index of each requirement, -1: policy
		Handle (*make)(void*, Exp&, int);      // forms: 0 default location, 1 explicit
		void (*scoped)(void*, Exp&, int);      // forms: 0 prefixed macro, 1 short macro
	};
	struct Overload
	{
		const char* text;
		int cat, cst;
		bool nx;
		std::type_index ret;
	};
	struct MockDecl
	{
		std::shared_ptr<void> (*make)();
		std::string text;
		std::vector<Overload> overloads;
		std::vector<CallPath> calls;
		std::vector<SetUp> setups;
	};
	inline std::vector<MockDecl>& decls()
	{
		static std::vector<MockDecl> d{};
		return d;
	}
	struct Add
	{
		explicit Add(MockDecl (*f)()) { decls().push_back(f()); }
	};

	template <typename R>
	struct Caller;
	template <typename R, typename... P>
	struct Caller<R(P...)>
	{
		template <typename F>
		static void go(F f, Src& s, WantCall& w)
		{
			std::tuple<std::unique_ptr<Arg<P>>...> a{std::make_unique<Arg<P>>(s)...};
			run(f, w, a, std::index_sequence_for<P...>{});
		}
		template <typename F, typename A, std::size_t... i>
		static void run(F& f, WantCall& w, A& a, std::index_sequence<i...>)
		{
			w.ret = typeid(R);
			(w.types.push_back(typeid(P)), ...);
			(w.values.push_back(reference(std::get<i>(a)->v)), ...);
			f(std::get<i>(a)->give()...);
		}
	};

	inline std::string show(const Loc& l) { return std::string{l.file_name()} + ":" + std::to_string(l.line()) + ":" + l.function_name(); }

	inline bool sameLoc(const Loc& got, const Loc& want, bool exact)
	{
		return got.line() == want.line() && std::string{got.file_name()} == want.file_name() && std::string{got.function_name()} == want.function_name()
			&& (!exact || got.column() == want.column());
	}

	inline long occurrences(const std::string& text, const std::string& part)
	{
		if (part.empty()) return 0;
		long n = 0;
		for (std::size_t p = text.find(part); p != std::string::npos; p = text.find(part, p + 1)) ++n;
		return n;
	}

	// each of these texts appears as often as it has to
	inline void requireTexts(const std::string& text, const std::vector<std::string>& parts, const std::string& what)
	{
		for (const auto& p : parts)
		{
			long want = 0;
			for (const auto& q : parts) want += occurrences(q, p);
			if (occurrences(text, p) < want) pbt::fail(what + " states '" + p + "' " + std::to_string(occurrences(text, p)) + " times instead of " + std::to_string(want) + " times: " + text);
		}
	}

	struct NoMatch
	{
	};

	struct World
	{
		const MockDecl& d;
		Src& s;
		Case& c;
		std::vector<std::unique_ptr<Exp>> exps{};
		const Overload* called{};
		WantCall want{};
		int verdicts{}, throwing{};
		std::string note{};
		bool inCall{};
		int ended{-1};     // the expectation that ends
		int endReports{};

		World(const MockDecl& decl, Src& src, Case& cs) : d{decl}, s{src}, c{cs} { world = this; }
		~World() { world = nullptr; }

		void problem(const std::string& m)
		{
			if (note.empty()) note = m;
		}
		template <typename F>
		void guarded(F f)
		{
			try
			{
				f();
			}
			catch (const pbt::Failure& x)
			{
				problem(x.msg);
			}
		}

		static std::string verbalize(int n) { return n == 0 ? "never" : n == 1 ? "once" : n == 2 ? "twice" : std::to_string(n) + " times"; }
		static std::string times(const Exp& e)
		{
			if (e.count == e.max) return "already saturated (matched " + verbalize(e.count) + ")";
			if (e.min <= e.count) return "accepts further matches (matched " + std::to_string(e.count) + " out of " + std::to_string(e.max) + " times)";
			return "matched " + verbalize(e.count) + " - "
				+ (e.min < e.max ? "between " + std::to_string(e.min) + " and " + std::to_string(e.max) + " times" : "exactly " + verbalize(e.max)) + " is expected";
		}

		static constexpr const char* cats[]{"", "lvalue", "rvalue", "any"};
		static constexpr const char* csts[]{"", "mutable", "const", "any"};

		std::vector<std::pair<bool, std::string>> wantReqs(const Exp& e, bool call) const
		{
			const Overload& o = d.overloads[static_cast<std::size_t>(e.overload)];
			std::vector<std::pair<bool, std::string>> r{
				{!call || (o.cat & called->cat) != 0, std::string{"expect: from "} + cats[o.cat] + " category overload"},
				{!call || (o.cst & called->cst) != 0, std::string{"expect: from "} + csts[o.cst] + " qualified overload"}};
			for (const auto& q : e.reqs)
				if (q->described) r.emplace_back(!call || q->accept, q->full());
			std::ranges::sort(r);
			return r;
		}

		void checkCall(const mimicpp::CallReport& r)
		{
			pbt::require(r.returnTypeIndex == *want.ret, "the call report states a wrong return type");
			pbt::require(r.argDetails.size() == want.types.size(), "the call report states a wrong number of arguments");
			std::vector<std::string> parts;
			for (std::size_t i = 0; i < want.types.size(); ++i)
			{
				pbt::require(r.argDetails[i].typeIndex == want.types[i], "the call report states argument " + std::to_string(i) + " as of type " + r.argDetails[i].typeIndex.name() + " instead of " + want.types[i].name());
				pbt::require(r.argDetails[i].stateString == want.values[i], "the call report states argument " + std::to_string(i) + " as '" + r.argDetails[i].stateString + "' instead of '" + want.values[i] + "'");
				parts.push_back("value: " + want.values[i]);
				parts.push_back(std::string{"type: "} + want.types[i].name());
			}
			pbt::require(sameLoc(r.fromLoc, want.here, want.exact), "the call report states location " + show(r.fromLoc) + " instead of " + show(want.here));
			pbt::require(static_cast<int>(r.fromCategory == mimicpp::ValueCategory::any ? 3 : r.fromCategory == mimicpp::ValueCategory::lvalue ? 1 : 2) == called->cat, "the call report states a wrong value category");
			pbt::require(static_cast<int>(r.fromConstness == mimicpp::Constness::any ? 3 : r.fromConstness == mimicpp::Constness::as_const ? 2 : 1) == called->cst, "the call report states a wrong constness");
			const std::string text = mimicpp::print(r);
			requireTexts(text, parts, "the text of the call report");
			requireTexts(text, {r.fromLoc.file_name(), std::to_string(r.fromLoc.line()), r.fromLoc.function_name(), cats[called->cat], csts[called->cst], want.ret->name()}, "the text of the call report");
		}

		// does the report describe this expectation (in its present state)?
		std::string differs(const mimicpp::MatchReport& r, const Exp& e)
		{
			if (!r.sourceLocation || !sameLoc(*r.sourceLocation, e.exact ? e.loc : e.here, e.exact)) return "location";
			std::vector<std::pair<bool, std::string>> got;
			for (const auto& x : r.expectationReports)
				if (x.description) got.emplace_back(x.isMatching, *x.description);
			std::ranges::sort(got);
			const auto w = wantReqs(e, true);
			if (got != w)
			{
				std::string t = "requirements {";
				for (const auto& [ok, x] : got) t += (ok ? " +" : " -") + x;
				t += " } instead of {";
				for (const auto& [ok, x] : w) t += (ok ? " +" : " -") + x;
				return t + " }";
			}
			std::size_t rejecting = 0;
			for (const auto& q : e.reqs) rejecting += !q->accept && !q->described;
			std::size_t undescribed = 0;
			for (const auto& x : r.expectationReports) undescribed += !x.isMatching && !x.description;
			if (rejecting != undescribed) return "requirements without description";
			int min{}, max{}, count{}, state{};
			std::visit([&](const auto& x) {
				using X = std::remove_cvref_t<decltype(x)>;
				min = x.min;
				max = x.max;
				count = x.count;
				state = std::is_same_v<X, mimicpp::state_saturated> ? 2 : std::is_same_v<X, mimicpp::state_applicable> ? 1 : 0;
			}, r.controlReport);
			if (min != e.min || max != e.max || count != e.count || state != (e.count == e.max ? 2 : 1))
				return "limits " + std::to_string(min) + ".." + std::to_string(max) + ", " + std::to_string(count) + " matches, standing " + std::to_string(state);
			return "";
		}

		void checkText(const mimicpp::MatchReport& r, const Exp& e)
		{
			const std::string text = mimicpp::print(r);
			std::vector<std::string> good, bad;
			for (const auto& [ok, t] : wantReqs(e, true)) (ok ? good : bad).push_back(t);
			std::vector<std::string> all{good};
			all.insert(all.end(), bad.begin(), bad.end());
			requireTexts(text, all, "the text of a match report");
			requireTexts(text, {r.sourceLocation->file_name(), std::to_string(r.sourceLocation->line()), r.sourceLocation->function_name()}, "the text of a match report");
			bool accepts = true;
			for (const auto& x : r.expectationReports) accepts = accepts && x.isMatching;
			if (accepts && e.count == e.max) requireTexts(text, {times(e)}, "the text of a match report");
		}

		void checkMatches(const std::vector<mimicpp::MatchReport>& rs)
		{
			std::vector<bool> used(exps.size());
			for (const auto& r : rs)
			{
				std::string why = "it describes none of the living expectations";
				bool found = false;
				for (std::size_t i = 0; i < exps.size() && !found; ++i)
				{
					if (used[i] || !exps[i]->living) continue;
					const std::string x = differs(r, *exps[i]);
					if (x.empty())
					{
						used[i] = found = true;
						checkText(r, *exps[i]);
					}
					else if (x != "location") why = "expectation " + std::to_string(exps[i]->id) + ": " + x;
				}
				pbt::require(found, "a listed report is wrong (" + why + "): " + mimicpp::print(r));
			}
		}

		Exp* answering()
		{
			for (auto it = exps.rbegin(); it != exps.rend(); ++it)
			{
				Exp& e = **it;
				if (!e.living || &d.overloads[static_cast<std::size_t>(e.overload)] != called || e.count == e.max) continue;
				if (std::ranges::all_of(e.reqs, [](const auto& q) { return q->accept && !q->throws; })) return &e;
			}
			return nullptr;
		}

		void verdict(const mimicpp::CallReport& c2, const std::vector<mimicpp::MatchReport>& rs, int kind)
		{
			++verdicts;
			if (!inCall) return problem("a verdict outside of a call");
			guarded([&] {
				checkCall(c2);
				checkMatches(rs);
				const Exp* e = answering();
				pbt::require((kind == 2) == (e != nullptr), "wrong kind of verdict");
			});
		}

		void expectationReport(const mimicpp::ExpectationReport& r, const Exp& e)
		{
			pbt::require(r.sourceLocation && sameLoc(*r.sourceLocation, e.exact ? e.loc : e.here, e.exact),
				"the report of an expectation states location " + (r.sourceLocation ? show(*r.sourceLocation) : "nowhere") + " instead of " + show(e.exact ? e.loc : e.here));
			std::vector<std::string> got, w;
			for (const auto& x : r.expectationDescriptions)
				if (x) got.push_back(*x);
			for (const auto& [ok, x] : wantReqs(e, false)) w.push_back(x);
			std::ranges::sort(got);
			std::ranges::sort(w);
			pbt::require(got == w, "the report of an expectation states other requirements than it has: " + mimicpp::print(r));
			pbt::require(r.timesDescription && *r.timesDescription == times(e), "the report of an expectation states '" + r.timesDescription.value_or("nothing") + "' instead of '" + times(e) + "'");
			const std::string text = mimicpp::print(r);
			requireTexts(text, w, "the text of an expectation report");
			requireTexts(text, {r.sourceLocation->file_name(), std::to_string(r.sourceLocation->line()), r.sourceLocation->function_name()}, "the text of an expectation report");
			requireTexts(text, {times(e)}, "the text of an expectation report");
		}

		// ---- operations -------------------------------------------------------------------------------------------
		std::string awkward()
		{
			static const char* const texts[]{"is odd", "is odd", "is even", "", "{}", "{0} {", "with\nbreak", "a longer description, which does not fit into the small buffer", "x", "\xc3\xa4", "failed:", "passed:\n", "}\n"};
			return texts[s.draw(13)];
		}

		static const Loc& elsewhere(Src& s)
		{
			static const Loc locs[]{Loc::current(), Loc::current(), Loc{},
				Loc::current(), Loc::current()};
			return locs[s.draw(5)];
		}

		void step(void* mock)
		{
			pbt::Span span{s};
			const auto op = s.weighted({4, 6, 2, 1, 3});
			if (op == 0 || op == 4 || (op == 1 && exps.empty()))
			{
				const SetUp& u = d.setups[s.draw(static_cast<std::uint32_t>(d.setups.size()))];
				auto e = std::make_unique<Exp>();
				e->id = static_cast<int>(exps.size());
				e->overload = u.overload;
				for (const int a : u.args)
				{
					auto q = std::make_shared<Req>();
					q->arg = a;
					q->text = awkward();
					q->accept = !s.coin(1, 4);
					q->throws = s.coin(1, 24);
					q->described = a >= 0 || !s.coin(1, 4);
					e->reqs.push_back(q);
				}
				e->min = s.range(0, 3);
				e->max = e->min + s.range(0, 2);
				if (e->max == 0) e->max = 1;
				e->loc = elsewhere(s);
				const bool scoped = s.coin(1, 6);
				const int form = s.range(0, 1);
				c.log("set up " + std::to_string(e->id) + ": " + u.text + " on " + d.overloads[static_cast<std::size_t>(u.overload)].text + ", " + std::to_string(e->min) + ".." + std::to_string(e->max)
					+ (scoped ? ", through a macro" : form ? ", explicit location" : ""));
				Exp& x = *e;
				exps.push_back(std::move(e));
				ended = x.id;
				endReports = 0;
				x.living = true;
				if (scoped)
				{
					u.scoped(mock, x, form);
					x.living = false;
					c.label("set-ups through a macro");
					pbt::require(endReports == (x.min > 0), "wrong number of reports at the end of a scope");
				}
				else
				{
					x.exact = form == 1;
					x.handle = u.make(mock, x, form);
					pbt::require(sameLoc(x.handle->from(), x.exact ? x.loc : x.here, x.exact), "the expectation states location " + show(x.handle->from()) + " instead of " + show(x.exact ? x.loc : x.here));
				}
			}
			else if (op == 1)
			{
				const CallPath& p = d.calls[s.draw(static_cast<std::uint32_t>(d.calls.size()))];
				called = &d.overloads[static_cast<std::size_t>(p.overload)];
				Exp* const e = answering();
				if (called->nx && !e) return; // the report could not leave the call
				want = {};
				verdicts = 0;
				Loc loc = elsewhere(s);
				const bool exact = s.coin(1, 3);
				want.exact = exact;
				want.here = loc;
				c.log(std::string{"call "} + p.text + " of " + called->text + (exact ? ", explicit location" : ""));
				inCall = true;
				bool failed = false;
				try
				{
					p.call(mock, s, want, exact ? &loc : nullptr);
				}
				catch (const NoMatch&)
				{
					failed = true;
				}
				inCall = false;
				pbt::require(note.empty(), note);
				pbt::require(verdicts == 1 && failed == (e == nullptr), "wrong verdict");
				if (e) ++e->count;
				c.label(e ? "answered" : "failed");
				c.label("calls");
				if (verdicts == 1) c.nontrivial = c.nontrivial || exps.size() > 1;
			}
			else if (exps.empty()) return;
			else if (op == 2)
			{
				Exp& e = *exps[s.draw(static_cast<std::uint32_t>(exps.size()))];
				if (e.reqs.empty()) return;
				auto& q = *e.reqs[s.draw(static_cast<std::uint32_t>(e.reqs.size()))];
				q.accept = !q.accept;
				c.log("a requirement of " + std::to_string(e.id) + " now " + (q.accept ? "accepts" : "rejects"));
			}
			else
			{
				Exp& e = *exps[s.draw(static_cast<std::uint32_t>(exps.size()))];
				end(e);
			}
			pbt::require(note.empty(), note);
		}

		void end(Exp& e)
		{
			if (!e.living) return;
			c.log("end " + std::to_string(e.id));
			ended = e.id;
			endReports = 0;
			delete e.handle.release();
			e.living = false;
			pbt::require(note.empty(), note);
			pbt::require(endReports == (e.count < e.min), "wrong number of reports at the end of an expectation");
		}
	};

	class Reporter final
		: public mimicpp::IReporter
	{
	public:
		[[noreturn]] void report_no_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> reports) override
		{
			if (world) world->verdict(call, reports, 0);
			throw NoMatch{};
		}
		[[noreturn]] void report_inapplicable_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> reports) override
		{
			if (world) world->verdict(call, reports, 1);
			throw NoMatch{};
		}
		void report_full_match(mimicpp::CallReport call, mimicpp::MatchReport report) noexcept override
		{
			if (world) world->verdict(call, {report}, 2);
		}
		void report_unfulfilled_expectation(mimicpp::ExpectationReport report) override
		{
			if (!world) return;
			++world->endReports;
			world->guarded([&] {
				pbt::require(world->ended >= 0, "an unexpected report of an unfulfilled expectation");
				world->expectationReport(report, *world->exps[static_cast<std::size_t>(world->ended)]);
			});
		}
		void report_error(mimicpp::StringT m) override
		{
			if (world) world->problem("error: " + m);
		}
		void report_unhandled_exception(mimicpp::CallReport call, mimicpp::ExpectationReport report, std::exception_ptr) override
		{
			if (!world) return;
			world->c.label("throwing requirements");
			world->guarded([&] {
				world->checkCall(call);
				std::string why;
				for (const auto& e : world->exps)
				{
					if (!e->living || std::ranges::none_of(e->reqs, &Req::throws)) continue;
					try
					{
						world->expectationReport(report, *e);
						return;
					}
					catch (const pbt::Failure& x)
					{
						why = x.msg;
					}
				}
				pbt::fail("the report of an expectation with a throwing requirement is wrong: " + why);
			});
		}
	};

	inline void run(Src& s, Case& c)
	{
		static const bool installed = [] {
			mimicpp::install_reporter<Reporter>();
			return true;
		}();
		(void)installed;
		const MockDecl& d = decls()[s.draw(static_cast<std::uint32_t>(decls().size()))];
		c.log("mock of " + d.text);
		auto mock = d.make();
		World w{d, s, c};
		for (int n = s.range(3, 14); n > 0; --n) w.step(mock.get());
		for (auto& e : w.exps) w.end(*e);
	}
}
