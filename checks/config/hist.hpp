// C25: what the histories work with; the expectations themselves are generated (gen_config.py).
#pragma once
#include "cfg.hpp"

#ifdef MIMICPP_CONFIG_ONLY_PREFIXED_MACROS
#if defined(SCOPED_EXP) || defined(MOCK_METHOD) || defined(MOCK_OVERLOADED_METHOD) || defined(ADD_OVERLOAD)
#error "a shorthand macro is defined, although only prefixed macros are wanted"
#endif
#define X_SCOPED MIMICPP_SCOPED_EXPECTATION
#define X_METHOD MIMICPP_MOCK_METHOD
#define X_OVERLOADED MIMICPP_MOCK_OVERLOADED_METHOD
#define X_ADD MIMICPP_ADD_OVERLOAD
#else
#define X_SCOPED SCOPED_EXP
#define X_METHOD MOCK_METHOD
#define X_OVERLOADED MOCK_OVERLOADED_METHOD
#define X_ADD ADD_OVERLOAD
#endif

namespace cfg
{
	namespace m = mimicpp;
	namespace matches = mimicpp::matches;
	namespace expect = mimicpp::expect;
	namespace finally = mimicpp::finally;
	namespace then = mimicpp::then;
	using Handle = std::unique_ptr<m::ScopedExpectation>;

	inline Trace* now{}; // the trace of the running case

	inline std::string stateOf(const m::control_state_t& s)
	{
		std::ostringstream o;
		const auto tags = [&](const char* what, const std::vector<m::sequence::Tag>& v) { o << what << v.size(); };
		if (const auto* a = std::get_if<m::state_applicable>(&s))
		{
			o << "applicable " << a->min << ' ' << a->max << ' ' << a->count << ' ' << a->sequenceRatings.size();
			for (auto& r : a->sequenceRatings) o << ' ' << r.priority;
		}
		else if (const auto* i = std::get_if<m::state_inapplicable>(&s))
		{
			o << "inapplicable " << i->min << ' ' << i->max << ' ' << i->count << ' ' << i->sequenceRatings.size();
			for (auto& r : i->sequenceRatings) o << ' ' << r.priority;
			tags(" / ", i->inapplicableSequences);
		}
		else if (const auto* d = std::get_if<m::state_saturated>(&s))
		{
			o << "saturated " << d->min << ' ' << d->max << ' ' << d->count;
			tags(" / ", d->sequences);
		}
		return o.str();
	}

	inline void note(const m::CallReport& c)
	{
		now->put("call", m::print(c));
		now->put("line", c.fromLoc.line());
		for (auto& a : c.argDetails) now->put("argument", a.stateString);
		now->put("category", static_cast<int>(c.fromCategory));
		now->put("constness", static_cast<int>(c.fromConstness));
	}
	inline void note(const m::MatchReport& r)
	{
		now->put("match", m::print(r));
		now->put("state", stateOf(r.controlReport));
		now->put("outcome", r.finalizeReport.description.value_or("-"));
		for (auto& e : r.expectationReports) now->put(e.isMatching ? "passed" : "failed", e.description.value_or("-"));
	}
	inline void note(const m::ExpectationReport& r)
	{
		now->put("expectation", m::print(r));
		now->put("times", r.timesDescription.value_or("-"));
		now->put("outcome", r.finalizerDescription.value_or("-"));
		for (auto& e : r.expectationDescriptions) now->put("requires", e.value_or("-"));
	}

	struct NoAnswer
	{
		int kind;
	};

	// the texts of the reports, by the library's own reporter
	struct Text
	{
		std::string text;
	};
	inline std::string lastText;
	using Texts = m::BasicReporter<
		[](const m::StringT& t) { lastText = t; },
		[](const m::StringT& t) { lastText = t; },
		[](const m::StringT& t) { throw Text{t}; }>;
	std::string text(auto&& report)
	{
		lastText = "(none)";
		try
		{
			Texts t{};
			report(t);
		}
		catch (const Text& x)
		{
			lastText = x.text;
		}
		return lastText;
	}

	class Reporter final : public m::IReporter
	{
	public:
		[[noreturn]] void report_no_matches(m::CallReport call, std::vector<m::MatchReport> v) override
		{
			now->put("report", "no match");
			note(call);
			for (auto& r : v) note(r);
			now->put("text", text([&](auto& t) { t.report_no_matches(call, v); }));
			throw NoAnswer{1};
		}
		[[noreturn]] void report_inapplicable_matches(m::CallReport call, std::vector<m::MatchReport> v) override
		{
			now->put("report", "inapplicable");
			note(call);
			for (auto& r : v) note(r);
			now->put("text", text([&](auto& t) { t.report_inapplicable_matches(call, v); }));
			throw NoAnswer{2};
		}
		void report_full_match(m::CallReport call, m::MatchReport r) noexcept override
		{
			now->put("report", "match");
			note(call);
			note(r);
			now->put("text", text([&](auto& t) { t.report_full_match(call, r); }));
			now->content = true;
		}
		void report_unfulfilled_expectation(m::ExpectationReport r) override
		{
			now->put("report", "unfulfilled");
			note(r);
			now->put("text", text([&](auto& t) { t.report_unfulfilled_expectation(r); }));
		}
		void report_error(m::StringT t) override
		{
			now->put("report", "error");
			now->put("text", t);
		}
		void report_unhandled_exception(m::CallReport call, m::ExpectationReport r, std::exception_ptr p) override
		{
			now->put("report", "exception");
			note(call);
			note(r);
			now->put("text", text([&](auto& t) { t.report_unhandled_exception(call, r, p); }));
		}
	};

	// ---- user parts -------------------------------------------------------------------------------------------------
	struct Odd
	{
		template <typename T>
		bool matches(const T& v) const { return v % 2 != 0; }
		std::string describe() const { return "is odd {}"; }
	};
	struct Raising // raises for one value
	{
		int at;
		bool matches(const int& v) const
		{
			if (v == at) throw std::runtime_error{"raised"};
			if (v == at + 1) throw 42;
			return true;
		}
		std::string describe() const { return "raises at " + std::to_string(at); }
	};
	struct Silent
	{
		bool matches(const int&) const { return true; }
		std::nullopt_t describe() const { return std::nullopt; }
	};
	struct Policy // a requirement of its own
	{
		bool satisfied;
		bool accepting;
		bool described;
		bool is_satisfied() const noexcept { return satisfied; }
		template <typename I>
		bool matches(const I&) const { return accepting; }
		std::optional<std::string> describe() const { return described ? std::optional<std::string>{"policy"} : std::nullopt; }
		template <typename I>
		void consume(I&) { now->put("consumed", "policy"); }
	};
	struct Counter // reads the description argument
	{
		bool operator ()(const int& v) const { return v >= 0; }
	};

	class Interface
	{
	public:
		virtual ~Interface() = default;
		virtual int plain(int) = 0;
		virtual int constant(int, const std::string&) const = 0;
		virtual void over(int) = 0;
		virtual int over(std::string) const noexcept = 0;
	};
	class Implementation final : public Interface
	{
	public:
		~Implementation() override = default;
		X_METHOD(plain, int, (int));
		X_METHOD(constant, int, (int, const std::string&), const);
		X_OVERLOADED(over, X_ADD(void, (int)), X_ADD(int, (std::string), const noexcept));
	};

	struct World
	{
		m::Mock<int(int)> a{};
		m::Mock<int(int), int(int) const> b{};
		m::Mock<int(int)&, int(int) const&, int(int)&&, int(int) const&&> c{};
		m::Mock<void(std::vector<int>)> dv{};
		m::Mock<void(std::string)> ds{};
		m::Mock<int(std::optional<int>) const> dn{};
		m::Mock<const int&(const int&, int&)> e{};
		m::Mock<std::unique_ptr<int>(std::unique_ptr<int>)> f{};
		Implementation iface{};
		std::vector<std::shared_ptr<m::SequenceT>> lazy{};
		std::vector<std::shared_ptr<m::GreedySequence>> greedy{};
		std::vector<Handle> handles{};
	};

	template <typename B>
	Handle keep(B&& b, const Loc& loc = Loc::current())
	{
		return std::make_unique<m::ScopedExpectation>(std::forward<B>(b), loc);
	}

	// one generated expectation
	using Shape = void (*)(Src&, World&);
	inline std::vector<std::pair<int, Shape>>& shapes()
	{
		static std::vector<std::pair<int, Shape>> v{};
		return v;
	}
	struct AddShape
	{
		AddShape(int n, Shape f) { shapes().emplace_back(n, f); }
	};
	inline m::SequenceT& lazyOf(Src& s, World& w) { return *w.lazy[s.draw(static_cast<std::uint32_t>(w.lazy.size()))]; }
	inline m::GreedySequence& greedyOf(Src& s, World& w) { return *w.greedy[s.draw(static_cast<std::uint32_t>(w.greedy.size()))]; }
}
