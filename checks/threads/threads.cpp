// C24: threads set up, use and end their own expectations on shared mocks.
// A case is a random program per thread; expectations accept only arguments of their own thread, so that a sequential model
// per thread predicts every result.  Compiled with ThreadSanitizer.
#include "../../lib/pbt.hpp"
#include <mimic++/mimic++.hpp>

#include <atomic>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

namespace
{
	using pbt::Case;
	using pbt::Src;
	namespace expect = mimicpp::expect;
	namespace finally = mimicpp::finally;
	namespace matches = mimicpp::matches;
	namespace then = mimicpp::then;

	template <typename... T>
	std::string str(const T&... x)
	{
		std::ostringstream o;
		(o << ... << x);
		return o.str();
	}

	constexpr int kSlots = 4;
	constexpr int kMocks = 3; // Mock<int(int)>, Mock with two overloads, Mock<void(const std::string&)>
	enum Op { oSetup, oCall, oEnd, oMove, oQuery, oPause, oMany };
	// forms: 0 a value, 1 any argument of the thread, 2 value through expect::arg, 3 like 0 with a side effect that uses the mock

	struct Step
	{
		int op{}, slot{}, mock{}, value{}, lo{1}, hi{1}, form{}, other{}, n{};
	};
	struct Thread
	{
		std::vector<Step> steps{};
		std::vector<Step> given{};  // set up by the main thread, handed over
		std::vector<Step> late{};   // calls of the main thread on what is left, after the thread has ended
	};

	std::string show(const Step& s)
	{
		switch (s.op)
		{
		case oSetup: return str("slot ", s.slot, " = expect mock ", s.mock, " arg ", s.value, " times ", s.lo, "..", s.hi, " form ", s.form);
		case oCall: return str("call mock ", s.mock, " arg ", s.value);
		case oEnd: return str("end slot ", s.slot);
		case oMove: return str("slot ", s.slot, " = move(slot ", s.other, ")");
		case oQuery: return str("query slot ", s.slot);
		case oPause: return str("pause ", s.n);
		case oMany: return str("set up and end ", s.n, " expectations on mock ", s.mock);
		}
		return "?";
	}

	// the value as the mocks' argument
	int arg(int thread, int v) { return (thread + 1) * 100 + v; }

	// ---- model --------------------------------------------------------------------------------------------------------
	struct Model
	{
		struct Exp
		{
			Step s{};
			int count{};
			int id{};
		};
		int thread{};
		std::vector<Exp> live{}; // in order of creation
		int slots[kSlots]{-1, -1, -1, -1};
		int next{};
		std::vector<std::string> events{};
		int matched{}, failed{}, unfulfilled{};

		Exp* find(int id)
		{
			for (Exp& e : live)
				if (e.id == id) return &e;
			return nullptr;
		}
		void end(int slot)
		{
			const int id = std::exchange(slots[slot], -1);
			if (id < 0)
			{
				events.push_back("-");
				return;
			}
			const Exp e = *find(id);
			std::erase_if(live, [&](const Exp& x) { return x.id == id; });
			const bool ok = e.count >= e.s.lo;
			unfulfilled += !ok;
			events.push_back(ok ? "fulfilled" : "unfulfilled");
		}
		void step(const Step& s)
		{
			switch (s.op)
			{
			case oSetup:
				end(s.slot);
				live.push_back({s, 0, next});
				slots[s.slot] = next++;
				break;
			case oCall:
			{
				Exp* best = nullptr;
				bool inapplicable = false;
				for (auto it = live.rbegin(); it != live.rend() && !best; ++it)
					if (it->s.mock == s.mock && (it->s.form == 1 || it->s.value == s.value))
					{
						if (it->count < it->s.hi) best = &*it;
						else inapplicable = true;
					}
				if (best)
				{
					++best->count;
					++matched;
					if (best->s.form == 3) events.push_back("fulfilled");
					events.push_back(str("answer ", best->id));
				}
				else
				{
					++failed;
					events.push_back(inapplicable ? "inapplicable" : "no match");
				}
				break;
			}
			case oEnd: end(s.slot); break;
			case oMove:
				if (s.slot != s.other)
				{
					end(s.slot);
					slots[s.slot] = std::exchange(slots[s.other], -1);
				}
				break;
			case oQuery:
				if (slots[s.slot] >= 0)
				{
					const Exp& e = *find(slots[s.slot]);
					events.push_back(e.count >= e.s.lo ? "satisfied" : "unsatisfied");
				}
				break;
			case oPause: break;
			case oMany:
				for (int k = 0; k < s.n; ++k) events.push_back("fulfilled");
				break;
			}
		}
	};

	// ---- real execution -----------------------------------------------------------------------------------------------
	struct Shared
	{
		mimicpp::Mock<int(int)> m0{};
		mimicpp::Mock<int(int), int(int) const> m1{};
		mimicpp::Mock<void(const std::string&)> m2{};
	};

	struct Real
	{
		Shared& m;
		int thread{};
		std::optional<mimicpp::ScopedExpectation> slots[kSlots]{};
		int next{};
		int answered{-1};
		std::vector<std::string> events{};

		mimicpp::ScopedExpectation make(const Step& s)
		{
			const int id = next++;
			const int a = arg(thread, s.value);
			// any argument of this thread, or exactly this one
			const auto own = [&] { return matches::predicate([t = thread](int x) { return x / 100 == t + 1; }); };
			const auto done = [&](auto&& b) -> mimicpp::ScopedExpectation { return std::move(b) and finally::returns(id); };
			if (s.mock == 2)
			{
				auto note = then::invoke([this, id] { answered = id; });
				if (s.form == 1)
					return m.m2.expect_call(matches::predicate([t = thread](const std::string& x) { return std::stoi(x) / 100 == t + 1; }))
						and expect::times(s.lo, s.hi) and std::move(note);
				return m.m2.expect_call(std::to_string(a)) and expect::times(s.lo, s.hi) and std::move(note);
			}
			if (s.mock == 1)
			{
				if (s.form == 1) return done(std::as_const(m.m1).expect_call(own()) and expect::times(s.lo, s.hi));
				return done(std::as_const(m.m1).expect_call(a) and expect::times(s.lo, s.hi));
			}
			if (s.form == 1) return done(m.m0.expect_call(own()) and expect::times(s.lo, s.hi));
			if (s.form == 3)
				return done(m.m0.expect_call(a) and expect::times(s.lo, s.hi) and then::invoke([this, s] {
					// nothing is held while side effects run
					if (s.n % 3) within(s);
					else std::thread{[this, s] { within(s); }}.join();
				}));
			if (s.form == 2) return done(m.m0.expect_call(matches::_) and expect::times(s.lo, s.hi) and expect::arg<0>(matches::eq(a)));
			return done(m.m0.expect_call(a) and expect::times(s.lo, s.hi));
		}

		std::string end(std::optional<mimicpp::ScopedExpectation>& e)
		{
			if (!e) return "-";
			// the handle's destructor reports
			try
			{
				const mimicpp::ScopedExpectation last{*std::move(e)};
				e.reset();
			}
			catch (const mimicpp::UnfulfilledExpectationT&)
			{
				return "unfulfilled";
			}
			return "fulfilled";
		}

		// sets up and ends an expectation
		void within(const Step& s)
		{
			Step x{};
			x.mock = s.mock;
			x.lo = 0;
			std::optional<mimicpp::ScopedExpectation> e{make(x)};
			--next;
			events.push_back(end(e));
		}

		void step(const Step& s)
		{
			auto& slot = slots[s.slot];
			switch (s.op)
			{
			case oSetup:
				events.push_back(end(slot));
				slot.emplace(make(s));
				break;
			case oCall:
				try
				{
					const int a = arg(thread, s.value);
					answered = -1;
					if (s.mock == 0) answered = m.m0(a);
					else if (s.mock == 1) answered = std::as_const(m.m1)(a);
					else m.m2(std::to_string(a));
					events.push_back(str("answer ", answered));
				}
				catch (const mimicpp::UnmatchedCallT& e)
				{
					bool inapplicable = false;
					for (const auto& r : std::get<1>(e.data())) inapplicable |= mimicpp::evaluate_match_report(r) == mimicpp::MatchResult::inapplicable;
					events.push_back(inapplicable ? "inapplicable" : "no match");
				}
				break;
			case oEnd: events.push_back(end(slot)); break;
			case oMove:
				if (s.slot != s.other)
				{
					events.push_back(end(slot));
					if (slots[s.other])
					{
						slot.emplace(*std::move(slots[s.other]));
						slots[s.other].reset();
					}
				}
				break;
			case oQuery:
				if (slot) events.push_back(slot->is_satisfied() ? "satisfied" : "unsatisfied");
				break;
			case oPause:
				if (s.n == 0) std::this_thread::yield();
				else
					for (volatile int k = 0; k < s.n * 200; k = k + 1) {}
				break;
			case oMany:
				for (int k = 0; k < s.n; ++k) within(s);
				break;
			}
		}
	};

	std::vector<Step> genSteps(Src& src, int n, bool setups)
	{
		std::vector<Step> v;
		for (int k = 0; k < n; ++k)
		{
			const pbt::Span span{src};
			Step s{};
			s.op = static_cast<int>(src.weighted({setups ? 7 : 0, 10, 2, 1, 1, 2, setups ? 1 : 0}));
			s.slot = static_cast<int>(src.draw(kSlots));
			s.other = static_cast<int>(src.draw(kSlots));
			s.mock = static_cast<int>(src.weighted({5, 2, 2}));
			s.value = static_cast<int>(src.draw(2));
			s.form = static_cast<int>(src.weighted({3, 1, 2, 1}));
			if (s.mock != 0 && s.form >= 2) s.form = 0;
			s.lo = static_cast<int>(src.weighted({2, 4, 1}));
			s.hi = std::max(1, s.lo + static_cast<int>(src.weighted({4, 2, 2})));
			s.n = static_cast<int>(src.draw(6));
			v.push_back(s);
		}
		return v;
	}

	void run(Src& src, Case& c)
	{
		const int n = 2 + static_cast<int>(src.draw(3));
		std::vector<Thread> threads(static_cast<std::size_t>(n));
		std::string text;
		int most = 0;
		for (int t = 0; t < n; ++t)
		{
			const pbt::Span span{src};
			Thread& x = threads[static_cast<std::size_t>(t)];
			const int g = src.coin(1, 3) ? 1 + static_cast<int>(src.draw(2)) : 0;
			for (Step s : genSteps(src, g, true))
			{
				s.op = oSetup;
				x.given.push_back(s);
			}
			x.steps = genSteps(src, 1 + static_cast<int>(src.draw(16)), true);
			if (src.coin(1, 3)) x.late = genSteps(src, 1 + static_cast<int>(src.draw(3)), false);
			most = std::max(most, static_cast<int>(x.steps.size()));
			for (const Step& s : x.given) text += str("main for thread ", t, ": ", show(s), "\n");
			for (const Step& s : x.steps) text += str("thread ", t, ": ", show(s), "\n");
			for (const Step& s : x.late) text += str("main after thread ", t, ": ", show(s), "\n");
		}
		c.log(text);

		auto shared = std::make_unique<Shared>();
		std::vector<std::unique_ptr<Real>> reals;
		for (int t = 0; t < n; ++t)
		{
			reals.push_back(std::make_unique<Real>(Real{*shared, t}));
			for (const Step& s : threads[static_cast<std::size_t>(t)].given) reals.back()->step(s);
		}
		std::atomic<int> ready{};
		{
			std::vector<std::jthread> running;
			for (int t = 0; t < n; ++t)
				running.emplace_back([&, t] {
					ready.fetch_add(1, std::memory_order_relaxed);
					while (ready.load(std::memory_order_relaxed) < n) {}
					for (const Step& s : threads[static_cast<std::size_t>(t)].steps) reals[static_cast<std::size_t>(t)]->step(s);
				});
		}
		int matched = 0, failed = 0;
		for (int t = 0; t < n; ++t)
		{
			Real& r = *reals[static_cast<std::size_t>(t)];
			for (const Step& s : threads[static_cast<std::size_t>(t)].late) r.step(s);
			for (auto& e : r.slots) r.events.push_back(r.end(e));
			Model m{};
			m.thread = t;
			for (const auto* v : {&threads[static_cast<std::size_t>(t)].given, &threads[static_cast<std::size_t>(t)].steps, &threads[static_cast<std::size_t>(t)].late})
				for (const Step& s : *v) m.step(s);
			for (int k = 0; k < kSlots; ++k) m.end(k);
			if (m.events != r.events)
			{
				std::string d;
				for (std::size_t k = 0; k < std::max(m.events.size(), r.events.size()) && d.empty(); ++k)
				{
					const std::string a = k < m.events.size() ? m.events[k] : "(nothing)", b = k < r.events.size() ? r.events[k] : "(nothing)";
					if (a != b) d = str("thread ", t, ", event ", k, ": expected \"", a, "\", got \"", b, "\"");
				}
				pbt::fail(d);
			}
			matched += m.matched > 0;
			failed += m.failed + m.unfulfilled;
		}
		if (matched >= 2 && failed) c.nontrivial = true;
		c.label(matched >= 2 ? "concurrent matches" : "few matches");
	}

	const pbt::Register r24{"C24", run,
		"a case is a random program for each of 2 to 4 threads on shared mocks; non-trivial if at least two threads have calls answered and something fails",
		30000, 1000000, true};
}

int main(int argc, char** argv)
{
	mimicpp::install_reporter<mimicpp::DefaultReporter>();
	return pbt::main(argc, argv);
}
