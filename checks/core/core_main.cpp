// Stateful model-based harness for the matching core: reference model and interpreter in lockstep.
#include "core.hpp"
#include "../../lib/pbt.hpp"

#include <algorithm>
#include <cstring>

using namespace core;
using mimicpp::ScopedExpectation;

std::vector<Shape>& core::shapes()
{
	static std::vector<Shape> s{};
	return s;
}

namespace
{
	struct Profile
	{
		const char* id;
		// what is judged (verdict membership, counts and outcomes are always judged)
		bool order = false;   // which of several eligible expectations answers
		bool lists = false;   // which expectations a verdict report lists
		bool content = false; // what the reports say
		bool ends = true;     // unfulfilled reports at the end of expectations
		bool seqEnds = false; // unfulfilled sequence reports
		bool warn = false;    // unhandled exception reports
		bool leaks = false;
		// generator
		int maxOps = 28;
		int nested = 0;  // weight of nested operations
		int throwing = 1; // dynamic requirements may throw (weight of 16)
		int seqs = 2;
		int maxMocks = 2;
		int wildTimes = 1;
		int moves = 2;
		int drops = 1;
		int toggles = 1;
		int bad = 1; // invalid set-ups
		int longRuns = 1;
		bool crowds = false;
	};

	const Profile profiles[] = {
		{.id = "C01", .throwing = 1, .maxMocks = 3, .crowds = true},
		{.id = "C02", .throwing = 0, .seqs = 1, .maxMocks = 1, .wildTimes = 4, .bad = 5, .longRuns = 4},
		{.id = "C03", .order = true, .throwing = 1, .seqs = 1, .maxMocks = 1, .crowds = true},
		{.id = "C04", .seqEnds = true, .throwing = 0, .seqs = 2, .maxMocks = 2, .drops = 3, .bad = 3, .crowds = true},
		{.id = "C05", .order = true, .throwing = 0, .seqs = 2, .maxMocks = 1, .drops = 0, .crowds = true},
		{.id = "C06", .lists = true, .throwing = 1, .maxMocks = 2, .bad = 0, .crowds = true},
		{.id = "C18", .order = true, .lists = true, .warn = true, .throwing = 8, .maxMocks = 1, .bad = 0},
		{.id = "C21", .leaks = true, .nested = 1, .throwing = 2, .maxMocks = 3, .moves = 8, .drops = 4, .toggles = 1, .bad = 2},
		{.id = "C23", .order = true, .seqEnds = true, .nested = 6, .throwing = 0, .maxMocks = 2},
		{.id = "C26", .lists = true, .throwing = 1, .maxMocks = 2, .toggles = 5},
		{.id = "C27", .lists = true, .content = true, .throwing = 1, .maxMocks = 2},
	};

	struct Unmatched
	{
		bool inapplicable;
		std::size_t frame;
	};

	struct Unfulfilled
	{
		int id;
	};

	struct MSeq
	{
		int id;
		bool greedy;
		int slot;
		bool handle = true;
		int attached = 0; // living expectations
		std::vector<int> entries{};
		int cursor = 0;
		mimicpp::sequence::Tag tag{};
	};

	struct MExp
	{
		int id;
		const Shape* shape;
		Spec spec;
		int group;
		int min = 1;
		int max = 1;
		int count = 0;
		bool living = true;
		int running = 0;
		std::unique_ptr<ScopedExpectation> handle;
		std::vector<std::pair<int, int>> seqs; // sequence, position
		std::vector<Elem> steps;                // effects and custom policies in written order
		Elem fin{};
	};

	struct Args
	{
		int v[2]{};
		std::string s{};
	};

	struct WantExp
	{
		int id;
		std::multiset<std::pair<bool, std::string>> req;
		std::string times;
		int min{}, max{}, count{};
		int state{}; // 0 inapplicable, 1 applicable, 2 saturated
		std::multiset<std::ptrdiff_t> good, bad;
	};

	struct EndReport
	{
		int id;
		mimicpp::ExpectationReport report;
	};

	struct Warning
	{
		int id;
		std::string what;
		mimicpp::CallReport call;
		mimicpp::ExpectationReport report;
	};

	struct Frame
	{
		bool call = false;
		int entry = -1;
		int group = -1;
		Args args{};   // as modified by side effects so far
		Args atCall{}; // as passed
		const Args& argsAtCall() const { return atCall; }
		const void* addr[2]{};
		std::vector<int> eligible, blocked, none, throwing;
		std::set<int> allowed;
		bool determined = false;
		int chosen = -1;
		int verdicts = 0;
		bool failedVerdict = false;
		bool finDone = false;
		std::size_t step = 0;
		std::map<int, WantExp> want;
		// results of the outcome functor
		int wantValue = 0;
		int* wantRef = nullptr;
		std::string wantLoc;
		// observed
		std::vector<EndReport> ends;
		std::vector<std::string> errors;
		std::vector<Warning> warnings;
	};

	enum class Res
	{
		value,
		ref,
		nothing,
		unmatched,
		configured,
		other
	};

	struct Result
	{
		Res kind = Res::other;
		int value = 0;
		int* ref = nullptr;
		Unmatched un{};
		std::string what;
	};

	struct Mock
	{
		int kind = 0;
		void* p = nullptr;
		int group = -1;
		bool alive = false;  // false: destroyed or moved from
		int inCall = 0;
	};

	template <typename F>
	auto withKind(const int kind, F&& f)
	{
		switch (kind)
		{
		case 0: return f(static_cast<M0*>(nullptr));
		case 1: return f(static_cast<M1*>(nullptr));
		case 2: return f(static_cast<M2*>(nullptr));
		case 3: return f(static_cast<M3*>(nullptr));
		default: return f(static_cast<M4*>(nullptr));
		}
	}

	std::string locText(const std::source_location& l)
	{
		return std::string{l.file_name()} + ":" + std::to_string(l.line()) + ":" + std::to_string(l.column()) + ":" + l.function_name();
	}

	int locId(const std::source_location& l)
	{
		static const std::map<std::string, int> ids = []
		{
			std::map<std::string, int> m{};
			for (int i = 0; i < locCount; ++i) m[locText(kLoc[i])] = i;
			return m;
		}();
		const auto it = ids.find(locText(l));
		return it == ids.end() ? -1 : it->second;
	}

	class Machine;
	Machine* active = nullptr;

	class Reporter final
		: public mimicpp::IReporter
	{
	public:
		[[noreturn]] void report_no_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> reports) override;
		[[noreturn]] void report_inapplicable_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> reports) override;
		void report_full_match(mimicpp::CallReport call, mimicpp::MatchReport report) noexcept override;
		void report_unfulfilled_expectation(mimicpp::ExpectationReport report) override;
		void report_error(mimicpp::StringT message) override;
		void report_unhandled_exception(mimicpp::CallReport call, mimicpp::ExpectationReport report, std::exception_ptr exception) override;
	};

	std::string verbalize(const long n)
	{
		if (n == 0) return "never";
		if (n == 1) return "once";
		if (n == 2) return "twice";
		return std::to_string(n) + " times";
	}

	std::string strLit(const std::string& s) { return "\"" + s + "\""; }

	class Machine final
		: public World
	{
	public:
		Machine(const Profile& p, pbt::Src& src, pbt::Case& c)
			: prof{p},
			s{src},
			out{c}
		{
			active = this;
			Token::live().clear();
			Token::misuse() = 0;
		}

		~Machine() override
		{
			// reached with live objects only when the case is abandoned
			teardownQuiet();
			active = nullptr;
		}

		// ---- generation helpers ----------------------------------------------------------------------------
		const Profile& prof;
		pbt::Src& s;
		pbt::Case& out;
		std::vector<Mock> mocks{};
		int groups = 0;
		std::vector<std::unique_ptr<MExp>> exps{};
		std::vector<std::unique_ptr<MSeq>> seqs{};
		std::vector<int> lazySeq{}, greedySeq{}; // model sequence per slot, -1: none
		std::vector<std::unique_ptr<Frame>> frames{};
		std::string note{}; // first problem found inside a callback
		int nextReq = 0;
		int outcomeValue = 5000;
		int depth = 0;
		int nestedBudget = 30;
		bool throwingReporter = false;
		int nLazy = 1, nGreedy = 1;
		std::vector<int> kindShapes[entryCount];
		int focus = 0;
		// facts about the case
		long nCalls = 0, nMatched = 0, nNoMatch = 0, nInapp = 0, nThrew = 0, nNested = 0, nChoice = 0, nSeqChoice = 0, nUnfulfilled = 0, nSeqErr = 0, nMoves = 0, nBad = 0, nCompeting = 0, nSeqBlocked = 0, nCustomVeto = 0, nOrphan = 0, nMultiVote = 0, nDetermined = 0, nSat = 0;
		bool quiet = false;

		void problem(const std::string& m)
		{
			if (note.empty()) note = m;
		}

		void check()
		{
			if (!note.empty()) pbt::fail(note);
		}

		std::string pad() const { return std::string(static_cast<std::size_t>(depth) * 2, ' '); }

		void log(const std::string& m) { out.log(pad() + m); }

		MExp& exp(const int id) { return *exps[static_cast<std::size_t>(id)]; }
		MSeq& seq(const int id) { return *seqs[static_cast<std::size_t>(id)]; }
		Frame& top() { return *frames.back(); }

		std::string name(const int id) { return "e" + std::to_string(id); }

		std::string list(const std::vector<int>& v)
		{
			std::string r = "{";
			for (const int i : v) r += (r.size() > 1 ? "," : "") + name(i);
			return r + "}";
		}

		// ---- model -----------------------------------------------------------------------------------------
		bool minReached(const int e) { return exp(e).count >= exp(e).min; }

		bool consumable(const int sid, const int pos)
		{
			MSeq& q = seq(sid);
			if (pos < q.cursor) return false;
			for (int i = q.cursor; i < pos; ++i)
				if (!minReached(q.entries[static_cast<std::size_t>(i)])) return false;
			return true;
		}

		bool saturated(const int e) { return exp(e).count == exp(e).max; }

		bool blocked(const int e)
		{
			for (const auto& [q, pos] : exp(e).seqs)
				if (!consumable(q, pos)) return true;
			return false;
		}

		// 1 accepts, 0 rejects, -1 throws
		int evalReq(const ReqSpec& r, const Args& a)
		{
			const bool str = entries[0].str && false;
			(void)str;
			const int v = a.v[r.arg];
			const unsigned bit = static_cast<unsigned>(v) & 7u;
			const std::string& t = a.s;
			switch (r.kind)
			{
			case rqWild: return 1;
			case rqDirect:
			case rqEq: return v == r.v;
			case rqNe:
			case rqNotEq: return v != r.v;
			case rqLt: return v < r.v;
			case rqLe:
			case rqNotNotLe: return v <= r.v;
			case rqGt: return v > r.v;
			case rqGe:
			case rqNotLt: return v >= r.v;
			case rqPred: return (r.mask >> bit) & 1u;
			case rqNotPred: return !((r.mask >> bit) & 1u);
			case rqDyn:
			case rqTrait: break; // by the caller
			case rqProjEq: return ((v % 3) + 3) % 3 == r.v;
			case rqStrEq: return t == r.s;
			case rqStrStarts: return t.size() >= r.s.size() && t.compare(0, r.s.size(), r.s) == 0;
			case rqStrEnds: return t.size() >= r.s.size() && t.compare(t.size() - r.s.size(), r.s.size(), r.s) == 0;
			case rqStrContains: return t.find(r.s) != std::string::npos;
			case rqStrNotContains: return t.find(r.s) == std::string::npos;
			}
			return 1;
		}

		int evalReqOf(const MExp& e, const ReqSpec& r, const Args& a)
		{
			const bool str = entries[e.shape->entry].str;
			if (r.kind == rqDyn || r.kind == rqTrait)
			{
				const unsigned bit = str ? static_cast<unsigned>(a.s.size()) & 7u : static_cast<unsigned>(a.v[r.arg]) & 7u;
				if (r.kind == rqDyn && ((r.throwMask >> bit) & 1u)) return -1;
				return (r.mask >> bit) & 1u;
			}
			if (str && r.kind == rqDirect) return a.s == r.s;
			return evalReq(r, a);
		}

		std::string describeReq(const MExp& e, const ReqSpec& r)
		{
			const bool str = entries[e.shape->entry].str;
			const std::string v = std::to_string(r.v);
			std::string d;
			switch (r.kind)
			{
			case rqWild: d = "has no constraints"; break;
			case rqDirect: d = str ? "is equal to " + strLit(r.s) : "== " + v; break;
			case rqEq:
			case rqProjEq: d = "== " + v; break;
			case rqNe:
			case rqNotEq: d = "!= " + v; break;
			case rqLt: d = "< " + v; break;
			case rqLe:
			case rqNotNotLe: d = "<= " + v; break;
			case rqGt: d = "> " + v; break;
			case rqGe:
			case rqNotLt: d = ">= " + v; break;
			case rqPred: d = "passes predicate"; break;
			case rqNotPred: d = "fails predicate"; break;
			case rqDyn: d = "is dynamic#" + std::to_string(r.id); break;
			case rqTrait: d = "is trait#" + std::to_string(r.id); break;
			case rqStrEq: d = "is equal to " + strLit(r.s); break;
			case rqStrStarts: d = "starts with " + strLit(r.s); break;
			case rqStrEnds: d = "ends with " + strLit(r.s); break;
			case rqStrContains: d = "contains " + strLit(r.s); break;
			case rqStrNotContains: d = "contains not " + strLit(r.s); break;
			}
			return "expect: arg[" + std::to_string(r.arg) + "] " + d;
		}

		bool sameEntry(const MExp& e, const int entry)
		{
			return e.shape->entry == entry;
		}

		// 1 accepts, 0 rejects, -1 throws
		int content(MExp& e, const int entry, const Args& a)
		{
			int r = sameEntry(e, entry) ? 1 : 0;
			for (const ReqSpec& q : e.spec.rq)
			{
				const int x = evalReqOf(e, q, a);
				if (x < 0) return -1;
				if (x == 0) r = 0;
			}
			for (const auto& p : e.spec.pol)
			{
				if (p->throwKind >= 0) return -1;
				if (!p->accept) r = 0;
			}
			return r;
		}

		std::string timesText(MExp& e)
		{
			std::string t;
			if (e.count == e.max) t = "already saturated (matched " + verbalize(e.count) + ")";
			else if (e.min <= e.count) t = "accepts further matches (matched " + std::to_string(e.count) + " out of " + std::to_string(e.max) + " times)";
			else
			{
				t = "matched " + verbalize(e.count) + " - ";
				if (e.min < e.max) t += "between " + std::to_string(e.min) + " and " + std::to_string(e.max) + " times";
				else t += "exactly " + verbalize(e.max);
				t += " is expected";
			}
			int bad = 0;
			for (const auto& [q, pos] : e.seqs) bad += !consumable(q, pos);
			const auto n = std::to_string(e.seqs.size());
			if (e.count == e.max) t += e.seqs.empty() ? "" : ",\n\tand is part of " + n + " sequence(s).";
			else if (bad) t += ",\n\tbut is not the current element of " + std::to_string(bad) + " sequence(s) (" + n + " total).";
			else if (!e.seqs.empty()) t += ",\n\tand is the current element of " + n + " sequence(s).";
			return t;
		}

		WantExp wantOf(MExp& e, const int entry, const Args* a)
		{
			WantExp w{.id = e.id};
			for (const ReqSpec& q : e.spec.rq) w.req.emplace(a == nullptr || evalReqOf(e, q, *a) > 0, describeReq(e, q));
			for (const auto& p : e.spec.pol)
				if (p->described) w.req.emplace(a == nullptr || p->accept, p->emptyText ? std::string{} : "policy#" + std::to_string(p->id));
			const EntryDesc& d = entries[e.shape->entry];
			const EntryDesc& c = entries[entry];
			static const char* cats[] = {"", "lvalue", "rvalue", "any"};
			static const char* csts[] = {"", "mutable", "const", "any"};
			w.req.emplace(a == nullptr || (d.cat & c.cat) != 0, std::string{"expect: from "} + cats[d.cat] + " category overload");
			w.req.emplace(a == nullptr || (d.cst & c.cst) != 0, std::string{"expect: from "} + csts[d.cst] + " qualified overload");
			w.times = timesText(e);
			w.min = e.min;
			w.max = e.max;
			w.count = e.count;
			for (const auto& [q, pos] : e.seqs)
			{
				if (saturated(e.id) || consumable(q, pos)) w.good.insert(tagValue(seq(q).tag));
				else w.bad.insert(tagValue(seq(q).tag));
			}
			w.state = saturated(e.id) ? 2 : (w.bad.empty() ? 1 : 0);
			return w;
		}

		static std::ptrdiff_t tagValue(const mimicpp::sequence::Tag t) { return static_cast<std::ptrdiff_t>(t); }

		// which of two eligible expectations is selected: 1 newer, 0 older, -1 not determined
		int prefersNewer(const int newer, const int older)
		{
			MExp& n = exp(newer);
			MExp& o = exp(older);
			int votes = 0;
			std::size_t shared = 0;
			for (const auto& [q, pos] : n.seqs)
				for (const auto& [q2, pos2] : o.seqs)
					if (q == q2)
					{
						++shared;
						const bool forNewer = seq(q).greedy ? pos > pos2 : pos < pos2;
						votes += forNewer ? 1 : -1;
					}
			if (shared == 0) return 1;
			if (shared < n.seqs.size()) return -1;
			if (shared > 1) ++nMultiVote;
			return votes >= 0 ? 1 : 0;
		}

		void consumeModel(const int id)
		{
			MExp& e = exp(id);
			for (const auto& [q, pos] : e.seqs) seq(q).cursor = pos;
			++e.count;
		}

		bool satisfiedModel(MExp& e)
		{
			if (e.count < e.min || e.count > e.max) return false;
			for (const auto& p : e.spec.pol)
				if (!p->satisfied) return false;
			return true;
		}

		// ---- generation of one expectation -----------------------------------------------------------------
		std::string genStr()
		{
			static const std::vector<std::string> pool{"", "a", "b", "ab", "ba", "aab", "abab", "Ab", "a b", "aaaaaaaaaaaaaaaaaaaaaaaaab"};
			return pool[s.draw(static_cast<std::uint32_t>(pool.size()))];
		}

		unsigned genMask()
		{
			switch (s.weighted({5, 1, 4, 2}))
			{
			case 0: return 0xff;
			case 1: return 0;
			case 2: return s.draw(256);
			default: return 1u << s.draw(8);
			}
		}

		int genInt() { return static_cast<int>(s.weighted({3, 3, 3, 2, 2, 2, 1})) - static_cast<int>(s.draw(2)); }

		ReqSpec genReq(const Elem& el)
		{
			ReqSpec r{};
			r.kind = static_cast<ReqKind>(el.k);
			r.arg = el.a;
			r.id = nextReq++;
			switch (r.kind)
			{
			case rqWild: break;
			case rqPred:
			case rqNotPred: r.mask = genMask(); break;
			case rqTrait: r.mask = genMask(); break;
			case rqDyn:
				r.mask = genMask();
				if (prof.throwing && s.coin(static_cast<std::uint32_t>(prof.throwing), 16))
				{
					r.throwMask = s.coin(1, 3) ? 0xff : s.draw(256);
					r.throwKind = s.range(0, 2);
				}
				break;
			case rqStrEq:
			case rqStrStarts:
			case rqStrEnds:
			case rqStrContains:
			case rqStrNotContains: r.s = genStr(); break;
			case rqProjEq: r.v = s.range(0, 2); break;
			default:
				r.v = genInt();
				r.s = genStr();
			}
			return r;
		}

		std::string reqText(const ReqSpec& r)
		{
			std::string t = std::to_string(r.kind) + "@" + std::to_string(r.arg) + "(";
			if (r.kind >= rqPred && r.kind <= rqTrait) t += "mask " + std::to_string(r.mask) + (r.throwMask ? " throws " + std::to_string(r.throwMask) + "/" + std::to_string(r.throwKind) : "");
			else if (r.kind >= rqStrEq) t += strLit(r.s);
			else t += std::to_string(r.v) + "," + strLit(r.s);
			return t + ")";
		}

		std::vector<int> livingMocks(const int entry)
		{
			std::vector<int> r;
			for (std::size_t i = 0; i < mocks.size(); ++i)
				if (mocks[i].alive && mocks[i].kind == entries[entry].mockKind) r.push_back(static_cast<int>(i));
			return r;
		}

		int pickEntry()
		{
			if (s.coin(7, 10) && !livingMocks(focus).empty()) return focus;
			std::vector<int> c;
			for (int i = 0; i < entryCount; ++i)
				if (!livingMocks(i).empty()) c.push_back(i);
			if (c.empty()) return -1;
			return s.pick(c);
		}

		static int& slotOf(std::vector<int>& v, const int i) { return v[static_cast<std::size_t>(i)]; }

		void ensureSeq(const bool greedySide, const int slot)
		{
			int& m = slotOf(greedySide ? greedySeq : lazySeq, slot);
			if (m >= 0 && seq(m).handle) return;
			auto q = std::make_unique<MSeq>();
			q->id = static_cast<int>(seqs.size());
			q->greedy = greedySide;
			q->slot = slot;
			if (greedySide)
			{
				greedy[static_cast<std::size_t>(slot)] = std::make_unique<mimicpp::GreedySequence>();
				q->tag = greedy[static_cast<std::size_t>(slot)]->tag();
			}
			else
			{
				lazy[static_cast<std::size_t>(slot)] = std::make_unique<mimicpp::LazySequence>();
				q->tag = lazy[static_cast<std::size_t>(slot)]->tag();
			}
			m = q->id;
			log("new " + std::string{greedySide ? "greedy" : "lazy"} + " sequence q" + std::to_string(q->id));
			seqs.push_back(std::move(q));
		}

		TimesSpec genTimes(const Elem& el)
		{
			TimesSpec t{el.k, 0, 0};
			const auto bad = prof.bad > 0 && s.coin(static_cast<std::uint32_t>(prof.bad), 40);
			const auto small = [&] { return static_cast<int>(s.weighted({4, 6, 4, 3, 1, 1})); };
			switch (el.k)
			{
			case 1:
				t.a = small();
				t.b = t.a + small();
				if (prof.wildTimes > 1 && s.coin(1, 6)) t.b = s.coin(1, 2) ? 0x7fffffff : t.a + s.range(5, 60);
				if (bad)
				{
					switch (s.draw(4))
					{
					case 0: t.a = t.b + 1 + small(); break;
					case 1: t.a = -1 - small(); break;
					case 2: t.a = -2; t.b = -1; break;
					default: t.a = static_cast<int>(0x80000000); t.b = 0; break;
					}
				}
				break;
			case 2:
				t.a = small();
				if (prof.wildTimes > 1 && s.coin(1, 8)) t.a = s.range(5, 40);
				if (bad) t.a = s.coin(1, 2) ? -1 : -0x7fffffff - 1;
				break;
			case 3:
				t.a = small();
				if (prof.wildTimes > 1 && s.coin(1, 12)) t.a = 0x7fffffff;
				if (bad) t.a = s.coin(1, 2) ? -1 : -7;
				break;
			case 4:
				t.a = small();
				if (prof.wildTimes > 1 && s.coin(1, 8)) t.a = s.range(5, 40);
				if (bad) t.a = s.coin(1, 2) ? -1 : -7;
				break;
			default: break;
			}
			return t;
		}

		void opCreate()
		{
			if (exps.size() >= locCount) return;
			const int entry = pickEntry();
			if (entry < 0) return;
			const auto lm = livingMocks(entry);
			const int mi = s.pick(lm);
			createOn(entry, mi);
		}

		void createOn(const int entry, const int mi)
		{
			const auto& pool = kindShapes[entry];
			const Shape& sh = shapes()[static_cast<std::size_t>(pool[s.draw(static_cast<std::uint32_t>(pool.size()))])];
			auto e = std::make_unique<MExp>();
			e->id = static_cast<int>(exps.size());
			e->shape = &sh;
			e->group = mocks[static_cast<std::size_t>(mi)].group;
			Spec& sp = e->spec;
			sp.id = e->id;
			sp.finV = 1000 + e->id;
			bool invalid = false;
			std::string desc;
			const auto at = [](auto& v, const int i) -> auto&
			{
				if (v.size() <= static_cast<std::size_t>(i)) v.resize(static_cast<std::size_t>(i) + 1);
				return v[static_cast<std::size_t>(i)];
			};
			std::vector<std::pair<bool, int>> used;
			std::vector<std::pair<bool, int>> seqRefs;
			for (const Elem& el : sh.elems)
			{
				switch (el.c)
				{
				case 'A':
				case 'P':
					at(sp.rq, el.slot) = genReq(el);
					desc += " " + reqText(sp.rq[static_cast<std::size_t>(el.slot)]);
					break;
				case 'T':
					sp.times = genTimes(el);
					e->min = sp.times.a;
					e->max = sp.times.a;
					if (el.k == 1) e->max = sp.times.b;
					if (el.k == 3) e->max = 0x7fffffff;
					if (el.k == 4) e->min = 0;
					if (el.k == 5) e->min = e->max = 1;
					if (el.k == 6) e->min = e->max = 2;
					if (el.k == 1) invalid = invalid || sp.times.a < 0 || sp.times.b < sp.times.a;
					else if (el.k < 5) invalid = invalid || sp.times.a < 0;
					break;
				case 'S':
					for (int j = 0; j < el.a; ++j)
					{
						const bool g = (el.b >> j) & 1;
						int slot = s.range(0, (g ? nGreedy : nLazy) - 1);
						const bool dupWanted = prof.bad > 0 && s.coin(1, 8);
						if (!dupWanted)
						{
							for (int k = 0; k < 3 && std::ranges::find(used, std::pair{g, slot}) != used.end(); ++k) slot = (slot + 1) % 3;
						}
						ensureSeq(g, slot);
						if (std::ranges::find(used, std::pair{g, slot}) != used.end()) invalid = true;
						used.emplace_back(g, slot);
						at(sp.seq, el.slot + j) = slot;
						seqRefs.emplace_back(g, slot);
						desc += " q" + std::to_string(slotOf(g ? greedySeq : lazySeq, slot));
					}
					break;
				case 'Q':
				{
					auto st = std::make_shared<PolState>();
					st->id = nextReq++;
					st->accept = !s.coin(1, 8);
					st->satisfied = !s.coin(1, 8);
					st->described = !s.coin(1, 4);
					st->emptyText = s.coin(1, 6);
					if (prof.throwing > 1 && s.coin(static_cast<std::uint32_t>(prof.throwing), 32)) st->throwKind = s.range(0, 2);
					at(sp.pol, el.slot) = st;
					desc += std::string{" pol"} + (st->accept ? "" : " rejects") + (st->satisfied ? "" : " unsatisfied") + (!st->described ? " undescribed" : st->emptyText ? " described empty" : "") + (st->throwKind >= 0 ? " throws" : "");
					e->steps.push_back(el);
					break;
				}
				case 'E':
				{
					EffSpec f{};
					f.mutate = s.coin(1, 4);
					f.nested = prof.nested && s.coin(static_cast<std::uint32_t>(prof.nested), 8) ? s.range(1, 3) : 0;
					sp.eff.push_back(f);
					if (f.mutate) desc += " mutates";
					if (f.nested) desc += " nests" + std::to_string(f.nested);
					e->steps.push_back(el);
					break;
				}
				case 'F':
					e->fin = el;
					if (el.k == fnResultOf || el.k == fnApply || el.k == fnApplyAll || el.k == fnCustom)
						sp.finNested = prof.nested && s.coin(static_cast<std::uint32_t>(prof.nested), 12) ? s.range(1, 2) : 0;
					break;
				default: break;
				}
			}
			const bool saturatedNow = !invalid && e->max == 0;
			(void)saturatedNow;
			log(name(e->id) + " = m" + std::to_string(mi) + "." + entries[entry].name + ": " + sh.text + "  with" + desc + " times [" + std::to_string(e->min) + "," + std::to_string(e->max) + "]");
			Spec scratch = sp;
			bool threw = false;
			std::string what;
			try
			{
				e->handle = sh.build(*this, mocks[static_cast<std::size_t>(mi)].p, scratch);
			}
			catch (const std::invalid_argument&)
			{
				threw = true;
			}
			catch (const std::exception& ex)
			{
				pbt::fail(std::string{"setting up an expectation threw "} + ex.what());
			}
			// what the caller's objects do afterwards must not matter
			for (ReqSpec& r : scratch.rq)
			{
				r.v = 77777;
				r.mask = ~r.mask;
				r.s = "scrambled";
			}
			scratch.finV = -1;
			if (invalid)
			{
				pbt::require(threw, "invalid limits or a duplicate sequence were accepted");
				++nBad;
				log("  -> rejected");
				e->living = false;
				exps.push_back(std::move(e));
				return;
			}
			pbt::require(!threw, "a valid set-up was rejected with an invalid-argument error");
			for (const auto& [g, slot] : seqRefs)
			{
				MSeq& q = seq(slotOf(g ? greedySeq : lazySeq, slot));
				e->seqs.emplace_back(q.id, static_cast<int>(q.entries.size()));
				q.entries.push_back(e->id);
				++q.attached;
			}
			pbt::require(locText(e->handle->from()) == locText(kLoc[e->id % locCount]), "the expectation does not know its source location");
			exps.push_back(std::move(e));
			verifySatisfied();
		}

		// ---- sequences ending ------------------------------------------------------------------------------
		// what is reported when the sequence ends
		std::optional<std::string> seqEnd(MSeq& q)
		{
			for (std::size_t i = 0; i < q.entries.size(); ++i)
			{
				if (static_cast<int>(i) < q.cursor) continue;
				if (!minReached(q.entries[i]))
					return "Unfulfilled sequence. " + std::to_string(i) + " out of " + std::to_string(q.entries.size()) + " expectation(s) are satisfied.";
			}
			return std::nullopt;
		}

		void judgeEnds(Frame& f, const std::vector<std::pair<int, std::string>>& wantEnds, std::vector<std::string> wantErrors)
		{
			if (prof.ends)
			{
				std::multiset<int> w, g;
				for (const auto& [id, t] : wantEnds) w.insert(id);
				for (const auto& x : f.ends) g.insert(x.id);
				if (w != g)
				{
					std::string m = "unfulfilled reports at the end of expectations: expected for {";
					for (const int i : w) m += " " + name(i);
					m += " }, got {";
					for (const int i : g) m += " " + name(i);
					pbt::fail(m + " }");
				}
				if (prof.content)
					for (const auto& x : f.ends)
						for (const auto& [id, t] : wantEnds)
							if (id == x.id) checkExpectationReport(x.report, endWant.at(id));
			}
			if (prof.seqEnds || prof.leaks)
			{
				auto got = f.errors;
				std::ranges::sort(got);
				std::ranges::sort(wantErrors);
				if (got != wantErrors)
				{
					std::string m = "errors about unfulfilled sequences: expected {";
					for (const auto& x : wantErrors) m += " '" + x + "'";
					m += " }, got {";
					for (const auto& x : got) m += " '" + x + "'";
					pbt::fail(m + " }");
				}
			}
			nUnfulfilled += static_cast<long>(wantEnds.size());
			nSeqErr += static_cast<long>(wantErrors.size());
			pbt::require(f.verdicts == 0, "a verdict was reported although no call was made");
		}

		std::map<int, WantExp> endWant{};

		void pushFrame() { frames.push_back(std::make_unique<Frame>()); }

		struct PopFrame
		{
			Machine& m;
			~PopFrame() { m.frames.pop_back(); }
		};

		// the model's view of an expectation ending
		void endModel(MExp& e, std::vector<std::pair<int, std::string>>& ends, std::vector<std::string>& errors)
		{
			if (!satisfiedModel(e))
			{
				endWant[e.id] = wantOf(e, e.shape->entry, nullptr);
				ends.emplace_back(e.id, "");
			}
			e.living = false;
			for (const auto& [qid, pos] : e.seqs)
			{
				MSeq& q = seq(qid);
				--q.attached;
				if (q.attached == 0 && !q.handle)
					if (auto m = seqEnd(q)) errors.push_back(*m);
			}
		}

		void opDestroy()
		{
			std::vector<int> c;
			for (auto& e : exps)
				if (e->living && !e->running) c.push_back(e->id);
			if (c.empty()) return;
			destroy(s.pick(c));
		}

		void destroy(const int id)
		{
			MExp& e = exp(id);
			log("end " + name(id));
			bool orphan = true;
			for (const Mock& m : mocks) orphan = orphan && !(m.alive && m.group == e.group);
			nOrphan += orphan;
			std::vector<std::pair<int, std::string>> ends;
			std::vector<std::string> errors;
			endModel(e, ends, errors);
			pushFrame();
			PopFrame pf{*this};
			auto h = std::move(e.handle);
			// the destructor may throw, which a unique_ptr must not
			ScopedExpectation* raw = h.release();
			bool threw = false;
			try
			{
				delete raw;
			}
			catch (const Unfulfilled&)
			{
				threw = true;
			}
			if (prof.ends) pbt::require(threw == (throwingReporter && !ends.empty() && std::uncaught_exceptions() == 0), "the reporter's exception did not leave the expectation's destructor");
			judgeEnds(top(), ends, errors);
			check();
		}

		void opMoveHandle()
		{
			std::vector<int> c;
			for (auto& e : exps)
				if (e->living) c.push_back(e->id);
			if (c.empty()) return;
			MExp& e = exp(s.pick(c));
			++nMoves;
			if (s.coin(1, 2))
			{
				log("move-construct the handle of " + name(e.id));
				pushFrame();
				PopFrame pf{*this};
				auto h = std::make_unique<ScopedExpectation>(std::move(*e.handle));
				e.handle.reset(); // a moved-from handle ends silently
				e.handle = std::move(h);
				judgeEnds(top(), {}, {});
				return;
			}
			// move-assignment ends the target's expectation
			std::vector<int> t;
			for (const int i : c)
				if (i != e.id && !exp(i).running) t.push_back(i);
			if (t.empty()) return;
			MExp& o = exp(s.pick(t));
			log("move-assign the handle of " + name(e.id) + " to that of " + name(o.id));
			std::vector<std::pair<int, std::string>> ends;
			std::vector<std::string> errors;
			endModel(o, ends, errors);
			pushFrame();
			PopFrame pf{*this};
			bool threw = false;
			try
			{
				*o.handle = std::move(*e.handle);
			}
			catch (const Unfulfilled&)
			{
				threw = true;
			}
			if (prof.ends) pbt::require(threw == (throwingReporter && !ends.empty() && std::uncaught_exceptions() == 0), "the reporter's exception did not leave the assignment of the expectation");
			auto h = std::move(o.handle);
			e.handle.reset();
			e.handle = std::move(h);
			judgeEnds(top(), ends, errors);
			check();
		}

		void opDropSequence()
		{
			std::vector<int> c;
			for (auto& q : seqs)
				if (q->handle) c.push_back(q->id);
			if (c.empty()) return;
			dropSequence(s.pick(c));
		}

		void dropSequence(const int id)
		{
			MSeq& q = seq(id);
			log("end sequence object q" + std::to_string(id));
			std::vector<std::string> errors;
			q.handle = false;
			if (q.attached == 0)
				if (auto m = seqEnd(q)) errors.push_back(*m);
			pushFrame();
			PopFrame pf{*this};
			if (q.greedy)
			{
				greedy[static_cast<std::size_t>(q.slot)].reset();
				slotOf(greedySeq, q.slot) = -1;
			}
			else
			{
				lazy[static_cast<std::size_t>(q.slot)].reset();
				slotOf(lazySeq, q.slot) = -1;
			}
			judgeEnds(top(), {}, errors);
		}

		void opToggle()
		{
			std::vector<PolState*> c;
			for (auto& e : exps)
				if (e->living)
					for (auto& p : e->spec.pol) c.push_back(p.get());
			if (c.empty()) return;
			PolState& p = *c[s.draw(static_cast<std::uint32_t>(c.size()))];
			switch (s.draw(4))
			{
			case 0: p.accept = !p.accept; break;
			case 1: p.satisfied = !p.satisfied; break;
			case 3: p.emptyText = !p.emptyText; break;
			default: p.described = !p.described; break;
			}
			log("policy#" + std::to_string(p.id) + " now" + (p.accept ? " accepts" : " rejects") + (p.satisfied ? "" : ", is unsatisfied") + (!p.described ? ", is not described" : p.emptyText ? ", has an empty description" : ""));
		}

		// ---- mocks -----------------------------------------------------------------------------------------
		void newMock(const int kind)
		{
			Mock m{};
			m.kind = kind;
			m.group = groups++;
			m.alive = true;
			m.p = withKind(kind, []<typename M>(M*) { return static_cast<void*>(new M{}); });
			log("m" + std::to_string(mocks.size()) + " = new mock M" + std::to_string(kind));
			mocks.push_back(m);
		}

		void freeMock(Mock& m)
		{
			if (!m.p) return;
			withKind(m.kind, [&]<typename M>(M*) { delete static_cast<M*>(m.p); return nullptr; });
			m.p = nullptr;
			m.alive = false;
		}

		void opMock()
		{
			const auto i = s.draw(static_cast<std::uint32_t>(mocks.size()));
			if (mocks[i].inCall || !mocks[i].p) return;
			pushFrame();
			PopFrame pf{*this};
			switch (s.weighted({3, 2, 1, 1}))
			{
			case 0: // move construct
			{
				if (!mocks[i].alive || mocks.size() > 8) return;
				log("m" + std::to_string(mocks.size()) + " = move-construct from m" + std::to_string(i));
				Mock n = mocks[i];
				n.p = withKind(n.kind, [&]<typename M>(M*) { return static_cast<void*>(new M{std::move(*static_cast<M*>(mocks[i].p))}); });
				mocks[i].alive = false;
				if (s.coin(1, 2)) freeMock(mocks[i]);
				mocks.push_back(n);
				break;
			}
			case 1: // move assign
			{
				if (!mocks[i].alive) return;
				std::vector<int> c;
				for (std::size_t k = 0; k < mocks.size(); ++k)
					if (k != i && mocks[k].p && !mocks[k].inCall && mocks[k].kind == mocks[i].kind) c.push_back(static_cast<int>(k));
				if (c.empty()) return;
				const int t = s.pick(c);
				Mock& m = mocks[static_cast<std::size_t>(t)];
				log("m" + std::to_string(t) + " = move-assign from m" + std::to_string(i));
				withKind(m.kind, [&]<typename M>(M*) { *static_cast<M*>(m.p) = std::move(*static_cast<M*>(mocks[i].p)); return nullptr; });
				m.group = mocks[i].group;
				m.alive = true;
				mocks[i].alive = false;
				break;
			}
			case 2:
			{
				log("destroy m" + std::to_string(i));
				freeMock(mocks[i]);
				break;
			}
			default:
				if (mocks.size() < 8) newMock(mocks[i].kind);
				break;
			}
			++nMoves;
			judgeEnds(top(), {}, {});
		}

		// ---- calls -----------------------------------------------------------------------------------------
		Args genArgs(const int entry)
		{
			Args a{};
			if (entries[entry].str) a.s = genStr();
			else
				for (int i = 0; i < entries[entry].params; ++i) a.v[i] = genInt();
			return a;
		}

		template <typename F>
		Result guarded(F&& f)
		{
			Result r{};
			try
			{
				f(r);
			}
			catch (const Unmatched& u)
			{
				r.kind = Res::unmatched;
				r.un = u;
			}
			catch (const Exc& e)
			{
				e.t.check();
				r.kind = typeid(e) == typeid(Exc) ? Res::configured : Res::other;
				r.value = e.v;
			}
			catch (const std::exception& e)
			{
				r.what = e.what();
			}
			catch (...)
			{
				r.what = "unknown";
			}
			return r;
		}

		Result callMock(const int entry, void* p, const bool explicitLoc, Args& a, Frame& f)
		{
			// the location the call is made from: given explicitly, or the call expression itself
			const std::source_location given = kLoc[(locCount - 1) - static_cast<int>(s.draw(16))];
			const auto here = [&](const std::source_location& l) { f.wantLoc = locText(l); };
			static constexpr int stride = 0;
			(void)stride;
			if (explicitLoc) here(given);
#define CORE_CALL(how, obj, ...)                                                    \
	(explicitLoc ? (void)(how((obj)(__VA_ARGS__ __VA_OPT__(,) given))) : [&] {     \
		f.wantLoc = "L" + std::to_string(std::source_location::current().line()) + " " + std::source_location::current().file_name(); \
		(void)(how((obj)(__VA_ARGS__)));                                            \
	}())
			return guarded(
				[&](Result& r)
				{
					const auto val = [&](const int v) { r.kind = Res::value; r.value = v; return 0; };
					const auto ref = [&](int& v) { r.kind = Res::ref; r.ref = &v; return 0; };
					switch (entry)
					{
					case 0: CORE_CALL(val, *static_cast<M0*>(p), a.v[0]); break;
					case 1: CORE_CALL(val, *static_cast<M1*>(p), a.v[0]); break;
					case 2: CORE_CALL(val, *static_cast<const M1*>(p), a.v[0]); break;
					case 3: CORE_CALL(val, *static_cast<M2*>(p), a.v[0]); break;
					case 4: CORE_CALL(val, *static_cast<const M2*>(p), a.v[0]); break;
					case 5: CORE_CALL(val, std::move(*static_cast<M2*>(p)), a.v[0]); break;
					case 6: CORE_CALL(val, std::move(*static_cast<const M2*>(p)), a.v[0]); break;
					case 7: CORE_CALL(val, *static_cast<M3*>(p), a.v[0], a.v[1]); break;
					case 8: CORE_CALL(val, *static_cast<M3*>(p), a.s); break;
					case 9:
						if (explicitLoc) (*static_cast<M3*>(p))(given);
						else
						{
							f.wantLoc = "L" + std::to_string(std::source_location::current().line() + 1) + " " + std::source_location::current().file_name();
							(*static_cast<M3*>(p))();
						}
						r.kind = Res::nothing;
						break;
					default:
						f.addr[0] = &a.v[0];
						f.addr[1] = &a.v[1];
						CORE_CALL(ref, *static_cast<const M4*>(p), a.v[0], a.v[1]);
						break;
					}
				});
		}

		std::string argText(const int entry, const Args& a)
		{
			if (entries[entry].str) return strLit(a.s);
			std::string t;
			for (int i = 0; i < entries[entry].params; ++i) t += (i ? ", " : "") + std::to_string(a.v[i]);
			return t;
		}

		void opCall()
		{
			int entry = pickEntry();
			if (entry < 0) return;
			const auto lm = livingMocks(entry);
			int mi = s.pick(lm);
			int target = -1;
			if (s.coin(3, 4))
			{
				// aim at a living expectation
				std::vector<std::pair<int, int>> c;
				for (auto& e : exps)
					if (e->living && e->shape)
						for (std::size_t k = 0; k < mocks.size(); ++k)
							if (mocks[k].alive && mocks[k].group == e->group) c.emplace_back(e->id, static_cast<int>(k));
				if (!c.empty())
				{
					const auto [t, k] = s.pick(c);
					target = t;
					mi = k;
					entry = exp(t).shape->entry;
				}
			}
			int n = 1;
			if (prof.longRuns && s.coin(static_cast<std::uint32_t>(prof.longRuns), 24)) n = s.range(2, 40);
			Args a = genArgs(entry);
			for (int i = 0; target >= 0 && i < 4 && content(exp(target), entry, a) != 1; ++i) a = genArgs(entry);
			for (int i = 0; i < n; ++i)
			{
				Args b = a;
				doCall(entry, mi, b);
			}
		}

		void doCall(const int entry, const int mi, Args a)
		{
			++nCalls;
			pushFrame();
			PopFrame pf{*this};
			Frame& f = top();
			f.call = true;
			f.entry = entry;
			f.group = mocks[static_cast<std::size_t>(mi)].group;
			f.args = a;
			f.atCall = a;
			for (auto it = exps.rbegin(); it != exps.rend(); ++it)
			{
				MExp& e = **it;
				if (!e.living || e.group != f.group || entries[e.shape->entry].coll != entries[entry].coll) continue;
				const int c = content(e, entry, a);
				if (c < 0) f.throwing.push_back(e.id);
				else if (c == 0)
				{
					f.none.push_back(e.id);
					for (const auto& p : e.spec.pol) nCustomVeto += !p->accept;
				}
				else if (saturated(e.id) || blocked(e.id))
				{
					nSeqBlocked += !saturated(e.id);
					nSat += saturated(e.id);
					f.blocked.push_back(e.id);
				}
				else f.eligible.push_back(e.id);
				if (prof.lists || prof.content || prof.warn) f.want[e.id] = wantOf(e, entry, c < 0 ? nullptr : &a);
			}
			std::string verdict;
			if (!f.eligible.empty())
			{
				// the one preferred to all others, if there is one
				f.allowed.insert(f.eligible.begin(), f.eligible.end());
				int winner = -1;
				for (const int w : f.eligible)
				{
					bool all = true;
					for (const int o : f.eligible)
					{
						if (o == w) continue;
						const int p = w > o ? prefersNewer(w, o) : prefersNewer(o, w);
						all = all && (w > o ? p == 1 : p == 0);
					}
					if (all) winner = w;
				}
				if (f.eligible.size() > 1)
				{
					++nChoice;
					bool anySeq = false;
					for (const int w : f.eligible) anySeq = anySeq || !exp(w).seqs.empty();
					nSeqChoice += anySeq;
					nDetermined += winner >= 0;
				}
				if (winner >= 0 && prof.order)
				{
					f.allowed = {winner};
					f.determined = true;
				}
				verdict = "match by " + list(std::vector<int>(f.allowed.begin(), f.allowed.end()));
			}
			else if (!f.blocked.empty()) verdict = "inapplicable " + list(f.blocked);
			else verdict = "no match " + list(f.none);
			if (!f.throwing.empty()) verdict += ", throwing " + list(f.throwing);
			nThrew += static_cast<long>(f.throwing.size());
			if (f.eligible.size() + f.blocked.size() + f.none.size() > 1) ++nCompeting;
			const bool explicitLoc = s.coin(1, 2);
			log("call m" + std::to_string(mi) + "." + entries[entry].name + " (" + argText(entry, a) + ")  -> expected: " + verdict);
			Mock& m = mocks[static_cast<std::size_t>(mi)];
			++m.inCall;
			Result r = callMock(entry, m.p, explicitLoc, a, f);
			--mocks[static_cast<std::size_t>(mi)].inCall;
			check();
			pbt::require(f.ends.empty() && f.errors.empty(), "a call reported the end of an expectation or sequence");
			judgeWarnings(f);
			if (f.eligible.empty())
			{
				pbt::require(r.kind == Res::unmatched, "the call completed although no expectation is eligible");
				pbt::require(r.un.frame == frames.size() - 1, "the failure of another call was raised");
				if (f.blocked.empty()) ++nNoMatch;
				else ++nInapp;
				log("  -> failed as expected");
			}
			else
			{
				pbt::require(r.kind != Res::unmatched, "the call failed although an expectation is eligible");
				pbt::require(f.verdicts == 1 && f.chosen >= 0, "the call was answered without a match report");
				++nMatched;
				MExp& e = exp(f.chosen);
				--e.running;
				pbt::require(f.step == e.steps.size(), "not all side effects of " + name(e.id) + " were executed");
				judgeOutcome(f, e, r, a);
				log("  -> answered by " + name(e.id));
			}
			verifySatisfied();
		}

		void judgeOutcome(Frame& f, MExp& e, const Result& r, const Args& a)
		{
			const EntryDesc& d = entries[f.entry];
			const std::string who = "outcome of " + name(e.id) + ": ";
			switch (e.fin.k)
			{
			case fnReturns:
				pbt::require(r.kind == Res::value && r.value == e.spec.finV, who + "wrong value " + std::to_string(r.value) + " " + r.what);
				break;
			case fnReturnsRef:
				pbt::require(r.kind == Res::ref && r.ref == &cells[static_cast<std::size_t>(e.spec.finV % 8)], who + "wrong reference");
				break;
			case fnThrows:
				pbt::require(r.kind == Res::configured && r.value == e.spec.finV, who + "wrong or no exception " + r.what);
				break;
			case fnArg:
				if (d.byRef) pbt::require(r.kind == Res::ref && r.ref == &a.v[e.fin.a], who + "not the selected argument");
				else pbt::require(r.kind == Res::value && r.value == f.args.v[e.fin.a], who + "not the selected argument's value: " + std::to_string(r.value));
				break;
			case fnNone:
				pbt::require(r.kind == Res::nothing, who + "the call did not return normally " + r.what);
				break;
			default:
				pbt::require(f.finDone, who + "the outcome function was not called");
				if (d.isVoid) pbt::require(r.kind == Res::nothing, who + "the call did not return normally");
				else if (d.byRef) pbt::require(r.kind == Res::ref && r.ref == f.wantRef, who + "wrong reference");
				else pbt::require(r.kind == Res::value && r.value == f.wantValue, who + "wrong value " + std::to_string(r.value));
			}
			if (d.byRef) pbt::require(a.v[0] == f.args.v[0] && a.v[1] == f.args.v[1], who + "the caller's arguments were not modified as the side effects did");
		}

		void verifySatisfied()
		{
			for (auto& e : exps)
				if (e->living && e->handle)
					pbt::require(e->handle->is_satisfied() == satisfiedModel(*e), name(e->id) + " is" + (satisfiedModel(*e) ? " not" : "") + " satisfied after " + std::to_string(e->count) + " calls");
		}

		// ---- callbacks: reports ----------------------------------------------------------------------------
		int identify(const std::optional<std::source_location>& l)
		{
			if (!l) return -1;
			return locId(*l);
		}

		static std::string join(const std::multiset<std::pair<bool, std::string>>& r)
		{
			std::string t;
			for (const auto& [ok, d] : r) t += std::string{ok ? " +" : " -"} + "'" + d + "'";
			return t;
		}

		void checkCallReport(Frame& f, const mimicpp::CallReport& c)
		{
			const EntryDesc& d = entries[f.entry];
			const std::string loc = locText(c.fromLoc);
			if (!f.wantLoc.empty() && f.wantLoc[0] == 'L')
			{
				const std::string got = "L" + std::to_string(c.fromLoc.line()) + " " + c.fromLoc.file_name();
				if (got != f.wantLoc) problem("the call report names call location " + got + " instead of " + f.wantLoc);
			}
			else if (loc != f.wantLoc) problem("the call report names call location " + loc + " instead of " + f.wantLoc);
			if (!prof.content) return;
			if (static_cast<int>(c.fromCategory) != d.cat) problem("the call report states a wrong value category");
			if (static_cast<int>(c.fromConstness) != d.cst) problem("the call report states a wrong constness");
			const std::type_index ret = d.isVoid ? typeid(void) : (d.byRef ? typeid(int&) : typeid(int));
			if (c.returnTypeIndex != ret) problem("the call report states a wrong return type");
			if (static_cast<int>(c.argDetails.size()) != d.params)
			{
				problem("the call report states a wrong number of arguments");
				return;
			}
			const std::string text = mimicpp::print(c);
			for (int i = 0; i < d.params; ++i)
			{
				const auto& x = c.argDetails[static_cast<std::size_t>(i)];
				const std::string want = d.str ? strLit(f.argsAtCall().s) : std::to_string(f.argsAtCall().v[i]);
				if (x.stateString != want) problem("the call report states argument " + std::to_string(i) + " as " + x.stateString + " instead of " + want);
				if (x.typeIndex != (d.str ? std::type_index{typeid(std::string)} : std::type_index{typeid(int)})) problem("the call report states a wrong argument type");
				if (text.find(want) == std::string::npos) problem("the text of the call report lacks argument value " + want);
			}
			if (text.find(std::to_string(c.fromLoc.line())) == std::string::npos || text.find(c.fromLoc.file_name()) == std::string::npos) problem("the text of the call report lacks the call location");
			static const char* cats[] = {"", "lvalue", "rvalue", "any"};
			static const char* csts[] = {"", "mutable", "const", "any"};
			if (text.find(std::string{"category: "} + cats[d.cat]) == std::string::npos || text.find(std::string{"constness: "} + csts[d.cst]) == std::string::npos) problem("the text of the call report lacks constness or category: " + text);
		}

		void checkMatchReport(Frame& f, const mimicpp::MatchReport& r)
		{
			const int id = identify(r.sourceLocation);
			const auto it = f.want.find(id);
			if (it == f.want.end())
			{
				problem("a report lists an expectation that takes no part in this call");
				return;
			}
			if (!prof.content && !prof.lists) return;
			const WantExp& w = it->second;
			std::multiset<std::pair<bool, std::string>> got;
			for (const auto& x : r.expectationReports)
			{
				if (x.description) got.emplace(x.isMatching, *x.description);
				else if (!x.isMatching) got.emplace(false, "?");
			}
			auto want = w.req;
			for (const auto& p : exp(id).spec.pol)
				if (!p->described && !p->accept) want.emplace(false, "?");
			if (got != want) problem("the report of " + name(id) + " states requirements" + join(got) + "; expected" + join(want));
			int state = -1;
			int min = 0, max = 0, count = 0;
			std::multiset<std::ptrdiff_t> good, bad;
			if (const auto* a = std::get_if<mimicpp::state_inapplicable>(&r.controlReport))
			{
				state = 0;
				min = a->min;
				max = a->max;
				count = a->count;
				for (const auto& x : a->sequenceRatings) good.insert(tagValue(x.tag));
				for (const auto& x : a->inapplicableSequences) bad.insert(tagValue(x));
			}
			else if (const auto* b = std::get_if<mimicpp::state_applicable>(&r.controlReport))
			{
				state = 1;
				min = b->min;
				max = b->max;
				count = b->count;
				for (const auto& x : b->sequenceRatings) good.insert(tagValue(x.tag));
			}
			else if (const auto* c = std::get_if<mimicpp::state_saturated>(&r.controlReport))
			{
				state = 2;
				min = c->min;
				max = c->max;
				count = c->count;
				for (const auto& x : c->sequences) good.insert(tagValue(x));
			}
			if (!prof.content) return;
			if (state != w.state || min != w.min || max != w.max || count != w.count)
				problem("the report of " + name(id) + " states limits " + std::to_string(min) + ".." + std::to_string(max) + ", count " + std::to_string(count) + ", standing " + std::to_string(state) + "; expected " + std::to_string(w.min) + ".." + std::to_string(w.max) + ", " + std::to_string(w.count) + ", " + std::to_string(w.state));
			if (good != w.good || bad != w.bad) problem("the report of " + name(id) + " states a wrong sequence standing");
			const std::string text = mimicpp::print(r);
			if (text.find(std::to_string(r.sourceLocation->line())) == std::string::npos || text.find(r.sourceLocation->file_name()) == std::string::npos) problem("the text of the report of " + name(id) + " lacks its source location");
			const auto failed = text.find("failed:\n");
			const auto passed = text.find("passed:\n");
			for (const auto& [ok, d] : w.req)
			{
				if (d.empty()) continue;
				// described requirements appear in the section of their verdict
				std::size_t begin = ok ? passed : failed;
				std::size_t end = std::string::npos;
				if (!ok && passed != std::string::npos && passed > failed) end = passed;
				if (ok && failed != std::string::npos && failed > passed) end = failed;
				if (begin == std::string::npos || text.substr(begin, end == std::string::npos ? end : end - begin).find(d) == std::string::npos)
					problem("the text of the report of " + name(id) + " lacks '" + d + "' in its section: " + text);
			}
			const bool accepts = std::ranges::all_of(r.expectationReports, &mimicpp::MatchReport::Expectation::isMatching);
			if (accepts && w.state != 1 && text.find(w.times) == std::string::npos) problem("the text of the report of " + name(id) + " lacks '" + w.times + "': " + text);
			const char* head = !accepts ? "Unmatched" : (w.state == 1 ? "Matched" : "Inapplicable");
			if (text.rfind(head, 0) != 0) problem("the text of the report of " + name(id) + " states a wrong verdict: " + text);
		}

		void checkExpectationReport(const mimicpp::ExpectationReport& r, const WantExp& w)
		{
			std::multiset<std::string> got, want;
			for (const auto& x : r.expectationDescriptions)
				if (x) got.insert(*x);
			for (const auto& [ok, d] : w.req) want.insert(d);
			if (got != want) problem("the report of " + name(w.id) + " states other requirements than the expectation has");
			if (!r.timesDescription || *r.timesDescription != w.times) problem("the report of " + name(w.id) + " states '" + r.timesDescription.value_or("nothing") + "' instead of '" + w.times + "'");
			const std::string text = mimicpp::print(r);
			for (const auto& d : want)
				if (text.find(d) == std::string::npos) problem("the text of the report of " + name(w.id) + " lacks '" + d + "'");
			if (text.find(w.times) == std::string::npos) problem("the text of the report of " + name(w.id) + " lacks '" + w.times + "'");
			if (!r.sourceLocation || text.find(std::to_string(r.sourceLocation->line())) == std::string::npos || text.find(r.sourceLocation->file_name()) == std::string::npos) problem("the text of the report of " + name(w.id) + " lacks its source location");
		}

		void onVerdict(const bool inapplicable, const mimicpp::CallReport& call, const std::vector<mimicpp::MatchReport>& reports)
		{
			if (frames.empty() || !top().call)
			{
				problem("a verdict was reported although no call was made");
				return;
			}
			Frame& f = top();
			++f.verdicts;
			if (f.verdicts > 1)
			{
				problem("a call produced more than one verdict");
				return;
			}
			if (!f.eligible.empty())
			{
				problem("the call failed although " + list(f.eligible) + " is eligible");
				return;
			}
			f.failedVerdict = true;
			if (prof.lists || prof.content)
			{
				std::vector<int> got;
				for (const auto& r : reports) got.push_back(identify(r.sourceLocation));
				const auto& want = f.blocked.empty() ? f.none : f.blocked;
				if (inapplicable != !f.blocked.empty()) problem(std::string{"the verdict is "} + (inapplicable ? "inapplicable" : "no match") + " but should not be");
				if (got != want)
				{
					auto g = got, w = want;
					std::ranges::sort(g);
					std::ranges::sort(w);
					if (g != w || !f.blocked.empty() == false) problem("the verdict lists " + list(got) + " instead of " + list(want));
				}
				checkCallReport(f, call);
				for (const auto& r : reports) checkMatchReport(f, r);
			}
		}

		void onMatch(const mimicpp::CallReport& call, const mimicpp::MatchReport& report)
		{
			if (frames.empty() || !top().call)
			{
				problem("a match was reported although no call was made");
				return;
			}
			Frame& f = top();
			++f.verdicts;
			if (f.verdicts > 1)
			{
				problem("a call produced more than one verdict");
				return;
			}
			const int id = identify(report.sourceLocation);
			if (id < 0 || id >= static_cast<int>(exps.size()))
			{
				problem("the match report names no known expectation");
				return;
			}
			if (!f.allowed.contains(id))
			{
				std::string why;
				if (!exp(id).living) why = "has ended";
				else if (std::ranges::find(f.eligible, id) != f.eligible.end()) why = "is eligible but another one is to be preferred";
				else if (std::ranges::find(f.blocked, id) != f.blocked.end()) why = saturated(id) ? "is exhausted" : "is blocked by a sequence";
				else if (std::ranges::find(f.none, id) != f.none.end()) why = "does not accept the call";
				else if (std::ranges::find(f.throwing, id) != f.throwing.end()) why = "has a throwing requirement";
				else why = "belongs to another mock or signature";
				problem("the call was answered by " + name(id) + ", which " + why + "; allowed: " + list(std::vector<int>(f.allowed.begin(), f.allowed.end())));
				return;
			}
			f.chosen = id;
			MExp& e = exp(id);
			++e.running;
			if (prof.lists || prof.content)
			{
				checkCallReport(f, call);
				checkMatchReport(f, report);
			}
			consumeModel(id);
		}

		void judgeWarnings(Frame& f)
		{
			if (!prof.warn) return;
			std::multiset<int> want(f.throwing.begin(), f.throwing.end()), got;
			for (const auto& w : f.warnings) got.insert(w.id);
			if (want != got) pbt::fail("warnings about throwing requirements: expected for " + list(f.throwing) + ", got " + std::to_string(got.size()));
			for (const auto& w : f.warnings)
			{
				MExp& e = exp(w.id);
				bool known = false;
				for (const auto& r : e.spec.rq)
					known = known || (r.kind == rqDyn && evalReqOf(e, r, f.argsAtCall()) < 0 && w.what == "#" + std::to_string(r.id));
				for (const auto& p : e.spec.pol) known = known || (p->throwKind >= 0 && w.what == "#" + std::to_string(p->id));
				pbt::require(known, "the warning does not carry the exception that was thrown (" + w.what + ")");
				checkCallReport(f, w.call);
				checkExpectationReport(w.report, f.want.at(w.id));
			}
			check();
		}

		// ---- callbacks: side effects and outcomes ----------------------------------------------------------
		bool atStep(const int id, const char* what, Elem& el)
		{
			if (frames.empty() || !top().call || top().chosen != id)
			{
				problem(std::string{what} + " of " + name(id) + " executed although it does not answer the current call");
				return false;
			}
			Frame& f = top();
			MExp& e = exp(id);
			if (f.step >= e.steps.size())
			{
				problem(std::string{what} + " of " + name(id) + " executed too often");
				return false;
			}
			el = e.steps[f.step];
			return true;
		}

		void checkAddr(Frame& f, const int arg, const void* p, const char* what)
		{
			if (f.addr[arg] == nullptr) f.addr[arg] = p;
			else if (f.addr[arg] != p) problem(std::string{what} + " did not receive the argument object " + std::to_string(arg));
			if (f.addr[0] == f.addr[1]) problem(std::string{what} + " received the same object for different arguments");
		}

		static std::vector<int> selection(const Elem& el, const int params, const bool all)
		{
			std::vector<int> r;
			if (all)
				for (int i = 0; i < params; ++i) r.push_back(i);
			else
			{
				r.push_back(el.a);
				if (el.b >= 0) r.push_back(el.b);
			}
			return r;
		}

		void on_effect(const int id, const int slot, const void* p0, const void* p1, const int n, const bool c0, const bool c1) override
		{
			Elem el{};
			if (!atStep(id, "a side effect", el)) return;
			Frame& f = top();
			if (static_cast<int>(f.step) != slot || el.c != 'E')
			{
				problem("side effects of " + name(id) + " executed in another order than written");
				return;
			}
			++f.step;
			const EntryDesc& d = entries[f.entry];
			std::vector<int> sel;
			if (el.k == 1) sel = {el.a};
			else if (el.k == 2) sel = selection(el, d.params, false);
			else if (el.k == 3) sel = selection(el, d.params, true);
			if (static_cast<int>(sel.size()) != n)
			{
				problem("a side effect received a wrong number of arguments");
				return;
			}
			const void* p[] = {p0, p1};
			const bool c[] = {c0, c1};
			for (std::size_t i = 0; i < sel.size(); ++i)
			{
				checkAddr(f, sel[i], p[i], "a side effect");
				if (c[i] != (d.byRef && sel[i] == 1)) problem("a side effect received an argument of wrong constness");
			}
			const EffSpec& ef = exp(id).spec.eff[static_cast<std::size_t>(el.slot)];
			// mutation happens right after this callback
			if (ef.mutate)
				for (const int i : sel)
				{
					if (d.byRef && i == 1) continue;
					if (d.str) f.args.s += "!";
					else f.args.v[i] += 100;
				}
			nest(ef.nested, "side effect of " + name(id));
		}

		bool mutates(const int id, const int slot) const override
		{
			const MExp& e = *exps[static_cast<std::size_t>(id)];
			if (slot < 0 || slot >= static_cast<int>(e.steps.size())) return false;
			const Elem& el = e.steps[static_cast<std::size_t>(slot)];
			return el.c == 'E' && e.spec.eff[static_cast<std::size_t>(el.slot)].mutate;
		}

		void on_policy(const int id, const int slot) override
		{
			Elem el{};
			if (!atStep(id, "a custom policy", el)) return;
			Frame& f = top();
			if (static_cast<int>(f.step) != slot || el.c != 'Q')
			{
				problem("custom policies of " + name(id) + " consumed in another order than written");
				return;
			}
			++f.step;
		}

		void on_evaluate(int) override {}

		void finalCommon(const int id, const void* p0, const void* p1, const int n)
		{
			if (frames.empty() || !top().call || top().chosen != id)
			{
				problem("the outcome of " + name(id) + " was evaluated although it does not answer the current call");
				return;
			}
			Frame& f = top();
			MExp& e = exp(id);
			if (f.step != e.steps.size()) problem("the outcome of " + name(id) + " was evaluated before all side effects");
			if (f.finDone) problem("the outcome of " + name(id) + " was evaluated more than once");
			f.finDone = true;
			const EntryDesc& d = entries[f.entry];
			std::vector<int> sel;
			if (e.fin.k == fnApply) sel = selection(e.fin, d.params, false);
			else if (e.fin.k == fnApplyAll) sel = selection(e.fin, d.params, true);
			if (static_cast<int>(sel.size()) != n)
			{
				problem("the outcome function received a wrong number of arguments");
				return;
			}
			const void* p[] = {p0, p1};
			for (std::size_t i = 0; i < sel.size(); ++i) checkAddr(f, sel[i], p[i], "the outcome function");
			nest(e.spec.finNested, "outcome of " + name(id));
		}

		int on_final(const int id, const void* p0, const void* p1, const int n) override
		{
			const int v = outcomeValue++;
			finalCommon(id, p0, p1, n);
			if (!frames.empty()) top().wantValue = v;
			return v;
		}

		int& on_final_ref(const int id, const void* p0, const void* p1, const int n) override
		{
			int& c = cells[static_cast<std::size_t>(outcomeValue++ % 8)];
			finalCommon(id, p0, p1, n);
			if (!frames.empty()) top().wantRef = &c;
			return c;
		}

		void nest(const int n, const std::string& where)
		{
			if (n == 0 || depth >= 4 || !note.empty()) return;
			++depth;
			log("[" + where + " begins]");
			for (int i = 0; i < n && nestedBudget > 0 && note.empty(); ++i)
			{
				--nestedBudget;
				++nNested;
				try
				{
					step(true);
				}
				catch (const pbt::Failure& f)
				{
					problem(f.msg);
				}
			}
			log("[" + where + " ends]");
			--depth;
		}

		// ---- driver ----------------------------------------------------------------------------------------
		void step(const bool nested)
		{
			switch (s.weighted({6, 10, 3, prof.moves, prof.drops, prof.toggles, nested ? 0 : prof.moves}))
			{
			case 0: opCreate(); break;
			case 1: opCall(); break;
			case 2: opDestroy(); break;
			case 3: opMoveHandle(); break;
			case 4: opDropSequence(); break;
			case 5: opToggle(); break;
			default: opMock(); break;
			}
			check();
		}

		void teardown()
		{
			// everything in random order
			for (;;)
			{
				std::vector<std::pair<int, int>> c;
				for (auto& e : exps)
					if (e->living) c.emplace_back(0, e->id);
				for (auto& q : seqs)
					if (q->handle) c.emplace_back(1, q->id);
				for (std::size_t i = 0; i < mocks.size(); ++i)
					if (mocks[i].p) c.emplace_back(2, static_cast<int>(i));
				if (c.empty()) break;
				const auto [k, i] = s.pick(c);
				if (k == 0) destroy(i);
				else if (k == 1) dropSequence(i);
				else
				{
					log("destroy m" + std::to_string(i));
					pushFrame();
					PopFrame pf{*this};
					freeMock(mocks[static_cast<std::size_t>(i)]);
					judgeEnds(top(), {}, {});
				}
				check();
			}
		}

		void teardownQuiet()
		{
			quiet = true;
			throwingReporter = false;
			for (auto& e : exps)
			{
				try
				{
					delete e->handle.release();
				}
				catch (...)
				{
				}
			}
			lazy.clear();
			greedy.clear();
			for (Mock& m : mocks) freeMock(m);
		}

		void run()
		{
			nLazy = s.range(1, prof.seqs);
			nGreedy = s.range(1, prof.seqs);
			lazy.resize(3);
			greedy.resize(3);
			lazySeq.assign(3, -1);
			greedySeq.assign(3, -1);
			for (std::size_t i = 0; i < shapes().size(); ++i) kindShapes[shapes()[i].entry].push_back(static_cast<int>(i));
			throwingReporter = s.coin(1, 4);
			const int n = s.range(1, prof.maxMocks);
			focus = static_cast<int>(s.draw(entryCount));
			newMock(entries[focus].mockKind);
			for (int i = 1; i < n; ++i) newMock(s.coin(1, 2) ? entries[focus].mockKind : s.range(0, mockKinds - 1));
			const int ops = s.range(1, prof.maxOps);
			const int burst = s.range(1, 5);
			for (int i = 0; i < burst; ++i)
			{
				pbt::Span sp{s};
				opCreate();
				check();
			}
			for (int i = 0; i < ops; ++i)
			{
				pbt::Span sp{s};
				step(false);
			}
			teardown();
			for (auto& e : exps) e->spec.pol.clear();
			if (prof.leaks)
			{
				pbt::require(Token::misuse() == 0, "a stored object was used after its destruction or destroyed twice");
				pbt::require(Token::live().empty(), std::to_string(Token::live().size()) + " stored object(s) never destroyed");
			}
		}
	};

	void Reporter::report_no_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> reports)
	{
		active->onVerdict(false, call, reports);
		throw Unmatched{false, active->frames.size() - 1};
	}

	void Reporter::report_inapplicable_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> reports)
	{
		active->onVerdict(true, call, reports);
		throw Unmatched{true, active->frames.size() - 1};
	}

	void Reporter::report_full_match(mimicpp::CallReport call, mimicpp::MatchReport report) noexcept
	{
		active->onMatch(call, report);
	}

	void Reporter::report_unfulfilled_expectation(mimicpp::ExpectationReport report)
	{
		if (active->quiet || active->frames.empty()) return;
		const int id = active->identify(report.sourceLocation);
		active->top().ends.push_back({id, report});
		if (active->throwingReporter && std::uncaught_exceptions() == 0) throw Unfulfilled{id};
	}

	void Reporter::report_error(mimicpp::StringT message)
	{
		if (active->quiet || active->frames.empty()) return;
		active->top().errors.push_back(message);
	}

	void Reporter::report_unhandled_exception(mimicpp::CallReport call, mimicpp::ExpectationReport report, std::exception_ptr exception)
	{
		if (active->quiet || active->frames.empty()) return;
		Warning w{.id = active->identify(report.sourceLocation), .what = "?", .call = call, .report = report};
		try
		{
			if (exception) std::rethrow_exception(exception);
		}
		catch (const BoomStd& e)
		{
			w.what = "#" + std::to_string(e.id);
		}
		catch (const Boom& e)
		{
			w.what = "#" + std::to_string(e.id);
		}
		catch (const int e)
		{
			w.what = "#" + std::to_string(e);
		}
		catch (...)
		{
			w.what = "another type";
		}
		active->top().warnings.push_back(w);
	}

	bool nontrivial(const Machine& m)
	{
		const std::string_view id = m.prof.id;
		if (id == "C01") return m.nMatched > 0 && m.nNoMatch + m.nInapp > 0 && m.nCompeting > 1;
		if (id == "C02") return m.nMatched > 1 && m.nSat + m.nUnfulfilled + m.nBad > 0;
		if (id == "C03") return m.nChoice > 0;
		if (id == "C04") return m.nSeqBlocked > 0 && m.nMatched > 0;
		if (id == "C05") return m.nSeqChoice > 0 && m.nDetermined > 0;
		if (id == "C06") return m.nMatched > 0 && m.nNoMatch + m.nInapp > 0 && m.nCompeting > 1;
		if (id == "C18") return m.nThrew > 0 && m.nCompeting > 0;
		if (id == "C21") return m.nMoves > 0 && (m.nOrphan > 0 || m.nUnfulfilled > 0) && m.nMatched > 0;
		if (id == "C23") return m.nNested > 0 && m.nMatched > 1;
		if (id == "C26") return m.nMatched > 0 && m.nCompeting > 0;
		if (id == "C27") return m.nMatched + m.nNoMatch + m.nInapp > 1 && m.nCompeting > 0;
		return true;
	}

	struct Facts
	{
		bool nontrivial;
		long nCalls, nMatched, nNoMatch, nInapp, nThrew, nNested, nChoice, nSeqChoice, nUnfulfilled, nSeqErr, nMoves, nBad, nCompeting, nSeqBlocked, nCustomVeto, nOrphan, nMultiVote, nDetermined, nSat, nExps;
	};
	Facts theFacts{};

	void facts(const Machine& m)
	{
		theFacts = {nontrivial(m), m.nCalls, m.nMatched, m.nNoMatch, m.nInapp, m.nThrew, m.nNested, m.nChoice, m.nSeqChoice, m.nUnfulfilled, m.nSeqErr, m.nMoves, m.nBad, m.nCompeting, m.nSeqBlocked, m.nCustomVeto, m.nOrphan, m.nMultiVote, m.nDetermined, m.nSat, static_cast<long>(m.exps.size())};
	}

	// Limits far beyond what a history reaches: one expectation, one long run of calls, limits near powers of two.
	class CountingReporter final
		: public mimicpp::IReporter
	{
	public:
		static inline long inapplicable = 0, unfulfilled = 0, full = 0;
		static inline std::string last{};
		[[noreturn]] void report_no_matches(mimicpp::CallReport, std::vector<mimicpp::MatchReport>) override
		{
			pbt::fail("a call that the expectation accepts is reported as not matching");
			std::terminate();
		}
		[[noreturn]] void report_inapplicable_matches(mimicpp::CallReport, std::vector<mimicpp::MatchReport> r) override
		{
			++inapplicable;
			last = r.empty() ? "" : mimicpp::print(r.front());
			throw Unmatched{true, 0};
		}
		void report_full_match(mimicpp::CallReport, mimicpp::MatchReport) noexcept override { ++full; }
		void report_unfulfilled_expectation(mimicpp::ExpectationReport r) override
		{
			++unfulfilled;
			last = r.timesDescription.value_or("");
		}
		void report_error(mimicpp::StringT m) override { last = m; }
		void report_unhandled_exception(mimicpp::CallReport, mimicpp::ExpectationReport, std::exception_ptr) override {}
	};

	void bulkCase(pbt::Src& s, pbt::Case& c)
	{
		mimicpp::install_reporter<CountingReporter>();
		struct Restore
		{
			~Restore() { mimicpp::install_reporter<Reporter>(); }
		} restore{};
		static constexpr long bases[]{128, 256, 1000, 32768, 65536};
		const auto near = [&] { return bases[s.weighted({3, 5, 2, 2, 3})] + s.range(-2, 2); };
		const int kind = static_cast<int>(s.draw(5));
		const long a = near();
		long b = a + s.range(0, 3);
		if (s.coin(1, 3)) b = a + near();
		const bool sequenced = s.coin(1, 3);
		long min = a, max = a;
		if (kind == 0) max = 0x7fffffff;
		else if (kind == 1) min = 0;
		else if (kind == 2) max = b;
		else if (kind == 4) min = 0, max = 0x7fffffff;
		long calls = near();
		if (s.coin(1, 2)) calls = (s.coin(1, 2) ? min : max == 0x7fffffff ? min + near() : max) + s.range(-2, 3);
		calls = std::clamp(calls, 0l, 140000l);
		static const char* const names[]{"at_least", "at_most", "times(a, b)", "times(n)", "at_least(0)"};
		c.log(std::string{"bulk: "} + names[kind] + " of " + std::to_string(min) + ".." + std::to_string(max) + ", " + std::to_string(calls) + " calls" + (sequenced ? ", in a sequence" : ""));
		c.label("bulk cases");
		CountingReporter::inapplicable = CountingReporter::unfulfilled = CountingReporter::full = 0;
		CountingReporter::last.clear();
		long failed = 0;
		mimicpp::LazySequence q{};
		{
			M0 m{};
			const auto set = [&](auto times) -> mimicpp::ScopedExpectation*
			{
				if (sequenced) return new mimicpp::ScopedExpectation{m.expect_call(mimicpp::matches::_) && std::move(times) && mimicpp::expect::in_sequence(q) && mimicpp::finally::returns(7)};
				return new mimicpp::ScopedExpectation{m.expect_call(mimicpp::matches::_) && std::move(times) && mimicpp::finally::returns(7)};
			};
			const int x = static_cast<int>(a), y = static_cast<int>(b);
			mimicpp::ScopedExpectation* e = kind == 0 ? set(mimicpp::expect::at_least(x))
				: kind == 1 ? set(mimicpp::expect::at_most(x))
				: kind == 2 ? set(mimicpp::expect::times(x, y))
				: kind == 3 ? set(mimicpp::expect::times(x))
				: set(mimicpp::expect::at_least(0));
			for (long i = 0; i < calls; ++i)
			{
				try
				{
					pbt::require(m(1) == 7, "wrong outcome");
				}
				catch (const Unmatched&)
				{
					++failed;
				}
				const long done = i + 1;
				if (failed != std::max(0l, done - max))
				{
					delete e;
					pbt::fail("call " + std::to_string(done) + " of an expectation limited to " + std::to_string(min) + ".." + std::to_string(max) + (failed ? " failed" : " was answered"));
				}
				if (done == min || done == min - 1 || i == 0)
				{
					const bool ok = e->is_satisfied();
					if (ok != (std::min(done, max) >= min))
					{
						delete e;
						pbt::fail("is_satisfied() is " + std::to_string(ok) + " after " + std::to_string(done) + " calls of an expectation limited to " + std::to_string(min) + ".." + std::to_string(max));
					}
				}
			}
			delete e;
		}
		const long answered = std::min(calls, max);
		pbt::require(CountingReporter::full == answered && CountingReporter::inapplicable == calls - answered, "wrong number of verdicts");
		pbt::require((CountingReporter::unfulfilled > 0) == (answered < min) && CountingReporter::unfulfilled <= 1,
			"after " + std::to_string(answered) + " answered calls, an expectation limited to " + std::to_string(min) + ".." + std::to_string(max) + " ended with " + std::to_string(CountingReporter::unfulfilled) + " unfulfilled reports");
		c.nontrivial = true;
	}

	// Crowds: far more expectations, sequence elements and calls than the histories have, of simple kinds.
	struct CrowdTag
	{
		int id;
		static bool is_satisfied() noexcept { return true; }
		static bool matches(const auto&) noexcept { return true; }
		static void consume(const auto&) noexcept {}
		std::string describe() const { return "#" + std::to_string(id); }
	};

	class CrowdReporter final
		: public mimicpp::IReporter
	{
	public:
		static inline std::vector<int> listed{}, ended{};
		static inline std::vector<std::string> errors{};
		static inline int verdicts = 0;
		static int idOf(const auto& descriptions, const auto& text)
		{
			for (auto& d : descriptions)
				if (const auto t = text(d); t && t->starts_with("#")) return std::stoi(t->substr(1));
			return -1;
		}
		static int id(const mimicpp::MatchReport& r)
		{
			return idOf(r.expectationReports, [](auto& d) { return d.description; });
		}
		static void take(const std::vector<mimicpp::MatchReport>& r)
		{
			++verdicts;
			listed.clear();
			for (auto& x : r) listed.push_back(id(x));
		}
		[[noreturn]] void report_no_matches(mimicpp::CallReport, std::vector<mimicpp::MatchReport> r) override
		{
			take(r);
			throw Unmatched{false, 0};
		}
		[[noreturn]] void report_inapplicable_matches(mimicpp::CallReport, std::vector<mimicpp::MatchReport> r) override
		{
			take(r);
			throw Unmatched{true, 0};
		}
		void report_full_match(mimicpp::CallReport, mimicpp::MatchReport r) noexcept override { take({r}); }
		void report_unfulfilled_expectation(mimicpp::ExpectationReport r) override
		{
			ended.push_back(idOf(r.expectationDescriptions, [](auto& d) { return d; }));
		}
		void report_error(mimicpp::StringT m) override { errors.push_back(m); }
		void report_unhandled_exception(mimicpp::CallReport, mimicpp::ExpectationReport, std::exception_ptr) override {}
	};

	void crowdCase(const std::string_view pid, pbt::Src& s, pbt::Case& c)
	{
		using mimicpp::ScopedExpectation;
		mimicpp::install_reporter<CrowdReporter>();
		struct Restore
		{
			~Restore() { mimicpp::install_reporter<Reporter>(); }
		} restore{};
		CrowdReporter::errors.clear();
		struct E
		{
			std::unique_ptr<ScopedExpectation> handle;
			int value; // -1: any
			int min, max, group; // 0 none, 1 lazy, 2 greedy
			int count{};
		};
		std::vector<E> all; // by id
		std::vector<int> alive; // ids, oldest first
		std::vector<int> members[3];
		const bool only = pid == "C03";
		const bool judgeLists = pid == "C06";
		{
			M0 mock{};
			std::optional<mimicpp::LazySequence> lazy{std::in_place};
			std::optional<mimicpp::GreedySequence> greedy{std::in_place};
			const int groupMode = only ? 0 : static_cast<int>(s.draw(4)); // 3: mixed
			const int values = s.range(1, 4);
			const int minMode = static_cast<int>(s.draw(3)); // 0 optional, 1 once, 2 mixed
			const bool large = s.coin(1, 2);
			int ops = large ? s.range(250, 700) : s.range(20, 250);
			const int createWeight = s.range(1, 4), endWeight = s.range(0, 2);
			const int prefix = s.range(0, ops);
			// somewhere among them: tens of thousands of optional elements of the sequence, which are never called
			const bool huge = groupMode != 0 && s.coin(1, 20);
			const int hugeAt = huge ? s.range(0, ops - 1) : -1;
			std::vector<std::unique_ptr<M0>> others;
			if (huge) ops = std::min(ops, hugeAt + 80);
			c.label(huge ? "huge sequences" : "crowds");
			c.log("crowd: " + std::to_string(ops) + " operations, " + std::to_string(prefix) + " set-ups first");
			const auto position = [&](const E& e, int id)
			{
				auto& m = members[e.group];
				return std::lower_bound(m.begin(), m.end(), id) - m.begin();
			};
			long cursor[3]{};      // everything in front of it is passed
			const auto open = [&](int id)
			{
				const E& e = all[static_cast<std::size_t>(id)];
				if (!e.group) return true;
				const auto at = position(e, id);
				if (at < cursor[e.group]) return false;
				for (auto i = cursor[e.group]; i < at; ++i)
				{
					const E& o = all[static_cast<std::size_t>(members[e.group][static_cast<std::size_t>(i)])];
					if (o.count < o.min) return false;
				}
				return true;
			};
			int answered = 0, competing = 0;
			const auto create = [&]
			{
				const int id = static_cast<int>(all.size());
				E e;
				e.value = s.coin(1, 3) ? -1 : s.range(0, values - 1);
				e.group = groupMode == 3 ? static_cast<int>(s.draw(3)) : groupMode;
				e.min = minMode == 2 ? s.range(0, 2) : minMode;
				e.max = e.min + s.range(e.min ? 0 : 1, 2);
				const auto set = [&](auto&& b)
				{
					if (e.group == 0) e.handle.reset(new ScopedExpectation{std::move(b)});
					else if (e.group == 1) e.handle.reset(new ScopedExpectation{std::move(b) && mimicpp::expect::in_sequence(*lazy)});
					else e.handle.reset(new ScopedExpectation{std::move(b) && mimicpp::expect::in_sequence(*greedy)});
				};
				if (e.value < 0) set(mock.expect_call(mimicpp::matches::_) && CrowdTag{id} && mimicpp::expect::times(e.min, e.max) && mimicpp::finally::returns(id));
				else set(mock.expect_call(e.value) && CrowdTag{id} && mimicpp::expect::times(e.min, e.max) && mimicpp::finally::returns(id));
				c.log("#" + std::to_string(id) + ": " + (e.value < 0 ? "any" : std::to_string(e.value)) + " " + std::to_string(e.min) + ".." + std::to_string(e.max) + (e.group ? e.group == 1 ? " lazy" : " greedy" : ""));
				members[e.group].push_back(id);
				alive.push_back(id);
				all.push_back(std::move(e));
			};
			const auto end = [&](const std::size_t k)
			{
				const int id = alive[k];
				E& e = all[static_cast<std::size_t>(id)];
				c.log("end #" + std::to_string(id));
				CrowdReporter::ended.clear();
				e.handle.reset();
				alive.erase(alive.begin() + static_cast<std::ptrdiff_t>(k));
				pbt::require(CrowdReporter::ended == (e.count < e.min ? std::vector{id} : std::vector<int>{}), "expectation #" + std::to_string(id) + " of " + std::to_string(e.min) + ".." + std::to_string(e.max) + " calls ended after " + std::to_string(e.count) + " with " + std::to_string(CrowdReporter::ended.size()) + " reports");
			};
			const auto fill = [&]
			{
				const int base = s.coin(1, 2) ? 65536 : 32768, count = base - static_cast<int>(all.size()) + s.range(0, 12);
				for (int i = 0; i < count; ++i)
				{
					if (i % 256 == 0) others.push_back(std::make_unique<M0>());
					const int id = static_cast<int>(all.size());
					E e;
					e.value = -1;
					e.group = groupMode == 3 ? 1 : groupMode;
					e.min = 0, e.max = 1;
					if (e.group == 1) e.handle.reset(new ScopedExpectation{others.back()->expect_call(mimicpp::matches::_) && CrowdTag{id} && mimicpp::expect::at_most(1) && mimicpp::expect::in_sequence(*lazy) && mimicpp::finally::returns(id)});
					else e.handle.reset(new ScopedExpectation{others.back()->expect_call(mimicpp::matches::_) && CrowdTag{id} && mimicpp::expect::at_most(1) && mimicpp::expect::in_sequence(*greedy) && mimicpp::finally::returns(id)});
					members[e.group].push_back(id);
					all.push_back(std::move(e));
				}
				c.log(std::to_string(count) + " optional elements of the sequence, which are never called");
			};
			for (int n = 0; n < ops; ++n)
			{
				if (n == hugeAt) fill();
				const auto op = n < prefix ? 0 : s.weighted({createWeight, 6, endWeight});
				if (op == 0) create();
				else if (op == 2)
				{
					if (!alive.empty()) end(s.draw(static_cast<std::uint32_t>(alive.size())));
				}
				else
				{
					const int v = s.range(0, values);
					c.log("call " + std::to_string(v));
					std::vector<int> match, eligible, rest;
					for (auto it = alive.rbegin(); it != alive.rend(); ++it)
					{
						const E& e = all[static_cast<std::size_t>(*it)];
						if (e.value >= 0 && e.value != v) rest.push_back(*it);
						else if (e.count < e.max && open(*it)) eligible.push_back(*it);
						else match.push_back(*it);
					}
					competing += eligible.size() > 1;
					CrowdReporter::verdicts = 0;
					int got = -1;
					bool inapplicable = false;
					try
					{
						got = mock(v);
					}
					catch (const Unmatched& x)
					{
						inapplicable = x.inapplicable;
					}
					const std::string what = "call " + std::to_string(n) + " with " + std::to_string(v) + ": ";
					if (judgeLists) pbt::require(CrowdReporter::verdicts == 1, what + "not exactly one verdict");
					if (eligible.empty())
					{
						pbt::require(got < 0, what + "answered by #" + std::to_string(got) + ", although nothing is eligible");
						if (judgeLists)
						{
							pbt::require(inapplicable == !match.empty(), what + "wrong kind of verdict");
							pbt::require(CrowdReporter::listed == (match.empty() ? rest : match), what + "the verdict lists other expectations than it should");
						}
						continue;
					}
					pbt::require(got >= 0, what + "failed, although " + std::to_string(eligible.size()) + " expectations are eligible");
					pbt::require(std::ranges::find(eligible, got) != eligible.end(), what + "answered by #" + std::to_string(got) + ", which is not eligible");
					if (judgeLists) pbt::require(CrowdReporter::listed == std::vector{got}, what + "another expectation than the answering one is named");
					E& e = all[static_cast<std::size_t>(got)];
					if (pid == "C03" || pid == "C05")
					{
						int best = -1;
						for (int id : eligible) // newest first
						{
							if (all[static_cast<std::size_t>(id)].group != e.group) continue;
							if (best < 0 || e.group == 1) best = id;
						}
						pbt::require(got == best, what + "answered by #" + std::to_string(got) + " instead of #" + std::to_string(best));
						if (e.group == 0) pbt::require(eligible.front() == got, what + "answered by #" + std::to_string(got) + ", which is older than #" + std::to_string(eligible.front()));
					}
					++answered;
					++e.count;
					if (e.group) cursor[e.group] = position(e, got);
				}
			}
			while (!alive.empty()) end(s.coin(1, 2) ? alive.size() - 1 : s.draw(static_cast<std::uint32_t>(alive.size())));
			CrowdReporter::ended.clear();
			for (auto it = all.rbegin(); it != all.rend(); ++it) it->handle.reset();
			pbt::require(CrowdReporter::errors.empty() && CrowdReporter::ended.empty(), "an unexpected report");
			for (int g = 1; g < 3; ++g)
			{
				CrowdReporter::errors.clear();
				if (g == 1) lazy.reset();
				else greedy.reset();
				long done = -1;
				for (std::size_t i = 0; i < members[g].size() && done < 0; ++i)
				{
					const E& e = all[static_cast<std::size_t>(members[g][i])];
					if (e.count < e.min) done = static_cast<long>(i);
				}
				pbt::require(CrowdReporter::errors.size() == (done >= 0), "a sequence ended with " + std::to_string(CrowdReporter::errors.size()) + " reports");
				if (pid == "C04" && done >= 0)
				{
					// "... k out of n ..."
					std::vector<long> numbers;
					for (const char* p = CrowdReporter::errors[0].c_str(); *p;)
					{
						if (!std::isdigit(static_cast<unsigned char>(*p)))
						{
							++p;
							continue;
						}
						char* q;
						numbers.push_back(std::strtol(p, &q, 10));
						p = q;
					}
					pbt::require(numbers == std::vector{done, static_cast<long>(members[g].size())}, "\"" + CrowdReporter::errors[0] + "\": " + std::to_string(done) + " of " + std::to_string(members[g].size()) + " were done");
				}
			}
			c.nontrivial = answered > 2 && competing > 1;
		}
	}

	void runCase(const Profile& p, pbt::Src& s, pbt::Case& c)
	{
		if (std::string_view{p.id} == "C02" && s.coin(1, 3000)) return bulkCase(s, c);
		if (p.crowds && s.coin(1, 400)) return crowdCase(p.id, s, c);
		static bool installed = false;
		if (!installed)
		{
			installed = true;
			mimicpp::install_reporter<Reporter>();
		}
		// bytes allocated by a whole case, apart from what the engine itself keeps
		const auto leaked = [&p](pbt::Src& src, pbt::Case& cs, const auto& body) -> long
		{
			const auto own = [&]
			{
				return static_cast<long>((cs.text.capacity() > 15 ? cs.text.capacity() + 1 : 0) + src.record().capacity() * 4 + src.spans().capacity() * 16 + src.open().capacity() * 8);
			};
			const long o = own();
			const auto b = static_cast<long>(pbt::allocatedBytes());
			body(src, cs);
			const auto e = static_cast<long>(pbt::allocatedBytes());
			return p.leaks ? (e - b) - (own() - o) : 0;
		};
		long lost = leaked(s, c, [&](pbt::Src& src, pbt::Case& cs) { Machine m{p, src, cs}; m.run(); facts(m); });
		if (lost != 0)
		{
			// the first run may have initialised something that stays; a leak repeats
			for (int i = 0; i < 2 && lost != 0; ++i)
			{
				pbt::Src again{s.record()};
				pbt::Case c2{};
				lost = leaked(again, c2, [&](pbt::Src& src, pbt::Case& cs) { Machine m{p, src, cs}; m.run(); });
			}
			pbt::require(lost == 0, std::to_string(lost) + " bytes are still allocated after everything was destroyed");
		}
		c.nontrivial = theFacts.nontrivial;
		const Facts& m = theFacts;
		const auto l = [&](const char* k, const long v)
		{
			if (v) c.label(k, v);
		};
		l("calls", m.nCalls);
		l("answered", m.nMatched);
		l("no match", m.nNoMatch);
		l("inapplicable", m.nInapp);
		l("calls with a choice", m.nChoice);
		l("calls with a choice among sequenced", m.nSeqChoice);
		l("determined choices", m.nDetermined);
		l("votes of several sequences", m.nMultiVote);
		l("blocked by a sequence", m.nSeqBlocked);
		l("throwing requirements", m.nThrew);
		l("nested operations", m.nNested);
		l("unfulfilled expectations", m.nUnfulfilled);
		l("unfulfilled sequences", m.nSeqErr);
		l("moves", m.nMoves);
		l("rejected set-ups", m.nBad);
		l("expectations outliving their mock", m.nOrphan);
		l("custom vetoes", m.nCustomVeto);
		l("expectations", m.nExps);
	}
}

int main(int argc, char** argv)
{
	for (const Profile& p : profiles)
	{
		static const std::map<std::string, std::string> rules{
			{"C01", "at least one call was answered, one failed, and two calls had several living expectations to consider"},
			{"C02", "two calls were answered, and an expectation was exhausted, ended unfulfilled or was rejected for its limits"},
			{"C03", "a call had several eligible expectations"},
			{"C04", "a sequence blocked an otherwise accepting expectation, and a call was answered"},
			{"C05", "a call had several eligible expectations, some in sequences, with a determined winner"},
			{"C06", "calls were both answered and failed, and two calls had several expectations to consider"},
			{"C18", "a requirement threw, and a call had several other expectations to consider"},
			{"C21", "something was moved, a call was answered, and an expectation outlived its mock or ended unfulfilled"},
			{"C23", "operations were nested in a call, and two calls were answered"},
			{"C26", "a call was answered, and a call had several expectations to consider"},
			{"C27", "two verdicts, and a call had several expectations to consider"},
		};
		const std::string rule = "one case = random history over 1-3 mocks (5 mock types, 11 entries) with generated builder chains, calls, sequences, handle and mock moves, ended in random order; non-trivial: " + rules.at(p.id);
		pbt::Register{p.id, [&p](pbt::Src& s, pbt::Case& c) { runCase(p, s, c); }, rule, 100000, 2000000};
	}
	return pbt::main(argc, argv);
}
