// C20: random test programs, their execution with mimic++ and the model of their results.
// The engine (adapter_main.cpp) generates suites of programs, the suites (suite.cpp, once per test framework) execute them.
#pragma once
#include <algorithm>
#include <functional>
#include <iostream>
#include <optional>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace adapter
{
	inline constexpr int kCases = 6; // test cases of a suite; odd ones use a fixture
	inline constexpr int kArg = 918273000;

	template <typename... T>
	std::string str(const T&... x)
	{
		std::ostringstream o;
		(o << ... << x);
		return o.str();
	}

	enum Kind { kExp, kCall, kThrow, kTry, kBlock, kSeq, kNative, kTake, kAssign };

	struct Spec
	{
		int id{}, mock{}, value{}; // value -1: any
		int throwing{};            // its requirement throws: 1 runtime_error, 2 int
		int lo{1}, hi{1};
		int seq{-1};               // index among the sequences in scope; 0 is the one of the mocks' owner
		int outcome{};             // 1 throws UserError
		int times{};               // how the limits are written
		int met{};                 // (generator)
	};
	struct Stmt
	{
		int kind{};
		int a{}, b{};
		Spec spec{};
		int all{};   // the handler catches everything
		int again{}; // the handler rethrows
		std::vector<Stmt> body{}, handler{};
	};
	using Program = std::vector<Stmt>;

	inline void put(std::ostream& o, const Program& p)
	{
		o << p.size() << ' ';
		for (const Stmt& s : p)
		{
			const Spec& e = s.spec;
			for (int x : {s.kind, s.a, s.b, e.id, e.mock, e.value, e.throwing, e.lo, e.hi, e.seq, e.outcome, e.times, s.all, s.again}) o << x << ' ';
			put(o, s.body);
			put(o, s.handler);
		}
	}
	inline void get(std::istream& i, Program& p)
	{
		std::size_t n = 0;
		i >> n;
		p.resize(n);
		for (Stmt& s : p)
		{
			Spec& e = s.spec;
			for (int* x : {&s.kind, &s.a, &s.b, &e.id, &e.mock, &e.value, &e.throwing, &e.lo, &e.hi, &e.seq, &e.outcome, &e.times, &s.all, &s.again}) i >> *x;
			get(i, s.body);
			get(i, s.handler);
		}
	}

	inline std::string show(const Spec& s)
	{
		return str("E", s.id, " on mock ", s.mock, " arg ", s.throwing ? "throwing" : s.value < 0 ? "any" : str(s.value), " times ", s.lo, "..", s.hi,
			s.seq < 0 ? "" : str(" in sequence ", s.seq), s.outcome ? " throws" : "");
	}
	inline void show(const Program& p, int depth, std::string& out)
	{
		const std::string in(static_cast<std::size_t>(depth) * 2, ' ');
		for (const Stmt& s : p)
		{
			out += in;
			switch (s.kind)
			{
			case kExp: out += str("expect ", show(s.spec)); break;
			case kCall: out += str("call mock ", s.a, " with ", s.b); break;
			case kThrow: out += str("throw user exception ", s.a); break;
			case kTry: out += "try"; break;
			case kBlock: out += "block"; break;
			case kSeq: out += "sequence"; break;
			case kNative: out += s.a ? "native check that holds" : "native check that fails"; break;
			case kTake: out += str("new handle = move(handle ", s.a, ")"); break;
			case kAssign: out += str("handle ", s.a, " = ", show(s.spec)); break;
			}
			out += "\n";
			show(s.body, depth + 1, out);
			if (s.kind == kTry)
			{
				out += in + (s.all ? "catch (...)\n" : "catch (UserError)\n");
				show(s.handler, depth + 1, out);
				if (s.again) out += in + "  rethrow\n";
			}
		}
	}

	inline void sortWords(std::vector<std::string>& v) { std::sort(v.begin(), v.end()); }
	inline std::string joined(std::vector<std::string> v)
	{
		sortWords(v);
		std::string r;
		for (const auto& x : v) r += " " + x;
		return r;
	}

	// the facts of a report's text: the argument and the expectations it names
	inline std::string facts(const std::string& t)
	{
		std::vector<std::string> v;
		for (std::size_t i = 0; (i = t.find("<E", i)) != std::string::npos; ++i) v.push_back(t.substr(i + 1, t.find('>', i) - i - 1));
		sortWords(v);
		v.erase(std::unique(v.begin(), v.end()), v.end());
		std::string arg;
		const std::string base = std::to_string(kArg / 1000);
		if (const std::size_t at = t.find(base); at != std::string::npos) arg = " " + t.substr(at, base.size() + 3);
		return arg + joined(v);
	}

	// a text as one line
	inline std::string flat(std::string t)
	{
		for (char& c : t)
			if (c == '\n') c = '\x01';
		return t;
	}

	// ---- model --------------------------------------------------------------------------------------------------------
	struct Model
	{
		bool warnings{true};      // the framework shows warnings
		bool fixtureLate{};       // a fixture ends after the exception of its test has been handled

		struct MSeq
		{
			std::vector<int> entries{};
			std::size_t cursor{};
			int owners{};
		};
		struct MExp
		{
			Spec spec{};
			bool live{};
			int count{};
			int seq{-1};
			std::size_t pos{};
		};
		using Res = std::optional<std::string>;

		std::vector<MExp> exps{};
		std::vector<MSeq> seqList{};
		std::vector<int> scopeSeqs{};
		std::vector<int> handles{};
		std::vector<std::string> events{};
		bool sequenceThrows{}; // a sequence's report would have to be thrown
		bool failed{};
		bool suppressed{};     // a verdict was silent because of an exception in flight
		int reports{}, warned{};

		bool done(const MExp& e) const { return e.count >= e.spec.lo; }
		bool consumable(const MExp& e) const
		{
			if (e.seq < 0) return true;
			const MSeq& q = seqList[static_cast<std::size_t>(e.seq)];
			if (e.pos < q.cursor) return false;
			for (std::size_t k = q.cursor; k < e.pos; ++k)
				if (!done(exps[static_cast<std::size_t>(q.entries[k])])) return false;
			return true;
		}
		int make(const Spec& s)
		{
			MExp e{s, true};
			if (s.seq >= 0)
			{
				e.seq = scopeSeqs[static_cast<std::size_t>(s.seq)];
				MSeq& q = seqList[static_cast<std::size_t>(e.seq)];
				e.pos = q.entries.size();
				q.entries.push_back(static_cast<int>(exps.size()));
				++q.owners;
			}
			exps.push_back(e);
			return static_cast<int>(exps.size()) - 1;
		}
		Res fail(const std::string& text)
		{
			++reports;
			failed = true;
			events.push_back("FAIL" + text);
			return "report";
		}
		Res release(int seq, bool flying)
		{
			if (seq < 0) return {};
			MSeq& q = seqList[static_cast<std::size_t>(seq)];
			if (--q.owners > 0) return {};
			bool missing = false;
			for (std::size_t k = q.cursor; k < q.entries.size(); ++k) missing = missing || !done(exps[static_cast<std::size_t>(q.entries[k])]);
			if (!missing) return {};
			if (flying)
			{
				suppressed = true;
				return {};
			}
			sequenceThrows = true;
			return fail("");
		}
		Res end(int h, bool flying)
		{
			if (h < 0) return {};
			MExp& e = exps[static_cast<std::size_t>(h)];
			e.live = false;
			Res r{};
			if (!done(e))
			{
				if (flying) suppressed = true;
				else r = fail(str(" E", e.spec.id));
			}
			if (Res r2 = release(e.seq, flying || r); r2 && !r) r = r2;
			return r;
		}
		Res call(int m, int v)
		{
			int best = -1;
			std::vector<std::string> none, inapplicable;
			const std::string arg = str(" ", kArg + v);
			for (int k = static_cast<int>(exps.size()) - 1; k >= 0; --k)
			{
				MExp& e = exps[static_cast<std::size_t>(k)];
				if (!e.live || e.spec.mock != m) continue;
				const std::string me = str("E", e.spec.id);
				if (e.spec.throwing)
				{
					++warned;
					if (warnings) events.push_back("WARN" + arg + " " + me);
					continue;
				}
				if (e.spec.value >= 0 && e.spec.value != v)
				{
					none.push_back(me);
					continue;
				}
				if (e.count < e.spec.hi && consumable(e))
				{
					if (best < 0) best = k;
				}
				else inapplicable.push_back(me);
			}
			if (best < 0) return fail(arg + joined(inapplicable.empty() ? none : inapplicable));
			MExp& e = exps[static_cast<std::size_t>(best)];
			++e.count;
			if (e.seq >= 0) seqList[static_cast<std::size_t>(e.seq)].cursor = e.pos;
			if (e.spec.outcome) return str("user ", 1000 + e.spec.id);
			events.push_back(str("returned ", e.spec.id));
			return {};
		}
		Res run(const Program& p, bool flying, std::size_t i = 0)
		{
			for (; i < p.size(); ++i)
			{
				const Stmt& s = p[i];
				Res r{};
				switch (s.kind)
				{
				case kExp:
				case kTake:
				{
					if (s.kind == kExp) handles.push_back(make(s.spec));
					else handles.push_back(std::exchange(handles[static_cast<std::size_t>(s.a)], -1));
					r = run(p, flying, i + 1);
					const int h = handles.back();
					handles.pop_back();
					const Res r2 = end(h, flying || r);
					return r ? r : r2;
				}
				case kSeq:
				{
					seqList.push_back({{}, 0, 1});
					const int q = static_cast<int>(seqList.size()) - 1;
					scopeSeqs.push_back(q);
					r = run(p, flying, i + 1);
					scopeSeqs.pop_back();
					const Res r2 = release(q, flying || r);
					return r ? r : r2;
				}
				case kCall: r = call(s.a, s.b); break;
				case kThrow: return str("user ", s.a);
				case kTry:
					if (const Res caught = run(s.body, flying))
					{
						if (*caught == "report" && !s.all)
						{
							r = caught;
							break;
						}
						events.push_back("caught " + *caught);
						r = run(s.handler, flying);
						if (!r && s.again) r = caught;
					}
					break;
				case kBlock: r = run(s.body, flying); break;
				case kNative:
					if (!s.a) failed = true;
					break;
				case kAssign:
				{
					const int fresh = make(s.spec);
					r = end(std::exchange(handles[static_cast<std::size_t>(s.a)], fresh), flying);
					break;
				}
				}
				if (r) return r;
				events.push_back(".");
			}
			return {};
		}
		void whole(const Program& p, bool fixture)
		{
			seqList.push_back({{}, 0, 1});
			scopeSeqs.push_back(0);
			const Res r = run(p, false);
			if (r) failed = true;
			else events.push_back("end");
			release(0, r && !(fixture && fixtureLate));
		}
		// nothing is promised about the result
		bool open() const { return suppressed && !failed; }
	};
}
