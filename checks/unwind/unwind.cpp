// C19: the default reporter raises faithful errors and stays silent during unwinding.
// A case is a random program (scopes, expectations, sequences, calls, exceptions, catch handlers, code in destructors,
// reassigned handles, installed reporters).  It is executed with real C++ scopes and by a model; both traces must agree.
#include "../../lib/pbt.hpp"
#include <mimic++/mimic++.hpp>

#include <algorithm>
#include <functional>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <sys/wait.h>
#include <unistd.h>

namespace
{
	using pbt::Case;
	using pbt::Src;
	namespace expect = mimicpp::expect;
	namespace finally = mimicpp::finally;
	namespace matches = mimicpp::matches;

	template <typename... T>
	std::string str(const T&... x)
	{
		std::ostringstream o;
		(o << ... << x);
		return o.str();
	}

	// ---- programs -----------------------------------------------------------------------------------------------------
	enum Kind { kExp, kCall, kThrow, kTry, kBlock, kSeq, kGuard, kInstall, kAssign, kMove, kTake, kCheck };
	enum Rep { rDefault0, rDefault1, rSilent, rRecording, rBasic, rCerr };

	struct Spec
	{
		int id{}, mock{}, value{}; // value -1: any
		bool throwing{};           // its requirement throws
		int odd{};                 // what the requirement throws, see raise
		int lo{1}, hi{1};
		int seq{-1};               // index among the sequences in scope
		int seq2{-1};
		int outcome{};             // 0 returns its id, 1 throws UserError
	};
	struct Stmt
	{
		Kind kind{};
		int n{};
		int a{}, b{};
		Spec spec{};
		bool again{};              // the handler rethrows
		std::vector<Stmt> body{}, handler{};
	};
	using Program = std::vector<Stmt>;

	std::string show(const Spec& s)
	{
		return str("E", s.id, " on mock ", s.mock, " arg ", s.throwing ? "throwing" : s.value < 0 ? "any" : str(s.value), " times ", s.lo, "..", s.hi,
			s.seq < 0 ? "" : str(" in sequence ", s.seq), s.seq2 < 0 ? "" : str(" and ", s.seq2), s.outcome ? " throws" : "");
	}

	void show(const Program& p, int depth, std::string& out)
	{
		for (const Stmt& s : p)
		{
			out += std::string(static_cast<std::size_t>(depth) * 2, ' ');
			switch (s.kind)
			{
			case kExp: out += str("expect ", show(s.spec)); break;
			case kCall: out += str("call mock ", s.a, " with ", s.b); break;
			case kThrow: out += str("throw ", s.n); break;
			case kTry: out += "try"; break;
			case kBlock: out += "block"; break;
			case kSeq: out += "sequence"; break;
			case kGuard: out += "at the end of this block"; break;
			case kInstall: out += str("install reporter ", s.a); break;
			case kAssign: out += str("handle ", s.a, " = ", show(s.spec)); break;
			case kMove: out += str("handle ", s.a, " = move(handle ", s.b, ")"); break;
			case kTake: out += str("new handle = move(handle ", s.a, ")"); break;
			case kCheck: out += str("query handle ", s.a); break;
			}
			out += "\n";
			show(s.body, depth + 1, out);
			if (s.kind == kTry)
			{
				out += std::string(static_cast<std::size_t>(depth) * 2, ' ') + "catch\n";
				show(s.handler, depth + 1, out);
				if (s.again) out += std::string(static_cast<std::size_t>(depth) * 2 + 2, ' ') + "rethrow\n";
			}
		}
	}

	struct Gen
	{
		Src& src;
		int nextExp{1}, nextThrow{1}, budget{};
		int seqMade{};

		Spec spec(int seqs)
		{
			Spec s{};
			s.id = nextExp++;
			s.mock = static_cast<int>(src.draw(2));
			s.throwing = src.coin(1, 8);
			s.odd = static_cast<int>(src.draw(7));
			s.value = src.coin(1, 3) ? -1 : static_cast<int>(src.draw(3));
			s.lo = static_cast<int>(src.weighted({2, 5, 1}));
			s.hi = s.lo + static_cast<int>(src.weighted({4, 2, 1}));
			if (s.hi == 0) s.hi = 1;
			if (seqs && src.coin(2, 3))
			{
				s.seq = static_cast<int>(src.draw(static_cast<std::uint32_t>(seqs)));
				s.value = 10 + s.id; // a sequenced one shares no argument with others of its sequence
				s.throwing = false;
			}
			s.outcome = src.coin(1, 8) ? 1 : 0;
			return s;
		}

		Program block(int depth, int handles, int seqs, bool callsKnown)
		{
			Program p;
			const pbt::Span span{src};
			const int n = 1 + static_cast<int>(src.draw(depth == 0 ? 7 : 4));
			for (int k = 0; k < n && budget > 0; ++k)
			{
				--budget;
				Stmt s{};
				const bool deep = depth < 4;
				const std::size_t what = src.weighted({7, 8, 2, deep ? 4 : 0, deep ? 1 : 0, 3, deep ? 1 : 0, 1, handles ? 2 : 0, handles > 1 ? 1 : 0, handles ? 1 : 0, handles ? 1 : 0});
				s.kind = static_cast<Kind>(what);
				switch (s.kind)
				{
				case kExp:
					s.spec = spec(seqs);
					++handles;
					break;
				case kCall:
					s.a = static_cast<int>(src.draw(2));
					s.b = nextExp > 1 && src.coin(1, 3) ? 10 + src.range(1, nextExp - 1) : static_cast<int>(src.draw(3));
					break;
				case kThrow: s.n = nextThrow++; break;
				case kTry:
					s.body = block(depth + 1, handles, seqs, callsKnown);
					if (src.coin(1, 3)) s.handler = block(depth + 1, handles, seqs, callsKnown);
					s.again = src.coin(1, 4);
					break;
				case kBlock: s.body = block(depth + 1, handles, seqs, callsKnown); break;
				case kSeq: ++seqs; break;
				case kGuard: s.body = block(depth + 1, handles, seqs, callsKnown); break;
				case kInstall: s.a = static_cast<int>(src.draw(6)); break;
				case kAssign:
					s.a = static_cast<int>(src.draw(static_cast<std::uint32_t>(handles)));
					s.spec = spec(seqs);
					break;
				case kMove:
					s.a = static_cast<int>(src.draw(static_cast<std::uint32_t>(handles)));
					s.b = static_cast<int>(src.draw(static_cast<std::uint32_t>(handles)));
					break;
				case kTake:
					s.a = static_cast<int>(src.draw(static_cast<std::uint32_t>(handles)));
					++handles;
					break;
				case kCheck: s.a = static_cast<int>(src.draw(static_cast<std::uint32_t>(handles))); break;
				}
				p.push_back(std::move(s));
			}
			return p;
		}
	};

	// ---- events -------------------------------------------------------------------------------------------------------
	struct UserError
	{
		int id;
	};
	struct BasicFail
	{
		std::string text;
	};
	struct Recorded
	{
		std::string text;
	};
	struct BadRequirement
	{
	};
	struct Complaint : std::exception
	{
		std::string text;
		explicit Complaint(std::string t) : text{std::move(t)} {}
		const char* what() const noexcept override { return text.c_str(); }
	};
	struct Twofold : BadRequirement, Complaint
	{
		using Complaint::Complaint;
	};

	// what a requirement throws; empty if it can't tell
	std::string boom(int odd, int id) { return odd == 1 || odd == 2 ? "" : "boom " + std::to_string(id); }
	[[noreturn]] void raise(int odd, int id)
	{
		switch (odd)
		{
		case 1: throw BadRequirement{};
		case 2: throw id;
		case 3: throw std::out_of_range{boom(odd, id)};
		case 4: throw Complaint{boom(odd, id)};
		case 5: throw Twofold{boom(odd, id)};
		case 6: throw std::ios_base::failure{boom(odd, id)};
		default: throw std::runtime_error{boom(odd, id)};
		}
	}

	std::vector<std::string>* trace{};
	void note(std::string s) { trace->push_back(std::move(s)); }

	// the ids named in a text
	std::string ids(const std::string& t)
	{
		std::string r;
		for (std::size_t i = 0; (i = t.find("<E", i)) != std::string::npos; ++i)
		{
			const std::size_t e = t.find('>', i);
			const std::string x = t.substr(i + 1, e - i - 1) + " ";
			r += x;
		}
		return r;
	}
	std::string ids(const mimicpp::MatchReport& m)
	{
		std::string t;
		for (const auto& e : m.expectationReports)
			if (e.description) t += *e.description;
		return ids(t);
	}
	std::string ids(const mimicpp::ExpectationReport& m)
	{
		std::string t;
		for (const auto& e : m.expectationDescriptions)
			if (e) t += *e;
		return ids(t);
	}
	std::string ids(const std::vector<mimicpp::MatchReport>& v)
	{
		std::string t;
		for (const auto& m : v) t += ids(m);
		return t;
	}
	std::string ids(const mimicpp::CallReport& c)
	{
		return c.argDetails.size() == 1 ? c.argDetails[0].stateString : std::string{"?"};
	}

	class Recorder final : public mimicpp::IReporter
	{
		void report_no_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> m) override
		{
			note(str("recorder: no match ", ids(call), " ", ids(m)));
			throw Recorded{str("no match ", ids(call), " ", ids(m))};
		}
		void report_inapplicable_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> m) override
		{
			note(str("recorder: inapplicable ", ids(call), " ", ids(m)));
			throw Recorded{str("inapplicable ", ids(call), " ", ids(m))};
		}
		void report_full_match(mimicpp::CallReport call, mimicpp::MatchReport m) noexcept override { note(str("recorder: match ", ids(call), " ", ids(m))); }
		void report_unfulfilled_expectation(mimicpp::ExpectationReport e) override
		{
			note(str("recorder: unfulfilled ", ids(e)));
			if (std::uncaught_exceptions() == 0) throw Recorded{str("unfulfilled ", ids(e))};
		}
		void report_error(mimicpp::StringT) override { note("recorder: error"); }
		void report_unhandled_exception(mimicpp::CallReport call, mimicpp::ExpectationReport e, std::exception_ptr p) override
		{
			std::string what = "?";
			try
			{
				std::rethrow_exception(p);
			}
			catch (const std::exception& x)
			{
				what = x.what();
			}
			catch (const BadRequirement&)
			{
				what = "bad";
			}
			catch (const int x)
			{
				what = str("int ", x);
			}
			if (what.starts_with("boom ")) what = what.substr(0, what.find(':'));
			note(str("recorder: warning ", ids(call), " ", ids(e), what));
		}
	};

	void basicOk(const mimicpp::StringT& t) { note(str("basic: match ", ids(t))); }
	void basicWarn(const mimicpp::StringT& t)
	{
		const std::size_t at = t.find("boom ");
		note(str("basic: warning ", ids(t), at == t.npos ? "" : t.substr(at, t.find_first_not_of("0123456789", at + 5) - at)));
	}
	[[noreturn]] void basicFail(const mimicpp::StringT& t)
	{
		note(str("basic: fail ", ids(t)));
		throw BasicFail{ids(t)};
	}
	using Basic = mimicpp::BasicReporter<&basicOk, &basicWarn, &basicFail>;

	// ---- real execution -----------------------------------------------------------------------------------------------
	struct Message // of an error
	{
		std::string what;
		int stream;
	};

	struct Real
	{
		std::ostringstream out[3];
		std::streambuf* cerrBefore{};
		mimicpp::Mock<int(int)> mocks[2]{};
		std::vector<mimicpp::ScopedExpectation*> handles{};
		std::vector<bool> filled{};
		std::vector<mimicpp::LazySequence*> seqs{};
		std::vector<std::string> events{};
		std::vector<std::string> messages{};
		int reporter{rDefault0};

		void install(int r)
		{
			reporter = r;
			switch (r)
			{
			case rDefault0: mimicpp::install_reporter<mimicpp::DefaultReporter>(&out[0]); break;
			case rDefault1: mimicpp::install_reporter<mimicpp::DefaultReporter>(&out[1]); break;
			case rSilent: mimicpp::install_reporter<mimicpp::DefaultReporter>(); break;
			case rRecording: mimicpp::install_reporter<Recorder>(); break;
			case rBasic: mimicpp::install_reporter<Basic>(); break;
			case rCerr: mimicpp::install_reporter<mimicpp::DefaultReporter>(&std::cerr); break;
			}
		}

		mimicpp::ScopedExpectation make(const Spec& s)
		{
			const auto requirement = matches::predicate(
				[s](int x) {
					if (s.throwing)
					{
						raise(s.odd, s.id);
					}
					return s.value < 0 || s.value == x;
				},
				str("<E", s.id, ">"),
				str("<!E", s.id, ">"));
			auto& m = mocks[s.mock];
			const auto base = [&] { return m.expect_call(requirement) and expect::times(s.lo, s.hi); };
			const auto end = [&](auto&& b) -> mimicpp::ScopedExpectation {
				return std::move(b) and finally::returns_result_of([s] {
					if (s.outcome) throw UserError{1000 + s.id};
					return s.id;
				});
			};
			if (s.seq >= 0) return end(base() and expect::in_sequence(*seqs[static_cast<std::size_t>(s.seq)]));
			return end(base());
		}

		// inside of a handler
		std::string caught()
		{
			try
			{
				throw;
			}
			catch (const mimicpp::UnmatchedCallT& e)
			{
				const auto& [call, reports] = e.data();
				message(&e, e.what());
				std::string kind = "failed call";
				bool inapplicable = !reports.empty();
				for (const auto& r : reports) inapplicable = inapplicable && mimicpp::evaluate_match_report(r) == mimicpp::MatchResult::inapplicable;
				if (inapplicable) kind = "inapplicable call";
				if (!mimicpp::is_same_source_location(call.fromLoc, e.where())) return "error with a location other than the call's";
				if (call.fromLoc.line() != callLine) return str("error names line ", call.fromLoc.line(), " instead of ", callLine);
				if (call.argDetails.size() != 1 || std::string{e.what()}.find(call.argDetails[0].stateString) == std::string::npos) return "the text lacks the argument";
				const std::string listed = ids(reports);
				for (const auto& r : reports)
					for (const auto& x : r.expectationReports)
						if (x.description && std::string{e.what()}.find(*x.description) == std::string::npos) return "the text lacks an expectation";
				return str(kind, " ", ids(call), " ", listed);
			}
			catch (const mimicpp::UnfulfilledExpectationT& e)
			{
				message(&e, e.what());
				for (const auto& x : e.data().expectationDescriptions)
					if (x && std::string{e.what()}.find(*x) == std::string::npos) return "the text lacks the expectation";
				if (!e.data().timesDescription || std::string{e.what()}.find(*e.data().timesDescription) == std::string::npos) return "the text lacks the times";
				return str("unfulfilled ", ids(e.data()));
			}
			catch (const mimicpp::Error<>& e)
			{
				message(&e, e.what());
				return "error";
			}
			catch (const UserError& e)
			{
				return str("user ", e.id);
			}
			catch (const BasicFail& e)
			{
				return str("basic ", e.text);
			}
			catch (const Recorded& e)
			{
				return str("recorded ", e.text);
			}
			catch (const std::exception& e)
			{
				return str("foreign exception ", e.what());
			}
		}

		void message(const std::exception* e, const char* what)
		{
			lastError = dynamic_cast<const void*>(e);
			// an error that is rethrown is met again
			if (const auto it = std::find(rethrown.begin(), rethrown.end(), lastError); it != rethrown.end()) rethrown.erase(it);
			else messages.emplace_back(what);
		}
		const void* lastError{};
		std::vector<const void*> rethrown{};

		unsigned callLine{};
		void call(int m, int v)
		{
			callLine = __LINE__ + 1;
			const int r = mocks[m](v);
			note(str("returned ", r));
		}

		void run(const Program& p, std::size_t i = 0)
		{
			for (; i < p.size(); ++i)
			{
				const Stmt& s = p[i];
				switch (s.kind)
				{
				case kExp:
				{
					mimicpp::ScopedExpectation e{make(s.spec)};
					handles.push_back(&e);
					struct Pop
					{
						Real& r;
						~Pop() { r.handles.pop_back(); }
					} pop{*this};
					run(p, i + 1);
					return;
				}
				case kTake:
				{
					mimicpp::ScopedExpectation e{std::move(*handles[static_cast<std::size_t>(s.a)])};
					handles.push_back(&e);
					struct Pop
					{
						Real& r;
						~Pop() { r.handles.pop_back(); }
					} pop{*this};
					run(p, i + 1);
					return;
				}
				case kSeq:
				{
					mimicpp::LazySequence q{};
					seqs.push_back(&q);
					struct Pop
					{
						Real& r;
						~Pop() { r.seqs.pop_back(); }
					} pop{*this};
					run(p, i + 1);
					return;
				}
				case kGuard:
				{
					struct Guard
					{
						Real& r;
						const Program& body;
						~Guard()
						{
							try
							{
								r.run(body);
							}
							catch (...)
							{
								note(str("at the end: ", r.caught()));
							}
						}
					} guard{*this, s.body};
					run(p, i + 1);
					return;
				}
				case kCall: call(s.a, s.b); break;
				case kThrow: throw UserError{s.n};
				case kTry:
					try
					{
						run(s.body);
					}
					catch (...)
					{
						lastError = nullptr;
						note(str("caught: ", caught()));
						const void* const error = lastError;
						run(s.handler);
						if (s.again)
						{
							if (error) rethrown.push_back(error);
							throw;
						}
					}
					break;
				case kBlock: run(s.body); break;
				case kInstall: install(s.a); break;
				case kAssign: *handles[static_cast<std::size_t>(s.a)] = make(s.spec); break;
				case kMove: *handles[static_cast<std::size_t>(s.a)] = std::move(*handles[static_cast<std::size_t>(s.b)]); break;
				case kCheck: break;
				}
				note(".");
			}
		}

		// the whole program; returns what is wrong with the streams
		std::string whole(const Program& p, const std::vector<std::vector<std::string>>& warnings, bool installFirst)
		{
			trace = &events;
			struct Redirect
			{
				std::streambuf* before;
				explicit Redirect(std::ostream& o) : before{std::cerr.rdbuf(o.rdbuf())} {}
				~Redirect() { std::cerr.rdbuf(before); }
			} redirect{out[2]};
			if (installFirst) install(rCerr);
			try
			{
				run(p);
				note("end");
			}
			catch (...)
			{
				note(str("end: ", caught()));
			}
			// what the errors say has been written once, to some stream unless there was none
			std::string text[3] = {out[0].str(), out[1].str(), out[2].str()};
			unwritten = 0;
			for (const std::string& m : messages)
			{
				bool found = false;
				for (std::string& t : text)
					if (const std::size_t at = t.find(m + "\n"); !found && at != std::string::npos)
					{
						t.erase(at, m.size() + 1);
						found = true;
					}
				unwritten += !found;
			}
			for (int k = 0; k < 3; ++k)
			{
				std::size_t at = 0;
				for (const std::string& w : warnings[static_cast<std::size_t>(k)])
				{
					// "<E1> what arg"
					std::size_t last = at;
					std::istringstream words{w};
					for (std::string x; std::getline(words, x, '|');)
					{
						const std::size_t here = text[k].find(x, at);
						if (here == std::string::npos) return str("stream ", k, " lacks the warning \"", w, "\": ", text[k]);
						last = std::max(last, here);
					}
					at = last + 1;
				}
				if (warnings[static_cast<std::size_t>(k)].empty() && !text[k].empty()) return str("stream ", k, " has an unexpected text: ", text[k]);
			}
			return "";
		}
		int unwritten{};
	};

	// ---- model --------------------------------------------------------------------------------------------------------
	struct Model
	{
		struct MSeq
		{
			std::vector<int> entries{}; // expectation indices, in order of attachment
			std::size_t cursor{};
			int owners{};
		};
		struct MExp
		{
			Spec spec{};
			bool live{};
			int count{};
			int seq{-1};
			std::size_t pos{};
		};
		struct Exc
		{
			std::string text{};
			int stream{-1}; // the stream it was written to
			bool library{};
		};
		using Res = std::optional<Exc>;

		std::vector<MExp> exps{};
		std::vector<MSeq> seqList{};
		std::vector<int> scopeSeqs{};
		std::vector<int> handles{}; // index of the expectation, -1: empty
		std::vector<std::string> events{};
		std::vector<std::vector<std::string>> warnings{{}, {}, {}};
		int reporter{rCerr};
		bool sequenceThrows{}; // the report of a sequence would have to be thrown
		int suppressed{}, raised{}, silentErrors{};

		int stream() const { return reporter == rDefault0 ? 0 : reporter == rDefault1 ? 1 : reporter == rCerr ? 2 : -1; }
		bool byDefault() const { return reporter == rDefault0 || reporter == rDefault1 || reporter == rCerr || reporter == rSilent; }

		bool done(const MExp& e) const { return e.count >= e.spec.lo; }
		bool consumable(const MExp& e) const
		{
			if (e.seq < 0) return true;
			const MSeq& q = seqList[static_cast<std::size_t>(e.seq)];
			if (e.pos < q.cursor) return false;
			for (std::size_t k = q.cursor; k < e.pos; ++k)
				if (!done(exps[static_cast<std::size_t>(q.entries[k])])) return false;
			return true;
		}

		int make(const Spec& s)
		{
			MExp e{s, true};
			if (s.seq >= 0)
			{
				e.seq = scopeSeqs[static_cast<std::size_t>(s.seq)];
				MSeq& q = seqList[static_cast<std::size_t>(e.seq)];
				e.pos = q.entries.size();
				q.entries.push_back(static_cast<int>(exps.size()));
				++q.owners;
			}
			exps.push_back(e);
			return static_cast<int>(exps.size()) - 1;
		}

		Res raise(std::string byDefaultText, std::string recorded, std::string names)
		{
			++raised;
			if (reporter == rRecording)
			{
				events.push_back("recorder: " + recorded);
				return Exc{"recorded " + recorded};
			}
			if (reporter == rBasic)
			{
				events.push_back("basic: fail " + names);
				return Exc{"basic " + names};
			}
			if (stream() < 0) ++silentErrors;
			return Exc{std::move(byDefaultText), stream(), true};
		}

		Res release(int seq, bool flying)
		{
			if (seq < 0) return {};
			MSeq& q = seqList[static_cast<std::size_t>(seq)];
			if (--q.owners > 0) return {};
			bool missing = false;
			for (std::size_t k = q.cursor; k < q.entries.size(); ++k) missing = missing || !done(exps[static_cast<std::size_t>(q.entries[k])]);
			if (!missing) return {};
			if (reporter == rRecording)
			{
				events.push_back("recorder: error");
				return {};
			}
			if (flying) return {};
			sequenceThrows = true;
			if (reporter == rBasic)
			{
				events.push_back("basic: fail ");
				return Exc{"basic "};
			}
			if (stream() < 0) ++silentErrors;
			return Exc{"error", stream(), true};
		}

		Res end(int h, bool flying)
		{
			if (h < 0) return {};
			MExp& e = exps[static_cast<std::size_t>(h)];
			e.live = false;
			Res r{};
			const std::string me = str("E", e.spec.id, " ");
			if (!done(e))
			{
				if (flying)
				{
					++suppressed;
					if (reporter == rRecording) events.push_back("recorder: unfulfilled " + me);
				}
				else r = raise("unfulfilled " + me, "unfulfilled " + me, me);
			}
			if (Res r2 = release(e.seq, flying || r); r2 && !r) r = r2;
			return r;
		}

		Res call(int m, int v)
		{
			std::vector<int> content;
			int best = -1;
			std::string none, inapplicable;
			const std::string arg = str(v);
			for (int k = static_cast<int>(exps.size()) - 1; k >= 0; --k)
			{
				MExp& e = exps[static_cast<std::size_t>(k)];
				if (!e.live || e.spec.mock != m) continue;
				const std::string me = str("E", e.spec.id, " ");
				if (e.spec.throwing)
				{
					const std::string what = boom(e.spec.odd, e.spec.id);
					if (reporter == rRecording) pending.push_back(str("recorder: warning ", arg, " ", me, what.empty() ? e.spec.odd == 1 ? "bad" : str("int ", e.spec.id) : what));
					else if (reporter == rBasic) pending.push_back("basic: warning " + me + what);
					else if (stream() >= 0) warnings[static_cast<std::size_t>(stream())].push_back(str("<E", e.spec.id, ">|", what.empty() ? "" : what + "|", arg));
					continue;
				}
				if (e.spec.value >= 0 && e.spec.value != v)
				{
					none += me;
					continue;
				}
				if (e.count < e.spec.hi && consumable(e))
				{
					if (best < 0) best = k;
				}
				else inapplicable += me;
			}
			for (auto& p : pending) events.push_back(std::move(p));
			pending.clear();
			if (best < 0)
			{
				if (!inapplicable.empty())
					return raise(str("inapplicable call ", arg, " ", inapplicable), str("inapplicable ", arg, " ", inapplicable), inapplicable);
				return raise(str("failed call ", arg, " ", none), str("no match ", arg, " ", none), none);
			}
			MExp& e = exps[static_cast<std::size_t>(best)];
			++e.count;
			if (e.seq >= 0) seqList[static_cast<std::size_t>(e.seq)].cursor = e.pos;
			if (reporter == rRecording) events.push_back(str("recorder: match ", arg, " E", e.spec.id, " "));
			else if (reporter == rBasic) events.push_back(str("basic: match E", e.spec.id, " "));
			if (e.spec.outcome) return Exc{str("user ", 1000 + e.spec.id)};
			events.push_back(str("returned ", e.spec.id));
			return {};
		}
		std::vector<std::string> pending{};

		Res run(const Program& p, bool flying, std::size_t i = 0)
		{
			for (; i < p.size(); ++i)
			{
				const Stmt& s = p[i];
				Res r{};
				switch (s.kind)
				{
				case kExp:
				case kTake:
				{
					if (s.kind == kExp) handles.push_back(make(s.spec));
					else handles.push_back(std::exchange(handles[static_cast<std::size_t>(s.a)], -1));
					r = run(p, flying, i + 1);
					const int h = handles.back();
					handles.pop_back();
					const Res r2 = end(h, flying || r);
					return r ? r : r2;
				}
				case kSeq:
				{
					seqList.push_back({{}, 0, 1});
					const int q = static_cast<int>(seqList.size()) - 1;
					scopeSeqs.push_back(q);
					r = run(p, flying, i + 1);
					scopeSeqs.pop_back();
					const Res r2 = release(q, flying || r);
					return r ? r : r2;
				}
				case kGuard:
				{
					r = run(p, flying, i + 1);
					if (const Res r2 = run(s.body, flying || r)) events.push_back("at the end: " + r2->text);
					return r;
				}
				case kCall: r = call(s.a, s.b); break;
				case kThrow: return Exc{str("user ", s.n)};
				case kTry:
					if (const Res caught = run(s.body, flying))
					{
						events.push_back("caught: " + caught->text);
						r = run(s.handler, flying);
						if (!r && s.again) r = caught;
					}
					break;
				case kBlock: r = run(s.body, flying); break;
				case kInstall: reporter = s.a; break;
				case kAssign:
				{
					const int fresh = make(s.spec);
					r = end(std::exchange(handles[static_cast<std::size_t>(s.a)], fresh), flying);
					break;
				}
				case kMove:
					if (s.a != s.b)
					{
						const int moved = std::exchange(handles[static_cast<std::size_t>(s.b)], -1);
						r = end(std::exchange(handles[static_cast<std::size_t>(s.a)], moved), flying);
					}
					break;
				case kCheck: break;
				}
				if (r) return r;
				events.push_back(".");
			}
			return {};
		}

		void whole(const Program& p)
		{
			if (const Res r = run(p, false)) events.push_back("end: " + r->text);
			else events.push_back("end");
		}
	};

	bool installedBefore = false;

	std::string compare(const Program& p, const Model& m)
	{
		Real r{};
		// in a fresh process nothing needs to be installed
		const std::string streams = r.whole(p, m.warnings, installedBefore);
		installedBefore = true;
		std::string diff;
		for (std::size_t k = 0; k < std::max(r.events.size(), m.events.size()) && diff.empty(); ++k)
		{
			const std::string a = k < m.events.size() ? m.events[k] : "(nothing)", b = k < r.events.size() ? r.events[k] : "(nothing)";
			if (a != b) diff = str("event ", k, ": expected \"", a, "\", got \"", b, "\"");
		}
		if (!diff.empty()) return diff;
		if (r.unwritten > m.silentErrors) return str(r.unwritten, " errors were not written to the stream, expected ", m.silentErrors);
		return streams;
	}

	void run(Src& src, Case& c)
	{
		Gen g{src};
		g.budget = 26;
		const Program p = g.block(0, 0, 0, false);
		std::string text;
		show(p, 0, text);
		c.log(text);
		Model m{};
		m.whole(p);
		if (m.raised && m.suppressed) c.nontrivial = true;
		c.label(m.suppressed ? "reports during unwinding" : m.raised ? "raised errors" : "quiet");
		if (m.sequenceThrows)
		{
			c.label("sequence report");
			// recorded finding: this report ends the program; see what happens in a process of its own
			std::fflush(nullptr);
			const pid_t child = fork();
			if (child == 0)
			{
				std::set_terminate([] { _exit(77); });
				alarm(20);
				const std::string d = compare(p, m);
				_exit(d.empty() ? 0 : 1);
			}
			int status = 0;
			waitpid(child, &status, 0);
			if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return;
			if (WIFEXITED(status) && WEXITSTATUS(status) == 77) c.known.push_back("sequence-report-terminates");
			else pbt::fail(str("the program with a sequence report ends with status ", status));
			return;
		}
		const std::string d = compare(p, m);
		if (!d.empty()) pbt::fail(d);
	}

	const pbt::Register r19{"C19", run,
		"a case is a random program of scopes, expectations, calls and exceptions; non-trivial if errors were raised and an end-of-life report was suppressed during unwinding",
		300000, 10000000};
}

int main(int argc, char** argv) { return pbt::main(argc, argv); }
