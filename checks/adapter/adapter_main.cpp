// C20: generates suites of test programs, runs them under each framework and compares what the framework reports.
#include "../../lib/pbt.hpp"
#include "run.hpp"
#include <mimic++/mimic++.hpp>

#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>

extern char** environ;

namespace
{
	using namespace adapter;
	using pbt::Case;
	using pbt::Src;

	struct Gen
	{
		Src& src;
		int nextExp{1}, nextThrow{1}, budget{};
		bool kind{}; // calls what is expected, throws rarely

		Spec spec(int seqs)
		{
			Spec s{};
			s.id = nextExp++;
			s.mock = static_cast<int>(src.draw(2));
			s.throwing = src.coin(1, kind ? 40 : 9) ? 1 + static_cast<int>(src.draw(2)) : 0;
			s.value = src.coin(1, 3) ? -1 : static_cast<int>(src.draw(3));
			s.lo = static_cast<int>(src.weighted({2, 5, 1}));
			s.hi = s.lo + static_cast<int>(src.weighted({4, 2, 1}));
			if (s.hi == 0) s.hi = 1;
			s.times = static_cast<int>(src.draw(2));
			if (seqs > 1 ? src.coin(2, 3) : src.coin(1, 5))
			{
				s.seq = static_cast<int>(src.draw(static_cast<std::uint32_t>(seqs)));
				s.value = 10 + s.id; // a sequenced one shares no argument with others of its sequence
				s.throwing = 0;
			}
			s.outcome = src.coin(1, kind ? 30 : 9) ? 1 : 0;
			live.push_back(s);
			return s;
		}
		std::vector<Spec> live{};

		Program block(int depth, int handles, int seqs)
		{
			Program p;
			const pbt::Span span{src};
			const std::size_t before = live.size();
			const int n = 1 + static_cast<int>(src.draw(depth == 0 ? 8 : 4));
			for (int k = 0; k < n && budget > 0; ++k)
			{
				--budget;
				Stmt s{};
				const bool deep = depth < 3;
				s.kind = static_cast<int>(src.weighted({7, kind ? 3 : 12, kind ? 0 : 1, deep ? 3 : 0, deep ? 1 : 0, 2, 1, handles ? 1 : 0, handles ? 1 : 0}));
				switch (s.kind)
				{
				case kExp:
					s.spec = spec(seqs);
					++handles;
					break;
				case kCall:
					// mostly something that an expectation waits for
					if (!live.empty() && (kind || src.coin(7, 8)))
					{
						const Spec& e = src.pick(live);
						s.a = e.mock;
						s.b = e.value < 0 ? static_cast<int>(src.draw(3)) : e.value;
					}
					else
					{
						s.a = static_cast<int>(src.draw(2));
						s.b = static_cast<int>(src.draw(3));
					}
					break;
				case kThrow: s.a = nextThrow++; break;
				case kTry:
					s.body = block(depth + 1, handles, seqs);
					if (src.coin(1, 3)) s.handler = block(depth + 1, handles, seqs);
					s.all = src.coin(1, 2);
					s.again = src.coin(1, 4);
					break;
				case kBlock: s.body = block(depth + 1, handles, seqs); break;
				case kSeq: ++seqs; break;
				case kNative: s.a = src.coin(kind ? 30 : 3, kind ? 31 : 4); break;
				case kTake:
					s.a = static_cast<int>(src.draw(static_cast<std::uint32_t>(handles)));
					++handles;
					break;
				case kAssign:
					s.a = static_cast<int>(src.draw(static_cast<std::uint32_t>(handles)));
					s.spec = spec(seqs);
					break;
				}
				p.push_back(std::move(s));
			}
			// usually the expectations are met
			if (kind)
				for (std::size_t k = before; k < live.size(); ++k)
					if (!live[k].throwing && !live[k].met)
						for (int i = 0; i < live[k].lo; ++i) p.push_back(Stmt{kCall, live[k].mock, std::max(0, live[k].value)});
			for (std::size_t k = before; k < live.size(); ++k) live[k].met = 1;
			return p;
		}
	};

	struct Framework
	{
		const char* name;
		bool warnings, fixtureLate, reportsByMessage;
	};
	constexpr Framework frameworks[]{{"Catch2", true, false, true}, {"doctest", true, false, true}, {"gtest", false, true, true}, {"Boost.Test", true, false, true},
		{"Catch2, prefixed", true, false, true}};

	struct Outcome
	{
		int status{};
		std::vector<std::string> lines{};
	};

	Outcome execute(int framework, const std::vector<Program>& suite)
	{
		static const std::string dir = std::filesystem::read_symlink("/proc/self/exe").parent_path().string();
		const std::string base = str(dir, "/suite-", getpid());
		const std::string in = base + ".in", out = base + ".out";
		{
			std::ofstream f{in};
			for (const Program& p : suite) put(f, p);
		}
		std::vector<std::string> env{"MIMIC_SUITE=" + in, "MIMIC_OUT=" + out};
		for (char** e = environ; *e; ++e)
			if (std::string{*e}.rfind("MIMIC_", 0) != 0) env.emplace_back(*e);
		std::vector<char*> envp;
		for (auto& e : env) envp.push_back(e.data());
		envp.push_back(nullptr);
		std::string exe = str(dir, "/suite", framework);
		char* argv[]{exe.data(), nullptr};
		posix_spawn_file_actions_t fa;
		posix_spawn_file_actions_init(&fa);
		posix_spawn_file_actions_addopen(&fa, 1, "/dev/null", O_WRONLY, 0);
		posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
		pid_t pid{};
		if (posix_spawn(&pid, exe.c_str(), &fa, nullptr, argv, envp.data()) != 0) throw std::runtime_error{"can not start " + exe};
		posix_spawn_file_actions_destroy(&fa);
		Outcome o{};
		waitpid(pid, &o.status, 0);
		std::ifstream f{out};
		for (std::string l; std::getline(f, l);) o.lines.push_back(l);
		unlink(in.c_str());
		unlink(out.c_str());
		return o;
	}

	// the texts of the errors that a program raises with the default reporter
	std::vector<std::string> texts;
	const std::exception* lastError{};
	void remember(bool rethrows)
	{
		try
		{
			throw;
		}
		catch (const std::exception& e)
		{
			if (rethrows) lastError = &e;
			else if (std::exchange(lastError, nullptr) != &e) texts.emplace_back(e.what());
		}
		catch (...)
		{
		}
	}
	std::vector<std::string> textsOf(const Program& p)
	{
		texts.clear();
		lastError = nullptr;
		mimicpp::install_reporter<mimicpp::DefaultReporter>();
		adapter::onCaught = remember;
		try
		{
			Owner{}.run(p);
		}
		catch (...)
		{
			remember(false);
		}
		return texts;
	}

	Model modelOf(const Framework& f, const Program& p, int slot)
	{
		Model m{};
		m.warnings = f.warnings;
		m.fixtureLate = f.fixtureLate;
		m.whole(p, slot % 2 == 1);
		return m;
	}

	void run(Src& src, Case& c)
	{
		std::vector<Program> suite(kCases);
		const int n = 1 + static_cast<int>(src.draw(kCases));
		for (int i = 0; i < n; ++i)
		{
			const pbt::Span span{src};
			Gen g{src};
			g.budget = 16;
			g.kind = src.coin(1, 2);
			// also fixtures are shrunk to
			suite[static_cast<std::size_t>((i * 5) % kCases)] = g.block(0, 0, 1);
		}
		std::string text;
		for (int i = 0; i < kCases; ++i)
			if (!suite[static_cast<std::size_t>(i)].empty())
			{
				text += str(i % 2 ? "test case with fixture t" : "test case t", i, "\n");
				show(suite[static_cast<std::size_t>(i)], 1, text);
			}
		c.log(text);

		bool pass = false, unmatched = false;
		for (int fw = 0; fw < static_cast<int>(std::size(frameworks)); ++fw)
		{
			const Framework& f = frameworks[fw];
			std::vector<Program> here = suite;
			std::vector<Model> models;
			for (int i = 0; i < kCases; ++i)
			{
				Model m = modelOf(f, here[static_cast<std::size_t>(i)], i);
				if (m.sequenceThrows)
				{
					// recorded finding: such a report ends the program; on its own, it must at least not pass
					c.label("sequence report");
					if (src.coin(1, 4))
					{
						std::vector<Program> alone(kCases);
						alone[static_cast<std::size_t>(i)] = here[static_cast<std::size_t>(i)];
						const Outcome o = execute(fw, alone);
						if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 0) pbt::fail(str(f.name, ": test case t", i, " with an unfulfilled sequence passes"));
						if (o.lines.empty() || o.lines.back() != "END passed") c.known.push_back("sequence-report-terminates");
					}
					here[static_cast<std::size_t>(i)].clear();
					m = modelOf(f, {}, i);
				}
				models.push_back(std::move(m));
			}
			const Outcome o = execute(fw, here);
			std::vector<std::string> got;
			std::vector<std::vector<std::string>> shown(kCases);
			int at = 0;
			for (const std::string& l : o.lines)
			{
				if (l.rfind("BEGIN t", 0) == 0) at = std::clamp(std::atoi(l.c_str() + 7), 0, kCases - 1);
				if (l.rfind("TEXT ", 0) == 0) shown[static_cast<std::size_t>(at)].push_back(l);
				else got.push_back(l);
			}
			std::vector<std::string> want;
			bool anyFailed = false, anyOpen = false;
			for (int i = 0; i < kCases; ++i)
			{
				const Model& m = models[static_cast<std::size_t>(i)];
				want.push_back(str("BEGIN t", i));
				want.insert(want.end(), m.events.begin(), m.events.end());
				want.push_back(m.failed ? "END failed" : m.open() ? "END ?" : "END passed");
				anyFailed |= m.failed;
				anyOpen |= m.open();
				if (m.reports) c.label("failing report"), unmatched = true;
				if (m.warned) c.label("warning");
				if (m.open()) c.label("open");
				if (!m.failed && !m.open() && m.exps.size()) pass = true;
			}
			// frameworks name their suites in different orders
			const auto split = [](const std::vector<std::string>& l) {
				std::vector<std::vector<std::string>> v;
				for (const auto& x : l)
				{
					if (v.empty() || x.rfind("BEGIN", 0) == 0) v.emplace_back();
					v.back().push_back(x);
				}
				std::sort(v.begin(), v.end(), [](const auto& a, const auto& b) { return a[0] < b[0]; });
				return v;
			};
			const auto g = split(got), w = split(want);
			for (std::size_t i = 0; i < std::max(g.size(), w.size()); ++i)
			{
				static const std::vector<std::string> nothing{"(nothing)"};
				const auto& a = i < w.size() ? w[i] : nothing;
				const auto& b = i < g.size() ? g[i] : nothing;
				for (std::size_t k = 0; k < std::max(a.size(), b.size()); ++k)
				{
					const std::string x = k < a.size() ? a[k] : "(nothing)", y = k < b.size() ? b[k] : "(nothing)";
					if (x == "END ?" && y.rfind("END", 0) == 0) continue;
					if (x != y) pbt::fail(str(f.name, ", ", a[0], ", event ", k, ": expected \"", x, "\", got \"", y, "\""));
				}
			}
			for (std::size_t i = 0; i < kCases; ++i)
			{
				const std::vector<std::string> t = textsOf(here[i]);
				for (std::size_t k = 0; k < std::max(t.size(), shown[i].size()); ++k)
					if (k >= t.size() || k >= shown[i].size() || shown[i][k].find(flat(t[k])) == std::string::npos)
						pbt::fail(str(f.name, ", t", i, ": the text of failure ", k, " is \"", k < shown[i].size() ? shown[i][k] : "", "\" instead of \"", k < t.size() ? flat(t[k]) : "", "\""));
			}
			if (!WIFEXITED(o.status)) pbt::fail(str(f.name, ": ended by signal ", WTERMSIG(o.status)));
			if (!anyOpen && (WEXITSTATUS(o.status) != 0) != anyFailed) pbt::fail(str(f.name, ": exit status ", WEXITSTATUS(o.status)));
		}
		if (pass && unmatched) c.nontrivial = true;
		c.label("suite");
	}

	const pbt::Register r20{"C20", run,
		"a case is a suite of up to 6 random test programs run under each framework; non-trivial if one of them has expectations and passes and another one is failed by a report",
		20000, 1000000};
}

void adapter::nativeCheck(bool) {}

int main(int argc, char** argv) { return pbt::main(argc, argv); }
