// Choice-sequence based property testing engine (see DESIGN.md).
//
// A case is a function of a finite sequence of integers ("choices").  In search mode the choices come from a
// PRNG seeded with (VERIF_SEED, stream name, case index); a failing sequence is shrunk by deleting and reducing
// choices and re-running the case in a forked child; the shrunk sequence is the replay file.
#pragma once

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cinttypes>
#include <climits>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#ifdef PBT_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace pbt
{
	inline std::uint64_t splitmix(std::uint64_t& s)
	{
		std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}

	inline std::uint64_t fnv(const std::string& s, std::uint64_t h = 1469598103934665603ull)
	{
		for (const unsigned char c : s)
		{
			h ^= c;
			h *= 1099511628211ull;
		}
		return h;
	}

	// Deliberately not derived from std::exception, so that no handler in the code under test takes it for its own.
	struct Failure
	{
		std::string msg;
	};

	struct Discard
	{
	};

	class Src
	{
	public:
		explicit Src(std::uint64_t seed)
			: m_State{seed}
		{
		}

		explicit Src(std::vector<std::uint32_t> choices)
			: m_Replay{true},
			m_In{std::move(choices)}
		{
		}

		// choices made by somebody else
		using External = std::uint32_t (*)(void*, std::uint32_t);
		explicit Src(External external, void* context)
			: m_External{external},
			m_Context{context}
		{
		}

		// a choice from [0, n)
		std::uint32_t draw(std::uint32_t n)
		{
			if (n == 0) n = 1;
			if (m_External) return m_External(m_Context, n);
			std::uint32_t v{};
			if (m_Replay)
				v = m_Pos < m_In.size() ? m_In[m_Pos] % n : 0u;
			else if (m_Rec.size() < maxChoices)
				v = static_cast<std::uint32_t>((splitmix(m_State) >> 32) % n);
			++m_Pos;
			m_Rec.push_back(v);
			if (mirror && m_Rec.size() <= maxChoices)
			{
				mirror[m_Rec.size()] = v;
				mirror[0] = static_cast<std::uint32_t>(m_Rec.size());
			}
			return v;
		}

		int range(int lo, int hi) // inclusive
		{
			return lo + static_cast<int>(draw(static_cast<std::uint32_t>(hi - lo + 1)));
		}

		bool coin(std::uint32_t num, std::uint32_t den) // true with probability num/den; shrinks to false
		{
			return draw(den) >= den - num;
		}

		std::uint64_t bits()
		{
			std::uint64_t r = draw(0x10000u);
			r = (r << 16) | draw(0x10000u);
			r = (r << 16) | draw(0x10000u);
			return (r << 16) | draw(0x10000u);
		}

		template <typename T>
		const T& pick(const std::vector<T>& v)
		{
			return v[draw(static_cast<std::uint32_t>(v.size()))];
		}

		// weighted choice, index 0 is the simplest
		std::size_t weighted(const std::vector<int>& w)
		{
			int sum = 0;
			for (const int x : w) sum += x;
			int r = static_cast<int>(draw(static_cast<std::uint32_t>(sum)));
			for (std::size_t i = 0; i < w.size(); ++i)
			{
				if (r < w[i]) return i;
				r -= w[i];
			}
			return w.size() - 1;
		}

		void begin() { m_Open.push_back(m_Rec.size()); }
		void end()
		{
			m_Spans.emplace_back(m_Open.back(), m_Rec.size());
			m_Open.pop_back();
		}

		const std::vector<std::uint32_t>& record() const { return m_Rec; }
		const std::vector<std::pair<std::size_t, std::size_t>>& spans() const { return m_Spans; }
		const std::vector<std::size_t>& open() const { return m_Open; }

		static constexpr std::size_t maxChoices = 60000;
		static inline std::uint32_t* mirror = nullptr; // shared memory that survives a crash of the case

	private:
		External m_External{};
		void* m_Context{};
		bool m_Replay{};
		std::vector<std::uint32_t> m_In{};
		std::uint64_t m_State{};
		std::size_t m_Pos{};
		std::vector<std::uint32_t> m_Rec{};
		std::vector<std::size_t> m_Open{};
		std::vector<std::pair<std::size_t, std::size_t>> m_Spans{};
	};

	struct Span
	{
		Src& s;
		explicit Span(Src& src)
			: s{src}
		{
			s.begin();
		}
		~Span() { s.end(); }
	};

	struct Case
	{
		std::string text;                 // the case written out
		bool nontrivial = false;          // by the rule stated for the property
		std::map<std::string, long> labels;
		std::vector<std::string> known;   // known findings met by this case
		bool verbose = false;             // replay: also print while running
		static constexpr std::size_t mirrorSize = 1 << 18;
		static inline char* mirror = nullptr; // shared memory that survives a crash of the case

		void log(const std::string& s)
		{
			text += s;
			text += '\n';
			if (mirror && text.size() < mirrorSize) std::memcpy(mirror, text.data(), text.size());
			if (verbose)
			{
				std::fputs(s.c_str(), stdout);
				std::fputc('\n', stdout);
				std::fflush(stdout);
			}
		}

		void label(const std::string& s, long n = 1) { labels[s] += n; }
	};

	[[noreturn]] inline void fail(const std::string& msg) { throw Failure{msg}; }

	inline void require(bool ok, const std::string& msg)
	{
		if (!ok) throw Failure{msg};
	}

	using CaseFn = std::function<void(Src&, Case&)>;

	struct Property
	{
		CaseFn fn;
		std::string rule;
		long quickCases;
		long thoroughCases;
		bool schedule = false; // the outcome depends on the schedule: repeat to reproduce
	};

	inline std::map<std::string, Property>& registry()
	{
		static std::map<std::string, Property> r{};
		return r;
	}

	struct Register
	{
		Register(std::string name, CaseFn fn, std::string rule, long quick, long thorough, bool schedule = false)
		{
			registry()[std::move(name)] = Property{std::move(fn), std::move(rule), quick, thorough, schedule};
		}
	};

	// ---------------------------------------------------------------------------------------------------------

	inline std::string jsonEscape(const std::string& s)
	{
		std::string o;
		for (const unsigned char c : s)
		{
			switch (c)
			{
			case '"': o += "\\\""; break;
			case '\\': o += "\\\\"; break;
			case '\n': o += "\\n"; break;
			case '\t': o += "\\t"; break;
			default:
				if (c < 0x20 || c >= 0x7f)
				{
					char b[8];
					std::snprintf(b, sizeof b, "\\u%04x", c);
					o += b;
				}
				else o += static_cast<char>(c);
			}
		}
		return o;
	}

	struct Shared
	{
		volatile long current;    // index of the running case, -1: none
		volatile long started;    // monotonically increasing heartbeat
		volatile long failed;     // index of a failed case, -1: none
		volatile long done;
		char msg[4096];
	};

	struct Outcome
	{
		bool ok = true;
		bool hang = false;
		std::string msg;
		std::string text;
		std::vector<std::uint32_t> record;
		std::vector<std::pair<std::size_t, std::size_t>> spans;
	};

	inline double now()
	{
		return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
	}

	inline std::uint64_t caseSeed(std::uint64_t seed, const std::string& name, long index)
	{
		std::uint64_t s = seed * 0x9e3779b97f4a7c15ull ^ fnv(name) ^ (static_cast<std::uint64_t>(index) * 0xd1342543de82ef95ull);
		splitmix(s);
		return splitmix(s);
	}

	// Runs one case in this process; returns true if it passed.
	inline bool runHere(const Property& p, Src& src, Case& c, std::string& msg)
	{
		try
		{
			p.fn(src, c);
			return true;
		}
		catch (const Discard&)
		{
			c.label("discarded");
			c.nontrivial = false;
			return true;
		}
		catch (const Failure& f)
		{
			msg = f.msg;
		}
		catch (const std::exception& e)
		{
			msg = std::string{"unexpected exception: "} + e.what();
		}
		catch (...)
		{
			msg = "unexpected exception of unknown type";
		}
		return false;
	}

	inline void writeAll(int fd, const void* p, std::size_t n)
	{
		const char* c = static_cast<const char*>(p);
		while (n > 0)
		{
			const ssize_t k = ::write(fd, c, n);
			if (k <= 0)
			{
				if (k < 0 && errno == EINTR) continue;
				return;
			}
			c += k;
			n -= static_cast<std::size_t>(k);
		}
	}

	inline void putStr(int fd, const std::string& s)
	{
		const std::uint64_t n = s.size();
		writeAll(fd, &n, sizeof n);
		writeAll(fd, s.data(), n);
	}

	inline std::string slurp(const std::string& path)
	{
		std::ifstream f{path, std::ios::binary};
		std::stringstream ss;
		ss << f.rdbuf();
		return ss.str();
	}

	inline std::string describeStatus(int st)
	{
		std::ostringstream o;
		if (WIFSIGNALED(st)) o << "terminated by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
		else o << "exited with status " << WEXITSTATUS(st);
		return o.str();
	}

	// Runs one case in a forked child, with everything it prints kept in a file.
	inline Outcome runForked(const Property& p, const std::function<Src()>& make, double timeout, const std::string& tmp)
	{
		const std::string outPath = tmp + ".out";
		const std::string errPath = tmp + ".err";
		::unlink(outPath.c_str());
		static char* const shared = static_cast<char*>(::mmap(nullptr, (Src::maxChoices + 16) * 4 + Case::mirrorSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		auto* const recMem = reinterpret_cast<std::uint32_t*>(shared);
		char* const textMem = shared + (Src::maxChoices + 16) * 4;
		recMem[0] = 0;
		std::memset(textMem, 0, Case::mirrorSize);
		const auto fromMirror = [&](Outcome& o)
		{
			o.record.assign(recMem + 1, recMem + 1 + recMem[0]);
			o.text = std::string{textMem, ::strnlen(textMem, Case::mirrorSize)};
		};
		std::fflush(nullptr);
		const pid_t pid = ::fork();
		if (pid == 0)
		{
			::setpgid(0, 0);
			const int e = ::open(errPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
			::dup2(e, 2);
			::dup2(e, 1);
			Src::mirror = recMem;
			Case::mirror = textMem;
			Src src = make();
			Case c;
			std::string msg;
			const bool ok = runHere(p, src, c, msg);
			const int f = ::open(outPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
			const char okc = ok ? 1 : 0;
			writeAll(f, &okc, 1);
			putStr(f, msg);
			putStr(f, c.text);
			const std::uint64_t n = src.record().size();
			writeAll(f, &n, sizeof n);
			writeAll(f, src.record().data(), n * 4);
			const std::uint64_t m = src.spans().size();
			writeAll(f, &m, sizeof m);
			for (const auto& [a, b] : src.spans())
			{
				const std::uint64_t ab[2]{a, b};
				writeAll(f, ab, sizeof ab);
			}
			::close(f);
			std::fflush(nullptr);
			::_exit(0);
		}
		Outcome o;
		const double t0 = now();
		int st = 0;
		int ms = 0;
		for (;;)
		{
			const pid_t r = ::waitpid(pid, &st, WNOHANG);
			if (r == pid) break;
			if (now() - t0 > timeout)
			{
				::kill(-pid, SIGKILL);
				::kill(pid, SIGKILL);
				::waitpid(pid, &st, 0);
				o.ok = false;
				o.hang = true;
				o.msg = "the case does not end (no progress for " + std::to_string(static_cast<int>(timeout)) + " s)";
				fromMirror(o);
				return o;
			}
			::usleep(ms < 20 ? 200 : 2000);
			++ms;
		}
		const std::string data = slurp(outPath);
		if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || data.empty())
		{
			o.ok = false;
			std::string err = slurp(errPath);
			if (err.size() > 3000) err = err.substr(0, 3000);
			o.msg = "crash: " + describeStatus(st) + "\n" + err;
			fromMirror(o);
			return o;
		}
		std::size_t pos = 0;
		const auto get = [&](void* d, std::size_t n)
		{
			if (pos + n <= data.size()) std::memcpy(d, data.data() + pos, n);
			pos += n;
		};
		char okc = 0;
		get(&okc, 1);
		const auto getStr = [&]
		{
			std::uint64_t n = 0;
			get(&n, sizeof n);
			std::string s = pos + n <= data.size() ? data.substr(pos, n) : std::string{};
			pos += n;
			return s;
		};
		o.ok = okc == 1;
		o.msg = getStr();
		o.text = getStr();
		std::uint64_t n = 0;
		get(&n, sizeof n);
		o.record.resize(n);
		get(o.record.data(), n * 4);
		get(&n, sizeof n);
		for (std::uint64_t i = 0; i < n; ++i)
		{
			std::uint64_t ab[2]{};
			get(ab, sizeof ab);
			o.spans.emplace_back(ab[0], ab[1]);
		}
		return o;
	}

	// the first failing outcome of several runs, if the schedule matters
	inline Outcome attempt(const Property& p, const std::function<Src()>& make, double timeout, const std::string& tmp, int repeats)
	{
		const double t0 = now();
		Outcome o = runForked(p, make, timeout, tmp);
		for (int k = 1; p.schedule && k < repeats && o.ok && now() - t0 < 30; ++k) o = runForked(p, make, timeout, tmp);
		return o;
	}

	class Shrinker
	{
	public:
		Shrinker(const Property& p, std::string tmp, double timeout, double budget)
			: m_P{p},
			m_Tmp{std::move(tmp)},
			m_Timeout{timeout},
			m_End{now() + budget}
		{
		}

		bool fails(const std::vector<std::uint32_t>& c)
		{
			++runs;
			Outcome o = attempt(m_P, [&] { return Src{c}; }, m_Timeout, m_Tmp, 10);
			if (!o.ok)
			{
				last = o;
				return true;
			}
			return false;
		}

		bool more() const { return runs < 1500 && now() < m_End; }

		std::vector<std::uint32_t> shrink(std::vector<std::uint32_t> best)
		{
			// cut the tail
			for (std::size_t k = best.size(); k > 0 && more(); k /= 2)
			{
				while (best.size() >= k && more())
				{
					auto t = best;
					t.resize(t.size() - k);
					if (!fails(t)) break;
					best = t;
				}
			}
			bool progress = true;
			while (progress && more())
			{
				progress = false;
				// delete chunks
				for (std::size_t k : {64u, 32u, 16u, 8u, 7u, 6u, 5u, 4u, 3u, 2u, 1u})
				{
					for (std::size_t i = 0; i + k <= best.size() && more();)
					{
						auto t = best;
						t.erase(t.begin() + static_cast<long>(i), t.begin() + static_cast<long>(i + k));
						if (fails(t))
						{
							best = t;
							progress = true;
						}
						else i += std::max<std::size_t>(1, k / 2);
					}
				}
				// delete a chunk and lower an earlier value by one (counts)
				for (std::size_t i = 0; i < best.size() && more(); ++i)
				{
					if (best[i] == 0 || best[i] > 64) continue;
					for (std::size_t k : {1u, 2u, 3u, 4u, 6u, 8u})
					{
						bool hit = false;
						for (std::size_t j = i + 1; j + k <= best.size() && j < i + 12 && more(); ++j)
						{
							auto t = best;
							--t[i];
							t.erase(t.begin() + static_cast<long>(j), t.begin() + static_cast<long>(j + k));
							if (fails(t))
							{
								best = t;
								hit = progress = true;
								break;
							}
						}
						if (hit) break;
					}
				}
				// reduce values
				for (std::size_t i = 0; i < best.size() && more(); ++i)
				{
					if (best[i] == 0) continue;
					auto t = best;
					t[i] = 0;
					if (fails(t))
					{
						best = t;
						progress = true;
						continue;
					}
					std::uint32_t lo = 0;
					while (best[i] - lo > 1 && more())
					{
						t = best;
						t[i] = lo + (best[i] - lo) / 2;
						if (fails(t))
						{
							best = t;
							progress = true;
						}
						else lo = t[i];
					}
				}
			}
			return best;
		}

		int runs = 0;
		Outcome last;

	private:
		const Property& m_P;
		std::string m_Tmp;
		double m_Timeout;
		double m_End;
	};

	struct Options
	{
		std::string name;
		std::uint64_t seed = 1;
		long cases = -1;
		bool thorough = false;
		int jobs = 8;
		std::string outDir = ".";
		std::string replay;
		double maxSeconds = 600;
		double hang = 60;
		double scale = 1;
	};

	inline void writeReplay(
		const std::string& path,
		const Options& o,
		const std::string& mode,
		const std::vector<std::uint32_t>& choices,
		const std::string& msg,
		const std::string& text)
	{
		std::ofstream f{path};
		f << "# property-based testing replay file; run: checks binary --replay <this file>\n";
		f << "name " << o.name << "\n";
		f << "seed " << o.seed << "\n";
		f << "mode " << mode << "\n";
		f << "choices";
		for (const auto c : choices) f << ' ' << c;
		f << "\n--- failure\n"
		<< msg << "\n--- case\n"
		<< text << "\n";
	}

	inline int replayFile(const Options& opt)
	{
		std::ifstream f{opt.replay};
		std::string line;
		std::string name;
		std::vector<std::uint32_t> choices;
		while (std::getline(f, line))
		{
			std::istringstream is{line};
			std::string k;
			is >> k;
			if (k == "name") is >> name;
			if (k == "choices")
			{
				std::uint32_t v{};
				while (is >> v) choices.push_back(v);
				break;
			}
		}
		const auto it = registry().find(name);
		if (it == registry().end())
		{
			std::printf("unknown property %s\n", name.c_str());
			return 2;
		}
		std::string msg;
		bool ok = true;
		for (int k = 0; ok && k < (it->second.schedule ? 100 : 1); ++k)
		{
			Src src{choices};
			Case c;
			c.verbose = k == 0;
			ok = runHere(it->second, src, c, msg);
		}
		if (ok)
		{
			std::puts("replay: the case passes");
			return 0;
		}
		std::printf("replay: FAILS: %s\n", msg.c_str());
		return 1;
	}

	struct WorkerResult
	{
		long evaluations = 0;
		std::map<std::string, long> labels;
		std::unordered_set<std::uint64_t> hashes;
		std::vector<std::string> samples;
		std::set<std::string> known;
	};

	inline int run(const Options& opt)
	{
		const auto it = registry().find(opt.name);
		if (it == registry().end())
		{
			std::fprintf(stderr, "unknown property %s\n", opt.name.c_str());
			return 2;
		}
		const Property& p = it->second;
		long total = opt.cases >= 0 ? opt.cases : (opt.thorough ? p.thoroughCases : p.quickCases);
		total = std::max(1l, static_cast<long>(static_cast<double>(total) * opt.scale));
		const int jobs = std::max(1, opt.jobs);
		const std::string base = opt.outDir + "/" + opt.name;
		auto* sh = static_cast<Shared*>(::mmap(nullptr, sizeof(Shared) * static_cast<std::size_t>(jobs), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		const double t0 = now();
		std::vector<pid_t> pids(static_cast<std::size_t>(jobs));
		std::fflush(nullptr);
		for (int w = 0; w < jobs; ++w)
		{
			Shared& s = sh[w];
			s.current = -1;
			s.failed = -1;
			s.started = 0;
			s.done = 0;
			s.msg[0] = 0;
			const pid_t pid = ::fork();
			if (pid == 0)
			{
				::setpgid(0, 0);
				const std::string errPath = base + ".w" + std::to_string(w) + ".err";
				const int e = ::open(errPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
				::dup2(e, 2);
				::dup2(e, 1);
				WorkerResult r;
				for (long i = w; i < total; i += jobs)
				{
					if (now() - t0 > opt.maxSeconds) break;
					s.current = i;
					s.started = s.started + 1;
					Src src{caseSeed(opt.seed, opt.name, i)};
					Case c;
					std::string msg;
					const bool ok = runHere(p, src, c, msg);
					++r.evaluations;
					for (const auto& [k, v] : c.labels) r.labels[k] += v;
					for (const auto& k : c.known) r.known.insert(k);
					if (!ok)
					{
						std::strncpy(s.msg, msg.c_str(), sizeof s.msg - 1);
						s.failed = i;
						break;
					}
					if (c.nontrivial)
					{
						const auto h = fnv(c.text);
						if (r.hashes.size() < 4000000) r.hashes.insert(h);
						if (r.samples.size() < 2 && (i / jobs) % 7 == 3) r.samples.push_back(c.text);
					}
				}
				s.current = -1;
				const std::string resPath = base + ".w" + std::to_string(w) + ".res";
				const int f = ::open(resPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
				writeAll(f, &r.evaluations, sizeof r.evaluations);
				std::uint64_t n = r.labels.size();
				writeAll(f, &n, sizeof n);
				for (const auto& [k, v] : r.labels)
				{
					putStr(f, k);
					writeAll(f, &v, sizeof v);
				}
				n = r.hashes.size();
				writeAll(f, &n, sizeof n);
				for (const auto h : r.hashes) writeAll(f, &h, sizeof h);
				n = r.samples.size();
				writeAll(f, &n, sizeof n);
				for (const auto& x : r.samples) putStr(f, x);
				n = r.known.size();
				writeAll(f, &n, sizeof n);
				for (const auto& x : r.known) putStr(f, x);
				::close(f);
				s.done = 1;
				std::fflush(nullptr);
				::_exit(0);
			}
			pids[static_cast<std::size_t>(w)] = pid;
		}

		// supervise
		std::vector<long> beat(static_cast<std::size_t>(jobs), -1);
		std::vector<double> beatTime(static_cast<std::size_t>(jobs), now());
		std::vector<bool> alive(static_cast<std::size_t>(jobs), true);
		struct Suspect
		{
			long index;
			std::string msg;
			bool hang;
			int worker;
		};
		std::vector<Suspect> suspects;
		int living = jobs;
		while (living > 0)
		{
			for (int w = 0; w < jobs; ++w)
			{
				const auto u = static_cast<std::size_t>(w);
				if (!alive[u]) continue;
				int st = 0;
				const pid_t r = ::waitpid(pids[u], &st, WNOHANG);
				Shared& s = sh[w];
				if (r == pids[u])
				{
					alive[u] = false;
					--living;
					if (s.failed >= 0) suspects.push_back({s.failed, s.msg, false, w});
					else if (!s.done) suspects.push_back({s.current, "crash: " + describeStatus(st), false, w});
				}
				else
				{
					if (s.started != beat[u])
					{
						beat[u] = s.started;
						beatTime[u] = now();
					}
					else if (now() - beatTime[u] > opt.hang && s.current >= 0)
					{
						::kill(-pids[u], SIGKILL);
						::kill(pids[u], SIGKILL);
						::waitpid(pids[u], &st, 0);
						alive[u] = false;
						--living;
						suspects.push_back({s.current, "hang", true, w});
					}
				}
			}
			if (!suspects.empty() && living > 0)
			{
				for (int w = 0; w < jobs; ++w)
				{
					const auto u = static_cast<std::size_t>(w);
					if (alive[u])
					{
						::kill(-pids[u], SIGKILL);
						::kill(pids[u], SIGKILL);
						int st = 0;
						::waitpid(pids[u], &st, 0);
						alive[u] = false;
					}
				}
				living = 0;
			}
			if (living > 0) ::usleep(5000);
		}

		// merge what the workers wrote
		WorkerResult all;
		for (int w = 0; w < jobs; ++w)
		{
			const std::string path = base + ".w" + std::to_string(w) + ".res";
			const std::string data = slurp(path);
			::unlink(path.c_str());
			std::size_t pos = 0;
			if (data.size() < 8)
			{
				all.evaluations += sh[w].started;
				continue;
			}
			const auto get = [&](void* d, std::size_t n)
			{
				if (pos + n <= data.size()) std::memcpy(d, data.data() + pos, n);
				pos += n;
			};
			const auto getStr = [&]
			{
				std::uint64_t n = 0;
				get(&n, sizeof n);
				std::string s = pos + n <= data.size() ? data.substr(pos, n) : std::string{};
				pos += n;
				return s;
			};
			long ev = 0;
			get(&ev, sizeof ev);
			all.evaluations += ev;
			std::uint64_t n = 0;
			get(&n, sizeof n);
			for (std::uint64_t i = 0; i < n; ++i)
			{
				const std::string k = getStr();
				long v = 0;
				get(&v, sizeof v);
				all.labels[k] += v;
			}
			get(&n, sizeof n);
			for (std::uint64_t i = 0; i < n; ++i)
			{
				std::uint64_t h = 0;
				get(&h, sizeof h);
				all.hashes.insert(h);
			}
			get(&n, sizeof n);
			for (std::uint64_t i = 0; i < n; ++i) all.samples.push_back(getStr());
			get(&n, sizeof n);
			for (std::uint64_t i = 0; i < n; ++i) all.known.insert(getStr());
		}

		int violations = 0;
		std::string replayPath;
		std::string failMsg;
		std::string unreproduced;
		std::sort(suspects.begin(), suspects.end(), [](const Suspect& a, const Suspect& b) { return a.index < b.index; });
		for (const Suspect& s : suspects)
		{
			if (s.index < 0)
			{
				unreproduced += "worker died outside of a case: " + s.msg + "; ";
				continue;
			}
			const double limit = s.hang ? opt.hang : std::max(20.0, opt.hang);
			const auto make = [&] { return Src{caseSeed(opt.seed, opt.name, s.index)}; };
			const std::string tmp = base + ".try";
			Outcome o;
			int hits = 0;
			const int tries = 3;
			for (int k = 0; k < tries; ++k)
			{
				Outcome x = attempt(p, make, limit, tmp, 100);
				if (!x.ok)
				{
					++hits;
					o = x;
				}
				else break;
			}
			// what the race detector saw needs no confirmation
			const std::string seen = p.schedule ? slurp(base + ".w" + std::to_string(s.worker) + ".err") : std::string{};
			if (hits < tries && seen.find("WARNING: ThreadSanitizer") != std::string::npos)
			{
				if (hits == 0)
				{
					Src src = make();
					o.ok = false;
					o.msg = s.msg + "\n" + seen.substr(0, 4000);
					o.text = "(seen once; the replay repeats the case)";
				}
			}
			else if (hits < tries)
			{
				unreproduced += "case " + std::to_string(s.index) + " failed once (" + s.msg.substr(0, 300) + ") but not when repeated; ";
				continue;
			}
			// raw choices of the case: what the run recorded, or (crash) what the generator would draw
			std::vector<std::uint32_t> choices = o.record;
			std::string mode = "choices";
			Shrinker sk{p, tmp, s.hang ? 5.0 : std::max(20.0, opt.hang), s.hang ? 60.0 : 90.0};
			std::vector<std::uint32_t> best = choices;
			if (!choices.empty() && sk.fails(choices))
			{
				best = sk.shrink(choices);
				sk.fails(best);
				// three confirmations of the shrunk case
				bool stable = true;
				for (int k = 0; k < 2; ++k) stable = stable && sk.fails(best);
				if (stable) o = sk.last;
				else best = choices;
			}
			else mode = "seed " + std::to_string(caseSeed(opt.seed, opt.name, s.index));
			++violations;
			replayPath = base + ".replay";
			failMsg = o.msg;
			std::string text = o.text;
			if (text.empty()) text = "(crash; run the replay to see the steps)";
			writeReplay(replayPath, opt, mode, best, o.msg, text);
			::unlink((tmp + ".out").c_str());
			::unlink((tmp + ".err").c_str());
			break;
		}

		for (int w = 0; w < jobs; ++w) ::unlink((base + ".w" + std::to_string(w) + ".err").c_str());
		// statistics for the driver
		{
			std::ofstream f{base + ".stats.json"};
			f << "{\"name\": \"" << opt.name << "\", \"seed\": " << opt.seed << ", \"requested\": " << total
			<< ", \"evaluations\": " << all.evaluations << ", \"distinct_nontrivial\": " << all.hashes.size()
			<< ", \"wall_s\": " << now() - t0 << ", \"violations\": " << violations
			<< ", \"rule\": \"" << jsonEscape(p.rule) << "\", \"labels\": {";
			bool first = true;
			for (const auto& [k, v] : all.labels)
			{
				f << (first ? "" : ", ") << '"' << jsonEscape(k) << "\": " << v;
				first = false;
			}
			f << "}, \"samples\": [";
			for (std::size_t i = 0; i < all.samples.size() && i < 4; ++i) f << (i ? ", " : "") << '"' << jsonEscape(all.samples[i].substr(0, 1500)) << '"';
			f << "], \"known\": [";
			first = true;
			for (const auto& k : all.known)
			{
				f << (first ? "" : ", ") << '"' << jsonEscape(k) << '"';
				first = false;
			}
			f << "], \"unreproduced\": \"" << jsonEscape(unreproduced) << "\", \"replay\": \"" << jsonEscape(replayPath)
			<< "\", \"message\": \"" << jsonEscape(failMsg.substr(0, 4000)) << "\"}\n";
		}
		return violations ? 1 : 0;
	}

	// Bytes still allocated, used to detect leaks of a case (0 when not measurable).
	inline std::size_t allocatedBytes()
	{
#ifdef PBT_ASAN
		return __sanitizer_get_current_allocated_bytes();
#else
		return 0;
#endif
	}

	inline int main(int argc, char** argv)
	{
		Options o;
		for (int i = 1; i < argc; ++i)
		{
			const std::string a = argv[i];
			const auto next = [&] { return std::string{i + 1 < argc ? argv[++i] : ""}; };
			if (a == "--name") o.name = next();
			else if (a == "--seed") o.seed = std::strtoull(next().c_str(), nullptr, 10);
			else if (a == "--cases") o.cases = std::atol(next().c_str());
			else if (a == "--thorough") o.thorough = true;
			else if (a == "--jobs") o.jobs = std::atoi(next().c_str());
			else if (a == "--out") o.outDir = next();
			else if (a == "--replay") o.replay = next();
			else if (a == "--max-seconds") o.maxSeconds = std::atof(next().c_str());
			else if (a == "--hang") o.hang = std::atof(next().c_str());
			else if (a == "--scale") o.scale = std::atof(next().c_str());
			else if (a == "--list")
			{
				for (const auto& [k, v] : registry()) std::printf("%s\n", k.c_str());
				return 0;
			}
		}
		::setenv("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0", 0);
		if (!o.replay.empty()) return replayFile(o);
		return run(o);
	}
}
