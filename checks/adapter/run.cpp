// Executes the programs with mimic++; knows nothing of the framework.
#include "run.hpp"
#include <mimic++/mimic++.hpp>

#include <cstdlib>
#include <fstream>

namespace adapter
{
	namespace expect = mimicpp::expect;
	namespace finally = mimicpp::finally;
	namespace matches = mimicpp::matches;

	void note(const std::string& s)
	{
		static const char* const file = std::getenv("MIMIC_OUT");
		if (!file) return;
		static std::ofstream o{file};
		std::string line = s + "\n";
		o << line << std::flush;
	}

	void (*onCaught)(bool) = [](bool) {};

	const Program& program(int i)
	{
		static const std::vector<Program> all = [] {
			std::ifstream in{std::getenv("MIMIC_SUITE")};
			std::vector<Program> v(kCases);
			for (Program& p : v) get(in, p);
			return v;
		}();
		return all[static_cast<std::size_t>(i)];
	}

	struct UserError
	{
		int id;
	};

	struct Real
	{
		mimicpp::LazySequence own{};
		mimicpp::Mock<int(int)> mocks[2]{};
		std::vector<mimicpp::ScopedExpectation*> handles{};
		std::vector<mimicpp::LazySequence*> seqs{&own};

		mimicpp::ScopedExpectation make(const Spec& s)
		{
			const auto requirement = matches::predicate(
				[s](int x) {
					if (s.throwing == 2) throw 42;
					if (s.throwing) throw std::runtime_error{"boom"};
					return s.value < 0 || kArg + s.value == x;
				},
				str("<E", s.id, ">"),
				str("<E", s.id, ">"));
			auto& m = mocks[s.mock];
			const auto sequenced = [&](auto&& b) -> mimicpp::ScopedExpectation {
				const auto end = [&](auto&& x) -> mimicpp::ScopedExpectation {
					return std::move(x) and finally::returns_result_of([s] {
						if (s.outcome) throw UserError{1000 + s.id};
						return s.id;
					});
				};
				if (s.seq >= 0) return end(std::move(b) and expect::in_sequence(*seqs[static_cast<std::size_t>(s.seq)]));
				return end(std::move(b));
			};
			if (s.times && s.lo == 1 && s.hi == 1) return sequenced(m.expect_call(requirement));
			if (s.times && s.lo == 2 && s.hi == 2) return sequenced(m.expect_call(requirement) and expect::twice());
			if (s.times && s.lo == 0) return sequenced(m.expect_call(requirement) and expect::at_most(s.hi));
			return sequenced(m.expect_call(requirement) and expect::times(s.lo, s.hi));
		}

		struct Pop
		{
			Real& r;
			~Pop() { r.handles.pop_back(); }
		};

		void run(const Program& p, std::size_t i = 0)
		{
			for (; i < p.size(); ++i)
			{
				const Stmt& s = p[i];
				switch (s.kind)
				{
				case kExp:
				{
					mimicpp::ScopedExpectation e{make(s.spec)};
					handles.push_back(&e);
					Pop pop{*this};
					run(p, i + 1);
					return;
				}
				case kTake:
				{
					mimicpp::ScopedExpectation e{std::move(*handles[static_cast<std::size_t>(s.a)])};
					handles.push_back(&e);
					Pop pop{*this};
					run(p, i + 1);
					return;
				}
				case kSeq:
				{
					mimicpp::LazySequence q{};
					seqs.push_back(&q);
					struct PopSeq
					{
						Real& r;
						~PopSeq() { r.seqs.pop_back(); }
					} pop{*this};
					run(p, i + 1);
					return;
				}
				case kCall:
				{
					const int r = mocks[s.a](kArg + s.b);
					note(str("returned ", r));
					break;
				}
				case kThrow: throw UserError{s.a};
				case kTry:
					if (s.all)
					{
						try
						{
							run(s.body);
						}
						catch (const UserError& e)
						{
							note(str("caught user ", e.id));
							run(s.handler);
							if (s.again) throw;
						}
						catch (...)
						{
							onCaught(false);
							note("caught report");
							run(s.handler);
							if (s.again)
							{
								onCaught(true);
								throw;
							}
						}
					}
					else
					{
						try
						{
							run(s.body);
						}
						catch (const UserError& e)
						{
							note(str("caught user ", e.id));
							run(s.handler);
							if (s.again) throw;
						}
					}
					break;
				case kBlock: run(s.body); break;
				case kNative: nativeCheck(s.a != 0); break;
				case kAssign: *handles[static_cast<std::size_t>(s.a)] = make(s.spec); break;
				}
				note(".");
			}
		}
	};

	Owner::Owner()
		: real{std::make_unique<Real>()}
	{
	}
	Owner::~Owner() = default;
	void Owner::run(int i) const { run(program(i)); }
	void Owner::run(const Program& p) const
	{
		real->run(p);
		note("end");
	}
}
