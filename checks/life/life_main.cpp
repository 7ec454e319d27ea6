#include "life.hpp"

using namespace life;
namespace expect = mimicpp::expect;

namespace
{
	// definitions that fail leave their sequences alone
	void sequences(Src& s, Case& c)
	{
		mc::reset();
		living.clear();
		broken.clear();
		failIn = -1;
		int wantErrors = 0, nFaults = 0, nCalls = 0;
		{
			mimicpp::Mock<int(int)> mock{};
			auto lazy = std::make_unique<mimicpp::LazySequence>();
			auto greedy = std::make_unique<mimicpp::GreedySequence>();
			struct E
			{
				std::unique_ptr<mimicpp::ScopedExpectation> handle;
				bool seq[2]{};
				int count{};
				int min{};
			};
			std::vector<E> exps;
			const auto open = [&](std::size_t k)
			{
				if (exps[k].count) return false;
				for (int q = 0; q < 2; ++q)
					if (exps[k].seq[q])
						for (std::size_t i = 0; i < exps.size(); ++i)
						{
							if (!exps[i].seq[q]) continue;
							if (i < k && exps[i].count < exps[i].min) return false;
							if (i > k && exps[i].count) return false;
						}
				return true;
			};
			for (int n = s.range(2, 16); n > 0; --n)
			{
				if (s.draw(2))
				{
					const int id = static_cast<int>(exps.size());
					if (s.coin(1, 2)) failIn = s.range(0, 14);
					const std::size_t before = living.size();
					const auto how = s.draw(8);
					const int min = s.coin(1, 3) ? 0 : 1;
					E e;
					e.min = min;
					e.seq[0] = how != 1 && how != 5;
					e.seq[1] = how == 1 || how == 2 || how == 3 || how == 5;
					try
					{
						const auto finish = [&](auto&& b) { e.handle = std::make_unique<mimicpp::ScopedExpectation>(std::move(b)); };
						switch (how)
						{
						case 0: finish(mock.expect_call(id) && expect::times(min, 1) && expect::in_sequence(*lazy) && then::invoke(Effect{id}) && finally::returns(id)); break;
						case 1: finish(mock.expect_call(id) && then::apply_arg<0>(Effect{0}) && finally::returns_result_of(Make<int>{id}) && expect::in_sequence(*greedy) && expect::times(min, 1)); break;
						case 2: finish(mock.expect_call(id) && expect::in_sequences(*lazy, *greedy) && expect::times(min, 1) && then::apply_all(Effect{0}) && finally::returns(id)); break;
						case 3: finish(mock.expect_call(id) && expect::in_sequence(*lazy) && finally::returns(id) && expect::in_sequence(*greedy) && expect::times(min, 1) && then::invoke(Effect{id})); break;
						case 4: finish(mock.expect_call(mimicpp::matches::eq(Val{id})) && expect::in_sequence(*lazy) && expect::times(min, 1) && finally::returns_apply_result_of<0>(Make<int>{0}) && then::invoke(Effect{id})); break;
						case 5: finish(mock.expect_call(id) && expect::in_sequence(*greedy) && expect::times(min, 1) && expect::arg<0>(mimicpp::matches::eq(Val{id + 1}), Plus{1}) && finally::returns(id) && then::invoke(Effect{id})); break;
						case 6: finish(mock.expect_call(id) && expect::in_sequence(*lazy) && expect::times(min, 1) && finally::throws(Exc{id}) && then::invoke(Effect{id})); break;
						default: finish(mock.expect_call(id) && expect::in_sequence(*lazy) && expect::times(min, 1) && Pol{id} && finally::returns_apply_all_result_of(Make<int>{0})); break;
						}
						failIn = -1;
						exps.push_back(std::move(e));
						c.log("define " + std::to_string(id) + " by definition " + std::to_string(how));
					}
					catch (const Fault&)
					{
						failIn = -1;
						++nFaults;
						c.log("definition " + std::to_string(how) + " fails");
						pbt::require(living.size() == before, "a failed definition left objects behind");
					}
				}
				else if (!exps.empty())
				{
					const int id = s.range(0, static_cast<int>(exps.size()) - 1);
					const std::size_t k = static_cast<std::size_t>(id);
					const bool ok = open(k);
					effects.clear();
					std::string got;
					try
					{
						got = "result " + std::to_string(mock(id));
					}
					catch (const Exc& x) { got = "result " + std::to_string(x.get()); }
					catch (const mc::Inapplicable&) { got = "inapplicable"; }
					catch (const mc::NoMatch&) { got = "no match"; }
					const std::string want = ok ? "result " + std::to_string(id) : "inapplicable";
					c.log("call " + std::to_string(id) + " -> " + got);
					pbt::require(got == want, "call " + std::to_string(id) + ": " + got + ", expected " + want);
					pbt::require(effects == (ok ? std::vector<int>{id} : std::vector<int>{}), "wrong side effects");
					exps[k].count += ok;
					nCalls += ok;
				}
				pbt::require(broken.empty(), broken);
			}
			int wantUnfulfilled = 0;
			for (auto& e : exps)
			{
				wantUnfulfilled += e.count < e.min;
				e.handle.reset();
			}
			for (int q = 0; q < 2; ++q)
			{
				bool bad = false;
				for (auto& e : exps) bad = bad || (e.seq[q] && e.count < e.min);
				wantErrors += bad;
			}
			lazy.reset();
			greedy.reset();
			pbt::require(mc::log().unfulfilled == wantUnfulfilled, std::to_string(mc::log().unfulfilled) + " unfulfilled expectations, expected " + std::to_string(wantUnfulfilled));
			pbt::require(mc::log().errors == wantErrors, std::to_string(mc::log().errors) + " unfulfilled sequences, expected " + std::to_string(wantErrors));
		}
		pbt::require(broken.empty(), broken);
		mc::reset();
		pbt::require(living.empty(), std::to_string(living.size()) + " objects have never been destroyed");
		if (nFaults) c.label("failed definition");
		c.nontrivial = nCalls > 0;
	}
	mc::Add sequencesEntries[]{{"sequences 0", sequences}, {"sequences 1", sequences}, {"sequences 2", sequences}, {"sequences 3", sequences}};
}

static pbt::Register r{"C21", mc::runEntry,
	"a case defines expectations from objects that are gone afterwards, and uses, moves and ends them in any order; non-trivial if there was a call",
	150000, 3000000};
int main(int argc, char** argv) { return pbt::main(argc, argv); }
