// C15, C16: histories over watched objects against a model of what is watched where.
#include "../matchers/common.hpp"

#include <new>

using namespace mc;
namespace expect = mimicpp::expect;
namespace then = mimicpp::then;
namespace finally = mimicpp::finally;

namespace
{
	struct Counts
	{
		int made = 0, copied = 0, moved = 0, copyAssigned = 0, moveAssigned = 0, destroyed = 0;
		friend bool operator ==(const Counts&, const Counts&) = default;
	};
	inline Counts counts{};

	// the watched payloads; NX: everything but copying is noexcept
	template <bool nx>
	struct Payload
	{
		int v{};
		explicit Payload(int x = 0) : v{x} { ++counts.made; }
		Payload(const Payload& o) : v{o.v} { ++counts.copied; }
		Payload(Payload&& o) noexcept(nx) : v{std::exchange(o.v, -1)} { ++counts.moved; }
		Payload& operator =(const Payload& o)
		{
			v = o.v;
			++counts.copyAssigned;
			return *this;
		}
		Payload& operator =(Payload&& o) noexcept(nx)
		{
			v = std::exchange(o.v, -1);
			++counts.moveAssigned;
			return *this;
		}
		~Payload() noexcept(nx) { ++counts.destroyed; }
	};

	template <bool nx>
	struct VPayload
	{
		int v{};
		explicit VPayload(int x = 0) : v{x} { ++counts.made; }
		VPayload(const VPayload& o) : v{o.v} { ++counts.copied; }
		VPayload(VPayload&& o) noexcept(nx) : v{std::exchange(o.v, -1)} { ++counts.moved; }
		VPayload& operator =(const VPayload& o)
		{
			v = o.v;
			++counts.copyAssigned;
			return *this;
		}
		VPayload& operator =(VPayload&& o) noexcept(nx)
		{
			v = std::exchange(o.v, -1);
			++counts.moveAssigned;
			return *this;
		}
		virtual ~VPayload() noexcept(nx) { ++counts.destroyed; }
	};

	struct Extra // a watcher of the user's own
	{
		int state{};
		std::string text{"something on the heap, so that sanitizers and moves notice"};
	};

	struct MoveOnly
	{
		int v{};
		explicit MoveOnly(int x = 0) : v{x} { ++counts.made; }
		MoveOnly(MoveOnly&& o) noexcept(false) : v{std::exchange(o.v, -1)} { ++counts.moved; }
		MoveOnly& operator =(MoveOnly&& o) noexcept(false)
		{
			v = std::exchange(o.v, -1);
			++counts.moveAssigned;
			return *this;
		}
		~MoveOnly() noexcept(false) { ++counts.destroyed; }
	};

	using LW = mimicpp::LifetimeWatcher;
	using RW = mimicpp::RelocationWatcher;

	template <typename T>
	struct Kind
	{
		static constexpr bool lifetime = std::is_base_of_v<LW, T>;
		static constexpr bool reloc = std::is_base_of_v<RW, T>;
		static constexpr bool payload = !std::is_same_v<T, LW> && !std::is_same_v<T, RW>;
		static constexpr bool copyable = std::is_copy_constructible_v<T>;
		static constexpr bool throwing = !std::is_nothrow_destructible_v<T>;
	};

	struct Exp
	{
		int id{};
		int mock{};
		int min = 1, max = 1, count = 0;
		bool throws = false;
		std::vector<std::pair<int, int>> seqs{}; // sequence, position
		bool alive = true;
	};

	struct Boom
	{
		int id{};
	};

	inline std::vector<int> answered;

	// performs fn while another exception is propagating
	template <typename Fn>
	void duringUnwinding(const Fn& fn)
	{
		std::exception_ptr e{};
		struct Guard
		{
			const Fn& fn;
			std::exception_ptr& e;
			~Guard()
			{
				try
				{
					fn();
				}
				catch (...)
				{
					e = std::current_exception();
				}
			}
		};
		try
		{
			Guard g{fn, e};
			throw 42;
		}
		catch (int)
		{
		}
		if (e) std::rethrow_exception(e);
	}

	template <typename T>
	struct World
	{
		static constexpr int slots = 5;
		using K = Kind<T>;

		struct Obj
		{
			bool alive = false;
			int l = -1, r = -1; // watch states
			bool lHas = false;
			bool lUsed = false; // someone set up a destruction on this watch state
			int v = 0;
		};

		Src& s;
		Case& c;
		bool lifetimeFocus;
		alignas(T) unsigned char raw[slots][sizeof(T)];
		Obj objs[slots];
		std::vector<Exp> exps{};
		std::vector<std::unique_ptr<mimicpp::ScopedExpectation>> handles{};
		int nextMock = 0;
		std::vector<std::unique_ptr<mimicpp::LazySequence>> seqs{};
		std::vector<std::unique_ptr<mimicpp::GreedySequence>> gseqs{};
		struct MSeq
		{
			std::vector<int> entries{};
			int cursor = 0;
		};
		std::vector<MSeq> mseqs{};
		int wantUnfulfilled = 0;
		int nMatched = 0, nBad = 0, nTravel = 0, nMissing = 0, nSecond = 0, nBlocked = 0, nUnwinding = 0;

		World(Src& src, Case& cs) : s{src}, c{cs} {}

		T& obj(int i) { return *std::launder(reinterpret_cast<T*>(raw[i])); }

		bool consumable(const Exp& e) const
		{
			for (auto& [q, p] : e.seqs)
			{
				const MSeq& m = mseqs[q];
				if (p < m.cursor) return false;
				for (int k = m.cursor; k < p; ++k)
					if (exps[m.entries[k]].count < exps[m.entries[k]].min) return false;
			}
			return true;
		}

		enum Verdict { match, none, inapplicable };
		struct Decision
		{
			Verdict verdict = none;
			int who = -1;
			int considered = 0;
		};

		Decision decide(int mock) const
		{
			Decision d{};
			for (int k = static_cast<int>(exps.size()) - 1; k >= 0; --k)
			{
				const Exp& e = exps[k];
				if (!e.alive || e.mock != mock) continue;
				++d.considered;
				if (e.count < e.max && consumable(e) && d.who < 0)
				{
					d.who = k;
					d.verdict = match;
				}
			}
			if (d.who < 0 && d.considered) d.verdict = inapplicable;
			return d;
		}

		void consume(int k)
		{
			Exp& e = exps[k];
			++e.count;
			for (auto& [q, p] : e.seqs) mseqs[q].cursor = p;
		}

		// Executes an operation, which is predicted to produce these decisions one after another; the first that does
		// not match or whose outcome throws aborts the operation.
		enum Result { done, aborted };

		template <typename Fn>
		Result expectCalls(const std::vector<int>& mocks, const Fn& fn, std::string what, std::size_t* performed = nullptr)
		{
			const bool unwinding = s.coin(1, 5);
			if (unwinding) what += " during unwinding";
			nUnwinding += unwinding;
			answered.clear();
			const int fullBefore = log().full;
			const int unfBefore = log().unfulfilled;
			std::vector<int> wantAnswered{};
			Decision last{};
			last.verdict = match;
			bool boom = false;
			std::size_t n = 0;
			for (int m : mocks)
			{
				last = decide(m);
				if (last.verdict != match) break;
				consume(last.who);
				wantAnswered.push_back(exps[last.who].id);
				++n;
				if (exps[last.who].throws)
				{
					boom = true;
					break;
				}
			}
			if (performed) *performed = n;
			std::string got = "completes";
			std::size_t reported = 0;
			try
			{
				if (unwinding) duringUnwinding(fn);
				else fn();
			}
			catch (const Inapplicable& e)
			{
				got = "inapplicable";
				reported = e.reports.size();
			}
			catch (const NoMatch& e)
			{
				got = "no match";
				reported = e.reports.size();
			}
			catch (const Boom& b)
			{
				got = "throws " + std::to_string(b.id);
			}
			const std::string want = boom ? "throws " + std::to_string(wantAnswered.back()) : last.verdict == match ? "completes" : last.verdict == none ? "no match" : "inapplicable";
			pbt::require(got == want, what + ": " + got + ", expected: " + want);
			if (last.verdict != match)
				pbt::require(static_cast<int>(reported) == last.considered, what + ": the report lists " + std::to_string(reported) + " expectations, expected " + std::to_string(last.considered));
			std::string ga, wa;
			for (int i : answered) ga += " " + std::to_string(i);
			for (int i : wantAnswered) wa += " " + std::to_string(i);
			pbt::require(ga == wa, what + ": answered by" + ga + ", expected" + wa);
			pbt::require(log().full - fullBefore == static_cast<int>(wantAnswered.size()), what + ": " + std::to_string(log().full - fullBefore) + " matches have been reported, expected " + std::to_string(wantAnswered.size()));
			pbt::require(log().unfulfilled == unfBefore, what + ": an unfulfilled expectation was reported");
			pbt::require(log().errors == 0 && log().exceptions == 0, what + ": unexpected error report");
			nMatched += static_cast<int>(wantAnswered.size());
			nBad += last.verdict != match;
			nBlocked += last.verdict == inapplicable;
			c.log(what + " -> " + got + (wa.empty() ? "" : ", answered by" + wa));
			return got == "completes" ? done : aborted;
		}

		bool wouldComplete(const std::vector<int>& mocks)
		{
			// only decided for one reported call; two calls concern different mocks and at most one sequence step each
			auto saveE = exps;
			auto saveS = mseqs;
			bool ok = true;
			for (int m : mocks)
			{
				const Decision d = decide(m);
				if (d.verdict != match)
				{
					ok = false;
					break;
				}
				consume(d.who);
				if (exps[d.who].throws)
				{
					ok = false;
					break;
				}
			}
			exps = saveE;
			mseqs = saveS;
			return ok;
		}

		void payloadCheck(int i, const std::string& what)
		{
			if constexpr (K::payload)
				if (objs[i].alive) pbt::require(obj(i).v == objs[i].v, what + ": the payload of object " + std::to_string(i) + " is " + std::to_string(obj(i).v) + ", expected " + std::to_string(objs[i].v));
		}

		void countCheck(Counts want, const std::string& what)
		{
			if constexpr (K::payload)
			{
				auto text = [](const Counts& x)
				{
					return std::to_string(x.made) + "/" + std::to_string(x.copied) + "/" + std::to_string(x.moved) + "/" + std::to_string(x.copyAssigned) + "/" + std::to_string(x.moveAssigned) + "/" + std::to_string(x.destroyed);
				};
				pbt::require(counts == want, what + ": the payload's constructions/copies/moves/copy-/move-assignments/destructions are " + text(counts) + ", expected " + text(want));
			}
		}

		int fresh() { return nextMock++; }
		int pickAlive()
		{
			std::vector<int> a;
			for (int i = 0; i < slots; ++i)
				if (objs[i].alive) a.push_back(i);
			if (a.empty()) return -1;
			return a[s.draw(static_cast<std::uint32_t>(a.size()))];
		}
		int pickFree()
		{
			for (int i = 0; i < slots; ++i)
				if (!objs[i].alive) return i;
			return -1;
		}

		void construct()
		{
			const int i = pickFree();
			if (i < 0) return;
			Counts w = counts;
			const int v = s.range(0, 9);
			if constexpr (K::payload)
			{
				if (s.draw(3) == 0)
				{
					new (raw[i]) T{};
					objs[i].v = 0;
				}
				else
				{
					new (raw[i]) T{v};
					objs[i].v = v;
				}
				++w.made;
			}
			else new (raw[i]) T{};
			objs[i] = Obj{true, K::lifetime ? fresh() : -1, K::reloc ? fresh() : -1, false, false, objs[i].v};
			c.log("construct " + std::to_string(i));
			countCheck(w, "construct");
		}

		void copyConstruct()
		{
			if constexpr (K::copyable)
			{
				const int j = pickAlive();
				const int i = pickFree();
				if (i < 0 || j < 0) return;
				Counts w = counts;
				const bool viaConst = s.draw(2);
				const Result r = expectCalls({}, [&] { if (viaConst) new (raw[i]) T{std::as_const(obj(j))}; else new (raw[i]) T(obj(j)); }, "copy-construct " + std::to_string(i) + " from " + std::to_string(j));
				(void)r;
				++w.copied;
				objs[i] = Obj{true, K::lifetime ? fresh() : -1, K::reloc ? fresh() : -1, false, false, objs[j].v};
				countCheck(w, "copy construction");
			}
		}

		bool canMoveFrom(int j) const { return !K::reloc || objs[j].r >= 0; }

		std::vector<int> moveCalls(int j) const
		{
			if (K::reloc) return {objs[j].r};
			return {};
		}

		// a failing move of a type with several watchers leaves the parts in a mixed state
		bool moveAllowed(int j)
		{
			if (!canMoveFrom(j)) return false;
			const bool ok = wouldComplete(moveCalls(j));
			if (ok) return true;
			if (K::lifetime && K::reloc) return false;
			return K::throwing;
		}

		void moveConstruct()
		{
			const int j = pickAlive();
			const int i = pickFree();
			if (i < 0 || j < 0 || !moveAllowed(j)) return;
			Counts w = counts;
			const Result r = expectCalls(moveCalls(j), [&] { new (raw[i]) T{std::move(obj(j))}; }, "move-construct " + std::to_string(i) + " from " + std::to_string(j));
			if (r == done)
			{
				objs[i] = objs[j];
				movedFrom(j);
				++w.moved;
				++nTravel;
			}
			else objs[i].alive = false;
			countCheck(w, "move construction");
		}

		void movedFrom(int j)
		{
			objs[j].l = -1;
			objs[j].r = -1;
			objs[j].v = K::payload ? -1 : objs[j].v;
		}

		void moveAssign()
		{
			const int j = pickAlive();
			const int i = pickAlive();
			if (i < 0 || j < 0 || i == j || !moveAllowed(j)) return;
			Counts w = counts;
			const Result r = expectCalls(moveCalls(j), [&] { obj(i) = std::move(obj(j)); }, "move-assign " + std::to_string(i) + " from " + std::to_string(j));
			if (r == done)
			{
				objs[i] = objs[j];
				movedFrom(j);
				++w.moveAssigned;
				++nTravel;
			}
			countCheck(w, "move assignment");
		}

		// several moves in a row: by value through functions, swaps, containers
		void travel()
		{
			const int j = pickAlive();
			if (j < 0) return;
			const int how = static_cast<int>(s.draw(3));
			if (how == 0)
			{
				const int n = s.range(1, 4);
				std::vector<int> calls;
				if (K::reloc)
				{
					if (objs[j].r < 0) return;
					calls.assign(static_cast<std::size_t>(n) + 1, objs[j].r);
				}
				if (!wouldComplete(calls)) return;
				Counts w = counts;
				const auto hop = [](auto& self, T& t, int k) -> void
				{
					T local{std::move(t)};
					if (k > 1) self(self, local, k - 1);
					else
					{
						t = std::move(local);
						return;
					}
					t = std::move(local);
				};
				if (K::reloc) calls.assign(static_cast<std::size_t>(n) * 2, objs[j].r);
				if (!wouldComplete(calls)) return;
				expectCalls(calls, [&] { hop(hop, obj(j), n); }, "pass object " + std::to_string(j) + " through " + std::to_string(n) + " locals");
				w.moved += n;
				w.moveAssigned += n;
				w.destroyed += n;
				nTravel += 2 * n;
				countCheck(w, "travel");
			}
			else if (how == 1)
			{
				const int i = pickAlive();
				if (i < 0 || i == j || !canMoveFrom(i) || !canMoveFrom(j)) return;
				std::vector<int> calls;
				if (K::reloc) calls = {objs[i].r, objs[j].r, objs[i].r};
				if (!wouldComplete(calls)) return;
				Counts w = counts;
				expectCalls(calls, [&] { std::swap(obj(i), obj(j)); }, "swap " + std::to_string(i) + " and " + std::to_string(j));
				std::swap(objs[i], objs[j]);
				w.moved += 1;
				w.moveAssigned += 2;
				w.destroyed += 1;
				nTravel += 3;
				countCheck(w, "swap");
			}
			else if constexpr (!K::throwing && std::is_nothrow_move_constructible_v<T>)
			{
				// a growing vector relocates its elements by moving
				if (!canMoveFrom(j)) return;
				std::vector<int> calls;
				const int n = s.range(1, 4);
				if (K::reloc) calls.assign(static_cast<std::size_t>(n) + 2, objs[j].r);
				if (!wouldComplete(calls)) return;
				Counts w = counts;
				expectCalls(calls, [&]
				{
					std::vector<T> v;
					v.push_back(std::move(obj(j)));
					for (int k = 0; k < n; ++k) v.reserve(v.capacity() * 2 + 1);
					obj(j) = std::move(v[0]);
				}, "let object " + std::to_string(j) + " travel through a vector growing " + std::to_string(n) + " times");
				w.moved += n + 1;
				w.moveAssigned += 1;
				w.destroyed += n + 1;
				nTravel += n + 2;
				countCheck(w, "vector");
			}
		}

		void copyAssign()
		{
			if constexpr (K::copyable)
			{
				const int j = pickAlive();
				const int i = pickAlive();
				if (i < 0 || j < 0 || (i == j && K::payload)) return;
				std::vector<int> calls;
				if (K::lifetime && objs[i].l >= 0) calls = {objs[i].l};
				const bool ok = wouldComplete(calls);
				if (!ok && (!K::throwing)) return;
				if (!ok && K::reloc) return; // mixed state
				Counts w = counts;
				const Result r = expectCalls(calls, [&] { obj(i) = std::as_const(obj(j)); }, "copy-assign " + std::to_string(i) + " from " + std::to_string(j));
				if (r == done)
				{
					++w.copyAssigned;
					const int v = objs[j].v;
					objs[i] = Obj{true, K::lifetime ? fresh() : -1, K::reloc ? fresh() : -1, false, false, v};
				}
				else objs[i].l = -1; // unwatched until the next assignment
				countCheck(w, "copy assignment");
			}
		}

		void destroy(int i)
		{
			std::vector<int> calls;
			if (K::lifetime && objs[i].l >= 0) calls = {objs[i].l};
			Counts w = counts;
			const bool ok = wouldComplete(calls);
			if (!ok && !K::throwing)
			{
				// the object's destructor is noexcept: set up what is missing, if possible
				const Decision d = decide(objs[i].l);
				if (d.considered || objs[i].lHas) return;
				expectDestruct(i, false);
				return destroy(i);
			}
			const bool viaBase = s.draw(2);
			(void)viaBase;
			expectCalls(calls, [&]
			{
				if constexpr (std::is_base_of_v<VPayload<false>, T> || std::is_base_of_v<VPayload<true>, T>)
				{
					if (viaBase)
					{
						auto& b = static_cast<std::conditional_t<std::is_base_of_v<VPayload<false>, T>, VPayload<false>, VPayload<true>>&>(obj(i));
						b.~VPayload();
						return;
					}
				}
				obj(i).~T();
			}, "destroy " + std::to_string(i));
			objs[i].alive = false;
			++w.destroyed;
			countCheck(w, "destruction");
		}

		bool mockBusy(int mock) const
		{
			for (auto& e : exps)
				if (e.alive && e.mock == mock) return true;
			return false;
		}
		bool mockSequenced(int mock) const
		{
			for (auto& e : exps)
				if (e.alive && e.mock == mock && !e.seqs.empty()) return true;
			return false;
		}

		template <typename B>
		void finish(B&& builder, Exp e, const std::string& what, bool sequenced)
		{
			// (sequence, side effects and outcome in changing order)
			const int id = e.id;
			auto effect = then::invoke([id] { answered.push_back(id); });
			if (sequenced && !seqs.empty())
			{
				const int q = static_cast<int>(s.draw(static_cast<std::uint32_t>(mseqs.size())));
				const bool both = mseqs.size() > 1 && s.coin(1, 3);
				if (both)
				{
					for (int x = 0; x < 2; ++x)
					{
						e.seqs.emplace_back(x, static_cast<int>(mseqs[x].entries.size()));
						mseqs[x].entries.push_back(static_cast<int>(exps.size()));
					}
					handles.push_back(std::make_unique<mimicpp::ScopedExpectation>(std::forward<B>(builder) && expect::in_sequences(*seqs[0], *gseqs[0]) && std::move(effect)));
				}
				else
				{
					e.seqs.emplace_back(q, static_cast<int>(mseqs[q].entries.size()));
					mseqs[q].entries.push_back(static_cast<int>(exps.size()));
					if (q == 0) handles.push_back(std::make_unique<mimicpp::ScopedExpectation>(std::forward<B>(builder) && std::move(effect) && expect::in_sequence(*seqs[0])));
					else handles.push_back(std::make_unique<mimicpp::ScopedExpectation>(std::forward<B>(builder) && expect::in_sequence(*gseqs[0]) && std::move(effect)));
				}
			}
			else handles.push_back(std::make_unique<mimicpp::ScopedExpectation>(std::forward<B>(builder) && std::move(effect)));
			std::string where;
			for (auto& [q, p] : e.seqs) where += " sequence " + std::to_string(q) + "." + std::to_string(p);
			c.log(what + ": expectation " + std::to_string(e.id) + " (" + std::to_string(e.min) + ".." + std::to_string(e.max) + ")" + where);
			exps.push_back(std::move(e));
		}

		void expectDestruct(int i, bool maySequence)
		{
			if constexpr (K::lifetime)
			{
				if (objs[i].l < 0) return; // unwatched
				const std::string what = "expect destruction of " + std::to_string(i);
				if (objs[i].lHas)
				{
					bool rejected = false;
					try
					{
						auto b = obj(i).expect_destruct();
						(void)b;
					}
					catch (const std::logic_error&)
					{
						rejected = true;
					}
					c.log(what + " again");
					++nSecond;
					pbt::require(rejected, what + ": the second set-up was not rejected");
					return;
				}
				objs[i].lHas = true;
				Exp e{.id = static_cast<int>(exps.size()), .mock = objs[i].l};
				finish(obj(i).expect_destruct(), e, what, maySequence && s.coin(1, 3));
			}
		}

		void expectRelocate(int i)
		{
			if constexpr (K::reloc)
			{
				if (objs[i].r < 0) return;
				if (mockSequenced(objs[i].r)) return;
				const bool seq = !mockBusy(objs[i].r) && s.coin(1, 3);
				Exp e{.id = static_cast<int>(exps.size()), .mock = objs[i].r};
				const std::string what = "expect relocation of " + std::to_string(i);
				const int n = s.range(0, 6);
				switch (s.draw(6))
				{
				case 0: finish(obj(i).expect_relocate(), e, what, seq); break;
				case 1:
					e.min = e.max = n + 1;
					finish(obj(i).expect_relocate() && expect::times(n + 1), e, what, seq);
					break;
				case 2:
					e.min = n;
					e.max = n + 2;
					finish(obj(i).expect_relocate() && expect::times(n, n + 2), e, what, seq);
					break;
				case 3:
					e.min = 0;
					e.max = 1000000000;
					finish(obj(i).expect_relocate() && expect::at_least(0), e, what, seq);
					break;
				case 4:
					e.min = 0;
					e.max = n + 1;
					finish(obj(i).expect_relocate() && expect::at_most(n + 1), e, what, seq);
					break;
				default:
					if (K::throwing && !K::lifetime)
					{
						const int id = e.id;
						e.throws = true;
						finish(obj(i).expect_relocate() && finally::throws(Boom{id}), e, what + " (throwing)", seq);
					}
					else finish(obj(i).expect_relocate() && expect::once(), e, what, seq);
				}
			}
		}

		void endExp(std::size_t k)
		{
			Exp& e = exps[k];
			if (!e.alive) return;
			const int before = log().unfulfilled;
			const bool bad = e.count < e.min;
			handles[k].reset();
			e.alive = false;
			c.log("end expectation " + std::to_string(e.id) + " after " + std::to_string(e.count) + " calls");
			pbt::require(log().unfulfilled - before == bad, "ending expectation " + std::to_string(e.id) + " (" + std::to_string(e.count) + " of at least " + std::to_string(e.min) + "): " + std::to_string(log().unfulfilled - before) + " unfulfilled reports");
			nMissing += bad;
		}

		void go()
		{
			counts = Counts{};
			const int nseq = static_cast<int>(s.draw(3));
			if (nseq > 0) seqs.push_back(std::make_unique<mimicpp::LazySequence>());
			if (nseq > 1) gseqs.push_back(std::make_unique<mimicpp::GreedySequence>());
			mseqs.resize(static_cast<std::size_t>(nseq));
			construct();
			const int steps = s.range(2, 24);
			for (int k = 0; k < steps; ++k)
			{
				pbt::Span span{s};
				const int i = pickAlive();
				switch (s.weighted({3, 2, 4, 3, 2, 3, 4, 5, 2, 2}))
				{
				case 0: construct(); break;
				case 1: copyConstruct(); break;
				case 2: moveConstruct(); break;
				case 3: moveAssign(); break;
				case 4: copyAssign(); break;
				case 5:
					if (i >= 0) destroy(i);
					break;
				case 6:
					if (i >= 0) expectDestruct(i, true);
					break;
				case 7:
					if (i >= 0) expectRelocate(i);
					break;
				case 8:
					if (!exps.empty())
					{
						const auto n = s.draw(static_cast<std::uint32_t>(exps.size()));
						// (ending the expectation of an object with noexcept destructor is left to the end)
						if (K::throwing) endExp(n);
						else
						{
							bool live = false;
							for (auto& o : objs) live = live || (o.alive && o.l == exps[n].mock);
							if (!live) endExp(n);
						}
					}
					break;
				default: travel(); break;
				}
				for (int x = 0; x < slots; ++x) payloadCheck(x, "after step " + std::to_string(k));
			}
			for (int i = 0; i < slots; ++i)
			{
				if (!objs[i].alive) continue;
				if constexpr (!K::throwing)
				{
					// blocked by a sequence forever: leak the object instead of terminating
					const bool watched = K::lifetime && objs[i].l >= 0;
					if (watched && objs[i].lHas && !wouldComplete({objs[i].l})) continue;
				}
				destroy(i);
			}
			for (std::size_t k = 0; k < exps.size(); ++k) endExp(k);
			int wantErrors = 0;
			for (auto& m : mseqs)
			{
				bool bad = false;
				for (int e : m.entries) bad = bad || exps[e].count < exps[e].min;
				wantErrors += bad;
			}
			seqs.clear();
			gseqs.clear();
			pbt::require(log().errors == wantErrors, std::to_string(log().errors) + " sequences were reported as unfulfilled, expected " + std::to_string(wantErrors));
			if (nBad) c.label("unmatched");
			if (nMissing) c.label("missing");
			if (nTravel) c.label("moved");
			if (nSecond) c.label("second set-up");
			if (nUnwinding) c.label("unwinding");
			if (nBlocked) c.label("inapplicable");
			if (nMatched) c.label("fulfilled");
			c.nontrivial = nMatched + nBad > 0 && nTravel > 0;
		}
	};

	template <typename T>
	void history(Src& s, Case& c)
	{
		World<T> w{s, c};
		w.go();
	}
}

#if PART == 0
static Add a0{"L plain", history<LW>};
static Add a1{"L watched", history<mimicpp::Watched<Payload<false>, LW>>};
#elif PART == 1
static Add b0{"L virtual", history<mimicpp::Watched<VPayload<false>, LW>>};
static Add b1{"L noexcept", history<mimicpp::Watched<Payload<true>, LW>>};
#elif PART == 2
static Add c0{"LR watched", history<mimicpp::Watched<Payload<false>, LW, RW>>};
static Add c1{"LR noexcept", history<mimicpp::Watched<Payload<true>, LW, RW>>};
#elif PART == 3
static Add d0{"LR reversed", history<mimicpp::Watched<Payload<false>, RW, LW>>};
static Add d1{"LR move-only", history<mimicpp::Watched<MoveOnly, LW, RW>>};
#elif PART == 4
static Add e0{"R plain", history<RW>};
static Add e1{"R watched", history<mimicpp::Watched<Payload<false>, RW>>};
#elif PART == 5
static Add f0{"R noexcept", history<mimicpp::Watched<Payload<true>, RW>>};
static Add f1{"R move-only", history<mimicpp::Watched<MoveOnly, RW>>};
#elif PART == 6
static Add g0{"R virtual", history<mimicpp::Watched<VPayload<false>, RW>>};
static Add g1{"LR virtual", history<mimicpp::Watched<VPayload<false>, LW, RW>>};
#elif PART == 7
static Add h0{"R virtual noexcept", history<mimicpp::Watched<VPayload<true>, RW>>};
static Add h1{"LR extra", history<mimicpp::Watched<Payload<false>, LW, Extra, RW>>};
#else
static void pickEntry(Src& s, Case& c, char watcher)
{
	sortEntries();
	reset();
	std::vector<Entry*> mine;
	for (Entry& e : entries())
		if (e.name.substr(0, e.name.find(' ')).find(watcher) != std::string::npos) mine.push_back(&e);
	Entry& e = *mine[s.draw(static_cast<std::uint32_t>(mine.size()))];
	c.label(e.name);
	c.log("watched type " + e.name);
	e.run(s, c);
}
static const char* const rule = "a case is a history of watched objects; non-trivial if an object was moved and something was matched or reported";
static pbt::Register r15{"C15", [](Src& s, Case& c) { pickEntry(s, c, 'L'); }, rule, 400000, 10000000};
static pbt::Register r16{"C16", [](Src& s, Case& c) { pickEntry(s, c, 'R'); }, rule, 400000, 10000000};
int main(int argc, char** argv) { return pbt::main(argc, argv); }
#endif
