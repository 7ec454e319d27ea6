// C25: random histories on mocks, interfaces, sequences and watched objects.
#include "hist.hpp"

namespace
{
	using namespace cfg;

	template <typename F>
	void guarded(const char* what, F f)
	{
		try
		{
			f();
		}
		catch (const NoAnswer& n)
		{
			now->put(what, "no answer " + std::to_string(n.kind));
		}
		catch (const m::UnmatchedCallT& e)
		{
			for (auto& r : std::get<1>(e.data()))
			now->put(what, std::string{"unmatched "} + e.what());
		}
		catch (const m::UnfulfilledExpectationT& e)
		{
			now->put(what, std::string{"unfulfilled "} + e.what());
		}
		catch (const std::exception& e)
		{
			now->put(what, std::string{"exception "} + e.what());
		}
		catch (int v)
		{
			now->put(what, "int " + std::to_string(v));
		}
	}

	void expectation(Src& s, World& w)
	{
		static const bool once = (std::sort(shapes().begin(), shapes().end()), true);
		(void)once;
		const std::size_t i = s.draw(static_cast<std::uint32_t>(shapes().size()));
		now->put("shape", shapes()[i].first);
		shapes()[i].second(s, w);
	}

	void call(Src& s, World& w)
	{
		static const char* const texts[]{"hello", "", "HeLLo", "{} x", "he"};
		const int v = s.range(-3, 4);
		int other = s.range(-3, 4);
		const std::string text = texts[s.draw(5)];
		const auto which = s.draw(20);
		guarded("call", [&]
		{
			const auto result = [](auto&& r) { now->put("result", r); };
			Interface& i = w.iface;
			switch (which)
			{
			default: return result(w.a(v));
			case 4: return result(w.b(v));
			case 5: return result(std::as_const(w.b)(v));
			case 6: return result(w.c(v));
			case 7: return result(std::as_const(w.c)(v));
			case 8: return result(std::move(w.c)(v));
			case 9: return result(std::move(std::as_const(w.c))(v));
			case 10: return w.dv(std::vector<int>{v, 1});
			case 11: return other > 0 ? w.dv(std::vector<int>{}) : w.dv(std::vector<int>{1, v, other});
			case 12: return w.ds(text);
			case 13: return result(std::as_const(w.dn)(other > 0 ? std::optional<int>{v} : std::nullopt));
			case 14:
			{
				const int& r = w.e(v, other);
				now->put("same", &r == &other);
				now->put("other", other);
				return result(r);
			}
			case 15:
			{
				auto r = w.f(other > 0 ? nullptr : std::make_unique<int>(v));
				return result(r ? *r : -99);
			}
			case 16: return result(i.plain(v));
			case 17: return result(std::as_const(i).constant(v, text));
			case 18: return i.over(v);
			case 19: return result(w.a(v, Loc::current()));
			}
		});
	}

	void finish(World& w, std::size_t i)
	{
		guarded("end", [&]
		{
			// the handle's destructor may throw
			Handle h = std::move(w.handles[i]);
			w.handles.erase(w.handles.begin() + static_cast<std::ptrdiff_t>(i));
			m::ScopedExpectation* p = h.release();
			struct Free
			{
				void* p;
				~Free() { ::operator delete(p); }
			} f{p};
			p->~ScopedExpectation();
		});
	}

	template <typename T>
	void destroy(std::unique_ptr<T>& o)
	{
		T* p = o.release();
		struct Free
		{
			void* p;
			~Free() { ::operator delete(p); }
		} f{p};
		p->~T();
	}

	void history(Src& s, Trace& t)
	{
		now = &t;
		std::ostringstream stream;
		const auto mode = s.weighted({4, 2, 1});
		if (mode == 0) m::install_reporter<Reporter>();
		else if (mode == 1) m::install_reporter<m::DefaultReporter>(&stream);
		else m::install_reporter<m::DefaultReporter>();
		{
			World w;
			const int ops = s.range(1, 24);
			for (int n = s.range(1, 2); n > 0; --n) w.lazy.push_back(std::make_shared<m::SequenceT>());
			for (int n = s.range(1, 2); n > 0; --n) w.greedy.push_back(std::make_shared<m::GreedySequence>());
			for (int k = 0; k < ops; ++k)
			{
				switch (s.weighted({6, 9, 2, 1, 1, 1}))
				{
				case 0: guarded("expect", [&] { expectation(s, w); }); break;
				case 1: call(s, w); break;
				case 2: if (!w.handles.empty()) finish(w, s.draw(static_cast<std::uint32_t>(w.handles.size()))); break;
				case 3:
					if (!w.handles.empty())
					{
						auto& h = w.handles[s.draw(static_cast<std::uint32_t>(w.handles.size()))];
						h = std::make_unique<m::ScopedExpectation>(std::move(*h));
					}
					break;
				case 4:
					if (!w.handles.empty())
					{
						const auto& h = *w.handles[s.draw(static_cast<std::uint32_t>(w.handles.size()))];
						t.put("satisfied", h.is_satisfied());
					}
					break;
				case 5:
					guarded("error", [&]
					{
						if (mode != 0) return; // (a throwing report of a sequence terminates)
						m::Mock<void()> mock{};
						m::SequenceT sequence{};
						m::ScopedExpectation a = mock.expect_call() && m::expect::in_sequence(sequence) && m::expect::times(k % 3, 3);
						m::ScopedExpectation b = mock.expect_call() && m::expect::in_sequence(sequence) && m::expect::at_most(3);
						mock();
					});
					break;
				}
				if (mode == 1)
				{
					t.put("stream", stream.str());
					stream.str("");
				}
			}
			while (!w.handles.empty()) finish(w, s.draw(static_cast<std::uint32_t>(w.handles.size())));
			guarded("macro", [&]
			{
				m::Mock<int(int)> mock{};
				const int v = s.range(0, 1);
				X_SCOPED mock.expect_call(0) && finally::returns(1) && expect::at_least(0);
				X_SCOPED mock.expect_call(matches::_) && finally::returns(2) && expect::at_most(1);
				t.put("macro", mock(v));
				t.put("macro", mock(v));
			});
			if (mode == 1) t.put("stream", stream.str());
			// (a reporter that throws when a sequence ends terminates the program)
			m::install_reporter<Reporter>();
			w.lazy.clear();
			w.greedy.clear();
		}
		m::install_reporter<mc::Reporter>();
		t.content = true;
	}

	// sequences that end unfulfilled, with the report's text on a stream
	void sequences(Src& s, Trace& t)
	{
		now = &t;
		std::ostringstream stream;
		const bool throwing = s.coin(1, 2);
		if (throwing) m::install_reporter<m::DefaultReporter>(&stream);
		else m::install_reporter<Reporter>();
		std::unique_ptr<m::SequenceT> keepQ;
		std::unique_ptr<m::GreedySequence> keepG;
		m::Mock<int(int)> mock{};
		const int n = s.range(1, 5);
		std::vector<Handle> handles;
		{
			auto q = std::make_unique<m::SequenceT>();
			auto g = std::make_unique<m::GreedySequence>();
			for (int i = 0; i < n; ++i)
			{
				const int lo = s.range(0, 2);
				const int hi = lo + s.range(lo ? 0 : 1, 1);
				const auto kind = s.draw(3);
				if (kind == 0) handles.push_back(keep(mock.expect_call(i) && expect::times(lo, hi) && expect::in_sequence(*q) && finally::returns(i)));
				else if (kind == 1) handles.push_back(keep(mock.expect_call(i) && expect::times(lo, hi) && expect::in_sequence(*g) && finally::returns(i)));
				else handles.push_back(keep(mock.expect_call(i) && expect::times(lo, hi) && expect::in_sequences(*q, *g) && finally::returns(i)));
			}
			int at = 0;
			for (int k = s.range(0, 10); k > 0; --k)
			{
				if (s.coin(1, 3)) at = std::min(at + 1, n - 1);
				const int v = s.coin(1, 6) ? s.range(0, n - 1) : at;
				guarded("call", [&] { t.put("result", mock(v)); });
			}
			for (auto& h : handles) t.put("satisfied", h->is_satisfied());
			// (a reporter that throws when a sequence ends terminates the program)
			t.put("stream", stream.str());
			if (throwing) keepQ = std::move(q), keepG = std::move(g);
		}
		World w;
		w.handles = std::move(handles);
		while (!w.handles.empty()) finish(w, 0);
		t.put("stream", stream.str());
		m::install_reporter<Reporter>();
		keepQ.reset();
		keepG.reset();
		m::install_reporter<mc::Reporter>();
		t.content = true;
	}

	void watchers(Src& s, Trace& t)
	{
		now = &t;
		std::ostringstream stream;
		if (s.coin(1, 2)) m::install_reporter<m::DefaultReporter>(&stream);
		else m::install_reporter<Reporter>();
		struct Base : m::Mock<int(int)> // (everything may throw)
		{
			Base() = default;
			Base(Base&& o) noexcept(false) : m::Mock<int(int)>{std::move(o)} {}
			~Base() noexcept(false) {}
		};
		using Watched = m::Watched<Base, m::LifetimeWatcher>;
		using Moving = m::Watched<Base, m::RelocationWatcher>;
		{
			auto q = std::make_unique<m::SequenceT>();
			auto a = std::make_unique<Watched>();
			auto b = std::make_unique<Moving>();
			World w;
			const bool first = s.coin(1, 2);
			guarded("expect", [&]
			{
				if (first) w.handles.push_back(keep(a->expect_destruct() && expect::in_sequence(*q)));
				else w.handles.push_back(keep(a->expect_destruct()));
				if (s.coin(1, 6)) w.handles.push_back(keep(a->expect_destruct()));
			});
			guarded("expect", [&]
			{
				const int k = s.range(0, 2);
				if (k) w.handles.push_back(keep(b->expect_relocate() && expect::times(0, k)));
				if (s.coin(1, 2)) w.handles.push_back(keep(a->expect_call(matches::_) && expect::at_most(2) && expect::in_sequence(*q) && finally::returns_arg<0>()));
			});
			for (int k = s.range(0, 3); k > 0; --k) guarded("call", [&] { t.put("result", (*a)(k)); });
			if (s.coin(1, 2)) guarded("move", [&] { std::unique_ptr<Moving> c{new Moving{std::move(*b)}}; std::swap(b, c); });
			for (auto& h : w.handles) t.put("satisfied", h->is_satisfied());
			if (s.coin(1, 2)) guarded("destruct", [&] { destroy(a); });
			for (auto& h : w.handles) t.put("satisfied", h->is_satisfied());
			while (!w.handles.empty()) finish(w, s.draw(static_cast<std::uint32_t>(w.handles.size())));
			t.put("stream", stream.str());
			m::install_reporter<Reporter>();
			guarded("destruct", [&] { if (a) destroy(a); });
			q.reset();
			guarded("move", [&] { Moving other{std::move(*b)}; });
		}
		m::install_reporter<mc::Reporter>();
		t.content = true;
	}

	Add h{"history", 12, history};
	Add q{"sequences", 4, sequences};
	Add w{"watchers", 3, watchers};
}
