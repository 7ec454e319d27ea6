// C08, C09: what happens on behalf of an answering expectation: side effects, then the outcome.
// The generated units (gen_flow.py) contain mocks of random signatures with three expectations each, whose definitions
// are random chains; this header records what happens and predicts it.
#pragma once
#include "../matchers/common.hpp"

#include <stdexcept>
#include <typeinfo>

namespace fl
{
	using mc::Case;
	using mc::Src;
	namespace matches = mimicpp::matches;
	namespace expect = mimicpp::expect;
	namespace then = mimicpp::then;
	namespace finally = mimicpp::finally;

	// ---- value types --------------------------------------------------------------------------------------------------
	struct Tok
	{
		int v{};
		static inline int copies = 0;
		explicit Tok(int x = 0) : v{x} {}
		Tok(const Tok& o) : v{o.v} { ++copies; }
		Tok(Tok&& o) noexcept : v{std::exchange(o.v, -1)} {}
		Tok& operator =(const Tok& o)
		{
			v = o.v;
			++copies;
			return *this;
		}
		Tok& operator =(Tok&& o) noexcept
		{
			v = std::exchange(o.v, -1);
			return *this;
		}
	};

	struct CopyFail
	{
	};

	struct Fussy // its copies may fail
	{
		int v{};
		static inline bool armed = false;
		explicit Fussy(int x = 0) : v{x} {}
		Fussy(const Fussy& o) : v{o.v}
		{
			if (armed) throw CopyFail{};
		}
		Fussy(Fussy&& o) noexcept : v{std::exchange(o.v, -1)} {}
		Fussy& operator =(const Fussy& o)
		{
			if (armed) throw CopyFail{};
			v = o.v;
			return *this;
		}
		Fussy& operator =(Fussy&& o) noexcept
		{
			v = std::exchange(o.v, -1);
			return *this;
		}
	};

	struct Pinned
	{
		int v{};
		explicit Pinned(int x = 0) : v{x} {}
		Pinned(const Pinned&) = delete;
		Pinned& operator =(const Pinned&) = delete;
	};

	struct Poly
	{
		virtual ~Poly() = default;
		virtual int get() const = 0;
		virtual void set(int) = 0;
	};
	struct PolyImpl final : Poly
	{
		int v{};
		explicit PolyImpl(int x = 0) : v{x} {}
		int get() const override { return v; }
		void set(int x) override { v = x; }
	};

	using Owner = std::unique_ptr<int>;

	inline int get(const int& x) { return x; }
	inline int get(const long& x) { return static_cast<int>(x); }
	inline int get(const Tok& x) { return x.v; }
	inline int get(const Fussy& x) { return x.v; }
	inline int get(const Pinned& x) { return x.v; }
	inline int get(const Poly& x) { return x.get(); }
	inline int get(const Owner& x) { return x ? *x : -1; }
	inline int get(const std::string& x) { return x.empty() ? -1 : std::stoi(x); }
	inline void set(int& x, int v) { x = v; }
	inline void set(long& x, int v) { x = v; }
	inline void set(Tok& x, int v) { x.v = v; }
	inline void set(Fussy& x, int v) { x.v = v; }
	inline void set(Pinned& x, int v) { x.v = v; }
	inline void set(Poly& x, int v) { x.set(v); }
	inline void set(Owner& x, int v) { x = std::make_unique<int>(v); }
	inline void set(std::string& x, int v) { x = std::to_string(v); }
	template <typename U>
	U make(int v)
	{
		if constexpr (std::is_same_v<U, Owner>) return std::make_unique<int>(v);
		else if constexpr (std::is_same_v<U, std::string>) return std::to_string(v);
		else return U(v);
	}

	// the caller's object for a parameter
	template <typename U>
	struct Box
	{
		U v;
		explicit Box(int x) : v(make<U>(x)) {}
	};
	template <>
	struct Box<Poly>
	{
		PolyImpl v;
		explicit Box(int x) : v{x} {}
	};

	template <typename P, typename B>
	decltype(auto) pass(B& b)
	{
		using U = std::remove_cvref_t<P>;
		if constexpr (std::is_lvalue_reference_v<P>) return static_cast<P>(b.v);
		else if constexpr (std::is_rvalue_reference_v<P>) return static_cast<P>(b.v);
		else return static_cast<U&&>(b.v);
	}

	// ---- events -------------------------------------------------------------------------------------------------------
	struct Param
	{
		bool constant{};
		bool byValue{};
		const void* caller{}; // the caller's object, or the first one seen for parameters passed by value
	};

	struct Recorder
	{
		std::vector<std::string> events{};
		std::vector<Param> params{};
		std::vector<bool> gates{};
	};

	inline Recorder& rec()
	{
		static Recorder r{};
		return r;
	}

	inline int change(int v, int k) { return (v * 3 + k + 1) % 997; }

	template <typename A>
	const void* addressOf(const A& a)
	{
		if constexpr (std::is_base_of_v<Poly, A>) return dynamic_cast<const void*>(&a);
		else return std::addressof(a);
	}

	template <typename A>
	void observe(std::string& text, int index, A&& a, int k, bool modify)
	{
		Param& p = rec().params[static_cast<std::size_t>(index)];
		const void* at = addressOf(a);
		if (p.byValue && !p.caller) p.caller = at;
		text += " " + std::to_string(index) + ":" + std::to_string(get(a));
		text += std::is_lvalue_reference_v<A&&> ? "" : "&&";
		text += std::is_const_v<std::remove_reference_t<A>> ? "c" : "";
		text += at == p.caller ? "" : "!other object";
		if constexpr (!std::is_const_v<std::remove_reference_t<A>>)
			if (modify) set(a, change(get(a), k));
	}

	// a side effect receiving arguments
	template <int... indices>
	struct Eff
	{
		int exp{};
		int k{};
		template <typename... A>
		void operator ()(A&&... a) const
		{
			std::string t = "E" + std::to_string(exp) + " effect " + std::to_string(k);
			(observe(t, indices, std::forward<A>(a), k, true), ...);
			rec().events.push_back(t);
		}
	};

	template <int... indices>
	struct EffOwning : Eff<indices...> // move-only
	{
		std::unique_ptr<int> p = std::make_unique<int>(0);
		EffOwning(int e, int k) : Eff<indices...>{e, k} {}
	};

	struct EffInvoke
	{
		int exp{};
		int k{};
		int n = 0; // mutable state
		void operator ()() { rec().events.push_back("E" + std::to_string(exp) + " effect " + std::to_string(k) + " #" + std::to_string(n++)); }
	};

	// a requirement
	struct Gate
	{
		std::size_t index{};
		bool operator ()(const auto&) const { return rec().gates[index]; }
	};

	// ---- outcomes -----------------------------------------------------------------------------------------------------
	struct Err
	{
		int v{};
		explicit Err(int x) : v{x} {}
		virtual ~Err() = default;
	};
	struct ErrD : Err
	{
		explicit ErrD(int x) : Err{x} {}
	};

	template <typename U>
	struct Pool // the objects that references refer to
	{
		static inline std::unique_ptr<Box<U>> obj[3]{};
		static void reset()
		{
			for (int i = 0; i < 3; ++i) obj[i] = std::make_unique<Box<U>>(100 + i);
		}
	};

	template <typename R>
	struct Result // returns_result_of for values
	{
		int exp{};
		int base{};
		int n = 0;
		R operator ()()
		{
			rec().events.push_back("E" + std::to_string(exp) + " outcome #" + std::to_string(n));
			return make<R>(base + n++);
		}
	};

	template <typename R>
	struct ResultRef // returns_result_of for references
	{
		int exp{};
		R operator ()() const
		{
			rec().events.push_back("E" + std::to_string(exp) + " outcome");
			return static_cast<R>(Pool<std::remove_cvref_t<R>>::obj[exp]->v);
		}
	};

	struct Ambivalent // differs between its overloads, fails as the one that has to be used
	{
		int exp{};
		int operator ()() &
		{
			rec().events.push_back("E" + std::to_string(exp) + " outcome");
			throw ErrD{7};
		}
		int operator ()() && noexcept { return -77; }
		int operator ()() const& noexcept { return -78; }
	};

	template <typename R, int... indices>
	struct Apply
	{
		int exp{};
		template <typename... A>
		R operator ()(A&&... a) const
		{
			std::string t = "E" + std::to_string(exp) + " outcome";
			(observe(t, indices, std::forward<A>(a), 0, false), ...);
			rec().events.push_back(t);
			int sum = 1;
			((sum = (sum * 5 + get(a)) % 9973), ...);
			return make<R>(sum);
		}
	};

	template <typename R, int index>
	struct ApplyRef
	{
		int exp{};
		template <typename A>
		R operator ()(A&& a) const
		{
			std::string t = "E" + std::to_string(exp) + " outcome";
			observe(t, index, std::forward<A>(a), 0, false);
			rec().events.push_back(t);
			return static_cast<R>(a);
		}
	};

	// ---- the model ----------------------------------------------------------------------------------------------------
	enum class Out { none, stored, pool, result, apply, arg, conv, boom, ambivalent };

	struct Step
	{
		bool invoke{};
		std::vector<int> indices{};
	};

	struct Spec
	{
		std::vector<int> gates{};
		std::vector<Step> steps{};
		Out out = Out::none;
		std::vector<int> indices{};
		int exception = 0;
	};

	struct State
	{
		int min{}, max{}, count{};
		int storedValue{};
		int evaluations{};
	};

	inline int fold(int sum, int v) { return (sum * 5 + v) % 9973; }

	template <typename R>
	struct Ret
	{
		using U = std::remove_cvref_t<R>;
		static constexpr bool ref = std::is_reference_v<R>;
		static constexpr bool mut = std::is_lvalue_reference_v<R> && !std::is_const_v<std::remove_reference_t<R>>;
	};

	struct World
	{
		Src& s;
		Case& c;
		std::vector<Spec> specs{};
		std::vector<State> states{};
		std::vector<int> vals{};
		int nSteps = 0, nAnswered = 0;
		bool nontrivialOutcome = false;

		void limits()
		{
			for (std::size_t i = 0; i < specs.size(); ++i)
			{
				State st{};
				st.min = 0;
				st.max = s.range(1, 4);
				st.storedValue = s.range(10, 30);
				states.push_back(st);
				c.log("E" + std::to_string(i) + ": at most " + std::to_string(st.max) + ", configured value " + std::to_string(st.storedValue));
			}
		}

		int choose() const
		{
			for (int i = static_cast<int>(specs.size()) - 1; i >= 0; --i)
			{
				bool open = true;
				for (int g : specs[i].gates) open = open && rec().gates[g];
				if (open && states[i].count < states[i].max) return i;
			}
			return -1;
		}
		bool anyOpen() const
		{
			for (const Spec& sp : specs)
			{
				bool open = true;
				for (int g : sp.gates) open = open && rec().gates[g];
				if (open) return true;
			}
			return false;
		}

		std::string seen(int i) const { return " " + std::to_string(i) + ":" + std::to_string(vals[i]) + (rec().params[i].constant ? "c" : ""); }

		std::vector<std::string> effects(int e)
		{
			std::vector<std::string> w;
			int k = 0;
			for (const Step& st : specs[e].steps)
			{
				std::string t = "E" + std::to_string(e) + " effect " + std::to_string(k);
				if (st.invoke) t += " #" + std::to_string(states[e].count);
				for (int i : st.indices)
				{
					t += seen(i);
					if (!rec().params[i].constant) vals[i] = change(vals[i], k);
				}
				w.push_back(t);
				++k;
				++nSteps;
			}
			return w;
		}

		void compare(const std::vector<std::string>& want, const std::string& what)
		{
			const auto join = [](const std::vector<std::string>& v)
			{
				std::string t;
				for (auto& x : v) t += x + "; ";
				return t;
			};
			pbt::require(join(want) == join(rec().events), what + ": happened: " + join(rec().events) + " expected: " + join(want));
		}
	};

	template <typename U>
	constexpr bool copyable = std::is_copy_constructible_v<U>;

	// One call: predicts, performs, compares.  P...: parameters; B...: the callers' boxes.
	template <typename R, typename... P, typename Mock, typename... B>
	void call(World& w, Mock& mock, const std::string& name, B&... boxes)
	{
		Recorder& r = rec();
		r.events.clear();
		r.params = {Param{std::is_const_v<std::remove_reference_t<P>>, !std::is_reference_v<P>, std::is_reference_v<P> ? static_cast<const void*>(&boxes.v) : nullptr}...};
		const std::vector<int> before{get(boxes.v)...};
		w.vals = before;

		const int e = w.choose();
		std::vector<std::string> want;
		std::string outcome;
		const void* wantAt{};
		int* wantObject{}; // model of the object referred to
		int movedArg = -1;
		int poolValue{};
		using U = std::remove_cvref_t<R>;
		Fussy::armed = false;
		bool arm = false;
		if (e < 0) outcome = w.anyOpen() ? "inapplicable" : "no match";
		else
		{
			Spec& sp = w.specs[e];
			State& st = w.states[e];
			want = w.effects(e);
			const std::string ev = "E" + std::to_string(e) + " outcome";
			int value{};
			const auto returns = [&](int v) { outcome = "returns " + std::to_string(v); };
			if constexpr (!std::is_void_v<R>)
			{
				if (Pool<U>::obj[e]) poolValue = get(Pool<U>::obj[e]->v);
				if constexpr (std::is_same_v<U, Fussy> && !std::is_reference_v<R>) arm = w.s.coin(1, 3);
			}
			switch (sp.out)
			{
			case Out::none: outcome = "returns"; break;
			case Out::stored:
				returns(st.storedValue);
				if constexpr (Ret<R>::mut) wantObject = &st.storedValue;
				break;
			case Out::conv: returns(st.storedValue); arm = false; break;
			case Out::pool:
				returns(poolValue);
				if constexpr (Ret<R>::ref) wantAt = addressOf(Pool<U>::obj[e]->v);
				wantObject = &poolValue;
				break;
			case Out::result:
				if constexpr (Ret<R>::ref)
				{
					want.push_back(ev);
					returns(poolValue);
					wantAt = addressOf(Pool<U>::obj[e]->v);
					wantObject = &poolValue;
				}
				else
				{
					want.push_back(ev + " #" + std::to_string(st.evaluations));
					returns(st.storedValue + st.evaluations);
				}
				arm = false;
				break;
			case Out::apply:
			{
				std::string t = ev;
				int sum = 1;
				for (int i : sp.indices)
				{
					t += w.seen(i);
					sum = fold(sum, w.vals[i]);
				}
				want.push_back(t);
				arm = false;
				if constexpr (Ret<R>::ref)
				{
					const int i = sp.indices[0];
					returns(w.vals[i]);
					wantAt = r.params[i].caller;
					wantObject = &w.vals[i];
				}
				else returns(sum);
				break;
			}
			case Out::arg:
			{
				const int i = sp.indices[0];
				returns(w.vals[i]);
				if constexpr (Ret<R>::ref)
				{
					wantAt = r.params[i].caller;
					wantObject = &w.vals[i];
				}
				else
				{
					constexpr bool lvalue[]{std::is_lvalue_reference_v<P>..., false};
					constexpr bool constant[]{std::is_const_v<std::remove_reference_t<P>>..., false};
					if (lvalue[i] || constant[i]) {}
					else
					{
						movedArg = i;
						arm = false;
					}
				}
				break;
			}
			case Out::ambivalent:
				want.push_back(ev);
				arm = false;
				outcome = "throws ErrD 7";
				break;
			case Out::boom:
				arm = false;
				value = st.storedValue;
				outcome = sp.exception == 0 ? "throws Err " : sp.exception == 1 ? "throws ErrD " : sp.exception == 2 ? "throws int " : "throws runtime_error ";
				outcome += std::to_string(value);
				break;
			}
			if (arm) outcome = "throws CopyFail";
			++st.count;
			++st.evaluations;
			++w.nAnswered;
			if (sp.out != Out::none) w.nontrivialOutcome = true;
		}
		Fussy::armed = arm;
		const int copies = Tok::copies;

		std::string got;
		const int next = w.s.range(40, 60); // what the caller does with the result
		try
		{
			if constexpr (std::is_void_v<R>)
			{
				mock(pass<P>(boxes)...);
				got = "returns";
			}
			else
			{
				R result = mock(pass<P>(boxes)...);
				got = "returns " + std::to_string(get(result));
				if (wantAt) pbt::require(addressOf(result) == wantAt, name + ": the result refers to another object");
				if constexpr (Ret<R>::mut)
				{
					set(result, next);
					if (wantObject) *wantObject = next;
				}
				else if constexpr (!Ret<R>::ref) set(result, next);
			}
		}
		catch (const mc::Inapplicable&)
		{
			got = "inapplicable";
		}
		catch (const mc::NoMatch&)
		{
			got = "no match";
		}
		catch (ErrD& x)
		{
			got = typeid(x) == typeid(ErrD) ? "throws ErrD " + std::to_string(x.v) : "throws something derived";
			x.v = -9;
		}
		catch (Err& x)
		{
			got = typeid(x) == typeid(Err) ? "throws Err " + std::to_string(x.v) : "throws something derived";
			x.v = -9;
		}
		catch (int& x)
		{
			got = "throws int " + std::to_string(x);
			x = -9;
		}
		catch (std::runtime_error& x)
		{
			got = typeid(x) == typeid(std::runtime_error) ? std::string{"throws runtime_error "} + x.what() : "throws something derived";
		}
		catch (CopyFail&)
		{
			got = "throws CopyFail";
		}
		Fussy::armed = false;
		w.c.log(name + ": " + got);
		pbt::require(got == outcome, name + ": the call " + got + ", expected: " + outcome);
		w.compare(want, name);

		// the callers' objects
		const std::vector<int> after{get(boxes.v)...};
		constexpr bool byValue[]{!std::is_reference_v<P>..., false};
		for (std::size_t i = 0; i < after.size(); ++i)
		{
			if (byValue[i] || static_cast<int>(i) == movedArg) continue;
			pbt::require(after[i] == w.vals[i], name + ": argument " + std::to_string(i) + " of the caller is " + std::to_string(after[i]) + " afterwards, expected " + std::to_string(w.vals[i]));
		}
		if constexpr (!std::is_void_v<R>)
		{
			if (e >= 0 && Pool<U>::obj[e])
			{
				if constexpr (!std::is_rvalue_reference_v<R>)
					pbt::require(get(Pool<U>::obj[e]->v) == poolValue, name + ": the referenced object is " + std::to_string(get(Pool<U>::obj[e]->v)) + " afterwards, expected " + std::to_string(poolValue));
				if (w.s.coin(1, 2)) set(Pool<U>::obj[e]->v, w.s.range(60, 99));
			}
			if constexpr (!std::is_same_v<U, Tok> || std::is_reference_v<R>)
				pbt::require(Tok::copies == copies, name + ": an argument was copied");
		}
		else pbt::require(Tok::copies == copies, name + ": an argument was copied");
	}

	inline void finish(World& w)
	{
		w.c.nontrivial = w.nAnswered > 0 && (w.nSteps > 1 || w.nontrivialOutcome);
	}
}
