// Stateful model-based harness for the matching core: shared declarations.
// Only the public interface of mimic++ is used.
#pragma once

#include <mimic++/mimic++.hpp>

#include <cstddef>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <source_location>
#include <stdexcept>
#include <string>
#include <tuple>
#include <variant>
#include <vector>

namespace core
{
	// ---- mock types and their entry points (keep in step with gen_shapes.py) ---------------------------------
	using M0 = mimicpp::Mock<int(int)>;
	using M1 = mimicpp::Mock<int(int), int(int) const>;
	using M2 = mimicpp::Mock<int(int)&, int(int) const&, int(int)&&, int(int) const&&>;
	using M3 = mimicpp::Mock<int(int, int), int(std::string), void()>;
	using M4 = mimicpp::Mock<int&(int&, const int&) const>;
	constexpr int mockKinds = 5;

	struct EntryDesc
	{
		const char* name;
		int mockKind;
		int coll;      // index of the expectation collection within the mock
		int params;    // number of parameters
		bool str;      // the (single) parameter is a string
		bool byRef;    // parameters are references
		bool isVoid;
		int cat;       // 1 lvalue, 2 rvalue, 3 any
		int cst;       // 1 non_const, 2 const
	};

	inline const EntryDesc entries[] = {
		{"M0()", 0, 0, 1, false, false, false, 3, 1},
		{"M1()", 1, 0, 1, false, false, false, 3, 1},
		{"M1()const", 1, 0, 1, false, false, false, 3, 2},
		{"M2()&", 2, 0, 1, false, false, false, 1, 1},
		{"M2()const&", 2, 0, 1, false, false, false, 1, 2},
		{"M2()&&", 2, 0, 1, false, false, false, 2, 1},
		{"M2()const&&", 2, 0, 1, false, false, false, 2, 2},
		{"M3(int,int)", 3, 0, 2, false, false, false, 3, 1},
		{"M3(string)", 3, 1, 1, true, false, false, 3, 1},
		{"M3()", 3, 2, 0, false, false, true, 3, 1},
		{"M4(int&,const int&)const", 4, 0, 2, false, true, false, 3, 2},
	};
	constexpr int entryCount = sizeof entries / sizeof entries[0];

	// ---- locations -------------------------------------------------------------------------------------------
	constexpr int locCount = 512;
	extern const std::source_location kLoc[locCount];

	// ---- payload instrumentation -----------------------------------------------------------------------------
	// Every functor handed to the library carries a token; tokens must all be gone after a case and none may be
	// used after its destruction.
	class Token
	{
	public:
		Token() { live().insert(this); }
		Token(const Token& o)
		{
			o.check();
			live().insert(this);
		}
		Token(Token&& o) noexcept
		{
			o.check();
			live().insert(this);
		}
		Token& operator=(const Token& o)
		{
			o.check();
			check();
			return *this;
		}
		~Token()
		{
			check();
			live().erase(this);
		}
		void check() const
		{
			if (!live().contains(this)) ++misuse();
		}
		static std::set<const Token*>& live()
		{
			static std::set<const Token*> s{};
			return s;
		}
		static long& misuse()
		{
			static long n = 0;
			return n;
		}
	};

	// ---- dynamic description of one expectation --------------------------------------------------------------
	enum ReqKind
	{
		rqWild,
		rqDirect,
		rqEq,
		rqNe,
		rqLt,
		rqLe,
		rqGt,
		rqGe,
		rqNotEq,
		rqNotLt,
		rqNotNotLe,
		rqPred,
		rqNotPred,
		rqDyn,
		rqTrait,
		rqProjEq,   // chained only
		rqStrEq,
		rqStrStarts,
		rqStrEnds,
		rqStrContains,
		rqStrNotContains,
	};

	struct ReqSpec
	{
		ReqKind kind{};
		int arg{};
		int v{};
		unsigned mask{};      // accepted values for predicates and dynamic matchers (bit v & 7)
		unsigned throwMask{}; // values on which a dynamic matcher throws
		int throwKind{};      // what it throws
		std::string s{};
		int id{};
	};

	// what a dynamic requirement throws
	struct Boom
	{
		int id;
	};
	struct BoomStd : std::runtime_error
	{
		int id;
		explicit BoomStd(int i)
			: std::runtime_error{"boom"},
			id{i}
		{
		}
	};
	[[noreturn]] inline void raise(int kind, int id)
	{
		if (kind == 0) throw BoomStd{id};
		if (kind == 1) throw Boom{id};
		throw id;
	}

	// the exception configured as outcome
	struct Exc : std::exception
	{
		int v{};
		Token t{};
		explicit Exc(int x)
			: v{x}
		{
		}
		const char* what() const noexcept override { return "configured"; }
	};

	struct PolState
	{
		int id{};
		bool accept = true;
		bool satisfied = true;
		bool described = true;
		bool emptyText = false; // the description is the empty text
		int throwKind = -1; // >= 0: throws when asked
		int consumed = 0;
	};

	struct EffSpec
	{
		int id{};
		bool mutate{};
		int nested{}; // number of nested operations
	};

	struct TimesSpec
	{
		int kind{}; // 0 default, 1 range, 2 exactly, 3 at least, 4 at most, 5 once, 6 twice
		int a{};
		int b{};
	};

	struct Spec
	{
		int id{};
		std::vector<ReqSpec> rq{};
		std::vector<std::shared_ptr<PolState>> pol{};
		TimesSpec times{};
		std::vector<int> seq{};
		std::vector<EffSpec> eff{};
		int finV{};
		int finNested{};
	};

	struct Elem
	{
		char c;   // A P Q T S E F
		int k;
		int slot;
		int a;
		int b;
	};

	struct World;

	struct Shape
	{
		int entry;
		std::vector<Elem> elems;
		std::unique_ptr<mimicpp::ScopedExpectation> (*build)(World&, void*, Spec&);
		const char* text;
	};

	std::vector<Shape>& shapes();

	struct AddShapes
	{
		explicit AddShapes(std::vector<Shape> s)
		{
			for (auto& x : s) shapes().push_back(std::move(x));
		}
	};

	// ---- callbacks from the library into the harness ---------------------------------------------------------
	struct World
	{
		std::vector<std::unique_ptr<mimicpp::LazySequence>> lazy;
		std::vector<std::unique_ptr<mimicpp::GreedySequence>> greedy;
		std::vector<int> cells = std::vector<int>(8);

		// kind: 0 invoke, 1..: number of arguments; pointers are the argument objects
		virtual void on_effect(int exp, int slot, const void* p0, const void* p1, int n, bool c0, bool c1) = 0;
		virtual bool mutates(int exp, int slot) const = 0;
		virtual int on_final(int exp, const void* p0, const void* p1, int n) = 0;
		virtual int& on_final_ref(int exp, const void* p0, const void* p1, int n) = 0;
		virtual void on_policy(int exp, int slot) = 0;
		virtual void on_evaluate(int reqId) = 0;
		virtual ~World() = default;
	};

	// ---- functors handed to the library ----------------------------------------------------------------------
	struct MaskPred
	{
		World* w;
		unsigned mask;
		Token t{};
		bool operator()(const int& v) const
		{
			t.check();
			return (mask >> (static_cast<unsigned>(v) & 7u)) & 1u;
		}
	};

	struct DynMatcher
	{
		World* w;
		unsigned mask;
		unsigned throwMask;
		int throwKind;
		int id;
		Token t{};

		bool eval(unsigned bit) const
		{
			t.check();
			w->on_evaluate(id);
			if ((throwMask >> bit) & 1u) raise(throwKind, id);
			return (mask >> bit) & 1u;
		}
		bool matches(const int& v) const { return eval(static_cast<unsigned>(v) & 7u); }
		bool matches(const std::string& s) const { return eval(static_cast<unsigned>(s.size()) & 7u); }
		std::string describe() const
		{
			t.check();
			return "is dynamic#" + std::to_string(id);
		}
	};

	// reached only through custom::matcher_traits
	struct TraitMatcher
	{
		World* w;
		unsigned mask;
		int id;
		Token t{};
	};

	struct Mod3
	{
		Token t{};
		int operator()(const int& v) const
		{
			t.check();
			return ((v % 3) + 3) % 3;
		}
	};

	struct DynPolicy
	{
		World* w;
		std::shared_ptr<PolState> st;
		int exp;
		int slot;
		Token t{};

		bool is_satisfied() const noexcept
		{
			t.check();
			return st->satisfied;
		}
		template <typename Info>
		bool matches(const Info&) const
		{
			t.check();
			w->on_evaluate(st->id);
			if (st->throwKind >= 0) raise(st->throwKind, st->id);
			return st->accept;
		}
		std::optional<std::string> describe() const
		{
			t.check();
			if (!st->described) return std::nullopt;
			if (st->emptyText) return std::string{};
			return "policy#" + std::to_string(st->id);
		}
		template <typename Info>
		void consume(const Info&)
		{
			t.check();
			++st->consumed;
			w->on_policy(exp, slot);
		}
	};

	struct CustomFinal
	{
		World* w;
		int exp;
		Token t{};

		template <typename Ret, typename... Args>
		Ret finalize_call(const mimicpp::call::Info<Ret, Args...>&)
		{
			t.check();
			if constexpr (std::is_void_v<Ret>) w->on_final(exp, nullptr, nullptr, 0);
			else if constexpr (std::is_reference_v<Ret>) return w->on_final_ref(exp, nullptr, nullptr, 0);
			else return w->on_final(exp, nullptr, nullptr, 0);
		}
	};

	template <typename T>
	void mutateValue(T& v)
	{
		if constexpr (!std::is_const_v<T>)
		{
			if constexpr (std::is_same_v<T, int>) v += 100;
			else v += "!";
		}
	}

	struct Effect
	{
		World* w;
		int exp;
		int slot;
		Token t{};

		void operator()() const
		{
			t.check();
			w->on_effect(exp, slot, nullptr, nullptr, 0, false, false);
		}
		template <typename A>
		void operator()(A& a) const
		{
			t.check();
			w->on_effect(exp, slot, std::addressof(a), nullptr, 1, std::is_const_v<A>, false);
			if (w->mutates(exp, slot)) mutateValue(a);
		}
		template <typename A, typename B>
		void operator()(A& a, B& b) const
		{
			t.check();
			w->on_effect(exp, slot, std::addressof(a), std::addressof(b), 2, std::is_const_v<A>, std::is_const_v<B>);
			if (w->mutates(exp, slot))
			{
				mutateValue(a);
				mutateValue(b);
			}
		}
	};

	struct Final
	{
		World* w;
		int exp;
		Token t{};
		int operator()() const
		{
			t.check();
			return w->on_final(exp, nullptr, nullptr, 0);
		}
		template <typename A>
		int operator()(A& a) const
		{
			t.check();
			return w->on_final(exp, std::addressof(a), nullptr, 1);
		}
		template <typename A, typename B>
		int operator()(A& a, B& b) const
		{
			t.check();
			return w->on_final(exp, std::addressof(a), std::addressof(b), 2);
		}
	};

	struct FinalRef
	{
		World* w;
		int exp;
		Token t{};
		int& operator()() const
		{
			t.check();
			return w->on_final_ref(exp, nullptr, nullptr, 0);
		}
		template <typename A>
		int& operator()(A& a) const
		{
			t.check();
			return w->on_final_ref(exp, std::addressof(a), nullptr, 1);
		}
		template <typename A, typename B>
		int& operator()(A& a, B& b) const
		{
			t.check();
			return w->on_final_ref(exp, std::addressof(a), std::addressof(b), 2);
		}
	};

	enum FinKind
	{
		fnReturns,
		fnReturnsRef,     // std::ref of a cell
		fnResultOf,
		fnApply,          // 1 or 2 arguments
		fnApplyAll,
		fnArg,
		fnThrows,
		fnCustom,
		fnNone            // void without outcome
	};
}

template <>
struct mimicpp::custom::matcher_traits<core::TraitMatcher>
{
	bool matches(const core::TraitMatcher& m, const int& v) const
	{
		m.t.check();
		m.w->on_evaluate(m.id);
		return (m.mask >> (static_cast<unsigned>(v) & 7u)) & 1u;
	}
	std::string describe(const core::TraitMatcher& m) const
	{
		m.t.check();
		return "is trait#" + std::to_string(m.id);
	}
};
