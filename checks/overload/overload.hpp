// C07: which overload a call on a mock resolves to and which expectations may answer it.
// The generated units (gen_overload.py) contain, per overload set, a hand-written class with these member functions, the
// mock, and many call and set-up expressions.  The class decides (through the compiler) what each of them means.
#pragma once
#include "../../lib/pbt.hpp"
#include <mimic++/mimic++.hpp>

#include <functional>
#include <memory>
#include <optional>
#include <source_location>
#include <sstream>
#include <string>
#include <typeindex>
#include <vector>

namespace ov
{
	using pbt::Case;
	using pbt::Src;

	template <typename... T>
	std::string str(const T&... x)
	{
		std::ostringstream o;
		(o << ... << x);
		return o.str();
	}

	// may A be given as requirement for a parameter of type P?
	template <typename A, typename P>
	concept accepts = requires(mimicpp::Mock<void(P)> m) { m.expect_call(std::declval<A>()); };

	struct Base
	{
		int v{1};
		virtual ~Base() = default;
	};
	struct Derived : Base
	{
	};
	enum class Scoped { a, b };
	enum Plain { pa, pb };
	struct FromInt
	{
		int v;
		FromInt(int x) : v{x} {}
	};
	struct ToInt
	{
		int v{9};
		operator int() const { return v; }
	};
	struct Explicit
	{
		int v{};
		explicit Explicit(int x) : v{x} {}
	};

	// the caller's objects
	struct Args
	{
		int i{11};
		const int ci{12};
		long l{13};
		unsigned u{14};
		short sh{15};
		char c{'x'};
		bool b{true};
		double d{2.5};
		float f{1.5f};
		std::string s{"text"};
		const std::string cs{"const text"};
		const char* cp{"pointed"};
		std::string_view sv{"viewed"};
		Base base{};
		Derived der{};
		const Derived cder{};
		Base* bp{&base};
		const Derived* cdp{&cder};
		std::unique_ptr<int> up{std::make_unique<int>(7)};
		std::vector<int> v{1, 2};
		Scoped e{Scoped::b};
		Plain pe{pb};
		std::optional<int> o{5};
		FromInt fi{3};
		ToInt ti{};
		Explicit ex{4};
		std::nullptr_t np{};
	};

	template <typename T>
	std::string digest(const T& x)
	{
		if constexpr (std::is_same_v<T, std::nullptr_t>) return "null";
		else if constexpr (std::is_arithmetic_v<T>) return std::to_string(static_cast<double>(x));
		else if constexpr (std::is_enum_v<T>) return std::to_string(static_cast<int>(x));
		else if constexpr (std::is_pointer_v<T> && std::is_convertible_v<const T&, std::string_view>) return x ? x : "null";
		else if constexpr (std::is_convertible_v<const T&, std::string_view>) return std::string{std::string_view{x}};
		else if constexpr (requires { std::to_string(x.v); }) return std::to_string(x.v);
		else if constexpr (requires { x.size(); }) return std::to_string(x.size());
		else if constexpr (requires { x.has_value(); }) return x ? digest(*x) : "none";
		else if constexpr (requires { *x; x.get(); }) return x ? "owner" : "empty";
		else return "?";
	}

	struct Seen
	{
		std::vector<std::ptrdiff_t> at{}; // position within the caller's objects, -1: elsewhere
		std::vector<std::string> value{};
		bool operator ==(const Seen&) const = default;
		std::string text() const
		{
			std::string t;
			for (std::size_t k = 0; k < at.size(); ++k) t += (k ? ", " : "") + value[k] + "@" + std::to_string(at[k]);
			return t;
		}
	};
	inline const Args* current{};
	inline Seen real{};
	template <typename... T>
	void see(Seen& to, T&... x)
	{
		to = {};
		const auto one = [&](const auto& y) {
			const char* const p = reinterpret_cast<const char*>(std::addressof(y));
			const char* const a = reinterpret_cast<const char*>(current);
			to.at.push_back(current && p >= a && p < a + sizeof(Args) ? p - a : -1);
			to.value.push_back(digest(y));
		};
		(one(x), ...);
	}

	template <int k, typename R, bool nx, int cat, int cst, typename... P>
	struct Tag
	{
		static constexpr int index = k;
		using Ret = R;
	};

	// accepts every value of exactly this parameter type
	template <typename P>
	struct Only
	{
		bool matches(std::remove_reference_t<P>&) const { return true; }
		template <typename T>
			requires (!std::same_as<T, std::remove_reference_t<P>>)
		bool matches(T&) const = delete;
		mimicpp::StringT describe() const { return "only"; }
	};

	template <typename R>
	R result()
	{
		if constexpr (std::is_void_v<R>) return;
		else if constexpr (std::is_lvalue_reference_v<R>)
		{
			static std::remove_cvref_t<R> x{};
			return x;
		}
		else if constexpr (std::is_rvalue_reference_v<R>)
		{
			static std::remove_cvref_t<R> x{};
			return static_cast<R>(x);
		}
		else return R{};
	}

	struct Answer
	{
		int id{-1};
		Seen seen{};
	};
	inline Answer answer{};

	struct Handle
	{
		virtual ~Handle() noexcept(false) {}
	};
	struct Scoped1 final : Handle
	{
		mimicpp::ScopedExpectation e;
		explicit Scoped1(mimicpp::ScopedExpectation x) : e{std::move(x)} {}
		~Scoped1() noexcept(false) override {}
	};
	template <typename R, typename Builder>
	std::unique_ptr<Handle> finish(Builder&& b, int id, int upper)
	{
		auto b2 = std::forward<Builder>(b)
				&& mimicpp::expect::at_most(upper)
				&& mimicpp::then::apply_all([id](auto&... x) {
						answer.id = id;
						see(answer.seen, x...);
					});
		if constexpr (std::is_void_v<R>) return std::make_unique<Scoped1>(mimicpp::ScopedExpectation{std::move(b2)});
		else return std::make_unique<Scoped1>(mimicpp::ScopedExpectation{std::move(b2) && mimicpp::finally::returns_result_of(&result<R>)});
	}

	struct Overload
	{
		const char* text;
		int group;  // overloads with the same parameters and return type
		int cat;    // 1 lvalue, 2 rvalue, 3 any
		int cst;    // 1 non-const, 2 const
		bool nx;
		std::vector<std::type_index> params;
		std::type_index ret;
	};
	struct Form
	{
		const char* text;
		int index;      // what the class resolves it to, -1: not callable
		bool callable;  // on the mock
		bool sameType, sameNoexcept;
		unsigned line;
		void (*onReal)(void*, Args&);
		void (*onMock)(void*, Args&);
	};
	struct Arm
	{
		const char* text;
		int index;
		bool possible;
		std::unique_ptr<Handle> (*make)(void*, int, int);
	};
	struct Set
	{
		const char* text;
		std::vector<Overload> overloads;
		std::vector<Form> forms;
		std::vector<Arm> arms;
		std::shared_ptr<void> (*makeReal)();
		std::shared_ptr<void> (*makeMock)();
		std::shared_ptr<void> (*moveMock)(void*);
	};
	template <typename Real, typename M, typename F, bool onReal, bool onMock>
	void addForm(Set& s, const char* text, unsigned line)
	{
		Form f{text, -1, onMock, true, true, line, nullptr, nullptr};
		if constexpr (onReal)
		{
			using T = decltype(F::go(std::declval<Real&>(), std::declval<Args&>()));
			f.index = T::index;
			f.onReal = [](void* o, Args& a) { F::go(*static_cast<Real*>(o), a); };
			if constexpr (onMock)
			{
				f.sameType = std::is_same_v<typename T::Ret, decltype(F::go(std::declval<M&>(), std::declval<Args&>()))>;
				f.sameNoexcept = noexcept(F::go(std::declval<Real&>(), std::declval<Args&>())) == noexcept(F::go(std::declval<M&>(), std::declval<Args&>()));
			}
		}
		if constexpr (onMock) f.onMock = [](void* o, Args& a) { (void)F::go(*static_cast<M*>(o), a); };
		s.forms.push_back(f);
	}

	template <typename Real, typename M, bool onReal, bool onMock, typename F>
	void addArm(Set& s, const char* text, F)
	{
		Arm a{text, -1, onMock, nullptr};
		if constexpr (onReal)
		{
			using T = std::invoke_result_t<F, Real&>;
			a.index = T::index;
			if constexpr (onMock)
				a.make = [](void* m, int id, int upper) { return finish<typename T::Ret>(F{}(*static_cast<M*>(m)), id, upper); };
		}
		s.arms.push_back(a);
	}

	template <typename Real, typename M>
	void addMakers(Set& s)
	{
		s.makeReal = []() -> std::shared_ptr<void> { return std::make_shared<Real>(); };
		s.makeMock = []() -> std::shared_ptr<void> { return std::make_shared<M>(); };
		s.moveMock = [](void* m) -> std::shared_ptr<void> { return std::make_shared<M>(std::move(*static_cast<M*>(m))); };
	}

	inline std::vector<Set (*)()>& sets()
	{
		static std::vector<Set (*)()> s;
		return s;
	}
	struct Add
	{
		explicit Add(Set (*f)()) { sets().push_back(f); }
	};

	// ---- reports ------------------------------------------------------------------------------------------------------
	struct Failed
	{
		bool inapplicable{};
	};
	struct Log
	{
		int full{}, none{}, inapplicable{}, other{};
		std::optional<mimicpp::CallReport> call{};
		std::vector<unsigned> lines{};
	};
	inline Log record{};
	class Reporter final : public mimicpp::IReporter
	{
		void report_no_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> m) override
		{
			++record.none;
			note(std::move(call), m);
			throw Failed{false};
		}
		void report_inapplicable_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> m) override
		{
			++record.inapplicable;
			note(std::move(call), m);
			throw Failed{true};
		}
		void report_full_match(mimicpp::CallReport call, mimicpp::MatchReport m) noexcept override
		{
			++record.full;
			note(std::move(call), {m});
		}
		void report_unfulfilled_expectation(mimicpp::ExpectationReport) override { ++record.other; }
		void report_error(mimicpp::StringT) override { ++record.other; }
		void report_unhandled_exception(mimicpp::CallReport, mimicpp::ExpectationReport, std::exception_ptr) override { ++record.other; }

		static void note(mimicpp::CallReport call, const std::vector<mimicpp::MatchReport>& m)
		{
			record.call.emplace(std::move(call));
			for (const auto& r : m) record.lines.push_back(r.sourceLocation ? r.sourceLocation->line() : 0u);
		}
	};

	// ---- the property -------------------------------------------------------------------------------------------------
	inline void run(Src& src, Case& c)
	{
		mimicpp::install_reporter<Reporter>();
		const std::size_t which = src.draw(static_cast<std::uint32_t>(sets().size()));
		const Set set = sets()[which]();
		c.log(str("set ", which, ": ", set.text));
		for (const Form& f : set.forms)
		{
			if (f.callable != (f.index >= 0))
				pbt::fail(str(f.text, f.callable ? " compiles on the mock, but not on the class" : " compiles on the class, but not on the mock"));
			if (f.index < 0) continue;
			if (!f.sameType) pbt::fail(str(f.text, ": the result type differs from the one of overload ", set.overloads[f.index].text));
			if (!f.sameNoexcept) pbt::fail(str(f.text, ": noexcept differs from overload ", set.overloads[f.index].text));
		}
		for (const Arm& a : set.arms)
			if (a.possible != (a.index >= 0)) pbt::fail(str(a.text, a.possible ? " compiles, but should be ambiguous or impossible" : " does not compile"));

		std::vector<const Form*> forms;
		for (const Form& f : set.forms)
			if (f.index >= 0) forms.push_back(&f);
		std::vector<const Arm*> arms;
		for (const Arm& a : set.arms)
			if (a.index >= 0) arms.push_back(&a);
		if (forms.empty()) throw pbt::Discard{};

		const std::shared_ptr<void> real = set.makeReal();
		std::shared_ptr<void> mock = set.makeMock();
		struct Exp
		{
			int id, index, left, limit;
			std::unique_ptr<Handle> handle;
		};
		std::vector<Exp> live;
		int nextId = 0, answeredCalls = 0, rivals = 0;
		const int ops = 2 + static_cast<int>(src.draw(15));
		for (int k = 0; k < ops; ++k)
		{
			const int op = src.weighted({5, 8, 1, 1});
			if (op == 0 && !arms.empty())
			{
				const Arm& a = *arms[src.draw(static_cast<std::uint32_t>(arms.size()))];
				const int upper = static_cast<int>(src.range(1, 3));
				const int id = nextId++;
				c.log(str("expectation ", id, ": ", a.text, " (for ", set.overloads[a.index].text, "), at most ", upper));
				live.push_back({id, a.index, upper, upper, a.make(mock.get(), id, upper)});
			}
			else if (op == 2 && !live.empty())
			{
				const std::size_t i = src.draw(static_cast<std::uint32_t>(live.size()));
				c.log(str("end expectation ", live[i].id));
				live.erase(live.begin() + static_cast<std::ptrdiff_t>(i));
			}
			else if (op == 3)
			{
				c.log(str("move the mock"));
				mock = set.moveMock(mock.get());
			}
			else if (op == 1)
			{
				// prefer calls of overloads with expectations
				const Form* form = forms[src.draw(static_cast<std::uint32_t>(forms.size()))];
				if (!live.empty() && src.coin(1, 2))
				{
					std::vector<const Form*> hits;
					const int target = live[src.draw(static_cast<std::uint32_t>(live.size()))].index;
					for (const Form* f : forms)
						if (f->index == target) hits.push_back(f);
					if (!hits.empty()) form = hits[src.draw(static_cast<std::uint32_t>(hits.size()))];
				}
				const Overload& o = set.overloads[form->index];
				Exp* expected = nullptr;
				for (Exp& e : live)
					if (e.index == form->index && e.left > 0) expected = &e;
				if (!expected && o.nx) continue;
				std::size_t saturated = 0, inGroup = 0, elsewhere = 0;
				for (const Exp& e : live)
				{
					if (set.overloads[e.index].group == o.group) ++inGroup;
					if (e.index == form->index && e.left == 0) ++saturated;
					if (e.index != form->index) ++elsewhere;
				}
				c.log(str("call ", form->text, " -> ", o.text, expected ? str(" answered by ", expected->id) : std::string{" fails"}));
				Args a1{};
				current = &a1;
				ov::real = {};
				form->onReal(real.get(), a1);
				Args a2{};
				current = &a2;
				answer = {};
				record = {};
				int failed = 0;
				try
				{
					form->onMock(mock.get(), a2);
				}
				catch (const Failed& f)
				{
					failed = f.inapplicable ? 2 : 1;
				}
				current = nullptr;
				pbt::require(record.other == 0, "nothing else is reported");
				pbt::require(record.full + record.none + record.inapplicable == 1, "there is exactly one verdict");
				if (expected)
				{
					if (failed) pbt::fail("the call fails");
					if (answer.id != expected->id) pbt::fail(str("answered by ", answer.id));
					if (!(answer.seen == ov::real)) pbt::fail(str("the overload sees ", ov::real.text(), ", the expectation sees ", answer.seen.text()));
					--expected->left;
					++answeredCalls;
					rivals += elsewhere > 0;
				}
				else
				{
					if (!failed) pbt::fail("the call does not fail");
					if (answer.id != -1) pbt::fail(str("effects of ", answer.id));
					if (failed != (saturated ? 2 : 1)) pbt::fail("wrong verdict");
					if (record.lines.size() != (saturated ? saturated : inGroup)) pbt::fail(str(record.lines.size(), " expectations are listed"));
				}
				const mimicpp::CallReport& r = *record.call;
				if (r.fromLoc.line() != form->line) pbt::fail(str("reported call location is line ", r.fromLoc.line(), " instead of ", form->line));
				if (std::string_view{r.fromLoc.file_name()}.find("set_") == std::string_view::npos) pbt::fail(str("reported call location is in ", r.fromLoc.file_name()));
				if (r.returnTypeIndex != o.ret) pbt::fail("reported return type differs");
				if (r.argDetails.size() != o.params.size()) pbt::fail("reported number of arguments differs");
				for (std::size_t n = 0; n < o.params.size(); ++n)
					if (r.argDetails[n].typeIndex != o.params[n]) pbt::fail(str("reported type of argument ", n, " differs"));
				const int cat = r.fromCategory == mimicpp::ValueCategory::lvalue ? 1 : r.fromCategory == mimicpp::ValueCategory::rvalue ? 2 : 3;
				const int cst = r.fromConstness == mimicpp::Constness::non_const ? 1 : r.fromConstness == mimicpp::Constness::as_const ? 2 : 3;
				if (cat != o.cat) pbt::fail("reported value category differs");
				if (cst != o.cst) pbt::fail("reported constness differs");
			}
		}
		c.label(answeredCalls ? "answered calls" : "no answered call");
		c.label(set.overloads.size() > 1 ? "overload set" : "single signature");
		if (answeredCalls && rivals) c.nontrivial = true;
	}
}
