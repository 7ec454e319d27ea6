// C27, third part: reports and call descriptions are values: equal exactly if everything they state is equal.
// Each case states the contents twice as plain numbers (equal, differing in one or two places, or unrelated), builds the
// objects from them and compares what the library says about the objects with what holds of the numbers.
#include "../matchers/common.hpp"

#include <climits>
#include <map>
#include <sstream>
#include <typeindex>

using namespace mc;

namespace
{
	using Loc = std::source_location;

	// locations that differ in the file only, the line only, the column only, the function only
	std::vector<Loc> placesOne()
	{
		std::vector<Loc> r;
		// clang-format off
#line 100 "one.cpp"
		r.push_back(Loc::current()); r.push_back(Loc::current());
#line 100 "two.cpp"
		r.push_back(Loc::current()); r.push_back(Loc::current());
#line 101 "one.cpp"
		r.push_back(Loc::current());
#line 200 "equal.cpp"
		// clang-format on
		return r;
	}

	std::vector<Loc> placesTwo()
	{
		std::vector<Loc> r;
#line 100 "one.cpp"
		r.push_back(Loc::current()); r.push_back(Loc::current());
#line 300 "equal.cpp"
		return r;
	}

	const std::vector<Loc>& places()
	{
		static const std::vector<Loc> all = []
		{
			std::vector<Loc> r = placesOne();
			for (const Loc& l : placesTwo()) r.push_back(l);
			r.emplace_back();
			return r;
		}();
		return all;
	}
	constexpr int placeCount = 8;

	const std::type_index types[]{typeid(int), typeid(void), typeid(std::string), typeid(long), typeid(unsigned)};
	const char* const texts[]{"", "a", "b", "a ", "A", "expect: arg[0] == 1", "expect: arg[1] == 1", "a text that does not fit into the small buffer of a string"};
	constexpr mimicpp::ValueCategory categories[]{mimicpp::ValueCategory::lvalue, mimicpp::ValueCategory::rvalue, mimicpp::ValueCategory::any};
	constexpr mimicpp::Constness constnesses[]{mimicpp::Constness::non_const, mimicpp::Constness::as_const, mimicpp::Constness::any};

	// contents: a list of numbers per field, so that a comparison is that of the lists
	using Field = std::vector<int>;
	using Spec = std::vector<Field>;

	int num(Src& s, int n) { return static_cast<int>(s.draw(static_cast<std::uint32_t>(n))); }

	struct Shape // how to draw one field
	{
		std::function<Field(Src&)> draw;
	};

	Field one(Src& s, int n) { return {num(s, n)}; }

	Field records(Src& s, std::initializer_list<int> domains, int maxLen)
	{
		Field f;
		for (int n = num(s, maxLen + 1); n > 0; --n)
			for (const int d : domains) f.push_back(num(s, d));
		return f;
	}

	Spec drawSpec(Src& s, const std::vector<Shape>& shapes)
	{
		Spec r;
		for (const Shape& sh : shapes) r.push_back(sh.draw(s));
		return r;
	}

	Spec relatedSpec(Src& s, const std::vector<Shape>& shapes, const Spec& a)
	{
		Spec b = a;
		const auto redraw = [&]
		{
			const auto i = s.draw(static_cast<std::uint32_t>(shapes.size()));
			Field& f = b[i];
			const Field fresh = shapes[i].draw(s);
			if (!f.empty() && fresh.size() == f.size() && s.coin(1, 2))
			{
				const auto k = s.draw(static_cast<std::uint32_t>(f.size()));
				f[k] = fresh[k];
			}
			else f = fresh;
		};
		switch (s.weighted({3, 5, 2, 1}))
		{
		case 0: break;
		case 1: redraw(); break;
		case 2: redraw(); redraw(); break;
		default: b = drawSpec(s, shapes);
		}
		return b;
	}

	std::string shownSpec(const Spec& a)
	{
		std::string r;
		for (const Field& f : a)
		{
			r += " [";
			for (const int i : f) r += std::to_string(i) + ' ';
			r += ']';
		}
		return r;
	}

	std::optional<mimicpp::StringT> optText(int i)
	{
		return i == 0 ? std::nullopt : std::optional<mimicpp::StringT>{texts[i - 1]};
	}

	std::optional<Loc> optPlace(int i)
	{
		return i == 0 ? std::nullopt : std::optional<Loc>{places()[static_cast<std::size_t>(i - 1)]};
	}

	template <typename T>
	void compare(Case& c, const Spec& a, const Spec& b, const T& x, const T& y)
	{
		const bool want = a == b;
		c.nontrivial = true;
		c.label(want ? "equal" : "unequal");
		c.log(shownSpec(a) + "\n" + shownSpec(b));
		pbt::require((x == y) == want && (y == x) == want, want ? "equal contents compare unequal" : "unequal contents compare equal");
		pbt::require((x != y) == !want && (y != x) == !want, "!= does not negate ==");
		pbt::require(x == x && y == y, "something differs from itself");
		T copy{x};
		pbt::require(copy == x && (copy == y) == want, "a copy states something else");
		copy = y;
		pbt::require(copy == y && (copy == x) == want, "an assigned object states something else");
		const T moved{std::move(copy)};
		pbt::require(moved == y && (moved == x) == want, "a moved object states something else");
		if constexpr (requires { mimicpp::print(x); })
			if (want) pbt::require(mimicpp::print(x) == mimicpp::print(y), "equal reports have different texts");
	}

	// ---- call reports -----------------------------------------------------------------------------------------------
	const std::vector<Shape> callShapes{
		{[](Src& s) { return one(s, 5); }},
		{[](Src& s) { return records(s, {5, 8}, 3); }},
		{[](Src& s) { return one(s, placeCount); }},
		{[](Src& s) { return one(s, 3); }},
		{[](Src& s) { return one(s, 3); }}};

	mimicpp::CallReport callReport(const Spec& p)
	{
		mimicpp::CallReport r{.returnTypeIndex = types[p[0][0]]};
		for (std::size_t i = 0; i < p[1].size(); i += 2) r.argDetails.push_back({types[p[1][i]], texts[p[1][i + 1]]});
		r.fromLoc = places()[static_cast<std::size_t>(p[2][0])];
		r.fromCategory = categories[p[3][0]];
		r.fromConstness = constnesses[p[4][0]];
		return r;
	}

	void callReportCase(Src& s, Case& c)
	{
		const Spec a = drawSpec(s, callShapes), b = relatedSpec(s, callShapes, a);
		compare(c, a, b, callReport(a), callReport(b));
	}

	// ---- expectation reports ----------------------------------------------------------------------------------------
	const std::vector<Shape> expectationShapes{
		{[](Src& s) { return one(s, placeCount + 1); }},
		{[](Src& s) { return one(s, 9); }},
		{[](Src& s) { return one(s, 9); }},
		{[](Src& s) { return records(s, {9}, 4); }}};

	mimicpp::ExpectationReport expectationReport(const Spec& p)
	{
		mimicpp::ExpectationReport r{};
		r.sourceLocation = optPlace(p[0][0]);
		r.finalizerDescription = optText(p[1][0]);
		r.timesDescription = optText(p[2][0]);
		for (const int i : p[3]) r.expectationDescriptions.push_back(optText(i));
		return r;
	}

	void expectationReportCase(Src& s, Case& c)
	{
		const Spec a = drawSpec(s, expectationShapes), b = relatedSpec(s, expectationShapes, a);
		const auto x = expectationReport(a);
		compare(c, a, b, x, expectationReport(b));
		const std::string t = mimicpp::print(x);
		for (const auto& d : x.expectationDescriptions) pbt::require(!d || t.find(*d) != t.npos, "the text lacks a requirement");
		pbt::require(!x.finalizerDescription || t.find(*x.finalizerDescription) != t.npos, "the text lacks the outcome");
		pbt::require(!x.timesDescription || t.find(*x.timesDescription) != t.npos, "the text lacks the times");
		if (x.sourceLocation)
			pbt::require(t.find(x.sourceLocation->file_name()) != t.npos && t.find(std::to_string(x.sourceLocation->line())) != t.npos, "the text lacks the location");
	}

	// ---- match reports ------------------------------------------------------------------------------------------------
	const std::vector<Shape> matchShapes{
		{[](Src& s) { return one(s, placeCount + 1); }},
		{[](Src& s) { return one(s, 9); }},
		{[](Src& s) { return records(s, {2, 9}, 4); }},
		{[](Src& s) // state: kind, min, max, count, ratings..., -1, tags...
		{
			Field f{num(s, 3), num(s, 3), num(s, 3), num(s, 3)};
			if (f[0] != 2)
			{
				const Field r = records(s, {3, 3}, 2);
				f.insert(f.end(), r.begin(), r.end());
			}
			f.push_back(-1);
			if (f[0] != 1)
			{
				const Field r = records(s, {3}, 2);
				f.insert(f.end(), r.begin(), r.end());
			}
			return f;
		}}};

	mimicpp::sequence::Tag tag(int i) { return mimicpp::sequence::Tag{i}; }

	mimicpp::control_state_t state(const Field& f)
	{
		std::vector<mimicpp::sequence::rating> ratings;
		std::size_t i = 4;
		for (; f[i] != -1; i += 2) ratings.push_back({f[i], tag(f[i + 1])});
		std::vector<mimicpp::sequence::Tag> tags;
		for (++i; i < f.size(); ++i) tags.push_back(tag(f[i]));
		if (f[0] == 0) return mimicpp::state_inapplicable{f[1], f[2], f[3], ratings, tags};
		if (f[0] == 1) return mimicpp::state_applicable{f[1], f[2], f[3], ratings};
		return mimicpp::state_saturated{f[1], f[2], f[3], tags};
	}

	mimicpp::MatchReport matchReport(const Spec& p)
	{
		mimicpp::MatchReport r{};
		r.sourceLocation = optPlace(p[0][0]);
		r.finalizeReport.description = optText(p[1][0]);
		for (std::size_t i = 0; i < p[2].size(); i += 2) r.expectationReports.push_back({p[2][i] != 0, optText(p[2][i + 1])});
		r.controlReport = state(p[3]);
		return r;
	}

	void matchReportCase(Src& s, Case& c)
	{
		const auto valid = [](Spec p) // a partially redrawn state may not be one
		{
			const Field& f = p[3];
			const auto sep = std::find(f.begin() + 4, f.end(), -1);
			const auto at = sep - f.begin();
			return sep != f.end() && (at - 4) % 2 == 0 && std::count(f.begin(), f.end(), -1) == 1
				&& !(f[0] == 2 && at != 4) && !(f[0] == 1 && sep + 1 != f.end());
		};
		const Spec a = drawSpec(s, matchShapes);
		Spec b = relatedSpec(s, matchShapes, a);
		if (!valid(b)) b[3] = a[3];
		const auto x = matchReport(a);
		compare(c, a, b, x, matchReport(b));

		bool all = true;
		for (std::size_t i = 0; i < a[2].size(); i += 2) all = all && a[2][i] != 0;
		using R = mimicpp::MatchResult;
		const R want = !all ? R::none : a[3][0] == 1 ? R::full : R::inapplicable;
		pbt::require(mimicpp::evaluate_match_report(x) == want, "the report is classified otherwise");
		const std::string t = mimicpp::print(x);
		for (const auto& e : x.expectationReports)
			pbt::require(!e.description || t.find(*e.description) != t.npos, "the text lacks a requirement");
	}

	// ---- call descriptions: the same objects, not the same values ---------------------------------------------------
	const std::vector<Shape> infoShapes{
		{[](Src& s) { return one(s, 3); }},
		{[](Src& s) { return one(s, 3); }},
		{[](Src& s) { return one(s, 3); }},
		{[](Src& s) { return one(s, placeCount); }},
		{[](Src& s) { return one(s, 3); }},
		{[](Src& s) { return one(s, 3); }},
		{[](Src& s) { return one(s, 3); }}};

	void infoCase(Src& s, Case& c)
	{
		int ints[3]{1, 1, 2};
		const std::string strings[3]{"x", "x", "y"};
		std::vector<int> vectors[3]{{1}, {1}, {}};
		using Info = mimicpp::call::Info<int&, int, const std::string&, std::vector<int>&&, int>;
		const auto info = [&](const Spec& p)
		{
			return Info{
				.args = {ints[p[0][0]], strings[p[1][0]], vectors[p[2][0]], ints[p[6][0]]},
				.fromCategory = categories[p[4][0]],
				.fromConstness = constnesses[p[5][0]],
				.fromSourceLocation = places()[static_cast<std::size_t>(p[3][0])]};
		};
		const Spec a = drawSpec(s, infoShapes);
		Spec b = relatedSpec(s, infoShapes, a);
		if (s.coin(1, 8)) std::swap(b[0], b[6]); // the same objects in another order
		compare(c, a, b, info(a), info(b));
		// a report drawn up from the description states the values
		const auto report = mimicpp::make_call_report(info(a));
		const auto other = mimicpp::make_call_report(info(b));
		const auto values = [](Spec p)
		{
			for (const std::size_t i : {0u, 1u, 2u, 6u}) p[i][0] = p[i][0] < 2 ? 0 : 2;
			return p;
		};
		pbt::require((report == other) == (values(a) == values(b)), "reports of calls are equal although the calls are not, or the reverse");
		const mimicpp::call::Info<int&> none{.args = {}, .fromCategory = categories[a[4][0]], .fromConstness = constnesses[a[5][0]]};
		const mimicpp::call::Info<int&> none2{.args = {}, .fromCategory = categories[b[4][0]], .fromConstness = constnesses[b[5][0]]};
		pbt::require((none == none2) == (a[4] == b[4] && a[5] == b[5]), "calls without arguments compare wrongly");
	}

	// ---- texts of many and of large things -------------------------------------------------------------------------------
	std::size_t occurrences(const std::string& t, const std::string& x)
	{
		std::size_t n = 0;
		for (auto at = t.find(x); at != t.npos; at = t.find(x, at + x.size())) ++n;
		return n;
	}

	mimicpp::CallReport bigCall(Src& s)
	{
		mimicpp::CallReport r{.returnTypeIndex = types[num(s, 5)]};
		for (int i = 0, n = num(s, 26); i < n; ++i) r.argDetails.push_back({types[num(s, 5)], "v" + std::to_string(i) + "-" + std::to_string(num(s, 3)) + ";"});
		r.fromLoc = places()[static_cast<std::size_t>(num(s, placeCount))];
		r.fromCategory = categories[num(s, 3)];
		r.fromConstness = constnesses[num(s, 3)];
		return r;
	}

	void textOfCall(const mimicpp::CallReport& r, const std::string& t)
	{
		std::size_t at = 0;
		for (const auto& a : r.argDetails)
		{
			const auto ty = t.find(a.typeIndex.name(), at);
			pbt::require(ty != t.npos, "the text lacks the type of an argument");
			at = t.find(a.stateString, at);
			pbt::require(at != t.npos, "the text lacks the argument " + a.stateString);
		}
		pbt::require(t.find(std::to_string(r.fromLoc.line())) != t.npos, "the text lacks the line of the call");
	}

	// a number, or its word
	bool states(const std::string& t, const long n)
	{
		static const char* const words[]{"never", "once", "twice"};
		if (n >= 0 && n <= 2 && t.find(words[n]) != t.npos) return true;
		const std::string d = std::to_string(n);
		for (auto at = t.find(d); at != t.npos; at = t.find(d, at + 1))
			if ((at == 0 || !std::isdigit(static_cast<unsigned char>(t[at - 1]))) && (at + d.size() == t.size() || !std::isdigit(static_cast<unsigned char>(t[at + d.size()])))) return true;
		return false;
	}

	int count(Src& s)
	{
		static constexpr int bases[]{0, 10, 128, 256, 1000, 32768, 65536, 131072, 16777216, INT_MAX - 4};
		return std::max(0, bases[s.weighted({6, 3, 1, 2, 1, 1, 2, 1, 1, 1})] + s.range(-3, 4));
	}

	mimicpp::MatchReport bigMatch(Src& s, const bool inapplicable, const int id)
	{
		mimicpp::MatchReport r{};
		r.sourceLocation = optPlace(num(s, placeCount + 1));
		const int n = inapplicable ? num(s, 18) : 1 + num(s, 18);
		for (int i = 0; i < n; ++i) r.expectationReports.push_back({inapplicable || s.coin(1, 2), "d" + std::to_string(id) + "." + std::to_string(num(s, n)) + ";"});
		if (!inapplicable) r.expectationReports[static_cast<std::size_t>(num(s, n))].isMatching = false;
		std::vector<mimicpp::sequence::rating> ratings;
		std::vector<mimicpp::sequence::Tag> tags;
		for (int i = num(s, 5); i > 0; --i) ratings.push_back({i, tag(i)});
		for (int i = num(s, 5); i > 0; --i) tags.push_back(tag(10 + i));
		int a = count(s), b = count(s), k = count(s);
		if (a > b) std::swap(a, b);
		switch (inapplicable ? num(s, 2) : num(s, 3))
		{
		case 0:
			tags.push_back(tag(20));
			if (k >= b) k = std::max(0, b - 1);
			if (k == b) ++b;
			r.controlReport = mimicpp::state_inapplicable{a, b, k, ratings, tags};
			break;
		case 1: r.controlReport = mimicpp::state_saturated{a, b, b, tags}; break;
		default:
			if (k >= b) k = std::max(0, b - 1);
			if (k == b) ++b;
			r.controlReport = mimicpp::state_applicable{a, b, k, ratings};
		}
		return r;
	}

	void textOfMatch(const mimicpp::MatchReport& r, const bool inapplicable)
	{
		const std::string t = mimicpp::print(r);
		std::map<std::string, std::size_t> want;
		for (const auto& e : r.expectationReports) ++want[*e.description];
		for (const auto& [d, n] : want) pbt::require(occurrences(t, d) == n, "the text states the requirement " + d + " " + std::to_string(occurrences(t, d)) + " times instead of " + std::to_string(n));
		if (!inapplicable) return;
		// the reason is in front of the location
		const std::string reason = t.substr(0, r.sourceLocation ? t.find("from: ") : t.size());
		if (const auto* st = std::get_if<mimicpp::state_saturated>(&r.controlReport))
		{
			pbt::require(states(reason, st->count), "the text lacks the number of matches: " + reason);
			pbt::require(st->sequences.empty() || states(reason, static_cast<long>(st->sequences.size())), "the text lacks the number of sequences: " + reason);
		}
		else
		{
			const auto& x = std::get<mimicpp::state_inapplicable>(r.controlReport);
			pbt::require(states(reason, x.count) && states(reason, x.max), "the text lacks the number of matches or the limit: " + reason);
			pbt::require(x.min <= x.count || states(reason, x.min), "the text lacks the lower limit: " + reason);
			pbt::require(states(reason, static_cast<long>(x.inapplicableSequences.size())) && states(reason, static_cast<long>(x.sequenceRatings.size() + x.inapplicableSequences.size())),
				"the text lacks the number of sequences: " + reason);
		}
	}

	void bigTextCase(Src& s, Case& c)
	{
		const auto call = bigCall(s);
		const bool inapplicable = s.coin(1, 2);
		std::vector<mimicpp::MatchReport> all;
		const int n = (inapplicable ? 1 : 0) + (s.coin(1, 6) ? num(s, 70) : num(s, 14));
		for (int i = 0; i < n; ++i) all.push_back(bigMatch(s, inapplicable, i));
		c.nontrivial = true;
		c.label("texts");
		c.log("call with " + std::to_string(call.argDetails.size()) + " arguments, " + std::to_string(n) + (inapplicable ? " inapplicable" : " unmatched") + " expectations");
		textOfCall(call, mimicpp::print(call));
		for (const auto& r : all) textOfMatch(r, inapplicable);
		std::ostringstream out;
		mimicpp::DefaultReporter reporter{&out};
		std::string what;
		try
		{
			if (inapplicable) reporter.report_inapplicable_matches(call, all);
			else reporter.report_no_matches(call, all);
		}
		catch (const mimicpp::UnmatchedCallT& e)
		{
			what = e.what();
			pbt::require(std::get<0>(e.data()) == call && std::get<1>(e.data()) == all, "the error carries something else than what was reported");
		}
		pbt::require(out.str().find(what) != std::string::npos, "the stream got another text than the error");
		auto at = what.find(mimicpp::print(call));
		pbt::require(at != what.npos, "the message lacks the call");
		for (std::size_t i = 0; i < all.size(); ++i)
		{
			const std::string t = mimicpp::print(all[i]);
			at = what.find(t, at);
			pbt::require(at != what.npos, "the message lacks expectation " + std::to_string(i) + " of " + std::to_string(n));
			at += t.size();
		}
	}

	// what the given reporters say about an expectation that ends unfulfilled, a requirement that threw, an error
	std::string basicText;
	struct BasicFailed
	{
	};
	void basicOther(const mimicpp::StringT& t) { basicText += t; }
	[[noreturn]] void basicFail(const mimicpp::StringT& t)
	{
		basicText += t;
		throw BasicFailed{};
	}
	using Basic = mimicpp::BasicReporter<&basicOther, &basicOther, &basicFail>;

	struct Complaint : std::exception
	{
		std::string text;
		explicit Complaint(std::string t) : text{std::move(t)} {}
		const char* what() const noexcept override { return text.c_str(); }
	};

	template <typename F>
	std::string delivered(const bool basic, const bool raises, F&& f)
	{
		std::ostringstream out;
		std::unique_ptr<mimicpp::IReporter> reporter;
		if (basic) reporter = std::make_unique<Basic>();
		else reporter = std::make_unique<mimicpp::DefaultReporter>(&out);
		basicText.clear();
		bool raised = false;
		try
		{
			f(*reporter);
		}
		catch (const BasicFailed&)
		{
			raised = true;
		}
		catch (const mimicpp::Error<mimicpp::ExpectationReport>& e)
		{
			raised = true;
			pbt::require(out.str().find(e.what()) != std::string::npos, "the stream got another text than the error");
		}
		catch (const mimicpp::Error<>& e)
		{
			raised = true;
			pbt::require(out.str().find(e.what()) != std::string::npos, "the stream got another text than the error");
		}
		pbt::require(raised == raises, "the reporter raised an error it shouldn't, or the reverse");
		return basic ? basicText : out.str();
	}

	void otherTextCase(Src& s, Case& c)
	{
		const bool basic = s.coin(1, 2);
		mimicpp::ExpectationReport e{};
		e.sourceLocation = optPlace(num(s, placeCount + 1));
		if (s.coin(1, 2)) e.timesDescription = "limits" + std::to_string(count(s)) + ";";
		if (s.coin(1, 3)) e.finalizerDescription = "outcome" + std::to_string(num(s, 9)) + ";";
		const int n = s.coin(1, 8) ? num(s, 80) : num(s, 8);
		for (int i = 0; i < n; ++i)
			e.expectationDescriptions.push_back(s.coin(1, 6) ? std::optional<mimicpp::StringT>{} : "d" + std::to_string(num(s, 6)) + std::string(static_cast<std::size_t>(s.coin(1, 20) ? num(s, 5000) : 0), 'x') + ";");
		c.nontrivial = true;
		c.label("other texts");
		const std::string t = mimicpp::print(e);
		c.log(std::string{basic ? "basic" : "default"} + " reporter, " + t.substr(0, 300));
		std::size_t at = 0;
		for (const auto& d : e.expectationDescriptions)
		{
			if (!d) continue;
			at = t.find(*d, at);
			pbt::require(at != t.npos, "the text lacks a requirement");
			at += d->size();
		}
		pbt::require(!e.timesDescription || t.find(*e.timesDescription) != t.npos, "the text lacks the limits");
		pbt::require(!e.finalizerDescription || t.find(*e.finalizerDescription) != t.npos, "the text lacks the outcome");
		pbt::require(!e.sourceLocation || t.find(std::to_string(e.sourceLocation->line())) != t.npos, "the text lacks the line");

		const auto ended = delivered(basic, true, [&](auto& r) { r.report_unfulfilled_expectation(e); });
		pbt::require(ended.find(t) != ended.npos, "the message lacks the unfulfilled expectation");
		const std::string message(static_cast<std::size_t>(s.coin(1, 10) ? num(s, 3000) : num(s, 5)), 'm');
		const auto error = delivered(basic, true, [&](auto& r) { r.report_error(message); });
		pbt::require(error.find(message) != error.npos, "the message lacks the error");

		const auto call = bigCall(s);
		const std::string what = "why" + std::to_string(num(s, 9)) + std::string(static_cast<std::size_t>(s.coin(1, 10) ? num(s, 3000) : 0), 'w') + "!";
		const int kind = num(s, 7);
		std::exception_ptr p;
		switch (kind)
		{
		case 0: p = std::make_exception_ptr(std::runtime_error{what}); break;
		case 1: p = std::make_exception_ptr(std::out_of_range{what}); break;
		case 2: p = std::make_exception_ptr(Complaint{what}); break;
		case 3: p = std::make_exception_ptr(std::ios_base::failure{what}); break;
		case 4: p = std::make_exception_ptr(mimicpp::Error<>{what}); break;
		case 5: p = std::make_exception_ptr(1); break;
		default: p = std::make_exception_ptr(what);
		}
		const auto warning = delivered(basic, false, [&](auto& r) { r.report_unhandled_exception(call, e, p); });
		pbt::require(kind > 4 || warning.find(what) != warning.npos, "the warning lacks the reason");
		pbt::require(warning.find(t) != warning.npos, "the warning lacks the expectation");
		pbt::require(warning.find(mimicpp::print(call)) != warning.npos, "the warning lacks the call");
	}

	Add a0{"call reports", callReportCase};
	Add a5{"other texts", otherTextCase};
	Add a1{"expectation reports", expectationReportCase};
	Add a2{"match reports", matchReportCase};
	Add a4{"texts", bigTextCase};
	Add a3{"call descriptions", infoCase};
	pbt::Register r{"C27", runEntry,
		"a case builds two reports or call descriptions from stated contents that are equal, differ in one or two places or are "
		"unrelated; every case is non-trivial", 1000000, 20000000};
}

int main(int argc, char** argv) { return pbt::main(argc, argv); }
