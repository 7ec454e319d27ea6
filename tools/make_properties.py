#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the single source of the property texts).
import json, os
I = "include/mimic++/"
def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[I+f for f in files],
                          mechanism=[dict(name=n, where=I+w) for n, w in mech],
                          hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=I+w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    return d
REP = "reports delivered to an installed reporter"
RET = "return value / exception of the mock call"
props = [
P("C01", "A call is answered only by an expectation that accepts it entirely",
  "A call on a mock completes (returns or throws what was configured) only on behalf of a living expectation of that same mock and signature whose every argument, value-category, constness and custom requirement accepts the call, and which is neither exhausted nor blocked by a sequence; the outcome is the one configured on that very expectation. If there is no such expectation the call never completes normally: it ends in the reporter's failure and changes no expectation's call count, satisfaction or sequence position. A call that any eligible expectation accepts never fails.",
  ["histories","inputs"],
  "All interleavings of creating, destroying, moving and calling over any number of mocks and expectations with any mixture of requirements, limits, sequences and outcomes.",
  "The unit tests of the matching core use trompeloeil doubles with one to three fixed expectations; here (without trompeloeil) they are not even built, and the examples show single straight-line histories.",
  ["Expectation.hpp","Mock.hpp","Reports.hpp","ExpectationPolicies.hpp"],
  [("call dispatch over all expectations","Expectation.hpp ExpectationCollection::handle_call"),("verdict of one expectation","Reports.hpp evaluate_match_report"),("policy evaluation","Expectation.hpp BasicExpectation::matches")],
  [RET, REP], [("expectation list","living expectations of one signature of one mock, in creation order","Expectation.hpp ExpectationCollection::m_Expectations")]),
P("C02", "Call-count limits are enforced and judged exactly",
  "An expectation never accepts more calls than its upper limit, is satisfied exactly while the number of accepted calls lies within its inclusive limits, and produces exactly one unfulfilled report at its end if and only if it is unsatisfied then. The default is exactly one call; exact, at-least, at-most, once, twice and range forms mean what they say for every value, at whatever place in the definition they are written, and negative or inverted limits are rejected with an invalid-argument error and leave no expectation behind.",
  ["histories","inputs"],
  "All limits (including 0, equal bounds, unbounded maxima and invalid ones), all positions in the definition, and all numbers and interleavings of calls until the expectation ends by scope exit, reset or move.",
  "Tests try a handful of limit/count combinations through mocked policies; the relation is between every pair of limits and every count and every place where an expectation can end.",
  ["ControlPolicy.hpp","Expectation.hpp","ExpectationBuilder.hpp"],
  [("limit validation","ControlPolicy.hpp detail::TimesConfig"),("counting","ControlPolicy.hpp ControlPolicy::consume"),("judgement at the end of life","Expectation.hpp ExpectationCollection::remove / ScopedExpectation::~ScopedExpectation")],
  [RET, REP, "ScopedExpectation::is_satisfied"], [("count","accepted calls so far","ControlPolicy.hpp ControlPolicy::m_Count")]),
P("C03", "Without sequences the newest eligible expectation answers",
  "Whenever several unsequenced expectations are eligible for a call, the most recently created one answers it, so expectations of an inner scope always take precedence over those of outer scopes. As soon as that one is exhausted or destroyed the next newest eligible one takes over, independent of how many others exist, were exhausted or were destroyed in between.",
  ["histories"],
  "All histories of creating, ending (in any order) and calling with overlapping requirements and limits.",
  "A test fixes two expectations and one call; precedence has to survive arbitrary insertion, removal and exhaustion patterns.",
  ["Expectation.hpp","Sequence.hpp"],
  [("newest-to-oldest scan","Expectation.hpp ExpectationCollection::handle_call"),("selection","Expectation.hpp detail::pick_best_match"),("tie rule","Sequence.hpp sequence::detail::has_better_rating")],
  [RET, REP]),
P("C04", "Sequences admit calls only in attachment order and report unfinished business",
  "A sequenced expectation answers a call only if, in each of its sequences, every expectation attached before it has already received its minimum number of calls and none attached after it has answered yet; otherwise it is blocked, whichever mocks are involved, whether single or several sequences are named and in whatever order or form they are attached. When the last owner of a sequence (its object and all attached expectations) is gone, exactly one error is reported if and only if some attached expectation was still short of its minimum, stating how many expectations in front of it were done and how many there are. Attaching one expectation twice to the same sequence is rejected with an invalid-argument error.",
  ["histories","inputs"],
  "All sets of lazy and greedy sequences, all attachments of expectations with any limits to subsets of them across several mocks, and all call and destruction histories.",
  "The sequence tests drive fixed two- or three-element sequences; the constraint is over every attachment graph and every history of calls.",
  ["Sequence.hpp","ControlPolicy.hpp","ExpectationBuilder.hpp"],
  [("cursor and element states","Sequence.hpp sequence::detail::BasicSequence"),("state for a call","ControlPolicy.hpp detail::make_control_state"),("attachment","ExpectationBuilder.hpp operator&& for sequence configurations, Sequence.hpp Config")],
  [RET, REP], [("cursor","index of the last used element","Sequence.hpp BasicSequence::m_Cursor"),("entries","state of every attached expectation","Sequence.hpp BasicSequence::m_Entries")]),
P("C05", "Lazy sequences progress least, greedy ones most; ties go to the newest",
  "When several eligible expectations belong to the same sequence, a lazy sequence selects the one earliest in the sequence and a greedy sequence the one latest in it, whatever the creation order, limits or mocks' other expectations are. When eligible expectations share several sequences, each shared sequence casts one vote for its preferred one and the newer expectation wins a draw; eligible expectations sharing no sequence are ranked newest first, also against unsequenced ones. (Between two that share a sequence while the newer one also belongs to a sequence the older does not, the choice is left open.)",
  ["histories","inputs"],
  "All eligible sets arising in histories with lazy and greedy sequences, expectations in zero to three sequences and permissive limits.",
  "The documentation itself calls these flows very hard to understand; tests show one lazy and one greedy example with two elements.",
  ["Sequence.hpp","Expectation.hpp","ControlPolicy.hpp"],
  [("priority of an element","Sequence.hpp LazyStrategy / GreedyStrategy / BasicSequence::priority_of"),("pairwise rating","Sequence.hpp sequence::detail::has_better_rating"),("fold","Expectation.hpp detail::pick_best_match")],
  [RET, REP]),
P("C06", "Every call yields exactly one verdict naming exactly the right expectations",
  "Every call produces exactly one verdict report before any of its effects happen: a match naming the answering expectation; or, if none is eligible but some accept the call's content while being exhausted or blocked, an inapplicable verdict listing precisely those; or a no-match verdict listing precisely the remaining living expectations of that signature, possibly none, newest first. No verdict is produced twice, for another call, or when no call was made.",
  ["histories","inputs"],
  "All call histories over all sets of living expectations, from zero to many, in every mixture of matching, exhausted, blocked and mismatching.",
  "Verdicts depend on the whole set of living expectations and their history; tests check single transitions with doubles.",
  ["Expectation.hpp","Reports.hpp","Reporter.hpp"],
  [("collection into three lists","Expectation.hpp ExpectationCollection::handle_call"),("verdict","Reports.hpp evaluate_match_report"),("delivery","Reporter.hpp report_no_matches / report_inapplicable_matches / report_full_match")],
  [REP]),
P("C07", "Calls reach only the overload that C++ overload resolution selects",
  "For a mock with any legal set of overloads (parameter types, const, lvalue- and rvalue-reference qualification, exception specification, return types), a call resolves exactly as it would on a class that declares these member functions, and is answered only from expectations created for the resolved parameter types whose const and reference qualification equals the one of the object expression through which they were set up (or is unqualified). Arguments, call location and result type are those of the resolved overload.",
  ["programs","inputs"],
  "All legal overload sets over a family of parameter types, and all call and set-up expressions (const/non-const, lvalue/rvalue object, every argument category).",
  "Overload sets are types: each needs its own program. Tests instantiate a dozen hand-picked ones.",
  ["Mock.hpp","TypeTraits.hpp","ExpectationPolicies.hpp"],
  [("overload front ends","Mock.hpp MockFrontend specialisations, BasicMock"),("qualification requirements","ExpectationPolicies.hpp Category / Constness"),("sharing of collections","Mock.hpp Mock constructor, detail::unique_list")],
  [RET, REP]),
P("C08", "Side effects run once, in written order, on the caller's own arguments",
  "When an expectation answers a call, each of its side effects runs exactly once, in the order written and before the outcome is produced, receiving the selected arguments, in the selected order, as the very objects the caller passed (so modifications are visible to the caller and to later side effects), as lvalues with the constness of the parameter. Side effects of expectations that do not answer the call never run.",
  ["histories","inputs"],
  "All chains of side effects and requirements in any order, all selections of parameters, parameters of value, lvalue-, const- and rvalue-reference kind, and all call histories.",
  "Tests check single actions in isolation; order and identity matter for combinations.",
  ["ExpectationPolicies.hpp","Expectation.hpp","Call.hpp"],
  [("argument selection","ExpectationPolicies.hpp then::apply_arg / apply_args / apply_all / invoke, SideEffectAction"),("execution","Expectation.hpp BasicExpectation::consume"),("capture of arguments","Mock.hpp handle_call (reference wrappers)")],
  ["addresses and values seen by side effects and by the caller"]),
P("C09", "The answering expectation produces exactly its configured outcome, every time",
  "Each answered call returns exactly what its expectation's outcome specifies for this call: a fixed value anew for every call and unaffected by what callers do with earlier results, a reference to the configured or referenced object, the result of the given function (optionally applied to selected arguments, in the selected order), the selected argument itself, or the given exception thrown with its exact type and value. The outcome is evaluated exactly once per answered call, after all side effects, and never for an unanswered one.",
  ["histories","inputs"],
  "All outcome kinds with all values, argument selections, return by value, lvalue reference and rvalue reference, move-only and copy-only types, and repeated calls.",
  "Tests call each outcome once or twice; repeated calls, aliasing and evaluation counts are quantified over histories.",
  ["ExpectationPolicies.hpp","Expectation.hpp"],
  [("outcomes","ExpectationPolicies.hpp finally::returns / returns_result_of / returns_apply_result_of / returns_apply_all_result_of / returns_arg / throws"),("evaluation","Expectation.hpp BasicExpectation::finalize_call")],
  [RET]),
P("C10", "Comparison and predicate matchers agree with the operators, and negation inverts",
  "For every pair of operand and argument, each comparison matcher accepts exactly if the corresponding C++ operator (argument on the left, expected value on the right) yields true, a predicate matcher exactly if its predicate does, an instance matcher exactly if argument and expected object are the same object, and the wildcard always; an argument given directly means equality (text comparison for strings). Negating any negatable matcher accepts exactly what the original rejects, double negation restores the original, and the description always states the relation that is actually checked.",
  ["inputs","programs"],
  "All operand/argument pairs including limits, NaN, infinities, mixed types, partially ordered and asymmetric user types, and all nesting of negation.",
  "Tests use two or three integers per matcher; total agreement including unordered and asymmetric operands is beyond samples.",
  ["Matcher.hpp","ExpectationBuilder.hpp"],
  [("matchers","Matcher.hpp matches::eq / ne / lt / le / gt / ge / predicate / instance, PredicateMatcher"),("negation","Matcher.hpp PredicateMatcher::operator!"),("direct arguments","ExpectationBuilder.hpp detail::make_arg_matcher")],
  ["acceptance of calls","descriptions in reports"]),
P("C11", "String matchers implement text equality, prefix, suffix and substring exactly",
  "For every character type and every pair of texts, including empty ones, embedded terminators and characters outside ASCII, the equality, starts-with, ends-with and contains matchers accept exactly when the relation holds between argument and expected text; the case-insensitive variants accept exactly when it holds after folding every character separately, and negation accepts exactly the complement. The kind of string object (pointer, array, view, owning string) on either side makes no difference.",
  ["inputs","programs"],
  "All pairs of strings over all five character types and all string representations, with generators biased to overlaps, shared prefixes and suffixes, repeated patterns and case differences.",
  "Existing string tests list a few texts per relation; boundary cases (pattern longer than text, self-overlapping pattern, empty, high bytes) are quantified.",
  ["Matcher.hpp","String.hpp"],
  [("matchers","Matcher.hpp matches::str"),("folding and views","String.hpp string_traits, string_case_fold_converter")],
  ["acceptance of calls"]),
P("C12", "Range matchers implement their relation for all ranges",
  "For all ranges and expected values, the range matchers accept exactly if: the elements are pairwise equal and equally many; they are a permutation of each other; they are sorted by the relation; the range is empty; it has the given size; every element (respectively some element) is accepted by the given element matcher. Custom comparators are honoured, negation is the exact complement, and the verdict depends on nothing but the elements, not on the kind of range.",
  ["inputs","programs"],
  "All element sequences (empty, single, duplicates, long), kinds of ranges (vector, list, array, forward-only, views), comparators and element matchers.",
  "Range tests use three fixed vectors; permutation and sortedness are classic quantified relations.",
  ["Matcher.hpp"],
  [("range matchers","Matcher.hpp matches::range")],
  ["acceptance of calls","descriptions in reports"]),
P("C13", "Matchers are pure values: building, copying and using them changes nothing",
  "Building expectations or compound matchers from a caller's objects or matchers never alters those, passing a constant, temporary or named matcher means the same, and copies, moves and double negations of a matcher accept exactly what the original accepts. A matcher gives the same verdict for the same argument however often and in whatever order it is asked, never modifies, copies or moves the argument it inspects, and inspects the projected part exactly if a projection is given.",
  ["inputs","histories","programs"],
  "All compositions of matchers, arguments of move-only or counting types, value categories used for composition, and repeated evaluation.",
  "Tests evaluate freshly built matchers once; aliasing and hidden moves show only in longer histories or unusual value categories.",
  ["Matcher.hpp","ExpectationPolicies.hpp"],
  [("storage of operands","Matcher.hpp PredicateMatcher, matches::range::each_element / any_element"),("projection","ExpectationPolicies.hpp expect::arg")],
  ["caller's objects after use","acceptance of calls"]),
P("C14", "Printing any value is total, exact and well formed",
  "Every argument of every type can be printed, without reading out of bounds, failing or altering the value (character arrays and pointers being terminated, as everywhere): strings are quoted with the prefix of their character type and lose no character, ranges, tuples, pairs, optionals, pointers, null values and nested combinations follow one recursive layout, a user-supplied printer takes precedence at any nesting depth, and types without any printer show as a placeholder. Equal values print equally, and the same value prints the same inside and outside of a container and wherever in a report it occurs.",
  ["inputs","programs"],
  "All values of scalar, string, pointer, range, tuple-like, optional, formattable, custom-printed and opaque types and their nestings up to a depth.",
  "The printer tests cover each branch with one value; nesting and string contents are unbounded, null and embedded characters in particular.",
  ["Printer.hpp","String.hpp"],
  [("printer selection","Printer.hpp detail::print / priority tags"),("strings","Printer.hpp Printer<String>"),("ranges, tuples, optionals","Printer.hpp Printer<Range>, Printer<TupleLike>")],
  ["state strings in call reports","mimicpp::print"]),
P("C15", "Lifetime-watched objects report exactly the unexpected or missing destructions",
  "For every watched object, the destruction of the object fulfils the destruction expectation set up on it, whichever way it ends; destruction without, and a scope ending before, the expected destruction are both reported, exactly once, and a second set-up is rejected. Moving an object carries its expectation to the destination and leaves the source unwatched, copying yields a fresh unwatched-for object, and expectations may be sequenced and combined like those of calls.",
  ["histories"],
  "All histories of constructing, setting up, copying, moving, assigning and destroying watched objects and of ending their expectations, also within sequences.",
  "Tests cover each special member function once; ownership of the expectation after chains of moves and copies is a history property.",
  ["ObjectWatcher.hpp"],
  [("destruction mock","ObjectWatcher.hpp LifetimeWatcher"),("inheritance","ObjectWatcher.hpp Watched")],
  [REP]),
P("C16", "Relocation-watched objects report every move as expected or unexpected",
  "Every move construction or move assignment from a watched object counts as one call on the source's relocation expectations, which travel to the destination, so n expected relocations are fulfilled by exactly n moves however the object travels; a move without a matching expectation is reported as unmatched and missing moves as unfulfilled. Copying never counts as relocation and the copy starts without expectations, and the watched payload itself is moved or copied exactly as it would be unwatched.",
  ["histories"],
  "All histories of constructing, setting up, copying and moving (constructing and assigning) chains of watched objects with any limits.",
  "Tests exercise a single move; chains of moves and mixtures with copies are quantified.",
  ["ObjectWatcher.hpp"],
  [("relocation mock","ObjectWatcher.hpp RelocationWatcher"),("inheritance","ObjectWatcher.hpp Watched")],
  [REP]),
P("C17", "Interface mocks implement the interface faithfully",
  "For every interface, the mocking macros generate overrides such that each call through a base pointer or reference is forwarded, exactly once and with the caller's own arguments and qualification, to the mock member of that name and overload, and its result or exception comes back unchanged. Any number of methods and overloads with any signature (const, reference qualifiers, noexcept, return and parameter types including parenthesised ones with commas) coexist without interfering.",
  ["programs","inputs"],
  "All interfaces with random sets of (overloaded) methods, parameter lists up to ten parameters, qualifiers and return types.",
  "An interface is a program; the interface tests need trompeloeil, are not built here and cover few signatures.",
  ["InterfaceMock.hpp","Mock.hpp"],
  [("macros","InterfaceMock.hpp MIMICPP_MOCK_METHOD / MIMICPP_MOCK_OVERLOADED_METHOD / MIMICPP_ADD_OVERLOAD"),("override","InterfaceMock.hpp detail::indirectly_apply_mock and MIMICPP_DETAIL_OVERRIDE")],
  [RET, REP]),
P("C18", "A throwing requirement disqualifies only its own expectation, visibly",
  "If evaluating a requirement of an expectation throws, that expectation is disregarded for this call only, exactly one warning naming the call, the expectation and the original exception is reported for it, and the call is decided among the other expectations exactly as if that one did not exist. No count, sequence position or later call is affected.",
  ["fault_sequences","histories"],
  "All placements and timings of exceptions (any type) thrown from matchers, predicates, projections and custom policies in histories with other expectations.",
  "Fault injection at every evaluation point of every history is beyond the two tests that throw once.",
  ["Expectation.hpp","Reporter.hpp"],
  [("containment","Expectation.hpp detail::make_match_report"),("warning","Reporter.hpp report_unhandled_exception")],
  [REP, RET]),
P("C19", "The default reporter raises faithful errors and stays silent during unwinding",
  "With the default reporter a failing call throws an error that carries the call and the full list of considered expectations, and an expectation ending unfulfilled throws an error carrying its description, from the very statement that caused it and catchable by the caller, including when an expectation is ended by reassigning its handle. While another exception is already propagating such end-of-life reports never throw on top of it and never terminate the program; the original exception arrives unchanged, warnings and messages go to the given stream, and installing another reporter redirects every later report to it alone.",
  ["histories","fault_sequences"],
  "All nestings of scopes with fulfilled and unfulfilled expectations and sequences, with exceptions of the library or the user propagating through any of them.",
  "The interplay of exceptions in flight and destructors is history dependent; the reporter tests need trompeloeil and are not built here.",
  ["Reporter.hpp","Expectation.hpp"],
  [("reporter","Reporter.hpp DefaultReporter"),("installation","Reporter.hpp install_reporter"),("destruction","Expectation.hpp ScopedExpectation::~ScopedExpectation")],
  ["exceptions","the reporter's output stream"]),
P("C20", "Test-framework adapters turn every verdict into the right test result",
  "With each provided adapter (Catch2, doctest, GoogleTest, Boost.Test) a test case passes only if every call was matched and every expectation and sequence fulfilled, and fails, in that test case alone, for every unmatched or inapplicable call, unfulfilled expectation or unfulfilled sequence; an unmatched call aborts its test case. Exceptions thrown by requirements only warn, and the failing reports' text reaches the framework's output.",
  ["programs","configurations","histories"],
  "All test programs made of random sequences of set-up, call and scope-exit steps in all four frameworks.",
  "The adapter tests run three scripted cases per framework and none for Boost.Test here.",
  ["Reporter.hpp","adapters/Catch2.hpp","adapters/Doctest.hpp","adapters/gtest.hpp","adapters/BoostTest.hpp"],
  [("common part","Reporter.hpp BasicReporter"),("adapters","adapters/*.hpp")],
  ["exit status and per-case results of generated test programs"]),
P("C21", "No order of use and destruction causes memory errors or leaks",
  "Mocks, expectations, sequences and watched objects may be created, moved where movable, used and destroyed in any order, with expectations outliving their mock and sequences, without undefined behaviour, leaks or crashes; an expectation handle that was moved from reports nothing, and a moved-to mock or expectation continues exactly where the source was. Every stored value, matcher, side effect and outcome object is destroyed exactly once and none is used after its destruction; the definition of an expectation keeps everything it needs, so that the named objects it was built from may be gone or altered afterwards. An exception thrown by the copy or move of a user's object while an expectation is defined reaches the user, destroys everything that was built so far, and leaves mock and sequences as they were before.",
  ["histories"],
  "All interleavings of construction, move, use and destruction of the participating objects, with instrumented payload types, under address and undefined-behaviour sanitizers.",
  "Lifetime errors need particular destruction orders; the tests use lexical scopes and run without sanitizers.",
  ["Mock.hpp","Expectation.hpp","Sequence.hpp","ExpectationPolicies.hpp"],
  [("shared ownership","Mock.hpp shared expectation collections, Sequence.hpp shared sequence state"),("handle","Expectation.hpp ScopedExpectation")],
  ["sanitizer reports","instance counters"]),
P("C22", "Signature introspection and overload legality agree with the language",
  "For every function signature with any parameters, return type and any combination of const, reference and noexcept qualification, the published signature utilities extract the return type and the parameters (of signatures without ellipsis), add and remove the exception specification and strip the qualification exactly, changing nothing else; removing and re-adding the exception specification is the identity. A pair or set of signatures is accepted as an overload set exactly if a class may declare member functions with these signatures side by side, in any order.",
  ["programs"],
  "All signatures over a family of parameter and return types and all qualifier combinations, and all pairs and triples of them.",
  "The traits are compile-time relations over types; tests enumerate selected types and pairs.",
  ["TypeTraits.hpp","Fwd.hpp"],
  [("signature traits","TypeTraits.hpp signature_*"),("overload legality","TypeTraits.hpp is_overloadable_with / is_overload_set")],
  ["compilation of generated assertions"]),
P("C23", "Calls may re-enter mocks, create and end expectations from their own effects",
  "A side effect or outcome may call the same or other mocks, create new expectations and end existing ones other than the one answering, to any depth; every nested call is judged with all counts and sequence positions already including the calls in progress, and the outer call completes with its own side effects and outcome as if no nesting had occurred. No such nesting deadlocks, double-counts or loses a call.",
  ["histories"],
  "All trees of nested calls, set-ups and ends performed from side effects and outcomes.",
  "Re-entrancy requires nested histories; tests have no nested call.",
  ["Expectation.hpp","Mock.hpp"],
  [("effects outside of the lock","Expectation.hpp ExpectationCollection::handle_call")],
  [RET, REP]),
P("C24", "Setting up and ending expectations is safe while other threads call the mock",
  "Expectations may be set up and ended on a mock from several threads, each thread's calls being answered by its own expectations, without data races, lost or duplicated expectations or deadlocks. Every expectation ends with exactly the verdict its own calls deserve, and every set-up expectation is visible to the calls its thread makes afterwards.",
  ["schedules","histories"],
  "All random programs of several threads that create, call and end thread-specific expectations on shared mocks, under many schedules with a race detector.",
  "There is no concurrent test at all.",
  ["Expectation.hpp","Reporter.hpp"],
  [("mutual exclusion","Expectation.hpp ExpectationCollection::m_ExpectationsMx")],
  ["thread sanitizer","per-thread verdicts"]),
P("C25", "Behaviour is the same under every supported build configuration",
  "Matching verdicts, counts, sequence decisions, outcomes, printed values and report contents are identical for the same usage whichever supported compiler, optimisation level, assertion setting, formatting backend, language standard and macro-prefix option the program is built with. Any of the headers may be included on their own or together, in any order. Report texts contain the same facts in every configuration. Left to the backend are the digits of floating-point numbers and types only one backend can format, left to the compiler the spelling of types, functions and addresses.",
  ["configurations","histories","inputs"],
  "All random histories and values, across the cross product of configurations available here.",
  "The test suite is built in one configuration.",
  ["Printer.hpp","Fwd.hpp","Utility.hpp","Reporter.hpp"],
  [("format backend","Printer.hpp MIMICPP_CONFIG_USE_FMT"),("assertions","assert uses across the headers")],
  ["traces of the same history from different builds"]),
P("C26", "User customisations are honoured everywhere",
  "A user-supplied matcher type (through member functions or the trait), printer, string type, character type, case folding, requirement policy, side-effect policy or outcome policy is used wherever a built-in one would be, is preferred over built-in behaviour for that type, and takes part in every verdict, description and report exactly like built-in ones. A custom requirement that is unsatisfied at the end makes its expectation unfulfilled, and a custom requirement that rejects vetoes the match, at any position in the definition.",
  ["programs","histories","inputs"],
  "All mixtures of custom and built-in parts in definitions and values, with any verdict histories of the custom parts.",
  "Tests show one example per customisation point.",
  ["Fwd.hpp","Matcher.hpp","Printer.hpp","String.hpp","Expectation.hpp"],
  [("matcher trait","Matcher.hpp custom::matcher_traits"),("printer","Printer.hpp custom::Printer"),("policies","Expectation.hpp expectation_policy_for / finalize_policy_for")],
  [RET, REP]),
P("C27", "Reports describe the call and the expectations truthfully",
  "A call's report states the argument values as they were when the call was made, their types, the call's own source location and the object's constness and value category. Each listed expectation states its own source location, for each requirement whether it accepts this call together with its description, and its limits, count so far and sequence standing at that moment, and its textual form contains all of these. Two reports of the same kind, and two descriptions of calls, compare equal exactly if everything they state is equal.",
  ["histories","inputs"],
  "All calls and expectations in all states, with arbitrary values, requirements, limits and sequences.",
  "Report contents are only compared for a few hand-made report objects.",
  ["Reports.hpp","Expectation.hpp","Printer.hpp","Call.hpp"],
  [("call report","Reports.hpp make_call_report"),("expectation report","Expectation.hpp BasicExpectation::matches / report"),("text","Reports.hpp stringify_* / operator<<")],
  [REP]),
P("C28", "Catch2 matchers decide in the framework as they do in Catch2",
  "With the Catch2 matcher integration switched on, any Catch2 matcher, old or new style, built-in, composed with !, && or || or written by the user, can be used wherever one of the framework's own matchers can: directly in a definition, for a selected or projected argument, or for the elements of a range. It accepts exactly the arguments Catch2 accepts, its description appears in the reports, a failure inside it is reported once while the other expectations still answer, and the argument stays untouched. The order in which the adapter and the other headers are included does not matter.",
  ["inputs","programs"],
  "All Catch2 matchers over strings, numbers, vectors, ranges and exceptions, their composites, and all arguments.",
  "The test suite tries one matcher of each style with a few integers.",
  ["adapters/Catch2.hpp","Matcher.hpp"],
  [("matcher trait","adapters/Catch2.hpp custom::matcher_traits"),("matching hook","Matcher.hpp detail::matches_hook / describe_hook")],
  [RET, REP]),
]
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
print(len(props), "properties")
