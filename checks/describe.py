"""What MANIFEST.json says about each check."""
CORE = ("stateful model-based property testing: random API histories over generated expectation chains, "
        "lock-step reference model, shrinking")
TECHNIQUE = {p: CORE for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C18", "C21", "C23", "C26", "C27")}
TECHNIQUE["C21"] += (", sanitizers and instance counting; plus programs with generated definitions (objects by any value category, gone "
                     "after the definition), whose copies and moves fail at generated points (fault injection), against a reference model")
CORE_NOTE = ("Holds on every generated history (counts in the evidence); says nothing about histories longer than about 30 "
             "operations, other mock signatures than the 11 entries of core.hpp, or concurrent use. Trusts the reference model "
             "in core_main.cpp.")
NOTE = {p: CORE_NOTE for p in TECHNIQUE}
NOTE["C21"] = (CORE_NOTE + " The generated definitions use 9 kinds of instrumented objects and 11 signatures; failing allocations are "
               "not injected, only failing copies and moves of the user's objects; sharing of one expectation between threads is C24's.")
MATCH = ("property-based testing of one matcher family over generated operands and arguments against an independent "
         "definition (operators, element-wise definition), with negation and description relations, shrinking")
MATCH_NOTE = ("Holds on every generated pair of operand and argument over the instantiated type grid of {}; other types, "
              "ranges and comparators are not covered.")
for p, f in (("C10", "compare.cpp"), ("C11", "strings.cpp"), ("C12", "ranges.cpp")):
    TECHNIQUE[p] = MATCH
    NOTE[p] = MATCH_NOTE.format(f)
TECHNIQUE["C13"] = ("stateful property-based testing: random histories of building, copying, moving, negating, nesting and "
                    "using matchers against a value model, copy/move counting, shrinking")
NOTE["C13"] = "Holds on every generated history over the matcher pool of pure.cpp; other matcher types are not pooled."
TECHNIQUE["C14"] = ("property-based testing: randomly generated nested types and values printed directly, nested and in "
                    "reports against an independent reference printer, under address and undefined-behaviour sanitizers, shrinking")
NOTE["C14"] = ("Holds on every generated type (about 190 per round, nesting depth up to 3) and value; trusts the reference "
               "printer of matchers/common.hpp and print/print.hpp.")
for p in ("C15", "C16"):
    TECHNIQUE[p] = ("stateful model-based property testing: random histories of constructing, copying, moving, assigning, "
                    "watching and destroying objects, lock-step reference model of the watch states, shrinking")
    NOTE[p] = ("Holds on every generated history over 12 watched types and at most 5 objects. Not covered: a failing move of a type "
               "with both watchers, moving from a moved-from relocation watcher, reports from noexcept destructors (they terminate).")
for p in ("C08", "C09"):
    TECHNIQUE[p] = ("property-based testing of randomly generated mock signatures and expectation chains: random calls against an "
                    "interpreting model of side effects and outcomes, object identity checks, sanitizers, shrinking")
    NOTE[p] = ("Holds on every generated signature and chain (72 per round, three expectations each) and call. Side effects that throw "
               "terminate by documentation and are not generated.")
TECHNIQUE["C22"] = ("property-based testing with generated programs: random signatures and overload sets, library traits "
                    "compared with two compilers' verdicts on classes declaring the same members (differential)")
NOTE["C22"] = ("Holds on every generated signature and overload set; C-variadic signatures only where the library defines the trait, "
               "no volatile members; sets on which the two compilers disagree are skipped.")
TECHNIQUE["C07"] = ("property-based testing with generated programs: random overload sets, call and set-up expressions compared with "
                    "hand-written classes (differential), random histories of set-ups and calls per set, shrinking")
NOTE["C07"] = ("Holds on every generated overload set (72 per round, up to 6 signatures), call and set-up expression and history. Not generated: "
               "std::source_location as trailing parameter or brace lists that could initialize the call location, volatile members.")
TECHNIQUE["C17"] = ("property-based testing with generated programs: random interfaces mocked through the macros, random histories of "
                    "set-ups and calls through every base against a model of forwarding (identity, values, copies, results, exceptions), shrinking")
NOTE["C17"] = ("Holds on every generated interface (40 mocks per round, up to 17 overloads of a name and 14 parameters), call path and history; "
               "parameter types of the header's value model only.")
TECHNIQUE["C19"] = ("property-based testing: random programs of nested scopes, expectations, handles, calls and exceptions in flight run "
                    "against a model of which statement raises, what the error carries and which reports stay silent, shrinking")
NOTE["C19"] = ("Holds on every generated program (depth up to about 5, DefaultReporter with and without stream, replaced reporters). A report that "
               "ends a sequence outside of unwinding terminates the program: known finding, listed in known_findings.txt.")
TECHNIQUE["C20"] = ("property-based testing with generated test suites: random test programs executed under Catch2, doctest, GoogleTest and "
                    "Boost.Test, results, report texts and warnings recorded by framework listeners compared with a model, shrinking")
NOTE["C20"] = ("Holds on every generated suite (up to 6 test cases, five framework configurations as installed). Nothing is claimed where a test "
               "swallows a user exception that silenced a verdict; a sequence's report outside of unwinding terminates (known finding).")
TECHNIQUE["C24"] = ("stateful model-based property testing of concurrent programs: random programs for several threads on shared mocks "
                    "against a sequential model per thread, under ThreadSanitizer, shrinking")
NOTE["C24"] = ("Holds on every generated program and the schedules that occurred (2 to 4 threads, about 16 steps each). An expectation is used by one "
               "thread at a time only; sequences are documented as not thread-safe and are not shared.")
TECHNIQUE["C25"] = ("differential property-based testing: the same random program (generated expectation shapes, matchers and value types, random "
                    "histories) run in builds of several configurations, traces compared, shrinking")
NOTE["C25"] = ("Random selections of headers (each alone, and 28 / 600 in random orders) compile in random configurations, a failing one is reduced. Holds on every generated program and history for 5 (thorough: 11) configurations over compiler, optimisation, language standard, NDEBUG, "
               "formatting backend and macro prefix. Not available here: libc++, MSVC, the uni_algo option.")
TECHNIQUE["C26"] += "; generated matchers, strings and printers of the user in generated definitions and values against a model"
NOTE["C26"] = ("Holds on every generated history, value type (176 per round) and definition (240 per round) over the customisations of checks/custom "
               "and core.hpp. Strings that cannot be copied are matched but not printed as strings.")
TECHNIQUE["C27"] += "; generated signatures and set-ups called from known places; generated pairs of reports against their stated contents"
TECHNIQUE["C28"] = ("differential property-based testing: generated Catch2 matchers, composites and arguments judged by Catch2 itself and by "
                    "the framework in eleven places of use, shrinking")
NOTE["C28"] = ("Holds on every generated matcher and argument over the types of catch/catch.cpp with the installed Catch2 3.4; composites keep "
               "references to their operands, which the cases keep alive as Catch2 demands.")
NOT_APPLICABLE = {}
