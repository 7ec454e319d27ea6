"""Writes the generated units of C25: gen_config.py <seed> <dir> <shape units> <shapes per unit> <type units> <types per unit>."""
import os, random, re, subprocess, sys

seed, out = int(sys.argv[1]), sys.argv[2]
sunits, sper, tunits, tper = map(int, sys.argv[3:7])
rnd = random.Random(seed)

INT = ["matches::_", "v", "matches::eq(v)", "matches::ne(v)", "matches::lt(v)", "matches::le(v)", "matches::gt(v)", "matches::ge(v)",
       "!matches::eq(v)", "!matches::gt(u)", "!!matches::le(v)", "matches::predicate(Counter{})", "!matches::predicate(Counter{})",
       'matches::predicate(Counter{}, "not below zero", "below zero")', '!matches::predicate(Counter{}, "not below zero", "below zero")',
       "Odd{}", "Raising{v}", "matches::_", "matches::_", "v"]
STR = ["text", '"hello"', "matches::str::eq(text)", "matches::str::eq(text, m::case_insensitive)", "matches::str::starts_with(text)",
       'matches::str::ends_with("o")', "matches::str::contains(text)", "!matches::str::eq(text)", "!matches::str::contains(text)",
       '!matches::str::starts_with("he", m::case_insensitive)', "matches::_", "matches::ne(text)", "matches::ge(text)"]
VEC = ["std::vector<int>{v, 1}", "matches::_", "matches::range::eq(std::vector<int>{v, 1})", "matches::range::unordered_eq(std::vector<int>{1, v})",
       "matches::range::each_element(matches::ge(v))", "matches::range::any_element(matches::lt(v))", "!matches::range::is_empty()",
       "matches::range::is_empty()", "matches::range::is_sorted()", "!matches::range::is_sorted()", "matches::range::has_size(2)",
       "!matches::range::has_size(v)", "matches::range::each_element(!matches::eq(u))", "matches::range::any_element(matches::eq(v))",
       "!matches::range::each_element(Odd{})", "!matches::range::unordered_eq(std::vector<int>{1, v})"]
OPT = ["std::optional<int>{v}", "matches::_", "matches::ne(std::nullopt)", "matches::eq(std::nullopt)", "matches::le(std::optional<int>{v})"]
PTR = ["matches::ne(nullptr)", "matches::eq(nullptr)", "matches::_"]
K = {"i": INT, "s": STR, "v": VEC, "o": OPT, "p": PTR}

# mock expression, parameters, result
TARGETS = [("w.a", "i", "int")] * 5 + [
    ("w.b", "i", "int"), ("std::as_const(w.b)", "i", "int"), ("w.c", "i", "int"), ("std::as_const(w.c)", "i", "int"),
    ("std::move(w.c)", "i", "int"), ("std::move(std::as_const(w.c))", "i", "int"), ("w.dv", "v", "void"), ("w.dv", "v", "void"),
    ("w.ds", "s", "void"), ("w.ds", "s", "void"), ("w.dn", "o", "int"), ("w.e", "ii", "ref"), ("w.f", "p", "ptr"), ("w.iface.plain_", "i", "int"),
    ("std::as_const(w.iface).constant_", "is", "int"), ("w.iface.over_", "i", "void"), ("std::as_const(w.iface).over_", "s", "int")]


def chained(k, n, mock):
    """a requirement in the chain on parameter n"""
    if k == "i" and rnd.random() < .3:
        return f"expect::arg<{n}>({rnd.choice(['matches::eq(v)', '!matches::ge(u)', 'Odd{}'])}, [](const int& x) {{ return x / 2; }})"
    if k == "s" and rnd.random() < .3:
        return f"expect::arg<{n}>(matches::ge(static_cast<std::size_t>(lo)), &std::string::size)"
    c = [x for x in K[k] if x.startswith(("matches::", "!", "Odd"))]
    return f"expect::arg<{n}>({rnd.choice(c)})"


def shape(n):
    mock, params, ret = rnd.choice(TARGETS)
    # the overloaded ones cannot tell a wildcard's target from the signature alone
    args = []
    for k in params:
        x = rnd.choice(K[k])
        if mock == "w.iface.over_":
            x = rnd.choice(INT)
        args.append(x)
    chain = []
    t = rnd.randrange(8)
    if t: chain.append(["", "expect::times(lo, hi)", "expect::times(lo)", "expect::at_least(lo)", "expect::at_most(hi)", "expect::once()",
                        "expect::twice()", "expect::times(lo, hi)"][t])
    q = rnd.random()
    if q < .12: chain.append("expect::in_sequence(lazyOf(s, w))")
    elif q < .24: chain.append("expect::in_sequence(greedyOf(s, w))")
    elif q < .3: chain.append("expect::in_sequences(*w.lazy[0], *w.greedy[0])")
    while rnd.random() < .2:
        i = rnd.randrange(len(params))
        if params[i] in "isv": chain.append(chained(params[i], i, mock))
    while rnd.random() < .15:
        chain.append(rnd.choice(["Policy{sat, acc, desc}", "Policy{true, acc, true}", "Policy{sat, true, false}"]))
    while rnd.random() < .25:
        c = ['then::invoke([v] { now->put("effect", v); })']
        if params == "i":
            c += ['then::apply_arg<0>([v](const int& x) { now->put("effect", x + v); })', 'then::apply_all([](const int& x) { now->put("effect", x); })',
                  'then::apply_args<0, 0>([](const int& x, const int& y) { now->put("effect", x + y); })']
        if mock == "w.e": c += ['then::apply_args<1, 0>([](int& x, const int& y) { x += y; })']
        chain.append(rnd.choice(c))
    fin = {"void": [None, None, None, "finally::throws(v)"],
           "int": ["finally::returns(v)", "finally::returns(u)", "finally::returns_result_of([v] { return v * 2; })", "finally::throws(v)",
                   'finally::throws(std::runtime_error{"thrown"})']
           + (["finally::returns_arg<0>()", "finally::returns_apply_result_of<0>([v](const int& x) { return x + v; })",
               "finally::returns_apply_all_result_of([v](const int& x) { return x - v; })"] if params == "i" else []),
           "ref": ["finally::returns(v)", "finally::returns_arg<1>()", "finally::returns_arg<0>()"],
           "ptr": ["finally::returns_arg<0>()", "finally::returns_result_of([v] { return std::make_unique<int>(v); })"]}[ret]
    f = rnd.choice(fin)
    if f: chain.append(f)
    rnd.shuffle(chain)
    return f"""static AddShape shape{n}{{{n}, [](Src& s, World& w)
{{
	const int v = s.range(-2, 3);
	const int u = v + s.range(0, 3);
	const int lo = s.range(0, 3);
	const int hi = lo + s.range(lo ? 0 : 1, 2);
	const bool acc = !s.coin(1, 8);
	const bool sat = !s.coin(1, 8);
	const bool desc = s.coin(1, 2);
	static const char* const texts[]{{"hello", "", "he", "{{}}", "HELLO"}};
	const std::string text = texts[s.draw(5)];
	w.handles.push_back(keep({" && ".join([f"{mock}.expect_call({', '.join(args)})"] + chain)}));
}}}};
"""


n = 0
for u in range(sunits):
    with open(os.path.join(out, f"shapes_{u}.cpp"), "w") as f:
        f.write('#include "hist.hpp"\nnamespace cfg\n{\n')
        for _ in range(sper):
            f.write(shape(n))
            n += 1
        f.write("}\n")

# matchers on their own
ARG = {"i": ("int", "s.range(-3, 4)"), "s": ("std::string", "texts[s.draw(5)]"), "v": ("std::vector<int>", "ints(s)"),
       "o": ("std::optional<int>", "s.coin(1, 2) ? std::optional<int>{s.range(-2, 3)} : std::nullopt")}


def nested(depth):
    """a matcher on vectors of vectors of ... ints"""
    if depth == 0:
        return rnd.choice([x for x in INT if x.startswith(("matches::", "!", "Odd"))])
    r = rnd.randrange(6)
    if r == 0 and depth == 1: return rnd.choice([x for x in VEC if x.startswith(("matches::", "!"))])
    if r == 1: return f"matches::range::has_size({rnd.randrange(3)})"
    if r == 2: return "!matches::range::is_empty()"
    if r == 3 and depth == 1: return "matches::range::is_sorted()"
    return rnd.choice(["", "!"]) + f"matches::range::{rnd.choice(['each', 'any'])}_element({nested(depth - 1)})"


n = 0
for u in range(sunits):
    with open(os.path.join(out, f"match_{u}.cpp"), "w") as f:
        f.write('#include "hist.hpp"\nnamespace cfg\n{\n')
        f.write("static const char* const texts[]{\"hello\", \"\", \"he\", \"{}\", \"HELLO\"};\n"
                "static std::vector<int> ints(Src& s) { std::vector<int> r; for (int n = s.range(0, 3); n > 0; --n) r.push_back(s.range(-2, 3)); return r; }\n"
                "static std::vector<std::vector<int>> intss(Src& s) { std::vector<std::vector<int>> r; for (int n = s.range(0, 3); n > 0; --n) r.push_back(ints(s)); return r; }\n")
        f.write("static Add match%d{\"matchers %d\", 6, [](Src& s, Trace& t)\n{\n\tnow = &t;\n\tt.content = true;\n\tconst auto text_ = [](auto&& d) { return d ? std::string{*d} : std::string{\"-\"}; };\n\tconst int v = s.range(-2, 3);\n\tconst int u = v + s.range(0, 3);\n"
                "\tconst std::string text = texts[s.draw(5)];\n\tswitch (s.draw(%d))\n\t{\n" % (u, u, sper * 2))
        for k in range(sper * 2):
            kind = rnd.choice("iisssvvnn")
            if kind == "n":
                ex, ty, arg = nested(2), "std::vector<std::vector<int>>", "intss(s)"
            else:
                ex = rnd.choice([x for x in K[kind] if x.startswith(("matches::", "!", "Odd"))])
                ty, arg = ARG[kind]
            if "matches::_" in ex and not ex.startswith("matches::range"): ex = "matches::_"
            f.write(f'\tcase {k}:\n\t{{\n\t\tconst auto x = {ex};\n\t\tif constexpr (requires {{ std::string{{x.describe()}}; }}) t.put("description", std::string{{x.describe()}});\n'
                    f'\t\tfor (int n = s.range(1, 6); n > 0; --n)\n\t\t{{\n\t\t\tconst {ty} a = {arg};\n\t\t\tt.put(mimicpp::print(a), x.matches(a));\n\t\t}}\n\t\tbreak;\n\t}}\n')
            n += 1
        f.write("\t}\n}};\n}\n")

# the types of the values: those of C14, except for what only one of the formatting backends can print
HERE = os.path.dirname(os.path.abspath(__file__))
ONE_BACKEND = re.compile(r"source_location|Unscoped|char8_t(?! ?[*\[])")
tmp = os.path.join(out, "types")
os.makedirs(tmp, exist_ok=True)
subprocess.run([sys.executable, os.path.join(HERE, "../print/gen_types.py"), str(seed), tmp, str(tunits), str(tper)], check=True)
for u in range(tunits):
    with open(os.path.join(tmp, f"types_{u}.cpp")) as f:
        lines = f.read().split("\n")
    with open(os.path.join(out, f"values_{u}.cpp"), "w") as f:
        f.write('#include "cfg.hpp"\nusing cfg::Src;\n')
        for l in lines:
            m = re.match(r'static mc::Add (a\d+)\{"(.*?)", .*pr::typeCase<(.*)>\(s, c\)', l)
            if not m:
                continue
            if ONE_BACKEND.search(m[3]):
                continue
            f.write(f'static cfg::Add {m[1]}{{"{m[2]}", 1, [](Src& s, cfg::Trace& t) {{ cfg::valueCase<{m[3]}>(s, t); }}}};\n')
