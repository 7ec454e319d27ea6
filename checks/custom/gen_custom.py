"""Writes the units of C26's second part: gen_custom.py <seed> <dir> <units> <entries per unit>."""
import os, random, sys

seed, out, units, per = int(sys.argv[1]), sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
rnd = random.Random(seed)

TYPES = ["int", "int", "std::string", "Opaque", "std::vector<int>", "std::vector<int>", "std::vector<std::string>", "std::vector<Opaque>",
         "std::vector<std::vector<int>>", "std::optional<int>", "std::unique_ptr<int>", "std::vector<std::optional<Opaque>>"]
KINDS = [("Mem", "mem"), ("MemView", "view"), ("MemText", "fixed"), ("MoveOnly", "move only"), ("Trait", "trait"), ("Trait", "trait"),
         ("Prefer", "prefer"), ("Prefer", "prefer"), ("Mixed", "mixed"), ("Mixed2", "mixed2"), ("Comparable", "comparable"), ("Ranged", "ranged"),
         ("Stringy", "stringy"), ("Exact", "exact"), ("Constexpr", "final")]
CHARS = ["char", "wchar_t", "char16_t", "Uni", "Uni", "Tiny"]


def element(t):
    return t[len("std::vector<"):-1] if t.startswith("std::vector<") else None


class Req:
    """code of a requirement on a type; model code: expression of (value) -> Want"""
    def __init__(self, t, depth=0):
        self.t = t
        self.name = f"q{Req.n}"
        Req.n += 1
        e = element(t)
        r = rnd.random()
        pre = []
        if e and r < .5 and depth < 3:
            inner = Req(e, depth + 1)
            how = rnd.choice(["each", "any"])
            neg = rnd.random() < .35 and inner.copyable
            self.copyable = inner.copyable
            self.setup = inner.setup
            self.code = ("!" if neg else "") + f"matches::range::{how}_element({inner.code})"
            alg = "all_of" if how == "each" else "any_of"
            text = {("each", False): "each el in range: el ", ("each", True): "not each el in range: el ",
                    ("any", False): "any el in range: el ", ("any", True): "none el in range: el "}[how, neg]
            self.model = (f"[&](const {t}& v) {{ Want w; w.accepts = std::ranges::{alg}(v, [&](const auto& e) {{ return ({inner.model})(e).accepts; }}) != {str(neg).lower()}; "
                          f"w.text = \"{text}\" + ({inner.model})({e}{{}}).text; return w; }}")
            return
        ty, who = rnd.choice(KINDS)
        if ty == "Comparable" and t == "std::unique_ptr<int>": ty, who = "Mem", "mem"
        full = f"Exact<{t}>" if ty == "Exact" else ty
        self.setup = [f"const Params {self.name} = genParams(s);"]
        self.copyable = ty != "MoveOnly"
        self.code = f"{full}{{{self.name}}}"
        if self.copyable and rnd.random() < .3:
            self.setup.append(f"{rnd.choice(['const ', ''])}{full} m{self.name}{{{self.name}}};")
            self.code = f"m{self.name}"
        if depth == 0 and self.copyable and ty not in ("Comparable",) and rnd.random() < .1: # kept by a wrapping matcher
            pass
        self.model = f"[&](const {t}& v) {{ Want w; w.accepts = {self.name}.accept(key(v)); w.text = describeOf(\"{who}\", {self.name}); return w; }}"


Req.n = 0


def entry(n):
    if rnd.random() < .3:
        c = rnd.choice(CHARS)
        kinds = [f"Owned<{c}>", f"MoveOnlyText<{c}>", f"Fancy<{c}>", f"CmpText<{c}>"]
        if c in ("char", "wchar_t", "char16_t"): kinds += [f"std::basic_string<{c}>", f"std::basic_string_view<{c}>"]
        a, b = rnd.choice(kinds), rnd.choice(kinds)
        if "view" in b: b = f"std::basic_string<{c}>"
        return f'static mc::Add s{n}{{"string {a} {b}", [](mc::Src& s, mc::Case& c) {{ stringCase<{c}, {a}, {b}>(s, c); }}}};\n'
    k = rnd.choice([1, 1, 2, 2, 3])
    ts = [rnd.choice(TYPES) for _ in range(k)]
    setup, direct, chain, wants, pos, values = [], [], [], [], [], []
    for i, t in enumerate(ts):
        setup.append(f"auto a{i} = gen<{t}>(s);")
        if rnd.random() < .2:
            direct.append("matches::_")
            wants.append(None)
        else:
            q = Req(t)
            setup += q.setup
            direct.append(q.code)
            wants.append(f"({q.model})(a{i})")
        pos.append(f"arg[{i}]")
    # (a wildcard reports a text of its own)
    w, p = [], []
    for i, x in enumerate(wants):
        w.append(x or 'Want{true, "has no constraints"}')
        p.append(pos[i])
    for _ in range(rnd.choice([0, 0, 1, 1, 2, 3])):
        i = rnd.randrange(k)
        t = ts[i]
        proj = None
        if t != "std::unique_ptr<int>" and rnd.random() < .4:
            # through a projection to int, or to the elements' key
            q = Req("int", 3)
            proj = "[](const auto& x) { return key(x) + 1; }"
            val = f"key(a{i}) + 1"
        else:
            q = Req(t)
            val = f"a{i}"
        setup += q.setup
        chain.append(f"expect::arg<{i}>({q.code}" + (f", {proj})" if proj else ")"))
        w.append(f"({q.model})({val})")
        p.append(f"arg[{i}]")
    params = [rnd.choice(["const {}&", "{}", "{}&"]).format(t) for t in ts]
    calls = []
    for i, x in enumerate(params):
        by_value = not x.endswith("&")
        calls.append(f"std::move(a{i})" if by_value and ts[i] == "std::unique_ptr<int>" else f"a{i}")
    chain.append("expect::at_least(0)")
    rnd.shuffle(chain)
    body = "\n\t".join(setup)
    return f"""static mc::Add e{n}{{"match {' '.join(ts)} #{n}", [](mc::Src& s, mc::Case& c)
{{
	begin();
	{body}
	std::vector<Want> wants{{{', '.join(w)}}};
	const std::vector<std::string> positions{{{', '.join(f'"{x}"' for x in p)}}};
	m::Mock<void({', '.join(params)})> mock{{}};
	m::ScopedExpectation e = mock.expect_call({', '.join(direct)}){''.join(' && ' + x for x in chain)};
	for (std::size_t i = 0; i < wants.size(); ++i) c.log(positions[i] + (wants[i].accepts ? " passes: " : " fails: ") + wants[i].text);
	c.nontrivial = std::ranges::any_of(wants, [](const Want& w) {{ return w.text != "has no constraints"; }});
	check(observe([&] {{ mock({', '.join(calls)}); }}), wants, positions);
}}}};
"""


n = 0
for u in range(units):
    with open(os.path.join(out, f"custom_{u}.cpp"), "w") as f:
        f.write('#include "match.hpp"\nusing namespace cm;\nnamespace\n{\n')
        for _ in range(per):
            f.write(entry(n))
            n += 1
        f.write("}\n")
