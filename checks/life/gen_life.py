"""Writes the units of C21's second part: gen_life.py <seed> <dir> <units> <entries per unit>."""
import os, random, sys

seed, out, units, per = int(sys.argv[1]), sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
rnd = random.Random(seed)

SIGS = [("int", "int"), ("void", "const Val&"), ("Val", "int"), ("const Val&", "const Val&"), ("Val&", "Val&"), ("std::string", "std::string"),
        ("const std::string&", "const std::string&"), ("int", "const std::vector<Val>&"), ("Val", "std::vector<Val>"), ("void", "std::unique_ptr<Val>"),
        ("void", "std::vector<int>&"), ("int", "std::string_view")]
SIGS = SIGS[:-1]


class Def:
    """one definition"""
    def __init__(self, ret, param):
        self.ret, self.param = ret, param
        self.p = param.replace("const ", "").replace("&", "")
        self.n = 0
        self.pre = []       # statements in front of the definition
        self.checks = []    # statements right behind it
        self.accepts = []
        self.effects = []
        self.outcome = None
        self.chain = []

    def num(self, lo=-2, hi=4):
        self.n += 1
        self.pre.append(("outer", f"const int v{self.n} = s.range({lo}, {hi});"))
        return f"v{self.n}"

    def deliver(self, expr, check=None, lvalue=True, const=True, move=True):
        """an object, by some value category; named ones are gone afterwards"""
        how = rnd.choice(["temp"] + ["lvalue"] * lvalue * 2 + ["const"] * const + ["move"] * move)
        if how == "temp":
            return expr
        self.n += 1
        o = f"o{self.n}"
        self.pre.append(("inner", f"auto {o} = own({expr});"))
        if how == "move":
            return f"std::move(*{o})"
        if check:
            self.checks.append(f'if ({o}->get() != {check}) bad("an original was altered");')
        return f"*{o}" if how == "lvalue" else f"std::as_const(*{o})"

    def obj(self, ty, lo=-2, hi=4):
        v = self.num(lo, hi)
        return v, self.deliver(f"{ty}{{{v}}}", v, const=ty != "MutEffect")

    # matchers: (code, model expression of `a`, copyable)
    def matcher(self, t, depth=0):
        code, model, copyable = self.plain_matcher(t, depth)
        if copyable and rnd.random() < .25:
            code, model = f"!{code}", f"!({model})"
            if code.startswith("!Match") or code.startswith("!*") or code.startswith("!std::") :
                code, model = code[1:], model[2:-1]
        if rnd.random() < .3:
            code = self.deliver(code, lvalue=copyable, const=copyable)
        return code, model, copyable

    def plain_matcher(self, t, depth):
        r = rnd.random()
        if r < .15:
            v, o = self.obj("Match")
            return o, f"((key(a) + {v}) & 1) == 0", True
        if r < .35:
            v, o = self.obj("Even")
            return f"matches::predicate({o})", f"((key(a) + {v}) & 1) == 0", True
        if t in ("int", "Val"):
            v, o = self.obj("Val")
            op, sym = rnd.choice([("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")])
            return f"matches::{op}({o})", f"key(a) {sym} {v}", True
        if t == "std::string":
            v = self.num(-1, 4)
            o = self.deliver(f"text({v})")
            k = rnd.randrange(6)
            if k == 0: return f"matches::eq({o})", f"a == text({v})", True
            if k == 1: return f"matches::ge({o})", f"a >= text({v})", True
            f = rnd.choice(["eq", "starts_with", "ends_with", "contains"])
            m = {"eq": f"a == text({v})", "starts_with": f"a.starts_with(text({v}))", "ends_with": f"a.ends_with(text({v}))",
                 "contains": f"a.find(text({v})) != std::string::npos"}[f]
            if rnd.random() < .4:
                o = f"{o}, mimicpp::case_insensitive"
            return f"matches::str::{f}({o})", m, True
        if t.startswith("std::vector<"):
            e = t[len("std::vector<"):-1]
            k = rnd.randrange(5)
            if k < 2:
                self.n += 1
                ns = f"n{self.n}"
                self.pre.append(("outer", f"const std::vector<int> {ns} = numbers(s);"))
                cont = rnd.choice(["std::vector<Val>", "std::list<Val>", "std::deque<Val>"])
                rng = self.deliver(f"vals<{cont}>({ns})", lvalue=False, const=False)
                f, alg = rnd.choice([("eq", "ranges::equal"), ("unordered_eq", "ranges::is_permutation")])
                cmp = ""
                if rnd.random() < .5:
                    cmp = ", " + self.obj("Same")[1]
                else:
                    # without comparator both sides have to be comparable
                    pass
                return f"matches::range::{f}({rng}{cmp})", f"std::{alg}(keys(a), {ns})", False
            if k == 2:
                v, o = self.obj("Below")
                return f"matches::range::is_sorted({o})", "std::ranges::is_sorted(keys(a))", True
            if depth < 2:
                code, model, cp = self.matcher(e, depth + 1)
                q, alg = rnd.choice([("each", "all_of"), ("any", "any_of")])
                return f"matches::range::{q}_element({code})", f"std::ranges::{alg}(a, [&](const auto& a) {{ return {model}; }})", cp
            return "matches::range::is_empty()", "a.empty()", True
        v, o = self.obj("Match")
        return o, f"((key(a) + {v}) & 1) == 0", True

    def value(self, lo=-2, hi=4):
        return self.num(lo, hi)

    def build(self):
        t = self.p
        # direct requirement
        r = rnd.random()
        if r < .3: direct = "matches::_"
        elif r < .5 and t == "Val":
            v, o = self.obj("Val")
            direct = o
            self.accepts.append(f"key(a) == {v}")
        elif r < .5 and t == "std::string":
            v = self.num(-1, 4)
            direct = self.deliver(f"text({v})")
            self.accepts.append(f"a == text({v})")
        else:
            code, model, _ = self.matcher(t)
            direct = code
            self.accepts.append(model)
        parts = []
        while rnd.random() < .4:
            k = rnd.random()
            if k < .4:
                code, model, _ = self.matcher(t)
                x = f"expect::arg<0>({code})"
                self.accepts.append(model)
            else:
                v, o = self.obj(rnd.choice(["Plus", "KeepPlus"]))
                code, model, _ = self.matcher("int")
                x = f"expect::arg<0>({code}, {o})"
                self.accepts.append(f"[&](const int a) {{ return {model}; }}(key(a) + {v})")
            parts.append((self.deliver(x, lvalue=False, const=False) if rnd.random() < .3 else x, None))
        while rnd.random() < .5:
            k = rnd.randrange(6)
            if k == 0:
                v, o = self.obj(rnd.choice(["Effect", "MutEffect"]))
                x, e = f"then::invoke({o})", v
            elif k == 1:
                v, o = self.obj("Effect")
                x, e = f"then::apply_arg<0>({o})", f"{v} + key(a)"
            elif k == 2:
                v, o = self.obj("Effect")
                x, e = f"then::apply_args<0, 0>({o})", f"{v} + 2 * key(a)"
            elif k == 3:
                v, o = self.obj("Effect")
                x, e = f"then::apply_all({o})", f"{v} + key(a)"
            elif k == 4:
                v, o = self.obj("Pol", 0, 4)
                parts.append((o, v))
                continue
            else:
                v, o = self.obj("Effect")
                x, e = f"then::apply_all({o})", f"{v} + key(a)"
            parts.append((self.deliver(x, lvalue=False, const=False) if rnd.random() < .4 else x, e))
        # outcome
        val = self.ret.replace("const ", "").replace("&", "")
        ref = "&" in self.ret
        fin = None
        k = rnd.randrange(7)
        if self.ret == "void":
            if k < 2:
                v, o = self.obj("Exc")
                fin, how, res = f"finally::throws({o})", 2, v
            elif k == 2:
                o = self.deliver('std::runtime_error{"some message that is long enough not to be stored locally"}')
                fin, how, res = f"finally::throws({o})", 3, "0"
            else: how, res = 0, "0"
        elif k == 0:
            v, o = self.obj("Exc")
            fin, how, res = f"finally::throws({o})", 2, v
        elif k <= 2 or (ref and "const" not in self.ret):
            v = self.num()
            if val == "int": v2, o = v, self.deliver(f"int{{{v}}}")
            elif val == "Val": v2, o = v, self.deliver(f"Val{{{v}}}", v)
            else: o = self.deliver(f"result<std::string>({v})")
            fin, how, res = f"finally::returns({o})", 1, v
        elif ref and k == 3 and t == val:
            fin, how, res = "finally::returns_arg<0>()", 4, ("key(a)" if val == "Val" else "static_cast<int>(a.size()) - 100")
        else:
            keep = ref or rnd.random() < .4
            v, o = self.obj(f"{'Keep' if keep else 'Make'}<{val}>")
            f, plus = rnd.choice([("returns_result_of", "0"), ("returns_apply_result_of<0>", "key(a)"), ("returns_apply_result_of<0, 0>", "2 * key(a)"),
                                  ("returns_apply_all_result_of", "key(a)")])
            fin, how, res = f"finally::{f}({o})", 1, v if keep else f"{v} + {plus}"
        if fin:
            parts.append((self.deliver(fin, lvalue=False, const=False) if rnd.random() < .4 else fin, None))
        parts.append(("expect::at_least(0)", None))
        rnd.shuffle(parts)
        eff = [e for _, e in parts if e is not None]
        return direct, [x for x, _ in parts], eff, how, res


def maker(sig):
    d = Def(*sig)
    direct, chain, eff, how, res = d.build()
    S = f"{sig[0]}({sig[1]})"
    outer = "\n\t".join(x for w, x in d.pre if w == "outer")
    inner = "\n\t\t".join(x for w, x in d.pre if w == "inner")
    split = rnd.randrange(len(chain) + 1)
    if rnd.random() < .6:
        build = f"e.handle = std::make_unique<mimicpp::ScopedExpectation>(mock.expect_call({direct}){''.join(' && ' + x for x in chain)});"
    else:
        build = (f"auto b = own(mock.expect_call({direct}){''.join(' && ' + x for x in chain[:split])});\n\t\t"
                 f"auto b2 = own(std::move(*b){''.join(' && ' + x for x in chain[split:])});\n\t\tb.reset();\n\t\t"
                 "e.handle = std::make_unique<mimicpp::ScopedExpectation>(std::move(*b2));")
        if split == len(chain): build = build.replace("std::move(*b));", "std::move(*b));")
    acc = " && ".join(f"({x})" for x in d.accepts) or "true"
    text = (f"{direct} && " + " && ".join(chain)).replace("\\", "").replace('"', "'")
    return f"""+[](Src& s, mimicpp::Mock<{S}>& mock, mimicpp::Mock<{S}>*) -> ExpOf<{S}>
{{
	ExpOf<{S}> e{{}};
	{outer}
	e.text = "{text}";
	{{
		{inner}
		{build}
		{' '.join(d.checks)}
	}}
	using P = Parts<{S}>::P;
	e.accepts = [=](const P& a) -> bool {{ return {acc}; }};
	e.effects = [=](const P& a) -> std::vector<int> {{ return {{{', '.join(eff)}}}; }};
	e.outcome = [=](const P& a) -> Outcome<{sig[0]}> {{ return {{{res}, {how}}}; }};
	return e;
}}"""


n = 0
for u in range(units):
    with open(os.path.join(out, f"life_{u}.cpp"), "w") as f:
        f.write('#include "life.hpp"\nusing namespace life;\nnamespace\n{\n')
        for _ in range(per):
            sig = rnd.choice(SIGS)
            S = f"{sig[0]}({sig[1]})"
            f.write(f'static mc::Add e{n}{{"life {S} #{n}", [](Src& s, Case& c)\n{{\nhistory<{S}>(s, c, {{\n' + ",\n".join(maker(sig) for _ in range(rnd.choice([1, 2, 3]))) + "\n});\n}};\n")
            n += 1
        f.write("}\n")
