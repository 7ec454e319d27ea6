"""Writes the translation units of C08 and C09: gen_flow.py <seed> <outdir> <units> <shapes per unit> <focus>."""
import random, sys

seed, out, units, per, focus = int(sys.argv[1]), sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
rnd = random.Random(f"{seed}/{focus}")

COPY = ["int", "long", "fl::Tok", "std::string", "fl::Fussy"]
MOVE = COPY + ["fl::Owner"]
REF = MOVE + ["fl::Pinned", "fl::Poly"]


def param():
    k = rnd.choice(["v", "v", "&", "&", "&&", "c&", "c&&"])
    if k == "v":
        return rnd.choice(MOVE)
    u = rnd.choice(REF)
    if u == "fl::Poly" and "&&" in k:
        u = "fl::Tok"
    return {"&": u + "&", "&&": u + "&&", "c&": "const " + u + "&", "c&&": "const " + u + "&&"}[k]


def base(p):
    return p.replace("const ", "").rstrip("&")


def ret():
    k = rnd.random()
    if k < (0.35 if focus == "C08" else 0.1):
        return "void"
    if k < 0.65:
        return rnd.choice(MOVE)
    u = rnd.choice(REF)
    q = rnd.choice(["&", "c&", "&&"])
    if u == "fl::Poly" and q == "&&":
        q = "&"
    return {"&": u + "&", "c&": "const " + u + "&", "&&": u + "&&"}[q]


def outcome(R, params):
    """(enum, chain element or None, indices, exception)"""
    u = base(R)
    exc = rnd.randrange(4)
    texts = ["fl::Err{VALUE}", "fl::ErrD{VALUE}", "VALUE", "std::runtime_error{std::to_string(VALUE)}"]
    boom = ("boom", f"fl::finally::throws({texts[exc]})", [], exc)
    if R == "void":
        return rnd.choice([("none", None, [], 0)] * 2 + [boom])
    o = []
    if "&" not in R:
        o.append(("result", f"fl::finally::returns_result_of(fl::Result<{R}>{{EXP, VALUE}})", [], 0))
        if u in COPY:
            o.append(("stored", f"fl::finally::returns(fl::make<{u}>(VALUE))", [], 0))
            o.append(("stored", "fl::finally::returns(NAMED)", [], 0))
            o.append(("pool", f"fl::finally::returns(std::ref(fl::Pool<{u}>::obj[EXP]->v))", [], 0))
            o.append(("pool", f"fl::finally::returns(std::cref(fl::Pool<{u}>::obj[EXP]->v))", [], 0))
        if u in ("long", "fl::Tok", "fl::Fussy"):
            o.append(("conv", "fl::finally::returns(VALUE)", [], 0))
            o.append(("ambivalent", "fl::finally::returns_result_of(fl::Ambivalent{EXP})", [], 0))
            o.append(("ambivalent", "fl::finally::returns_result_of(AMBI)", [], 0))
        if params:
            idx = [rnd.randrange(len(params)) for _ in range(rnd.randrange(1, 4))]
            o.append(("apply", f"fl::finally::returns_apply_result_of<{', '.join(map(str, idx))}>(fl::Apply<{R}, {', '.join(map(str, idx))}>{{EXP}})", idx, 0))
        al = list(range(len(params)))
        o.append(("apply", f"fl::finally::returns_apply_all_result_of(fl::Apply<{', '.join([R] + [str(i) for i in al])}>{{EXP}})", al, 0))
        for i, p in enumerate(params):
            if base(p) == u and (u in COPY or p in (u, u + "&&")):
                o.append(("arg", f"fl::finally::returns_arg<{i}>()", [i], 0))
                o.append(("arg", f"fl::finally::returns_arg<{i}>()", [i], 0))
    else:
        o.append(("result", f"fl::finally::returns_result_of(fl::ResultRef<{R}>{{EXP}})", [], 0))
        if "const" not in R:
            o.append(("pool", f"fl::finally::returns(std::ref(fl::Pool<{u}>::obj[EXP]->v))", [], 0))
        else:
            o.append(("pool", f"fl::finally::returns(std::cref(fl::Pool<{u}>::obj[EXP]->v))", [], 0))
            o.append(("pool", f"fl::finally::returns(std::ref(fl::Pool<{u}>::obj[EXP]->v))", [], 0))
        if u in COPY and "&&" not in R:
            o.append(("stored", f"fl::finally::returns(fl::make<{u}>(VALUE))", [], 0))
        for i, p in enumerate(params):
            if p == R or (R == "const " + u + "&" and p in (u + "&",)):
                o.append(("arg", f"fl::finally::returns_arg<{i}>()", [i], 0))
                o.append(("arg", f"fl::finally::returns_arg<{i}>()", [i], 0))
            if p in (u + "&", "const " + u + "&") and R in (p, "const " + u + "&") :
                o.append(("apply", f"fl::finally::returns_apply_result_of<{i}>(fl::ApplyRef<{R}, {i}>{{EXP}})", [i], 0))
    if rnd.random() < 0.12:
        return boom
    return rnd.choice(o)


for n in range(units):
    f = open(f"{out}/flow_{n}.cpp", "w")
    f.write('#include "flow.hpp"\n')
    for k in range(per):
        name = f"{focus}_{n}_{k}"
        params = [param() for _ in range(rnd.choice([0, 1, 1, 2, 2, 3, 4]))]
        R = ret()
        if params and R != "void" and rnd.random() < 0.4:
            # make the result a parameter's type
            p = rnd.choice(params)
            R = p if "const" not in p or p.endswith("&") and not p.endswith("&&") else R
            if "fl::Pinned" in R and "&" not in R: R = "int"
        gates = 0
        specs, exps = [], []
        for e in range(3):
            els, steps, g = [], [], []
            for _ in range(rnd.choice([0, 1, 2, 2, 3, 5] if focus == "C08" else [0, 0, 1, 2])):
                i = len(steps)
                kind = rnd.random()
                if not params or kind < 0.25:
                    steps.append((True, []))
                    els.append(rnd.choice([f"fl::then::invoke(fl::EffInvoke{{{e}, {i}}})", f"fl::then::invoke([x = fl::EffInvoke{{{e}, {i}}}]() mutable {{ x(); }})"]))
                    continue
                if kind < 0.5:
                    idx = [rnd.randrange(len(params))]
                    fn = "apply_arg"
                elif kind < 0.8:
                    idx = [rnd.randrange(len(params)) for _ in range(rnd.randrange(1, 5))]
                    fn = "apply_args"
                else:
                    idx = list(range(len(params)))
                    fn = "apply_all"
                tmpl = ", ".join(map(str, idx))
                functor = rnd.choice([f"fl::Eff<{tmpl}>{{{e}, {i}}}", f"fl::EffOwning<{tmpl}>{{{e}, {i}}}",
                                      f"[x = fl::Eff<{tmpl}>{{{e}, {i}}}](auto&&... a) {{ x(std::forward<decltype(a)>(a)...); }}"])
                steps.append((False, idx))
                els.append(f"fl::then::{fn}<{tmpl}>({functor})" if fn != "apply_all" else f"fl::then::apply_all({functor})")
            # requirements in between
            for _ in range(rnd.choice([1, 1, 2]) if params else 0):
                g.append(gates)
                i = rnd.randrange(len(params))
                els.insert(rnd.randrange(len(els) + 1), f"fl::expect::arg<{i}>(fl::matches::predicate(fl::Gate{{{gates}}}))")
                gates += 1
            kind, text, oi, exc = outcome(R, params)
            if text:
                text = text.replace("VALUE", f"w.states[{e}].storedValue").replace("EXP", str(e)).replace("NAMED", f"named{e}").replace("AMBI", "ambi")
                els.insert(rnd.randrange(len(els) + 1), text)
            els.insert(rnd.randrange(len(els) + 1), rnd.choice([f"fl::expect::times(0, w.states[{e}].max)", f"fl::expect::at_most(w.states[{e}].max)"]))
            st = ", ".join("{%s, {%s}}" % ("true" if inv else "false", ", ".join(map(str, idx))) for inv, idx in steps)
            specs.append(f"fl::Spec{{{{{', '.join(map(str, g))}}}, {{{st}}}, fl::Out::{kind}, {{{', '.join(map(str, oi))}}}, {exc}}}")
            join = rnd.choice([" && ", " and "])
            call = f"mock.expect_call({', '.join('fl::matches::_' for _ in params)})"
            pre = f"\tconst auto named{e} = fl::make<{base(R)}>(w.states[{e}].storedValue);\n" if text and f"named{e}" in text else ""
            pre += "\tconst fl::Ambivalent ambi%d{%d};\n" % (e, e) if text and "(ambi)" in text else ""
            chain = join.join([call] + els)
            chain = chain.replace("(ambi)", f"(ambi{e})")
            exps.append(pre + f"\tmimicpp::ScopedExpectation e{e} = {chain};\n")
        sig = f"{R}({', '.join(params)})"
        f.write(f"static void {name}(mc::Src& s, mc::Case& c)\n{{\n\tc.log(\"{sig}\");\n\tfl::World w{{s, c}};\n")
        f.write("\tw.specs = {" + ",\n\t\t".join(specs) + "};\n\tw.limits();\n")
        if R != "void":
            f.write(f"\tfl::Pool<{base(R)}>::reset();\n")
        f.write(f"\tmimicpp::Mock<{sig}> mock{{}};\n" + "".join(exps))
        f.write("\tfor (int n = s.range(1, 8), i = 0; i < n; ++i)\n\t{\n\t\tpbt::Span span{s};\n")
        f.write(f"\t\tfl::rec().gates.clear();\n\t\tfor (int g = 0; g < {gates}; ++g) fl::rec().gates.push_back(s.draw(4) != 0);\n")
        for i, p in enumerate(params):
            f.write(f"\t\tfl::Box<{base(p)}> a{i}{{s.range(0, 99)}};\n")
        f.write(f"\t\tfl::call<{', '.join([R] + params)}>(w, mock, \"call \" + std::to_string(i){''.join(f', a{i}' for i in range(len(params)))});\n\t}}\n\tfl::finish(w);\n}}\n")
        f.write(f"static mc::Add add_{name}{{\"{name}\", {name}}};\n\n")
    f.close()
