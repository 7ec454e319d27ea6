"""Writes the translation units of C27's second part: gen_report.py <seed> <outdir> <units> <mocks per unit>."""
import random, sys

seed, out, units, per = int(sys.argv[1]), sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
rnd = random.Random(f"{seed}/C27")

VAL = ["int", "long", "unsigned", "bool", "char", "double", "std::string", "std::vector<int>", "std::optional<int>", "std::unique_ptr<int>",
       "std::pair<int, std::string>", "const char*", "int*", "rp::Kind", "rp::Printed", "rp::Opaque"]
QUALS = ["", "const", "&", "const &", "&&", "const &&"]
OBJ = ["o", "std::as_const(o)", "std::move(o)", "std::move(std::as_const(o))"]
SAFE = {"": [0, 2], "const": [1, 3], "&": [0], "const &": [1], "&&": [2], "const &&": [3]}


def ty():
    k = rnd.random()
    if k < 0.45:
        return rnd.choice(VAL)
    u = rnd.choice([v for v in VAL if "*" not in v] + ["rp::Base", "rp::Base"])
    return rnd.choice(["{}&", "const {}&", "{}&&", "const {}&&"]).format(u)


def base(t):
    return t.replace("const char*", "cstr").replace("const ", "").replace(" const", "").rstrip("&")


class Ov:
    def __init__(self, ret, params, qual, nx):
        self.ret, self.params, self.qual, self.nx = ret, tuple(params), qual, nx

    def sig(self):
        return f"{self.ret}({', '.join(self.params)}) {self.qual}{' noexcept' if self.nx else ''}".strip()

    def cat(self):
        return 2 if "&&" in self.qual else 1 if "&" in self.qual else 3

    def cst(self):
        return 2 if "const" in self.qual else 1


def compatible(a, b):
    if a.params == b.params:
        return a.qual != b.qual and ("&" in a.qual) == ("&" in b.qual)
    if len(a.params) != len(b.params):
        return True
    return any(base(x) != base(y) for x, y in zip(a.params, b.params))


def gen(n, emit, force):
    count = rnd.choice([1, 1, 2, 2, 3, 4])
    refstyle = rnd.random() < 0.5
    ovs = [force] if force else []
    for _ in range(40):
        if len(ovs) >= count:
            break
        if ovs and rnd.random() < 0.5:
            params = rnd.choice(ovs).params
        else:
            params = [ty() for _ in range(rnd.choice([0, 1, 1, 1, 2, 2, 3, 5]))]
        ret = "void" if rnd.random() < 0.3 else ty()
        if ovs and rnd.random() < 0.7:
            ret = rnd.choice(ovs).ret
        o = Ov(ret, params, rnd.choice(QUALS[2:] if refstyle else QUALS[:2]), rnd.random() < 0.4)
        if all(compatible(o, x) for x in ovs):
            ovs.append(o)
    emit(f"namespace m{n} {{")
    emit(f"using Mk = mimicpp::Mock<{', '.join(o.sig() for o in ovs)}>;")
    emit("rp::MockDecl make() {")
    emit("  rp::MockDecl d{};")
    emit("  d.make = []() -> std::shared_ptr<void> { return std::make_shared<Mk>(); };")
    emit(f'  d.text = "{"; ".join(o.sig() for o in ovs)}";')
    for j, o in enumerate(ovs):
        emit(f'  d.overloads.push_back({{"{o.sig()}", {o.cat()}, {o.cst()}, {str(o.nx).lower()}, typeid({o.ret})}});')
        for f in SAFE[o.qual]:
            ob = OBJ[f]
            go = lambda call: f"rp::Caller<{o.ret}({', '.join(o.params)})>::go([&](auto&&... a) -> decltype(auto) {{ {call} }}, s, w);"
            plain = f"w.here = rp::Loc::current(); return {ob}(static_cast<decltype(a)&&>(a)...);"
            expl = f"return {ob}(static_cast<decltype(a)&&>(a)..., *loc);"
            emit(f'  d.calls.push_back({{"{ob}", {j}, [](void* p, rp::Src& s, rp::WantCall& w, const rp::Loc* loc) {{ Mk& o = *static_cast<Mk*>(p); if (loc) {go(expl)} else {go(plain)} }}}});')
        for _ in range(2):
            args = list(range(len(o.params)))
            first = ", ".join(f"rp::R<{p}>{{x.reqs[{i}]}}" for i, p in enumerate(o.params))
            parts = []
            for _ in range(rnd.choice([0, 0, 1, 2, 4])):
                k = len(args)
                if o.params and rnd.random() < 0.6:
                    i = rnd.randrange(len(o.params))
                    args.append(i)
                    parts.append(f"mimicpp::expect::arg<{i}>(rp::R<{o.params[i]}>{{x.reqs[{k}]}})")
                else:
                    args.append(-1)
                    parts.append(f"rp::Pol{{x.reqs[{k}]}}")
            parts.append("mimicpp::expect::times(x.min, x.max)")
            if rnd.random() < 0.6:
                parts.append("mimicpp::then::apply_all(rp::Spoil{})")
            if o.ret != "void" or rnd.random() < 0.5:
                parts.append("rp::Fin{}")
            rnd.shuffle(parts)
            ob = OBJ[rnd.choice(SAFE[o.qual])]
            b = f"{ob}.expect_call({first})" + "".join(" && " + p for p in parts)
            # the object below and its location must be on one line
            mk = (f"[](void* p, rp::Exp& x, int form) -> rp::Handle {{ Mk& o = *static_cast<Mk*>(p); x.here = rp::Loc::current(); "
                  f"if (form) return rp::Handle{{new mimicpp::ScopedExpectation{{{b}, x.loc}}}}; return rp::Handle{{new mimicpp::ScopedExpectation{{{b}}}}}; }}")
            sc = (f"[](void* p, rp::Exp& x, int form) {{ Mk& o = *static_cast<Mk*>(p); x.here = rp::Loc::current(); "
                  f"if (form) {{ MIMICPP_SCOPED_EXPECTATION {b}; }} else {{ SCOPED_EXP {b}; }} }}")
            text = " ".join(p.split("(")[0].split("{")[0].split("::")[-1] for p in parts)
            emit(f'  d.setups.push_back({{"{text}", {j}, {{{", ".join(map(str, args))}}}, {mk}, {sc}}});')
    emit("  return d;")
    emit("}")
    emit("const rp::Add add{&make};")
    emit("}")


# every qualification with and without noexcept appears
forced = [Ov("int" if rnd.random() < 0.5 else "void", [ty() for _ in range(rnd.choice([0, 1, 2]))], q, nx) for q in QUALS for nx in (False, True)]
rnd.shuffle(forced)
for u in range(units):
    lines = ['#include "report.hpp"', "namespace {"]
    for n in range(per):
        gen(n, lines.append, forced.pop() if forced else None)
    lines.append("}")
    open(f"{out}/report_{u}.cpp", "w").write("\n".join(lines) + "\n")
