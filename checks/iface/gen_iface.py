"""Writes the translation units of C17: gen_iface.py <seed> <outdir> <units> <mocks per unit>."""
import random, sys

seed, out, units, per = int(sys.argv[1]), sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
rnd = random.Random(f"{seed}/C17")

VAL = ["int", "unsigned long", "double", "ifc::Tok", "std::string", "ifc::Owner", "std::vector<int>", "std::map<int, int>", "std::pair<int, ifc::Tok>",
       "std::tuple<int, std::string, int>", "std::array<int, 2>", "int*", "ifc::Kind"]
COPY = [v for v in VAL if v != "ifc::Owner"]
OBJ = ["o", "std::as_const(o)", "std::move(o)", "std::move(std::as_const(o))"]
QUALS = ["", "const", "&", "const &", "&&", "const &&"]
# the forms that reach a qualification whatever else is declared
SAFE = {"": [0, 2], "const": [1, 3], "&": [0], "const &": [1], "&&": [2], "const &&": [3]}


def ty(ret=False):
    k = rnd.random()
    if k < 0.5:
        return rnd.choice(VAL)
    u = rnd.choice(VAL + ["ifc::Pinned", "ifc::Abstract"])
    f = rnd.choice(["{}&", "const {}&", "{}&&", "const {}&&"])
    if u == "ifc::Abstract" and "&&" in f:
        f = "{}&"
    if u == "int*":
        f = rnd.choice(["{}&", "{} const&", "{}&&"])
    return f.format(u)


def base(t):
    return t.replace("const ", "").replace(" const", "").rstrip("&")


class M:
    def __init__(self, name, ret, params, qual, nx):
        self.name, self.ret, self.params, self.qual, self.nx = name, ret, tuple(params), qual, nx
        self.ifaces = []

    def specs(self):
        return (self.qual + (" noexcept" if self.nx else "")).strip()

    def sig(self):
        return f"{self.ret} {self.name}({', '.join(self.params)}) {self.specs()}".strip()


def compatible(a, b):
    if a.name != b.name:
        return True
    if a.params == b.params:
        return a.qual != b.qual and ("&" in a.qual) == ("&" in b.qual)
    # so that expectations and calls are unambiguous
    if len(a.params) != len(b.params):
        return True
    return any(base(x) != base(y) for x, y in zip(a.params, b.params))


def paren(t, p):
    return f"({t})" if "," in t or rnd.random() < p else t


def gen_mock(n, emit, wide=0, crowd=0):
    names = ["foo", "bar", "get_value", "x", "insert"][: rnd.choice([1, 2, 2, 3, 4])]
    methods = []
    many = rnd.random() < 0.12
    if wide or crowd:
        names = names[:1]
        many = False
    refstyle = rnd.random() < 0.5
    for name in names:
        count = rnd.choice([1, 1, 2, 2, 3, 4]) if not many else rnd.choice([8, 12, 17])
        if wide or crowd:
            count = crowd or 1
        for _ in range(count * 3):
            if sum(m.name == name for m in methods) == count:
                break
            mine = [m for m in methods if m.name == name]
            if mine and rnd.random() < 0.4:
                params = rnd.choice(mine).params
            else:
                params = [ty() for _ in range(rnd.choice([0, 1, 1, 2, 2, 3, 4]) if rnd.random() < 0.93 else rnd.choice([6, 9, 14]))]
            if wide:
                params = [rnd.choice(VAL) if i > 8 else ty() for i in range(wide)]
            ret = "void" if rnd.random() < 0.25 else ty(True)
            quals = QUALS if rnd.random() < 0.2 else (QUALS[2:] if refstyle else QUALS[:2])
            m = M(name, ret, params, rnd.choice(quals), rnd.random() < 0.25)
            if all(compatible(m, x) for x in methods):
                methods.append(m)
    ns = f"m{n}"
    emit(f"namespace {ns} {{")
    # distribute over interfaces; a method may be declared by several
    kinds = rnd.choice([["I0"], ["I0"], ["I0", "I1"], ["I0", "J0"], ["I0", "J0", "I1"]])
    decl = {k: [] for k in kinds}
    for m in methods:
        m.ifaces = [rnd.choice(kinds)]
        if rnd.random() < 0.15 and "I1" in kinds:
            m.ifaces = [i for i in kinds if i != "J0"]
        for i in m.ifaces:
            decl[i].append(m)
    tpl = len(kinds) == 1 and rnd.random() < 0.25
    for k in kinds:
        parent = " : I0" if k == "J0" else ""
        emit(f"struct {k}{parent} {{ virtual ~{k}() = default;")
        if k == "J0":
            for nm in sorted({m.name for m in decl[k]} & {m.name for m in decl["I0"]}):
                emit(f"  using I0::{nm};")
        for m in decl[k]:
            body = "= 0;"
            if rnd.random() < 0.1:
                body = "{ std::abort(); }"
            emit(f"  virtual {m.sig()} {body}")
        emit("};")
    bases = [k for k in kinds if not (k == "I0" and "J0" in kinds)]
    rnd.shuffle(bases)
    T = None
    if tpl:
        cands = sorted({p for m in methods for p in m.params if "&" not in p} | {m.ret for m in methods if "&" not in m.ret and m.ret != "void"})
        T = rnd.choice(cands) if cands else None
    sub = lambda t: "T" if T and t == T else t
    if T:
        emit("template <typename T>")
    emit(f"struct {'D' if not T else 'DT'} final : {', '.join(bases)} {{")
    prefix = lambda: rnd.choice(["", "MIMICPP_"])
    for name in names:
        mine = [m for m in methods if m.name == name]
        if not mine:
            continue
        def parts(m):
            ps = ", ".join(paren(sub(p), 0.15) for p in m.params)
            t = f"{paren(sub(m.ret), 0.1)}, ({ps})"
            return t + (f", {m.specs()}" if m.specs() else "")
        if len(mine) == 1 and rnd.random() < 0.7:
            emit(f"  {prefix()}MOCK_METHOD({name}, {parts(mine[0])});")
        else:
            emit(f"  {prefix()}MOCK_OVERLOADED_METHOD({name}, " + ", ".join(f"{prefix()}ADD_OVERLOAD({parts(m)})" for m in mine) + ");")
    emit("};")
    if T:
        emit(f"using D = DT<{T}>;")
    emit("ifc::Iface make() {")
    emit("  ifc::Iface s{};")
    text = "; ".join(m.sig() for m in methods)
    emit(f'  s.text = "{text}";')
    emit("  s.make = []() -> std::shared_ptr<void> { return std::make_shared<D>(); };")
    for m in methods:
        only = ", ".join(f"ifc::Only<{p}>{{}}" for p in m.params)
        form = rnd.choice(SAFE[m.qual])
        o = [f"d.{m.name}_", f"std::as_const(d).{m.name}_", f"std::move(d).{m.name}_", f"std::move(std::as_const(d)).{m.name}_"][form]
        arm = f"[](void* o, int id, int upper, int boom) {{ D& d = *static_cast<D*>(o); return ifc::finish<{m.ret}>({o}.expect_call({only}), id, upper, boom); }}"
        paths = []
        via = []
        for i in m.ifaces:
            via.append(i)
            if i == "I0" and "J0" in kinds and m.name not in {x.name for x in decl["J0"]}:
                via.append("J0")
            if i == "I0" and "J0" in kinds and m.name in {x.name for x in decl["J0"]}:
                via.append("J0")
        via.append("D")
        for i in via[:3]:
            for form in ([rnd.choice(SAFE[m.qual])] if len(methods) > 6 else SAFE[m.qual]):
                lvs = [int(rnd.random() < 0.5 and p in COPY) for p in m.params]
                la = "".join(f", {str(bool(l)).lower()}" for l in lvs)
                ob = OBJ[form]
                call = (f"[](void* p, int seed, ifc::Result& r) {{ {i}& o = *static_cast<D*>(p); ifc::Caller<{m.ret}({', '.join(m.params)}){la}>::go("
                        f"[&](auto&&... a) -> decltype(auto) {{ return {ob}.{m.name}(static_cast<decltype(a)&&>(a)...); }}, seed, r); }}")
                paths.append(f'{{"{i}: {ob}", {call}}}')
        emit(f'  s.methods.push_back({{"{m.sig()}", {names.index(m.name)}, {str(m.nx).lower()}, {arm}, {{{", ".join(paths)}}}}});')
    emit("  return s;")
    emit("}")
    emit("const ifc::Add add{&make};")
    emit("}")


for u in range(units):
    lines = ['#include "iface.hpp"', "namespace {"]
    for n in range(per):
        # far more parameters and overloads than anybody samples; the macros expand recursively
        big = {"wide": rnd.randint(22, 80)} if n == 0 and u % 4 == 1 else {"crowd": rnd.randint(20, 32)} if n == 0 and u % 4 == 3 else {}
        gen_mock(n, lambda t: lines.append(t), **big)
    lines.append("}")
    open(f"{out}/iface_{u}.cpp", "w").write("\n".join(lines) + "\n")
