"""Writes the translation units of C07: gen_overload.py <seed> <outdir> <units> <sets per unit>."""
import random, sys

seed, out, units, per = int(sys.argv[1]), sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
rnd = random.Random(f"{seed}/C07")

FAMILIES = [
    ["int", "long", "unsigned", "short", "char", "bool", "double", "float", "unsigned long long", "ov::Plain", "ov::FromInt", "std::optional<int>", "ov::Scoped"],
    ["int", "int&", "const int&", "int&&", "const int&&", "long&", "const long&", "double&&", "ov::FromInt", "const ov::FromInt&", "std::reference_wrapper<int>"],
    ["std::string", "const std::string&", "std::string&", "std::string&&", "std::string_view", "const char*", "bool", "const void*", "std::vector<int>", "char"],
    ["ov::Base&", "const ov::Base&", "ov::Base&&", "ov::Derived&", "const ov::Derived&", "const ov::Derived&&", "ov::Base*", "const ov::Base*", "const ov::Derived*", "void*", "const void*", "bool"],
    ["std::unique_ptr<int>", "std::unique_ptr<int>&", "const std::unique_ptr<int>&", "std::unique_ptr<int>&&", "std::shared_ptr<int>", "std::nullptr_t", "int*", "bool", "std::vector<int>", "const std::vector<int>&",
     "std::initializer_list<int>", "std::optional<int>", "ov::Explicit", "std::function<int()>", "int (*)()", "int"],
]
ARGS = {
    0: ["a.i", "a.ci", "std::move(a.i)", "a.l", "a.u", "a.sh", "a.c", "a.b", "a.d", "a.f", "a.e", "a.pe", "a.o", "a.ti", "a.fi", "0", "'c'", "1.5f", "42u", "7ull", "true", "{}", "{3}", "std::nullopt"],
    1: ["a.i", "a.ci", "std::move(a.i)", "std::move(a.ci)", "a.l", "std::as_const(a.l)", "a.d", "std::move(a.d)", "a.fi", "std::move(a.fi)", "std::as_const(a.fi)", "5", "std::ref(a.i)", "a.ti", "{}", "a.sh"],
    2: ["a.s", "a.cs", "std::move(a.s)", "std::move(a.cs)", "std::as_const(a.s)", "a.sv", "a.cp", "\"lit\"", "{}", "{'a', 'b'}", "a.v", "a.c", "std::string{\"tmp\"}"],
    3: ["a.base", "std::as_const(a.base)", "std::move(a.base)", "a.der", "a.cder", "std::move(a.der)", "std::move(a.cder)", "a.bp", "a.cdp", "&a.base", "&a.der", "&std::as_const(a.base)", "nullptr", "a.np", "&a.i"],
    4: ["a.up", "std::move(a.up)", "std::as_const(a.up)", "nullptr", "a.np", "NULL", "0", "&a.i", "a.v", "std::move(a.v)", "{}", "{1, 2}", "{3}", "a.ex", "a.o", "[] { return 1; }", "std::make_unique<int>(1)",
        "std::make_shared<int>(1)", "4"],
}
RETS = ["void", "void", "int", "std::string", "int&", "const std::string&", "std::unique_ptr<int>", "std::vector<int>", "ov::Base&", "int&&", "const int*", "double"]
QUALS = ["", "const", "&", "const &", "&&", "const &&"]
OBJ = ["{}", "std::as_const({})", "std::move({})", "std::move(std::as_const({}))"]


class Ov:
    def __init__(self, params, qual, nx, ret):
        self.params, self.qual, self.nx, self.ret = params, qual, nx, ret

    def quals(self):
        return f"{self.qual}{' noexcept' if self.nx else ''}"

    def sig(self):
        return f"{self.ret}({', '.join(self.params)}) {self.quals()}".strip()

    def cat(self):
        return 2 if "&&" in self.qual else 1 if "&" in self.qual else 3

    def cst(self):
        return 2 if "const" in self.qual else 1


def compatible(a, b):
    if a.params != b.params:
        return True
    if a.qual == b.qual:
        return False
    return ("&" in a.qual) == ("&" in b.qual)


def gen_set():
    fams = rnd.sample(range(len(FAMILIES)), rnd.choice([1, 1, 1, 2]))
    n = rnd.choice([1, 2, 2, 3, 3, 4, 5, 6])
    arity = rnd.choice([0, 1, 1, 1, 1, 2, 2, 3])
    refstyle = rnd.random() < 0.5
    pool = [rnd.choice(FAMILIES[rnd.choice(fams)]) for _ in range(rnd.choice([1, 2, 3, 5]))]
    sameret = rnd.choice(RETS) if rnd.random() < 0.4 else None
    res = []
    for _ in range(40):
        if len(res) == n:
            break
        if res and rnd.random() < 0.45:
            o = rnd.choice(res)
            params = list(o.params)
            if rnd.random() < 0.3 and params:
                params[rnd.randrange(len(params))] = rnd.choice(pool)
        else:
            k = arity if rnd.random() < 0.75 else rnd.choice([0, 1, 2])
            params = [rnd.choice(pool) if rnd.random() < 0.8 else rnd.choice(FAMILIES[rnd.choice(fams)]) for _ in range(k)]
        q = rnd.choice(QUALS[2:] if refstyle else QUALS[:2]) if rnd.random() < 0.85 else rnd.choice(QUALS)
        o = Ov(tuple(params), q, rnd.random() < 0.3, sameret or rnd.choice(RETS))
        if all(compatible(o, x) for x in res):
            res.append(o)
    return fams, res


def gen_unit(path, unit):
    lines = ['#include "overload.hpp"', "namespace {"]
    emit = lambda t: lines.extend(t.split("\n"))
    for s in range(per):
        fams, ovs = gen_set()
        ns = f"s{s}"
        emit(f"namespace {ns} {{")
        emit("using M = mimicpp::Mock<" + ", ".join(o.sig() for o in ovs) + ">;")
        groups = {}
        tags = []
        emit("struct Real {")
        for k, o in enumerate(ovs):
            groups.setdefault((o.params, o.ret), len(groups))
            tag = f"ov::Tag<{k}, {o.ret}, {int(o.nx)}, {o.cat()}, {o.cst()}>"
            tags.append(tag)
            names = ", ".join(f"{p} p{i}" if "(*)" not in p else p.replace("(*)", f"(*p{i})") for i, p in enumerate(o.params))
            uses = "".join(f", p{i}" for i in range(len(o.params)))
            emit(f"  {tag} operator()({names}) {o.quals()} {{ ov::see(ov::real{uses}); return {{}}; }}")
            # set-up of expectations: constrained by the parameters, like the documentation says
            ts = ", ".join(f"typename A{i}" for i in range(len(o.params)))
            if o.params:
                req = " && ".join(f"ov::accepts<A{i}, {p}>" for i, p in enumerate(o.params))
                fa = ", ".join(f"A{i}&&" for i in range(len(o.params)))
                emit(f"  template <{ts}> requires ({req}) {tag} expect_call({fa}) {o.qual};")
            else:
                emit(f"  {tag} expect_call() {o.qual};")
        emit("};")
        # calls
        arglists = {}
        for o in ovs:
            for _ in range(4):
                n = len(o.params)
                a = [rnd.choice(ARGS[rnd.choice(fams)]) for _ in range(n)]
                arglists[tuple(a)] = 1
        for _ in range(2):
            n = rnd.choice([0, 1, 2])
            arglists[tuple(rnd.choice(ARGS[rnd.choice(fams)]) for _ in range(n))] = 1
        arities = {len(o.params) for o in ovs}
        if 2 in fams:  # null pointers are no text
            arglists = {a: 1 for a in arglists if not {"nullptr", "a.np", "NULL", "0"} & set(a)}
        # a brace list in the last place could also initialize the call location
        lists = [a for a in arglists if not (a and a[-1].startswith("{") and len(a) - 1 in arities)]
        rnd.shuffle(lists)
        forms = []
        for a in lists[:14]:
            for obj in (OBJ if len(ovs) < 5 else rnd.sample(OBJ, 3)):
                k = len(forms)
                args = ", ".join(a)
                expr = f"{obj.format('o')}({args})"
                emit(f"template <typename O> concept C{k} = requires(O& o, ov::Args& a) {{ {expr}; }};")
                emit(f"struct F{k} {{")
                line = len(lines) + 1
                emit(f"  template <typename O> static decltype(auto) go(O& o, ov::Args& a) noexcept(noexcept({expr})) {{ return {expr}; }}")
                emit("};")
                forms.append((expr.replace('"', '\\"'), line))
        # set-ups
        arms = []
        seen = set()
        for j, o in enumerate(ovs):
            for _ in range(3):
                natural = {"": 0, "const": 1, "&": 0, "const &": 1, "&&": 2, "const &&": 3}[o.qual]
                obj = OBJ[natural] if rnd.random() < 0.7 else rnd.choice(OBJ)
                args = ", ".join(f"ov::Only<{p}>{{}}" if rnd.random() < 0.8 else "mimicpp::matches::_" for p in o.params)
                expr = f"{obj.format('o')}.expect_call({args})"
                if expr in seen:
                    continue
                seen.add(expr)
                k = len(arms)
                emit(f"template <typename O> concept A{k} = requires(O& o) {{ {expr}; }};")
                emit(f"template <typename O> auto arm{k}(O& o) {{ return {expr}; }}")
                arms.append(expr)
        emit("template <typename C> constexpr int idx = std::remove_cvref_t<C>::index;")
        emit("ov::Set make() {")
        emit("  ov::Set s{};")
        text = "; ".join(o.sig() for o in ovs)
        emit(f'  s.text = "{text}";')
        for k, o in enumerate(ovs):
            ps = ", ".join(f"std::type_index{{typeid({p})}}" for p in o.params)
            emit(f'  s.overloads.push_back({{"{o.sig()}", {groups[(o.params, o.ret)]}, {o.cat()}, {o.cst()}, {str(o.nx).lower()}, {{{ps}}}, std::type_index{{typeid({o.ret})}}}});')
        for k, (t, line) in enumerate(forms):
            emit(f'  ov::addForm<Real, M, F{k}, C{k}<Real>, C{k}<M>>(s, "{t}", {line});')
        for k, t in enumerate(arms):
            emit(f"  ov::addArm<Real, M, A{k}<Real>, A{k}<M>>(s, \"{t}\", [](auto& o) {{ return arm{k}(o); }});")
        emit("  ov::addMakers<Real, M>(s);")
        emit("  return s;")
        emit("}")
        emit("const ov::Add add{&make};")
        emit("}")
    lines.append("}")
    open(path, "w").write("\n".join(lines) + "\n")


for u in range(units):
    gen_unit(f"{out}/set_{u}.cpp", u)
