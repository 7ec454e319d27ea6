"""C22: signature utilities against the language.  Signatures are generated as text; what the language says about a set
of overloads is asked from two compilers (a class declaring these member functions), what the library says is evaluated
in a compiled program."""
import itertools, json, os, random, re, subprocess
from harness import JOBS, CheckError, parallel, INCLUDE

PRELUDE = """#include "mimic++/mimic++.hpp"
#include <array>
#include <map>
#include <string>
#include <vector>
struct A; struct B { int x; }; enum class E { a }; enum U { u };
template <typename... T> struct Tpl;
"""

BASE = ["int", "unsigned", "char", "bool", "double", "A", "B", "E", "U", "std::string", "std::vector<int>", "Tpl<int, A>",
        "Tpl<>", "std::map<int, B>", "long long", "std::nullptr_t"]
FORMS = ["{}", "{}&", "const {}&", "{}&&", "const {}&&", "{}*", "const {}*", "{}**", "{}(&)[3]", "{}(*)(int, A)",
         "{} (*)() noexcept", "int {}::*" , "volatile {}&", "{}* const&", "const {}* const*"]
QUALS = ["", "const", "&", "const &", "&&", "const &&"]
# volatile member functions are outside of what the library supports


def ptype(rnd):
    b = rnd.choice(BASE)
    f = rnd.choice(FORMS)
    if f.startswith("int {}::"):
        b = rnd.choice(["A", "B"])
    if f == "{}" and b == "A":
        return "A*"
    if "(*)" in f and b == "A":
        b = "void"
    return f.format(b)


class Sig:
    def __init__(self, ret, params, qual, nx, var=False):
        self.ret, self.params, self.qual, self.nx, self.var = ret, tuple(params), qual, nx, var

    def plist(self):
        return ", ".join(self.params) + (", ..." if self.var and self.params else "..." if self.var else "")

    def text(self, qual=None, nx=None, ret=None):
        q = self.qual if qual is None else qual
        n = self.nx if nx is None else nx
        return f"RetT<{self.ret if ret is None else ret}>({self.plist()}) {q} {'noexcept' if n else ''}".strip()

    def decl(self):
        return f"RetT<{self.ret}> f({self.plist()}) {self.qual}{' noexcept' if self.nx else ''};"


def gen_sig(rnd, pool=None, variadic=0.0):
    ret = rnd.choice(["void", "int", "B", "A&", "const std::string&", "std::vector<int>", "int*", "E&&", "Tpl<int, int>*", "const B"])
    n = rnd.choice([0, 0, 1, 1, 1, 2, 2, 3, 5])
    params = [rnd.choice(pool) if pool and rnd.random() < 0.8 else ptype(rnd) for _ in range(n)]
    return Sig(ret, params, rnd.choice(QUALS), rnd.random() < 0.4, rnd.random() < variadic)


def variant(rnd, s):
    """A signature that is close to s."""
    k = rnd.random()
    t = Sig(s.ret, list(s.params), s.qual, s.nx)
    if k < 0.45:
        t.qual = rnd.choice(QUALS)
    elif k < 0.55:
        t.nx = not t.nx
    elif k < 0.65:
        t.ret = rnd.choice(["void", "int", "B"])
    elif k < 0.75 and t.params:
        p = list(t.params)
        i = rnd.randrange(len(p))
        # top-level const makes no difference
        p[i] = p[i] + " const" if "(" not in p[i] and "::*" not in p[i] and not p[i].endswith("&") else p[i]
        t.params = tuple(p)
    elif k < 0.85 and len(t.params) > 1:
        p = list(t.params)
        rnd.shuffle(p)
        t.params = tuple(p)
    elif k < 0.93 and t.params:
        t.params = t.params[:-1]
    else:
        t.params = t.params + (ptype(rnd),)
    return t


RET = "template <typename T> using RetT = T;\n"


def legal_sets(ctx, sets, tag):
    """Which of the sets may a class declare?  Asks two compilers; None where they disagree."""
    per = (len(sets) + 3) // 4
    def ask(job):
        cxx, k = job
        mine = range(k * per, min(len(sets), (k + 1) * per))
        path = os.path.join(ctx.build, f"legal-{tag}-{k}-{cxx}.cpp")
        lines = (PRELUDE.replace('#include "mimic++/mimic++.hpp"\n', "") + RET).splitlines()
        where = {}
        for i in mine:
            lines.append(f"struct S{i} {{ " + " ".join(s.decl() for s in sets[i]) + " };")
            where[len(lines)] = i
        open(path, "w").write("\n".join(lines) + "\n")
        lim = ["-ferror-limit=0"] if "clang" in cxx else ["-fmax-errors=0"]
        r = subprocess.run([cxx, "-std=c++20", "-fsyntax-only", "-w", *lim, path], capture_output=True, text=True, errors="replace")
        bad = set()
        for m in re.finditer(r"^[^\n:]*\.cpp:(\d+):\d+: error: (.*)$", r.stdout + r.stderr, re.M):
            line = int(m.group(1))
            if line not in where:
                raise CheckError("the declarations do not compile: " + m.group(0))
            bad.add(where[line])
        if r.returncode != 0 and not bad:
            raise CheckError("compiling the declarations failed: " + r.stderr[:500])
        return {i: i not in bad for i in mine}
    res = {}
    for cxx in ("clang++", "g++"):
        d = {}
        for part in parallel(ask, [(cxx, k) for k in range(4)]):
            d.update(part)
        res[cxx] = d
    return [res["g++"][i] if res["g++"][i] == res["clang++"][i] else None for i in range(len(sets))]


def evaluate(ctx, rows, tag):
    """rows: C++ boolean constant expressions; returns their values."""
    n = JOBS
    per = (len(rows) + n - 1) // n
    def one(k):
        mine = rows[k * per:(k + 1) * per]
        if not mine:
            return []
        path = os.path.join(ctx.build, f"rows_{tag}_{k}.cpp")
        with open(path, "w") as f:
            f.write(PRELUDE + RET + "#include <cstdio>\nstatic constexpr bool rows[]{\n")
            for r in mine:
                f.write(r + ",\n")
            f.write("};\nint main() { for (bool b : rows) std::putchar(b ? '1' : '0'); }\n")
        exe = f"rows_{tag}_{k}"
        ctx.compile([path], exe, cxx=("clang++" if k % 2 else "g++"), flags=["-std=c++20", "-w", "-O0"])
        r = subprocess.run([os.path.join(ctx.build, exe)], capture_output=True, text=True, errors="replace", timeout=60)
        os.remove(os.path.join(ctx.build, exe))
        if len(r.stdout) != len(mine):
            raise CheckError("evaluation ended early")
        return [c == "1" for c in r.stdout]
    out = []
    for part in parallel(one, range(n)):
        out += part
    return out


def check(ctx):
    if ctx.replay:
        items = json.loads([l for l in open(ctx.replay, errors="replace") if l.startswith("{")][0])
        got = evaluate(ctx, [items["row"]], "replay")
        if got[0] != items["expected"]:
            ctx.violation("replay", open(ctx.replay, errors="replace").read())
        return
    rounds = 20 if ctx.thorough else 1
    for k in range(rounds):
        rnd = random.Random(f"{ctx.seed}/{k}")
        one_round(ctx, rnd, k)


def one_round(ctx, rnd, k):
    nt = 0
    rows, expected, names = [], [], []

    def row(expr, want, name):
        rows.append(expr)
        expected.append(want)
        names.append(name)

    # single signatures: every qualification of a number of parameter lists
    for _ in range(110):
        base = gen_sig(rnd, variadic=0.25)
        base.ret = rnd.choice([base.ret, ptype(rnd).replace("(&)[3]", "").replace("std::nullptr_t", "int")])
        for q in QUALS:
            for nx in (False, True):
                s = Sig(base.ret, base.params, q, nx, base.var)
                t = s.text()
                same = lambda tr, w: f"std::is_same_v<mimicpp::{tr}<{t}>, {w}>"
                row(same("signature_add_noexcept_t", s.text(nx=True)), True, "add noexcept")
                row(same("signature_remove_noexcept_t", s.text(nx=False)), True, "remove noexcept")
                row(same("signature_decay_t", s.text(qual="", nx=False)), True, "decay")
                row(same("signature_return_type_t", f"RetT<{s.ret}>"), True, "return type")
                if nx:
                    row(f"std::is_same_v<mimicpp::signature_add_noexcept_t<mimicpp::signature_remove_noexcept_t<{t}>>, {t}>", True, "remove, then add")
                else:
                    row(f"std::is_same_v<mimicpp::signature_remove_noexcept_t<mimicpp::signature_add_noexcept_t<{t}>>, {t}>", True, "add, then remove")
                if not s.var:
                    # (the adjusted parameter types are those of the function type)
                    row(f"std::is_same_v<mimicpp::signature_param_list_t<{t}>, std::tuple<{', '.join(s.params)}>>" , True, "parameter list")
                    if s.params:
                        i = rnd.randrange(len(s.params))
                        row(f"std::is_same_v<mimicpp::signature_param_type_t<{i}, {t}>, {s.params[i]}>", True, "parameter type")
                nt += 1
    singles = len(rows)

    # overload sets
    sets = []
    for _ in range(2600):
        pool = [ptype(rnd) for _ in range(2)]
        first = gen_sig(rnd, pool)
        m = [first]
        for _ in range(rnd.choice([1, 1, 1, 2, 2, 3, 5])):
            m.append(variant(rnd, rnd.choice(m)) if rnd.random() < 0.85 else gen_sig(rnd, pool))
        rnd.shuffle(m)
        sets.append(m)
    # all qualifier pairs and triples of one parameter list
    p = [ptype(rnd)]
    for n in (2, 3):
        for qs in itertools.product(QUALS, repeat=n):
            sets.append([Sig("void", p, q, rnd.random() < 0.3) for q in qs])
    # shrink-friendly order: small ones first
    sets.sort(key=lambda m: (len(m), sum(len(s.text()) for s in m)))
    legal = legal_sets(ctx, sets, k)
    used = 0
    samples = []
    nlegal = 0
    for m, l in zip(sets, legal):
        if l is None:
            continue
        used += 1
        nlegal += l
        t = ", ".join(s.text() for s in m)
        row(f"mimicpp::is_overload_set_v<{t}>", l, "overload set")
        row(f"mimicpp::is_overload_set<{t}>::value", l, "overload set")
        if len(m) == 2:
            row(f"mimicpp::is_overloadable_with_v<{t}>", l, "overloadable")
        if rnd.random() < 0.005:
            samples.append(f"{'legal' if l else 'illegal'}: {t}")
    got = evaluate(ctx, rows, k)
    for r, w, g, n in zip(rows, expected, got, names):
        if w != g:
            ctx.violation("signature", f"# {n}: expected {w}, evaluates to {g} (the language decides)\n" + json.dumps({"row": r, "expected": w}) + "\n")
    samples.append(rows[0])
    ctx.add(f"C22-{k}", len(rows), nt + used,
            "a case is one trait evaluation; non-trivial are the distinct qualified signatures and the overload sets on whose legality both compilers agree",
            samples, {"single signature rows": singles, "overload sets": used, "legal sets": nlegal, "compilers disagree": legal.count(None)})
