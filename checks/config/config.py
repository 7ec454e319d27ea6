"""C25: builds the same random program in several configurations and compares what the builds do (see config_main.cpp)."""
import os, random, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
FMT = ["-DMIMICPP_CONFIG_USE_FMT"]
PRE = ["-DMIMICPP_CONFIG_ONLY_PREFIXED_MACROS"]
ND = ["-DNDEBUG"]

# name, compiler, flags
QUICK = [
    ("clang-O0-20", "clang++", ["-std=c++20", "-O0"]),
    ("clang-O2-20-ndebug", "clang++", ["-std=c++20", "-O2", *ND]),
    ("gcc-O0-23-fmt-ndebug-prefixed", "g++", ["-std=c++23", "-O0", *FMT, *ND, *PRE]),
    ("clang-O0-23-fmt", "clang++", ["-std=c++23", "-O0", *FMT]),
    ("gcc-O1-20", "g++", ["-std=c++20", "-O1"]),
]
MORE = [
    ("gcc-O3-20-ndebug", "g++", ["-std=c++20", "-O3", *ND]),
    ("gcc-O2-23-prefixed", "g++", ["-std=c++23", "-O2", *PRE]),
    ("clang-O3-23-fmt-ndebug", "clang++", ["-std=c++23", "-O3", *FMT, *ND]),
    ("gcc-O2-20-fmt", "g++", ["-std=c++20", "-O2", *FMT]),
    ("clang-O1-23-ndebug-prefixed", "clang++", ["-std=c++23", "-O1", *ND, *PRE]),
    ("clang-Os-20-san", "clang++", ["-std=c++20", "-Os", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=undefined", "-fno-sanitize-recover=all"]),
]


def check(ctx):
    from checks import registry
    rounds = 4 if ctx.thorough else 1
    if not ctx.replay or registry.replay_tag(ctx, "gen", None) is None:
        headers(ctx)
    for k in range(rounds):
        one(ctx, k, rounds, registry)


def headers(ctx):
    """Which of the headers a program includes, and in which order, makes no difference: random selections in random
    configurations compile. A failing selection is reduced to its shortest failing form."""
    from harness import parallel, INCLUDE
    base = os.path.join(INCLUDE, "mimic++")
    known = ("Call ControlPolicy Expectation ExpectationBuilder ExpectationPolicies Fwd InterfaceMock Matcher Mock ObjectWatcher "
             "Printer Reporter Reports Sequence String TypeTraits Utility mimic++").split()
    names = [n for n in known if os.path.exists(os.path.join(base, n + ".hpp"))]
    rnd = random.Random(ctx.seed)
    todo = []
    for k, n in enumerate(names):  # each one alone, by both compilers
        for cxx in ("g++", "clang++"):
            todo.append((cxx, (n,)))
    for k in range(600 if ctx.thorough else 28):
        some = rnd.sample(names, rnd.randint(2, 6))
        if rnd.random() < .3:
            some.append(rnd.choice(some))
        todo.append((rnd.choice(("g++", "clang++")), tuple(some)))
    jobs = []
    for k, (cxx, some) in enumerate(todo):
        fl = [rnd.choice(("-std=c++20", "-std=c++20", "-std=c++23")), *rnd.choice(([], FMT)), *rnd.choice(([], PRE)), *rnd.choice(([], ND))]
        jobs.append((cxx, fl, some))

    def compiles(job, tag):
        cxx, fl, some = job
        src = os.path.join(ctx.build, f"headers{tag}.cpp")
        with open(src, "w") as f:
            f.writelines(f"#include <mimic++/{n}.hpp>\n" for n in some)
            f.write("int main() {}\n")
        return ctx._one(([cxx, *fl, "-fsyntax-only", "-w", "-I" + INCLUDE, src], None))

    failed = [(j, e) for j, e in parallel(lambda p: (p[1], compiles(p[1], p[0])), list(enumerate(jobs))) if e]
    if failed:
        job, err = min(failed, key=lambda p: len(p[0][2]))
        if err[1] not in (1, 2):
            err = compiles(job, 0)
        again = True
        while err and again:
            again = False
            for i in range(len(job[2]) if len(job[2]) > 1 else 0):
                less = (job[0], job[1], job[2][:i] + job[2][i + 1:])
                e = compiles(less, "min")
                if e:
                    job, err, again = less, e, True
                    break
        if err:
            compiles(job, "min")
            ctx.compile_violation([compiles(job, "min")])
    ctx.add("headers", len(jobs), len({(j[0], tuple(j[1]), j[2]) for j in jobs}), "selections of headers: each differs from the others in compiler, "
            "options or order", [f"{j[0]} {' '.join(j[1])}: {' '.join(j[2])}" for j in jobs[-2:]])


def one(ctx, k, rounds, registry):
    from harness import parallel
    d = os.path.join(ctx.build, f"gen{k}")
    os.makedirs(d)
    gseed = int(registry.replay_tag(ctx, "gen", ctx.seed * 1000 + k))
    sizes = ["4", "14", "4", "11"]
    subprocess.run([sys.executable, os.path.join(HERE, "gen_config.py"), str(gseed), d, *sizes], check=True)
    units = [os.path.join(HERE, f) for f in ("lib.cpp", "hist.cpp")] + sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))
    configs = QUICK + (MORE if ctx.thorough or registry.replay_tag(ctx, "all", "0") == "1" else [])
    # all objects of all configurations in one pool, the slow ones first
    jobs = [(name, cxx, fl, u) for name, cxx, fl in sorted(configs, key=lambda c: (c[1] != "g++", c[0])) for u in units]
    inc = ["-I" + ctx_include(), "-I" + HERE]

    def build(job):
        name, cxx, fl, u = job
        o = os.path.join(d, f"{name}.{os.path.basename(u)}.o")
        cmd = [cxx, *fl, "-w", "-fPIC", "-fvisibility=hidden", *(["-fno-gnu-unique"] if cxx == "g++" else []), *inc, "-c", u, "-o", o]
        return ctx._one((cmd, None))

    errors = [e for e in parallel(build, jobs) if e]
    if errors and any(e[1] not in (1, 2) for e in errors):
        errors = [e for e in map(build, jobs) if e]
    if errors:
        ctx.compile_violation(errors)
    for name, cxx, fl in configs:
        objs = [os.path.join(d, f"{name}.{os.path.basename(u)}.o") for u in units]
        san = [f for f in fl if f.startswith("-fsanitize")]
        e = ctx._one(([cxx, "-shared", "-Wl,-Bsymbolic", *san, *objs, "-o", os.path.join(d, name + ".so"), *(["-lfmt"] if FMT[0] in fl else [])], None))
        if e:
            ctx.compile_violation([e])
        for o in objs:
            os.remove(o)
    with open(os.path.join(d, "configs.txt"), "w") as f:
        f.writelines(c[0] + "\n" for c in configs)
    exe = os.path.join(d, "exe")
    ctx.compile([os.path.join(HERE, "config_main.cpp")], exe, cxx="clang++",
                flags=["-std=c++20", "-O1", "-w", *(["-fsanitize=undefined"] if ctx.thorough else [])], link=["-ldl", "-rdynamic"])
    if ctx.replay:
        registry.replay_engine(ctx, exe)
        return
    ctx.engine(exe, "C25", 60000, 1200000 // rounds, part=f"C25-{k}", source=f"gen={gseed} all={int(ctx.thorough)}", seed=ctx.seed * 100 + k)
    ctx.notes.append("configurations: " + ", ".join(c[0] for c in configs))


def ctx_include():
    import harness
    return harness.INCLUDE
