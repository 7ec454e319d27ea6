"""C20: one suite of random test programs per framework, compared with the predicted results."""
import os, subprocess
from harness import VERIF, parallel

HERE = os.path.join(VERIF, "checks/adapter")
BOOST = "/usr/lib/x86_64-linux-gnu/libboost_unit_test_framework.a"
SUITES = [(["-DFRAMEWORK=0"], ["-lCatch2Main", "-lCatch2"]),
          (["-DFRAMEWORK=1", "-DDOCTEST_CONFIG_NO_SHORT_MACRO_NAMES"], []),
          (["-DFRAMEWORK=2"], ["-lgtest", "-lpthread"]),
          (["-DFRAMEWORK=3"], [BOOST]),
          (["-DFRAMEWORK=0", "-DCATCH_CONFIG_PREFIX_ALL"], ["-lCatch2Main", "-lCatch2"])]


def check(ctx):
    fl = ["-std=c++20", "-w", "-O1", "-D_GLIBCXX_ASSERTIONS"]
    obj = os.path.join(ctx.build, "run.o")
    jobs = [([os.path.join(HERE, "run.cpp")], "run.o", ["-r"], [])] + \
           [([os.path.join(HERE, "suite.cpp")], f"part{k}.o", ["-r"], d) for k, (d, _) in enumerate(SUITES)] + \
           [([os.path.join(HERE, "adapter_main.cpp")], "main.o", ["-r"], [])]
    # relocatable objects first, all in parallel
    errors = [e for e in parallel(lambda j: ctx.try_compile(j[0], j[1], "clang++", fl + j[3], None, j[2]), jobs) if e]
    if errors:
        ctx.compile_violation(errors[0])
    def link(k):
        what = "main.o" if k < 0 else f"part{k}.o"
        out = "exe" if k < 0 else f"suite{k}"
        lib = [] if k < 0 else SUITES[k][1]
        r = ctx._one((["clang++", os.path.join(ctx.build, what), obj, *lib, "-o", os.path.join(ctx.build, out)], None))
        if r:
            ctx.compile_violation([r])
    parallel(link, range(-1, len(SUITES)))
    if ctx.replay:
        r = subprocess.run([os.path.join(ctx.build, "exe"), "--replay", ctx.replay], text=True)
        if r.returncode != 0:
            ctx.violation("replay", open(ctx.replay, errors="replace").read())
        return
    ctx.engine("exe", "C20", 16000, 600000)
