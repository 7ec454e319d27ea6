"""Property id -> function that runs its check."""
import os, subprocess, sys
from harness import VERIF, JOBS, CheckError, parallel

HERE = os.path.join(VERIF, "checks")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


def replay_engine(ctx, binary):
    r = subprocess.run([os.path.join(ctx.build, binary), "--replay", ctx.replay], text=True)
    if r.returncode != 0:
        ctx.violation("replay", open(ctx.replay, errors="replace").read())


def core(pid, cases, thorough, san=False, per_entry=12):
    def go(ctx):
        rounds = 6 if ctx.thorough else 1
        for k in range(rounds):
            d = os.path.join(ctx.build, f"gen{k}")
            os.makedirs(d)
            shape_seed = ctx.seed * 1000 + k
            if ctx.replay:
                for line in open(ctx.replay, errors="replace"):
                    if line.startswith("# check:") and "shapes=" in line:
                        shape_seed = int(line.split("shapes=")[1].split()[0])
            n = JOBS
            subprocess.run([sys.executable, os.path.join(HERE, "core/gen_shapes.py"), str(shape_seed), pid, d, str(n),
                            str(per_entry)], check=True)
            src = [os.path.join(HERE, "core/core_main.cpp"), os.path.join(d, "locs.cpp")] + \
                  [os.path.join(d, f"shapes_{i}.cpp") for i in range(n)]
            fl = ["-std=c++20", "-D_GLIBCXX_ASSERTIONS"] + (SAN if san else [])
            exe = f"core{k}"
            ctx.compile(src, exe, flags=fl + ["-O0"], main_flags=fl + ["-O1"], include=[HERE + "/core"])
            if ctx.replay:
                return replay_engine(ctx, exe)
            ctx.engine(exe, pid, cases, thorough // rounds, part=f"{pid}-{k}", source=f"shapes={shape_seed}",
                       seed=ctx.seed * 100 + k)
    return go


def parted(pid, file, parts, cases, thorough, cxx="clang++", san=False, opt="-O0", include=(), per=None, link=(), **kw):
    """A check whose generated-input entries are spread over several translation units of one source file."""
    def go(ctx):
        srcs = []
        for k in [-1] + list(range(parts)):
            w = os.path.join(ctx.build, f"{os.path.basename(file)[:-4]}_{'main' if k < 0 else k}.cpp")
            with open(w, "w") as f:
                f.write(f"#define PART {k}\n#include \"{os.path.join(HERE, file)}\"\n")
            srcs.append(w)
        fl = ["-std=c++20", "-w", opt, "-D_GLIBCXX_ASSERTIONS"] + (SAN if san else [])
        ctx.compile(srcs, "exe", cxx=cxx, flags=fl, include=list(include), link=list(link))
        if ctx.replay:
            return replay_engine(ctx, "exe")
        ctx.engine("exe", pid, cases, thorough, **kw)
    return go


def single(pid, file, cases, thorough, cxx="clang++", san=False, opt="-O1", include=(), flags=(), **kw):
    """A check whose engine is one source file."""
    def go(ctx):
        fl = ["-std=c++20", "-w", opt, "-D_GLIBCXX_ASSERTIONS", *flags] + (SAN if san else [])
        ctx.compile([os.path.join(HERE, file)], "exe", cxx=cxx, flags=fl, include=list(include))
        if ctx.replay:
            return replay_engine(ctx, "exe")
        ctx.engine("exe", pid, cases, thorough, **kw)
    return go


def combine(**parts):
    """A check of several independent parts; a replay file names its part in its head line."""
    def go(ctx):
        base = ctx.build
        only = replay_tag(ctx, "part", None)
        for name, fn in parts.items():
            if only not in (None, name):
                continue
            ctx.build = os.path.join(base, name)
            ctx.tag = name
            os.makedirs(ctx.build, exist_ok=True)
            try:
                fn(ctx)
            finally:
                ctx.build, ctx.tag = base, None
    return go


def replay_tag(ctx, key, default):
    """The value recorded as key=... in the head line of the replay file."""
    if ctx.replay:
        for line in open(ctx.replay, errors="replace"):
            if line.startswith("# check:") and key + "=" in line:
                return line.split(key + "=")[1].split()[0]
    return default


def generated(pid, gen, main, include, cases, thorough, args=(), rounds=6, cxx="clang++", san=False, opt="-O0", std="-std=c++20", **kw):
    """A check over generated translation units: gen <seed> <dir> <units> <args>."""
    def go(ctx):
        n = rounds if ctx.thorough else 1
        for k in range(n):
            d = os.path.join(ctx.build, f"gen{k}")
            os.makedirs(d)
            gseed = int(replay_tag(ctx, "gen", ctx.seed * 1000 + k))
            subprocess.run([sys.executable, os.path.join(HERE, gen), str(gseed), d, str(JOBS), *map(str, args)], check=True)
            src = [os.path.join(HERE, main)] + sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))
            fl = [std, "-w", opt, "-D_GLIBCXX_ASSERTIONS"] + (SAN if san else [])
            exe = f"exe{k}"
            ctx.compile(src, exe, cxx=cxx, flags=fl, include=[os.path.join(HERE, i) for i in include])
            if ctx.replay:
                return replay_engine(ctx, exe)
            ctx.engine(exe, pid, cases, thorough // n, part=f"{pid}-{k}", source=f"gen={gseed}", seed=ctx.seed * 100 + k, **kw)
            os.remove(os.path.join(ctx.build, exe))
    return go


def script(module, fn="check"):
    """A check that generates programs: checks/<module>.py"""
    def go(ctx):
        import importlib.util
        spec = importlib.util.spec_from_file_location(module.replace("/", "_"), os.path.join(HERE, module + ".py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        getattr(m, fn)(ctx)
    return go


CHECKS = {
    "C01": core("C01", 250000, 12000000),
    "C02": core("C02", 200000, 12000000),
    "C03": core("C03", 250000, 12000000),
    "C04": core("C04", 250000, 12000000),
    "C05": core("C05", 250000, 12000000),
    "C06": core("C06", 250000, 12000000),
    "C07": generated("C07", "overload/gen_overload.py", "overload/overload_main.cpp", ["overload"], 200000, 6000000, args=[9]),
    "C08": generated("C08", "flow/gen_flow.py", "flow/flow_main.cpp", ["flow"], 100000, 4000000, args=[9, "C08"], san=True),
    "C09": generated("C09", "flow/gen_flow.py", "flow/flow_main.cpp", ["flow"], 100000, 4000000, args=[9, "C09"], san=True),
    "C10": parted("C10", "matchers/compare.cpp", 8, 1500000, 60000000),
    "C11": parted("C11", "matchers/strings.cpp", 8, 1500000, 60000000),
    "C12": parted("C12", "matchers/ranges.cpp", 8, 1500000, 60000000),
    "C13": parted("C13", "matchers/pure.cpp", 3, 250000, 10000000),
    "C14": generated("C14", "print/gen_types.py", "print/print_main.cpp", ["print"], 120000, 3000000, args=[24], san=True),
    "C15": parted("C15", "watch/watch.cpp", 8, 1100000, 40000000),
    "C16": parted("C16", "watch/watch.cpp", 8, 1100000, 40000000),
    "C17": generated("C17", "iface/gen_iface.py", "iface/iface_main.cpp", ["iface"], 300000, 6000000, args=[5]),
    "C18": core("C18", 250000, 12000000),
    "C19": single("C19", "unwind/unwind.cpp", 1200000, 60000000),
    "C20": script("adapter/adapter"),
    "C21": combine(core=core("C21", 50000, 2500000, san=True, per_entry=6),
                   life=generated("C21", "life/gen_life.py", "life/life_main.cpp", ["life"], 60000, 2000000, args=[9], san=True)),
    "C22": script("sig/sig"),
    "C23": core("C23", 200000, 12000000),
    "C24": single("C24", "threads/threads.cpp", 24000, 700000, flags=["-fsanitize=thread", "-g1"], hang=20),
    "C25": script("config/config"),
    "C26": combine(core=core("C26", 100000, 6000000),
                   print=generated("C26", "print/gen_types.py", "custom/print_main.cpp", ["custom", "print"], 100000, 2000000, args=[22, "custom"]),
                   match=generated("C26", "custom/gen_custom.py", "custom/match_main.cpp", ["custom"], 150000, 4000000, args=[30])),
    "C27": combine(core=core("C27", 180000, 8000000),
                   report=generated("C27", "report/gen_report.py", "report/report_main.cpp", ["report"], 180000, 6000000, args=[3], rounds=8),
                   equal=single("C27", "report/equal.cpp", 1000000, 40000000)),
    "C28": parted("C28", "catch/catch.cpp", 8, 1200000, 60000000, link=["-lCatch2"]),
}
