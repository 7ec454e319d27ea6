"""Build, run and report helpers shared by all checks (see run.py)."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MIMICPP_REPO", "/repo")
INCLUDE = REPO + "/include"
JOBS = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    """The check itself could not do its work (neither pass nor violation)."""


class Violation(Exception):
    def __init__(self, replay, text=""):
        super().__init__(text)
        self.replay = replay
        self.text = text


class Ctx:
    def __init__(self, pid, tier, seed, level="exploration"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.thorough = tier == "thorough"
        self.build = os.path.join(VERIF, "build", pid)
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build)
        self.replays = os.path.join(VERIF, "replays")
        os.makedirs(self.replays, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = 0
        self.rules = []
        self.samples = []
        self.labels = {}
        self.parts = {}
        self.assumptions = []
        self.notes = []
        self.violations = []
        self.known_seen = set()
        self.tag = None  # part of a combined check

    # ---- results -----------------------------------------------------------------------------------------
    def add(self, part, evaluations, nontrivial, rule, samples, labels=None, wall=None):
        self.evaluations += evaluations
        self.nontrivial += nontrivial
        if rule and rule not in self.rules:
            self.rules.append(rule)
        self.samples += samples[:3]
        for k, v in (labels or {}).items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.parts[part] = {"evaluations": evaluations, "distinct_nontrivial": nontrivial,
                            **({"wall_s": round(wall, 2)} if wall is not None else {})}

    def violation(self, name, text):
        path = os.path.join(self.replays, f"{self.pid}-{name}.replay")
        with open(path, "w") as f:
            f.write(text)
        raise Violation(path, text)

    def evidence(self, violations):
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": self.nontrivial,
               "rule": " | ".join(self.rules) or "none", "samples": [s[:3000] for s in self.samples[:8]],
               "parts": self.parts, "labels": dict(sorted(self.labels.items()))}
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    # ---- building ----------------------------------------------------------------------------------------
    def _one(self, job):
        cmd, log = job
        for attempt in range(2):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 0:
                return None
            if r.returncode in (1, 2) and "Killed" not in r.stdout and "internal compiler error" not in r.stdout \
                    and "No space left" not in r.stdout and "cannot allocate" not in r.stdout.lower():
                break
            time.sleep(3)
        return (cmd, r.returncode, r.stdout)

    def compile(self, sources, out, cxx="g++", flags=(), main_flags=None, link=(), include=(), jobs=None):
        """Compiles sources in parallel and links them; compile errors are violations (the sources only use the
        public interface and compile on the unchanged tree)."""
        errors = self.try_compile(sources, out, cxx, flags, main_flags, link, include, jobs)
        if errors:
            self.compile_violation(errors)

    def compile_violation(self, errors):
        self.sanity(errors[0][0][0])
        cmd, rc, log = errors[0]
        src = [a for a in cmd if a.endswith(".cpp")]
        text = "# the program below no longer compiles against /repo/include\n# " + " ".join(cmd) + "\n" + log[:6000] + "\n"
        for s in src[:1]:
            text += "--- " + s + "\n" + open(s, errors="replace").read()[:200000]
        self.violation("compile" + (f"-{self.tag}" if self.tag else ""), text)

    def sanity(self, cxx):
        p = os.path.join(self.build, "sanity.cpp")
        with open(p, "w") as f:
            f.write("#include <vector>\n#include <format>\nint main(){ std::vector<int> v{1}; return v.size() == 1 ? 0 : 1; }\n")
        r = subprocess.run([cxx, "-std=c++20", p, "-o", p + ".exe"], capture_output=True, text=True, errors="replace")
        if r.returncode != 0:
            raise CheckError("the compiler does not work: " + r.stderr[:500])

    def try_compile(self, sources, out, cxx="g++", flags=(), main_flags=None, link=(), include=(), jobs=None):
        inc = ["-I" + INCLUDE] + ["-I" + i for i in include]
        todo, objs = [], []
        for s in sources:
            o = os.path.join(self.build, os.path.basename(out) + "." + os.path.basename(s) + ".o")
            objs.append(o)
            fl = list(main_flags) if main_flags is not None and s == sources[0] else list(flags)
            todo.append(([cxx, *fl, *inc, "-c", s, "-o", o], None))
        with ThreadPoolExecutor(jobs or JOBS) as ex:
            res = [r for r in ex.map(self._one, todo) if r]
        if res and any(r[1] not in (1, 2) for r in res):
            # killed (memory): once more, one at a time
            res = [r for r in map(self._one, todo) if r]
        if res:
            return res
        r = self._one(([cxx, *list(flags), *objs, *link, "-o", os.path.join(self.build, out)], None))
        return [r] if r else []

    # ---- running the engine ------------------------------------------------------------------------------
    def engine(self, binary, name, cases=None, thorough_cases=None, seed=None, part=None, env=None, max_seconds=500,
               hang=60, jobs=None, source="", min_fraction=0.5):
        """Runs one property of an engine binary and merges its statistics."""
        part = part or name
        if self.tag:
            part = f"{self.tag}-{part}"
            source = f"part={self.tag} {source}"
        exe = binary if os.path.isabs(binary) else os.path.join(self.build, binary)
        out = os.path.join(self.build, "out-" + part)
        os.makedirs(out, exist_ok=True)
        n = thorough_cases if self.thorough and thorough_cases else cases
        cmd = [exe, "--name", name, "--seed", str(self.seed if seed is None else seed), "--out", out,
               "--jobs", str(jobs or JOBS), "--max-seconds", str(max_seconds * (6 if self.thorough else 1)), "--hang", str(hang)]
        if self.thorough:
            cmd.append("--thorough")
        if n:
            cmd += ["--cases", str(n)]
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1",
                 TSAN_OPTIONS="halt_on_error=1")
        e.update(env or {})
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e)
        stats = os.path.join(out, name + ".stats.json")
        if not os.path.exists(stats):
            raise CheckError(f"{name}: engine ended with {r.returncode}: {r.stdout[-2000:]}")
        st = json.load(open(stats, errors="replace"))
        self.add(part, st["evaluations"], st["distinct_nontrivial"], st["rule"], st["samples"], st["labels"], st["wall_s"])
        self.known_seen |= set(st["known"])
        if st["violations"]:
            text = open(st["replay"], errors="replace").read()
            self.violation(part, f"# check: {self.pid}  {source}\n" + text)
        if st["unreproduced"]:
            self.notes.append(f"{part}: {st['unreproduced']}")
            print(f"note: {part}: {st['unreproduced']}")
            if st["evaluations"] < min_fraction * st["requested"]:
                raise CheckError(f"{part}: not reproducible and incomplete: {st['unreproduced']}")
        return st


def parallel(fn, items, jobs=None):
    with ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(fn, items))


def run(cmd, timeout=120, env=None, cwd=None, stdin=None):
    """Runs a command; returns (rc, output), rc None on timeout."""
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout, env=env, cwd=cwd, input=stdin)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return None, o.decode(errors="replace") if isinstance(o, bytes) else o
