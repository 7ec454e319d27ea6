#!/usr/bin/env python3
"""Generates builder chains ("shapes") for the core harness: gen_shapes.py SEED PROFILE OUTDIR FILES PER_ENTRY"""
import random, sys, os

# name, kind, coll, params, str, byref, void, call-expression prefix
ENTRIES = [
    dict(m="M0", n=1, obj="m"), dict(m="M1", n=1, obj="m"), dict(m="M1", n=1, obj="std::as_const(m)"),
    dict(m="M2", n=1, obj="m"), dict(m="M2", n=1, obj="std::as_const(m)"), dict(m="M2", n=1, obj="std::move(m)"),
    dict(m="M2", n=1, obj="std::move(std::as_const(m))"),
    dict(m="M3", n=2, obj="m"), dict(m="M3", n=1, obj="m", str=True), dict(m="M3", n=0, obj="m", void=True),
    dict(m="M4", n=2, obj="std::as_const(m)", ref=True),
]
# kinds, in step with core.hpp
RQ = ["Wild","Direct","Eq","Ne","Lt","Le","Gt","Ge","NotEq","NotLt","NotNotLe","Pred","NotPred","Dyn","Trait","ProjEq",
      "StrEq","StrStarts","StrEnds","StrContains","StrNotContains"]
RQI = {n: i for i, n in enumerate(RQ)}
FN = ["Returns","ReturnsRef","ResultOf","Apply","ApplyAll","Arg","Throws","Custom","None"]
FNI = {n: i for i, n in enumerate(FN)}

PROFILES = {
    # probabilities: seq, pol (chained requirement), custom policy, effects, dyn matchers
    "C01": dict(seq=.35, P=.4, Q=.25, E=.3, dyn=.15, times=.75),
    "C02": dict(seq=.15, P=.15, Q=.1, E=.3, dyn=.05, times=.95, wild=.6),
    "C03": dict(seq=0, P=.2, Q=.1, E=.2, dyn=.1, times=.75, wild=.5),
    "C04": dict(seq=.9, P=.1, Q=.05, E=.1, dyn=.05, times=.75, wild=.6),
    "C05": dict(seq=.85, P=.1, Q=.05, E=.1, dyn=.05, times=.9, wild=.85),
    "C06": dict(seq=.4, P=.3, Q=.2, E=.3, dyn=.2, times=.75),
    "C18": dict(seq=.3, P=.4, Q=.3, E=.3, dyn=.65, times=.75),
    "C21": dict(seq=.5, P=.4, Q=.3, E=.5, dyn=.3, times=.75),
    "C23": dict(seq=.35, P=.2, Q=.2, E=.9, dyn=.1, times=.85, wild=.5),
    "C26": dict(seq=.25, P=.5, Q=.8, E=.4, dyn=.5, times=.75, trait=.4),
    "C27": dict(seq=.5, P=.5, Q=.35, E=.3, dyn=.2, times=.8),
}

class Gen:
    def __init__(self, rnd, prof):
        self.r = rnd; self.p = prof

    def req(self, e, chained, arg, slot):
        r = self.r
        if e.get("str"):
            kinds = ["Wild","Direct","StrEq","StrStarts","StrEnds","StrContains","StrNotContains","Dyn"]
            if chained: kinds.remove("Direct")
            k = "Dyn" if r.random() < self.p["dyn"] else r.choice(kinds)
        else:
            kinds = ["Direct","Eq","Ne","Lt","Le","Gt","Ge","NotEq","NotLt","NotNotLe","Pred","NotPred"]
            if chained: kinds[0] = "ProjEq"
            x = r.random()
            if x < self.p["dyn"]: k = "Dyn"
            elif r.random() < self.p.get("trait", .08): k = "Trait"
            elif r.random() < self.p.get("wild", .3): k = "Wild"
            else: k = r.choice(kinds)
        q = f"s.rq[{slot}]"
        v = r.choice([f"{q}.v", f"int{{{q}.v}}", f"std::as_const({q}.v)"])
        sv = r.choice([f"{q}.s", f"std::string{{{q}.s}}", f"std::as_const({q}.s)"])
        pred = f"MaskPred{{&w, {q}.mask}}"
        ex = {
            "Wild": r.choice(["matches::_", "matches::_"]),
            "Direct": sv if e.get("str") else v,
            "Eq": f"matches::eq({v})", "Ne": f"matches::ne({v})", "Lt": f"matches::lt({v})", "Le": f"matches::le({v})",
            "Gt": f"matches::gt({v})", "Ge": f"matches::ge({v})", "NotEq": f"!matches::eq({v})",
            "NotLt": f"!matches::lt({v})", "NotNotLe": f"!!matches::le({v})",
            "Pred": f"matches::predicate({pred})", "NotPred": f"!matches::predicate({pred})",
            "Dyn": f"DynMatcher{{&w, {q}.mask, {q}.throwMask, {q}.throwKind, {q}.id}}",
            "Trait": f"TraitMatcher{{&w, {q}.mask, {q}.id}}",
            "ProjEq": f"matches::eq({v})",
            "StrEq": f"matches::str::eq({sv})", "StrStarts": f"matches::str::starts_with({sv})",
            "StrEnds": f"matches::str::ends_with({sv})", "StrContains": f"matches::str::contains({sv})",
            "StrNotContains": f"!matches::str::contains({sv})",
        }[k]
        return k, ex

    def shape(self, ei):
        r, p, e = self.r, self.p, ENTRIES[ei]
        elems = []; args = []; nreq = 0
        for i in range(e["n"]):
            k, ex = self.req(e, False, i, nreq)
            elems.append(("A", RQI[k], nreq, i, 0)); args.append(ex); nreq += 1
        chain = []
        if r.random() < p["times"]:
            kind = r.choices([1,2,3,4,5,6], [4,2,2,2,1,1])[0]
            ex = {1: "expect::times(s.times.a, s.times.b)", 2: "expect::times(s.times.a)", 3: "expect::at_least(s.times.a)",
                  4: "expect::at_most(s.times.a)", 5: "expect::once()", 6: "expect::twice()"}[kind]
            chain.append([("T", kind, 0, 0, 0), ex])
        seqslot = 0
        if r.random() < p["seq"]:
            for _ in range(r.choices([1,2], [4,1])[0]):
                n = r.choices([1,2,3], [5,3,1])[0]
                greedy = 0; parts = []
                for j in range(n):
                    g = r.random() < .45
                    if g: greedy |= 1 << j
                    parts.append(f"*w.{'greedy' if g else 'lazy'}[s.seq[{seqslot+j}]]")
                f = "in_sequence" if n == 1 else "in_sequences"
                chain.append([("S", 0, seqslot, n, greedy), f"expect::{f}({', '.join(parts)})"])
                seqslot += n
        if e["n"]:
            while r.random() < p["P"]:
                a = r.randrange(e["n"])
                k, ex = self.req(e, True, a, nreq)
                proj = ", Mod3{}" if k == "ProjEq" else ""
                chain.append([("P", RQI[k], nreq, a, 0), f"expect::arg<{a}>({ex}{proj})"]); nreq += 1
                if nreq > e["n"] + 2: break
        npol = 0
        while r.random() < p["Q"] and npol < 2:
            chain.append([("Q", 0, npol, 0, 0), f"DynPolicy{{&w, s.pol[{npol}], s.id, QSLOT}}"]); npol += 1
        neff = 0
        while r.random() < p["E"] and neff < 3:
            kinds = [0] + ([1, 2, 3] if e["n"] else [])
            k = r.choice(kinds); a = b = 0
            fn = f"Effect{{&w, s.id, ESLOT}}"
            if k == 0: ex = f"then::invoke({fn})"
            elif k == 1: a = r.randrange(e["n"]); ex = f"then::apply_arg<{a}>({fn})"
            elif k == 2:
                if e["n"] == 1: a = 0; b = r.choice([-1, 0]); ex = f"then::apply_args<0>({fn})" if b < 0 else f"then::apply_args<0, 0>({fn})"
                else:
                    a, b = r.choice([(0,1),(1,0),(0,0),(1,1),(0,-1),(1,-1)])
                    ex = f"then::apply_args<{a}>({fn})" if b < 0 else f"then::apply_args<{a}, {b}>({fn})"
            else: ex = f"then::apply_all({fn})"
            chain.append([("E", k, neff, a, b), ex]); neff += 1
        # outcome
        exact = f"Exc{{s.finV}}"
        if e.get("void"):
            k = r.choice(["None", "None", "Throws", "Custom"])
            ex = {"Throws": f"finally::throws({exact})", "Custom": "CustomFinal{&w, s.id}", "None": None}[k]; a = b = 0
        else:
            ks = ["Returns", "ResultOf", "Throws", "Custom"]
            if e["n"]: ks += ["Apply", "ApplyAll"] + ([] if e.get("str") else ["Arg"])
            if e.get("ref"): ks.remove("Returns"); ks.append("ReturnsRef")
            k = r.choices(ks, [4 if x in ("Returns", "ReturnsRef") else (1 if x == "Throws" else 2) for x in ks])[0]
            F = "FinalRef" if e.get("ref") else "Final"
            a = b = 0
            if k == "Returns": ex = r.choice(["finally::returns(s.finV)", "finally::returns(int{s.finV})", "finally::returns(std::as_const(s.finV))"])
            elif k == "ReturnsRef": ex = "finally::returns(std::ref(w.cells[s.finV % 8]))"
            elif k == "ResultOf": ex = f"finally::returns_result_of({F}{{&w, s.id}})"
            elif k == "Apply":
                a = r.randrange(e["n"]); b = r.choice([-1] + list(range(e["n"])))
                ix = f"{a}" if b < 0 else f"{a}, {b}"
                ex = f"finally::returns_apply_result_of<{ix}>({F}{{&w, s.id}})"
            elif k == "ApplyAll": ex = f"finally::returns_apply_all_result_of({F}{{&w, s.id}})"
            elif k == "Arg": a = 0 if e.get("ref") else r.randrange(e["n"]); ex = f"finally::returns_arg<{a}>()"
            elif k == "Throws": ex = f"finally::throws({exact})"
            else: ex = "CustomFinal{&w, s.id}"
        if ex is not None: chain.append([("F", FNI[k], 0, a, b), ex])
        else: elems.append(("F", FNI[k], 0, 0, 0))
        r.shuffle(chain)
        # custom policies and effects are numbered in written order
        ne = nq = nr = 0; out = []
        slot = 0
        for el, ex in chain:
            el = list(el)
            if el[0] == "E": el[2] = ne; ex = ex.replace("ESLOT", str(slot)); ne += 1; el_slot = slot; slot += 1
            elif el[0] == "Q": ex = ex.replace("QSLOT", str(slot)); slot += 1
            out.append((tuple(el), ex))
        # re-number: Elem.slot indexes spec arrays; effects carry their position among effects+policies at run time
        elems += [el for el, _ in out]
        expr = f"{e['obj']}.expect_call({', '.join(args)})" + "".join(f"\n\t\t\t\t&& {ex}" for _, ex in out)
        text = f"{e['obj']}.expect_call({', '.join(args)})" + "".join(f" && {ex}" for _, ex in out)
        for u, v in (("matches::", ""), ("expect::", ""), ("finally::", ""), ("then::", ""), ("&w, ", ""), ("std::", "")):
            text = text.replace(u, v)
        return ei, elems, expr, text

def main():
    seed, profile, outdir, files, per = int(sys.argv[1]), sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
    rnd = random.Random(f"{seed}/{profile}")
    g = Gen(rnd, PROFILES[profile])
    out = [[] for _ in range(files)]
    k = 0
    for ei in range(len(ENTRIES)):
        for _ in range(per):
            ei2, elems, expr, text = g.shape(ei)
            m = ENTRIES[ei]["m"]
            els = ", ".join(f"{{'{c}', {kk}, {s}, {a}, {b}}}" for c, kk, s, a, b in elems)
            out[k % files].append(
                f"\t\t{{{ei}, {{{els}}},\n\t\t\t+[]([[maybe_unused]] World& w, void* p, [[maybe_unused]] Spec& s) {{\n"
                f"\t\t\t\tauto& m = *static_cast<{m}*>(p);\n"
                f"\t\t\t\treturn std::make_unique<mimicpp::ScopedExpectation>({expr}, kLoc[s.id % locCount]); }},\n"
                f"\t\t\t\"{text}\"}},\n")
            k += 1
    for i in range(files):
        with open(os.path.join(outdir, f"shapes_{i}.cpp"), "w") as f:
            f.write('#include "core.hpp"\nnamespace matches = mimicpp::matches;\nnamespace expect = mimicpp::expect;\nnamespace finally = mimicpp::finally;\nnamespace then = mimicpp::then;\n')
            f.write("namespace core\n{\n\tstatic const AddShapes add{{\n" + "".join(out[i]) + "\t}};\n}\n")
    with open(os.path.join(outdir, "locs.cpp"), "w") as f:
        f.write('#include "core.hpp"\nnamespace core\n{\n\tconst std::source_location kLoc[locCount] = {\n')
        for i in range(512): f.write("\t\tstd::source_location::current(),\n")
        f.write("\t};\n}\n")
main()
