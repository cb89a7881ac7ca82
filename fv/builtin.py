"""C01, C02, C03, C06, C09: abstract interpretation of the impls' MIR, done by the driver."""
from .common import Broken, Report, TIERS, analyse

TRUST = [
    "rustc's MIR construction and type checker (nightly)",
    "the contracts of the std containers' own iterators, FromIterator/Extend/insert and conversions listed under primitives",
]


KEYED = ("BTreeMap", "BTreeSet", "HashMap", "HashSet", "BinaryHeap", "btree_map::", "btree_set::", "hash_map::", "hash_set::", "binary_heap::")


def run(prop, aspect, level="other", only=None):
    rep = Report(prop, level)
    aspects = (aspect,) if isinstance(aspect, str) else aspect
    todo, inl, prims, loops, funcs = [], set(), set(), [], []
    steps = exits = ok = 0
    for tier, checked in [(t, True) for t in TIERS] + [("std", False)]:
        recs = [r for r in analyse(tier, checked=checked) if r["kind"] == "fn" and r["aspect"] in aspects]
        if only:
            recs = [r for r in recs if any(k in r["fn"].split(" for ")[-1] for k in only)]
        if not recs and tier == "std":
            raise Broken(f"nothing to analyse for {aspect}")  # a smaller tier without impls is for C08 to report
        for r in recs:
            todo.append(r)
            inl.update(r["inlined"])
            prims.update(r["prims"])
            steps += r["steps"]
            exits += r["exits"]
            funcs.append(f"{tier}{'' if checked else ', debug assertions off'}: {r['fn']} ({r['def']})")
            for l in r["loops"]:
                if len(loops) < 5 and l not in loops:
                    loops.append(l)
            if r["status"] == "ok":
                ok += 1
            else:
                what = r["msg"] if r["status"] == "violation" else "cannot be established: " + r["msg"]
                rep.violation(r["fn"], f"{r['fn']}{'' if checked else ' (debug assertions off)'}: {what}", r["at"], r)
    rep.coverage = {
        "explanation": EXPL[prop],
        "obligations": len(todo),
        "discharged": ok,
        "exits_checked": exits,
        "mir_steps": steps,
        "functions": funcs,
        "inlined_callees": sorted(inl),
        "primitives": sorted(prims),
        "loop_invariants": loops,
        "samples": [todo[0]["fn"], todo[-1]["fn"]],
    }
    rep.assumptions = TRUST
    return rep.finish()


EXPL = {
    "C01": "Every FuncMap impl method is interpreted over an abstract domain of symbolic values, sequences with symbolic length and closure-call traces, on MIR, callees inlined, loops closed by inductive generalisation; on every exit the closure-call trace and the result must equal those of the functorial action on the parameter.",
    "C02": "As C01 for every TryFuncMap impl method, each closure call splitting into success and failure; on every exit the trace must be that of the functorial action cut at the first failure, and the result its error, or the complete mapped value.",
    "C03": "The array impls (and array::try_map) interpreted with unwinding and drops: on every normal, error and unwinding exit each input slot is consumed or dropped exactly once, each produced output is in the result or dropped exactly once, and no uninitialised slot is dropped, read or returned.",
    "C06": "The provided *_over methods, and any override of them in an impl, are interpreted and must delegate to the plain method of the same receiver, marker and closure exactly once and return its result unchanged.",
    "C23": "The impl methods for maps, sets and heaps (and their consuming iterators) are interpreted as in C01 and C02; on every successful exit the result must be exactly std's own collection of the mapped entries, each once, in iteration order, so collisions and order are settled by std's insertion, and both functor laws follow from std's contract (distinct keys on input; a permutation-independent result where the closures are injective).",
    "C09": "Every impl method is interpreted; no path may end in a panic, abort or never-returning call of its own, and every loop must have a measure bounded by the input's length.",
}
CHECKS = {
    "C01": lambda: run("C01", "map"),
    "C02": lambda: run("C02", "try"),
    "C03": lambda: run("C03", "mem"),
    "C06": lambda: run("C06", "over"),
    "C09": lambda: run("C09", "panic"),
    "C23": lambda: run("C23", ("map", "try"), only=KEYED),
}
