"""Writes MANIFEST.json; the claimed properties are those with a line here."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of MIR (sequence and trace domain, inductive loop summaries)"
SND = " Trusted: rustc's MIR, and the contracts of the std primitives listed in the evidence."
CLAIM = {
 "C01": (AI, "other", "Covers every value, length and closure for every FuncMap impl in all three feature tiers; anything not decided counts as a violation." + SND),
 "C02": (AI, "other", "Covers every value, length, closure and failure position for every TryFuncMap impl in all three feature tiers; anything not decided counts as a violation." + SND),
 "C03": (AI + " with unwind edges and drop accounting", "other", "Covers every length, every failing or panicking position; drop order is not part of the property." + SND),
 "C06": (AI, "other", "Covers the provided methods and every override in built-in impls." + SND),
 "C09": (AI + ", plus panic reachability", "other", "Panics inside std primitives other than the modelled ones (allocation failure, capacity overflow) are excluded." + SND),
}
CLAIM["C23"] = (AI, "other", "Covers every key type, closure and collision for every map, set and heap impl; what std's insertion then does is std's contract, from which the laws follow." + SND)
CLAIM["C24"] = ("resolution of every library item and construct of the type-checked program and of derived impls against rustc's stability attributes", "other", "Not covered: changes of type inference or of trait impls conditional on bounds, code that no feature tier compiles, and the dependencies' own minimum versions (chosen by the user's lock file). Rust 1.65 itself is not installed.")
HD = "query over the type-checked program (impl headers, trait solver, effective visibilities, crate graph)"
CLAIM.update({
 "C04": (HD, "proof", "Decides every impl header of the current tree in all three tiers; trusts rustc's type checker and the list of supported types."),
 "C05": (HD, "proof", "Every impl predicate is proved by rustc's trait solver from what building the output needs, or reported."),
 "C07": (HD, "proof", "Sealing by effective visibility, uninhabitedness by rustc's inhabitedness analysis."),
 "C08": (HD + ", type-checking of each tier", "proof", "Tiers are cargo feature sets of the current tree; same behaviour means same header and same verdict of the behavioural analyses."),
})
TV = "translation validation of the derive: the current macro is applied to enumerated definitions and "
DT = " Sound for each definition enumerated; the definitions themselves are a bounded, systematic sample of the grammar (deeper and more random in the thorough tier). Trusted: rustc, and that nested types keep the traits' contract."
CLAIM.update({
 "C11": (TV + "every generated impl is abstractly interpreted on MIR against the type-checked definition", "translation_validation", "All values and closures per definition." + DT),
 "C12": (TV + "every generated impl is abstractly interpreted on MIR against the type-checked definition", "translation_validation", "All values, closures and failure positions per definition." + DT),
 "C13": (TV + "the impl headers of the type-checked result are compared with the selection", "translation_validation", DT.strip()),
 "C14": (TV + "the impl predicates of the type-checked result are decided by rustc's trait solver", "translation_validation", DT.strip()),
})
RJ = "type-checking of enumerated compile-fail witnesses against the current macro: verdict, message and span of every diagnostic; "
CLAIM.update({
 "C15": (TV + "names in and around the definition are chosen to collide with whatever the macro chooses or refers to; the result is type-checked and abstractly interpreted", "translation_validation", DT.strip()),
 "C16": (TV + "in crates where funcmap is only reachable through the given path; the result is type-checked and abstractly interpreted", "translation_validation", DT.strip()),
 "C17": (RJ + "with a Drop impl there must be an error at the type and its Drop impl, without one none", "exploration", DT.strip()),
 "C18": (RJ + "every unsupported construct at every depth, for both macros", "exploration", DT.strip()),
 "C19": (RJ + "combinations of errors must give exactly the expected set, in order, and no impl", "exploration", DT.strip()),
 "C22": ("type-checking and linting of enumerated definitions with and without the current derive: no diagnostic may appear only with it", "exploration", "Definitions are a bounded sample; lints are those of the project's compiler (and of current stable in the thorough tier)."),
})
MR = "dataflow rules over the MIR of the macro crate "
CLAIM["C19"] = (RJ + "combinations of errors must give exactly the expected set, in order, and no impl; " + MR + "(drop elaboration): no error value is dropped", "exploration", DT.strip())
CLAIM.update({
 "C20": (MR + "(panic-capable call sites and checked operations, constant propagation, guards, origin of identifier texts), and expansion of enumerated odd definitions during type-checking", "other", "The rule covers every site of the current tree, relative to the documented panics of its dependencies; a site that is not discharged counts as a violation."),
 "C25": (MR + "(size-change principle over its call graph, drivers of its loops, candidates of its endless searches)", "proof", "Every loop, recursive call and endless iterator of the macro crate; its dependencies are trusted to return, and stack depth proportional to the nesting of an item is not counted."),
 "C21": (MR + "(sources of nondeterminism, hash-order iteration, surviving state)", "proof", "Every call, cast and static of the macro crate; dependencies are trusted to be deterministic."),
})
NA = {
}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./check --setup", "checks": [], "not_applicable": [],
     "notes": "One driver (driver/, a rustc wrapper) and one command (./check ID). See DESIGN.md."}
for p in props:
    if p in CLAIM:
        t, l, n = CLAIM[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"./check {p}", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
