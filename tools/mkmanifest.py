#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks registered in lib/checks.py."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "lib"))
import checks

TECH = {
    "C01": "runtime monitoring: reference-dictionary oracle over generated key sets, with debug and overflow assertions on",
    "C02": "runtime monitoring: reference-set oracle over generated value lists",
    "C03": "runtime monitoring: generated macro programs compiled and run under a reference-dictionary oracle",
    "C04": "runtime monitoring: generated emitter configurations, output compiled and run under a reference-dictionary oracle",
    "C05": "runtime monitoring: online checker of traversal traces (stepping, bounds, clones, folds)",
    "C06": "runtime monitoring: histories of changes mirrored on a reference dictionary",
    "C07": "runtime monitoring: set-algebra results and bounds against reference sets",
    "C08": "runtime monitoring: equality, conversion and rendering observations against reference dictionaries",
    "C09": "runtime monitoring: round trips and corrupted or hostile input with an allocation monitor",
    "C10": "sanitizers: Miri (Stacked and Tree Borrows), AddressSanitizer and library precondition checks under hostile workloads",
    "C11": "runtime monitoring: per-object lifetime ledger with panics injected at every callback, plus Miri/LeakSanitizer",
    "C12": "runtime monitoring: index observations, exhaustive for small types, and generated enums",
    "C13": "sanitizers: ThreadSanitizer and Miri race detection over concurrent readers, with result oracle",
    "C14": "runtime monitoring: counting allocator and result oracle around construction",
    "C15": "runtime monitoring: comparison and hash counters in the key types",
    "C16": "runtime monitoring: differential observation of all implementations through the traits",
    "C17": "runtime monitoring: recorded observations of one workload compared across feature builds",
    "C19": "runtime monitoring: random and mangled macro input, with an independent reading of it as oracle and a conservation check on the expansion",
    "C20": "runtime monitoring: counting allocator behind every read, and the types and first uses of generated statics",
    "C18": "runtime monitoring: codes observed across forms and variants, with a checker that code and named part determine one another",
}
NOTE = "Held on the executions produced (counts and samples in the evidence file), not proved. "
NOTES = {
    "C01": "Trusts std BTreeMap as the dictionary.",
    "C02": "Trusts std BTreeSet.",
    "C03": "Trusts rustc and the expected contents written by the generator; five known findings are listed in known_findings.txt.",
    "C04": "Trusts rustc and the expected contents written next to each emitter call.",
    "C05": "Trusts the entries found by lookups in the reference dictionary.",
    "C06": "Trusts std BTreeMap as the mirror.",
    "C07": "Trusts std BTreeSet algebra.",
    "C08": "Trusts std BTreeMap equality.",
    "C09": "Trusts serde_json, bincode, ciborium and ron.",
    "C10": "Miri and AddressSanitizer see only what the workload executes; aliasing models are Miri's.",
    "C11": "The ledger sees only instrumented keys and values.",
    "C12": "Exhaustive for 8- and 16-bit types and generated enums; boundary-dense samples for wider ones.",
    "C13": "Race detection covers the interleavings produced; Send and Sync are checked by compilation.",
    "C14": "Memory bounds are generous linear bounds, so only superlinear use is reported.",
    "C15": "Bounds are generous, averages over many lookups of seeded key sets.",
    "C16": "Trusts std BTreeMap as the dictionary.",
    "C17": "Feature sets of the core crate that build offline.",
    "C19": "Trusts syn to parse types and expressions, in the oracle too.",
    "C20": "The allocator is the only source of memory watched; statics whose keys or values are not constant expressions are left to C03.",
    "C18": "A 64-bit mixing hasher stands for one that tells parts apart.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "none", "enable": "No hooks: everything is observed through the public interface, so the checks build /repo as it is. The commits in /repo are unguarded fix: commits.", "source_commits": []},
    "checks": [
        {
            "property": p,
            "quick_cmd": f"python3 run.py {p} quick",
            "thorough_cmd": f"python3 run.py {p} thorough",
            "technique": TECH[p],
            "level": "exploration",
            "level_note": NOTE + NOTES[p],
        }
        for p in props
        if p in checks.CHECKS
    ],
    "not_applicable": [{"property": p, "reason": "The family applies, but the check is still being built."} for p in props if p not in checks.CHECKS],
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks")
