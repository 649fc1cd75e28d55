"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
HIST = "stateful property-based testing: generated call histories against a reference model, choice-sequence shrinking"
PROG = "property-based testing over generated Rust programs compiled against the tree, with a generated specification as oracle, choice-sequence shrinking"
TECH = {
    "P06": "property-based testing: metamorphic pairs of histories with equal contents, choice-sequence shrinking",
    "P10": "property-based testing of call histories under AddressSanitizer, std precondition checks and a guard-byte allocator; differential over the contents of fresh memory; Miri (thorough)",
    "P11": "differential property-based testing: one generated history on all vector types",
    "P13": "property-based testing with injected faults: panicking callbacks and misreporting iterators at generated points",
    "P27": "property-based testing: generated call histories under an accounting allocator, reallocation counts against a logarithmic bound, choice-sequence shrinking",
    "P28": "property-based testing: metamorphic comparison of processor time between short and long vectors at generated positions",
    "P15": "property-based testing over generated programs with an expected compiler verdict",
    "P30": "property-based testing over generated programs with an expected compiler verdict",
    "P31": "property-based testing: the harness and the generated programs of the other properties in 32-bit builds, choice-sequence shrinking",
    "P21": "property-based testing: generated access scripts against a counting model",
    "P22": "property-based testing: round trips and comparisons against encodings",
}
NOTE = "Sampled, not exhaustive: nothing is shown about cases not generated. Every case is judged by an oracle independent of the code under test; counts are in the evidence file. "
NOTES = {
    "P28": "Processor time of the thread, not wall time; an expensive call counts only if it is expensive 13 (6) times in a row, and limits lie far above what the unchanged tree needs, so costs within these margins go unseen.",
    "P10": "Undefined behaviour with no effect on results, guard bytes, AddressSanitizer or (thorough tier) Miri goes unseen; Miri runs without Stacked Borrows because smallvec 0.6 violates it.",
    "P15": "Debug and optimised builds; a rejected program's twin with a fitting type is compiled whenever the reason of the rejection is unclear.",
    "P30": "Debug and optimised builds; a rejected program's twin with a fitting type is compiled whenever the reason of the rejection is unclear.",
    "P31": "i686 only, with a standard library built from source (nightly); AddressSanitizer, threads and timing are not repeated there. Trusts the harness's model and element types.",
    "P19": "Type definitions outside what syn 0.12 parses are recorded findings (known_findings.txt) and are not generated.",
}
checks = []
for p in ids:
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "technique": TECH.get(p, PROG if p in props.PROGRAMS else HIST),
        "level": "exploration",
        "level_note": NOTE + NOTES.get(p, "Trusts the harness's model and element types."),
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public API. Replay: python3 check.py replay FILE."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
