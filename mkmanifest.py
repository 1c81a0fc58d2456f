import json
NA = {}
T = "contract-based deductive verification (Verus) of the code extracted from /repo on every run"
NOTES = {
 'C01': "DenseNodeIter::{new,next}, DenseNode::{id,nano_*} and the generated granularity/offset accessors",
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
CLAIMED = open('/verif/claimed.txt').read().split()
checks = []
na = []
for p in props:
    i = p['id']
    if i not in CLAIMED:
        na.append(dict(property=i, reason=NA.get(i, "contracts for this property are still being built")))
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=T, level="proof",
        level_note="Every obligation of the functions this property depends on is discharged by Verus for all inputs and iterations, on the text extracted from /repo's current tree. "
        "Assumed: the contracts on dependencies in contracts/dep.rs (protobuf parsing, flate2, std::io, memmap2, iterators; see DESIGN.md), tested on the real crate by a bounded conformance run. "
        "If a function leaves the verifier's reach on a changed tree, the bounded run stands in and the evidence says so."))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the extractor reads the sources and the harness uses the public API."), open('/verif/MANIFEST.json', 'w'), indent=1)
