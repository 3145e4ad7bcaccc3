"""writes MANIFEST.json: python3 tools/gen_manifest.py"""
import json
T = {
 "C01": "reference-model monitor: every answer and the contents compared with std::collections::BTreeMap over random histories of sharing maps",
 "C02": "reference-model monitor on every other handle after each operation of histories over sharing collections",
 "C03": "the crate's invariant check after every operation, and online counting of key comparisons against a logarithmic bound",
 "C04": "online counting of element copies, allocations and live elements against bounds in the height of the tree",
 "C05": "conservation monitor: identity registry of instrumented elements (created, used, dropped)",
 "C06": "step-by-step iterator monitor against the expected sequence, both ends, with announced lengths",
 "C07": "step-by-step range iterator monitor against std's range on random bounds",
 "C08": "reference-model monitor of bulk operations against std's maps",
 "C09": "reference-model monitor of set algebra against std's sets",
 "C10": "reference-model monitor: every answer and the contents compared with std::collections::BTreeSet",
 "C11": "reference-model monitor: every answer and the contents compared with vectors",
 "C12": "call-stack monitor: very long stacks on threads with a small call stack, and stack depth measured inside element drops, clones and comparisons",
 "C13": "instrumented data format: announces any size, fails at any point, logs calls; contents compared with std; allocation and element conservation",
 "C14": "ThreadSanitizer and Miri (many schedules) over concurrent use of sharing collections with per-thread reference models and an atomic element registry; compile-time Send/Sync probe",
 "C15": "Miri (Stacked and Tree Borrows) and AddressSanitizer with leak checking over random histories of many element layouts",
 "C16": "panic injection at each call of user code, with identity registry, reference models, AddressSanitizer and Miri as oracles",
 "C17": "reference-model monitor of comparison, hashing and debug text against sequences of elements",
}
CLAIMED = open("/verif/tools/claimed.txt").read().split()
NOTE = "Held on the executions observed (numbers in the evidence file), which random and directed histories produce; not a proof. Trusts the compiler, std's collections and the sanitizers."
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough", technique=T[i], level="exploration", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="its monitor is not finished yet"))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na), open("/verif/MANIFEST.json", "w"), indent=1)
