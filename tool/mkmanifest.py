"""writes MANIFEST.json from the tables below and properties.jsonl"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "path-sensitive abstract interpretation of LLVM IR (ownership/typestate of nodes, legal-transition table for every exchange)"
CLAIMED = {i: AI for i in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C18 C19 C22 C23 C24".split()}
CLAIMED["C27"] = "record-layout analysis (offset and alignment of element storage), constant alignment arguments of allocations in LLVM IR, and abstract interpretation of slot addresses"
CLAIMED.update({
    "C15": "is_lock_free() evaluated as a boolean function over the answers of the atomic members found in the compiler's record layout (full truth table)",
    "C16": "compile-fail witnesses: pairs of client programs that differ in the misuse only, decided by the type checker",
    "C17": "compile-pass witnesses: every documented operation in every documented configuration, decided by the type checker",
    "C20": "record-layout analysis (offsets, sizes, alignments of all atomic words and nodes) and constant alignment arguments of allocations in LLVM IR",
    "C21": "record-layout analysis (no address type in any index-addressed structure) and abstract interpretation of what is stored into them",
})
NA = {
    "C25": "Starvation freedom of single threads is not promised by lock-free algorithms and quantifies over infinite schedules; no static rule decides it.",
    "C26": "Throughput and memory overhead are measurements; there is no static argument for them.",
}
NOTES = {
    "C15": "Exact: the lowered is_lock_free() of each configuration is evaluated for every combination of answers of the atomics it asks, and compared with the atomics the record layouts list. Trusts clang's layouts; std::atomic::is_lock_free itself is the oracle.",
    "C16": "Decided by clang for the listed misuse classes (101 pairs); a class that is not listed is not covered.",
    "C17": "Decided by clang and g++ for the listed client programs: all operations x policy combinations x element types x language standards x configuration macros.",
    "C20": "Exact for the layouts of the instantiated element types (1, 8 and 100 bytes) on the three documented line sizes; layouts are linear in the element size.",
    "C27": "Exact for the instantiated element types (sizes 1 to 128, alignments 1 to 128); addresses of slots are judged symbolically, for every index.",
    "C21": "Exact for record layouts of the instantiated types; stored values judged on every abstract path of every operation.",
}
NOTE = ("Every public operation is lowered for every storage configuration with opaque element, functor and allocator types; the rules "
        "are checked on every abstract path of the current tree. Sound relative to the rule table and the loop joins of the interpreter; "
        "trusts clang's lowering and the C++ memory model for std::atomic. Code the interpreter cannot follow is reported INCONCLUSIVE, "
        "never as a violation.")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tool/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": CLAIMED[i], "level": "other", "level_note": NOTES.get(i, NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Check not built yet.")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
