#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (the properties whose spec exists)."""
import json
import os

import jobs

HERE = os.path.dirname(os.path.abspath(__file__))
SEQ = ("explicit-state enumeration of all reachable tree shapes on the real code "
       "(stateless replay, oracle: sorted vector)")
MULTI = ("exhaustive enumeration of whole-container call sequences over several real "
         "trees (oracle: maps plus allocator ledger)")
DENSE = ("exhaustive enumeration of dense_map contents x slot histories x operations "
         "on the real code (oracle: bounded sorted vector)")
POOL = ("exhaustive enumeration of allocation/deallocation sequences and mapping-"
        "outcome schedules on the real pools under a controlled mmap (reference model)")
T = {
    "C01": (SEQ, "all shapes up to 18 elements with 8-ary nodes, every modifier in each; larger trees by enumerated programs"),
    "C02": (SEQ, "all shapes up to the bound, every lookup for every key class in each"),
    "C03": (SEQ, "all shapes up to the bound, every walk and every +/- string of bounded length in each"),
    "C04": (SEQ, "all shapes up to the bound, every range, single erasure and 35 keep/erase patterns in each"),
    "C05": (MULTI, "all sequences of 2 (quick) or 3 whole-container calls over two trees, nine allocator kinds"),
    "C06": (MULTI + "; " + SEQ, "every block's owner, size and type checked when returned, for all propagation-trait combinations"),
    "C07": (SEQ + "; " + DENSE, "live-object and resource counts equal the contents after every call; AddressSanitizer configurations in addition"),
    "C08": ("exhaustive enumeration of key windows x queries x lengths against the comparator, all three modes, AVX2 and scalar builds", "8-bit types completely by window; wider types over boundary values"),
    "C09": (DENSE, "complete for capacities up to 10 over capacity+2 keys"),
    "C10": (DENSE, "all sizes, positions and counts for capacities up to 17 (quick) or 40"),
    "C11": (SEQ + "; " + DENSE, "ten orders whose equivalence differs from ==, and a key type without =="),
    "C12": (POOL, "all request sequences to a depth over sizes and alignments chosen around class, growth and page boundaries"),
    "C13": (POOL, "as C12 with every pattern of mapping failures; region accounting after every call"),
    "C14": (POOL, "every pattern of hugepage success and failure over the mappings of the histories"),
    "C15": (POOL, "every size around every class boundary; all sequences to a depth"),
    "C16": (POOL, "every sequence of copies, rebinds, moves and requests to a depth"),
    "C17": ("exhaustive fault injection: every failure point of every call in every enumerated state", "value and allocation failures; all shapes up to 11 (quick) or 15 elements"),
    "C18": (SEQ + "; " + DENSE, "every element as the aliased argument of every insertion and erasure"),
    "C19": ("exhaustive enumeration of pairs of calls with the memory footprint of each (instrumented loads and stores) checked for conflicts", "no write outside the stack by readers, disjoint footprints for distinct containers: independence makes every interleaving equivalent to a sequential one"),
    "C20": (SEQ, "nodes, height, comparisons and allocations counted in every shape"),
    "C21": (POOL, "statistics compared with a reference model after every call of every sequence"),
    "C22": ("exhaustive enumeration of insertion calls x argument forms x states with counted constructions, moves and allocations", "all shapes up to the bound"),
    "C23": ("exhaustive enumeration of bounded programs executed under every build configuration, results compared", "digests of all observations over the same enumerated programs"),
    "C24": ("exhaustive enumeration of key and value sizes, and of bounded programs on trees and allocators made with defaults", "node sizes compared with the documented rule for every pair of sizes"),
}
ALL = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -m py_compile run.py jobs.py", "checks": [],
     "not_applicable": []}
for p in ALL:
    if hasattr(jobs, "spec_" + p):
        tech, note = T[p]
        m["checks"].append({
            "property": p, "quick_cmd": f"python3 run.py check {p} quick",
            "thorough_cmd": f"python3 run.py check {p} thorough",
            "technique": "model checking: " + tech,
            "level": jobs.spec(p, "quick")["level"], "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
