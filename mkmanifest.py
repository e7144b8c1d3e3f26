#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
MODEL = "stateful property-based testing against a reference model, with coverage-guided fuzzing in the thorough tier"
T = {
 "C08": ("property-based testing against a stable-sort oracle", "differential on generated lists: every length to 1200 and lengths to 200000, 30 arrangements"),
 "C12": ("differential property-based testing against an independent lookup3, buffers ending at guard pages", "native and portable reads, 32 and 64 bits; big endian hosts are not run"),
 "C13": ("differential and metamorphic property-based testing, strings ending at guard pages", "native and portable reads, 32 and 64 bits; big endian hosts are not run"),
 "C14": ("exhaustive (32 bits) and property-based (64 bits) differential and round-trip testing", "all 2^32 inputs of the 32 bit hash; generated inputs for the 64 bit one, through its inverse"),
 "C15": ("exhaustive (32 bits) and property-based (64 bits) testing against the definitions", "all 2^32 inputs in native, portable and simulated MSVC builds; generated 64 bit ones"),
 "C16": ("stateful property-based testing with a counting comparison against the AVL bound", "every value and gap searched in the generated trees"),
 "C17": ("property-based testing with a counting comparison against the stated bounds", "30 arrangements, adversarial ones included"),
 "C18": ("stateful property-based testing of the memory invariants after each operation", "heap calls observed through the redefinable heap functions"),
 "C19": ("stateful property-based testing of the work per operation, chains compared around each one", "buckets redistributed are counted from outside by the chains that change; buckets in use are estimated from the chains of random keys, with a margin of 7 sigma"),
 "C20": ("stateful property-based testing against the model and the recorded heap", "heap calls observed through the redefinable heap functions"),
 "C21": ("stateful property-based testing over an instrumented heap", "malloc and the like called directly are caught by symbol redirection"),
 "C24": ("property-based testing of every contract in 19 builds", "gcc and clang, C and C++, 32 and 64 bits, -O0 to -O3, assertions on and off, portable paths, the MSVC paths with the compiler simulated; big endian hosts are not run"),
 "C25": ("stateful property-based testing against a reference model in 12 configurations of both tries", "widths 16, 32, 48, 64; branches 8, 16, 32 and 2, 4, 8"),
 "C33": ("stateful property-based testing against the reference model in builds with other initial sizes", "6 combinations of the seven macros, 12 in the thorough tier, each with asan and 32 bit builds"),
 "C26": ("stateful property-based testing with snapshots of every byte around queries", "containers, nodes and heap memory are compared"),
 "C29": ("stateful property-based testing of the buckets against the definition", "the number of buckets is read from the memory usage and the recorded heap"),
 "C30": ("differential property-based testing: operations run inside callbacks or after them, programs run alone or by several threads, with ThreadSanitizer", "thread schedules are those the system gives; ThreadSanitizer sees the races of the executed accesses whatever the order"),
 "C31": ("stateful property-based testing counting heap requests, with histories that oscillate around the thresholds", "heap calls observed through the redefinable heap functions"),
 "C32": ("property-based testing of bulk operations with the basic blocks of the library counted in each call, against the documented cost", "constants are 3 times or more what the library needs: a dependency on the number of elements is seen, not a slower constant"),
 "C34": ("property-based testing of bulk operations with the stack of the library measured in each call, and of millions of elements with a limited stack", "the lowest frame at each basic block in an instrumented build; 1 MB of stack for histories of up to 4.4 million elements"),
 "C28": ("stateful property-based testing with poisoned and scrambled nodes", "removed nodes are freed or filled with generated bytes at once"),
}
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    t, n = T.get(p, (MODEL, "results, order, links and callbacks compared with the model after each operation; histories of bulk operations up to 4.4 million elements (24 million thorough)"))
    checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=t, level="exploration",
                       level_note="Sampled, not proved: %s. Trusts the harness, its model, the compilers and AddressSanitizer." % n))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the harness compiles /repo's sources with its own heap functions defined from the command line. Replay a failure with: python3 check.py --replay FILE")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
