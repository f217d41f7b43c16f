#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tech="deterministic simulation with fault injection: seeded search over coroutine schedules, polls, panics and cancellations at user-code and yield-point seams; "
how={
"P01":"refinement of every point operation against a finite-map reference model",
"P02":"re-reading every live version (contents, size, lookups, addresses) while operations are in flight",
"P03":"refinement of every set operation against a finite-set reference model",
"P04":"size, traversal and lookup of every produced version compared with each other and the reference model",
"P05":"refinement of single-map bulk operations against per-entry outcomes",
"P06":"refinement of same-typed joint operations against per-key outcomes and argument order",
"P07":"refinement of mixed-type joint operations against per-key outcomes and argument order",
"P08":"multiset of recorded callback invocations and a counting, summing reduction compared with the expected one",
"P09":"simulated allocator (poison, red zones, quarantine, leak accounting) and instance accounting of keys, values and reductions",
"P10":"panics, cancellations and client crashes at seeded points, then full re-verification, accounting and retry",
"P11":"equality matrix over held versions checked for soundness, equivalence laws and stability",
"P12":"entry addresses and clone counts compared before and after every operation",
"P13":"held references and pointers re-read throughout the run and after every other handle is gone",
"P14":"callback, memory and processor-time budgets and panic detection over hash functions of every quality and width",
"P15":"each bulk operation repeated alone, sequentially and uninterrupted, and compared",
"P18":"hash, comparison, clone and allocation counts of each operation against bounds from its path, hash groups and non-constant outcomes",
}
note="Searched, not exhausted: seeded random scenarios (hash function, widths, contents, 1-5 clients, operations, faults) and schedules; the library code is the real one, the key/value/hasher types, executor, allocator and scheduler are the simulator's. Interleavings are sequentially consistent and switch at user-code callbacks, the library's memory allocations and releases, suspensions and operation boundaries. Bounds: mostly up to 300 keys per map (rarely 2,060, very rarely 70,000), collision groups up to 300 keys, seven hash/branching width pairs. Trusts the reference model and the lawfulness of the simulated user types."
m={"version":1,"setup_cmd":"./build.sh",
"hooks":{"guard":"--cfg hash_trie_sim","enable":"RUSTFLAGS via /verif/harness/.cargo/config.toml: build.rustflags = [\"--cfg\", \"hash_trie_sim\"]","source_commits":[subprocess.check_output(["git","-C","/repo","log","--format=%H","--grep=^sim:"],text=True).strip()]},
"checks":[{"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","technique":tech+h,"level":"exploration","level_note":note} for p,h in how.items()],
"not_applicable":[
{"property":"P16","reason":"The bit operations are pure functions of one or two machine words: no schedule, time, I/O, history or fault can influence them, so a simulated execution has nothing to vary; they are decided by input enumeration or proof, not by this family. The simulation exercises them only as used by the trie (P01, P14)."},
{"property":"P17","reason":"A data race is a property of the hardware memory model and of real parallel accesses; the simulator runs everything on one thread with sequentially consistent switches and cannot exhibit one. Observing real threads would be runtime monitoring, and weak-memory exploration of reference counts model checking, neither of which is this family."}],
"notes":"replay: ./replay.sh <file>. Longer runs: HTSIM_RUNS=<n> or HTSIM_MULT=<n>; other campaigns: VERIF_SEED=<n>. Defects found and repaired: known_findings.txt. See DESIGN.md."}
open(os.path.join(here,"MANIFEST.json"),"w").write(json.dumps(m,indent=1)+"\n")
