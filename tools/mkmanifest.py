#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
trust = ("Trusts the simulator (registry writer, disk, reference reader, instrumentation); assurance is that of a seeded search, "
         "with every failure replayable from its file.")
checks = {
 "C01": ("exploration", "seeded storage faults and damage between calls against random call sequences", "No panic, abort, overflow (the crate is built with overflow checks) or deep stack on the damaged images and call sequences explored; targeted faults aim at every field of every structure."),
 "C02": ("exploration", "seeded hostile images, work counted in simulated steps per call", "The work of each call, counted in basic blocks and byte accesses, stays under a bound computed from the image by the reference reader; bounds leave room for constant factors, so growth that needs larger images than generated is not seen."),
 "C03": ("fault_enumeration", "seeded crash points in the writer's flush protocol with torn and lost sectors", "Open-with-validation accepts exactly flushed states; crash points of one flush are covered by seeded choice of step and surviving sector subset."),
 "C04": ("exploration", "seeded header damage (single and combined rules) against an executable validation spec", "Acceptance and every reported error agree with the rules of the spec on the headers explored."),
 "C05": ("exploration", "seeded registry histories through a simulated writer, read back against the tree model", "The tree read through every navigation path equals the model; widths, layouts, encodings and minor versions vary by seed."),
 "C06": ("exploration", "seeded registry histories, lookups compared with the tree model", "Each lookup of present, absent, case-changed, multi-component names and each comparison agrees with the model."),
 "C07": ("exploration", "seeded values in all storage forms, with faults in their parts, against a reference decoder", "Every typed reader agrees with an independent decoder on intact and damaged values."),
 "C08": ("exploration", "seeded storage faults, each read checked against the reference reader's set of truthful answers", "Reads that do not depend on damage are exact, and others report it, for the faults explored."),
 "C09": ("exploration", "seeded storage faults, each error checked against the bytes", "Offsets and quoted values of each error are among the truthful ones the reference reader derives from the image."),
 "C10": ("fault_enumeration", "clear_volatile_subkeys watched at every instant and cut at seeded instants", "Instants are basic blocks and byte accesses of the crate; images are seeded, intact and damaged."),
 "C11": ("exploration", "seeded thread schedules with preemption at every basic block and byte access", "Results per thread equal those of a solitary execution for the interleavings explored; hardware memory-order effects are out of scope (one thread runs at a time)."),
 "C12": ("exploration", "same call history replayed over placements, byte-store types, earlier hives and call orders", "Answers are compared between environments chosen by seed."),
 "C13": ("exploration", "seeded mixes of iterator calls in every state, with storage faults, against a twin driven by next()", "Each iterator call agrees with what next() alone yields from the same state."),
 "C14": ("exploration", "allocation counting and failing allocator under seeded reads on damaged images", "No allocation in calls that need none; owned results stay within the data present; calls survive an allocator that always fails."),
 "C16": ("exploration", "seeded names damaged by storage faults (other bytes, lengths, encodings), compared by every operator against a reference order", "Each comparison of two names or of a name and a string agrees, in all its operators and both directions, with one reference order on upper-cased code units, so totality, antisymmetry and transitivity follow for the names explored. Names are those of hives: keys, values, classes, intact and damaged."),
 "C17": ("exploration", "seeded sessions on damaged images replayed on simulated machines (big-endian 64-bit and 32-bit interpreted, 32-bit WebAssembly) and compared answer by answer", "Every answer, error and cleared image is the same on all machines for the cases explored; the interpreted big-endian machines see about 1,500 cases per quick run, the 32-bit one about 58,000."),
 "C19": ("exploration", "seeded sessions on damaged images replayed in builds with no features, alloc and std, checked and optimised, and compared answer by answer", "Every answer available in a build is the same in all of them for the cases explored; builds without a standard library are only built."),
 "C15": ("fault_enumeration", "readhive run with its system calls answered by a seeded interposer", "Exit status and output are judged for seeded sequences of short, interrupted, failing and truncated reads and writes, on intact and damaged files."),
}
m = {"version": 1, "setup_cmd": "./setup", "checks": [], "not_applicable": [
 {"property": "C18", "reason": "Decided by the compiler for all programs; no execution, simulated or not, can exhibit a program that does not compile."},
], "notes": "No hooks in /repo: the crate is generic over its byte store (the seam), and basic blocks are made visible by a compiler flag set in sim/rustc-wrap.sh. ./replay FILE re-executes a replay file. Repairs of genuine defects are listed in KNOWN_FINDINGS."}
for c, (lv, t, n) in checks.items():
    m["checks"].append({"property": c, "quick_cmd": "./check " + c, "thorough_cmd": "VERIF_TIER=thorough ./check " + c,
                        "evidence_file": f"evidence/{c}.json", "technique": T + t, "level": lv, "level_note": n + " " + trust})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
