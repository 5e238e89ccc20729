#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Seeded sampling of simulated runs against an oracle independent of the library; a clean batch is evidence, not proof. "
          "Trusts the grammar facts and the reference model in sim/src. ")
FINE = ("Threads are preempted at every basic block and memory access of the instrumented library (of std only at allocations, callbacks and lock waits); "
        "memory is sequentially consistent. ")
T = "deterministic simulation with fault injection: "
C = {
 "C01": ("seeded hash orders and hash functions decide every visiting order of the FIRST fixpoint; sets compared with an independent reachability computation", ""),
 "C02": ("seeded hash orders and hash functions decide every visiting order of the FOLLOW fixpoint; sets compared with an independent reachability computation", ""),
 "C03": ("seeded hash orders and hash functions; every cell of the prediction table compared with the candidates computed from the declared productions", ""),
 "C04": ("seeded hash orders and hash functions during construction of well-formed and malformed grammars; compared with a direct predicate", ""),
 "C05": ("faulty token sources and seeded hash orders; every tree validated as a derivation of the delivered tokens", ""),
 "C06": ("faulty token sources and seeded hash orders over generated LL(1) grammars; sentences with their derivation, chart recogniser for non-sentences", "Non-sentences longer than 60 tokens before the end marker are not judged. "),
 "C07": ("faulty token sources and seeded hash orders; refinement against a small reference model of ordered choice with sibling backtracking", ""),
 "C08": ("faulty token sources and seeded hash orders; each report checked structurally and against the reference model", ""),
 "C09": ("faulty token sources, scripted solvers; outcome, panics, aborts, hangs and simulated work checked in forked runs", "Work bound is 80 steps per model step (observed maximum about 7) plus two per token and model step; stack bound is 512 KB plus 16 KB per level of nesting (observed 1.1 KB). Left-recursive grammars and empty streams are outside the statement. "),
 "C10": ("faulty token sources (non-fused, odd size hints, re-entrant, other threads); polls counted and results compared with a plain source", ""),
 "C11": ("runs of the same stream with and without a scripted solver compared", ""),
 "C12": ("scripted solver refusing and repairing at seeded points; question sequence compared with the reference model", ""),
 "C13": ("scripted solver repairing at seeded points and positions, past the end included; result and later questions compared with the reference model", ""),
 "C14": ("caller-code panics injected at seeded instants of parses and analyses, under seeded interleavings; every other call compared with the same call run alone in a pristine process", FINE),
 "C15": ("real threads under a seeded scheduler and re-entrant calls; every call compared with the same call run alone, deadlocks detected in the simulator", FINE),
 "C16": ("the same program in several simulated processes with other hash seeds, hash functions, instances, constructors and histories; results and questions compared", ""),
 "C17": ("seeded hash orders and hash functions over cyclic, left-recursive and useless symbols; panics, hangs and simulated work checked in forked runs", "Work bound is a polynomial of the grammar's size, at least 100 times what was observed. "),
 "C18": ("injected panics, faulty sources and repairs under seeded interleavings; instrumented lexemes counted per call", FINE),
 "C22": ("tables and parsers from supplied sets, several on one grammar, under seeded hash orders, faulty sources, re-entrance and interleavings; compared with the cells and the reference model computed from each parser's own sets", ""),
 "C21": ("programs with injected panics, faulty sources and repairs under seeded interleavings repeated 30, 60, 120.. times in simulated processes; bytes left allocated compared", "Growth is reported when it continues, by at least a byte per repetition, through seven doublings of the repetitions. "),
}
m = {
 "version": 1,
 "setup_cmd": "bash check.sh build",
 "checks": [{
   "property": p, "quick_cmd": f"bash check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p}",
   "technique": T + t, "level": "exploration", "level_note": COMMON + n} for p, (t, n) in C.items()],
 "not_applicable": [
  {"property": "C19", "reason": "Token equality and cloning are pure functions of two values: no schedule, clock, fault, hash order or interleaving reaches them, so there is nothing to simulate."},
  {"property": "C20", "reason": "The result containers are plain constructors and public fields, pure functions of their arguments: no schedule, clock, fault, hash order or interleaving reaches them."},
 ],
 "notes": "No hooks in /repo: every seam is outside the library (caller types, getrandom, futex, allocator). Replay: bash check.sh replay FILE. Repaired defects: known_findings.txt.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
