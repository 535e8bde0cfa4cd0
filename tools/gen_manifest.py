#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation with fault injection: seeded search over "
T = {
 "C01": "client schedules and operation histories (preemption inside callbacks); refinement against a bounded-deque model after every step",
 "C02": "schedules, histories and panics injected at the n-th element/iterator callback, iterator abandonment; element-registry oracle (exactly-once destruction)",
 "C03": "schedules, histories and injected callback panics; legal-interrupted-state oracle, then refinement of the continued history",
 "C04": "cancellation points (drop, leak, consumer crash, adaptors) and schedules; remainder/handed-out oracle against the deque model",
 "C05": "allocator refusals (every / n-th request) and histories; request counting, unchanged-state and heap-integrity oracles",
 "C06": "client schedules, histories, hash families and hash seeds; refinement against a reference multiset",
 "C07": "faults in source iterators, key hash/eq/clone and the allocator; exact-prefix and per-key old-or-new oracles",
 "C08": "worker/aggregator runs over a simulated network (reorder, delay), worker crashes and retractions; convergence to the true counts",
 "C09": "hash seeds, table histories and faults during listing; completeness and order oracle",
 "C10": "client schedules, histories and hash families; refinement against a reference partition",
 "C11": "enumeration under schedules, hash seeds, abandonment and allocator refusals; partition oracle",
 "C12": "faults in hash/eq/clone/drop, source iterators and the allocator during updates; legal-partition oracle and continued refinement",
 "C13": "adversarial union orders on a client thread with a small simulated stack; survival as oracle",
 "C14": "number-type failures (overflow, n-th call) during in-place arithmetic; old-or-exact-new oracle",
 "C15": "message delivery orders with loss and duplication to coalescing/narrowing/spanning receivers; point-set model",
 "C16": "comparison/clone failures inside interval set operations; well-formedness, containment and value-registry oracles",
 "C17": "schedules and clone/allocator faults; isolation by separate models of both sides, exact clone accounting",
 "C18": "long repeated histories, schedules and callback/allocator faults; bytes held from the simulated allocator after every step",
 "C19": "client histories over prepared collections with the allocator refusing everything or the n-th request; request counting and success under refusal as oracle, contents against a model",
 "C20": "arrival orders, losses, duplicates, node restarts and failing comparisons of replicas indexing bounds; reference order after every delivery and convergence of the replicas",
 "C21": "arrival orders, duplicates, crashes and failing comparisons of nodes granting interval leases; reference lease table after every delivery",
 "C22": "corrupted, duplicated and forwarded construction requests with failing value callbacks; validity, round-trip and value-registry oracles",
 "C23": "appends, torn/lost writes, full disks, crashes and failing value display; journal read-back oracle",
 "C25": "delivery orders with loss, duplication, gossip, shipped clones, crashes, log replay and compaction, and failing callbacks of replicas of a disjoint set; closure of the received facts after every delivery, agreement at the end",
 "C24": "sizes, union orders, histories and faults in virtual time (every branch of compiled code advances the simulator's clock); step budgets per unit of work",
}
NOTE = ("Sampled search, not exhaustive: assurance is the absence of a violation in the runs counted in the evidence file "
        "(both debug and release builds). Trusts the simulator's seams, the reference model and the standard library.")
NA = {}
ONLY = os.environ.get("ONLY")
done = ONLY.split(",") if ONLY else sorted(T)
man = {
 "version": 1,
 "setup_cmd": "bin/build",
 "checks": [
  {"property": p, "quick_cmd": f"bin/check {p} quick", "thorough_cmd": f"bin/check {p} thorough",
   "evidence_file": f"evidence/{p}.json", "technique": SIM + T[p], "level": "exploration", "level_note": NOTE}
  for p in done],
 "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())]
  + [{"property": p, "reason": "check under construction"} for p in sorted(T) if p not in done],
 "notes": "No hooks in /repo are needed. bin/replay FILE re-executes a replay file. See DESIGN.md.",
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
