#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = "TLA+ specification model-checked with TLC; its behaviours replayed on the code and recorded traces of the code judged by the specification"
NOTE = {
 "default": "Exhaustive on small bounded models of the TLA+ specification, every transition of which is replayed on the real library and compared; beyond those bounds executions of the real code (millions of steps of random and coverage-guided schedules) are judged by the same TLA+ predicates, so larger schedules are sampled, not enumerated.",
 "C08": "The specification's healing behaviours (TLC simulation) are replayed on the code, and sampled faulty histories of the code are healed and probed; convergence is required within a fixed generous number of ticks. Sampled, not enumerated, except the small message-loss models.",
 "C09": "Small election models are exhaustive and replayed on the code; stability and convergence of the leader are probed after sampled faulty histories.",
 "C14": "Batching models exhaustive and replayed; fault-free runs of the code under one leader sampled with all interleavings of flushes, forwards and deliveries.",
 "C18": "Panics are watched for in every execution the other checks use; argument ranges include out-of-range values. Sampled outside the bounded models.",
 "C15": "The storage contract (Storage.tla) is exhausted for logs of up to 3 (thorough: 4) entries, every transition replayed on MemoryStorage and a sample (thorough: nearly all) on PersistentStorage, reopened from a copy of its files; longer random programs of the real back-ends are judged step by step by the same specification.",
 "C16": "UniCache.tla is exhausted for small caches and all its value sequences are replayed on the real LRU and LFU caches; clusters with compressed entries are sampled and judged by the TLA+ predicates, and one bounded model of them is exhausted and replayed.",
 "C17": "All configurations within small bounds are enumerated by TLC from Config.tla and each is built, validated and probed on the real code; larger clusters are not enumerated.",
 "C20": "Messages of the replayed model paths and of sampled executions travel serialised (bincode or JSON) and are compared with what was sent; message contents are those such executions produce.",
 "C19": "Random stable topologies with a quorum-connected server after sampled faulty histories, on the specification (TLC simulation) and on the code.",
}
NA = json.load(open(V + "/tools/not_applicable.json"))
na = {x["property"] for x in NA}
m = dict(version=1, setup_cmd="bash setup.sh",
  checks=[dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
               thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
               evidence_file="evidence/%s.json" % p["id"], technique=TECH, level="model_checking",
               level_note=NOTE.get(p["id"], NOTE["default"])) for p in props if p["id"] not in na],
  not_applicable=NA,
  notes="TLA+ with TLC. No hooks in /repo: the harness uses the public API and its own Storage. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
