#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property of properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "S01": "any two deliveries at one height by correct nodes (and a node's own later incarnations) compared at each commit; adversary below a third, crashes, partitions",
 "S02": "each delivered proof recomputed from the height's own list and from the ledger of every signature really made",
 "S03": "delivered content compared with the ledger of signed proposals and of application checks passed",
 "S04": "ledger of all votes that left each node, across its incarnations",
 "S05": "ledger of proposals per member, height and round, across incarnations; leader recomputed from the list",
 "S06": "reference lock: votes and proposals compared with what the node's earlier precommits bind it to, given every prevote really cast",
 "S07": "each precommit compared with the prevotes really signed",
 "S08": "each precommit and commit compared with the application checks that had passed by then",
 "S09": "each round entered compared with the abandonments and votes really signed in the round before",
 "S10": "each certificate sent is verified and compared with the ledger of signatures and with the certificates of the others",
 "S11": "each prevote compared with the proposals really signed by the leader of that round, or the lock it is bound to",
 "L01": "faults end at a drawn instant; all correct nodes must then commit two more heights within a bounded simulated time",
 "L02": "fault-free runs inside the timeouts: every commit in its first round, no view change reported, no stall",
 "L03": "a faulty minority for the whole run; every correct node must keep growing within a bounded simulated time",
 "L04": "a node is stalled while it is sent everything; it must catch up from that alone",
 "L05": "what each node holds (genuine certificates, votes, calls to abandon, accepted blocks) is tracked; its log must show the step due soon after the last of it came",
 "R01": "every outgoing message and commit compared with the log records acknowledged before it; lock content checked",
 "R02": "actions after each restart compared with actions and logged decisions before it",
 "R03": "reference model of the sequence of commit calls and statuses per run",
 "R04": "stop at drawn instants; return of run, later callbacks and refused messages are checked",
 "R05": "panics of any task, decoder panics and lost service under corrupted bytes, extreme fields and failing callbacks",
 "T01": "no delays but the timers': simulated time between the log records of successive steps compared with the configured value, exact to 1 ms",
 "T02": "simulated time of proposals and first records of a height against commits, per node clock",
 "M01": "membership changes on the way; every action compared with its height's list",
 "V01": "reference model of rounds per node; every report and every unreported round change is compared with it",
 "H01": "statuses (stale, repeated, skipping) at drawn instants; heights of all actions and records are compared",
 "C01": "every message, record, status, commit and proof of the simulated runs taken through its encoding",
 "C02": "helper answers compared with the proposals, vote targets and certificates of the running nodes",
 "P01": "leader of every round seen (whose proposal is sent, where votes go) compared with those of the rounds and heights around it",
 "A01": "each request to the application compared with the proposals soundly made to the node, its own blocks, and the leaders of the height",
 "B01": "a counting allocator charges each allocation to the node whose task is polled; the least memory held at each height is compared over hundreds of heights",
 "N01": "every message handed to the network is counted per run, round and kind; calls to abandon are compared with rounds entered and node-clock time over the brake timeout",
 "P02": "clusters built with the random_leader feature: leaders of all nodes compared with each other, the helper and the weights",
}
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences of whole clusters in one process; "
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH + {"L": "bounded liveness after faults", "T": "exact simulated time", "C": "values of simulated executions"}.get(i[0], "invariants over the history against a reference ledger"),
        "level": "exploration",
        "level_note": NOTE[i] + ". Seeded exploration, not exhaustive; real engine code, stub runtime, network, application, log and signatures.",
    })
m = {
 "version": 1,
 "setup_cmd": "./build.sh",
 "checks": checks,
 "not_applicable": [],
 "notes": "All checks run one binary, /verif/sim, built from /repo/src by a path dependency, with tokio and futures replaced by [patch] shims on the simulator's executor; /repo has no hooks and no feature flags of ours. Replay a reported violation with: sim/target/release/ovsim replay FILE -v. See DESIGN.md.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
