#!/usr/bin/env python3
"""Writes /verif/known_findings.json. `findings` is read by the checks; `fixed` is a record only."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("sum voting and", "R05,L01", "vote and propose weights were summed in 32 bits: with large weights a member list made every node panic (or, in release, count quorums of a wrapped total)"),
 ("reject aggregated votes below", "S02,S07,S10,S11,L03", "a certificate naming members below two thirds of the weight was accepted if its aggregate verified: one faulty member's own vote, aggregated, made others precommit and commit"),
 ("verify the sender of a choke", "S09,S11,R05,L03", "the sender of an abandon-round message was not checked for membership and the certificate it carries not verified at all: an outsider or a forged certificate moved nodes to any round"),
 ("do not let unverified messages", "S11", "messages of a future height were cached before verification and later used as if verified"),
 ("ignore state machine events", "S04,S05", "a vote or round event still queued for an earlier height was acted on after a status had moved the node on, so it voted twice or proposed twice at the new height"),
 ("keep the lock when a later PoLC", "S06,R01,R02", "a lock re-proposed with a later certificate for the same block was dropped, the next record had no lock"),
 ("make the stop message", "R04", "stop did not stop a node: get_height panicked, a node without power ignored it, timer and state machine spun on closed channels"),
 ("decode of malformed bytes", "R05,C01", "bytes from the network could make the decoders panic"),
 ("no arithmetic overflow", "R05", "extreme heights and rounds in messages overflowed (leader rotation and height windows)"),
 ("check that the PoLC", "S06,S11", "the lock proof of a proposal was not required to be about the proposed block, height and round"),
 ("commit the content that was checked", "S03,S08", "a second proposal with the same hash replaced the content that had been checked; a check passed at an older height counted at a later one"),
 ("finish moving to a new height", "H01,M01,L01", "a failing log save at a height change left the node half moved: old member list, old height in the state machine"),
 ("scale the timeouts of a restarted", "T01", "a node restarted in a later round used the timeouts of round 0"),
 ("let a prevote QC end the brake", "L01", "nodes in the brake step ignored the prevote certificate of their own round while others, locked by it, could not gather enough abandonments: no progress for ever"),
 ("start from a WAL in the brake", "L01", "restart from a record in the brake step failed for good if the first save failed"),
 ("follow to the next round without", "L01", "a node lacking the block of a later prevote certificate could not follow to that round and stayed behind for ever"),
 ("know the leader of a round", "C02", "after a failing log save at the start of a round the node sent its votes to the leader of an earlier round"),
 ("do not let forged messages", "L04", "forged proposals, votes or certificates for a coming height displaced the genuine ones kept for it (or kept them out): a decision, proposal or quorum of votes that had arrived early was lost"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for start, props, what in F:
    c = [l.split(" ", 1)[0] for l in log if l.split(" ", 1)[1].startswith("fix: " + start)]
    assert len(c) == 1, start
    for p in props.split(","):
        fixed.append(f"fixed: property={p} {c[0]} {what}")
json.dump({"findings": [], "fixed": fixed}, open(os.path.join(root, "known_findings.json"), "w"), indent=1)
open(os.path.join(root, "known_findings.json"), "a").write("\n")
print(len(fixed))
