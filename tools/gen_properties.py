#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property a line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "state": [{"name": a, "meaning": m, "where": w} for a, m, w in state],
        "observe_at": observe, "hook_needed": None}})

SP, PAR, COL = "src/state/process.rs", "src/state/parallel.rs", "src/state/collection.rs"
SM, TM, AU = "src/smr/state_machine.rs", "src/timer.rs", "src/utils/auth_manage.rs"
OV, CO, WA, TC, TY = "src/overlord.rs", "src/codec.rs", "src/wal/wal_type.rs", "src/utils/timer_config.rs", "src/types.rs"
NET = "every task interleaving, message loss/duplication/reordering/delay, partition, crash/restart point and clock drift, with members holding less than a third of the vote weight Byzantine"
UT = "The repository's tests exercise collectors, codecs, timers and the authority list one call at a time (and one ignored-by-timing in-process cluster run on real time with lossless channels); "

prop("S01", "Agreement: correct nodes never commit different blocks at a height",
 "No two correct nodes ever deliver different blocks (hash or content) to the application for the same height, as long as faulty members hold less than one third of the vote weight of that height. This includes a node and its own later incarnations after crashes.",
 ["schedules", "fault_sequences", "crash_points", "histories"], "For " + NET + ".",
 UT + "none injects loss, partitions, crashes or a Byzantine member, and agreement is a claim about all of those combinations.",
 [SP, SM, PAR, AU], [("quorum counting above 2/3 of vote weight", SP + " counting_vote / " + AU + " is_above_threshold"),
  ("lock on prevote quorum and unlock only by a newer one", SM + " handle_prevote/handle_proposal/update_polc"),
  ("verification of aggregated signatures", PAR + " verify_qc"), ("write-ahead log before each vote", SP + " save_wal_with_lock_round")],
 ["Consensus::commit calls on every node"], [("lock", "block and round of the newest prevote quorum seen", SM)])

prop("S02", "Every delivered commit carries a proof a third party can verify",
 "Each commit handed to the application carries a proof for that same height and block whose bitmap, read against the authority list in force at that height, names members holding more than two thirds of the vote weight, and whose aggregated signature is exactly the precommits those members really signed for that height, round and block.",
 ["schedules", "inputs", "fault_sequences", "histories"], "For " + NET + ", including forged, sub-quorum and mismatched certificates and membership changes between heights.",
 UT + "no test feeds a certificate below the threshold, from another height's member list, or with foreign voters to a running node.",
 [SP, PAR, AU, CO], [("certificate verification", PAR + " verify_qc/get_voters"), ("certificate assembly and bitmap", SP + " generate_qc"),
  ("commit proof assembly", SP + " handle_commit"), ("bitmap to voters", AU + " extract_voters")],
 ["Consensus::commit calls: Commit.proof"])

prop("S03", "Delivered content is the block the quorum certified",
 "The content handed to the application in a commit is always content that hashes to the committed block hash, was really proposed for it, and was accepted by the application's own block check of at least one correct member of the committing quorum. A faulty proposer reusing a hash for different content, or offering an invalid block, cannot make any correct node deliver it.",
 ["inputs", "schedules", "fault_sequences"], "For every proposal stream from Byzantine proposers (same hash with different content, invalid blocks, re-proposals, corrupted bytes) interleaved with honest ones.",
 UT + "they only ever propose one well-formed block per height.",
 [SP], [("hash to content map", SP + " handle_signed_proposal / hash_with_block"), ("asynchronous block check gates votes", SP + " check_block/handle_resp/try_get_full_txs"), ("commit", SP + " handle_commit")],
 ["Consensus::commit and Consensus::check_block calls"], [("hash_with_block", "content remembered for a hash at the current height", SP)])

prop("S04", "No equivocation: one vote per height, round and type, even across crashes",
 "A correct node never lets two different prevotes, or two different precommits, for the same height and round leave it, neither within one run nor across crash and restart with its write-ahead log. This covers votes it sends and its own votes inside the certificates it builds as leader.",
 ["schedules", "crash_points", "histories", "fault_sequences"], "For every interleaving of network messages, timer expiries, application status updates and crashes at every await point.",
 UT + "no test restarts a node from its log in mid-round or races a status update against queued vote events.",
 [SP, SM, WA], [("step guard per round", SM + " handle_proposal/handle_prevote"), ("log before send, resume after the logged step", SP + " handle_vote_event/start_with_wal, " + SM + " handle_wal")],
 ["votes in Consensus::transmit_to_relayer / broadcast_to_other"])

prop("S05", "Only the designated leader proposes, and at most one block per round",
 "A correct node broadcasts a proposal only for a height and round whose leader function names it over that height's authority list, signed by itself, with its own address as proposer. It never broadcasts two different proposals for one height and round, even across crash and restart.",
 ["schedules", "crash_points", "configurations", "histories"], "For every membership list, height, round history, crash point and interleaving.",
 UT + "leader choice is tested as a function, not as what a running node does after round changes, membership changes and restarts.",
 [SP, AU], [("leader function", AU + " get_proposer / get_leader"), ("proposal on new round", SP + " handle_new_round/is_proposer")],
 ["proposals in Consensus::broadcast_to_other"])

prop("S06", "A lock is given up only for a newer prevote quorum",
 "Once a correct node has precommitted a block at some round, it never prevotes or precommits a different block at a later round of that height unless more than two thirds of the vote weight really prevoted something else at a round at or after its precommit's. If it proposes while so bound, it re-proposes the bound block together with a certificate for it.",
 ["schedules", "histories", "fault_sequences", "crash_points"], "For " + NET + ", including forged or stale lock proofs in proposals and restarts between lock and unlock.",
 UT + "the one lock test that exists builds no multi-round history, and none restarts a locked node or offers it a forged lock proof.",
 [SM, SP, WA], [("lock update", SM + " update_polc/handle_proposal/handle_prevote"), ("lock proof in proposals", SP + " handle_new_round, " + PAR + " parallel_verify"), ("lock in the log", SP + " save_wal_with_lock_round")],
 ["votes and proposals leaving the node"], [("lock", "locked block and round", SM)])

prop("S07", "A precommit for a block needs a genuine prevote quorum for it",
 "A correct node sends a precommit for a block only when members with more than two thirds of the vote weight of that height really signed prevotes for that block at that height, in that round or in the round from which the node jumped to it.",
 ["inputs", "schedules", "fault_sequences"], "For every mix of genuine, forged, sub-quorum, duplicated, replayed and cross-height votes and certificates.",
 UT + "no test gives a node a certificate that should be rejected.",
 [SP, PAR, AU, SM], [("threshold", AU + " is_above_threshold"), ("verification", PAR + " verify_qc"), ("vote counting by distinct member", COL + " Votes")],
 ["precommits leaving the node, against all signatures ever released"])

prop("S08", "No precommit for a block before the node's own application accepted it",
 "A correct node never sends a precommit for a block, and never asks the application to commit one, unless its own application's check accepted that block for that height in this or an earlier run of the node. A check that failed, or is still pending, or passed at another height, does not count.",
 ["schedules", "inputs", "fault_sequences", "crash_points"], "For every ordering of proposal arrival, certificate arrival, check completion (slow, failing, never) and crash.",
 UT + "in the in-process test the check always succeeds at once.",
 [SP], [("check result bookkeeping", SP + " check_block/handle_resp/try_get_full_txs"), ("gates before vote triggers", SP + " handle_signed_vote/handle_aggregated_vote/vote_process")],
 ["Consensus::check_block results vs. precommits and Consensus::commit"], [("is_full_transaction", "blocks whose check passed", SP)])

prop("S09", "A round is left only on quorum evidence",
 "A correct node takes part in a round above the first of a height only if more than two thirds of that height's members really signed to abandon the preceding round, or more than two thirds of the vote weight really precommitted nothing, or really prevoted, in the preceding round. A faulty minority, duplicated messages or non-members can never push it forward.",
 ["inputs", "schedules", "fault_sequences"], "For every stream of abandon-round messages and certificates, genuine or forged (unsigned evidence fields, repeated voters, non-members, far-future rounds).",
 UT + "only the collector's arithmetic is tested.",
 [SP, SM, COL], [("abandon-round counting", COL + " ChokeCollector, " + SP + " check_choke_above_threshold"), ("evidence carried in a message from a later round", SP + " handle_signed_choke/handle_aggregated_choke"), ("advance", SM + " handle_continue_round/handle_precommit")],
 ["rounds seen in messages, log records and view-change reports"])

prop("S10", "Certificates a correct node sends are sound and consistent",
 "Every aggregated vote a correct node broadcasts, embeds as a lock proof in a proposal, or embeds as evidence when asking to abandon a round verifies against that height's authority list: above two thirds of the vote weight, exactly the members in its bitmap, each having really signed. A request to abandon a round above the first always embeds evidence of how that round was reached. No two certificates sent by correct nodes for the same height, round and type name different blocks.",
 ["schedules", "inputs", "fault_sequences", "configurations"], "For every weight distribution, membership list and vote arrival order, with Byzantine votes mixed in.",
 UT + "aggregation with unequal weights, Byzantine duplicates and bitmap order is never run end to end.",
 [SP, COL, AU], [("assembly", SP + " generate_qc/aggregate_signatures/check_choke_above_threshold"), ("counting", SP + " counting_vote")],
 ["aggregated votes, proposals and abandon-round messages in Consensus::broadcast_to_other"])

prop("S11", "Unauthenticated input never influences a vote",
 "A correct node prevotes a block only if the designated leader of that round really signed a proposal of exactly that block for that height and round, or it is bound to that block by a prevote quorum. Messages with bad signatures, proposals whose lock proof is not genuine, messages from non-members, from the wrong proposer, or altered in transit never count.",
 ["inputs", "schedules", "fault_sequences"], "For every stream of forged, altered, replayed and mis-addressed messages at every moment, including messages that arrive before the node reaches their height.",
 UT + "no test sends an invalid signature to a running node, nor early messages around a height change.",
 [PAR, SP], [("signature check per message", PAR + " parallel_verify"), ("proposer check", SP + " verify_proposer"), ("early messages re-checked at their height", SP + " re_check_proposals/re_check_votes/re_check_qcs")],
 ["prevotes leaving the node, against all signatures ever released"])

prop("L01", "Progress resumes once faults stop",
 "After any history of crashes, restarts, partitions, message loss, slow or failing application and log calls, once the network is timely, every member is up again and callbacks succeed, all correct nodes commit further heights within a bounded time.",
 ["fault_sequences", "schedules", "crash_points", "histories"], "For every fault history followed by a fault-free suffix, with lagging nodes told of newer heights by their application (its block synchronisation keeps running), and a node that could not log a decision restarted by its operator.",
 UT + "they never inject a fault and then require recovery.",
 [SP, SM, TM, COL], [("timers and escalation", TM), ("abandon-round exchange", SP + " handle_brake/handle_signed_choke"), ("catch-up by evidence", SP + " handle_signed_choke"), ("restart", SP + " start_with_wal")],
 ["Consensus::commit on every node within a simulated-time bound"])

prop("L02", "Fault-free synchronous runs decide every height in the first round",
 "With all members correct, timely delivery well inside the timeouts and prompt callbacks, every height is committed in its first round by every member, with no view change reported.",
 ["schedules", "configurations"], "For every interleaving, delivery order within the bound, member count, weight distribution and timeout configuration.",
 UT + "the in-process cluster test has one configuration and does not look at rounds.",
 [SP, SM, TM, COL], [("first-round path", SP), ("leader rotation", AU), ("early message caches", COL)],
 ["Consensus::commit proofs' round and Consensus::report_view_change"])

prop("L03", "A silent or Byzantine minority cannot stop progress",
 "With timely delivery among correct members and less than one third of the members (and of the vote weight) crashed for good, silent or actively Byzantine, correct members keep committing new heights within a bounded time.",
 ["fault_sequences", "inputs", "schedules"], "For every choice of the faulty minority and every behaviour of it, including withheld or selectively delivered certificates and proposals, and forged or future messages.",
 UT + "there is no test with a missing or misbehaving member.",
 [SP, SM, TM, COL], [("nil votes on timeout", SM), ("abandon-round threshold", COL + " max_round_above_threshold"), ("leader rotation by round", AU)],
 ["Consensus::commit on correct nodes within a simulated-time bound"])

prop("L04", "Early messages are kept and used",
 "A proposal, vote or certificate for one of the next few heights, or a later round, that reaches a correct member before it gets there is not lost: once the member reaches that height and round the message takes effect as if it had arrived then. So a member that lags behind heights the others decided in their first rounds, and has been sent everything while no membership changes, catches up to commit those heights without anything being sent again.",
 ["schedules", "histories", "inputs"], "For every overtaking of messages across the next heights allowed by the cache window, at every speed of the lagging node.",
 UT + "collectors are tested alone; the hand-over at a height change is not.",
 [SP, COL], [("future caches", COL + " ProposalCollector/VoteCollector"), ("re-check at new height", SP + " goto_new_height/re_check_*"), ("cached proposal on new round", SP + " handle_new_round")],
 ["Consensus::commit and votes of the lagging node"])

prop("L05", "A complete quorum is acted on at once, not at the next timeout",
 "A correct member that has prevoted in its round, has accepted the block and holds the round's prevote certificate for it (or holds one for nothing) precommits; one that holds a quorum's certificate that precommitted nothing, or the calls to abandon its round from more than two thirds of the members, enters the next round. Each happens as soon as its tasks, log and application calls under way allow, without waiting for one of its timers or for messages to be repeated.",
 ["schedules", "histories", "fault_sequences"], "For every order in which votes, certificates, block checks and calls to abandon arrive, including certificates it made itself and those that arrive before its own vote.",
 UT + "the path from the last missing message to the act crosses three tasks, and a lost trigger is hidden by the timeout that follows.",
 [SP, SM, COL], [("certificates", SP + " handle_aggregated_vote/vote_process/handle_signed_vote"), ("abandonments", SP + " check_choke_above_threshold"), ("checked blocks", SP + " handle_resp"), ("steps", SM + " handle_prevote/handle_precommit")],
 ["log records after the message that completed the quorum"])

prop("R01", "Nothing binding leaves a node before it is in the write-ahead log",
 "Before a correct node's prevote, precommit, round-abandon message or proposal leaves it, a log record with that height and round, and at least that step, has been durably saved; if the save fails the message is not sent. A record saved while the node is bound to a block also contains the block and a certificate for it, and a commit is handed to the application only after a commit record holding the block and its precommit certificate was saved.",
 ["crash_points", "schedules", "fault_sequences"], "For every interleaving and every failing or slow save.",
 UT + "the test log never fails, is never slow, and is never read back in a cluster.",
 [SP, WA], [("save before send", SP + " handle_vote_event/handle_brake/handle_new_round/handle_commit"), ("lock content", SP + " save_wal_with_lock_round")],
 ["Wal::save contents vs. outgoing messages and Consensus::commit"])

prop("R02", "Restart resumes from the log: nothing forgotten, nothing undone",
 "A node restarted from its log never votes, proposes or abandons a round at a height and round earlier than those it had already acted on, keeps being bound to the block it was bound to, and if it had logged a decision hands that same block with a valid proof to the application again when the application has not stored it yet.",
 ["crash_points", "schedules", "histories"], "For every crash point (including inside a log write or an application commit), any number of crashes, and any messages around the restart.",
 UT + "no test restarts a running node from a log it wrote.",
 [SP, SM, WA, CO], [("recovery", SP + " start_with_wal/load_wal"), ("state machine restore", SM + " handle_wal/set_timer_after_wal"), ("commit replay", SP + " handle_commit")],
 ["messages and Consensus::commit of the restarted node vs. its log"])

prop("R03", "Commits are delivered in order, once, and without gaps",
 "Within one run of a node, the heights handed to the application strictly increase and a height is handed over again only if the application refused it (the commit call returned an error). A height is never handed over before the application has stored the previous one, nor after the node had moved to a higher one because the application announced it.",
 ["schedules", "histories", "fault_sequences"], "For every interleaving of own commits, application status announcements (catch-up), late certificates and timer events.",
 UT + "the cluster test has no catch-up announcements racing with commits.",
 [SP, SM], [("height monotonicity", SP + " goto_new_height, " + SM + " handle_new_height"), ("commit step guard", SM + " handle_precommit")],
 ["sequence of Consensus::commit calls per run"])

prop("R04", "Stop ends the node cleanly at any moment",
 "After the application tells a running member to stop, the run call returns within a bounded time, without panicking, and once calls already under way have ended no callback is invoked, no message is sent and the handler refuses further messages, whatever the node was doing.",
 ["schedules", "histories"], "For every moment of the stop request: idle, mid-round, waiting in a callback, catching up, not a member of the current height.",
 "The tests stop the timer alone; nothing stops a whole running node.",
 [OV, SP, SM, TM], [("stop message", SP + " run/handle_msg"), ("stop event", SM + " poll_next, " + TM + " poll_next")],
 ["Overlord::run result, later callbacks, OverlordHandler::send_msg result"])

prop("R05", "No message or callback outcome can crash a node",
 "No sequence of messages that decode, whatever their field values, no bytes given to the message decoders, and no error returned by an application, log or signature callback makes any of the node's tasks panic or stop serving; the node still takes part afterwards. A log record damaged on disk may cost the node its duties but does not make it panic either.",
 ["inputs", "schedules", "fault_sequences"], "For every well-formed or corrupted message with extreme, inconsistent or truncated fields, at every moment of the protocol, and every failing callback.",
 UT + "decoders are only run on what the encoder produced.",
 [CO, SP, AU, SM, TY], [("decoding", CO), ("leader arithmetic", AU + " rotation_leader_index"), ("height and round windows", SP + " filter_message")],
 ["panics caught per task; liveness of the node afterwards"])

prop("T01", "Timeouts follow the configuration and escalate per round",
 "A correct node waits for a proposal, a prevote certificate and a precommit certificate exactly the configured multiple of the interval, doubled for every round up to five, before acting on the timeout, and repeats its abandon-round message every configured brake time without doubling. A configuration delivered with a new height applies from that height on.",
 ["configurations", "schedules", "histories"], "For every interval, ratio configuration, round number and configuration change, with other events interleaved.",
 UT + "timer tests check which trigger fires, not when, nor after reconfiguration.",
 [TM, TC, SM], [("timeout computation", TC), ("timer and coefficient", TM + " set_timer"), ("reconfiguration", SM + " handle_new_height")],
 ["simulated time between entering a step and the nil vote or abandon-round message"])

prop("T02", "The next leader paces blocks to the configured interval",
 "A node that commits a height and is the first leader of the next one does not propose there before the block interval has passed since it began the height just committed, and does not hold the proposal back longer than that either: it proposes as soon as it has committed and one interval has passed since the last round it began or proposal it was handed before the commit. Other nodes move on at once.",
 ["schedules", "configurations"], "For every interval, commit speed and interleaving.",
 "No test looks at the time between blocks.",
 [SP], [("wait before the new height", SP + " handle_commit")],
 ["simulated time of proposals vs. commits"])

prop("M01", "Membership changes take effect exactly at their height",
 "Only members of a height's authority list vote, propose or abandon rounds at that height: a node removed by the list delivered with a commit or a status falls silent from that height on, and a node added takes part from its first height. Quorums, leaders and weights at a height are those of its own list.",
 ["configurations", "schedules", "histories"], "For every sequence of member additions, removals and weight changes, with lagging, restarted and catching-up nodes.",
 "No test changes the authority list of a running cluster.",
 [SP, AU], [("list update", SP + " handle_commit/goto_new_height"), ("power check", SP + " run/handle_msg")],
 ["messages leaving each node vs. the list of their height; commits by joiners"])

prop("V01", "View changes are reported truthfully, once each",
 "Whenever a correct node gives up a round of a height it reports exactly one view change to its application, naming that height and the round given up, and it reports none otherwise. A reported reason that claims a later certificate names the round given up and a certificate round that is not it, which had reached it and by which it leaves the round; a reason that claims a missing proposal, block check or certificate is given only by a member that lacked it (a leader names too few votes, and of the right type).",
 ["schedules", "histories", "fault_sequences"], "For every path into a new round: timeouts, certificates, jumps, restarts.",
 "No test drives a running node through a view change and reads the reports.",
 [SP, "src/smr/smr_types.rs"], [("report", SP + " handle_new_round/view_change_reason"), ("reason", "src/smr/smr_types.rs FromWhere::to_reason")],
 ["Consensus::report_view_change"])

prop("H01", "Heights only move forward, and a newer status always moves the node",
 "A status for a height above a node's current one makes it start that height with the list and settings of that status and drop everything about older heights; a status for the same or a lower height changes nothing, also where the node is no member and only follows. Within one run a node never acts at a height below one it has acted at.",
 ["schedules", "histories", "inputs"], "For every interleaving of statuses (stale, duplicated, skipping heights) with votes, timers and commits in flight.",
 "No test sends statuses to a node in the middle of a round.",
 [SP, SM, COL], [("height change", SP + " goto_new_height"), ("state machine reset", SM + " goto_new_height"), ("flush of old data", COL + " flush")],
 ["heights in messages, log records and commits"])

prop("C01", "What is sent or logged is what is received or read back",
 "Every message a node or a faulty member sends, every status, commit and proof exchanged with the application, decodes from its encoding, and where it has one from its JSON form, to a value equal to the original. Every log record a node saves reads back after a restart to a record that encodes to the same bytes.",
 ["histories", "inputs", "fault_sequences"], "For every message and record that arises in any execution, including the extreme and malformed values of faulty members, membership changes, locks and evidence of every kind.",
 "Tests take a few random values of each type through the codec; they sample neither the shapes executions produce nor extreme fields.",
 [CO, "src/serde_hex.rs", "src/serde_multi_hex.rs", WA], [("codec", CO), ("JSON forms", "src/serde_hex.rs, src/serde_multi_hex.rs")], ["bytes of messages on the wire and of Wal::save"])
prop("C02", "The published leader and voter helpers agree with the running engine",
 "At every height and round of every execution the published helper that names a leader names the member whose proposal the running nodes send and to whom they send their votes, from the authority list of that height in any order. The published helper that reads a certificate's bitmap names exactly the members whose votes the certificate aggregates.",
 ["histories", "configurations"], "For every membership history, height, round and certificate of an execution.",
 "Tests compare neither helper with what a running node does.",
 [AU, SP], [("helpers", AU + " get_leader/extract_voters"), ("engine's leader", AU + " get_proposer, " + SP + " is_proposer"), ("engine's bitmap", SP + " generate_qc")], ["helper results vs. messages of running nodes"])

prop("P01", "Leadership rotates: every member gets its turn",
 "With the default leader election, among any n consecutive rounds of a height with n members no member leads twice, and among the first rounds of any n consecutive heights under one authority list no member leads twice. So every member leads once in any n consecutive rounds, and a faulty or slow leader can spoil no more than its share of rounds.",
 ["histories", "configurations", "fault_sequences"], "For every membership history, and every height and round running nodes reach, judged by whose proposals they send and where they send their votes.",
 "No test asks for the leaders of successive rounds or heights, and none watches whom running nodes follow.",
 [AU, SP, SM], [("leader of a round", AU + " get_proposer"), ("who proposes and where votes go", SP + " is_proposer/handle_vote")], ["proposals and vote targets of running nodes"])
prop("P02", "Weighted random election is agreed on, and follows the weights",
 "In a build with the random_leader feature all correct nodes follow the same leader at every height and round, a member without propose weight never leads, and the share of rounds each member leads follows its propose weight. Nothing that nodes agree on by leaders (agreement, one proposal per round, the published leader helper, first-round commits when nothing goes wrong) is lost there.",
 ["histories", "configurations", "schedules"], "For every list of weights (equal, skewed, zero, near the largest value), membership history, height and round reached in simulated runs of that build.",
 "The tests are not built with the feature; agreement about a randomised choice is a claim about all nodes, heights and lists at once.",
 [AU, "src/utils/rand_proposer.rs"], [("weighted choice", "src/utils/rand_proposer.rs get_random_proposer_index"), ("leader of a round", AU + " get_proposer")], ["proposals and vote targets of running nodes of that build", "get_leader"])

prop("A01", "The application is asked only about what is at stake",
 "A correct node asks its application for a block only for a height it works on, in a round it leads, as a member, and when the height before is stored. It asks it to check only blocks that the designated leader of a round of that height signed and proposed to it, or that it made itself, never others' inventions, altered contents or blocks of another height. What it proposes as new is a block its application made for that height.",
 ["histories", "inputs", "schedules", "fault_sequences"], "For " + NET + ", including outsiders' and faulty members' proposals in any round, with any content and lock proof, and membership changes.",
 "Tests drive single messages; which callbacks follow from forged proposals, cached proposals of later heights, restarts and membership changes is not looked at.",
 [SP, SM], [("verification before the check", SP + " handle_signed_proposal/verify_future_msg"), ("cached proposals of later heights", SP + " re_check_proposals"), ("own blocks", SP + " handle_new_round")], ["Consensus::get_block and check_block calls, proposals sent"])
prop("B01", "Memory held does not grow with heights decided or messages refused",
 "The memory a running node holds returns, at every height, to about what it was many heights before: nothing of decided heights is kept for ever, however many there were, however many of their rounds failed and however the lists changed. And nothing is kept for ever of messages it refuses or has no use for, such as forged, outdated, repeated, far-future and outsiders' ones.",
 ["histories", "inputs", "fault_sequences"], "For every long execution: fault-free, with failed rounds, alternating membership, or under a flood by faulty members and outsiders.",
 "Tests run a few heights at most and do not look at memory.",
 [SP, COL, TM], [("old heights dropped", SP + " goto_new_height"), ("collectors", COL + " flush/clear"), ("windows for early messages", SP + " filter_message"), ("timers", TM)], ["bytes allocated by each node's tasks and not freed"])
prop("N01", "Each thing is said once, to those it is for",
 "Within one run of a node its proposal of a round goes to everybody once, and each of its votes goes to the leader of its round alone, once. Calls to abandon a round go to everybody and are repeated only at the pace of the brake timeout; certificates go to everybody. What a node sends is bounded by the rounds it enters and the time it spends, not by what others send it.",
 ["histories", "schedules", "fault_sequences"], "For " + NET + ", membership changes, restarts with and without a log, starved tasks, and repeated or early messages.",
 "Tests look at single messages; repetition comes from timers, retries and repeated triggers meeting over a history.",
 [SP, SM, TM], [("audience", SP + " transmit/broadcast"), ("repeats", SM + " handle_brake, " + TM), ("start without a log", SP + " start_with_wal")], ["Consensus::broadcast_to_other and transmit_to_relayer"])

ids = [p["id"] for p in P]; assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
