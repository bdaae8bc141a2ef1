"""Planted bugs for plant.py."""
P, SM, T, C, A, W, CO, PV, TC, TY, O = (
    "state/process.rs", "smr/state_machine.rs", "timer.rs", "state/collection.rs", "utils/auth_manage.rs",
    "wal/wal_type.rs", "codec.rs", "state/parallel.rs", "utils/timer_config.rs", "types.rs", "overlord.rs")
BUGS = {
 "restart-revotes": dict(property="S04",
    edits=[(SM, "        self.step = info.step;\n", "        // A vote under way may have been lost, start the round over.\n        self.step = if info.step == Step::Prevote {\n            Step::Propose\n        } else {\n            info.step\n        };\n")],
    needs="a crash between a prevote and the next step, then another proposal of the same round or the proposal timeout",
    breaks="after the restart the node prevotes again in the round, for something else"),
 "stale-lock-dropped": dict(property="S06",
    edits=[(SM, "        } else if self.lock.is_none() {\n            self.set_proposal(proposal_hash);\n        }", "        } else {\n            // A lock nobody extended for more than a round is outdated.\n            let is_outdated = self\n                .lock\n                .as_ref()\n                .map_or(true, |lock| lock.round + 1 < self.round);\n            if is_outdated {\n                self.set_proposal(proposal_hash);\n            }\n        }")],
    needs="a node locked in round r, round r + 1 abandoned, a proposal without a lock proof in round r + 2 or later",
    breaks="the locked node prevotes the other block"),
 "proof-of-later-round": dict(property="S02",
    edits=[(P, "            round: qc.round,\n            block_hash: hash.clone(),\n            signature: qc.signature.clone(),", "            round: self.round,\n            block_hash: hash.clone(),\n            signature: qc.signature.clone(),")],
    needs="a precommit certificate that arrives after its round was left",
    breaks="the proof names a round the precommits are not of, so nobody can verify it"),
 "chokes-across-heights": dict(property="S09",
    edits=[(P, "        self.chokes.clear();\n", "        if self.round != INIT_ROUND {\n            self.chokes.clear();\n        }\n")],
    needs="abandonments of a round received at one height and, below the threshold, at the next",
    breaks="abandonments of the old height count at the new one: rounds end without a quorum"),
 "future-precommit-qc": dict(property="L04",
    edits=[(C, "        if let Some(tmp) = self.prevote.clone() {\n            res.push(tmp);\n        }\n\n        if let Some(tmp) = self.precommit.clone() {\n            res.push(tmp);\n        }\n        res", "        if let Some(tmp) = self.prevote.clone().or_else(|| self.precommit.clone()) {\n            res.push(tmp);\n        }\n        res")],
    needs="both certificates of a later height arrive while the node is still at a lower one",
    breaks="the precommit certificate kept for the height is lost when the node gets there"),
 "same-size-list": dict(property="M01",
    edits=[(P, "        let mut auth_list = status.authority_list.clone();\n        self.authority.update(&mut auth_list);\n\n        if let Some(interval)", "        let mut auth_list = status.authority_list.clone();\n        if auth_list.len() != self.authority.len() || !self.authority.contains(&self.address) {\n            self.authority.update(&mut auth_list);\n        }\n\n        if let Some(interval)")],
    needs="a status from synchronisation (not from a commit) with a list of the same size but other members",
    breaks="the node goes on with the old list at the new height"),
 "interval-with-config": dict(property="T01",
    edits=[(T, "                if let Some(interval) = new_interval {\n                    self.config.set_interval(interval);\n                }\n                if let Some(config) = new_config {\n                    self.config.update(config);\n                }", "                if let Some(config) = new_config {\n                    self.config.update(config);\n                } else if let Some(interval) = new_interval {\n                    self.config.set_interval(interval);\n                }")],
    needs="a status that changes the interval and brings timer ratios",
    breaks="the timeouts keep to the old interval"),
 "view-change-jump": dict(property="V01",
    edits=[(P, "            let last_round = self.round;\n", "            let last_round = new_round - 1;\n")],
    needs="a node that jumps over rounds by a later certificate",
    breaks="the round reported as given up is not the one the node was in"),
 "restart-evidence": dict(property="S10",
    edits=[(P, "        self.update_from_where = wal_info.from.clone();\n", "        if wal_info.step != Step::Propose {\n            self.update_from_where = wal_info.from.clone();\n        }\n")],
    needs="a crash in the propose step of a round above the first, then the abandonment of that round",
    breaks="the abandonment carries no evidence of how the round was reached"),
 "brake-record-without-lock": dict(property="R01",
    edits=[(P, "        self.save_wal_with_lock_round(Step::Brake, lock_round)\n            .await?;\n        self.broadcast", "        self.save_wal_with_lock_round(\n            Step::Brake,\n            lock_round.filter(|round| *round == self.round),\n        )\n        .await?;\n        self.broadcast")],
    needs="a lock of an earlier round, the abandonment of a later one, a crash before the next record",
    breaks="the record of the abandonment holds no lock: after a restart the node is free to vote for another block"),
 "forged-polc": dict(property="S11",
    edits=[(PV, "                if let Some(polc) = sp.proposal.lock {", "                // The votes of the last round are at hand, only earlier ones need the check.\n                let last_round = sp.proposal.round.saturating_sub(1);\n                if let Some(polc) = sp\n                    .proposal\n                    .lock\n                    .filter(|polc| polc.lock_votes.round < last_round)\n                {")],
    needs="a faulty leader with a forged certificate of the round before its own",
    breaks="a forged lock proof releases an honest lock"),
 "padded-bitmap": dict(property="R05",
    edits=[(A, "        let voters = bitmap\n            .iter()\n            .zip(self.address.iter())\n            .filter(|node| node.0)\n            .map(|node| node.1.clone())\n            .collect::<Vec<_>>();\n        Ok(voters)", "        let mut voters = Vec::with_capacity(self.address.len());\n        for (index, is_voter) in bitmap.iter().enumerate() {\n            if is_voter {\n                voters.push(self.address[index].clone());\n            }\n        }\n        Ok(voters)")],
    needs="a certificate whose bitmap sets a padding bit, best inside an abandon-round message",
    breaks="the node panics"),
 "leader-of-unsorted": dict(property="C02",
    edits=[(A, "    authority_list.sort();\n    let mut weight_sum = 0u64;", "    if cfg!(feature = \"random_leader\") {\n        authority_list.sort();\n    }\n    let mut weight_sum = 0u64;")],
    needs="an authority list that is not in address order",
    breaks="the published helper names another leader than the engine follows"),
 "paced-from-late": dict(property="T02",
    edits=[(P, "            sleep(Duration::from_millis(self.block_interval) - cost).await;", "            let rest = self.block_interval - (cost.as_secs() * 1000);\n            sleep(Duration::from_millis(rest)).await;")],
    needs="a height that took a good part of the interval",
    breaks="the next leader waits a whole interval after the commit, not what is left of it"),
 "unchecked-at-new-height": dict(property="S08",
    edits=[(P, "        if resp.height != self.height {\n            return Ok(());\n        }\n\n        let block_hash", "        if resp.height > self.height {\n            return Ok(());\n        }\n\n        let block_hash")],
    needs="a slow check of one height that ends at the next, where the same block is offered and refused",
    breaks="the check of an earlier height counts at the later one"),

 "power-lost-height": dict(property="H01",
    edits=[(P, """        let new_height = status.height;
        self.height = new_height;
        self.round = INIT_ROUND;

        // Check the consensus power.
        self.consensus_power = status.is_consensus_node(&self.address);
        if !self.consensus_power {
            log::info!(
                "Overlord: self does not have consensus power height {}",
                new_height
            );
            return Ok(());
        }
""", """        let new_height = status.height;

        // Check the consensus power.
        self.consensus_power = status.is_consensus_node(&self.address);
        if !self.consensus_power {
            log::info!(
                "Overlord: self does not have consensus power height {}",
                new_height
            );
            return Ok(());
        }

        self.height = new_height;
        self.round = INIT_ROUND;
""")],
    needs="a status without the node, then a late status of a height in between that still has it",
    breaks="the node goes back to a height below one it has been told of and takes part there"),
 "commit-refused-moves-on": dict(property="R03",
    edits=[(P, """        let ctx = Context::new();
        let status = self
            .function
            .commit(ctx.clone(), height, commit)
            .await
            .map_err(|err| ConsensusError::Other(format!("commit error {:?}", err)))?;
""", """        let ctx = Context::new();
        let status = match self.function.commit(ctx.clone(), height, commit).await {
            Ok(status) => status,
            Err(err) => {
                // The block is decided, do not hold up the others because of it.
                log::error!("Overlord: commit error {:?}", err);
                let authority_list = self
                    .function
                    .get_authority_list(ctx.clone(), height + 1)
                    .await
                    .map_err(|err| ConsensusError::Other(format!("commit error {:?}", err)))?;
                Status {
                    height: height + 1,
                    interval: None,
                    timer_config: None,
                    authority_list,
                }
            }
        };
""")],
    needs="an application that refuses a commit and has not stored the block",
    breaks="the node goes on to the next height and hands it over though the one before is not stored"),
 "proposes-again-after-restart": dict(property="S05",
    edits=[(SM, "        self.throw_timer_event(event)\n", """        match event {
            // Whoever leads the round has to propose.
            SMREvent::NewRoundInfo { .. } => self.throw_event(event),
            _ => self.throw_timer_event(event),
        }
""")],
    needs="a leader that crashes after it has proposed and before its own prevote is logged, and an application whose next block differs",
    breaks="the restarted leader proposes another block in the same round"),
 "precommit-of-old-lock": dict(property="S07",
    edits=[(SM, """                height: self.height,
                round: self.round,
                block_hash: Hash::new(),
                lock_round: round,
            })?;
            self.goto_step(Step::Precommit);""", """                height: self.height,
                round: self.round,
                block_hash: self.block_hash.clone(),
                lock_round: round,
            })?;
            self.goto_step(Step::Precommit);""")],
    needs="a node locked in an earlier round whose prevote times out in a later one",
    breaks="it precommits the locked block in a round that has no prevote quorum"),
 "brake-restart-unlocked": dict(property="R02",
    edits=[(W, "            polc: self.lock.map(|polc| polc.to_lock()),", """            // In the propose step the lock is that of the round before, the proposal brings its own.
            polc: self
                .lock
                .filter(|_| self.step != Step::Propose)
                .map(|polc| polc.to_lock()),""")],
    needs="a crash of a locked node right after it entered a later round",
    breaks="after the restart it is free to vote for another block"),
 "power-by-old-list": dict(property="M01",
    edits=[(P, "        self.consensus_power = status.is_consensus_node(&self.address);\n", """        self.consensus_power = if status.authority_list.is_empty() {
            self.consensus_power
        } else if self.consensus_power {
            // A member stays one until the list it works with says otherwise.
            self.authority.contains(&self.address)
        } else {
            status.is_consensus_node(&self.address)
        };
""")],
    needs="a member removed by a status of synchronisation, not by its own commit",
    breaks="the removed node goes on taking part at the first height without it"),
 "own-vote-before-log": dict(property="R01",
    edits=[(P, """        self.save_wal_with_lock_round(vote_type.clone().into(), lock_round)
            .await?;

        if self.is_leader {
            self.votes.insert_vote(
                Context::new(),
                signed_vote.get_hash(),
                signed_vote,
                self.address.clone(),
            );
        } else {""", """        if self.is_leader {
            self.votes.insert_vote(
                Context::new(),
                signed_vote.get_hash(),
                signed_vote.clone(),
                self.address.clone(),
            );
        }

        self.save_wal_with_lock_round(vote_type.clone().into(), lock_round)
            .await?;

        if !self.is_leader {""")],
    needs="a leader whose log fails at its own vote, then the votes of the others",
    breaks="the certificate it sends contains its own vote, of which its log knows nothing"),
 "check-after-certificate": dict(property="L04",
    edits=[(P, """        } else if let Some(qc) =
            self.votes
                .get_qc_by_hash(self.height, block_hash, VoteType::Prevote)
        {""", """        } else if let Some(qc) = self
            .votes
            .get_qc_by_hash(self.height, block_hash, VoteType::Prevote)
            .filter(|qc| qc.leader == self.address)
        {""")],
    needs="a replica whose check of the block ends after the prevote certificate has come",
    breaks="it never precommits in that round although it has everything it needs"),
 "three-quarters-abandon": dict(property="L03",
    edits=[(C, "            if set.len() * 3 > nodes_num * 2 {", "            if set.len() * 4 >= nodes_num * 3 {")],
    needs="a list of seven (or ten) members with the most it can bear of them silent, and a round to abandon",
    breaks="the others never get enough abandonments: no progress"),
 "lock-jumped-over": dict(property="S06",
    edits=[(SM, "        self.round = round - 1;\n        let (lock_round, lock_proposal) = self", "        let last_round = round - 1;\n        // The rounds jumped over may have had a later lock, the proposal will bring it.\n        if last_round > self.round {\n            self.remove_polc();\n        }\n        self.round = last_round;\n        let (lock_round, lock_proposal) = self")],
    needs="a locked node that misses two rounds and follows by an abandonment certificate",
    breaks="the lock is given up without any newer quorum"),
 "votes-of-skipped-heights": dict(property="B01",
    edits=[(C, "    /// Remove items that height is less than `till`.\n    pub fn flush(&mut self, till: u64) {\n        self.0 = self.0.split_off(&till);\n    }\n}\n\n/// A struct to collect votes in each round.", "    /// Remove the items of the height before `till`, those before it are gone already.\n    pub fn flush(&mut self, till: u64) {\n        self.0.remove(&till.wrapping_sub(1));\n    }\n}\n\n/// A struct to collect votes in each round.")],
    needs="votes kept of heights the node then passes over by synchronisation, again and again",
    breaks="what was kept of heights passed over is never released"),
 "half-way-step": dict(property="P01",
    edits=[(A, "    let prime_num = *get_primes_less_than_x(len).last().unwrap_or(&1) as u64;", "    // In a long list a step of about half of it keeps the leaders of adjacent heights apart.\n    let bound = if len > 8 { len / 2 + 1 } else { len };\n    let prime_num = *get_primes_less_than_x(bound).last().unwrap_or(&1) as u64;")],
    needs="nine members or more, of a number that shares a factor with the step, and several heights",
    breaks="most members never lead the first round of any height"),
 "votes-to-all-on-failure": dict(property="N01",
    edits=[(P, "        let _ = self\n            .function\n            .transmit_to_relayer(ctx, self.leader_address.clone(), msg.clone())\n            .await\n            .map_err(|err| {\n                log::error!(\n                    \"Overlord: state transmit message to leader failed {:?}\",\n                    err\n                );\n            });", "        let res = self\n            .function\n            .transmit_to_relayer(ctx.clone(), self.leader_address.clone(), msg.clone())\n            .await;\n        if let Err(err) = res {\n            log::error!(\n                \"Overlord: state transmit message to leader failed {:?}\",\n                err\n            );\n            // Someone will relay it.\n            self.broadcast(ctx, msg).await;\n        }")],
    needs="a failing transmission to the leader",
    breaks="the vote goes to everybody"),
 "leader-drops-early-proposal": dict(property="L04",
    edits=[(P, "        if let Some(proposals) = self.proposals.get_height_proposals(self.height) {\n            self.re_check_proposals(proposals).await?;\n        }", "        if let Some(proposals) = self.proposals.get_height_proposals(self.height) {\n            // A leader makes its own.\n            if !self.is_leader {\n                self.re_check_proposals(proposals).await?;\n            }\n        }")],
    needs="a node that led the last round of a height and gets the next proposal before it is there itself",
    breaks="the proposal kept for the height is dropped, the node prevotes nil"),
 "one-choke-after-restart": dict(property="L01",
    edits=[(SM, "            Step::Brake => SMREvent::Brake {\n                height: self.height,\n                round: self.round,\n                lock_round,\n            },\n            _ => unreachable!(),\n        };", "            // It has called for the next round already.\n            Step::Brake => return Ok(()),\n            _ => unreachable!(),\n        };")],
    needs="a crash in the brake step, and the first call to abandon after the restart lost",
    breaks="the restarted node never calls again: the round does not end"),
 "weight-of-zero": dict(property="C01",
    edits=[(CO, "                let propose_weight: u32 = r.val_at(1)?;\n                let vote_weight: u32 = r.val_at(2)?;\n                Ok(Node {", "                // Zero stands for a weight that was not set.\n                let propose_weight: u32 = r.val_at::<u32>(1)?.max(1);\n                let vote_weight: u32 = r.val_at::<u32>(2)?.max(1);\n                Ok(Node {")],
    needs="an authority list with a weight of zero",
    breaks="the member decodes with another weight than was encoded"),
 "prepared-block": dict(property="A01",
    edits=[(P, "        let ctx = Context::new();\n        let status = self\n            .function\n            .commit(ctx.clone(), height, commit)", "        let ctx = Context::new();\n        let app = Arc::clone(&self.function);\n        if self.next_proposer(height + 1, INIT_ROUND)?\n            && Instant::now() - self.height_start > Duration::from_millis(self.block_interval)\n        {\n            // Late already: let the application prepare its block.\n            let _ = app.get_block(ctx.clone(), height + 1).await;\n        }\n        let status = app\n            .commit(ctx.clone(), height, commit)")],
    needs="a height that took longer than the interval, at the leader of the next",
    breaks="the application is asked for the next block before this one is stored"),
 "removed-node-runs-on": dict(property="R04",
    edits=[(P, "                    if self.stopped {\n                        break;\n                    }\n\n                    if !self.consensus_power {\n                        continue;\n                    }\n\n                    if let Err(e) = self.handle_event(evt).await{", "                    if !self.consensus_power {\n                        continue;\n                    }\n\n                    if self.stopped {\n                        break;\n                    }\n\n                    if let Err(e) = self.handle_event(evt).await{")],
    needs="a stop of a node that is not in the current authority list",
    breaks="run does not return"),
 "weights-before-sorting": dict(property="P02", features='"random_leader"',
    edits=[(A, "        self.flush();\n        authority_list.sort();\n\n        for node in authority_list.iter_mut() {\n            let propose_weight = u64::from(node.propose_weight);\n            let vote_weight = node.vote_weight;\n\n            self.address.push(node.address.clone());\n            self.propose_weights.push(propose_weight);\n", "        self.flush();\n        self.propose_weights\n            .extend(authority_list.iter().map(|n| u64::from(n.propose_weight)));\n        authority_list.sort();\n\n        for node in authority_list.iter_mut() {\n            let propose_weight = u64::from(node.propose_weight);\n            let vote_weight = node.vote_weight;\n\n            self.address.push(node.address.clone());\n")],
    needs="the random_leader feature, unequal propose weights, a list that is not in address order",
    breaks="members lead by the weights of others, a member without weight may lead"),

 "own-abandonment-first": dict(property="L05",
    edits=[(P, "            if round < self.round {\n                return Ok(());\n            }\n\n            log::debug!(\"Overlord: round {} chokes above threshold\", round);", "            // The certificate is made with the own choke among the others.\n            let with_own = self\n                .chokes\n                .get_chokes(round)\n                .map_or(false, |all| all.iter().any(|sc| sc.address == self.address));\n            if round < self.round || !with_own {\n                return Ok(());\n            }\n\n            log::debug!(\"Overlord: round {} chokes above threshold\", round);")],
    needs="more than two thirds of the others abandon a round before this node's timers do",
    breaks="it stays in the abandoned round until its own timeouts have passed"),
 "certificate-of-nothing-waits": dict(property="L05",
    edits=[(SM, "            if precommit_round < self.round {\n                return Ok(());\n            }\n", "            // One that comes before the own vote is looked at again with the vote.\n            let before_vote = precommit_round == self.round && self.step < Step::Prevote;\n            if precommit_round < self.round || before_vote {\n                return Ok(());\n            }\n")],
    needs="a certificate that precommits nothing reaches a node that still waits for the proposal of that round",
    breaks="the node sits out the round that is over instead of joining the next one"),
 "content-of-the-round": dict(property="S03",
    edits=[(P, "        let content = if let Some(tmp) = self.hash_with_block.get(&hash) {\n            tmp.to_owned()\n        } else {", "        let of_round = self\n            .proposals\n            .get(height, self.round)\n            .ok()\n            .filter(|(sp, _)| sp.proposal.block_hash == hash)\n            .map(|(sp, _)| sp.proposal.content);\n        let content = if let Some(tmp) = of_round {\n            tmp\n        } else if let Some(tmp) = self.hash_with_block.get(&hash) {\n            tmp.to_owned()\n        } else {")],
    needs="a later leader proposes the hash of a block that was accepted in an earlier round with other content, and that round decides",
    breaks="content that nobody has accepted is committed under the certified hash"),
 "config-needs-interval": dict(property="T01",
    edits=[(T, "                    self.config.set_interval(interval);\n                }\n                if let Some(config) = new_config {\n                    self.config.update(config);\n                }", "                    self.config.set_interval(interval);\n                    if let Some(config) = new_config {\n                        self.config.update(config);\n                    }\n                }")],
    needs="a status that changes the timer ratios and says nothing of the interval",
    breaks="the node keeps to the old ratios"),
 "precommit-before-check": dict(property="L02",
    edits=[(P, "        let tmp_type: String = vote_type.to_string();\n\n        // All the votes must pass", "        let tmp_type: String = vote_type.to_string();\n        // There is nothing to decide about a block which has not been checked.\n        if height == self.height\n            && vote_type == VoteType::Precommit\n            && !self.try_get_full_txs(&signed_vote.vote.block_hash)\n        {\n            return Ok(());\n        }\n\n        // All the votes must pass"), (P, "        // Check if the quorum certificate has generated before check whether there is a hash that\n        // vote weight", "        // Check if the quorum certificate has been generated before, then whether there is a hash that\n        // vote weight")],
    needs="a leader whose check of its own block takes longer than the others' checks and a round trip",
    breaks="their precommits are lost, and a round with everybody up and in time fails"),
 "pending-check-passed": dict(property="V01",
    edits=[(P, "            .get(&proposal.proposal.block_hash)\n            .is_none()\n        {\n            return ViewChangeReason::CheckBlockNotPass;", "            .get(&proposal.proposal.block_hash)\n            .map_or(false, |is_pass| !*is_pass)\n        {\n            return ViewChangeReason::CheckBlockNotPass;")],
    needs="a round given up while the block of its proposal has not passed the check",
    breaks="the application is told that a certificate was missing, not that its own check has not passed"),
 "kept-certificate-trusted": dict(property="S02",
    edits=[(P, "        for item in qcs.into_iter() {\n            parallel_verify(\n                Context::new(),\n                OverlordMsg::AggregatedVote(item),", "        for item in qcs.into_iter() {\n            // What the leader of the round has gathered goes to the collector at once.\n            if self.authority.get_proposer(item.height, item.round)? == item.leader\n                && self.authority.is_above_threshold(&item.signature.address_bitmap)?\n            {\n                let _ = self.handle_aggregated_vote(Context::new(), item).await;\n                continue;\n            }\n            parallel_verify(\n                Context::new(),\n                OverlordMsg::AggregatedVote(item),"), (P, "        log::debug!(\"Overlord: state re-check future QCs\");", "        log::debug!(\"Overlord: state re-check the QCs of the height\");")],
    needs="a forged precommit certificate that arrives a height early, with the bitmap of a quorum and the right leader",
    breaks="it is believed without a look at its signature, and the block is committed with a proof nobody can verify"),
 "old-lock-not-restored": dict(property="R02",
    edits=[(P, "        if wal_info.lock.is_some() {\n            let lock = wal_info.lock.clone().unwrap();", "        // An older lock has been left behind by the rounds since.\n        if wal_info.lock.as_ref().map_or(false, |lock| lock.lock_round + 1 >= self.round) {\n            let lock = wal_info.lock.clone().unwrap();")],
    needs="a node locked in round r that crashes in round r + 2 or later",
    breaks="the restarted node has no certificate for its lock, cannot log a vote and does not vote in the round again"),
 "voters-with-weight": dict(property="C02",
    edits=[(A, "        .filter(|pair| pair.0) //the bitmap must hit", "        .filter(|pair| pair.0 && pair.1.vote_weight > 0)")],
    needs="a member without vote weight whose vote is in a certificate",
    breaks="the published helper leaves out a member whose signature is aggregated: the proof cannot be verified with what it names"),
 "second-vote-counts-too": dict(property="S10",
    edits=[(C, "            if vote.vote.block_hash != exist.0.vote.block_hash {\n                // this is a byzantine behaviour\n", "            if vote.vote.block_hash == exist.0.vote.block_hash {\n                return;\n            } else {\n                // this is a byzantine behaviour\n"), (C, "                exist,vote);\n            }\n            return;\n", "                exist,vote);\n            }\n"), (C, "        self.by_address.entry(addr).or_insert((vote, ctx));", "        self.by_address.insert(addr, (vote, ctx));")],
    needs="a faulty member that votes for two blocks, the first of which gets a quorum only with its vote",
    breaks="the certificate holds its signature of the other block and cannot be verified"),
}
