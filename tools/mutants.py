"""Source changes for campaign.py: NAME: (property, [(file under src, old text, new text), ...])."""
P, SM, T, C, A, W, CO, PV, TC, TY, O = (
    "state/process.rs", "smr/state_machine.rs", "timer.rs", "state/collection.rs", "utils/auth_manage.rs",
    "wal/wal_type.rs", "codec.rs", "state/parallel.rs", "utils/timer_config.rs", "types.rs", "overlord.rs")
MUTANTS = {
 # --- safety
 "unlock_next_round": ("S06", [(SM, "        self.round += 1;\n        self.goto_step(Step::Propose);\n", "        self.round += 1;\n        self.lock = None;\n        self.goto_step(Step::Propose);\n")]),
 "old_prevote_relocks": ("S06", [
    (SM, "        if prevote_round < self.round {\n            return Ok(());\n        }\n\n        self.update_polc", "        self.update_polc"),
    (P, "if qc_type == VoteType::Prevote && vote_round < self.round {", "if qc_type == VoteType::Prevote && vote_round + 1 < self.round {")]),
 "lock_proposal_equal": ("S06", [(SM, "if lock_round > lock.round {", "if lock_round + 1 > lock.round {")]),
 "polc_no_lock_round": ("S06", [(SM, "        } else if self.lock.is_none() {\n            self.set_proposal(proposal_hash);\n        }", "        } else if self.lock.is_none() || self.round > self.lock.as_ref().unwrap().round + 1 {\n            self.set_proposal(proposal_hash);\n        }")]),
 "wal_forgets_step": ("S04", [(SM, "        self.step = info.step;\n        if let", "        self.step = if info.step == Step::Prevote { Step::Propose } else { info.step };\n        if let")]),
 "wal_forgets_precommit_step": ("S04", [(SM, "        self.step = info.step;\n        if let", "        self.step = if info.step == Step::Precommit { Step::Prevote } else { info.step };\n        if let")]),
 "wal_forgets_lock": ("R02", [(SM, "        self.lock = info.polc;\n", "        self.lock = if info.round == 0 { info.polc } else { None };\n")]),
 "restart_brake_revotes": ("S04", [(SM, "        self.step = info.step;\n        if let", "        self.step = if info.step == Step::Brake { Step::Precommit } else { info.step };\n        if let")]),
 "restart_reproposes": ("S05", [(SM, "        self.throw_timer_event(event)\n    }\n\n    /// Goto", "        if self.step == Step::Propose {\n            return self.throw_event(event);\n        }\n        self.throw_timer_event(event)\n    }\n\n    /// Goto")]),
 "timer_prevote_again": ("S04", [(SM, "        if self.step > Step::Propose {\n            return Ok(());\n        }", "        if self.step > Step::Propose && source == TriggerSource::State {\n            return Ok(());\n        }")]),
 "precommit_again": ("S04", [(SM, "if prevote_round == self.round && self.step > Step::Prevote && !leave_brake {", "if prevote_round == self.round && self.step > Step::Precommit && !leave_brake {")]),
 "vote_after_save_fail": ("R01", [(P, "        self.save_wal_with_lock_round(vote_type.clone().into(), lock_round)\n            .await?;\n", "        if let Err(e) = self.save_wal_with_lock_round(vote_type.clone().into(), lock_round).await {\n            log::error!(\"Overlord: {:?}\", e);\n        }\n")]),
 "choke_before_save": ("R01", [(P, "        self.save_wal_with_lock_round(Step::Brake, lock_round)\n            .await?;\n        self.broadcast(Context::new(), OverlordMsg::SignedChoke(signed_choke))\n            .await;\n", "        self.broadcast(Context::new(), OverlordMsg::SignedChoke(signed_choke))\n            .await;\n        self.save_wal_with_lock_round(Step::Brake, lock_round)\n            .await?;\n")]),
 "wal_lock_round_is_qc_hash": ("R02", [(W, "            round: self.lock_round,\n            hash", "            round: self.lock_round + 1,\n            hash")]),
 "wal_no_lock_in_brake": ("R01", [(P, "        self.save_wal_with_lock_round(Step::Brake, lock_round)\n", "        self.save_wal_with_lock_round(Step::Brake, lock_round.filter(|r| *r == self.round))\n")]),
 "wal_no_lock_new_round": ("R01", [(P, "        self.save_wal_with_lock_round(Step::Propose, lock_round)\n            .await?;", "        self.save_wal(Step::Propose, None).await?;")]),
 "commit_no_wal": ("R01", [(P, "        self.save_wal(Step::Commit, polc).await?;\n", "        let _ = self.save_wal(Step::Commit, polc).await;\n")]),
 "full_tx_any": ("S08", [(P, "        } else if let Some(res) = self.is_full_transaction.get(hash) {\n            return *res;\n        }\n        false", "        } else if let Some(res) = self.is_full_transaction.get(hash) {\n            return *res;\n        }\n        self.is_leader && self.hash_with_block.contains_key(hash)")]),
 "resp_any_height": ("S08", [(P, "        if resp.height != self.height {\n            return Ok(());\n        }\n\n        let block_hash", "        if resp.height > self.height {\n            return Ok(());\n        }\n\n        let block_hash")]),
 "keep_full_tx": ("S08", [(P, "        self.is_full_transaction.clear();\n", "")]),
 "check_fail_pass": ("S08", [(P, "        .map_err(|err| ConsensusError::Other(format!(\"check {} block error {:?}\", height, err)))?;\n\n    log", "        .map_err(|err| ConsensusError::Other(format!(\"check {} block error {:?}\", height, err)))\n        .or_else(|e| if round > 2 { Ok(()) } else { Err(e) })?;\n\n    log")]),
 "chokes_not_cleared": ("S09", [(P, "        self.chokes.clear();\n", "")]),
 "choke_ge": ("S09", [(C, "if set.len() * 3 > nodes_num * 2 {", "if set.len() * 3 >= nodes_num * 2 {")]),
 "choke_half": ("S09", [(C, "if set.len() * 3 > nodes_num * 2 {", "if set.len() * 2 > nodes_num {")]),
 "aggchoke_ge": ("S09", [(P, "if aggregated_choke.len() * 3 <= self.authority.len() * 2 {", "if aggregated_choke.len() * 3 < self.authority.len() * 2 {")]),
 "choke_sum_rounds": ("S09", [(C, "            if set.len() * 3 > nodes_num * 2 {\n                return Some(*round);\n            }", "            let all = self.chokes.range(*round..).flat_map(|x| x.1.keys()).collect::<HashSet<_>>();\n            if !set.is_empty() && all.len() * 3 > nodes_num * 2 {\n                return Some(*round);\n            }")]),
 "count_ge": ("S10", [(P, "            if acc * 3 > threshold {", "            if acc * 3 >= threshold {")]),
 "threshold_ge": ("S11", [(A, "        Ok(acc * 3 > self.vote_weight_sum * 2)", "        Ok(acc * 3 >= self.vote_weight_sum * 2)")]),
 "bitmap_all_seen": ("S10", [(P, "            .get_votes(self.height, self.round, vote_type.clone(), &block_hash)?\n            .into_iter()", "            .get_votes(self.height, self.round, vote_type.clone(), &block_hash)?\n            .into_iter()\n            .filter(|v| v.0.vote.block_hash == block_hash)")]),
 "proof_round_self": ("S02", [(P, "            round: qc.round,\n            block_hash: hash.clone(),\n            signature", "            round: self.round,\n            block_hash: hash.clone(),\n            signature")]),
 "vote_replace": ("S10", [(C, "                exist,vote);\n            }\n            return;", "                exist,vote);\n            } else {\n            return;\n            }")]),
 "no_verify_voter": ("S02", [(P, "        self.verify_address(&voter)?;\n", "")]),
 "no_proposer_check_future": ("S11", [(P, "        if address != &self.authority.get_proposer(height, round)? {", "        if height == self.height && address != &self.authority.get_proposer(height, round)? && round <= self.round {")]),
 "polc_sig_not_checked": ("S11", [(PV, "                if let Some(polc) = sp.proposal.lock {", "                if let Some(polc) = sp.proposal.lock.filter(|p| p.lock_round + 1 >= sp.proposal.round) {")]),
 "proposal_sig_skipped_with_lock": ("S11", [(PV, "                if let Err(err) = crypto.verify_signature(\n                    sp.signature.clone(),\n                    hash,\n                    sp.proposal.proposer.clone(),\n                ) {", "                if let Err(err) = crypto.verify_signature(\n                    sp.signature.clone(),\n                    hash,\n                    sp.proposal.proposer.clone(),\n                ).or_else(|e| if sp.proposal.lock.is_some() { Ok(()) } else { Err(e) }) {")]),
 "vote_sig_skipped": ("S10", [(PV, "                    .verify_signature(sv.signature.clone(), hash, sv.voter.clone())\n                    .map_or_else(", "                    .verify_signature(sv.signature.clone(), hash, sv.voter.clone())\n                    .or_else(|e| if sv.is_prevote() { Err(e) } else { Ok(()) })\n                    .map_or_else(")]),
 # --- liveness
 "no_recheck_qcs": ("L04", [(P, "            self.re_check_qcs(qcs).await?;\n", "            let _ = qcs;\n")]),
 "no_recheck_votes": ("L04", [(P, "            self.re_check_votes(votes).await?;\n", "            let _ = votes;\n")]),
 "no_recheck_props": ("L04", [(P, "            self.re_check_proposals(proposals).await?;\n", "            let _ = proposals;\n")]),
 "flush_too_much": ("L04", [(P, "        self.votes.flush(new_height - 1);\n", "        self.votes.flush(new_height + 1);\n")]),
 "flush_props_too_much": ("L04", [(P, "        self.proposals.flush(new_height - 1);\n", "        self.proposals.flush(new_height + 1);\n")]),
 "gap_small": ("L04", [(P, "if self.height + FUTURE_HEIGHT_GAP > vote_height && vote_round < FUTURE_ROUND_GAP {", "if self.height + 1 == vote_height && vote_round < FUTURE_ROUND_GAP {")]),
 "future_round_prop_dropped": ("L04", [(P, "        if (height == self.height && round != self.round) || height > self.height {", "        if height == self.height && round > self.round + 1 { return Ok(true); }\n        if (height == self.height && round != self.round) || height > self.height {")]),
 "brake_not_repeated": ("L01", [(SM, "        if height != self.height || round != self.round {\n            Ok(())\n        } else {\n            log::debug!(\n                \"Overlord: SMR brake timeout", "        if height != self.height || round != self.round || self.step != Step::Brake || round > 1 {\n            Ok(())\n        } else {\n            log::debug!(\n                \"Overlord: SMR brake timeout")]),
 "wal_no_timer": ("L01", [(SM, "        self.lock = info.polc;\n        self.set_timer_after_wal()", "        self.lock = info.polc;\n        if self.step == Step::Precommit { return Ok(()); }\n        self.set_timer_after_wal()")]),
 "choke_higher_ignored": ("L01", [(P, "                UpdateFrom::ChokeQC(qc) => {\n                    self.verify_aggregated_choke(&qc)?;\n                    return", "                UpdateFrom::ChokeQC(qc) => {\n                    self.verify_aggregated_choke(&qc)?;\n                    if qc.round > self.round { return Ok(()); }\n                    return")]),
 "leader_address_stale": ("L01", [(P, "        self.leader_address = proposer;\n        self.is_leader = false;", "        if self.is_leader || self.leader_address.is_empty() || self.round < 2 { self.leader_address = proposer; }\n        self.is_leader = false;")]),
 "resp_no_precommit": ("L01", [(P, "        if let Some(qc) =\n            self.votes\n                .get_qc_by_hash(self.height, block_hash.clone(), VoteType::Precommit)\n        {\n            self.state_machine", "        if let Some(qc) =\n            self.votes\n                .get_qc_by_hash(self.height, block_hash.clone(), VoteType::Precommit)\n                .filter(|qc| qc.round == self.round)\n        {\n            self.state_machine")]),
 "precommit_old_round_ignored": ("L04", [(P, "            && aggregated_vote.block_hash.is_empty()\n            && vote_round < self.round", "            && vote_round < self.round")]),
 # --- log / restart
 "commit_wal_lost": ("R02", [(P, "        if wal_info.step == Step::Commit {", "        if wal_info.step == Step::Commit && wal_info.round == 0 {")]),
 "wal_lost_round": ("R02", [(P, "        self.round = wal_info.round;\n", "        self.round = if wal_info.step == Step::Propose { INIT_ROUND } else { wal_info.round };\n")]),
 "update_from_lost": ("S10", [(P, "        self.update_from_where = wal_info.from.clone();\n", "")]),
 # --- order, heights
 "status_equal": ("H01", [(P, "        if status.height <= self.height {", "        if status.height < self.height {"), (SM, "        } else if height <= self.height {", "        } else if height < self.height {")]),
 "status_list_same_len": ("M01", [(P, "        let mut auth_list = status.authority_list.clone();\n        self.authority.update(&mut auth_list);\n\n        if let Some(interval)", "        let mut auth_list = status.authority_list.clone();\n        if auth_list.len() != self.authority.len() { self.authority.update(&mut auth_list); }\n\n        if let Some(interval)")]),
 "power_kept": ("M01", [(P, "        self.consensus_power = status.is_consensus_node(&self.address);\n", "        self.consensus_power = status.is_consensus_node(&self.address) || self.is_leader;\n")]),
 "interval_not_applied": ("T02", [(P, "            self.block_interval = interval;\n", "            self.block_interval = interval.min(self.block_interval);\n")]),
 "timer_interval_stale": ("T01", [(T, "                if let Some(interval) = new_interval {\n                    self.config.set_interval(interval);\n                }", "                if let Some(interval) = new_interval.filter(|_| round == 0 && height % 2 == 0) {\n                    self.config.set_interval(interval);\n                }")]),
 "brake_scaled": ("T01", [(T, "SMREvent::Brake { .. } => is_brake_timer = true,", "SMREvent::Brake { round, .. } => is_brake_timer = round < 3,")]),
 "coef": ("T01", [(T, "const MAX_TIMEOUT_COEF: u32 = 5;", "const MAX_TIMEOUT_COEF: u32 = 4;")]),
 "pace_full": ("T02", [(P, "            sleep(Duration::from_millis(self.block_interval) - cost).await;", "            sleep(Duration::from_millis(self.block_interval)).await;")]),
 "pace_wrong_leader": ("T02", [(P, "        if self.next_proposer(status.height, INIT_ROUND)?\n", "        if self.is_leader\n")]),
 "pace_not": ("T02", [(P, "        self.height_start = Instant::now();\n        let mut auth_list", "        let mut auth_list")]),
 "vc_round": ("V01", [(P, "            let last_round = self.round;\n            let reason", "            let last_round = new_round - 1;\n            let reason")]),
 "vc_before_filter": ("V01", [(P, "        if new_round != INIT_ROUND {\n            let last_round", "        if new_round > INIT_ROUND + 1 || self.round != INIT_ROUND || lock_round.is_none() {\n            let last_round")]),
 "vc_reason_leader": ("V01", [(P, "        if round != update_from.get_round() {\n            return update_from.to_reason(round);\n        }", "        if round < update_from.get_round() + 1 {\n            return update_from.to_reason(round);\n        }")]),
 "vc_no_proposal": ("V01", [(P, "        if proposal.is_err() {\n            return ViewChangeReason::NoProposalFromNetwork;", "        if proposal.is_err() || proposal.as_ref().unwrap().0.proposal.lock.is_some() {\n            return ViewChangeReason::NoProposalFromNetwork;")]),
 "stop_late": ("R04", [(P, "                    if self.stopped {\n                        break;\n                    }", "                    if self.stopped && self.consensus_power {\n                        break;\n                    }")]),
 "codec_bitmap": ("C01", [(CO, "                let address_bitmap = Bytes::from(tmp);", "                let mut tmp = tmp;\n                while tmp.len() > 1 && tmp.last() == Some(&0) { tmp.pop(); }\n                let address_bitmap = Bytes::from(tmp);")]),
 "extract_unsorted": ("C02", [(A, "    authority_list.sort();\n    let bitmap", "    let bitmap")]),
 "leader_unsorted": ("C02", [(A, "    authority_list.sort();\n    let mut weight_sum = 0u64;", "    let mut weight_sum = 0u64;")]),
 "leader_prime": ("C02", [(A, "    let len = authority_len as u32;", "    let len = (authority_len as u32).max(3).min(authority_len as u32 + 1);")]),
 "stale_height_events": ("H01", [(SM, "        self.goto_step(Step::Propose);\n        self.block_hash = Hash::new();\n        self.lock = None;\n", "        self.goto_step(Step::Propose);\n        self.block_hash = Hash::new();\n")]),
 "timer_height": ("T01", [(T, "                if height > self.height {\n                    self.height = height;\n                }", "                self.height = height;")]),

 # --- second set
 "s08_leader_trusts_own": ("S08", [(P, "        self.check_block(ctx, hash, block).await;\n        Ok(())\n    }\n\n    /// This function only", "        self.is_full_transaction.insert(hash.clone(), true);\n        self.check_block(ctx, hash, block).await;\n        Ok(())\n    }\n\n    /// This function only")]),
 "s08_lock_is_checked": ("S08", [(P, "            Some(polc.lock_round)\n        } else {\n            None\n        };\n\n        let hash = proposal.block_hash", "            self.is_full_transaction.entry(qc.block_hash.clone()).or_insert(true);\n            Some(polc.lock_round)\n        } else {\n            None\n        };\n\n        let hash = proposal.block_hash")]),
 "s08_precommit_without_check": ("S08", [(P, "if !qc_hash.is_empty() && !self.try_get_full_txs(&qc_hash) {", "if !qc_hash.is_empty() && !self.try_get_full_txs(&qc_hash) && !(qc_type == VoteType::Precommit && vote_round > self.round) {")]),
 "s03_content_replaced": ("S03", [(P, "        self.hash_with_block.insert(block_hash.clone(), block);\n", "        self.hash_with_block.entry(block_hash.clone()).or_insert(block);\n")]),
 "s03_content_replaced2": ("S03", [(P, "        if !self.try_get_full_txs(&hash) {\n            self.hash_with_block.insert(hash.clone(), proposal.content);\n        }\n", "        self.hash_with_block.insert(hash.clone(), proposal.content);\n")]),
 "s09_repeated_voters": ("S09", [(P, "        if voters.len() != qc.voters.len() {", "        if voters.is_empty() {")]),
 "s09_choke_height": ("S09", [(P, "        if qc.height != self.height {\n            return Err(ConsensusError::BrakeErr(", "        if qc.height > self.height {\n            return Err(ConsensusError::BrakeErr(")]),
 "s09_voter_member": ("S09", [(P, "        for voter in voters.into_iter() {\n            self.verify_address(voter)?;\n        }\n", "")]),
 "s09_choke_sig": ("S09", [(P, "                    self.verify_aggregated_choke(&qc)?;\n                    return self.handle", "                    return self.handle")]),
 "s09_choke_sender": ("S09", [(P, "        self.verify_address(&signed_choke.address)?;\n", "")]),
 "s09_skip_self_round": ("S09", [(P, "        let round = prevote_qc.round + 1;\n        self.votes", "        let round = prevote_qc.round + 2;\n        self.votes")]),
 "s09_choke_old_round_qc": ("S09", [(P, "            if round < self.round {\n                return Ok(());\n            }\n\n            log::debug!(\"Overlord: round {} chokes", "            log::debug!(\"Overlord: round {} chokes")]),
 "r01_proposal_before_save": ("R01", [(P, "        self.set_update_from(from_where)?;\n        self.save_wal_with_lock_round(Step::Propose, lock_round)\n            .await?;\n", "        self.set_update_from(from_where)?;\n        if self.save_wal_with_lock_round(Step::Propose, lock_round).await.is_err() && !is_proposer {\n            return Ok(());\n        }\n")]),
 "r01_new_round_save_ignored": ("R01", [(P, "        self.set_update_from(from_where)?;\n        self.save_wal_with_lock_round(Step::Propose, lock_round)\n            .await?;\n", "        self.set_update_from(from_where)?;\n        let _ = self.save_wal_with_lock_round(Step::Propose, lock_round).await;\n")]),
 "r01_noqc_nolock": ("R01", [(P, "                return Err(ConsensusError::Other(\"no qc\".to_string()));", "                None")]),
 "r01_commit_first": ("R01", [(P, "        self.save_wal(Step::Commit, polc).await?;\n\n        log::debug!(\"Overlord: state generate proof\");\n", "        log::debug!(\"Overlord: state generate proof\");\n"), (P, "            .map_err(|err| ConsensusError::Other(format!(\"commit error {:?}\", err)))?;\n\n        let mut auth_list", "            .map_err(|err| ConsensusError::Other(format!(\"commit error {:?}\", err)))?;\n        self.save_wal(Step::Commit, polc).await?;\n\n        let mut auth_list")]),
 "r02_no_lock_qc": ("R02", [(P, "            self.votes.set_qc(qc.clone());\n            self.is_full_transaction", "            if qc.is_precommit_qc() {\n                self.votes.set_qc(qc.clone());\n            }\n            self.is_full_transaction")]),
 "r02_no_full": ("R02", [(P, "            self.is_full_transaction.insert(qc.block_hash.clone(), true);\n            self.hash_with_block.insert(qc.block_hash, lock.content);", "            self.hash_with_block.insert(qc.block_hash, lock.content);")]),
 "r02_no_proposer": ("L01", [(P, "        self.is_leader = self.is_proposer()?;\n        self.update_from_where = wal_info", "        self.update_from_where = wal_info")]),
 "r02_no_block": ("R02", [(P, "            self.hash_with_block.insert(qc.block_hash, lock.content);\n", "            self.hash_with_block.entry(qc.block_hash).or_insert(lock.content);\n            if wal_info.step == Step::Precommit {\n                self.hash_with_block.clear();\n            }\n")]),
 "r02_lock_not_told": ("S06", [(SM, "        self.lock = info.polc;\n        self.set_timer_after_wal()", "        self.lock = info.polc.filter(|l| l.round + 2 > info.round);\n        self.set_timer_after_wal()")]),
 "r02_brake_err_aborts": ("L01", [(P, "                // Go on, the timer of the brake step will try it again.\n                log::error!(\"Overlord: state handle brake error {:?}\", e);", "                return Err(e);")]),
 "s02_qc_by_id": ("S02", [(P, "            self.votes\n                .get_qc_by_hash(height, hash.clone(), VoteType::Precommit)\n        {\n            tmp.to_owned()", "            self.votes\n                .get_qc_by_id(height, self.round, VoteType::Precommit).ok().or_else(|| self.votes.get_qc_by_hash(height, hash.clone(), VoteType::Precommit))\n        {\n            tmp.to_owned()")]),
 "s02_bitmap_rev": ("S02", [(P, "            if set.contains(addr) {\n                bit_map.set(index, true);", "            if set.contains(addr) {\n                bit_map.set(if self.round > 3 { self.authority.len() - 1 - index } else { index }, true);")]),
 "s02_bitmap_short": ("S02", [(P, "address_bitmap: Bytes::from(bit_map.to_bytes()),", "address_bitmap: Bytes::from(bit_map.to_bytes()[..(self.authority.len() + 6) / 8].to_vec()),")]),
 "s02_vote_sig_swap": ("S02", [(P, "        votes.sort();\n\n        log::debug!(\"Overlord: state build", "        log::debug!(\"Overlord: state build")]),
 "l01_broadcast_err": ("L01", [(P, "        self.broadcast(Context::new(), OverlordMsg::SignedChoke(signed_choke))\n            .await;\n        self.check_choke_above_threshold()?;", "        if self.function.broadcast_to_other(Context::new(), OverlordMsg::SignedChoke(signed_choke)).await.is_err() {\n            return Ok(());\n        }\n        self.check_choke_above_threshold()?;")]),
 "l01_choke_same_round_only": ("L01", [(P, "        if choke_round > self.round {\n            match choke.from {", "        if choke_round > self.round + 1 {\n            match choke.from {")]),
 "l01_choke_qc_check": ("L01", [(P, "                    if qc.is_prevote_qc()\n                        && qc.round >= self.round", "                    if qc.is_prevote_qc()\n                        && qc.round > self.round")]),
 "l01_precommit_qc_needs_full": ("L01", [(P, "if !qc_hash.is_empty() && !self.try_get_full_txs(&qc_hash) {", "if !self.is_full_transaction.get(&qc_hash).copied().unwrap_or(false) && (qc_type == VoteType::Precommit || !qc_hash.is_empty()) {")]),
 "l01_leader_vote_lost": ("L01", [(P, "        if self.is_leader {\n            self.votes.insert_vote(", "        if self.is_leader && self.round == 0 {\n            self.votes.insert_vote(")]),
 "l01_no_vote_process": ("L01", [(P, "        } else if let Some(block_hash) = self.counting_vote(vote_type.clone())? {\n            let qc", "        } else if let Some(block_hash) = self.counting_vote(vote_type.clone())?.filter(|_| vote_type == VoteType::Prevote || self.round == 0) {\n            let qc")]),
 "l01_wal_lost": ("L01", [(P, "            if self.height != INIT_HEIGHT {\n                return self.wal_lost();", "            if self.height == INIT_HEIGHT {\n                return self.wal_lost();")]),
 "l01_cache_not_read": ("L01", [(P, "            if let Ok((signed_proposal, ctx)) = self.proposals.get(self.height, self.round) {", "            if let (Ok((signed_proposal, ctx)), true) = (self.proposals.get(self.height, self.round), lock_round.is_none()) {")]),
 "l01_flush_chokes": ("L01", [(P, "        self.chokes.insert(choke_round, signed_choke);\n        self.check", "        if choke_round <= 2 || signed_choke.choke.round != choke_round {\n            self.chokes.insert(choke_round, signed_choke);\n        }\n        self.check")]),
 "r05_coef": ("R05", [(T, "            let coef = event_round.min(u64::from(MAX_TIMEOUT_COEF)) as u32;\n", "            let coef = event_round as u32;\n")]),
 "r05_expect_qc": ("R05", [(P, "                let qc = self.chokes.get_qc(round).ok_or_else(|| {\n                    ConsensusError::BrakeErr(format!(\n                        \"no choke qc height {} round {}\",\n                        self.height, round\n                    ))\n                })?;", "                let qc = self.chokes.get_qc(round).unwrap();")]),
 "r05_weight_unwrap": ("R05", [(P, "acc += u64::from(*self.authority.get_vote_weight(addr)?);", "acc += u64::from(*self.authority.get_vote_weight(addr).unwrap());")]),
 "r05_future_overflow": ("R05", [(P, "if self.height + FUTURE_HEIGHT_GAP > vote_height && vote_round < FUTURE_ROUND_GAP {", "if vote_height - self.height < FUTURE_HEIGHT_GAP && vote_round + 1 <= FUTURE_ROUND_GAP {")]),
 "t01_update_no_brake": ("T01", [(TC, "        self.brake = config.get_brake_config();\n", "")]),
 "t01_update_swap": ("T01", [(TC, "        self.precommit = config.get_precommit_config();", "        self.precommit = config.get_prevote_config();")]),
 "t01_default": ("T01", [(TC, "            prevote: (10, 10),", "            prevote: (10, 9),")]),
 "t01_round_order": ("T01", [(T, "                event_round = round\n            }", "                event_round = round.max(self.round)\n            }")]),
 "t01_init_config": ("T01", [(T, "        if let Some(tmp) = config {\n            timer_config.update(tmp);\n        }\n", "        let _ = config.map(|tmp| timer_config.update(tmp)).filter(|_| false);\n        timer_config.set_interval(interval.max(1));\n")]),
 "v01_leader_prevote": ("V01", [(P, "                if !qc.block_hash.is_empty() {\n                    return ViewChangeReason::Leader", "                if qc.block_hash.len() > 40 {\n                    return ViewChangeReason::Leader")]),
 "v01_wrong_cert": ("V01", [(P, "            .get_qc_by_id(height, round, VoteType::Prevote)\n            .is_err()\n        {\n            ViewChangeReason::NoPrevote", "            .get_qc_by_id(height, round, VoteType::Precommit)\n            .is_err()\n        {\n            ViewChangeReason::NoPrevote")]),
 "v01_skip_precommit": ("V01", [(P, "            ViewChangeReason::NoPrevoteQCFromNetwork\n        } else if", "            ViewChangeReason::NoPrecommitQCFromNetwork\n        } else if")]),
 "v01_kind": ("V01", [("smr/smr_types.rs", "                ViewChangeReason::UpdateFromHigherPrecommitQC(old_round, *round)\n", "                ViewChangeReason::UpdateFromHigherPrevoteQC(old_round, *round)\n")]),
 "v01_round_after": ("V01", [(P, "            self.report_view_change(last_round, reason);\n        }\n\n        self.round = new_round;", "            self.round = new_round;\n            self.report_view_change(new_round - 1, reason);\n        }\n\n        self.round = new_round;")]),
 "v01_check_failed": ("V01", [(P, "            .is_none()\n        {\n            return ViewChangeReason::CheckBlockNotPass;", "            .map_or(true, |v| !v)\n        {\n            return ViewChangeReason::CheckBlockNotPass;")]),
 "v01_precommit_reason": ("V01", [(P, "                if !qc.block_hash.is_empty() {\n                    return ViewChangeReason::LeaderReceived", "                if !qc.block_hash.is_empty() || round > 1 {\n                    return ViewChangeReason::LeaderReceived")]),
 "h01_sm_height_eq": ("H01", [(SM, "        } else if height <= self.height {", "        } else if height < self.height {")]),
 "h01_jump": ("H01", [(P, "        let new_height = status.height;\n        self.height = new_height;\n        self.round = INIT_ROUND;", "        let new_height = if status.height > self.height + 3 { status.height - 1 } else { status.height };\n        self.height = new_height;\n        self.round = INIT_ROUND;")]),
 "h01_round_kept": ("H01", [(P, "        self.height = new_height;\n        self.round = INIT_ROUND;\n", "        self.height = new_height;\n        self.round = if new_height == self.height { INIT_ROUND } else { self.round };\n")]),
 "m01_auth_late": ("M01", [(P, "        let mut auth_list = status.authority_list.clone();\n        self.authority.update(&mut auth_list);\n\n        if let Some(interval) = status.interval {", "        let mut auth_list = status.authority_list.clone();\n        if auth_list.len() >= self.authority.len() {\n            self.authority.update(&mut auth_list);\n        }\n\n        if let Some(interval) = status.interval {")]),
 "m01_weight_stale": ("M01", [(A, "            self.vote_weight_map\n                .insert(node.address.clone(), vote_weight);", "            self.vote_weight_map\n                .entry(node.address.clone()).or_insert(vote_weight);"), (A, "        self.vote_weight_map.clear();\n", "")]),
 "s10_dup_by_hash": ("S10", [(C, "            if vote.vote.block_hash != exist.0.vote.block_hash {", "            if vote.vote.block_hash == exist.0.vote.block_hash {")]),
 "s10_generate_early": ("S10", [(P, "        let threshold = self.authority.get_vote_weight_sum() * 2;", "        let threshold = (self.authority.get_vote_weight_sum() - self.authority.get_vote_weight(&self.address).map(|w| u64::from(*w)).unwrap_or(0) / 2) * 2;")]),
 "s11_get_voters_threshold": ("S11", [(PV, "    if !authority_manage.is_above_threshold(addr_bitmap)? {", "    if !addr_bitmap.is_empty() && !authority_manage.is_above_threshold(addr_bitmap)? {")]),
 "s11_lock_qc_height": ("S11", [(P, "                || qc.height != proposal_height\n", "")]),
 "s11_lock_qc_hash": ("S11", [(P, "                || qc.block_hash != proposal.block_hash\n", "")]),
 "s11_lock_qc_round": ("S11", [(P, "                || qc.round != polc.lock_round\n", "")]),
 "s11_lock_qc_type": ("S11", [(P, "            if !qc.is_prevote_qc()\n                || ", "            if ")]),
 "s11_lock_qc_future": ("S11", [(P, "                || qc.round >= proposal_round\n", "")]),
 "s11_empty_hash": ("S11", [(SM, "        } else if proposal_hash.is_empty() {\n            return Err(ConsensusError::ProposalErr(\"Empty proposal\".to_string()));", "        } else if proposal_hash.is_empty() && lock_round.is_some() {\n            return Err(ConsensusError::ProposalErr(\"Empty proposal\".to_string()));")]),
 # --- memory, application, leaders
 "b01_votes": ("B01", [(P, "        self.votes.flush(new_height - 1);\n", "")]),
 "b01_proposals": ("B01", [(P, "        self.proposals.flush(new_height - 1);\n", "")]),
 "b01_blocks": ("B01", [(P, "        self.hash_with_block.clear();\n", "")]),
 "b01_full": ("B01", [(P, "        self.is_full_transaction.clear();\n", "")]),
 "b01_chokes": ("B01", [(P, "        self.chokes.clear();\n", "")]),
 "b01_choke_qcs": ("B01", [(C, "        self.chokes.clear();\n        self.qcs.clear();", "        self.chokes.clear();")]),
 "b01_future_window": ("B01", [(P, "        } else if self.height + FUTURE_HEIGHT_GAP < height {", "        } else if self.height + FUTURE_HEIGHT_GAP * 1_000_000 < height {")]),
 "b01_old_kept": ("B01", [(P, "        if height < self.height || (height == self.height && round < self.round) {\n            log::debug!(\n                \"Overlord: state receive an outdated", "        if height == self.height && round < self.round {\n            log::debug!(\n                \"Overlord: state receive an outdated")]),
 "b01_timer_never": ("B01", [(T, "        let smr_timer = TimeoutInfo::new(interval, event, self.sender.clone());", "        let smr_timer = TimeoutInfo::new(interval * if is_brake_timer { 100_000 } else { 1 }, event, self.sender.clone());")]),
 "a01_proposer_unverified": ("A01", [(P, "        // Verify proposer before filter proposal.\n        self.verify_proposer(\n            proposal_height,\n            proposal_round,\n            &signed_proposal.proposal.proposer,\n        )?;\n", "")]),
 "a01_get_next_height": ("A01", [(P, "                .get_block(ctx.clone(), self.height)", "                .get_block(ctx.clone(), self.height + u64::from(self.round > 1))")]),
 "p01_skip_by_round": ("P01", [(A, "            rotation_leader_index(height, round, self.address.len())", "            rotation_leader_index(height, round.min(3), self.address.len())")]),
 "p01_two_heights": ("P01", [(A, "            rotation_leader_index(height, round, self.address.len())", "            rotation_leader_index(height / 2, round, self.address.len())")]),
 "p02_off_by_one": ("P02", [("utils/rand_proposer.rs", "        if random_digit < acc * tmp {", "        if random_digit <= acc.saturating_sub(1) * tmp {")]),
 "p02_first": ("P02", [("utils/rand_proposer.rs", "        if random_digit < acc * tmp {", "        if random_digit < acc * tmp && (*weight > 0 || index == 0) && random_digit % 64 != 1 {")]),
 "p02_unsorted": ("P02", [(A, "            self.propose_weights.push(propose_weight);", "            self.propose_weights.insert(0, propose_weight);")]),
 # --- what is sent
 "l05_choke_check": ("L05", [(P, "        self.chokes.insert(choke_round, signed_choke);\n        self.check_choke_above_threshold()?;\n", "        self.chokes.insert(choke_round, signed_choke);\n")]),
 "l05_vote_process": ("L05", [(P, "        if !self.is_leader {\n            if let Ok(qc) = self\n                .votes\n                .get_qc_by_id(self.height, self.round, vote_type.clone())\n            {\n", "        if !self.is_leader {\n            if let Ok(qc) = self\n                .votes\n                .get_qc_by_id(self.height, self.round, VoteType::Precommit)\n            {\n")]),
 "l05_nil_precommit": ("L05", [(SM, "            if precommit_round < self.round {\n                return Ok(());\n            }\n", "            if precommit_round < self.round || self.step < Step::Precommit {\n                return Ok(());\n            }\n")]),
 "l05_own_prevote_qc": ("L05", [(P, "                    round: self.round,\n                    height: self.height,\n                    wal_info: None,\n                })?;\n                return Ok(());\n            }\n        } else if", "                    round: self.round,\n                    height: self.height + 1,\n                    wal_info: None,\n                })?;\n                return Ok(());\n            }\n        } else if")]),
 "n01_wal_lost_leader": ("N01", [(P, "                self.is_leader = self.is_proposer()?;\n                return self.wal_lost();", "                return self.wal_lost();")]),
 "n01_vote_to_all": ("N01", [(P, "            self.transmit(Context::new(), OverlordMsg::SignedVote(signed_vote))", "            self.broadcast(Context::new(), OverlordMsg::SignedVote(signed_vote))")]),
 "n01_brake_twice": ("N01", [(T, "        let smr_timer = TimeoutInfo::new(interval, event, self.sender.clone());\n", "        if is_brake_timer {\n            let again = TimeoutInfo::new(interval, event.clone(), self.sender.clone());\n            tokio::spawn(async move {\n                again.await;\n            });\n        }\n        let smr_timer = TimeoutInfo::new(interval, event, self.sender.clone());\n")]),
 "n01_choke_on_choke": ("N01", [(P, "        self.chokes.insert(self.round, signed_choke.clone());\n        self.save_wal", "        if self.round > 1 {\n            self.broadcast(Context::new(), OverlordMsg::SignedChoke(signed_choke.clone())).await;\n        }\n        self.chokes.insert(self.round, signed_choke.clone());\n        self.save_wal")]),
 "n01_reproposal": ("N01", [(SM, "        if prevote_round == self.round && self.step > Step::Prevote && !leave_brake {", "        if prevote_round == self.round && self.step > Step::Precommit && !leave_brake {")]),
 # --- second thoughts
 "z_late_qc_rewinds": ("S06", [(P, "            if qc.round >= self.round {\n                self.state_machine", "            {\n                self.state_machine"), (SM, "        if prevote_round < self.round {\n            return Ok(());\n        }\n\n        self.update_polc(prevote_hash, prevote_round);\n", "        self.update_polc(prevote_hash, prevote_round);\n\n        if prevote_round < self.round {\n            return Ok(());\n        }\n")]),
 "z_split_bitmap": ("S10", [(P, "        let set = voters.iter().cloned().collect::<HashSet<_>>();", "        let set = self.votes.get_vote_map(self.height, self.round, vote_type.clone())?.values().flatten().cloned().collect::<HashSet<_>>();")]),
 "z_choke_strangers": ("S09", [(P, "        for voter in voters.into_iter() {\n            self.verify_address(voter)?;\n        }\n", "")]),
 "z_locked_leader_new": ("L01", [(P, "        let (block, hash, polc) = if lock_round.is_none() {", "        let lock_round = lock_round.filter(|round| round + 2 >= self.round);\n        let (block, hash, polc) = if lock_round.is_none() {")]),
 "z_wal_lock_old": ("R02", [(P, "        if wal_info.lock.is_some() {\n            let lock = wal_info.lock.clone().unwrap();", "        if wal_info.lock.as_ref().map_or(false, |lock| lock.lock_round + 1 >= self.round) {\n            let lock = wal_info.lock.clone().unwrap();")]),
 "z_vote_replaced": ("S10", [(C, "                exist,vote);\n            }\n            return;\n", "                exist,vote);\n            }\n            self.by_hash.entry(hash).or_insert_with(HashSet::new).insert(addr.clone());\n            self.by_address.insert(addr, (vote, ctx));\n            return;\n")]),
 "z_pacing_config": ("T02", [(P, "        if let Some(interval) = status.interval {\n            self.block_interval", "        if let (Some(interval), None) = (status.interval, &status.timer_config) {\n            self.block_interval")]),
 "z_from_kept": ("S10", [(P, "                let qc = if round == u64::max_value() {\n                    mock_init_qc()", "                let qc = if round == u64::max_value() {\n                    return Ok(());")]),
 "z_extract_zero": ("C02", [(A, "        .filter(|pair| pair.0) //the bitmap must hit", "        .filter(|pair| pair.0 && pair.1.vote_weight > 0)")]),
 "z_bitmap_16": ("L02", [(P, "BitVec::from_elem(self.authority.len(), false);", "BitVec::from_elem(self.authority.len().min(16), false);"), (P, "            if set.contains(addr) {\n                bit_map", "            if set.contains(addr) && index < 16 {\n                bit_map")]),
 "z_cost_before_commit": ("T02", [(P, "        let ctx = Context::new();\n        let status = self\n            .function\n            .commit", "        let ctx = Context::new();\n        let cost = Instant::now() - self.height_start;\n        let status = self\n            .function\n            .commit"), (P, "        let cost = Instant::now() - self.height_start;\n\n        log::info!", "        log::info!")]),
 "z_choke_hash_height": ("S09", [(CO, "        s.begin_list(2).append(&self.height).append(&self.round);\n    }\n}\n\n#[cfg(test)]", "        s.begin_list(1).append(&self.round);\n    }\n}\n\n#[cfg(test)]")]),
 "z_proposal_replaced": ("A01", [(C, "            return Err(ConsensusError::Other(\"_\".to_string()));\n        }\n        self.0.insert(round", "        }\n        self.0.insert(round")]),
 "z_timer_round": ("T01", [(T, "                self.round = round;\n                event_round", "                self.round = self.round.max(round);\n                event_round")]),
 "z_timer_height": ("T01", [(T, "                if height > self.height {\n                    self.height = height;\n                }\n                self.round = round;\n", "                if height > self.height {\n                    self.height = height;\n                } else {\n                    self.round = round;\n                }\n")]),
 "z_choke_qc_after_lock": ("S09", [(P, "        if aggregated_choke.len() * 3 <= self.authority.len() * 2 {", "        if aggregated_choke.len() * 3 < self.authority.len() * 2 {")]),
 "z_choke_max_any": ("L01", [(C, "        for (round, set) in self.chokes.iter().rev() {\n            if set.len() * 3 > nodes_num * 2 {\n                return Some(*round);\n            }\n        }\n        None", "        self.chokes\n            .iter()\n            .next_back()\n            .filter(|(_, set)| set.len() * 3 > nodes_num * 2)\n            .map(|(round, _)| *round)")]),
 "z_qc_set_once": ("S06", [(C, "            .map_or(true, |last| last.round <= qc.round)", "            .map_or(true, |last| last.round >= qc.round)")]),
 "z_resp_full_only": ("L05", [(P, "        if let Some(qc) =\n            self.votes\n                .get_qc_by_hash(self.height, block_hash.clone(), VoteType::Precommit)\n        {\n            self.state_machine", "        if let Some(qc) = self\n            .votes\n            .get_qc_by_id(self.height, self.round, VoteType::Precommit)\n            .ok()\n            .filter(|qc| qc.block_hash == block_hash)\n        {\n            self.state_machine")]),
 "z_leader_kept_on_status": ("N01", [(P, "        let is_proposer = self.is_proposer()?;\n\n        if lock_round.is_some()", "        let is_proposer = if self.round == INIT_ROUND && self.height % 8 == 0 { self.next_proposer(self.height, new_round)? } else { self.is_proposer()? };\n\n        if lock_round.is_some()")]),
 "z_stop_no_smr": ("R04", [(P, "                self.stopped = true;\n                Ok(())", "                self.stopped = self.consensus_power;\n                Ok(())")]),
 "z_status_sorted": ("M01", [(TY, "        self.authority_list\n            .iter()\n            .any(|node| node.address == address)", "        self.authority_list\n            .binary_search_by(|node| node.address.cmp(address))\n            .is_ok()")]),
}
