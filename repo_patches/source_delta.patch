From 1c72d465b2c15295ab93f4288e255d9b389d03c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:22 +0000
Subject: [PATCH 01/20] fix: sum voting and proposing weights in 64 bits

The per-hash vote weight in counting_vote and the propose weight sum in
get_leader were added up in u32. Weights are arbitrary u32 values, so the
sum overflows: a panic with overflow checks, a too small sum without.
---
 src/state/process.rs     | 6 +++---
 src/utils/auth_manage.rs | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index e4586c4..e3344ea 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1158,11 +1158,11 @@ where
         );
 
         for (hash, set) in vote_map.iter() {
-            let mut acc = 0u32;
+            let mut acc = 0u64;
             for addr in set.iter() {
-                acc += self.authority.get_vote_weight(addr)?;
+                acc += u64::from(*self.authority.get_vote_weight(addr)?);
             }
-            if u64::from(acc) * 3 > threshold {
+            if acc * 3 > threshold {
                 return Ok(Some(hash.to_owned()));
             }
         }
diff --git a/src/utils/auth_manage.rs b/src/utils/auth_manage.rs
index 5dd6644..72385c2 100644
--- a/src/utils/auth_manage.rs
+++ b/src/utils/auth_manage.rs
@@ -161,15 +161,15 @@ pub fn extract_voters(
 /// Get the leader address of the height and the round, the authority list MUST be sorted.
 pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Address {
     authority_list.sort();
-    let mut weight_sum = 0;
+    let mut weight_sum = 0u64;
     let mut propose_weights = Vec::new();
     for node in authority_list.iter() {
-        weight_sum += node.propose_weight;
-        propose_weights.push(node.propose_weight as u64);
+        weight_sum += u64::from(node.propose_weight);
+        propose_weights.push(u64::from(node.propose_weight));
     }
 
     let index = if cfg!(feature = "random_leader") {
-        get_random_proposer_index(height + round, &propose_weights, weight_sum as u64)
+        get_random_proposer_index(height + round, &propose_weights, weight_sum)
     } else {
         rotation_leader_index(height, round, authority_list.len())
     };
-- 
2.43.0


From 3ba2ea12e67375d1d74f76554cb39814557c5c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 02/20] fix: reject aggregated votes below the two thirds
 threshold

get_voters called is_above_threshold but dropped the answer, so a quorum
certificate (and a PoLC) signed by any non-empty subset was accepted.
---
 src/state/parallel.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/state/parallel.rs b/src/state/parallel.rs
index 25bac20..85ee5a9 100644
--- a/src/state/parallel.rs
+++ b/src/state/parallel.rs
@@ -7,7 +7,7 @@ use muta_apm::derive::tracing_span;
 
 use crate::types::{Address, AggregatedVote, OverlordMsg};
 use crate::utils::auth_manage::AuthorityManage;
-use crate::{Codec, ConsensusResult, Crypto};
+use crate::{error::ConsensusError, Codec, ConsensusResult, Crypto};
 
 #[tracing_span(kind = "overlord.vreify_sig_pool")]
 pub async fn parallel_verify<T: Codec + 'static, C: Crypto + Sync + 'static>(
@@ -98,7 +98,11 @@ fn get_voters(
     addr_bitmap: &Bytes,
     authority_manage: AuthorityManage,
 ) -> ConsensusResult<Vec<Address>> {
-    authority_manage.is_above_threshold(addr_bitmap)?;
+    if !authority_manage.is_above_threshold(addr_bitmap)? {
+        return Err(ConsensusError::AggregatedSignatureErr(
+            "aggregate signature below two thirds".to_string(),
+        ));
+    }
     authority_manage.get_voters(addr_bitmap)
 }
 
-- 
2.43.0


From c45498ed2072764a17dbcb5a3891aea6d895fc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:30 +0000
Subject: [PATCH 03/20] fix: verify the sender of a choke and the certificate
 it carries

The signature of a choke covers its height and round only. When a choke of a
higher round arrives, the certificate in its `from` field was handled without
any verification, so anybody could move a node to an arbitrary round, make it
precommit or make it commit. Chokes of addresses outside of the authority list
were counted as well.
---
 src/state/process.rs | 59 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 5 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index e3344ea..e9c1185 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1195,6 +1195,8 @@ where
             return Ok(());
         }
 
+        self.verify_address(&signed_choke.address)?;
+
         log::debug!(
             "Overlord: state receive a choke of height {}, round {}, from {:?}",
             choke_height,
@@ -1204,13 +1206,14 @@ where
 
         if choke_round > self.round {
             match choke.from {
-                UpdateFrom::PrevoteQC(qc) => {
-                    return self.handle_aggregated_vote(ctx.clone(), qc).await
+                UpdateFrom::PrevoteQC(qc) | UpdateFrom::PrecommitQC(qc) => {
+                    self.verify_aggregated_vote(&qc)?;
+                    return self.handle_aggregated_vote(ctx.clone(), qc).await;
                 }
-                UpdateFrom::PrecommitQC(qc) => {
-                    return self.handle_aggregated_vote(ctx.clone(), qc).await
+                UpdateFrom::ChokeQC(qc) => {
+                    self.verify_aggregated_choke(&qc)?;
+                    return self.handle_aggregated_choke(qc);
                 }
-                UpdateFrom::ChokeQC(qc) => return self.handle_aggregated_choke(qc),
             }
         }
 
@@ -1440,6 +1443,52 @@ where
         Ok(())
     }
 
+    /// The `from` field is not covered by the signature of a choke, so the quorum certificate in it
+    /// must be verified before it is handled.
+    fn verify_aggregated_vote(&self, qc: &AggregatedVote) -> ConsensusResult<()> {
+        if qc.height != self.height {
+            return Err(ConsensusError::AggregatedSignatureErr(
+                "the quorum certificate is not of the current height".to_string(),
+            ));
+        }
+
+        let bitmap = &qc.signature.address_bitmap;
+        if !self.authority.is_above_threshold(bitmap)? {
+            return Err(ConsensusError::AggregatedSignatureErr(
+                "aggregate signature below two thirds".to_string(),
+            ));
+        }
+
+        let voters = self.authority.get_voters(bitmap)?;
+        let hash = self.util.hash(Bytes::from(rlp::encode(&qc.to_vote())));
+        self.util
+            .verify_aggregated_signature(qc.signature.signature.clone(), hash, voters)
+            .map_err(|err| ConsensusError::AggregatedSignatureErr(format!("{:?}", err)))
+    }
+
+    fn verify_aggregated_choke(&self, qc: &AggregatedChoke) -> ConsensusResult<()> {
+        if qc.height != self.height {
+            return Err(ConsensusError::BrakeErr(
+                "choke qc is not of the current height".to_string(),
+            ));
+        }
+
+        let voters = qc.voters.iter().collect::<HashSet<_>>();
+        if voters.len() != qc.voters.len() {
+            return Err(ConsensusError::BrakeErr(
+                "choke qc has repeated voters".to_string(),
+            ));
+        }
+        for voter in voters.into_iter() {
+            self.verify_address(voter)?;
+        }
+
+        let hash = self.util.hash(Bytes::from(rlp::encode(&qc.to_hash())));
+        self.util
+            .verify_aggregated_signature(qc.signature.clone(), hash, qc.voters.clone())
+            .map_err(|err| ConsensusError::AggregatedSignatureErr(format!("{:?}", err)))
+    }
+
     /// Check whether the given address is included in the corresponding authority list.
     fn verify_address(&self, address: &Address) -> ConsensusResult<()> {
         if !self.authority.contains(address) {
-- 
2.43.0


From 80de9d4f8effd48f163af887bd32ba874fa81c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 04/20] fix: do not let unverified messages of a future height
 pass as verified

A message of a higher height was put into the channel of verified messages
without verification, in order to be cached. If the node moved to that height
before it took the message out, the message was handled as a verified one.
---
 src/state/process.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index e9c1185..cf39c40 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -136,8 +136,13 @@ where
                         let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
                     } else {
                         match self.height.cmp(&msg.get_height()) {
+                            // Handle it right now: a message put into the verified channel would
+                            // be taken for a verified one once the height has caught up with it.
                             Ordering::Less => {
-                                let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
+                                if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
+                                    self.report_error(ctx, e.clone());
+                                    log::error!("Overlord: state {:?} error", e);
+                                }
                             }
                             Ordering::Equal => {
                                 parallel_verify(
-- 
2.43.0


From e3d9f7895f85b88b0c828de7a44fd3e547ce48f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 05/20] fix: ignore state machine events of another height

After a rich status moved the state to a new height, events the state machine
had thrown for the former height were still executed, with the new height: the
node voted and proposed in the new height for blocks and rounds of the old one.
---
 src/state/process.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index cf39c40..5d4b557 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -265,12 +265,17 @@ where
     pub(crate) async fn handle_event(&mut self, event: Option<SMREvent>) -> ConsensusResult<()> {
         match event.ok_or_else(|| ConsensusError::Other("Event sender dropped".to_string()))? {
             SMREvent::NewRoundInfo {
+                height,
                 round,
                 lock_round,
                 lock_proposal,
                 from_where,
                 ..
             } => {
+                if height != self.height {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_new_round(round, lock_round, lock_proposal, from_where)
                     .await
@@ -281,10 +286,15 @@ where
             }
 
             SMREvent::PrevoteVote {
+                height,
                 block_hash,
                 lock_round,
                 ..
             } => {
+                if height != self.height {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_vote_event(block_hash, VoteType::Prevote, lock_round)
                     .await
@@ -295,10 +305,15 @@ where
             }
 
             SMREvent::PrecommitVote {
+                height,
                 block_hash,
                 lock_round,
                 ..
             } => {
+                if height != self.height {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_vote_event(block_hash, VoteType::Precommit, lock_round)
                     .await
-- 
2.43.0


From 47875f6a9ee923373a536b6038981622bbdb38c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:33 +0000
Subject: [PATCH 06/20] fix: keep the lock when a later PoLC is of the locked
 block itself

On a proposal with a higher lock round the lock was removed even if the
proposal is the locked block. The node then logged no lock with its prevote,
and if the round failed it prevoted and proposed other blocks although it had
precommitted this one and no quorum had turned to another.
---
 src/smr/state_machine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index d2ef0e8..89c5e1f 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -241,7 +241,10 @@ impl StateMachine {
                 log::debug!("Overlord: SMR handle proposal with a lock");
 
                 if lock_round > lock.round {
-                    self.remove_polc();
+                    // A later prevote QC of the very same block is no reason to unlock it.
+                    if proposal_hash != lock.hash {
+                        self.remove_polc();
+                    }
                     self.set_proposal(proposal_hash);
                 } else if lock_round == lock.round && proposal_hash != self.block_hash {
                     return Err(ConsensusError::CorrectnessErr("Fork".to_string()));
-- 
2.43.0


From a55b6732892312b19ee14752da75887742edd002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 07/20] fix: make the stop message stop the node

The handler's Stop message has no height, so the state panicked on it, and a
node without consensus power dropped it. If the state had already ended when
the state machine threw the stop event, the timer never got it, and with its
channel closed its stream yielded errors for ever: the task never yielded.
---
 src/smr/state_machine.rs | 5 ++---
 src/state/process.rs     | 4 ++--
 src/timer.rs             | 5 ++---
 src/types.rs             | 4 ++++
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index 89c5e1f..df85b7f 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -37,9 +37,8 @@ impl Stream for StateMachine {
 
             Poll::Ready(msg) => {
                 if msg.is_none() {
-                    return Poll::Ready(Some(Err(ConsensusError::TriggerSMRErr(
-                        "Channel dropped".to_string(),
-                    ))));
+                    log::error!("Overlord: SMR trigger channel dropped");
+                    return Poll::Ready(None);
                 }
 
                 let msg = msg.unwrap();
diff --git a/src/state/process.rs b/src/state/process.rs
index 5d4b557..701f52c 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -132,7 +132,7 @@ where
                 raw = raw_rx.next() => {
                     let (ctx, msg) = raw.expect("Overlord message handler dropped");
 
-                    if msg.is_rich_status() {
+                    if msg.is_rich_status() || msg.is_stop() {
                         let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
                     } else {
                         match self.height.cmp(&msg.get_height()) {
@@ -201,7 +201,7 @@ where
         ctx: Context,
         raw: OverlordMsg<T>,
     ) -> ConsensusResult<()> {
-        if !self.consensus_power && !raw.is_rich_status() {
+        if !self.consensus_power && !raw.is_rich_status() && !raw.is_stop() {
             return Ok(());
         }
 
diff --git a/src/timer.rs b/src/timer.rs
index a2c26ba..d477c0c 100644
--- a/src/timer.rs
+++ b/src/timer.rs
@@ -40,9 +40,8 @@ impl Stream for Timer {
 
                 Poll::Ready(event) => {
                     if event.is_none() {
-                        return Poll::Ready(Some(ConsensusError::TimerErr(
-                            "Channel dropped".to_string(),
-                        )));
+                        log::error!("Overlord: timer event channel dropped");
+                        return Poll::Ready(None);
                     }
 
                     let event = event.unwrap();
diff --git a/src/types.rs b/src/types.rs
index 469eea6..3ab1d2d 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -100,6 +100,10 @@ impl<T: Codec> OverlordMsg<T> {
         matches!(self, OverlordMsg::RichStatus(_))
     }
 
+    pub(crate) fn is_stop(&self) -> bool {
+        matches!(self, OverlordMsg::Stop)
+    }
+
     pub(crate) fn get_height(&self) -> u64 {
         match self {
             OverlordMsg::SignedProposal(sp) => sp.proposal.height,
-- 
2.43.0


From 7c4bd5b0b98fd1c92df29d672effbeca69cd1007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 08/20] fix: decode of malformed bytes must fail, not panic

A choke or a WAL record with an unknown `from` tag and a WAL record with an
unknown step made the decoder panic.
---
 src/codec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index 1ae3ff1..592baec 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -445,7 +445,7 @@ impl Decodable for UpdateFrom {
                         let qc: AggregatedChoke = r.val_at(1)?;
                         UpdateFrom::ChokeQC(qc)
                     }
-                    _ => unreachable!(),
+                    _ => return Err(DecoderError::Custom("Invalid update from")),
                 };
                 Ok(res)
             }
@@ -502,6 +502,9 @@ impl<T: Codec> Decodable for WalInfo<T> {
                 let height: u64 = r.val_at(0)?;
                 let round: u64 = r.val_at(1)?;
                 let tmp: u8 = r.val_at(2)?;
+                if tmp > u8::from(Step::Commit) {
+                    return Err(DecoderError::Custom("Invalid step"));
+                }
                 let step = Step::from(tmp);
                 let lock = r.val_at(3)?;
                 let from: UpdateFrom = r.val_at(4)?;
-- 
2.43.0


From 10a6dbd2304f50debcaf832287f0dbbf9b998892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 09/20] fix: no arithmetic overflow on the height and round of
 a message

The proposer is computed before a proposal is filtered, from whatever height
and round it claims.
---
 src/utils/auth_manage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/auth_manage.rs b/src/utils/auth_manage.rs
index 72385c2..8e6c59f 100644
--- a/src/utils/auth_manage.rs
+++ b/src/utils/auth_manage.rs
@@ -64,7 +64,7 @@ impl AuthorityManage {
     pub fn get_proposer(&self, height: u64, round: u64) -> ConsensusResult<Address> {
         let index = if cfg!(feature = "random_leader") {
             get_random_proposer_index(
-                height + round,
+                height.wrapping_add(round),
                 &self.propose_weights,
                 self.propose_weight_sum,
             )
@@ -169,7 +169,7 @@ pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Add
     }
 
     let index = if cfg!(feature = "random_leader") {
-        get_random_proposer_index(height + round, &propose_weights, weight_sum)
+        get_random_proposer_index(height.wrapping_add(round), &propose_weights, weight_sum)
     } else {
         rotation_leader_index(height, round, authority_list.len())
     };
@@ -180,7 +180,7 @@ pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Add
 fn rotation_leader_index(height: u64, round: u64, authority_len: usize) -> usize {
     let len = authority_len as u32;
     let prime_num = *get_primes_less_than_x(len).last().unwrap_or(&1) as u64;
-    let res = (height * prime_num + round) % (len as u64);
+    let res = height.wrapping_mul(prime_num).wrapping_add(round) % u64::from(len);
     res as usize
 }
 
-- 
2.43.0


From 7411c008c578f242e17ea53cd9cec58704dc8121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 10/20] fix: check that the PoLC of a proposal is about the
 proposal

Only the signatures of the PoLC were verified. Any certificate, of another
type, height, round or block, made the receiver drop its lock and prevote the
proposal.
---
 src/state/process.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index 701f52c..f7cdc3e 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -640,6 +640,17 @@ where
         // SMR. Otherwise, touch off SMR directly.
         let lock_round = if let Some(polc) = proposal.lock.clone() {
             log::debug!("Overlord: state receive a signed proposal with a lock");
+
+            // The signatures of the PoLC have been verified, check that it is about this proposal.
+            let qc = &polc.lock_votes;
+            if !qc.is_prevote_qc()
+                || qc.height != proposal_height
+                || qc.round != polc.lock_round
+                || qc.round >= proposal_round
+                || qc.block_hash != proposal.block_hash
+            {
+                return Err(ConsensusError::ProposalErr("Invalid PoLC".to_string()));
+            }
             Some(polc.lock_round)
         } else {
             None
-- 
2.43.0


From 1acc6131ea34b12db4220076b0c864f560fae5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:14 +0000
Subject: [PATCH 11/20] fix: commit the content that was checked, not the
 latest of that hash

The outcome of check_block was kept per block hash while the content of the
hash was replaced by every proposal that claims the hash. A proposal with an
accepted hash and other content replaced the accepted content, which was then
proposed, logged and committed. The outcome also outlived the height it was
given for.
---
 src/state/process.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index f7cdc3e..629aef3 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -56,7 +56,7 @@ pub struct State<T: Codec, F: Consensus<T>, C: Crypto, W: Wal> {
     stopped: bool,
 
     verify_sig_tx: UnboundedSender<(Context, OverlordMsg<T>)>,
-    resp_tx: UnboundedSender<VerifyResp>,
+    resp_tx: UnboundedSender<(VerifyResp, T)>,
     function: Arc<F>,
     wal: Arc<W>,
     util: Arc<C>,
@@ -80,7 +80,7 @@ where
         consensus: Arc<F>,
         crypto: Arc<C>,
         wal_engine: Arc<W>,
-    ) -> (Self, UnboundedReceiver<VerifyResp>) {
+    ) -> (Self, UnboundedReceiver<(VerifyResp, T)>) {
         let (tx, rx) = unbounded();
         let mut auth = AuthorityManage::new();
         auth.update(&mut authority_list);
@@ -119,7 +119,7 @@ where
         &mut self,
         mut raw_rx: UnboundedReceiver<(Context, OverlordMsg<T>)>,
         mut event: Event,
-        mut verify_resp: UnboundedReceiver<VerifyResp>,
+        mut verify_resp: UnboundedReceiver<(VerifyResp, T)>,
         mut verify_sig: UnboundedReceiver<(Context, OverlordMsg<T>)>,
     ) {
         log::debug!("Overlord: state start running");
@@ -349,8 +349,8 @@ where
         }
     }
 
-    fn handle_resp(&mut self, msg: Option<VerifyResp>) -> ConsensusResult<()> {
-        let resp = msg.ok_or_else(|| ConsensusError::Other("Event sender dropped".to_string()))?;
+    fn handle_resp(&mut self, msg: Option<(VerifyResp, T)>) -> ConsensusResult<()> {
+        let (resp, block) = msg.ok_or_else(|| ConsensusError::Other("Event sender dropped".to_string()))?;
         if resp.height != self.height {
             return Ok(());
         }
@@ -363,6 +363,8 @@ where
             hex_encode(block_hash.clone())
         );
 
+        // The block that has been checked is the one that belongs to the hash.
+        self.hash_with_block.insert(block_hash.clone(), block);
         self.is_full_transaction
             .insert(block_hash.clone(), resp.is_pass);
 
@@ -448,6 +450,7 @@ where
         self.proposals.flush(new_height - 1);
         self.votes.flush(new_height - 1);
         self.hash_with_block.clear();
+        self.is_full_transaction.clear();
         self.chokes.clear();
 
         // Re-check proposals that have been in the proposal collector, of the current height.
@@ -658,7 +661,9 @@ where
 
         let hash = proposal.block_hash.clone();
         let block = proposal.content.clone();
-        self.hash_with_block.insert(hash.clone(), proposal.content);
+        if !self.try_get_full_txs(&hash) {
+            self.hash_with_block.insert(hash.clone(), proposal.content);
+        }
         self.proposals.insert(
             ctx.clone(),
             self.height,
@@ -1791,6 +1796,7 @@ where
             let lock = wal_info.lock.clone().unwrap();
             let qc = lock.lock_votes.clone();
             self.votes.set_qc(qc.clone());
+            self.is_full_transaction.insert(qc.block_hash.clone(), true);
             self.hash_with_block.insert(qc.block_hash, lock.content);
         }
 
@@ -1944,20 +1950,21 @@ async fn check_current_block<U: Consensus<T>, T: Codec>(
     round: u64,
     hash: Hash,
     block: T,
-    tx: UnboundedSender<VerifyResp>,
+    tx: UnboundedSender<(VerifyResp, T)>,
 ) -> ConsensusResult<()> {
     function
-        .check_block(ctx, height, hash.clone(), block)
+        .check_block(ctx, height, hash.clone(), block.clone())
         .await
         .map_err(|err| ConsensusError::Other(format!("check {} block error {:?}", height, err)))?;
 
     log::debug!("Overlord: state check block {}", true);
-    tx.unbounded_send(VerifyResp {
+    let resp = VerifyResp {
         height,
         round,
         block_hash: hash,
         is_pass: true,
-    })
+    };
+    tx.unbounded_send((resp, block))
     .map_err(|e| ConsensusError::ChannelErr(e.to_string()))
 }
 
-- 
2.43.0


From ac8112226c72ca046f052f396e7ec87ee1a19b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 12/20] fix: finish moving to a new height when the WAL can not
 be saved

The state returned right after it had set the new height, so it went on with
the authority list and the votes of the former height while the state machine
and the timer never heard of the new height, and the same status sent again is
ignored as outdated.
---
 src/state/process.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 629aef3..0237aac 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -435,7 +435,8 @@ where
 
         log::info!("Overlord: state goto new height {}", self.height);
 
-        self.save_wal(Step::Propose, None).await?;
+        // Without this record the node can still go on, it saves the next one before it acts.
+        let _ = self.save_wal(Step::Propose, None).await;
 
         // Update height and authority list.
         self.height_start = Instant::now();
-- 
2.43.0


From c7e5f6875998c43fd5aa633fbcd8ce78af8fa999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 13/20] fix: scale the timeouts of a restarted node with its
 round

A node that resumed from its WAL in the prevote or precommit step of a later
round used the timeouts of round 0, as the timer learns the round from the
start of a round only.
---
 src/timer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/timer.rs b/src/timer.rs
index d477c0c..b56bef8 100644
--- a/src/timer.rs
+++ b/src/timer.rs
@@ -113,6 +113,7 @@ impl Timer {
 
     fn set_timer(&mut self, event: SMREvent) -> ConsensusResult<()> {
         let mut is_brake_timer = false;
+        let mut event_round = self.round;
         match event.clone() {
             SMREvent::NewRoundInfo {
                 height,
@@ -125,6 +126,7 @@ impl Timer {
                     self.height = height;
                 }
                 self.round = round;
+                event_round = round;
 
                 if let Some(interval) = new_interval {
                     self.config.set_interval(interval);
@@ -133,6 +135,9 @@ impl Timer {
                     self.config.update(config);
                 }
             }
+            SMREvent::PrevoteVote { round, .. } | SMREvent::PrecommitVote { round, .. } => {
+                event_round = round
+            }
             SMREvent::Brake { .. } => is_brake_timer = true,
             SMREvent::Commit(_) => return Ok(()),
             _ => (),
@@ -140,10 +145,7 @@ impl Timer {
 
         let mut interval = self.config.get_timeout(event.clone())?;
         if !is_brake_timer {
-            let mut coef = self.round as u32;
-            if coef > MAX_TIMEOUT_COEF {
-                coef = MAX_TIMEOUT_COEF;
-            }
+            let coef = event_round.min(u64::from(MAX_TIMEOUT_COEF)) as u32;
             interval *= 2u32.pow(coef);
         }
 
-- 
2.43.0


From ebf86de79276bbd0c7b3507a6dbd15d3fc0a2134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 14/20] fix: let a prevote QC end the brake of its own round

A node which gets the prevote QC of round R while it is in a lower round goes
to round R + 1. The others, which brake in round R, ignored the QC as they are
past the prevote step, and with that node gone its choke of round R was
missing: with less than a quorum in each round nobody could move any more.
---
 src/smr/state_machine.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index df85b7f..005b131 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -283,7 +283,12 @@ impl StateMachine {
             return Ok(());
         }
 
-        if prevote_round == self.round && self.step > Step::Prevote {
+        // A node which brakes in the round of the QC has to follow those which left the round with
+        // this QC. They do not brake in this round any more, so it may never end otherwise.
+        let leave_brake = prevote_round == self.round
+            && self.step == Step::Brake
+            && source == TriggerSource::State;
+        if prevote_round == self.round && self.step > Step::Prevote && !leave_brake {
             return Ok(());
         }
 
@@ -330,7 +335,7 @@ impl StateMachine {
 
         self.update_polc(prevote_hash, prevote_round);
 
-        if prevote_round > self.round {
+        if prevote_round > self.round || leave_brake {
             let (lock_round, lock_proposal) = self
                 .lock
                 .clone()
-- 
2.43.0


From ee4b0b9d4c5f27a6e66c17bca35bbce9d98d4f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 15/20] fix: start from a WAL in the brake step even if the
 choke can not be saved

The start was given up before the state machine was told the height and round
of the WAL, so the node did nothing any more in this height.
---
 src/state/process.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 0237aac..5ed6cc1 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1811,7 +1811,10 @@ where
 
         if wal_info.step == Step::Brake {
             let lock_round = wal_info.lock.clone().map(|lock| lock.lock_round);
-            self.handle_brake(self.round, lock_round).await?;
+            if let Err(e) = self.handle_brake(self.round, lock_round).await {
+                // Go on, the timer of the brake step will try it again.
+                log::error!("Overlord: state handle brake error {:?}", e);
+            }
         }
 
         self.state_machine.trigger(SMRTrigger {
-- 
2.43.0


From 7400f536edfbcd7bbae11b0148c3a901cdf71f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 16/20] fix: follow to the next round without the block of the
 prevote QC

A node which has not got (or not accepted) the block of a prevote QC ignored
the QC altogether and stayed in the round, while those which left the round
with the QC do not brake in it any more. With less than a quorum in each of the
two rounds nobody could move, for good.
---
 src/smr/smr_types.rs     |  3 +++
 src/smr/state_machine.rs | 17 ++++++++++++++---
 src/state/process.rs     | 22 ++++++++++++++++++++++
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/smr/smr_types.rs b/src/smr/smr_types.rs
index 00e8894..befb643 100644
--- a/src/smr/smr_types.rs
+++ b/src/smr/smr_types.rs
@@ -232,6 +232,9 @@ pub enum TriggerType {
     /// Continue new round trigger.
     #[display(fmt = "Continue Round")]
     ContinueRound,
+    /// Leave the round of a prevote quorum certificate without its block.
+    #[display(fmt = "Skip Round")]
+    SkipRound,
     /// Stop process.
     #[display(fmt = "Stop Process")]
     Stop,
diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index 005b131..222819e 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -66,7 +66,13 @@ impl Stream for StateMachine {
                     }
                     TriggerType::ContinueRound => {
                         assert!(msg.source == TriggerSource::State);
-                        Some(self.handle_continue_round(msg.height, msg.round))
+                        let from = FromWhere::ChokeQC(msg.round.saturating_sub(1));
+                        Some(self.handle_continue_round(msg.height, msg.round, from))
+                    }
+                    TriggerType::SkipRound => {
+                        assert!(msg.source == TriggerSource::State);
+                        let from = FromWhere::PrevoteQC(msg.round.saturating_sub(1));
+                        Some(self.handle_continue_round(msg.height, msg.round, from))
                     }
                     TriggerType::WalInfo => Some(self.handle_wal(msg.wal_info.unwrap())),
                     TriggerType::Stop => {
@@ -117,7 +123,12 @@ impl StateMachine {
         }
     }
 
-    fn handle_continue_round(&mut self, height: u64, round: u64) -> ConsensusResult<()> {
+    fn handle_continue_round(
+        &mut self,
+        height: u64,
+        round: u64,
+        from_where: FromWhere,
+    ) -> ConsensusResult<()> {
         if height != self.height || round <= self.round {
             return Ok(());
         }
@@ -136,7 +147,7 @@ impl StateMachine {
             lock_proposal,
             new_interval: None,
             new_config: None,
-            from_where: FromWhere::ChokeQC(round - 1),
+            from_where,
         })?;
         self.goto_next_round();
         Ok(())
diff --git a/src/state/process.rs b/src/state/process.rs
index 5ed6cc1..a911985 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1245,6 +1245,14 @@ where
             match choke.from {
                 UpdateFrom::PrevoteQC(qc) | UpdateFrom::PrecommitQC(qc) => {
                     self.verify_aggregated_vote(&qc)?;
+                    if qc.is_prevote_qc()
+                        && qc.round >= self.round
+                        && !self.try_get_full_txs(&qc.block_hash)
+                    {
+                        // Without the block the QC can not be used to vote, but the node has to
+                        // follow those which left the round with it.
+                        return self.skip_round(qc);
+                    }
                     return self.handle_aggregated_vote(ctx.clone(), qc).await;
                 }
                 UpdateFrom::ChokeQC(qc) => {
@@ -1259,6 +1267,20 @@ where
         Ok(())
     }
 
+    fn skip_round(&mut self, prevote_qc: AggregatedVote) -> ConsensusResult<()> {
+        let round = prevote_qc.round + 1;
+        self.votes.set_qc(prevote_qc);
+        self.state_machine.trigger(SMRTrigger {
+            trigger_type: TriggerType::SkipRound,
+            source: TriggerSource::State,
+            hash: Hash::new(),
+            lock_round: None,
+            round,
+            height: self.height,
+            wal_info: None,
+        })
+    }
+
     fn handle_aggregated_choke(
         &mut self,
         aggregated_choke: AggregatedChoke,
-- 
2.43.0


From ad47c7a7c58ad53ce57c1824a08087fa77075a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 17/20] fix: know the leader of a round even if the WAL can not
 be saved

---
 src/state/process.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index a911985..638d01f 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -489,7 +489,9 @@ where
         }
 
         self.round = new_round;
-        self.is_leader = false;
+        // The leader of the round must be known even if the WAL can not be saved, otherwise the votes
+        // of the round are sent to the leader of an earlier one.
+        let is_proposer = self.is_proposer()?;
 
         if lock_round.is_some().bitxor(lock_proposal.is_some()) {
             return Err(ConsensusError::ProposalErr(
@@ -503,7 +505,7 @@ where
 
         // If self is not proposer, check whether it has received current signed proposal before. If
         // has, then handle it.
-        if !self.is_proposer()? {
+        if !is_proposer {
             if let Ok((signed_proposal, ctx)) = self.proposals.get(self.height, self.round) {
                 return self.handle_signed_proposal(ctx, signed_proposal).await;
             }
@@ -522,7 +524,6 @@ where
         // certificate form proposal collector and vote collector. Some necessary checks should be
         // done by doing this. These things constitute a Proposal. Then sign it and broadcast it to
         // other nodes.
-        self.is_leader = true;
         let ctx = Context::new();
         let (block, hash, polc) = if lock_round.is_none() {
             let (new_block, new_hash) = self
-- 
2.43.0


From b7183893b5b5a06b5ce6c019176ecda37d77b58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 18/20] fix: do not let forged messages of a future height
 displace genuine ones

Messages of a higher height are kept without verification until the node gets
there, one proposal per round, one vote per voter, one QC per round and type. A
forged one took the place of the genuine one, or kept it out, and failed the
verification later, so that the genuine one was lost.
---
 src/state/process.rs | 55 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 638d01f..4b58dfe 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -139,7 +139,9 @@ where
                             // Handle it right now: a message put into the verified channel would
                             // be taken for a verified one once the height has caught up with it.
                             Ordering::Less => {
-                                if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
+                                if let Err(e) = self.verify_future_msg(&msg) {
+                                    log::error!("Overlord: state future message error {:?}", e);
+                                } else if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
                                     self.report_error(ctx, e.clone());
                                     log::error!("Overlord: state {:?} error", e);
                                 }
@@ -914,10 +916,12 @@ where
 
         // Check if the quorum certificate has generated before check whether there is a hash that
         // vote weight is above the threshold. If no hash achieved this, return directly.
-        if self
-            .votes
-            .get_qc_by_id(height, round, vote_type.clone())
-            .is_ok()
+        // The quorum certificates of a future height have not been verified yet.
+        if height == self.height
+            && self
+                .votes
+                .get_qc_by_id(height, round, vote_type.clone())
+                .is_ok()
         {
             return Ok(());
         }
@@ -1054,7 +1058,16 @@ where
                         vote_height,
                         vote_round,
                     );
-                    self.votes.set_qc(aggregated_vote);
+                    // It is verified when the node gets to that height. Until then, one that can not
+                    // be verified must not displace another.
+                    if self
+                        .votes
+                        .get_qc_by_id(vote_height, vote_round, qc_type)
+                        .is_err()
+                        || self.verify_aggregated_vote(&aggregated_vote).is_ok()
+                    {
+                        self.votes.set_qc(aggregated_vote);
+                    }
                 } else {
                     log::warn!("Overlord: state receive a much higher aggregated vote");
                 }
@@ -1245,7 +1258,7 @@ where
         if choke_round > self.round {
             match choke.from {
                 UpdateFrom::PrevoteQC(qc) | UpdateFrom::PrecommitQC(qc) => {
-                    self.verify_aggregated_vote(&qc)?;
+                    self.verify_choke_qc(&qc)?;
                     if qc.is_prevote_qc()
                         && qc.round >= self.round
                         && !self.try_get_full_txs(&qc.block_hash)
@@ -1505,13 +1518,17 @@ where
 
     /// The `from` field is not covered by the signature of a choke, so the quorum certificate in it
     /// must be verified before it is handled.
-    fn verify_aggregated_vote(&self, qc: &AggregatedVote) -> ConsensusResult<()> {
+    fn verify_choke_qc(&self, qc: &AggregatedVote) -> ConsensusResult<()> {
         if qc.height != self.height {
             return Err(ConsensusError::AggregatedSignatureErr(
                 "the quorum certificate is not of the current height".to_string(),
             ));
         }
+        self.verify_aggregated_vote(qc)
+    }
 
+    /// Verify a quorum certificate with the authority list of the current height.
+    fn verify_aggregated_vote(&self, qc: &AggregatedVote) -> ConsensusResult<()> {
         let bitmap = &qc.signature.address_bitmap;
         if !self.authority.is_above_threshold(bitmap)? {
             return Err(ConsensusError::AggregatedSignatureErr(
@@ -1549,6 +1566,28 @@ where
             .map_err(|err| ConsensusError::AggregatedSignatureErr(format!("{:?}", err)))
     }
 
+    /// Only one proposal of a round and one vote of a voter are kept for a future height, so a forged
+    /// one must not take the place of the genuine one.
+    fn verify_future_msg(&self, msg: &OverlordMsg<T>) -> ConsensusResult<()> {
+        let (signature, encoded, address) = match msg {
+            OverlordMsg::SignedProposal(sp) => (
+                &sp.signature,
+                rlp::encode(&sp.proposal),
+                &sp.proposal.proposer,
+            ),
+            OverlordMsg::SignedVote(sv) => (&sv.signature, rlp::encode(&sv.vote), &sv.voter),
+            _ => return Ok(()),
+        };
+
+        self.util
+            .verify_signature(
+                signature.clone(),
+                self.util.hash(Bytes::from(encoded)),
+                address.clone(),
+            )
+            .map_err(|err| ConsensusError::CryptoErr(format!("{:?}", err)))
+    }
+
     /// Check whether the given address is included in the corresponding authority list.
     fn verify_address(&self, address: &Address) -> ConsensusResult<()> {
         if !self.authority.contains(address) {
-- 
2.43.0


From 4226b34c6f983a510445a0cc314f067fe22eedc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:04 +0000
Subject: [PATCH 19/20] fix: know the leader of the round when starting without
 a WAL

---
 src/state/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index 4b58dfe..b3b7e15 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1839,6 +1839,8 @@ where
         let wal_info = self.load_wal().await?;
         if wal_info.is_none() {
             if self.height != INIT_HEIGHT {
+                // The votes of the round must go to its leader.
+                self.is_leader = self.is_proposer()?;
                 return self.wal_lost();
             } else {
                 return Ok(());
-- 
2.43.0


From 44818e8bd9cf1df7d6bd70701bf75975c467f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:31 +0000
Subject: [PATCH 20/20] fix: act on the latest prevote QC of a block once its
 check has ended

---
 src/state/collection.rs | 13 ++++++++++---
 src/state/process.rs    |  3 ++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/state/collection.rs b/src/state/collection.rs
index 5ffefa6..0b60935 100644
--- a/src/state/collection.rs
+++ b/src/state/collection.rs
@@ -266,10 +266,17 @@ impl VoteRoundCollector {
     }
 
     fn set_qc(&mut self, qc: AggregatedVote) {
-        self.qc_by_hash
+        let qcs = self
+            .qc_by_hash
             .entry(qc.block_hash.clone())
-            .or_insert_with(QuorumCertificate::new)
-            .set_quorum_certificate(qc.clone());
+            .or_insert_with(QuorumCertificate::new);
+        // One of an earlier round must not displace it.
+        if qcs
+            .get_quorum_certificate(qc.vote_type.clone())
+            .map_or(true, |last| last.round <= qc.round)
+        {
+            qcs.set_quorum_certificate(qc.clone());
+        }
 
         self.general
             .entry(qc.get_round())
diff --git a/src/state/process.rs b/src/state/process.rs
index b3b7e15..de3af72 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -387,7 +387,8 @@ where
             self.votes
                 .get_qc_by_hash(self.height, block_hash, VoteType::Prevote)
         {
-            if qc.round == self.round {
+            // One of a later round leads there, as it does when it comes after the check.
+            if qc.round >= self.round {
                 self.state_machine.trigger(SMRTrigger {
                     trigger_type: TriggerType::PrevoteQC,
                     source: TriggerSource::State,
-- 
2.43.0

