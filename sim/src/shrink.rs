//! Make a failing plan smaller while it still fails in the same way.

use crate::plan::*;
use crate::run::{run, Outcome};
use crate::world::Violation;
use std::time::{Duration, Instant};

pub struct Shrunk {
    pub plan: Plan,
    pub outcome: Outcome,
    pub violation: Violation,
    pub runs: u64,
}

struct S {
    prop: String,
    rule: &'static str,
    until: Instant,
    runs: u64,
    max_runs: u64,
    best: Plan,
    out: Outcome,
}

impl S {
    fn spent(&self) -> bool {
        Instant::now() > self.until || self.runs > self.max_runs
    }
    fn same<'a>(&self, o: &'a Outcome) -> Option<&'a Violation> {
        o.violations
            .iter()
            .find(|v| v.prop == self.prop && v.rule == self.rule)
    }
    fn attempt(&mut self, p: Plan) -> bool {
        if self.spent() || p == self.best {
            return false;
        }
        self.runs += 1;
        let o = run(&p, false, None);
        if self.same(&o).is_some() {
            self.best = p;
            self.out = o;
            return true;
        }
        false
    }
    fn with(&mut self, f: impl FnOnce(&mut Plan)) -> bool {
        let mut p = self.best.clone();
        f(&mut p);
        self.attempt(p)
    }
}

pub fn shrink(plan: &Plan, prop: &str, rule: &'static str, first: Outcome, budget: Duration) -> Shrunk {
    let mut s = S {
        prop: prop.into(),
        rule,
        until: Instant::now() + budget,
        runs: 0,
        max_runs: 600,
        best: plan.clone(),
        out: first,
    };
    // whole groups first
    s.with(|p| p.faults.clear());
    s.with(|p| p.mute_from = Some(0));
    s.with(|p| p.adv.act_ppm = 0);
    s.with(|p| p.rt = Rt { fifo: true, ..Rt::default() });
    s.with(|p| p.rt.jitter_ppm = 0);
    s.with(|p| p.rt.yield_ppm = 0);
    s.with(|p| p.clock_ppm.clear());
    s.with(|p| p.net.loss_ppm = 0);
    s.with(|p| p.net.dup_ppm = 0);
    s.with(|p| p.net.corrupt_ppm = 0);
    s.with(|p| p.net.tail_ppm = 0);
    s.with(|p| {
        p.app = App {
            get_us: p.app.get_us,
            check_us: p.app.check_us,
            commit_us: p.app.commit_us,
            send_us: p.app.send_us,
            ..App::default()
        }
    });
    s.with(|p| p.app.slow_ppm = 0);
    s.with(|p| p.app.get_err_ppm = 0);
    s.with(|p| p.app.check_err_ppm = 0);
    s.with(|p| p.app.check_hang_ppm = 0);
    s.with(|p| p.app.commit_err_ppm = 0);
    s.with(|p| p.app.send_err_ppm = 0);
    s.with(|p| p.app.sign_err_ppm = 0);
    s.with(|p| p.wal.err_ppm = 0);
    s.with(|p| p.app.get_us = 0);
    s.with(|p| p.app.check_us = 0);
    s.with(|p| p.app.commit_us = 0);
    s.with(|p| p.app.send_us = 0);
    s.with(|p| p.wal.save_us = 0);
    s.with(|p| p.start_us.clear());
    s.with(|p| p.snapshot = false);
    s.with(|p| p.greet_us = 0);
    // planned faults one by one, in shrinking chunks
    let mut chunk = s.best.faults.len();
    while chunk > 0 && !s.spent() {
        let mut i = 0;
        while i < s.best.faults.len() && !s.spent() {
            let hi = (i + chunk).min(s.best.faults.len());
            if !s.with(|p| {
                p.faults.drain(i..hi);
            }) {
                i += chunk;
            }
        }
        chunk /= 2;
    }
    // random faults: first cut the tail off, then drop single ones
    if !s.out.rolled.is_empty() {
        let (mut lo, mut hi) = (0usize, s.out.rolled.len());
        let seqs = s.out.rolled.clone();
        while lo < hi && !s.spent() {
            let mid = (lo + hi) / 2;
            let at = seqs[mid];
            if s.with(|p| p.mute_from = Some(at)) {
                hi = mid;
            } else {
                lo = mid + 1;
            }
        }
        let mut chunk = (s.out.rolled.len() / 2).max(1);
        loop {
            let seqs = s.out.rolled.clone();
            for c in seqs.chunks(chunk) {
                let c: Vec<u64> = c.to_vec();
                s.with(|p| p.mute.extend(c));
                if s.spent() {
                    break;
                }
            }
            if chunk == 1 || s.spent() {
                break;
            }
            chunk /= 2;
        }
    }
    // the adversary's actions likewise
    let mut chunk = (s.out.adv.len() / 2).max(1);
    while !s.out.adv.is_empty() && !s.spent() {
        let idx: Vec<u64> = s.out.adv.iter().map(|a| a.0).collect();
        for c in idx.chunks(chunk) {
            let c: Vec<u64> = c.to_vec();
            s.with(|p| p.adv_mute.extend(c));
            if s.spent() {
                break;
            }
        }
        if chunk == 1 {
            break;
        }
        chunk /= 2;
    }
    // what the run does not need to say
    let keep: std::collections::BTreeSet<u64> = s.best.mute.clone();
    if !keep.is_empty() {
        s.with(|p| p.mute.clear());
    }
    s.runs += 1;
    let out = run(&s.best, true, None);
    let v = s.same(&out).cloned();
    let violation = v.unwrap_or_else(|| {
        s.same(&s.out).cloned().expect("the shrunk plan fails")
    });
    Shrunk {
        plan: s.best,
        outcome: out,
        violation,
        runs: s.runs,
    }
}
