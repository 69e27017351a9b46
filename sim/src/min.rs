//! Makes a failing run as small as it will go while it still fails the same way.
use crate::check::{evaluate, Viol};
use crate::exec;
use crate::gen::Refs;
use crate::plan::{Plan, A};
use simrt::{EnvCfg, TraceEnt, NEVER};
use std::time::Instant;

pub struct Min<'a> {
    refs: &'a mut Refs,
    kind: String,
    left: u32,
    until: Instant,
    last: Option<Viol>,
}

impl Min<'_> {
    fn fails(&mut self, p: &Plan) -> bool {
        if self.left == 0 || Instant::now() > self.until {
            return false;
        }
        self.left -= 1;
        let o = exec::run(p, &self.refs.ops);
        match evaluate(p, &o, self.refs) {
            Some(v) if v.kind == self.kind => {
                self.last = Some(v);
                true
            }
            _ => false,
        }
    }

    /// Removes as many of `n` parts as possible; `make` builds the plan with the kept ones.
    fn parts(&mut self, n: usize, make: &dyn Fn(&[usize]) -> Plan) -> Vec<usize> {
        let mut keep: Vec<usize> = (0..n).collect();
        if n > 0 && self.fails(&make(&[])) {
            return vec![];
        }
        let mut size = (n / 2).max(1);
        loop {
            let mut i = 0;
            let mut any = false;
            while i < keep.len() {
                let mut k = keep.clone();
                k.drain(i..(i + size).min(k.len()));
                if k.len() < keep.len() && self.fails(&make(&k)) {
                    keep = k;
                    any = true;
                } else {
                    i += size;
                }
                if self.left == 0 || Instant::now() > self.until {
                    return keep;
                }
            }
            if size == 1 {
                if !any {
                    return keep;
                }
            } else {
                size = size.div_ceil(2).max(1);
            }
        }
    }
}

fn with_steps(p: &Plan, keep: &[usize]) -> Plan {
    let mut q = p.clone();
    let mut i = 0;
    for t in q.threads.iter_mut() {
        t.steps.retain(|_| {
            i += 1;
            keep.binary_search(&(i - 1)).is_ok()
        });
    }
    q
}

/// A trace to replay from: the decisions of the run just made.
fn recorded(p: &Plan, refs: &mut Refs) -> Plan {
    let o = exec::run(p, &refs.ops);
    let mut q = p.clone();
    q.trace = Some(o.trace);
    q
}

pub fn minimise(p: &Plan, v: &Viol, refs: &mut Refs, budget: u32, seconds: u64) -> (Plan, Viol) {
    let mut m = Min { refs, kind: v.kind.clone(), left: budget, until: Instant::now() + std::time::Duration::from_secs(seconds), last: None };
    let mut cur = p.clone();
    if cur.trace.is_none() {
        let q = recorded(&cur, m.refs);
        if m.fails(&q) {
            cur = q;
        }
    }
    // C08 judges frequencies: a shortened run is a different question
    if p.prop != "C08" {
        // no schedule at all
        if cur.trace.is_some() {
            let mut q = cur.clone();
            q.trace = Some(vec![]);
            if m.fails(&q) {
                cur = q;
            }
        }
        let n = cur.ops();
        let base = cur.clone();
        let keep = m.parts(n, &|k| with_steps(&base, k));
        cur = with_steps(&base, &keep);
        // faults
        let ids: Vec<(usize, usize)> = cur.threads.iter().enumerate().flat_map(|(i, t)| (0..t.steps.len()).map(move |j| (i, j))).collect();
        for (i, j) in ids {
            let s = &cur.threads[i].steps[j];
            if s.faultless() {
                continue;
            }
            let mut q = cur.clone();
            let s = &mut q.threads[i].steps[j];
            s.fail_at = NEVER;
            s.persist = false;
            s.stall_at = NEVER;
            s.stall_hot = NEVER;
            s.cmp = true;
            if m.fails(&q) {
                cur = q;
            } else if cur.threads[i].steps[j].persist {
                let mut q = cur.clone();
                q.threads[i].steps[j].persist = false;
                if m.fails(&q) {
                    cur = q;
                }
            }
        }
        // switches
        if let Some(tr) = cur.trace.clone() {
            let base = cur.clone();
            let make = |k: &[usize]| {
                let mut q = base.clone();
                q.trace = Some(k.iter().map(|&i| tr[i]).collect::<Vec<TraceEnt>>());
                q
            };
            let keep = m.parts(tr.len(), &make);
            cur = make(&keep);
        }
        // own operands instead of shared ones
        let mut q = cur.clone();
        for t in q.threads.iter_mut() {
            for s in t.steps.iter_mut() {
                for a in s.args.iter_mut() {
                    if let A::Shared(i) = a {
                        *a = A::Inline(cur.shared[*i].clone());
                    }
                }
            }
        }
        q.shared.clear();
        if !cur.shared.is_empty() && m.fails(&q) {
            cur = q;
        }
        while cur.threads.last().is_some_and(|t| t.steps.is_empty()) && cur.threads.len() > 1 {
            let mut q = cur.clone();
            q.threads.pop();
            if !m.fails(&q) {
                break;
            }
            cur = q;
        }
        if cur.reps > 1 && p.prop != "C11" {
            let mut q = cur.clone();
            q.reps = 1;
            if m.fails(&q) {
                cur = q;
            }
        }
    }
    // surroundings
    let mut plain = cur.clone();
    plain.env = EnvCfg { rng_mode: cur.env.rng_mode, rng_arg: cur.env.rng_arg, entropy: cur.env.entropy, ..EnvCfg::plain() };
    if plain.env != cur.env {
        if m.fails(&plain) {
            cur = plain;
        } else {
            for f in 0..8 {
                let mut q = cur.clone();
                let e = EnvCfg::plain();
                match f {
                    0 => q.env.fill = e.fill,
                    1 => q.env.reuse = e.reuse,
                    2 => q.env.poison_free = e.poison_free,
                    3 => q.env.realloc_move = e.realloc_move,
                    4 => (q.env.clock_base, q.env.clock_jump) = (e.clock_base, e.clock_jump),
                    5 => q.env.getenv = e.getenv,
                    6 => q.env.ncpu = e.ncpu,
                    _ => q.env.skew = e.skew,
                }
                if q.env != cur.env && m.fails(&q) {
                    cur = q;
                }
            }
        }
    }
    let last = m.last.clone().unwrap_or_else(|| v.clone());
    (cur, last)
}
