//! From one seed: which calls, on which threads, under which surroundings, with which faults.
use crate::exec::{self, Rec, ST_DONE, ST_PANIC};
use crate::plan::{Plan, Step, Thread, A};
use hm_ops::{Fun, Op};
use hm_spec::{gen, gen_limbs, gen_rd, neighbour, Arg, K, RD};
use simrt::{EnvCfg, Policy, Rng, NEVER};
use std::collections::HashMap;
use std::sync::Arc;

pub const SOLO_LIMIT: u64 = 100_000_000;
/// Calls that only accompany others are cheaper than this.
pub const NOISE_LIMIT: u64 = 3_000_000;

#[derive(Clone, Debug)]
pub struct Spec {
    pub op: usize,
    pub args: Vec<Arg>,
    pub solo: Rec,
}

/// What every call returns when it is the only call a fresh process ever makes.
pub struct Refs {
    pub ops: Arc<Vec<Op>>,
    memo: HashMap<(usize, String), Option<Rec>>,
    pub solo_runs: u64,
    pub dropped: u64,
    /// calls that already go wrong on their own
    pub wrong: Vec<Plan>,
    /// whether a call that does not end on its own is wrong
    pub hangs: bool,
    hung: u32,
}

/// Operations whose work is a modest function of the size of their arguments.
fn swift(name: &str) -> bool {
    !name.starts_with("F192") && !name.contains("_iter") && !name.contains("prime") && !name.contains("factorial") && !name.contains("pow")
}

impl Refs {
    pub fn new(ops: Arc<Vec<Op>>) -> Refs {
        Refs { ops, memo: HashMap::new(), solo_runs: 0, dropped: 0, wrong: vec![], hangs: false, hung: 0 }
    }
    pub fn clear(&mut self) {
        self.memo.clear();
    }
    pub fn solo(&mut self, op: usize, args: &[Arg]) -> Option<Rec> {
        let key = (op, args.iter().map(|a| a.text()).collect::<Vec<_>>().join(" "));
        if let Some(r) = self.memo.get(&key) {
            return r.clone();
        }
        let p = Plan {
            prop: "solo".into(),
            seed: 1,
            env: EnvCfg::plain(),
            policy: Policy { kind: 0, mean: 1, p_hot: 0, p_begin: 0, p_alloc: 0, max_switches: 0 },
            shared: vec![],
            regs: vec![],
            threads: vec![Thread { wave: 0, steps: vec![step(1, op, args.iter().cloned().map(A::Inline).collect(), SOLO_LIMIT)] }],
            reps: 1,
            full: false,
            cap: 90,
            trace: None,
        };
        self.solo_runs += 1;
        let o = exec::run(&p, &self.ops);
        let r = if o.verdict == simrt::V_DONE && o.recs.len() == 1 && !o.recs[0].args_changed { Some(o.recs[0].clone()) } else { None };
        if r.is_none() {
            self.dropped += 1;
            if !matches!(o.verdict, simrt::V_LIMIT | simrt::V_OVERRUN) {
                self.wrong.push(p);
            } else if o.verdict == simrt::V_OVERRUN && self.hangs && self.hung < 2 && swift(self.ops[op].name) {
                // slow, or for ever?
                let mut q = p;
                q.threads[0].steps[0].limit = 4_000_000_000;
                if exec::run(&q, &self.ops).verdict == simrt::V_OVERRUN {
                    self.hung += 1;
                    self.wrong.push(q);
                }
            }
        }
        self.memo.insert(key, r.clone());
        r
    }
}

pub fn step(id: u32, op: usize, args: Vec<A>, limit: u64) -> Step {
    Step { id, op, reg: None, args, cmp: true, limit, fail_at: NEVER, persist: false, stall_at: NEVER, stall_hot: NEVER, stall_delta: 0 }
}

/// A call may take this many of its own steps, however it is scheduled.
pub fn limit_for(solo: &Rec) -> u64 {
    solo.stat.steps * 8 + 1_000_000
}

// ---------------------------------------------------------------- surroundings and schedules
pub fn gen_env(r: &mut Rng) -> EnvCfg {
    EnvCfg {
        fill: r.below(5) as u8,
        reuse: r.below(3).min(1) as u8,
        poison_free: r.below(2) == 0,
        realloc_move: r.below(2) == 0,
        clock_base: *r.pick(&[0, 1, 1_700_000_000_000_000_000, 4_102_444_800_000_000_000, 86_399_999_999_999]),
        clock_jump: r.below(4) as u8,
        getenv: r.below(4) as u8,
        ncpu: *r.pick(&[1, 2, 4, 8, 64, 256]),
        entropy: r.next(),
        rng_mode: 0,
        rng_arg: 0,
        skew: r.below(320) as u32,
    }
}

pub fn gen_policy(r: &mut Rng) -> Policy {
    let kind = *r.pick(&[0u8, 1, 1, 1, 1, 1, 2, 2, 2, 3, 3]);
    let mean = match kind {
        3 => *r.pick(&[1u64, 2, 5, 20, 100]),
        _ => *r.pick(&[3u64, 10, 30, 100, 300, 1000, 5000]),
    };
    Policy {
        kind,
        mean,
        p_hot: *r.pick(&[0, 100, 400, 1000]),
        p_begin: *r.pick(&[0, 100, 400]),
        p_alloc: *r.pick(&[0, 0, 50, 250]),
        max_switches: *r.pick(&[4u64, 20, 100, 400, 1500]),
    }
}

fn serial() -> Policy {
    Policy { kind: 0, mean: 1, p_hot: 0, p_begin: 0, p_alloc: 0, max_switches: 0 }
}

// ---------------------------------------------------------------- specs
pub struct Chunk {
    pub focus: Vec<Vec<Spec>>, // per focus operation: near-identical and fresh argument lists
    pub noise: Vec<Spec>,
    pub lasting: bool,
}

impl Chunk {
    pub fn empty() -> Chunk {
        Chunk { focus: vec![], noise: vec![], lasting: false }
    }
}

pub fn make_spec(refs: &mut Refs, op: usize, args: Vec<Arg>) -> Option<Spec> {
    let solo = refs.solo(op, &args)?;
    Some(Spec { op, args, solo })
}

pub fn gen_args(sig: &[K], r: &mut Rng) -> Vec<Arg> {
    sig.iter().map(|k| gen(*k, r)).collect()
}

pub fn near_args(sig: &[K], a: &[Arg], r: &mut Rng) -> Vec<Arg> {
    let mut b = a.to_vec();
    if sig.is_empty() {
        return b;
    }
    // operands swapped is a near miss of its own
    if sig.len() >= 2 && sig[0] == sig[1] && r.below(4) == 0 {
        b.swap(0, 1);
        return b;
    }
    let i = r.below(sig.len() as u64) as usize;
    b[i] = neighbour(&b[i], sig[i], r);
    b
}

/// Which catalogue entries a property draws its calls from.
pub fn eligible(prop: &str, ops: &[Op]) -> Vec<usize> {
    (0..ops.len())
        .filter(|&i| {
            let o = &ops[i];
            match prop {
                "C07" | "C08" => o.random,
                "C09" => o.name.starts_with("sink/"),
                "C10" => o.name.starts_with("use/"),
                "C12" | "C05" => matches!(o.fun, Fun::Mut(_)),
                _ => !o.random,
            }
        })
        .collect()
}

/// A call that, on its own, was seen to touch something that outlives it.
#[derive(Clone, Debug)]
pub struct Sticky {
    pub op: usize,
    /// argument lists with which it only looks at it
    pub args: Vec<Vec<Arg>>,
    /// argument lists with which it changes it
    pub marks: Vec<Vec<Arg>>,
}

impl Sticky {
    fn pick(&self, r: &mut Rng) -> Vec<Arg> {
        let m = !self.marks.is_empty() && (self.args.is_empty() || r.below(4) > 0);
        r.pick(if m { &self.marks } else { &self.args }).clone()
    }
}

/// What asking around before the search brought to light.
#[derive(Default)]
pub struct Guide {
    pub sticky: Vec<Sticky>,
    /// per operation: argument lists that reach different parts of the code
    pub corpus: Vec<Vec<Vec<Arg>>>,
    /// per operation: constants its code compares with
    pub dict: Vec<Vec<u64>>,
    pub calls: u64,
}

impl Guide {
    pub fn args(&self, op: usize, sig: &[K], r: &mut Rng) -> Vec<Arg> {
        let none = vec![];
        let c = self.corpus.get(op).unwrap_or(&none);
        let nil = vec![];
        let d = self.dict.get(op).unwrap_or(&nil);
        match r.below(20) {
            0..=7 if !c.is_empty() => r.pick(c).clone(),
            8..=11 if !d.is_empty() => {
                let a = if c.is_empty() || r.below(2) == 0 { gen_args(sig, r) } else { r.pick(c).clone() };
                hm_spec::tweak(&a, sig, d, r)
            }
            _ => gen_args(sig, r),
        }
    }
}

pub fn make_chunk(prop: &str, refs: &mut Refs, r: &mut Rng, chunk: u64, order: &[usize], n_focus: usize, g: &Guide) -> Chunk {
    let ops = refs.ops.clone();
    let sticky = &g.sticky;
    let mut focus = vec![];
    // every other chunk goes to the calls that touch something lasting, if there are any
    let lasting = !sticky.is_empty() && chunk % 2 == 1;
    let plain = if sticky.is_empty() { chunk } else { chunk / 2 };
    // ... and two thirds of those to the calls that change it
    let markers: Vec<usize> = (0..sticky.len()).filter(|&i| !sticky[i].marks.is_empty()).collect();
    for f in 0..n_focus {
        let k = plain as usize * n_focus + f;
        let s = &if markers.is_empty() || f % 3 == 2 { sticky.get(k / if markers.is_empty() { 1 } else { 3 } % sticky.len().max(1)) } else { sticky.get(markers[k % markers.len()]) };
        let op = if lasting { s.unwrap().op } else { order[(plain as usize * n_focus + f) % order.len()] };
        let sig = ops[op].sig;
        let mut v: Vec<Spec> = vec![];
        for _ in 0..2 {
            let base = if lasting && r.below(3) > 0 { s.unwrap().pick(r) } else { g.args(op, sig, r) };
            let mut lists = vec![base.clone()];
            for _ in 0..if lasting { 8 } else { 4 } {
                let from = r.below(lists.len() as u64) as usize;
                let near = near_args(sig, &lists[if r.below(3) == 0 { from } else { 0 }].clone(), r);
                lists.push(near);
            }
            for l in lists {
                if let Some(s) = make_spec(refs, op, l) {
                    v.push(s);
                }
            }
        }
        for _ in 0..3 {
            if let Some(s) = make_spec(refs, op, g.args(op, sig, r)) {
                v.push(s);
            }
        }
        if lasting && v.iter().filter(|s| s.solo.stat.steps < 20_000_000).count() >= 4 {
            v.retain(|s| s.solo.stat.steps < 20_000_000);
        }
        if !v.is_empty() {
            focus.push(v);
        }
    }
    let mut noise = vec![];
    if lasting {
        for _ in 0..8 {
            let s = r.pick(sticky);
            if let Some(s) = make_spec(refs, s.op, s.pick(r)).filter(|s| s.solo.stat.steps < NOISE_LIMIT) {
                noise.push(s);
            }
        }
    }
    let all = if prop == "C09" || prop == "C10" { order.to_vec() } else { eligible(prop, &ops) };
    for _ in 0..14 {
        let op = *r.pick(&all);
        if let Some(s) = make_spec(refs, op, g.args(op, ops[op].sig, r)).filter(|s| s.solo.stat.steps < NOISE_LIMIT) {
            noise.push(s);
        }
    }
    // a nearby operation on the operands of a focus operation (add/sub/add_mut ... on the same numbers)
    for f in &focus {
        let s = &f[r.below(f.len() as u64) as usize];
        let sig = ops[s.op].sig;
        let mut tries = 0;
        while tries < 6 {
            tries += 1;
            let op = *r.pick(&all);
            if op != s.op && ops[op].sig == sig {
                if let Some(s) = make_spec(refs, op, s.args.clone()).filter(|s| s.solo.stat.steps < NOISE_LIMIT) {
                    noise.push(s);
                }
                break;
            }
        }
    }
    Chunk { focus, noise, lasting }
}

/// Asks one operation many times: where does it go, what does it compare with, and does it touch
/// anything that outlives the call?
pub fn scan_op(ops: &Arc<Vec<Op>>, op: usize, seed: u64, batches: u64, calls: u64, budget: u64) -> (Vec<exec::Kept>, Vec<u64>) {
    let mut all: Vec<exec::Kept> = vec![];
    let mut dict = vec![];
    for b in 0..if ops[op].sig.is_empty() { 1 } else { batches } {
        let from = all.len().saturating_sub(40);
        let known: Vec<Vec<Arg>> = all[from..].iter().map(|k| k.args.clone()).collect();
        let (k, d) = exec::scan_run(op, simrt::rng::mix(seed ^ b << 40), calls, budget, &known, &dict, ops);
        all.extend(k);
        dict = d;
    }
    (all, dict)
}

fn pick_spec<'a>(c: &'a Chunk, f: usize, p_focus: u64, r: &mut Rng) -> &'a Spec {
    if c.noise.is_empty() || r.below(100) < p_focus {
        r.pick(&c.focus[f])
    } else {
        r.pick(&c.noise)
    }
}

fn inst(s: &Spec, id: u32) -> Step {
    step(id, s.op, s.args.iter().cloned().map(A::Inline).collect(), limit_for(&s.solo))
}

/// Moves some operands into the table that all threads share.
fn share(p: &mut Plan, ops: &[Op], r: &mut Rng, per_mille: u64) {
    let mut table: Vec<Arg> = vec![];
    for t in p.threads.iter_mut() {
        for s in t.steps.iter_mut() {
            let skip = if s.reg.is_some() { s.args.len() } else { matches!(ops[s.op].fun, Fun::Mut(_)) as usize };
            for a in s.args.iter_mut().skip(skip) {
                if let A::Inline(x) = a {
                    if let Some(i) = table.iter().position(|y| y == x) {
                        if r.chance(per_mille * 2) {
                            *a = A::Shared(i);
                        }
                    } else if table.len() < 12 && r.chance(per_mille) {
                        table.push(x.clone());
                        *a = A::Shared(table.len() - 1);
                    }
                }
            }
        }
    }
    p.shared = table;
}

fn base(prop: &str, seed: u64) -> Plan {
    Plan { prop: prop.into(), seed, env: EnvCfg::plain(), policy: serial(), shared: vec![], regs: vec![], threads: vec![], reps: 1, full: false, cap: 90, trace: None }
}

// ---------------------------------------------------------------- plans
pub fn make_plan(prop: &str, refs: &mut Refs, c: &mut Chunk, g: &Guide, seed: u64, run: u64) -> Option<Plan> {
    let ops = refs.ops.clone();
    let mut rr = Rng::new(seed);
    let r = &mut rr;
    let mut p = base(prop, seed);
    if r.below(2) == 0 {
        p.env = gen_env(r);
    }
    let mut id = 0;
    let mut next = || {
        id += 1;
        id
    };
    match prop {
        "C01" | "C09" | "C10" => {
            if c.focus.is_empty() {
                return None;
            }
            let f = (run as usize) % c.focus.len();
            let single = prop != "C01" && r.below(3) == 0;
            let n = if single { 1 } else { *r.pick(&[2, 2, 2, 3, 3, 4]) };
            let same = r.below(5);
            let p_focus = *r.pick(&[50, 80, 100, 100]);
            for _ in 0..n {
                let k = r.range(1, if prop == "C01" { 4 } else { 6 });
                let steps = (0..k)
                    .map(|_| {
                        let s = if same == 0 { &c.focus[f][0] } else { pick_spec(c, f, p_focus, r) };
                        inst(s, next())
                    })
                    .collect();
                p.threads.push(Thread { wave: 0, steps });
            }
            p.policy = gen_policy(r);
            let ps = *r.pick(&[0, 200, 600]);
            share(&mut p, &ops, r, ps);
        }
        "C02" => {
            if c.focus.is_empty() {
                return None;
            }
            let f = (run as usize) % c.focus.len();
            let style = r.below(10);
            if style == 0 {
                // long: one cheap operation over and over
                let cheap: Vec<&Spec> = c.focus[f].iter().filter(|s| s.solo.stat.steps < if c.lasting { 30_000 } else { 4000 }).collect();
                if !cheap.is_empty() {
                    let k = r.range(1, 3.min(cheap.len() as u64));
                    let mut few: Vec<&Spec> = (0..k).map(|_| *r.pick(&cheap)).collect();
                    let refused: Vec<&Spec> = cheap.iter().filter(|s| s.solo.status == ST_PANIC).copied().collect();
                    if !refused.is_empty() && r.below(3) == 0 {
                        few.push(*r.pick(&refused));
                    }
                    let cost: u64 = few.iter().map(|s| s.solo.stat.steps + 1500).max().unwrap();
                    let n = if c.lasting { (if r.below(6) == 0 { 300_000_000 } else { 40_000_000 } / cost).min(*r.pick(&[1200, 6000, 20_000, 70_000])) } else { (6_000_000 / cost).min(*r.pick(&[300, 1200, 3000])) };
                    let steps = (0..n).map(|_| inst(*r.pick(&few), next())).collect();
                    p.threads.push(Thread { wave: 0, steps });
                }
            }
            if style == 1 && c.lasting {
                // a crowd of different arguments: whatever is remembered overflows
                let op = c.focus[f][0].op;
                let sig = ops[op].sig;
                let n = *r.pick(&[24, 24, 80, 80, 300]);
                let mut v: Vec<Spec> = vec![];
                let mut budget = 30_000_000u64;
                for _ in 0..2 * n {
                    let args = match r.below(3) {
                        0 => gen_args(sig, r),
                        1 => g.args(op, sig, r),
                        _ => near_args(sig, &r.pick(&c.focus[f]).args.clone(), r),
                    };
                    if let Some(s) = make_spec(refs, op, args).filter(|s| s.solo.stat.steps < 200_000) {
                        budget = budget.saturating_sub(s.solo.stat.steps * 2 + 1500);
                        v.push(s);
                    }
                    if v.len() == n || budget == 0 {
                        break;
                    }
                }
                let mut steps = vec![];
                for i in 0..v.len() {
                    steps.push(inst(&v[i], next()));
                    if r.below(3) == 0 {
                        let reach = *r.pick(&[3, 20, 400]);
                        let back = r.below(reach.min(i as u64 + 1)) as usize;
                        steps.push(inst(&v[i - back], next()));
                    }
                }
                for _ in 0..v.len() / 4 {
                    steps.push(inst(r.pick(&v), next()));
                }
                if !steps.is_empty() {
                    p.threads.push(Thread { wave: 0, steps });
                }
            }
            if p.threads.is_empty() {
                let waves = *r.pick(&[1, 1, 2, 3, 5]);
                let mut budget: i64 = 5_000_000;
                for w in 0..waves {
                    let n = *r.pick(&[2, 4, 8, 20, 60]) / waves + 1;
                    let p_focus = *r.pick(&[50, 80, 95]);
                    let mut steps = vec![];
                    for _ in 0..n {
                        let s = if r.below(6) == 0 { let g = r.below(c.focus.len() as u64) as usize; r.pick(&c.focus[g]) } else { pick_spec(c, f, p_focus, r) };
                        budget -= s.solo.stat.steps as i64;
                        if budget < 0 && !steps.is_empty() {
                            break;
                        }
                        let mut st = inst(s, next());
                        if s.solo.stat.allocs > 0 && r.below(25) == 0 {
                            st.fail_at = r.range(1, s.solo.stat.allocs);
                        }
                        steps.push(st);
                    }
                    p.threads.push(Thread { wave: w as u32, steps });
                }
            }
            share(&mut p, &ops, r, 150);
        }
        "C03" => {
            if c.focus.is_empty() {
                return None;
            }
            p.env = gen_env(r);
            let f = (run as usize) % c.focus.len();
            let n = *r.pick(&[1, 1, 1, 2]);
            let wave = r.below(2) as u32;
            for i in 0..n {
                let k = r.range(1, 5);
                let steps = (0..k).map(|_| inst(pick_spec(c, f, 75, r), next())).collect();
                p.threads.push(Thread { wave: i as u32 * wave, steps });
            }
            if n > 1 {
                p.policy = gen_policy(r);
            }
            share(&mut p, &ops, r, 100);
        }
        "C04" => {
            if c.focus.is_empty() {
                return None;
            }
            let f = (run as usize) % c.focus.len();
            let n = *r.pick(&[1, 2, 2, 3]);
            for t in 0..n {
                let k = r.range(1, 4);
                let mut steps: Vec<Step> = vec![];
                if t == 0 && r.below(if c.lasting { 5 } else { 15 }) == 0 {
                    // one failure after the other
                    let failing: Vec<&Spec> = c.focus[f].iter().filter(|s| s.solo.status == ST_PANIC || s.solo.stat.allocs > 0).collect();
                    if !failing.is_empty() {
                        let s = *r.pick(&failing);
                        let n = (15_000_000 / (s.solo.stat.steps + 1500)).clamp(1, *r.pick(&[5, 18, 70, 280]));
                        let at = if s.solo.stat.allocs > 0 { r.range(0, s.solo.stat.allocs) } else { 0 };
                        for _ in 0..n {
                            let mut st = inst(s, next());
                            if s.solo.stat.allocs > 0 && s.solo.status != ST_PANIC {
                                st.fail_at = if at == 0 { r.range(1, s.solo.stat.allocs) } else { at };
                            }
                            steps.push(st);
                        }
                    }
                    for _ in 0..3 {
                        steps.push(inst(pick_spec(c, f, 85, r), next()));
                    }
                } else if t == 0 && r.below(3) == 0 {
                    // walk the failing allocation through the call
                    let s = r.pick(&c.focus[f]).clone();
                    let m = s.solo.stat.allocs;
                    let (from, count) = if m <= 10 { (1, m) } else { (r.range(1, m - 9), 10) };
                    for i in 0..count {
                        let mut st = inst(&s, next());
                        st.fail_at = from + i;
                        st.persist = r.below(4) == 0;
                        steps.push(st);
                    }
                    steps.push(inst(&s, next()));
                } else {
                    for _ in 0..k {
                        let s = pick_spec(c, f, 75, r);
                        let mut st = inst(s, next());
                        if s.solo.stat.allocs > 0 && r.below(10) < if t == 0 { 6 } else { 2 } {
                            st.fail_at = r.range(1, s.solo.stat.allocs);
                            st.persist = r.below(4) == 0;
                        }
                        steps.push(st);
                    }
                }
                p.threads.push(Thread { wave: 0, steps });
            }
            // and afterwards, on a new thread and on nobody's behalf in particular
            let k = r.range(1, 4);
            let steps = (0..k).map(|_| inst(pick_spec(c, f, 80, r), next())).collect();
            p.threads.push(Thread { wave: 1, steps });
            p.policy = gen_policy(r);
            let ps = *r.pick(&[0, 200, 600]);
            share(&mut p, &ops, r, ps);
        }
        "C06" => {
            if c.focus.is_empty() {
                return None;
            }
            let f = (run as usize) % c.focus.len();
            let n = *r.pick(&[2, 2, 3, 4]);
            let stallers = if r.below(8) == 0 { 0 } else { r.range(1, (n as u64 - 1).min(2)) };
            for t in 0..n {
                let k = r.range(1, 3);
                let mut steps: Vec<Step> = (0..k).map(|_| inst(pick_spec(c, f, 85, r), next())).collect();
                if (t as u64) < stallers {
                    let s = r.pick(&c.focus[f]);
                    let mut st = inst(s, next());
                    if s.solo.stat.hots > 0 && r.below(4) > 0 {
                        st.stall_hot = r.range(1, s.solo.stat.hots);
                        st.stall_delta = *r.pick(&[0, 1, 2, 5, 20, 100]);
                    } else {
                        st.stall_at = r.range(1, s.solo.stat.steps.max(1));
                    }
                    st.cmp = false;
                    let i = r.below(steps.len() as u64 + 1) as usize;
                    steps.truncate(i);
                    steps.push(st);
                }
                p.threads.push(Thread { wave: 0, steps });
            }
            if r.below(3) == 0 {
                let steps = (0..2).map(|_| inst(pick_spec(c, f, 85, r), next())).collect();
                p.threads.push(Thread { wave: 1, steps });
            }
            r.shuffle(&mut p.threads);
            p.policy = gen_policy(r);
            share(&mut p, &ops, r, 200);
        }
        "C11" => {
            if c.focus.is_empty() {
                return None;
            }
            let f = (run as usize) % c.focus.len();
            if r.below(9) == 0 {
                // values with a past: storage that was grown, shrunk and swapped by earlier updates
                ledger_plan(&mut p, &ops, "C12", g, r);
                p.reps = 4;
                return Some(p);
            }
            if r.below(4) == 0 {
                // one operation, other arguments every time: nothing may pile up
                let mut v: Vec<&Spec> = c.focus[f].iter().collect();
                r.shuffle(&mut v);
                let mut seen = std::collections::HashSet::new();
                v.retain(|s| seen.insert(s.args.iter().map(|a| a.text()).collect::<Vec<_>>()));
                let each = if v.len() >= 12 { r.range(1, 2) as usize } else { 1 };
                for (w, few) in v.chunks(each).take(8).enumerate() {
                    let steps = few.iter().map(|s| inst(s, next())).collect();
                    p.threads.push(Thread { wave: w as u32, steps });
                }
                return Some(p);
            }
            let n = *r.pick(&[1, 1, 1, 2]);
            let faults = r.below(2) == 0;
            let mut cost = 0;
            for _ in 0..n {
                let k = r.range(1, 5);
                let mut steps = vec![];
                for _ in 0..k {
                    let s = pick_spec(c, f, 80, r);
                    cost += s.solo.stat.steps + 1500;
                    let mut st = inst(s, next());
                    if faults && s.solo.stat.allocs > 0 && r.below(2) == 0 {
                        st.fail_at = r.range(1, s.solo.stat.allocs);
                    }
                    steps.push(st);
                }
                p.threads.push(Thread { wave: 0, steps });
            }
            p.reps = if r.below(6) == 0 && cost < 60_000 { 40 } else { 4 };
            if n > 1 {
                p.policy = gen_policy(r);
            }
        }
        "C07" => {
            let n = *r.pick(&[1, 1, 2, 3]);
            p.env = gen_env(r);
            p.env.rng_mode = *r.pick(&[0, 1, 1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8]);
            p.env.rng_arg = match p.env.rng_mode {
                1 => *r.pick(&[0, u64::MAX, 1, 1 << 32, 1 << 63, 0xFFFF_FFFF, 0xFFFF_FFFF_0000_0000, 0x8000_0000, 0x5555_5555_5555_5555]),
                2 => *r.pick(&[10, 50, 90, 99]),
                5 => r.below(20),
                _ => r.below(1000),
            };
            let el = eligible("C07", &ops);
            for _ in 0..n {
                let k = r.range(1, 8);
                let steps = (0..k)
                    .map(|_| {
                        let op = *r.pick(&el);
                        let args = gen_args(ops[op].sig, r).into_iter().map(A::Inline).collect();
                        step(next(), op, args, 4_000_000)
                    })
                    .collect();
                p.threads.push(Thread { wave: 0, steps });
            }
            if n > 1 {
                p.policy = gen_policy(r);
            }
            p.full = true;
        }
        "C08" => {
            let n = *r.pick(&[1, 2, 3, 4]);
            p.env = gen_env(r);
            let el = eligible("C08", &ops);
            let op = el[(run as usize) % el.len()];
            let scale = match r.below(8) {
                0 => r.range(5, 12),
                1 => r.range(13, 70),
                _ => r.range(1, 4),
            } as i128;
            let dims = match r.below(6) {
                0 => (r.range(4, 7) as i128, r.range(1, 7) as i128),
                _ => (r.range(1, 3) as i128, r.range(1, 3) as i128),
            };
            let cells = if ops[op].sig.len() == 2 { dims.0 * dims.1 } else { 1 };
            let mut all = if scale > 4 { 320 } else if cells > 9 { 90 } else { 640 };
            if ops[op].sig.len() == 1 && scale <= 4 && r.below(8) == 0 {
                all = 4000;
            }
            let total = all / n;
            let waves = r.below(2) as u32;
            for t in 0..n {
                let steps = (0..total)
                    .map(|_| {
                        let args = match ops[op].sig.len() {
                            0 => vec![],
                            1 => vec![A::Inline(Arg::N(scale))],
                            _ => vec![A::Inline(Arg::N(dims.0)), A::Inline(Arg::N(dims.1))],
                        };
                        step(next(), op, args, 8_000_000)
                    })
                    .collect();
                p.threads.push(Thread { wave: t as u32 * waves, steps });
            }
            p.policy = gen_policy(r);
            p.full = true;
        }
        "C05" | "C12" => ledger_plan(&mut p, &ops, prop, g, r),
        _ => return None,
    }
    Some(p)
}

// ---------------------------------------------------------------- histories over registers
fn kind_of(name: &str) -> usize {
    match name.split("::").next().unwrap_or("") {
        "UBigInt" => 0,
        "BigInt" => 1,
        "Ratio" => 2,
        "Matrix" => 3,
        "Complex" => 5,
        _ => 4,
    }
}

fn reg_value(kind: usize, r: &mut Rng, big: bool) -> Arg {
    let len = |r: &mut Rng| if big && r.below(4) > 0 { r.range(40, 140) as usize } else { *r.pick(&[1usize, 1, 2, 2, 3, 4, 5, 8, 16, 30]) };
    match kind {
        0 => {
            let n = len(r);
            Arg::U(if r.below(10) == 0 { vec![0] } else { gen_limbs(r, n) })
        }
        1 => {
            let n = len(r);
            let v = if r.below(10) == 0 { vec![0] } else { gen_limbs(r, n) };
            Arg::I(v != [0] && r.below(2) == 0, v)
        }
        2 => {
            let z = r.below(3) as u8;
            Arg::R(gen_rd(r, z))
        }
        3 => gen(K::M, r),
        4 => {
            let n = *r.pick(&[1usize, 2, 3, 4, 6, 8, 12]);
            let z = r.below(2) as u8;
            let mut v: Vec<RD> = (0..n).map(|_| if r.below(4) == 0 { RD::int(r.below(3) as i64 - 1) } else { gen_rd(r, z) }).collect();
            if r.below(3) > 0 && v[0].n == [0] {
                v[0] = RD::int(1 + r.below(5) as i64);
            }
            Arg::P(v)
        }
        _ => gen(K::C, r),
    }
}

fn int_arg(k: K, r: &mut Rng) -> Arg {
    if let K::Int(lo, hi) = k {
        let pick = match r.below(8) {
            0 => 0,
            1 => 1,
            2 => -1,
            3 => hi,
            4 => lo,
            5 => 1i128 << r.below(32),
            _ => return gen(k, r),
        };
        Arg::N(pick.clamp(lo, hi))
    } else {
        gen(k, r)
    }
}

fn ledger_plan(p: &mut Plan, ops: &[Op], prop: &str, g: &Guide, r: &mut Rng) {
    let el = eligible(prop, ops);
    // swarm: a few register kinds, a few operations per run
    let big = r.below(10) == 0;
    let kinds: Vec<usize> = match r.below(10) {
        0 => vec![0, 0, 0],
        1 => vec![1, 1, 1],
        n if big => if n % 2 == 0 { vec![0, 0] } else { vec![0, 1, 1] },
        2 => vec![2, 2],
        3 => vec![0, 1, 2],
        4 => vec![3, 3, 3],
        5 => vec![4, 4, 2],
        6 => vec![0, 0, 1, 1],
        7 => vec![2, 5, 5],
        8 => vec![2, 2, 1],
        _ => vec![0, 0, 1, 1, 2, 2, 3, 4],
    };
    if big {
        p.cap = 330;
    }
    for k in &kinds {
        let v = reg_value(*k, r, big);
        p.regs.push(v);
    }
    let by_kind: Vec<Vec<usize>> = (0..6)
        .map(|k| {
            let all: Vec<usize> = el.iter().copied().filter(|&o| kind_of(ops[o].name) == k && (prop == "C05" || !ops[o].name.ends_with("supplied"))).collect();
            if r.below(3) == 0 || all.is_empty() {
                all
            } else {
                let n = r.range(3, 9) as usize;
                (0..n).map(|_| *r.pick(&all)).collect()
            }
        })
        .collect();
    let find = |name: &str| ops.iter().position(|o| o.name == name).unwrap();
    // some accounts start where the scan saw an operation do something unusual
    let from_scan = |op: usize, r: &mut Rng| -> Option<Vec<Arg>> {
        let c = g.corpus.get(op).filter(|c| !c.is_empty())?;
        let mut a = r.pick(c).clone();
        let d = &g.dict[op];
        if r.below(3) == 0 && !d.is_empty() {
            a = hm_spec::tweak(&a, ops[op].sig, d, r);
        } else if r.below(3) == 0 {
            a = near_args(ops[op].sig, &a, r);
        }
        a.iter().all(|x| crate::ledger::Val::of(x).is_some()).then_some(a)
    };
    let mut first: Vec<(usize, usize, Vec<Arg>)> = vec![];
    if r.below(2) == 0 {
        for (t, &k) in kinds.iter().enumerate() {
            if by_kind[k].is_empty() || r.below(3) == 0 {
                continue;
            }
            let op = *r.pick(&by_kind[k]);
            if let Some(a) = from_scan(op, r) {
                p.regs[t] = a[0].clone();
                first.push((op, t, a[1..].to_vec()));
            }
        }
    }
    let n = *r.pick(&[1, 1, 2, 3, 4]);
    let total = if big { *r.pick(&[6u64, 12, 20]) } else { *r.pick(&[12u64, 30, 60, 120]) };
    let mut id = 0;
    for _ in 0..n {
        let mut steps: Vec<Step> = vec![];
        let mut add = |steps: &mut Vec<Step>, op: usize, reg: usize, args: Vec<A>| {
            id += 1;
            let mut s = step(id, op, args, 60_000_000);
            s.reg = Some(reg);
            steps.push(s);
        };
        for (op, t, a) in std::mem::take(&mut first) {
            add(&mut steps, op, t, a.into_iter().map(A::Inline).collect());
        }
        while (steps.len() as u64) < total / n as u64 + 1 {
            let t = r.below(kinds.len() as u64) as usize;
            let k = kinds[t];
            let other = r.below(kinds.len() as u64) as usize;
            match r.below(10) {
                0 | 1 if k < 2 => {
                    // transfer between accounts
                    let x = A::Inline(reg_value(k, r, big));
                    let (s, a) = if k == 0 { ("UBigInt::sub_mut", "UBigInt::add_mut") } else { ("BigInt::sub_mut", "BigInt::add_mut") };
                    let to = if kinds[other] == k { other } else { t };
                    add(&mut steps, find(s), t, vec![x.clone()]);
                    add(&mut steps, find(a), to, vec![x]);
                }
                4 if k < 3 && !by_kind[k].is_empty() => {
                    // emptied and filled again with something the scan found interesting
                    let ty = ["UBigInt", "BigInt", "Ratio"][k];
                    let op = *r.pick(&by_kind[k]);
                    if let Some(a) = from_scan(op, r) {
                        add(&mut steps, find(&format!("{ty}::sub_mut")), t, vec![A::Reg(t, 0)]);
                        add(&mut steps, find(&format!("{ty}::add_mut")), t, vec![A::Inline(a[0].clone())]);
                        add(&mut steps, op, t, a[1..].iter().cloned().map(A::Inline).collect());
                    }
                }
                2 if k < 3 => {
                    // do and undo
                    let ty = ["UBigInt", "BigInt", "Ratio"][k];
                    let x = A::Inline(reg_value(k, r, big));
                    let (f, g) = *r.pick(&[("add_mut", "sub_mut"), ("mul_mut", "div_mut"), ("sub_mut", "add_mut")]);
                    add(&mut steps, find(&format!("{ty}::{f}")), t, vec![x.clone()]);
                    add(&mut steps, find(&format!("{ty}::{g}")), t, vec![x]);
                }
                3 if k < 2 => {
                    // q * d + (d - 1), then divided by d again
                    let ty = ["UBigInt", "BigInt"][k];
                    let v = reg_value(0, r, big);
                    if let Arg::U(d) = v {
                        let dm = hm_model::trim(d.clone());
                        let wrap = |m: hm_model::Mag| A::Inline(if k == 0 { Arg::U(hm_spec::canon(m)) } else { Arg::I(false, hm_spec::canon(m)) });
                        add(&mut steps, find(&format!("{ty}::mul_mut")), t, vec![wrap(dm.clone())]);
                        if !dm.is_empty() {
                            add(&mut steps, find(&format!("{ty}::add_mut")), t, vec![wrap(hm_model::sub(&dm, &vec![1]))]);
                        }
                        let f = *r.pick(&["div_mut", "rem_mut"]);
                        add(&mut steps, find(&format!("{ty}::{f}")), t, vec![wrap(dm)]);
                    }
                }
                _ => {
                    if by_kind[k].is_empty() {
                        continue;
                    }
                    let op = *r.pick(&by_kind[k]);
                    let sig = &ops[op].sig[1..];
                    let mut args: Vec<A> = vec![];
                    for &s in sig {
                        let same = match s {
                            K::U | K::Us | K::Ub => Some(0),
                            K::I | K::Is | K::Ib => Some(1),
                            K::R | K::Rs | K::Rm => Some(2),
                            K::M | K::Mq | K::Mq5 => Some(3),
                            K::C => Some(5),
                            _ => None,
                        };
                        let a = match same {
                            Some(q) => {
                                let cands: Vec<usize> = (0..kinds.len()).filter(|&i| kinds[i] == q).collect();
                                // a matrix of another shape is refused; that need not be the rule
                                let related = if q == 3 { r.below(4) > 0 } else { r.below(3) == 0 };
                                if related && k == q && r.below(3) > 0 {
                                    let from = if r.below(3) > 0 { t } else { *r.pick(&cands) };
                                    A::Mix(from, r.below(17) as u8, r.below(1024) as u32)
                                } else if q == 1 && k > 1 && r.below(3) == 0 {
                                    A::Mix(t, 30 + r.below(10) as u8, r.below(1024) as u32)
                                } else if !cands.is_empty() && r.below(3) == 0 {
                                    A::Reg(*r.pick(&cands), *r.pick(&[0, 0, 1, -1, 2, -7]))
                                } else if r.below(8) == 0 {
                                    A::Inline(zero(q))
                                } else {
                                    A::Inline(reg_value(q, r, big))
                                }
                            }
                            None => {
                                let name = ops[op].name;
                                let s = if name.contains("pow_") { K::Int(if name.contains("i32") { -5 } else { 0 }, 6) } else if name.contains("shift_") || name.contains("slice_") { K::Int(0, if big { 90 } else { 12 }) } else { s };
                                let wide = matches!(s, K::Int(lo, hi) if hi - lo > 1 << 20);
                                if wide && r.below(3) == 0 {
                                    A::Mix(t, 40 + r.below(9) as u8, r.below(1024) as u32)
                                } else {
                                    A::Inline(int_arg(s, r))
                                }
                            }
                        };
                        args.push(a);
                    }
                    add(&mut steps, op, t, args);
                }
            }
        }
        p.threads.push(Thread { wave: 0, steps });
    }
    if n > 1 {
        p.policy = gen_policy(r);
    }
}

fn zero(kind: usize) -> Arg {
    match kind {
        0 => Arg::U(vec![0]),
        1 => Arg::I(false, vec![0]),
        2 => Arg::R(RD::int(0)),
        5 => Arg::C(RD::int(0), RD::int(0)),
        _ => Arg::M(1, 1, vec![RD::int(0)]),
    }
}

pub fn same_outcome(a: &Rec, solo: &Rec) -> bool {
    if a.status != solo.status {
        return false;
    }
    match a.status {
        ST_PANIC => true,
        ST_DONE => a.hash == solo.hash && a.len == solo.len,
        _ => true,
    }
}
