//! Runs one plan in a child process of its own under the simulator and brings back what happened.
use crate::ledger::{self, Effect, Val};
use crate::plan::{Plan, Step, A};
use hm_ops::{build, call, Canon, Fun, Op, Out, V};
use hm_spec::Arg;
use simrt::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

pub const ST_DONE: u8 = 0;
pub const ST_PANIC: u8 = 1;
pub const ST_SKIP: u8 = 2;

#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub id: u32,
    pub rep: u32,
    pub status: u8,
    pub args_changed: bool,
    pub stat: OpStat,
    pub hash: u128,
    pub len: u64,
    pub head: Vec<u8>,
    pub bad: Vec<String>,
}

#[derive(Debug, Default)]
pub struct RunOut {
    pub verdict: u32,
    pub v_task: u32,
    pub v_op: u32,
    pub v_aux: u32,
    pub v_step: u64,
    pub note: String,
    pub signal: i32,
    pub exit: i32,
    pub recs: Vec<Rec>,
    pub shared_changed: Vec<usize>,
    pub ledgers: Vec<(i64, i64)>,
    pub stalled: u32,
    pub trace: Vec<TraceEnt>,
    pub trace_hash: u64,
    pub sim_ns: u64,
    pub stats: Vec<u64>,
    pub hot: Vec<u64>,
}

pub fn hash_bytes(b: &[u8]) -> u128 {
    let mut a: u64 = 0x243F6A8885A308D3 ^ b.len() as u64;
    let mut c: u64 = 0x13198A2E03707344;
    for ch in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..ch.len()].copy_from_slice(ch);
        let x = u64::from_le_bytes(w);
        a = (a ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        a ^= a >> 32;
        c = (c.rotate_left(23) ^ x.wrapping_mul(0xD6E8FEB86659FD93)).wrapping_mul(0xA0761D6478BD642F);
        c ^= c >> 29;
    }
    (a as u128) << 64 | c as u128
}

// ---------------------------------------------------------------- records
fn put_rec(r: &Rec) {
    let mut b: Vec<u8> = Vec::with_capacity(160 + r.head.len());
    b.push(b'R');
    b.extend(r.id.to_le_bytes());
    b.extend(r.rep.to_le_bytes());
    b.push(r.status);
    b.push(r.args_changed as u8);
    b.extend(r.stat.steps.to_le_bytes());
    b.extend(r.stat.allocs.to_le_bytes());
    b.extend(r.stat.failed.to_le_bytes());
    b.extend(r.stat.hots.to_le_bytes());
    b.extend(r.stat.odd.to_le_bytes());
    b.extend(r.hash.to_le_bytes());
    b.extend(r.len.to_le_bytes());
    b.extend((r.head.len() as u32).to_le_bytes());
    b.extend(&r.head);
    b.extend(r.bad.join("\n").as_bytes());
    emit(&b);
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
}

fn get_rec(b: &[u8]) -> Rec {
    let mut r = Rd(b);
    let id = r.u32();
    let rep = r.u32();
    let status = r.u8();
    let args_changed = r.u8() == 1;
    let stat = OpStat { steps: r.u64(), allocs: r.u64(), failed: r.u32(), hots: r.u64(), odd: r.u64() };
    let hash = u128::from_le_bytes(r.take(16).try_into().unwrap());
    let len = r.u64();
    let n = r.u32() as usize;
    let head = r.take(n).to_vec();
    let bad = String::from_utf8_lossy(r.0).to_string();
    let bad = if bad.is_empty() { vec![] } else { bad.split('\n').map(|s| s.to_string()).collect() };
    Rec { id, rep, status, args_changed, stat, hash, len, head, bad }
}

// ---------------------------------------------------------------- inside the child
struct Reg {
    v: V,
    m: Val,
}

struct Ctx {
    ops: Arc<Vec<Op>>,
    shared: Vec<V>,
    shared_canon: Vec<Vec<u8>>,
    regs: Vec<Mutex<Reg>>,
    full: bool,
    cap: usize,
    audits: bool,
}

fn canon_of(v: &V) -> Vec<u8> {
    match catch_unwind(AssertUnwindSafe(|| {
        let mut o = Out::default();
        v.put(&mut o);
        o.0
    })) {
        Ok(b) => b,
        Err(_) => b"unreadable".to_vec(),
    }
}

fn cfg_of(s: &Step, rep: u32) -> OpCfg {
    OpCfg { id: s.id + (rep << 20), step_limit: s.limit, fail_at: s.fail_at, fail_persist: s.persist, stall_at: s.stall_at, stall_hot: s.stall_hot, stall_delta: s.stall_delta }
}

fn finish_rec(rec: &mut Rec, out: &Out, full: bool) {
    rec.hash = hash_bytes(&out.0);
    rec.len = out.0.len() as u64;
    let n = if full { out.0.len() } else { out.0.len().min(40) };
    rec.head = out.0[..n].to_vec();
    rec.bad.extend(out.1.iter().cloned());
}

fn plain_step(s: &Step, c: &Ctx, rep: u32) -> Rec {
    let op = &c.ops[s.op];
    let is_mut = matches!(op.fun, Fun::Mut(_));
    let mut owned: Vec<Option<V>> = in_heap(|| {
        s.args
            .iter()
            .enumerate()
            .map(|(i, a)| match a {
                A::Inline(x) => Some(build(x)),
                A::Shared(j) if is_mut && i == 0 => Some(c.shared[*j].dup()),
                _ => None,
            })
            .collect()
    });
    let mut target = if is_mut { owned[0].take() } else { None };
    let skip = is_mut as usize;
    let mut before: Vec<Vec<u8>> = vec![];
    let mut changed = false;
    let mut out = Out::default();
    let (r, stat);
    {
        let refs: Vec<&V> = s.args[skip..]
            .iter()
            .enumerate()
            .map(|(i, a)| match a {
                A::Shared(j) => &c.shared[*j],
                _ => owned[i + skip].as_ref().unwrap(),
            })
            .collect();
        for v in &refs {
            before.push(canon_of(v));
        }
        op_begin(cfg_of(s, rep));
        r = catch_unwind(AssertUnwindSafe(|| call(op, target.as_mut(), &refs, &mut out)));
        stat = op_end();
        for (v, b) in refs.iter().zip(&before) {
            changed |= &canon_of(v) != b;
        }
        for (i, a) in s.args.iter().enumerate() {
            if let A::Shared(j) = a {
                changed |= i >= skip && before[i - skip] != c.shared_canon[*j];
            }
        }
    }
    let mut rec = Rec { id: s.id, rep, status: if r.is_ok() { ST_DONE } else { ST_PANIC }, args_changed: changed, stat, ..Rec::default() };
    finish_rec(&mut rec, &out, c.full);
    if r.is_err() {
        stat_failed();
    }
    drop(r);
    drop(out);
    drop(target);
    drop(owned);
    rec
}

fn stat_failed() {
    simrt::stat(ST_OPS_FAILED, 1);
}

fn show(a: &Arg) -> String {
    let t = a.text();
    if t.len() > 160 { format!("{}...({} chars)", &t[..160], t.len()) } else { t }
}

fn reg_step(s: &Step, c: &Ctx, rep: u32, t: usize) {
    let op = &c.ops[s.op];
    // all registers involved, locked in one order
    let mut need: Vec<usize> = s.args.iter().filter_map(|a| if let A::Reg(j, _) | A::Mix(j, _, _) = a { Some(*j) } else { None }).collect();
    need.push(t);
    need.sort();
    need.dedup();
    let mut held: Vec<_> = need.iter().map(|&i| c.regs[i].lock().unwrap_or_else(|e| e.into_inner())).collect();
    let mut rec = Rec { id: s.id, rep, ..Rec::default() };
    let mut vals: Vec<Val> = vec![];
    let mut known = true;
    for (i, a) in s.args.iter().enumerate() {
        match a {
            A::Mix(j, k, d) => {
                let mut v = held[need.iter().position(|k| k == j).unwrap()].m.mix(*k, *d);
                if let (Val::N(n), hm_spec::K::Int(lo, hi)) = (&mut v, op.sig[i + 1]) {
                    *n = (*n).clamp(lo, hi);
                }
                vals.push(v);
            }
            A::Inline(x) => match Val::of(x) {
                Some(v) => vals.push(v),
                None => known = false,
            },
            A::Reg(j, d) => vals.push(held[need.iter().position(|k| k == j).unwrap()].m.plus(*d)),
            A::Shared(_) => known = false,
        }
    }
    let cell = &mut held[need.iter().position(|k| *k == t).unwrap()];
    if !known || ledger::grows_to(op.name, &cell.m, &vals) > c.cap {
        rec.status = ST_SKIP;
        put_rec(&rec);
        return;
    }
    let args: Vec<V> = in_heap(|| vals.iter().map(|v| build(&v.arg())).collect());
    let refs: Vec<&V> = args.iter().collect();
    let was = canon_of(&cell.v);
    let mut next = cell.m.clone();
    let effect = ledger::apply(op.name, &mut next, &vals);
    let mut out = Out::default();
    op_begin(cfg_of(s, rep));
    let cell_v = &mut cell.v;
    let r = catch_unwind(AssertUnwindSafe(|| call(op, Some(cell_v), &refs, &mut out)));
    rec.stat = op_end();
    rec.status = if r.is_ok() { ST_DONE } else { ST_PANIC };
    let refused = r.is_err() || (out.0.first() == Some(&b'E') && !op.name.ends_with("shrink"));
    if r.is_err() {
        stat_failed();
    }
    drop(r);
    let now = canon_of(&cell.v);
    let what = |cell: &Reg| format!("{} on {} with [{}]", op.name, show(&cell.m.arg()), vals.iter().map(|v| show(&v.arg())).collect::<Vec<_>>().join(" "));
    if refused && now != was {
        rec.bad.push(format!("C05 {} was refused but changed its target", what(cell)));
    }
    match effect {
        Effect::Done => {
            if refused {
                rec.bad.push(format!("C12 {} was refused without reason", what(cell)));
            } else {
                let want = canon_of(&build(&next.arg()));
                if now != want {
                    rec.bad.push(format!("C12 {} did not give the exact value {}", what(cell), show(&next.arg())));
                }
            }
            let desc = what(cell);
            cell.m = next;
            if !refused && rec.bad.is_empty() && c.audits && s.id % if cell.m.size() <= 6 { 4 } else { 20 } == 0 {
                audit(&cell.v, &cell.m, &desc, s.id / 4, &mut rec.bad);
            }
        }
        Effect::Refuse => {
            if !refused {
                rec.bad.push(format!("C05 {} had to be refused but was not", what(cell)));
                rec.bad.push(format!("C12 {} had to be refused but was not", what(cell)));
            }
        }
        Effect::Unknown => {
            // lossy, but still in lowest terms
            let m = hm_ops::unbuild(&cell.v).as_ref().and_then(Val::of);
            let fine = matches!((&m, &cell.m), (Some(Val::R(x)), Val::R(y)) if canon_of(&build(&Val::R(hm_model::Rat::new(x.n.clone(), x.den())).arg())) == now && x.n.neg == y.n.neg);
            if op.name.ends_with("shrink") && !fine {
                rec.bad.push(format!("C12 {} left a value that is not in lowest terms or has the wrong sign", what(cell)));
            }
        }
    }
    for (v, a) in args.iter().zip(&vals) {
        if canon_of(v) != canon_of(&build(&a.arg())) {
            rec.args_changed = true;
        }
    }
    if now != was && !rec.bad.is_empty() || matches!(effect, Effect::Unknown) {
        // carry on from the exact value so that one defect is reported once
        match (&effect, hm_ops::unbuild(&cell.v)) {
            (Effect::Unknown, Some(a)) => match Val::of(&a) {
                Some(m) => cell.m = m,
                None => cell.v = build(&cell.m.arg()),
            },
            _ => cell.v = build(&cell.m.arg()),
        }
    }
    finish_rec(&mut rec, &out, c.full);
    put_rec(&rec);
}

fn v_len(m: &Val) -> u32 {
    m.size() as u32 / 2 | 0x200
}

/// Equal values look alike, whatever produced them.
fn audit(v: &V, m: &Val, what: &str, turn: u32, bad: &mut Vec<String>) {
    let fresh = build(&m.arg());
    let r = catch_unwind(AssertUnwindSafe(|| hm_ops::looks(v) == hm_ops::looks(&fresh) && hm_ops::alike(v, &fresh) && hm_ops::alike(&fresh, v)));
    if !matches!(r, Ok(true)) {
        bad.push(format!("C12 after {what} the value does not print, compare or convert like an equal one"));
    }
    // and the order says so, too, against the values next to it
    let near = match turn % 4 {
        0 => m.plus(1),
        1 => m.plus(-1),
        2 => m.mix(7, v_len(m)),
        _ => m.mix(8, 0),
    };
    for near in [near] {
        let want = match (m, &near) {
            (Val::U(x), Val::U(y)) => hm_model::cmp(x, y),
            (Val::I(x), Val::I(y)) => x.cmp(y),
            (Val::R(x), Val::R(y)) => x.cmp(y),
            _ => break,
        };
        let other = build(&near.arg());
        let r = catch_unwind(AssertUnwindSafe(|| (hm_ops::order(v, &other), hm_ops::order(&other, v))));
        if !matches!(r, Ok((Some(a), Some(b))) if a == want && b == want.reverse()) {
            bad.push(format!("C12 after {what} the value is not ordered as it should be against {}", show(&near.arg())));
        }
    }
    let text = match m {
        Val::U(x) => vec![hm_model::dec(x)],
        Val::I(x) => vec![x.dec()],
        Val::R(x) => {
            let n = x.n.dec();
            let mut t = vec![format!("{n}/{}", hm_model::dec(&x.d))];
            if x.d == [1] {
                t.push(n);
            }
            t
        }
        _ => return,
    };
    match catch_unwind(AssertUnwindSafe(|| hm_ops::exact_text(v))) {
        Ok(Some(t)) if text.contains(&t) => {}
        _ => bad.push(format!("C12 after {what} the value does not print as {}", text[0])),
    }
}

fn child(p: &Plan, ops: &Arc<Vec<Op>>) -> ! {
    unsafe {
        watchdog();
    }
    install(RunCfg { seed: p.seed, policy: p.policy, env: p.env, replay: p.trace.clone() });
    let shared: Vec<V> = build_shared(|| p.shared.iter().map(build).collect());
    let shared_canon: Vec<Vec<u8>> = shared.iter().map(canon_of).collect();
    let regs = p
        .regs
        .iter()
        .map(|a| Mutex::new(Reg { v: in_heap(|| build(a)), m: Val::of(a).expect("register kind") }))
        .collect();
    let c = Arc::new(Ctx { ops: ops.clone(), shared, shared_canon, regs, full: p.full, cap: p.cap as usize, audits: p.prop == "C12" });
    for (i, (cell, a)) in c.regs.iter().zip(&p.regs).enumerate() {
        let cell: &Reg = &cell.lock().unwrap_or_else(|e| e.into_inner());
        if canon_of(&cell.v) != canon_of(&build(&cell.m.arg())) {
            put_rec(&Rec { status: ST_SKIP, bad: vec![format!("C12 account {i}, opened with {}, differs from an equal value", show(a))], ..Rec::default() });
        }
    }
    // thread numbers move with the surroundings, too
    if p.env.skew % 4 > 0 {
        run_threads((0..[0, 1, 2, 11][p.env.skew as usize % 4]).map(|_| Box::new(|| ()) as Box<dyn FnOnce() + Send>).collect());
    }
    let mut stalled_total = 0;
    for rep in 0..p.reps {
        for w in 0..p.waves() {
            let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
            for t in p.threads.iter().filter(|t| t.wave == w) {
                let steps = t.steps.clone();
                let c = c.clone();
                bodies.push(Box::new(move || {
                    for s in &steps {
                        match s.reg {
                            Some(r) => reg_step(s, &c, rep, r),
                            None => put_rec(&plain_step(s, &c, rep)),
                        }
                    }
                }));
            }
            run_threads(bodies);
            stalled_total = stalled();
            if p.reps == 1 {
                let (a, b) = ledger();
                let mut e = vec![b'L'];
                e.extend(a.to_le_bytes());
                e.extend(b.to_le_bytes());
                emit(&e);
            }
        }
        if p.reps == 1 {
            break;
        }
        // the accounts start again from where they were opened
        for (cell, a) in c.regs.iter().zip(&p.regs) {
            let mut cell = cell.lock().unwrap_or_else(|e| e.into_inner());
            *cell = Reg { v: in_heap(|| build(a)), m: Val::of(a).expect("register kind") };
        }
        let (a, b) = ledger();
        let mut e = vec![b'L'];
        e.extend(a.to_le_bytes());
        e.extend(b.to_le_bytes());
        emit(&e);
    }
    for (i, v) in c.shared.iter().enumerate() {
        if canon_of(v) != c.shared_canon[i] {
            let mut e = vec![b'S'];
            e.extend((i as u32).to_le_bytes());
            emit(&e);
        }
    }
    let mut e = vec![b'T'];
    e.extend((stalled_total as u32).to_le_bytes());
    emit(&e);
    finish(V_DONE, 0)
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

unsafe fn watchdog() {
    alarm(120);
    setrlimit(0, &[50, 51]); // processor seconds
    setrlimit(4, &[0, 0]); // no core files
}

pub fn fork_process() -> i32 {
    unsafe { fork() }
}

pub fn wait_for(pid: i32) -> i32 {
    let mut st = 0;
    unsafe {
        while waitpid(pid, &mut st, 0) < 0 {}
    }
    st
}

/// An argument list worth coming back to: it went where few went before, or touched something lasting.
pub struct Kept {
    pub args: Vec<Arg>,
    /// 0: nothing lasting, 1: looked at something lasting, 2: changed it or asked the surroundings
    pub lasting: u8,
}

fn scan_child(op: usize, seed: u64, calls: u64, budget: u64, known: Vec<Vec<Arg>>, dict0: Vec<u64>, ops: &Arc<Vec<Op>>) -> ! {
    unsafe {
        watchdog();
    }
    let policy = Policy { kind: 0, mean: 1, p_hot: 0, p_begin: 0, p_alloc: 0, max_switches: 0 };
    install(RunCfg { seed, policy, env: EnvCfg::plain(), replay: None });
    let mut c = Ctx { ops: ops.clone(), shared: vec![], shared_canon: vec![], regs: vec![], full: false, cap: 0, audits: false };
    let sig = ops[op].sig;
    run_threads(vec![Box::new(move || {
        let mut r = Rng::new(seed);
        let mut kept: Vec<Vec<Arg>> = known;
        let mut seen: std::collections::HashMap<u32, u32> = Default::default();
        let mut spent = 0;
        let mut consts = dict0;
        listen(true);
        take_edges();
        for i in 0..calls {
            if i % 16 == 15 {
                consts = dict();
            }
            let mut args = match r.below(10) {
                0..=3 => crate::gen::gen_args(sig, &mut r),
                4..=6 if !consts.is_empty() => {
                    let a = if kept.is_empty() || r.below(3) == 0 { crate::gen::gen_args(sig, &mut r) } else { r.pick(&kept).clone() };
                    hm_spec::tweak(&a, sig, &consts, &mut r)
                }
                _ if !kept.is_empty() => crate::gen::near_args(sig, &r.pick(&kept).clone(), &mut r),
                _ => crate::gen::gen_args(sig, &mut r),
            };
            if i < kept.len() as u64 && i < 6 {
                args = kept[i as usize].clone();
            }
            // operands in watched memory: a store to one of them is worth a closer look
            c.shared = build_shared(|| args.iter().map(build).collect());
            c.shared_canon = c.shared.iter().map(canon_of).collect();
            let st = crate::gen::step(1 + i as u32, op, (0..args.len()).map(A::Shared).collect(), crate::gen::SOLO_LIMIT);
            let (before, statics) = (marks(), crate::statics::snapshot());
            let rec = plain_step(&st, &c, 0);
            let stored = marks() != before || crate::statics::snapshot() != statics;
            spent += rec.stat.steps;
            let mut new = false;
            for e in take_edges() {
                let n = seen.entry(e).or_insert(0);
                *n += 1;
                new |= *n <= 2;
            }
            let lasting = if stored { 2 } else { (rec.stat.hots + rec.stat.odd > 0) as u8 };
            if new || lasting > 0 {
                let mut b = vec![b'K', lasting];
                b.extend(args.iter().map(|x| x.text()).collect::<Vec<_>>().join(" ").as_bytes());
                emit(&b);
                if kept.len() < 60 {
                    kept.push(args);
                } else {
                    let j = r.below(60) as usize;
                    kept[j] = args;
                }
            }
            if spent > budget {
                break;
            }
        }
    })]);
    finish(V_DONE, 0)
}

/// Calls one operation many times in one simulated process; what the process managed to say before
/// it ended counts, however it ended.
pub fn scan_run(op: usize, seed: u64, calls: u64, budget: u64, known: &[Vec<Arg>], dict0: &[u64], ops: &Arc<Vec<Op>>) -> (Vec<Kept>, Vec<u64>) {
    reset_shm();
    if dict0.is_empty() {
        clear_dict();
    }
    let pid = fork_process();
    if pid == 0 {
        scan_child(op, seed, calls, budget, known.to_vec(), dict0.to_vec(), ops);
    }
    wait_for(pid);
    let mut v = vec![];
    for b in take_out() {
        if b[0] == b'K' {
            let t = String::from_utf8_lossy(&b[2..]).to_string();
            if let Some(args) = t.split(' ').filter(|x| !x.is_empty()).map(Arg::parse).collect::<Option<Vec<_>>>() {
                v.push(Kept { args, lasting: b[1] });
            }
        }
    }
    (v, dict())
}

pub fn run(p: &Plan, ops: &Arc<Vec<Op>>) -> RunOut {
    reset_shm();
    let pid = fork_process();
    if pid == 0 {
        child(p, ops);
    }
    let st = wait_for(pid);
    let h = header();
    let mut o = RunOut {
        verdict: h.verdict,
        v_task: h.v_task,
        v_op: h.v_op,
        v_aux: h.v_aux,
        v_step: h.v_step,
        note: String::from_utf8_lossy(&h.note[..h.note_len as usize]).to_string(),
        signal: st & 127,
        exit: (st >> 8) & 255,
        trace: take_trace(),
        trace_hash: h.trace_hash,
        sim_ns: h.sim_ns,
        stats: h.stats.to_vec(),
        hot: h.hot[..h.n_hot as usize].to_vec(),
        ..RunOut::default()
    };
    for b in take_out() {
        match b[0] {
            b'R' => o.recs.push(get_rec(&b[1..])),
            b'L' => {
                let mut r = Rd(&b[1..]);
                o.ledgers.push((r.u64() as i64, r.u64() as i64));
            }
            b'S' => o.shared_changed.push(Rd(&b[1..]).u32() as usize),
            b'T' => o.stalled = Rd(&b[1..]).u32(),
            _ => {}
        }
    }
    o
}
