//! Shards the seeds over worker processes, collects what they found.
use crate::check::{evaluate, Viol};
use crate::exec::{self, fork_process, wait_for, RunOut};
use crate::gen::{eligible, make_chunk, make_plan, scan_op, Guide, Refs, Sticky};
use crate::min::minimise;
use crate::plan::Plan;
use crate::report::{self, Tally};
use hm_ops::Op;
use simrt::{Rng, *};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Instant;

pub const PROPS: [&str; 12] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12"];

pub struct Size {
    pub chunks: u64,
    pub runs: u64,
    pub focus: usize,
    pub cap_s: u64,
}

pub fn size(prop: &str, tier: &str) -> Size {
    let (chunks, runs, focus) = match prop {
        "C01" => (240, 60, 6),
        "C02" => (240, 48, 6),
        "C03" => (240, 60, 6),
        "C04" => (240, 54, 6),
        "C05" => (280, 100, 0),
        "C06" => (240, 60, 6),
        "C07" => (320, 200, 0),
        "C08" => (72, 4, 0),
        "C09" => (320, 64, 4),
        "C10" => (320, 66, 4),
        "C11" => (240, 40, 6),
        _ => (210, 100, 0),
    };
    if tier == "thorough" {
        Size { chunks: chunks * 40, runs, focus, cap_s: 3000 }
    } else {
        Size { chunks, runs, focus, cap_s: 240 }
    }
}

fn mixed(seed: u64, prop: &str, chunk: u64, run: u64) -> u64 {
    let mut x = simrt::rng::mix(seed ^ 0x686d_6174_6800);
    for b in prop.bytes() {
        x = simrt::rng::mix(x ^ b as u64);
    }
    simrt::rng::mix(simrt::rng::mix(x ^ chunk) ^ (run.wrapping_add(1) << 32))
}

/// All runs of one chunk, in order; stops when `f` says so.
pub fn chunk_runs(prop: &str, seed: u64, chunk: u64, n: u64, focus: usize, g: &Guide, refs: &mut Refs, f: &mut dyn FnMut(&Plan, &mut Refs) -> Option<u64>) {
    let mut order = eligible(prop, &refs.ops);
    let mut ro = Rng::new(mixed(seed, prop, u64::MAX, 7));
    ro.shuffle(&mut order);
    refs.clear();
    let mut r = Rng::new(mixed(seed, prop, chunk, u64::MAX - 1));
    let mut c = if focus > 0 { make_chunk(prop, refs, &mut r, chunk, &order, focus, g) } else { crate::gen::Chunk::empty() };
    for mut w in std::mem::take(&mut refs.wrong) {
        w.prop = prop.into();
        w.seed = mixed(seed, prop, chunk, u64::MAX);
        if f(&w, refs).is_none() {
            return;
        }
    }
    let mut spent = vec![0u64; c.focus.len().max(1)];
    for run in 0..n {
        let s = mixed(seed, prop, chunk, run);
        let k = (chunk * n + run) as usize % spent.len();
        if focus > 0 && spent[k] > if c.lasting { 1_500_000_000 } else { 400_000_000 } {
            continue;
        }
        if let Some(p) = make_plan(prop, refs, &mut c, g, s, chunk * n + run) {
            let Some(x) = f(&p, refs) else { return };
            spent[k] += x;
        }
    }
}

struct Shared {
    lowest: *mut AtomicU64,
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

fn shared_flag() -> Shared {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut AtomicU64;
        (*p).store(u64::MAX, Ordering::SeqCst);
        Shared { lowest: p }
    }
}

pub fn confirm(p: &Plan, v: &Viol, refs: &mut Refs) -> Option<Viol> {
    // exactly repeatable, or it is not reported as a violation of the library
    let o = exec::run(p, &refs.ops);
    match evaluate(p, &o, refs) {
        Some(w) if w.kind == v.kind => Some(w),
        _ => None,
    }
}

fn work(w: u64, n: u64, prop: &str, seed: u64, sz: &Size, flag: &Shared, ops: Arc<Vec<Op>>, known: &[report::Known], g: &Guide, dir: &Path, start: Instant) -> i32 {
    init_process();
    let mut t = Tally::new();
    let mut refs = Refs::new(ops);
    refs.hangs = prop == "C06";
    let mut code = 0;
    let mut chunk = w;
    let lowest = unsafe { &*flag.lowest };
    while chunk < sz.chunks {
        if lowest.load(Ordering::SeqCst) < chunk {
            break;
        }
        if start.elapsed().as_secs() > sz.cap_s {
            t.capped = 1;
            break;
        }
        let mut found: Option<(Plan, Viol)> = None;
        chunk_runs(prop, seed, chunk, sz.runs, sz.focus, g, &mut refs, &mut |p, refs| {
            let o = exec::run(p, &refs.ops);
            let v = evaluate(p, &o, refs);
            t.add(p, &o, refs);
            if let Some(v) = v {
                if let Some(k) = known.iter().find(|k| k.prop == prop && v.text.contains(&k.text)) {
                    t.known.insert(k.text.clone());
                    return Some(0);
                }
                let mut p = p.clone();
                if v.kind == "overrun" && !p.regs.is_empty() {
                    // the allowance of a history over accounts is a guess: a slow call is no violation
                    for s in p.threads.iter_mut().flat_map(|t| t.steps.iter_mut()) {
                        s.limit = s.limit.saturating_mul(40);
                    }
                    let o = exec::run(&p, &refs.ops);
                    if evaluate(&p, &o, refs).is_none() {
                        return Some(0);
                    }
                }
                match confirm(&p, &v, refs) {
                    Some(v) => {
                        found = Some((p.clone(), v));
                        return None;
                    }
                    None => {
                        t.unrepeatable += 1;
                        eprintln!("hm_sim: not repeatable: property {prop} seed {} chunk {chunk}: {}", p.seed, v.text);
                    }
                }
            }
            (start.elapsed().as_secs() <= sz.cap_s + 60).then_some(o.stats[ST_STEPS])
        });
        t.chunks += 1;
        if let Some((p, v)) = found {
            lowest.fetch_min(chunk, Ordering::SeqCst);
            let (mp, mv) = minimise(&p, &v, &mut refs, 400, 90);
            let mut text = mp.text(&refs.ops);
            text += &format!("# found by: VERIF_SEED={seed} property {prop} chunk {chunk} run seed {}\n", p.seed);
            text += &format!("# size: {} calls reduced to {}\n", p.ops(), mp.ops());
            text += &format!("expect {} {}\n", mv.kind, mv.text.replace('\n', " "));
            let full = p.text(&refs.ops);
            std::fs::write(dir.join(format!("full.{chunk}")), full).ok();
            std::fs::write(dir.join(format!("viol.{chunk}")), text).ok();
            code = 1;
            break;
        }
        chunk += n;
    }
    t.solo_runs = refs.solo_runs;
    t.dropped = refs.dropped;
    t.coverage();
    std::fs::write(dir.join(format!("tally.{w}")), t.text()).ok();
    code
}

/// What the operations do, asked before the search begins.
fn scan(prop: &str, seed: u64, tier: &str, ops: &Arc<Vec<Op>>, n: u64, dir: &Path) -> Guide {
    let mut g = Guide::default();
    if prop == "C07" || prop == "C08" {
        return g;
    }
    let el = eligible(prop, ops);
    let (batches, calls, budget) = if tier == "quick" { (6, 200, 10_000_000) } else { (12, 300, 40_000_000) };
    let mut kids = vec![];
    for w in 0..n {
        let pid = fork_process();
        if pid == 0 {
            init_process();
            let mut text = String::new();
            for &op in el.iter().filter(|&&op| op as u64 % n == w) {
                let (kept, dict) = scan_op(ops, op, mixed(seed, "scan", op as u64, 0), batches, calls, budget);
                for k in kept {
                    text += &format!("{} {op} {}\n", ["K", "L", "W"][k.lasting as usize % 3], k.args.iter().map(|x| x.text()).collect::<Vec<_>>().join(" "));
                }
                text += &format!("D {op} {}\n", dict.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
            }
            std::fs::write(dir.join(format!("scan.{w}")), text).ok();
            simrt::exit_now(0);
        }
        kids.push(pid);
    }
    for k in kids {
        wait_for(k);
    }
    let mut found: std::collections::BTreeMap<usize, Sticky> = Default::default();
    g.corpus = vec![vec![]; ops.len()];
    g.dict = vec![vec![]; ops.len()];
    for w in 0..n {
        for l in std::fs::read_to_string(dir.join(format!("scan.{w}"))).unwrap_or_default().lines() {
            let mut f = l.split(' ').filter(|x| !x.is_empty());
            let kind = f.next().unwrap_or("");
            let Some(op) = f.next().and_then(|x| x.parse::<usize>().ok()) else { continue };
            if kind == "D" {
                g.dict[op] = f.filter_map(|x| x.parse().ok()).collect();
                g.calls += batches * calls;
            } else if let Some(a) = f.map(hm_spec::Arg::parse).collect::<Option<Vec<_>>>() {
                if kind != "K" {
                    let s = found.entry(op).or_insert(Sticky { op, args: vec![], marks: vec![] });
                    if kind == "W" { &mut s.marks } else { &mut s.args }.push(a);
                } else {
                    g.corpus[op].push(a);
                }
            }
        }
    }
    g.sticky = found.into_values().collect();
    g
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("hm_sim.{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

pub fn check(prop: &str, tier: &str, seed: u64, chunks: Option<u64>) -> i32 {
    if !PROPS.contains(&prop) || !(tier == "quick" || tier == "thorough") {
        eprintln!("hm_sim: unknown property or tier");
        return 2;
    }
    println!("hm_sim: property {prop} tier {tier} VERIF_SEED={seed}");
    let start = Instant::now();
    let mut sz = size(prop, tier);
    if let Some(c) = std::env::var("HM_SIM_CAP").ok().and_then(|s| s.parse().ok()) {
        sz.cap_s = c;
    }
    if let Some(c) = chunks {
        sz.chunks = c;
    }
    let ops = all_ops();
    let known = report::known();
    let dir = scratch();
    let flag = shared_flag();
    let n: u64 = std::env::var("HM_SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(2, 8));
    if !instrumented(&ops) {
        eprintln!("hm_sim: the library was built without the simulator's callbacks; use check.sh");
        return 3;
    }
    let g = scan(prop, seed, tier, &ops, n, &dir);
    println!("asked around: {} argument lists kept, {} constants, {:.1} s", g.corpus.iter().map(|c| c.len()).sum::<usize>(), g.dict.iter().map(|c| c.len()).sum::<usize>(), start.elapsed().as_secs_f64());
    if !g.sticky.is_empty() {
        println!("calls that change something lasting: {}", g.sticky.iter().filter(|s| !s.marks.is_empty()).map(|s| ops[s.op].name).collect::<Vec<_>>().join(" "));
        println!("calls that look at something lasting: {}", g.sticky.iter().filter(|s| s.marks.is_empty()).map(|s| ops[s.op].name).collect::<Vec<_>>().join(" "));
    }
    let mut kids = vec![];
    for w in 0..n {
        let pid = fork_process();
        if pid < 0 {
            eprintln!("hm_sim: fork failed");
            return 3;
        }
        if pid == 0 {
            let c = work(w, n, prop, seed, &sz, &flag, ops.clone(), &known, &g, &dir, start);
            simrt::exit_now(c);
        }
        kids.push(pid);
    }
    let mut broken = false;
    for k in kids {
        let st = wait_for(k);
        if st & 127 != 0 || !matches!((st >> 8) & 255, 0 | 1) {
            eprintln!("hm_sim: a worker ended with status {st:#x}");
            broken = true;
        }
    }
    let mut t = Tally::new();
    for w in 0..n {
        match std::fs::read_to_string(dir.join(format!("tally.{w}"))) {
            Ok(s) => t.merge(&s),
            Err(_) => broken = true,
        }
    }
    let mut viols: Vec<u64> = std::fs::read_dir(&dir).map(|d| d.flatten().filter_map(|e| e.file_name().to_string_lossy().strip_prefix("viol.")?.parse().ok()).collect()).unwrap_or_default();
    viols.sort();
    let mut code = 0;
    let mut line = String::new();
    if let Some(c) = viols.first() {
        let text = std::fs::read_to_string(dir.join(format!("viol.{c}"))).unwrap_or_default();
        let out = report::root().join("replays");
        std::fs::create_dir_all(&out).ok();
        let file = out.join(format!("{prop}-{tier}-{seed}-{c}.replay"));
        std::fs::write(&file, &text).ok();
        std::fs::copy(dir.join(format!("full.{c}")), out.join(format!("{prop}-{tier}-{seed}-{c}.unreduced"))).ok();
        // in a fresh process
        let again = std::process::Command::new("/proc/self/exe").arg("replay").arg(&file).env_remove("HM_SIM_FIXED").stdout(std::process::Stdio::null()).status();
        let again = again.ok().and_then(|s| s.code());
        for l in text.lines().filter(|l| l.starts_with("expect ") || l.starts_with("# ")) {
            println!("{l}");
        }
        println!("replayed in a fresh process: {}", if again == Some(1) { "same violation" } else { "DIFFERENT OUTCOME" });
        line = format!("VIOLATION property={prop} replay={}", file.display());
        code = 1;
    }
    if t.unrepeatable > 0 {
        eprintln!("hm_sim: {} outcomes did not repeat", t.unrepeatable);
    }
    for k in &t.known {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    let wall = start.elapsed().as_secs_f64();
    report::evidence(prop, tier, seed, &t, wall, viols.len().min(1), &ops, n, &sz, &g);
    println!("{} runs, {} solo reference runs, {:.1} s, {} distinct schedules, {} calls", t.runs, t.solo_runs, wall, t.hashes.len(), t.stats[ST_OPS]);
    std::fs::remove_dir_all(&dir).ok();
    if code == 1 {
        println!("{line}");
        return 1;
    }
    if broken {
        return 3;
    }
    code
}

use crate::all_ops;

/// A call with loops in it has to be seen taking steps.
fn instrumented(ops: &Arc<Vec<Op>>) -> bool {
    let pid = fork_process();
    if pid == 0 {
        init_process();
        let op = ops.iter().position(|o| o.name == "UBigInt::factorial").unwrap();
        let r = Refs::new(ops.clone()).solo(op, &[hm_spec::Arg::N(300)]);
        simrt::exit_now((r.map(|r| r.stat.steps).unwrap_or(u64::MAX) < 400) as i32);
    }
    wait_for(pid) == 0
}

pub fn replay(file: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else {
        eprintln!("hm_sim: cannot read {file}");
        return 2;
    };
    let ops = all_ops();
    let Some(p) = Plan::parse(&text, &ops) else {
        eprintln!("hm_sim: not a replay file");
        return 2;
    };
    init_process();
    let mut refs = Refs::new(ops);
    let o = exec::run(&p, &refs.ops);
    println!("verdict {} signal {} steps {} switches {} trace {:016x} records {:032x}", o.verdict, o.signal, o.stats[ST_STEPS], o.stats[ST_SWITCH], o.trace_hash, log_hash(&o));
    match evaluate(&p, &o, &mut refs) {
        Some(v) => {
            println!("{}: {}", v.kind, v.text);
            println!("VIOLATION property={} replay={file}", p.prop);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn log_hash(o: &RunOut) -> u128 {
    let mut b: Vec<u8> = vec![];
    for r in &o.recs {
        b.extend(r.id.to_le_bytes());
        b.extend(r.rep.to_le_bytes());
        b.push(r.status);
        b.extend(r.hash.to_le_bytes());
        b.extend(r.stat.steps.to_le_bytes());
        b.extend(r.stat.allocs.to_le_bytes());
        b.extend(r.stat.hots.to_le_bytes());
        b.extend(r.stat.odd.to_le_bytes());
        b.extend(r.stat.failed.to_le_bytes());
    }
    for e in &o.trace {
        b.extend(format!("{e:?}").as_bytes());
    }
    for l in &o.ledgers {
        b.extend(format!("{l:?}").as_bytes());
    }
    b.extend(format!("{} {} {} {:?} {:?}", o.verdict, o.trace_hash, o.sim_ns, o.stats, o.shared_changed).as_bytes());
    exec::hash_bytes(&b)
}

/// Prints one line per run; two invocations have to print the same.
pub fn determinism(prop: &str, seed: u64, n: u64) -> i32 {
    let ops = all_ops();
    let flag = shared_flag();
    let _ = flag;
    let workers: u64 = std::env::var("HM_SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = scratch();
    let sz = size(prop, "quick");
    let per = 20;
    let chunks = n.div_ceil(per);
    let g = scan(prop, seed, "quick", &ops, workers, &dir);
    let mut kids = vec![];
    for w in 0..workers {
        let pid = fork_process();
        if pid == 0 {
            init_process();
            let mut refs = Refs::new(ops.clone());
            let mut out = String::new();
            let mut c = w;
            while c < chunks {
                let mut i = 0;
                chunk_runs(prop, seed, c, per, sz.focus, &g, &mut refs, &mut |p, refs| {
                    let o = exec::run(p, &refs.ops);
                    let v = evaluate(p, &o, refs).map(|v| v.kind).unwrap_or_default();
                    out += &format!("{c:06} {i:03} {:016x} {:032x} {:016x} {v}\n", p.seed, log_hash(&o), o.trace_hash);
                    // the recorded decisions give the same run again
                    if i % 4 == 0 {
                        let mut q = p.clone();
                        q.trace = Some(o.trace.clone());
                        let o2 = exec::run(&q, &refs.ops);
                        let same = o2.recs.len() == o.recs.len() && o2.trace_hash == o.trace_hash && o2.recs.iter().zip(&o.recs).all(|(a, b)| a.hash == b.hash && a.stat.steps == b.stat.steps && a.id == b.id);
                        if !same {
                            out += &format!("{c:06} {i:03} REPLAY DIFFERS {:016x} {:016x}\n", o.trace_hash, o2.trace_hash);
                        }
                    }
                    i += 1;
                    Some(o.stats[ST_STEPS])
                });
                c += workers;
            }
            std::fs::write(dir.join(format!("d.{w}")), out).ok();
            simrt::exit_now(0);
        }
        kids.push(pid);
    }
    for k in kids {
        wait_for(k);
    }
    let mut lines: Vec<String> = vec![];
    for w in 0..workers {
        lines.extend(std::fs::read_to_string(dir.join(format!("d.{w}"))).unwrap_or_default().lines().map(|s| s.to_string()));
    }
    lines.sort();
    for l in &lines {
        println!("{l}");
    }
    std::fs::remove_dir_all(&dir).ok();
    0
}
