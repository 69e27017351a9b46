//! Tallies, known findings and the evidence file.
use crate::exec::{hash_bytes, RunOut, ST_DONE, ST_PANIC, ST_SKIP};
use crate::gen::Refs;
use crate::plan::Plan;
use crate::worker::Size;
use hm_ops::Op;
use simrt::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::PathBuf;
use std::sync::Arc;

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("HM_SIM_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub struct Known {
    pub prop: String,
    pub text: String,
}

/// Lines of the form `finding: property=<id> match=<text>`; everything else is commentary.
pub fn known() -> Vec<Known> {
    let t = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("finding: property=")?;
            let (p, m) = r.split_once(" match=")?;
            Some(Known { prop: p.trim().into(), text: m.trim().into() })
        })
        .collect()
}

pub struct Tally {
    pub runs: u64,
    pub solo_runs: u64,
    pub dropped: u64,
    pub chunks: u64,
    pub capped: u64,
    pub unrepeatable: u64,
    pub limits: u64,
    pub done: u64,
    pub panicked: u64,
    pub skipped: u64,
    pub stalled_runs: u64,
    pub sim_ns: u64,
    pub max_steps: u64,
    pub stats: Vec<u64>,
    pub hashes: HashSet<u64>,
    pub distinct: HashSet<u64>,
    pub known: BTreeSet<String>,
    pub op_runs: BTreeMap<usize, u64>,
    pub env: BTreeMap<String, u64>,
    pub hot: BTreeSet<u64>,
    pub cov: Vec<u8>,
    pub samples: Vec<String>,
}

impl Tally {
    pub fn new() -> Tally {
        Tally {
            runs: 0, solo_runs: 0, dropped: 0, chunks: 0, capped: 0, unrepeatable: 0, limits: 0, done: 0, panicked: 0, skipped: 0, stalled_runs: 0, sim_ns: 0, max_steps: 0,
            stats: vec![0; N_STATS], hashes: HashSet::new(), distinct: HashSet::new(), known: BTreeSet::new(), op_runs: BTreeMap::new(), env: BTreeMap::new(), hot: BTreeSet::new(),
            cov: vec![], samples: vec![],
        }
    }

    pub fn add(&mut self, p: &Plan, o: &RunOut, refs: &Refs) {
        self.runs += 1;
        self.sim_ns += o.sim_ns;
        for (a, b) in self.stats.iter_mut().zip(&o.stats) {
            *a += b;
        }
        self.limits += (o.verdict == V_LIMIT) as u64;
        self.stalled_runs += (o.stalled > 0) as u64;
        for r in &o.recs {
            match r.status {
                ST_DONE => self.done += 1,
                ST_PANIC => self.panicked += 1,
                ST_SKIP => self.skipped += 1,
                _ => {}
            }
            self.max_steps = self.max_steps.max(r.stat.steps);
        }
        for s in p.threads.iter().flat_map(|t| &t.steps) {
            *self.op_runs.entry(s.op).or_default() += 1;
        }
        self.hashes.insert(o.trace_hash);
        for h in &o.hot {
            self.hot.insert(*h);
        }
        let e = &p.env;
        for k in [
            format!("allocator fill {}", ["stale", "zero", "ones", "0xA5", "pseudo random"][e.fill as usize % 5]),
            format!("allocator reuse {}", ["never", "most recently freed first"][e.reuse as usize % 2]),
            format!("clock {}", ["steady", "jumps forward", "jumps both ways", "frozen"][e.clock_jump as usize % 4]),
            format!("random source mode {}", e.rng_mode),
            format!("schedule policy {}", ["serial", "random walk", "priorities", "lockstep"][p.policy.kind as usize % 4]),
            format!("threads {}", p.threads.len()),
        ] {
            *self.env.entry(k).or_default() += 1;
        }
        if nontrivial(p, o) {
            let mut t = p.text(&refs.ops);
            t = t.lines().filter(|l| !l.starts_with("seed ")).collect::<Vec<_>>().join("\n");
            let h = hash_bytes(t.as_bytes());
            self.distinct.insert((h as u64) ^ o.trace_hash.rotate_left(17));
            if self.samples.len() < 2 {
                let mut q = p.clone();
                q.trace = Some(o.trace.iter().take(8).copied().collect());
                let mut t = q.text(&refs.ops);
                if t.len() > 1600 {
                    let mut n = 1600;
                    while !t.is_char_boundary(n) {
                        n -= 1;
                    }
                    t.truncate(n);
                    t += "...";
                }
                t += &format!("# {} switches, {} steps, {} allocation failures, {} stalls", o.stats[ST_SWITCH], o.stats[ST_STEPS], o.stats[ST_ALLOC_FAIL], o.stats[ST_STALL]);
                self.samples.push(t);
            }
        }
    }

    pub fn coverage(&mut self) {
        self.cov = unsafe { std::slice::from_raw_parts(AREAS.cov, COV_CAP) }[..guards() as usize + 1].to_vec();
    }

    pub fn text(&self) -> String {
        let mut o = format!(
            "n {} {} {} {} {} {} {} {} {} {} {} {} {}\n",
            self.runs, self.solo_runs, self.dropped, self.chunks, self.capped, self.unrepeatable, self.limits, self.done, self.panicked, self.skipped, self.stalled_runs, self.sim_ns, self.max_steps
        );
        let nums = |v: &mut dyn Iterator<Item = u64>| v.map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        o += &format!("stats {}\n", nums(&mut self.stats.iter().copied()));
        o += &format!("hashes {}\n", nums(&mut self.hashes.iter().copied()));
        o += &format!("distinct {}\n", nums(&mut self.distinct.iter().copied()));
        o += &format!("hot {}\n", nums(&mut self.hot.iter().copied()));
        o += &format!("cov {}\n", nums(&mut self.cov.iter().map(|x| *x as u64)));
        for (k, v) in &self.op_runs {
            o += &format!("op {k} {v}\n");
        }
        for (k, v) in &self.env {
            o += &format!("env {v} {k}\n");
        }
        for k in &self.known {
            o += &format!("known {k}\n");
        }
        for s in &self.samples {
            o += &format!("sample {}\n", s.replace('\\', "\\\\").replace('\n', "\\n"));
        }
        o
    }

    pub fn merge(&mut self, t: &str) {
        for l in t.lines() {
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            let v: Vec<u64> = if matches!(k, "n" | "stats" | "hashes" | "distinct" | "hot" | "cov" | "op") { rest.split(' ').filter_map(|x| x.parse().ok()).collect() } else { vec![] };
            match k {
                "n" if v.len() == 13 => {
                    self.runs += v[0];
                    self.solo_runs += v[1];
                    self.dropped += v[2];
                    self.chunks += v[3];
                    self.capped += v[4];
                    self.unrepeatable += v[5];
                    self.limits += v[6];
                    self.done += v[7];
                    self.panicked += v[8];
                    self.skipped += v[9];
                    self.stalled_runs += v[10];
                    self.sim_ns += v[11];
                    self.max_steps = self.max_steps.max(v[12]);
                }
                "stats" => self.stats.iter_mut().zip(v).for_each(|(a, b)| *a += b),
                "hashes" => self.hashes.extend(v),
                "distinct" => self.distinct.extend(v),
                "hot" => self.hot.extend(v),
                "cov" => {
                    self.cov.resize(self.cov.len().max(v.len()), 0);
                    self.cov.iter_mut().zip(v).for_each(|(a, b)| *a |= b as u8);
                }
                "op" if v.len() == 2 => *self.op_runs.entry(v[0] as usize).or_default() += v[1],
                "env" => {
                    if let Some((n, k)) = rest.split_once(' ') {
                        *self.env.entry(k.into()).or_default() += n.parse::<u64>().unwrap_or(0);
                    }
                }
                "known" => {
                    self.known.insert(rest.into());
                }
                "sample" => {
                    if self.samples.len() < 3 {
                        self.samples.push(rest.replace("\\n", "\n").replace("\\\\", "\\"));
                    }
                }
                _ => {}
            }
        }
    }
}

fn nontrivial(p: &Plan, o: &RunOut) -> bool {
    let switched = o.trace.iter().any(|e| e.forced == 0);
    let s = |i: usize| o.stats.get(i).copied().unwrap_or(0) > 0;
    match p.prop.as_str() {
        "C01" => switched,
        "C02" => o.recs.len() >= 2,
        "C03" => p.env != EnvCfg::plain(),
        "C04" => s(ST_ALLOC_FAIL) || s(ST_OPS_FAILED),
        "C05" => s(ST_OPS_FAILED),
        "C06" => s(ST_STALL) || switched,
        "C07" => s(ST_RNG_OVERRIDE) || s(ST_RNG_FAIL),
        "C08" => !o.recs.is_empty(),
        "C09" | "C10" => !o.recs.is_empty(),
        "C11" => s(ST_ALLOCS),
        _ => o.recs.iter().any(|r| r.status == ST_DONE),
    }
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "A case is one simulated run: 2-4 threads of calls on near-identical, equal or shared operands under one seeded schedule; non-trivial if at least one thread was preempted inside or right before a call and another went on. Distinct by plan and schedule.",
        "C02" => "A case is one simulated process history of calls (several threads in succession, some failing); non-trivial if at least two calls ran in it. Distinct by plan and schedule.",
        "C03" => "A case is a few calls under one drawn set of surroundings (allocator contents, reuse, moves, addresses, clocks, variables, processors, entropy, thread numbers); non-trivial if any differs from the reference surroundings. Distinct by plan and schedule.",
        "C04" => "A case is a run of 1-3 threads with allocation failures placed inside calls and calls that refuse, followed by calls of bystanders; non-trivial if an injected failure or a refusal actually happened. Distinct by plan and schedule.",
        "C05" => "A case is a history of in-place updates on registers shared by clients; non-trivial if at least one update was refused. Distinct by plan and schedule.",
        "C06" => "A case is a run of 2-4 threads of which up to two stop for ever at a drawn step inside a call; non-trivial if a stall fired or a preemption happened. Distinct by plan and schedule.",
        "C07" => "A case is a run of random-constructor calls over a faulty random source; non-trivial if the source was overridden or failed. Distinct by plan and schedule.",
        "C08" => "A case is 640 calls of one random constructor on 1-4 threads, and the same again under other entropy. Distinct by plan and schedule.",
        "C09" => "A case is a run of formatting calls into failing, short, panicking or re-entrant sinks on 1-4 threads. Distinct by plan and schedule.",
        "C10" => "A case is a run of calls with supplied iterators, closures or conversions that panic, lie about sizes, resume or re-enter, on 1-4 threads. Distinct by plan and schedule.",
        "C11" => "A case is a sequence of calls with failing allocations, repeated four times, with the block ledger read after each repetition; non-trivial if the calls allocated. Distinct by plan and schedule.",
        _ => "A case is a history of in-place updates by interleaved clients on shared registers, compared with exact arithmetic after every update; non-trivial if at least one update was carried out. Distinct by plan and schedule.",
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

#[allow(clippy::too_many_arguments)]
pub fn evidence(prop: &str, tier: &str, seed: u64, t: &Tally, wall: f64, viols: usize, ops: &Arc<Vec<Op>>, workers: u64, sz: &Size, g: &crate::gen::Guide) {
    let mut f: Vec<(String, String)> = vec![];
    let mut put = |k: &str, v: String| f.push((k.into(), v));
    put("evaluations", t.runs.to_string());
    put("distinct_nontrivial", t.distinct.len().to_string());
    put("rule", js(rule(prop)));
    put("samples", format!("[{}]", t.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    put("solo_reference_runs", t.solo_runs.to_string());
    put("operands_dropped_because_too_expensive_alone", t.dropped.to_string());
    put("seeds_used", t.runs.to_string());
    put("runs_per_hour", ((t.runs as f64 / wall.max(0.001) * 3600.0) as u64).to_string());
    put("guide", format!("{{\"argument_lists_kept_for_new_edges\":{},\"constants_compared_with\":{}}}", g.corpus.iter().map(|c| c.len()).sum::<usize>(), g.dict.iter().map(|c| c.len()).sum::<usize>()));
    put("calls_that_touch_something_lasting", format!("[{}]", g.sticky.iter().map(|s| js(ops[s.op].name)).collect::<Vec<_>>().join(",")));
    put("chunks_done", t.chunks.to_string());
    put("chunks_planned", sz.chunks.to_string());
    put("stopped_by_time_cap", (t.capped > 0).to_string());
    put("workers", workers.to_string());
    put("calls", t.stats[ST_OPS].to_string());
    put("calls_returned", t.done.to_string());
    put("calls_panicked", t.panicked.to_string());
    put("calls_skipped_to_keep_values_small", t.skipped.to_string());
    put("simulated_steps", t.stats[ST_STEPS].to_string());
    put("simulated_time_ns", t.sim_ns.to_string());
    put("longest_call_in_steps", t.max_steps.to_string());
    put("context_switches", t.stats[ST_SWITCH].to_string());
    put("distinct_schedules_by_hash_of_switch_positions", t.hashes.len().to_string());
    let edges = t.cov.iter().filter(|c| **c & 1 != 0).count();
    let pre = t.cov.iter().filter(|c| **c & 2 != 0).count();
    put("code_edges_reached", edges.to_string());
    put("code_edges_instrumented", t.cov.len().saturating_sub(1).to_string());
    put("code_edges_at_which_a_thread_was_preempted", pre.to_string());
    put("writable_static_locations_touched_by_the_library", t.hot.iter().filter(|h| **h >> 40 == 0).count().to_string());
    put("stores_into_shared_operands", t.stats[ST_HOT_SHARED].to_string());
    put("operations_exercised", t.op_runs.len().to_string());
    put("operations_in_catalogue", ops.len().to_string());
    let faults: Vec<(&str, usize)> = vec![
        ("allocation failed", ST_ALLOC_FAIL),
        ("thread stalled for ever inside a call", ST_STALL),
        ("call panicked", ST_OPS_FAILED),
        ("block handed out with stale contents", ST_STALE),
        ("block handed out with adversarial contents", ST_FILLED),
        ("block moved on growth", ST_REALLOC_MOVE),
        ("random word overridden", ST_RNG_OVERRIDE),
        ("random source failed", ST_RNG_FAIL),
        ("thread-local variable of the library accessed", ST_TLS),
        ("process number, working directory or file asked for", ST_SYS),
        ("call started on a stack with chosen old contents", ST_STACK),
        ("clock read", ST_CLOCK),
        ("environment variable read", ST_ENV),
        ("entropy read", ST_ENTROPY),
        ("processor count read", ST_NCPU),
        ("sleep", ST_SLEEP),
        ("lock wait", ST_FUTEX_WAIT),
        ("thread started by the library", ST_SPAWN),
    ];
    put("faults_and_seams_fired", format!("{{{}}}", faults.iter().map(|(n, i)| format!("{}:{}", js(n), t.stats[*i])).collect::<Vec<_>>().join(",")));
    put("supplied_code_faults", format!("{{{}}}", (ST_USER0..N_STATS).filter(|i| t.stats[*i] > 0).map(|i| format!("\"kind {}\":{}", i - ST_USER0, t.stats[i])).collect::<Vec<_>>().join(",")));
    put("configurations", format!("{{{}}}", t.env.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")));
    put("real_components", "[\"hmath compiled from /repo (debug assertions and overflow checks on, edge/load/store callbacks inserted by the compiler)\",\"rust standard library\",\"rand's ChaCha generator where the random source is healthy\",\"operating-system threads, one running at a time\"]".into());
    put("simulated_components", "[\"thread scheduling\",\"heap allocator\",\"futexes\",\"clocks and sleeping\",\"thread creation and joining\",\"entropy and faulty random words\",\"environment variables\",\"processor count\",\"sinks, iterators, closures and conversions supplied by callers\"]".into());
    put("outcomes_not_repeatable", t.unrepeatable.to_string());
    put("runs_cut_by_harness_limits", t.limits.to_string());
    put("known_findings_seen", t.known.len().to_string());
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n{}\n }},\n \"assumptions\": [\"threads interleave at compiler-inserted points inside hmath and the operation catalogue, at allocations and at futex calls; memory is sequentially consistent\",\"the reference for a call is its own outcome as the first and only call of a fresh process on the same tree (C01-C04, C06, C09-C11), exact independent arithmetic (C05, C12), or the documented range and distribution (C07, C08)\"],\n \"wall_s\": {wall:.2},\n \"violations\": {viols}\n}}\n",
        js(prop),
        js(tier),
        f.iter().map(|(k, v)| format!("  {}: {v}", js(k))).collect::<Vec<_>>().join(",\n")
    );
    let d = root().join("evidence");
    std::fs::create_dir_all(&d).ok();
    std::fs::write(d.join(format!("{prop}.json")), body).expect("evidence file");
}
