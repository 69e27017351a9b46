//! One simulated run, completely described: what a replay file contains.
use hm_spec::Arg;
use simrt::{EnvCfg, Policy, TraceEnt, NEVER};

#[derive(Clone, Debug, PartialEq)]
pub enum A {
    Inline(Arg),
    Shared(usize),
    /// the value a register has at that moment, plus a small number
    Reg(usize, i32),
    /// something close to the value a register has at that moment (see `ledger::Val::mix`)
    Mix(usize, u8, u32),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub id: u32,
    pub op: usize,
    pub reg: Option<usize>,
    pub args: Vec<A>,
    pub cmp: bool,
    pub limit: u64,
    pub fail_at: u64,
    pub persist: bool,
    pub stall_at: u64,
    pub stall_hot: u64,
    pub stall_delta: u64,
}

impl Step {
    pub fn faultless(&self) -> bool {
        self.fail_at == NEVER && self.stall_at == NEVER && self.stall_hot == NEVER
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Thread {
    pub wave: u32,
    pub steps: Vec<Step>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub env: EnvCfg,
    pub policy: Policy,
    pub shared: Vec<Arg>,
    pub regs: Vec<Arg>,
    pub threads: Vec<Thread>,
    pub reps: u32,
    pub full: bool,
    /// registers are kept below this many limbs
    pub cap: u32,
    pub trace: Option<Vec<TraceEnt>>,
}

impl Plan {
    pub fn ops(&self) -> usize {
        self.threads.iter().map(|t| t.steps.len()).sum()
    }
    pub fn waves(&self) -> u32 {
        self.threads.iter().map(|t| t.wave + 1).max().unwrap_or(0)
    }
}

fn opt(n: u64) -> String {
    if n == NEVER { "-".into() } else { n.to_string() }
}
fn popt(s: &str) -> Option<u64> {
    if s == "-" { Some(NEVER) } else { s.parse().ok() }
}

impl A {
    fn text(&self) -> String {
        match self {
            A::Inline(a) => a.text(),
            A::Shared(i) => format!("@{i}"),
            A::Reg(i, d) => format!("%{i}:{d}"),
            A::Mix(i, k, d) => format!("~{i}:{k}:{d}"),
        }
    }
    fn parse(s: &str) -> Option<A> {
        if let Some(r) = s.strip_prefix('@') {
            Some(A::Shared(r.parse().ok()?))
        } else if let Some(r) = s.strip_prefix('%') {
            let (a, b) = r.split_once(':')?;
            Some(A::Reg(a.parse().ok()?, b.parse().ok()?))
        } else if let Some(r) = s.strip_prefix('~') {
            let (a, b) = r.split_once(':')?;
            let (b, c) = b.split_once(':')?;
            Some(A::Mix(a.parse().ok()?, b.parse().ok()?, c.parse().ok()?))
        } else {
            Some(A::Inline(Arg::parse(s)?))
        }
    }
}

impl Plan {
    pub fn text(&self, ops: &[hm_ops::Op]) -> String {
        let mut o = String::from("hmsim-replay 1\n");
        let (e, p) = (&self.env, &self.policy);
        o += &format!("property {}\nseed {}\nreps {}\nfull {}\ncap {}\n", self.prop, self.seed, self.reps, self.full as u8, self.cap);
        o += &format!(
            "env {} {} {} {} {} {} {} {} {} {} {} {}\n",
            e.fill, e.reuse, e.poison_free as u8, e.realloc_move as u8, e.clock_base, e.clock_jump, e.getenv, e.ncpu, e.entropy, e.rng_mode, e.rng_arg, e.skew
        );
        o += &format!("policy {} {} {} {} {} {}\n", p.kind, p.mean, p.p_hot, p.p_begin, p.p_alloc, p.max_switches);
        for a in &self.shared {
            o += &format!("shared {}\n", a.text());
        }
        for a in &self.regs {
            o += &format!("reg {}\n", a.text());
        }
        for t in &self.threads {
            o += &format!("thread {}\n", t.wave);
            for s in &t.steps {
                o += &format!(
                    "step {} {} {} {} {} {} {} {} {} {}",
                    s.id, ops[s.op].name, s.reg.map(|r| r.to_string()).unwrap_or("-".into()), s.cmp as u8, opt(s.limit), opt(s.fail_at), s.persist as u8, opt(s.stall_at), opt(s.stall_hot), s.stall_delta
                );
                for a in &s.args {
                    o.push(' ');
                    o += &a.text();
                }
                o.push('\n');
            }
        }
        if let Some(tr) = &self.trace {
            o += "trace\n";
            for e in tr {
                o += &format!("switch {} {} {} {} {}\n", e.task, e.op, e.step, e.forced, e.next);
            }
        }
        o
    }

    pub fn parse(t: &str, ops: &[hm_ops::Op]) -> Option<Plan> {
        let mut p = Plan {
            prop: String::new(),
            seed: 0,
            env: EnvCfg::plain(),
            policy: Policy { kind: 0, mean: 1, p_hot: 0, p_begin: 0, p_alloc: 0, max_switches: 0 },
            shared: vec![],
            regs: vec![],
            threads: vec![],
            reps: 1,
            full: false,
            cap: 90,
            trace: None,
        };
        for l in t.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            let n = |i: usize| -> Option<u64> { w.get(i)?.parse().ok() };
            match w[0] {
                "property" => p.prop = w[1].to_string(),
                "seed" => p.seed = n(1)?,
                "reps" => p.reps = n(1)? as u32,
                "full" => p.full = n(1)? == 1,
                "cap" => p.cap = n(1)? as u32,
                "env" => {
                    p.env = EnvCfg {
                        fill: n(1)? as u8, reuse: n(2)? as u8, poison_free: n(3)? == 1, realloc_move: n(4)? == 1, clock_base: n(5)?, clock_jump: n(6)? as u8,
                        getenv: n(7)? as u8, ncpu: n(8)? as u32, entropy: n(9)?, rng_mode: n(10)? as u8, rng_arg: n(11)?, skew: n(12)? as u32,
                    }
                }
                "policy" => p.policy = Policy { kind: n(1)? as u8, mean: n(2)?, p_hot: n(3)? as u32, p_begin: n(4)? as u32, p_alloc: n(5)? as u32, max_switches: n(6)? },
                "shared" => p.shared.push(Arg::parse(w[1])?),
                "reg" => p.regs.push(Arg::parse(w[1])?),
                "thread" => p.threads.push(Thread { wave: n(1)? as u32, steps: vec![] }),
                "step" => {
                    let s = Step {
                        id: n(1)? as u32,
                        op: ops.iter().position(|o| o.name == w[2])?,
                        reg: if w[3] == "-" { None } else { Some(w[3].parse().ok()?) },
                        cmp: n(4)? == 1,
                        limit: popt(w[5])?,
                        fail_at: popt(w[6])?,
                        persist: n(7)? == 1,
                        stall_at: popt(w[8])?,
                        stall_hot: popt(w[9])?,
                        stall_delta: n(10)?,
                        args: w[11..].iter().map(|a| A::parse(a)).collect::<Option<Vec<A>>>()?,
                    };
                    p.threads.last_mut()?.steps.push(s);
                }
                "trace" => p.trace = Some(vec![]),
                "switch" => p.trace.as_mut()?.push(TraceEnt { task: n(1)? as u16, op: n(2)? as u32, step: n(3)?, forced: n(4)?, next: n(5)? as u16 }),
                _ => {}
            }
        }
        Some(p)
    }
}
