//! What a finished run has to satisfy.
use crate::exec::{self, Rec, RunOut, ST_DONE, ST_PANIC, ST_SKIP};
use crate::gen::{same_outcome, Refs};
use crate::plan::{Plan, Step, A};
use hm_spec::Arg;
use simrt::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub text: String,
}

fn viol(kind: &str, text: String) -> Option<Viol> {
    Some(Viol { kind: kind.into(), text })
}

pub fn resolved(p: &Plan, s: &Step) -> Vec<Arg> {
    s.args
        .iter()
        .map(|a| match a {
            A::Inline(x) => x.clone(),
            A::Shared(i) => p.shared[*i].clone(),
            A::Reg(..) | A::Mix(..) => Arg::N(0),
        })
        .collect()
}

pub fn describe(p: &Plan, s: &Step, refs: &Refs) -> String {
    let mut t = refs.ops[s.op].name.to_string();
    for a in resolved(p, s) {
        let x = a.text();
        t.push(' ');
        if x.len() > 120 {
            t += &x[..120];
            t += "...";
        } else {
            t += &x;
        }
    }
    t
}

fn find<'a>(p: &'a Plan, id: u32) -> Option<&'a Step> {
    p.threads.iter().flat_map(|t| &t.steps).find(|s| s.id == id & 0xFFFFF)
}

fn say(r: &Rec) -> String {
    match r.status {
        ST_PANIC => "panic".into(),
        _ => format!("{} bytes {}", r.len, r.head.iter().take(40).map(|b| format!("{b:02x}")).collect::<String>()),
    }
}

pub fn evaluate(p: &Plan, o: &RunOut, refs: &mut Refs) -> Option<Viol> {
    let at = |refs: &Refs| find(p, o.v_op).map(|s| describe(p, s, refs)).unwrap_or_else(|| "no particular call".into());
    if o.signal != 0 {
        if o.verdict == V_INCOMPLETE {
            return viol(if matches!(o.signal, 9 | 14 | 24) { "hang" } else { "crash" }, format!("the process died of signal {} during the run", o.signal));
        }
    } else if o.verdict == V_INCOMPLETE {
        return viol("exit", format!("the process ended by itself with code {} during the run", o.exit));
    }
    match o.verdict {
        V_DEADLOCK => return viol("deadlock", format!("{} threads wait and nobody can run; {} stalled; last ran {}", o.v_aux, p.threads.iter().flat_map(|t| &t.steps).filter(|s| s.stall_at != NEVER || s.stall_hot != NEVER).count(), at(refs))),
        V_OVERRUN => return viol("overrun", format!("a call needed more than {} of its own steps: {}", o.v_step, at(refs))),
        V_HEAP => return viol("heap", format!("{} ({})", o.note, at(refs))),
        V_LIMIT => return None,
        _ => {}
    }
    for r in &o.recs {
        for b in &r.bad {
            let w = b.split(' ').next().unwrap_or("");
            if w == p.prop {
                return viol("check", b.clone());
            }
        }
    }
    if let Some(i) = o.shared_changed.first() {
        return viol("shared", format!("the shared operand {} reads differently after the run", p.shared[*i].text()));
    }
    let mut by: HashMap<(u32, u32), &Rec> = HashMap::new();
    for r in &o.recs {
        by.insert((r.id, r.rep), r);
    }
    for t in &p.threads {
        let mut parked = false;
        for s in &t.steps {
            for rep in 0..p.reps {
                let Some(r) = by.get(&(s.id, rep)) else {
                    if s.stall_at != NEVER || s.stall_hot != NEVER {
                        parked = true;
                    }
                    if !parked {
                        return viol("missing", format!("a call never returned: {}", describe(p, s, refs)));
                    }
                    continue;
                };
                if r.status == ST_SKIP {
                    continue;
                }
                if r.args_changed {
                    return viol("args", format!("an operand passed by shared reference changed: {}", describe(p, s, refs)));
                }
                if s.reg.is_some() || !s.cmp || matches!(p.prop.as_str(), "C07" | "C08") {
                    continue;
                }
                let Some(solo) = refs.solo(s.op, &resolved(p, s)) else { continue };
                if r.stat.failed > 0 && r.status == ST_PANIC {
                    continue;
                }
                if !same_outcome(r, &solo) {
                    return viol(
                        "differs",
                        format!("{} gives [{}], alone in a fresh process it gives [{}]{}", describe(p, s, refs), say(r), say(&solo), if r.stat.failed > 0 { " (memory ran out during the call)" } else { "" }),
                    );
                }
            }
        }
    }
    match p.prop.as_str() {
        "C11" => leaks(p, o, refs),
        "C07" => ranges(p, o, refs, &by),
        "C08" => fresh(p, o, refs, &by),
        _ => None,
    }
}

fn leaks(p: &Plan, o: &RunOut, refs: &Refs) -> Option<Viol> {
    let g: Vec<(i64, i64)> = o.ledgers.windows(2).map(|w| (w[1].0 - w[0].0, w[1].1 - w[0].1)).collect();
    let grew = g.iter().filter(|d| d.0 > 0 || d.1 > 0).count();
    let total = g.iter().map(|d| d.1).sum::<i64>();
    let names: Vec<String> = p.threads.iter().flat_map(|t| &t.steps).take(4).map(|s| describe(p, s, refs)).collect();
    if p.reps > 3 && grew >= 2 && total > 0 {
        return viol("leak", format!("memory held after repeating the same calls grows again and again (blocks, bytes): {:?}; calls {}", &g[..g.len().min(12)], names.join(" | ")));
    }
    if p.reps == 1 && grew >= 3 && total > 0 {
        return viol("leak", format!("memory held after calls of one operation grows with the arguments it has seen (blocks, bytes): {g:?}; calls {}", names.join(" | ")));
    }
    None
}

// ---------------------------------------------------------------- random constructors
struct B<'a>(&'a [u8]);
impl B<'_> {
    fn u8(&mut self) -> Option<u8> {
        let (a, b) = self.0.split_first()?;
        self.0 = b;
        Some(*a)
    }
    fn u32(&mut self) -> Option<u32> {
        if self.0.len() < 4 {
            return None;
        }
        let (a, b) = self.0.split_at(4);
        self.0 = b;
        Some(u32::from_le_bytes(a.try_into().unwrap()))
    }
    fn limbs(&mut self) -> Option<Vec<u32>> {
        let n = self.u32()?;
        if n as usize > self.0.len() / 4 {
            return None;
        }
        (0..n).map(|_| self.u32()).collect()
    }
}

enum Got {
    Int(Option<bool>, Vec<u32>),
    Ratios(Vec<(bool, bool, Vec<u32>, Vec<u32>)>),
}

fn ratio(b: &mut B) -> Option<(bool, bool, Vec<u32>, Vec<u32>)> {
    if b.u8()? != b'R' {
        return None;
    }
    Some((b.u8()? != 0, b.u8()? != 0, b.limbs()?, b.limbs()?))
}

fn decode(h: &[u8]) -> Option<Got> {
    let mut b = B(h);
    Some(match b.u8()? {
        b'U' => Got::Int(None, b.limbs()?),
        b'-' => Got::Int(Some(true), b.limbs()?),
        b'+' => Got::Int(Some(false), b.limbs()?),
        b'R' => {
            b = B(h);
            Got::Ratios(vec![ratio(&mut b)?])
        }
        b'[' => {
            let n = b.u32()?;
            Got::Ratios((0..n).map(|_| ratio(&mut b)).collect::<Option<Vec<_>>>()?)
        }
        _ => return None,
    })
}

fn canonical(l: &[u32]) -> bool {
    l.len() == 1 || (l.len() > 1 && l[l.len() - 1] != 0)
}

fn n_args(p: &Plan, s: &Step) -> Vec<usize> {
    resolved(p, s).iter().map(|a| if let Arg::N(n) = a { *n as usize } else { 0 }).collect()
}

fn in_range(g: &Got, a: &[usize]) -> Result<(), String> {
    match g {
        Got::Int(sign, l) => {
            if !canonical(l) {
                return Err("the value is not in canonical form".into());
            }
            let zero = l == &[0];
            if a[0] == 0 {
                return if zero && *sign != Some(true) { Ok(()) } else { Err("scale 0 did not give zero".into()) };
            }
            if zero {
                return Err("zero is outside the range".into());
            }
            if l.len() > a[0] {
                return Err("the value is larger than the scale allows".into());
            }
            Ok(())
        }
        Got::Ratios(v) => {
            let want = if a.len() == 2 { a[0] * a[1] } else { 1 };
            if v.len() != want {
                return Err(format!("{} cells instead of {want}", v.len()));
            }
            for (dn, nn, n, d) in v {
                if *dn || *nn || !canonical(n) || !canonical(d) {
                    return Err("a ratio is negative or not in canonical form".into());
                }
                let (n, d) = (hm_model::trim(n.clone()), hm_model::trim(d.clone()));
                if n.is_empty() || d.is_empty() || hm_model::cmp(&n, &d).is_ge() {
                    return Err("a ratio is not strictly between 0 and 1".into());
                }
                if hm_model::gcd(&n, &d) != vec![1] {
                    return Err("a ratio is not reduced".into());
                }
            }
            Ok(())
        }
    }
}

fn ranges(p: &Plan, o: &RunOut, refs: &Refs, by: &HashMap<(u32, u32), &Rec>) -> Option<Viol> {
    let mut panics = 0;
    for s in p.threads.iter().flat_map(|t| &t.steps) {
        let r = by[&(s.id, 0)];
        let a = n_args(p, s);
        let trivial = a.iter().any(|n| *n == 0);
        if r.status == ST_PANIC {
            panics += 1;
            if !matches!(p.env.rng_mode, 5 | 6) {
                return viol("range", format!("{} panics although its random source works (mode {} {})", describe(p, s, refs), p.env.rng_mode, p.env.rng_arg));
            }
            continue;
        }
        if p.env.rng_mode == 6 && !trivial {
            return viol("range", format!("{} returns a value although no entropy can be had", describe(p, s, refs)));
        }
        let res = match decode(&r.head) {
            Some(g) => in_range(&g, &a),
            None => Err("the outcome cannot be read".into()),
        };
        if let Err(e) = res {
            return viol("range", format!("{}: {e} (random source mode {} {})", describe(p, s, refs), p.env.rng_mode, p.env.rng_arg));
        }
    }
    if p.env.rng_mode == 5 && panics < o.stats[ST_RNG_FAIL] {
        return viol("range", format!("the random source failed {} times but only {panics} calls reported it", o.stats[ST_RNG_FAIL]));
    }
    None
}

/// One random value: its words, most significant information first where that matters.
#[derive(Clone, PartialEq, Eq, Hash)]
struct Sample {
    w: Vec<u32>,
    sign: bool,
}

/// floor(r * 2^128) as four words
fn digits(n: &[u32], d: &[u32]) -> Vec<u32> {
    let n = hm_model::trim(n.to_vec());
    let d = hm_model::trim(d.to_vec());
    if d.is_empty() {
        return vec![0; 4];
    }
    let (mut q, _) = hm_model::divrem(&hm_model::shl(&n, 128), &d);
    q.resize(4, 0);
    q
}

type Streams = Vec<Vec<Sample>>; // per thread, in order

fn samples(p: &Plan, o: &RunOut) -> Result<(Streams, Vec<Sample>, Option<bool>), String> {
    let mut streams = vec![];
    let mut in_order = vec![];
    let mut of: HashMap<u32, usize> = HashMap::new();
    let mut signed = None;
    for (i, t) in p.threads.iter().enumerate() {
        streams.push(vec![]);
        for s in &t.steps {
            of.insert(s.id, i);
        }
    }
    for r in &o.recs {
        if r.status != ST_DONE {
            return Err("a call panicked although its random source works".into());
        }
        let s = find(p, r.id).unwrap();
        let v: Vec<Sample> = match decode(&r.head) {
            None => return Err("an outcome cannot be read".into()),
            Some(Got::Int(sg, mut l)) => {
                let scale = n_args(p, s)[0];
                l.resize(scale.max(l.len()), 0);
                signed = Some(sg.is_some());
                vec![Sample { w: l, sign: sg.unwrap_or(false) }]
            }
            Some(Got::Ratios(v)) => v.iter().map(|(_, _, n, d)| Sample { w: digits(n, d), sign: false }).collect(),
        };
        streams[of[&r.id]].extend(v.iter().cloned());
        in_order.extend(v);
    }
    Ok((streams, in_order, signed))
}

fn far(ones: u64, n: u64) -> bool {
    n >= 64 && (ones as f64 - n as f64 / 2.0).abs() > 3.5 * (n as f64).sqrt() + 2.0
}

/// Bit positions of a sequence of equally long words that are not set about half of the time.
fn unbalanced<'a>(it: impl Iterator<Item = (&'a [u32], &'a [u32])>) -> Option<(usize, u64, u64)> {
    let mut c: Vec<u64> = vec![];
    let mut n = 0;
    for (a, b) in it {
        n += 1;
        let k = if b.is_empty() { a.len() } else { a.len().min(b.len()) };
        if c.len() < 32 * k {
            c.resize(32 * k, 0);
        }
        for i in 0..k {
            let mut w = a[i] ^ b.get(i).copied().unwrap_or(0);
            while w != 0 {
                c[i * 32 + w.trailing_zeros() as usize] += 1;
                w &= w - 1;
            }
        }
    }
    c.iter().enumerate().find(|(_, k)| far(**k, n)).map(|(i, k)| (i, *k, n))
}

fn fresh(p: &Plan, o: &RunOut, refs: &mut Refs, _by: &HashMap<(u32, u32), &Rec>) -> Option<Viol> {
    let Some(first) = p.threads.iter().flat_map(|t| &t.steps).next() else { return None };
    let what = describe(p, first, refs);
    let bad = |t: String| viol("random", format!("{what}, called {} times on {} threads: {t}", p.ops(), p.threads.len()));
    let (streams, all, signed) = match samples(p, o) {
        Ok(x) => x,
        Err(e) => return bad(e),
    };
    if all.is_empty() {
        return None;
    }
    // fresh
    let wide = all[0].w.len() >= 2;
    let mut seen: HashMap<&[u32], usize> = HashMap::new();
    let mut rep = 0;
    for (i, s) in all.iter().enumerate() {
        if let Some(j) = seen.insert(&s.w, i) {
            rep += 1;
            if wide {
                return bad(format!("value number {i} repeats value number {j}"));
            }
        }
    }
    if rep > 3 {
        return bad(format!("{rep} values repeat"));
    }
    // words of different values do not come back elsewhere either
    let mut words: HashMap<u32, u32> = HashMap::new();
    let mut total = 0u64;
    for s in &all {
        for w in &s.w {
            *words.entry(*w).or_default() += 1;
            total += 1;
        }
    }
    let pairs: u64 = words.values().map(|&c| c as u64 * (c as u64 - 1) / 2).sum();
    if pairs as f64 > 6.0 + (total as f64).powi(2) / 4.0e9 {
        return bad(format!("{pairs} pairs of equal 32-bit words among {total}"));
    }
    for i in 0..all[0].w.len() {
        let mut at: HashMap<u32, u32> = HashMap::new();
        for s in &all {
            *at.entry(s.w[i]).or_default() += 1;
        }
        let pairs: u64 = at.values().map(|&c| c as u64 * (c as u64 - 1) / 2).sum();
        let mean = (all.len() as f64).powi(2) / 2.0 / 4.29e9;
        if pairs as f64 > 1.5 + mean + 40.0 * mean.sqrt() {
            return bad(format!("{pairs} pairs of equal values of word {i} among {}", all.len()));
        }
    }
    // balanced
    if let Some((b, k, n)) = unbalanced(all.iter().map(|s| (&s.w[..], &[][..]))) {
        return bad(format!("bit {b} is set in {k} of {n} values"));
    }
    if signed == Some(true) {
        let neg = all.iter().filter(|s| s.sign).count() as u64;
        if far(neg, all.len() as u64) {
            return bad(format!("{neg} of {} values are negative", all.len()));
        }
        let masks = [[0u32; 128], [u32::MAX; 128]];
        if let Some((b, k, n)) = unbalanced(all.iter().map(|s| (&s.w[..], &masks[s.sign as usize][..]))) {
            return bad(format!("the sign agrees with bit {b} in {} of {n} values", n - k));
        }
    }
    // unrelated
    let mut seqs: Vec<&[Sample]> = vec![&all];
    for s in &streams {
        seqs.push(s);
    }
    for q in &seqs {
        for lag in 1..=9 {
            if q.len() <= lag {
                break;
            }
            if let Some((b, k, n)) = unbalanced(q.iter().zip(&q[lag..]).map(|(a, b)| (&a.w[..], &b.w[..]))) {
                return bad(format!("bit {b} differs from the value {lag} places on in {k} of {n} cases"));
            }
            if signed == Some(true) {
                let d = q.iter().zip(&q[lag..]).filter(|(a, b)| a.sign != b.sign).count() as u64;
                if far(d, (q.len() - lag) as u64) {
                    return bad(format!("the sign changes {lag} places on in {d} of {} cases", q.len() - lag));
                }
            }
        }
        if let Some(t) = derived(q) {
            return bad(t);
        }
        if let Some(t) = tied(q, signed == Some(true)) {
            return bad(t);
        }
    }
    for i in 0..streams.len() {
        for j in i + 1..streams.len() {
            if let Some((b, k, n)) = unbalanced(streams[i].iter().zip(&streams[j]).map(|(a, b)| (&a.w[..], &b.w[..]))) {
                return bad(format!("bit {b} differs between two threads in {k} of {n} cases"));
            }
        }
    }
    let nw = all[0].w.len();
    for i in 0..nw {
        for j in i + 1..nw {
            if let Some((b, k, n)) = unbalanced(all.iter().map(|s| (&s.w[i..i + 1], &s.w[j..j + 1]))) {
                return bad(format!("bit {b} of words {i} and {j} of one value differs in {k} of {n} cases"));
            }
        }
    }
    if wide {
        if let Some(t) = coincidence(p, refs) {
            return bad(t);
        }
    }
    if let Some(t) = stretched(p, refs) {
        return bad(t);
    }
    // not a function of clock, addresses or threads: other entropy, everything else the same
    let mut p2 = p.clone();
    p2.env.entropy = p.env.entropy.wrapping_add(1);
    let o2 = exec::run(&p2, &refs.ops);
    let Ok((s2, all2, _)) = samples(&p2, &o2) else { return bad("a second execution with other entropy fails".into()) };
    if wide {
        if let Some(s) = all2.iter().find(|s| seen.contains_key(&s.w[..])) {
            return bad(format!("the value with words {:x?} comes again under other entropy", s.w));
        }
    }
    let mut same = 0;
    for (a, b) in streams.iter().zip(&s2) {
        same += a.iter().zip(b).map(|(x, y)| x.w.iter().zip(&y.w).filter(|(p, q)| p == q).count()).sum::<usize>();
    }
    if same > 3 {
        return bad(format!("{same} words are the same under other entropy"));
    }
    for (a, b) in streams.iter().zip(&s2) {
        if let Some((bit, k, n)) = unbalanced(a.iter().zip(b).map(|(x, y)| (&x.w[..], &y.w[..]))) {
            return bad(format!("bit {bit} differs under other entropy in {k} of {n} cases"));
        }
        if signed == Some(true) {
            let d = a.iter().zip(b).filter(|(x, y)| x.sign != y.sign).count() as u64;
            if far(d, a.len().min(b.len()) as u64) {
                return bad(format!("the sign differs under other entropy in {d} of {} cases", a.len()));
            }
        }
    }
    None
}

/// The source delivers the same first 64 bits in every call and is healthy otherwise. Whatever is
/// longer than that must not repeat: otherwise all of it hangs on those bits.
fn coincidence(p: &Plan, refs: &mut Refs) -> Option<String> {
    let mut q = p.clone();
    q.env.rng_mode = 9;
    q.env.rng_arg = simrt::rng::mix(p.env.entropy ^ 0x5045);
    let o = exec::run(&q, &refs.ops);
    let mut seen: HashMap<Vec<u32>, u32> = HashMap::new();
    for r in &o.recs {
        if r.status != ST_DONE {
            return Some("a call fails although its random source works".into());
        }
        let w: Vec<u32> = match decode(&r.head)? {
            Got::Int(_, l) => {
                if n_args(p, find(p, r.id)?)[0] < 3 {
                    return None;
                }
                l
            }
            Got::Ratios(v) => v.iter().flat_map(|(_, _, n, d)| n.iter().chain(d).copied().collect::<Vec<_>>()).collect(),
        };
        if w.is_empty() {
            return None;
        }
        if seen.insert(w, r.id).is_some() {
            return Some("the whole value comes again when only the first 64 bits drawn come again".into());
        }
    }
    None
}

/// Two executions in which every thread draws the same 64 words first and different ones from then
/// on. Results that are still the same much later were made from those words alone.
fn stretched(p: &Plan, refs: &mut Refs) -> Option<String> {
    let mut q = p.clone();
    q.env.rng_mode = 10;
    q.env.rng_arg = simrt::rng::mix(p.env.entropy ^ 0x5e5e);
    let (a, _, _) = samples(&q, &exec::run(&q, &refs.ops)).ok()?;
    q.env.entropy = p.env.entropy.wrapping_add(0x77);
    let (b, _, _) = samples(&q, &exec::run(&q, &refs.ops)).ok()?;
    for (x, y) in a.iter().zip(&b) {
        let mut words = 0;
        let mut same = 0;
        for (i, (u, v)) in x.iter().zip(y).enumerate() {
            words += u.w.len();
            if words > 160 && u == v {
                same += u.w.len();
                if same > 5 {
                    return Some(format!("value number {i} of a thread is still determined by the first 64 words the thread drew"));
                }
            }
        }
    }
    None
}

/// Counters, Weyl sequences and linear congruential generators give themselves away.
fn derived(q: &[Sample]) -> Option<String> {
    if q.len() < 40 {
        return None;
    }
    let nw = q[0].w.len();
    for i in 0..nw {
        let x: Vec<u32> = q.iter().map(|s| s.w[i]).collect();
        let d: Vec<u32> = x.windows(2).map(|w| w[1].wrapping_sub(w[0])).collect();
        let mut c: HashMap<u32, u32> = HashMap::new();
        for v in &d {
            *c.entry(*v).or_default() += 1;
        }
        if let Some((v, k)) = c.iter().max_by_key(|(v, k)| (**k, **v)) {
            if *k > 4 {
                return Some(format!("word {i} grows by {v:#x} from one value to the next {k} times"));
            }
        }
        let hits = d.windows(3).filter(|w| w[0] != 0 && w[1].wrapping_mul(w[1]) == w[0].wrapping_mul(w[2])).count();
        if hits > 4 {
            return Some(format!("word {i} follows a linear recurrence"));
        }
        if i + 1 < nw {
            let x: Vec<u64> = q.iter().map(|s| s.w[i] as u64 | (s.w[i + 1] as u64) << 32).collect();
            let d: Vec<u64> = x.windows(2).map(|w| w[1].wrapping_sub(w[0])).collect();
            let hits = d.windows(3).filter(|w| w[0] != 0 && w[1].wrapping_mul(w[1]) == w[0].wrapping_mul(w[2])).count();
            if hits > 2 {
                return Some(format!("words {i} and {} follow a linear recurrence", i + 1));
            }
        }
    }
    None
}

/// Bits (and the sign) of one value or of several in a row that are fixed by an exclusive-or of
/// others: the rank of the samples over GF(2) falls short. By chance that happens once in 2^90.
fn tied(q: &[Sample], signed: bool) -> Option<String> {
    let per = q.first()?.w.len() * 32 + signed as usize;
    let mut spans = vec![];
    let mut k = 1;
    while k * per + 1 + 90 + k <= q.len() && k * per < 700 {
        spans.push(k);
        k = (k * 2).max(k + 1);
    }
    for k in spans {
        let cols = k * per + 1;
        let mut rows: Vec<Vec<u64>> = q
            .windows(k)
            .take(k * per + 400)
            .map(|v| {
                let mut b = vec![0u64; cols.div_ceil(64)];
                let mut at = 0;
                let mut put = |x: bool| {
                    b[at / 64] |= (x as u64) << (at % 64);
                    at += 1;
                };
                put(true);
                for s in v {
                    for w in &s.w {
                        for i in 0..32 {
                            put(w >> i & 1 == 1);
                        }
                    }
                    if signed {
                        put(s.sign);
                    }
                }
                b
            })
            .collect();
        let mut rank = 0;
        for c in 0..cols {
            let Some(p) = (rank..rows.len()).find(|&i| rows[i][c / 64] >> (c % 64) & 1 == 1) else { continue };
            rows.swap(rank, p);
            let pivot = rows[rank].clone();
            for r in rows[rank + 1..].iter_mut() {
                if r[c / 64] >> (c % 64) & 1 == 1 {
                    for (x, y) in r.iter_mut().zip(&pivot) {
                        *x ^= y;
                    }
                }
            }
            rank += 1;
        }
        if rank < cols {
            return Some(format!("{} of the {} bits of {k} values in a row are fixed by the others", cols - rank, cols - 1));
        }
    }
    None
}
