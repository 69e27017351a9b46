//! Operations that run code supplied by the caller: output sinks, iterators, closures and
//! conversions. Each entry checks by itself what the property demands of the library and
//! writes what it found wrong into `Out::bad`; the first word says which property it breaks.
use crate::{put, Canon, Fun, Op, Out, V};
use hm_spec::K;
use hmath::*;
use std::cell::Cell;
use std::fmt::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

const fn n(a: i128, b: i128) -> K {
    K::Int(a, b)
}

/// What supplied code throws; the caller must get this very thing back.
struct Token(u64);

fn boom(k: u64) -> ! {
    std::panic::panic_any(Token(k))
}

fn is_token(e: &Box<dyn std::any::Any + Send>, k: u64) -> bool {
    e.downcast_ref::<Token>().is_some_and(|t| t.0 == k)
}

const KINDS: u32 = 14;

/// The library used from inside supplied code; the right answers are fixed. The first uses
/// go through every function that takes supplied code itself and every kind of text.
#[inline(never)]
fn reenter(salt: u32, o: &Cell<u32>, kind: u32) {
    if kind == 0 {
        for k in 0..KINDS {
            reenter_one(salt, o, k);
        }
    } else {
        reenter_one(salt, o, kind);
    }
}

#[inline(never)]
fn reenter_one(salt: u32, o: &Cell<u32>, kind: u32) {
    let a = UBigInt::from_raw(vec![salt | 1, 0xFFFF_FFFF, 7]);
    let b = UBigInt::from_raw(vec![5, salt | 1]);
    let third = || Ratio::from_denom_and_numer(BigInt::from(6), BigInt::from(4));
    let ok = match kind % KINDS {
        0 => a.mul(&b).div(&b) == a,
        1 => UBigInt::from_string(&a.to_string()) == Ok(a.clone()) && format!("{a:#x}").starts_with("0x7ffffffff"),
        2 => {
            let r = third();
            r.to_ratio_string() == "2/3" && r.add(&r).sub(&r) == r
        }
        3 => vec![a.clone(), b.clone()].into_iter().sum::<UBigInt>() == a.add(&b),
        4 => {
            let m = Matrix::generate(2, 2, |i, j| Ratio::from_i32((3 * i + j) as i32));
            m.get(1, 1) == &Ratio::from_i32(4) && m.mul_k(2).get(1, 0) == &Ratio::from_i32(6)
        }
        5 => vec![a.clone(), b.clone()].into_iter().product::<UBigInt>() == a.mul(&b),
        6 => Polynomial::from_vec_generic(vec![2i32, 0, 3]).mul_k(5i32).to_vec() == &[10i32, 0, 15].map(Ratio::from_i32),
        7 => {
            let mut m = match Matrix::from_vec_generic(vec![vec![1i32, 2], vec![3, 4]]) {
                Ok(m) => m,
                Err(_) => return o.set(o.get() + 1),
            };
            m.mul_k_mut(7i32);
            m.get(1, 0) == &Ratio::from_i32(21) && m.determinant() == Ok(Ratio::from_i32(-98))
        }
        8 => from_points_generic(vec![(0i32, 1i32), (1, 3), (2, 7)])
            .is_ok_and(|p| p.calc(&Ratio::from_i32(3)) == Ratio::from_i32(13)),
        9 => {
            let c = Complex::from_real_and_imag(2i32, 3i32);
            c.add(&c).imaginary() == &Ratio::from_i32(6)
                && Complex::try_from_real_and_imag(2.0f64, 3.0f32).is_ok_and(|d| d.real() == c.real())
        }
        10 => {
            let p: (BigInt, BigInt) = third().into();
            p == (BigInt::from(3), BigInt::from(2)) && Ratio::try_from((6.0f64, 4.0f32)) == Ok(third())
        }
        11 => {
            let (u, i) = (UBigInt::from_u32(0xAB), BigInt::from(-0xAB));
            format!("{u}/{u:x}/{u:o}/{u:b}/{u:#b}/{u:e}") == "171/ab/253/10101011/0b10101011/1.71e2"
                && format!("{i}/{i:x}/{i:o}/{i:b}/{i:e}") == "-171/-ab/-253/-10101011/-1.71e2"
        }
        12 => {
            let half = Ratio::from_denom_and_numer_i32(2, -1);
            let m = Matrix::generate(1, 1, |_, _| Ratio::from_i32(1));
            format!("{half}") == "-0.5" && format!("{m:?}").starts_with("Matrix")
        }
        _ => format!("{}", F192::from(3i64)) == "3",
    };
    if !ok {
        o.set(o.get() + 1);
    }
}

// ---------------------------------------------------------------- sinks
struct Sink {
    got: [u8; 8192],
    n: usize,
    limit: usize,
    mode: u32, // 0 error, 1 error after taking a part, 2 panic, +4 uses the library itself
    failed: bool,
    after: u32,
    writes: u32,
    wrong: Cell<u32>,
    what: (*const V, i128),
    full: *const str,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            if !s.is_empty() {
                self.after += 1;
            }
            return Err(fmt::Error);
        }
        self.writes += 1;
        if self.mode & 4 != 0 {
            if self.writes <= 2 {
                // the very same text, asked for once more from inside
                let (v, k) = self.what;
                if text(unsafe { &*v }, k) != unsafe { &*self.full } {
                    self.wrong.set(self.wrong.get() + 1);
                }
            }
            reenter(self.n as u32, &self.wrong, self.writes - 1);
        }
        let room = self.limit - self.n;
        if s.len() <= room {
            self.got[self.n..self.n + s.len()].copy_from_slice(s.as_bytes());
            self.n += s.len();
            return Ok(());
        }
        self.failed = true;
        match self.mode & 3 {
            2 => boom(self.limit as u64),
            1 => {
                self.got[self.n..self.n + room].copy_from_slice(&s.as_bytes()[..room]);
                self.n += room;
            }
            _ => {}
        }
        Err(fmt::Error)
    }
}

const N_FMT: i128 = 14;
macro_rules! number_formats {
    ($a:expr, $k:expr, $s:expr) => {{
        let (a, s) = ($a, $s);
        match $k {
            0 => write!(s, "{a}"),
            1 => write!(s, "{a:x}"),
            2 => write!(s, "{a:#x}"),
            3 => write!(s, "{a:o}"),
            4 => write!(s, "{a:#o}"),
            5 => write!(s, "{a:b}"),
            6 => write!(s, "{a:#b}"),
            7 => write!(s, "{a:e}"),
            8 => write!(s, "{a:?}"),
            9 => write!(s, "{a:#?}"),
            10 => write!(s, "{a:>40}"),
            11 => write!(s, "{a:+}"),
            12 => write!(s, "<{a}|{a:#x}>"),
            13 => write!(s, "{a:08x}"),
            _ => write!(s, "{a:<9e}/{a:o}"),
        }
    }};
}

fn render(v: &V, k: i128, s: &mut dyn Write) -> fmt::Result {
    match v {
        V::U(a) => number_formats!(a, k, s),
        V::I(a) => number_formats!(a, k, s),
        V::R(a) => match k % 5 {
            0 => write!(s, "{a}"),
            1 => write!(s, "{a:?}"),
            2 => write!(s, "{a:#?}"),
            3 => write!(s, "{a:>30}"),
            _ => write!(s, "{a} = {a}"),
        },
        V::M(a) => if k % 2 == 0 { write!(s, "{a:?}") } else { write!(s, "{a:#?}") },
        V::P(a) => if k % 2 == 0 { write!(s, "{a:?}") } else { write!(s, "{a:#?}") },
        V::F(a) => match k % 5 {
            0 => write!(s, "{a}"),
            1 => write!(s, "{a:?}"),
            2 => write!(s, "{a:#?}"),
            3 => write!(s, "{a:>30}"),
            _ => write!(s, "{a}/{a}"),
        },
        V::S(t) => {
            let e = UBigInt::from_string(t).err();
            let f = Ratio::from_string(t).err();
            if k % 2 == 0 { write!(s, "{e:?}{f:?}") } else { write!(s, "{e:#?} {f:#?}") }
        }
        _ => Ok(()),
    }
}

fn text(v: &V, k: i128) -> String {
    let mut s = String::new();
    let _ = render(v, k, &mut s);
    s
}

fn sink_op(x: &[&V], o: &mut Out) {
    let (v, kind, at, mode) = (x[0], x[1].n(), x[2].n() as usize, x[3].n() as u32);
    let full = text(v, kind);
    let limit = match x[4].n() {
        0 => at.min(8192),
        1 => full.len().saturating_sub(at % 4).min(8192),
        _ => (full.len() * (at % 17) / 16).min(8192),
    };
    let mut s = Sink { got: [0; 8192], n: 0, limit, mode, failed: false, after: 0, writes: 0, wrong: Cell::new(0), what: (v, kind), full: full.as_str() };
    let r = catch_unwind(AssertUnwindSafe(|| render(v, kind, &mut s)));
    if !full.as_bytes().starts_with(&s.got[..s.n]) {
        o.bad("C09 the sink was given text that is not a prefix of the right one");
    }
    if s.after > 0 {
        o.bad("C09 more text was offered after the sink had failed");
    }
    if s.wrong.get() > 0 {
        o.bad("C09 a call made from inside the sink returned a wrong result");
    }
    if full.len() <= limit {
        match r {
            Ok(Ok(())) if s.n == full.len() => {}
            Ok(Ok(())) => o.bad("C09 success was reported but the text is incomplete"),
            Ok(Err(_)) => o.bad("C09 an error was reported although the sink never failed"),
            Err(_) => o.bad("C09 a panic although the sink never failed"),
        }
    } else if mode & 3 == 2 {
        match r {
            Err(e) if is_token(&e, limit as u64) => {}
            Err(_) => o.bad("C09 the sink's panic reached the caller altered"),
            Ok(_) => o.bad("C09 the sink's panic was swallowed"),
        }
    } else {
        match r {
            Ok(Err(_)) => {}
            Ok(Ok(())) => o.bad("C09 the sink's failure was not reported"),
            Err(_) => o.bad("C09 a panic although the sink only reported an error"),
        }
    }
    if text(v, kind) != full {
        o.bad("C09 formatting again gives another text");
    }
    put(&full, o);
}

pub fn sinks() -> Vec<Op> {
    let mut v = vec![];
    macro_rules! s {
        ($name:expr, $k:expr) => {
            s!($name, $k, n(0, N_FMT))
        };
        ($name:expr, $k:expr, $f:expr) => {{
            const SIG: &[K] = &[$k, $f, n(0, 160), n(0, 6), n(0, 2)];
            v.push(Op { name: $name, sig: SIG, fun: Fun::Ref(sink_op), random: false });
        }};
    }
    s!("sink/UBigInt", K::U);
    s!("sink/UBigInt/small", K::Us);
    s!("sink/UBigInt/large", K::Ub, n(1, 6)); // decimal text is slow
    s!("sink/BigInt", K::I);
    s!("sink/BigInt/large", K::Ib, n(1, 6));
    s!("sink/Ratio", K::R);
    s!("sink/Ratio/small", K::Rm);
    s!("sink/Matrix", K::M);
    s!("sink/Polynomial", K::P);
    s!("sink/F192", K::F);
    s!("sink/errors", K::SInt);
    v
}

// ---------------------------------------------------------------- tracked values
const CAP: usize = 100;

/// Counts, without allocating, what happens to up to CAP tracked values.
struct Log {
    conv: [Cell<u8>; CAP],
    drops: [Cell<u8>; CAP],
    made: [Cell<u8>; CAP],
    seq: [Cell<u8>; CAP], // position at which each was converted
    n: Cell<u32>,
    panic_at: u32,
    fail_at: u32,
    reenter: bool,
    wrong: Cell<u32>,
}

/// Where supplied code panics: never, or at one of `uses` places.
fn place(v: i128, uses: usize) -> i128 {
    if v % 2 == 0 || uses == 0 { 10_000 } else { (v / 2) % uses as i128 }
}

impl Log {
    fn new(panic_at: i128, fail_at: i128, reenter: bool) -> Rc<Log> {
        Rc::new(Log {
            conv: std::array::from_fn(|_| Cell::new(0)),
            drops: std::array::from_fn(|_| Cell::new(0)),
            made: std::array::from_fn(|_| Cell::new(0)),
            seq: std::array::from_fn(|_| Cell::new(0)),
            n: Cell::new(0),
            panic_at: panic_at as u32,
            fail_at: fail_at as u32,
            reenter,
            wrong: Cell::new(0),
        })
    }
    fn bump(c: &Cell<u8>) {
        c.set(c.get().saturating_add(1));
    }
    /// One use of supplied code. True: it has to report failure.
    fn used(&self, id: usize) -> bool {
        let k = self.n.get();
        self.n.set(k + 1);
        Log::bump(&self.conv[id]);
        self.seq[id].set(k.min(255) as u8);
        if self.reenter {
            reenter(id as u32 * 77, &self.wrong, k);
        }
        if k == self.panic_at {
            boom(1000 + k as u64);
        }
        k == self.fail_at
    }
    /// `all`: the call was accepted, so everything had to be used.
    fn judge(&self, count: usize, all: bool, o: &mut Out) {
        for i in 0..count {
            let (m, c, d) = (self.made[i].get(), self.conv[i].get(), self.drops[i].get());
            if m != d {
                o.bad(&format!("C10 supplied value {i} was made {m} and dropped {d} times"));
            }
            if c > 1 {
                o.bad(&format!("C10 supplied value {i} was converted {c} times"));
            }
            if all && c != 1 {
                o.bad(&format!("C10 supplied value {i} was not converted"));
            }
        }
        if self.wrong.get() > 0 {
            o.bad("C10 a call made from inside supplied code returned a wrong result");
        }
    }
    fn in_order(&self, ids: impl Iterator<Item = usize>, o: &mut Out) {
        let mut last = -1;
        for i in ids {
            if self.conv[i].get() == 1 {
                let s = self.seq[i].get() as i32;
                if s <= last {
                    o.bad("C10 supplied values were used out of order");
                    return;
                }
                last = s;
            }
        }
    }
}

struct Item {
    id: usize,
    val: i64,
    den: i64,
    log: Rc<Log>,
}

impl Item {
    fn new(id: usize, val: i64, den: i64, log: &Rc<Log>) -> Item {
        Log::bump(&log.made[id]);
        Item { id, val, den, log: log.clone() }
    }
    fn ratio(&self) -> Ratio {
        Ratio::from_denom_and_numer(BigInt::from(self.den), BigInt::from(self.val))
    }
}

impl Drop for Item {
    fn drop(&mut self) {
        Log::bump(&self.log.drops[self.id]);
    }
}

impl From<Item> for Ratio {
    fn from(t: Item) -> Ratio {
        t.log.used(t.id);
        t.ratio()
    }
}

struct TryItem(Item);
impl TryFrom<TryItem> for Ratio {
    type Error = ConversionError;
    fn try_from(t: TryItem) -> Result<Ratio, ConversionError> {
        if t.0.log.used(t.0.id) {
            return Err(ConversionError::NoData);
        }
        Ok(t.0.ratio())
    }
}
struct IntItem(Item);
impl TryFrom<IntItem> for BigInt {
    type Error = ConversionError;
    fn try_from(t: IntItem) -> Result<BigInt, ConversionError> {
        if t.0.log.used(t.0.id) {
            return Err(ConversionError::NotANumber);
        }
        Ok(BigInt::from(t.0.val))
    }
}

struct Taken<const ID: usize>(BigInt, *const Log);
impl<const ID: usize> From<BigInt> for Taken<ID> {
    fn from(b: BigInt) -> Self {
        // BigInt -> Taken carries no context, so it comes from here
        let p = simrt::slot() as *const Log;
        let l = unsafe { &*p };
        l.used(ID);
        Log::bump(&l.made[ID]);
        Taken(b, p)
    }
}
impl<const ID: usize> Drop for Taken<ID> {
    fn drop(&mut self) {
        Log::bump(unsafe { &(*self.1).drops[ID] });
    }
}

/// Runs the call and judges how a panic of supplied code came through.
fn guarded<T>(log: &Log, o: &mut Out, f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => {
            if log.n.get() > log.panic_at {
                o.bad("C10 a panic of supplied code was swallowed");
            }
            Some(v)
        }
        Err(e) => {
            if log.n.get() <= log.panic_at {
                // the library itself refused: not ours to judge, but pass it on
                std::panic::resume_unwind(e);
            }
            if !is_token(&e, 1000 + log.panic_at as u64) {
                o.bad("C10 a panic of supplied code reached the caller altered");
            }
            if log.n.get() != log.panic_at + 1 {
                o.bad("C10 supplied code was used again after it had panicked");
            }
            None
        }
    }
}

// ---------------------------------------------------------------- iterators
struct Feed<'a> {
    items: &'a [V],
    at: usize,
    ended: bool,
    after_end: u32,
    hint: bool,
    log: &'a Log,
}

impl Iterator for Feed<'_> {
    type Item = UBigInt;
    fn next(&mut self) -> Option<UBigInt> {
        if self.ended {
            // not fused: it would go on
            self.after_end += 1;
            return (self.after_end < 6).then(|| UBigInt::from_u32(41));
        }
        if self.at == self.items.len() {
            self.ended = true;
            if self.log.reenter {
                reenter(3, &self.log.wrong, self.at as u32);
            }
            return None;
        }
        let i = self.at;
        self.at += 1;
        self.log.used(i);
        Some(self.items[i].u().clone())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.hint {
            let n = self.items.len() - self.at;
            (n, if n % 2 == 0 { Some(n) } else { None })
        } else {
            (0, None)
        }
    }
}

fn fold_op(x: &[&V], o: &mut Out, product: bool) {
    let l = x[0].l();
    let log = Log::new(place(x[1].n(), l.len()), 99, x[2].n() & 1 == 1);
    let mut f = Feed { items: l, at: 0, ended: false, after_end: 0, hint: x[2].n() & 2 != 0, log: &log };
    let r = guarded(&log, o, || {
        let it = &mut f;
        if product { it.product::<UBigInt>() } else { it.sum::<UBigInt>() }
    });
    if f.after_end > 0 {
        o.bad("C10 the iterator was asked again after its end");
    }
    if log.wrong.get() > 0 {
        o.bad("C10 a call made from inside the iterator returned a wrong result");
    }
    if let Some(r) = &r {
        if f.at != l.len() || !f.ended {
            o.bad("C10 the iterator was not used up to its end");
        }
        let mut want: hm_model::Mag = if product { vec![1] } else { vec![] };
        for v in l {
            let m = hm_model::trim(v.u().clone().into_raw());
            want = if product { hm_model::mul(&want, &m) } else { hm_model::add(&want, &m) };
        }
        if hm_model::trim(r.clone().into_raw()) != want {
            o.bad("C10 an item was lost, changed or used twice: the result is not that of the items");
        }
    }
    put(&r, o);
}

// ---------------------------------------------------------------- the catalogue
/// Small ratios for tracked values, from a seed argument.
fn val(seed: i128, i: usize) -> (i64, i64) {
    let mut x = (seed as u64) ^ (i as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15);
    x ^= x >> 31;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^= x >> 29;
    let n = match (x >> 20) % 8 {
        0 | 1 => 0,
        2 => 1 - 2 * ((x >> 13) & 1) as i64,
        _ => (x % 41) as i64 - 20,
    };
    (n, 1 + (x >> 32) as i64 % 9)
}

fn items(seed: i128, from: usize, count: usize, log: &Rc<Log>) -> Vec<Item> {
    (from..from + count).map(|i| { let (a, b) = val(seed, i); Item::new(i, a, b, log) }).collect()
}

fn want(seed: i128, i: usize) -> Ratio {
    let (a, b) = val(seed, i);
    Ratio::from_denom_and_numer(BigInt::from(b), BigInt::from(a))
}

pub fn users() -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    macro_rules! q {
        ($name:expr, [$($k:expr),*], $f:expr) => {{
            const SIG: &[K] = &[$($k),*];
            v.push(Op { name: $name, sig: SIG, fun: Fun::Ref($f), random: false });
        }};
    }
    const AT: K = n(0, 400);
    const RE: K = n(0, 1);
    const SEED: K = n(0, 1 << 40);
    q!("use/sum", [K::LUx, AT, n(0, 3)], |x, o| fold_op(x, o, false));
    q!("use/product", [K::LUx, AT, n(0, 3)], |x, o| fold_op(x, o, true));
    q!("use/generate", [n(0, 9), n(0, 9), AT, RE, SEED], |x, o| {
        let (c, r) = (x[0].n() as usize, x[1].n() as usize);
        let log = Log::new(place(x[2].n(), c * r), 99, x[3].n() == 1);
        let seed = x[4].n();
        let outside = Cell::new(false);
        let m = guarded(&log, o, || {
            Matrix::generate(c, r, |i, j| {
                if i >= r || j >= c {
                    outside.set(true);
                    return Ratio::zero();
                }
                log.used(i * c + j);
                want(seed, i * c + j)
            })
        });
        if outside.get() {
            o.bad("C10 the closure was called for a cell that does not exist");
        }
        log.judge(c * r, m.is_some(), o);
        if let Some(m) = &m {
            for i in 0..r {
                for j in 0..c {
                    if m.get(i, j) != &want(seed, i * c + j) {
                        o.bad("C10 a cell does not hold what the closure returned for it");
                    }
                }
            }
        }
        put(&m, o);
    });
    q!("use/Matrix::mul_k", [K::M, AT, RE, SEED], |x, o| {
        let log = Log::new(place(x[1].n(), 1), 99, x[2].n() == 1);
        let k = items(x[3].n(), 0, 1, &log).pop();
        let r = guarded(&log, o, || x[0].m().mul_k(k.into_iter().next().unwrap()));
        log.judge(1, r.is_some(), o);
        if r.as_ref().is_some_and(|r| r != &x[0].m().mul_k(want(x[3].n(), 0))) {
            o.bad("C10 the result is not that of the supplied value");
        }
        put(&r, o);
    });
    q!("use/Matrix::mul_k_mut", [K::M, AT, RE, SEED], |x, o| {
        let log = Log::new(place(x[1].n(), 1), 99, x[2].n() == 1);
        let k = items(x[3].n(), 0, 1, &log).pop();
        let mut m = x[0].m().clone();
        let r = guarded(&log, o, || m.mul_k_mut(k.into_iter().next().unwrap()));
        log.judge(1, r.is_some(), o);
        if r.is_some() {
            if m != x[0].m().mul_k(want(x[3].n(), 0)) {
                o.bad("C10 the result is not that of the supplied value");
            }
        } else if &m != x[0].m() {
            o.bad("C05 the target changed although the supplied conversion panicked");
        }
        put(&m, o);
    });
    q!("use/Polynomial::mul_k", [K::P, AT, RE, SEED], |x, o| {
        let log = Log::new(place(x[1].n(), 1), 99, x[2].n() == 1);
        let k = items(x[3].n(), 0, 1, &log).pop();
        let r = guarded(&log, o, || x[0].p().mul_k(k.into_iter().next().unwrap()));
        log.judge(1, r.is_some(), o);
        if r.as_ref().is_some_and(|r| r != &x[0].p().mul_k(want(x[3].n(), 0))) {
            o.bad("C10 the result is not that of the supplied value");
        }
        put(&r, o);
    });
    q!("use/Polynomial::mul_k_mut", [K::P, AT, RE, SEED], |x, o| {
        let log = Log::new(place(x[1].n(), 1), 99, x[2].n() == 1);
        let k = items(x[3].n(), 0, 1, &log).pop();
        let mut m = x[0].p().clone();
        let r = guarded(&log, o, || m.mul_k_mut(k.into_iter().next().unwrap()));
        log.judge(1, r.is_some(), o);
        if r.is_some() {
            if m != x[0].p().mul_k(want(x[3].n(), 0)) {
                o.bad("C10 the result is not that of the supplied value");
            }
        } else if &m != x[0].p() {
            o.bad("C05 the target changed although the supplied conversion panicked");
        }
        put(&m, o);
    });
    q!("use/Matrix::from_vec_generic", [n(1, 9), n(1, 9), AT, RE, SEED, n(0, 5)], |x, o| {
        let (c, r) = (x[0].n() as usize, x[1].n() as usize);
        let log = Log::new(place(x[2].n(), c * r), 99, x[3].n() == 1);
        let seed = x[4].n();
        let mut rows: Vec<Vec<Item>> = (0..r).map(|i| items(seed, i * c, c, &log)).collect();
        let ragged = x[5].n() == 0 && r > 1;
        let mut gone = 0;
        if ragged {
            let i = seed as usize % r;
            rows[i].pop();
            gone = 1;
        }
        let m = guarded(&log, o, || Matrix::from_vec_generic(rows));
        let accepted = matches!(m, Some(Ok(_)));
        log.judge(c * r, accepted && gone == 0, o);
        log.in_order(0..c * r, o);
        if let Some(Ok(m)) = &m {
            if !ragged {
                for i in 0..r {
                    for j in 0..c {
                        if m.get(i, j) != &want(seed, i * c + j) {
                            o.bad("C10 a cell does not hold the value supplied for it");
                        }
                    }
                }
            }
        }
        put(&m, o);
    });
    q!("use/Polynomial::from_vec_generic", [n(0, 40), AT, RE, SEED], |x, o| {
        let c = x[0].n() as usize;
        let log = Log::new(place(x[1].n(), c), 99, x[2].n() == 1);
        let seed = x[3].n();
        let given = items(seed, 0, c, &log);
        let p = guarded(&log, o, || Polynomial::from_vec_generic(given));
        log.judge(c, p.is_some(), o);
        log.in_order(0..c, o);
        if let Some(p) = &p {
            // leading zeros may or may not be kept: compare as numbers
            let strip = |v: Vec<Ratio>| v.into_iter().skip_while(|r| r.is_zero()).collect::<Vec<_>>();
            if strip(p.to_vec().clone()) != strip((0..c).map(|i| want(seed, i)).collect()) {
                o.bad("C10 the coefficients are not the supplied ones");
            }
        }
        put(&p, o);
    });
    q!("use/from_points_generic", [n(1, 6), AT, RE, SEED], |x, o| {
        let c = x[0].n() as usize;
        let log = Log::new(place(x[1].n(), 2 * c), 99, x[2].n() == 1);
        let seed = x[3].n();
        let pts: Vec<(Item, Item)> = (0..c)
            .map(|i| (Item::new(2 * i, i as i64 * 2 - 3, 1, &log), { let (a, b) = val(seed, i); Item::new(2 * i + 1, a, b, &log) }))
            .collect();
        let p = guarded(&log, o, || from_points_generic(pts));
        log.judge(2 * c, matches!(p, Some(Ok(_))), o);
        log.in_order((0..c).map(|i| 2 * i), o);
        log.in_order((0..c).map(|i| 2 * i + 1), o);
        if let Some(p) = &p {
            let q = from_points((0..c).map(|i| (Ratio::from_i32(i as i32 * 2 - 3), want(seed, i))).collect());
            if p != &q {
                o.bad("C10 the polynomial is not that of the supplied points");
            }
        }
        put(&p, o);
    });
    q!("use/Complex::from", [n(0, 3), RE, SEED], |x, o| {
        let log = Log::new(x[0].n(), 99, x[1].n() == 1);
        let mut it = items(x[2].n(), 0, 2, &log);
        let (b, a) = (it.pop(), it.pop());
        let r = guarded(&log, o, || Complex::from_real_and_imag(a.into_iter().next().unwrap(), b.into_iter().next().unwrap()));
        log.judge(2, r.is_some(), o);
        if let Some(c) = &r {
            if c.real() != &want(x[2].n(), 0) || c.imaginary() != &want(x[2].n(), 1) {
                o.bad("C10 the parts are not the supplied ones");
            }
        }
        put(&r, o);
    });
    q!("use/Complex::try_from", [n(0, 3), n(0, 3), RE, SEED], |x, o| {
        let log = Log::new(x[0].n(), x[1].n(), x[2].n() == 1);
        let mut it = items(x[3].n(), 0, 2, &log);
        let (b, a) = (it.pop(), it.pop());
        let r = guarded(&log, o, || Complex::try_from_real_and_imag(TryItem(a.into_iter().next().unwrap()), TryItem(b.into_iter().next().unwrap())));
        log.judge(2, matches!(r, Some(Ok(_))), o);
        match &r {
            Some(Ok(_)) if log.fail_at < 2 => o.bad("C10 a failed conversion was ignored"),
            Some(Ok(c)) => {
                if c.real() != &want(x[3].n(), 0) || c.imaginary() != &want(x[3].n(), 1) {
                    o.bad("C10 the parts are not the supplied ones");
                }
            }
            Some(Err(e)) if e != &ConversionError::NoData || log.fail_at > 1 => o.bad("C10 an error that the supplied conversion did not make"),
            _ => {}
        }
        put(&r, o);
    });
    q!("use/Ratio::try_from_pair", [n(0, 3), n(0, 3), RE, SEED], |x, o| {
        let log = Log::new(x[0].n(), x[1].n(), x[2].n() == 1);
        let seed = x[3].n();
        let den = 1 + (seed as i64).rem_euclid(12);
        let num = (seed as i64 >> 8) % 50;
        let (d, u) = (Item::new(0, den, 1, &log), Item::new(1, num, 1, &log));
        let r = guarded(&log, o, || Ratio::try_from((IntItem(d), IntItem(u))));
        log.judge(2, matches!(r, Some(Ok(_))), o);
        match &r {
            Some(Ok(_)) if log.fail_at < 2 => o.bad("C10 a failed conversion was ignored"),
            Some(Ok(c)) if c != &Ratio::from_denom_and_numer(BigInt::from(den), BigInt::from(num)) => o.bad("C10 the ratio is not the supplied one"),
            Some(Err(e)) if e != &ConversionError::NotANumber || log.fail_at > 1 => o.bad("C10 an error that the supplied conversion did not make"),
            _ => {}
        }
        put(&r, o);
    });
    q!("use/Ratio::into_pair", [K::R, n(0, 3), RE, n(0, 1)], |x, o| {
        let log = Log::new(x[1].n(), 99, x[2].n() == 1);
        let a = x[0].r();
        simrt::set_slot(&*log as *const Log as *const ());
        let mut right = true;
        let r = guarded(&log, o, || {
            let p: (Taken<0>, Taken<1>) = if x[3].n() == 1 { a.clone().into() } else { a.into() };
            right = p.0 .0 == a.get_denom() && p.1 .0 == a.get_numer();
        });
        simrt::set_slot(std::ptr::null());
        if !right {
            o.bad("C10 the parts handed to the supplied conversions are wrong");
        }
        log.judge(2, r.is_some(), o);
        put(&r.is_some(), o);
    });
    let _ = <V as Canon>::put;
    v
}

/// In-place operations whose refusal comes out of supplied code.
pub fn refusing() -> Vec<Op> {
    fn go_m(a: &mut V, x: &[&V], o: &mut Out) {
        let log = Log::new(x[1].n(), 99, false);
        let k = items(x[0].n(), 0, 1, &log).pop();
        a.mm().mul_k_mut(k.into_iter().next().unwrap());
        put(&(), o);
    }
    fn go_p(a: &mut V, x: &[&V], o: &mut Out) {
        let log = Log::new(x[1].n(), 99, false);
        let k = items(x[0].n(), 0, 1, &log).pop();
        a.pm().mul_k_mut(k.into_iter().next().unwrap());
        put(&(), o);
    }
    const SIG_M: &[K] = &[K::M, n(0, 1 << 40), n(0, 1)];
    const SIG_P: &[K] = &[K::P, n(0, 1 << 40), n(0, 1)];
    vec![
        Op { name: "Matrix::mul_k_mut/supplied", sig: SIG_M, fun: Fun::Mut(go_m), random: false },
        Op { name: "Polynomial::mul_k_mut/supplied", sig: SIG_P, fun: Fun::Mut(go_p), random: false },
    ]
}
