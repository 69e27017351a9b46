//! Plain-data descriptions of arguments: what replay files contain, how they are generated,
//! and how near-identical ones are derived from each other. No library code in here.
use simrt::Rng;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RD {
    pub neg: bool,
    pub n: Vec<u32>, // canonical limbs, [0] for zero
    pub d: Vec<u32>, // positive, coprime
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Arg {
    U(Vec<u32>),
    I(bool, Vec<u32>),
    R(RD),
    F(i128, i64), // m * 2^e
    M(usize, usize, Vec<RD>),
    P(Vec<RD>),
    C(RD, RD),
    N(i128),
    D(u64),
    S(String),
    L(Vec<Arg>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    U,
    Us,
    Ub,
    I,
    Is,
    Ib,
    R,
    Rs,
    Rm,
    F,
    Fs,
    M,
    Mq,
    Mq5,
    P,
    C,
    Int(i128, i128),
    D,
    SInt,
    SRat,
    SF,
    LU,
    LUx,
    LR,
    Pts,
}

// ---------------------------------------------------------------- text form
fn limbs(v: &[u32]) -> String {
    v.iter().map(|w| format!("{w:x}")).collect::<Vec<_>>().join(".")
}

impl RD {
    pub fn text(&self) -> String {
        format!("{}{}/{}", if self.neg { "-" } else { "+" }, limbs(&self.n), limbs(&self.d))
    }
    fn parse(s: &str) -> Option<RD> {
        let neg = s.starts_with('-');
        let (a, b) = s[1..].split_once('/')?;
        Some(RD { neg, n: plimbs(a)?, d: plimbs(b)? })
    }
    pub fn int(n: i64) -> RD {
        let m = n.unsigned_abs();
        let v = if m >> 32 > 0 { vec![m as u32, (m >> 32) as u32] } else { vec![m as u32] };
        RD { neg: n < 0, n: v, d: vec![1] }
    }
    pub fn make(neg: bool, n: Vec<u32>, d: Vec<u32>) -> RD {
        let r = hm_model::Rat::new(hm_model::Int::new(neg, n), hm_model::Int::new(false, d));
        RD { neg: r.n.neg, n: canon(r.n.mag), d: canon(r.d) }
    }
    pub fn model(&self) -> hm_model::Rat {
        hm_model::Rat { n: hm_model::Int::new(self.neg, self.n.clone()), d: self.d.clone() }
    }
    pub fn of(r: &hm_model::Rat) -> RD {
        RD { neg: r.n.neg, n: canon(r.n.mag.clone()), d: canon(r.d.clone()) }
    }
}

pub fn canon(mut v: Vec<u32>) -> Vec<u32> {
    while v.len() > 1 && v.last() == Some(&0) {
        v.pop();
    }
    if v.is_empty() {
        v.push(0);
    }
    v
}

fn plimbs(s: &str) -> Option<Vec<u32>> {
    s.split('.').map(|w| u32::from_str_radix(w, 16).ok()).collect()
}

fn split_top(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut d = 0;
    let mut st = 0;
    for (i, c) in s.char_indices() {
        match c {
            '[' => d += 1,
            ']' => d -= 1,
            ',' if d == 0 => {
                v.push(&s[st..i]);
                st = i + 1;
            }
            _ => {}
        }
    }
    if !s.is_empty() {
        v.push(&s[st..]);
    }
    v
}

impl Arg {
    pub fn text(&self) -> String {
        match self {
            Arg::U(v) => format!("u{}", limbs(v)),
            Arg::I(n, v) => format!("i{}{}", if *n { "-" } else { "+" }, limbs(v)),
            Arg::R(r) => format!("r{}", r.text()),
            Arg::F(m, e) => format!("f{m}@{e}"),
            Arg::M(c, r, v) => format!("m{c}x{r}[{}]", v.iter().map(|x| x.text()).collect::<Vec<_>>().join(",")),
            Arg::P(v) => format!("p[{}]", v.iter().map(|x| x.text()).collect::<Vec<_>>().join(",")),
            Arg::C(x, y) => format!("c[{},{}]", x.text(), y.text()),
            Arg::N(n) => format!("n{n}"),
            Arg::D(b) => format!("d{b:x}"),
            Arg::S(s) => format!("s{}", s.bytes().map(|b| format!("{b:02x}")).collect::<String>()),
            Arg::L(v) => format!("[{}]", v.iter().map(|x| x.text()).collect::<Vec<_>>().join(",")),
        }
    }
    pub fn parse(s: &str) -> Option<Arg> {
        let c = s.chars().next()?;
        let r = &s[1..];
        Some(match c {
            'u' => Arg::U(plimbs(r)?),
            'i' => Arg::I(r.starts_with('-'), plimbs(&r[1..])?),
            'r' => Arg::R(RD::parse(r)?),
            'f' => {
                let (a, b) = r.split_once('@')?;
                Arg::F(a.parse().ok()?, b.parse().ok()?)
            }
            'm' => {
                let (dim, body) = r.split_once('[')?;
                let (a, b) = dim.split_once('x')?;
                let v: Option<Vec<RD>> = split_top(body.strip_suffix(']')?).iter().map(|x| RD::parse(x)).collect();
                Arg::M(a.parse().ok()?, b.parse().ok()?, v?)
            }
            'p' => {
                let v: Option<Vec<RD>> = split_top(r.strip_prefix('[')?.strip_suffix(']')?).iter().map(|x| RD::parse(x)).collect();
                Arg::P(v?)
            }
            'c' => {
                let v: Option<Vec<RD>> = split_top(r.strip_prefix('[')?.strip_suffix(']')?).iter().map(|x| RD::parse(x)).collect();
                let mut v = v?.into_iter();
                Arg::C(v.next()?, v.next()?)
            }
            'n' => Arg::N(r.parse().ok()?),
            'd' => Arg::D(u64::from_str_radix(r, 16).ok()?),
            's' => {
                let b: Option<Vec<u8>> = (0..r.len() / 2).map(|i| u8::from_str_radix(&r[2 * i..2 * i + 2], 16).ok()).collect();
                Arg::S(String::from_utf8(b?).ok()?)
            }
            '[' => {
                let v: Option<Vec<Arg>> = split_top(r.strip_suffix(']')?).iter().map(|x| Arg::parse(x)).collect();
                Arg::L(v?)
            }
            _ => return None,
        })
    }
}

// ---------------------------------------------------------------- generation
pub fn gen_limbs(r: &mut Rng, len: usize) -> Vec<u32> {
    let len = len.max(1);
    let style = r.below(12);
    let mut v: Vec<u32> = (0..len)
        .map(|i| match style {
            0 => u32::MAX,
            1 => {
                if i + 1 == len {
                    1 << r.below(32)
                } else {
                    0
                }
            }
            2 => *r.pick(&[0, 1, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1]),
            3 => {
                if r.below(4) == 0 {
                    r.next() as u32
                } else {
                    0
                }
            }
            4 => {
                if r.below(4) == 0 {
                    r.next() as u32
                } else {
                    u32::MAX
                }
            }
            5 => {
                if i == 0 {
                    r.next() as u32
                } else {
                    u32::MAX
                }
            }
            6 => {
                if i + 1 == len {
                    r.below(4) as u32
                } else {
                    r.next() as u32
                }
            }
            _ => r.next() as u32,
        })
        .collect();
    if *v.last().unwrap() == 0 && (len > 1 || r.below(3) > 0) {
        *v.last_mut().unwrap() = 1 + r.below(9) as u32;
    }
    canon(v)
}

fn any_len(r: &mut Rng) -> usize {
    match r.below(20) {
        0..=5 => 1,
        6..=9 => 2,
        10..=12 => 3,
        13..=15 => r.range(4, 8) as usize,
        16..=18 => r.range(9, 24) as usize,
        _ => r.range(25, 60) as usize,
    }
}

fn small(r: &mut Rng) -> Vec<u32> {
    match r.below(8) {
        0 => vec![0],
        1 => vec![1],
        2 => vec![r.below(20) as u32],
        3 | 4 => vec![r.below(2000) as u32],
        5 => vec![r.next() as u32],
        _ => canon(vec![r.next() as u32, r.below(3) as u32]),
    }
}

pub fn gen_u(r: &mut Rng) -> Vec<u32> {
    if r.below(5) == 0 {
        return small(r);
    }
    let l = any_len(r);
    gen_limbs(r, l)
}

pub fn gen_rd(r: &mut Rng, size: u8) -> RD {
    let (n, d) = match size {
        0 => (vec![r.below(30) as u32], vec![1 + r.below(12) as u32]),
        1 => (small(r), canon(vec![1 + r.below(1 << 31) as u32])),
        _ => {
            let a = gen_u(r);
            let mut b = gen_u(r);
            if b == [0] {
                b = vec![1];
            }
            (a, b)
        }
    };
    let d = if r.below(6) == 0 { vec![1] } else { d };
    RD::make(r.below(2) == 0, n, d)
}

fn dec_string(r: &mut Rng) -> String {
    hm_model::dec(&hm_model::trim(gen_u(r)))
}

pub fn gen(k: K, r: &mut Rng) -> Arg {
    match k {
        K::U => Arg::U(gen_u(r)),
        K::Us => Arg::U(small(r)),
        K::Ub => {
            let l = r.range(50, 150) as usize;
            Arg::U(gen_limbs(r, l))
        }
        K::I | K::Is | K::Ib => {
            let v = match k {
                K::I => gen_u(r),
                K::Is => small(r),
                _ => {
                    let l = r.range(50, 150) as usize;
                    gen_limbs(r, l)
                }
            };
            let neg = v != [0] && r.below(2) == 0;
            Arg::I(neg, v)
        }
        K::R => {
            let z = r.below(3) as u8;
            Arg::R(gen_rd(r, z))
        }
        K::Rs => Arg::R(gen_rd(r, 0)),
        K::Rm => Arg::R(gen_rd(r, 1)),
        K::F => {
            let m = match r.below(4) {
                0 => r.below(100) as i128,
                1 => r.next() as i128,
                _ => ((r.next() as i128) << 62) | r.next() as i128,
            };
            let m = if r.below(2) == 0 { -m } else { m };
            let e = match r.below(4) {
                0 => 0,
                1 => -(r.below(130) as i64),
                2 => r.below(60) as i64,
                _ => r.below(400) as i64 - 200,
            };
            Arg::F(m, e)
        }
        K::Fs => {
            let m = r.next() as i64 as i128;
            Arg::F(m, -(r.range(56, 66) as i64))
        }
        K::M => {
            let m = if r.below(6) == 0 { 9 } else { 4 };
            let (c, h) = (r.range(1, m) as usize, r.range(1, m) as usize);
            gen_m(r, c, h)
        }
        K::Mq => {
            let n = r.range(1, 4) as usize;
            gen_m(r, n, n)
        }
        K::Mq5 => gen_m(r, 5, 5),
        K::P => {
            let m = if r.below(6) == 0 { 14 } else { 6 };
            let n = r.range(1, m) as usize;
            let mut v: Vec<RD> = (0..n).map(|_| gen_rd(r, 0)).collect();
            if v[0].n == [0] && n > 1 {
                v[0] = RD::int(1 + r.below(5) as i64);
            }
            Arg::P(v)
        }
        K::C => {
            let (a, b) = (r.below(3) as u8, r.below(3) as u8);
            Arg::C(gen_rd(r, a), gen_rd(r, b))
        }
        K::Int(lo, hi) => {
            let span = (hi - lo) as u128;
            let x = match r.below(10) {
                0 => lo,
                1 => hi,
                2 => lo + ((hi - lo) / 2),
                3 | 4 if lo <= 0 && hi >= 20 => r.below(20) as i128,
                5 | 6 if lo <= 0 && hi > 8 => {
                    // any order of magnitude
                    let m = (r.next() >> r.below(64)) as i128;
                    let m = if lo < 0 && r.below(2) == 0 { -m } else { m };
                    (m % hi.saturating_add(1)).max(lo)
                }
                _ => lo + (((r.next() as u128) << 64 | r.next() as u128) % (span.saturating_add(1)).max(1)) as i128,
            };
            Arg::N(x)
        }
        K::D => Arg::D(match r.below(8) {
            0 => (r.below(2000) as f64 / 16.0).to_bits(),
            1 => (-(r.below(2000) as f64) / 7.0).to_bits(),
            2 => 0,
            3 => f64::INFINITY.to_bits(),
            4 => f64::NAN.to_bits(),
            5 => r.below(1 << 40),
            _ => {
                let b = r.next();
                let e = (1023 - 80 + r.below(160)) << 52;
                (b & !(0x7ff << 52)) | e
            }
        }),
        K::SInt => {
            let d = dec_string(r);
            Arg::S(match r.below(8) {
                0 => format!("0x{:x}", r.next()),
                1 => format!("0b{:b}", r.next()),
                2 => format!("0o{:o}", r.next()),
                3 => format!("-{d}"),
                4 => String::new(),
                5 => format!("{d}z{d}"),
                6 => format!("{}e{}", r.below(1000), r.below(30)),
                _ => d,
            })
        }
        K::SRat | K::SF => {
            let d = r.below(1_000_000_000).to_string();
            let f = r.below(1_000_000).to_string();
            Arg::S(match r.below(8) {
                0 => d,
                1 => format!("-{d}.{f}"),
                2 => format!("{d}.{f}e{}", r.below(40)),
                3 => format!("{d}.{f}e-{}", r.below(40)),
                4 => format!("{d}..{f}"),
                5 => ".".to_string(),
                6 => format!(".{f}"),
                _ => format!("{d}.{f}"),
            })
        }
        K::LU => {
            let n = r.below(7) as usize;
            Arg::L((0..n).map(|_| Arg::U(if r.below(2) == 0 { small(r) } else { gen_u(r) })).collect())
        }
        K::LUx => {
            let n = if r.below(2) == 0 { r.below(7) } else { r.below(45) } as usize;
            let big = r.below(3) == 0 && n < 8;
            let zeros = r.below(3);
            Arg::L(
                (0..n)
                    .map(|_| {
                        Arg::U(match r.below(12) {
                            0 if zeros > 0 => vec![0],
                            1 => vec![1],
                            _ if big => gen_u(r),
                            _ => vec![1 + small(r)[0] / 2],
                        })
                    })
                    .collect(),
            )
        }
        K::LR => {
            let n = r.below(7) as usize;
            Arg::L((0..n).map(|_| Arg::R(gen_rd(r, 1))).collect())
        }
        K::Pts => {
            let n = r.range(1, 4) as usize;
            let mut v = vec![];
            for i in 0..n {
                let x = if r.below(20) == 0 { 0 } else { i as i64 * 3 - 4 + r.below(3) as i64 };
                v.push(Arg::R(RD::int(x)));
                v.push(Arg::R(gen_rd(r, 0)));
            }
            Arg::L(v)
        }
    }
}

fn gen_m(r: &mut Rng, c: usize, h: usize) -> Arg {
    let wide = c * h <= 16 && r.below(8) == 0;
    Arg::M(c, h, (0..c * h).map(|_| { let z = (wide && r.below(3) == 0) as u8; gen_rd(r, z) }).collect())
}

/// A different argument that agrees with `a` in most of what a sloppy key would look at:
/// length, low limb, high limb, sum or exclusive-or of limbs, sign, magnitude, neighbours.
pub fn neighbour(a: &Arg, k: K, r: &mut Rng) -> Arg {
    let b = match a {
        Arg::U(v) => Arg::U(near_limbs(v, r)),
        Arg::I(n, v) => {
            if r.below(3) == 0 && v != &vec![0] {
                Arg::I(!n, v.clone())
            } else {
                let w = near_limbs(v, r);
                Arg::I(*n && w != [0], w)
            }
        }
        Arg::R(x) => Arg::R(near_rd(x, r)),
        Arg::F(m, e) => match r.below(5) {
            0 => Arg::F(-m, *e),
            1 => Arg::F(*m, e + 1),
            4 => Arg::F(*m, -e),
            2 => Arg::F(m ^ 1, *e),
            _ => Arg::F(m ^ (1 << r.below(60)), *e),
        },
        Arg::M(c, h, v) => {
            let mut v = v.clone();
            if v.is_empty() {
                return a.clone();
            }
            match r.below(4) {
                0 if c == h && *c > 1 => {
                    let mut w = v.clone();
                    for i in 0..*c {
                        for j in 0..*h {
                            w[i * h + j] = v[j * c + i].clone();
                        }
                    }
                    v = w;
                }
                1 if v.len() > 1 => {
                    let i = r.below(v.len() as u64 - 1) as usize;
                    let j = if r.below(2) == 0 { i + 1 } else { r.below(v.len() as u64) as usize };
                    v.swap(i, j);
                }
                _ => {
                    let i = r.below(v.len() as u64) as usize;
                    v[i] = near_rd(&v[i].clone(), r);
                }
            }
            Arg::M(*c, *h, v)
        }
        Arg::P(v) => {
            let mut v = v.clone();
            if v.len() > 1 && r.below(3) == 0 {
                let i = r.range(1, v.len() as u64 - 1) as usize;
                v.swap(i - 1, i);
            } else {
                let i = r.below(v.len() as u64) as usize;
                v[i] = near_rd(&v[i].clone(), r);
            }
            if v[0].n == [0] && v.len() > 1 {
                v[0] = RD::int(1);
            }
            Arg::P(v)
        }
        Arg::C(x, y) => match r.below(3) {
            0 => Arg::C(y.clone(), x.clone()),
            1 => Arg::C(near_rd(x, r), y.clone()),
            _ => Arg::C(x.clone(), near_rd(y, r)),
        },
        Arg::N(n) => match k {
            K::Int(lo, hi) => Arg::N(match r.below(6) {
                4 => n.saturating_add(256).clamp(lo, hi),
                5 => (n ^ (1 << (8 * (1 + r.below(7))))).clamp(lo, hi),
                0 => n.saturating_add(1).min(hi),
                1 => n.saturating_sub(1).max(lo),
                2 => n.saturating_neg().clamp(lo, hi),
                _ => (n ^ (1 << r.below(6))).clamp(lo, hi),
            }),
            _ => Arg::N(n.saturating_add(1)),
        },
        Arg::D(b) => Arg::D(b ^ (1 << *r.pick(&[0, 1, 20, 40, 51, 52, 63]))),
        Arg::S(s) => {
            let mut c: Vec<char> = s.chars().collect();
            if !c.is_empty() {
                let i = r.below(c.len() as u64) as usize;
                if c[i].is_ascii_digit() {
                    c[i] = (b'1' + (c[i] as u8 - b'0') % 9) as char;
                } else if r.below(2) == 0 {
                    c.swap_remove(i);
                }
            } else {
                c.push('7');
            }
            Arg::S(c.into_iter().collect())
        }
        Arg::L(v) => {
            let mut v = v.clone();
            if v.is_empty() {
                return gen(k, r);
            }
            let i = r.below(v.len() as u64) as usize;
            if k == K::LU || k == K::LUx || k == K::LR {
                match r.below(4) {
                    0 => {
                        v.remove(i);
                    }
                    1 => v.reverse(),
                    2 => {
                        let j = r.below(v.len() as u64) as usize;
                        v.swap(i, j);
                    }
                    _ => v[i] = neighbour(&v[i].clone(), k, r),
                }
            } else {
                let i = i | 1;
                if i < v.len() {
                    v[i] = neighbour(&v[i].clone(), k, r);
                }
            }
            Arg::L(v)
        }
    };
    b
}

fn near_rd(x: &RD, r: &mut Rng) -> RD {
    match r.below(5) {
        0 => RD::make(!x.neg, x.n.clone(), x.d.clone()),
        1 if x.n != [0] => RD::make(x.neg, x.d.clone(), x.n.clone()),
        2 => RD::make(x.neg, near_limbs(&x.n, r), x.d.clone()),
        3 => {
            let d = near_limbs(&x.d, r);
            RD::make(x.neg, x.n.clone(), if d == [0] { vec![1] } else { d })
        }
        _ => {
            let n = hm_model::add(&hm_model::trim(x.n.clone()), &hm_model::trim(x.d.clone()));
            RD::make(x.neg, n, x.d.clone())
        }
    }
}

fn near_limbs(v: &[u32], r: &mut Rng) -> Vec<u32> {
    let mut v = v.to_vec();
    let n = v.len();
    let two = |r: &mut Rng| {
        let i = r.below(n as u64) as usize;
        let j = (i + 1 + r.below(n as u64 - 1) as usize) % n;
        (i, j)
    };
    match r.below(18) {
        0 => v[0] = v[0].wrapping_add(1),
        1 => v[0] = v[0].wrapping_sub(1),
        2 => v[n - 1] = r.next() as u32 | 1,
        3 if n > 1 => v[n / 2] = r.next() as u32,
        4 if n > 1 => v.swap(0, n - 1),
        5 if n > 1 => {
            v[0] ^= 0x10;
            v[n - 1] ^= 0x10;
        }
        6 => v.push(1 + r.below(3) as u32),
        7 if n > 1 => {
            v.pop();
        }
        8 if n > 2 => {
            for w in v[2..].iter_mut() {
                *w = r.next() as u32;
            }
        }
        // the same limbs in another order
        9 | 10 if n > 1 => {
            let (i, j) = two(r);
            v.swap(i, j);
        }
        11 if n > 1 => v.reverse(),
        12 if n > 2 => {
            let k = 1 + r.below(n as u64 - 1) as usize;
            v.rotate_left(k);
        }
        // the same sum of limbs
        13 if n > 1 => {
            let (i, j) = two(r);
            let d = *r.pick(&[1, 2, 1 << 16, 1 << 31]);
            v[i] = v[i].wrapping_add(d);
            v[j] = v[j].wrapping_sub(d);
        }
        // all but one limb the same, the ends in particular
        14 if n > 2 => {
            let i = 1 + r.below(n as u64 - 2) as usize;
            v[i] = r.next() as u32;
        }
        // everything but the ends different
        15 if n > 2 => {
            for w in v[1..n - 1].iter_mut() {
                *w = r.next() as u32;
            }
        }
        // a multiple of a word away
        16 => v.insert(0, 0),
        _ => {
            let i = r.below(n as u64) as usize;
            v[i] ^= 1 << r.below(32);
        }
    }
    if *v.last().unwrap() == 0 && n > 1 {
        *v.last_mut().unwrap() = 1 + r.below(3) as u32;
    }
    canon(v)
}

// ---------------------------------------------------------------- constants the code compares with
fn around(c: u64, r: &mut Rng) -> i128 {
    let v = if c >> 63 == 1 && r.below(2) == 0 { c as i64 as i128 } else if c >> 31 == 1 && c >> 32 == 0 && r.below(2) == 0 { c as u32 as i32 as i128 } else { c as i128 };
    match r.below(6) {
        0 => v - 1,
        1 => v + 1,
        _ => v,
    }
}

fn limbs_of(mut v: u128) -> Vec<u32> {
    let mut o = vec![];
    while v > 0 {
        o.push(v as u32);
        v >>= 32;
    }
    canon(o)
}

/// A magnitude in which the constant plays some part: length, a limb, the value, a power of two.
pub fn tweak_limbs(v: &[u32], c: u64, long: bool, r: &mut Rng) -> Vec<u32> {
    let x = around(c, r);
    let u = x.unsigned_abs();
    let mut v = v.to_vec();
    let n = v.len();
    match r.below(8) {
        0 | 1 if u <= if long { 160 } else { 64 } => {
            let l = u as usize;
            return gen_limbs(r, l);
        }
        2 => v[r.below(n as u64) as usize] = u as u32,
        3 => v[n - 1] = u as u32,
        4 => v[0] = u as u32,
        5 if u <= if long { 5000 } else { 2000 } => {
            let mut w = vec![0; u as usize / 32 + 1];
            w[u as usize / 32] = 1 << (u % 32);
            match r.below(3) {
                0 => w[0] |= 1,
                1 => w = hm_model::sub(&w, &vec![1]),
                _ => {}
            }
            return canon(w);
        }
        6 => {
            let d = hm_model::trim(limbs_of(u));
            return canon(hm_model::mul(&hm_model::trim(v), &d));
        }
        _ => return limbs_of(u),
    }
    canon(v)
}

pub fn tweak(a: &[Arg], sig: &[K], consts: &[u64], r: &mut Rng) -> Vec<Arg> {
    let mut b = a.to_vec();
    if b.is_empty() || consts.is_empty() {
        return b;
    }
    let times = 1 + (r.below(3) == 0) as usize;
    for _ in 0..times {
        let i = r.below(b.len() as u64) as usize;
        let c = *r.pick(consts);
        b[i] = tweak_arg(&b[i].clone(), sig[i], c, r);
    }
    b
}

fn tweak_rd(x: &RD, c: u64, r: &mut Rng) -> RD {
    if r.below(2) == 0 {
        RD::make(x.neg, tweak_limbs(&x.n, c, false, r), x.d.clone())
    } else {
        let d = tweak_limbs(&x.d, c, false, r);
        RD::make(x.neg, x.n.clone(), if d == [0] { vec![1] } else { d })
    }
}

fn tweak_arg(a: &Arg, k: K, c: u64, r: &mut Rng) -> Arg {
    match a {
        Arg::U(v) => match k {
            K::Us => Arg::U(limbs_of(around(c, r).unsigned_abs() % (3 << 32))),
            _ => Arg::U(tweak_limbs(v, c, true, r)),
        },
        Arg::I(n, v) => {
            let w = match k {
                K::Is => limbs_of(around(c, r).unsigned_abs() % (3 << 32)),
                _ => tweak_limbs(v, c, true, r),
            };
            Arg::I(*n && w != [0], w)
        }
        Arg::R(x) => match k {
            K::R => Arg::R(tweak_rd(x, c, r)),
            _ => {
                let v = limbs_of(around(c, r).unsigned_abs() % (1 << 31));
                if r.below(2) == 0 { Arg::R(RD::make(x.neg, v, x.d.clone())) } else { Arg::R(RD::make(x.neg, x.n.clone(), if v == [0] { vec![1] } else { v })) }
            }
        },
        Arg::F(m, e) => {
            let x = around(c, r);
            match r.below(4) {
                0 => Arg::F(x, *e),
                1 if k == K::F && x.unsigned_abs() < 400 => Arg::F(*m, x as i64),
                2 if k == K::F && x.unsigned_abs() < 400 => Arg::F(*m, -(x as i64)),
                _ => Arg::F((m & !0xffff_ffff) | (x & 0xffff_ffff), *e),
            }
        }
        Arg::M(w, h, v) => {
            let mut v = v.clone();
            let x = around(c, r);
            match r.below(4) {
                0 if k == K::M && (1..=6).contains(&x) => {
                    let h = *h.min(&6);
                    return gen_m(r, x as usize, h);
                }
                1 if k == K::M && (1..=6).contains(&x) => {
                    let w = *w.min(&6);
                    return gen_m(r, w, x as usize);
                }
                2 if k == K::Mq && (1..=5).contains(&x) => return gen_m(r, x as usize, x as usize),
                _ if !v.is_empty() => {
                    let i = r.below(v.len() as u64) as usize;
                    v[i] = RD::int((x % (1 << 40)) as i64);
                }
                _ => {}
            }
            Arg::M(*w, *h, v)
        }
        Arg::P(v) => {
            let mut v = v.clone();
            let x = around(c, r);
            if (1..=12).contains(&x) && r.below(2) == 0 {
                let n = x as usize;
                v = (0..n).map(|_| gen_rd(r, 0)).collect();
                if v[0].n == [0] && n > 1 {
                    v[0] = RD::int(1);
                }
            } else {
                let i = r.below(v.len() as u64) as usize;
                v[i] = RD::int((x % (1 << 40)) as i64);
                if v[0].n == [0] && v.len() > 1 {
                    v[0] = RD::int(1);
                }
            }
            Arg::P(v)
        }
        Arg::C(x, y) => {
            if r.below(2) == 0 {
                Arg::C(tweak_rd(x, c, r), y.clone())
            } else {
                Arg::C(x.clone(), tweak_rd(y, c, r))
            }
        }
        Arg::N(n) => match k {
            K::Int(lo, hi) => {
                let x = around(c, r);
                Arg::N(match r.below(4) {
                    0 => -x,
                    1 if (0..100).contains(&x) => 1 << x,
                    _ => x,
                }
                .clamp(lo, hi))
            }
            _ => Arg::N(*n),
        },
        Arg::D(b) => Arg::D(match r.below(3) {
            0 => (around(c, r) as f64).to_bits(),
            1 => c,
            _ => (b & !(0x7ff << 52)) | (c & 0x7ff) << 52,
        }),
        Arg::S(s) => {
            let x = around(c, r);
            let mut s = s.clone();
            let s = match r.below(4) {
                0 if (1..=600).contains(&x) => {
                    let n = x as usize;
                    s.truncate(n);
                    while s.len() < n {
                        s.push((b'0' + r.below(10) as u8) as char);
                    }
                    s
                }
                1 => x.to_string(),
                2 if !s.is_empty() && (32..127).contains(&x) => {
                    let i = r.below(s.len() as u64) as usize;
                    if s.is_char_boundary(i) {
                        s.insert(i, x as u8 as char);
                    }
                    s
                }
                _ if (0..=40).contains(&x) => format!("{}e{x}", r.below(1000)),
                _ => s,
            };
            Arg::S(s)
        }
        Arg::L(v) => {
            let mut v = v.clone();
            let x = around(c, r);
            if (0..=80).contains(&x) && (k == K::LUx || x <= 12) && k != K::Pts && r.below(2) == 0 {
                let n = x as usize;
                v.truncate(n);
                while v.len() < n {
                    v.push(if k == K::LR { Arg::R(gen_rd(r, 0)) } else { Arg::U(vec![1 + r.below(900) as u32]) });
                }
            } else if !v.is_empty() {
                let i = r.below(v.len() as u64) as usize;
                v[i] = match &v[i] {
                    Arg::U(w) => Arg::U(tweak_limbs(w, c, false, r)),
                    Arg::R(w) if k != K::Pts || i % 2 == 1 => Arg::R(tweak_rd(w, c, r)),
                    w => w.clone(),
                };
            }
            Arg::L(v)
        }
    }
}
