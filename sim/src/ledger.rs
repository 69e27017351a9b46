//! The exact reference: what every in-place operation does to integers, ratios, matrices
//! and polynomials, on the independent model arithmetic. No library code in here.
use hm_model as m;
use hm_model::{Int, Rat};
use hm_spec::{canon, Arg, RD};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U(m::Mag),
    I(Int),
    R(Rat),
    M(usize, usize, Vec<Rat>),
    P(Vec<Rat>),
    C(Rat, Rat),
    N(i128),
}

pub enum Effect {
    Done,
    /// the contract says this must be refused
    Refuse,
    /// the model has no opinion on this operation
    Unknown,
}

impl Val {
    pub fn of(a: &Arg) -> Option<Val> {
        Some(match a {
            Arg::U(v) => Val::U(m::trim(v.clone())),
            Arg::I(n, v) => Val::I(Int::new(*n, m::trim(v.clone()))),
            Arg::R(r) => Val::R(r.model()),
            Arg::M(c, h, v) => Val::M(*c, *h, v.iter().map(|x| x.model()).collect()),
            Arg::P(v) => Val::P(strip(v.iter().map(|x| x.model()).collect())),
            Arg::C(x, y) => Val::C(x.model(), y.model()),
            Arg::N(n) => Val::N(*n),
            _ => return None,
        })
    }
    pub fn arg(&self) -> Arg {
        match self {
            Val::U(v) => Arg::U(canon(v.clone())),
            Val::I(i) => Arg::I(i.neg, canon(i.mag.clone())),
            Val::R(r) => Arg::R(RD::of(r)),
            Val::M(c, h, v) => Arg::M(*c, *h, v.iter().map(RD::of).collect()),
            Val::P(v) => Arg::P(v.iter().map(RD::of).collect()),
            Val::C(x, y) => Arg::C(RD::of(x), RD::of(y)),
            Val::N(n) => Arg::N(*n),
        }
    }
    /// In limbs, roughly.
    pub fn size(&self) -> usize {
        let r = |x: &Rat| x.n.mag.len().max(x.d.len());
        match self {
            Val::U(v) => v.len(),
            Val::I(i) => i.mag.len(),
            Val::R(x) => r(x),
            Val::M(_, _, v) | Val::P(v) => v.iter().map(r).max().unwrap_or(0),
            Val::C(x, y) => r(x).max(r(y)),
            Val::N(_) => 0,
        }
    }
    /// Something that stands in a close relation to this value. Kinds from 40 give a machine
    /// integer, kinds from 30 the parts of a ratio as integers, the others a value like this one.
    pub fn mix(&self, kind: u8, d: u32) -> Val {
        let low = |v: &m::Mag| v.first().copied().unwrap_or(0) as i128;
        let pick = |v: &Vec<Rat>| v.get(d as usize % v.len().max(1)).cloned().unwrap_or_else(|| Rat::int(Int::zero()));
        if kind >= 30 {
            let part = match self {
                Val::U(v) => Int::new(false, v.clone()),
                Val::I(i) => i.clone(),
                Val::R(x) | Val::C(x, _) => if kind % 2 == 0 { x.n.clone() } else { x.den() },
                Val::M(_, _, v) | Val::P(v) => if kind % 2 == 0 { pick(v).n } else { pick(v).den() },
                Val::N(n) => Int::from_i128(*n),
            };
            if kind < 40 {
                return Val::I(if kind % 4 < 2 { part } else { part.neg().add(&Int::from_i128((d % 3) as i128)) });
            }
            let l = low(&part.mag);
            return Val::N(match kind {
                40 | 41 => l,
                42 => (1 << 32) - l,
                43 => l + 1,
                44 => -l,
                45 => (1 << 32) - 1 - l,
                46 => part.mag.len() as i128,
                47 => part.mag.last().copied().unwrap_or(0) as i128 + (d % 3) as i128 - 1,
                _ => l / (d % 9 + 1) as i128,
            });
        }
        match self {
            Val::U(v) => Val::U(mix_mag(v, kind, d)),
            Val::I(i) => {
                let g = mix_mag(&i.mag, kind, d);
                Val::I(Int::new(if d & 0x100 == 0 { i.neg } else { !i.neg }, g))
            }
            Val::R(x) => Val::R(mix_rat(x, kind, d)),
            Val::C(x, y) => Val::C(mix_rat(x, kind, d), mix_rat(y, kind, d / 7)),
            Val::M(c, h, v) => match kind % 6 {
                0 => Val::M(*c, *h, v.iter().map(|x| x.neg()).collect()),
                1 => Val::M(*c, *h, v.clone()),
                // the wrong shape
                2 => Val::M(*h, *c, v.clone()),
                3 if !v.is_empty() && *h > 1 => Val::M(*c, h - 1, v[..c * (h - 1)].to_vec()),
                _ => Val::M(*c, *h, v.iter().enumerate().map(|(i, x)| mix_rat(x, ((kind as usize + i) % 12) as u8, d.wrapping_add(i as u32))).collect()),
            },
            o => o.clone(),
        }
    }
    pub fn plus(&self, d: i32) -> Val {
        let k = Int::from_i128(d as i128);
        match self {
            Val::U(v) => {
                let s = Int::new(false, v.clone()).add(&k);
                Val::U(if s.neg { vec![] } else { s.mag })
            }
            Val::I(i) => Val::I(i.add(&k)),
            Val::R(x) => Val::R(x.add(&Rat::int(k))),
            o => o.clone(),
        }
    }
    fn mag(&self) -> &m::Mag {
        if let Val::U(v) = self { v } else { panic!("model: kind") }
    }
    fn int(&self) -> Int {
        match self {
            Val::I(i) => i.clone(),
            Val::N(n) => Int::from_i128(*n),
            Val::U(v) => Int::new(false, v.clone()),
            _ => panic!("model: kind"),
        }
    }
    fn rat(&self) -> Rat {
        match self {
            Val::R(r) => r.clone(),
            o => Rat::int(o.int()),
        }
    }
    fn n(&self) -> i128 {
        if let Val::N(n) = self { *n } else { panic!("model: kind") }
    }
}

fn mix_mag(v: &m::Mag, kind: u8, d: u32) -> m::Mag {
    let n = v.len();
    let one = vec![1u32];
    let base = m::shl(&one, 32 * n);
    let at = d as usize % n.max(1);
    match kind {
        // together with the value: exactly the next power, or all ones
        0 => m::sub(&base, v),
        1 => m::sub(&m::sub(&base, v), &one),
        2 => m::shr(v, 32 * (n / 2)),
        3 => m::trim(v[..n.div_ceil(2)].to_vec()),
        4 => m::shl(v, 32),
        5 => m::shr(v, 32),
        6 => m::mul(v, &vec![2 + d % 7]),
        7 => {
            // one limb differs
            let mut w = v.clone();
            if n > 0 {
                w[at] = if d & 0x200 == 0 { w[at].wrapping_sub(1) } else { w[at].wrapping_add(1) };
            }
            m::trim(w)
        }
        8 => {
            // same top, nothing or everything below
            let mut w = v.clone();
            for i in 0..n.saturating_sub(1 + d as usize % 3) {
                w[i] = if d & 0x200 == 0 { 0 } else { u32::MAX };
            }
            m::trim(w)
        }
        9 => m::divrem(v, &vec![1 + d % 9]).0,
        10 => m::shr(v, 32 * at),
        11 => m::add(&m::shr(v, 32 * at), &one),
        12 => {
            let mut w = v.clone();
            w.reverse();
            m::trim(w)
        }
        13 => m::mul(v, v),
        14 => base,
        15 => m::trim(v.iter().map(|w| !w).collect()),
        _ => v.clone(),
    }
}

fn mix_rat(x: &Rat, kind: u8, d: u32) -> Rat {
    let k = Rat::int(Int::from_i128(1 + (d % 9) as i128));
    match kind % 14 {
        0 => x.neg(),
        1 => k.sub(x),
        2 if !x.is_zero() => x.reci(),
        3 => Rat::new(x.n.add(&k.n), x.den()),
        4 => Rat::new(x.n.clone(), x.den().add(&k.n)),
        5 => x.mul(&k),
        6 => x.div(&k),
        7 => Rat::new(k.n.clone(), x.den()),
        8 if !x.is_zero() => x.reci().neg(),
        9 => Rat::new(x.den().add(&k.n), x.den()),
        10 => Rat::new(k.n.clone(), x.den().mul(&k.n).mul(&Int::from_i128(3))),
        11 => Rat::int(x.den()),
        12 => x.add(&k),
        _ => x.clone(),
    }
}

fn strip(v: Vec<Rat>) -> Vec<Rat> {
    let mut w: Vec<Rat> = v.into_iter().skip_while(|r| r.is_zero()).collect();
    if w.is_empty() {
        w.push(Rat::int(Int::zero()));
    }
    w
}

fn pow_int(i: &Int, e: u32) -> Int {
    Int::new(i.neg && e % 2 == 1, m::pow(&i.mag, e))
}

fn mag_of(n: i128) -> m::Mag {
    Int::from_i128(n).mag
}

/// Roughly how large the result gets, in limbs, so that histories stay affordable.
pub fn grows_to(name: &str, t: &Val, a: &[Val]) -> usize {
    let base = name.split("::").nth(1).unwrap_or("").split('/').next().unwrap_or("");
    let s = t.size();
    let b = a.first().map(|v| v.size()).unwrap_or(0);
    let n = match a.first() {
        Some(Val::N(n)) => n.unsigned_abs() as usize,
        _ => 0,
    };
    match base {
        "mul_mut" | "mul_bi_mut" | "div_bi_mut" | "mul_k_mut" => s + b,
        "div_mut" if matches!(t, Val::R(_)) => s + b,
        "add_mut" | "sub_mut" if matches!(t, Val::R(_) | Val::M(..) | Val::C(..)) => s + b + 1,
        "add_bi_mut" | "sub_bi_mut" => s + b + 1,
        "pow_u32_mut" | "pow_i32_mut" => s.max(1) * n.max(1),
        "mul_pow2_mut" => s + n / 32 + 1,
        "shift_left_mut" => s + n,
        _ => s.max(b) + 1,
    }
}

pub fn apply(name: &str, t: &mut Val, a: &[Val]) -> Effect {
    use Effect::*;
    let op = name.split("::").nth(1).unwrap_or("");
    let op = op.split('/').next().unwrap_or("");
    match t {
        Val::U(x) => {
            let arg = || -> m::Mag {
                match &a[0] {
                    Val::N(n) => mag_of(*n),
                    v => v.mag().clone(),
                }
            };
            match op {
                "add_mut" | "add_u32_mut" => *x = m::add(x, &arg()),
                "sub_mut" | "sub_u32_mut" => {
                    let y = arg();
                    if m::cmp(x, &y).is_lt() {
                        return Refuse;
                    }
                    *x = m::sub(x, &y);
                }
                "mul_mut" | "mul_u32_mut" => *x = m::mul(x, &arg()),
                "mul_pow2_mut" => *x = m::shl(x, a[0].n() as usize),
                "div_mut" | "div_u32_mut" | "rem_mut" | "rem_u32_mut" => {
                    let y = arg();
                    if y.is_empty() {
                        return Refuse;
                    }
                    let (q, r) = m::divrem(x, &y);
                    *x = if op.starts_with("div") { q } else { r };
                }
                "pow_u32_mut" => *x = m::pow(x, a[0].n() as u32),
                "shift_right_mut" => *x = m::shr(x, 32 * a[0].n() as usize),
                "shift_left_mut" => *x = m::shl(x, 32 * a[0].n() as usize),
                "slice_right_mut" => {
                    let n = a[0].n() as usize;
                    if n > x.len().max(1) {
                        return Refuse;
                    }
                    let mut y = x.clone();
                    y.truncate(n);
                    *x = m::trim(y);
                }
                _ => return Unknown,
            }
        }
        Val::I(x) => match op {
            "add_mut" | "add_i32_mut" => *x = x.add(&a[0].int()),
            "sub_mut" | "sub_i32_mut" => *x = x.sub(&a[0].int()),
            "mul_mut" | "mul_i32_mut" => *x = x.mul(&a[0].int()),
            "mul_pow2_mut" => *x = Int::new(x.neg, m::shl(&x.mag, a[0].n() as usize)),
            "div_mut" | "div_i32_mut" | "rem_mut" | "rem_i32_mut" => {
                let y = a[0].int();
                if y.is_zero() {
                    return Refuse;
                }
                *x = if op.starts_with("div") { x.div(&y) } else { x.rem(&y) };
            }
            "pow_u32_mut" => *x = pow_int(x, a[0].n() as u32),
            "neg_mut" => *x = x.neg(),
            "abs_mut" => *x = x.abs(),
            "shift_right_mut" => *x = Int::new(x.neg, m::shr(&x.mag, 32 * a[0].n() as usize)),
            "shift_left_mut" => *x = Int::new(x.neg, m::shl(&x.mag, 32 * a[0].n() as usize)),
            "slice_right_mut" => {
                let n = a[0].n() as usize;
                if n > x.mag.len().max(1) {
                    return Refuse;
                }
                let mut y = x.mag.clone();
                y.truncate(n);
                *x = Int::new(x.neg, m::trim(y));
            }
            _ => return Unknown,
        },
        Val::R(x) => match op {
            "add_mut" | "add_bi_mut" | "add_i32_mut" => *x = x.add(&a[0].rat()),
            "sub_mut" | "sub_bi_mut" | "sub_i32_mut" => *x = x.sub(&a[0].rat()),
            "mul_mut" | "mul_bi_mut" | "mul_i32_mut" => *x = x.mul(&a[0].rat()),
            "div_mut" | "div_bi_mut" | "div_i32_mut" => {
                let y = a[0].rat();
                if y.is_zero() {
                    return Refuse;
                }
                *x = x.div(&y);
            }
            "pow_i32_mut" => {
                let e = a[0].n();
                if e < 0 && x.is_zero() {
                    return Refuse;
                }
                let k = e.unsigned_abs() as u32;
                let y = Rat { n: pow_int(&x.n, k), d: m::pow(&x.d, k) };
                *x = if e < 0 { y.reci() } else { y };
            }
            "neg_mut" => *x = x.neg(),
            "abs_mut" => *x = x.abs(),
            "reci_mut" => {
                if x.is_zero() {
                    return Refuse;
                }
                *x = x.reci();
            }
            "truncate_mut" => *x = Rat::int(x.trunc()),
            "frac_mut" => *x = x.sub(&Rat::int(x.trunc())),
            _ => return Unknown,
        },
        Val::M(c, h, x) => match op {
            "add_mut" => {
                if let Val::M(c2, h2, y) = &a[0] {
                    if (&*c, &*h) != (c2, h2) {
                        return Refuse;
                    }
                    for (p, q) in x.iter_mut().zip(y) {
                        *p = p.add(q);
                    }
                } else {
                    return Unknown;
                }
            }
            "mul_k_mut" if name.ends_with("mul_k_mut") => {
                let k = a[0].rat();
                for p in x.iter_mut() {
                    *p = p.mul(&k);
                }
            }
            "transpose_mut" => {
                let mut y = vec![];
                for i in 0..*c {
                    for j in 0..*h {
                        y.push(x[j * *c + i].clone());
                    }
                }
                *x = y;
                std::mem::swap(c, h);
            }
            "get_mut" => {
                let (i, j) = (a[0].n() as usize, a[1].n() as usize);
                if i >= *h || j >= *c {
                    return Refuse;
                }
                x[i * *c + j] = a[2].rat();
            }
            _ => return Unknown,
        },
        Val::P(x) => match op {
            "mul_k_mut" if name.ends_with("mul_k_mut") => {
                let k = a[0].rat();
                *x = strip(x.iter().map(|p| p.mul(&k)).collect());
            }
            "differentiate_mut" => {
                let n = x.len();
                let mut y: Vec<Rat> = x.iter().enumerate().map(|(i, p)| p.mul(&Rat::int(Int::from_i128((n - 1 - i) as i128)))).collect();
                y.pop();
                *x = strip(y);
            }
            _ => return Unknown,
        },
        Val::C(x, y) => match op {
            "add_mut" => {
                if let Val::C(p, q) = &a[0] {
                    *x = x.add(p);
                    *y = y.add(q);
                } else {
                    return Unknown;
                }
            }
            "add_i32_mut" => *x = x.add(&a[0].rat()),
            _ => return Unknown,
        },
        Val::N(_) => return Unknown,
    }
    Done
}
