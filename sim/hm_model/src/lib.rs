//! Reference arithmetic, written for obviousness and sharing no code with the library:
//! schoolbook limbs, shift-and-subtract division, binary greatest common divisor.
use std::cmp::Ordering;

pub type Mag = Vec<u32>; // little endian, no leading zero limb, empty is zero

pub fn trim(mut a: Mag) -> Mag {
    while a.last() == Some(&0) {
        a.pop();
    }
    a
}

pub fn cmp(a: &Mag, b: &Mag) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}

pub fn add(a: &Mag, b: &Mag) -> Mag {
    let mut r = Vec::new();
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) {
        let s = *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
        r.push(s as u32);
        c = s >> 32;
    }
    if c > 0 {
        r.push(c as u32);
    }
    trim(r)
}

/// a - b, b <= a
pub fn sub(a: &Mag, b: &Mag) -> Mag {
    assert!(cmp(a, b) != Ordering::Less);
    let mut r = Vec::new();
    let mut c = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - c;
        c = 0;
        if s < 0 {
            s += 1 << 32;
            c = 1;
        }
        r.push(s as u32);
    }
    trim(r)
}

pub fn mul(a: &Mag, b: &Mag) -> Mag {
    let mut r = vec![0u32; a.len() + b.len() + 1];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let s = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = s as u32;
            c = s >> 32;
        }
        let mut k = i + b.len();
        while c > 0 {
            let s = r[k] as u64 + c;
            r[k] = s as u32;
            c = s >> 32;
            k += 1;
        }
    }
    trim(r)
}

pub fn bits(a: &Mag) -> usize {
    match a.last() {
        None => 0,
        Some(t) => (a.len() - 1) * 32 + (32 - t.leading_zeros() as usize),
    }
}

pub fn bit(a: &Mag, i: usize) -> bool {
    a.get(i / 32).is_some_and(|w| (w >> (i % 32)) & 1 == 1)
}

pub fn shl(a: &Mag, n: usize) -> Mag {
    if a.is_empty() {
        return vec![];
    }
    let mut r = vec![0u32; n / 32];
    let k = n % 32;
    let mut c = 0u64;
    for &w in a {
        let s = ((w as u64) << k) | c;
        r.push(s as u32);
        c = s >> 32;
    }
    r.push(c as u32);
    trim(r)
}

pub fn shr(a: &Mag, n: usize) -> Mag {
    if n / 32 >= a.len() {
        return vec![];
    }
    let k = n % 32;
    let src = &a[n / 32..];
    let mut r = Vec::new();
    for i in 0..src.len() {
        let hi = *src.get(i + 1).unwrap_or(&0) as u64;
        r.push((((hi << 32) | src[i] as u64) >> k) as u32);
    }
    trim(r)
}

pub fn divrem(a: &Mag, b: &Mag) -> (Mag, Mag) {
    assert!(!b.is_empty());
    if cmp(a, b) == Ordering::Less {
        return (vec![], a.clone());
    }
    if b.len() == 1 {
        let d = b[0] as u64;
        let mut q = vec![0u32; a.len()];
        let mut r = 0u64;
        for i in (0..a.len()).rev() {
            let x = (r << 32) | a[i] as u64;
            q[i] = (x / d) as u32;
            r = x % d;
        }
        return (trim(q), trim(vec![r as u32]));
    }
    let mut q = vec![0u32; a.len()];
    let mut r: Mag = vec![0; b.len() + 1];
    // r = 2r + next bit; subtract b when possible
    for i in (0..bits(a)).rev() {
        let mut c = bit(a, i) as u32;
        for w in r.iter_mut() {
            let n = *w >> 31;
            *w = (*w << 1) | c;
            c = n;
        }
        let ge = r[b.len()] > 0 || {
            let mut o = Ordering::Equal;
            for j in (0..b.len()).rev() {
                if r[j] != b[j] {
                    o = r[j].cmp(&b[j]);
                    break;
                }
            }
            o != Ordering::Less
        };
        if ge {
            let mut c = 0i64;
            for j in 0..r.len() {
                let mut s = r[j] as i64 - *b.get(j).unwrap_or(&0) as i64 - c;
                c = 0;
                if s < 0 {
                    s += 1 << 32;
                    c = 1;
                }
                r[j] = s as u32;
            }
            q[i / 32] |= 1 << (i % 32);
        }
    }
    (trim(q), trim(r))
}

pub fn gcd(a: &Mag, b: &Mag) -> Mag {
    let (mut a, mut b) = (a.clone(), b.clone());
    if a.is_empty() {
        return b;
    }
    if b.is_empty() {
        return a;
    }
    let tz = |x: &Mag| (0..).find(|&i| bit(x, i)).unwrap();
    let (ta, tb) = (tz(&a), tz(&b));
    a = shr(&a, ta);
    b = shr(&b, tb);
    loop {
        match cmp(&a, &b) {
            Ordering::Equal => return shl(&a, ta.min(tb)),
            Ordering::Less => std::mem::swap(&mut a, &mut b),
            _ => {}
        }
        a = sub(&a, &b);
        let t = tz(&a);
        a = shr(&a, t);
    }
}

pub fn pow(a: &Mag, e: u32) -> Mag {
    let mut r: Mag = vec![1];
    for _ in 0..e {
        r = mul(&r, a);
    }
    r
}

pub fn dec(a: &Mag) -> String {
    if a.is_empty() {
        return "0".into();
    }
    let mut out = Vec::new();
    let mut x = a.clone();
    while !x.is_empty() {
        let (q, r) = divrem(&x, &vec![1_000_000_000]);
        out.push(r.first().copied().unwrap_or(0));
        x = q;
    }
    let mut s = out.pop().unwrap().to_string();
    for w in out.iter().rev() {
        s += &format!("{w:09}");
    }
    s
}

// ---------------------------------------------------------------- signed
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Int {
    pub neg: bool,
    pub mag: Mag,
}

impl Int {
    pub fn new(neg: bool, mag: Mag) -> Int {
        let mag = trim(mag);
        Int { neg: neg && !mag.is_empty(), mag }
    }
    pub fn from_i128(n: i128) -> Int {
        let mut m = n.unsigned_abs();
        let mut v = vec![];
        while m > 0 {
            v.push(m as u32);
            m >>= 32;
        }
        Int::new(n < 0, v)
    }
    pub fn zero() -> Int {
        Int::new(false, vec![])
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn neg(&self) -> Int {
        Int::new(!self.neg, self.mag.clone())
    }
    pub fn abs(&self) -> Int {
        Int::new(false, self.mag.clone())
    }
    pub fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg {
            Int::new(self.neg, add(&self.mag, &o.mag))
        } else if cmp(&self.mag, &o.mag) == Ordering::Less {
            Int::new(o.neg, sub(&o.mag, &self.mag))
        } else {
            Int::new(self.neg, sub(&self.mag, &o.mag))
        }
    }
    pub fn sub(&self, o: &Int) -> Int {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Int) -> Int {
        Int::new(self.neg != o.neg, mul(&self.mag, &o.mag))
    }
    /// truncating
    pub fn div(&self, o: &Int) -> Int {
        Int::new(self.neg != o.neg, divrem(&self.mag, &o.mag).0)
    }
    pub fn rem(&self, o: &Int) -> Int {
        Int::new(self.neg, divrem(&self.mag, &o.mag).1)
    }
    pub fn cmp(&self, o: &Int) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp(&self.mag, &o.mag),
            (true, true) => cmp(&o.mag, &self.mag),
        }
    }
    pub fn dec(&self) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, dec(&self.mag))
    }
}

// ---------------------------------------------------------------- rational
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rat {
    pub n: Int,
    pub d: Mag, // positive, coprime with n
}

impl Rat {
    pub fn new(n: Int, d: Int) -> Rat {
        assert!(!d.is_zero());
        let n = if d.neg { n.neg() } else { n };
        if n.is_zero() {
            return Rat { n, d: vec![1] };
        }
        let g = gcd(&n.mag, &d.mag);
        Rat { n: Int::new(n.neg, divrem(&n.mag, &g).0), d: divrem(&d.mag, &g).0 }
    }
    pub fn int(n: Int) -> Rat {
        Rat { n, d: vec![1] }
    }
    pub fn den(&self) -> Int {
        Int::new(false, self.d.clone())
    }
    pub fn add(&self, o: &Rat) -> Rat {
        Rat::new(self.n.mul(&o.den()).add(&o.n.mul(&self.den())), self.den().mul(&o.den()))
    }
    pub fn neg(&self) -> Rat {
        Rat { n: self.n.neg(), d: self.d.clone() }
    }
    pub fn abs(&self) -> Rat {
        Rat { n: self.n.abs(), d: self.d.clone() }
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        Rat::new(self.n.mul(&o.n), self.den().mul(&o.den()))
    }
    pub fn reci(&self) -> Rat {
        Rat::new(self.den(), self.n.clone())
    }
    pub fn div(&self, o: &Rat) -> Rat {
        self.mul(&o.reci())
    }
    pub fn is_zero(&self) -> bool {
        self.n.is_zero()
    }
    pub fn trunc(&self) -> Int {
        self.n.div(&self.den())
    }
    pub fn cmp(&self, o: &Rat) -> Ordering {
        self.n.mul(&o.den()).cmp(&o.n.mul(&self.den()))
    }
}
