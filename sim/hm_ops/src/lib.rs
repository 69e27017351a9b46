//! The operation catalogue: every public operation of the library, callable on plain-data
//! arguments, with its outcome written out as bytes. Instrumented like the library itself.
use hm_spec::{Arg, K, RD};
use hmath::*;

mod canon;
mod catalogue;
pub mod supplied;
pub use canon::{put, Canon, Out};
pub use catalogue::catalogue;

/// An argument as the library sees it.
pub enum V {
    U(UBigInt),
    I(BigInt),
    R(Ratio),
    F(F192),
    M(Matrix),
    P(Polynomial),
    C(Complex),
    N(i128),
    D(f64),
    S(String),
    L(Vec<V>),
}

pub enum Fun {
    Ref(fn(&[&V], &mut Out)),
    Mut(fn(&mut V, &[&V], &mut Out)),
}

pub struct Op {
    pub name: &'static str,
    pub sig: &'static [K],
    pub fun: Fun,
    pub random: bool,
}

fn rd(r: &RD) -> Ratio {
    Ratio::from_raw(r.d.clone(), false, r.n.clone(), r.neg)
}

pub fn build(a: &Arg) -> V {
    match a {
        Arg::U(v) => V::U(UBigInt::from_raw(v.clone())),
        Arg::I(n, v) => V::I(BigInt::from_raw(v.clone(), *n)),
        Arg::R(r) => V::R(rd(r)),
        Arg::F(m, e) => {
            let f = F192::from(*m);
            V::F(if *e >= 0 { f.shl(*e as u64) } else { f.shr((-*e) as u64) })
        }
        Arg::M(c, r, v) => V::M(Matrix::from_raw((0..*r).map(|i| (0..*c).map(|j| rd(&v[i * c + j])).collect()).collect(), *c, *r)),
        // leading zeros are given to the other constructor
        Arg::P(v) if v.len() > 1 && v[0].n == [0] => V::P(Polynomial::from_vec_generic(v.iter().map(rd).collect())),
        Arg::P(v) => V::P(Polynomial::from_vec(v.iter().map(rd).collect())),
        Arg::C(x, y) => V::C(Complex::from_real_and_imag::<Ratio, Ratio>(rd(x), rd(y))),
        Arg::N(n) => V::N(*n),
        Arg::D(b) => V::D(f64::from_bits(*b)),
        Arg::S(s) => V::S(s.clone()),
        Arg::L(v) => V::L(v.iter().map(build).collect()),
    }
}

impl V {
    pub fn u(&self) -> &UBigInt { if let V::U(x) = self { x } else { bad() } }
    pub fn i(&self) -> &BigInt { if let V::I(x) = self { x } else { bad() } }
    pub fn r(&self) -> &Ratio { if let V::R(x) = self { x } else { bad() } }
    pub fn f(&self) -> &F192 { if let V::F(x) = self { x } else { bad() } }
    pub fn m(&self) -> &Matrix { if let V::M(x) = self { x } else { bad() } }
    pub fn p(&self) -> &Polynomial { if let V::P(x) = self { x } else { bad() } }
    pub fn c(&self) -> &Complex { if let V::C(x) = self { x } else { bad() } }
    pub fn cm(&mut self) -> &mut Complex { if let V::C(x) = self { x } else { bad() } }
    pub fn um(&mut self) -> &mut UBigInt { if let V::U(x) = self { x } else { bad() } }
    pub fn im(&mut self) -> &mut BigInt { if let V::I(x) = self { x } else { bad() } }
    pub fn rm(&mut self) -> &mut Ratio { if let V::R(x) = self { x } else { bad() } }
    pub fn mm(&mut self) -> &mut Matrix { if let V::M(x) = self { x } else { bad() } }
    pub fn pm(&mut self) -> &mut Polynomial { if let V::P(x) = self { x } else { bad() } }
    pub fn n(&self) -> i128 { if let V::N(x) = self { *x } else { bad() } }
    pub fn d(&self) -> f64 { if let V::D(x) = self { *x } else { bad() } }
    pub fn s(&self) -> &str { if let V::S(x) = self { x } else { bad() } }
    pub fn l(&self) -> &Vec<V> { if let V::L(x) = self { x } else { bad() } }
    pub fn us(&self) -> Vec<UBigInt> { self.l().iter().map(|x| x.u().clone()).collect() }
    pub fn rs(&self) -> Vec<Ratio> { self.l().iter().map(|x| x.r().clone()).collect() }
    pub fn pts(&self) -> Vec<(Ratio, Ratio)> {
        self.l().chunks(2).map(|c| (c[0].r().clone(), c[1].r().clone())).collect()
    }
    pub fn dup(&self) -> V {
        match self {
            V::U(x) => V::U(x.clone()),
            V::I(x) => V::I(x.clone()),
            V::R(x) => V::R(x.clone()),
            V::F(x) => V::F(*x),
            V::M(x) => V::M(x.clone()),
            V::P(x) => V::P(x.clone()),
            V::C(x) => V::C(Complex::from_real_and_imag::<Ratio, Ratio>(x.real().clone(), x.imaginary().clone())),
            V::N(x) => V::N(*x),
            V::D(x) => V::D(*x),
            V::S(x) => V::S(x.clone()),
            V::L(x) => V::L(x.iter().map(|y| y.dup()).collect()),
        }
    }
}

#[cold]
fn bad() -> ! {
    eprintln!("hm_ops: argument of the wrong kind");
    std::process::abort()
}

/// Calls the operation and writes down its outcome. For in-place operations `target` is the
/// value operated on; it stays inspectable by the caller when the call panics.
pub fn call(op: &Op, target: Option<&mut V>, args: &[&V], o: &mut Out) {
    match op.fun {
        Fun::Ref(f) => f(args, o),
        Fun::Mut(f) => {
            let t = target.unwrap_or_else(|| bad());
            f(t, args, o);
            t.put(o);
        }
    }
}

// Whether the types can really be shared is asked separately (sim/probe). Here one thread runs at
// a time, and a type that lost the property has to be simulated all the same.
unsafe impl Send for V {}
unsafe impl Sync for V {}

/// Back to plain data, where the public interface allows it.
pub fn unbuild(v: &V) -> Option<Arg> {
    fn un(r: &Ratio) -> Option<RD> {
        let (d, dn, n, neg) = r.clone().into_raw();
        if dn || d.is_empty() || n.is_empty() || d.iter().all(|w| *w == 0) {
            return None;
        }
        Some(RD { neg, n, d })
    }
    Some(match v {
        V::U(x) => Arg::U(x.clone().into_raw()),
        V::I(x) => {
            let (m, n) = x.clone().into_raw();
            Arg::I(n, m)
        }
        V::R(x) => Arg::R(un(x)?),
        V::P(x) => Arg::P(x.to_vec().iter().map(un).collect::<Option<Vec<_>>>()?),
        _ => return None,
    })
}

/// How a value prints, compares, hashes and converts.
pub fn looks(v: &V) -> Vec<String> {
    use std::hash::{Hash, Hasher};
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    fn h<T: Hash>(t: &T) -> String {
        let mut s = H(7);
        t.hash(&mut s);
        format!("{:x}", s.finish())
    }
    match v {
        V::U(x) => vec![
            x.to_string(), format!("{x:x}"), format!("{x:e}"), format!("{:?}", x.to_u64()), format!("{:?}", u128::try_from(x)), format!("{:?}", f64::try_from(x).ok().map(f64::to_bits)),
            format!("{}{}{}", x.is_zero(), x.is_one(), x.len()), h(x), format!("{:?}", x.comp(&UBigInt::from_u32(1))), format!("{}", x == x),
        ],
        V::I(x) => vec![
            x.to_string(), format!("{x:x}"), format!("{x:e}"), format!("{:?}", x.to_i64()), format!("{:?}", i128::try_from(x)), format!("{:?}", f64::try_from(x).ok().map(f64::to_bits)),
            format!("{}{}{}", x.is_zero(), x.is_one(), x.is_neg()), h(x), format!("{:?}", x.comp(&BigInt::zero())),
        ],
        V::R(x) => vec![
            x.to_ratio_string(), x.to_approx_string(12), format!("{:?}", x.truncate_bi().to_i64()), format!("{}{}{}{}", x.is_zero(), x.is_one(), x.is_neg(), x.is_integer()),
            h(x), format!("{:?}", x.comp(&Ratio::one())), format!("{:?}{:?}", x.get_denom(), x.get_numer()),
        ],
        V::M(x) => vec![x.to_ratio_string(), format!("{x:?}{}", x.is_square())],
        V::C(x) => vec![x.real().to_ratio_string(), x.imaginary().to_ratio_string(), h(x.real()), h(x.imaginary())],
        V::P(x) => vec![x.to_ratio_string(), x.to_approx_string(8), format!("{x:?}")],
        _ => vec![],
    }
}

/// Do two values the model calls equal compare equal, in every way the library offers?
pub fn alike(a: &V, b: &V) -> bool {
    use std::cmp::Ordering::Equal;
    match (a, b) {
        (V::U(x), V::U(y)) => x == y && x.eq(y) && !x.gt(y) && !x.lt(y) && x.geq(y) && x.leq(y) && x.comp(y) == Equal && x.cmp(y) == Equal && x.partial_cmp(y) == Some(Equal),
        (V::I(x), V::I(y)) => x == y && !x.gt(y) && !x.lt(y) && x.geq(y) && x.leq(y) && x.comp(y) == Equal && x.cmp(y) == Equal,
        (V::R(x), V::R(y)) => x == y && !x.gt(y) && !x.lt(y) && x.comp(y) == Equal && x.cmp(y) == Equal,
        (V::M(x), V::M(y)) => x == y,
        (V::P(x), V::P(y)) => x == y,
        (V::C(x), V::C(y)) => x.real() == y.real() && x.imaginary() == y.imaginary(),
        _ => true,
    }
}

fn agree(o: std::cmp::Ordering, t: [bool; 6]) -> Option<std::cmp::Ordering> {
    if t == [o.is_lt(), o.is_gt(), o.is_eq(), o.is_ne(), o.is_le(), o.is_ge()] { Some(o) } else { None }
}

/// How the library orders two values of the same kind.
pub fn order(a: &V, b: &V) -> Option<std::cmp::Ordering> {
    match (a, b) {
        (V::U(x), V::U(y)) => agree(x.comp(y), [x.lt(y), x.gt(y), x.eq(y), x.neq(y), x.leq(y), x.geq(y)]),
        (V::I(x), V::I(y)) => agree(x.comp(y), [x.lt(y), x.gt(y), x.eq(y), x.neq(y), x.leq(y), x.geq(y)]),
        // each of these costs a subtraction
        (V::R(x), V::R(y)) => if x.lt(y) == (x.comp(y) == std::cmp::Ordering::Less) { Some(x.comp(y)) } else { None },
        _ => None,
    }
}

pub fn exact_text(v: &V) -> Option<String> {
    match v {
        V::U(x) => Some(x.to_string_dec()),
        V::I(x) => Some(x.to_string_dec()),
        V::R(x) => Some(x.to_ratio_string()),
        _ => None,
    }
}
