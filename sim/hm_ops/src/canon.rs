use crate::V;
use hmath::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// The outcome of a call as bytes, and what entries that check themselves found wrong.
#[derive(Default)]
pub struct Out(pub Vec<u8>, pub Vec<String>);

impl Out {
    pub fn bad(&mut self, s: &str) {
        self.1.push(s.to_string());
    }
    fn tag(&mut self, t: u8) {
        self.0.push(t);
    }
    fn raw(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn limbs(&mut self, v: &[u32]) {
        self.raw(&(v.len() as u32).to_le_bytes());
        for w in v {
            self.raw(&w.to_le_bytes());
        }
    }
}

pub trait Canon {
    fn put(&self, o: &mut Out);
}

pub fn put<T: Canon>(t: &T, o: &mut Out) {
    t.put(o)
}

impl Canon for UBigInt {
    fn put(&self, o: &mut Out) {
        o.tag(b'U');
        o.limbs(&self.clone().into_raw());
    }
}
impl Canon for BigInt {
    fn put(&self, o: &mut Out) {
        let (v, n) = self.clone().into_raw();
        o.tag(if n { b'-' } else { b'+' });
        o.limbs(&v);
    }
}
impl Canon for Ratio {
    fn put(&self, o: &mut Out) {
        let (d, dn, n, nn) = self.clone().into_raw();
        o.tag(b'R');
        o.tag(dn as u8);
        o.tag(nn as u8);
        o.limbs(&n);
        o.limbs(&d);
    }
}
struct Sink<'a>(&'a mut Out);
impl Hasher for Sink<'_> {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.raw(b);
    }
}
impl Canon for F192 {
    fn put(&self, o: &mut Out) {
        o.tag(b'F');
        self.hash(&mut Sink(o));
    }
}
impl Canon for Matrix {
    fn put(&self, o: &mut Out) {
        o.tag(b'M');
        o.raw(format!("{self:?}").as_bytes());
    }
}
impl Canon for Polynomial {
    fn put(&self, o: &mut Out) {
        o.tag(b'P');
        self.to_vec().put(o);
    }
}
impl Canon for Complex {
    fn put(&self, o: &mut Out) {
        o.tag(b'C');
        self.real().put(o);
        self.imaginary().put(o);
    }
}
impl Canon for () {
    fn put(&self, o: &mut Out) {
        o.tag(b'_');
    }
}
impl Canon for bool {
    fn put(&self, o: &mut Out) {
        o.tag(if *self { b'T' } else { b'N' });
    }
}
impl Canon for Ordering {
    fn put(&self, o: &mut Out) {
        o.tag(*self as i8 as u8);
    }
}
macro_rules! prim {
    ($($t:ty),*) => {$(
        impl Canon for $t {
            fn put(&self, o: &mut Out) {
                o.tag(b'n');
                o.raw(&self.to_le_bytes());
            }
        }
    )*};
}
prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Canon for f32 {
    fn put(&self, o: &mut Out) {
        o.tag(b'f');
        o.raw(&self.to_bits().to_le_bytes());
    }
}
impl Canon for f64 {
    fn put(&self, o: &mut Out) {
        o.tag(b'd');
        o.raw(&self.to_bits().to_le_bytes());
    }
}
impl Canon for String {
    fn put(&self, o: &mut Out) {
        o.tag(b's');
        o.raw(&(self.len() as u32).to_le_bytes());
        o.raw(self.as_bytes());
    }
}
impl<T: Canon> Canon for Vec<T> {
    fn put(&self, o: &mut Out) {
        o.tag(b'[');
        o.raw(&(self.len() as u32).to_le_bytes());
        for x in self {
            x.put(o);
        }
    }
}
impl<T: Canon> Canon for Option<T> {
    fn put(&self, o: &mut Out) {
        match self {
            None => o.tag(b'0'),
            Some(x) => {
                o.tag(b'1');
                x.put(o);
            }
        }
    }
}
impl<T: Canon, E: std::fmt::Debug> Canon for Result<T, E> {
    fn put(&self, o: &mut Out) {
        match self {
            Ok(x) => {
                o.tag(b'K');
                x.put(o);
            }
            Err(e) => {
                o.tag(b'E');
                format!("{e:?}").put(o);
            }
        }
    }
}
impl<A: Canon, B: Canon> Canon for (A, B) {
    fn put(&self, o: &mut Out) {
        self.0.put(o);
        self.1.put(o);
    }
}
impl<A: Canon, B: Canon, C: Canon> Canon for (A, B, C) {
    fn put(&self, o: &mut Out) {
        self.0.put(o);
        self.1.put(o);
        self.2.put(o);
    }
}
impl<T: Canon> Canon for &T {
    fn put(&self, o: &mut Out) {
        (*self).put(o)
    }
}
impl Canon for V {
    fn put(&self, o: &mut Out) {
        match self {
            V::U(x) => x.put(o),
            V::I(x) => x.put(o),
            V::R(x) => x.put(o),
            V::F(x) => x.put(o),
            V::M(x) => x.put(o),
            V::P(x) => x.put(o),
            V::C(x) => x.put(o),
            V::N(x) => x.put(o),
            V::D(x) => x.put(o),
            V::S(x) => x.put(o),
            V::L(x) => x.put(o),
        }
    }
}
