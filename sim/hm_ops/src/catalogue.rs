use crate::{put, Canon, Fun, Op, Out, V};
use hm_spec::K;
use hmath::utils::*;
use hmath::*;
use std::str::FromStr;

const U: K = K::U;
const US: K = K::Us;
const UB: K = K::Ub;
const I: K = K::I;
const IB: K = K::Ib;
const R: K = K::R;
const RS: K = K::Rs;
const RM: K = K::Rm;
const F: K = K::F;
const FS: K = K::Fs;
const M: K = K::M;
const MQ: K = K::Mq;
const MQ5: K = K::Mq5;
const P: K = K::P;
const U32: K = K::Int(0, u32::MAX as i128);
const I32: K = K::Int(i32::MIN as i128, i32::MAX as i128);
const I64: K = K::Int(i64::MIN as i128 + 1, i64::MAX as i128);
const U64: K = K::Int(0, u64::MAX as i128);
const U127: K = K::Int(0, i128::MAX);
const I127: K = K::Int(-(1 << 125), 1 << 125);
const D: K = K::D;
const SI: K = K::SInt;
const SR: K = K::SRat;
const SF: K = K::SF;
const fn n(a: i128, b: i128) -> K {
    K::Int(a, b)
}

pub fn catalogue() -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    macro_rules! q {
        ($name:expr, [$($k:expr),*], |$x:ident| $e:expr) => {{
            fn go($x: &[&V], o: &mut Out) { let t = { $e }; put(&t, o); }
            const SIG: &[K] = &[$($k),*];
            v.push(Op { name: $name, sig: SIG, fun: Fun::Ref(go), random: false });
        }};
    }
    macro_rules! w {
        ($name:expr, [$($k:expr),*], |$a:ident, $x:ident| $e:expr) => {{
            #[allow(unused_variables)]
            fn go($a: &mut V, $x: &[&V], o: &mut Out) { let t = { $e }; put(&t, o); }
            const SIG: &[K] = &[$($k),*];
            v.push(Op { name: $name, sig: SIG, fun: Fun::Mut(go), random: false });
        }};
    }
    macro_rules! z {
        ($name:expr, [$($k:expr),*], |$x:ident| $e:expr) => {{
            #[allow(unused_variables)]
            fn go($x: &[&V], o: &mut Out) { let t = { $e }; put(&t, o); }
            const SIG: &[K] = &[$($k),*];
            v.push(Op { name: $name, sig: SIG, fun: Fun::Ref(go), random: true });
        }};
    }

    // ------------------------------------------------------------ UBigInt
    q!("UBigInt::add", [U, U], |x| x[0].u().add(x[1].u()));
    q!("UBigInt::add_u32", [U, U32], |x| x[0].u().add_u32(x[1].n() as u32));
    q!("UBigInt::sub", [U, U], |x| x[0].u().sub(x[1].u()));
    q!("UBigInt::sub_u32", [U, U32], |x| x[0].u().sub_u32(x[1].n() as u32));
    q!("UBigInt::abs_diff", [U, U], |x| x[0].u().abs_diff(x[1].u()));
    q!("UBigInt::abs_diff_u32", [U, U32], |x| x[0].u().abs_diff_u32(x[1].n() as u32));
    q!("UBigInt::mul", [U, U], |x| x[0].u().mul(x[1].u()));
    q!("UBigInt::mul/big", [UB, UB], |x| x[0].u().mul(x[1].u()));
    q!("UBigInt::mul_u32", [U, U32], |x| x[0].u().mul_u32(x[1].n() as u32));
    q!("UBigInt::mul_pow2", [U, n(0, 2100)], |x| x[0].u().mul_pow2(x[1].n() as u32));
    q!("UBigInt::div", [U, U], |x| x[0].u().div(x[1].u()));
    q!("UBigInt::div/big", [UB, U], |x| x[0].u().div(x[1].u()));
    q!("UBigInt::div_u32", [U, U32], |x| x[0].u().div_u32(x[1].n() as u32));
    q!("UBigInt::rem", [U, U], |x| x[0].u().rem(x[1].u()));
    q!("UBigInt::rem_u32", [U, U32], |x| x[0].u().rem_u32(x[1].n() as u32));
    q!("UBigInt::rem_pow2", [U, n(0, 2100)], |x| x[0].u().rem_pow2(x[1].n() as u32));
    q!("UBigInt::pow_u32", [US, n(0, 120)], |x| x[0].u().pow_u32(x[1].n() as u32));
    q!("UBigInt::pow2", [n(0, 9000)], |x| UBigInt::pow2(x[0].n() as u32));
    q!("UBigInt::exp2", [n(0, 9000)], |x| UBigInt::exp2(x[0].n() as u64));
    q!("UBigInt::exp2_accurate", [n(0, 40_000_000_000)], |x| UBigInt::exp2_accurate(&UBigInt::from_u128(x[0].n() as u128)));
    q!("UBigInt::log2", [U], |x| x[0].u().log2());
    q!("UBigInt::log2_accurate", [US], |x| x[0].u().log2_accurate());
    q!("UBigInt::sqrt", [U], |x| x[0].u().sqrt());
    q!("UBigInt::factorial", [n(0, 400)], |x| UBigInt::factorial(x[0].n() as u32));
    q!("UBigInt::fibonacci", [n(0, 900)], |x| UBigInt::fibonacci(x[0].n() as u32));
    q!("UBigInt::is_prime", [US], |x| x[0].u().is_prime());
    q!("UBigInt::is_prime/int", [n(0, 100_000)], |x| UBigInt::from_u128(x[0].n() as u128).is_prime());
    q!("UBigInt::prime_factorial", [n(0, 1 << 30)], |x| UBigInt::from_u128(x[0].n() as u128).prime_factorial());
    q!("UBigInt::shift_right", [U, n(0, 130)], |x| x[0].u().shift_right(x[1].n() as usize));
    q!("UBigInt::shift_left", [U, n(0, 100)], |x| x[0].u().shift_left(x[1].n() as usize));
    q!("UBigInt::slice_right", [U, n(0, 130)], |x| x[0].u().slice_right(x[1].n() as usize));
    q!("UBigInt::comp", [U, U], |x| x[0].u().comp(x[1].u()));
    q!("UBigInt::rel", [U, U], |x| {
        let (a, b) = (x[0].u(), x[1].u());
        vec![a.lt(b), a.gt(b), a.eq(b), a.neq(b), a.leq(b), a.geq(b), a == b, a < b, a >= b]
    });
    q!("UBigInt::rel_u32", [US, U32], |x| {
        let (a, b) = (x[0].u(), x[1].n() as u32);
        vec![a.lt_u32(b), a.gt_u32(b), a.eq_u32(b), a.neq_u32(b), a.leq_u32(b), a.geq_u32(b), a.comp_u32(b).is_lt()]
    });
    q!("UBigInt::max_min", [U, U], |x| (x[0].u().clone().max(x[1].u().clone()), x[0].u().clone().min(x[1].u().clone())));
    q!("UBigInt::facts", [U], |x| {
        let a = x[0].u();
        (vec![a.is_zero(), a.is_one(), true], a.len())
    });
    q!("UBigInt::from_string", [SI], |x| UBigInt::from_string(x[0].s()));
    q!("UBigInt::from_str", [SI], |x| UBigInt::from_str(x[0].s()));
    q!("UBigInt::to_string", [U], |x| x[0].u().to_string());
    q!("UBigInt::to_string_dec", [U], |x| x[0].u().to_string_dec());
    q!("UBigInt::to_string_hex", [U, n(0, 1)], |x| x[0].u().to_string_hex(x[1].n() == 1));
    q!("UBigInt::to_string_oct", [U, n(0, 1)], |x| x[0].u().to_string_oct(x[1].n() == 1));
    q!("UBigInt::to_string_bin", [U, n(0, 1)], |x| x[0].u().to_string_bin(x[1].n() == 1));
    q!("UBigInt::to_scientific_notation", [U, n(0, 60)], |x| x[0].u().to_scientific_notation(x[1].n() as usize));
    q!("UBigInt::format", [U], |x| {
        let a = x[0].u();
        vec![format!("{a}"), format!("{a:x}"), format!("{a:#x}"), format!("{a:o}"), format!("{a:#b}"), format!("{a:e}"), format!("{a:?}")]
    });
    q!("UBigInt::to_ints", [US], |x| {
        let a = x[0].u();
        vec![
            format!("{:?}", a.to_u32()), format!("{:?}", a.to_u64()), format!("{:?}", a.to_u128()),
            format!("{:?}", u8::try_from(a)), format!("{:?}", u16::try_from(a)), format!("{:?}", usize::try_from(a)),
            format!("{:?}", i8::try_from(a)), format!("{:?}", i16::try_from(a)), format!("{:?}", i32::try_from(a)),
            format!("{:?}", i64::try_from(a)), format!("{:?}", i128::try_from(a)), format!("{:?}", bool::from(a)),
        ]
    });
    q!("UBigInt::to_floats", [U], |x| (f32::try_from(x[0].u()), f64::try_from(x[0].u())));
    q!("UBigInt::from_ints", [U127], |x| {
        let k = x[0].n();
        vec![UBigInt::from(k as u8), UBigInt::from(k as u16), UBigInt::from(k as u32), UBigInt::from(k as u64), UBigInt::from(k as u128), UBigInt::from(k as usize), UBigInt::from(k & 1 == 1)]
    });
    q!("UBigInt::try_from_ints", [I127], |x| {
        let k = x[0].n();
        vec![UBigInt::try_from(k as i8), UBigInt::try_from(k as i16), UBigInt::try_from((k as i32).max(-i32::MAX)), UBigInt::try_from((k as i64).max(-i64::MAX)), UBigInt::try_from(k)]
    });
    q!("UBigInt::try_from_f64", [D], |x| UBigInt::try_from(x[0].d()));
    q!("UBigInt::try_from_ratio", [R], |x| UBigInt::try_from(x[0].r()));
    q!("UBigInt::try_from_bigint", [I], |x| UBigInt::try_from(x[0].i()));
    q!("UBigInt::sum", [K::LU], |x| x[0].us().into_iter().sum::<UBigInt>());
    q!("UBigInt::product", [K::LU], |x| x[0].us().into_iter().product::<UBigInt>());
    q!("gcd_ubi", [U, U], |x| gcd_ubi(x[0].u(), x[1].u()));
    w!("UBigInt::add_mut", [U, U], |a, x| a.um().add_mut(x[0].u()));
    w!("UBigInt::add_u32_mut", [U, U32], |a, x| a.um().add_u32_mut(x[0].n() as u32));
    w!("UBigInt::sub_mut", [U, U], |a, x| a.um().sub_mut(x[0].u()));
    w!("UBigInt::sub_u32_mut", [U, U32], |a, x| a.um().sub_u32_mut(x[0].n() as u32));
    w!("UBigInt::mul_mut", [U, U], |a, x| a.um().mul_mut(x[0].u()));
    w!("UBigInt::mul_u32_mut", [U, U32], |a, x| a.um().mul_u32_mut(x[0].n() as u32));
    w!("UBigInt::mul_pow2_mut", [U, n(0, 2100)], |a, x| a.um().mul_pow2_mut(x[0].n() as u32));
    w!("UBigInt::div_mut", [U, U], |a, x| a.um().div_mut(x[0].u()));
    w!("UBigInt::div_u32_mut", [U, U32], |a, x| a.um().div_u32_mut(x[0].n() as u32));
    w!("UBigInt::rem_mut", [U, U], |a, x| a.um().rem_mut(x[0].u()));
    w!("UBigInt::rem_u32_mut", [U, U32], |a, x| a.um().rem_u32_mut(x[0].n() as u32));
    w!("UBigInt::pow_u32_mut", [US, n(0, 120)], |a, x| a.um().pow_u32_mut(x[0].n() as u32));
    w!("UBigInt::shift_right_mut", [U, n(0, 130)], |a, x| a.um().shift_right_mut(x[0].n() as usize));
    w!("UBigInt::shift_left_mut", [U, n(0, 100)], |a, x| a.um().shift_left_mut(x[0].n() as usize));
    w!("UBigInt::slice_right_mut", [U, n(0, 130)], |a, x| a.um().slice_right_mut(x[0].n() as usize));

    // ------------------------------------------------------------ BigInt
    q!("BigInt::add", [I, I], |x| x[0].i().add(x[1].i()));
    q!("BigInt::add_i32", [I, I32], |x| x[0].i().add_i32(x[1].n() as i32));
    q!("BigInt::sub", [I, I], |x| x[0].i().sub(x[1].i()));
    q!("BigInt::sub_i32", [I, I32], |x| x[0].i().sub_i32(x[1].n() as i32));
    q!("BigInt::mul", [I, I], |x| x[0].i().mul(x[1].i()));
    q!("BigInt::mul/big", [IB, IB], |x| x[0].i().mul(x[1].i()));
    q!("BigInt::mul_i32", [I, I32], |x| x[0].i().mul_i32(x[1].n() as i32));
    q!("BigInt::mul_pow2", [I, n(0, 2100)], |x| x[0].i().mul_pow2(x[1].n() as u32));
    q!("BigInt::div", [I, I], |x| x[0].i().div(x[1].i()));
    q!("BigInt::div_i32", [I, I32], |x| x[0].i().div_i32(x[1].n() as i32));
    q!("BigInt::rem", [I, I], |x| x[0].i().rem(x[1].i()));
    q!("BigInt::rem_i32", [I, I32], |x| x[0].i().rem_i32(x[1].n() as i32));
    q!("BigInt::rem_pow2", [I, n(0, 2100)], |x| x[0].i().rem_pow2(x[1].n() as i32));
    q!("BigInt::pow_u32", [K::Is, n(0, 120)], |x| x[0].i().pow_u32(x[1].n() as u32));
    q!("BigInt::pow2", [n(0, 9000)], |x| BigInt::pow2(x[0].n() as u32));
    q!("BigInt::exp2", [n(0, 9000)], |x| BigInt::exp2(x[0].n() as u64));
    q!("BigInt::log2", [I], |x| x[0].i().log2());
    q!("BigInt::log2_accurate", [K::Is], |x| x[0].i().log2_accurate());
    q!("BigInt::sqrt", [I], |x| x[0].i().sqrt());
    q!("BigInt::neg", [I], |x| x[0].i().neg());
    q!("BigInt::abs", [I], |x| x[0].i().abs());
    q!("BigInt::is_prime", [K::Is], |x| x[0].i().is_prime());
    q!("BigInt::prime_factorial", [n(-1000, 1 << 28)], |x| BigInt::from_i128(x[0].n()).prime_factorial());
    q!("BigInt::factorial", [n(0, 300)], |x| BigInt::factorial(x[0].n() as u32));
    q!("BigInt::fibonacci", [n(0, 500)], |x| BigInt::fibonacci(x[0].n() as u32));
    q!("BigInt::shift_right", [I, n(0, 130)], |x| x[0].i().shift_right(x[1].n() as usize));
    q!("BigInt::shift_left", [I, n(0, 100)], |x| x[0].i().shift_left(x[1].n() as usize));
    q!("BigInt::slice_right", [I, n(0, 130)], |x| x[0].i().slice_right(x[1].n() as usize));
    q!("BigInt::comp", [I, I], |x| x[0].i().comp(x[1].i()));
    q!("BigInt::rel", [I, I], |x| {
        let (a, b) = (x[0].i(), x[1].i());
        vec![a.lt(b), a.gt(b), a.eq(b), a.neq(b), a.leq(b), a.geq(b), a == b, a < b, a >= b]
    });
    q!("BigInt::rel_i32", [K::Is, I32], |x| {
        let (a, b) = (x[0].i(), x[1].n() as i32);
        vec![a.lt_i32(b), a.gt_i32(b), a.eq_i32(b), a.neq_i32(b), a.leq_i32(b), a.geq_i32(b), a.comp_i32(b).is_lt()]
    });
    q!("BigInt::facts", [I], |x| {
        let a = x[0].i();
        (vec![a.is_zero(), a.is_one(), true, a.is_neg()], a.len())
    });
    q!("BigInt::from_string", [SI], |x| BigInt::from_string(x[0].s()));
    q!("BigInt::to_string", [I], |x| x[0].i().to_string());
    q!("BigInt::to_string_radix", [I, n(0, 1)], |x| {
        let p = x[1].n() == 1;
        vec![x[0].i().to_string_hex(p), x[0].i().to_string_oct(p), x[0].i().to_string_bin(p), x[0].i().to_string_dec()]
    });
    q!("BigInt::to_scientific_notation", [I, n(0, 60)], |x| x[0].i().to_scientific_notation(x[1].n() as usize));
    q!("BigInt::format", [I], |x| {
        let a = x[0].i();
        vec![format!("{a}"), format!("{a:x}"), format!("{a:#x}"), format!("{a:o}"), format!("{a:#b}"), format!("{a:e}"), format!("{a:?}")]
    });
    q!("BigInt::to_ints", [K::Is], |x| {
        let a = x[0].i();
        vec![
            format!("{:?}", a.to_i32()), format!("{:?}", a.to_i64()), format!("{:?}", a.to_i128()), format!("{:?}", a.to_ubi()),
            format!("{:?}", u8::try_from(a)), format!("{:?}", u16::try_from(a)), format!("{:?}", u32::try_from(a)), format!("{:?}", u64::try_from(a)), format!("{:?}", u128::try_from(a)),
            format!("{:?}", i8::try_from(a)), format!("{:?}", i16::try_from(a)), format!("{:?}", isize::try_from(a)), format!("{:?}", bool::from(a)),
        ]
    });
    q!("BigInt::to_floats", [I], |x| (f32::try_from(x[0].i()), f64::try_from(x[0].i())));
    q!("BigInt::from_ints", [I127], |x| {
        let k = x[0].n();
        vec![BigInt::from(k as u8), BigInt::from(k as u32), BigInt::from(k as u64), BigInt::from(k as i16), BigInt::from((k as i64).max(-i64::MAX)), BigInt::from(k), BigInt::from((k as i32).max(-i32::MAX)), BigInt::from(k & 1 == 1)]
    });
    q!("BigInt::try_from_f64", [D], |x| BigInt::try_from(x[0].d()));
    q!("BigInt::from_ratio", [R], |x| BigInt::from(x[0].r()));
    q!("gcd_bi", [I, I], |x| gcd_bi(x[0].i(), x[1].i()));
    w!("BigInt::add_mut", [I, I], |a, x| a.im().add_mut(x[0].i()));
    w!("BigInt::add_i32_mut", [I, I32], |a, x| a.im().add_i32_mut(x[0].n() as i32));
    w!("BigInt::sub_mut", [I, I], |a, x| a.im().sub_mut(x[0].i()));
    w!("BigInt::sub_i32_mut", [I, I32], |a, x| a.im().sub_i32_mut(x[0].n() as i32));
    w!("BigInt::mul_mut", [I, I], |a, x| a.im().mul_mut(x[0].i()));
    w!("BigInt::mul_i32_mut", [I, I32], |a, x| a.im().mul_i32_mut(x[0].n() as i32));
    w!("BigInt::mul_pow2_mut", [I, n(0, 2100)], |a, x| a.im().mul_pow2_mut(x[0].n() as u32));
    w!("BigInt::div_mut", [I, I], |a, x| a.im().div_mut(x[0].i()));
    w!("BigInt::div_i32_mut", [I, I32], |a, x| a.im().div_i32_mut(x[0].n() as i32));
    w!("BigInt::rem_mut", [I, I], |a, x| a.im().rem_mut(x[0].i()));
    w!("BigInt::rem_i32_mut", [I, I32], |a, x| a.im().rem_i32_mut(x[0].n() as i32));
    w!("BigInt::pow_u32_mut", [K::Is, n(0, 120)], |a, x| a.im().pow_u32_mut(x[0].n() as u32));
    w!("BigInt::neg_mut", [I], |a, x| a.im().neg_mut());
    w!("BigInt::abs_mut", [I], |a, x| a.im().abs_mut());
    w!("BigInt::shift_right_mut", [I, n(0, 130)], |a, x| a.im().shift_right_mut(x[0].n() as usize));
    w!("BigInt::shift_left_mut", [I, n(0, 100)], |a, x| a.im().shift_left_mut(x[0].n() as usize));
    w!("BigInt::slice_right_mut", [I, n(0, 130)], |a, x| a.im().slice_right_mut(x[0].n() as usize));

    // ------------------------------------------------------------ Ratio
    q!("Ratio::add", [R, R], |x| x[0].r().add(x[1].r()));
    q!("Ratio::add_bi", [R, I], |x| x[0].r().add_bi(x[1].i()));
    q!("Ratio::add_i32", [R, I32], |x| x[0].r().add_i32(x[1].n() as i32));
    q!("Ratio::sub", [R, R], |x| x[0].r().sub(x[1].r()));
    q!("Ratio::sub_bi", [R, I], |x| x[0].r().sub_bi(x[1].i()));
    q!("Ratio::sub_i32", [R, I32], |x| x[0].r().sub_i32(x[1].n() as i32));
    q!("Ratio::mul", [R, R], |x| x[0].r().mul(x[1].r()));
    q!("Ratio::mul_bi", [R, I], |x| x[0].r().mul_bi(x[1].i()));
    q!("Ratio::mul_i32", [R, I32], |x| x[0].r().mul_i32(x[1].n() as i32));
    q!("Ratio::div", [R, R], |x| x[0].r().div(x[1].r()));
    q!("Ratio::div_bi", [R, I], |x| x[0].r().div_bi(x[1].i()));
    q!("Ratio::div_i32", [R, I32], |x| x[0].r().div_i32(x[1].n() as i32));
    q!("Ratio::pow_i32", [RM, n(-40, 40)], |x| x[0].r().pow_i32(x[1].n() as i32));
    q!("Ratio::neg", [R], |x| x[0].r().neg());
    q!("Ratio::abs", [R], |x| x[0].r().abs());
    q!("Ratio::reci", [R], |x| x[0].r().reci());
    q!("Ratio::truncate", [R], |x| x[0].r().truncate());
    q!("Ratio::truncate_bi", [R], |x| x[0].r().truncate_bi());
    q!("Ratio::frac", [R], |x| x[0].r().frac());
    q!("Ratio::truncate_and_frac", [R], |x| x[0].r().truncate_and_frac());
    q!("Ratio::floor", [R], |x| (x[0].r().floor(), x[0].r().floor_bi()));
    q!("Ratio::round", [R], |x| (x[0].r().round(), x[0].r().round_bi()));
    q!("Ratio::comp", [R, R], |x| x[0].r().comp(x[1].r()));
    q!("Ratio::rel", [R, R], |x| {
        let (a, b) = (x[0].r(), x[1].r());
        vec![a.lt(b), a.gt(b), a.eq(b), a.neq(b), a.leq(b), a.geq(b), a == b, a < b, a >= b]
    });
    q!("Ratio::rel_i32", [RM, I32], |x| {
        let (a, b) = (x[0].r(), x[1].n() as i32);
        vec![a.lt_i32(b), a.gt_i32(b), a.eq_i32(b), a.neq_i32(b), a.leq_i32(b), a.geq_i32(b), a.comp_i32(b).is_lt(), a.lt_one(), a.gt_one()]
    });
    q!("Ratio::facts", [R], |x| {
        let a = x[0].r();
        vec![a.is_zero(), a.is_one(), true, a.is_neg(), a.is_integer()]
    });
    q!("Ratio::parts", [R], |x| (x[0].r().get_denom(), x[0].r().get_numer()));
    q!("Ratio::from_string", [SR], |x| Ratio::from_string(x[0].s()));
    q!("Ratio::to_ratio_string", [R], |x| x[0].r().to_ratio_string());
    q!("Ratio::to_approx_string", [R, n(0, 120)], |x| x[0].r().to_approx_string(x[1].n() as usize));
    q!("Ratio::to_scientific_notation", [R, n(0, 60)], |x| x[0].r().to_scientific_notation(x[1].n() as usize));
    q!("Ratio::to_string", [RS], |x| x[0].r().to_string());
    q!("Ratio::format", [R], |x| vec![format!("{}", x[0].r()), format!("{:?}", x[0].r())]);
    q!("Ratio::from_f64", [D], |x| Ratio::from_ieee754_f64(x[0].d()));
    q!("Ratio::from_f32", [D], |x| Ratio::from_ieee754_f32(x[0].d() as f32));
    q!("Ratio::to_f64", [R], |x| x[0].r().to_ieee754_f64());
    q!("Ratio::to_f32", [R], |x| x[0].r().to_ieee754_f32());
    q!("Ratio::from_denom_and_numer", [I, I], |x| Ratio::from_denom_and_numer(x[0].i().clone(), x[1].i().clone()));
    q!("Ratio::from_denom_and_numer_i32", [n(1, 1 << 30), n(-(1 << 30), 1 << 30)], |x| Ratio::from_denom_and_numer_i32(x[0].n() as i32, x[1].n() as i32));
    q!("Ratio::from_ints", [I127], |x| {
        let k = x[0].n();
        vec![Ratio::from(k as u8), Ratio::from(k as u32), Ratio::from(k as u64), Ratio::from(k as i16), Ratio::from((k as i64).max(-i64::MAX)), Ratio::from(k), Ratio::from_bi(BigInt::from(k))]
    });
    q!("Ratio::to_ints", [RM], |x| {
        let a = x[0].r();
        vec![format!("{:?}", u8::try_from(a)), format!("{:?}", i32::try_from(a)), format!("{:?}", u64::try_from(a)), format!("{:?}", i128::try_from(a))]
    });
    q!("common_denom", [R, R], |x| common_denom(x[0].r(), x[1].r()));
    w!("Ratio::add_mut", [R, R], |a, x| a.rm().add_mut(x[0].r()));
    w!("Ratio::add_bi_mut", [R, I], |a, x| a.rm().add_bi_mut(x[0].i()));
    w!("Ratio::add_i32_mut", [R, I32], |a, x| a.rm().add_i32_mut(x[0].n() as i32));
    w!("Ratio::sub_mut", [R, R], |a, x| a.rm().sub_mut(x[0].r()));
    w!("Ratio::sub_bi_mut", [R, I], |a, x| a.rm().sub_bi_mut(x[0].i()));
    w!("Ratio::sub_i32_mut", [R, I32], |a, x| a.rm().sub_i32_mut(x[0].n() as i32));
    w!("Ratio::mul_mut", [R, R], |a, x| a.rm().mul_mut(x[0].r()));
    w!("Ratio::mul_bi_mut", [R, I], |a, x| a.rm().mul_bi_mut(x[0].i()));
    w!("Ratio::mul_i32_mut", [R, I32], |a, x| a.rm().mul_i32_mut(x[0].n() as i32));
    w!("Ratio::div_mut", [R, R], |a, x| a.rm().div_mut(x[0].r()));
    w!("Ratio::div_bi_mut", [R, I], |a, x| a.rm().div_bi_mut(x[0].i()));
    w!("Ratio::div_i32_mut", [R, I32], |a, x| a.rm().div_i32_mut(x[0].n() as i32));
    w!("Ratio::pow_i32_mut", [RM, n(-40, 40)], |a, x| a.rm().pow_i32_mut(x[0].n() as i32));
    w!("Ratio::neg_mut", [R], |a, x| a.rm().neg_mut());
    w!("Ratio::abs_mut", [R], |a, x| a.rm().abs_mut());
    w!("Ratio::reci_mut", [R], |a, x| a.rm().reci_mut());
    w!("Ratio::truncate_mut", [R], |a, x| a.rm().truncate_mut());
    w!("Ratio::frac_mut", [R], |a, x| a.rm().frac_mut());
    w!("Ratio::shrink", [R, n(0, 60)], |a, x| a.rm().shrink(x[0].n() as usize));

    // ------------------------------------------------------------ series
    q!("e_iter", [n(0, 150)], |x| e_iter(x[0].n() as usize));
    q!("ln2_iter", [n(0, 90)], |x| ln2_iter(x[0].n() as usize));
    q!("pi_iter", [n(0, 74)], |x| pi_iter(x[0].n() as usize));
    q!("pi_const", [], |_x| pi_const());
    q!("e_const", [], |_x| e_const());
    q!("ln2_const", [], |_x| ln2_const());
    q!("exp_iter", [RS, n(0, 18)], |x| exp_iter(x[0].r(), x[1].n() as usize));
    q!("ln_iter", [RS, n(0, 16)], |x| ln_iter(x[0].r(), x[1].n() as usize));
    q!("log_iter", [RS, RS, n(0, 9)], |x| log_iter(x[0].r(), x[1].r(), x[2].n() as usize));
    q!("pow_iter", [RS, RS, n(0, 9)], |x| pow_iter(x[0].r(), x[1].r(), x[2].n() as usize));
    q!("sqrt_iter", [RS, n(0, 30)], |x| sqrt_iter(x[0].r(), x[1].n() as usize));
    q!("cbrt_iter", [RS, n(0, 7)], |x| cbrt_iter(x[0].r(), x[1].n() as usize));
    q!("sin_iter", [RS, n(0, 6)], |x| sin_iter(x[0].r(), x[1].n() as usize));
    q!("cos_iter", [RS, n(0, 6)], |x| cos_iter(x[0].r(), x[1].n() as usize));
    q!("tan_iter", [RS, n(0, 5)], |x| tan_iter(x[0].r(), x[1].n() as usize));
    q!("asin_iter", [RS, n(0, 10)], |x| asin_iter(x[0].r(), x[1].n() as usize));
    q!("acos_iter", [RS, n(0, 10)], |x| acos_iter(x[0].r(), x[1].n() as usize));
    q!("atan_iter", [RS, n(0, 10)], |x| atan_iter(x[0].r(), x[1].n() as usize));

    // ------------------------------------------------------------ F192
    q!("F192::add", [F, F], |x| x[0].f().add(x[1].f()));
    q!("F192::sub", [F, F], |x| x[0].f().sub(x[1].f()));
    q!("F192::mul", [F, F], |x| x[0].f().mul(x[1].f()));
    q!("F192::div", [F, F], |x| x[0].f().div(x[1].f()));
    q!("F192::mul_i32", [F, I32], |x| x[0].f().mul_i32(x[1].n() as i32));
    q!("F192::div_i32", [F, I32], |x| x[0].f().div_i32(x[1].n() as i32));
    q!("F192::unary", [F], |x| {
        let a = x[0].f();
        vec![a.abs(), a.neg(), a.floor(), a.ceil(), a.round(), a.truncate(), a.frac(), a.step_epsilon()]
    });
    q!("F192::shifts", [F, n(0, 300)], |x| (x[0].f().shl(x[1].n() as u64), x[0].f().shr(x[1].n() as u64)));
    q!("F192::is_integer", [F], |x| x[0].f().is_integer());
    q!("F192::sin", [FS], |x| x[0].f().sin());
    q!("F192::cos", [FS], |x| x[0].f().cos());
    q!("F192::tan", [FS], |x| x[0].f().tan());
    q!("F192::asin", [FS], |x| x[0].f().asin());
    q!("F192::acos", [FS], |x| x[0].f().acos());
    q!("F192::atan", [FS], |x| x[0].f().atan());
    q!("F192::ln", [FS], |x| x[0].f().ln());
    q!("F192::log2", [FS], |x| (x[0].f().log2(), x[0].f().ilog2()));
    q!("F192::sqrt", [F], |x| x[0].f().sqrt());
    q!("F192::pow2", [FS], |x| x[0].f().pow2());
    q!("F192::from_pow2", [n(-1000, 1000)], |x| F192::from_pow2(x[0].n() as i64));
    q!("F192::powi", [FS, n(-3000, 3000)], |x| x[0].f().powi(x[1].n() as i64));
    q!("F192::pow", [FS, FS], |x| x[0].f().pow(x[1].f()));
    q!("F192::comp", [F, F], |x| (x[0].f().cmp(x[1].f()), x[0].f() == x[1].f()));
    q!("F192::to_string", [F], |x| x[0].f().to_string());
    q!("F192::to_approx_string", [F], |x| x[0].f().to_approx_string());
    q!("F192::from_str", [SF], |x| F192::from_str(x[0].s()));
    q!("F192::into_code13", [F], |x| x[0].f().into_code13());
    q!("F192::code13_round", [F], |x| x[0].f().into_code13().map(|c| F192::from_code13(&c)));
    q!("F192::from_f64", [D], |x| F192::try_from(x[0].d()));
    q!("F192::to_f64", [F], |x| (f64::from(*x[0].f()), f32::from(*x[0].f())));
    q!("F192::from_ints", [I64], |x| (F192::from(x[0].n() as i64), F192::from(x[0].n() as u64), F192::from(x[0].n() as i32 as i64)));
    q!("F192::to_ints", [F], |x| vec![format!("{:?}", i32::try_from(*x[0].f())), format!("{:?}", u64::try_from(*x[0].f())), format!("{:?}", i128::try_from(*x[0].f()))]);
    q!("F192::to_ratio", [F], |x| Ratio::from(x[0].f()));
    q!("F192::from_ratio", [RM], |x| F192::from(x[0].r()));

    // ------------------------------------------------------------ Matrix
    q!("Matrix::add", [M, M], |x| x[0].m().add(x[1].m()));
    q!("Matrix::add/sq", [MQ, MQ], |x| x[0].m().add(x[1].m()));
    q!("Matrix::mul", [M, M], |x| x[0].m().mul(x[1].m()));
    q!("Matrix::mul_k", [M, RM], |x| x[0].m().mul_k(x[1].r().clone()));
    q!("Matrix::mul_k/i32", [M, I32], |x| x[0].m().mul_k(x[1].n() as i32));
    q!("Matrix::transpose", [M], |x| x[0].m().transpose());
    q!("Matrix::determinant", [MQ], |x| x[0].m().determinant());
    q!("Matrix::determinant/any", [M], |x| x[0].m().determinant());
    q!("Matrix::determinant/5", [MQ5], |x| x[0].m().determinant());
    q!("Matrix::inverse", [MQ], |x| x[0].m().inverse());
    q!("Matrix::inverse/any", [M], |x| x[0].m().inverse());
    q!("Matrix::inverse/5", [MQ5], |x| x[0].m().inverse());
    q!("Matrix::to_ratio_string", [M], |x| x[0].m().to_ratio_string());
    q!("Matrix::get", [M, n(0, 4), n(0, 4)], |x| x[0].m().get(x[1].n() as usize, x[2].n() as usize));
    q!("Matrix::identity", [n(0, 10)], |x| Matrix::identity(x[0].n() as usize));
    q!("Matrix::zeros", [n(0, 10), n(0, 10)], |x| Matrix::zeros(x[0].n() as usize, x[1].n() as usize));
    q!("Matrix::from_vec", [K::LR, K::LR], |x| Matrix::from_vec(vec![x[0].rs(), x[1].rs()]));
    q!("Matrix::is_square", [M], |x| x[0].m().is_square());
    q!("Matrix::generate", [n(0, 8), n(0, 8), I32], |x| {
        let k = x[2].n() as i32;
        Matrix::generate(x[0].n() as usize, x[1].n() as usize, |i, j| Ratio::from_i32(k % 1000 + (10 * i + j) as i32))
    });
    w!("Matrix::add_mut", [M, M], |a, x| a.mm().add_mut(x[0].m()));
    w!("Matrix::add_mut/sq", [MQ, MQ], |a, x| a.mm().add_mut(x[0].m()));
    w!("Matrix::mul_k_mut", [M, RM], |a, x| a.mm().mul_k_mut(x[0].r().clone()));
    w!("Matrix::transpose_mut", [M], |a, x| a.mm().transpose_mut());
    w!("Matrix::get_mut", [M, n(0, 4), n(0, 4), RM], |a, x| {
        *a.mm().get_mut(x[0].n() as usize, x[1].n() as usize) = x[2].r().clone();
    });

    // ------------------------------------------------------------ Polynomial
    q!("Polynomial::from_vec", [K::LR], |x| Polynomial::from_vec(x[0].rs()));
    q!("Polynomial::from_vec_generic", [I32, I32, I32], |x| Polynomial::from_vec_generic(vec![x[0].n() as i32, x[1].n() as i32, x[2].n() as i32]));
    q!("Polynomial::mul_k", [P, RM], |x| x[0].p().mul_k(x[1].r().clone()));
    q!("Polynomial::differentiate", [P], |x| x[0].p().differentiate());
    q!("Polynomial::calc", [P, RM], |x| x[0].p().calc(x[1].r()));
    q!("Polynomial::newton_method", [P, RS], |x| x[0].p().newton_method(x[1].r(), &None));
    q!("Polynomial::newton_method/prime", [P, RS, P], |x| x[0].p().newton_method(x[1].r(), &Some(x[2].p().clone())));
    q!("Polynomial::strings", [P, n(1, 60)], |x| vec![x[0].p().to_approx_string(x[1].n() as usize), x[0].p().to_ratio_string()]);
    q!("Polynomial::to_vec_f64", [P], |x| (x[0].p().to_vec_f64(), x[0].p().to_vec_f32()));
    q!("from_points", [K::Pts], |x| from_points(x[0].pts()));
    q!("from_points_generic", [n(-9, 9), n(-9, 9), n(-9, 9), n(-9, 9)], |x| from_points_generic(vec![(x[0].n() as i32, x[1].n() as i32), (x[2].n() as i32, x[3].n() as i32)]));
    q!("cubic_2_points", [RS, RS, RS, RS, RS, RS], |x| cubic_2_points(x[0].r(), x[1].r(), x[2].r(), x[3].r(), x[4].r(), x[5].r()));
    q!("quadratic_3_points", [RS, RS, RS, RS, RS, RS], |x| quadratic_3_points(x[0].r(), x[1].r(), x[2].r(), x[3].r(), x[4].r(), x[5].r()));
    q!("linear_2_points", [RS, RS, RS, RS], |x| linear_2_points(x[0].r(), x[1].r(), x[2].r(), x[3].r()));
    w!("Polynomial::mul_k_mut", [P, RM], |a, x| a.pm().mul_k_mut(x[0].r().clone()));
    w!("Polynomial::differentiate_mut", [P], |a, x| a.pm().differentiate_mut());

    // ------------------------------------------------------------ Complex
    q!("Complex::add", [RM, RM, RM, RM], |x| {
        let a = Complex::from_real_and_imag::<Ratio, Ratio>(x[0].r().clone(), x[1].r().clone());
        let b = Complex::from_real_and_imag::<Ratio, Ratio>(x[2].r().clone(), x[3].r().clone());
        a.add(&b)
    });
    q!("Complex::add_mut/parts", [RM, RM, RM, RM], |x| {
        let mut a = Complex::from_real_and_imag::<Ratio, Ratio>(x[0].r().clone(), x[1].r().clone());
        let b = Complex::from_real_and_imag::<Ratio, Ratio>(x[2].r().clone(), x[3].r().clone());
        a.add_mut(&b);
        a
    });
    q!("Complex::add_i32", [RM, RM, I32], |x| {
        let mut a = Complex::from_real_and_imag::<Ratio, Ratio>(x[0].r().clone(), x[1].r().clone());
        let b = a.add_i32(x[2].n() as i32);
        a.add_i32_mut(x[2].n() as i32);
        (a, b)
    });
    w!("Complex::add_mut", [K::C, K::C], |a, x| a.cm().add_mut(x[0].c()));
    w!("Complex::add_i32_mut", [K::C, I32], |a, x| a.cm().add_i32_mut(x[0].n() as i32));
    q!("Complex::try_from", [D, SR], |x| Complex::try_from_real_and_imag(x[0].d(), x[1].s()));

    // ------------------------------------------------------------ helpers
    q!("inspect_ieee754", [D], |x| (format!("{:?}", inspect_ieee754_f32(x[0].d() as f32)), format!("{:?}", inspect_ieee754_f64(x[0].d()))));
    q!("utils::gcd_i32", [n(-(1 << 30), 1 << 30), n(-(1 << 30), 1 << 30)], |x| gcd_i32(x[0].n() as i32, x[1].n() as i32));
    q!("utils::vectors", [U], |x| {
        let l = x[0].u().clone().into_raw();
        let w = v32_to_v64(&l);
        let mut y = l.clone();
        y.push(0);
        y.push(0);
        remove_suffix_0(&mut y);
        (w.clone(), v64_to_v32(w), y)
    });
    q!("UBigInt::from_u64", [U64], |x| UBigInt::from_u64(x[0].n() as u64));

    // ------------------------------------------------------------ random constructors
    z!("UBigInt::random", [n(0, 70)], |x| UBigInt::random(x[0].n() as usize));
    z!("BigInt::random", [n(0, 70)], |x| BigInt::random(x[0].n() as usize));
    z!("Ratio::random", [], |x| Ratio::random());
    z!("Matrix::random", [n(0, 9), n(0, 9)], |x| {
        let m = Matrix::random(x[0].n() as usize, x[1].n() as usize);
        let cells: Vec<Ratio> = (0..x[1].n() as usize).flat_map(|i| (0..x[0].n() as usize).map(move |j| (i, j))).map(|(i, j)| m.get(i, j).clone()).collect();
        cells
    });
    let _ = (U32, <V as Canon>::put);
    v
}
