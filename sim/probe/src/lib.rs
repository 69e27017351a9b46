//! Values may be moved to and shared between threads: C01 has no meaning without it.
fn ok<T: Send + Sync>() {}

pub fn shareable() {
    ok::<hmath::UBigInt>();
    ok::<hmath::BigInt>();
    ok::<hmath::Ratio>();
    ok::<hmath::F192>();
    ok::<hmath::Matrix>();
    ok::<hmath::Polynomial>();
    ok::<hmath::Complex>();
    ok::<hmath::ConversionError>();
    ok::<hmath::MatrixError>();
}
