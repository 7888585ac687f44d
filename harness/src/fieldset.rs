//! Field types the checks run on, generated with the derive macros under test.

use algebra::{FheField, Field, NTTField, PrimeField};
use fhe_core::DefaultFieldU32;
use serde::{de::DeserializeOwned, Serialize};

/// A generated field seen through u64.
pub trait Fx: FheField + PrimeField + Serialize + DeserializeOwned + 'static {
    const P: u64;
    /// width of the inner word
    const W: u32;
    const NAME: &'static str;
    /// the element with exactly this inner word
    fn mk(x: u64) -> Self;
    fn u(self) -> u64;
    fn val(x: u64) -> <Self as Field>::Value;
    fn unval(x: <Self as Field>::Value) -> u64;
    fn powx(self, e: u64) -> Self;
    fn maxf() -> Self;
    fn neg_onef() -> Self;
    fn word_max() -> u64 {
        if Self::W == 64 { u64::MAX } else { (1 << Self::W) - 1 }
    }
}
pub trait Nx: Fx + NTTField {
    /// the largest k such that 2^k divides p - 1
    fn adicity() -> u32 {
        (Self::P - 1).trailing_zeros()
    }
    /// the degree as this field's degree type
    fn deg(x: u64) -> Self::Degree;
}

#[macro_export]
macro_rules! fx {
    ($n:ident, $t:ident, $m:tt) => {
        impl $crate::fieldset::Fx for $n {
            const P: u64 = $m;
            const W: u32 = $t::BITS;
            const NAME: &'static str = stringify!($n);
            #[inline]
            fn mk(x: u64) -> Self {
                <Self as ::algebra::FheField>::lazy_new(x as $t)
            }
            #[inline]
            fn u(self) -> u64 {
                ::algebra::Field::value(self) as u64
            }
            fn val(x: u64) -> $t {
                x as $t
            }
            fn unval(x: $t) -> u64 {
                x as u64
            }
            fn powx(self, e: u64) -> Self {
                ::num_traits::Pow::pow(self, e as $t)
            }
            fn maxf() -> Self {
                <$n>::max()
            }
            fn neg_onef() -> Self {
                <$n>::neg_one()
            }
        }
    };
}
#[macro_export]
macro_rules! plain {
    ($n:ident, $t:ident, $m:tt) => {
        #[derive(::algebra::derive::Field, ::algebra::derive::Prime, ::algebra::derive::DecomposableField, ::algebra::derive::FheField)]
        #[modulus = $m]
        pub struct $n($t);
        $crate::fx!($n, $t, $m);
    };
}
#[macro_export]
macro_rules! ntt {
    ($n:ident, $t:ident, $m:tt) => {
        #[derive(::algebra::derive::Field, ::algebra::derive::Prime, ::algebra::derive::DecomposableField, ::algebra::derive::FheField, ::algebra::derive::NTT)]
        #[modulus = $m]
        pub struct $n($t);
        $crate::fx!($n, $t, $m);
        impl $crate::fieldset::Nx for $n {
            fn deg(x: u64) -> $t {
                x as $t
            }
        }
    };
}

plain!(A2, u8, 2);
plain!(A3, u8, 3);
plain!(A59, u8, 59);
plain!(B3, u16, 3);
plain!(B16381, u16, 16381);
plain!(C5, u32, 5);
plain!(Cmax, u32, 1073741789);
plain!(D5, u64, 5);
plain!(Dmax, u64, 4611686018427387847);

ntt!(N17, u8, 17);
ntt!(N41, u8, 41);
ntt!(N61, u8, 61);
ntt!(N257, u16, 257);
ntt!(N7681, u16, 7681);
ntt!(N12289, u16, 12289);
ntt!(N15361, u16, 15361);
ntt!(N12289w, u32, 12289);
ntt!(N27, u32, 132120577);
ntt!(N30, u32, 1073692673);
ntt!(N30b, u32, 1073479681);
ntt!(N12289x, u64, 12289);
ntt!(N50, u64, 1125899906826241);
ntt!(N60, u64, 1152921504606830593);
ntt!(N62, u64, 4611686018427322369);
ntt!(N62b, u64, 4611686018326724609);

// the field of the shipped parameter sets
fx!(DefaultFieldU32, u32, 132120577);
impl Nx for DefaultFieldU32 {
    fn deg(x: u64) -> u32 {
        x as u32
    }
}
