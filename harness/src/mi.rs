//! A uniform view of the twenty machine integer types, and a bit-level model of them.
use crate::gen::Rng;
use hacspec::prelude::*;
use num::bigint::BigInt;

/// A machine integer type under test.
pub trait Mi: Integer + Copy + Debug {
    const NAME: &'static str;
    const BITS: u32;
    const SIGNED: bool;
    const SECRET: bool;
    /// The value with this bit pattern (low BITS bits of `raw`).
    fn of(raw: u128) -> Self;
    /// Bit pattern.
    fn raw(self) -> u128;
}
macro_rules! mi_pub {
    ($($t:ident $signed:literal),*) => {$(
        impl Mi for $t {
            const NAME: &'static str = stringify!($t);
            const BITS: u32 = std::mem::size_of::<$t>() as u32 * 8;
            const SIGNED: bool = $signed;
            const SECRET: bool = false;
            fn of(raw: u128) -> Self { raw as $t }
            fn raw(self) -> u128 { (self as u128) & mask(Self::BITS) }
        }
    )*};
}
macro_rules! mi_sec {
    ($($t:ident $r:ident $signed:literal),*) => {$(
        impl Mi for $t {
            const NAME: &'static str = stringify!($t);
            const BITS: u32 = std::mem::size_of::<$r>() as u32 * 8;
            const SIGNED: bool = $signed;
            const SECRET: bool = true;
            // The field is public; going through it keeps the reference apart from classify/declassify.
            fn of(raw: u128) -> Self { $t(raw as $r) }
            fn raw(self) -> u128 { (self.0 as u128) & mask(Self::BITS) }
        }
    )*};
}
mi_pub!(u8 false, u16 false, u32 false, u64 false, u128 false, i8 true, i16 true, i32 true, i64 true, i128 true);
mi_sec!(U8 u8 false, U16 u16 false, U32 u32 false, U64 u64 false, U128 u128 false,
        I8 i8 true, I16 i16 true, I32 i32 true, I64 i64 true, I128 i128 true);

/// Call a generic function for a list of types.
#[macro_export]
macro_rules! for_types {
    ($f:ident ( $a:expr, $b:expr ) : $($t:ident)*) => { $( $f::<$t>($a, $b); )* };
}

pub fn mask(bits: u32) -> u128 {
    if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 }
}
/// Sign extension of a `bits`-bit pattern.
pub fn sext(raw: u128, bits: u32) -> i128 {
    let s = 128 - bits;
    ((raw << s) as i128) >> s
}
/// The mathematical value of a bit pattern.
pub fn val(raw: u128, bits: u32, signed: bool) -> BigInt {
    if signed { BigInt::from(sext(raw, bits)) } else { BigInt::from(raw & mask(bits)) }
}
pub fn v<T: Mi>(raw: u128) -> BigInt {
    val(raw, T::BITS, T::SIGNED)
}
/// The bit pattern of an integer modulo 2^bits.
pub fn wrap(x: &BigInt, bits: u32) -> u128 {
    let m = BigInt::from(1) << bits as usize;
    let r = ((x % &m) + &m) % &m;
    let (_, d) = r.to_bytes_le();
    let mut o = 0u128;
    for (i, b) in d.iter().enumerate() {
        o |= (*b as u128) << (8 * i);
    }
    o
}
pub fn min_max<T: Mi>() -> (BigInt, BigInt) {
    let one = BigInt::from(1);
    if T::SIGNED {
        (-(one.clone() << (T::BITS as usize - 1)), (one.clone() << (T::BITS as usize - 1)) - one)
    } else {
        (BigInt::from(0), (one.clone() << T::BITS as usize) - one)
    }
}
pub fn fits<T: Mi>(x: &BigInt) -> bool {
    let (lo, hi) = min_max::<T>();
    *x >= lo && *x <= hi
}
/// Quotient rounded towards minus infinity and the matching remainder (sign of the divisor).
pub fn modulo(a: &BigInt, n: &BigInt) -> BigInt {
    ((a % n) + n) % n
}
/// An operand pair biased to edges and to related operands.
pub fn pair(r: &mut Rng, bits: u32) -> (u128, u128) {
    let a = r.edge(bits);
    let b = match r.below(8) {
        0 => a,
        1 => a.wrapping_add(1),
        2 => a.wrapping_sub(1),
        3 => !a,
        4 => a.wrapping_neg(),
        5 => a ^ (1u128 << r.below(bits as usize)),
        _ => r.edge(bits),
    };
    (a & mask(bits), b & mask(bits))
}
