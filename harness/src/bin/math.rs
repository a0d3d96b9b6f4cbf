//! C22, C23, C27: bounded integers, modular integers, polynomials.
use hv::gen::{hex, Rng};
use hv::mon::*;
use num::bigint::{BigInt, Sign};
use num::{BigUint, Integer as _, One, Signed, ToPrimitive, Zero};
use std::cell::RefCell;
use std::collections::BTreeMap;

fn big(x: i128) -> BigInt {
    BigInt::from(x)
}
fn floor_mod(a: &BigInt, n: &BigInt) -> BigInt {
    ((a % n) + n) % n
}
/// Exact when `want` is given, otherwise a panic.
fn decide(what: &str, want: Option<BigInt>, got: Result<BigInt, String>) -> Res {
    match (got, want) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Ok(g), Some(w)) => Err(format!("{}: got {} want {}", what, g, w)),
        (Ok(g), None) => Err(format!("{}: got {} want a panic", what, g)),
        (Err(_), None) => Ok(()),
        (Err(p), Some(w)) => Err(format!("{}: unexpected {} (want {})", what, p, w)),
    }
}
/// A magnitude below 2^bits, biased to edges.
fn mag(r: &mut Rng, bits: usize) -> BigInt {
    let top = BigInt::one() << bits;
    let x: BigInt = match r.below(10) {
        0 => big(r.below(3) as i128),
        1 => &top - big(1 + r.below(3) as i128),
        2 => (BigInt::one() << (bits - 1)) + big(r.below(3) as i128) - 1,
        3 => BigInt::one() << r.below(bits),
        4 => &top - (BigInt::one() << r.below(bits)),
        5 => {
            let k = 1 + r.below(bits);
            BigInt::from_bytes_le(Sign::Plus, &r.uniform((k + 7) / 8)) % (BigInt::one() << k)
        }
        6 => {
            // about half of the bits: products straddle the range limit
            let k = (bits + 1) / 2 + r.below(2);
            BigInt::from_bytes_le(Sign::Plus, &r.uniform((k + 7) / 8)) % (BigInt::one() << k)
        }
        _ => BigInt::from_bytes_le(Sign::Plus, &r.uniform((bits + 7) / 8)),
    };
    let m = floor_mod(&x, &top);
    m
}

// ------------------------------------------------------------------ C22
/// A bounded integer type under test; `None` where the type has no such operation.
trait Bnd: Copy + std::fmt::Display + std::fmt::Debug + Into<BigInt> + Into<BigUint> + From<BigInt> + From<BigUint> + Default
    + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self>
{
    const NAME: &'static str;
    const BITS: usize;
    const SIGNED: bool;
    const PUBLIC: bool;
    fn lit(x: u128) -> Self;
    fn slit(x: i128) -> Self;
    fn p2(x: usize) -> Self;
    fn bit_(self, i: usize) -> bool;
    fn hex_(sign: &str, s: &str) -> Self;
    fn from_le(v: &[u8]) -> Option<Self>;
    fn to_le(self) -> Option<Vec<u8>>;
    fn div_(self, o: Self) -> Self;
    fn rem_(self, o: Self) -> Self;
    fn cmp_(self, o: Self) -> (bool, Option<std::cmp::Ordering>, std::cmp::Ordering);
    fn modpow(self, e: u128, m: Self) -> Self;
    fn powf(self, e: Self, m: Self) -> Self;
    fn inv_(self, m: Self) -> Self;
}
macro_rules! common {
    ($n:ident, $b:literal, $s:literal, $p:literal) => {
        const NAME: &'static str = stringify!($n);
        const BITS: usize = $b;
        const SIGNED: bool = $s;
        const PUBLIC: bool = $p;
        fn lit(x: u128) -> Self { $n::from_literal(x) }
        fn slit(x: i128) -> Self { $n::from_signed_literal(x) }
        fn p2(x: usize) -> Self { $n::pow2(x) }
        fn bit_(self, i: usize) -> bool { self.bit(i) }
    };
}
macro_rules! uns {
    ($n:ident) => {
        fn hex_(_sign: &str, s: &str) -> Self { $n::from_hex(s) }
        fn from_le(v: &[u8]) -> Option<Self> { Some($n::from_le_bytes(v)) }
        fn to_le(self) -> Option<Vec<u8>> { Some(self.to_le_bytes()) }
    };
}
macro_rules! sig {
    ($n:ident) => {
        fn hex_(sign: &str, s: &str) -> Self { $n::from_hex(sign, s) }
        fn from_le(_v: &[u8]) -> Option<Self> { None }
        fn to_le(self) -> Option<Vec<u8>> { None }
    };
}
macro_rules! public {
    ($n:ident) => {
        fn div_(self, o: Self) -> Self { std::ops::Div::div(self, o) }
        fn rem_(self, o: Self) -> Self { std::ops::Rem::rem(self, o) }
        fn cmp_(self, o: Self) -> (bool, Option<std::cmp::Ordering>, std::cmp::Ordering) { (self == o, self.partial_cmp(&o), self.cmp(&o)) }
        fn modpow(self, e: u128, m: Self) -> Self { $n::pow(self, e, m) }
        fn powf(self, e: Self, m: Self) -> Self { self.pow_felem(e, m) }
        fn inv_(self, m: Self) -> Self { $n::inv(self, m) }
    };
}
macro_rules! secret {
    () => {
        fn div_(self, _: Self) -> Self { unreachable!() }
        fn rem_(self, _: Self) -> Self { unreachable!() }
        fn cmp_(self, _: Self) -> (bool, Option<std::cmp::Ordering>, std::cmp::Ordering) { unreachable!() }
        fn modpow(self, _: u128, _: Self) -> Self { unreachable!() }
        fn powf(self, _: Self, _: Self) -> Self { unreachable!() }
        fn inv_(self, _: Self) -> Self { unreachable!() }
    };
}
mod bnd {
    #![allow(unused, non_camel_case_types)]
    use super::Bnd;
    use abstract_integers::*;
    macro_rules! types {
        ($($b:literal $up:ident $sp:ident $us:ident $ss:ident;)*) => {
            $(
                abstract_unsigned_public_integer!($up, $b);
                abstract_signed_public_integer!($sp, $b);
                abstract_unsigned_secret_integer!($us, $b);
                abstract_signed_secret_integer!($ss, $b);
                impl Bnd for $up { common!($up, $b, false, true); uns!($up); public!($up); }
                impl Bnd for $sp { common!($sp, $b, true, true); sig!($sp); public!($sp); }
                impl Bnd for $us { common!($us, $b, false, false); uns!($us); secret!(); }
                impl Bnd for $ss { common!($ss, $b, true, false); sig!($ss); secret!(); }
            )*
            pub fn small(cx: &mut hv::mon::Ctx, n: u64) { $( if $b <= 8 { crate::c22_type::<$up>(cx, n); crate::c22_type::<$sp>(cx, n); crate::c22_type::<$us>(cx, n); crate::c22_type::<$ss>(cx, n); } )* }
            pub fn large(cx: &mut hv::mon::Ctx, n: u64) { $( if $b > 8 { crate::c22_type::<$up>(cx, n); crate::c22_type::<$sp>(cx, n); crate::c22_type::<$us>(cx, n); crate::c22_type::<$ss>(cx, n); } )* }
        };
    }
    types!(
        1 Up1 Sp1 Us1 Ss1;
        3 Up3 Sp3 Us3 Ss3;
        5 Up5 Sp5 Us5 Ss5;
        7 Up7 Sp7 Us7 Ss7;
        8 Up8 Sp8 Us8 Ss8;
        9 Up9 Sp9 Us9 Ss9;
        20 Up20 Sp20 Us20 Ss20;
        33 Up33 Sp33 Us33 Ss33;
        64 Up64 Sp64 Us64 Ss64;
        127 Up127 Sp127 Us127 Ss127;
        128 Up128 Sp128 Us128 Ss128;
        130 Up130 Sp130 Us130 Ss130;
        256 Up256 Sp256 Us256 Ss256;
        521 Up521 Sp521 Us521 Ss521;
    );
    pub mod wide {
        use crate::Bnd;
        use abstract_integers::*;
        types!(
            1000 Up1000 Sp1000 Us1000 Ss1000;
            2053 Up2053 Sp2053 Us2053 Ss2053;
            3072 Up3072 Sp3072 Us3072 Ss3072;
            4096 Up4096 Sp4096 Us4096 Ss4096;
            8192 Up8192 Sp8192 Us8192 Ss8192;
            16640 Up16640 Sp16640 Us16640 Ss16640;
        );
    }
    define_abstract_integer_checked!(Legacy61, 61);
    impl Bnd for Legacy61 { common!(Legacy61, 61, false, true); uns!(Legacy61); public!(Legacy61); }
}
mod hbnd {
    #![allow(unused, non_camel_case_types)]
    use super::Bnd;
    use hacspec::prelude::*;
    unsigned_public_integer!(Hup, 77);
    signed_public_integer!(Hsp, 77);
    unsigned_integer!(Hus, 77);
    signed_integer!(Hss, 77);
    impl Bnd for Hup { common!(Hup, 77, false, true); uns!(Hup); 
        fn div_(self, o: Self) -> Self { self / o }
        fn rem_(self, o: Self) -> Self { self % o }
        fn cmp_(self, o: Self) -> (bool, Option<std::cmp::Ordering>, std::cmp::Ordering) { (self == o, self.partial_cmp(&o), Ord::cmp(&self, &o)) }
        fn modpow(self, e: u128, m: Self) -> Self { Hup::pow(self, e, m) }
        fn powf(self, e: Self, m: Self) -> Self { self.pow_felem(e, m) }
        fn inv_(self, m: Self) -> Self { Hup::inv(self, m) }
    }
    impl Bnd for Hsp { common!(Hsp, 77, true, true); sig!(Hsp);
        fn div_(self, o: Self) -> Self { self / o }
        fn rem_(self, o: Self) -> Self { self % o }
        fn cmp_(self, o: Self) -> (bool, Option<std::cmp::Ordering>, std::cmp::Ordering) { (self == o, self.partial_cmp(&o), Ord::cmp(&self, &o)) }
        fn modpow(self, e: u128, m: Self) -> Self { Hsp::pow(self, e, m) }
        fn powf(self, e: Self, m: Self) -> Self { self.pow_felem(e, m) }
        fn inv_(self, m: Self) -> Self { Hsp::inv(self, m) }
    }
    impl Bnd for Hus { common!(Hus, 77, false, false); uns!(Hus); secret!(); }
    impl Bnd for Hss { common!(Hss, 77, true, false); sig!(Hss); secret!(); }
    /// The trait-level names of the same operations.
    pub fn wrap3<T: NumericBase + Copy>(a: T, b: T, op: usize) -> T {
        match op { 0 => a.wrap_add(b), 1 => a.wrap_sub(b), _ => a.wrap_mul(b) }
    }
}
fn max_of<T: Bnd>() -> BigInt {
    (BigInt::one() << T::BITS) - 1
}
fn in_range<T: Bnd>(x: &BigInt) -> bool {
    *x <= max_of::<T>() && if T::SIGNED { -x <= max_of::<T>() } else { !x.is_negative() }
}
fn pick<T: Bnd>(r: &mut Rng) -> BigInt {
    let m = mag(r, T::BITS);
    if T::SIGNED && r.chance(1, 2) { -m } else { m }
}
fn only<T: Bnd>(x: BigInt) -> Option<BigInt> {
    if in_range::<T>(&x) { Some(x) } else { None }
}
fn val<T: Bnd>(x: T) -> BigInt {
    let v: BigInt = x.into();
    v
}
fn c22_pair<T: Bnd>(c: &mut Case, a: &BigInt, b: &BigInt) -> Res {
    c.input(format!("{} a={} b={}", T::NAME, a, b));
    let (x, y) = (T::from(a.clone()), T::from(b.clone()));
    decide("+", only::<T>(a + b), attempt(|| val(x + y)))?;
    decide("-", only::<T>(a - b), attempt(|| val(x - y)))?;
    decide("*", only::<T>(a * b), attempt(|| val(x * y)))?;
    if T::PUBLIC {
        // truncated division, as for the machine integers
        let (q, r) = if b.is_zero() { (None, None) } else { (only::<T>(a / b), only::<T>(a % b)) };
        decide("/", q, attempt(|| val(x.div_(y))))?;
        decide("%", r, attempt(|| val(x.rem_(y))))?;
        let o = a.cmp(b);
        eq("comparison", &x.cmp_(y), &(o.is_eq(), Some(o), o))?;
        // a value is the same however it was obtained
        let same = (true, Some(std::cmp::Ordering::Equal), std::cmp::Ordering::Equal);
        let z = T::from(BigInt::zero());
        eq("x - x against 0", &(x - x).cmp_(z), &same)?;
        eq("default against x", &T::default().cmp_(x), &z.cmp_(x))?;
        eq("x against default", &x.cmp_(T::default()), &x.cmp_(z))?;
        eq("x + default against x", &(x + T::default()).cmp_(x), &same)?;
        eq("x * default against default", &(x * T::default()).cmp_(T::default()), &same)?;
        for (what, e, g) in [("+", a + b, attempt(|| x + y)), ("-", a - b, attempt(|| x - y)), ("*", a * b, attempt(|| x * y))] {
            if let (true, Ok(g)) = (in_range::<T>(&e), g) { eq(&format!("x {} y against the same value", what), &g.cmp_(T::from(e)), &same)?; }
        }
    }
    c.obs("sum/difference/product in range", format!("{} {}{}{}", if T::SIGNED { "signed" } else { "unsigned" }, in_range::<T>(&(a + b)) as u8, in_range::<T>(&(a - b)) as u8, in_range::<T>(&(a * b)) as u8));
    Ok(())
}
fn c22_one<T: Bnd>(c: &mut Case, a: &BigInt) -> Res {
    // `a` may be out of range: construction must then panic
    c.input(format!("{} x={}", T::NAME, a));
    let ok = only::<T>(a.clone());
    c.obs("construction", format!("{} {}", T::NAME, if ok.is_some() { "in range" } else { "out of range" }));
    decide("from BigInt", ok.clone(), attempt(|| val(T::from(a.clone()))))?;
    if !a.is_negative() {
        let u = a.to_biguint().unwrap();
        decide("from BigUint", ok.clone(), attempt(|| val(T::from(u.clone()))))?;
        if let Some(x) = a.to_u128() {
            decide("from_literal", ok.clone(), attempt(|| val(T::lit(x))))?;
        }
        let bytes = a.to_bytes_be().1;
        let lead = c.rng.below(3);
        let mut s = "00".repeat(lead) + &hex(&bytes);
        if c.rng.chance(1, 2) { s = s.to_uppercase(); }
        for sign in if T::SIGNED { vec!["+", ""] } else { vec!["+"] } {
            decide(&format!("from_hex({:?}, {})", sign, s), ok.clone(), attempt(|| val(T::hex_(sign, &s))))?;
        }
        let mut le = a.to_bytes_le().1;
        for _ in 0..c.rng.below(3) { le.push(0); }
        if !T::SIGNED {
            decide("from_le_bytes", ok.clone(), attempt(|| val(T::from_le(&le).unwrap())))?;
        }
    } else if T::SIGNED {
        let s = hex(&a.to_bytes_be().1);
        decide("from_hex(-)", ok.clone(), attempt(|| val(T::hex_("-", &s))))?;
    }
    if let Some(x) = a.to_i128() {
        decide("from_signed_literal", ok.clone(), attempt(|| val(T::slit(x))))?;
    }
    if ok.is_none() {
        return Ok(());
    }
    let x = T::from(a.clone());
    eq("Display", &format!("{}", x), &a.to_string())?;
    eq("Debug", &format!("{:?}", x), &a.to_string())?;
    // converting back
    let back = attempt(|| { let u: BigUint = x.into(); BigInt::from(u) });
    decide("into BigUint", if a.is_negative() { None } else { Some(a.clone()) }, back)?;
    if let Some(le) = attempt(|| x.to_le())? {
        eqb("to_le_bytes", &le, &a.to_bytes_le().1)?;
        eq("from_le_bytes . to_le_bytes", &val(T::from_le(&le).unwrap()), a)?;
    }
    // every bit of the two's-complement representation; beyond the storage it is refused
    let store = (T::BITS + 7) / 8 * 8;
    for i in 0..store {
        if T::BITS > 140 && i + 9 < store && !c.rng.chance(1, if T::BITS > 600 { 40 } else { 8 }) { continue; }
        let want = (a.clone() >> i).is_odd();
        let want = if a.is_negative() { !(((-a - 1u32) as BigInt) >> i).is_odd() } else { want };
        eq(&format!("bit({})", i), &x.bit_(i), &want)?;
    }
    let over = store + c.rng.below(20);
    must_panic(&format!("bit({})", over), || x.bit_(over))
}
fn c22_type<T: Bnd>(cx: &mut Ctx, n: u64) {
    let max = max_of::<T>();
    let small = T::BITS <= 7;
    if small {
        let m = max.to_i64().unwrap();
        let lo = if T::SIGNED { -m } else { 0 };
        let (thorough, span) = (cx.thorough, (m - lo + 1) as u64);
        cx.cases(&format!("pairs {}", T::NAME), span, |c| {
            c.obs("type", T::NAME);
            let a = BigInt::from(lo + c.idx as i64);
            let mut b = lo;
            while b <= m {
                c22_pair::<T>(c, &a, &BigInt::from(b))?;
                tick();
                // all pairs in thorough; in quick the widest types are thinned
                b += if thorough || span <= 64 { 1 } else { 1 + c.rng.below(3) as i64 };
            }
            Ok(())
        });
        cx.cases(&format!("values {}", T::NAME), (6 * m + 20) as u64, |c| {
            c.obs("type", T::NAME);
            c22_one::<T>(c, &BigInt::from(c.idx as i64 - 3 * m - 10))
        });
    }
    cx.cases(&format!("random pairs {}", T::NAME), n, |c| {
        c.obs("type", T::NAME);
        let (a, mut b) = (pick::<T>(&mut c.rng), pick::<T>(&mut c.rng));
        match c.rng.below(8) {
            // sums and differences next to the limits
            0 => { let t = max_of::<T>() - &a + big(c.rng.below(3) as i128) - 1; if in_range::<T>(&t) { b = t } }
            1 => { let t = &a + big(c.rng.below(3) as i128) - 1; if in_range::<T>(&t) { b = t } }
            2 => { let t = -max_of::<T>() - &a + big(c.rng.below(3) as i128) - 1; if in_range::<T>(&t) { b = t } }
            3 => if !a.is_zero() { let t = max_of::<T>() / &a + big(c.rng.below(3) as i128) - 1; if in_range::<T>(&t) { b = t } },
            _ => {}
        }
        c22_pair::<T>(c, &a, &b)
    });
    cx.cases(&format!("random values {}", T::NAME), n, |c| {
        c.obs("type", T::NAME);
        let a = match c.rng.below(6) {
            0 => max_of::<T>() + big(c.rng.below(4) as i128) - 1,
            1 => -max_of::<T>() - big(c.rng.below(4) as i128) + 1,
            2 => { let m = mag(&mut c.rng, T::BITS + 9); if c.rng.chance(1, 2) { -m } else { m } }
            3 => big(c.rng.u128() as i128),
            _ => pick::<T>(&mut c.rng),
        };
        c22_one::<T>(c, &a)
    });
    let k = T::BITS as u64;
    // the widest types: a sample of the exponents, and those around the limit
    let thin = k > 600 && !cx.thorough;
    cx.cases(&format!("powers of two {}", T::NAME), if thin { 84 } else { k + 12 }, |c| {
        let e = if !thin { c.idx as usize } else if c.idx < 24 { (k + 11 - c.idx) as usize } else { c.rng.below(k as usize) };
        c.input(format!("{} 2^{}", T::NAME, e));
        let w = BigInt::one() << e;
        decide("pow2", only::<T>(w), attempt(|| val(T::p2(e))))
    });
    cx.cases(&format!("default {}", T::NAME), 1, |c| {
        c.input(T::NAME.into());
        eq("default", &val(T::default()), &BigInt::zero())
    });
    cx.cases(&format!("malformed hex {}", T::NAME), n / 10 + 5, |c| {
        let mut s = hex(&c.rng.uniform(1 + T::BITS / 16)).into_bytes();
        let i = c.rng.below(s.len());
        let what = c.rng.below(3);
        match what {
            0 => { s.pop(); }
            1 => s[i] = *c.rng.pick(b"gGzZ+- xX._"),
            _ => { s[i & !1] = b'+'; }
        }
        let s = String::from_utf8(s).unwrap();
        c.input(format!("{} {:?}", T::NAME, s));
        must_panic("from_hex of malformed hex", || T::hex_("+", &s))?;
        if T::SIGNED {
            must_panic("from_hex with a bad sign", || T::hex_(*["*", "++", "plus", " ", "0"].iter().nth((c.idx % 5) as usize).unwrap(), "05"))?;
        }
        Ok(())
    });
    if T::PUBLIC {
        cx.cases(&format!("modular powers {}", T::NAME), if T::BITS > 1000 { n / 10 + 1 } else { n / 4 + 5 }, |c| {
            let m = mag(&mut c.rng, T::BITS);
            if m.is_zero() { c.trivial = true; return Ok(()); }
            let a = mag(&mut c.rng, T::BITS);
            // the widest types: shorter exponents, to keep the cost down
            let e = mag(&mut c.rng, if T::BITS > 1000 { 80 } else { T::BITS });
            let lit = c.rng.edge(128) >> c.rng.below(127);
            c.input(format!("{} a={} e={} lit={} m={}", T::NAME, a, e, lit, m));
            let (ta, te, tm) = (T::from(a.clone()), T::from(e.clone()), T::from(m.clone()));
            decide("pow_felem", Some(a.modpow(&e, &m)), attempt(|| val(ta.powf(te, tm))))?;
            decide("pow", Some(naive_pow(&a, &BigInt::from(lit), &m)), attempt(|| val(ta.modpow(lit, tm))))
        });
    }
}
/// Square-and-multiply, independent of the library's modpow.
fn naive_pow(a: &BigInt, e: &BigInt, m: &BigInt) -> BigInt {
    let mut r = floor_mod(&BigInt::one(), m);
    let bits = e.to_str_radix(2);
    for ch in bits.chars() {
        r = &r * &r % m;
        if ch == '1' {
            r = r * a % m;
        }
    }
    r
}
fn c22(cx: &mut Ctx) {
    let n = cx.n(60, 60);
    bnd::small(cx, n);
    bnd::large(cx, n);
    bnd::wide::large(cx, cx.n(1, 1));
    c22_type::<bnd::Legacy61>(cx, n);
    c22_type::<hbnd::Hup>(cx, n);
    c22_type::<hbnd::Hsp>(cx, n);
    c22_type::<hbnd::Hus>(cx, n);
    c22_type::<hbnd::Hss>(cx, n);
    macro_rules! wraps { ($($t:ident)*) => {$(
        cx.cases(concat!("named operations ", stringify!($t)), n, |c| {
            let (a, b) = (pick::<hbnd::$t>(&mut c.rng), pick::<hbnd::$t>(&mut c.rng));
            c.input(format!("a={} b={}", a, b));
            let (x, y) = (hbnd::$t::from(a.clone()), hbnd::$t::from(b.clone()));
            decide("wrap_add", only::<hbnd::$t>(&a + &b), attempt(|| val(hbnd::wrap3(x, y, 0))))?;
            decide("wrap_sub", only::<hbnd::$t>(&a - &b), attempt(|| val(hbnd::wrap3(x, y, 1))))?;
            decide("wrap_mul", only::<hbnd::$t>(&a * &b), attempt(|| val(hbnd::wrap3(x, y, 2))))
        });
    )*}}
    wraps!(Hup Hsp Hus Hss);
    // histories: the value stays exact and in range whatever came before
    macro_rules! hist { ($($t:path)*) => {$({
        type T = $t;
        cx.cases(&format!("history {}", T::NAME), n, |c| {
            let mut v = pick::<T>(&mut c.rng);
            let mut x = T::from(v.clone());
            let mut log = format!("start {}", v);
            for _ in 0..30 {
                let w = pick::<T>(&mut c.rng);
                let y = T::from(w.clone());
                let op = c.rng.below(5);
                let (e, g) = match op {
                    0 => (only::<T>(&v + &w), attempt(|| x + y)),
                    1 => (only::<T>(&v - &w), attempt(|| x - y)),
                    2 => (only::<T>(&v * &w), attempt(|| x * y)),
                    3 if T::PUBLIC && !w.is_zero() => (only::<T>(&v / &w), attempt(|| x.div_(y))),
                    4 if T::PUBLIC && !w.is_zero() => (only::<T>(&v % &w), attempt(|| x.rem_(y))),
                    _ => continue,
                };
                log += &format!("; op{} {}", op, w);
                c.input(log.clone());
                tick();
                decide("history", e.clone(), g.clone().map(|t| val(t)))?;
                if let (Some(e), Ok(g)) = (e, g) { v = e; x = g; }
                eq("operand unchanged", &val(y), &w)?;
            }
            Ok(())
        });
    })*}}
    hist!(bnd::Up20 bnd::Sp20 bnd::Us20 bnd::Ss20 bnd::Up256 bnd::Sp256 bnd::Us256 bnd::Ss256 bnd::Up7 bnd::Sp7);
}

// ------------------------------------------------------------------ C23
trait Nm: Copy + std::fmt::Display + std::fmt::Debug
    + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self>
{
    const NAME: &'static str;
    const PUBLIC: bool;
    const BITS: usize;
    const HEX: &'static str;
    /// through the base type
    fn of(x: &BigInt) -> Self;
    fn get(self) -> BigInt;
    fn modulus() -> BigInt;
    fn lit(x: u128) -> Self;
    fn slit(x: i128) -> Self;
    fn hex_(s: &str) -> Self;
    fn from_le(v: &[u8]) -> Self;
    fn to_le(self) -> Vec<u8>;
    fn bit_(self, i: usize) -> bool;
    fn inv_(self) -> Self;
    fn powf(self, e: Self) -> Self;
    fn pow_(self, e: u128) -> Self;
    fn div_(self, o: Self) -> Self;
    fn rem_(self, o: Self) -> Self;
    fn cmp_(self, o: Self) -> (bool, Option<std::cmp::Ordering>, std::cmp::Ordering);
    fn default_() -> Self;
}
macro_rules! nm_common {
    ($n:ident, $base:ident, $bits:literal, $hex:literal, $pub:literal) => {
        const NAME: &'static str = stringify!($n);
        const PUBLIC: bool = $pub;
        const BITS: usize = $bits;
        const HEX: &'static str = $hex;
        fn of(x: &BigInt) -> Self { let b: $base = x.clone().into(); b.into() }
        fn get(self) -> BigInt { let b: $base = self.into(); let v: BigInt = b.into(); v }
        fn modulus() -> BigInt { let v: BigInt = $n::max().into(); v }
        fn lit(x: u128) -> Self { $n::from_literal(x) }
        fn slit(x: i128) -> Self { $n::from_signed_literal(x) }
        fn hex_(s: &str) -> Self { $n::from_hex(s) }
        fn from_le(v: &[u8]) -> Self { $n::from_le_bytes(v) }
        fn to_le(self) -> Vec<u8> { self.to_le_bytes() }
        fn bit_(self, i: usize) -> bool { self.bit(i) }
        fn default_() -> Self { $n::default() }
    };
}
macro_rules! nm_pub {
    ($n:ident) => {
        fn inv_(self) -> Self { $n::inv(self) }
        fn powf(self, e: Self) -> Self { self.pow_felem(e) }
        fn pow_(self, e: u128) -> Self { $n::pow(self, e) }
        fn div_(self, o: Self) -> Self { self / o }
        fn rem_(self, o: Self) -> Self { self % o }
        fn cmp_(self, o: Self) -> (bool, Option<std::cmp::Ordering>, std::cmp::Ordering) { (self == o, self.partial_cmp(&o), Ord::cmp(&self, &o)) }
    };
}
macro_rules! nm_sec {
    () => {
        fn inv_(self) -> Self { unreachable!() }
        fn powf(self, _: Self) -> Self { unreachable!() }
        fn pow_(self, _: u128) -> Self { unreachable!() }
        fn div_(self, _: Self) -> Self { unreachable!() }
        fn rem_(self, _: Self) -> Self { unreachable!() }
        fn cmp_(self, _: Self) -> (bool, Option<std::cmp::Ordering>, std::cmp::Ordering) { unreachable!() }
    };
}
mod nm {
    #![allow(unused, non_camel_case_types)]
    use super::Nm;
    use num::BigInt;
    use hacspec::prelude::*;
    macro_rules! types {
        ([$($n:ident $base:ident $bits:literal $hex:literal;)*] [$($sn:ident $sbase:ident $sbits:literal $shex:literal;)*]
         [$($hn:ident $hbase:ident $hbits:literal $hhex:literal;)*] [$($gn:ident $gbase:ident $gbits:literal $ghex:literal;)*]) => {
            $( abstract_public_nat_mod!($n, $base, $bits, $hex); impl Nm for $n { nm_common!($n, $base, $bits, $hex, true); nm_pub!($n); } )*
            $( abstract_nat_mod!($sn, $sbase, $sbits, $shex); impl Nm for $sn { nm_common!($sn, $sbase, $sbits, $shex, false); nm_sec!(); } )*
            $( public_nat_mod!($hn, $hbase, $hbits, $hhex); impl Nm for $hn { nm_common!($hn, $hbase, $hbits, $hhex, true); nm_pub!($hn); } )*
            $( nat_mod!($gn, $gbase, $gbits, $ghex); impl Nm for $gn { nm_common!($gn, $gbase, $gbits, $ghex, false); nm_sec!(); } )*
            pub fn all(cx: &mut hv::mon::Ctx, n: u64) {
                $( crate::c23_type::<$n>(cx, n); )*
                $( crate::c23_type::<$sn>(cx, n); )*
                $( crate::c23_type::<$hn>(cx, n); )*
                $( crate::c23_type::<$gn>(cx, n); )*
            }
            /// One drawn operation of each type, for interleaving them.
            pub fn table() -> Vec<fn(&mut hv::mon::Case) -> hv::mon::Res> {
                vec![ $( crate::c23_draw::<$n>, )* $( crate::c23_draw::<$sn>, )* $( crate::c23_draw::<$hn>, )* $( crate::c23_draw::<$gn>, )* ]
            }
            /// The named operations of the hacspec types, and the byte-sequence conversions of the public ones.
            pub fn seqs(cx: &mut hv::mon::Ctx, n: u64) {
                $( named::<$hn>(cx, n, |x, y, o| match o { 0 => x.wrap_add(y), 1 => x.wrap_sub(y), _ => x.wrap_mul(y) }); )*
                $( named::<$gn>(cx, n, |x, y, o| match o { 0 => x.wrap_add(y), 1 => x.wrap_sub(y), _ => x.wrap_mul(y) }); )*
                $( {
                    let m = <$hn as Nm>::modulus();
                    cx.cases(concat!("byte sequences ", stringify!($hn)), n, |c| {
                        let x = crate::residue(&mut c.rng, &m);
                        c.input(format!("{} x={}", stringify!($hn), x));
                        let f = <$hn as Nm>::of(&x);
                        let le = x.to_bytes_le().1;
                        let s = f.to_byte_seq_le();
                        hv::mon::eqb("to_byte_seq_le", &s.iter().map(|b| b.declassify()).collect::<Vec<u8>>(), &le)?;
                        let p = f.to_public_byte_seq_le();
                        hv::mon::eqb("to_public_byte_seq_le", &p.iter().map(|b| *b).collect::<Vec<u8>>(), &le)?;
                        hv::mon::eq("from_byte_seq_le", &<$hn>::from_byte_seq_le(s).get(), &x)?;
                        // arbitrary byte sequences: reduced, or refused when wider than the base type
                        let mut v = c.rng.bytes($hbits / 8 + 1);
                        let l = c.rng.below($hbits / 8 + 2);
                        v.truncate(l);
                        let val = BigInt::from_bytes_le(num::bigint::Sign::Plus, &v);
                        let fits = val < (BigInt::from(1) << $hbits);
                        let q = crate::floor_mod(&val, &m);
                        crate::decide("from_byte_seq_le", if fits { Some(q) } else { None }, hv::mon::attempt(|| <$hn>::from_byte_seq_le(Seq::<U8>::from_public_slice(&v)).get()))?;
                        let l = c.rng.edge(128) >> c.rng.below(120);
                        crate::decide("from_secret_literal", if BigInt::from(l) <= m { Some(crate::floor_mod(&BigInt::from(l), &m)) } else { None },
                            hv::mon::attempt(|| <$hn>::from_secret_literal(U128(l)).get()))
                    });
                } )*
            }
        };
    }
    fn named<T: Nm>(cx: &mut hv::mon::Ctx, n: u64, f: fn(T, T, u8) -> T) {
        let m = BigInt::parse_bytes(T::HEX.as_bytes(), 16).unwrap();
        cx.cases(&format!("named operations {}", T::NAME), n, |c| {
            let (a, b) = (crate::residue(&mut c.rng, &m), crate::residue(&mut c.rng, &m));
            let b = match c.rng.below(5) { 0 => crate::floor_mod(&-&a, &m), 1 => a.clone(), _ => b };
            c.input(format!("{} a={} b={}", T::NAME, a, b));
            c.obs("named", T::NAME);
            let (x, y) = (T::of(&a), T::of(&b));
            for (o, what, w) in [(0u8, "wrap_add", &a + &b), (1, "wrap_sub", &a - &b), (2, "wrap_mul", &a * &b)] {
                crate::canon(what, f(x, y, o), &crate::floor_mod(&w, &m), &m)?;
            }
            Ok(())
        });
    }
    // public, secret (abstract crate); public, secret (hacspec)
    types!(
        [
        P2 P2b 8 "02"; P3 P3b 8 "03"; P13 P13b 8 "0d"; C16 C16b 8 "10"; P31 P31b 5 "1f"; P251 P251b 8 "fb"; C255 C255b 8 "ff"; P257 P257b 9 "0101";
        P61 P61b 61 "1fffffffffffffff"; P64 P64b 64 "ffffffffffffffc5"; P127 P127b 127 "7fffffffffffffffffffffffffffffff";
        P255 P255b 256 "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed";
        P256 P256b 256 "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff";
        C128 C128b 128 "ffffffffffffffffffffffffffffffff";
        ] [
        S13 S13b 8 "0d"; S251 S251b 8 "fb"; SC255 SC255b 8 "ff"; S64 S64b 64 "ffffffffffffffc5"; S256 S256b 256 "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff";
        ] [
        H13 H13b 8 "0d"; H130 H130b 131 "03fffffffffffffffffffffffffffffffb"; H255 H255b 256 "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed"; H64 H64b 64 "ffffffffffffffc5";
        ] [
        G13 G13b 8 "0d"; G130 G130b 131 "03fffffffffffffffffffffffffffffffb";
        ]
    );
    /// Moduli far wider than a machine word times four.
    pub mod wide {
        use crate::Nm;
        use super::named;
        use num::BigInt;
        use hacspec::prelude::*;
        types!(
            [ W521 W521b 521 "01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"; W1024 W1024b 1024 "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff97"; ]
            [ WS1024 WS1024b 1030 "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff97"; ]
            [ WH521 WH521b 521 "01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"; WH2048 WH2048b 2056 "7ffffffffffffffffffffffffffffff80000000000000000000000000000000000000000000000000fffffffffffffffffffffffffffffff0000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000b67fffffffffffffffffffffffffffef2ffffffffffffffffffffffffffffffffffffffffffffffff52fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff4a37"; ]
            [ WG2048 WG2048b 2048 "7ffffffffffffffffffffffffffffff80000000000000000000000000000000000000000000000000fffffffffffffffffffffffffffffff0000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000b67fffffffffffffffffffffffffffef2ffffffffffffffffffffffffffffffffffffffffffffffff52fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff4a37"; ]
        );
    }
    /// Types that share their name and width with those above, and much of the modulus.
    pub mod rivals {
        use crate::Nm;
        use super::named;
        use num::BigInt;
        use hacspec::prelude::*;
        types!(
            [ P13 P13b 8 "1d"; P251 P251b 8 "2b"; C255 C255b 8 "fd"; P64 P64b 64 "fffffffffffffe95"; P127 P127b 127 "7ffffffffffffffccfffffffffffffff"; P256 P256b 256 "ffffffff00000001000000000000005b00000000ffffffffffffffffffffffff"; ]
            [ S13 S13b 8 "ad"; S64 S64b 64 "fffffffffffff095"; S256 S256b 256 "ffffffff0000000100000000000000000000000100000000000000000000072f"; ]
            [ H13 H13b 8 "9d"; H130 H130b 131 "03ffffffffffffffff2ffffffffffffffb"; H255 H255b 256 "7fffffffffffffffffffffffffffffffffffffffffffffeeffffffffffffffed"; H64 H64b 64 "fffffffffffff115"; ]
            [ G13 G13b 8 "3d"; G130 G130b 131 "03ffffffffffffffff2ffffffffffffffb"; ]
        );
    }
    define_abstract_integer_checked!(Leg64, 64);
    define_refined_modular_integer!(Leg61, Leg64, Leg64::pow2(61) - Leg64::from_literal(1));
    impl Nm for Leg61 { nm_common!(Leg61, Leg64, 64, "1fffffffffffffff", true); nm_pub!(Leg61); }
    pub fn legacy(cx: &mut hv::mon::Ctx, n: u64) { crate::c23_type::<Leg61>(cx, n); }
}
fn residue(r: &mut Rng, m: &BigInt) -> BigInt {
    match r.below(9) {
        0 => big(r.below(3) as i128) % m,
        1 => floor_mod(&(m - big(1 + r.below(3) as i128)), m),
        2 => (m.clone() >> 1usize) + big(r.below(2) as i128) % m,
        3 => floor_mod(&mag(r, m.bits()), m),
        4 => floor_mod(&BigInt::from(r.edge(128)), m),
        _ => BigInt::from_bytes_le(Sign::Plus, &r.uniform(m.bits() / 8 + 9)) % m,
    }
    .mod_floor(m)
}
thread_local! { static PRIME: RefCell<BTreeMap<String, bool>> = RefCell::new(BTreeMap::new()); }
/// Miller-Rabin with many fixed bases (the moduli are fixed).
fn is_prime(n: &BigInt) -> bool {
    let k = n.to_string();
    if let Some(b) = PRIME.with(|p| p.borrow().get(&k).cloned()) {
        return b;
    }
    let r = (|| {
        if *n < big(2) { return false; }
        for p in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
            let p = BigInt::from(p);
            if *n == p { return true; }
            if (n % &p).is_zero() { return false; }
        }
        let one = BigInt::one();
        let nm = n - &one;
        let mut d = nm.clone();
        let mut s = 0;
        while d.is_even() { d = d >> 1usize; s += 1; }
        'a: for p in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61] {
            let mut x = naive_pow(&BigInt::from(p), &d, n);
            if x == one || x == nm { continue; }
            for _ in 0..s {
                x = &x * &x % n;
                if x == nm { continue 'a; }
            }
            return false;
        }
        true
    })();
    PRIME.with(|p| p.borrow_mut().insert(k, r));
    r
}
fn canon<T: Nm>(what: &str, x: T, want: &BigInt, n: &BigInt) -> Res {
    let g = x.get();
    ensure(!g.is_negative() && g < *n, || format!("{}: {} is not in [0, {})", what, g, n))?;
    eq(what, &g, want)
}
fn c23_pair<T: Nm>(c: &mut Case, a: &BigInt, b: &BigInt, n: &BigInt) -> Res {
    c.input(format!("{} a={} b={}", T::NAME, a, b));
    let (x, y) = (T::of(a), T::of(b));
    canon("+", x + y, &((a + b) % n), n)?;
    canon("-", x - y, &floor_mod(&(a - b), n), n)?;
    canon("*", x * y, &((a * b) % n), n)?;
    if T::PUBLIC {
        let o = a.cmp(b);
        eq("comparison", &x.cmp_(y), &(o.is_eq(), Some(o), o))?;
        if b.is_zero() {
            must_panic("/ 0", || x.div_(y).get())?;
            must_panic("% 0", || x.rem_(y).get())?;
        } else {
            // integer division of the residues
            canon("/", x.div_(y), &(a / b), n)?;
            canon("%", x.rem_(y), &(a % b), n)?;
        }
    }
    Ok(())
}
fn c23_one<T: Nm>(c: &mut Case, a: &BigInt, n: &BigInt) -> Res {
    c.input(format!("{} x={}", T::NAME, a));
    let x = T::of(a);
    canon("from base", x, a, n)?;
    eq("Display", &format!("{}", x), &a.to_string())?;
    eq("Debug", &format!("{:?}", x), &a.to_string())?;
    let le = x.to_le();
    eqb("to_le_bytes", &le, &a.to_bytes_le().1)?;
    canon("from_le_bytes", T::from_le(&le), a, n)?;
    canon("from_hex", T::hex_(&hex(&a.to_bytes_be().1)), a, n)?;
    for i in 0..T::BITS {
        if T::BITS < 40 || c.rng.chance(1, 8) {
            eq(&format!("bit({})", i), &x.bit_(i), &(a.clone() >> i).is_odd())?;
        }
    }
    if T::PUBLIC {
        for e in [0u128, 1, 2, 3, 7, 65537, c.rng.edge(128), c.rng.u64() as u128] {
            canon(&format!("pow({})", e), x.pow_(e), &naive_pow(a, &BigInt::from(e), n), n)?;
        }
        let e = residue(&mut c.rng, n);
        canon(&format!("pow_felem({})", e), x.powf(T::of(&e)), &naive_pow(a, &e, n), n)?;
        if is_prime(n) && !a.is_zero() {
            let i = x.inv_();
            canon("x * inv(x)", i * x, &(BigInt::one() % n), n)?;
            ensure(i.get() < *n && !i.get().is_negative(), || "inv range".into())?;
            c.obs("inverse", T::NAME);
        }
    }
    Ok(())
}
fn c23_draw<T: Nm>(c: &mut Case) -> Res {
    let n = BigInt::parse_bytes(T::HEX.as_bytes(), 16).unwrap();
    c.obs("side by side", format!("{} {}", T::NAME, T::HEX));
    tick();
    let (a, b) = (residue(&mut c.rng, &n), residue(&mut c.rng, &n));
    c23_pair::<T>(c, &a, &b, &n)?;
    let x = T::of(&a);
    if T::PUBLIC && c.rng.chance(1, 3) { canon("pow", x.pow_(5), &naive_pow(&a, &big(5), &n), &n)?; }
    eq("max()", &T::modulus(), &n)?;
    canon("from_hex", T::hex_(&hex(&a.to_bytes_be().1)), &a, &n)
}
fn c23_type<T: Nm>(cx: &mut Ctx, cases: u64) {
    let n = BigInt::parse_bytes(T::HEX.as_bytes(), 16).unwrap();
    let small = n < big(300);
    cx.cases(&format!("modulus {}", T::NAME), 1, |c| {
        c.input(T::NAME.into());
        eq("max()", &T::modulus(), &n)?;
        eq("default", &T::default_().get(), &BigInt::zero())
    });
    if small {
        let m = n.to_u64().unwrap();
        cx.cases(&format!("all pairs {}", T::NAME), m, |c| {
            c.obs("type", T::NAME);
            let a = BigInt::from(c.idx);
            c23_one::<T>(c, &a, &n)?;
            for b in 0..m {
                c23_pair::<T>(c, &a, &BigInt::from(b), &n)?;
                tick();
            }
            Ok(())
        });
    } else {
        cx.cases(&format!("pairs {}", T::NAME), cases, |c| {
            c.obs("type", T::NAME);
            let a = residue(&mut c.rng, &n);
            let b = match c.rng.below(6) {
                0 => floor_mod(&(&n - &a), &n),
                1 => a.clone(),
                2 => floor_mod(&(&a + 1), &n),
                _ => residue(&mut c.rng, &n),
            };
            c23_pair::<T>(c, &a, &b, &n)?;
            c23_one::<T>(c, &a, &n)
        });
    }
    // constructors: anything the base type holds is reduced, anything else is refused
    let base_max = (BigInt::one() << T::BITS) - 1;
    cx.cases(&format!("constructors {}", T::NAME), cases + 40, |c| {
        c.obs("type", T::NAME);
        let x = match c.rng.below(5) {
            0 => &n + big(c.rng.below(5) as i128) - 2,
            1 => &base_max - big(c.rng.below(3) as i128),
            2 => &base_max + 1,
            3 => &n * big(c.rng.below(4) as i128) + residue(&mut c.rng, &n),
            _ => mag(&mut c.rng, T::BITS + 3),
        };
        let x = if x.is_negative() { BigInt::zero() } else { x };
        c.input(format!("{} x={}", T::NAME, x));
        let fits = x <= base_max;
        c.obs("constructor", format!("{} {}", if x < n { "residue" } else if fits { "needs reduction" } else { "does not fit" }, T::PUBLIC));
        let want = if fits { Some(&x % &n) } else { None };
        decide("from_hex", want.clone(), attempt(|| T::hex_(&hex(&x.to_bytes_be().1)).get()))?;
        decide("from_le_bytes", want.clone(), attempt(|| T::from_le(&x.to_bytes_le().1).get()))?;
        decide("from base", want, attempt(|| T::of(&x).get()))?;
        // literals up to the modulus
        let l = match c.rng.below(3) { 0 => n.to_u128().unwrap_or(u128::MAX).wrapping_add(c.rng.below(5) as u128).wrapping_sub(2), 1 => c.rng.edge(128), _ => c.rng.edge(128) >> c.rng.below(127) };
        let bl = BigInt::from(l);
        let want = if bl < n { Some(bl.clone()) } else if bl == n { Some(BigInt::zero()) } else { None };
        match attempt(|| T::lit(l).get()) {
            // larger literals: refused or reduced, never a wrong residue
            Ok(g) => eq(&format!("from_literal({})", l), &g, &(&bl % &n))?,
            Err(p) => ensure(want.is_none(), || format!("from_literal({}): {}", l, p))?,
        }
        let s = match c.rng.below(3) { 0 => -(c.rng.below(300) as i128), 1 => (c.rng.edge(128) >> c.rng.below(127)) as i128, _ => -((c.rng.edge(127) >> c.rng.below(126)) as i128) };
        let bs = BigInt::from(s);
        match attempt(|| T::slit(s).get()) {
            Ok(g) => eq(&format!("from_signed_literal({})", s), &g, &floor_mod(&bs, &n))?,
            Err(p) => ensure(bs.abs() > n, || format!("from_signed_literal({}): {}", s, p))?,
        }
        Ok(())
    });
    cx.cases(&format!("malformed hex {}", T::NAME), 8, |c| {
        let s = ["0", "0g", "+1", "-1", "0x10", " 1", "1 ", "zz"][c.idx as usize];
        c.input(format!("{} {:?}", T::NAME, s));
        must_panic("from_hex of malformed hex", || T::hex_(s).get())
    });
    // chains of operations against a model
    cx.cases(&format!("chain {}", T::NAME), cases / 2 + 5, |c| {
        let mut v = residue(&mut c.rng, &n);
        let mut x = T::of(&v);
        let mut log = format!("{} start {}", T::NAME, v);
        for _ in 0..40 {
            let w = residue(&mut c.rng, &n);
            let y = T::of(&w);
            let op = c.rng.below(if T::PUBLIC { 7 } else { 3 });
            log += &format!("; op{} {}", op, w);
            match op {
                0 => { x = x + y; v = (&v + &w) % &n; }
                1 => { x = x - y; v = floor_mod(&(&v - &w), &n); }
                2 => { x = x * y; v = &v * &w % &n; }
                3 => { let e = c.rng.below(20) as u128; x = x.pow_(e); v = naive_pow(&v, &BigInt::from(e), &n); }
                4 => if !v.is_zero() && is_prime(&n) { x = x.inv_(); v = naive_pow(&v, &(&n - 2), &n); },
                5 => if !w.is_zero() { x = x.div_(y); v = &v / &w; },
                _ => { x = x - x + y; v = w.clone(); }
            }
            c.input(log.clone());
            tick();
            canon("chain", x, &v, &n)?;
            canon("operand unchanged", y, &w, &n)?;
        }
        Ok(())
    });
}
fn c23(cx: &mut Ctx) {
    let n = cx.n(40, 40);
    nm::all(cx, n);
    nm::legacy(cx, n);
    nm::seqs(cx, n);
    nm::rivals::all(cx, cx.n(1, 10));
    nm::rivals::seqs(cx, cx.n(1, 10));
    // what one type computes does not depend on the others
    let mut all = nm::table();
    all.extend(nm::rivals::table());
    all.extend(nm::wide::table());
    cx.cases("side by side", cx.n(40, 400), |c| {
        for _ in 0..60 {
            let f = *c.rng.pick(&all);
            f(c)?;
        }
        Ok(())
    });
    nm::wide::all(cx, cx.n(1, 1));
    nm::wide::seqs(cx, n);
}

// ------------------------------------------------------------------ C27
use poly_types::*;
mod poly_types {
    #![allow(unused)]
    use hacspec::prelude::*;
    use num::bigint::BigInt;
    /// Coefficient types of the polynomial functions.
    pub trait Co: Integer + Copy + Debug {
        const NAME: &'static str;
        const SIGNED: bool;
        fn of(x: &BigInt) -> Self;
        fn big(self) -> BigInt;
    }
    macro_rules! co { ($($t:ident $s:literal),*) => {$( impl Co for $t {
        const NAME: &'static str = stringify!($t);
        const SIGNED: bool = $s;
        fn of(x: &BigInt) -> Self { num::ToPrimitive::to_i128(x).map(|v| v as $t).unwrap_or_else(|| num::ToPrimitive::to_u128(x).unwrap() as $t) }
        fn big(self) -> BigInt { BigInt::from(self) }
    } )*}}
    co!(u128 false, i128 true, u64 false, i64 true, i32 true, u32 false, i16 true, i8 true, u16 false, u8 false);
    impl Co for U64 {
        const NAME: &'static str = "U64";
        const SIGNED: bool = false;
        fn of(x: &BigInt) -> Self { U64(num::ToPrimitive::to_u64(x).unwrap()) }
        fn big(self) -> BigInt { BigInt::from(self.0) }
    }
    pub fn padd<T: Co>(x: &[T], y: &[T], n: T) -> Vec<T> { poly_add(x, y, n) }
    pub fn psub<T: Co>(x: &[T], y: &[T], n: T) -> Vec<T> { poly_sub(x, y, n) }
    pub fn pmul<T: Co>(x: &[T], y: &[T], n: T) -> Vec<T> { poly_mul(x, y, n) }
    pub fn pdiv<T: Co>(x: &[T], y: &[T], n: T) -> (Vec<T>, Vec<T>) { poly_div(x, y, n) }
    pub fn pinv<T: Co>(x: &[T], y: &[T], n: T) -> Result<Vec<T>, &'static str> { extended_euclid(x, y, n) }
    pub fn lead<T: Co>(x: &[T]) -> (usize, T) { leading_coefficient(x) }

    /// What the `poly!` macro defines, behind one interface.
    pub trait Ring: Copy {
        const NAME: &'static str;
        const L: usize;
        fn modulus() -> i128;
        fn irr() -> Vec<(usize, i128)>;
        fn sparse(p: &[(usize, i128)]) -> Self;
        fn full(p: &[i128]) -> Self;
        fn vec(p: &[i128]) -> Self;
        fn co(&self) -> Vec<i128>;
        fn irrc(&self) -> Vec<i128>;
        fn nc(&self) -> i128;
        fn add_(self, o: Self) -> Self;
        fn sub_(self, o: Self) -> Self;
        fn mul_(self, o: Self) -> Self;
        fn div_(self, o: Self) -> (Self, Self);
        fn inv_(self) -> Self;
        fn eq_(&self, o: &Self) -> bool;
        fn random_() -> Self;
        fn debug(&self) -> String;
    }
    macro_rules! ring {
        ($($m:ident $n:ident $t:ident $l:literal $q:literal [$(($d:literal, $c:literal)),*];)*) => {
            $(
                pub mod $m {
                    use super::Ring;
                    use hacspec::prelude::*;
                    poly!($n, $t, $l, ($q as $t), &[$(($d, $c)),*]);
                    #[derive(Clone, Copy)]
                    pub struct W($n);
                    impl Ring for W {
                        const NAME: &'static str = stringify!($n);
                        const L: usize = $l;
                        fn modulus() -> i128 { $q }
                        fn irr() -> Vec<(usize, i128)> { vec![$(($d, $c)),*] }
                        fn sparse(p: &[(usize, i128)]) -> Self { W($n::new(&p.iter().map(|(d, c)| (*d, *c as $t)).collect::<Vec<_>>())) }
                        fn full(p: &[i128]) -> Self { let mut a = [0 as $t; $l]; for i in 0..$l { a[i] = p[i] as $t; } W($n::new_full(a)) }
                        fn vec(p: &[i128]) -> Self { W($n::from_vec(p.iter().map(|c| *c as $t).collect())) }
                        fn co(&self) -> Vec<i128> { self.0.poly.iter().map(|c| *c as i128).collect() }
                        fn irrc(&self) -> Vec<i128> { self.0.irr.iter().map(|c| *c as i128).collect() }
                        fn nc(&self) -> i128 { self.0.n as i128 }
                        fn add_(self, o: Self) -> Self { W(self.0 + o.0) }
                        fn sub_(self, o: Self) -> Self { W(self.0 - o.0) }
                        fn mul_(self, o: Self) -> Self { W(self.0 * o.0) }
                        fn div_(self, o: Self) -> (Self, Self) { let (q, r) = self.0 / o.0; (W(q), W(r)) }
                        fn inv_(self) -> Self { W(self.0.inv()) }
                        fn eq_(&self, o: &Self) -> bool { self.0 == o.0 }
                        fn random_() -> Self { W($n::random()) }
                        fn debug(&self) -> String { format!("{:?}", self.0) }
                    }
                }
            )*
            pub fn rings(cx: &mut hv::mon::Ctx, n: u64, long: u64) { $( super::c27_ring::<$m::W>(cx, if $l < 100 { n } else { long }); )* }
            /// One drawn case of each ring, for interleaving them.
            pub fn table() -> Vec<fn(&mut hv::mon::Case) -> hv::mon::Res> { let mut v: Vec<fn(&mut hv::mon::Case) -> hv::mon::Res> = vec![]; $( if $l < 12 { v.push(super::c27_ring_case::<$m::W>); } )* v }
            pub fn randoms(cx: &mut hv::mon::Ctx) { $( super::c27_random::<$m::W>(cx); )* }
        };
    }
    ring!(
        r1 F2x3 u128 3 2 [(0, 1), (1, 1), (3, 1)];
        r2 F3x3 u128 3 3 [(0, 2), (1, 2), (3, 1)];
        r3 F3x3s i128 3 3 [(0, 2), (1, 2), (3, 1)];
        r4 F11x4 u128 4 11 [(0, 2), (1, 10), (4, 1)];
        r5 F7x2 i128 2 7 [(0, 1), (2, 1)];
        r6 Kyber8 u128 8 3329 [(0, 1), (8, 1)];
        r7 Ntru11 u128 11 3 [(0, 2), (11, 1)];
        r8 NtruP7 u128 7 4591 [(0, 4590), (1, 4590), (7, 1)];
        r9 NonMonic u128 3 7 [(0, 3), (1, 5), (3, 4)];
        r10 Fq u64 5 65537 [(0, 65534), (5, 1)];
        r11 Fi i64 4 251 [(0, 7), (1, 3), (4, 2)];
        r12 Wide u128 6 1000000007 [(0, 5), (1, 1), (6, 1)];
        r13 Lin u128 1 13 [(0, 4), (1, 1)];
        r14 Ntru131 i128 131 3 [(0, 2), (131, 1)];
        r15 NtruP257 u128 257 4591 [(0, 4590), (1, 4590), (257, 1)];
        r16 Kyber300 u64 300 3329 [(0, 1), (300, 1)];
        // the same names, degrees and moduli with other irreducibles
        r17 F2x3 u128 3 2 [(0, 1), (2, 1), (3, 1)];
        r18 F3x3 u128 3 3 [(0, 1), (1, 2), (3, 1)];
        r19 F11x4 u128 4 11 [(0, 2), (1, 4), (4, 1)];
        r20 Kyber8 u128 8 3329 [(0, 1), (4, 5), (8, 1)];
        r21 NtruP7 u128 7 4591 [(0, 4590), (2, 4590), (7, 1)];
        r22 Lin u128 1 13 [(0, 9), (1, 1)];
        r23 F7x2 i128 2 7 [(0, 3), (1, 6), (2, 1)];
        // and with other moduli
        r24 Kyber8 u128 8 7681 [(0, 1), (8, 1)];
        r25 F3x3s i128 3 5 [(0, 2), (1, 3), (3, 1)];
    );
}
type P = Vec<BigInt>;
fn trim(mut p: P) -> P {
    while p.last().map(|c| c.is_zero()).unwrap_or(false) {
        p.pop();
    }
    p
}
fn red(p: &P, n: &BigInt) -> P {
    if n.is_zero() { trim(p.clone()) } else { trim(p.iter().map(|c| floor_mod(c, n)).collect()) }
}
fn o_add(a: &P, b: &P, n: &BigInt) -> P {
    let z = BigInt::zero();
    red(&(0..a.len().max(b.len())).map(|i| a.get(i).unwrap_or(&z) + b.get(i).unwrap_or(&z)).collect(), n)
}
fn o_sub(a: &P, b: &P, n: &BigInt) -> P {
    let z = BigInt::zero();
    red(&(0..a.len().max(b.len())).map(|i| a.get(i).unwrap_or(&z) - b.get(i).unwrap_or(&z)).collect(), n)
}
fn o_mul(a: &P, b: &P, n: &BigInt) -> P {
    let mut o = vec![BigInt::zero(); a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            o[i + j] += x * y;
        }
    }
    red(&o, n)
}
fn inv_mod(a: &BigInt, n: &BigInt) -> Option<BigInt> {
    let e = floor_mod(a, n).extended_gcd(n);
    if e.gcd.is_one() { Some(floor_mod(&e.x, n)) } else { None }
}
/// Division in Z_n[x] (n prime or leading coefficient of b invertible).
fn o_div(a: &P, b: &P, n: &BigInt) -> Option<(P, P)> {
    let b = red(b, n);
    let mut r = red(a, n);
    let li = inv_mod(b.last()?, n)?;
    let mut q = vec![BigInt::zero(); r.len()];
    while r.len() >= b.len() {
        let d = r.len() - b.len();
        let t = floor_mod(&(r.last().unwrap() * &li), n);
        for (i, c) in b.iter().enumerate() {
            r[i + d] = floor_mod(&(&r[i + d] - &t * c), n);
        }
        q[d] = t;
        r = trim(r);
        if r.is_empty() { break; }
    }
    Some((trim(q), r))
}
fn o_gcd_is_one(a: &P, b: &P, n: &BigInt) -> bool {
    let (mut x, mut y) = (red(a, n), red(b, n));
    while !y.is_empty() {
        let r = o_div(&x, &y, n).unwrap().1;
        x = y;
        y = r;
    }
    x.len() == 1
}
fn bigs<T: Co>(v: &[T]) -> P {
    v.iter().map(|c| c.big()).collect()
}
fn tos<T: Co>(v: &P) -> Vec<T> {
    v.iter().map(|c| T::of(c)).collect()
}
/// Every coefficient in [0, n).
fn reduced(what: &str, p: &P, n: &BigInt) -> Res {
    for c in p {
        ensure(!c.is_negative() && c < n, || format!("{}: coefficient {} is not in [0, {})", what, c, n))?;
    }
    Ok(())
}
fn gen_poly(r: &mut Rng, max_len: usize, bound: &BigInt, signed: bool) -> P {
    let len = r.below(max_len + 1);
    let style = r.below(6);
    (0..len)
        .map(|i| {
            let c = match style {
                0 => if r.chance(1, 4) { residue(r, bound) } else { BigInt::zero() },
                1 => bound - 1,
                2 => if i + 1 == len { BigInt::one() % bound } else { residue(r, bound) },
                _ => residue(r, bound),
            };
            if signed && r.chance(1, 2) { -c } else { c }
        })
        .collect()
}
/// The same polynomial with other representatives of some coefficients.
fn lift(r: &mut Rng, p: &P, n: &BigInt) -> P {
    p.iter().map(|c| { let m = [0, 0, 1, 1, 2, 4][r.below(6)]; let m = big(m) * n; if r.chance(1, 4) { m } else if c.is_negative() { c - m } else { c + m } }).collect()
}
fn c27_mod<T: Co>(cx: &mut Ctx, cases: u64, primes: &[i128]) {
    cx.cases(&format!("mod n {}", T::NAME), cases, |c| {
        let n = big(*c.rng.pick(primes));
        let tn = T::of(&n);
        let signed = T::SIGNED && c.rng.chance(1, 2);
        let a = gen_poly(&mut c.rng, 12, &n, signed);
        let b = gen_poly(&mut c.rng, 12, &n, signed);
        // coefficients need not be reduced: multiples of n, and representatives above it
        let wide = big(36) * &n * &n < BigInt::one() << (T::NUM_BITS as usize - T::SIGNED as usize) && c.rng.chance(1, 3);
        let (a, b) = if wide { (lift(&mut c.rng, &a, &n), lift(&mut c.rng, &b, &n)) } else { (a, b) };
        c.obs("coefficients", if wide { "unreduced" } else { "reduced" });
        c.obs("type", T::NAME);
        c.obs("lengths", format!("{},{}", a.len(), b.len()));
        c.obs("modulus", format!("{}", n));
        c.input(format!("{} n={} a={:?} b={:?}", T::NAME, n, strs(&a), strs(&b)));
        let (x, y) = (tos::<T>(&a), tos::<T>(&b));
        for (what, got, want) in [("add", padd(&x, &y, tn), o_add(&a, &b, &n)), ("sub", psub(&x, &y, tn), o_sub(&a, &b, &n)), ("mul", pmul(&x, &y, tn), o_mul(&a, &b, &n))] {
            let g = bigs(&got);
            reduced(what, &g, &n)?;
            eq(what, &strs(&trim(g)), &strs(&want))?;
        }
        eq("add length", &padd(&x, &y, tn).len(), &a.len().max(b.len()))?;
        eqs("inputs unchanged", &bigs(&x), &a)?;
        Ok(())
    });
    cx.cases(&format!("division mod n {}", T::NAME), cases, |c| {
        let n = big(*c.rng.pick(primes));
        let tn = T::of(&n);
        let a = gen_poly(&mut c.rng, 14, &n, false);
        let mut b = gen_poly(&mut c.rng, 9, &n, false);
        if red(&b, &n).is_empty() { b = vec![BigInt::one()]; }
        if n.is_one() { c.trivial = true; return Ok(()); }
        // some divisors carry leading zero coefficients
        for _ in 0..c.rng.below(3) { b.push(BigInt::zero()); }
        c.input(format!("{} n={} a={:?} b={:?}", T::NAME, n, strs(&a), strs(&b)));
        let wide = big(36) * &n * &n < BigInt::one() << (T::NUM_BITS as usize - T::SIGNED as usize) && c.rng.chance(1, 3);
        let (a, b) = if wide { (lift(&mut c.rng, &a, &n), { let d = trim(b.clone()).len(); let mut l = lift(&mut c.rng, &b, &n); l[d - 1] = b[d - 1].clone(); for x in &mut l[d..] { *x = BigInt::zero(); } l }) } else { (a, b) };
        c.obs("division coefficients", if wide { "unreduced" } else { "reduced" });
        c.input(format!("{} n={} a={:?} b={:?}", T::NAME, n, strs(&a), strs(&b)));
        let (x, y) = (tos::<T>(&a), tos::<T>(&b));
        let lc = trim(b.clone()).last().unwrap().clone();
        let invertible = lc.gcd(&n).is_one();
        c.obs("division", format!("{} {}", T::NAME, if invertible { "possible" } else { "refused" }));
        match attempt(|| pdiv(&x, &y, tn)) {
            Ok((q, r)) => {
                let (q, r) = (bigs(&q), bigs(&r));
                reduced("quotient", &q, &n)?;
                reduced("remainder", &r, &n)?;
                let back = o_add(&o_mul(&q, &b, &n), &r, &n);
                eqs("a = q*b + r", &back, &red(&a, &n))?;
                ensure(trim(r.clone()).len() < trim(b.clone()).len(), || format!("deg r >= deg b: r={:?}", strs(&r)))?;
                if invertible {
                    let (wq, wr) = o_div(&a, &b, &n).unwrap();
                    eqs("quotient", &trim(q), &wq)?;
                    eqs("remainder", &trim(r), &wr)?;
                }
                Ok(())
            }
            Err(p) => ensure(!invertible, || format!("division: {}", p)),
        }
    });
    cx.cases(&format!("leading coefficient {}", T::NAME), cases / 4 + 1, |c| {
        let a = gen_poly(&mut c.rng, 12, &big(100), T::SIGNED);
        let mut a2 = a.clone();
        for _ in 0..c.rng.below(4) { a2.push(BigInt::zero()); }
        c.input(format!("{:?}", strs(&a2)));
        let (d, k) = lead(&tos::<T>(&a2));
        let t = trim(a);
        eq("degree", &d, &t.len().saturating_sub(1))?;
        eq("coefficient", &k.big(), &t.last().cloned().unwrap_or_default())
    });
    // inversion modulo a polynomial over a prime field
    let fields: Vec<i128> = primes.iter().cloned().filter(|p| is_prime(&big(*p))).collect();
    cx.cases(&format!("inversion {}", T::NAME), cases, |c| {
        let n = big(*c.rng.pick(&fields));
        let tn = T::of(&n);
        let d = c.rng.range(1, 7);
        let mut m: P = (0..d).map(|_| residue(&mut c.rng, &n)).collect();
        m.push({ let l = residue(&mut c.rng, &n); if l.is_zero() { BigInt::one() } else { l } });
        let mut a = gen_poly(&mut c.rng, d, &n, false);
        if c.rng.chance(1, 6) {
            // share a factor with m: not invertible
            let f = vec![residue(&mut c.rng, &n), BigInt::one()];
            m = o_mul(&m, &f, &n);
            a = o_mul(&a, &f, &n);
        }
        let md = m.len() - 1;
        a.truncate(md);
        c.input(format!("{} n={} a={:?} m={:?}", T::NAME, n, strs(&a), strs(&m)));
        let inv = o_gcd_is_one(&a, &m, &n);
        c.obs("invertible", format!("{} {}", T::NAME, inv));
        match attempt(|| pinv(&tos::<T>(&a), &tos::<T>(&m), tn)) {
            Ok(Ok(i)) => {
                let i = bigs(&i);
                ensure(inv, || format!("inverted a non-invertible element: {:?}", strs(&i)))?;
                reduced("inverse", &i, &n)?;
                let one = o_div(&o_mul(&i, &a, &n), &m, &n).unwrap().1;
                eqs("a * inv(a) mod m", &one, &vec![BigInt::one()])
            }
            Ok(Err(e)) => ensure(!inv, || format!("invertible element refused: {}", e)),
            Err(p) => ensure(!inv, || format!("invertible element: {}", p)),
        }
    });
}
fn strs(p: &P) -> String {
    format!("[{}]", p.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","))
}
fn eqs(what: &str, got: &P, want: &P) -> Res {
    if trim(got.clone()) == trim(want.clone()) { Ok(()) } else { Err(format!("{}: got {} want {}", what, strs(got), strs(want))) }
}
/// Over the integers (n = 0): exact, or a panic when a coefficient leaves the type or the
/// division is not exact.
fn c27_int<T: Co>(cx: &mut Ctx, cases: u64, bound: i128) {
    let z = BigInt::zero();
    let fits = |p: &P| p.iter().all(|c| T::SIGNED || !c.is_negative());
    cx.cases(&format!("integers {}", T::NAME), cases, |c| {
        let b0 = big(bound) >> c.rng.below(20);
        let b0 = if b0.is_zero() { BigInt::one() } else { b0 };
        let a = gen_poly(&mut c.rng, 12, &b0, T::SIGNED);
        let b = gen_poly(&mut c.rng, 12, &b0, T::SIGNED);
        c.obs("type", format!("{} over Z", T::NAME));
        c.input(format!("{} a={} b={}", T::NAME, strs(&a), strs(&b)));
        let (x, y) = (tos::<T>(&a), tos::<T>(&b));
        let zero = T::of(&z);
        eqs("add", &bigs(&padd(&x, &y, zero)), &o_add(&a, &b, &z))?;
        eqs("mul", &bigs(&pmul(&x, &y, zero)), &o_mul(&a, &b, &z))?;
        let d = o_sub(&a, &b, &z);
        match attempt(|| psub(&x, &y, zero)) {
            Ok(g) => eqs("sub", &bigs(&g), &d),
            Err(p) => ensure(!fits(&d), || format!("sub: {}", p)),
        }
    });
    cx.cases(&format!("integer division {}", T::NAME), cases, |c| {
        let b0 = big(1 + c.rng.below(12) as i128);
        let mut b = gen_poly(&mut c.rng, 6, &b0, T::SIGNED);
        let monic = c.rng.chance(1, 2);
        if monic { b = trim(b); b.push(BigInt::one()); }
        if trim(b.clone()).is_empty() { b = vec![BigInt::one()]; }
        let exact = c.rng.chance(2, 3);
        let q0 = gen_poly(&mut c.rng, 6, &b0, T::SIGNED);
        let mut a = if exact { o_mul(&q0, &b, &z) } else { gen_poly(&mut c.rng, 12, &b0, T::SIGNED) };
        if exact && c.rng.chance(1, 2) && trim(b.clone()).len() > 1 {
            // a remainder of smaller degree
            let mut r = gen_poly(&mut c.rng, trim(b.clone()).len() - 1, &b0, T::SIGNED);
            r.truncate(trim(b.clone()).len() - 1);
            a = o_add(&a, &r, &z);
        }
        c.input(format!("{} a={} b={}", T::NAME, strs(&a), strs(&b)));
        match attempt(|| pdiv(&tos::<T>(&a), &tos::<T>(&b), T::of(&z))) {
            Ok((q, r)) => {
                let (q, r) = (bigs(&q), bigs(&r));
                c.obs("integer division", format!("{} done", T::NAME));
                eqs("a = q*b + r", &o_add(&o_mul(&q, &b, &z), &r, &z), &a)?;
                ensure(trim(r.clone()).len() < trim(b.clone()).len(), || format!("deg r >= deg b: r={}", strs(&r)))
            }
            Err(p) => {
                c.obs("integer division", format!("{} refused", T::NAME));
                // a signed division by construction exact must not be refused
                ensure(!(exact && T::SIGNED), || format!("exact division: {}", p))
            }
        }
    });
}
/// A polynomial of exactly the given length: dense, sparse, constant or with a long zero tail.
fn long_poly(r: &mut Rng, len: usize, bound: &BigInt, signed: bool) -> P {
    let style = r.below(5);
    let live = if style == 3 { r.below(len + 1) } else { len };
    (0..len)
        .map(|i| {
            let c = match style {
                0 => if r.chance(1, 20) || i + 1 == len { residue(r, bound) } else { BigInt::zero() },
                1 => bound - 1,
                _ => if i < live { residue(r, bound) } else { BigInt::zero() },
            };
            if signed && r.chance(1, 2) { -c } else { c }
        })
        .collect()
}
/// Long polynomials: every size octave of the length.
fn c27_long<T: Co>(cx: &mut Ctx, primes: &[i128], top: u32) {
    let rounds = if cx.thorough { 40 } else { 2 };
    let n_oct = (top - 3) as u64;
    let pair = |r: &mut Rng, i: u64| -> (usize, usize) {
        let l = r.octave(i, 64).max(1);
        match r.below(4) {
            // both long; one long; lengths next to each other
            0 => (l, l),
            1 => (l, 1 + r.below(12)),
            2 => (1 + r.below(12), l),
            _ => (l, l - r.below(l.min(40))),
        }
    };
    cx.cases(&format!("long mod n {}", T::NAME), n_oct * rounds, |c| {
        let i = 3 + c.idx % n_oct;
        let n = big(*c.rng.pick(primes));
        let tn = T::of(&n);
        let signed = T::SIGNED && c.rng.chance(1, 2);
        let (la, lb) = pair(&mut c.rng, i);
        let a = long_poly(&mut c.rng, la, &n, signed);
        let b = long_poly(&mut c.rng, lb, &n, signed);
        c.obs("length octave", format!("{} {}", T::NAME, i));
        c.input(format!("{} n={} a={} b={}", T::NAME, n, strs(&a), strs(&b)));
        let (x, y) = (tos::<T>(&a), tos::<T>(&b));
        for (what, got, want) in [("add", padd(&x, &y, tn), o_add(&a, &b, &n)), ("sub", psub(&x, &y, tn), o_sub(&a, &b, &n)), ("mul", pmul(&x, &y, tn), o_mul(&a, &b, &n))] {
            let g = bigs(&got);
            reduced(what, &g, &n)?;
            differ(what, &g, &want)?;
        }
        let (d, k) = lead(&x);
        let t = trim(a.clone());
        eq("degree", &d, &t.len().saturating_sub(1))?;
        eq("leading coefficient", &k.big(), &t.last().cloned().unwrap_or_default())?;
        differ("inputs unchanged", &bigs(&x), &a)
    });
    let fields: Vec<i128> = primes.iter().cloned().filter(|p| is_prime(&big(*p))).collect();
    cx.cases(&format!("long division mod n {}", T::NAME), n_oct * rounds, |c| {
        let i = 3 + c.idx % n_oct;
        let n = big(*c.rng.pick(&fields));
        let tn = T::of(&n);
        let (la, lb) = pair(&mut c.rng, i);
        let a = long_poly(&mut c.rng, la, &n, false);
        let mut b = long_poly(&mut c.rng, lb.min(la), &n, false);
        if trim(b.clone()).is_empty() { b = vec![BigInt::one()]; }
        c.input(format!("{} n={} a={} b={}", T::NAME, n, strs(&a), strs(&b)));
        let (q, r) = attempt(|| pdiv(&tos::<T>(&a), &tos::<T>(&b), tn)).map_err(|e| format!("division: {}", e))?;
        let (q, r) = (bigs(&q), bigs(&r));
        reduced("quotient", &q, &n)?;
        reduced("remainder", &r, &n)?;
        let (wq, wr) = o_div(&a, &b, &n).unwrap();
        differ("quotient", &q, &wq)?;
        differ("remainder", &r, &wr)
    });
    // inversion modulo a long polynomial
    cx.cases(&format!("long inversion {}", T::NAME), if cx.thorough { 24 } else { 3 }, |c| {
        let n = big(*c.rng.pick(&fields));
        let tn = T::of(&n);
        let d = c.rng.octave(3 + c.idx % 3, 64).max(1).min(50);
        let mut m: P = (0..d).map(|_| residue(&mut c.rng, &n)).collect();
        m.push(BigInt::one());
        let l = 1 + c.rng.below(d);
        let a = long_poly(&mut c.rng, l, &n, false);
        c.input(format!("{} n={} a={} m={}", T::NAME, n, strs(&a), strs(&m)));
        let inv = o_gcd_is_one(&a, &m, &n);
        match attempt(|| pinv(&tos::<T>(&a), &tos::<T>(&m), tn)) {
            Ok(Ok(i)) => {
                let i = bigs(&i);
                ensure(inv, || format!("inverted a non-invertible element: {}", strs(&i)))?;
                reduced("inverse", &i, &n)?;
                eqs("a * inv(a) mod m", &o_div(&o_mul(&i, &a, &n), &m, &n).unwrap().1, &vec![BigInt::one()])
            }
            Ok(Err(e)) => ensure(!inv, || format!("invertible element refused: {}", e)),
            Err(p) => ensure(!inv, || format!("invertible element: {}", p)),
        }
    });
    // over the integers, with coefficients small enough for the sums
    cx.cases(&format!("long integers {}", T::NAME), n_oct * rounds, |c| {
        let i = 3 + c.idx % n_oct;
        let z = BigInt::zero();
        let (la, lb) = pair(&mut c.rng, i);
        let mut a = long_poly(&mut c.rng, la, &big(100), T::SIGNED);
        let b = long_poly(&mut c.rng, lb, &big(100), T::SIGNED);
        c.input(format!("{} over Z a={} b={}", T::NAME, strs(&a), strs(&b)));
        let (mut x, y) = (tos::<T>(&a), tos::<T>(&b));
        let zero = T::of(&z);
        let prod = o_mul(&a, &b, &z);
        differ("add", &bigs(&padd(&x, &y, zero)), &o_add(&a, &b, &z))?;
        let xy = pmul(&x, &y, zero);
        differ("mul", &bigs(&xy), &prod)?;
        if !trim(b.clone()).is_empty() {
            // an exact division
            let (q, r) = attempt(|| pdiv(&xy, &y, zero)).map_err(|e| format!("exact division: {}", e))?;
            differ("quotient", &bigs(&q), &a)?;
            differ("remainder", &bigs(&r), &vec![])?;
        }
        // a difference that no type refuses
        for (k, v) in b.iter().enumerate() {
            if k < a.len() { a[k] += v.abs(); } else { a.push(v.abs()); }
        }
        x = tos::<T>(&a);
        if !T::SIGNED || c.rng.chance(1, 2) { differ("sub", &bigs(&psub(&x, &y, zero)), &o_sub(&a, &b, &z))?; }
        Ok(())
    });
}
/// Like eqs, but names the first difference only.
fn differ(what: &str, got: &P, want: &P) -> Res {
    let (g, w) = (trim(got.clone()), trim(want.clone()));
    if g == w { return Ok(()); }
    let i = g.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
    Err(format!("{}: coefficient {}: got {:?} want {:?} (lengths {}, {})", what, i, g.get(i).map(|c| c.to_string()), w.get(i).map(|c| c.to_string()), g.len(), w.len()))
}
fn c27_ring_case<R: Ring>(c: &mut Case) -> Res {
    let n = big(R::modulus());
    let l = R::L;
    let mut m: P = vec![BigInt::zero(); l + 1];
    for (d, k) in R::irr() { m[d] = big(k); }
    let nn = n.clone();
    let elem = move |r: &mut Rng| -> Vec<i128> {
        let mut p = gen_poly(r, l, &nn, false);
        p.resize(l, BigInt::zero());
        p.iter().map(|c| c.to_i128().unwrap()).collect()
    };
    let pb = |v: &[i128]| -> P { v.iter().map(|c| big(*c)).collect() };

    let (a, b, d) = (elem(&mut c.rng), elem(&mut c.rng), elem(&mut c.rng));
    c.obs("ring", R::NAME);
    c.input(format!("{} a={:?} b={:?} c={:?}", R::NAME, a, b, d));
    let (x, y, z) = (R::full(&a), R::full(&b), R::full(&d));
    eq("new_full", &x.co(), &a)?;
    eqs("irreducible kept", &pb(&x.irrc()), &m)?;
    eq("modulus kept", &x.nc(), &R::modulus())?;
    let (pa, pbb) = (pb(&a), pb(&b));
    let chk = |what: &str, g: R, want: &P| -> Res {
        let v = pb(&g.co());
        reduced(what, &v, &n)?;
        eqs(what, &v, want)?;
        eqs("irreducible kept", &pb(&g.irrc()), &m)?;
        eq("modulus kept", &g.nc(), &R::modulus())
    };
    chk("+", x.add_(y), &o_add(&pa, &pbb, &n))?;
    chk("-", x.sub_(y), &o_sub(&pa, &pbb, &n))?;
    let prod = o_div(&o_mul(&pa, &pbb, &n), &m, &n).unwrap().1;
    chk("*", x.mul_(y), &prod)?;
    // ring laws between results of the code
    ensure(x.mul_(y).eq_(&y.mul_(x)), || "a*b = b*a".into())?;
    ensure(x.mul_(y.add_(z)).eq_(&x.mul_(y).add_(x.mul_(z))), || "a*(b+c) = a*b + a*c".into())?;
    ensure(x.mul_(y.mul_(z)).eq_(&x.mul_(y).mul_(z)), || "a*(b*c) = (a*b)*c".into())?;
    ensure(x.sub_(y).add_(y).eq_(&x), || "(a-b)+b = a".into())?;
    eq("equality", &x.eq_(&y), &(a == b))?;
    // division of the representatives
    if !trim(pbb.clone()).is_empty() {
        match attempt(|| x.div_(y)) {
            Ok((q, r)) => {
                let (q, r) = (pb(&q.co()), pb(&r.co()));
                reduced("quotient", &q, &n)?;
                eqs("a = q*b + r", &o_add(&o_mul(&q, &pbb, &n), &r, &n), &pa)?;
                ensure(trim(r).len() < trim(pbb.clone()).len(), || "deg r >= deg b".into())?;
            }
            Err(p) => ensure(!trim(pbb.clone()).last().unwrap().gcd(&n).is_one(), || format!("/: {}", p))?,
        }
    }
    // inverse
    if is_prime(&n) {
        let inv = o_gcd_is_one(&pa, &m, &n);
        c.obs("ring inverse", format!("{} {}", R::NAME, inv));
        match attempt(|| x.inv_()) {
            Ok(i) => {
                ensure(inv, || format!("inverted a non-invertible element: {:?}", i.co()))?;
                let mut one = vec![0i128; l];
                one[0] = 1;
                reduced("inverse", &pb(&i.co()), &n)?;
                eq("a * inv(a)", &i.mul_(x).co(), &one)?;
            }
            Err(p) => ensure(!inv, || format!("inverse of an invertible element: {}", p))?,
        }
    }
    eq("operands unchanged", &x.co(), &a)
}
fn c27_ring<R: Ring>(cx: &mut Ctx, cases: u64) {
    let n = big(R::modulus());
    let l = R::L;
    let mut m: P = vec![BigInt::zero(); l + 1];
    for (d, k) in R::irr() { m[d] = big(k); }
    let nn = n.clone();
    let elem = move |r: &mut Rng| -> Vec<i128> {
        let mut p = gen_poly(r, l, &nn, false);
        p.resize(l, BigInt::zero());
        p.iter().map(|c| c.to_i128().unwrap()).collect()
    };
    let pb = |v: &[i128]| -> P { v.iter().map(|c| big(*c)).collect() };
    cx.cases(&format!("ring {}", R::NAME), cases, c27_ring_case::<R>);
    cx.cases(&format!("construction {}", R::NAME), cases, |c| {
        // sparse
        let k = c.rng.below(l + 1);
        let sp: Vec<(usize, i128)> = (0..k).map(|_| (c.rng.below(l), residue(&mut c.rng, &n).to_i128().unwrap())).collect();
        let mut want = vec![0i128; l];
        for (d, v) in &sp { want[*d] = *v; }
        c.input(format!("{} sparse={:?}", R::NAME, sp));
        eq("new", &R::sparse(&sp).co(), &want)?;
        eqs("irreducible kept", &pb(&R::sparse(&sp).irrc()), &m)?;
        // vectors shorter, equal and longer (zero or non-zero excess)
        let len = c.rng.below(l + 4);
        let mut v: Vec<i128> = (0..len).map(|_| residue(&mut c.rng, &n).to_i128().unwrap()).collect();
        if len > l && c.rng.chance(1, 2) { for q in l..len { v[q] = 0; } }
        let deg_fits = trim(pb(&v)).len() <= l;
        c.obs("from_vec", format!("{} {}", if len > l { "longer" } else { "fits" }, deg_fits));
        c.input(format!("{} vec={:?}", R::NAME, v));
        let mut want = v.clone();
        want.resize(l.max(len), 0);
        want.truncate(l);
        match attempt(|| R::vec(&v)) {
            Ok(g) => {
                ensure(deg_fits, || format!("degree {} accepted for length {}", trim(pb(&v)).len() - 1, l))?;
                eq("from_vec", &g.co(), &want)
            }
            Err(p) => ensure(!deg_fits, || format!("from_vec: {}", p)),
        }?;
        let over = l + c.rng.below(5);
        must_panic("new with a degree that does not fit", || R::sparse(&[(over, 1)]).co())?;
        // equality
        let a = elem(&mut c.rng);
        let mut b = a.clone();
        let i = c.rng.below(l);
        b[i] = (b[i] + 1) % R::modulus();
        ensure(R::full(&a).eq_(&R::full(&a)), || "a = a".into())?;
        ensure(!R::full(&a).eq_(&R::full(&b)), || format!("equality ignores coefficient {}", i))
    });
}
fn c27_random<R: Ring>(cx: &mut Ctx) {
    let n = cx.n(20, 20);
    cx.cases(&format!("random {}", R::NAME), n, |c| {
        c.trivial = false;
        let p = R::random_();
        c.input(format!("{} draw {}", R::NAME, c.idx));
        eq("length", &p.co().len(), &R::L)?;
        ensure(p.co().iter().all(|k| *k >= 0 && *k < R::modulus()), || format!("coefficient out of range: {:?}", p.co()))?;
        let x = p.sub_(p).co();
        ensure(x.iter().all(|k| *k == 0), || "p - p".into())
    });
}
fn c27(cx: &mut Ctx) {
    let n = cx.n(150, 150);
    let small = [2i128, 3, 5, 7, 11, 13, 4, 6, 9, 12, 251, 3329, 4591, 12289];
    let wide: Vec<i128> = small.iter().cloned().chain([65537, 1000003, 86028121, 1000000007, 2147483647]).collect();
    let huge: Vec<i128> = wide.iter().cloned().chain([(1 << 61) - 1, 4611686018427387847, 1152921504606846976]).collect();
    c27_mod::<u128>(cx, n, &huge);
    c27_mod::<i128>(cx, n, &huge);
    c27_mod::<u64>(cx, n, &wide);
    c27_mod::<i64>(cx, n, &wide);
    c27_mod::<u32>(cx, n, &small);
    c27_mod::<i32>(cx, n, &small);
    c27_mod::<hacspec::prelude::U64>(cx, n, &wide);
    // signed moduli over the whole range of the type: products are formed in 128 bits
    c27_mod::<i8>(cx, n, &[2, 3, 7, 12, 13, 31, 64, 101, 113, 126, 127]);
    c27_mod::<i16>(cx, n, &[2, 5, 181, 191, 255, 256, 257, 3329, 4591, 12289, 32749, 32767]);
    c27_mod::<i32>(cx, n, &[46337, 46349, 65537, 65536, 1000003, 1000000007, 2147483629, 2147483647]);
    c27_mod::<i64>(cx, n, &[3037000493, 3037000507, 4294967291, 4294967311, (1 << 61) - 1, 9223372036854775783, i64::MAX as i128]);
    // unsigned ones up to the root of the range: the sum or product of two residues has to fit
    c27_mod::<u8>(cx, n, &[2, 3, 5, 7, 9, 11, 13, 15, 16]);
    c27_mod::<u16>(cx, n, &[2, 3, 64, 127, 128, 241, 251, 255, 256]);
    c27_mod::<u32>(cx, n, &[65521, 65535, 65536, 32749]);
    c27_mod::<u64>(cx, n, &[4294967291, 1 << 32, 4294967279]);
    c27_int::<u128>(cx, n, 1 << 60);
    c27_int::<i128>(cx, n, 1 << 60);
    c27_int::<u64>(cx, n, 1 << 28);
    c27_int::<i64>(cx, n, 1 << 28);
    c27_int::<i32>(cx, n, 1 << 12);
    c27_long::<u128>(cx, &huge, 11);
    c27_long::<i128>(cx, &huge, 11);
    c27_long::<u64>(cx, &wide, 11);
    c27_long::<i64>(cx, &wide, 11);
    c27_long::<i32>(cx, &small, 10);
    c27_long::<u32>(cx, &small, 10);
    c27_long::<hacspec::prelude::U64>(cx, &wide, 10);
    let long = if cx.thorough { 12 } else { 2 };
    rings(cx, n, long);
    // what one ring computes does not depend on the others
    let t = table();
    cx.cases("rings side by side", cx.n(10, 100), |c| {
        for _ in 0..30 {
            let f = *c.rng.pick(&t);
            f(c)?;
            tick();
        }
        Ok(())
    });
    randoms(cx);
}

fn selftest() {
    // the oracle's own laws
    let n = big(7);
    let a: P = [1, 2, 3, 4].iter().map(|x| big(*x)).collect();
    let b: P = [3, 5].iter().map(|x| big(*x)).collect();
    let (q, r) = o_div(&a, &b, &n).unwrap();
    assert_eq!(o_add(&o_mul(&q, &b, &n), &r, &n), a);
    assert!(r.len() < 2);
    assert_eq!(naive_pow(&big(3), &big(5), &big(1000)), big(243));
    assert!(is_prime(&big(3329)) && !is_prime(&big(3327)) && is_prime(&((BigInt::one() << 127usize) - 1)));
    assert!(o_gcd_is_one(&vec![big(1), big(1)], &vec![big(1), big(0), big(1)], &n));
    assert_eq!(inv_mod(&big(3), &big(7)), Some(big(5)));
}
const CHECKS: &[Check] = &[
    Check { id: "C22", shards: 8, run: c22, selftest, scale: (40, 400), require: &[("type", 85), ("sum/difference/product in range", 8), ("construction", 100)],
        rule: "types of 1,3,5,7 bits: all or most value pairs and all values around the range; wider types up to 16640 bits: pairs biased to the range limits; every constructor on in-range and out-of-range values; compared with exact big-integer results, panic exactly when out of range; distinct by (type, operands)" },
    Check { id: "C23", shards: 8, run: c23, selftest, scale: (16, 150), require: &[("type", 32), ("inverse", 12), ("constructor", 6), ("named", 9), ("side by side", 45)],
        rule: "moduli below 300: all residue pairs; larger moduli (up to 2048 bits): edge-biased pairs; constructors with values around the modulus and the base limit; chains of operations; compared with big-integer arithmetic; distinct by (type, operands)" },
    Check { id: "C27", shards: 8, run: c27, selftest, scale: (60, 400), require: &[("type", 16), ("ring", 16), ("invertible", 14), ("division", 14), ("from_vec", 3), ("length octave", 50)],
        rule: "random, sparse and extreme coefficient vectors of length 0..14 over 7 coefficient types, prime and composite moduli; long ones in every length octave up to 2048; 16 quotient rings (degree up to 300) incl. non-monic and reducible ones; compared with schoolbook big-integer arithmetic and ring laws; distinct by input" },
];
fn main() {
    main_check(CHECKS)
}
