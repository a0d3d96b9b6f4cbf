//! C14-C16, C24-C26: machine integers, public and secret.
use hacspec::prelude::*;
use hv::for_types;
use hv::gen::{hex, hexs, Rng};
use hv::mi::*;
use hv::mon::*;
use num::bigint::BigInt;
use num::{Integer as _, One, Signed, Zero};

fn w<T: Mi>(x: &BigInt) -> u128 {
    wrap(x, T::BITS)
}
fn raws<T: Mi>(what: &str, got: T, want: u128) -> Res {
    if got.raw() == want {
        Ok(())
    } else {
        Err(format!("{} {}: got {:#x} want {:#x}", T::NAME, what, got.raw(), want))
    }
}
/// The result must be exact, or a panic when `may_panic`.
fn exact_or_panic<T: Mi>(what: &str, want: &BigInt, may_panic: bool, f: impl FnOnce() -> T) -> Res {
    match attempt(f) {
        Ok(g) => {
            if v::<T>(g.raw()) == *want {
                Ok(())
            } else {
                Err(format!("{} {}: got {} want {}{}", T::NAME, what, v::<T>(g.raw()), want, if may_panic { " or a panic" } else { "" }))
            }
        }
        Err(p) => {
            if may_panic {
                Ok(())
            } else {
                Err(format!("{} {}: unexpected {} (want {})", T::NAME, what, p, want))
            }
        }
    }
}
fn panics_iff<T: Mi>(what: &str, want: Option<&BigInt>, f: impl FnOnce() -> T) -> Res {
    match (attempt(f), want) {
        (Ok(g), Some(x)) if v::<T>(g.raw()) == *x => Ok(()),
        (Ok(g), Some(x)) => Err(format!("{} {}: got {} want {}", T::NAME, what, v::<T>(g.raw()), x)),
        (Ok(g), None) => Err(format!("{} {}: got {} want a panic", T::NAME, what, v::<T>(g.raw()))),
        (Err(_), None) => Ok(()),
        (Err(p), Some(x)) => Err(format!("{} {}: unexpected {} (want {})", T::NAME, what, p, x)),
    }
}
/// Run `f` on operand pairs of T: exhaustively for 8 bits, edge-biased samples otherwise.
fn on_pairs<T: Mi>(cx: &mut Ctx, what: &str, n: u64, f: impl Fn(&mut Case, u128, u128) -> Res) {
    let phase = format!("{} {}", what, T::NAME);
    if T::BITS == 8 {
        cx.cases(&phase, 256, |c| {
            let x = c.idx as u128;
            c.obs("type", T::NAME);
            for y in 0..256u128 {
                c.input(format!("{} x={:#x} y={:#x}", T::NAME, x, y));
                f(c, x, y)?;
                tick();
            }
            Ok(())
        });
    } else {
        cx.cases(&phase, n, |c| {
            c.obs("type", T::NAME);
            for _ in 0..16 {
                let (x, y) = pair(&mut c.rng, T::BITS);
                c.input(format!("{} x={:#x} y={:#x}", T::NAME, x, y));
                f(c, x, y)?;
                tick();
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ C14
macro_rules! c14_type {
    ($cx:ident, $n:expr, $t:ident, $r:ident) => {{
        on_pairs::<$t>($cx, "binary", $n, |_c, a, b| {
            let (x, y) = ($t(a as $r), $t(b as $r));
            let (va, vb) = (v::<$t>(a), v::<$t>(b));
            let m = mask(<$t as Mi>::BITS);
            raws("+", x + y, w::<$t>(&(&va + &vb)))?;
            raws("-", x - y, w::<$t>(&(&va - &vb)))?;
            raws("*", x * y, w::<$t>(&(&va * &vb)))?;
            raws("&", x & y, a & b)?;
            raws("|", x | y, a | b)?;
            raws("^", x ^ y, a ^ b)?;
            raws("wrap_add", x.wrap_add(y), w::<$t>(&(&va + &vb)))?;
            raws("wrap_sub", x.wrap_sub(y), w::<$t>(&(&va - &vb)))?;
            raws("wrap_mul", x.wrap_mul(y), w::<$t>(&(&va * &vb)))?;
            let mut z = x; z += y; raws("+=", z, w::<$t>(&(&va + &vb)))?;
            let mut z = x; z -= y; raws("-=", z, w::<$t>(&(&va - &vb)))?;
            let mut z = x; z *= y; raws("*=", z, w::<$t>(&(&va * &vb)))?;
            let mut z = x; z &= y; raws("&=", z, a & b)?;
            let mut z = x; z |= y; raws("|=", z, a | b)?;
            let mut z = x; z ^= y; raws("^=", z, a ^ b)?;
            raws("!", !x, !a & m)?;
            raws("neg", -x, w::<$t>(&-&va))?;
            let chk = |name: &str, e: BigInt, f: &dyn Fn() -> $t| -> Res {
                panics_iff::<$t>(name, if fits::<$t>(&e) { Some(&e) } else { None }, f)
            };
            chk("checked_add", &va + &vb, &|| x.checked_add(y))?;
            chk("checked_sub", &va - &vb, &|| x.checked_sub(y))?;
            chk("checked_mul", &va * &vb, &|| x.checked_mul(y))?;
            Ok(())
        });
        let phase = format!("unary {}", <$t as Mi>::NAME);
        let all8 = <$t as Mi>::BITS == 8;
        $cx.cases(&phase, if all8 { 256 } else { $n }, |c| {
            let a = if all8 { c.idx as u128 } else { c.rng.edge(<$t as Mi>::BITS) };
            let bits = <$t as Mi>::BITS;
            let m = mask(bits);
            c.obs("type", <$t as Mi>::NAME);
            c.input(format!("{} x={:#x}", <$t as Mi>::NAME, a));
            let r = a as $r;
            let x = $t(r);
            for s in 0..bits {
                let shl = (a << s) & m;
                let shr = if <$t as Mi>::SIGNED { (sext(a, bits) >> s) as u128 & m } else { a >> s };
                raws("<<", x << s, shl)?;
                raws(">>", x >> s, shr)?;
                let mut z = x; z <<= s; raws("<<=", z, shl)?;
                let mut z = x; z >>= s; raws(">>=", z, shr)?;
                tick();
            }
            for s in [0u32, 1, 7, bits - 1, bits, bits + 1, 2 * bits + 3, c.rng.u64() as u32, u32::MAX] {
                let k = s % bits;
                let l = if k == 0 { a } else { ((a << k) | (a >> (bits - k))) & m };
                let rr = if k == 0 { a } else { ((a >> k) | (a << (bits - k))) & m };
                raws("rotate_left", $t::rotate_left(x, s), l)?;
                raws("rotate_right", $t::rotate_right(x, s), rr)?;
            }
            // classification and declassification
            raws("classify", $t::classify(r), a)?;
            raws("from", $t::from(r), a)?;
            raws("SecretInteger::classify", <$t as SecretInteger>::classify(r), a)?;
            let into: $t = r.into();
            raws("into", into, a)?;
            eq("declassify", &x.declassify(), &r)?;
            raws("clone", x.clone(), a)?;
            // printing
            eq("Display", &format!("{}", x), &format!("{}", r))?;
            eq("Debug", &format!("{:?}", x), &format!("{}", r))?;
            eq("LowerHex", &format!("{:x}", x), &format!("{:x}", a))?;
            eq("LowerHex#", &format!("{:#x}", x), &format!("0x{:x}", a))?;
            eq("LowerHex pad", &format!("{:040x}", x), &format!("{:040x}", a))?;
            Ok(())
        });
        let n = $n;
        let phase = format!("bytes {}", <$t as Mi>::NAME);
        $cx.cases(&phase, n, |c| {
            let bits = <$t as Mi>::BITS;
            let k = (bits / 8) as usize;
            let cnt = c.rng.below(9);
            c.obs("word count", cnt);
            let xs: Vec<u128> = (0..cnt).map(|_| c.rng.edge(bits)).collect();
            c.input(format!("{} words={:x?}", <$t as Mi>::NAME, xs));
            let ts: Vec<$t> = xs.iter().map(|&x| $t(x as $r)).collect();
            let le: Vec<u8> = xs.iter().flat_map(|x| x.to_le_bytes()[..k].to_vec()).collect();
            let be: Vec<u8> = xs.iter().flat_map(|x| x.to_be_bytes()[16 - k..].to_vec()).collect();
            let raw8 = |b: &[U8]| b.iter().map(|x| x.0).collect::<Vec<u8>>();
            eqb("to_le_bytes", &raw8(&$t::to_le_bytes(&ts)), &le)?;
            eqb("to_be_bytes", &raw8(&$t::to_be_bytes(&ts)), &be)?;
            let sec = |b: &[u8]| b.iter().map(|&x| U8(x)).collect::<Vec<U8>>();
            let back = |v: Vec<$t>| v.iter().map(|x| x.raw()).collect::<Vec<u128>>();
            eq("from_le_bytes", &back($t::from_le_bytes(&sec(&le))), &xs)?;
            eq("from_be_bytes", &back($t::from_be_bytes(&sec(&be))), &xs)?;
            if k > 1 {
                let extra = c.rng.range(1, k - 1);
                let mut bad = sec(&le);
                for _ in 0..extra { bad.push(U8(c.rng.u64() as u8)); }
                must_panic("from_le_bytes of a partial word", || $t::from_le_bytes(&bad))?;
                must_panic("from_be_bytes of a partial word", || $t::from_be_bytes(&bad))?;
            }
            Ok(())
        });
        $cx.cases(&format!("constants {}", <$t as Mi>::NAME), 1, |c| {
            c.input("zero one ones max_value default".into());
            let bits = <$t as Mi>::BITS;
            raws("zero", $t::zero(), 0)?;
            raws("one", $t::one(), 1)?;
            raws("ones", $t::ones(), mask(bits))?;
            raws("max_value", $t::max_value(), if <$t as Mi>::SIGNED { mask(bits - 1) } else { mask(bits) })?;
            raws("default", $t::default(), 0)
        });
    }};
}
macro_rules! c14_casts {
    ($cx:ident, $n:expr, $($from:ident => $($to:ident)*;)*) => {$($({
        let phase = format!("cast {}->{}", stringify!($from), stringify!($to));
        let fb = <$from as Mi>::BITS;
        $cx.cases(&phase, if fb == 8 { 256 } else { $n }, |c| {
            let a = if fb == 8 { c.idx as u128 } else { c.rng.edge(fb) };
            c.obs("cast", format!("{}->{}", stringify!($from), stringify!($to)));
            c.input(format!("x={:#x}", a));
            let g: $to = <$to>::from(<$from as Mi>::of(a));
            raws(concat!("from ", stringify!($from)), g, w::<$to>(&v::<$from>(a)))
        });
    })*)*};
}
macro_rules! c14_usize {
    ($cx:ident, $n:expr, $($to:ident)*) => {$({
        $cx.cases(concat!("cast usize->", stringify!($to)), $n, |c| {
            let a = c.rng.edge(64);
            c.obs("cast", concat!("usize->", stringify!($to)));
            c.input(format!("x={:#x}", a));
            raws("from usize", <$to>::from(a as usize), a & mask(<$to as Mi>::BITS))
        });
    })*};
}
fn c14(cx: &mut Ctx) {
    let n = cx.n(600, 600);
    c14_type!(cx, n, U8, u8);
    c14_type!(cx, n, U16, u16);
    c14_type!(cx, n, U32, u32);
    c14_type!(cx, n, U64, u64);
    c14_type!(cx, n, U128, u128);
    c14_type!(cx, n, I8, i8);
    c14_type!(cx, n, I16, i16);
    c14_type!(cx, n, I32, i32);
    c14_type!(cx, n, I64, i64);
    c14_type!(cx, n, I128, i128);
    let n = cx.n(150, 150);
    c14_casts!(cx, n,
        U8 => U16 U32 U64 U128 I8;
        U16 => U8 U32 U64 U128 I16;
        U32 => U8 U16 U64 U128 I32;
        U64 => U8 U16 U32 U128 I64;
        U128 => U8 U16 U32 U64 I128;
        I8 => I16 I32 I64 I128 U8;
        I16 => I8 I32 I64 I128 U16;
        I32 => I8 I16 I64 I128 U32;
        I64 => I8 I16 I32 I128 U64;
        I128 => I8 I16 I32 I64 U128;
        U8 => u8 u16 u32 u64 u128;
        U16 => u16 u32 u64 u128;
        U32 => u32 u64 u128;
        U64 => u64 u128;
        U128 => u128;
        u8 => U16 U32 U64 U128;
        u16 => U32 U64 U128;
        u32 => U64 U128;
        u64 => U128;
    );
    c14_usize!(cx, n, U8 U64 U128);
    cx.cases("cast U8->usize", 256, |c| {
        c.input(format!("x={}", c.idx));
        eq("U8 -> usize", &usize::from(U8(c.idx as u8)), &(c.idx as usize))
    });
    // chains of mixed operations against a wrapping model
    macro_rules! chain { ($($t:ident)*) => {$(
        let n = cx.n(300, 300);
        cx.cases(concat!("chain ", stringify!($t)), n, |c| {
            let bits = <$t as Mi>::BITS;
            let (mut x, mut m) = { let a = c.rng.edge(bits); (<$t as Mi>::of(a), v::<$t>(a)) };
            let mut log = format!("start {}", m);
            for _ in 0..40 {
                let b = c.rng.edge(bits);
                let (y, vb) = (<$t as Mi>::of(b), v::<$t>(b));
                let s = c.rng.below(bits as usize) as u32;
                let op = c.rng.below(11);
                let raw_m = w::<$t>(&m);
                let z = match op {
                    0 => { x = x + y; w::<$t>(&(&m + &vb)) }
                    1 => { x = x - y; w::<$t>(&(&m - &vb)) }
                    2 => { x = x * y; w::<$t>(&(&m * &vb)) }
                    3 => { x += y; w::<$t>(&(&m + &vb)) }
                    4 => { x ^= y; raw_m ^ b }
                    5 => { x = x & (y | x); raw_m & (b | raw_m) }
                    6 => { x = x | y; raw_m | b }
                    7 => { x = !x; !raw_m & mask(bits) }
                    8 => { x = x << s; (raw_m << s) & mask(bits) }
                    9 => { x >>= s; if <$t as Mi>::SIGNED { (sext(raw_m, bits) >> s) as u128 & mask(bits) } else { raw_m >> s } }
                    _ => { x = -x; w::<$t>(&-&m) }
                };
                log = format!("{} ; op{} y={} s={}", log, op, vb, s);
                c.input(log.clone());
                raws("chain", x, z)?;
                m = v::<$t>(z);
                tick();
            }
            Ok(())
        });
    )*}}
    chain!(U8 U16 U32 U64 U128 I8 I16 I32 I64 I128);
}

// ------------------------------------------------------------------ C15
fn bools<T: Mi>(cx: &mut Ctx, n: u64) {
    on_pairs::<T>(cx, "bool", n, |c, a, b| {
        let (x, y) = (T::of(a), T::of(b));
        let o = v::<T>(a).cmp(&v::<T>(b));
        c.obs("order", format!("{} {:?}", T::NAME, o));
        eq("equal", &x.equal(y), &o.is_eq())?;
        eq("greater_than", &x.greater_than(y), &o.is_gt())?;
        eq("greater_than_or_qual", &x.greater_than_or_qual(y), &o.is_ge())?;
        eq("less_than", &x.less_than(y), &o.is_lt())?;
        eq("less_than_or_equal", &x.less_than_or_equal(y), &o.is_le())
    });
}
fn masks<T: Mi>(cx: &mut Ctx, n: u64) {
    on_pairs::<T>(cx, "mask", n, |c, a, b| {
        let (x, y) = (T::of(a), T::of(b));
        let o = v::<T>(a).cmp(&v::<T>(b));
        c.obs("order", format!("{} {:?}", T::NAME, o));
        let m = |t: bool| if t { mask(T::BITS) } else { 0 };
        raws("equal_bm", x.equal_bm(y), m(o.is_eq()))?;
        raws("not_equal_bm", x.not_equal_bm(y), m(o.is_ne()))?;
        raws("greater_than_bm", x.greater_than_bm(y), m(o.is_gt()))?;
        raws("greater_than_or_qual_bm", x.greater_than_or_qual_bm(y), m(o.is_ge()))?;
        raws("less_than_bm", x.less_than_bm(y), m(o.is_lt()))?;
        raws("less_than_or_equal_bm", x.less_than_or_equal_bm(y), m(o.is_le()))?;
        // exactly one of <, =, > ; complements
        let (l, e, g) = (x.less_than_bm(y).raw(), x.equal_bm(y).raw(), x.greater_than_bm(y).raw());
        ensure((l != 0) as u8 + (e != 0) as u8 + (g != 0) as u8 == 1 && (l | e | g) == mask(T::BITS), || "trichotomy".into())?;
        raws("complement eq/ne", !x.equal_bm(y), x.not_equal_bm(y).raw())?;
        raws("complement lt/ge", !x.less_than_bm(y), x.greater_than_or_qual_bm(y).raw())?;
        raws("complement gt/le", !x.greater_than_bm(y), x.less_than_or_equal_bm(y).raw())
    });
}
macro_rules! comps {
    ($cx:ident, $n:expr, $($t:ident)*) => {$(
        on_pairs::<$t>($cx, "comp", $n, |_c, a, b| {
            let (x, y) = (<$t as Mi>::of(a), <$t as Mi>::of(b));
            let o = a.cmp(&b);
            let m = |t: bool| if t { mask(<$t as Mi>::BITS) } else { 0 };
            raws("comp_eq", x.comp_eq(y), m(o.is_eq()))?;
            raws("comp_ne", x.comp_ne(y), m(o.is_ne()))?;
            raws("comp_gt", x.comp_gt(y), m(o.is_gt()))?;
            raws("comp_gte", x.comp_gte(y), m(o.is_ge()))?;
            raws("comp_lt", x.comp_lt(y), m(o.is_lt()))?;
            raws("comp_lte", x.comp_lte(y), m(o.is_le()))
        });
    )*};
}
fn c15(cx: &mut Ctx) {
    let n = cx.n(1500, 1500);
    for_types!(bools(cx, n): u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 U8 U16 U32 U64 U128 I8 I16 I32 I64 I128);
    for_types!(masks(cx, n): u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 U8 U16 U32 U64 U128);
    comps!(cx, n, U8 U16 U32 U64 U128);
    // dense grids around the places where borrows and signs change
    macro_rules! grid { ($($t:ident)*) => {$(
        let bits = <$t as Mi>::BITS;
        let mut pts: Vec<u128> = vec![];
        for k in 0..bits { for d in [-1i128, 0, 1] { pts.push((1u128 << k).wrapping_add(d as u128) & mask(bits)); pts.push((mask(bits) - (1u128 << k)).wrapping_add(d as u128) & mask(bits)); } }
        pts.sort(); pts.dedup();
        cx.cases(concat!("grid ", stringify!($t)), pts.len() as u64, |c| {
            let a = pts[c.idx as usize];
            let x = <$t as Mi>::of(a);
            for &b in &pts {
                c.input(format!("x={:#x} y={:#x}", a, b));
                let y = <$t as Mi>::of(b);
                let o = v::<$t>(a).cmp(&v::<$t>(b));
                let m = |t: bool| if t { mask(bits) } else { 0 };
                raws("equal_bm", x.equal_bm(y), m(o.is_eq()))?;
                raws("greater_than_bm", x.greater_than_bm(y), m(o.is_gt()))?;
                raws("greater_than_or_qual_bm", x.greater_than_or_qual_bm(y), m(o.is_ge()))?;
                eq("less_than", &x.less_than(y), &o.is_lt())?;
                eq("greater_than", &x.greater_than(y), &o.is_gt())?;
                tick();
            }
            Ok(())
        });
    )*}}
    grid!(U16 U32 U64 U128 u16 u32 u64 u128 i16 i32 i64 i128);
}

// ------------------------------------------------------------------ C16
macro_rules! transmute_sec {
    ($cx:ident, $n:expr, $t:ident, $word:ident, $tole:ident, $tobe:ident, $fle:ident, $fbe:ident) => {
        $cx.cases(concat!("functions ", stringify!($t)), $n, |c| {
            let bits = <$t as Mi>::BITS;
            let k = (bits / 8) as usize;
            let a = c.rng.edge(bits);
            c.obs("type", stringify!($t));
            c.input(format!("x={:#x}", a));
            let le = a.to_le_bytes()[..k].to_vec();
            let be = a.to_be_bytes()[16 - k..].to_vec();
            let x = <$t as Mi>::of(a);
            eqb("to_le_bytes", &$tole(x).iter().map(|b| b.raw() as u8).collect::<Vec<_>>(), &le)?;
            eqb("to_be_bytes", &$tobe(x).iter().map(|b| b.raw() as u8).collect::<Vec<_>>(), &be)?;
            let word = |b: &[u8]| { let mut w = $word::new(); for i in 0..k { w[i] = Mi::of(b[i] as u128); } w };
            raws("from_le_bytes", $fle(word(&le)), a)?;
            raws("from_be_bytes", $fbe(word(&be)), a)
        });
    };
}
macro_rules! trait_bytes {
    ($cx:ident, $n:expr, $t:ident, $b:ident, $tr:ident) => {
        $cx.cases(concat!("trait ", stringify!($t)), $n, |c| {
            let bits = <$t as Mi>::BITS;
            let k = (bits / 8) as usize;
            let a = c.rng.edge(bits);
            c.obs("type", stringify!($t));
            c.input(format!("x={:#x}", a));
            let x = <$t as Mi>::of(a);
            let le = a.to_le_bytes()[..k].to_vec();
            let be = a.to_be_bytes()[16 - k..].to_vec();
            let raw = |s: Seq<$b>| s.iter().map(|b| b.raw() as u8).collect::<Vec<u8>>();
            eqb("to_le_bytes", &raw($tr::to_le_bytes(x)), &le)?;
            eqb("to_be_bytes", &raw($tr::to_be_bytes(x)), &be)?;
            let mk = |v: &[u8]| Seq::<$b>::from_vec(v.iter().map(|&q| <$b as Mi>::of(q as u128)).collect::<Vec<$b>>());
            raws("from_le_bytes", <$t as $tr>::from_le_bytes(&mk(&le)), a)?;
            raws("from_be_bytes", <$t as $tr>::from_be_bytes(&mk(&be)), a)?;
            // a byte string that does not fit is rejected
            let l = { let l = c.rng.below(2 * k + 2); if l == k { k + 1 } else { l } };
            let bad = mk(&c.rng.bytes(l));
            c.obs("wrong length", if l < k { "short" } else { "long" });
            must_panic(&format!("from_le_bytes of {} bytes", l), || <$t as $tr>::from_le_bytes(&bad).raw())?;
            must_panic(&format!("from_be_bytes of {} bytes", l), || <$t as $tr>::from_be_bytes(&bad).raw())
        });
    };
}
// word arrays, and byte arrays of lengths that fit all, some or none of the word sizes
array!(SW8, 31, U8);
array!(SW16, 24, U16);
array!(SW32, 12, U32);
array!(SW32b, 7, U32);
array!(SW64, 6, U64);
array!(SW128, 3, U128);
bytes!(SB48, 48);
bytes!(SB1040, 1040);
public_bytes!(PB1040, 1040);
array!(SW16L, 333, U16);
array!(SW64L, 300, U64);
array!(SW128L, 260, U128);
public_bytes!(PB48, 48);
bytes!(SB64, 64);
public_bytes!(PB64, 64);
bytes!(SB50, 50);
public_bytes!(PB50, 50);
bytes!(SB1, 1);
public_bytes!(PB1, 1);
bytes!(SB16, 16);
public_bytes!(PB16, 16);
bytes!(SB15, 15);
public_bytes!(PB15, 15);
bytes!(SB4, 4);
public_bytes!(PB4, 4);
bytes!(SB8, 8);
public_bytes!(PB8, 8);
bytes!(SB33, 33);
public_bytes!(PB33, 33);

fn words(b: &[u8], k: usize, big: bool) -> Vec<u128> {
    b.chunks(k)
        .map(|c| {
            let mut x = 0u128;
            for i in 0..k {
                let byte = if big { c[i] } else { c[k - 1 - i] };
                x = (x << 8) | byte as u128;
            }
            x
        })
        .collect()
}
fn raw8<'a, B: Mi + 'a>(it: impl Iterator<Item = &'a B>) -> Vec<u8> {
    it.map(|b| b.raw() as u8).collect()
}
fn raw_w<'a, B: Mi + 'a>(it: impl Iterator<Item = &'a B>) -> Vec<u128> {
    it.map(|b| b.raw()).collect()
}
macro_rules! word_array {
    ($cx:ident, $n:expr, $a:ident, $l:literal, $t:ident) => {
        $cx.cases(concat!("array of ", stringify!($t)), $n, |c| {
            let k = (<$t as Mi>::BITS / 8) as usize;
            let b = c.rng.bytes($l * k);
            c.obs("type", concat!("array of ", stringify!($t)));
            c.input(format!("bytes={}", hexs(&b)));
            for big in [true, false] {
                let ws = words(&b, k, big);
                let mut a = $a::new();
                for i in 0..$l { a[i] = <$t as Mi>::of(ws[i]); }
                let out = if big { a.to_be_bytes() } else { a.to_le_bytes() };
                eqb(if big { "to_be_bytes" } else { "to_le_bytes" }, &raw8(out.iter()), &b)?;
            }
            Ok(())
        });
    };
}
// byte array -> words of each width; a length that is no multiple of the word size is rejected
macro_rules! byte_array {
    ($cx:ident, $n:expr, $a:ident, $l:literal, $b:ident, $($f:ident $k:literal $big:literal),*) => {
        $cx.cases(concat!("byte array ", stringify!($a)), $n, |c| {
            let b = c.rng.bytes($l);
            c.input(format!("bytes={}", hexs(&b)));
            let mut a = $a::new();
            for i in 0..$l { a[i] = <$b as Mi>::of(b[i] as u128); }
            $(
                c.obs("word function", format!("{} {}", stringify!($a), stringify!($f)));
                if $l % $k == 0 {
                    let got = a.$f();
                    eq(stringify!($f), &raw_w(got.iter()), &words(&b, $k, $big))?;
                    // and back
                    let back: Vec<u8> = got.iter().flat_map(|w| { let mut x = w.raw().to_le_bytes()[..$k].to_vec(); if $big { x.reverse(); } x }).collect();
                    eqb("back", &back, &b)?;
                } else {
                    must_panic(concat!(stringify!($f), " of a length that does not fit"), || raw_w(a.$f().iter()))?;
                }
                tick();
            )*
            Ok(())
        });
    };
}
macro_rules! sec_bytes { ($cx:ident, $n:expr, $a:ident, $l:literal) => {
    byte_array!($cx, $n, $a, $l, U8, to_be_U32s 4 true, to_le_U32s 4 false, to_be_U64s 8 true, to_le_U64s 8 false, to_U128s_be 16 true, to_U128s_le 16 false);
    $cx.cases(concat!("byte array identity ", stringify!($a)), 20, |c| {
        let b = c.rng.bytes($l);
        c.input(hexs(&b));
        let a = $a::from_public_slice(&b);
        eqb("to_be_bytes", &raw8(a.to_be_bytes().iter()), &b)?;
        eqb("to_le_bytes", &raw8(a.to_le_bytes().iter()), &b)
    });
}}
macro_rules! pub_bytes { ($cx:ident, $n:expr, $a:ident, $l:literal) => {
    byte_array!($cx, $n, $a, $l, u8, to_be_u32s 4 true, to_le_u32s 4 false, to_be_u64s 8 true, to_le_u64s 8 false, to_u128s_be 16 true, to_u128s_le 16 false);
}}
fn c16(cx: &mut Ctx) {
    let n = cx.n(300, 300);
    transmute_sec!(cx, n, U16, U16Word, U16_to_le_bytes, U16_to_be_bytes, U16_from_le_bytes, U16_from_be_bytes);
    transmute_sec!(cx, n, U32, U32Word, U32_to_le_bytes, U32_to_be_bytes, U32_from_le_bytes, U32_from_be_bytes);
    transmute_sec!(cx, n, U64, U64Word, U64_to_le_bytes, U64_to_be_bytes, U64_from_le_bytes, U64_from_be_bytes);
    transmute_sec!(cx, n, U128, U128Word, U128_to_le_bytes, U128_to_be_bytes, U128_from_le_bytes, U128_from_be_bytes);
    transmute_sec!(cx, n, u16, u16Word, u16_to_le_bytes, u16_to_be_bytes, u16_from_le_bytes, u16_from_be_bytes);
    transmute_sec!(cx, n, u32, u32Word, u32_to_le_bytes, u32_to_be_bytes, u32_from_le_bytes, u32_from_be_bytes);
    transmute_sec!(cx, n, u64, u64Word, u64_to_le_bytes, u64_to_be_bytes, u64_from_le_bytes, u64_from_be_bytes);
    transmute_sec!(cx, n, u128, u128Word, u128_to_le_bytes, u128_to_be_bytes, u128_from_le_bytes, u128_from_be_bytes);
    trait_bytes!(cx, n, U8, U8, UnsignedSecretInteger);
    trait_bytes!(cx, n, U16, U8, UnsignedSecretInteger);
    trait_bytes!(cx, n, U32, U8, UnsignedSecretInteger);
    trait_bytes!(cx, n, U64, U8, UnsignedSecretInteger);
    trait_bytes!(cx, n, U128, U8, UnsignedSecretInteger);
    trait_bytes!(cx, n, u8, u8, UnsignedPublicInteger);
    trait_bytes!(cx, n, u16, u8, UnsignedPublicInteger);
    trait_bytes!(cx, n, u32, u8, UnsignedPublicInteger);
    trait_bytes!(cx, n, u64, u8, UnsignedPublicInteger);
    trait_bytes!(cx, n, u128, u8, UnsignedPublicInteger);
    let n = cx.n(300, 300);
    word_array!(cx, n, SW8, 31, U8);
    word_array!(cx, n, SW16, 24, U16);
    word_array!(cx, n, SW32, 12, U32);
    word_array!(cx, n, SW32b, 7, U32);
    word_array!(cx, n, SW64, 6, U64);
    word_array!(cx, n, SW128, 3, U128);
    sec_bytes!(cx, n / 10, SB1040, 1040);
    pub_bytes!(cx, n / 10, PB1040, 1040);
    word_array!(cx, n / 10, SW16L, 333, U16);
    word_array!(cx, n / 10, SW64L, 300, U64);
    word_array!(cx, n / 10, SW128L, 260, U128);
    sec_bytes!(cx, n, SB48, 48);
    sec_bytes!(cx, n, SB64, 64);
    sec_bytes!(cx, n, SB50, 50);
    sec_bytes!(cx, n, SB1, 1);
    sec_bytes!(cx, n, SB16, 16);
    sec_bytes!(cx, n, SB15, 15);
    sec_bytes!(cx, n, SB4, 4);
    sec_bytes!(cx, n, SB8, 8);
    sec_bytes!(cx, n, SB33, 33);
    pub_bytes!(cx, n, PB48, 48);
    pub_bytes!(cx, n, PB64, 64);
    pub_bytes!(cx, n, PB50, 50);
    pub_bytes!(cx, n, PB1, 1);
    pub_bytes!(cx, n, PB16, 16);
    pub_bytes!(cx, n, PB15, 15);
    pub_bytes!(cx, n, PB4, 4);
    pub_bytes!(cx, n, PB8, 8);
    pub_bytes!(cx, n, PB33, 33);
    // slices of words <-> byte vectors: any count of words, in order; partial words rejected
    macro_rules! slices { ($($t:ident $r:ident)*) => {$(
        let n = cx.n(150, 150);
        cx.cases(concat!("slice of ", stringify!($t)), n, |c| {
            let k = (<$t as Mi>::BITS / 8) as usize;
            let cnt = match c.idx { 3 => 257, 7 => 4_097, 11 => 66_000, _ => c.rng.below(40) };
            let b = c.rng.bytes(cnt * k);
            c.obs("slice words", cnt);
            c.input(format!("bytes={}", hexs(&b)));
            let sb: Vec<U8> = b.iter().map(|&x| U8(x)).collect();
            let le = $t::from_le_bytes(&sb);
            eq("from_le_bytes", &raw_w(le.iter()), &words(&b, k, false).iter().map(|x| x & mask(<$t as Mi>::BITS)).collect::<Vec<_>>())?;
            eqb("to_le_bytes", &raw8($t::to_le_bytes(&le).iter()), &b)?;
            let be = $t::from_be_bytes(&sb);
            eq("from_be_bytes", &raw_w(be.iter()), &words(&b, k, true))?;
            eqb("to_be_bytes", &raw8($t::to_be_bytes(&be).iter()), &b)?;
            if k > 1 {
                let l = cnt * k + c.rng.range(1, k - 1);
                let bad: Vec<U8> = (0..l).map(|i| U8(i as u8)).collect();
                must_panic("from_le_bytes partial", || $t::from_le_bytes(&bad))?;
                must_panic("from_be_bytes partial", || $t::from_be_bytes(&bad))?;
            }
            Ok(())
        });
    )*}}
    slices!(U8 u8 U16 u16 U32 u32 U64 u64 U128 u128 I8 i8 I16 i16 I32 i32 I64 i64 I128 i128);
}

/// a^e modulo 2^128, square and multiply.
fn wrapping_pow(a: u128, e: u32) -> u128 {
    let mut r = 1u128;
    for i in (0..32).rev() {
        r = r.wrapping_mul(r);
        if e >> i & 1 == 1 { r = r.wrapping_mul(a); }
    }
    r
}
// ------------------------------------------------------------------ C24
fn swaps<T: Mi>(cx: &mut Ctx, n: u64) {
    on_pairs::<T>(cx, "conditional", n, |c, a, b| {
        let (x, y) = (T::of(a), T::of(b));
        let (va, vb) = (v::<T>(a), v::<T>(b));
        let (f, t) = (T::of(0), T::of(mask(T::BITS)));
        let two = |what: &str, g: (T, T), p: u128, q: u128| -> Res { raws(what, g.0, p)?; raws(what, g.1, q) };
        two("cswap c=0", cswap(x, y, f), a, b)?;
        two("cswap c=1s", cswap(x, y, t), b, a)?;
        two("cswap_bit c=0", cswap_bit(x, y, T::of(0)), a, b)?;
        two("cswap_bit c=1", cswap_bit(x, y, T::of(1)), b, a)?;
        raws("cadd c=0", cadd(x, y, f), a)?;
        raws("cadd c=1s", cadd(x, y, t), w::<T>(&(&va + &vb)))?;
        raws("csub c=0", csub(x, y, f), a)?;
        raws("csub c=1s", csub(x, y, t), w::<T>(&(&va - &vb)))?;
        raws("cmul c=0", cmul(x, y, f), a)?;
        raws("cmul c=1s", cmul(x, y, t), w::<T>(&(&va * &vb)))?;
        let is: Vec<u32> = if T::BITS == 8 && b >= 8 { vec![] } else if T::BITS == 8 { vec![b as u32] } else { vec![c.rng.below(T::BITS as usize) as u32, 0, T::BITS - 1] };
        for i in is {
            for bit in 0..2u128 {
                let set = (a & !(1u128 << i)) | (bit << i);
                raws("cset_bit c=0", cset_bit(x, T::of(bit), i, f), a)?;
                raws("cset_bit c=1s", cset_bit(x, T::of(bit), i, t), set)?;
            }
        }
        Ok(())
    });
}
fn division<T: Mi>(cx: &mut Ctx, n: u64) {
    on_pairs::<T>(cx, "ct_div", n, |c, a, b| {
        let (va, vb) = (v::<T>(a), v::<T>(b));
        if !vb.is_positive() || va.is_negative() {
            return Ok(());
        }
        c.obs("quotient bits", format!("{} {}", T::NAME, (&va / &vb).bits()));
        let (q, r) = ct_div(T::of(a), T::of(b));
        let (q, r) = (v::<T>(q.raw()), v::<T>(r.raw()));
        ensure(&q * &vb + &r == va, || format!("a = q*d + r fails: a={} d={} q={} r={}", va, vb, q, r))?;
        ensure(!r.is_negative() && r < vb, || format!("0 <= r < d fails: a={} d={} q={} r={}", va, vb, q, r))
    });
}
fn c24(cx: &mut Ctx) {
    let n = cx.n(400, 400);
    for_types!(swaps(cx, n): u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 U8 U16 U32 U64 U128 I8 I16 I32 I64 I128);
    for_types!(division(cx, n): u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 U8 U16 U32 U64 U128);
    // divisors close to a power of two or to the dividend, quotients of every length
    macro_rules! hard { ($($t:ident)*) => {$(
        let n = cx.n(400, 400);
        cx.cases(concat!("ct_div constructed ", stringify!($t)), n, |c| {
            let bits = <$t as Mi>::BITS;
            for _ in 0..8 {
                // a = q*d + r for a chosen q, d and an extreme r
                let db = c.rng.range(1, bits as usize) as u32;
                let d = (c.rng.edge(db)).max(1);
                let qb = bits - (128 - d.leading_zeros());
                let q = if qb == 0 { 0 } else { c.rng.edge(qb) };
                let r = match c.rng.below(4) { 0 => 0, 1 => d - 1, 2 => 1 % d, _ => c.rng.u128() % d };
                let a = match q.checked_mul(d).and_then(|m| m.checked_add(r)) { Some(a) if a <= mask(bits) => a, _ => continue };
                c.input(format!("{} a={:#x} d={:#x} (q={:#x} r={:#x})", stringify!($t), a, d, q, r));
                let (gq, gr) = ct_div(<$t as Mi>::of(a), <$t as Mi>::of(d));
                raws("quotient", gq, q)?;
                raws("remainder", gr, r)?;
                tick();
            }
            Ok(())
        });
    )*}}
    hard!(u16 u32 u64 u128 U16 U32 U64 U128);
}

// ------------------------------------------------------------------ C25
fn mod_ops<T: Mi>(cx: &mut Ctx, n: u64) {
    // the range in which intermediate results are computed
    let fits_mid = |x: &BigInt| if T::SIGNED { fits::<i128>(x) } else { fits::<T>(x) };
    let one = move |c: &mut Case, a: u128, b: u128, m: u128| -> Res {
        let (va, vb, vm) = (v::<T>(a), v::<T>(b), v::<T>(m));
        if !vm.is_positive() {
            return Ok(());
        }
        c.input(format!("{} x={} y={} n={}", T::NAME, va, vb, vm));
        let (x, y, k) = (T::of(a), T::of(b), T::of(m));
        let add = &va + &vb;
        let sub = &va - &vb;
        let mul = &va * &vb;
        c.obs("operation", format!("{} {}{}{}", T::NAME, if fits_mid(&add) { "a" } else { "A" }, if fits_mid(&sub) { "s" } else { "S" }, if fits_mid(&mul) { "m" } else { "M" }));
        exact_or_panic("add_mod", &modulo(&add, &vm), !fits_mid(&add), || x.add_mod(y, k))?;
        exact_or_panic("sub_mod", &modulo(&sub, &vm), !fits_mid(&sub), || x.sub_mod(y, k))?;
        exact_or_panic("mul_mod", &modulo(&mul, &vm), !fits_mid(&mul), || x.mul_mod(y, k))?;
        exact_or_panic("modulo", &modulo(&va, &vm), false, || x.modulo(k))
    };
    if T::BITS == 8 {
        // exhaustive in thorough; every (x, y) with a spread of n in quick
        let all = cx.thorough;
        cx.cases(&format!("mod {}", T::NAME), 256, |c| {
            c.obs("type", T::NAME);
            let m = c.idx as u128;
            for a in 0..256u128 {
                if all {
                    for b in 0..256u128 {
                        one(c, a, b, m)?;
                        tick();
                    }
                } else {
                    for _ in 0..24 {
                        let b = c.rng.edge(8);
                        one(c, a, b, m)?;
                        tick();
                    }
                }
            }
            Ok(())
        });
    } else {
        cx.cases(&format!("mod {}", T::NAME), n, |c| {
            c.obs("type", T::NAME);
            for _ in 0..8 {
                // half the time keep the operands small enough for the product to fit
                let small = c.rng.chance(1, 2);
                let ob = if small { T::BITS / 2 } else { T::BITS };
                let (mut a, mut b) = pair(&mut c.rng, ob);
                if small && T::SIGNED {
                    // sign-extend the half-width values
                    a = sext(a, ob) as u128 & mask(T::BITS);
                    b = sext(b, ob) as u128 & mask(T::BITS);
                }
                let mb = if c.rng.chance(1, 2) { ob } else { T::BITS };
                let m = match c.rng.below(6) {
                    0 => a,
                    1 => b.wrapping_add(1),
                    2 => (c.rng.below(5) + 1) as u128,
                    _ => c.rng.edge(mb),
                } & mask(T::BITS);
                // signed_mod takes |x|/n steps never, but n must be positive
                one(c, a, b, m)?;
                tick();
            }
            Ok(())
        });
    }
}
fn inverse<T: Mi>(cx: &mut Ctx, n: u64) {
    let one = |c: &mut Case, x: u128, m: u128| -> Res {
        let (vx, vm) = (v::<T>(x), v::<T>(m));
        c.input(format!("{} x={} n={}", T::NAME, vx, vm));
        let g = vx.gcd(&vm);
        c.obs("inverse", format!("{} {}", T::NAME, if g.is_one() { "coprime" } else { "not coprime" }));
        match attempt(|| T::of(x).inv(T::of(m))) {
            Ok(y) => {
                let y = v::<T>(y.raw());
                ensure(g.is_one(), || format!("inv of a non-invertible element returned {}", y))?;
                ensure(!y.is_negative() && y < vm, || format!("inv {} is not in [0, n)", y))?;
                ensure(modulo(&(&vx * &y), &vm) == modulo(&BigInt::one(), &vm), || format!("x * {} is not 1 mod n", y))
            }
            Err(p) => ensure(!g.is_one(), || format!("inv of an invertible element: {}", p)),
        }
    };
    let top = if T::SIGNED { mask(T::BITS - 1) } else { mask(T::BITS) };
    if T::BITS == 8 {
        cx.cases(&format!("inv {}", T::NAME), top as u64 - 1, |c| {
            let m = c.idx as u128 + 2;
            c.obs("type", T::NAME);
            for x in 1..m {
                one(c, x, m)?;
                tick();
            }
            Ok(())
        });
    } else {
        cx.cases(&format!("inv {}", T::NAME), n, |c| {
            c.obs("type", T::NAME);
            for _ in 0..6 {
                let b = if c.rng.chance(1, 2) { T::BITS } else { c.rng.range(2, T::BITS as usize) as u32 };
                let m = (c.rng.edge(b) & top).max(2);
                let x = match c.rng.below(6) {
                    0 => 1,
                    1 => m - 1,
                    2 => m / 2,
                    _ => { let e = c.rng.edge(T::BITS); e % m }
                }
                .max(1);
                one(c, x, m)?;
                tick();
            }
            Ok(())
        });
    }
}
fn c25(cx: &mut Ctx) {
    let n = cx.n(500, 500);
    for_types!(mod_ops(cx, n): u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 U8 U16 U32 U64 U128 I8 I16 I32 I64 I128);
    for_types!(inverse(cx, n): u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 U8 U16 U32 U64 U128 I8 I16 I32 I64 I128);
}

// ------------------------------------------------------------------ C26
fn bits_of<T: Mi>(cx: &mut Ctx, n: u64) {
    let all8 = T::BITS == 8;
    cx.cases(&format!("bits {}", T::NAME), if all8 { 256 } else { n }, |c| {
        let a = if all8 { c.idx as u128 } else { c.rng.edge(T::BITS) };
        let y = if all8 { c.rng.edge(8) } else { c.rng.edge(T::BITS) };
        c.obs("type", T::NAME);
        c.input(format!("{} x={:#x} y={:#x}", T::NAME, a, y));
        let (x, ty) = (T::of(a), T::of(y));
        let m = mask(T::BITS);
        for i in 0..T::BITS {
            raws(&format!("get_bit({})", i), x.get_bit(i), (a >> i) & 1)?;
            raws(&format!("set_bit(0, {})", i), x.set_bit(T::of(0), i), a & !(1u128 << i))?;
            raws(&format!("set_bit(1, {})", i), x.set_bit(T::of(1), i), a | (1u128 << i))?;
            let l = if i == 0 { a } else { ((a << i) | (a >> (T::BITS - i))) & m };
            let r = if i == 0 { a } else { ((a >> i) | (a << (T::BITS - i))) & m };
            raws(&format!("rotate_left({})", i), Integer::rotate_left(x, i), l)?;
            raws(&format!("rotate_right({})", i), Integer::rotate_right(x, i), r)?;
            raws("rotate_right . rotate_left", Integer::rotate_right(Integer::rotate_left(x, i), i), a)?;
            let js: Vec<u32> = if all8 { (0..8).collect() } else { vec![0, T::BITS - 1, c.rng.below(T::BITS as usize) as u32, i] };
            for j in js {
                raws(&format!("set({}, y, {})", i, j), x.set(i, ty, j), (a & !(1u128 << i)) | (((y >> j) & 1) << i))?;
            }
            tick();
        }
        Ok(())
    });
    cx.cases(&format!("literals {}", T::NAME), if all8 { 300 } else { n }, |c| {
        // literals below the type's modulus convert exactly; larger ones keep the low bits
        let l = if c.idx < 300 { c.idx as u128 } else { c.rng.edge(128) };
        let l2 = c.rng.edge(T::BITS);
        c.input(format!("{} literals {:#x} {:#x}", T::NAME, l, l2));
        raws("from_literal", T::from_literal(l2), l2)?;
        if l <= mask(T::BITS) {
            raws("from_literal", T::from_literal(l), l)?;
        }
        Ok(())
    });
    cx.cases(&format!("constants {}", T::NAME), 1, |c| {
        c.input(T::NAME.into());
        eq("NUM_BITS", &<T as Integer>::NUM_BITS, &T::BITS)?;
        raws("ZERO", T::ZERO, 0)?;
        raws("ONE", T::ONE, 1)?;
        raws("TWO", T::TWO, 2)?;
        raws("default", T::default(), 0)?;
        eq("max_val", &v::<T>(T::max_val().raw()), &min_max::<T>().1)
    });
    cx.cases(&format!("pow {}", T::NAME), if all8 { 256 } else { n }, |c| {
        let a = if all8 { c.idx as u128 } else if c.rng.chance(2, 3) { let b = c.rng.range(2, T::BITS as usize) as u32; c.rng.edge(b.min(20)) } else { c.rng.edge(T::BITS) };
        let a = if T::SIGNED && c.rng.chance(1, 2) { a.wrapping_neg() & mask(T::BITS) } else { a };
        if T::SECRET && c.idx % 16 == 0 || a < 2 {
            // exponents of more than 8 and 16 bits
            for e in [255u32, 256, 257, 32_767, 32_768, 65_535, 65_536, 65_537, 131_073, (1 << 20) + 7] {
                c.input(format!("{} base={} exp={}", T::NAME, v::<T>(a), e));
                raws("pow", T::of(a).pow(e), wrapping_pow(a, e) & mask(T::BITS))?;
                c.obs("pow", format!("exponent bits {}", 32 - e.leading_zeros()));
                tick();
            }
        }
        for e in [0u32, 1, 2, 3, 4, 5, 6, 7, 8, 16, 31, 33, c.rng.below(70) as u32] {
            let va = v::<T>(a);
            let exact = num::pow(va.clone(), e as usize);
            c.input(format!("{} base={} exp={}", T::NAME, va, e));
            if T::SECRET {
                raws("pow", T::of(a).pow(e), w::<T>(&exact))?;
            } else {
                c.obs("pow", format!("{} {}", T::NAME, if fits::<T>(&exact) { "fits" } else { "overflows" }));
                exact_or_panic("pow", &exact, !fits::<T>(&exact), || T::of(a).pow(e))?;
            }
            tick();
        }
        Ok(())
    });
    on_pairs::<T>(cx, "div", n / 4, |c, a, b| {
        let (va, vb) = (v::<T>(a), v::<T>(b));
        if vb.is_zero() {
            c.obs("div", "by zero");
            return must_panic("div by zero", || T::of(a).div(T::of(b)).raw());
        }
        let q = &va / &vb; // truncated, as the machine operation
        exact_or_panic("div", &q, !fits::<T>(&q), || T::of(a).div(T::of(b)))?;
        if !T::SECRET {
            raws("wrap_add", T::of(a).wrap_add(T::of(b)), w::<T>(&(&va + &vb)))?;
            raws("wrap_sub", T::of(a).wrap_sub(T::of(b)), w::<T>(&(&va - &vb)))?;
            raws("wrap_mul", T::of(a).wrap_mul(T::of(b)), w::<T>(&(&va * &vb)))?;
            raws("wrap_div", T::of(a).wrap_div(T::of(b)), w::<T>(&q))?;
        }
        Ok(())
    });
}
macro_rules! get_bytes {
    ($cx:ident, $($t:ident)*) => {$(
        let n = $cx.n(200, 200);
        $cx.cases(concat!("get_byte ", stringify!($t)), if <$t as Mi>::BITS == 8 { 256 } else { n }, |c| {
            let a = if <$t as Mi>::BITS == 8 { c.idx as u128 } else { c.rng.edge(<$t as Mi>::BITS) };
            c.input(format!("x={:#x}", a));
            for i in 0..<$t as Mi>::BITS / 8 {
                raws(&format!("get_byte({})", i), <$t as Mi>::of(a).get_byte(i), (a >> (8 * i)) & 0xff)?;
                tick();
            }
            Ok(())
        });
    )*};
}
fn c26(cx: &mut Ctx) {
    let n = cx.n(500, 500);
    for_types!(bits_of(cx, n): u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 U8 U16 U32 U64 U128 I8 I16 I32 I64 I128);
    get_bytes!(cx, U8 U16 U32 U64 U128);
}

/// The bit-level model against machine arithmetic done another way.
fn selftest() {
    let mut r = Rng::new(7);
    for _ in 0..2000 {
        let (a, b) = pair(&mut r, 32);
        let (x, y) = (a as u32, b as u32);
        assert_eq!(w::<u32>(&(v::<u32>(a) * v::<u32>(b))), x.wrapping_mul(y) as u128);
        assert_eq!(w::<i32>(&(v::<i32>(a) - v::<i32>(b))), (x as i32).wrapping_sub(y as i32) as u32 as u128);
        assert_eq!(v::<i32>(a) < v::<i32>(b), (x as i32) < (y as i32));
    }
    for _ in 0..2000 {
        let a = r.edge(128);
        assert_eq!(wrap(&v::<i128>(a), 128), a);
        assert_eq!(wrap(&v::<u128>(a), 128), a);
        let b = r.edge(16);
        assert_eq!(sext(b, 16), b as u16 as i16 as i128);
        assert_eq!(modulo(&BigInt::from(-7), &BigInt::from(3)), BigInt::from(2));
    }
    assert_eq!(hex(&words(&[1, 2, 3, 4], 2, true).iter().map(|x| *x as u8).collect::<Vec<_>>()), "0204");
}
const CHECKS: &[Check] = &[
    Check { id: "C14", shards: 8, run: c14, selftest, scale: (16, 200), require: &[("type", 10), ("cast", 70)],
        rule: "8-bit types: every operand pair and value; other widths: edge-biased related pairs; every shift below the width; every cast; compared with big-integer arithmetic reduced to the width; distinct by (type, operands)" },
    Check { id: "C15", shards: 8, run: c15, selftest, scale: (8, 300), require: &[("type", 20), ("order", 60)],
        rule: "8-bit types: every pair; other widths: edge-biased related pairs and grids around powers of two; compared with integer order; distinct by (type, pair)" },
    Check { id: "C16", shards: 8, run: c16, selftest, scale: (60, 600), require: &[("type", 15), ("word function", 100), ("slice words", 35), ("wrong length", 2)],
        rule: "edge-biased values of every width, byte arrays of fitting and non-fitting lengths, slices of 0..40 words; compared with shift-and-mask encodings; distinct by (type, value)" },
    Check { id: "C24", shards: 8, run: c24, selftest, scale: (24, 300), require: &[("type", 20), ("quotient bits", 500)],
        rule: "8-bit types: every pair; other widths: edge-biased pairs and dividends constructed from a chosen quotient and extreme remainder; compared with big-integer arithmetic; distinct by (type, operands)" },
    Check { id: "C25", shards: 8, run: c25, selftest, scale: (4, 60), require: &[("type", 20), ("inverse", 40)],
        rule: "8-bit types: every (x, n), spread or (thorough) every y, every (x, n) inverse; other widths: edge-biased triples, half of them with products that fit; exact residue or justified panic; distinct by (type, triple)" },
    Check { id: "C26", shards: 8, run: c26, selftest, scale: (16, 300), require: &[("type", 20)],
        rule: "8-bit types: every value; other widths: edge-biased values; every bit index, rotation amount, byte index; compared with shift-and-mask on the bit pattern; distinct by (type, value, index)" },
];
fn main() {
    main_check(CHECKS)
}
