//! A registry of the public operations, each a deterministic function of a seed: used by the
//! purity check (C30) and by the sanitizer runs (C29).  An operation returns everything it
//! computed (also whether it panicked), and `Err` if it changed one of its arguments.
#![allow(unused)]
use hv::gen::{hex, Rng};
use hv::mi::*;
use hv::mon::attempt;
use hacspec::prelude::{
    array, bytes, both_arrays, cadd, cmul, csub, cset_bit, cswap, cswap_bit, ct_div, fmt, generic_array, num, nat_mod, poly, public_bytes, public_nat_mod,
    signed_integer, signed_public_integer, unsigned_integer, unsigned_public_integer, ByteSeq, Integer, ModNumeric, Numeric, NumericBase, PublicSeq, SecretSeq, Seq, SeqTrait,
    I128, I16, I32, I64, I8, U128, U16, U32, U64, U8,
};
use hacspec_examples as ex;

pub type Out = Result<String, String>;
pub struct Op {
    pub name: &'static str,
    /// Rough cost class: 0 cheap, 1 moderate, 2 expensive (scalar multiplications).
    pub cost: u8,
    /// Every argument is in the documented domain: the operation may not panic.
    pub total: bool,
    pub f: fn(&mut Rng, usize) -> Out,
}

fn bs(b: &[u8]) -> ByteSeq {
    ByteSeq::from_public_slice(b)
}
fn h<'a>(it: impl Iterator<Item = &'a U8>) -> String {
    hex(&it.map(|x| x.declassify()).collect::<Vec<u8>>())
}
/// The borrowed argument still holds what it held.
fn same(s: &ByteSeq, b: &[u8]) -> Result<(), String> {
    if s.len() == b.len() && s.iter().zip(b).all(|(x, y)| x.declassify() == *y) { Ok(()) } else { Err("an argument was modified".into()) }
}
/// One record of the result (records that hold a caught panic are told apart by `Err(()`/`P`).
macro_rules! w { ($o:ident, $($a:tt)*) => { $o.push(format!($($a)*)) }; }
type Rec = Vec<String>;
pub const SEP: char = '\u{1f}';
fn done(o: Rec) -> Out {
    Ok(o.join("\u{1f}"))
}

// ------------------------------------------------------------------ cryptographic functions
fn len(r: &mut Rng, max: usize) -> usize {
    r.len(64, max)
}
macro_rules! hash_op {
    ($name:ident, $m:ident => $e:expr) => {
        fn $name(r: &mut Rng, max: usize) -> Out {
            let l = len(r, max);
            let b = r.bytes(l);
            let $m = bs(&b);
            let d = $e;
            same(&$m, &b)?;
            Ok(h(d.iter()))
        }
    };
}
hash_op!(sha256, m => ex::sha2::hash(&m));
hash_op!(sha3_224, m => ex::fips202::sha3224(&m));
hash_op!(sha3_256, m => ex::fips202::sha3256(&m));
hash_op!(sha3_384, m => ex::fips202::sha3384(&m));
hash_op!(sha3_512, m => ex::fips202::sha3512(&m));
hash_op!(blake2b, m => ex::blake2::blake2b::blake2b(&m));
fn shake(r: &mut Rng, max: usize) -> Out {
    let (l, n) = (len(r, max), r.below(max + 1));
    let b = r.bytes(l);
    let m = bs(&b);
    let d = if r.chance(1, 2) { ex::fips202::shake128(&m, n) } else { ex::fips202::shake256(&m, n) };
    same(&m, &b)?;
    Ok(h(d.iter()))
}
fn hmac(r: &mut Rng, max: usize) -> Out {
    let (l, n) = (len(r, max), len(r, 150));
    let (a, b) = (r.bytes(n), r.bytes(l));
    let (k, m) = (bs(&a), bs(&b));
    let d = ex::hmac::hmac(&k, &m);
    same(&k, &a)?;
    same(&m, &b)?;
    Ok(h(d.iter()))
}
fn hkdf(r: &mut Rng, max: usize) -> Out {
    let (a, b, i) = (r.below(90), r.below(90), r.below(90));
    let (sb, kb, ib) = (r.bytes(a), r.bytes(b), r.bytes(i));
    let (s, k, info) = (bs(&sb), bs(&kb), bs(&ib));
    let p = ex::hkdf::extract(&s, &k);
    let o = ex::hkdf::expand(&ByteSeq::from_seq(&p), &info, 1 + r.below(max.max(2)));
    same(&s, &sb)?;
    same(&k, &kb)?;
    same(&info, &ib)?;
    Ok(h(p.iter()) + &h(o.iter()))
}
fn aes(r: &mut Rng, max: usize) -> Out {
    use ex::aes_gcm::aes::*;
    let l = r.len(16, max);
    let (k1, k2, n, b) = (r.bytes(16), r.bytes(32), r.bytes(12), r.bytes(l));
    let m = bs(&b);
    let ctr = U32(r.edge(16) as u32);
    let (key1, key2, nonce) = (Key128::from_public_slice(&k1), Key256::from_public_slice(&k2), Nonce::from_public_slice(&n));
    let x = aes128_encrypt(key1, nonce, ctr, &m);
    let y = aes128_decrypt(key1, nonce, ctr, &m);
    let z = aes256_encrypt(key2, nonce, ctr, &m);
    let q = aes256_decrypt(key2, nonce, ctr, &m);
    same(&m, &b)?;
    let blk = Block::from_public_slice(&r.bytes(16));
    let e = aes128_encrypt_block(key1, blk, 4, 10);
    let f = aes256_encrypt_block(key2, blk, 8, 14);
    if h(nonce.iter()) != hex(&n) { return Err("an argument was modified".into()); }
    Ok([h(x.iter()), h(y.iter()), h(z.iter()), h(q.iter()), h(e.iter()), h(f.iter())].concat())
}
fn gcm(r: &mut Rng, max: usize) -> Out {
    use ex::aes_gcm::{aes::*, gf128::Tag, *};
    let (l, a) = (r.len(16, max), r.len(16, 40));
    let (k1, k2, n, b, ab) = (r.bytes(16), r.bytes(32), r.bytes(12), r.bytes(l), r.bytes(a));
    let (m, aad) = (bs(&b), bs(&ab));
    let (key1, key2, nonce) = (Key128::from_public_slice(&k1), Key256::from_public_slice(&k2), Nonce::from_public_slice(&n));
    let (c1, t1) = encrypt_aes128(key1, nonce, &aad, &m);
    let (c2, t2) = encrypt_aes256(key2, nonce, &aad, &m);
    let d1 = decrypt_aes128(key1, nonce, &aad, &c1, t1);
    let d2 = decrypt_aes256(key2, nonce, &aad, &c2, t2);
    // refused ones: other data, another tag
    let d3 = decrypt_aes128(key1, nonce, &m, &c1, t1);
    let d4 = decrypt_aes256(key2, nonce, &aad, &c2, t1);
    same(&m, &b)?;
    same(&aad, &ab)?;
    let g = ex::aes_gcm::gf128::gmac(&m, ex::aes_gcm::gf128::Key::from_public_slice(&k1));
    let s = |x: Result<ByteSeq, String>| match x { Ok(v) => h(v.iter()), Err(e) => e };
    Ok([h(c1.iter()), h(t1.iter()), h(c2.iter()), h(t2.iter()), s(d1), s(d2), s(d3), s(d4), h(g.iter())].concat())
}
fn chacha(r: &mut Rng, max: usize) -> Out {
    use ex::chacha20_poly1305::{chacha20 as cc, poly1305 as p, *};
    let (l, a) = (len(r, max), r.len(16, 40));
    let (k, n, b, ab) = (r.bytes(32), r.bytes(12), r.bytes(l), r.bytes(a));
    let (m, aad) = (bs(&b), bs(&ab));
    let (key, iv) = (cc::Key::from_public_slice(&k), cc::IV::from_public_slice(&n));
    let blk = cc::block(key, U32(r.edge(32) as u32), iv);
    let c = cc::chacha(key, iv, &m)?;
    let (ct, tag) = encrypt(key, iv, &aad, &m)?;
    let d = decrypt(key, iv, &aad, &ct, tag);
    let e = decrypt(key, iv, &m, &ct, tag);
    same(&m, &b)?;
    same(&aad, &ab)?;
    if h(key.iter()) != hex(&k) { return Err("an argument was modified".into()); }
    let s = |x: Result<ByteSeq, String>| match x { Ok(v) => h(v.iter()), Err(e) => e };
    Ok([h(blk.iter()), h(c.iter()), h(ct.iter()), hex(&tag.iter().cloned().collect::<Vec<_>>()), s(d), s(e)].concat())
}
fn poly1305(r: &mut Rng, max: usize) -> Out {
    use ex::chacha20_poly1305::{chacha20 as cc, poly1305 as p};
    let l = r.len(16, max);
    let (k, n, b) = (r.bytes(32), r.bytes(12), r.bytes(l));
    let m = bs(&b);
    let t = p::poly(&m, cc::Key::from_public_slice(&k));
    let u = p::poly_mac(&m, cc::Key::from_public_slice(&k), cc::IV::from_public_slice(&n));
    same(&m, &b)?;
    Ok(hex(&t.iter().cloned().collect::<Vec<_>>()) + &hex(&u.iter().cloned().collect::<Vec<_>>()))
}
fn x25519(r: &mut Rng, _: usize) -> Out {
    use ex::curve25519 as x;
    let (k, u) = (r.bytes(32), r.bytes(32));
    let p = x::scalarmult(x::SerializedScalar::from_public_slice(&k), x::SerializedPoint::from_public_slice(&u));
    Ok(h(p.iter()))
}
fn p256(r: &mut Rng, _: usize) -> Out {
    let (x, y) = ex::p256::point_mul(ex::p256::Scalar::from_hex(&hex(&r.bytes(31))));
    Ok(format!("{} {}", x, y))
}

// ------------------------------------------------------------------ integers
/// `P` when the operation panicked, its bit pattern otherwise.
fn t<T: Mi>(o: &mut Rec, f: impl FnOnce() -> T) {
    match attempt(f) {
        Ok(x) => w!(o, "{:x}", x.raw()),
        Err(_) => o.push("P".into()),
    }
}
fn int<T: Mi>(r: &mut Rng, o: &mut Rec) {
    let (a, b) = pair(r, T::BITS);
    let (x, y) = (T::of(a), T::of(b));
    let s = r.below(T::BITS as usize) as u32;
    let bit = T::of(r.below(2) as u128);
    let c = T::of(if r.chance(1, 2) { u128::MAX } else { 0 });
    t(o, || x.wrap_add(y));
    t(o, || x.wrap_sub(y));
    t(o, || x.wrap_mul(y));
    t(o, || x & y);
    t(o, || x | y);
    t(o, || x ^ y);
    t(o, || !x);
    t(o, || x << s);
    t(o, || x >> s);
    t(o, || Integer::rotate_left(x, s));
    t(o, || Integer::rotate_right(x, s));
    t(o, || x.get_bit(s));
    t(o, || x.set_bit(bit, s));
    t(o, || x.set(s, y, s));
    t(o, || x.equal_bm(y));
    t(o, || x.not_equal_bm(y));
    if !(T::SECRET && T::SIGNED) {
        t(o, || x.greater_than_bm(y));
        t(o, || x.greater_than_or_qual_bm(y));
        t(o, || x.less_than_bm(y));
        t(o, || x.less_than_or_equal_bm(y));
        let d = T::of((b >> 1) | 1);
        let p = attempt(|| ct_div(T::of(a >> 1), d));
        w!(o, "{:?},", p.map(|(q, r)| (q.raw(), r.raw())).map_err(|_| ()));
    }
    let (p, q) = cswap(x, y, c);
    w!(o, "{:x},{:x},", p.raw(), q.raw());
    t(o, || cset_bit(x, bit, s, c));
    t(o, || cadd(x, y, c));
    t(o, || csub(x, y, c));
    t(o, || cmul(x, y, c));
    let n = T::of((r.edge(T::BITS / 2 - 1)) | 1);
    t(o, || x.modulo(n));
    let (p, q) = (T::of(a & mask(T::BITS / 2 - 1)), T::of(b & mask(T::BITS / 2 - 1)));
    let (p, q) = (p.modulo(n), q.modulo(n));
    t(o, || p.add_mod(q, n));
    t(o, || p.sub_mod(q, n));
    t(o, || p.mul_mod(q, n));
    w!(o, "{:?}", attempt(|| (x.equal(y), x.less_than(y), x.greater_than(y), x.less_than_or_equal(y), x.greater_than_or_qual(y))).map_err(|_| ()));
    if x.raw() != a || y.raw() != b { o.push("CHANGED".into()); }
}
macro_rules! int_op {
    ($n:ident: $($t:ident)*) => {
        fn $n(r: &mut Rng, _: usize) -> Out {
            let mut o: Rec = vec![];
            $( int::<$t>(r, &mut o); )*
            if o.iter().any(|x| x == "CHANGED") { Err("an argument was modified".into()) } else { done(o) }
        }
    };
}
int_op!(int_pub: u8 u16 u32 u64 u128);
int_op!(int_pubs: i8 i16 i32 i64 i128);
int_op!(int_sec: U8 U16 U32 U64 U128);
int_op!(int_secs: I8 I16 I32 I64 I128);
macro_rules! inherent {
    ($($t:ident $r:ident),*) => {
        /// The operators and conversions of the secret integer crate itself.
        fn secret_ops(r: &mut Rng, _: usize) -> Out {
            let mut o: Rec = vec![];
            $({
                let (a, b) = pair(r, <$t as Mi>::BITS);
                let (x, y) = ($t(a as $r), $t(b as $r));
                t(&mut o, || x + y); t(&mut o, || x - y); t(&mut o, || x * y); t(&mut o, || x & y); t(&mut o, || x | y); t(&mut o, || x ^ y); t(&mut o, || !x); t(&mut o, || -x);
                let s = r.u64() as u32;
                t(&mut o, || $t::rotate_left(x, s)); t(&mut o, || $t::rotate_right(x, s));
                t(&mut o, || x.checked_add(y)); t(&mut o, || x.checked_sub(y)); t(&mut o, || x.checked_mul(y));
                t(&mut o, || $t::comp_eq(x, y)); t(&mut o, || $t::comp_ne(x, y)); t(&mut o, || $t::comp_gte(x, y)); t(&mut o, || $t::comp_gt(x, y)); t(&mut o, || $t::comp_lte(x, y)); t(&mut o, || $t::comp_lt(x, y));
                w!(o, "{} {:?} {:x}", x, x, x);
                let k = r.below(6);
                let v: Vec<$t> = (0..k).map(|_| $t(r.edge(<$t as Mi>::BITS) as $r)).collect();
                let (le, be) = ($t::to_le_bytes(&v), $t::to_be_bytes(&v));
                w!(o, "{} {}", h(le.iter()), h(be.iter()));
                for x in $t::from_le_bytes(&le).iter().chain($t::from_be_bytes(&be).iter()) { w!(o, "{:x} ", x.raw()); }
                // partial words are refused
                let bad: Vec<U8> = (0..r.below(20)).map(|i| U8(i as u8)).collect();
                w!(o, "{:?}", attempt(|| ($t::from_le_bytes(&bad).len(), $t::from_be_bytes(&bad).len())).map_err(|_| ()));
                w!(o, "{:x} {:x}", $t::classify(a as $r).raw(), $t::from(a as $r).raw());
            })*
            done(o)
        }
    };
}
inherent!(U8 u8, U16 u16, U32 u32, U64 u64, U128 u128, I8 i8, I16 i16, I32 i32, I64 i64, I128 i128);
macro_rules! words {
    ($($name:ident $t:ident $w:ident $len:literal $mk:expr, $tl:ident $tb:ident $fl:ident $fb:ident);*) => {
        /// The word conversions of the transmute module, from words of any length.
        fn words(r: &mut Rng, _: usize) -> Out {
            use hacspec::prelude as hp;
            let mut o: Rec = vec![];
            $({
                let x = <$t as Mi>::of(r.edge(<$t as Mi>::BITS));
                let (le, be) = (hp::$tl(x), hp::$tb(x));
                w!(o, "{:?} {:?}", le.0, be.0);
                w!(o, "{:x} {:x}", hp::$fl(le).raw(), hp::$fb(le).raw());
                let b = r.bytes($len);
                let z = hp::$w::from_vec(b.iter().map($mk).collect());
                w!(o, "{:x} {:x}", hp::$fl(z).raw(), hp::$fb(z).raw());
                let odd: Vec<_> = (0..r.below($len + 3)).map(|i| i as u8).collect();
                w!(o, "{:?}", attempt(|| hp::$fl(hp::$w::from_vec(odd.iter().map($mk).collect())).raw()).map_err(|_| ()));
                w!(o, "{:?}", attempt(|| hp::$fb(hp::$w::from_slice(&odd.iter().map($mk).collect::<Vec<_>>())).raw()).map_err(|_| ()));
            })*
            done(o)
        }
    };
}
words!(a U16 U16Word 2 |x| U8(*x), U16_to_le_bytes U16_to_be_bytes U16_from_le_bytes U16_from_be_bytes;
       b U32 U32Word 4 |x| U8(*x), U32_to_le_bytes U32_to_be_bytes U32_from_le_bytes U32_from_be_bytes;
       c U64 U64Word 8 |x| U8(*x), U64_to_le_bytes U64_to_be_bytes U64_from_le_bytes U64_from_be_bytes;
       d U128 U128Word 16 |x| U8(*x), U128_to_le_bytes U128_to_be_bytes U128_from_le_bytes U128_from_be_bytes;
       e u16 u16Word 2 |x| *x, u16_to_le_bytes u16_to_be_bytes u16_from_le_bytes u16_from_be_bytes;
       f u32 u32Word 4 |x| *x, u32_to_le_bytes u32_to_be_bytes u32_from_le_bytes u32_from_be_bytes;
       g u64 u64Word 8 |x| *x, u64_to_le_bytes u64_to_be_bytes u64_from_le_bytes u64_from_be_bytes;
       h u128 u128Word 16 |x| *x, u128_to_le_bytes u128_to_be_bytes u128_from_le_bytes u128_from_be_bytes);

// ------------------------------------------------------------------ arrays and sequences
mod arr {
    #![allow(unused)]
    use hacspec::prelude::*;
    use std::cmp::Ordering;
    array!(A7, 7, u32);
    array!(S7, 7, U32);
    bytes!(B48, 48);
    public_bytes!(P48, 48);
    generic_array!(G5, 5);
    array!(I6, 6, i64);
    both_arrays!(BP, BS, 6, U64, u64);
}
fn arrays(r: &mut Rng, _: usize) -> Out {
    use arr::*;
    let mut o: Rec = vec![];
    let b = r.bytes(48);
    let (x, y) = (B48::from_public_slice(&b), P48::from_vec(b.clone()));
    for s in [x.to_hex(), y.to_hex()] { w!(o, "{} ", s); }
    w!(o, "{} {} ", h(x.to_be_bytes().iter()), h(x.to_le_bytes().iter()));
    for v in x.to_be_U32s().iter().chain(x.to_le_U32s().iter()) { w!(o, "{:x} ", v.raw()); }
    for v in x.to_be_U64s().iter().chain(x.to_le_U64s().iter()) { w!(o, "{:x} ", v.raw()); }
    for v in x.to_U128s_be().iter().chain(x.to_U128s_le().iter()) { w!(o, "{:x} ", v.raw()); }
    for v in y.to_be_u64s().iter().chain(y.to_le_u64s().iter()) { w!(o, "{:x} ", v); }
    for v in y.to_be_u32s().iter().chain(y.to_le_u32s().iter()) { w!(o, "{:x} ", v); }
    for v in y.to_u128s_be().iter().chain(y.to_u128s_le().iter()) { w!(o, "{:x} ", v); }
    // slices and updates, in and out of range
    let (s, l) = (r.below(50), r.below(50));
    w!(o, "{:?} ", attempt(|| h(x.sub(s, l).iter())).map_err(|_| ()));
    w!(o, "{:?} ", attempt(|| h(x.update_sub(s, &x, l, 3).iter())).map_err(|_| ()));
    w!(o, "{:?} ", attempt(|| x[s].raw()).map_err(|_| ()));
    w!(o, "{:?} ", attempt(|| { let mut z = x; z[l] = U8(7); h(z.iter()) }).map_err(|_| ()));
    let v: Vec<u32> = (0..7).map(|_| r.edge(32) as u32).collect();
    let u: Vec<u32> = (0..7).map(|_| 1 | r.edge(32) as u32).collect();
    let (p, q) = (A7::from_vec(v.clone()), A7::from_vec(u.clone()));
    w!(o, "{:?} {:?} {:?} {:?} {:?} {} {:?}", p + q, p - q, p * q, p / q, p ^ q, p == q, p.cmp(&q));
    let (p, q) = (S7::from_public_slice(&v), S7::from_public_slice(&u));
    w!(o, "{:?} {:?} {:?} {:?} {}", p + q, p - q, p * q, p ^ q, p.declassify_eq(&q));
    let k = 1 + r.below(9);
    for i in 0..p.num_chunks(k) { let (l, c) = p.get_chunk(k, i); w!(o, "{} {:?};", l, c.iter().map(|z| z.raw()).collect::<Vec<_>>()); }
    w!(o, "{:?} ", attempt(|| G5::<U16>::from_slice(&vec![U16(3); l]).len()).map_err(|_| ()));
    w!(o, "{:?} ", I6::from_vec((0..6).map(|_| r.u64() as i64).collect()));
    w!(o, "{:?} ", BP::from_secret_declassify(BS::from_public_slice(&[1, 2, 3, 4, 5, r.u64()])));
    w!(o, "{:?} ", attempt(|| B48::from_hex(&hex(&b[..r.below(49)])).to_hex()).map_err(|_| ()));
    if x.to_hex() != hex(&b) { return Err("an argument was modified".into()); }
    done(o)
}
/// A position, length or count: mostly around the container's length, sometimes absurd.
fn wild(r: &mut Rng, l: usize) -> usize {
    match r.below(12) {
        0 => usize::MAX,
        1 => usize::MAX - r.below(4),
        2 => usize::MAX - l,
        3 => l,
        4 => l + 1,
        5 => 0,
        _ => r.below(l + 4),
    }
}
macro_rules! hostile {
    ($o:ident, $r:ident, $x:ident, $y:ident, $mk:ident, $elem:expr, $raw:expr) => {{
        let l = $x.len();
        let show = |it: std::slice::Iter<_>| it.map($raw).map(|v| format!("{:x}", v)).collect::<Vec<_>>().join(":");
        for _ in 0..3 {
            let (a, b, c) = (wild($r, l), wild($r, l), wild($r, l));
            w!($o, "{:?}", attempt(|| show($x.sub(a, b).iter())).map_err(|_| ()));
            w!($o, "{:?}", attempt(|| show($x.subr(a..b).iter())).map_err(|_| ()));
            w!($o, "{:?}", attempt(|| show($x.clone().update_sub(a, &$y, b, c).iter())).map_err(|_| ()));
            w!($o, "{:?}", attempt(|| show($x.clone().update(a, &$y).iter())).map_err(|_| ()));
            w!($o, "{:?}", attempt(|| show($x.clone().update_start(&$y).iter())).map_err(|_| ()));
            w!($o, "{:?}", attempt(|| format!("{:x}", $raw(&$x[a]))).map_err(|_| ()));
            w!($o, "{:?}", attempt(|| format!("{:x}", $raw(&$x[a as u8]))).map_err(|_| ()));
            w!($o, "{:?}", attempt(|| format!("{:x}", $raw(&$x[a as u32]))).map_err(|_| ()));
            w!($o, "{:?}", attempt(|| format!("{:x}", $raw(&$x[a as i32]))).map_err(|_| ()));
            w!($o, "{:?}", attempt(|| { let mut z = $x.clone(); z[b] = $elem; show(z.iter()) }).map_err(|_| ()));
            w!($o, "{:?}", attempt(|| { let mut z = $x.clone(); z[b as i32] = $elem; show(z.iter()) }).map_err(|_| ()));
            w!($o, "{:?}", attempt(|| { let mut z = $x.clone(); z[b as u32] = $elem; show(z.iter()) }).map_err(|_| ()));
            w!($o, "{:?}", attempt(|| { let mut z = $x.clone(); z[b as u8] = $elem; show(z.iter()) }).map_err(|_| ()));
            let (k, i) = (wild($r, l), wild($r, 4));
            w!($o, "{:?}", attempt(|| { let (n, v) = $x.get_chunk(k, i); (n, show(v.iter())) }).map_err(|_| ()));
            w!($o, "{:?}", attempt(|| $x.num_chunks(k)).map_err(|_| ()));
            w!($o, "{:?}", attempt(|| show($x.clone().set_chunk(k, i, &$y).iter())).map_err(|_| ()));
            w!($o, "{:?}", attempt(|| { let (_, v) = $x.get_chunk(k, i); show($x.clone().set_chunk(k, i, &v).iter()) }).map_err(|_| ()));
        }
    }};
}
macro_rules! hostile_array {
    ($o:ident, $r:ident, $t:ident, $elem:expr, $raw:expr) => {{
        let mut x = $t::new();
        for i in 0..x.len() { let k = $r.u64(); x[i] = $elem(k); }
        let n = $r.below(x.len() + 3);
        let y = Seq::from_vec((0..n).map(|_| $elem($r.u64())).collect::<Vec<_>>());
        let e = $elem($r.u64());
        hostile!($o, $r, x, y, $t, e, $raw);
        hostile!($o, $r, x, x, $t, e, $raw);
        let show = |it: std::slice::Iter<_>| it.map($raw).map(|v| format!("{:x}", v)).collect::<Vec<_>>().join(":");
        let v: Vec<_> = y.iter().cloned().collect();
        w!($o, "{:?}", attempt(|| show($t::from_vec(v.clone()).iter())).map_err(|_| ()));
        w!($o, "{:?}", attempt(|| show($t::from_slice(&v).iter())).map_err(|_| ()));
        w!($o, "{:?}", attempt(|| show($t::from_seq(&y).iter())).map_err(|_| ()));
        let (a, b) = (wild($r, n), wild($r, n));
        w!($o, "{:?}", attempt(|| show($t::from_sub(&y, a, b).iter())).map_err(|_| ()));
        w!($o, "{:?}", attempt(|| show($t::from_sub_range(&y, a..b).iter())).map_err(|_| ()));
        w!($o, "{:?}", attempt(|| show($t::create(a).iter())).map_err(|_| ()));
        w!($o, "{:?}", show(x[..].iter()));
    }};
}
mod arr2 {
    #![allow(unused)]
    use hacspec::prelude::*;
    use std::cmp::Ordering;
    bytes!(B7, 7);
    bytes!(B1, 1);
    public_bytes!(P7, 7);
    array!(A5, 5, U32);
    array!(A3, 3, U128);
    array!(I6, 6, i64);
    array!(H6, 6, u16);
    array!(K4, 4, U64);
    array!(L4, 4, U16);
    generic_array!(G5, 5);
}
fn hostile_arrays(r: &mut Rng, _: usize) -> Out {
    use arr2::*;
    let mut o: Rec = vec![];
    match r.below(8) {
        0 => hostile_array!(o, r, B7, |k: u64| U8(k as u8), |x: &U8| x.0),
        1 => hostile_array!(o, r, P7, |k: u64| k as u8, |x: &u8| *x),
        2 => hostile_array!(o, r, A5, |k: u64| U32(k as u32), |x: &U32| x.0),
        3 => hostile_array!(o, r, A3, |k: u64| U128(k as u128 * 3), |x: &U128| x.0),
        4 => hostile_array!(o, r, I6, |k: u64| k as i64, |x: &i64| *x),
        5 => hostile_array!(o, r, H6, |k: u64| k as u16, |x: &u16| *x),
        6 => hostile_array!(o, r, B1, |k: u64| U8(k as u8), |x: &U8| x.0),
        _ => {
            let mut x = G5::<U16>::new();
            for i in 0..5 { x[i as usize] = U16(r.u64() as u16); }
            let y = Seq::from_vec((0..r.below(8)).map(|i| U16(i as u16)).collect::<Vec<_>>());
            hostile!(o, r, x, y, G5, U16(9), |x: &U16| x.0);
        }
    }
    // byte views of every width, whole and partial words
    let b7 = B7::from_public_slice(&r.bytes(7));
    w!(o, "{} {}", h(b7.to_be_bytes().iter()), h(b7.to_le_bytes().iter()));
    w!(o, "{:?}", attempt(|| b7.to_be_U32s().iter().map(|x| x.0).collect::<Vec<_>>()).map_err(|_| ()));
    w!(o, "{:?}", attempt(|| b7.to_le_U32s().iter().map(|x| x.0).collect::<Vec<_>>()).map_err(|_| ()));
    w!(o, "{:?}", attempt(|| b7.to_be_U64s().iter().map(|x| x.0).collect::<Vec<_>>()).map_err(|_| ()));
    w!(o, "{:?}", attempt(|| b7.to_le_U64s().iter().map(|x| x.0).collect::<Vec<_>>()).map_err(|_| ()));
    w!(o, "{:?}", attempt(|| b7.to_U128s_be().iter().map(|x| x.0).collect::<Vec<_>>()).map_err(|_| ()));
    w!(o, "{:?}", attempt(|| b7.to_U128s_le().iter().map(|x| x.0).collect::<Vec<_>>()).map_err(|_| ()));
    let p7 = P7::from_vec(r.bytes(7));
    w!(o, "{:?}", attempt(|| (p7.to_be_u32s(), p7.to_le_u32s())).map(|(a, b)| (a.iter().cloned().collect::<Vec<_>>(), b.iter().cloned().collect::<Vec<_>>())).map_err(|_| ()));
    w!(o, "{:?}", attempt(|| (p7.to_be_u64s(), p7.to_le_u64s())).map(|(a, b)| (a.iter().cloned().collect::<Vec<_>>(), b.iter().cloned().collect::<Vec<_>>())).map_err(|_| ()));
    w!(o, "{:?}", attempt(|| (p7.to_u128s_be(), p7.to_u128s_le())).map(|(a, b)| (a.iter().cloned().collect::<Vec<_>>(), b.iter().cloned().collect::<Vec<_>>())).map_err(|_| ()));
    let a = A5::from_vec((0..5).map(|_| U32(r.u64() as u32)).collect());
    let q = A3::from_vec((0..3).map(|_| U128(r.u128())).collect());
    let k = K4::from_vec((0..4).map(|_| U64(r.u64())).collect());
    let l = L4::from_vec((0..4).map(|_| U16(r.u64() as u16)).collect());
    w!(o, "{} {} {} {}", h(a.to_be_bytes().iter()), h(a.to_le_bytes().iter()), h(q.to_be_bytes().iter()), h(q.to_le_bytes().iter()));
    w!(o, "{} {} {} {}", h(k.to_be_bytes().iter()), h(k.to_le_bytes().iter()), h(l.to_be_bytes().iter()), h(l.to_le_bytes().iter()));
    // hexadecimal text of any shape
    let alphabet = ["00", "ff", "7", "g", "+1", "-0", " ", "é", "0x", "A", "中", "aB"];
    let s: String = (0..r.below(10)).map(|_| *r.pick(&alphabet)).collect();
    w!(o, "{:?}", attempt(|| B7::from_hex(&s).to_hex()).map_err(|_| ()));
    w!(o, "{:?}", attempt(|| P7::from_hex(&s).to_hex()).map_err(|_| ()));
    w!(o, "{:?}", attempt(|| ByteSeq::from_hex(&s).to_hex()).map_err(|_| ()));
    w!(o, "{:?}", attempt(|| PublicSeq::<u8>::from_hex(&s).to_hex()).map_err(|_| ()));
    w!(o, "{:?}", h(ByteSeq::from_string(s.clone()).iter()));
    w!(o, "{:?}", PublicSeq::<u8>::from_string(s.clone()).to_hex());
    done(o)
}
fn hostile_seqs(r: &mut Rng, max: usize) -> Out {
    let mut o: Rec = vec![];
    let (l, n) = (r.below(max.min(40) + 1), r.below(12));
    match r.below(3) {
        0 => {
            let (x, y) = (bs(&r.bytes(l)), bs(&r.bytes(n)));
            hostile!(o, r, x, y, Seq, U8(5), |x: &U8| x.0);
        }
        1 => {
            let (x, y) = (PublicSeq::<u64>::from_vec((0..l).map(|i| i as u64).collect()), PublicSeq::<u64>::from_vec((0..n).map(|i| i as u64).collect()));
            hostile!(o, r, x, y, Seq, 5u64, |x: &u64| *x);
        }
        _ => {
            let (x, y) = (SecretSeq::<U128>::from_vec((0..l).map(|i| U128(i as u128)).collect()), SecretSeq::<U128>::from_vec((0..n).map(|i| U128(i as u128)).collect()));
            hostile!(o, r, x, y, Seq, U128(5), |x: &U128| x.0);
        }
    }
    let (x, a, b) = (bs(&r.bytes(l)), wild(r, l), wild(r, l));
    w!(o, "{:?}", attempt(|| h(x[a..b].iter())).map_err(|_| ()));
    w!(o, "{:?}", attempt(|| h(ByteSeq::from_sub(&x, a, b).iter())).map_err(|_| ()));
    w!(o, "{:?}", attempt(|| h(ByteSeq::from_sub_range(&x, a..b).iter())).map_err(|_| ()));
    w!(o, "{:?}", attempt(|| { let v: Vec<U8> = x.iter().cloned().collect(); h(ByteSeq::from_slice(&v[a.min(l)..]).iter()) }).map_err(|_| ()));
    // public sequences of different lengths
    let (p, q) = (PublicSeq::<u8>::from_vec(r.bytes(l)), PublicSeq::<u8>::from_vec(r.bytes(n)));
    for f in [|p: PublicSeq<u8>, q: PublicSeq<u8>| p + q, |p, q| p - q, |p, q| p * q, |p, q| p ^ q] {
        w!(o, "{:?}", attempt(|| f(p.clone(), q.clone()).to_hex()).map_err(|_| ()));
    }
    done(o)
}
fn seqs(r: &mut Rng, max: usize) -> Out {
    let mut o: Rec = vec![];
    let l = r.below(max + 1);
    let b = r.bytes(l);
    let x = bs(&b);
    let p = PublicSeq::<u8>::from_vec(b.clone());
    w!(o, "{} {} ", x.to_hex(), p.to_hex());
    w!(o, "{} {} ", h(Seq::<U8>::from_hex(&hex(&b)).iter()), PublicSeq::<u8>::from_hex(&hex(&b)).to_hex());
    let (s, e) = (r.below(l + 3), r.below(l + 3));
    w!(o, "{:?} ", attempt(|| h(x.sub(s, e).iter())).map_err(|_| ()));
    w!(o, "{:?} ", attempt(|| h(x.subr(s..e).iter())).map_err(|_| ()));
    w!(o, "{:?} ", attempt(|| h(x.clone().update_sub(s, &x, e, 2).iter())).map_err(|_| ()));
    w!(o, "{:?} ", attempt(|| h(x.clone().update(s, &x).iter())).map_err(|_| ()));
    w!(o, "{:?} ", attempt(|| x[s].raw()).map_err(|_| ()));
    w!(o, "{:?} ", attempt(|| h(x[s..e].iter())).map_err(|_| ()));
    let k = 1 + r.below(20);
    let mut z = ByteSeq::new(l);
    for i in 0..x.num_chunks(k) {
        let (n, c) = x.get_chunk(k, i);
        w!(o, "{} {};", n, h(c.iter()));
        z = z.set_chunk(k, i, &c);
    }
    w!(o, "{} ", z == x);
    let q = PublicSeq::<u8>::from_vec(r.bytes(l));
    for v in [p.clone() + q.clone(), p.clone() - q.clone(), p.clone() * q.clone(), p.clone() ^ q] { w!(o, "{} ", v.to_hex()); }
    let ss = SecretSeq::<U64>::from_vec((0..l).map(|i| U64(i as u64)).collect());
    w!(o, "{:?} ", attempt(|| ss.sub(s, e).iter().map(|v| v.raw()).collect::<Vec<_>>()).map_err(|_| ()));
    w!(o, "{:?} ", attempt(|| Seq::<U8>::from_hex(&hex(&b)[..r.below(2 * l + 1)]).len()).map_err(|_| ()));
    same(&x, &b)?;
    done(o)
}

// ------------------------------------------------------------------ mathematical integers and polynomials
mod mathy {
    #![allow(unused)]
    use hacspec::prelude::*;
    unsigned_public_integer!(Up, 131);
    signed_public_integer!(Sp, 77);
    unsigned_integer!(Us, 131);
    signed_integer!(Ss, 77);
    public_nat_mod!(Pm, PmB, 256, "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
    nat_mod!(Sm, SmB, 131, "03fffffffffffffffffffffffffffffffb");
    public_nat_mod!(Pk, PkB, 24, "fffffd");
    poly!(P11, i128, 11, 3i128, &[(0, -1), (1, -1), (11, 1)]);
    pub fn poly_ops(a: &[i128], b: &[i128], o: &mut Vec<String>) {
        use hv::mon::attempt;
        let (x, y) = (P11::from_vec(a.to_vec()), P11::from_vec(b.to_vec()));
        o.push(format!("{:?} {:?} {:?}", x + y, x - y, x * y));
        o.push(format!("{:?}", attempt(|| x / y).map_err(|_| ())));
        o.push(format!("{:?}", attempt(|| x.inv()).map_err(|_| ())));
        let (p, q): (&[i128], &[i128]) = (a, b);
        o.push(format!("{:?} {:?} {:?}", poly_add(p, q, 3), poly_sub(p, q, 3), poly_mul(p, q, 3)));
        o.push(format!("{:?}", attempt(|| poly_div(p, q, 3)).map_err(|_| ())));
        o.push(format!("{:?}", poly_mul(p, q, 0)));
        o.push(format!("{:?}", attempt(|| poly_div(p, q, 0)).map_err(|_| ())));
    }
}
fn bounded(r: &mut Rng, _: usize) -> Out {
    use mathy::*;
    use num::{BigInt, BigUint};
    let mut o: Rec = vec![];
    let (a, b) = (r.edge(128), r.edge(128));
    let (x, y) = (Up::from_literal(a), Up::from_literal(b));
    w!(o, "{:?}", x + y);
    w!(o, "{:?}", attempt(|| x - y).map_err(|_| ()));
    w!(o, "{:?}", attempt(|| x * y).map_err(|_| ()));
    w!(o, "{:?}", attempt(|| (x / y, x % y)).map_err(|_| ()));
    w!(o, "{}", x < y);
    w!(o, "{} {} ", hex(&x.to_le_bytes()), Up::from_le_bytes(&x.to_le_bytes()));
    let (s, q) = (Sp::from_signed_literal(a as i64 as i128), Sp::from_signed_literal(b as i64 as i128));
    w!(o, "{:?} {:?} {:?} ", s + q, s - q, attempt(|| s * q).map_err(|_| ()));
    w!(o, "{:?} ", attempt(|| Sp::from_signed_literal(a as i128)).map_err(|_| ()));
    let (u, v) = (Us::from_literal(a), Us::from_literal(b));
    w!(o, "{} {:?} ", u + v, attempt(|| u * v).map(|z| format!("{}", z)).map_err(|_| ()));
    let (u, v) = (Ss::from_signed_literal(a as i64 as i128), Ss::from_signed_literal(b as i64 as i128));
    w!(o, "{} {} ", u + v, u - v);
    let hx = hex(&r.bytes(16));
    w!(o, "{} {:?} ", Up::from_hex(&hx), attempt(|| Sp::from_hex("-", &hx)).map_err(|_| ()));
    w!(o, "{} ", Up::pow2(r.below(130)));
    if Into::<BigUint>::into(x) != BigUint::from(a) { return Err("an argument was modified".into()); }
    done(o)
}
fn natmod(r: &mut Rng, _: usize) -> Out {
    use mathy::*;
    let mut o: Rec = vec![];
    let (x, y) = (Pm::from_literal(r.edge(128)), Pm::from_hex(&hex(&r.bytes(31))));
    w!(o, "{} {} {} ", x + y, x - y, x * y);
    w!(o, "{:?} {} {} ", attempt(|| x.inv()).map_err(|_| ()), Pm::pow(x, r.below(99) as u128), x.pow_felem(y));
    w!(o, "{} {} ", h(x.to_byte_seq_le().iter()), Pm::from_byte_seq_le(bs(&r.bytes(20))));
    let (x, y) = (Sm::from_literal(r.edge(128)), Sm::from_literal(r.edge(100)));
    w!(o, "{} {} {} ", x + y, x - y, x * y);
    w!(o, "{:?} ", attempt(|| x.to_le_bytes()).map_err(|_| ()));
    done(o)
}
fn polys(r: &mut Rng, _: usize) -> Out {
    let mut o: Rec = vec![];
    let a: Vec<i128> = (0..11).map(|_| r.below(3) as i128).collect();
    let b: Vec<i128> = (0..11).map(|_| r.below(3) as i128).collect();
    let (a2, b2) = (a.clone(), b.clone());
    mathy::poly_ops(&a, &b, &mut o);
    if a != a2 || b != b2 { return Err("an argument was modified".into()); }
    done(o)
}

pub const OPS: &[Op] = &[
    Op { name: "sha256", cost: 0, total: true, f: sha256 },
    Op { name: "sha3-224", cost: 1, total: true, f: sha3_224 },
    Op { name: "sha3-256", cost: 1, total: true, f: sha3_256 },
    Op { name: "sha3-384", cost: 1, total: true, f: sha3_384 },
    Op { name: "sha3-512", cost: 1, total: true, f: sha3_512 },
    Op { name: "shake", cost: 1, total: true, f: shake },
    Op { name: "blake2b", cost: 0, total: true, f: blake2b },
    Op { name: "hmac", cost: 0, total: true, f: hmac },
    Op { name: "hkdf", cost: 0, total: true, f: hkdf },
    Op { name: "aes", cost: 1, total: true, f: aes },
    Op { name: "aes-gcm", cost: 1, total: true, f: gcm },
    Op { name: "chacha20-poly1305", cost: 1, total: true, f: chacha },
    Op { name: "poly1305", cost: 1, total: true, f: poly1305 },
    Op { name: "x25519", cost: 2, total: true, f: x25519 },
    Op { name: "p256", cost: 2, total: true, f: p256 },
    Op { name: "public unsigned integers", cost: 0, total: false, f: int_pub },
    Op { name: "public signed integers", cost: 0, total: false, f: int_pubs },
    Op { name: "secret unsigned integers", cost: 0, total: false, f: int_sec },
    Op { name: "secret signed integers", cost: 0, total: false, f: int_secs },
    Op { name: "secret integer operators", cost: 0, total: false, f: secret_ops },
    Op { name: "arrays", cost: 0, total: false, f: arrays },
    Op { name: "sequences", cost: 0, total: false, f: seqs },
    Op { name: "word conversions", cost: 0, total: false, f: words },
    Op { name: "arrays, hostile arguments", cost: 0, total: false, f: hostile_arrays },
    Op { name: "sequences, hostile arguments", cost: 0, total: false, f: hostile_seqs },
    Op { name: "bounded integers", cost: 0, total: false, f: bounded },
    Op { name: "modular integers", cost: 1, total: false, f: natmod },
    Op { name: "polynomials", cost: 0, total: false, f: polys },
];
/// Single public calls, for histories of closely related inputs (C30): the operations above
/// make several calls each, which would separate the related ones.
macro_rules! fine {
    ($($name:literal $f:ident $cost:literal |$r:ident, $max:ident| $e:expr;)*) => {
        $( fn $f($r: &mut Rng, $max: usize) -> Out { Ok($e) } )*
        pub const FINE: &[Op] = &[ $( Op { name: $name, cost: $cost, total: true, f: $f } ),* ];
    };
}
mod f {
    pub use super::ex::aes_gcm::{aes, aes::{Block, Key128, Key256, Nonce}, gf128};
    pub use super::ex::chacha20_poly1305::{chacha20 as cc, poly1305 as p};
    pub use super::ex::{aes_gcm as gcm, chacha20_poly1305 as cp, blake2::blake2b, curve25519 as x, fips202, hkdf, hmac, p256, sha2};
}
fn rb(r: &mut Rng, max: usize) -> ByteSeq {
    let l = r.len(16, max);
    bs(&r.bytes(l))
}
fn show(x: Result<ByteSeq, String>) -> String {
    match x { Ok(v) => h(v.iter()), Err(e) => e }
}
fn tag(x: &f::p::Tag) -> String {
    hex(&x.iter().cloned().collect::<Vec<u8>>())
}
fine! {
    "shake128" f0 1 |r, max| { let n = r.len(8, max); h(f::fips202::shake128(&rb(r, max), n).iter()) };
    "shake256" f1 1 |r, max| { let n = r.len(8, max); h(f::fips202::shake256(&rb(r, max), n).iter()) };
    "hkdf extract" f2 0 |r, max| h(f::hkdf::extract(&rb(r, 90), &rb(r, max)).iter());
    "hkdf expand" f3 0 |r, max| { let n = r.len(32, 99) + 1; h(f::hkdf::expand(&bs(&r.bytes(32)), &rb(r, max), n).iter()) };
    "aes128 block" f4 0 |r, max| h(f::aes::aes128_encrypt_block(f::Key128::from_public_slice(&r.bytes(16)), f::Block::from_public_slice(&r.bytes(16)), 4, 10).iter());
    "aes256 block" f5 0 |r, max| h(f::aes::aes256_encrypt_block(f::Key256::from_public_slice(&r.bytes(32)), f::Block::from_public_slice(&r.bytes(16)), 8, 14).iter());
    "aes128 ctr" f6 0 |r, max| h(f::aes::aes128_encrypt(f::Key128::from_public_slice(&r.bytes(16)), f::Nonce::from_public_slice(&r.bytes(12)), U32(r.edge(32) as u32), &rb(r, max)).iter());
    "aes256 ctr" f7 0 |r, max| h(f::aes::aes256_encrypt(f::Key256::from_public_slice(&r.bytes(32)), f::Nonce::from_public_slice(&r.bytes(12)), U32(r.edge(32) as u32), &rb(r, max)).iter());
    "aes128-gcm encrypt" f8 0 |r, max| { let (c, t) = f::gcm::encrypt_aes128(f::Key128::from_public_slice(&r.bytes(16)), f::Nonce::from_public_slice(&r.bytes(12)), &rb(r, 40), &rb(r, max)); h(c.iter()) + &h(t.iter()) };
    "aes256-gcm encrypt" f9 0 |r, max| { let (c, t) = f::gcm::encrypt_aes256(f::Key256::from_public_slice(&r.bytes(32)), f::Nonce::from_public_slice(&r.bytes(12)), &rb(r, 40), &rb(r, max)); h(c.iter()) + &h(t.iter()) };
    "aes128-gcm decrypt" f10 0 |r, max| { let (k, n, a) = (r.uniform(16), r.uniform(12), rb(r, 40)); let m = rb(r, max); let (c, t) = gcm_plain(&k, &n, &a, &m); let t = mix(r, &h(t.iter())); show(f::gcm::decrypt_aes128(f::Key128::from_public_slice(&k), f::Nonce::from_public_slice(&n), &a, &c, f::gf128::Tag::from_public_slice(&t))) };
    "ghash" f11 0 |r, max| h(f::gf128::gmac(&rb(r, max), f::gf128::Key::from_public_slice(&r.bytes(16))).iter());
    "chacha20 block" f12 0 |r, max| h(f::cc::block(f::cc::Key::from_public_slice(&r.bytes(32)), U32(r.edge(32) as u32), f::cc::IV::from_public_slice(&r.bytes(12))).iter());
    "chacha20" f13 0 |r, max| show(f::cc::chacha(f::cc::Key::from_public_slice(&r.bytes(32)), f::cc::IV::from_public_slice(&r.bytes(12)), &rb(r, max)));
    "poly1305 one key" f14 0 |r, max| tag(&f::p::poly(&rb(r, max), f::cc::Key::from_public_slice(&r.bytes(32))));
    "poly1305 derived key" f15 0 |r, max| tag(&f::p::poly_mac(&rb(r, max), f::cc::Key::from_public_slice(&r.bytes(32)), f::cc::IV::from_public_slice(&r.bytes(12))));
    "chacha20-poly1305 encrypt" f16 0 |r, max| match f::cp::encrypt(f::cc::Key::from_public_slice(&r.bytes(32)), f::cc::IV::from_public_slice(&r.bytes(12)), &rb(r, 40), &rb(r, max)) { Ok((c, t)) => h(c.iter()) + &tag(&t), Err(e) => e };
    "chacha20-poly1305 decrypt" f17 0 |r, max| { let (k, n, a) = (r.uniform(32), r.uniform(12), rb(r, 40)); let m = rb(r, max); let (k, n) = (f::cc::Key::from_public_slice(&k), f::cc::IV::from_public_slice(&n)); match f::cp::encrypt(k, n, &a, &m) { Ok((c, t)) => { let t = mix(r, &tag(&t)); show(f::cp::decrypt(k, n, &a, &c, f::p::Tag::from_slice(&t))) } Err(e) => e } };
    "x25519 multiplication" f18 2 |r, max| h(f::x::scalarmult(f::x::SerializedScalar::from_public_slice(&r.bytes(32)), f::x::SerializedPoint::from_public_slice(&r.bytes(32))).iter());
    "x25519 public key" f19 2 |r, max| h(f::x::secret_to_public(f::x::SerializedScalar::from_public_slice(&r.bytes(32))).iter());
    "field inverse" f20 0 |r, max| { use mathy::*; format!("{:?}", attempt(|| Pm::from_hex(&hex(&r.bytes(31))).inv()).map(|x| x.to_string()).map_err(|_| ())) };
    "field power" f21 0 |r, max| { use mathy::*; format!("{}", Pm::from_hex(&hex(&r.bytes(31))).pow_felem(Pm::from_literal(r.edge(100)))) };
    "polynomial inverse" f22 0 |r, max| { let p = poly_of(r); let mut o: Rec = vec![]; mathy::poly_ops(&p, &poly_of(r), &mut o); o.join(" ") };
    "sha256 of a string" f23 0 |r, max| { r.len(8, max); h(f::sha2::hash(&rb(r, max)).iter()) };
    "sha3-224 of a string" f24 1 |r, max| { r.len(8, max); h(f::fips202::sha3224(&rb(r, max)).iter()) };
    "sha3-256 of a string" f25 1 |r, max| { r.len(8, max); h(f::fips202::sha3256(&rb(r, max)).iter()) };
    "sha3-384 of a string" f26 1 |r, max| { r.len(8, max); h(f::fips202::sha3384(&rb(r, max)).iter()) };
    "sha3-512 of a string" f27 1 |r, max| { r.len(8, max); h(f::fips202::sha3512(&rb(r, max)).iter()) };
    "blake2b of a string" f28 0 |r, max| { r.len(8, max); h(f::blake2b::blake2b(&rb(r, max)).iter()) };
    "hmac of a string" f29 0 |r, max| h(f::hmac::hmac(&rb(r, 90), &rb(r, max)).iter());
    "aes128 ctr decrypt" f30 0 |r, max| h(f::aes::aes128_decrypt(f::Key128::from_public_slice(&r.bytes(16)), f::Nonce::from_public_slice(&r.bytes(12)), U32(r.edge(32) as u32), &rb(r, max)).iter());
    "aes256 ctr decrypt" f31 0 |r, max| h(f::aes::aes256_decrypt(f::Key256::from_public_slice(&r.bytes(32)), f::Nonce::from_public_slice(&r.bytes(12)), U32(r.edge(32) as u32), &rb(r, max)).iter());
    "aes256-gcm decrypt" f32 0 |r, max| { let (k, n, a) = (r.uniform(32), r.uniform(12), rb(r, 40)); let m = rb(r, max); let (k, n) = (f::Key256::from_public_slice(&k), f::Nonce::from_public_slice(&n)); let (c, t) = f::gcm::encrypt_aes256(k, n, &a, &m); let t = mix(r, &h(t.iter())); show(f::gcm::decrypt_aes256(k, n, &a, &c, f::gf128::Tag::from_public_slice(&t))) };
    "p256 multiplication" f33 2 |r, max| { let q = f::p256::point_mul(f::p256::Scalar::from_hex(&hex(&r.bytes(32)))); format!("{} {}", q.0, q.1) };
    "field division" f34 0 |r, max| { use mathy::*; let (a, b) = (Pm::from_hex(&hex(&r.bytes(31))), Pm::from_hex(&hex(&r.bytes(31)))); format!("{:?} {}", attempt(|| a / b).map(|x| x.to_string()).map_err(|_| ()), a * b) };
    "small field inverse" f35 0 |r, max| { use mathy::*; format!("{:?}", attempt(|| Pk::from_hex(&hex(&r.bytes(31)[..3])).inv()).map(|x| x.to_string()).map_err(|_| ())) };
    "bounded inverse" f36 0 |r, max| { use mathy::*; let x = Up::from_hex(&hex(&r.bytes(16))); let n = modulus(r); format!("{:?}", attempt(|| x.inv(n)).map(|x| x.to_string()).map_err(|_| ())) };
    "bounded power" f37 0 |r, max| { use mathy::*; let x = Up::from_hex(&hex(&r.bytes(16))); let n = modulus(r); let e = r.edge(100); format!("{} {}", x.pow(e, n), x.pow_felem(Up::from_literal(e), n)) };
    "modular inverse of i128" f38 0 |r, max| { let n = prime(r); let x = (r.edge(60) % n as u128) as i128; format!("{:?}", attempt(|| hacspec::prelude::NumericBase::inv(x, n)).map_err(|_| ())) };
    "modular product of i128" f39 0 |r, max| { use hacspec::prelude::*; let (a, b, n) = (r.edge(60) as i128, r.edge(60) as i128, prime(r)); format!("{} {} {}", a.mul_mod(b, n), a.sub_mod(b, n), a.add_mod(b, n)) };
    "modular product of u64" f40 0 |r, max| { use hacspec::prelude::*; let (a, b, n) = (r.edge(30) as u64, r.edge(30) as u64, prime(r) as u64); format!("{} {} {} {:?}", a.mul_mod(b, n), (a % n).sub_mod(b % n, n), a.add_mod(b, n), attempt(|| a.inv(n)).map_err(|_| ())) };
    "polynomials mod a drawn number" f41 0 |r, max| { use hacspec::prelude::*; let (a, b) = (coeffs(r), coeffs(r)); let n = prime(r); let (p, q): (&[i128], &[i128]) = (&a, &b); format!("{:?} {:?} {:?}", poly_mul(p, q, n), poly_sub(p, q, n), attempt(|| poly_div(p, q, n)).map_err(|_| ())) };
    "polynomials over the integers" f42 0 |r, max| { use hacspec::prelude::*; let (a, b) = (coeffs(r), coeffs(r)); let (p, q): (&[i128], &[i128]) = (&a, &b); format!("{:?} {:?} {:?}", poly_mul(p, q, 0), poly_sub(p, q, 0), attempt(|| poly_div(p, q, 0)).map_err(|_| ())) };
    "public sequence products" f43 0 |r, max| { use hacspec::prelude::*; let (a, b) = (coeffs(r), coeffs(r)); let n = prime(r); let (p, q) = (PublicSeq::<i128>::from_vec(a), PublicSeq::<i128>::from_vec(b)); format!("{:?} {:?}", p.clone() * q.clone(), vec_poly_mul(p, q, n)) };
    "hex of a byte sequence" f44 0 |r, max| { let b = rb(r, max); let t = h(b.iter()); let p = hacspec::prelude::PublicSeq::<u8>::from_hex(&t); b.to_hex() + &hex(&p.iter().cloned().collect::<Vec<u8>>()) + &ByteSeq::from_hex(&t.to_uppercase()).to_hex() };
    "words of a byte array" f45 0 |r, max| { let b = f::Key256::from_public_slice(&r.bytes(32)); let mut o = String::new();
        for x in b.to_le_U32s().iter() { o += &format!("{:x}.", x.declassify()) }
        for x in b.to_be_U32s().iter() { o += &format!("{:x}.", x.declassify()) }
        for x in b.to_le_U64s().iter() { o += &format!("{:x}.", x.declassify()) }
        for x in b.to_be_U64s().iter() { o += &format!("{:x}.", x.declassify()) }
        for x in b.to_U128s_le().iter() { o += &format!("{:x}.", x.declassify()) }
        for x in b.to_U128s_be().iter() { o += &format!("{:x}.", x.declassify()) }
        o };
    "constant-time division" f46 0 |r, max| { use hacspec::prelude::*; let (a, d) = (r.edge(64) as u64, r.edge(64) as u64 | 1); format!("{:?}", ct_div(a, d)) };
    "chunks of a byte sequence" f47 0 |r, max| { let n = r.len(16, 60) + 1; let b = rb(r, max); let mut o = format!("{} {}.", b.num_chunks(n), b.len()); for i in 0..b.num_chunks(n) { let (l, c) = b.get_chunk(n, i); o += &format!("{} {}.", l, h(c.iter())) } o };
}
/// Operations on data of exactly the given size (the ones above draw mostly small sizes); each
/// takes time linear in it, divided for the slow functions.
macro_rules! bulk {
    ($($name:literal $f:ident $div:literal |$r:ident, $n:ident| $e:expr;)*) => {
        $( fn $f($r: &mut Rng, max: usize) -> Out { let $n = max / $div; let mut d = Fnv::new(); $e(&mut d); Ok(d.show()) } )*
        pub const BULK: &[Op] = &[ $( Op { name: $name, cost: 0, total: true, f: $f } ),* ];
    };
}
/// Digest of what was computed.
pub struct Fnv(u64, u64);
impl Fnv {
    fn new() -> Fnv { Fnv(0xcbf29ce484222325, 0) }
    fn b(&mut self, x: u8) { self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3); self.1 += 1; }
    fn v(&mut self, x: u128, bytes: usize) { for i in 0..bytes { self.b((x >> (8 * i)) as u8); } }
    fn s<'a>(&mut self, it: impl Iterator<Item = &'a U8>) { for x in it { self.b(x.declassify()); } }
    fn p<'a>(&mut self, it: impl Iterator<Item = &'a u8>) { for x in it { self.b(*x); } }
    fn t(&mut self, x: &str) { for b in x.bytes() { self.b(b); } }
    fn show(&self) -> String { format!("{:016x} over {} bytes", self.0, self.1) }
}
fn u8s(r: &mut Rng, n: usize) -> Vec<u8> {
    r.uniform(n)
}
fn bulk_seq<T: Copy + Default + Numericish>(d: &mut Fnv, r: &mut Rng, n: usize) {
    let v: Vec<T> = (0..n).map(|_| T::mk(r.u64())).collect();
    let x = Seq::<T>::from_vec(v.clone());
    let y = Seq::<T>::from_slice(&v);
    let z = Seq::<T>::from_seq(&x);
    let (a, k) = (r.below(n + 1), 1 + r.below(n.max(1)));
    let k = if r.chance(1, 2) { k } else { 1 + k % 300 };
    let l = r.below(n - a + 1);
    let eat = |d: &mut Fnv, s: &Seq<T>| { d.v(s.len() as u128, 8); for e in s.iter() { d.v(e.show(), 16); } };
    for s in [&x, &y, &z] { eat(d, s); }
    eat(d, &x.clone());
    eat(d, &x.sub(a, l));
    eat(d, &x.subr(a..a + l));
    eat(d, &Seq::<T>::from_sub(&x, a, l));
    eat(d, &Seq::<T>::from_sub_range(&x, a..a + l));
    let mut w = Seq::<T>::new(n);
    for i in 0..x.num_chunks(k) {
        let (len, c) = x.get_chunk(k, i);
        d.v(len as u128, 8);
        w = w.set_chunk(k, i, &c);
        if i > 40 { break; }
    }
    eat(d, &w);
    let e = Seq::<T>::new(n);
    eat(d, &e.clone().update_sub(a, &x, a, l));
    eat(d, &e.clone().update(0, &x));
    eat(d, &e.clone().update_start(&x.sub(0, l)));
    for e in x[a..a + l].iter() { d.v(e.show(), 16); }
    for i in [0, n / 2, n.wrapping_sub(1), a] { if i < n { d.v(x[i].show(), 16); d.v(x[i as u32].show(), 16); d.v(x[i as i32].show(), 16); } }
    let mut q = x.clone();
    for i in (0..n).step_by(1 + n / 50) { q[i] = T::mk(i as u64); }
    eat(d, &q);
}
pub trait Numericish { fn mk(x: u64) -> Self; fn show(&self) -> u128; }
macro_rules! numericish { ($($t:ident $e:expr, $s:expr;)*) => {$( impl Numericish for $t { fn mk(x: u64) -> Self { $e(x) } fn show(&self) -> u128 { $s(self) } } )*} }
numericish! {
    u8 |x| x as u8, |x: &u8| *x as u128; u16 |x| x as u16, |x: &u16| *x as u128; u64 |x| x, |x: &u64| *x as u128; u128 |x| (x as u128) << 31, |x: &u128| *x; i32 |x| x as i32, |x: &i32| *x as u32 as u128;
    U8 |x| U8(x as u8), |x: &U8| x.0 as u128; U16 |x| U16(x as u16), |x: &U16| x.0 as u128; U32 |x| U32(x as u32), |x: &U32| x.0 as u128; U64 |x| U64(x), |x: &U64| x.0 as u128; U128 |x| U128((x as u128) << 31), |x: &U128| x.0; I64 |x| I64(x as i64), |x: &I64| x.0 as u64 as u128;
}
mod big {
    #![allow(unused)]
    use hacspec::prelude::*;
    use std::cmp::Ordering;
    bytes!(B1040, 1040);
    public_bytes!(P4112, 4112);
    bytes!(B70k, 70_000);
    array!(W300, 300, U32);
    array!(L1029, 1029, u64);
    array!(Q66, 66, U128);
}
macro_rules! bulk_array {
    ($t:ident, $r:ident, $d:ident) => {{
        let v = u8s($r, $t::capacity());
        let x = $t::from_public_slice(&v);
        let (a, n) = ($r.below($t::capacity() + 1), $t::capacity());
        let l = $r.below(n - a + 1);
        $d.s(x.iter());
        $d.s($t::from_vec(x.iter().cloned().collect()).iter());
        $d.s($t::from_slice(&x.iter().cloned().collect::<Vec<_>>()).iter());
        $d.s($t::from_seq(&Seq::from_vec(x.iter().cloned().collect::<Vec<_>>())).iter());
        $d.s(x.sub(a, l).iter());
        $d.s($t::new().update_sub(a, &x, a, l).iter());
        $d.t(&x.to_hex());
        $d.s($t::from_hex(&hex(&v)).iter());
        $d.s(x.to_be_bytes().iter());
        $d.s(x.to_le_bytes().iter());
        for w in x.to_be_U32s().iter().chain(x.to_le_U32s().iter()) { $d.v(w.raw() as u128, 4); }
        for w in x.to_be_U64s().iter().chain(x.to_le_U64s().iter()) { $d.v(w.raw() as u128, 8); }
        for w in x.to_U128s_be().iter().chain(x.to_U128s_le().iter()) { $d.v(w.raw() as u128, 16); }
        let k = 1 + $r.below(n);
        for i in 0..x.num_chunks(k).min(30) { let (l, c) = x.get_chunk(k, i); $d.v(l as u128, 8); $d.s(c.iter()); }
        $d.b(x.declassify_eq(&x) as u8);
    }};
}
fn key32(r: &mut Rng) -> f::cc::Key { f::cc::Key::from_public_slice(&r.uniform(32)) }
fn iv12(r: &mut Rng) -> f::cc::IV { f::cc::IV::from_public_slice(&r.uniform(12)) }
bulk! {
    "long sequences of u8" g0 4 |r, n| |d: &mut Fnv| bulk_seq::<u8>(d, r, n);
    "long sequences of u16" g1 4 |r, n| |d: &mut Fnv| bulk_seq::<u16>(d, r, n);
    "long sequences of u64" g2 4 |r, n| |d: &mut Fnv| bulk_seq::<u64>(d, r, n);
    "long sequences of u128" g3 4 |r, n| |d: &mut Fnv| bulk_seq::<u128>(d, r, n);
    "long sequences of i32" g4 4 |r, n| |d: &mut Fnv| bulk_seq::<i32>(d, r, n);
    "long sequences of U8" g5 1 |r, n| |d: &mut Fnv| bulk_seq::<U8>(d, r, n);
    "long sequences of U16" g6 4 |r, n| |d: &mut Fnv| bulk_seq::<U16>(d, r, n);
    "long sequences of U32" g7 4 |r, n| |d: &mut Fnv| bulk_seq::<U32>(d, r, n);
    "long sequences of U64" g8 4 |r, n| |d: &mut Fnv| bulk_seq::<U64>(d, r, n);
    "long sequences of U128" g9 4 |r, n| |d: &mut Fnv| bulk_seq::<U128>(d, r, n);
    "long sequences of I64" g10 4 |r, n| |d: &mut Fnv| bulk_seq::<I64>(d, r, n);
    "long byte sequences" g11 1 |r, n| |d: &mut Fnv| {
        let v = u8s(r, n);
        let (x, p) = (bs(&v), PublicSeq::<u8>::from_vec(v.clone()));
        d.t(&x.to_hex());
        d.t(&p.to_hex());
        d.s(ByteSeq::from_hex(&hex(&v)).iter());
        d.p(PublicSeq::<u8>::from_hex(&hex(&v)).iter());
        d.s(ByteSeq::from_string(hex(&v)).iter());
        d.p(PublicSeq::<u8>::from_string(hex(&v)).iter());
        let q = PublicSeq::<u8>::from_vec(u8s(r, n));
        for z in [p.clone() + q.clone(), p.clone() - q.clone(), p.clone() * q.clone(), p.clone() ^ q] { d.p(z.iter()); }
        d.b((x == bs(&v)) as u8);
    };
    "large arrays" g12 1 |r, n| |d: &mut Fnv| {
        use big::*;
        if n > 30 { bulk_array!(B1040, r, d); }
        if n > 600 {
            let y = P4112::from_vec(u8s(r, 4112));
            for v in y.to_be_u64s().iter().chain(y.to_le_u64s().iter()) { d.v(*v as u128, 8); }
            for v in y.to_be_u32s().iter().chain(y.to_le_u32s().iter()) { d.v(*v as u128, 4); }
            for v in y.to_u128s_be().iter().chain(y.to_u128s_le().iter()) { d.v(*v, 16); }
            d.t(&y.to_hex());
            let (a, b) = (L1029::from_vec((0..1029).map(|_| r.u64()).collect()), L1029::from_vec((0..1029).map(|_| r.u64() | 1).collect()));
            for z in [a + b, a - b, a * b, a / b, a ^ b] { for v in z.iter() { d.v(*v as u128, 8); } }
            d.b((a == b) as u8 + 2 * (a < b) as u8);
            let c = W300::from_vec((0..300).map(|_| U32(r.u64() as u32)).collect());
            d.s(c.to_be_bytes().iter());
            d.s(c.to_le_bytes().iter());
            for z in [c + c, c - c, c * c, c ^ c] { for v in z.iter() { d.v(v.0 as u128, 4); } }
            let q = Q66::from_vec((0..66).map(|_| U128(r.u128())).collect());
            d.s(q.to_be_bytes().iter());
            d.s(q.to_le_bytes().iter());
        }
        if n > 20_000 { bulk_array!(B70k, r, d); }
    };
    "sha256, long" g13 2 |r, n| |d: &mut Fnv| d.s(ex::sha2::hash(&bs(&u8s(r, n))).iter());
    "sha3-256, long" g14 4 |r, n| |d: &mut Fnv| d.s(ex::fips202::sha3256(&bs(&u8s(r, n))).iter());
    "shake128, long" g15 8 |r, n| |d: &mut Fnv| d.s(f::fips202::shake128(&bs(&u8s(r, n)), n).iter());
    "shake256, long" g16 8 |r, n| |d: &mut Fnv| d.s(f::fips202::shake256(&bs(&u8s(r, n)), n).iter());
    "blake2b, long" g17 2 |r, n| |d: &mut Fnv| d.s(ex::blake2::blake2b::blake2b(&bs(&u8s(r, n))).iter());
    "hmac, long" g18 4 |r, n| |d: &mut Fnv| d.s(f::hmac::hmac(&bs(&u8s(r, n)), &bs(&u8s(r, n))).iter());
    "hkdf, long" g19 32 |r, n| |d: &mut Fnv| { d.s(f::hkdf::extract(&bs(&u8s(r, n)), &bs(&u8s(r, n))).iter()); d.s(f::hkdf::expand(&bs(&u8s(r, 32)), &bs(&u8s(r, n % 200)), 1 + n.min(8000)).iter()); };
    "aes ctr, long" g20 32 |r, n| |d: &mut Fnv| d.s(f::aes::aes256_encrypt(f::Key256::from_public_slice(&u8s(r, 32)), f::Nonce::from_public_slice(&u8s(r, 12)), U32(r.u64() as u32 & 0xffff), &bs(&u8s(r, n))).iter());
    "aes-gcm, long" g21 32 |r, n| |d: &mut Fnv| {
        let (k, iv, a, m) = (f::Key128::from_public_slice(&u8s(r, 16)), f::Nonce::from_public_slice(&u8s(r, 12)), bs(&u8s(r, n)), bs(&u8s(r, n)));
        let (c, t) = f::gcm::encrypt_aes128(k, iv, &a, &m);
        d.s(c.iter());
        d.s(t.iter());
        d.t(&show(f::gcm::decrypt_aes128(k, iv, &a, &c, t)));
    };
    "chacha20, long" g22 8 |r, n| |d: &mut Fnv| d.t(&show(f::cc::chacha(key32(r), iv12(r), &bs(&u8s(r, n)))));
    "poly1305, long" g23 8 |r, n| |d: &mut Fnv| d.t(&tag(&f::p::poly(&bs(&u8s(r, n)), key32(r))));
    "chacha20-poly1305, long" g24 32 |r, n| |d: &mut Fnv| {
        let (k, iv, a, m) = (key32(r), iv12(r), bs(&u8s(r, n)), bs(&u8s(r, n)));
        if let Ok((c, t)) = f::cp::encrypt(k, iv, &a, &m) {
            d.s(c.iter());
            d.t(&tag(&t));
            d.t(&show(f::cp::decrypt(k, iv, &a, &c, t)));
        }
    };
    "long polynomials" g25 128 |r, n| |d: &mut Fnv| {
        use hacspec::prelude::{poly_add, poly_div, poly_mul, poly_sub};
        let n = n.min(900) + 2;
        let (a, mut b): (Vec<i128>, Vec<i128>) = ((0..n).map(|_| r.below(3329) as i128).collect(), (0..n / 2 + 1).map(|_| r.below(3329) as i128).collect());
        *b.last_mut().unwrap() = 1;
        let (q, m) = poly_div(&a[..], &b[..], 3329);
        for v in [poly_add(&a[..], &b[..], 3329), poly_sub(&a[..], &b[..], 3329), poly_mul(&a[..], &b[..], 3329), q, m] { for c in v { d.v(c as u128, 16); } }
    };
}
/// Coefficients of small size; strings of equal draws give equal coefficients.
fn coeffs(r: &mut Rng) -> Vec<i128> {
    r.bytes(9).iter().map(|x| (x % 7) as i128 + 1).collect()
}
fn prime(r: &mut Rng) -> i128 {
    let all = [7i128, 11, 13, 17, 19, 23, 29, 31, 257, 65537, 2147483647, 1000000007];
    all[r.len(3, all.len() - 1)]
}
fn modulus(r: &mut Rng) -> mathy::Up {
    mathy::Up::from_literal(prime(r) as u128)
}
fn poly_of(r: &mut Rng) -> Vec<i128> {
    r.bytes(11).iter().map(|x| (x % 3) as i128).collect()
}
fn gcm_plain(k: &[u8], n: &[u8], a: &ByteSeq, m: &ByteSeq) -> (ByteSeq, f::gf128::Tag) {
    f::gcm::encrypt_aes128(f::Key128::from_public_slice(k), f::Nonce::from_public_slice(n), a, m)
}
/// A tag: the given one, altered where the drawn string is not zero.
fn mix(r: &mut Rng, t: &str) -> Vec<u8> {
    let b = r.bytes(16);
    let z = r.chance(3, 4);
    hv::gen::unhex(t).iter().zip(&b).map(|(x, y)| if z { *x } else { x ^ y }).collect()
}
/// Operations of the registries: `OPS`, `FINE`, `BULK`.
pub fn op(i: usize) -> &'static Op {
    if i < OPS.len() { &OPS[i] } else if i < OPS.len() + FINE.len() { &FINE[i - OPS.len()] } else { &BULK[i - OPS.len() - FINE.len()] }
}
pub const SHARED: u64 = 1 << 40;
/// One deterministic execution.
pub fn run(op: usize, seed: u64, max: usize) -> Out {
    run_near(op, seed, max, None).0
}
/// The call for `seed`, or a close neighbour of it (one drawn value changed); also the number
/// of values drawn.
pub fn run_near(i: usize, seed: u64, max: usize, tweak: Option<(u32, u32)>) -> (Out, u32) {
    // a `SHARED` seed gives every operation the same stream: functions that take similar
    // arguments then get equal ones
    let mut r = Rng::forked(if seed & SHARED != 0 { seed } else { seed ^ (i as u64) << 48 }, tweak);
    let o = match attempt(|| (op(i).f)(&mut r, max)) {
        Ok(x) => x,
        Err(p) => if op(i).total { Err(format!("unexpected {}", p)) } else { Ok("P".into()) },
    };
    (o, r.draws)
}
