//! C17: secret data never decides a branch or an address.  Runs under valgrind memcheck with
//! every secret marked undefined; memcheck then reports each conditional jump and each address
//! that depends on one.  The monitor reads memcheck's error counter around every operation.
use hacspec::prelude::{
    array, bytes, cadd, cmul, csub, cset_bit, cswap, cswap_bit, ct_div, fmt, secret_array, secret_bytes, ByteSeq, Integer, Numeric, NumericBase, SecretInteger, Seq, SeqTrait,
    UnsignedSecretInteger, I128, I16, I32, I64, I8, U128, U16, U32, U64, U8,
};
use hacspec::prelude as hp;
use hacspec_examples as ex;
use hv::mi::*;
use hv::mon::*;

// ------------------------------------------------------------------ talking to memcheck
#[inline(never)]
fn request(code: usize, a: usize, b: usize, c: usize) -> usize {
    let args: [usize; 6] = [code, a, b, c, 0, 0];
    let mut res: usize = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rax") args.as_ptr() => _, inout("rdx") res, inout("rdi") 0usize => _,
        );
    }
    res
}
const MC: usize = (b'M' as usize) << 24 | (b'C' as usize) << 16;
fn on_valgrind() -> bool {
    request(0x1001, 0, 0, 0) != 0
}
fn errors() -> usize {
    request(0x1201, 0, 0, 0)
}
fn bytes_of<T: ?Sized>(x: &T) -> (usize, usize) {
    (x as *const T as *const u8 as usize, std::mem::size_of_val(x))
}
/// From here on memcheck treats the content of `x` as secret.
fn hide<T: ?Sized>(x: &T) {
    let (p, n) = bytes_of(x);
    request(MC + 1, p, n, 0);
}
/// The content of `x` is public again; returns how many of its bits depended on secrets.
fn show<T: ?Sized>(x: &T) -> u64 {
    let (p, n) = bytes_of(x);
    let mut bits = vec![0u8; n];
    request(MC + 8, p, bits.as_mut_ptr() as usize, n);
    request(MC + 2, p, n, 0);
    bits.iter().map(|b| b.count_ones() as u64).sum()
}
/// Where memcheck saw the last errors (from its log).
fn trail() -> String {
    let f = std::env::var("HV_VGLOG").unwrap_or_default().replace("%p", &std::process::id().to_string());
    let t = std::fs::read_to_string(f).unwrap_or_default();
    let tail: Vec<&str> = t.lines().rev().filter(|l| !l.trim_end().ends_with("==")).take(7).collect();
    tail.into_iter().rev().map(|l| l.splitn(3, "==").nth(2).unwrap_or(l).trim().to_string()).collect::<Vec<_>>().join(" | ")
}
/// Run one operation on secrets.
fn watch<T>(c: &mut Case, what: &str, f: impl FnOnce() -> T, out: impl FnOnce(&T) -> u64) -> Result<T, String> {
    let e0 = errors();
    let r = f();
    let e1 = errors();
    let bits = out(&r);
    tick();
    c.obs("operation", what);
    c.obs(if bits > 0 { "operation whose result carries secret bits" } else { "operation whose result is public" }, what);
    if e1 != e0 {
        return Err(format!("{}: {} secret-dependent branches or addresses: {}", what, e1 - e0, clip(trail(), 700)));
    }
    Ok(r)
}

// ------------------------------------------------------------------ integers
type F1<T> = fn(T, T, T, u32) -> (T, T);
fn all<T: Mi>() -> Vec<(&'static str, F1<T>)> {
    let z = T::ZERO;
    let _ = z;
    vec![
        ("wrap_add", |x, y, _, _| (x.wrap_add(y), y)),
        ("wrap_sub", |x, y, _, _| (x.wrap_sub(y), y)),
        ("wrap_mul", |x, y, _, _| (x.wrap_mul(y), y)),
        ("+", |x, y, _, _| (x + y, y)),
        ("-", |x, y, _, _| (x - y, y)),
        ("*", |x, y, _, _| (x * y, y)),
        ("&", |x, y, _, _| (x & y, y)),
        ("|", |x, y, _, _| (x | y, y)),
        ("^", |x, y, _, _| (x ^ y, y)),
        ("!", |x, y, _, _| (!x, y)),
        ("<<", |x, y, _, s| (x << s, y)),
        (">>", |x, y, _, s| (x >> s, y)),
        ("rotate_left", |x, y, _, s| (Integer::rotate_left(x, s), y)),
        ("rotate_right", |x, y, _, s| (Integer::rotate_right(x, s), y)),
        ("get_bit", |x, y, _, s| (x.get_bit(s), y)),
        ("set", |x, y, _, s| (x.set(s, y, (s * 7) % T::NUM_BITS), y)),
        ("pow", |x, y, _, s| (x.pow(s), y)),
        ("cswap", |x, y, c, _| cswap(x, y, c)),
        ("cadd", |x, y, c, _| (cadd(x, y, c), y)),
        ("csub", |x, y, c, _| (csub(x, y, c), y)),
        ("cmul", |x, y, c, _| (cmul(x, y, c), y)),
    ]
}
fn unsigned<T: Mi>() -> Vec<(&'static str, F1<T>)> {
    vec![
        ("equal_bm", |x, y, _, _| (x.equal_bm(y), y)),
        ("not_equal_bm", |x, y, _, _| (x.not_equal_bm(y), y)),
        ("greater_than_bm", |x, y, _, _| (x.greater_than_bm(y), y)),
        ("greater_than_or_qual_bm", |x, y, _, _| (x.greater_than_or_qual_bm(y), y)),
        ("less_than_bm", |x, y, _, _| (x.less_than_bm(y), y)),
        ("less_than_or_equal_bm", |x, y, _, _| (x.less_than_or_equal_bm(y), y)),
        ("ct_div", |x, y, _, _| ct_div(x, y)),
    ]
}
/// Operations that take a secret bit.
fn bits<T: Mi>() -> Vec<(&'static str, F1<T>)> {
    vec![
        ("set_bit", |x, b, _, s| (x.set_bit(b, s), b)),
        ("cset_bit", |x, b, c, s| (cset_bit(x, b, s, c), b)),
        ("cswap_bit", |x, b, _, _| cswap_bit(x, x, b)),
    ]
}
/// `share`: which operands are secret (bit set = secret).
fn int_case<T: Mi>(c: &mut Case) -> Res {
    let n = T::BITS as usize;
    let (a, b) = pair(&mut c.rng, T::BITS);
    let s = c.rng.below(n) as u32;
    let on = c.rng.chance(1, 2);
    let bit = c.rng.below(2) as u128;
    let share = 1 + c.rng.below(7);
    c.input(format!("{} a={:x} b={:x} s={} c={} secret operands {:03b}", T::NAME, a, b, s, on, share));
    let mut ops: Vec<(&'static str, F1<T>, bool)> = all::<T>().into_iter().map(|(n, f)| (n, f, false)).collect();
    ops.extend(bits::<T>().into_iter().map(|(n, f)| (n, f, true)));
    if !T::SIGNED { ops.extend(unsigned::<T>().into_iter().map(|(n, f)| (n, f, false))); }
    for (name, f, is_bit) in ops {
        let x = T::of(a);
        let y = T::of(if is_bit { bit } else { b });
        let m = T::of(if on { u128::MAX } else { 0 });
        if share & 1 != 0 { hide(&x); }
        if share & 2 != 0 { hide(&y); }
        if share & 4 != 0 { hide(&m); }
        watch(c, &format!("{} {}", T::NAME, name), || f(x, y, m, s), |r| show(r))?;
        show(&x);
        show(&y);
        show(&m);
    }
    Ok(())
}
macro_rules! casts {
    ($c:ident, $a:ident: $($f:ident => $($t:ident)*;)*) => {$($({
        let x = <$f as Mi>::of($a);
        hide(&x);
        watch($c, concat!(stringify!($f), " to ", stringify!($t)), || $t::from(x), |r| show(r))?;
        show(&x);
    })*)*};
}
fn cast_case(c: &mut Case) -> Res {
    let a = c.rng.edge(128);
    c.input(format!("casts of {:x}", a));
    casts!(c, a:
        U8 => U16 U32 U64 U128 I8; U16 => U8 U32 U64 U128 I16; U32 => U8 U16 U64 U128 I32; U64 => U8 U16 U32 U128 I64; U128 => U8 U16 U32 U64 I128;
        I8 => I16 I32 I64 I128 U8; I16 => I8 I32 I64 I128 U16; I32 => I8 I16 I64 I128 U32; I64 => I8 I16 I32 I128 U64; I128 => I8 I16 I32 I64 U128;);
    Ok(())
}
macro_rules! inherent {
    ($c:ident: $($t:ident $r:ident $unsigned:tt),*) => {$({
        let k = 1 + $c.rng.below(5);
        let v: Vec<$t> = (0..k).map(|_| <$t as Mi>::of($c.rng.edge(<$t as Mi>::BITS))).collect();
        let s = $c.rng.u64() as u32;
        hide(&v[..]);
        let (x, y) = (v[0], v[k - 1]);
        let n = stringify!($t);
        watch($c, &format!("{} negation", n), || -x, |r| show(r))?;
        watch($c, &format!("{}::rotate", n), || ($t::rotate_left(x, s), $t::rotate_right(y, s)), |r| show(r))?;
        watch($c, &format!("{} op-assign", n), || { let mut z = x; z += y; z -= x; z *= y; z &= x; z |= y; z ^= x; z <<= 3; z >>= 2; z }, |r| show(r))?;
        let le = watch($c, &format!("{}::to_le_bytes", n), || $t::to_le_bytes(&v), |r| show(&r[..]))?;
        let be = watch($c, &format!("{}::to_be_bytes", n), || $t::to_be_bytes(&v), |r| show(&r[..]))?;
        hide(&le[..]);
        hide(&be[..]);
        watch($c, &format!("{}::from_le_bytes", n), || $t::from_le_bytes(&le), |r| show(&r[..]))?;
        watch($c, &format!("{}::from_be_bytes", n), || $t::from_be_bytes(&be), |r| show(&r[..]))?;
        inherent!(@ $c, $t, x, y, n, $unsigned);
    })*};
    (@ $c:ident, $t:ident, $x:ident, $y:ident, $n:ident, true) => {
        watch($c, &format!("{} comparison masks", $n), || [$t::comp_eq($x, $y), $t::comp_ne($x, $y), $t::comp_gt($x, $y), $t::comp_gte($x, $y), $t::comp_lt($x, $y), $t::comp_lte($x, $y)], |r| show(r))?;
    };
    (@ $c:ident, $t:ident, $x:ident, $y:ident, $n:ident, false) => {};
}
fn inherent_case(c: &mut Case) -> Res {
    c.input(format!("inherent operators #{}", c.idx));
    inherent!(c: U8 u8 true, U16 u16 true, U32 u32 true, U64 u64 true, U128 u128 true, I8 i8 false, I16 i16 false, I32 i32 false, I64 i64 false, I128 i128 false);
    Ok(())
}
macro_rules! words {
    ($c:ident: $($t:ident $w:ident $n:literal $tl:ident $tb:ident $fl:ident $fb:ident),*) => {$({
        let x = <$t as Mi>::of($c.rng.edge(<$t as Mi>::BITS));
        hide(&x);
        let le = watch($c, stringify!($tl), || hp::$tl(x), |r| show(r))?;
        let be = watch($c, stringify!($tb), || hp::$tb(x), |r| show(r))?;
        hide(&le);
        hide(&be);
        watch($c, stringify!($fl), || hp::$fl(le), |r| show(r))?;
        watch($c, stringify!($fb), || hp::$fb(be), |r| show(r))?;
        let sl = watch($c, concat!(stringify!($t), " trait to bytes"), || (UnsignedSecretInteger::to_le_bytes(x), UnsignedSecretInteger::to_be_bytes(x)), |r| show(r.0.iter().as_slice()) + show(r.1.iter().as_slice()))?;
        hide(sl.0.iter().as_slice());
        watch($c, concat!(stringify!($t), " trait from bytes"), || (<$t as UnsignedSecretInteger>::from_le_bytes(&sl.0), <$t as UnsignedSecretInteger>::from_be_bytes(&sl.0)), |r| show(r))?;
        for i in 0..$n {
            watch($c, concat!(stringify!($t), " get_byte"), || UnsignedSecretInteger::get_byte(x, i), |r| show(r))?;
        }
    })*};
}
fn word_case(c: &mut Case) -> Res {
    c.input(format!("word conversions #{}", c.idx));
    words!(c: U16 U16Word 2 U16_to_le_bytes U16_to_be_bytes U16_from_le_bytes U16_from_be_bytes,
              U32 U32Word 4 U32_to_le_bytes U32_to_be_bytes U32_from_le_bytes U32_from_be_bytes,
              U64 U64Word 8 U64_to_le_bytes U64_to_be_bytes U64_from_le_bytes U64_from_be_bytes,
              U128 U128Word 16 U128_to_le_bytes U128_to_be_bytes U128_from_le_bytes U128_from_be_bytes);
    Ok(())
}

// ------------------------------------------------------------------ arrays and sequences
mod arr {
    #![allow(unused)]
    use hacspec::prelude::*;
    use std::cmp::Ordering;
    bytes!(B48, 48);
    array!(A9, 9, U32);
    array!(A5, 5, U128);
    array!(A6, 6, U64);
    array!(A11, 11, U16);
    bytes!(K32, 32);
    bytes!(B600, 600);
}
fn secret_seq(c: &mut Case, l: usize) -> ByteSeq {
    let s = ByteSeq::from_public_slice(&c.rng.bytes(l));
    hide(s.iter().as_slice());
    s
}
fn show_seq<T: Default + Copy>(s: &Seq<T>) -> u64 {
    show(s.iter().as_slice())
}
fn container_case(c: &mut Case) -> Res {
    use arr::*;
    c.input(format!("containers #{}", c.idx));
    let x = B48::from_public_slice(&c.rng.bytes(48));
    let y = B48::from_public_slice(&c.rng.bytes(48));
    hide(&x);
    hide(&y);
    watch(c, "array ^", || x ^ y, |r| show(r))?;
    watch(c, "array + - *", || (x + y, x - y, x * y), |r| show(r))?;
    watch(c, "array to_be_bytes", || x.to_be_bytes(), show_seq)?;
    watch(c, "array to_le_bytes", || x.to_le_bytes(), show_seq)?;
    watch(c, "to_be_U32s", || x.to_be_U32s(), show_seq)?;
    watch(c, "to_le_U32s", || x.to_le_U32s(), show_seq)?;
    watch(c, "to_be_U64s", || x.to_be_U64s(), show_seq)?;
    watch(c, "to_le_U64s", || x.to_le_U64s(), show_seq)?;
    watch(c, "to_U128s_be", || x.to_U128s_be(), show_seq)?;
    watch(c, "to_U128s_le", || x.to_U128s_le(), show_seq)?;
    let (s, l) = (c.rng.below(30), c.rng.below(18));
    watch(c, "array sub", || x.sub(s, l), show_seq)?;
    watch(c, "array update_sub", || x.update_sub(s, &y, 3, l), |r| show(r))?;
    watch(c, "array update", || x.update(s, &y.sub(2, l)), |r| show(r))?;
    watch(c, "array update_start", || x.update_start(&y), |r| show(r))?;
    watch(c, "array from_slice", || B48::from_slice(&x.0[s..s + l]), |r| show(r))?;
    watch(c, "array from_sub", || B48::from_sub(&x, 0, 48), |r| show(r))?;
    watch(c, "array index", || { let mut z = x; z[s] = y[l]; z }, |r| show(r))?;
    let (k, i) = (1 + c.rng.below(16), c.rng.below(3));
    watch(c, "array get_chunk", || x.get_chunk(k, i), |r| show_seq(&r.1))?;
    let a = A9::from_vec((0..9).map(|_| U32(c.rng.u64() as u32)).collect());
    let b = A9::from_vec((0..9).map(|_| U32(c.rng.u64() as u32)).collect());
    hide(&a);
    hide(&b);
    watch(c, "word array ops", || (a + b, a - b, a * b, a ^ b), |r| show(r))?;
    watch(c, "word array to_bytes", || (a.to_be_bytes(), a.to_le_bytes()), |r| show_seq(&r.0) + show_seq(&r.1))?;
    let q = A5::from_vec((0..5).map(|_| U128(c.rng.u128())).collect());
    hide(&q);
    watch(c, "U128 array to_bytes", || (q.to_be_bytes(), q.to_le_bytes()), |r| show_seq(&r.0) + show_seq(&r.1))?;
    macro_rules! elementwise {
        ($($t:ident $n:literal $e:ident $r:ident)*) => {$({
            let a = $t::from_vec((0..$n).map(|_| $e(c.rng.edge(<$e as Mi>::BITS) as $r)).collect());
            let b = $t::from_vec((0..$n).map(|_| $e(c.rng.edge(<$e as Mi>::BITS) as $r)).collect());
            hide(&a);
            hide(&b);
            watch(c, concat!(stringify!($e), " array + - * ^"), || (a + b, a - b, a * b, a ^ b), |r| show(r))?;
            watch(c, concat!(stringify!($e), " array wrap_add wrap_sub wrap_mul"), || (a.wrap_add(b), a.wrap_sub(b), a.wrap_mul(b)), |r| show(r))?;
            let (i, l) = (c.rng.below($n), c.rng.below($n));
            watch(c, concat!(stringify!($e), " array moves"), || { let mut z = $t::from_sub(&a, 0, l); z[i] = b[l]; z = z.update_sub(0, &a, l / 2, l - l / 2); z.update(l, &b.sub(0, $n - l)) }, |r| show(r))?;
        })*};
    }
    elementwise!(A11 11 U16 u16 A9 9 U32 u32 A6 6 U64 u64 A5 5 U128 u128);
    let big = B600::from_public_slice(&c.rng.bytes(600));
    hide(&big);
    watch(c, "large array + - * ^", || (big + big, big - big, big * big, big ^ big), |r| show(r))?;
    watch(c, "large array to words", || (big.to_be_U32s(), big.to_le_U32s(), big.to_be_U64s(), big.to_le_U64s()), |r| show_seq(&r.0) + show_seq(&r.1) + show_seq(&r.2) + show_seq(&r.3))?;
    watch(c, "large array bytes", || (big.to_be_bytes(), big.to_le_bytes()), |r| show_seq(&r.0) + show_seq(&r.1))?;
    let n = if c.rng.chance(1, 3) { 1000 + c.rng.below(3000) } else { 20 + c.rng.below(60) };
    let (m, w) = (secret_seq(c, n), secret_seq(c, n));
    watch(c, "seq sub", || m.sub(3, 7), show_seq)?;
    watch(c, "seq update_sub", || m.clone().update_sub(1, &w, 3, 9), show_seq)?;
    watch(c, "seq get_chunk / set_chunk", || { let mut z = ByteSeq::new(m.len()); for i in 0..m.num_chunks(7) { let (_, b) = m.get_chunk(7, i); z = z.set_chunk(7, i, &b); } z }, show_seq)?;
    watch(c, "seq from_seq", || (ByteSeq::from_seq(&m), ByteSeq::from_sub(&w, 2, 9)), |r| show_seq(&r.0) + show_seq(&r.1))?;
    watch(c, "seq index", || m[5usize] ^ w[6u32], |r| show(r))?;
    Ok(())
}

// ------------------------------------------------------------------ cryptographic functions
fn crypto_case(c: &mut Case) -> Res {
    let max = 300;
    let l = if c.idx < 24 { [0, 1, 55, 56, 63, 64, 65, 71, 72, 103, 104, 119, 127, 128, 129, 135, 136, 143, 144, 167, 168, 191, 192, 256][c.idx as usize] } else { c.rng.below(max) };
    let which = (c.idx / 24 + c.idx % 12) % 12;
    // code for long messages
    let l = if c.idx >= 24 && c.rng.chance(1, 4) { [600, 1100, 2100, 4150][c.rng.below(4)] + c.rng.below(70) } else { l };
    if l > 500 { c.obs("long message", which); }
    c.obs("message length", l);
    let n = [0, 16, 32, 63, 64, 65, 100][c.rng.below(7)];
    let o = 1 + c.rng.below(200);
    c.input(format!("function {} message length {} key length {} output length {}", which, l, n, o));
    let m = secret_seq(c, l);
    let k = secret_seq(c, n);
    match which {
        0 | 8 => { watch(c, "SHA-256", || ex::sha2::hash(&m), |r| show(r))?; }
        1 | 9 => { watch(c, "HMAC-SHA-256", || ex::hmac::hmac(&k, &m), |r| show(r))?; }
        2 => {
            let p = watch(c, "HKDF extract", || ex::hkdf::extract(&k, &m), |r| show(r))?;
            hide(&p);
            watch(c, "HKDF expand", || ex::hkdf::expand(&ByteSeq::from_seq(&p), &m, o), show_seq)?;
        }
        3 | 10 => { watch(c, "BLAKE2b", || ex::blake2::blake2b::blake2b(&m), |r| show(r))?; }
        4 => { watch(c, "SHA3-224", || ex::fips202::sha3224(&m), |r| show(r))?; watch(c, "SHA3-512", || ex::fips202::sha3512(&m), |r| show(r))?; }
        5 => { watch(c, "SHA3-256", || ex::fips202::sha3256(&m), |r| show(r))?; watch(c, "SHA3-384", || ex::fips202::sha3384(&m), |r| show(r))?; }
        6 => { watch(c, "SHAKE128", || ex::fips202::shake128(&m, o), show_seq)?; watch(c, "SHAKE256", || ex::fips202::shake256(&m, o), show_seq)?; }
        _ => {
            use ex::chacha20_poly1305::chacha20 as cc;
            let key = cc::Key::from_public_slice(&c.rng.bytes(32));
            let iv = cc::IV::from_public_slice(&c.rng.bytes(12));
            hide(&key);
            hide(&iv);
            let ctr = U32(c.rng.edge(32) as u32);
            hide(&ctr);
            watch(c, "ChaCha20 block", || cc::block(key, ctr, iv), |r| show(r))?;
            let r = watch(c, "ChaCha20", || cc::chacha(key, iv, &m), |r| r.as_ref().map(show_seq).unwrap_or(0))?;
            r.map(|_| ())?;
        }
    }
    Ok(())
}

/// The reason for positive control: a branch and an address on secret data must be seen.
#[inline(never)]
fn leak_branch(x: u8) -> u32 {
    if std::hint::black_box(x) & 1 == 1 { std::hint::black_box(5) } else { std::hint::black_box(7) }
}
#[inline(never)]
fn leak_index(t: &[u8; 256], x: u8) -> u8 {
    t[std::hint::black_box(x) as usize]
}
fn c17(cx: &mut Ctx) {
    if !on_valgrind() {
        std::process::exit(3);
    }
    let x = 41u8;
    let table = [7u8; 256];
    let e0 = errors();
    hide(&x);
    std::hint::black_box(leak_branch(x));
    let e1 = errors();
    std::hint::black_box(leak_index(&table, x));
    let e2 = errors();
    show(&x);
    let y = U64(77);
    hide(&y);
    let z = y * y + U64(3);
    let kept = show(&z);
    if e1 <= e0 || e2 <= e1 || kept == 0 {
        std::process::exit(4); // memcheck does not see secrets here: no answer
    }
    let n = cx.n(96, 800);
    macro_rules! ints { ($($t:ident)*) => {$( cx.cases(concat!("operations of ", stringify!($t)), n, |c| int_case::<$t>(c)); )*}; }
    ints!(U8 U16 U32 U64 U128 I8 I16 I32 I64 I128);
    let n = cx.n(48, 400);
    cx.cases("casts", n, cast_case);
    cx.cases("inherent operators and byte conversions", n, inherent_case);
    cx.cases("word conversions", n, word_case);
    cx.cases("arrays and sequences", n, container_case);
    let n = cx.n(288, 2000);
    cx.cases("cryptographic functions", n, crypto_case);
}
fn main() {
    main_check(&[Check {
        id: "C17",
        shards: 8,
        run: c17,
        selftest: || assert!(!on_valgrind()),
        scale: (1, 2),
        require: &[("operation", 310), ("operation whose result carries secret bits", 260), ("message length", 24), ("long message", 10)],
        rule: "one evaluation = one operation executed with its secret operands marked undefined while memcheck counted secret-dependent branches and addresses; distinct = distinct (operation, operand values, secret positions)",
    }]);
}
