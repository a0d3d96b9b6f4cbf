//! C18, C19, C20, C21, C31: arrays and sequences.
use hacspec::prelude::*;
use hv::gen::{fnv, hex, Rng as Gen};
use hv::mi::*;
use hv::mon::*;
use std::cmp::Ordering;

type M = Vec<u128>;
fn enc<E: Mi>(m: &[u128]) -> Vec<E> {
    m.iter().map(|x| E::of(*x)).collect()
}
fn fresh(r: &mut Gen, bits: u32, l: usize) -> M {
    (0..l).map(|_| r.edge(bits)).collect()
}
fn show(m: &[u128]) -> String {
    clip(m.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(","), 160)
}

// ------------------------------------------------------------------ containers under test
macro_rules! decl {
    ($($m:ident $t:ident $a1:ident $a9:ident $a40:ident;)*) => {$(
        pub mod $m { #![allow(unused)] use hacspec::prelude::*; use std::cmp::Ordering; array!($a1, 1, $t); array!($a9, 9, $t); array!($a40, 40, $t); }
    )*};
}
decl!(
    mu8 u8 A1 A9 A40; mu16 u16 A1 A9 A40; mu32 u32 A1 A9 A40; mu64 u64 A1 A9 A40; mu128 u128 A1 A9 A40;
    msu8 U8 A1 A9 A40; msu16 U16 A1 A9 A40; msu32 U32 A1 A9 A40; msu64 U64 A1 A9 A40; msu128 U128 A1 A9 A40;
);
mod mi16 { #![allow(unused)] use hacspec::prelude::*; array!(A1, 1, i16); array!(A9, 9, i16); array!(A40, 40, i16); }
mod mi64 { #![allow(unused)] use hacspec::prelude::*; array!(A1, 1, i64); array!(A9, 9, i64); array!(A40, 40, i64); }
mod gen {
    #![allow(unused)]
    use hacspec::prelude::*;
    generic_array!(G3, 3);
    generic_array!(G16, 16);
}
use gen::{G16, G3};
mod both {
    #![allow(unused)]
    use hacspec::prelude::*;
    both_arrays!(P11, S11, 11, U32, u32);
    both_arrays!(P5, S5, 5, U128, u128);
    both_bytes!(Pb20, Sb20, 20);
}

/// A container type under test, with elements `E`.
trait Cont<E: Mi>: SeqTrait<E> + Clone + Default {
    const KIND: &'static str;
    const FIXED: Option<usize>;
    fn len_(&self) -> usize;
    fn new_(l: usize) -> Self;
    fn slice(v: &[E]) -> Self;
    fn vec(v: Vec<E>) -> Self;
    fn seq<A: SeqTrait<E>>(v: &A) -> Self;
    fn fsub<A: SeqTrait<E>>(v: &A, s: usize, l: usize) -> Self;
    fn fsubr<A: SeqTrait<E>>(v: &A, r: std::ops::Range<usize>) -> Self;
    fn sub_(&self, s: usize, l: usize) -> M;
    fn subr_(&self, r: std::ops::Range<usize>) -> M;
    fn nchunks(&self, k: usize) -> usize;
    fn clen(&self, k: usize, i: usize) -> Option<usize>;
    fn chunk(&self, k: usize, i: usize) -> (usize, M);
    fn schunk<A: SeqTrait<E>>(self, k: usize, i: usize, v: &A) -> Self;
    fn i8_(&self, i: u8) -> E;
    fn i32_(&self, i: u32) -> E;
    fn ii32_(&self, i: i32) -> E;
    fn s8_(&mut self, i: u8, x: E);
    fn s32_(&mut self, i: u32, x: E);
    fn si32_(&mut self, i: i32, x: E);
    fn all(&self, r: std::ops::Range<usize>) -> M;
    fn dump(&self) -> M {
        (0..SeqTrait::len(self)).map(|i| self[i].raw()).collect()
    }
    fn dbg(&self) -> Option<String> { None }
}
fn raws<E: Mi>(v: &[E]) -> M {
    v.iter().map(|x| x.raw()).collect()
}
macro_rules! common {
    ($e:ty) => {
        fn len_(&self) -> usize { self.len() }
        fn slice(v: &[$e]) -> Self { Self::from_slice(v) }
        fn vec(v: Vec<$e>) -> Self { Self::from_vec(v) }
        fn seq<A: SeqTrait<$e>>(v: &A) -> Self { Self::from_seq(v) }
        fn fsub<A: SeqTrait<$e>>(v: &A, s: usize, l: usize) -> Self { Self::from_sub(v, s, l) }
        fn fsubr<A: SeqTrait<$e>>(v: &A, r: std::ops::Range<usize>) -> Self { Self::from_sub_range(v, r) }
        fn sub_(&self, s: usize, l: usize) -> M { let x = self.sub(s, l); raws(&x.iter().cloned().collect::<Vec<_>>()) }
        fn subr_(&self, r: std::ops::Range<usize>) -> M { let x = self.subr(r); raws(&x.iter().cloned().collect::<Vec<_>>()) }
        fn nchunks(&self, k: usize) -> usize { self.num_chunks(k) }
        fn chunk(&self, k: usize, i: usize) -> (usize, M) { let (l, x) = self.get_chunk(k, i); (l, raws(&x.iter().cloned().collect::<Vec<_>>())) }
        fn schunk<A: SeqTrait<$e>>(self, k: usize, i: usize, v: &A) -> Self { self.set_chunk(k, i, v) }
        fn i8_(&self, i: u8) -> $e { self[i] }
        fn i32_(&self, i: u32) -> $e { self[i] }
        fn ii32_(&self, i: i32) -> $e { self[i] }
        fn s8_(&mut self, i: u8, x: $e) { self[i] = x }
        fn s32_(&mut self, i: u32, x: $e) { self[i] = x }
        fn si32_(&mut self, i: i32, x: $e) { self[i] = x }
    };
}
macro_rules! fixed {
    ($e:ty) => {
        fn new_(_: usize) -> Self { Self::new() }
        fn clen(&self, k: usize, i: usize) -> Option<usize> { Some(self.get_chunk_len(k, i)) }
        fn all(&self, r: std::ops::Range<usize>) -> M { raws(&self[..][r]) }
        fn dbg(&self) -> Option<String> { Some(format!("{:?}", self)) }
    };
}
macro_rules! variable {
    ($e:ty) => {
        fn new_(l: usize) -> Self { Self::new(l) }
        fn clen(&self, _: usize, _: usize) -> Option<usize> { None }
        fn all(&self, r: std::ops::Range<usize>) -> M { raws(&self[r]) }
    };
}
macro_rules! conts {
    ($($e:ident $m:ident $q:ident;)*) => {$(
        impl Cont<$e> for $m::A1 { const KIND: &'static str = "array1"; const FIXED: Option<usize> = Some(1); common!($e); fixed!($e); }
        impl Cont<$e> for $m::A9 { const KIND: &'static str = "array9"; const FIXED: Option<usize> = Some(9); common!($e); fixed!($e); }
        impl Cont<$e> for $m::A40 { const KIND: &'static str = "array40"; const FIXED: Option<usize> = Some(40); common!($e); fixed!($e); }
        impl Cont<$e> for $q<$e> { const KIND: &'static str = stringify!($q); const FIXED: Option<usize> = None; common!($e); variable!($e); }
    )*};
}
conts!(
    u8 mu8 PublicSeq; u16 mu16 PublicSeq; u32 mu32 PublicSeq; u64 mu64 PublicSeq; u128 mu128 PublicSeq; i16 mi16 PublicSeq; i64 mi64 PublicSeq;
    U8 msu8 SecretSeq; U16 msu16 SecretSeq; U32 msu32 SecretSeq; U64 msu64 SecretSeq; U128 msu128 SecretSeq;
);
impl<E: Mi> Cont<E> for Seq<E> { const KIND: &'static str = "Seq"; const FIXED: Option<usize> = None; common!(E); variable!(E); }
impl<E: Mi> Cont<E> for G3<E> { const KIND: &'static str = "generic3"; const FIXED: Option<usize> = Some(3); common!(E); fixed!(E); }
impl<E: Mi> Cont<E> for G16<E> { const KIND: &'static str = "generic16"; const FIXED: Option<usize> = Some(16); common!(E); fixed!(E); }
// signed secret elements only have Seq, SecretSeq and generic arrays
impl Cont<I32> for SecretSeq<I32> { const KIND: &'static str = "SecretSeq"; const FIXED: Option<usize> = None; common!(I32); variable!(I32); }
impl Cont<I128> for SecretSeq<I128> { const KIND: &'static str = "SecretSeq"; const FIXED: Option<usize> = None; common!(I128); variable!(I128); }

/// Either outcome is decided: a value must equal the wanted one, a panic must be wanted.
fn decide<T: PartialEq + std::fmt::Debug>(what: &str, want: Option<T>, got: Result<T, String>) -> Res {
    match (got, want) {
        (Ok(g), Some(w)) => eq(what, &g, &w),
        (Ok(g), None) => Err(format!("{}: got {} want a panic", what, clip(format!("{:?}", g), 300))),
        (Err(_), None) => Ok(()),
        (Err(p), Some(w)) => Err(format!("{}: unexpected {} (want {})", what, p, clip(format!("{:?}", w), 300))),
    }
}
/// An index or length: mostly in 0..=n, sometimes just outside, sometimes extreme.
fn ix(r: &mut Gen, n: usize) -> usize {
    match r.below(24) {
        0 => n + 1,
        1 => n + 1 + r.below(300),
        2 => usize::MAX - r.below(3),
        3 | 4 => n,
        5 => 0,
        _ => r.below(n + 1),
    }
}
fn any_len<E: Mi, T: Cont<E>>(r: &mut Gen) -> usize {
    match T::FIXED {
        Some(l) => l,
        None => match r.below(6) { 0 => r.below(3), 1 => 300 + r.below(40), _ => r.below(50) },
    }
}
fn make<E: Mi, T: Cont<E>>(r: &mut Gen) -> (T, M) {
    let l = any_len::<E, T>(r);
    let m = fresh(r, E::BITS, l);
    (T::slice(&enc::<E>(&m)), m)
}
fn whole<E: Mi, T: Cont<E>>(what: &str, t: &T, m: &M) -> Res {
    eq(&format!("{}: len", what), &t.len_(), &m.len())?;
    eq(&format!("{}: SeqTrait::len", what), &SeqTrait::len(t), &m.len())?;
    eq(&format!("{}: contents", what), &t.dump(), m)?;
    eq(&format!("{}: iter", what), &t.iter().map(|x| x.raw()).collect::<M>(), m)
}
/// The model of `update_sub`.
fn upd(t: &M, so: usize, v: &M, si: usize, l: usize) -> Option<M> {
    if so.checked_add(l)? > t.len() || si.checked_add(l)? > v.len() {
        return None;
    }
    let mut o = t.clone();
    o[so..so + l].copy_from_slice(&v[si..si + l]);
    Some(o)
}
fn cut(v: &M, s: usize, l: usize) -> Option<M> {
    if s.checked_add(l)? > v.len() { None } else { Some(v[s..s + l].to_vec()) }
}
/// One operation on target `t` reading source `s`; both are compared with their models afterwards.
fn step<E: Mi, T: Cont<E>, S: Cont<E>>(c: &mut Case, t: &mut (T, M), s: &(S, M), log: &mut Vec<String>) -> Res {
    let mut r0 = Gen::new(c.rng.u64());
    let r = &mut r0;
    let (tl, sl) = (t.1.len(), s.1.len());
    let op = r.below(20);
    let fits = |l: usize| T::FIXED.map(|f| f == l).unwrap_or(true);
    // the outcome of an operation that yields the target type
    let mut out: Option<(Option<M>, Result<T, String>)> = None;
    let name: &'static str;
    macro_rules! note { ($($a:tt)*) => {{ let d = format!($($a)*); log.push(format!("{}<{}>: {}", T::KIND, S::KIND, d)); c.input(clip(log.join("; "), 3000)); }}; }
    match op {
        0 => {
            name = "update_sub";
            let (a, b) = (ix(r, tl), ix(r, sl));
            let room = tl.saturating_sub(a).min(sl.saturating_sub(b));
            let l = ix(r, room);
            note!("update_sub({}, {}..+{})", a, b, l);
            out = Some((upd(&t.1, a, &s.1, b, l), attempt(|| t.0.clone().update_sub(a, &s.0, b, l))));
        }
        1 => {
            name = "update";
            let a = ix(r, tl.saturating_sub(sl));
            note!("update({})", a);
            out = Some((upd(&t.1, a, &s.1, 0, sl), attempt(|| t.0.clone().update(a, &s.0))));
        }
        2 => {
            name = "update_start";
            note!("update_start");
            out = Some((upd(&t.1, 0, &s.1, 0, sl), attempt(|| t.0.clone().update_start(&s.0))));
        }
        3 => {
            name = "from_seq";
            note!("from_seq");
            out = Some((if fits(sl) { Some(s.1.clone()) } else { None }, attempt(|| T::seq(&s.0))));
        }
        4 | 5 => {
            name = "from_sub";
            let l = match T::FIXED { Some(f) if !r.chance(1, 8) => f, _ => ix(r, sl) };
            let a = ix(r, sl.saturating_sub(l));
            let want = if fits(l) { cut(&s.1, a, l) } else { None };
            // a huge length would only ask the allocator; the extreme one is refused before that
            let l = if l > 1 << 20 { usize::MAX } else { l };
            if op == 4 {
                note!("from_sub({}, {})", a, l);
                out = Some((want, attempt(|| T::fsub(&s.0, a, l))));
            } else {
                let e = a.wrapping_add(l);
                let want = if e < a { None } else { want };
                note!("from_sub_range({}..{})", a, e);
                out = Some((want, attempt(|| T::fsubr(&s.0, a..e))));
            }
        }
        6 | 7 => {
            name = "sub";
            let a = ix(r, tl);
            let l = ix(r, tl.saturating_sub(a));
            let l = if l > 1 << 20 { usize::MAX } else { l };
            if op == 6 {
                note!("sub({}, {})", a, l);
                decide("sub", cut(&t.1, a, l), attempt(|| t.0.sub_(a, l)))?;
            } else {
                let e = match r.below(8) { 0 => a.wrapping_sub(1), _ => a.wrapping_add(l) };
                let want = if e < a { None } else { cut(&t.1, a, e - a) };
                if !(e >= a && e - a > 1 << 20 && e - a < usize::MAX >> 1) {
                    note!("subr({}..{})", a, e);
                    decide("subr", want, attempt(|| t.0.subr_(a..e)))?;
                }
            }
        }
        8 => {
            name = "read";
            let i = ix(r, tl);
            note!("read [{}]", i);
            let want = t.1.get(i).cloned();
            decide("[usize]", want, attempt(|| t.0[i].raw()))?;
            if i < 256 { decide("[u8]", want, attempt(|| t.0.i8_(i as u8).raw()))?; }
            let j = i as u32;
            decide("[u32]", t.1.get(j as usize).cloned(), attempt(|| t.0.i32_(j).raw()))?;
            let k = i as i32;
            decide("[i32]", if k < 0 { None } else { t.1.get(k as usize).cloned() }, attempt(|| t.0.ii32_(k).raw()))?;
        }
        9 | 10 => {
            name = "write";
            let i = ix(r, tl);
            let x = r.edge(E::BITS);
            let how = r.below(4);
            let (want, at) = match how {
                1 => (Some(i as u8 as usize), i as u8 as usize),
                2 => (Some(i as u32 as usize), i as u32 as usize),
                3 => (if (i as i32) < 0 { None } else { Some(i as i32 as usize) }, i as i32 as usize),
                _ => (Some(i), i),
            };
            let want = want.filter(|j| *j < tl).map(|j| { let mut m = t.1.clone(); m[j] = x; m });
            note!("write[{}; how {}] = {:x}", at, how, x);
            let mut u = t.0.clone();
            let got = attempt(|| {
                match how { 1 => u.s8_(i as u8, E::of(x)), 2 => u.s32_(i as u32, E::of(x)), 3 => u.si32_(i as i32, E::of(x)), _ => u[i] = E::of(x) }
                u
            });
            out = Some((want, got));
        }
        11 => {
            name = "from_slice";
            let l = match T::FIXED { Some(f) => match r.below(4) { 0 => f + 1 + r.below(3), 1 => r.below(f + 1), _ => f }, None => r.below(60) };
            let m = fresh(r, E::BITS, l);
            note!("from_slice({})", show(&m));
            // a short slice is padded with zeros, a long one refused
            let want = match T::FIXED { Some(f) if l > f => None, Some(f) => { let mut w = m.clone(); w.resize(f, 0); Some(w) } None => Some(m.clone()) };
            out = Some((want, attempt(|| T::slice(&enc::<E>(&m)))));
        }
        12 => {
            name = "from_vec";
            let l = match T::FIXED { Some(f) => match r.below(4) { 0 => f + 1 + r.below(3), 1 => r.below(f + 1), _ => f }, None => r.below(60) };
            let m = fresh(r, E::BITS, l);
            note!("from_vec({})", show(&m));
            out = Some((if fits(l) { Some(m.clone()) } else { None }, attempt(|| T::vec(enc::<E>(&m)))));
        }
        13 => {
            name = "new";
            let l = any_len::<E, T>(r);
            note!("new({})", l);
            out = Some((Some(vec![0; l]), attempt(|| T::new_(l))));
        }
        14 => {
            name = "create";
            let l = match T::FIXED { Some(f) if r.chance(1, 2) => f, _ => r.below(50) };
            note!("create({})", l);
            out = Some((if fits(l) { Some(vec![0; l]) } else { None }, attempt(|| T::create(l))));
        }
        15 => {
            name = "slice view";
            let a = ix(r, tl);
            let e = ix(r, tl);
            note!("view {}..{}", a, e);
            decide("view", if a <= e && e <= tl { Some(t.1[a..e].to_vec()) } else { None }, attempt(|| t.0.all(a..e)))?;
        }
        16 => {
            name = "set_chunk";
            let k = 1 + r.below(12);
            let i = r.below(tl / k + 2);
            note!("set_chunk({}, {})", k, i);
            let st = k * i;
            let want = if st > tl { None } else if sl != k.min(tl - st) { None } else { upd(&t.1, st, &s.1, 0, sl) };
            out = Some((want, attempt(|| t.0.clone().schunk(k, i, &s.0))));
        }
        17 => {
            name = "debug";
            note!("debug");
            if let Some(d) = t.0.dbg() {
                let dec: Vec<String> = t.1.iter().map(|x| v::<E>(*x).to_string()).collect();
                // public arrays and arrays of secret values print the numbers
                let got: Vec<String> = d.split(|ch: char| !(ch.is_ascii_digit() || ch == '-')).filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
                if !T::KIND.starts_with("generic") {
                    eq("Debug", &got, &dec)?;
                }
            }
        }
        18 => {
            name = "clone";
            note!("clone and write");
            let mut u = t.0.clone();
            if tl > 0 {
                let i = r.below(tl);
                u[i] = E::of(!t.1[i]);
                let mut m = t.1.clone();
                m[i] = !m[i] & mask(E::BITS);
                whole("written clone", &u, &m)?;
            }
        }
        _ => {
            name = "default";
            note!("default");
            let d = T::default();
            eq("default", &d.dump(), &vec![0; T::FIXED.unwrap_or(0)])?;
        }
    }
    let mut panicked = false;
    if let Some((want, got)) = out {
        panicked = got.is_err();
        match got {
            Err(p) => ensure(want.is_none(), || format!("{}: unexpected {}", name, p))?,
            Ok(n) => match want {
                None => return Err(format!("{}: want a panic, got {}", name, show(&n.dump()))),
                Some(w) => {
                    whole(name, &n, &w)?;
                    // the receiver's copy is untouched
                    eq(&format!("{}: original", name), &t.0.dump(), &t.1)?;
                    *t = (n, w);
                }
            },
        }
    }
    eq(&format!("{}: source unchanged", name), &s.0.dump(), &s.1)?;
    eq(&format!("{}: target", name), &t.0.dump(), &t.1)?;
    c.obs("operation", format!("{} {}", name, if panicked { "refused" } else { "done" }));
    c.obs("pair", format!("{}<{}", T::KIND, S::KIND));
    tick();
    Ok(())
}
struct Env<A, B, C, D, F, G> {
    a: (A, M),
    b: (B, M),
    q: (C, M),
    s: (D, M),
    g: (F, M),
    h: (G, M),
}
fn history<E: Mi, A: Cont<E>, B: Cont<E>, Q: Cont<E>>(cx: &mut Ctx, n: u64) {
    cx.cases(&format!("history {} {} {} {}", E::NAME, A::KIND, B::KIND, Q::KIND), n, |c| {
        c.obs("element", E::NAME);
        let r = &mut c.rng;
        let mut e: Env<A, B, Q, Seq<E>, G3<E>, G16<E>> =
            Env { a: make::<E, _>(r), b: make::<E, _>(r), q: make::<E, _>(r), s: make::<E, _>(r), g: make::<E, _>(r), h: make::<E, _>(r) };
        let mut log = vec![];
        macro_rules! dispatch {
            ($i:expr, $j:expr; $($k:literal $t:ident: $($l:literal $s:ident),*;)*) => {
                match ($i, $j) {
                    $( $( ($k, $l) => { let src = e.$s.clone(); step::<E, _, _>(c, &mut e.$t, &src, &mut log)?;
                          eq("source untouched", &e.$s.0.dump(), &e.$s.1)?; } )* )*
                    _ => unreachable!(),
                }
            };
        }
        for _ in 0..25 {
            let (i, mut j) = (c.rng.below(6), c.rng.below(5));
            if j >= i { j += 1 }
            dispatch!(i, j;
                0 a: 1 b, 2 q, 3 s, 4 g, 5 h;
                1 b: 0 a, 2 q, 3 s, 4 g, 5 h;
                2 q: 0 a, 1 b, 3 s, 4 g, 5 h;
                3 s: 0 a, 1 b, 2 q, 4 g, 5 h;
                4 g: 0 a, 1 b, 2 q, 3 s, 5 h;
                5 h: 0 a, 1 b, 2 q, 3 s, 4 g;
            );
            // nothing but the target may have changed
            eq("a", &e.a.0.dump(), &e.a.1)?;
            eq("b", &e.b.0.dump(), &e.b.1)?;
            eq("q", &e.q.0.dump(), &e.q.1)?;
            eq("s", &e.s.0.dump(), &e.s.1)?;
            eq("g", &e.g.0.dump(), &e.g.1)?;
            eq("h", &e.h.0.dump(), &e.h.1)?;
            if log.len() > 40 { log.remove(0); }
        }
        Ok(())
    });
}
/// Constructors that only some containers have.
fn special(cx: &mut Ctx, n: u64) {
    macro_rules! pub_sec {
        ($p:ident $s:ident $l:literal $b:ident $n:literal) => {
            cx.cases(concat!("public/secret ", stringify!($s)), n, |c| {
                let m: Vec<$b> = (0..$l).map(|_| c.rng.edge($n) as $b).collect();
                c.input(format!("{} {:x?}", stringify!($s), m));
                let p = both::$p::from_vec(m.clone());
                let s = both::$s::from_public(p);
                eq("from_public", &s.0.iter().map(|x| x.0).collect::<Vec<_>>(), &m)?;
                eq("from_secret_declassify", &both::$p::from_secret_declassify(s).0.to_vec(), &m)?;
                eq("original", &p.0.to_vec(), &m)?;
                eq("from_public_slice", &both::$s::from_public_slice(&m).0.iter().map(|x| x.0).collect::<Vec<_>>(), &m)?;
                let mut a = [0 as $b; $l];
                a.copy_from_slice(&m);
                eq("from_public_array", &both::$s::from_public_array(a).0.iter().map(|x| x.0).collect::<Vec<_>>(), &m)?;
                eq("from_array", &both::$p::from_array(a).0.to_vec(), &m)?;
                eq("capacity", &(both::$s::capacity(), both::$p::capacity()), &($l, $l))?;
                let k = c.rng.below($l + 4);
                if k != $l {
                    let w: Vec<$b> = (0..k).map(|_| c.rng.edge($n) as $b).collect();
                    must_panic("from_public_slice of another length", || both::$s::from_public_slice(&w))?;
                }
                c.obs("operation", "public/secret conversion");
                c.obs("special", stringify!($s));
                Ok(())
            });
        };
    }
    pub_sec!(P11 S11 11 u32 32);
    pub_sec!(P5 S5 5 u128 128);
    pub_sec!(Pb20 Sb20 20 u8 8);
    macro_rules! pubarr {
        ($($m:ident $a:ident $l:literal $b:ident $n:literal),*) => {$(
            cx.cases(concat!("public input ", stringify!($m), stringify!($a)), n, |c| {
                let k = if c.rng.chance(3, 4) { $l } else { c.rng.below($l + 4) };
                let m: Vec<$b> = (0..k).map(|_| c.rng.edge($n) as $b).collect();
                c.input(format!("{} {:x?}", stringify!($m), m));
                decide("from_public_slice", if k == $l { Some(m.clone()) } else { None }, attempt(|| $m::$a::from_public_slice(&m).0.iter().map(|x| x.0).collect::<Vec<_>>()))?;
                if k == $l {
                    let mut a = [0 as $b; $l];
                    a.copy_from_slice(&m);
                    eq("from_public_array", &$m::$a::from_public_array(a).0.iter().map(|x| x.0).collect::<Vec<_>>(), &m)?;
                    eq("capacity", &$m::$a::capacity(), &$l)?;
                }
                c.obs("special", concat!(stringify!($m), stringify!($a)));
                Ok(())
            });
        )*};
    }
    pubarr!(msu8 A40 40 u8 8, msu16 A9 9 u16 16, msu32 A9 9 u32 32, msu64 A1 1 u64 64, msu128 A9 9 u128 128);
    macro_rules! generic {
        ($($g:ident $l:literal $t:ident $n:literal),*) => {$(
            cx.cases(concat!("generic array ", stringify!($g), " ", stringify!($t)), n / 4 + 1, |c| {
                let m = fresh(&mut c.rng, $n, $l);
                c.input(format!("{}<{}> {}", stringify!($g), stringify!($t), show(&m)));
                let v = enc::<$t>(&m);
                let mut a = [<$t>::of(0); $l];
                a.copy_from_slice(&v);
                let x = gen::$g::<$t>::from_array(a);
                eq("from_array", &raws(&x.iter().cloned().collect::<Vec<_>>()), &m)?;
                eq("source", &raws(&a[..]), &m)?;
                eq("capacity", &(gen::$g::<$t>::capacity(), gen::$g::<$t>::new().len()), &($l, $l))?;
                c.obs("special", concat!(stringify!($g), stringify!($t)));
                Ok(())
            });
        )*};
    }
    generic!(G3 3 U8 8, G16 16 U128 128, G3 3 i16 16, G16 16 u32 32, G16 16 I64 64);
    cx.cases("Seq from_public_slice", n, |c| {
        let k = c.rng.len(64, 400);
        let m = c.rng.bytes(k);
        c.input(hex(&m));
        let s = Seq::<U8>::from_public_slice(&m);
        eqb("from_public_slice", &s.iter().map(|x| x.0).collect::<Vec<u8>>(), &m)?;
        c.obs("special", "Seq");
        Ok(())
    });
}
// ---- large containers: lengths past 2^8, 2^16, 2^24 and 2^32
fn elem<E: Mi>(i: usize) -> E {
    E::of((i as u128 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835) >> 64)
}
fn run_of<E: Mi>(s: usize, l: usize) -> Vec<E> {
    (s..s + l).map(elem::<E>).collect()
}
/// The elements are `want(0..l)`.
fn same<E: Mi>(what: &str, v: std::slice::Iter<E>, l: usize, want: impl Fn(usize) -> E) -> Res {
    let mut n = 0;
    for x in v {
        if n < l && x.raw() != want(n).raw() { return Err(format!("{}: element {} of {}: got {:x} want {:x}", what, n, l, x.raw(), want(n).raw())); }
        n += 1;
    }
    eq(&format!("{}: length", what), &n, &l)
}
mod big {
    #![allow(unused)]
    use hacspec::prelude::*;
    use std::cmp::Ordering;
    array!(B300, 300, u8);
    array!(B70k, 70_003, u8);
    array!(S70k, 70_003, U8);
    array!(W1k, 1_025, U64);
    array!(V1k, 1_025, u128);
    generic_array!(G66k, 66_000);
}
macro_rules! bigs {
    ($($e:ident $t:ident $l:literal $k:literal),*) => {$(
        impl Cont<$e> for big::$t { const KIND: &'static str = $k; const FIXED: Option<usize> = Some($l); common!($e); fixed!($e); }
    )*};
}
bigs!(u8 B300 300 "array300", u8 B70k 70_003 "array70003", U8 S70k 70_003 "secret array70003", U64 W1k 1_025 "array1025", u128 V1k 1_025 "array1025");
impl<E: Mi> Cont<E> for big::G66k<E> { const KIND: &'static str = "generic66000"; const FIXED: Option<usize> = Some(66_000); common!(E); fixed!(E); }

fn large<E: Mi, T: Cont<E>>(cx: &mut Ctx, lens: &[usize]) {
    let lens: Vec<usize> = match T::FIXED { Some(l) => vec![l], None => lens.to_vec() };
    cx.cases(&format!("large {} {}", E::NAME, T::KIND), lens.len() as u64, |c| {
        let l = lens[c.idx as usize];
        c.input(format!("{} {} of {} elements", T::KIND, E::NAME, l));
        let v = run_of::<E>(0, l);
        let t = T::slice(&v);
        same("from_slice", t.iter(), l, elem::<E>)?;
        same("from_vec", T::vec(v.clone()).iter(), l, elem::<E>)?;
        let s = Seq::<E>::from_vec(v.clone());
        same("from_seq", T::seq(&s).iter(), l, elem::<E>)?;
        same("Seq::from_seq", Seq::<E>::from_seq(&t).iter(), l, elem::<E>)?;
        eq("len", &(t.len_(), SeqTrait::len(&t)), &(l, l))?;
        let pts: Vec<usize> = [0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 99_991].iter().cloned().chain([l - 2, l - 1]).filter(|p| *p < l).collect();
        let mut u = t.clone();
        for (j, &p) in pts.iter().enumerate() {
            let w = elem::<E>(p).raw();
            eq(&format!("[usize {}]", p), &t[p].raw(), &w)?;
            eq(&format!("[u32 {}]", p), &t.i32_(p as u32).raw(), &w)?;
            eq(&format!("[i32 {}]", p), &t.ii32_(p as i32).raw(), &w)?;
            if p < 256 { eq(&format!("[u8 {}]", p), &t.i8_(p as u8).raw(), &w)?; }
            let x = elem::<E>(p + 5_000_000);
            match j % 4 { 0 => u[p] = x, 1 => u.s32_(p as u32, x), 2 => u.si32_(p as i32, x), _ => if p < 256 { u.s8_(p as u8, x) } else { u[p] = x } }
            tick();
        }
        same("after writes", u.iter(), l, |i| if pts.contains(&i) { elem::<E>(i + 5_000_000) } else { elem::<E>(i) })?;
        for p in [l, l + 1, l + 256, l + 65536] {
            ensure(attempt(|| t[p].raw()).is_err(), || format!("[usize {}] of {} accepted", p, l))?;
            ensure(attempt(|| t.i32_(p as u32).raw()).is_err(), || format!("[u32 {}] of {} accepted", p, l))?;
            ensure(attempt(|| t.ii32_(p as i32).raw()).is_err(), || format!("[i32 {}] of {} accepted", p, l))?;
            ensure(attempt(|| { let mut u = t.clone(); u[p] = E::of(1) }).is_err(), || format!("[usize {}] = of {} accepted", p, l))?;
            ensure(attempt(|| { let mut u = t.clone(); u.s32_(p as u32, E::of(1)) }).is_err(), || format!("[u32 {}] = of {} accepted", p, l))?;
            ensure(attempt(|| { let mut u = t.clone(); u.si32_(p as i32, E::of(1)) }).is_err(), || format!("[i32 {}] = of {} accepted", p, l))?;
        }
        for (a, n) in [(0, l), (1, l - 1), (65_530, 12), (65_536, l.wrapping_sub(65_536)), (l - 1, 1), (l, 0), (l / 2, l / 2), (255, 3), (0, 257), (l - 3, 4), (1, l), (l + 1, 0)] {
            if n > 1 << 40 { continue; }
            let w: Option<()> = if a + n <= l { Some(()) } else { None };
            let see = |what: &str, r: Result<M, String>| -> Res {
                match (r, w) {
                    (Ok(g), Some(_)) => {
                        eq(&format!("{} {} {}: length", what, a, n), &g.len(), &n)?;
                        for (i, x) in g.iter().enumerate() { if *x != elem::<E>(a + i).raw() { return Err(format!("{} {} {}: element {}: got {:x} want {:x}", what, a, n, i, x, elem::<E>(a + i).raw())); } }
                        Ok(())
                    }
                    (Err(_), None) => Ok(()),
                    (Ok(_), None) => Err(format!("{} {} {} of {} accepted", what, a, n, l)),
                    (Err(p), Some(_)) => Err(format!("{} {} {} of {}: unexpected {}", what, a, n, l, p)),
                }
            };
            see("sub", attempt(|| t.sub_(a, n)))?;
            see("subr", attempt(|| t.subr_(a..a + n)))?;
            if a <= l { see("slice", attempt(|| t.all(a..a + n)))?; }
            see("Seq::from_sub", attempt(|| raws(&Seq::<E>::from_sub(&t, a, n).iter().cloned().collect::<Vec<_>>())))?;
            if T::FIXED.is_none() {
                see("from_sub", attempt(|| raws(&T::fsub(&s, a, n).iter().cloned().collect::<Vec<_>>())))?;
                see("from_sub_range", attempt(|| raws(&T::fsubr(&s, a..a + n).iter().cloned().collect::<Vec<_>>())))?;
            }
            tick();
        }
        let src = Seq::<E>::from_vec(run_of::<E>(1_000_000, l));
        for (so, si, n) in [(0, 0, l), (0, 1, l - 1), (1, 0, l - 1), (65_530, 3, 20), (254, 255, 4), (l - 1, l / 2, 1), (l, l, 0), (l - 3, 0, 4), (0, l - 3, 4)] {
            let fits = so + n <= l && si + n <= l;
            match (attempt(|| t.clone().update_sub(so, &src, si, n)), fits) {
                (Ok(g), true) => same(&format!("update_sub {} {} {}", so, si, n), g.iter(), l, |i| if i >= so && i < so + n { elem::<E>(1_000_000 + si + i - so) } else { elem::<E>(i) })?,
                (Err(_), false) => {}
                (Ok(_), false) => return Err(format!("update_sub {} {} {} of {} accepted", so, si, n, l)),
                (Err(p), true) => return Err(format!("update_sub {} {} {} of {}: unexpected {}", so, si, n, l, p)),
            }
            tick();
        }
        let part = Seq::<E>::from_vec(run_of::<E>(1_000_000, l / 2));
        same("update", t.clone().update(l - l / 2, &part).iter(), l, |i| if i >= l - l / 2 { elem::<E>(1_000_000 + i - (l - l / 2)) } else { elem::<E>(i) })?;
        same("update_start", t.clone().update_start(&part).iter(), l, |i| if i < l / 2 { elem::<E>(1_000_000 + i) } else { elem::<E>(i) })?;
        ensure(attempt(|| t.clone().update(l - l / 2 + 1, &part).dump()).is_err(), || "update past the end accepted".into())?;
        same("the source afterwards", t.iter(), l, elem::<E>)?;
        c.obs("special", "large");
        Ok(())
    });
}
fn large_chunks<E: Mi, T: Cont<E>>(cx: &mut Ctx, lens: &[usize]) {
    let lens: Vec<usize> = match T::FIXED { Some(l) => vec![l], None => lens.to_vec() };
    cx.cases(&format!("large chunks {} {}", E::NAME, T::KIND), lens.len() as u64, |c| {
        let l = lens[c.idx as usize];
        let t = T::vec(run_of::<E>(0, l));
        for k in [1, 3, 7, 255, 256, 1000, 4096, 65_535, 65_536, l - 1, l, l + 1, 2 * l] {
            c.input(format!("{} {} of {} elements, chunks of {}", T::KIND, E::NAME, l, k));
            let n = (l + k - 1) / k;
            eq("num_chunks", &t.nchunks(k), &n)?;
            let some: Vec<usize> = if n <= 20 { (0..n).collect() } else {
                let mut v: Vec<usize> = [0, 1, 127, 128, 255, 256, 32_767, 32_768, 65_535, 65_536, 65_535 / k, 65_536 / k, 65_536 / k + 1, n - 2, n - 1].iter().cloned().filter(|x| *x < n).collect();
                v.push(c.rng.below(n));
                v.sort(); v.dedup(); v
            };
            let mut r = T::new_(l);
            for &i in &some {
                let cl = k.min(l - k * i);
                let (gl, g) = t.chunk(k, i);
                eq(&format!("chunk {} length", i), &(gl, g.len()), &(cl, cl))?;
                for (j, x) in g.iter().enumerate() { if *x != elem::<E>(k * i + j).raw() { return Err(format!("chunk {} element {}: got {:x}", i, j, x)); } }
                if let Some(x) = t.clen(k, i) { eq("get_chunk_len", &x, &cl)?; }
                r = r.schunk(k, i, &Seq::<E>::from_vec(run_of::<E>(k * i, cl)));
                tick();
            }
            same("rebuilt", r.iter(), l, |i| if some.contains(&(i / k)) { elem::<E>(i) } else { E::of(0) })?;
            ensure(attempt(|| t.chunk(k, l / k + 1)).is_err(), || "chunk past the end accepted".into())?;
        }
        same("source", t.iter(), l, elem::<E>)?;
        c.obs("kind", "large");
        Ok(())
    });
}
/// Lengths past 2^24 and 2^32 (zeroed memory that is hardly touched).
fn huge(cx: &mut Ctx) {
    let lens = [(1usize << 24) + 1, (1 << 24) + 3, (1 << 25) + 1, (1 << 31) + 5, (1 << 32) + 9];
    macro_rules! go {
        ($q:ident) => {
            cx.cases(concat!("huge ", stringify!($q)), lens.len() as u64, |c| {
                let l = lens[c.idx as usize];
                c.input(format!("{}<u8> of {} elements", stringify!($q), l));
                let mut t = $q::<u8>::new(l);
                eq("len", &(t.len(), SeqTrait::len(&t)), &(l, l))?;
                for k in [1usize, 2, 3, 16, 64, 65_536, l / 2, l - 1, l] {
                    let n = (l + k - 1) / k;
                    eq(&format!("num_chunks({})", k), &t.num_chunks(k), &n)?;
                    if k > 65_536 { continue; }
                    let cl = l - k * (n - 1);
                    let mark = Seq::<u8>::from_vec((0..cl).map(|i| 1 + (i + k) as u8 / 2).collect());
                    t = t.set_chunk(k, n - 1, &mark);
                    let (gl, g) = t.get_chunk(k, n - 1);
                    eq("last chunk length", &(gl, g.len()), &(cl, cl))?;
                    eqb("last chunk", &g.iter().cloned().collect::<Vec<_>>(), &mark.iter().cloned().collect::<Vec<_>>())?;
                    let (gl, g) = t.get_chunk(k, n - 2);
                    eq("last but one length", &(gl, g.len()), &(k, k))?;
                    t = t.update_sub(l - cl, &Seq::<u8>::new(cl), 0, cl);
                    ensure(attempt(|| t.get_chunk(k, l / k + 1)).is_err(), || format!("chunk {} of {} accepted", l / k + 1, l))?;
                    tick();
                }
                let part = $q::<u8>::from_vec((1..=40).collect());
                for p in [l - 40, (1 << 24) - 50, (1 << 24) - 20, 1 << 24].iter().cloned().filter(|p| p + 40 <= l) {
                    t = t.update(p, &part);
                    eqb("update then sub", &$q::<u8>::sub(&t, p, 40).iter().cloned().collect::<Vec<_>>(), &(1..=40).collect::<Vec<u8>>())?;
                    eqb("subr", &t.subr(p + 1..p + 3).iter().cloned().collect::<Vec<_>>(), &[2, 3])?;
                    eqb("slice", &t[p..p + 5], &[1, 2, 3, 4, 5])?;
                    eq("[usize]", &t[p + 9], &10)?;
                    if p + 9 < 1 << 32 { eq("[u32]", &t[(p + 9) as u32], &10)?; }
                    if p + 9 < 1 << 31 { eq("[i32]", &t[(p + 9) as i32], &10)?; }
                    eqb("from_sub", &Seq::<u8>::from_sub(&t, p + 38, 2).iter().cloned().collect::<Vec<_>>(), &[39, 40])?;
                    t = t.update(p, &$q::<u8>::new(40));
                    tick();
                }
                // only what was written differs from zero: look where a truncated index would land
                for m in [8u32, 16, 24, 31, 32] {
                    for p in [l - 40, l - 1] { let q = p & ((1usize << m) - 1); eq("stray write", &t[q], &0)?; }
                }
                for (a, n) in [(l - 3, 4), (l, 1), (1, l)] {
                    ensure(attempt(|| $q::<u8>::sub(&t, a, n).len()).is_err(), || format!("sub {} {} of {} accepted", a, n, l))?;
                }
                c.obs("special", "huge");
                c.obs("kind", "huge");
                Ok(())
            });
        };
    }
    go!(Seq);
    go!(PublicSeq);
}
const LARGE: [usize; 6] = [256, 257, 65_535, 65_536, 65_537, 100_003];
fn c18(cx: &mut Ctx) {
    let n = cx.n(1, 1);
    large::<U8, Seq<U8>>(cx, &LARGE);
    large::<u8, Seq<u8>>(cx, &LARGE[3..]);
    large::<u8, PublicSeq<u8>>(cx, &LARGE);
    large::<U8, SecretSeq<U8>>(cx, &LARGE);
    large::<u64, PublicSeq<u64>>(cx, &LARGE[4..]);
    large::<U32, SecretSeq<U32>>(cx, &LARGE[4..]);
    large::<u8, big::B300>(cx, &[]);
    large::<u8, big::B70k>(cx, &[]);
    large::<U8, big::S70k>(cx, &[]);
    large::<U64, big::W1k>(cx, &[]);
    large::<u128, big::V1k>(cx, &[]);
    large::<U16, big::G66k<U16>>(cx, &[]);
    huge(cx);
    history::<u8, mu8::A1, mu8::A9, PublicSeq<u8>>(cx, 40 * n);
    history::<U8, msu8::A40, msu8::A9, SecretSeq<U8>>(cx, 40 * n);
    history::<u32, mu32::A9, mu32::A40, PublicSeq<u32>>(cx, 40 * n);
    history::<U32, msu32::A1, msu32::A9, SecretSeq<U32>>(cx, 40 * n);
    history::<u64, mu64::A1, mu64::A40, PublicSeq<u64>>(cx, 20 * n);
    history::<U64, msu64::A9, msu64::A40, SecretSeq<U64>>(cx, 20 * n);
    history::<u128, mu128::A9, mu128::A1, PublicSeq<u128>>(cx, 20 * n);
    history::<U128, msu128::A9, msu128::A40, SecretSeq<U128>>(cx, 20 * n);
    history::<u16, mu16::A40, mu16::A9, PublicSeq<u16>>(cx, 20 * n);
    history::<U16, msu16::A40, msu16::A1, SecretSeq<U16>>(cx, 20 * n);
    history::<i16, mi16::A9, mi16::A40, PublicSeq<i16>>(cx, 20 * n);
    history::<i64, mi64::A1, mi64::A9, PublicSeq<i64>>(cx, 20 * n);
    history::<I32, G16<I32>, G3<I32>, SecretSeq<I32>>(cx, 20 * n);
    history::<I128, G16<I128>, G3<I128>, SecretSeq<I128>>(cx, 20 * n);
    special(cx, 10 * n);
}

// ------------------------------------------------------------------ C19
/// Everything about one (container, chunk size).
fn chunks<E: Mi, T: Cont<E>>(c: &mut Case, t: &T, m: &M, k: usize) -> Res {
    let l = m.len();
    let want = (l + k - 1) / k;
    let n = t.nchunks(k);
    eq("num_chunks", &n, &want)?;
    let mut cat: M = vec![];
    let mut rebuilt = T::create(l);
    let mut model = vec![0u128; l];
    for i in 0..n {
        let w = &m[k * i..(k * (i + 1)).min(l)];
        let (cl, ch) = t.chunk(k, i);
        eq(&format!("chunk {} length", i), &(cl, ch.len()), &(w.len(), w.len()))?;
        eq(&format!("chunk {}", i), &ch, &w.to_vec())?;
        if i + 1 < n { eq("full chunk", &cl, &k)?; }
        if let Some(x) = t.clen(k, i) { eq("get_chunk_len", &x, &cl)?; }
        cat.extend_from_slice(&ch);
        // writing it elsewhere touches exactly that range
        model[k * i..k * i + cl].copy_from_slice(&ch);
        rebuilt = rebuilt.schunk(k, i, &Seq::<E>::from_vec(enc::<E>(&ch)));
        eq(&format!("after writing chunk {}", i), &rebuilt.dump(), &model)?;
    }
    eq("concatenation", &cat, m)?;
    eq("rebuilt", &rebuilt.dump(), m)?;
    // writing one chunk over existing data leaves the rest alone
    if n > 0 {
        let i = c.rng.below(n);
        let cl = k.min(l - k * i);
        let x = fresh(&mut c.rng, E::BITS, cl);
        let u = t.clone().schunk(k, i, &Seq::<E>::from_vec(enc::<E>(&x)));
        let mut w = m.clone();
        w[k * i..k * i + cl].copy_from_slice(&x);
        eq("set_chunk over data", &u.dump(), &w)?;
        for d in [cl + 1, cl.wrapping_sub(1)] {
            if d < usize::MAX {
                let y = fresh(&mut c.rng, E::BITS, d);
                let r = attempt(|| t.clone().schunk(k, i, &Seq::<E>::from_vec(enc::<E>(&y))).dump());
                ensure(r.is_err(), || format!("set_chunk accepted {} elements for a chunk of {}", d, cl))?;
            }
        }
    }
    // past the end
    // (indexes whose offset does not fit a usize included: it must not wrap around to a valid one)
    let wrapping = (usize::MAX / k).wrapping_add(1);
    let far = [l / k + 1 + c.rng.below(3), wrapping.wrapping_add(c.rng.below(l / k + 1)), usize::MAX, 1 << 63, 1 << 32][c.rng.below(9).saturating_sub(4)];
    for past in [l / k + 1 + c.rng.below(3), far] {
        if past.checked_mul(k).map(|o| o <= l).unwrap_or(false) { continue; }
        c.obs("index past the end", if past.checked_mul(k).is_none() { "offset overflows" } else if past > l / k + 3 { "far" } else { "near" });
        ensure(attempt(|| t.chunk(k, past)).is_err(), || format!("get_chunk({}, {}) past the end of {} accepted", k, past, l))?;
        ensure(attempt(|| t.clen(k, past).map(|_| ())).map(|x| x.is_none()).unwrap_or(true), || "get_chunk_len past the end accepted".into())?;
        let one = Seq::<E>::from_vec(enc::<E>(&fresh(&mut c.rng, E::BITS, 1)));
        ensure(attempt(|| t.clone().schunk(k, past, &one).dump()).is_err(), || "set_chunk past the end accepted".into())?;
    }
    eq("source unchanged", &t.dump(), m)?;
    c.obs("length", l);
    c.obs("last chunk", if l == 0 { "none" } else if l % k == 0 { "full" } else { "partial" });
    c.obs("chunk vs length", match k.cmp(&l) { Ordering::Less => "smaller", Ordering::Equal => "equal", Ordering::Greater => "larger" });
    c.obs("kind", T::KIND);
    tick();
    Ok(())
}
fn c19_fixed<E: Mi, T: Cont<E>>(cx: &mut Ctx, n: u64) {
    cx.cases(&format!("array {} {}", E::NAME, T::KIND), n.max(4), |c| {
        let (t, m) = make::<E, T>(&mut c.rng);
        for k in 1..=m.len() + 5 {
            c.input(format!("{} {} k={} {}", T::KIND, E::NAME, k, show(&m)));
            chunks::<E, T>(c, &t, &m, k)?;
        }
        for k in [97, 1 << 20] {
            c.input(format!("{} {} k={} {}", T::KIND, E::NAME, k, show(&m)));
            chunks::<E, T>(c, &t, &m, k)?;
        }
        Ok(())
    });
}
fn c19_var<E: Mi, T: Cont<E>>(cx: &mut Ctx, lens: u64, n: u64) {
    cx.cases(&format!("every length {} {}", E::NAME, T::KIND), lens, |c| {
        let l = c.idx as usize;
        let m = fresh(&mut c.rng, E::BITS, l);
        let t = T::slice(&enc::<E>(&m));
        for k in 1..=l + 3 {
            if k > 12 && k + 3 < l && c.rng.chance(2, 3) { continue; }
            c.input(format!("{} {} len={} k={} {}", T::KIND, E::NAME, l, k, show(&m)));
            chunks::<E, T>(c, &t, &m, k)?;
        }
        Ok(())
    });
    cx.cases(&format!("long {} {}", E::NAME, T::KIND), n, |c| {
        let k = *c.rng.pick(&[8usize, 16, 32, 64, 128, 136, 255, 1000]);
        let l = c.rng.len(k, 4 * k + 300);
        let m = fresh(&mut c.rng, E::BITS, l);
        c.input(format!("{} {} len={} k={} {}", T::KIND, E::NAME, l, k, show(&m)));
        chunks::<E, T>(c, &T::slice(&enc::<E>(&m)), &m, k)
    });
}
fn c19(cx: &mut Ctx) {
    let n = cx.n(1, 1);
    let lens = if cx.thorough { 150 } else { 50 };
    large_chunks::<U8, Seq<U8>>(cx, &LARGE);
    large_chunks::<u8, PublicSeq<u8>>(cx, &LARGE);
    large_chunks::<U8, SecretSeq<U8>>(cx, &LARGE[3..]);
    large_chunks::<u32, Seq<u32>>(cx, &LARGE[4..]);
    large_chunks::<u8, big::B300>(cx, &[]);
    large_chunks::<u8, big::B70k>(cx, &[]);
    large_chunks::<U8, big::S70k>(cx, &[]);
    large_chunks::<u128, big::V1k>(cx, &[]);
    large_chunks::<U16, big::G66k<U16>>(cx, &[]);
    huge(cx);
    c19_var::<U8, Seq<U8>>(cx, lens, 4 * n);
    c19_var::<u8, PublicSeq<u8>>(cx, lens, 4 * n);
    c19_var::<U8, SecretSeq<U8>>(cx, lens, 4 * n);
    c19_var::<u64, Seq<u64>>(cx, lens, 4 * n);
    c19_var::<U32, SecretSeq<U32>>(cx, lens / 2, 4 * n);
    c19_var::<i16, PublicSeq<i16>>(cx, lens / 2, 4 * n);
    c19_fixed::<u8, mu8::A1>(cx, n);
    c19_fixed::<u8, mu8::A9>(cx, n);
    c19_fixed::<U8, msu8::A40>(cx, n);
    c19_fixed::<U8, msu8::A1>(cx, n);
    c19_fixed::<U32, msu32::A9>(cx, n);
    c19_fixed::<u128, mu128::A40>(cx, n);
    c19_fixed::<i64, mi64::A40>(cx, n);
    c19_fixed::<U64, G16<U64>>(cx, n);
    c19_fixed::<I32, G3<I32>>(cx, n);
    c19_fixed::<u16, G16<u16>>(cx, n);
    // the word types of the library
    cx.cases("library word arrays", n, |c| {
        let m = c.rng.bytes(16);
        c.input(hex(&m));
        let t = U128Word::from_public_slice(&m);
        let k = 1 + c.rng.below(20);
        let nc = t.num_chunks(k);
        eq("num_chunks", &nc, &((16 + k - 1) / k))?;
        let mut cat: Vec<u8> = vec![];
        for i in 0..nc {
            let (l, ch) = t.get_chunk(k, i);
            eq("len", &l, &ch.len())?;
            cat.extend(ch.iter().map(|b| b.0));
        }
        eqb("concatenation", &cat, &m)
    });
}

// ------------------------------------------------------------------ C20
fn zip(a: &M, b: &M, bits: u32, f: impl Fn(u128, u128) -> u128) -> M {
    a.iter().zip(b.iter()).map(|(x, y)| f(*x, *y) & mask(bits)).collect()
}
fn related(r: &mut Gen, bits: u32, a: &M) -> M {
    match r.below(8) {
        0 => a.clone(),
        6 | 7 if a.len() > 1 => {
            // the same elements in another place, or two differences that cancel in a sum or fold
            let mut b = a.clone();
            let (i, j) = (r.below(b.len()), r.below(b.len()));
            let x = r.edge(bits);
            match r.below(5) {
                0 => b.swap(i, j),
                1 => b.reverse(),
                2 => b.rotate_left(i),
                3 => { b[i] ^= x; b[j] ^= x }
                _ => { b[i] = b[i].wrapping_add(x) & mask(bits); b[j] = b[j].wrapping_sub(x) & mask(bits) }
            }
            b
        }
        1 | 2 => {
            // one element differs
            let mut b = a.clone();
            if !b.is_empty() {
                let i = match r.below(3) { 0 => 0, 1 => b.len() - 1, _ => r.below(b.len()) };
                b[i] = (b[i] ^ (1u128 << r.below(bits as usize))) & mask(bits);
            }
            b
        }
        _ => a.iter().map(|x| { let (_, y) = pair(r, bits); if r.chance(1, 4) { *x } else { y } }).collect(),
    }
}
macro_rules! c20_array {
    (@ops $c:ident $e:ident $x:ident $y:ident $a:ident $b:ident $bits:ident) => {
        eq("+", &raws(&($x + $y).0), &zip(&$a, &$b, $bits, |p, q| p.wrapping_add(q)))?;
        eq("-", &raws(&($x - $y).0), &zip(&$a, &$b, $bits, |p, q| p.wrapping_sub(q)))?;
        eq("*", &raws(&($x * $y).0), &zip(&$a, &$b, $bits, |p, q| p.wrapping_mul(q)))?;
        eq("^", &raws(&($x ^ $y).0), &zip(&$a, &$b, $bits, |p, q| p ^ q))?;
        eq("wrap_add", &raws(&$x.wrap_add($y).0), &zip(&$a, &$b, $bits, |p, q| p.wrapping_add(q)))?;
        eq("wrap_sub", &raws(&$x.wrap_sub($y).0), &zip(&$a, &$b, $bits, |p, q| p.wrapping_sub(q)))?;
        eq("wrap_mul", &raws(&$x.wrap_mul($y).0), &zip(&$a, &$b, $bits, |p, q| p.wrapping_mul(q)))?;
        eq("vec_poly_add", &raws(&vec_poly_add($x, $y, <$e>::of(0)).0), &zip(&$a, &$b, $bits, |p, q| p.wrapping_add(q)))?;
        eq("vec_poly_sub", &raws(&vec_poly_sub($x, $y, <$e>::of(0)).0), &zip(&$a, &$b, $bits, |p, q| p.wrapping_sub(q)))?;
        eq("vec_poly_mul", &raws(&vec_poly_mul($x, $y, <$e>::of(0)).0), &zip(&$a, &$b, $bits, |p, q| p.wrapping_mul(q)))?;
        eq("operands", &(raws(&$x.0), raws(&$y.0)), &($a.clone(), $b.clone()))?;
        tick();
    };
    (public $cx:ident $n:ident; $($m:ident $e:ident $a:ident $l:literal),*) => {$(
        $cx.cases(concat!("array ", stringify!($e), " ", stringify!($a)), $n, |c| {
            let bits = <$e as Mi>::BITS;
            let a = fresh(&mut c.rng, bits, $l);
            let b = related(&mut c.rng, bits, &a);
            c.input(format!("{} a={} b={}", stringify!($e), show(&a), show(&b)));
            let (x, y) = ($m::$a::from_vec(enc::<$e>(&a)), $m::$a::from_vec(enc::<$e>(&b)));
            c20_array!(@ops c $e x y a b bits);
            decide("/", if b.contains(&0) { None } else { Some(zip(&a, &b, bits, |p, q| p / q)) }, attempt(|| raws(&(x / y).0)))?;
            let b1: M = b.iter().map(|q| if *q == 0 { 1 } else { *q }).collect();
            eq("/ without zeros", &raws(&(x / $m::$a::from_vec(enc::<$e>(&b1))).0), &zip(&a, &b1, bits, |p, q| p / q))?;
            let o = a.cmp(&b);
            eq("comparison", &(x == y, x != y, x.cmp(&y), x.partial_cmp(&y), x < y), &(o.is_eq(), o.is_ne(), o, Some(o), o.is_lt()))?;
            c20_mod::<$e, $m::$a>(c, $l, |v| $m::$a::from_vec(v))?;
            c.obs("type", concat!("array ", stringify!($e)));
            c.obs("equal", a == b);
            Ok(())
        });
    )*};
    (secret $cx:ident $n:ident; $($m:ident $e:ident $a:ident $l:literal),*) => {$(
        $cx.cases(concat!("array ", stringify!($e), " ", stringify!($a)), $n, |c| {
            let bits = <$e as Mi>::BITS;
            let a = fresh(&mut c.rng, bits, $l);
            let b = related(&mut c.rng, bits, &a);
            c.input(format!("{} a={} b={}", stringify!($e), show(&a), show(&b)));
            let (x, y) = ($m::$a::from_vec(enc::<$e>(&a)), $m::$a::from_vec(enc::<$e>(&b)));
            c20_array!(@ops c $e x y a b bits);
            eq("declassify_eq", &(x.declassify_eq(&y), y.declassify_eq(&x), x.declassify_eq(&x)), &(a == b, a == b, true))?;
            c20_mod::<$e, $m::$a>(c, $l, |v| $m::$a::from_vec(v))?;
            c.obs("type", concat!("array ", stringify!($e)));
            c.obs("equal", a == b);
            Ok(())
        });
    )*};
    (plain $cx:ident $n:ident; $($m:ident $e:ident $a:ident $l:literal),*) => {$(
        // signed public arrays only have equality
        $cx.cases(concat!("equality ", stringify!($e), " ", stringify!($a)), $n, |c| {
            let bits = <$e as Mi>::BITS;
            let a = fresh(&mut c.rng, bits, $l);
            let b = related(&mut c.rng, bits, &a);
            c.input(format!("{} a={} b={}", stringify!($e), show(&a), show(&b)));
            let (x, y) = ($m::$a::from_vec(enc::<$e>(&a)), $m::$a::from_vec(enc::<$e>(&b)));
            eq("==", &(x == y, x != y, x == x), &(a == b, a != b, true))?;
            c.obs("type", concat!("array ", stringify!($e)));
            c.obs("equal", a == b);
            Ok(())
        });
    )*};
}
/// Element-wise operations modulo n on reduced operands small enough for the element type.
fn c20_mod<E: Mi, T: SeqTrait<E> + Clone>(c: &mut Case, l: usize, mk: impl Fn(Vec<E>) -> T) -> Res {
    let half = mask(E::BITS / 2 - 1);
    let n = 1 + (c.rng.edge(E::BITS) & half);
    let a: M = (0..l).map(|_| c.rng.edge(E::BITS) % n).collect();
    let b: M = (0..l).map(|_| c.rng.edge(E::BITS) % n).collect();
    c.input(format!("{} n={:x} a={} b={}", E::NAME, n, show(&a), show(&b)));
    let (x, y) = (mk(enc::<E>(&a)), mk(enc::<E>(&b)));
    let get = |t: T| -> M { t.iter().map(|q| q.raw()).collect() };
    let f = |g: &dyn Fn(u128, u128) -> u128| -> M { a.iter().zip(&b).map(|(p, q)| g(*p, *q)).collect() };
    eq("vec_poly_add mod n", &get(vec_poly_add(x.clone(), y.clone(), E::of(n))), &f(&|p, q| (p + q) % n))?;
    eq("vec_poly_sub mod n", &get(vec_poly_sub(x.clone(), y.clone(), E::of(n))), &f(&|p, q| (p + n - q) % n))?;
    eq("vec_poly_mul mod n", &get(vec_poly_mul(x.clone(), y.clone(), E::of(n))), &f(&|p, q| (p * q) % n))?;
    // moduli of any size: what the element type itself does, index by index
    let top = if E::SIGNED { mask(E::BITS - 1) } else { mask(E::BITS) };
    let n = 1 + c.rng.edge(E::BITS) % top;
    let wide = c.rng.chance(1, 2);
    let draw = |c: &mut Case| -> M { (0..l).map(|_| { let x = c.rng.edge(E::BITS) & top; if wide { x % n } else { x.min(n) % n >> (E::BITS / 2) } }).collect() };
    let (a, b) = (draw(c), draw(c));
    c.input(format!("{} n={:x} a={} b={}", E::NAME, n, show(&a), show(&b)));
    let (xs, ys, m) = (enc::<E>(&a), enc::<E>(&b), E::of(n));
    let each = |g: &dyn Fn(E, E) -> E| -> Option<M> { xs.iter().zip(&ys).map(|(p, q)| attempt(|| g(*p, *q).raw()).ok()).collect() };
    let (x, y) = (mk(xs.clone()), mk(ys.clone()));
    decide("vec_poly_add mod large n", each(&|p, q| p.add_mod(q, m)), attempt(|| get(vec_poly_add(x.clone(), y.clone(), m))))?;
    decide("vec_poly_sub mod large n", each(&|p, q| p.sub_mod(q, m)), attempt(|| get(vec_poly_sub(x.clone(), y.clone(), m))))?;
    decide("vec_poly_mul mod large n", each(&|p, q| p.mul_mod(q, m)), attempt(|| get(vec_poly_mul(x.clone(), y.clone(), m))))?;
    c.obs("modulus", if n >> (E::BITS - 2) > 0 { "of full width" } else { "smaller" });
    tick();
    Ok(())
}
fn c20_pubseq<E: Mi + PublicInteger>(cx: &mut Ctx, n: u64) {
    cx.cases(&format!("PublicSeq {}", E::NAME), n, |c| {
        let bits = E::BITS;
        let l = c.rng.len(8, 60);
        let a = fresh(&mut c.rng, bits, l);
        let mut b = related(&mut c.rng, bits, &a);
        let d = c.rng.below(4);
        if d == 0 { b.push(c.rng.edge(bits)) } else if d == 1 && l > 0 { b.pop(); }
        c.input(format!("PublicSeq {} a={} b={}", E::NAME, show(&a), show(&b)));
        let same = a.len() == b.len();
        let x = || PublicSeq::<E>::from_vec(enc::<E>(&a));
        let y = || PublicSeq::<E>::from_vec(enc::<E>(&b));
        let g = |s: PublicSeq<E>| -> M { s.iter().map(|q| q.raw()).collect() };
        let w = |f: fn(u128, u128) -> u128| if same { Some(zip(&a, &b, bits, f)) } else { None };
        decide("+", w(|p, q| p.wrapping_add(q)), attempt(|| g(x() + y())))?;
        decide("-", w(|p, q| p.wrapping_sub(q)), attempt(|| g(x() - y())))?;
        decide("*", w(|p, q| p.wrapping_mul(q)), attempt(|| g(x() * y())))?;
        decide("^", w(|p, q| p ^ q), attempt(|| g(x() ^ y())))?;
        decide("wrap_add", w(|p, q| p.wrapping_add(q)), attempt(|| g(x().wrap_add(y()))))?;
        decide("wrap_sub", w(|p, q| p.wrapping_sub(q)), attempt(|| g(x().wrap_sub(y()))))?;
        decide("wrap_mul", w(|p, q| p.wrapping_mul(q)), attempt(|| g(x().wrap_mul(y()))))?;
        decide("vec_poly_add", w(|p, q| p.wrapping_add(q)), attempt(|| g(vec_poly_add(x(), y(), E::of(0)))))?;
        decide("vec_poly_sub", w(|p, q| p.wrapping_sub(q)), attempt(|| g(vec_poly_sub(x(), y(), E::of(0)))))?;
        decide("vec_poly_mul", w(|p, q| p.wrapping_mul(q)), attempt(|| g(vec_poly_mul(x(), y(), E::of(0)))))?;
        c20_mod::<E, PublicSeq<E>>(c, l, |v| PublicSeq::from_vec(v))?;
        c.obs("type", format!("PublicSeq {}", E::NAME));
        c.obs("lengths", if same { "same" } else { "different" });
        Ok(())
    });
}
fn c20_seq<E: Mi>(cx: &mut Ctx, n: u64) {
    cx.cases(&format!("Seq {}", E::NAME), n, |c| {
        let bits = E::BITS;
        let l = c.rng.len(8, 60);
        let a = fresh(&mut c.rng, bits, l);
        let mut b = related(&mut c.rng, bits, &a);
        let d = c.rng.below(4);
        if d == 0 { b.push(c.rng.edge(bits)) } else if d == 1 && l > 0 { b.pop(); }
        c.input(format!("Seq {} a={} b={}", E::NAME, show(&a), show(&b)));
        let same = a.len() == b.len();
        let x = || Seq::<E>::from_vec(enc::<E>(&a));
        let y = || Seq::<E>::from_vec(enc::<E>(&b));
        let g = |s: Seq<E>| -> M { s.iter().map(|q| q.raw()).collect() };
        let w = |f: fn(u128, u128) -> u128| if same { Some(zip(&a, &b, bits, f)) } else { None };
        decide("vec_poly_add", w(|p, q| p.wrapping_add(q)), attempt(|| g(vec_poly_add(x(), y(), E::of(0)))))?;
        decide("vec_poly_sub", w(|p, q| p.wrapping_sub(q)), attempt(|| g(vec_poly_sub(x(), y(), E::of(0)))))?;
        decide("vec_poly_mul", w(|p, q| p.wrapping_mul(q)), attempt(|| g(vec_poly_mul(x(), y(), E::of(0)))))?;
        c20_mod::<E, Seq<E>>(c, l, |v| Seq::from_vec(v))?;
        c.obs("type", format!("Seq {}", E::NAME));
        c.obs("lengths", if same { "same" } else { "different" });
        Ok(())
    });
}
fn c20(cx: &mut Ctx) {
    let n = cx.n(40, 40);
    c20_array!(public cx n; mu8 u8 A1 1, mu8 u8 A40 40, mu16 u16 A9 9, mu32 u32 A9 9, mu64 u64 A9 9, mu128 u128 A9 9);
    c20_array!(secret cx n; msu8 U8 A1 1, msu8 U8 A40 40, msu16 U16 A9 9, msu32 U32 A9 9, msu64 U64 A9 9, msu128 U128 A9 9);
    c20_array!(plain cx n; mi16 i16 A9 9, mi64 i64 A40 40);
    c20_pubseq::<u8>(cx, n);
    c20_pubseq::<u16>(cx, n);
    c20_pubseq::<u32>(cx, n);
    c20_pubseq::<u64>(cx, n);
    c20_pubseq::<u128>(cx, n);
    c20_pubseq::<i8>(cx, n);
    c20_pubseq::<i16>(cx, n);
    c20_pubseq::<i32>(cx, n);
    c20_pubseq::<i64>(cx, n);
    c20_pubseq::<i128>(cx, n);
    c20_seq::<u8>(cx, n);
    c20_seq::<U8>(cx, n);
    c20_seq::<U32>(cx, n);
    c20_seq::<U64>(cx, n);
    c20_seq::<U128>(cx, n);
    c20_seq::<i32>(cx, n);
    // ---- long operands
    macro_rules! long_seq {
        ($($q:ident $e:ident $l:literal),*) => {$(
            cx.cases(concat!("long ", stringify!($q), " ", stringify!($e), " ", stringify!($l)), 2, |c| {
                let bits = <$e as Mi>::BITS;
                let a = fresh(&mut c.rng, bits, $l);
                let b = fresh(&mut c.rng, bits, $l);
                c.input(format!("{} of {} {}", stringify!($q), $l, stringify!($e)));
                let x = || $q::<$e>::from_vec(enc::<$e>(&a));
                let y = || $q::<$e>::from_vec(enc::<$e>(&b));
                let g = |s: $q<$e>| -> M { s.iter().map(|q| q.raw()).collect() };
                eq("vec_poly_add", &g(vec_poly_add(x(), y(), <$e as Mi>::of(0))), &zip(&a, &b, bits, |p, q| p.wrapping_add(q)))?;
                eq("vec_poly_sub", &g(vec_poly_sub(x(), y(), <$e as Mi>::of(0))), &zip(&a, &b, bits, |p, q| p.wrapping_sub(q)))?;
                eq("vec_poly_mul", &g(vec_poly_mul(x(), y(), <$e as Mi>::of(0))), &zip(&a, &b, bits, |p, q| p.wrapping_mul(q)))?;
                c20_mod::<$e, $q<$e>>(c, $l, |v| $q::from_vec(v))
            });
        )*};
    }
    long_seq!(Seq U8 300, Seq U32 70_003, PublicSeq u8 70_003, PublicSeq u32 300, Seq u64 300);
    macro_rules! long_pub {
        ($($e:ident $l:literal),*) => {$(
            cx.cases(concat!("long operators ", stringify!($e), " ", stringify!($l)), 2, |c| {
                let bits = <$e as Mi>::BITS;
                let (a, b) = (fresh(&mut c.rng, bits, $l), fresh(&mut c.rng, bits, $l));
                c.input(format!("PublicSeq of {} {}", $l, stringify!($e)));
                let x = || PublicSeq::<$e>::from_vec(enc::<$e>(&a));
                let y = || PublicSeq::<$e>::from_vec(enc::<$e>(&b));
                let g = |s: PublicSeq<$e>| -> M { s.iter().map(|q| q.raw()).collect() };
                eq("+", &g(x() + y()), &zip(&a, &b, bits, |p, q| p.wrapping_add(q)))?;
                eq("-", &g(x() - y()), &zip(&a, &b, bits, |p, q| p.wrapping_sub(q)))?;
                eq("*", &g(x() * y()), &zip(&a, &b, bits, |p, q| p.wrapping_mul(q)))?;
                eq("^", &g(x() ^ y()), &zip(&a, &b, bits, |p, q| p ^ q))?;
                tick();
                Ok(())
            });
        )*};
    }
    long_pub!(u8 300, u8 70_003, u64 70_003, i32 300);
    macro_rules! long_array {
        ($($kind:ident $a:ident $e:ident $l:literal),*) => {$(
            cx.cases(concat!("long array ", stringify!($e), " ", stringify!($l)), 4, |c| {
                let bits = <$e as Mi>::BITS;
                let (a, mut b) = (fresh(&mut c.rng, bits, $l), fresh(&mut c.rng, bits, $l));
                c.input(format!("array of {} {}", $l, stringify!($e)));
                let (x, y) = (big::$a::from_vec(enc::<$e>(&a)), big::$a::from_vec(enc::<$e>(&b)));
                c20_array!(@ops c $e x y a b bits);
                long_array!(@$kind c $a $e $l a b x bits);
                let _ = &mut b;
                Ok(())
            });
        )*};
        // equality and order: one element differs, two elements differ by the same amount, none differs
        (@public $c:ident $a:ident $e:ident $l:literal $x:ident $b:ident $t:ident $bits:ident) => {
            for _ in 0..12 {
                let mut b = $x.clone();
                let d = 1u128 << $c.rng.below($bits as usize);
                let (i, j) = (*$c.rng.pick(&[0, $l - 1, 255, 256, $l / 2]), $c.rng.below($l));
                if $c.rng.chance(4, 5) { b[i] ^= d; }
                if $c.rng.chance(1, 2) && j != i { b[j] ^= d; }
                let y = big::$a::from_vec(enc::<$e>(&b));
                let o = $x.cmp(&b);
                eq("comparison", &($t == y, $t != y, $t.cmp(&y), $t.partial_cmp(&y), $t < y), &(o.is_eq(), o.is_ne(), o, Some(o), o.is_lt()))?;
            }
        };
        (@secret $c:ident $a:ident $e:ident $l:literal $x:ident $b:ident $t:ident $bits:ident) => {
            for _ in 0..12 {
                let mut b = $x.clone();
                let d = 1u128 << $c.rng.below($bits as usize);
                let (i, j) = (*$c.rng.pick(&[0, $l - 1, 255, 256, $l / 2]), $c.rng.below($l));
                if $c.rng.chance(4, 5) { b[i] ^= d; }
                if $c.rng.chance(1, 2) && j != i { b[j] ^= d; }
                let y = big::$a::from_vec(enc::<$e>(&b));
                eq("declassify_eq", &($t.declassify_eq(&y), y.declassify_eq(&$t)), &($x == b, $x == b))?;
            }
        };
    }
    long_array!(public B300 u8 300, public B70k u8 70_003, secret S70k U8 70_003, secret W1k U64 1_025, public V1k u128 1_025);
    cx.cases("long Seq<U8> equality", 12, |c| {
        let l = [255usize, 256, 257, 65_536, 70_003, 300][c.idx as usize % 6];
        let a = fresh(&mut c.rng, 8, l);
        for _ in 0..16 {
            let mut b = a.clone();
            let d = 1u128 << c.rng.below(8);
            let (i, j) = (*c.rng.pick(&[0, l - 1, 127, 254, l / 2]), c.rng.below(l));
            if c.rng.chance(4, 5) { b[i] ^= d; }
            match c.rng.below(6) { 0 if j != i => b[j] ^= d, 1 => b.push(0), 2 => { b.pop(); } 3 => b.extend(a.iter()), _ => {} }
            c.input(format!("{} and {} elements", a.len(), b.len()));
            let (x, y) = (Seq::<U8>::from_vec(enc::<U8>(&a)), Seq::<U8>::from_vec(enc::<U8>(&b)));
            eq("==", &(x == y, y == x, x != y), &(a == b, a == b, a != b))?;
            tick();
        }
        Ok(())
    });
    // the assertions users write: they pass exactly when lengths and contents are equal
    macro_rules! asserting {
        ($($e:ident),*) => {$(
            cx.cases(concat!("assertions ", stringify!($e)), n, |c| {
                let bits = <$e as Mi>::BITS;
                let l = c.rng.len(8, 60);
                let a = fresh(&mut c.rng, bits, l);
                let mut b = related(&mut c.rng, bits, &a);
                match c.rng.below(6) { 0 => b.push(0), 1 => b.push(c.rng.edge(bits)), 2 => { b.pop(); } _ => {} }
                c.input(format!("{} a={} b={}", stringify!($e), show(&a), show(&b)));
                let (x, y) = (Seq::<$e>::from_vec(enc::<$e>(&a)), Seq::<$e>::from_vec(enc::<$e>(&b)));
                let want = if a == b { Some(()) } else { None };
                decide("assert_secret_array_eq", want, attempt(|| { assert_secret_array_eq!(x, y, $e); }))?;
                decide("assert_secret_array_eq, swapped", want, attempt(|| { assert_secret_array_eq!(y, x, $e); }))?;
                c.obs("assertion", if a == b { "equal" } else if a.len() == b.len() { "elements differ" } else { "lengths differ" });
                tick();
                Ok(())
            });
        )*};
    }
    asserting!(U8, U16, U32, U64, U128);
    cx.cases("assertions on byte arrays and literals", 4 * n, |c| {
        let a = fresh(&mut c.rng, 8, 40);
        let b = related(&mut c.rng, 8, &a);
        c.input(format!("a={} b={}", show(&a), show(&b)));
        let (x, y) = (msu8::A40::from_vec(enc::<U8>(&a)), Seq::<U8>::from_vec(enc::<U8>(&b)));
        decide("assert_bytes_eq", if a == b { Some(()) } else { None }, attempt(|| { assert_bytes_eq!(x, y); }))?;
        decide("assert_bytes_eq, swapped", if a == b { Some(()) } else { None }, attempt(|| { assert_bytes_eq!(y, x); }))?;
        let e = |i: usize, bits: u32| a[i] * 0x0101_0101_0101_0101_0101_0101_0101_0101u128 & mask(bits);
        let l8: Vec<u128> = secret_bytes!([a[0] as u8, a[1] as u8, a[2] as u8]).iter().map(|q: &U8| q.raw()).collect();
        eq("secret_bytes", &l8, &a[..3].to_vec())?;
        let l32: Vec<u128> = secret_array!(U32, [e(0, 32) as u32, e(1, 32) as u32 ^ 1]).iter().map(|q: &U32| q.raw()).collect();
        eq("secret_array U32", &l32, &vec![e(0, 32), e(1, 32) ^ 1])?;
        let l128: Vec<u128> = secret_array!(U128, [e(0, 128), e(1, 128) ^ 1, !e(2, 128)]).iter().map(|q: &U128| q.raw()).collect();
        eq("secret_array U128", &l128, &vec![e(0, 128), e(1, 128) ^ 1, !e(2, 128)])?;
        tick();
        Ok(())
    });
    cx.cases("Seq<U8> equality", 4 * n, |c| {
        let l = c.rng.below(40);
        let a = fresh(&mut c.rng, 8, l);
        let mut b = related(&mut c.rng, 8, &a);
        // equal prefixes of different lengths, also with zero padding
        match c.rng.below(5) { 0 => b.push(0), 1 => { b.pop(); } 2 => b.extend(a.iter()), _ => {} }
        c.input(format!("a={} b={}", show(&a), show(&b)));
        let (x, y) = (Seq::<U8>::from_vec(enc::<U8>(&a)), Seq::<U8>::from_vec(enc::<U8>(&b)));
        eq("==", &(x == y, y == x, x != y, x == x.clone()), &(a == b, a == b, a != b, true))?;
        c.obs("equal", format!("Seq {}", a == b));
        c.obs("type", "Seq equality");
        Ok(())
    });
}

// ------------------------------------------------------------------ C21
fn spell(r: &mut Gen, b: &[u8]) -> String {
    let s = hex(b);
    match r.below(3) {
        0 => s,
        1 => s.to_uppercase(),
        _ => s.chars().map(|ch| if r.chance(1, 2) { ch.to_ascii_uppercase() } else { ch }).collect(),
    }
}
const BADCH: &[&str] = &["g", "G", "z", " ", "+", "-", "x", ":", "@", "`", "/", "_", "\n", "\0", "é", "０", "\u{1F600}", "."];
/// A string that is not the hex encoding of anything.
fn malform(r: &mut Gen, b: &[u8]) -> (String, &'static str) {
    let s = spell(r, b);
    match r.below(3) {
        0 => {
            // odd length
            let mut s = s;
            if s.is_empty() || r.chance(1, 2) { let i = r.below(s.len() + 1); s.insert(i, '7') } else { let i = r.below(s.len()); s.remove(i); }
            (s, "odd length")
        }
        1 if !s.is_empty() => {
            let i = r.below(s.len());
            let ch = *r.pick(BADCH);
            (format!("{}{}{}", &s[..i], ch, &s[i + 1..]), "bad character")
        }
        _ => {
            let i = if s.is_empty() { 0 } else { 2 * r.below(s.len() / 2 + 1) };
            let p = *r.pick(&["+1", "-1", "0x", "  ", " 1", "1 ", "+f", "g0", "é"]);
            (format!("{}{}{}", &s[..i], p, &s[i..]), "bad pair")
        }
    }
}
fn c21(cx: &mut Ctx) {
    let n = cx.n(60, 60);
    macro_rules! arrays {
        ($($m:ident $a:ident $l:literal),*) => {$(
            cx.cases(concat!("array ", stringify!($m), " ", stringify!($a)), n, |c| {
                let b = c.rng.bytes($l);
                let s = spell(&mut c.rng, &b);
                c.input(format!("{} {}", stringify!($m), s));
                let x = $m::$a::from_hex(&s);
                eq("from_hex", &raws(&x.0), &b.iter().map(|q| *q as u128).collect::<M>())?;
                eq("to_hex", &x.to_hex(), &hex(&b))?;
                eq("to_hex of from_vec", &$m::$a::from_vec(enc(&b.iter().map(|q| *q as u128).collect::<M>())).to_hex(), &hex(&b))?;
                eq("from_hex . to_hex", &raws(&$m::$a::from_hex(&x.to_hex()).0), &raws(&x.0))?;
                c.obs("type", concat!(stringify!($m), stringify!($a)));
                tick();
                let (w, why) = malform(&mut c.rng, &b);
                c.input(format!("{} malformed {:?}", stringify!($m), w));
                must_panic(why, || $m::$a::from_hex(&w).to_hex())?;
                c.obs("malformed", why);
                tick();
                // the wrong number of bytes
                let k = c.rng.below($l + 4);
                if k != $l {
                    let w = hex(&c.rng.bytes(k));
                    c.input(format!("{} wrong length {:?}", stringify!($m), w));
                    must_panic("wrong length", || $m::$a::from_hex(&w).to_hex())?;
                    c.obs("malformed", "wrong length");
                }
                Ok(())
            });
        )*};
    }
    arrays!(mu8 A1 1, mu8 A9 9, mu8 A40 40, msu8 A1 1, msu8 A9 9, msu8 A40 40);
    macro_rules! seqs {
        ($($q:ident $e:ident),*) => {$(
            cx.cases(stringify!($q), n * 2, |c| {
                let l = c.rng.len(16, 120);
                let b = c.rng.bytes(l);
                let s = spell(&mut c.rng, &b);
                c.input(format!("{} {}", stringify!($q), s));
                let want: M = b.iter().map(|q| *q as u128).collect();
                let x = $q::<$e>::from_hex(&s);
                eq("from_hex", &raws(&x.iter().cloned().collect::<Vec<_>>()), &want)?;
                eq("from_string", &raws(&$q::<$e>::from_string(s.clone()).iter().cloned().collect::<Vec<_>>()), &want)?;
                eq("to_hex", &x.to_hex(), &hex(&b))?;
                c.obs("type", stringify!($q));
                tick();
                let (w, why) = malform(&mut c.rng, &b);
                c.input(format!("{} malformed {:?}", stringify!($q), w));
                must_panic(why, || $q::<$e>::from_hex(&w).to_hex())?;
                must_panic(why, || $q::<$e>::from_string(w.clone()).to_hex())?;
                c.obs("malformed", why);
                Ok(())
            });
            // every single byte value in every letter case; every pair of ASCII characters
            cx.cases(concat!("all pairs ", stringify!($q)), 128, |c| {
                for lo in 0..128u8 {
                    let s = format!("{}{}", c.idx as u8 as char, lo as char);
                    let (h, l) = ((c.idx as u8 as char).to_digit(16), (lo as char).to_digit(16));
                    c.input(format!("{} {:?}", stringify!($q), s));
                    decide("from_hex", h.and_then(|h| l.map(|l| vec![(h * 16 + l) as u128])), attempt(|| raws(&$q::<$e>::from_hex(&s).iter().cloned().collect::<Vec<_>>())))?;
                    tick();
                }
                Ok(())
            });
        )*};
    }
    seqs!(Seq U8, PublicSeq u8);
    cx.cases("all pairs arrays", 128, |c| {
        for lo in 0..128u8 {
            let s = format!("{}{}", c.idx as u8 as char, lo as char);
            let w = (c.idx as u8 as char).to_digit(16).and_then(|h| (lo as char).to_digit(16).map(|l| (h * 16 + l) as u8));
            c.input(format!("array {:?}", s));
            decide("public", w, attempt(|| mu8::A1::from_hex(&s)[0usize]))?;
            decide("secret", w, attempt(|| msu8::A1::from_hex(&s)[0usize].0))?;
            tick();
        }
        Ok(())
    });
    // long strings
    cx.cases("long", 6, |c| {
        let l = [127usize, 128, 255, 256, 70_003, 1 << 20][c.idx as usize];
        let b = c.rng.bytes(l);
        let s = spell(&mut c.rng, &b);
        c.input(format!("{} hex digits", s.len()));
        let x = Seq::<U8>::from_hex(&s);
        eqb("Seq from_hex", &x.iter().map(|y| y.0).collect::<Vec<_>>(), &b)?;
        eq("Seq to_hex", &x.to_hex(), &hex(&b))?;
        eqb("Seq from_string", &Seq::<U8>::from_string(s.clone()).iter().map(|y| y.0).collect::<Vec<_>>(), &b)?;
        let x = PublicSeq::<u8>::from_hex(&s);
        eqb("PublicSeq from_hex", &x.iter().cloned().collect::<Vec<_>>(), &b)?;
        eq("PublicSeq to_hex", &x.to_hex(), &hex(&b))?;
        eqb("PublicSeq from_string", &PublicSeq::<u8>::from_string(s.clone()).iter().cloned().collect::<Vec<_>>(), &b)?;
        eqb("hex_string_to_bytes", &hex_string_to_bytes(&s), &b)?;
        // one bad character anywhere
        for i in [s.len() - 1, s.len() - 2, s.len() / 2, 0, c.rng.below(s.len())] {
            let w = format!("{}{}{}", &s[..i], *c.rng.pick(&["g", "+", "-", " ", "é"]), &s[i + 1..]);
            must_panic("bad character", || Seq::<U8>::from_hex(&w).to_hex())?;
            must_panic("bad character", || PublicSeq::<u8>::from_hex(&w).to_hex())?;
            tick();
        }
        must_panic("odd length", || Seq::<U8>::from_hex(&s[1..]).to_hex())
    });
    macro_rules! long_arrays {
        ($($a:ident $l:literal),*) => {$(
            cx.cases(concat!("long array ", stringify!($a)), 2, |c| {
                let b = c.rng.bytes($l);
                let s = spell(&mut c.rng, &b);
                c.input(format!("{} {} hex digits", stringify!($a), s.len()));
                let x = big::$a::from_hex(&s);
                eq("from_hex", &raws(&x.0), &b.iter().map(|q| *q as u128).collect::<M>())?;
                eq("to_hex", &x.to_hex(), &hex(&b))?;
                must_panic("two digits short", || big::$a::from_hex(&s[2..]).to_hex())?;
                must_panic("two digits more", || big::$a::from_hex(&format!("00{}", s)).to_hex())
            });
        )*};
    }
    long_arrays!(B300 300, B70k 70_003, S70k 70_003);
    // the helper used by test-vector code
    cx.cases("hex_string_to_bytes", n * 2, |c| {
        let l = c.rng.len(16, 120);
        let b = c.rng.bytes(l);
        let s = spell(&mut c.rng, &b);
        c.input(s.clone());
        eqb("hex_string_to_bytes", &hex_string_to_bytes(&s), &b)?;
        let (w, why) = malform(&mut c.rng, &b);
        must_panic(why, || hex_string_to_bytes(&w))
    });
}

// ------------------------------------------------------------------ C31
/// Monitors over recorded draws, each a bit string of `bits` bits made of `elem`-bit elements.
fn judge(c: &mut Case, name: &str, draws: &[M], l: usize, elem: u32) -> Res {
    c.input(format!("{}: {} draws of {} x {} bits", name, draws.len(), l, elem));
    let n = draws.len();
    let mut ones = vec![0u64; l * elem as usize];
    let mut same_next = vec![0u64; l];
    let mut seen = std::collections::HashSet::new();
    let mut words = std::collections::HashMap::new();
    let mut dup_words = 0u64;
    for d in draws {
        eq(&format!("{}: number of elements", name), &d.len(), &l)?;
        for (i, x) in d.iter().enumerate() {
            ensure(*x & !mask(elem) == 0, || format!("{}: element {:x} too wide", name, x))?;
            for b in 0..elem { ones[i * elem as usize + b as usize] += (x >> b & 1) as u64; }
            if i + 1 < l && *x == d[i + 1] { same_next[i] += 1; }
            if elem >= 64 { if words.insert(*x, ()).is_some() { dup_words += 1; } }
        }
        if l as u32 * elem >= 96 {
            ensure(seen.insert(d.clone()), || format!("{}: the same draw came twice", name))?;
        }
    }
    // 2^-96 * n^2: never by chance.  64-bit elements: n*l well below 2^24, so at most a stray pair.
    ensure(dup_words <= 1, || format!("{}: {} repeated {}-bit elements", name, dup_words, elem))?;
    // Every bit position within 10 standard deviations of one half.
    let dev = 10.0 * (n as f64 / 4.0).sqrt();
    for (i, o) in ones.iter().enumerate() {
        ensure((*o as f64 - n as f64 / 2.0).abs() <= dev && *o > 0 && (*o as usize) < n, || format!("{}: bit {} was set in {} of {} draws", name, i, o, n))?;
    }
    // Neighbouring elements agree no more often than chance allows.
    let p = 0.5f64.powi(elem.min(60) as i32);
    for (i, s) in same_next.iter().enumerate() {
        let lim = n as f64 * p + 12.0 * (n as f64 * p).sqrt() + 20.0;
        ensure(*s as f64 <= lim, || format!("{}: elements {} and {} agreed in {} of {} draws", name, i, i + 1, s, n))?;
    }
    c.obs("kind", name);
    c.obs("bit positions", format!("{}: {}", name, ones.len()));
    c.inner(n as u64);
    Ok(())
}
mod rp {
    #![allow(unused)]
    use hacspec::prelude::*;
    poly!(Small, i128, 12, 3i128, &[(0, -1), (1, -1), (12, 1)]);
    poly!(Big, i128, 30, 1i128 << 61, &[(0, -1), (1, -1), (30, 1)]);
    poly!(Un, u64, 9, 257u64, &[(0, 1), (9, 1)]);
    macro_rules! draws { ($n:ident) => {{ let p = $n::random(); (p.poly.to_vec().iter().map(|x| *x as i128).collect::<Vec<_>>(), p.irr.to_vec().iter().map(|x| *x as i128).collect::<Vec<_>>(), p.n as i128) }}; }
    pub fn small() -> (Vec<i128>, Vec<i128>, i128) { draws!(Small) }
    pub fn bigp() -> (Vec<i128>, Vec<i128>, i128) { draws!(Big) }
    pub fn un() -> (Vec<i128>, Vec<i128>, i128) { draws!(Un) }
}
/// One draw from every random source of the library, for comparison between processes.
fn draw_all() -> Vec<(&'static str, String)> {
    fn h(v: M) -> String { v.iter().map(|x| format!("{:x}.", x)).collect() }
    vec![
        ("u8 array", h(raws(&mu8::A40::random().0))), ("u8 vec", h(raws(&mu8::A40::get_random_vec(40)))),
        ("u16 array", h(raws(&mu16::A9::random().0))), ("u16 vec", h(raws(&mu16::A9::get_random_vec(40)))),
        ("u32 array", h(raws(&mu32::A9::random().0))), ("u32 vec", h(raws(&mu32::A9::get_random_vec(40)))),
        ("u64 array", h(raws(&mu64::A9::random().0))), ("u64 vec", h(raws(&mu64::A9::get_random_vec(40)))),
        ("u128 array", h(raws(&mu128::A1::random().0))), ("u128 vec", h(raws(&mu128::A1::get_random_vec(40)))),
        ("i16 array", h(raws(&mi16::A40::random().0))), ("i64 array", h(raws(&mi64::A9::random().0))),
        ("U8 array", h(raws(&msu8::A40::random().0))), ("U8 vec", h(raws(&msu8::A40::get_random_vec(40)))),
        ("U16 array", h(raws(&msu16::A9::random().0))), ("U16 vec", h(raws(&msu16::A9::get_random_vec(40)))),
        ("U32 array", h(raws(&msu32::A40::random().0))), ("U32 vec", h(raws(&msu32::A40::get_random_vec(40)))),
        ("U64 array", h(raws(&msu64::A9::random().0))), ("U64 vec", h(raws(&msu64::A9::get_random_vec(40)))),
        ("U128 array", h(raws(&msu128::A9::random().0))), ("U128 vec", h(raws(&msu128::A9::get_random_vec(40)))),
        ("Seq", h(raws(&Seq::<U8>::random(40).iter().cloned().collect::<Vec<_>>()))),
        ("both secret", h(raws(&both::S11::random().0))), ("both public", h(raws(&both::Pb20::random().0))),
        ("poly", format!("{:?}", rp::bigp().0)),
    ]
}
/// A process that sees the same clock, process id, thread id and address layout every time.
fn shim(dir: &std::path::Path) -> Result<std::path::PathBuf, String> {
    let src = dir.join("frozen.c");
    let so = dir.join("frozen.so");
    std::fs::write(&src, b"#include <time.h>\n#include <sys/time.h>\n#include <sys/types.h>\n\
pid_t getpid(void){return 4242;}\npid_t getppid(void){return 4241;}\npid_t gettid(void){return 4242;}\n\
time_t time(time_t*t){if(t)*t=1700000000;return 1700000000;}\n\
int clock_gettime(clockid_t c,struct timespec*t){(void)c;t->tv_sec=1700000000;t->tv_nsec=123456789;return 0;}\n\
int gettimeofday(struct timeval*t,void*z){(void)z;if(t){t->tv_sec=1700000000;t->tv_usec=123456;}return 0;}\n").map_err(|e| e.to_string())?;
    let st = std::process::Command::new("cc").args(["-shared", "-fPIC", "-O1", "-o"]).arg(&so).arg(&src).output().map_err(|e| e.to_string())?;
    if st.status.success() { Ok(so) } else { Err(String::from_utf8_lossy(&st.stderr).into()) }
}
extern "C" { fn personality(p: std::os::raw::c_ulong) -> std::os::raw::c_int; }
fn draw_process(pre: Option<&std::path::Path>) -> Result<Vec<(String, String)>, String> {
    use std::os::unix::process::CommandExt;
    let mut k = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?);
    k.env("HV_DRAW", "1");
    if let Some(so) = pre {
        k.env_clear().env("HV_DRAW", "1").env("LD_PRELOAD", so);
        unsafe { k.pre_exec(|| { personality(0x0040000); Ok(()) }); }
    }
    let o = k.output().map_err(|e| e.to_string())?;
    let v: Vec<(String, String)> = String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| l.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
    ensure(o.status.success() && v.len() == 27, || format!("draw process: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr)))?;
    Ok(v)
}
/// Monitors for one long draw of 8-bit elements.
fn judge_long(c: &mut Case, name: &str, d: &[u8], l: usize) -> Res {
    c.input(format!("{} of {} bytes", name, l));
    eq(&format!("{}: number of elements", name), &d.len(), &l)?;
    // no 12 consecutive bytes come twice
    let mut w: Vec<(u128, usize)> = d.windows(12).enumerate().map(|(i, w)| (w.iter().fold(0u128, |a, b| a << 8 | *b as u128), i)).collect();
    w.sort_unstable();
    for p in w.windows(2) {
        ensure(p[0].0 != p[1].0, || format!("{}: the 12 bytes at {} come again at {}", name, p[0].1.min(p[1].1), p[0].1.max(p[1].1)))?;
    }
    // every bit, every value, every difference of neighbours about as often as chance has it (8 deviations)
    let n = l as f64;
    for b in 0..8 {
        let o = d.iter().filter(|x| **x >> b & 1 == 1).count() as f64;
        ensure((o - n / 2.0).abs() < 8.0 * (n / 4.0).sqrt(), || format!("{}: bit {} set in {} of {} bytes", name, b, o, l))?;
    }
    let freq = |it: &mut dyn Iterator<Item = u8>, what: &str| -> Res {
        let mut h = [0u64; 256];
        let mut k = 0f64;
        for x in it { h[x as usize] += 1; k += 1.0; }
        if k < 60_000.0 { return Ok(()); }
        let e = k / 256.0;
        for (v, o) in h.iter().enumerate() {
            ensure((*o as f64 - e).abs() < 9.0 * e.sqrt(), || format!("{}: {} {} came {} times, {:.0} expected", name, what, v, o, e))?;
        }
        Ok(())
    };
    freq(&mut d.iter().cloned(), "value")?;
    for lag in [1usize, 2, 3, 4, 8, 16, 256, 4096] {
        if lag < l { freq(&mut (0..l - lag).map(|i| d[i] ^ d[i + lag]), &format!("xor at distance {}:", lag))?; }
    }
    c.obs("kind", format!("long {}", name));
    tick();
    Ok(())
}
fn c31(cx: &mut Ctx) {
    let n = cx.n(600, 600) as usize;
    macro_rules! long_draws {
        ($($m:ident $a:ident $w:literal),*) => {$(
            cx.cases(concat!("long vec ", stringify!($m)), 3, |c| {
                let k = [1024usize, 70_003, 1 << 19][c.idx as usize] / ($w / 8);
                let d: Vec<u8> = raws(&$m::$a::get_random_vec(k)).iter().flat_map(|x| x.to_le_bytes()[..$w / 8].to_vec()).collect();
                judge_long(c, concat!("get_random_vec ", stringify!($m)), &d, k * ($w / 8))
            });
        )*};
    }
    long_draws!(mu8 A40 8, mu16 A9 16, mu32 A9 32, mu64 A9 64, mu128 A1 128, msu8 A40 8, msu16 A9 16, msu32 A9 32, msu64 A9 64, msu128 A9 128);
    cx.cases("long Seq", 9, |c| {
        let k = [256usize, 1000, 4096, 5000, 65_536, 70_003, 1 << 19, 1 << 20, 3 << 20][c.idx as usize];
        let d: Vec<u8> = Seq::<U8>::random(k).iter().map(|x| x.0).collect();
        judge_long(c, "Seq::random", &d, k)
    });
    cx.cases("long array", 2, |c| {
        let d: Vec<u8> = big::B70k::random().0.iter().cloned().collect();
        judge_long(c, "public array", &d, 70_003)?;
        let d: Vec<u8> = big::S70k::random().0.iter().map(|x| x.0).collect();
        judge_long(c, "secret array", &d, 70_003)
    });
    // many small draws put together: a slight bias shows in a large sample
    cx.cases("pooled", 6, |c| {
        let mut d: Vec<u8> = vec![];
        let (name, k) = [("Seq::random 1", 1usize), ("Seq::random 7", 7), ("Seq::random 64", 64), ("array 40", 40), ("secret array 40", 40), ("get_random_vec 5", 5)][c.idx as usize];
        while d.len() < 1 << 18 {
            match c.idx {
                0..=2 => d.extend(Seq::<U8>::random(k).iter().map(|x| x.0)),
                3 => d.extend(mu8::A40::random().0.iter()),
                4 => d.extend(msu8::A40::random().0.iter().map(|x| x.0)),
                _ => d.extend(msu8::A40::get_random_vec(k).iter().map(|x| x.0)),
            }
        }
        let l = (d.len() / k) * k;
        judge_long(c, &format!("pooled {}", name), &d, l)
    });
    macro_rules! arrays {
        ($($m:ident $a:ident $l:literal $w:literal),*) => {$(
            cx.cases(concat!("array ", stringify!($m), stringify!($a)), 2, |c| {
                let d: Vec<M> = (0..n).map(|_| raws(&$m::$a::random().0)).collect();
                judge(c, concat!("random ", stringify!($m), " x ", stringify!($l)), &d, $l, $w)?;
                let k = c.rng.below(30);
                let d: Vec<M> = (0..n).map(|_| raws(&$m::$a::get_random_vec(k))).collect();
                judge(c, concat!("get_random_vec ", stringify!($m)), &d, k, $w)
            });
        )*};
    }
    arrays!(mu8 A40 40 8, mu16 A9 9 16, mu32 A9 9 32, mu64 A9 9 64, mu128 A1 1 128, mi16 A40 40 16, mi64 A9 9 64,
        msu8 A40 40 8, msu8 A9 9 8, msu16 A9 9 16, msu32 A40 40 32, msu64 A9 9 64, msu128 A9 9 128);
    cx.cases("Seq random", 8, |c| {
        let k = [0usize, 1, 2, 16, 31, 64, 100, 200][c.idx as usize];
        let d: Vec<M> = (0..n).map(|_| raws(&Seq::<U8>::random(k).iter().cloned().collect::<Vec<_>>())).collect();
        judge(c, "Seq::random", &d, k, 8)
    });
    cx.cases("both_arrays random", 2, |c| {
        let d: Vec<M> = (0..n).map(|_| raws(&both::S11::random().0)).collect();
        judge(c, "both secret", &d, 11, 32)?;
        let d: Vec<M> = (0..n).map(|_| raws(&both::Pb20::random().0)).collect();
        judge(c, "both public", &d, 20, 8)
    });
    cx.cases("threads", 4, |c| {
        // draws made at the same time by several threads
        let hs: Vec<_> = (0..8).map(|_| std::thread::spawn(move || (0..n / 4).map(|_| (raws(&msu8::A40::random().0), raws(&Seq::<U8>::random(24).iter().cloned().collect::<Vec<_>>()))).collect::<Vec<_>>())).collect();
        let mut a = vec![];
        let mut b = vec![];
        for h in hs {
            for (x, y) in h.join().map_err(|_| "a drawing thread panicked".to_string())? { a.push(x); b.push(y); }
        }
        judge(c, "concurrent arrays", &a, 40, 8)?;
        judge(c, "concurrent Seq", &b, 24, 8)
    });
    cx.cases("processes", 4, |c| {
        // fresh processes must not start from the same state, even where all but the
        // operating system's randomness is the same
        let dir = std::env::temp_dir().join(format!("hv-c31-{}-{}", std::process::id(), c.idx));
        let pre = if c.idx < 2 { None } else {
            std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
            Some(shim(&dir)?)
        };
        let mut seen = std::collections::HashMap::new();
        let r = (0..6).try_for_each(|_| {
            for (name, v) in draw_process(pre.as_deref())? {
                c.input(format!("process drew {} = {}", name, v));
                if name == "clock" {
                    if pre.is_some() { ensure(v == "4242 1700000000123456789", || format!("the frozen clock does not work: {}", v))?; }
                    continue;
                }
                if let Some(other) = seen.insert(v.clone(), name.clone()) {
                    return Err(format!("{} drew what {} drew in another process{}: {}", name, other, if pre.is_some() { " with the same clock and process id" } else { "" }, v));
                }
                tick();
            }
            Ok(())
        });
        let _ = std::fs::remove_dir_all(&dir);
        c.obs("kind", if pre.is_some() { "processes with frozen clock" } else { "processes" });
        r
    });
    type Draw = fn() -> (Vec<i128>, Vec<i128>, i128);
    for (name, f, l, m, irr) in [
        ("Small", rp::small as Draw, 12usize, 3i128, vec![(0usize, -1i128), (1, -1), (12, 1)]),
        ("Big", rp::bigp as Draw, 30, 1i128 << 61, vec![(0, -1), (1, -1), (30, 1)]),
        ("Un", rp::un as Draw, 9, 257, vec![(0, 1), (9, 1)]),
    ] {
        cx.cases(&format!("poly {}", name), 2, |c| {
            let mut wi = vec![0i128; l + 1];
            for (i, x) in &irr { wi[*i] = *x; }
            let mut seen = std::collections::HashSet::new();
            let mut low = vec![0u64; l];
            let mut vals = vec![std::collections::BTreeSet::new(); l];
            for _ in 0..n {
                let (p, i, q) = f();
                c.input(format!("{} {:?}", name, p));
                eq("ring", &(i, q), &(wi.clone(), m))?;
                eq("number of coefficients", &p.len(), &l)?;
                ensure(p.iter().all(|x| *x >= 0 && *x < m), || "coefficient out of range".into())?;
                for (k, x) in p.iter().enumerate() { vals[k].insert(*x); if 2 * *x < m { low[k] += 1; } }
                if m > 1 << 20 { ensure(seen.insert(p), || "the same polynomial came twice".into())?; }
                tick();
            }
            for k in 0..l {
                // every residue of a small ring is drawn; the two halves are both drawn about equally
                if m < 10 { eq(&format!("residues seen at coefficient {}", k), &(vals[k].len() as i128), &m)?; }
                let half = if m % 2 == 0 { 0.5 } else { (m as f64 + 1.0) / 2.0 / m as f64 };
                let dev = 10.0 * (n as f64 / 4.0).sqrt();
                ensure((low[k] as f64 - half * n as f64).abs() < dev, || format!("coefficient {}: {} of {} draws in the lower half", k, low[k], n))?;
            }
            c.obs("kind", format!("poly {}", name));
            Ok(())
        });
    }
}

fn selftest() {
    assert_eq!(upd(&vec![1, 2, 3], 1, &vec![7, 8], 0, 2), Some(vec![1, 7, 8]));
    assert_eq!(upd(&vec![1, 2, 3], 2, &vec![7, 8], 0, 2), None);
    assert_eq!(upd(&vec![1], usize::MAX, &vec![7, 8], 0, 2), None);
    assert_eq!(cut(&vec![1, 2, 3], 3, 0), Some(vec![]));
    assert_eq!(mask(8), 255);
}
fn main() {
    if std::env::var("HV_DRAW").is_ok() {
        println!("clock={} {}", std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos());
        for (k, v) in draw_all() { println!("{}={}", k, v); }
        return;
    }
    let _ = fnv(b"");
    main_check(&[
        Check { id: "C18", shards: 8, run: c18, selftest, scale: (250, 3000), require: &[("operation", 20), ("pair", 50), ("element", 14), ("special", 9)],
            rule: "one evaluation = one operation of a recorded history on real containers, compared with vector models of every live container (or refused as the model says); distinct = distinct operation histories" },
        Check { id: "C19", shards: 8, run: c19, selftest, scale: (1000, 3000), require: &[("length", 50), ("last chunk", 3), ("chunk vs length", 3), ("kind", 8)],
            rule: "one evaluation = one (container contents, chunk size): all chunks read, concatenated, written back and compared; distinct = distinct (type, contents, chunk size)" },
        Check { id: "C20", shards: 8, run: c20, selftest, scale: (600, 3000), require: &[("assertion", 3), ("type", 29), ("equal", 4), ("lengths", 2)],
            rule: "one evaluation = one operand pair under every supported operator of its type, each element compared with modular arithmetic on bit patterns; distinct = distinct operand pairs" },
        Check { id: "C21", shards: 8, run: c21, selftest, scale: (450, 2000), require: &[("type", 8), ("malformed", 4)],
            rule: "one evaluation = one string parsed (or refused) and printed; distinct = distinct strings" },
        Check { id: "C31", shards: 8, run: c31, selftest, scale: (10, 60), require: &[("kind", 53)],
            rule: "one evaluation = one recorded random draw judged by the length, range, uniqueness, bit-balance and neighbour monitors; distinct = distinct draw groups" },
    ]);
}
