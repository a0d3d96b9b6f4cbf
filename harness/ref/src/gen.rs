//! Deterministic generators.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    /// Draws of byte strings, lengths and integers so far, each from a stream of its own when
    /// `forked`, so that one of them can be changed and all others stay as they are.
    forked: bool,
    pub draws: u32,
    tweak: Option<(u32, u32)>,
}
include!(concat!(env!("OUT_DIR"), "/dict.rs"));
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    // final avalanche
    let mut y = h;
    splitmix(&mut y)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)], forked: false, draws: 0, tweak: None }
    }
    /// The generator for a call with separate streams per drawn value; with `tweak = (i, how)`
    /// the i-th value drawn is a close neighbour of the one drawn without it.
    pub fn forked(seed: u64, tweak: Option<(u32, u32)>) -> Rng {
        Rng { forked: true, tweak, ..Rng::new(seed) }
    }
    fn draw<T>(&mut self, f: impl FnOnce(&mut Rng) -> T, change: impl FnOnce(T, u32) -> T) -> T {
        if !self.forked { return f(self); }
        let mut sub = Rng::new(self.u64());
        let v = f(&mut sub);
        let i = self.draws;
        self.draws += 1;
        match self.tweak {
            Some((j, how)) if j == i => change(v, how),
            _ => v,
        }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Bytes of the given length; mostly uniform, sometimes patterned (all equal, sparse, ramp).
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        self.draw(|r| r.bytes0(len), |v, how| neighbour(v, how))
    }
    /// Now and then a number from the dictionary of literals (see build.rs), or one next to it, at most `max`.
    fn dict(&mut self, den: usize, max: u128) -> Option<u128> {
        let n = DICT.partition_point(|v| *v <= max);
        if n == 0 || !self.chance(1, den) { return None; }
        let v = DICT[self.below(n)];
        Some(match self.below(10) {
            0 => v - 1,
            1 => v.saturating_add(1),
            2 => v.saturating_mul(2 + self.below(7) as u128),
            3 => v.saturating_mul(8),
            4 => v / 8,
            _ => v,
        }).filter(|v| *v <= max)
    }
    fn bytes0(&mut self, len: usize) -> Vec<u8> {
        if let Some(v) = self.dict(16, u128::MAX) {
            // the number as a word somewhere in the string
            let w = [1, 2, 4, 8, 16].into_iter().find(|w| *w == 16 || v >> (8 * w) == 0).unwrap();
            let w = [w, w, 4, 8, 16].into_iter().nth(self.below(5)).unwrap().max(w);
            if w <= len {
                let at = match self.below(4) { 0 => 0, 1 => len - w, 2 => self.below(len / w) * w, _ => self.below(len - w + 1) };
                let mut b = v.to_le_bytes()[..w].to_vec();
                if self.chance(1, 2) { b.reverse() }
                let mut s = if self.chance(1, 4) { vec![0; len] } else { self.uniform0(len) };
                s[at..at + w].copy_from_slice(&b);
                return s;
            }
        }
        match self.below(10) {
            0 => vec![*self.pick(&[0u8, 0xff, 0x80, 0x01, 0x7f]); len],
            1 => {
                let mut v = vec![0u8; len];
                if len > 0 {
                    for _ in 0..self.range(1, 3) {
                        let i = self.below(len);
                        v[i] = 1 << self.below(8);
                    }
                }
                v
            }
            2 => {
                let mut v = vec![0xffu8; len];
                if len > 0 {
                    for _ in 0..self.range(1, 3) {
                        let i = self.below(len);
                        v[i] ^= 1 << self.below(8);
                    }
                }
                v
            }
            3 => {
                let s = self.u64() as u8;
                (0..len).map(|i| s.wrapping_add(i as u8)).collect()
            }
            _ => self.uniform0(len),
        }
    }
    pub fn uniform(&mut self, len: usize) -> Vec<u8> {
        self.draw(|r| r.uniform0(len), |v, how| neighbour(v, how))
    }
    fn uniform0(&mut self, len: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(len + 8);
        while v.len() < len {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(len);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let v = self.bytes(N);
        let mut a = [0u8; N];
        a.copy_from_slice(&v);
        a
    }
    /// A length biased to the edges of a block size.
    pub fn len(&mut self, block: usize, max: usize) -> usize {
        self.draw(|r| r.len0(block, max), |l, how| match how % 4 {
            0 => l.saturating_sub(1),
            1 => (l + 1).min(max),
            2 => l.saturating_sub(block),
            _ => (l + block).min(max),
        })
    }
    fn len0(&mut self, block: usize, max: usize) -> usize {
        if let Some(v) = self.dict(12, max as u128) { return v as usize; }
        let l = match self.below(10) {
            0 => self.below(4),
            1..=5 => {
                let k = self.below(max / block + 1) * block;
                let d = self.below(5);
                (k + d).saturating_sub(2)
            }
            _ => self.below(max + 1),
        };
        l.min(max)
    }
    /// A length from the octave `2^(i mod bits)`: mostly uniform in it, at times right at its
    /// start. Where `len` stays near block edges, a sweep of `i` leaves no size range untried.
    pub fn octave(&mut self, i: u64, bits: u32) -> usize {
        self.draw(
            |r| {
                let lo = 1usize << (i % bits as u64);
                let near = &DICT[DICT.partition_point(|v| *v < lo as u128)..DICT.partition_point(|v| *v < 2 * lo as u128)];
                if near.len() > 0 && r.chance(1, 4) { return (*r.pick(near) as usize + r.below(5).saturating_sub(2)).saturating_sub((r.below(6) == 0) as usize); }
                if r.chance(1, 6) { (lo + r.below(70)).saturating_sub(r.below(70)) } else { lo + r.below(lo) }
            },
            |v, _| v + 1,
        )
    }
    /// An integer of `bits` bits biased to edges.
    pub fn edge(&mut self, bits: u32) -> u128 {
        self.draw(|r| r.edge0(bits), |v, how| v ^ 1 << (how * 37 % bits))
    }
    fn edge0(&mut self, bits: u32) -> u128 {
        let mask = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
        if let Some(v) = self.dict(12, mask) {
            return match self.below(4) { 0 => v << 8 * self.below((bits as usize + 7) / 8), 1 => v.wrapping_neg(), _ => v } & mask;
        }
        let v = match self.below(12) {
            0 => self.below(4) as u128,
            1 => mask.wrapping_sub(self.below(4) as u128),
            2 => (1u128 << (bits - 1)).wrapping_add(self.below(5) as u128).wrapping_sub(2),
            3 => 1u128 << self.below(bits as usize),
            4 => mask >> self.below(bits as usize),
            5 => !(1u128 << self.below(bits as usize)),
            6 => self.u128() >> (128 - 1 - self.below(bits as usize)),
            7 => mask << self.below(bits as usize),
            _ => self.u128(),
        };
        v & mask
    }
}
/// A byte string of the same length that shares most of its content with `v`.
fn neighbour(mut v: Vec<u8>, how: u32) -> Vec<u8> {
    let n = v.len();
    if n == 0 { return v; }
    match how % 8 {
        0 => v[n - 1] ^= 1,
        1 => v[0] ^= 0x80,
        2 => v[n / 2] ^= 0x10,
        3 => for x in &mut v[n / 2..] { *x = !*x },
        4 => for x in &mut v[..(n + 1) / 2] { *x = !*x },
        5 => v.rotate_left(n / 2),
        6 => v.reverse(),
        _ => {
            // one bit each in two places: sums and folds of the bytes stay the same
            v[0] ^= 4;
            v[n - 1] ^= 4;
        }
    }
    v
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
/// Hex for descriptions: long inputs are abbreviated (the replay reproduces them exactly).
pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 96 {
        format!("[{}]{}", b.len(), hex(b))
    } else {
        format!("[{}]{}..{} (fnv {:016x})", b.len(), hex(&b[..24]), hex(&b[b.len() - 8..]), fnv(b))
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
