use crate::gen::{hex, unhex};

// ---------- SHA-256 (FIPS 180-4); constants derived, not copied ----------
fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut k = 2u64;
    while v.len() < n {
        if v.iter().all(|p| k % p != 0) {
            v.push(k);
        }
        k += 1;
    }
    v
}
/// floor(2^32 * frac(p^(1/r))) by integer search.
fn frac_root(p: u64, r: u32) -> u32 {
    // largest x with x^r <= p * 2^(32 r)
    let p = num::BigUint::from(p) << (32 * r as usize);
    let (mut lo, mut hi) = (0u64, 1u64 << 40);
    while lo + 1 < hi {
        let m = (lo + hi) / 2;
        if (0..r).fold(num::BigUint::from(1u32), |a, _| a * num::BigUint::from(m)) <= p { lo = m } else { hi = m }
    }
    lo as u32
}
pub struct Sha256 {
    k: Vec<u32>,
    iv: Vec<u32>,
}
impl Sha256 {
    pub fn new() -> Self {
        let p = primes(64);
        Sha256 { k: p.iter().map(|&x| frac_root(x, 3)).collect(), iv: p[..8].iter().map(|&x| frac_root(x, 2)).collect() }
    }
    pub fn hash(&self, m: &[u8]) -> Vec<u8> {
        let mut v = m.to_vec();
        v.push(0x80);
        while v.len() % 64 != 56 {
            v.push(0);
        }
        v.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
        let mut h = self.iv.clone();
        for b in v.chunks(64) {
            let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
            for t in 16..64 {
                let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
                let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
                w.push(w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1));
            }
            let mut s = h.clone();
            for t in 0..64 {
                let e = s[4];
                let a = s[0];
                let t1 = s[7]
                    .wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25))
                    .wrapping_add((e & s[5]) ^ (!e & s[6]))
                    .wrapping_add(self.k[t])
                    .wrapping_add(w[t]);
                let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22)).wrapping_add((a & s[1]) ^ (a & s[2]) ^ (s[1] & s[2]));
                s.pop();
                s.insert(0, t1.wrapping_add(t2));
                s[4] = s[4].wrapping_add(t1);
            }
            for i in 0..8 {
                h[i] = h[i].wrapping_add(s[i]);
            }
        }
        h.iter().flat_map(|x| x.to_be_bytes()).collect()
    }
    pub fn hmac(&self, key: &[u8], m: &[u8]) -> Vec<u8> {
        let mut k = if key.len() > 64 { self.hash(key) } else { key.to_vec() };
        k.resize(64, 0);
        let mut i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
        i.extend_from_slice(m);
        let mut o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
        o.extend(self.hash(&i));
        self.hash(&o)
    }
    pub fn hkdf_extract(&self, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
        if salt.is_empty() { self.hmac(&[0u8; 32], ikm) } else { self.hmac(salt, ikm) }
    }
    pub fn hkdf_expand(&self, prk: &[u8], info: &[u8], l: usize) -> Vec<u8> {
        let mut out = vec![];
        let mut t: Vec<u8> = vec![];
        let mut n = 1u32;
        while out.len() < l {
            let mut b = t.clone();
            b.extend_from_slice(info);
            b.push(n as u8);
            t = self.hmac(prk, &b);
            out.extend_from_slice(&t);
            n += 1;
        }
        out.truncate(l);
        out
    }
}

// ---------- Keccak (FIPS 202), bit-level round constants from the LFSR, lanes by (x,y) ----------
fn rc_bit(t: usize) -> u64 {
    let mut r = 1u32;
    for _ in 0..(t % 255) {
        r <<= 1;
        if r & 0x100 != 0 {
            r ^= 0x171;
        }
    }
    (r & 1) as u64
}
pub struct Keccak {
    rc: Vec<u64>,
    rot: [[u32; 5]; 5],
}
impl Keccak {
    pub fn new() -> Self {
        let mut rc = vec![];
        for ir in 0..24 {
            let mut c = 0u64;
            for j in 0..7 {
                c |= rc_bit(j + 7 * ir) << ((1 << j) - 1);
            }
            rc.push(c);
        }
        let mut rot = [[0u32; 5]; 5];
        let (mut x, mut y) = (1usize, 0usize);
        for t in 0..24u32 {
            rot[x][y] = ((t + 1) * (t + 2) / 2) % 64;
            let ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
        }
        Keccak { rc, rot }
    }
    pub fn f(&self, a: &mut [[u64; 5]; 5]) {
        for ir in 0..24 {
            let mut c = [0u64; 5];
            for x in 0..5 {
                for y in 0..5 {
                    c[x] ^= a[x][y];
                }
            }
            for x in 0..5 {
                let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
                for y in 0..5 {
                    a[x][y] ^= d;
                }
            }
            let mut b = [[0u64; 5]; 5];
            for x in 0..5 {
                for y in 0..5 {
                    b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(self.rot[x][y]);
                }
            }
            for x in 0..5 {
                for y in 0..5 {
                    a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
                }
            }
            a[0][0] ^= self.rc[ir];
        }
    }
    pub fn sponge(&self, rate: usize, m: &[u8], suffix: u8, out: usize) -> Vec<u8> {
        let mut v = m.to_vec();
        v.push(suffix);
        while v.len() % rate != 0 {
            v.push(0);
        }
        let n = v.len();
        v[n - 1] ^= 0x80;
        let mut a = [[0u64; 5]; 5];
        for blk in v.chunks(rate) {
            for (i, x) in blk.iter().enumerate() {
                let l = i / 8;
                a[l % 5][l / 5] ^= (*x as u64) << (8 * (i % 8));
            }
            self.f(&mut a);
        }
        let mut o = vec![];
        loop {
            for i in 0..rate {
                if o.len() == out {
                    return o;
                }
                let l = i / 8;
                o.push((a[l % 5][l / 5] >> (8 * (i % 8))) as u8);
            }
            self.f(&mut a);
        }
    }
}

// ---------- BLAKE2b-512 (RFC 7693) ----------
fn blake_iv() -> Vec<u64> {
    // frac parts of square roots of the first 8 primes, 64 bits
    primes(8)
        .iter()
        .map(|&p| {
            let t = num::BigUint::from(p) << 128usize;
            let (mut lo, mut hi) = (num::BigUint::from(0u32), num::BigUint::from(1u32) << 70usize);
            while &lo + 1u32 < hi {
                let m = (&lo + &hi) >> 1usize;
                if &m * &m <= t { lo = m } else { hi = m }
            }
            let d: num::BigUint = lo % (num::BigUint::from(1u32) << 64usize);
            let d = d.to_bytes_le();
            let mut b = [0u8; 8];
            b[..d.len()].copy_from_slice(&d);
            u64::from_le_bytes(b)
        })
        .collect()
}
const SIG: [&str; 10] = [
    "0123456789abcdef", "ea489fd61c02b753", "b8c052fdae367194", "7931dcbe265a40f8", "905724afe1bc683d",
    "2c6a0b834d75fe19", "c51fed4a0763928b", "db7ec13950f4862a", "6fe9b308c2d714a5", "a2847615fb9e3cd0",
];
pub struct Blake2b {
    iv: Vec<u64>,
    sig: Vec<Vec<usize>>,
}
impl Blake2b {
    pub fn new() -> Self {
        Blake2b { iv: blake_iv(), sig: SIG.iter().map(|s| s.chars().map(|c| c.to_digit(16).unwrap() as usize).collect()).collect() }
    }
    pub fn hash512(&self, m: &[u8]) -> Vec<u8> {
        let mut h = self.iv.clone();
        h[0] ^= 0x0101_0040;
        let nblk = if m.is_empty() { 1 } else { (m.len() + 127) / 128 };
        for i in 0..nblk {
            let end = std::cmp::min(m.len(), (i + 1) * 128);
            let mut b = m[i * 128..end].to_vec();
            b.resize(128, 0);
            let w: Vec<u64> = b.chunks(8).map(|c| { let mut t = [0u8; 8]; t.copy_from_slice(c); u64::from_le_bytes(t) }).collect();
            let mut v = h.clone();
            v.extend_from_slice(&self.iv);
            v[12] ^= end as u64;
            if i + 1 == nblk {
                v[14] ^= u64::MAX;
            }
            for r in 0..12 {
                let s = &self.sig[r % 10];
                let quads = [[0, 4, 8, 12], [1, 5, 9, 13], [2, 6, 10, 14], [3, 7, 11, 15], [0, 5, 10, 15], [1, 6, 11, 12], [2, 7, 8, 13], [3, 4, 9, 14]];
                for (j, q) in quads.iter().enumerate() {
                    let [a, b, c, d] = *q;
                    v[a] = v[a].wrapping_add(v[b]).wrapping_add(w[s[2 * j]]);
                    v[d] = (v[d] ^ v[a]).rotate_right(32);
                    v[c] = v[c].wrapping_add(v[d]);
                    v[b] = (v[b] ^ v[c]).rotate_right(24);
                    v[a] = v[a].wrapping_add(v[b]).wrapping_add(w[s[2 * j + 1]]);
                    v[d] = (v[d] ^ v[a]).rotate_right(16);
                    v[c] = v[c].wrapping_add(v[d]);
                    v[b] = (v[b] ^ v[c]).rotate_right(63);
                }
            }
            for k in 0..8 {
                h[k] ^= v[k] ^ v[k + 8];
            }
        }
        h.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
}

pub fn selftest() {
    let s = Sha256::new();
    assert_eq!(hex(&s.hash(b"")), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855");
    assert_eq!(hex(&s.hash(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    assert_eq!(
        hex(&s.hash(b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq")),
        "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1"
    );
    assert_eq!(
        hex(&s.hmac(b"Jefe", b"what do ya want for nothing?")),
        "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843"
    );
    assert_eq!(
        hex(&s.hkdf_expand(&unhex("077709362c2e32df0ddc3f0dc47bba6390b6c73bb50f9c3122ec844ad7c2b3e5"), &unhex("f0f1f2f3f4f5f6f7f8f9"), 42)),
        "3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865"
    );
    let k = Keccak::new();
    assert_eq!(hex(&k.sponge(136, b"", 6, 32)), "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a");
    assert_eq!(hex(&k.sponge(136, b"abc", 6, 32)), "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532");
    assert_eq!(hex(&k.sponge(168, b"", 0x1f, 32)), "7f9c2ba4e88f827d616045507605853ed73b8093f6efbc88eb1a6eacfa66ef26");
    let b = Blake2b::new();
    assert_eq!(
        hex(&b.hash512(b"abc")),
        "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923"
    );
    assert_eq!(
        hex(&b.hash512(b"")),
        "786a02f742015903c6c6fd852552d272912f4740e15847618a86e217f71f5419d25e1031afee585313896444934eb04b903a685b1448b755d56f701afe9be2ce"
    );
}
