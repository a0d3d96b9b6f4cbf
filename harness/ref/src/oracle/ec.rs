use crate::gen::{hex, unhex};
use num::bigint::Sign;
use num::{BigInt, BigUint, Integer, One, Zero};

pub fn modinv(a: &BigUint, p: &BigUint) -> BigUint {
    // extended Euclid
    let (mut r0, mut r1) = (BigInt::from(p.clone()), BigInt::from(a % p));
    let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
    while !r1.is_zero() {
        let q = &r0 / &r1;
        let r = &r0 - &q * &r1;
        r0 = std::mem::replace(&mut r1, r);
        let t = &t0 - &q * &t1;
        t0 = std::mem::replace(&mut t1, t);
    }
    let pi = BigInt::from(p.clone());
    let t = t0.mod_floor(&pi);
    BigInt::to_biguint(&t).unwrap()
}

// ---------- X25519 (RFC 7748), right-to-left decoding, cswap ladder ----------
pub fn x25519(k: &[u8], u: &[u8]) -> Vec<u8> {
    let p = (BigUint::one() << 255usize) - BigUint::from(19u32);
    let mut kk = k.to_vec();
    kk[0] &= 248;
    kk[31] &= 127;
    kk[31] |= 64;
    let mut uu = u.to_vec();
    uu[31] &= 127;
    let x1 = BigUint::from_bytes_le(&uu) % &p;
    let sub = |a: &BigUint, b: &BigUint| (a + &p - b) % &p;
    let (mut x2, mut z2, mut x3, mut z3) = (BigUint::one(), BigUint::zero(), x1.clone(), BigUint::one());
    let mut swap = 0;
    for t in (0..255).rev() {
        let kt = (kk[t / 8] >> (t % 8)) & 1;
        if swap ^ kt == 1 {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        swap = kt;
        let a = (&x2 + &z2) % &p;
        let aa = &a * &a % &p;
        let b = sub(&x2, &z2);
        let bb = &b * &b % &p;
        let e = sub(&aa, &bb);
        let c = (&x3 + &z3) % &p;
        let d = sub(&x3, &z3);
        let da = d * &a % &p;
        let cb = c * &b % &p;
        let s = (&da + &cb) % &p;
        x3 = &s * &s % &p;
        let m = sub(&da, &cb);
        z3 = &x1 * (&m * &m % &p) % &p;
        x2 = &aa * &bb % &p;
        z2 = &e * (&aa + BigUint::from(121665u32) * &e) % &p;
    }
    if swap == 1 {
        std::mem::swap(&mut x2, &mut x3);
        std::mem::swap(&mut z2, &mut z3);
    }
    let r = if z2.is_zero() { BigUint::zero() } else { x2 * modinv(&z2, &p) % &p };
    let mut o = r.to_bytes_le();
    o.resize(32, 0);
    o
}

// ---------- P-256, affine chord-and-tangent ----------
pub struct P256 {
    pub p: BigUint,
    pub n: BigUint,
    b: BigUint,
    pub g: (BigUint, BigUint),
}
pub type Pt = Option<(BigUint, BigUint)>;
fn h(s: &str) -> BigUint {
    BigUint::from_bytes_be(&unhex(s))
}
impl P256 {
    pub fn new() -> P256 {
        P256 {
            p: h("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
            n: h("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
            b: h("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
            g: (
                h("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
                h("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
            ),
        }
    }
    pub fn on_curve(&self, x: &BigUint, y: &BigUint) -> bool {
        x < &self.p && y < &self.p && (y * y) % &self.p == (x * x * x + &self.b + (&self.p - BigUint::from(3u32)) * x) % &self.p
    }
    pub fn add(&self, a: &Pt, b: &Pt) -> Pt {
        let p = &self.p;
        let (x1, y1) = match a { None => return b.clone(), Some(v) => v };
        let (x2, y2) = match b { None => return a.clone(), Some(v) => v };
        let l = if x1 == x2 {
            if (y1 + y2) % p == BigUint::zero() {
                return None;
            }
            (BigUint::from(3u32) * x1 * x1 + p - BigUint::from(3u32)) * modinv(&(BigUint::from(2u32) * y1), p) % p
        } else {
            (y2 + p - y1) * modinv(&((x2 + p - x1) % p), p) % p
        };
        let x3 = (&l * &l + p + p - x1 - x2) % p;
        let y3 = (l * ((x1 + p - &x3) % p) + p - y1) % p;
        Some((x3, y3))
    }
    pub fn mul(&self, k: &BigUint) -> Pt {
        // right-to-left
        let mut acc: Pt = None;
        let mut d: Pt = Some(self.g.clone());
        let bits = k.to_bytes_le();
        for byte in bits {
            for i in 0..8 {
                if (byte >> i) & 1 == 1 {
                    acc = self.add(&acc, &d);
                }
                d = self.add(&d.clone(), &d);
            }
        }
        acc
    }
}

pub fn selftest() {
    assert_eq!(
        hex(&x25519(
            &unhex("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"),
            &unhex("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c")
        )),
        "c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552"
    );
    let mut nine = vec![0u8; 32];
    nine[0] = 9;
    assert_eq!(hex(&x25519(&nine, &nine)), "422c8e7a6227d7bca1350b3e2bb7279f7897b87bb6854b783c60e80311ae3079");
    let c = P256::new();
    assert!(c.on_curve(&c.g.0, &c.g.1));
    assert_eq!(c.mul(&c.n), None);
    // k = 2
    assert_eq!(c.mul(&BigUint::from(2u32)).unwrap().0, h("7cf27b188d034f7e8a52380304b51ac3c08969e277f21b35a60b48fc47669978"));
    assert_eq!(
        c.mul(&BigUint::from(112233445566778899u64)).unwrap().0,
        h("339150844ec15234807fe862a86be77977dbfb3ae3d96f4c22795513aeaab82f")
    );
    let _ = Sign::Plus;
}
