use crate::gen::{hex, unhex};
use num::BigUint;

// ---------- AES (FIPS 197); S-box computed from the field inverse ----------
fn xt(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn gm(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
pub struct Aes {
    sbox: Vec<u8>,
}
impl Aes {
    pub fn new() -> Aes {
        let sbox = (0..=255u8)
            .map(|x| {
                let inv = (0..=255u8).find(|&y| gm(x, y) == 1).unwrap_or(0);
                inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63
            })
            .collect();
        Aes { sbox }
    }
    pub fn expand(&self, key: &[u8]) -> Vec<[u8; 16]> {
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [self.sbox[t[1] as usize] ^ rcon, self.sbox[t[2] as usize], self.sbox[t[3] as usize], self.sbox[t[0] as usize]];
                rcon = xt(rcon);
            } else if nk > 6 && i % nk == 4 {
                t = [self.sbox[t[0] as usize], self.sbox[t[1] as usize], self.sbox[t[2] as usize], self.sbox[t[3] as usize]];
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        w.chunks(4)
            .map(|c| {
                let mut k = [0u8; 16];
                for i in 0..16 {
                    k[i] = c[i / 4][i % 4];
                }
                k
            })
            .collect()
    }
    fn enc(&self, rk: &[[u8; 16]], b: &[u8; 16]) -> [u8; 16] {
        let mut s = *b;
        let nr = rk.len() - 1;
        for i in 0..16 {
            s[i] ^= rk[0][i];
        }
        for r in 1..=nr {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[4 * c + row] = self.sbox[s[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r != nr {
                for c in 0..4 {
                    let col = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                    for i in 0..4 {
                        t[4 * c + i] = gm(col[i], 2) ^ gm(col[(i + 1) % 4], 3) ^ col[(i + 2) % 4] ^ col[(i + 3) % 4];
                    }
                }
            }
            for i in 0..16 {
                s[i] = t[i] ^ rk[r][i];
            }
        }
        s
    }
    pub fn block(&self, key: &[u8], b: &[u8; 16]) -> [u8; 16] {
        self.enc(&self.expand(key), b)
    }
    pub fn ctr(&self, key: &[u8], nonce: &[u8], ctr: u32, m: &[u8]) -> Vec<u8> {
        let rk = self.expand(key);
        let mut out = vec![];
        for (i, c) in m.chunks(16).enumerate() {
            let mut b = [0u8; 16];
            b[..12].copy_from_slice(nonce);
            b[12..].copy_from_slice(&ctr.wrapping_add(i as u32).to_be_bytes());
            let k = self.enc(&rk, &b);
            out.extend(c.iter().zip(k.iter()).map(|(x, y)| x ^ y));
        }
        out
    }
    pub fn gcm(&self, key: &[u8], iv: &[u8], aad: &[u8], m: &[u8]) -> (Vec<u8>, Vec<u8>) {
        let h = self.block(key, &[0u8; 16]);
        let c = self.ctr(key, iv, 2, m);
        let mut t = aad.to_vec();
        while t.len() % 16 != 0 {
            t.push(0);
        }
        t.extend_from_slice(&c);
        while t.len() % 16 != 0 {
            t.push(0);
        }
        t.extend_from_slice(&(aad.len() as u64 * 8).to_be_bytes());
        t.extend_from_slice(&(m.len() as u64 * 8).to_be_bytes());
        let s = ghash(&h, &t);
        let tag = self.ctr(key, iv, 1, &s);
        (c, tag)
    }
}
/// GHASH over zero-padded blocks.  Multiplication in the polynomial basis with reversed bits:
/// full carry-less product first, then reduction (not shift-and-xor per bit as in the standard).
pub fn ghash(h: &[u8], t: &[u8]) -> Vec<u8> {
    fn elem(b: &[u8]) -> u128 {
        let mut a = [0u8; 16];
        a[..b.len()].copy_from_slice(b);
        u128::from_be_bytes(a).reverse_bits() // bit i = coefficient of x^i
    }
    fn mul(a: u128, b: u128) -> u128 {
        // carry-less 256-bit product (lo, hi)
        let (mut lo, mut hi) = (0u128, 0u128);
        for i in 0..128 {
            if (b >> i) & 1 == 1 {
                lo ^= a << i;
                if i > 0 {
                    hi ^= a >> (128 - i);
                }
            }
        }
        // x^128 = x^7 + x^2 + x + 1
        for i in (0..128).rev() {
            if (hi >> i) & 1 == 1 {
                let p: u128 = 0x87;
                hi ^= 1u128 << i;
                lo ^= p << i;
                if i > 120 {
                    hi ^= p >> (128 - i);
                }
            }
        }
        // the fold above can set low bits of hi again (at most 7): fold once more
        let mut h2 = hi;
        let mut j = 0;
        while h2 != 0 {
            if h2 & 1 == 1 {
                lo ^= 0x87u128 << j;
            }
            h2 >>= 1;
            j += 1;
        }
        lo
    }
    let h = elem(h);
    let mut y = 0u128;
    for c in t.chunks(16) {
        y = mul(y ^ elem(c), h);
    }
    y.reverse_bits().to_be_bytes().to_vec()
}

// ---------- ChaCha20 / Poly1305 (RFC 8439) ----------
pub fn chacha_core(key: &[u8], ctr: u32, nonce: &[u8]) -> Vec<u32> {
    let mut st = vec![];
    for c in b"expand 32-byte k".chunks(4).chain(key.chunks(4)) {
        st.push(u32::from_le_bytes([c[0], c[1], c[2], c[3]]));
    }
    st.push(ctr);
    for c in nonce.chunks(4) {
        st.push(u32::from_le_bytes([c[0], c[1], c[2], c[3]]));
    }
    st
}
pub fn qr(s: &mut [u32], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}
pub fn chacha_block(key: &[u8], ctr: u32, nonce: &[u8]) -> Vec<u8> {
    let st = chacha_core(key, ctr, nonce);
    let mut s = st.clone();
    for _ in 0..10 {
        for i in 0..4 {
            qr(&mut s, i, 4 + i, 8 + i, 12 + i);
        }
        for i in 0..4 {
            qr(&mut s, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
        }
    }
    s.iter().zip(&st).flat_map(|(a, b)| a.wrapping_add(*b).to_le_bytes()).collect()
}
pub fn chacha(key: &[u8], ctr: u32, nonce: &[u8], m: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for (i, c) in m.chunks(64).enumerate() {
        let k = chacha_block(key, ctr.wrapping_add(i as u32), nonce);
        out.extend(c.iter().zip(&k).map(|(x, y)| x ^ y));
    }
    out
}
pub fn poly1305(key: &[u8], m: &[u8]) -> Vec<u8> {
    let p = (BigUint::from(1u32) << 130usize) - BigUint::from(5u32);
    let mut r = key[..16].to_vec();
    for i in [3, 7, 11, 15] {
        r[i] &= 15;
    }
    for i in [4, 8, 12] {
        r[i] &= 252;
    }
    let r = BigUint::from_bytes_le(&r);
    let s = BigUint::from_bytes_le(&key[16..32]);
    let mut a = BigUint::from(0u32);
    for c in m.chunks(16) {
        let mut b = c.to_vec();
        b.push(1);
        a = (a + BigUint::from_bytes_le(&b)) * &r % &p;
    }
    let mut t = (a + s).to_bytes_le();
    t.resize(17.max(t.len()), 0);
    t.truncate(16);
    t
}
pub fn aead(key: &[u8], nonce: &[u8], aad: &[u8], m: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let otk = chacha_block(key, 0, nonce)[..32].to_vec();
    let c = chacha(key, 1, nonce, m);
    let mut t = aad.to_vec();
    t.resize((t.len() + 15) / 16 * 16, 0);
    t.extend_from_slice(&c);
    t.resize((t.len() + 15) / 16 * 16, 0);
    t.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    t.extend_from_slice(&(m.len() as u64).to_le_bytes());
    (c, poly1305(&otk, &t))
}

pub fn selftest() {
    let a = Aes::new();
    let pt: Vec<u8> = unhex("00112233445566778899aabbccddeeff");
    let mut b = [0u8; 16];
    b.copy_from_slice(&pt);
    assert_eq!(hex(&a.block(&unhex("000102030405060708090a0b0c0d0e0f"), &b)), "69c4e0d86a7b0430d8cdb78070b4c55a");
    assert_eq!(
        hex(&a.block(&unhex("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"), &b)),
        "8ea2b7ca516745bfeafc49904b496089"
    );
    // McGrew-Viega test case 4
    let (c, t) = a.gcm(
        &unhex("feffe9928665731c6d6a8f9467308308"),
        &unhex("cafebabefacedbaddecaf888"),
        &unhex("feedfacedeadbeeffeedfacedeadbeefabaddad2"),
        &unhex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39"),
    );
    assert_eq!(hex(&c[..16]), "42831ec2217774244b7221b784d0d49c");
    assert_eq!(hex(&t), "5bc94fbc3221a5db94fae95ae7121a47");
    let (c, t) = a.gcm(&[0u8; 32], &[0u8; 12], &[], &[0u8; 16]);
    assert_eq!(hex(&c), "cea7403d4d606b6e074ec5d3baf39d18");
    assert_eq!(hex(&t), "d0d1c8a799996bf0265b98b5d48ab919");
    let key: Vec<u8> = (0..32).collect();
    assert_eq!(&hex(&chacha_block(&key, 1, &unhex("000000090000004a00000000")))[..32], "10f1e7e4d13b5915500fdd1fa32071c4");
    assert_eq!(
        hex(&poly1305(
            &unhex("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b"),
            b"Cryptographic Forum Research Group"
        )),
        "a8061dc1305136c6c22b8baf0c0127a9"
    );
    // RFC 8439 A.3 #7-#11: corner cases of the reduction
    let mut k = vec![0u8; 32];
    k[0] = 2;
    assert_eq!(hex(&poly1305(&k, &[0xff; 16])), "03000000000000000000000000000000");
    let mut k = vec![0u8; 32];
    k[0] = 2;
    for i in 16..32 { k[i] = 0xff; }
    let mut m = vec![0u8; 16];
    m[0] = 2;
    assert_eq!(hex(&poly1305(&k, &m)), "03000000000000000000000000000000");
    // RFC 8439 2.8.2
    let (c, t) = aead(
        &(0x80..0xa0).collect::<Vec<u8>>(),
        &unhex("070000004041424344454647"),
        &unhex("50515253c0c1c2c3c4c5c6c7"),
        b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.",
    );
    assert_eq!(hex(&c[..16]), "d31a8d34648e60db7b86afbc53ef7ec2");
    assert_eq!(hex(&t), "1ae10b594f09e26a7e902ecbd0600691");
}
