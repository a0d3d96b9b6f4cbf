//! C01-C13: the cryptographic functions of spec-examples against independent references.
use hacspec::prelude::{ByteSeq, Seq, SeqTrait, U32, U8};
use hacspec_examples as ex;
use hv::gen::{hex, hexs, Rng};
use hv::mon::*;
use hv::oracle::{cipher, ec, hash};
use num::{BigUint, One, Zero};

fn bs(b: &[u8]) -> ByteSeq {
    ByteSeq::from_public_slice(b)
}
fn un<'a>(it: impl Iterator<Item = &'a U8>) -> Vec<u8> {
    it.map(|x| x.declassify()).collect()
}
macro_rules! un {
    ($x:expr) => {
        un(($x).iter())
    };
}

// ------------------------------------------------------------------ C01
fn c01(cx: &mut Ctx) {
    let o = hash::Sha256::new();
    let one = |c: &mut Case, m: Vec<u8>| -> Res {
        c.obs("len mod 64", m.len() % 64);
        c.obs("full blocks", m.len() / 64);
        c.input(format!("msg={}", hexs(&m)));
        let d = ex::sha2::hash(&bs(&m));
        eqb("sha256", &un!(d), &o.hash(&m))
    };
    cx.cases("dense-lengths", 700, |c| {
        let m = c.rng.bytes(c.idx as usize);
        one(c, m)
    });
    let n = cx.n(2500, 60000);
    cx.cases("random", n, |c| {
        let l = c.rng.len(64, 2000);
        let m = c.rng.bytes(l);
        one(c, m)
    });
    let n = cx.n(256, 4000);
    cx.cases("length ladder", n, |c| {
        let l = c.rng.octave(c.idx, 16);
        let m = c.rng.bytes(l);
        one(c, m)
    });
    let n = cx.n(8, 40);
    cx.cases("large", n.min(60), |c| {
        let l = [65536, 65535, 65536 + 55, 65536 + 56, 200_000, 131072, 524288 + 64, 300_001][(c.idx % 8) as usize] + (c.idx as usize / 8) * 64;
        let m = c.rng.uniform(l);
        one(c, m)
    });
    cx.cases("very-large", 1, |c| {
        // the length crosses 2^24 bytes and the bit length 2^27
        let m = c.rng.uniform((1 << 24) + 59);
        one(c, m)
    });
    let n = cx.n(400, 4000);
    cx.cases("single-bit-neighbours", n, |c| {
        // two messages differing in one bit have the reference digests, hence different ones
        let l = 1 + c.rng.below(200);
        let mut m = c.rng.bytes(l);
        one(c, m.clone())?;
        let i = c.rng.below(l * 8);
        m[i / 8] ^= 1 << (i % 8);
        c.inner(1);
        one(c, m)
    });
    // the bit length needs more than 32 bits
    cx.cases("huge", 1, |c| {
        let m = c.rng.uniform((1 << 29) + 77);
        one(c, m)
    });
}

// ------------------------------------------------------------------ C02
fn c02(cx: &mut Ctx) {
    let o = hash::Sha256::new();
    let one = |c: &mut Case, k: Vec<u8>, m: Vec<u8>| -> Res {
        c.obs("key length class", if k.len() < 64 { "<64" } else if k.len() == 64 { "=64" } else { ">64" });
        c.obs("key length", k.len());
        c.obs("msg len mod 64", m.len() % 64);
        c.input(format!("key={} msg={}", hexs(&k), hexs(&m)));
        eqb("hmac", &un!(ex::hmac::hmac(&bs(&k), &bs(&m))), &o.hmac(&k, &m))
    };
    cx.cases("dense-key-lengths", 260, |c| {
        let k = c.rng.bytes(c.idx as usize);
        let l = c.rng.len(64, 200);
        let m = c.rng.bytes(l);
        one(c, k, m)
    });
    cx.cases("dense-msg-lengths", 260, |c| {
        let l = c.rng.len(64, 140);
        let k = c.rng.bytes(l);
        let m = c.rng.bytes(c.idx as usize);
        one(c, k, m)
    });
    let n = cx.n(2500, 60000);
    cx.cases("random", n, |c| {
        let l = c.rng.len(64, 300);
        let k = c.rng.bytes(l);
        let l = c.rng.len(64, 700);
        let m = c.rng.bytes(l);
        one(c, k, m)
    });
    cx.cases("large", 8, |c| {
        let i = c.idx as usize;
        let (kl, ml) = [(32, 65536), (65536, 3), (65600, 70001), (1 << 20, 64), (64, 1 << 20), (65, (1 << 20) + 55), (256, 256), (300_001, 300_001)][i];
        let k = c.rng.uniform(kl);
        let m = c.rng.uniform(ml);
        one(c, k, m)
    });
    let n = cx.n(256, 4000);
    cx.cases("length ladder", n, |c| {
        let (i, j) = (c.idx % 16, c.idx / 16);
        let (kl, ml) = (c.rng.octave(i, 16), c.rng.octave(j, 16));
        let k = c.rng.bytes(kl);
        let m = c.rng.bytes(ml);
        one(c, k, m)
    });
    let n = cx.n(300, 3000);
    cx.cases("structural-laws", n, |c| {
        // zero padding of a short key changes nothing; a long key acts as its hash
        let kl = c.rng.below(64);
        let mut k = c.rng.bytes(kl);
        let l = c.rng.below(150);
        let m = c.rng.bytes(l);
        c.input(format!("key={} msg={}", hexs(&k), hexs(&m)));
        let a = un!(ex::hmac::hmac(&bs(&k), &bs(&m)));
        k.resize(64, 0);
        eqb("hmac of zero-padded key", &un!(ex::hmac::hmac(&bs(&k), &bs(&m))), &a)?;
        let l = 65 + c.rng.below(200);
        let k = c.rng.bytes(l);
        let h = un!(ex::sha2::hash(&bs(&k)));
        let a = un!(ex::hmac::hmac(&bs(&k), &bs(&m)));
        eqb("hmac of hashed long key", &un!(ex::hmac::hmac(&bs(&h), &bs(&m))), &a)
    });
}

// ------------------------------------------------------------------ C03
fn c03(cx: &mut Ctx) {
    let o = hash::Sha256::new();
    let n = cx.n(1500, 20000);
    cx.cases("extract", n, |c| {
        let l = if c.rng.chance(1, 6) { 0 } else { c.rng.len(64, 200) };
        let salt = c.rng.bytes(l);
        let l = c.rng.len(64, 300);
        let ikm = c.rng.bytes(l);
        c.obs("salt", if salt.is_empty() { "empty" } else { "present" });
        c.input(format!("salt={} ikm={}", hexs(&salt), hexs(&ikm)));
        eqb("hkdf extract", &un!(ex::hkdf::extract(&bs(&salt), &bs(&ikm))), &o.hkdf_extract(&salt, &ikm))
    });
    let ex1 = |c: &mut Case, prk: Vec<u8>, info: Vec<u8>, l: usize| -> Res {
        c.obs("blocks", (l + 31) / 32);
        c.obs("L mod 32", l % 32);
        c.input(format!("prk={} info={} L={}", hexs(&prk), hexs(&info), l));
        let r = un!(ex::hkdf::expand(&bs(&prk), &bs(&info), l));
        ensure(r.len() == l, || format!("expand returned {} bytes for L={}", r.len(), l))?;
        eqb("hkdf expand", &r, &o.hkdf_expand(&prk, &info, l))
    };
    cx.cases("expand-dense-L", 400, |c| {
        let pl = c.rng.len(32, 100).max(32);
        let prk = c.rng.bytes(pl);
        let il = c.rng.below(80);
        let info = c.rng.bytes(il);
        let l = c.idx as usize + 1;
        ex1(c, prk, info, l)
    });
    let n = cx.n(300, 4000);
    cx.cases("expand-random", n, |c| {
        let pl = c.rng.len(32, 100).max(32);
        let prk = c.rng.bytes(pl);
        let il = c.rng.len(64, 150);
        let info = c.rng.bytes(il);
        let l = 1 + c.rng.len(32, 1500);
        ex1(c, prk, info, l)
    });
    cx.cases("extract-large", 6, |c| {
        let (a, b) = [(65536, 3), (3, 65536), (70_000, 70_001), (0, 1 << 20), (1 << 20, 32), (65, 200_003)][c.idx as usize];
        let salt = c.rng.uniform(a);
        let ikm = c.rng.uniform(b);
        c.input(format!("salt={} ikm={}", hexs(&salt), hexs(&ikm)));
        eqb("hkdf extract", &un!(ex::hkdf::extract(&bs(&salt), &bs(&ikm))), &o.hkdf_extract(&salt, &ikm))
    });
    cx.cases("expand-large-inputs", 6, |c| {
        let (a, b, l) = [(32, 65536, 40), (65536, 3, 100), (70_000, 70_001, 33), (32, 1 << 18, 96), (1 << 20, 32, 64), (64, 5000, 8160)][c.idx as usize];
        let prk = c.rng.uniform(a);
        let info = c.rng.uniform(b);
        ex1(c, prk, info, l)
    });
    let n = cx.n(256, 4000);
    cx.cases("extract length ladder", n, |c| {
        let (i, j) = (c.idx % 16, c.idx / 16);
        let (a, b) = (c.rng.octave(i, 16), c.rng.octave(j, 16));
        let salt = c.rng.bytes(a);
        let ikm = c.rng.bytes(b);
        c.input(format!("salt={} ikm={}", hexs(&salt), hexs(&ikm)));
        eqb("hkdf extract", &un!(ex::hkdf::extract(&bs(&salt), &bs(&ikm))), &o.hkdf_extract(&salt, &ikm))
    });
    let n = cx.n(169, 1500);
    cx.cases("expand length ladder", n, |c| {
        let (i, j, k) = (c.idx % 13, c.idx / 13, c.rng.below(10));
        let (a, b) = (c.rng.octave(j, 13).max(32), c.rng.octave(k as u64, 13));
        let l = c.rng.octave(i, 13).clamp(1, 8160);
        // every block hashes prk and info again
        let (a, b) = if l > 1000 { (32 + a % 512, b % 512) } else { (a, b) };
        let prk = c.rng.bytes(a);
        let info = c.rng.bytes(b);
        ex1(c, prk, info, l)
    });
    let n = cx.n(40, 300);
    cx.cases("expand-near-maximum", n, |c| {
        let prk = c.rng.bytes(32);
        let info = c.rng.bytes(c.idx as usize % 20);
        let l = if c.idx < 36 { 8160 - c.idx as usize } else { 1 + c.rng.below(8160) };
        ex1(c, prk, info, l)
    });
    let n = cx.n(150, 1500);
    cx.cases("prefix-law", n, |c| {
        let prk = c.rng.bytes(32);
        let il = c.rng.below(40);
        let info = c.rng.bytes(il);
        let b = 1 + c.rng.below(400);
        let a = 1 + c.rng.below(b);
        c.input(format!("prk={} info={} {}<={}", hexs(&prk), hexs(&info), a, b));
        let big = un!(ex::hkdf::expand(&bs(&prk), &bs(&info), b));
        let small = un!(ex::hkdf::expand(&bs(&prk), &bs(&info), a));
        eqb("prefix", &small, &big[..a])
    });
}

// ------------------------------------------------------------------ C04
fn c04(cx: &mut Ctx) {
    let o = hash::Keccak::new();
    let fixed = |c: &mut Case, which: usize, m: &[u8]| -> Res {
        let names = ["sha3-224", "sha3-256", "sha3-384", "sha3-512"];
        let rate = [144, 136, 104, 72][which];
        let out = [28, 32, 48, 64][which];
        c.obs("function", names[which]);
        c.obs("rate:len mod rate", format!("{}:{}", rate, m.len() % rate));
        c.input(format!("{} msg={}", names[which], hexs(m)));
        let got = match which {
            0 => un!(ex::fips202::sha3224(&bs(m))),
            1 => un!(ex::fips202::sha3256(&bs(m))),
            2 => un!(ex::fips202::sha3384(&bs(m))),
            _ => un!(ex::fips202::sha3512(&bs(m))),
        };
        eqb(names[which], &got, &o.sponge(rate, m, 6, out))
    };
    let xof = |c: &mut Case, which: usize, m: &[u8], out: usize| -> Res {
        let names = ["shake128", "shake256"];
        let rate = [168, 136][which];
        c.obs("function", names[which]);
        c.obs("rate:len mod rate", format!("{}:{}", rate, m.len() % rate));
        c.obs("rate:out mod rate", format!("{}:{}", rate, out % rate));
        c.input(format!("{} msg={} out={}", names[which], hexs(m), out));
        let got = if which == 0 { un!(ex::fips202::shake128(&bs(m), out)) } else { un!(ex::fips202::shake256(&bs(m), out)) };
        eqb(names[which], &got, &o.sponge(rate, m, 0x1f, out))
    };
    cx.cases("dense-lengths", 4 * 300, |c| {
        let m = c.rng.bytes(c.idx as usize / 4);
        fixed(c, c.idx as usize % 4, &m)
    });
    cx.cases("xof-dense-lengths", 2 * 350, |c| {
        let m = c.rng.bytes(c.idx as usize / 2);
        let out = c.rng.len(8, 64);
        xof(c, c.idx as usize % 2, &m, out)
    });
    cx.cases("xof-dense-outputs", 2 * 700, |c| {
        let l = c.rng.below(60);
        let m = c.rng.bytes(l);
        xof(c, c.idx as usize % 2, &m, c.idx as usize / 2)
    });
    let n = cx.n(1200, 30000);
    cx.cases("random", n, |c| {
        let which = c.rng.below(6);
        let rate = [144, 136, 104, 72, 168, 136][which];
        let l = c.rng.len(rate, 5 * rate);
        let m = c.rng.bytes(l);
        if which < 4 {
            fixed(c, which, &m)
        } else {
            let out = c.rng.len(rate, 4 * rate);
            xof(c, which - 4, &m, out)
        }
    });
    let n = cx.n(6, 30);
    cx.cases("large", n.min(60), |c| {
        let m = c.rng.uniform(136 * 168 * 2 + c.idx as usize);
        if c.idx % 2 == 0 { xof(c, (c.idx / 2 % 2) as usize, &m, 5000) } else { fixed(c, (c.idx / 2 % 4) as usize, &m) }
    });
    let n = cx.n(6 * 96, 6 * 1000);
    cx.cases("length ladder", n, |c| {
        let (which, i) = (c.idx as usize % 6, c.idx / 6);
        let l = c.rng.octave(i, 16);
        let m = c.rng.bytes(l);
        if which < 4 {
            fixed(c, which, &m)
        } else if c.rng.chance(1, 2) {
            let out = c.rng.below(400);
            xof(c, which - 4, &m, out)
        } else {
            xof(c, which - 4, &m[..m.len().min(300)], l)
        }
    });
    cx.cases("very-large", 14, |c| {
        let i = c.idx as usize;
        if i < 4 {
            let l = (1 << 20) + c.rng.below(1000);
            let m = c.rng.uniform(l);
            fixed(c, i, &m)
        } else if i < 8 {
            let l = (1 << 16) + c.rng.below(300);
            let m = c.rng.uniform(l);
            fixed(c, i - 4, &m)
        } else if i < 10 {
            let l = (1 << 20) + c.rng.below(1000);
            let m = c.rng.uniform(l);
            xof(c, i % 2, &m, 70)
        } else {
            let m = c.rng.uniform(100);
            let out = if i < 12 { (1 << 20) + c.rng.below(1000) } else { (1 << 16) + c.rng.below(300) };
            xof(c, i % 2, &m, out)
        }
    });
    let n = cx.n(150, 2000);
    cx.cases("xof-prefix-law", n, |c| {
        let l = c.rng.below(400);
        let m = c.rng.bytes(l);
        let b = 1 + c.rng.below(500);
        let a = c.rng.below(b + 1);
        c.input(format!("msg={} {}<={}", hexs(&m), a, b));
        eqb("shake128 prefix", &un!(ex::fips202::shake128(&bs(&m), a)), &un!(ex::fips202::shake128(&bs(&m), b))[..a])?;
        eqb("shake256 prefix", &un!(ex::fips202::shake256(&bs(&m), a)), &un!(ex::fips202::shake256(&bs(&m), b))[..a])
    });
}

// ------------------------------------------------------------------ C05
fn c05(cx: &mut Ctx) {
    let o = hash::Blake2b::new();
    let one = |c: &mut Case, m: Vec<u8>| -> Res {
        c.obs("len mod 128", m.len() % 128);
        c.obs("full blocks", m.len() / 128);
        c.input(format!("msg={}", hexs(&m)));
        eqb("blake2b", &un!(ex::blake2::blake2b::blake2b(&bs(&m))), &o.hash512(&m))
    };
    cx.cases("dense-lengths", 800, |c| {
        let m = c.rng.bytes(c.idx as usize);
        one(c, m)
    });
    let n = cx.n(2500, 60000);
    cx.cases("random", n, |c| {
        let l = c.rng.len(128, 3000);
        let m = c.rng.bytes(l);
        one(c, m)
    });
    let n = cx.n(320, 6000);
    cx.cases("length ladder", n, |c| {
        let l = c.rng.octave(c.idx, 18);
        let m = c.rng.bytes(l);
        one(c, m)
    });
    let n = cx.n(6, 30);
    cx.cases("large", n.min(60), |c| {
        let l = [65536, 65537, 131072, 200_000, 262144 - 1, 524288][(c.idx % 6) as usize] + (c.idx as usize / 6) * 128;
        let m = c.rng.uniform(l);
        one(c, m)
    });
    cx.cases("very-large", 2, |c| {
        let m = c.rng.uniform((1 << 24) + 128 * c.idx as usize + 1);
        one(c, m)
    });
    // the byte counter needs more than 32 bits
    cx.cases("huge", 1, |c| {
        let l = (1usize << 32) + 128 * c.rng.below(3) + c.rng.below(128);
        let at = [0, l / 2, (1 << 32) - 1, l - 1, c.rng.below(l)];
        c.input(format!("msg=00*{} with 5a at {:?}", l, at));
        c.obs("len mod 128", l % 128);
        let mut m = ByteSeq::new(l);
        for i in at { m[i] = U8(0x5a); }
        let d = ex::blake2::blake2b::blake2b(&m);
        drop(m);
        let mut m = vec![0u8; l];
        for i in at { m[i] = 0x5a; }
        eqb("blake2b", &un!(d), &o.hash512(&m))
    });
}

// ------------------------------------------------------------------ C06
fn k128(b: &[u8]) -> ex::aes_gcm::aes::Key128 {
    ex::aes_gcm::aes::Key128::from_public_slice(b)
}
fn k256(b: &[u8]) -> ex::aes_gcm::aes::Key256 {
    ex::aes_gcm::aes::Key256::from_public_slice(b)
}
fn nonce(b: &[u8]) -> ex::aes_gcm::aes::Nonce {
    ex::aes_gcm::aes::Nonce::from_public_slice(b)
}
fn c06(cx: &mut Ctx) {
    use ex::aes_gcm::aes;
    let o = cipher::Aes::new();
    let n = cx.n(6000, 150000);
    cx.cases("block", n, |c| {
        let b: [u8; 16] = c.rng.arr();
        let is256 = c.idx % 2 == 1;
        let k = c.rng.bytes(if is256 { 32 } else { 16 });
        c.obs("key bits", k.len() * 8);
        c.input(format!("key={} block={}", hex(&k), hex(&b)));
        let blk = aes::Block::from_public_slice(&b);
        let got = if is256 { aes::aes256_encrypt_block(k256(&k), blk, 8, 14) } else { aes::aes128_encrypt_block(k128(&k), blk, 4, 10) };
        eqb("aes block", &un!(got), &o.block(&k, &b))
    });
    cx.cases("variable-key-and-text", 128 + 256 + 256, |c| {
        // the NIST VarKey/VarTxt families: one-bit-prefix keys and texts
        let i = c.idx as usize;
        let (k, b): (Vec<u8>, [u8; 16]) = if i < 128 {
            (pref(16, i + 1), [0; 16])
        } else if i < 384 {
            (pref(32, i - 127), [0; 16])
        } else {
            let j = i - 384;
            let mut b = [0u8; 16];
            b.copy_from_slice(&pref(16, j % 128 + 1));
            (vec![0; if j < 128 { 16 } else { 32 }], b)
        };
        c.input(format!("key={} block={}", hex(&k), hex(&b)));
        let blk = aes::Block::from_public_slice(&b);
        let got = if k.len() == 32 { aes::aes256_encrypt_block(k256(&k), blk, 8, 14) } else { aes::aes128_encrypt_block(k128(&k), blk, 4, 10) };
        eqb("aes block", &un!(got), &o.block(&k, &b))
    });
    let n = cx.n(1500, 30000);
    cx.cases("ctr", n, |c| {
        let is256 = c.idx % 2 == 1;
        let k = c.rng.bytes(if is256 { 32 } else { 16 });
        let iv = c.rng.bytes(12);
        let ctr = c.rng.edge(32) as u32;
        let l = if c.idx < 200 { c.idx as usize / 2 } else { c.rng.len(16, 400) };
        let m = c.rng.bytes(l);
        c.obs("len mod 16", l % 16);
        c.obs("counter carry", if (ctr & 0xff) as usize + (l + 15) / 16 > 256 { "crosses a byte" } else { "none" });
        c.input(format!("key={} nonce={} ctr={} msg={}", hex(&k), hex(&iv), ctr, hexs(&m)));
        let got = if is256 { aes::aes256_encrypt(k256(&k), nonce(&iv), U32(ctr), &bs(&m)) } else { aes::aes128_encrypt(k128(&k), nonce(&iv), U32(ctr), &bs(&m)) };
        let want = o.ctr(&k, &iv, ctr, &m);
        eqb("aes ctr", &un!(got), &want)?;
        let back = if is256 { aes::aes256_decrypt(k256(&k), nonce(&iv), U32(ctr), &bs(&want)) } else { aes::aes128_decrypt(k128(&k), nonce(&iv), U32(ctr), &bs(&want)) };
        eqb("aes ctr decrypt", &un!(back), &m)
    });
    let n = cx.n(6, 30);
    cx.cases("ctr-long", n.min(60), |c| {
        let is256 = c.idx % 2 == 1;
        let k = c.rng.bytes(if is256 { 32 } else { 16 });
        let iv = c.rng.bytes(12);
        let ctr = [1u32, 0xffff_ff00, 0xff, 0x00ff_fff0, 0, 0x7fff_ffff][(c.idx % 6) as usize];
        let m = c.rng.uniform(16 * 600 + c.idx as usize);
        c.input(format!("key={} nonce={} ctr={} msg={}", hex(&k), hex(&iv), ctr, hexs(&m)));
        let got = if is256 { aes::aes256_encrypt(k256(&k), nonce(&iv), U32(ctr), &bs(&m)) } else { aes::aes128_encrypt(k128(&k), nonce(&iv), U32(ctr), &bs(&m)) };
        eqb("aes ctr", &un!(got), &o.ctr(&k, &iv, ctr, &m))
    });
    let n = cx.n(128, 2000);
    cx.cases("ctr length ladder", n, |c| {
        let is256 = c.idx / 16 % 2 == 1;
        let k = c.rng.bytes(if is256 { 32 } else { 16 });
        let iv = c.rng.bytes(12);
        let ctr = c.rng.edge(32) as u32;
        let l = c.rng.octave(c.idx, 16);
        let m = c.rng.bytes(l);
        c.input(format!("key={} nonce={} ctr={} msg={}", hex(&k), hex(&iv), ctr, hexs(&m)));
        let got = if is256 { aes::aes256_encrypt(k256(&k), nonce(&iv), U32(ctr), &bs(&m)) } else { aes::aes128_encrypt(k128(&k), nonce(&iv), U32(ctr), &bs(&m)) };
        eqb("aes ctr", &un!(got), &o.ctr(&k, &iv, ctr, &m))
    });
    cx.cases("ctr-very-long", 4, |c| {
        // more than 2^16 blocks, from counters that cross 2^16, 2^24 and 2^32 on the way
        let is256 = c.idx % 2 == 1;
        let k = c.rng.uniform(if is256 { 32 } else { 16 });
        let iv = c.rng.uniform(12);
        let ctr = [0u32, 1, 0x00ff_8000, 0xffff_8000][c.idx as usize];
        let m = c.rng.uniform((1 << 20) + 1000 + c.idx as usize);
        c.input(format!("key={} nonce={} ctr={} msg={}", hex(&k), hex(&iv), ctr, hexs(&m)));
        let got = if is256 { aes::aes256_encrypt(k256(&k), nonce(&iv), U32(ctr), &bs(&m)) } else { aes::aes128_encrypt(k128(&k), nonce(&iv), U32(ctr), &bs(&m)) };
        eqb("aes ctr", &un!(got), &o.ctr(&k, &iv, ctr, &m))
    });
}
fn pref(len: usize, ones: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    for i in 0..ones {
        v[i / 8] |= 0x80 >> (i % 8);
    }
    v
}

// ------------------------------------------------------------------ C07
fn gcm_enc(k: &[u8], iv: &[u8], aad: &[u8], m: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let (c, t) = if k.len() == 32 {
        ex::aes_gcm::encrypt_aes256(k256(k), nonce(iv), &bs(aad), &bs(m))
    } else {
        ex::aes_gcm::encrypt_aes128(k128(k), nonce(iv), &bs(aad), &bs(m))
    };
    (un!(c), un!(t))
}
fn gcm_dec(k: &[u8], iv: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Result<Vec<u8>, String> {
    let t = ex::aes_gcm::gf128::Tag::from_public_slice(tag);
    let r = if k.len() == 32 {
        ex::aes_gcm::decrypt_aes256(k256(k), nonce(iv), &bs(aad), &bs(ct), t)
    } else {
        ex::aes_gcm::decrypt_aes128(k128(k), nonce(iv), &bs(aad), &bs(ct), t)
    };
    r.map(|x| un!(x))
}
fn c07(cx: &mut Ctx) {
    let o = cipher::Aes::new();
    let one = |c: &mut Case, is256: bool, la: usize, lm: usize| -> Res {
        let k = c.rng.bytes(if is256 { 32 } else { 16 });
        let iv = c.rng.bytes(12);
        let aad = c.rng.bytes(la);
        let m = c.rng.bytes(lm);
        c.obs("key bits", k.len() * 8);
        c.obs("(aad,msg) len mod 16", format!("{},{}", la % 16, lm % 16));
        c.input(format!("key={} iv={} aad={} msg={}", hex(&k), hex(&iv), hexs(&aad), hexs(&m)));
        let (ct, tag) = gcm_enc(&k, &iv, &aad, &m);
        let (wc, wt) = o.gcm(&k, &iv, &aad, &m);
        eqb("gcm ciphertext", &ct, &wc)?;
        eqb("gcm tag", &tag, &wt)
    };
    cx.cases("length-grid", 18 * 18 * 2, |c| {
        let i = c.idx as usize;
        one(c, i % 2 == 1, (i / 2) % 18, i / 36)
    });
    let n = cx.n(500, 12000);
    cx.cases("random", n, |c| {
        let la = c.rng.len(16, 200);
        let lm = c.rng.len(16, 300);
        one(c, c.idx % 2 == 0, la, lm)
    });
    let n = cx.n(2500, 60000);
    cx.cases("ghash", n, |c| {
        let k = c.rng.bytes(16);
        let l = c.rng.len(16, 120);
        let t = c.rng.bytes(l);
        c.obs("ghash len mod 16", l % 16);
        c.input(format!("h={} text={}", hex(&k), hexs(&t)));
        let got = ex::aes_gcm::gf128::gmac(&bs(&t), ex::aes_gcm::gf128::Key::from_public_slice(&k));
        eqb("ghash", &un!(got), &cipher::ghash(&k, &t))
    });
    cx.cases("ghash-basis", 128 * 16, |c| {
        // products of monomials: x^i * x^j for every i and a sweep of j
        let i = c.idx as usize / 16;
        let j = (c.idx as usize % 16) * 8 + i % 8;
        let (mut a, mut b) = (vec![0u8; 16], vec![0u8; 16]);
        a[i / 8] = 0x80 >> (i % 8);
        b[j / 8] = 0x80 >> (j % 8);
        c.input(format!("h=x^{} text=x^{}", i, j));
        let got = ex::aes_gcm::gf128::gmac(&bs(&b), ex::aes_gcm::gf128::Key::from_public_slice(&a));
        eqb("ghash", &un!(got), &cipher::ghash(&a, &b))
    });
    let n = cx.n(2, 12);
    cx.cases("long", n.min(40), |c| one(c, c.idx % 2 == 0, 4000 + c.idx as usize, 9000 + 7 * c.idx as usize));
    let n = cx.n(196, 2000);
    cx.cases("length ladder", n, |c| {
        let (i, j) = (c.idx % 14, c.idx / 14);
        let (a, b) = (c.rng.octave(i, 14), c.rng.octave(j, 14));
        let is256 = c.rng.chance(1, 2);
        one(c, is256, a, b)
    });
    cx.cases("very-long", 8, |c| {
        // lengths around 2^13, 2^16 and 2^20 bytes on either side (2^16, 2^19, 2^23 bits)
        let (a, m) = [(8192, 20), (20, 8192), (65536, 17), (17, 65535), (65537, 65536), (1 << 20, 5), (5, (1 << 20) + 16), (8191, 8193)][c.idx as usize];
        one(c, c.idx % 2 == 0, a, m)
    });
    cx.cases("huge-aad", 4, |c| {
        let n = 1 << if c.idx < 2 { 24 } else { 29 };
        // With additional data of zero bytes GHASH stays zero until the length block, so the
        // tag is known without going through the data: E(J0) xor lengths * H.
        let is256 = c.idx % 2 == 0;
        let la = n + 16 * c.rng.below(10) + 3;
        let k = c.rng.uniform(if is256 { 32 } else { 16 });
        let iv = c.rng.uniform(12);
        c.input(format!("key={} iv={} aad=00*{} msg=", hex(&k), hex(&iv), la));
        let (k2, iv2) = (k.clone(), iv.clone());
        let (ct, tag) = if is256 {
            ex::aes_gcm::encrypt_aes256(k256(&k2), nonce(&iv2), &ByteSeq::new(la), &ByteSeq::new(0))
        } else {
            ex::aes_gcm::encrypt_aes128(k128(&k2), nonce(&iv2), &ByteSeq::new(la), &ByteSeq::new(0))
        };
        let h = o.block(&k, &[0; 16]);
        let mut lens = ((la as u64) * 8).to_be_bytes().to_vec();
        lens.extend_from_slice(&[0; 8]);
        let mut j0 = [0u8; 16];
        j0[..12].copy_from_slice(&iv);
        j0[15] = 1;
        let e = o.block(&k, &j0);
        let want: Vec<u8> = cipher::ghash(&h[..], &lens).iter().zip(e.iter()).map(|(a, b)| a ^ b).collect();
        ensure(ct.len() == 0, || "ciphertext of an empty message is not empty".to_string())?;
        eqb("gcm tag", &un!(tag), &want)
    });
}

// ------------------------------------------------------------------ C08
use ex::chacha20_poly1305::chacha20 as cc;
fn ckey(b: &[u8]) -> cc::Key {
    cc::Key::from_public_slice(b)
}
fn civ(b: &[u8]) -> cc::IV {
    cc::IV::from_public_slice(b)
}
fn c08(cx: &mut Ctx) {
    let n = cx.n(4000, 100000);
    cx.cases("block", n, |c| {
        let k = c.rng.bytes(32);
        let iv = c.rng.bytes(12);
        let ctr = c.rng.edge(32) as u32;
        c.obs("counter high bit", ctr >> 31);
        c.input(format!("key={} iv={} ctr={}", hex(&k), hex(&iv), ctr));
        let w = cipher::chacha_block(&k, ctr, &iv);
        eqb("block", &un!(cc::block(ckey(&k), U32(ctr), civ(&iv))), &w)?;
        let st = cc::block_inner(ckey(&k), U32(ctr), civ(&iv));
        let words: Vec<u8> = st.iter().flat_map(|x| x.declassify().to_le_bytes()).collect();
        eqb("block_inner", &words, &w)?;
        let init: Vec<u32> = cc::block_init(ckey(&k), U32(ctr), civ(&iv)).iter().map(|x| x.declassify()).collect();
        eq("block_init", &init, &cipher::chacha_core(&k, ctr, &iv))?;
        eqb("state_to_bytes", &un!(cc::state_to_bytes(st)), &w)
    });
    let n = cx.n(2500, 50000);
    cx.cases("quarter-round", n, |c| {
        let s: Vec<u32> = (0..16).map(|_| c.rng.edge(32) as u32).collect();
        let mut ix: Vec<usize> = (0..16).collect();
        for i in 0..4 {
            let j = i + c.rng.below(16 - i);
            ix.swap(i, j);
        }
        c.input(format!("state={:x?} idx={:?}", s, &ix[..4]));
        let mut st = cc::State::new();
        for i in 0..16 {
            st[i] = U32(s[i]);
        }
        let r = cc::quarter_round(ix[0] as u32, ix[1] as u32, ix[2] as u32, ix[3] as u32, st);
        let mut w = s;
        cipher::qr(&mut w, ix[0], ix[1], ix[2], ix[3]);
        eq("quarter_round", &r.iter().map(|x| x.declassify()).collect::<Vec<u32>>(), &w)
    });
    let enc = |c: &mut Case, l: usize| -> Res {
        let k = c.rng.bytes(32);
        let iv = c.rng.bytes(12);
        let m = c.rng.bytes(l);
        c.obs("len mod 64", l % 64);
        c.obs("blocks", (l + 63) / 64);
        c.input(format!("key={} iv={} msg={}", hex(&k), hex(&iv), hexs(&m)));
        let ct = un!(cc::chacha(ckey(&k), civ(&iv), &bs(&m)).map_err(|e| format!("chacha failed: {}", e))?);
        eqb("chacha20", &ct, &cipher::chacha(&k, 1, &iv, &m))?;
        let back = un!(cc::chacha(ckey(&k), civ(&iv), &bs(&ct)).map_err(|e| format!("chacha failed: {}", e))?);
        eqb("chacha20 twice", &back, &m)
    };
    cx.cases("stream-dense-lengths", 330, |c| enc(c, c.idx as usize));
    let n = cx.n(400, 12000);
    cx.cases("stream-random", n, |c| {
        let l = c.rng.len(64, 1500);
        enc(c, l)
    });
    let n = cx.n(4, 24);
    cx.cases("stream-long", n.min(60), |c| enc(c, [64 * 256, 64 * 257 + 1, 64 * 300 - 1, 64 * 1030][(c.idx % 4) as usize] + c.idx as usize / 4));
    let n = cx.n(256, 4000);
    cx.cases("stream length ladder", n, |c| {
        let l = c.rng.octave(c.idx, 17);
        enc(c, l)
    });
    cx.cases("stream-very-long", 3, |c| enc(c, [65536, (1 << 20) + 3, 64 * 65540 + 5][c.idx as usize]));
}

// ------------------------------------------------------------------ C09
fn pad(v: BigUint, n: usize) -> Vec<u8> {
    let mut b = v.to_bytes_le();
    b.resize(n, 0);
    b.truncate(n);
    b
}
fn c09(cx: &mut Ctx) {
    use ex::chacha20_poly1305::poly1305 as p;
    let one = |c: &mut Case, k: &[u8], m: &[u8]| -> Res {
        c.obs("len mod 16", m.len() % 16);
        c.input(format!("key={} msg={}", hex(k), hexs(m)));
        let t = p::poly(&bs(m), ckey(k));
        eqb("poly1305", &t.iter().cloned().collect::<Vec<u8>>(), &cipher::poly1305(k, m))
    };
    cx.cases("dense-lengths", 200, |c| {
        let k = c.rng.bytes(32);
        let m = c.rng.bytes(c.idx as usize);
        one(c, &k, &m)
    });
    let n = cx.n(6000, 150000);
    cx.cases("random", n, |c| {
        let k = c.rng.bytes(32);
        let l = c.rng.len(16, 160);
        let m = c.rng.bytes(l);
        one(c, &k, &m)
    });
    let n = cx.n(5000, 100000);
    cx.cases("accumulator-extremes", n, |c| {
        // choose r, then the message block so that block*r mod p is a chosen extreme value
        let p = (BigUint::one() << 130usize) - BigUint::from(5u32);
        let mut r = c.rng.uniform(16);
        if c.rng.chance(1, 3) {
            r = vec![0; 16];
            r[0] = 1 + c.rng.below(6) as u8;
        }
        for i in [3, 7, 11, 15] { r[i] &= 15; }
        for i in [4, 8, 12] { r[i] &= 252; }
        let rn = BigUint::from_bytes_le(&r);
        let s = match c.rng.below(4) { 0 => vec![0xff; 16], 1 => vec![0; 16], _ => c.rng.uniform(16) };
        if rn.is_zero() {
            c.trivial = true;
            return Ok(());
        }
        let d = c.rng.below(12) as u32;
        let target = match c.rng.below(5) {
            0 => &p - BigUint::from(1 + d),
            1 => BigUint::from(d),
            2 => (BigUint::one() << 128usize) - BigUint::from(d),
            3 => (BigUint::one() << 128usize) + BigUint::from(d),
            _ => (BigUint::one() << 129usize) + BigUint::from(d),
        };
        let mut k = r.clone();
        k.extend_from_slice(&s);
        // one block: b*r = target -> b = target/r; needs 2^128 <= b < 2^129
        // two blocks: (b1*r + b2)*r = target -> b2 = target/r - b1*r: try several b1
        let want = &target * ec::modinv(&rn, &p) % &p;
        let lo = BigUint::one() << 128usize;
        let hi = BigUint::one() << 129usize;
        let mut msg = None;
        if want >= lo && want < hi {
            msg = Some(pad(&want - &lo, 16));
        } else {
            for _ in 0..40 {
                let b1 = c.rng.uniform(16);
                let b1n = BigUint::from_bytes_le(&b1) + &lo;
                let b2 = (&want + &p - (b1n * &rn) % &p) % &p;
                if b2 >= lo && b2 < hi {
                    let mut m = b1;
                    m.extend(pad(b2 - &lo, 16));
                    msg = Some(m);
                    break;
                }
            }
        }
        match msg {
            Some(m) => {
                c.obs("extreme reached", true);
                one(c, &k, &m)
            }
            None => {
                c.trivial = true;
                Ok(())
            }
        }
    });
    let n = cx.n(600, 10000);
    cx.cases("all-ones-and-small-r", n, |c| {
        let mut k = vec![0u8; 32];
        k[0] = c.rng.below(8) as u8;
        for i in 16..32 { k[i] = if c.rng.chance(1, 2) { 0xff } else { 0 }; }
        let l = c.rng.below(60);
        let mut m = vec![0xffu8; l];
        if l > 0 && c.rng.chance(2, 3) {
            let i = c.rng.below(l);
            m[i] = *c.rng.pick(&[0u8, 0xfb, 0xfa, 0xfe, 0xfc, 1]);
        }
        one(c, &k, &m)
    });
    cx.cases("large", 6, |c| {
        let k = c.rng.uniform(32);
        let l = [4096, 8192, 65535, 65536, 65552, 300_003][c.idx as usize];
        let m = c.rng.uniform(l);
        one(c, &k, &m)
    });
    let n = cx.n(160, 3000);
    cx.cases("length ladder", n, |c| {
        let k = c.rng.bytes(32);
        let l = c.rng.octave(c.idx, 16);
        let m = c.rng.bytes(l);
        one(c, &k, &m)
    });
    let n = cx.n(300, 4000);
    cx.cases("mac-with-derived-key", n, |c| {
        let k = c.rng.bytes(32);
        let iv = c.rng.bytes(12);
        let l = c.rng.len(16, 100);
        let m = c.rng.bytes(l);
        c.input(format!("key={} iv={} msg={}", hex(&k), hex(&iv), hexs(&m)));
        let t = p::poly_mac(&bs(&m), ckey(&k), civ(&iv));
        eqb("poly_mac", &t.iter().cloned().collect::<Vec<u8>>(), &cipher::poly1305(&cipher::chacha_block(&k, 0, &iv)[..32], &m))
    });
}

// ------------------------------------------------------------------ C10
use ex::chacha20_poly1305 as ae;
fn cp_enc(k: &[u8], iv: &[u8], aad: &[u8], m: &[u8]) -> Result<(Vec<u8>, Vec<u8>), String> {
    let (c, t) = ae::encrypt(ckey(k), civ(iv), &bs(aad), &bs(m))?;
    Ok((un!(c), t.iter().cloned().collect()))
}
fn cp_dec(k: &[u8], iv: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Result<Vec<u8>, String> {
    let t = ae::poly1305::Tag::from_slice(tag);
    ae::decrypt(ckey(k), civ(iv), &bs(aad), &bs(ct), t).map(|x| un!(x))
}
fn c10(cx: &mut Ctx) {
    let one = |c: &mut Case, la: usize, lm: usize| -> Res {
        let k = c.rng.bytes(32);
        let iv = c.rng.bytes(12);
        let aad = c.rng.bytes(la);
        let m = c.rng.bytes(lm);
        c.obs("(aad,msg) len mod 16", format!("{},{}", la % 16, lm % 16));
        c.input(format!("key={} iv={} aad={} msg={}", hex(&k), hex(&iv), hexs(&aad), hexs(&m)));
        let (ct, tag) = cp_enc(&k, &iv, &aad, &m).map_err(|e| format!("encrypt failed: {}", e))?;
        let (wc, wt) = cipher::aead(&k, &iv, &aad, &m);
        eqb("ciphertext", &ct, &wc)?;
        eqb("tag", &tag, &wt)?;
        eqb("decrypt of reference", &cp_dec(&k, &iv, &aad, &wc, &wt).map_err(|e| format!("reference ciphertext rejected: {}", e))?, &m)
    };
    cx.cases("length-grid", 34 * 18, |c| one(c, c.idx as usize % 18, c.idx as usize / 18));
    let n = cx.n(700, 20000);
    cx.cases("random", n, |c| {
        let la = c.rng.len(16, 300);
        let lm = c.rng.len(64, 500);
        one(c, la, lm)
    });
    let n = cx.n(4, 20);
    cx.cases("long", n, |c| one(c, 3000 + c.idx as usize, 64 * 257 + c.idx as usize));
    let n = cx.n(225, 3000);
    cx.cases("length ladder", n, |c| {
        let (i, j) = (c.idx % 15, c.idx / 15);
        let (a, b) = (c.rng.octave(i, 15), c.rng.octave(j, 15));
        one(c, a, b)
    });
    cx.cases("very-long", 6, |c| {
        let (a, m) = [(65536, 20), (20, 65536), (65537 + 16, 65537 + 32), (1 << 20, 5), (5, 1 << 20), (8192, 8193)][c.idx as usize];
        one(c, a, m)
    });
}

// ------------------------------------------------------------------ C11
fn c11(cx: &mut Ctx) {
    type Dec<'a> = &'a dyn Fn(&[u8], &[u8], &[u8], &[u8], &[u8]) -> Result<Vec<u8>, String>;
    let kinds: [(&str, usize); 3] = [("aes128-gcm", 16), ("aes256-gcm", 32), ("chacha20-poly1305", 32)];
    let setup = |c: &mut Case, maxlen: usize| {
        let which = c.idx as usize % 3;
        let k = c.rng.uniform(kinds[which].1);
        let iv = c.rng.uniform(12);
        let la = c.rng.len(16, maxlen);
        let lm = c.rng.len(16, maxlen);
        let (aad, m) = (c.rng.bytes(la), c.rng.bytes(lm));
        c.obs("aead", kinds[which].0);
        (which, k, iv, aad, m)
    };
    fn dec(which: usize) -> Dec<'static> {
        if which < 2 { &gcm_dec } else { &cp_dec }
    }
    fn enc(which: usize, k: &[u8], iv: &[u8], aad: &[u8], m: &[u8]) -> Result<(Vec<u8>, Vec<u8>), String> {
        if which < 2 { Ok(gcm_enc(k, iv, aad, m)) } else { cp_enc(k, iv, aad, m) }
    }
    fn reject(d: Dec, what: &str, k: &[u8], iv: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Res {
        tick();
        match d(k, iv, aad, ct, tag) {
            Err(_) => Ok(()),
            Ok(p) => Err(format!("forgery accepted: {} (returned {})", what, hexs(&p))),
        }
    }
    let n = cx.n(700, 15000);
    cx.cases("round-trip", n, |c| {
        let (w, k, iv, aad, m) = setup(c, 300);
        c.input(format!("{} key={} iv={} aad={} msg={}", kinds[w].0, hex(&k), hex(&iv), hexs(&aad), hexs(&m)));
        let (ct, tag) = enc(w, &k, &iv, &aad, &m)?;
        ensure(ct.len() == m.len(), || "ciphertext length".into())?;
        let p = dec(w)(&k, &iv, &aad, &ct, &tag).map_err(|e| format!("genuine ciphertext rejected: {}", e))?;
        eqb("decrypted", &p, &m)
    });
    let n = cx.n(45, 600);
    cx.cases("every-tag-bit", n, |c| {
        let (w, k, iv, aad, m) = setup(c, 40);
        c.input(format!("{} key={} iv={} aad={} msg={}", kinds[w].0, hex(&k), hex(&iv), hexs(&aad), hexs(&m)));
        let (ct, tag) = enc(w, &k, &iv, &aad, &m)?;
        for bit in 0..128 {
            let mut t = tag.clone();
            t[bit / 8] ^= 1 << (bit % 8);
            reject(dec(w), &format!("tag bit {} flipped", bit), &k, &iv, &aad, &ct, &t)?;
            c.obs("tampering", "tag bit");
        }
        for byte in 0..16 {
            let mut t = tag.clone();
            t[byte] = !t[byte];
            t[(byte + 1) % 16] ^= 0x55;
            reject(dec(w), &format!("tag bytes {} changed", byte), &k, &iv, &aad, &ct, &t)?;
            c.obs("tampering", "tag bytes");
        }
        // changes in two places that sums, folds, counts or word-wise comparisons may not see
        for _ in 0..40 {
            let (i, j) = (c.rng.below(16), c.rng.below(16));
            let (i, j) = if i == j { (i, (j + 8) % 16) } else { (i, j) };
            let x = c.rng.u64() as u8 | 1 << c.rng.below(8);
            let mut t = tag.clone();
            let how = c.rng.below(6);
            match how {
                0 => { t[i] ^= x; t[j] ^= x }
                1 => { t[i] = t[i].wrapping_add(x); t[j] = t[j].wrapping_sub(x) }
                2 => t.swap(i, j),
                3 => { let w = 1 << c.rng.below(4); for b in 0..w { t.swap(i / w * w + b, j / w * w + b) } }
                4 => t.rotate_left(1 + i.min(14)),
                _ => { let (a, b) = (i.min(j), i.max(j)); for b in &mut t[a..=b] { *b = c.rng.u64() as u8 } }
            }
            if t != tag {
                reject(dec(w), &format!("tag changed in two places ({} {} {} {:02x})", how, i, j, x), &k, &iv, &aad, &ct, &t)?;
                c.obs("tampering", "tag in two places");
            }
        }
        for t in [vec![0u8; 16], vec![0xff; 16], tag.iter().rev().cloned().collect::<Vec<u8>>()] {
            if t != tag {
                reject(dec(w), "constant or reversed tag", &k, &iv, &aad, &ct, &t)?;
            }
        }
        Ok(())
    });
    let n = cx.n(500, 12000);
    cx.cases("bit-flips-elsewhere", n, |c| {
        let (w, k, iv, aad, m) = setup(c, 90);
        c.input(format!("{} key={} iv={} aad={} msg={}", kinds[w].0, hex(&k), hex(&iv), hexs(&aad), hexs(&m)));
        let (ct, tag) = enc(w, &k, &iv, &aad, &m)?;
        let d = dec(w);
        let flip = |v: &[u8], i: usize| {
            let mut v = v.to_vec();
            v[i / 8] ^= 1 << (i % 8);
            v
        };
        for _ in 0..2 {
            let i = c.rng.below(k.len() * 8);
            reject(d, &format!("key bit {} flipped", i), &flip(&k, i), &iv, &aad, &ct, &tag)?;
            c.obs("tampering", "key bit");
            let i = c.rng.below(96);
            reject(d, &format!("nonce bit {} flipped", i), &k, &flip(&iv, i), &aad, &ct, &tag)?;
            c.obs("tampering", "nonce bit");
            c.obs("nonce bit", i);
            if !aad.is_empty() {
                let i = c.rng.below(aad.len() * 8);
                reject(d, &format!("aad bit {} flipped", i), &k, &iv, &flip(&aad, i), &ct, &tag)?;
                let i = aad.len() * 8 - 1 - c.rng.below(8);
                reject(d, &format!("aad bit {} flipped", i), &k, &iv, &flip(&aad, i), &ct, &tag)?;
                c.obs("tampering", "aad bit");
            }
            if !ct.is_empty() {
                let i = c.rng.below(ct.len() * 8);
                reject(d, &format!("ciphertext bit {} flipped", i), &k, &iv, &aad, &flip(&ct, i), &tag)?;
                let i = ct.len() * 8 - 1 - c.rng.below(8);
                reject(d, &format!("ciphertext bit {} flipped", i), &k, &iv, &aad, &flip(&ct, i), &tag)?;
                c.obs("tampering", "ciphertext bit");
            }
        }
        Ok(())
    });
    let n = cx.n(3 * 64, 3 * 1000);
    cx.cases("length ladder", n, |c| {
        let (w, i) = (c.idx as usize % 3, c.idx / 3);
        let j = c.rng.below(14) as u64;
        let (mut la, mut lm) = (c.rng.octave(i, 14), c.rng.octave(j, 14));
        if c.rng.chance(1, 2) { std::mem::swap(&mut la, &mut lm); }
        let k = c.rng.uniform(kinds[w].1);
        let iv = c.rng.uniform(12);
        let (aad, m) = (c.rng.bytes(la), c.rng.bytes(lm));
        c.obs("aead", kinds[w].0);
        c.input(format!("{} key={} iv={} aad={} msg={}", kinds[w].0, hex(&k), hex(&iv), hexs(&aad), hexs(&m)));
        let (ct, tag) = enc(w, &k, &iv, &aad, &m)?;
        let d = dec(w);
        eqb("decryption", &d(&k, &iv, &aad, &ct, &tag).map_err(|e| format!("genuine ciphertext rejected: {}", e))?, &m)?;
        if la > 0 {
            let i = c.rng.below(la);
            let mut a = aad.clone();
            a[i] ^= 1 << c.rng.below(8);
            reject(d, &format!("aad byte {} changed", i), &k, &iv, &a, &ct, &tag)?;
            reject(d, "aad cut by one", &k, &iv, &aad[..la - 1], &ct, &tag)?;
        }
        if lm > 0 {
            let i = c.rng.below(lm);
            let mut x = ct.clone();
            x[i] ^= 1 << c.rng.below(8);
            reject(d, &format!("ciphertext byte {} changed", i), &k, &iv, &aad, &x, &tag)?;
            reject(d, "ciphertext cut by one", &k, &iv, &aad, &ct[..lm - 1], &tag)?;
        }
        let i = c.rng.below(128);
        let mut t = tag.clone();
        t[i / 8] ^= 1 << (i % 8);
        reject(d, &format!("tag bit {} flipped", i), &k, &iv, &aad, &ct, &t)
    });
    cx.cases("large", 24, |c| {
        // the same on inputs of several KiB up to more than 64 KiB
        let w = c.idx as usize % 3;
        let (la, lm) = [(8192, 20), (20, 8193), (66_000, 3), (3, 66_000), (65_536, 65_536), (300, 4096), (256, 256), (0, 20_000)][c.idx as usize / 3];
        let k = c.rng.uniform(kinds[w].1);
        let iv = c.rng.uniform(12);
        let (aad, m) = (c.rng.uniform(la), c.rng.uniform(lm));
        c.obs("aead", kinds[w].0);
        c.input(format!("{} key={} iv={} aad={} msg={}", kinds[w].0, hex(&k), hex(&iv), hexs(&aad), hexs(&m)));
        let (ct, tag) = enc(w, &k, &iv, &aad, &m)?;
        let d = dec(w);
        eqb("decryption", &d(&k, &iv, &aad, &ct, &tag)?, &m)?;
        for _ in 0..4 {
            if la > 0 {
                let i = c.rng.below(la);
                let mut a = aad.clone();
                a[i] ^= 1 << c.rng.below(8);
                reject(d, &format!("aad byte {} changed", i), &k, &iv, &a, &ct, &tag)?;
            }
            if lm > 0 {
                let i = c.rng.below(lm);
                let mut x = ct.clone();
                x[i] ^= 1 << c.rng.below(8);
                reject(d, &format!("ciphertext byte {} changed", i), &k, &iv, &aad, &x, &tag)?;
            }
            let i = c.rng.below(128);
            let mut t = tag.clone();
            t[i / 8] ^= 1 << (i % 8);
            reject(d, &format!("tag bit {} flipped", i), &k, &iv, &aad, &ct, &t)?;
        }
        // data appended, dropped or moved across the boundary in whole blocks
        for n in [16usize, 256, 4096, 8192, 65536] {
            let (mut a, mut x) = (aad.clone(), ct.clone());
            a.extend(vec![0; n]);
            reject(d, &format!("{} zero bytes appended to the aad", n), &k, &iv, &a, &ct, &tag)?;
            x.extend(vec![0; n]);
            reject(d, &format!("{} zero bytes appended to the ciphertext", n), &k, &iv, &aad, &x, &tag)?;
            if la >= n { reject(d, &format!("{} bytes cut from the aad", n), &k, &iv, &aad[..la - n], &ct, &tag)?; }
            if lm >= n { reject(d, &format!("{} bytes cut from the ciphertext", n), &k, &iv, &aad, &ct[..lm - n], &tag)?; }
            if lm >= n {
                let a: Vec<u8> = aad.iter().chain(&ct[..n]).cloned().collect();
                reject(d, &format!("{} bytes moved from the ciphertext to the aad", n), &k, &iv, &a, &ct[n..], &tag)?;
            }
            c.obs("tampering", "whole blocks");
        }
        Ok(())
    });
    let n = cx.n(400, 8000);
    cx.cases("length-and-structure", n, |c| {
        let (w, k, iv, aad, m) = setup(c, 70);
        c.input(format!("{} key={} iv={} aad={} msg={}", kinds[w].0, hex(&k), hex(&iv), hexs(&aad), hexs(&m)));
        let (ct, tag) = enc(w, &k, &iv, &aad, &m)?;
        let d = dec(w);
        let cut = |v: &[u8]| v[..v.len() - 1].to_vec();
        let ext = |v: &[u8], b: u8| {
            let mut v = v.to_vec();
            v.push(b);
            v
        };
        if !ct.is_empty() {
            reject(d, "ciphertext truncated", &k, &iv, &aad, &cut(&ct), &tag)?;
            reject(d, "ciphertext dropped", &k, &iv, &aad, &[], &tag)?;
            c.obs("tampering", "ciphertext truncated");
        }
        if !aad.is_empty() {
            reject(d, "aad truncated", &k, &iv, &cut(&aad), &ct, &tag)?;
            reject(d, "aad dropped", &k, &iv, &[], &ct, &tag)?;
            c.obs("tampering", "aad truncated");
        }
        reject(d, "ciphertext zero-extended", &k, &iv, &aad, &ext(&ct, 0), &tag)?;
        reject(d, "aad zero-extended", &k, &iv, &ext(&aad, 0), &ct, &tag)?;
        c.obs("tampering", "zero-extended");
        if aad != ct {
            reject(d, "aad and ciphertext swapped", &k, &iv, &ct, &aad, &tag)?;
            c.obs("tampering", "swapped");
        }
        // move the boundary between aad and ciphertext
        let whole: Vec<u8> = aad.iter().chain(ct.iter()).cloned().collect();
        let cutat = c.rng.below(whole.len() + 1);
        if cutat != aad.len() {
            reject(d, "aad/ciphertext boundary moved", &k, &iv, &whole[..cutat], &whole[cutat..], &tag)?;
            c.obs("tampering", "boundary moved");
        }
        // splice from another encryption under the same key
        let iv2 = c.rng.uniform(12);
        let l2 = c.rng.len(16, 70);
        let m2 = c.rng.bytes(l2);
        let (ct2, tag2) = enc(w, &k, &iv2, &aad, &m2)?;
        reject(d, "tag of another message", &k, &iv, &aad, &ct, &tag2)?;
        reject(d, "ciphertext and tag under another nonce", &k, &iv, &aad, &ct2, &tag2)?;
        c.obs("tampering", "splice");
        // a permuted block order
        if ct.len() >= 32 && ct[..16] != ct[16..32] {
            let mut p = ct.clone();
            for i in 0..16 { p.swap(i, 16 + i); }
            reject(d, "two ciphertext blocks swapped", &k, &iv, &aad, &p, &tag)?;
            c.obs("tampering", "blocks swapped");
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C12
use ex::curve25519 as x;
fn xsk(b: &[u8]) -> x::SerializedScalar {
    x::SerializedScalar::from_public_slice(b)
}
fn xpt(b: &[u8]) -> x::SerializedPoint {
    x::SerializedPoint::from_public_slice(b)
}
fn c12(cx: &mut Ctx) {
    let p25519 = || (BigUint::one() << 255usize) - BigUint::from(19u32);
    let one = |c: &mut Case, k: &[u8], u: &[u8]| -> Res {
        c.input(format!("k={} u={}", hex(k), hex(u)));
        eqb("x25519", &un!(x::scalarmult(xsk(k), xpt(u))), &ec::x25519(k, u))
    };
    let n = cx.n(500, 8000);
    cx.cases("random", n, |c| {
        let k = c.rng.bytes(32);
        let u = c.rng.bytes(32);
        c.obs("u top bit", u[31] >> 7);
        c.obs("k low bits", k[0] & 7);
        one(c, &k, &u)
    });
    let n = cx.n(300, 3000);
    cx.cases("special-u", n, |c| {
        // canonical edges, non-canonical encodings p..2^255-1 and low-order points, with either top bit
        let p = p25519();
        let low: Vec<BigUint> = vec![
            BigUint::zero(),
            BigUint::one(),
            BigUint::from_bytes_le(&hv::gen::unhex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800")),
            BigUint::from_bytes_le(&hv::gen::unhex("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157")),
            &p - BigUint::one(),
            p.clone(),
            &p + BigUint::one(),
        ];
        let v = match c.idx as usize {
            i if i < 14 => low[i % 7].clone(),
            i if i < 14 + 38 => &p + BigUint::from(((i - 14) % 19) as u32),
            i if i < 14 + 38 + 20 => &p - BigUint::from((i - 52) as u32 + 1),
            i if i < 14 + 38 + 40 => BigUint::from((i - 72) as u32 + 2),
            _ => {
                let d = c.rng.below(1000) as u32;
                match c.rng.below(3) { 0 => BigUint::one() << c.rng.below(255), 1 => &p - BigUint::from(d), _ => BigUint::from(d) }
            }
        };
        let mut u = pad(v, 32);
        if c.rng.chance(1, 2) { u[31] |= 0x80; }
        let k = c.rng.bytes(32);
        c.obs("u class", if c.idx < 14 { "low order" } else if c.idx < 52 { "non-canonical" } else { "edge" });
        one(c, &k, &u)
    });
    let n = cx.n(120, 1000);
    cx.cases("clamping", n, |c| {
        let mut k = c.rng.bytes(32);
        let u = c.rng.bytes(32);
        c.input(format!("k={} u={}", hex(&k), hex(&u)));
        let a = un!(x::scalarmult(xsk(&k), xpt(&u)));
        k[0] ^= c.rng.below(8) as u8;
        k[31] ^= 0x80;
        k[31] ^= (c.rng.below(2) as u8) << 6;
        let mut u2 = u.clone();
        u2[31] ^= 0x80;
        eqb("clamped bits ignored", &un!(x::scalarmult(xsk(&k), xpt(&u2))), &a)
    });
    let n = cx.n(150, 2000);
    cx.cases("public-key-and-agreement", n, |c| {
        let (a, b) = (c.rng.bytes(32), c.rng.bytes(32));
        c.input(format!("a={} b={}", hex(&a), hex(&b)));
        let mut nine = vec![0u8; 32];
        nine[0] = 9;
        let pa = un!(x::secret_to_public(xsk(&a)));
        let pb = un!(x::secret_to_public(xsk(&b)));
        eqb("public key", &pa, &ec::x25519(&a, &nine))?;
        eqb("public key", &pb, &ec::x25519(&b, &nine))?;
        let s1 = un!(x::scalarmult(xsk(&a), xpt(&pb)));
        let s2 = un!(x::scalarmult(xsk(&b), xpt(&pa)));
        eqb("shared secrets agree", &s1, &s2)?;
        eqb("shared secret", &s1, &ec::x25519(&a, &pb))
    });
    let n = cx.n(4, 20);
    cx.cases("iterated", n, |c| {
        let mut k = c.rng.uniform(32);
        let mut u = k.clone();
        c.input(format!("start={}", hex(&k)));
        for _ in 0..20 {
            let r = un!(x::scalarmult(xsk(&k), xpt(&u)));
            eqb("iterated", &r, &ec::x25519(&k, &u))?;
            c.inner(1);
            u = k;
            k = r;
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C13
fn p256_mul(k: &BigUint) -> (BigUint, BigUint) {
    let mut h = k.to_str_radix(16);
    if h.len() % 2 == 1 { h.insert(0, '0'); }
    let (x, y) = ex::p256::point_mul(ex::p256::Scalar::from_hex(&h));
    (BigUint::from_bytes_le(&x.to_le_bytes()), BigUint::from_bytes_le(&y.to_le_bytes()))
}
fn c13(cx: &mut Ctx) {
    let o = ec::P256::new();
    let one = |c: &mut Case, k: &BigUint| -> Res {
        c.input(format!("k={}", k.to_str_radix(16)));
        let (x, y) = p256_mul(k);
        ensure(o.on_curve(&x, &y), || "result is not on the curve".into())?;
        let w = o.mul(k).unwrap();
        eq("x", &x.to_str_radix(16), &w.0.to_str_radix(16))?;
        eq("y", &y.to_str_radix(16), &w.1.to_str_radix(16))
    };
    let n = cx.n(130, 4000);
    cx.cases("random", n, |c| {
        let mut k = BigUint::from_bytes_be(&c.rng.bytes(32));
        if (&k % &o.n).is_zero() { k = BigUint::from(7u32); }
        c.obs("k bits", k.bits() / 32);
        one(c, &k)
    });
    let n = cx.n(110, 400);
    cx.cases("edges", n, |c| {
        let i = c.idx as u32;
        let top = BigUint::one() << 256usize;
        let k = match i {
            0..=19 => BigUint::from(i + 1),
            20..=34 => &o.n - BigUint::from(i - 19),
            35..=49 => &o.n + BigUint::from(i - 34),
            50..=59 => &top - BigUint::from(i - 49),
            60..=69 => (&o.n >> 1usize) + BigUint::from(i) - BigUint::from(65u32),
            _ => {
                let a = c.rng.below(256);
                let b = c.rng.below(256);
                (BigUint::one() << a) + if a != b { BigUint::one() << b } else { BigUint::zero() }
            }
        };
        if (&k % &o.n).is_zero() || k >= top {
            c.trivial = true;
            return Ok(());
        }
        c.obs("edge class", match i { 0..=19 => "small", 20..=34 => "order-", 35..=49 => "order+", 50..=59 => "2^256-", 60..=69 => "order/2", _ => "sparse" });
        one(c, &k)
    });
    let n = cx.n(24, 400);
    cx.cases("additivity", n, |c| {
        let a = BigUint::from_bytes_be(&c.rng.uniform(32)) % &o.n;
        let b = BigUint::from_bytes_be(&c.rng.uniform(32)) % &o.n;
        let s = (&a + &b) % &o.n;
        if a.is_zero() || b.is_zero() || s.is_zero() {
            return Ok(());
        }
        c.input(format!("a={} b={}", a.to_str_radix(16), b.to_str_radix(16)));
        let sum = o.add(&Some(p256_mul(&a)), &Some(p256_mul(&b)));
        eq("(a+b)G = aG + bG", &Some(p256_mul(&s)), &sum)?;
        let (x, y) = p256_mul(&(&o.n - &a));
        let (x2, y2) = p256_mul(&a);
        eq("-(aG)", &(x, (&y + &y2) % &o.p), &(x2, BigUint::zero()))
    });
}

fn selftest() {
    hash::selftest();
    cipher::selftest();
    ec::selftest();
    let _ = Rng::new(1);
}

const CHECKS: &[Check] = &[
    Check { id: "C01", shards: 8, run: c01, selftest, scale: (25, 25), require: &[("len mod 64", 64)],
        rule: "messages: every length 0..700, lengths biased to block edges, long messages, single-bit neighbours; digest compared with an independent SHA-256 (constants derived from primes); every case is non-trivial, distinct by message" },
    Check { id: "C02", shards: 8, run: c02, selftest, scale: (25, 25), require: &[("key length class", 3), ("msg len mod 64", 60)],
        rule: "key and message lengths swept densely and biased to block edges; tag compared with an independent HMAC; zero-padding and long-key laws; distinct by (key,msg)" },
    Check { id: "C03", shards: 8, run: c03, selftest, scale: (12, 20), require: &[("L mod 32", 32), ("salt", 2), ("blocks", 100)],
        rule: "random salt/ikm/prk/info, L dense 1..400 and down from 8160; compared with an independent HKDF; prefix law; distinct by input" },
    Check { id: "C04", shards: 8, run: c04, selftest, scale: (60, 200), require: &[("function", 6), ("rate:len mod rate", 600)],
        rule: "six functions, message lengths dense over 2 rates, XOF output lengths dense over 4 rates; compared with an independent sponge; distinct by (function,msg,out)" },
    Check { id: "C05", shards: 8, run: c05, selftest, scale: (60, 60), require: &[("len mod 128", 128)],
        rule: "message lengths 0..800 densely, block edges, long; compared with an independent BLAKE2b; distinct by message" },
    Check { id: "C06", shards: 8, run: c06, selftest, scale: (60, 60), require: &[("key bits", 2), ("len mod 16", 16)],
        rule: "random and structured keys/blocks (VarKey/VarTxt), counters at edges, every length mod 16; compared with an independent AES; distinct by input" },
    Check { id: "C07", shards: 8, run: c07, selftest, scale: (60, 100), require: &[("key bits", 2), ("(aad,msg) len mod 16", 256)],
        rule: "grid of aad x msg lengths 0..17, random longer ones, GHASH on random and monomial inputs; compared with an independent GCM; distinct by input" },
    Check { id: "C08", shards: 8, run: c08, selftest, scale: (60, 100), require: &[("len mod 64", 64), ("counter high bit", 2)],
        rule: "random and structured keys/nonces/counters, quarter rounds on arbitrary index quadruples, message lengths dense; compared with an independent ChaCha20; distinct by input" },
    Check { id: "C09", shards: 8, run: c09, selftest, scale: (25, 25), require: &[("len mod 16", 16), ("extreme reached", 1)],
        rule: "random keys/messages plus messages solved for so that the accumulator lands within 12 of 0, p, 2^128, 2^129; compared with an independent Poly1305; non-trivial unless no such message was found; distinct by input" },
    Check { id: "C10", shards: 8, run: c10, selftest, scale: (25, 25), require: &[("(aad,msg) len mod 16", 256)],
        rule: "grid of aad lengths 0..17 x msg lengths 0..33, random longer ones; compared with an independent AEAD; distinct by input" },
    Check { id: "C11", shards: 8, run: c11, selftest, scale: (25, 25), require: &[("aead", 3), ("tampering", 11)],
        rule: "valid encryptions under random keys, each decrypted genuinely and under the listed corruptions; an oracle of 'accept exactly the genuine tuple'; each corruption of each encryption counts as one distinct evaluation" },
    Check { id: "C12", shards: 8, run: c12, selftest, scale: (1, 6), require: &[("u top bit", 2), ("u class", 3)],
        rule: "random scalars/points, low-order and non-canonical u, clamped-bit variations, public keys, agreement, iteration; compared with an independent X25519; distinct by input" },
    Check { id: "C13", shards: 8, run: c13, selftest, scale: (2, 6), require: &[("edge class", 5)],
        rule: "random, extreme and sparse scalars; result checked on-curve and against affine chord-and-tangent arithmetic; group law between results; scalars divisible by the order are trivial" },
];
fn main() {
    main_check(CHECKS)
}
