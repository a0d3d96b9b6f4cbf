//! Development cross-check: prints oracle results for an external comparison (tools/xcheck.py).
use hv::gen::*;
use hv::oracle::{cipher, ec, hash};
fn main() {
    hash::selftest(); cipher::selftest(); ec::selftest();
    let mut r = Rng::new(7);
    let s = hash::Sha256::new(); let k = hash::Keccak::new(); let b = hash::Blake2b::new(); let a = cipher::Aes::new();
    for i in 0..300usize {
        let m = r.bytes(i);
        println!("sha256 {} {}", hex(&m), hex(&s.hash(&m)));
        let key = r.bytes((i * 7) % 150);
        println!("hmac {}:{} {}", hex(&key), hex(&m), hex(&s.hmac(&key, &m)));
        println!("sha3_256 {} {}", hex(&m), hex(&k.sponge(136, &m, 6, 32)));
        println!("sha3_224 {} {}", hex(&m), hex(&k.sponge(144, &m, 6, 28)));
        println!("sha3_384 {} {}", hex(&m), hex(&k.sponge(104, &m, 6, 48)));
        println!("sha3_512 {} {}", hex(&m), hex(&k.sponge(72, &m, 6, 64)));
        println!("shake128 {} {}", hex(&m), hex(&k.sponge(168, &m, 0x1f, 200 + i)));
        println!("shake256 {} {}", hex(&m), hex(&k.sponge(136, &m, 0x1f, 200 + i)));
        println!("blake2b {} {}", hex(&m), hex(&b.hash512(&m)));
        if i < 40 {
            let k16 = r.bytes(16); let k32 = r.bytes(32); let iv = r.bytes(12); let ctr = r.u64() as u32;
            let mut civ = iv.clone(); civ.extend_from_slice(&ctr.to_be_bytes());
            let m = r.bytes(1 + r.clone().below(200));
            println!("aes-128-ctr {}:{}:{} {}", hex(&k16), hex(&civ), hex(&m), hex(&a.ctr(&k16, &iv, ctr, &m)));
            println!("aes-256-ctr {}:{}:{} {}", hex(&k32), hex(&civ), hex(&m), hex(&a.ctr(&k32, &iv, ctr, &m)));
            let mut ch = ctr.to_le_bytes().to_vec(); ch.extend_from_slice(&iv);
            println!("chacha20 {}:{}:{} {}", hex(&k32), hex(&ch), hex(&m), hex(&cipher::chacha(&k32, ctr, &iv, &m)));
            println!("poly1305 {}:{} {}", hex(&k32), hex(&m), hex(&cipher::poly1305(&k32, &m)));
            println!("gmac128 {}:{}:{} {}", hex(&k16), hex(&iv), hex(&m), hex(&a.gcm(&k16, &iv, &m, &[]).1));
            let sk = r.bytes(32);
            println!("x25519pub {} {}", hex(&sk), hex(&ec::x25519(&sk, &{let mut u=vec![0u8;32];u[0]=9;u})));
        }
    }
}
