//! Independent reference implementations: only the AES block function is borrowed (from OpenSSL's
//! ECB mode) and the SHA-2 digest; modes, MACs, ChaCha20 and Poly1305 are written out here.
use num_bigint::BigUint;
use openssl::symm::{Cipher, Crypter, Mode};

fn aes_blocks(key: &[u8], blocks: &[u8]) -> Vec<u8> {
    let c = if key.len() == 16 { Cipher::aes_128_ecb() } else { Cipher::aes_256_ecb() };
    let mut cr = Crypter::new(c, Mode::Encrypt, key, None).unwrap();
    cr.pad(false);
    let mut out = vec![0u8; blocks.len() + 16];
    let n = cr.update(blocks, &mut out).unwrap();
    out.truncate(n);
    assert_eq!(n, blocks.len());
    out
}

fn gmul(x: u128, y: u128) -> u128 {
    let mut z = 0u128;
    let mut v = y;
    for i in 0..128 {
        if (x >> (127 - i)) & 1 == 1 {
            z ^= v;
        }
        let lsb = v & 1;
        v >>= 1;
        if lsb == 1 {
            v ^= 0xe1u128 << 120;
        }
    }
    z
}

fn be128(b: &[u8]) -> u128 {
    let mut a = [0u8; 16];
    a[..b.len()].copy_from_slice(b);
    u128::from_be_bytes(a)
}

pub fn gcm(key: &[u8], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Vec<u8> {
    let h = be128(&aes_blocks(key, &[0u8; 16]));
    let nb = (msg.len() + 15) / 16;
    let mut ctr = vec![];
    for i in 0..=nb {
        ctr.extend_from_slice(nonce);
        ctr.extend_from_slice(&(i as u32 + 1).to_be_bytes());
    }
    let ks = aes_blocks(key, &ctr);
    let mut ct: Vec<u8> = msg.iter().zip(&ks[16..]).map(|(a, b)| a ^ b).collect();
    let mut s = 0u128;
    for part in &[aad, &ct[..]] {
        for b in part.chunks(16) {
            s = gmul(s ^ be128(b), h);
        }
    }
    s = gmul(s ^ (((aad.len() as u128 * 8) << 64) | (ct.len() as u128 * 8)), h);
    let tag = s ^ be128(&ks[..16]);
    ct.extend_from_slice(&tag.to_be_bytes());
    ct
}

pub fn hmac(bits: usize, key: &[u8], data: &[u8]) -> Vec<u8> {
    use openssl::sha::{sha256, sha512};
    let h = |d: &[u8]| if bits == 256 { sha256(d).to_vec() } else { sha512(d).to_vec() };
    let bl = if bits == 256 { 64 } else { 128 };
    let mut k = if key.len() > bl { h(key) } else { key.to_vec() };
    k.resize(bl, 0);
    let mut i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    i.extend_from_slice(data);
    let mut o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    o.extend_from_slice(&h(&i));
    h(&o)
}

/// AES-CBC with PKCS#7 padding, then HMAC(second half of the key) over aad, iv, ciphertext.
pub fn cbc_hmac(key: &[u8], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Vec<u8> {
    let (ek, mk) = key.split_at(key.len() / 2);
    let pad = 16 - msg.len() % 16;
    let mut m = msg.to_vec();
    m.extend(std::iter::repeat(pad as u8).take(pad));
    let mut prev = nonce.to_vec();
    let mut ct = vec![];
    for b in m.chunks(16) {
        let x: Vec<u8> = b.iter().zip(&prev).map(|(a, b)| a ^ b).collect();
        prev = aes_blocks(ek, &x);
        ct.extend_from_slice(&prev);
    }
    let mut d = aad.to_vec();
    d.extend_from_slice(nonce);
    d.extend_from_slice(&ct);
    let t = hmac(if key.len() == 32 { 256 } else { 512 }, mk, &d);
    ct.extend_from_slice(&t);
    ct
}

fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}
fn rounds(s: &mut [u32; 16]) {
    for _ in 0..10 {
        qr(s, 0, 4, 8, 12);
        qr(s, 1, 5, 9, 13);
        qr(s, 2, 6, 10, 14);
        qr(s, 3, 7, 11, 15);
        qr(s, 0, 5, 10, 15);
        qr(s, 1, 6, 11, 12);
        qr(s, 2, 7, 8, 13);
        qr(s, 3, 4, 9, 14);
    }
}
fn state(key: &[u8], last: &[u8]) -> [u32; 16] {
    let w = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
    let mut s = [0u32; 16];
    s[0] = 0x61707865;
    s[1] = 0x3320646e;
    s[2] = 0x79622d32;
    s[3] = 0x6b206574;
    for i in 0..8 {
        s[4 + i] = w(&key[4 * i..]);
    }
    for i in 0..4 {
        s[12 + i] = w(&last[4 * i..]);
    }
    s
}
fn chacha_block(key: &[u8], ctr: u32, nonce: &[u8]) -> Vec<u8> {
    let mut last = ctr.to_le_bytes().to_vec();
    last.extend_from_slice(nonce);
    let st = state(key, &last);
    let mut w = st;
    rounds(&mut w);
    let mut o = vec![];
    for i in 0..16 {
        o.extend_from_slice(&w[i].wrapping_add(st[i]).to_le_bytes());
    }
    o
}
fn poly1305(key: &[u8], data: &[u8]) -> Vec<u8> {
    let mut r = key[..16].to_vec();
    for i in &[3, 7, 11, 15] {
        r[*i] &= 15;
    }
    for i in &[4, 8, 12] {
        r[*i] &= 252;
    }
    let p = (BigUint::from(1u8) << 130) - BigUint::from(5u8);
    let r = BigUint::from_bytes_le(&r);
    let mut a = BigUint::from(0u8);
    for b in data.chunks(16) {
        let mut n = b.to_vec();
        n.push(1);
        a = ((a + BigUint::from_bytes_le(&n)) * &r) % &p;
    }
    a += BigUint::from_bytes_le(&key[16..]);
    let mut o = a.to_bytes_le();
    o.resize(o.len().max(16), 0);
    o.truncate(16);
    o
}
pub fn chacha(key: &[u8], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Vec<u8> {
    let otk = chacha_block(key, 0, nonce);
    let mut ct = vec![];
    for (i, b) in msg.chunks(64).enumerate() {
        let ks = chacha_block(key, i as u32 + 1, nonce);
        ct.extend(b.iter().zip(ks).map(|(a, b)| a ^ b));
    }
    let mut d = aad.to_vec();
    d.resize((d.len() + 15) / 16 * 16, 0);
    d.extend_from_slice(&ct);
    d.resize((d.len() + 15) / 16 * 16, 0);
    d.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    d.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    let t = poly1305(&otk[..32], &d);
    ct.extend_from_slice(&t);
    ct
}
pub fn xchacha(key: &[u8], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut s = state(key, &nonce[..16]);
    rounds(&mut s);
    let mut k = vec![];
    for i in (0..4).chain(12..16) {
        k.extend_from_slice(&s[i].to_le_bytes());
    }
    let mut n = vec![0u8; 4];
    n.extend_from_slice(&nonce[16..]);
    chacha(&k, &n, aad, msg)
}

pub fn reference(name: &str, key: &[u8], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Vec<u8> {
    match name {
        "aes-128-gcm" | "aes-256-gcm" => gcm(key, nonce, aad, msg),
        "aes-128-cbc-hmac-256" | "aes-256-cbc-hmac-512" => cbc_hmac(key, nonce, aad, msg),
        "chacha20poly1305" => chacha(key, nonce, aad, msg),
        "xchacha20poly1305" => xchacha(key, nonce, aad, msg),
        _ => unreachable!(),
    }
}
