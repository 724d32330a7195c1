use crate::curves::*;
use num_bigint::BigUint;
use openssl::sha::sha256;
use pbt::*;
use rand::{RngCore, SeedableRng};
use ursa::kex::secp256k1::EcdhSecp256k1Sha256;
use ursa::kex::x25519::X25519Sha256;
use ursa::kex::KeyExchangeScheme;
use ursa::keys::{KeyGenOption, PrivateKey, PublicKey};
use ursa::signatures::ed25519::Ed25519Sha512;
use ursa::signatures::secp256k1::EcdsaSecp256k1Sha256;
use ursa::signatures::{EcdsaPublicKeyHandler, SignatureScheme, Signer};

/// the same scheme with comparable errors
struct W<S>(S);
type Rs<T> = Result<T, String>;
fn st<T, E: std::fmt::Debug>(r: Result<T, E>) -> Rs<T> {
    r.map_err(|e| format!("{:?}", e))
}
impl<S: SignatureScheme> W<S> {
    fn keypair(&self, o: Option<KeyGenOption>) -> Rs<(PublicKey, PrivateKey)> {
        st(self.0.keypair(o))
    }
    fn sign(&self, m: &[u8], k: &PrivateKey) -> Rs<Vec<u8>> {
        st(self.0.sign(m, k))
    }
    fn verify(&self, m: &[u8], s: &[u8], k: &PublicKey) -> Rs<bool> {
        st(self.0.verify(m, s, k))
    }
    fn signer_sign(&self, k: &PrivateKey, m: &[u8]) -> Rs<Vec<u8>> {
        st(Signer::new(&self.0, k).sign(m))
    }
    fn signer_public(&self, k: &PrivateKey) -> Rs<PublicKey> {
        st(Signer::new(&self.0, k).get_public_key())
    }
}
impl W<EcdsaSecp256k1Sha256> {
    fn parse(&self, d: &[u8]) -> Rs<PublicKey> {
        st(self.0.parse(d))
    }
    fn public_key_compressed(&self, k: &PublicKey) -> Vec<u8> {
        self.0.public_key_compressed(k)
    }
    fn public_key_uncompressed(&self, k: &PublicKey) -> Vec<u8> {
        self.0.public_key_uncompressed(k)
    }
    fn normalize_s(&self, s: &mut [u8]) -> Rs<()> {
        st(self.0.normalize_s(s))
    }
}
struct K<S>(S);
impl<S: KeyExchangeScheme> K<S> {
    fn keypair(&self, o: Option<KeyGenOption>) -> Rs<(PublicKey, PrivateKey)> {
        st(self.0.keypair(o))
    }
    fn compute_shared_secret(&self, a: &PrivateKey, b: &PublicKey) -> Rs<Vec<u8>> {
        st(self.0.compute_shared_secret(a, b).map(|x| x[..].to_vec()))
    }
}

fn msg(g: &mut G) -> Vec<u8> {
    if g.chance(1, 200) {
        return g.big(60000, 70000);
    }
    let hi = if g.size < 20 { 40 } else { 700 };
    g.bytes(0, hi)
}

/// the documented derivation: ChaCha seeded with SHA-256 of the seed
fn chacha32(seed32: &[u8]) -> Vec<u8> {
    let mut s = [0u8; 32];
    s.copy_from_slice(seed32);
    let mut r = rand_chacha::ChaChaRng::from_seed(s);
    let mut o = [0u8; 32];
    r.fill_bytes(&mut o);
    o.to_vec()
}

fn rejected<E>(r: Result<bool, E>) -> bool {
    match r {
        Ok(x) => !x,
        Err(_) => true,
    }
}

// ---------------------------------------------------------------- Ed25519

fn ed_keys(g: &mut G) -> Result<(PublicKey, PrivateKey, Vec<u8>), Fail> {
    let s = W(Ed25519Sha512::new());
    let how = g.below(4);
    g.label(["key: seed", "key: random", "key: expanded", "key: imported"][how]);
    let r = match how {
        0 => {
            let seed = g.bytes(0, 90);
            let r = s.keypair(Some(KeyGenOption::UseSeed(seed.clone())));
            let again = s.keypair(Some(KeyGenOption::UseSeed(seed.clone())));
            ensure!(r == again, "seed-not-reproducible", "seed {} gives {:?} then {:?}", hex(&seed), r, again);
            if let Ok((_, sk)) = &r {
                ensure!(sk[..32] == chacha32(&sha256(&seed))[..], "seed-derivation", "seed {} gives {:?}", hex(&seed), sk);
            }
            r
        }
        1 => s.keypair(None),
        2 => {
            let l = g.range(32, 40);
            let ikm = g.key(l);
            let r = st(Ed25519Sha512::expand_keypair(&ikm));
            if let Ok((_, sk)) = &r {
                ensure!(sk[..32] == ikm[..32], "expand", "expand_keypair({}) gives {:?}", hex(&ikm), sk);
            }
            r
        }
        _ => {
            let ikm = g.key(32);
            let mut sk = ikm.clone();
            sk.extend(ed_public(&ikm));
            s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(sk))))
        }
    };
    let (pk, sk) = match r {
        Ok(x) => x,
        Err(e) => return fail("keypair-fails", format!("{:?}", e)),
    };
    ensure!(sk.len() == 64 && pk.len() == 32, "key-size", "{} / {}", sk.len(), pk.len());
    let want = ed_public(&sk[..32]);
    ensure!(pk[..] == want[..] && sk[32..] == want[..], "public-key", "secret {} has public key {}, got {:?}", hex(&sk[..32]), hex(&want), pk);
    let seed = sk[..32].to_vec();
    Ok((pk, sk, seed))
}

fn ed_sign_verify(g: &mut G) -> R {
    let s = W(Ed25519Sha512::new());
    let (pk, sk, seed) = ed_keys(g)?;
    let m = msg(g);
    g.show(format!("seed={} msg={}", hex(&seed), hex(&m)));
    g.nontrivial();
    let sig = if g.bool() { s.sign(&m, &sk) } else { s.signer_sign(&sk, &m) };
    let sig = match sig {
        Ok(x) => x,
        Err(e) => return fail("sign-fails", format!("{:?}", e)),
    };
    let want = ed_sign(&seed, &m);
    ensure!(sig == want, "signature-differs", "signature {} but RFC 8032 gives {}", hex(&sig), hex(&want));
    ensure!(s.verify(&m, &sig, &pk) == Ok(true), "honest-rejected", "own signature rejected");
    let rec = s.signer_public(&sk);
    ensure!(rec.as_ref() .ok() == Some(&pk), "public-from-secret", "{:?}", rec);
    // conversions
    let (xp, xs) = (Ed25519Sha512::ver_key_to_key_exchange(&pk), Ed25519Sha512::sign_key_to_key_exchange(&sk));
    match (xp, xs) {
        (Ok(xp), Ok(xs)) => {
            ensure!(xp[..] == ed_to_mont(&pk[..])[..], "convert-public", "{:?} converts to {:?}", pk, xp);
            let c = clamp(&openssl::sha::sha512(&seed));
            ensure!(clamp(&xs[..]) == c, "convert-secret", "secret converts to {:?}", xs);
            ensure!(x25519(&xs[..], &x25519_base())[..] == xp[..], "convert-pair", "converted halves do not match");
        }
        (a, b) => return fail("convert-fails", format!("{:?} {:?}", a, b)),
    }
    Ok(())
}

fn ed_reject(g: &mut G) -> R {
    let s = W(Ed25519Sha512::new());
    let seed = g.key(32);
    let (pk, sk) = Ed25519Sha512::expand_keypair(&seed).map_err(|e| Fail { sig: "expand".into(), msg: format!("{:?}", e) })?;
    let m = msg(g);
    g.show(format!("seed={} msg={}", hex(&seed), hex(&m)));
    g.nontrivial();
    let sig = s.sign(&m, &sk).map_err(|e| Fail { sig: "sign-fails".into(), msg: format!("{:?}", e) })?;
    for i in 0..64 {
        let mut x = sig.clone();
        x[i] ^= 1 << g.below(8);
        g.eval();
        ensure!(rejected(s.verify(&m, &x, &pk)), "accepted", "signature byte {} changed to {} is accepted", i, hex(&x));
    }
    // s + L encodes the same scalar
    let ss = BigUint::from_bytes_le(&sig[32..]) + &*L;
    let mut x = sig[..32].to_vec();
    let mut t = ss.to_bytes_le();
    t.resize(32, 0);
    x.extend(t);
    ensure!(rejected(s.verify(&m, &x, &pk)), "malleable", "s + L is accepted: {}", hex(&x));
    // other message
    let mut m2 = m.clone();
    match g.below(4) {
        0 => m2.push(g.draw(255) as u8),
        1 if !m2.is_empty() => {
            m2.pop();
        }
        2 if !m2.is_empty() => {
            let k = g.below(m2.len());
            m2[k] ^= 1 << g.below(8);
        }
        _ => m2.insert(0, g.draw(255) as u8),
    }
    if m2 != m {
        ensure!(rejected(s.verify(&m2, &sig, &pk)), "accepted", "signature accepted for message {}", hex(&m2));
    }
    // other key
    let mut seed2 = seed.clone();
    seed2[g.below(32)] ^= 1 << g.below(8);
    let (pk2, sk2) = Ed25519Sha512::expand_keypair(&seed2).unwrap();
    ensure!(rejected(s.verify(&m, &sig, &pk2)), "accepted", "signature accepted under another key");
    let sig2 = s.sign(&m, &sk2).unwrap();
    let mut x = sig[..32].to_vec();
    x.extend_from_slice(&sig2[32..]);
    ensure!(rejected(s.verify(&m, &x, &pk)) && rejected(s.verify(&m, &x, &pk2)), "accepted", "spliced signature accepted");
    // wrong lengths: errors, never aborts
    let n = g.len(0, 130);
    if n != 64 {
        let z = g.bytes_n(n);
        let r = no_panic(|| s.verify(&m, &z, &pk));
        ensure!(r.is_ok(), "panic-on-length", "{}-byte signature: {:?}", n, r);
        ensure!(rejected(r.unwrap()), "accepted", "{}-byte signature accepted", n);
        let mut t = sig.clone();
        t.resize(n, 0);
        ensure!(rejected(s.verify(&m, &t, &pk)), "accepted", "signature resized to {} bytes accepted", n);
        let r = no_panic(|| (s.sign(&m, &PrivateKey(z.clone())).is_err(), s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(z.clone())))).is_err(), s.signer_public(&PrivateKey(z.clone())).is_err()));
        ensure!(r == Ok((true, true, true)), "secret-key-length", "{}-byte secret key: {:?}", n, r);
    }
    if n != 32 {
        let z = PublicKey(g.bytes_n(n));
        let r = no_panic(|| (rejected(s.verify(&m, &sig, &z)), Ed25519Sha512::ver_key_to_key_exchange(&z).is_err()));
        ensure!(r == Ok((true, true)), "public-key-length", "{}-byte public key: {:?}", n, r);
    }
    if n < 32 {
        let z = g.bytes_n(n);
        let r = no_panic(|| (Ed25519Sha512::expand_keypair(&z).is_err(), Ed25519Sha512::sign_key_to_key_exchange(&PrivateKey(z.clone())).is_err()));
        ensure!(r == Ok((true, true)), "short-secret", "{} bytes: {:?}", n, r);
    }
    Ok(())
}

/// Public keys of small order, also in their other encodings: no secret key has one, and where one
/// signature were accepted under such a key it would be for every eighth message at least.
fn ed_weak(g: &mut G) -> R {
    const SMALL: [&str; 7] = [
        "0100000000000000000000000000000000000000000000000000000000000000",
        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "0000000000000000000000000000000000000000000000000000000000000000",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
        "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    ];
    let v = W(Ed25519Sha512::new());
    let mut pk = unhex(SMALL[g.below(7)]);
    if g.bool() {
        pk[31] |= 0x80;
    }
    let s = if g.draw(3) == 0 { BigUint::from(0u8) } else { BigUint::from_bytes_le(&g.bytes_n(40)) % &*L };
    let mut sig = ed_times_base(&s);
    let mut t = s.to_bytes_le();
    t.resize(32, 0);
    sig.extend(t);
    let pk = PublicKey(pk);
    g.show(format!("pk={} signature={}", hex(&pk[..]), hex(&sig)));
    g.nontrivial();
    for _ in 0..16 {
        let m = msg(g);
        g.eval();
        match no_panic(|| rejected(v.verify(&m, &sig, &pk))) {
            Ok(true) => {}
            Ok(false) => return fail("weak-key", format!("without a secret key {} has a signature: {} is accepted for {}", hex(&pk[..]), hex(&sig), hex(&m))),
            Err(e) => return fail("panic", e),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- ECDSA

fn ec_keys(g: &mut G) -> Result<(PublicKey, PrivateKey, A), Fail> {
    let s = W(EcdsaSecp256k1Sha256::new());
    let how = g.below(4);
    g.label(["key: seed", "key: random", "key: imported", "key: edge"][how]);
    let r = match how {
        0 => {
            let n = g.range(32, 70);
            let seed = g.key(n);
            let r = s.keypair(Some(KeyGenOption::UseSeed(seed.clone())));
            let again = s.keypair(Some(KeyGenOption::UseSeed(seed.clone())));
            ensure!(r == again, "seed-not-reproducible", "seed {}", hex(&seed));
            r
        }
        1 => s.keypair(None),
        _ => {
            let k = if how == 2 {
                let mut k = g.bytes_n(32);
                k[0] &= 0x7f;
                k[31] |= 1;
                k
            } else {
                let d = g.below(5) as u64;
                if g.bool() { be32(&b(d + 1)) } else { be32(&(&*NK1 - b(d + 1))) }
            };
            let r = s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(k.clone()))));
            if let Ok((_, sk)) = &r {
                ensure!(sk[..] == k[..], "secret-changed", "{} imported as {:?}", hex(&k), sk);
            }
            r
        }
    };
    let (pk, sk) = match r {
        Ok(x) => x,
        Err(e) => return fail("keypair-fails", format!("{:?}", e)),
    };
    ensure!(sk.len() == 32, "key-size", "{}", sk.len());
    let q = kmul(&BigUint::from_bytes_be(&sk[..]), &kg());
    ensure!(pk[..] == kcompress(&q)[..], "public-key", "secret {:?} has public key {}, got {:?}", sk, hex(&kcompress(&q)), pk);
    Ok((pk, sk, q))
}

fn ec_sign_verify(g: &mut G) -> R {
    let s = W(EcdsaSecp256k1Sha256::new());
    let (pk, sk, q) = ec_keys(g)?;
    let m = msg(g);
    g.show(format!("sk={} msg={}", hex(&sk[..]), hex(&m)));
    g.nontrivial();
    let sig = if g.bool() { s.sign(&m, &sk) } else { s.signer_sign(&sk, &m) };
    let sig = match sig {
        Ok(x) => x,
        Err(e) => return fail("sign-fails", format!("{:?}", e)),
    };
    let want = ecdsa_sign(&sk[..], &m);
    ensure!(sig == want, "signature-differs", "signature {} but RFC 6979 with low S gives {}", hex(&sig), hex(&want));
    let un = s.public_key_uncompressed(&pk);
    ensure!(un == kuncompressed(&q), "uncompressed", "{}", hex(&un));
    ensure!(s.public_key_compressed(&PublicKey(un.clone())) == pk[..].to_vec(), "compressed", "compress(uncompress(pk)) differs");
    for k in vec![pk.clone(), PublicKey(un.clone())] {
        ensure!(s.verify(&m, &sig, &k) == Ok(true), "honest-rejected", "own signature rejected under {:?}", k);
    }
    ensure!(s.parse(&un).as_ref() .ok() == Some(&pk) && s.parse(&pk[..]).as_ref() .ok() == Some(&pk), "parse", "parsing the key's two forms differs");
    let rec = s.signer_public(&sk);
    ensure!(rec.as_ref() .ok() == Some(&pk), "public-from-secret", "{:?}", rec);
    // the high-S twin is refused and normalizes to the signature
    let n = &*NK1;
    let hi = n - BigUint::from_bytes_be(&sig[32..]);
    let mut t = sig[..32].to_vec();
    t.extend(be32(&hi));
    ensure!(rejected(s.verify(&m, &t, &pk)), "high-s-accepted", "high-S twin accepted");
    ensure!(s.normalize_s(&mut t).is_ok() && t == sig, "normalize", "high-S twin normalizes to {}", hex(&t));
    let mut t = sig.clone();
    ensure!(s.normalize_s(&mut t).is_ok() && t == sig, "normalize", "low-S signature changed by normalization");
    let js = serde_json::to_string(&s.0).map_err(|e| Fail { sig: "json".into(), msg: e.to_string() })?;
    let s2: Result<EcdsaSecp256k1Sha256, _> = serde_json::from_str(&js);
    ensure!(s2.map(|s2| s2.verify(&m, &sig, &pk).ok() == Some(true)).unwrap_or(false), "json", "scheme does not survive {}", js);
    Ok(())
}

fn ec_reject(g: &mut G) -> R {
    let s = W(EcdsaSecp256k1Sha256::new());
    let mut k = g.bytes_n(32);
    k[0] &= 0x7f;
    k[31] |= 1;
    let sk = PrivateKey(k.clone());
    let (pk, _) = s.keypair(Some(KeyGenOption::FromSecretKey(sk.clone()))).unwrap();
    let m = msg(g);
    g.show(format!("sk={} msg={}", hex(&k), hex(&m)));
    g.nontrivial();
    let sig = s.sign(&m, &sk).unwrap();
    for i in 0..64 {
        let mut x = sig.clone();
        x[i] ^= 1 << g.below(8);
        g.eval();
        ensure!(rejected(s.verify(&m, &x, &pk)), "accepted", "signature byte {} changed is accepted: {}", i, hex(&x));
    }
    let mut m2 = m.clone();
    if m2.is_empty() || g.bool() {
        m2.push(g.draw(255) as u8);
    } else {
        let i = g.below(m2.len());
        m2[i] ^= 1 << g.below(8);
    }
    ensure!(rejected(s.verify(&m2, &sig, &pk)), "accepted", "accepted for message {}", hex(&m2));
    let mut k2 = k.clone();
    k2[g.range(1, 30)] ^= 1 << g.below(8);
    let (pk2, _) = s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(k2)))).unwrap();
    ensure!(rejected(s.verify(&m, &sig, &pk2)), "accepted", "accepted under another key");
    // negated key
    let mut pk3 = pk[..].to_vec();
    pk3[0] ^= 1;
    ensure!(rejected(s.verify(&m, &sig, &PublicKey(pk3))), "accepted", "accepted under the negated key");
    // scheme agrees with plain ECDSA plus the low-S rule on related signatures
    let n = &*NK1;
    let (r, ss) = (BigUint::from_bytes_be(&sig[..32]), BigUint::from_bytes_be(&sig[32..]));
    let cands = [(r.clone(), n - &ss), (n - &r, ss.clone()), (b(0), ss.clone()), (r.clone(), b(0)), (r.clone(), &ss + n), (b(1), b(1)), (n - b(1), b(1)), (ss.clone(), r.clone())];
    for (r, t) in cands.iter() {
        if t.bits() > 256 {
            continue;
        }
        let mut x = be32(r);
        x.extend(be32(t));
        let q = kparse(&pk[..]);
        let want = ecdsa_verify(&m, &x, &q) && *t <= (n >> 1usize);
        g.eval();
        ensure!(rejected(s.verify(&m, &x, &pk)) == !want, "verdict-differs", "signature {} should be {}", hex(&x), if want { "accepted" } else { "rejected" });
    }
    // lengths
    let l = g.len(0, 130);
    if l != 64 {
        let mut z = sig.clone();
        z.resize(l, 1);
        let r = no_panic(|| (rejected(s.verify(&m, &z, &pk)), s.normalize_s(&mut z.clone()).is_err()));
        ensure!(r == Ok((true, true)), "signature-length", "{}-byte signature: {:?}", l, r);
    }
    if l != 32 {
        let z = g.bytes_n(l);
        let r = no_panic(|| (s.sign(&m, &PrivateKey(z.clone())).is_err(), s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(z.clone())))).is_err(), s.signer_public(&PrivateKey(z.clone())).is_err()));
        ensure!(r == Ok((true, true, true)), "secret-length", "{}-byte secret key: {:?}", l, r);
        if l < 32 {
            let r = no_panic(|| s.keypair(Some(KeyGenOption::UseSeed(z.clone()))).is_err());
            ensure!(r == Ok(true), "seed-length", "{}-byte seed: {:?}", l, r);
        }
    }
    for z in vec![be32(&b(0)), be32(n), be32(&(n + b(g.below(9) as u64)))] {
        let r = no_panic(|| (s.sign(&m, &PrivateKey(z.clone())).is_err(), s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(z.clone())))).is_err()));
        ensure!(r == Ok((true, true)), "secret-range", "secret {}: {:?}", hex(&z), r);
    }
    Ok(())
}

fn ec_parse(g: &mut G) -> R {
    let s = W(EcdsaSecp256k1Sha256::new());
    g.nontrivial();
    let d = match g.below(4) {
        0 => {
            let n = g.len(0, 70);
            g.bytes_n(n)
        }
        1 => {
            let mut x = g.bytes_n(33);
            x[0] = *g.pick(&[2, 3, 2, 3, 0, 4, 6]);
            x
        }
        2 => {
            let mut k = g.bytes_n(32);
            k[0] &= 0x7f;
            k[31] |= 1;
            let q = kmul(&BigUint::from_bytes_be(&k), &kg());
            let mut x = if g.bool() { kcompress(&q) } else { kuncompressed(&q) };
            if g.bool() {
                let i = g.below(x.len());
                x[i] ^= 1 << g.below(8);
            }
            x
        }
        _ => {
            let mut x = vec![*g.pick(&[2u8, 3, 4])];
            x.extend(be32(&(&*PK1 + b(g.below(5) as u64))));
            if x[0] == 4 {
                x.extend(g.bytes_n(32));
            }
            x
        }
    };
    g.show(format!("encoding {}", hex(&d)));
    let want = kparse(&d);
    g.label(if want.is_some() { "valid point" } else { "invalid encoding" });
    let r = no_panic(|| s.parse(&d));
    let r = match r {
        Err(p) => return fail("parse-panics", p),
        Ok(r) => r,
    };
    match (&r, &want) {
        (Ok(p), Some(_)) => ensure!(p[..] == kcompress(&want)[..], "parse-value", "{} parses to {:?}", hex(&d), p),
        (Err(_), None) => {}
        _ => return fail("parse-verdict", format!("{} parses to {:?}, strict decoding says {:?}", hex(&d), r, want)),
    }
    if want.is_none() {
        let m = msg(g);
        let r = no_panic(|| rejected(s.verify(&m, &vec![1u8; 64], &PublicKey(d.clone()))));
        ensure!(r == Ok(true), "bad-key-verify", "{:?}", r);
    }
    Ok(())
}

// ---------------------------------------------------------------- key agreement

fn kx_x25519(g: &mut G) -> R {
    let s = K(X25519Sha256::new());
    g.nontrivial();
    let mut party = |g: &mut G| -> Result<(PublicKey, PrivateKey), Fail> {
        let how = g.below(3);
        g.label(["x25519 key: seed", "x25519 key: random", "x25519 key: imported"][how]);
        let r = match how {
            0 => {
                let seed = g.bytes(0, 80);
                let r = s.keypair(Some(KeyGenOption::UseSeed(seed.clone())));
                ensure!(r == s.keypair(Some(KeyGenOption::UseSeed(seed.clone()))), "seed-not-reproducible", "seed {}", hex(&seed));
                if let Ok((_, sk)) = &r {
                    ensure!(clamp(&sk[..]) == clamp(&chacha32(&sha256(&seed))), "seed-derivation", "seed {} gives {:?}", hex(&seed), sk);
                }
                r
            }
            1 => s.keypair(None),
            _ => {
                let k = g.key(32);
                let r = s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(k.clone()))));
                if let Ok((_, sk)) = &r {
                    ensure!(clamp(&sk[..]) == clamp(&k), "secret-changed", "{} imported as {:?}", hex(&k), sk);
                }
                r
            }
        };
        match r {
            Ok((pk, sk)) => {
                ensure!(pk[..] == x25519(&sk[..], &x25519_base())[..], "public-key", "{:?} has public key {:?}", sk, pk);
                let again = s.keypair(Some(KeyGenOption::FromSecretKey(sk.clone())));
                ensure!(again.as_ref().map(|x| &x.0) .ok() == Some(&pk), "public-from-secret", "{:?}", again);
                Ok((pk, sk))
            }
            Err(e) => fail("keypair-fails", format!("{:?}", e)),
        }
    };
    let (pa, sa) = party(g)?;
    let (pb, sb) = party(g)?;
    g.show(format!("a={} b={}", hex(&sa[..]), hex(&sb[..])));
    let (x, y) = (s.compute_shared_secret(&sa, &pb), s.compute_shared_secret(&sb, &pa));
    ensure!(x.is_ok() && x == y, "disagreement", "{:?} and {:?}", x, y);
    let want = sha256(&x25519(&sa[..], &pb[..]));
    ensure!(x.as_ref().map(|z| z.to_vec()) == Ok(want.to_vec()), "secret-differs", "secret {:?}, published algorithm {}", x, hex(&want));
    // another key changes it; non-canonical and arbitrary peers follow the published ladder
    let mut k2 = sa[..].to_vec();
    k2[g.range(1, 30)] ^= 1 << g.below(8);
    ensure!(s.compute_shared_secret(&PrivateKey(k2), &pb) != x, "secret-unchanged", "changing a key leaves the secret");
    let peer = PublicKey(g.key(32));
    let z = s.compute_shared_secret(&sa, &peer);
    ensure!(z.as_ref().map(|z| z.to_vec()) == Ok(sha256(&x25519(&sa[..], &peer[..])).to_vec()), "secret-differs", "peer {:?}: {:?}", peer, z);
    let n = g.len(0, 70);
    if n != 32 {
        let z = g.bytes_n(n);
        let r = no_panic(|| s.compute_shared_secret(&sa, &PublicKey(z.clone())).is_err());
        ensure!(r == Ok(true), "public-length", "{}-byte public key: {:?}", n, r);
        if n < 32 {
            let r = no_panic(|| (s.compute_shared_secret(&PrivateKey(z.clone()), &pa).is_err(), s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(z.clone())))).is_err()));
            ensure!(r == Ok((true, true)), "secret-length", "{}-byte secret key: {:?}", n, r);
        }
    }
    Ok(())
}

fn kx_secp(g: &mut G) -> R {
    let s = K(EcdhSecp256k1Sha256::new());
    g.nontrivial();
    let mut party = |g: &mut G| -> Result<(PublicKey, PrivateKey, A), Fail> {
        let how = g.below(3);
        g.label(["secp key: seed", "secp key: random", "secp key: imported"][how]);
        let r = match how {
            0 => {
                let n = g.range(32, 50);
                let seed = g.key(n);
                let r = s.keypair(Some(KeyGenOption::UseSeed(seed.clone())));
                ensure!(r == s.keypair(Some(KeyGenOption::UseSeed(seed.clone()))), "seed-not-reproducible", "seed {}", hex(&seed));
                r
            }
            1 => s.keypair(None),
            _ => {
                let mut k = g.key(32);
                k[0] &= 0x7f;
                k[31] |= 1;
                let r = s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(k.clone()))));
                if let Ok((_, sk)) = &r {
                    ensure!(sk[..] == k[..], "secret-changed", "{} imported as {:?}", hex(&k), sk);
                }
                r
            }
        };
        match r {
            Ok((pk, sk)) => {
                let q = kmul(&BigUint::from_bytes_be(&sk[..]), &kg());
                ensure!(pk[..] == kcompress(&q)[..], "public-key", "{:?} has public key {:?}", sk, pk);
                let again = s.keypair(Some(KeyGenOption::FromSecretKey(sk.clone())));
                ensure!(again.as_ref().map(|x| &x.0) .ok() == Some(&pk), "public-from-secret", "{:?}", again);
                Ok((pk, sk, q))
            }
            Err(e) => fail("keypair-fails", format!("{:?}", e)),
        }
    };
    let (pa, sa, _) = party(g)?;
    let (pb, sb, qb) = party(g)?;
    g.show(format!("a={} b={}", hex(&sa[..]), hex(&sb[..])));
    let (x, y) = (s.compute_shared_secret(&sa, &pb), s.compute_shared_secret(&sb, &pa));
    ensure!(x.is_ok() && x == y, "disagreement", "{:?} and {:?}", x, y);
    let want = be32(&kmul(&BigUint::from_bytes_be(&sa[..]), &qb).unwrap().0);
    ensure!(x.as_ref().map(|z| z.to_vec()) == Ok(want.clone()), "secret-differs", "secret {:?}, x-coordinate of the shared point {}", x, hex(&want));
    let mut k2 = sa[..].to_vec();
    k2[g.range(1, 30)] ^= 1 << g.below(8);
    ensure!(s.compute_shared_secret(&PrivateKey(k2), &pb) != x, "secret-unchanged", "changing a key leaves the secret");
    // uncompressed peer key gives the same; malformed ones an error
    let z = s.compute_shared_secret(&sa, &PublicKey(kuncompressed(&qb)));
    ensure!(z == x, "uncompressed-peer", "{:?}", z);
    let n = g.len(0, 70);
    let mut d = g.bytes_n(n);
    if n == 33 && g.bool() {
        d[0] = 2;
    }
    // hybrid encodings are a matter of taste
    if kparse(&d).is_none() {
        let r = no_panic(|| s.compute_shared_secret(&sa, &PublicKey(d.clone())).is_err());
        ensure!(r == Ok(true), "bad-peer", "peer {}: {:?}", hex(&d), r);
    }
    let i = g.below(33);
    let mut d = pb[..].to_vec();
    d[i] ^= 1 << g.below(8);
    let r = no_panic(|| s.compute_shared_secret(&sa, &PublicKey(d.clone())).ok().map(|z| z.to_vec()));
    let want = kparse(&d).map(|q| be32(&kmul(&BigUint::from_bytes_be(&sa[..]), &Some(q)).unwrap().0));
    ensure!(r == Ok(want.clone()), "mutated-peer", "peer {}: {:?} instead of {:?}", hex(&d), r, want);
    // an uncompressed key whose coordinates do not belong together, or with its other y
    let mut d = kuncompressed(&qb);
    match g.below(5) {
        0 => {
            let i = g.range(1, 64);
            d[i] ^= 1 << g.below(8);
        }
        1 => {
            let y = g.bytes_n(32);
            d[33..].copy_from_slice(&y);
        }
        2 => {
            let (x, y) = (d[1..33].to_vec(), d[33..].to_vec());
            d[1..33].copy_from_slice(&y);
            d[33..].copy_from_slice(&x);
        }
        3 => {
            let y = &*PK1 - BigUint::from_bytes_be(&d[33..]);
            d[33..].copy_from_slice(&be32(&y));
        }
        _ => {
            // a point of the same curve with the other constant
            let y = BigUint::from_bytes_be(&d[33..]) + b(1);
            d[33..].copy_from_slice(&be32(&(y % &*PK1)));
        }
    }
    let r = no_panic(|| s.compute_shared_secret(&sa, &PublicKey(d.clone())).ok().map(|z| z.to_vec()));
    let want = kparse(&d).map(|q| be32(&kmul(&BigUint::from_bytes_be(&sa[..]), &Some(q)).unwrap().0));
    ensure!(r == Ok(want.clone()), "uncompressed-peer-mutated", "peer {}: {:?} instead of {:?}", hex(&d), r, want);
    if n != 32 {
        let z = g.bytes_n(n);
        let r = no_panic(|| (s.compute_shared_secret(&PrivateKey(z.clone()), &pa).is_err(), s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(z.clone())))).is_err(), n >= 32 || s.keypair(Some(KeyGenOption::UseSeed(z.clone()))).is_err()));
        ensure!(r == Ok((true, true, true)), "secret-length", "{}-byte secret key or seed: {:?}", n, r);
    }
    for z in vec![be32(&b(0)), be32(&NK1)] {
        let r = no_panic(|| (s.compute_shared_secret(&PrivateKey(z.clone()), &pa).is_err(), s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(z.clone())))).is_err()));
        ensure!(r == Ok((true, true)), "secret-range", "secret {}: {:?}", hex(&z), r);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "S01",
            rule: "every case signs and compares with the reference, presents at least 64 altered signatures, or signatures under a key of small order",
            assumptions: vec!["OpenSSL's SHA-512 is correct"],
            subs: vec![sub("sign_verify", 3000, 100000, 200, ed_sign_verify), sub("reject", 3000, 100000, 300, ed_reject), sub("weak", 300, 10000, 60, ed_weak)],
        },
        Prop {
            id: "S02",
            rule: "every case signs and compares with the reference, presents altered signatures, or decodes a key",
            assumptions: vec!["OpenSSL's SHA-256 is correct"],
            subs: vec![sub("sign_verify", 3000, 100000, 200, ec_sign_verify), sub("reject", 2000, 60000, 300, ec_reject), sub("parse", 8000, 400000, 300, ec_parse)],
        },
        Prop {
            id: "K01",
            rule: "every case runs an agreement between two generated key pairs and compares with the reference",
            assumptions: vec![],
            subs: vec![sub("x25519", 3000, 100000, 200, kx_x25519), sub("secp256k1", 3000, 100000, 200, kx_secp)],
        },
    ]
}
