//! M01: the objects that hold keys: exactly the bytes given, and nothing left of them once dropped.
use pbt::mem::{dropped, secret, watch, POISON};
use pbt::*;
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;
use std::sync::atomic::Ordering;
use ursa::encryption::symm::prelude::*;
use ursa::kex::{secp256k1::EcdhSecp256k1Sha256, x25519::X25519Sha256, KeyExchangeScheme};
use ursa::keys::*;
use ursa::signatures::prelude::*;
use zeroize::Zeroize;

fn bytes(g: &mut G, lo: usize, hi: usize) -> Vec<u8> {
    let n = g.range(lo, hi);
    secret(g.draw(u64::MAX), n)
}
/// what keys of all kinds can do
trait Key: Clone + PartialEq + Debug + std::fmt::Display + Zeroize + Serialize + DeserializeOwned + AsRef<[u8]> {
    const NAME: &'static str;
    fn of(b: Vec<u8>) -> Self;
    fn vec(&self) -> &Vec<u8>;
    fn size(&self) -> (usize, bool);
    fn set(&mut self, i: usize, x: u8);
    fn at(&self, i: usize) -> u8;
    fn parts(&self, a: usize, b: usize) -> [Vec<u8>; 4];
    fn raw(&self) -> *const u8;
}
macro_rules! key {
    ($($t:ident)*) => {$(impl Key for $t {
        const NAME: &'static str = stringify!($t);
        fn of(b: Vec<u8>) -> Self { $t(b) }
        fn vec(&self) -> &Vec<u8> { &self.0 }
        fn size(&self) -> (usize, bool) { (self.len(), self.is_empty()) }
        fn set(&mut self, i: usize, x: u8) { unsafe { *self.as_mut_ptr().add(i) = x } }
        fn at(&self, i: usize) -> u8 { self[i] }
        fn parts(&self, a: usize, b: usize) -> [Vec<u8>; 4] { [self[a..b].to_vec(), self[..b].to_vec(), self[a..].to_vec(), self[..].to_vec()] }
        fn raw(&self) -> *const u8 { self.as_ptr() }
    })*}
}
key!(PrivateKey PublicKey SessionKey MacKey);

fn one<K: Key>(g: &mut G) -> R {
    let b = if g.chance(1, 4) { g.bytes(0, 40) } else { bytes(g, 8, 200) };
    let mut k = K::of(b.clone());
    g.show(format!("{} {}", K::NAME, hex(&b)));
    g.eval();
    ensure!(k.vec() == &b && k.as_ref() == &b[..] && k.size() == (b.len(), b.is_empty()) && k.raw() == k.vec().as_ptr(), "bytes", "{} is not the bytes {}", k, hex(&b));
    let (x, y) = (g.below(b.len() + 1), g.below(b.len() + 1));
    let (x, y) = (x.min(y), x.max(y));
    ensure!(k.parts(x, y) == [b[x..y].to_vec(), b[..y].to_vec(), b[x..].to_vec(), b.clone()], "range", "{}[{}..{}] is {:?}", k, x, y, k.parts(x, y));
    if x < b.len() {
        ensure!(k.at(x) == b[x], "index", "{}[{}] is {}", k, x, k.at(x));
    }
    // equality
    let mut c = b.clone();
    match g.below(4) {
        0 if !c.is_empty() => {
            let (i, d) = (g.below(c.len()), 1 + g.draw(254) as u8);
            c[i] ^= d
        }
        1 => c.push(0),
        2 => drop(c.pop()),
        _ => c.reverse(),
    }
    ensure!((K::of(c.clone()) == k) == (c == b), "equality", "{} == {} is {}", K::of(c.clone()), k, K::of(c.clone()) == k);
    // a copy is equal and separate
    let mut d = k.clone();
    ensure!(d == k && (b.is_empty() || d.raw() != k.raw()), "clone", "the clone of {} is {}", k, d);
    if !b.is_empty() {
        let i = g.below(b.len());
        d.set(i, !b[i]);
        ensure!(k.vec() == &b && d.at(i) == !b[i] && d != k, "clone", "a change of the clone of {} changes it or not the clone", k);
    }
    // text
    let text = format!("{} {{ {} }}", K::NAME, hex(&b));
    ensure!(format!("{}", k) == text && format!("{:?}", k) == text, "text", "{} and {:?} instead of {}", k, k, text);
    let js = serde_json::to_string(&k).map_err(|e| Fail { sig: "json".into(), msg: e.to_string() })?;
    ensure!(js == format!("\"{}\"", hex(&b)), "json", "{} instead of {}", js, hex(&b));
    let up = if g.bool() { js.to_uppercase() } else { js.clone() };
    match serde_json::from_str::<K>(&up) {
        Ok(x) => ensure!(x == k, "json", "{} read as {}", up, x),
        Err(e) => return fail("json", format!("{} is not read: {}", up, e)),
    }
    let bin = no_panic(|| serde_json::from_value::<K>(serde_json::to_value(&k).unwrap()));
    ensure!(bin.as_ref().map_or(false, |x| x.as_ref().map_or(false, |x| *x == k)), "json", "{} does not come back from a JSON value", k);
    let mut bad = js.clone();
    let what = g.below(5);
    match what {
        0 => bad.insert(1, *g.pick(&['0', 'a'])),
        1 => bad.insert_str(1 + 2 * g.below(b.len() + 1), *g.pick(&["zz", "0x", " 0", "é"])),
        2 => bad = format!("{:?}", b),
        3 => bad = "null".into(),
        _ => bad = format!("{{\"{}\":{}}}", K::NAME, js),
    }
    match no_panic(|| serde_json::from_str::<K>(&bad)) {
        Err(p) => return fail("panic", format!("reading {} panics: {}", bad, p)),
        Ok(Ok(x)) => return fail("bad-json", format!("{} is read as {}", bad, x)),
        Ok(Err(_)) => {}
    }
    // wiping
    if b.len() >= 8 && b.iter().any(|x| *x != 0) {
        g.nontrivial();
        let (p, n) = (k.raw(), b.len());
        let mut z = k.clone();
        let q = z.raw();
        z.zeroize();
        let rest = unsafe { std::slice::from_raw_parts(q, n) };
        ensure!(rest.iter().all(|x| *x == 0), "wipe", "zeroize leaves {} of {}", hex(rest), hex(&b));
        let _ = p;
        if distinct(&b) {
            k.set(0, b[0]);
            let (before, after) = dropped(k, &b);
            ensure!(!before && !after, "wipe", "{} leaves {} in memory when it is dropped", K::NAME, hex(&b));
            // moved into a box, a vector, a result
            let v: Vec<K> = (0..3).map(|_| K::of(b.clone())).collect();
            let (_, found) = watch(&b, || drop(v));
            ensure!(found == 0, "wipe", "a list of {} leaves {} in memory when it is dropped", K::NAME, hex(&b));
        }
    }
    Ok(())
}
/// random enough to be looked for
fn distinct(b: &[u8]) -> bool {
    let mut c = [false; 256];
    b.iter().for_each(|x| c[*x as usize] = true);
    c.iter().filter(|x| **x).count() >= 7.max(b.len() / 4)
}
fn keys(g: &mut G) -> R {
    POISON.store(true, Ordering::Relaxed);
    match g.below(4) {
        0 => one::<PrivateKey>(g),
        1 => one::<PublicKey>(g),
        2 => one::<SessionKey>(g),
        _ => one::<MacKey>(g),
    }
}

fn options(g: &mut G) -> R {
    POISON.store(true, Ordering::Relaxed);
    let b = bytes(g, 32, 64);
    let seed = g.bool();
    g.nontrivial();
    let make = |b: &Vec<u8>| if seed { KeyGenOption::UseSeed(b.clone()) } else { KeyGenOption::FromSecretKey(PrivateKey(b.clone())) };
    let o = make(&b);
    let js = serde_json::to_string(&o).map_err(|e| Fail { sig: "json".into(), msg: e.to_string() })?;
    match serde_json::from_str::<KeyGenOption>(&js) {
        Ok(x) => ensure!(x == o, "json", "{} is read as {:?}", js, x),
        Err(e) => return fail("json", format!("{} is not read: {}", js, e)),
    }
    let other = if seed { KeyGenOption::FromSecretKey(PrivateKey(b.clone())) } else { KeyGenOption::UseSeed(b.clone()) };
    ensure!(o == make(&b) && o != other, "equality", "{:?} and {:?}", o, other);
    let (_, after) = dropped(o, &b);
    ensure!(!after, "wipe", "a KeyGenOption leaves {} in memory when it is dropped", hex(&b));
    // key generation takes the option
    let which = g.below(3);
    let names = ["Ed25519Sha512", "EcdsaSecp256k1Sha256", "X25519Sha256", "EcdhSecp256k1Sha256"];
    g.eval();
    // a key that the scheme accepts
    let key = match (which, seed) {
        (_, true) => b.clone(),
        (0, _) => match Ed25519Sha512::expand_keypair(&b) {
            Ok(k) => k.1 .0.clone(),
            Err(e) => return fail("keygen", format!("{:?}", e)),
        },
        _ => b[..32].to_vec(),
    };
    let ecdh = g.bool();
    let o = make(&key);
    let (r, found) = watch(&key[..32], || match which {
        0 => Ed25519Sha512::new().keypair(Some(o)).map(|k| k.1 .0.clone()),
        1 if ecdh => EcdhSecp256k1Sha256::new().keypair(Some(o)).map(|k| k.1 .0.clone()),
        1 => EcdsaSecp256k1Sha256::new().keypair(Some(o)).map(|k| k.1 .0.clone()),
        _ => X25519Sha256::new().keypair(Some(o)).map(|k| k.1 .0.clone()),
    });
    let name = if which == 1 && ecdh { names[3] } else { names[which] };
    g.label(format!("{} {}", name, if seed { "seed" } else { "key" }));
    match r {
        Ok(_) => {}
        Err(e) => return fail("keygen", format!("{} refuses {}: {:?}", name, hex(&key), e)),
    }
    ensure!(found == 0, "wipe", "{}::keypair leaves {} of the {} in freed memory", name, hex(&key), if seed { "seed" } else { "key" });
    Ok(())
}

fn enc<E: Encryptor>(g: &mut G, n: usize) -> R {
    let k = secret(g.draw(u64::MAX), n);
    g.nontrivial();
    g.eval();
    let e = match SymmetricEncryptor::<E>::new_with_key(&k) {
        Ok(e) => e,
        Err(e) => return fail("refuses", format!("a key of {} bytes: {}", n, e)),
    };
    let (_, after) = dropped(e, &k);
    ensure!(!after, "wipe", "an encryptor of {} leaves its key {} in memory when it is dropped", std::any::type_name::<E>(), hex(&k));
    Ok(())
}
fn encryptors(g: &mut G) -> R {
    POISON.store(true, Ordering::Relaxed);
    match g.below(11) {
        0 => enc::<Aes128Gcm>(g, 16),
        1 => enc::<Aes256Gcm>(g, 32),
        2 => enc::<ChaCha20Poly1305>(g, 32),
        3 => enc::<XChaCha20Poly1305>(g, 32),
        4 => enc::<Aes128CbcHmac256>(g, 32),
        5 => enc::<Aes256CbcHmac512>(g, 64),
        x => {
            let (t, n) = [(EncryptorType::Aes128Gcm, 16), (EncryptorType::Aes256Gcm, 32), (EncryptorType::XChaCha20Poly1305, 32), (EncryptorType::Aes128CbcHmac256, 32), (EncryptorType::Aes256CbcHmac512, 64)][x - 6];
            let k = secret(g.draw(u64::MAX), n);
            g.nontrivial();
            g.eval();
            let e = t.gen_encryptor(&k);
            let (_, found) = watch(&k, || drop(e));
            ensure!(found == 0, "wipe", "the encryptor {} leaves its key {} in memory when it is dropped", t, hex(&k));
            Ok(())
        }
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "M01",
        rule: "a secret of at least 8 bytes was in the object before it was dropped",
        assumptions: vec!["what is left in registers and on the stack by calls is not looked at"],
        subs: vec![sub("keys", 3000, 60000, 300, keys), sub("options", 400, 6000, 60, options), sub("encryptors", 400, 6000, 60, encryptors)],
    }]
}
