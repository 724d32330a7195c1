//! Z01, Z02, Z03: BBS+ signatures, presentations, decoders
use bbs::prelude::*;
use ff_zeroize::{Field, PrimeField};
use pairing_plus::bls12_381::{Fr, G1, G2};
use pairing_plus::serdes::SerDes;
use pairing_plus::CurveProjective;
use pbt::*;
use rand_chacha::{rand_core::SeedableRng, ChaChaRng};
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;
use std::fmt::Debug;

pub fn e<T, X: Debug>(what: &str, r: Result<T, X>) -> Result<T, Fail> {
    r.map_err(|x| Fail { sig: format!("error-{}", what), msg: format!("{} failed: {:?}", what, x).chars().take(400).collect() })
}
pub fn rng(g: &mut G) -> ChaChaRng {
    ChaChaRng::seed_from_u64(g.draw(u64::MAX))
}
/// scalars: the edges often
fn fr(g: &mut G) -> Fr {
    match g.draw(5) {
        0 => Fr::zero(),
        1 => {
            let mut r = Fr::one();
            r.negate();
            r
        }
        2 => int(1 + g.draw(4)),
        _ => Fr::random(&mut rng(g)),
    }
}
fn int(v: u64) -> Fr {
    Fr::from_repr(pairing_plus::bls12_381::FrRepr::from(v)).unwrap()
}
fn frx(g: &mut G) -> Fr {
    Fr::random(&mut rng(g))
}
fn g1(g: &mut G) -> G1 {
    G1::random(&mut rng(g))
}
fn msg(g: &mut G) -> SignatureMessage {
    SignatureMessage::from(fr(g))
}
fn ser<T: SerDes>(x: &T, c: bool) -> Vec<u8> {
    let mut v = vec![];
    x.serialize(&mut v, c).unwrap();
    v
}
fn mul(p: &G1, s: &Fr) -> G1 {
    let mut r = *p;
    r.mul_assign(*s);
    r
}
fn add(a: &G1, b: &G1) -> G1 {
    let mut r = *a;
    r.add_assign(b);
    r
}
fn neg(a: &G1) -> G1 {
    let mut r = *a;
    r.negate();
    r
}
fn fadd(a: &Fr, b: &Fr) -> Fr {
    let mut r = *a;
    r.add_assign(b);
    r
}
fn fsub(a: &Fr, b: &Fr) -> Fr {
    let mut r = *a;
    r.sub_assign(b);
    r
}
fn fmul(a: &Fr, b: &Fr) -> Fr {
    let mut r = *a;
    r.mul_assign(b);
    r
}
fn fr_of(b: &[u8]) -> Fr {
    Fr::deserialize(&mut &b[..], true).unwrap()
}
fn size(g: &mut G) -> usize {
    if is_large() {
        return g.range(255, 300);
    }
    if g.chance(1, 16) {
        g.range(9, 24)
    } else {
        g.range(1, 8)
    }
}
pub struct Key {
    pub pk: PublicKey,
    pub sk: SecretKey,
    pub x: Fr,
}
fn keys(g: &mut G, n: usize) -> Result<Key, Fail> {
    let (pk, sk) = if g.draw(4) == 0 {
        e("new_keys", Issuer::new_keys(n))?
    } else {
        let seed = g.bytes(0, 40);
        let (d, sk) = e("new_short_keys", Issuer::new_short_keys(Some(KeyGenOption::UseSeed(seed))))?;
        (e("to_public_key", d.to_public_key(n))?, sk)
    };
    ensure!(pk.message_count() == n, "count", "a key for {} messages has {}", n, pk.message_count());
    let x = fr_of(&sk.to_bytes_compressed_form());
    let mut w = G2::one();
    w.mul_assign(x);
    ensure!(*pk.w.as_ref() == w, "keypair", "the public key is not that of the secret key");
    Ok(Key { pk, sk, x })
}
/// keys and other things through their encodings, or not
fn ship<T: ToVariableLengthBytes<Output = T> + Clone>(g: &mut G, what: &str, v: &T) -> Result<T, Fail>
where
    T::Error: Debug,
{
    let r = match g.draw(2) {
        0 => return Ok(v.clone()),
        1 => {
            let b = v.to_bytes_compressed_form();
            let r = e(what, T::from_bytes_compressed_form(&b))?;
            ensure!(r.to_bytes_compressed_form() == b, "roundtrip", "{} changed in its compressed encoding", what);
            r
        }
        _ => {
            let b = v.to_bytes_uncompressed_form();
            let r = e(what, T::from_bytes_uncompressed_form(&b))?;
            ensure!(r.to_bytes_uncompressed_form() == b, "roundtrip", "{} changed in its uncompressed encoding", what);
            r
        }
    };
    ensure!(r.to_bytes_compressed_form() == v.to_bytes_compressed_form(), "roundtrip", "{} changed in its encoding", what);
    Ok(r)
}
fn ship_sig(g: &mut G, s: &Signature) -> Result<Signature, Fail> {
    let r = match g.draw(3) {
        0 => s.clone(),
        1 => e("Signature", Signature::try_from(&s.to_bytes_compressed_form()[..]))?,
        2 => e("Signature", Signature::try_from(&s.to_bytes_uncompressed_form()[..]))?,
        _ => e("Signature", serde_json::from_str(&e("Signature", serde_json::to_string(s))?))?,
    };
    ensure!(r == *s, "roundtrip", "a signature changed in its encoding");
    Ok(r)
}
struct Sig {
    a: G1,
    e: Fr,
    s: Fr,
}
impl Sig {
    fn of(s: &Signature) -> Sig {
        let b = s.to_bytes_uncompressed_form();
        Sig { a: G1::deserialize(&mut &b[..], false).unwrap(), e: fr_of(&b[96..128]), s: fr_of(&b[128..160]) }
    }
    fn to(&self) -> Result<Signature, Fail> {
        let mut v = ser(&self.a, false);
        v.extend(ser(&self.e, false));
        v.extend(ser(&self.s, false));
        e("Signature", Signature::try_from(v))
    }
}
fn bval(pk: &PublicKey, s: &Fr, m: &[SignatureMessage]) -> G1 {
    let mut b = add(&G1::one(), &mul(pk.h0.as_ref(), s));
    for (h, m) in pk.h.iter().zip(m) {
        b = add(&b, &mul(h.as_ref(), m.as_ref()))
    }
    b
}
/// the definition: A^(x+e) = g1 h0^s prod h_i^m_i
fn good(k: &Key, s: &Signature, m: &[SignatureMessage]) -> bool {
    let s = Sig::of(s);
    mul(&s.a, &fadd(&k.x, &s.e)) == bval(&k.pk, &s.s, m)
}
fn yes<X>(r: Result<bool, X>) -> bool {
    matches!(r, Ok(true))
}
fn change(g: &mut G, m: &SignatureMessage) -> SignatureMessage {
    let v = *m.as_ref();
    loop {
        let w = match g.draw(3) {
            0 => fadd(&v, &Fr::one()),
            1 => {
                let mut w = v;
                w.negate();
                w
            }
            2 => Fr::zero(),
            _ => frx(g),
        };
        if w != v {
            return SignatureMessage::from(w);
        }
    }
}

/// everything that must be refused of a signature
fn signature_mutations(g: &mut G, k: &Key, m: &[SignatureMessage], s: &Signature) -> R {
    let n = m.len();
    // messages
    let mut bad = m.to_vec();
    let i = g.below(n);
    bad[i] = change(g, &m[i]);
    ensure!(!yes(s.verify(&bad, &k.pk)), "message-accepted", "verifies with message {} of {} changed", i, n);
    ensure!(!good(k, s, &bad), "oracle", "the oracle accepts a changed message");
    let j = g.below(n);
    if m[i] != m[j] {
        let mut bad = m.to_vec();
        bad.swap(i, j);
        ensure!(!yes(s.verify(&bad, &k.pk)), "order-accepted", "verifies with messages {} and {} of {} swapped", i, j, n);
    }
    let mut bad = m.to_vec();
    bad.push(msg(g));
    ensure!(!yes(s.verify(&bad, &k.pk)), "count-accepted", "verifies with one more message");
    ensure!(!yes(s.verify(&m[..n - 1], &k.pk)), "count-accepted", "verifies with one message less");
    // key
    let mut pk = k.pk.clone();
    let what = match g.draw(6) {
        0 => {
            let mut w = *pk.w.as_ref();
            w.add_assign(&G2::one());
            pk.w = GeneratorG2::from(w);
            "w"
        }
        1 => {
            pk.h0 = GeneratorG1::from(g1(g));
            "h0"
        }
        2 => {
            let i = g.below(n);
            pk.h[i] = GeneratorG1::from(g1(g));
            if *m[i].as_ref() == Fr::zero() {
                ""
            } else {
                "h_i"
            }
        }
        3 => {
            let i = g.below(n);
            pk.h[i] = GeneratorG1::from(G1::zero());
            "h_i=0"
        }
        4 => {
            pk.h0 = GeneratorG1::from(G1::zero());
            "h0=0"
        }
        5 => {
            pk.w = GeneratorG2::from(G2::zero());
            "w=0"
        }
        _ => {
            pk = keys(g, n)?.pk;
            if pk == k.pk {
                ""
            } else {
                "key"
            }
        }
    };
    if what != "" {
        ensure!(!yes(s.verify(m, &pk)), "key-accepted", "verifies with another {}", what);
    }
    // signature
    let mut t = Sig::of(s);
    let what = match g.draw(6) {
        0 => {
            t.a = add(&t.a, &G1::one());
            "A"
        }
        1 => {
            t.a = neg(&t.a);
            "-A"
        }
        2 => {
            t.e = fadd(&t.e, &Fr::one());
            "e"
        }
        3 => {
            t.s = fadd(&t.s, &Fr::one());
            "s"
        }
        4 => {
            std::mem::swap(&mut t.e, &mut t.s);
            "e and s swapped"
        }
        5 => {
            t.a = G1::zero();
            "A=0"
        }
        _ => {
            t.a = g1(g);
            "random A"
        }
    };
    ensure!(!yes(t.to()?.verify(m, &k.pk)), "signature-accepted", "verifies with another signature: {}", what);
    let mut v = if g.bool() { s.to_bytes_compressed_form().to_vec() } else { s.to_bytes_uncompressed_form().to_vec() };
    let i = g.below(v.len());
    v[i] ^= 1 << g.draw(7);
    if let Ok(t) = Signature::try_from(v) {
        ensure!(!yes(t.verify(m, &k.pk)), "signature-accepted", "verifies with byte {} changed", i)
    }
    g.eval();
    Ok(())
}

fn direct(g: &mut G) -> R {
    let n = size(g);
    let k = keys(g, n)?;
    let m = (0..n).map(|_| msg(g)).collect::<Vec<_>>();
    g.show(format!("{} messages", n));
    g.nontrivial();
    let pk = ship(g, "PublicKey", &k.pk)?;
    let s = e("sign", Issuer::sign(&m, &k.sk, &pk))?;
    ensure!(good(&k, &s, &m), "not-a-signature", "the signature does not satisfy its equation");
    let s = ship_sig(g, &s)?;
    ensure!(e("verify", s.verify(&m, &pk))?, "rejected", "a genuine signature is rejected");
    let (one, two) = (Sig::of(&s), Sig::of(&e("sign", Issuer::sign(&m, &k.sk, &pk))?));
    ensure!(one.e != two.e && one.s != two.s && one.e != one.s && one.a != two.a, "not-randomised", "two signatures share a random part");
    signature_mutations(g, &k, &m, &s)?;
    // signing refuses more messages than the key has, the zero key and zero generators
    let mut more = m.clone();
    more.push(msg(g));
    ensure!(Issuer::sign(&more, &k.sk, &pk).is_err(), "count-accepted", "{} messages signed with a key for {}", n + 1, n);
    ensure!(Issuer::sign(&m, &SecretKey::default(), &pk).is_err(), "key-accepted", "signed with the secret key zero");
    let mut bad = pk.clone();
    let i = g.below(n);
    bad.h[i] = GeneratorG1::from(G1::zero());
    ensure!(Issuer::sign(&m, &k.sk, &bad).is_err(), "key-accepted", "signed with a generator at infinity");
    Ok(())
}

fn hidden(g: &mut G, n: usize) -> BTreeSet<usize> {
    match g.draw(4) {
        0 => BTreeSet::new(),
        1 => (0..n).collect(),
        _ => g.subset(n).into_iter().collect(),
    }
}
fn nonce(g: &mut G) -> ProofNonce {
    ProofNonce::from(fr(g))
}
fn split(m: &[SignatureMessage], hid: &BTreeSet<usize>) -> (BTreeMap<usize, SignatureMessage>, BTreeMap<usize, SignatureMessage>) {
    let mut a = BTreeMap::new();
    let mut b = BTreeMap::new();
    for (i, m) in m.iter().enumerate() {
        if hid.contains(&i) {
            a.insert(i, *m);
        } else {
            b.insert(i, *m);
        }
    }
    (a, b)
}
/// a context's parts by its encoding
struct Ctx {
    commitment: G1,
    challenge: Fr,
    t: G1,
    resp: Vec<Fr>,
}
impl Ctx {
    fn of(c: &BlindSignatureContext) -> Ctx {
        let b = c.to_bytes_uncompressed_form();
        let p = Pvc::read(&b[128..]).0;
        Ctx { commitment: G1::deserialize(&mut &b[..], false).unwrap(), challenge: fr_of(&b[96..128]), t: p.t, resp: p.resp }
    }
    fn to(&self) -> Result<BlindSignatureContext, Fail> {
        let mut v = ser(&self.commitment, false);
        v.extend(ser(&self.challenge, false));
        v.extend(Pvc { t: self.t, resp: self.resp.clone() }.bytes());
        e("BlindSignatureContext", BlindSignatureContext::from_bytes_uncompressed_form(v))
    }
}
#[derive(Clone)]
struct Pvc {
    t: G1,
    resp: Vec<Fr>,
}
impl Pvc {
    fn read(b: &[u8]) -> (Pvc, usize) {
        let t = G1::deserialize(&mut &b[..], false).unwrap();
        let n = u32::from_be_bytes([b[96], b[97], b[98], b[99]]) as usize;
        (Pvc { t, resp: (0..n).map(|i| fr_of(&b[100 + 32 * i..132 + 32 * i])).collect() }, 100 + 32 * n)
    }
    fn bytes(&self) -> Vec<u8> {
        let mut v = ser(&self.t, false);
        v.extend(&(self.resp.len() as u32).to_be_bytes());
        for r in &self.resp {
            v.extend(ser(r, false))
        }
        v
    }
}
fn combo(bases: &[G1], scalars: &[Fr]) -> G1 {
    bases.iter().zip(scalars).fold(G1::zero(), |a, (b, s)| add(&a, &mul(b, s)))
}
fn h2fr(v: &[u8]) -> Fr {
    *ProofChallenge::hash(v).as_ref()
}

fn blind(g: &mut G) -> R {
    let n = size(g);
    let k = keys(g, n)?;
    let m = (0..n).map(|_| msg(g)).collect::<Vec<_>>();
    let hid = hidden(g, n);
    let non = nonce(g);
    g.show(format!("{} messages, hidden {:?}", n, hid));
    if !hid.is_empty() {
        g.nontrivial();
    }
    let (hm, km) = split(&m, &hid);
    let known: BTreeSet<usize> = km.keys().copied().collect();
    let (ctx, bf) = e("new_blind_signature_context", Prover::new_blind_signature_context(&k.pk, &hm, &non))?;
    let mut want = mul(k.pk.h0.as_ref(), bf.as_ref());
    for (i, m) in &hm {
        want = add(&want, &mul(k.pk.h[*i].as_ref(), m.as_ref()));
    }
    ensure!(*ctx.commitment.as_ref() == want, "commitment", "the commitment does not open to the hidden messages");
    let ctx = ship(g, "BlindSignatureContext", &ctx)?;
    ensure!(e("verify", ctx.verify(&known, &k.pk, &non))?, "request-rejected", "a genuine request is rejected");
    let bs = e("blind_sign", Issuer::blind_sign(&ctx, &km, &k.sk, &k.pk, &non))?;
    let bs = match g.draw(2) {
        0 => bs,
        1 => e("BlindSignature", BlindSignature::try_from(&bs.to_bytes_compressed_form()[..]))?,
        _ => e("BlindSignature", BlindSignature::try_from(&bs.to_bytes_uncompressed_form()[..]))?,
    };
    let s = e("complete_signature", Prover::complete_signature(&k.pk, &m, &bs, &bf))?;
    ensure!(good(&k, &s, &m), "not-a-signature", "the unblinded signature does not satisfy its equation");
    ensure!(e("verify", s.verify(&m, &k.pk))?, "rejected", "an unblinded signature is rejected");
    ensure!(bs.to_unblinded(&bf) == s, "unblinding", "to_unblinded gives another signature");
    let (one, two) = (Sig::of(&s), Sig::of(&e("complete_signature", Prover::complete_signature(&k.pk, &m, &e("blind_sign", Issuer::blind_sign(&ctx, &km, &k.sk, &k.pk, &non))?, &bf))?));
    let s2 = fsub(&one.s, bf.as_ref());
    ensure!(one.e != two.e && one.s != two.s && one.e != s2 && one.a != two.a, "not-randomised", "two blind signatures share a random part");
    if g.draw(3) == 0 {
        signature_mutations(g, &k, &m, &s)?;
    }
    // wrong unblinding
    let wrong = SignatureBlinding::from(fadd(bf.as_ref(), &frx(g)));
    ensure!(Prover::complete_signature(&k.pk, &m, &bs, &wrong).is_err(), "unblinding", "unblinded with another factor");
    let i = g.below(n);
    let mut bad = m.clone();
    bad[i] = change(g, &m[i]);
    ensure!(Prover::complete_signature(&k.pk, &bad, &bs, &bf).is_err(), "message-accepted", "completed with message {} changed", i);
    ensure!(Prover::complete_signature(&k.pk, &m[..n - 1], &bs, &bf).is_err(), "count-accepted", "completed with a message less");
    let mut more = m.clone();
    more.push(msg(g));
    ensure!(Prover::complete_signature(&k.pk, &more, &bs, &bf).is_err(), "count-accepted", "completed with a message more");
    ensure!(!yes(Signature::try_from(&bs.to_bytes_compressed_form()[..]).unwrap().verify(&m, &k.pk)), "blind-accepted", "the blind signature verifies as it is");
    // requests that are not what the proof was made for
    for _ in 0..3 {
        let (mut km2, mut pk, mut non2) = (km.clone(), k.pk.clone(), non);
        let mut c = Ctx::of(&ctx);
        let what = match g.draw(10) {
            0 => {
                non2 = ProofNonce::from(fadd(non.as_ref(), &Fr::one()));
                "nonce".to_string()
            }
            1 => {
                let i = g.below(n);
                if km2.remove(&i).is_none() {
                    km2.insert(i, m[i]);
                }
                format!("set: {} moved", i)
            }
            2 => {
                c.commitment = add(&c.commitment, &g1(g));
                "commitment".into()
            }
            3 => {
                c.challenge = fadd(&c.challenge, &Fr::one());
                "challenge".into()
            }
            4 => {
                let i = g.below(c.resp.len());
                c.resp[i] = fadd(&c.resp[i], &Fr::one());
                format!("response {}", i)
            }
            5 => {
                c.t = add(&c.t, &g1(g));
                "proof commitment".into()
            }
            6 => {
                let _ = c.resp.pop();
                "a response less".into()
            }
            7 => {
                c.resp.push(fr(g));
                "a response more".into()
            }
            8 => {
                match hid.iter().next() {
                    Some(i) if g.bool() => pk.h[*i] = GeneratorG1::from(g1(g)),
                    _ => pk.h0 = GeneratorG1::from(g1(g)),
                }
                "generator".into()
            }
            9 => {
                // another hidden set of the same size
                let free: Vec<usize> = known.iter().copied().collect();
                if free.is_empty() || hid.is_empty() {
                    continue;
                }
                let (a, b) = (*g.pick(&free), *hid.iter().next().unwrap());
                km2.remove(&a);
                km2.insert(b, m[b]);
                format!("set: {} for {}", a, b)
            }
            _ => {
                // simulated: everything consistent but the hash
                let mut bases = vec![*k.pk.h0.as_ref()];
                bases.extend(hid.iter().map(|i| *k.pk.h[*i].as_ref()));
                c.commitment = g1(g);
                c.challenge = frx(g);
                c.resp = bases.iter().map(|_| frx(g)).collect();
                c.t = add(&combo(&bases, &c.resp), &mul(&c.commitment, &c.challenge));
                "simulated".into()
            }
        };
        let c = c.to()?;
        let known2: BTreeSet<usize> = km2.keys().copied().collect();
        ensure!(!yes(c.verify(&known2, &pk, &non2)), "request-accepted", "a request is accepted with another {}", what);
        ensure!(Issuer::blind_sign(&c, &km2, &k.sk, &pk, &non2).is_err(), "request-accepted", "a request is signed with another {}", what);
        g.eval();
    }
    // indices out of range
    let out = n + g.draw(2) as usize;
    let mut h2 = hm.clone();
    h2.insert(out, msg(g));
    let r = no_panic(|| Prover::new_blind_signature_context(&k.pk, &h2, &non).is_err());
    ensure!(r == Ok(true), "index", "hiding message {} of {}: {:?}", out, n, r);
    let mut k2 = km.clone();
    k2.insert(out, msg(g));
    let r = no_panic(|| Issuer::blind_sign(&ctx, &k2, &k.sk, &k.pk, &non).is_err());
    ensure!(r == Ok(true), "index", "signing message {} of {}: {:?}", out, n, r);
    Ok(())
}

/// blake2b with 48 bytes of output, read as an integer modulo the order
fn blake(data: &[u8]) -> Vec<u8> {
    use blake2::digest::{Input, VariableOutput};
    let mut h = blake2::VarBlake2b::new(48).unwrap();
    h.input(data);
    let r = num_bigint::BigUint::parse_bytes(b"73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16).unwrap();
    let v = (num_bigint::BigUint::from_bytes_be(&h.vec_result()) % r).to_bytes_be();
    let mut o = vec![0; 32 - v.len()];
    o.extend(v);
    o
}
fn keygen(g: &mut G) -> R {
    let n = size(g);
    let seed = g.bytes(0, 70);
    g.show(format!("{} messages, seed {}", n, hex(&seed)));
    g.nontrivial();
    let (d, sk) = e("new_short_keys", Issuer::new_short_keys(Some(KeyGenOption::UseSeed(seed.clone()))))?;
    let (d2, sk2) = e("new_short_keys", Issuer::new_short_keys(Some(KeyGenOption::UseSeed(seed.clone()))))?;
    ensure!(d == d2 && sk == sk2, "deterministic", "the same seed gives different keys");
    let mut other = seed.clone();
    other.push(g.draw(255) as u8);
    let (d3, _) = e("new_short_keys", Issuer::new_short_keys(Some(KeyGenOption::UseSeed(other))))?;
    ensure!(d != d3, "distinct", "different seeds give the same key");
    let k = sk2.clone();
    let memory = unsafe { std::slice::from_raw_parts(&k as *const SecretKey as *const u8, std::mem::size_of::<SecretKey>()) }.to_vec();
    let (before, after) = pbt::mem::dropped(k, &memory);
    ensure!(before && !after, "wipe", "a secret key is still in memory when it was dropped");
    let (d4, sk4) = e("new_short_keys", Issuer::new_short_keys(Some(KeyGenOption::FromSecretKey(sk.clone()))))?;
    ensure!(d == d4 && sk == sk4, "deterministic", "the secret key gives another public key");
    ensure!(Issuer::new_short_keys(Some(KeyGenOption::FromSecretKey(SecretKey::default()))).is_err(), "key-accepted", "keys from the secret key zero");
    let mut w = G2::one();
    w.mul_assign(fr_of(&sk.to_bytes_compressed_form()));
    ensure!(*d.as_ref() == w, "keypair", "the public key is not that of the secret key");
    let d5 = match g.draw(2) {
        0 => e("DeterministicPublicKey", DeterministicPublicKey::try_from(&d.to_bytes_compressed_form()[..]))?,
        1 => e("DeterministicPublicKey", DeterministicPublicKey::try_from(&d.to_bytes_uncompressed_form()[..]))?,
        _ => e("DeterministicPublicKey", serde_json::from_str(&serde_json::to_string(&d).unwrap()))?,
    };
    ensure!(d5 == d, "roundtrip", "a short key changed in its encoding");
    let p = e("to_public_key", d.to_public_key(n))?;
    ensure!(p == e("to_public_key", d5.to_public_key(n))?, "deterministic", "a short key gives different long ones");
    ensure!(*p.w.as_ref() == w && p.h.len() == n, "expanded", "the expanded key is another one");
    let mut all: Vec<Vec<u8>> = p.h.iter().chain(Some(&p.h0)).map(|x| x.to_bytes_compressed_form().to_vec()).collect();
    ensure!(p.validate().is_ok(), "expanded", "the expanded key is invalid");
    let p2 = e("to_public_key", d.to_public_key(n + 1))?;
    all.extend(p2.h.iter().chain(Some(&p2.h0)).map(|x| x.to_bytes_compressed_form().to_vec()));
    if n > 256 {
        let p3 = e("to_public_key", d.to_public_key(n - 256))?;
        all.extend(p3.h.iter().chain(Some(&p3.h0)).map(|x| x.to_bytes_compressed_form().to_vec()));
    }
    if d != d3 {
        let p3 = e("to_public_key", d3.to_public_key(n))?;
        all.extend(p3.h.iter().chain(Some(&p3.h0)).map(|x| x.to_bytes_compressed_form().to_vec()));
    }
    let set: BTreeSet<_> = all.iter().collect();
    ensure!(set.len() == all.len(), "distinct", "generators repeat");
    ensure!(d.to_public_key(0).is_err() && Issuer::new_keys(0).is_err(), "count-accepted", "a key for no messages");
    let data = if g.chance(1, 12) { g.big(200, 70000) } else { g.bytes(0, 200) };
    let want = blake(&data);
    ensure!(SignatureMessage::hash(&data).to_bytes_compressed_form()[..] == want[..], "hash", "the message of {} is {}", hex(&data), hex(&SignatureMessage::hash(&data).to_bytes_compressed_form()));
    ensure!(ProofNonce::hash(&data).to_bytes_compressed_form()[..] == want[..] && ProofChallenge::hash(&data).to_bytes_compressed_form()[..] == want[..], "hash", "nonce or challenge of {}", hex(&data));
    g.eval();
    Ok(())
}

// ---------------------------------------------------------------- Z02
/// a presentation by its parts
#[derive(Clone)]
struct Pok {
    a_prime: G1,
    a_bar: G1,
    d: G1,
    p1: Pvc,
    p2: Pvc,
}
impl Pok {
    fn of(p: &PoKOfSignatureProof) -> Pok {
        let b = p.to_bytes_uncompressed_form();
        let pt = |i: usize| G1::deserialize(&mut &b[96 * i..], false).unwrap();
        let (p1, l) = Pvc::read(&b[292..]);
        Pok { a_prime: pt(0), a_bar: pt(1), d: pt(2), p1, p2: Pvc::read(&b[292 + l..]).0 }
    }
    fn to(&self) -> Result<PoKOfSignatureProof, Fail> {
        let mut v = ser(&self.a_prime, false);
        v.extend(ser(&self.a_bar, false));
        v.extend(ser(&self.d, false));
        let a = self.p1.bytes();
        v.extend(&(a.len() as u32).to_be_bytes());
        v.extend(a);
        v.extend(self.p2.bytes());
        e("PoKOfSignatureProof", PoKOfSignatureProof::from_bytes_uncompressed_form(v))
    }
}
fn present(pok: &Pok, revealed: &BTreeMap<usize, SignatureMessage>) -> Result<SignatureProof, Fail> {
    Ok(SignatureProof { revealed_messages: revealed.clone(), proof: pok.to()? })
}
/// what a verifier hashes, by the description of the protocol
fn transcript(p: &Pok, set: &BTreeSet<usize>, pk: &PublicKey, nonce: &ProofNonce) -> Fr {
    let mut v = ser(&p.a_bar, false);
    v.extend(ser(&p.a_prime, false));
    v.extend(ser(pk.h0.as_ref(), false));
    v.extend(ser(&p.p1.t, false));
    v.extend(ser(&p.d, false));
    v.extend(ser(pk.h0.as_ref(), false));
    for i in 0..pk.message_count() {
        if !set.contains(&i) {
            v.extend(ser(pk.h[i].as_ref(), false))
        }
    }
    v.extend(ser(&p.p2.t, false));
    v.extend(&nonce.to_bytes_uncompressed_form()[..]);
    h2fr(&v)
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Cheat {
    No,
    /// no signature at all: the two relations hold, the pairing does not
    Unsigned,
    /// the pairing holds, the first relation does not
    First,
    /// revealed messages other than the signed ones
    Second,
    /// everything simulated for a challenge of the prover's choice
    Simulated,
    /// another revealed value than the signed one, fixed after the challenge
    Late(usize),
}
/// a prover of our own, from the equations
fn own_prover(g: &mut G, k: &Key, sig: &Sig, m: &[SignatureMessage], set: &BTreeSet<usize>, asked: &BTreeSet<usize>, nonce: &ProofNonce, cheat: Cheat) -> (Pok, BTreeMap<usize, SignatureMessage>) {
    let pk = &k.pk;
    let mut revealed: BTreeMap<usize, SignatureMessage> = set.iter().map(|i| (*i, m[*i])).collect();
    let nz = |g: &mut G| loop {
        let x = frx(g);
        if x != Fr::zero() {
            return x;
        }
    };
    let (r1, r2) = (nz(g), nz(g));
    let b = bval(pk, &sig.s, m);
    let a_prime = mul(&sig.a, &r1);
    let a_bar = match cheat {
        Cheat::First | Cheat::Simulated => mul(&a_prime, &k.x),
        _ => add(&mul(&b, &r1), &neg(&mul(&a_prime, &sig.e))),
    };
    let d = add(&mul(&b, &r1), &neg(&mul(pk.h0.as_ref(), &r2)));
    let r3 = r1.inverse().unwrap();
    let sp = fsub(&sig.s, &fmul(&r2, &r3));
    let b1 = vec![a_prime, *pk.h0.as_ref()];
    let mut s1 = vec![sig.e, r2];
    s1[0].negate();
    let mut b2 = vec![d, *pk.h0.as_ref()];
    let mut s2 = vec![r3, sp];
    s2[0].negate();
    for i in 0..m.len() {
        if !set.contains(&i) {
            b2.push(*pk.h[i].as_ref());
            s2.push(*m[i].as_ref());
        }
    }
    if cheat == Cheat::Second {
        let i = *g.pick(&set.iter().copied().collect::<Vec<_>>());
        let v = change(g, &m[i]);
        revealed.insert(i, v);
    }
    let k1: Vec<Fr> = b1.iter().map(|_| frx(g)).collect();
    let k2: Vec<Fr> = b2.iter().map(|_| frx(g)).collect();
    let mut t2 = combo(&b2, &k2);
    let beta = frx(g);
    if let Cheat::Late(i) = cheat {
        t2 = add(&t2, &mul(pk.h[i].as_ref(), &beta));
    }
    let mut p = Pok { a_prime, a_bar, d, p1: Pvc { t: combo(&b1, &k1), resp: vec![] }, p2: Pvc { t: t2, resp: vec![] } };
    if cheat == Cheat::Simulated {
        let c = frx(g);
        p.p1.resp = k1;
        p.p2.resp = k2;
        let y1 = add(&a_bar, &neg(&d));
        let mut y2 = G1::one();
        for (i, m) in &revealed {
            y2 = add(&y2, &mul(pk.h[*i].as_ref(), m.as_ref()));
        }
        p.p1.t = add(&combo(&b1, &p.p1.resp), &mul(&y1, &c));
        p.p2.t = add(&combo(&b2, &p.p2.resp), &neg(&mul(&y2, &c)));
        return (p, revealed);
    }
    let c = transcript(&p, asked, pk, nonce);
    p.p1.resp = k1.iter().zip(&s1).map(|(k, s)| fsub(k, &fmul(&c, s))).collect();
    p.p2.resp = k2.iter().zip(&s2).map(|(k, s)| fsub(k, &fmul(&c, s))).collect();
    if let Cheat::Late(i) = cheat {
        // -c m' = beta - c m
        let d = fmul(&beta, &c.inverse().unwrap());
        revealed.insert(i, SignatureMessage::from(fsub(m[i].as_ref(), &d)));
    }
    (p, revealed)
}
fn proof_messages(m: &[SignatureMessage], set: &BTreeSet<usize>, ext: &BTreeMap<usize, ProofNonce>) -> Vec<ProofMessage> {
    m.iter()
        .enumerate()
        .map(|(i, m)| {
            if set.contains(&i) {
                ProofMessage::Revealed(*m)
            } else if let Some(b) = ext.get(&i) {
                ProofMessage::Hidden(HiddenMessage::ExternalBlinding(*m, *b))
            } else {
                ProofMessage::Hidden(HiddenMessage::ProofSpecificBlinding(*m))
            }
        })
        .collect()
}
fn ship_proof(g: &mut G, p: &SignatureProof) -> Result<SignatureProof, Fail> {
    let p = ship(g, "SignatureProof", p)?;
    Ok(SignatureProof { proof: ship(g, "PoKOfSignatureProof", &p.proof)?, revealed_messages: p.revealed_messages })
}
fn to_vec(r: &BTreeMap<usize, SignatureMessage>) -> Vec<SignatureMessage> {
    r.values().copied().collect()
}

fn presentation(g: &mut G) -> R {
    let n = size(g);
    let k = keys(g, n)?;
    let m = (0..n).map(|_| msg(g)).collect::<Vec<_>>();
    let set = hidden(g, n);
    let non = nonce(g);
    g.show(format!("{} messages, revealed {:?}", n, set));
    if !set.is_empty() && set.len() < n {
        g.nontrivial();
    }
    let s = e("sign", Issuer::sign(&m, &k.sk, &k.pk))?;
    let mut idx: Vec<usize> = set.iter().copied().collect();
    g.shuffle(&mut idx);
    let req = e("new_proof_request", Verifier::new_proof_request(&idx, &k.pk))?;
    let req = ship(g, "ProofRequest", &req)?;
    ensure!(req.revealed_messages == set && req.verification_key == k.pk, "request", "the request is for {:?}", req.revealed_messages);
    let mut ext = BTreeMap::new();
    for i in 0..n {
        if g.chance(1, 4) {
            ext.insert(i, nonce(g));
        }
    }
    let pm = proof_messages(&m, &set, &ext);
    let pok = e("commit_signature_pok", Prover::commit_signature_pok(&req, &pm, &s))?;
    let c = e("create_challenge_hash", Prover::create_challenge_hash(&[pok.clone()], None, &non))?;
    let sp = e("generate_signature_pok", Prover::generate_signature_pok(pok.clone(), &c))?;
    ensure!(sp.revealed_messages == set.iter().map(|i| (*i, m[*i])).collect(), "revealed", "the presentation reveals {:?}", sp.revealed_messages.keys());
    let sp = ship_proof(g, &sp)?;
    let r = e("verify_signature_pok", Verifier::verify_signature_pok(&req, &sp, &non))?;
    ensure!(r == set.iter().map(|i| m[*i]).collect::<Vec<_>>(), "revealed", "other messages are revealed");
    let p = Pok::of(&sp.proof);
    ensure!(p.p2.resp.len() == 2 + n - set.len() && p.p1.resp.len() == 2, "responses", "{} and {} responses", p.p1.resp.len(), p.p2.resp.len());
    // hidden messages stay hidden; responses are at the hidden index
    for j in 0..=n - set.len() {
        let r = sp.proof.get_resp_for_message(j);
        match p.p2.resp.get(2 + j) {
            Some(x) => ensure!(r.map(|r| *r.as_ref() == *x).unwrap_or(false), "response", "the response of hidden message {}", j),
            None => ensure!(r.is_err(), "response", "there is a response of hidden message {} of {}", j, n - set.len()),
        }
    }
    // a request for another number of messages, other messages, another signature
    let bad = g.below(n);
    let mut m2 = m.clone();
    m2[bad] = change(g, &m[bad]);
    ensure!(Prover::commit_signature_pok(&req, &proof_messages(&m2, &set, &ext), &s).is_err(), "prover", "a presentation of messages that are not signed");
    ensure!(Prover::commit_signature_pok(&req, &pm[..n - 1], &s).is_err(), "prover", "a presentation of fewer messages");
    g.eval();
    // a prover of our own agrees
    let sig = Sig::of(&s);
    let (own, rev) = own_prover(g, &k, &sig, &m, &set, &set, &non, Cheat::No);
    let r = e("verify_signature_pok", Verifier::verify_signature_pok(&req, &present(&own, &rev)?, &non))?;
    ensure!(r == to_vec(&rev), "revealed", "other messages are revealed");
    let base = if g.bool() { own } else { p };
    // altered
    for _ in 0..4 {
        let (mut p, mut rev, mut req, mut non) = (base.clone(), sp.revealed_messages.clone(), req.clone(), non);
        let one = Fr::one();
        let what = match g.draw(17) {
            0 => {
                non = ProofNonce::from(fadd(non.as_ref(), &one));
                "nonce".to_string()
            }
            1 => {
                let i = g.below(n);
                if !req.revealed_messages.remove(&i) {
                    req.revealed_messages.insert(i);
                }
                format!("request: {} moved", i)
            }
            2 => {
                let i = g.below(n);
                if !req.revealed_messages.remove(&i) {
                    req.revealed_messages.insert(i);
                }
                if rev.remove(&i).is_none() {
                    rev.insert(i, m[i]);
                }
                format!("request and revealed: {} moved", i)
            }
            3 => {
                match g.draw(2) {
                    0 => {
                        let mut w = *k.pk.w.as_ref();
                        w.add_assign(&G2::one());
                        req.verification_key.w = GeneratorG2::from(w)
                    }
                    1 => req.verification_key.h0 = GeneratorG1::from(g1(g)),
                    _ => {
                        let i = g.below(n);
                        if set.contains(&i) && *m[i].as_ref() == Fr::zero() {
                            continue;
                        }
                        req.verification_key.h[i] = GeneratorG1::from(g1(g))
                    }
                }
                "key".into()
            }
            4 | 5 => {
                if rev.is_empty() {
                    continue;
                }
                let ks: Vec<usize> = rev.keys().copied().collect();
                let i = *g.pick(&ks);
                let v = change(g, &rev[&i]);
                rev.insert(i, v);
                format!("revealed message {}", i)
            }
            6 => {
                if rev.is_empty() {
                    continue;
                }
                let ks: Vec<usize> = rev.keys().copied().collect();
                let i = *g.pick(&ks);
                rev.remove(&i);
                format!("revealed {} dropped", i)
            }
            7 => {
                let i = g.below(n);
                if set.contains(&i) {
                    continue;
                }
                let v = if g.bool() { m[i] } else { msg(g) };
                rev.insert(i, v);
                format!("revealed {} more", i)
            }
            8 => {
                // at another index
                if rev.is_empty() || rev.len() == n {
                    continue;
                }
                let a = *g.pick(&rev.keys().copied().collect::<Vec<_>>());
                let b = *g.pick(&(0..n).filter(|i| !rev.contains_key(i)).collect::<Vec<_>>());
                let v = rev.remove(&a).unwrap();
                rev.insert(b, v);
                format!("revealed {} as {}", a, b)
            }
            9 => {
                let v = msg(g);
                rev.insert(n + g.draw(1) as usize, v);
                "out of range".into()
            }
            10 => {
                match g.draw(2) {
                    0 => p.a_prime = add(&p.a_prime, &G1::one()),
                    1 => p.a_bar = add(&p.a_bar, &G1::one()),
                    _ => p.d = add(&p.d, &G1::one()),
                }
                "A', Abar or d".into()
            }
            11 => {
                p.a_prime = G1::zero();
                if g.bool() {
                    p.a_bar = G1::zero();
                }
                "A' at infinity".into()
            }
            12 => {
                if g.bool() {
                    p.p1.t = add(&p.p1.t, &G1::one())
                } else {
                    p.p2.t = add(&p.p2.t, &G1::one())
                }
                "commitment".into()
            }
            13 => {
                let i = g.draw(1) as usize;
                p.p1.resp[i] = fadd(&p.p1.resp[i], &one);
                format!("response {} of the first", i)
            }
            14 => {
                let i = g.below(p.p2.resp.len());
                p.p2.resp[i] = fadd(&p.p2.resp[i], &one);
                format!("response {} of the second", i)
            }
            15 => {
                if g.bool() {
                    p.p2.resp.pop();
                } else {
                    p.p2.resp.push(Fr::zero())
                }
                "number of responses".into()
            }
            16 => {
                // randomized again: still not a fresh proof
                let f = frx(g);
                p.a_prime = mul(&p.a_prime, &f);
                p.a_bar = mul(&p.a_bar, &f);
                "rescaled".into()
            }
            _ => {
                p.p1.resp.swap(0, 1);
                "responses swapped".into()
            }
        };
        let sp = present(&p, &rev)?;
        let r = no_panic(|| Verifier::verify_signature_pok(&req, &sp, &non).is_err());
        ensure!(r == Ok(true), "accepted", "a presentation is accepted with another {}: {:?}", what, r);
        g.eval();
    }
    Ok(())
}

/// a prover who answers another question than the one asked, and provers without a signature
fn forged(g: &mut G) -> R {
    let n = size(g);
    let k = keys(g, n)?;
    let m = (0..n).map(|_| msg(g)).collect::<Vec<_>>();
    let set = hidden(g, n);
    let non = nonce(g);
    let s = e("sign", Issuer::sign(&m, &k.sk, &k.pk))?;
    let sig = Sig::of(&s);
    g.nontrivial();
    let which = g.draw(7);
    let (req, p, rev) = match which {
        7 => {
            // generators whose discrete logarithms the prover knows: the point at infinity takes
            // the place of a signature where it is not refused
            let mut pk = k.pk.clone();
            let y0 = loop {
                let x = frx(g);
                if x != Fr::zero() {
                    break x;
                }
            };
            pk.h0 = GeneratorG1::from(mul(&G1::one(), &y0));
            let mut sum = Fr::one();
            for i in 0..n {
                let y = frx(g);
                pk.h[i] = GeneratorG1::from(mul(&G1::one(), &y));
                sum = fadd(&sum, &fmul(&y, m[i].as_ref()));
            }
            sum.negate();
            let sig = Sig { a: G1::zero(), e: frx(g), s: fmul(&sum, &y0.inverse().unwrap()) };
            let k = Key { pk, sk: k.sk.clone(), x: k.x };
            g.show(format!("infinity as a signature, revealed {:?} of {}", set, n));
            if let Ok(s) = sig.to() {
                ensure!(!yes(s.verify(&m, &k.pk)), "infinity-accepted", "the point at infinity is accepted as a signature");
            }
            let (p, rev) = own_prover(g, &k, &sig, &m, &set, &set, &non, Cheat::No);
            (e("new_proof_request", Verifier::new_proof_request(&set.iter().copied().collect::<Vec<_>>(), &k.pk))?, p, rev)
        }
        0 | 1 => {
            // asked for another set
            let mut asked = set.clone();
            for i in g.subset(n) {
                if !asked.remove(&i) {
                    asked.insert(i);
                }
            }
            if asked == set {
                let i = g.below(n);
                if !asked.remove(&i) {
                    asked.insert(i);
                }
            }
            g.show(format!("asked for {:?} of {}, revealed {:?}", asked, n, set));
            let req = e("new_proof_request", Verifier::new_proof_request(&asked.iter().copied().collect::<Vec<_>>(), &k.pk))?;
            if which == 0 {
                let (p, rev) = own_prover(g, &k, &sig, &m, &set, &asked, &non, Cheat::No);
                (req, p, rev)
            } else {
                // with the library's own prover
                let pm = proof_messages(&m, &set, &BTreeMap::new());
                let pok = match Prover::commit_signature_pok(&req, &pm, &s) {
                    Ok(p) => p,
                    Err(_) => return Ok(()),
                };
                let draft = e("gen_proof", pok.clone().gen_proof(&ProofChallenge::from(Fr::one())))?;
                let mut v = draft.get_bytes_for_challenge(asked.clone(), &k.pk);
                v.extend(&non.to_bytes_uncompressed_form()[..]);
                let sp = e("generate_signature_pok", Prover::generate_signature_pok(pok, &ProofChallenge::hash(&v)))?;
                (req, Pok::of(&sp.proof), sp.revealed_messages)
            }
        }
        2 => {
            if set.is_empty() {
                return Ok(());
            }
            // known: the revealed messages are not part of the challenge
            let i = *g.pick(&set.iter().copied().collect::<Vec<_>>());
            let (p, rev) = own_prover(g, &k, &sig, &m, &set, &set, &non, Cheat::Late(i));
            let req = e("new_proof_request", Verifier::new_proof_request(&set.iter().copied().collect::<Vec<_>>(), &k.pk))?;
            if Verifier::verify_signature_pok(&req, &present(&p, &rev)?, &non).is_ok() {
                g.finding("revealed-after-challenge", format!("message {} of {} is presented as {} although {} was signed", i, n, rev[&i], m[i]))?;
            }
            g.eval();
            return Ok(());
        }
        _ => {
            let cheat = match which {
                3 => Cheat::Unsigned,
                4 => Cheat::First,
                5 if !set.is_empty() => Cheat::Second,
                _ => Cheat::Simulated,
            };
            g.show(format!("{:?}, revealed {:?} of {}", cheat, set, n));
            let sig = match cheat {
                Cheat::Unsigned => Sig { a: g1(g), e: frx(g), s: frx(g) },
                Cheat::First | Cheat::Simulated if g.bool() => Sig { a: g1(g), e: frx(g), s: frx(g) },
                Cheat::First => Sig { a: sig.a, e: fadd(&sig.e, &Fr::one()), s: sig.s },
                _ => sig,
            };
            let (p, rev) = own_prover(g, &k, &sig, &m, &set, &set, &non, cheat);
            (e("new_proof_request", Verifier::new_proof_request(&set.iter().copied().collect::<Vec<_>>(), &k.pk))?, p, rev)
        }
    };
    let r = Verifier::verify_signature_pok(&req, &present(&p, &rev)?, &non);
    ensure!(r.is_err(), "forged", "a presentation made without what it claims is accepted ({})", which);
    g.eval();
    Ok(())
}

/// several credentials presented together, with common hidden messages
fn linked(g: &mut G) -> R {
    let many = g.chance(1, 12);
    let count = if many { g.range(4, 9) } else { g.range(2, 3) };
    let non = nonce(g);
    let link = msg(g);
    let bl = nonce(g);
    let mut creds = vec![];
    for i in 0..count {
        let n = g.range(1, 5);
        let k = keys(g, n)?;
        let mut m = (0..n).map(|_| msg(g)).collect::<Vec<_>>();
        let at = g.below(n);
        m[at] = link;
        // the last one sometimes is another person's
        let other = i + 1 == count && g.bool();
        if other {
            m[at] = change(g, &link);
        }
        let mut set = hidden(g, n);
        set.remove(&at);
        let s = e("sign", Issuer::sign(&m, &k.sk, &k.pk))?;
        let req = e("new_proof_request", Verifier::new_proof_request(&set.iter().copied().collect::<Vec<_>>(), &k.pk))?;
        creds.push((k, m, at, set, s, req, other));
    }
    g.show(format!("{} credentials, other {}", count, creds[count - 1].6));
    g.nontrivial();
    let mut poks = vec![];
    for (_, m, at, set, s, req, _) in &creds {
        let ext = Some((*at, bl)).into_iter().collect();
        poks.push(e("commit_signature_pok", Prover::commit_signature_pok(req, &proof_messages(m, set, &ext), s))?);
    }
    let claims: Vec<Vec<u8>> = if many { g.vec(0, 12, |g| g.big(0, 5000)) } else { g.vec(0, 2, |g| g.bytes(0, 20)) };
    let cl: Vec<&[u8]> = claims.iter().map(|c| &c[..]).collect();
    let opt = if g.bool() { Some(&cl[..]) } else { None };
    let c = e("create_challenge_hash", Prover::create_challenge_hash(&poks, opt, &non))?;
    let mut proofs = vec![];
    for p in poks {
        let p = e("generate_signature_pok", Prover::generate_signature_pok(p, &c))?;
        proofs.push(ship_proof(g, &p)?);
    }
    let reqs: Vec<ProofRequest> = creds.iter().map(|c| c.5.clone()).collect();
    let c2 = e("create_challenge_hash", Verifier::create_challenge_hash(&proofs, &reqs, &non, opt))?;
    ensure!(c == c2, "challenge", "prover and verifier compute different challenges");
    let mut resp = vec![];
    for (p, cr) in proofs.iter().zip(&creds) {
        let st = e("verify", p.proof.verify(&cr.0.pk, &p.revealed_messages, &c2))?;
        ensure!(st.is_valid(), "rejected", "a joint presentation is rejected: {}", st);
        let j = (0..cr.2).filter(|i| !cr.3.contains(i)).count();
        resp.push((e("get_resp_for_message", p.proof.get_resp_for_message(j))?, cr.6));
        let wrong = ProofChallenge::from(fadd(c2.as_ref(), &Fr::one()));
        ensure!(!p.proof.verify(&cr.0.pk, &p.revealed_messages, &wrong).map(|s| s.is_valid()).unwrap_or(false), "accepted", "verifies with another challenge");
        g.eval();
    }
    for (r, other) in &resp[1..] {
        ensure!((*r == resp[0].0) != *other, "linking", "responses are equal: {}, though the messages are: {}", *r == resp[0].0, !*other);
    }
    // the challenge depends on everything
    let n2 = ProofNonce::from(fadd(non.as_ref(), &Fr::one()));
    ensure!(e("create_challenge_hash", Verifier::create_challenge_hash(&proofs, &reqs, &n2, opt))? != c, "challenge", "the challenge does not depend on the nonce");
    let mut cl2 = cl.clone();
    cl2.push(b"x");
    ensure!(e("create_challenge_hash", Verifier::create_challenge_hash(&proofs, &reqs, &non, Some(&cl2)))? != c, "challenge", "the challenge does not depend on the claims");
    ensure!(e("create_challenge_hash", Verifier::create_challenge_hash(&proofs[1..], &reqs[1..], &non, opt))? != c, "challenge", "the challenge does not depend on the proofs");
    Ok(())
}
fn requests(g: &mut G) -> R {
    let n = size(g);
    let k = keys(g, n)?;
    let mut idx = g.subset(n);
    if !idx.is_empty() && g.bool() {
        let i = *g.pick(&idx);
        idx.push(i)
    }
    let out = g.chance(1, 2);
    if out {
        idx.push(n + g.draw(9) as usize);
        g.nontrivial();
    }
    g.shuffle(&mut idx);
    g.show(format!("{:?} of {}", idx, n));
    let r = Verifier::new_proof_request(&idx, &k.pk);
    ensure!(r.is_ok() != out, "index", "a request for {:?} of {} messages is {}", idx, n, if out { "accepted" } else { "refused" });
    if let Ok(r) = r {
        ship(g, "ProofRequest", &r)?;
    }
    g.eval();
    Ok(())
}

// ---------------------------------------------------------------- Z03
/// bytes related to an encoding, or not
pub fn mangle(g: &mut G, v: &[u8], marks: &[usize]) -> Vec<u8> {
    let mut v = v.to_vec();
    for _ in 0..1 + g.draw(1) {
        match g.draw(7) {
            0 => {
                let k = g.draw(v.len() as u64) as usize;
                v.truncate(k)
            }
            1 => v.extend(g.bytes(1, 100)),
            2 if !v.is_empty() => {
                let i = g.below(v.len());
                v[i] ^= 1 << g.draw(7);
            }
            3 if !v.is_empty() => {
                let i = g.below(v.len());
                let k = g.range(1, 100).min(v.len() - i);
                let x = if g.bool() { 0 } else { 255 };
                for y in &mut v[i..i + k] {
                    *y = x
                }
            }
            4 => {
                // a four byte count
                if let Some(&i) = marks.get(g.below(marks.len().max(1))) {
                    if i + 4 <= v.len() {
                        let old = u32::from_be_bytes([v[i], v[i + 1], v[i + 2], v[i + 3]]);
                        let x = match g.draw(5) {
                            0 => 0,
                            1 => old.wrapping_add(1),
                            2 => old.wrapping_sub(1),
                            3 => u32::MAX,
                            4 => 1 << 27,
                            _ => g.draw(400) as u32,
                        };
                        v[i..i + 4].copy_from_slice(&x.to_be_bytes())
                    }
                }
            }
            5 => v = g.bytes(0, 500),
            6 if !v.is_empty() => {
                let i = g.below(v.len());
                let k = g.range(1, 48).min(v.len() - i);
                let b = g.bytes_n(k);
                v[i..i + k].copy_from_slice(&b)
            }
            _ => {
                let i = g.draw(v.len() as u64) as usize;
                if g.bool() {
                    let b = g.bytes(1, 40);
                    let t = v.split_off(i);
                    v.extend(b);
                    v.extend(t)
                } else {
                    let k = g.range(0, 48).min(v.len() - i);
                    v.drain(i..i + k);
                }
            }
        }
    }
    v
}
/// decode: an error, or exactly these bytes again
pub fn decode<T, X>(g: &mut G, what: &str, v: &[u8], f: impl FnOnce(&[u8]) -> Result<T, X>, back: impl FnOnce(&T) -> Vec<u8>) -> R {
    g.eval();
    match no_panic(|| f(v).map(|t| back(&t)).map_err(|_| ())) {
        Err(m) => fail("panic", format!("decoding {} from {} bytes {} panics: {}", what, v.len(), hex(v), m)),
        Ok(Ok(b)) if b != v => fail("invented", format!("decoding {} from {} gives {}", what, hex(v), hex(&b))),
        Ok(r) => {
            g.label(format!("{} {}", what, if r.is_ok() { "decoded" } else { "refused" }));
            Ok(())
        }
    }
}
fn var<T: ToVariableLengthBytes<Output = T>>(g: &mut G, what: &str, v: &T, marks: [Vec<usize>; 2]) -> R {
    if g.bool() {
        let b = mangle(g, &v.to_bytes_compressed_form(), &marks[0]);
        decode(g, what, &b, |b| T::from_bytes_compressed_form(b), |t| t.to_bytes_compressed_form())
    } else {
        let b = mangle(g, &v.to_bytes_uncompressed_form(), &marks[1]);
        decode(g, what, &b, |b| T::from_bytes_uncompressed_form(b), |t| t.to_bytes_uncompressed_form())
    }
}
macro_rules! fixed {
    ($g:ident, $t:ident, $v:expr) => {{
        let v = $v;
        let b = if $g.bool() { v.to_bytes_compressed_form().to_vec() } else { v.to_bytes_uncompressed_form().to_vec() };
        let b = mangle($g, &b, &[]);
        decode($g, stringify!($t), &b, |b| $t::try_from(b), |t| {
            if t.to_bytes_compressed_form().len() == b.len() {
                t.to_bytes_compressed_form().to_vec()
            } else {
                t.to_bytes_uncompressed_form().to_vec()
            }
        })?;
        // and through serde
        let j = serde_json::to_value(&v).unwrap();
        ensure!(no_panic(|| serde_json::from_value::<$t>(j.clone()).map(|x| x == v).unwrap_or(false)) == Ok(true), "serde", "{} does not survive JSON", stringify!($t));
        let j = if $g.bool() { serde_json::to_value(&b).unwrap() } else { serde_json::json!(["x", -1, 256, null]) };
        if let Ok(Ok(t)) = no_panic(|| serde_json::from_value::<$t>(j.clone())) {
            ensure!(t.to_bytes_compressed_form()[..] == b[..] || t.to_bytes_uncompressed_form()[..] == b[..], "invented", "{} from {}", stringify!($t), j)
        } else {
            ensure!(no_panic(|| serde_json::from_value::<$t>(j.clone()).is_err()).is_ok(), "panic", "{} from {}", stringify!($t), j)
        }
    }};
}
fn decoders(g: &mut G) -> R {
    g.nontrivial();
    let n = g.range(1, 4);
    let (d, sk) = e("new_short_keys", Issuer::new_short_keys(Some(KeyGenOption::UseSeed(vec![7, 7]))))?;
    let pk = e("to_public_key", d.to_public_key(n))?;
    match g.draw(13) {
        0 => fixed!(g, SecretKey, sk.clone()),
        1 => fixed!(g, DeterministicPublicKey, d),
        2 => fixed!(g, Commitment, Commitment::from(g1(g))),
        3 => fixed!(g, GeneratorG1, GeneratorG1::from(if g.chance(1, 4) { G1::zero() } else { g1(g) })),
        4 => fixed!(g, GeneratorG2, GeneratorG2::from(*pk.w.as_ref())),
        5 => fixed!(g, SignatureMessage, msg(g)),
        6 => match g.draw(2) {
            0 => fixed!(g, ProofNonce, nonce(g)),
            1 => fixed!(g, ProofChallenge, ProofChallenge::from(fr(g))),
            _ => fixed!(g, SignatureBlinding, SignatureBlinding::from(fr(g))),
        },
        7 => var(g, "PublicKey", &pk, [vec![144], vec![288]])?,
        8 | 9 => {
            let m = (0..n).map(|_| msg(g)).collect::<Vec<_>>();
            let s = e("sign", Issuer::sign(&m, &sk, &pk))?;
            if g.bool() {
                fixed!(g, Signature, s)
            } else {
                fixed!(g, BlindSignature, BlindSignature::try_from(&s.to_bytes_compressed_form()[..]).unwrap())
            }
        }
        10 => {
            let set: BTreeSet<usize> = g.subset(n).into_iter().collect();
            let req = e("new_proof_request", Verifier::new_proof_request(&set.iter().copied().collect::<Vec<_>>(), &pk))?;
            let l = n / 8 + 1;
            var(g, "ProofRequest", &req, [vec![0, 4 + l + 144], vec![0, 4 + l + 288]])?
        }
        11 => {
            let hm = g.subset(n).into_iter().map(|i| (i, msg(g))).collect();
            let non = nonce(g);
            let (ctx, _) = e("new_blind_signature_context", Prover::new_blind_signature_context(&pk, &hm, &non))?;
            if g.bool() {
                var(g, "BlindSignatureContext", &ctx, [vec![128], vec![224]])?
            } else {
                var(g, "ProofG1", &ctx.proof_of_hidden_messages, [vec![48], vec![96]])?
            }
        }
        _ => {
            let m = (0..n).map(|_| msg(g)).collect::<Vec<_>>();
            let set: BTreeSet<usize> = g.subset(n).into_iter().collect();
            let s = e("sign", Issuer::sign(&m, &sk, &pk))?;
            let req = e("new_proof_request", Verifier::new_proof_request(&set.iter().copied().collect::<Vec<_>>(), &pk))?;
            let pok = e("commit", Prover::commit_signature_pok(&req, &proof_messages(&m, &set, &BTreeMap::new()), &s))?;
            let sp = e("generate", Prover::generate_signature_pok(pok, &ProofChallenge::from(fr(g))))?;
            let h = n - set.len();
            if g.bool() {
                var(g, "PoKOfSignatureProof", &sp.proof, [vec![144, 196, 148 + 116 + 48], vec![288, 292 + 96, 292 + 164 + 96]])?;
                // and what is decoded can be used
                let b = mangle(g, &sp.proof.to_bytes_compressed_form(), &[144, 196, 148 + 116 + 48]);
                if let Ok(p) = PoKOfSignatureProof::from_bytes_compressed_form(&b) {
                    let r = no_panic(|| {
                        let _ = p.get_resp_for_message(0);
                        let _ = p.verify(&pk, &sp.revealed_messages, &ProofChallenge::from(Fr::one()));
                    });
                    ensure!(r.is_ok(), "panic", "using a decoded proof panics: {:?}", r)
                }
            } else {
                let l = sp.proof.to_bytes_compressed_form().len();
                let l2 = sp.proof.to_bytes_uncompressed_form().len();
                let _ = h;
                var(g, "SignatureProof", &sp, [vec![0, 4 + l, 148, 200], vec![0, 4 + l2, 292]])?
            }
        }
    }
    Ok(())
}

/// Z04 for bbs: proofs of knowledge of a vector commitment
fn vector(g: &mut G) -> R {
    use bbs::pok_vc::prelude::*;
    let n = if g.chance(1, 60) {
        g.range(256, 300)
    } else if g.chance(1, 12) {
        g.range(7, 16)
    } else {
        g.below(6)
    };
    if n > 1 {
        g.nontrivial();
    }
    let mut bases: Vec<G1> = (0..n).map(|_| g1(g)).collect();
    if n > 1 && g.chance(1, 8) {
        bases[n - 1] = bases[0];
    }
    let secrets: Vec<Fr> = (0..n).map(|_| fr(g)).collect();
    let mut c = ProverCommittingG1::new();
    let mut blind = vec![];
    for i in 0..n {
        let b = GeneratorG1::from(bases[i]);
        let fixed = if g.bool() { Some(fr(g)) } else { None };
        let j = match &fixed {
            Some(f) => c.commit_with(&b, SignatureMessage::from(*f)),
            None => c.commit(&b),
        };
        ensure!(j == i, "index", "the {}th commit returns {}", i, j);
        let (b2, r) = e("get_index", c.get_index(i))?;
        let r = *r.as_ref();
        ensure!(*b2.as_ref() == bases[i] && fixed.map_or(true, |f| f == r), "get_index", "another base or blinding");
        ensure!(fixed.is_some() || (!r.is_zero() && !blind.contains(&r)), "blindings", "two random blindings are equal");
        blind.push(r);
    }
    ensure!(c.get_index(n).is_err() && c.get_index(n + 1 + g.below(4)).is_err(), "get_index", "there is an element after the last");
    let dot = |b: &[G1], s: &[Fr]| b.iter().zip(s).fold(G1::zero(), |a, (b, s)| add(&a, &mul(b, s)));
    let com = dot(&bases, &secrets);
    let t = dot(&bases, &blind);
    let c = c.finish();
    let bytes = |b: &[G1], t: &G1| {
        let mut v = vec![];
        b.iter().for_each(|b| v.extend(ser(b, false)));
        v.extend(ser(t, false));
        v
    };
    ensure!(c.to_bytes() == bytes(&bases, &t), "commitment", "the bytes are not those of bases and random commitment");
    let nonce = g.bytes(0, 40);
    let extra = [ser(&com, false), nonce.clone()].concat();
    let own = c.gen_challenge(&extra);
    ensure!(own == ProofChallenge::hash([bytes(&bases, &t), extra].concat()), "challenge", "the challenge is not the hash of bases, commitment and the rest");
    let chal = if g.chance(1, 3) { ProofChallenge::from(fr(g)) } else { own };
    let bad = g.below(n + 3);
    if bad != n {
        let w: Vec<_> = (0..bad).map(|_| msg(g)).collect();
        ensure!(c.clone().gen_proof(&chal, &w).is_err(), "count", "{} secrets for {} bases are accepted", bad, n);
    }
    let p = e("gen_proof", c.gen_proof(&chal, &secrets.iter().map(|s| SignatureMessage::from(*s)).collect::<Vec<_>>()))?;
    let p = ship(g, "ProofG1", &p)?;
    let mut b = p.to_bytes_compressed_form();
    let mut want = ser(&t, true);
    want.extend(&(n as u32).to_be_bytes());
    let mut resp: Vec<Fr> = (0..n).map(|i| fsub(&blind[i], &fmul(chal.as_ref(), &secrets[i]))).collect();
    resp.iter().for_each(|r| want.extend(ser(r, true)));
    ensure!(b == want, "responses", "the proof is not commitment and blinding - challenge * secret");
    let gens = |b: &[G1]| b.iter().map(|b| GeneratorG1::from(*b)).collect::<Vec<_>>();
    ensure!(e("verify", p.verify(&gens(&bases), &Commitment::from(com), &chal))?, "rejected", "an honest proof is rejected");
    let v = e("verify", p.verify_complete_proof(&gens(&bases), &Commitment::from(com), &chal, &nonce))?;
    ensure!(v == (chal == own), "complete", "verify_complete_proof gives {}", v);
    // changes, some of which keep the equation
    let (mut bases2, mut com2, mut chal2, mut nonce2, mut t2) = (bases.clone(), com, chal, nonce.clone(), t);
    let mut what = vec![];
    for _ in 0..1 + g.below(2) {
        let n = bases2.len().min(resp.len());
        let i = if n == 0 { 0 } else { g.below(n) };
        what.push(match g.draw(9) {
            0 => {
                t2 = g1(g);
                "random commitment"
            }
            1 => {
                com2 = g1(g);
                "commitment"
            }
            2 => {
                chal2 = ProofChallenge::from(fr(g));
                "challenge"
            }
            3 if n > 0 => {
                bases2[i] = g1(g);
                "base"
            }
            4 if n > 0 => {
                resp[i] = fr(g);
                "response"
            }
            5 if n > 0 => {
                let j = g.below(n);
                bases2.swap(i, j);
                "bases swapped"
            }
            6 if n > 0 => {
                let d = fr(g);
                resp[i] = fadd(&resp[i], &d);
                t2 = add(&t2, &mul(&bases2[i], &d));
                "response and random commitment"
            }
            7 => {
                if g.bool() {
                    bases2.pop();
                } else {
                    bases2.push(g1(g));
                }
                "number of bases"
            }
            8 => {
                nonce2.push(0);
                "nonce"
            }
            _ => {
                chal2 = ProofChallenge::from(fr(g));
                resp = bases2.iter().map(|_| fr(g)).collect();
                t2 = add(&dot(&bases2, &resp), &mul(&com2, chal2.as_ref()));
                "simulated"
            }
        });
    }
    let what = what.join(", ");
    g.label(what.clone());
    b = ser(&t2, true);
    b.extend(&(resp.len() as u32).to_be_bytes());
    resp.iter().for_each(|r| b.extend(ser(r, true)));
    let p = e("from_bytes", ProofG1::from_bytes_compressed_form(&b))?;
    let eq = add(&dot(&bases2, &resp), &mul(&com2, chal2.as_ref()));
    let want = if bases2.len() == resp.len() { Some(eq == t2) } else { None };
    let got = p.verify(&gens(&bases2), &Commitment::from(com2), &chal2).ok();
    ensure!(got == want, "altered", "after a change ({}) verify gives {:?} instead of {:?}", what, got, want);
    let con = p.get_challenge_contribution(&gens(&bases2), &Commitment::from(com2), &chal2).ok().map(|c| *c.as_ref());
    ensure!(con == want.map(|_| eq), "contribution", "get_challenge_contribution gives another point");
    let h = ProofChallenge::hash([bytes(&bases2, &t2), ser(&com2, false), nonce2.clone()].concat());
    let want = want.map(|w| w && h == chal2);
    let got = p.verify_complete_proof(&gens(&bases2), &Commitment::from(com2), &chal2, &nonce2).ok();
    ensure!(got == want, "altered-complete", "after a change ({}) verify_complete_proof gives {:?} instead of {:?}", what, got, want);
    Ok(())
}
pub fn vector_sub() -> Sub {
    sub("bbs", 260, 8000, 60, vector)
}

/// Z12: two requests for, two signatures on and two presentations of the same messages
pub fn fresh(g: &mut G) -> R {
    use crate::fresh::distinct;
    let n = size(g);
    let k = keys(g, n)?;
    let m = (0..n).map(|_| msg(g)).collect::<Vec<_>>();
    let (set, non) = (hidden(g, n), nonce(g));
    g.show(format!("{} messages, revealed {:?}", n, set));
    if set.len() < n {
        g.nontrivial();
    }
    let h0 = *k.pk.h0.as_ref();
    // requests
    let hm: BTreeMap<usize, SignatureMessage> = (0..n).filter(|i| !set.contains(i)).map(|i| (i, m[i])).collect();
    let (mut pts, mut scalars) = (vec![], vec![]);
    for t in 0..2 {
        let (ctx, bf) = e("new_blind_signature_context", Prover::new_blind_signature_context(&k.pk, &hm, &non))?;
        let c = Ctx::of(&ctx);
        pts.push((format!("the commitment of request {}", t), c.commitment));
        pts.push((format!("the blinded commitment of request {}", t), c.t));
        scalars.push((format!("the blinding factor of request {}", t), *bf.as_ref()));
        let secrets: Vec<Fr> = std::iter::once(*bf.as_ref()).chain(hm.values().map(|m| *m.as_ref())).collect();
        ensure!(c.resp.len() == secrets.len(), "responses", "{} responses", c.resp.len());
        for (i, (r, s)) in c.resp.iter().zip(&secrets).enumerate() {
            scalars.push((format!("blinding {} of request {}", i, t), fadd(r, &fmul(&c.challenge, s))));
        }
    }
    scalars.push(("zero".into(), Fr::zero()));
    // signatures
    let mut sig = None;
    for t in 0..2 {
        let s = e("sign", Issuer::sign(&m, &k.sk, &k.pk))?;
        let x = Sig::of(&s);
        pts.push((format!("signature {}", t), x.a));
        scalars.push((format!("e of signature {}", t), x.e));
        scalars.push((format!("s of signature {}", t), x.s));
        sig = Some(s);
    }
    let sig = sig.unwrap();
    let s = Sig::of(&sig);
    // presentations
    let idx: Vec<usize> = set.iter().copied().collect();
    let req = e("new_proof_request", Verifier::new_proof_request(&idx, &k.pk))?;
    let pm = proof_messages(&m, &set, &BTreeMap::new());
    let mut responses = vec![("zero".to_string(), Fr::zero())];
    let mut r2s = vec![("nothing".to_string(), G1::zero())];
    for t in 0..2 {
        let pok = e("commit_signature_pok", Prover::commit_signature_pok(&req, &pm, &sig))?;
        let c = e("create_challenge_hash", Prover::create_challenge_hash(&[pok.clone()], None, &non))?;
        let sp = e("generate_signature_pok", Prover::generate_signature_pok(pok, &c))?;
        let (p, c) = (Pok::of(&sp.proof), *c.as_ref());
        for (w, x) in [("A'", p.a_prime), ("A bar", p.a_bar), ("d", p.d), ("the first commitment", p.p1.t), ("the second commitment", p.p2.t)].iter() {
            pts.push((format!("{} of presentation {}", w, t), *x));
        }
        // the secrets a verifier might guess: e, s and the messages
        let ke = fsub(&p.p1.resp[0], &fmul(&c, &s.e));
        scalars.push((format!("the blinding of e in presentation {}", t), ke));
        for (j, i) in hm.keys().enumerate() {
            scalars.push((format!("the blinding of message {} in presentation {}", i, t), fadd(&p.p2.resp[2 + j], &fmul(&c, m[*i].as_ref()))));
        }
        for (i, r) in p.p1.resp.iter().chain(&p.p2.resp).enumerate() {
            responses.push((format!("response {} of presentation {}", i, t), *r));
        }
        // h0^r2 = A bar A'^e / d; the blinding of r2
        r2s.push((format!("r2 of presentation {}", t), add(&add(&p.a_bar, &mul(&p.a_prime, &s.e)), &neg(&p.d))));
        r2s.push((format!("the blinding of r2 in presentation {}", t), add(&p.p1.t, &neg(&mul(&p.a_prime, &ke)))));
        ensure!(r2s.iter().all(|x| x.1 != h0), "trivial", "r2 is one");
    }
    distinct("points", &pts)?;
    crate::fresh::unrelated("points", &r2s, &|a, b| add(a, b), &|a| neg(a), &[h0])?;
    let one = Fr::one();
    let unrelated = |v: &[(String, Fr)]| crate::fresh::unrelated("numbers", v, &|a, b| fadd(a, b), &|a| fsub(&Fr::zero(), a), &[one]);
    unrelated(&scalars)?;
    distinct("responses", &responses)?;
    let mut all = vec![];
    for t in 0..2 {
        all.push((format!("nonce {}", 2 * t), *Issuer::generate_signing_nonce().as_ref()));
        all.push((format!("nonce {}", 2 * t + 1), *Verifier::generate_proof_nonce().as_ref()));
        all.push((format!("link secret {}", t), *Prover::new_link_secret().as_ref()));
        if t == 0 || g.chance(1, 4) {
            let (pk, sk) = e("new_keys", Issuer::new_keys(1))?;
            all.push((format!("key {}", t), fr_of(&sk.to_bytes_compressed_form())));
            pts.push((format!("generator {}", t), *pk.h0.as_ref()));
            pts.push((format!("second generator {}", t), *pk.h[0].as_ref()));
        }
        let (_, sk) = e("new_short_keys", Issuer::new_short_keys(None))?;
        all.push((format!("short key {}", t), fr_of(&sk.to_bytes_compressed_form())));
    }
    unrelated(&all)?;
    distinct("points", &pts)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "Z01",
            rule: "direct: any key and messages; blind: at least one hidden message; keys: any seed",
            assumptions: vec!["the signature equation is evaluated with the secret key by the pairing_plus crate"],
            subs: vec![sub("direct", 260, 6000, 40, direct), sub("blind", 260, 6000, 40, blind), sub("keys", 200, 4000, 40, keygen), sub("large-direct", 3, 60, 4, |g| large(g, direct)), sub("large-blind", 2, 60, 4, |g| large(g, blind)), sub("large-keys", 6, 60, 4, |g| large(g, keygen))],
        },
        Prop {
            id: "Z02",
            rule: "presentation: something is revealed and something hidden; forged: any attempt; linked: two or more credentials; requests: an index out of range",
            assumptions: vec!["forgeries are those of a prover of our own that breaks one equation at a time"],
            subs: vec![sub("presentation", 260, 6000, 40, presentation), sub("forged", 420, 8000, 40, forged), sub("linked", 150, 3000, 40, linked), sub("requests", 150, 3000, 40, requests), sub("large-presentation", 3, 60, 4, |g| large(g, presentation)), sub("large-forged", 3, 60, 4, |g| large(g, forged))],
        },
        Prop {
            id: "Z03",
            rule: "every case decodes altered or arbitrary bytes",
            assumptions: vec![],
            subs: vec![sub("decoders", 6000, 200000, 200, decoders)],
        },
    ]
}
