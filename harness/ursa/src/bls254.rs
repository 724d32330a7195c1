//! B02: BLS signatures over BN254
use crate::bnc::*;
use crate::pairs::{base2, number};
use openssl::sha::sha256;
use pbt::*;
use ursa::bls::*;
use ursa::pair::{GroupOrderElement, PointG1, PointG2};

fn e<T, X: std::fmt::Debug>(what: &str, r: Result<T, X>) -> Result<T, Fail> {
    r.map_err(|x| Fail { sig: format!("error-{}", what), msg: format!("{} failed: {:?}", what, x) })
}
fn keccak256(m: &[u8]) -> [u8; 32] {
    // the permutation as FIPS 202 has it, with the padding of the original Keccak
    let mut a = [[0u64; 5]; 5];
    let mut v = m.to_vec();
    v.push(1);
    while v.len() % 136 != 0 {
        v.push(0)
    }
    *v.last_mut().unwrap() |= 0x80;
    let rc = {
        let mut rc = [0u64; 24];
        let mut l = 1u8;
        for r in rc.iter_mut() {
            for j in 0..7 {
                if l & 1 == 1 {
                    *r |= 1 << ((1u32 << j) - 1);
                }
                l = if l & 0x80 != 0 { (l << 1) ^ 0x71 } else { l << 1 };
            }
        }
        rc
    };
    for block in v.chunks(136) {
        for (i, w) in block.chunks(8).enumerate() {
            let mut t = [0u8; 8];
            t.copy_from_slice(w);
            a[i % 5][i / 5] ^= u64::from_le_bytes(t);
        }
        for r in 0..24 {
            let c: Vec<u64> = (0..5).map(|x| a[x].iter().fold(0, |s, y| s ^ y)).collect();
            for x in 0..5 {
                for y in 0..5 {
                    a[x][y] ^= c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
                }
            }
            let (mut x, mut y) = (1, 0);
            let mut cur = a[x][y];
            for t in 0..24u32 {
                let (nx, ny) = (y, (2 * x + 3 * y) % 5);
                x = nx;
                y = ny;
                let z = a[x][y];
                a[x][y] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
                cur = z;
            }
            for y in 0..5 {
                let row: Vec<u64> = (0..5).map(|x| a[x][y]).collect();
                for x in 0..5 {
                    a[x][y] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
                }
            }
            a[0][0] ^= rc[r];
        }
    }
    let mut o = [0; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&a[i][0].to_le_bytes());
    }
    o
}

struct Signer {
    sk: SignKey,
    n: B,
    vk: VerKey,
}
fn clone_sk(s: &SignKey) -> SignKey {
    SignKey::from_bytes(s.as_bytes()).unwrap()
}
macro_rules! ship {
    ($g:expr, $T:ty, $x:expr) => {{
        let x: $T = $x;
        match $g.draw(2) {
            0 => x,
            1 => {
                let y = e(concat!(stringify!($T), "::from_bytes"), <$T>::from_bytes(x.as_bytes()))?;
                ensure!(y.as_bytes() == x.as_bytes(), "roundtrip", "the bytes of a {} changed", stringify!($T));
                y
            }
            _ => {
                let y: $T = e(concat!(stringify!($T), " from JSON"), serde_json::from_str(&serde_json::to_string(&x).unwrap()))?;
                ensure!(y.as_bytes() == x.as_bytes(), "roundtrip", "the bytes of a {} changed", stringify!($T));
                y
            }
        }
    }};
}
fn generator(g: &mut G) -> Result<(Generator, Pt<(B, B)>), Fail> {
    let r = if g.bool() {
        e("Generator::new", Generator::new())?
    } else {
        let k = number(g) % (&*N - b(1)) + b(1);
        e("Generator::from_bytes", Generator::from_bytes(&enc2(&base2().times(&k))))?
    };
    let r = ship!(g, Generator, r);
    let m = dec2(r.as_bytes());
    ensure!(m.is_some(), "generator", "a generator is not on the curve");
    Ok((r, m.unwrap()))
}
fn signer(g: &mut G, gen: &(Generator, Pt<(B, B)>)) -> Result<Signer, Fail> {
    let sk = match g.draw(3) {
        0 => e("SignKey::new", SignKey::new(None))?,
        1 => e("SignKey::new", SignKey::new(Some(&g.bytes_n(32))))?,
        2 => e("SignKey::from_bytes", SignKey::from_bytes(&be32(&(b(1) + b(g.draw(5))))))?,
        _ => {
            let k = number(g) % (&*N - b(1)) + b(1);
            e("SignKey::from_bytes", SignKey::from_bytes(&be32(&k)))?
        }
    };
    let sk = ship!(g, SignKey, sk);
    let n = B::from_bytes_be(sk.as_bytes());
    ensure!(n < *N && n != b(0), "key", "the secret key {:x} is not a scalar", n);
    let vk = ship!(g, VerKey, e("VerKey::new", VerKey::new(&gen.0, &sk))?);
    ensure!(vk.as_bytes() == &enc2(&gen.1.times(&n))[..], "verkey-value", "the verification key of {:x} is not the generator times the key", n);
    Ok(Signer { sk, n, vk })
}
fn message(g: &mut G) -> Vec<u8> {
    if g.chance(1, 60) {
        return g.big(200, 70000);
    }
    match g.draw(3) {
        0 => vec![],
        1 => g.bytes(1, 3),
        2 => vec![0; g.range(1, 70)],
        _ => g.bytes(0, 150),
    }
}
fn other(g: &mut G, m: &[u8]) -> Vec<u8> {
    let mut o = m.to_vec();
    match g.draw(3) {
        0 if !o.is_empty() => {
            o.pop();
        }
        1 => o.insert(0, 0),
        2 if !o.is_empty() => {
            let i = g.below(o.len());
            o[i] ^= 1 << g.draw(7);
        }
        _ => o.push(g.draw(255) as u8),
    }
    o
}
/// another G1 point in place of the given one
fn bump(g: &mut G, v: &[u8]) -> Vec<u8> {
    let p = PointG1::from_bytes(v).unwrap();
    let base = PointG1::from_bytes(&enc1(&G1)).unwrap();
    let q = match g.draw(3) {
        0 => p.add(&base).unwrap(),
        1 => p.neg().unwrap(),
        2 => p.add(&p).unwrap(),
        _ => PointG1::new_inf().unwrap(),
    };
    q.to_bytes().unwrap()
}

fn single(g: &mut G) -> R {
    let gen = generator(g)?;
    let s = signer(g, &gen)?;
    let m = message(g);
    g.show(format!("key {:x}, message {}", s.n, hex(&m)));
    let sig = ship!(g, Signature, e("sign", Bls::sign(&m, &s.sk))?);
    ensure!(sig.as_bytes() == &enc1(&hash_to_g1(&sha256(&m)).times(&s.n))[..], "signature-value", "the signature is not the hash times the key");
    ensure!(e("verify", Bls::verify(&sig, &m, &s.vk, &gen.0))?, "honest-rejected", "a signature does not verify");
    g.eval();
    g.nontrivial();
    let no = |w: &str, r: Result<bool, _>| -> R {
        let r: Result<bool, ursa::errors::UrsaCryptoError> = r;
        ensure!(!e("verify", r)?, "forgery-accepted", "verifies {}", w);
        Ok(())
    };
    let o = other(g, &m);
    no("for another message", Bls::verify(&sig, &o, &s.vk, &gen.0))?;
    let t = signer(g, &gen)?;
    if t.n != s.n {
        no("under another key", Bls::verify(&sig, &m, &t.vk, &gen.0))?;
    }
    let gen2 = generator(g)?;
    if gen2.0.as_bytes() != gen.0.as_bytes() {
        no("with another generator", Bls::verify(&sig, &m, &s.vk, &gen2.0))?;
    }
    let bad = Signature::from_bytes(&bump(g, sig.as_bytes())).unwrap();
    no("after it was changed", Bls::verify(&bad, &m, &s.vk, &gen.0))?;
    g.eval();
    // possession
    let pop = ship!(g, ProofOfPossession, e("ProofOfPossession::new", ProofOfPossession::new(&s.vk, &s.sk))?);
    ensure!(pop.as_bytes() == &enc1(&hash_to_g1(&keccak256(s.vk.as_bytes())).times(&s.n))[..], "pop-value", "the proof of possession is not the hash of the key times the key");
    ensure!(e("verify_proof_of_posession", Bls::verify_proof_of_posession(&pop, &s.vk, &gen.0))?, "honest-rejected", "a proof of possession does not verify");
    if t.n != s.n {
        no("the possession of another key", Bls::verify_proof_of_posession(&pop, &t.vk, &gen.0))?;
        let cross = e("ProofOfPossession::new", ProofOfPossession::new(&s.vk, &t.sk))?;
        no("the possession by the holder of another key", Bls::verify_proof_of_posession(&cross, &s.vk, &gen.0))?;
        no("the possession by the holder of another key", Bls::verify_proof_of_posession(&cross, &t.vk, &gen.0))?;
    }
    let bad = ProofOfPossession::from_bytes(&bump(g, pop.as_bytes())).unwrap();
    no("possession after the proof was changed", Bls::verify_proof_of_posession(&bad, &s.vk, &gen.0))?;
    // separated from signatures
    let as_pop = ProofOfPossession::from_bytes(Bls::sign(s.vk.as_bytes(), &s.sk).unwrap().as_bytes()).unwrap();
    no("a signature of the key as a proof of possession", Bls::verify_proof_of_posession(&as_pop, &s.vk, &gen.0))?;
    let as_sig = Signature::from_bytes(pop.as_bytes()).unwrap();
    no("a proof of possession as a signature of the key", Bls::verify(&as_sig, s.vk.as_bytes(), &s.vk, &gen.0))?;
    g.eval();
    // the identity as a key
    let inf1 = PointG1::new_inf().unwrap().to_bytes().unwrap();
    let idk = VerKey::from_bytes(&PointG2::new_inf().unwrap().to_bytes().unwrap());
    if let Ok(idk) = idk {
        let r = Bls::verify(&Signature::from_bytes(&inf1).unwrap(), &m, &idk, &gen.0);
        ensure!(!r.unwrap_or(false), "forgery-accepted", "the identity verifies under the identity");
        let r = Bls::verify_proof_of_posession(&ProofOfPossession::from_bytes(&inf1).unwrap(), &idk, &gen.0);
        ensure!(!r.unwrap_or(false), "forgery-accepted", "the identity proves possession of the identity");
        let r = Bls::verify_multi_sig(&MultiSignature::from_bytes(&inf1).unwrap(), &m, &[&idk], &gen.0);
        ensure!(!r.unwrap_or(false), "forgery-accepted", "the identity verifies under the identity");
    }
    Ok(())
}

fn multi(g: &mut G) -> R {
    let gen = generator(g)?;
    let n = if is_large() {
        g.range(256, 300)
    } else if g.chance(1, 12) {
        g.range(7, 40)
    } else {
        g.range(1, 6)
    };
    let mut ss: Vec<Signer> = vec![];
    for i in 0..n {
        let mut s = signer(g, &gen)?;
        if i > 0 && g.chance(1, 8) {
            // cancels or repeats the first key
            let k = if g.bool() { ss[0].n.clone() } else { &*N - &ss[0].n };
            let sk = SignKey::from_bytes(&be32(&k)).unwrap();
            s = Signer { vk: e("VerKey::new", VerKey::new(&gen.0, &sk))?, sk, n: k };
        }
        ss.push(s);
    }
    let m = message(g);
    let o = other(g, &m);
    g.show(format!("{} signers of {}", n, hex(&m)));
    g.nontrivial();
    let mut sigs = vec![];
    for s in &ss {
        sigs.push(ship!(g, Signature, e("sign", Bls::sign(&m, &s.sk))?));
    }
    let mut order: Vec<usize> = (0..n).collect();
    g.shuffle(&mut order);
    let ms = ship!(g, MultiSignature, e("MultiSignature::new", MultiSignature::new(&order.iter().map(|i| &sigs[*i]).collect::<Vec<_>>()))?);
    let total = ss.iter().fold(b(0), |a, s| (a + &s.n) % &*N);
    ensure!(ms.as_bytes() == &enc1(&hash_to_g1(&sha256(&m)).times(&total))[..], "multi-value", "the multi-signature is not the sum of the signatures");
    g.shuffle(&mut order);
    let vks: Vec<&VerKey> = order.iter().map(|i| &ss[*i].vk).collect();
    let check = |ms: &MultiSignature, m: &[u8], v: &[&VerKey], sum: &B, of: &B, msg_same: bool, w: &str| -> R {
        let r = e("verify_multi_sig", Bls::verify_multi_sig(ms, m, v, &gen.0))?;
        let want = msg_same && sum == of && *sum != b(0);
        ensure!(r == want, if want { "honest-rejected" } else { "forgery-accepted" }, "verify_multi_sig {} is {}", w, r);
        Ok(())
    };
    g.label(if total == b(0) { "keys cancel" } else { "keys do not cancel" });
    check(&ms, &m, &vks, &total, &total, true, "of honest signers")?;
    g.eval();
    check(&ms, &o, &vks, &total, &total, false, "of another message")?;
    let k = g.below(n);
    let mut less = vks.clone();
    less.remove(k);
    check(&ms, &m, &less, &((&total + &*N - &ss[order[k]].n) % &*N), &total, true, "with one key dropped")?;
    let t = signer(g, &gen)?;
    let mut more = vks.clone();
    more.insert(g.below(n + 1), &t.vk);
    check(&ms, &m, &more, &((&total + &t.n) % &*N), &total, true, "with one key added")?;
    let mut twice = vks.clone();
    twice.push(vks[k]);
    check(&ms, &m, &twice, &((&total + &ss[order[k]].n) % &*N), &total, true, "with one key repeated")?;
    let mut repl = vks.clone();
    repl[k] = &t.vk;
    check(&ms, &m, &repl, &((&total + &*N - &ss[order[k]].n + &t.n) % &*N), &total, true, "with one key replaced")?;
    // one signature missing, doubled, or of another message
    let part: Vec<&Signature> = (0..n).filter(|i| *i != k).map(|i| &sigs[i]).collect();
    let p = e("MultiSignature::new", MultiSignature::new(&part))?;
    check(&p, &m, &vks, &total, &((&total + &*N - &ss[k].n) % &*N), true, "without one signature")?;
    let mut part: Vec<&Signature> = sigs.iter().collect();
    part.push(&sigs[k]);
    let p = e("MultiSignature::new", MultiSignature::new(&part))?;
    check(&p, &m, &vks, &total, &((&total + &ss[k].n) % &*N), true, "with one signature doubled")?;
    let off = e("sign", Bls::sign(&o, &ss[k].sk))?;
    part.pop();
    part[k] = &off;
    let p = e("MultiSignature::new", MultiSignature::new(&part))?;
    check(&p, &m, &vks, &total, &total, false, "with one signature of another message")?;
    g.eval();
    // a multi-signature of one is that signature
    let one = e("MultiSignature::new", MultiSignature::new(&[&sigs[k]]))?;
    ensure!(one.as_bytes() == sigs[k].as_bytes(), "multi-value", "the multi-signature of one signature differs from it");
    let bad = MultiSignature::from_bytes(&bump(g, ms.as_bytes())).unwrap();
    if bad.as_bytes() != ms.as_bytes() {
        check(&bad, &m, &vks, &total, &(&total + b(1)), true, "after the signature was changed")?;
    }
    // nothing signed by nobody
    let nothing = e("MultiSignature::new", MultiSignature::new(&[]))?;
    ensure!(!Bls::verify_multi_sig(&nothing, &m, &[], &gen.0).unwrap_or(false), "forgery-accepted", "a multi-signature of nobody verifies");
    Ok(())
}

fn codecs(g: &mut G) -> R {
    let l = match g.draw(2) {
        0 => 32,
        1 => g.range(30, 34),
        _ => g.below(80),
    };
    let seed = g.bytes_n(l);
    g.show(format!("seed {}", hex(&seed)));
    match no_panic(|| SignKey::new(Some(&seed))) {
        Err(p) => return fail("panic", format!("SignKey::new aborts on {}: {}", hex(&seed), p)),
        Ok(Err(_)) => ensure!(l != 32, "seed", "a seed of 32 bytes is refused"),
        Ok(Ok(k)) => {
            ensure!(l == 32, "seed", "a seed of {} bytes is taken", l);
            ensure!(k.as_bytes() == SignKey::new(Some(&seed)).unwrap().as_bytes(), "seed", "the same seed gives two keys");
            ensure!(k.as_bytes() == &GroupOrderElement::new_from_seed(&seed).unwrap().to_bytes().unwrap()[..], "seed", "the key is not the scalar of the seed");
            let mut o = seed.clone();
            let i = g.below(32);
            o[i] ^= 1 << g.draw(7);
            ensure!(k.as_bytes() != SignKey::new(Some(&o)).unwrap().as_bytes(), "seed", "two seeds give one key");
            g.nontrivial();
        }
    }
    ensure!(SignKey::new(None).unwrap().as_bytes() != SignKey::new(None).unwrap().as_bytes(), "fresh", "two random keys are the same");
    ensure!(Generator::new().unwrap().as_bytes() != Generator::new().unwrap().as_bytes(), "fresh", "two random generators are the same");
    g.eval();
    // damaged bytes are refused, or stand for something else that behaves
    let gen = generator(g)?;
    let s = signer(g, &gen)?;
    let m = message(g);
    let sig = Bls::sign(&m, &s.sk).unwrap();
    let pop = ProofOfPossession::new(&s.vk, &s.sk).unwrap();
    let which = g.draw(5);
    let orig = match which {
        0 => gen.0.as_bytes().to_vec(),
        1 => s.vk.as_bytes().to_vec(),
        2 | 3 => sig.as_bytes().to_vec(),
        4 => pop.as_bytes().to_vec(),
        _ => s.sk.as_bytes().to_vec(),
    };
    let mut v = orig.clone();
    match g.draw(4) {
        0 => {
            let i = g.below(v.len());
            v[i] ^= 1 << g.draw(7);
        }
        1 => v.push(g.draw(255) as u8),
        2 => {
            let k = g.below(v.len());
            v.truncate(k)
        }
        3 => v = vec![g.draw(255) as u8; v.len()],
        _ => v = g.bytes(0, 140),
    }
    if v == orig {
        return Ok(());
    }
    g.show(format!("{}: {}", which, hex(&v)));
    // Some(true): taken and verifies
    let r = no_panic(|| match which {
        0 => Generator::from_bytes(&v).map(|x| Bls::verify(&sig, &m, &s.vk, &x).unwrap_or(false)),
        1 => VerKey::from_bytes(&v).map(|x| Bls::verify(&sig, &m, &x, &gen.0).unwrap_or(false)),
        2 => Signature::from_bytes(&v).map(|x| Bls::verify(&x, &m, &s.vk, &gen.0).unwrap_or(false)),
        3 => MultiSignature::from_bytes(&v).map(|x| Bls::verify_multi_sig(&x, &m, &[&s.vk], &gen.0).unwrap_or(false)),
        4 => ProofOfPossession::from_bytes(&v).map(|x| Bls::verify_proof_of_posession(&x, &s.vk, &gen.0).unwrap_or(false)),
        _ => SignKey::from_bytes(&v).map(|x| {
            let same = B::from_bytes_be(&v) % &*N == s.n;
            Bls::verify(&Bls::sign(&m, &x).unwrap(), &m, &s.vk, &gen.0).unwrap_or(false) != same
        }),
    });
    let name = ["a generator", "a verification key", "a signature", "a multi-signature", "a proof of possession", "a sign key"][which as usize];
    g.eval();
    match r {
        Err(p) => return fail("panic", format!("{} of {} aborts: {}", name, hex(&v), p)),
        Ok(Ok(t)) => {
            ensure!(!t, "forgery-accepted", "{} replaced by {} verifies", name, hex(&v));
            ensure!(which == 5 && v.len() <= 32 || v.len() == 128, "malformed-accepted", "{} of {} bytes", name, v.len());
            g.label("still decodes");
        }
        Ok(Err(_)) => {
            g.label("refused");
            ensure!(which != 5 || v.len() > 32, "valid-refused", "a sign key of {} bytes is refused", v.len());
        }
    }
    // JSON with missing or wrong members
    let js = serde_json::to_string(&sig).unwrap();
    let cut = g.below(js.len());
    let cut = &js[..cut];
    let r = no_panic(|| (serde_json::from_str::<Signature>(cut).is_ok(), serde_json::from_str::<VerKey>(&js).is_ok(), serde_json::from_str::<SignKey>(&js).is_ok(), serde_json::from_str::<Signature>("{}").is_ok()));
    match r {
        Err(p) => return fail("panic", format!("decoding JSON aborts: {}", p)),
        Ok(r) => ensure!(r == (false, false, false, false), "malformed-accepted", "malformed JSON is decoded: {:?}", r),
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "B02",
        rule: "a signature by a generated key was verified, or a key derived from a seed",
        assumptions: vec![],
        subs: vec![sub("single", 800, 12000, 60, single), sub("multi", 500, 8000, 60, multi), sub("large-multi", 3, 60, 4, |g| large(g, multi)), sub("codecs", 1500, 20000, 100, codecs)],
    }]
}
