//! C03: the three correctness proofs of issuance and what the signature covers
use crate::cl1::*;
use crate::clw::*;
use crate::forge::*;
use num_bigint::{BigInt, BigUint, Sign};
use pbt::*;
use rand_chacha::rand_core::SeedableRng;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::*;

/// arrays of strings are sets
fn norm(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), norm(x))).collect()),
        Value::Array(a) if !a.is_empty() && a.iter().all(|x| x.is_string()) => {
            let mut s: Vec<String> = a.iter().map(|x| x.as_str().unwrap().to_string()).collect();
            s.sort();
            s.dedup();
            json!(s)
        }
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        x => x.clone(),
    }
}

/// One change to the JSON form of an object. None: nothing changed, undecodable, or the changed
/// number stands for the same or the opposite residue (even exponents cannot tell the sign).
fn altered<T: Serialize + DeserializeOwned>(g: &mut G, x: &T, n: &BigInt, keep: &dyn Fn(&str) -> bool) -> Result<Option<(T, String)>, Fail> {
    let orig = js(x);
    let mut v = orig.clone();
    let d = if g.chance(1, 4) { restructure(g, &mut v) } else { mutate(g, &mut v) };
    let d = match d {
        Some(d) if keep(&d) => d,
        _ => return Ok(None),
    };
    // sign flips and multiples of n
    for p in all_leaves(&orig) {
        let a = at(&mut orig.clone(), &p).clone();
        let mut vv = v.clone();
        if p.iter().enumerate().all(|(i, _)| lookup(&vv, &p[..=i]).is_some()) {
            let b = at(&mut vv, &p).clone();
            if a != b && is_num(&a) && is_num(&b) {
                let (a, b) = (num(&a), num(&b));
                if ((&a - &b) % n).sign() == Sign::NoSign || ((&a + &b) % n).sign() == Sign::NoSign {
                    return Ok(None);
                }
            }
        }
    }
    match no_panic(|| try_from::<T>(&v)) {
        Err(m) => fail("decode-panics", format!("{}: {}", d, m)),
        Ok(Err(_)) => {
            g.label("undecodable");
            Ok(None)
        }
        Ok(Ok(y)) => {
            if norm(&js(&y)) == norm(&orig) {
                return Ok(None);
            }
            Ok(Some((y, d)))
        }
    }
}
fn lookup<'a>(v: &'a Value, path: &[String]) -> Option<&'a Value> {
    let mut x = v;
    for p in path {
        x = match x {
            Value::Object(m) => m.get(p)?,
            Value::Array(a) => a.get(p.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(x)
}
fn class(d: &str) -> String {
    d.split(' ').next().unwrap().trim_end_matches(':').split('.').filter(|x| x.parse::<u32>().is_err() && !NAMES.contains(x)).collect::<Vec<_>>().join(".")
}

fn mk_iss(g: &mut G, rev: bool) -> Iss {
    let attrs = attr_names(g, 1, 5);
    let mut non = vec![];
    if !g.chance(1, 8) {
        non.push(ms());
    }
    make_issuer(g, attrs, non, rev)
}
fn known_of(vals: &Vals) -> Vals {
    vals.iter().filter(|(_, v)| v.0 == Kind::Known).map(|(k, v)| (k.clone(), v.clone())).collect()
}

// ------------------------------------------------------------------ issuer key

fn c03_key(g: &mut G) -> R {
    let iss = mk_iss(g, false);
    let other = make_issuer(g, iss.attrs.clone(), iss.non.clone(), false);
    let sec = secret256(g);
    let vals = gen_vals(g, &iss, &sec, true);
    let cv = mk_values_how(0, &vals);
    let refused = |g: &mut G, pk: &CredentialPublicKey, kcp: &CredentialKeyCorrectnessProof, what: &str| -> R {
        g.eval();
        g.nontrivial();
        match no_panic(|| Prover::blind_credential_secrets(pk, kcp, &cv, &some_nonce()).is_ok()) {
            Ok(b) => ensure!(!b, "key-proof-accepted", "secrets were blinded for a key that is not proven: {}", what),
            Err(m) => return fail("key-proof-panics", format!("{}: {}", what, m)),
        }
        Ok(())
    };
    ensure!(Prover::blind_credential_secrets(&iss.pk, &iss.kcp, &cv, &some_nonce()).is_ok(), "key-proof-rejected", "an honest key correctness proof was refused");
    g.show(format!("attributes {:?}", iss.attrs));
    for _ in 0..10 {
        if let Some((k, d)) = altered(g, &iss.kcp, &iss.n, &|_| true)? {
            g.label(format!("proof {}", class(&d)));
            refused(g, &iss.pk, &k, &d)?;
        }
        if let Some((p, d)) = altered(g, &iss.pk, &iss.n, &|d| d.starts_with("p_key.") && !d.contains("rctxt"))? {
            g.label(format!("key {}", class(&d)));
            refused(g, &p, &iss.kcp, &d)?;
        }
    }
    if js(&iss.pk)["p_key"]["n"] == js(&other.pk)["p_key"]["n"] {
        return Ok(());
    }
    refused(g, &iss.pk, &other.kcp, "the proof of another key")?;
    refused(g, &other.pk, &iss.kcp, "the key of another issuer")?;
    // a base outside the group generated by s: not a square modulo n, proven like an honest one
    let (a, b) = (js(&iss.pk), js(&other.pk));
    for f in &["z", "s", "n"] {
        let mut x = a.clone();
        x["p_key"][*f] = b["p_key"][*f].clone();
        refused(g, &from(x), &iss.kcp, &format!("{} of another key", f))?;
    }
    // one base left out of the proof (all others proven): only the master secret may be missing
    let names: Vec<String> = iss.attrs.iter().chain(iss.non.iter()).cloned().collect();
    let k = g.pick(&names).clone();
    let n = iss.n.to_biguint().unwrap();
    if let (Some(p), true) = (P512.iter().chain(P1024.iter()).find(|p| &n % *p == BigUint::from(0u8)), k != ms() && iss.attrs.len() > 1) {
        let attrs: Vec<String> = iss.attrs.iter().filter(|a| **a != k).cloned().collect();
        let seed = g.u64();
        let small = make_issuer_with(p, &(&n / p), &mut rand_chacha::ChaChaRng::seed_from_u64(seed), attrs, iss.non.clone(), false);
        // a valid proof, and the key it is for plus one more base
        let mut x = js(&small.pk);
        x["p_key"]["r"][k.as_str()] = a["p_key"]["r"][k.as_str()].clone();
        g.label("unproven base");
        refused(g, &from(x), &small.kcp, &format!("a proof without a part for {}", k))?;
    }
    Ok(())
}

/// The proof does not cover the base of the credential context (CVE-2022-31021)
fn c03_rctxt(g: &mut G) -> R {
    let iss = make_issuer(g, vec!["age".into()], vec![ms()], false);
    let mut k = js(&iss.pk);
    k["p_key"]["rctxt"] = json!(((num(&k["p_key"]["rctxt"]) * BigInt::from(5)) % &iss.n).to_string());
    let pk: CredentialPublicKey = from(k);
    g.eval();
    g.nontrivial();
    let mut vals = Vals::new();
    vals.insert("age".into(), (Kind::Known, BigInt::from(7), BigInt::from(0)));
    vals.insert(ms(), (Kind::Hidden, secret256(g), BigInt::from(0)));
    if Prover::blind_credential_secrets(&pk, &iss.kcp, &mk_values_how(0, &vals), &some_nonce()).is_ok() {
        g.finding("key-proof-does-not-cover-rctxt", "the key correctness proof is accepted for any value of rctxt")?;
    }
    Ok(())
}

// ------------------------------------------------------------------ blinded secrets

fn c03_blind(g: &mut G) -> R {
    let rev = g.chance(1, 4);
    let iss = mk_iss(g, rev);
    let secret = secret256(g);
    let vals = gen_vals(g, &iss, &secret, true);
    let (b1, b2) = (blind(&iss, &mk_values_how(0, &vals), false)?, blind(&iss, &mk_values_how(0, &vals), false)?);
    let known = mk_values_how(0, &known_of(&vals));
    let inonce = some_nonce();
    let sign = |bs: &BlindedCredentialSecrets, bp: &BlindedCredentialSecretsCorrectnessProof, n: &Nonce| -> Result<bool, Fail> {
        no_panic(|| Issuer::sign_credential(PROVER, bs, bp, n, &inonce, &known, &iss.pk, &iss.sk).is_ok()).map_err(|m| Fail { sig: "issuer-panics".into(), msg: m })
    };
    ensure!(sign(&b1.bs, &b1.bp, &b1.nonce)?, "blinded-rejected", "honestly blinded secrets were refused");
    g.show(format!("{:?}", vals.iter().map(|(k, v)| format!("{} {:?}", k, v.0)).collect::<Vec<_>>()));
    g.nontrivial();
    for _ in 0..10 {
        if let Some((x, d)) = altered(g, &b1.bp, &iss.n, &|_| true)? {
            g.eval();
            g.label(format!("proof {}", class(&d)));
            ensure!(!sign(&b1.bs, &x, &b1.nonce)?, "blinded-accepted", "blinded secrets were signed after {}", d);
        }
        // ur has no proof: see the signature part
        if let Some((x, d)) = altered(g, &b1.bs, &iss.n, &|d| !d.contains("ur:") && !d.contains("key ur") && !d.contains(" ur") && !d.contains("ur and"))? {
            g.eval();
            g.label(format!("secrets {}", class(&d)));
            ensure!(!sign(&x, &b1.bp, &b1.nonce)?, "blinded-accepted", "blinded secrets were signed after {}", d);
        }
    }
    g.eval();
    ensure!(!sign(&b1.bs, &b2.bp, &b1.nonce)?, "blinded-replay-accepted", "the proof of another run was accepted");
    ensure!(!sign(&b2.bs, &b1.bp, &b1.nonce)?, "blinded-replay-accepted", "the blinded secrets of another run were accepted");
    ensure!(!sign(&b1.bs, &b1.bp, &b2.nonce)?, "blinded-replay-accepted", "the proof was accepted for another nonce");
    for nn in other_nonces(g, &b1.nonce) {
        ensure!(!sign(&b1.bs, &b1.bp, &nn)?, "blinded-replay-accepted", "the proof was accepted for nonce {} instead of {}", big(&nn), big(&b1.nonce));
    }
    // a commitment or a hidden attribute that the proof says nothing about, proven like the rest otherwise
    {
        let proven = js(&b1.bs);
        let rest: Vec<String> = vals.keys().filter(|k| !proven["committed_attributes"].as_object().map_or(false, |m| m.contains_key(*k)) && !proven["hidden_attributes"].as_array().unwrap().iter().any(|x| x == k.as_str())).cloned().chain(vec!["nowhere".to_string()]).collect();
        let k = g.pick(&rest).clone();
        let mut less = known_of(&vals);
        less.remove(&k);
        let less = mk_values_how(0, &less);
        let mut x = proven.clone();
        x["committed_attributes"][k.as_str()] = match g.draw(2) {
            0 => json!((num(&x["u"]) * BigInt::from(5) % &iss.n).to_string()),
            1 => json!("1"),
            _ => js(&iss.pk)["p_key"]["z"].clone(),
        };
        let x: BlindedCredentialSecrets = from(x);
        g.eval();
        g.label("unproven commitment");
        ensure!(!sign(&x, &b1.bp, &b1.nonce)?, "blinded-accepted", "signed with a commitment for {} that is not proven", k);
        let r = no_panic(|| Issuer::sign_credential(PROVER, &x, &b1.bp, &b1.nonce, &inonce, &less, &iss.pk, &iss.sk).is_ok()).map_err(|m| Fail { sig: "issuer-panics".into(), msg: m })?;
        ensure!(!r, "blinded-accepted", "signed with a commitment for {} that is not proven", k);
        let mut x = proven;
        x["hidden_attributes"].as_array_mut().unwrap().push(json!(k));
        let x: BlindedCredentialSecrets = from(x);
        ensure!(!sign(&x, &b1.bp, &b1.nonce)?, "blinded-accepted", "signed with a hidden {} that is not proven", k);
        let r = no_panic(|| Issuer::sign_credential(PROVER, &x, &b1.bp, &b1.nonce, &inonce, &less, &iss.pk, &iss.sk).is_ok()).map_err(|m| Fail { sig: "issuer-panics".into(), msg: m })?;
        ensure!(!r, "blinded-accepted", "signed with a hidden {} that is not proven", k);
    }
    // another issuer with the same schema
    let other = make_issuer(g, iss.attrs.clone(), iss.non.clone(), false);
    g.eval();
    let r = no_panic(|| Issuer::sign_credential(PROVER, &b1.bs, &b1.bp, &b1.nonce, &inonce, &known, &other.pk, &other.sk).is_ok()).map_err(|m| Fail { sig: "issuer-panics".into(), msg: m })?;
    ensure!(!r, "blinded-replay-accepted", "another issuer accepted the blinded secrets");
    // the holder blinds values the issuer sets: hidden and known at once
    let hidden_known: Vec<String> = vals.iter().filter(|(_, v)| v.0 == Kind::Known).map(|(k, _)| k.clone()).collect();
    if !hidden_known.is_empty() {
        let a = g.pick(&hidden_known).clone();
        let mut v2 = vals.clone();
        v2.get_mut(&a).unwrap().0 = Kind::Hidden;
        let b = blind(&iss, &mk_values_how(0, &v2), false)?;
        g.eval();
        g.label("hidden and known");
        ensure!(!sign(&b.bs, &b.bp, &b.nonce)?, "hidden-and-known-signed", "{} was blinded by the holder and set by the issuer", a);
    }
    Ok(())
}

// ------------------------------------------------------------------ signature

struct Run {
    cv: CredentialValues,
    b: Blinded,
    inonce: Nonce,
    sig: CredentialSignature,
    scp: SignatureCorrectnessProof,
}
fn run(iss: &Iss, vals: &Vals, reg: &mut Option<(Reg, u32)>, pid: &str) -> Result<Run, Fail> {
    let cv = mk_values_how(0, vals);
    let b = blind(iss, &cv, false)?;
    let inonce = some_nonce();
    let known = mk_values_how(0, &known_of(vals));
    let (sig, scp) = match reg {
        None => e("sign-honest", "sign_credential", Issuer::sign_credential(pid, &b.bs, &b.bp, &b.nonce, &inonce, &known, &iss.pk, &iss.sk))?,
        Some((r, idx)) => {
            let (s, p, _) = e("sign-honest", "sign_credential_with_revoc", Issuer::sign_credential_with_revoc(pid, &b.bs, &b.bp, &b.nonce, &inonce, &known, &iss.pk, &iss.sk, *idx, r.max, r.by_default, &mut r.reg, &r.key_priv, &r.tails))?;
            r.valid.insert(*idx);
            (s, p)
        }
    };
    Ok(Run { cv, b, inonce, sig, scp })
}
fn process(sig: &CredentialSignature, cv: &CredentialValues, scp: &SignatureCorrectnessProof, bf: &CredentialSecretsBlindingFactors, pk: &CredentialPublicKey, n: &Nonce, reg: Option<(&Reg, &Witness)>) -> Result<Option<CredentialSignature>, Fail> {
    let mut s = sig.try_clone().unwrap();
    let r = no_panic(|| Prover::process_credential_signature(&mut s, cv, scp, bf, pk, n, reg.map(|r| &r.0.key_pub), reg.map(|r| &r.0.reg), reg.map(|r| r.1)).is_ok());
    match r {
        Err(m) => fail("holder-panics", format!("process_credential_signature aborted: {}", m)),
        Ok(true) => Ok(Some(s)),
        Ok(false) => Ok(None),
    }
}

fn nat(g: &mut G, bits: usize) -> BigInt {
    BigInt::from_bytes_be(Sign::Plus, &g.bytes_n(bits / 8))
}
fn is_prime(x: &BigInt) -> bool {
    let mut c = openssl::bn::BigNumContext::new().unwrap();
    openssl::bn::BigNum::from_dec_str(&x.to_string()).unwrap().is_prime(40, &mut c).unwrap()
}
fn sha(b: &[u8]) -> Vec<u8> {
    openssl::sha::sha256(b).to_vec()
}
/// the credential context as the library documents it: H(H(prover) || H(index)), each inner hash little-endian
fn context(pid: &str, idx: Option<u32>) -> BigInt {
    let le = |s: &str| {
        let mut h = sha(s.as_bytes());
        h.reverse();
        // numbers have no leading zero bytes
        BigUint::from_bytes_be(&h).to_bytes_be()
    };
    let i = idx.map(|x| x as i64).unwrap_or(-1);
    let mut v = le(pid);
    v.extend(le(&i.to_string()));
    BigInt::from_bytes_be(Sign::Plus, &sha(&v))
}

fn c03_signature(g: &mut G) -> R {
    let rev = g.chance(if is_large() { 2 } else { 1 }, 3);
    let iss = mk_iss(g, rev);
    let secret = secret256(g);
    let vals = gen_vals(g, &iss, &secret, true);
    let mut reg = if rev {
        let max = if is_large() { g.range(256, 270) as u32 } else { 2 + g.draw(2) as u32 };
        let i = if max > 2 && g.bool() { max } else { 1 };
        Some((make_reg(&iss, max, g.bool())?, i))
    } else {
        None
    };
    let pid = match g.below(6) {
        0 | 1 | 2 => PROVER.to_string(),
        3 | 4 => g.string(20),
        _ => g.string(300),
    };
    let r1 = run(&iss, &vals, &mut reg, &pid)?;
    let r2 = match reg.take() {
        Some((r, i)) => {
            let mut x = Some((r, 2));
            let r2 = run(&iss, &vals, &mut x, &pid)?;
            reg = x.map(|(r, _)| (r, i));
            r2
        }
        None => run(&iss, &vals, &mut None, &pid)?,
    };
    let w1 = match &reg {
        Some((r, i)) => Some(r.witness(*i)?),
        None => None,
    };
    let rw = reg.as_ref().map(|(r, _)| (r, w1.as_ref().unwrap()));
    let shown: Vec<String> = vals.iter().map(|(k, v)| format!("{} {:?} {}", k, v.0, v.1)).collect();
    g.show(format!("{} revocable {}", shown.join(", "), rev));
    g.nontrivial();
    let done = match process(&r1.sig, &r1.cv, &r1.scp, &r1.b.bf, &iss.pk, &r1.inonce, rw)? {
        Some(s) => s,
        None => return fail("signature-rejected", "an honest signature was refused"),
    };
    // the signature equation, with every value and the context in it
    let s = js(&done);
    let p = &s["p_credential"];
    let pk = &js(&iss.pk)["p_key"];
    let n = &iss.n;
    let pw = |b: &Value, e: &BigInt| {
        let e = ((e % &iss.order) + &iss.order) % &iss.order;
        num(b).modpow(&e, n)
    };
    let (ea, va, m2) = (num(&p["e"]), num(&p["v"]), num(&p["m_2"]));
    let mut rhs = pw(&p["a"], &ea) * pw(&pk["s"], &va) % n * pw(&pk["rctxt"], &m2) % n;
    for (k, (kind, v, _)) in &vals {
        if *kind != Kind::Committed {
            rhs = rhs * pw(&pk["r"][k.as_str()], v) % n;
        }
    }
    g.eval();
    ensure!(rhs == num(&pk["z"]), "signature-equation", "the signature is not one over the given values");
    let lo = BigInt::from(1) << 596usize;
    ensure!(ea >= lo && ea <= &lo + (BigInt::from(1) << 119usize), "signature-exponent", "e = {} is out of range", ea);
    ensure!(m2 == context(&pid, reg.as_ref().map(|x| x.1)), "credential-context", "the context is {} for {:?} {:?}", m2, pid, reg.as_ref().map(|x| x.1));
    // the issuer knows the order of the group, so every exponent that has an inverse gives a signature; only prime ones are safe
    {
        let inv = |e: &BigInt| {
            let bn = |x: &BigInt| openssl::bn::BigNum::from_dec_str(&x.to_string()).unwrap();
            let (mut c, mut r) = (openssl::bn::BigNumContext::new().unwrap(), openssl::bn::BigNum::new().unwrap());
            r.mod_inverse(&bn(e), &bn(&iss.order), &mut c).ok().map(|_| r.to_dec_str().unwrap().parse::<BigInt>().unwrap())
        };
        let mut q = num(&pk["z"]);
        for (b, e) in vals.iter().filter(|(_, v)| v.0 != Kind::Committed).map(|(k, v)| (&pk["r"][k.as_str()], v.1.clone())).chain(vec![(&pk["s"], va.clone()), (&pk["rctxt"], m2.clone())]) {
            q = q * pw(b, &-e) % n;
        }
        let kind = g.draw(3);
        let mut ec = match kind {
            0 => ea.clone(),
            // two factors of about the same size, or a small one
            1 => {
                let f = (&lo >> 298usize) + nat(g, 117);
                &f * ((&lo / &f) + BigInt::from(1 + g.draw(1000)))
            }
            2 => {
                let f = BigInt::from(3 + 2 * g.draw(5000));
                &f * ((&lo / &f) + BigInt::from(1) + nat(g, 100))
            }
            _ => &ea * BigInt::from(3 + 2 * g.draw(2)),
        };
        if &ec % BigInt::from(2) == BigInt::from(0) {
            ec += BigInt::from(1);
        }
        if let Some(d) = inv(&ec) {
            let ac = q.modpow(&d, n);
            let r = nat(g, 2000) % &iss.order;
            let bytes = |x: &BigInt| x.to_bytes_be().1;
            let mut h = bytes(&q);
            h.extend(bytes(&ac));
            h.extend(bytes(&q.modpow(&r, n)));
            h.extend(bytes(&num(&js(&r1.inonce))));
            let c = BigInt::from_bytes_be(Sign::Plus, &sha(&h));
            let se = (((&r - &c * &d) % &iss.order) + &iss.order) % &iss.order;
            let mut x = js(&r1.sig);
            x["p_credential"]["e"] = json!(ec.to_string());
            x["p_credential"]["a"] = json!(ac.to_string());
            let p = json!({"se": se.to_string(), "c": c.to_string()});
            let done = process(&from(x), &r1.cv, &from(p), &r1.b.bf, &iss.pk, &r1.inonce, rw)?;
            g.eval();
            if kind == 0 {
                ensure!(done.is_some(), "signature-rejected", "the same signature with a new proof was refused");
            } else if !is_prime(&ec) {
                g.label("composite exponent");
                ensure!(done.is_none(), "composite-exponent", "a signature was accepted although its exponent {} is not prime", ec);
            }
        }
    }
    // alterations
    for _ in 0..6 {
        if let Some((x, d)) = altered(g, &r1.sig, n, &|d| d.starts_with("p_credential."))? {
            g.eval();
            g.label(format!("signature {}", class(&d)));
            ensure!(process(&x, &r1.cv, &r1.scp, &r1.b.bf, &iss.pk, &r1.inonce, rw)?.is_none(), "signature-accepted", "accepted after {}", d);
        }
        if let Some((x, d)) = altered(g, &r1.scp, n, &|_| true)? {
            g.eval();
            g.label(format!("proof {}", class(&d)));
            ensure!(process(&r1.sig, &r1.cv, &x, &r1.b.bf, &iss.pk, &r1.inonce, rw)?.is_none(), "signature-accepted", "accepted after {}", d);
        }
        // exchanging the bases of two attributes with equal values changes nothing
        let same = |d: &str| vals.iter().any(|(k, v)| vals.iter().any(|(k2, v2)| k != k2 && v.1 == v2.1 && d.ends_with(&format!(": {} and {} exchanged", k, k2))));
        if let Some((x, d)) = altered(g, &iss.pk, n, &|d| {
            !same(d) && d.starts_with("p_key.") && vals.iter().all(|(k, v)| (v.0 != Kind::Committed && v.1.sign() != Sign::NoSign) || !d.contains(&format!("{}:", k)) && !d.contains(&format!("key {} ", k)) && !d.contains(&format!("{} and", k)) && !d.contains(&format!("and {}", k)))
        })? {
            g.eval();
            g.label(format!("key {}", class(&d)));
            ensure!(process(&r1.sig, &r1.cv, &r1.scp, &r1.b.bf, &x, &r1.inonce, rw)?.is_none(), "signature-accepted", "accepted after {}", d);
        }
        if let Some((x, d)) = altered(g, &r1.b.bf, n, &|d| rev || !d.contains("vr_prime"))? {
            g.eval();
            g.label(format!("blinding {}", class(&d)));
            // without vr_prime the non-revocation part is not examined
            if !d.contains("key vr_prime") {
                ensure!(process(&r1.sig, &r1.cv, &r1.scp, &x, &iss.pk, &r1.inonce, rw)?.is_none(), "signature-accepted", "accepted after {}", d);
            }
        }
    }
    // values
    for _ in 0..4 {
        let names: Vec<String> = vals.iter().filter(|(_, v)| v.0 != Kind::Committed).map(|(k, _)| k.clone()).collect();
        let k = g.pick(&names).clone();
        let mut v2 = vals.clone();
        {
            let x = v2.get_mut(&k).unwrap();
            x.1 = match g.draw(3) {
                0 => &x.1 + BigInt::from(1),
                1 => &x.1 - BigInt::from(1),
                2 => -&x.1,
                _ => value(g),
            };
        }
        if g.chance(1, 4) {
            v2.remove(&k);
        }
        let old = &vals[&k].1;
        if v2.get(&k).map(|x| x.1.clone()).unwrap_or_else(|| BigInt::from(0)) == *old {
            continue;
        }
        g.eval();
        g.label("value");
        ensure!(process(&r1.sig, &mk_values_how(0, &v2), &r1.scp, &r1.b.bf, &iss.pk, &r1.inonce, rw)?.is_none(), "signature-accepted", "accepted for {} = {:?} instead of {}", k, v2.get(&k).map(|x| x.1.to_string()), old);
    }
    // parts of the other run
    let (a, b) = (js(&r1.sig), js(&r2.sig));
    g.eval();
    ensure!(process(&r1.sig, &r1.cv, &r2.scp, &r1.b.bf, &iss.pk, &r1.inonce, rw)?.is_none(), "signature-replay-accepted", "accepted with the correctness proof of another signature");
    ensure!(process(&r1.sig, &r1.cv, &r1.scp, &r2.b.bf, &iss.pk, &r1.inonce, rw)?.is_none(), "signature-replay-accepted", "accepted with the blinding factors of another run");
    ensure!(process(&r1.sig, &r1.cv, &r1.scp, &r1.b.bf, &iss.pk, &r2.inonce, rw)?.is_none(), "signature-replay-accepted", "accepted for another nonce");
    for nn in other_nonces(g, &r1.inonce) {
        ensure!(process(&r1.sig, &r1.cv, &r1.scp, &r1.b.bf, &iss.pk, &nn, rw)?.is_none(), "signature-replay-accepted", "accepted for nonce {} instead of {}", big(&nn), big(&r1.inonce));
    }
    ensure!(process(&r2.sig, &r1.cv, &r2.scp, &r1.b.bf, &iss.pk, &r2.inonce, None)?.is_none(), "signature-replay-accepted", "a signature for other blinded secrets was accepted");
    let fields: BTreeSet<&str> = ["a", "e", "v"].iter().cloned().collect();
    let f = *g.pick(&fields.into_iter().collect::<Vec<_>>());
    let mut x = a.clone();
    x["p_credential"][f] = b["p_credential"][f].clone();
    ensure!(process(&from(x), &r1.cv, &r1.scp, &r1.b.bf, &iss.pk, &r1.inonce, rw)?.is_none(), "signature-replay-accepted", "accepted with {} of another signature", f);
    // the non-revocation part: refused, or at least useless
    if let Some((r, w)) = rw {
        for _ in 0..3 {
            let (x, d) = if g.chance(1, 3) {
                let mut x = a.clone();
                let keys = ["sigma", "c", "vr_prime_prime", "witness_signature", "g_i", "m2"];
                let k = keys[g.below(keys.len())];
                if x["r_credential"][k] == b["r_credential"][k] {
                    continue;
                }
                x["r_credential"][k] = b["r_credential"][k].clone();
                (from::<CredentialSignature>(x), format!("r_credential.{} of another credential", k))
            } else {
                match altered(g, &r1.sig, n, &|d| d.starts_with("r_credential.") && !d.contains("r_credential.i:"))? {
                    Some(x) => x,
                    None => continue,
                }
            };
            g.eval();
            g.label(format!("non-revocation {}", class(&d)));
            if let Some(s) = process(&x, &r1.cv, &r1.scp, &r1.b.bf, &iss.pk, &r1.inonce, rw)? {
                if vals.values().any(|v| v.0 == Kind::Committed) {
                    continue;
                }
                let c = Cred { vals: vals.clone(), cv: mk_values_how(0, &vals), sig: s, idx: reg.as_ref().map(|x| x.1).or(Some(1)) };
                let sh = [Show { iss: &iss, cred: &c, req: Req::default(), rev: Some((r, w.clone())) }];
                let nonce = some_nonce();
                if let Ok(p) = present(&sh, &[], &nonce) {
                    ensure!(!accepted(&mut verifier(&sh, &[]).unwrap(), &p, &nonce)?, "altered-credential-usable", "a presentation was accepted although {}", d);
                }
            }
        }
        // blinded revocation secret of another run: the issuer cannot tell, the holder must
        let mut bs = js(&r1.b.bs);
        bs["ur"] = js(&r2.b.bs)["ur"].clone();
        let known = mk_values_how(0, &known_of(&vals));
        let mut r3 = make_reg(&iss, r.max, r.by_default)?;
        if let Ok((s, p, _)) = Issuer::sign_credential_with_revoc(&pid, &from(bs), &r1.b.bp, &r1.b.nonce, &r1.inonce, &known, &iss.pk, &iss.sk, 1, r3.max, r3.by_default, &mut r3.reg, &r3.key_priv, &r3.tails) {
            r3.valid.insert(1);
            let w3 = r3.witness(1)?;
            g.eval();
            ensure!(process(&s, &r1.cv, &p, &r1.b.bf, &iss.pk, &r1.inonce, Some((&r3, &w3)))?.is_none(), "signature-accepted", "accepted for a different revocation secret");
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C03",
        rule: "at least one honest issuance step was accepted and one altered or transplanted one was judged",
        assumptions: vec!["issuer keys come from a pool of safe primes of 512 and 1024 bits", "numbers that stand for the same or the opposite residue modulo n count as equal"],
        subs: vec![sub("key", 300, 4000, 10, c03_key), sub("large-key", 6, 100, 4, |g| large(g, c03_key)), sub("large-blind", 6, 100, 4, |g| large(g, c03_blind)), sub("large-signature", 10, 100, 4, |g| large(g, c03_signature)), sub("rctxt", 1, 5, 0, c03_rctxt), sub("blind", 300, 4000, 10, c03_blind), sub("signature", 250, 4000, 10, c03_signature)],
    }]
}
