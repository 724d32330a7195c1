//! C10: the anonymous-credential protocols between the build on OpenSSL and the portable build.
//! Everything that passes between two steps is text (the JSON of the library's own objects), so every
//! step of an issuance or a presentation can run in either build.
use num_bigint::{BigInt, BigUint, Sign};
use pbt::*;
use serde_json::{json, Map, Value};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, BTreeSet};

lazy_static::lazy_static! {
    static ref PRIMES: Vec<BigUint> = include_str!("../../ursa/fixtures/safe_primes.txt").lines().map(|s| s.trim()).filter(|s| s.len() == 128).map(|s| BigUint::parse_bytes(s.as_bytes(), 16).unwrap()).collect();
}

pub type S = String;
type Res<T> = Result<T, String>;

/// What a holder shows, and what a verifier asks: everything as text.
#[derive(Clone, Debug)]
pub struct Show {
    pub attrs: Vec<S>,
    pub non: Vec<S>,
    pub pk: S,
    pub sig: S,
    pub values: S,
    pub revealed: Vec<S>,
    pub preds: Vec<(S, &'static str, i32)>,
    /// the public key of the registry, the registry, the witness
    pub rev: Option<(S, S, S)>,
}
/// A registry: public key, private key, state, tails generator
#[derive(Clone, Debug)]
pub struct Reg {
    pub key: S,
    pub private: S,
    pub state: S,
    pub tails: S,
    pub max: u32,
    pub by_default: bool,
}
#[derive(Clone, Debug)]
pub struct Blind {
    pub secrets: S,
    pub factors: S,
    pub proof: S,
}

pub trait Cl: Sync {
    fn name(&self) -> &'static str;
    fn nonce(&self) -> Res<S>;
    fn revocation_key(&self) -> Res<(Value, Value)>;
    fn registry(&self, pk: &str, max: u32, by_default: bool) -> Res<Reg>;
    fn blind(&self, pk: &str, kcp: &str, values: &str, nonce: &str) -> Res<Blind>;
    /// the signature, its proof, the registry and the delta after it
    fn sign(&self, who: &str, b: &Blind, nonce: &str, inonce: &str, values: &str, pk: &str, sk: &str, reg: Option<(&Reg, u32)>) -> Res<(S, S, Option<S>, Option<S>)>;
    fn witness(&self, idx: u32, reg: &Reg, delta: &str) -> Res<S>;
    fn witness_update(&self, w: &str, idx: u32, reg: &Reg, delta: &str) -> Res<S>;
    /// from_parts for everything that is issued or revoked since the creation
    fn delta(&self, before: Option<&str>, after: &str, issued: &BTreeSet<u32>, revoked: &BTreeSet<u32>) -> Res<S>;
    fn merge(&self, a: &str, b: &str) -> Res<S>;
    /// 0: revoke, 1: recover, 2: update
    fn change(&self, how: u64, reg: &Reg, issued: &BTreeSet<u32>, revoked: &BTreeSet<u32>) -> Res<(S, S)>;
    fn process(&self, sig: &str, values: &str, scp: &str, factors: &str, pk: &str, inonce: &str, rev: Option<(&str, &str, &str)>) -> Res<S>;
    fn present(&self, shows: &[Show], common: &[S], nonce: &str) -> Res<S>;
    fn verify(&self, shows: &[Show], common: &[S], proof: &str, nonce: &str) -> Res<bool>;
    fn same(&self, what: &str, a: &str, b: &str) -> Res<bool>;
}

macro_rules! cl {
    ($m:ident, $k:ident, $name:expr) => {
        pub mod $m {
            use super::*;
            use std::fmt::Debug;
            use $k::cl::issuer::Issuer;
            use $k::cl::prover::Prover;
            use $k::cl::verifier::Verifier;
            use $k::cl::*;
            use $k::pair::{GroupOrderElement, PointG1, PointG2};

            pub struct B;
            fn rd<T: serde::de::DeserializeOwned>(what: &str, s: &str) -> Res<T> {
                serde_json::from_str(s).map_err(|e| format!("{} reading {}: {}", $name, what, e))
            }
            fn wr<T: serde::Serialize>(x: &T) -> Res<S> {
                serde_json::to_string(x).map_err(|e| format!("{} writing: {}", $name, e))
            }
            fn e<T, E: Debug>(what: &str, r: Result<T, E>) -> Res<T> {
                r.map_err(|x| format!("{} in the {} build: {:?}", what, $name, x))
            }
            fn schema(a: &[S]) -> CredentialSchema {
                let mut b = Issuer::new_credential_schema_builder().unwrap();
                for x in a {
                    b.add_attr(x).unwrap();
                }
                b.finalize().unwrap()
            }
            fn nschema(a: &[S]) -> NonCredentialSchema {
                let mut b = Issuer::new_non_credential_schema_builder().unwrap();
                for x in a {
                    b.add_attr(x).unwrap();
                }
                b.finalize().unwrap()
            }
            fn tails(reg: &Reg) -> Res<SimpleTailsAccessor> {
                let mut gen: RevocationTailsGenerator = rd("the tails generator", &reg.tails)?;
                e("SimpleTailsAccessor::new", SimpleTailsAccessor::new(&mut gen))
            }
            fn request(s: &Show) -> Res<SubProofRequest> {
                let mut b = Verifier::new_sub_proof_request_builder().unwrap();
                for a in &s.revealed {
                    e("add_revealed_attr", b.add_revealed_attr(a))?;
                }
                for (a, t, v) in &s.preds {
                    e("add_predicate", b.add_predicate(a, t, *v))?;
                }
                e("finalize", b.finalize())
            }
            impl Cl for B {
                fn name(&self) -> &'static str {
                    $name
                }
                fn nonce(&self) -> Res<S> {
                    wr(&e("new_nonce", new_nonce())?)
                }
                fn revocation_key(&self) -> Res<(Value, Value)> {
                    let v = |x: S| -> Value { serde_json::from_str(&x).unwrap() };
                    let g1 = || PointG1::new().unwrap();
                    let g2 = || PointG2::new().unwrap();
                    let (g, h_cap) = (g1(), g2());
                    let (x, sk) = (GroupOrderElement::new().unwrap(), GroupOrderElement::new().unwrap());
                    let (pk, y) = (g.mul(&sk).unwrap(), h_cap.mul(&x).unwrap());
                    Ok((
                        json!({"g": v(wr(&g)?), "g_dash": v(wr(&g2())?), "h": v(wr(&g1())?), "h0": v(wr(&g1())?), "h1": v(wr(&g1())?), "h2": v(wr(&g1())?), "htilde": v(wr(&g1())?),
                               "h_cap": v(wr(&h_cap)?), "u": v(wr(&g2())?), "pk": v(wr(&pk)?), "y": v(wr(&y)?)}),
                        json!({"x": v(wr(&x)?), "sk": v(wr(&sk)?)}),
                    ))
                }
                fn registry(&self, pk: &str, max: u32, by_default: bool) -> Res<Reg> {
                    let pk: CredentialPublicKey = rd("the public key", pk)?;
                    let (k, p, r, t) = e("new_revocation_registry_def", Issuer::new_revocation_registry_def(&pk, max, by_default))?;
                    Ok(Reg { key: wr(&k)?, private: wr(&p)?, state: wr(&r)?, tails: wr(&t)?, max, by_default })
                }
                fn blind(&self, pk: &str, kcp: &str, values: &str, nonce: &str) -> Res<Blind> {
                    let (pk, kcp): (CredentialPublicKey, CredentialKeyCorrectnessProof) = (rd("the public key", pk)?, rd("the key proof", kcp)?);
                    let (cv, n): (CredentialValues, Nonce) = (rd("values", values)?, rd("a nonce", nonce)?);
                    let (s, f, p) = e("blind_credential_secrets", Prover::blind_credential_secrets(&pk, &kcp, &cv, &n))?;
                    Ok(Blind { secrets: wr(&s)?, factors: wr(&f)?, proof: wr(&p)? })
                }
                fn sign(&self, who: &str, b: &Blind, nonce: &str, inonce: &str, values: &str, pk: &str, sk: &str, reg: Option<(&Reg, u32)>) -> Res<(S, S, Option<S>, Option<S>)> {
                    let bs: BlindedCredentialSecrets = rd("blinded secrets", &b.secrets)?;
                    let bp: BlindedCredentialSecretsCorrectnessProof = rd("the proof of blinded secrets", &b.proof)?;
                    let (n, i): (Nonce, Nonce) = (rd("a nonce", nonce)?, rd("a nonce", inonce)?);
                    let (cv, pk, sk): (CredentialValues, CredentialPublicKey, CredentialPrivateKey) = (rd("values", values)?, rd("the public key", pk)?, rd("the private key", sk)?);
                    match reg {
                        None => {
                            let (s, p) = e("sign_credential", Issuer::sign_credential(who, &bs, &bp, &n, &i, &cv, &pk, &sk))?;
                            Ok((wr(&s)?, wr(&p)?, None, None))
                        }
                        Some((r, idx)) => {
                            let mut state: RevocationRegistry = rd("the registry", &r.state)?;
                            let key: RevocationKeyPrivate = rd("the registry's private key", &r.private)?;
                            let t = tails(r)?;
                            let (s, p, d) = e("sign_credential_with_revoc", Issuer::sign_credential_with_revoc(who, &bs, &bp, &n, &i, &cv, &pk, &sk, idx, r.max, r.by_default, &mut state, &key, &t))?;
                            let d = match d {
                                Some(d) => Some(wr(&d)?),
                                None => None,
                            };
                            Ok((wr(&s)?, wr(&p)?, Some(wr(&state)?), d))
                        }
                    }
                }
                fn witness(&self, idx: u32, reg: &Reg, delta: &str) -> Res<S> {
                    let d: RevocationRegistryDelta = rd("a delta", delta)?;
                    wr(&e("Witness::new", Witness::new(idx, reg.max, reg.by_default, &d, &tails(reg)?))?)
                }
                fn witness_update(&self, w: &str, idx: u32, reg: &Reg, delta: &str) -> Res<S> {
                    let mut w: Witness = rd("a witness", w)?;
                    let d: RevocationRegistryDelta = rd("a delta", delta)?;
                    e("Witness::update", w.update(idx, reg.max, &d, &tails(reg)?))?;
                    wr(&w)
                }
                fn delta(&self, before: Option<&str>, after: &str, issued: &BTreeSet<u32>, revoked: &BTreeSet<u32>) -> Res<S> {
                    let b: Option<RevocationRegistry> = match before {
                        Some(b) => Some(rd("a registry", b)?),
                        None => None,
                    };
                    let a: RevocationRegistry = rd("a registry", after)?;
                    wr(&RevocationRegistryDelta::from_parts(b.as_ref(), &a, &issued.iter().cloned().collect(), &revoked.iter().cloned().collect()))
                }
                fn merge(&self, a: &str, b: &str) -> Res<S> {
                    let mut x: RevocationRegistryDelta = rd("a delta", a)?;
                    let y: RevocationRegistryDelta = rd("a delta", b)?;
                    e("merge", x.merge(&y))?;
                    wr(&x)
                }
                fn change(&self, how: u64, reg: &Reg, issued: &BTreeSet<u32>, revoked: &BTreeSet<u32>) -> Res<(S, S)> {
                    let mut state: RevocationRegistry = rd("the registry", &reg.state)?;
                    let t = tails(reg)?;
                    let one = |s: &BTreeSet<u32>| *s.iter().next().unwrap();
                    let d = match how {
                        0 => e("revoke_credential", Issuer::revoke_credential(&mut state, reg.max, one(revoked), &t))?,
                        1 => e("recovery_credential", Issuer::recovery_credential(&mut state, reg.max, one(issued), &t))?,
                        _ => e("update_revocation_registry", Issuer::update_revocation_registry(&mut state, reg.max, issued.clone(), revoked.clone(), &t))?,
                    };
                    Ok((wr(&state)?, wr(&d)?))
                }
                fn process(&self, sig: &str, values: &str, scp: &str, factors: &str, pk: &str, inonce: &str, rev: Option<(&str, &str, &str)>) -> Res<S> {
                    let mut sig: CredentialSignature = rd("a signature", sig)?;
                    let (cv, scp): (CredentialValues, SignatureCorrectnessProof) = (rd("values", values)?, rd("a signature proof", scp)?);
                    let (f, pk, n): (CredentialSecretsBlindingFactors, CredentialPublicKey, Nonce) = (rd("blinding factors", factors)?, rd("the public key", pk)?, rd("a nonce", inonce)?);
                    let (k, r, w): (Option<RevocationKeyPublic>, Option<RevocationRegistry>, Option<Witness>) = match rev {
                        None => (None, None, None),
                        Some((k, r, w)) => (Some(rd("the registry key", k)?), Some(rd("the registry", r)?), Some(rd("a witness", w)?)),
                    };
                    e("process_credential_signature", Prover::process_credential_signature(&mut sig, &cv, &scp, &f, &pk, &n, k.as_ref(), r.as_ref(), w.as_ref()))?;
                    wr(&sig)
                }
                fn present(&self, shows: &[Show], common: &[S], nonce: &str) -> Res<S> {
                    let mut b = Prover::new_proof_builder().unwrap();
                    for c in common {
                        e("add_common_attribute", b.add_common_attribute(c))?;
                    }
                    for s in shows {
                        let sig: CredentialSignature = rd("a signature", &s.sig)?;
                        let (cv, pk): (CredentialValues, CredentialPublicKey) = (rd("values", &s.values)?, rd("the public key", &s.pk)?);
                        let (r, w): (Option<RevocationRegistry>, Option<Witness>) = match &s.rev {
                            None => (None, None),
                            Some((_, r, w)) => (Some(rd("the registry", r)?), Some(rd("a witness", w)?)),
                        };
                        e("add_sub_proof_request", b.add_sub_proof_request(&request(s)?, &schema(&s.attrs), &nschema(&s.non), &sig, &cv, &pk, r.as_ref(), w.as_ref()))?;
                    }
                    wr(&e("finalize", b.finalize(&rd("a nonce", nonce)?))?)
                }
                fn verify(&self, shows: &[Show], common: &[S], proof: &str, nonce: &str) -> Res<bool> {
                    let mut v = Verifier::new_proof_verifier().unwrap();
                    for c in common {
                        e("add_common_attribute", v.add_common_attribute(c))?;
                    }
                    for s in shows {
                        let pk: CredentialPublicKey = rd("the public key", &s.pk)?;
                        let (k, r): (Option<RevocationKeyPublic>, Option<RevocationRegistry>) = match &s.rev {
                            None => (None, None),
                            Some((k, r, _)) => (Some(rd("the registry key", k)?), Some(rd("the registry", r)?)),
                        };
                        e("add_sub_proof_request", v.add_sub_proof_request(&request(s)?, &schema(&s.attrs), &nschema(&s.non), &pk, k.as_ref(), r.as_ref()))?;
                    }
                    let (p, n): (Proof, Nonce) = (rd("a proof", proof)?, rd("a nonce", nonce)?);
                    e("verify", v.verify(&p, &n))
                }
                fn same(&self, what: &str, a: &str, b: &str) -> Res<bool> {
                    fn pt(v: &Value) -> Res<Option<PointG2>> {
                        match v {
                            Value::Null => Ok(None),
                            v => Ok(Some(rd("a point", &v.to_string())?)),
                        }
                    }
                    let (x, y): (Value, Value) = (rd(what, a)?, rd(what, b)?);
                    for k in &["accum", "prevAccum", "omega"] {
                        if pt(&x[*k])? != pt(&y[*k])? {
                            return Ok(false);
                        }
                    }
                    for k in &["issued", "revoked"] {
                        let l = |v: &Value| v[*k].as_array().map(|l| l.iter().map(|i| i.as_u64()).collect::<BTreeSet<_>>()).unwrap_or_default();
                        if l(&x) != l(&y) {
                            return Ok(false);
                        }
                    }
                    Ok(true)
                }
            }
        }
    };
}
cl!(nat, ursa_native, "OpenSSL");
cl!(por, ursa_portable, "portable");
const BUILDS: [&dyn Cl; 2] = [&nat::B, &por::B];

struct Prg(u64, u64);
impl Prg {
    fn big(&mut self, bits: usize) -> BigUint {
        let mut v = vec![];
        while v.len() * 8 < bits {
            self.1 += 1;
            let mut h = Sha256::new();
            h.input(&self.0.to_be_bytes());
            h.input(&self.1.to_be_bytes());
            v.extend_from_slice(h.result().as_slice());
        }
        let n = v.len() * 8;
        BigUint::from_bytes_be(&v) >> (n - bits)
    }
}
struct Iss {
    attrs: Vec<S>,
    pk: S,
    sk: S,
    kcp: S,
}
const MS: &str = "master_secret";

/// An issuer's key with its correctness proof, from the definition (two 512-bit safe primes)
fn issuer(g: &mut G, attrs: Vec<S>, revocable: bool) -> Res<Iss> {
    let i = g.below(PRIMES.len());
    let j = (i + 1 + g.below(PRIMES.len() - 1)) % PRIMES.len();
    let (ps, qs) = (&PRIMES[i], &PRIMES[j]);
    let mut r = Prg(g.u64(), 0);
    let n = ps * qs;
    let (p, q): (BigUint, BigUint) = (ps >> 1, qs >> 1);
    let order: BigUint = &p * &q;
    let s = {
        let x = r.big(1000);
        (&x * &x) % &n
    };
    let names: Vec<S> = attrs.iter().cloned().chain(vec![MS.to_string()]).collect::<BTreeSet<_>>().into_iter().collect();
    let mut gx = || r.big(1100) % &order + 2u32;
    let (xz, xc, tz) = (gx(), gx(), gx());
    let xs: Vec<BigUint> = names.iter().map(|_| gx()).collect();
    let ts: Vec<BigUint> = names.iter().map(|_| gx()).collect();
    let (z, rctxt) = (s.modpow(&xz, &n), s.modpow(&xc, &n));
    let rs: Vec<BigUint> = xs.iter().map(|x| s.modpow(x, &n)).collect();
    let mut h = Sha256::new();
    h.input(&z.to_bytes_be());
    for x in &rs {
        h.input(&x.to_bytes_be());
    }
    h.input(&s.modpow(&tz, &n).to_bytes_be());
    for t in &ts {
        h.input(&s.modpow(t, &n).to_bytes_be());
    }
    let c = BigUint::from_bytes_be(h.result().as_slice());
    let caps: Vec<Value> = (0..names.len()).map(|i| json!([names[i], (&c * &xs[i] + &ts[i]).to_string()])).collect();
    let rmap: Map<S, Value> = names.iter().cloned().zip(rs.iter().map(|x| json!(x.to_string()))).collect();
    let (rp, rs) = if revocable { g.pick(&BUILDS).revocation_key()? } else { (Value::Null, Value::Null) };
    Ok(Iss {
        attrs,
        pk: json!({"p_key": {"n": n.to_string(), "s": s.to_string(), "r": rmap, "rctxt": rctxt.to_string(), "z": z.to_string()}, "r_key": rp}).to_string(),
        sk: json!({"p_key": {"p": p.to_string(), "q": q.to_string()}, "r_key": rs}).to_string(),
        kcp: json!({"c": c.to_string(), "xz_cap": (&c * &xz + &tz).to_string(), "xr_cap": caps}).to_string(),
    })
}

/// adds one to a number of an object's JSON; the path that was changed
fn alter(g: &mut G, text: &str, skip: &[&str]) -> Option<(S, S)> {
    fn paths(v: &Value, at: &S, out: &mut Vec<S>, skip: &[&str]) {
        match v {
            Value::Object(m) => m.iter().filter(|(k, _)| !skip.contains(&k.as_str())).for_each(|(k, x)| paths(x, &format!("{}/{}", at, k.replace('~', "~0").replace('/', "~1")), out, skip)),
            Value::Array(l) => l.iter().enumerate().for_each(|(i, x)| paths(x, &format!("{}/{}", at, i), out, skip)),
            Value::String(s) if BigInt::parse_bytes(s.as_bytes(), 10).is_some() => out.push(at.clone()),
            Value::Number(_) => out.push(at.clone()),
            _ => {}
        }
    }
    let mut v: Value = serde_json::from_str(text).unwrap();
    let mut out = vec![];
    paths(&v, &S::new(), &mut out, skip);
    if out.is_empty() {
        return None;
    }
    let p = g.pick(&out).clone();
    let x = v.pointer_mut(&p).unwrap();
    *x = match &*x {
        Value::String(s) => {
            let b = BigInt::parse_bytes(s.as_bytes(), 10).unwrap();
            {
                let c: BigInt = if g.bool() { b + 1 } else { b - 1 };
                json!(c.to_string())
            }
        }
        n => json!((n.as_u64().unwrap() + 1) % 256),
    };
    Some((v.to_string(), p))
}

fn ok<T>(sig: &str, r: Res<T>) -> Result<T, Fail> {
    r.map_err(|m| Fail { sig: sig.into(), msg: m })
}
/// both builds must refuse it, without aborting
fn both_refuse(g: &mut G, what: &str, f: impl Fn(&dyn Cl) -> Res<bool>) -> R {
    for b in BUILDS.iter() {
        match no_panic(|| f(*b)) {
            Err(m) => return fail("alteration-panics", format!("{}: the {} build aborted: {}", what, b.name(), m)),
            Ok(Ok(true)) => return fail("alteration-accepted", format!("{}: accepted by the {} build", what, b.name())),
            _ => {}
        }
        g.eval();
    }
    Ok(())
}

struct Cred {
    iss: usize,
    vals: BTreeMap<S, BigInt>,
    values: S,
    sig: S,
    rev: Option<(usize, u32)>,
}

fn value(g: &mut G) -> BigInt {
    match g.draw(3) {
        0 => BigInt::from(g.i32_edge()),
        1 => BigInt::from(g.draw(150)),
        2 => (BigInt::from(1) << 256usize) - 1,
        _ => BigInt::from_bytes_be(Sign::Plus, &g.bytes_n(32)),
    }
}
fn values_json(vals: &BTreeMap<S, BigInt>, hidden: &BTreeSet<S>, all: bool) -> S {
    let m: Map<S, Value> = vals.iter().filter(|(k, _)| all || !hidden.contains(*k)).map(|(k, v)| (k.clone(), if hidden.contains(k) { json!({"Hidden": {"value": v.to_string()}}) } else { json!({"Known": {"value": v.to_string()}}) })).collect();
    json!({ "attrs_values": m }).to_string()
}

fn flow(g: &mut G) -> R {
    let mut used = [0usize; 2];
    macro_rules! side {
        () => {{
            let i = g.below(2);
            used[i] += 1;
            BUILDS[i]
        }};
    }
    let revocable = g.chance(1, 2);
    let many = if g.chance(1, 4) { 2 } else { 1 };
    let ms = BigInt::from_bytes_be(Sign::Plus, &g.bytes_n(32));
    let mut isss = vec![];
    for _ in 0..many {
        let n = g.range(1, 4);
        let names = g.subset_k(5, n).into_iter().map(|i| ["age", "name", "zip code", "straße", "Age"][i].to_string()).collect();
        isss.push(ok("issuer", issuer(g, names, revocable))?);
    }
    let mut creds: Vec<Cred> = vec![];
    let mut regs: Vec<Reg> = vec![];
    let mut valid: Vec<BTreeSet<u32>> = vec![];
    for (i, iss) in isss.iter().enumerate() {
        // issuance
        let mut vals: BTreeMap<S, BigInt> = iss.attrs.iter().map(|a| (a.clone(), value(g))).collect();
        let mut hidden: BTreeSet<S> = iss.attrs.iter().filter(|_| g.chance(1, 5)).cloned().collect();
        vals.insert(MS.into(), ms.clone());
        hidden.insert(MS.into());
        let values = values_json(&vals, &hidden, true);
        let known = values_json(&vals, &hidden, false);
        let (n1, n2) = (ok("nonce", side!().nonce())?, ok("nonce", side!().nonce())?);
        let b = ok("blind", side!().blind(&iss.pk, &iss.kcp, &values, &n1))?;
        let idx = if revocable {
            let (max, by_default) = (g.range(1, 5) as u32, g.bool());
            regs.push(ok("registry", side!().registry(&iss.pk, max, by_default))?);
            valid.push(if by_default { (1..=max).collect() } else { BTreeSet::new() });
            Some(1 + g.below(max as usize) as u32)
        } else {
            None
        };
        let who = "CnEDk9HrMnmiHXEV1WFgbVCRteYnPqsJwrTdcZaNhFVW";
        // an altered request
        {
            let mut bad = b.clone();
            let (mut bn, which) = (n1.clone(), g.draw(2));
            let what = match which {
                0 => alter(g, &b.secrets, &[]).map(|(t, p)| {
                    bad.secrets = t;
                    format!("blinded secrets, {}", p)
                }),
                1 => alter(g, &b.proof, &[]).map(|(t, p)| {
                    bad.proof = t;
                    format!("proof of blinded secrets, {}", p)
                }),
                _ => {
                    bn = ok("nonce", nat::B.nonce())?;
                    Some("another nonce".to_string())
                }
            };
            if let Some(w) = what {
                both_refuse(g, &w, |c| c.sign(who, &bad, &bn, &n2, &known, &iss.pk, &iss.sk, regs.get(i).map(|r| (r, idx.unwrap()))).map(|_| true))?;
            }
        }
        let (sig, scp, state, delta) = ok("sign", side!().sign(who, &b, &n1, &n2, &known, &iss.pk, &iss.sk, regs.get(i).map(|r| (r, idx.unwrap()))))?;
        let mut rev = None;
        if let (Some(idx), Some(state)) = (idx, state) {
            let before = regs[i].state.clone();
            regs[i].state = state;
            ensure!(delta.is_some() == !regs[i].by_default, "delta", "signing for a registry gave the delta {:?}", delta);
            valid[i].insert(idx);
            if let Some(d) = &delta {
                let one: BTreeSet<u32> = Some(idx).into_iter().collect();
                let want = ok("delta", side!().delta(Some(&before), &regs[i].state, &one, &BTreeSet::new()))?;
                ensure!(ok("delta", side!().same("deltas", d, &want))?, "delta", "signing gave the delta {}, from_parts gives {}", d, want);
            }
            let full = full(g.pick(&BUILDS), &regs[i], &valid[i])?;
            let w: Vec<S> = BUILDS.iter().map(|c| ok("witness", c.witness(idx, &regs[i], &full))).collect::<Result<_, _>>()?;
            ensure!(ok("same", side!().same("witnesses", &w[0], &w[1]))?, "witness", "the builds compute the witnesses {} and {}", w[0], w[1]);
            rev = Some((regs[i].key.clone(), regs[i].state.clone(), w[g.below(2)].clone()));
        }
        let rv = rev.as_ref().map(|(a, b, c)| (a.as_str(), b.as_str(), c.as_str()));
        {
            let (mut bsig, mut bscp, mut bn) = (sig.clone(), scp.clone(), n2.clone());
            let what = match g.draw(2) {
                0 => alter(g, &sig, &["r_credential"]).map(|(t, p)| {
                    bsig = t;
                    format!("signature, {}", p)
                }),
                1 => alter(g, &scp, &[]).map(|(t, p)| {
                    bscp = t;
                    format!("signature proof, {}", p)
                }),
                _ => {
                    bn = ok("nonce", por::B.nonce())?;
                    Some("another issuance nonce".to_string())
                }
            };
            if let Some(w) = what {
                both_refuse(g, &w, |c| c.process(&bsig, &values, &bscp, &b.factors, &iss.pk, &bn, rv).map(|_| true))?;
            }
        }
        let sig = ok("process", side!().process(&sig, &values, &scp, &b.factors, &iss.pk, &n2, rv))?;
        creds.push(Cred { iss: i, vals, values, sig, rev: idx.map(|x| (i, x)) });
    }
    // the registries move on; the witness follows the deltas or is computed anew
    let mut wits: Vec<Option<S>> = vec![];
    for c in &creds {
        let (i, idx) = match c.rev {
            None => {
                wits.push(None);
                continue;
            }
            Some(x) => x,
        };
        let base = full(g.pick(&BUILDS), &regs[i], &valid[i])?;
        let mut w = ok("witness", side!().witness(idx, &regs[i], &base))?;
        let mut total: Option<S> = None;
        for _ in 0..g.draw(3) {
            let all: Vec<u32> = (1..=regs[i].max).filter(|x| *x != idx).collect();
            let flip: Vec<u32> = g.subset(all.len()).into_iter().map(|k| all[k]).collect();
            let issued: BTreeSet<u32> = flip.iter().filter(|x| !valid[i].contains(x)).cloned().collect();
            let revoked: BTreeSet<u32> = flip.iter().filter(|x| valid[i].contains(x)).cloned().collect();
            let how = if issued.len() + revoked.len() == 1 { if revoked.len() == 1 { g.draw(1) * 2 } else { 1 + g.draw(1) } } else { 2 };
            let r: Vec<(S, S)> = BUILDS.iter().map(|c| ok("change", c.change(how, &regs[i], &issued, &revoked))).collect::<Result<_, _>>()?;
            ensure!(ok("same", side!().same("registries", &r[0].0, &r[1].0))?, "registry", "the builds take the registry to {} and {}", r[0].0, r[1].0);
            ensure!(ok("same", side!().same("deltas", &r[0].1, &r[1].1))?, "delta", "the builds give the deltas {} and {}", r[0].1, r[1].1);
            let (st, d) = r[g.below(2)].clone();
            regs[i].state = st;
            for x in &issued {
                valid[i].insert(*x);
            }
            for x in &revoked {
                valid[i].remove(x);
            }
            total = Some(match total {
                None => d,
                Some(t) => {
                    let m: Vec<S> = BUILDS.iter().map(|c| ok("merge", c.merge(&t, &d))).collect::<Result<_, _>>()?;
                    ensure!(ok("same", side!().same("deltas", &m[0], &m[1]))?, "merge", "the builds merge to {} and {}", m[0], m[1]);
                    m[g.below(2)].clone()
                }
            });
        }
        if let Some(t) = total {
            let u: Vec<S> = BUILDS.iter().map(|c| ok("witness-update", c.witness_update(&w, idx, &regs[i], &t))).collect::<Result<_, _>>()?;
            ensure!(ok("same", side!().same("witnesses", &u[0], &u[1]))?, "witness", "the builds update the witness to {} and {}", u[0], u[1]);
            w = u[g.below(2)].clone();
        }
        wits.push(Some(w));
    }
    // presentation
    let mut shows = vec![];
    for (c, w) in creds.iter().zip(&wits) {
        let iss = &isss[c.iss];
        let (mut revealed, mut preds) = (vec![], vec![]);
        for a in &iss.attrs {
            let v: Option<i32> = c.vals[a].to_string().parse().ok();
            match (g.draw(2), v) {
                (0, _) => revealed.push(a.clone()),
                (1, Some(v)) => {
                    let d = g.draw(2) as i32;
                    match g.draw(3) {
                        0 => preds.push((a.clone(), "GE", v.saturating_sub(d))),
                        1 => preds.push((a.clone(), "LE", v.saturating_add(d))),
                        2 if v > i32::MIN => preds.push((a.clone(), "GT", v.saturating_sub(d + 1))),
                        3 if v < i32::MAX => preds.push((a.clone(), "LT", v.saturating_add(d + 1))),
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        let rev = match (c.rev, w) {
            (Some((i, _)), Some(w)) if g.chance(3, 4) => Some((regs[i].key.clone(), regs[i].state.clone(), w.clone())),
            _ => None,
        };
        shows.push(Show { attrs: iss.attrs.clone(), non: vec![MS.into()], pk: iss.pk.clone(), sig: c.sig.clone(), values: c.values.clone(), revealed, preds, rev });
    }
    let common: Vec<S> = if g.bool() { vec![MS.into()] } else { vec![] };
    let nonce = ok("nonce", side!().nonce())?;
    let by = side!();
    let proof = ok("present", by.present(&shows, &common, &nonce))?;
    g.label(format!("presented by the {} build", by.name()));
    g.label(if shows.iter().any(|s| s.rev.is_some()) { "non-revocation" } else { "primary only" });
    for s in &shows {
        for p in &s.preds {
            g.label(p.1);
        }
    }
    g.show(format!("{} credential(s), steps run by OpenSSL {} and portable {}, revealed {:?}, predicates {:?}", creds.len(), used[0], used[1], shows.iter().map(|s| s.revealed.len()).collect::<Vec<_>>(), shows.iter().map(|s| s.preds.clone()).collect::<Vec<_>>()));
    for b in BUILDS.iter() {
        let r = no_panic(|| b.verify(&shows, &common, &proof, &nonce));
        ensure!(matches!(r, Ok(Ok(true))), "honest-proof-refused", "a proof made by the {} build is refused by the {} build: {:?}", by.name(), b.name(), r);
        g.eval();
    }
    if used[0] > 0 && used[1] > 0 {
        g.nontrivial();
    }
    // alterations
    for _ in 0..3 {
        match g.draw(4) {
            0 => {
                let other = ok("nonce", side!().nonce())?;
                both_refuse(g, "another nonce", |c| c.verify(&shows, &common, &proof, &other))?
            }
            1 if shows.iter().any(|s| !s.preds.is_empty()) => {
                let mut s2 = shows.clone();
                let k = s2.iter().position(|s| !s.preds.is_empty()).unwrap();
                let p = &mut s2[k].preds[0];
                p.2 = if p.2 == i32::MAX { p.2 - 1 } else { p.2 + 1 };
                both_refuse(g, "another predicate value", |c| c.verify(&s2, &common, &proof, &nonce))?
            }
            2 if shows.iter().any(|s| !s.revealed.is_empty()) => {
                let mut s2 = shows.clone();
                let k = s2.iter().position(|s| !s.revealed.is_empty()).unwrap();
                s2[k].revealed.remove(0);
                both_refuse(g, "a request for one attribute less", |c| c.verify(&s2, &common, &proof, &nonce))?
            }
            _ => {
                if let Some((t, p)) = alter(g, &proof, &["non_revoc_proof", "predicate"]) {
                    both_refuse(g, &format!("proof, {}", p), |c| c.verify(&shows, &common, &t, &nonce))?
                }
            }
        }
    }
    Ok(())
}

macro_rules! shares {
    ($m:ident, $k:ident) => {
        mod $m {
            use super::*;
            use $k::bn::BigNumber;
            use $k::sharing::shamir::*;
            fn b(x: &BigInt) -> BigNumber {
                BigNumber::from_dec(&x.to_string()).unwrap()
            }
            pub fn split(t: usize, n: usize, p: &BigInt, secret: &[u8]) -> Res<Vec<Vec<u8>>> {
                split_secret(secret, t as u8, n as u8, &b(p)).map(|v| v.iter().map(|s| s.to_bytes()).collect()).map_err(|e| format!("{:?}", e))
            }
            pub fn combine(p: &BigInt, shares: &[Vec<u8>]) -> Res<Vec<u8>> {
                let mut v = vec![];
                for s in shares {
                    v.push(Share::from_bytes(s, &b(p)).map_err(|e| format!("{:?}", e))?);
                }
                combine_shares(v.as_slice(), &b(p)).map_err(|e| format!("{:?}", e))
            }
        }
    };
}
shares!(nsh, ursa_native);
shares!(psh, ursa_portable);

/// shares of one build are combined by the other; any shares give the same result in both
fn sharing(g: &mut G) -> R {
    let one = BigInt::from(1);
    let primes: [BigInt; 8] = [
        BigInt::from(11),
        BigInt::from(257),
        BigInt::from(65537),
        (&one << 61usize) - &one,
        (&one << 127usize) - &one,
        (&one << 255usize) - BigInt::from(19),
        (&one << 521usize) - &one,
        (&one << 1279usize) - &one,
    ];
    let p = g.pick(&primes).clone();
    let n = g.range(2, 9);
    let t = g.range(2, n);
    let len = (p.bits() as usize + 7) / 8;
    let raw = g.bytes(1, len);
    let x = BigInt::from_bytes_be(Sign::Plus, &raw) % &p;
    let secret = x.to_bytes_be().1;
    let by = g.below(2);
    let sh = ok("split", if by == 0 { nsh::split(t, n, &p, &secret) } else { psh::split(t, n, &p, &secret) })?;
    g.label(if by == 0 { "split by the OpenSSL build" } else { "split by the portable build" });
    g.show(format!("{} of {} over {}, secret {}", t, n, p, hex(&secret)));
    ensure!(sh.len() == n, "share-count", "{} shares for {}", sh.len(), n);
    let k = g.range(t, n);
    let mut some: Vec<Vec<u8>> = g.subset_k(n, k).into_iter().map(|i| sh[i].clone()).collect();
    g.shuffle(&mut some);
    let both = |s: &[Vec<u8>]| -> Result<(Res<Vec<u8>>, Res<Vec<u8>>), Fail> {
        let r = (no_panic(|| nsh::combine(&p, s)), no_panic(|| psh::combine(&p, s)));
        match r {
            (Ok(a), Ok(b)) => Ok((a, b)),
            (a, b) => fail("combine-panics", format!("combining {:?} over {}: OpenSSL {:?}, portable {:?}", s, p, a, b)),
        }
    };
    let strip = |v: &[u8]| BigInt::from_bytes_be(Sign::Plus, v);
    let (a, b) = both(&some)?;
    for (name, r) in &[("OpenSSL", &a), ("portable", &b)] {
        match r {
            Ok(v) => ensure!(strip(v) == x, "combine", "the {} build combines to {} instead of {}", name, hex(v), x),
            // a polynomial may take the value zero everywhere that was picked
            Err(m) => ensure!(x == BigInt::from(0), "combine", "the {} build refuses honest shares: {}", name, m),
        }
        g.eval();
    }
    g.nontrivial();
    // anything else: the same answer in both
    let mut odd = some.clone();
    let i = g.below(odd.len());
    match g.draw(4) {
        0 => {
            let l = odd[i].len();
            let j = g.below(l);
            odd[i][j] ^= 1 << g.below(8);
        }
        1 => odd.truncate(t - 1),
        2 => {
            let x = odd[i].clone();
            odd.push(x);
        }
        3 => {
            let l = odd[i].len();
            let m = g.below(l + 1);
            odd[i].truncate(m);
        }
        _ => odd[i] = g.bytes(0, 40),
    }
    let (a, b) = both(&odd)?;
    let same = match (&a, &b) {
        (Ok(x), Ok(y)) => strip(x) == strip(y),
        (Err(_), Err(_)) => true,
        _ => false,
    };
    ensure!(same, "combine-differs", "the shares {:?} over {} combine to {:?} in the OpenSSL build and {:?} in the portable one", odd.iter().map(|x| hex(x)).collect::<Vec<_>>(), p, a, b);
    g.eval();
    Ok(())
}

/// the delta from the empty start to the current state
fn full(c: &&dyn Cl, reg: &Reg, valid: &BTreeSet<u32>) -> Result<S, Fail> {
    let (mut issued, mut revoked) = (BTreeSet::new(), BTreeSet::new());
    if reg.by_default {
        revoked = (1..=reg.max).filter(|i| !valid.contains(i)).collect();
    } else {
        issued = valid.clone();
    }
    ok("delta", c.delta(None, &reg.state, &issued, &revoked))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C10",
        rule: "the steps of the history were divided between both builds and the final proof was decided by both, or the shares of one build were combined by both",
        assumptions: vec!["issuer keys are built from fixture 512-bit safe primes by the definition of the key and its proof"],
        subs: vec![sub("flow", 400, 12000, 20, flow), sub("sharing", 2000, 100000, 500, sharing)],
    }]
}
