//! A world of credential issuers, holders and verifiers for the CL properties: issuer keys are built
//! from fixture safe primes (through the keys' own JSON form), everything else goes through the API.
use num_bigint::{BigInt, BigUint, Sign};
use pbt::*;
use rand_chacha::rand_core::{RngCore, SeedableRng};
use rand_chacha::ChaChaRng;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use ursa::bn::BigNumber;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::verifier::Verifier;
use ursa::cl::*;
use ursa::pair::{GroupOrderElement, PointG1, PointG2};

lazy_static::lazy_static! {
    pub static ref P512: Vec<BigUint> = primes(128);
    pub static ref P1024: Vec<BigUint> = primes(256);
}
fn primes(l: usize) -> Vec<BigUint> {
    include_str!("../fixtures/safe_primes.txt").lines().map(|s| s.trim()).filter(|s| s.len() == l).map(|s| BigUint::parse_bytes(s.as_bytes(), 16).unwrap()).collect()
}
thread_local! { static NONCES: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
/// A nonce of the size this case works with: a verifier need not use `new_nonce`, any number will do.
pub fn some_nonce() -> Nonce {
    let bits = NONCES.with(|c| c.get());
    if bits == 0 {
        return new_nonce().unwrap();
    }
    let mut x = BigInt::from(0);
    for _ in 0..(bits + 79) / 80 {
        x = (x << 80usize) + big(&new_nonce().unwrap());
    }
    bn(&((x % (BigInt::from(1) << bits)) | BigInt::from(1) << (bits - 1)))
}
/// Numbers that are not `n` but close to it in one way or another
pub fn other_nonces(g: &mut G, n: &Nonce) -> Vec<Nonce> {
    let x = big(n);
    let bits = x.magnitude().bits() as usize;
    let flip = |k: usize| {
        let m = BigInt::from(1) << k;
        if (&x >> k) % 2 == BigInt::from(1) {
            &x - m
        } else {
            &x + m
        }
    };
    let mut v = vec![flip(0), flip(g.below(bits.max(1))), flip(bits.max(1) - 1), flip(bits + g.below(16)), &x << 8usize, &x >> 8usize, &x + BigInt::from(1), BigInt::from(0)];
    if bits > 16 {
        v.push(flip(g.below(16)));
        v.push(flip(bits - 1 - g.below(16)));
    }
    v.retain(|y| *y != x);
    v.iter().map(bn).chain(vec![some_nonce()]).collect()
}
pub fn big(b: &BigNumber) -> BigInt {
    BigInt::parse_bytes(b.to_dec().unwrap().as_bytes(), 10).unwrap()
}
pub fn bn(x: &BigInt) -> BigNumber {
    BigNumber::from_dec(&x.to_string()).unwrap()
}
pub fn from<T: DeserializeOwned>(v: Value) -> T {
    serde_json::from_value(v).unwrap_or_else(|e| panic!("fixture JSON: {}", e))
}
pub fn try_from<T: DeserializeOwned>(v: &Value) -> Result<T, String> {
    // through text, as a received message would come
    let t = serde_json::to_string(v).unwrap();
    serde_json::from_str(&t).map_err(|e| e.to_string())
}
pub fn js<T: Serialize>(x: &T) -> Value {
    serde_json::from_str(&serde_json::to_string(x).expect("serialization")).expect("own JSON")
}
pub fn e<T, E: Debug>(sig: &str, what: &str, r: Result<T, E>) -> Result<T, Fail> {
    r.map_err(|x| Fail { sig: sig.into(), msg: format!("{}: {:?}", what, x) })
}
/// A copy of an object through its JSON form, which must re-encode identically.
pub fn rt<T: Serialize + DeserializeOwned>(on: bool, name: &str, x: T) -> Result<T, Fail> {
    if !on {
        return Ok(x);
    }
    let t = e("serialize", name, serde_json::to_string(&x))?;
    let sig = "deserialize-own-output";
    // every way of writing and reading the same JSON
    let y: T = match t.len() % 5 {
        0 => e(sig, name, serde_json::from_slice(&serde_json::to_vec(&x).unwrap()))?,
        1 => e(sig, name, serde_json::from_str(&serde_json::to_string_pretty(&x).unwrap()))?,
        2 => e(sig, name, serde_json::from_value(serde_json::to_value(&x).unwrap()))?,
        3 => e(sig, name, serde_json::from_reader(t.as_bytes()))?,
        _ => e(sig, name, serde_json::from_str(&t))?,
    };
    let (a, b) = (sets(js(&x)), sets(js(&y)));
    ensure!(a == b, "reencodes-differently", "{}: {} became {}", name, a, b);
    Ok(y)
}

pub struct Iss {
    pub attrs: Vec<String>,
    pub non: Vec<String>,
    pub schema: CredentialSchema,
    pub nschema: NonCredentialSchema,
    pub pk: CredentialPublicKey,
    pub sk: CredentialPrivateKey,
    pub kcp: CredentialKeyCorrectnessProof,
    pub n: BigInt,
    pub order: BigInt,
}

pub fn schema(attrs: &[String]) -> CredentialSchema {
    let mut b = Issuer::new_credential_schema_builder().unwrap();
    for a in attrs {
        b.add_attr(a).unwrap();
    }
    b.finalize().unwrap()
}
pub fn nschema(attrs: &[String]) -> NonCredentialSchema {
    let mut b = Issuer::new_non_credential_schema_builder().unwrap();
    for a in attrs {
        b.add_attr(a).unwrap();
    }
    b.finalize().unwrap()
}

pub fn rand_big(r: &mut ChaChaRng, bits: usize) -> BigUint {
    let mut v = vec![0u8; (bits + 7) / 8];
    r.fill_bytes(&mut v);
    BigUint::from_bytes_be(&v) >> (v.len() * 8 - bits)
}

pub fn sha_int(parts: &[Vec<u8>]) -> BigUint {
    let mut h = openssl::sha::Sha256::new();
    for p in parts {
        h.update(p);
    }
    BigUint::from_bytes_be(&h.finish())
}

pub fn make_issuer(g: &mut G, attrs: Vec<String>, non: Vec<String>, revocable: bool) -> Iss {
    let bits = *g.pick(&[0usize, 0, 0, 40, 128, 256, 600]);
    NONCES.with(|c| c.set(bits));
    let pool: &Vec<BigUint> = if g.chance(1, 12) { &P1024 } else { &P512 };
    let i = g.below(pool.len());
    let j = (i + 1 + g.below(pool.len() - 1)) % pool.len();
    let mut r = ChaChaRng::seed_from_u64(g.u64());
    make_issuer_with(&pool[i], &pool[j], &mut r, attrs, non, revocable)
}

pub fn make_issuer_with(ps: &BigUint, qs: &BigUint, r: &mut ChaChaRng, attrs: Vec<String>, non: Vec<String>, revocable: bool) -> Iss {
    let n = ps * qs;
    let (p, q): (BigUint, BigUint) = (ps >> 1, qs >> 1);
    let order: BigUint = &p * &q;
    let bits = order.bits() as usize;
    let x0 = rand_big(r, bits);
    let s = (&x0 * &x0) % &n;
    let mut gx = || rand_big(r, bits + 64) % &order + 2u32;
    let names: Vec<String> = non.iter().chain(attrs.iter()).cloned().collect::<BTreeSet<_>>().into_iter().collect();
    let xz = gx();
    let z = s.modpow(&xz, &n);
    let rctxt = s.modpow(&gx(), &n);
    let xs: Vec<BigUint> = names.iter().map(|_| gx()).collect();
    let rs: Vec<BigUint> = xs.iter().map(|x| s.modpow(x, &n)).collect();
    let tz = gx();
    let ts: Vec<BigUint> = names.iter().map(|_| gx()).collect();
    let mut parts = vec![z.to_bytes_be()];
    parts.extend(rs.iter().map(|x| x.to_bytes_be()));
    parts.push(s.modpow(&tz, &n).to_bytes_be());
    parts.extend(ts.iter().map(|t| s.modpow(t, &n).to_bytes_be()));
    let c = sha_int(&parts);
    let caps: Vec<Value> = (0..names.len()).map(|i| json!([names[i], (&c * &xs[i] + &ts[i]).to_string()])).collect();
    let kcp = json!({"c": c.to_string(), "xz_cap": (&c * &xz + &tz).to_string(), "xr_cap": caps});
    let rmap: serde_json::Map<String, Value> = names.iter().cloned().zip(rs.iter().map(|x| json!(x.to_string()))).collect();
    let pkey = json!({"n": n.to_string(), "s": s.to_string(), "r": rmap, "rctxt": rctxt.to_string(), "z": z.to_string()});
    let (rp, rs_) = if revocable {
        let g1 = || PointG1::new().unwrap();
        let g2 = || PointG2::new().unwrap();
        let (gg, h_cap) = (g1(), g2());
        let (x, sk) = (GroupOrderElement::new().unwrap(), GroupOrderElement::new().unwrap());
        (
            json!({"g": js(&gg), "g_dash": js(&g2()), "h": js(&g1()), "h0": js(&g1()), "h1": js(&g1()), "h2": js(&g1()), "htilde": js(&g1()),
                   "h_cap": js(&h_cap), "u": js(&g2()), "pk": js(&gg.mul(&sk).unwrap()), "y": js(&h_cap.mul(&x).unwrap())}),
            json!({"x": js(&x), "sk": js(&sk)}),
        )
    } else {
        (Value::Null, Value::Null)
    };
    Iss {
        schema: schema(&attrs),
        nschema: nschema(&non),
        attrs,
        non,
        pk: from(json!({"p_key": pkey, "r_key": rp})),
        sk: from(json!({"p_key": {"p": p.to_string(), "q": q.to_string()}, "r_key": rs_})),
        kcp: from(kcp),
        n: BigInt::from_biguint(Sign::Plus, n),
        order: BigInt::from_biguint(Sign::Plus, order),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Known,
    Hidden,
    Committed,
}
pub type Vals = BTreeMap<String, (Kind, BigInt, BigInt)>;

pub fn mk_values(g: &mut G, vals: &Vals) -> CredentialValues {
    let how = g.draw(2);
    mk_values_how(how, vals)
}
pub fn mk_values_how(how: u64, vals: &Vals) -> CredentialValues {
    if how == 2 {
        let m: serde_json::Map<String, Value> = vals
            .iter()
            .map(|(k, (kind, v, b))| {
                (k.clone(), match kind {
                    Kind::Known => json!({"Known": {"value": v.to_string()}}),
                    Kind::Hidden => json!({"Hidden": {"value": v.to_string()}}),
                    Kind::Committed => json!({"Commitment": {"value": v.to_string(), "blinding_factor": b.to_string()}}),
                })
            })
            .collect();
        return from(json!({ "attrs_values": m }));
    }
    let mut b = Issuer::new_credential_values_builder().unwrap();
    for (k, (kind, v, bl)) in vals {
        let d = v.to_string();
        match (kind, how) {
            (Kind::Known, 0) => b.add_dec_known(k, &d).unwrap(),
            (Kind::Hidden, 0) => b.add_dec_hidden(k, &d).unwrap(),
            (Kind::Committed, 0) => b.add_dec_commitment(k, &d, &bl.to_string()).unwrap(),
            (Kind::Known, _) => b.add_value_known(k, &bn(v)).unwrap(),
            (Kind::Hidden, _) => b.add_value_hidden(k, &bn(v)).unwrap(),
            (Kind::Committed, _) => b.add_value_commitment(k, &bn(v), &bn(bl)).unwrap(),
        }
    }
    b.finalize().unwrap()
}

/// An attribute value: small, negative, 32-bit edge, or up to 256 bits
pub fn value(g: &mut G) -> BigInt {
    match g.draw(5) {
        0 => BigInt::from(g.draw(200)),
        1 | 2 => BigInt::from(g.i32_edge()),
        3 => {
            let n = g.range(1, 32);
            BigInt::from_bytes_be(Sign::Plus, &g.bytes_n(n))
        }
        4 => (BigInt::from(1) << 256usize) - 1,
        _ => BigInt::from_bytes_be(Sign::Plus, &g.bytes_n(32)),
    }
}
pub fn secret256(g: &mut G) -> BigInt {
    BigInt::from_bytes_be(Sign::Plus, &g.bytes_n(32))
}

pub const NAMES: [&str; 14] = ["age", "name", "sex", "height", "status", "period", "zip code", "straße", "a", "Age", "0", "DELTA", "m2", "master"];

pub fn attr_names(g: &mut G, lo: usize, hi: usize) -> Vec<String> {
    if is_large() {
        let n = g.range(17, 40);
        return (0..n).map(|i| if i < NAMES.len() { NAMES[i].to_string() } else { format!("attribute {}", i) }).collect();
    }
    let n = g.range(lo, hi);
    g.subset_k(NAMES.len(), n).into_iter().map(|i| NAMES[i].to_string()).collect()
}

pub struct Reg {
    pub max: u32,
    pub by_default: bool,
    pub key_pub: RevocationKeyPublic,
    pub key_priv: RevocationKeyPrivate,
    pub reg: RevocationRegistry,
    pub tails: SimpleTailsAccessor,
    /// model: indices that are currently valid
    pub valid: BTreeSet<u32>,
    /// the deltas since the creation (the first takes the initial state to the second state)
    pub first: RevocationRegistry,
    pub deltas: Vec<RevocationRegistryDelta>,
}
pub fn copy<T: Serialize + DeserializeOwned>(x: &T) -> T {
    from(js(x))
}
pub fn make_reg(iss: &Iss, max: u32, by_default: bool) -> Result<Reg, Fail> {
    let (key_pub, key_priv, reg, mut gen) = e("new-registry", "new_revocation_registry_def", Issuer::new_revocation_registry_def(&iss.pk, max, by_default))?;
    let tails = e("tails", "SimpleTailsAccessor::new", SimpleTailsAccessor::new(&mut gen))?;
    Ok(Reg { max, by_default, key_pub, key_priv, first: reg.clone(), reg, tails, valid: if by_default { (1..=max).collect() } else { BTreeSet::new() }, deltas: vec![] })
}
impl Reg {
    /// the delta from the empty start to the current state, as the witness constructor wants it
    pub fn full_delta(&self) -> RevocationRegistryDelta {
        let (mut iss, mut rev) = (HashSet::new(), HashSet::new());
        if self.by_default {
            rev = (1..=self.max).filter(|i| !self.valid.contains(i)).collect();
        } else {
            iss = self.valid.iter().cloned().collect();
        }
        RevocationRegistryDelta::from_parts(None, &self.reg, &iss, &rev)
    }
    pub fn witness(&self, idx: u32) -> Result<Witness, Fail> {
        e("witness-new", "Witness::new", Witness::new(idx, self.max, self.by_default, &self.full_delta(), &self.tails))
    }
}

/// What a holder keeps after blinding
pub struct Blinded {
    pub bs: BlindedCredentialSecrets,
    pub bf: CredentialSecretsBlindingFactors,
    pub bp: BlindedCredentialSecretsCorrectnessProof,
    pub nonce: Nonce,
}
pub fn blind(iss: &Iss, cv: &CredentialValues, ser: bool) -> Result<Blinded, Fail> {
    let nonce = rt(ser, "nonce", some_nonce())?;
    let (bs, bf, bp) = e("blind-honest", "blind_credential_secrets", Prover::blind_credential_secrets(&iss.pk, &iss.kcp, cv, &nonce))?;
    Ok(Blinded { bs: rt(ser, "BlindedCredentialSecrets", bs)?, bf: rt(ser, "CredentialSecretsBlindingFactors", bf)?, bp: rt(ser, "BlindedCredentialSecretsCorrectnessProof", bp)?, nonce })
}

pub struct Cred {
    pub vals: Vals,
    pub cv: CredentialValues,
    pub sig: CredentialSignature,
    pub idx: Option<u32>,
}

pub const PROVER: &str = "CnEDk9HrMnmiHXEV1WFgbVCRteYnPqsJwrTdcZaNhFVW";

/// Runs the whole issuance honestly; any refusal is a failure.
pub fn issue(iss: &Iss, vals: Vals, mut rev: Option<(&mut Reg, u32)>, prover_id: &str, how: u64, ser: bool) -> Result<Cred, Fail> {
    let cv = mk_values_how(how, &vals);
    let b = blind(iss, &cv, ser)?;
    let inonce = some_nonce();
    // the issuer does not know the hidden and committed values
    let known: Vals = vals.iter().filter(|(_, v)| v.0 == Kind::Known).map(|(k, v)| (k.clone(), v.clone())).collect();
    let known = mk_values_how(how, &known);
    let (sig, scp) = match rev {
        None => e("sign-honest", "sign_credential", Issuer::sign_credential(prover_id, &b.bs, &b.bp, &b.nonce, &inonce, &known, &iss.pk, &iss.sk))?,
        Some((ref mut r, idx)) => {
            let before = r.reg.clone();
            let (s, p, d) = e(
                "sign-honest",
                "sign_credential_with_revoc",
                Issuer::sign_credential_with_revoc(prover_id, &b.bs, &b.bp, &b.nonce, &inonce, &known, &iss.pk, &iss.sk, idx, r.max, r.by_default, &mut r.reg, &r.key_priv, &r.tails),
            )?;
            ensure!(d.is_some() == !r.by_default, "issue-delta", "sign_credential_with_revoc(issuance_by_default={}) returned delta {:?}", r.by_default, d.is_some());
            match d {
                Some(d) => {
                    r.valid.insert(idx);
                    let d = rt(ser, "RevocationRegistryDelta", d)?;
                    check_delta(&d, &before, &r.reg, &[idx], &[])?;
                    r.deltas.push(d);
                }
                None => ensure!(js(&before) == js(&r.reg), "issue-changes-registry", "issuance by default changed the registry"),
            }
            ensure!(s.extract_index() == Some(idx), "extract-index", "extract_index() = {:?} for index {}", s.extract_index(), idx);
            (s, p)
        }
    };
    let mut sig = rt(ser, "CredentialSignature", sig)?;
    let scp = rt(ser, "SignatureCorrectnessProof", scp)?;
    let idx = rev.as_ref().map(|x| x.1);
    match rev {
        None => e("process-honest", "process_credential_signature", Prover::process_credential_signature(&mut sig, &cv, &scp, &b.bf, &iss.pk, &inonce, None, None, None))?,
        Some((ref r, idx)) => {
            let w = rt(ser, "Witness", r.witness(idx)?)?;
            e("process-honest", "process_credential_signature", Prover::process_credential_signature(&mut sig, &cv, &scp, &b.bf, &iss.pk, &inonce, Some(&r.key_pub), Some(&r.reg), Some(&w)))?
        }
    }
    Ok(Cred { vals, cv, sig: rt(ser, "CredentialSignature", sig)?, idx })
}

pub fn check_delta(d: &RevocationRegistryDelta, before: &RevocationRegistry, after: &RevocationRegistry, iss: &[u32], rev: &[u32]) -> R {
    let want = RevocationRegistryDelta::from_parts(Some(before), after, &iss.iter().cloned().collect(), &rev.iter().cloned().collect());
    ensure!(djs(d) == djs(&want), "delta-content", "the delta is {} but {} was expected", djs(d), djs(&want));
    Ok(())
}
/// sets are encoded in any order
pub fn sets(mut v: Value) -> Value {
    for k in &["issued", "revoked"] {
        if let Some(a) = v.get_mut(*k).and_then(|x| x.as_array_mut()) {
            a.sort_by_key(|x| x.as_u64());
        }
    }
    v
}
/// JSON of a delta with sorted index lists
pub fn djs(d: &RevocationRegistryDelta) -> Value {
    let mut v = js(d);
    for k in &["issued", "revoked"] {
        let mut l: Vec<u64> = v.get(k).and_then(|x| x.as_array()).map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
        l.sort();
        v[*k] = json!(l);
    }
    v
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Pred {
    pub attr: String,
    pub ty: usize,
    pub val: i32,
}
pub const PT: [&str; 4] = ["GE", "LE", "GT", "LT"];
impl Pred {
    pub fn holds(&self, v: &BigInt) -> bool {
        let x = BigInt::from(self.val);
        match self.ty {
            0 => v >= &x,
            1 => v <= &x,
            2 => v > &x,
            _ => v < &x,
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct Req {
    pub revealed: BTreeSet<String>,
    pub preds: BTreeSet<Pred>,
}
impl Req {
    pub fn lib(&self) -> SubProofRequest {
        let mut b = Verifier::new_sub_proof_request_builder().unwrap();
        for a in &self.revealed {
            b.add_revealed_attr(a).unwrap();
        }
        for p in &self.preds {
            b.add_predicate(&p.attr, PT[p.ty], p.val).unwrap();
        }
        b.finalize().unwrap()
    }
    pub fn json(&self) -> SubProofRequest {
        let ps: Vec<Value> = self.preds.iter().map(|p| json!({"attr_name": p.attr, "p_type": PT[p.ty], "value": p.val})).collect();
        from(json!({"revealed_attrs": self.revealed, "predicates": ps}))
    }
}

/// a predicate that holds (or does not) for v
pub fn pred_for(g: &mut G, attr: &str, v: i32, holds: bool) -> Option<Pred> {
    for _ in 0..8 {
        let ty = g.below(4);
        let val = match g.draw(3) {
            0 => g.i32_edge(),
            _ => {
                let d = g.draw(4) as i64 - 2;
                let x = v as i64 + d;
                if x < i32::MIN as i64 || x > i32::MAX as i64 {
                    continue;
                }
                x as i32
            }
        };
        let p = Pred { attr: attr.into(), ty, val };
        if p.holds(&BigInt::from(v)) == holds {
            return Some(p);
        }
    }
    None
}
pub fn as_i32(v: &BigInt) -> Option<i32> {
    v.to_string().parse().ok()
}

/// a request that the credential satisfies; attributes in `keep` are neither revealed nor compared
pub fn request(g: &mut G, iss: &Iss, vals: &Vals, keep: &[String]) -> Req {
    let mut q = Req::default();
    for a in &iss.attrs {
        if keep.contains(a) {
            continue;
        }
        match g.draw(3) {
            0 => {
                q.revealed.insert(a.clone());
            }
            1 => {
                if let Some(v) = as_i32(&vals[a].1) {
                    for _ in 0..(1 + g.draw(4) / 4) {
                        if let Some(p) = pred_for(g, a, v, true) {
                            q.preds.insert(p);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    q
}

pub struct Show<'a> {
    pub iss: &'a Iss,
    pub cred: &'a Cred,
    pub req: Req,
    /// registry and witness when the proof should include non-revocation
    pub rev: Option<(&'a Reg, Witness)>,
}
pub fn present(shows: &[Show], common: &[String], nonce: &Nonce) -> Result<Proof, String> {
    let mut b = Prover::new_proof_builder().unwrap();
    for c in common {
        b.add_common_attribute(c).map_err(|e| format!("add_common_attribute: {:?}", e))?;
    }
    for s in shows {
        let (r, w) = match &s.rev {
            Some((r, w)) => (Some(&r.reg), Some(w)),
            None => (None, None),
        };
        b.add_sub_proof_request(&s.req.lib(), &s.iss.schema, &s.iss.nschema, &s.cred.sig, &s.cred.cv, &s.iss.pk, r, w).map_err(|e| format!("add_sub_proof_request: {:?}", e))?;
    }
    b.finalize(nonce).map_err(|e| format!("finalize: {:?}", e))
}
pub fn verifier(shows: &[Show], common: &[String]) -> Result<verifier::ProofVerifier, String> {
    let mut v = Verifier::new_proof_verifier().unwrap();
    for c in common {
        v.add_common_attribute(c).map_err(|e| format!("{:?}", e))?;
    }
    for s in shows {
        let (k, r) = match &s.rev {
            Some((r, _)) => (Some(&r.key_pub), Some(&r.reg)),
            None => (None, None),
        };
        v.add_sub_proof_request(&s.req.json(), &s.iss.schema, &s.iss.nschema, &s.iss.pk, k, r).map_err(|e| format!("add_sub_proof_request: {:?}", e))?;
    }
    Ok(v)
}
pub fn accepted(v: &mut verifier::ProofVerifier, p: &Proof, nonce: &Nonce) -> Result<bool, Fail> {
    match no_panic(|| v.verify(p, nonce)) {
        Err(m) => fail("verify-panics", format!("ProofVerifier::verify aborted: {}", m)),
        Ok(Ok(b)) => Ok(b),
        Ok(Err(_)) => Ok(false),
    }
}
