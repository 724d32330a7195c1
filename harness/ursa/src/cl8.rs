//! C08: JSON forms of the credential objects
use crate::cl1::{churn, gen_vals, ms};
use crate::clw::*;
use crate::forge::{all_leaves, at, is_num, mutate, restructure, short};
use num_bigint::{BigInt, Sign};
use pbt::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;
use ursa::bn::BigNumber;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::*;
use ursa::pair::{GroupOrderElement, Pair, PointG1, PointG2};

/// Every JSON message and stored object of one complete run, by type
fn collect(g: &mut G, through: bool) -> Result<Vec<(&'static str, String)>, Fail> {
    let mut out: Vec<(&'static str, String)> = vec![];
    macro_rules! keep {
        ($n:expr, $x:expr) => {{
            let x = $x;
            out.push(($n, serde_json::to_string(&x).unwrap()));
            rt(through, $n, x)?
        }};
    }
    let mut b = Issuer::new_credential_schema_builder().unwrap();
    let attrs = {
        let mut a = attr_names(g, 1, 5);
        if !a.iter().any(|x| x == "age") {
            a.push("age".into());
        }
        a
    };
    for a in &attrs {
        b = keep!("CredentialSchemaBuilder", b);
        b.add_attr(a).unwrap();
    }
    let schema_ = keep!("CredentialSchema", b.finalize().unwrap());
    let mut b = Issuer::new_non_credential_schema_builder().unwrap();
    b = keep!("NonCredentialSchemaBuilder", b);
    b.add_attr(&ms()).unwrap();
    b = keep!("NonCredentialSchemaBuilder", b);
    let nschema_ = keep!("NonCredentialSchema", b.finalize().unwrap());
    let mut iss = make_issuer(g, attrs, vec![ms()], true);
    ensure!(js(&iss.schema) == js(&schema_) && js(&iss.nschema) == js(&nschema_), "reencodes-differently", "a schema built through JSON differs");
    iss.schema = schema_;
    iss.nschema = nschema_;
    iss.pk = keep!("CredentialPublicKey", iss.pk);
    iss.sk = keep!("CredentialPrivateKey", iss.sk);
    iss.kcp = keep!("CredentialKeyCorrectnessProof", iss.kcp);
    let master = keep!("MasterSecret", Prover::new_master_secret().unwrap());
    let mut vals = gen_vals(g, &iss, &big(&master.value().unwrap()), false);
    vals.insert("age".into(), (Kind::Known, BigInt::from(g.i32_edge()), BigInt::from(0)));
    let max = 1 + g.draw(4) as u32;
    let by_default = g.bool();
    let (kp, ks, reg, gen) = e("new-registry", "new_revocation_registry_def", Issuer::new_revocation_registry_def(&iss.pk, max, by_default))?;
    let mut gen = keep!("RevocationTailsGenerator", gen);
    let tails = SimpleTailsAccessor::new(&mut gen).unwrap();
    let reg = keep!("RevocationRegistry", reg);
    let mut r = Reg {
        max,
        by_default,
        key_pub: keep!("RevocationKeyPublic", kp),
        key_priv: keep!("RevocationKeyPrivate", ks),
        first: reg.clone(),
        reg,
        tails,
        valid: if by_default { (1..=max).collect() } else { Default::default() },
        deltas: vec![],
    };
    let idx = 1 + g.draw(max as u64 - 1) as u32;
    if !by_default {
        let n = g.below(3);
        churn(g, &mut r, &[idx], n)?;
    }
    // values: built in steps, each step through JSON
    let mut b = Issuer::new_credential_values_builder().unwrap();
    for (k, (kind, v, bl)) in &vals {
        match kind {
            Kind::Known => b.add_dec_known(k, &v.to_string()).unwrap(),
            Kind::Hidden => b.add_dec_hidden(k, &v.to_string()).unwrap(),
            Kind::Committed => b.add_dec_commitment(k, &v.to_string(), &bl.to_string()).unwrap(),
        }
        b = keep!("CredentialValuesBuilder", b);
    }
    let cvj = serde_json::to_string(&b).unwrap();
    let built = b.finalize().unwrap();
    // the text of the values is also what a finished set of values is read from
    let cv: CredentialValues = if through { serde_json::from_str(&cvj).map_err(|x| Fail { sig: "deserialize-own-output".into(), msg: format!("CredentialValues: {}", x) })? } else { built };
    out.push(("CredentialValues", cvj));
    let nonce = keep!("Nonce", new_nonce().unwrap());
    let (bs, bf, bp) = e("blind-honest", "blind_credential_secrets", Prover::blind_credential_secrets(&iss.pk, &iss.kcp, &cv, &nonce))?;
    let bs = keep!("BlindedCredentialSecrets", bs);
    let bf = keep!("CredentialSecretsBlindingFactors", bf);
    let bp = keep!("BlindedCredentialSecretsCorrectnessProof", bp);
    let known: Vals = vals.iter().filter(|(_, v)| v.0 == Kind::Known).map(|(k, v)| (k.clone(), v.clone())).collect();
    let known = mk_values_how(2, &known);
    let inonce = keep!("Nonce", new_nonce().unwrap());
    let (s, p, d) = e(
        "sign-honest",
        "sign_credential_with_revoc",
        Issuer::sign_credential_with_revoc(PROVER, &bs, &bp, &nonce, &inonce, &known, &iss.pk, &iss.sk, idx, max, by_default, &mut r.reg, &r.key_priv, &r.tails),
    )?;
    if let Some(d) = d {
        r.valid.insert(idx);
        r.deltas.push(keep!("RevocationRegistryDelta", d));
    }
    r.reg = keep!("RevocationRegistry", r.reg);
    let mut sig = keep!("CredentialSignature", s);
    let scp = keep!("SignatureCorrectnessProof", p);
    let mut w = keep!("Witness", r.witness(idx)?);
    e("process-honest", "process_credential_signature", Prover::process_credential_signature(&mut sig, &cv, &scp, &bf, &iss.pk, &inonce, Some(&r.key_pub), Some(&r.reg), Some(&w)))?;
    let sig = keep!("CredentialSignature", sig);
    // the registry moves on and the holder follows
    let at_ = r.deltas.len();
    let n = g.below(4);
    churn(g, &mut r, &[idx], n)?;
    r.reg = keep!("RevocationRegistry", r.reg);
    for d in r.deltas[at_..].to_vec() {
        let d = keep!("RevocationRegistryDelta", d);
        e("witness-update", "Witness::update", w.update(idx, max, &d, &r.tails))?;
        w = keep!("Witness", w);
    }
    out.push(("RevocationRegistryDelta", serde_json::to_string(&r.full_delta()).unwrap()));
    let cred = Cred { vals, cv, sig, idx: Some(idx) };
    let mut req = request(g, &iss, &cred.vals, &["age".into()]);
    let age = as_i32(&cred.vals["age"].1).unwrap();
    for _ in 0..3 {
        if let Some(p) = pred_for(g, "age", age, true) {
            let ty: PredicateType = from(json!(PT[p.ty]));
            keep!("PredicateType", ty);
            let pr: Predicate = from(json!({"attr_name": p.attr, "p_type": PT[p.ty], "value": p.val}));
            keep!("Predicate", pr);
            req.preds.insert(p);
        }
    }
    let ps: Vec<Value> = req.preds.iter().map(|p| json!({"attr_name": p.attr, "p_type": PT[p.ty], "value": p.val})).collect();
    out.push(("SubProofRequest", json!({"revealed_attrs": req.revealed, "predicates": ps}).to_string()));
    let shows = [Show { iss: &iss, cred: &cred, req, rev: Some((&r, w)) }];
    let pn = keep!("Nonce", new_nonce().unwrap());
    let p = present(&shows, &[ms()], &pn).map_err(|m| Fail { sig: "present-honest".into(), msg: m })?;
    let p = keep!("Proof", p);
    let mut v = verifier(&shows, &[ms()]).map_err(|m| Fail { sig: "verifier-honest".into(), msg: m })?;
    ensure!(matches!(v.verify(&p, &pn), Ok(true)), "honest-rejected", "a presentation whose objects all went through JSON is not accepted");
    for (sp, s) in p.proofs.iter().zip(&shows) {
        let got = sp.revealed_attrs().unwrap();
        let want: HashMap<String, String> = s.req.revealed.iter().map(|a| (a.clone(), s.cred.vals[a].1.to_string())).collect();
        ensure!(got == want, "revealed-values", "revealed_attrs() = {:?}, issued values are {:?}", got, want);
    }
    g.eval();
    Ok(out)
}

fn again<T: Serialize + DeserializeOwned>(s: &str, how: usize) -> Result<Option<String>, Fail> {
    let x: Result<T, serde_json::Error> = match how {
        0 => serde_json::from_str(s),
        1 => serde_json::from_slice(s.as_bytes()),
        2 => serde_json::from_reader(s.as_bytes()),
        _ => serde_json::from_str::<Value>(s).and_then(serde_json::from_value),
    };
    match x {
        Err(_) => Ok(None),
        Ok(x) => {
            let t = e("serialize", "an object that was decoded", serde_json::to_string(&x))?;
            let y: T = e("deserialize-own-output", "the encoding of a decoded object", serde_json::from_str(&t))?;
            let u = e("serialize", "an object that was decoded", serde_json::to_string(&y))?;
            let (a, b) = (sets(serde_json::from_str(&t).unwrap()), sets(serde_json::from_str(&u).unwrap()));
            ensure!(a == b, "reencodes-differently", "{} became {}", t, u);
            Ok(Some(t))
        }
    }
}
/// Only decoded, there is no encoder
fn decode<T: DeserializeOwned>(s: &str, how: usize) -> Result<Option<String>, Fail> {
    let ok = match how {
        0 | 1 => serde_json::from_slice::<T>(s.as_bytes()).is_ok(),
        2 => serde_json::from_reader::<_, T>(s.as_bytes()).is_ok(),
        _ => serde_json::from_str::<Value>(s).and_then(serde_json::from_value::<T>).is_ok(),
    };
    Ok(if ok { Some(s.to_string()) } else { None })
}
const TYPES: [&str; 33] = [
    "CredentialSchemaBuilder", "CredentialSchema", "NonCredentialSchemaBuilder", "NonCredentialSchema", "CredentialPublicKey", "CredentialPrivateKey", "CredentialKeyCorrectnessProof", "MasterSecret",
    "RevocationTailsGenerator", "RevocationRegistry", "RevocationKeyPublic", "RevocationKeyPrivate", "CredentialValuesBuilder", "CredentialValues", "Nonce", "BlindedCredentialSecrets",
    "CredentialSecretsBlindingFactors", "BlindedCredentialSecretsCorrectnessProof", "RevocationRegistryDelta", "CredentialSignature", "SignatureCorrectnessProof", "Witness", "PredicateType", "Predicate",
    "SubProofRequest", "Proof", "CredentialValue", "AggregatedProof", "SubProof", "PointG1", "PointG2", "GroupOrderElement", "Pair",
];
fn reread(ty: &str, s: &str, how: usize) -> Result<Option<String>, Fail> {
    macro_rules! ts {
        ($($t:ident),*) => { match ty { $(stringify!($t) => again::<$t>(s, how),)* "CredentialValues" => decode::<CredentialValues>(s, how), "SubProofRequest" => decode::<SubProofRequest>(s, how), _ => unreachable!("{}", ty) } }
    }
    let r = no_panic(|| {
        ts!(
            CredentialSchemaBuilder, CredentialSchema, NonCredentialSchemaBuilder, NonCredentialSchema, CredentialPublicKey, CredentialPrivateKey, CredentialKeyCorrectnessProof, MasterSecret,
            RevocationTailsGenerator, RevocationRegistry, RevocationKeyPublic, RevocationKeyPrivate, CredentialValuesBuilder, Nonce, BlindedCredentialSecrets, CredentialSecretsBlindingFactors,
            BlindedCredentialSecretsCorrectnessProof, RevocationRegistryDelta, CredentialSignature, SignatureCorrectnessProof, Witness, PredicateType, Predicate, Proof, CredentialValue, AggregatedProof,
            SubProof, PointG1, PointG2, GroupOrderElement, Pair
        )
    });
    match r {
        Ok(x) => x,
        Err(m) => fail("decode-panics", format!("decoding {} from {:?} aborted: {}", ty, s.chars().take(400).collect::<String>(), m)),
    }
}

fn objects(g: &mut G) -> R {
    let all = collect(g, true)?;
    g.nontrivial();
    for (ty, s) in &all {
        g.eval();
        g.label(*ty);
        let how = g.below(4);
        match reread(ty, s, how)? {
            None => return fail("deserialize-own-output", format!("{} does not decode: {}", ty, s)),
            Some(t) => ensure!(sets(serde_json::from_str(&t).unwrap()) == sets(serde_json::from_str(s).unwrap()), "reencodes-differently", "{}: {} became {}", ty, s, t),
        }
        // the order of the members and blanks mean nothing
        let sp = scrambled(g, &serde_json::from_str(s).unwrap());
        match reread(ty, &sp, how)? {
            None => return fail("deserialize-own-output", format!("{} does not decode when laid out differently: {}", ty, sp)),
            Some(t) => ensure!(sets(serde_json::from_str(&t).unwrap()) == sets(serde_json::from_str(s).unwrap()), "reencodes-differently", "{}: {} became {}", ty, sp, t),
        }
    }
    Ok(())
}
/// The same JSON with its members in another order and other blanks; strings may be written with escapes
fn scrambled(g: &mut G, v: &Value) -> String {
    let sp = *g.pick(&["", " ", "\n\t "]);
    match v {
        Value::Object(m) => {
            let mut ks: Vec<&String> = m.keys().collect();
            g.shuffle(&mut ks);
            let l: Vec<String> = ks.into_iter().map(|k| format!("{}{}{}:{}{}", sp, json!(k), sp, sp, scrambled(g, &m[k]))).collect();
            format!("{{{}{}}}", l.join(","), sp)
        }
        Value::Array(a) => {
            let l: Vec<String> = a.iter().map(|x| format!("{}{}{}", sp, scrambled(g, x), sp)).collect();
            format!("[{}]", l.join(","))
        }
        Value::String(s) if g.chance(1, 3) => format!("\"{}\"", s.encode_utf16().map(|c| format!("\\u{:04x}", c)).collect::<String>()),
        x => x.to_string(),
    }
}

/// Decimal values: what goes in comes out
fn decimal(g: &mut G) -> R {
    let v = match g.draw(6) {
        0 => BigInt::from(0),
        1 => BigInt::from(g.i32_edge()),
        2 => -BigInt::from_bytes_be(Sign::Plus, &g.bytes(1, 40)),
        3 => BigInt::from_bytes_be(Sign::Plus, &g.bytes(100, 300)),
        4 => (BigInt::from(1) << (g.draw(2100) as usize)) - BigInt::from(g.draw(1)),
        _ => BigInt::from_bytes_be(Sign::Plus, &g.bytes(1, 40)),
    };
    let d = v.to_string();
    g.show(format!("value {}", short(&json!(d))));
    g.nontrivial();
    let n = e("decimal", &d, BigNumber::from_dec(&d))?;
    ensure!(n.to_dec().unwrap() == d, "decimal", "{} became {}", d, n.to_dec().unwrap());
    ensure!(js(&n) == json!(d), "decimal", "the nonce {} is encoded as {}", d, js(&n));
    let m: Nonce = from(json!(d));
    ensure!(m == n, "decimal", "{} decodes to {:?}", d, m);
    g.eval();
    // a text is accepted exactly if it is a decimal number
    let text = match g.draw(8) {
        0 => d.clone(),
        1 => format!("{}{}", d, g.pick(&["x", " ", "\n", "\0", ".", ".0", "e1", "-", "é", "a"])),
        2 => format!("{}{}", g.pick(&[" ", "+", "--", "0x", "\t", "- "]), d),
        3 => g.string(12),
        4 => format!("-{}", d),
        5 => format!("00{}", d),
        6 => String::new(),
        7 => {
            let mut c: Vec<char> = d.chars().collect();
            let i = g.below(c.len());
            c[i] = *g.pick(&['/', ':', 'f', 'O', ' ', '-', '٣']);
            c.into_iter().collect()
        }
        _ => g.pick(&["-", "+", "0", "-0", "00", "-00", "NaN", "null", "1_000", "1,0"]).to_string(),
    };
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    let ok = digits(&text) || text.strip_prefix('-').map_or(false, |r| digits(r));
    let want = if ok { Some(BigInt::parse_bytes(text.as_bytes(), 10).unwrap()) } else { None };
    let mut kb = Issuer::new_credential_values_builder().unwrap();
    let rs = match no_panic(|| {
        vec![
            ("add_dec_known", kb.add_dec_known("a", &text).is_ok()),
            ("add_dec_hidden", kb.add_dec_hidden("b", &text).is_ok()),
            ("add_dec_commitment value", kb.add_dec_commitment("c", &text, "1").is_ok()),
            ("add_dec_commitment blinding", kb.add_dec_commitment("d", "1", &text).is_ok()),
            ("Nonce JSON", serde_json::from_value::<Nonce>(json!(text)).is_ok()),
            ("CredentialValues JSON", serde_json::from_value::<CredentialValues>(json!({"attrs_values": {"a": {"Known": {"value": text}}}})).is_ok()),
        ]
    }) {
        Ok(r) => r,
        Err(m) => return fail("decode-panics", format!("{:?} as a decimal value aborted: {}", text, m)),
    };
    for (w, r) in rs {
        g.eval();
        ensure!(r == ok, if ok { "decimal-refused" } else { "decimal-garbage-accepted" }, "{} of {:?}: accepted {}", w, text, r);
    }
    let kj = js(&kb);
    if let Some(x) = want {
        let s = x.to_string();
        let a = &kj["attrs_values"];
        let got = [&a["a"]["Known"]["value"], &a["b"]["Hidden"]["value"], &a["c"]["Commitment"]["value"], &a["d"]["Commitment"]["blinding_factor"]];
        ensure!(got.iter().all(|y| **y == json!(s)), "decimal", "{:?} was kept as {}", text, kj);
        g.label("decimal text");
    } else {
        ensure!(kj["attrs_values"] == json!({}), "error-changes-values", "refused values were added: {}", kj);
        g.label("not a decimal text");
    }
    // the same through a BigNumber
    let mut kb = Issuer::new_credential_values_builder().unwrap();
    kb.add_value_known("a", &n).unwrap();
    kb.add_value_hidden("b", &n).unwrap();
    kb.add_value_commitment("c", &n, &bn(&BigInt::from(7))).unwrap();
    let want = json!({"attrs_values": {"a": {"Known": {"value": d}}, "b": {"Hidden": {"value": d}}, "c": {"Commitment": {"value": d, "blinding_factor": "7"}}}});
    ensure!(js(&kb) == want, "decimal", "add_value_* of {} gives {}", d, js(&kb));
    let cvb: CredentialValuesBuilder = from(want.clone());
    ensure!(js(&cvb) == want, "decimal", "{} became {}", want, js(&cvb));
    // predicate thresholds are plain numbers
    let t = g.i32_edge();
    for p in &PT {
        let w = json!({"attr_name": "x", "p_type": p, "value": t});
        ensure!(js(&from::<Predicate>(w.clone())) == w, "decimal", "the predicate {} re-encodes differently", w);
    }
    for bad in &[json!(2147483648i64), json!(-2147483649i64), json!(1.5), json!("5"), json!(null)] {
        ensure!(serde_json::from_value::<Predicate>(json!({"attr_name": "x", "p_type": "GE", "value": bad})).is_err(), "garbage-accepted", "{} is accepted as a threshold", bad);
    }
    Ok(())
}

lazy_static::lazy_static! {
    static ref POOLS: Mutex<HashMap<u64, Vec<(&'static str, String)>>> = Mutex::new(HashMap::new());
}
fn pool(k: u64) -> Result<Vec<(&'static str, String)>, Fail> {
    let have = POOLS.lock().unwrap().get(&k).cloned();
    if let Some(p) = have {
        return Ok(p);
    }
    let mut gg = G::seeded(1000 + k);
    let mut p = collect(&mut gg, false)?;
    let proof: Value = serde_json::from_str(&p.iter().find(|x| x.0 == "Proof").unwrap().1).unwrap();
    p.push(("SubProof", proof["proofs"][0].to_string()));
    p.push(("AggregatedProof", proof["aggregated_proof"].to_string()));
    p.push(("CredentialValue", json!({"Commitment": {"value": "5", "blinding_factor": "-6"}}).to_string()));
    let (p1, p2) = (PointG1::new().unwrap(), PointG2::new().unwrap());
    p.push(("PointG1", js(&p1).to_string()));
    p.push(("PointG2", js(&p2).to_string()));
    p.push(("Pair", js(&Pair::pair(&p1, &p2).unwrap()).to_string()));
    p.push(("GroupOrderElement", js(&GroupOrderElement::new().unwrap()).to_string()));
    POOLS.lock().unwrap().insert(k, p.clone());
    Ok(p)
}
/// leaves whose text the library interprets
fn numeric(v: &Value) -> bool {
    is_num(v)
}
fn element(v: &Value) -> bool {
    v.as_str().map_or(false, |s| s.len() > 40 && s.bytes().all(|b| b.is_ascii_hexdigit() || b == b' ') && !is_num(v))
}
fn junk(g: &mut G, old: &str) -> String {
    match g.draw(12) {
        0 => String::new(),
        1 => g.string(20),
        2 => format!("{}{}", old, g.pick(&["g", " ", "\0", "é", "-", "\u{1F600}", " 1", " 1 0", "0"])),
        3 => format!("{}{}", g.pick(&["g", " ", "\0", "é", "-", "+", "0x", "1 "]), old),
        4 => {
            // one character replaced
            let mut c: Vec<char> = old.chars().collect();
            if c.is_empty() {
                return "x".into();
            }
            let i = g.below(c.len());
            c[i] = *g.pick(&['g', 'G', ' ', '-', 'é', '\0', 'z', '\u{301}', '１']);
            c.into_iter().collect()
        }
        5 => {
            let c: Vec<char> = old.chars().collect();
            let n = g.below(c.len() + 1);
            c[..n].iter().collect()
        }
        6 => {
            let c: Vec<char> = old.chars().collect();
            let n = g.below(c.len() + 1);
            c[n..].iter().collect()
        }
        7 => {
            // words dropped, repeated or exchanged
            let mut w: Vec<&str> = old.split(' ').collect();
            let i = g.below(w.len());
            match g.draw(2) {
                0 => {
                    w.remove(i);
                }
                1 => {
                    let x = w[i];
                    w.insert(i, x);
                }
                _ => {
                    let j = g.below(w.len());
                    w.swap(i, j);
                }
            }
            w.join(" ")
        }
        8 => {
            // a word replaced by a strange number
            let mut w: Vec<String> = old.split(' ').map(|x| x.to_string()).collect();
            let i = g.below(w.len());
            w[i] = g.pick(&["0", "-1", "-5", "2147483647", "2147483648", "-2147483648", "99999999999999999999", "1.5", "", "F", "7FFFFFFF"]).to_string();
            w.join(" ")
        }
        9 => {
            let n = g.range(1, 300);
            (0..n).map(|_| *g.pick(&['0', '1', '9', 'F', 'f', 'A'])).collect()
        }
        10 => "9".repeat(g.range(1, 3000)),
        11 => old.replace(' ', "  "),
        _ => old.to_lowercase(),
    }
}
fn wild(g: &mut G, depth: usize) -> Value {
    match g.draw(if depth == 0 { 7 } else { 9 }) {
        0 => Value::Null,
        1 => json!(g.bool()),
        2 => json!(g.u64()),
        3 => json!(-(g.draw(1 << 40) as i64)),
        4 => json!(1.5e300),
        5 | 6 => json!(g.string(10)),
        7 => json!("1"),
        8 => {
            let n = g.below(4);
            Value::Array((0..n).map(|_| wild(g, depth - 1)).collect())
        }
        _ => {
            let n = g.below(4);
            Value::Object((0..n).map(|_| (g.ident(6), wild(g, depth - 1))).collect())
        }
    }
}
fn garbage(g: &mut G) -> R {
    let k = g.draw(3);
    let p = pool(k)?;
    let i = g.below(p.len());
    let (ty, s) = p[i].clone();
    let v: Value = serde_json::from_str(&s).unwrap();
    let how = g.below(4);
    g.show(ty);
    if all_leaves(&v).is_empty() {
        return Ok(());
    }
    let mut must = false;
    let mut what = String::new();
    let text: String = match g.draw(7) {
        0 | 1 => {
            // another text in a leaf
            let mut v = v.clone();
            let ls: Vec<_> = all_leaves(&v).into_iter().filter(|l| at(&mut v, l).is_string()).collect();
            if ls.is_empty() {
                return Ok(());
            }
            let l = g.pick(&ls).clone();
            let old = at(&mut v, &l).clone();
            let t = junk(g, old.as_str().unwrap());
            let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
            // attribute names are free text
            let name = ty == "SubProofRequest" || l.iter().any(|x| x == "attrs" || x == "attr_name" || x == "hidden_attributes") || (l.first().map_or(false, |x| x == "xr_cap") && l[l.len() - 1] == "0");
            let (numeric, element) = (|v: &Value| !name && numeric(v), |v: &Value| !name && element(v));
            // (scalars may by chance be written in digits only, so a valid hexadecimal is never a must)
            if numeric(&old) && !t.bytes().all(|b| b.is_ascii_hexdigit() || b == b'-') && !(digits(&t) || t.strip_prefix('-').map_or(false, |r| digits(r))) {
                must = true;
            }
            if element(&old) && t.chars().any(|c| !c.is_ascii_hexdigit() && c != ' ' && !c.is_whitespace() && c != '-' && c != '+') {
                must = true;
            }
            if element(&old) && t.trim().is_empty() {
                must = true;
            }
            what = format!("{} := {:?}", l.join("."), t);
            *at(&mut v, &l) = json!(t);
            v.to_string()
        }
        2 => {
            let mut v = v.clone();
            let ls = all_leaves(&v);
            let l = g.pick(&ls).clone();
            *at(&mut v, &l) = wild(g, 3);
            v.to_string()
        }
        3 => {
            let mut v = v.clone();
            let n = g.range(1, 3);
            for _ in 0..n {
                if let Some(w) = mutate(g, &mut v) {
                    what = w;
                }
            }
            v.to_string()
        }
        4 => {
            let mut v = v.clone();
            let n = g.range(1, 3);
            for _ in 0..n {
                if let Some(w) = restructure(g, &mut v) {
                    what = w;
                }
            }
            v.to_string()
        }
        5 => {
            // damaged text
            let mut b = s.clone().into_bytes();
            match g.draw(3) {
                0 => {
                    let n = g.below(b.len());
                    b.truncate(n);
                    // every encoding here is one JSON value that ends with its last byte, except bare numbers
                    must = true;
                }
                1 => {
                    let i = g.below(b.len());
                    b[i] = g.draw(127) as u8;
                }
                2 => {
                    let i = g.below(b.len() + 1);
                    let x = g.bytes(1, 4);
                    for (j, y) in x.into_iter().enumerate() {
                        b.insert(i + j, y & 0x7f);
                    }
                }
                _ => {
                    b.extend_from_slice(g.pick(&["x", "}", "{}", ",", "\"", "null", "\0"]).as_bytes());
                    must = true;
                }
            }
            String::from_utf8_lossy(&b).to_string()
        }
        6 => {
            let t = g.string(200);
            must = serde_json::from_str::<Value>(&t).is_err();
            t
        }
        _ => {
            // another kind of object
            let o = g.below(p.len());
            let t = g.pick(&TYPES).to_string();
            what = format!("read as {}", t);
            let r = reread(&t, &p[o].1, how)?;
            g.eval();
            g.nontrivial();
            g.label(if r.is_some() { "other type: accepted" } else { "other type: refused" });
            return Ok(());
        }
    };
    g.show(what.clone());
    g.nontrivial();
    g.eval();
    let r = reread(ty, &text, how)?;
    g.label(format!("{}: {}", ty, if r.is_some() { "accepted" } else { "refused" }));
    if must && r.is_some() && !(text.trim() == s.trim()) {
        return fail("garbage-accepted", format!("{} is decoded from text that is not an encoding ({}): {}", ty, what, text.chars().take(600).collect::<String>()));
    }
    Ok(())
}

/// The one-element forms older versions wrote are still read
fn legacy(g: &mut G) -> R {
    let attrs = attr_names(g, 1, 3);
    let iss = make_issuer(g, attrs, vec![ms()], false);
    let want = js(&iss.pk);
    let mut old = want.clone();
    let r = old["p_key"]["r"].as_object_mut().unwrap().remove("master_secret").unwrap();
    old["p_key"]["rms"] = r;
    let pk: CredentialPublicKey = e("legacy", "a public key with rms", try_from(&old).map_err(|x| x))?;
    ensure!(js(&pk) == want, "legacy", "the older form of a public key decodes to {}", js(&pk));
    g.eval();
    let secret = secret256(g);
    let vals = gen_vals(g, &iss, &secret, false);
    let cred = issue(&iss, vals, None, PROVER, 0, true)?;
    let req = request(g, &iss, &cred.vals, &[]);
    let shows = [Show { iss: &iss, cred: &cred, req, rev: None }];
    let nonce = new_nonce().unwrap();
    let p = present(&shows, &[], &nonce).map_err(|m| Fail { sig: "present-honest".into(), msg: m })?;
    let want = js(&p);
    let mut old = want.clone();
    let eq = &mut old["proofs"][0]["primary_proof"]["eq_proof"];
    let m = eq["m"].as_object_mut().unwrap().remove("master_secret").unwrap();
    eq["m1"] = m;
    let q: Proof = e("legacy", "a proof with m1", try_from(&old).map_err(|x| x))?;
    ensure!(js(&q) == want, "legacy", "the older form of a proof decodes to {}", js(&q));
    let mut v = verifier(&shows, &[]).unwrap();
    ensure!(accepted(&mut v, &q, &nonce)?, "legacy", "the older form of a proof is not accepted");
    g.eval();
    g.nontrivial();
    let _ = HashSet::<u32>::new();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C08",
        rule: "an object of the protocol, or a damaged encoding of one, was decoded",
        assumptions: vec!["index sets of a delta have no order; encodings are compared as JSON values"],
        subs: vec![sub("objects", 120, 4000, 20, objects), sub("decimal", 20000, 400000, 200, decimal), sub("garbage", 40000, 2000000, 400, garbage), sub("legacy", 40, 1000, 10, legacy)],
    }]
}
