//! C09: what holders and issuers send hides what is not shown. Two messages made from the same secrets
//! are compared: everything random in them must be fresh and long enough.
use crate::cl1::{gen_vals, ms};
use crate::clw::*;
use num_bigint::BigInt;
use pbt::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::*;

/// a uniform number of n bits is shorter than n - TAIL bits with probability 2^-TAIL
const TAIL: usize = 56;

fn num(v: &Value) -> BigInt {
    v.as_str().and_then(|s| BigInt::parse_bytes(s.as_bytes(), 10)).unwrap_or_else(|| panic!("not a number: {}", v))
}
fn bits(x: &BigInt) -> usize {
    x.bits() as usize
}
fn abs(x: BigInt) -> BigInt {
    if x < BigInt::from(0) { -x } else { x }
}
/// what stands where in a message; lists of bytes count as one
fn leaves(v: &Value) -> BTreeMap<String, String> {
    fn go(at: String, v: &Value, out: &mut BTreeMap<String, String>) {
        match v {
            Value::Object(m) => m.iter().for_each(|(k, v)| go(format!("{}.{}", at, k), v, out)),
            Value::Array(a) if !a.is_empty() && a.iter().all(|x| x.is_number()) => drop(out.insert(at, v.to_string())),
            Value::Array(a) => a.iter().enumerate().for_each(|(i, v)| go(format!("{}[{}]", at, i), v, out)),
            Value::Null => {}
            v => drop(out.insert(at, v.as_str().map(|s| s.to_string()).unwrap_or_else(|| v.to_string()))),
        }
    }
    let mut out = BTreeMap::new();
    go(String::new(), v, &mut out);
    out
}
/// the sent text does not contain these secrets
fn absent(what: &str, sent: &Value, secrets: &[(String, String)]) -> R {
    let t = sent.to_string();
    for (name, s) in secrets {
        ensure!(s.len() < 20 || !t.contains(&s[..]), "sent-in-clear", "{} contains {}", what, name);
    }
    Ok(())
}
/// two messages of the same form that share none of their parts, apart from those at `shared` places
fn fresh(what: &str, a: &Value, b: &Value, shared: &dyn Fn(&str) -> bool) -> R {
    let (a, b) = (leaves(a), leaves(b));
    let keys = |m: &BTreeMap<String, String>| m.keys().cloned().collect::<Vec<_>>();
    ensure!(keys(&a) == keys(&b), "form", "{}: two messages differ in form: {:?} and {:?}", what, keys(&a), keys(&b));
    let all: BTreeSet<&String> = a.iter().filter(|(k, _)| !shared(k)).map(|x| x.1).collect();
    for (k, v) in &b {
        ensure!(shared(k) || !all.contains(v), "not-fresh", "{}: {} occurs in two messages", what, k);
    }
    Ok(())
}
/// A response to the challenge hides its secret only if the blinding is much longer than both: who divides
/// by the challenge must not get the same number from two messages
fn quotients(what: &str, a: (&BigInt, &BigInt), b: (&BigInt, &BigInt)) -> R {
    let d = abs(a.0 / a.1 - b.0 / b.1);
    ensure!(bits(&d) > 30, "linkable", "{} divided by the challenge is {} in one message and differs by {} in another", what, a.0 / a.1, d);
    Ok(())
}
/// The blindings used, of some length each, and so unrelated that no small multiples of two of them come
/// near each other
struct Used(Vec<(BigInt, usize, String)>);
impl Used {
    fn add(&mut self, what: String, x: BigInt, size: usize) -> R {
        ensure!(x >= BigInt::from(0) && bits(&x) + TAIL > size, "short", "the blinding of {} has {} bits instead of {}", what, if x < BigInt::from(0) { 0 } else { bits(&x) }, size);
        for (y, n, w) in &self.0 {
            ensure!(x != *y, "reused", "the blindings of {} and {} are the same", w, what);
            if *n == size {
                for (i, j) in [(1, -1), (2, -1), (1, -2), (3, -1), (1, -3), (3, -2), (2, -3)].iter() {
                    let d = abs(&x * i + y * j);
                    ensure!(bits(&d) + TAIL > size, "related", "the blindings of {} and {} give away each other: {} times the one is {} times the other, up to {}", what, w, i, -j, d);
                }
            }
        }
        self.0.push((x, size, what));
        Ok(())
    }
}

fn presentations(g: &mut G) -> R {
    let k = [1, 1, 2, 3][g.below(4)];
    let secret = secret256(g);
    let mut isss = vec![];
    for _ in 0..k {
        let attrs = attr_names(g, 1, 6);
        let rev = g.chance(2, 3);
        isss.push((make_issuer(g, attrs, vec![ms()], rev), rev));
    }
    let mut regs = vec![];
    for (iss, rev) in &isss {
        regs.push(if *rev {
            let max = 1 + g.draw(3) as u32;
            Some(make_reg(iss, max, g.bool())?)
        } else {
            None
        });
    }
    let mut creds = vec![];
    for (i, (iss, _)) in isss.iter().enumerate() {
        let mut vals = gen_vals(g, iss, &secret, false);
        // often several attributes have the same value
        if g.bool() {
            let v = value(g);
            for a in iss.attrs.iter() {
                if g.bool() {
                    vals.get_mut(a).unwrap().1 = v.clone();
                }
            }
        }
        creds.push(match regs[i].as_mut() {
            Some(r) => {
                let idx = 1 + g.draw(r.max as u64 - 1) as u32;
                issue(iss, vals, Some((r, idx)), PROVER, 0, false)?
            }
            None => issue(iss, vals, None, PROVER, 0, false)?,
        });
    }
    let mut order: Vec<usize> = (0..k).collect();
    if g.chance(1, 4) {
        order.push(g.below(k));
        g.label("a credential shown twice at once");
    }
    let common = if g.bool() { vec![ms()] } else { vec![] };
    let mut shows = vec![];
    for &i in &order {
        let req = request(g, &isss[i].0, &creds[i].vals, &[]);
        let rev = match (&regs[i], creds[i].idx) {
            (Some(r), Some(idx)) if !g.chance(1, 5) => Some((r, r.witness(idx)?)),
            _ => None,
        };
        g.label(if rev.is_some() { "with non-revocation" } else { "without non-revocation" });
        g.show(format!("credential {} {:?} request {:?} rev {}", i, creds[i].vals, req, rev.is_some()));
        shows.push(Show { iss: &isss[i].0, cred: &creds[i], req, rev });
    }
    g.nontrivial();
    let mut nonce = new_nonce().unwrap();
    let mut seen: Vec<Value> = vec![];
    let mut used = Used(vec![]);
    for run in 0..2 {
        if g.bool() {
            nonce = new_nonce().unwrap();
        }
        let p = js(&present(&shows, &common, &nonce).map_err(|m| Fail { sig: "present-honest".into(), msg: m })?);
        let c = num(&p["aggregated_proof"]["c_hash"]);
        let mut shared_tilde: Option<BigInt> = None;
        for (i, s) in shows.iter().enumerate() {
            g.eval();
            let sig = js(&s.cred.sig);
            let mut secrets = vec![];
            for (path, v) in leaves(&sig) {
                secrets.push((format!("the credential's {}", path), v));
            }
            for (a, v) in &s.cred.vals {
                if !shows.iter().any(|t| t.req.revealed.iter().any(|a| t.cred.vals[a].1 == v.1)) {
                    secrets.push((format!("the value of {}", a), v.1.to_string()));
                }
            }
            absent("a presentation", &p, &secrets)?;
            let sp = &p["proofs"][i];
            let eq = &sp["primary_proof"]["eq_proof"];
            let shown: BTreeSet<String> = eq["revealed_attrs"].as_object().unwrap().keys().cloned().collect();
            ensure!(shown == s.req.revealed, "revealed", "{:?} revealed instead of {:?}", shown, s.req.revealed);
            let want: BTreeSet<String> = s.cred.vals.keys().filter(|a| !shown.contains(*a)).cloned().collect();
            let have: BTreeSet<String> = eq["m"].as_object().unwrap().keys().cloned().collect();
            ensure!(have == want, "form", "responses for {:?} instead of {:?}", have, want);
            let at = |x: &str| format!("{} (credential {} of presentation {})", x, i, run);
            for (a, m) in eq["m"].as_object().unwrap() {
                let t = num(m) - &c * &s.cred.vals[a].1;
                if common.contains(a) {
                    if shared_tilde.is_none() {
                        shared_tilde = Some(t.clone());
                        used.add(at(a), t, 592)?;
                    }
                } else {
                    used.add(at(a), t, 592)?;
                }
            }
            let two596 = BigInt::from(1) << 596usize;
            used.add(at("m2"), num(&eq["m2"]) - &c * num(&sig["p_credential"]["m_2"]), 592)?;
            used.add(at("e"), num(&eq["e"]) - &c * (num(&sig["p_credential"]["e"]) - &two596), 456)?;
            used.add(at("v"), num(&eq["v"]), 3060)?;
            for (j, ge) in sp["primary_proof"]["ge_proofs"].as_array().unwrap().iter().enumerate() {
                for (n, u) in ge["u"].as_object().unwrap() {
                    used.add(at(&format!("u[{}] of predicate {}", n, j)), num(u), 592)?;
                }
                for (n, r) in ge["r"].as_object().unwrap() {
                    used.add(at(&format!("r[{}] of predicate {}", n, j)), num(r), 2128 + 336)?;
                }
                used.add(at(&format!("alpha of predicate {}", j)), num(&ge["alpha"]), 2787)?;
            }
        }
        // credentials shown together
        for i in 0..shows.len() {
            for j in 0..i {
                let (a, b) = (&p["proofs"][i]["primary_proof"]["eq_proof"]["a_prime"], &p["proofs"][j]["primary_proof"]["eq_proof"]["a_prime"]);
                ensure!(a != b, "not-fresh", "two parts of a presentation have the same a_prime");
                let (a, b) = (leaves(&p["proofs"][i]["non_revoc_proof"]), leaves(&p["proofs"][j]["non_revoc_proof"]));
                ensure!(a.values().all(|x| b.values().all(|y| x != y)), "not-fresh", "two non-revocation proofs of a presentation have parts in common");
            }
        }
        // a value occurs twice within a presentation only where it is the response of a compared attribute
        // or shared by the request
        let mut count: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (k, v) in leaves(&p) {
            if k.starts_with(".proofs") && v.len() > 20 && !k.contains("revealed_attrs") && !k.contains("predicate") {
                let name = k.clone();
                count.entry(v).or_insert_with(Vec::new).push(name);
            }
        }
        for (_, places) in count {
            let kind: BTreeSet<bool> = places.iter().map(|p| p.ends_with(".mj") || p.contains("eq_proof.m.")).collect();
            ensure!(places.len() == 1 || !kind.contains(&false), "not-fresh", "the same value at {:?}", places);
        }
        seen.push(p);
    }
    // commitments to small numbers: their quotients are no small powers
    for (i, s) in shows.iter().enumerate() {
        let pk = js(&s.iss.pk);
        let (z, base) = (num(&pk["p_key"]["z"]), num(&pk["p_key"]["s"]));
        let eq: Vec<&Value> = seen.iter().map(|p| &p["proofs"][i]["primary_proof"]).collect();
        let mut all = vec![(num(&js(&s.cred.sig)["p_credential"]["a"]), "the signature's A".to_string())];
        all.extend(eq.iter().map(|p| (num(&p["eq_proof"]["a_prime"]), "a_prime".to_string())));
        unrelated(&all, &base, 300, &s.iss.n)?;
        for j in 0..eq[0]["ge_proofs"].as_array().unwrap().len() {
            let mut all = vec![(BigInt::from(1), "one".to_string())];
            for p in &eq {
                for (n, t) in p["ge_proofs"][j]["t"].as_object().unwrap() {
                    all.push((num(t), format!("t[{}]", n)));
                }
            }
            unrelated(&all, &z, 300, &s.iss.n)?;
        }
    }
    let (p, q) = (&seen[0], &seen[1]);
    let (c, d) = (num(&p["aggregated_proof"]["c_hash"]), num(&q["aggregated_proof"]["c_hash"]));
    fresh("presentations", p, q, &|k| k.contains("revealed_attrs") || k.contains(".predicate."))?;
    for i in 0..shows.len() {
        let (a, b) = (&p["proofs"][i]["primary_proof"], &q["proofs"][i]["primary_proof"]);
        let (x, y) = (leaves(a), leaves(b));
        for (k, v) in &x {
            if k.contains("revealed_attrs") || k.contains(".predicate.") || k.ends_with("a_prime") || k.contains(".t.") {
                continue;
            }
            let n = |s: &String| BigInt::parse_bytes(s.as_bytes(), 10);
            match (n(v), n(&y[k])) {
                (Some(v), Some(w)) => quotients(k, (&v, &c), (&w, &d))?,
                _ => return fail("form", format!("{} is {}", k, v)),
            }
        }
        // the secrets of the non-revocation proof: (x1 - x2) / (c1 - c2) for known secrets
        let sig = js(&shows[i].cred.sig);
        let (a, b) = (&p["proofs"][i]["non_revoc_proof"], &q["proofs"][i]["non_revoc_proof"]);
        if !a.is_null() {
            let group = |v: &Value| -> BigInt { js_scalar(v) };
            let order = group_order();
            for (name, secret) in [("m2", &sig["r_credential"]["m2"]), ("c", &sig["r_credential"]["c"]), ("s", &sig["r_credential"]["vr_prime_prime"])].iter() {
                let secret = group(secret);
                let left = group(&a["x_list"][name]) - group(&b["x_list"][name]);
                let right = (&c - &d) * secret;
                let rem = |x: BigInt| ((x % &order) + &order) % &order;
                ensure!(rem(&left - &right) != BigInt::from(0) && rem(&left + &right) != BigInt::from(0), "reused", "the blinding of {} in two non-revocation proofs is the same", name);
            }
        }
    }
    Ok(())
}
/// no two of these differ by a small power of the base
fn unrelated(all: &[(BigInt, String)], base: &BigInt, max: usize, n: &BigInt) -> R {
    let mut at: BTreeMap<BigInt, (usize, usize)> = BTreeMap::new();
    for (i, (x, _)) in all.iter().enumerate() {
        let mut y = x.clone();
        for d in 0..max {
            if let Some(o) = at.insert(y.clone(), (i, d)) {
                ensure!(o.0 == i, "not-hidden", "{} and {} differ by a power of {}", all[i].1, all[o.0].1, d as i64 - o.1 as i64);
            }
            y = y * base % n;
        }
    }
    Ok(())
}
fn js_scalar(v: &Value) -> BigInt {
    let x: ursa::pair::GroupOrderElement = from(v.clone());
    BigInt::from_bytes_be(num_bigint::Sign::Plus, &x.to_bytes().unwrap())
}
fn group_order() -> BigInt {
    BigInt::parse_bytes(b"2523648240000001BA344D8000000007FF9F800000000010A10000000000000D", 16).unwrap()
}

fn requests(g: &mut G) -> R {
    let attrs = attr_names(g, 1, 6);
    let mut non = vec![ms()];
    if g.chance(1, 3) {
        non.push("link_secret2".into());
    }
    let rev = g.bool();
    let iss = make_issuer(g, attrs, non, rev);
    let secret = secret256(g);
    let mut vals = gen_vals(g, &iss, &secret, true);
    if g.bool() {
        vals.values_mut().for_each(|v| v.1 = secret.clone());
    }
    for a in iss.attrs.iter().skip(1) {
        if g.chance(1, 3) {
            let v = vals.get_mut(a).unwrap();
            v.0 = *g.pick(&[Kind::Hidden, Kind::Committed]);
            v.2 = secret256(g);
        }
    }
    g.show(format!("{:?}", vals));
    g.nontrivial();
    let cv = mk_values(g, &vals);
    let mut used = Used(vec![]);
    let mut nonce = new_nonce().unwrap();
    let mut seen: Vec<(Value, Value, Value)> = vec![];
    for run in 0..2 {
        if g.bool() {
            nonce = new_nonce().unwrap();
        }
        g.eval();
        let (bs, bf, bp) = e("blind-honest", "blind_credential_secrets", Prover::blind_credential_secrets(&iss.pk, &iss.kcp, &cv, &nonce))?;
        let (bs, bf, bp) = (js(&bs), js(&bf), js(&bp));
        let at = |x: &str| format!("{} (request {})", x, run);
        let vp = num(&bf["v_prime"]);
        used.add(at("v'"), vp.clone(), 2128)?;
        let c = num(&bp["c"]);
        used.add(at("v'~"), num(&bp["v_dash_cap"]) - &c * &vp, 2128 + 336)?;
        let hidden: BTreeSet<String> = vals.iter().filter(|x| (x.1).0 != Kind::Known).map(|x| x.0.clone()).collect();
        let have: BTreeSet<String> = bp["m_caps"].as_object().unwrap().keys().cloned().collect();
        ensure!(hidden == have, "form", "responses for {:?} instead of {:?}", have, hidden);
        for (a, m) in bp["m_caps"].as_object().unwrap() {
            used.add(at(a), num(m) - &c * &vals[a].1, 593)?;
        }
        for (a, m) in bp["r_caps"].as_object().unwrap() {
            used.add(at(&format!("the blinding of {}", a)), num(m) - &c * &vals[a].2, 593)?;
        }
        if rev {
            ensure!(bits(&js_scalar(&bf["vr_prime"])) > 254 - TAIL, "short", "vr' has {} bits", bits(&js_scalar(&bf["vr_prime"])));
        }
        let mut secrets: Vec<(String, String)> = leaves(&bf).into_iter().collect();
        for (a, v) in &vals {
            if v.0 != Kind::Known {
                secrets.push((format!("the value of {}", a), v.1.to_string()));
                secrets.push((format!("the blinding of {}", a), v.2.to_string()));
            }
        }
        absent("a request", &bs, &secrets)?;
        absent("the proof of a request", &bp, &secrets)?;
        seen.push((bs, bf, bp));
    }
    let (p, q) = (&seen[0], &seen[1]);
    // the lists of names and the holder's own commitments are the same
    fresh("requests", &p.0, &q.0, &|k| k.contains("_attributes"))?;
    fresh("blinding factors", &p.1, &q.1, &|_| false)?;
    fresh("proofs of requests", &p.2, &q.2, &|_| false)?;
    let (c, d) = (num(&p.2["c"]), num(&q.2["c"]));
    let (x, y) = (leaves(&p.2), leaves(&q.2));
    for (k, v) in &x {
        if k.starts_with(".m_caps") || k.starts_with(".r_caps") {
            quotients(k, (&num(&Value::String(v.clone())), &c), (&num(&Value::String(y[k].clone())), &d))?;
        }
    }
    // secrets and nonces
    let s: BTreeSet<BigInt> = (0..4).map(|_| big(&e_ms().0)).collect();
    ensure!(s.len() == 4 && s.iter().all(|s| bits(s) <= 256 && bits(s) + TAIL > 256), "secret", "master secrets {:?}", s);
    let s: BTreeSet<BigInt> = (0..4).map(|_| num(&js(&new_nonce().unwrap()))).collect();
    ensure!(s.len() == 4 && s.iter().all(|s| bits(s) <= 80 && bits(s) > 80 - 44), "nonce", "nonces {:?}", s);
    Ok(())
}
fn e_ms() -> (ursa::bn::BigNumber,) {
    (Prover::new_master_secret().unwrap().value().unwrap(),)
}

fn signatures(g: &mut G) -> R {
    let attrs = attr_names(g, 1, 6);
    let rev = g.chance(2, 3);
    let iss = make_issuer(g, attrs, vec![ms()], rev);
    let secret = secret256(g);
    let vals = gen_vals(g, &iss, &secret, false);
    let cv = mk_values(g, &vals);
    let b = blind(&iss, &cv, false)?;
    let known: Vals = vals.iter().filter(|(_, v)| v.0 == Kind::Known).map(|(k, v)| (k.clone(), v.clone())).collect();
    let known = mk_values(g, &known);
    let mut reg = if rev { Some(make_reg(&iss, 2, true)?) } else { None };
    let inonce = new_nonce().unwrap();
    g.nontrivial();
    let mut seen = vec![];
    for _ in 0..2 {
        g.eval();
        let (sig, scp) = match reg.as_mut() {
            Some(r) => {
                let (s, p, _) = e(
                    "sign-honest",
                    "sign_credential_with_revoc",
                    Issuer::sign_credential_with_revoc(PROVER, &b.bs, &b.bp, &b.nonce, &inonce, &known, &iss.pk, &iss.sk, 1, r.max, r.by_default, &mut r.reg, &r.key_priv, &r.tails),
                )?;
                (s, p)
            }
            None => e("sign-honest", "sign_credential", Issuer::sign_credential(PROVER, &b.bs, &b.bp, &b.nonce, &inonce, &known, &iss.pk, &iss.sk))?,
        };
        let (sig, scp) = (js(&sig), js(&scp));
        let (ev, v) = (num(&sig["p_credential"]["e"]), num(&sig["p_credential"]["v"]));
        let start = BigInt::from(1) << 596usize;
        ensure!(ev >= start && ev <= &start + (BigInt::from(1) << 119usize), "range", "e = {}", ev);
        ensure!(bits(&(&ev - &start)) > 119 - TAIL, "short", "e is not random: {}", ev);
        // the first bit is always set; the others are random
        ensure!(bits(&v) == 2724 && bits(&(&v - (BigInt::from(1) << 2723usize))) + TAIL > 2723, "short", "v'' is not random: {}", v);
        absent("the proof", &scp, &[("p".to_string(), js(&iss.sk)["p_key"]["p"].as_str().unwrap().to_string()), ("q".to_string(), js(&iss.sk)["p_key"]["q"].as_str().unwrap().to_string())])?;
        seen.push((sig, scp));
    }
    let (p, q) = (&seen[0], &seen[1]);
    // what depends on the holder or the registry only
    fresh("signatures", &p.0, &q.0, &|k| k.ends_with("m_2") || k.ends_with("m2") || k.ends_with(".i") || k.contains("g_i") || k.contains("witness_signature"))?;
    fresh("signature proofs", &p.1, &q.1, &|_| false)?;
    if rev {
        let (a, b) = (make_reg(&iss, 1, true)?, make_reg(&iss, 1, true)?);
        fresh("registries", &js(&a.reg), &js(&b.reg), &|_| false)?;
        fresh("registry keys", &js(&a.key_pub), &js(&b.key_pub), &|_| false)?;
        fresh("private registry keys", &js(&a.key_priv), &js(&b.key_priv), &|_| false)?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C09",
        rule: "at least two messages were made from the same secrets and compared",
        assumptions: vec!["random numbers do not collide or fall 56 bits short by chance"],
        subs: vec![sub("presentations", 150, 6000, 10, presentations), sub("requests", 200, 8000, 10, requests), sub("signatures", 80, 3000, 10, signatures)],
    }]
}
