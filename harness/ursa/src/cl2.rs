//! C02 (soundness of the verifier), C04 (predicates), C05 (common attributes)
use crate::cl1::*;
use crate::clw::*;
use crate::forge::*;
use num_bigint::{BigInt, Sign};
use pbt::*;
use rand_chacha::rand_core::SeedableRng;
use rand_chacha::ChaChaRng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use ursa::cl::prover::Prover;
use ursa::cl::verifier::Verifier;
use ursa::cl::*;

/// Issuers, registries and credentials for one holder
struct World {
    iss: Vec<Iss>,
    regs: Vec<Option<Reg>>,
    creds: Vec<Cred>,
}
fn world(g: &mut G, k: usize, rev_chance: u64, extra: &[(String, Option<BigInt>)]) -> Result<World, Fail> {
    let secret = secret256(g);
    let mut w = World { iss: vec![], regs: vec![], creds: vec![] };
    for _ in 0..k {
        let mut attrs = attr_names(g, 1, 4);
        for (a, _) in extra {
            attrs.push(a.clone());
        }
        let rev = g.chance(rev_chance, 8);
        let iss = make_issuer(g, attrs, vec![ms()], rev);
        let mut reg = if rev { Some(make_reg(&iss, 1 + g.draw(3) as u32, g.bool())?) } else { None };
        let mut vals = gen_vals(g, &iss, &secret, false);
        for (a, v) in extra {
            if let Some(v) = v {
                vals.insert(a.clone(), (Kind::Known, v.clone(), BigInt::from(0)));
            }
        }
        let c = match reg.as_mut() {
            Some(r) => {
                let idx = 1 + g.draw(r.max as u64 - 1) as u32;
                let c = issue(&iss, vals, Some((r, idx)), PROVER, 0, false)?;
                let n = g.below(3);
                churn(g, r, &[idx], n)?;
                c
            }
            None => issue(&iss, vals, None, PROVER, 0, false)?,
        };
        w.iss.push(iss);
        w.regs.push(reg);
        w.creds.push(c);
    }
    Ok(w)
}
fn shows<'a>(g: &mut G, w: &'a World, keep: &[String], always_rev: bool) -> Result<Vec<Show<'a>>, Fail> {
    let mut out = vec![];
    for i in 0..w.creds.len() {
        let req = request(g, &w.iss[i], &w.creds[i].vals, keep);
        let rev = match (&w.regs[i], w.creds[i].idx) {
            (Some(r), Some(idx)) if always_rev || g.bool() => Some((r, r.witness(idx)?)),
            _ => None,
        };
        out.push(Show { iss: &w.iss[i], cred: &w.creds[i], req, rev });
    }
    Ok(out)
}
fn baseline(shows: &[Show], common: &[String], nonce: &Nonce) -> Result<Proof, Fail> {
    let p = present(shows, common, nonce).map_err(|m| Fail { sig: "present-honest".into(), msg: m })?;
    let mut v = verifier(shows, common).map_err(|m| Fail { sig: "verifier-honest".into(), msg: m })?;
    ensure!(accepted(&mut v, &p, nonce)?, "honest-rejected", "an honest presentation was not accepted");
    Ok(p)
}
fn desc(shows: &[Show]) -> String {
    shows.iter().map(|s| format!("[revealed {:?} preds {:?} rev {}]", s.req.revealed, s.req.preds, s.rev.is_some())).collect::<Vec<_>>().join(" ")
}

// ------------------------------------------------------------------ C02

fn c02_mutate(g: &mut G) -> R {
    let k = if is_large() { g.range(4, 6) } else { 1 + g.draw(5) as usize / 4 };
    let w = world(g, k, 3, &[])?;
    let sh = shows(g, &w, &[], true)?;
    let common = if g.bool() { vec![ms()] } else { vec![] };
    let nonce = some_nonce();
    let p = baseline(&sh, &common, &nonce)?;
    g.show(desc(&sh));
    let pj = js(&p);
    for _ in 0..10 {
        let mut v = pj.clone();
        let d = if g.chance(1, 4) { restructure(g, &mut v) } else { mutate(g, &mut v) };
        let d = match d {
            Some(d) => d,
            None => continue,
        };
        let q: Proof = match no_panic(|| try_from::<Proof>(&v)) {
            Err(m) => return fail("proof-decode-panics", format!("{}: {}", d, m)),
            Ok(Err(_)) => {
                g.label("undecodable");
                continue;
            }
            Ok(Ok(q)) => q,
        };
        if js(&q) == pj {
            // the change has no meaning in the format (for instance a removed null)
            continue;
        }
        g.eval();
        g.nontrivial();
        let mut vf = verifier(&sh, &common).unwrap();
        ensure!(!accepted(&mut vf, &q, &nonce)?, "altered-accepted", "accepted after {}", d);
        g.label(d.split(' ').next().unwrap().trim_end_matches(':').split('.').filter(|x| x.parse::<u32>().is_err()).collect::<Vec<_>>().join("."));
    }
    Ok(())
}

/// A presentation must not verify in any context other than its own
fn c02_context(g: &mut G) -> R {
    let k = if is_large() { g.range(4, 6) } else { 1 + g.draw(2) as usize };
    let w = world(g, k, 4, &[])?;
    let sh = shows(g, &w, &[], true)?;
    let common = if g.bool() { vec![ms()] } else { vec![] };
    let nonce = some_nonce();
    let p = baseline(&sh, &common, &nonce)?;
    g.show(desc(&sh));
    g.nontrivial();
    let build = |sh: &[Show], f: &mut dyn FnMut(usize, &Show) -> Option<(SubProofRequest, CredentialSchema, NonCredentialSchema, CredentialPublicKey, Option<RevocationKeyPublic>, Option<RevocationRegistry>)>| -> Option<verifier::ProofVerifier> {
        let mut v = Verifier::new_proof_verifier().unwrap();
        for c in &common {
            v.add_common_attribute(c).unwrap();
        }
        for (i, s) in sh.iter().enumerate() {
            let (q, sc, ns, pk, k, r) = f(i, s)?;
            v.add_sub_proof_request(&q, &sc, &ns, &pk, k.as_ref(), r.as_ref()).ok()?;
        }
        Some(v)
    };
    type Args = (SubProofRequest, CredentialSchema, NonCredentialSchema, CredentialPublicKey, Option<RevocationKeyPublic>, Option<RevocationRegistry>);
    let std_args = |s: &Show| -> Args {
        (s.req.lib(), s.iss.schema.clone(), s.iss.nschema.clone(), s.iss.pk.try_clone().unwrap(), s.rev.as_ref().map(|r| r.0.key_pub.clone()), s.rev.as_ref().map(|r| r.0.reg.clone()))
    };
    let t = g.below(k);
    // nonces
    for nn in other_nonces(g, &nonce) {
        if nn == nonce {
            continue;
        }
        let mut v = verifier(&sh, &common).unwrap();
        g.eval();
        ensure!(!accepted(&mut v, &p, &nn)?, "other-nonce-accepted", "accepted for nonce {} instead of {}", nn.to_dec().unwrap(), nonce.to_dec().unwrap());
    }
    // fewer, more, other credentials requested
    let mut v = build(&sh[..k - 1], &mut |_, s| Some(std_args(s))).unwrap();
    ensure!(!accepted(&mut v, &p, &nonce)?, "other-request-accepted", "accepted although fewer credentials were requested");
    {
        let mut v = Verifier::new_proof_verifier().unwrap();
        for c in &common {
            v.add_common_attribute(c).unwrap();
        }
        for s in sh.iter().chain(std::iter::once(&sh[t])) {
            let (q, sc, ns, pk, kk, r) = std_args(s);
            v.add_sub_proof_request(&q, &sc, &ns, &pk, kk.as_ref(), r.as_ref()).unwrap();
        }
        g.eval();
        ensure!(!accepted(&mut v, &p, &nonce)?, "other-request-accepted", "accepted although more credentials were requested");
    }
    if k > 1 {
        let mut order: Vec<usize> = (0..k).collect();
        g.shuffle(&mut order);
        if order.iter().enumerate().any(|(i, o)| i != *o) {
            let mut v = Verifier::new_proof_verifier().unwrap();
            let mut ok = true;
            for i in &order {
                let (q, sc, ns, pk, kk, r) = std_args(&sh[*i]);
                ok &= v.add_sub_proof_request(&q, &sc, &ns, &pk, kk.as_ref(), r.as_ref()).is_ok();
            }
            g.eval();
            ensure!(!ok || !accepted(&mut v, &p, &nonce)?, "other-request-accepted", "accepted for credentials in order {:?}", order);
        }
    }
    // another request for one credential
    let s = &sh[t];
    for _ in 0..3 {
        let mut q = s.req.clone();
        let a = g.pick(&s.iss.attrs).clone();
        let what = g.draw(3);
        match what {
            0 => {
                if !q.revealed.remove(&a) {
                    q.revealed.insert(a);
                }
            }
            1 => {
                if let Some(x) = q.preds.iter().next().cloned() {
                    q.preds.remove(&x);
                    if g.bool() {
                        let mut y = x.clone();
                        y.val = g.i32_edge();
                        q.preds.insert(y);
                    }
                } else {
                    q.preds.insert(Pred { attr: a, ty: g.below(4), val: g.i32_edge() });
                }
            }
            2 => {
                q.preds.insert(Pred { attr: a, ty: g.below(4), val: g.i32_edge() });
            }
            _ => {
                q = Req::default();
            }
        }
        if q.revealed == s.req.revealed && q.preds == s.req.preds {
            continue;
        }
        let mut qv = Some(q.lib());
        if let Some(mut v) = build(&sh, &mut |i, s| {
            let mut a = std_args(s);
            if i == t {
                a.0 = qv.take().unwrap();
            }
            Some(a)
        }) {
            g.eval();
            ensure!(!accepted(&mut v, &p, &nonce)?, "other-request-accepted", "a presentation for {:?} was accepted for {:?}", s.req, q);
        }
    }
    // another issuer key for the same schema; the same key with one component of another one
    {
        let rev = s.iss.pk.get_revocation_key().unwrap().is_some();
        let other = make_issuer(g, s.iss.attrs.clone(), s.iss.non.clone(), rev);
        let (a, b) = (js(&s.iss.pk), js(&other.pk));
        let mut variants: Vec<(String, Value)> = vec![("all".into(), b.clone())];
        for f in &["n", "s", "z", "rctxt"] {
            let mut x = a.clone();
            x["p_key"][*f] = b["p_key"][*f].clone();
            variants.push((f.to_string(), x));
        }
        let rn = g.pick(&s.iss.attrs).clone();
        if !s.req.revealed.contains(&rn) || s.cred.vals[&rn].1.sign() != Sign::NoSign {
            let mut x = a.clone();
            x["p_key"]["r"][rn.as_str()] = b["p_key"]["r"][rn.as_str()].clone();
            variants.push((format!("r.{}", rn), x));
        }
        if s.rev.is_some() {
            for f in &["g", "g_dash", "h", "h0", "h1", "h2", "htilde", "h_cap", "u", "pk", "y"] {
                let mut x = a.clone();
                x["r_key"][*f] = b["r_key"][*f].clone();
                variants.push((format!("r_key.{}", f), x));
            }
        }
        let pick = g.below(variants.len());
        for (name, x) in vec![variants[0].clone(), variants[pick].clone()] {
            let mut v = build(&sh, &mut |i, s| {
                let mut a = std_args(s);
                if i == t {
                    a.3 = from(x.clone());
                }
                Some(a)
            })
            .unwrap();
            g.eval();
            ensure!(!accepted(&mut v, &p, &nonce)?, "other-key-accepted", "accepted under another issuer key ({})", name);
        }
    }
    // another schema
    {
        let mut more = s.iss.attrs.clone();
        more.push("additional".into());
        let mut less = s.iss.attrs.clone();
        let gone = less.remove(g.below(less.len()));
        for (name, sc) in vec![("more".to_string(), schema(&more)), (format!("without {}", gone), schema(&less))] {
            if let Some(mut v) = build(&sh, &mut |i, s| {
                let mut a = std_args(s);
                if i == t {
                    a.1 = sc.clone();
                }
                Some(a)
            }) {
                g.eval();
                ensure!(!accepted(&mut v, &p, &nonce)?, "other-schema-accepted", "accepted for a schema with {} attributes", name);
            }
        }
        let mut v = build(&sh, &mut |i, s| {
            let mut a = std_args(s);
            if i == t {
                a.2 = nschema(&[]);
            }
            Some(a)
        })
        .unwrap();
        g.eval();
        ensure!(!accepted(&mut v, &p, &nonce)?, "other-schema-accepted", "accepted for a schema without the holder's secret");
    }
    // another registry, another registry key, no registry
    if let Some((r, _)) = &s.rev {
        let other = make_reg(s.iss, r.max, r.by_default)?;
        let mut third = make_reg(s.iss, r.max, !r.by_default)?;
        churn(g, &mut third, &[], 2)?;
        for which in 0..5 {
            let mut v = build(&sh, &mut |i, s| {
                let mut a = std_args(s);
                if i == t {
                    match which {
                        0 => a.4 = Some(other.key_pub.clone()),
                        1 => a.5 = Some(other.reg.clone()),
                        2 => a.5 = Some(third.reg.clone()),
                        3 => {
                            a.4 = None;
                            a.5 = None;
                        }
                        _ => {
                            a.4 = Some(third.key_pub.clone());
                            a.5 = Some(third.reg.clone());
                        }
                    }
                }
                Some(a)
            })
            .unwrap();
            g.eval();
            g.label("registry context");
            ensure!(!accepted(&mut v, &p, &nonce)?, "other-registry-accepted", "accepted for another registry ({})", which);
        }
        // the holder leaves the non-revocation part out
        let bare: Vec<Show> = sh.iter().enumerate().map(|(i, s)| Show { iss: s.iss, cred: s.cred, req: s.req.clone(), rev: if i == t { None } else { s.rev.as_ref().map(|x| (x.0, x.1.clone())) } }).collect();
        let q = present(&bare, &common, &nonce).map_err(|m| Fail { sig: "present-honest".into(), msg: m })?;
        let mut v = verifier(&sh, &common).unwrap();
        g.eval();
        ensure!(!accepted(&mut v, &q, &nonce)?, "missing-non-revocation-accepted", "accepted without the requested proof of non-revocation");
    }
    // a sub proof of another presentation for the same nonce
    let p2 = baseline(&sh, &common, &nonce)?;
    let (mut a, b) = (js(&p), js(&p2));
    match g.draw(2) {
        0 => a["proofs"][t] = b["proofs"][t].clone(),
        1 => a["aggregated_proof"] = b["aggregated_proof"].clone(),
        _ => a["aggregated_proof"]["c_hash"] = b["aggregated_proof"]["c_hash"].clone(),
    }
    let q: Proof = from(a);
    let mut v = verifier(&sh, &common).unwrap();
    g.eval();
    ensure!(!accepted(&mut v, &q, &nonce)?, "spliced-accepted", "parts of two presentations were accepted together");
    // the original is still accepted
    let mut v = verifier(&sh, &common).unwrap();
    ensure!(accepted(&mut v, &p, &nonce)?, "honest-rejected", "an honest presentation was not accepted a second time");
    Ok(())
}

/// Provers written for the purpose of cheating
fn c02_forge(g: &mut G) -> R {
    let k = 1 + g.draw(3) as usize / 3;
    let w = world(g, k, 0, &[])?;
    let sh = shows(g, &w, &[], true)?;
    let nonce = some_nonce();
    let nb = big(&nonce);
    let mut r = ChaChaRng::seed_from_u64(g.u64());
    g.show(desc(&sh));
    let mut check = |g: &mut G, name: &str, subs: &[PSub], cl: CList, expect: bool| -> R {
        if let Some(v) = prove(subs, &nb, &mut r, cl) {
            let p: Proof = from(v);
            let mut vf = verifier(&sh, &[]).unwrap();
            let ok = accepted(&mut vf, &p, &nonce)?;
            g.eval();
            g.label(name);
            g.nontrivial();
            if expect {
                ensure!(ok, "reference-rejected", "the honest presentation of an independent prover was not accepted");
            } else {
                ensure!(!ok, &format!("forgery-{}", name), "a presentation forged by '{}' was accepted", name);
            }
        }
        Ok(())
    };
    let honest = || -> Vec<PSub> { sh.iter().map(|s| PSub::of(s.iss, s.cred, &s.req)).collect() };
    check(g, "honest", &honest(), CList::Honest, true)?;
    let t = g.below(k);
    let fake_vals: BTreeMap<String, BigInt> = sh[t].cred.vals.iter().map(|(k, v)| (k.clone(), v.1.clone())).collect();
    let mut r2 = ChaChaRng::seed_from_u64(g.u64());
    // no signature, e outside its range
    for (e, bits) in &[(1i64, 456usize), (1, 900), (-1, 456), (-1, 900)] {
        let mut s = honest();
        s[t] = PSub::unsigned(sh[t].iss, &fake_vals, &sh[t].req, *e, &mut r2);
        s[t].e_tilde_bits = *bits;
        check(g, "without-signature", &s, CList::Honest, false)?;
    }
    // everything zero
    let mut s = honest();
    s[t].zero = true;
    check(g, "zero-equality", &s, CList::Honest, false)?;
    let mut s = honest();
    s[t].zero = true;
    for p in s[t].preds.iter_mut() {
        p.zero = true;
    }
    check(g, "zero-everything", &s, CList::Honest, false)?;
    // another value for a revealed, unrevealed or hidden attribute
    let names: Vec<String> = fake_vals.keys().cloned().collect();
    let a = g.pick(&names).clone();
    let mut s = honest();
    let d = BigInt::from(1 + g.draw(5));
    if s[t].revealed.contains(&a) {
        *s[t].claim.get_mut(&a).unwrap() += d;
    } else {
        *s[t].vals.get_mut(&a).unwrap() += d.clone();
        for p in s[t].preds.iter_mut().filter(|p| p.p.attr == a) {
            p.value += d.clone();
        }
    }
    check(g, "changed-value", &s, CList::Honest, false)?;
    let mut s = honest();
    s[t].m2 += 1;
    check(g, "changed-context", &s, CList::Honest, false)?;
    // the hashed commitments
    for cl in &[CList::Extra, CList::Missing, CList::Other, CList::Empty, CList::Swapped] {
        check(g, "commitment-list", &honest(), *cl, false)?;
    }
    // a signature of another key or of other values
    if k > 1 {
        let mut s = honest();
        let o = PSub::of(sh[1 - t].iss, sh[1 - t].cred, &Req::default());
        s[t].a = o.a;
        s[t].e = o.e;
        s[t].v = o.v;
        s[t].m2 = o.m2;
        check(g, "signature-of-another-credential", &s, CList::Honest, false)?;
    }
    // an attribute without base in the proof is left out
    Ok(())
}

/// The primary proof of one credential with the non-revocation proof of another one. The library does
/// not link them: a recorded finding.
fn c02_link(g: &mut G) -> R {
    let secret = secret256(g);
    let iss = make_issuer(g, vec!["age".into()], vec![ms()], true);
    let mut reg = make_reg(&iss, 3, g.bool())?;
    let v1 = gen_vals(g, &iss, &secret, false);
    let v2 = gen_vals(g, &iss, &secret, false);
    let c1 = issue(&iss, v1, Some((&mut reg, 1)), PROVER, 0, false)?;
    let c2 = issue(&iss, v2, Some((&mut reg, 2)), PROVER, 0, false)?;
    ursa::cl::issuer::Issuer::revoke_credential(&mut reg.reg, reg.max, 1, &reg.tails).unwrap();
    reg.valid.remove(&1);
    let mut sj = js(&c1.sig);
    sj["r_credential"] = js(&c2.sig)["r_credential"].clone();
    let mixed = Cred { vals: c1.vals, cv: c1.cv, sig: from(sj), idx: Some(2) };
    let req = request(g, &iss, &mixed.vals, &[]);
    let sh = [Show { iss: &iss, cred: &mixed, req, rev: Some((&reg, reg.witness(2)?)) }];
    let nonce = some_nonce();
    g.nontrivial();
    g.eval();
    let p = match present(&sh, &[ms()], &nonce) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    let mut v = verifier(&sh, &[ms()]).unwrap();
    if accepted(&mut v, &p, &nonce)? {
        g.finding("non-revocation-part-of-another-credential", "a revoked credential was presented with the non-revocation part of another credential of the same issuer")?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C04

fn ints(g: &mut G, n: usize) -> (Vec<String>, Vec<i32>) {
    let names: Vec<String> = NAMES[..n].iter().map(|s| s.to_string()).collect();
    let v = (0..n).map(|_| if g.bool() { g.i32_edge() } else { g.draw(300) as i32 - 100 }).collect();
    (names, v)
}
fn int_cred(g: &mut G, names: &[String], v: &[i32]) -> Result<(Iss, Cred), Fail> {
    let iss = make_issuer(g, names.to_vec(), vec![ms()], false);
    let mut vals = Vals::new();
    for (a, x) in names.iter().zip(v) {
        let kind = if g.chance(1, 6) { Kind::Hidden } else { Kind::Known };
        vals.insert(a.clone(), (kind, BigInt::from(*x), BigInt::from(0)));
    }
    vals.insert(ms(), (Kind::Hidden, secret256(g), BigInt::from(0)));
    let how = g.draw(2);
    let c = issue(&iss, vals, None, PROVER, how, false)?;
    Ok((iss, c))
}
fn any_pred(g: &mut G, attr: &str, v: i32) -> Pred {
    let val = match g.draw(3) {
        0 => g.i32_edge(),
        1 => g.draw(u32::MAX as u64) as u32 as i32,
        _ => v.wrapping_add(g.draw(4) as i32 - 2),
    };
    Pred { attr: attr.into(), ty: g.below(4), val }
}

fn c04_truth(g: &mut G) -> R {
    let n = g.range(1, 3);
    let (names, v) = ints(g, n);
    let (iss, cred) = int_cred(g, &names, &v)?;
    for _ in 0..8 {
        let k = if g.chance(1, 3) { 1 + g.below(3) } else { 1 };
        let mut req = Req::default();
        let mut holds = true;
        for _ in 0..k {
            let i = g.below(n);
            let p = any_pred(g, &names[i], v[i]);
            holds &= p.holds(&BigInt::from(v[i]));
            req.preds.insert(p);
        }
        g.show(format!("values {:?} {:?} -> {}", v, req.preds, holds));
        g.label(format!("{} {}", req.preds.iter().map(|p| PT[p.ty]).collect::<Vec<_>>().join("+"), holds));
        g.eval();
        g.nontrivial();
        let sh = [Show { iss: &iss, cred: &cred, req, rev: None }];
        let nonce = some_nonce();
        let p = match no_panic(|| present(&sh, &[], &nonce)) {
            Err(m) => return fail("prove-panics", format!("building a predicate proof aborted: {}", m)),
            Ok(Ok(p)) => p,
            Ok(Err(m)) => {
                ensure!(!holds, "true-predicate-refused", "{:?} is true of {:?} but no proof could be made: {}", sh[0].req.preds, v, m);
                continue;
            }
        };
        let mut vf = verifier(&sh, &[]).unwrap();
        let ok = accepted(&mut vf, &p, &nonce)?;
        ensure!(ok == holds, if holds { "true-predicate-rejected" } else { "false-predicate-accepted" }, "{:?} on {:?}: accepted = {}, true = {}", sh[0].req.preds, v, ok, holds);
    }
    Ok(())
}

fn same_statement(a: &Pred, b: &Pred) -> bool {
    let c = |p: &Pred| (p.attr.clone(), p.ty % 2, p.val as i64 + [0, 0, 1, -1][p.ty]);
    c(a) == c(b)
}

/// A valid predicate proof under another label
fn c04_relabel(g: &mut G) -> R {
    let n = g.range(1, 3);
    let (names, v) = ints(g, n);
    let (iss, cred) = int_cred(g, &names, &v)?;
    let mut req = Req::default();
    for _ in 0..g.range(1, 2) {
        let i = g.below(n);
        if let Some(p) = pred_for(g, &names[i], v[i], true) {
            req.preds.insert(p);
        }
    }
    let first = match req.preds.iter().next() {
        Some(p) => p.clone(),
        None => return Ok(()),
    };
    let sh = [Show { iss: &iss, cred: &cred, req, rev: None }];
    let nonce = some_nonce();
    let p = baseline(&sh, &[], &nonce)?;
    let pj = js(&p);
    for _ in 0..8 {
        let mut q = first.clone();
        match g.draw(3) {
            0 => q.ty = g.below(4),
            1 => q.val = q.val.wrapping_add(g.draw(4) as i32 - 2),
            2 => q.val = g.i32_edge(),
            _ => q.attr = g.pick(&names).clone(),
        }
        if q == first || same_statement(&q, &first) || sh[0].req.preds.contains(&q) {
            continue;
        }
        let mut rq = sh[0].req.clone();
        rq.preds.remove(&first);
        rq.preds.insert(q.clone());
        let mut v2 = pj.clone();
        let l = v2["proofs"][0]["primary_proof"]["ge_proofs"].as_array_mut().unwrap();
        for x in l.iter_mut() {
            let pr = &x["predicate"];
            if pr["attr_name"] == json!(first.attr) && pr["p_type"] == json!(PT[first.ty]) && pr["value"] == json!(first.val) {
                x["predicate"] = json!({"attr_name": q.attr, "p_type": PT[q.ty], "value": q.val});
            }
        }
        // optionally also reorder as an honest prover would
        let proof: Proof = from(v2);
        let sh2 = [Show { iss: &iss, cred: &cred, req: rq, rev: None }];
        let mut vf = verifier(&sh2, &[]).unwrap();
        g.eval();
        g.nontrivial();
        g.label(format!("{}->{}{}", PT[first.ty], PT[q.ty], if q.attr != first.attr { " other attribute" } else { "" }));
        g.show(format!("{:?} relabelled {:?}", first, q));
        ensure!(!accepted(&mut vf, &proof, &nonce)?, "relabelled-predicate-accepted", "a proof of {:?} was accepted as {:?} (value {:?})", first, q, v);
        // and as it is
        let mut vf = verifier(&sh2, &[]).unwrap();
        ensure!(!accepted(&mut vf, &p, &nonce)?, "other-predicate-accepted", "a proof of {:?} was accepted where {:?} was asked (value {:?})", first, q, v);
    }
    Ok(())
}

/// Provers that try to prove a false comparison
fn c04_forge(g: &mut G) -> R {
    let n = g.range(1, 3);
    let (names, v) = ints(g, n);
    let (iss, cred) = int_cred(g, &names, &v)?;
    let i = g.below(n);
    let holds = g.chance(1, 4);
    let p = match pred_for(g, &names[i], v[i], holds) {
        Some(p) => p,
        None => return Ok(()),
    };
    let mut req = Req::default();
    req.preds.insert(p.clone());
    let revealed_too = g.chance(1, 4);
    if n > 1 && g.bool() {
        req.revealed.insert(names[(i + 1) % n].clone());
    }
    let nonce = some_nonce();
    let nb = big(&nonce);
    let mut r = ChaChaRng::seed_from_u64(g.u64());
    if holds {
        let sh = [Show { iss: &iss, cred: &cred, req: req.clone(), rev: None }];
        let s = PSub::of(&iss, &cred, &req);
        let proof: Proof = from(prove(&[s], &nb, &mut r, CList::Honest).unwrap());
        let mut vf = verifier(&sh, &[]).unwrap();
        g.eval();
        g.nontrivial();
        g.label("honest");
        ensure!(accepted(&mut vf, &proof, &nonce)?, "reference-rejected", "an independent prover's proof of {:?} for {} was not accepted", p, v[i]);
        return Ok(());
    }
    // a value for which the comparison would hold
    let t = p.val as i64;
    let good = BigInt::from(match p.ty {
        0 => t + g.draw(1000) as i64,
        1 => t - g.draw(1000) as i64,
        2 => t + 1 + g.draw(1000) as i64,
        _ => t - 1 - g.draw(1000) as i64,
    });
    let opposite = Pred { attr: p.attr.clone(), ty: p.ty ^ 1, val: p.val };
    for what in 0..6 {
        let mut rq = req.clone();
        if revealed_too && what < 2 {
            rq.revealed.insert(names[i].clone());
        }
        let sh = [Show { iss: &iss, cred: &cred, req: rq.clone(), rev: None }];
        let mut s = PSub::of(&iss, &cred, &rq);
        let name = match what {
            // a proof about another value, with its own response
            0 => {
                s.preds[0].value = good.clone();
                s.preds[0].own_mj = true;
                "other-value-own-response"
            }
            // the same randomness as the equality proof
            1 => {
                s.preds[0].value = good.clone();
                "other-value-shared-randomness"
            }
            // a proof of the opposite comparison
            2 => {
                s.preds[0].as_pred = Some(opposite.clone());
                "opposite-comparison"
            }
            3 => {
                s.preds[0].zero = true;
                "zero-commitments"
            }
            // another attribute's value
            4 => {
                let o = (i + 1) % n;
                if o == i || !p.holds(&BigInt::from(v[o])) || rq.revealed.contains(&names[o]) {
                    continue;
                }
                s.preds[0].value = BigInt::from(v[o]);
                s.preds[0].own_mj = true;
                "value-of-another-attribute"
            }
            // m of the attribute replaced as well
            _ => {
                s.preds[0].value = good.clone();
                *s.vals.get_mut(&names[i]).unwrap() = good.clone();
                "value-changed-everywhere"
            }
        };
        if let Some(x) = prove(&[s], &nb, &mut r, CList::Honest) {
            let proof: Proof = from(x);
            let mut vf = verifier(&sh, &[]).unwrap();
            g.eval();
            g.nontrivial();
            g.label(format!("{}{}", name, if rq.revealed.contains(&names[i]) { " revealed" } else { "" }));
            g.show(format!("{} {:?} value {}", name, p, v[i]));
            ensure!(!accepted(&mut vf, &proof, &nonce)?, &format!("forged-{}", name), "{:?} is false of {} but a proof ({}) was accepted", p, v[i], name);
        }
    }
    Ok(())
}

fn c04_four_squares(g: &mut G) -> R {
    use ursa::cl::helpers::four_squares;
    // either a block of consecutive small numbers or numbers of special forms
    let high = if g.bool() { 5000 } else { 40000 };
    let block = if g.chance(2, 3) { Some(g.draw(high) as i64) } else { None };
    for i in 0..if block.is_some() { 100 } else { 20 } {
        let d: i64 = match if block.is_some() { 8 } else { g.draw(7) } {
            8 => block.unwrap() + i,
            0 => g.draw(300) as i64,
            7 => {
                // two squares are enough
                let (a, b) = (g.draw(46340) as i64, g.draw(46340) as i64);
                (a * a + b * b) >> (2 * g.draw(12))
            }
            6 => {
                let m = [1, 2, 3, 5, 6, 7, 14, 15, 30, 46][g.below(10)];
                ((m as i64) << (2 * g.draw(15))).min(u32::MAX as i64) // few decompositions
            }
            1 => i32::MAX as i64 - g.draw(100) as i64,
            2 => u32::MAX as i64 - g.draw(100) as i64,
            3 => -(g.draw(u32::MAX as u64) as i64),
            4 => {
                let k = 1 << g.draw(15);
                let j = g.draw(40) as i64;
                (k as i64 * (8 * j + 7)).min(u32::MAX as i64) // needs four squares
            }
            _ => g.draw(u32::MAX as u64) as i64,
        };
        g.eval();
        g.nontrivial();
        g.show(format!("{}", d));
        let r = match no_panic(|| four_squares(d)) {
            Ok(r) => r,
            Err(m) => return fail("four-squares-panics", format!("four_squares({}) aborted: {}", d, m)),
        };
        match r {
            Err(_) => ensure!(d < 0, "four-squares", "four_squares({}) failed", d),
            Ok(m) => {
                ensure!(d >= 0 && m.len() == 4, "four-squares", "four_squares({}) = {:?}", d, m.len());
                let s = (0..4).map(|i| big(&m[&i.to_string()])).fold(BigInt::from(0), |a, x| a + &x * &x);
                ensure!(s == BigInt::from(d), "four-squares", "the squares for {} add up to {}", d, s);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C05

fn c05_model(g: &mut G) -> R {
    let k = if is_large() { g.range(5, 9) } else { g.range(2, 4) };
    // "shared" is an attribute of every schema besides the holder's secret
    let shared = "shared id".to_string();
    let mut iss = vec![];
    let mut creds = vec![];
    let secrets = [secret256(g), secret256(g)];
    let ids = [value(g), value(g)];
    let (same_secret, same_id) = (!g.chance(1, 3), !g.chance(1, 3));
    let odd = g.below(k);
    for i in 0..k {
        let mut attrs = attr_names(g, 1, 3);
        attrs.push(shared.clone());
        let is = if i > 0 && g.chance(1, 6) { None } else { Some(make_issuer(g, attrs, vec![ms()], false)) };
        // sometimes a second credential of the same issuer
        let is = match is {
            Some(x) => x,
            None => {
                let l: &Iss = iss.last().unwrap();
                Iss { attrs: l.attrs.clone(), non: l.non.clone(), schema: l.schema.clone(), nschema: l.nschema.clone(), pk: l.pk.try_clone().unwrap(), sk: copy(&l.sk), kcp: l.kcp.try_clone().unwrap(), n: l.n.clone(), order: l.order.clone() }
            }
        };
        let s = if !same_secret && i == odd { &secrets[1] } else { &secrets[0] };
        let mut vals = gen_vals(g, &is, s, false);
        let id = if !same_id && i == odd { &ids[1] } else { &ids[0] };
        vals.insert(shared.clone(), (if g.bool() { Kind::Known } else { Kind::Hidden }, id.clone(), BigInt::from(0)));
        creds.push(issue(&is, vals, None, PROVER, 0, false)?);
        iss.push(is);
    }
    let eq_secret = same_secret || secrets[0] == secrets[1];
    let eq_id = same_id || ids[0] == ids[1];
    let common: Vec<String> = match g.draw(3) {
        0 => vec![ms(), shared.clone()],
        1 => vec![shared.clone()],
        _ => vec![ms()],
    };
    let expect = (eq_secret || !common.contains(&ms())) && (eq_id || !common.contains(&shared));
    let mut order: Vec<usize> = (0..k).collect();
    g.shuffle(&mut order);
    let mut sh: Vec<Show> = vec![];
    for i in &order {
        let req = request(g, &iss[*i], &creds[*i].vals, &common);
        sh.push(Show { iss: &iss[*i], cred: &creds[*i], req, rev: None });
    }
    g.label(format!("{} credentials, {:?} equal={}", k, common.len(), expect));
    g.show(format!("order {:?} common {:?} equal secret {} id {} {}", order, common, eq_secret, eq_id, desc(&sh)));
    g.nontrivial();
    g.eval();
    let mut vf = verifier(&sh, &common).unwrap();
    let rounds = 1 + g.below(3);
    for _ in 0..rounds {
        let nonce = some_nonce();
        let ok = match present(&sh, &common, &nonce) {
            Ok(p) => {
                // one verifier object for all presentations, and a presentation it must reject in between
                if g.bool() {
                    g.eval();
                    ensure!(!accepted(&mut vf, &p, &some_nonce())?, "other-nonce-accepted", "accepted for another nonce");
                }
                accepted(&mut vf, &p, &nonce)?
            }
            Err(_) => false,
        };
        g.eval();
        ensure!(ok == expect, if expect { "equal-values-rejected" } else { "different-values-accepted" }, "common {:?}: accepted = {} but the values being equal is {}", common, ok, expect);
    }
    // the prover declares nothing, or a different set: the verifier's set decides
    let nonce = some_nonce();
    let p = present(&sh, &[], &nonce).map_err(|m| Fail { sig: "present-honest".into(), msg: m })?;
    g.eval();
    ensure!(!accepted(&mut verifier(&sh, &common).unwrap(), &p, &nonce)?, "undeclared-common-accepted", "accepted although the prover did not link the credentials");
    ensure!(accepted(&mut verifier(&sh, &[]).unwrap(), &p, &nonce)?, "honest-rejected", "rejected without common attributes");
    if expect {
        let p = present(&sh, &common, &nonce).map_err(|m| Fail { sig: "present-honest".into(), msg: m })?;
        ensure!(accepted(&mut verifier(&sh, &[]).unwrap(), &p, &nonce)?, "honest-rejected", "rejected although the verifier asks for less");
    }
    Ok(())
}

fn c05_forge(g: &mut G) -> R {
    let k = 2 + g.below(2);
    let shared = "shared id".to_string();
    let mut iss = vec![];
    let mut creds = vec![];
    let base = value(g);
    let equal = g.chance(1, 4);
    let secret = secret256(g);
    for i in 0..k {
        let mut attrs = attr_names(g, 1, 2);
        attrs.push(shared.clone());
        let is = make_issuer(g, attrs, vec![ms()], false);
        let mut vals = gen_vals(g, &is, &secret, false);
        let id = if equal { base.clone() } else { &base + BigInt::from(i) };
        vals.insert(shared.clone(), (Kind::Known, id, BigInt::from(0)));
        creds.push(issue(&is, vals, None, PROVER, 0, false)?);
        iss.push(is);
    }
    let what = if equal { 0 } else { 1 + g.draw(2) };
    let common = vec![shared.clone()];
    let mut sh = vec![];
    for i in 0..k {
        let mut req = request(g, &iss[i], &creds[i].vals, &common);
        if what == 3 {
            req.revealed.insert(shared.clone());
        }
        sh.push(Show { iss: &iss[i], cred: &creds[i], req, rev: None });
    }
    let nonce = some_nonce();
    let mut r = ChaChaRng::seed_from_u64(g.u64());
    let mt = rbits(&mut r, 592);
    let mut subs: Vec<PSub> = sh.iter().map(|s| PSub::of(s.iss, s.cred, &s.req)).collect();
    for s in subs.iter_mut() {
        s.mtilde.insert(shared.clone(), mt.clone());
        match what {
            // the same response forced into all sub proofs
            1 | 3 => {
                s.force_m.insert(shared.clone(), BigInt::from(12345));
            }
            _ => {}
        }
    }
    let mut vf = Verifier::new_proof_verifier().unwrap();
    for c in &common {
        vf.add_common_attribute(c).unwrap();
    }
    let t = g.below(k);
    for (i, s) in sh.iter().enumerate() {
        if what == 2 && i == t {
            // a schema without the attribute: the proof puts an unproven response there
            let attrs: Vec<String> = s.iss.attrs.iter().filter(|a| **a != shared).cloned().collect();
            vf.add_sub_proof_request(&s.req.lib(), &schema(&attrs), &s.iss.nschema, &s.iss.pk, None, None).unwrap();
        } else {
            vf.add_sub_proof_request(&s.req.lib(), &s.iss.schema, &s.iss.nschema, &s.iss.pk, None, None).unwrap();
        }
    }
    if what == 2 {
        // a credential for the smaller schema, whose m gets the response of the others copied in
        let s = &sh[t];
        let attrs: Vec<String> = s.iss.attrs.iter().filter(|a| **a != shared).cloned().collect();
        if attrs.is_empty() {
            return Ok(());
        }
        let is2 = make_issuer(g, attrs, vec![ms()], false);
        let vals2 = gen_vals(g, &is2, &secret, false);
        let c2 = issue(&is2, vals2, None, PROVER, 0, false)?;
        let req2 = request(g, &is2, &c2.vals, &common);
        let nb = big(&nonce);
        // all others equal to each other, so that only the missing attribute can be the reason
        let mut subs2: Vec<PSub> = vec![];
        let other = (t + 1) % k;
        subs2.push(PSub::of(sh[other].iss, sh[other].cred, &sh[other].req));
        subs2[0].mtilde.insert(shared.clone(), mt.clone());
        subs2.push(PSub::of(&is2, &c2, &req2));
        let seed = g.u64();
        // the response depends on the challenge but not the other way round: prove twice with the same seed
        let first = prove(&subs2, &nb, &mut ChaChaRng::seed_from_u64(seed), CList::Honest);
        let first = match first {
            Some(x) => x,
            None => return Ok(()),
        };
        let mh = num(&first["proofs"][0]["primary_proof"]["eq_proof"]["m"][shared.as_str()]);
        subs2[1].extra_m.insert(shared.clone(), mh);
        let proof: Proof = from(prove(&subs2, &nb, &mut ChaChaRng::seed_from_u64(seed), CList::Honest).unwrap());
        let mut v2 = Verifier::new_proof_verifier().unwrap();
        v2.add_common_attribute(&shared).unwrap();
        v2.add_sub_proof_request(&sh[other].req.lib(), &sh[other].iss.schema, &sh[other].iss.nschema, &sh[other].iss.pk, None, None).unwrap();
        v2.add_sub_proof_request(&req2.lib(), &is2.schema, &is2.nschema, &is2.pk, None, None).unwrap();
        g.eval();
        g.nontrivial();
        g.label("attribute-missing-in-schema");
        ensure!(!accepted(&mut v2, &proof, &nonce)?, "forged-common-not-in-schema", "a common attribute that one credential does not have was accepted");
        return Ok(());
    }
    let names = ["honest", "forced-equal-response", "", "revealed-with-invented-response"];
    // what 1 with same randomness only
    if what == 1 && g.bool() {
        for s in subs.iter_mut() {
            s.force_m.clear();
        }
    }
    if let Some(x) = prove(&subs, &big(&nonce), &mut r, CList::Honest) {
        let proof: Proof = from(x);
        g.eval();
        g.nontrivial();
        g.label(names[what as usize]);
        g.show(format!("{} {}", names[what as usize], desc(&sh)));
        let ok = accepted(&mut vf, &proof, &nonce)?;
        ensure!(ok == (what == 0), &format!("common-{}", names[what as usize]), "{}: accepted = {}", names[what as usize], ok);
    }
    Ok(())
}

fn _unused(_: &BTreeSet<u32>, _: Option<Prover>) {}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C02",
            rule: "at least one altered, transplanted or forged presentation was decoded and judged by the verifier",
            assumptions: vec!["issuer keys come from a pool of safe primes of 512 and 1024 bits", "changes that the message format cannot express are skipped"],
            subs: vec![sub("mutate", 300, 6000, 20, c02_mutate), sub("context", 60, 3000, 10, c02_context), sub("large-mutate", 2, 60, 4, |g| large(g, c02_mutate)), sub("large-context", 2, 60, 4, |g| large(g, c02_context)), sub("forge", 120, 3000, 10, c02_forge), sub("link", 2, 20, 0, c02_link)],
        },
        Prop {
            id: "C04",
            rule: "at least one predicate proof was attempted and its outcome compared with the integer comparison",
            assumptions: vec!["GE t and GT t-1 (LE t and LT t+1) are the same statement about integers"],
            subs: vec![sub("truth", 400, 4000, 20, c04_truth), sub("relabel", 200, 2000, 20, c04_relabel), sub("forge", 300, 6000, 20, c04_forge), sub("four-squares", 600, 20000, 60, c04_four_squares)],
        },
        Prop {
            id: "C05",
            rule: "at least one presentation over two or more credentials with a common attribute was judged",
            assumptions: vec!["issuer keys come from a pool of safe primes of 512 and 1024 bits"],
            subs: vec![sub("model", 250, 3000, 10, c05_model), sub("large", 3, 100, 4, |g| large(g, c05_model)), sub("forge", 250, 5000, 10, c05_forge)],
        },
    ]
}
