//! C06 (revocation histories) and C07 (registry deltas)
use crate::cl1::*;
use crate::clw::*;
use pbt::*;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashSet};
use ursa::cl::issuer::Issuer;
use ursa::cl::*;
use ursa::errors::prelude::*;
use ursa::pair::PointG2;

fn point(v: &Value) -> PointG2 {
    PointG2::from_string(v.as_str().unwrap()).unwrap()
}
fn canon(v: &Value) -> Vec<u8> {
    pbytes(&point(v))
}
fn pbytes(p: &PointG2) -> Vec<u8> {
    // the bytes of the point at infinity depend on how it was reached
    if *p == PointG2::new_inf().unwrap() {
        return vec![];
    }
    p.to_bytes().unwrap()
}
fn acc(r: &RevocationRegistry) -> Vec<u8> {
    canon(&js(r)["accum"])
}
fn omega(w: &Witness) -> Vec<u8> {
    canon(&js(w)["omega"])
}
fn tail(t: &dyn RevocationTailsAccessor, i: u32) -> PointG2 {
    let mut out = None;
    t.access_tail(i, &mut |x| out = Some(*x)).unwrap();
    out.unwrap()
}
fn sum<I: Iterator<Item = PointG2>>(it: I) -> Vec<u8> {
    pbytes(&it.fold(PointG2::new_inf().unwrap(), |a, x| a.add(&x).unwrap()))
}

/// Tails that cannot be read from some position on
struct Broken<'a> {
    t: &'a SimpleTailsAccessor,
    left: std::cell::Cell<u32>,
    /// the failing access has already shown the tail
    late: bool,
}
impl<'a> RevocationTailsAccessor for Broken<'a> {
    fn access_tail(&self, id: u32, f: &mut dyn FnMut(&Tail)) -> UrsaCryptoResult<()> {
        if self.left.get() == 0 {
            if self.late {
                self.t.access_tail(id, f)?;
            }
            return Err(err_msg(UrsaCryptoErrorKind::IOError, "no more tails"));
        }
        self.left.set(self.left.get() - 1);
        self.t.access_tail(id, f)
    }
}

fn disjoint(g: &mut G, r: &Reg) -> (BTreeSet<u32>, BTreeSet<u32>) {
    let (mut a, mut b) = (BTreeSet::new(), BTreeSet::new());
    for i in 1..=r.max {
        if g.chance(1, 3) {
            if r.valid.contains(&i) {
                b.insert(i);
            } else {
                a.insert(i);
            }
        }
    }
    (a, b)
}
fn batch(r: &mut Reg, a: &BTreeSet<u32>, b: &BTreeSet<u32>) -> R {
    let before = r.reg.clone();
    let d = e("update", "update_revocation_registry", Issuer::update_revocation_registry(&mut r.reg, r.max, a.clone(), b.clone(), &r.tails))?;
    check_delta(&d, &before, &r.reg, &a.iter().cloned().collect::<Vec<_>>(), &b.iter().cloned().collect::<Vec<_>>())?;
    for i in a {
        r.valid.insert(*i);
    }
    for i in b {
        r.valid.remove(i);
    }
    r.deltas.push(d);
    Ok(())
}
/// the accumulator is the sum of the valid tails
fn check_acc(r: &Reg) -> R {
    let want = sum(r.valid.iter().map(|j| tail(&r.tails, r.max + 1 - j)));
    ensure!(acc(&r.reg) == want, "accumulator", "the registry does not stand for {:?} (of {}, issuance by default {})", r.valid, r.max, r.by_default);
    Ok(())
}
fn want_witness(r: &Reg, idx: u32) -> Vec<u8> {
    sum(r.valid.iter().filter(|j| **j != idx).map(|j| tail(&r.tails, r.max + 1 - j + idx)))
}
fn check_witness(r: &Reg, idx: u32, w: &Witness, how: &str) -> R {
    ensure!(omega(w) == want_witness(r, idx), "witness", "the witness of {} ({}) is not the one for {:?} (of {}, issuance by default {})", idx, how, r.valid, r.max, r.by_default);
    Ok(())
}
/// deltas[from..to] as one
fn merged(g: &mut G, ds: &[RevocationRegistryDelta]) -> Result<RevocationRegistryDelta, Fail> {
    let mut l: Vec<RevocationRegistryDelta> = vec![];
    for d in ds {
        l.push(rt(g.bool(), "RevocationRegistryDelta", d.clone())?);
    }
    while l.len() > 1 {
        let i = g.below(l.len() - 1);
        let b = l.remove(i + 1);
        e("merge", "merge of consecutive deltas", l[i].merge(&b))?;
    }
    Ok(l.pop().unwrap())
}
fn bad_index(g: &mut G, max: u32) -> u32 {
    match g.draw(4) {
        0 => 0,
        1 => max + 1,
        2 => max + 2 + g.draw(max as u64 + 2) as u32,
        3 => u32::MAX - g.draw(2) as u32,
        _ => (1u32 << 31) + g.draw(2) as u32 - 1,
    }
}

struct Holder {
    cred: Cred,
    idx: u32,
    w: Witness,
    seen: usize,
    /// a witness from a time at which the credential was valid
    stale: Option<Witness>,
}
struct Old {
    proof: Proof,
    nonce: Nonce,
    req: Req,
    acc: Vec<u8>,
}

fn catch_up(g: &mut G, r: &Reg, h: &mut Holder, to: usize) -> R {
    while h.seen < to {
        let n = 1 + g.below(to - h.seen);
        let d = merged(g, &r.deltas[h.seen..h.seen + n])?;
        e("witness-update", "Witness::update", h.w.update(h.idx, r.max, &d, &r.tails))?;
        h.w = rt(g.chance(1, 4), "Witness", h.w.clone())?;
        h.seen += n;
    }
    Ok(())
}

fn attempt(iss: &Iss, r: &Reg, against: &RevocationRegistry, h: &Holder, w: &Witness, req: &Req) -> Result<(bool, Option<(Proof, Nonce)>), Fail> {
    let sh = [Show { iss, cred: &h.cred, req: req.clone(), rev: Some((r, w.clone())) }];
    let nonce = some_nonce();
    let p = match present(&sh, &[], &nonce) {
        Ok(p) => p,
        Err(_) => return Ok((false, None)),
    };
    let mut v = verifier::ProofVerifier::from_shows(&sh, against)?;
    Ok((accepted(&mut v, &p, &nonce)?, Some((p, nonce))))
}
trait FromShows: Sized {
    fn from_shows(sh: &[Show], against: &RevocationRegistry) -> Result<Self, Fail>;
}
impl FromShows for verifier::ProofVerifier {
    fn from_shows(sh: &[Show], against: &RevocationRegistry) -> Result<Self, Fail> {
        let mut v = verifier::Verifier::new_proof_verifier().unwrap();
        for s in sh {
            e("verifier-honest", "add_sub_proof_request", v.add_sub_proof_request(&s.req.json(), &s.iss.schema, &s.iss.nschema, &s.iss.pk, Some(&s.rev.as_ref().unwrap().0.key_pub), Some(against)))?;
        }
        Ok(v)
    }
}

fn judge(g: &mut G, iss: &Iss, r: &Reg, h: &mut Holder, history: &[RevocationRegistry], old: &mut Vec<Old>) -> R {
    let to = r.deltas.len();
    catch_up(g, r, h, to)?;
    check_witness(r, h.idx, &h.w, "kept up to date")?;
    let fresh = r.witness(h.idx)?;
    check_witness(r, h.idx, &fresh, "computed afresh")?;
    let req = request(g, iss, &h.cred.vals, &[]);
    let valid = r.valid.contains(&h.idx);
    let w = if g.bool() { h.w.clone() } else { fresh };
    g.eval();
    g.nontrivial();
    g.label(if valid { "valid" } else { "revoked" });
    let (ok, p) = attempt(iss, r, &r.reg, h, &w, &req)?;
    ensure!(ok == valid, if valid { "valid-rejected" } else { "revoked-accepted" }, "index {} of {} is {} but its presentation was {}", h.idx, r.max, if valid { "valid" } else { "revoked" }, if ok { "accepted" } else { "not accepted" });
    // presentations made earlier
    for o in old.iter() {
        let sh = [Show { iss, cred: &h.cred, req: o.req.clone(), rev: Some((r, w.clone())) }];
        let same = o.acc == acc(&r.reg);
        g.eval();
        g.label(if same { "earlier proof, same registry" } else { "earlier proof, newer registry" });
        let ok = accepted(&mut verifier::ProofVerifier::from_shows(&sh, &r.reg)?, &o.proof, &o.nonce)?;
        ensure!(ok == same, "superseded-accepted", "a presentation for {} registry was {}", if same { "an equal" } else { "a superseded" }, if ok { "accepted" } else { "rejected" });
    }
    // against another state of the registry
    let o = g.pick(history).clone();
    if acc(&o) != acc(&r.reg) {
        g.eval();
        g.label("other state");
        let (ok, _) = attempt(iss, r, &o, h, &w, &req)?;
        ensure!(!ok, "other-state-accepted", "a presentation made for the current registry was accepted for another state");
    }
    if valid {
        h.stale = Some(h.w.clone());
        if let Some((proof, nonce)) = p {
            if old.len() < 3 {
                old.push(Old { proof, nonce, req, acc: acc(&r.reg) });
            }
        }
    } else {
        // what a revoked holder may try
        if let Some(s) = h.stale.clone() {
            g.eval();
            g.label("stale witness");
            ensure!(!attempt(iss, r, &r.reg, h, &s, &req)?.0, "revoked-accepted", "accepted with the witness from before the revocation");
        }
        let l = r.max;
        for k in vec![l + 1, g.draw(2 * l as u64) as u32] {
            for plus in 0..2 {
                let o = point(&js(&h.w)["omega"]);
                let t = tail(&r.tails, k);
                let o = if plus == 1 { o.add(&t).unwrap() } else { o.sub(&t).unwrap() };
                let w2: Witness = from(json!({ "omega": js(&o) }));
                g.eval();
                g.label("witness made from a published tail");
                ensure!(!attempt(iss, r, &r.reg, h, &w2, &req)?.0, "revoked-accepted", "accepted with a witness made from the published tail {}", k);
            }
        }
    }
    Ok(())
}

fn c06_history(g: &mut G) -> R {
    let attrs = attr_names(g, 1, 3);
    let iss = make_issuer(g, attrs, vec![ms()], true);
    let max = if is_large() { g.range(256, 300) as u32 } else { 1 + g.draw(7) as u32 };
    let by_default = g.bool();
    let mut r = make_reg(&iss, max, by_default)?;
    // no published tail may be the one for index L+1, which belongs to the registry's public key
    let z = js(&r.key_pub)["z"].clone();
    let gp: ursa::pair::PointG1 = from(js(&iss.pk)["r_key"]["g"].clone());
    for k in 0..=2 * max {
        if is_large() && k % 16 != 0 && (k as i64 - max as i64).abs() > 2 {
            continue;
        }
        let p = ursa::pair::Pair::pair(&gp, &tail(&r.tails, k)).unwrap();
        ensure!(p != from::<ursa::pair::Pair>(z.clone()), "published-secret-tail", "tail {} of {} is published", k, max);
    }
    let mut hs: Vec<Holder> = vec![];
    let mut history = vec![r.reg.clone()];
    let mut old: Vec<Old> = vec![];
    let steps = 3 + g.range(0, 9) as usize;
    let secret = secret256(g);
    let mut log: Vec<String> = vec![];
    check_acc(&r)?;
    for _ in 0..steps {
        let i = 1 + g.draw(max as u64 - 1) as u32;
        let what = if hs.is_empty() { 0 } else { g.draw(9) };
        let before = r.reg.clone();
        match what {
            0 | 1 => {
                // credentials go to indices that have none; on demand, to ones that are not accumulated
                let free: Vec<u32> = (1..=max).filter(|x| hs.iter().all(|h| h.idx != *x) && (by_default || !r.valid.contains(x))).collect();
                if let Some(idx) = free.get(i as usize % free.len().max(1)).cloned() {
                    let vals = gen_vals(g, &iss, &secret, false);
                    let was = r.valid.contains(&idx);
                    if by_default && !was {
                        continue;
                    }
                    let ser = g.chance(1, 4);
                    let c = issue(&iss, vals, Some((&mut r, idx)), PROVER, 0, ser)?;
                    let w = r.witness(idx)?;
                    log.push(format!("issue {}", idx));
                    hs.push(Holder { cred: c, idx, w: w.clone(), seen: r.deltas.len(), stale: Some(w) });
                }
            }
            2 | 3 => {
                log.push(format!("toggle {}", i));
                churn_one(&mut r, i)?;
            }
            4 => {
                let (a, b) = disjoint(g, &r);
                log.push(format!("update +{:?} -{:?}", a, b));
                batch(&mut r, &a, &b)?;
            }
            5 => {
                let k = bad_index(g, max);
                log.push(format!("bad index {}", k));
                bad_calls(g, &iss, &mut r, k, &hs)?;
                ensure!(acc(&r.reg) == acc(&before), "error-changes-registry", "a refused operation on index {} changed the registry", k);
                ensure!(js(&r.reg) == js(&before), "error-changes-registry", "a refused operation on index {} changed the registry", k);
            }
            6 => {
                // the tails cannot be read
                let left = g.draw(max as u64) as u32;
                let (a, b) = disjoint(g, &r);
                let late = g.bool();
                let t = Broken { t: &r.tails, left: std::cell::Cell::new(left), late };
                let need = (a.len() + b.len()) as u32;
                let mut reg = r.reg.clone();
                let x = Issuer::update_revocation_registry(&mut reg, max, a.clone(), b.clone(), &t);
                log.push(format!("tails fail after {} of {}", left, need));
                ensure!(x.is_ok() == (left >= need), "tails-error-ignored", "{} of {} tails could be read and update_revocation_registry gave {:?}", left, need, x.is_ok());
                if x.is_err() {
                    ensure!(js(&reg) == js(&r.reg), "error-changes-registry", "a failed update changed the registry");
                }
                let none = || Broken { t: &r.tails, left: std::cell::Cell::new(0), late };
                ensure!(Issuer::revoke_credential(&mut reg, max, i, &none()).is_err() || left >= need, "tails-error-ignored", "revoke_credential without tails succeeded");
                let mut reg = r.reg.clone();
                ensure!(Issuer::revoke_credential(&mut reg, max, i, &none()).is_err(), "tails-error-ignored", "revoke_credential without tails succeeded");
                ensure!(Issuer::recovery_credential(&mut reg, max, i, &none()).is_err(), "tails-error-ignored", "recovery_credential without tails succeeded");
                ensure!(js(&reg) == js(&r.reg), "error-changes-registry", "a failed update changed the registry");
                if (1..=max).any(|j| j != i && r.valid.contains(&j)) {
                    ensure!(Witness::new(i, max, by_default, &r.full_delta(), &none()).is_err(), "tails-error-ignored", "Witness::new without tails succeeded");
                }
            }
            7 => {
                let k = g.below(hs.len());
                let to = hs[k].seen + g.below(r.deltas.len() - hs[k].seen + 1);
                catch_up(g, &r, &mut hs[k], to)?;
            }
            _ => {
                let k = g.below(hs.len());
                judge(g, &iss, &r, &mut hs[k], &history, &mut old)?;
            }
        }
        check_acc(&r)?;
        history.push(r.reg.clone());
    }
    g.show(format!("registry of {} by default {}: {}", max, by_default, log.join(", ")));
    for k in 0..hs.len() {
        judge(g, &iss, &r, &mut hs[k], &history, &mut old)?;
    }
    Ok(())
}

fn churn_one(r: &mut Reg, i: u32) -> R {
    let before = r.reg.clone();
    if r.valid.contains(&i) {
        let d = e("revoke", "revoke_credential", Issuer::revoke_credential(&mut r.reg, r.max, i, &r.tails))?;
        check_delta(&d, &before, &r.reg, &[], &[i])?;
        r.valid.remove(&i);
        r.deltas.push(d);
    } else {
        let d = e("recover", "recovery_credential", Issuer::recovery_credential(&mut r.reg, r.max, i, &r.tails))?;
        check_delta(&d, &before, &r.reg, &[i], &[])?;
        r.valid.insert(i);
        r.deltas.push(d);
    }
    Ok(())
}

/// every operation refuses an index outside the registry
fn bad_calls(g: &mut G, iss: &Iss, r: &mut Reg, k: u32, hs: &[Holder]) -> R {
    let max = r.max;
    let one: BTreeSet<u32> = vec![k].into_iter().collect();
    let mut some = one.clone();
    some.insert(1);
    let (reg, tails) = (&mut r.reg, &r.tails);
    let mut check = |name: &str, f: &mut dyn FnMut(&mut RevocationRegistry) -> bool| -> R {
        match no_panic(|| f(reg)) {
            Err(m) => fail("bad-index-panics", format!("{} with index {} of {} aborted: {}", name, k, max, m)),
            Ok(ok) => {
                ensure!(!ok, "bad-index-accepted", "{} accepted index {} of {}", name, k, max);
                Ok(())
            }
        }
    };
    check("revoke_credential", &mut |reg| Issuer::revoke_credential(reg, max, k, tails).is_ok())?;
    check("recovery_credential", &mut |reg| Issuer::recovery_credential(reg, max, k, tails).is_ok())?;
    check("update_revocation_registry", &mut |reg| Issuer::update_revocation_registry(reg, max, some.clone(), BTreeSet::new(), tails).is_ok())?;
    check("update_revocation_registry", &mut |reg| Issuer::update_revocation_registry(reg, max, BTreeSet::new(), some.clone(), tails).is_ok())?;
    let full = RevocationRegistryDelta::from_parts(None, reg, &HashSet::new(), &HashSet::new());
    let with_bad = RevocationRegistryDelta::from_parts(None, reg, &one.iter().cloned().collect(), &HashSet::new());
    let with_bad2 = RevocationRegistryDelta::from_parts(None, reg, &HashSet::new(), &one.iter().cloned().collect());
    let by_default = r.by_default;
    let mut check = |name: &str, f: &mut dyn FnMut() -> bool| -> R {
        match no_panic(|| f()) {
            Err(m) => fail("bad-index-panics", format!("{} with index {} of {} aborted: {}", name, k, max, m)),
            Ok(ok) => {
                ensure!(!ok, "bad-index-accepted", "{} accepted index {} of {}", name, k, max);
                Ok(())
            }
        }
    };
    check("Witness::new", &mut || Witness::new(k, max, by_default, &full, tails).is_ok())?;
    check("Witness::new (delta)", &mut || Witness::new(1, max, by_default, &with_bad, tails).is_ok())?;
    if let Some(h) = hs.first() {
        let before = omega(&h.w);
        let mut w = h.w.clone();
        check("Witness::update", &mut || w.update(h.idx, max, &with_bad, tails).is_ok() || w.update(h.idx, max, &with_bad2, tails).is_ok())?;
        ensure!(omega(&w) == before, "error-changes-witness", "a refused update changed the witness");
    }
    // issuance
    if g.chance(1, 3) {
        let mut vals = Vals::new();
        let secret = secret256(g);
        vals.extend(gen_vals(g, iss, &secret, false));
        let b = blind(iss, &mk_values_how(0, &vals), false)?;
        let known: Vals = vals.iter().filter(|(_, v)| v.0 == Kind::Known).map(|(k, v)| (k.clone(), v.clone())).collect();
        let known = mk_values_how(0, &known);
        let n = some_nonce();
        let before = js(&r.reg);
        let reg = &mut r.reg;
        let (kp, tails) = (&r.key_priv, &r.tails);
        let x = no_panic(|| Issuer::sign_credential_with_revoc(PROVER, &b.bs, &b.bp, &b.nonce, &n, &known, &iss.pk, &iss.sk, k, max, by_default, reg, kp, tails).is_ok());
        match x {
            Err(m) => return fail("bad-index-panics", format!("sign_credential_with_revoc with index {} of {} aborted: {}", k, max, m)),
            Ok(ok) => ensure!(!ok, "bad-index-accepted", "sign_credential_with_revoc accepted index {} of {}", k, max),
        }
        ensure!(js(&r.reg) == before, "error-changes-registry", "a refused issuance changed the registry");
        // the issuer cannot read the tails
        if !by_default {
            let t = Broken { t: &r.tails, left: std::cell::Cell::new(0), late: g.bool() };
            let mut reg = r.reg.clone();
            let x = Issuer::sign_credential_with_revoc(PROVER, &b.bs, &b.bp, &b.nonce, &n, &known, &iss.pk, &iss.sk, 1, max, by_default, &mut reg, &r.key_priv, &t).is_ok();
            ensure!(!x && js(&reg) == before, "tails-error-ignored", "issuance without tails succeeded or changed the registry");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C07

lazy_static::lazy_static! {
    /// accumulators need only the revocation part of a key
    static ref ISS: Vec<Iss> = {
        use rand_chacha::rand_core::SeedableRng;
        (0..3).map(|i| make_issuer_with(&P512[i], &P512[i + 1], &mut rand_chacha::ChaChaRng::seed_from_u64(i as u64), vec!["a".into()], vec![ms()], true)).collect()
    };
}

fn c07(g: &mut G) -> R {
    let iss = &ISS[g.below(3)];
    let max = if is_large() { g.range(256, 300) as u32 } else { 1 + g.draw(11) as u32 };
    let by_default = g.bool();
    let mut r = make_reg(iss, max, by_default)?;
    let mut states: Vec<(RevocationRegistry, BTreeSet<u32>)> = vec![(r.reg.clone(), r.valid.clone())];
    let n = 2 + g.range(0, 14) as usize;
    let mut log = vec![];
    let v0 = r.valid.clone();
    for _ in 0..n {
        let i = 1 + g.draw(max as u64 - 1) as u32;
        if g.chance(1, 3) {
            let (a, b) = disjoint(g, &r);
            log.push(format!("+{:?}-{:?}", a, b));
            batch(&mut r, &a, &b)?;
        } else {
            log.push(format!("{}{}", if r.valid.contains(&i) { "-" } else { "+" }, i));
            churn_one(&mut r, i)?;
        }
        states.push((r.reg.clone(), r.valid.clone()));
    }
    g.show(format!("{} by default {}: {}", max, by_default, log.join(" ")));
    g.nontrivial();
    for _ in 0..6 {
        let a = g.below(n);
        let b = a + 1 + g.below(n - a);
        let m = merged(g, &r.deltas[a..b])?;
        let iss_: HashSet<u32> = states[b].1.difference(&states[a].1).cloned().collect();
        let rev: HashSet<u32> = states[a].1.difference(&states[b].1).cloned().collect();
        let want = RevocationRegistryDelta::from_parts(Some(&states[a].0), &states[b].0, &iss_, &rev);
        g.eval();
        let (mj, wj) = (djs(&m), djs(&want));
        ensure!(mj["issued"] == wj["issued"] && mj["revoked"] == wj["revoked"], "merged-sets", "deltas {}..{} merged give issued {} revoked {}, the states differ by issued {} revoked {}", a, b, mj["issued"], mj["revoked"], wj["issued"], wj["revoked"]);
        ensure!(canon(&mj["prevAccum"]) == canon(&wj["prevAccum"]) && canon(&mj["accum"]) == canon(&wj["accum"]), "merged-accumulators", "the merged delta of {}..{} does not lead from one state to the other", a, b);
        // witness: state a, then this delta
        let idx = 1 + g.draw(max as u64 - 1) as u32;
        let at = |k: usize| -> Result<Witness, Fail> {
            let (i, v) = (states[k].1.difference(&v0).cloned().collect(), v0.difference(&states[k].1).cloned().collect());
            e("witness-new", "Witness::new", Witness::new(idx, max, by_default, &RevocationRegistryDelta::from_parts(None, &states[k].0, &i, &v), &r.tails))
        };
        let want_w = |k: usize| sum(states[k].1.iter().filter(|j| **j != idx).map(|j| tail(&r.tails, max + 1 - j + idx)));
        let mut w = at(a)?;
        ensure!(omega(&w) == want_w(a), "witness", "the witness of {} at state {} is wrong", idx, a);
        e("witness-update", "Witness::update", w.update(idx, max, &rt(g.bool(), "RevocationRegistryDelta", m.clone())?, &r.tails))?;
        g.eval();
        ensure!(omega(&w) == want_w(b), "witness", "the witness of {} updated from state {} to {} differs from the one computed from scratch", idx, a, b);
        ensure!(omega(&at(b)?) == want_w(b), "witness", "the witness of {} at state {} is wrong", idx, b);
        // not consecutive: refused, and nothing changes
        let c = g.below(n);
        let d = c + 1 + g.below(n - c);
        let other = merged(g, &r.deltas[c..d])?;
        let mut x = m.clone();
        let ok = x.merge(&other).is_ok();
        let consecutive = acc(&states[b].0) == acc(&states[c].0);
        g.eval();
        g.label(if consecutive { "consecutive" } else { "not consecutive" });
        ensure!(ok == consecutive, if consecutive { "merge" } else { "merge-not-consecutive" }, "merging {}..{} with {}..{}: accepted {}", a, b, c, d, ok);
        if !ok {
            ensure!(djs(&x) == djs(&m), "error-changes-delta", "a refused merge changed the delta");
        }
        // a delta without a start cannot be appended
        let headless = RevocationRegistryDelta::from_parts(None, &states[b].0, &iss_, &rev);
        let mut x = m.clone();
        ensure!(x.merge(&headless).is_err() && djs(&x) == djs(&m), "merge-not-consecutive", "a delta without a previous state was merged");
        // but anything can be appended to it
        if b < n {
            let mut x = rt(true, "RevocationRegistryDelta", headless)?;
            e("merge", "merge into a delta without a start", x.merge(&r.deltas[b]))?;
            let v = djs(&x);
            ensure!(v.get("prevAccum").map_or(true, |p| p.is_null()), "merged-accumulators", "merging invented a start");
        }
    }
    // the whole history leads from the initial witness to the final one
    let all = merged(g, &r.deltas)?;
    for idx in 1..=max {
        let w = e("witness-new", "Witness::new", Witness::new(idx, max, by_default, &all, &r.tails))?;
        check_witness(&r, idx, &w, "from all deltas merged")?;
        let w = r.witness(idx)?;
        check_witness(&r, idx, &w, "computed afresh")?;
    }
    check_acc(&r)?;
    // the generator can be stored half-way
    let (_, _, _, mut gen) = e("new-registry", "new_revocation_registry_def", Issuer::new_revocation_registry_def(&iss.pk, max, by_default))?;
    let reference = SimpleTailsAccessor::new(&mut gen.clone()).unwrap();
    let stop = g.below(2 * max as usize + 2);
    let mut k = 0u32;
    loop {
        if k as usize == stop {
            gen = rt(true, "RevocationTailsGenerator", gen)?;
        }
        ensure!(gen.count() == 2 * max + 1 - k, "tails-count", "count() = {} after {} of {} tails", gen.count(), k, 2 * max + 1);
        match gen.try_next().unwrap() {
            Some(t) => {
                ensure!(t.to_bytes().unwrap() == tail(&reference, k).to_bytes().unwrap(), "tails-resume", "tail {} differs after storing the generator at {}", k, stop);
                k += 1;
            }
            None => break,
        }
    }
    ensure!(k == 2 * max + 1, "tails-count", "{} tails for a registry of {}", k, max);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            rule: "at least one credential was presented against a registry with a history and its acceptance compared with the model",
            assumptions: vec!["issuers revoke only accumulated and recover only non-accumulated indices: the registry object does not record them", "issuer keys come from a pool of safe primes of 512 and 1024 bits"],
            subs: vec![sub("history", 100, 6000, 40, c06_history), sub("large", 2, 60, 4, |g| large(g, c06_history))],
        },
        Prop {
            id: "C07",
            rule: "a history of at least two changes was cut into segments that were merged and applied",
            assumptions: vec!["issuers revoke only accumulated and recover only non-accumulated indices"],
            subs: vec![sub("merge", 800, 20000, 60, c07), sub("large", 4, 100, 4, |g| large(g, c07))],
        },
    ]
}
