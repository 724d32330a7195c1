//! C01 (honest runs), C04 (predicates), C05 (common attributes)
use crate::clw::*;
use num_bigint::BigInt;
use pbt::*;
use std::collections::BTreeSet;
use ursa::cl::issuer::Issuer;
use ursa::cl::*;

pub fn ms() -> String {
    "master_secret".to_string()
}

pub fn gen_vals(g: &mut G, iss: &Iss, secret: &BigInt, committed: bool) -> Vals {
    let mut vals = Vals::new();
    for (i, a) in iss.attrs.iter().enumerate() {
        let kind = match g.draw(9) {
            7 => Kind::Hidden,
            8 if committed && i > 0 => Kind::Committed,
            _ => Kind::Known,
        };
        vals.insert(a.clone(), (kind, value(g), BigInt::from(g.u64())));
    }
    for a in &iss.non {
        if *a == ms() {
            vals.insert(a.clone(), (Kind::Hidden, secret.clone(), BigInt::from(0)));
        } else {
            vals.insert(a.clone(), (Kind::Hidden, value(g), BigInt::from(0)));
        }
    }
    vals
}

/// random valid churn of the registry that keeps `keep` valid
pub fn churn(g: &mut G, r: &mut Reg, keep: &[u32], steps: usize) -> R {
    for _ in 0..steps {
        let i = 1 + g.draw(r.max as u64 - 1) as u32;
        if keep.contains(&i) {
            continue;
        }
        if r.valid.contains(&i) {
            let before = r.reg.clone();
            let d = e("revoke", "revoke_credential", Issuer::revoke_credential(&mut r.reg, r.max, i, &r.tails))?;
            check_delta(&d, &before, &r.reg, &[], &[i])?;
            r.valid.remove(&i);
            r.deltas.push(d);
        } else {
            let before = r.reg.clone();
            let d = e("recover", "recovery_credential", Issuer::recovery_credential(&mut r.reg, r.max, i, &r.tails))?;
            check_delta(&d, &before, &r.reg, &[i], &[])?;
            r.valid.insert(i);
            r.deltas.push(d);
        }
    }
    Ok(())
}

fn c01_runs(g: &mut G) -> R {
    let k = if is_large() { g.range(4, 7) } else { [1, 1, 1, 2, 2, 3][g.below(6)] };
    let ser = g.bool();
    let how = g.draw(2);
    let secret = secret256(g);
    let mut isss = vec![];
    for _ in 0..k {
        let attrs = attr_names(g, 1, 7);
        let mut non = vec![];
        if !g.chance(1, 8) || k > 1 {
            non.push(ms());
        }
        if g.chance(1, 6) {
            non.push("link_secret2".into());
        }
        let rev = g.bool();
        let mut iss = make_issuer(g, attrs, non, rev);
        if ser {
            iss.pk = rt(true, "CredentialPublicKey", iss.pk)?;
            iss.sk = rt(true, "CredentialPrivateKey", iss.sk)?;
            iss.kcp = rt(true, "CredentialKeyCorrectnessProof", iss.kcp)?;
            iss.schema = rt(true, "CredentialSchema", iss.schema)?;
            iss.nschema = rt(true, "NonCredentialSchema", iss.nschema)?;
        }
        isss.push((iss, rev));
    }
    let mut regs = vec![];
    for (iss, rev) in &isss {
        if *rev && !g.chance(1, 4) {
            let max = if is_large() { g.range(256, 300) as u32 } else { 1 + g.draw(5) as u32 };
            let d = g.bool();
            let mut r = make_reg(iss, max, d)?;
            if ser {
                r.key_pub = rt(true, "RevocationKeyPublic", r.key_pub)?;
                r.key_priv = rt(true, "RevocationKeyPrivate", r.key_priv)?;
                r.reg = rt(true, "RevocationRegistry", r.reg)?;
            }
            let n = g.below(3);
            churn(g, &mut r, &[], n)?;
            regs.push(Some(r));
        } else {
            regs.push(None);
        }
    }
    let mut creds = vec![];
    for (i, (iss, _)) in isss.iter().enumerate() {
        let vals = gen_vals(g, iss, &secret, true);
        let pid = if g.bool() { PROVER.to_string() } else { g.string(20) };
        g.show(format!("cred {}: {:?}", i, vals));
        let c = match regs[i].as_mut() {
            Some(r) => {
                // issuing on demand needs a free index; by default all are issued, some may be revoked
                let free: Vec<u32> = (1..=r.max).filter(|x| r.valid.contains(x) == r.by_default).collect();
                if free.is_empty() {
                    issue(iss, vals, None, &pid, how, ser)?
                } else {
                    let idx = if is_large() && g.chance(2, 3) { *free.last().unwrap() } else { *g.pick(&free) };
                    g.label(format!("rev default={} idx {} of {}", r.by_default, idx, r.max));
                    let c = issue(iss, vals, Some((r, idx)), &pid, how, ser)?;
                    let n = g.below(4);
                    churn(g, r, &[idx], n)?;
                    c
                }
            }
            None => issue(iss, vals, None, &pid, how, ser)?,
        };
        if c.vals.values().any(|v| v.0 == Kind::Committed) {
            g.label("committed");
        }
        creds.push(c);
        g.eval();
    }
    g.nontrivial();
    // a committed value is not part of the credential: issuance is all that can be done with it
    let usable: Vec<usize> = (0..k).filter(|i| creds[*i].vals.values().all(|v| v.0 != Kind::Committed)).collect();
    if usable.is_empty() {
        return Ok(());
    }
    for _ in 0..(1 + g.draw(1)) {
        let mut order = usable.clone();
        g.shuffle(&mut order);
        let take = 1 + g.below(order.len());
        order.truncate(take);
        let with_common = order.iter().all(|i| isss[*i].0.non.contains(&ms())) && g.bool();
        let common = if with_common { vec![ms()] } else { vec![] };
        let mut shows = vec![];
        for i in order {
            let req = request(g, &isss[i].0, &creds[i].vals, &[]);
            g.label(format!("revealed {} preds {}", req.revealed.len(), req.preds.len()));
            let rev = match (&regs[i], creds[i].idx) {
                (Some(r), Some(idx)) if !g.chance(1, 4) => Some((r, rt(ser, "Witness", r.witness(idx)?)?)),
                _ => None,
            };
            if rev.is_some() {
                g.label("non-revocation proof");
            }
            g.show(format!("request {:?} rev {}", req, rev.is_some()));
            shows.push(Show { iss: &isss[i].0, cred: &creds[i], req, rev });
        }
        let nonce = rt(ser, "nonce", some_nonce())?;
        let p = present(&shows, &common, &nonce).map_err(|m| Fail { sig: "present-honest".into(), msg: m })?;
        let p = rt(ser, "Proof", p)?;
        let mut v = verifier(&shows, &common).map_err(|m| Fail { sig: "verifier-honest".into(), msg: m })?;
        let r = v.verify(&p, &nonce);
        ensure!(matches!(r, Ok(true)), "honest-rejected", "an honest presentation was not accepted: {:?}", r.map_err(|x| x.to_string()));
        for (s, sp) in shows.iter().zip(&p.proofs) {
            let got = sp.revealed_attrs().unwrap();
            let want: std::collections::HashMap<String, String> = s.req.revealed.iter().map(|a| (a.clone(), s.cred.vals[a].1.to_string())).collect();
            ensure!(got == want, "revealed-values", "revealed_attrs() = {:?}, issued values are {:?}", got, want);
        }
        g.eval();
    }
    Ok(())
}

/// The library's own key generation (2048-bit moduli)
fn c01_real_keys(g: &mut G) -> R {
    let attrs = attr_names(g, 1, 4);
    let non = vec![ms()];
    let rev = g.bool();
    let (sc, ns) = (schema(&attrs), nschema(&non));
    let (pk, sk, kcp) = e("new-credential-def", "new_credential_def", Issuer::new_credential_def(&sc, &ns, rev))?;
    let pj = js(&pk);
    let n = BigInt::parse_bytes(pj["p_key"]["n"].as_str().unwrap().as_bytes(), 10).unwrap();
    let sj = js(&sk);
    let num = |s: &serde_json::Value| BigInt::parse_bytes(s.as_str().unwrap().as_bytes(), 10).unwrap();
    let (p, q) = (num(&sj["p_key"]["p"]), num(&sj["p_key"]["q"]));
    ensure!((&p * 2 + 1) * (&q * 2 + 1) == n, "key-modulus", "n is not (2p+1)(2q+1)");
    ensure!(p != q && n.bits() >= 2046, "key-size", "the modulus has {} bits", n.bits());
    let names: BTreeSet<String> = attrs.iter().chain(non.iter()).cloned().collect();
    let rn: BTreeSet<String> = pj["p_key"]["r"].as_object().unwrap().keys().cloned().collect();
    ensure!(names == rn, "key-attributes", "the key has bases for {:?}, the schema for {:?}", rn, names);
    // all bases lie in the group generated by s (squares modulo n)
    for (name, v) in pj["p_key"]["r"].as_object().unwrap().iter().map(|(k, v)| (k.as_str(), v)).chain(vec![("z", &pj["p_key"]["z"]), ("rctxt", &pj["p_key"]["rctxt"]), ("s", &pj["p_key"]["s"])]) {
        let x = num(v);
        ensure!(x > BigInt::from(1) && x < n && x.modpow(&(&p * &q), &n) == BigInt::from(1), "key-bases", "{} is not a non-trivial square modulo n", name);
    }
    ensure!(pk.get_revocation_key().unwrap().is_some() == rev, "key-revocation", "revocation key presence");
    let iss = Iss { schema: sc, nschema: ns, attrs, non, pk, sk, kcp, order: &p * &q, n };
    let secret = secret256(g);
    let vals = gen_vals(g, &iss, &secret, false);
    let ser = g.bool();
    let mut reg = if rev { Some(make_reg(&iss, 3, g.bool())?) } else { None };
    let cred = match reg.as_mut() {
        Some(r) => issue(&iss, vals, Some((r, 2)), PROVER, 0, ser)?,
        None => issue(&iss, vals, None, PROVER, 0, ser)?,
    };
    let req = request(g, &iss, &cred.vals, &[]);
    let rev = match &reg {
        Some(r) => Some((r, r.witness(2)?)),
        None => None,
    };
    let shows = [Show { iss: &iss, cred: &cred, req, rev }];
    let nonce = some_nonce();
    let p = present(&shows, &[ms()], &nonce).map_err(|m| Fail { sig: "present-honest".into(), msg: m })?;
    let mut v = verifier(&shows, &[ms()]).unwrap();
    ensure!(accepted(&mut v, &p, &nonce)?, "honest-rejected", "an honest presentation under a library-made key was not accepted");
    g.nontrivial();
    g.eval();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C01",
        rule: "at least one credential was issued through all correctness checks",
        assumptions: vec!["issuer keys mostly come from a pool of safe primes of 512 and 1024 bits; library-made 2048-bit keys in the real-keys part"],
        subs: vec![sub("runs", 400, 20000, 10, c01_runs), sub("large", 4, 100, 4, |g| large(g, c01_runs)), sub("real-keys", 4, 60, 0, c01_real_keys)],
    }]
}
