//! Z06, Z07: Groth signatures, delegation chains, attribute tokens
use crate::bbsx::e;
use crate::ps::{fe, fex, point};
use pbt::*;
use std::collections::{HashMap, HashSet};
use zmix::amcl_wrapper::extension_field_gt::GT;
use zmix::amcl_wrapper::field_elem::FieldElement;
use zmix::amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use zmix::amcl_wrapper::group_elem_g1::{G1Vector, G1};
use zmix::amcl_wrapper::group_elem_g2::{G2Vector, G2};
use zmix::signatures::delg_cred_cdd::attribute_token::*;
use zmix::signatures::delg_cred_cdd::groth_sig::*;
use zmix::signatures::delg_cred_cdd::issuer::*;

fn json<T: serde::Serialize + serde::de::DeserializeOwned>(what: &str, x: &T) -> Result<T, Fail> {
    let s = e(what, serde_json::to_string(x))?;
    e(what, serde_json::from_str(&s))
}
fn some_json<T: serde::Serialize + serde::de::DeserializeOwned>(g: &mut G, what: &str, x: T) -> Result<T, Fail> {
    if g.bool() {
        json(what, &x)
    } else {
        Ok(x)
    }
}
fn nonzero(g: &mut G) -> FieldElement {
    let f = fe(g);
    if f.is_zero() {
        FieldElement::one()
    } else {
        f
    }
}
fn label(g: &mut G) -> Vec<u8> {
    match g.below(3) {
        0 => b"test".to_vec(),
        1 => vec![],
        _ => g.bytes(0, 20),
    }
}

// the equations of the paper, one pairing at a time
fn ok1(sig: &Groth1Sig, m: &[G1], vk: &Groth1Verkey, p: &Groth1SetupParams) -> bool {
    let pr = GT::ate_pairing;
    m.len() == sig.T.len()
        && m.len() <= p.y.len()
        && pr(&sig.S, &sig.R) == &pr(&p.y[0], &p.g2) * &pr(&p.g1, &vk.0)
        && (0..m.len()).all(|i| pr(&sig.T[i], &sig.R) == &pr(&m[i], &p.g2) * &pr(&p.y[i], &vk.0))
}
fn ok2(sig: &Groth2Sig, m: &[G2], vk: &Groth2Verkey, p: &Groth2SetupParams) -> bool {
    let pr = GT::ate_pairing;
    m.len() == sig.T.len()
        && m.len() <= p.y.len()
        && pr(&sig.R, &sig.S) == &pr(&p.g1, &p.y[0]) * &pr(&vk.0, &p.g2)
        && (0..m.len()).all(|i| pr(&sig.R, &sig.T[i]) == &pr(&p.g1, &m[i]) * &pr(&vk.0, &p.y[i]))
}

macro_rules! groth {
    ($name:ident, $ok:ident, $S:ty, $Sig:ident, $Vk:ident, $Params:ty, $Msg:ty, $MsgVec:ty, $Key:ty, $gm:ident, $gk:ident) => {
        fn $name(g: &mut G) -> R {
            let n = if is_large() { g.range(17, 40) } else { 1 + g.below(6) };
            let lab = label(g);
            let p = <$S>::setup(n, &lab);
            ensure!(p.y.len() == n, "setup", "{} bases instead of {}", p.y.len(), n);
            {
                let q = <$S>::setup(n, &lab);
                ensure!(p.g1 == q.g1 && p.g2 == q.g2 && p.y == q.y, "setup", "two setups with a label differ");
                let mut other = lab.clone();
                other.push(b'x');
                let q = <$S>::setup(n, &other);
                ensure!(p.g1 != q.g1 && p.g2 != q.g2 && (0..n).all(|i| (0..n).all(|j| p.y[i] != q.y[j])), "setup", "other labels share bases");
                ensure!((0..n).all(|i| (0..i).all(|j| p.y[i] != p.y[j])) && (0..n).all(|i| p.y[i] != p.$gm), "setup", "repeated bases");
            }
            let p = some_json(g, "params", p)?;
            let (sk, vk) = if g.chance(1, 4) {
                let sk = nonzero(g);
                let vk = $Vk(&p.$gk * &sk);
                (sk, vk)
            } else {
                <$S>::keygen(&p)
            };
            ensure!(vk.0 == &p.$gk * &sk, "keygen", "the verification key is not that of the signing key");
            let k = if g.chance(1, 4) { g.range(0, n + 2) } else { n };
            let mut m: Vec<$Msg> = vec![];
            for i in 0..k {
                if i > 0 && g.chance(1, 6) {
                    let x = m[g.below(i)].clone();
                    m.push(x)
                } else {
                    m.push(point(g))
                }
            }
            g.label(format!("{} of {}", k, n));
            let sig = if g.chance(1, 4) && k <= n {
                // computed here
                let r = nonzero(g);
                let ri = r.inverse();
                let mut t = <$MsgVec>::with_capacity(k);
                for i in 0..k {
                    t.push(&(&m[i] + &(&p.y[i] * &sk)) * &ri);
                }
                $Sig { R: &p.$gk * &r, S: &(&p.y[0] + &(&p.$gm * &sk)) * &ri, T: t }
            } else {
                let r = no_panic(|| $Sig::new(&m, &sk, &p));
                match r {
                    Err(x) => return fail("panic", format!("signing {} messages of {} panics: {}", k, n, x)),
                    Ok(r) => {
                        ensure!(r.is_ok() == (k <= n), "count", "signing {} messages with room for {} gives {:?}", k, n, r.is_ok());
                        match r {
                            Ok(s) => s,
                            Err(_) => return Ok(()),
                        }
                    }
                }
            };
            let sig = some_json(g, "signature", sig)?;
            let vk = some_json(g, "key", vk)?;
            ensure!(sig.T.len() == k, "shape", "{} elements for {} messages", sig.T.len(), k);
            let mut sig2 = sig.clone();
            for _ in 0..g.below(3) {
                let r = nonzero(g);
                let s = sig2.randomize(&r);
                ensure!(s.R == &sig2.R * &r, "randomize", "R is not raised to the factor");
                sig2 = s;
            }
            for s in [&sig, &sig2].iter() {
                ensure!($ok(s, &m, &vk, &p), "equations", "the signature does not satisfy its equations");
                ensure!(e("verify", s.verify(&m, &vk, &p))?, "honest", "verify refuses an honest signature");
                ensure!(e("verify_batch", s.verify_batch(&m, &vk, &p))?, "honest", "verify_batch refuses an honest signature");
            }
            if k > 0 {
                g.nontrivial();
            }
            // alterations
            for _ in 0..4 {
                let (mut m, mut s, mut vk, mut p) = (m.clone(), sig2.clone(), vk.clone(), p.clone());
                let d: $Msg = point(g);
                let two = |g: &mut G| {
                    let i = g.below(k);
                    (i, (i + 1 + g.below(k - 1)) % k)
                };
                let what = match g.below(16) {
                    0 if k > 0 => {
                        let i = g.below(k);
                        m[i] = &m[i] + &d;
                        "a message"
                    }
                    1 if k > 1 => {
                        let (i, j) = two(g);
                        m[i] = &m[i] + &d;
                        m[j] = &m[j] - &d;
                        "two messages with the same sum"
                    }
                    2 if k > 1 => {
                        let (i, j) = two(g);
                        m.swap(i, j);
                        "two messages swapped"
                    }
                    3 if k > 0 => {
                        let i = g.below(k);
                        s.T[i] = &s.T[i] + &d;
                        "T"
                    }
                    4 if k > 1 => {
                        let (i, j) = two(g);
                        s.T[i] = &s.T[i] + &d;
                        s.T[j] = &s.T[j] - &d;
                        "two T with the same sum"
                    }
                    5 if k > 0 => {
                        let i = g.below(k);
                        s.T[i] = &s.T[i] + &d;
                        s.S = &s.S - &d;
                        "S and T with the same sum"
                    }
                    6 => {
                        s.S = &s.S + &d;
                        "S"
                    }
                    7 => {
                        s.R = &s.R + &point::<$Key>(g);
                        "R"
                    }
                    8 => {
                        let r = nonzero(g);
                        s.R = &s.R * &r;
                        s.S = &s.S * &r.inverse();
                        "T not randomized"
                    }
                    9 => {
                        vk = if g.bool() { $Vk(&vk.0 + &point::<$Key>(g)) } else { <$S>::keygen(&p).1 };
                        "the key"
                    }
                    10 if k > 0 => {
                        m.pop();
                        if g.bool() {
                            s.T.pop();
                            "messages and T shorter"
                        } else {
                            "messages shorter"
                        }
                    }
                    11 => {
                        m.push(d);
                        "messages longer"
                    }
                    12 if k > 0 => {
                        s.T.pop();
                        "T shorter"
                    }
                    13 => {
                        s.T.push(d);
                        "T longer"
                    }
                    14 => {
                        let i = g.below(n);
                        p.y[i] = &p.y[i] + &d;
                        "a base"
                    }
                    _ => {
                        s = $Sig { R: GroupElement::identity(), S: GroupElement::identity(), T: s.T };
                        "identity"
                    }
                };
                g.label(what);
                let want = $ok(&s, &m, &vk, &p);
                for batch in 0..2 {
                    let r = no_panic(|| if batch == 1 { s.verify_batch(&m, &vk, &p) } else { s.verify(&m, &vk, &p) });
                    match r {
                        Err(x) => return fail("panic", format!("verification (batch {}) panics after a change of {}: {}", batch, what, x)),
                        Ok(r) => {
                            let got = r.as_ref().map(|b| *b).unwrap_or(false);
                            ensure!(got == want, "altered", "after a change of {} verification (batch {}) gives {:?}", what, batch, r);
                        }
                    }
                }
            }
            // proof of knowledge of the signing key
            if g.chance(1, 3) {
                let c = $Vk::initiate_proof_of_knowledge_of_sigkey(&p);
                let t = c.commitment.clone();
                let ch = fe(g);
                let pf = $Vk::finish_proof_of_knowledge_of_sigkey(c, sk.clone(), &ch);
                ensure!(pf.commitment == t && pf.responses.len() == 1, "sigkey-proof", "the proof has another commitment or more responses");
                let (mut pf, mut vk, mut ch) = (some_json(g, "proof", pf)?, vk.clone(), ch);
                ensure!(e("sigkey", $Vk::verify_proof_of_knowledge_of_sigkey(&pf, &vk, &p, &ch))?, "sigkey-proof", "an honest proof of the signing key is refused");
                match g.below(4) {
                    0 => pf.responses[0] = &pf.responses[0] + &fe(g),
                    1 => vk = $Vk(&vk.0 + &point::<$Key>(g)),
                    2 => ch = &ch + &fe(g),
                    _ => pf.commitment = &pf.commitment + &point::<$Key>(g),
                }
                let want = &(&p.$gk * &pf.responses[0]) + &(&vk.0 * &ch) == pf.commitment;
                let r = $Vk::verify_proof_of_knowledge_of_sigkey(&pf, &vk, &p, &ch);
                ensure!(r.as_ref().map(|b| *b).unwrap_or(false) == want, "sigkey-proof", "an altered proof of the signing key gives {:?}", r);
            }
            Ok(())
        }
    };
}
groth!(groth1, ok1, GrothS1, Groth1Sig, Groth1Verkey, Groth1SetupParams, G1, G1Vector, G2, g1, g2);
groth!(groth2, ok2, GrothS2, Groth2Sig, Groth2Verkey, Groth2SetupParams, G2, G2Vector, G1, g2, g1);

/// keys by level: even levels 0, 2, .. and odd levels 1, 3, ..
struct World {
    p1: Groth1SetupParams,
    p2: Groth2SetupParams,
    esk: Vec<FieldElement>,
    evk: Vec<EvenLevelVerkey>,
    osk: Vec<FieldElement>,
    ovk: Vec<OddLevelVerkey>,
    chain: CredChain,
}
fn g1v(v: Vec<G1>) -> G1Vector {
    v.into()
}
fn g2v(v: Vec<G2>) -> G2Vector {
    v.into()
}
impl World {
    fn new(g: &mut G, max_len: usize, max_attr: usize, same: bool) -> Result<(World, usize), Fail> {
        let len = if is_large() { g.range(6, 9) } else { 1 + g.below(max_len) };
        let (n1, n2) = if is_large() { (g.range(2, 20), g.range(2, 20)) } else { (1 + g.below(max_attr + 1), 1 + g.below(max_attr + 1)) };
        let l1 = label(g);
        let l2 = if same || g.bool() { l1.clone() } else { label(g) };
        let mut w = World { p1: GrothS1::setup(n1, &l1), p2: GrothS2::setup(n2, &l2), esk: vec![], evk: vec![], osk: vec![], ovk: vec![], chain: CredChain::new() };
        for i in 0..=len {
            if i % 2 == 0 {
                let (s, v) = if i == 0 { RootIssuer::keygen(&w.p1) } else { EvenLevelIssuer::keygen(&w.p1) };
                w.esk.push(s);
                w.evk.push(v);
            } else {
                let (s, v) = OddLevelIssuer::keygen(&w.p2);
                w.osk.push(s);
                w.ovk.push(v);
            }
        }
        for i in 1..=len {
            w.delegate(g, i)?;
        }
        Ok((w, len))
    }
    fn link1(&self, g: &mut G, i: usize) -> Result<CredLinkOdd, Fail> {
        let n = self.p1.y.len();
        let k = if g.bool() { n - 1 } else { g.below(n) };
        let a = g1v((0..k).map(|_| point(g)).collect());
        let (vk, sk) = (self.ovk[i / 2].clone(), &self.esk[i / 2]);
        let l = if i == 1 { RootIssuer::delegate(a.clone(), vk, sk, &self.p1) } else { e("issuer", EvenLevelIssuer::new(i - 1))?.delegate(a.clone(), vk, sk, &self.p1) };
        let l = e("delegate", l)?;
        ensure!(l.level == i && l.attribute_count() == k + 1 && l.has_verkey(&self.ovk[i / 2]) && (0..k).all(|j| l.attributes[j] == a[j]), "delegate", "the link does not carry what was given");
        Ok(l)
    }
    fn link2(&self, g: &mut G, i: usize) -> Result<CredLinkEven, Fail> {
        let n = self.p2.y.len();
        let k = if g.bool() { n - 1 } else { g.below(n) };
        let a = g2v((0..k).map(|_| point(g)).collect());
        let l = e("issuer", OddLevelIssuer::new(i - 1))?.delegate(a.clone(), self.evk[i / 2].clone(), &self.osk[i / 2 - 1], &self.p2);
        let l = e("delegate", l)?;
        ensure!(l.level == i && l.attribute_count() == k + 1 && l.has_verkey(&self.evk[i / 2]) && (0..k).all(|j| l.attributes[j] == a[j]), "delegate", "the link does not carry what was given");
        Ok(l)
    }
    fn delegate(&mut self, g: &mut G, i: usize) -> Result<(), Fail> {
        if i % 2 == 1 {
            let l = self.link1(g, i)?;
            let l = some_json(g, "link", l)?;
            e("extend", self.chain.extend_with_odd(l))
        } else {
            let l = self.link2(g, i)?;
            let l = some_json(g, "link", l)?;
            e("extend", self.chain.extend_with_even(l))
        }
    }
}
fn want_chain(c: &CredChain, ev: &[&EvenLevelVerkey], ov: &[&OddLevelVerkey], p1: &Groth1SetupParams, p2: &Groth2SetupParams) -> bool {
    let (o, n) = (c.odd_links.len(), c.even_links.len());
    if o == 0 || !(o == n || o == n + 1) || ov.len() != o || ev.len() != n + 1 {
        return false;
    }
    c.odd_links.iter().enumerate().all(|(i, l)| {
        l.level == 2 * i + 1 && l.attributes.len() > 0 && l.attributes[l.attributes.len() - 1] == ov[i].0 && ok1(&l.signature, l.attributes.as_slice(), ev[i], p1)
    }) && c.even_links.iter().enumerate().all(|(i, l)| {
        l.level == 2 * i + 2 && l.attributes.len() > 0 && l.attributes[l.attributes.len() - 1] == ev[i + 1].0 && ok2(&l.signature, l.attributes.as_slice(), ov[i], p2)
    })
}
fn check_chain(what: &str, c: &CredChain, ev: &[&EvenLevelVerkey], ov: &[&OddLevelVerkey], p1: &Groth1SetupParams, p2: &Groth2SetupParams) -> Result<bool, Fail> {
    let want = want_chain(c, ev, ov, p1, p2);
    for batch in 0..2 {
        let r = no_panic(|| if batch == 1 { c.verify_delegations_batched(ev.to_vec(), ov.to_vec(), p1, p2) } else { c.verify_delegations(ev.to_vec(), ov.to_vec(), p1, p2) });
        match r {
            Err(x) => return Err(Fail { sig: "panic".into(), msg: format!("verification (batched {}) of a chain panics ({}): {}", batch, what, x) }),
            Ok(r) => {
                let got = r.as_ref().map(|b| *b).unwrap_or(false);
                ensure!(got == want, if want { "honest" } else { "altered" }, "verification (batched {}) of a chain of {} links ({}) gives {:?}", batch, c.size(), what, r);
            }
        }
    }
    Ok(want)
}

fn chains(g: &mut G) -> R {
    let (w, len) = World::new(g, 5, 3, false)?;
    g.label(format!("{} links", len));
    let (ev, ov): (Vec<_>, Vec<_>) = (w.evk.iter().collect(), w.ovk.iter().collect());
    let (p1, p2) = (&w.p1, &w.p2);
    let chain = some_json(g, "chain", w.chain.clone())?;
    ensure!(chain.size() == len && chain.odd_size() == (len + 1) / 2 && chain.even_size() == len / 2, "size", "a chain of {} links has sizes {} {} {}", len, chain.size(), chain.odd_size(), chain.even_size());
    ensure!(check_chain("honest", &chain, &ev, &ov, p1, p2)?, "equations", "an honest chain does not satisfy its equations");
    // truncation
    let t = g.range(0, len + 2);
    match no_panic(|| chain.get_truncated(t)) {
        Err(x) => return fail("panic", format!("get_truncated({}) of {} panics: {}", t, len, x)),
        Ok(r) => {
            ensure!(r.is_ok() == (t <= len), "truncated", "truncating {} links to {} gives {:?}", len, t, r.is_ok());
            if let Ok(c) = r {
                ensure!(c.size() == t, "truncated", "truncated to {} instead of {}", c.size(), t);
                let want = check_chain("truncated", &c, &ev[..t / 2 + 1], &ov[..(t + 1) / 2], p1, p2)?;
                ensure!(want == (t > 0), "truncated", "a truncated chain is not valid");
                if t < len {
                    ensure!(!check_chain("truncated, all keys", &c, &ev, &ov, p1, p2)?, "truncated", "too many keys");
                }
            }
        }
    }
    // the last link
    if len % 2 == 1 {
        ensure!(e("last", chain.verify_last_odd_delegation(ov[len / 2], ev[len / 2], p1))?, "last", "the last link is refused");
    } else {
        ensure!(e("last", chain.verify_last_even_delegation(ev[len / 2], ov[len / 2 - 1], p2))?, "last", "the last link is refused");
    }
    if len > 1 {
        g.nontrivial();
    }
    // alterations
    for _ in 0..3 {
        let mut c = chain.clone();
        let (mut ev, mut ov) = (ev.clone(), ov.clone());
        let (ox, ex) = (OddLevelIssuer::keygen(p2).1, EvenLevelIssuer::keygen(p1).1);
        let d = fex(g);
        let (d1, d2) = (&p1.g1 * &d, &p2.g2 * &d);
        let lev = 1 + g.below(len);
        let what = match g.below(23) {
            17 | 18 if len > 1 => {
                // signatures of an odd and an even link, changed so that the errors cancel in a sum of both groups
                let (o, v) = (g.below(c.odd_links.len()), g.below(c.even_links.len()));
                let (x, y) = (&c.even_links[v].signature.R * &d, &c.odd_links[o].signature.R * &(-&d));
                let (so, sv) = (&mut c.odd_links[o].signature, &mut c.even_links[v].signature);
                let part = |g: &mut G, n: usize| if g.chance(1, 3) { n } else { [0, n - 1, g.below(n)][g.below(3)] };
                match part(g, so.T.len()) {
                    j if j < so.T.len() => so.T[j] = &so.T[j] + &x,
                    _ => so.S = &so.S + &x,
                }
                match part(g, sv.T.len()) {
                    j if j < sv.T.len() => sv.T[j] = &sv.T[j] + &y,
                    _ => sv.S = &sv.S + &y,
                }
                "an odd and an even link changed by opposite errors"
            }
            19 => {
                // the last link is properly signed but has the delegatee's key among its attributes, not at the end
                if lev % 2 == 1 {
                    let l = &mut c.odd_links[lev / 2];
                    let n = l.attributes.len();
                    if n > 1 {
                        let j = g.below(n - 1);
                        l.attributes.as_mut_slice().swap(j, n - 1);
                        l.signature = e("sign", Groth1Sig::new(l.attributes.as_slice(), &w.esk[lev / 2], p1))?;
                    }
                } else {
                    let l = &mut c.even_links[lev / 2 - 1];
                    let n = l.attributes.len();
                    if n > 1 {
                        let j = g.below(n - 1);
                        l.attributes.as_mut_slice().swap(j, n - 1);
                        l.signature = e("sign", Groth2Sig::new(l.attributes.as_slice(), &w.osk[lev / 2 - 1], p2))?;
                    }
                }
                "the key of the delegatee is not the last attribute"
            }
            20 | 21 | 22 => {
                // two parts of signatures of the same or of two links of the same parity, whose issuers
                // chose the same randomness, changed by opposite amounts
                let same: Vec<usize> = (1..=len).filter(|l| l % 2 == lev % 2).collect();
                let l2 = *g.pick(&same);
                for l in [lev, l2].iter() {
                    if l % 2 == 1 {
                        let l = (&mut c.odd_links[l / 2], &w.esk[l / 2]);
                        l.0.signature.R = p2.g2.clone();
                        l.0.signature.S = &p1.y[0] + &(&p1.g1 * l.1);
                        l.0.signature.T = g1v((0..l.0.attributes.len()).map(|i| &(&p1.y[i] * l.1) + &l.0.attributes[i]).collect());
                    } else {
                        let l = (&mut c.even_links[l / 2 - 1], &w.osk[l / 2 - 1]);
                        l.0.signature.R = p1.g1.clone();
                        l.0.signature.S = &p2.y[0] + &(&p2.g2 * l.1);
                        l.0.signature.T = g2v((0..l.0.attributes.len()).map(|i| &(&p2.y[i] * l.1) + &l.0.attributes[i]).collect());
                    }
                }
                let first = g.chance(2, 3);
                for (l, neg) in vec![(lev, false), (l2, true)] {
                    let d = if neg { -&d } else { d.clone() };
                    if l % 2 == 1 {
                        let (s, d) = (&mut c.odd_links[l / 2].signature, &p1.g1 * &d);
                        let j = if first { s.T.len() } else { g.below(s.T.len() + 1) };
                        if j == s.T.len() { s.S = &s.S + &d } else { s.T[j] = &s.T[j] + &d }
                    } else {
                        let (s, d) = (&mut c.even_links[l / 2 - 1].signature, &p2.g2 * &d);
                        let j = if first { s.T.len() } else { g.below(s.T.len() + 1) };
                        if j == s.T.len() { s.S = &s.S + &d } else { s.T[j] = &s.T[j] + &d }
                    }
                }
                "two signatures by issuers in league"
            }
            0 => {
                // an attribute
                if lev % 2 == 1 {
                    let a = &mut c.odd_links[lev / 2].attributes;
                    let j = g.below(a.len());
                    a[j] = &a[j] + &d1;
                } else {
                    let a = &mut c.even_links[lev / 2 - 1].attributes;
                    let j = g.below(a.len());
                    a[j] = &a[j] + &d2;
                }
                "an attribute changed"
            }
            1 | 2 | 3 if len > 1 => {
                // attributes or signatures of two links, so that the changes cancel in a sum
                let l2 = 1 + (lev + g.below(len - 1)) % len;
                let j = {
                    let n = |l: usize| if l % 2 == 1 { c.odd_links[l / 2].attribute_count() } else { c.even_links[l / 2 - 1].attribute_count() };
                    let (a, b) = (n(lev), n(l2));
                    let j = g.below(a);
                    // usually at the same place, other than the key
                    (if a > 1 { j % (a - 1) } else { j }, if g.chance(2, 3) && j < b { if b > 1 { j % (b - 1).min(a.max(2) - 1) } else { j } } else { g.below(b) })
                };
                let j = if g.bool() && j.0 < j.1 + 1 { (j.0, j.0.min(j.1)) } else { j };
                let s = g.chance(1, 3);
                for (l, j, neg) in vec![(lev, j.0, false), (l2, j.1, true)] {
                    let d = if neg { -&d } else { d.clone() };
                    let (d1, d2) = (&p1.g1 * &d, &p2.g2 * &d);
                    if l % 2 == 1 {
                        let l = &mut c.odd_links[l / 2];
                        if s { l.signature.T[j] = &l.signature.T[j] + &d1 } else { l.attributes[j] = &l.attributes[j] + &d1 }
                    } else {
                        let l = &mut c.even_links[l / 2 - 1];
                        if s { l.signature.T[j] = &l.signature.T[j] + &d2 } else { l.attributes[j] = &l.attributes[j] + &d2 }
                    }
                }
                "two links changed by opposite amounts"
            }
            4 => {
                if g.bool() {
                    let i = g.below(ov.len());
                    ov[i] = &ox;
                } else {
                    let i = g.below(ev.len());
                    ev[i] = &ex;
                }
                "another key"
            }
            5 if ev.len() > 1 => {
                let (i, j) = (g.below(ev.len()), g.below(ev.len()));
                ev.swap(i, j);
                "keys swapped"
            }
            6 => {
                match g.below(4) {
                    0 => drop(ov.pop()),
                    1 => drop(ev.pop()),
                    2 => ov.push(&ox),
                    _ => ev.push(&ex),
                }
                "number of keys"
            }
            7 => {
                let d = g.range(0, 3);
                if lev % 2 == 1 { c.odd_links[lev / 2].level = d } else { c.even_links[lev / 2 - 1].level = d }
                "level"
            }
            8 => {
                // signed by somebody else
                if lev % 2 == 1 {
                    let l = &mut c.odd_links[lev / 2];
                    l.signature = e("sign", Groth1Sig::new(l.attributes.as_slice(), &d, p1))?;
                } else {
                    let l = &mut c.even_links[lev / 2 - 1];
                    l.signature = e("sign", Groth2Sig::new(l.attributes.as_slice(), &d, p2))?;
                }
                "signed by another key"
            }
            9 => {
                // another signature on the same attributes
                if lev % 2 == 1 {
                    let l = &mut c.odd_links[lev / 2];
                    l.signature = e("sign", Groth1Sig::new(l.attributes.as_slice(), &w.esk[lev / 2], p1))?.randomize(&d);
                } else {
                    let l = &mut c.even_links[lev / 2 - 1];
                    l.signature = e("sign", Groth2Sig::new(l.attributes.as_slice(), &w.osk[lev / 2 - 1], p2))?.randomize(&d);
                }
                "signed again"
            }
            10 if len > 2 => {
                let i = g.below(c.odd_links.len());
                let j = g.below(c.odd_links.len());
                c.odd_links.swap(i, j);
                "links swapped"
            }
            11 => {
                match g.below(3) {
                    0 => drop(c.odd_links.pop()),
                    1 => drop(c.even_links.pop()),
                    _ => c = CredChain::new(),
                }
                if g.bool() {
                    ev.truncate(c.even_links.len() + 1);
                    ov.truncate(c.odd_links.len());
                }
                "a link dropped"
            }
            12 => {
                if lev % 2 == 1 {
                    let l = &mut c.odd_links[lev / 2];
                    l.attributes.pop();
                    if g.bool() { drop(l.signature.T.pop()) }
                } else {
                    let l = &mut c.even_links[lev / 2 - 1];
                    l.attributes.pop();
                    if g.bool() { drop(l.signature.T.pop()) }
                }
                "the key of the delegatee dropped"
            }
            13 => {
                if lev % 2 == 1 {
                    let l = &mut c.odd_links[lev / 2];
                    l.attributes = g1v(vec![]);
                } else {
                    let l = &mut c.even_links[lev / 2 - 1];
                    l.signature.T = g2v(vec![]);
                }
                "emptied"
            }
            14 => {
                // the delegatee's key is there but not signed
                if lev % 2 == 1 {
                    c.odd_links[lev / 2].attributes.push(ox.0.clone());
                    ov[lev / 2] = &ox;
                } else {
                    c.even_links[lev / 2 - 1].attributes.push(ex.0.clone());
                    ev[lev / 2] = &ex;
                }
                "a key appended"
            }
            15 if w.osk.len() > 1 && lev % 2 == 0 => {
                // signed by an issuer of another level
                let l = &mut c.even_links[lev / 2 - 1];
                let k = g.below(w.osk.len());
                l.signature = e("sign", Groth2Sig::new(l.attributes.as_slice(), &w.osk[k], p2))?;
                "signed by the issuer of another level"
            }
            _ => {
                if lev % 2 == 1 {
                    let s = &mut c.odd_links[lev / 2].signature;
                    if g.bool() { s.S = &s.S + &d1 } else { s.R = &s.R * &d }
                } else {
                    let s = &mut c.even_links[lev / 2 - 1].signature;
                    if g.bool() { s.S = &s.S + &d2 } else { s.R = &s.R * &d }
                }
                "a signature changed"
            }
        };
        let want = check_chain(what, &c, &ev, &ov, p1, p2)?;
        g.label(format!("{} {}", what, want));
    }
    Ok(())
}

/// levels and sizes: what may be issued and appended
fn levels(g: &mut G) -> R {
    let (w, _) = World::new(g, 2, 2, false)?;
    let lev = |g: &mut G| if g.chance(1, 8) { usize::max_value() - 8 + g.below(8) } else { g.below(9) };
    let l = lev(g);
    ensure!(EvenLevelIssuer::new(l).is_ok() == (l % 2 == 0) && OddLevelIssuer::new(l).is_ok() == (l % 2 == 1), "issuer", "an issuer of level {}", l);
    // delegation of too many attributes
    let n = g.below(w.p1.y.len() + 3);
    let r = RootIssuer::delegate(g1v((0..n).map(|_| point(g)).collect()), w.ovk[0].clone(), &w.esk[0], &w.p1);
    ensure!(r.is_ok() == (n < w.p1.y.len()), "room", "delegating {} attributes with {} bases gives {:?}", n, w.p1.y.len(), r.is_ok());
    let (mut c, mut o, mut v) = (CredChain::new(), vec![], vec![]);
    let odd = w.chain.odd_links[0].clone();
    let even = CredLinkEven { level: 0, attributes: g2v(vec![w.evk[0].0.clone() + &G2::generator()]), signature: Groth2Sig { R: G1::generator(), S: G2::generator(), T: g2v(vec![G2::generator()]) } };
    for _ in 0..g.range(1, 8) {
        let sorted = g.chance(2, 3);
        if g.bool() {
            let l = if sorted { o.last().map_or(1, |x| x + 2) } else { lev(g) };
            let want = l % 2 == 1 && l == o.last().map_or(1, |x: &usize| x + 2);
            let mut link = odd.clone();
            link.level = l;
            match no_panic(|| c.extend_with_odd(link)) {
                Err(x) => return fail("panic", format!("appending level {} after {:?} panics: {}", l, o, x)),
                Ok(r) => ensure!(r.is_ok() == want, "extend", "appending level {} after {:?} gives {:?}", l, o, r),
            }
            if want {
                o.push(l);
            }
        } else {
            let l = if sorted { v.last().map_or(2, |x| x + 2) } else { lev(g) };
            let want = l % 2 == 0 && l == v.last().map_or(2, |x: &usize| x + 2);
            let mut link = even.clone();
            link.level = l;
            match no_panic(|| c.extend_with_even(link)) {
                Err(x) => return fail("panic", format!("appending level {} after {:?} panics: {}", l, v, x)),
                Ok(r) => ensure!(r.is_ok() == want, "extend", "appending level {} after {:?} gives {:?}", l, v, r),
            }
            if want {
                v.push(l);
            }
        }
    }
    g.nontrivial();
    ensure!(c.odd_size() == o.len() && c.even_size() == v.len() && c.size() == o.len() + v.len(), "size", "sizes {} {} {}", c.odd_size(), c.even_size(), c.size());
    for i in 0..6 {
        ensure!(c.get_odd_link(i).ok().map(|l| l.level) == o.get(i).cloned() && c.get_even_link(i).ok().map(|l| l.level) == v.get(i).cloned(), "get", "link {}", i);
    }
    let alt = o.len() == v.len() || o.len() == v.len() + 1;
    let t = g.below(c.size() + 2);
    g.label(if alt { "alternating" } else { "gaps" });
    match no_panic(|| c.get_truncated(t)) {
        Err(x) => return fail("panic", format!("truncating levels {:?} {:?} to {} panics: {}", o, v, t, x)),
        Ok(Ok(x)) => ensure!(x.size() == t && x.odd_links.iter().map(|l| l.level).eq(o[..(t + 1) / 2].iter().cloned()), "truncated", "truncated wrongly"),
        Ok(Err(_)) => ensure!(t > c.size() || !alt, "truncated", "levels {:?} {:?} cannot be truncated to {}", o, v, t),
    }
    let ev: Vec<_> = (0..v.len() + 1).map(|_| &w.evk[0]).collect();
    let ov: Vec<_> = (0..o.len()).map(|_| &w.ovk[0]).collect();
    check_chain("levels", &c, &ev, &ov, &w.p1, &w.p2)?;
    // any split of the right number of keys
    let k = g.below(c.size() + 2);
    let ev: Vec<_> = (0..k).map(|_| &w.evk[0]).collect();
    let ov: Vec<_> = (0..c.size() + 1 - k).map(|_| &w.ovk[0]).collect();
    check_chain("levels", &c, &ev, &ov, &w.p1, &w.p2)?;
    let (a, b) = (c.verify_last_odd_delegation(&w.ovk[0], &w.evk[0], &w.p1), c.verify_last_even_delegation(&w.evk[0], &w.ovk[0], &w.p2));
    ensure!(a.is_ok() == !o.is_empty() && a.unwrap_or(true), "last", "the last odd link");
    ensure!(!b.unwrap_or(false), "last", "an invalid even link");
    Ok(())
}

// ---- attribute tokens

fn revealed(g: &mut G, c: &CredChain) -> Vec<HashSet<usize>> {
    (1..=c.size())
        .map(|i| {
            let n = if i % 2 == 1 { c.odd_links[i / 2].attribute_count() } else { c.even_links[i / 2 - 1].attribute_count() };
            let all = g.chance(1, 4);
            (0..n - 1).filter(|_| all || g.bool()).collect()
        })
        .collect()
}
/// what the verifier does with a token
struct V<'a> {
    L: usize,
    ch: FieldElement,
    revealed: Vec<HashSet<usize>>,
    ipk: EvenLevelVerkey,
    extra: Vec<u8>,
    p1: &'a Groth1SetupParams,
    p2: &'a Groth2SetupParams,
}
fn verify(what: &str, v: &V, comm: &AttributeTokenComm, resp: &AttributeTokenResp) -> Result<Option<AttributeTokenComm>, Fail> {
    let plain = no_panic(|| AttributeToken::reconstruct_commitment(v.L, comm, resp, &v.ch, v.revealed.clone(), &v.ipk, v.p1, v.p2));
    let pre = no_panic(|| {
        let pre = PrecompForCommitmentReconstitution::new(&v.ipk, v.p1, v.p2);
        AttributeToken::reconstruct_commitment_with_precomputed_vals(v.L, comm, resp, &v.ch, v.revealed.clone(), v.p1, v.p2, &pre)
    });
    let f = |sig: &str, msg: String| Err(Fail { sig: sig.into(), msg });
    let (plain, pre) = match (plain, pre) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(x), _) | (_, Err(x)) => return f("panic", format!("reconstructing a commitment ({}) panics: {}", what, x)),
    };
    match (plain, pre) {
        (Ok(a), Ok(b)) => {
            ensure!(a == b, "precomputed", "reconstruction ({}) with precomputed values differs", what);
            let c = AttributeToken::gen_challenge(&a, &v.ipk, v.extra.clone());
            Ok(if c == v.ch { Some(a) } else { None })
        }
        (Err(_), Err(_)) => Ok(None),
        (a, b) => f("precomputed", format!("reconstruction ({}) gives {:?}, with precomputed values {:?}", what, a.is_ok(), b.is_ok())),
    }
}
/// As JSON. The elements of GT as bytes: their own serialization in amcl_wrapper does not read every
/// value back.
fn to_value(c: &AttributeTokenComm) -> Result<serde_json::Value, Fail> {
    let hx = |x: &GT| serde_json::Value::String(hex(&x.to_bytes()));
    let mut m = serde_json::Map::new();
    m.insert("odd_level_blinded_r".into(), e("json", serde_json::to_value(&c.odd_level_blinded_r))?);
    m.insert("even_level_blinded_r".into(), e("json", serde_json::to_value(&c.even_level_blinded_r))?);
    m.insert("odd_level_revealed_attributes".into(), e("json", serde_json::to_value(&c.odd_level_revealed_attributes))?);
    m.insert("even_level_revealed_attributes".into(), e("json", serde_json::to_value(&c.even_level_revealed_attributes))?);
    m.insert("comms_s".into(), c.comms_s.iter().map(hx).collect::<Vec<_>>().into());
    m.insert("comms_t".into(), c.comms_t.iter().map(|v| serde_json::Value::from(v.iter().map(hx).collect::<Vec<_>>())).collect::<Vec<_>>().into());
    Ok(m.into())
}
fn of_value(v: &serde_json::Value) -> Option<AttributeTokenComm> {
    let gt = |x: &serde_json::Value| {
        let s = x.as_str()?;
        let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
        GT::from_bytes(&b).ok()
    };
    let gts = |x: &serde_json::Value| x.as_array()?.iter().map(gt).collect::<Option<Vec<_>>>();
    Some(AttributeTokenComm {
        odd_level_blinded_r: serde_json::from_value(v["odd_level_blinded_r"].clone()).ok()?,
        even_level_blinded_r: serde_json::from_value(v["even_level_blinded_r"].clone()).ok()?,
        odd_level_revealed_attributes: serde_json::from_value(v["odd_level_revealed_attributes"].clone()).ok()?,
        even_level_revealed_attributes: serde_json::from_value(v["even_level_revealed_attributes"].clone()).ok()?,
        comms_s: gts(&v["comms_s"])?,
        comms_t: v["comms_t"].as_array()?.iter().map(gts).collect::<Option<Vec<_>>>()?,
    })
}
fn fresh_resp(g: &mut G, comm: &AttributeTokenComm, L: usize) -> AttributeTokenResp {
    // random responses of the right shape
    let v1 = |g: &mut G, n: usize| g1v((0..n).map(|_| point(g)).collect());
    let v2 = |g: &mut G, n: usize| g2v((0..n).map(|_| point(g)).collect());
    let nt: Vec<usize> = comm.comms_t.iter().map(|v| v.len()).collect();
    AttributeTokenResp {
        resp_csk: if g.chance(1, 4) { FieldElement::zero() } else { fe(g) },
        odd_level_resp_vk: v1(g, L / 2),
        even_level_resp_vk: v2(g, (L - 1) / 2),
        odd_level_resp_s: v1(g, (L + 1) / 2),
        even_level_resp_s: v2(g, L / 2),
        odd_level_resp_t: (0..(L + 1) / 2).map(|i| v1(g, nt[2 * i])).collect(),
        even_level_resp_t: (0..L / 2).map(|i| v2(g, nt[2 * i + 1])).collect(),
        odd_level_resp_a: (0..(L + 1) / 2).map(|i| v1(g, nt[2 * i] - 1 - comm.odd_level_revealed_attributes[i].len())).collect(),
        even_level_resp_a: (0..L / 2).map(|i| v2(g, nt[2 * i + 1] - 1 - comm.even_level_revealed_attributes[i].len())).collect(),
    }
}

fn tokens(g: &mut G) -> R {
    // tokens need the same generators in both parameters
    let (w, L) = World::new(g, 4, 3, true)?;
    let (ev, ov): (Vec<_>, Vec<_>) = (w.evk.iter().collect(), w.ovk.iter().collect());
    let (p1, p2) = (&w.p1, &w.p2);
    let rev = revealed(g, &w.chain);
    let nrev: usize = rev.iter().map(|s| s.len()).sum();
    g.label(format!("{} links", L));
    g.label(format!("most revealed in a level: {}", rev.iter().map(|s| s.len()).max().unwrap()));
    let own_sk = if L % 2 == 1 { &w.osk[L / 2] } else { &w.esk[L / 2] };
    let mut at = AttributeToken::new(&w.chain, p1, p2);
    // an earlier attempt may precede
    match g.below(6) {
        0 => drop(e("commitment", at.commitment(revealed(g, &w.chain)))?),
        1 => {
            let mut r = rev.clone();
            match g.below(3) {
                0 => drop(r.pop()),
                1 => r.push(HashSet::new()),
                _ => {
                    let i = g.below(L);
                    let n = if i % 2 == 0 { w.chain.odd_links[i / 2].attribute_count() } else { w.chain.even_links[i / 2].attribute_count() };
                    r[i].extend(n + g.below(2)..n + 2 + g.below(8));
                }
            }
            match no_panic(|| at.commitment(r.clone())) {
                Err(x) => return fail("panic", format!("revealing attributes that are not there ({:?}) panics: {}", r, x)),
                Ok(r2) => ensure!(r2.is_err(), "reveal", "attributes that are not there are revealed: {:?}", r),
            }
        }
        2 => {
            let fake = AttributeTokenComm {
                odd_level_blinded_r: g2v(vec![G2::generator(); (L + 1) / 2]),
                even_level_blinded_r: g1v(vec![G1::generator(); L / 2]),
                comms_s: vec![GT::new(); L],
                comms_t: vec![vec![]; L],
                odd_level_revealed_attributes: vec![HashMap::new(); (L + 1) / 2],
                even_level_revealed_attributes: vec![HashMap::new(); L / 2],
            };
            match no_panic(|| at.response(&fake, own_sk, &fex(g), ev.clone(), ov.clone()).is_ok()) {
                Err(x) => return fail("panic", format!("a response before the commitment panics: {}", x)),
                Ok(r) => ensure!(!r, "order", "a response before the commitment"),
            }
        }
        _ => {}
    }
    let comm = match g.below(3) {
        0 => at.commitment(rev.clone()),
        1 => at.commitment_with_precomputation_on_setup_params(rev.clone(), &PrecompOnSetupParams::new(p1, p2)),
        _ => {
            let c = e("precomputed", PrecompOnCredChain::new(&w.chain, p1, p2))?;
            at.commitment_with_precomputation(rev.clone(), &PrecompOnSetupParams::new(p1, p2), &c)
        }
    };
    let comm = e("commitment", comm)?;
    for i in 1..=L {
        let same = if i % 2 == 1 {
            let (m, a) = (&comm.odd_level_revealed_attributes[i / 2], &w.chain.odd_links[i / 2].attributes);
            m.len() == rev[i - 1].len() && rev[i - 1].iter().all(|j| m.get(j) == Some(&a[*j]))
        } else {
            let (m, a) = (&comm.even_level_revealed_attributes[i / 2 - 1], &w.chain.even_links[i / 2 - 1].attributes);
            m.len() == rev[i - 1].len() && rev[i - 1].iter().all(|j| m.get(j) == Some(&a[*j]))
        };
        ensure!(same, "reveal", "level {} does not reveal what was asked", i);
    }
    let ipk = w.evk[0].clone();
    let extra = g.bytes(0, 20);
    let ch = AttributeToken::gen_challenge(&comm, &ipk, extra.clone());
    // keys of the levels below the last are enough
    let (evr, ovr) = if g.chance(1, 3) { (ev[..(L - 1) / 2 + 1].to_vec(), ov[..L / 2].to_vec()) } else { (ev.clone(), ov.clone()) };
    let (evk2, ovk2) = (evr[1..].to_vec(), ovr);
    if g.chance(1, 6) && L > 1 {
        let (mut a, mut b) = (evk2[..(L - 1) / 2].to_vec(), ovk2[..L / 2].to_vec());
        if g.bool() && !a.is_empty() {
            a.pop();
        } else {
            b.pop();
        }
        match no_panic(|| at.response(&comm, own_sk, &ch, a, b)) {
            Err(x) => return fail("panic", format!("a response with too few keys panics: {}", x)),
            Ok(r) => ensure!(r.is_err(), "keys", "a response with too few keys"),
        }
    }
    let resp = e("response", at.response(&comm, own_sk, &ch, evk2.clone(), ovk2.clone()))?;
    // the verifier gets them serialized
    let (comm, resp) = (
        match of_value(&to_value(&comm)?) {
            Some(c) => c,
            None => return fail("read", "the serialized commitment is not read back"),
        },
        json("response", &resp)?,
    );
    let mut v = V { L, ch, revealed: rev.clone(), ipk, extra, p1, p2 };
    let ok = verify("honest", &v, &comm, &resp)?;
    match ok {
        None => return fail("honest", format!("an honest token over {} links revealing {:?} is refused", L, rev)),
        Some(c) => ensure!(c == comm, "honest", "the reconstructed commitment differs"),
    }
    if nrev > 0 && rev.iter().enumerate().any(|(i, s)| s.len() + 1 < if i % 2 == 0 { w.chain.odd_links[i / 2].attribute_count() } else { w.chain.even_links[i / 2].attribute_count() }) {
        g.nontrivial();
    }
    // the challenge is about every part of the commitment
    for lev in 1..=L {
        let (odd, ix) = (lev % 2 == 1, (lev - 1) / 2);
        let d = fex(g);
        let nt = comm.comms_t[lev - 1].len();
        let mut cs: Vec<(String, AttributeTokenComm)> = vec![];
        for j in &rev[lev - 1] {
            let mut c = comm.clone();
            if odd {
                let x = c.odd_level_revealed_attributes[ix].get_mut(j).unwrap();
                *x = &*x + &(&p1.g1 * &d);
            } else {
                let x = c.even_level_revealed_attributes[ix].get_mut(j).unwrap();
                *x = &*x + &(&p2.g2 * &d);
            }
            cs.push((format!("revealed attribute {}", j), c));
            let mut c = comm.clone();
            if odd {
                let x = c.odd_level_revealed_attributes[ix].remove(j).unwrap();
                c.odd_level_revealed_attributes[ix].insert(j + nt, x);
            } else {
                let x = c.even_level_revealed_attributes[ix].remove(j).unwrap();
                c.even_level_revealed_attributes[ix].insert(j + nt, x);
            }
            cs.push((format!("the index of the revealed attribute {}", j), c));
        }
        let mut c = comm.clone();
        if odd {
            c.odd_level_blinded_r[ix] = &c.odd_level_blinded_r[ix] + &(&p2.g2 * &d);
        } else {
            c.even_level_blinded_r[ix] = &c.even_level_blinded_r[ix] + &(&p1.g1 * &d);
        }
        cs.push(("blinded r".into(), c));
        let mut c = comm.clone();
        c.comms_s[lev - 1] = &c.comms_s[lev - 1] * &comm.comms_t[0][0];
        cs.push(("comms_s".into(), c));
        let j = g.below(nt);
        let mut c = comm.clone();
        c.comms_t[lev - 1][j] = &c.comms_t[lev - 1][j] * &comm.comms_s[0];
        cs.push((format!("comms_t {}", j), c));
        for (what, c) in cs {
            g.eval();
            ensure!(AttributeToken::gen_challenge(&c, &v.ipk, v.extra.clone()) != v.ch, "challenge", "the challenge does not depend on {} of level {}", what, lev);
        }
    }
    // two tokens are not linked by their random values
    if g.chance(1, 4) {
        let c2 = e("commitment", AttributeToken::new(&w.chain, p1, p2).commitment(rev.clone()))?;
        ensure!(
            c2.comms_s.iter().all(|x| !comm.comms_s.contains(x)) && c2.odd_level_blinded_r.iter().all(|x| comm.odd_level_blinded_r.iter().all(|y| x != y)) && c2.comms_t.iter().flatten().all(|x| !comm.comms_t.iter().flatten().any(|y| x == y)),
            "linkable",
            "two tokens share values"
        );
        ensure!(comm.odd_level_blinded_r.iter().zip(&w.chain.odd_links).all(|(r, l)| *r != l.signature.R), "linkable", "a token shows the signature of the link");
    }
    // alterations
    for _ in 0..3 {
        let (mut c, mut r) = (comm.clone(), resp.clone());
        let mut v = V { L, ch: v.ch.clone(), revealed: rev.clone(), ipk: v.ipk.clone(), extra: v.extra.clone(), p1, p2 };
        let d = fex(g);
        let (d1, d2) = (&p1.g1 * &d, &p2.g2 * &d);
        let lev = 1 + g.below(L);
        let (odd, ix) = (lev % 2 == 1, (lev - 1) / 2);
        let nt = comm.comms_t[lev - 1].len();
        let what = match g.below(23) {
            0 | 1 if !rev[lev - 1].is_empty() => {
                let s: Vec<_> = rev[lev - 1].iter().cloned().collect();
                let j = *s.iter().min().unwrap();
                if odd {
                    let x = c.odd_level_revealed_attributes[ix].get_mut(&j).unwrap();
                    *x = &*x + &d1;
                } else {
                    let x = c.even_level_revealed_attributes[ix].get_mut(&j).unwrap();
                    *x = &*x + &d2;
                }
                "a revealed attribute"
            }
            2 => {
                // claim one more
                let j = g.below(nt + 1);
                if rev[lev - 1].contains(&j) {
                    v.extra.push(0);
                    "message"
                } else {
                    if odd {
                        c.odd_level_revealed_attributes[ix].insert(j, if g.bool() { d1 } else { w.chain.odd_links[ix].attributes[j.min(nt - 1)].clone() });
                    } else {
                        c.even_level_revealed_attributes[ix].insert(j, if g.bool() { d2 } else { w.chain.even_links[ix].attributes[j.min(nt - 1)].clone() });
                    }
                    if g.bool() {
                        v.revealed[lev - 1].insert(j);
                    }
                    "one more revealed attribute"
                }
            }
            3 if !rev[lev - 1].is_empty() => {
                let j = *rev[lev - 1].iter().min().unwrap();
                match g.below(3) {
                    0 => drop(v.revealed[lev - 1].remove(&j)),
                    1 if odd => drop(c.odd_level_revealed_attributes[ix].remove(&j)),
                    1 => drop(c.even_level_revealed_attributes[ix].remove(&j)),
                    _ => {
                        v.revealed[lev - 1].remove(&j);
                        if odd {
                            c.odd_level_revealed_attributes[ix].remove(&j);
                        } else {
                            c.even_level_revealed_attributes[ix].remove(&j);
                        }
                    }
                }
                "one revealed attribute less"
            }
            4 => {
                v.extra.push(g.draw(255) as u8);
                "the signed message"
            }
            5 => {
                v.ipk = if g.bool() && w.evk.len() > 1 { w.evk[1].clone() } else { EvenLevelIssuer::keygen(p1).1 };
                "the root key"
            }
            6 => {
                v.L = match g.below(3) {
                    0 => L - 1,
                    1 => L + 1,
                    _ => 0,
                };
                if g.bool() {
                    v.revealed.resize(v.L, HashSet::new());
                }
                "the number of links"
            }
            7 => {
                v.ch = &v.ch + &d;
                "the challenge"
            }
            8 => {
                r.resp_csk = &r.resp_csk + &d;
                "resp_csk"
            }
            9 => {
                if odd {
                    r.odd_level_resp_s[ix] = &r.odd_level_resp_s[ix] + &d1
                } else {
                    r.even_level_resp_s[ix] = &r.even_level_resp_s[ix] + &d2
                }
                "resp_s"
            }
            10 => {
                let j = g.below(nt);
                if odd {
                    r.odd_level_resp_t[ix][j] = &r.odd_level_resp_t[ix][j] + &d1
                } else {
                    r.even_level_resp_t[ix][j] = &r.even_level_resp_t[ix][j] + &d2
                }
                "resp_t"
            }
            11 if lev < L => {
                if odd {
                    r.odd_level_resp_vk[ix] = &r.odd_level_resp_vk[ix] + &d1
                } else {
                    r.even_level_resp_vk[ix] = &r.even_level_resp_vk[ix] + &d2
                }
                "resp_vk"
            }
            12 if nt > 1 + rev[lev - 1].len() => {
                let j = g.below(nt - 1 - rev[lev - 1].len());
                if odd {
                    r.odd_level_resp_a[ix][j] = &r.odd_level_resp_a[ix][j] + &d1
                } else {
                    r.even_level_resp_a[ix][j] = &r.even_level_resp_a[ix][j] + &d2
                }
                "resp_a"
            }
            13 => {
                if odd {
                    c.odd_level_blinded_r[ix] = &c.odd_level_blinded_r[ix] * &d
                } else {
                    c.even_level_blinded_r[ix] = &c.even_level_blinded_r[ix] * &d
                }
                "blinded r"
            }
            14 => {
                // somebody else's key
                r = e("response", at.response(&comm, &d, &v.ch, evk2.clone(), ovk2.clone()))?;
                "the key of another"
            }
            15 => {
                // the chain is not valid
                let mut bad = w.chain.clone();
                if odd {
                    let l = &mut bad.odd_links[ix];
                    let j = g.below(nt);
                    if g.bool() || j + 1 == nt { l.signature = e("sign", Groth1Sig::new(l.attributes.as_slice(), &d, p1))? } else { l.attributes[j] = &l.attributes[j] + &d1 }
                } else {
                    let l = &mut bad.even_links[ix];
                    let j = g.below(nt);
                    if g.bool() || j + 1 == nt { l.signature = e("sign", Groth2Sig::new(l.attributes.as_slice(), &d, p2))? } else { l.attributes[j] = &l.attributes[j] + &d2 }
                }
                let mut at = AttributeToken::new(&bad, p1, p2);
                c = e("commitment", at.commitment(rev.clone()))?;
                v.ch = AttributeToken::gen_challenge(&c, &v.ipk, v.extra.clone());
                r = e("response", at.response(&c, own_sk, &v.ch, evk2.clone(), ovk2.clone()))?;
                "an invalid chain"
            }
            16 => {
                r = fresh_resp(g, &comm, L);
                if g.chance(1, 4) {
                    v.ch = FieldElement::zero();
                }
                "random responses"
            }
            17 => {
                // the response to another commitment
                let mut at = AttributeToken::new(&w.chain, p1, p2);
                let c2 = e("commitment", at.commitment(rev.clone()))?;
                r = e("response", at.response(&c2, own_sk, &v.ch, evk2.clone(), ovk2.clone()))?;
                "the response to another commitment"
            }
            18 => {
                c.comms_s[lev - 1] = &c.comms_s[lev - 1] * &c.comms_s[0];
                v.ch = AttributeToken::gen_challenge(&c, &v.ipk, v.extra.clone());
                "comms_s"
            }
            _ => {
                let j = g.below(nt);
                c.comms_t[lev - 1][j] = &c.comms_t[lev - 1][j] * &c.comms_s[0];
                v.ch = AttributeToken::gen_challenge(&c, &v.ipk, v.extra.clone());
                "comms_t"
            }
        };
        g.label(what);
        let res = verify(what, &v, &c, &r)?;
        ensure!(res.is_none(), "altered", "a token over {} links is accepted after a change of {} at level {}", L, what, lev);
    }
    // malformed: never an abort
    for _ in 0..4 {
        let (mut cj, mut rj) = (to_value(&comm)?, e("json", serde_json::to_value(&resp))?);
        let t = if g.bool() { &mut cj } else { &mut rj };
        let how = mangle(g, t);
        if let (Some(c), Ok(r)) = (of_value(&cj), serde_json::from_value::<AttributeTokenResp>(rj)) {
            g.label("malformed token read");
            v.L = if g.chance(1, 8) { L + 1 } else { L };
            if c.comms_t == comm.comms_t && c.comms_s == comm.comms_s && r == resp && c == comm {
                continue;
            }
            if let Some(_) = verify(&how, &v, &c, &r)? {
                // comms_s and comms_t are recomputed, all else counts
                let mut c2 = c.clone();
                c2.comms_s = comm.comms_s.clone();
                c2.comms_t = comm.comms_t.clone();
                ensure!(c2 == comm && r == resp, "altered", "a malformed token ({}) is accepted", how);
            }
        }
    }
    Ok(())
}
/// a structural change of a JSON value: drop, repeat or swap elements of arrays and maps
fn mangle(g: &mut G, v: &mut serde_json::Value) -> String {
    use serde_json::Value as J;
    let mut path = String::new();
    let mut cur = v;
    loop {
        match cur {
            J::Object(m) if !m.is_empty() => {
                let keys: Vec<String> = m.keys().cloned().collect();
                let k = g.pick(&keys).clone();
                path += &format!(".{}", k);
                if k.parse::<usize>().is_ok() && g.chance(1, 2) {
                    let x = m.remove(&k).unwrap();
                    if g.bool() {
                        m.insert((k.parse::<usize>().unwrap() + 1 + g.below(3)).to_string(), x);
                    }
                    return path + " moved";
                }
                cur = m.get_mut(&k).unwrap();
            }
            J::Array(a) => {
                let n = a.len();
                match g.below(6) {
                    0 => {
                        a.clear();
                        return path + " cleared";
                    }
                    1 if n > 0 => {
                        let i = g.below(n);
                        a.remove(i);
                        return path + " shortened";
                    }
                    2 if n > 0 => {
                        let x = a[g.below(n)].clone();
                        a.push(x);
                        return path + " lengthened";
                    }
                    3 if n > 1 => {
                        let i = g.below(n);
                        a.swap(i, (i + 1) % n);
                        return path + " swapped";
                    }
                    _ if n > 0 => {
                        let i = g.below(n);
                        path += &format!("[{}]", i);
                        cur = &mut a[i];
                    }
                    _ => return path + " empty",
                }
            }
            _ => return path,
        }
    }
}

/// Z12: two signatures on the same messages
pub fn fresh_signatures(g: &mut G) -> R {
    use crate::fresh::distinct;
    let n = if is_large() { g.range(17, 40) } else { 1 + g.below(6) };
    g.nontrivial();
    let (p1, p2) = (GrothS1::setup(n, &label(g)), GrothS2::setup(n, &label(g)));
    let mut keys = vec![("zero".to_string(), FieldElement::zero())];
    for t in 0..2 {
        keys.push((format!("key {} of the first kind", t), GrothS1::keygen(&p1).0));
        keys.push((format!("key {} of the second kind", t), GrothS2::keygen(&p2).0));
        keys.push((format!("root key {}", t), RootIssuer::keygen(&p1).0));
        keys.push((format!("even key {}", t), EvenLevelIssuer::keygen(&p1).0));
        keys.push((format!("odd key {}", t), OddLevelIssuer::keygen(&p2).0));
    }
    distinct("keys", &keys)?;
    let m1: Vec<G1> = (0..1 + g.below(n)).map(|_| point(g)).collect();
    let m2: Vec<G2> = (0..1 + g.below(n)).map(|_| point(g)).collect();
    let (sk1, sk2) = (nonzero(g), nonzero(g));
    let (mut a, mut b) = (vec![("g1".to_string(), p1.g1.clone())], vec![("g2".to_string(), p1.g2.clone())]);
    for t in 0..2 {
        let s = e("sign", Groth1Sig::new(&m1, &sk1, &p1))?;
        b.push((format!("R of signature {}", t), s.R.clone()));
        a.push((format!("S of signature {}", t), s.S.clone()));
        for i in 0..m1.len() {
            a.push((format!("T {} of signature {}", i, t), s.T[i].clone()));
        }
        let s = e("sign", Groth2Sig::new(&m2, &sk2, &p2))?;
        a.push((format!("R of the other signature {}", t), s.R.clone()));
        b.push((format!("S of the other signature {}", t), s.S.clone()));
        for i in 0..m2.len() {
            b.push((format!("T {} of the other signature {}", i, t), s.T[i].clone()));
        }
    }
    // (the generators of equal labels are equal)
    distinct("signatures", &a)?;
    distinct("signatures", &b)
}

/// Z12: two tokens of the same chain
pub fn fresh_tokens(g: &mut G) -> R {
    use crate::fresh::distinct;
    let (w, L) = World::new(g, 4, 3, true)?;
    let (p1, p2) = (&w.p1, &w.p2);
    let rev = revealed(g, &w.chain);
    g.label(format!("{} links", L));
    if L > 1 {
        g.nontrivial();
    }
    let own_sk = if L % 2 == 1 { &w.osk[L / 2] } else { &w.esk[L / 2] };
    let (mut a, mut b, mut c, mut x) = (vec![("nothing".to_string(), G1::identity())], vec![("nothing".to_string(), G2::identity())], vec![("one".to_string(), GT::one())], vec![("zero".to_string(), FieldElement::zero())]);
    for (i, l) in w.chain.odd_links.iter().enumerate() {
        b.push((format!("R of odd link {}", i), l.signature.R.clone()));
    }
    for (i, l) in w.chain.even_links.iter().enumerate() {
        a.push((format!("R of even link {}", i), l.signature.R.clone()));
    }
    let mut kept = AttributeToken::new(&w.chain, p1, p2);
    // the second time with the same object, or with another
    let again = g.bool();
    for t in 0..2 {
        let mut other = AttributeToken::new(&w.chain, p1, p2);
        let at = if again { &mut kept } else { &mut other };
        let comm = match g.below(3) {
            0 => at.commitment(rev.clone()),
            1 => at.commitment_with_precomputation_on_setup_params(rev.clone(), &PrecompOnSetupParams::new(p1, p2)),
            _ => {
                let c = e("precomputed", PrecompOnCredChain::new(&w.chain, p1, p2))?;
                at.commitment_with_precomputation(rev.clone(), &PrecompOnSetupParams::new(p1, p2), &c)
            }
        };
        let comm = e("commitment", comm)?;
        let ch = AttributeToken::gen_challenge(&comm, &w.evk[0], vec![]);
        let resp = e("response", at.response(&comm, own_sk, &ch, w.evk[1..].iter().collect(), w.ovk.iter().collect()))?;
        let neg = ch.negation();
        for (i, p) in comm.odd_level_blinded_r.iter().enumerate() {
            b.push((format!("R of odd level {} of token {}", i, t), p.clone()));
        }
        for (i, p) in comm.even_level_blinded_r.iter().enumerate() {
            a.push((format!("R of even level {} of token {}", i, t), p.clone()));
        }
        for (i, p) in comm.comms_s.iter().enumerate() {
            c.push((format!("the commitment to s of level {} of token {}", i, t), p.clone()));
        }
        for (i, v) in comm.comms_t.iter().enumerate() {
            for (j, p) in v.iter().enumerate() {
                // a revealed attribute without a blinding of its own still has that of t
                c.push((format!("the commitment to t {} of level {} of token {}", j, i, t), p.clone()));
            }
        }
        x.push((format!("the blinding of the key of token {}", t), &resp.resp_csk - &(&ch * own_sk)));
        // blindings of attributes and keys, by the responses
        for (i, l) in w.chain.odd_links.iter().enumerate() {
            a.push((format!("the response to s of odd level {} of token {}", i, t), resp.odd_level_resp_s[i].clone()));
            let hid: Vec<usize> = (0..l.attribute_count() - 1).filter(|j| !rev[2 * i].contains(j)).collect();
            for (p, j) in resp.odd_level_resp_a[i].iter().zip(&hid) {
                a.push((format!("the blinding of attribute {} of odd level {} of token {}", j, i, t), p + &(&l.attributes[*j] * &neg)));
            }
            for (j, p) in resp.odd_level_resp_t[i].iter().enumerate() {
                a.push((format!("the response to t {} of odd level {} of token {}", j, i, t), p.clone()));
            }
            if 2 * i + 1 < L {
                a.push((format!("the blinding of the key of odd level {} of token {}", i, t), &resp.odd_level_resp_vk[i] + &(&w.ovk[i].0 * &neg)));
            }
        }
        for (i, l) in w.chain.even_links.iter().enumerate() {
            b.push((format!("the response to s of even level {} of token {}", i, t), resp.even_level_resp_s[i].clone()));
            let hid: Vec<usize> = (0..l.attribute_count() - 1).filter(|j| !rev[2 * i + 1].contains(j)).collect();
            for (p, j) in resp.even_level_resp_a[i].iter().zip(&hid) {
                b.push((format!("the blinding of attribute {} of even level {} of token {}", j, i, t), p + &(&l.attributes[*j] * &neg)));
            }
            for (j, p) in resp.even_level_resp_t[i].iter().enumerate() {
                b.push((format!("the response to t {} of even level {} of token {}", j, i, t), p.clone()));
            }
            if 2 * i + 2 < L {
                b.push((format!("the blinding of the key of even level {} of token {}", i, t), &resp.even_level_resp_vk[i] + &(&w.evk[i + 1].0 * &neg)));
            }
        }
    }
    crate::fresh::unrelated("points", &a, &|a, b| a + b, &|a| a.negation(), &[p1.g1.clone()])?;
    crate::fresh::unrelated("points", &b, &|a, b| a + b, &|a| a.negation(), &[p1.g2.clone()])?;
    distinct("commitments", &c)?;
    crate::fresh::unrelated("numbers", &x, &|a, b| a + b, &|a| a.negation(), &[FieldElement::one()])
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "Z06",
            rule: "groth: a signature over at least one message; chains: two or more links; levels: any case",
            assumptions: vec!["the pairing and the groups of amcl_wrapper are right, which the oracle uses one pairing at a time"],
            subs: vec![sub("groth1", 80, 3000, 40, groth1), sub("groth2", 60, 3000, 40, groth2), sub("chains", 60, 2000, 30, chains), sub("levels", 60, 2000, 60, levels), sub("large-groth1", 2, 60, 4, |g| large(g, groth1)), sub("large-groth2", 2, 60, 4, |g| large(g, groth2)), sub("large-chains", 1, 60, 4, |g| large(g, chains))],
        },
        Prop {
            id: "Z07",
            rule: "some attribute is revealed and some hidden",
            assumptions: vec!["the pairing and the groups of amcl_wrapper are right", "both setup parameters have the same generators (the same label), as the responses need"],
            subs: vec![sub("tokens", 60, 2000, 20, tokens), sub("large-tokens", 1, 60, 4, |g| large(g, tokens))],
        },
    ]
}
