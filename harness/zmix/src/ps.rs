//! Z04, Z05: proofs of knowledge of vector commitments, PS signatures
use crate::bbsx::e;
use pbt::*;
use std::collections::{BTreeSet, HashMap, HashSet};
use zmix::amcl_wrapper::constants::{FieldElement_SIZE, GroupG1_SIZE};
use zmix::amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
use zmix::amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use zmix::amcl_wrapper::group_elem_g1::G1;
use zmix::amcl_wrapper::group_elem_g2::G2;
use zmix::amcl_wrapper::types_g2::GroupG2_SIZE;
use zmix::signatures::ps::keys::Params;
use zmix::signatures::ps::prelude::*;
use zmix::signatures::ps::OtherGroup;

/// scalars: the edges often
pub fn fe(g: &mut G) -> FieldElement {
    match g.draw(6) {
        0 => FieldElement::zero(),
        1 => FieldElement::minus_one(),
        2 => FieldElement::from(1 + g.draw(4)),
        _ => fex(g),
    }
}
pub fn fex(g: &mut G) -> FieldElement {
    FieldElement::from_msg_hash(&g.draw(u64::MAX).to_be_bytes())
}
pub fn sum<T: GroupElement + std::ops::Add<Output = T>>(v: &[(T, FieldElement)]) -> T {
    let mut r = T::identity();
    for (p, s) in v {
        r = r + p.scalar_mul_const_time(s);
    }
    r
}
pub fn point<T: GroupElement>(g: &mut G) -> T {
    match g.draw(12) {
        0 => T::identity(),
        1 => T::generator(),
        _ => T::from_msg_hash(&g.draw(u64::MAX).to_be_bytes()),
    }
}

macro_rules! vc {
    ($name:ident, $committing:ty, $proof:ty, $group:ty, $size:expr) => {
        fn $name(g: &mut G) -> R {
            let n = if is_large() {
                g.range(256, 300)
            } else if g.chance(1, 12) {
                g.range(7, 20)
            } else {
                g.below(7)
            };
            g.label(format!("{} {}", stringify!($name), n.min(7)));
            if n > 1 {
                g.nontrivial();
            }
            let mut bases: Vec<$group> = vec![];
            for i in 0..n {
                if i > 0 && g.chance(1, 8) {
                    let b = bases[g.below(i)].clone();
                    bases.push(b);
                } else {
                    bases.push(point(g));
                }
            }
            let secrets: Vec<_> = (0..n).map(|_| fe(g)).collect();
            let fixed: Vec<_> = (0..n).map(|_| if g.bool() { Some(fe(g)) } else { None }).collect();
            let mut c = <$committing>::new();
            for i in 0..n {
                let j = c.commit(&bases[i], fixed[i].as_ref());
                ensure!(j == i, "index", "the {}th commit returns {}", i, j);
            }
            let mut blind = vec![];
            for i in 0..n {
                let (b, r) = e("get_index", c.get_index(i))?;
                ensure!(*b == bases[i], "get_index", "another base");
                if let Some(f) = &fixed[i] {
                    ensure!(r == f, "get_index", "another blinding");
                }
                blind.push(r.clone());
            }
            ensure!(c.get_index(n).is_err() && c.get_index(n + 1 + g.below(5)).is_err(), "get_index", "there is an element after the last");
            for i in 0..n {
                ensure!(fixed[i].is_some() || blind.iter().filter(|b| **b == blind[i]).count() == 1, "blindings", "two random blindings are equal");
            }
            let com = sum(&bases.iter().cloned().zip(secrets.iter().cloned()).collect::<Vec<_>>());
            let t = sum(&bases.iter().cloned().zip(blind.iter().cloned()).collect::<Vec<_>>());
            // the neutral element has no canonical encoding in amcl_wrapper
            let odd = |v: &[$group], a: &$group, b: &$group| v.iter().any(|x| x.is_identity()) || a.is_identity() || b.is_identity();
            let c = c.finish();
            ensure!(c.commitment == t, "commitment", "the random commitment is not the product of bases and blindings");
            let nonce = if g.chance(1, 4) { g.bytes(41, 300) } else { g.bytes(0, 40) };
            let mut extra = com.to_bytes();
            extra.extend_from_slice(&nonce);
            let own = c.gen_challenge(extra.clone());
            {
                let mut all = vec![];
                bases.iter().for_each(|b| all.extend(b.to_bytes()));
                all.extend(t.to_bytes());
                all.extend(&extra);
                ensure!(own == FieldElement::from_msg_hash(&all) || odd(&bases, &com, &t), "challenge", "the challenge is not the hash of bases, commitment and the rest");
            }
            let chal = match g.draw(3) {
                0 => fe(g),
                _ => own.clone(),
            };
            let bad = g.below(n + 3);
            if bad != n {
                let w: Vec<_> = (0..bad).map(|_| fe(g)).collect();
                ensure!(c.clone().gen_proof(&chal, &w).is_err(), "count", "{} secrets for {} bases are accepted", bad, n);
            }
            let mut p: $proof = e("gen_proof", c.gen_proof(&chal, &secrets))?;
            ensure!(p.responses.len() == n, "responses", "{} responses for {} secrets", p.responses.len(), n);
            for i in 0..n {
                ensure!(p.responses[i] == &blind[i] - &(&chal * &secrets[i]), "responses", "response {} is not blinding - challenge * secret", i);
            }
            // through bytes or JSON
            match g.draw(2) {
                0 => {
                    let b = p.to_bytes();
                    ensure!(b.len() == $size + 4 + n * FieldElement_SIZE, "bytes", "{} bytes for {} responses", b.len(), n);
                    let q = e("from_bytes", <$proof>::from_bytes(&b))?;
                    ensure!(q.to_bytes() == b || t.is_identity(), "bytes", "a proof changed in its encoding");
                    let k = g.below(b.len());
                    ensure!(<$proof>::from_bytes(&b[..k]).is_err(), "truncated", "{} bytes of {} are decoded", k, b.len());
                    let mut d = b.clone();
                    let m = g.below(6);
                    for _ in 0..m {
                        let k = if g.bool() { $size + g.below(4) } else { g.below(d.len()) };
                        d[k] = g.draw(255) as u8;
                    }
                    let r = no_panic(|| <$proof>::from_bytes(&d).ok().map(|p| p.to_bytes()));
                    ensure!(r.is_ok(), "panic", "decoding panics: {:?}", r);
                    p = q;
                }
                1 => p = e("json", serde_json::from_str(&e("json", serde_json::to_string(&p))?))?,
                _ => {}
            }
            let v = e("verify", p.verify(&bases, &com, &chal))?;
            ensure!(v, "rejected", "an honest proof is rejected");
            let v = e("verify_complete_proof", p.verify_complete_proof(&bases, &com, &chal, &nonce))?;
            ensure!(v == (chal == own) || odd(&bases, &com, &t), "complete", "verify_complete_proof gives {} where the challenge {} the hash", v, if chal == own { "is" } else { "is not" });
            // changes, some of which keep the equation
            let (mut bases2, mut com2, mut chal2, mut nonce2) = (bases.clone(), com.clone(), chal.clone(), nonce.clone());
            let mut what = vec![];
            for _ in 0..1 + g.below(2) {
                let n = bases2.len().min(p.responses.len());
                let i = if n == 0 { 0 } else { g.below(n) };
                match g.draw(11) {
                    0 => {
                        what.push("random commitment");
                        p.commitment = point(g)
                    }
                    1 => {
                        what.push("commitment");
                        com2 = point(g)
                    }
                    2 => {
                        what.push("challenge");
                        chal2 = fe(g)
                    }
                    3 if n > 0 => {
                        what.push("base");
                        bases2[i] = point(g)
                    }
                    4 if n > 0 => {
                        what.push("response");
                        p.responses[i] = fe(g)
                    }
                    5 if n > 1 => {
                        what.push("bases swapped");
                        let j = g.below(n);
                        bases2.swap(i, j)
                    }
                    6 if n > 1 => {
                        what.push("bases and responses swapped");
                        let j = g.below(n);
                        bases2.swap(i, j);
                        let x = p.responses[i].clone();
                        p.responses[i] = p.responses[j].clone();
                        p.responses[j] = x;
                    }
                    7 if n > 0 => {
                        what.push("response and random commitment");
                        let d = fe(g);
                        p.responses[i] = &p.responses[i] + &d;
                        p.commitment = sum(&[(p.commitment.clone(), FieldElement::one()), (bases2[i].clone(), d)])
                    }
                    8 => {
                        what.push("a base less");
                        bases2.pop();
                    }
                    9 => {
                        what.push("a base more");
                        bases2.push(point(g));
                    }
                    10 => {
                        what.push("nonce");
                        match g.below(4) {
                            0 => drop(nonce2.pop()),
                            1 | 2 if !nonce2.is_empty() => {
                                let k = if g.bool() { nonce2.len() - 1 } else { g.below(nonce2.len()) };
                                nonce2[k] ^= 1 << g.below(8)
                            }
                            _ => nonce2.push(0),
                        }
                    }
                    _ => {
                        what.push("simulated");
                        let mut v: Vec<_> = vec![];
                        chal2 = fe(g);
                        let m = bases2.len();
                        p.responses = FieldElementVector::new(0);
                        for i in 0..m {
                            let s = fe(g);
                            p.responses.push(s.clone());
                            v.push((bases2[i].clone(), s));
                        }
                        v.push((com2.clone(), chal2.clone()));
                        p.commitment = sum(&v);
                    }
                }
            }
            let what = what.join(", ");
            g.label(what.clone());
            let want = if bases2.len() != p.responses.len() {
                None
            } else {
                let mut v: Vec<_> = (0..bases2.len()).map(|i| (bases2[i].clone(), p.responses[i].clone())).collect();
                v.push((com2.clone(), chal2.clone()));
                Some(sum(&v) == p.commitment)
            };
            let got = p.verify(&bases2, &com2, &chal2).ok();
            ensure!(got == want, "altered", "after a change ({}) verify gives {:?} instead of {:?}", what, got, want);
            let want = want.map(|w| {
                let mut all = vec![];
                bases2.iter().for_each(|b| all.extend(b.to_bytes()));
                all.extend(p.commitment.to_bytes());
                all.extend(com2.to_bytes());
                all.extend(&nonce2);
                w && FieldElement::from_msg_hash(&all) == chal2
            });
            let got = p.verify_complete_proof(&bases2, &com2, &chal2, &nonce2).ok();
            ensure!(got == want || odd(&bases2, &com2, &p.commitment), "altered-complete", "after a change ({}) verify_complete_proof gives {:?} instead of {:?}", what, got, want);
            Ok(())
        }
    };
}
mod c {
    pub use zmix::commitments::pok_vc::*;
}
vc!(vc_g1, c::ProverCommittingG1, c::ProofG1, G1, GroupG1_SIZE);
vc!(vc_g2, c::ProverCommittingG2, c::ProofG2, G2, GroupG2_SIZE);
vc!(vc_sig, ProverCommittingSignatureGroup, ProofSignatureGroup, SignatureGroup, SignatureGroup::identity().to_bytes().len());
vc!(vc_other, ProverCommittingOtherGroup, ProofOtherGroup, OtherGroup, OtherGroup::identity().to_bytes().len());

/// equal secrets with equal blindings give equal responses, in any of the groups
fn linked(g: &mut G) -> R {
    g.nontrivial();
    let (s, s2, b, ch) = (fe(g), fe(g), fe(g), fex(g));
    let mut a = c::ProverCommittingG1::new();
    let mut d = c::ProverCommittingG2::new();
    let (pa, pd) = (g.below(4), g.below(4));
    let fill = |g: &mut G, n: usize, i: usize, x: &FieldElement| (0..n).map(|j| if i == j { x.clone() } else { fe(g) }).collect::<Vec<_>>();
    for i in 0..4 {
        a.commit(&point(g), if i == pa { Some(&b) } else { None });
        d.commit(&point(g), if i == pd { Some(&b) } else { None });
    }
    let x = if g.bool() { &s } else { &s2 };
    let (sa, sd) = (fill(g, 4, pa, &s), fill(g, 4, pd, x));
    let ra = e("gen_proof", a.finish().gen_proof(&ch, &sa))?.responses[pa].clone();
    let rd = e("gen_proof", d.finish().gen_proof(&ch, &sd))?.responses[pd].clone();
    ensure!((ra == rd) == (s == *x), "linked", "responses are {} where the secrets are {}", if ra == rd { "equal" } else { "different" }, if s == *x { "equal" } else { "different" });
    Ok(())
}

struct Ps {
    params: Params,
    vk: PublicKey,
    sk: SecretKey,
    bk: BlindingKey,
}
fn setup(g: &mut G, n: usize) -> Result<Ps, Fail> {
    let label = if g.chance(1, 3) { g.bytes(0, 100) } else { g.bytes(0, 20) };
    let params = Params::new(&label);
    if !label.is_empty() {
        let mut other = label.clone();
        let j = if g.bool() { label.len() - 1 } else { g.below(label.len()) };
        other[j] ^= 1 << g.below(8);
        let other = Params::new(&other);
        ensure!(other.g != params.g && other.g_tilde != params.g_tilde, "params", "two labels give the same generators");
    }
    let (vk, sk) = generate(n, &params);
    let bk = BlindingKey::new(&sk, &params);
    ensure!(vk.msg_count() == n && bk.msg_count() == n && sk.y.len() == n, "count", "a key for {} messages has {}", n, vk.msg_count());
    ensure!(vk.X_tilde == &params.g_tilde * &sk.x && bk.X == &params.g * &sk.x, "keypair", "the keys do not match");
    for i in 0..n {
        ensure!(vk.Y_tilde[i] == &params.g_tilde * &sk.y[i] && bk.Y[i] == &params.g * &sk.y[i], "keypair", "the keys do not match");
    }
    Ok(Ps { params, vk, sk, bk })
}
impl Ps {
    /// the equation that defines signatures, with the secret key
    fn valid(&self, s: &Signature, m: &[FieldElement]) -> bool {
        let mut x = self.sk.x.clone();
        for (y, m) in self.sk.y.iter().zip(m) {
            x = &x + &(y * m);
        }
        !s.sigma_1.is_identity() && s.sigma_2 == &s.sigma_1 * &x && !s.sigma_2.is_identity()
    }
}
fn size(g: &mut G) -> usize {
    if is_large() {
        return g.range(256, 300);
    }
    if g.chance(1, 10) {
        g.range(6, 12)
    } else {
        g.range(1, 5)
    }
}
fn alter(g: &mut G, m: &mut Vec<FieldElement>) {
    let n = m.len();
    match g.draw(3) {
        0 | 3 => {
            let i = g.below(n);
            m[i] = fe(g)
        }
        1 => {
            let (i, j) = (g.below(n), g.below(n));
            m.swap(i, j)
        }
        _ => {
            let i = g.below(n);
            m[i] = &m[i] + &FieldElement::one()
        }
    }
}

fn signatures(g: &mut G) -> R {
    let n = size(g);
    let k = setup(g, n)?;
    let m: Vec<_> = (0..n).map(|_| fe(g)).collect();
    // the first `h` messages are hidden from the signer
    let h = if g.chance(1, 3) { 0 } else { g.range(1, n) };
    g.label(format!("hidden {}", h.min(3)));
    if h > 0 {
        g.nontrivial();
    }
    let mut s = if h == 0 {
        let c = g.below(n + 3);
        if c != n {
            let w: Vec<_> = (0..c).map(|_| fe(g)).collect();
            ensure!(Signature::new(&w, &k.sk, &k.params).is_err(), "count", "{} messages are signed with a key for {}", c, n);
        }
        e("Signature::new", Signature::new(&m, &k.sk, &k.params))?
    } else {
        let r = fe(g);
        let mut v: Vec<_> = (0..h).map(|i| (k.bk.Y[i].clone(), m[i].clone())).collect();
        v.push((k.params.g.clone(), r.clone()));
        let com = sum(&v);
        // and the proof that goes with the commitment
        let mut pc = ProverCommittingSignatureGroup::new();
        for (b, _) in &v {
            pc.commit(b, None);
        }
        let pc = pc.finish();
        let ch = pc.gen_challenge(com.to_bytes());
        let p = e("gen_proof", pc.gen_proof(&ch, &v.iter().map(|x| x.1.clone()).collect::<Vec<_>>()))?;
        let bases: Vec<_> = v.iter().map(|x| x.0.clone()).collect();
        ensure!(e("verify", p.verify(&bases, &com, &ch))?, "request", "an honest request is rejected");
        let c = n + g.below(3);
        let w: Vec<_> = (0..c).map(|_| fe(g)).collect();
        ensure!(BlindSignature::new(&com, &w, &k.sk, &k.bk, &k.params).is_err(), "count", "{} known messages with a key for {}", c, n);
        ensure!(BlindSignature::new_from_paper(&com, &w, &k.bk.X, &k.bk, &k.params).is_err(), "count", "{} known messages with a key for {}", c, n);
        let b = if g.bool() {
            e("BlindSignature::new", BlindSignature::new(&com, &m[h..], &k.sk, &k.bk, &k.params))?
        } else {
            e("new_from_paper", BlindSignature::new_from_paper(&com, &m[h..], &k.bk.X, &k.bk, &k.params))?
        };
        let vb = e("verify", b.verify(&m, &k.vk, &k.params))?;
        ensure!(vb == k.valid(&b, &m), "blinded", "verify of the blinded signature is {}", vb);
        let u = BlindSignature::unblind(&b, &r);
        if g.chance(1, 4) {
            let r2 = fe(g);
            let w = BlindSignature::unblind(&b, &r2);
            let v = e("verify", w.verify(&m, &k.vk, &k.params))?;
            ensure!(v == (r == r2), "unblind", "unblinding with {} blinding gives verify {}", if r == r2 { "the" } else { "another" }, v);
        }
        u
    };
    ensure!(k.valid(&s, &m), "equation", "the signature of {} hidden and {} known messages does not satisfy the equation", h, n - h);
    if g.bool() {
        let l = s.sigma_1.to_bytes().len();
        let b = s.to_bytes();
        ensure!(b.len() == 2 * l && b[..l] == s.sigma_1.to_bytes()[..] && b[l..] == s.sigma_2.to_bytes()[..], "bytes", "the encoding is not sigma_1, sigma_2");
        s = e("json", serde_json::from_str(&e("json", serde_json::to_string(&s))?))?;
        ensure!(s.to_bytes() == b, "json", "a signature changed in its encoding");
    }
    ensure!(e("verify", s.verify(&m, &k.vk, &k.params))?, "rejected", "an honest signature is rejected");
    let c = g.below(n + 3);
    if c != n {
        let mut w = m.clone();
        w.resize(c, FieldElement::zero());
        ensure!(s.verify(&w, &k.vk, &k.params).is_err(), "count", "a signature of {} messages is checked with {}", n, c);
    }
    // anything changed
    let (mut t, mut w, mut vk, mut params) = (s.clone(), m.clone(), k.vk.clone(), k.params.clone());
    let what = match g.draw(8) {
        0 | 1 | 2 => {
            alter(g, &mut w);
            "message"
        }
        3 => {
            t.sigma_1 = point(g);
            "sigma_1"
        }
        4 => {
            t.sigma_2 = point(g);
            "sigma_2"
        }
        5 => {
            let x = fe(g);
            t.sigma_1 = &t.sigma_1 * &x;
            t.sigma_2 = &t.sigma_2 * &x;
            "both scaled"
        }
        6 => {
            t = Signature { sigma_1: SignatureGroup::identity(), sigma_2: SignatureGroup::identity() };
            "identity"
        }
        7 => {
            let i = g.below(n + 1);
            let p = point(g);
            if i == n {
                vk.X_tilde = p
            } else {
                vk.Y_tilde[i] = p
            }
            let v = e("verify", t.verify(&w, &vk, &params))?;
            let same = (if i == n { &vk.X_tilde == &k.vk.X_tilde } else { vk.Y_tilde[i] == k.vk.Y_tilde[i] }) || (i < n && m[i].is_zero());
            ensure!(v == same, "other-key", "with another key verify is {}", v);
            return Ok(());
        }
        _ => {
            params = Params::new(b"other parameters");
            let v = e("verify", t.verify(&w, &vk, &params))?;
            ensure!(!v, "other-params", "with other parameters verify is {}", v);
            return Ok(());
        }
    };
    g.label(what);
    let v = e("verify", t.verify(&w, &vk, &params))?;
    ensure!(v == k.valid(&t, &w), "altered", "after a change ({}) verify is {}", what, v);
    Ok(())
}

fn pok(g: &mut G) -> R {
    let n = size(g);
    let k = setup(g, n)?;
    let m: Vec<_> = (0..n).map(|_| fe(g)).collect();
    let s = e("Signature::new", Signature::new(&m, &k.sk, &k.params))?;
    let shown: BTreeSet<usize> = g.subset(n).into_iter().collect();
    let hidden: Vec<usize> = (0..n).filter(|i| !shown.contains(i)).collect();
    g.label(format!("{} shown, {} hidden", shown.len().min(3), hidden.len().min(3)));
    if !shown.is_empty() && !hidden.is_empty() {
        g.nontrivial();
    }
    let set: HashSet<usize> = shown.iter().copied().collect();
    let map: HashMap<usize, FieldElement> = shown.iter().map(|i| (*i, m[*i].clone())).collect();
    // what cannot be shown
    match g.draw(3) {
        0 => {
            let mut bad = set.clone();
            bad.insert(n + g.below(3));
            ensure!(PoKOfSignature::init(&s, &k.vk, &k.params, &m, None, bad).is_err(), "index", "an index out of range can be revealed");
        }
        1 => {
            let c = g.below(n + 3);
            if c != n {
                let w: Vec<_> = (0..c).map(|_| fe(g)).collect();
                ensure!(PoKOfSignature::init(&s, &k.vk, &k.params, &w, None, HashSet::new()).is_err(), "count", "{} messages for a key for {}", c, n);
            }
        }
        2 => {
            let c = g.below(n + 3);
            if c != hidden.len() {
                let w: Vec<_> = (0..c).map(|_| fe(g)).collect();
                ensure!(PoKOfSignature::init(&s, &k.vk, &k.params, &m, Some(&w), set.clone()).is_err(), "blindings", "{} blindings for {} messages", c, hidden.len());
            }
        }
        _ => {}
    }
    let bl: Option<Vec<FieldElement>> = if g.bool() { Some((0..hidden.len()).map(|_| fe(g)).collect()) } else { None };
    let p = e("init", PoKOfSignature::init(&s, &k.vk, &k.params, &m, bl.as_ref().map(|b| &b[..]), set.clone()))?;
    let own = FieldElement::from_msg_hash(&p.to_bytes());
    let bytes = p.to_bytes();
    let ch = if g.chance(1, 4) { fe(g) } else { own };
    let mut p: PoKOfSignatureProof = e("gen_proof", p.gen_proof(&ch))?;
    if g.bool() {
        p = e("json", serde_json::from_str(&e("json", serde_json::to_string(&p))?))?;
    }
    if g.bool() {
        let q = e("from_bytes", ProofOtherGroup::from_bytes(&p.proof_vc.to_bytes()))?;
        ensure!(q.to_bytes() == p.proof_vc.to_bytes(), "bytes", "a proof changed in its encoding");
        p.proof_vc = q;
    }
    ensure!(p.get_bytes_for_challenge(set.clone(), &k.vk, &k.params) == bytes, "challenge", "prover and verifier hash different bytes");
    ensure!(p.sig.sigma_1 != s.sigma_1 && p.sig.sigma_2 != s.sigma_2, "randomized", "the signature is shown as it is");
    for (j, i) in hidden.iter().enumerate() {
        let r = e("get_resp_for_message", p.get_resp_for_message(j))?;
        if let Some(b) = &bl {
            ensure!(r == &b[j] - &(&ch * &m[*i]), "response", "the response for message {} is another", i);
        }
    }
    if bl.is_none() {
        // the randomness of two proofs of the same
        let mut used: Vec<FieldElement> = (0..hidden.len() + 1).map(|j| &p.proof_vc.responses[j] + &(&ch * &if j == 0 { FieldElement::zero() } else { m[hidden[j - 1]].clone() })).collect();
        let t = used.remove(0);
        let p2 = e("init", PoKOfSignature::init(&s, &k.vk, &k.params, &m, None, set.clone()))?;
        let p2 = e("gen_proof", p2.gen_proof(&ch))?;
        ensure!(p2.sig.sigma_1 != p.sig.sigma_1 && p2.J != p.J && p2.proof_vc.commitment != p.proof_vc.commitment && !t.is_zero(), "fresh", "two proofs share their randomness");
        for j in 0..hidden.len() {
            let b = &p2.proof_vc.responses[j + 1] + &(&ch * &m[hidden[j]]);
            ensure!(used.iter().all(|u| *u != b) && used.iter().filter(|u| **u == used[j]).count() == 1 && !used.contains(&FieldElement::zero()), "fresh", "a blinding that is not given is not fresh");
        }
    }
    ensure!(p.get_resp_for_message(hidden.len() + g.below(3)).is_err(), "response", "there is a response for a message that is not hidden");
    ensure!(e("verify", p.verify(&k.vk, &k.params, map.clone(), &ch))?, "rejected", "an honest proof is rejected");
    // anything changed: the equations of a verifier who knows the secret key
    let (mut map2, mut ch2) = (map.clone(), ch.clone());
    let what = match g.draw(14) {
        0 | 1 if !shown.is_empty() => {
            let v: Vec<_> = shown.iter().collect();
            let i = **g.pick(&v);
            map2.insert(i, fe(g));
            "revealed message"
        }
        2 if !shown.is_empty() => {
            let v: Vec<_> = shown.iter().collect();
            let i = **g.pick(&v);
            map2.remove(&i);
            "revealed message left out"
        }
        3 if !hidden.is_empty() => {
            let i = *g.pick(&hidden);
            map2.insert(i, if g.bool() { m[i].clone() } else { fe(g) });
            "a hidden message shown"
        }
        4 if !hidden.is_empty() && !shown.is_empty() => {
            let v: Vec<_> = shown.iter().collect();
            let (i, j) = (**g.pick(&v), *g.pick(&hidden));
            let x = map2.remove(&i).unwrap();
            map2.insert(j, x);
            "another index"
        }
        5 => {
            let i = n + if g.bool() { g.below(3) } else { g.below(1000) };
            map2.insert(i, fe(g));
            "an index out of range"
        }
        6 => {
            ch2 = fe(g);
            "challenge"
        }
        7 => {
            p.J = point(g);
            "J"
        }
        8 => {
            if g.bool() {
                p.sig.sigma_1 = point(g)
            } else {
                p.sig.sigma_2 = point(g)
            }
            "signature"
        }
        9 => {
            let i = g.below(p.proof_vc.responses.len());
            p.proof_vc.responses[i] = fe(g);
            "response"
        }
        10 => {
            p.proof_vc.commitment = point(g);
            "random commitment"
        }
        11 => {
            p.proof_vc.responses = (0..g.below(n + 3)).map(|_| fe(g)).collect::<Vec<_>>().into();
            let r = no_panic(|| p.get_resp_for_message(p.proof_vc.responses.len()).is_err());
            ensure!(r == Ok(true), "panic", "get_resp_for_message: {:?}", r);
            "number of responses"
        }
        12 => {
            let x = fex(g);
            p.sig.sigma_1 = &p.sig.sigma_1 * &x;
            p.sig.sigma_2 = &p.sig.sigma_2 * &x;
            "signature scaled"
        }
        13 => {
            // a simulated proof for any J
            p.J = point(g);
            let mut b = vec![(k.params.g_tilde.clone(), fe(g))];
            for i in &hidden {
                b.push((k.vk.Y_tilde[*i].clone(), fe(g)));
            }
            for (i, x) in b.iter().enumerate() {
                p.proof_vc.responses[i] = x.1.clone();
            }
            b.push((p.J.clone(), ch.clone()));
            p.proof_vc.commitment = sum(&b);
            "simulated"
        }
        _ => {
            p.sig = Signature { sigma_1: SignatureGroup::identity(), sigma_2: SignatureGroup::identity() };
            "identity"
        }
    };
    g.label(what);
    let want = {
        let in_range = map2.keys().all(|i| *i < n);
        let mut b = vec![k.params.g_tilde.clone()];
        b.extend((0..n).filter(|i| !map2.contains_key(i)).map(|i| k.vk.Y_tilde[i].clone()));
        if p.sig.sigma_1.is_identity() || p.sig.sigma_2.is_identity() || !in_range || b.len() != p.proof_vc.responses.len() {
            false
        } else {
            let mut v: Vec<_> = b.into_iter().enumerate().map(|(i, b)| (b, p.proof_vc.responses[i].clone())).collect();
            v.push((p.J.clone(), ch2.clone()));
            let mut j = vec![(p.J.clone(), FieldElement::one()), (k.vk.X_tilde.clone(), FieldElement::one())];
            j.extend(map2.iter().map(|(i, m)| (k.vk.Y_tilde[*i].clone(), m.clone())));
            sum(&v) == p.proof_vc.commitment && pair(&p.sig.sigma_1, &sum(&j)) == pair(&p.sig.sigma_2, &k.params.g_tilde)
        }
    };
    let r = no_panic(|| p.verify(&k.vk, &k.params, map2.clone(), &ch2));
    match r {
        Err(x) => fail("panic", format!("verify panics after a change ({}): {}", what, x)),
        Ok(r) => {
            let got = r.as_ref().map(|b| *b).unwrap_or(false);
            ensure!(got == want, "altered", "after a change ({}) verify is {:?}", what, r);
            if map2.keys().any(|i| *i >= n) {
                ensure!(r.is_err(), "index", "a revealed index out of range gives {:?}", r);
            }
            Ok(())
        }
    }
}
fn pair(a: &SignatureGroup, b: &OtherGroup) -> zmix::amcl_wrapper::extension_field_gt::GT {
    zmix::amcl_wrapper::extension_field_gt::GT::ate_pairing(b, a)
}

/// Z12: two signatures on and two presentations of the same messages
pub fn fresh(g: &mut G) -> R {
    use crate::fresh::distinct;
    let n = size(g);
    let k = setup(g, n)?;
    let m: Vec<_> = (0..n).map(|_| fe(g)).collect();
    let shown: BTreeSet<usize> = g.subset(n).into_iter().collect();
    let hid: Vec<usize> = (0..n).filter(|i| !shown.contains(i)).collect();
    if !hid.is_empty() {
        g.nontrivial();
    }
    let (mut pts, mut others, mut scalars) = (vec![("nothing".to_string(), SignatureGroup::identity())], vec![("nothing".to_string(), OtherGroup::identity())], vec![("zero".to_string(), FieldElement::zero())]);
    let (mut responses, mut ts) = (scalars.clone(), others.clone());
    let r = fex(g);
    let com = sum(&(0..n).map(|i| (k.bk.Y[i].clone(), m[i].clone())).chain(std::iter::once((k.params.g.clone(), r))).collect::<Vec<_>>());
    let mut last = None;
    for t in 0..2 {
        let s = e("Signature::new", Signature::new(&m, &k.sk, &k.params))?;
        let b = e("BlindSignature::new", BlindSignature::new(&com, &[], &k.sk, &k.bk, &k.params))?;
        let p = e("new_from_paper", BlindSignature::new_from_paper(&com, &[], &k.bk.X, &k.bk, &k.params))?;
        for (w, s) in [("signature", &s), ("blind signature", &b), ("second blind signature", &p)].iter() {
            pts.push((format!("sigma_1 of {} {}", w, t), s.sigma_1.clone()));
            ensure!(!s.sigma_2.is_identity(), "trivial", "sigma_2 of {} is the identity", w);
        }
        last = Some(s);
    }
    let s = last.unwrap();
    let set: HashSet<usize> = shown.iter().copied().collect();
    for t in 0..2 {
        let p = e("init", PoKOfSignature::init(&s, &k.vk, &k.params, &m, None, set.clone()))?;
        let ch = FieldElement::from_msg_hash(&p.to_bytes());
        let p: PoKOfSignatureProof = e("gen_proof", p.gen_proof(&ch))?;
        pts.push((format!("sigma_1 of presentation {}", t), p.sig.sigma_1.clone()));
        pts.push((format!("sigma_2 of presentation {}", t), p.sig.sigma_2.clone()));
        others.push((format!("J of presentation {}", t), p.J.clone()));
        others.push((format!("the commitment of presentation {}", t), p.proof_vc.commitment.clone()));
        // g~^t, for who guesses the hidden messages
        let known: Vec<_> = hid.iter().map(|i| (k.vk.Y_tilde[*i].clone(), m[*i].clone())).collect();
        let gt = &p.J - &sum(&known);
        // (J may contain X~ or not)
        ts.push((format!("t of presentation {} with X~", t), &gt - &k.vk.X_tilde));
        ts.push((format!("t of presentation {}", t), gt));
        for (j, x) in p.proof_vc.responses.iter().enumerate() {
            responses.push((format!("response {} of presentation {}", j, t), x.clone()));
            if j > 0 {
                scalars.push((format!("blinding {} of presentation {}", j, t), x + &(&ch * &m[hid[j - 1]])));
            }
        }
    }
    for t in 0..2 {
        let (_, sk) = generate(n, &k.params);
        scalars.push((format!("x of key {}", t), sk.x.clone()));
        for (i, y) in sk.y.iter().enumerate() {
            scalars.push((format!("y {} of key {}", i, t), y.clone()));
        }
    }
    distinct("points", &pts)?;
    distinct("points", &others)?;
    // t of X~ and without it
    let units = [k.params.g_tilde.clone()];
    let (with, without): (Vec<_>, Vec<_>) = ts.into_iter().partition(|x| x.0.ends_with("X~"));
    for ts in [with, without].iter() {
        crate::fresh::unrelated("points", ts, &|a, b| a + b, &|a| a.negation(), &units)?;
    }
    distinct("responses", &responses)?;
    crate::fresh::unrelated("numbers", &scalars, &|a, b| a + b, &|a| a.negation(), &[FieldElement::one()])
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "Z04",
            rule: "two or more bases; linked: any case",
            assumptions: vec!["the group operations of amcl_wrapper are right, which the oracle uses one multiplication at a time"],
            subs: vec![
                sub("g1", 260, 8000, 60, vc_g1),
                sub("g2", 160, 4000, 60, vc_g2),
                sub("large-g1", 3, 60, 4, |g| large(g, vc_g1)),
                sub("large-g2", 2, 60, 4, |g| large(g, vc_g2)),
                sub("ps-signature-group", 120, 3000, 60, vc_sig),
                sub("ps-other-group", 160, 4000, 60, vc_other),
                crate::bbsx::vector_sub(),
                sub("linked", 100, 2000, 60, linked),
            ],
        },
        Prop {
            id: "Z05",
            rule: "signatures: at least one hidden message; pok: something is revealed and something hidden",
            assumptions: vec!["the pairing and the groups of amcl_wrapper are right"],
            subs: vec![sub("signatures", 160, 4000, 40, signatures), sub("pok", 200, 5000, 40, pok), sub("large-signatures", 4, 60, 4, |g| large(g, signatures)), sub("large-pok", 3, 60, 4, |g| large(g, pok))],
        },
    ]
}
