//! An independent implementation of the primary-credential prover over num-bigint, with places to
//! cheat. Used honestly it must be accepted by the verifier; every cheating variant must be rejected.
use crate::clw::*;
use num_bigint::{BigInt, BigUint, Sign};
use pbt::*;
use rand_chacha::ChaChaRng;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use ursa::cl::*;

pub struct Key {
    pub n: BigInt,
    pub s: BigInt,
    pub z: BigInt,
    pub rctxt: BigInt,
    pub r: BTreeMap<String, BigInt>,
}
pub fn num(v: &Value) -> BigInt {
    BigInt::parse_bytes(v.as_str().unwrap().as_bytes(), 10).unwrap()
}
pub fn key(pk: &CredentialPublicKey) -> Key {
    let j = js(pk)["p_key"].clone();
    Key { n: num(&j["n"]), s: num(&j["s"]), z: num(&j["z"]), rctxt: num(&j["rctxt"]), r: j["r"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), num(v))).collect() }
}
pub fn inv(a: &BigInt, n: &BigInt) -> BigInt {
    let (mut r0, mut r1) = (n.clone(), ((a % n) + n) % n);
    let (mut t0, mut t1) = (BigInt::from(0), BigInt::from(1));
    while r1.sign() != Sign::NoSign {
        let q = &r0 / &r1;
        let r2 = &r0 - &q * &r1;
        r0 = std::mem::replace(&mut r1, r2);
        let t2 = &t0 - &q * &t1;
        t0 = std::mem::replace(&mut t1, t2);
    }
    ((t0 % n) + n) % n
}
pub fn pw(b: &BigInt, e: &BigInt, n: &BigInt) -> BigInt {
    if e.sign() == Sign::Minus {
        inv(b, n).modpow(&(-e), n)
    } else {
        b.modpow(e, n)
    }
}
pub fn bytes(x: &BigInt) -> Vec<u8> {
    // the library's encoding of zero is empty
    if x.sign() == Sign::NoSign {
        vec![]
    } else {
        x.to_bytes_be().1
    }
}
pub fn rbits(r: &mut ChaChaRng, bits: usize) -> BigInt {
    BigInt::from_biguint(Sign::Plus, rand_big(r, bits))
}
/// floor of the square root
fn isqrt(x: u64) -> u64 {
    let mut r = (x as f64).sqrt() as u64;
    while r * r > x {
        r -= 1;
    }
    while (r + 1) * (r + 1) <= x {
        r += 1;
    }
    r
}
pub fn four(d: u64) -> [u64; 4] {
    let mut a = isqrt(d);
    loop {
        let d1 = d - a * a;
        let mut b = isqrt(d1);
        let lo = if b > 300 { b - 300 } else { 0 };
        loop {
            let d2 = d1 - b * b;
            let mut c = isqrt(d2);
            let lo2 = if c > 300 { c - 300 } else { 0 };
            loop {
                let d3 = d2 - c * c;
                let e = isqrt(d3);
                if e * e == d3 {
                    return [a, b, c, e];
                }
                if c == lo2 {
                    break;
                }
                c -= 1;
            }
            if b == lo {
                break;
            }
            b -= 1;
        }
        a -= 1;
    }
}

/// How one predicate is proven
#[derive(Clone)]
pub struct PPred {
    pub p: Pred,
    /// the value the predicate proof is about (honest: the signed value)
    pub value: BigInt,
    /// put the equality proof's response for the attribute as mj (honest) or the one for `value`
    pub own_mj: bool,
    /// the predicate under which the proof is computed when it differs from the claimed one
    pub as_pred: Option<Pred>,
    /// all commitments zero
    pub zero: bool,
}
impl PPred {
    pub fn honest(p: &Pred, v: &BigInt) -> PPred {
        PPred { p: p.clone(), value: v.clone(), own_mj: false, as_pred: None, zero: false }
    }
}

pub struct PSub {
    pub key: Key,
    pub a: BigInt,
    pub e: BigInt,
    pub v: BigInt,
    pub m2: BigInt,
    pub vals: BTreeMap<String, BigInt>,
    pub revealed: Vec<String>,
    /// values claimed for revealed attributes (honest: the same)
    pub claim: BTreeMap<String, BigInt>,
    pub preds: Vec<PPred>,
    /// entries put into m in addition
    pub extra_m: BTreeMap<String, BigInt>,
    /// replaces entries of m
    pub force_m: BTreeMap<String, BigInt>,
    /// everything of the equality proof zero
    pub zero: bool,
    /// length of the random blinding of e
    pub e_tilde_bits: usize,
    pub no_randomize: bool,
    pub mtilde: BTreeMap<String, BigInt>,
}
impl PSub {
    pub fn of(iss: &Iss, c: &Cred, req: &Req) -> PSub {
        let j = js(&c.sig)["p_credential"].clone();
        let vals: BTreeMap<String, BigInt> = c.vals.iter().map(|(k, v)| (k.clone(), v.1.clone())).collect();
        PSub {
            key: key(&iss.pk),
            a: num(&j["a"]),
            e: num(&j["e"]),
            v: num(&j["v"]),
            m2: num(&j["m_2"]),
            revealed: req.revealed.iter().cloned().collect(),
            claim: req.revealed.iter().map(|a| (a.clone(), vals[a].clone())).collect(),
            preds: req.preds.iter().map(|p| PPred::honest(p, &vals[&p.attr])).collect(),
            vals,
            extra_m: BTreeMap::new(),
            force_m: BTreeMap::new(),
            zero: false,
            e_tilde_bits: 456,
            no_randomize: false,
            mtilde: BTreeMap::new(),
        }
    }
    /// No signature: e is chosen (small or negative), and A is computed to fit the equation.
    pub fn unsigned(iss: &Iss, vals: &BTreeMap<String, BigInt>, req: &Req, e: i64, r: &mut ChaChaRng) -> PSub {
        let key = key(&iss.pk);
        let (v, m2) = (rbits(r, 2724), rbits(r, 256));
        let n = key.n.clone();
        let mut rx = pw(&key.s, &v, &n) * pw(&key.rctxt, &m2, &n) % &n;
        for (k, x) in vals {
            rx = rx * pw(&key.r[k], x, &n) % &n;
        }
        let q = &key.z * inv(&rx, &n) % &n;
        let a = if e == 1 { q } else if e == -1 { inv(&q, &n) } else { pw(&q, &BigInt::from(1), &n) };
        PSub {
            a,
            e: BigInt::from(e),
            v,
            m2,
            revealed: req.revealed.iter().cloned().collect(),
            claim: req.revealed.iter().map(|a| (a.clone(), vals[a].clone())).collect(),
            preds: req.preds.iter().map(|p| PPred::honest(p, &vals[&p.attr])).collect(),
            vals: vals.clone(),
            key,
            extra_m: BTreeMap::new(),
            force_m: BTreeMap::new(),
            zero: false,
            e_tilde_bits: 456,
            no_randomize: true,
            mtilde: BTreeMap::new(),
        }
    }
}

/// What to do with the list of commitments that is hashed
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CList {
    Honest,
    Extra,
    Missing,
    Other,
    Empty,
    Swapped,
}

fn delta_of(p: &Pred, v: &BigInt) -> BigInt {
    let t = BigInt::from(p.val);
    match p.ty {
        0 => v - t,
        1 => t - v,
        2 => v - t - 1,
        _ => t - v - 1,
    }
}

/// None when some predicate cannot be proven even by this prover (negative difference).
pub fn prove(subs: &[PSub], nonce: &BigInt, r: &mut ChaChaRng, cl: CList) -> Option<Value> {
    struct St {
        a: BigInt,
        v: BigInt,
        et: BigInt,
        vt: BigInt,
        m2t: BigInt,
        mt: BTreeMap<String, BigInt>,
        ps: Vec<Pst>,
    }
    struct Pst {
        u: Vec<BigInt>,
        rr: Vec<BigInt>, // r0..r3, rDELTA
        ut: Vec<BigInt>,
        rt: Vec<BigInt>,
        at: BigInt,
        t: Vec<BigInt>,
        mt: BigInt,
    }
    let (mut clist, mut tau): (Vec<Vec<u8>>, Vec<Vec<u8>>) = (vec![], vec![]);
    let mut sts = vec![];
    for s in subs {
        let n = &s.key.n;
        let ra = if s.no_randomize { BigInt::from(0) } else { rbits(r, 2128) };
        let mut a = &s.a * pw(&s.key.s, &ra, n) % n;
        let v = &s.v - &s.e * &ra;
        let (et, vt, m2t) = (rbits(r, s.e_tilde_bits), rbits(r, 3060), rbits(r, 592));
        let mut mt = BTreeMap::new();
        let mut t = pw(&a, &et, n) * pw(&s.key.s, &vt, n) % n * pw(&s.key.rctxt, &m2t, n) % n;
        for k in s.vals.keys() {
            if s.revealed.contains(k) {
                continue;
            }
            let x = s.mtilde.get(k).cloned().unwrap_or_else(|| rbits(r, 592));
            t = t * pw(&s.key.r[k], &x, n) % n;
            mt.insert(k.clone(), x);
        }
        if s.zero {
            a = BigInt::from(0);
            t = BigInt::from(0);
        }
        clist.push(bytes(&a));
        tau.push(bytes(&t));
        let mut ps = vec![];
        for p in &s.preds {
            let pp = p.as_pred.as_ref().unwrap_or(&p.p);
            let less = pp.ty == 1 || pp.ty == 3;
            let d = delta_of(pp, &p.value);
            if d.sign() == Sign::Minus && !p.zero {
                return None;
            }
            let d = if p.zero { BigInt::from(0) } else { d };
            let f = four(d.to_string().parse().ok()?);
            let u: Vec<BigInt> = f.iter().map(|x| BigInt::from(*x)).collect();
            let rr: Vec<BigInt> = (0..5).map(|_| rbits(r, 2128)).collect();
            let mut t: Vec<BigInt> = (0..4).map(|i| pw(&s.key.z, &u[i], n) * pw(&s.key.s, &rr[i], n) % n).collect();
            t.push(pw(&s.key.z, &d, n) * pw(&s.key.s, &rr[4], n) % n);
            if p.zero {
                t = vec![BigInt::from(0); 5];
            }
            let ut: Vec<BigInt> = (0..4).map(|_| rbits(r, 592)).collect();
            let rt: Vec<BigInt> = (0..5).map(|_| rbits(r, 672)).collect();
            let at = rbits(r, 2787);
            let mtj = if p.own_mj { rbits(r, 592) } else { mt.get(&p.p.attr).cloned().unwrap_or_else(|| rbits(r, 592)) };
            let mut tt: Vec<BigInt> = (0..4).map(|i| pw(&s.key.z, &ut[i], n) * pw(&s.key.s, &rt[i], n) % n).collect();
            let sg = if less { -&rt[4] } else { rt[4].clone() };
            tt.push(pw(&s.key.z, &mtj, n) * pw(&s.key.s, &sg, n) % n);
            let mut q = pw(&s.key.s, &at, n);
            for i in 0..4 {
                q = q * pw(&t[i], &ut[i], n) % n;
            }
            tt.push(q);
            if p.zero {
                tt = vec![BigInt::from(0); 6];
            }
            clist.extend(t.iter().map(bytes));
            tau.extend(tt.iter().map(bytes));
            ps.push(Pst { u, rr, ut, rt, at, t, mt: mtj });
        }
        sts.push(St { a, v, et, vt, m2t, mt, ps });
    }
    match cl {
        CList::Honest => {}
        CList::Extra => clist.push(vec![7]),
        CList::Missing => {
            clist.pop();
        }
        CList::Other => {
            let l = clist.len();
            let x = &mut clist[l - 1];
            if x.is_empty() {
                x.push(1)
            } else {
                x[0] ^= 1
            }
        }
        CList::Empty => clist.clear(),
        CList::Swapped => {
            if clist.len() < 2 || clist[0] == clist[1] {
                return None;
            }
            clist.swap(0, 1)
        }
    }
    let mut all = tau;
    all.extend(clist.iter().cloned());
    all.push(bytes(nonce));
    let c = BigInt::from_biguint(Sign::Plus, sha_int(&all));
    let mut proofs = vec![];
    for (s, st) in subs.iter().zip(&sts) {
        let e2 = &s.e - (BigInt::from(1) << 596usize);
        let mut m = Map::new();
        let mut mh = BTreeMap::new();
        for (k, t) in &st.mt {
            mh.insert(k.clone(), t + &c * &s.vals[k]);
        }
        for (k, x) in s.force_m.iter().chain(s.extra_m.iter()) {
            mh.insert(k.clone(), x.clone());
        }
        let mut nes = vec![];
        for (p, q) in s.preds.iter().zip(&st.ps) {
            let o = |x: Vec<BigInt>| -> Value {
                let mut m = Map::new();
                for (i, v) in x.iter().enumerate() {
                    m.insert(if i == 4 { "DELTA".to_string() } else { i.to_string() }, json!(v.to_string()));
                }
                Value::Object(m)
            };
            let alpha = &q.rr[4] - (0..4).map(|i| &q.u[i] * &q.rr[i]).fold(BigInt::from(0), |a, b| a + b);
            let mj = &q.mt + &c * &p.value;
            if !mh.contains_key(&p.p.attr) {
                // a revealed attribute has no response; claim one all the same
                mh.insert(p.p.attr.clone(), mj.clone());
            }
            nes.push(json!({
                "u": o((0..4).map(|i| &q.ut[i] + &c * &q.u[i]).collect()),
                "r": o((0..5).map(|i| &q.rt[i] + &c * &q.rr[i]).collect()),
                "mj": mj.to_string(),
                "alpha": (&q.at + &c * alpha).to_string(),
                "t": o(q.t.clone()),
                "predicate": {"attr_name": p.p.attr, "p_type": PT[p.p.ty], "value": p.p.val},
            }));
        }
        for (k, v) in mh {
            m.insert(k, json!(v.to_string()));
        }
        let rev: Map<String, Value> = s.claim.iter().map(|(k, v)| (k.clone(), json!(v.to_string()))).collect();
        proofs.push(json!({
            "primary_proof": {
                "eq_proof": {"revealed_attrs": rev, "a_prime": st.a.to_string(), "e": (&st.et + &c * &e2).to_string(), "v": (&st.vt + &c * &st.v).to_string(), "m": m, "m2": (&st.m2t + &c * &s.m2).to_string()},
                "ge_proofs": nes,
            },
            "non_revoc_proof": null,
        }));
    }
    let cb: Vec<Value> = clist.iter().map(|b| json!(b)).collect();
    Some(json!({"proofs": proofs, "aggregated_proof": {"c_hash": c.to_string(), "c_list": cb}}))
}

// ------------------------------------------------------------------ JSON mutation

pub fn leaves(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                path.push(k.clone());
                leaves(x, path, out);
                path.pop();
            }
        }
        // byte strings count as one leaf
        Value::Array(a) if !a.is_empty() && a.iter().all(|x| x.is_number()) => out.push(path.clone()),
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                leaves(x, path, out);
                path.pop();
            }
        }
        _ => out.push(path.clone()),
    }
}
pub fn all_leaves(v: &Value) -> Vec<Vec<String>> {
    let mut o = vec![];
    leaves(v, &mut vec![], &mut o);
    o
}
pub fn at<'a>(v: &'a mut Value, path: &[String]) -> &'a mut Value {
    let mut x = v;
    for p in path {
        x = if x.is_array() { &mut x[p.parse::<usize>().unwrap()] } else { &mut x[p.as_str()] };
    }
    x
}
pub fn is_num(v: &Value) -> bool {
    v.as_str().map_or(false, |s| !s.is_empty() && s.trim_start_matches('-').bytes().all(|b| b.is_ascii_digit()))
}

/// Changes one place of a JSON message; `fresh` makes another value for encoded curve elements (by
/// length class). Returns a description, or None when nothing changed.
pub fn mutate(g: &mut G, v: &mut Value) -> Option<String> {
    let ls = all_leaves(v);
    let i = g.below(ls.len());
    let path = ls[i].clone();
    let name = path.join(".");
    let old = at(v, &path).clone();
    let new = if is_num(&old) {
        let x = num(&old);
        match g.draw(7) {
            0 => json!((x.clone() + BigInt::from(1)).to_string()),
            1 => json!((x.clone() - BigInt::from(1)).to_string()),
            2 => json!("0"),
            3 => json!("1"),
            4 => json!((-x.clone()).to_string()),
            5 => {
                let bits = x.bits().max(2) as usize;
                let k = g.below(bits);
                json!((BigInt::from_biguint(x.sign(), x.magnitude() ^ &(BigUint::from(1u8) << k))).to_string())
            }
            6 => {
                let n = g.range(1, 32);
                json!(BigInt::from_bytes_be(Sign::Plus, &g.bytes_n(n)).to_string())
            }
            _ => {
                let nums: Vec<&Vec<String>> = ls.iter().filter(|p| is_num(at(&mut v.clone(), p))).collect();
                let p = (*g.pick(&nums)).clone();
                at(v, &p).clone()
            }
        }
    } else if old.is_array() {
        let mut b: Vec<u64> = old.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        match g.draw(3) {
            0 => {
                let k = g.below(b.len());
                b[k] ^= 1 << g.draw(7);
            }
            1 => {
                b.pop();
            }
            2 => b.push(g.draw(255)),
            _ => b.insert(0, 0),
        }
        json!(b)
    } else if old.is_string() {
        // another element of the same kind from the same message
        let l = old.as_str().unwrap().len();
        let same: Vec<Value> = ls.iter().map(|p| at(v, p).clone()).filter(|x| x.is_string() && !is_num(x) && *x != old && kind_of(x.as_str().unwrap()) == kind_of(old.as_str().unwrap())).collect();
        let _ = l;
        if same.is_empty() {
            return None;
        }
        g.pick(&same).clone()
    } else if old.is_number() {
        json!(old.as_i64().unwrap() + 1)
    } else {
        return None;
    };
    if new == old {
        return None;
    }
    *at(v, &path) = new;
    Some(format!("{}: {} -> {}", name, short(&old), short(at(v, &path))))
}
/// number of blank-separated words: tells points of the two groups and scalars apart
fn kind_of(s: &str) -> usize {
    s.split_whitespace().count()
}
pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 40 {
        format!("{}..", s.chars().take(40).collect::<String>())
    } else {
        s
    }
}
/// Structural change: remove, duplicate or swap array elements, or remove a key.
pub fn restructure(g: &mut G, v: &mut Value) -> Option<String> {
    fn nodes(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
        match v {
            Value::Object(m) => {
                if !m.is_empty() {
                    out.push(path.clone());
                }
                for (k, x) in m {
                    path.push(k.clone());
                    nodes(x, path, out);
                    path.pop();
                }
            }
            Value::Array(a) if !a.is_empty() && !a.iter().all(|x| x.is_number()) => {
                out.push(path.clone());
                for (i, x) in a.iter().enumerate() {
                    path.push(i.to_string());
                    nodes(x, path, out);
                    path.pop();
                }
            }
            _ => {}
        }
    }
    let mut ns = vec![];
    nodes(v, &mut vec![], &mut ns);
    if ns.is_empty() {
        return None;
    }
    let path = g.pick(&ns).clone();
    let what = g.draw(2);
    let k = g.draw(1000) as usize;
    let k2 = g.draw(1000) as usize;
    let x = at(v, &path);
    if let Some(a) = x.as_array_mut() {
        let l = a.len();
        match what {
            0 => {
                a.remove(k % l);
                Some(format!("{}: element {} removed", path.join("."), k % l))
            }
            1 => {
                let y = a[k % l].clone();
                a.insert(k2 % (l + 1), y);
                Some(format!("{}: element {} repeated", path.join("."), k % l))
            }
            _ => {
                if a[k % l] == a[k2 % l] {
                    return None;
                }
                a.swap(k % l, k2 % l);
                Some(format!("{}: elements {} {} swapped", path.join("."), k % l, k2 % l))
            }
        }
    } else {
        let m = x.as_object_mut().unwrap();
        let keys: Vec<String> = m.keys().cloned().collect();
        let key = &keys[k % keys.len()];
        match what {
            0 => {
                let o = m.remove(key).unwrap();
                if o.is_null() {
                    return None;
                }
                Some(format!("{}: key {} removed", path.join("."), key))
            }
            1 => {
                let key2 = &keys[k2 % keys.len()];
                if m[key] == m[key2] {
                    return None;
                }
                let (a, b) = (m[key].clone(), m[key2].clone());
                m.insert(key.clone(), b);
                m.insert(key2.clone(), a);
                Some(format!("{}: {} and {} exchanged", path.join("."), key, key2))
            }
            _ => {
                let o = m.remove(key).unwrap();
                if o.is_null() {
                    return None;
                }
                m.insert(format!("{}x", key), o);
                Some(format!("{}: key {} renamed", path.join("."), key))
            }
        }
    }
}
