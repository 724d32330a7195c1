//! F01, the CL part of the C interface: whole protocol runs in which every step is made through the C
//! interface or through the Rust API, with the objects passed as JSON.
use crate::clw::*;
use crate::f1::{error_details, refused, Code, Out, P, POISON, SENT};
use num_bigint::BigInt;
use pbt::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, HashSet};
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_void};
use std::ptr;
use std::sync::atomic::Ordering;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::*;

type S = *const c_char;
type So = *mut *const c_char;
type Take = extern "C" fn(P, u32, Out) -> Code;
type Put = extern "C" fn(P, P) -> Code;
type ToJ = unsafe extern "C" fn(P, So) -> Code;
type FromJ = unsafe extern "C" fn(S, Out) -> Code;
type Free = unsafe extern "C" fn(P) -> Code;

macro_rules! kinds {
    ($($k:ident, $t:ty, $to:ident, $fr:ident, $free:ident;)*) => {
        extern "C" { $(fn $to(p: P, o: So) -> Code; fn $fr(s: S, o: Out) -> Code; fn $free(p: P) -> Code;)* }
        #[derive(Clone, Copy, PartialEq, Debug)]
        pub enum J { $($k),* }
        const JS: &[J] = &[$(J::$k),*];
        impl J {
            fn fns(self) -> (ToJ, FromJ, Free) { match self { $(J::$k => ($to, $fr, $free)),* } }
            /// what the Rust API reads from a document, written again
            fn rust(self, s: &str) -> Option<Value> { match self { $(J::$k => serde_json::from_str::<$t>(s).ok().map(|x| sets(js(&x)))),* } }
        }
    };
}
kinds! {
    Pk, CredentialPublicKey, ursa_cl_credential_public_key_to_json, ursa_cl_credential_public_key_from_json, ursa_cl_credential_public_key_free;
    Sk, CredentialPrivateKey, ursa_cl_credential_private_key_to_json, ursa_cl_credential_private_key_from_json, ursa_cl_credential_private_key_free;
    Kcp, CredentialKeyCorrectnessProof, ursa_cl_credential_key_correctness_proof_to_json, ursa_cl_credential_key_correctness_proof_from_json, ursa_cl_credential_key_correctness_proof_free;
    RevPub, RevocationKeyPublic, ursa_cl_revocation_key_public_to_json, ursa_cl_revocation_key_public_from_json, ursa_cl_revocation_key_public_free;
    RevPriv, RevocationKeyPrivate, ursa_cl_revocation_key_private_to_json, ursa_cl_revocation_key_private_from_json, ursa_cl_revocation_key_private_free;
    Reg, RevocationRegistry, ursa_cl_revocation_registry_to_json, ursa_cl_revocation_registry_from_json, ursa_cl_revocation_registry_free;
    TailsGen, RevocationTailsGenerator, ursa_cl_revocation_tails_generator_to_json, ursa_cl_revocation_tails_generator_from_json, ursa_cl_revocation_tails_generator_free;
    Sig, CredentialSignature, ursa_cl_credential_signature_to_json, ursa_cl_credential_signature_from_json, ursa_cl_credential_signature_free;
    Scp, SignatureCorrectnessProof, ursa_cl_signature_correctness_proof_to_json, ursa_cl_signature_correctness_proof_from_json, ursa_cl_signature_correctness_proof_free;
    Delta, RevocationRegistryDelta, ursa_cl_revocation_registry_delta_to_json, ursa_cl_revocation_registry_delta_from_json, ursa_cl_revocation_registry_delta_free;
    Nonce_, Nonce, ursa_cl_nonce_to_json, ursa_cl_nonce_from_json, ursa_cl_nonce_free;
    Master, MasterSecret, ursa_cl_master_secret_to_json, ursa_cl_master_secret_from_json, ursa_cl_master_secret_free;
    Blinded_, BlindedCredentialSecrets, ursa_cl_blinded_credential_secrets_to_json, ursa_cl_blinded_credential_secrets_from_json, ursa_cl_blinded_credential_secrets_free;
    Factors, CredentialSecretsBlindingFactors, ursa_cl_credential_secrets_blinding_factors_to_json, ursa_cl_credential_secrets_blinding_factors_from_json, ursa_cl_credential_secrets_blinding_factors_free;
    BlindProof, BlindedCredentialSecretsCorrectnessProof, ursa_cl_blinded_credential_secrets_correctness_proof_to_json, ursa_cl_blinded_credential_secrets_correctness_proof_from_json, ursa_cl_blinded_credential_secrets_correctness_proof_free;
    Proof_, Proof, ursa_cl_proof_to_json, ursa_cl_proof_from_json, ursa_cl_proof_free;
}
extern "C" {
    fn ursa_string_free(s: *mut c_char);
    fn ursa_cl_tails_generator_next(g: P, o: Out) -> Code;
    fn ursa_cl_tails_generator_count(g: P, o: *mut u32) -> Code;
    fn ursa_cl_tail_free(t: P) -> Code;
    fn ursa_cl_witness_new(i: u32, max: u32, by_default: bool, d: P, ctx: P, take: Take, put: Put, o: Out) -> Code;
    fn ursa_cl_witness_update(i: u32, max: u32, d: P, w: P, ctx: P, take: Take, put: Put) -> Code;
    fn ursa_cl_witness_free(w: P) -> Code;
    fn ursa_cl_credential_schema_builder_new(o: Out) -> Code;
    fn ursa_cl_credential_schema_builder_add_attr(b: P, a: S) -> Code;
    fn ursa_cl_credential_schema_builder_finalize(b: P, o: Out) -> Code;
    fn ursa_cl_credential_schema_free(p: P) -> Code;
    fn ursa_cl_non_credential_schema_builder_new(o: Out) -> Code;
    fn ursa_cl_non_credential_schema_builder_add_attr(b: P, a: S) -> Code;
    fn ursa_cl_non_credential_schema_builder_finalize(b: P, o: Out) -> Code;
    fn ursa_cl_non_credential_schema_free(p: P) -> Code;
    fn ursa_cl_credential_values_builder_new(o: Out) -> Code;
    fn ursa_cl_credential_values_builder_add_dec_known(b: P, a: S, v: S) -> Code;
    fn ursa_cl_credential_values_builder_add_dec_hidden(b: P, a: S, v: S) -> Code;
    fn ursa_cl_credential_values_builder_add_dec_commitment(b: P, a: S, v: S, f: S) -> Code;
    fn ursa_cl_credential_values_builder_finalize(b: P, o: Out) -> Code;
    fn ursa_cl_credential_values_free(p: P) -> Code;
    fn ursa_cl_sub_proof_request_builder_new(o: Out) -> Code;
    fn ursa_cl_sub_proof_request_builder_add_revealed_attr(b: P, a: S) -> Code;
    fn ursa_cl_sub_proof_request_builder_add_predicate(b: P, a: S, t: S, v: i32) -> Code;
    fn ursa_cl_sub_proof_request_builder_finalize(b: P, o: Out) -> Code;
    fn ursa_cl_sub_proof_request_free(p: P) -> Code;
    fn ursa_cl_new_nonce(o: Out) -> Code;
    fn ursa_cl_issuer_new_credential_def(s: P, n: P, rev: bool, a: Out, b: Out, c: Out) -> Code;
    fn ursa_cl_issuer_new_revocation_registry_def(pk: P, max: u32, by_default: bool, a: Out, b: Out, c: Out, d: Out) -> Code;
    fn ursa_cl_issuer_sign_credential(id: S, bs: P, bp: P, n: P, inn: P, v: P, pk: P, sk: P, a: Out, b: Out) -> Code;
    fn ursa_cl_issuer_sign_credential_with_revoc(id: S, bs: P, bp: P, n: P, inn: P, v: P, pk: P, sk: P, idx: u32, max: u32, by_default: bool, reg: P, kp: P, ctx: P, take: Take, put: Put, a: Out, b: Out, c: Out) -> Code;
    fn ursa_revocation_registry_delta_from_parts(from: P, to: P, i: *const u32, il: usize, r: *const u32, rl: usize, o: Out) -> Code;
    fn ursa_cl_issuer_revoke_credential(reg: P, max: u32, idx: u32, ctx: P, take: Take, put: Put, o: Out) -> Code;
    fn ursa_cl_issuer_recovery_credential(reg: P, max: u32, idx: u32, ctx: P, take: Take, put: Put, o: Out) -> Code;
    fn ursa_cl_issuer_merge_revocation_registry_deltas(a: P, b: P, o: Out) -> Code;
    fn ursa_cl_prover_new_master_secret(o: Out) -> Code;
    fn ursa_cl_prover_blind_credential_secrets(pk: P, kcp: P, v: P, n: P, a: Out, b: Out, c: Out) -> Code;
    fn ursa_cl_prover_process_credential_signature(s: P, v: P, scp: P, bf: P, pk: P, n: P, rk: P, reg: P, w: P) -> Code;
    fn ursa_cl_prover_get_credential_revocation_index(s: P, o: *mut u32) -> Code;
    fn ursa_cl_prover_new_proof_builder(o: Out) -> Code;
    fn ursa_cl_proof_builder_add_common_attribute(b: P, a: S) -> Code;
    fn ursa_cl_proof_builder_add_sub_proof_request(b: P, r: P, s: P, n: P, sig: P, v: P, pk: P, reg: P, w: P) -> Code;
    fn ursa_cl_proof_builder_finalize(b: P, n: P, o: Out) -> Code;
    fn ursa_cl_verifier_new_proof_verifier(o: Out) -> Code;
    fn ursa_cl_proof_verifier_add_common_attribute(b: P, a: S) -> Code;
    fn ursa_cl_proof_verifier_add_sub_proof_request(b: P, r: P, s: P, n: P, pk: P, rk: P, reg: P) -> Code;
    fn ursa_cl_proof_verifier_verify(b: P, p: P, n: P, o: *mut bool) -> Code;
}
const NULL: P = ptr::null();
fn no_out() -> Out {
    ptr::null_mut()
}
fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}
/// an object that is freed once, when it goes out of scope
pub struct H {
    p: P,
    free: Free,
}
impl Drop for H {
    fn drop(&mut self) {
        unsafe { (self.free)(self.p) };
    }
}
fn got(what: &str, code: Code, p: P, free: Free) -> Result<H, Fail> {
    if code != 0 {
        error_details(what)?;
        return fail("refuses", format!("{} failed with {}", what, code));
    }
    ensure!(p != SENT && !p.is_null(), "no-object", "{} succeeded without an object", what);
    Ok(H { p, free })
}
fn okc(what: &str, code: Code) -> R {
    ensure!(code == 0, "refuses", "{} failed with {}", what, code);
    Ok(())
}
fn make(what: &str, free: Free, f: impl FnOnce(Out) -> Code) -> Result<H, Fail> {
    let mut o = SENT;
    let c = f(&mut o);
    got(what, c, o, free)
}
/// the Rust object on the C side
fn inn<T: Serialize>(j: J, x: &T) -> Result<H, Fail> {
    let s = cs(&serde_json::to_string(x).unwrap());
    make(&format!("{:?} from JSON", j), j.fns().2, |o| unsafe { j.fns().1(s.as_ptr(), o) })
}
fn text(j: J, p: P) -> Result<String, Fail> {
    let mut s: S = SENT as S;
    let c = unsafe { j.fns().0(p, &mut s) };
    ensure!(c == 0 && s != SENT as S && !s.is_null(), "to-json", "{:?} to JSON returned {}", j, c);
    let t = unsafe { CStr::from_ptr(s) }.to_str().map(|x| x.to_string());
    unsafe { ursa_string_free(s as *mut c_char) };
    t.map_err(|_| Fail { sig: "to-json".into(), msg: format!("{:?}: not UTF-8", j) })
}
fn val(j: J, h: &H) -> Result<Value, Fail> {
    Ok(sets(serde_json::from_str(&text(j, h.p)?).map_err(|e| Fail { sig: "to-json".into(), msg: format!("{:?}: {}", j, e) })?))
}
/// the C object on the Rust side
fn out<T: DeserializeOwned>(j: J, h: &H) -> Result<T, Fail> {
    let t = text(j, h.p)?;
    serde_json::from_str(&t).map_err(|e| Fail { sig: "to-json".into(), msg: format!("the library does not read the JSON of a {:?}: {}: {}", j, e, t) })
}

// ------------------------------------------------------------ tails
pub struct Tails {
    ts: Vec<P>,
    /// fail at the take (or the put) with this number
    fail_take: Cell<i64>,
    fail_put: Cell<i64>,
    null_tail: Cell<bool>,
    out: RefCell<Vec<P>>,
    takes: Cell<u64>,
    bad: Cell<bool>,
    hit: Cell<bool>,
}
const NEVER: i64 = -1;
impl Drop for Tails {
    fn drop(&mut self) {
        for t in &self.ts {
            unsafe { ursa_cl_tail_free(*t) };
        }
    }
}
extern "C" fn take(ctx: P, i: u32, o: Out) -> Code {
    let t = unsafe { &*(ctx as *const Tails) };
    t.takes.set(t.takes.get() + 1);
    let n = t.fail_take.get();
    t.fail_take.set(n - 1);
    if n == 0 {
        t.hit.set(true);
        if t.null_tail.get() {
            unsafe { *o = ptr::null() };
            return 0;
        }
        return 114;
    }
    match t.ts.get(i as usize) {
        Some(p) => {
            t.out.borrow_mut().push(*p);
            unsafe { *o = *p };
            0
        }
        None => 100,
    }
}
extern "C" fn put(ctx: P, p: P) -> Code {
    let t = unsafe { &*(ctx as *const Tails) };
    let mut out = t.out.borrow_mut();
    match out.iter().position(|x| *x == p) {
        Some(i) => {
            out.remove(i);
        }
        None => t.bad.set(true),
    }
    let n = t.fail_put.get();
    t.fail_put.set(n - 1);
    if n == 0 {
        t.hit.set(true);
        114
    } else {
        0
    }
}
impl Tails {
    fn ctx(&self) -> P {
        self as *const Tails as *const c_void
    }
    /// every tail was given back; tells whether the armed fault happened
    fn settled(&self, what: &str) -> Result<bool, Fail> {
        ensure!(!self.bad.get(), "tail-put", "{} gave back a tail it had not taken", what);
        ensure!(self.out.borrow().is_empty(), "tail-kept", "{} did not give back {} tails", what, self.out.borrow().len());
        self.fail_take.set(NEVER);
        self.fail_put.set(NEVER);
        Ok(self.hit.replace(false))
    }
    /// the take or the put after n good ones fails
    fn arm(&self, g: &mut G, n: i64) {
        if g.bool() {
            self.fail_take.set(n);
            self.null_tail.set(g.bool());
        } else {
            self.fail_put.set(n);
        }
    }
}

// ------------------------------------------------------------ builders
fn c_schema(attrs: &[String], non: bool) -> Result<H, Fail> {
    unsafe {
        let (new, add, fin, free): (unsafe extern "C" fn(Out) -> Code, unsafe extern "C" fn(P, S) -> Code, unsafe extern "C" fn(P, Out) -> Code, Free) = if non {
            (ursa_cl_non_credential_schema_builder_new, ursa_cl_non_credential_schema_builder_add_attr, ursa_cl_non_credential_schema_builder_finalize, ursa_cl_non_credential_schema_free)
        } else {
            (ursa_cl_credential_schema_builder_new, ursa_cl_credential_schema_builder_add_attr, ursa_cl_credential_schema_builder_finalize, ursa_cl_credential_schema_free)
        };
        let mut b = SENT;
        okc("schema builder", new(&mut b))?;
        refused("a schema attribute without a name", add(b, ptr::null()), &[])?;
        refused("a schema attribute without a builder", add(NULL, cs("x").as_ptr()), &[])?;
        refused("a schema attribute that is not UTF-8", add(b, b"\xff\xfe\0".as_ptr() as S), &[])?;
        for a in attrs {
            okc("schema attribute", add(b, cs(a).as_ptr()))?;
        }
        refused("a schema without an output", fin(b, no_out()), &[])?;
        make("schema", free, |o| fin(b, o))
    }
}
fn c_values(g: &mut G, vals: &Vals) -> Result<H, Fail> {
    unsafe {
        let mut b = SENT;
        okc("values builder", ursa_cl_credential_values_builder_new(&mut b))?;
        let bad = ["", "x", "12x", "0x10", "1.5", "--1", "\u{661}"];
        for (k, (kind, v, f)) in vals {
            let (k, v, f) = (cs(k), cs(&v.to_string()), cs(&f.to_string()));
            if g.chance(1, 4) {
                // refused values leave the builder as it was
                let w = cs(g.pick(&bad));
                let c = match g.draw(4) {
                    0 => ursa_cl_credential_values_builder_add_dec_known(b, k.as_ptr(), w.as_ptr()),
                    1 => ursa_cl_credential_values_builder_add_dec_hidden(b, k.as_ptr(), w.as_ptr()),
                    2 => ursa_cl_credential_values_builder_add_dec_commitment(b, k.as_ptr(), v.as_ptr(), w.as_ptr()),
                    3 => ursa_cl_credential_values_builder_add_dec_known(b, ptr::null(), v.as_ptr()),
                    _ => ursa_cl_credential_values_builder_add_dec_commitment(b, k.as_ptr(), w.as_ptr(), f.as_ptr()),
                };
                // OpenSSL reads a number up to the first character that does not belong to it
                let lenient = ["12x", "0x10", "1.5"].contains(&w.to_str().unwrap());
                if c != 0 || !lenient {
                    refused(&format!("an attribute value {:?}", w), c, &[])?;
                }
            }
            okc("attribute value", match kind {
                Kind::Known => ursa_cl_credential_values_builder_add_dec_known(b, k.as_ptr(), v.as_ptr()),
                Kind::Hidden => ursa_cl_credential_values_builder_add_dec_hidden(b, k.as_ptr(), v.as_ptr()),
                Kind::Committed => ursa_cl_credential_values_builder_add_dec_commitment(b, k.as_ptr(), v.as_ptr(), f.as_ptr()),
            })?;
        }
        refused("values without an output", ursa_cl_credential_values_builder_finalize(b, no_out()), &[])?;
        make("values", ursa_cl_credential_values_free, |o| ursa_cl_credential_values_builder_finalize(b, o))
    }
}
fn c_request(g: &mut G, q: &Req) -> Result<H, Fail> {
    unsafe {
        let mut b = SENT;
        okc("request builder", ursa_cl_sub_proof_request_builder_new(&mut b))?;
        for a in &q.revealed {
            okc("revealed attribute", ursa_cl_sub_proof_request_builder_add_revealed_attr(b, cs(a).as_ptr()))?;
        }
        if g.chance(1, 3) {
            refused("an unknown predicate type", ursa_cl_sub_proof_request_builder_add_predicate(b, cs("age").as_ptr(), cs("EQ").as_ptr(), 3), &[])?;
            refused("a predicate without a type", ursa_cl_sub_proof_request_builder_add_predicate(b, cs("age").as_ptr(), ptr::null(), 3), &[])?;
            refused("a revealed attribute without a name", ursa_cl_sub_proof_request_builder_add_revealed_attr(b, ptr::null()), &[])?;
        }
        for p in &q.preds {
            okc("predicate", ursa_cl_sub_proof_request_builder_add_predicate(b, cs(&p.attr).as_ptr(), cs(PT[p.ty]).as_ptr(), p.val))?;
        }
        make("request", ursa_cl_sub_proof_request_free, |o| ursa_cl_sub_proof_request_builder_finalize(b, o))
    }
}

/// The issuer and what it published, on the C side
struct CIss {
    pk: H,
    sk: H,
    kcp: H,
    schema: H,
    nschema: H,
}
fn c_issuer(iss: &Iss) -> Result<CIss, Fail> {
    Ok(CIss { pk: inn(J::Pk, &iss.pk)?, sk: inn(J::Sk, &iss.sk)?, kcp: inn(J::Kcp, &iss.kcp)?, schema: c_schema(&iss.attrs, false)?, nschema: c_schema(&iss.non, true)? })
}
struct CReg {
    kpub: H,
    kpriv: H,
    reg: H,
    tails: Box<Tails>,
}
/// A registry made on one side and known on both
fn registry(g: &mut G, iss: &Iss, c: &CIss, max: u32, by_default: bool) -> Result<(Reg, CReg), Fail> {
    unsafe {
        let (kpub, kpriv, reg, gen);
        if g.bool() {
            let (mut a, mut b, mut r, mut t) = (SENT, SENT, SENT, SENT);
            let k = if g.chance(1, 4) { g.below(5) } else { 9 };
            if k < 5 {
                let nul = |i: usize, p: Out| if i == k { no_out() } else { p };
                let c = ursa_cl_issuer_new_revocation_registry_def(if k == 0 { NULL } else { c.pk.p }, max, by_default, nul(1, &mut a), nul(2, &mut b), nul(3, &mut r), nul(4, &mut t));
                refused(&format!("a registry with parameter {} null", k), c, &[a, b, r, t])?;
            }
            let code = ursa_cl_issuer_new_revocation_registry_def(c.pk.p, max, by_default, &mut a, &mut b, &mut r, &mut t);
            kpub = got("registry key", code, a, J::RevPub.fns().2)?;
            kpriv = got("registry private key", code, b, J::RevPriv.fns().2)?;
            reg = got("registry", code, r, J::Reg.fns().2)?;
            gen = got("tails generator", code, t, J::TailsGen.fns().2)?;
        } else {
            let (a, b, r, t) = e("rust", "new_revocation_registry_def", Issuer::new_revocation_registry_def(&iss.pk, max, by_default))?;
            kpub = inn(J::RevPub, &a)?;
            kpriv = inn(J::RevPriv, &b)?;
            reg = inn(J::Reg, &r)?;
            gen = inn(J::TailsGen, &t)?;
        }
        let mut rgen: RevocationTailsGenerator = out(J::TailsGen, &gen)?;
        let want = rgen.count();
        let tails = e("rust", "SimpleTailsAccessor", SimpleTailsAccessor::new(&mut rgen))?;
        let mut ts = Box::new(Tails { ts: vec![], fail_take: Cell::new(NEVER), fail_put: Cell::new(NEVER), null_tail: Cell::new(false), out: Default::default(), takes: Cell::new(0), bad: Cell::new(false), hit: Cell::new(false) });
        loop {
            let mut n = 12345u32;
            okc("tails generator count", ursa_cl_tails_generator_count(gen.p, &mut n))?;
            ensure!(n == want - ts.ts.len() as u32 || ts.ts.len() as u32 > want, "count", "{} tails are left after {} of {}", n, ts.ts.len(), want);
            let mut t = SENT;
            okc("tails generator", ursa_cl_tails_generator_next(gen.p, &mut t))?;
            ensure!(t != SENT, "no-output", "ursa_cl_tails_generator_next wrote nothing");
            if t.is_null() {
                break;
            }
            ts.ts.push(t);
            ensure!(ts.ts.len() as u32 <= want, "count", "more than {} tails", want);
        }
        ensure!(ts.ts.len() as u32 == want, "count", "{} tails instead of {}", ts.ts.len(), want);
        let (key_pub, key_priv, rreg): (RevocationKeyPublic, RevocationKeyPrivate, RevocationRegistry) = (out(J::RevPub, &kpub)?, out(J::RevPriv, &kpriv)?, out(J::Reg, &reg)?);
        let r = Reg { max, by_default, key_pub, key_priv, first: rreg.clone(), reg: rreg, tails, valid: if by_default { (1..=max).collect() } else { BTreeSet::new() }, deltas: vec![] };
        Ok((r, CReg { kpub, kpriv, reg, tails: ts }))
    }
}
fn same_registry(r: &Reg, c: &CReg, what: &str) -> R {
    let (a, b) = (js(&r.reg), val(J::Reg, &c.reg)?);
    ensure!(a == b, "registry-differs", "after {} the registries differ: {} and {}", what, a, b);
    Ok(())
}

struct Held {
    idx: Option<u32>,
    vals: Vals,
    cv: CredentialValues,
    ccv: H,
    sig: CredentialSignature,
    csig: H,
}
fn known_of(vals: &Vals) -> Vals {
    vals.iter().filter(|(_, v)| v.0 == Kind::Known).map(|(k, v)| (k.clone(), v.clone())).collect()
}
/// One issuance; each party works with the C interface or the Rust API.
fn c_issue(g: &mut G, iss: &Iss, c: &CIss, vals: Vals, mut rev: Option<(&mut Reg, &CReg, u32)>) -> Result<Held, Fail> {
    let cv = mk_values(g, &vals);
    let ccv = c_values(g, &vals)?;
    let kv = mk_values(g, &known_of(&vals));
    let ckv = c_values(g, &known_of(&vals))?;
    let (cn, ci) = unsafe { (make("nonce", J::Nonce_.fns().2, |o| ursa_cl_new_nonce(o))?, make("nonce", J::Nonce_.fns().2, |o| ursa_cl_new_nonce(o))?) };
    let (nonce, inonce): (Nonce, Nonce) = (out(J::Nonce_, &cn)?, out(J::Nonce_, &ci)?);
    ensure!(nonce != inonce, "repeats", "a nonce came twice");
    // holder
    let (bs, bf, bp): (BlindedCredentialSecrets, CredentialSecretsBlindingFactors, BlindedCredentialSecretsCorrectnessProof);
    let (cbs, cbf, cbp);
    if g.bool() {
        let x = e("rust", "blind", Prover::blind_credential_secrets(&iss.pk, &iss.kcp, &cv, &nonce))?;
        bs = x.0;
        bf = x.1;
        bp = x.2;
        cbs = inn(J::Blinded_, &bs)?;
        cbf = inn(J::Factors, &bf)?;
        cbp = inn(J::BlindProof, &bp)?;
    } else {
        let (mut a, mut b, mut d) = (SENT, SENT, SENT);
        unsafe {
            if g.chance(1, 4) {
                let k = g.below(7);
                let nul = |i: usize, p: P| if i == k { NULL } else { p };
                let nulo = |i: usize, p: Out| if i == k { no_out() } else { p };
                let code = ursa_cl_prover_blind_credential_secrets(nul(0, c.pk.p), nul(1, c.kcp.p), nul(2, ccv.p), nul(3, cn.p), nulo(4, &mut a), nulo(5, &mut b), nulo(6, &mut d));
                refused(&format!("blinding with parameter {} null", k + 1), code, &[a, b, d])?;
            }
            let code = ursa_cl_prover_blind_credential_secrets(c.pk.p, c.kcp.p, ccv.p, cn.p, &mut a, &mut b, &mut d);
            cbs = got("blinded secrets", code, a, J::Blinded_.fns().2)?;
            cbf = got("blinding factors", code, b, J::Factors.fns().2)?;
            cbp = got("proof of blinded secrets", code, d, J::BlindProof.fns().2)?;
        }
        bs = out(J::Blinded_, &cbs)?;
        bf = out(J::Factors, &cbf)?;
        bp = out(J::BlindProof, &cbp)?;
    }
    // issuer: the accumulator update is deterministic, so both sides can make it
    let id = cs(PROVER);
    let by_c = g.bool();
    let (mut sig, scp): (CredentialSignature, SignatureCorrectnessProof);
    let csig;
    let cscp;
    unsafe {
        let (mut a, mut b, mut d) = (SENT, SENT, SENT);
        match rev {
            None => {
                if g.chance(1, 4) {
                    let k = g.below(10);
                    let nul = |i: usize, p: P| if i == k { NULL } else { p };
                    let nulo = |i: usize, p: Out| if i == k { no_out() } else { p };
                    let code = ursa_cl_issuer_sign_credential(if k == 0 { ptr::null() } else { id.as_ptr() }, nul(1, cbs.p), nul(2, cbp.p), nul(3, cn.p), nul(4, ci.p), nul(5, ckv.p), nul(6, c.pk.p), nul(7, c.sk.p), nulo(8, &mut a), nulo(9, &mut b));
                    refused(&format!("signing with parameter {} null", k + 1), code, &[a, b])?;
                }
                if g.chance(1, 4) {
                    // a proof for another nonce
                    let code = ursa_cl_issuer_sign_credential(id.as_ptr(), cbs.p, cbp.p, ci.p, ci.p, ckv.p, c.pk.p, c.sk.p, &mut a, &mut b);
                    refused("signing with the wrong nonce", code, &[a, b])?;
                }
                if by_c {
                    let code = ursa_cl_issuer_sign_credential(id.as_ptr(), cbs.p, cbp.p, cn.p, ci.p, ckv.p, c.pk.p, c.sk.p, &mut a, &mut b);
                    csig = got("signature", code, a, J::Sig.fns().2)?;
                    cscp = got("signature proof", code, b, J::Scp.fns().2)?;
                    sig = out(J::Sig, &csig)?;
                    scp = out(J::Scp, &cscp)?;
                } else {
                    let x = e("rust", "sign", Issuer::sign_credential(PROVER, &bs, &bp, &nonce, &inonce, &kv, &iss.pk, &iss.sk))?;
                    sig = x.0;
                    scp = x.1;
                    csig = inn(J::Sig, &sig)?;
                    cscp = inn(J::Scp, &scp)?;
                }
                let mut i = 77u32;
                refused("the revocation index of a plain credential", ursa_cl_prover_get_credential_revocation_index(csig.p, &mut i), &[])?;
            }
            Some((ref mut r, cr, idx)) => {
                let before = val(J::Reg, &cr.reg)?;
                if g.chance(1, 3) {
                    // the tail cannot be had (with issuance by default none is needed)
                    cr.tails.arm(g, 0);
                    let code = ursa_cl_issuer_sign_credential_with_revoc(id.as_ptr(), cbs.p, cbp.p, cn.p, ci.p, ckv.p, c.pk.p, c.sk.p, idx, r.max, r.by_default, cr.reg.p, cr.kpriv.p, cr.tails.ctx(), take, put, &mut a, &mut b, &mut d);
                    let hit = cr.tails.settled("signing")?;
                    ensure!(hit != r.by_default, "tails", "signing used a tail: {}, issuance by default: {}", hit, r.by_default);
                    if hit {
                        refused("signing without its tail", code, &[a, b, d])?;
                    } else {
                        okc("signing", code)?;
                        drop(got("", 0, a, J::Sig.fns().2)?);
                        drop(got("", 0, b, J::Scp.fns().2)?);
                    }
                    ensure!(val(J::Reg, &cr.reg)? == before, "not-atomic", "signing that failed, or by default, changed the registry");
                    a = SENT;
                    b = SENT;
                    d = SENT;
                }
                if g.chance(1, 4) {
                    let k = g.below(13);
                    let nul = |i: usize, p: P| if i == k { NULL } else { p };
                    let nulo = |i: usize, p: Out| if i == k { no_out() } else { p };
                    let code = ursa_cl_issuer_sign_credential_with_revoc(
                        if k == 0 { ptr::null() } else { id.as_ptr() }, nul(1, cbs.p), nul(2, cbp.p), nul(3, cn.p), nul(4, ci.p), nul(5, ckv.p), nul(6, c.pk.p), nul(7, c.sk.p), idx, r.max, r.by_default,
                        nul(8, cr.reg.p), nul(9, cr.kpriv.p), cr.tails.ctx(), take, put, nulo(10, &mut a), nulo(11, &mut b), nulo(12, &mut d),
                    );
                    refused(&format!("signing with revocation, pointer {} null", k + 1), code, &[a, b, d])?;
                    let i = if g.bool() { 0 } else { r.max + 1 };
                    let code = ursa_cl_issuer_sign_credential_with_revoc(id.as_ptr(), cbs.p, cbp.p, cn.p, ci.p, ckv.p, c.pk.p, c.sk.p, i, r.max, r.by_default, cr.reg.p, cr.kpriv.p, cr.tails.ctx(), take, put, &mut a, &mut b, &mut d);
                    refused(&format!("signing for index {} of {}", i, r.max), code, &[a, b, d])?;
                    ensure!(val(J::Reg, &cr.reg)? == before, "not-atomic", "a refused call changed the registry");
                }
                let delta;
                let t0 = cr.tails.takes.get();
                let code = ursa_cl_issuer_sign_credential_with_revoc(id.as_ptr(), cbs.p, cbp.p, cn.p, ci.p, ckv.p, c.pk.p, c.sk.p, idx, r.max, r.by_default, cr.reg.p, cr.kpriv.p, cr.tails.ctx(), take, put, &mut a, &mut b, &mut d);
                let (s1, p1) = (got("signature", code, a, J::Sig.fns().2)?, got("signature proof", code, b, J::Scp.fns().2)?);
                ensure!(cr.tails.takes.get() > t0 || r.by_default, "tails", "issuing did not read the tail");
                cr.tails.settled("signing")?;
                let (s2, p2, d2) = e("rust", "sign", Issuer::sign_credential_with_revoc(PROVER, &bs, &bp, &nonce, &inonce, &kv, &iss.pk, &iss.sk, idx, r.max, r.by_default, &mut r.reg, &r.key_priv, &r.tails))?;
                ensure!(d != SENT && d.is_null() == d2.is_none(), "delta", "the C interface returns a delta: {}, the library: {}", !d.is_null(), d2.is_some());
                if let Some(d2) = d2 {
                    delta = got("delta", code, d, J::Delta.fns().2)?;
                    let x = val(J::Delta, &delta)?;
                    ensure!(x == sets(js(&d2)), "delta", "the deltas differ: {} and {}", x, js(&d2));
                    r.deltas.push(d2);
                }
                r.valid.insert(idx);
                same_registry(r, cr, "an issuance")?;
                if by_c {
                    sig = out(J::Sig, &s1)?;
                    scp = out(J::Scp, &p1)?;
                    csig = s1;
                    cscp = p1;
                } else {
                    csig = inn(J::Sig, &s2)?;
                    cscp = inn(J::Scp, &p2)?;
                    sig = s2;
                    scp = p2;
                }
                let mut i = 77u32;
                okc("revocation index", ursa_cl_prover_get_credential_revocation_index(csig.p, &mut i))?;
                ensure!(i == idx, "revocation-index", "index {} instead of {}", i, idx);
                refused("a revocation index without an output", ursa_cl_prover_get_credential_revocation_index(csig.p, ptr::null_mut()), &[])?;
            }
        }
        // holder, on both sides
        let (mut w, mut cw) = (None, None);
        if let Some((ref r, cr, idx)) = rev {
            w = Some(r.witness(idx)?);
            cw = Some(c_witness(g, r, cr, idx)?);
        }
        let (rk, rr, ww) = match (&rev, &cw) {
            (Some((_, cr, _)), Some(w)) => (cr.kpub.p, cr.reg.p, w.p),
            _ => (NULL, NULL, NULL),
        };
        if g.chance(1, 4) {
            let k = g.below(6);
            let nul = |i: usize, p: P| if i == k { NULL } else { p };
            let code = ursa_cl_prover_process_credential_signature(nul(0, csig.p), nul(1, ccv.p), nul(2, cscp.p), nul(3, cbf.p), nul(4, c.pk.p), nul(5, ci.p), rk, rr, ww);
            refused(&format!("processing with parameter {} null", k + 1), code, &[])?;
            let other = inn(J::Sig, &sig)?;
            let code = ursa_cl_prover_process_credential_signature(other.p, ccv.p, cscp.p, cbf.p, c.pk.p, cn.p, rk, rr, ww);
            refused("processing with the wrong nonce", code, &[])?;
        }
        okc("processing", ursa_cl_prover_process_credential_signature(csig.p, ccv.p, cscp.p, cbf.p, c.pk.p, ci.p, rk, rr, ww))?;
        match &rev {
            None => e("rust", "process", Prover::process_credential_signature(&mut sig, &cv, &scp, &bf, &iss.pk, &inonce, None, None, None))?,
            Some((r, _, _)) => e("rust", "process", Prover::process_credential_signature(&mut sig, &cv, &scp, &bf, &iss.pk, &inonce, Some(&r.key_pub), Some(&r.reg), w.as_ref()))?,
        }
        let (a, b) = (js(&sig), val(J::Sig, &csig)?);
        ensure!(a == b, "credential-differs", "the processed credentials differ: {} and {}", a, b);
    }
    Ok(Held { idx: rev.map(|x| x.2), vals, cv, ccv, sig, csig })
}
fn c_full_delta(r: &Reg, cr: &CReg) -> Result<H, Fail> {
    let (mut iss, mut rv): (Vec<u32>, Vec<u32>) = (vec![], vec![]);
    if r.by_default {
        rv = (1..=r.max).filter(|i| !r.valid.contains(i)).collect();
    } else {
        iss = r.valid.iter().cloned().collect();
    }
    iss.reserve(1);
    rv.reserve(1);
    let d = make("delta from parts", J::Delta.fns().2, |o| unsafe { ursa_revocation_registry_delta_from_parts(NULL, cr.reg.p, iss.as_ptr(), iss.len(), rv.as_ptr(), rv.len(), o) })?;
    let (a, b) = (val(J::Delta, &d)?, sets(js(&r.full_delta())));
    ensure!(a == b, "delta", "ursa_revocation_registry_delta_from_parts gives {}, from_parts {}", a, b);
    Ok(d)
}
fn c_witness(g: &mut G, r: &Reg, cr: &CReg, idx: u32) -> Result<H, Fail> {
    let d = c_full_delta(r, cr)?;
    unsafe {
        if g.chance(1, 3) {
            let mut o = SENT;
            match g.draw(2) {
                0 => refused("a witness without a delta", ursa_cl_witness_new(idx, r.max, r.by_default, NULL, cr.tails.ctx(), take, put, &mut o), &[o])?,
                1 => refused("a witness without an output", ursa_cl_witness_new(idx, r.max, r.by_default, d.p, cr.tails.ctx(), take, put, no_out()), &[])?,
                _ => {
                    let n = g.draw(2) as i64;
                    cr.tails.arm(g, n);
                    let code = ursa_cl_witness_new(idx, r.max, r.by_default, d.p, cr.tails.ctx(), take, put, &mut o);
                    let hit = cr.tails.settled("a witness")?;
                    if hit {
                        refused("a witness without its tails", code, &[o])?;
                    } else {
                        drop(got("witness", code, o, ursa_cl_witness_free)?);
                    }
                }
            }
        }
        let w = make("witness", ursa_cl_witness_free, |o| ursa_cl_witness_new(idx, r.max, r.by_default, d.p, cr.tails.ctx(), take, put, o))?;
        cr.tails.settled("a witness")?;
        Ok(w)
    }
}

struct World {
    iss: Iss,
    c: CIss,
    rev: Option<(Reg, CReg)>,
    held: Vec<Held>,
    /// witnesses of the revocable credentials that follow by updates
    ws: Vec<Option<(Witness, H)>>,
}
fn values_for(g: &mut G, iss: &Iss) -> Vals {
    let mut v = Vals::new();
    for a in &iss.attrs {
        let kind = if g.chance(1, 14) { Kind::Committed } else { *g.pick(&[Kind::Known, Kind::Known, Kind::Known, Kind::Hidden]) };
        v.insert(a.clone(), (kind, value(g), secret256(g)));
    }
    for a in &iss.non {
        v.insert(a.clone(), (Kind::Hidden, secret256(g), BigInt::from(0)));
    }
    v
}

/// a presentation of some credentials, built on one side and judged on both
fn present_and_judge(g: &mut G, w: &World, which: &[usize], nonrev: bool) -> Result<bool, Fail> {
    let nonce = new_nonce().unwrap();
    let cn = inn(J::Nonce_, &nonce)?;
    let common: Vec<String> = if g.chance(1, 3) { w.iss.non.clone() } else { vec![] };
    let qs: Vec<Req> = which.iter().map(|i| request(g, &w.iss, &w.held[*i].vals, &w.iss.non)).collect();
    // common attributes need equal values; the harness gives every credential of a holder the same secret
    let with_rev = |i: usize| nonrev && w.held[i].idx.is_some();
    let by_c = g.bool();
    let built: Result<(Proof, H), String> = unsafe {
        if by_c {
            let mut b = SENT;
            okc("proof builder", ursa_cl_prover_new_proof_builder(&mut b))?;
            refused("a proof without an output", ursa_cl_proof_builder_finalize(b, cn.p, no_out()), &[])?;
            refused("a proof without a nonce", ursa_cl_proof_builder_finalize(b, NULL, &mut { SENT }), &[])?;
            for a in &common {
                okc("common attribute", ursa_cl_proof_builder_add_common_attribute(b, cs(a).as_ptr()))?;
            }
            let mut bad = None;
            for (q, i) in qs.iter().zip(which) {
                let cq = c_request(g, q)?;
                let h = &w.held[*i];
                let (reg, wit) = match (&w.rev, &w.ws[*i]) {
                    (Some((_, cr)), Some((_, cw))) if with_rev(*i) => (cr.reg.p, cw.p),
                    _ => (NULL, NULL),
                };
                if g.chance(1, 5) {
                    let k = g.below(7);
                    let nul = |i: usize, p: P| if i == k { NULL } else { p };
                    let code = ursa_cl_proof_builder_add_sub_proof_request(nul(0, b), nul(1, cq.p), nul(2, w.c.schema.p), nul(3, w.c.nschema.p), nul(4, h.csig.p), nul(5, h.ccv.p), nul(6, w.c.pk.p), reg, wit);
                    refused(&format!("a sub-proof with parameter {} null", k + 1), code, &[])?;
                }
                let code = ursa_cl_proof_builder_add_sub_proof_request(b, cq.p, w.c.schema.p, w.c.nschema.p, h.csig.p, h.ccv.p, w.c.pk.p, reg, wit);
                if code != 0 && bad.is_none() {
                    bad = Some(format!("add_sub_proof_request: {}", code));
                }
            }
            let mut o = SENT;
            let code = ursa_cl_proof_builder_finalize(b, cn.p, &mut o);
            match bad {
                Some(m) => {
                    if code == 0 {
                        drop(got("proof", code, o, J::Proof_.fns().2)?);
                    }
                    Err(m)
                }
                None => {
                    if code != 0 {
                        refused("finalize", code, &[o])?;
                        Err(format!("finalize: {}", code))
                    } else {
                        let h = got("proof", code, o, J::Proof_.fns().2)?;
                        Ok((out(J::Proof_, &h)?, h))
                    }
                }
            }
        } else {
            let mut b = Prover::new_proof_builder().unwrap();
            for a in &common {
                b.add_common_attribute(a).unwrap();
            }
            let mut bad = None;
            for (q, i) in qs.iter().zip(which) {
                let h = &w.held[*i];
                let (reg, wit) = match (&w.rev, &w.ws[*i]) {
                    (Some((r, _)), Some((rw, _))) if with_rev(*i) => (Some(&r.reg), Some(rw)),
                    _ => (None, None),
                };
                if let Err(x) = b.add_sub_proof_request(&q.lib(), &w.iss.schema, &w.iss.nschema, &h.sig, &h.cv, &w.iss.pk, reg, wit) {
                    bad = Some(format!("{:?}", x));
                }
            }
            match bad {
                Some(m) => Err(m),
                None => match b.finalize(&nonce) {
                    Ok(p) => {
                        let h = inn(J::Proof_, &p)?;
                        Ok((p, h))
                    }
                    Err(x) => Err(format!("{:?}", x)),
                },
            }
        }
    };
    let good = which.iter().all(|i| !with_rev(*i) || w.rev.as_ref().unwrap().0.valid.contains(&w.held[*i].idx.unwrap()));
    g.show(format!("{} credentials, {:?}, common {:?}, revocable {:?} proved {}", which.len(), qs.iter().map(|q| (&q.revealed, q.preds.iter().map(|p| (&p.attr, p.ty, p.val)).collect::<Vec<_>>())).collect::<Vec<_>>(), common, which.iter().map(|i| w.held[*i].idx).collect::<Vec<_>>(), nonrev));
    // a committed attribute is not part of the signature, so nothing is claimed about showing it
    let vague = which.iter().any(|i| w.held[*i].vals.values().any(|v| v.0 == Kind::Committed));
    let (proof, cproof) = match built {
        Ok(x) => x,
        Err(m) => {
            ensure!(!good || vague, "refuses", "an honest presentation cannot be made: {}", m);
            return Ok(false);
        }
    };
    // judged by both sides, as it is and against other expectations
    for round in 0..3 {
        g.eval();
        let mut honest = good;
        let (mut nonce2, mut common2, mut qs2, mut nonrev2) = (nonce.try_clone().unwrap(), common.clone(), qs.clone(), nonrev);
        if round > 0 {
            match g.draw(4) {
                0 => {
                    nonce2 = new_nonce().unwrap();
                    honest = false;
                }
                1 => {
                    if !w.iss.non.is_empty() && common2.is_empty() && which.len() > 1 {
                        common2 = w.iss.non.clone();
                    }
                }
                2 => {
                    let i = g.below(qs2.len());
                    let a = g.pick(&w.iss.attrs).clone();
                    if !qs2[i].revealed.remove(&a) {
                        qs2[i].revealed.insert(a);
                    }
                    honest = false;
                }
                3 => nonrev2 = !nonrev,
                _ => {
                    let i = g.below(qs2.len());
                    let p: Vec<Pred> = qs2[i].preds.iter().cloned().collect();
                    if let Some(p) = p.first() {
                        qs2[i].preds.remove(p);
                        honest = false;
                    }
                }
            }
        }
        let strict = (round == 0 && !vague) || !honest;
        let mut v = verifier_new(&common2)?;
        let mut rust = None;
        let cn2 = inn(J::Nonce_, &nonce2)?;
        let c = unsafe {
            let mut b = SENT;
            okc("verifier", ursa_cl_verifier_new_proof_verifier(&mut b))?;
            for a in &common2 {
                okc("common attribute", ursa_cl_proof_verifier_add_common_attribute(b, cs(a).as_ptr()))?;
            }
            let mut bad = false;
            for (q, i) in qs2.iter().zip(which) {
                let cq = c_request(g, q)?;
                let (rk, rg, k2, r2) = match &w.rev {
                    Some((r, cr)) if nonrev2 && w.held[*i].idx.is_some() => (cr.kpub.p, cr.reg.p, Some(&r.key_pub), Some(&r.reg)),
                    _ => (NULL, NULL, None, None),
                };
                if g.chance(1, 5) {
                    let k = g.below(5);
                    let nul = |i: usize, p: P| if i == k { NULL } else { p };
                    let code = ursa_cl_proof_verifier_add_sub_proof_request(nul(0, b), nul(1, cq.p), nul(2, w.c.schema.p), nul(3, w.c.nschema.p), nul(4, w.c.pk.p), rk, rg);
                    refused(&format!("a verifier's request with parameter {} null", k + 1), code, &[])?;
                }
                let code = ursa_cl_proof_verifier_add_sub_proof_request(b, cq.p, w.c.schema.p, w.c.nschema.p, w.c.pk.p, rk, rg);
                let r = v.add_sub_proof_request(&q.json(), &w.iss.schema, &w.iss.nschema, &w.iss.pk, k2, r2);
                ensure!((code == 0) == r.is_ok(), "verdict-differs", "adding a request: code {} and {:?}", code, r.is_ok());
                bad |= code != 0;
            }
            let mut flag = g.bool();
            let mut f2 = g.bool();
            let f0 = f2;
            let code = match g.draw(9) {
                0 => ursa_cl_proof_verifier_verify(b, NULL, cn2.p, &mut f2),
                1 => ursa_cl_proof_verifier_verify(b, cproof.p, NULL, &mut f2),
                2 => ursa_cl_proof_verifier_verify(b, cproof.p, cn2.p, ptr::null_mut()),
                3 => ursa_cl_proof_verifier_verify(NULL, cproof.p, cn2.p, &mut f2),
                _ => 0,
            };
            if code != 0 {
                refused("verification with a null", code, &[])?;
                ensure!(f2 == f0 || !f2, "verdict-after-error", "a refused verification reports a valid proof");
            }
            let was = flag;
            let code = ursa_cl_proof_verifier_verify(b, cproof.p, cn2.p, &mut flag);
            if code != 0 {
                ensure!(flag == was || !flag, "verdict-after-error", "a failed verification reports a valid proof");
                error_details("verification")?;
            } else {
                rust = Some(flag);
            }
            code == 0 && flag && !bad
        };
        let _ = rust;
        let r = accepted(&mut v, &proof, &nonce2)?;
        ensure!(r == c, "verdict-differs", "the C interface says {}, the library {} (round {}, {} credentials, built by {})", c, r, round, which.len(), if by_c { "C" } else { "Rust" });
        if strict {
            ensure!(c == honest, "verdict", "verified: {}, expected: {} (round {}, built by {})", c, honest, round, if by_c { "C" } else { "Rust" });
        }
    }
    Ok(good && !vague)
}
fn verifier_new(common: &[String]) -> Result<verifier::ProofVerifier, Fail> {
    let mut v = ursa::cl::verifier::Verifier::new_proof_verifier().unwrap();
    for c in common {
        v.add_common_attribute(c).unwrap();
    }
    Ok(v)
}

fn protocol(g: &mut G) -> R {
    POISON.store(true, Ordering::Relaxed);
    let attrs = attr_names(g, 1, 4);
    let non: Vec<String> = if g.chance(4, 5) { vec!["master_secret".into()] } else { vec![] };
    let revocable = g.chance(3, 5);
    let iss = make_issuer(g, attrs, non, revocable);
    let c = c_issuer(&iss)?;
    if g.chance(1, 6) {
        unsafe {
            let (mut a, mut b, mut d) = (SENT, SENT, SENT);
            let k = g.below(5);
            let nul = |i: usize, p: P| if i == k { NULL } else { p };
            let nulo = |i: usize, p: Out| if i == k { no_out() } else { p };
            let code = ursa_cl_issuer_new_credential_def(nul(0, c.schema.p), nul(1, c.nschema.p), false, nulo(2, &mut a), nulo(3, &mut b), nulo(4, &mut d));
            refused(&format!("a credential definition with parameter {} null", k + 1), code, &[a, b, d])?;
        }
    }
    let max = g.range(1, 6) as u32;
    let by_default = g.bool();
    let rev = if revocable { Some(registry(g, &iss, &c, max, by_default)?) } else { None };
    let mut w = World { iss, c, rev, held: vec![], ws: vec![] };
    // one secret of the holder in all credentials
    let secret = secret256(g);
    let n = g.range(1, 3);
    let mut free: Vec<u32> = (1..=max).collect();
    for _ in 0..n {
        let mut vals = values_for(g, &w.iss);
        if let Some(m) = vals.get_mut("master_secret") {
            m.1 = secret.clone();
        }
        let idx = if w.rev.is_some() && !free.is_empty() && g.chance(3, 4) { Some(free.remove(g.below(free.len()))) } else { None };
        if idx.is_none() && w.rev.is_some() {
            // a key that supports revocation can also sign plain credentials
        }
        let old: Option<RevocationRegistry> = w.rev.as_ref().map(|r| r.0.reg.clone());
        let h = {
            let World { iss, c, rev, .. } = &mut w;
            match (rev.as_mut(), idx) {
                (Some((r, cr)), Some(i)) => c_issue(g, iss, c, vals, Some((r, cr, i)))?,
                _ => c_issue(g, iss, c, vals, None)?,
            }
        };
        // what changed reaches the other holders
        if let (Some(old), Some(i)) = (old, idx) {
            if !w.rev.as_ref().unwrap().0.by_default {
                follow(g, &mut w, &old, &[i], &[])?;
            }
        }
        let wit = match (idx, &w.rev) {
            (Some(i), Some((r, cr))) => Some((r.witness(i)?, c_witness(g, r, cr, i)?)),
            _ => None,
        };
        w.held.push(h);
        w.ws.push(wit);
    }
    let mut done = 0;
    let steps = g.range(1, 3);
    for _ in 0..steps {
        if w.rev.is_some() && g.chance(2, 3) {
            change(g, &mut w)?;
        }
        let n = g.range(1, w.held.len());
        let which = g.subset_k(w.held.len(), n);
        let nonrev = g.chance(3, 4);
        done += present_and_judge(g, &w, &which, nonrev)? as usize;
    }
    g.label(if revocable { "revocable" } else { "plain" });
    g.label(format!("{} credentials", n));
    if done > 0 {
        g.nontrivial();
    }
    Ok(())
}
/// brings the witnesses from one state of the registry to the current one
fn follow(g: &mut G, w: &mut World, old: &RevocationRegistry, issued: &[u32], revoked: &[u32]) -> R {
    let World { rev, held, ws, .. } = w;
    let (r, cr) = rev.as_ref().unwrap();
    let d = RevocationRegistryDelta::from_parts(Some(old), &r.reg, &issued.iter().cloned().collect::<HashSet<_>>(), &revoked.iter().cloned().collect::<HashSet<_>>());
    let co = inn(J::Reg, old)?;
    let (mut i2, mut r2) = (issued.to_vec(), revoked.to_vec());
    i2.reserve(1);
    r2.reserve(1);
    if g.chance(1, 3) {
        let mut o = SENT;
        let code = unsafe {
            match g.draw(3) {
                0 => ursa_revocation_registry_delta_from_parts(co.p, NULL, i2.as_ptr(), i2.len(), r2.as_ptr(), r2.len(), &mut o),
                1 => ursa_revocation_registry_delta_from_parts(co.p, cr.reg.p, ptr::null(), 0, r2.as_ptr(), r2.len(), &mut o),
                2 => ursa_revocation_registry_delta_from_parts(co.p, cr.reg.p, i2.as_ptr(), i2.len(), ptr::null(), 0, &mut o),
                _ => ursa_revocation_registry_delta_from_parts(co.p, cr.reg.p, i2.as_ptr(), i2.len(), r2.as_ptr(), r2.len(), no_out()),
            }
        };
        refused("a delta with a null", code, &[o])?;
    }
    let cd = make("delta from parts", J::Delta.fns().2, |o| unsafe { ursa_revocation_registry_delta_from_parts(co.p, cr.reg.p, i2.as_ptr(), i2.len(), r2.as_ptr(), r2.len(), o) })?;
    let (a, b) = (val(J::Delta, &cd)?, sets(js(&d)));
    ensure!(a == b, "delta", "the deltas differ: {} and {}", a, b);
    for (h, wit) in held.iter().zip(ws.iter_mut()) {
        if let (Some(idx), Some((rw, cw))) = (h.idx, wit.as_mut()) {
            if !r.valid.contains(&idx) {
                continue;
            }
            if revoked.contains(&idx) || issued.contains(&idx) {
                // its own status changed: a new witness
                *rw = r.witness(idx)?;
                *cw = c_witness(g, r, cr, idx)?;
                continue;
            }
            if g.chance(1, 3) {
                // an update without tails fails and changes nothing: the real update below must still be right
                let n = g.below(issued.len() + revoked.len() + 1) as i64;
                cr.tails.arm(g, n);
                let code = unsafe { ursa_cl_witness_update(idx, r.max, cd.p, cw.p, cr.tails.ctx(), take, put) };
                let hit = cr.tails.settled("a witness update")?;
                if hit {
                    refused("an update without its tails", code, &[])?;
                } else {
                    // the update took place: the Rust side follows and nothing is left to do
                    okc("witness update", code)?;
                    e("rust", "Witness::update", rw.update(idx, r.max, &d, &r.tails))?;
                    continue;
                }
                unsafe {
                    refused("an update without a delta", ursa_cl_witness_update(idx, r.max, NULL, cw.p, cr.tails.ctx(), take, put), &[])?;
                    refused("an update without a witness", ursa_cl_witness_update(idx, r.max, cd.p, NULL, cr.tails.ctx(), take, put), &[])?;
                }
            }
            okc("witness update", unsafe { ursa_cl_witness_update(idx, r.max, cd.p, cw.p, cr.tails.ctx(), take, put) })?;
            cr.tails.settled("a witness update")?;
            e("rust", "Witness::update", rw.update(idx, r.max, &d, &r.tails))?;
        }
    }
    Ok(())
}
/// revokes and restores on both sides
fn change(g: &mut G, w: &mut World) -> R {
    let old = w.rev.as_ref().unwrap().0.reg.clone();
    let (mut all_i, mut all_r): (BTreeSet<u32>, BTreeSet<u32>) = Default::default();
    let mut merged: Option<(RevocationRegistryDelta, H)> = None;
    {
        let (r, cr) = w.rev.as_mut().unwrap();
        let n = g.range(1, 3);
        for _ in 0..n {
            let idx = g.range(1, r.max as usize) as u32;
            let revoke = r.valid.contains(&idx);
            let f = if revoke { ursa_cl_issuer_revoke_credential } else { ursa_cl_issuer_recovery_credential };
            let before = val(J::Reg, &cr.reg)?;
            let mut o = SENT;
            unsafe {
                match g.draw(8) {
                    0 => refused("a revocation without a registry", f(NULL, r.max, idx, cr.tails.ctx(), take, put, &mut o), &[o])?,
                    1 => refused("a revocation without an output", f(cr.reg.p, r.max, idx, cr.tails.ctx(), take, put, no_out()), &[])?,
                    2 => {
                        let i = if g.bool() { 0 } else { r.max + 1 };
                        refused("a revocation of no credential", f(cr.reg.p, r.max, i, cr.tails.ctx(), take, put, &mut o), &[o])?
                    }
                    3 | 4 => {
                        cr.tails.arm(g, 0);
                        let code = f(cr.reg.p, r.max, idx, cr.tails.ctx(), take, put, &mut o);
                        ensure!(cr.tails.settled("a revocation")?, "tails", "a revocation did not use the tail");
                        refused("a revocation without its tail", code, &[o])?;
                    }
                    _ => {}
                }
                ensure!(val(J::Reg, &cr.reg)? == before, "not-atomic", "a refused revocation changed the registry");
                let cd = make("revocation", J::Delta.fns().2, |o| f(cr.reg.p, r.max, idx, cr.tails.ctx(), take, put, o))?;
                cr.tails.settled("a revocation")?;
                let d = if revoke {
                    r.valid.remove(&idx);
                    e("rust", "revoke", Issuer::revoke_credential(&mut r.reg, r.max, idx, &r.tails))?
                } else {
                    r.valid.insert(idx);
                    e("rust", "recover", Issuer::recovery_credential(&mut r.reg, r.max, idx, &r.tails))?
                };
                let (a, b) = (val(J::Delta, &cd)?, sets(js(&d)));
                ensure!(a == b, "delta", "the deltas differ: {} and {}", a, b);
                same_registry(r, cr, "a revocation")?;
                if revoke {
                    if !all_i.remove(&idx) {
                        all_r.insert(idx);
                    }
                } else if !all_r.remove(&idx) {
                    all_i.insert(idx);
                }
                // one delta for all
                merged = Some(match merged.take() {
                    None => (d, cd),
                    Some((mut m, cm)) => {
                        let mut o = SENT;
                        match g.draw(4) {
                            0 => refused("a merge without a delta", ursa_cl_issuer_merge_revocation_registry_deltas(NULL, cd.p, &mut o), &[o])?,
                            1 => refused("a merge without the other delta", ursa_cl_issuer_merge_revocation_registry_deltas(cm.p, NULL, &mut o), &[o])?,
                            2 => refused("a merge without an output", ursa_cl_issuer_merge_revocation_registry_deltas(cm.p, cd.p, no_out()), &[])?,
                            _ => {}
                        }
                        ensure!(val(J::Delta, &cm)? == sets(js(&m)), "not-atomic", "a refused merge changed a delta");
                        let res = make("merge", J::Delta.fns().2, |o| ursa_cl_issuer_merge_revocation_registry_deltas(cm.p, cd.p, o))?;
                        e("rust", "merge", m.merge(&d))?;
                        let (a, b) = (val(J::Delta, &res)?, sets(js(&m)));
                        ensure!(a == b, "merge", "the merged deltas differ: {} and {}", a, b);
                        (m, res)
                    }
                });
            }
        }
    }
    let (i, r): (Vec<u32>, Vec<u32>) = (all_i.into_iter().collect(), all_r.into_iter().collect());
    follow(g, w, &old, &i, &r)
}

/// Documents of every kind, whole and damaged: the C interface reads and writes what the library reads and writes.
fn documents(g: &mut G) -> R {
    POISON.store(true, Ordering::Relaxed);
    let attrs = attr_names(g, 1, 3);
    let iss = make_issuer(g, attrs, vec!["master_secret".into()], true);
    let vals = values_for(g, &iss);
    let max = g.range(1, 3) as u32;
    let by_default = g.bool();
    let mut reg = make_reg(&iss, max, by_default)?;
    let (_, _, _, gen) = e("rust", "registry", Issuer::new_revocation_registry_def(&iss.pk, max, by_default))?;
    let revocable = g.bool();
    let cred = issue(&iss, vals.clone(), if revocable { Some((&mut reg, 1)) } else { None }, PROVER, 0, false)?;
    let b = blind(&iss, &cred.cv, false)?;
    let (_, scp) = e("rust", "sign", Issuer::sign_credential(PROVER, &b.bs, &b.bp, &b.nonce, &b.nonce, &mk_values_how(0, &known_of(&vals)), &iss.pk, &iss.sk))?;
    let req = request(g, &iss, &vals, &[]);
    let wit = if revocable { Some(reg.witness(1)?) } else { None };
    let proof = match present(&[Show { iss: &iss, cred: &cred, req, rev: wit.map(|w| (&reg, w)) }], &[], &b.nonce) {
        Ok(p) => p,
        Err(m) => return fail("rust", m),
    };
    let docs: Vec<(J, String)> = vec![
        (J::Pk, serde_json::to_string(&iss.pk).unwrap()),
        (J::Sk, serde_json::to_string(&iss.sk).unwrap()),
        (J::Kcp, serde_json::to_string(&iss.kcp).unwrap()),
        (J::RevPub, serde_json::to_string(&reg.key_pub).unwrap()),
        (J::RevPriv, serde_json::to_string(&reg.key_priv).unwrap()),
        (J::Reg, serde_json::to_string(&reg.reg).unwrap()),
        (J::TailsGen, serde_json::to_string(&gen).unwrap()),
        (J::Sig, serde_json::to_string(&cred.sig).unwrap()),
        (J::Scp, serde_json::to_string(&scp).unwrap()),
        (J::Delta, serde_json::to_string(&reg.full_delta()).unwrap()),
        (J::Nonce_, serde_json::to_string(&b.nonce).unwrap()),
        (J::Master, serde_json::to_string(&Prover::new_master_secret().unwrap()).unwrap()),
        (J::Blinded_, serde_json::to_string(&b.bs).unwrap()),
        (J::Factors, serde_json::to_string(&b.bf).unwrap()),
        (J::BlindProof, serde_json::to_string(&b.bp).unwrap()),
        (J::Proof_, serde_json::to_string(&proof).unwrap()),
    ];
    ensure!(docs.len() == JS.len(), "harness", "a kind is missing");
    for (j, t) in &docs {
        let (to, from, free) = j.fns();
        let whole: Value = serde_json::from_str(t).unwrap();
        for round in 0..3 {
            g.eval();
            let mut s: Vec<u8> = t.clone().into_bytes();
            let mut doc = whole.clone();
            if round > 0 {
                match g.draw(5) {
                    0 => s.truncate(g.below(s.len())),
                    1 => {
                        let i = g.below(s.len());
                        s[i] = g.range(1, 255) as u8;
                    }
                    2 => {
                        let i = g.below(docs.len());
                        s = docs[i].1.clone().into_bytes();
                    }
                    3 => s = g.pick(&["null", "{}", "[]", "0", "\"\"", " ", "true", "\"7\"", "{\"ms\":\"1\"}"]).as_bytes().to_vec(),
                    _ => {
                        damage(g, &mut doc, 0);
                        s = doc.to_string().into_bytes();
                    }
                }
            }
            s.retain(|c| *c != 0);
            let cstr = CString::new(s.clone()).unwrap();
            let want = match std::str::from_utf8(&s) {
                Ok("") | Err(_) => None,
                // a panic of the library on a bad document is the business of another check; here it would end the process
                Ok(x) => match no_panic(|| j.rust(x)) {
                    Ok(v) => v,
                    Err(_) => continue,
                },
            };
            let mut o = SENT;
            let code = unsafe { from(cstr.as_ptr(), &mut o) };
            let what = format!("{:?} from {}", j, String::from_utf8_lossy(&s).chars().take(200).collect::<String>());
            match want {
                None => refused(&what, code, &[o])?,
                Some(v) => {
                    let h = got(&what, code, o, free)?;
                    let back = val(*j, &h)?;
                    ensure!(back == v, "document-differs", "{}: written again it is {} instead of {}", what, back, v);
                }
            }
        }
        // nulls
        let mut o = SENT;
        unsafe {
            refused(&format!("{:?} from a null", j), from(ptr::null(), &mut o), &[o])?;
            let c = cs(t);
            refused(&format!("{:?} without an output", j), from(c.as_ptr(), no_out()), &[])?;
            let h = make("document", free, |o| from(c.as_ptr(), o))?;
            refused(&format!("{:?} to nowhere", j), to(h.p, ptr::null_mut()), &[])?;
            let mut s: S = SENT as S;
            refused(&format!("a null {:?} to JSON", j), to(NULL, &mut s), &[s as P])?;
            refused(&format!("freeing a null {:?}", j), free(NULL), &[])?;
        }
    }
    g.nontrivial();
    Ok(())
}
fn damage(g: &mut G, v: &mut Value, depth: usize) {
    match v {
        Value::Object(m) if !m.is_empty() && (depth < 1 || g.chance(3, 4)) => {
            let keys: Vec<String> = m.keys().cloned().collect();
            let k = g.pick(&keys).clone();
            match g.draw(4) {
                0 => {
                    m.remove(&k);
                }
                1 => {
                    let x = m[&k].clone();
                    m.insert(format!("{}x", k), x);
                }
                _ => damage(g, m.get_mut(&k).unwrap(), depth + 1),
            }
        }
        Value::Array(a) if !a.is_empty() && g.chance(3, 4) => {
            let i = g.below(a.len());
            if g.chance(1, 3) {
                a.remove(i);
            } else {
                damage(g, &mut a[i], depth + 1)
            }
        }
        Value::String(s) if g.chance(3, 4) => match g.draw(3) {
            0 => s.push('x'),
            1 => s.clear(),
            2 => {
                s.pop();
            }
            _ => s.insert(0, '-'),
        },
        _ => *v = g.pick(&[Value::Null, Value::from(3), Value::from("x"), Value::from(-1), Value::from(Vec::<u8>::new())]).clone(),
    }
}
/// Things without a JSON form that are made and given back
fn small(g: &mut G) -> R {
    POISON.store(true, Ordering::Relaxed);
    unsafe {
        let m1 = make("master secret", J::Master.fns().2, |o| ursa_cl_prover_new_master_secret(o))?;
        let m2 = make("master secret", J::Master.fns().2, |o| ursa_cl_prover_new_master_secret(o))?;
        ensure!(val(J::Master, &m1)? != val(J::Master, &m2)?, "repeats", "a master secret came twice");
        refused("a master secret without an output", ursa_cl_prover_new_master_secret(no_out()), &[])?;
        refused("a nonce without an output", ursa_cl_new_nonce(no_out()), &[])?;
        refused("a builder without an output", ursa_cl_credential_schema_builder_new(no_out()), &[])?;
        refused("a builder without an output", ursa_cl_non_credential_schema_builder_new(no_out()), &[])?;
        refused("a builder without an output", ursa_cl_credential_values_builder_new(no_out()), &[])?;
        refused("a builder without an output", ursa_cl_sub_proof_request_builder_new(no_out()), &[])?;
        refused("a builder without an output", ursa_cl_prover_new_proof_builder(no_out()), &[])?;
        refused("a verifier without an output", ursa_cl_verifier_new_proof_verifier(no_out()), &[])?;
        let frees: [Free; 6] = [ursa_cl_tail_free, ursa_cl_witness_free, ursa_cl_credential_schema_free, ursa_cl_non_credential_schema_free, ursa_cl_credential_values_free, ursa_cl_sub_proof_request_free];
        for f in &frees {
            refused("freeing null", f(NULL), &[])?;
        }
        let mut n = 0;
        refused("counting the tails of nothing", ursa_cl_tails_generator_count(NULL, &mut n), &[])?;
        let mut o = SENT;
        refused("the next tail of nothing", ursa_cl_tails_generator_next(NULL, &mut o), &[o])?;
        let fins: [unsafe extern "C" fn(P, Out) -> Code; 4] =
            [ursa_cl_credential_schema_builder_finalize, ursa_cl_non_credential_schema_builder_finalize, ursa_cl_credential_values_builder_finalize, ursa_cl_sub_proof_request_builder_finalize];
        for f in &fins {
            refused("finalizing null", f(NULL, &mut o), &[o])?;
        }
        let k = g.below(NAMES.len());
        drop(c_schema(&[NAMES[k].to_string()], g.bool())?);
    }
    g.nontrivial();
    Ok(())
}
pub fn subs() -> Vec<Sub> {
    vec![sub("cl", 60, 1200, 120, protocol), sub("json", 60, 1200, 120, documents), sub("small", 40, 200, 20, small)]
}
