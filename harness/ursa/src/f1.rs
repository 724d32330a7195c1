//! F01: the C interface, called through its exported symbols as a C program would call it.
//! Every object lives behind an opaque pointer; the model is what the Rust API does with the same bytes or JSON.
use pbt::*;
use serde_json::Value;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_void};
use std::ptr;
use std::sync::atomic::Ordering;

/// Freed memory is overwritten while the C interface is tested, so that buffers that outlive their owner show.
pub struct Poison;
pub use pbt::mem::POISON;
thread_local! { pub static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        pbt::mem::freed(p, l.size());
        System.dealloc(p, l)
    }
}

pub type P = *const c_void;
pub type Out = *mut P;
pub type Code = usize;
/// what an output holds before a call
pub const SENT: P = 0x5e5e_5e5e_5e50 as P;
pub const SENTB: *const u8 = SENT as *const u8;

#[repr(C)]
pub struct Buf {
    pub len: i64,
    pub data: *mut u8,
}
#[repr(C)]
pub struct Arr {
    pub len: usize,
    pub data: *const u8,
}
#[repr(C)]
pub struct Err_ {
    pub code: i32,
    pub message: *mut c_char,
}
pub fn arr(b: &[u8]) -> Arr {
    Arr { len: b.len(), data: b.as_ptr() }
}
pub fn no_arr() -> Arr {
    Arr { len: 0, data: ptr::null() }
}

extern "C" {
    fn ursa_get_current_error(e: *mut *const c_char);
    fn ursa_bytebuffer_free(b: Buf);
    fn ursa_string_free(s: *mut c_char);

    fn ursa_bls_generator_new(o: Out) -> Code;
    fn ursa_bls_generator_from_bytes(b: *const u8, n: usize, o: Out) -> Code;
    fn ursa_bls_generator_as_bytes(p: P, b: *mut *const u8, n: *mut usize) -> Code;
    fn ursa_bls_generator_free(p: P) -> Code;
    fn ursa_bls_sign_key_new(b: *const u8, n: usize, o: Out) -> Code;
    fn ursa_bls_sign_key_from_bytes(b: *const u8, n: usize, o: Out) -> Code;
    fn ursa_bls_sign_key_as_bytes(p: P, b: *mut *const u8, n: *mut usize) -> Code;
    fn ursa_bls_sign_key_free(p: P) -> Code;
    fn ursa_bls_ver_key_new(g: P, k: P, o: Out) -> Code;
    fn ursa_bls_ver_key_from_bytes(b: *const u8, n: usize, o: Out) -> Code;
    fn ursa_bls_ver_key_as_bytes(p: P, b: *mut *const u8, n: *mut usize) -> Code;
    fn ursa_bls_ver_key_free(p: P) -> Code;
    fn ursa_bls_pop_new(v: P, k: P, o: Out) -> Code;
    fn ursa_bls_pop_from_bytes(b: *const u8, n: usize, o: Out) -> Code;
    fn ursa_bls_pop_as_bytes(p: P, b: *mut *const u8, n: *mut usize) -> Code;
    fn ursa_bls_pop_free(p: P) -> Code;
    fn ursa_bls_signature_from_bytes(b: *const u8, n: usize, o: Out) -> Code;
    fn ursa_bls_signature_as_bytes(p: P, b: *mut *const u8, n: *mut usize) -> Code;
    fn ursa_bls_signature_free(p: P) -> Code;
    fn ursa_bls_multi_signature_new(s: *const P, n: usize, o: Out) -> Code;
    fn ursa_bls_multi_signature_from_bytes(b: *const u8, n: usize, o: Out) -> Code;
    fn ursa_bls_multi_signature_as_bytes(p: P, b: *mut *const u8, n: *mut usize) -> Code;
    fn ursa_bls_multi_signature_free(p: P) -> Code;
    fn ursa_bls_sign(m: *const u8, n: usize, k: P, o: Out) -> Code;
    fn ursa_bls_verify(s: P, m: *const u8, n: usize, v: P, g: P, o: *mut bool) -> Code;
    fn ursa_bls_verify_multi_sig(s: P, m: *const u8, n: usize, v: *const P, vn: usize, g: P, o: *mut bool) -> Code;
    fn ursa_bls_verify_pop(p: P, v: P, g: P, o: *mut bool) -> Code;

    fn ursa_ed25519_get_public_key_size() -> i32;
    fn ursa_ed25519_get_private_key_size() -> i32;
    fn ursa_ed25519_get_signature_size() -> i32;
    fn ursa_ed25519_keypair_new(p: *mut Buf, s: *mut Buf, e: *mut Err_) -> i32;
    fn ursa_ed25519_keypair_from_seed(d: *const Arr, p: *mut Buf, s: *mut Buf, e: *mut Err_) -> i32;
    fn ursa_ed25519_get_public_key(s: *const Arr, p: *mut Buf, e: *mut Err_) -> i32;
    fn ursa_ed25519_sign(m: *const Arr, k: *const Arr, s: *mut Buf, e: *mut Err_) -> i32;
    fn ursa_ed25519_verify(m: *const Arr, s: *const Arr, k: *const Arr, e: *mut Err_) -> i32;

    fn random_bytes(o: *mut Buf, n: usize, e: *mut Err_) -> i32;
    fn ursa_encrypt(o: *mut Buf, alg: *const *const c_char, k: *const Arr, n: *const Arr, a: *const Arr, i: *const Arr, e: *mut Err_) -> i32;
    fn ursa_decrypt(o: *mut Buf, alg: *const *const c_char, k: *const Arr, n: *const Arr, a: *const Arr, i: *const Arr, e: *mut Err_) -> i32;
}
type Aead = unsafe extern "C" fn(*mut Buf, *const Arr, *const Arr, *const Arr, *const Arr, *mut Err_) -> i32;
type Size = unsafe extern "C" fn() -> usize;
macro_rules! aead {
    ($($n:expr, $e:ident, $d:ident, $k:ident, $no:ident, $t:ident;)*) => {
        extern "C" {
            $(fn $e(o: *mut Buf, k: *const Arr, n: *const Arr, a: *const Arr, i: *const Arr, e: *mut Err_) -> i32;
              fn $d(o: *mut Buf, k: *const Arr, n: *const Arr, a: *const Arr, i: *const Arr, e: *mut Err_) -> i32;
              fn $k() -> usize; fn $no() -> usize; fn $t() -> usize;)*
        }
        fn aeads() -> Vec<(&'static str, Aead, Aead, Size, Size, Size)> { vec![$(($n, $e, $d, $k, $no, $t)),*] }
    };
}
aead! {
    "aes-128-cbc-hmac-256", ursa_aes128_cbc_hmac256_encrypt, ursa_aes128_cbc_hmac256_decrypt, ursa_aes128_cbc_hmac256_keysize, ursa_aes128_cbc_hmac256_noncesize, ursa_aes128_cbc_hmac256_tagsize;
    "aes-256-cbc-hmac-512", ursa_aes256_cbc_hmac512_encrypt, ursa_aes256_cbc_hmac512_decrypt, ursa_aes256_cbc_hmac512_keysize, ursa_aes256_cbc_hmac512_noncesize, ursa_aes256_cbc_hmac512_tagsize;
    "aes-128-gcm", ursa_aes128_gcm_encrypt, ursa_aes128_gcm_decrypt, ursa_aes128_gcm_keysize, ursa_aes128_gcm_noncesize, ursa_aes128_gcm_tagsize;
    "aes-256-gcm", ursa_aes256_gcm_encrypt, ursa_aes256_gcm_decrypt, ursa_aes256_gcm_keysize, ursa_aes256_gcm_noncesize, ursa_aes256_gcm_tagsize;
    "xchacha20poly1305", ursa_xchacha20_poly1305_encrypt, ursa_xchacha20_poly1305_decrypt, ursa_xchacha20_poly1305_keysize, ursa_xchacha20_poly1305_noncesize, ursa_xchacha20_poly1305_tagsize;
}

/// After a refused call: the details must be readable as the documentation says.
pub fn error_details(what: &str) -> R {
    let mut p: *const c_char = ptr::null();
    unsafe { ursa_get_current_error(&mut p) };
    ensure!(!p.is_null(), "no-error-details", "{} was refused but there are no error details", what);
    let t = unsafe { CStr::from_ptr(p) }.to_str().map(|s| s.to_string());
    ensure!(t.is_ok(), "error-details", "{}: the error details are not UTF-8", what);
    let v: Result<Value, _> = serde_json::from_str(&t.clone().unwrap());
    let ok = v.as_ref().ok().and_then(|v| v.get("message")).map_or(false, |m| m.as_str().map_or(false, |s| !s.is_empty()));
    ensure!(ok, "error-details", "{}: the error details are {:?}", what, t);
    Ok(())
}
/// a refusal: an error code, nothing handed out, details available
pub fn refused(what: &str, code: Code, outs: &[P]) -> R {
    ensure!(code != 0, "not-refused", "{} succeeded", what);
    ensure!((100..=118).contains(&code), "error-code", "{} returned {}", what, code);
    for o in outs {
        ensure!(*o == SENT || o.is_null(), "output-after-error", "{} failed with {} but wrote an object to its output", what, code);
    }
    error_details(what)
}

// ---------------------------------------------------------------- BLS
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Gen,
    Sk,
    Vk,
    Pop,
    Sig,
    Multi,
}
const KS: [K; 6] = [K::Gen, K::Sk, K::Vk, K::Pop, K::Sig, K::Multi];
type FromB = unsafe extern "C" fn(*const u8, usize, Out) -> Code;
type AsB = unsafe extern "C" fn(P, *mut *const u8, *mut usize) -> Code;
type Free = unsafe extern "C" fn(P) -> Code;
impl K {
    fn fns(self) -> (FromB, AsB, Free) {
        match self {
            K::Gen => (ursa_bls_generator_from_bytes, ursa_bls_generator_as_bytes, ursa_bls_generator_free),
            K::Sk => (ursa_bls_sign_key_from_bytes, ursa_bls_sign_key_as_bytes, ursa_bls_sign_key_free),
            K::Vk => (ursa_bls_ver_key_from_bytes, ursa_bls_ver_key_as_bytes, ursa_bls_ver_key_free),
            K::Pop => (ursa_bls_pop_from_bytes, ursa_bls_pop_as_bytes, ursa_bls_pop_free),
            K::Sig => (ursa_bls_signature_from_bytes, ursa_bls_signature_as_bytes, ursa_bls_signature_free),
            K::Multi => (ursa_bls_multi_signature_from_bytes, ursa_bls_multi_signature_as_bytes, ursa_bls_multi_signature_free),
        }
    }
    fn rust(self, b: &[u8]) -> Option<Vec<u8>> {
        use ursa::bls::*;
        match self {
            K::Gen => Generator::from_bytes(b).ok().map(|x| x.as_bytes().to_vec()),
            K::Sk => SignKey::from_bytes(b).ok().map(|x| x.as_bytes().to_vec()),
            K::Vk => VerKey::from_bytes(b).ok().map(|x| x.as_bytes().to_vec()),
            K::Pop => ProofOfPossession::from_bytes(b).ok().map(|x| x.as_bytes().to_vec()),
            K::Sig => Signature::from_bytes(b).ok().map(|x| x.as_bytes().to_vec()),
            K::Multi => MultiSignature::from_bytes(b).ok().map(|x| x.as_bytes().to_vec()),
        }
    }
}
/// where an object came from, when it was made honestly
#[derive(Clone, PartialEq, Debug)]
enum From_ {
    Unknown,
    Key(Vec<u8>),
    Vk { gen: Vec<u8>, sk: Vec<u8> },
    Sig { sk: Vec<u8>, m: Vec<u8> },
    Pop { vk: Vec<u8>, sk: Vec<u8> },
    Multi { parts: Vec<(Vec<u8>, Vec<u8>)> },
}
struct H {
    k: K,
    p: P,
    bytes: Vec<u8>,
    view: (*const u8, usize),
    from: From_,
    kids: usize,
}
#[derive(Default)]
struct World {
    hs: Vec<H>,
}
impl Drop for World {
    fn drop(&mut self) {
        for h in &self.hs {
            unsafe { h.k.fns().2(h.p) };
        }
    }
}
fn view(k: K, p: P) -> Result<(*const u8, usize), Fail> {
    let (mut b, mut n) = (SENTB, usize::MAX);
    let c = unsafe { k.fns().1(p, &mut b, &mut n) };
    ensure!(c == 0 && b != SENTB && !b.is_null() && n != usize::MAX, "as-bytes", "as_bytes of a {:?} returned {} with a length of {}", k, c, n);
    Ok((b, n))
}
impl World {
    fn add(&mut self, k: K, what: &str, code: Code, p: P, from: From_) -> Result<usize, Fail> {
        ensure!(code == 0, "refuses", "{} failed with {}", what, code);
        ensure!(p != SENT && !p.is_null(), "no-object", "{} succeeded without an object", what);
        ensure!(self.hs.iter().all(|h| h.p != p), "shared-object", "{} returned a pointer that is already in use", what);
        let v = view(k, p)?;
        let bytes = unsafe { std::slice::from_raw_parts(v.0, v.1) }.to_vec();
        self.hs.push(H { k, p, bytes, view: v, from, kids: 0 });
        Ok(self.hs.len() - 1)
    }
    fn pick(&self, g: &mut G, k: K) -> Option<usize> {
        let l: Vec<usize> = (0..self.hs.len()).filter(|i| self.hs[*i].k == k).collect();
        if l.is_empty() {
            None
        } else {
            Some(*g.pick(&l))
        }
    }
    fn check(&self, i: usize) -> R {
        let h = &self.hs[i];
        let old = unsafe { std::slice::from_raw_parts(h.view.0, h.view.1) };
        ensure!(old == &h.bytes[..], "buffer-lifetime", "the bytes of a {:?} changed while it is alive: {} became {}", h.k, hex(&h.bytes), hex(old));
        let v = view(h.k, h.p)?;
        let now = unsafe { std::slice::from_raw_parts(v.0, v.1) };
        ensure!(now == &h.bytes[..], "bytes-change", "the bytes of a {:?} changed from {} to {}", h.k, hex(&h.bytes), hex(now));
        Ok(())
    }
}
fn msgs(g: &mut G) -> Vec<u8> {
    if g.chance(1, 60) {
        return g.big(200, 70000);
    }
    match g.draw(4) {
        0 => vec![1],
        1 => vec![1, 2],
        2 => vec![0],
        3 => vec![7; 40],
        _ => g.bytes(1, 80),
    }
}
/// the pointer, or null when it is the one to leave out
macro_rules! nz {
    ($k:expr, $i:expr, $p:expr) => {
        if $k == $i { ptr::null_mut::<c_void>() as _ } else { $p }
    };
}
fn mangle(g: &mut G, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    match g.draw(5) {
        0 => {
            v.truncate(g.range(1, v.len()));
        }
        1 => v.extend(g.bytes(1, 40)),
        2 => {
            let i = g.below(v.len());
            v[i] ^= 1 << g.below(8);
        }
        3 => v = g.bytes(1, 140),
        4 => v = vec![0; v.len()],
        _ => v = vec![0xff; v.len()],
    }
    v
}
fn bls(g: &mut G) -> R {
    use ursa::bls;
    POISON.store(true, Ordering::Relaxed);
    let mut w = World::default();
    let n = g.range(12, 40);
    let mut verified = 0;
    let mut trace = vec![];
    for step in 0..n {
        // the first steps make sure there is something to work with
        let op = match step {
            0 => 0,
            1 => 1,
            2 => 3,
            3 => 5,
            _ => g.draw(12),
        };
        let null = if step > 4 && g.chance(1, 7) { g.draw(6) as i32 } else { -1 };
        let mut o: P = SENT;
        trace.push(format!("{}{}", op, if null >= 0 { format!("/null{}", null) } else { String::new() }));
        unsafe {
            match op {
                0 => {
                    if null >= 0 {
                        refused("ursa_bls_generator_new without an output", ursa_bls_generator_new(ptr::null_mut()), &[])?;
                        continue;
                    }
                    let c = ursa_bls_generator_new(&mut o);
                    let i = w.add(K::Gen, "ursa_bls_generator_new", c, o, From_::Unknown)?;
                    let b = w.hs[i].bytes.clone();
                    ensure!(K::Gen.rust(&b) == Some(b.clone()), "not-readable", "Generator::from_bytes refuses {}", hex(&b));
                }
                1 => {
                    let seed = match g.draw(3) {
                        0 => None,
                        1 => Some(g.bytes_n(32)),
                        2 => Some(vec![g.draw(255) as u8; 32]),
                        _ => Some(g.bytes(1, 80)),
                    };
                    let (p, l) = seed.as_ref().map_or((ptr::null(), 0), |s| (s.as_ptr(), s.len()));
                    if null >= 0 {
                        if null % 2 == 0 {
                            refused("ursa_bls_sign_key_new without an output", ursa_bls_sign_key_new(p, l, ptr::null_mut()), &[])?;
                        } else {
                            let b = [1u8];
                            let c = ursa_bls_sign_key_new(b.as_ptr(), 0, &mut o);
                            refused("ursa_bls_sign_key_new with a seed of length 0", c, &[o])?;
                        }
                        continue;
                    }
                    let c = ursa_bls_sign_key_new(p, l, &mut o);
                    match (&seed, bls::SignKey::new(seed.as_ref().map(|x| &x[..]))) {
                        (_, Err(_)) => refused("ursa_bls_sign_key_new with a bad seed", c, &[o])?,
                        (s, Ok(k)) => {
                            let i = w.add(K::Sk, "ursa_bls_sign_key_new", c, o, From_::Unknown)?;
                            if s.is_some() {
                                ensure!(w.hs[i].bytes == k.as_bytes(), "differs", "ursa_bls_sign_key_new makes {} from the seed, SignKey::new {}", hex(&w.hs[i].bytes), hex(k.as_bytes()));
                            } else {
                                let b = w.hs[i].bytes.clone();
                                ensure!(w.hs[..i].iter().all(|h| h.bytes != b), "repeats", "a random key came twice");
                            }
                            let b = w.hs[i].bytes.clone();
                            w.hs[i].from = From_::Key(b);
                        }
                    }
                }
                2 => {
                    // bytes in
                    let k = *g.pick(&KS);
                    let src = match w.pick(g, k) {
                        Some(i) => i,
                        None => continue,
                    };
                    let good = g.bool();
                    let b = if good { w.hs[src].bytes.clone() } else { mangle(g, &w.hs[src].bytes.clone()) };
                    if null >= 0 {
                        let c = match null % 3 {
                            0 => k.fns().0(ptr::null(), b.len(), &mut o),
                            1 => k.fns().0(b.as_ptr(), 0, &mut o),
                            _ => k.fns().0(b.as_ptr(), b.len(), ptr::null_mut()),
                        };
                        refused(&format!("from_bytes of a {:?} with parameter {} missing", k, null % 3 + 1), c, &[o])?;
                        continue;
                    }
                    let what = format!("from_bytes of a {:?} from {}", k, hex(&b));
                    let want = k.rust(&b);
                    let c = k.fns().0(b.as_ptr(), b.len(), &mut o);
                    match want {
                        None => refused(&what, c, &[o])?,
                        Some(x) => {
                            let from = if x == w.hs[src].bytes { w.hs[src].from.clone() } else { From_::Unknown };
                            let i = w.add(k, &what, c, o, from)?;
                            ensure!(w.hs[i].bytes == x, "differs", "{} gives {}, the library {}", what, hex(&w.hs[i].bytes), hex(&x));
                        }
                    }
                }
                3 => {
                    let (a, s) = match (w.pick(g, K::Gen), w.pick(g, K::Sk)) {
                        (Some(a), Some(s)) => (a, s),
                        _ => continue,
                    };
                    let k = if null < 0 { -1 } else { null % 3 };
                    let c = ursa_bls_ver_key_new(nz!(k, 0, w.hs[a].p), nz!(k, 1, w.hs[s].p), nz!(k, 2, &mut o));
                    if k >= 0 {
                        refused(&format!("ursa_bls_ver_key_new with parameter {} null", k + 1), c, &[o])?;
                        continue;
                    }
                    let want = bls::VerKey::new(&bls::Generator::from_bytes(&w.hs[a].bytes).unwrap(), &bls::SignKey::from_bytes(&w.hs[s].bytes).unwrap()).unwrap();
                    let from = From_::Vk { gen: w.hs[a].bytes.clone(), sk: w.hs[s].bytes.clone() };
                    let i = w.add(K::Vk, "ursa_bls_ver_key_new", c, o, from)?;
                    ensure!(w.hs[i].bytes == want.as_bytes(), "differs", "ursa_bls_ver_key_new differs from VerKey::new");
                }
                4 => {
                    let (a, s) = match (w.pick(g, K::Vk), w.pick(g, K::Sk)) {
                        (Some(a), Some(s)) => (a, s),
                        _ => continue,
                    };
                    let k = if null < 0 { -1 } else { null % 3 };
                    let c = ursa_bls_pop_new(nz!(k, 0, w.hs[a].p), nz!(k, 1, w.hs[s].p), nz!(k, 2, &mut o));
                    if k >= 0 {
                        refused(&format!("ursa_bls_pop_new with parameter {} null", k + 1), c, &[o])?;
                        continue;
                    }
                    let want = bls::ProofOfPossession::new(&bls::VerKey::from_bytes(&w.hs[a].bytes).unwrap(), &bls::SignKey::from_bytes(&w.hs[s].bytes).unwrap()).unwrap();
                    let from = From_::Pop { vk: w.hs[a].bytes.clone(), sk: w.hs[s].bytes.clone() };
                    let i = w.add(K::Pop, "ursa_bls_pop_new", c, o, from)?;
                    ensure!(w.hs[i].bytes == want.as_bytes(), "differs", "ursa_bls_pop_new differs from ProofOfPossession::new");
                }
                5 | 6 => {
                    let s = match w.pick(g, K::Sk) {
                        Some(s) => s,
                        _ => continue,
                    };
                    let m = msgs(g);
                    let k = if null < 0 { -1 } else { null % 4 };
                    let c = ursa_bls_sign(nz!(k, 0, m.as_ptr()), if k == 3 { 0 } else { m.len() }, nz!(k, 1, w.hs[s].p), nz!(k, 2, &mut o));
                    if k >= 0 {
                        refused(&format!("ursa_bls_sign with missing parameter {}", k), c, &[o])?;
                        continue;
                    }
                    let want = bls::Bls::sign(&m, &bls::SignKey::from_bytes(&w.hs[s].bytes).unwrap()).unwrap();
                    let from = From_::Sig { sk: w.hs[s].bytes.clone(), m };
                    let i = w.add(K::Sig, "ursa_bls_sign", c, o, from)?;
                    ensure!(w.hs[i].bytes == want.as_bytes(), "differs", "ursa_bls_sign differs from Bls::sign");
                }
                7 => {
                    let n = g.range(1, 4);
                    let l: Vec<usize> = (0..n).filter_map(|_| w.pick(g, K::Sig)).collect();
                    if l.is_empty() {
                        continue;
                    }
                    let mut ps: Vec<P> = l.iter().map(|i| w.hs[*i].p).collect();
                    let k = if null < 0 { -1 } else { null % 4 };
                    if k == 3 {
                        let i = g.below(ps.len());
                        ps[i] = ptr::null();
                    }
                    let c = ursa_bls_multi_signature_new(nz!(k, 0, ps.as_ptr()), if k == 1 { 0 } else { ps.len() }, nz!(k, 2, &mut o));
                    if k >= 0 {
                        refused(&format!("ursa_bls_multi_signature_new with missing parameter {} of {}", k, ps.len()), c, &[o])?;
                        continue;
                    }
                    let sigs: Vec<bls::Signature> = l.iter().map(|i| bls::Signature::from_bytes(&w.hs[*i].bytes).unwrap()).collect();
                    let want = bls::MultiSignature::new(&sigs.iter().collect::<Vec<_>>()).unwrap();
                    let parts: Option<Vec<_>> = l.iter().map(|i| if let From_::Sig { sk, m } = &w.hs[*i].from { Some((sk.clone(), m.clone())) } else { None }).collect();
                    let from = parts.map_or(From_::Unknown, |parts| From_::Multi { parts });
                    let i = w.add(K::Multi, "ursa_bls_multi_signature_new", c, o, from)?;
                    ensure!(w.hs[i].bytes == want.as_bytes(), "differs", "ursa_bls_multi_signature_new differs from MultiSignature::new");
                }
                8 => {
                    let (s, v, a) = match (w.pick(g, K::Sig), w.pick(g, K::Vk), w.pick(g, K::Gen)) {
                        (Some(s), Some(v), Some(a)) => (s, v, a),
                        _ => continue,
                    };
                    // mostly things that belong together
                    let (mut m, mut v, mut a) = (msgs(g), v, a);
                    if let (From_::Sig { sk, m: m0 }, true) = (&w.hs[s].from, g.chance(3, 4)) {
                        m = m0.clone();
                        if let Some(i) = (0..w.hs.len()).find(|i| matches!(&w.hs[*i].from, From_::Vk { sk: k, .. } if k == sk)) {
                            v = i;
                        }
                    }
                    if let (From_::Vk { gen, .. }, true) = (&w.hs[v].from, g.chance(3, 4)) {
                        if let Some(i) = (0..w.hs.len()).find(|i| w.hs[*i].k == K::Gen && &w.hs[*i].bytes == gen) {
                            a = i;
                        }
                    }
                    let k = if null < 0 { -1 } else { null % 6 };
                    let mut flag = g.bool();
                    let before = flag;
                    let c = ursa_bls_verify(nz!(k, 0, w.hs[s].p), nz!(k, 1, m.as_ptr()), if k == 5 { 0 } else { m.len() }, nz!(k, 2, w.hs[v].p), nz!(k, 3, w.hs[a].p), nz!(k, 4, &mut flag));
                    if k >= 0 {
                        refused(&format!("ursa_bls_verify with missing parameter {}", k), c, &[])?;
                        ensure!(flag == before || !flag, "verdict-after-error", "ursa_bls_verify failed but reported a valid signature");
                        continue;
                    }
                    g.eval();
                    ensure!(c == 0, "refuses", "ursa_bls_verify failed with {}", c);
                    let want = bls::Bls::verify(&bls::Signature::from_bytes(&w.hs[s].bytes).unwrap(), &m, &bls::VerKey::from_bytes(&w.hs[v].bytes).unwrap(), &bls::Generator::from_bytes(&w.hs[a].bytes).unwrap()).unwrap();
                    ensure!(flag == want, "verdict-differs", "ursa_bls_verify says {}, Bls::verify {}", flag, want);
                    if let (From_::Sig { sk, m: m0 }, From_::Vk { gen, sk: sk2 }) = (&w.hs[s].from, &w.hs[v].from) {
                        let honest = sk == sk2 && m0 == &m && gen == &w.hs[a].bytes;
                        ensure!(flag == honest, "verdict", "ursa_bls_verify says {} where {} is right", flag, honest);
                        verified += 1;
                    }
                }
                9 => {
                    let (s, a) = match (w.pick(g, K::Multi), w.pick(g, K::Gen)) {
                        (Some(s), Some(a)) => (s, a),
                        _ => continue,
                    };
                    let (mut m, mut a) = (msgs(g), a);
                    let n = g.range(1, 4);
                    let mut l: Vec<usize> = (0..n).filter_map(|_| w.pick(g, K::Vk)).collect();
                    if let (From_::Multi { parts }, true) = (&w.hs[s].from, g.chance(3, 4)) {
                        m = parts[0].1.clone();
                        // keys of the signers, over one generator
                        let gens: Vec<Vec<u8>> = w.hs.iter().filter(|h| h.k == K::Gen).map(|h| h.bytes.clone()).collect();
                        for gb in gens {
                            let f: Vec<usize> = parts.iter().filter_map(|(k, _)| (0..w.hs.len()).find(|i| w.hs[*i].from == From_::Vk { gen: gb.clone(), sk: k.clone() })).collect();
                            if f.len() == parts.len() {
                                l = f;
                                a = (0..w.hs.len()).find(|i| w.hs[*i].k == K::Gen && w.hs[*i].bytes == gb).unwrap();
                            }
                        }
                    }
                    if l.is_empty() {
                        continue;
                    }
                    let mut ps: Vec<P> = l.iter().map(|i| w.hs[*i].p).collect();
                    let k = if null < 0 { -1 } else { null % 7 };
                    if k == 6 {
                        let i = g.below(ps.len());
                        ps[i] = ptr::null();
                    }
                    let mut flag = g.bool();
                    let before = flag;
                    let c = ursa_bls_verify_multi_sig(nz!(k, 0, w.hs[s].p), nz!(k, 1, m.as_ptr()), m.len(), nz!(k, 2, ps.as_ptr()), if k == 5 { 0 } else { ps.len() }, nz!(k, 3, w.hs[a].p), nz!(k, 4, &mut flag));
                    if k >= 0 {
                        refused(&format!("ursa_bls_verify_multi_sig with missing parameter {}", k), c, &[])?;
                        ensure!(flag == before || !flag, "verdict-after-error", "ursa_bls_verify_multi_sig failed but reported a valid signature");
                        continue;
                    }
                    g.eval();
                    ensure!(c == 0, "refuses", "ursa_bls_verify_multi_sig failed with {}", c);
                    let vks: Vec<bls::VerKey> = l.iter().map(|i| bls::VerKey::from_bytes(&w.hs[*i].bytes).unwrap()).collect();
                    let want = bls::Bls::verify_multi_sig(&bls::MultiSignature::from_bytes(&w.hs[s].bytes).unwrap(), &m, &vks.iter().collect::<Vec<_>>(), &bls::Generator::from_bytes(&w.hs[a].bytes).unwrap()).unwrap();
                    ensure!(flag == want, "verdict-differs", "ursa_bls_verify_multi_sig says {}, the library {}", flag, want);
                    verified += flag as usize;
                }
                10 => {
                    let (p, v, a) = match (w.pick(g, K::Pop), w.pick(g, K::Vk), w.pick(g, K::Gen)) {
                        (Some(p), Some(v), Some(a)) => (p, v, a),
                        _ => continue,
                    };
                    let (mut v, mut a) = (v, a);
                    if let (From_::Pop { vk, .. }, true) = (&w.hs[p].from, g.chance(3, 4)) {
                        v = (0..w.hs.len()).find(|i| w.hs[*i].k == K::Vk && &w.hs[*i].bytes == vk).unwrap_or(v);
                    }
                    if let (From_::Vk { gen, .. }, true) = (&w.hs[v].from, g.chance(3, 4)) {
                        a = (0..w.hs.len()).find(|i| w.hs[*i].k == K::Gen && &w.hs[*i].bytes == gen).unwrap_or(a);
                    }
                    let k = if null < 0 { -1 } else { null % 4 };
                    let mut flag = g.bool();
                    let before = flag;
                    let c = ursa_bls_verify_pop(nz!(k, 0, w.hs[p].p), nz!(k, 1, w.hs[v].p), nz!(k, 2, w.hs[a].p), nz!(k, 3, &mut flag));
                    if k >= 0 {
                        refused(&format!("ursa_bls_verify_pop with parameter {} null", k + 1), c, &[])?;
                        ensure!(flag == before || !flag, "verdict-after-error", "ursa_bls_verify_pop failed but reported a valid proof");
                        continue;
                    }
                    g.eval();
                    ensure!(c == 0, "refuses", "ursa_bls_verify_pop failed with {}", c);
                    if let (From_::Pop { vk, sk }, From_::Vk { gen, sk: sk2 }) = (&w.hs[p].from, &w.hs[v].from) {
                        let honest = sk == sk2 && vk == &w.hs[v].bytes && gen == &w.hs[a].bytes;
                        ensure!(flag == honest, "verdict", "ursa_bls_verify_pop says {} where {} is right", flag, honest);
                        verified += 1;
                    }
                }
                11 => {
                    // free something (any time, in any order)
                    if w.hs.len() < 3 {
                        continue;
                    }
                    let i = g.below(w.hs.len());
                    let h = w.hs.remove(i);
                    let c = h.k.fns().2(h.p);
                    ensure!(c == 0, "free", "freeing a {:?} returned {}", h.k, c);
                    refused(&format!("freeing a null {:?}", h.k), h.k.fns().2(ptr::null()), &[])?;
                }
                _ => {
                    if w.hs.is_empty() {
                        continue;
                    }
                    let i = g.below(w.hs.len());
                    w.check(i)?;
                    let h = &w.hs[i];
                    let (mut b, mut n) = (SENTB, 77usize);
                    let c = match null % 3 {
                        0 => h.k.fns().1(ptr::null(), &mut b, &mut n),
                        1 => h.k.fns().1(h.p, ptr::null_mut(), &mut n),
                        _ => h.k.fns().1(h.p, &mut b, ptr::null_mut()),
                    };
                    refused(&format!("as_bytes of a {:?} with a null", h.k), c, &[])?;
                }
            }
        }
    }
    for i in 0..w.hs.len() {
        w.check(i)?;
    }
    g.label(format!("{} verdicts", verified.min(3)));
    g.show(format!("calls {}", trace.join(" ")));
    if verified > 0 {
        g.nontrivial();
    }
    // everything is given back
    drop(w);
    Ok(())
}
/// Objects that are made and freed in a loop leave nothing behind.
fn leaks(g: &mut G) -> R {
    let k = *g.pick(&KS);
    let sk = g.bytes_n(32);
    let m = msgs(g);
    let round = || -> R {
        unsafe {
            let (mut a, mut s, mut v, mut p, mut sig, mut ms) = (SENT, SENT, SENT, SENT, SENT, SENT);
            let cs = [
                ursa_bls_generator_new(&mut a),
                ursa_bls_sign_key_new(sk.as_ptr(), 32, &mut s),
                ursa_bls_ver_key_new(a, s, &mut v),
                ursa_bls_pop_new(v, s, &mut p),
                ursa_bls_sign(m.as_ptr(), m.len(), s, &mut sig),
                ursa_bls_multi_signature_new(&sig, 1, &mut ms),
            ];
            ensure!(cs == [0; 6], "refuses", "codes {:?}", cs);
            let mut extra = SENT;
            let h = [a, s, v, p, sig, ms][KS.iter().position(|x| *x == k).unwrap()];
            let b = view(k, h)?;
            ensure!(k.fns().0(b.0, b.1, &mut extra) == 0, "refuses", "from_bytes of a {:?}", k);
            for (k, p) in KS.iter().zip(&[a, s, v, p, sig, ms]) {
                ensure!(k.fns().2(*p) == 0, "free", "freeing a {:?}", k);
            }
            k.fns().2(extra);
            // refused calls must not keep anything either
            for (b, n) in &[(ptr::null(), 3), (m.as_ptr(), 1)] {
                if k.fns().0(*b, *n, &mut extra) == 0 {
                    k.fns().2(extra);
                }
            }
        }
        Ok(())
    };
    for _ in 0..2 {
        round()?;
    }
    let before = LIVE.with(|c| c.get());
    for _ in 0..6 {
        round()?;
    }
    let grown = LIVE.with(|c| c.get()) - before;
    ensure!(grown < 6 * 16, "leak", "six rounds of making and freeing every BLS object left {} bytes allocated", grown);
    g.nontrivial();
    g.label(format!("{:?}", k));
    Ok(())
}

// ---------------------------------------------------------------- Ed25519 and encryption
/// takes the contents of a returned buffer and gives it back
unsafe fn take(b: &mut Buf) -> Vec<u8> {
    let v = if b.data.is_null() { vec![] } else { std::slice::from_raw_parts(b.data, b.len as usize).to_vec() };
    ursa_bytebuffer_free(Buf { len: b.len, data: b.data });
    *b = fresh();
    v
}
fn fresh() -> Buf {
    Buf { len: -77, data: SENT as *mut u8 }
}
fn untouched(b: &Buf) -> bool {
    b.data == SENT as *mut u8 || b.data.is_null()
}
/// the status of a call must agree with its error structure
unsafe fn status(what: &str, ret: i32, e: &mut Err_, outs: &[&Buf]) -> Result<bool, Fail> {
    ensure!(ret == 0 || ret == 1, "status", "{} returned {}", what, ret);
    if ret == 1 {
        ensure!(e.code == 0, "status", "{} succeeded with the error code {}", what, e.code);
        for o in outs {
            ensure!(o.data != SENT as *mut u8 && o.len >= 0, "no-output", "{} succeeded without an output", what);
        }
    } else {
        ensure!(e.code != 0 && e.code != -55, "status", "{} failed with the error code {}", what, e.code);
        for o in outs {
            ensure!(untouched(o), "output-after-error", "{} failed but wrote an output", what);
        }
        if !e.message.is_null() && e.message != SENT as *mut c_char {
            ensure!(CStr::from_ptr(e.message).to_str().is_ok(), "message", "{}: the message is not UTF-8", what);
            ursa_string_free(e.message);
        }
    }
    *e = no_err();
    Ok(ret == 1)
}
fn no_err() -> Err_ {
    Err_ { code: -55, message: SENT as *mut c_char }
}
fn ed(g: &mut G) -> R {
    use ursa::keys::{KeyGenOption, PrivateKey, PublicKey};
    use ursa::signatures::ed25519::Ed25519Sha512;
    use ursa::signatures::SignatureScheme;
    POISON.store(true, Ordering::Relaxed);
    let s = Ed25519Sha512::new();
    unsafe {
        let (np, ns, ng) = (ursa_ed25519_get_public_key_size() as usize, ursa_ed25519_get_private_key_size() as usize, ursa_ed25519_get_signature_size() as usize);
        ensure!((np, ns, ng) == (Ed25519Sha512::public_key_size(), Ed25519Sha512::private_key_size(), Ed25519Sha512::signature_size()), "sizes", "sizes {:?}", (np, ns, ng));
        let mut e = no_err();
        let (mut bp, mut bs, mut bg) = (fresh(), fresh(), fresh());
        let seed = if g.chance(1, 30) { g.big(100, 70000) } else { g.bytes(0, 70) };
        let from_seed = g.chance(2, 3);
        let r = if from_seed { ursa_ed25519_keypair_from_seed(&arr(&seed), &mut bp, &mut bs, &mut e) } else { ursa_ed25519_keypair_new(&mut bp, &mut bs, &mut e) };
        ensure!(status("key generation", r, &mut e, &[&bp, &bs])?, "refuses", "key generation failed");
        let (pk, sk) = (take(&mut bp), take(&mut bs));
        ensure!(pk.len() == np && sk.len() == ns, "sizes", "keys of {} and {} bytes", pk.len(), sk.len());
        if from_seed {
            let (a, b) = s.keypair(Some(KeyGenOption::UseSeed(seed.clone()))).map_err(|x| Fail { sig: "rust".into(), msg: format!("{:?}", x) })?;
            ensure!((&a.0, &b.0) == (&pk, &sk), "differs", "ursa_ed25519_keypair_from_seed differs from keypair(UseSeed) for {}", hex(&seed));
        }
        // the public key of good and bad private keys
        let key = if g.bool() { sk.clone() } else { mangle(g, &sk) };
        let r = ursa_ed25519_get_public_key(&arr(&key), &mut bp, &mut e);
        let ok = status("ursa_ed25519_get_public_key", r, &mut e, &[&bp])?;
        let want = s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(key.clone())))).ok().map(|x| x.0 .0.clone());
        let got = if ok { Some(take(&mut bp)) } else { None };
        ensure!(got == want, "differs", "ursa_ed25519_get_public_key gives {:?}, keypair(FromSecretKey) {:?}", got, want);
        // signing
        let m = if g.chance(1, 30) { g.big(100, 70000) } else { g.bytes(0, 100) };
        let r = ursa_ed25519_sign(&arr(&m), &arr(&key), &mut bg, &mut e);
        let ok = status("ursa_ed25519_sign", r, &mut e, &[&bg])?;
        let want = s.sign(&m, &PrivateKey(key.clone())).ok();
        let got = if ok { Some(take(&mut bg)) } else { None };
        ensure!(got == want, "differs", "ursa_ed25519_sign gives {:?}, sign {:?}", got.as_ref().map(|x| hex(x)), want.as_ref().map(|x| hex(x)));
        let sig = s.sign(&m, &PrivateKey(sk.clone())).map_err(|x| Fail { sig: "rust".into(), msg: format!("{:?}", x) })?;
        // verification
        for _ in 0..4 {
            g.eval();
            let (mut m2, mut s2, mut p2) = (m.clone(), sig.clone(), pk.clone());
            let d = g.draw(4);
            match d {
                0 => {}
                1 if !m2.is_empty() => m2 = mangle(g, &m),
                1 => m2.push(0),
                2 => s2 = mangle(g, &sig),
                3 => p2 = mangle(g, &pk),
                _ => {
                    s2 = if g.bool() { vec![] } else { s2 };
                    p2 = if g.bool() { vec![] } else { p2 };
                }
            }
            let a = if s2.is_empty() { no_arr() } else { arr(&s2) };
            let r = ursa_ed25519_verify(&arr(&m2), &a, &arr(&p2), &mut e);
            let got = status("ursa_ed25519_verify", r, &mut e, &[])?;
            let want = match s.verify(&m2, &s2, &PublicKey(p2.clone())) {
                Ok(b) => b,
                Err(_) => false,
            };
            ensure!(got == want, "verdict-differs", "ursa_ed25519_verify says {}, verify {}", got, want);
            let same = m2 == m && s2 == sig && p2 == pk;
            ensure!(got == same || d == 3 || d == 2, "verdict", "ursa_ed25519_verify says {} where {} is right", got, same);
            ensure!(!same || got, "verdict", "ursa_ed25519_verify refuses an honest signature");
        }
        g.label(if from_seed { "seed" } else { "random" });
        g.nontrivial();
    }
    Ok(())
}
fn encryption(g: &mut G) -> R {
    use std::str::FromStr;
    use ursa::encryption::symm::prelude::*;
    POISON.store(true, Ordering::Relaxed);
    let all = aeads();
    let (name, enc, dec, kn, nn, tn) = all[g.below(all.len())];
    let ty = EncryptorType::from_str(name).map_err(|x| Fail { sig: "rust".into(), msg: x.to_string() })?;
    unsafe {
        let (kn, nn, tn) = (kn(), nn(), tn());
        ensure!(ty.is_valid_keysize(kn) && ty.is_valid_noncesize(nn), "sizes", "{}: sizes {} {}", name, kn, nn);
        let mut e = no_err();
        let mut o = fresh();
        let want = if g.chance(1, 30) { g.range(60000, 70000) } else { g.range(0, 100) };
        let r = random_bytes(&mut o, want, &mut e);
        ensure!(status("random_bytes", r, &mut e, &[&o])?, "refuses", "random_bytes({}) failed", want);
        let v = take(&mut o);
        ensure!(v.len() == want && (want < 16 || v.iter().any(|b| *b != 0)), "random", "random_bytes({}) gave {}", want, hex(&v));

        let key = g.bytes_n(kn);
        let nonce = g.bytes_n(nn);
        let (mut aad, mut m) = (g.bytes(0, 40), g.bytes(0, 100));
        match g.draw(40) {
            1 => aad = g.big(200, 70000),
            2 => m = g.big(200, 70000),
            _ => {}
        }
        let easy = g.chance(1, 3);
        let generic = g.bool();
        let bad = g.draw(9);
        // which way the call is spoilt, if at all
        let key2 = if bad == 1 { g.bytes(0, 70) } else { key.clone() };
        let nonce2 = if bad == 2 { g.bytes(0, 30) } else { nonce.clone() };
        let alg: Option<Vec<u8>> = match bad {
            3 => Some(g.string(12).replace('\0', "x").into_bytes()),
            4 => Some(vec![0xff, 0xfe]),
            5 => None,
            _ => Some(name.as_bytes().to_vec()),
        };
        let generic = generic || (3..=5).contains(&bad);
        let calg = alg.clone().map(|a| CString::new(a).unwrap());
        let palg: *const c_char = calg.as_ref().map_or(ptr::null(), |c| c.as_ptr());
        let na = if easy { no_arr() } else { arr(&nonce2) };
        let aa = if aad.is_empty() && g.bool() { no_arr() } else { arr(&aad) };
        let what = format!("{} of {} (algorithm {:?}, key of {} bytes, nonce {}, bad {})", if generic { "ursa_encrypt" } else { name }, name, alg, key2.len(), if easy { "none".into() } else { nonce2.len().to_string() }, bad);
        let r = if generic { ursa_encrypt(&mut o, &palg, &arr(&key2), &na, &aa, &arr(&m), &mut e) } else { enc(&mut o, &arr(&key2), &na, &aa, &arr(&m), &mut e) };
        let ok = status(&what, r, &mut e, &[&o])?;
        // the library's reading
        let t2 = alg.as_ref().and_then(|a| String::from_utf8(a.clone()).ok()).and_then(|a| EncryptorType::from_str(&a).ok());
        let should = t2.map_or(false, |t| t.is_valid_keysize(key2.len()) && (easy || t.is_valid_noncesize(nonce2.len())));
        ensure!(ok == should, "refusal", "{}: {} where the library {}", what, if ok { "succeeds" } else { "fails" }, if should { "works" } else { "refuses" });
        g.label(format!("{} {}", name, if ok { "ok" } else { "refused" }));
        if !ok {
            return Ok(());
        }
        let t2 = t2.unwrap();
        let ct = take(&mut o);
        let lib = t2.gen_encryptor(&key2);
        if easy {
            ensure!(lib.decrypt_easy(&aad, &ct).ok() == Some(m.clone()), "differs", "{}: the library does not decrypt it", what);
        } else {
            ensure!(lib.encrypt(&nonce2, &aad, &m).ok() == Some(ct.clone()), "differs", "{}: another ciphertext than the library's", what);
        }
        ensure!(ct.len() >= m.len() + tn, "sizes", "{}: {} bytes of ciphertext for {} of message and {} of tag", what, ct.len(), m.len(), tn);
        // and back, intact or spoilt
        for round in 0..4 {
            g.eval();
            let (mut c2, mut a2, mut k2, mut n2) = (ct.clone(), aad.clone(), key2.clone(), nonce2.clone());
            if round > 0 {
                match g.draw(4) {
                    0 => c2 = mangle(g, &ct),
                    1 => a2.push(0),
                    2 => {
                        let i = g.below(k2.len());
                        k2[i] ^= 1 << g.below(8)
                    }
                    3 if !easy => {
                        let i = g.below(n2.len());
                        n2[i] ^= 1 << g.below(8)
                    }
                    3 => c2 = vec![],
                    _ => c2.truncate(g.below(ct.len())),
                }
            }
            let na = if easy { no_arr() } else { arr(&n2) };
            let r = if g.bool() && t2 == ty { dec(&mut o, &arr(&k2), &na, &arr(&a2), &arr(&c2), &mut e) } else { ursa_decrypt(&mut o, &palg, &arr(&k2), &na, &arr(&a2), &arr(&c2), &mut e) };
            let ok = status("decryption", r, &mut e, &[&o])?;
            let same = c2 == ct && a2 == aad && k2 == key2 && n2 == nonce2;
            ensure!(ok == same, "verdict", "decrypting {} {}", if same { "the ciphertext" } else { "something else" }, if ok { "succeeds" } else { "fails" });
            if ok {
                let p = take(&mut o);
                ensure!(p == m, "roundtrip", "decrypted to {} instead of {}", hex(&p), hex(&m));
            }
        }
        g.nontrivial();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "F01",
        rule: "BLS histories in which a signature or proof was judged; Ed25519 and encryption cases that got as far as verification or decryption; CL protocol runs with a verified proof; JSON documents that were judged",
        assumptions: vec![
            "objects are freed by one thread and while no other uses them, every object is freed once, and pointers are null or come from the library",
            "freed memory is overwritten by the test's allocator while the check runs",
        ],
        subs: {
            let mut l = vec![
            sub("bls", 900, 12000, 300, bls),
            sub("leaks", 8, 40, 10, leaks),
            sub("ed25519", 300, 6000, 300, ed),
            sub("encryption", 600, 12000, 300, encryption),
            ];
            l.extend(crate::f2::subs());
            l.extend(crate::f3::subs());
            l
        },
    }]
}
#[allow(unused)]
type _Unused = BTreeMap<String, Value>;
