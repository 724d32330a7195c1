//! F01: error details per thread, objects shared between threads, the custom logger.
use crate::f1::*;
use pbt::*;
use std::ffi::CStr;
use std::os::raw::c_char;
use std::ptr;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
use std::sync::mpsc::*;
use std::sync::{Arc, Barrier, Mutex, Once};

type Enabled = extern "C" fn(P, u32, *const c_char) -> bool;
type Log = extern "C" fn(P, u32, *const c_char, *const c_char, *const c_char, *const c_char, u32);
type Flush = extern "C" fn(P);
extern "C" {
    fn ursa_get_current_error(e: *mut *const c_char);
    fn ursa_cl_nonce_from_json(s: *const c_char, o: Out) -> Code;
    fn ursa_cl_nonce_free(p: P) -> Code;
    fn ursa_set_logger(c: P, e: Option<Enabled>, l: Option<Log>, f: Option<Flush>) -> Code;
    fn ursa_set_default_logger(p: *const c_char) -> Code;
    fn ursa_bls_generator_new(o: Out) -> Code;
    fn ursa_bls_generator_free(p: P) -> Code;
    fn ursa_bls_sign_key_new(b: *const u8, n: usize, o: Out) -> Code;
    fn ursa_bls_sign_key_free(p: P) -> Code;
    fn ursa_bls_ver_key_new(g: P, k: P, o: Out) -> Code;
    fn ursa_bls_ver_key_free(p: P) -> Code;
    fn ursa_bls_sign(m: *const u8, n: usize, k: P, o: Out) -> Code;
    fn ursa_bls_signature_free(p: P) -> Code;
    fn ursa_bls_verify(s: P, m: *const u8, n: usize, v: P, g: P, o: *mut bool) -> Code;
}

// ------------------------------------------------------------------ threads

#[derive(Clone, Copy, Debug)]
enum Op {
    /// a failing call whose details name the number
    Fail(usize),
    Good,
    /// read the details; `true`: through the pointer read before
    Read(bool),
}
fn step(op: Op, last: &mut *const c_char) -> Result<Option<String>, String> {
    let text = |p: *const c_char| if p.is_null() { Ok(None) } else { unsafe { CStr::from_ptr(p) }.to_str().map(|s| Some(s.to_string())).map_err(|_| "error details are not UTF-8".to_string()) };
    unsafe {
        match op {
            Op::Fail(n) => {
                let s = std::ffi::CString::new(format!("{}?", " ".repeat(n))).unwrap();
                let mut o = SENT;
                let c = ursa_cl_nonce_from_json(s.as_ptr(), &mut o);
                *last = ptr::null();
                if c == 0 { Err("invalid JSON is read as a nonce".into()) } else { Ok(None) }
            }
            Op::Good => {
                let mut o = SENT;
                let c = ursa_cl_nonce_from_json(b"\"77\"\0".as_ptr() as *const c_char, &mut o);
                if c != 0 {
                    return Err(format!("reading a nonce fails with {}", c));
                }
                ursa_cl_nonce_free(o);
                Ok(None)
            }
            Op::Read(again) => {
                if !(again && !last.is_null()) {
                    ursa_get_current_error(last);
                }
                text(*last)
            }
        }
    }
}
fn threads(g: &mut G) -> R {
    POISON.store(true, Ordering::Relaxed);
    let k = g.range(2, 4);
    let mut to = vec![];
    let mut from = vec![];
    let mut joins = vec![];
    for _ in 0..k {
        let (a, b) = channel::<Op>();
        let (c, d) = channel();
        to.push(a);
        from.push(d);
        joins.push(std::thread::spawn(move || {
            let mut last: *const c_char = ptr::null();
            for op in b {
                if c.send(step(op, &mut last)).is_err() {
                    break;
                }
            }
        }));
    }
    let mut model: Vec<Option<usize>> = vec![None; k];
    let mut used = std::collections::HashSet::new();
    let mut shown = vec![];
    let r = (|| {
        for _ in 0..g.range(4, 40) {
            let t = g.below(k);
            let op = match g.below(5) {
                0 | 1 => Op::Fail(g.below(300)),
                2 => Op::Good,
                x => Op::Read(x == 3),
            };
            shown.push(format!("{}:{:?}", t, op));
            to[t].send(op).unwrap();
            let got = match from[t].recv() {
                Ok(x) => x,
                Err(_) => return fail("panic", format!("thread {} panics in {:?}", t, op)),
            };
            let got = match got {
                Ok(x) => x,
                Err(m) => return fail("threads", m),
            };
            g.eval();
            match op {
                Op::Fail(n) => {
                    model[t] = Some(n);
                    used.insert(t);
                }
                Op::Good => {}
                Op::Read(_) => match (model[t], got) {
                    (None, None) => {}
                    (Some(n), Some(s)) => {
                        let want = format!("column {}", n + 1);
                        ensure!(s.match_indices(&want).any(|(i, w)| !s[i + w.len()..].starts_with(|c: char| c.is_ascii_digit())), "thread-error", "thread {} reads {} as the details of its error at {}", t, s, want);
                    }
                    (m, s) => return fail("thread-error", format!("thread {} with the last error {:?} reads {:?}", t, m, s)),
                },
            }
        }
        Ok(())
    })();
    g.show(shown.join(", "));
    drop(to);
    for j in joins {
        let _ = j.join();
    }
    r?;
    if used.len() > 1 {
        g.nontrivial();
    }
    Ok(())
}
#[derive(Clone, Copy)]
struct Ptr(P);
unsafe impl Send for Ptr {}
unsafe impl Sync for Ptr {}
/// the same objects used by several threads at once
fn shared(g: &mut G) -> R {
    let seed = g.bytes_n(32);
    let msgs: Vec<Vec<u8>> = (0..3).map(|_| g.bytes(1, 40)).collect();
    let (mut gen, mut sk, mut vk) = (SENT, SENT, SENT);
    unsafe {
        ensure!(ursa_bls_generator_new(&mut gen) == 0 && ursa_bls_sign_key_new(seed.as_ptr(), 32, &mut sk) == 0 && ursa_bls_ver_key_new(gen, sk, &mut vk) == 0, "refuses", "no keys");
    }
    let k = 3;
    let (gen, sk, vk) = (Ptr(gen), Ptr(sk), Ptr(vk));
    let gate = Arc::new(Barrier::new(k));
    let joins: Vec<_> = (0..k)
        .map(|i| {
            let (gate, msgs) = (gate.clone(), msgs.clone());
            std::thread::spawn(move || {
                let (gen, sk, vk) = (gen, sk, vk);
                let (gen, sk, vk): (Ptr, Ptr, Ptr) = (gen, sk, vk);
                gate.wait();
                let mut bad = vec![];
                for m in &msgs {
                    let mut sig = SENT;
                    let c = unsafe { ursa_bls_sign(m.as_ptr(), m.len(), sk.0, &mut sig) };
                    if c != 0 {
                        bad.push(format!("signing fails with {}", c));
                        continue;
                    }
                    for n in &msgs {
                        let mut valid = m != n;
                        let c = unsafe { ursa_bls_verify(sig, n.as_ptr(), n.len(), vk.0, gen.0, &mut valid) };
                        if c != 0 || valid != (m == n) {
                            bad.push(format!("in thread {}, a signature of {} is {} for {} ({})", i, hex(m), valid, hex(n), c));
                        }
                    }
                    unsafe { ursa_bls_signature_free(sig) };
                }
                bad
            })
        })
        .collect();
    let mut bad = vec![];
    for j in joins {
        match j.join() {
            Ok(b) => bad.extend(b),
            Err(_) => bad.push("a thread panics".into()),
        }
    }
    unsafe {
        ursa_bls_generator_free(gen.0);
        ursa_bls_sign_key_free(sk.0);
        ursa_bls_ver_key_free(vk.0);
    }
    ensure!(bad.is_empty(), "shared", "{:?}", bad);
    g.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ logger

#[derive(Debug)]
struct Rec {
    level: u32,
    target: Option<String>,
    message: Option<String>,
    module: Option<String>,
    file: Option<String>,
    line: u32,
}
const CTX: P = 0x10c_7e70 as P;
static SET: Once = Once::new();
static FIRST: AtomicUsize = AtomicUsize::new(usize::MAX);
static NOT_NULL: AtomicUsize = AtomicUsize::new(0);
/// records of lower importance are not wanted, nor is one target
static LEVEL: AtomicU32 = AtomicU32::new(0);
static WRONG: AtomicUsize = AtomicUsize::new(0);
static FLUSHED: AtomicUsize = AtomicUsize::new(0);
static RECS: Mutex<Vec<Rec>> = Mutex::new(vec![]);
static UNWANTED: Mutex<String> = Mutex::new(String::new());

fn wanted(level: u32, target: &str) -> bool {
    level <= LEVEL.load(Ordering::SeqCst) && *UNWANTED.lock().unwrap() != target
}
fn text(p: *const c_char) -> Option<String> {
    if p.is_null() {
        None
    } else {
        unsafe { CStr::from_ptr(p) }.to_str().ok().map(|s| s.to_string())
    }
}
extern "C" fn on_enabled(c: P, level: u32, target: *const c_char) -> bool {
    if c != CTX {
        WRONG.fetch_add(1, Ordering::SeqCst);
    }
    text(target).map_or(false, |t| wanted(level, &t))
}
extern "C" fn on_log(c: P, level: u32, target: *const c_char, message: *const c_char, module: *const c_char, file: *const c_char, line: u32) {
    if c != CTX {
        WRONG.fetch_add(1, Ordering::SeqCst);
    }
    RECS.lock().unwrap().push(Rec { level, target: text(target), message: text(message), module: text(module), file: text(file), line });
}
extern "C" fn on_flush(c: P) {
    if c != CTX {
        WRONG.fetch_add(1, Ordering::SeqCst);
    }
    FLUSHED.fetch_add(1, Ordering::SeqCst);
}
/// the logger is one per process: one case at a time
static ONE: Mutex<()> = Mutex::new(());
fn logger(g: &mut G) -> R {
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    POISON.store(true, Ordering::Relaxed);
    SET.call_once(|| {
        let mut nn = 0;
        unsafe {
            if ursa_set_logger(CTX, Some(on_enabled), None, Some(on_flush)) != 0 {
                nn = 1;
            }
            FIRST.store(ursa_set_logger(CTX, Some(on_enabled), Some(on_log), Some(on_flush)), Ordering::SeqCst);
        }
        NOT_NULL.store(nn, Ordering::SeqCst);
    });
    ensure!(NOT_NULL.load(Ordering::SeqCst) == 1, "logger", "a logger without a log function is accepted");
    ensure!(FIRST.load(Ordering::SeqCst) == 0, "logger", "setting a logger fails with {}", FIRST.load(Ordering::SeqCst));
    let level = g.draw(5) as u32;
    let max = [log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Debug, log::LevelFilter::Trace, log::LevelFilter::Trace][g.below(5)];
    let targets = ["", "ursa::ffi::bls", "ursa::bls", "ursa::ffi::cl", "mine", "ursa::errors"];
    let un = *g.pick(&targets);
    LEVEL.store(level, Ordering::SeqCst);
    *UNWANTED.lock().unwrap() = un.to_string();
    RECS.lock().unwrap().clear();
    let flushed = FLUSHED.load(Ordering::SeqCst);
    g.show(format!("level {}, without {:?}, at most {:?}", level, un, max));
    // own records, whose fate is known, among those of the library
    let mut want = vec![];
    let mut flushes = 0;
    let seed = g.bytes_n(32);
    let (mut gen, mut sk, mut vk) = (SENT, SENT, SENT);
    log::set_max_level(max);
    let mut refused_again = true;
    for i in 0..g.range(3, 12) {
        match g.below(6) {
            0 => {
                let l = [log::Level::Error, log::Level::Warn, log::Level::Info, log::Level::Debug, log::Level::Trace][g.below(5)];
                let t = *g.pick(&targets[1..]);
                log::log!(target: t, l, "own {}", i);
                if l <= max && wanted(l as u32, t) {
                    want.push((l as u32, t, format!("own {}", i)));
                }
            }
            1 => {
                log::logger().flush();
                flushes += 1;
            }
            2 => unsafe {
                let mut o = SENT;
                ursa_cl_nonce_from_json(b"?\0".as_ptr() as *const c_char, &mut o);
            },
            3 => unsafe {
                refused_again &= ursa_set_logger(CTX, None, Some(on_log), None) != 0;
                log::set_max_level(max);
            },
            4 => unsafe {
                refused_again &= ursa_set_default_logger(b"off\0".as_ptr() as *const c_char) != 0;
                log::set_max_level(max);
            },
            _ => unsafe {
                if gen == SENT {
                    ursa_bls_generator_new(&mut gen);
                } else if sk == SENT {
                    ursa_bls_sign_key_new(seed.as_ptr(), 32, &mut sk);
                } else if vk == SENT {
                    ursa_bls_ver_key_new(gen, sk, &mut vk);
                }
            },
        }
    }
    log::set_max_level(log::LevelFilter::Off);
    unsafe {
        for (p, f) in [(gen, ursa_bls_generator_free as unsafe extern "C" fn(P) -> Code), (sk, ursa_bls_sign_key_free), (vk, ursa_bls_ver_key_free)].iter() {
            if *p != SENT {
                f(*p);
            }
        }
    }
    let recs = std::mem::replace(&mut *RECS.lock().unwrap(), vec![]);
    ensure!(refused_again, "logger", "a second logger replaces the first");
    ensure!(WRONG.load(Ordering::SeqCst) == 0, "logger-context", "a handler is called with another context");
    ensure!(FLUSHED.load(Ordering::SeqCst) == flushed + flushes, "logger-flush", "{} flushes instead of {}", FLUSHED.load(Ordering::SeqCst) - flushed, flushes);
    for r in &recs {
        g.eval();
        let ok = r.level >= 1 && r.level <= 5 && r.target.is_some() && r.message.is_some() && r.module.is_some() && r.file.is_some() && r.line > 0;
        ensure!(ok, "logger-record", "a record is {:?}", r);
        ensure!(r.level <= max as u32, "logger-level", "a record of level {} is logged while the maximum is {:?}", r.level, max);
        ensure!(wanted(r.level, r.target.as_ref().unwrap()), "logger-enabled", "the record {:?} is logged although the enabled handler says no", r);
    }
    let own: Vec<_> = recs.iter().filter(|r| r.message.as_ref().unwrap().starts_with("own ")).map(|r| (r.level, r.target.clone().unwrap(), r.message.clone().unwrap())).collect();
    ensure!(own.len() == want.len() && own.iter().zip(&want).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && a.2 == b.2), "logger-order", "{:?} are logged instead of {:?}", own, want);
    if level == 5 && max == log::LevelFilter::Trace && un != "ursa::ffi::bls" && gen != SENT {
        ensure!(recs.len() > own.len(), "logger-silent", "the library logs nothing");
    }
    if level > 0 {
        g.nontrivial();
    }
    Ok(())
}
pub fn subs() -> Vec<Sub> {
    vec![sub("threads", 60, 2000, 200, threads), sub("shared", 8, 200, 10, shared), sub("logger", 60, 1000, 100, logger)]
}
