//! A small choice-tape property-testing engine (in the style of Hypothesis):
//! every random choice a case makes is a bounded draw recorded on a tape; a failure is shrunk by
//! shortening and lowering the tape and re-running the generator on it, and the tape is the replay.
//! No dependency, so that it never constrains the versions of the crates under test.

pub mod mem;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

// ------------------------------------------------------------------ random source

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn hash64(parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in p.iter() {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut x = h;
    splitmix(&mut x)
}

// ------------------------------------------------------------------ generator handle

/// The handle a case draws its choices from.
pub struct G {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pub tape: Vec<u64>,
    spans: Vec<(usize, usize)>,
    /// 0..=100, grows over a run
    pub size: u64,
    pub labels: Vec<String>,
    pub shown: Vec<String>,
    nontrivial: bool,
    /// how many oracle evaluations the case made (at least 1 per case)
    pub evals: u64,
    /// KNOWN-FINDING signatures that this case confirmed
    pub known: Vec<(String, String)>,
    is_known: fn(&str) -> bool,
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !($c) {
            return Err($crate::Fail { sig: $sig.to_string(), msg: format!($($arg)*) });
        }
    };
}

impl G {
    fn fresh(seed: u64, size: u64, is_known: fn(&str) -> bool) -> Self {
        G { rng: Rng::new(seed), replay: None, tape: vec![], spans: vec![], size, labels: vec![], shown: vec![], nontrivial: false, evals: 0, known: vec![], is_known }
    }
    fn from_tape(tape: Vec<u64>, is_known: fn(&str) -> bool) -> Self {
        let mut g = G::fresh(0, 50, is_known);
        if !tape.is_empty() {
            g.size = tape[0].min(100);
        }
        g.replay = Some(tape);
        g
    }
    /// A generator apart from the case's own, for fixtures
    pub fn seeded(seed: u64) -> Self {
        G::fresh(seed, 50, |_| false)
    }
    /// Uniform in 0..=max
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &self.replay {
            Some(t) => {
                let v = t.get(self.tape.len()).cloned().unwrap_or(0);
                if v > max {
                    if max == u64::MAX { v } else { v % (max + 1) }
                } else {
                    v
                }
            }
            None => {
                if max == u64::MAX {
                    self.rng.next()
                } else {
                    let n = max + 1;
                    ((self.rng.next() as u128 * n as u128) >> 64) as u64
                }
            }
        };
        assert!(self.tape.len() < 4_000_000, "a generator draws without end");
        self.tape.push(v);
        v
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.draw(n as u64 - 1) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo) as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(u64::MAX)
    }
    pub fn bool(&mut self) -> bool {
        self.draw(1) == 1
    }
    /// true with probability n/d (shrinks to false)
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.draw(d - 1) >= d - n
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn span<T>(&mut self, f: impl FnOnce(&mut G) -> T) -> T {
        let s = self.tape.len();
        let r = f(self);
        let e = self.tape.len();
        self.spans.push((s, e));
        r
    }
    /// exactly n bytes
    pub fn bytes_n(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            let k = n - v.len();
            let x = if k >= 8 { self.u64() } else { self.draw((1u64 << (8 * k)) - 1) };
            v.extend_from_slice(&x.to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// A length in lo..=hi biased to small values and to block-size edges.
    pub fn len(&mut self, lo: usize, hi: usize) -> usize {
        const EDGES: [usize; 18] = [0, 1, 7, 8, 11, 12, 13, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65];
        match self.draw(3) {
            0 => self.range(lo, hi.min(lo + 4)),
            1 => (*self.pick(&EDGES)).max(lo).min(hi),
            2 => self.range(lo, hi.min(lo + 80)),
            _ => self.range(lo, hi),
        }
    }
    pub fn bytes(&mut self, lo: usize, hi: usize) -> Vec<u8> {
        let n = self.len(lo, hi);
        self.span(|g| match g.draw(9) {
            0 => vec![0u8; n],
            1 => vec![0xffu8; n],
            2 => {
                let b = g.draw(255) as u8;
                vec![b; n]
            }
            _ => g.bytes_n(n),
        })
    }
    /// many bytes, expanded from a few draws
    pub fn big(&mut self, lo: usize, hi: usize) -> Vec<u8> {
        let n = if self.bool() { self.range(lo, hi) } else { (1usize << 16).wrapping_add(self.below(34)).wrapping_sub(17).max(lo).min(hi) };
        let mut x = self.draw(u64::max_value() - 1) | 1;
        (0..n)
            .map(|_| {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                (x >> 32) as u8
            })
            .collect()
    }
    /// n bytes for keys/seeds: mostly random, sometimes degenerate
    pub fn key(&mut self, n: usize) -> Vec<u8> {
        self.span(|g| match g.draw(19) {
            1 => vec![0xffu8; n],
            2 => {
                let mut v = vec![0u8; n];
                v[n - 1] = 1;
                v
            }
            3 => {
                let mut v = vec![0u8; n];
                v[0] = 1;
                v
            }
            _ => g.bytes_n(n),
        })
    }
    pub fn string(&mut self, max: usize) -> String {
        let n = self.len(0, max);
        const CH: &[char] = &['a', 'b', 'z', 'A', '0', '9', '_', '-', ' ', '"', '\\', '/', 'é', '漢', '\u{1F600}', '\n', '.', ':'];
        self.span(|g| (0..n).map(|_| *g.pick(CH)).collect())
    }
    pub fn ident(&mut self, max: usize) -> String {
        let n = self.range(1, max);
        const CH: &[u8] = b"abcdefghijklmnopqrstuvwxyz_0123456789";
        self.span(|g| (0..n).map(|i| CH[if i == 0 { g.below(26) } else { g.below(CH.len()) }] as char).collect())
    }
    pub fn i32_edge(&mut self) -> i32 {
        const E: [i32; 14] = [0, 1, -1, 2, 18, 100, -100, 65535, 1 << 30, i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1, -65536];
        if self.bool() { *self.pick(&E) } else { self.draw(u32::MAX as u64) as u32 as i32 }
    }
    /// a random permutation-based subset of 0..n with k elements, sorted
    pub fn subset_k(&mut self, n: usize, k: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..k {
            let j = i + self.below(n - i);
            v.swap(i, j);
        }
        v.truncate(k);
        v.sort();
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        let n = v.len();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below(n - i);
            v.swap(i, j);
        }
    }
    /// each of 0..n with probability 1/2
    pub fn subset(&mut self, n: usize) -> Vec<usize> {
        (0..n).filter(|_| self.bool()).collect()
    }
    /// a list with lo..=hi elements; each element is a span, so shrinking can drop it
    pub fn vec<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let want = self.range(lo, hi);
        let mut v = vec![];
        while v.len() < want {
            let s = self.tape.len();
            if v.len() >= lo && self.draw(15) == 15 {
                break;
            }
            v.push(f(self));
            let e = self.tape.len();
            self.spans.push((s, e));
        }
        v
    }
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn show(&mut self, s: impl Into<String>) {
        if self.shown.len() < 40 {
            let mut s = s.into();
            if s.len() > 400 {
                let mut k = 400;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.shown.push(s);
        }
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// Records that the behaviour with this signature occurred: a listed known finding is noted and
    /// the case goes on; an unlisted one is a failure.
    pub fn finding(&mut self, sig: &str, msg: impl Into<String>) -> R {
        let msg = msg.into();
        if (self.is_known)(sig) {
            self.known.push((sig.to_string(), msg));
            Ok(())
        } else {
            fail(sig, msg)
        }
    }
}

/// Runs f; Err(message) if it panicked. For "never panics" oracles and to give panics a place.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

// ------------------------------------------------------------------ checks and runner

pub struct Sub {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    /// rough maximum number of executions spent on shrinking
    pub shrink: usize,
    pub threads: usize,
    pub f: Box<dyn Fn(&mut G) -> R + Send + Sync>,
}

pub fn sub(name: &'static str, quick: usize, thorough: usize, shrink: usize, f: impl Fn(&mut G) -> R + Send + Sync + 'static) -> Sub {
    Sub { name, quick, thorough, shrink, threads: 8, f: Box::new(f) }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<Sub>,
}

#[derive(Clone)]
struct Failure {
    sub: String,
    idx: usize,
    fail: Fail,
    tape: Vec<u64>,
    shown: Vec<String>,
    shrinks: usize,
}

#[derive(Default)]
struct Stats {
    executed: usize,
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, String>,
}

fn exec(sub: &Sub, g: &mut G) -> R {
    match catch_unwind(AssertUnwindSafe(|| (sub.f)(g))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            fail("panic", format!("unexpected panic: {}", m))
        }
    }
}

fn is_known(sig: &str) -> bool {
    KNOWN.lock().unwrap().iter().any(|k| k.1 == sig)
}

static KNOWN: Mutex<Vec<(String, String, String)>> = Mutex::new(Vec::new());

/// What is being executed since when: (sub, case) per worker thread; 255 stands for shrinking
static RUNNING: Mutex<BTreeMap<usize, (String, usize, Instant)>> = Mutex::new(BTreeMap::new());
/// The failure that is being shrunk
static SHRINKING: Mutex<Option<Failure>> = Mutex::new(None);

/// Cases take milliseconds up to a few seconds. One that does not end is a failure of its own.
fn watchdog(prop: &'static str, seed: u64, thorough: bool) {
    let limit = std::env::var("VERIF_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600u64 } else { 200 });
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let hung = RUNNING.lock().unwrap().iter().find(|(_, r)| r.2.elapsed().as_secs() > limit).map(|(t, r)| (*t, r.clone()));
        if let Some((t, (sub, idx, _))) = hung {
            let f = match SHRINKING.lock().unwrap().clone() {
                Some(f) if t == 255 => f,
                _ => Failure {
                    sub,
                    idx,
                    fail: Fail { sig: "hang".into(), msg: format!("this case did not end within {} s", limit) },
                    tape: vec![],
                    shown: vec![],
                    shrinks: 0,
                },
            };
            report(prop, &f, seed);
            std::process::exit(1);
        }
    });
}

fn start_g(seed: u64, size: u64) -> G {
    let mut g = G::fresh(seed, size, is_known);
    // the first choice on the tape is the size, so that a tape replays on its own
    g.tape.push(size);
    g
}

fn case_seed(seed: u64, prop: &str, sub: &str, i: usize) -> u64 {
    hash64(&[&seed.to_le_bytes(), prop.as_bytes(), sub.as_bytes(), &(i as u64).to_le_bytes()])
}
fn case_size(i: usize, cases: usize) -> u64 {
    if cases <= 1 {
        50
    } else {
        1 + (99 * i / (cases - 1)) as u64
    }
}

fn tape_g(tape: Vec<u64>) -> G {
    let mut g = G::from_tape(tape, is_known);
    let s = g.size;
    g.tape.push(s);
    g
}

fn shrink(sub: &Sub, first: Failure) -> Failure {
    let mut best = first;
    let mut budget = sub.shrink;
    let sig = best.fail.sig.clone();
    let mut spans: Vec<(usize, usize)> = vec![];
    let mut attempts = 0usize;
    // returns Some(new spans) if the candidate still fails with the same signature
    let mut try_tape = |cand: Vec<u64>, budget: &mut usize, best: &mut Failure, spans: &mut Vec<(usize, usize)>| -> bool {
        if *budget == 0 || cand == best.tape {
            return false;
        }
        *budget -= 1;
        attempts += 1;
        let mut g = tape_g(cand);
        if let Err(f) = exec(sub, &mut g) {
            if f.sig == sig && (g.tape.len() < best.tape.len() || (g.tape.len() == best.tape.len() && g.tape < best.tape)) {
                best.fail = f;
                best.tape = g.tape;
                best.shown = g.shown;
                *spans = g.spans;
                return true;
            }
        }
        false
    };
    {
        // obtain the spans (and check that it fails again)
        let mut g = tape_g(best.tape.clone());
        if budget > 0 {
            let _ = exec(sub, &mut g);
        }
        spans.extend(g.spans);
    }
    loop {
        let before = best.tape.clone();
        // delete spans, longest first
        let mut i = 0;
        loop {
            let mut ss = spans.clone();
            ss.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
            if i >= ss.len() || budget == 0 {
                break;
            }
            let (s, e) = ss[i];
            if e <= best.tape.len() && s < e {
                let mut c = best.tape.clone();
                c.drain(s..e);
                if try_tape(c, &mut budget, &mut best, &mut spans) {
                    continue;
                }
            }
            i += 1;
        }
        // delete chunks / zero chunks
        for &k in &[16usize, 8, 4, 2, 1] {
            let mut p = 1;
            while p < best.tape.len() && budget > 0 {
                let e = (p + k).min(best.tape.len());
                let mut c = best.tape.clone();
                c.drain(p..e);
                if try_tape(c, &mut budget, &mut best, &mut spans) {
                    continue;
                }
                if best.tape[p..e].iter().any(|x| *x != 0) {
                    let mut c = best.tape.clone();
                    for x in &mut c[p..e] {
                        *x = 0;
                    }
                    try_tape(c, &mut budget, &mut best, &mut spans);
                }
                p += k;
            }
        }
        // lower single choices
        let mut p = 1;
        while p < best.tape.len() && budget > 0 {
            let v = best.tape[p];
            if v > 0 {
                let (mut lo, mut hi) = (0u64, v); // hi fails
                let mut steps = 0;
                while lo < hi && steps < 12 && budget > 0 && p < best.tape.len() {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.tape.clone();
                    c[p] = mid;
                    if try_tape(c, &mut budget, &mut best, &mut spans) {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                    steps += 1;
                }
            }
            p += 1;
        }
        if best.tape == before || budget == 0 {
            break;
        }
    }
    best.shrinks = attempts;
    best
}

fn run_sub(prop: &Prop, si: usize, seed: u64, cases: usize, inflight: Option<&std::fs::File>, only: Option<usize>) -> (Stats, Option<Failure>) {
    let sub = &prop.subs[si];
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let stats = Mutex::new(Stats::default());
    let fails: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let threads = if only.is_some() { 1 } else { sub.threads.min(cases.max(1)) };
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, stop, stats, fails) = (&next, &stop, &stats, &fails);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || loop {
                    let mut i = next.fetch_add(1, Ordering::SeqCst);
                    if let Some(o) = only {
                        if i > 0 {
                            break;
                        }
                        i = o;
                    }
                    if i >= cases || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    if let Some(f) = inflight {
                        let rec = format!("{:>8} {:>12} .", si, i);
                        let mut b = vec![b' '; 32];
                        b[..rec.len()].copy_from_slice(rec.as_bytes());
                        let _ = f.write_all_at(&b, 32 * t as u64);
                    }
                    let mut g = start_g(case_seed(seed, prop.id, sub.name, i), case_size(i, cases));
                    RUNNING.lock().unwrap().insert(t, (sub.name.to_string(), i, Instant::now()));
                    let r = exec(sub, &mut g);
                    RUNNING.lock().unwrap().remove(&t);
                    let mut st = stats.lock().unwrap();
                    st.executed += 1;
                    st.evals += g.evals.max(1);
                    for l in &g.labels {
                        *st.labels.entry(l.clone()).or_insert(0) += 1;
                    }
                    if g.nontrivial {
                        let mut b = Vec::with_capacity(g.tape.len() * 8);
                        for x in &g.tape[1..] {
                            b.extend_from_slice(&x.to_le_bytes());
                        }
                        st.nontrivial.insert(hash64(&[&b]));
                        if st.samples.len() < 3 && !g.shown.is_empty() && (i % 7 == 3 || cases < 20) {
                            st.samples.push(format!("{}#{}: {}", sub.name, i, g.shown.join("; ")));
                        }
                    }
                    for (k, m) in g.known.drain(..) {
                        st.known.entry(k).or_insert(m);
                    }
                    drop(st);
                    if let Err(f) = r {
                        fails.lock().unwrap().push(Failure { sub: sub.name.to_string(), idx: i, fail: f, tape: g.tape, shown: g.shown, shrinks: 0 });
                        stop.store(true, Ordering::SeqCst);
                    }
                })
                .unwrap();
        }
    });
    let mut fl = fails.into_inner().unwrap();
    fl.sort_by_key(|f| f.idx);
    let fl = fl.into_iter().next();
    (stats.into_inner().unwrap(), fl)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn load_known(prop: &str) {
    let p = root().join("KNOWN_FINDINGS.txt");
    let mut v = KNOWN.lock().unwrap();
    if let Ok(s) = std::fs::read_to_string(p) {
        for l in s.lines() {
            // finding: property=C17 sig=<signature> <text>
            if let Some(rest) = l.strip_prefix("finding: property=") {
                let mut it = rest.splitn(3, ' ');
                let (p, sig, text) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if p == prop {
                    if let Some(sig) = sig.strip_prefix("sig=") {
                        v.push((p.to_string(), sig.to_string(), text.to_string()));
                    }
                }
            }
        }
    }
}

/// A message short enough to print: its inputs can be numbers of thousands of digits.
fn brief(msg: &str) -> String {
    if msg.chars().count() <= 1200 {
        return msg.to_string();
    }
    let mut s: String = msg.chars().take(1200).collect();
    s.push_str("...");
    s
}

fn write_replay(prop: &str, f: &Failure, seed: u64) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.txt", prop, f.sub));
    let mut s = String::new();
    let _ = writeln!(s, "property={}", prop);
    let _ = writeln!(s, "sub={}", f.sub);
    let _ = writeln!(s, "seed={}", seed);
    let _ = writeln!(s, "case={}", f.idx);
    let _ = writeln!(s, "signature={}", f.fail.sig);
    let _ = writeln!(s, "tape={}", f.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let _ = writeln!(s, "# {}", brief(&f.fail.msg).replace('\n', "\n# "));
    for l in &f.shown {
        let _ = writeln!(s, "# input: {}", l.replace('\n', "\n# "));
    }
    let _ = writeln!(s, "# shrinking executions: {}", f.shrinks);
    let _ = writeln!(s, "# replay with: bash run.sh {} --replay {}", prop, path.display());
    let _ = std::fs::write(&path, s);
    path
}

fn report(prop: &str, f: &Failure, seed: u64) {
    let path = write_replay(prop, f, seed);
    println!("FAILED {}::{} case {} [{}]: {}", prop, f.sub, f.idx, f.fail.sig, brief(&f.fail.msg));
    for l in &f.shown {
        println!("    input: {}", l);
    }
    println!("VIOLATION property={} replay={}", prop, path.display());
}

/// Entry point of a harness binary: `<bin> <property> [--replay FILE | --one SUB IDX]`
pub fn main_with(props: Vec<Prop>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let prop = match props.into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property in this harness: {}", id);
            std::process::exit(2);
        }
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let filter = std::env::var("VERIF_SUB").ok();
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
    }));
    load_known(prop.id);

    if args.get(2).map(|s| s.as_str()) == Some("--replay") {
        let text = std::fs::read_to_string(&args[3]).expect("replay file");
        let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|x| x.to_string())).unwrap_or_default();
        let name = get("sub");
        let seed_of_run: u64 = get("seed").parse().unwrap_or(1);
        let case: usize = get("case").parse().unwrap_or(0);
        let tape: Vec<u64> = get("tape").split(',').filter_map(|x| x.parse().ok()).collect();
        let si = prop.subs.iter().position(|s| s.name == name).expect("sub");
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut g = if tape.is_empty() {
                // the process did not survive the case: generate it again
                let n = if thorough { prop.subs[si].thorough } else { prop.subs[si].quick };
                start_g(case_seed(seed_of_run, prop.id, &name, case), case_size(case, n))
            } else {
                tape_g(tape)
            };
            let r = exec(&prop.subs[si], &mut g);
            for l in &g.shown {
                println!("    input: {}", l);
            }
            match r {
                Err(f) => {
                    println!("FAILED {}::{} [{}]: {}", prop.id, name, f.sig, brief(&f.msg));
                    println!("VIOLATION property={} replay={}", prop.id, args[3]);
                    1
                }
                Ok(()) => {
                    println!("the replayed case passes");
                    0
                }
            }
        });
        std::process::exit(h.unwrap().join().unwrap());
    }

    let inflight_path = std::env::temp_dir().join(format!("pbt-inflight-{}-{}", prop.id, std::process::id()));
    if std::env::var("PBT_CHILD").is_err() {
        // parent: run everything in a child, so that a crash of the code under test is a finding
        // about a case, not the end of the check
        let exe = std::env::current_exe().unwrap();
        let st = std::process::Command::new(&exe).args(&args[1..]).env("PBT_CHILD", &inflight_path).status();
        let st = match st {
            Ok(s) => s,
            Err(e) => {
                eprintln!("cannot start child: {}", e);
                std::process::exit(2);
            }
        };
        let rec = std::fs::read_to_string(&inflight_path).unwrap_or_default();
        let _ = std::fs::remove_file(&inflight_path);
        if let Some(c) = st.code() {
            std::process::exit(if c == 0 || c == 1 { c } else { 2 });
        }
        let sig = st.signal().unwrap_or(0);
        println!("the harness process died on signal {}", sig);
        if sig == 9 || sig == 15 {
            std::process::exit(2);
        }
        // which of the cases in flight crashes on its own?
        let toks: Vec<&str> = rec.split('.').collect();
        for t in toks {
            let p: Vec<usize> = t.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            if p.len() != 2 {
                continue;
            }
            let one = std::process::Command::new(&exe)
                .args(&[prop.id, "--one", &p[0].to_string(), &p[1].to_string()])
                .env("PBT_CHILD", &inflight_path)
                .output();
            let _ = std::fs::remove_file(&inflight_path);
            if let Ok(o) = one {
                if let Some(s) = o.status.signal() {
                    if s == 9 || s == 15 {
                        std::process::exit(2);
                    }
                    let f = Failure {
                        sub: prop.subs[p[0]].name.to_string(),
                        idx: p[1],
                        fail: Fail { sig: format!("crash-signal-{}", s), msg: format!("the process is killed by signal {} in this case: {}", s, String::from_utf8_lossy(&o.stderr).lines().last().unwrap_or("")) },
                        tape: vec![],
                        shown: vec![format!("re-run with: {} --one {} {}", prop.id, p[0], p[1])],
                        shrinks: 0,
                    };
                    report(prop.id, &f, seed);
                    std::process::exit(1);
                }
            }
        }
        let f = Failure {
            sub: "crash".into(),
            idx: 0,
            fail: Fail { sig: format!("crash-signal-{}", sig), msg: format!("the process was killed by signal {}; cases in flight: {}", sig, rec) },
            tape: vec![],
            shown: vec![],
            shrinks: 0,
        };
        report(prop.id, &f, seed);
        std::process::exit(1);
    }

    let inflight = std::fs::File::create(std::env::var("PBT_CHILD").unwrap()).ok();
    if args.get(2).map(|s| s.as_str()) == Some("--one") {
        let si: usize = args[3].parse().unwrap();
        let idx: usize = args[4].parse().unwrap();
        let n = if thorough { prop.subs[si].thorough } else { prop.subs[si].quick };
        let (_, f) = run_sub(&prop, si, seed, n, None, Some(idx));
        std::process::exit(if f.is_some() { 1 } else { 0 });
    }
    watchdog(prop.id, seed, thorough);
    let t0 = Instant::now();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let mut evals = 0u64;
    let mut distinct = 0usize;
    let mut samples: Vec<String> = vec![];
    let mut detail: Vec<String> = vec![];
    let mut known: BTreeMap<String, String> = BTreeMap::new();
    let mut violations = 0;
    for si in 0..prop.subs.len() {
        let s = &prop.subs[si];
        if let Some(f) = &filter {
            if !s.name.contains(f.as_str()) {
                continue;
            }
        }
        let n = (((if thorough { s.thorough } else { s.quick }) as f64) * scale).ceil() as usize;
        let ts = Instant::now();
        let (st, f) = run_sub(&prop, si, seed, n, inflight.as_ref(), None);
        evals += st.evals;
        distinct += st.nontrivial.len();
        samples.extend(st.samples.iter().cloned());
        let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        detail.push(format!(
            "{}: {{\"cases\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"seconds\": {:.2}, \"classes\": {{{}}}}}",
            js(s.name), st.executed, st.evals, st.nontrivial.len(), ts.elapsed().as_secs_f64(), labels.join(", ")
        ));
        println!("{}::{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1}s", prop.id, s.name, st.executed, st.evals, st.nontrivial.len(), ts.elapsed().as_secs_f64());
        if std::env::var("VERIF_VERBOSE").is_ok() {
            for (k, v) in &st.labels {
                println!("      {:>8} {}", v, k);
            }
        }
        for (k, m) in st.known {
            known.entry(k).or_insert(m);
        }
        if let Some(f) = f {
            violations += 1;
            RUNNING.lock().unwrap().insert(255, (s.name.to_string(), f.idx, Instant::now()));
            *SHRINKING.lock().unwrap() = Some(f.clone());
            let f = std::thread::scope(|sc| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || shrink(s, f)).unwrap().join().unwrap());
            RUNNING.lock().unwrap().remove(&255);
            report(prop.id, &f, seed);
            if violations >= 3 {
                break;
            }
        }
        let _ = std::io::stdout().flush();
    }
    for (_, sig, text) in KNOWN.lock().unwrap().iter() {
        if known.contains_key(sig) {
            println!("KNOWN-FINDING: property={} {} [{}]", prop.id, text, sig);
        }
    }
    if samples.is_empty() {
        samples.push("(no sample)".into());
    }
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [\n      {}\n    ],\n    \"subchecks\": {{\n      {}\n    }},\n    \"known_findings_seen\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        js(prop.id),
        js(if thorough { "thorough" } else { "quick" }),
        seed as i64,
        evals,
        distinct,
        js(prop.rule),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n      "),
        detail.join(",\n      "),
        known.keys().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        prop.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        violations
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = dir.join(format!(".{}.tmp", prop.id));
    if std::fs::write(&tmp, ev).and_then(|_| std::fs::rename(&tmp, dir.join(format!("{}.json", prop.id)))).is_err() {
        eprintln!("cannot write evidence");
        std::process::exit(2);
    }
    std::process::exit(if violations > 0 { 1 } else { 0 });
}

thread_local!(static LARGE: std::cell::Cell<bool> = std::cell::Cell::new(false));
/// Runs a check with sizes beyond the usual ones: more elements than a byte can count
pub fn large(g: &mut G, f: fn(&mut G) -> R) -> R {
    LARGE.with(|l| l.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(g)));
    LARGE.with(|l| l.set(false));
    r.unwrap_or_else(|p| std::panic::resume_unwind(p))
}
pub fn is_large() -> bool {
    LARGE.with(|l| l.get())
}
