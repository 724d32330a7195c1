//! N01: both big-integer backends against each other and against plain integers
use num_bigint::{BigInt, BigUint, Sign};
use pbt::*;
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Num(BigInt),
    Bool(bool),
    Int(i64),
    Bytes(Vec<u8>),
    Text(String),
    Ord(Ordering),
    Nope,
}
use Out::*;

#[derive(Clone, Debug)]
pub struct Args {
    pub a: BigInt,
    pub b: BigInt,
    pub n: BigInt,
    pub w: u32,
    pub k: u32,
    pub ctx: bool,
    pub text: String,
    pub bytes: Vec<u8>,
    pub parts: Vec<Vec<u8>>,
    pub flag: bool,
    pub big: usize,
}

pub const OPS: &[&str] = &[
    "add", "sub", "mul", "sqr", "div", "gcd", "mod_mul", "mod_sub", "modulus", "mod_exp", "exp", "inverse", "mod_div", "add_word", "sub_word", "mul_word", "div_word", "increment",
    "decrement", "lshift1", "rshift1", "rshift", "num_bits", "is_bit_set", "set_bit", "cmp", "partial_cmp", "eq", "set_negative", "is_negative", "try_clone", "from_u32", "to_dec", "to_hex", "to_bytes", "from_dec",
    "from_hex", "from_bytes", "json", "from_json", "hash", "hash_array", "default",
];

macro_rules! backend {
    ($m:ident, $k:ident) => {
        pub mod $m {
            use super::*;
            use $k::bn::BigNumber as B;
            pub fn mk(x: &BigInt) -> B {
                let v = B::from_bytes(&x.to_bytes_be().1).unwrap();
                if x.sign() == Sign::Minus { v.set_negative(true).unwrap() } else { v }
            }
            pub fn un(x: &B) -> BigInt {
                let m = BigInt::from_bytes_be(Sign::Plus, &x.to_bytes().unwrap());
                if x.is_negative() { -m } else { m }
            }
            fn num<E>(r: Result<B, E>) -> Out {
                match r {
                    Ok(x) => Num(un(&x)),
                    Err(_) => Nope,
                }
            }
            pub fn run(op: &str, x: &Args) -> Out {
                let (a, b, n) = (mk(&x.a), mk(&x.b), mk(&x.n));
                let mut c = B::new_context().unwrap();
                let ctx = if x.ctx { Some(&mut c) } else { None };
                let mut d = mk(&x.a);
                let out = match op {
                    "add" => num(a.add(&b)),
                    "sub" => num(a.sub(&b)),
                    "mul" => num(a.mul(&b, ctx)),
                    "sqr" => num(a.sqr(ctx)),
                    "div" => num(a.div(&b, ctx)),
                    "gcd" => num(B::gcd(&a, &b, ctx)),
                    "mod_mul" => num(a.mod_mul(&b, &n, ctx)),
                    "mod_sub" => num(a.mod_sub(&b, &n, ctx)),
                    "modulus" => num(a.modulus(&n, ctx)),
                    "mod_exp" => num(a.mod_exp(&b, &n, ctx)),
                    "exp" => num(a.exp(&mk(&BigInt::from(x.k)), ctx)),
                    "inverse" => num(a.inverse(&n, ctx)),
                    "mod_div" => num(a.mod_div(&b, &n, ctx)),
                    "add_word" => num(d.add_word(x.w).map(|r| mk(&un(r)))),
                    "sub_word" => num(d.sub_word(x.w).map(|r| mk(&un(r)))),
                    "mul_word" => num(d.mul_word(x.w).map(|r| mk(&un(r)))),
                    "div_word" => num(d.div_word(x.w).map(|r| mk(&un(r)))),
                    "increment" => num(a.increment()),
                    "decrement" => num(a.decrement()),
                    "lshift1" => num(a.lshift1()),
                    "rshift1" => num(a.rshift1()),
                    "rshift" => num(a.rshift(x.k)),
                    "num_bits" => Int(a.num_bits().unwrap() as i64),
                    "is_bit_set" => Bool(a.is_bit_set(x.k as i32).unwrap()),
                    "set_bit" => num(d.set_bit(x.k as i32).map(|r| mk(&un(r)))),
                    "cmp" => Ord(a.cmp(&b)),
                    "partial_cmp" => match a.partial_cmp(&b) {
                        Some(o) => Ord(o),
                        None => Nope,
                    },
                    "eq" => Bool(a == b),
                    "set_negative" => num(a.set_negative(x.flag)),
                    "is_negative" => Bool(a.is_negative()),
                    "try_clone" => num(a.try_clone()),
                    "from_u32" => num(B::from_u32(x.big)),
                    "to_dec" => Text(a.to_dec().unwrap()),
                    "to_hex" => Text(a.to_hex().unwrap()),
                    "to_bytes" => Bytes(a.to_bytes().unwrap()),
                    "from_dec" => num(B::from_dec(&x.text)),
                    "from_hex" => num(B::from_hex(&x.text)),
                    "from_bytes" => num(B::from_bytes(&x.bytes)),
                    "json" => Text(serde_json::to_string(&a).unwrap()),
                    "from_json" => num(serde_json::from_str::<B>(&serde_json::to_string(&x.text).unwrap())),
                    "hash" => Bytes(B::hash(&x.bytes).unwrap()),
                    "hash_array" => Bytes(B::hash_array(&x.parts).unwrap()),
                    "default" => num::<()>(Ok(B::default())),
                    _ => unreachable!(),
                };
                // operands are never changed
                assert!(un(&a) == x.a && un(&b) == x.b && un(&n) == x.n, "an operand changed");
                out
            }
            pub fn is_prime(x: &BigInt, ctx: bool) -> bool {
                let mut c = B::new_context().unwrap();
                mk(x).is_prime(if ctx { Some(&mut c) } else { None }).unwrap()
            }
            pub fn is_safe_prime(x: &BigInt, ctx: bool) -> bool {
                let mut c = B::new_context().unwrap();
                mk(x).is_safe_prime(if ctx { Some(&mut c) } else { None }).unwrap()
            }
            pub fn gen(what: &str, size: usize, a: &BigInt, b: &BigInt) -> Option<BigInt> {
                (match what {
                    "prime" => B::generate_prime(size),
                    "safe" => B::generate_safe_prime(size),
                    "rand" => B::rand(size),
                    "rand_range" => mk(a).rand_range(),
                    "range" => B::generate_prime_in_range(&mk(a), &mk(b)),
                    "qr" => B::random_qr(&mk(a)),
                    _ => unreachable!(),
                })
                .ok()
                .map(|x| un(&x))
            }
        }
    };
}
backend!(native, ursa_native);
backend!(portable, ursa_portable);

fn zero() -> BigInt {
    BigInt::from(0)
}
fn abs(x: &BigInt) -> BigInt {
    BigInt::from_biguint(if x.sign() == Sign::NoSign { Sign::NoSign } else { Sign::Plus }, x.magnitude().clone())
}
fn fmod(a: &BigInt, n: &BigInt) -> BigInt {
    let n = abs(n);
    ((a % &n) + &n) % &n
}
fn gcd(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut a, mut b) = (abs(a), abs(b));
    while b != zero() {
        let r = &a % &b;
        a = std::mem::replace(&mut b, r);
    }
    a
}
/// by the definition: solves a*x = 1 with the extended Euclidean algorithm
fn inv(a: &BigInt, n: &BigInt) -> Option<BigInt> {
    let n = abs(n);
    if n <= BigInt::from(1) {
        return None;
    }
    let (mut r0, mut r1) = (n.clone(), fmod(a, &n));
    let (mut t0, mut t1) = (zero(), BigInt::from(1));
    while r1 != zero() {
        let q = &r0 / &r1;
        let r2 = &r0 - &q * &r1;
        r0 = std::mem::replace(&mut r1, r2);
        let t2 = &t0 - &q * &t1;
        t0 = std::mem::replace(&mut t1, t2);
    }
    if r0 != BigInt::from(1) {
        return None;
    }
    Some(fmod(&t0, &n))
}
/// square and multiply
fn pow_mod(a: &BigInt, e: &BigUint, n: &BigInt) -> BigInt {
    let mut r = fmod(&BigInt::from(1), n);
    for byte in e.to_bytes_be() {
        for i in (0..8).rev() {
            r = fmod(&(&r * &r), n);
            if (byte >> i) & 1 == 1 {
                r = fmod(&(&r * a), n);
            }
        }
    }
    r
}
fn bit(x: &BigInt, k: u32) -> bool {
    let b = x.magnitude().to_bytes_le();
    b.get(k as usize / 8).map_or(false, |y| (y >> (k % 8)) & 1 == 1)
}
fn p2(k: u32) -> BigInt {
    BigInt::from(1) << k as usize
}
fn hexs(x: &BigInt) -> String {
    if *x == zero() {
        return "0".into();
    }
    let s: String = x.magnitude().to_bytes_be().iter().map(|b| format!("{:02X}", b)).collect();
    if x.sign() == Sign::Minus {
        format!("-{}", s)
    } else {
        s
    }
}
/// decimal digits by repeated division
fn decs(x: &BigInt) -> String {
    let mut m = x.magnitude().clone();
    let ten9 = BigUint::from(1_000_000_000u32);
    let mut chunks: Vec<u32> = vec![];
    while m != BigUint::from(0u32) {
        let r = (&m % &ten9).to_u32_digits();
        chunks.push(r.get(0).cloned().unwrap_or(0));
        m = m / &ten9;
    }
    let mut s = match chunks.pop() {
        None => "0".to_string(),
        Some(c) => c.to_string(),
    };
    while let Some(c) = chunks.pop() {
        s.push_str(&format!("{:09}", c));
    }
    if x.sign() == Sign::Minus {
        s.insert(0, '-');
    }
    s
}
fn parse(t: &str, radix: u32) -> Option<BigInt> {
    let (neg, d) = if t.starts_with('-') { (true, &t[1..]) } else { (false, t) };
    if d.is_empty() {
        return None;
    }
    let mut v = zero();
    for c in d.chars() {
        v = v * radix + c.to_digit(radix)?;
    }
    Some(if neg { -v } else { v })
}

/// None: the operation is not defined there and nothing is required
fn want(op: &str, x: &Args) -> Option<Out> {
    use sha2::Digest;
    let (a, b, n) = (&x.a, &x.b, &x.n);
    let o = |v: Option<BigInt>| v.map_or(Nope, Num);
    Some(match op {
        "add" => Num(a + b),
        "sub" => Num(a - b),
        "mul" => Num(a * b),
        "sqr" => Num(a * a),
        "div" => {
            if *b == zero() {
                Nope
            } else {
                let q = abs(a) / abs(b);
                Num(if (a.sign() == Sign::Minus) != (b.sign() == Sign::Minus) { -q } else { q })
            }
        }
        "gcd" => Num(gcd(a, b)),
        "mod_mul" | "mod_sub" | "modulus" if *n == zero() => Nope,
        "mod_mul" => Num(fmod(&(a * b), n)),
        "mod_sub" => Num(fmod(&(a - b), n)),
        "modulus" => Num(fmod(a, n)),
        "mod_exp" => {
            if *n == zero() {
                return None;
            } else if b.sign() == Sign::Minus {
                if abs(n) == BigInt::from(1) {
                    return None;
                }
                o(inv(a, n).map(|i| pow_mod(&i, b.magnitude(), n)))
            } else {
                Num(pow_mod(a, b.magnitude(), n))
            }
        }
        "exp" => {
            let mut r = BigInt::from(1);
            for _ in 0..x.k {
                r = r * a;
            }
            Num(r)
        }
        "inverse" => o(inv(a, n)),
        "mod_div" => o(inv(b, n).map(|i| fmod(&(a * i), n))),
        "add_word" => Num(a + x.w),
        "sub_word" => Num(a - x.w),
        "mul_word" => Num(a * x.w),
        "div_word" => {
            if x.w == 0 {
                Nope
            } else {
                let q = abs(a) / x.w;
                Num(if a.sign() == Sign::Minus { -q } else { q })
            }
        }
        "increment" => Num(a + 1),
        "decrement" => Num(a - 1),
        "lshift1" => Num(a * 2),
        // towards zero, on both backends
        "rshift1" | "rshift" => {
            let k = if op == "rshift" { x.k } else { 1 };
            let q = abs(a) / p2(k);
            Num(if a.sign() == Sign::Minus { -q } else { q })
        }
        "num_bits" => Int((0..a.magnitude().to_bytes_le().len() as u32 * 8).filter(|k| bit(a, *k)).max().map_or(0, |k| k as i64 + 1)),
        "is_bit_set" => Bool(bit(a, x.k)),
        "set_bit" => {
            let m = if bit(a, x.k) { abs(a) } else { abs(a) + p2(x.k) };
            Num(if a.sign() == Sign::Minus { -m } else { m })
        }
        "cmp" | "partial_cmp" => {
            let d = a - b;
            Ord(match d.sign() {
                Sign::Minus => Ordering::Less,
                Sign::NoSign => Ordering::Equal,
                Sign::Plus => Ordering::Greater,
            })
        }
        "eq" => Bool(a - b == zero()),
        "set_negative" => Num(if x.flag { -abs(a) } else { abs(a) }),
        "is_negative" => Bool(a.sign() == Sign::Minus),
        "try_clone" => Num(a.clone()),
        "from_u32" => Num(BigInt::from(x.big)),
        "to_dec" => Text(decs(a)),
        "to_hex" => Text(hexs(a)),
        "to_bytes" => Bytes(if *a == zero() { vec![] } else { a.magnitude().to_bytes_be() }),
        "from_dec" | "from_json" => o(parse(&x.text, 10)),
        "from_hex" => o(parse(&x.text, 16)),
        "from_bytes" => Num(x.bytes.iter().fold(zero(), |v, b| v * 256 + *b)),
        "json" => Text(format!("\"{}\"", decs(a))),
        "hash" => Bytes(sha2::Sha256::digest(&x.bytes).to_vec()),
        "hash_array" => Bytes(sha2::Sha256::digest(&x.parts.concat()).to_vec()),
        "default" => Num(zero()),
        _ => unreachable!(),
    })
}

fn nat(g: &mut G, max_bits: usize) -> BigInt {
    match g.draw(9) {
        0 => BigInt::from(g.draw(16)),
        1 => BigInt::from(g.u64()),
        2 => {
            // around a power of two, also at limb boundaries
            let k = if g.bool() { *g.pick(&[8usize, 31, 32, 33, 63, 64, 65, 127, 128, 256, 512, 1024]) } else { g.range(0, max_bits) };
            let d = BigInt::from(g.draw(4) as i64 - 2);
            abs(&((BigInt::from(1) << k.min(max_bits)) + d))
        }
        3 => BigInt::from_bytes_be(Sign::Plus, &vec![0xff; g.range(0, max_bits / 8)]),
        4 => {
            // sparse: long runs of zero limbs
            let (i, j) = (g.range(0, max_bits), g.range(0, max_bits));
            (BigInt::from(1) << i) + (BigInt::from(1) << j)
        }
        _ => {
            let n = g.range(0, max_bits / 8);
            BigInt::from_bytes_be(Sign::Plus, &g.bytes_n(n))
        }
    }
}
fn int(g: &mut G, bits: usize) -> BigInt {
    let v = nat(g, bits);
    if g.chance(2, 5) {
        -v
    } else {
        v
    }
}
fn text(g: &mut G, a: &BigInt, hex: bool) -> String {
    let mut t = if hex { if g.bool() { hexs(a) } else { hexs(a).to_lowercase() } } else { decs(a) };
    match g.draw(9) {
        0 => t.insert_str(if t.starts_with('-') { 1 } else { 0 }, "00"),
        1 => {
            let c = *g.pick(&["+", " ", "-", "0x", "_", "\u{0}", "\u{661}"]);
            t.insert_str(0, c)
        }
        2 => t.push_str(*g.pick(&["g", " ", "\n", "_", "\u{0}", ".", ".0", "e5", "\u{0}5", "漢", "-", "_1"])),
        3 => {
            let k = g.below(t.len() + 1);
            let c = *g.pick(&["_", " ", "x", "-", "\u{0}", ",", "G"]);
            t.insert_str(k, c);
        }
        4 => t = g.string(12),
        5 => t = if g.bool() { "".into() } else { "-".into() },
        _ => {}
    }
    t
}

fn args(g: &mut G, op: &str) -> Args {
    // now and then far beyond the sizes the protocols use today
    let huge = g.chance(1, 16);
    let bits = match op {
        "mod_exp" if huge => 2100,
        "mod_exp" => *g.pick(&[64, 256, 520]),
        "exp" => 600,
        _ if huge => *g.pick(&[8200, 20000]),
        _ => *g.pick(&[64, 256, 1024, 2200, 4096]),
    };
    let (mut a, mut b, mut n) = (int(g, bits), int(g, bits), int(g, bits));
    if n == zero() && !g.chance(1, 4) {
        n = BigInt::from(2 + g.draw(30));
    }
    // related operands
    match g.draw(7) {
        0 => b = a.clone(),
        1 => b = -a.clone(),
        2 => a = &b * BigInt::from(g.draw(9)),
        3 => n = a.clone(),
        4 => a = &n * BigInt::from(1 + g.draw(3)) + BigInt::from(g.draw(2) as i64 - 1),
        _ => {}
    }
    let k = match op {
        "exp" => g.draw(20) as u32,
        _ => {
            if g.bool() {
                g.draw(70) as u32
            } else {
                g.draw(4200) as u32
            }
        }
    };
    let w = if g.bool() { *g.pick(&[0u32, 1, 2, 3, 10, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]) } else { g.draw(u32::MAX as u64) as u32 };
    let t = int(g, 300);
    Args {
        text: text(g, &t, op == "from_hex"),
        bytes: if huge { g.big(500, 6000) } else { g.bytes(0, 300) },
        parts: if huge {
            let n = g.range(6, 400);
            (0..n).map(|_| g.bytes(0, 6)).collect()
        } else {
            g.vec(0, 5, |g| g.bytes(0, 70))
        },
        flag: g.bool(),
        ctx: g.bool(),
        big: if g.bool() { g.u64() as usize } else { g.draw(u32::MAX as u64) as usize },
        a,
        b,
        n,
        w,
        k,
    }
}

fn ops(g: &mut G) -> R {
    let op = *g.pick(OPS);
    let x = args(g, op);
    g.label(op);
    let w = want(op, &x);
    g.show(format!("{} {:?}", op, x));
    g.nontrivial();
    if w == Some(Nope) {
        g.label("no result");
    }
    for (name, f) in &[("native", native::run as fn(&str, &Args) -> Out), ("portable", portable::run)] {
        g.eval();
        match no_panic(|| f(op, &x)) {
            Err(m) => return fail("panics", format!("{} ({}) aborted: {} on {:?}", op, name, m, x)),
            Ok(got) => ensure!(w.is_none() || Some(&got) == w.as_ref(), &format!("{}-{}", op, name), "{} ({}) gave {:?} instead of {:?} for {:?}", op, name, got, w, x),
        }
    }
    Ok(())
}

/// random expressions over both backends at once, kept as library objects all the way
fn chains(g: &mut G) -> R {
    let n = g.range(1, 12);
    let m = abs(&nat(g, 500)) + 2;
    let mut env: Vec<(BigInt, ursa_native::bn::BigNumber, ursa_portable::bn::BigNumber)> = vec![];
    for _ in 0..3 {
        let x = int(g, 400);
        env.push((x.clone(), native::mk(&x), portable::mk(&x)));
    }
    let (mn, mp) = (native::mk(&m), portable::mk(&m));
    for _ in 0..n {
        let (i, j) = (g.below(env.len()), g.below(env.len()));
        let op = g.draw(9);
        let new = {
            let (a, b) = (&env[i], &env[j]);
            match op {
                0 => Some((&a.0 + &b.0, a.1.add(&b.1).unwrap(), a.2.add(&b.2).unwrap())),
                1 => Some((&a.0 - &b.0, a.1.sub(&b.1).unwrap(), a.2.sub(&b.2).unwrap())),
                2 => Some((fmod(&(&a.0 * &b.0), &m), a.1.mod_mul(&b.1, &mn, None).unwrap(), a.2.mod_mul(&b.2, &mp, None).unwrap())),
                3 => Some((fmod(&a.0, &m), a.1.modulus(&mn, None).unwrap(), a.2.modulus(&mp, None).unwrap())),
                4 => inv(&a.0, &m).map(|v| (v, a.1.inverse(&mn, None).unwrap(), a.2.inverse(&mp, None).unwrap())),
                5 => Some((&a.0 + 1, a.1.increment().unwrap(), a.2.increment().unwrap())),
                6 => Some((&a.0 - 1, a.1.decrement().unwrap(), a.2.decrement().unwrap())),
                7 => Some((abs(&a.0), a.1.set_negative(false).unwrap(), a.2.set_negative(false).unwrap())),
                8 => Some((&a.0 * 2, a.1.lshift1().unwrap(), a.2.lshift1().unwrap())),
                _ => {
                    // from one backend into the other
                    let x = serde_json::to_string(&a.1).unwrap();
                    let y = serde_json::to_string(&a.2).unwrap();
                    Some((a.0.clone(), serde_json::from_str(&y).unwrap(), serde_json::from_str(&x).unwrap()))
                }
            }
        };
        if let Some(v) = new {
            g.eval();
            ensure!(native::un(&v.1) == v.0, "chain-native", "step {} gave {} instead of {}", op, native::un(&v.1), v.0);
            ensure!(portable::un(&v.2) == v.0, "chain-portable", "step {} gave {} instead of {}", op, portable::un(&v.2), v.0);
            ensure!(v.1.to_bytes().unwrap() == v.2.to_bytes().unwrap() && v.1.to_dec().unwrap() == v.2.to_dec().unwrap() && v.1.to_hex().unwrap() == v.2.to_hex().unwrap(), "chain-encodings", "the encodings of {} differ", v.0);
            env.push(v);
        }
    }
    g.nontrivial();
    Ok(())
}

fn mr(n: &BigUint, rounds: usize) -> bool {
    let one = BigUint::from(1u32);
    let two = BigUint::from(2u32);
    if *n < two {
        return false;
    }
    const SMALL: [u32; 25] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97];
    for p in SMALL.iter() {
        let p = BigUint::from(*p);
        if *n == p {
            return true;
        }
        if (n % &p) == BigUint::from(0u32) {
            return false;
        }
    }
    let n1 = n - &one;
    let mut d = n1.clone();
    let mut s = 0;
    while (&d & &one) == BigUint::from(0u32) {
        d = d >> 1;
        s += 1;
    }
    // the first 13 primes decide numbers below 3.3e24
    'w: for a in SMALL.iter().take(rounds) {
        let mut x = BigUint::from(*a).modpow(&d, n);
        if x == one || x == n1 {
            continue;
        }
        for _ in 1..s {
            x = x.modpow(&two, n);
            if x == n1 {
                continue 'w;
            }
        }
        return false;
    }
    true
}
fn prime(x: &BigInt) -> bool {
    x.sign() == Sign::Plus && mr(x.magnitude(), 25)
}

fn primality(g: &mut G) -> R {
    // numbers that are easily taken for primes, too
    const PSP: [u64; 22] = [
        561, 1105, 1729, 2047, 2465, 2821, 3277, 6601, 8911, 10585, 15841, 29341, 3215031751, 3825123056546413051, 318665857834031151, 341550071728321, 1373653, 25326001, 4759123141, 2152302898747, 3474749660383, 9080191,
    ];
    let x = match g.draw(6) {
        0 => BigInt::from(g.draw(2000)),
        1 => BigInt::from(*g.pick(&PSP)),
        2 => {
            // (k+1)(2k+1): the worst case for Miller-Rabin
            let k = BigInt::from(g.u64() >> g.draw(50));
            (&k + 1) * (&k * 2 + 1)
        }
        3 => {
            // next prime after a random number
            let bits = g.range(3, 200);
            let mut x = abs(&nat(g, bits)) | BigInt::from(1);
            while !prime(&x) {
                x += 2;
            }
            x
        }
        4 => {
            let mut x = BigInt::from(g.u64() >> g.draw(30)) | BigInt::from(1);
            while !prime(&x) {
                x += 2;
            }
            x.clone() * x
        }
        5 => {
            // a safe prime
            let mut x = BigInt::from(3 + (g.u64() >> g.range(20, 55)));
            while !(prime(&x) && prime(&(&x * 2 + 1))) {
                x += 1;
            }
            x * 2 + 1
        }
        _ => int(g, 120),
    };
    let ctx = g.bool();
    let w = prime(&x);
    let safe = w && prime(&((&x - 1) / 2));
    g.show(format!("{} prime {} safe {}", x, w, safe));
    g.label(if safe { "safe prime" } else if w { "prime" } else { "composite" });
    g.nontrivial();
    g.eval();
    ensure!(native::is_prime(&x, ctx) == w, "is-prime-native", "is_prime({}) (native) is {}", x, !w);
    ensure!(portable::is_prime(&x, ctx) == w, "is-prime-portable", "is_prime({}) (portable) is {}", x, !w);
    ensure!(native::is_safe_prime(&x, ctx) == safe, "is-safe-prime-native", "is_safe_prime({}) (native) is {}", x, !safe);
    ensure!(portable::is_safe_prime(&x, ctx) == safe, "is-safe-prime-portable", "is_safe_prime({}) (portable) is {}", x, !safe);
    Ok(())
}

fn random(g: &mut G) -> R {
    let be: Vec<(&str, fn(&str, usize, &BigInt, &BigInt) -> Option<BigInt>)> = vec![("native", native::gen), ("portable", portable::gen)];
    g.nontrivial();
    for (name, f) in be {
        let z = zero();
        let size = g.range(128, 220);
        match g.draw(9) {
            0 => {
                g.label("generate_prime");
                let p = f("prime", size, &z, &z);
                ensure!(p.is_some(), "generate-prime", "generate_prime({}) ({}) failed", size, name);
                let p = p.unwrap();
                ensure!(prime(&p) && p.bits() == size as u64, "generate-prime", "generate_prime({}) ({}) gave {} ({} bits)", size, name, p, p.bits());
            }
            1 => {
                g.label("generate_safe_prime");
                let size = g.range(128, 150);
                let p = f("safe", size, &z, &z);
                ensure!(p.is_some(), "generate-safe-prime", "generate_safe_prime({}) ({}) failed", size, name);
                let p = p.unwrap();
                // the OpenSSL backend returns one bit more, so that (p-1)/2 has `size` bits
                ensure!(prime(&p) && prime(&((&p - 1) / 2)) && (p.bits() == size as u64 || p.bits() == size as u64 + 1), "generate-safe-prime", "generate_safe_prime({}) ({}) gave {} ({} bits)", size, name, p, p.bits());
            }
            2 | 3 => {
                g.label("rand");
                let size = g.range(0, 600);
                let x = f("rand", size, &z, &z).unwrap();
                ensure!(x.sign() != Sign::Minus && x.bits() <= size as u64, "rand", "rand({}) ({}) gave {}", size, name, x);
                if size >= 100 {
                    let y = f("rand", size, &z, &z).unwrap();
                    ensure!(x != y, "rand-repeats", "rand({}) ({}) gave {} twice", size, name, x);
                    // every bit varies
                    let (mut or, mut and) = (BigUint::from(0u32), p2(size as u32).magnitude() - 1u32);
                    for _ in 0..60 {
                        let v = f("rand", size, &z, &z).unwrap();
                        or = or | v.magnitude();
                        and = and & v.magnitude();
                    }
                    ensure!(BigInt::from(or.clone()) == p2(size as u32) - 1 && and == BigUint::from(0u32), "rand-constant-bits", "some bits of rand({}) ({}) never change", size, name);
                }
            }
            4 | 5 => {
                g.label("rand_range");
                let n = if g.bool() { BigInt::from(g.draw(6)) } else { int(g, 300) };
                match no_panic(|| f("rand_range", 0, &n, &z)) {
                    Err(m) => return fail("panics", format!("rand_range on {} ({}) aborted: {}", n, name, m)),
                    Ok(None) => ensure!(n <= z, "rand-range", "rand_range on {} ({}) failed", n, name),
                    Ok(Some(x)) => {
                        ensure!(n > z, "rand-range", "rand_range on {} ({}) gave {}", n, name, x);
                        ensure!(x >= z && x < n, "rand-range", "rand_range on {} ({}) gave {}", n, name, x);
                        if n < BigInt::from(6) {
                            // reaches every value
                            let mut seen = std::collections::BTreeSet::new();
                            for _ in 0..200 {
                                seen.insert(f("rand_range", 0, &n, &z).unwrap());
                            }
                            ensure!(BigInt::from(seen.len()) == n, "rand-range", "rand_range on {} ({}) gives only {:?}", n, name, seen);
                        }
                    }
                }
            }
            6 | 7 => {
                g.label("generate_prime_in_range");
                // [p, q) with p prime and q the next prime, or a range that holds several
                let mut p = abs(&nat(g, 90)) + 2;
                while !prime(&p) {
                    p += 1;
                }
                let mut q = &p + 1;
                while !prime(&q) {
                    q += 1;
                }
                let lo = &p - BigInt::from(g.draw(3)).min(&p - 2);
                let hi = if g.chance(1, 3) { &q + BigInt::from(g.draw(1000)) } else { q };
                for _ in 0..10 {
                    let x = f("range", 0, &lo, &hi);
                    ensure!(x.is_some(), "prime-in-range", "generate_prime_in_range({}, {}) ({}) failed", lo, hi, name);
                    let x = x.unwrap();
                    ensure!(prime(&x) && x >= lo && x < hi, "prime-in-range", "generate_prime_in_range({}, {}) ({}) gave {}", lo, hi, name, x);
                }
            }
            _ => {
                g.label("random_qr");
                let pr = |g: &mut G| {
                    let mut p = BigInt::from(3 + (g.u64() >> g.range(8, 60)));
                    while !prime(&p) {
                        p += 1;
                    }
                    p
                };
                let (p, q) = (pr(g), pr(g));
                let n = &p * &q;
                for _ in 0..4 {
                    let x = f("qr", 0, &n, &z).unwrap();
                    ensure!(x >= z && x < n, "random-qr", "random_qr({}) ({}) gave {}", n, name, x);
                    for f in &[&p, &q] {
                        let h: BigInt = (*f - 1) / BigInt::from(2);
                        let l = pow_mod(&x, h.magnitude(), f);
                        ensure!(l == z || l == BigInt::from(1), "random-qr", "random_qr({}) ({}) gave {}, no square modulo {}", n, name, x, f);
                    }
                }
            }
        }
        g.eval();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "N01",
        rule: "an operation was evaluated on both backends and compared with the exact result (for generators: with the promised range, size and primality)",
        assumptions: vec!["negative exponents of exp, modulus 1 with negative exponents, and empty prime ranges have no defined result", "right shifts and bit operations act on the magnitude, as OpenSSL defines them"],
        subs: vec![sub("ops", 200000, 6000000, 2000, ops), sub("chains", 10000, 400000, 2000, chains), sub("primality", 3000, 100000, 200, primality), sub("random", 1500, 30000, 100, random)],
    }]
}
