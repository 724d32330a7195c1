//! P01: points, scalars and pairing values against plain arithmetic over big integers
use crate::bnc::*;
use pbt::*;
use ursa::pair::*;

type S = GroupOrderElement;

fn e<T, X: std::fmt::Debug>(what: &str, r: Result<T, X>) -> Result<T, Fail> {
    r.map_err(|x| Fail { sig: format!("error-{}", what), msg: format!("{} failed: {:?}", what, x) })
}
lazy_static::lazy_static! {
    static ref Q0: Vec<u8> = hex::decode("0054ee8afdf058c2a2e824e80b9d69059dc178ffca7399f9eeb4d9f77cdbddf023e844878986e988ad9c3e11e349c596276547441e5054288549245f820c59ce114f8a48753ed93680896a97ca2ce31235040263fadac4cc3a997d53f0e73409218bf051d302a4dc04e091d6e57756b0f7ece3bedc0f73d11f3bbf0b88a1caee").unwrap();
}
pub fn base2() -> Pt<(B, B)> {
    dec2(&Q0).unwrap()
}

/// a number below 2^256, with an inclination to the edges
pub fn number(g: &mut G) -> B {
    let m = (b(1) << 256usize) - b(1);
    match g.draw(9) {
        0 => b(g.draw(3)),
        1 => &*N - b(1) - b(g.draw(2)),
        2 => &*N + b(g.draw(2)),
        3 => &*N * b(2) - b(1) + b(g.draw(2)),
        4 => m,
        5 => (b(1) << g.below(256)) - b(g.draw(1)),
        6 => (&*N + b(1)) >> 1usize,
        7 => B::from_bytes_be(&g.bytes(0, 32)),
        _ => B::from_bytes_be(&g.bytes_n(32)) % &*N,
    }
}
pub fn scalar(x: &B) -> S {
    S::from_bytes(&be32(x)).unwrap()
}
fn small(g: &mut G) -> B {
    number(g) % &*N
}
/// send a scalar through one of its encodings
fn ship_s(g: &mut G, s: &S) -> Result<S, Fail> {
    Ok(match g.draw(3) {
        0 => *s,
        1 => e("scalar from_bytes", S::from_bytes(&s.to_bytes().unwrap()))?,
        2 => e("scalar from_string", S::from_string(&s.to_string().unwrap()))?,
        _ => e("scalar from JSON", serde_json::from_str(&serde_json::to_string(s).unwrap()))?,
    })
}

fn scalars(g: &mut G) -> R {
    let mut regs: Vec<(S, B)> = vec![];
    let mut log = vec![];
    for _ in 0..g.range(1, 3) {
        let n = number(g);
        let s = if g.bool() {
            // leading zero bytes may be left out
            let raw = n.to_bytes_be();
            let raw = if raw == [0] && g.bool() { vec![] } else { raw };
            e("from_bytes", S::from_bytes(&raw))?
        } else {
            let t = if g.bool() { n.to_str_radix(16).to_uppercase() } else { n.to_str_radix(16) };
            e("from_string", S::from_string(&t))?
        };
        ensure!(s.to_bytes().unwrap() == be32(&n), "scalar-decode", "{:x} was decoded to {}", n, hex(&s.to_bytes().unwrap()));
        log.push(format!("{:x}", n));
        regs.push((s, n));
    }
    let steps = g.len(1, 8);
    let mut big = 0;
    for _ in 0..steps {
        let i = g.below(regs.len());
        let j = g.below(regs.len());
        let (a, x) = regs[i].clone();
        let (c, y) = regs[j].clone();
        let k = g.draw(6);
        let (r, m) = match k {
            0 => (e("add_mod", a.add_mod(&c))?, (&x + &y) % &*N),
            1 => (e("sub_mod", a.sub_mod(&c))?, (&x + &*N * b(8) - &y) % &*N),
            2 => (e("mul_mod", a.mul_mod(&c))?, &x * &y % &*N),
            3 => (e("mod_neg", a.mod_neg())?, (&*N * b(8) - &x) % &*N),
            4 => (e("pow_mod", a.pow_mod(&c))?, if y == b(0) { b(1) } else { x.modpow(&y, &N) }),
            5 => {
                let z = &x % &*N == b(0);
                let r = a.inverse();
                ensure!(r.is_err() == z, "inverse", "the inverse of {:x} is {:?}", x, r);
                g.label(if z { "inverse of zero" } else { "inverse" });
                if z {
                    continue;
                }
                (r.unwrap(), x.modpow(&(&*N - b(2)), &N))
            }
            _ => {
                let r = ship_s(g, &a)?;
                ensure!(r == a, "scalar-roundtrip", "{:x} changed on the way through an encoding", x);
                (r, x.clone())
            }
        };
        log.push(format!("{}({},{})", ["add", "sub", "mul", "neg", "pow", "inv", "ship"][k as usize], i, j));
        g.show(log.join(" "));
        ensure!(r.to_bytes().unwrap() == be32(&m), "scalar-value", "after {} the value is {} instead of {:x}", log.join(" "), hex(&r.to_bytes().unwrap()), m);
        ensure!(r == scalar(&m), "scalar-equality", "after {}: equal scalars compare as different", log.join(" "));
        g.eval();
        if m > b(1) {
            big += 1
        }
        regs.push((r, m));
    }
    if big > 0 {
        g.nontrivial();
    }
    Ok(())
}

macro_rules! group {
    ($f:ident, $T:ident, $F:ty, $enc:ident, $base:expr) => {
        fn $f(g: &mut G) -> R {
            let base: Pt<$F> = $base;
            let start = e("from_bytes", $T::from_bytes(&$enc(&base)))?;
            // (point, model, discrete logarithm)
            let mut regs: Vec<($T, Pt<$F>, B)> = vec![(start, base.clone(), b(1)), (e("new_inf", $T::new_inf())?, Pt::inf(), b(0))];
            let mut log: Vec<String> = vec![];
            let mut real = 0;
            for _ in 0..g.len(1, 7) {
                let i = g.below(regs.len());
                let j = g.below(regs.len());
                let (a, x, dx) = regs[i].clone();
                let (c, y, dy) = regs[j].clone();
                let k = g.draw(6);
                let (r, m, d) = match k {
                    0 | 1 => {
                        let n = number(g);
                        let s = scalar(&n);
                        let s = ship_s(g, &s)?;
                        log.push(format!("{}*{:x}", i, n));
                        (e("mul", a.mul(&s))?, x.times(&(&n % &*N)), &dx * &n % &*N)
                    }
                    2 => (e("add", a.add(&c))?, x.plus(&y), (&dx + &dy) % &*N),
                    3 => (e("sub", a.sub(&c))?, x.plus(&y.minus()), (&dx + &*N - &dy) % &*N),
                    4 => (e("neg", a.neg())?, x.minus(), (&*N - &dx) % &*N),
                    5 => (e("from_bytes", $T::from_bytes(&a.to_bytes().unwrap()))?, x, dx),
                    _ => {
                        let s = a.to_string().unwrap();
                        if g.bool() {
                            (e("from_string", $T::from_string(&s))?, x, dx)
                        } else {
                            (e("from JSON", serde_json::from_str(&serde_json::to_string(&a).unwrap()))?, x, dx)
                        }
                    }
                };
                log.push(format!("{}({},{})", ["mul", "mul", "add", "sub", "neg", "bytes", "string"][k as usize], i, j));
                g.show(log.join(" "));
                let l = log.join(" ");
                ensure!(r.to_bytes().unwrap() == $enc(&m), "point-value", "after {} the point is {} instead of {}", l, hex(&r.to_bytes().unwrap()), hex(&$enc(&m)));
                g.eval();
                if !m.is_inf() {
                    real += 1
                } else {
                    g.label("infinity")
                }
                // equality is equality of group elements
                for (o, _, od) in &regs {
                    ensure!((*o == r) == (*od == d), "point-equality", "after {}: points with logarithms {:x} and {:x} compare as {}", l, od, d, *o == r);
                }
                regs.push((r, m, d));
            }
            if real > 0 {
                g.nontrivial();
            }
            let _ = regs.iter().map(|r| r.0.is_inf().unwrap() == r.1.is_inf()).all(|x| x);
            for r in &regs {
                ensure!(r.0.is_inf().unwrap() == r.1.is_inf(), "infinity", "is_inf of a point with logarithm {:x}", r.2);
            }
            Ok(())
        }
    };
}
group!(group1, PointG1, B, enc1, G1.clone());
group!(group2, PointG2, (B, B), enc2, base2());

/// random elements of the groups
fn random(g: &mut G) -> R {
    let p = e("new", PointG1::new())?;
    let v = p.to_bytes().unwrap();
    ensure!(v.len() == PointG1::BYTES_REPR_SIZE, "size", "a point has {} bytes", v.len());
    let (x, y) = (B::from_bytes_be(&v[1..33]), B::from_bytes_be(&v[33..65]));
    ensure!(Pt::<B>::on_curve(&x, &y) && !p.is_inf().unwrap(), "random-point", "{} is not a random point of the curve", hex(&v));
    let q = e("new", PointG2::new())?;
    let w = q.to_bytes().unwrap();
    ensure!(w.len() == PointG2::BYTES_REPR_SIZE, "size", "a point has {} bytes", w.len());
    let m = dec2(&w);
    ensure!(m.is_some() && m.unwrap().times(&N).is_inf() && !q.is_inf().unwrap(), "random-point", "{} is not a random point of the group", hex(&w));
    ensure!(PointG1::new().unwrap() != p && PointG2::new().unwrap() != q, "fresh", "two random points are the same");
    let s = e("new", S::new())?;
    let t = B::from_bytes_be(&s.to_bytes().unwrap());
    ensure!(t < *N && t > b(1) << 128usize, "random-scalar", "{:x} is not a random scalar", t);
    ensure!(S::new().unwrap() != s, "fresh", "two random scalars are the same");
    // derived from a seed
    let l = if g.bool() { 32 } else { g.below(70) };
    let seed = g.bytes_n(l);
    g.show(hex(&seed));
    match no_panic(|| S::new_from_seed(&seed)) {
        Err(p) => return fail("panic", format!("new_from_seed aborts: {}", p)),
        Ok(Err(_)) => ensure!(l != 32, "seed", "a seed of 32 bytes is refused"),
        Ok(Ok(s)) => {
            ensure!(l == 32, "seed", "a seed of {} bytes is taken", l);
            ensure!(s == S::new_from_seed(&seed).unwrap(), "seed", "the same seed gives two scalars");
            ensure!(B::from_bytes_be(&s.to_bytes().unwrap()) < *N, "seed", "a scalar of a seed is not reduced");
            let mut o = seed.clone();
            let i = g.below(32);
            o[i] ^= 1 << g.draw(7);
            ensure!(s != S::new_from_seed(&o).unwrap(), "seed", "two seeds give one scalar");
            g.nontrivial();
        }
    }
    g.eval();
    Ok(())
}

fn hashing(g: &mut G) -> R {
    let h = match g.draw(4) {
        0 => g.bytes(0, 3),
        1 => be32(&(&*P - b(1 + g.draw(3)))),
        2 => be32(&(&*P + b(g.draw(3)))),
        3 => g.bytes(0, 36),
        _ => g.bytes_n(32),
    };
    g.show(hex(&h));
    let r = match no_panic(|| PointG1::from_hash(&h)) {
        Err(p) => return fail("panic", format!("from_hash of {} aborts: {}", hex(&h), p)),
        Ok(r) => r,
    };
    g.eval();
    if h.len() > 32 {
        ensure!(r.is_err(), "hash-size", "from_hash takes {} bytes", h.len());
        return Ok(());
    }
    g.nontrivial();
    let r = e("from_hash", r)?;
    let want = hash_to_g1(&h);
    ensure!(r.to_bytes().unwrap() == enc1(&want), "hash-value", "from_hash of {} is {} instead of {}", hex(&h), hex(&r.to_bytes().unwrap()), hex(&enc1(&want)));
    Ok(())
}

fn pairings(g: &mut G) -> R {
    let (bp, bq) = (PointG1::from_bytes(&enc1(&G1)).unwrap(), PointG2::from_bytes(&enc2(&base2())).unwrap());
    let unit = e("pair", Pair::pair(&bp, &bq))?;
    ensure!(!unit.is_unity().unwrap(), "degenerate", "the pairing of two generators is one");
    let mut regs: Vec<(Pair, B)> = vec![(unit, b(1))];
    let mut log: Vec<String> = vec![];
    let mut real = 0;
    // in several representations, as projective points have them
    let way = g.draw(3);
    let g1 = |n: &B| match way {
        0 => bp.mul(&scalar(n)).unwrap(),
        1 => bp.mul(&scalar(&((n + &*N - b(1)) % &*N))).unwrap().add(&bp).unwrap(),
        2 => bp.mul(&scalar(&((n + b(5)) % &*N))).unwrap().sub(&bp.mul(&scalar(&b(5))).unwrap()).unwrap(),
        _ => bp.mul(&scalar(&((&*N - n) % &*N))).unwrap().neg().unwrap(),
    };
    let way2 = g.draw(3);
    let g2 = |n: &B| match way2 {
        0 => bq.mul(&scalar(n)).unwrap(),
        1 => bq.mul(&scalar(&((n + &*N - b(1)) % &*N))).unwrap().add(&bq).unwrap(),
        2 => bq.mul(&scalar(&((n + b(5)) % &*N))).unwrap().sub(&bq.mul(&scalar(&b(5))).unwrap()).unwrap(),
        _ => bq.mul(&scalar(&((&*N - n) % &*N))).unwrap().neg().unwrap(),
    };
    for _ in 0..g.len(1, 6) {
        let i = g.below(regs.len());
        let j = g.below(regs.len());
        let (a, x) = regs[i].clone();
        let (c, y) = regs[j].clone();
        let k = g.draw(6);
        let (r, m) = match k {
            0 => {
                let (s, t) = (small(g), small(g));
                log.push(format!("e({:x},{:x})", s, t));
                (e("pair", Pair::pair(&g1(&s), &g2(&t)))?, &s * &t % &*N)
            }
            1 => {
                let (s, t) = (small(g), small(g));
                let u = small(g);
                let v = if g.chance(1, 3) && u != b(0) {
                    // chosen so that the product is one
                    (&*N - &s * &t % &*N) * u.modpow(&(&*N - b(2)), &N) % &*N
                } else {
                    small(g)
                };
                log.push(format!("e({:x},{:x})e({:x},{:x})", s, t, u, v));
                (e("pair2", Pair::pair2(&g1(&s), &g2(&t), &g1(&u), &g2(&v)))?, (&s * &t + &u * &v) % &*N)
            }
            2 => (e("mul", a.mul(&c))?, (&x + &y) % &*N),
            3 => (e("inverse", a.inverse())?, (&*N - &x) % &*N),
            4 => {
                let n = number(g);
                log.push(format!("^{:x}", n));
                (e("pow", a.pow(&scalar(&n)))?, &x * &n % &*N)
            }
            5 => (e("from_string", Pair::from_string(&a.to_string().unwrap()))?, x),
            _ => (e("from JSON", serde_json::from_str(&serde_json::to_string(&a).unwrap()))?, x),
        };
        log.push(format!("{}({},{})", ["pair", "pair2", "mul", "inv", "pow", "string", "json"][k as usize], i, j));
        g.show(log.join(" "));
        let l = log.join(" ");
        ensure!(r.is_unity().unwrap() == (m == b(0)), "unity", "after {}: is_unity is {} for e(P,Q)^{:x}", l, r.is_unity().unwrap(), m);
        for (o, om) in &regs {
            ensure!((*o == r) == (*om == m), "pair-equality", "after {}: e^{:x} and e^{:x} compare as {}", l, om, m, *o == r);
            ensure!((o.to_bytes().unwrap() == r.to_bytes().unwrap()) == (*om == m), "pair-bytes", "after {}: bytes of e^{:x} and e^{:x}", l, om, m);
        }
        // against the defining value
        ensure!(r == Pair::pair(&g1(&m), &bq).unwrap() && r == Pair::pair(&bp, &g2(&m)).unwrap(), "bilinear", "after {}: not e(P,Q)^{:x}", l, m);
        ensure!(r.to_bytes().unwrap().len() == Pair::BYTES_REPR_SIZE, "size", "a pairing value has {} bytes", r.to_bytes().unwrap().len());
        g.eval();
        if m != b(0) {
            real += 1
        } else {
            g.label("one")
        }
        regs.push((r, m));
    }
    if real > 0 {
        g.nontrivial();
    }
    Ok(())
}

/// encodings of nothing
fn malformed(g: &mut G) -> R {
    let n = small(g);
    let p = PointG1::from_bytes(&enc1(&G1)).unwrap().mul(&scalar(&n)).unwrap();
    let q = PointG2::from_bytes(&enc2(&base2())).unwrap().mul(&scalar(&n)).unwrap();
    g.nontrivial();
    // bytes: exactly the encodings of points of the curve are taken
    for first in &[true, false] {
        let orig = if *first { p.to_bytes().unwrap() } else { q.to_bytes().unwrap() };
        let mut v = orig.clone();
        match g.draw(5) {
            0 => {
                let i = g.below(v.len());
                v[i] ^= 1 << g.draw(7);
            }
            1 => {
                let l = g.below(260);
                v.resize(l, 0);
            }
            2 => v = vec![g.draw(255) as u8; 128],
            3 => v = g.bytes_n(128),
            4 => {
                // a coordinate beyond the field
                let c = if *first { 1 + 32 * g.below(2) } else { 32 * g.below(4) };
                let x = B::from_bytes_be(&v[c..c + 32]) + &*P;
                v[c..c + 32].copy_from_slice(&be32(&x));
            }
            _ => {
                let i = g.below(v.len());
                let j = g.below(v.len());
                v.swap(i, j);
            }
        }
        g.show(hex(&v));
        let valid = v.len() == 128
            && if *first {
                let (x, y) = (B::from_bytes_be(&v[1..33]), B::from_bytes_be(&v[33..65]));
                v == enc1(&Pt::inf()) || v[0] == 4 && x < *P && y < *P && Pt::<B>::on_curve(&x, &y) && v[65..].iter().all(|z| *z == 0)
            } else {
                v == enc2(&Pt::inf()) || v.chunks(32).all(|c| B::from_bytes_be(c) < *P) && dec2(&v).is_some()
            };
        let r = no_panic(|| if *first { PointG1::from_bytes(&v).map(|x| x.to_bytes().unwrap()) } else { PointG2::from_bytes(&v).map(|x| x.to_bytes().unwrap()) });
        match r {
            Err(x) => return fail("panic", format!("from_bytes aborts on {}: {}", hex(&v), x)),
            Ok(Err(_)) => ensure!(!valid, "valid-refused", "{} is a point", hex(&v)),
            Ok(Ok(w)) => ensure!(valid && w == v, "malformed-accepted", "from_bytes of {} gives {}", hex(&v), hex(&w)),
        }
        g.eval();
    }
    let long = g.bytes(33, 60);
    ensure!(S::from_bytes(&long).is_err(), "malformed-accepted", "a scalar of {} bytes", long.len());
    // strings
    let pr = Pair::pair(&p, &q).unwrap();
    let which = g.draw(3);
    let orig = match which {
        0 => p.to_string().unwrap(),
        1 => q.to_string().unwrap(),
        2 => pr.to_string().unwrap(),
        _ => scalar(&n).to_string().unwrap(),
    };
    let mut s: Vec<char> = orig.chars().collect();
    for _ in 0..g.range(1, 3) {
        match g.draw(5) {
            0 if !s.is_empty() => {
                s.remove(g.below(s.len()));
            }
            1 => {
                let at = g.below(s.len() + 1);
                s.insert(at, *g.pick(&['0', 'F', 'g', ' ', '-', 'é', '+', '\u{0}', '9']));
            }
            2 => {
                let l = g.below(s.len() + 1);
                s.truncate(l);
            }
            3 if !s.is_empty() => {
                let at = g.below(s.len());
                s[at] = *g.pick(&['0', 'F', 'g', ' ', '-', 'é', '+', '9']);
            }
            4 => s.extend(" 1 12".chars()),
            _ => {
                let t = s.clone();
                s.extend(t);
            }
        }
    }
    let s: String = s.into_iter().collect();
    g.show(s.clone());
    // what is taken is usable, and what is taken survives another round
    let r = no_panic(|| match which {
        0 => PointG1::from_string(&s).map(|x| x == PointG1::from_string(&x.to_string().unwrap()).unwrap() && x.to_bytes().is_ok() && x.add(&p).is_ok()),
        1 => PointG2::from_string(&s).map(|x| x == PointG2::from_string(&x.to_string().unwrap()).unwrap() && x.to_bytes().is_ok() && x.add(&q).is_ok()),
        2 => Pair::from_string(&s).map(|x| x == Pair::from_string(&x.to_string().unwrap()).unwrap() && x.to_bytes().is_ok()),
        _ => S::from_string(&s).map(|x| x == S::from_string(&x.to_string().unwrap()).unwrap()),
    });
    match r {
        Err(x) => return fail("panic", format!("from_string aborts on {:?}: {}", s, x)),
        Ok(Ok(ok)) => {
            g.label("string taken");
            ensure!(ok, "roundtrip", "{:?} does not survive its encoding", s)
        }
        Ok(Err(_)) => {
            let count = [6, 12, 24, 1][which as usize];
            let f: Vec<&str> = if count == 1 { vec![&s[..]] } else { s.split_whitespace().collect() };
            let plain = f.len() == count && f.iter().enumerate().all(|(i, x)| if count > 1 && i % 2 == 0 { *x == "1" } else { !x.is_empty() && x.len() <= 64 && x.bytes().all(|c| c.is_ascii_hexdigit()) });
            // (0, 0, 0) is no point
            ensure!(!plain || which < 2, "valid-refused", "{:?} is refused", s);
        }
    }
    g.eval();
    // JSON
    let js = *g.pick(&["null", "1", "[]", "{}", "\"\"", "\"zz\"", "\"1 0 1 0 1 0\"", "\"1 0 1 0 1 0 1 0 1 0 1 0\"", "\"1 2 3\"", "true"]);
    let r = no_panic(|| (serde_json::from_str::<PointG1>(js).is_ok(), serde_json::from_str::<PointG2>(js).is_ok(), serde_json::from_str::<Pair>(js).is_ok(), serde_json::from_str::<S>(js).is_ok()));
    match r {
        Err(x) => return fail("panic", format!("decoding {} aborts: {}", js, x)),
        Ok(r) => ensure!(r == (false, false, false, false), "malformed-accepted", "{} is decoded: {:?}", js, r),
    }
    g.eval();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P01",
        rule: "a value other than zero or infinity was computed, or an encoding decoded",
        assumptions: vec![],
        subs: vec![
            sub("scalars", 6000, 100000, 300, scalars),
            sub("group1", 1500, 30000, 200, group1),
            sub("group2", 500, 10000, 100, group2),
            sub("random", 300, 5000, 100, random),
            sub("hashing", 1500, 30000, 300, hashing),
            sub("pairings", 600, 10000, 100, pairings),
            sub("malformed", 2500, 40000, 200, malformed),
        ],
    }]
}
