//! T01: Shamir sharing over prime fields
use num_bigint::BigUint;
use pbt::*;
use ursa::bn::BigNumber;
use ursa::sharing::shamir::*;

type B = BigUint;
fn b(n: u64) -> B {
    B::from(n)
}
fn e<T, X: std::fmt::Debug>(what: &str, r: Result<T, X>) -> Result<T, Fail> {
    r.map_err(|x| Fail { sig: format!("error-{}", what), msg: format!("{} failed: {:?}", what, x) })
}
fn bn(x: &B) -> BigNumber {
    BigNumber::from_dec(&x.to_str_radix(10)).unwrap()
}
fn nb(x: &BigNumber) -> B {
    B::parse_bytes(x.to_dec().unwrap().as_bytes(), 10).unwrap()
}
lazy_static::lazy_static! {
    static ref LARGE: Vec<B> = vec![
        (b(1) << 61usize) - b(1),
        (b(1) << 89usize) - b(1),
        (b(1) << 127usize) - b(1),
        (b(1) << 255usize) - b(19),
        B::parse_bytes(b"1000000000000000000000000000000014DEF9DEA2F79CD65812631A5CF5D3ED", 16).unwrap(),
        B::parse_bytes(b"FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16).unwrap(),
        B::parse_bytes(b"73EDA753299D7D483339D80809A1D80553BDA402FFFE5BFEFFFFFFFF00000001", 16).unwrap(),
        (b(1) << 521usize) - b(1),
        (b(1) << 1279usize) - b(1),
    ];
}
const SMALL: [u64; 14] = [3, 5, 7, 11, 13, 17, 31, 61, 127, 131, 251, 257, 263, 65537];

/// a prime, and the largest total it allows
fn field(g: &mut G) -> (B, bool) {
    if g.chance(1, 3) {
        (b(*g.pick(&SMALL)), false)
    } else {
        (g.pick(&LARGE).clone(), true)
    }
}
fn secret(g: &mut G, p: &B) -> B {
    match g.draw(4) {
        0 => b(g.draw(2)) % p,
        1 => p - b(1),
        2 => p >> 1usize,
        _ => {
            let l = (p.bits() as usize + 7) / 8 + 2;
            B::from_bytes_be(&g.bytes(1, l)) % p
        }
    }
}
/// the bytes of a number, possibly with zeroes in front
fn bytes(g: &mut G, x: &B) -> Vec<u8> {
    let mut v = vec![0; if g.chance(1, 4) { g.range(1, 5) } else { 0 }];
    v.extend(x.to_bytes_be());
    v
}
fn inv(x: &B, p: &B) -> B {
    x.modpow(&(p - b(2)), p)
}
/// the value at `x` of the polynomial of least degree through the points
fn at(points: &[(u64, B)], x: u64, p: &B) -> B {
    let mut r = b(0);
    for (i, (xi, yi)) in points.iter().enumerate() {
        let (mut n, mut d) = (yi % p, b(1));
        for (j, (xj, _)) in points.iter().enumerate() {
            if i != j {
                n = n * (b(x) + p * b(256) - b(*xj)) % p;
                d = d * (b(*xi) + p * b(256) - b(*xj)) % p;
            }
        }
        r = (r + n * inv(&d, p)) % p;
    }
    r
}

fn sharing(g: &mut G) -> R {
    let (p, large) = field(g);
    let max = if p > b(255) { 255 } else { p.to_u64_digits()[0] as usize - 1 };
    let n = match g.draw(29) {
        0 => max,
        1..=2 => g.range(2, max),
        _ => g.range(2, max.min(12)),
    };
    // reconstruction takes time quadratic in the number of shares
    let most = if p.bits() > 300 { 6 } else if large { 16 } else { 40 };
    let t = match g.draw(4) {
        0 => 2,
        1 => n.min(most),
        _ => g.range(2, n.min(most)),
    };
    let s = secret(g, &p);
    let raw = bytes(g, &s);
    g.show(format!("{} of {} in a field of {} bits, secret {}", t, n, p.bits(), hex(&raw)));
    let f = bn(&p);
    let shares = e("split_secret", split_secret(&raw, t as u8, n as u8, &f))?;
    ensure!(shares.len() == n, "count", "{} shares instead of {}", shares.len(), n);
    g.nontrivial();
    g.label(if large { "large field" } else { "small field" });
    // they lie on one polynomial of degree below t that is the secret at zero
    let pts: Vec<(u64, B)> = shares.iter().map(|s| (s.identifier as u64, nb(&s.value))).collect();
    for (i, (x, y)) in pts.iter().enumerate() {
        ensure!(*x == i as u64 + 1, "identifier", "share {} has the identifier {}", i, x);
        ensure!(*y < p, "range", "a share is not in the field");
    }
    ensure!(at(&pts[..t], 0, &p) == s, "polynomial", "the first {} shares do not determine the secret", t);
    for k in t..n {
        if k < t + 8 || k == n - 1 {
            ensure!(at(&pts[..t], k as u64 + 1, &p) == pts[k].1, "polynomial", "share {} is not on the polynomial of the first {}", k + 1, t);
        }
    }
    g.eval();
    // any threshold of them in any order, also after an encoding
    for _ in 0..3 {
        let k = if g.bool() { t } else { g.range(t, n.min(most + 2)) };
        let mut who = g.subset_k(n, k);
        g.shuffle(&mut who);
        let mut some: Vec<Share> = vec![];
        for i in &who {
            let s = &shares[*i];
            some.push(if g.bool() {
                s.clone()
            } else {
                let v = s.to_bytes();
                let r = e("Share::from_bytes", Share::from_bytes(&v, &f))?;
                ensure!(r.identifier == s.identifier && r.value == s.value, "roundtrip", "share {} changed in its encoding {}", i + 1, hex(&v));
                r
            });
        }
        let zeros = some.iter().all(|s| nb(&s.value) == b(0));
        let r = combine_shares(&some, &f);
        if zeros {
            g.label("nothing but zeroes");
            ensure!(r.map_or(true, |r| B::from_bytes_be(&r) == b(0)), "secret", "zero shares give something");
            continue;
        }
        let r = e("combine_shares", r)?;
        ensure!(B::from_bytes_be(&r) == s, "secret", "shares {:?} of {} of {} give {} instead of {}", who.iter().map(|i| i + 1).collect::<Vec<_>>(), t, n, hex(&r), s);
        g.eval();
        // one of them altered
        let i = g.below(some.len());
        let d = b(1) + secret(g, &(&p - b(1)));
        let mut bad = some.clone();
        bad[i].value = bn(&((nb(&bad[i].value) + d) % &p));
        if let Ok(r) = combine_shares(&bad, &f) {
            ensure!(B::from_bytes_be(&r) != s, "secret", "an altered share gives the secret");
        }
        // relabelled: another polynomial, hence in a large field another secret
        if large {
            let mut bad = some.clone();
            let free: Vec<u8> = (1..=255u8).filter(|x| !some.iter().any(|s| s.identifier == *x)).collect();
            if !free.is_empty() {
                bad[i].identifier = *g.pick(&free);
                let r = e("combine_shares", combine_shares(&bad, &f))?;
                ensure!(B::from_bytes_be(&r) != s, "secret", "a relabelled share gives the secret");
            }
        }
        // repeated, or labelled zero
        let mut bad = some.clone();
        bad.push(some[i].clone());
        ensure!(combine_shares(&bad, &f).is_err(), "duplicate-accepted", "a repeated share is taken");
        let mut bad = some.clone();
        let j = (i + 1) % some.len();
        bad[i].identifier = bad[j].identifier;
        ensure!(combine_shares(&bad, &f).is_err(), "duplicate-accepted", "a repeated identifier is taken");
        let mut bad = some.clone();
        bad[i].identifier = 0;
        ensure!(combine_shares(&bad, &f).is_err(), "identifier", "the identifier zero is taken");
        g.eval();
    }
    // fewer
    let who = g.subset_k(n, t - 1);
    let some: Vec<Share> = who.iter().map(|i| shares[*i].clone()).collect();
    let r = combine_shares(&some, &f);
    if t == 2 {
        ensure!(r.is_err(), "too-few", "a single share is combined");
    } else if large {
        ensure!(r.map_or(true, |r| B::from_bytes_be(&r) != s), "too-few", "{} shares give the secret of {}", t - 1, t);
    }
    ensure!(combine_shares(&[], &f).is_err(), "too-few", "no shares are combined");
    g.eval();
    Ok(())
}

/// with fewer shares than the threshold every secret is equally possible: whatever the secret is,
/// every combination of values of t - 1 shares occurs
fn hiding(g: &mut G) -> R {
    let (p, t, runs) = *g.pick(&[(3u64, 2u64, 220), (5, 2, 350), (7, 2, 450), (5, 3, 1100), (7, 3, 2600)]);
    let n = g.range(t as usize, p as usize - 1).max(t as usize);
    if n as u64 >= p {
        g.label("no room");
        return Ok(());
    }
    let s = g.below(p as usize) as u64;
    let mut who = g.subset_k(n, t as usize - 1);
    who.sort();
    g.show(format!("{} of {} modulo {}, secret {}, shares {:?}", t, n, p, s, who));
    g.nontrivial();
    let f = bn(&b(p));
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..runs {
        let sh = e("split_secret", split_secret(&[s as u8], t as u8, n as u8, &f))?;
        seen.insert(who.iter().map(|i| nb(&sh[*i].value)).collect::<Vec<B>>());
    }
    g.eval();
    let want = (p as usize).pow(t as u32 - 1);
    ensure!(seen.len() == want, "leak", "in {} runs the shares {:?} of {} modulo {} take {} of {} possible values", runs, who, s, p, seen.len(), want);
    Ok(())
}

fn invalid(g: &mut G) -> R {
    let (p, _) = field(g);
    let f = bn(&p);
    let n = g.draw(255) as u8;
    let t = match g.draw(3) {
        0 => g.draw(3) as u8,
        1 => n.saturating_add(1),
        2 => n,
        _ => g.draw(255) as u8,
    };
    let raw = match g.draw(4) {
        0 => vec![],
        1 => p.to_bytes_be(),
        2 => (&p + b(g.draw(300))).to_bytes_be(),
        3 => g.bytes(0, 80),
        _ => {
            let s = secret(g, &p);
            bytes(g, &s)
        }
    };
    let ff = match g.draw(5) {
        0 => bn(&b(g.draw(2))),
        1 => BigNumber::from_dec("-11").unwrap(),
        _ => f.try_clone().unwrap(),
    };
    let bad_field = ff != f && ff < BigNumber::from_u32(2).unwrap();
    let pp = if ff == f { p.clone() } else { b(2) };
    let ok = !bad_field && t >= 2 && t <= n && !raw.is_empty() && B::from_bytes_be(&raw) < pp && pp > b(n as u64);
    g.show(format!("{} of {}, secret {}, field {:?}", t, n, hex(&raw), ff));
    g.label(if ok { "valid" } else { "invalid" });
    match no_panic(|| split_secret(&raw, t, n, &ff)) {
        Err(x) => return fail("panic", format!("split_secret aborts: {}", x)),
        Ok(r) => ensure!(r.is_ok() == ok, if ok { "valid-refused" } else { "invalid-accepted" }, "split_secret of {} with {} of {} in {:?} is {:?}", hex(&raw), t, n, ff, r.map(|s| s.len())),
    }
    g.eval();
    g.nontrivial();
    // any shares at all
    let l = g.len(0, 5);
    let shares: Vec<Share> = (0..l).map(|_| Share { identifier: g.draw(12) as u8, value: bn(&secret(g, &p)) }).collect();
    let bad = {
        let mut ids: Vec<u8> = shares.iter().map(|s| s.identifier).collect();
        ids.sort();
        ids.dedup();
        ids.len() != l || ids.contains(&0) || l < 2
    };
    // identifiers that coincide in the field
    let clash = {
        let mut ids: Vec<B> = shares.iter().map(|s| b(s.identifier as u64) % &p).collect();
        ids.sort();
        ids.dedup();
        ids.len() != l
    };
    match no_panic(|| combine_shares(&shares, &f)) {
        Err(x) => return fail("panic", format!("combine_shares aborts on {:?}: {}", shares, x)),
        Ok(r) => {
            ensure!(!(bad || clash) || r.is_err(), "invalid-accepted", "combine_shares of {:?} is {:?}", shares, r);
            if let Ok(r) = r {
                let pts: Vec<(u64, B)> = shares.iter().map(|s| (s.identifier as u64, nb(&s.value))).collect();
                ensure!(B::from_bytes_be(&r) == at(&pts, 0, &p), "interpolation", "combine_shares of {:?} is {}", shares, hex(&r));
                g.label("combined");
            } else {
                ensure!(bad || clash || shares.iter().all(|s| nb(&s.value) == b(0)), "valid-refused", "combine_shares of {:?} is {:?}", shares, r);
            }
        }
    }
    // share bytes
    let v = g.bytes(0, 60);
    match no_panic(|| Share::from_bytes(&v, &f)) {
        Err(x) => return fail("panic", format!("Share::from_bytes aborts on {}: {}", hex(&v), x)),
        Ok(r) => {
            ensure!(r.is_ok() == !v.is_empty(), "share-bytes", "Share::from_bytes of {} is {:?}", hex(&v), r);
            if let Ok(s) = r {
                ensure!(s.identifier == *v.last().unwrap() && nb(&s.value) == B::from_bytes_be(&v[..v.len() - 1]) % &p, "share-bytes", "Share::from_bytes of {} is {:?}", hex(&v), s);
            }
        }
    }
    g.eval();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "T01",
        rule: "a secret was split, or an invalid call was made",
        assumptions: vec!["the supplied field is prime"],
        subs: vec![sub("sharing", 6000, 40000, 200, sharing), sub("hiding", 200, 1000, 4, hiding), sub("invalid", 10000, 100000, 300, invalid)],
    }]
}
