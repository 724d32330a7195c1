//! T02: Shamir, Feldman and Pedersen sharing over supplied groups
#![allow(dead_code)]
mod groups;
use groups::*;
use pbt::*;
use rand_chacha::{rand_core::SeedableRng, ChaChaRng};
use std::convert::TryFrom;
use ursa_sharing::error::SharingError;
use ursa_sharing::feldman::{FeldmanVerifier, Scheme as Feldman};
use ursa_sharing::pedersen::{PedersenVerifier, PedersenVssResult, Scheme as Pedersen};
use ursa_sharing::shamir::{Scheme as Shamir, Share};
use ursa_sharing::{Field, Group};

#[global_allocator]
static ALLOC: pbt::mem::Watched = pbt::mem::Watched;

fn e<T>(what: &str, r: Result<T, SharingError>) -> Result<T, Fail> {
    r.map_err(|x| Fail { sig: format!("error-{}", what), msg: format!("{} failed: {:?}", what, x) })
}
fn rng(g: &mut G) -> ChaChaRng {
    ChaChaRng::seed_from_u64(g.draw(u64::MAX))
}
/// never the numbers that a secret was made of
fn dealer(g: &mut G) -> ChaChaRng {
    let mut r = rng(g);
    r.set_stream(1);
    r
}
fn params(g: &mut G) -> (usize, usize) {
    let n = if is_large() {
        g.range(256, 300)
    } else if g.chance(1, 20) {
        g.range(2, 40)
    } else {
        g.range(2, 9)
    };
    let t = match g.draw(3) {
        0 => 2,
        1 if !is_large() => n,
        _ if is_large() => g.range(2, 20),
        _ => g.range(2, n),
    };
    (t, n)
}
fn sb<S: Field>(x: &S) -> Vec<u8> {
    x.to_bytes().to_vec()
}
fn copy<S: Field>(x: &S) -> S {
    let mut r = S::zero();
    r.add_assign(x);
    r
}
fn rcopy<S: Field, R: Group<S>>(x: &R) -> R {
    let mut r = R::zero();
    r.add_assign(x);
    r
}
fn fcopy<S: Field, R: Group<S>>(v: &FeldmanVerifier<S, R>) -> FeldmanVerifier<S, R> {
    FeldmanVerifier { g: rcopy::<S, R>(&v.g), commitments: v.commitments.to_vec() }
}
fn pcopy<S: Field, R: Group<S>>(v: &PedersenVerifier<S, R>) -> PedersenVerifier<S, R> {
    PedersenVerifier { g: rcopy::<S, R>(&v.g), h: rcopy::<S, R>(&v.h), commitments: v.commitments.to_vec() }
}
fn secret<S: Field>(g: &mut G) -> S {
    match g.draw(3) {
        0 => S::from_usize(1 + g.below(3)),
        1 => {
            let mut s = S::from_usize(1 + g.below(3));
            s.negate();
            s
        }
        _ => S::random(&mut rng(g)),
    }
}
/// a share through its encoding, or not
fn ship(g: &mut G, s: &Share) -> Result<Share, Fail> {
    if g.bool() {
        return Ok(s.clone());
    }
    let v = s.to_bytes();
    let mut want = s.identifier().to_be_bytes().to_vec();
    want.extend_from_slice(s.value());
    ensure!(v == want, "share-bytes", "share {} is encoded as {}", s.identifier(), hex(&v));
    let r = e("Share::try_from", Share::try_from(&v[..]))?;
    ensure!(r.identifier() == s.identifier() && r.value() == s.value(), "roundtrip", "share {} changed in its encoding", s.identifier());
    Ok(r)
}
fn some(g: &mut G, shares: &[Share], t: usize) -> Result<Vec<Share>, Fail> {
    let k = if g.bool() { t } else { g.range(t, shares.len()) };
    let mut who = g.subset_k(shares.len(), k);
    g.shuffle(&mut who);
    let mut r = vec![];
    for i in who {
        r.push(ship(g, &shares[i])?)
    }
    Ok(r)
}
/// everything that combining has to do, for any of the three schemes
fn combining<S: Field, R: Group<S>>(g: &mut G, shares: &[Share], t: usize, secret: &S, f: &dyn Fn(&[Share]) -> Result<S, SharingError>, fr: &dyn Fn(&[Share]) -> Result<R, SharingError>) -> R_ {
    for (i, s) in shares.iter().enumerate() {
        ensure!(s.identifier() == i as u32 + 1, "identifier", "share {} has the identifier {}", i, s.identifier());
    }
    for _ in 0..2 {
        let part = some(g, shares, t)?;
        let ids: Vec<u32> = part.iter().map(|s| s.identifier()).collect();
        let r = e("combine_shares", f(&part))?;
        ensure!(sb(&r) == sb(secret), "secret", "shares {:?} of {} give {} instead of {}", ids, t, hex(&sb(&r)), hex(&sb(secret)));
        g.eval();
        // the same in the exponent
        let base = R::random(&mut rng(g));
        let mut up = vec![];
        for s in &part {
            let mut x = rcopy(&base);
            x.scalar_mul_assign(&e("from_bytes", S::from_bytes(s.value()))?);
            up.push(Share::new(s.identifier() as usize, x.to_bytes()));
        }
        let mut want = rcopy(&base);
        want.scalar_mul_assign(secret);
        let r = e("combine_shares", fr(&up))?;
        ensure!(r.to_bytes() == want.to_bytes(), "secret", "shares {:?} in the exponent give {}", ids, hex(&r.to_bytes()));
        // altered, relabelled, repeated, labelled zero, too few
        let i = g.below(part.len());
        let mut bad = part.clone();
        let mut v = e("from_bytes", S::from_bytes(part[i].value()))?;
        v.add_assign(&secret_of(g));
        bad[i] = Share::new(part[i].identifier() as usize, v.to_bytes());
        ensure!(f(&bad).map_or(true, |r| sb(&r) != sb(secret)), "secret", "an altered share gives the secret");
        let mut bad = part.clone();
        bad[i] = Share::new(shares.len() + 1 + g.below(1000), part[i].value());
        ensure!(f(&bad).map_or(true, |r| sb(&r) != sb(secret)), "secret", "a relabelled share gives the secret");
        let mut bad = part.clone();
        bad.push(part[i].clone());
        ensure!(f(&bad).is_err(), "duplicate-accepted", "a repeated share is combined");
        let j = (i + 1) % part.len();
        let mut bad = part.clone();
        bad[i] = Share::new(part[j].identifier() as usize, part[i].value());
        ensure!(f(&bad).is_err(), "duplicate-accepted", "a repeated identifier is combined");
        let mut bad = part.clone();
        bad[i] = Share::new(0, part[i].value());
        ensure!(f(&bad).is_err(), "identifier", "the identifier zero is combined");
        let few = g.draw(t as u64 - 1) as usize;
        ensure!(f(&part[..few]).is_err(), "too-few", "{} shares of {} are combined", few, t);
        g.eval();
    }
    Ok(())
}
type R_ = R;
/// not zero
fn secret_of<S: Field>(g: &mut G) -> S {
    secret(g)
}

fn schemes<S: Field>(g: &mut G) -> R {
    let (t, n) = (g.draw(6) as usize, g.draw(6) as usize);
    let ok = t >= 2 && t <= n;
    g.show(format!("{} of {}", t, n));
    ensure!(Shamir::new(t, n).is_ok() == ok && Feldman::new(t, n).is_ok() == ok && Pedersen::new(t, n).is_ok() == ok, "parameters", "{} of {}: {:?}", t, n, (Shamir::new(t, n).is_ok(), Feldman::new(t, n).is_ok(), Pedersen::new(t, n).is_ok()));
    g.eval();
    Ok(())
}

/// the coefficients of the polynomial of degree below t that the shares lie on
fn coefficients<S: Field>(shares: &[Share], t: usize) -> Result<Vec<S>, Fail> {
    // divided differences at 1, 2, ..., then out of Newton's form
    let mut d: Vec<S> = vec![];
    for s in &shares[..t] {
        d.push(e("from_bytes", S::from_bytes(s.value()))?);
    }
    for k in 1..t {
        for i in (k..t).rev() {
            let mut x = copy(&d[i]);
            x.sub_assign(&copy(&d[i - 1]));
            x.scalar_div_assign(&S::from_usize(k));
            d[i] = x;
        }
    }
    let mut c = vec![copy(&d[t - 1])];
    for i in (0..t - 1).rev() {
        // c (x - (i + 1)) + d[i]
        let mut next = vec![S::zero()];
        next.extend(c.iter().map(copy));
        for (j, a) in c.iter().enumerate() {
            let mut y = copy(a);
            y.scalar_mul_assign(&S::from_usize(i + 1));
            next[j].sub_assign(&y);
        }
        next[0].add_assign(&d[i]);
        c = next;
    }
    Ok(c)
}
/// What hides the secret from fewer than t: coefficients of which none says anything about another or
/// about the secret, the same never used again
fn hides<S: Field>(sharings: &[&[Share]], t: usize, secret: &S) -> R {
    let mut all = vec![sb(secret), sb(&S::zero())];
    for (k, sh) in sharings.iter().enumerate() {
        let c = coefficients::<S>(sh, t)?;
        // (the second half of a Pedersen sharing shares a blinding)
        ensure!(k > 0 || sb(&c[0]) == sb(secret), "polynomial", "the polynomial is not the secret at zero");
        for (i, c) in c.iter().enumerate().skip(1) {
            let c = sb(c);
            ensure!(!all.contains(&c), "not-hidden", "coefficient {} of sharing {} of {} is not random", i, k, sharings.len());
            all.push(c);
        }
    }
    Ok(())
}

/// shares as bytes and in memory
fn stored(g: &mut G) -> R_ {
    pbt::mem::POISON.store(true, std::sync::atomic::Ordering::Relaxed);
    let id = match g.below(4) {
        0 => u32::MAX as usize - g.below(3),
        1 => g.below(3),
        _ => g.draw(u32::MAX as u64) as usize,
    };
    let n = g.range(0, 100);
    let v = pbt::mem::secret(g.draw(u64::MAX), n);
    g.show(format!("identifier {}, {}", id, hex(&v)));
    let s = Share::new(id, &v);
    let b = s.to_bytes();
    ensure!(s.identifier() as usize == id && s.value() == &v[..], "share", "{:?} was made of {} and {}", s, id, hex(&v));
    ensure!(b[..4] == (id as u32).to_be_bytes() && b[4..] == v[..], "share-bytes", "{:?} is {}", s, hex(&b));
    let back = e("a share from bytes", Share::try_from(&b[..]))?;
    ensure!(back.identifier() == s.identifier() && back.value() == s.value(), "share-bytes", "{} is read as {:?}", hex(&b), back);
    let short = g.below(4);
    ensure!(Share::try_from(&b[..short]).is_err(), "share-short", "a share is read from {} bytes", short);
    if v.len() >= 8 {
        g.nontrivial();
        let copy = s.clone();
        for x in vec![s, back, copy] {
            g.eval();
            let (_, after) = pbt::mem::dropped(x, &v);
            ensure!(!after, "wipe", "a share leaves {} in memory when it is dropped", hex(&v));
        }
    }
    Ok(())
}
fn shamir<S: Field, R: Group<S>>(g: &mut G) -> R_ {
    let (t, n) = params(g);
    let s: S = secret(g);
    g.show(format!("{} of {}, secret {}", t, n, hex(&sb(&s))));
    g.nontrivial();
    let sc = e("Scheme::new", Shamir::new(t, n))?;
    let mut r = dealer(g);
    let shares = e("split_secret", sc.split_secret(&mut r, &s))?;
    ensure!(shares.len() == n, "count", "{} shares instead of {}", shares.len(), n);
    hides(&[&shares[..], &e("split_secret", sc.split_secret(&mut r, &s))?[..]], t, &s)?;
    combining::<S, R>(g, &shares, t, &s, &|x| sc.combine_shares::<S, S>(x), &|x| sc.combine_shares::<S, R>(x))?;
    // fewer shares do not give it away to a scheme with a lower threshold
    if t > 2 {
        let low = e("Scheme::new", Shamir::new(2, n))?;
        let r = e("combine_shares", low.combine_shares::<S, S>(&shares[..t - 1]))?;
        ensure!(sb(&r) != sb(&s), "too-few", "{} shares of {} determine the secret", t - 1, t);
    }
    ensure!(sc.split_secret(&mut rng(g), &S::zero()).is_err(), "zero", "the invalid secret zero is split");
    Ok(())
}

/// the value at x of the committed polynomial
fn committed<S: Field, R: Group<S>>(cs: &[R], x: u32) -> R {
    let mut r = R::zero();
    for c in cs.iter().rev() {
        r.scalar_mul_assign(&S::from_usize(x as usize));
        r.add_assign(c);
    }
    r
}
fn times<S: Field, R: Group<S>>(b: &R, v: &S) -> R {
    let mut r = rcopy::<S, R>(b);
    r.scalar_mul_assign(v);
    r
}
fn bump<S: Field, R: Group<S>>(g: &mut G, v: &R) -> R {
    let mut r = rcopy::<S, R>(v);
    match g.draw(2) {
        0 => r.negate(),
        1 => r.add_assign(&R::random(&mut rng(g))),
        _ => {
            let x = rcopy::<S, R>(&r);
            r.add_assign(&x)
        }
    }
    r
}
/// mutations of an encoding: either an error, or decoded to what the bytes say
fn damage(g: &mut G, v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    match g.draw(4) {
        0 => {
            let k = g.below(v.len());
            v.truncate(k)
        }
        1 => v.extend(g.bytes(1, 70)),
        2 => {
            let i = g.below(v.len());
            v[i] ^= 1 << g.draw(7);
        }
        3 => {
            let i = g.below(v.len());
            for x in &mut v[i..] {
                *x = 255
            }
        }
        _ => v = g.bytes(0, 200),
    }
    v
}

fn feldman<S: Field, R: Group<S>>(g: &mut G) -> R_ {
    let (t, n) = params(g);
    let s: S = secret(g);
    g.show(format!("{} of {}, secret {}", t, n, hex(&sb(&s))));
    g.nontrivial();
    let sc = e("Scheme::new", Feldman::new(t, n))?;
    let gen = if g.bool() { Some(R::random(&mut rng(g))) } else { None };
    let gb = gen.as_ref().map(|x| x.to_bytes().to_vec());
    let mut r = dealer(g);
    let (ver, shares): (FeldmanVerifier<S, R>, Vec<Share>) = e("split_secret", sc.split_secret(&mut r, &s, gen))?;
    {
        let again: (FeldmanVerifier<S, R>, Vec<Share>) = e("split_secret", sc.split_secret(&mut r, &s, None))?;
        hides(&[&shares[..], &again.1[..]], t, &s)?;
    }
    ensure!(shares.len() == n && ver.commitments.len() == t, "count", "{} shares and {} commitments", shares.len(), ver.commitments.len());
    ensure!(gb.map_or(true, |x| x == ver.g.to_bytes().to_vec()), "generator", "the supplied generator is not used");
    let cs = |v: &FeldmanVerifier<S, R>| -> Result<Vec<R>, Fail> { v.commitments.iter().map(|c| e("from_bytes", R::from_bytes(&c.to_bytes()))).collect() };
    let c = cs(&ver)?;
    ensure!(c[0].to_bytes() == times(&ver.g, &s).to_bytes(), "commitment", "the first commitment is not to the secret");
    combining::<S, R>(g, &shares, t, &s, &|x| sc.combine_shares::<S, S>(x), &|x| sc.combine_shares::<S, R>(x))?;
    // commitment sets survive
    let bytes = ver.to_bytes();
    let ver = if g.bool() {
        match no_panic(|| FeldmanVerifier::<S, R>::try_from(&bytes[..])) {
            Err(p) => return fail("panic", format!("decoding a verifier aborts: {}", p)),
            Ok(v) => e("FeldmanVerifier::try_from", v)?,
        }
    } else {
        ver
    };
    ensure!(ver.to_bytes() == bytes, "roundtrip", "a verifier changed in its encoding");
    // an oracle for every share there may be
    let check = |share: &Share, ver: &FeldmanVerifier<S, R>, c: &[R]| -> R_ {
        let got = sc.verify_share(share, ver).is_ok();
        let v = S::from_bytes(share.value());
        let want = c.len() >= t && v.map_or(false, |v| v.is_valid() && times(&ver.g, &v).to_bytes() == committed::<S, R>(c, share.identifier()).to_bytes());
        ensure!(got == want, if want { "honest-rejected" } else { "altered-accepted" }, "share {} with {} is {}", share.identifier(), hex(share.value()), if got { "accepted" } else { "rejected" });
        Ok(())
    };
    for x in &shares {
        let x = ship(g, x)?;
        ensure!(sc.verify_share(&x, &ver).is_ok(), "honest-rejected", "share {} does not verify", x.identifier());
        g.eval();
    }
    let i = g.below(n);
    let x = &shares[i];
    // altered
    let mut v = e("from_bytes", S::from_bytes(x.value()))?;
    let d: S = secret(g);
    v.add_assign(&d);
    let bad = Share::new(i + 1, v.to_bytes());
    ensure!(sc.verify_share(&bad, &ver).is_err(), "altered-accepted", "an altered share verifies");
    check(&bad, &ver, &c)?;
    let mut v = e("from_bytes", S::from_bytes(x.value()))?;
    v.negate();
    check(&Share::new(i + 1, v.to_bytes()), &ver, &c)?;
    check(&Share::new(i + 1, S::zero().to_bytes()), &ver, &c)?;
    // relabelled
    let j = g.below(n + 2);
    check(&Share::new(j + 1, x.value()), &ver, &c)?;
    if j != i {
        ensure!(sc.verify_share(&Share::new(j + 1, x.value()), &ver).is_err(), "altered-accepted", "share {} verifies as {}", i + 1, j + 1);
    }
    // other commitments
    let mut other = fcopy::<S, R>(&ver);
    let k = g.below(t);
    other.commitments[k] = std::convert::TryFrom::try_from(&bump::<S, R>(g, &c[k]).to_bytes()[..]).unwrap();
    check(x, &other, &cs(&other)?)?;
    ensure!(sc.verify_share(x, &other).is_err(), "altered-accepted", "a share verifies with commitment {} changed", k);
    let mut other = fcopy::<S, R>(&ver);
    other.commitments.swap(k, (k + 1) % t);
    check(x, &other, &cs(&other)?)?;
    let mut other = fcopy::<S, R>(&ver);
    other.commitments.truncate(g.below(t));
    match no_panic(|| sc.verify_share(x, &other).is_ok()) {
        Err(p) => return fail("panic", format!("verifying with {} commitments aborts: {}", other.commitments.len(), p)),
        Ok(r) => ensure!(!r, "altered-accepted", "a share verifies with {} of {} commitments", other.commitments.len(), t),
    }
    // a dealer whose polynomial is of a lower degree
    if t > 2 {
        let low = 2 + g.below(t - 2);
        let (v3, shares3): (FeldmanVerifier<S, R>, Vec<Share>) = e("split_secret", e("Scheme::new", Feldman::new(low, n))?.split_secret(&mut rng(g), &s, None))?;
        ensure!(sc.verify_share(&shares3[i], &v3).is_err(), "altered-accepted", "a share of a {} of {} sharing verifies in one with threshold {}", low, n, t);
        check(&shares3[i], &v3, &cs(&v3)?)?;
    }
    let mut other = fcopy::<S, R>(&ver);
    other.g = bump::<S, R>(g, &ver.g);
    ensure!(sc.verify_share(x, &other).is_err(), "altered-accepted", "a share verifies with another generator");
    let (ver2, shares2): (FeldmanVerifier<S, R>, Vec<Share>) = e("split_secret", sc.split_secret(&mut rng(g), &s, Some(rcopy::<S, R>(&ver.g))))?;
    ensure!(sc.verify_share(x, &ver2).is_err() && sc.verify_share(&shares2[i], &ver).is_err(), "altered-accepted", "a share of another sharing of the same secret verifies");
    g.eval();
    // damaged encodings
    let v = damage(g, &bytes);
    match no_panic(|| FeldmanVerifier::<S, R>::try_from(&v[..])) {
        Err(p) => return fail("panic", format!("decoding a verifier from {} aborts: {}", hex(&v), p)),
        Ok(Ok(d)) => {
            ensure!(d.to_bytes() == v, "malformed-accepted", "{} decodes to a verifier with the encoding {}", hex(&v), hex(&d.to_bytes()));
            if v != bytes {
                ensure!(d.to_bytes() != bytes, "malformed-accepted", "two encodings of a verifier");
            }
            g.label("damaged but a verifier");
        }
        Ok(Err(_)) => g.label("damaged and refused"),
    }
    let v = g.bytes(0, 40);
    match no_panic(|| Share::try_from(&v[..]).map(|s| s.to_bytes())) {
        Err(p) => return fail("panic", format!("decoding a share from {} aborts: {}", hex(&v), p)),
        Ok(Ok(w)) => ensure!(w == v, "malformed-accepted", "{} decodes to a share with the encoding {}", hex(&v), hex(&w)),
        Ok(Err(_)) => ensure!(v.len() < 4, "valid-refused", "a share of {} bytes is refused", v.len()),
    }
    let junk = Share::new(i + 1, g.bytes(0, 40));
    match no_panic(|| (sc.verify_share(&junk, &ver).is_ok(), sc.combine_shares::<S, S>(&[junk.clone(), shares[(i + 1) % n].clone()]).is_ok())) {
        Err(p) => return fail("panic", format!("a share with the value {} aborts: {}", hex(junk.value()), p)),
        Ok(_) => check(&junk, &ver, &c)?,
    }
    g.eval();
    Ok(())
}

fn pedersen<S: Field, R: Group<S>>(g: &mut G) -> R_ {
    let (t, n) = params(g);
    let s: S = secret(g);
    g.show(format!("{} of {}, secret {}", t, n, hex(&sb(&s))));
    g.nontrivial();
    let sc = e("Scheme::new", Pedersen::new(t, n))?;
    let gen = if g.bool() { Some(R::random(&mut rng(g))) } else { None };
    let hen = if g.bool() { Some(R::random(&mut rng(g))) } else { None };
    let gb = gen.as_ref().map(|x| x.to_bytes().to_vec());
    let hb = hen.as_ref().map(|x| x.to_bytes().to_vec());
    let mut d = dealer(g);
    let r: PedersenVssResult<S, R> = e("split_secret", sc.split_secret(&mut d, &s, gen, hen))?;
    {
        let q: PedersenVssResult<S, R> = e("split_secret", sc.split_secret(&mut d, &s, None, None))?;
        hides(&[&r.secret_shares[..], &r.blinding_shares[..], &q.secret_shares[..], &q.blinding_shares[..]], t, &s)?;
        let b = [sb(&r.blinding), sb(&q.blinding)];
        ensure!(b[0] != b[1] && !b.contains(&sb(&s)) && !b.contains(&sb(&S::zero())), "not-hidden", "the blinding of the secret is not random");
    }
    let ver = r.verifier;
    let (ss, bs) = (r.secret_shares, r.blinding_shares);
    ensure!(ss.len() == n && bs.len() == n && ver.commitments.len() == t, "count", "{} and {} shares, {} commitments", ss.len(), bs.len(), ver.commitments.len());
    ensure!(gb.map_or(true, |x| x == ver.g.to_bytes().to_vec()) && hb.map_or(true, |x| x == ver.h.to_bytes().to_vec()), "generator", "a supplied generator is not used");
    ensure!(ver.g.to_bytes() != ver.h.to_bytes(), "generator", "the two generators are the same");
    let cs = |v: &PedersenVerifier<S, R>| -> Result<Vec<R>, Fail> { v.commitments.iter().map(|c| e("from_bytes", R::from_bytes(&c.to_bytes()))).collect() };
    let c = cs(&ver)?;
    let mut want = times(&ver.g, &s);
    want.add_assign(&times(&ver.h, &r.blinding));
    ensure!(c[0].to_bytes() == want.to_bytes(), "commitment", "the first commitment is not to the secret and the blinding");
    combining::<S, R>(g, &ss, t, &s, &|x| sc.combine_shares::<S, S>(x), &|x| sc.combine_shares::<S, R>(x))?;
    combining::<S, R>(g, &bs, t, &r.blinding, &|x| sc.combine_shares::<S, S>(x), &|x| sc.combine_shares::<S, R>(x))?;
    let bytes = ver.to_bytes();
    let ver = if g.bool() {
        match no_panic(|| PedersenVerifier::<S, R>::try_from(&bytes[..])) {
            Err(p) => return fail("panic", format!("decoding a verifier aborts: {}", p)),
            Ok(v) => e("PedersenVerifier::try_from", v)?,
        }
    } else {
        ver
    };
    ensure!(ver.to_bytes() == bytes, "roundtrip", "a verifier changed in its encoding");
    let check = |x: &Share, y: &Share, ver: &PedersenVerifier<S, R>, c: &[R]| -> R_ {
        let got = sc.verify_share(x, y, ver).is_ok();
        let want = match (S::from_bytes(x.value()), S::from_bytes(y.value())) {
            (Ok(v), Ok(w)) => {
                let mut l = times(&ver.g, &v);
                l.add_assign(&times(&ver.h, &w));
                v.is_valid() && w.is_valid() && x.identifier() == y.identifier() && l.to_bytes() == committed::<S, R>(c, x.identifier()).to_bytes()
            }
            _ => false,
        };
        ensure!(got == want, if want { "honest-rejected" } else { "altered-accepted" }, "shares {} and {} are {}", x.identifier(), y.identifier(), if got { "accepted" } else { "rejected" });
        Ok(())
    };
    for (x, y) in ss.iter().zip(&bs) {
        let (x, y) = (ship(g, x)?, ship(g, y)?);
        ensure!(sc.verify_share(&x, &y, &ver).is_ok(), "honest-rejected", "share {} does not verify", x.identifier());
        g.eval();
    }
    let i = g.below(n);
    let (x, y) = (&ss[i], &bs[i]);
    let add = |s: &Share, d: &S| -> Result<Share, Fail> {
        let mut v = e("from_bytes", S::from_bytes(s.value()))?;
        v.add_assign(d);
        Ok(Share::new(s.identifier() as usize, v.to_bytes()))
    };
    let d: S = secret(g);
    for (a, b, w) in &[(add(x, &d)?, y.clone(), "secret share altered"), (x.clone(), add(y, &d)?, "blinding share altered"), (add(x, &d)?, add(y, &d)?, "both shares altered"), (y.clone(), x.clone(), "shares exchanged")] {
        ensure!(sc.verify_share(a, b, &ver).is_err(), "altered-accepted", "verifies with the {}", w);
        check(a, b, &ver, &c)?;
    }
    let j = g.below(n + 2);
    if j != i {
        let (xr, yr) = (Share::new(j + 1, x.value()), Share::new(j + 1, y.value()));
        ensure!(sc.verify_share(&xr, &yr, &ver).is_err(), "altered-accepted", "shares {} verify as {}", i + 1, j + 1);
        ensure!(sc.verify_share(&xr, y, &ver).is_err(), "altered-accepted", "secret share {} verifies as {}", i + 1, j + 1);
        ensure!(sc.verify_share(x, &yr, &ver).is_err(), "blinding-relabelled", "blinding share {} verifies as {}", i + 1, j + 1);
        if j < n {
            check(x, &bs[j], &ver, &c)?;
            check(&ss[j], y, &ver, &c)?;
        }
    }
    let mut other = pcopy::<S, R>(&ver);
    let k = g.below(t);
    other.commitments[k] = std::convert::TryFrom::try_from(&bump::<S, R>(g, &c[k]).to_bytes()[..]).unwrap();
    check(x, y, &other, &cs(&other)?)?;
    ensure!(sc.verify_share(x, y, &other).is_err(), "altered-accepted", "a share verifies with commitment {} changed", k);
    let mut other = pcopy::<S, R>(&ver);
    other.commitments.truncate(g.below(t));
    match no_panic(|| sc.verify_share(x, y, &other).is_ok()) {
        Err(p) => return fail("panic", format!("verifying with {} commitments aborts: {}", other.commitments.len(), p)),
        Ok(r) => ensure!(!r, "altered-accepted", "a share verifies with {} of {} commitments", other.commitments.len(), t),
    }
    // a dealer whose polynomials are of a lower degree
    if t > 2 {
        let low = 2 + g.below(t - 2);
        let r: PedersenVssResult<S, R> = e("split_secret", e("Scheme::new", Pedersen::new(low, n))?.split_secret(&mut rng(g), &s, None, None))?;
        ensure!(sc.verify_share(&r.secret_shares[i], &r.blinding_shares[i], &r.verifier).is_err(), "altered-accepted", "a share of a {} of {} sharing verifies in one with threshold {}", low, n, t);
    }
    let mut other = pcopy::<S, R>(&ver);
    if g.bool() {
        other.g = bump::<S, R>(g, &ver.g);
    } else {
        other.h = bump::<S, R>(g, &ver.h);
    }
    ensure!(sc.verify_share(x, y, &other).is_err(), "altered-accepted", "a share verifies with another generator");
    g.eval();
    let v = damage(g, &bytes);
    match no_panic(|| PedersenVerifier::<S, R>::try_from(&v[..])) {
        Err(p) => return fail("panic", format!("decoding a verifier from {} aborts: {}", hex(&v), p)),
        Ok(Ok(d)) => ensure!(d.to_bytes() == v, "malformed-accepted", "{} decodes to a verifier with the encoding {}", hex(&v), hex(&d.to_bytes())),
        Ok(Err(_)) => g.label("damaged and refused"),
    }
    let junk = Share::new(i + 1, g.bytes(0, 40));
    match no_panic(|| (sc.verify_share(&junk, y, &ver).is_ok(), sc.verify_share(x, &junk, &ver).is_ok())) {
        Err(p) => return fail("panic", format!("a share with the value {} aborts: {}", hex(junk.value()), p)),
        Ok(_) => {
            check(&junk, y, &ver, &c)?;
            check(x, &junk, &ver, &c)?
        }
    }
    g.eval();
    Ok(())
}

macro_rules! both {
    ($f:ident) => {
        |g: &mut G| if g.chance(3, 4) { $f::<Zq, Qr>(g) } else { $f::<Sc, Pt>(g) }
    };
}
fn main() {
    pbt::main_with(vec![Prop {
        id: "T02",
        rule: "a secret was split and its shares combined or verified",
        assumptions: vec!["supplied groups have prime order; zero is no valid field element for them, as the Group trait says"],
        subs: vec![sub("schemes", 60, 100, 10, schemes::<Zq>), sub("shamir", 2500, 40000, 200, both!(shamir)), sub("stored", 500, 6000, 60, stored), sub("feldman", 1500, 25000, 200, both!(feldman)), sub("pedersen", 1500, 25000, 200, both!(pedersen)), sub("large-shamir", 6, 100, 4, |g| large(g, both!(shamir))), sub("large-feldman", 4, 100, 4, |g| large(g, both!(feldman))), sub("large-pedersen", 4, 100, 4, |g| large(g, both!(pedersen)))],
    }])
}
