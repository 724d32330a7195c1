//! Z08: Camenisch-Shoup verifiable encryption
use crate::bbsx::e;
use num_bigint::BigUint;
use pbt::*;
use zmix::verifiable_encryption::bn::BigNumber;
use zmix::verifiable_encryption::cl::hash::get_hash_as_int;
use zmix::verifiable_encryption::cs_verifiable_encryption::*;

// safe primes
const PRIMES: [(&str, &str); 7] = [
    ("14936379456626050883", "14349461025387249407"),
    ("5307437523753685226221702990388919927778226901197017223699", "4754893020303795997069952626545440725197664680592754296763"),
    ("6219600299532691915624199631891581496830313669836945041247", "6022338065649814402985783929391519934699291657647028881399"),
    ("26740565222170189234729837526596314237632580540158952804010234935827", "23074102922507254761007324457939958195979023117503668920761094224879"),
    ("103017103509873539449146679179053549883698594269634085883262414744176779525443", "90171354631201249219771283987070826127298362964471532636138702219162895974187"),
    ("13084204658907880170587464723241781886689779448057532437330315440509775749980484204282287845497380754079476176629251295994986213513714578803599706389165807", "11110100304548254916565401143087887619390070005031835998830194569183803028865018626369439618004788601628561464772309116256074106527637952964388435175394739"),
    ("154271097831726216743541666678777702789372640930354730574326989584903659411780324951282615265326088555850302761318530874860026539578253365452340281026141461952139871785188880389444216376808556968689281538067139950466217340056928821308967813305512827460709525572543614842927783655039099802147685591062241459807", "166577947476527819985020427871391660274389560988549385231896358335762820625671627555679975538912843905483346405632953723600544644301118012809196347851791974831747285174681862264854985349595830091412168680693228062456343791408892848755447062071414643119864420764602715167295789754716579425067891598698684017019"),
];

fn lib(x: &BigUint) -> BigNumber {
    BigNumber::from_dec(&x.to_string()).unwrap()
}
fn big(x: &BigNumber) -> BigUint {
    x.to_dec().unwrap().parse().expect("a number that is not negative")
}
fn b(x: u32) -> BigUint {
    BigUint::from(x)
}
/// below n, the edges often
fn num(g: &mut G, n: &BigUint) -> BigUint {
    match g.draw(9) {
        0 => b(0),
        1 => b(1),
        2 => n - b(1),
        3 => BigUint::from(g.draw(1000)) % n,
        4 => (n >> 1usize) + b(g.draw(1) as u32),
        _ => {
            let k = (n.bits() as usize + 7) / 8 + 8;
            BigUint::from_bytes_be(&g.bytes_n(k)) % n
        }
    }
}
struct Key {
    n: BigUint,
    n2: BigUint,
    g: BigUint,
    x1: Vec<BigUint>,
    x2: BigUint,
    x3: BigUint,
    y2: BigUint,
    y3: BigUint,
    pk: CSEncPubkey,
    sk: CSEncPrikey,
}
impl Key {
    /// secrets with which parts of a ciphertext do not depend on the rest
    fn weak(&self) -> bool {
        let y = |x: &BigUint| self.g.modpow(x, &self.n2) == b(1);
        y(&b(1)) || self.y2 == b(1) || self.y3 == b(1) || self.x1.iter().any(y)
    }
}
/// The key of given primes, made here or by the library
fn key(g: &mut G, large: bool) -> Result<Key, Fail> {
    let k = if is_large() { g.range(17, 40) } else { 1 + g.below(4) };
    let i = if large { PRIMES.len() - 1 } else if g.chance(1, 12) { PRIMES.len() - 2 } else { g.below(PRIMES.len() - 2) };
    let p: (BigUint, BigUint) = (PRIMES[i].0.parse().unwrap(), PRIMES[i].1.parse().unwrap());
    let n = p.0 * p.1;
    g.label(format!("{} bits", n.bits()));
    let n2 = &n * &n;
    let mut ctx = BigNumber::new_context().unwrap();
    let group = if g.chance(1, 4) {
        let x = e("PaillierGroup::new", PaillierGroup::new(&lib(&n), &mut ctx))?;
        ensure!(big(&x.h) == &n + b(1) && big(&x.modulus) == n2 && big(&x.n_by_4) == &n >> 2usize && big(&x.g) < n2, "group", "the group of {} is wrong", n);
        // g is a 2n-th residue: its order divides p'q'
        x
    } else {
        let r = num(g, &n2);
        let r = if (&r % &n) == b(0) { b(2) } else { r };
        PaillierGroup { g: lib(&r.modpow(&(&n << 1usize), &n2)), h: lib(&(&n + b(1))), n_by_4: lib(&(&n >> 2usize)), modulus: lib(&n2) }
    };
    let gg = big(&group.g);
    let q = &n2 >> 2usize;
    let x1: Vec<BigUint> = (0..k).map(|_| num(g, &q)).collect();
    let (x2, x3) = (num(g, &q), num(g, &q));
    let y = |x: &BigUint| gg.modpow(x, &n2);
    let (y2, y3) = (y(&x2), y(&x3));
    let pk = CSEncPubkey { n: lib(&n), two_inv_times_2: lib(&(&n + b(1))), paillier_group: group, y1: x1.iter().map(|x| lib(&y(x))).collect(), y2: lib(&y2), y3: lib(&y3) };
    let sk = CSEncPrikey { x1: x1.iter().map(lib).collect(), x2: lib(&x2), x3: lib(&x3) };
    let pk = e("key", serde_json::from_str(&e("key", serde_json::to_string(&pk))?))?;
    let sk = e("key", serde_json::from_str(&e("key", serde_json::to_string(&sk))?))?;
    Ok(Key { n, n2, g: gg, x1, x2, x3, y2, y3, pk, sk })
}
fn hash(u: &BigUint, es: &[BigUint], label: &[u8]) -> Result<BigUint, Fail> {
    let mut v = vec![e("bytes", lib(u).to_bytes())?];
    for x in es {
        v.push(e("bytes", lib(x).to_bytes())?);
    }
    v.push(label.to_vec());
    Ok(big(&e("hash", get_hash_as_int(&v))?))
}
type C = (BigUint, Vec<BigUint>, BigUint);
fn c_big(c: &CSCiphertext) -> C {
    (big(&c.u), c.e.iter().map(big).collect(), big(&c.v))
}
fn c_lib(c: &C) -> CSCiphertext {
    CSCiphertext { u: lib(&c.0), e: c.1.iter().map(lib).collect(), v: lib(&c.2) }
}
/// section 3.2 of the paper
fn own_encrypt(k: &Key, r: &BigUint, m: &[BigUint], label: &[u8]) -> Result<C, Fail> {
    let p = |b: &BigUint, x: &BigUint| b.modpow(x, &k.n2);
    let u = p(&k.g, r);
    let es: Vec<_> = m.iter().enumerate().map(|(i, m)| p(&p(&k.g, &k.x1[i]), r) * (b(1) + m * &k.n) % &k.n2).collect();
    let h = hash(&u, &es, label)?;
    let v = p(&(&k.y2 * p(&k.y3, &h) % &k.n2), r);
    let v = if v > &k.n2 >> 1usize { &k.n2 - v } else { v };
    Ok((u, es, v))
}
/// the messages, if the ciphertext is valid
fn own_decrypt(k: &Key, c: &C, label: &[u8]) -> Result<Option<Vec<BigUint>>, Fail> {
    let (u, es, v) = c;
    if es.len() > k.x1.len() || *v > &k.n2 >> 1usize || (u % &k.n2).modpow(&b(1), &k.n) == b(0) {
        return Ok(None);
    }
    let h = hash(u, es, label)?;
    let x = (h * &k.x3 + &k.x2) << 1usize;
    if u.modpow(&x, &k.n2) != v * v % &k.n2 {
        return Ok(None);
    }
    let mut out = vec![];
    for (i, y) in es.iter().enumerate() {
        let d = u.modpow(&k.x1[i], &k.n2);
        // the inverse: the order of the group divides n * phi(n)
        let inv = match inverse(&d, &k.n2) {
            Some(x) => x,
            None => return Ok(None),
        };
        let m = (y * inv % &k.n2).modpow(&(&k.n + b(1)), &k.n2);
        if &m % &k.n != b(1) {
            return Ok(None);
        }
        out.push((m - b(1)) / &k.n);
    }
    Ok(Some(out))
}
fn inverse(a: &BigUint, n: &BigUint) -> Option<BigUint> {
    use num_bigint::BigInt;
    let (mut r0, mut r1) = (BigInt::from(n.clone()), BigInt::from(a % n));
    let (mut s0, mut s1) = (BigInt::from(0), BigInt::from(1));
    while r1 != BigInt::from(0) {
        let q = &r0 / &r1;
        let t = &r0 - &q * &r1;
        r0 = r1;
        r1 = t;
        let t = &s0 - &q * &s1;
        s0 = s1;
        s1 = t;
    }
    if r0 != BigInt::from(1) {
        return None;
    }
    let n = BigInt::from(n.clone());
    (((s0 % &n) + &n) % &n).to_biguint()
}
fn label(g: &mut G) -> Vec<u8> {
    match g.below(4) {
        0 => vec![],
        1 => b"test".to_vec(),
        _ => g.bytes(0, 60),
    }
}
fn messages(g: &mut G, k: &Key) -> Vec<BigUint> {
    let c = if g.chance(1, 10) { 0 } else if g.bool() { k.x1.len() } else { 1 + g.below(k.x1.len()) };
    (0..c).map(|_| num(g, &k.n)).collect()
}
fn libs(v: &[BigUint]) -> Vec<BigNumber> {
    v.iter().map(lib).collect()
}
/// change one component
fn alter(g: &mut G, k: &Key, c: &mut C, label: &mut Vec<u8>) -> &'static str {
    let n = c.1.len();
    let ch = |g: &mut G, x: &mut BigUint| match g.below(6) {
        0 => {
            *x = (&k.n2 - &*x) % &k.n2;
            "negated"
        }
        1 => {
            *x += &k.n2;
            "another representative"
        }
        2 => {
            // another message
            *x = &*x * (&k.n + b(1)) % &k.n2;
            "times h"
        }
        3 => {
            *x = b(g.draw(2) as u32);
            "small"
        }
        4 => {
            let r = num(g, &k.n2);
            *x = &*x * r % &k.n2;
            "times a number"
        }
        _ => {
            let i = g.below(k.n2.bits() as usize);
            let bit = b(1) << i;
            *x ^= bit;
            "a bit"
        }
    };
    match g.below(10) {
        0 | 1 => {
            ch(g, &mut c.0);
            "u"
        }
        2 | 3 if n > 0 => {
            let i = g.below(n);
            ch(g, &mut c.1[i]);
            "e"
        }
        4 => {
            ch(g, &mut c.2);
            "v"
        }
        5 => {
            c.2 = &k.n2 - &c.2;
            "-v"
        }
        6 if n > 0 => {
            c.1.pop();
            "e shorter"
        }
        7 => {
            let r = num(g, &k.n2);
            c.1.push(if n > 0 && g.bool() { c.1[0].clone() } else { r });
            "e longer"
        }
        8 if n > 1 => {
            let i = g.below(n);
            c.1.swap(i, (i + 1) % n);
            "e swapped"
        }
        _ => {
            if label.is_empty() || g.bool() {
                label.push(g.draw(255) as u8)
            } else {
                let i = g.below(label.len());
                label[i] ^= 1 << g.below(8)
            }
            "label"
        }
    }
}

fn encryption_of(g: &mut G, k: &Key) -> R {
    let m = messages(g, k);
    let l = label(g);
    g.label(format!("{} of {}", m.len(), k.x1.len()));
    if m.len() > 0 {
        g.nontrivial();
    }
    let c = if g.chance(1, 3) {
        let r = num(g, &(&k.n >> 2usize));
        c_lib(&own_encrypt(k, &r, &m, &l)?)
    } else {
        e("encrypt", encrypt(&libs(&m), &l, &k.pk))?
    };
    let c: CSCiphertext = e("ciphertext", serde_json::from_str(&e("ciphertext", serde_json::to_string(&c))?))?;
    let cb = c_big(&c);
    ensure!(own_decrypt(k, &cb, &l)?.as_ref() == Some(&m), "encrypt", "the ciphertext of {:?} is not as in the paper", m);
    let d = e("decrypt", decrypt(&l, &c, &k.pk, &k.sk))?;
    ensure!(d.iter().map(big).collect::<Vec<_>>() == m, "decrypt", "{:?} is decrypted to {:?}", m, d);
    // encryption is randomized
    let c2 = e("encrypt", encrypt(&libs(&m), &l, &k.pk))?;
    ensure!(k.g == b(1) || big(&c2.u) != cb.0, "random", "two ciphertexts are equal");
    // too many
    let mut more = m.clone();
    while more.len() <= k.x1.len() {
        more.push(num(g, &k.n));
    }
    ensure!(encrypt(&libs(&more), &l, &k.pk).is_err(), "count", "{} messages are encrypted with a key for {}", more.len(), k.x1.len());
    for _ in 0..3 {
        let (mut c2, mut l2) = (cb.clone(), l.clone());
        let what = alter(g, k, &mut c2, &mut l2);
        if c2 == cb && l2 == l {
            continue;
        }
        g.label(what);
        g.eval();
        let want = own_decrypt(k, &c2, &l2)?;
        match no_panic(|| decrypt(&l2, &c_lib(&c2), &k.pk, &k.sk)) {
            Err(x) => return fail("panic", format!("decryption panics after a change of {}: {}", what, x)),
            Ok(r) => {
                let got = r.ok().map(|v| v.iter().map(big).collect::<Vec<_>>());
                ensure!(got == want, "altered", "after a change of {} decryption gives {:?} instead of {:?}", what, got, want);
                // u determines all else, unless it is trivial
                ensure!(got.is_none() || k.weak() || cb.0 <= b(1) || c2.0 <= b(1), "malleable", "after a change of {} the ciphertext of {:?} is decrypted to {:?}", what, m, got);
            }
        }
    }
    // the boundary between the ciphertext and the label
    if m.len() > 0 {
        let mut c2 = cb.clone();
        let mut l2 = e("bytes", lib(&c2.1.pop().unwrap()).to_bytes())?;
        l2.extend_from_slice(&l);
        let got = decrypt(&l2, &c_lib(&c2), &k.pk, &k.sk);
        if got.is_ok() {
            g.finding("cs-label-boundary", &format!("the ciphertext of {} messages with the last one moved into the label is decrypted", m.len()))?;
        }
    }
    Ok(())
}
fn encryption(g: &mut G) -> R {
    let k = key(g, false)?;
    encryption_of(g, &k)
}
fn encryption_large(g: &mut G) -> R {
    let k = key(g, true)?;
    encryption_of(g, &k)
}
/// keys of the library
fn keygen(g: &mut G) -> R {
    let k = 1 + g.below(3);
    let kp = e("keygen", CSKeypair::new(k))?;
    ensure!(CSKeypair::new(0).is_err(), "keygen", "a key for no messages");
    let (pk, sk) = (kp.pub_key, kp.pri_key);
    let (n, gg) = (big(&pk.n), big(&pk.paillier_group.g));
    let n2 = &n * &n;
    let x1: Vec<_> = sk.x1.iter().map(big).collect();
    ensure!(
        x1.len() == k && pk.y1.len() == k && (0..k).all(|i| gg.modpow(&x1[i], &n2) == big(&pk.y1[i])) && gg.modpow(&big(&sk.x2), &n2) == big(&pk.y2) && gg.modpow(&big(&sk.x3), &n2) == big(&pk.y3),
        "keygen",
        "the public key is not that of the secret key"
    );
    ensure!(big(&pk.two_inv_times_2) == &n + b(1) && big(&pk.paillier_group.modulus) == n2 && big(&pk.paillier_group.h) == &n + b(1) && n.bits() >= 2040, "keygen", "the parameters of the key are wrong");
    let mut all = x1.clone();
    all.push(big(&sk.x2));
    all.push(big(&sk.x3));
    ensure!((0..all.len()).all(|i| (0..i).all(|j| all[i] != all[j])), "keygen", "two secrets are equal");
    let key = Key { n, n2, g: gg, x1, x2: big(&sk.x2), x3: big(&sk.x3), y2: big(&pk.y2), y3: big(&pk.y3), pk, sk };
    encryption_of(g, &key)
}

fn same(a: &CSCiphertext, b: &CSCiphertext) -> bool {
    a.u == b.u && a.e == b.e && a.v == b.v
}
fn challenge(g: &mut G, k: &Key) -> BigUint {
    let bits = (k.n.bits() as usize - 1).min(256);
    match g.below(8) {
        0 => b(0),
        1 => b(1),
        2 => (b(1) << bits) - b(1),
        _ => BigUint::from_bytes_be(&g.bytes_n(32)) >> (256 - bits),
    }
}
fn hats(m: &[BigUint], tilde: &[BigUint], c: &BigUint) -> Vec<BigNumber> {
    m.iter().zip(tilde).map(|(m, t)| lib(t).sub(&lib(&(m * c))).unwrap()).collect()
}
fn proof_of(g: &mut G, k: &Key) -> R {
    let m = messages(g, k);
    let l = label(g);
    if m.len() > 0 {
        g.nontrivial();
    }
    g.label(format!("{} of {}", m.len(), k.x1.len()));
    let tilde: Vec<BigUint> = m.iter().map(|_| { let lim = &k.n << g.range(0, 80); num(g, &lim) }).collect();
    let (c, t, r, rt) = e("phase 1", encrypt_and_prove_phase_1(&libs(&m), &libs(&tilde), &l, &k.pk))?;
    ensure!(c_big(&c) == own_encrypt(k, &big(&r), &m, &l)?, "phase-1", "the ciphertext is not that of the returned number");
    ensure!(own_decrypt(k, &c_big(&c), &l)?.as_ref() == Some(&m), "phase-1", "the ciphertext does not contain the messages");
    let ch = challenge(g, k);
    let mut ctx = BigNumber::new_context().unwrap();
    let ctx = if g.bool() { Some(&mut ctx) } else { None };
    let r_hat = e("phase 2", encrypt_and_prove_phase_2(&r, &rt, &lib(&ch), &k.pk, ctx))?;
    ensure!(r_hat == rt.sub(&lib(&(big(&r) * &ch))).unwrap(), "phase-2", "r_hat is not r_tilde - c r");
    let s = hats(&m, &tilde, &ch);
    let t2 = e("reconstruct", reconstruct_blindings_ciphertext(&c, &s, &r_hat, &lib(&ch), &l, &k.pk))?;
    ensure!(same(&t, &t2), "honest", "an honest proof for {} messages is refused", m.len());
    // counts
    {
        let mut bl = libs(&tilde);
        if g.bool() && !bl.is_empty() { bl.pop(); } else { bl.push(lib(&b(1))); }
        ensure!(encrypt_and_prove_phase_1(&libs(&m), &bl, &l, &k.pk).is_err(), "count", "{} messages with {} blindings", m.len(), bl.len());
        let more: Vec<_> = (0..k.x1.len() + 1).map(|i| b(i as u32)).collect();
        ensure!(encrypt_and_prove_phase_1(&libs(&more), &libs(&more), &l, &k.pk).is_err(), "count", "more messages than the key has room for");
    }
    if c_big(&c).0 <= b(1) || k.weak() {
        return Ok(());
    }
    for _ in 0..4 {
        let (mut c2, mut l2, mut s2, mut rh, mut ch2) = (c_big(&c), l.clone(), hats(&m, &tilde, &ch), rt.sub(&lib(&(big(&r) * &ch))).unwrap(), ch.clone());
        let d = BigUint::from(1 + g.draw(u64::MAX - 1));
        let what = match g.below(8) {
            0 if m.len() > 0 => {
                // the proof of another message
                let i = g.below(m.len());
                let mut m2 = m.clone();
                m2[i] = (&m[i] + d) % &k.n;
                if m2 == m || &ch % &k.n == b(0) {
                    continue;
                }
                s2 = hats(&m2, &tilde, &ch);
                "a message"
            }
            1 if m.len() > 0 => {
                let i = g.below(m.len());
                s2[i] = s2[i].add(&lib(&(d % &k.n))).unwrap();
                if d_is_zero_mod(&s2[i], &hats(&m, &tilde, &ch)[i], &k.n) {
                    continue;
                }
                "a response"
            }
            2 => {
                rh = rh.add(&lib(&b(1 + g.draw(1000) as u32))).unwrap();
                "r_hat"
            }
            3 => {
                if ch == b(0) && m.len() == 0 {
                    continue;
                }
                ch2 += b(1 + g.draw(1000) as u32);
                "the challenge"
            }
            4 if m.len() > 0 => {
                if g.bool() {
                    s2.pop();
                } else {
                    s2.push(lib(&d));
                }
                "the number of responses"
            }
            5 => {
                let mut m2 = m.clone();
                for x in m2.iter_mut() {
                    *x = num(g, &k.n);
                }
                if m2 == m || ch == b(0) {
                    continue;
                }
                // encrypts other messages
                let c3 = e("encrypt", encrypt(&libs(&m2), &l, &k.pk))?;
                c2 = c_big(&c3);
                "a ciphertext of other messages"
            }
            _ => {
                let w = alter(g, k, &mut c2, &mut l2);
                if c2 == c_big(&c) && l2 == l {
                    continue;
                }
                w
            }
        };
        g.label(what);
        g.eval();
        match no_panic(|| reconstruct_blindings_ciphertext(&c_lib(&c2), &s2, &rh, &lib(&ch2), &l2, &k.pk)) {
            Err(x) => return fail("panic", format!("reconstruction panics after a change of {}: {}", what, x)),
            Ok(Err(_)) => {}
            Ok(Ok(t2)) => {
                if same(&t, &t2) {
                    // with a zero challenge the ciphertext does not matter to the equations; its hash does
                    ensure!(ch2 == b(0) && what != "-v" && what != "label", "altered", "a proof for {} messages is accepted after a change of {}", m.len(), what);
                }
            }
        }
    }
    Ok(())
}
fn d_is_zero_mod(a: &BigNumber, b_: &BigNumber, n: &BigUint) -> bool {
    let d = a.sub(b_).unwrap();
    d.to_dec().unwrap().parse::<BigUint>().map(|d| d % n == b(0)).unwrap_or(false)
}
fn proof(g: &mut G) -> R {
    let k = key(g, false)?;
    proof_of(g, &k)
}
fn proof_large(g: &mut G) -> R {
    let k = key(g, true)?;
    proof_of(g, &k)
}

/// Z12: two encryptions of the same messages, and what their proofs tell about the number they are hidden by
pub fn fresh(g: &mut G) -> R {
    use crate::fresh::distinct;
    // numbers below a quarter of the modulus must not repeat by chance
    let k = loop {
        let k = key(g, false)?;
        if k.n.bits() > 300 {
            break k;
        }
    };
    let m = messages(g, &k);
    let l = label(g);
    if !m.is_empty() {
        g.nontrivial();
    }
    let tilde: Vec<BigUint> = m.iter().map(|_| num(g, &k.n)).collect();
    let ch = BigUint::from_bytes_be(&g.bytes_n(32)) | (b(1) << 255usize);
    let mut c = vec![];
    let (mut numbers, mut cs) = (vec![], vec![]);
    let mut before: Option<(BigUint, BigUint)> = None;
    for t in 0..2 {
        let x = c_big(&e("encrypt", encrypt(&libs(&m), &l, &k.pk))?);
        let (y, z, r, rt) = e("phase 1", encrypt_and_prove_phase_1(&libs(&m), &libs(&tilde), &l, &k.pk))?;
        let rh = e("phase 2", encrypt_and_prove_phase_2(&r, &rt, &lib(&ch), &k.pk, None))?;
        c.push((format!("encryption {}", t), x));
        c.push((format!("encryption {} with a proof", t), c_big(&y)));
        c.push((format!("the commitment {}", t), c_big(&z)));
        for (w, x) in [("r", &r), ("r_tilde", &rt)].iter() {
            numbers.push((format!("{} of {}", w, t), big(x)));
        }
        // the smallest nonzero numbers are as unlikely as any
        let limit = (&k.n >> 2usize) >> 80usize;
        ensure!(big(&r) > limit, "short", "r is {}", big(&r));
        // r_hat = r_tilde - c r must not tell r: r_tilde is much longer than c r
        let product = (&k.n >> 2usize) * &ch;
        let q = big(&rt);
        ensure!(q > (&product << 24usize), "short", "r_tilde has {} bits and is to hide a product of {} bits", q.bits(), product.bits());
        let _ = rh;
        // nor do two runs tell about each other
        if let Some((r0, q0)) = before.take() {
            let dist = |a: &BigUint, c: &BigUint| if a > c { a - c } else { c - a };
            let two = b(2);
            let near = |a: &BigUint, c: &BigUint, least: &BigUint| dist(a, c) <= *least || dist(&(a * &two), c) <= *least || dist(a, &(c * &two)) <= *least;
            ensure!(!near(&r0, &big(&r), &limit), "related", "r is {} and then {}", r0, big(&r));
            ensure!(!near(&q0, &q, &(&product << 24usize)), "related", "r_tilde is {} and then {}", q0, q);
        }
        before = Some((big(&r), q.clone()));
        // who divides by the challenge
        cs.push((format!("r_hat of {}", t), q / &ch));
    }
    distinct("numbers", &numbers)?;
    distinct("quotients", &cs)?;
    if k.weak() {
        return Ok(());
    }
    distinct("u", &c.iter().map(|x| (x.0.clone(), (x.1).0.clone())).collect::<Vec<_>>())?;
    distinct("v", &c.iter().map(|x| (x.0.clone(), (x.1).2.clone())).collect::<Vec<_>>())?;
    for i in 0..m.len() {
        distinct("e", &c.iter().map(|x| (x.0.clone(), (x.1).1[i].clone())).collect::<Vec<_>>())?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "Z08",
        rule: "at least one message",
        assumptions: vec!["SHA-256 as the library computes it", "challenges have at most 256 bits and are below the modulus"],
        subs: vec![
            sub("encryption", 500, 10000, 40, encryption),
            sub("encryption-2048", 8, 60, 5, encryption_large),
            sub("large-encryption", 3, 60, 4, |g| pbt::large(g, encryption)),
            sub("large-proof", 3, 60, 4, |g| pbt::large(g, proof)),
            sub("keygen", 0, 6, 2, keygen),
            sub("proof", 500, 10000, 40, proof),
            sub("proof-2048", 8, 60, 5, proof_large),
        ],
    }]
}
