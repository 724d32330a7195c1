//! Textbook curve arithmetic over big integers: the independent references for Ed25519, X25519 and
//! secp256k1.
use num_bigint::BigUint;
use openssl::sha::{sha256, sha512};

pub type B = BigUint;
pub fn b(n: u64) -> B {
    BigUint::from(n)
}
pub fn hexb(s: &str) -> B {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}
pub fn inv(a: &B, p: &B) -> B {
    a.modpow(&(p - b(2)), p)
}
fn sub(a: &B, c: &B, p: &B) -> B {
    ((a + p) - (c % p)) % p
}
fn le(x: &B, n: usize) -> Vec<u8> {
    let mut v = x.to_bytes_le();
    v.resize(n, 0);
    v
}
pub fn be32(x: &B) -> Vec<u8> {
    let mut v = x.to_bytes_be();
    while v.len() < 32 {
        v.insert(0, 0);
    }
    v
}

lazy_static::lazy_static! {
    pub static ref P25519: B = (b(1) << 255usize) - b(19);
    pub static ref L: B = (b(1) << 252usize) + BigUint::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap();
    static ref D: B = hexb("52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3");
    static ref BASE: (B, B, B, B) = {
        let x = hexb("216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a");
        let y = hexb("6666666666666666666666666666666666666666666666666666666666666658");
        let t = (&x * &y) % &*P25519;
        (x, y, b(1), t)
    };
    pub static ref PK1: B = hexb("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f");
    pub static ref NK1: B = hexb("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
    static ref GK1: (B, B) = (
        hexb("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
        hexb("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
    );
}

// ---- edwards25519 in extended coordinates
type E = (B, B, B, B);
fn eadd(p: &E, q: &E) -> E {
    let m = &*P25519;
    let a = sub(&p.1, &p.0, m) * sub(&q.1, &q.0, m) % m;
    let bb = (&p.1 + &p.0) * (&q.1 + &q.0) % m;
    let c = &p.3 * b(2) * &*D % m * &q.3 % m;
    let d = &p.2 * b(2) * &q.2 % m;
    let e = sub(&bb, &a, m);
    let f = sub(&d, &c, m);
    let g = (&d + &c) % m;
    let h = (&bb + &a) % m;
    (&e * &f % m, &g * &h % m, &f * &g % m, &e * &h % m)
}
fn emul(k: &B, p: &E) -> E {
    let mut r: E = (b(0), b(1), b(1), b(0));
    for i in (0..k.bits()).rev() {
        r = eadd(&r, &r);
        if ((k >> (i as usize)) & b(1)) == b(1) {
            r = eadd(&r, p);
        }
    }
    r
}
fn ecompress(p: &E) -> Vec<u8> {
    let m = &*P25519;
    let z = inv(&p.2, m);
    let (x, y) = (&p.0 * &z % m, &p.1 * &z % m);
    let mut v = le(&y, 32);
    if (&x & b(1)) == b(1) {
        v[31] |= 0x80;
    }
    v
}
pub fn clamp(h: &[u8]) -> B {
    let mut a = h[..32].to_vec();
    a[0] &= 248;
    a[31] &= 127;
    a[31] |= 64;
    BigUint::from_bytes_le(&a)
}
pub fn ed_times_base(k: &B) -> Vec<u8> {
    ecompress(&emul(k, &BASE))
}
pub fn ed_public(seed: &[u8]) -> Vec<u8> {
    ecompress(&emul(&clamp(&sha512(seed)), &BASE))
}
pub fn ed_sign(seed: &[u8], msg: &[u8]) -> Vec<u8> {
    let h = sha512(seed);
    let a = clamp(&h);
    let pk = ecompress(&emul(&a, &BASE));
    let mut m = h[32..].to_vec();
    m.extend_from_slice(msg);
    let r = BigUint::from_bytes_le(&sha512(&m)) % &*L;
    let rr = ecompress(&emul(&r, &BASE));
    let mut m = rr.clone();
    m.extend_from_slice(&pk);
    m.extend_from_slice(msg);
    let k = BigUint::from_bytes_le(&sha512(&m)) % &*L;
    let s = (r + k * a) % &*L;
    let mut o = rr;
    o.extend(le(&s, 32));
    o
}
/// u = (1 + y) / (1 - y)
pub fn ed_to_mont(pk: &[u8]) -> Vec<u8> {
    let m = &*P25519;
    let mut y = pk.to_vec();
    y[31] &= 0x7f;
    let y = BigUint::from_bytes_le(&y) % m;
    let u = (b(1) + &y) * inv(&sub(&b(1), &y, m), m) % m;
    le(&u, 32)
}
/// RFC 7748 ladder
pub fn x25519(k: &[u8], u: &[u8]) -> Vec<u8> {
    let p = &*P25519;
    let k = clamp(k);
    let mut uu = u.to_vec();
    uu[31] &= 0x7f;
    let x1 = BigUint::from_bytes_le(&uu) % p;
    let (mut x2, mut z2, mut x3, mut z3) = (b(1), b(0), x1.clone(), b(1));
    let mut swap = false;
    for t in (0..255usize).rev() {
        let kt = ((&k >> t) & b(1)) == b(1);
        if swap != kt {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        swap = kt;
        let a = (&x2 + &z2) % p;
        let aa = &a * &a % p;
        let bb_ = sub(&x2, &z2, p);
        let bb = &bb_ * &bb_ % p;
        let e = sub(&aa, &bb, p);
        let c = (&x3 + &z3) % p;
        let d = sub(&x3, &z3, p);
        let da = &d * &a % p;
        let cb = &c * &bb_ % p;
        let s = (&da + &cb) % p;
        x3 = &s * &s % p;
        let df = sub(&da, &cb, p);
        z3 = &x1 * (&df * &df % p) % p;
        x2 = &aa * &bb % p;
        z2 = &e * ((&aa + b(121665) * &e) % p) % p;
    }
    if swap {
        std::mem::swap(&mut x2, &mut x3);
        std::mem::swap(&mut z2, &mut z3);
    }
    le(&(&x2 * inv(&z2, p) % p), 32)
}
pub fn x25519_base() -> Vec<u8> {
    let mut v = vec![0u8; 32];
    v[0] = 9;
    v
}

// ---- secp256k1, affine
pub type A = Option<(B, B)>;
pub fn kadd(p: &A, q: &A) -> A {
    let m = &*PK1;
    let (p, q) = match (p, q) {
        (None, _) => return q.clone(),
        (_, None) => return p.clone(),
        (Some(p), Some(q)) => (p, q),
    };
    let l = if p.0 == q.0 {
        if (&p.1 + &q.1) % m == b(0) {
            return None;
        }
        b(3) * &p.0 * &p.0 % m * inv(&(b(2) * &p.1 % m), m) % m
    } else {
        sub(&q.1, &p.1, m) * inv(&sub(&q.0, &p.0, m), m) % m
    };
    let x = sub(&sub(&(&l * &l % m), &p.0, m), &q.0, m);
    let y = sub(&(&l * sub(&p.0, &x, m) % m), &p.1, m);
    Some((x, y))
}
// jacobian (X, Y, Z): x = X/Z^2, y = Y/Z^3; Z = 0 is infinity
type J = (B, B, B);
fn jdbl(p: &J) -> J {
    let m = &*PK1;
    if p.2 == b(0) || p.1 == b(0) {
        return (b(1), b(1), b(0));
    }
    let yy = &p.1 * &p.1 % m;
    let s = b(4) * &p.0 * &yy % m;
    let mm = b(3) * &p.0 * &p.0 % m;
    let x = sub(&(&mm * &mm % m), &(b(2) * &s), m);
    let y = sub(&(&mm * sub(&s, &x, m) % m), &(b(8) * &yy * &yy), m);
    (x, y, b(2) * &p.1 * &p.2 % m)
}
fn jadd(p: &J, q: &J) -> J {
    let m = &*PK1;
    if p.2 == b(0) {
        return q.clone();
    }
    if q.2 == b(0) {
        return p.clone();
    }
    let (z1, z2) = (&p.2 * &p.2 % m, &q.2 * &q.2 % m);
    let (u1, u2) = (&p.0 * &z2 % m, &q.0 * &z1 % m);
    let (s1, s2) = (&p.1 * &z2 % m * &q.2 % m, &q.1 * &z1 % m * &p.2 % m);
    if u1 == u2 {
        if s1 == s2 {
            return jdbl(p);
        }
        return (b(1), b(1), b(0));
    }
    let h = sub(&u2, &u1, m);
    let r = sub(&s2, &s1, m);
    let hh = &h * &h % m;
    let hhh = &h * &hh % m;
    let v = &u1 * &hh % m;
    let x = sub(&sub(&(&r * &r % m), &hhh, m), &(b(2) * &v), m);
    let y = sub(&(&r * sub(&v, &x, m) % m), &(&s1 * &hhh), m);
    (x, y, &h * &p.2 % m * &q.2 % m)
}
pub fn kmul(k: &B, p: &A) -> A {
    let m = &*PK1;
    let q: J = match p {
        None => return None,
        Some((x, y)) => (x.clone(), y.clone(), b(1)),
    };
    let mut r: J = (b(1), b(1), b(0));
    for i in (0..k.bits()).rev() {
        r = jdbl(&r);
        if ((k >> (i as usize)) & b(1)) == b(1) {
            r = jadd(&r, &q);
        }
    }
    if r.2 == b(0) {
        return None;
    }
    let zi = inv(&r.2, m);
    let zz = &zi * &zi % m;
    Some((&r.0 * &zz % m, &r.1 * &zz % m * &zi % m))
}
pub fn kg() -> A {
    Some(GK1.clone())
}
pub fn kcompress(p: &A) -> Vec<u8> {
    let (x, y) = p.as_ref().unwrap();
    let mut v = vec![if (y & b(1)) == b(1) { 3 } else { 2 }];
    v.extend(be32(x));
    v
}
pub fn kuncompressed(p: &A) -> Vec<u8> {
    let (x, y) = p.as_ref().unwrap();
    let mut v = vec![4];
    v.extend(be32(x));
    v.extend(be32(y));
    v
}
/// Strict SEC1 decoding (compressed 02/03, uncompressed 04, hybrid 06/07)
pub fn kparse(d: &[u8]) -> A {
    let m = &*PK1;
    if d.is_empty() {
        return None;
    }
    let ok = match d[0] {
        2 | 3 => d.len() == 33,
        4 | 6 | 7 => d.len() == 65,
        _ => false,
    };
    if !ok {
        return None;
    }
    let x = BigUint::from_bytes_be(&d[1..33]);
    if &x >= m {
        return None;
    }
    let rhs = (&x * &x % m * &x + b(7)) % m;
    if d.len() == 33 {
        let mut y = rhs.modpow(&((m + b(1)) >> 2usize), m);
        if &y * &y % m != rhs {
            return None;
        }
        if ((&y & b(1)) == b(1)) != (d[0] == 3) {
            y = sub(&b(0), &y, m);
        }
        Some((x, y))
    } else {
        let y = BigUint::from_bytes_be(&d[33..]);
        if &y >= m || &y * &y % m != rhs {
            return None;
        }
        if d[0] != 4 && ((&y & b(1)) == b(1)) != (d[0] == 7) {
            return None;
        }
        Some((x, y))
    }
}

pub fn hmac256(key: &[u8], data: &[&[u8]]) -> Vec<u8> {
    let mut k = if key.len() > 64 { sha256(key).to_vec() } else { key.to_vec() };
    k.resize(64, 0);
    let mut i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    for d in data {
        i.extend_from_slice(d);
    }
    let mut o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    o.extend_from_slice(&sha256(&i));
    sha256(&o).to_vec()
}
/// RFC 6979 + low-S
pub fn ecdsa_sign(sk: &[u8], msg: &[u8]) -> Vec<u8> {
    let n = &*NK1;
    let h = sha256(msg);
    let e = BigUint::from_bytes_be(&h) % n;
    let x = BigUint::from_bytes_be(sk);
    let ho = be32(&e);
    let mut k = vec![0u8; 32];
    let mut v = vec![1u8; 32];
    k = hmac256(&k, &[&v, &[0], sk, &ho]);
    v = hmac256(&k, &[&v]);
    k = hmac256(&k, &[&v, &[1], sk, &ho]);
    v = hmac256(&k, &[&v]);
    loop {
        v = hmac256(&k, &[&v]);
        let t = BigUint::from_bytes_be(&v);
        if t > b(0) && &t < n {
            let r = kmul(&t, &kg()).unwrap().0 % n;
            let mut s = inv(&t, n) * ((&e + &r * &x) % n) % n;
            if r > b(0) && s > b(0) {
                if s > n >> 1usize {
                    s = n - s;
                }
                let mut o = be32(&r);
                o.extend(be32(&s));
                return o;
            }
        }
        k = hmac256(&k, &[&v, &[0]]);
        v = hmac256(&k, &[&v]);
    }
}
/// plain ECDSA verification (no low-S rule)
pub fn ecdsa_verify(msg: &[u8], sig: &[u8], q: &A) -> bool {
    let n = &*NK1;
    if sig.len() != 64 || q.is_none() {
        return false;
    }
    let (r, s) = (BigUint::from_bytes_be(&sig[..32]), BigUint::from_bytes_be(&sig[32..]));
    if r == b(0) || s == b(0) || &r >= n || &s >= n {
        return false;
    }
    let e = BigUint::from_bytes_be(&sha256(msg)) % n;
    let w = inv(&s, n);
    match kadd(&kmul(&(&e * &w % n), &kg()), &kmul(&(&r * &w % n), q)) {
        None => false,
        Some((x, _)) => x % n == r,
    }
}
