//! BN254 as written down on paper: y^2 = x^3 + 2 over F_p, its sextic twist over F_p[i], and the
//! scalars modulo the group order. The reference for P01 and B02.
use num_bigint::BigUint;
pub type B = BigUint;

pub fn b(n: u64) -> B {
    BigUint::from(n)
}
lazy_static::lazy_static! {
    // u = -(2^62 + 2^55 + 1); the odd powers of u enter with a minus sign
    static ref U: B = (b(1) << 62usize) + (b(1) << 55usize) + b(1);
    pub static ref P: B = {
        let u = &*U;
        u.pow(4) * b(36) + u.pow(2) * b(24) + b(1) - u.pow(3) * b(36) - u * b(6)
    };
    pub static ref N: B = {
        let u = &*U;
        u.pow(4) * b(36) + u.pow(2) * b(18) + b(1) - u.pow(3) * b(36) - u * b(6)
    };
    pub static ref G1: Pt<B> = Pt::new(&*P - b(1), b(1));
    static ref TWIST: (B, B) = (b(1), &*P - b(1));
}

pub trait Field: Clone + PartialEq {
    fn zero() -> Self;
    fn one() -> Self;
    fn add(&self, o: &Self) -> Self;
    fn sub(&self, o: &Self) -> Self;
    fn mul(&self, o: &Self) -> Self;
    fn inv(&self) -> Self;
    /// the constant of the curve over this field
    fn coeff() -> Self;
    fn put(&self, v: &mut Vec<u8>);
    fn is_zero(&self) -> bool {
        *self == Self::zero()
    }
}
pub fn be32(x: &B) -> Vec<u8> {
    let mut v = x.to_bytes_be();
    while v.len() < 32 {
        v.insert(0, 0);
    }
    v
}
impl Field for B {
    fn zero() -> B {
        b(0)
    }
    fn one() -> B {
        b(1)
    }
    fn add(&self, o: &B) -> B {
        (self + o) % &*P
    }
    fn sub(&self, o: &B) -> B {
        (self + &*P - o) % &*P
    }
    fn mul(&self, o: &B) -> B {
        self * o % &*P
    }
    fn inv(&self) -> B {
        self.modpow(&(&*P - b(2)), &P)
    }
    fn coeff() -> B {
        b(2)
    }
    fn put(&self, v: &mut Vec<u8>) {
        v.extend(be32(self))
    }
}
impl Field for (B, B) {
    fn zero() -> Self {
        (b(0), b(0))
    }
    fn one() -> Self {
        (b(1), b(0))
    }
    fn add(&self, o: &Self) -> Self {
        (self.0.add(&o.0), self.1.add(&o.1))
    }
    fn sub(&self, o: &Self) -> Self {
        (Field::sub(&self.0, &o.0), Field::sub(&self.1, &o.1))
    }
    fn mul(&self, o: &Self) -> Self {
        let m = |x: &B, y: &B| Field::mul(x, y);
        (Field::sub(&m(&self.0, &o.0), &m(&self.1, &o.1)), Field::add(&m(&self.0, &o.1), &m(&self.1, &o.0)))
    }
    fn inv(&self) -> Self {
        let n = Field::add(&Field::mul(&self.0, &self.0), &Field::mul(&self.1, &self.1)).inv();
        (Field::mul(&self.0, &n), Field::mul(&Field::sub(&b(0), &self.1), &n))
    }
    fn coeff() -> Self {
        TWIST.clone()
    }
    fn put(&self, v: &mut Vec<u8>) {
        self.0.put(v);
        self.1.put(v)
    }
}

/// Jacobian coordinates; z = 0 is infinity
#[derive(Clone)]
pub struct Pt<F> {
    x: F,
    y: F,
    z: F,
}
impl<F: Field> Pt<F> {
    pub fn new(x: F, y: F) -> Self {
        Pt { x, y, z: F::one() }
    }
    pub fn inf() -> Self {
        Pt { x: F::one(), y: F::one(), z: F::zero() }
    }
    pub fn is_inf(&self) -> bool {
        self.z.is_zero()
    }
    pub fn affine(&self) -> Option<(F, F)> {
        if self.is_inf() {
            return None;
        }
        let i = self.z.inv();
        let i2 = i.mul(&i);
        Some((self.x.mul(&i2), self.y.mul(&i2).mul(&i)))
    }
    pub fn on_curve(x: &F, y: &F) -> bool {
        y.mul(y) == x.mul(x).mul(x).add(&F::coeff())
    }
    fn double(&self) -> Self {
        if self.is_inf() || self.y.is_zero() {
            return Self::inf();
        }
        let yy = self.y.mul(&self.y);
        let mut s = self.x.mul(&yy);
        s = s.add(&s);
        s = s.add(&s);
        let xx = self.x.mul(&self.x);
        let m = xx.add(&xx).add(&xx);
        let x = m.mul(&m).sub(&s).sub(&s);
        let mut y4 = yy.mul(&yy);
        for _ in 0..3 {
            y4 = y4.add(&y4);
        }
        let y = m.mul(&s.sub(&x)).sub(&y4);
        let z = self.y.mul(&self.z);
        Pt { x, y, z: z.add(&z) }
    }
    pub fn plus(&self, o: &Self) -> Self {
        if self.is_inf() {
            return o.clone();
        }
        if o.is_inf() {
            return self.clone();
        }
        let (z1, z2) = (self.z.mul(&self.z), o.z.mul(&o.z));
        let (u1, u2) = (self.x.mul(&z2), o.x.mul(&z1));
        let (s1, s2) = (self.y.mul(&z2).mul(&o.z), o.y.mul(&z1).mul(&self.z));
        if u1 == u2 {
            return if s1 == s2 { self.double() } else { Self::inf() };
        }
        let h = u2.sub(&u1);
        let r = s2.sub(&s1);
        let h2 = h.mul(&h);
        let h3 = h2.mul(&h);
        let v = u1.mul(&h2);
        let x = r.mul(&r).sub(&h3).sub(&v).sub(&v);
        let y = r.mul(&v.sub(&x)).sub(&s1.mul(&h3));
        Pt { x, y, z: self.z.mul(&o.z).mul(&h) }
    }
    pub fn minus(&self) -> Self {
        Pt { x: self.x.clone(), y: F::zero().sub(&self.y), z: self.z.clone() }
    }
    pub fn times(&self, e: &B) -> Self {
        let mut r = Self::inf();
        for i in (0..e.bits() as usize).rev() {
            r = r.double();
            if ((e >> i) & b(1)) == b(1) {
                r = r.plus(self);
            }
        }
        r
    }
}
/// 4 | x | y | zeroes; infinity is (0, 1)
pub fn enc1(p: &Pt<B>) -> Vec<u8> {
    let (x, y) = p.affine().unwrap_or((b(0), b(1)));
    let mut v = vec![4u8];
    x.put(&mut v);
    y.put(&mut v);
    v.resize(128, 0);
    v
}
/// x real | x imaginary | y real | y imaginary; infinity is (0, 1)
pub fn enc2(p: &Pt<(B, B)>) -> Vec<u8> {
    let (x, y) = p.affine().unwrap_or(((b(0), b(0)), (b(1), b(0))));
    let mut v = vec![];
    x.put(&mut v);
    y.put(&mut v);
    v
}
pub fn dec2(v: &[u8]) -> Option<Pt<(B, B)>> {
    let c: Vec<B> = v.chunks(32).map(B::from_bytes_be).collect();
    let (x, y) = ((c[0].clone(), c[1].clone()), (c[2].clone(), c[3].clone()));
    if Pt::on_curve(&x, &y) {
        Some(Pt::new(x, y))
    } else {
        None
    }
}
/// the first point at or after the number that the bytes encode; its y is the square root that is
/// a power of y^2
pub fn hash_to_g1(h: &[u8]) -> Pt<B> {
    let e = (&*P + b(1)) >> 2usize;
    let mut x = B::from_bytes_be(h) % &*P;
    loop {
        let r = Field::add(&Field::mul(&Field::mul(&x, &x), &x), &b(2));
        let y = r.modpow(&e, &P);
        if Field::mul(&y, &y) == r {
            return Pt::new(x, y);
        }
        x = Field::add(&x, &b(1));
    }
}
