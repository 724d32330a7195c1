//! Two groups for the library under test: quadratic residues modulo a safe prime of 62 bits, and Ristretto
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::{Identity, IsIdentity};
use rand::{CryptoRng, RngCore};
use ursa_sharing::error::{SharingError, SharingResult};
use ursa_sharing::generic_array::GenericArray;
use ursa_sharing::typenum::{U32, U8};
use ursa_sharing::{Field, Group};

pub const P: u64 = 4611686018427377339;
pub const Q: u64 = 2305843009213688669;

fn mul(a: u64, b: u64, m: u64) -> u64 {
    (a as u128 * b as u128 % m as u128) as u64
}
fn pow(mut a: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, a, m)
        }
        a = mul(a, a, m);
        e >>= 1;
    }
    r
}
fn word(v: &[u8]) -> Option<u64> {
    if v.len() != 8 {
        return None;
    }
    let mut b = [0; 8];
    b.copy_from_slice(v);
    Some(u64::from_be_bytes(b))
}

#[derive(Debug)]
pub struct Zq(pub u64);
#[derive(Debug)]
pub struct Qr(pub u64);

impl Group for Zq {
    type Size = U8;
    fn zero() -> Self {
        Zq(0)
    }
    fn from_bytes<B: AsRef<[u8]>>(v: B) -> SharingResult<Self> {
        match word(v.as_ref()) {
            Some(x) if x < Q => Ok(Zq(x)),
            _ => Err(SharingError::ShareInvalidValue),
        }
    }
    fn random(rng: &mut (impl RngCore + CryptoRng)) -> Self {
        Zq(1 + rng.next_u64() % (Q - 1))
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
    fn is_valid(&self) -> bool {
        self.0 != 0 && self.0 < Q
    }
    fn negate(&mut self) {
        self.0 = (Q - self.0) % Q
    }
    fn add_assign(&mut self, r: &Self) {
        self.0 = (self.0 + r.0) % Q
    }
    fn sub_assign(&mut self, r: &Self) {
        self.0 = (self.0 + Q - r.0) % Q
    }
    fn scalar_mul_assign(&mut self, r: &Self) {
        self.0 = mul(self.0, r.0, Q)
    }
    fn to_bytes(&self) -> GenericArray<u8, U8> {
        self.0.to_be_bytes().into()
    }
}
impl Field for Zq {
    fn one() -> Self {
        Zq(1)
    }
    fn from_usize(v: usize) -> Self {
        Zq(v as u64 % Q)
    }
    fn scalar_div_assign(&mut self, r: &Self) {
        self.0 = mul(self.0, pow(r.0, Q - 2, Q), Q)
    }
}
impl Group<Zq> for Qr {
    type Size = U8;
    fn zero() -> Self {
        Qr(1)
    }
    fn from_bytes<B: AsRef<[u8]>>(v: B) -> SharingResult<Self> {
        match word(v.as_ref()) {
            Some(x) if x != 0 && x < P && pow(x, Q, P) == 1 => Ok(Qr(x)),
            _ => Err(SharingError::InvalidPoint),
        }
    }
    fn random(rng: &mut (impl RngCore + CryptoRng)) -> Self {
        let x = 2 + rng.next_u64() % (P - 3);
        Qr(mul(x, x, P))
    }
    fn is_zero(&self) -> bool {
        self.0 == 1
    }
    fn is_valid(&self) -> bool {
        self.0 != 1
    }
    fn negate(&mut self) {
        self.0 = pow(self.0, P - 2, P)
    }
    fn add_assign(&mut self, r: &Self) {
        self.0 = mul(self.0, r.0, P)
    }
    fn sub_assign(&mut self, r: &Self) {
        self.0 = mul(self.0, pow(r.0, P - 2, P), P)
    }
    fn scalar_mul_assign(&mut self, r: &Zq) {
        self.0 = pow(self.0, r.0, P)
    }
    fn to_bytes(&self) -> GenericArray<u8, U8> {
        self.0.to_be_bytes().into()
    }
}

#[derive(Debug)]
pub struct Sc(pub Scalar);
#[derive(Debug)]
pub struct Pt(pub RistrettoPoint);
impl Group for Sc {
    type Size = U32;
    fn zero() -> Self {
        Sc(Scalar::zero())
    }
    fn from_bytes<B: AsRef<[u8]>>(v: B) -> SharingResult<Self> {
        let v = v.as_ref();
        let mut b = [0; 32];
        if v.len() != 32 {
            return Err(SharingError::ShareInvalidValue);
        }
        b.copy_from_slice(v);
        Scalar::from_canonical_bytes(b).map(Sc).ok_or(SharingError::ShareInvalidValue)
    }
    fn random(rng: &mut (impl RngCore + CryptoRng)) -> Self {
        let mut b = [0; 64];
        rng.fill_bytes(&mut b);
        Sc(Scalar::from_bytes_mod_order_wide(&b))
    }
    fn is_zero(&self) -> bool {
        self.0 == Scalar::zero()
    }
    fn is_valid(&self) -> bool {
        !self.is_zero()
    }
    fn negate(&mut self) {
        self.0 = -self.0
    }
    fn add_assign(&mut self, r: &Self) {
        self.0 += r.0
    }
    fn sub_assign(&mut self, r: &Self) {
        self.0 -= r.0
    }
    fn scalar_mul_assign(&mut self, r: &Self) {
        self.0 *= r.0
    }
    fn to_bytes(&self) -> GenericArray<u8, U32> {
        self.0.to_bytes().into()
    }
}
impl Field for Sc {
    fn one() -> Self {
        Sc(Scalar::one())
    }
    fn from_usize(v: usize) -> Self {
        Sc(Scalar::from(v as u64))
    }
    fn scalar_div_assign(&mut self, r: &Self) {
        self.0 *= r.0.invert()
    }
}
impl Group<Sc> for Pt {
    type Size = U32;
    fn zero() -> Self {
        Pt(RistrettoPoint::identity())
    }
    fn from_bytes<B: AsRef<[u8]>>(v: B) -> SharingResult<Self> {
        let v = v.as_ref();
        if v.len() != 32 {
            return Err(SharingError::InvalidPoint);
        }
        CompressedRistretto::from_slice(v).decompress().map(Pt).ok_or(SharingError::InvalidPoint)
    }
    fn random(rng: &mut (impl RngCore + CryptoRng)) -> Self {
        let mut b = [0; 64];
        rng.fill_bytes(&mut b);
        Pt(RistrettoPoint::from_uniform_bytes(&b))
    }
    fn is_zero(&self) -> bool {
        self.0.is_identity()
    }
    fn is_valid(&self) -> bool {
        !self.is_zero()
    }
    fn negate(&mut self) {
        self.0 = -self.0
    }
    fn add_assign(&mut self, r: &Self) {
        self.0 += r.0
    }
    fn sub_assign(&mut self, r: &Self) {
        self.0 -= r.0
    }
    fn scalar_mul_assign(&mut self, r: &Sc) {
        self.0 *= r.0
    }
    fn to_bytes(&self) -> GenericArray<u8, U32> {
        self.0.compress().to_bytes().into()
    }
}
