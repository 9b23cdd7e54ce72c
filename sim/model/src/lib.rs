//! Reference models: a small, independent implementation of the mathematics
//! the system is compared with. Nothing here comes from the code under test.
//! Clarity over speed: one modular multiplication, textbook formulas.
use std::fmt::Debug;
use std::marker::PhantomData;
use std::ops::{Add, Mul, Neg, Sub};

pub type L4 = [u64; 4];

pub trait Modulus: Copy + Clone + Debug + PartialEq + Eq + 'static {
    const P: L4;
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct R;
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Q;
/// The order of the BN254 groups.
impl Modulus for R {
    const P: L4 = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
}
/// The base field of BN254.
impl Modulus for Q {
    const P: L4 = [0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
}

pub fn geq(a: &L4, b: &L4) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
const fn sub4(a: L4, b: L4) -> (L4, u64) {
    let mut r = [0u64; 4];
    let mut br = 0u128;
    let mut i = 0;
    while i < 4 {
        let t = (a[i] as u128).wrapping_sub(b[i] as u128).wrapping_sub(br);
        r[i] = t as u64;
        br = (t >> 127) & 1;
        i += 1;
    }
    (r, br as u64)
}
fn add4(a: &L4, b: &L4) -> (L4, u64) {
    let mut r = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let t = a[i] as u128 + b[i] as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
    }
    (r, c as u64)
}
const fn neg_inv(p0: u64) -> u64 {
    let mut x = 1u64;
    let mut i = 0;
    while i < 6 {
        x = x.wrapping_mul(2u64.wrapping_sub(p0.wrapping_mul(x)));
        i += 1;
    }
    x.wrapping_neg()
}

/// An element of the integers modulo M::P, kept in Montgomery form inside.
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Fe<M: Modulus>(L4, PhantomData<M>);

impl<M: Modulus> Debug for Fe<M> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let v = self.int();
        write!(f, "0x{:016x}{:016x}{:016x}{:016x}", v[3], v[2], v[1], v[0])
    }
}

fn addm<M: Modulus>(a: &L4, b: &L4) -> L4 {
    let (s, c) = add4(a, b);
    if c == 1 || geq(&s, &M::P) {
        sub4(s, M::P).0
    } else {
        s
    }
}
fn mont<M: Modulus>(a: &L4, b: &L4) -> L4 {
    let inv = neg_inv(M::P[0]);
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let x = t[j] as u128 + a[j] as u128 * b[i] as u128 + c;
            t[j] = x as u64;
            c = x >> 64;
        }
        let x = t[4] as u128 + c;
        t[4] = x as u64;
        t[5] = (x >> 64) as u64;
        let m = t[0].wrapping_mul(inv);
        let mut c = (t[0] as u128 + m as u128 * M::P[0] as u128) >> 64;
        for j in 1..4 {
            let x = t[j] as u128 + m as u128 * M::P[j] as u128 + c;
            t[j - 1] = x as u64;
            c = x >> 64;
        }
        let x = t[4] as u128 + c;
        t[3] = x as u64;
        t[4] = t[5] + (x >> 64) as u64;
    }
    let r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(&r, &M::P) {
        sub4(r, M::P).0
    } else {
        r
    }
}
fn r2<M: Modulus>() -> L4 {
    // 2^512 mod p by doubling; cached per modulus would be nicer, the cost is small
    let mut x: L4 = [1, 0, 0, 0];
    for _ in 0..512 {
        x = addm::<M>(&x, &x);
    }
    x
}

/// R^2 of both moduli, computed once.
fn r2c<M: Modulus>() -> L4 {
    static mut CACHE: [(L4, L4); 2] = [([0; 4], [0; 4]); 2];
    unsafe {
        for e in CACHE.iter_mut() {
            if e.0 == M::P {
                return e.1;
            }
            if e.0 == [0; 4] {
                let v = r2::<M>();
                *e = (M::P, v);
                return v;
            }
        }
    }
    r2::<M>()
}

impl<M: Modulus> Fe<M> {
    pub fn raw(v: L4) -> Self {
        Fe(v, PhantomData)
    }
    /// From an integer of any 256-bit value (reduced).
    pub fn from_int(v: L4) -> Self {
        let mut v = v;
        while geq(&v, &M::P) {
            v = sub4(v, M::P).0;
        }
        Self::raw(mont::<M>(&v, &r2c::<M>()))
    }
    pub fn from_u64(v: u64) -> Self {
        Self::from_int([v, 0, 0, 0])
    }
    /// The canonical integer.
    pub fn int(&self) -> L4 {
        mont::<M>(&self.0, &[1, 0, 0, 0])
    }
    /// The Montgomery representation (v * 2^256 mod p), as the system stores it.
    pub fn mont_repr(&self) -> L4 {
        self.0
    }
    pub fn from_mont_repr(v: L4) -> Option<Self> {
        (!geq(&v, &M::P)).then(|| Self::raw(v))
    }
    /// 512-bit little-endian integer reduced modulo p.
    pub fn from_wide(l: [u64; 8]) -> Self {
        let lo = Self::from_int([l[0], l[1], l[2], l[3]]);
        let hi = Self::from_int([l[4], l[5], l[6], l[7]]);
        lo + hi * Self::two_pow(256)
    }
    pub fn two_pow(n: u32) -> Self {
        let mut x = Self::one();
        for _ in 0..n {
            x = x + x;
        }
        x
    }
    pub fn zero() -> Self {
        Self::raw([0; 4])
    }
    pub fn one() -> Self {
        Self::from_u64(1)
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn sq(self) -> Self {
        self * self
    }
    pub fn pow(self, e: L4) -> Self {
        let mut r = Self::one();
        for i in (0..256).rev() {
            r = r * r;
            if e[i / 64] >> (i % 64) & 1 == 1 {
                r = r * self;
            }
        }
        r
    }
    /// Inverse; zero for zero.
    pub fn inv(self) -> Self {
        self.pow(sub4(M::P, [2, 0, 0, 0]).0)
    }
}
impl<M: Modulus> Add for Fe<M> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Self::raw(addm::<M>(&self.0, &o.0))
    }
}
impl<M: Modulus> Sub for Fe<M> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        let (d, b) = sub4(self.0, o.0);
        Self::raw(if b == 1 { add4(&d, &M::P).0 } else { d })
    }
}
impl<M: Modulus> Neg for Fe<M> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::zero() - self
    }
}
impl<M: Modulus> Mul for Fe<M> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Self::raw(mont::<M>(&self.0, &o.0))
    }
}
pub type Fr = Fe<R>;
pub type Fq = Fe<Q>;

pub trait Fld:
    Copy + Debug + PartialEq + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Neg<Output = Self>
{
    fn zero() -> Self;
    fn one() -> Self;
    fn inv(self) -> Self;
}
impl<M: Modulus> Fld for Fe<M> {
    fn zero() -> Self {
        Fe::zero()
    }
    fn one() -> Self {
        Fe::one()
    }
    fn inv(self) -> Self {
        Fe::inv(self)
    }
}
/// Fq[i] / (i^2 + 1)
#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Fq2(pub Fq, pub Fq);
impl Add for Fq2 {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Fq2(self.0 + o.0, self.1 + o.1)
    }
}
impl Sub for Fq2 {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Fq2(self.0 - o.0, self.1 - o.1)
    }
}
impl Neg for Fq2 {
    type Output = Self;
    fn neg(self) -> Self {
        Fq2(-self.0, -self.1)
    }
}
impl Mul for Fq2 {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Fq2(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0)
    }
}
impl Fld for Fq2 {
    fn zero() -> Self {
        Fq2(Fq::zero(), Fq::zero())
    }
    fn one() -> Self {
        Fq2(Fq::one(), Fq::zero())
    }
    fn inv(self) -> Self {
        let n = (self.0.sq() + self.1.sq()).inv();
        Fq2(self.0 * n, -self.1 * n)
    }
}

/// A point of y^2 = x^3 + b; None is the identity.
pub type Pt<F> = Option<(F, F)>;

pub fn on_curve<F: Fld>(p: &Pt<F>, b: F) -> bool {
    p.map_or(true, |(x, y)| y * y == x * x * x + b)
}
pub fn neg<F: Fld>(p: Pt<F>) -> Pt<F> {
    p.map(|(x, y)| (x, -y))
}

/// Jacobian accumulator, so that sums need one inversion at the end.
#[derive(Copy, Clone, Debug)]
pub struct Jac<F: Fld> {
    x: F,
    y: F,
    z: F,
}
impl<F: Fld> Jac<F> {
    pub fn id() -> Self {
        Jac { x: F::one(), y: F::one(), z: F::zero() }
    }
    pub fn from(p: Pt<F>) -> Self {
        match p {
            None => Self::id(),
            Some((x, y)) => Jac { x, y, z: F::one() },
        }
    }
    pub fn is_id(&self) -> bool {
        self.z == F::zero()
    }
    pub fn dbl(self) -> Self {
        if self.is_id() || self.y == F::zero() {
            return Self::id();
        }
        let a = self.x * self.x;
        let b = self.y * self.y;
        let c = b * b;
        let d = (self.x + b) * (self.x + b) - a - c;
        let d = d + d;
        let e = a + a + a;
        let f = e * e;
        let x = f - (d + d);
        let c8 = {
            let c2 = c + c;
            let c4 = c2 + c2;
            c4 + c4
        };
        let y = e * (d - x) - c8;
        let z = self.y * self.z;
        Jac { x, y, z: z + z }
    }
    pub fn add(self, o: Self) -> Self {
        if self.is_id() {
            return o;
        }
        if o.is_id() {
            return self;
        }
        let z1 = self.z * self.z;
        let z2 = o.z * o.z;
        let u1 = self.x * z2;
        let u2 = o.x * z1;
        let s1 = self.y * o.z * z2;
        let s2 = o.y * self.z * z1;
        if u1 == u2 {
            return if s1 == s2 { self.dbl() } else { Self::id() };
        }
        let h = u2 - u1;
        let r = s2 - s1;
        let h2 = h * h;
        let h3 = h * h2;
        let v = u1 * h2;
        let x = r * r - h3 - (v + v);
        let y = r * (v - x) - s1 * h3;
        Jac { x, y, z: self.z * o.z * h }
    }
    pub fn mul(self, k: L4) -> Self {
        let mut r = Self::id();
        for i in (0..256).rev() {
            r = r.dbl();
            if k[i / 64] >> (i % 64) & 1 == 1 {
                r = r.add(self);
            }
        }
        r
    }
    pub fn affine(self) -> Pt<F> {
        if self.is_id() {
            return None;
        }
        let i = self.z.inv();
        let i2 = i * i;
        Some((self.x * i2, self.y * i2 * i))
    }
}

pub fn mul<F: Fld>(p: Pt<F>, k: L4) -> Pt<F> {
    Jac::from(p).mul(k).affine()
}
pub fn add<F: Fld>(p: Pt<F>, q: Pt<F>) -> Pt<F> {
    Jac::from(p).add(Jac::from(q)).affine()
}
/// The term-by-term sum of scaled points.
pub fn msm<F: Fld>(ps: &[Pt<F>], ks: &[L4]) -> Pt<F> {
    ps.iter().zip(ks).fold(Jac::id(), |a, (p, k)| a.add(Jac::from(*p).mul(*k))).affine()
}

pub fn b_g1() -> Fq {
    Fq::from_u64(3)
}
/// 3 / (9 + i)
pub fn b_g2() -> Fq2 {
    Fq2(Fq::from_u64(3), Fq::zero()) * Fq2(Fq::from_u64(9), Fq::one()).inv()
}
/// Grumpkin: y^2 = x^3 - 17 over Fr
pub fn b_grumpkin() -> Fr {
    -Fr::from_u64(17)
}
pub fn g1_gen() -> Pt<Fq> {
    Some((Fq::one(), Fq::from_u64(2)))
}

/// Values at the domain {w^0..} -> coefficients (plain inverse DFT).
pub fn interpolate(v: &[Fr], w: Fr) -> Vec<Fr> {
    let n = v.len();
    let wi = w.inv();
    let ni = Fr::from_u64(n as u64).inv();
    let mut pw = vec![Fr::one()];
    for i in 1..n {
        pw.push(pw[i - 1] * wi);
    }
    (0..n)
        .map(|i| (0..n).fold(Fr::zero(), |a, j| a + v[j] * pw[i * j % n]) * ni)
        .collect()
}

/// (A*B - C) / (X^n - 1), and whether the division is exact.
pub fn quotient(a: &[Fr], b: &[Fr], c: &[Fr]) -> (Vec<Fr>, bool) {
    let n = a.len();
    let mut p = vec![Fr::zero(); 2 * n];
    for i in 0..n {
        for j in 0..n {
            p[i + j] = p[i + j] + a[i] * b[j];
        }
    }
    for i in 0..n {
        p[i] = p[i] - c[i];
    }
    let mut q = vec![Fr::zero(); n];
    for i in (0..n).rev() {
        q[i] = p[i + n];
        p[i] = p[i] + p[i + n];
    }
    (q, p[..n].iter().all(|x| x.is_zero()))
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn basics() {
        let x = Fr::from_u64(7);
        assert_eq!(x * x.inv(), Fr::one());
        let y = Fq::from_int([5, 6, 7, 8]);
        assert_eq!(y * y.inv(), Fq::one());
        let g = g1_gen();
        assert!(on_curve(&g, b_g1()));
        assert_eq!(mul(g, R::P), None);
        let p = mul(g, [123, 4, 0, 0]);
        assert!(on_curve(&p, b_g1()));
        assert_eq!(add(p, neg(p)), None);
        assert_eq!(add(p, p), mul(p, [2, 0, 0, 0]));
        assert_eq!(mul(g, [124, 4, 0, 0]), add(p, g));
        let i = Fq2(Fq::from_u64(3), Fq::from_u64(5));
        assert_eq!(i * i.inv(), Fq2::one());
        assert_eq!(Fr::from_wide([0, 0, 0, 0, 1, 0, 0, 0]), Fr::two_pow(256));
    }
}
