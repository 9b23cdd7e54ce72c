//! Every encodable type: how to make values, what their bytes hold, what makes
//! a decoded value valid.
use crate::rngs::SimRng;
use bn_254::{Fq, Fr, G1Affine, G1Projective, G2Affine, G2PairingAffine, G2Projective, PairingCoeff};
use grumpkin::{Affine as GkAffine, Projective as GkProjective};
use model::{Fld, Fq as MFq, Fq2 as MFq2, Fr as MFr};
use parity_scale_codec::{Decode, Encode};
use simcore::*;
use std::any::Any;
use parity_scale_codec::Compact;
use std::marker::PhantomData;
use zknova::sim::{R1csInstance, R1csWitness, RelaxedR1csInstance, RelaxedR1csWitness};
use zkstd::circuit::CircuitDriver;
use zkstd::common::{BNAffine, BNProjective, CurveGroup, Group, IntGroup, PrimeField, Ring};
use zkstd::matrix::{DenseVectors, SparseMatrix, SparseRow};

/// Layout of an encoding, for aiming damage and for reading values back.
#[derive(Clone, Debug)]
pub enum Lay {
    Fr,
    Fq,
    Bool,
    Compact,
    Unit,
    Seq(Vec<Lay>),
    Vec(Box<Lay>),
    Enum(Vec<Lay>),
    /// affine point over Fr (0), Fq (1) or Fq2 (2)
    Aff(u8),
    Proj(u8),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Leaf {
    Fr,
    Fq,
    Bool,
    Compact,
    Aff(u8),
    Proj(u8),
    Tag,
}

/// Positions of the parts of an encoding; None if the bytes do not have this layout.
pub fn parse(l: &Lay, b: &[u8], at: &mut usize, out: &mut Vec<(usize, usize, Leaf)>) -> Option<()> {
    let fixed = |n: usize, k: Leaf, at: &mut usize, out: &mut Vec<(usize, usize, Leaf)>| {
        if *at + n > b.len() {
            return None;
        }
        out.push((*at, n, k));
        *at += n;
        Some(())
    };
    match l {
        Lay::Fr => fixed(32, Leaf::Fr, at, out),
        Lay::Fq => fixed(32, Leaf::Fq, at, out),
        Lay::Bool => fixed(1, Leaf::Bool, at, out),
        Lay::Unit => Some(()),
        Lay::Compact => compact(b, at, out).map(|_| ()),
        Lay::Seq(v) => {
            for x in v {
                parse(x, b, at, out)?;
            }
            Some(())
        }
        Lay::Vec(x) => {
            let n = compact(b, at, out)?;
            for _ in 0..n {
                parse(x, b, at, out)?;
            }
            Some(())
        }
        Lay::Enum(v) => {
            let t = *b.get(*at)? as usize;
            fixed(1, Leaf::Tag, at, out)?;
            parse(v.get(t)?, b, at, out)
        }
        Lay::Aff(f) | Lay::Proj(f) => {
            let proj = matches!(l, Lay::Proj(_));
            let base = if *f == 0 { Lay::Fr } else { Lay::Fq };
            let start = *at;
            let n = (if proj { 3 } else { 2 }) * if *f == 2 { 2 } else { 1 };
            let k = out.len();
            out.push((start, 0, if proj { Leaf::Proj(*f) } else { Leaf::Aff(*f) }));
            for _ in 0..n {
                parse(&base, b, at, out)?;
            }
            if !proj {
                parse(&Lay::Bool, b, at, out)?;
            }
            out[k].1 = *at - start;
            Some(())
        }
    }
}

fn compact(b: &[u8], at: &mut usize, out: &mut Vec<(usize, usize, Leaf)>) -> Option<u64> {
    let f = *b.get(*at)?;
    let n = match f & 3 {
        0 => 1,
        1 => 2,
        2 => 4,
        _ => 1 + 4 + (f >> 2) as usize,
    };
    if *at + n > b.len() || n > 9 {
        return None;
    }
    let mut v = 0u64;
    let (lo, sh) = if f & 3 == 3 { (1, 0) } else { (0, 2) };
    for i in (lo..n).rev() {
        v = v << 8 | b[*at + i] as u64;
    }
    out.push((*at, n, Leaf::Compact));
    *at += n;
    Some(v >> sh)
}

pub fn limbs(b: &[u8]) -> [u64; 4] {
    let mut l = [0u64; 4];
    for j in 0..4 {
        l[j] = u64::from_le_bytes(b[8 * j..8 * j + 8].try_into().unwrap());
    }
    l
}

fn point<F: Fld>(c: &[F], b: F, proj: bool, inf: bool) -> Result<(), String> {
    let z = if proj { c[2] } else { F::one() };
    if proj && c.iter().all(|v| *v == F::zero()) {
        return Err("all projective coordinates are zero".into());
    }
    if !proj && inf {
        return Ok(());
    }
    if c[1] * c[1] * z == c[0] * c[0] * c[0] + b * z * z * z {
        Ok(())
    } else {
        Err("a point is not on its curve".into())
    }
}

/// Canonical fields and points on their curves, read from the bytes of a value.
pub fn sound(l: &Lay, b: &[u8]) -> Result<(), String> {
    let (mut at, mut out) = (0, vec![]);
    if parse(l, b, &mut at, &mut out).is_none() || at != b.len() {
        return Err("HARNESS: the layout of the encoding is not the expected one".into());
    }
    for (o, _, k) in &out {
        match k {
            Leaf::Fr if MFr::from_mont_repr(limbs(&b[*o..])).is_none() => return Err(format!("a field element (Fr) at byte {o} is not below the modulus")),
            Leaf::Fq if MFq::from_mont_repr(limbs(&b[*o..])).is_none() => return Err(format!("a field element (Fq) at byte {o} is not below the modulus")),
            _ => {}
        }
    }
    for (o, n, k) in &out {
        let (f, proj) = match k {
            Leaf::Aff(f) => (*f, false),
            Leaf::Proj(f) => (*f, true),
            _ => continue,
        };
        let inf = !proj && b[o + n - 1] != 0;
        let r = |i: usize| limbs(&b[o + 32 * i..]);
        let fr = |i: usize| MFr::from_mont_repr(r(i)).unwrap();
        let fq = |i: usize| MFq::from_mont_repr(r(i)).unwrap();
        let f2 = |i: usize| MFq2(fq(2 * i), fq(2 * i + 1));
        let c = if proj { 3 } else { 2 };
        match f {
            0 => point(&(0..c).map(fr).collect::<Vec<_>>(), model::b_grumpkin(), proj, inf),
            1 => point(&(0..c).map(fq).collect::<Vec<_>>(), model::b_g1(), proj, inf),
            _ => point(&(0..c).map(f2).collect::<Vec<_>>(), model::b_g2(), proj, inf),
        }
        .map_err(|e| format!("{e} (byte {o})"))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ types

pub type Val = Box<dyn Any + Send + Sync>;

pub trait Codec: Send + Sync {
    fn name(&self) -> &'static str;
    fn lay(&self) -> &Lay;
    fn make(&self, r: &mut Rng) -> Val;
    fn enc(&self, v: &Val) -> Vec<u8>;
    fn enc_to(&self, v: &Val, out: &mut crate::codec::Sink);
    fn forms(&self, v: &Val, want: &[u8]) -> Result<(), String>;
    fn dec(&self, i: &mut crate::codec::Stream) -> Result<Val, String>;
    fn dec_slice(&self, b: &mut &[u8]) -> Result<Val, String>;
    fn skip(&self, b: &mut &[u8]) -> Result<(), String>;
    fn eq(&self, a: &Val, b: &Val) -> bool;
    /// what the type itself promises, beyond canonical bytes
    fn usable(&self, v: &Val) -> Result<(), String>;
    /// a field element: distinct bytes must mean distinct values
    fn injective(&self) -> bool;
    /// containers of the type behave like the type
    fn many(&self, vs: &[Val]) -> Result<(), String>;
}

pub struct Ty<V> {
    pub name: &'static str,
    pub lay: Lay,
    pub make: fn(&mut Rng) -> V,
    pub usable: fn(&V) -> Result<(), String>,
    pub injective: bool,
}

impl<V: Encode + Decode + PartialEq + Clone + Send + Sync + 'static> Codec for Ty<V> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn lay(&self) -> &Lay {
        &self.lay
    }
    fn make(&self, r: &mut Rng) -> Val {
        Box::new((self.make)(r))
    }
    fn enc(&self, v: &Val) -> Vec<u8> {
        get::<V>(v).encode()
    }
    fn enc_to(&self, v: &Val, out: &mut crate::codec::Sink) {
        get::<V>(v).encode_to(out)
    }
    fn forms(&self, v: &Val, want: &[u8]) -> Result<(), String> {
        let v = get::<V>(v);
        if v.using_encoded(|b| b != want) {
            return Err("using_encoded differs from encode".into());
        }
        if v.encoded_size() != want.len() {
            return Err(format!("encoded_size {} for {} bytes", v.encoded_size(), want.len()));
        }
        let mut w = vec![1, 2, 3];
        v.encode_to(&mut w);
        if w[..3] != [1, 2, 3] || w[3..] != *want {
            return Err("encode_to differs from encode".into());
        }
        if let Some(n) = V::encoded_fixed_size() {
            if n != want.len() {
                return Err(format!("fixed size {n} for {} bytes", want.len()));
            }
        }
        Ok(())
    }
    fn dec(&self, i: &mut crate::codec::Stream) -> Result<Val, String> {
        V::decode(i).map(|v| Box::new(v) as Val).map_err(|e| format!("{e:?}"))
    }
    fn dec_slice(&self, b: &mut &[u8]) -> Result<Val, String> {
        V::decode(b).map(|v| Box::new(v) as Val).map_err(|e| format!("{e:?}"))
    }
    fn skip(&self, b: &mut &[u8]) -> Result<(), String> {
        V::skip(b).map_err(|e| format!("{e:?}"))
    }
    fn eq(&self, a: &Val, b: &Val) -> bool {
        let (a, b) = (get::<V>(a), get::<V>(b));
        a == b && b == a
    }
    fn usable(&self, v: &Val) -> Result<(), String> {
        (self.usable)(get::<V>(v))
    }
    fn injective(&self) -> bool {
        self.injective
    }
    fn many(&self, vs: &[Val]) -> Result<(), String> {
        let v: Vec<V> = vs.iter().map(|v| get::<V>(v).clone()).collect();
        let b = v.encode();
        let mut s = &b[..];
        let w = Vec::<V>::decode(&mut s).map_err(|e| format!("a vector of {} values does not decode: {e:?}", v.len()))?;
        if w != v || !s.is_empty() {
            return Err(format!("a vector of {} values decodes to another vector", v.len()));
        }
        let o = (v.first().cloned(), v.last().cloned());
        let b = o.encode();
        let mut s = &b[..];
        let w = <(Option<V>, Option<V>)>::decode(&mut s).map_err(|e| format!("optional values do not decode: {e:?}"))?;
        if w != o || !s.is_empty() {
            return Err("optional values decode to other values".into());
        }
        Ok(())
    }
}

pub fn get<V: 'static>(v: &Val) -> &V {
    v.downcast_ref::<V>().expect("HARNESS value type")
}

fn fine<V>(_: &V) -> Result<(), String> {
    Ok(())
}

// ---- values

pub fn mk_fr(r: &mut Rng) -> Fr {
    match r.below(8) {
        0 => Fr::zero(),
        1 => Fr::one(),
        2 => -Fr::one(),
        3 => Fr::from(r.below(1 << 20)),
        4 => -Fr::from(r.below(1 << 20)),
        _ => Fr::random(&mut SimRng::healthy(r.u64())),
    }
}
pub fn mk_fq(r: &mut Rng) -> Fq {
    match r.below(8) {
        0 => Fq::zero(),
        1 => Fq::one(),
        2 => -Fq::one(),
        3 => Fq::from(r.below(1 << 20)),
        4 => -Fq::from(r.below(1 << 20)),
        _ => Fq::random(&mut SimRng::healthy(r.u64())),
    }
}
fn mk_fq2(r: &mut Rng) -> bn_254::Fq2 {
    match r.below(6) {
        0 => bn_254::Fq2::zero(),
        1 => bn_254::Fq2::one(),
        _ => bn_254::Fq2::random(&mut SimRng::healthy(r.u64())),
    }
}
pub fn mk_aff<P: BNAffine>(r: &mut Rng) -> P
where
    P: Group,
{
    match r.below(8) {
        0 | 1 => P::ADDITIVE_IDENTITY,
        2 => P::ADDITIVE_GENERATOR,
        3 => P::from(-P::ADDITIVE_GENERATOR.to_extended()),
        _ => P::random(&mut SimRng::healthy(r.u64())),
    }
}
fn mk_proj<P: BNProjective + Group>(r: &mut Rng) -> P {
    match r.below(8) {
        0 | 1 => P::ADDITIVE_IDENTITY,
        2 => P::ADDITIVE_GENERATOR,
        3 => P::ADDITIVE_GENERATOR.double(),
        4 => {
            let p = P::random(&mut SimRng::healthy(r.u64()));
            p + -p
        }
        _ => P::random(&mut SimRng::healthy(r.u64())),
    }
}
fn usable_aff<P: BNAffine + Group + PartialEq>(p: &P) -> Result<(), String> {
    if p.is_identity() && (*p != P::ADDITIVE_IDENTITY || P::from(p.to_extended() + P::ADDITIVE_GENERATOR.to_extended()) != P::ADDITIVE_GENERATOR) {
        return Err("an identity does not act as the identity".into());
    }
    if !p.is_on_curve() {
        return Err("is_on_curve is false".into());
    }
    Ok(())
}
fn usable_proj<P: BNProjective + Group + PartialEq>(p: &P) -> Result<(), String> {
    if p.is_identity() && (*p != P::ADDITIVE_IDENTITY || *p + P::ADDITIVE_GENERATOR != P::ADDITIVE_GENERATOR) {
        return Err("an identity does not act as the identity".into());
    }
    if !p.is_on_curve() {
        return Err("is_on_curve is false".into());
    }
    Ok(())
}
/// The wire format as peers on the network know it.
#[derive(Clone, Copy, PartialEq, Debug, Encode, Decode)]
pub enum W {
    Instance(#[codec(compact)] u64),
    Witness(#[codec(compact)] u64),
}
pub type Row<F> = Vec<(W, F)>;

fn mk_wire(r: &mut Rng) -> W {
    let edge = [0u64, 1, 63, 64, 16383, 16384, (1 << 30) - 1, 1 << 30, (1 << 32) - 1, 1 << 32, (1 << 56) - 1, 1 << 56, u64::MAX];
    let i = if r.chance(1, 2) { *r.pick(&edge) } else { r.u64() >> r.below(64) };
    if r.chance(1, 2) {
        W::Instance(i)
    } else {
        W::Witness(i)
    }
}
/// A value as a peer would send it; it must come to the same bytes again.
pub fn from_peer<V: Encode + Decode>(what: &str, b: Vec<u8>) -> V {
    match V::decode(&mut &b[..]) {
        Ok(v) => {
            check(v.encode() == b, "round-trip", || format!("{what}: a peer's encoding does not come to the same bytes again"));
            v
        }
        Err(e) => violate("round-trip", format!("{what}: a peer's encoding does not decode: {e:?}")),
    }
}
fn len(r: &mut Rng) -> u64 {
    *r.pick(&[0, 1, 2, 3, 5, 8, 17, 63, 64, 65])
}
fn rows<F>(r: &mut Rng, f: fn(&mut Rng) -> F) -> Row<F> {
    let n = len(r) % 18;
    (0..n).map(|_| (mk_wire(r), f(r))).collect()
}
fn mk_row<F: PrimeField>(r: &mut Rng, f: fn(&mut Rng) -> F) -> SparseRow<F> {
    from_peer("SparseRow", rows(r, f).encode())
}
fn mk_row_fr(r: &mut Rng) -> SparseRow<Fr> {
    mk_row(r, mk_fr)
}
fn mk_row_fq(r: &mut Rng) -> SparseRow<Fq> {
    mk_row(r, mk_fq)
}
/// A matrix can only be had from a constraint system.
fn mk_r1cs<D: CircuitDriver>(r: &mut Rng) -> zkstd::r1cs::R1cs<D> {
    use zkstd::circuit::prelude::FieldAssignment;
    let mut cs = zkstd::r1cs::R1cs::<D>::default();
    let n = r.below(12);
    let mut v = vec![FieldAssignment::constant(&D::Scalar::from(3))];
    for _ in 0..n {
        let x = D::Scalar::from(r.below(1 << 40));
        let a = match r.below(3) {
            0 => FieldAssignment::instance(&mut cs, x),
            1 => FieldAssignment::witness(&mut cs, x),
            _ => FieldAssignment::constant(&x),
        };
        let b = v[r.below(v.len() as u64) as usize].clone();
        v.push(match r.below(3) {
            0 => FieldAssignment::mul(&mut cs, &a, &b),
            1 => &a + &b,
            _ => &a - &b,
        });
    }
    cs
}
fn mk_matrix(r: &mut Rng) -> SparseMatrix<Fr> {
    if r.chance(1, 2) {
        let n = len(r) % 20;
        return from_peer("SparseMatrix", (0..n).map(|_| rows(r, mk_fr)).collect::<Vec<_>>().encode());
    }
    let m = mk_r1cs::<zknova::Bn254Driver>(r).matrices();
    match r.below(3) {
        0 => m.0,
        1 => m.1,
        _ => m.2,
    }
}
fn big(r: &mut Rng) -> u64 {
    match mk_wire(r) {
        W::Instance(i) | W::Witness(i) => i,
    }
}
fn shape_bytes<F: Encode>(r: &mut Rng, f: fn(&mut Rng) -> F) -> Vec<u8> {
    let mut b = (Compact(big(r)), Compact(big(r)), Compact(big(r))).encode();
    for _ in 0..3 {
        let n = len(r) % 9;
        (0..n).map(|_| rows(r, f)).collect::<Vec<_>>().encode_to(&mut b);
    }
    b
}
fn mk_shape(r: &mut Rng) -> zknova::R1csShape<zknova::Bn254Driver> {
    if r.chance(1, 2) {
        return from_peer("R1csShape", shape_bytes(r, mk_fr));
    }
    zknova::R1csShape::from(mk_r1cs(r))
}
fn mk_shape_g(r: &mut Rng) -> zknova::R1csShape<zknova::GrumpkinDriver> {
    if r.chance(1, 2) {
        return from_peer("R1csShape", shape_bytes(r, mk_fq));
    }
    zknova::R1csShape::from(mk_r1cs(r))
}
fn mk_inst<D: CircuitDriver>(r: &mut Rng, f: fn(&mut Rng) -> D::Scalar) -> R1csInstance<D> {
    let x: Vec<D::Scalar> = (0..len(r) % 9).map(|_| f(r)).collect();
    from_peer("R1csInstance", (mk_aff::<D::Affine>(r), x).encode())
}
fn mk_rinst<D: CircuitDriver>(r: &mut Rng, f: fn(&mut Rng) -> D::Scalar) -> RelaxedR1csInstance<D> {
    let x: Vec<D::Scalar> = (0..len(r) % 9).map(|_| f(r)).collect();
    from_peer("RelaxedR1csInstance", (mk_aff::<D::Affine>(r), mk_aff::<D::Affine>(r), f(r), x).encode())
}
fn mk_wit<D: CircuitDriver>(r: &mut Rng, f: fn(&mut Rng) -> D::Scalar) -> R1csWitness<D> {
    R1csWitness { w: DenseVectors::new((0..len(r)).map(|_| f(r)).collect()) }
}
fn mk_rwit<D: CircuitDriver>(r: &mut Rng, f: fn(&mut Rng) -> D::Scalar) -> RelaxedR1csWitness<D> {
    let w: Vec<D::Scalar> = (0..len(r)).map(|_| f(r)).collect();
    let e: Vec<D::Scalar> = (0..len(r)).map(|_| f(r)).collect();
    from_peer("RelaxedR1csWitness", (w, e).encode())
}
type B = zknova::Bn254Driver;
type G = zknova::GrumpkinDriver;
pub type Proof = zknova::RecursiveProof<B, G, crate::stepfn::Cubic<Fr>, crate::stepfn::Cubic<Fq>>;
pub type Params = zknova::PublicParams<B, G, crate::stepfn::Cubic<Fr>, crate::stepfn::Cubic<Fq>>;
fn mk_proof(r: &mut Rng) -> Proof {
    let mut b = Compact(big(r)).encode();
    for k in 0..4 {
        if k % 2 == 0 {
            mk_dense(r).encode_to(&mut b)
        } else {
            mk_dense_q(r).encode_to(&mut b)
        }
    }
    (mk_inst::<G>(r, mk_fq), mk_wit::<G>(r, mk_fq)).encode_to(&mut b);
    (mk_rinst::<B>(r, mk_fr), mk_rwit::<B>(r, mk_fr)).encode_to(&mut b);
    (mk_rinst::<G>(r, mk_fq), mk_rwit::<G>(r, mk_fq)).encode_to(&mut b);
    from_peer("RecursiveProof", b)
}
fn mk_params(r: &mut Rng) -> Params {
    from_peer("PublicParams", (mk_shape(r), mk_shape_g(r), mk_ck(r), mk_ck_g(r)).encode())
}
fn mk_ck(r: &mut Rng) -> zknova::PedersenCommitment<G1Affine> {
    let n = r.below(5);
    zknova::PedersenCommitment::new(n, &mut SimRng::healthy(r.u64()))
}
fn mk_ck_g(r: &mut Rng) -> zknova::PedersenCommitment<GkAffine> {
    let n = r.below(5);
    zknova::PedersenCommitment::new(n, &mut SimRng::healthy(r.u64()))
}
fn mk_coeff(r: &mut Rng) -> PairingCoeff {
    let mut p = G2PairingAffine::from(G2Affine::random(&mut SimRng::healthy(r.u64())));
    let n = r.below(p.coeffs.len() as u64) as usize;
    p.coeffs.swap_remove(n)
}
fn mk_prep(r: &mut Rng) -> G2PairingAffine {
    G2PairingAffine::from(mk_aff::<G2Affine>(r))
}
fn mk_dense(r: &mut Rng) -> DenseVectors<Fr> {
    DenseVectors::new((0..len(r)).map(|_| mk_fr(r)).collect())
}
fn mk_dense_q(r: &mut Rng) -> DenseVectors<Fq> {
    DenseVectors::new((0..len(r)).map(|_| mk_fq(r)).collect())
}

fn row(f: Lay) -> Lay {
    Lay::Vec(Box::new(Lay::Seq(vec![Lay::Enum(vec![Lay::Compact, Lay::Compact]), f])))
}
pub fn matrix(f: Lay) -> Lay {
    Lay::Vec(Box::new(row(f)))
}
pub fn dense(f: Lay) -> Lay {
    Lay::Vec(Box::new(f))
}
pub fn shape(f: Lay) -> Lay {
    Lay::Seq(vec![Lay::Compact, Lay::Compact, Lay::Compact, matrix(f.clone()), matrix(f.clone()), matrix(f)])
}

fn rinst(c: u8) -> Lay {
    let f = if c == 0 { Lay::Fq } else { Lay::Fr };
    Lay::Seq(vec![Lay::Aff(c), Lay::Aff(c), f.clone(), dense(f)])
}
pub fn proof() -> Lay {
    let (fr, fq) = (|| dense(Lay::Fr), || dense(Lay::Fq));
    Lay::Seq(vec![
        Lay::Compact,
        fr(),
        fq(),
        fr(),
        fq(),
        Lay::Seq(vec![Lay::Seq(vec![Lay::Aff(0), fq()]), fq()]),
        Lay::Seq(vec![rinst(1), Lay::Seq(vec![fr(), fr()])]),
        Lay::Seq(vec![rinst(0), Lay::Seq(vec![fq(), fq()])]),
    ])
}

pub fn types() -> Vec<Box<dyn Codec>> {
    macro_rules! t {
        ($n:expr, $l:expr, $m:expr) => {
            t!($n, $l, $m, fine, false)
        };
        ($n:expr, $l:expr, $m:expr, $u:expr, $i:expr) => {
            Box::new(Ty { name: $n, lay: $l, make: $m, usable: $u, injective: $i }) as Box<dyn Codec>
        };
    }
    let f2 = || Lay::Seq(vec![Lay::Fq, Lay::Fq]);
    let f6 = || Lay::Seq(vec![f2(), f2(), f2()]);
    let f12 = || Lay::Seq(vec![f6(), f6()]);
    let co = || Lay::Seq(vec![f2(), f2(), f2()]);
    vec![
        t!("Fr", Lay::Fr, mk_fr, fine, true),
        t!("Fq", Lay::Fq, mk_fq, fine, true),
        t!("Fq2", f2(), mk_fq2, fine, true),
        t!("Fq6", f6(), |r| bn_254::Fq6::random(&mut SimRng::healthy(r.u64())), fine, true),
        t!("Fq12", f12(), |r| bn_254::Fq12::random(&mut SimRng::healthy(r.u64())), fine, true),
        t!("G1Affine", Lay::Aff(1), mk_aff::<G1Affine>, usable_aff, false),
        t!("G1Projective", Lay::Proj(1), mk_proj::<G1Projective>, usable_proj, false),
        t!("G2Affine", Lay::Aff(2), mk_aff::<G2Affine>, usable_aff, false),
        t!("G2Projective", Lay::Proj(2), mk_proj::<G2Projective>, usable_proj, false),
        t!("grumpkin Affine", Lay::Aff(0), mk_aff::<GkAffine>, usable_aff, false),
        t!("grumpkin Projective", Lay::Proj(0), mk_proj::<GkProjective>, usable_proj, false),
        t!("PairingCoeff", co(), mk_coeff),
        t!("G2PairingAffine", Lay::Seq(vec![Lay::Vec(Box::new(co())), Lay::Bool]), mk_prep),
        t!("SparseRow<Fr>", row(Lay::Fr), mk_row_fr),
        t!("SparseRow<Fq>", row(Lay::Fq), mk_row_fq),
        t!("SparseMatrix<Fr>", matrix(Lay::Fr), mk_matrix),
        t!("DenseVectors<Fr>", dense(Lay::Fr), mk_dense),
        t!("DenseVectors<Fq>", dense(Lay::Fq), mk_dense_q),
        t!("R1csShape<Bn254>", shape(Lay::Fr), mk_shape),
        t!("R1csShape<Grumpkin>", shape(Lay::Fq), mk_shape_g),
        t!("PedersenCommitment<G1>", Lay::Vec(Box::new(Lay::Aff(1))), mk_ck),
        t!("PedersenCommitment<grumpkin>", Lay::Vec(Box::new(Lay::Aff(0))), mk_ck_g),
        t!("R1csInstance<Bn254>", Lay::Seq(vec![Lay::Aff(1), dense(Lay::Fr)]), |r| mk_inst::<B>(r, mk_fr)),
        t!("R1csInstance<Grumpkin>", Lay::Seq(vec![Lay::Aff(0), dense(Lay::Fq)]), |r| mk_inst::<G>(r, mk_fq)),
        t!("RelaxedR1csInstance<Bn254>", rinst(1), |r| mk_rinst::<B>(r, mk_fr)),
        t!("RelaxedR1csInstance<Grumpkin>", rinst(0), |r| mk_rinst::<G>(r, mk_fq)),
        t!("R1csWitness<Bn254>", dense(Lay::Fr), |r| mk_wit::<B>(r, mk_fr)),
        t!("R1csWitness<Grumpkin>", dense(Lay::Fq), |r| mk_wit::<G>(r, mk_fq)),
        t!("RelaxedR1csWitness<Bn254>", Lay::Seq(vec![dense(Lay::Fr), dense(Lay::Fr)]), |r| mk_rwit::<B>(r, mk_fr)),
        t!("RelaxedR1csWitness<Grumpkin>", Lay::Seq(vec![dense(Lay::Fq), dense(Lay::Fq)]), |r| mk_rwit::<G>(r, mk_fq)),
        t!("RecursiveProof", proof(), mk_proof),
        t!("PublicParams", Lay::Seq(vec![shape(Lay::Fr), shape(Lay::Fq), Lay::Vec(Box::new(Lay::Aff(1))), Lay::Vec(Box::new(Lay::Aff(0)))]), mk_params),
        t!("AteParing", Lay::Unit, |_| bn_254::AteParing),
        t!("groth16 Bn254Driver", Lay::Unit, |_| zkgroth16::Bn254Driver),
        t!("nova Bn254Driver", Lay::Unit, |_| zknova::Bn254Driver),
        t!("nova GrumpkinDriver", Lay::Unit, |_| zknova::GrumpkinDriver),
    ]
}
