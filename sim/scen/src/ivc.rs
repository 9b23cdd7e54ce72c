//! N01, N02, N04: incremental computation, its proofs in transit, hostile proofs.
use crate::fast;
use crate::groth::{gen_spec, must};
use crate::mirror::*;
use crate::rngs::SimRng;
use crate::stepfn::*;
use bn_254::{Fq, Fr};
use model::{Fe, Modulus, Q, R};
use parity_scale_codec::{Compact, Decode, Encode};
use simcore::*;
use std::sync::Arc;
use zknova::sim::{instance_and_witness, R1csInstance, RelaxedR1csInstance, RelaxedR1csWitness};
use zknova::{Bn254Driver, FunctionCircuit, GrumpkinDriver, Ivc, PedersenCommitment, Prover, PublicParams, R1csShape, RecursiveProof};
use zkstd::circuit::CircuitDriver;
use zkstd::common::{BNAffine, BNProjective, CurveGroup, Group, Ring};
use zkstd::matrix::DenseVectors;

type B = Bn254Driver;
type G = GrumpkinDriver;

/// A commitment key that is quick to make: points in arithmetic progression.
fn quick_key<P: BNAffine>(n: usize, seed: u64, learn: fn(Vec<P>, P)) -> Vec<u8> {
    let mut r = SimRng::healthy(seed);
    let (p, q) = (P::random(&mut r), P::random(&mut r));
    // added up in projective coordinates, normalised all at once
    let mut v = Vec::with_capacity(n);
    let mut e = p.to_extended();
    for _ in 0..n {
        v.push(e);
        e = e + q;
    }
    let mut acc = Vec::with_capacity(n);
    let mut all = P::Base::one();
    for e in &v {
        acc.push(all);
        all = all * e.get_z();
    }
    let mut inv = all.invert().expect("HARNESS a key with the identity");
    let mut g = vec![p; n];
    for i in (0..n).rev() {
        let z = inv * acc[i];
        inv = inv * v[i].get_z();
        g[i] = P::new_unchecked(v[i].get_x() * z, v[i].get_y() * z);
    }
    let o = g.encode();
    learn(g, q);
    o
}

/// Parameters with the real shapes and a quick commitment key.
pub fn quick_params<F1: FunctionCircuit<Fr>, F2: FunctionCircuit<Fq>>(seed: u64) -> PublicParams<B, G, F1, F2> {
    let one = || DenseVectors::new(vec![zkstd::common::IntGroup::zero()]);
    let s1 = R1csShape::<B>::from(zknova::sim::step::<G, B, F1>(true, 0, one(), None, None, None, None).0);
    let one = || DenseVectors::new(vec![zkstd::common::IntGroup::zero()]);
    let s2 = R1csShape::<G>::from(zknova::sim::step::<B, G, F2>(false, 0, one(), None, None, None, None).0);
    let n1 = s1.m().next_power_of_two() as usize + 1;
    let n2 = s2.m().next_power_of_two() as usize + 1;
    let mut b = (s1, s2).encode();
    b.extend(quick_key(n1, seed, fast::learn_bn));
    b.extend(quick_key(n2, seed ^ 1, fast::learn_gk));
    PublicParams::decode(&mut &b[..]).expect("HARNESS parameters")
}


// ------------------------------------------------------------------ systems

/// A long vector, kept as it is encoded.
#[derive(Clone, PartialEq)]
pub struct Raw<M: Modulus>(pub Vec<[u8; 32]>, std::marker::PhantomData<M>);
impl<M: Modulus> Raw<M> {
    fn rd(r: &mut Rd) -> Self {
        let n = r.compact();
        Raw((0..n).map(|_| r.take(32).try_into().unwrap()).collect(), Default::default())
    }
    fn put(&self, o: &mut Vec<u8>) {
        Compact(self.0.len() as u64).encode_to(o);
        o.extend(self.0.concat());
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn get(&self, i: usize) -> Fe<M> {
        Rd(&self.0[i]).fe()
    }
    pub fn set(&mut self, i: usize, v: Fe<M>) {
        let mut b = vec![];
        put_fe(&mut b, &v);
        self.0[i] = b.try_into().unwrap();
    }
    pub fn all(&self) -> Vec<Fe<M>> {
        (0..self.len()).map(|i| self.get(i)).collect()
    }
    pub fn of(v: &[Fe<M>]) -> Self {
        let mut o = Raw(vec![[0; 32]; v.len()], Default::default());
        for (i, x) in v.iter().enumerate() {
            if !x.is_zero() {
                o.set(i, *x);
            }
        }
        o
    }
    pub fn zero(n: usize) -> Self {
        Raw(vec![[0; 32]; n], Default::default())
    }
}

/// A recursive proof as the model sees it.
#[derive(Clone)]
pub struct Rp {
    pub i: u64,
    pub z0p: Vec<Fe<R>>,
    pub z0s: Vec<Fe<Q>>,
    pub zip: Vec<Fe<R>>,
    pub zis: Vec<Fe<Q>>,
    pub us: Inst<Gk>,
    pub ws: Raw<Q>,
    pub up: Rel<Bn>,
    pub wp: (Raw<R>, Raw<R>),
    pub ur: Rel<Gk>,
    pub wr: (Raw<Q>, Raw<Q>),
}
impl Rp {
    pub fn of(b: &[u8]) -> Self {
        let mut r = Rd(b);
        let o = Rp {
            i: r.compact(),
            z0p: r.vec(),
            z0s: r.vec(),
            zip: r.vec(),
            zis: r.vec(),
            us: Inst::rd(&mut r),
            ws: Raw::rd(&mut r),
            up: Rel::rd(&mut r),
            wp: (Raw::rd(&mut r), Raw::rd(&mut r)),
            ur: Rel::rd(&mut r),
            wr: (Raw::rd(&mut r), Raw::rd(&mut r)),
        };
        r.done();
        o
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        Compact(self.i).encode_to(&mut o);
        put_vec(&mut o, &self.z0p);
        put_vec(&mut o, &self.z0s);
        put_vec(&mut o, &self.zip);
        put_vec(&mut o, &self.zis);
        self.us.put(&mut o);
        self.ws.put(&mut o);
        self.up.put(&mut o);
        self.wp.0.put(&mut o);
        self.wp.1.put(&mut o);
        self.ur.put(&mut o);
        self.wr.0.put(&mut o);
        self.wr.1.put(&mut o);
        o
    }
    /// Publishes the hashes that the claim and the accumulators call for.
    pub fn rehash(&mut self) {
        let hp = self.ur.real().hash::<B>(self.i, &dense(&self.z0p), &dense(&self.zip));
        let hs = self.up.real().hash::<G>(self.i, &dense(&self.z0s), &dense(&self.zis));
        self.us.x = vec![Rd(&hp.encode()).fe(), Fe::from_int(Rd(&hs.encode()).fe::<R>().int())];
    }
}
pub fn dense<M: Modulus, F: zkstd::common::PrimeField + Decode>(v: &[Fe<M>]) -> DenseVectors<F> {
    let mut o = vec![];
    put_vec(&mut o, v);
    DenseVectors::decode(&mut &o[..]).expect("HARNESS vector")
}

pub trait Chain {
    /// The next proof, as it is sent.
    fn step(&mut self) -> Vec<u8>;
}
/// What a node does with a message: decode, verify.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Undecodable,
    Rejected,
    Accepted,
}
pub trait Sys: Send + Sync {
    fn name(&self) -> String;
    fn model(&self, p: Fe<R>, s: Fe<Q>) -> (Fe<R>, Fe<Q>);
    fn start(&self, p: Fe<R>, s: Fe<Q>) -> Box<dyn Chain>;
    fn verify(&self, b: &[u8]) -> Verdict;
    fn params(&self) -> Vec<u8>;
    /// The verdict of a node that got its parameters as bytes; none if they do not decode.
    fn verify_with(&self, params: &[u8], b: &[u8]) -> Option<Verdict>;
    fn shapes(&self) -> (Shape<Bn>, Shape<Gk>);
    /// A first proof by a prover that starts from `zp`, `zs` instead, with
    /// `corrupt` damaged assignments (first, how many, kind) in circuit `side`.
    fn byzantine(&self, z0: (Fe<R>, Fe<Q>), z: (Fe<R>, Fe<Q>), corrupt: Option<(u64, u64, u64, u64)>) -> Rp;
    /// The proof after `q` by a prover that feeds the step what `lie` says.
    fn byzantine_next(&self, q: &Rp, lie: &Lie) -> Rp;
    /// The second proof of a prover that makes the first step of the secondary
    /// circuit wrong by what the challenge it already knows will cancel.
    fn late(&self, z0: (Fe<R>, Fe<Q>)) -> Option<Rp>;
    /// The first two points of the commitment keys.
    fn keys(&self) -> (Prog<Bn>, Prog<Gk>);
}
/// What a step is told instead of the truth.
#[derive(Clone)]
pub struct Lie {
    pub i: (u64, u64),
    pub z0: (Fe<R>, Fe<Q>),
    pub z: (Fe<R>, Fe<Q>),
    pub corrupt: Option<(u64, u64, u64, u64)>,
}

pub struct SysOf<F1, F2>
where
    F1: FunctionCircuit<Fr> + 'static,
    F2: FunctionCircuit<Fq> + 'static,
{
    pp: Arc<PublicParams<B, G, F1, F2>>,
}
struct ChainOf<F1, F2>
where
    F1: FunctionCircuit<Fr> + 'static,
    F2: FunctionCircuit<Fq> + 'static,
{
    pp: Arc<PublicParams<B, G, F1, F2>>,
    ivc: Ivc<B, G, F1, F2>,
}
impl<F1, F2> Chain for ChainOf<F1, F2>
where
    F1: FunctionCircuit<Fr> + 'static,
    F2: FunctionCircuit<Fq> + 'static,
{
    fn step(&mut self) -> Vec<u8> {
        self.ivc.prove_step(&self.pp).encode()
    }
}
pub fn quick_sys<F1, F2>(seed: u64) -> Box<dyn Sys>
where
    F1: FunctionCircuit<Fr> + StepModel + Send + Sync + 'static,
    F2: FunctionCircuit<Fq> + StepModel + Send + Sync + 'static,
{
    Box::new(SysOf::<F1, F2> { pp: Arc::new(quick_params(seed)) })
}
/// Parameters from the real setup.
pub fn setup_sys<F1, F2>(seed: u64) -> Box<dyn Sys>
where
    F1: FunctionCircuit<Fr> + StepModel + Send + Sync + 'static,
    F2: FunctionCircuit<Fq> + StepModel + Send + Sync + 'static,
{
    Box::new(SysOf::<F1, F2> { pp: Arc::new(PublicParams::setup(&mut SimRng::healthy(seed))) })
}
impl<F1, F2> Sys for SysOf<F1, F2>
where
    F1: FunctionCircuit<Fr> + StepModel + Send + Sync + 'static,
    F2: FunctionCircuit<Fq> + StepModel + Send + Sync + 'static,
{
    fn name(&self) -> String {
        format!("({}, {})", F1::NAME, F2::NAME)
    }
    fn model(&self, p: Fe<R>, s: Fe<Q>) -> (Fe<R>, Fe<Q>) {
        (F1::model(p), F2::model(s))
    }
    fn start(&self, p: Fe<R>, s: Fe<Q>) -> Box<dyn Chain> {
        Box::new(ChainOf { ivc: Ivc::init(&self.pp, dense(&[p]), dense(&[s])), pp: self.pp.clone() })
    }
    fn verify(&self, b: &[u8]) -> Verdict {
        let mut i = b;
        match RecursiveProof::<B, G, F1, F2>::decode(&mut i) {
            Ok(p) if i.is_empty() => {
                if p.verify(&self.pp) {
                    Verdict::Accepted
                } else {
                    Verdict::Rejected
                }
            }
            _ => Verdict::Undecodable,
        }
    }
    fn params(&self) -> Vec<u8> {
        self.pp.encode()
    }
    fn verify_with(&self, params: &[u8], b: &[u8]) -> Option<Verdict> {
        let pp = PublicParams::<B, G, F1, F2>::decode(&mut &params[..]).ok()?;
        Some(SysOf { pp: Arc::new(pp) }.verify(b))
    }
    fn shapes(&self) -> (Shape<Bn>, Shape<Gk>) {
        (Shape::of(&self.pp.r1cs_shape_primary), Shape::of(&self.pp.r1cs_shape_secondary))
    }
    fn byzantine(&self, z0: (Fe<R>, Fe<Q>), z: (Fe<R>, Fe<Q>), corrupt: Option<(u64, u64, u64, u64)>) -> Rp {
        let pp = &self.pp;
        let arm = |side: u64| {
            if let Some((s, first, len, kind)) = corrupt {
                if s % 2 == side {
                    zkstd::r1cs::sim::arm(first, len, kind);
                }
            }
        };
        arm(0);
        let (cs, zp) = zknova::sim::step::<G, B, F1>(true, 0, dense(&[z0.0]), Some(dense(&[z.0])), None, None, None);
        zkstd::r1cs::sim::disarm();
        let (u1, w1) = instance_and_witness(&cs, &pp.r1cs_shape_primary, &pp.ck_primary);
        arm(1);
        let (cs, zs) = zknova::sim::step::<B, G, F2>(false, 0, dense(&[z0.1]), Some(dense(&[z.1])), Some(u1.clone()), None, None);
        zkstd::r1cs::sim::disarm();
        let (u2, w2) = instance_and_witness(&cs, &pp.r1cs_shape_secondary, &pp.ck_secondary);
        let (n, m) = (pp.r1cs_shape_secondary.m_l_1() as usize, pp.r1cs_shape_secondary.m() as usize);
        Rp {
            i: 1,
            z0p: vec![z0.0],
            z0s: vec![z0.1],
            zip: Rd(&zp.encode()).vec(),
            zis: Rd(&zs.encode()).vec(),
            us: Inst::of(&u2),
            ws: Raw::rd(&mut Rd(&w2.encode())),
            up: Rel::of(&RelaxedR1csInstance::<B>::from_r1cs_instance(&pp.ck_primary, &pp.r1cs_shape_primary, &u1)),
            wp: {
                let b = RelaxedR1csWitness::<B>::from_r1cs_witness(&pp.r1cs_shape_primary, &w1).encode();
                let mut r = Rd(&b);
                (Raw::rd(&mut r), Raw::rd(&mut r))
            },
            ur: Rel::zero(2),
            wr: (Raw::zero(n), Raw::zero(m)),
        }
    }
    fn byzantine_next(&self, q: &Rp, lie: &Lie) -> Rp {
        let pp = &self.pp;
        let (us, up, ur) = (q.us.real(), q.up.real(), q.ur.real());
        let ws = wreal::<Gk>(&q.ws.all());
        let (wp, wr) = (relaxed::<Bn>(&q.wp), relaxed::<Gk>(&q.wr));
        let (ur2, wr2, t) = Prover::new(pp.r1cs_shape_secondary.clone(), pp.ck_secondary.clone()).prove(&ur, &wr, &us, &ws);
        self.second_half(q.i, q, lie, (us, ur, t), (ur2, wr2), (up, wp))
    }
    fn late(&self, z0: (Fe<R>, Fe<Q>)) -> Option<Rp> {
        let pp = &self.pp;
        let mut q = self.byzantine(z0, z0, None);
        // where the step function's last product is
        let at = q.ws.all().iter().rposition(|v| *v == z0.1 * z0.1 * z0.1)?;
        let (cs, _) = zknova::sim::step::<G, B, F1>(true, 0, dense(&[z0.0]), Some(dense(&[z0.0])), None, None, None);
        let (u1, _) = instance_and_witness(&cs, &pp.r1cs_shape_primary, &pp.ck_primary);
        let shape = Shape::<Gk>::of(&pp.r1cs_shape_secondary);
        let shifted = |by: Fe<Q>| {
            zkstd::r1cs::sim::arm_shift(at as u64, by.int());
            let (cs, z) = zknova::sim::step::<B, G, F2>(false, 0, dense(&[z0.1]), Some(dense(&[z0.1])), Some(u1.clone()), None, None);
            zkstd::r1cs::sim::disarm();
            let (u, w) = instance_and_witness(&cs, &pp.r1cs_shape_secondary, &pp.ck_secondary);
            let e = shape.error(Fe::one(), &Inst::<Gk>::of(&u).x, &wvec::<Gk>(&w));
            (u, w, z, e)
        };
        let (_, _, _, e) = shifted(Fe::one());
        let j = e.iter().position(|e| !e.is_zero())?;
        if e.iter().filter(|e| !e.is_zero()).count() != 1 {
            return None;
        }
        let mut t = vec![Fe::<Q>::zero(); shape.m];
        t[j] = Fe::one();
        let k = self.keys().1;
        let zero = vec![Fe::zero(); shape.m];
        let ct = ptreal::<Gk>(&recommit::<Gk>(&k, None, &zero, &t));
        let empty = Rel::<Gk>::zero(2).real();
        let r: Fe<Q> = Rd(&zknova::sim::challenge::<G>(ct, &empty).encode()).fe();
        let (u2, w2, zs, _) = shifted((r * e[j]).inv());
        let (mu, mw) = (Inst::<Gk>::of(&u2), wvec::<Gk>(&w2));
        let mut ur = Rel::<Gk>::zero(2);
        ur.cw = model::mul(mu.cw, r.int());
        ur.ce = recommit::<Gk>(&k, None, &zero, &t.iter().map(|t| *t * r).collect::<Vec<_>>());
        ur.u = r;
        ur.x = mu.x.iter().map(|x| *x * r).collect();
        let wr = (Raw::of(&mw.iter().map(|w| *w * r).collect::<Vec<_>>()), Raw::of(&t.iter().map(|t| *t * r).collect::<Vec<_>>()));
        q.zis = Rd(&zs.encode()).vec();
        let lie = Lie { i: (1, 1), z0, z: (q.zip[0], q.zis[0]), corrupt: None };
        let (up, wp) = (q.up.real(), relaxed::<Bn>(&q.wp));
        Some(self.second_half(1, &q, &lie, (u2, empty, ct), (ur.real(), relaxed::<Gk>(&wr)), (up, wp)))
    }
    fn keys(&self) -> (Prog<Bn>, Prog<Gk>) {
        (prog::<Bn>(&self.pp.ck_primary.encode()), prog::<Gk>(&self.pp.ck_secondary.encode()))
    }
}

impl<F1, F2> SysOf<F1, F2>
where
    F1: FunctionCircuit<Fr> + 'static,
    F2: FunctionCircuit<Fq> + 'static,
{
    /// A step after the secondary accumulator is folded.
    #[allow(clippy::type_complexity)]
    fn second_half(
        &self,
        i: u64,
        q: &Rp,
        lie: &Lie,
        (us, ur, t): (R1csInstance<G>, RelaxedR1csInstance<G>, <G as CircuitDriver>::Affine),
        (ur2, wr2): (RelaxedR1csInstance<G>, RelaxedR1csWitness<G>),
        (up, wp): (RelaxedR1csInstance<B>, RelaxedR1csWitness<B>),
    ) -> Rp {
        let pp = &self.pp;
        let arm = |side: u64| {
            if let Some((s, first, len, kind)) = lie.corrupt {
                if s % 2 == side {
                    zkstd::r1cs::sim::arm(first, len, kind);
                }
            }
        };
        arm(0);
        let (cs, zp) = zknova::sim::step::<G, B, F1>(true, lie.i.0, dense(&[lie.z0.0]), Some(dense(&[lie.z.0])), Some(us), Some(ur), Some(t));
        zkstd::r1cs::sim::disarm();
        let (u1, w1) = instance_and_witness(&cs, &pp.r1cs_shape_primary, &pp.ck_primary);
        let (up2, wp2, t) = Prover::new(pp.r1cs_shape_primary.clone(), pp.ck_primary.clone()).prove(&up, &wp, &u1, &w1);
        arm(1);
        let (cs, zs) = zknova::sim::step::<B, G, F2>(false, lie.i.1, dense(&[lie.z0.1]), Some(dense(&[lie.z.1])), Some(u1), Some(up), Some(t));
        zkstd::r1cs::sim::disarm();
        let (u2, w2) = instance_and_witness(&cs, &pp.r1cs_shape_secondary, &pp.ck_secondary);
        fn wit<S: Side>(w: &RelaxedR1csWitness<S::D>) -> (Raw<S::M>, Raw<S::M>) {
            let b = w.encode();
            let mut r = Rd(&b);
            (Raw::rd(&mut r), Raw::rd(&mut r))
        }
        Rp {
            i: i + 1,
            z0p: q.z0p.clone(),
            z0s: q.z0s.clone(),
            zip: Rd(&zp.encode()).vec(),
            zis: Rd(&zs.encode()).vec(),
            us: Inst::of(&u2),
            ws: Raw::rd(&mut Rd(&w2.encode())),
            up: Rel::of(&up2),
            wp: wit::<Bn>(&wp2),
            ur: Rel::of(&ur2),
            wr: wit::<Gk>(&wr2),
        }
    }
}
fn relaxed<S: Side>(w: &(Raw<S::M>, Raw<S::M>)) -> RelaxedR1csWitness<S::D> {
    let mut b = vec![];
    w.0.put(&mut b);
    w.1.put(&mut b);
    Decode::decode(&mut &b[..]).expect("HARNESS relaxed witness")
}

type Prog<S> = (model::Pt<Fe<<S as Side>::B>>, model::Pt<Fe<<S as Side>::B>>);
fn prog<S: Side>(key: &[u8]) -> Prog<S> {
    let mut r = Rd(key);
    r.compact();
    let p = r.pt();
    (p, model::add(r.pt(), model::neg(p)))
}
/// The commitment to `new` from that to `old`, under a key in arithmetic progression.
fn recommit<S: Side>(k: &Prog<S>, c: model::Pt<Fe<S::B>>, old: &[Fe<S::M>], new: &[Fe<S::M>]) -> model::Pt<Fe<S::B>> {
    let (mut sum, mut weighted) = (Fe::<S::M>::zero(), Fe::<S::M>::zero());
    for (i, (x, y)) in old.iter().zip(new).enumerate() {
        if x != y {
            sum = sum + (*y - *x);
            weighted = weighted + Fe::from_u64(i as u64) * (*y - *x);
        }
    }
    model::add(c, model::add(model::mul(k.0, sum.int()), model::mul(k.1, weighted.int())))
}
/// Another accumulator that is satisfied and opened: other committed values,
/// another scalar, or other public values.
fn reopen<S: Side>(shape: &Shape<S>, k: &Prog<S>, u: &mut Rel<S>, w: &mut (Raw<S::M>, Raw<S::M>), a: u64, b: u64) {
    let (w0, e0) = (w.0.all(), w.1.all());
    match a % 5 {
        0 => u.u = other(u.u, b),
        1 => u.x[0] = other(u.x[0], b),
        2 => u.x[1] = other(u.x[1], b),
        _ => {
            let j = slot(a >> 3, w0.len());
            w.0.set(j, other(w0[j], b));
            u.cw = recommit::<S>(k, u.cw, &w0, &w.0.all());
        }
    }
    let e = shape.error(u.u, &u.x, &w.0.all());
    u.ce = recommit::<S>(k, u.ce, &e0, &e);
    w.1 = Raw::of(&e);
}

const PAIRS: u64 = 6;
fn pair_sys(k: u64, seed: u64) -> Box<dyn Sys> {
    match k % PAIRS {
        0 => quick_sys::<Cubic<Fr>, Cubic<Fq>>(seed),
        1 => quick_sys::<Ident<Fr>, Konst<Fq>>(seed),
        2 => quick_sys::<Pow<Fr>, Cond<Fq>>(seed),
        3 => quick_sys::<Lin<Fr>, Ident<Fq>>(seed),
        4 => quick_sys::<Cond<Fr>, Pow<Fq>>(seed),
        _ => quick_sys::<Konst<Fr>, Lin<Fq>>(seed),
    }
}
/// A starting state, often a boundary one.
fn state_of<M: Modulus>(k: u64) -> Fe<M> {
    match k % 8 {
        0 => Fe::zero(),
        1 => Fe::one(),
        2 => -Fe::<M>::one(),
        3 => Fe::two_pow((k >> 3) as u32 % 254),
        4 => Fe::from_u64(k >> 3),
        _ => {
            let mut r = Rng::sub(k, "state", 0);
            Fe::from_wide(std::array::from_fn(|_| r.u64()))
        }
    }
}

// ------------------------------------------------------------------ N01

const BIG: u64 = 1 << 44;

static mut PAIR: Vec<Result<Box<dyn Sys>, String>> = vec![];
/// Parameters for every pair of functions, made once.
pub fn prepare_pairs() {
    fast::set(true);
    let hs: Vec<_> = (0..PAIRS).map(|k| std::thread::Builder::new().stack_size(64 << 20).spawn(move || guard(|| pair_sys(k, 100 + k))).expect("HARNESS spawn")).collect();
    unsafe { PAIR = hs.into_iter().map(|h| h.join().expect("HARNESS join")).collect() }
}
fn pairs() -> &'static [Result<Box<dyn Sys>, String>] {
    unsafe { &PAIR }
}

pub fn gen_n01(r: &mut Rng, seed: u64, thorough: bool) -> (Plan, Spec) {
    let mut p = Plan::new("N01");
    // now and then everything is real: the setup, and commitments term by term
    let real = r.chance(1, 100);
    let slow = !real && r.chance(1, 40);
    p.push("params", &[if real { 100 } else { r.below(PAIRS) }, r.below(1 << 30), (real || slow) as u64]);
    let provers = if real || slow { 1 } else { 1 + r.below(3) };
    for q in 0..provers {
        p.push("prover", &[q, r.u64() >> 8, r.u64() >> 8]);
    }
    let steps = if real || slow { 1 + slow as u64 } else { 1 + r.below(if thorough { 12 } else { 6 }) };
    let mut v: Vec<(u64, Vec<u64>)> = vec![];
    for q in 0..provers {
        for k in 1..=steps {
            v.push((k * 10, vec![q]));
            // when the proof arrives, if it does
            for _ in 0..*r.pick(if k == steps { &[1u64, 1, 1, 2][..] } else { &[0, 1, 1, 2][..] }) {
                v.push((1000 + k, vec![q, k, r.below(4)]));
            }
        }
        for _ in 0..*r.pick(&[0u64, 0, 1, 1, 2]) {
            v.push((2000, vec![q]));
        }
    }
    // the network reorders deliveries among what was sent; provers take turns
    let mut done = vec![0u64; provers as usize];
    while !v.is_empty() {
        let i = r.below(v.len() as u64) as usize;
        let (t, a) = v[i].clone();
        let q = a[0] as usize;
        if t < 1000 {
            if t / 10 != done[q] + 1 {
                continue;
            }
            done[q] += 1;
            p.push("step", &a);
        } else if t < 2000 {
            if a[1] > done[q] {
                continue;
            }
            p.push("deliver", &a);
        } else {
            p.push("crash", &a);
        }
        v.remove(i);
    }
    let mut s = gen_spec(r, seed, 100_000);
    s.edge_cap = BIG;
    (p, s)
}

pub fn run_n01(p: &Plan) {
    let Some(o) = p.ops.iter().find(|o| o.k == "params") else { return };
    fast::set(o.arg(2) == 0);
    if o.arg(2) != 0 {
        probe("commitments summed up term by term");
    }
    let made: Box<dyn Sys>;
    let sys: &dyn Sys = if o.arg(0) == 100 {
        probe("parameters from the real setup");
        made = must("setup", || setup_sys::<Cubic<Fr>, Cubic<Fq>>(o.arg(1)));
        &*made
    } else if o.arg(1) % 8 == 0 {
        probe("parameters of this run");
        made = must("setup", || pair_sys(o.arg(0), o.arg(1)));
        &*made
    } else {
        match &pairs()[(o.arg(0) % PAIRS) as usize] {
            Ok(s) => &**s,
            Err(e) => violate("panic", format!("parameters: {e}")),
        }
    };
    probe(&format!("functions {}", sys.name()));
    struct P {
        z0: (Fe<R>, Fe<Q>),
        chain: Option<Box<dyn Chain>>,
        sent: Vec<Vec<u8>>,
        at: usize,
    }
    let slow = o.arg(2) != 0;
    let mut least: Option<u64> = None;
    let mut ps: std::collections::BTreeMap<u64, P> = Default::default();
    for o in p.ops.iter().filter(|o| o.k == "prover") {
        let z0 = (state_of::<R>(o.arg(1)), state_of::<Q>(o.arg(2)));
        ps.insert(o.arg(0), P { z0, chain: None, sent: vec![], at: 0 });
    }
    for o in &p.ops {
        let Some(q) = ps.get_mut(&o.arg(0)) else { continue };
        match &o.k[..] {
            "step" => {
                if q.chain.is_none() {
                    q.chain = Some(must("init", || sys.start(q.z0.0, q.z0.1)));
                    // a restarted prover begins again from the initial state
                    for k in 0..q.at {
                        let b = must("prove_step", || q.chain.as_mut().unwrap().step());
                        check(b == q.sent[k], "not-repeatable", || format!("{}: step {} proved again after a crash gives another proof", sys.name(), k + 1));
                        probe("step repeated after a crash");
                    }
                }
                let b = must("prove_step", || q.chain.as_mut().unwrap().step());
                q.at += 1;
                q.sent.push(b);
                let rp = Rp::of(q.sent.last().unwrap());
                let n = q.sent.len();
                check(rp.i == n as u64, "wrong-count", || format!("{}: the proof of step {n} claims {} steps", sys.name(), rp.i));
                check(rp.z0p == [q.z0.0] && rp.z0s == [q.z0.1], "wrong-state", || format!("{}: the proof of step {n} starts from another state", sys.name()));
                let z = (0..n).fold(q.z0, |z, _| sys.model(z.0, z.1));
                check(rp.zip == [z.0] && rp.zis == [z.1], "wrong-state", || {
                    format!("{}: after {n} steps from {:?} the proof states {:?} {:?}, the functions give {z:?}", sys.name(), q.z0, rp.zip, rp.zis)
                });
                check(q.sent[n - 1].len() == q.sent[0].len(), "proof-grows", || format!("{}: the proof of step {n} has {} bytes, the first one {}", sys.name(), q.sent[n - 1].len(), q.sent[0].len()));
                probe("step proved");
                state(hash_str(&format!("{} {n} {}", sys.name(), rp.up.u.int()[0] & 7)));
                ev(&format!("step {n} of {}", o.arg(0)));
            }
            "crash" => {
                if q.chain.take().is_some() {
                    fault("prover crashed, restarted from the initial state");
                    ev(&format!("crash of {}", o.arg(0)));
                }
            }
            "deliver" => {
                let k = o.arg(1) as usize;
                if k == 0 || k > q.sent.len() {
                    continue;
                }
                if k < q.sent.len() {
                    fault("proof delivered late");
                }
                let from = edges();
                let v = must("decode and verify", || sys.verify(&q.sent[k - 1]));
                let work = edges() - from;
                if !slow {
                    // independent of the number of steps
                    let least = least.get_or_insert(work);
                    check(work / 2 <= *least, "verification-grows", || format!("{}: verifying the proof of step {k} takes {work} blocks, another one {least}", sys.name()));
                    *least = work.min(*least);
                }
                check(v == Verdict::Accepted, "honest-proof-rejected", || format!("{}: the honest proof of step {k} from {:?} is {v:?}", sys.name(), q.z0));
                probe(&format!("proof of step {} verified", k.min(4)));
                ev(&format!("deliver {k} of {}", o.arg(0)));
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ N02, N04: shared world

struct World {
    sys: Vec<Box<dyn Sys>>,
    /// honest proofs: system, bytes
    proofs: Vec<(usize, Vec<u8>, Rp)>,
    shapes: Vec<(Shape<Bn>, Shape<Gk>)>,
    keys: Vec<(Prog<Bn>, Prog<Gk>)>,
    /// the first system's parameters, as they are sent
    params: (Vec<u8>, Spots),
}
static mut WORLD: Option<Result<World, String>> = None;

/// Honest chains over four parameter sets, computed once.
pub fn prepare() {
    fast::set(true);
    let th = |f: Box<dyn FnOnce() -> (usize, Box<dyn Sys>, Vec<Vec<u8>>) + Send>| std::thread::Builder::new().stack_size(64 << 20).spawn(move || guard(f)).expect("HARNESS spawn");
    fn chain(s: &dyn Sys, p: u64, q: u64, n: usize) -> Vec<Vec<u8>> {
        let mut c = s.start(state_of(p), state_of(q));
        (0..n).map(|_| c.step()).collect()
    }
    let hs = vec![
        th(Box::new(|| {
            let s = pair_sys(0, 1);
            let c = chain(&*s, 3 * 8 + 4, 5 * 8 + 4, 5);
            (0, s, c)
        })),
        th(Box::new(|| {
            let s = pair_sys(0, 1);
            let c = chain(&*s, 77, 0, 3);
            (0, s, c)
        })),
        th(Box::new(|| {
            let s = pair_sys(0, 2);
            let c = chain(&*s, 3 * 8 + 4, 5 * 8 + 4, 3);
            (1, s, c)
        })),
        th(Box::new(|| {
            let s = pair_sys(2, 1);
            let c = chain(&*s, 3 * 8 + 4, 5 * 8 + 4, 3);
            (2, s, c)
        })),
        th(Box::new(|| {
            let s = pair_sys(4, 1);
            let c = chain(&*s, 0, 0, 2);
            (3, s, c)
        })),
    ];
    let mut w = World { sys: vec![], proofs: vec![], shapes: vec![], keys: vec![], params: (vec![], Spots { nums: vec![], wires: vec![], tags: vec![] }) };
    let mut err = None;
    for h in hs {
        match h.join().expect("HARNESS join") {
            Ok((k, s, c)) => {
                if k == w.sys.len() {
                    w.sys.push(s);
                }
                w.proofs.extend(c.into_iter().map(|b| { let r = Rp::of(&b); (k, b, r) }));
            }
            Err(e) => err = Some(e),
        }
    }
    if err.is_none() {
        w.shapes = w.sys.iter().map(|s| s.shapes()).collect();
        w.keys = w.sys.iter().map(|s| s.keys()).collect();
        let b = w.sys[0].params();
        let s = spots(&b);
        w.params = (b, s);
    }
    unsafe { WORLD = Some(err.map_or(Ok(w), Err)) }
}
fn world() -> &'static World {
    match unsafe { WORLD.as_ref() }.expect("HARNESS not prepared") {
        Ok(w) => w,
        Err(e) => violate("panic", format!("an honest prover: {e}")),
    }
}
const PROOFS: u64 = 16;
/// The states after `n` steps.
fn nth(s: &dyn Sys, z: (Fe<R>, Fe<Q>), n: u64) -> (Fe<R>, Fe<Q>) {
    (0..n.min(64)).fold(z, |z, _| s.model(z.0, z.1))
}

/// An element of a vector: often the first or the last.
fn slot(k: u64, n: usize) -> usize {
    match k % 8 {
        0 => 0,
        1 => n - 1,
        2 => n.saturating_sub(2),
        _ => (k >> 3) as usize % n,
    }
}
fn other<M: Modulus>(v: Fe<M>, k: u64) -> Fe<M> {
    let o = match k % 7 {
        0 => v + Fe::one(),
        1 => -v,
        2 => v + Fe::two_pow((k >> 3) as u32 % 254),
        3 => Fe::zero(),
        4 => Fe::one(),
        5 => v + v,
        _ => Fe::from_wide([k, k, 1, 2, 3, 4, 5, 6]),
    };
    if o == v {
        v + Fe::from_u64(3)
    } else {
        o
    }
}
fn other_pt<S: Side>(p: model::Pt<Fe<S::B>>, q: model::Pt<Fe<S::B>>, k: u64) -> model::Pt<Fe<S::B>> {
    let o = match k % 4 {
        0 => model::neg(p),
        1 => None,
        2 => model::add(p, p),
        _ => q,
    };
    if o == p {
        model::add(p, q)
    } else {
        o
    }
}
macro_rules! point {
    ($s:ty, $p:expr, $k:expr) => {{
        let q = if $k & 64 == 0 { $p } else { None };
        let alt = ptof::<$s, _>(&<<$s as Side>::D as CircuitDriver>::Affine::ADDITIVE_GENERATOR);
        $p = other_pt::<$s>($p, if q.is_some() { model::add(q, alt) } else { alt }, $k);
    }};
}

pub const FORGERIES: &[(&str, u64)] = &[
    ("intact", 4),
    ("step count", 6),
    ("initial state", 6),
    ("final state", 6),
    ("state lengths", 5),
    ("strict public input", 5),
    ("strict commitment", 5),
    ("strict witness", 6),
    ("primary accumulator", 8),
    ("primary witness", 8),
    ("secondary accumulator", 8),
    ("secondary witness", 8),
    ("repaired primary error", 4),
    ("repaired secondary error", 4),
    ("parts of two proofs", 12),
    ("other claim", 6),
    ("rehashed claim", 12),
    ("rehashed empty accumulators", 6),
    ("opened accumulator", 12),
    ("other parameters", 6),
    ("Byzantine first step", 10),
    ("aliased hash", 3),
    ("swapped accumulator values", 4),
    ("unopened accumulator", 6),
    ("Byzantine later step", 9),
    ("error chosen after the challenge", 0),
];

const CHEAP: &[u64] = &[1, 2, 3, 4, 5, 8, 8, 9, 10, 10, 11, 14, 14, 15, 22];

pub fn gen_n02(r: &mut Rng, seed: u64, thorough: bool) -> (Plan, Spec) {
    let mut p = Plan::new("N02");
    let total: u64 = FORGERIES.iter().map(|f| f.1).sum();
    let slow = r.chance(1, 40);
    p.p.insert("slow".into(), slow as u64);
    for n in 0..if slow { 4 } else { 6 + r.below(if thorough { 30 } else { 10 }) } {
        // what only a look at the commitments tells is slow to judge then
        if slow && n > 0 {
            p.push("message", &[r.below(PROOFS), *r.pick(CHEAP), r.u64() >> 8, r.u64() >> 8, r.below(PROOFS)]);
            continue;
        }
        let mut x = r.below(total);
        let k = FORGERIES.iter().position(|f| {
            let hit = x < f.1;
            x = x.wrapping_sub(f.1);
            hit
        });
        p.push("message", &[r.below(PROOFS), k.unwrap() as u64, r.u64() >> 8, r.u64() >> 8, r.below(PROOFS)]);
    }
    let mut s = gen_spec(r, seed, 100_000);
    s.edge_cap = BIG;
    (p, s)
}

/// A run with nothing but the attack on the challenge.
pub fn late_plan(r: &mut Rng) -> Plan {
    let mut p = Plan::new("N02");
    p.p.insert("slow".into(), 0);
    let k = FORGERIES.iter().position(|f| f.0 == "error chosen after the challenge").unwrap();
    p.push("message", &[r.below(PROOFS), k as u64, r.u64() >> 8, r.u64() >> 8, 0]);
    p
}

pub fn run_n02(p: &Plan) {
    let w = world();
    fast::set(p.get("slow") == 0);
    if p.get("slow") != 0 {
        probe("commitments summed up term by term");
    }
    for o in p.ops.iter().filter(|o| o.k == "message") {
        let (sysno, _, honest) = &w.proofs[o.arg(0) as usize % w.proofs.len()];
        let (_, _, second) = &w.proofs[o.arg(4) as usize % w.proofs.len()];
        let mut sys = *sysno;
        let (a, b) = (o.arg(2), o.arg(3));
        let (name, _) = FORGERIES[o.arg(1) as usize % FORGERIES.len()];
        let mut q = honest.clone();
        let q2 = || second.clone();
        let (mut truth, mut honestly, mut late) = (false, false, false);
        match name {
            "intact" => {}
            "step count" => {
                q.i = match a % 5 {
                    0 => q.i + 1,
                    1 => q.i - 1,
                    2 => 0,
                    3 => q.i + (1 << (b % 62)),
                    _ => u64::MAX - b % 3,
                }
            }
            "initial state" if a & 64 == 0 => q.z0p[0] = other(q.z0p[0], b),
            "initial state" => q.z0s[0] = other(q.z0s[0], b),
            "final state" if a & 64 == 0 => q.zip[0] = other(q.zip[0], b),
            "final state" => q.zis[0] = other(q.zis[0], b),
            "state lengths" => match a % 8 {
                0 => q.z0p.push(q.zip.remove(0)),
                1 => q.z0s.push(q.zis.remove(0)),
                2 => q.zip.insert(0, q.z0p.remove(0)),
                3 => q.zis.insert(0, q.z0s.remove(0)),
                4 => q.z0p.push(Fe::zero()),
                5 => q.zip.push(Fe::zero()),
                6 => {
                    q.z0p.push(Fe::zero());
                    q.zip.push(Fe::zero());
                }
                _ => {
                    q.z0s.clear();
                    q.zis.clear();
                }
            },
            "strict public input" => match a % 3 {
                0 => q.us.x[0] = other(q.us.x[0], b),
                1 => q.us.x[1] = other(q.us.x[1], b),
                _ => q.us.x.swap(0, 1),
            },
            "strict commitment" => point!(Gk, q.us.cw, b),
            "strict witness" => {
                let j = slot(a, q.ws.len());
                q.ws.set(j, other(q.ws.get(j), b));
            }
            "primary accumulator" => match a % 5 {
                0 => point!(Bn, q.up.cw, b),
                1 => point!(Bn, q.up.ce, b),
                2 => q.up.u = other(q.up.u, b),
                k => q.up.x[k as usize - 3] = other(q.up.x[k as usize - 3], b),
            },
            "secondary accumulator" => match a % 5 {
                0 => point!(Gk, q.ur.cw, b),
                1 => point!(Gk, q.ur.ce, b),
                2 => q.ur.u = other(q.ur.u, b),
                k => q.ur.x[k as usize - 3] = other(q.ur.x[k as usize - 3], b),
            },
            "primary witness" => {
                let v = if a & 64 == 0 { &mut q.wp.0 } else { &mut q.wp.1 };
                let j = slot(a >> 8, v.len());
                let x = other(v.get(j), b);
                v.set(j, x);
            }
            "secondary witness" => {
                let v = if a & 64 == 0 { &mut q.wr.0 } else { &mut q.wr.1 };
                let j = slot(a >> 8, v.len());
                let x = other(v.get(j), b);
                v.set(j, x);
            }
            "repaired primary error" => {
                let j = slot(a, q.wp.0.len());
                q.wp.0.set(j, other(q.wp.0.get(j), b));
                q.wp.1 = Raw::of(&w.shapes[sys].0.error(q.up.u, &q.up.x, &q.wp.0.all()));
            }
            "repaired secondary error" => {
                let j = slot(a, q.wr.0.len());
                q.wr.0.set(j, other(q.wr.0.get(j), b));
                q.wr.1 = Raw::of(&w.shapes[sys].1.error(q.ur.u, &q.ur.x, &q.wr.0.all()));
            }
            "parts of two proofs" => {
                let r = q2();
                let mut m = a % 63 + 1;
                if b & 1 == 0 {
                    m = 1 << (a % 6);
                }
                if m & 1 != 0 {
                    (q.us, q.ws) = (r.us, r.ws);
                }
                if m & 2 != 0 {
                    (q.up, q.wp) = (r.up, r.wp);
                }
                if m & 4 != 0 {
                    (q.ur, q.wr) = (r.ur, r.wr);
                }
                if m & 8 != 0 {
                    q.i = r.i;
                }
                if m & 16 != 0 {
                    (q.z0p, q.zip) = (r.z0p, r.zip);
                }
                if m & 32 != 0 {
                    (q.z0s, q.zis) = (r.z0s, r.zis);
                }
            }
            "other claim" => {
                let r = q2();
                (q.i, q.z0p, q.z0s, q.zip, q.zis) = (r.i, r.z0p, r.z0s, r.zip, r.zis);
            }
            "rehashed claim" => {
                match a % 8 {
                    0 => q.i += 1,
                    1 => q.zip[0] = other(q.zip[0], b),
                    2 => q.zis[0] = other(q.zis[0], b),
                    3 => q.z0p[0] = other(q.z0p[0], b),
                    4 => q.z0s[0] = other(q.z0s[0], b),
                    5 => q.i = 0,
                    6 => {
                        let r = q2();
                        (q.up, q.wp) = (r.up, r.wp);
                    }
                    _ => {
                        let r = q2();
                        (q.ur, q.wr) = (r.ur, r.wr);
                    }
                }
                q.rehash();
            }
            "rehashed empty accumulators" => {
                if a & 1 == 0 {
                    q.up = Rel::zero(2);
                    q.wp = (Raw::zero(q.wp.0.len()), Raw::zero(q.wp.1.len()));
                }
                if a & 3 != 1 {
                    q.ur = Rel::zero(2);
                    q.wr = (Raw::zero(q.wr.0.len()), Raw::zero(q.wr.1.len()));
                }
                if a & 4 == 0 {
                    q.zip[0] = other(q.zip[0], b);
                }
                q.rehash();
            }
            "opened accumulator" => {
                let ((s1, s2), (k1, k2)) = (&w.shapes[sys], &w.keys[sys]);
                if a & 1 == 0 {
                    reopen(s1, k1, &mut q.up, &mut q.wp, a >> 2, b);
                } else {
                    reopen(s2, k2, &mut q.ur, &mut q.wr, a >> 2, b);
                }
                if a & 2 == 0 {
                    q.rehash();
                }
            }
            "other parameters" => sys = (sys + 1 + a as usize % (w.sys.len() - 1)) % w.sys.len(),
            "Byzantine first step" => {
                sys = a as usize % w.sys.len();
                let z0 = (q.z0p[0], q.z0s[0]);
                let mut z = z0;
                if b & 1 == 0 {
                    z.0 = other(z.0, b >> 8);
                }
                if b & 2 == 0 {
                    z.1 = other(z.1, b >> 8);
                }
                let corrupt = if b & 4 == 0 { Some((b >> 3, (a >> 8) % 66_000, 1 + (b >> 4) % 3, b >> 20)) } else { None };
                if corrupt.is_some() {
                    fault("prover's memory corrupted during the first step");
                }
                q = must("first step", || w.sys[sys].byzantine(z0, z, corrupt));
                let lie = w.sys[sys].model(z.0, z.1);
                if b & 8 == 0 {
                    (q.zip, q.zis) = (vec![lie.0], vec![lie.1]);
                }
                if b & 16 == 0 {
                    q.rehash();
                }
                let t = w.sys[sys].model(z0.0, z0.1);
                truth = q.zip == [t.0] && q.zis == [t.1];
            }
            "Byzantine later step" => {
                let all: Vec<_> = w.proofs.iter().filter(|(k, _, p)| *k == sys && p.z0p == q.z0p && p.z0s == q.z0s).collect();
                let mut lie = Lie { i: (q.i, q.i), z0: (q.z0p[0], q.z0s[0]), z: (q.zip[0], q.zis[0]), corrupt: None };
                match a % 16 {
                    0 => lie.z.0 = other(lie.z.0, b),
                    1 => lie.z.1 = other(lie.z.1, b),
                    2 => lie.z0.0 = other(lie.z0.0, b),
                    3 => lie.z0.1 = other(lie.z0.1, b),
                    4 => lie.i.0 = b % 8,
                    5 => lie.i.1 = b % 8,
                    6 => lie.i = (q.i + 1 + b % 3, q.i + 1 + b % 3),
                    // starts over in the middle
                    7 => lie.i = (0, 0),
                    8 => {
                        lie.i = (0, 0);
                        lie.z = (other(lie.z.0, b), other(lie.z.1, b));
                    }
                    // the accumulators of another moment
                    9 => {
                        let r = &all[b as usize % all.len()].2;
                        (q.ur, q.wr) = (r.ur.clone(), r.wr.clone());
                    }
                    10 => {
                        let r = &all[b as usize % all.len()].2;
                        (q.up, q.wp) = (r.up.clone(), r.wp.clone());
                    }
                    11 => {
                        q.ur = Rel::zero(2);
                        q.wr = (Raw::zero(q.wr.0.len()), Raw::zero(q.wr.1.len()));
                    }
                    12 => {
                        q.up = Rel::zero(2);
                        q.wp = (Raw::zero(q.wp.0.len()), Raw::zero(q.wp.1.len()));
                    }
                    // the instance of another moment
                    13 => {
                        let r = &all[b as usize % all.len()].2;
                        (q.us, q.ws) = (r.us.clone(), r.ws.clone());
                    }
                    14 => {}
                    _ => {
                        fault("prover's memory corrupted during a later step");
                        lie.corrupt = Some((b >> 3, (a >> 8) % 66_000, 1 + (b >> 4) % 3, b >> 20));
                    }
                }
                if a % 16 == 6 && a & 512 != 0 {
                    q.i = lie.i.0;
                }
                q = must("later step", || w.sys[sys].byzantine_next(&q, &lie));
                if a & 16 != 0 {
                    // and goes on as if nothing had happened
                    let lie = Lie { i: (q.i, q.i), z0: (q.z0p[0], q.z0s[0]), z: (q.zip[0], q.zis[0]), corrupt: None };
                    q = must("the step after it", || w.sys[sys].byzantine_next(&q, &lie));
                }
                if a & 32 != 0 && a % 16 != 14 {
                    let t = nth(&*w.sys[sys], (q.z0p[0], q.z0s[0]), q.i);
                    (q.zip, q.zis) = (vec![t.0], vec![t.1]);
                }
                if a & 64 != 0 {
                    q.rehash();
                }
                if a & 384 == 128 {
                    q.i = if a % 16 == 7 || a % 16 == 8 { 1 } else { lie.i.0 + 1 };
                }
                let t = nth(&*w.sys[sys], (q.z0p[0], q.z0s[0]), q.i);
                truth = q.zip == [t.0] && q.zis == [t.1];
                honestly = a % 16 == 14 && a & 384 != 128;
            }
            "error chosen after the challenge" => {
                sys = 0;
                let z0 = (q.z0p[0], q.z0s[0] + Fe::from_u64(3));
                match must("late", || w.sys[0].late(z0)) {
                    Some(r) => q = r,
                    None => {
                        probe("no single product to put the error in");
                        continue;
                    }
                }
                let t = nth(&*w.sys[0], z0, q.i);
                truth = q.zip == [t.0] && q.zis == [t.1];
                late = true;
            }
            "aliased hash" => {
                // the same base field value: one modulus further
                let alias = Fe::<Q>::from_int(q.us.x[1].int()) + Fe::from_int(<R as Modulus>::P);
                q.us.x[1] = alias;
            }
            "swapped accumulator values" => {
                if a & 1 == 0 {
                    q.up.x.swap(0, 1);
                    std::mem::swap(&mut q.up.cw, &mut q.up.ce);
                } else {
                    q.ur.x.swap(0, 1);
                    std::mem::swap(&mut q.ur.cw, &mut q.ur.ce);
                }
                if a & 2 == 0 {
                    q.rehash();
                }
            }
            "unopened accumulator" => {
                // other committed values, everything but the openings made right
                let j = slot(a >> 2, q.wp.0.len());
                if a & 1 == 0 {
                    q.wp.0.set(j, other(q.wp.0.get(j), b));
                    q.wp.1 = Raw::of(&w.shapes[sys].0.error(q.up.u, &q.up.x, &q.wp.0.all()));
                } else {
                    q.wr.0.set(j, other(q.wr.0.get(j), b));
                    q.wr.1 = Raw::of(&w.shapes[sys].1.error(q.ur.u, &q.ur.x, &q.wr.0.all()));
                }
            }
            _ => continue,
        }
        let bytes = q.bytes();
        let genuine = w.proofs.iter().any(|(k, h, _)| *k == sys && *h == bytes);
        if genuine {
            probe("intact proof delivered");
        } else {
            fault(name);
        }
        let v = must("decode and verify", || w.sys[sys].verify(&bytes));
        if honestly {
            check(v == Verdict::Accepted, "honest-proof-rejected", || format!("{}: the honest next proof, of {} steps, is {v:?}", w.sys[sys].name(), q.i));
            probe("honest later step");
        } else if v == Verdict::Accepted {
            check(genuine || truth || !late, "chosen-after-challenge", || {
                format!("an error of the step function chosen after the challenge is folded away: {} of {} steps accepted with another final state (proof {})", w.sys[sys].name(), q.i, o.arg(0))
            });
            check(genuine || truth, "forgery-accepted", || {
                format!("{}: {name}: a proof of {} steps of {} that no computation yields is accepted (variant {a:#x} {b:#x}, proof {})", w.sys[sys].name(), q.i, w.sys[sys].name(), o.arg(0))
            });
        } else {
            check(!genuine, "honest-proof-rejected", || format!("{}: an honest proof of {} steps is {v:?}", w.sys[sys].name(), q.i));
            if !genuine {
                probe("forgery rejected");
            }
        }
        state(hash_str(&format!("{name} {} {v:?}", a % 8)));
        ev(&format!("{name} on {} {v:?}", o.arg(0)));
    }
}
pub fn timing() {
    fast::set(true);
    let t = |s: &str, t0: &mut u64| {
        let n = sched::real_now();
        println!("{s}: {:.2}s", (n - *t0) as f64 / 1e9);
        *t0 = sched::real_now();
    };
    let mut t0 = sched::real_now();
    let cs = zknova::sim::step::<G, B, Cubic<Fr>>(true, 0, DenseVectors::new(vec![Fr::from(3)]), None, None, None, None).0;
    t("step synth", &mut t0);
    println!("m {} l {} w {}", cs.m(), cs.l(), cs.m_l_1());
    println!("sat {}", cs.is_sat());
    t("is_sat", &mut t0);
    let s1 = R1csShape::<B>::from(cs);
    t("shape", &mut t0);
    let k = quick_key(65537, 1, fast::learn_bn);
    t("key", &mut t0);
    let pp = quick_params::<Cubic<Fr>, Cubic<Fq>>(1);
    t("params", &mut t0);
    let mut ivc = Ivc::init(&pp, DenseVectors::new(vec![Fr::from(3)]), DenseVectors::new(vec![Fq::from(3)]));
    t("init", &mut t0);
    for i in 0..3 {
        let p = ivc.prove_step(&pp);
        t("step", &mut t0);
        println!("{}", p.verify(&pp));
        t("verify", &mut t0);
        let b = p.encode();
        t("encode", &mut t0);
        RecursiveProof::<B, G, Cubic<Fr>, Cubic<Fq>>::decode(&mut &b[..]).unwrap();
        t("decode", &mut t0);
    }
}

// ------------------------------------------------------------------ N04

/// Where the numbers of encoded parameters stand.
struct Spots {
    /// sizes and counts: name, first byte, last
    nums: Vec<(&'static str, usize, usize)>,
    /// wire numbers
    wires: Vec<(usize, usize)>,
    /// kinds of wires, flags of points
    tags: Vec<usize>,
}
fn spots(b: &[u8]) -> Spots {
    let mut o = Spots { nums: vec![], wires: vec![], tags: vec![] };
    let mut r = Rd(b);
    let at = |r: &Rd| b.len() - r.0.len();
    let mut num = |r: &mut Rd, name| {
        let x = at(r);
        let v = r.compact();
        o.nums.push((name, x, at(r)));
        v
    };
    let (mut wires, mut tags) = (vec![], vec![]);
    for _ in 0..2 {
        for name in ["m", "l", "n"] {
            num(&mut r, name);
        }
        for k in 0..3 {
            for row in 0..num(&mut r, "rows") {
                let x = at(&r);
                let n = r.compact();
                if row % 997 == k {
                    wires.push((x, at(&r)));
                }
                for _ in 0..n {
                    let x = at(&r);
                    r.take(1);
                    let y = at(&r);
                    r.compact();
                    if row % 97 == k {
                        tags.push(x);
                        wires.push((y, at(&r)));
                    }
                    r.take(32);
                }
            }
        }
    }
    for _ in 0..2 {
        for i in 0..num(&mut r, "generators") {
            r.take(64);
            if i % 997 == 0 {
                tags.push(at(&r));
            }
            r.take(1);
        }
    }
    r.done();
    o.wires = wires;
    o.tags = tags;
    o
}
fn odd_number(now: u64, k: u64) -> Vec<u8> {
    let v = match k % 10 {
        0 => now.wrapping_sub(1),
        1 => now + 1,
        2 => 0,
        3 => now * 2,
        4 => 1 << 30,
        5 => u32::MAX as u64,
        6 => u64::MAX,
        7 => 1 << (k >> 8) % 64,
        8 => now + (k >> 8) % 100_000,
        // not the shortest form, or bytes that are not a number at all
        _ => return (0..1 + (k >> 8) % 9).map(|i| (k >> (i + 12)) as u8 | 3).collect(),
    };
    Compact(v).encode()
}

pub fn gen_n04(r: &mut Rng, seed: u64, thorough: bool) -> (Plan, Spec) {
    let mut p = Plan::new("N04");
    let slow = r.chance(1, 40);
    p.p.insert("slow".into(), slow as u64);
    for _ in 0..6 + r.below(if thorough { 20 } else { 8 }) {
        p.push("malformed", &[r.below(PROOFS), r.below(10), r.u64() >> 8, r.u64() >> 8]);
    }
    if r.chance(1, 4) {
        p.push("parameters", &[r.below(PROOFS), r.below(5), r.u64() >> 8, r.u64() >> 8]);
    }
    if r.chance(1, 12) {
        p.push("valid", &[r.below(PROOFS)]);
    }
    let mut s = gen_spec(r, seed, 100_000);
    s.edge_cap = BIG;
    (p, s)
}

/// Basic blocks a node may execute for one message; an honest proof takes a fifth of it.
const WORK: u64 = 100_000_000_000;

fn bounded<T>(what: &str, f: impl FnOnce() -> T) -> T {
    let e = sched::edges();
    let v = must(what, f);
    let n = sched::edges() - e;
    check(n < WORK, "runaway", || format!("{what}: {n} basic blocks for one message"));
    v
}

pub fn run_n04(p: &Plan) {
    let w = world();
    fast::set(p.get("slow") == 0);
    if p.get("slow") != 0 {
        probe("commitments summed up term by term");
    }
    unsafe {
        // a message must not be able to claim all memory
        let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
    for o in &p.ops {
        let (sys, bytes, honest) = &w.proofs[o.arg(0) as usize % w.proofs.len()];
        let (a, b) = (o.arg(2), o.arg(3));
        if o.k == "valid" {
            let v = bounded("decode and verify", || w.sys[*sys].verify(bytes));
            check(v == Verdict::Accepted, "honest-proof-rejected", || format!("after malformed messages an honest proof of {} steps is {v:?}", honest.i));
            probe("valid message after malformed ones");
            ev("valid");
            continue;
        }
        if o.k == "parameters" {
            let mut m = w.params.0.clone();
            let s = &w.params.1;
            let name = match o.arg(1) % 5 {
                0 | 1 => {
                    let (name, x, y) = s.nums[a as usize % s.nums.len()];
                    let v = odd_number(Rd(&m[x..]).compact(), b);
                    m.splice(x..y, v);
                    name
                }
                2 => {
                    let (x, y) = s.wires[a as usize % s.wires.len()];
                    let v = odd_number(Rd(&m[x..]).compact(), b);
                    m.splice(x..y, v);
                    "wire"
                }
                3 => {
                    m[s.tags[a as usize % s.tags.len()]] ^= 1 + (b % 3) as u8;
                    "tag"
                }
                _ => {
                    m.truncate(a as usize % m.len());
                    "truncated"
                }
            };
            fault(&format!("parameters damaged: {name}"));
            let v = bounded("decode parameters and verify", || w.sys[0].verify_with(&m, bytes));
            probe("damaged parameters judged");
            ev(&format!("parameters {name} {v:?}"));
            continue;
        }
        if o.k != "malformed" {
            continue;
        }
        let mut m = bytes.clone();
        let name = match o.arg(1) % 10 {
            0 => {
                let n = if a & 1 == 0 { (a >> 8) as usize % 4096 } else { (a >> 8) as usize % m.len() };
                m.truncate(n);
                "truncated"
            }
            1 => {
                m.extend((0..1 + a % 100).map(|i| (b >> (i % 56)) as u8));
                "extended"
            }
            2 => {
                for i in 0..1 + a % 4 {
                    let n = if b & 1 == 0 { 700 } else { m.len() };
                    m[(b >> (i * 8)) as usize % n] ^= 1 << (a >> (8 + 3 * i)) % 8;
                }
                "bits flipped"
            }
            3 => {
                let at = spots_of(honest);
                let x = at[a as usize % at.len()];
                let mut r = Rd(&m[x..]);
                let now = r.compact();
                let y = m.len() - r.0.len();
                m.splice(x..y, odd_number(now, b));
                "count altered"
            }
            4 | 5 | 6 => {
                // well-formed, with vectors of other lengths
                let mut q = honest.clone();
                let n = |now: usize, k: u64| match k % 6 {
                    0 => 0,
                    1 => now - 1,
                    2 => now + 1,
                    3 => 1,
                    4 => now / 2,
                    _ => now + 70_000,
                };
                fn long<M: Modulus>(v: &mut Raw<M>, n: usize, one: bool) {
                    let mut x = [0u8; 32];
                    if one {
                        let mut b = vec![];
                        put_fe(&mut b, &Fe::<M>::one());
                        x = b.try_into().unwrap();
                    }
                    v.0.resize(n, x);
                }
                fn short<M: Modulus>(v: &mut Vec<Fe<M>>, k: u64) {
                    match k % 4 {
                        0 => v.clear(),
                        1 => drop(v.pop()),
                        2 => v.push(Fe::one()),
                        _ => v.resize(1000, Fe::zero()),
                    }
                }
                let one = b & 256 == 0;
                for bit in 0..1 + (a >> 20) % 3 {
                    match (a >> (bit * 5)) % 16 {
                        0 | 1 => { let k = n(q.ws.len(), b); long(&mut q.ws, k, one) }
                        2 | 3 => { let k = n(q.wp.0.len(), b); long(&mut q.wp.0, k, one) }
                        4 | 5 => { let k = n(q.wp.1.len(), b); long(&mut q.wp.1, k, one) }
                        6 | 7 => { let k = n(q.wr.0.len(), b); long(&mut q.wr.0, k, one) }
                        8 | 9 => { let k = n(q.wr.1.len(), b); long(&mut q.wr.1, k, one) }
                        10 => short(&mut q.us.x, b),
                        11 => short(&mut q.up.x, b),
                        12 => short(&mut q.ur.x, b),
                        13 => { short(&mut q.z0p, b); short(&mut q.zip, b) }
                        14 => { short(&mut q.z0s, b); short(&mut q.zis, b) }
                        _ => { short(&mut q.z0p, b); short(&mut q.zis, b >> 2) }
                    }
                }
                if b & 512 == 0 && q.us.x.len() == 2 && q.up.x.len() == 2 && q.ur.x.len() == 2 {
                    q.rehash();
                }
                m = q.bytes();
                "lengths that do not match"
            }
            7 => {
                // 32 bytes that are not a field element, or a point that is none
                let at = spots_of(honest);
                let x = at[a as usize % at.len()] + 1 + (a >> 8) as usize % 3 * 32;
                let y = (x + 32).min(m.len());
                m[x..y].fill(if b & 1 == 0 { 0xff } else { b as u8 });
                "bytes that are no value"
            }
            8 => {
                m = (0..a % 3000).map(|i| mix(b ^ i) as u8).collect();
                "random bytes"
            }
            _ => {
                let x = (b >> 8) as usize % m.len();
                let y = (a >> 8) as usize % m.len();
                let n = 1 + a as usize % 4096;
                let part: Vec<u8> = m[y..(y + n).min(m.len())].to_vec();
                if a & 128 == 0 {
                    m.splice(x..x, part);
                } else {
                    m.drain(x..(x + n).min(m.len()));
                }
                "pieces moved"
            }
        };
        fault(name);
        let v = bounded("decode and verify", || w.sys[*sys].verify(&m));
        check(v != Verdict::Accepted || m == *bytes, "forgery-accepted", || format!("a malformed proof ({name}, {a:#x} {b:#x}) is accepted"));
        probe(match v {
            Verdict::Undecodable => "malformed message undecodable",
            _ => "malformed message judged",
        });
        state(hash_str(&format!("{name} {} {v:?}", a % 16)));
        ev(&format!("{name} {v:?}"));
    }
}
/// Where the counts of an encoded proof stand.
fn spots_of(q: &Rp) -> Vec<usize> {
    let c = |n: usize| Compact(n as u64).encode().len();
    let mut o = vec![0];
    let mut x = Compact(q.i).encode().len();
    for v in [q.z0p.len(), q.z0s.len(), q.zip.len(), q.zis.len()] {
        o.push(x);
        x += c(v) + 32 * v;
    }
    x += 65;
    o.push(x);
    x += c(q.us.x.len()) + 32 * q.us.x.len();
    o.push(x);
    x += c(q.ws.len()) + 32 * q.ws.len();
    for (l, w, e) in [(q.up.x.len(), q.wp.0.len(), q.wp.1.len()), (q.ur.x.len(), q.wr.0.len(), q.wr.1.len())] {
        x += 65 + 65 + 32;
        for n in [l, w, e] {
            o.push(x);
            x += c(n) + 32 * n;
        }
    }
    o
}
