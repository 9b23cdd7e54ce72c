//! Values of the incremental prover as the model sees them: read from and
//! written to their wire encoding, so that no private field is needed.
use crate::wire::limbs;
use model::{Fe, Modulus, Pt, Q, R};
use parity_scale_codec::{Compact, Decode, Encode};
use zkstd::circuit::CircuitDriver;
use zkstd::common::Group;

/// One curve of the cycle: scalars modulo `M`, coordinates modulo `B`.
pub trait Side: 'static {
    type D: CircuitDriver;
    type M: Modulus;
    type B: Modulus;
    const NAME: &'static str;
    fn b() -> Fe<Self::B>;
}
pub struct Bn;
pub struct Gk;
impl Side for Bn {
    type D = zknova::Bn254Driver;
    type M = R;
    type B = Q;
    const NAME: &'static str = "bn254";
    fn b() -> Fe<Q> {
        model::b_g1()
    }
}
impl Side for Gk {
    type D = zknova::GrumpkinDriver;
    type M = Q;
    type B = R;
    const NAME: &'static str = "grumpkin";
    fn b() -> Fe<R> {
        model::b_grumpkin()
    }
}

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        assert!(self.0.len() >= n, "HARNESS: encoding shorter than its layout");
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    pub fn compact(&mut self) -> u64 {
        Compact::<u64>::decode(&mut self.0).expect("HARNESS compact").0
    }
    pub fn fe<M: Modulus>(&mut self) -> Fe<M> {
        Fe::from_mont_repr(limbs(self.take(32))).expect("HARNESS: a value of the system is not below its modulus")
    }
    pub fn pt<B: Modulus>(&mut self) -> Pt<Fe<B>> {
        let p = (self.fe(), self.fe());
        (self.take(1)[0] == 0).then(|| p)
    }
    pub fn vec<M: Modulus>(&mut self) -> Vec<Fe<M>> {
        (0..self.compact()).map(|_| self.fe()).collect()
    }
    pub fn done(&self) {
        assert!(self.0.is_empty(), "HARNESS: encoding longer than its layout");
    }
}
pub fn put_fe<M: Modulus>(o: &mut Vec<u8>, v: &Fe<M>) {
    for l in v.mont_repr() {
        o.extend(l.to_le_bytes());
    }
}
pub fn put_vec<M: Modulus>(o: &mut Vec<u8>, v: &[Fe<M>]) {
    Compact(v.len() as u64).encode_to(o);
    for x in v {
        put_fe(o, x);
    }
}
pub fn put_pt<S: Side>(o: &mut Vec<u8>, p: &Pt<Fe<S::B>>) {
    match p {
        None => o.extend(<S::D as CircuitDriver>::Affine::ADDITIVE_IDENTITY.encode()),
        Some((x, y)) => {
            put_fe(o, x);
            put_fe(o, y);
            o.push(0);
        }
    }
}

/// A strict instance.
pub struct Inst<S: Side> {
    pub cw: Pt<Fe<S::B>>,
    pub x: Vec<Fe<S::M>>,
}
/// A relaxed instance.
pub struct Rel<S: Side> {
    pub cw: Pt<Fe<S::B>>,
    pub ce: Pt<Fe<S::B>>,
    pub u: Fe<S::M>,
    pub x: Vec<Fe<S::M>>,
}
/// A relaxed witness.
pub struct Wit<S: Side> {
    pub w: Vec<Fe<S::M>>,
    pub e: Vec<Fe<S::M>>,
}
macro_rules! same {
    ($t:ident, $($f:ident),*) => {
        impl<S: Side> Clone for $t<S> {
            fn clone(&self) -> Self { $t { $($f: self.$f.clone()),* } }
        }
        impl<S: Side> PartialEq for $t<S> {
            fn eq(&self, o: &Self) -> bool { $(self.$f == o.$f)&&* }
        }
    };
}
same!(Inst, cw, x);
same!(Rel, cw, ce, u, x);
same!(Wit, w, e);

impl<S: Side> Inst<S> {
    pub fn rd(r: &mut Rd) -> Self {
        Inst { cw: r.pt(), x: r.vec() }
    }
    pub fn of<V: Encode>(v: &V) -> Self {
        let b = v.encode();
        let mut r = Rd(&b);
        let o = Self::rd(&mut r);
        r.done();
        o
    }
    pub fn put(&self, o: &mut Vec<u8>) {
        put_pt::<S>(o, &self.cw);
        put_vec(o, &self.x);
    }
    pub fn real(&self) -> zknova::sim::R1csInstance<S::D> {
        let mut b = vec![];
        self.put(&mut b);
        Decode::decode(&mut &b[..]).expect("HARNESS instance")
    }
}
impl<S: Side> Rel<S> {
    pub fn rd(r: &mut Rd) -> Self {
        Rel { cw: r.pt(), ce: r.pt(), u: r.fe(), x: r.vec() }
    }
    pub fn of<V: Encode>(v: &V) -> Self {
        let b = v.encode();
        let mut r = Rd(&b);
        let o = Self::rd(&mut r);
        r.done();
        o
    }
    pub fn zero(l: usize) -> Self {
        Rel { cw: None, ce: None, u: Fe::zero(), x: vec![Fe::zero(); l] }
    }
    pub fn put(&self, o: &mut Vec<u8>) {
        put_pt::<S>(o, &self.cw);
        put_pt::<S>(o, &self.ce);
        put_fe(o, &self.u);
        put_vec(o, &self.x);
    }
    pub fn real(&self) -> zknova::sim::RelaxedR1csInstance<S::D> {
        let mut b = vec![];
        self.put(&mut b);
        Decode::decode(&mut &b[..]).expect("HARNESS relaxed instance")
    }
}
impl<S: Side> Wit<S> {
    pub fn rd(r: &mut Rd) -> Self {
        Wit { w: r.vec(), e: r.vec() }
    }
    pub fn of<V: Encode>(v: &V) -> Self {
        let b = v.encode();
        let mut r = Rd(&b);
        let o = Self::rd(&mut r);
        r.done();
        o
    }
    pub fn put(&self, o: &mut Vec<u8>) {
        put_vec(o, &self.w);
        put_vec(o, &self.e);
    }
    pub fn real(&self) -> zknova::sim::RelaxedR1csWitness<S::D> {
        let mut b = vec![];
        self.put(&mut b);
        Decode::decode(&mut &b[..]).expect("HARNESS relaxed witness")
    }
}
pub fn wvec<S: Side>(w: &zknova::sim::R1csWitness<S::D>) -> Vec<Fe<S::M>> {
    Rd(&w.encode()).vec()
}
pub fn wreal<S: Side>(w: &[Fe<S::M>]) -> zknova::sim::R1csWitness<S::D> {
    let mut b = vec![];
    put_vec(&mut b, w);
    Decode::decode(&mut &b[..]).expect("HARNESS witness")
}
pub fn ptreal<S: Side>(p: &Pt<Fe<S::B>>) -> <S::D as CircuitDriver>::Affine {
    let mut b = vec![];
    put_pt::<S>(&mut b, p);
    Decode::decode(&mut &b[..]).expect("HARNESS point")
}
pub fn ptof<S: Side, V: Encode>(p: &V) -> Pt<Fe<S::B>> {
    Rd(&p.encode()).pt()
}
pub fn add4<M: Modulus>(a: Fe<M>, k: u32) -> Fe<M> {
    a + Fe::two_pow(k)
}

/// The constraint system as the model sees it.
pub struct Shape<S: Side> {
    pub m: usize,
    pub l: usize,
    pub n: usize,
    pub abc: [Vec<Vec<(bool, usize, Fe<S::M>)>>; 3],
}
impl<S: Side> Shape<S> {
    pub fn empty() -> Self {
        Shape { m: 0, l: 0, n: 0, abc: [vec![], vec![], vec![]] }
    }
    pub fn of(s: &zknova::R1csShape<S::D>) -> Self {
        let b = s.encode();
        let mut r = Rd(&b);
        let (m, l, n) = (r.compact() as usize, r.compact() as usize, r.compact() as usize);
        let mut mat = || {
            (0..r.compact())
                .map(|_| {
                    (0..r.compact())
                        .map(|_| {
                            let t = r.take(1)[0];
                            (t == 0, r.compact() as usize, r.fe())
                        })
                        .collect()
                })
                .collect()
        };
        let abc = [mat(), mat(), mat()];
        r.done();
        Shape { m, l, n, abc }
    }
    fn row(&self, k: usize, i: usize, u: Fe<S::M>, x: &[Fe<S::M>], w: &[Fe<S::M>]) -> Fe<S::M> {
        self.abc[k].get(i).into_iter().flatten().fold(Fe::zero(), |a, (inst, j, c)| {
            a + *c * match (inst, j) {
                (true, 0) => u,
                (true, j) => x[j - 1],
                (false, j) => w[*j],
            }
        })
    }
    pub fn rows(&self, k: usize, u: Fe<S::M>, x: &[Fe<S::M>], w: &[Fe<S::M>]) -> Vec<Fe<S::M>> {
        (0..self.m).map(|i| self.row(k, i, u, x, w)).collect()
    }
    /// (A z) o (B z) - u (C z)
    pub fn error(&self, u: Fe<S::M>, x: &[Fe<S::M>], w: &[Fe<S::M>]) -> Vec<Fe<S::M>> {
        (0..self.m).map(|i| self.row(0, i, u, x, w) * self.row(1, i, u, x, w) - u * self.row(2, i, u, x, w)).collect()
    }
    pub fn sat(&self, x: &[Fe<S::M>], w: &[Fe<S::M>]) -> bool {
        x.len() == self.l && w.len() == self.n && self.error(Fe::one(), x, w).iter().all(|e| e.is_zero())
    }
    pub fn cross(&self, u1: Fe<S::M>, x1: &[Fe<S::M>], w1: &[Fe<S::M>], x2: &[Fe<S::M>], w2: &[Fe<S::M>]) -> Vec<Fe<S::M>> {
        let one = Fe::one();
        (0..self.m)
            .map(|i| {
                let f = |k| (self.row(k, i, u1, x1, w1), self.row(k, i, one, x2, w2));
                let ((a1, a2), (b1, b2), (c1, c2)) = (f(0), f(1), f(2));
                a1 * b2 + a2 * b1 - u1 * c2 - c1
            })
            .collect()
    }
}
pub fn commit<S: Side>(g: &[Pt<Fe<S::B>>], v: &[Fe<S::M>]) -> Pt<Fe<S::B>> {
    assert!(v.len() <= g.len(), "HARNESS: commitment key too short for the model");
    let k: Vec<_> = v.iter().map(|x| x.int()).collect();
    model::msm(&g[..v.len()], &k)
}
pub fn gens<S: Side, V: Encode>(ck: &V) -> Vec<Pt<Fe<S::B>>> {
    let b = ck.encode();
    let mut r = Rd(&b);
    let n = r.compact();
    let v = (0..n).map(|_| r.pt()).collect();
    r.done();
    v
}
