//! N05: the transitions that the step circuit of the incremental computation
//! admits, for honest and dishonest provers.
use crate::forge::*;
use crate::groth::{gen_spec, must};
use crate::mirror::*;
use crate::stepfn::*;
use bn_254::{Fq, Fr};
use model::{Fe, Modulus, Pt};
use simcore::*;
use zknova::FunctionCircuit;
use zkstd::circuit::CircuitDriver;
use zkstd::matrix::DenseVectors;
use zkstd::r1cs::R1cs;

// ------------------------------------------------------------------ the transcript hash, modelled

pub struct Mimc<M: Modulus>(Vec<Fe<M>>);
impl<M: Modulus> Mimc<M> {
    pub fn new() -> Self {
        let mut st = blake2b_simd::Params::new().hash_length(64).personal(b"mimc").to_state();
        let wide = |st: &blake2b_simd::State| -> [u8; 64] { *st.finalize().as_array() };
        Mimc(
            (0..46)
                .map(|_| {
                    let b = wide(&st);
                    st.update(&b);
                    let b = wide(&st);
                    Fe::from_wide(std::array::from_fn(|i| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap())))
                })
                .collect(),
        )
    }
    fn hash(&self, mut l: Fe<M>, mut r: Fe<M>) -> Fe<M> {
        for c in &self.0 {
            let t = l + *c;
            let t2 = t * t;
            let n = t2 * t2 * t2 * t + r;
            r = l;
            l = n;
        }
        l
    }
    /// The low `bits` of the hash of a sequence.
    pub fn squeeze(&self, v: &[Fe<M>], bits: u32) -> [u64; 4] {
        let h = v.iter().fold(Fe::zero(), |a, s| a + *s + self.hash(*s, a)).int();
        std::array::from_fn(|i| {
            let lo = 64 * i as u32;
            if bits >= lo + 64 {
                h[i]
            } else if bits <= lo {
                0
            } else {
                h[i] & ((1u64 << (bits - lo)) - 1)
            }
        })
    }
}

// ------------------------------------------------------------------ one step, modelled

/// The prover's advice as the circuit holds it: field elements of the circuit.
#[derive(Clone, Debug, PartialEq)]
struct Advice<B: Modulus> {
    i: Fe<B>,
    z0: Fe<B>,
    zi: Fe<B>,
    /// u: commitment, x0, x1
    cw: [Fe<B>; 3],
    x0: Fe<B>,
    x1: Fe<B>,
    /// U: commitments, scalar, limbs of its two public values
    ucw: [Fe<B>; 3],
    uce: [Fe<B>; 3],
    uu: Fe<B>,
    ux: [[Fe<B>; 4]; 2],
    t: [Fe<B>; 3],
}
impl<B: Modulus> Advice<B> {
    fn list(&self) -> Vec<Fe<B>> {
        let mut v = vec![self.i, self.z0, self.zi];
        v.extend(self.cw);
        v.extend([self.x0, self.x1]);
        v.extend(self.ucw);
        v.extend(self.uce);
        v.push(self.uu);
        v.extend(self.ux[0]);
        v.extend(self.ux[1]);
        v.extend(self.t);
        v
    }
    fn of(v: &[Fe<B>]) -> Self {
        let a = |i: usize| [v[i], v[i + 1], v[i + 2]];
        let l = |i: usize| [v[i], v[i + 1], v[i + 2], v[i + 3]];
        Advice { i: v[0], z0: v[1], zi: v[2], cw: a(3), x0: v[6], x1: v[7], ucw: a(8), uce: a(11), uu: v[14], ux: [l(15), l(19)], t: a(23) }
    }
}
const NAMES: [&str; 26] = [
    "i", "z0", "zi", "u.W.x", "u.W.y", "u.W.z", "u.x0", "u.x1", "U.W.x", "U.W.y", "U.W.z", "U.E.x", "U.E.y", "U.E.z", "U.u", "U.x0[0]", "U.x0[1]", "U.x0[2]", "U.x0[3]", "U.x1[0]", "U.x1[1]", "U.x1[2]", "U.x1[3]", "T.x", "T.y", "T.z",
];

fn proj<B: Modulus>(p: &Pt<Fe<B>>) -> [Fe<B>; 3] {
    match p {
        None => [Fe::zero(), Fe::one(), Fe::zero()],
        Some((x, y)) => [*x, *y, Fe::one()],
    }
}
/// A normalised point of the curve, or what is wrong with it.
fn unproj<S: Side>(p: &[Fe<S::B>; 3]) -> Result<Pt<Fe<S::B>>, String> {
    let (zero, one) = (Fe::zero(), Fe::one());
    if *p == [zero, one, zero] {
        return Ok(None);
    }
    let q = Some((p[0], p[1]));
    if p[2] == one && model::on_curve(&q, S::b()) {
        Ok(q)
    } else {
        Err(format!("{p:?} is not a point of the curve"))
    }
}
fn limbs_of<B: Modulus>(v: [u64; 4]) -> [Fe<B>; 4] {
    v.map(Fe::from_u64)
}
fn absorb<B: Modulus>(v: &mut Vec<Fe<B>>, cw: &[Fe<B>; 3], ce: &[Fe<B>; 3], u: Fe<B>, x: &[[Fe<B>; 4]; 2]) {
    v.extend(cw);
    v.extend(ce);
    v.push(u);
    v.extend(x[0]);
    v.extend(x[1]);
}
/// All 256-bit representations of a residue.
fn reps<M: Modulus>(v: [u64; 4]) -> Vec<[u64; 4]> {
    let mut o = vec![v];
    loop {
        let s = o[o.len() - 1];
        let mut t = [0u64; 4];
        let mut c = 0u128;
        for j in 0..4 {
            let x = s[j] as u128 + M::P[j] as u128 + c;
            t[j] = x as u64;
            c = x >> 64;
        }
        if c != 0 {
            return o;
        }
        o.push(t);
    }
}

/// The public values that a correct step on this advice may have.
/// `Err`: no step on this advice is correct. `Ok(None)`: outside the contract.
fn step_model<S: Side, FC: StepModel>(h: &Mimc<S::B>, primary: bool, a: &Advice<S::B>) -> Result<Option<Vec<[Fe<S::B>; 2]>>, String> {
    let (cw, ucw, uce, t) = (unproj::<S>(&a.cw)?, unproj::<S>(&a.ucw)?, unproj::<S>(&a.uce)?, unproj::<S>(&a.t)?);
    // the running instance comes from a step before, whose limbs are 64 bits wide
    let narrow = |l: &[Fe<S::B>; 4]| -> Option<[u64; 4]> {
        let v = l.map(|x| x.int());
        v.iter().all(|x| x[1] | x[2] | x[3] == 0).then(|| v.map(|x| x[0]))
    };
    let base = a.i.is_zero();
    let z = if base { a.z0 } else { a.zi };
    let next_i = a.i + Fe::one();
    let out = |cw: &[Fe<S::B>; 3], ce: &[Fe<S::B>; 3], u: Fe<S::B>, x: [[u64; 4]; 2]| {
        let mut v = vec![next_i, a.z0, FC::model(z)];
        absorb(&mut v, cw, ce, u, &x.map(limbs_of));
        [a.x1, Fe::<S::B>::from_int(h.squeeze(&v, 252))]
    };
    let id = proj(&None);
    if base {
        return Ok(Some(vec![if primary { out(&id, &id, Fe::zero(), [[0; 4]; 2]) } else { out(&a.cw, &id, Fe::one(), [a.x0.int(), a.x1.int()]) }]));
    }
    let mut v = vec![a.i, a.z0, a.zi];
    absorb(&mut v, &a.ucw, &a.uce, a.uu, &a.ux);
    let want = Fe::<S::B>::from_int(h.squeeze(&v, 252));
    if want != a.x0 {
        return Err(format!("u.x0 is {:?}, the hash of the running instance is {want:?}", a.x0));
    }
    let (Some(x0), Some(x1)) = (narrow(&a.ux[0]), narrow(&a.ux[1])) else { return Ok(None) };
    let mut v = a.t.to_vec();
    absorb(&mut v, &a.ucw, &a.uce, a.uu, &a.ux);
    let r = h.squeeze(&v, 128);
    let fcw = model::add(ucw, model::mul(cw, r));
    let fce = model::add(uce, model::mul(t, r));
    let fold = |big: [u64; 4], small: Fe<S::B>| (Fe::<S::M>::from_int(big) + Fe::<S::M>::from_int(r) * Fe::<S::M>::from_int(small.int())).int();
    let (y0, y1) = (fold(x0, a.x0), fold(x1, a.x1));
    let u = a.uu + Fe::from_int(r);
    let mut o = vec![];
    for p in reps::<S::M>(y0) {
        for q in reps::<S::M>(y1) {
            o.push(out(&proj(&fcw), &proj(&fce), u, [p, q]));
        }
    }
    Ok(Some(o))
}

// ------------------------------------------------------------------ scenario

pub fn gen_n05(r: &mut Rng, seed: u64, thorough: bool) -> (Plan, Spec) {
    let mut p = Plan::new("N05").set("primary", r.below(2)).set("function", r.below(6));
    for _ in 0..if thorough { 3 } else { 2 } {
        // i, points, values, edges
        p.push("advice", &[if r.chance(1, 4) { 0 } else { r.u64() >> 8 }, r.below(1 << 30), r.below(1 << 30), r.u64() >> 8]);
        for _ in 0..3 + r.below(6) {
            p.push("while", &[r.below(8), r.below(1 << 40), *r.pick(&[1, 1, 1, 2, 3]), match r.below(4) { 0 => r.below(3), 1 => 3 | r.u64() >> 2 << 2, _ => 3 | (1 + r.below(9)) << 2 }]);
        }
        p.push("after", &[if thorough { 1500 } else { 150 }, r.below(1 << 30)]);
    }
    let mut s = gen_spec(r, seed, 100_000);
    s.edge_cap = 1 << 44;
    (p, s)
}

struct Given<S: Side> {
    i: u64,
    z0: Fe<S::B>,
    zi: Fe<S::B>,
    u: Inst<S>,
    big: Rel<S>,
    t: Pt<Fe<S::B>>,
}

fn fe<M: Modulus>(r: &mut Rng, edge: bool) -> Fe<M> {
    if edge {
        match r.below(6) {
            0 => return Fe::zero(),
            1 => return Fe::one(),
            2 => return -Fe::<M>::one(),
            3 => return Fe::two_pow(r.below(254) as u32),
            _ => {}
        }
    }
    Fe::from_wide(std::array::from_fn(|_| r.u64()))
}

fn generator<S: Side>() -> Pt<Fe<S::B>> {
    use zkstd::common::Group;
    ptof::<S, _>(&<S::D as CircuitDriver>::Affine::ADDITIVE_GENERATOR)
}

fn given<S: Side, O: Side>(o: &Op, h: &Mimc<S::B>, distinct: bool) -> Given<S> {
    let mut r = Rng::sub(o.arg(1), "advice", o.arg(2));
    let e = o.arg(3);
    let edge = |k: u32| !distinct && e >> k & 3 == 0;
    let i = if distinct { 1_000_003 } else { match o.arg(0) % 5 { _ if o.arg(0) == 0 => 0, 0 => 1, 1 => 2, 2 => 1 << (o.arg(0) >> 3 & 63).min(62), _ => o.arg(0) >> 2 } };
    let mut pt = |r: &mut Rng, k: u32, like: Pt<Fe<S::B>>| match (edge(k), r.below(4)) {
        (true, 0) => None,
        (true, 1) => like,
        (true, 2) => model::neg(like),
        (true, _) => generator::<S>(),
        _ => model::mul(generator::<S>(), std::array::from_fn(|i| if i == 3 { r.u64() >> 4 } else { r.u64() })),
    };
    let cw = pt(&mut r, 0, generator::<S>());
    let ucw = pt(&mut r, 2, cw);
    let uce = pt(&mut r, 4, ucw);
    let t = pt(&mut r, 6, uce);
    let z0 = fe(&mut r, edge(8));
    let zi = fe(&mut r, edge(10));
    // the scalar of a running instance is a sum of 128-bit challenges
    let uu = match (edge(12), r.below(3)) {
        (true, 0) => Fe::zero(),
        (true, 1) => Fe::one(),
        _ => Fe::from_int([r.u64(), r.u64(), r.u64() >> 20, 0]),
    };
    let ux = vec![fe(&mut r, edge(14)), fe(&mut r, edge(16))];
    let x1 = if edge(18) { [r.below(2), 0, 0, 0] } else { [r.u64(), r.u64(), r.u64(), r.u64() >> 4] };
    let big = Rel { cw: ucw, ce: uce, u: uu, x: ux };
    let mut v = vec![Fe::from_u64(i), z0, zi];
    absorb(&mut v, &proj(&big.cw), &proj(&big.ce), base_of::<S>(&big.u), &[limbs_of(big.x[0].int()), limbs_of(big.x[1].int())]);
    let x0 = if i == 0 { std::array::from_fn(|k| r.u64() >> if k == 3 { 4 } else { 0 }) } else { h.squeeze(&v, 252) };
    let _ = std::marker::PhantomData::<O>;
    Given { i, z0, zi, u: Inst { cw, x: vec![Fe::from_int(x0), Fe::from_int(x1)] }, big, t }
}
fn base_of<S: Side>(v: &Fe<S::M>) -> Fe<S::B> {
    Fe::from_int(v.int())
}

impl<S: Side> Given<S> {
    fn advice(&self) -> Advice<S::B> {
        Advice {
            i: Fe::from_u64(self.i),
            z0: self.z0,
            zi: self.zi,
            cw: proj(&self.u.cw),
            x0: base_of::<S>(&self.u.x[0]),
            x1: base_of::<S>(&self.u.x[1]),
            ucw: proj(&self.big.cw),
            uce: proj(&self.big.ce),
            uu: base_of::<S>(&self.big.u),
            ux: [limbs_of(self.big.x[0].int()), limbs_of(self.big.x[1].int())],
            t: proj(&self.t),
        }
    }
}

fn synth<S, O, FC>(primary: bool, g: &Given<S>) -> R1cs<O::D>
where
    S: Side,
    O: Side<M = S::B, B = S::M>,
    O::D: CircuitDriver<Scalar = <S::D as CircuitDriver>::Base>,
    FC: FunctionCircuit<<S::D as CircuitDriver>::Base>,
{
    let d = |v: Fe<S::B>| DenseVectors::new(vec![real::<O>(v)]);
    zknova::sim::step::<S::D, O::D, FC>(primary, g.i, d(g.z0), Some(d(g.zi)), Some(g.u.real()), Some(g.big.real()), Some(ptreal::<S>(&g.t))).0
}

fn go<S, O, FC>(p: &Plan)
where
    S: Side,
    O: Side<M = S::B, B = S::M>,
    O::D: CircuitDriver<Scalar = <S::D as CircuitDriver>::Base, Base = <S::D as CircuitDriver>::Scalar>,
    FC: FunctionCircuit<<S::D as CircuitDriver>::Base> + StepModel,
{
    let primary = p.get("primary") == 1;
    let h = Mimc::<S::B>::new();
    probe(&format!("{} step of {}", if primary { "primary" } else { "secondary" }, FC::NAME));
    // where the circuit keeps the prover's advice: found with distinct values
    let d = given::<S, O>(&Op { k: "advice".into(), a: vec![9, 1, 2, 3] }, &h, true);
    let cs = must("synthesis", || synth::<S, O, FC>(primary, &d));
    let w: Vec<Fe<S::B>> = cs.w().iter().map(|v| model::<O>(v)).collect();
    let mut at = vec![];
    for (k, v) in d.advice().list().iter().enumerate() {
        // the z of a point follows its y
        let found = if [5, 10, 13, 25].contains(&k) {
            at.last().and_then(|l: &Option<usize>| l.map(|l| l + 1)).filter(|l| w.get(*l) == Some(v))
        } else {
            w.iter().position(|x| x == v)
        };
        at.push(found);
    }
    let at: Option<Vec<usize>> = at.into_iter().collect();
    let shape = Forge::<O>::of(&cs);
    let (bits, hints) = shape.hints();
    probe_n("witnesses free when made", hints.len() as u64);
    probe_n("bits free when made", bits.len() as u64);
    // the model's transcript stands for the system's
    {
        let native = {
            let rel = d.big.real();
            let z = |v: Fe<S::B>| DenseVectors::new(vec![real::<O>(v)]);
            model::<S>(&rel.hash::<O::D>(d.i, &z(d.z0), &z(d.zi)))
        };
        check(native == d.u.x[0], "hash", || format!("the hash of the running instance is {native:?}, not {:?}", d.u.x[0]));
    }
    let read = |w: &dyn Fn(usize) -> Fe<S::B>, at: &[usize]| Advice::of(&at.iter().map(|i| w(*i)).collect::<Vec<_>>());
    let mut now: Option<(Given<S>, Forge<O>, R1cs<O::D>)> = None;
    for o in &p.ops {
        match o.k.as_str() {
            "advice" => {
                let g = given::<S, O>(o, &h, false);
                let cs = must("synthesis", || synth::<S, O, FC>(primary, &g));
                check(cs.is_sat(), "honest-unsatisfied", || format!("the step circuit refuses honest advice {:?}", g.advice()));
                let f = Forge::<O>::of(&cs);
                check(f.same_shape(&shape), "shape-depends-on-values", || format!("i = {}: the step circuit has other constraints than with other advice", g.i));
                let have = [f.z[1], f.z[2]];
                let want = match step_model::<S, FC>(&h, primary, &g.advice()) {
                    Ok(Some(w)) => w[0],
                    e => panic!("HARNESS advice: {e:?}"),
                };
                check(f.l == 3, "public-values", || format!("the step has {} public values", f.l - 1));
                check(have == want, "wrong-transition", || format!("i = {}: the step publishes {have:?}, not {want:?}", g.i));
                // what the step publishes is what verifiers of the fold compute
                if g.i > 0 {
                    let next = zknova::Verifier::<S::D>::verify(ptreal::<S>(&g.t), &g.big.real(), &g.u.real());
                    let z = |v: Fe<S::B>| DenseVectors::new(vec![real::<O>(v)]);
                    let native = base_of::<S>(&model::<S>(&next.hash::<O::D>(g.i + 1, &z(g.z0), &z(FC::model(g.zi)))));
                    check(native == have[1], "wrong-transition", || format!("the step publishes {:?}, the folded instance hashes to {native:?}", have[1]));
                }
                probe(if g.i == 0 { "base step" } else { "later step" });
                let z = f.z.clone();
                if let Some(at) = &at {
                    check(read(&|i| z[f.l + i], at) == g.advice(), "advice-moved", || "the step circuit holds other advice than it was given".into());
                } else {
                    probe("advice not located");
                }
                now = Some((g, f, cs));
            }
            "while" => {
                let (Some((g, f, _)), Some(at)) = (&now, &at) else { continue };
                fault("memory corrupted while assigning");
                let first = match o.arg(0) {
                    0 => at[o.arg(1) as usize % at.len()],
                    1..=4 => hints[o.arg(1) as usize % hints.len()],
                    5 => bits[o.arg(1) as usize % bits.len()],
                    _ => o.arg(1) as usize % (f.z.len() - f.l),
                };
                zkstd::r1cs::sim::arm(first as u64, o.arg(2), o.arg(3));
                let made = guard(|| synth::<S, O, FC>(primary, g));
                zkstd::r1cs::sim::disarm();
                let Ok(cs) = made else {
                    probe("corrupted prover gave up");
                    continue;
                };
                if !cs.is_sat() {
                    probe("corrupted assignment refused");
                    continue;
                }
                let (x, w) = (cs.x(), cs.w());
                let a = read(&|i| model::<O>(&w[i]), at);
                verdict::<S, FC>(&h, primary, &a, [model::<O>(&x[1]), model::<O>(&x[2])], &format!("witness {first} corrupted"));
            }
            "after" => {
                let (Some((_, f, cs)), Some(at)) = (&mut now, &at) else { continue };
                let z = f.z.clone();
                let nw = z.len() - f.l;
                let mut r = Rng::new(o.arg(1));
                for i in 0..f.l {
                    f.z[i] = z[i] + fe(&mut r, true);
                    if f.z[i] != z[i] {
                        let a = read(&|i| f.z[f.l + i], at);
                        check(!f.sat() || i == 0, "unsound", || format!("the step circuit is satisfied whatever its public value {i} is, on {a:?}"));
                    }
                    f.reset(&z);
                }
                for k in 0..o.arg(0) {
                    let first = match r.below(6) {
                        0 => at[r.below(at.len() as u64) as usize],
                        1 | 2 => hints[r.below(hints.len() as u64) as usize],
                        3 => bits[r.below(bits.len() as u64) as usize],
                        _ => r.below(nw as u64) as usize,
                    };
                    let mut held = vec![];
                    for j in 0..*r.pick(&[1, 1, 1, 1, 2]) {
                        let i = f.l + (if j == 0 { first } else { first + 1 + r.below(6) as usize }).min(nw - 1);
                        let v = f.z[i];
                        f.z[i] = match r.below(8) {
                            0 => Fe::one() - v,
                            1 => Fe::zero(),
                            2 => Fe::one(),
                            3 => -v,
                            4 => v + Fe::one(),
                            5 => v + Fe::two_pow(*r.pick(&[64, 128, 192, 250, 1, 8])),
                            6 => f.z[r.below(f.z.len() as u64) as usize],
                            _ => fe(&mut r, false),
                        };
                        held.push(i);
                    }
                    let lo = if r.chance(1, 2) { 0 } else { first };
                    let far = r.chance(1, 3);
                    let done = if far { f.resolve(&held, &mut r, 30_000) } else { f.repair(&held, lo, &mut r, 3000) };
                    if !done {
                        probe("forgery given up");
                    } else if f.z == z {
                        probe("forgery undone by repair");
                    } else {
                        let a = read(&|i| f.z[f.l + i], at);
                        let x = [f.z[1], f.z[2]];
                        let bad = std::panic::AssertUnwindSafe(|| step_model::<S, FC>(&h, primary, &a));
                        probe(if x == z[1..3] { "forged the same public values" } else { "forged other public values" });
                        if !matches!(bad(), Ok(None)) && k % 64 == 0 && x == z[1..3] {
                            // the system agrees that it is satisfied
                            let mut c = cs.clone();
                            f.store(&mut c);
                            check(c.is_sat(), "wrong-verdict", || "is_sat refuses a satisfied system".into());
                        }
                        verdict::<S, FC>(&h, primary, &a, x, &format!("forgery {k} from witness {first}"));
                    }
                    f.reset(&z);
                }
                for _ in 0..o.arg(0) {
                    fault("memory corrupted after assigning");
                }
            }
            _ => {}
        }
    }
    ev("done");
}

fn verdict<S: Side, FC: StepModel>(h: &Mimc<S::B>, primary: bool, a: &Advice<S::B>, x: [Fe<S::B>; 2], what: &str) {
    match step_model::<S, FC>(h, primary, a) {
        Err(e) => violate("unsound", format!("{what}: the step circuit is satisfied, but {e}")),
        Ok(None) => probe("another assignment, wide limbs"),
        Ok(Some(w)) => {
            check(w.contains(&x), "unsound", || {
                let l: Vec<String> = NAMES.iter().zip(a.list()).map(|(n, v)| format!("{n}={v:?}")).collect();
                format!("{what}: the step circuit is satisfied with public values {x:?}, not {:?}, on {}", w[0], l.join(" "))
            });
            probe("another assignment, right results");
        }
    }
}

pub fn run_n05(p: &Plan) {
    type P<FC> = std::marker::PhantomData<FC>;
    let _: P<()> = Default::default();
    if p.get("primary") == 1 {
        match p.get("function") {
            0 => go::<Gk, Bn, Cubic<Fr>>(p),
            1 => go::<Gk, Bn, Ident<Fr>>(p),
            2 => go::<Gk, Bn, Pow<Fr>>(p),
            3 => go::<Gk, Bn, Lin<Fr>>(p),
            4 => go::<Gk, Bn, Cond<Fr>>(p),
            _ => go::<Gk, Bn, Konst<Fr>>(p),
        }
    } else {
        match p.get("function") {
            0 => go::<Bn, Gk, Cubic<Fq>>(p),
            1 => go::<Bn, Gk, Ident<Fq>>(p),
            2 => go::<Bn, Gk, Pow<Fq>>(p),
            3 => go::<Bn, Gk, Lin<Fq>>(p),
            4 => go::<Bn, Gk, Cond<Fq>>(p),
            _ => go::<Bn, Gk, Konst<Fq>>(p),
        }
    }
}
