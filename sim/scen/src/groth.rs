//! Groth16 sessions under the simulator: G01 - G06.
use crate::dsl::{self, St};
use crate::rngs::SimRng;
use bn_254::{Fr, G1Affine, G2Affine};
use model::{Fq as MFq, Fq2 as MFq2, Fr as MFr, Pt};
use parity_scale_codec::Encode;
use rand_core::RngCore;
use simcore::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::sync::Arc;
use zkstd::circuit::prelude::R1cs;
use zkstd::common::{CurveGroup, Group};

pub type Parts = (G1Affine, G2Affine, G1Affine);

/// What a circuit instance does while it is synthesised.
#[derive(Clone, Debug)]
pub struct Circ {
    pub prog: Arc<Vec<St>>,
    pub vals: Arc<Vec<Fr>>,
    pub zero: bool,
    /// (step, kind): 0 = report an error, 1 = panic
    pub abort: Option<(usize, u64)>,
}

thread_local! {
    static CUR: RefCell<Option<Circ>> = RefCell::new(None);
}

impl Default for Circ {
    fn default() -> Self {
        CUR.with(|c| c.borrow().clone()).expect("HARNESS: no circuit for this thread")
    }
}

impl Circ {
    pub fn honest(prog: &Arc<Vec<St>>, e: &dsl::Eval) -> Self {
        Circ { prog: prog.clone(), vals: Arc::new(e.vals.iter().map(|v| dsl::fr(*v)).collect()), zero: false, abort: None }
    }
    pub fn shape(prog: &Arc<Vec<St>>) -> Self {
        Circ { prog: prog.clone(), vals: Arc::new(vec![Fr::zero(); prog.len()]), zero: true, abort: None }
    }
    fn run<D, E>(&self, cs: &mut R1cs<D>, errs: [E; 3]) -> Result<(), E>
    where
        D: zkstd::circuit::CircuitDriver<Scalar = Fr>,
    {
        let [e0, e1, e2] = errs;
        let mut e = Some((e0, e1, e2));
        dsl::synth(&self.prog, &self.vals, self.zero, cs, |i| match self.abort {
            Some((at, kind)) if at == i => {
                if kind % 4 == 3 {
                    fault("circuit panicked while building constraints");
                    inject_panic();
                }
                fault("circuit reported an error");
                let (a, b, c) = e.take().unwrap();
                Err([a, b, c].into_iter().nth(kind as usize % 3).unwrap())
            }
            _ => Ok(()),
        })
    }
}

/// The three groth16 builds look alike; this is what the scenarios need of them.
pub trait Sys: 'static {
    type Prover: Send + Sync;
    type Verifier: Send + Sync;
    fn setup(c: &Circ, rng: &mut SimRng) -> Result<(Self::Prover, Self::Verifier), String>;
    fn prove(p: &mut Self::Prover, c: &Circ, rng: &mut SimRng) -> Result<Parts, String>;
    fn verify(v: &Self::Verifier, p: &Parts, x: &[Fr]) -> Result<(), String>;
    fn key(p: &Self::Prover) -> Key;
    fn with_key(k: &Key, like: &Self::Prover) -> Self::Prover;
}

#[derive(Clone, PartialEq)]
pub struct Key {
    pub alpha1: G1Affine,
    pub beta1: G1Affine,
    pub beta2: G2Affine,
    pub gamma2: G2Affine,
    pub delta1: G1Affine,
    pub delta2: G2Affine,
    pub ic: Vec<G1Affine>,
    pub h: Vec<G1Affine>,
    pub l: Vec<G1Affine>,
    pub a: Vec<G1Affine>,
    pub b1: Vec<G1Affine>,
    pub b2: Vec<G2Affine>,
}
impl Key {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        for p in [&self.alpha1, &self.beta1, &self.delta1] {
            v.extend(p.encode());
        }
        for p in [&self.beta2, &self.gamma2, &self.delta2] {
            v.extend(p.encode());
        }
        for q in [&self.ic, &self.h, &self.l, &self.a, &self.b1] {
            v.extend((q.len() as u64).to_le_bytes());
            for p in q {
                v.extend(p.encode());
            }
        }
        v.extend((self.b2.len() as u64).to_le_bytes());
        for p in &self.b2 {
            v.extend(p.encode());
        }
        v
    }
}

macro_rules! sys {
    ($name:ident, $krate:ident, $parts:expr, $mk:expr) => {
        pub struct $name;
        impl $krate::Circuit for Circ {
            fn synthesize(&self, cs: &mut R1cs<$krate::Bn254Driver>) -> Result<(), $krate::Error> {
                self.run(
                    cs,
                    [
                        $krate::Error::ProverInversionFailed,
                        $krate::Error::UnsupportedWNAF2k,
                        $krate::Error::InconsistentPublicInputsLen { expected: 77, provided: 99 },
                    ],
                )
            }
        }
        impl Sys for $name {
            type Prover = $krate::Prover;
            type Verifier = $krate::Verifier;
            fn setup(c: &Circ, rng: &mut SimRng) -> Result<(Self::Prover, Self::Verifier), String> {
                CUR.with(|k| *k.borrow_mut() = Some(c.clone()));
                $krate::ZkSnark::setup::<Circ>(rng).map_err(|e| format!("{e:?}"))
            }
            fn prove(p: &mut Self::Prover, c: &Circ, rng: &mut SimRng) -> Result<Parts, String> {
                p.create_proof(rng, c.clone()).map(|p| $parts(p)).map_err(|e| format!("{e:?}"))
            }
            fn verify(v: &Self::Verifier, p: &Parts, x: &[Fr]) -> Result<(), String> {
                v.verify(&$mk(*p), x).map_err(|e| format!("{e:?}"))
            }
            fn key(p: &Self::Prover) -> Key {
                let q = &p.params;
                Key {
                    alpha1: q.vk.alpha_g1,
                    beta1: q.vk.beta_g1,
                    beta2: q.vk.beta_g2,
                    gamma2: q.vk.gamma_g2,
                    delta1: q.vk.delta_g1,
                    delta2: q.vk.delta_g2,
                    ic: q.vk.ic.clone(),
                    h: q.h.clone(),
                    l: q.l.clone(),
                    a: q.a.clone(),
                    b1: q.b_g1.clone(),
                    b2: q.b_g2.clone(),
                }
            }
            fn with_key(k: &Key, like: &Self::Prover) -> Self::Prover {
                let mut q = like.params.clone();
                q.vk.alpha_g1 = k.alpha1;
                q.vk.beta_g1 = k.beta1;
                q.vk.beta_g2 = k.beta2;
                q.vk.gamma_g2 = k.gamma2;
                q.vk.delta_g1 = k.delta1;
                q.vk.delta_g2 = k.delta2;
                q.vk.ic = k.ic.clone();
                q.h = k.h.clone();
                q.l = k.l.clone();
                q.a = k.a.clone();
                q.b_g1 = k.b1.clone();
                q.b_g2 = k.b2.clone();
                $krate::Prover { params: q }
            }
        }
    };
}
sys!(Par, zkgroth16, |p: zkgroth16::Proof| p.sim_parts(), |p| zkgroth16::Proof::sim_from_parts(p));
sys!(Ser, zkgroth16_serial, |p: zkgroth16_serial::Proof| p.sim_parts(), |p| zkgroth16_serial::Proof::sim_from_parts(p));

pub fn pb(p: &Parts) -> Vec<u8> {
    [p.0.encode(), p.1.encode(), p.2.encode()].concat()
}
pub fn hb(b: &[u8]) -> u64 {
    b.chunks(8).fold(7, |h, c| {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        mix(h ^ u64::from_le_bytes(w))
    })
}

// ------------------------------------------------------------------ sessions

/// The programs of a plan and their honest evaluations.
pub struct Progs {
    pub p: Vec<Arc<Vec<St>>>,
}
impl Progs {
    pub fn of(plan: &Plan) -> Self {
        let n = 1 + plan.get("ncirc") % 4;
        Progs { p: (0..n).map(|c| Arc::new(dsl::program(&plan.ops, "st", c))).collect() }
    }
    pub fn get(&self, i: u64) -> &Arc<Vec<St>> {
        &self.p[i as usize % self.p.len()]
    }
}

pub fn pubs(e: &dsl::Eval) -> Vec<Fr> {
    e.pubs.iter().map(|v| dsl::fr(*v)).collect()
}

/// Runs code under test; a panic breaks the property.
pub fn must<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match guard(f) {
        Ok(r) => r,
        Err(p) => violate("panic", format!("{what}: {p}")),
    }
}

fn join_all<T: Send + 'static>(fs: Vec<Box<dyn FnOnce() -> T + Send>>) -> Vec<T> {
    let hs: Vec<_> = fs
        .into_iter()
        .map(|f| {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || harness(f))
                .expect("HARNESS spawn")
        })
        .collect();
    hs.into_iter().map(|h| h.join().expect("HARNESS join")).collect()
}

pub fn gen_spec(r: &mut Rng, seed: u64, tick_lo: u64) -> Spec {
    let policy = *r.pick(&[1u32, 1, 2, 2, 3, 3, 4, 0]);
    let tick = *r.pick(&[0, tick_lo, 4 * tick_lo, 20 * tick_lo, 100 * tick_lo]);
    Spec {
        seed,
        policy,
        tick,
        spurious: *r.pick(&[0, 0, 50, 1000]),
        entropy_fault: *r.pick(&[0, 0, 500, 3000]),
        edge_cap: 20_000_000_000,
        replay: None,
        record: false,
    }
}

fn gen_circuits(r: &mut Rng, plan: &mut Plan, max: u64, big: bool) {
    let n = 1 + r.below(max);
    plan.p.insert("ncirc".into(), n - 1);
    for c in 0..n {
        dsl::gen(r, plan, "st", c, big);
    }
}

// ------------------------------------------------------------------ G01

/// Sizes beyond the first thresholds of an implementation that treats large inputs
/// in another way.
fn large_size(r: &mut Rng, thorough: bool) -> u64 {
    if thorough {
        *r.pick(&[300, 520, 1030, 1500, 2060, 4100])
    } else {
        *r.pick(&[300, 520, 520, 1030, 1030, 2060])
    }
}

pub fn gen_g01(r: &mut Rng, seed: u64, thorough: bool) -> (Plan, Spec) {
    let mut p = Plan::new("G01").set("workers", r.below(8));
    if r.chance(1, 20) {
        let n = large_size(r, thorough);
        dsl::large(r, &mut p, "st", 0, n);
        p.p.insert("ncirc".into(), 0);
        let t = r.below(2);
        p.p.insert("threads".into(), t);
        p.push("setup", &[0, 0, r.below(1 << 30)]);
        for th in 0..=t {
            p.push("prove", &[th, 0, r.below(6), r.below(1 << 30), 0]);
        }
        return (p, gen_spec(r, seed, 20_000));
    }
    let big = r.chance(1, if thorough { 4 } else { 8 });
    gen_circuits(r, &mut p, 3, big);
    let t = r.below(4);
    p.p.insert("threads".into(), t);
    for _ in 0..1 + r.below(2) {
        p.push("setup", &[0, r.below(3), r.below(1 << 30)]);
    }
    for _ in 0..r.below(3) {
        p.push("prove", &[0, r.below(4), r.below(6), r.below(1 << 30), *r.pick(&[0, 0, 0, 1, 2, 4, 6, 8, 9, 10, 11])]);
    }
    for th in 1..=t {
        for _ in 0..1 + r.below(4) {
            match r.below(5) {
                0 => p.push("setup", &[th, r.below(3), r.below(1 << 30)]),
                1..=2 => p.push("prove", &[th, r.below(4), r.below(6), r.below(1 << 30), *r.pick(&[0, 0, 0, 1, 2, 4, 6, 8, 9, 10, 11])]),
                3 => p.push("verify", &[th, r.below(4)]),
                _ => p.push("sat", &[th, r.below(3), r.below(6)]),
            }
        }
        p.push("prove", &[th, r.below(4), r.below(6), r.below(1 << 30), 0]);
    }
    (p, gen_spec(r, seed, 200))
}

struct Keys<S: Sys> {
    circ: u64,
    key: Key,
    verifier: Arc<S::Verifier>,
    prover: S::Prover,
}
impl<S: Sys> Keys<S> {
    fn fork(&self) -> Self {
        Keys {
            circ: self.circ,
            key: self.key.clone(),
            verifier: self.verifier.clone(),
            prover: S::with_key(&self.key, &self.prover),
        }
    }
}
struct Made {
    circ: u64,
    variant: u64,
    parts: Parts,
    pubs: Vec<Fr>,
    key: Key,
}

/// One session: a sequence of setup / prove / verify operations of one caller.
fn session<S: Sys>(me: u64, ops: Vec<Op>, progs: Arc<Progs>, mut keys: Vec<Keys<S>>) -> (Vec<Keys<S>>, Vec<(Arc<S::Verifier>, Made)>) {
    let mut made: Vec<(Arc<S::Verifier>, Made)> = vec![];
    for o in ops.iter().filter(|o| o.k != "st" && o.arg(0) == me) {
        match o.k.as_str() {
            "setup" => {
                let prog = progs.get(o.arg(1));
                let mut rng = SimRng::healthy(o.arg(2));
                let r = must("key generation", || S::setup(&Circ::shape(prog), &mut rng));
                match r {
                    Ok((p, v)) => {
                        let key = S::key(&p);
                        ev(&format!("t{me} setup c{} key={:016x}", o.arg(1), hb(&key.bytes())));
                        keys.push(Keys { circ: o.arg(1), key, verifier: Arc::new(v), prover: p });
                    }
                    Err(e) => violate("setup-failed", format!("key generation with a healthy source failed: {e}")),
                }
            }
            "prove" if !keys.is_empty() => {
                let i = o.arg(1) as usize % keys.len();
                let k = &mut keys[i];
                let prog = progs.get(k.circ).clone();
                let e = dsl::eval(&prog, o.arg(2), None);
                check(e.sat, "HARNESS", || "HARNESS: honest assignment does not satisfy the model".into());
                let c = Circ::honest(&prog, &e);
                // any stream is allowed here: blinding does not affect acceptance
                let mut rng = SimRng::new(crate::rngs::lasting(o.arg(4)), o.arg(3), 11);
                match must("proving", || S::prove(&mut k.prover, &c, &mut rng)) {
                    Ok(parts) => {
                        ev(&format!("t{me} prove k{i} v{} proof={:016x}", o.arg(2), hb(&pb(&parts))));
                        made.push((k.verifier.clone(), Made { circ: k.circ, variant: o.arg(2), parts, pubs: pubs(&e), key: k.key.clone() }));
                    }
                    Err(e) => violate("prove-failed", format!("proving a satisfied circuit failed: {e}")),
                }
            }
            "verify" if !made.is_empty() => {
                let (v, m) = &made[o.arg(1) as usize % made.len()];
                verify_honest::<S>(v, m, me);
            }
            "sat" => {
                let prog = progs.get(o.arg(1));
                let e = dsl::eval(prog, o.arg(2), None);
                let c = Circ::honest(prog, &e);
                let (sat, x) = must("building constraints", || {
                    let mut cs: R1cs<zkgroth16::Bn254Driver> = R1cs::default();
                    zkgroth16::Circuit::synthesize(&c, &mut cs).ok();
                    (cs.is_sat(), cs.x())
                });
                let want = [vec![Fr::one()], pubs(&e)].concat();
                ev(&format!("t{me} sat {sat}"));
                check(sat, "honest-unsatisfied", || "an assignment satisfying every gadget does not satisfy the constraint system".into());
                check(x == want, "public-inputs", || format!("public inputs {x:?}, expected {want:?}"));
            }
            _ => {}
        }
    }
    (keys, made)
}

fn verify_honest<S: Sys>(v: &S::Verifier, m: &Made, me: u64) {
    let r = must("verification", || S::verify(v, &m.parts, &m.pubs));
    ev(&format!("t{me} verify c{} v{} {r:?}", m.circ, m.variant));
    probe("honest proof verified");
    check(r.is_ok(), "honest-rejected", || {
        format!("the proof of a satisfied circuit (program {}, assignment {}, {} public inputs) was rejected: {r:?}", m.circ, m.variant, m.pubs.len())
    });
}

fn shape_probe(progs: &Progs) {
    for p in &progs.p {
        let e = dsl::eval(p, 0, None);
        let c = Circ::honest(p, &e);
        let mut cs: R1cs<zkgroth16::Bn254Driver> = R1cs::default();
        zkgroth16::Circuit::synthesize(&c, &mut cs).ok();
        let m = cs.m();
        probe(match m {
            0 => "circuit without constraints",
            1 => "circuit with one constraint",
            _ if m.is_power_of_two() => "circuit size a power of two",
            2..=31 => "circuit below 32 constraints",
            32..=255 => "circuit of 32 to 255 constraints",
            _ => "circuit of 256 constraints or more",
        });
        if cs.m_l_1() == 0 {
            probe("circuit without private values");
        }
        state(mix(m << 32 | (cs.l() as u64) << 16 | cs.m_l_1() as u64));
    }
}

fn run_sessions<S: Sys>(plan: &Plan, progs: &Arc<Progs>) -> (Vec<Keys<S>>, Vec<(Arc<S::Verifier>, Made)>) {
    let (keys, mut made) = session::<S>(0, plan.ops.clone(), progs.clone(), vec![]);
    let t = plan.get("threads") % 6;
    let fs: Vec<Box<dyn FnOnce() -> _ + Send>> = (1..=t)
        .map(|th| {
            let k: Vec<Keys<S>> = keys.iter().map(|k| k.fork()).collect();
            let ops = plan.ops.clone();
            let progs = progs.clone();
            Box::new(move || session::<S>(th, ops, progs, k)) as Box<dyn FnOnce() -> _ + Send>
        })
        .collect();
    if t > 1 {
        probe("several sessions at once");
    }
    let mut all = keys;
    for (k, m) in join_all(fs) {
        all.extend(k);
        made.extend(m);
    }
    (all, made)
}

pub fn run_g01(plan: &Plan) {
    let progs = Arc::new(Progs::of(plan));
    shape_probe(&progs);
    let (_, made) = run_sessions::<Par>(plan, &progs);
    // late deliveries: everything verifies again after all sessions ended
    for (v, m) in made.iter().rev() {
        verify_honest::<Par>(v, m, 0);
    }
}

// ------------------------------------------------------------------ G02

pub fn gen_g02(r: &mut Rng, seed: u64, _thorough: bool) -> (Plan, Spec) {
    let mut p = Plan::new("G02").set("workers", r.below(4));
    gen_circuits(r, &mut p, 2, false);
    for _ in 0..2 + r.below(2) {
        p.push("setup", &[0, r.below(3), r.below(1 << 30)]);
    }
    for _ in 0..2 + r.below(3) {
        p.push("prove", &[0, r.below(4), r.below(6), r.below(1 << 30)]);
    }
    p.p.insert("verifiers".into(), r.below(3));
    // what a dishonest prover tries
    for _ in 0..1 + r.below(3) {
        p.push("cheat", &[r.below(4), r.below(6), r.below(1 << 30), r.below(1 << 16), r.below(8)]);
    }
    // what the network does with the messages
    for _ in 0..4 + r.below(8) {
        p.push("deliver", &[r.below(8), r.below(20), r.below(1 << 20), r.below(1 << 20), r.below(4)]);
    }
    (p, gen_spec(r, seed, 500))
}

#[derive(Clone)]
struct Msg {
    to: usize,
    parts: Parts,
    pubs: Vec<Fr>,
    /// None: must be rejected; Some(()) must be accepted
    good: bool,
    what: String,
    len: Option<(usize, usize)>,
}

pub fn run_g02(plan: &Plan) {
    let progs = Arc::new(Progs::of(plan));
    let (mut keys, made) = session::<Par>(0, plan.ops.clone(), progs.clone(), vec![]);
    if keys.is_empty() || made.is_empty() {
        return;
    }
    let mut honest: Vec<Msg> = vec![];
    for (v, m) in &made {
        let to = keys.iter().position(|k| Arc::ptr_eq(&k.verifier, v)).unwrap();
        honest.push(Msg { to, parts: m.parts, pubs: m.pubs.clone(), good: true, what: "intact".into(), len: None });
    }
    let mut msgs = vec![];
    for o in &plan.ops {
        match o.k.as_str() {
            "cheat" => {
                let ki = o.arg(0) as usize % keys.len();
                let prog = progs.get(keys[ki].circ).clone();
                let e = dsl::eval(&prog, o.arg(1), None);
                if e.free.is_empty() {
                    continue;
                }
                let at = e.free[o.arg(3) as usize % e.free.len()];
                let mut vals = e.vals.clone();
                vals[at] = match o.arg(4) % 8 {
                    0 => vals[at] + MFr::one(),
                    1 => vals[at] - MFr::one(),
                    2 => -vals[at],
                    3 => MFr::zero(),
                    4 => vals[at] + MFr::two_pow(200),
                    5 => vals[at] + vals[at],
                    6 => dsl::val(o.arg(2), 1),
                    _ => vals[at].inv(),
                };
                let bad = dsl::eval(&prog, o.arg(1), Some(&vals));
                // the bit and point gadgets follow the honest values; programs whose
                // later honest values depend on the forged one are judged by the model
                let c = Circ::honest(&prog, &bad);
                let mut rng = SimRng::healthy(o.arg(2));
                let prover = &mut keys[ki].prover;
                match must("proving a false statement", || Par::prove(prover, &c, &mut rng)) {
                    Ok(parts) => {
                        fault(if bad.sat { "prover changed an unconstrained value" } else { "prover used a violating assignment" });
                        // for the values it used, and for the values it would like to claim
                        msgs.push(Msg { to: ki, parts, pubs: pubs(&bad), good: bad.sat, what: format!("assignment changed at step {at} (model: satisfied={})", bad.sat), len: None });
                        if pubs(&bad) != pubs(&e) {
                            msgs.push(Msg { to: ki, parts, pubs: pubs(&e), good: false, what: "forged assignment, honest public inputs".into(), len: None });
                        }
                    }
                    Err(_) => probe("prover refused a violating assignment"),
                }
            }
            "deliver" => {
                let a = o.arg(2) as usize;
                let b = o.arg(3) as usize;
                let mut m = honest[o.arg(0) as usize % honest.len()].clone();
                let other = &honest[a % honest.len()];
                let orig = (m.to, pb(&m.parts), m.pubs.clone());
                let s = Fr::from(2 + (b as u64 % 1000));
                let npub = m.pubs.len();
                m.what = match o.arg(1) % 20 {
                    0 => "intact".into(),
                    1 => {
                        msgs.push(m.clone());
                        fault("message duplicated");
                        "duplicate".into()
                    }
                    2 => {
                        m.parts.0 = other.parts.0;
                        "element A of another proof".into()
                    }
                    3 => {
                        m.parts.1 = other.parts.1;
                        "element B of another proof".into()
                    }
                    4 => {
                        m.parts.2 = other.parts.2;
                        "element C of another proof".into()
                    }
                    5 => {
                        m.parts.0 = G1Affine::from(m.parts.0 * s);
                        "element A scaled".into()
                    }
                    6 => {
                        m.parts.2 = -m.parts.2;
                        "element C negated".into()
                    }
                    7 => {
                        m.parts.0 = G1Affine::ADDITIVE_IDENTITY;
                        "element A = identity".into()
                    }
                    8 => {
                        m.parts.1 = G2Affine::ADDITIVE_IDENTITY;
                        "element B = identity".into()
                    }
                    9 => {
                        m.parts.2 = G1Affine::ADDITIVE_IDENTITY;
                        "element C = identity".into()
                    }
                    10 => {
                        let (x, y) = (m.parts.0, m.parts.2);
                        m.parts.0 = y;
                        m.parts.2 = x;
                        "elements A and C exchanged".into()
                    }
                    11 => {
                        m.parts.1 = G2Affine::from(m.parts.1 * s);
                        "element B scaled".into()
                    }
                    12 if npub > 0 => {
                        let i = a % npub;
                        m.pubs[i] = m.pubs[i] + s;
                        "public input changed".into()
                    }
                    13 if npub > 0 => {
                        let i = a % npub;
                        m.pubs[i] = Fr::zero();
                        "public input zeroed".into()
                    }
                    14 if npub > 1 => {
                        let (i, j) = (a % npub, b % npub);
                        m.pubs.swap(i, j);
                        "public inputs swapped".into()
                    }
                    15 => {
                        let n = 1 + a % 3;
                        for _ in 0..n {
                            m.pubs.push(if b & 1 == 0 { Fr::zero() } else { s });
                        }
                        "extra public inputs".into()
                    }
                    16 if npub > 0 => {
                        m.pubs.truncate(a % npub);
                        "public inputs missing".into()
                    }
                    17 => {
                        m.to = a % keys.len();
                        "delivered to the verifier of other keys".into()
                    }
                    18 => {
                        m.pubs = other.pubs.clone();
                        "public inputs of another proof".into()
                    }
                    19 if npub > 1 => {
                        // a compensating change of two inputs
                        let (i, j) = (a % npub, b % npub);
                        m.pubs[i] = m.pubs[i] + s;
                        m.pubs[j] = m.pubs[j] - s;
                        "two public inputs changed in opposite directions".into()
                    }
                    _ => {
                        m.parts.2 = G1Affine::from(m.parts.2 + G1Affine::ADDITIVE_GENERATOR);
                        "element C shifted".into()
                    }
                };
                let now = (m.to, pb(&m.parts), m.pubs.clone());
                m.good = now == orig || honest.iter().any(|h| (h.to, pb(&h.parts), h.pubs.clone()) == now);
                if !m.good {
                    fault(&m.what);
                }
                let want = keys[m.to].key.ic.len() - 1;
                if m.pubs.len() != want {
                    m.good = false;
                    m.len = Some((want, m.pubs.len()));
                }
                msgs.push(m);
            }
            _ => {}
        }
    }
    // degenerate algebra that is a valid proof of the same statement is not a forgery
    msgs.retain(|m| m.good || !trivially_equal(m, &honest));
    // the network delivers in any order to verifiers running at the same time
    let mut order = Rng::sub(plan.hash(), "net", 0);
    order.shuffle(&mut msgs);
    let nv = 1 + plan.get("verifiers") % 4;
    let ver: Vec<Arc<<Par as Sys>::Verifier>> = keys.iter().map(|k| k.verifier.clone()).collect();
    let fs: Vec<Box<dyn FnOnce() + Send>> = (0..nv)
        .map(|t| {
            let mine: Vec<Msg> = msgs.iter().enumerate().filter(|(i, _)| *i as u64 % nv == t).map(|(_, m)| m.clone()).collect();
            let ver = ver.clone();
            let honest = honest.clone();
            Box::new(move || {
                for m in &mine {
                    deliver(&ver, m, t);
                }
                // still usable for the next delivery
                if let Some(h) = honest.first() {
                    deliver(&ver, h, t);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    join_all(fs);
}

/// Replacing an element by another changes nothing where a pairing partner is the identity.
fn trivially_equal(m: &Msg, honest: &[Msg]) -> bool {
    honest.iter().any(|h| {
        h.to == m.to
            && h.pubs == m.pubs
            && (h.parts.0.is_identity() || h.parts.1.is_identity())
            && (m.parts.0.is_identity() || m.parts.1.is_identity())
            && h.parts.2 == m.parts.2
    })
}

fn deliver(ver: &[Arc<<Par as Sys>::Verifier>], m: &Msg, t: u64) {
    let r = must("verification", || Par::verify(&ver[m.to], &m.parts, &m.pubs));
    ev(&format!("v{t} {} -> {r:?}", m.what));
    if m.good {
        probe("accepted intact delivery");
        check(r.is_ok(), "honest-rejected", || format!("{}: rejected with {r:?}", m.what));
        return;
    }
    match r {
        Ok(()) => violate("forgery-accepted", format!("{}: accepted", m.what)),
        Err(e) => {
            let want = match m.len {
                Some((w, p)) => format!("InconsistentPublicInputsLen {{ expected: {w}, provided: {p} }}"),
                None => "ProofVerificationError".into(),
            };
            probe(if m.len.is_some() { "rejected wrong number of inputs" } else { "rejected forgery" });
            check(e == want, "wrong-error", || format!("{}: error {e}, expected {want}", m.what));
        }
    }
}

// ------------------------------------------------------------------ G03

pub fn gen_g03(r: &mut Rng, seed: u64, thorough: bool) -> (Plan, Spec) {
    let (mut p, mut s) = gen_g01(r, seed, thorough);
    p.scenario = "G03".into();
    if r.chance(1, 3) {
        // two circuits of different sizes, at work in different sessions at once
        p.ops.clear();
        p.p.insert("ncirc".into(), 1);
        for c in 0..2 {
            p.push("st", &[c, 0, 0, 0, r.below(1 << 20)]);
            let mut size = *r.pick(&[2u64, 10, 40, 90, 200]);
            while size > 0 {
                let n = size.min(40);
                p.push("st", &[c, 33, 1 << 32, 1 << 32, n - 1]);
                size -= n;
            }
            p.push("st", &[c, 7, 1 << 32, 0, 0]);
            p.push("setup", &[0, c, r.below(1 << 30)]);
        }
        let t = 2 + r.below(2);
        p.p.insert("threads".into(), t);
        for th in 1..=t {
            for _ in 0..1 + r.below(3) {
                if r.chance(1, 4) {
                    p.push("setup", &[th, th & 1, r.below(1 << 30)]);
                } else {
                    p.push("prove", &[th, if r.chance(1, 5) { r.below(2) } else { th & 1 }, r.below(6), r.below(1 << 30), 0]);
                }
            }
            p.push("prove", &[th, th & 1, r.below(6), r.below(1 << 30), 0]);
        }
    }
    p.ops.retain(|o| o.k != "sat");
    p.p.insert("workers".into(), 1 + r.below(7));
    if s.policy == 0 {
        s.policy = 2;
    }
    if s.tick == 0 {
        s.tick = *r.pick(&[50, 400, 5000]);
    }
    (p, s)
}

pub fn run_g03(plan: &Plan) {
    let progs = Arc::new(Progs::of(plan));
    shape_probe(&progs);
    // what the single-threaded build computes, with nothing else running
    let mut want: Vec<Vec<(Vec<u8>, Vec<Vec<u8>>)>> = vec![];
    let t = plan.get("threads") % 6;
    let (k0, m0) = reference::<Ser>(0, plan, &progs, vec![]);
    let k0n = k0.len();
    want.push(vec![pack(&k0, &m0)]);
    for th in 1..=t {
        let f: Vec<Keys<Ser>> = k0.iter().map(|k| k.fork()).collect();
        let (k, m) = reference::<Ser>(th, plan, &progs, f);
        want.push(vec![pack(&k, &m)]);
    }
    let _ = k0n;
    // the same sessions, threaded and interleaved
    let (keys, made) = session::<Par>(0, plan.ops.clone(), progs.clone(), vec![]);
    compare(0, &want[0][0], &pack(&keys, &made));
    let fs: Vec<Box<dyn FnOnce() -> _ + Send>> = (1..=t)
        .map(|th| {
            let k: Vec<Keys<Par>> = keys.iter().map(|k| k.fork()).collect();
            let ops = plan.ops.clone();
            let progs = progs.clone();
            Box::new(move || {
                let (k, m) = session::<Par>(th, ops, progs, k);
                // verdicts are stable too
                for (v, x) in &m {
                    let a = must("verification", || Par::verify(v, &x.parts, &x.pubs));
                    let b = must("verification", || Par::verify(v, &x.parts, &x.pubs));
                    check(a == b, "verdict-changed", || format!("two verifications of one delivery gave {a:?} and {b:?}"));
                }
                pack(&k, &m)
            }) as Box<dyn FnOnce() -> _ + Send>
        })
        .collect();
    for (i, got) in join_all(fs).into_iter().enumerate() {
        compare(i as u64 + 1, &want[i + 1][0], &got);
    }
    // and once more after everything else ran
    let (keys, made) = session::<Par>(0, plan.ops.clone(), progs.clone(), vec![]);
    compare(0, &want[0][0], &pack(&keys, &made));
}

fn reference<S: Sys>(me: u64, plan: &Plan, progs: &Arc<Progs>, keys: Vec<Keys<S>>) -> (Vec<Keys<S>>, Vec<(Arc<S::Verifier>, Made)>) {
    let ops: Vec<Op> = plan.ops.iter().filter(|o| o.k != "verify").cloned().collect();
    session::<S>(me, ops, progs.clone(), keys)
}

fn pack<S: Sys>(k: &[Keys<S>], m: &[(Arc<S::Verifier>, Made)]) -> (Vec<u8>, Vec<Vec<u8>>) {
    (k.iter().flat_map(|k| k.key.bytes()).collect(), m.iter().map(|(_, m)| pb(&m.parts)).collect())
}

fn compare(t: u64, want: &(Vec<u8>, Vec<Vec<u8>>), got: &(Vec<u8>, Vec<Vec<u8>>)) {
    probe("session compared with the single-threaded build");
    check(want.0 == got.0, "key-differs", || format!("session {t}: keys differ from those of the single-threaded build"));
    for (i, (w, g)) in want.1.iter().zip(&got.1).enumerate() {
        check(w == g, "proof-differs", || format!("session {t}: proof {i} differs from the one of the single-threaded build"));
    }
    check(want.1.len() == got.1.len(), "HARNESS", || "HARNESS: number of proofs".into());
}

// ------------------------------------------------------------------ G04

pub fn gen_g04(r: &mut Rng, seed: u64, _thorough: bool) -> (Plan, Spec) {
    let mut p = Plan::new("G04").set("workers", r.below(4));
    p.p.insert("ncirc".into(), 0);
    dsl::gen(r, &mut p, "st", 0, false);
    for _ in 0..2 + r.below(4) {
        match r.below(4) {
            0 => p.push("healthy", &[r.below(1 << 30), if r.chance(1, 6) { 2 + r.below(20) } else { 2 + r.below(3) }, r.below(4)]),
            3 => p.push("influence", &[r.below(1 << 30), *r.pick(&[0, 0, 1, 2, 5]), r.below(4), r.below(3)]),
            1 => p.push("degraded", &[if r.chance(1, 2) { 9 + r.below(3) } else { r.below(12) }, r.below(1 << 30), r.below(64), r.below(12), r.below(1 << 30)]),
            _ => p.push("again", &[r.below(1 << 30), r.below(4)]),
        }
    }
    let mut s = gen_spec(r, seed, 1000);
    s.entropy_fault = *r.pick(&[0, 1000, 5000]);
    (p, s)
}

pub fn run_g04(plan: &Plan) {
    let progs = Progs::of(plan);
    let prog = progs.get(0).clone();
    let e0 = dsl::eval(&prog, 0, None);
    for o in &plan.ops {
        match o.k.as_str() {
            "healthy" => {
                // one stream for everything, as a caller would use it
                let mut rng = SimRng::healthy(o.arg(0));
                let (mut p, v) = match must("key generation", || Par::setup(&Circ::shape(&prog), &mut rng)) {
                    Ok(x) => x,
                    Err(e) => violate("setup-failed", format!("healthy source: {e}")),
                };
                let k = Par::key(&p);
                let secrets = [k.alpha1, k.beta1, k.delta1, G1Affine::ADDITIVE_GENERATOR];
                for i in 0..secrets.len() {
                    for j in 0..i {
                        check(secrets[i] != secrets[j], "secret-reused", || format!("two secrets of one key are equal (elements {j} and {i})"));
                    }
                    check(!secrets[i].is_identity(), "secret-zero", || "a secret of the key is zero".into());
                }
                let s2 = [k.beta2, k.gamma2, k.delta2, G2Affine::ADDITIVE_GENERATOR];
                for i in 0..s2.len() {
                    for j in 0..i {
                        check(s2[i] != s2[j], "secret-reused", || format!("two secrets of one key are equal (G2 elements {j} and {i})"));
                    }
                }
                let e = dsl::eval(&prog, o.arg(2), None);
                let c = Circ::honest(&prog, &e);
                // the part of A and B that does not depend on blinding
                let mut zero = SimRng::new(2, 0, 0);
                let base = must("proving", || Par::prove(&mut p, &c, &mut zero));
                let mut all: Vec<Parts> = vec![];
                for i in 0..2 + o.arg(1) % 24 {
                    let n0 = rng.log.len();
                    let q = match must("proving", || Par::prove(&mut p, &c, &mut rng)) {
                        Ok(q) => q,
                        Err(e) => violate("prove-failed", e),
                    };
                    ev(&format!("proof {i} {:016x}", hb(&pb(&q))));
                    check(rng.log.len() > n0, "no-draw", || "a proof drew nothing from the source it was given".into());
                    for (j, z) in all.iter().enumerate() {
                        check(z.0 != q.0, "blinding-reused", || format!("proofs {j} and {i} share element A"));
                        check(z.1 != q.1, "blinding-reused", || format!("proofs {j} and {i} share element B"));
                        check(z.2 != q.2, "blinding-reused", || format!("proofs {j} and {i} share element C"));
                    }
                    if let Ok(b) = &base {
                        // A = base + r*delta1, B = base + s*delta2: r = s iff e(dA, delta2) = e(delta1, dB)
                        let da = G1Affine::from(q.0.to_ext() - b.0);
                        let db = G2Affine::from(q.1.to_ext2() - b.1);
                        check(!da.is_identity(), "unblinded", || "element A carries no blinding".into());
                        check(!db.is_identity(), "unblinded", || "element B carries no blinding".into());
                        let same = must("pairing", || pair(da, k.delta2) == pair(k.delta1, db));
                        check(!same, "blinding-equal", || "the two blinding factors of a proof are equal".into());
                        for (j, z) in all.iter().enumerate() {
                            // no blinding factor of an earlier proof returns in the other role
                            let dz = G1Affine::from(z.0.to_ext() - b.0);
                            let same = must("pairing", || pair(dz, k.delta2) == pair(k.delta1, db));
                            check(!same, "blinding-reused", || format!("a blinding factor of proof {j} is used again in proof {i}"));
                        }
                        probe("blinding factors compared");
                    }
                    let r = must("verification", || Par::verify(&v, &q, &pubs(&e)));
                    check(r.is_ok(), "honest-rejected", || format!("{r:?}"));
                    all.push(q);
                }
            }
            "influence" => {
                // which words of the stream decide which secret
                let sets = |n0: u64, n1: u64, elems: usize, make: &mut dyn FnMut(Option<u64>) -> Option<Vec<Vec<u8>>>| -> Option<Vec<BTreeSet<u64>>> {
                    let base = make(None)?;
                    let mut out = vec![BTreeSet::new(); elems];
                    for j in n0..n1 {
                        let Some(v) = make(Some(j)) else { continue };
                        for i in 0..elems {
                            if v[i] != base[i] {
                                out[i].insert(j);
                            }
                        }
                    }
                    Some(out)
                };
                let mut rng = SimRng::healthy(o.arg(0));
                if o.arg(3) == 0 {
                    // one squaring: a key generation that costs little
                    let small = Arc::new(vec![dsl::St { op: 0, x: 0, y: 0, v: 5 }, dsl::St { op: 34, x: 0, y: 0, v: 0 }, dsl::St { op: 7, x: 1, y: 0, v: 0 }]);
                    let mut probe_rng = rng.clone();
                    if must("key generation", || Par::setup(&Circ::shape(&small), &mut probe_rng)).is_err() {
                        continue;
                    }
                    let n = probe_rng.n.min(80);
                    let s = sets(0, n, 5, &mut |f| {
                        let mut r = SimRng { flip: f, ..rng.clone() };
                        let (p, _) = must("key generation", || Par::setup(&Circ::shape(&small), &mut r)).ok()?;
                        let k = Par::key(&p);
                        Some(vec![k.alpha1.encode(), k.beta1.encode(), k.delta1.encode(), k.gamma2.encode(), k.h.first()?.encode()])
                    });
                    let Some(s) = s else { continue };
                    const N: [&str; 5] = ["alpha", "beta", "delta", "gamma", "tau"];
                    for i in 0..5 {
                        check(!s[i].is_empty(), "no-draw", || format!("nothing drawn from the source decides {}", N[i]));
                        for j in 0..i {
                            check(s[i] != s[j], "secrets-dependent", || format!("{} and {} are decided by the same words of the source: {:?}", N[i], N[j], s[i]));
                        }
                    }
                    let rest: BTreeSet<u64> = s[..4].iter().flatten().copied().collect();
                    check(s[4].difference(&rest).next().is_some(), "secrets-dependent", || "no word of the source decides tau alone".into());
                    probe("influence of the source on a key's secrets");
                    continue;
                }
                let Ok((mut p, _)) = must("key generation", || Par::setup(&Circ::shape(&prog), &mut rng)) else { continue };
                let c = Circ::honest(&prog, &dsl::eval(&prog, o.arg(2), None));
                for _ in 0..o.arg(1) % 20 {
                    let _ = must("proving", || Par::prove(&mut p, &c, &mut rng));
                }
                let n0 = rng.n;
                let mut probe_rng = rng.clone();
                if must("proving", || Par::prove(&mut p, &c, &mut probe_rng)).is_err() {
                    continue;
                }
                let n1 = probe_rng.n.min(n0 + 40);
                let s = sets(n0, n1, 2, &mut |f| {
                    let mut r = SimRng { flip: f, ..rng.clone() };
                    let q = must("proving", || Par::prove(&mut p, &c, &mut r)).ok()?;
                    Some(vec![q.0.encode(), q.1.encode()])
                });
                let Some(s) = s else { continue };
                check(!s[0].is_empty() && !s[1].is_empty(), "no-draw", || "nothing drawn for this proof decides a blinding factor of it".into());
                check(s[0] != s[1], "blinding-dependent", || format!("both blinding factors of a proof are decided by the same words of the source: {:?}", s[0]));
                probe("influence of the source on a proof's blinding");
            }
            "again" => {
                // the same stream reproduces the same result, whatever the OS source does
                let mut out = vec![];
                for _ in 0..2 {
                    let mut rng = SimRng::healthy(o.arg(0));
                    let (mut p, _) = match must("key generation", || Par::setup(&Circ::shape(&prog), &mut rng)) {
                        Ok(x) => x,
                        Err(e) => violate("setup-failed", format!("healthy source: {e}")),
                    };
                    let e = dsl::eval(&prog, o.arg(1), None);
                    let c = Circ::honest(&prog, &e);
                    let q1 = must("proving", || Par::prove(&mut p, &c, &mut rng)).unwrap_or_else(|e| violate("prove-failed", e));
                    let q2 = must("proving", || Par::prove(&mut p, &c, &mut rng)).unwrap_or_else(|e| violate("prove-failed", e));
                    out.push((Par::key(&p).bytes(), pb(&q1), pb(&q2)));
                }
                check(out[0] == out[1], "other-source", || "the same stream gave different keys or proofs: another source of randomness is used".into());
                probe("stream replayed");
                // different streams give different keys
                let mut rng = SimRng::healthy(o.arg(0) ^ (1 << 40));
                if let Ok((p, _)) = must("key generation", || Par::setup(&Circ::shape(&prog), &mut rng)) {
                    let k = Par::key(&p);
                    check(k.bytes() != out[0].0, "stream-ignored", || "two different streams gave the same key".into());
                }
            }
            "degraded" => {
                let gen = || {
                    let mut rng = SimRng::new(crate::rngs::lasting(o.arg(0)), o.arg(1), o.arg(2));
                    let r = must("key generation under a degraded source", || Par::setup(&Circ::shape(&prog), &mut rng));
                    (r, rng)
                };
                let (r, rng) = gen();
                // only the given source decides, whatever the operating system has to offer
                let (r2, rng2) = gen();
                check(rng.log == rng2.log, "other-source", || "the same stream was read differently by two key generations".into());
                match (&r, &r2) {
                    (Ok((p, _)), Ok((p2, _))) => check(Par::key(p) == Par::key(p2), "other-source", || "the same stream gave different keys: another source of randomness is used".into()),
                    (Err(a), Err(b)) => check(a == b, "other-source", || format!("the same stream gave different errors: {a}, {b}")),
                    _ => violate("other-source", "the same stream gave keys once and an error once".into()),
                }
                match r {
                    Err(e) => {
                        ev(&format!("setup refused: {e}"));
                        probe("key generation refused a degraded source");
                        check(rng.log.len() >= 8, "no-draw", || "key generation failed without drawing".into());
                        check(rng.mode != 0, "setup-failed", || format!("healthy source: {e}"));
                    }
                    Ok((mut p, v)) => {
                        probe("keys from a degraded source");
                        let c = Circ::honest(&prog, &e0);
                        let mut one = || {
                            let mut prng = SimRng::new(crate::rngs::lasting(o.arg(3)), o.arg(4), o.arg(2) % 24);
                            match must("proving", || Par::prove(&mut p, &c, &mut prng)) {
                                Err(e) => violate("prove-failed", format!("keys from a degraded source: {e}")),
                                Ok(q) => q,
                            }
                        };
                        let q = one();
                        check(pb(&q) == pb(&one()), "other-source", || "the same stream gave different proofs: another source of randomness is used".into());
                        let r = must("verification", || Par::verify(&v, &q, &pubs(&e0)));
                        ev(&format!("degraded verify {r:?}"));
                        check(r.is_ok(), "honest-rejected", || format!("keys from a degraded source (mode {}): {r:?}", rng.mode));
                    }
                }
            }
            _ => {}
        }
    }
}

trait Ext {
    fn to_ext(&self) -> bn_254::G1Projective;
}
impl Ext for G1Affine {
    fn to_ext(&self) -> bn_254::G1Projective {
        bn_254::G1Projective::from(*self)
    }
}
trait Ext2 {
    fn to_ext2(&self) -> bn_254::G2Projective;
}
impl Ext2 for G2Affine {
    fn to_ext2(&self) -> bn_254::G2Projective {
        bn_254::G2Projective::from(*self)
    }
}
fn pair(a: G1Affine, b: G2Affine) -> bn_254::Gt {
    bn_254::AteParing::multi_miller_loop(&[(a, bn_254::G2PairingAffine::from(b))]).final_exp()
}

// ------------------------------------------------------------------ G05

pub fn gen_g05(r: &mut Rng, seed: u64, _thorough: bool) -> (Plan, Spec) {
    let mut p = Plan::new("G05").set("workers", r.below(4));
    gen_circuits(r, &mut p, 2, false);
    let t = r.below(3);
    p.p.insert("threads".into(), t);
    p.push("setup", &[0, r.below(3), r.below(1 << 30)]);
    for th in 0..=t {
        for _ in 0..2 + r.below(5) {
            match r.below(8) {
                0 => p.push("setup", &[th, r.below(3), r.below(1 << 30)]),
                1..=2 => p.push("prove", &[th, r.below(4), r.below(6), r.below(1 << 30)]),
                3..=4 => p.push("abort-prove", &[th, r.below(4), r.below(6), r.below(1 << 30), r.below(64), r.below(4)]),
                5 => p.push("rng-prove", &[th, r.below(4), r.below(6), r.below(1 << 30), r.below(20)]),
                6 => p.push("abort-setup", &[th, r.below(3), r.below(1 << 30), r.below(64), r.below(4)]),
                _ => p.push("rng-setup", &[th, r.below(3), r.below(1 << 30), r.below(48)]),
            }
        }
        p.push("prove", &[th, r.below(4), r.below(6), r.below(1 << 30)]);
    }
    (p, gen_spec(r, seed, 500))
}

const ABORT_ERR: [&str; 3] = [
    "ProverInversionFailed",
    "UnsupportedWNAF2k",
    "InconsistentPublicInputsLen { expected: 77, provided: 99 }",
];

fn expect_abort(what: &str, kind: u64, r: Result<Result<(), String>, String>) {
    let want = if kind % 4 == 3 { Err("injected".to_string()) } else { Ok(Err(ABORT_ERR[kind as usize % 3].to_string())) };
    ev(&format!("{what} {r:?}"));
    if let Err(e) = &r {
        check(e == "injected", "panic", || format!("{what}: {e}"));
    }
    probe(if kind % 4 == 3 { "operation ended by a panic" } else { "operation ended by an error" });
    check(r == want, "abort-masked", || format!("{what}: the caller saw {r:?} instead of {want:?}"));
}

type G5 = (Vec<(u64, Key, Arc<<Par as Sys>::Verifier>, <Par as Sys>::Prover)>, Vec<Vec<u8>>);

fn aborts(me: u64, ops: Vec<Op>, progs: Arc<Progs>, start: Vec<(u64, Key, Arc<<Par as Sys>::Verifier>, <Par as Sys>::Prover)>, faulty: bool) -> G5 {
    let mut keys = start;
    let mut out = vec![];
    for o in ops.iter().filter(|o| o.k != "st" && o.arg(0) == me) {
        match o.k.as_str() {
            "setup" => {
                let mut rng = SimRng::healthy(o.arg(2));
                match must("key generation", || Par::setup(&Circ::shape(progs.get(o.arg(1))), &mut rng)) {
                    Ok((p, v)) => {
                        let k = Par::key(&p);
                        out.push(k.bytes());
                        keys.push((o.arg(1), k, Arc::new(v), p));
                    }
                    Err(e) => violate("setup-failed", e),
                }
            }
            "abort-setup" | "rng-setup" if faulty => {
                let mut c = Circ::shape(progs.get(o.arg(1)));
                let n = c.prog.len() as u64 + 1;
                let (mut rng, kind) = if o.k == "abort-setup" {
                    c.abort = Some(((o.arg(3) % n) as usize, o.arg(4)));
                    (SimRng::healthy(o.arg(2)), o.arg(4))
                } else {
                    (SimRng::failing(o.arg(2), o.arg(3) % 40), 3)
                };
                let r = guard(|| Par::setup(&c, &mut rng).map(|_| ()));
                if o.k == "rng-setup" && r == Ok(Ok(())) {
                    probe("source failed after the last draw");
                } else {
                    expect_abort("aborted key generation", kind, r);
                }
            }
            "prove" if !keys.is_empty() => {
                let i = o.arg(1) as usize % keys.len();
                let (c, _, v, p) = &mut keys[i];
                let prog = progs.get(*c).clone();
                let e = dsl::eval(&prog, o.arg(2), None);
                let mut rng = SimRng::healthy(o.arg(3));
                match must("proving", || Par::prove(p, &Circ::honest(&prog, &e), &mut rng)) {
                    Ok(q) => {
                        out.push(pb(&q));
                        if faulty {
                            probe("proof compared with the run without aborts");
                            let r = must("verification", || Par::verify(v, &q, &pubs(&e)));
                            check(r.is_ok(), "honest-rejected", || format!("after aborted operations: {r:?}"));
                        }
                    }
                    Err(e) => violate("prove-failed", e),
                }
            }
            "abort-prove" | "rng-prove" if faulty && !keys.is_empty() => {
                let i = o.arg(1) as usize % keys.len();
                let (c, k, _, p) = &mut keys[i];
                let prog = progs.get(*c).clone();
                let e = dsl::eval(&prog, o.arg(2), None);
                let mut c = Circ::honest(&prog, &e);
                let (mut rng, kind) = if o.k == "abort-prove" {
                    c.abort = Some((o.arg(4) as usize % (prog.len() + 1), o.arg(5)));
                    (SimRng::healthy(o.arg(3)), o.arg(5))
                } else {
                    (SimRng::failing(o.arg(3), o.arg(4) % 16), 3)
                };
                let r = guard(|| Par::prove(p, &c, &mut rng).map(|_| ()));
                if o.k == "rng-prove" && r == Ok(Ok(())) {
                    probe("source failed after the last draw");
                } else {
                    expect_abort("aborted proof", kind, r);
                }
                check(Par::key(p).bytes() == k.bytes(), "key-changed", || "an aborted proof changed the proving key".into());
            }
            _ => {}
        }
    }
    for (_, k, _, p) in &keys {
        check(Par::key(p).bytes() == k.bytes(), "key-changed", || "proving changed the key".into());
    }
    (keys, out)
}

pub fn run_g05(plan: &Plan) {
    let progs = Arc::new(Progs::of(plan));
    let fork = |k: &[(u64, Key, Arc<<Par as Sys>::Verifier>, <Par as Sys>::Prover)]| -> Vec<_> {
        k.iter().map(|(c, k, v, p)| (*c, k.clone(), v.clone(), Par::with_key(k, p))).collect()
    };
    // what happens if nothing is ever aborted
    let t = plan.get("threads") % 4;
    let (k0, o0) = aborts(0, plan.ops.clone(), progs.clone(), vec![], false);
    let mut want = vec![o0];
    for th in 1..=t {
        want.push(aborts(th, plan.ops.clone(), progs.clone(), fork(&k0), false).1);
    }
    // the same with the aborted operations in between
    let (k1, o1) = aborts(0, plan.ops.clone(), progs.clone(), vec![], true);
    check(o1 == want[0], "result-changed", || "an aborted operation changed a later result".into());
    let fs: Vec<Box<dyn FnOnce() -> Vec<Vec<u8>> + Send>> = (1..=t)
        .map(|th| {
            let k = fork(&k1);
            let ops = plan.ops.clone();
            let progs = progs.clone();
            Box::new(move || aborts(th, ops, progs, k, true).1) as Box<dyn FnOnce() -> Vec<Vec<u8>> + Send>
        })
        .collect();
    for (i, o) in join_all(fs).into_iter().enumerate() {
        check(o == want[i + 1], "result-changed", || format!("session {}: an aborted operation changed a later result", i + 1));
    }
}

// ------------------------------------------------------------------ G06

pub fn gen_g06(r: &mut Rng, seed: u64, thorough: bool) -> (Plan, Spec) {
    let mut p = Plan::new("G06").set("workers", r.below(8)).set("ncirc", 0);
    let big = r.chance(1, if thorough { 4 } else { 10 });
    let large = r.chance(1, 20);
    if large {
        let n = large_size(r, thorough).min(if thorough { 2060 } else { 1030 });
        dsl::large(r, &mut p, "st", 0, n);
    } else {
        dsl::gen(r, &mut p, "st", 0, big);
    }
    p.push("key", &[r.below(1 << 30)]);
    for _ in 0..r.below(6) {
        p.push("point", &[r.below(5), r.below(1 << 16), r.below(1 << 16), r.below(6)]);
    }
    for _ in 0..1 + r.below(2) {
        p.push("prove", &[r.below(6), r.below(12), r.below(1 << 30)]);
    }
    p.p.insert("sessions".into(), if large { 0 } else { r.below(3) });
    (p, gen_spec(r, seed, if large { 20_000 } else { 200 }))
}

/// The stored limbs of a coordinate, through its public encoding.
fn mq(v: &bn_254::Fq) -> MFq {
    limbs(&v.encode(), 0)
}
fn limbs(b: &[u8], i: usize) -> MFq {
    let mut l = [0u64; 4];
    for j in 0..4 {
        l[j] = u64::from_le_bytes(b[32 * i + 8 * j..32 * i + 8 * j + 8].try_into().unwrap());
    }
    MFq::from_mont_repr(l).unwrap_or_else(|| violate("non-canonical", "a coordinate is not below the modulus".into()))
}
pub fn m1(p: &G1Affine) -> Pt<MFq> {
    (!p.is_identity()).then(|| (mq(&p.get_x()), mq(&p.get_y())))
}
pub fn m2(p: &G2Affine) -> Pt<MFq2> {
    if p.is_identity() {
        return None;
    }
    // two base field elements per coordinate, in storage order
    let b = p.encode();
    let f = |i: usize| limbs(&b, i);
    Some((MFq2(f(0), f(1)), MFq2(f(2), f(3))))
}

#[derive(parity_scale_codec::Decode, Clone, Copy)]
enum MWire {
    Instance(#[codec(compact)] u64),
    Witness(#[codec(compact)] u64),
}

/// Rows of a constraint matrix through their public encoding.
fn rows(m: &impl Encode, x: &[MFr], w: &[MFr]) -> Vec<MFr> {
    use parity_scale_codec::Decode;
    let b = m.encode();
    let r: Vec<Vec<(MWire, [u64; 4])>> = Decode::decode(&mut &b[..]).expect("HARNESS matrix encoding");
    r.iter()
        .map(|row| {
            row.iter().fold(MFr::zero(), |a, (wire, c)| {
                let v = match wire {
                    MWire::Instance(i) => x[*i as usize],
                    MWire::Witness(i) => w[*i as usize],
                };
                a + v * MFr::from_mont_repr(*c).unwrap_or_else(|| violate("non-canonical", "a coefficient is not below the modulus".into()))
            })
        })
        .collect()
}

pub fn run_g06(plan: &Plan) {
    let progs = Arc::new(Progs::of(plan));
    let prog = progs.get(0).clone();
    let seed = plan.ops.iter().find(|o| o.k == "key").map_or(1, |o| o.arg(0));
    let mut rng = SimRng::healthy(seed);
    let (mut prover, verifier) = match must("key generation", || Par::setup(&Circ::shape(&prog), &mut rng)) {
        Ok(x) => x,
        Err(e) => violate("setup-failed", e),
    };
    let mut k = Par::key(&prover);
    let mut altered = false;
    // keys with repeated, negated and identity points
    for o in plan.ops.iter().filter(|o| o.k == "point") {
        fn alter<P: Group + std::ops::Neg<Output = P>>(v: &mut [P], i: u64, j: u64, kind: u64) -> bool {
            if v.is_empty() {
                return false;
            }
            let n = v.len() as u64;
            let (i, j) = ((i % n) as usize, (j % n) as usize);
            match kind % 6 {
                0 => v[i] = v[j],
                1 => v[i] = -v[j],
                2 => v[i] = P::ADDITIVE_IDENTITY,
                3 => v.iter_mut().for_each(|p| *p = P::ADDITIVE_GENERATOR),
                4 => {
                    let g = v[j];
                    v.iter_mut().enumerate().for_each(|(i, p)| *p = if i % 2 == 0 { g } else { -g });
                }
                _ => v[i] = P::ADDITIVE_GENERATOR,
            }
            true
        }
        let (t, i, j, kind) = (o.arg(0), o.arg(1), o.arg(2), o.arg(3));
        altered |= match t % 5 {
            0 => alter(&mut k.h, i, j, kind),
            1 => alter(&mut k.l, i, j, kind),
            2 => alter(&mut k.a, i, j, kind),
            3 => alter(&mut k.b1, i, j, kind),
            _ => alter(&mut k.b2, i, j, kind),
        };
        fault(["key point repeated", "key point negated", "key point identity", "key all one point", "key alternating points", "key point generator"][(kind % 6) as usize]);
    }
    if altered {
        prover = Par::with_key(&k, &prover);
    }
    let verifier = Arc::new(verifier);
    let one = {
        let prog = prog.clone();
        let k = k.clone();
        move |mut p: <Par as Sys>::Prover, ops: Vec<Op>, vf: Arc<<Par as Sys>::Verifier>| {
            for o in ops.iter().filter(|o| o.k == "prove") {
                let e = dsl::eval(&prog, o.arg(0), None);
                let c = Circ::honest(&prog, &e);
                let mut rng = SimRng::new(crate::rngs::lasting(o.arg(1)), o.arg(2), 5);
                let q = match must("proving", || Par::prove(&mut p, &c, &mut rng)) {
                    Ok(q) => q,
                    Err(e) => violate("prove-failed", e),
                };
                ev(&format!("proof {:016x}", hb(&pb(&q))));
                against_model(&k, &c, &q, &rng.log);
                if !altered {
                    let r = must("verification", || Par::verify(&vf, &q, &pubs(&e)));
                    check(r.is_ok(), "honest-rejected", || format!("{r:?}"));
                }
            }
        }
    };
    let n = plan.get("sessions") % 3;
    let fs: Vec<Box<dyn FnOnce() + Send>> = (0..=n)
        .map(|_| {
            let p = Par::with_key(&k, &prover);
            let (one, ops, v) = (one.clone(), plan.ops.clone(), verifier.clone());
            Box::new(move || one(p, ops, v)) as Box<dyn FnOnce() + Send>
        })
        .collect();
    join_all(fs);
}

/// The prescribed group elements, computed by the reference model.
fn against_model(k: &Key, c: &Circ, q: &Parts, drawn: &[u64]) {
    let mut cs: R1cs<zkgroth16::Bn254Driver> = R1cs::default();
    zkgroth16::Circuit::synthesize(c, &mut cs).ok();
    let x: Vec<MFr> = cs.x().iter().map(dsl::mfr).collect();
    let w: Vec<MFr> = cs.w().iter().map(dsl::mfr).collect();
    let (ma, mb, mc) = cs.matrices();
    let (mut a, mut b, mut cc) = (rows(&ma, &x, &w), rows(&mb, &x, &w), rows(&mc, &x, &w));
    // every public input has a row of its own: x_i * 0 = 0
    a.extend(&x);
    b.resize(a.len(), MFr::zero());
    cc.resize(a.len(), MFr::zero());
    let n = a.len().next_power_of_two().max(2);
    for v in [&mut a, &mut b, &mut cc] {
        v.resize(n, MFr::zero());
    }
    let root = dsl::mfr(&bn_254::ROOT_OF_UNITY);
    let mut om = root;
    for _ in 0..28 - n.trailing_zeros() {
        om = om * om;
    }
    let (pa, pbb, pc) = (model::interpolate(&a, om), model::interpolate(&b, om), model::interpolate(&cc, om));
    let (h, exact) = model::quotient(&pa, &pbb, &pc);
    check(exact, "HARNESS", || "HARNESS: the quotient of an honest assignment is not exact".into());
    let z: Vec<[u64; 4]> = x.iter().chain(&w).map(|v| v.int()).collect();
    let wi: Vec<[u64; 4]> = w.iter().map(|v| v.int()).collect();
    let hi: Vec<[u64; 4]> = h.iter().map(|v| v.int()).collect();
    let p1 = |v: &[G1Affine]| v.iter().map(m1).collect::<Vec<_>>();
    let p2 = |v: &[G2Affine]| v.iter().map(m2).collect::<Vec<_>>();
    let sa = model::msm(&p1(&k.a), &z);
    let sb1 = model::msm(&p1(&k.b1), &z);
    let sb2 = model::msm(&p2(&k.b2), &z);
    let sl = model::msm(&p1(&k.l), &wi);
    let sh = model::msm(&p1(&k.h), &hi);
    let a0 = model::add(m1(&k.alpha1), sa);
    let b0 = model::add(m2(&k.beta2), sb2);
    // the blinding factors are among the values drawn from the source
    let cand: Vec<MFr> = drawn.chunks(8).filter(|c| c.len() == 8).map(|c| MFr::from_wide(c.try_into().unwrap())).collect();
    let r = cand.iter().find(|r| model::add(a0, model::mul(m1(&k.delta1), r.int())) == m1(&q.0));
    let s = cand.iter().find(|s| model::add(b0, model::mul(m2(&k.delta2), s.int())) == m2(&q.1));
    let r = r.unwrap_or_else(|| violate("element-a", format!("A is not alpha + sum(a_i z_i) + r*delta for any drawn r ({} constraints, {} values)", n, z.len())));
    let s = s.unwrap_or_else(|| violate("element-b", format!("B is not beta + sum(b_i z_i) + s*delta for any drawn s ({} constraints, {} values)", n, z.len())));
    // C = sum(l_i w_i) + sum(h_i q_i) + s*A + r*B1 - r*s*delta, with B1 = beta1 + sum(b1_i z_i) + s*delta1
    let b1full = model::add(model::add(m1(&k.beta1), sb1), model::mul(m1(&k.delta1), s.int()));
    let mut want = model::add(sl, sh);
    want = model::add(want, model::mul(m1(&q.0), s.int()));
    want = model::add(want, model::mul(b1full, r.int()));
    want = model::add(want, model::mul(m1(&k.delta1), (-(*r * *s)).int()));
    probe("proof compared with the model");
    check(want == m1(&q.2), "element-c", || format!("C differs from the prescribed sum ({} constraints, {} values)", n, z.len()));
}

// silence: the trait is used through SimRng
#[allow(dead_code)]
fn _assert_rng<R: RngCore>() {}
