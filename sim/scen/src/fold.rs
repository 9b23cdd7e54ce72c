//! N03: a folding prover and a verifier that talks to it over a faulty network.
use crate::groth::{gen_spec, must};
use crate::mirror::*;
use crate::rngs::SimRng;
use model::{Fe, Pt};
use parity_scale_codec::{Decode, Encode};
use simcore::*;
use zknova::sim::{instance_and_witness, R1csInstance, RelaxedR1csInstance, RelaxedR1csWitness};
use zknova::{PedersenCommitment, Prover, R1csShape, Verifier};
use zkstd::circuit::prelude::FieldAssignment;
use zkstd::circuit::CircuitDriver;
use zkstd::common::PrimeField;
use zkstd::r1cs::R1cs;

const KINDS: u64 = 11;
const FAULTS: u64 = 10;

pub fn gen_n03(r: &mut Rng, seed: u64, thorough: bool) -> (Plan, Spec) {
    let mut p = Plan::new("N03");
    let n = 1 + r.below(3);
    for _ in 0..n {
        let gates = if r.chance(1, 10) { 20 + r.below(20) } else { 1 + r.below(12) };
        p.push("session", &[r.below(2), r.below(1 << 30), gates, r.below(4), r.below(3), r.below(1 << 30)]);
    }
    for _ in 0..2 + r.below(if thorough { 24 } else { 9 }) {
        let s = r.below(n);
        match r.below(9) {
            0 => p.push("crash", &[s, r.below(1 << 16), r.below(4)]),
            _ => {
                let kind = if r.chance(1, 60) { 10 } else if r.chance(3, 5) { 0 } else { r.below(10) };
                p.push("fold", &[s, kind, r.below(1 << 30), r.below(FAULTS), r.below(1 << 30), r.below(1 << 16)]);
            }
        }
    }
    (p, gen_spec(r, seed, 2000))
}

/// A satisfied constraint system; the shape depends on `seed` only.
fn circuit<D: CircuitDriver>(seed: u64, gates: u64, vals: u64) -> R1cs<D> {
    let mut cs = R1cs::<D>::default();
    let mut r = Rng::sub(seed, "shape", gates);
    let mut v = Rng::sub(vals, "values", 0);
    let mut val = |lim: u64| -> D::Scalar {
        match v.below(8) {
            0 => D::Scalar::zero(),
            1 => D::Scalar::one(),
            2 => -D::Scalar::one(),
            3 => D::Scalar::from(v.below(lim)),
            _ => D::Scalar::from_bytes_wide(&{
                let mut b = [0u8; 64];
                v.fill(&mut b);
                b
            }),
        }
    };
    use zkstd::common::{IntGroup, Ring};
    let mut a = vec![FieldAssignment::witness(&mut cs, val(1 << 40))];
    for _ in 0..gates {
        let x = a[r.below(a.len() as u64) as usize].clone();
        let y = a[r.below(a.len() as u64) as usize].clone();
        match r.below(12) {
            0 => a.push(FieldAssignment::instance(&mut cs, val(10))),
            1 | 2 => a.push(FieldAssignment::witness(&mut cs, val(1 << 62))),
            3 => a.push(FieldAssignment::constant(&D::Scalar::from(r.u64()))),
            4 | 5 | 6 => a.push(FieldAssignment::mul(&mut cs, &x, &y)),
            7 => a.push(FieldAssignment::square(&mut cs, &x)),
            8 => a.push(&x + &y),
            9 => a.push(&x - &y),
            10 => {
                let z = x.value(&cs) + y.value(&cs);
                let z = FieldAssignment::witness(&mut cs, z);
                FieldAssignment::enforce_eq(&mut cs, &(&x + &y), &z);
                a.push(z);
            }
            _ => a.push(FieldAssignment::inputize(&mut cs, x)),
        }
    }
    // at least one constraint
    let x = a[a.len() - 1].clone();
    let y = a[0].clone();
    FieldAssignment::mul(&mut cs, &x, &y);
    cs
}

struct World<S: Side> {
    seed: u64,
    gates: u64,
    shape: R1csShape<S::D>,
    ms: Shape<S>,
    ck: PedersenCommitment<<S::D as CircuitDriver>::Affine>,
    g: Vec<Pt<Fe<S::B>>>,
    prover: Prover<S::D>,
    /// every challenge seen, with what it was derived from
    seen: Vec<(Rel<S>, Pt<Fe<S::B>>, Fe<S::M>)>,
}

impl<S: Side> World<S> {
    fn new(o: &Op) -> Self {
        let (seed, gates) = (o.arg(1), o.arg(2));
        let (shape, ck, prover) = must("setup", || {
            let shape = R1csShape::from(circuit::<S::D>(seed, gates, 0));
            let k = shape.m().max(shape.m_l_1()).next_power_of_two().trailing_zeros() as u64 + o.arg(4) % 2;
            let ck = PedersenCommitment::<<S::D as CircuitDriver>::Affine>::new(k, &mut SimRng::healthy(o.arg(5)));
            let prover = Prover::<S::D>::new(shape.clone(), ck.clone());
            (shape, ck, prover)
        });
        let ms = Shape::of(&shape);
        let g = gens::<S, _>(&ck);
        World { seed, gates, ms, g, shape, ck, prover, seen: vec![] }
    }

    fn commit(&self, v: &[Fe<S::M>]) -> Pt<Fe<S::B>> {
        commit::<S>(&self.g, v)
    }

    /// The model's verdict: does this witness open this accumulator?
    fn opens(&self, u: &Rel<S>, w: &Wit<S>) -> bool {
        u.x.len() == self.ms.l && w.w.len() == self.ms.n && w.e.len() == self.ms.m && self.sat_rel(u, w) && self.commit(&w.w) == u.cw && self.commit(&w.e) == u.ce
    }
    fn sat_rel(&self, u: &Rel<S>, w: &Wit<S>) -> bool {
        self.ms.error(u.u, &u.x, &w.w) == w.e
    }

    /// The challenge a fold used, from what it did to the scalar.
    fn challenge(&mut self, u1: &Rel<S>, t: &Pt<Fe<S::B>>, u: &Rel<S>) -> Fe<S::M> {
        let r = u.u - u1.u;
        let v = r.int();
        check(v[2] == 0 && v[3] == 0 && v[1] != 0, "weak-challenge", || format!("{}: the challenge {v:x?} is not a number of 128 random bits", S::NAME));
        for (a, b, c) in &self.seen {
            check(*c != r || (a == u1 && b == t), "weak-challenge", || format!("{}: the same challenge for different running instances or commitments", S::NAME));
        }
        self.seen.push((u1.clone(), *t, r));
        r
    }

    /// The model's fold of instances.
    fn fold(&self, u1: &Rel<S>, u2: &Inst<S>, t: &Pt<Fe<S::B>>, r: Fe<S::M>) -> Rel<S> {
        Rel {
            cw: model::add(u1.cw, model::mul(u2.cw, r.int())),
            ce: model::add(u1.ce, model::mul(*t, r.int())),
            u: u1.u + r,
            x: u1.x.iter().zip(&u2.x).map(|(a, b)| *a + r * *b).collect(),
        }
    }

    /// The real verifier on these messages, compared with the model.
    fn verify(&mut self, u1: &Rel<S>, u2: &Inst<S>, t: &Pt<Fe<S::B>>) -> Rel<S> {
        let (a, b, c) = (u1.real(), u2.real(), ptreal::<S>(t));
        let v = must("Verifier::verify", || Verifier::<S::D>::verify(c, &a, &b));
        let v = Rel::<S>::of(&v);
        let r = self.challenge(u1, t, &v);
        check(v == self.fold(u1, u2, t, r), "wrong-fold", || format!("{}: the verifier's instance is not the folded one", S::NAME));
        v
    }
}

/// A change that matters, in one part of a message.
fn alter_fe<M: model::Modulus>(v: Fe<M>, s: u64) -> Fe<M> {
    match s % 4 {
        0 => v + Fe::one(),
        1 if !v.is_zero() => -v,
        2 if !v.is_zero() => Fe::zero(),
        _ => add4(v, (s / 4 % 254) as u32),
    }
}
fn alter_pt<S: Side>(p: Pt<Fe<S::B>>, g: &[Pt<Fe<S::B>>], s: u64) -> Pt<Fe<S::B>> {
    let q = match s % 4 {
        0 => model::neg(p),
        1 => None,
        2 => g[s as usize / 4 % g.len()],
        _ => model::add(p, g[s as usize / 4 % g.len()]),
    };
    if q == p {
        model::add(p, g[0])
    } else {
        q
    }
}

fn alter<S: Side>(w: &World<S>, u1: &mut Rel<S>, u2: &mut Inst<S>, t: &mut Pt<Fe<S::B>>, state: bool, s: u64) -> &'static str {
    let (k, s) = (s % 5, s / 5);
    let j = if u2.x.is_empty() { 0 } else { s as usize / 1024 % u2.x.len() };
    if state {
        match k {
            0 => u1.cw = alter_pt::<S>(u1.cw, &w.g, s),
            1 => u1.ce = alter_pt::<S>(u1.ce, &w.g, s),
            2 if !u1.x.is_empty() => u1.x[j] = alter_fe(u1.x[j], s),
            3 if u1.x.len() > 1 && u1.x[0] != u1.x[j] => u1.x.swap(0, j),
            _ => u1.u = alter_fe(u1.u, s),
        }
        "verifier's stored instance damaged"
    } else {
        match k {
            0 => u2.cw = alter_pt::<S>(u2.cw, &w.g, s),
            1 if !u2.x.is_empty() => u2.x[j] = alter_fe(u2.x[j], s),
            2 if u2.x.len() > 1 && u2.x[0] != u2.x[j] => u2.x.swap(0, j),
            _ => *t = alter_pt::<S>(*t, &w.g, s),
        }
        "message altered"
    }
}

struct Journal<S: Side> {
    u2: Inst<S>,
    w2: Vec<Fe<S::M>>,
    t: Pt<Fe<S::B>>,
    /// durable state after the fold
    disk: Vec<u8>,
}

fn disk<S: Side>(u: &RelaxedR1csInstance<S::D>, w: &RelaxedR1csWitness<S::D>) -> Vec<u8> {
    (u.clone(), w.clone()).encode()
}
fn load<S: Side>(b: &[u8]) -> Option<(RelaxedR1csInstance<S::D>, RelaxedR1csWitness<S::D>)> {
    let mut s = b;
    let v = Decode::decode(&mut s).ok()?;
    s.is_empty().then(|| v)
}

fn session<S: Side>(id: u64, so: &Op, ops: &[Op]) {
    let mut w = World::<S>::new(so);
    let (n, l) = (w.ms.n, w.ms.l);
    if l == 0 {
        probe("no public values");
    }
    // the first accumulator
    let first = must("first instance", || {
        let cs = circuit::<S::D>(w.seed, w.gates, so.arg(5));
        instance_and_witness(&cs, &w.shape, &w.ck)
    });
    let (mut u1, mut w1) = if so.arg(3) % 4 == 0 {
        probe("empty accumulator");
        (Rel::<S>::zero(l).real(), Wit::<S> { w: vec![Fe::zero(); n], e: vec![Fe::zero(); w.ms.m] }.real())
    } else {
        must("from_r1cs_instance", || {
            (
                RelaxedR1csInstance::from_r1cs_instance(&w.ck, &w.shape, &first.0),
                RelaxedR1csWitness::from_r1cs_witness(&w.shape, &first.1),
            )
        })
    };
    check(w.opens(&Rel::of(&u1), &Wit::of(&w1)), "lost-satisfaction", || format!("{}: the first accumulator is not satisfied", S::NAME));
    let start = disk::<S>(&u1, &w1);
    let mut journal: Vec<Journal<S>> = vec![];
    // the verifier's accumulator, as it stores it
    let mut vu = u1.encode();
    let mut last: Option<(Inst<S>, Vec<Fe<S::M>>, Pt<Fe<S::B>>)> = None;

    for o in ops.iter().filter(|o| o.arg(0) == id) {
        if o.k == "crash" {
            // the prover loses its memory; only what it wrote survives
            fault("prover crashed");
            let mut at = o.arg(1) as usize % (journal.len() + 1);
            let mut image = if at == 0 { start.clone() } else { journal[at - 1].disk.clone() };
            if o.arg(2) == 0 && !image.is_empty() {
                fault("torn write");
                let cut = o.arg(1) as usize % image.len();
                image.truncate(cut);
                check(must("decoding a torn image", || load::<S>(&image).is_none()), "torn-state", || format!("{}: a torn state of {cut} bytes was loaded", S::NAME));
                at = 0;
                image = start.clone();
            }
            let (mut u, mut x) = must("loading", || load::<S>(&image)).unwrap_or_else(|| violate("lost-state", format!("{}: stored state does not load", S::NAME)));
            for j in &journal[at..] {
                let (a, b) = (j.u2.real(), wreal::<S>(&j.w2));
                let (u3, x3, t) = must("prove", || w.prover.prove(&u, &x, &a, &b));
                check(ptof::<S, _>(&t) == j.t, "not-repeatable", || format!("{}: folding again after a crash gives another cross term", S::NAME));
                check(disk::<S>(&u3, &x3) == j.disk, "not-repeatable", || format!("{}: folding again after a crash gives another accumulator", S::NAME));
                u = u3;
                x = x3;
            }
            probe("resumed from storage");
            u1 = u;
            w1 = x;
            ev(&format!("{id} crash at {at} of {}", journal.len()));
            continue;
        }
        let kind = o.arg(1) % KINDS;
        let (mu1, mw1) = (Rel::<S>::of(&u1), Wit::<S>::of(&w1));
        // ---- the prover's next instance
        let mut cs = must("synthesis", || circuit::<S::D>(w.seed, w.gates, o.arg(2)));
        if kind == 1 && n > 0 {
            let i = o.arg(5) as usize % n;
            let v = cs.w()[i] + <S::D as CircuitDriver>::Scalar::from(1 + o.arg(4) % 3);
            cs.sim_set_witness(i, v);
            fault("corrupted witness");
        }
        let (i2, x2) = must("instance", || instance_and_witness(&cs, &w.shape, &w.ck));
        let (mut mi2, mut mx2) = (Inst::<S>::of(&i2), wvec::<S>(&x2));
        check(mi2.cw == w.commit(&mx2), "wrong-commitment", || format!("{}: the commitment is not the sum of scaled generators", S::NAME));
        match kind {
            2 => {
                mi2.cw = alter_pt::<S>(mi2.cw, &w.g, o.arg(5));
                fault("mismatched commitment");
            }
            3 if l > 0 => {
                let j = o.arg(5) as usize % l;
                mi2.x[j] = alter_fe(mi2.x[j], o.arg(4));
                fault("altered public value");
            }
            4 if n > 0 => {
                let j = o.arg(5) as usize % n;
                mx2[j] = alter_fe(mx2[j], o.arg(4));
                fault("witness altered after commitment");
            }
            5 => {
                if let Some((a, b, _)) = &last {
                    mi2 = a.clone();
                    mx2 = b.clone();
                    fault("the same instance again");
                }
            }
            6 => {
                mi2 = Inst { cw: None, x: vec![Fe::zero(); l] };
                mx2 = vec![Fe::zero(); n];
                fault("all-zero instance");
            }
            7 if n > 0 => {
                // the last wire and the first: off-by-one bait
                let j = if o.arg(5) & 1 == 0 { 0 } else { n - 1 };
                mx2[j] = alter_fe(mx2[j], o.arg(4));
                mi2.cw = w.commit(&mx2);
                fault("corrupted witness");
            }
            10 => {
                if mw1.e.iter().all(|e| e.is_zero()) && mu1.ce.is_none() {
                    late(&mut w, &mu1, &mw1.w, &mi2, &mx2);
                }
                continue;
            }
            _ => {}
        }
        let sat = w.ms.sat(&mi2.x, &mx2);
        let fits = w.commit(&mx2) == mi2.cw;
        let good = sat && fits;
        let (i2, x2) = (mi2.real(), wreal::<S>(&mx2));
        let verdict = must("is_sat", || w.shape.is_sat(&w.ck, &i2, &x2));
        check(verdict == good, "wrong-verdict", || format!("{}: is_sat says {verdict}; constraints {sat}, commitment {fits}", S::NAME));
        probe(if good { "satisfied input" } else { "unsatisfied input" });

        // ---- fold
        let (u3, w3, t) = must("prove", || w.prover.prove(&u1, &w1, &i2, &x2));
        let (mu3, mw3, mt) = (Rel::<S>::of(&u3), Wit::<S>::of(&w3), ptof::<S, _>(&t));
        let r = w.challenge(&mu1, &mt, &mu3);
        let cross = w.ms.cross(mu1.u, &mu1.x, &mw1.w, &mi2.x, &mx2);
        check(mt == w.commit(&cross), "wrong-cross-term", || format!("{}: the cross term's commitment is wrong", S::NAME));
        check(mu3 == w.fold(&mu1, &mi2, &mt, r), "wrong-fold", || format!("{}: the prover's instance is not the folded one", S::NAME));
        let want = Wit::<S> {
            w: mw1.w.iter().zip(&mx2).map(|(a, b)| *a + r * *b).collect(),
            e: mw1.e.iter().zip(&cross).map(|(a, b)| *a + r * *b).collect(),
        };
        check(mw3 == want, "wrong-fold", || format!("{}: the prover's witness is not the folded one", S::NAME));
        let open = w.opens(&mu3, &mw3);
        check(open == good, if good { "lost-satisfaction" } else { "unsound-fold" }, || format!("{}: folding in an instance (satisfied {sat}, committed {fits}) gives an accumulator that {} by its witness", S::NAME, if open { "is opened" } else { "is not opened" }));
        let rel = must("is_sat_relaxed", || w.shape.is_sat_relaxed(&u3, &w3));
        check(rel == w.sat_rel(&mu3, &mw3), "wrong-verdict", || format!("{}: is_sat_relaxed says {rel}", S::NAME));
        // a single wrong error entry
        if good && w.ms.m > 0 && o.arg(5) % 4 == 0 {
            let mut bad = mw3.clone();
            let j = o.arg(5) as usize / 4 % w.ms.m;
            bad.e[j] = alter_fe(bad.e[j], o.arg(4));
            let bw = bad.real();
            let v = must("is_sat_relaxed", || w.shape.is_sat_relaxed(&u3, &bw));
            check(!v, "wrong-verdict", || format!("{}: a wrong entry {j} of the error vector goes unnoticed", S::NAME));
            fault("error vector altered");
        }

        // ---- deliver
        let stored = must("loading", || RelaxedR1csInstance::<S::D>::decode(&mut &vu[..]).ok());
        let vu1 = Rel::<S>::of(&stored.unwrap_or_else(|| violate("lost-state", format!("{}: the verifier's instance does not load", S::NAME))));
        check(vu1 == mu1, "diverged", || format!("{}: prover and verifier hold different accumulators before the fold", S::NAME));
        let mut wrong: Option<(Rel<S>, &str)> = None;
        match o.arg(3) % FAULTS {
            1 | 2 | 3 | 4 => {
                let (mut a, mut b, mut c) = (vu1.clone(), mi2.clone(), mt);
                let state = o.arg(3) % FAULTS == 4;
                let what = alter(&w, &mut a, &mut b, &mut c, state, o.arg(4));
                if a != vu1 || b != mi2 || c != mt {
                    fault(what);
                    wrong = Some((w.verify(&a, &b, &c), what));
                }
            }
            5 => {
                if let Some((a, _, c)) = last.as_ref().filter(|x| x.0 != mi2 || x.2 != mt) {
                    let (a, c) = (a.clone(), *c);
                    fault("stale message in place of the current one");
                    wrong = Some((w.verify(&vu1, &a, &c), "a stale message"));
                }
            }
            6 => {
                fault("message lost");
                wrong = Some((vu1.clone(), "a lost message"));
            }
            7 => {
                fault("message duplicated");
                let a = w.verify(&vu1, &mi2, &mt);
                wrong = Some((w.verify(&a, &mi2, &mt), "a duplicated message"));
            }
            8 => {
                if let Some((a, _, c)) = last.clone() {
                    // an old message first, then this one
                    fault("messages reordered");
                    let x = w.verify(&vu1, &a, &c);
                    wrong = Some((w.verify(&x, &mi2, &mt), "reordered messages"));
                }
            }
            _ => {}
        }
        if let Some((v, what)) = wrong {
            check(v != mu3, "fault-unnoticed", || format!("{}: after {what} the verifier derives the prover's instance", S::NAME));
            let vr = v.real();
            let verdict = must("is_sat_relaxed", || w.shape.is_sat_relaxed(&vr, &w3));
            check(verdict == w.sat_rel(&v, &mw3), "wrong-verdict", || format!("{}: after {what} is_sat_relaxed says {verdict}", S::NAME));
            if w.opens(&v, &mw3) {
                // nothing (all zero) was folded, or an unused public value differs
                probe("opened although different");
            }
            probe("divergence after a fault was visible");
        }
        let v = w.verify(&vu1, &mi2, &mt);
        check(v == mu3, "diverged", || format!("{}: prover and verifier derive different instances from the same messages", S::NAME));
        let vi = v.real();
        check(vi == u3, "diverged", || format!("{}: equal instances compare unequal", S::NAME));
        probe("fold agreed");
        let d = disk::<S>(&u3, &w3);
        state(hash_str(&format!("{d:?}")));
        ev(&format!("{id} {} fold kind {kind} good {good} {:x}", S::NAME, hash_str(&format!("{d:?}"))));
        last = Some((mi2.clone(), mx2.clone(), mt));
        if good {
            vu = v.real().encode();
            journal.push(Journal { u2: mi2, w2: mx2, t: mt, disk: d });
            u1 = u3;
            w1 = w3;
        }
        if journal.len() > 4 {
            probe("long chain");
        }
    }
}

/// A prover that fixes the cross term first, learns the challenge, and only
/// then makes up an instance for it.
fn late<S: Side>(w: &mut World<S>, u1: &Rel<S>, w1: &[Fe<S::M>], i2: &Inst<S>, x2: &[Fe<S::M>]) {
    fault("instance made up after the challenge");
    // what the challenge will be, if it does not depend on the instance
    let a = w.verify(u1, i2, &None);
    let r = a.u - u1.u;
    let inv = r.inv();
    // aim at a scaled true statement
    let x: Vec<_> = u1.x.iter().zip(&i2.x).map(|(p, t)| (a.u * *t - *p) * inv).collect();
    let aim: Vec<_> = x2.iter().map(|t| a.u * *t).collect();
    let cw = model::mul(model::add(commit::<S>(&w.g, &aim), model::neg(u1.cw)), inv.int());
    let forged = Inst::<S> { cw, x };
    let v = w.verify(u1, &forged, &None);
    let opened = w.opens(&v, &Wit { w: aim.clone(), e: vec![Fe::zero(); w.ms.m] });
    let w2: Vec<_> = aim.iter().zip(w1).map(|(t, p)| (*t - *p) * inv).collect();
    let truth = w.ms.sat(&forged.x, &w2);
    probe("forged instance judged");
    if opened && !truth {
        violate("chosen-after-challenge", "an unsatisfied instance chosen after the challenge folds into a satisfied accumulator, because the challenge does not depend on it".into());
    }
}

pub fn run_n03(plan: &Plan) {
    let hs: Vec<_> = plan
        .ops
        .iter()
        .filter(|o| o.k == "session")
        .enumerate()
        .map(|(i, o)| {
            let (o, ops) = (o.clone(), plan.ops.iter().filter(|o| o.k != "session").cloned().collect::<Vec<_>>());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    harness(|| match o.arg(0) % 2 {
                        0 => session::<Bn>(i as u64, &o, &ops),
                        _ => session::<Gk>(i as u64, &o, &ops),
                    })
                })
                .expect("HARNESS spawn")
        })
        .collect();
    if hs.len() > 1 {
        probe("several sessions at once");
    }
    for h in hs {
        if h.join().is_err() {
            panic!("HARNESS thread: {}", last_panic());
        }
    }
}
