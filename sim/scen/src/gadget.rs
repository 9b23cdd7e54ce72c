//! G07: what a constraint system built from the gadgets admits.
use crate::forge::*;
use crate::groth::{gen_spec, must};
use crate::mirror::*;
use model::{Fe, Modulus, Pt};
use simcore::*;
use zkstd::circuit::prelude::{BinaryAssignment as BA, FieldAssignment, PointAssignment};
use zkstd::circuit::CircuitDriver;
use zkstd::common::{BNProjective, CurveGroup, Group, IntGroup, Ring};
use zkstd::r1cs::R1cs;

/// The curve whose points the gadgets of a driver handle.
pub trait Gad: Side {
    fn curve_b() -> Fe<Self::M>;
    fn generator() -> Pt<Fe<Self::M>>;
    fn public(cs: &mut R1cs<Self::D>, p: &Pt<Fe<Self::M>>) -> PointAssignment<Scalar<Self>>;
    fn assert_public(p: &PointAssignment<Scalar<Self>>, cs: &mut R1cs<Self::D>, q: &Pt<Fe<Self::M>>, z: Fe<Self::M>);
}
macro_rules! gad {
    ($t:ident, $a:ty, $p:ty, $b:expr) => {
        impl Gad for $t {
            fn curve_b() -> Fe<Self::M> {
                $b
            }
            fn generator() -> Pt<Fe<Self::M>> {
                let g = <$a>::from(<$p as Group>::ADDITIVE_GENERATOR);
                let p = (model::<$t>(&g.get_x()), model::<$t>(&g.get_y()));
                assert!(model::on_curve(&Some(p), $b), "HARNESS generator");
                Some(p)
            }
            fn public(cs: &mut R1cs<Self::D>, p: &Pt<Fe<Self::M>>) -> PointAssignment<Scalar<Self>> {
                let a = match p {
                    None => <$a as Group>::ADDITIVE_IDENTITY,
                    Some((x, y)) => <$a>::from_x_and_y(real::<$t>(*x), real::<$t>(*y)),
                };
                PointAssignment::instance(cs, a)
            }
            fn assert_public(p: &PointAssignment<Scalar<Self>>, cs: &mut R1cs<Self::D>, q: &Pt<Fe<Self::M>>, z: Fe<Self::M>) {
                let a = match q {
                    None => <$p as Group>::ADDITIVE_IDENTITY,
                    Some((x, y)) => <$p as BNProjective>::new_unchecked(real::<$t>(*x * z), real::<$t>(*y * z), real::<$t>(z)),
                };
                p.assert_equal_public_point(cs, a);
            }
        }
    };
}
gad!(Bn, grumpkin::Affine, grumpkin::Projective, model::b_grumpkin());
gad!(Gk, bn_254::G1Affine, bn_254::G1Projective, model::b_g1());

/// One application of a gadget: its operands and results as combinations of
/// the assigned values.
struct Rec<M: Modulus> {
    op: &'static str,
    ins: Vec<Row<M>>,
    outs: Vec<Row<M>>,
    n: usize,
    c: Fe<M>,
    pt: Pt<Fe<M>>,
    /// the witnesses it allocated
    ws: (usize, usize),
    sub: Vec<(usize, u64)>,
}

const OPS: u64 = 38;

pub fn gen_g07(r: &mut Rng, seed: u64, thorough: bool) -> (Plan, Spec) {
    let mut p = Plan::new("G07").set("side", r.below(2));
    let n = *r.pick(&[1, 2, 3, 4, 6, 9, 14]);
    let mask = r.u64() | r.u64() | 3;
    let mut heavy = 1 + thorough as u64;
    p.push("ga", &[0, 0, 0, r.below(1 << 20)]);
    for _ in 0..n {
        let mut op = r.below(OPS);
        if mask >> op & 1 == 0 {
            op = r.below(3);
        }
        if op == 30 {
            if heavy == 0 || r.chance(2, 3) {
                op = 28;
            } else {
                heavy -= 1;
            }
        }
        p.push("ga", &[op, r.below(1 << 16), r.below(1 << 16), r.below(1 << 20)]);
    }
    for _ in 0..2 + r.below(if thorough { 40 } else { 16 }) {
        p.push("fault", &[r.below(4), r.below(1 << 16), r.below(1 << 16), r.below(40), r.below(1 << 30), r.below(3)]);
    }
    (p, gen_spec(r, seed, 2000))
}

fn value<M: Modulus>(s: u64) -> Fe<M> {
    let k = (s / 11 % 254) as u32;
    match s % 11 {
        0 => Fe::zero(),
        1 => Fe::one(),
        2 => -Fe::<M>::one(),
        3 => Fe::two_pow(k),
        4 => Fe::two_pow(k) - Fe::one(),
        5 => Fe::from_u64(s / 11 % 300),
        6 => -Fe::<M>::from_u64(s / 11 % 300),
        _ => {
            let mut r = Rng::sub(s, "value", 0);
            Fe::from_wide(std::array::from_fn(|_| r.u64()))
        }
    }
}
fn bits_of(v: [u64; 4], n: usize) -> Vec<bool> {
    (0..n).rev().map(|i| v[i / 64] >> (i % 64) & 1 == 1).collect()
}

type Prog<S> = (R1cs<<S as Side>::D>, Vec<Rec<<S as Side>::M>>);

fn build<S: Gad>(ops: &[Op]) -> Prog<S> {
    type FA<S> = FieldAssignment<Scalar<S>>;
    let mut cs = R1cs::<S::D>::default();
    let cs = &mut cs;
    let mut recs: Vec<Rec<S::M>> = vec![];
    let one = Scalar::<S>::one();
    let mut f: Vec<FA<S>> = vec![FA::<S>::constant(&one)];
    let mut b: Vec<BA> = vec![];
    let mut q: Vec<PointAssignment<Scalar<S>>> = vec![];
    let mut words: Vec<Vec<BA>> = vec![];
    let fr = |x: &FA<S>| row_of::<S::M, _>(x.inner());
    let br = |x: &BA| row_of::<S::M, _>(FA::<S>::from(x).inner());
    let pr = |p: &PointAssignment<Scalar<S>>| vec![fr(&p.get_x()), fr(&p.get_y()), fr(&p.get_z())];
    let wit_pt = |cs: &mut R1cs<S::D>, p: &Pt<Fe<S::M>>| {
        let (x, y) = p.unwrap_or((Fe::zero(), Fe::one()));
        PointAssignment::witness(cs, real::<S>(x), real::<S>(y), p.is_none())
    };
    let point = |k: u64| if k % 8 == 0 { None } else { model::mul(S::generator(), if k % 8 < 5 { [k % 8, 0, 0, 0] } else { value::<S::M>(k).int() }) };
    for o in ops {
        let (op, sx, sy, v) = (o.arg(0) % OPS, o.arg(1) as usize, o.arg(2) as usize, o.arg(3));
        let from = cs.m_l_1();
        let mut rec = Rec { op: "", ins: vec![], outs: vec![], n: 0, c: Fe::zero(), pt: None, ws: (from, from), sub: vec![] };
        // operands that do not exist yet are made first
        let x = f[sx % f.len()].clone();
        let y = f[sy % f.len()].clone();
        let needs_b = matches!(op, 17..=18 | 22..=24 | 32..=33 | 16);
        if needs_b && b.is_empty() {
            let w = BA::witness(cs, (v & 1) as u8);
            recs.push(Rec { op: "bit", ins: vec![], outs: vec![br(&w)], n: 0, c: Fe::zero(), pt: None, ws: (from, cs.m_l_1()), sub: vec![] });
            b.push(w);
        }
        if matches!(op, 11 | 12 | 14) && words.is_empty() {
            let from = cs.m_l_1();
            let n = [256, 8, 64, 128][v as usize % 4];
            let w = FA::<S>::to_bits(cs, &x, n);
            recs.push(Rec { op: "to_bits", ins: vec![fr(&x)], outs: w.iter().map(br).collect(), n, c: Fe::zero(), pt: None, ws: (from, cs.m_l_1()), sub: vec![(from, 0)] });
            words.push(w);
        }
        if matches!(op, 28..=34) && q.is_empty() {
            let from = cs.m_l_1();
            let w = wit_pt(cs, &point(v));
            recs.push(Rec { op: "point", ins: vec![], outs: pr(&w), n: 0, c: Fe::zero(), pt: None, ws: (from, cs.m_l_1()), sub: vec![] });
            q.push(w);
        }
        rec.ws.0 = cs.m_l_1();
        let bit = |k: usize| b[k % b.len()].clone();
        let pnt = |k: usize| q[k % q.len()].clone();
        // a fresh witness equal to x, or not
        let twin = |cs: &mut R1cs<S::D>, bad: bool| {
            let t = x.value(cs);
            FA::<S>::witness(cs, if bad { t + one } else { t })
        };
        let bad = v % 16 == 15;
        match op {
            0 => {
                f.push(FA::<S>::witness(cs, real::<S>(value(v))));
            }
            1 => f.push(FA::<S>::instance(cs, real::<S>(value(v)))),
            2 => f.push(FA::<S>::constant(&real::<S>(value(v)))),
            3 | 8 => {
                let o = FA::<S>::mul(cs, &x, &y);
                rec = Rec { op: "mul", ins: vec![fr(&x), fr(&y)], outs: vec![fr(&o)], ..rec };
                f.push(o);
            }
            4 => {
                let o = FA::<S>::add(cs, &x, &y);
                rec = Rec { op: "add", ins: vec![fr(&x), fr(&y)], outs: vec![fr(&o)], ..rec };
                f.push(o);
            }
            5 => {
                let o = &x + &y;
                rec = Rec { op: "add", ins: vec![fr(&x), fr(&y)], outs: vec![fr(&o)], ..rec };
                f.push(o);
            }
            6 => {
                let o = &x - &y;
                rec = Rec { op: "sub", ins: vec![fr(&x), fr(&y)], outs: vec![fr(&o)], ..rec };
                f.push(o);
            }
            7 => {
                let o = FA::<S>::square(cs, &x);
                rec = Rec { op: "mul", ins: vec![fr(&x), fr(&x)], outs: vec![fr(&o)], ..rec };
                f.push(o);
            }
            9 => {
                let o = FA::<S>::inputize(cs, x.clone());
                rec = Rec { op: "same", ins: vec![fr(&x)], outs: vec![fr(&o)], ..rec };
                f.push(o);
            }
            10 => {
                let n = match v % 5 {
                    0 => 256,
                    1 => 1,
                    2 => 254,
                    _ => 1 + (v / 5 % 256) as usize,
                };
                let o = FA::<S>::to_bits(cs, &x, n);
                rec = Rec { op: "to_bits", ins: vec![fr(&x)], outs: o.iter().map(br).collect(), n, sub: vec![(rec.ws.0, 0)], ..rec };
                b.push(o[0].clone());
                b.push(o[o.len() - 1].clone());
                words.push(o);
            }
            11 | 12 if !words.is_empty() => {
                let w = words[sx % words.len()].clone();
                let val = w.iter().fold(Fe::<S::M>::zero(), |a, t| a + a + model::<S>(&FA::<S>::from(t).value(cs)));
                let ins = w.iter().map(br).collect();
                if op == 11 {
                    let c = match v % 8 {
                        0 | 1 => val,
                        2 => val - Fe::one(),
                        3 => val + Fe::one(),
                        4 => -Fe::<S::M>::one(),
                        5 => Fe::two_pow((v / 8 % 254) as u32),
                        _ => value(v / 8),
                    };
                    if !c.is_zero() {
                        FA::<S>::range_check(cs, &w, real::<S>(c));
                        rec = Rec { op: "range", ins, c, ..rec };
                    }
                } else {
                    let k = 1 + v / 4 % 253;
                    FA::<S>::range_check_bits(cs, &w, k);
                    rec = Rec { op: "range", ins, c: Fe::two_pow(k as u32) - Fe::one(), ..rec };
                }
            }
            13 => {
                let t = twin(cs, bad);
                FA::<S>::enforce_eq(cs, &x, &t);
                rec = Rec { op: "eq", ins: vec![fr(&x), fr(&t)], ..rec };
            }
            14 if !words.is_empty() => {
                let w = words[sx % words.len()].clone();
                let val = w.iter().fold(Fe::<S::M>::zero(), |a, t| a + a + model::<S>(&FA::<S>::from(t).value(cs)));
                let t = FA::<S>::witness(cs, real::<S>(if bad { val + Fe::one() } else { val }));
                FA::<S>::enforce_eq_bits(cs, &t, &w);
                let mut ins = vec![fr(&t)];
                ins.extend(w.iter().map(br));
                rec = Rec { op: "eq_bits", ins, ..rec };
            }
            15 => {
                let c = model::<S>(&x.value(cs)) + if bad { Fe::one() } else { Fe::zero() };
                let c = if x.inner().as_constant().is_some() || v % 4 != 0 { c } else { value(v) };
                FA::<S>::enforce_eq_constant(cs, &x, &real::<S>(c));
                rec = Rec { op: "eq_const", ins: vec![fr(&x)], c, ..rec };
            }
            16 => {
                let e = bit(sy);
                let t = twin(cs, v % 4 == 0);
                FA::<S>::conditional_enforce_equal(cs, &x, &t, &e);
                rec = Rec { op: "cond_eq", ins: vec![fr(&x), fr(&t), br(&e)], ..rec };
            }
            17 => {
                let (s, t, e) = (bit(sx), bit(sy), bit(v as usize));
                BA::conditional_enforce_equal(cs, &s, &t, &e);
                rec = Rec { op: "cond_eq", ins: vec![br(&s), br(&t), br(&e)], ..rec };
            }
            18 => {
                let e = bit(v as usize);
                let o = FA::<S>::conditional_select(cs, &x, &y, &e);
                rec = Rec { op: "select", ins: vec![fr(&x), fr(&y), br(&e)], outs: vec![fr(&o)], ..rec };
                f.push(o);
            }
            19 | 20 => {
                let y = match v % 3 {
                    0 => y,
                    1 => twin(cs, false),
                    _ => twin(cs, true),
                };
                rec.ws.0 = cs.m_l_1();
                let o = if op == 19 { FA::<S>::is_eq(cs, &x, &y) } else { FA::<S>::is_neq(cs, &x, &y) };
                rec = Rec { op: if op == 19 { "is_eq" } else { "is_neq" }, ins: vec![fr(&x), fr(&y)], outs: vec![br(&o)], ..rec };
                b.push(o);
            }
            21 => {
                let w = BA::witness(cs, (v & 1) as u8);
                rec = Rec { op: "bit", outs: vec![br(&w)], ..rec };
                b.push(w);
            }
            22 => {
                let s = bit(sx);
                let o = BA::not(cs, &s);
                rec = Rec { op: "not", ins: vec![br(&s)], outs: vec![br(&o)], ..rec };
                b.push(o);
            }
            23 => {
                let (s, t) = (bit(sx), bit(sy));
                let o = BA::and(cs, &s, &t);
                rec = Rec { op: "and", ins: vec![br(&s), br(&t)], outs: vec![br(&o)], ..rec };
                b.push(o);
            }
            24 => f.push(FA::<S>::from(&bit(sx))),
            25 => b.push(BA::instance(cs, (v & 1) as u8)),
            26 => {
                let w = wit_pt(cs, &point(v));
                rec = Rec { op: "point", outs: pr(&w), ..rec };
                q.push(w);
            }
            27 => q.push(S::public(cs, &point(v))),
            28 => {
                let (s, t) = (pnt(sx), pnt(sy));
                let o = s.add(&t, cs);
                rec = Rec { op: "point add", ins: [pr(&s), pr(&t)].concat(), outs: pr(&o), ..rec };
                q.push(o);
            }
            29 => {
                let s = pnt(sx);
                let o = s.double(cs);
                rec = Rec { op: "point double", ins: pr(&s), outs: pr(&o), ..rec };
                q.push(o);
            }
            30 => {
                let s = pnt(sx);
                let o = s.scalar_point(cs, &x);
                rec = Rec { op: "point scale", ins: [pr(&s), vec![fr(&x)]].concat(), outs: pr(&o), sub: vec![(rec.ws.0, 0)], ..rec };
                q.push(o);
            }
            31 => {
                let s = pnt(sx);
                let o = s.descale(cs);
                rec = Rec { op: "descale", ins: pr(&s), outs: pr(&o), ..rec };
                q.push(o);
            }
            32 => {
                let (s, t, e) = (pnt(sx), pnt(sy), bit(v as usize));
                let o = PointAssignment::conditional_select(cs, &s, &t, &e);
                rec = Rec { op: "point select", ins: [pr(&s), pr(&t), vec![br(&e)]].concat(), outs: pr(&o), ..rec };
                q.push(o);
            }
            33 => {
                let (s, e) = (pnt(sx), bit(v as usize));
                let o = s.select_identity(cs, &e);
                rec = Rec { op: "point or identity", ins: [pr(&s), vec![br(&e)]].concat(), outs: pr(&o), ..rec };
                q.push(o);
            }
            34 => {
                let s = pnt(sx);
                let have: Vec<_> = [s.get_x(), s.get_y(), s.get_z()].iter().map(|t| model::<S>(&t.value(cs))).collect();
                let p = affine(&have).unwrap_or(None);
                let p = if bad { point(v / 16) } else { p };
                let z = value::<S::M>(v / 16);
                S::assert_public(&s, cs, &p, if v % 3 == 0 && !z.is_zero() { z } else { Fe::one() });
                rec = Rec { op: "point eq", ins: pr(&s), pt: p, ..rec };
            }
            35 | 36 => {
                let (a, c) = (model::<S>(&x.value(cs)), model::<S>(&y.value(cs)));
                let k = v / 16 % 4;
                let o = match k {
                    0 => a * c,
                    1 => a + c,
                    2 => a - c,
                    _ => a,
                };
                let w = FA::<S>::witness(cs, real::<S>(if bad { o + Fe::one() } else { o }));
                match k {
                    0 => cs.mul_gate(x.inner(), y.inner(), w.inner()),
                    1 => cs.add_gate(x.inner(), y.inner(), w.inner()),
                    2 => cs.sub_gate(x.inner(), y.inner(), w.inner()),
                    _ => cs.equal_gate(x.inner(), w.inner()),
                }
                rec = Rec { op: ["mul", "add", "sub", "same"][k as usize], ins: vec![fr(&x), fr(&y)], outs: vec![fr(&w)], ..rec };
                f.push(w);
            }
            37 => {
                // coordinates off the curve
                if v % 4 == 0 {
                    let p = point(v / 4 | 1).unwrap_or((Fe::zero(), Fe::one()));
                    let w = PointAssignment::witness(cs, real::<S>(p.0), real::<S>(p.1 + Fe::one()), v % 8 == 0);
                    rec = Rec { op: "point", outs: pr(&w), ..rec };
                } else {
                    let o = -&x;
                    rec = Rec { op: "neg", ins: vec![fr(&x)], outs: vec![fr(&o)], ..rec };
                    f.push(o);
                }
            }
            _ => {}
        }
        rec.ws.1 = cs.m_l_1();
        if !rec.op.is_empty() {
            recs.push(rec);
        }
    }
    (cs.clone(), recs)
}

fn affine<M: Modulus>(p: &[Fe<M>]) -> Result<Pt<Fe<M>>, String> {
    if p[2].is_zero() {
        return if p[0].is_zero() && !p[1].is_zero() { Ok(None) } else { Err(format!("({:?}, {:?}, 0) is not a point", p[0], p[1])) };
    }
    let i = p[2].inv();
    Ok(Some((p[0] * i, p[1] * i)))
}

/// Does the result stand for the function of the operands?
fn judge<S: Gad>(r: &Rec<S::M>, g: &Forge<S>) -> Result<(), String> {
    let i: Vec<Fe<S::M>> = r.ins.iter().map(|x| g.val(x)).collect();
    let o: Vec<Fe<S::M>> = r.outs.iter().map(|x| g.val(x)).collect();
    let (zero, one) = (Fe::<S::M>::zero(), Fe::<S::M>::one());
    let bool_of = |v: &Fe<S::M>| if *v == zero { Ok(false) } else if *v == one { Ok(true) } else { Err(format!("{v:?} is not a bit")) };
    let must_be = |want: Fe<S::M>| if o[0] == want { Ok(()) } else { Err(format!("{} of {i:?} is {:?}, not {want:?}", r.op, o[0])) };
    let bit = |b: bool| if b { one } else { zero };
    let pt = |want: Pt<Fe<S::M>>| {
        let have = affine(&o)?;
        if have == want {
            Ok(())
        } else {
            Err(format!("{} of {i:?} is {have:?}, not {want:?}", r.op))
        }
    };
    match r.op {
        "bit" => bool_of(&o[0]).map(|_| ()),
        "point" => {
            if (o[0], o[1], o[2]) == (zero, one, zero) {
                return Ok(());
            }
            if o[2] != one || !model::on_curve(&Some((o[0], o[1])), S::curve_b()) {
                return Err(format!("({:?}, {:?}, {:?}) is not a point of the curve", o[0], o[1], o[2]));
            }
            Ok(())
        }
        "mul" => must_be(i[0] * i[1]),
        "add" => must_be(i[0] + i[1]),
        "sub" => must_be(i[0] - i[1]),
        "neg" => must_be(-i[0]),
        "same" => must_be(i[0]),
        "to_bits" => {
            let have = o.iter().map(bool_of).collect::<Result<Vec<_>, _>>()?;
            let want = bits_of(i[0].int(), r.n);
            if have == want {
                Ok(())
            } else {
                Err(format!("the bits of {:?} are wrong", i[0]))
            }
        }
        "range" => {
            let have = i.iter().map(bool_of).collect::<Result<Vec<_>, _>>()?;
            let want = bits_of(r.c.int(), 256);
            // pad to 256 and compare as numbers, most significant bit first
            let have: Vec<bool> = std::iter::repeat(false).take(256 - have.len()).chain(have).collect();
            if have <= want {
                Ok(())
            } else {
                Err(format!("the bits are above {:?}", r.c))
            }
        }
        "eq" => if i[0] == i[1] { Ok(()) } else { Err(format!("{:?} passes for {:?}", i[0], i[1])) },
        "eq_const" => if i[0] == r.c { Ok(()) } else { Err(format!("{:?} passes for the constant {:?}", i[0], r.c)) },
        "eq_bits" => {
            let s = i[1..].iter().fold(zero, |a, b| a + a + *b);
            if s == i[0] { Ok(()) } else { Err(format!("{:?} passes for the bits of {s:?}", i[0])) }
        }
        "cond_eq" => if !bool_of(&i[2])? || i[0] == i[1] { Ok(()) } else { Err(format!("{:?} passes for {:?}", i[0], i[1])) },
        "select" => must_be(if bool_of(&i[2])? { i[0] } else { i[1] }),
        "is_eq" => must_be(bit(i[0] == i[1])),
        "is_neq" => must_be(bit(i[0] != i[1])),
        "not" => must_be(bit(!bool_of(&i[0])?)),
        "and" => must_be(bit(bool_of(&i[0])? && bool_of(&i[1])?)),
        "point add" => pt(model::add(affine(&i[..3])?, affine(&i[3..])?)),
        "point double" => {
            let p = affine(&i)?;
            pt(model::add(p, p))
        }
        "point scale" => pt(model::mul(affine(&i[..3])?, i[3].int())),
        "descale" => {
            pt(affine(&i)?)?;
            if o[2] == one || (o[0], o[1], o[2]) == (zero, one, zero) { Ok(()) } else { Err("the result is not normalised".into()) }
        }
        "point select" => pt(if bool_of(&i[6])? { affine(&i[..3])? } else { affine(&i[3..6])? }),
        "point or identity" => pt(if bool_of(&i[3])? { affine(&i[..3])? } else { None }),
        "point eq" => {
            let p = affine(&i)?;
            if p == r.pt { Ok(()) } else { Err(format!("{p:?} passes for {:?}", r.pt)) }
        }
        x => unreachable!("{x}"),
    }
}

pub fn run_g07(p: &Plan) {
    if p.get("side") == 0 {
        go::<Bn>(p)
    } else {
        go::<Gk>(p)
    }
}

fn go<S: Gad>(p: &Plan) {
    let ops: Vec<Op> = p.ops.iter().filter(|o| o.k == "ga").cloned().collect();
    let (cs, recs) = must("building the system", || build::<S>(&ops));
    let honest = Forge::<S>::of(&cs);
    let sat = cs.is_sat();
    check(sat == honest.sat(), "wrong-verdict", || format!("is_sat says {sat} of a system for which the opposite holds"));
    let wrong: Vec<String> = recs.iter().filter_map(|r| judge::<S>(r, &honest).err()).collect();
    if sat {
        check(wrong.is_empty(), "wrong-result", || format!("satisfied, but {}", wrong[0]));
        probe("honest assignment satisfies");
    } else {
        check(!wrong.is_empty(), "honest-unsatisfied", || format!("the honest assignment of {:?} does not satisfy the system", recs.iter().map(|r| r.op).collect::<Vec<_>>()));
        probe("false statement refused");
    }
    for r in &recs {
        probe(&format!("gadget {}", r.op));
    }
    let nw = cs.m_l_1();
    if nw == 0 {
        return;
    }
    for (t, o) in p.ops.iter().filter(|o| o.k == "fault").enumerate() {
        let (mode, rec, off, kind, seed, whole) = (o.arg(0), o.arg(1), o.arg(2), o.arg(3), o.arg(4), o.arg(5));
        let mut r = Rng::new(seed);
        let Some(re) = recs.get(rec as usize % recs.len().max(1)) else { continue };
        let (lo, hi) = if re.ws.0 < re.ws.1 { re.ws } else { (0, nw) };
        let at = if r.chance(1, 3) { hi - 1 - (off as usize % (hi - lo)).min(4) % (hi - lo) } else { lo + off as usize % (hi - lo) };
        let (mut real_cs, mut g);
        let mut its = None;
        if mode == 0 {
            fault("memory corrupted while assigning");
            zkstd::r1cs::sim::arm(at as u64, 1 + r.below(3), kind);
            let made = guard(|| build::<S>(&ops));
            zkstd::r1cs::sim::disarm();
            let Ok((c, rs)) = made else {
                probe("corrupted prover gave up");
                continue;
            };
            g = Forge::<S>::of(&c);
            real_cs = c;
            its = Some(rs);
            check(g.same_shape(&honest) || p.ops.iter().any(|o| o.k == "ga" && matches!(o.arg(0) % OPS, 11 | 15 | 34)), "shape-depends-on-values", || "the constraints depend on the assigned values".into());
            if !g.same_shape(&honest) {
                continue;
            }
        } else {
            real_cs = cs.clone();
            g = Forge::<S>::of(&cs);
            let mut held = vec![];
            let wrap = mode == 2 && !re.sub.is_empty();
            if wrap {
                fault("other bits for the same value");
                let w0 = re.sub[0].0;
                let x = g.val(&re.ins[re.ins.len() - 1]).int();
                let mut s = x;
                for _ in 0..1 + r.below(3) {
                    let mut c = 0u128;
                    let mut t = [0u64; 4];
                    for j in 0..4 {
                        let v = s[j] as u128 + <S::M as Modulus>::P[j] as u128 + c;
                        t[j] = v as u64;
                        c = v >> 64;
                    }
                    if c == 0 {
                        s = t;
                    }
                }
                for (j, b) in bits_of(s, 256).into_iter().enumerate() {
                    g.z[g.l + w0 + j] = if b { Fe::one() } else { Fe::zero() };
                    held.push(g.l + w0 + j);
                }
            } else {
                fault("memory corrupted after assigning");
                for k in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                    let at = g.l + if k == 0 { at } else { lo + r.below((hi - lo) as u64) as usize };
                    let v = g.z[at];
                    g.z[at] = match kind % 10 {
                        0 | 8 | 9 => Fe::one() - v,
                        1 => Fe::zero(),
                        2 => Fe::one(),
                        3 => -v,
                        4 => v + Fe::one(),
                        5 => v + Fe::two_pow(r.below(254) as u32),
                        6 => g.z[r.below(g.z.len() as u64) as usize],
                        _ => value(r.u64()),
                    };
                    held.push(at);
                }
            }
            // what the forger may change to cover up: everything, what came
            // later, or only the gadget's own values
            let done = if r.chance(1, 3) {
                let x = g.z[..g.l].to_vec();
                g.resolve(&held, &mut r, 4000) && g.z[..g.l] == x[..]
            } else {
                g.repair(&held, if whole == 0 { 0 } else { lo }, &mut r, 4000)
            };
            if !done {
                probe("forgery given up");
                continue;
            }
            g.store(&mut real_cs);
        }
        if g.z == honest.z {
            probe("forgery undone by repair");
            continue;
        }
        let ok = real_cs.is_sat();
        check(ok == g.sat(), "wrong-verdict", || format!("is_sat says {ok} of forged values for which the opposite holds"));
        if !ok {
            probe("forged assignment refused");
            continue;
        }
        for re in its.as_ref().unwrap_or(&recs) {
            if let Err(e) = judge::<S>(re, &g) {
                violate("unsound", format!("forgery {t} satisfies the system, but {e}"));
            }
        }
        probe("another assignment, right results");
    }
    ev(&format!("{} constraints", cs.m()));
}
