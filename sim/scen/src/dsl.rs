//! Circuits as data. A program is a list of steps over the public gadgets; the
//! same program is run by the model (which knows every value and whether all
//! constraints hold) and by the real gadgets (which build the constraint system).
use bn_254::Fr;
use model::{Fr as MFr, Pt};
use simcore::{derive, Op, Plan, Rng};
use zkstd::circuit::prelude::{BinaryAssignment, FieldAssignment, PointAssignment, R1cs};
use zkstd::circuit::CircuitDriver;
use zkstd::common::{BNProjective, CurveGroup, PrimeField};

pub const NOPS: u64 = 37;

#[derive(Clone, Debug)]
pub struct St {
    pub op: u64,
    pub x: usize,
    pub y: usize,
    pub v: u64,
}

pub fn fr(v: MFr) -> Fr {
    Fr::to_mont_form(v.int())
}
pub fn mfr(v: &Fr) -> MFr {
    let b = v.to_raw_bytes();
    let mut l = [0u64; 4];
    for i in 0..4 {
        l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    MFr::from_int(l)
}

/// A value chosen by a selector; biased to the boundary values.
pub fn val(sel: u64, variant: u64) -> MFr {
    let seed = derive(sel, "val", variant);
    let s = if variant == 0 { sel } else { sel.wrapping_add(seed % 97) };
    let mut r = Rng::new(seed);
    let k = (s / 13 % 254) as u32;
    match s % 13 {
        0 => MFr::zero(),
        1 => MFr::one(),
        2 => MFr::from_u64(2),
        3 => -MFr::one(),
        4 => -MFr::from_u64(2),
        5 => MFr::two_pow(k),
        6 => MFr::two_pow(k) - MFr::one(),
        7 => MFr::from_u64(2).inv(),
        8 => -MFr::from_u64(2).inv(),
        9 => MFr::from_u64(s / 13 % 1000),
        10 => MFr::from_u64(r.u64()),
        _ => MFr::from_int([r.u64(), r.u64(), r.u64(), r.u64() >> 3]),
    }
}

#[derive(Clone, Debug, Default)]
pub struct Eval {
    /// the value each step assigns (zero where it assigns none)
    pub vals: Vec<MFr>,
    pub pubs: Vec<MFr>,
    /// do all constraints hold?
    pub sat: bool,
    /// steps whose assigned value is free (a prover could choose it)
    pub free: Vec<usize>,
}

#[derive(Clone)]
struct MF {
    v: MFr,
    konst: bool,
}
#[derive(Clone)]
struct MB {
    v: bool,
    var: bool,
}

fn grumpkin_gen() -> Pt<MFr> {
    Some((MFr::one(), {
        // sqrt(-16) = 4 * sqrt(-1): the generator used by the system
        let g = grumpkin::Affine::from(<grumpkin::Projective as zkstd::common::Group>::ADDITIVE_GENERATOR);
        let y = mfr(&g.get_y());
        assert!(y * y == MFr::one() + model::b_grumpkin(), "HARNESS grumpkin generator");
        y
    }))
}

pub fn small_point(k: u64) -> Pt<MFr> {
    let k = k % 9;
    if k == 0 {
        None
    } else {
        model::mul(grumpkin_gen(), [k, 0, 0, 0])
    }
}

fn chain_len(v: u64) -> u64 {
    1 + v % 40
}
fn small_bits(v: u64) -> usize {
    1 + (v % 60) as usize
}

/// Runs the program in the model. With `over`, the free values are taken from
/// there instead (what a dishonest prover would do).
pub fn eval(p: &[St], variant: u64, over: Option<&[MFr]>) -> Eval {
    let mut e = Eval { vals: vec![], pubs: vec![], sat: true, free: vec![] };
    let mut f = vec![MF { v: MFr::one(), konst: true }];
    let mut b = vec![MB { v: true, var: false }];
    let mut q: Vec<(Pt<MFr>, bool)> = vec![(small_point(1), false)];
    for (i, s) in p.iter().enumerate() {
        let x = f[s.x % f.len()].clone();
        let y = f[s.y % f.len()].clone();
        let bx = b[s.x % b.len()].clone();
        let by = b[s.y % b.len()].clone();
        let px = q[s.x % q.len()].clone();
        let py = q[s.y % q.len()].clone();
        // the honest value of a free assignment, or the overriding one
        let mut free = |e: &mut Eval, honest: MFr| -> MFr {
            e.free.push(i);
            over.map_or(honest, |o| o[i])
        };
        let mut assigned = MFr::zero();
        match s.op % NOPS {
            0 => {
                assigned = free(&mut e, val(s.v, variant));
                e.pubs.push(assigned);
                f.push(MF { v: assigned, konst: false });
            }
            1 => {
                assigned = free(&mut e, val(s.v, variant));
                f.push(MF { v: assigned, konst: false });
            }
            2 => f.push(MF { v: val(s.v, 0), konst: true }),
            3 => f.push(MF { v: x.v * y.v, konst: x.konst && y.konst }),
            4 => f.push(MF { v: x.v + y.v, konst: x.konst && y.konst }),
            5 => f.push(MF { v: x.v + y.v, konst: x.konst && y.konst }),
            6 => f.push(MF { v: x.v - y.v, konst: x.konst && y.konst }),
            7 => {
                assigned = free(&mut e, x.v);
                e.pubs.push(assigned);
                e.sat &= assigned == x.v;
            }
            8 => e.pubs.push(x.v),
            9 => {
                assigned = free(&mut e, x.v);
                e.sat &= assigned == x.v;
            }
            10 => {
                if x.konst {
                    assigned = x.v;
                }
            }
            11 => {}
            12 => {
                let n = small_bits(s.v);
                let h = derive(s.v, "small", variant) & ((1u64 << n) - 1);
                assigned = free(&mut e, MFr::from_u64(h));
                let a = assigned.int();
                e.sat &= a[1] == 0 && a[2] == 0 && a[3] == 0 && a[0] >> n == 0;
                f.push(MF { v: assigned, konst: false });
                b.push(MB { v: a[0] & 1 == 1, var: true });
            }
            13 => b.push(MB { v: s.v & 1 == 1, var: false }),
            14 => {
                b.push(MB { v: s.v & 1 == 1, var: false });
                e.pubs.push(MFr::from_u64(s.v & 1));
            }
            15 => b.push(MB { v: x.v == y.v, var: true }),
            16 => b.push(MB { v: x.v != y.v, var: true }),
            17 => b.push(MB { v: !bx.v, var: bx.var }),
            18 => b.push(MB { v: bx.v && by.v, var: bx.var || by.var }),
            19 => f.push(MF { v: if bx.v { x.v } else { y.v }, konst: false }),
            20 => {
                let h = if bx.v { x.v } else { x.v + MFr::from_u64(7) };
                assigned = free(&mut e, h);
                e.sat &= !bx.v || assigned == x.v;
            }
            21 => f.push(MF { v: MFr::from_u64(bx.v as u64), konst: false }),
            22 => q.push((small_point(s.v), false)),
            23 => {
                let p = small_point(s.v);
                let (a, c) = p.unwrap_or((MFr::zero(), MFr::one()));
                e.pubs.extend([a, c, MFr::from_u64(p.is_some() as u64)]);
                q.push((p, false));
            }
            24 => q.push((model::add(px.0, py.0), px.1 || py.1)),
            25 => q.push((model::add(px.0, px.0), px.1)),
            26 => {}
            27 => {
                // select a point; a varying condition makes the result vary
                q.push((if bx.v { px.0 } else { py.0 }, px.1 || py.1 || bx.var));
            }
            28 => q.push((px.0, px.1)),
            29 => {
                assigned = free(&mut e, x.v * y.v);
                e.sat &= assigned == x.v * y.v;
                f.push(MF { v: assigned, konst: false });
            }
            30 => {
                assigned = free(&mut e, x.v + y.v);
                e.sat &= assigned == x.v + y.v;
                f.push(MF { v: assigned, konst: false });
            }
            31 => {
                assigned = free(&mut e, x.v - y.v);
                e.sat &= assigned == x.v - y.v;
                f.push(MF { v: assigned, konst: false });
            }
            32 => {
                assigned = free(&mut e, x.v);
                e.sat &= assigned == x.v;
            }
            33 => {
                let mut v = x.v;
                for _ in 0..chain_len(s.v) {
                    v = v * v + y.v;
                }
                f.push(MF { v, konst: x.konst && y.konst });
            }
            34 => f.push(MF { v: x.v * x.v, konst: x.konst }),
            35 => f.push(MF { v: x.v * val(s.v, 0), konst: x.konst }),
            _ => {}
        }
        e.vals.push(assigned);
    }
    e
}

/// Runs the program with the real gadgets. `hook` is called before each step.
pub fn synth<D: CircuitDriver<Scalar = Fr>, E>(
    p: &[St],
    vals: &[Fr],
    zero: bool,
    cs: &mut R1cs<D>,
    mut hook: impl FnMut(usize) -> Result<(), E>,
) -> Result<(), E> {
    type FA = FieldAssignment<Fr>;
    type BA = BinaryAssignment;
    let k = |v: &Fr| FA::constant(v);
    let mut f: Vec<FA> = vec![k(&Fr::one())];
    let mut b: Vec<(BA, bool)> = vec![];
    let mut q: Vec<(PointAssignment<Fr>, Pt<MFr>, bool)> = vec![];
    // the first bit and point, as in the model; programs that use neither get
    // placeholders outside the system, so that tiny systems exist
    let uses = |ops: &[u64]| p.iter().any(|s| ops.contains(&(s.op % NOPS)));
    let mut aside: R1cs<D> = R1cs::default();
    b.push((if uses(&[17, 18, 19, 20, 21, 27, 36]) { BA::witness(cs, if zero { 0 } else { 1 }) } else { BA::witness(&mut aside, 1) }, false));
    let pt = |cs: &mut R1cs<D>, p: Pt<MFr>| {
        let (x, y) = p.unwrap_or((MFr::zero(), MFr::one()));
        PointAssignment::witness(cs, fr(x), fr(y), p.is_none())
    };
    let g = small_point(1);
    q.push((if uses(&[24, 25, 26, 27, 28]) { pt(cs, g) } else { pt(&mut aside, g) }, g, false));
    // model values are needed for constant assertions only; follow them here
    let mut kv: Vec<(MFr, bool)> = vec![(MFr::one(), true)];
    let mut bv: Vec<(bool, bool)> = vec![(true, false)];
    for (i, s) in p.iter().enumerate() {
        hook(i)?;
        let x = f[s.x % f.len()].clone();
        let y = f[s.y % f.len()].clone();
        let (kx, ky) = (kv[s.x % kv.len()], kv[s.y % kv.len()]);
        let bx = b[s.x % b.len()].0.clone();
        let by = b[s.y % b.len()].0.clone();
        let (vbx, vby) = (bv[s.x % bv.len()], bv[s.y % bv.len()]);
        let px = q[s.x % q.len()].clone();
        let py = q[s.y % q.len()].clone();
        let v = vals[i];
        let kk = |v: MFr, c: bool| (if c { v } else { MFr::zero() }, c);
        match s.op % NOPS {
            0 => {
                f.push(FA::instance(cs, v));
                kv.push(kk(MFr::zero(), false));
            }
            1 => {
                f.push(FA::witness(cs, v));
                kv.push(kk(MFr::zero(), false));
            }
            2 => {
                let c = val(s.v, 0);
                f.push(k(&fr(c)));
                kv.push((c, true));
            }
            3 => {
                f.push(FA::mul(cs, &x, &y));
                kv.push(kk(kx.0 * ky.0, kx.1 && ky.1));
            }
            4 => {
                f.push(FA::add(cs, &x, &y));
                kv.push(kk(kx.0 + ky.0, kx.1 && ky.1));
            }
            5 => {
                f.push(&x + &y);
                kv.push(kk(kx.0 + ky.0, kx.1 && ky.1));
            }
            6 => {
                f.push(&x - &y);
                kv.push(kk(kx.0 - ky.0, kx.1 && ky.1));
            }
            7 => {
                let o = FA::instance(cs, v);
                FA::enforce_eq(cs, &x, &o);
            }
            8 => {
                let o = FA::inputize(cs, x.clone());
                FA::enforce_eq(cs, &x, &o);
            }
            9 => {
                let w = FA::witness(cs, v);
                FA::enforce_eq_constant(cs, &(&x - &w), &Fr::zero());
            }
            10 => {
                if kx.1 {
                    FA::enforce_eq_constant(cs, &x, &fr(kx.0));
                }
            }
            11 => {
                let bits = FA::to_bits(cs, &x, 256);
                FA::enforce_eq_bits(cs, &x, &bits);
            }
            12 => {
                let n = small_bits(s.v);
                let w = FA::witness(cs, v);
                let bits = FA::to_bits(cs, &w, n);
                FA::enforce_eq_bits(cs, &w, &bits);
                f.push(w);
                kv.push(kk(MFr::zero(), false));
                b.push((bits[n - 1].clone(), true));
                bv.push((false, true));
            }
            13 => {
                b.push((BA::witness(cs, if zero { 0 } else { (s.v & 1) as u8 }), false));
                bv.push((s.v & 1 == 1, false));
            }
            14 => {
                b.push((BA::instance(cs, if zero { 0 } else { (s.v & 1) as u8 }), false));
                bv.push((s.v & 1 == 1, false));
            }
            15 => {
                b.push((FA::is_eq(cs, &x, &y), true));
                bv.push((false, true));
            }
            16 => {
                b.push((FA::is_neq(cs, &x, &y), true));
                bv.push((false, true));
            }
            17 => {
                b.push((BA::not(cs, &bx), vbx.1));
                bv.push((!vbx.0, vbx.1));
            }
            18 => {
                b.push((BA::and(cs, &bx, &by), vbx.1 || vby.1));
                bv.push((vbx.0 && vby.0, vbx.1 || vby.1));
            }
            19 => {
                f.push(FA::conditional_select(cs, &x, &y, &bx));
                kv.push(kk(MFr::zero(), false));
            }
            20 => {
                let w = FA::witness(cs, v);
                FA::conditional_enforce_equal(cs, &x, &w, &bx);
            }
            21 => {
                f.push(FA::from(&bx));
                kv.push(kk(MFr::zero(), false));
            }
            22 => {
                let p = small_point(s.v);
                q.push((pt(cs, p), p, false));
            }
            23 => {
                let p = small_point(s.v);
                let (a, c) = p.unwrap_or((MFr::zero(), MFr::one()));
                let a = match p {
                    None => <grumpkin::Affine as zkstd::common::Group>::ADDITIVE_IDENTITY,
                    Some(_) => grumpkin::Affine::from_x_and_y(fr(a), fr(c)),
                };
                q.push((PointAssignment::instance(cs, a), p, false));
            }
            24 => {
                let r = px.0.add(&py.0, cs);
                q.push((r, model::add(px.1, py.1), px.2 || py.2));
            }
            25 => {
                let r = px.0.double(cs);
                q.push((r, model::add(px.1, px.1), px.2));
            }
            26 => {
                if !px.2 {
                    let p = match px.1 {
                        None => <grumpkin::Projective as zkstd::common::Group>::ADDITIVE_IDENTITY,
                        Some((a, c)) => <grumpkin::Projective as BNProjective>::new_unchecked(fr(a), fr(c), Fr::one()),
                    };
                    px.0.assert_equal_public_point(cs, p);
                }
            }
            27 => {
                let r = PointAssignment::conditional_select(cs, &px.0, &py.0, &bx);
                q.push((r, if vbx.0 { px.1 } else { py.1 }, px.2 || py.2 || vbx.1));
            }
            28 => {
                let r = px.0.descale(cs);
                q.push((r, px.1, px.2));
            }
            29 | 30 | 31 => {
                let w = FA::witness(cs, v);
                match s.op % NOPS {
                    29 => cs.mul_gate(x.inner(), y.inner(), w.inner()),
                    30 => cs.add_gate(x.inner(), y.inner(), w.inner()),
                    _ => cs.sub_gate(x.inner(), y.inner(), w.inner()),
                }
                f.push(w);
                kv.push(kk(MFr::zero(), false));
            }
            32 => {
                let w = FA::witness(cs, v);
                cs.equal_gate(x.inner(), w.inner());
            }
            33 => {
                let mut a = x.clone();
                let mut c = kx.0;
                for _ in 0..chain_len(s.v) {
                    let t = FA::mul(cs, &a, &a);
                    a = &t + &y;
                    c = c * c + ky.0;
                }
                f.push(a);
                kv.push(kk(c, kx.1 && ky.1));
            }
            34 => {
                f.push(FA::square(cs, &x));
                kv.push(kk(kx.0 * kx.0, kx.1));
            }
            35 => {
                let c = val(s.v, 0);
                f.push(FA::mul(cs, &x, &k(&fr(c))));
                kv.push(kk(kx.0 * c, kx.1));
            }
            _ => BA::conditional_enforce_equal(cs, &bx, &bx, &by),
        }
    }
    hook(p.len())?;
    Ok(())
}

/// Draws a random program into the plan under the given operation name.
pub fn gen(r: &mut Rng, plan: &mut Plan, name: &str, circ: u64, big: bool) {
    if r.chance(1, 8) {
        // a tiny system: a few values and at most a few products
        for _ in 0..1 + r.below(3) {
            let op = *r.pick(&[0, 1, 1, 3, 3, 7, 8, 29, 30, 34]);
            plan.push(name, &[circ, op, if r.chance(2, 3) { (1 << 32) | r.below(2) } else { r.below(4) }, r.below(4), r.below(1 << 20)]);
        }
        return;
    }
    let n = match r.below(10) {
        0 => r.below(3),
        1..=4 => 2 + r.below(8),
        5..=8 => 6 + r.below(20),
        _ => 20 + r.below(40),
    };
    let mut heavy = if big { 4 } else { 1 };
    // swarm: each program uses a subset of the gadgets
    let mut mask: u64 = r.u64() | r.u64();
    mask |= 0b11;
    for _ in 0..n {
        let mut op = r.below(NOPS);
        if r.chance(1, 3) {
            op = *r.pick(&[0, 1, 3, 5, 6, 7, 29, 7]);
        }
        if mask >> (op % 64) & 1 == 0 {
            op = *r.pick(&[0, 1, 3, 7]);
        }
        if matches!(op, 11 | 33) {
            if heavy == 0 {
                op = 3;
            } else {
                heavy -= 1;
            }
        }
        let recent = r.chance(1, 2);
        let x = if recent { (1 << 32) | r.below(4) } else { r.below(1 << 16) };
        plan.push(name, &[circ, op, x, r.below(1 << 16), r.below(1 << 20)]);
    }
    // most programs end in a few outputs, so that everything is constrained
    for _ in 0..r.below(4) {
        plan.push(name, &[circ, *r.pick(&[7, 8, 9, 32]), r.below(1 << 16), 0, 0]);
    }
}

/// Draws a program of about `size` constraints, all of which matter.
pub fn large(r: &mut Rng, plan: &mut Plan, name: &str, circ: u64, mut size: u64) {
    for _ in 0..1 + r.below(4) {
        plan.push(name, &[circ, *r.pick(&[0, 0, 29]), 0, 0, r.below(1 << 20)]);
    }
    while size > 0 {
        let n = size.min(40);
        plan.push(name, &[circ, 33, 1 << 32, if r.chance(1, 2) { 1 << 32 } else { r.below(1 << 16) }, n - 1]);
        if r.chance(1, 12) {
            plan.push(name, &[circ, *r.pick(&[7, 0, 1, 3, 5]), 1 << 32, r.below(1 << 16), r.below(1 << 20)]);
        }
        size -= n;
    }
    plan.push(name, &[circ, 7, 1 << 32, 0, 0]);
}

pub fn program(ops: &[Op], name: &str, circ: u64) -> Vec<St> {
    let mut nf = 1usize;
    ops.iter()
        .filter(|o| o.k == name && o.arg(0) == circ)
        .map(|o| {
            let op = o.arg(1) % NOPS;
            // "recent" operands count from the end of the field stack
            let xa = o.arg(2);
            let x = if xa >> 32 != 0 { nf.saturating_sub(1 + (xa & 3) as usize) } else { xa as usize };
            if matches!(op, 0..=6 | 12 | 19 | 21 | 29..=31 | 33..=35) {
                nf += 1;
            }
            St { op, x, y: o.arg(3) as usize, v: o.arg(4) }
        })
        .collect()
}
