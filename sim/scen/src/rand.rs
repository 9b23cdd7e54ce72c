//! R01: sampling from faulty, shared, interrupted sources.
use crate::groth::must;
use crate::wire;
use bn_254::{Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G1Projective, G2Affine, G2Projective, Gt};
use grumpkin::{Affine as GkAffine, Projective as GkProjective};
use model::{Fe, Fld, Fq as MFq, Fq2 as MFq2, Fr as MFr, Modulus, Pt, Q, R};
use parity_scale_codec::Encode;
use rand_core::{OsRng, RngCore};
use simcore::*;
use std::sync::{Arc, Mutex};
use zkstd::common::{BNAffine, CurveGroup, Group};

const MODES: u64 = 13;
const KINDS: u64 = 19;

pub fn gen_r01(r: &mut Rng, seed: u64, thorough: bool) -> (Plan, Spec) {
    let mut p = Plan::new("R01").set("threads", r.below(4));
    for _ in 0..1 + r.below(4) {
        p.push("source", &[r.below(MODES), r.below(1 << 40), r.below(600), r.below(4)]);
    }
    for _ in 0..4 + r.below(if thorough { 40 } else { 20 }) {
        // fields more often than points
        let k = if r.chance(1, 2) { *r.pick(&[0, 1, 0, 1, 12, 13, 16, 17]) } else { r.below(KINDS) };
        p.push("draw", &[r.below(4), k, r.below(4), r.below(1 << 20)]);
    }
    let s = crate::groth::gen_spec(r, seed, 100);
    (p, s)
}

fn mul_small(p: [u64; 4], k: [u64; 4]) -> [u64; 8] {
    let mut o = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let t = o[i + j] as u128 + p[i] as u128 * k[j] as u128 + c;
            o[i + j] = t as u64;
            c = t >> 64;
        }
        o[i + 4] = c as u64;
    }
    o
}
fn shift(mut v: [u64; 8], d: i64) -> [u64; 8] {
    for _ in 0..d.unsigned_abs() {
        for l in v.iter_mut() {
            let (n, c) = if d > 0 { l.overflowing_add(1) } else { l.overflowing_sub(1) };
            *l = n;
            if !c {
                break;
            }
        }
    }
    v
}
/// 64 bytes around a multiple of a modulus.
fn boundary(r: &mut Rng) -> [u64; 8] {
    let p = if r.chance(1, 2) { R::P } else { Q::P };
    let k = match r.below(6) {
        0 => [r.below(4), 0, 0, 0],
        1 => [0, 0, 0, 1 << r.below(64)],
        2 => [u64::MAX; 4],
        3 => [r.u64(), r.u64(), r.u64(), r.u64()],
        4 => p,
        _ => [r.u64(), 0, 0, 0],
    };
    shift(mul_small(p, k), r.below(7) as i64 - 3)
}
/// Each half at an edge of its own.
fn halves(r: &mut Rng) -> [u64; 8] {
    let mut o = [0; 8];
    for h in 0..2 {
        let p = if r.chance(1, 2) { R::P } else { Q::P };
        let v: [u64; 4] = match r.below(7) {
            0 => [0; 4],
            1 => [u64::MAX; 4],
            2 => [1, 0, 0, 0],
            3 => [0, 0, 0, 1 << 63],
            4 => {
                let x = mul_small(p, [1 + r.below(5), 0, 0, 0]);
                let x = shift(x, r.below(5) as i64 - 2);
                [x[0], x[1], x[2], x[3]]
            }
            5 => p,
            _ => {
                let mut x = [0; 4];
                x[r.below(4) as usize] = u64::MAX;
                x
            }
        };
        o[4 * h..4 * h + 4].copy_from_slice(&v);
    }
    o
}

struct State {
    mode: u64,
    v: u64,
    at: u64,
    r: Rng,
    n: u64,
    fails: u64,
    block: Vec<u8>,
}

impl State {
    fn byte(&mut self) -> u8 {
        let n = self.n;
        self.n += 1;
        let h = if n % 8 == 0 || self.block.is_empty() { self.r.u64() } else { 0 };
        if n % 8 == 0 && self.mode != 8 && self.mode != 9 {
            self.block = h.to_le_bytes().to_vec();
        }
        let healthy = |b: &Vec<u8>| b.get((n % 8) as usize).copied().unwrap_or(0);
        match self.mode {
            1 => self.v as u8,
            2 => 0,
            3 => 0xff,
            4 => n as u8,
            5 => derive(self.v, "block", n % (8 * (1 + self.v % 9))) as u8,
            6 => (n % 64 == self.v % 64) as u8,
            7 => {
                if n < self.at {
                    healthy(&self.block)
                } else {
                    self.v as u8
                }
            }
            8 | 9 => {
                if n % 64 == 0 {
                    let l = if self.mode == 8 { boundary(&mut self.r) } else { halves(&mut self.r) };
                    self.block = l.iter().flat_map(|x| x.to_le_bytes()).collect();
                }
                self.block[(n % 64) as usize]
            }
            _ => healthy(&self.block),
        }
    }
}

/// One draw's view of a source: what this draw was given.
struct Handle {
    s: Arc<Mutex<State>>,
    got: Vec<u8>,
    os: bool,
}
impl Handle {
    /// a failing device: nothing of the request is delivered
    fn fails(&self, n: u64) -> bool {
        let mut s = self.s.lock().unwrap();
        let hit = s.mode >= 10 && s.mode < 12 && s.n <= s.at && s.n + n > s.at;
        if hit {
            s.fails += 1;
            s.at = if s.mode == 11 && s.fails < 6 { s.at + 8 + s.v % 200 } else { u64::MAX };
        }
        hit
    }
    fn take(&mut self, out: &mut [u8]) {
        if self.os {
            OsRng.fill_bytes(out);
        } else {
            for x in out.iter_mut() {
                *x = self.s.lock().unwrap().byte();
            }
        }
        self.got.extend_from_slice(out);
    }
}
impl RngCore for Handle {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        if self.fails(d.len() as u64) {
            fault("source failed in the middle of a draw");
            inject_panic();
        }
        harness(|| self.take(d))
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        if self.fails(d.len() as u64) {
            fault("source failed in the middle of a draw");
            return Err(std::num::NonZeroU32::new(rand_core::Error::CUSTOM_START + 1).unwrap().into());
        }
        harness(|| self.take(d));
        Ok(())
    }
}

/// The bytes read as one little-endian integer, reduced.
fn wide<M: Modulus>(b: &[u8]) -> Fe<M> {
    let base = Fe::<M>::from_u64(256);
    if b.len() == 64 {
        let mut l = [0; 8];
        for i in 0..8 {
            l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        let x = Fe::from_wide(l);
        for e in [Fe::<M>::zero(), Fe::one(), -Fe::<M>::one()] {
            if x == e {
                probe("result at the edge of the field");
            }
        }
        return x;
    }
    b.iter().rev().fold(Fe::zero(), |a, x| a * base + Fe::from_u64(*x as u64))
}

fn comps<M: Modulus>(name: &str, enc: &[u8], got: &[u8], n: usize) {
    if enc.len() != 32 * n {
        violate("HARNESS", format!("{name}: encoding of {} bytes", enc.len()));
    }
    let each = got.len() / n;
    for i in 0..n {
        let v = wire::limbs(&enc[32 * i..]);
        let Some(v) = Fe::<M>::from_mont_repr(v) else {
            violate("non-canonical", format!("{name}: component {i} is not below the modulus"))
        };
        let w = wide::<M>(&got[each * i..each * (i + 1)]);
        check(v == w, "not-the-bytes", || format!("{name}: component {i} is {v:?}, the {} bytes drawn reduce to {w:?}", got.len()));
    }
}

trait Mirror: Fld {
    fn read(b: &[u8]) -> Option<Self>;
    const LEN: usize;
}
impl Mirror for MFr {
    const LEN: usize = 32;
    fn read(b: &[u8]) -> Option<Self> {
        MFr::from_mont_repr(wire::limbs(b))
    }
}
impl Mirror for MFq {
    const LEN: usize = 32;
    fn read(b: &[u8]) -> Option<Self> {
        MFq::from_mont_repr(wire::limbs(b))
    }
}
impl Mirror for MFq2 {
    const LEN: usize = 64;
    fn read(b: &[u8]) -> Option<Self> {
        Some(MFq2(MFq::read(b)?, MFq::read(&b[32..])?))
    }
}

fn pt<F: Mirror>(name: &str, b: &[u8]) -> Pt<F> {
    let inf = b[2 * F::LEN];
    if inf != 0 {
        return None;
    }
    let bad = |_| -> F { violate("non-canonical", format!("{name}: a coordinate is not below the modulus")) };
    Some((F::read(b).ok_or(()).unwrap_or_else(bad), F::read(&b[F::LEN..]).ok_or(()).unwrap_or_else(bad)))
}
fn proj<F: Mirror>(name: &str, b: &[u8]) -> Pt<F> {
    let c: Vec<F> = (0..3).map(|i| F::read(&b[i * F::LEN..]).unwrap_or_else(|| violate("non-canonical", format!("{name}: a coordinate is not below the modulus")))).collect();
    if c[2] == F::zero() {
        if c[0] == F::zero() && c[1] == F::zero() {
            violate("not-a-point", format!("{name}: all coordinates are zero"));
        }
        return None;
    }
    let z = c[2].inv();
    Some((c[0] * z, c[1] * z))
}

fn point<F: Mirror, S: Modulus>(name: &str, p: Pt<F>, g: Pt<F>, b: F, got: &[u8]) {
    check(model::on_curve(&p, b), "not-a-point", || format!("{name}: the sampled point is not on its curve"));
    let k = wide::<S>(got);
    let w = model::mul(g, k.int());
    check(p == w, "not-the-bytes", || format!("{name}: the sampled point is not the generator times the bytes drawn"));
}

fn generator<F: Mirror>(name: &str, g: Pt<F>, b: F, order: [u64; 4]) {
    check(g.is_some() && model::on_curve(&g, b) && model::mul(g, order).is_none(), "not-a-point", || format!("{name}: the generator does not generate the group"));
}

/// Runs `f` on the source; the value, the bytes drawn, and whether a first attempt was interrupted.
fn draw<V>(name: &str, h: &mut Handle, f: impl Fn(&mut Handle) -> V) -> V {
    for attempt in 0..64 {
        h.got.clear();
        match guard(|| f(h)) {
            Ok(v) => {
                if attempt > 0 {
                    probe("retry after an interrupted draw");
                }
                return v;
            }
            Err(p) => check(p.contains("injected"), "panic", || format!("{name}: {p}")),
        }
    }
    violate("panic", format!("{name}: sampling fails again and again"))
}

fn one(o: &Op, h: &mut Handle) -> String {
    let k = o.arg(1) % KINDS;
    macro_rules! fld {
        ($n:expr, $m:ty, $c:expr, $f:expr) => {{
            let v = draw($n, h, $f);
            comps::<$m>($n, &must("encoding", || v.encode()), &h.got, $c);
            $n
        }};
    }
    macro_rules! aff {
        ($n:expr, $t:ty, $f:ty, $s:ty, $b:expr) => {{
            let v = draw($n, h, |h| <$t>::random(h));
            let g = pt::<$f>($n, &<$t>::ADDITIVE_GENERATOR.encode());
            generator($n, g, $b, <$s as Modulus>::P);
            let e = must("encoding", || v.encode());
            point::<$f, $s>($n, pt($n, &e), g, $b, &h.got);
            check(must("is_on_curve", || v.is_on_curve()), "not-a-point", || format!("{}: is_on_curve denies the sampled point", $n));
            $n
        }};
    }
    macro_rules! prj {
        ($n:expr, $t:ty, $f:ty, $s:ty, $b:expr) => {{
            let v = draw($n, h, |h| <$t>::random(h));
            let g = proj::<$f>($n, &<$t>::ADDITIVE_GENERATOR.encode());
            generator($n, g, $b, <$s as Modulus>::P);
            let e = must("encoding", || v.encode());
            point::<$f, $s>($n, proj($n, &e), g, $b, &h.got);
            check(must("is_on_curve", || v.is_on_curve()), "not-a-point", || format!("{}: is_on_curve denies the sampled point", $n));
            $n
        }};
    }
    macro_rules! ck {
        ($n:expr, $t:ty, $f:ty, $s:ty, $b:expr) => {{
            let e = o.arg(3) % 3;
            let v = draw($n, h, |h| zknova::PedersenCommitment::<$t>::new(e, h));
            let b = must("encoding", || v.encode());
            let want = (1usize << e) + 1;
            let each = h.got.len() / want;
            let g = pt::<$f>($n, &<$t>::ADDITIVE_GENERATOR.encode());
            let size = 2 * <$f as Mirror>::LEN + 1;
            check(b.len() == 1 + want * size, "not-the-bytes", || format!("{}: {} bytes for {want} generators", $n, b.len()));
            for i in 0..want {
                point::<$f, $s>($n, pt($n, &b[1 + i * size..]), g, $b, &h.got[each * i..each * (i + 1)]);
            }
            $n
        }};
    }
    fn raw(h: &mut Handle) -> [u8; 64] {
        let mut b = [0; 64];
        h.fill_bytes(&mut b);
        b
    }
    use zkstd::common::{FftField, PrimeField};
    let n = match k {
        0 => fld!("Fr", R, 1, |h| Fr::random(h)),
        1 => fld!("Fq", Q, 1, |h| Fq::random(h)),
        2 => fld!("Fq2", Q, 2, |h| Fq2::random(h)),
        3 => fld!("Fq6", Q, 6, |h| Fq6::random(h)),
        4 => fld!("Fq12", Q, 12, |h| Fq12::random(h)),
        5 => fld!("Gt", Q, 12, |h| Gt::random(h).0),
        6 => aff!("G1Affine", G1Affine, MFq, R, model::b_g1()),
        7 => prj!("G1Projective", G1Projective, MFq, R, model::b_g1()),
        8 => aff!("G2Affine", G2Affine, MFq2, R, model::b_g2()),
        9 => prj!("G2Projective", G2Projective, MFq2, R, model::b_g2()),
        10 => aff!("grumpkin Affine", GkAffine, MFr, Q, model::b_grumpkin()),
        11 => prj!("grumpkin Projective", GkProjective, MFr, Q, model::b_grumpkin()),
        12 => fld!("ff Fr", R, 1, |h| <Fr as ff::Field>::random(h)),
        13 => fld!("ff Fq", Q, 1, |h| <Fq as ff::Field>::random(h)),
        14 => ck!("commitment key on G1", G1Affine, MFq, R, model::b_g1()),
        15 => ck!("commitment key on grumpkin", GkAffine, MFr, Q, model::b_grumpkin()),
        16 => fld!("Fr from wide bytes", R, 1, |h| <Fr as PrimeField>::from_bytes_wide(&raw(h))),
        17 => fld!("Fq from wide bytes", Q, 1, |h| <Fq as PrimeField>::from_bytes_wide(&raw(h))),
        _ => fld!("Fr from a hash", R, 1, |h| <Fr as FftField>::from_hash(&raw(h))),
    };
    probe("sampled");
    state(mix(hash_str(n) ^ hash_str(&format!("{:?}", &h.got[..h.got.len().min(16)]))));
    n.to_string()
}

pub fn run_r01(plan: &Plan) {
    const FAULT: [&str; MODES as usize] = ["", "source stuck at one byte", "source all zero", "source all one", "source counting", "source repeating a block", "source with one live bit", "source stuck after a while", "source at multiples of the modulus", "source at edges of both halves", "", "", "OS source"];
    let srcs: Arc<Vec<(Arc<Mutex<State>>, bool)>> = Arc::new(
        plan.ops
            .iter()
            .filter(|o| o.k == "source")
            .map(|o| {
                let mode = o.arg(0) % MODES;
                if !FAULT[mode as usize].is_empty() {
                    fault(FAULT[mode as usize]);
                }
                (Arc::new(Mutex::new(State { mode, v: o.arg(1), at: o.arg(2), r: Rng::sub(o.arg(1), "bytes", 0), n: 0, fails: 0, block: vec![] })), mode == 12)
            })
            .collect(),
    );
    if srcs.is_empty() {
        return;
    }
    let n = 1 + plan.get("threads") % 4;
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let ops: Vec<Op> = plan.ops.iter().filter(|o| o.k == "draw" && o.arg(0) % n == t).cloned().collect();
            let srcs = srcs.clone();
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    harness(|| {
                        for o in ops {
                            let (s, os) = &srcs[o.arg(2) as usize % srcs.len()];
                            let mut h = Handle { s: s.clone(), got: vec![], os: *os };
                            let name = one(&o, &mut h);
                            ev(&format!("t{t} {name} {} bytes {:x}", h.got.len(), hash_str(&format!("{:?}", h.got))));
                        }
                    })
                })
                .expect("HARNESS spawn")
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            panic!("HARNESS thread: {}", last_panic());
        }
    }
}
