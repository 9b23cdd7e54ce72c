//! C01: a chain whose nodes run the verification pallet. The pallet, the proof
//! system and the codec are real; network, storage, clocks and consensus (a
//! service that orders submissions) are simulated.
use crate::groth::{gen_spec, must};
use crate::ivc::{quick_params, Rp};
use crate::mirror::*;
use crate::stepfn::*;
use bn_254::{Fq, Fr};
use frame_support::dispatch::{DispatchError, DispatchResultWithPostInfo, PostDispatchInfo};
use frame_support::storage::{execute_with, Map};
use frame_system::RawOrigin;
use model::{Fe, Modulus};
use pallet_nova::{IvcVerifier, Pallet};
use parity_scale_codec::{Compact, Decode, Encode};
use simcore::*;
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;
use std::sync::Arc;
use zknova::{Bn254Driver, FunctionCircuit, GrumpkinDriver, Ivc, PublicParams, RecursiveProof};

// ------------------------------------------------------------------ a node's runtime

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Origin(RawOrigin<u64>);
impl From<Origin> for Result<RawOrigin<u64>, Origin> {
    fn from(o: Origin) -> Self {
        Ok(o.0)
    }
}
impl From<RawOrigin<u64>> for Origin {
    fn from(o: RawOrigin<u64>) -> Self {
        Origin(o)
    }
}
pub struct Runtime<F1, F2>(PhantomData<(F1, F2)>);
impl<F1, F2> std::fmt::Debug for Runtime<F1, F2> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Runtime")
    }
}
impl<F1, F2> Clone for Runtime<F1, F2> {
    fn clone(&self) -> Self {
        Runtime(PhantomData)
    }
}
impl<F1, F2> PartialEq for Runtime<F1, F2> {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl<F1, F2> Eq for Runtime<F1, F2> {}
impl<F1: 'static, F2: 'static> frame_system::Config for Runtime<F1, F2> {
    type AccountId = u64;
    type BlockNumber = u64;
    type Event = RtEvent;
    type Origin = Origin;
}
impl<F1: FunctionCircuit<Fr> + 'static, F2: FunctionCircuit<Fq> + 'static> pallet_nova::Config for Runtime<F1, F2> {
    type E1 = Bn254Driver;
    type E2 = GrumpkinDriver;
    type FC1 = F1;
    type FC2 = F2;
}

impl<F1: FunctionCircuit<Fr> + 'static, F2: FunctionCircuit<Fq> + 'static> zk_storage::Config for Runtime<F1, F2> {
    type Event = RtEvent;
}
/// The runtime's events: those of the only pallet that has some.
#[derive(Clone, PartialEq)]
pub struct RtEvent(String);
impl std::fmt::Debug for RtEvent {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl<F1: FunctionCircuit<Fr> + 'static, F2: FunctionCircuit<Fq> + 'static> From<zk_storage::Event<Runtime<F1, F2>>> for RtEvent {
    fn from(e: zk_storage::Event<Runtime<F1, F2>>) -> Self {
        RtEvent(match e {
            zk_storage::Event::ValueSet(k, v) => format!("value {k} set to {v}"),
            e => format!("{e:?}"),
        })
    }
}
/// The sample's own step function.
#[path = "/repo/sample/src/client.rs"]
mod client;
impl<F: zkstd::common::PrimeField> StepModel for client::ExampleFunction<F> {
    const NAME: &'static str = "the sample's function";
    fn model<M: Modulus>(z: Fe<M>) -> Fe<M> {
        z * z * z + z + Fe::from_u64(5)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Outcome {
    Success,
    InvalidProof,
    BadOrigin,
    Undecodable,
}
/// How a submission reaches the verifier.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Via {
    Signed(u64),
    Root,
    Unsigned,
    /// called by another pallet on behalf of its own logic
    Service,
}
/// What a submission calls.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Call {
    Verify,
    /// the value guarded by a proof
    First(u32),
    Second(u32),
}
/// What a node shows of its storage: both values and their sum.
type Shown = (u32, u32, u32);
trait Rt: Send + Sync {
    fn execute(&self, call: Call, via: Via, proof: &[u8], params: &[u8]) -> Outcome;
    fn show(&self) -> Shown;
}
fn outcome(r: DispatchResultWithPostInfo, via: Via) -> Outcome {
    let free = PostDispatchInfo::from(());
    match r {
        Ok(i) => {
            check(i == free, "wrong-outcome", || format!("{via:?}: success reports {i:?}"));
            Outcome::Success
        }
        Err(e) => {
            check(e.post_info == free, "wrong-outcome", || format!("{via:?}: failure reports {:?}", e.post_info));
            match e.error {
                DispatchError::BadOrigin => Outcome::BadOrigin,
                DispatchError::Other("invalid proof") => Outcome::InvalidProof,
                e => violate("wrong-outcome", format!("{via:?}: the call fails with {e:?}")),
            }
        }
    }
}
impl<F1, F2> Rt for Runtime<F1, F2>
where
    F1: FunctionCircuit<Fr> + Send + Sync + 'static,
    F2: FunctionCircuit<Fq> + Send + Sync + 'static,
{
    fn show(&self) -> Shown {
        type S<F1, F2> = zk_storage::Pallet<Runtime<F1, F2>>;
        (S::<F1, F2>::thing1(), S::<F1, F2>::thing2(), S::<F1, F2>::get_sum())
    }
    fn execute(&self, call: Call, via: Via, proof: &[u8], params: &[u8]) -> Outcome {
        let o = |o| Origin(o);
        let raw = match via {
            Via::Signed(n) => RawOrigin::Signed(n),
            Via::Root => RawOrigin::Root,
            Via::Unsigned => RawOrigin::None,
            Via::Service => RawOrigin::Signed(0),
        };
        if let Call::Second(v) = call {
            return outcome(zk_storage::Pallet::<Self>::set_thing_2(o(raw), v), via);
        }
        let (mut a, mut b) = (proof, params);
        let p = RecursiveProof::<Bn254Driver, GrumpkinDriver, F1, F2>::decode(&mut a);
        let q = PublicParams::<Bn254Driver, GrumpkinDriver, F1, F2>::decode(&mut b);
        let (Ok(p), Ok(q)) = (p, q) else { return Outcome::Undecodable };
        if !a.is_empty() || !b.is_empty() {
            return Outcome::Undecodable;
        }
        let r = match (call, via) {
            (Call::First(v), _) => zk_storage::Pallet::<Self>::set_thing_1(o(raw), v, p, q),
            (_, Via::Service) => <Pallet<Self> as IvcVerifier<_, _, _, _>>::verify(p, q),
            _ => Pallet::<Self>::verify(o(raw), p, q),
        };
        outcome(r, via)
    }
}

// ------------------------------------------------------------------ honest proofs, made once

struct World {
    rt: Vec<Box<dyn Rt>>,
    /// parameters: runtime, bytes
    params: Vec<(usize, Arc<Vec<u8>>)>,
    /// proofs: parameters, bytes
    proofs: Vec<(usize, Arc<Vec<u8>>)>,
}
static mut WORLD: Option<Result<World, String>> = None;
type Made = (Vec<u8>, Vec<Vec<u8>>);

pub fn prepare() {
    crate::fast::set(true);
    fn make<F1, F2>(seed: u64, z: (u64, u64), n: usize) -> std::thread::JoinHandle<Result<Made, String>>
    where
        F1: FunctionCircuit<Fr> + Send + Sync + 'static,
        F2: FunctionCircuit<Fq> + Send + Sync + 'static,
    {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                guard(|| {
                    let pp = quick_params::<F1, F2>(seed);
                    let mut i = Ivc::init(&pp, crate::ivc::dense::<model::R, Fr>(&[Fe::from_u64(z.0)]), crate::ivc::dense::<model::Q, Fq>(&[Fe::from_u64(z.1)]));
                    (pp.encode(), (0..n).map(|_| i.prove_step(&pp).encode()).collect())
                })
            })
            .expect("HARNESS spawn")
    }
    let hs = vec![
        (0, make::<Cubic<Fr>, Cubic<Fq>>(1, (3, 5), 4)),
        (0, make::<Cubic<Fr>, Cubic<Fq>>(2, (3, 5), 2)),
        (1, make::<Cond<Fr>, Pow<Fq>>(1, (0, 0), 2)),
        (1, make::<Cond<Fr>, Pow<Fq>>(3, (1, 2), 1)),
        (2, make::<client::ExampleFunction<Fr>, client::ExampleFunction<Fq>>(1, (3, 5), 2)),
    ];
    let mut w = World { rt: vec![Box::new(Runtime::<Cubic<Fr>, Cubic<Fq>>(PhantomData)), Box::new(Runtime::<Cond<Fr>, Pow<Fq>>(PhantomData)), Box::new(Runtime::<client::ExampleFunction<Fr>, client::ExampleFunction<Fq>>(PhantomData))], params: vec![], proofs: vec![] };
    let mut err = None;
    for (k, h) in hs {
        match h.join().expect("HARNESS join") {
            Ok((pp, ps)) => {
                w.proofs.extend(ps.into_iter().map(|b| (w.params.len(), Arc::new(b))));
                w.params.push((k, Arc::new(pp)));
            }
            Err(e) => err = Some(e),
        }
    }
    unsafe { WORLD = Some(err.map_or(Ok(w), Err)) }
}
fn world() -> &'static World {
    match unsafe { WORLD.as_ref() }.expect("HARNESS not prepared") {
        Ok(w) => w,
        Err(e) => violate("panic", format!("an honest prover: {e}")),
    }
}

// ------------------------------------------------------------------ plan

const ALTER: u64 = 14;

pub fn gen_c01(r: &mut Rng, seed: u64, thorough: bool) -> (Plan, Spec) {
    gen_chain("C01", r, seed, thorough)
}
/// The same network, whose nodes also keep the sample's values.
pub fn gen_c02(r: &mut Rng, seed: u64, thorough: bool) -> (Plan, Spec) {
    let (mut p, s) = gen_chain("C02", r, seed, thorough);
    for o in p.ops.iter_mut().filter(|o| o.k == "submit") {
        let (x, y) = (r.u64() & 0xffff_ffff, r.u64() & 0xff);
        let v = *r.pick(&[0, 1, 42, u32::MAX as u64, x, y]);
        // of three calls one sets the unguarded value
        o.a.resize(7, 0);
        o.a.extend([if o.a[1] == 1 << 30 { 1 + r.below(2) } else { *r.pick(&[1, 1, 2]) }, v]);
    }
    // more of the cheap ones: values overwritten again and again
    for _ in 0..r.below(8) {
        let x = r.u64() & 0xffff_ffff;
        let v = *r.pick(&[0, 1, u32::MAX as u64, x]);
        let o = vec![r.below(60_000), 0, 1, 0, 0, *r.pick(&[0, 0, 0, 1, 2]), r.below(64), 2, v];
        p.push("submit", &o);
    }
    (p.set("runtime", r.below(3)), s)
}
fn gen_chain(id: &str, r: &mut Rng, seed: u64, thorough: bool) -> (Plan, Spec) {
    let slow = r.chance(1, 40);
    let nodes = 2 + if slow { 0 } else { r.below(4) };
    let mut p = Plan::new(id).set("nodes", nodes).set("network", r.u64() >> 8).set("runtime", r.below(2)).set("slow", slow as u64);
    let end = 60_000;
    let mut honest = 0;
    for n in 0..3 + r.below(if thorough { 6 } else { 4 }) {
        // what is valid is slow to verify
        let kind = match r.below(4) {
            0 if honest < if slow { 1 } else { 3 } => {
                honest += 1;
                0
            }
            0 | 1 => 1,
            _ => 2 + r.below(ALTER - 2),
        };
        let via = *r.pick(&[0, 0, 0, 0, 3, 3, 1, 2]);
        // time, proof, alteration, a, b, via, first node
        p.push("submit", &[r.below(end), r.below(1 << 20), kind, r.u64() >> 8, r.u64() >> 8, via, r.below(nodes)]);
        // a second caller with the very same submission
        if r.chance(1, 6) {
            p.push("submit", &[r.below(end), 1 << 30, n, 0, 0, *r.pick(&[0, 1, 2, 3]), r.below(nodes)]);
        }
    }
    for _ in 0..r.below(5) {
        // from, length, kind, which
        p.push("network", &[r.below(end), 1 + r.below(20_000), r.below(5), r.u64() >> 8]);
    }
    for _ in 0..*r.pick(&[0, 0, 1, 1, 2, 3]) {
        // when, node, downtime, what the crash leaves
        p.push("crash", &[r.below(end), r.below(nodes), 1 + r.below(15_000), r.u64() >> 8]);
    }
    for _ in 0..r.below(3) {
        p.push("slow", &[r.below(nodes), 1 + r.below(30)]);
    }
    let mut s = gen_spec(r, seed, 100_000);
    s.edge_cap = 1 << 44;
    (p, s)
}

#[derive(Clone)]
struct Tx {
    call: Call,
    via: Via,
    proof: Arc<Vec<u8>>,
    params: Arc<Vec<u8>>,
    want: Option<Outcome>,
    what: String,
}

/// Another value than `v`.
fn other<M: Modulus>(v: Fe<M>, k: u64) -> Fe<M> {
    match k % 3 {
        0 => v + Fe::one(),
        1 if !v.is_zero() => -v,
        _ => v + Fe::from_u64(2 + (k >> 2)),
    }
}

/// A submission, and what every node must make of it.
fn submission(o: &Op, rt: usize, made: &[Tx]) -> Option<Tx> {
    let w = world();
    let via = match o.arg(5) {
        0 => Via::Signed(o.arg(6)),
        1 => Via::Root,
        2 => Via::Unsigned,
        _ => Via::Service,
    };
    let value = o.arg(8) as u32;
    let call = match o.arg(7) {
        0 => Call::Verify,
        1 => Call::First(value),
        _ => Call::Second(value),
    };
    let judge = |want: Outcome| match (via, want) {
        (Via::Root | Via::Unsigned, _) if matches!(call, Call::Second(_)) => Outcome::BadOrigin,
        (_, _) if matches!(call, Call::Second(_)) => Outcome::Success,
        (_, Outcome::Undecodable) => want,
        (Via::Root | Via::Unsigned, _) => Outcome::BadOrigin,
        _ => want,
    };
    if o.arg(1) == 1 << 30 {
        let t = made.get(o.arg(2) as usize)?;
        if let (Call::Second(_), Call::Verify | Call::First(_)) = (t.call, call) {
            return None;
        }
        if let Call::Second(v) = call {
            return Some(Tx { call, via, want: Some(judge(Outcome::Success)), what: format!("value 2 set to {v} by {via:?}"), ..t.clone() });
        }
        // what the same message comes to under another origin
        let base = match (t.want?, t.via) {
            (Outcome::Undecodable, _) => Outcome::Undecodable,
            (_, Via::Root | Via::Unsigned) => return None,
            (x, _) => x,
        };
        return Some(Tx { call, via, want: Some(judge(base)), what: format!("again, {}", t.what), ..t.clone() });
    }
    if let Call::Second(v) = call {
        return Some(Tx { call, via, proof: Default::default(), params: Default::default(), want: Some(judge(Outcome::Success)), what: format!("value 2 set to {v} by {via:?}") });
    }
    let all: Vec<_> = w.proofs.iter().filter(|p| w.params[p.0].0 == rt).collect();
    let own: Vec<usize> = (0..w.params.len()).filter(|i| w.params[*i].0 == rt).collect();
    let (pi, proof) = all[o.arg(1) as usize % all.len()];
    let (second, a, b) = (&all[o.arg(4) as usize % all.len()].1, o.arg(3), o.arg(4));
    let mut params = w.params[*pi].1.clone();
    let mut q = Rp::of(proof);
    let (mut bytes, mut want, mut judged) = (None, Outcome::InvalidProof, true);
    let what = match o.arg(2) {
        0 => {
            want = Outcome::Success;
            bytes = Some(proof.to_vec());
            "honest proof"
        }
        1 => {
            match a % 6 {
                0 => q.i += 1 + b % 3,
                1 => q.zip[0] = other(q.zip[0], b),
                2 => q.zis[0] = other(q.zis[0], b),
                3 => q.z0p[0] = other(q.z0p[0], b),
                4 => q.z0s[0] = other(q.z0s[0], b),
                _ => q.i = b >> 2 | 8,
            }
            "false claim"
        }
        2 => {
            q.i += 1 + b % 3;
            q.rehash();
            "false claim with fitting hashes"
        }
        3 => {
            q.zip[0] = other(q.zip[0], b);
            q.rehash();
            "false claim with fitting hashes"
        }
        4 => {
            let k = a as usize % 2;
            q.us.x[k] = other(q.us.x[k], b);
            "altered instance"
        }
        5 => {
            q.up.u = other(q.up.u, b);
            "altered accumulator"
        }
        6 => {
            let j = a as usize % q.ws.len();
            q.ws.set(j, other(q.ws.get(j), b));
            "altered witness"
        }
        7 => {
            q.i = 0;
            q.zip = q.z0p.clone();
            q.zis = q.z0s.clone();
            "no steps"
        }
        8 => {
            let s = Rp::of(second);
            match a % 3 {
                0 => {
                    q.us = s.us;
                    q.ws = s.ws;
                }
                1 => {
                    q.up = s.up;
                    q.wp = s.wp;
                }
                _ => {
                    q.i = s.i;
                    q.z0p = s.z0p;
                    q.zip = s.zip;
                    q.z0s = s.z0s;
                    q.zis = s.zis;
                }
            }
            if q.bytes() == **proof || q.bytes() == **second {
                // the splice may be a proof as it is
                judged = false;
            }
            "splice of two proofs"
        }
        9 => {
            let mut m = proof.to_vec();
            m.truncate(a as usize % m.len());
            bytes = Some(m);
            want = Outcome::Undecodable;
            "truncated proof"
        }
        10 => {
            let mut m = proof.to_vec();
            m.extend((0..1 + a % 9).map(|i| (b >> i) as u8));
            bytes = Some(m);
            want = Outcome::Undecodable;
            "extended proof"
        }
        11 => {
            let k = own.iter().find(|k| **k != *pi)?;
            params = w.params[*k].1.clone();
            bytes = Some(proof.to_vec());
            "parameters of another setup"
        }
        12 => {
            let mut m = params.to_vec();
            m.truncate(a as usize % m.len());
            params = Arc::new(m);
            bytes = Some(proof.to_vec());
            want = Outcome::Undecodable;
            "truncated parameters"
        }
        _ => {
            match a % 4 {
                0 => q.zip.push(Fe::zero()),
                1 => q.z0s.clear(),
                2 => {
                    let v = q.zip.remove(0);
                    q.z0p.push(v);
                }
                _ => q.us.x.push(Fe::zero()),
            }
            "states of other lengths"
        }
    };
    let bytes = bytes.unwrap_or_else(|| q.bytes());
    if want == Outcome::InvalidProof && o.arg(2) != 11 && bytes == **proof {
        judged = false;
    }
    Some(Tx { call, via, proof: Arc::new(bytes), params, want: judged.then(|| judge(want)), what: format!("{what} from {via:?}, {call:?}") })
}

// ------------------------------------------------------------------ simulated medium, nodes, ordering

/// A node's disk: records survive a crash if they were synced; the last ones
/// may be torn.
#[derive(Default)]
struct Disk {
    bytes: Vec<u8>,
    synced: usize,
}
fn sum(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325, |h, x| (h ^ *x as u64).wrapping_mul(0x100_0000_01b3))
}
impl Disk {
    fn append(&mut self, rec: &[u8]) {
        Compact(rec.len() as u64).encode_to(&mut self.bytes);
        self.bytes.extend(rec);
        self.bytes.extend(sum(rec).to_le_bytes());
    }
    fn sync(&mut self) {
        self.synced = self.bytes.len()
    }
    /// What is left after a crash: the synced part and some of the rest, damaged or not.
    fn crash(&mut self, k: u64) {
        let tail = self.bytes.len() - self.synced;
        let keep = if tail == 0 { 0 } else { k as usize % (tail + 1) };
        if tail > keep {
            fault("write torn or lost in a crash");
        }
        self.bytes.truncate(self.synced + keep);
        if keep > 0 && k >> 40 & 1 == 1 {
            let at = self.synced + (k >> 20) as usize % keep;
            self.bytes[at] ^= 1 << (k >> 41 & 7);
            fault("sector damaged in a crash");
        }
    }
    /// The records of the intact prefix; what follows is dropped.
    fn recover(&mut self) -> Vec<Vec<u8>> {
        let mut out = vec![];
        let mut at = 0;
        loop {
            let mut r = &self.bytes[at..];
            let before = r.len();
            let Ok(Compact(n)) = Compact::<u64>::decode(&mut r) else { break };
            let head = before - r.len();
            let Some(n) = usize::try_from(n).ok().filter(|n| r.len() >= *n && r.len() - *n >= 8) else { break };
            if sum(&r[..n]).to_le_bytes() != r[n..n + 8] {
                break;
            }
            out.push(r[..n].to_vec());
            at += head + n + 8;
        }
        self.bytes.truncate(at);
        self.synced = at;
        out
    }
}

struct Node {
    up: bool,
    boots: u64,
    disk: Disk,
    pool: BTreeSet<usize>,
    /// blocks known but not executed: they wait for their predecessors
    early: BTreeMap<u64, Vec<usize>>,
    height: u64,
    /// (submission, outcome) in the order of execution
    done: Vec<(usize, Outcome)>,
    slow: u64,
    /// the pallets' storage, and what it has to show
    store: Map,
    shown: (u32, u32),
    events: Vec<String>,
}

#[derive(Clone)]
enum Msg {
    Tx(usize),
    /// a node asks for blocks from a height on
    Want(u64),
    Block(u64, Vec<usize>),
}
enum Event {
    /// the client hands its submission to a node, until it is in a block
    Client(usize, usize, u64),
    /// from, to (nodes; the ordering service is the one after the last)
    Deliver(usize, usize, Msg),
    Slot,
    Poll(usize),
    Crash(usize, u64, u64),
    Boot(usize),
}

struct Net<'a> {
    p: &'a Plan,
    seed: u64,
    n: usize,
    now: u64,
    seq: u64,
    queue: BTreeMap<(u64, u64), Event>,
}
/// Faults end here.
const HEAL: u64 = 80_000;
impl Net<'_> {
    fn at(&mut self, t: u64, e: Event) {
        self.seq += 1;
        self.queue.insert((t, self.seq), e);
    }
    fn send(&mut self, from: usize, to: usize, m: Msg, slow: u64) {
        self.seq += 1;
        let mut r = Rng::sub(self.seed, "message", self.seq);
        let mut delay = (10 + r.below(90)) * slow;
        let mut copies = 1;
        for o in self.p.ops.iter().filter(|o| o.k == "network") {
            if self.now < o.arg(0) || self.now >= (o.arg(0) + o.arg(1)).min(HEAL) {
                continue;
            }
            let which = o.arg(3);
            match o.arg(2) {
                0 if r.chance(1 + (which & 3), 5) => {
                    fault("message lost");
                    return;
                }
                1 if r.chance(1, 3) => {
                    fault("message duplicated");
                    copies += 1 + (which & 1);
                }
                2 => {
                    fault("message delayed and reordered");
                    delay += r.below(5_000);
                }
                3 if (which >> from & 1) != (which >> to & 1) => {
                    fault("message across a partition");
                    return;
                }
                4 if to == which as usize % (self.n + 1) || from == which as usize % (self.n + 1) => {
                    fault("message of an isolated node");
                    return;
                }
                _ => {}
            }
        }
        for _ in 0..copies {
            let d = delay + r.below(50);
            self.at(self.now + d, Event::Deliver(from, to, m.clone()));
        }
    }
}

pub fn run_c01(p: &Plan) {
    let w = world();
    crate::fast::set(p.get("slow") == 0);
    if p.get("slow") != 0 {
        probe("commitments summed up term by term");
    }
    let rt = p.get("runtime") as usize;
    let n = p.get("nodes").max(1) as usize;
    let mut txs: Vec<Tx> = vec![];
    let mut net = Net { p, seed: p.get("network"), n, now: 0, seq: 0, queue: Default::default() };
    for o in p.ops.iter().filter(|o| o.k == "submit") {
        if let Some(t) = submission(o, rt, &txs) {
            txs.push(t);
            net.at(o.arg(0), Event::Client(txs.len() - 1, o.arg(6) as usize % n, 0));
        }
    }
    let mut nodes: Vec<Node> = (0..n).map(|_| Node { up: true, boots: 0, disk: Default::default(), pool: Default::default(), early: Default::default(), height: 0, done: vec![], slow: 1, store: Map::new(), shown: (0, 0), events: vec![] }).collect();
    for o in &p.ops {
        match &o.k[..] {
            "crash" => net.at(o.arg(0), Event::Crash(o.arg(1) as usize % n, o.arg(2), o.arg(3))),
            "slow" => {
                nodes[o.arg(0) as usize % n].slow = o.arg(1).max(1);
                fault("slow node");
            }
            _ => {}
        }
    }
    net.at(500, Event::Slot);
    for i in 0..n {
        net.at(700 + 37 * i as u64, Event::Poll(i));
    }
    // the ordering service
    let mut inbox: Vec<usize> = vec![];
    let mut chain: Vec<Vec<usize>> = vec![];
    let mut ordered: BTreeSet<usize> = Default::default();
    // an undecodable submission never enters a pool
    let mut refused: BTreeSet<usize> = Default::default();
    let mut first: BTreeMap<usize, (usize, Outcome)> = Default::default();
    let deadline = HEAL + 60_000;
    let execute = |i: usize, node: &mut Node, k: usize, first: &mut BTreeMap<usize, (usize, Outcome)>| {
        let t: &Tx = &txs[k];
        let before = node.store.clone();
        let (o, shown) = execute_with(&mut node.store, || {
            let o = must("a node executing a submission", || w.rt[rt].execute(t.call, t.via, &t.proof, &t.params));
            (o, must("a node reading its values", || w.rt[rt].show()))
        });
        let events = frame_system::take_events();
        let mut want = vec![];
        match (o, t.call) {
            (Outcome::Success, Call::First(v)) => {
                node.shown.0 = v;
                want.push(format!("value 1 set to {v}"));
            }
            (Outcome::Success, Call::Second(v)) => {
                node.shown.1 = v;
                want.push(format!("value 2 set to {v}"));
            }
            _ => check(node.store == before, "wrong-state", || format!("node {i}: {} ({k}), {o:?}, changed the storage", t.what)),
        }
        check(events == want, "wrong-events", || format!("node {i}: {} ({k}), {o:?}, reports {events:?}, not {want:?}", t.what));
        let (x, y) = node.shown;
        let want = (x, y, x.saturating_add(y));
        check(shown == want, "wrong-state", || format!("node {i} after {} ({k}), {o:?}: values and sum {shown:?}, not {want:?}", t.what));
        if x.checked_add(y).is_none() {
            probe("sum of the values beyond its range");
        }
        node.events.extend(events);
        ev(&format!("node {i} boot {} executes {k}: {o:?}", node.boots));
        if let Some(want) = t.want {
            check(o == want, "wrong-outcome", || format!("node {i} makes of {} ({k}) {o:?}, not {want:?}", t.what));
        }
        match first.get(&k) {
            Some((j, x)) => check(*x == o, "nodes-disagree", || format!("of {} ({k}) node {j} makes {x:?}, node {i} {o:?}", t.what)),
            None => {
                first.insert(k, (i, o));
            }
        }
        probe(&format!("executed: {o:?}"));
        o
    };
    while let Some(((t, _), e)) = net.queue.pop_first() {
        net.now = t;
        if t > deadline {
            break;
        }
        match e {
            Event::Client(k, i, tries) => {
                if ordered.contains(&k) || refused.contains(&k) {
                    continue;
                }
                if nodes[i].up && !nodes[i].pool.contains(&k) {
                    // the node looks at it before it tells others
                    let t = &txs[k];
                    if t.want == Some(Outcome::Undecodable) {
                        let o = execute(i, &mut nodes[i], k, &mut first);
                        if o == Outcome::Undecodable {
                            refused.insert(k);
                            continue;
                        }
                    }
                    nodes[i].pool.insert(k);
                    for j in (0..=n).filter(|j| *j != i) {
                        net.send(i, j, Msg::Tx(k), nodes[i].slow);
                    }
                }
                if tries > 0 {
                    probe("submission repeated by its client");
                }
                net.at(t + 3_000 + 500 * tries, Event::Client(k, (i + 1) % n, tries + 1));
            }
            Event::Deliver(from, to, m) => {
                if to == n {
                    match m {
                        Msg::Tx(k) => inbox.push(k),
                        Msg::Want(h) => {
                            for h in h..(h + 4).min(chain.len() as u64) {
                                net.send(n, from, Msg::Block(h, chain[h as usize].clone()), 1);
                            }
                        }
                        _ => {}
                    }
                    continue;
                }
                if !nodes[to].up {
                    fault("message to a crashed node");
                    continue;
                }
                match m {
                    Msg::Tx(k) => {
                        if nodes[to].pool.insert(k) {
                            let s = nodes[to].slow;
                            net.send(to, n, Msg::Tx(k), s);
                        }
                    }
                    Msg::Block(h, b) => {
                        if h > nodes[to].height {
                            probe("block ahead of its predecessors");
                        }
                        if h >= nodes[to].height {
                            nodes[to].early.insert(h, b);
                        }
                        loop {
                            let h = nodes[to].height;
                            let Some(b) = nodes[to].early.remove(&h) else { break };
                            for k in b {
                                let o = execute(to, &mut nodes[to], k, &mut first);
                                let x = &mut nodes[to];
                                x.done.push((k, o));
                                x.disk.append(&(h, k as u64, o as u8, sum(&x.store.encode())).encode());
                            }
                            nodes[to].height += 1;
                            // every other block is synced at once
                            if h % 2 == 0 {
                                nodes[to].disk.sync();
                            }
                            let nh = nodes[to].done.len() as u64;
                            state(hash_str(&format!("{to} {h} {nh} {:?}", nodes[to].done.last())));
                        }
                    }
                    Msg::Want(_) => {}
                }
            }
            Event::Slot => {
                let mut b = vec![];
                for k in inbox.drain(..) {
                    if ordered.insert(k) {
                        b.push(k);
                    } else {
                        probe("submission ordered once only");
                    }
                }
                if !b.is_empty() {
                    chain.push(b.clone());
                    for i in 0..n {
                        net.send(n, i, Msg::Block(chain.len() as u64 - 1, b.clone()), 1);
                    }
                }
                if t < deadline {
                    net.at(t + 1_000, Event::Slot);
                }
            }
            Event::Poll(i) => {
                if nodes[i].up {
                    let (h, s) = (nodes[i].height, nodes[i].slow);
                    net.send(i, n, Msg::Want(h), s);
                    for k in nodes[i].pool.clone() {
                        if !ordered.contains(&k) {
                            net.send(i, n, Msg::Tx(k), s);
                        }
                    }
                }
                if t < deadline {
                    net.at(t + 2_500, Event::Poll(i));
                }
            }
            Event::Crash(i, down, k) => {
                if !nodes[i].up {
                    continue;
                }
                fault("node crashed");
                ev(&format!("crash of {i}"));
                nodes[i].disk.crash(k);
                let d = std::mem::take(&mut nodes[i].disk);
                let x = &mut nodes[i];
                *x = Node { up: false, boots: x.boots + 1, disk: d, pool: Default::default(), early: Default::default(), height: 0, done: vec![], slow: x.slow, store: Map::new(), shown: (0, 0), events: vec![] };
                net.at(t + down, Event::Boot(i));
            }
            Event::Boot(i) => {
                let recs = nodes[i].disk.recover();
                nodes[i].up = true;
                let mut by: BTreeMap<u64, Vec<(usize, u8, u64)>> = Default::default();
                for r in recs {
                    let (h, k, o, s) = <(u64, u64, u8, u64)>::decode(&mut &r[..]).expect("HARNESS record");
                    by.entry(h).or_default().push((k as usize, o, s));
                }
                let mut roots = vec![];
                // whole blocks are executed again and compared with the record
                for (h, b) in by {
                    if chain[h as usize].len() != b.len() || h != nodes[i].height {
                        probe("half a block on disk");
                        break;
                    }
                    for (k, rec, root) in b {
                        let o = execute(i, &mut nodes[i], k, &mut first);
                        check(o as u8 == rec, "replay-differs", || format!("node {i} replays {} ({k}) as {o:?}, its disk says {rec}", txs[k].what));
                        check(sum(&nodes[i].store.encode()) == root, "replay-differs", || format!("node {i} replays {} ({k}) to another storage than before", txs[k].what));
                        nodes[i].done.push((k, o));
                        roots.push(root);
                        probe("submission replayed from disk");
                    }
                    nodes[i].height += 1;
                }
                // what was not replayed is written again
                let mut d = Disk::default();
                let mut c = 0;
                for h in 0..nodes[i].height {
                    for k in &chain[h as usize] {
                        d.append(&(h, *k as u64, nodes[i].done[c].1 as u8, roots[c]).encode());
                        c += 1;
                    }
                }
                d.sync();
                nodes[i].disk = d;
                ev(&format!("boot of {i} at height {}", nodes[i].height));
            }
        }
        let all = (0..txs.len()).all(|k| ordered.contains(&k) || refused.contains(&k));
        if all && net.now > HEAL.min(60_000) && nodes.iter().all(|x| x.up && x.height == chain.len() as u64) && !net.queue.values().any(|e| matches!(e, Event::Crash(..) | Event::Boot(_) | Event::Client(..))) {
            break;
        }
    }
    // once faults stopped, every submission was executed by every node
    for (i, x) in nodes.iter().enumerate() {
        check(x.up, "no-progress", || format!("HARNESS node {i} never restarted"));
        for k in 0..txs.len() {
            if refused.contains(&k) {
                continue;
            }
            let c = x.done.iter().filter(|d| d.0 == k).count();
            check(c == 1, "no-progress", || format!("at {} ms node {i} has executed {} ({k}) {c} times", net.now, txs[k].what));
        }
        check(x.done == nodes[0].done, "nodes-disagree", || format!("histories of nodes 0 and {i} differ"));
        check(x.store == nodes[0].store && x.events == nodes[0].events, "nodes-disagree", || format!("storage or events of nodes 0 and {i} differ"));
    }
    probe_n("blocks", chain.len() as u64);
    probe_n("simulated ms", net.now);
    ev(&format!("{} blocks, {} ms", chain.len(), net.now));
}
