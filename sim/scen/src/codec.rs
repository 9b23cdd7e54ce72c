//! S01: values on fragmenting, failing streams. S02: damaged and hostile bytes.
use crate::groth::must;
use crate::wire::{self, parse, sound, Codec, Leaf, Val};
use parity_scale_codec::{Error, Input, Output};
use simcore::*;
use std::collections::VecDeque;
use std::sync::{Arc, Condvar, Mutex};

// ------------------------------------------------------------------ transport

#[derive(Default)]
struct Pipe {
    s: Mutex<PipeState>,
    c: Condvar,
}
#[derive(Default)]
struct PipeState {
    buf: VecDeque<u8>,
    /// end of stream, and whether it is an error of the device
    end: Option<bool>,
}

/// The sending side: cuts what it is given into fragments and may break off.
pub struct Sink {
    p: Arc<Pipe>,
    r: Rng,
    frag: u64,
    sent: u64,
    /// byte at which the connection breaks
    fail_at: u64,
    hard: bool,
}
impl Output for Sink {
    fn write(&mut self, mut b: &[u8]) {
        while !b.is_empty() {
            let n = match self.frag % 5 {
                0 => b.len() as u64,
                1 => 1,
                2 => 1 + self.r.below(7),
                3 => 1 + self.r.below(200),
                _ => 64,
            };
            let mut n = n.min(b.len() as u64);
            let mut cut = false;
            if self.sent + n >= self.fail_at {
                n = self.fail_at.saturating_sub(self.sent);
                cut = true;
            }
            {
                let mut s = self.p.s.lock().unwrap();
                if s.end.is_some() {
                    return;
                }
                s.buf.extend(&b[..n as usize]);
                if cut {
                    s.end = Some(self.hard);
                }
            }
            self.p.c.notify_all();
            self.sent += n;
            b = &b[n as usize..];
            if cut {
                return;
            }
            if self.r.chance(1, 8) {
                std::thread::sleep(std::time::Duration::from_micros(self.r.below(500)));
            }
        }
    }
}

/// The receiving side, over a pipe or over stored bytes.
pub struct Stream {
    p: Option<Arc<Pipe>>,
    b: Vec<u8>,
    pub at: usize,
    tells: bool,
}
impl Stream {
    fn stored(b: &[u8], tells: bool) -> Self {
        Stream { p: None, b: b.to_vec(), at: 0, tells }
    }
}
impl Input for Stream {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(match &self.p {
            None if self.tells => Some(self.b.len() - self.at),
            _ => None,
        })
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        let Some(p) = &self.p else {
            if into.len() > self.b.len() - self.at {
                return Err("the stored bytes end here".into());
            }
            into.copy_from_slice(&self.b[self.at..self.at + into.len()]);
            self.at += into.len();
            return Ok(());
        };
        let mut n = 0;
        let mut s = p.s.lock().unwrap();
        while n < into.len() {
            match s.buf.pop_front() {
                Some(x) => {
                    into[n] = x;
                    n += 1;
                }
                None => match s.end {
                    Some(hard) => return Err(if hard { "connection reset" } else { "end of stream" }.into()),
                    None => s = p.c.wait(s).unwrap(),
                },
            }
        }
        self.at += n;
        Ok(())
    }
}

// ------------------------------------------------------------------ S01

pub fn gen_s01(r: &mut Rng, seed: u64, thorough: bool) -> (Plan, Spec) {
    let nt = wire::types().len() as u64;
    let mut p = Plan::new("S01").set("frag", r.below(5)).set("tells", r.below(2));
    for _ in 0..1 + r.below(if thorough { 24 } else { 12 }) {
        p.push("value", &[r.below(nt), r.below(1 << 40)]);
    }
    // connections that break
    for _ in 0..r.below(4) {
        p.push("break", &[r.below(1 << 20), r.below(2), r.below(5)]);
    }
    p.p.insert("readers".into(), r.below(3));
    (p, crate::groth::gen_spec(r, seed, 2000))
}

struct Item {
    ty: usize,
    v: Val,
    b: Vec<u8>,
}

fn values(plan: &Plan, tys: &[Box<dyn Codec>]) -> Vec<Item> {
    plan.ops
        .iter()
        .filter(|o| o.k == "value")
        .map(|o| {
            let ty = o.arg(0) as usize % tys.len();
            let t = &tys[ty];
            let mut r = Rng::sub(o.arg(1), t.name(), 0);
            let v = must("making a value", || t.make(&mut r));
            let b = must("encoding", || t.enc(&v));
            Item { ty, v, b }
        })
        .collect()
}

fn same(t: &dyn Codec, it: &Item, got: &Val, what: &str) {
    check(must("comparing", || t.eq(&it.v, got)), "round-trip", || format!("{} {what}: the decoded value differs from the encoded one", t.name()));
    let b = must("encoding", || t.enc(got));
    check(b == it.b, "round-trip", || format!("{} {what}: the decoded value encodes to other bytes", t.name()));
}

pub fn run_s01(plan: &Plan) {
    let tys = Arc::new(wire::types());
    let items = Arc::new(values(plan, &tys));
    let tells = plan.get("tells") % 2 == 1;
    for it in items.iter() {
        let t = &*tys[it.ty];
        state(hash_str(t.name()) ^ mix(it.b.len() as u64));
        if let Err(e) = must("encoding", || t.forms(&it.v, &it.b)) {
            violate("encoding", format!("{}: {e}", t.name()));
        }
        // every stored prefix is an incomplete value
        let n = it.b.len();
        let mut r = Rng::sub(plan.hash(), "cuts", n as u64);
        let cuts: Vec<usize> = if n <= 200 { (0..n).collect() } else { (0..24).map(|i| if i < 3 { i } else if i < 6 { n - i + 2 } else { r.below(n as u64) as usize }).collect() };
        for c in cuts {
            let mut s = Stream::stored(&it.b[..c], tells);
            let got = must("decoding a truncated encoding", || t.dec(&mut s));
            check(got.is_err(), "truncated-accepted", || format!("{}: {c} of {n} bytes decode to a value", t.name()));
            probe("truncated encoding refused");
            fault("storage lost the tail of a record");
        }
        let mut s = Stream::stored(&it.b, tells);
        match must("decoding", || t.dec(&mut s)) {
            Ok(v) => {
                check(s.at == n, "consumed", || format!("{}: decoding consumed {} of {n} bytes", t.name(), s.at));
                same(t, it, &v, "from storage");
            }
            Err(e) => violate("round-trip", format!("{}: its own encoding does not decode: {e}", t.name())),
        }
        let mut rest = [&it.b[..], &[0xAA; 5]].concat();
        rest.push(1);
        let mut s = &rest[..];
        if let Err(e) = must("skipping", || t.skip(&mut s)) {
            violate("round-trip", format!("{}: skipping over its own encoding failed: {e}", t.name()));
        }
        check(s.len() == 6, "consumed", || format!("{}: skipping consumed {} of {n} bytes", t.name(), rest.len() - s.len()));
    }
    // containers
    for ty in 0..tys.len() {
        let vs: Vec<Val> = items.iter().filter(|i| i.ty == ty).map(|i| tys[ty].dec_slice(&mut &i.b[..]).expect("HARNESS decoded before")).collect();
        if !vs.is_empty() {
            if let Err(e) = must("containers", || tys[ty].many(&vs)) {
                violate("round-trip", format!("{}: {e}", tys[ty].name()));
            }
        }
    }
    // several receivers, each on its own connection, at the same time
    let hs: Vec<_> = (0..1 + plan.get("readers") % 3)
        .map(|k| {
            let (tys, items, plan) = (tys.clone(), items.clone(), plan.clone());
            std::thread::Builder::new().stack_size(16 << 20).spawn(move || harness(|| receive(k, &plan, &tys, &items))).expect("HARNESS spawn")
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            panic!("HARNESS thread: {}", last_panic());
        }
    }
}

fn receive(me: u64, plan: &Plan, tys: &Arc<Vec<Box<dyn Codec>>>, items: &Arc<Vec<Item>>) {
    let mut next = 0; // first value not yet received
    let breaks: Vec<&Op> = plan.ops.iter().filter(|o| o.k == "break").collect();
    for attempt in 0..=breaks.len() {
        let total: u64 = items[next..].iter().map(|i| i.b.len() as u64).sum();
        let (fail_at, hard, frag) = match breaks.get(attempt) {
            Some(o) => (o.arg(0) % (total + 1), o.arg(1) % 2 == 1, o.arg(2)),
            None => (u64::MAX, false, plan.get("frag")),
        };
        if fail_at != u64::MAX {
            fault(if hard { "connection reset" } else { "stream ended early" });
        }
        let pipe = Arc::new(Pipe::default());
        let sender = {
            let (p, items, tys) = (pipe.clone(), items.clone(), tys.clone());
            let r = Rng::sub(plan.hash(), "net", me << 8 | attempt as u64);
            std::thread::spawn(move || {
                harness(|| {
                    let mut s = Sink { p: p.clone(), r, frag, sent: 0, fail_at, hard };
                    for it in &items[next..] {
                        must("encoding to a stream", || tys[it.ty].enc_to(&it.v, &mut s));
                    }
                    let mut g = p.s.lock().unwrap();
                    if g.end.is_none() {
                        g.end = Some(false);
                    }
                    drop(g);
                    p.c.notify_all();
                })
            })
        };
        let mut s = Stream { p: Some(pipe), b: vec![], at: 0, tells: false };
        let mut whole = 0u64;
        while next < items.len() {
            let it = &items[next];
            let t = &*tys[it.ty];
            whole += it.b.len() as u64;
            match must("decoding from a stream", || t.dec(&mut s)) {
                Ok(v) => {
                    check(whole <= fail_at, "truncated-accepted", || format!("{}: a value was decoded although the stream broke at byte {fail_at} of {whole}", t.name()));
                    check(s.at as u64 == whole, "consumed", || format!("{}: decoding ended at byte {} instead of {whole}", t.name(), s.at));
                    same(t, it, &v, "from the stream");
                    probe("value received");
                    ev(&format!("r{me} {} {} bytes", t.name(), it.b.len()));
                    next += 1;
                }
                Err(e) => {
                    check(whole > fail_at, "round-trip", || format!("{}: an intact encoding does not decode from a stream: {e}", t.name()));
                    probe("broken stream reported");
                    ev(&format!("r{me} broken in {}", t.name()));
                    break;
                }
            }
        }
        sender.join().expect("HARNESS sender");
        if next == items.len() {
            return;
        }
    }
    violate("round-trip", format!("after the last break, {} values were not received", items.len() - next));
}

// ------------------------------------------------------------------ S02

pub fn gen_s02(r: &mut Rng, seed: u64, thorough: bool) -> (Plan, Spec) {
    let nt = wire::types().len() as u64;
    let mut p = Plan::new("S02").set("tells", r.below(2));
    for _ in 0..2 + r.below(if thorough { 12 } else { 7 }) {
        p.push("value", &[r.below(nt), r.below(1 << 40)]);
    }
    for _ in 0..20 + r.below(60) {
        p.push("damage", &[r.below(1 << 20), r.below(24), r.below(1 << 30), r.below(1 << 40)]);
    }
    p.p.insert("readers".into(), r.below(4));
    (p, crate::groth::gen_spec(r, seed, 300))
}

const P_R: [u64; 4] = <model::R as model::Modulus>::P;
const P_Q: [u64; 4] = <model::Q as model::Modulus>::P;

fn add256(a: [u64; 4], b: [u64; 4]) -> Option<[u64; 4]> {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let t = a[i] as u128 + b[i] as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
    }
    (c == 0).then_some(r)
}
fn put(b: &mut [u8], l: [u64; 4]) {
    for i in 0..4 {
        b[8 * i..8 * i + 8].copy_from_slice(&l[i].to_le_bytes());
    }
}

fn damage(o: &Op, items: &[Item], tys: &[Box<dyn Codec>], i: usize) -> (Vec<u8>, &'static str) {
    let it = &items[i];
    let mut b = it.b.clone();
    let n = b.len() as u64;
    let (x, y) = (o.arg(2), o.arg(3));
    let other = &items[y as usize % items.len()].b;
    let mut leaves = vec![];
    parse(tys[it.ty].lay(), &b, &mut 0, &mut leaves);
    let fields: Vec<_> = leaves.iter().filter(|l| matches!(l.2, Leaf::Fr | Leaf::Fq)).cloned().collect();
    let points: Vec<_> = leaves.iter().filter(|l| matches!(l.2, Leaf::Aff(_) | Leaf::Proj(_))).cloned().collect();
    let compacts: Vec<_> = leaves.iter().filter(|l| matches!(l.2, Leaf::Compact)).cloned().collect();
    if n == 0 {
        return (b, "nothing to damage");
    }
    let k = o.arg(1) % 24;
    match k {
        0 => {
            b[(x % n) as usize] ^= 1 << (y % 8);
            (b, "bit flipped")
        }
        1 => {
            b[(x % n) as usize] = y as u8;
            (b, "byte overwritten")
        }
        2 => {
            // a sector was lost
            let s = (x % n / 64 * 64) as usize;
            let e = (s + 64).min(b.len());
            b[s..e].iter_mut().for_each(|v| *v = if y & 1 == 0 { 0 } else { 0xff });
            (b, "sector zeroed or erased")
        }
        3 => {
            let s = (x % n) as usize;
            let e = s.max(s.min(other.len()));
            let m = (other.len() - s.min(other.len())).min(b.len() - e);
            let s2 = s.min(other.len());
            b[e..e + m].copy_from_slice(&other[s2..s2 + m]);
            (b, "torn write: tail of another record")
        }
        4 => (other.clone(), "misdirected: another record"),
        5 => {
            b.truncate((x % n) as usize);
            (b, "truncated")
        }
        6 => {
            let s = (x % n) as usize;
            b.remove(s);
            (b, "byte lost")
        }
        7 => {
            b.insert((x % (n + 1)) as usize, y as u8);
            (b, "byte inserted")
        }
        8 => {
            let mut r = Rng::sub(y, "noise", x);
            r.fill(&mut b);
            (b, "random bytes")
        }
        9..=13 if !fields.is_empty() => {
            let (at, _, leaf) = fields[x as usize % fields.len()];
            let p = if leaf == Leaf::Fr { P_R } else { P_Q };
            let v = wire::limbs(&b[at..]);
            let bump = |v: [u64; 4], n: u64| (0..n).try_fold(v, |v, _| add256(v, p));
            let w = match k {
                // the same residue, written differently
                9 | 10 => bump(v, 1 + y % 4).or_else(|| bump(v, 1)),
                11 => Some(p),
                12 => add256(p, [y % 3, 0, 0, 0]),
                _ => Some([[u64::MAX; 4], [0, 0, 0, u64::MAX], [p[0], p[1], p[2], p[3] + 1], [p[0].wrapping_sub(1), p[1], p[2], p[3]], [u64::MAX, u64::MAX, u64::MAX, p[3]], [0, 0, 0, p[3]]][y as usize % 6]),
            };
            if let Some(w) = w {
                put(&mut b[at..], w);
            }
            (b, "field element at or above the modulus")
        }
        14..=18 if !points.is_empty() => {
            let (at, len, leaf) = points[x as usize % points.len()];
            let (f, proj) = match leaf {
                Leaf::Aff(f) => (f, false),
                Leaf::Proj(f) => (f, true),
                _ => unreachable!(),
            };
            let c = if f == 2 { 64 } else { 32 };
            let what = match k {
                14 => {
                    // another canonical coordinate
                    let j = at + 32 * (y as usize % (len / 32));
                    let mut v = wire::limbs(&b[j..]);
                    v[0] ^= 1 << (y % 50);
                    put(&mut b[j..], v);
                    "point moved off its curve"
                }
                15 => {
                    for i in 0..c {
                        b.swap(at + i, at + c + i);
                    }
                    "coordinates exchanged"
                }
                16 if proj => {
                    b[at + 2 * c..at + 3 * c].iter_mut().for_each(|v| *v = 0);
                    "z coordinate zeroed"
                }
                16 => {
                    b[at + 2 * c] ^= 1;
                    "infinity flag flipped"
                }
                17 if proj => {
                    b[at..at + 3 * c].iter_mut().for_each(|v| *v = 0);
                    "all coordinates zeroed"
                }
                17 => {
                    b[at + 2 * c] = 2 + (y % 254) as u8;
                    "infinity flag not a boolean"
                }
                _ => {
                    b[at + c..at + 2 * c].iter_mut().for_each(|v| *v = 0);
                    "y coordinate zeroed"
                }
            };
            (b, what)
        }
        19..=21 if !compacts.is_empty() => {
            let (at, len, _) = compacts[x as usize % compacts.len()];
            let new: Vec<u8> = match y % 5 {
                0 => vec![0xfe, 0xff, 0xff, 0xff],
                1 => vec![0x03, 0xff, 0xff, 0xff, 0xff],
                2 => vec![0x13, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f],
                3 => vec![((y >> 8) % 64) as u8 * 4],
                _ => vec![0xff; 20],
            };
            b.splice(at..at + len, new);
            (b, "length or index replaced")
        }
        _ => {
            let s = (x % n) as usize;
            b.truncate(s);
            b.extend_from_slice(&other[s.min(other.len())..]);
            (b, "spliced with another record")
        }
    }
}

pub fn run_s02(plan: &Plan) {
    let tys = Arc::new(wire::types());
    let items = Arc::new(values(plan, &tys));
    if items.is_empty() {
        return;
    }
    // nodes that read the damaged store at the same time
    let n = 1 + plan.get("readers") % 4;
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let (tys, items) = (tys.clone(), items.clone());
            let ops: Vec<Op> = plan.ops.iter().filter(|o| o.k == "damage").enumerate().filter(|(i, _)| *i as u64 % n == t).map(|(_, o)| o.clone()).collect();
            let tells = plan.get("tells") % 2 == 1;
            std::thread::Builder::new().stack_size(16 << 20).spawn(move || harness(|| judge(&ops, &tys, &items, tells))).expect("HARNESS spawn")
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            panic!("HARNESS thread: {}", last_panic());
        }
    }
}

fn judge(ops: &[Op], tys: &[Box<dyn Codec>], items: &[Item], tells: bool) {
    for o in ops {
        let i = o.arg(0) as usize % items.len();
        let it = &items[i];
        let t = &*tys[it.ty];
        let (b, what) = damage(o, items, tys, i);
        let hit = b != it.b;
        if hit {
            fault(what);
        }
        let mut s = Stream::stored(&b, tells);
        let r = must("decoding damaged bytes", || t.dec(&mut s));
        ev(&format!("{} {what} {}", t.name(), if r.is_ok() { "value" } else { "error" }));
        state(hash_str(t.name()) ^ mix(hash_str(what) ^ r.is_ok() as u64));
        match r {
            Err(_) => {
                probe("damaged bytes refused");
                check(hit, "round-trip", || format!("{}: an intact record does not decode", t.name()));
            }
            Ok(v) => {
                probe("damaged bytes decoded");
                let e = must("encoding", || t.enc(&v));
                if let Err(m) = sound(t.lay(), &e) {
                    violate("invalid-value", format!("{} ({what}): {m}", t.name()));
                }
                if t.injective() {
                    check(e == b[..s.at], "two-encodings", || format!("{} ({what}): two byte strings decode to the same element", t.name()));
                }
                if let Err(m) = must("using a decoded value", || t.usable(&v)) {
                    violate("invalid-value", format!("{} ({what}): {m}", t.name()));
                }
                let equal = must("comparing", || t.eq(&it.v, &v));
                if t.injective() && equal {
                    check(b[..s.at] == it.b, "two-encodings", || format!("{} ({what}): equal to the value of other bytes", t.name()));
                }
            }
        }
        // the record of an unharmed neighbour is still readable
        let nb = &items[(i + 1) % items.len()];
        let mut s = Stream::stored(&nb.b, tells);
        match must("decoding", || tys[nb.ty].dec(&mut s)) {
            Ok(v) => same(&*tys[nb.ty], nb, &v, "after damage elsewhere"),
            Err(e) => violate("round-trip", format!("{}: an intact record does not decode: {e}", tys[nb.ty].name())),
        }
        raw_bytes(o);
    }
}

/// The fixed-size byte form of the prime fields.
fn raw_bytes(o: &Op) {
    use zkstd::common::{PrimeField, SigUtils};
    let (x, y) = (o.arg(2), o.arg(3));
    fn one<F: SigUtils<32> + PrimeField>(x: u64, y: u64, p: [u64; 4], canonical: impl Fn(&F) -> [u64; 4]) {
        let l = match x % 6 {
            0 => p,
            1 => [p[0] - 1, p[1], p[2], p[3]],
            2 => [p[0] + y % 4, p[1], p[2], p[3]],
            3 => [u64::MAX; 4],
            4 => [derive(y, "a", 0), derive(y, "b", 0), derive(y, "c", 0), derive(y, "d", 0) >> 2],
            _ => [derive(y, "a", 0), derive(y, "b", 0), derive(y, "c", 0), p[3]],
        };
        let mut b = [0u8; 32];
        put(&mut b, l);
        let r = must("reading bytes", || F::from_bytes(b));
        match r {
            None => check(model::geq(&l, &p), "round-trip", || format!("the bytes of a canonical integer {l:x?} are refused")),
            Some(v) => {
                check(!model::geq(&l, &p), "two-encodings", || format!("the integer {l:x?} is not below the modulus and is accepted"));
                check(!model::geq(&canonical(&v), &p), "invalid-value", || "a field element is not below the modulus".into());
                let c = must("writing bytes", || v.to_bytes());
                check(c == b, "two-encodings", || format!("bytes of {l:x?} come back as {c:x?}"));
                let w = must("writing bytes", || v.to_raw_bytes());
                check(w == b, "round-trip", || "to_raw_bytes differs from to_bytes".into());
            }
        }
    }
    one::<bn_254::Fr>(x, y, P_R, |v| *v.inner());
    one::<bn_254::Fq>(x >> 8, y, P_Q, |v| *v.inner());
    // the textual form
    fn text<F: serde::Serialize + serde::de::DeserializeOwned + PartialEq + Copy>(x: u64, y: u64, p: [u64; 4], v: F, inner: impl Fn(&F) -> [u64; 4]) {
        let s = must("serialising", || serde_json::to_string(&v)).unwrap_or_default();
        let w = must("deserialising", || serde_json::from_str::<F>(&s)).ok();
        check(w == Some(v), "round-trip", || format!("serialised element {s} comes back as another"));
        let l = match x % 4 {
            0 => Some(p),
            1 => add256(inner(&v), p),
            2 => Some([u64::MAX; 4]),
            _ => Some([derive(y, "a", 1), derive(y, "b", 1), derive(y, "c", 1), derive(y, "d", 1)]),
        };
        let Some(l) = l else { return };
        let s = format!("[{},{},{},{}]", l[0], l[1], l[2], l[3]);
        if let Ok(w) = must("deserialising", || serde_json::from_str::<F>(&s)) {
            check(!model::geq(&inner(&w), &p), "invalid-value", || format!("serialised integer {s} is not below the modulus and is accepted"));
        }
        probe("serialised form judged");
    }
    let mut r = Rng::sub(y, "text", x);
    text(x >> 4, y, P_R, wire::mk_fr(&mut r), |v| *v.inner());
    text(x >> 12, y, P_Q, wire::mk_fq(&mut r), |v| *v.inner());
}
