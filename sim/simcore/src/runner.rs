//! Runs one simulated execution per forked process, in parallel, and turns a
//! violation into a minimised replay file.
use crate::rng::mix;
use crate::sched::{self, Dev, Spec};
use serde_json::{json, Map, Value};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::io::Write;

// ------------------------------------------------------------------ plans

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Op {
    pub k: String,
    pub a: Vec<u64>,
}

impl Op {
    pub fn new(k: &str, a: &[u64]) -> Self {
        Op { k: k.into(), a: a.to_vec() }
    }
    pub fn arg(&self, i: usize) -> u64 {
        self.a.get(i).copied().unwrap_or(0)
    }
}

/// A workload with its faults: parameters and an ordered list of operations.
/// Every value is legal for every scenario, so that shrinking never builds an
/// ill-formed plan.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Plan {
    pub scenario: String,
    pub p: BTreeMap<String, u64>,
    pub ops: Vec<Op>,
}

impl Plan {
    pub fn new(s: &str) -> Self {
        Plan { scenario: s.into(), p: BTreeMap::new(), ops: vec![] }
    }
    pub fn set(mut self, k: &str, v: u64) -> Self {
        self.p.insert(k.into(), v);
        self
    }
    pub fn get(&self, k: &str) -> u64 {
        self.p.get(k).copied().unwrap_or(0)
    }
    pub fn push(&mut self, k: &str, a: &[u64]) {
        self.ops.push(Op::new(k, a));
    }
    pub fn to_json(&self) -> Value {
        json!({"scenario": self.scenario, "params": self.p,
               "ops": self.ops.iter().map(|o| json!([o.k, o.a])).collect::<Vec<_>>()})
    }
    pub fn from_json(v: &Value) -> Plan {
        Plan {
            scenario: v["scenario"].as_str().unwrap().into(),
            p: v["params"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap())).collect(),
            ops: v["ops"].as_array().unwrap().iter().map(|o| Op {
                k: o[0].as_str().unwrap().into(),
                a: o[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
            }).collect(),
        }
    }
    pub fn hash(&self) -> u64 {
        hash_str(&self.to_json().to_string())
    }
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0x1234_5678, |h, b| mix(h ^ b as u64))
}

pub fn spec_json(s: &Spec) -> Value {
    json!({"seed": s.seed, "policy": s.policy, "tick": s.tick, "spurious": s.spurious,
        "entropy_fault": s.entropy_fault, "edge_cap": s.edge_cap,
        "schedule": s.replay.as_ref().map(|r| r.iter().map(|d| json!([if d.tick {"preempt"} else {"sync"}, d.at, d.to])).collect::<Vec<_>>())})
}
pub fn spec_from(v: &Value) -> Spec {
    Spec {
        seed: v["seed"].as_u64().unwrap(),
        policy: v["policy"].as_u64().unwrap() as u32,
        tick: v["tick"].as_u64().unwrap(),
        spurious: v["spurious"].as_u64().unwrap(),
        entropy_fault: v["entropy_fault"].as_u64().unwrap(),
        edge_cap: v["edge_cap"].as_u64().unwrap(),
        replay: v["schedule"].as_array().map(|r| r.iter().map(|d| Dev {
            tick: d[0].as_str() == Some("preempt"),
            at: d[1].as_u64().unwrap(),
            to: d[2].as_u64().unwrap() as u32,
        }).collect()),
        record: false,
    }
}

// ------------------------------------------------------------------ inside a run

struct Ctx {
    out: i32,
    hash: u64,
    events: u64,
    log: Vec<String>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    states: Vec<u64>,
    panic_at: String,
    keep_log: bool,
}
struct Cell(UnsafeCell<Option<Ctx>>);
unsafe impl Sync for Cell {}
static CTX: Cell = Cell(UnsafeCell::new(None));

fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> Option<R> {
    sched::harness(|| unsafe { (*CTX.0.get()).as_mut().map(f) })
}

/// Records an event of the history (and of the determinism hash).
pub fn ev(s: &str) {
    let s = s.to_string();
    with(|c| {
        c.hash = mix(c.hash ^ hash_str(&s));
        c.events += 1;
        if c.keep_log || c.log.len() < 400 {
            c.log.push(s);
        }
    });
}
/// A fault that really fired.
pub fn fault(k: &str) {
    with(|c| *c.faults.entry(k.into()).or_insert(0) += 1);
}
/// A condition of interest that was reached.
pub fn probe(k: &str) {
    with(|c| *c.probes.entry(k.into()).or_insert(0) += 1);
}
pub fn probe_n(k: &str, n: u64) {
    with(|c| *c.probes.entry(k.into()).or_insert(0) += n);
}
/// A distinct system state that was visited.
pub fn state(h: u64) {
    with(|c| c.states.push(h));
}

fn emit(viol: Option<(String, String)>, harness_err: Option<String>) -> ! {
    let s = sched::stop();
    unsafe {
        let c = (*CTX.0.get()).as_mut().unwrap();
        let v = json!({
            "hash": mix(c.hash ^ s.sched_hash ^ s.edges), "events": c.events, "faults": c.faults,
            "probes": c.probes, "states": c.states,
            "edges": s.edges, "switches": s.switches, "preemptions": s.preemptions,
            "decisions": s.decisions, "spurious": s.spurious, "entropy_faults": s.entropy_faults,
            "timer_fires": s.timer_fires, "threads": s.threads, "sched_hash": s.sched_hash,
            "clock_ns": s.clock_ns, "blocks": s.blocks, "cov_hash": s.cov_hash,
            "class": viol.as_ref().map(|v| v.0.clone()), "detail": viol.as_ref().map(|v| v.1.clone()),
            "harness_error": harness_err,
            "log": if viol.is_some() || c.keep_log { json!(c.log) } else { Value::Null },
            "trace": s.trace.iter().map(|d| json!([if d.tick {"preempt"} else {"sync"}, d.at, d.to])).collect::<Vec<_>>(),
        });
        let b = v.to_string();
        let mut p = b.as_bytes();
        while !p.is_empty() {
            let n = libc::write(c.out, p.as_ptr() as *const _, p.len());
            if n <= 0 {
                break;
            }
            p = &p[n as usize..];
        }
        libc::_exit(0)
    }
}

/// The property is broken: ends the run.
pub fn violate(class: &str, detail: String) -> ! {
    ev(&format!("VIOLATION {class}"));
    emit(Some((class.into(), detail)), None)
}

pub fn check(cond: bool, class: &str, detail: impl FnOnce() -> String) {
    if !cond {
        violate(class, detail())
    }
}

fn on_stall(why: &'static str) {
    let class = match why {
        "deadlock" => "deadlock",
        _ => "no-progress",
    };
    emit(Some((class.into(), format!("the run stopped making progress: {why}"))), None)
}

/// The panic location of the last caught panic (message included).
pub fn last_panic() -> String {
    with(|c| c.panic_at.clone()).unwrap_or_default()
}

fn is_harness_panic(at: &str) -> bool {
    at.contains("HARNESS")
}

/// Calls code under test; a panic is returned as Err(location and message).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sched::sut(f)));
    match r {
        Ok(r) => Ok(r),
        Err(e) => {
            if e.downcast_ref::<InjectedPanic>().is_some() {
                return Err("injected".into());
            }
            let at = last_panic();
            if is_harness_panic(&at) {
                emit(None, Some(at));
            }
            Err(at)
        }
    }
}

/// Payload of a panic raised by a fault injector.
pub struct InjectedPanic;
pub fn inject_panic() -> ! {
    std::panic::resume_unwind(Box::new(InjectedPanic))
}

fn child(out: i32, plan: Plan, spec: Spec, exec: &'static (dyn Fn(&Plan) + Sync), keep_log: bool) -> ! {
    unsafe {
        // no core files, no runaway memory
        let lim = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        *CTX.0.get() = Some(Ctx {
            out,
            hash: plan.hash(),
            events: 0,
            log: vec![],
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            states: vec![],
            panic_at: String::new(),
            keep_log,
        });
    }
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        with(|c| c.panic_at = format!("panic at {at}: {m}"));
    }));
    if let Some(w) = plan.p.get("workers") {
        std::env::set_var("RAYON_NUM_THREADS", (1 + w % 8).to_string());
    } else {
        std::env::set_var("RAYON_NUM_THREADS", "1");
    }
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            sched::start(spec, on_stall);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(&plan)));
            match r {
                Ok(()) => emit(None, None),
                // guard() is where code under test may panic; anything else is the harness
                Err(_) => emit(None, Some(format!("unguarded {}", last_panic()))),
            }
        })
        .unwrap();
    loop {
        unsafe {
            libc::pause();
        }
    }
}

// ------------------------------------------------------------------ the master

#[derive(Clone, Debug)]
pub struct Res {
    pub v: Value,
}
impl Res {
    pub fn class(&self) -> Option<&str> {
        self.v["class"].as_str()
    }
    pub fn detail(&self) -> &str {
        self.v["detail"].as_str().unwrap_or("")
    }
    pub fn n(&self, k: &str) -> u64 {
        self.v[k].as_u64().unwrap_or(0)
    }
    pub fn harness_error(&self) -> Option<&str> {
        self.v["harness_error"].as_str()
    }
}

#[derive(Clone)]
pub struct Job {
    pub idx: u64,
    pub plan: Plan,
    pub spec: Spec,
    pub keep_log: bool,
}

struct Live {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    job: Job,
    t0: u64,
}

pub static mut RUN_WALL_S: u64 = 240;

/// Runs jobs in forked processes, `par` at a time; stops early when `on` returns false.
pub fn run_jobs(
    jobs: &mut dyn Iterator<Item = Job>,
    par: usize,
    exec: &'static (dyn Fn(&Plan) + Sync),
    on: &mut dyn FnMut(Job, Res) -> bool,
) {
    let mut live: Vec<Live> = vec![];
    let mut more = true;
    loop {
        while more && live.len() < par {
            match jobs.next() {
                None => more = false,
                Some(job) => unsafe {
                    let mut fds = [0i32; 2];
                    assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
                    std::io::stdout().flush().ok();
                    let pid = libc::fork();
                    assert!(pid >= 0, "fork");
                    if pid == 0 {
                        libc::close(fds[0]);
                        child(fds[1], job.plan, job.spec, exec, job.keep_log);
                    }
                    libc::close(fds[1]);
                    live.push(Live { pid, fd: fds[0], buf: vec![], job, t0: sched::real_now() });
                },
            }
        }
        if live.is_empty() {
            return;
        }
        let mut pf: Vec<libc::pollfd> =
            live.iter().map(|l| libc::pollfd { fd: l.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe {
            libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000);
        }
        let mut i = 0;
        let mut k = 0;
        while i < live.len() {
            let mut done = false;
            let mut killed = false;
            if pf[k].revents != 0 {
                let mut b = [0u8; 65536];
                let n = unsafe { libc::read(live[i].fd, b.as_mut_ptr() as *mut _, b.len()) };
                if n > 0 {
                    live[i].buf.extend_from_slice(&b[..n as usize]);
                } else {
                    done = true;
                }
            } else if sched::real_now() - live[i].t0 > unsafe { RUN_WALL_S } * 1_000_000_000 {
                unsafe {
                    libc::kill(live[i].pid, libc::SIGKILL);
                }
                killed = true;
                done = true;
            }
            k += 1;
            if !done {
                i += 1;
                continue;
            }
            let l = live.remove(i);
            let mut st = 0;
            unsafe {
                libc::close(l.fd);
                libc::waitpid(l.pid, &mut st, 0);
            }
            let v = match serde_json::from_slice::<Value>(&l.buf) {
                Ok(v) if !killed => v,
                _ => {
                    let sig = st & 0x7f;
                    // progress is judged by the step budget, not by the wall clock
                    let (class, detail) = if killed || sig == libc::SIGKILL || sig == libc::SIGTERM {
                        ("inconclusive".to_string(), "the run was killed".to_string())
                    } else {
                        ("process-crash".to_string(), format!("the process running the node died, signal {sig}"))
                    };
                    json!({"class": class, "detail": detail, "hash": 0, "log": []})
                }
            };
            if !on(l.job, Res { v }) {
                for l in live.drain(..) {
                    unsafe {
                        libc::kill(l.pid, libc::SIGKILL);
                        let mut st = 0;
                        libc::waitpid(l.pid, &mut st, 0);
                        libc::close(l.fd);
                    }
                }
                return;
            }
        }
    }
}

pub fn run_one(job: Job, exec: &'static (dyn Fn(&Plan) + Sync)) -> Res {
    let mut r = None;
    run_jobs(&mut std::iter::once(job), 1, exec, &mut |_, x| {
        r = Some(x);
        true
    });
    r.unwrap()
}

// ------------------------------------------------------------------ minimising

pub struct Minimised {
    pub plan: Plan,
    pub spec: Spec,
    pub res: Res,
    pub tried: u64,
}

/// Shrinks operations, arguments, faults and schedule while the violation class persists.
pub fn minimise(
    plan: Plan,
    spec: Spec,
    class: &str,
    par: usize,
    budget_s: u64,
    exec: &'static (dyn Fn(&Plan) + Sync),
) -> Minimised {
    let end = sched::real_now() + budget_s * 1_000_000_000;
    let mut tried = 0;
    // first candidate (in order) that still fails
    let mut first_failing = |cands: Vec<(Plan, Spec)>| -> Option<(Plan, Spec)> {
        let mut best: Option<(u64, Plan, Spec)> = None;
        for chunk in cands.chunks(par) {
            if sched::real_now() > end {
                return None;
            }
            let mut it = chunk.iter().enumerate().map(|(i, (p, s))| Job {
                idx: i as u64,
                plan: p.clone(),
                spec: s.clone(),
                keep_log: false,
            });
            run_jobs(&mut it, par, exec, &mut |j, r| {
                tried += 1;
                if r.class() == Some(class) && best.as_ref().map_or(true, |b| j.idx < b.0) {
                    best = Some((j.idx, j.plan, j.spec));
                }
                true
            });
            if let Some((_, p, s)) = best.take() {
                return Some((p, s));
            }
        }
        None
    };
    let mut plan = plan;
    let mut spec = spec;
    // 1. does it need the schedule at all? Candidates from simplest to the original.
    let mut simple = vec![];
    let mut s0 = Spec::reference();
    s0.seed = spec.seed;
    s0.edge_cap = spec.edge_cap;
    s0.replay = Some(vec![]);
    simple.push((plan.clone(), s0.clone()));
    let mut s1 = s0.clone();
    s1.spurious = spec.spurious;
    s1.entropy_fault = spec.entropy_fault;
    s1.policy = spec.policy;
    simple.push((plan.clone(), s1));
    if let Some((p, s)) = first_failing(simple) {
        plan = p;
        spec = s;
    } else if spec.replay.is_none() {
        let mut rec = spec.clone();
        rec.record = true;
        let r = run_one(Job { idx: 0, plan: plan.clone(), spec: rec, keep_log: false }, exec);
        if r.class() == Some(class) {
            let mut s = spec.clone();
            s.replay = spec_from(&json!({"seed":0,"policy":0,"tick":0,"spurious":0,"entropy_fault":0,"edge_cap":0,"schedule": r.v["trace"]})).replay;
            if let Some((_, s)) = first_failing(vec![(plan.clone(), s)]) {
                spec = s;
            }
        }
    }
    // 2. drop operations
    let mut chunk = (plan.ops.len() / 2).max(1);
    loop {
        let mut improved = false;
        let mut cands = vec![];
        let mut i = 0;
        while i < plan.ops.len() {
            let mut p = plan.clone();
            p.ops.drain(i..(i + chunk).min(p.ops.len()));
            cands.push((p, spec.clone()));
            i += chunk;
        }
        if let Some((p, s)) = first_failing(cands) {
            plan = p;
            spec = s;
            improved = true;
        }
        if improved {
            chunk = chunk.min((plan.ops.len() / 2).max(1));
        } else if chunk > 1 {
            chunk /= 2;
        } else {
            break;
        }
        if plan.ops.is_empty() || sched::real_now() > end {
            break;
        }
    }
    // 3. shrink parameters and arguments
    for _round in 0..6 {
        let mut improved = false;
        let keys: Vec<String> = plan.p.keys().cloned().collect();
        for k in keys {
            let v = plan.p[&k];
            let cands: Vec<_> = shrinks(v).into_iter().map(|x| (plan.clone().set(&k, x), spec.clone())).collect();
            if let Some((p, _)) = first_failing(cands) {
                plan = p;
                improved = true;
            }
        }
        for i in 0..plan.ops.len() {
            for j in 0..plan.ops[i].a.len() {
                let v = plan.ops[i].a[j];
                let cands: Vec<_> = shrinks(v).into_iter().map(|x| {
                    let mut p = plan.clone();
                    p.ops[i].a[j] = x;
                    (p, spec.clone())
                }).collect();
                if let Some((p, _)) = first_failing(cands) {
                    plan = p;
                    improved = true;
                }
            }
        }
        if !improved || sched::real_now() > end {
            break;
        }
    }
    // 4. drop schedule deviations
    if let Some(r) = spec.replay.clone() {
        let mut cur = r;
        let mut chunk = (cur.len() / 2).max(1);
        while !cur.is_empty() && sched::real_now() < end {
            let mut cands = vec![];
            let mut i = 0;
            while i < cur.len() {
                let mut c = cur.clone();
                c.drain(i..(i + chunk).min(c.len()));
                let mut s = spec.clone();
                s.replay = Some(c);
                cands.push((plan.clone(), s));
                i += chunk;
            }
            if let Some((_, s)) = first_failing(cands) {
                cur = s.replay.clone().unwrap();
                spec = s;
                chunk = chunk.min((cur.len() / 2).max(1));
            } else if chunk > 1 {
                chunk /= 2;
            } else {
                break;
            }
        }
    }
    drop(first_failing);
    let res = run_one(Job { idx: 0, plan: plan.clone(), spec: spec.clone(), keep_log: true }, exec);
    Minimised { plan, spec, res, tried }
}

fn shrinks(v: u64) -> Vec<u64> {
    if v == 0 {
        return vec![];
    }
    let mut c = vec![0, 1, 2, 3, v >> 32, v & 0xffff_ffff, v & 0xffff, v & 0xff, v / 2, v - 1];
    c.retain(|&x| x < v);
    c.sort();
    c.dedup();
    c
}

pub fn merge_counts(into: &mut BTreeMap<String, u64>, v: &Value) {
    if let Some(m) = v.as_object() {
        let m: &Map<String, Value> = m;
        for (k, n) in m {
            *into.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
    }
}
