//! Turns scenarios into checks: seeds, run counts, evidence, violations.
use crate::{codec, fold, gadget, groth, ivc, rand, stepc};
use serde_json::{json, Value};
use simcore::{sched, *};
use std::collections::{BTreeMap, BTreeSet};

pub struct Row {
    pub id: &'static str,
    pub gen: fn(&mut Rng, u64, bool) -> (Plan, Spec),
    pub exec: &'static (dyn Fn(&Plan) + Sync),
    /// work shared by all runs, done once before the first fork
    pub prepare: fn(),
    pub quick: (u64, u64),
    pub thorough: (u64, u64),
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub rule: &'static str,
}

fn nothing() {}

const G_REAL: &[&str] = &[
    "zkgroth16 (setup, prover, verifier, fft, msm)",
    "zkstd (constraint systems, gadgets, fields, curves)",
    "bn-254 (curve, pairing)",
    "grumpkin",
    "rayon and rayon-core (the real worker pool, under the simulated scheduler)",
    "std's Mutex/Condvar/Once/park and thread spawn/join",
];
const G_STUB: &[&str] = &[
    "futex, clock, sleep, yield, getrandom: simulated kernel",
    "caller's random source: simulated stream",
];

const R_REAL: &[&str] = &["zkstd, bn-254, grumpkin, zknova: sampling of fields, extension fields, points, commitment keys", "rand_core's OsRng and getrandom's retry loop"];
const R_STUB: &[&str] = &["caller's random source: simulated byte stream", "getrandom system call: simulated kernel, with interruptions and short reads"];

const K_REAL: &[&str] = &["zkstd: constraint systems, gates and gadgets of both drivers", "zknova's drivers, bn-254, grumpkin"];
const K_STUB: &[&str] = &["prover's memory: values corrupted while or after they are assigned, and repaired by a forger", "clock and threads: simulated kernel"];

const W_REAL: &[&str] = &["zkstd, bn-254, grumpkin, zknova: Encode, Decode, serde and SigUtils of every encodable type", "parity-scale-codec, serde_json"];
const W_STUB: &[&str] = &["storage and transport: in-memory medium with injected damage, fragmentation and breaks", "clock and threads: simulated kernel"];

const N_REAL: &[&str] = &["zknova: relations, commitments, transcript hash, folding prover and verifier", "zkstd (constraint systems, gadgets, matrices), bn-254, grumpkin", "parity-scale-codec"];
const N_STUB: &[&str] = &["network and disk: in-memory, with injected loss, duplication, reordering, damage, torn writes", "clock, futex, threads: simulated kernel", "caller's random source: simulated stream", "sums of long commitments: the same points from the keys' known structure, except in runs marked slow and in N03"];

#[cfg(feature = "chain")]
const C_REAL: &[&str] = &["pallet-nova: the dispatchable call and the service other pallets use", "zknova, zkstd, bn-254, grumpkin: decoding and verification of proofs under decoded parameters", "parity-scale-codec"];
#[cfg(feature = "chain")]
const C2_REAL: &[&str] = &["zk-storage (sample): both dispatchable calls, the sum, the step function", "pallet-nova: the dispatchable call", "zknova, zkstd, bn-254, grumpkin: decoding and verification of proofs under decoded parameters", "parity-scale-codec"];
#[cfg(feature = "chain")]
const C_STUB: &[&str] = &["frame-support and frame-system: outcome and origin types, storage values, events, written from FRAME 3.0's definitions", "consensus: a service that orders submissions into blocks", "network, node storage, clocks: simulated, with loss, duplication, reordering, partitions, crashes, torn writes"];

pub fn rows() -> Vec<Row> {
    let g = |id, gen, exec, quick, thorough, rule| Row { id, gen, exec, prepare: nothing, quick, thorough, real: G_REAL, stub: G_STUB, rule };
    let w = |id, gen, exec, quick, thorough, rule| Row { id, gen, exec, prepare: nothing, quick, thorough, real: W_REAL, stub: W_STUB, rule };
    vec![
        g("G01", groth::gen_g01, &groth::run_g01, (600, 100), (20000, 1500),
            "a run is one random set of circuits, sessions and schedule; non-trivial if at least one proof was verified"),
        g("G02", groth::gen_g02, &groth::run_g02, (400, 100), (15000, 1500),
            "a run is honest and Byzantine provers, a random delivery sequence and a schedule; non-trivial if a forgery and an intact proof were judged"),
        g("G03", groth::gen_g03, &groth::run_g03, (400, 100), (15000, 1500),
            "a run executes the same sessions in the single-threaded build and under a random schedule; non-trivial if threads were switched"),
        g("G04", groth::gen_g04, &groth::run_g04, (400, 100), (15000, 1500),
            "a run is a sequence of key generations and proofs on healthy and degraded sources; non-trivial if blinding was compared or a degraded source used"),
        g("G05", groth::gen_g05, &groth::run_g05, (400, 100), (15000, 1500),
            "a run executes sessions with and without aborted operations in between; non-trivial if an abort fired"),
        g("G06", groth::gen_g06, &groth::run_g06, (400, 100), (15000, 1500),
            "a run compares proofs with the reference model under altered keys, odd sources and a random schedule; non-trivial if a comparison took place"),
        Row { id: "G07", gen: gadget::gen_g07, exec: &gadget::run_g07, prepare: nothing, quick: (20000, 60), thorough: (400000, 1500), real: K_REAL, stub: K_STUB,
            rule: "a run builds a random system of gadgets on either curve and forges its values a few times; non-trivial if a forgery was judged" },
        Row { id: "R01", gen: rand::gen_r01, exec: &rand::run_r01, prepare: nothing, quick: (25000, 70), thorough: (600000, 1200), real: R_REAL, stub: R_STUB,
            rule: "a run draws elements of random types from random sources shared by random threads; non-trivial if something was sampled" },
        w("S01", codec::gen_s01, &codec::run_s01, (8000, 70), (100000, 1200),
            "a run encodes random values of random types onto fragmenting, breaking streams with concurrent receivers; non-trivial if a value was received or a truncation refused"),
        w("S02", codec::gen_s02, &codec::run_s02, (30000, 70), (100000, 1200),
            "a run damages stored encodings dozens of times; non-trivial if damaged bytes were judged"),
        Row { id: "N01", gen: ivc::gen_n01, exec: &ivc::run_n01, prepare: ivc::prepare_pairs, quick: (1000, 75), thorough: (2000, 1800), real: N_REAL, stub: N_STUB,
            rule: "a run is a pair of step functions, provers from random states, their steps, deliveries and crashes; non-trivial if a step was proved" },
        Row { id: "N02", gen: ivc::gen_n02, exec: &ivc::run_n02, prepare: ivc::prepare, quick: (300, 90), thorough: (20000, 2400), real: N_REAL, stub: N_STUB,
            rule: "a run delivers intact, altered, spliced and forged proofs to a verifier; non-trivial if one was judged" },
        Row { id: "N04", gen: ivc::gen_n04, exec: &ivc::run_n04, prepare: ivc::prepare, quick: (400, 60), thorough: (20000, 2400), real: N_REAL, stub: N_STUB,
            rule: "a run delivers malformed proofs and parameters to a verifier; non-trivial if one was judged" },
        #[cfg(feature = "chain")]
        Row { id: "C01", gen: crate::chain::gen_c01, exec: &crate::chain::run_c01, prepare: crate::chain::prepare, quick: (200, 60), thorough: (10000, 2400), real: C_REAL, stub: C_STUB,
            rule: "a run is a chain of nodes, submissions and faults; non-trivial if a node executed a submission" },
        #[cfg(feature = "chain")]
        Row { id: "C02", gen: crate::chain::gen_c02, exec: &crate::chain::run_c01, prepare: crate::chain::prepare, quick: (200, 60), thorough: (10000, 2400), real: C2_REAL, stub: C_STUB,
            rule: "a run is a chain of nodes, calls and faults; non-trivial if a node executed a call" },
        Row { id: "N05", gen: stepc::gen_n05, exec: &stepc::run_n05, prepare: nothing, quick: (400, 80), thorough: (20000, 2400), real: N_REAL, stub: K_STUB,
            rule: "a run synthesises steps on honest advice and forges their values; non-trivial if a forgery was judged" },
        Row { id: "N03", gen: fold::gen_n03, exec: &fold::run_n03, prepare: nothing, quick: (3000, 80), thorough: (100000, 1500), real: N_REAL, stub: N_STUB,
            rule: "a run folds sequences of satisfied and unsatisfied instances on either curve through a faulty channel; non-trivial if prover and verifier folded" },
    ]
}

fn row(id: &str) -> Row {
    rows().into_iter().find(|r| r.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {id}");
        std::process::exit(2)
    })
}

/// Addresses must not differ between processes: restart without randomisation.
pub fn no_aslr() {
    unsafe {
        const NR: u64 = 0x0040000;
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && cur as u64 & NR == 0 && std::env::var_os("SCEN_ASLR").is_none() {
            if libc::personality((cur as u64 | NR) as libc::c_ulong) >= 0 {
                std::env::set_var("SCEN_ASLR", "off");
                let exe = std::fs::read_link("/proc/self/exe").unwrap();
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new(exe).args(std::env::args_os().skip(1)).exec();
                eprintln!("re-exec failed: {e}");
                std::process::exit(2);
            }
        }
    }
}

fn root() -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into())
}

fn cpus() -> usize {
    let n = std::thread::available_parallelism().map_or(8, |n| n.get());
    std::env::var("SCEN_PAR").ok().and_then(|s| s.parse().ok()).unwrap_or(n).max(1)
}

fn job(r: &Row, seed: u64, i: u64, thorough: bool) -> Job {
    let mut rng = Rng::sub(seed, r.id, i);
    let s = rng.u64();
    let (mut plan, spec) = (r.gen)(&mut rng, s, thorough);
    // directed, so that every check meets it
    if r.id == "N02" && i % 40 == 1 {
        plan = ivc::late_plan(&mut rng);
    }
    Job { idx: i, plan, spec, keep_log: false }
}

// ------------------------------------------------------------------ known findings

struct Known {
    class: String,
    signature: String,
    what: String,
}
fn known(id: &str) -> Vec<Known> {
    let f = root().join("known_findings.json");
    let Ok(t) = std::fs::read_to_string(&f) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known_findings.json");
    v["findings"].as_array().into_iter().flatten().filter(|k| k["property"].as_str() == Some(id)).map(|k| Known {
        class: k["class"].as_str().unwrap().into(),
        signature: k["signature"].as_str().unwrap().into(),
        what: k["what"].as_str().unwrap().into(),
    }).collect()
}

#[derive(Default)]
struct Stats {
    runs: u64,
    twice: u64,
    distinct: BTreeSet<u64>,
    scheds: BTreeSet<u64>,
    states: BTreeSet<u64>,
    covs: BTreeSet<u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    edges: u64,
    clock: u64,
    switches: u64,
    preemptions: u64,
    decisions: u64,
    events: u64,
    max_threads: u64,
    blocks: u64,
    inconclusive: u64,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
}

impl Stats {
    fn add(&mut self, j: &Job, r: &Res) {
        self.runs += 1;
        let (s, nontrivial) = (r.n("sched_hash"), r.n("events") > 0 && !r.v["probes"].as_object().map_or(true, |m| m.is_empty()));
        if nontrivial {
            self.distinct.insert(mix(j.plan.hash() ^ s));
        }
        self.scheds.insert(mix(s ^ r.n("switches")));
        for x in r.v["states"].as_array().into_iter().flatten() {
            self.states.insert(x.as_u64().unwrap_or(0));
        }
        self.covs.insert(r.n("cov_hash"));
        merge_counts(&mut self.faults, &r.v["faults"]);
        merge_counts(&mut self.probes, &r.v["probes"]);
        for (k, n) in [("spurious wake-up", "spurious"), ("OS entropy interrupted or short", "entropy_faults"), ("preemption inside a basic block sequence", "preemptions"), ("timer fired by clock jump", "timer_fires")] {
            if r.n(n) > 0 {
                *self.faults.entry(k.into()).or_insert(0) += r.n(n);
            }
        }
        self.edges += r.n("edges");
        self.clock += r.n("clock_ns");
        self.switches += r.n("switches");
        self.preemptions += r.n("preemptions");
        self.decisions += r.n("decisions");
        self.events += r.n("events");
        self.max_threads = self.max_threads.max(r.n("threads"));
        self.blocks = self.blocks.max(r.n("blocks"));
        if self.samples.len() < 3 && nontrivial {
            self.samples.push(json!({"run": j.idx, "plan": j.plan.to_json(), "spec": spec_json(&j.spec), "history_hash": format!("{:016x}", r.n("hash"))}));
        }
    }
}

pub fn run(id: &str) {
    let t0 = sched::real_now();
    let row = row(id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |s| s == "thorough");
    let (mut n, mut cap) = if thorough { row.thorough } else { row.quick };
    if let Some(x) = std::env::var("SCEN_RUNS").ok().and_then(|s| s.parse().ok()) {
        n = x;
        cap = 1 << 30;
    }
    println!("property={id} VERIF_SEED={seed} tier={} runs={n}", if thorough { "thorough" } else { "quick" });
    (row.prepare)();
    let prep_s = (sched::real_now() - t0) as f64 / 1e9;
    let known = known(id);
    let mut st = Stats::default();
    let mut first: BTreeMap<u64, u64> = BTreeMap::new();
    let mut bad: Vec<(Job, Res)> = vec![];
    let mut herr: Vec<String> = vec![];
    let end = t0 + (prep_s * 1e9) as u64 + cap * 1_000_000_000;
    let stop = std::cell::Cell::new(false);
    let mut i = 0u64;
    let mut again: Option<Job> = None;
    let mut it = std::iter::from_fn(|| {
        if stop.get() {
            return None;
        }
        if let Some(j) = again.take() {
            return Some(j);
        }
        if i >= n || sched::real_now() > end {
            return None;
        }
        let j = job(&row, seed, i, thorough);
        if i % 10 == 3 {
            let mut k = j.clone();
            k.idx |= 1 << 62;
            again = Some(k);
        }
        i += 1;
        Some(j)
    });
    run_jobs(&mut it, cpus(), row.exec, &mut |j, r| {
        if let Some(e) = r.harness_error() {
            herr.push(format!("run {}: {e}", j.idx));
            stop.set(true);
            return true;
        }
        if r.class() == Some("inconclusive") {
            st.inconclusive += 1;
            return true;
        }
        let base = j.idx & !(1 << 62);
        let h = r.n("hash");
        if j.idx >> 62 == 1 {
            st.twice += 1;
        }
        match first.get(&base) {
            Some(&x) if x != h => herr.push(format!("run {base} is not deterministic")),
            Some(_) => {}
            None => {
                first.insert(base, h);
            }
        }
        if j.idx >> 62 == 0 {
            st.add(&j, &r);
        }
        if let Some(c) = r.class() {
            if c.contains("HARNESS") || r.detail().contains("HARNESS") {
                herr.push(format!("run {base}: {c}: {}", r.detail()));
                stop.set(true);
                return true;
            }
            if let Some(k) = known.iter().find(|k| k.class == c && r.detail().contains(&k.signature)) {
                *st.known.entry(k.what.clone()).or_insert(0) += 1;
                return true;
            }
            if j.idx >> 62 == 0 {
                bad.push((j, r));
            }
            stop.set(true);
        }
        true
    });
    drop(it);
    let explore_s = (sched::real_now() - t0) as f64 / 1e9 - prep_s;
    for (k, n) in &st.known {
        println!("KNOWN-FINDING: property={id} {k} ({n} runs)");
    }
    bad.sort_by_key(|(j, _)| j.idx);
    let mut code = 0;
    if let Some((j, r)) = bad.into_iter().next() {
        let class = r.class().unwrap().to_string();
        println!("run {} violates {id}: {class}: {}", j.idx, r.detail());
        let budget = std::env::var("SCEN_MIN_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 90 });
        let m = minimise(j.plan.clone(), j.spec.clone(), &class, cpus(), budget, row.exec);
        let (plan, spec, res) = if m.res.class() == Some(class.as_str()) {
            (m.plan, m.spec, m.res)
        } else {
            (j.plan.clone(), j.spec.clone(), r)
        };
        let dir = root().join("replays");
        std::fs::create_dir_all(&dir).ok();
        let path = dir.join(format!("{id}-{seed}-{}.json", j.idx));
        let v = json!({
            "property": id, "verif_seed": seed, "run": j.idx, "class": class, "detail": res.detail(),
            "plan": plan.to_json(), "spec": spec_json(&spec), "hash": res.n("hash"),
            "history": res.v["log"], "minimiser_runs": m.tried,
            "original": {"plan": j.plan.to_json(), "spec": spec_json(&j.spec)},
        });
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        let s = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["--replay", path.to_str().unwrap()])
            .output()
            .unwrap();
        println!("minimised to {} operations and {} scheduling decisions in {} runs; replay in a fresh process {}",
            plan.ops.len(), spec.replay.as_ref().map_or("seeded".to_string(), |r| r.len().to_string()), m.tried,
            if s.status.code() == Some(1) { "reproduces it" } else { "DOES NOT reproduce it" });
        println!("  {}: {}", class, res.detail());
        println!("VIOLATION property={id} replay={}", path.display());
        code = 1;
    } else if !herr.is_empty() {
        for e in herr.iter().take(5) {
            println!("HARNESS ERROR {e}");
        }
        code = 2;
    }
    let wall = (sched::real_now() - t0) as f64 / 1e9;
    let ev = json!({
        "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "wall_s": wall, "violations": (code == 1) as u64,
        "assumptions": [
            "sampling, not enumeration: a clean batch is evidence, not proof",
            "threads interleave at basic-block boundaries of the instrumented crates and at synchronisation calls; weak-memory effects below that are not simulated",
        ],
        "coverage": {
            "evaluations": st.runs, "distinct_nontrivial": st.distinct.len(), "rule": row.rule, "samples": st.samples,
            "runs_executed_twice_and_equal": st.twice,
            "runs_per_hour": (st.runs as f64 / explore_s.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (st.runs as f64 / explore_s.max(0.001) * 3600.0) as u64,
            "simulated_seconds": st.clock as f64 / 1e9,
            "basic_blocks_executed": st.edges,
            "distinct_basic_blocks_in_one_run_max": st.blocks,
            "instrumented_basic_blocks": sched::instrumented_blocks(),
            "distinct_coverage_sets": st.covs.len(),
            "faults": st.faults, "probes": st.probes,
            "thread_switches": st.switches, "preemptions": st.preemptions, "scheduling_decisions": st.decisions,
            "distinct_interleavings": st.scheds.len(),
            "distinct_states": st.states.len(),
            "interleaving_measure": "hash over the sequence of (position, thread) of all thread switches of a run",
            "history_events": st.events, "threads_max": st.max_threads,
            "inconclusive_runs": st.inconclusive,
            "known_findings_hit": st.known,
            "real_components": row.real, "stub_components": row.stub,
            "prepare_s": prep_s, "explore_s": explore_s,
        }
    });
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{} runs ({} twice), {} distinct, {} interleavings, {} switches, {:.1}s prepare, {:.1}s explore, {:.1}s in all, {} inconclusive",
        st.runs, st.twice, st.distinct.len(), st.scheds.len(), st.switches, prep_s, explore_s, wall, st.inconclusive);
    if std::env::var_os("SCEN_V").is_some() {
        println!("{}", serde_json::to_string_pretty(&json!({"faults": st.faults, "probes": st.probes, "states": st.states.len(), "covs": st.covs.len(), "blocks": st.blocks, "of": sched::instrumented_blocks()})).unwrap());
    }
    if code == 0 && st.inconclusive * 10 > st.runs {
        println!("HARNESS ERROR too many inconclusive runs");
        code = 2;
    }
    std::process::exit(code);
}

/// Repeats a replay file; exit 1 if it fails the way it was recorded.
pub fn replay(path: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let row = row(v["property"].as_str().unwrap());
    (row.prepare)();
    let plan = Plan::from_json(&v["plan"]);
    let spec = spec_from(&v["spec"]);
    let r = run_one(Job { idx: 0, plan, spec, keep_log: true }, row.exec);
    for l in r.v["log"].as_array().into_iter().flatten() {
        println!("  {}", l.as_str().unwrap_or(""));
    }
    if let Some(e) = r.harness_error() {
        println!("HARNESS ERROR {e}");
        std::process::exit(2);
    }
    match r.class() {
        Some(c) => {
            println!("{c}: {}", r.detail());
            let same = v["class"].as_str() == Some(c) && v["hash"].as_u64() == Some(r.n("hash"));
            println!("VIOLATION property={} replay={path} ({})", row.id, if same { "identical history" } else { "different history" });
            std::process::exit(if v["class"].as_str() == Some(c) { 1 } else { 3 });
        }
        None => {
            println!("the run holds");
            std::process::exit(0);
        }
    }
}

/// One run of a check, by number (for debugging).
pub fn one(id: &str, i: u64) {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let row = row(id);
    (row.prepare)();
    let mut j = job(&row, seed, i, std::env::var("VERIF_TIER").map_or(false, |s| s == "thorough"));
    j.keep_log = true;
    println!("{}\n{}", j.plan.to_json(), spec_json(&j.spec));
    let t = sched::real_now();
    let r = run_one(j, row.exec);
    for l in r.v["log"].as_array().into_iter().flatten() {
        println!("  {}", l.as_str().unwrap_or(""));
    }
    let mut v = r.v.clone();
    if let Some(m) = v.as_object_mut() {
        m.remove("log");
        m.remove("trace");
        m.remove("states");
    }
    println!("{}\n{:.3}s", serde_json::to_string_pretty(&v).unwrap(), (sched::real_now() - t) as f64 / 1e9);
}
