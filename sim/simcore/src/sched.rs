//! The deterministic scheduler.
//!
//! The threads of a run are real OS threads, but exactly one of them holds the
//! baton at any moment. Every point where another thread could run is owned
//! here: thread creation and join, futex wait/wake (std's Mutex, Condvar, Once,
//! park), sched_yield, sleeping, and, through the compiler's coverage callback,
//! every basic block of the system under test. The clock and the OS random
//! source are simulated too. A run is a pure function of its `Spec`.
use crate::rng::Rng;
use libc::{c_int, c_long, c_void};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dev {
    /// true: preemption inside a basic block (at = edge count); false: a
    /// synchronisation decision (at = ordinal of the decision)
    pub tick: bool,
    pub at: u64,
    pub to: u32,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub seed: u64,
    /// 0 = round robin, no preemption (the reference schedule); 1 = uniform;
    /// 2 = sticky; 3 = priorities with change points (PCT); 4 = some threads starved
    pub policy: u32,
    /// mean number of basic blocks between preemption points; 0 = none
    pub tick: u64,
    /// chance per 10000 that a futex wait wakes spuriously
    pub spurious: u64,
    /// chance per 10000 that an OS randomness request is interrupted / shortened
    pub entropy_fault: u64,
    /// basic-block budget: going over it counts as "no progress"
    pub edge_cap: u64,
    /// explicit schedule: overrides the policy
    pub replay: Option<Vec<Dev>>,
    pub record: bool,
}

impl Spec {
    pub fn reference() -> Self {
        Spec {
            seed: 0,
            policy: 0,
            tick: 0,
            spurious: 0,
            entropy_fault: 0,
            edge_cap: u64::MAX,
            replay: None,
            record: false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Run,
    Futex(usize),
    Sleep,
    Join(usize),
    Done,
}

struct Th {
    st: St,
    word: Box<AtomicU32>,
    deadline: u64, // u64::MAX = none
    timed_out: bool,
    depth: u32,
    prio: u64,
    pt: libc::pthread_t,
}

pub struct Sim {
    spec: Spec,
    rng: Rng,
    entropy: Rng,
    aux: Rng,
    th: Vec<Th>,
    cur: usize,
    decisions: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub spurious: u64,
    pub entropy_faults: u64,
    pub timer_fires: u64,
    sched_hash: u64,
    next_tick: u64,
    ticks: BTreeMap<u64, u32>,
    syncs: BTreeMap<u64, u32>,
    trace: Vec<Dev>,
    clock_extra: u64, // ns added by jumping to timers
    starve: u64,
    change_points: Vec<u64>,
    burst: u64,
    burst_end: u64,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
static mut ACTIVE: bool = false;
static mut EDGES: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut DEPTH: u32 = 0;
static mut COV: *mut u8 = std::ptr::null_mut();
static mut COV_N: u32 = 0;
static mut KEY: libc::pthread_key_t = 0;
static mut ON_STALL: Option<fn(&'static str)> = None;

// ---------------------------------------------------------------- coverage

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
    if s == e || *s != 0 {
        return;
    }
    while s < e {
        COV_N += 1;
        *s = COV_N;
        s = s.add(1);
    }
}

#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if DEPTH == 0 {
        return;
    }
    EDGES += 1;
    if !COV.is_null() {
        *COV.add(*g as usize) = 1;
    }
    if EDGES >= NEXT {
        tick();
    }
}

#[cold]
#[inline(never)]
unsafe fn tick() {
    let sim = &mut *SIM;
    if EDGES >= sim.spec.edge_cap {
        stall("step-budget");
    }
    if EDGES >= sim.next_tick {
        if sim.spec.replay.is_some() {
            let at = sim.next_tick;
            let to = sim.ticks.get(&at).copied();
            sim.ticks.remove(&at);
            sim.next_tick = sim.ticks.keys().next().copied().unwrap_or(u64::MAX);
            if let Some(to) = to {
                let to = to as usize;
                if to < sim.th.len() && sim.th[to].st == St::Run && to != sim.cur {
                    sim.preemptions += 1;
                    sim.note(true, EDGES, to);
                    switch(to);
                    return;
                }
            }
        } else {
            let at = EDGES;
            // a run with very many preemptions goes on in bursts: stretches of
            // fine interleaving between coarser ones
            if sim.preemptions >= sim.burst_end {
                sim.burst_end = sim.preemptions + 512;
                sim.burst = sim.rng.below(1 + (sim.preemptions / 2048).min(12));
            }
            sim.next_tick = EDGES + sim.rng.interval(sim.spec.tick.max(1) << sim.burst);
            let c = sim.runnable();
            if c.len() > 1 {
                let to = sim.choose(&c, true);
                if to != sim.cur {
                    sim.preemptions += 1;
                    sim.note(true, at, to);
                    switch(to);
                    return;
                }
            }
        }
    }
    set_next();
}

unsafe fn set_next() {
    NEXT = if DEPTH == 0 || SIM.is_null() {
        u64::MAX
    } else {
        (*SIM).next_tick.min((*SIM).spec.edge_cap)
    };
}

unsafe fn stall(why: &'static str) -> ! {
    ACTIVE = false;
    NEXT = u64::MAX;
    DEPTH = 0;
    if let Some(f) = ON_STALL {
        f(why);
    }
    libc::_exit(98);
}

// --------------------------------------------------------------- raw system calls

unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
unsafe fn park(w: &AtomicU32) {
    while w.load(Ordering::Acquire) == 0 {
        raw(libc::SYS_futex, w as *const _ as c_long, 128, 0, 0, 0, 0);
    }
    w.store(0, Ordering::Relaxed);
}
unsafe fn unpark(w: &AtomicU32) {
    w.store(1, Ordering::Release);
    raw(libc::SYS_futex, w as *const _ as c_long, 129, 1, 0, 0, 0);
}

/// Real monotonic time in ns, for the master's budgets only.
pub fn real_now() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        raw(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as c_long, 0, 0, 0, 0);
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}

// ---------------------------------------------------------------- scheduling

impl Sim {
    fn runnable(&self) -> Vec<usize> {
        (0..self.th.len()).filter(|&i| self.th[i].st == St::Run).collect()
    }
    fn note(&mut self, tick: bool, at: u64, to: usize) {
        self.switches += 1;
        self.sched_hash = crate::rng::mix(self.sched_hash ^ ((to as u64) << 1 | tick as u64) ^ at.wrapping_mul(31));
        if self.spec.record {
            self.trace.push(Dev { tick, at, to: to as u32 });
        }
    }
    fn choose(&mut self, c: &[usize], tick: bool) -> usize {
        let cur = self.cur;
        match self.spec.policy {
            0 => self.default_choice(c, tick),
            2 => {
                if c.contains(&cur) && self.rng.chance(if tick { 1 } else { 3 }, 4) {
                    cur
                } else {
                    *self.rng.pick(c)
                }
            }
            3 => {
                if self.change_points.last().map_or(false, |&p| p <= EDGES_NOW()) {
                    self.change_points.pop();
                    let low = self.rng.below(1 << 20);
                    self.th[cur].prio = low;
                }
                *c.iter().max_by_key(|&&i| (self.th[i].prio, i)).unwrap()
            }
            4 => {
                let ok: Vec<usize> =
                    c.iter().copied().filter(|&i| self.starve >> (i % 64) & 1 == 0).collect();
                if ok.is_empty() || self.rng.chance(1, 200) {
                    *self.rng.pick(c)
                } else {
                    *self.rng.pick(&ok)
                }
            }
            _ => *self.rng.pick(c),
        }
    }
    fn default_choice(&self, c: &[usize], tick: bool) -> usize {
        if tick {
            return self.cur;
        }
        // round robin: the first runnable thread after the current one
        *c.iter().find(|&&i| i > self.cur).unwrap_or(&c[0])
    }
}

#[allow(non_snake_case)]
fn EDGES_NOW() -> u64 {
    unsafe { EDGES }
}

/// Hands the baton to `to` and waits until it comes back.
unsafe fn switch(to: usize) {
    let sim = &mut *SIM;
    let me = sim.cur;
    sim.th[me].depth = DEPTH;
    sim.cur = to;
    let wme: *const AtomicU32 = &*sim.th[me].word;
    let wto: *const AtomicU32 = &*sim.th[to].word;
    unpark(&*wto);
    park(&*wme);
    // we are current again
    DEPTH = (*SIM).th[me].depth;
    set_next();
}

/// A synchronisation decision taken by the baton holder; its state may be non-runnable.
unsafe fn resched() {
    let depth = DEPTH;
    DEPTH = 0;
    let sim = &mut *SIM;
    let me = sim.cur;
    let to = pick_sync();
    DEPTH = depth;
    if to != me {
        switch(to);
    } else {
        set_next();
    }
}

unsafe fn pick_sync() -> usize {
    let sim = &mut *SIM;
    loop {
        let c = sim.runnable();
        if !c.is_empty() {
            let n = sim.decisions;
            sim.decisions += 1;
            let to = if sim.spec.replay.is_some() {
                match sim.syncs.get(&n) {
                    Some(&t) if c.contains(&(t as usize)) => t as usize,
                    _ => sim.default_choice(&c, false),
                }
            } else if c.len() == 1 {
                c[0]
            } else {
                sim.choose(&c, false)
            };
            let dflt = sim.default_choice(&c, false);
            if to != dflt && c.len() > 1 {
                sim.note(false, n, to);
            } else if to != sim.cur {
                sim.switches += 1;
                sim.sched_hash = crate::rng::mix(sim.sched_hash ^ to as u64);
            }
            return to;
        }
        // nothing runnable: jump the simulated clock to the next timer
        let next = sim
            .th
            .iter()
            .enumerate()
            .filter(|(_, t)| t.deadline != u64::MAX && t.st != St::Done)
            .min_by_key(|(i, t)| (t.deadline, *i))
            .map(|(i, t)| (i, t.deadline));
        match next {
            Some((i, d)) => {
                let now = now_ns(sim);
                if d > now {
                    sim.clock_extra += d - now;
                }
                sim.timer_fires += 1;
                sim.th[i].st = St::Run;
                sim.th[i].deadline = u64::MAX;
                sim.th[i].timed_out = true;
            }
            None => stall("deadlock"),
        }
    }
}

unsafe fn now_ns(sim: &Sim) -> u64 {
    // one basic block = 1 ns of simulated time
    1_600_000_000_000_000_000 + EDGES + sim.clock_extra
}

// ---------------------------------------------------------------- interposed libc

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if ACTIVE {
        if n == libc::SYS_futex {
            return futex(a as usize, b as c_int, c as u32, d as *const libc::timespec, f as u32);
        }
        if n == libc::SYS_getrandom {
            return entropy(a as *mut u8, b as usize);
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}

unsafe fn entropy(p: *mut u8, n: usize) -> c_long {
    let sim = &mut *SIM;
    let mut n = n;
    if sim.spec.entropy_fault > 0 && sim.entropy.chance(sim.spec.entropy_fault, 10_000) {
        sim.entropy_faults += 1;
        if n <= 1 || sim.entropy.chance(1, 2) {
            set_errno(libc::EINTR);
            return -1;
        }
        n = 1 + sim.entropy.below(n as u64 - 1) as usize;
    }
    sim.entropy.fill(std::slice::from_raw_parts_mut(p, n));
    n as c_long
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if ACTIVE {
        return entropy(p as *mut u8, n) as libc::ssize_t;
    }
    raw(libc::SYS_getrandom, p as c_long, n as c_long, flags as c_long, 0, 0, 0) as libc::ssize_t
}

unsafe fn futex(addr: usize, op: c_int, val: u32, ts: *const libc::timespec, _bits: u32) -> c_long {
    let sim = &mut *SIM;
    match op & 0x7f {
        0 | 9 => {
            let cur = (*(addr as *const AtomicU32)).load(Ordering::SeqCst);
            if cur != val {
                resched();
                set_errno(libc::EAGAIN);
                return -1;
            }
            if sim.spec.spurious > 0 && sim.aux.chance(sim.spec.spurious, 10_000) {
                sim.spurious += 1;
                resched();
                return 0;
            }
            let me = sim.cur;
            sim.th[me].st = St::Futex(addr);
            sim.th[me].timed_out = false;
            sim.th[me].deadline = if ts.is_null() {
                u64::MAX
            } else {
                let t = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
                if op & 0x7f == 0 {
                    now_ns(sim) + t
                } else {
                    t
                }
            };
            resched();
            let sim = &mut *SIM;
            if sim.th[me].timed_out {
                sim.th[me].timed_out = false;
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            0
        }
        1 | 10 => {
            let mut w: Vec<usize> =
                (0..sim.th.len()).filter(|&i| sim.th[i].st == St::Futex(addr)).collect();
            if sim.spec.policy != 0 {
                // which of several waiters a wake-up reaches is a scheduling choice
                sim.aux.shuffle(&mut w);
            }
            let n = w.len().min(val as usize);
            for &i in &w[..n] {
                sim.th[i].st = St::Run;
                sim.th[i].deadline = u64::MAX;
            }
            if n > 0 {
                resched();
            }
            n as c_long
        }
        _ => {
            set_errno(libc::ENOSYS);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if ACTIVE {
        resched();
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if ACTIVE {
        let n = now_ns(&*SIM);
        (*ts).tv_sec = (n / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (n % 1_000_000_000) as c_long;
        return 0;
    }
    raw(libc::SYS_clock_gettime, id as c_long, ts as c_long, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if ACTIVE {
        let sim = &mut *SIM;
        let me = sim.cur;
        sim.th[me].st = St::Sleep;
        sim.th[me].timed_out = false;
        sim.th[me].deadline =
            now_ns(sim) + (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        resched();
        return 0;
    }
    raw(libc::SYS_nanosleep, req as c_long, rem as c_long, 0, 0, 0, 0) as c_int
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Boot {
    id: usize,
    start: Start,
    arg: *mut c_void,
}

unsafe fn real_fn(name: &[u8]) -> usize {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _);
    assert!(!p.is_null());
    p as usize
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: Start,
    arg: *mut c_void,
) -> c_int {
    let real: extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int =
        std::mem::transmute(real_fn(b"pthread_create\0"));
    if !ACTIVE {
        return real(t, attr, start, arg);
    }
    let depth = DEPTH;
    DEPTH = 0;
    let sim = &mut *SIM;
    let id = sim.th.len();
    let prio = sim.rng.u64() >> 20 | 1 << 40;
    sim.th.push(Th {
        st: St::Run,
        word: Box::new(AtomicU32::new(0)),
        deadline: u64::MAX,
        timed_out: false,
        depth: 1,
        prio,
        pt: 0,
    });
    let b = Box::into_raw(Box::new(Boot { id, start, arg }));
    let r = real(t, attr, tramp, b as *mut c_void);
    if r != 0 {
        sim.th[id].st = St::Done;
        DEPTH = depth;
        return r;
    }
    sim.th[id].pt = *t;
    DEPTH = depth;
    resched();
    0
}

extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    unsafe {
        let b = Box::from_raw(p as *mut Boot);
        let sim = &mut *SIM;
        let w: *const AtomicU32 = &*sim.th[b.id].word;
        park(&*w);
        libc::pthread_setspecific(KEY, (b.id + 1) as *const c_void);
        DEPTH = 1;
        set_next();
        (b.start)(b.arg)
    }
}

/// Runs as a thread-specific destructor, after Rust's own thread-local destructors.
unsafe extern "C" fn finish(p: *mut c_void) {
    if !ACTIVE {
        return;
    }
    DEPTH = 0;
    let sim = &mut *SIM;
    let me = p as usize - 1;
    sim.th[me].st = St::Done;
    for i in 0..sim.th.len() {
        if sim.th[i].st == St::Join(me) {
            sim.th[i].st = St::Run;
        }
    }
    let to = pick_sync();
    let sim = &mut *SIM;
    sim.cur = to;
    let w: *const AtomicU32 = &*sim.th[to].word;
    unpark(&*w);
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    let real: extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int =
        std::mem::transmute(real_fn(b"pthread_join\0"));
    if ACTIVE {
        let sim = &mut *SIM;
        if let Some(id) = (0..sim.th.len()).rev().find(|&i| sim.th[i].pt == t && i != 0) {
            if sim.th[id].st != St::Done {
                let me = sim.cur;
                sim.th[me].st = St::Join(id);
                resched();
            }
        }
    }
    real(t, ret)
}

// ---------------------------------------------------------------- public control

/// Puts the calling thread under simulation as thread 0. Must be the only thread.
pub fn start(spec: Spec, on_stall: fn(&'static str)) {
    unsafe {
        let mut rng = Rng::sub(spec.seed, "sched", 0);
        let entropy = Rng::sub(spec.seed, "entropy", 0);
        let aux = Rng::sub(spec.seed, "aux", 0);
        let starve = rng.u64() & rng.u64() & !1;
        let mut change_points: Vec<u64> = (0..rng.range(1, 8)).map(|_| 0).collect();
        let span = 1u64 << rng.range(12, 26);
        for p in change_points.iter_mut() {
            *p = rng.below(span);
        }
        change_points.sort_by(|a, b| b.cmp(a));
        libc::pthread_key_create(&mut KEY, Some(finish));
        let mut ticks = BTreeMap::new();
        let mut syncs = BTreeMap::new();
        let mut next_tick = u64::MAX;
        if let Some(r) = &spec.replay {
            for d in r {
                if d.tick {
                    ticks.insert(d.at, d.to);
                } else {
                    syncs.insert(d.at, d.to);
                }
            }
            next_tick = ticks.keys().next().copied().unwrap_or(u64::MAX);
        } else if spec.tick > 0 {
            next_tick = rng.interval(spec.tick);
        }
        let prio = rng.u64() >> 20 | 1 << 40;
        let sim = Box::new(Sim {
            rng,
            entropy,
            aux,
            th: vec![Th {
                st: St::Run,
                word: Box::new(AtomicU32::new(0)),
                deadline: u64::MAX,
                timed_out: false,
                depth: 0,
                prio,
                pt: libc::pthread_self(),
            }],
            cur: 0,
            decisions: 0,
            switches: 0,
            preemptions: 0,
            spurious: 0,
            entropy_faults: 0,
            timer_fires: 0,
            sched_hash: 0,
            next_tick,
            ticks,
            burst: 0,
            burst_end: 4096,
            syncs,
            trace: Vec::with_capacity(1024),
            clock_extra: 0,
            starve,
            change_points,
            spec,
        });
        EDGES = 0;
        DEPTH = 0;
        NEXT = u64::MAX;
        ON_STALL = Some(on_stall);
        COV = libc::calloc(COV_N as usize + 1, 1) as *mut u8;
        SIM = Box::into_raw(sim);
        ACTIVE = true;
    }
}

pub struct Summary {
    pub edges: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub decisions: u64,
    pub spurious: u64,
    pub entropy_faults: u64,
    pub timer_fires: u64,
    pub threads: u64,
    pub sched_hash: u64,
    pub clock_ns: u64,
    pub blocks: u64,
    pub cov_hash: u64,
    pub trace: Vec<Dev>,
}

/// Ends the simulation (the calling thread keeps the baton for good).
pub fn stop() -> Summary {
    unsafe {
        ACTIVE = false;
        NEXT = u64::MAX;
        DEPTH = 0;
        let sim = &mut *SIM;
        let mut blocks = 0;
        let mut cov_hash = 0u64;
        for i in 0..=COV_N as usize {
            if *COV.add(i) != 0 {
                blocks += 1;
                cov_hash = crate::rng::mix(cov_hash ^ i as u64);
            }
        }
        Summary {
            edges: EDGES,
            switches: sim.switches,
            preemptions: sim.preemptions,
            decisions: sim.decisions,
            spurious: sim.spurious,
            entropy_faults: sim.entropy_faults,
            timer_fires: sim.timer_fires,
            threads: sim.th.len() as u64,
            sched_hash: sim.sched_hash,
            clock_ns: EDGES + sim.clock_extra,
            blocks,
            cov_hash,
            trace: std::mem::take(&mut sim.trace),
        }
    }
}

pub fn instrumented_blocks() -> u64 {
    unsafe { COV_N as u64 }
}

pub fn edges() -> u64 {
    unsafe { EDGES }
}

pub fn active() -> bool {
    unsafe { ACTIVE }
}

struct DepthGuard(u32);
impl Drop for DepthGuard {
    fn drop(&mut self) {
        unsafe {
            DEPTH = self.0;
            set_next();
        }
    }
}

/// Runs `f` as code under test: its basic blocks are counted and preemptible.
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        if !ACTIVE {
            return f();
        }
        let g = DepthGuard(DEPTH);
        DEPTH = 1;
        set_next();
        let r = f();
        drop(g);
        r
    }
}

/// Runs `f` as harness code: never counted, never preempted.
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let g = DepthGuard(DEPTH);
        DEPTH = 0;
        set_next();
        let r = f();
        drop(g);
        r
    }
}
