//! The simulator's kernel. It owns every source of nondeterminism the code
//! under simulation can meet: which thread runs at each instrumented
//! instruction, memory, time, randomness, thread creation and blocking.
//!
//! Threads are real OS threads (so thread-local state is real), but exactly one
//! holds the baton at any moment and only the kernel passes it on.

use crate::rng::{mix, Rng};
use crate::shm::{Dec, RunShm, C, COV, CRASHED, MAX_DEC};
use crate::sys::{self, c_int, c_long, c_void, raw, timespec};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXT: usize = 32;
const NONE: usize = usize::MAX;

pub const ARENA_BASE: usize = 0x1000_0000_0000;
pub const ARENA_SHIFT: usize = 28;
pub const ARENA_TOTAL: usize = MAXT << ARENA_SHIFT;
pub const SHADOW_BASE: usize = 0x2000_0000_0000;
const STACK_BASE: usize = 0x3000_0000_0000;
const STACK_SIZE: usize = 256 << 10;
const BIG_STACK: usize = 16 << 20;
const HEAP_CAP: u64 = 400 << 20;
/// A thread that ran this long while others could run is switched out.
const QUANTUM: u64 = 400_000;

/// Steps after which no further request is started.
const LONG_RUN: u64 = 600_000_000;

const LIVE: u64 = 0x11fe_b10c_a110_ca7e;
const DEAD: u64 = 0xdead_b10c_dead_b10c;
const RED: u64 = 0xfbfb_fbfb_fbfb_fbfb;
const FORCED: u64 = 1 << 63;

// ---- per-thread state ------------------------------------------------------------------

#[repr(C)]
pub struct Tls {
    pub tick: u64,
    pub limit: u64,
    pub me: usize,
    pub in_op: bool,
    pub watch: bool,
    pub op: u32,
    next_switch: u64,
    crash_at: u64,
    stall_at: u64,
    budget: u64,
    fair_at: u64,
    queue: usize,
    /// allocations made in this operation
    pub allocs: u64,
    pub alloc_sum: u64,
    pub af_kind: u8,
    pub af_at: u64,
    pub fired: bool,
    pub suspended: bool,
    pub msg_len: usize,
    pub msg: [u8; 200],
}

#[thread_local]
pub static mut T: Tls = Tls {
    tick: 0, limit: u64::MAX, me: NONE, in_op: false, watch: false, op: 0,
    next_switch: u64::MAX, crash_at: u64::MAX, stall_at: u64::MAX, budget: u64::MAX, fair_at: u64::MAX, queue: 0,
    allocs: 0, alloc_sum: 0, af_kind: 0, af_at: 0, fired: false, suspended: false,
    msg_len: 0, msg: [0; 200],
};

// ---- shared state: touched only by the holder of the baton -------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Unused, Ready, Futex { addr: usize, mask: u32, deadline: u64 }, Sleep { deadline: u64 }, Join { target: usize }, Stalled, Done }

struct Th {
    go: AtomicU32,
    st: St,
    joined: bool,
    /// waits in a request that was refused memory
    starved: bool,
    stack: usize,
    /// switched out in the middle of an operation
    inside: bool,
    /// spawned by the code under simulation
    dynamic: bool,
    timed_out: bool,
    prio: u64,
    real: usize,
    start: Option<extern "C" fn(*mut c_void) -> *mut c_void>,
    arg: usize,
    ret: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Policy {
    /// mean gap between preemptions: log-uniform below 2^gap_bits ticks; 0 = none
    pub gap_bits: u64,
    pub pct: bool,
    /// per mille at event points
    pub p_alloc: u64,
    pub p_static: u64,
    pub p_foreign: u64,
    pub p_bound: u64,
    pub p_spurious: u64,
    pub p_clock: u64,
    pub world: u64,
    /// freed blocks are handed out again, the last one first
    pub reuse: bool,
}

pub struct Kernel {
    th: [Th; MAXT],
    pub n_plan: usize,
    exiting: usize,
    pub policy: Policy,
    pub recording: bool,
    rng: Rng,
    env: Rng,
    pub explicit: Vec<Vec<Dec>>,
    pub crash: Option<(u32, u32, u64)>,
    pub stall: Option<(u32, u32, u64)>,
    pub time: u64,
    clock_jump: u64,
    bump: [usize; MAXT],
    blocks: [Vec<u32>; MAXT],
    /// freed blocks by size, for reuse
    free: [Vec<usize>; CLASSES],
    pub live_bytes: u64,
    pub live_blocks: u64,
    total_bytes: u64,
    pub shm: *mut RunShm,
    pub tracing: bool,
    body: Option<fn(usize)>,
    live_threads: usize,
    low_prio: u64,
    data: (usize, usize),
}

const NEW_TH: Th = Th {
    go: AtomicU32::new(0), st: St::Unused, joined: false, starved: false, stack: 0, inside: false, dynamic: false, timed_out: false, prio: 0, real: 0,
    start: None, arg: 0, ret: 0,
};
const NEW_VEC: Vec<u32> = Vec::new();
const NEW_LIST: Vec<usize> = Vec::new();
const CLASSES: usize = 1024;

static ROUND: AtomicU32 = AtomicU32::new(0);

pub static mut K: Kernel = Kernel {
    th: [NEW_TH; MAXT], n_plan: 0, exiting: NONE,
    policy: Policy { gap_bits: 0, pct: false, p_alloc: 0, p_static: 0, p_foreign: 0, p_bound: 0, p_spurious: 0, p_clock: 0, world: 0, reuse: false },
    recording: false, rng: Rng::dead(), env: Rng::dead(), explicit: Vec::new(), crash: None, stall: None, time: 0, clock_jump: 0,
    bump: [0; MAXT], blocks: [NEW_VEC; MAXT], free: [NEW_LIST; CLASSES], live_bytes: 0, live_blocks: 0, total_bytes: 0,
    shm: std::ptr::null_mut(), tracing: false, body: None, live_threads: 0, low_prio: 0, data: (0, 0),
};

#[allow(static_mut_refs)]
#[inline(always)]
pub fn k() -> &'static mut Kernel { unsafe { &mut K } }
#[allow(static_mut_refs)]
#[inline(always)]
pub fn t() -> &'static mut Tls { unsafe { &mut T } }

pub fn count(c: C, n: u64) {
    let k = k();
    if !k.shm.is_null() { unsafe { (*k.shm).count[c as usize] += n } }
}
pub fn count_max(c: C, n: u64) {
    let k = k();
    if !k.shm.is_null() { unsafe { let x = &mut (*k.shm).count[c as usize]; *x = (*x).max(n) } }
}
pub fn fold_hash(x: u64) {
    let k = k();
    if !k.shm.is_null() { unsafe { (*k.shm).hash = mix((*k.shm).hash ^ x) } }
}

/// Appends to the run's event log, when it keeps one. Draws nothing.
pub fn trace(f: impl FnOnce() -> String) {
    let k = k();
    if !k.tracing { return; }
    let was = std::mem::replace(&mut t().in_op, false);
    let line = f();
    let shm = unsafe { &mut *k.shm };
    let at = shm.trace_len as usize;
    if at + line.len() + 1 < shm.trace.len() {
        shm.trace[at..at + line.len()].copy_from_slice(line.as_bytes());
        shm.trace[at + line.len()] = b'\n';
        shm.trace_len += line.len() as u64 + 1;
    }
    t().in_op = was;
}

/// Ends the run: the property is broken.
/// Nothing the caller does from here on is the subject's doing.
fn to_report() { let t = t(); t.in_op = false; t.limit = u64::MAX; }

pub fn violation(class: &str, detail: String) -> ! {
    let t = t();
    t.in_op = false;
    t.limit = u64::MAX;
    let shm = unsafe { &mut *k().shm };
    shm.set_violation(class, &detail);
    shm.tid = if t.me == NONE { 0 } else { t.me as u64 };
    shm.op = t.op as u64;
    unsafe { sys::_exit(101) }
}

pub fn harness_error(detail: String) -> ! {
    t().in_op = false;
    let shm = unsafe { &mut *k().shm };
    shm.set_violation("harness", &detail);
    shm.outcome = crate::shm::HARNESS;
    unsafe { sys::_exit(103) }
}

// ---- instrumentation callbacks --------------------------------------------------------------

static mut COV_MAP: *mut u8 = std::ptr::null_mut();
static mut COV_EARLY: [u8; COV] = [0; COV];
static mut GUARDS: u32 = 0;

pub fn guards() -> u64 { unsafe { GUARDS as u64 } }
pub fn set_cov(p: *mut u8) { unsafe { COV_MAP = p } }

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if COV_MAP.is_null() { COV_MAP = std::ptr::addr_of_mut!(COV_EARLY) as *mut u8; }
    if start == stop || *start != 0 { return; }
    while start < stop {
        GUARDS += 1;
        *start = GUARDS % COV as u32;
        start = start.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    *COV_MAP.add(*g as usize) = 1;
    let t = t();
    t.tick += 1;
    if t.tick >= t.limit { slow(); }
}

#[inline(always)]
unsafe fn access<const N: usize, const STORE: bool>(a: usize) {
    let t = t();
    t.tick += 1;
    let off = a.wrapping_sub(ARENA_BASE);
    if off < ARENA_TOTAL {
        let s = (SHADOW_BASE + (off >> 3)) as *const u8;
        let end = (off & 7) + N;
        let bad = if end <= 8 {
            end > *s as usize
        } else if end <= 16 {
            *s != 8 || end - 8 > *s.add(1) as usize
        } else {
            *s != 8 || *s.add(1) != 8 || end - 16 > *s.add(2) as usize
        };
        if bad { bad_access(a, N, STORE); }
        if STORE && t.watch && off >> ARENA_SHIFT != t.me { event(C::preempt_at_foreign_store, k().policy.p_foreign); }
    } else if t.watch {
        let k = k();
        if a.wrapping_sub(k.data.0) < k.data.1 { event(C::preempt_at_static, k.policy.p_static); }
    }
    if t.tick >= t.limit { slow(); }
}

macro_rules! accesses {
    ($($l:ident $s:ident $n:literal),*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $l(a: usize) { access::<$n, false>(a) }
        #[no_mangle] pub unsafe extern "C" fn $s(a: usize) { access::<$n, true>(a) }
    )* };
}
accesses!(
    __sanitizer_cov_load1 __sanitizer_cov_store1 1,
    __sanitizer_cov_load2 __sanitizer_cov_store2 2,
    __sanitizer_cov_load4 __sanitizer_cov_store4 4,
    __sanitizer_cov_load8 __sanitizer_cov_store8 8,
    __sanitizer_cov_load16 __sanitizer_cov_store16 16
);

#[cold]
#[inline(never)]
fn bad_access(a: usize, n: usize, store: bool) {
    let off = a - ARENA_BASE;
    t().in_op = false;
    // find the block it is closest to
    let arena = off >> ARENA_SHIFT;
    let mut what = String::from("memory never allocated");
    for &b in k().blocks[arena].iter().rev() {
        let h = (ARENA_BASE + (arena << ARENA_SHIFT) + b as usize) as *const u64;
        if (h as usize) <= a {
            let (magic, size) = unsafe { (*h, *h.add(1)) };
            what = format!("{} bytes past the start of a block of {} bytes ({})", a as i64 - h as i64 - 32, size,
                           if magic == LIVE { "in use" } else { "already freed" });
            break;
        }
    }
    violation("memory-bad-access", format!("{} of {} bytes: {}", if store { "write" } else { "read" }, n, what))
}

// ---- scheduling ---------------------------------------------------------------------------------

fn others_ready(k: &Kernel, me: usize) -> bool {
    k.th.iter().enumerate().any(|(i, x)| i != 0 && i != me && x.st == St::Ready)
}

fn refresh_limit() {
    let t = t();
    t.limit = t.next_switch.min(t.crash_at).min(t.stall_at).min(t.budget).min(t.fair_at);
}

fn plan_switch() {
    let t = t();
    let k = k();
    t.next_switch = u64::MAX;
    if k.recording {
        if k.policy.gap_bits > 0 && k.live_threads > 1 && unsafe { (*k.shm).n_dec } < MAX_DEC as u64 - 256 {
            t.next_switch = t.tick + k.rng.log(k.policy.gap_bits);
        }
    } else if t.me < k.explicit.len() {
        // entries of one operation are in tick order; forced ones are looked up when blocked
        let q = &k.explicit[t.me];
        while t.queue < q.len() && !(q[t.queue].op == t.op && q[t.queue].tick & FORCED == 0 && q[t.queue].tick >= t.tick.max(1)) { t.queue += 1; }
        if t.queue < q.len() { t.next_switch = q[t.queue].tick; }
    }
    refresh_limit();
}

#[cold]
#[inline(never)]
fn slow() {
    let t = t();
    if !t.in_op || t.me == NONE { t.limit = u64::MAX; return; }
    let k = k();
    if t.tick >= t.budget {
        to_report();
        let m = format!("operation still running after {} steps", t.tick);
        violation("runaway", m);
    }
    if t.tick >= t.crash_at {
        trace(|| format!("crash t{} op{} tick{}", t.me, t.op, t.tick));
        let shm = unsafe { &mut *k.shm };
        shm.count[C::fault_crash as usize] += 1;
        shm.count[C::ticks as usize] += t.tick;
        shm.nontrivial = 1;
        shm.outcome = CRASHED;
        unsafe { sys::_exit(77) }
    }
    if t.tick >= t.stall_at {
        // this thread gets no time until the others have done all they can
        t.stall_at = u64::MAX;
        trace(|| format!("stall t{} op{} tick{}", t.me, t.op, t.tick));
        fold_hash(t.tick ^ (t.op as u64) << 32 ^ 0x57a11);
        count(C::fault_stall, 1);
        unsafe { (*k.shm).nontrivial = 1; }
        k.th[t.me].st = St::Stalled;
        k.th[t.me].inside = true;
        block();
        k.th[t.me].inside = false;
        refresh_limit();
        return;
    }
    if t.tick >= t.next_switch {
        if k.recording {
            if let Some(n) = choose(k, t.me, true) { if n != t.me { record(k, n, false); switch(n, C::preemptions); } }
        } else {
            let d = k.explicit[t.me][t.queue];
            t.queue += 1;
            let n = d.next as usize;
            if n < MAXT && n != 0 && n != t.me && k.th[n].st == St::Ready { record(k, n, false); switch(n, C::preemptions); }
        }
        t.next_switch = u64::MAX;
        plan_switch();
    } else if t.tick >= t.fair_at {
        if others_ready(k, t.me) {
            let n = default_next(k, t.me).unwrap();
            switch(n, C::preemptions);
        }
        t.fair_at = t.tick + QUANTUM;
        refresh_limit();
    } else {
        refresh_limit();
    }
}

fn record(k: &mut Kernel, next: usize, forced: bool) {
    let t = t();
    let shm = unsafe { &mut *k.shm };
    let d = Dec { tid: t.me as u32, op: t.op, tick: t.tick | if forced { FORCED } else { 0 }, next: next as u32 };
    if (shm.n_dec as usize) < MAX_DEC {
        shm.dec[shm.n_dec as usize] = d;
        shm.n_dec += 1;
    }
    fold_hash(mix(d.tid as u64 | (d.op as u64) << 8 | (next as u64) << 40) ^ d.tick);
    if !forced && d.tick != 0 { shm.nontrivial = 1; }
    trace(|| format!("switch t{} op{} tick{}{} -> t{}", d.tid, d.op, d.tick & !FORCED, if forced { " (blocked)" } else { "" }, next));
}

fn default_next(k: &Kernel, me: usize) -> Option<usize> {
    (1..=MAXT).map(|i| (me + i) % MAXT).find(|&i| i != 0 && k.th[i].st == St::Ready)
}

/// Picks a ready thread. `stay`: the caller itself may go on.
fn choose(k: &mut Kernel, me: usize, stay: bool) -> Option<usize> {
    let mut ready = [0usize; MAXT];
    let mut n = 0;
    for i in 1..MAXT {
        if k.th[i].st == St::Ready && (stay || i != me) { ready[n] = i; n += 1; }
    }
    if n == 0 { return None; }
    if k.policy.pct {
        if stay {
            // a change point: the running thread drops below all others
            k.low_prio -= 1;
            k.th[me].prio = k.low_prio;
        }
        return ready[..n].iter().copied().max_by_key(|&i| k.th[i].prio);
    }
    Some(ready[k.rng.index(n)])
}

/// Hands the baton over and waits to get it back.
fn switch(next: usize, why: C) {
    let t = t();
    let k = k();
    count(C::switches, 1);
    if why != C::switches { count(why, 1); }
    let (in_op, me) = (t.in_op, t.me);
    t.in_op = false;
    if t.tick > 1 { k.th[me].inside = true; }
    give(next);
    wait(me);
    k.th[me].inside = false;
    t.in_op = in_op;
    t.fair_at = t.tick + QUANTUM;
    let shm = unsafe { &mut *k.shm };
    shm.now_tid = me as u64;
    shm.now_op = t.op as u64;
}

fn give(next: usize) {
    let go = &k().th[next].go;
    go.store(1, SeqCst);
    unsafe { raw(sys::SYS_FUTEX, go as *const _ as c_long, 1 | 128, 1, 0, 0, 0); }
}
fn wait(me: usize) {
    let go = &k().th[me].go;
    while go.swap(0, SeqCst) == 0 {
        unsafe { raw(sys::SYS_FUTEX, go as *const _ as c_long, 0 | 128, 0, 0, 0, 0); }
    }
}

/// A point at which something another thread might observe happens.
#[inline]
fn event(why: C, p: u64) {
    let t = t();
    t.tick += 1;
    if t.tick >= t.limit { slow(); return; }
    let k = k();
    if p > 0 && t.watch && k.recording && k.live_threads > 1 && unsafe { (*k.shm).n_dec } < MAX_DEC as u64 - 256 && k.rng.permille(p) {
        if let Some(n) = choose(k, t.me, true) {
            if n != t.me { record(k, n, false); switch(n, why); plan_switch(); }
        }
    }
}

/// The caller cannot go on until its state is Ready again.
fn block() {
    let t = t();
    let k = k();
    loop {
        if k.th[t.me].st == St::Ready { return; }
        let next = if over(k) { None } else { pick_forced(k, t.me) };
        match next {
            None if over(k) => {
                // a thread of the library's own, idle as the round ends
                let (in_op, me) = (t.in_op, t.me);
                t.in_op = false;
                k.exiting = IDLE;
                give(0);
                wait(me);
                t.in_op = in_op;
                t.fair_at = t.tick + QUANTUM;
            }
            Some(n) => {
                count(C::futex_blocks, 1);
                record(k, n, true);
                if n == t.me { return; }
                let (in_op, me) = (t.in_op, t.me);
                t.in_op = false;
                count(C::switches, 1);
                give(n);
                wait(me);
                t.in_op = in_op;
                t.fair_at = t.tick + QUANTUM;
            }
            None => deadlock(k),
        }
        if k.th[t.me].st == St::Ready { plan_switch(); return; }
    }
}

const IDLE: usize = NONE - 1;
/// The planned threads are done, and the library's own, if any, have nothing
/// to do: what those still wait or sleep for is not waited for.
fn over(k: &Kernel) -> bool {
    (1..=k.n_plan).all(|i| k.th[i].st == St::Done) && (k.n_plan + 1..MAXT).all(|i| k.th[i].st != St::Ready)
}

fn deadlock(k: &Kernel) -> ! {
    let mut s = String::new();
    t().in_op = false;
    // a thread of the library's own that could not be started for want of
    // memory leaves the one that waits for it at the mercy of the runtime
    if (1..MAXT).any(|i| k.th[i].starved && matches!(k.th[i].st, St::Futex { .. })) { abandon(); }
    for i in 1..MAXT {
        if !matches!(k.th[i].st, St::Unused | St::Done) { s.push_str(&format!("thread {}: {:?}; ", i, k.th[i].st)); }
    }
    violation("deadlock", format!("no thread can go on: {}", s))
}

/// The next thread when the current one cannot run; advances time when
/// everybody sleeps.
fn pick_forced(k: &mut Kernel, me: usize) -> Option<usize> {
    loop {
        if (1..MAXT).any(|i| k.th[i].st == St::Ready) {
            if k.recording && unsafe { (*k.shm).n_dec } < MAX_DEC as u64 {
                return choose(k, NONE, false);
            }
            let t = t();
            if !k.recording && me < k.explicit.len() {
                if let Some(d) = k.explicit[me].iter().find(|d| d.op == t.op && d.tick == (t.tick | FORCED)) {
                    let n = d.next as usize;
                    if n < MAXT && n != 0 && k.th[n].st == St::Ready { return Some(n); }
                }
            }
            return default_next(k, me);
        }
        // jump the clock to the earliest deadline
        let mut best: Option<(u64, usize)> = None;
        for i in 1..MAXT {
            let d = match k.th[i].st { St::Futex { deadline, .. } | St::Sleep { deadline } => deadline, _ => 0 };
            if d != 0 && best.map_or(true, |b| (d, i) < b) { best = Some((d, i)); }
        }
        if best.is_none() {
            // all that is left is a stalled thread, which goes on now, and those
            // that wait for it
            let s = (1..MAXT).find(|&i| k.th[i].st == St::Stalled)?;
            if let Some(w) = (1..=k.n_plan).find(|&i| matches!(k.th[i].st, St::Futex { .. } | St::Join { .. })) {
                t().in_op = false;
                let what = format!("thread {} waits ({:?}) for something that only thread {} can do, which was stopped in the middle of a request of its own", w, k.th[w].st, s);
                violation("waits-for-stalled", what);
            }
            k.th[s].st = St::Ready;
            continue;
        }
        let (d, i) = best?;
        k.time = k.time.max(d);
        k.th[i].st = St::Ready;
        k.th[i].timed_out = true;
    }
}
// ---- operations ------------------------------------------------------------------------------------

/// Starts an operation of the current thread.
pub fn op_begin(op: u32, budget: u64, crash_id: u32) {
    let t = t();
    let k = k();
    // a run may be too long to be worth its while; a single request may not
    if unsafe { (*k.shm).count[C::ticks as usize] } > LONG_RUN { count(C::runs_cut_short, 1); abandon(); }
    t.op = op;
    t.tick = 0;
    t.allocs = 0;
    t.alloc_sum = 0;
    t.fired = false;
    t.suspended = false;
    t.msg_len = 0;
    t.budget = budget;
    t.queue = 0;
    t.crash_at = match k.crash {
        Some((ct, co, at)) if ct as usize == t.me && co == crash_id => at.max(2),
        _ => u64::MAX,
    };
    t.stall_at = match k.stall {
        Some((ct, co, at)) if ct as usize == t.me && co == crash_id => at.max(2),
        _ => u64::MAX,
    };
    let shm = unsafe { &mut *k.shm };
    shm.now_tid = t.me as u64;
    shm.now_op = op as u64;
    if t.me == 0 { t.next_switch = u64::MAX; t.fair_at = u64::MAX; refresh_limit(); return; }
    // the boundary between two operations is a decision too
    if k.recording {
        if k.live_threads > 1 && k.policy.p_bound > 0 && shm.n_dec < MAX_DEC as u64 - 256 && k.rng.permille(k.policy.p_bound) {
            if let Some(n) = choose(k, t.me, true) { if n != t.me { record(k, n, false); switch(n, C::switches); } }
        }
    } else if t.me < k.explicit.len() {
        if let Some(d) = k.explicit[t.me].iter().find(|d| d.op == op && d.tick == 0) {
            let n = d.next as usize;
            if n < MAXT && n != 0 && n != t.me && k.th[n].st == St::Ready { record(k, n, false); switch(n, C::switches); }
        }
    }
    t.tick = 1;
    t.fair_at = QUANTUM;
    plan_switch();
    shm.now_tid = t.me as u64;
    shm.now_op = op as u64;
}
pub fn op_enter() { t().in_op = true; t().watch = true; }
pub fn op_leave() { t().in_op = false; t().watch = false; }
/// Library code run for the harness's own sake: it counts as simulated memory,
/// but nothing interferes.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let t = t();
    t.in_op = true;
    let r = f();
    t.in_op = false;
    r
}
/// Ends the run early, without a verdict: the simulated machine is too small
/// for the plan.
pub fn abandon() -> ! {
    t().in_op = false;
    unsafe {
        (*k().shm).outcome = crate::shm::OK;
        sys::_exit(0)
    }
}
pub fn op_end() {
    let t = t();
    t.in_op = false;
    t.watch = false;
    t.limit = u64::MAX;
    t.af_kind = 0;
    k().time += t.tick;
    count(C::ticks, t.tick);
    count_max(C::max_op_ticks, t.tick);
    if t.budget < 1 << 60 { count_max(C::max_budget_ppm, t.tick.saturating_mul(1_000_000) / t.budget.max(1)); }
    count(C::alloc_calls, t.allocs);
    count(C::alloc_bytes, t.alloc_sum);
}
/// Runs harness code in the middle of an operation (a sink called back).
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let t = t();
    let was = std::mem::replace(&mut t.in_op, false);
    let w = std::mem::replace(&mut t.watch, false);
    let r = f();
    t.in_op = was;
    t.watch = w;
    r
}
/// A callback into the environment (a sink's write) is an instant at which
/// others may run.
pub fn callback_point() {
    if t().in_op { event(C::preemptions, k().policy.p_alloc); }
}

// ---- lifetime of a simulation ------------------------------------------------------------------------

pub fn map_memory() {
    sys::pages(ARENA_BASE, ARENA_TOTAL, false);
    sys::pages(SHADOW_BASE, ARENA_TOTAL / 8, false);
}

pub struct Setup {
    pub shm: *mut RunShm,
    pub seed: u64,
    pub policy: Policy,
    /// None: decide from the seed and record; Some: do exactly this
    pub explicit: Option<Vec<Dec>>,
    pub crash: Option<(u32, u32, u64)>,
    pub stall: Option<(u32, u32, u64)>,
    pub tracing: bool,
}

extern "C" { static __data_start: u8; static _end: u8; }

pub fn start(s: Setup) {
    let k = k();
    k.shm = s.shm;
    k.policy = s.policy;
    k.recording = s.explicit.is_none();
    k.rng = Rng::new(s.seed, 0x5c4e);
    k.env = Rng::new(s.seed, 0xe11f);
    k.explicit = vec![Vec::new(); MAXT];
    for d in s.explicit.unwrap_or_default() {
        if (d.tid as usize) < MAXT { k.explicit[d.tid as usize].push(d); }
    }
    k.crash = s.crash;
    k.stall = s.stall;
    k.time = 1_000_000_000;
    k.tracing = s.tracing;
    k.low_prio = 1 << 32;
    let lo = std::ptr::addr_of!(__data_start) as usize;
    k.data = (lo, std::ptr::addr_of!(_end) as usize - lo);
    for b in k.bump.iter_mut() { *b = 64; }
    t().me = 0;
    k.th[0].st = St::Unused;
    std::panic::set_hook(Box::new(|info| {
        let t = t();
        let was = std::mem::replace(&mut t.in_op, false);
        let mut b = [0u8; 200];
        let mut n = 0;
        let mut put = |s: &[u8]| for &c in s { if n < 200 { b[n] = c; n += 1; } };
        if let Some(s) = info.payload().downcast_ref::<&str>() { put(s.as_bytes()); }
        else if let Some(s) = info.payload().downcast_ref::<String>() { put(s.as_bytes()); }
        if let Some(l) = info.location() {
            // only files of the code under test: their names say where
            let f = l.file().rsplit('/').next().unwrap_or("");
            put(b" @");
            put(f.as_bytes());
        }
        if !was {
            // not the library's doing
            let at = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
            harness_error(format!("panic in the simulator: {}{}", String::from_utf8_lossy(&b[..n]), at));
        }
        t.in_op = was;
        let w = t.watch;
        t.watch = true;
        crate::exec::reenter(crate::exec::IN_HOOK);
        t.watch = w;
        t.msg = b;
        t.msg_len = n;
    }));
    std::alloc::set_alloc_error_hook(|_| { panic!("out of memory") });
}

pub fn message() -> String { String::from_utf8_lossy(&t().msg[..t().msg_len]).into() }

/// Runs `n` threads (1..=n) of the plan to their end.
pub fn run_threads(n: usize, body: fn(usize)) {
    let kk = k();
    kk.n_plan = n;
    kk.body = Some(body);
    // threads of the library's own may still be there from an earlier round
    kk.live_threads = n + (n + 1..MAXT).filter(|&i| !matches!(kk.th[i].st, St::Unused | St::Done)).count();
    for i in 1..=n {
        kk.th[i].st = St::Ready;
        kk.th[i].prio = (1 << 40) + kk.rng.below(1 << 30) * MAXT as u64 + i as u64;
        spawn_real(i);
    }
    if n == 0 { return; }
    let me = t();
    me.op = u32::MAX - ROUND.fetch_add(1, SeqCst) - 1;
    me.tick = 0;
    let mut from = 0usize;
    loop {
        // the choice after thread `from` ended (0: the first choice)
        me.tick = 0;
        let saved = me.me;
        me.me = from;
        let next = if over(kk) { None } else { pick_forced(kk, from) };
        match next {
            None => {
                if (1..=n).all(|i| matches!(kk.th[i].st, St::Unused | St::Done)) { me.me = saved; break; }
                deadlock(kk);
            }
            Some(x) => {
                record(kk, x, true);
                me.me = saved;
                give(x);
                wait(0);
            }
        }
        let e = std::mem::replace(&mut kk.exiting, NONE);
        if e == IDLE { from = 0; continue; }
        if e == NONE { harness_error("controller woken without an exit".into()); }
        unsafe { real_join(kk.th[e].real as _, std::ptr::null_mut()); }
        kk.th[e].st = St::Done;
        kk.live_threads -= 1;
        for i in 1..MAXT { if kk.th[i].st == (St::Join { target: e }) { kk.th[i].st = St::Ready; } }
        from = e;
    }
}

/// Threads of the library's own so far: each has its own place in a schedule.
static SPAWNED: AtomicU32 = AtomicU32::new(0);
fn spawn_real(i: usize) {
    let kk = k();
    let kk2 = k();
    // the library's own threads get the stack they ask for
    let (at, size) = if kk2.th[i].dynamic { (STACK_BASE + (MAXT + i) * BIG_STACK * 2, BIG_STACK) } else { (STACK_BASE + i * (STACK_SIZE + (1 << 20)), STACK_SIZE) };
    static mut MAPPED: [usize; MAXT] = [0; MAXT];
    unsafe {
        if MAPPED[i] != at {
            sys::pages(at, size, false);
            MAPPED[i] = at;
        }
        let mut attr = [0u64; 8];
        pthread_attr_init(attr.as_mut_ptr());
        pthread_attr_setstack(attr.as_mut_ptr(), at as *mut c_void, if kk2.th[i].dynamic { kk2.th[i].stack } else { size });
        let mut h = 0usize;
        let was = std::mem::replace(&mut t().in_op, false);
        let e = real_create(&mut h, attr.as_ptr(), boot, i as *mut c_void);
        t().in_op = was;
        if e != 0 { harness_error(format!("pthread_create: {}", e)); }
        kk.th[i].real = h;
        kk.th[i].joined = false;
    }
}

extern "C" fn boot(arg: *mut c_void) -> *mut c_void {
    let i = arg as usize;
    let t = t();
    t.me = i;
    wait(i);
    let kk = k();
    // registered first, destroyed last
    LAST.with(|_| ());
    if kk.th[i].dynamic {
        t.op = u32::MAX - 100_000 - SPAWNED.fetch_add(1, SeqCst);
        t.tick = 1;
        t.budget = 400_000_000;
        t.in_op = true;
        t.watch = true;
        t.fair_at = QUANTUM;
        plan_switch();
        let r = (kk.th[i].start.unwrap())(kk.th[i].arg as *mut c_void);
        kk.th[i].ret = r as usize;
        op_end();
    } else {
        (kk.body.unwrap())(i);
    }
    // end() comes with LAST
    std::ptr::null_mut()
}

/// The thread's turn is over when nothing of it is left to run, destructors of
/// thread-locals included.
struct Last;
impl Drop for Last {
    fn drop(&mut self) { end(t().me); }
}
thread_local! { static LAST: Last = const { Last }; }

fn end(i: usize) {
    let t = t();
    t.op = u32::MAX - ROUND.load(SeqCst);
    t.in_op = false;
    t.limit = u64::MAX;
    k().exiting = i;
    give(0);
}

// ---- memory -----------------------------------------------------------------------------------------------

pub struct SimAlloc;

#[inline(always)]
pub fn in_arena(p: usize) -> bool { p.wrapping_sub(ARENA_BASE) < ARENA_TOTAL }

unsafe impl GlobalAlloc for SimAlloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if t().in_op { sim_alloc(l) } else { System.alloc(l) } }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if t().in_op {
            let p = sim_alloc(l);
            if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
            p
        } else { System.alloc_zeroed(l) }
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p as usize) { sim_free(p, l) } else { System.dealloc(p, l) }
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !in_arena(p as usize) { return System.realloc(p, l, n); }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        // always moves: nothing may rely on growing in place
        let q = if t().in_op { sim_alloc(nl) } else { System.alloc(nl) };
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            sim_free(p, l);
        }
        q
    }
}

unsafe fn shadow(at: usize, len: usize, valid: bool) {
    let s = (SHADOW_BASE + ((at - ARENA_BASE) >> 3)) as *mut u8;
    if valid {
        std::ptr::write_bytes(s, 8, len / 8);
        if len % 8 != 0 { *s.add(len / 8) = (len % 8) as u8; }
    } else {
        std::ptr::write_bytes(s, 0, (len + 7) / 8);
    }
}

unsafe fn sim_alloc(l: Layout) -> *mut u8 {
    let t = t();
    event(C::preempt_at_alloc, k().policy.p_alloc);
    let k = k();
    t.allocs += 1;
    if t.af_kind != 0 && !t.suspended && !std::thread::panicking() {
        let (fail, c) = match t.af_kind {
            1 => (t.allocs == t.af_at, C::fault_alloc_once),
            2 => (t.allocs >= t.af_at, C::fault_alloc_exhausted),
            3 => (l.size() as u64 >= t.af_at, C::fault_alloc_large),
            _ => (t.alloc_sum + l.size() as u64 > t.af_at, C::fault_alloc_budget),
        };
        if fail {
            t.fired = true;
            count(c, 1);
            (*k.shm).nontrivial = 1;
            if k.th.iter().any(|x| x.inside) { count(C::probe_fault_while_other_inside, 1); }
            fold_hash(t.allocs ^ (t.op as u64) << 32 ^ 0xa110c);
            trace(|| format!("alloc-fault t{} op{} alloc{} size{}", t.me, t.op, t.allocs, l.size()));
            return std::ptr::null_mut();
        }
    }
    t.alloc_sum += l.size() as u64;
    let a = t.me;
    if k.policy.reuse && l.align() <= 16 && l.size().div_ceil(16) < CLASSES {
        if let Some(user) = k.free[l.size().div_ceil(16)].pop() {
            count(C::reused_blocks, 1);
            fill(user, l.size(), t.op);
            k.live_bytes += l.size() as u64;
            k.live_blocks += 1;
            return user as *mut u8;
        }
    }
    let base = ARENA_BASE + (a << ARENA_SHIFT);
    let align = l.align().max(16);
    let room = if k.policy.reuse { (l.size() + 15) & !15 } else { (l.size() + 7) & !7 };
    let user = (base + k.bump[a] + 32 + align - 1) & !(align - 1);
    let end = user + room + 16;
    if end - base >= (1 << ARENA_SHIFT) - 64 || k.total_bytes + l.size() as u64 > HEAP_CAP {
        // the simulated machine really is out of memory
        t.fired = true;
        count(C::fault_alloc_exhausted, 1);
        return std::ptr::null_mut();
    }
    k.bump[a] = (end - base + 15) & !15;
    k.total_bytes += l.size() as u64;
    fill(user, l.size(), t.op);
    let was = std::mem::replace(&mut t.in_op, false);
    k.blocks[a].push((user - 32 - base) as u32);
    t.in_op = was;
    k.live_bytes += l.size() as u64;
    k.live_blocks += 1;
    user as *mut u8
}

/// Makes `size` bytes at `user` a block in use: header, poison, guard bytes.
unsafe fn fill(user: usize, size: usize, op: u32) {
    let h = (user - 32) as *mut u64;
    *h = LIVE;
    *h.add(1) = size as u64;
    *h.add(2) = op as u64;
    *h.add(3) = RED;
    std::ptr::write_bytes(user as *mut u8, 0xa5, (size + 7) & !7);
    let tail = size & 7;
    if tail != 0 { std::ptr::write_bytes((user + size) as *mut u8, 0xfb, 8 - tail); }
    let r = (user + ((size + 7) & !7)) as *mut u64;
    *r = RED;
    *r.add(1) = RED;
    shadow(user, size, true);
}

unsafe fn check_zones(h: *const u64) -> Option<&'static str> {
    let size = *h.add(1) as usize;
    let user = h as usize + 32;
    if *h.add(3) != RED { return Some("bytes before the block were overwritten"); }
    let tail = size & 7;
    if tail != 0 {
        for i in size..size + 8 - tail {
            if *((user + i) as *const u8) != 0xfb { return Some("bytes behind the block were overwritten"); }
        }
    }
    let r = (user + ((size + 7) & !7)) as *const u64;
    if *r != RED || *r.add(1) != RED { return Some("bytes behind the block were overwritten"); }
    None
}

unsafe fn sim_free(p: *mut u8, l: Layout) {
    let h = (p as usize - 32) as *mut u64;
    let k = k();
    if *h != LIVE {
        let d = *h == DEAD;
        to_report();
        violation(if d { "memory-double-free" } else { "memory-bad-free" }, format!("block of {} bytes freed {}", l.size(), if d { "twice" } else { "although it was never allocated" }));
    }
    if *h.add(1) != l.size() as u64 {
        to_report();
        let m = format!("block of {} bytes freed as one of {} bytes", *h.add(1), l.size());
        violation("memory-bad-free", m);
    }
    if let Some(m) = check_zones(h) { to_report(); violation("memory-overrun", format!("block of {} bytes: {}", l.size(), m)); }
    *h = DEAD;
    shadow(p as usize, l.size(), false);
    std::ptr::write_bytes(p, 0xdd, l.size());
    k.live_bytes -= l.size() as u64;
    k.live_blocks -= 1;
    if k.policy.reuse && l.align() <= 16 && l.size() > 0 && l.size().div_ceil(16) < CLASSES {
        let was = std::mem::replace(&mut t().in_op, false);
        k.free[l.size().div_ceil(16)].push(p as usize);
        t().in_op = was;
    }
    if t().in_op { event(C::preempt_at_alloc, k.policy.p_alloc / 4); }
}

/// Looks at every block ever handed out: nothing may have written outside
/// blocks or into freed ones.
pub fn sweep() {
    let k = k();
    for a in 0..MAXT {
        let base = ARENA_BASE + (a << ARENA_SHIFT);
        for &b in &k.blocks[a] {
            let h = (base + b as usize) as *const u64;
            unsafe {
                let size = *h.add(1) as usize;
                if *h == LIVE {
                    if let Some(m) = check_zones(h) { violation("memory-overrun", format!("block of {} bytes: {}", size, m)); }
                } else if *h == DEAD {
                    let s = std::slice::from_raw_parts((h as usize + 32) as *const u8, size);
                    if s.iter().any(|&x| x != 0xdd) { violation("memory-use-after-free", format!("freed block of {} bytes was written", size)); }
                } else {
                    violation("memory-overrun", "a block's header was overwritten".into());
                }
            }
        }
    }
}

// ---- the operating system, as the code under simulation sees it ----------------------------------------------

extern "C" {
    fn pthread_attr_init(a: *mut u64) -> c_int;
    fn pthread_attr_getstacksize(a: *const u64, n: *mut usize) -> c_int;
    fn pthread_attr_setstack(a: *mut u64, s: *mut c_void, n: usize) -> c_int;
}
type Start = extern "C" fn(*mut c_void) -> *mut c_void;

unsafe fn real(name: &'static [u8]) -> *mut c_void {
    let p = sys::dlsym(sys::RTLD_NEXT, name.as_ptr());
    if p.is_null() { std::process::abort(); }
    p
}
unsafe fn real_create(h: *mut usize, a: *const u64, s: Start, arg: *mut c_void) -> c_int {
    let f: extern "C" fn(*mut usize, *const u64, Start, *mut c_void) -> c_int = std::mem::transmute(real(b"pthread_create\0"));
    f(h, a, s, arg)
}
unsafe fn real_join(h: usize, r: *mut *mut c_void) -> c_int {
    let f: extern "C" fn(usize, *mut *mut c_void) -> c_int = std::mem::transmute(real(b"pthread_join\0"));
    f(h, r)
}

fn simulated() -> bool { t().in_op && t().me != NONE }

/// The runtime insists on a guard page; these stacks end in unmapped memory.
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(a: *const u64, n: *mut usize) -> c_int {
    let f: extern "C" fn(*const u64, *mut usize) -> c_int = std::mem::transmute(real(b"pthread_attr_getguardsize\0"));
    let e = f(a, n);
    if e == 0 && *n == 0 { *n = 4096; }
    e
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(h: *mut usize, a: *const u64, s: Start, arg: *mut c_void) -> c_int {
    if !simulated() || t().me == 0 { return real_create(h, a, s, arg); }
    let kk = k();
    let Some(i) = (kk.n_plan + 1..MAXT).rev().find(|&i| kk.th[i].st == St::Unused || (kk.th[i].st == St::Done && kk.th[i].joined)) else { return sys::EAGAIN };
    kk.th[i].dynamic = true;
    let mut size = 2usize << 20;
    if !a.is_null() { pthread_attr_getstacksize(a, &mut size); }
    // with less than the planned threads have, room for what the runtime needs
    kk.th[i].stack = size.clamp(STACK_SIZE, BIG_STACK) & !0xfff;
    kk.th[i].start = Some(s);
    kk.th[i].arg = arg as usize;
    kk.th[i].st = St::Ready;
    kk.th[i].prio = (1 << 40) + kk.rng.below(1 << 30) * MAXT as u64 + i as u64;
    kk.live_threads += 1;
    count(C::subject_threads, 1);
    spawn_real(i);
    *h = 0x7ead_0000 + i;
    event(C::preemptions, 300);
    plan_switch();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(h: usize, r: *mut *mut c_void) -> c_int {
    if h & !0xffff != 0x7ead_0000 { return real_join(h, r); }
    let i = h & 0xffff;
    let kk = k();
    if kk.th[i].st != St::Done {
        let t = t();
        t.tick += 1;
        kk.th[t.me].st = St::Join { target: i };
        block();
    }
    kk.th[i].joined = true;
    if !r.is_null() { *r = kk.th[i].ret as *mut c_void; }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(h: usize) -> c_int {
    if h & !0xffff == 0x7ead_0000 { k().th[h & 0xffff].joined = true; return 0; }
    let f: extern "C" fn(usize) -> c_int = std::mem::transmute(real(b"pthread_detach\0"));
    f(h)
}

unsafe fn errno(e: c_int) -> c_long { *sys::__errno_location() = e; -1 }

unsafe fn futex(a: [c_long; 6]) -> c_long {
    let addr = a[0] as usize;
    let op = a[1] as i32 & 127;
    let val = a[2] as u32;
    let kk = k();
    let t = t();
    match op {
        0 | 9 => {
            event(C::preemptions, kk.policy.p_static);
            if (*(addr as *const AtomicU32)).load(SeqCst) != val { return errno(sys::EAGAIN); }
            if kk.policy.p_spurious > 0 && kk.env.permille(kk.policy.p_spurious) { count(C::fault_spurious_wake, 1); return 0; }
            let deadline = if a[3] == 0 { 0 } else {
                let ts = *(a[3] as *const timespec);
                let ns = (ts.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(ts.tv_nsec as u64);
                if op == 9 { ns.max(1) } else { now().saturating_add(ns).max(1) }
            };
            let mask = if op == 9 { a[5] as u32 } else { !0 };
            kk.th[t.me].timed_out = false;
            kk.th[t.me].starved = t.fired;
            kk.th[t.me].st = St::Futex { addr, mask, deadline };
            t.tick += 1;
            block();
            if kk.th[t.me].timed_out { return errno(sys::ETIMEDOUT); }
            0
        }
        1 | 10 => {
            let mask = if op == 10 { a[5] as u32 } else { !0 };
            let mut n = 0;
            for i in 1..MAXT {
                if n >= val as c_long { break; }
                if let St::Futex { addr: w, mask: m, .. } = kk.th[i].st {
                    if w == addr && m & mask != 0 { kk.th[i].st = St::Ready; n += 1; }
                }
            }
            event(C::preemptions, kk.policy.p_static);
            n
        }
        _ => harness_error(format!("futex operation {} is not simulated", op)),
    }
}

fn now() -> u64 { k().time + t().tick + k().clock_jump }

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if simulated() {
        match n {
            sys::SYS_FUTEX if t().me != 0 => return futex([a, b, c, d, e, f]),
            sys::SYS_GETRANDOM => return getrandom(a as *mut u8, b as usize, 0) as c_long,
            _ => {}
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) { return errno(-r as c_int); }
    r
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, fl: u32) -> isize {
    if simulated() {
        for i in 0..n { *p.add(i) = k().env.u64() as u8; }
        return n as isize;
    }
    raw(sys::SYS_GETRANDOM, p as c_long, n as c_long, fl as c_long, 0, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, ts: *mut timespec) -> c_int {
    if simulated() {
        let kk = k();
        if kk.policy.p_clock > 0 && kk.env.permille(kk.policy.p_clock) {
            count(C::fault_clock_jump, 1);
            kk.clock_jump = kk.env.below(1 << 40);
        }
        // some clocks only tick now and then
        let grain = [0, 0, 0, 10, 16, 20, 24, 28][(crate::rng::mix(kk.policy.world ^ 0xc10c) % 8) as usize];
        if kk.policy.world != 0 && grain != 0 { count(C::fault_clock_coarse, 1); }
        let x = if kk.policy.world != 0 { now() >> grain << grain } else { now() };
        *ts = timespec { tv_sec: (x / 1_000_000_000) as i64, tv_nsec: (x % 1_000_000_000) as i64 };
        return 0;
    }
    raw(sys::SYS_CLOCK_GETTIME, c as c_long, ts as c_long, 0, 0, 0, 0) as c_int
}
extern "C" { static environ: *const *const u8; }
/// The environment of a simulated process is not that of the simulator: a
/// name has no value, or one somebody set.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let len = (0..).find(|&i| *name.add(i) == 0).unwrap();
    let name = std::slice::from_raw_parts(name, len);
    if simulated() {
        const VALUES: [&[u8]; 16] = [b"0\0", b"1\0", b"2\0", b"3\0", b"4\0", b"8\0", b"100\0", b"1000000\0", b"\0", b"4294967295\0", b"18446744073709551616\0", b"-1\0", b"true\0", b"on\0", b"off\0", b"max\0"];
        let world = k().policy.world;
        if world == 0 || name.starts_with(b"RUST") { return std::ptr::null(); }
        let h = name.iter().fold(world, |h, &b| crate::rng::mix(h ^ b as u64));
        if h & 1 == 0 { return std::ptr::null(); }
        count(C::fault_environment, 1);
        return VALUES[(h >> 8) as usize % 16].as_ptr();
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let s = *e;
        if (0..len).all(|i| *s.add(i) == name[i]) && *s.add(len) == b'=' { return s.add(len + 1); }
        e = e.add(1);
    }
    std::ptr::null()
}
/// How many processors a simulated process may use.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, n: usize, mask: *mut u64) -> c_int {
    if simulated() {
        let world = k().policy.world;
        let cpus = if world == 0 { 4 } else { count(C::fault_processors, 1); [1, 1, 2, 3, 4, 6, 16, 64][(crate::rng::mix(world ^ 0xc9) % 8) as usize] };
        for i in 0..n / 8 { *mask.add(i) = 0; }
        if n >= 8 { *mask = !0 >> (64 - cpus); }
        return 0;
    }
    let r = raw(sys::SYS_SCHED_GETAFFINITY, pid as c_long, n as c_long, mask as c_long, 0, 0, 0);
    if r < 0 { return errno(-r as c_int) as c_int; }
    for i in (r as usize)..n { *(mask as *mut u8).add(i) = 0; }
    0
}
unsafe fn sleep(ns: u64) {
    let kk = k();
    let t = t();
    if t.me == 0 { kk.time += ns; return; }
    t.tick += 1;
    kk.th[t.me].st = St::Sleep { deadline: now().saturating_add(ns).max(1) };
    block();
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const timespec, b: *mut timespec) -> c_int {
    if simulated() { sleep(((*a).tv_sec as u64).saturating_mul(1_000_000_000) + (*a).tv_nsec as u64); return 0; }
    raw(sys::SYS_NANOSLEEP, a as c_long, b as c_long, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, fl: c_int, a: *const timespec, b: *mut timespec) -> c_int {
    if simulated() {
        let ns = ((*a).tv_sec as u64).saturating_mul(1_000_000_000) + (*a).tv_nsec as u64;
        sleep(if fl & 1 != 0 { ns.saturating_sub(now()) } else { ns });
        return 0;
    }
    -raw(sys::SYS_CLOCK_NANOSLEEP, c as c_long, fl as c_long, a as c_long, b as c_long, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if simulated() && t().me != 0 {
        let kk = k();
        let t = t();
        t.tick += 1;
        if t.tick >= t.limit { slow(); }
        // always lets somebody else run; a rule, so it needs no record
        if let Some(n) = default_next(kk, t.me) { if n != t.me { switch(n, C::preemptions); plan_switch(); } }
        return 0;
    }
    raw(sys::SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0) as c_int
}
