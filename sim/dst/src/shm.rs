//! Memory shared between the processes of one check: what a simulated run
//! reports, the simulated disk (which outlives a crash), and totals.

use crate::sys;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub const MAX_DEC: usize = 2048;
pub const CLASS: usize = 48;
pub const DETAIL: usize = 6000;
pub const SLOTS: usize = 6;
pub const FILE: usize = 1 << 15;

/// One scheduling decision: at (tid, op, tick), run thread `next`.
#[derive(Clone, Copy, Default, PartialEq, Debug)]
#[repr(C)]
pub struct Dec { pub tid: u32, pub op: u32, pub tick: u64, pub next: u32 }

macro_rules! counters {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, PartialEq)]
        #[repr(usize)]
        pub enum C { $($n),* }
        pub const NAMES: &[&str] = &[$(stringify!($n)),*];
        pub const NC: usize = NAMES.len();
    };
}
counters!(
    runs, runs_nontrivial, ops, ops_answered, ops_refused_as_due, ops_failed_by_fault, ops_skipped,
    ticks, threads,
    // schedule
    switches, preemptions, preempt_at_alloc, preempt_at_static, preempt_at_foreign_store, futex_blocks,
    subject_threads,
    // faults that fired
    fault_alloc_once, fault_alloc_exhausted, fault_alloc_large, fault_alloc_budget,
    fault_text_error_after, fault_text_error_call, fault_text_transient, fault_text_panic,
    fault_stream_error, fault_stream_disk_full, fault_stream_zero, fault_stream_panic,
    fault_stream_short, fault_stream_interrupted,
    fault_crash, fault_damage_lost, fault_damage_torn, fault_damage_block, fault_damage_flip,
    fault_damage_stale, fault_damage_splice, fault_sync_failed, fault_bad_text, fault_refusal,
    fault_spurious_wake, fault_clock_jump, fault_clock_coarse, fault_environment, fault_processors, fault_restart, fault_stall,
    // probes: rare conditions reached
    probe_fault_while_other_inside,
    probe_retry_after_fault, probe_moved_between_threads, probe_text_survived, probe_text_damaged_refused,
    probe_text_damaged_read, probe_soak_rounds,
    probe_request_within_write, probe_request_within_panic, probe_request_in_panic_hook, probe_request_at_thread_end,
    alloc_calls, alloc_bytes, reused_blocks, runs_cut_short, max_op_ticks, max_budget_ppm, bytes_written,
    runs_other_property, irreproducible,
);

/// Counters that hold a maximum.
pub fn is_max(i: usize) -> bool { i == C::max_op_ticks as usize || i == C::max_budget_ppm as usize }

#[repr(C)]
pub struct File { pub present: u64, pub len: u64, pub data: [u8; FILE] }

/// What is known about a slot of the simulated disk: `acked` holds the value
/// (as hexadecimal text) that a completed sync promised to keep.
#[repr(C)]
pub struct Slot {
    pub durable: File,
    pub volatile: File,
    /// nothing has touched the slot since the last completed sync
    pub clean: u64,
    pub acked: File,
    /// the number the volatile content was written from (when the write completed)
    pub pending: File,
}

pub const OK: u64 = 1;
pub const VIOLATION: u64 = 2;
pub const CRASHED: u64 = 3;
pub const HARNESS: u64 = 4;

#[repr(C)]
pub struct RunShm {
    pub outcome: u64,
    pub class_len: u64,
    pub detail_len: u64,
    pub tid: u64,
    pub op: u64,
    /// what the run is doing now (for a run that is killed by a signal)
    pub now_tid: u64,
    pub now_op: u64,
    pub now_tick: u64,
    pub n_dec: u64,
    pub hash: u64,
    pub nontrivial: u64,
    pub class: [u8; CLASS],
    pub detail: [u8; DETAIL],
    pub dec: [Dec; MAX_DEC],
    pub count: [u64; NC],
    pub trace_len: u64,
    pub trace: [u8; 1 << 16],
    pub slots: [Slot; SLOTS],
}

impl RunShm {
    /// Forget the last phase's report, keep the disk.
    pub fn reset(&mut self, disk: bool) {
        self.outcome = 0;
        self.class_len = 0;
        self.detail_len = 0;
        self.n_dec = 0;
        self.hash = 0;
        self.nontrivial = 0;
        self.now_tid = 0;
        self.now_op = 0;
        self.now_tick = 0;
        self.trace_len = 0;
        self.count = [0; NC];
        if disk {
            for s in self.slots.iter_mut() {
                for f in [&mut s.durable, &mut s.volatile, &mut s.acked, &mut s.pending] {
                    f.present = 0;
                    f.len = 0;
                }
                s.clean = 1;
            }
        }
    }
    pub fn class(&self) -> String { String::from_utf8_lossy(&self.class[..self.class_len as usize]).into() }
    pub fn detail(&self) -> String { String::from_utf8_lossy(&self.detail[..self.detail_len as usize]).into() }
    pub fn set_violation(&mut self, class: &str, detail: &str) {
        let n = class.len().min(CLASS);
        self.class[..n].copy_from_slice(&class.as_bytes()[..n]);
        self.class_len = n as u64;
        let n = detail.len().min(DETAIL);
        self.detail[..n].copy_from_slice(&detail.as_bytes()[..n]);
        self.detail_len = n as u64;
        self.outcome = VIOLATION;
    }
}

pub const COV: usize = 1 << 17;
pub const SET: usize = 1 << 22;

/// Totals of a check, updated by all workers.
#[repr(C)]
pub struct Global {
    pub stop: AtomicU64,
    pub lowest_violation: AtomicU64,
    pub distinct: AtomicU64,
    pub distinct_states: AtomicU64,
    pub harness_errors: AtomicU64,
    pub total: [AtomicU64; NC],
    pub guards: AtomicU64,
    pub cov: [u8; COV],
    pub set: [AtomicU64; SET],
}

impl Global {
    pub fn add(&self, r: &RunShm) {
        for i in 0..NC {
            if r.count[i] == 0 { continue; }
            if is_max(i) {
                self.total[i].fetch_max(r.count[i], Relaxed);
            } else {
                self.total[i].fetch_add(r.count[i], Relaxed);
            }
        }
    }
    /// True when `h` was not yet in the set.
    pub fn insert(&self, h: u64) -> bool {
        let h = if h == 0 { 1 } else { h };
        let mut i = h as usize % SET;
        for _ in 0..64 {
            match self.set[i].compare_exchange(0, h, Relaxed, Relaxed) {
                Ok(_) => return true,
                Err(x) if x == h => return false,
                Err(_) => i = (i + 1) % SET,
            }
        }
        false
    }
}

pub fn map<T>() -> &'static mut T {
    unsafe { &mut *(sys::pages(0, std::mem::size_of::<T>(), true) as *mut T) }
}
