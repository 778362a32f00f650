//! Runs plans in forked children, many at a time; minimises what fails.

use crate::exec;
use crate::gen;
use crate::kernel;
use crate::nat::Nat;
use crate::plan::{Fault, Plan};
use crate::rng::mix;
use crate::shm::{self, Global, RunShm, C, NC};
use crate::sys;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Debug, PartialEq)]
pub struct Failure { pub class: String, pub detail: String, pub phase: usize, pub tid: u64, pub op: u64 }

pub enum End { Fine, Failed(Failure), Harness(String) }

pub struct Ran { pub end: End, pub plan: Plan, pub hash: u64, pub nontrivial: bool, pub count: [u64; NC], pub trace: String }

const CPU_SECONDS: u64 = 40;
const SIGABRT: i32 = 6;
const SIGKILL: i32 = 9;
const SIGALRM: i32 = 14;
const SIGXCPU: i32 = 24;

fn signal_name(s: i32) -> String {
    match s { 4 => "SIGILL".into(), SIGABRT => "SIGABRT".into(), 7 => "SIGBUS".into(), 8 => "SIGFPE".into(), 11 => "SIGSEGV".into(), n => format!("signal {}", n) }
}

/// Runs all phases of a plan, each in its own process on the same disk.
pub fn run_plan(plan: &Plan, s: &'static mut RunShm, tracing: bool) -> Ran {
    s.reset(true);
    let mut out = Ran { end: End::Fine, plan: plan.clone(), hash: 0, nontrivial: false, count: [0; NC], trace: String::new() };
    for phase in 0..plan.phases.len() {
        s.reset(false);
        let pid = unsafe { sys::fork() };
        if pid < 0 { out.end = End::Harness("fork failed".into()); return out; }
        if pid == 0 {
            unsafe {
                sys::prctl(1, SIGKILL as u64, 0, 0, 0);
                sys::setrlimit(0, &[CPU_SECONDS, CPU_SECONDS + 10]);
                sys::setrlimit(4, &[0, 0]);
                sys::alarm(240);
            }
            exec::run_phase(plan, phase, s, tracing);
        }
        let mut st = 0;
        unsafe { sys::waitpid(pid, &mut st, 0); }
        let fail = |class: &str, detail: String| Failure { class: class.into(), detail, phase, tid: s.now_tid, op: s.now_op };
        for i in 0..NC {
            if shm::is_max(i) { out.count[i] = out.count[i].max(s.count[i]) } else { out.count[i] += s.count[i] }
        }
        out.hash = mix(out.hash ^ s.hash);
        out.nontrivial |= s.nontrivial != 0;
        out.plan.phases[phase].sched = Some(s.dec[..s.n_dec as usize].to_vec());
        if tracing { out.trace.push_str(&String::from_utf8_lossy(&s.trace[..s.trace_len as usize])); }
        let sig = st & 127;
        let code = (st >> 8) & 255;
        match (sig, code, s.outcome) {
            (0, 0, shm::OK) => {}
            (0, 77, shm::CRASHED) => {}
            (0, 101, shm::VIOLATION) => { out.end = End::Failed(Failure { class: s.class(), detail: s.detail(), phase, tid: s.tid, op: s.op }); return out; }
            (0, 103, _) => { out.end = End::Harness(s.detail()); return out; }
            (SIGKILL, _, _) => { out.end = End::Harness("a run was killed from outside".into()); return out; }
            (SIGXCPU, _, _) => { out.end = End::Failed(fail("hang", format!("no answer within {} seconds of processor time", CPU_SECONDS))); return out; }
            (SIGALRM, _, _) => { out.end = End::Failed(fail("hang", "blocked for ever outside the simulated system".into())); return out; }
            (0, c, _) => { out.end = End::Failed(fail("process-ended", format!("the process was ended with status {}", c))); return out; }
            (g, _, _) => { out.end = End::Failed(fail("process-ended", format!("the process died of {}", signal_name(g)))); return out; }
        }
        if phase + 1 < plan.phases.len() {
            // the machine goes down; what was not synced is at its mercy
            out.count[C::fault_restart as usize] += 1;
            for (i, d) in plan.phases[phase].damage.iter().enumerate() {
                if i >= shm::SLOTS || s.slots[i].volatile.present == 0 { continue; }
                if let Some(c) = exec::damage(&mut s.slots[i], *d) {
                    out.count[c as usize] += 1;
                    out.nontrivial = true;
                    out.hash = mix(out.hash ^ d.1 ^ d.2 << 16 ^ (d.0 as u64) << 40);
                }
            }
            for sl in s.slots.iter_mut() {
                let n = sl.volatile.len as usize;
                sl.durable.present = sl.volatile.present;
                sl.durable.len = sl.volatile.len;
                sl.durable.data[..n].copy_from_slice(&sl.volatile.data[..n]);
                let n = sl.pending.len as usize;
                sl.acked.present = sl.pending.present;
                sl.acked.len = sl.pending.len;
                sl.acked.data[..n].copy_from_slice(&sl.pending.data[..n]);
                sl.clean = 1;
            }
        }
    }
    out
}

fn reborrow(s: &mut RunShm) -> &'static mut RunShm { unsafe { &mut *(s as *mut RunShm) } }

fn now() -> f64 {
    let mut ts = sys::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { sys::raw(sys::SYS_CLOCK_GETTIME, 1, &mut ts as *mut _ as i64, 0, 0, 0, 0); }
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

// ---- minimising ------------------------------------------------------------------------------

struct Min<'a> { s: &'a mut RunShm, class: String, best: Plan, trials: u32, deadline: f64 }

impl Min<'_> {
    fn attempt(&mut self, p: Plan) -> bool {
        if p == self.best || self.trials >= 6000 || now() > self.deadline { return false; }
        self.trials += 1;
        let r = run_plan(&p, reborrow(self.s), false);
        match r.end {
            End::Failed(f) if f.class == self.class => { self.best = p; true }
            _ => false,
        }
    }
    fn edit(&mut self, f: impl FnOnce(&mut Plan)) -> bool {
        let mut p = self.best.clone();
        f(&mut p);
        self.attempt(p)
    }
    fn pass(&mut self) -> bool {
        let mut any = false;
        for ph in (0..self.best.phases.len()).rev() {
            if self.best.phases.len() > 1 { any |= self.edit(|p| { p.phases.remove(ph); }); }
        }
        for ph in 0..self.best.phases.len() {
            for t in 0..self.best.phases[ph].threads.len() {
                if !self.best.phases[ph].threads[t].is_empty() { any |= self.edit(|p| p.phases[ph].threads[t].clear()); }
            }
            while self.best.phases[ph].threads.len() > 1 && self.best.phases[ph].threads.last().unwrap().is_empty() {
                if !self.edit(|p| { p.phases[ph].threads.pop(); }) { break; }
                any = true;
            }
            if self.best.phases[ph].crash.is_some() { any |= self.edit(|p| p.phases[ph].crash = None); }
            if self.best.phases[ph].stall.is_some() { any |= self.edit(|p| p.phases[ph].stall = None); }
            for l in [1, 8, 24, 60] { if self.best.phases[ph].loops > l { any |= self.edit(|p| p.phases[ph].loops = l); } }
            if self.best.phases[ph].drift { any |= self.edit(|p| p.phases[ph].drift = false); }
            if self.best.phases[ph].vary != 0 { any |= self.edit(|p| p.phases[ph].vary = 0); }
            for r in [1, 8] { if self.best.phases[ph].rounds > r { any |= self.edit(|p| p.phases[ph].rounds = r); } }
            for d in 0..self.best.phases[ph].damage.len() {
                if self.best.phases[ph].damage[d].0 != 0 { any |= self.edit(|p| p.phases[ph].damage[d] = (0, 0, 0)); }
            }
            // operations, in shrinking groups
            for t in 0..self.best.phases[ph].threads.len() {
                let mut n = self.best.phases[ph].threads[t].len();
                while n >= 1 {
                    let mut i = 0;
                    while i < self.best.phases[ph].threads[t].len() {
                        let e = (i + n).min(self.best.phases[ph].threads[t].len());
                        if self.edit(|p| { p.phases[ph].threads[t].drain(i..e); }) { any = true; } else { i += n; }
                    }
                    n /= 2;
                }
            }
            // the schedule
            let mut n = self.best.phases[ph].sched.as_ref().map_or(0, |s| s.len());
            while n >= 1 {
                let mut i = 0;
                while i < self.best.phases[ph].sched.as_ref().unwrap().len() {
                    let e = (i + n).min(self.best.phases[ph].sched.as_ref().unwrap().len());
                    if self.edit(|p| { p.phases[ph].sched.as_mut().unwrap().drain(i..e); }) { any = true; } else { i += n; }
                }
                n /= 2;
            }
            // faults and arguments
            for t in 0..self.best.phases[ph].threads.len() {
                for i in 0..self.best.phases[ph].threads[t].len() {
                    let o = self.best.phases[ph].threads[t][i].clone();
                    if o.f != Fault::default() { any |= self.edit(|p| p.phases[ph].threads[t][i].f = Fault::default()); }
                    if o.f.nest != 0 {
                        let g = Fault { nest: o.f.nest, nest_kind: o.f.nest_kind, nest_reg: o.f.nest_reg, nest_at: o.f.nest_at, ..Fault::default() };
                        if g != o.f { any |= self.edit(|p| p.phases[ph].threads[t][i].f = g); }
                        any |= self.edit(|p| p.phases[ph].threads[t][i].f.nest = 0);
                    }
                    if o.f.rehearsed { any |= self.edit(|p| { let f = &mut p.phases[ph].threads[t][i].f; f.rehearsed = false; f.at = 1; }); }
                    if o.m != 0 { any |= self.edit(|p| p.phases[ph].threads[t][i].m = 0); }
                    if o.mode != 0 { any |= self.edit(|p| p.phases[ph].threads[t][i].mode = 0); }
                    for _ in 0..40 {
                        let v = self.best.phases[ph].threads[t][i].n;
                        if v == 0 || !(self.edit(|p| p.phases[ph].threads[t][i].n = 0) || self.edit(|p| p.phases[ph].threads[t][i].n = v / 2) || self.edit(|p| p.phases[ph].threads[t][i].n = v - 1)) { break; }
                        any = true;
                    }
                    let mut step = o.text.len();
                    while step >= 1 {
                        let mut k = 0;
                        while k < self.best.phases[ph].threads[t][i].text.len() {
                            let e = (k + step).min(self.best.phases[ph].threads[t][i].text.len());
                            if self.edit(|p| { p.phases[ph].threads[t][i].text.drain(k..e); }) { any = true; } else { k += step; }
                        }
                        step /= 2;
                    }
                    for _ in 0..60 {
                        let v = self.best.phases[ph].threads[t][i].val.clone();
                        let mut ok = false;
                        for c in smaller(&v) { if self.edit(|p| p.phases[ph].threads[t][i].val = c) { ok = true; break; } }
                        if !ok { break; }
                        any = true;
                    }
                }
            }
        }
        for i in 0..self.best.pool.len() {
            for _ in 0..60 {
                let v = self.best.pool[i].1.clone();
                let mut ok = false;
                for c in smaller(&v) { if self.edit(|p| p.pool[i].1 = c) { ok = true; break; } }
                if !ok { break; }
                any = true;
            }
        }
        if self.best.world != 0 { any |= self.edit(|p| p.world = 0); }
        if self.best.spurious != 0 { any |= self.edit(|p| p.spurious = 0); }
        if self.best.reuse != 0 { any |= self.edit(|p| p.reuse = 0); }
        if self.best.clock != 0 { any |= self.edit(|p| p.clock = 0); }
        any
    }
}

fn smaller(v: &Nat) -> Vec<Nat> {
    let b = v.bits();
    if b == 0 { return vec![]; }
    let mut c = vec![Nat::zero()];
    if b > 1 { c.push(Nat::one()); }
    for k in [b / 2, b / 4, b / 8, 64, 16, 8, 1] {
        if k > 0 && k < b {
            c.push(v.shr(k));
            c.push(v.sub(&v.shr(b - k).shl(b - k)).unwrap());
        }
    }
    // clear low bits, set them
    for k in [b / 2, b / 4, 16, 8] {
        if k > 0 && k < b { let x = v.shr(k).shl(k); if x != *v { c.push(x); } }
    }
    c.retain(|x| x.cmp(v).is_lt());
    c
}

pub fn minimise(p: &Plan, class: &str, s: &'static mut RunShm, secs: f64) -> (Plan, u32) {
    let mut m = Min { s, class: class.into(), best: p.clone(), trials: 0, deadline: now() + secs };
    for _ in 0..8 { if !m.pass() { break; } }
    (m.best, m.trials)
}

// ---- one check -------------------------------------------------------------------------------------

pub struct Options { pub property: String, pub seed: u64, pub runs: u64, pub first: u64, pub secs: f64, pub workers: usize, pub out: String, pub replay: String, pub keep_going: bool, pub minimise_secs: f64 }

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => { let mut b = [0; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)); } }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn sample(p: &Plan) -> String {
    let mut s = format!("run {}: pool of {} numbers; ", p.run, p.pool.len());
    for (i, ph) in p.phases.iter().enumerate() {
        if p.phases.len() > 1 { s.push_str(&format!("incarnation {}: ", i + 1)); }
        for (t, ops) in ph.threads.iter().enumerate() {
            s.push_str(&format!("thread {}: ", t + 1));
            for o in ops.iter().take(10) {
                s.push_str(o.k.name());
                if o.k == crate::plan::Kind::Bin { s.push_str(&format!("({:?},mode {})", exec::bin_of(o.sub), o.mode)); }
                if o.f.alloc != 0 { s.push_str(&format!("[alloc fault {} at {}]", o.f.alloc, o.f.at)); }
                if o.f.nest != 0 { s.push_str(&format!("[request {} within, at {}]", o.f.nest_kind, o.f.nest)); }
                if o.f.sink != 0 { s.push_str(&format!("[sink fault {} at {}]", o.f.sink, o.f.sink_at)); }
                s.push(' ');
            }
            if ops.len() > 10 { s.push_str(&format!("... {} operations ", ops.len())); }
        }
        if let Some(c) = ph.stall { s.push_str(&format!("thread {} stopped in operation {} at step {} ", c.0, c.1, c.2)); }
        if let Some(c) = ph.crash { s.push_str(&format!("crash in thread {} operation {} at step {} ", c.0, c.1, c.2)); }
        let d = ph.sched.as_ref().map_or(0, |d| d.len());
        if d > 0 {
            s.push_str(&format!("{} scheduling decisions, first ", d));
            for x in ph.sched.as_ref().unwrap().iter().filter(|x| x.tick & 1 << 63 == 0).take(4) { s.push_str(&format!("t{}@op{}+{}->t{} ", x.tid, x.op >> 4 & 0x7ffff, x.tick, x.next)); }
        }
    }
    s
}

/// Whether the explicit plan of a failed run fails in the same way again.
fn reproduces(p: &Plan, f: &Failure, s: &'static mut RunShm) -> bool {
    matches!(run_plan(p, s, false).end, End::Failed(g) if g.class == f.class)
}

fn candidate(opt: &Options, run: u64) -> String { format!("{}.{}.raw", opt.replay, run) }

pub fn check(opt: &Options) -> i32 {
    let g: &'static mut Global = shm::map();
    g.lowest_violation.store(u64::MAX, Relaxed);
    let gp = g as *mut Global;
    kernel::set_cov(unsafe { (*gp).cov.as_mut_ptr() });
    kernel::map_memory();
    let started = now();
    let mut pids = vec![];
    let parent = std::process::id();
    for wk in 0..opt.workers {
        let pid = unsafe { sys::fork() };
        if pid < 0 { eprintln!("fork failed"); return 3; }
        if pid == 0 {
            unsafe { sys::prctl(1, SIGKILL as u64, 0, 0, 0); }
            if unsafe { sys::getppid() } as u32 != parent { std::process::exit(0); }
            pin(wk);
            let s: &'static mut RunShm = shm::map();
            let g = unsafe { &*gp };
            let mut run = opt.first + wk as u64;
            let mut samples = 0;
            while run < opt.first + opt.runs {
                if now() - started > opt.secs || (g.stop.load(Relaxed) != 0 && !opt.keep_going) { break; }
                let plan = gen::plan(&opt.property, opt.seed, run);
                let mut r = run_plan(&plan, reborrow(s), false);
                if let End::Harness(m) = &r.end {
                    // once more: the machine may have been short of memory
                    eprintln!("run {}: {}", run, m);
                    std::thread::sleep(std::time::Duration::from_millis(300));
                    r = run_plan(&plan, reborrow(s), false);
                }
                r.count[C::runs as usize] = 1;
                r.count[C::threads as usize] = plan.phases.iter().map(|p| p.threads.len() as u64).sum();
                s.count = r.count;
                if r.nontrivial { s.count[C::runs_nontrivial as usize] = 1; }
                g.add(s);
                if g.insert(r.hash) && r.nontrivial { g.distinct.fetch_add(1, Relaxed); }
                match &r.end {
                    End::Fine => {
                        if wk == 0 && samples < 3 && r.nontrivial && plan.ops() <= 24 {
                            let _ = std::fs::write(format!("{}.sample{}", opt.out, samples), sample(&r.plan));
                            samples += 1;
                        }
                    }
                    End::Harness(m) => { eprintln!("run {}: {}", run, m); g.harness_errors.fetch_add(1, Relaxed); g.stop.store(1, Relaxed); }
                    End::Failed(f) if !gen::concerns(&opt.property, &f.class) => {
                        // something is wrong, but not with this property
                        g.total[C::runs_other_property as usize].fetch_add(1, Relaxed);
                        if opt.keep_going { println!("{} (not {}) {}: {}", run, opt.property, f.class, f.detail); }
                    }
                    End::Failed(f) if !opt.keep_going && !reproduces(&r.plan, f, reborrow(s)) && g.total[C::irreproducible as usize].fetch_add(1, Relaxed) < 2 => {
                        // the machine's doing (a stall, say), unless it keeps happening
                        eprintln!("run {}: {} did not happen again: {}", run, f.class, f.detail);
                    }
                    End::Failed(f) => {
                        let text = format!("# {}\n# {}\n{}", f.class, f.detail.replace('\n', " "), r.plan.text());
                        if std::fs::write(candidate(opt, run), text).is_err() { g.harness_errors.fetch_add(1, Relaxed); }
                        g.lowest_violation.fetch_min(run, Relaxed);
                        g.stop.store(1, Relaxed);
                        if opt.keep_going { println!("{} {}: {}", run, f.class, f.detail); }
                    }
                }
                run += opt.workers as u64;
            }
            std::process::exit(0);
        }
        pids.push(pid);
    }
    let mut bad = 0;
    for p in pids {
        let mut st = 0;
        unsafe { sys::waitpid(p, &mut st, 0); }
        if st != 0 { bad += 1; }
    }
    let g = unsafe { &*gp };
    let wall = now() - started;
    let mut violation = String::from("null");
    let low = g.lowest_violation.load(Relaxed);
    if low != u64::MAX && !opt.keep_going {
        let s: &'static mut RunShm = shm::map();
        let text = std::fs::read_to_string(candidate(opt, low)).unwrap_or_default();
        let Some(plan) = Plan::parse(&text) else { eprintln!("unreadable candidate"); return 3 };
        let class = text.lines().next().unwrap_or("").trim_start_matches("# ").to_string();
        // the explicit plan must fail the same way before it is shrunk
        let first = run_plan(&plan, reborrow(s), false);
        let again = matches!(&first.end, End::Failed(f) if f.class == class);
        let (best, trials) = if again { minimise(&plan, &class, reborrow(s), opt.minimise_secs) } else { (plan.clone(), 0) };
        let last = run_plan(&best, reborrow(s), true);
        let (class2, detail) = match &last.end { End::Failed(f) => (f.class.clone(), f.detail.clone()), _ => (class.clone(), text.lines().nth(1).unwrap_or("").to_string()) };
        let mut o = String::new();
        o.push_str(&format!("# {}: {}\n# {}\n", opt.property, class2, detail.replace('\n', " ")));
        o.push_str(&format!("# found in run {} of seed {}; {} simulated trials to minimise; {} operations, {} scheduling decisions\n", low, opt.seed, trials,
            best.ops(), best.phases.iter().map(|p| p.sched.as_ref().map_or(0, |d| d.len())).sum::<usize>()));
        o.push_str(&best.text());
        o.push_str("# event log of the run:\n");
        for l in last.trace.lines().take(400) { o.push_str(&format!("# {}\n", l)); }
        if std::fs::write(&opt.replay, o).is_err() { return 3; }
        violation = format!("{{\"class\":{},\"detail\":{},\"run\":{},\"reproduced\":{},\"trials\":{},\"ops\":{}}}", json_str(&class2), json_str(&detail), low, again, trials, best.ops());
        println!("{} {}: {}", opt.property, class2, detail);
    }
    if !opt.keep_going { if let Ok(d) = std::fs::read_dir(std::path::Path::new(&opt.replay).parent().unwrap()) {
        for e in d.flatten() { if e.path().to_string_lossy().starts_with(&opt.replay) && e.path().extension().is_some_and(|x| x == "raw") { let _ = std::fs::remove_file(e.path()); } }
    } }
    let mut j = String::from("{");
    j.push_str(&format!("\"seed\":{},\"wall_s\":{:.3},\"workers\":{},", opt.seed, wall, opt.workers));
    for i in 0..NC { j.push_str(&format!("{}:{},", json_str(shm::NAMES[i]), g.total[i].load(Relaxed))); }
    let hit = g.cov.iter().filter(|&&x| x != 0).count();
    j.push_str(&format!("\"edges\":{},\"edges_hit\":{},\"distinct_runs\":{},\"harness_errors\":{},", kernel::guards(), hit, g.distinct.load(Relaxed), g.harness_errors.load(Relaxed) + bad));
    j.push_str("\"samples\":[");
    for i in 0..3 {
        let f = format!("{}.sample{}", opt.out, i);
        if let Ok(t) = std::fs::read_to_string(&f) { if i > 0 { j.push(','); } j.push_str(&json_str(&t)); let _ = std::fs::remove_file(f); }
    }
    j.push_str(&format!("],\"violation\":{}}}\n", violation));
    if std::fs::write(&opt.out, j).is_err() { return 3; }
    if g.harness_errors.load(Relaxed) + bad > 0 && low == u64::MAX { return 3; }
    if low != u64::MAX { 1 } else { 0 }
}

/// One processor per worker: threads of a run take turns anyway.
fn pin(wk: usize) {
    unsafe {
        let mut mask = [0u64; 16];
        let n = crate::kernel::sched_getaffinity(0, 128, mask.as_mut_ptr());
        if n < 0 { return; }
        let cpus: Vec<usize> = (0..1024).filter(|&i| mask[i / 64] >> (i % 64) & 1 == 1).collect();
        if cpus.is_empty() { return; }
        let c = cpus[wk % cpus.len()];
        let mut m = [0u64; 16];
        m[c / 64] = 1 << (c % 64);
        sys::sched_setaffinity(0, 128, m.as_ptr());
    }
}

pub fn replay(path: &str, tracing: bool) -> i32 {
    kernel::map_memory();
    pin(0);
    let Some(plan) = std::fs::read_to_string(path).ok().and_then(|t| Plan::parse(&t)) else { eprintln!("cannot read {}", path); return 3 };
    let s: &'static mut RunShm = shm::map();
    let r = run_plan(&plan, s, tracing);
    if tracing { print!("{}", r.trace); }
    match r.end {
        End::Fine => { println!("no violation"); 0 }
        End::Failed(f) => { println!("{} {}: {}", plan.property, f.class, f.detail); 1 }
        End::Harness(m) => { eprintln!("harness: {}", m); 3 }
    }
}

/// Every run twice from its seed and once from its recorded decisions: all
/// three must leave the same event log.
pub fn determinism(property: &str, seed: u64, first: u64, runs: u64) -> i32 {
    kernel::map_memory();
    let s: &'static mut RunShm = shm::map();
    let mut h = 0u64;
    let mut bad = 0;
    for run in first..first + runs {
        let plan = gen::plan(property, seed, run);
        let a = run_plan(&plan, reborrow(s), true);
        let b = run_plan(&plan, reborrow(s), true);
        let c = run_plan(&a.plan, reborrow(s), true);
        let back = Plan::parse(&a.plan.text());
        let name = |e: &End| match e { End::Fine => "fine".to_string(), End::Failed(f) => format!("{} {}", f.class, f.detail), End::Harness(m) => format!("harness {}", m) };
        let strip = |p: &Plan| { let mut p = p.clone(); for x in p.phases.iter_mut() { x.policy = Default::default(); } p };
        if a.trace != b.trace || a.hash != b.hash || a.count != b.count || name(&a.end) != name(&b.end) { println!("run {} differs from itself", run); bad += 1; }
        if a.trace != c.trace || a.hash != c.hash || name(&a.end) != name(&c.end) { println!("run {} differs when replayed", run); bad += 1;
            for (x, y) in a.trace.lines().zip(c.trace.lines()) { if x != y { println!("  {}\n  {}", x, y); break; } } }
        if back != Some(strip(&a.plan)) { println!("run {} is not written faithfully", run); bad += 1; }
        for b in a.trace.bytes() { h = mix(h ^ b as u64); }
        h = mix(h ^ a.hash);
    }
    println!("{} seed {} runs {}..{} log {:016x}", property, seed, first, first + runs, h);
    if bad > 0 { 1 } else { 0 }
}

