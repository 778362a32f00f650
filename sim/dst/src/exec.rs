//! Runs a plan against the real library under the kernel, and judges every
//! answer by the reference model.

use crate::kernel::{self, count, k, message, op_begin, op_end, op_enter, op_leave, quiet, t, trace, violation, Setup};
use crate::nat::Nat;
use crate::plan::{Kind, Op, Plan, POOL};
use crate::shm::{File, RunShm, Slot, C, FILE, OK, SLOTS};
use crate::sinks::Sink;
use std::panic::{catch_unwind, AssertUnwindSafe};
use subject::{Base, Bin, Num, Refused, Spec, Ty, TYPES};

pub const REGS: usize = 8;
pub const MAILS: usize = 4;

pub struct Val {
    pub num: Num,
    pub nat: Nat,
    pub dig: Vec<u64>,
    /// nobody promised anything about it (see `refused in place`)
    pub ty: Ty,
}

type Regs = Vec<Option<Val>>;

struct World {
    plan: Option<Plan>,
    phase: usize,
    round: u32,
    pool: Vec<Val>,
    mail: Vec<Option<Val>>,
    shm: *mut RunShm,
    /// files being written
    writing: u32,
    /// memory held after each repetition: bytes, blocks, and digits of the numbers that live on
    held: Vec<(u64, u64, u64)>,
}
static mut W: World = World { plan: None, phase: 0, round: 0, pool: Vec::new(), mail: Vec::new(), shm: std::ptr::null_mut(), writing: 0, held: Vec::new() };
#[allow(static_mut_refs)]
fn w() -> &'static mut World { unsafe { &mut W } }

pub fn ty_of(i: u8) -> Ty { TYPES[i as usize % 8] }
pub fn ty_index(ty: Ty) -> u8 { TYPES.iter().position(|&x| x == ty).unwrap() as u8 }
pub fn bin_of(i: u8) -> Bin { [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div, Bin::Rem][i as usize % 5] }
pub fn spec_of(sub: u8, width: u64) -> Spec {
    Spec { base: [Base::Dec, Base::Lower, Base::Upper, Base::Debug][(sub >> 4) as usize % 4], style: (sub & 15) % subject::STYLES, width: width as usize % 4096 }
}

fn dump(d: &[u64]) -> String {
    let mut s = format!("{} digits", d.len());
    s.push_str(" [");
    for (i, x) in d.iter().enumerate().take(12) { if i > 0 { s.push(' '); } s.push_str(&format!("{:x}", x)); }
    if d.len() > 12 { s.push_str(" ..."); }
    s.push(']');
    s
}
fn short(n: &Nat) -> String {
    let h = n.to_hex();
    if h.len() <= 48 { format!("0x{}", h) } else { format!("0x{}...{} ({} bits)", &h[..24], &h[h.len() - 16..], n.bits()) }
}

/// Compares a number with what it must be.
fn judge(n: &Num, ty: Ty, want: &[u64], nat: &Nat) -> Result<(), (&'static str, String)> {
    if subject::ty(n) != ty { return Err(("wrong-type", String::new())); }
    let mut d = Vec::new();
    subject::digits(n, &mut d);
    if d != want {
        let mut e = d.clone();
        while e.last() == Some(&0) { e.pop(); }
        let class = if e == want { "not-canonical" } else { "wrong-value" };
        return Err((class, format!("got {}, must be {} = {}", dump(&d), dump(want), short(nat))));
    }
    if subject::nr_digits(n) != want.len() || subject::is_zero(n) != want.is_empty() {
        return Err(("wrong-value", format!("length or zero test disagrees with the digits of {}", short(nat))));
    }
    Ok(())
}

fn make_val(num: Num, ty: Ty, nat: Nat) -> Val {
    let dig = nat.to_digits(ty.bits(), ty.dec());
    Val { num, nat, dig, ty }
}

enum Out<R> { Done(R), Panic(String) }

struct Ctx {
    regs: Regs,
    tid: usize,
    /// counts repetitions, on new threads and on this one
    round: u32,
    /// calls into the library made by the current operation
    calls: std::cell::Cell<u32>,
}

/// Names one call of one operation of one round.
pub fn key(round: u32, id: u32, call: u32) -> u32 { (round << 23) | ((id & 0x7_ffff) << 4) | call.min(15) }

#[derive(Clone, Copy)]
struct Usage { allocs: u64, bytes: u64 }

/// Requests made from within another: by the destination of a write, by a
/// destructor while a panic unwinds, by the panic hook.
pub const IN_WRITE: u8 = 1;
pub const IN_PANIC: u8 = 2;
pub const IN_HOOK: u8 = 3;
struct Nest { place: u8, kind: u8, skip: u64, v: &'static Val }
#[thread_local]
static mut NEST: Option<Nest> = None;

/// An occasion for a request within a request.
#[allow(static_mut_refs)]
pub fn reenter(place: u8) {
    let n = unsafe { &mut NEST };
    match n {
        Some(x) if x.place == place && x.skip == 0 => {}
        Some(x) if x.place == place => { x.skip -= 1; return }
        _ => return,
    }
    let n = n.take().unwrap();
    count(match place { IN_WRITE => C::probe_request_within_write, IN_PANIC => C::probe_request_within_panic, _ => C::probe_request_in_panic_hook }, 1);
    kernel::fold_hash(0x9e57 ^ (place as u64) << 8 ^ (n.kind as u64) << 16);
    let was = std::mem::replace(&mut t().suspended, true);
    let r = catch_unwind(AssertUnwindSafe(|| request(n.kind, n.v)));
    t().suspended = was;
    let at = ["", "while text is written", "while a panic unwinds", "from the panic hook"][place as usize % 4];
    kernel::outside(|| match r {
        Ok(Ok(())) => {}
        Ok(Err((c, m))) => violation(c, format!("a request made {}: {}", at, m)),
        Err(_) => violation("panicked", format!("a request made {} ({} of {} {:?}): {}", at, request_name(n.kind), short(&n.v.nat), n.v.ty, message())),
    });
}

fn request_name(kind: u8) -> &'static str { ["text", "square", "sum", "quotient and remainder by a word", "parsing", "conversion", "hexadecimal text", "division by zero"][kind as usize % 8] }

/// A request on one number, judged.
fn request(kind: u8, v: &Val) -> Result<(), (&'static str, String)> {
    use kernel::outside;
    let nat = |n: Num, ty: Ty, want: Nat| {
        let r = outside(|| judge(&n, ty, &want.to_digits(ty.bits(), ty.dec()), &want));
        drop(n);
        r.map_err(|(c, m)| (c, format!("{} of {} ({:?}): {}", request_name(kind), short(&v.nat), v.ty, m)))
    };
    match kind % 8 {
        0 | 6 => {
            let hex = kind % 8 == 6 && !v.ty.dec();
            let mut s = String::new();
            let ok = subject::write_text(&v.num, Spec { base: if hex { Base::Upper } else { Base::Dec }, style: 0, width: 0 }, &mut s).is_ok();
            let r = outside(|| {
                let want = if hex { v.nat.to_hex().to_uppercase() } else { v.nat.to_dec() };
                if ok && s == want { Ok(()) } else { Err(("wrong-text", format!("wrote {:?}, must be {:?}", clip(&s), clip(&want)))) }
            });
            drop(s);
            r
        }
        1 => { let n = subject::square(&v.num); let want = outside(|| v.nat.mul(&v.nat)); nat(n, v.ty, want) }
        2 => { let n = subject::bin_ref_ref(Bin::Add, &v.num, &v.num); let want = outside(|| v.nat.shl(1)); nat(n, v.ty, want) }
        3 => {
            let (q, r) = outside(|| v.nat.divrem(&Nat::from_u64(97)).unwrap());
            let n = subject::word_ref(Bin::Div, &v.num, 97);
            nat(n, v.ty, q)?;
            let n = subject::word_ref(Bin::Rem, &v.num, 97);
            nat(n, v.ty, r)
        }
        4 => {
            let (text, want) = outside(|| (v.nat.to_dec(), v.nat.clone()));
            let r = subject::parse(v.ty, &text);
            outside(|| drop(text));
            match r {
                Ok(n) => nat(n, v.ty, want),
                Err(e) => Err(("refused-answerable", format!("text of {} refused as {:?}", short(&v.nat), e.0))),
            }
        }
        5 => {
            let n = subject::to_decimal(&v.num).unwrap_or_else(|| subject::clone(&v.num));
            let want = outside(|| v.nat.clone());
            nat(n, v.ty.to_dec(), want)
        }
        _ => {
            let mut n = subject::clone(&v.num);
            let z = subject::zero(v.ty);
            let r = subject::div_assign_big(&mut n, &z);
            drop(z);
            match r {
                Err(e) if e.0 == "divzero" => { let want = outside(|| v.nat.clone()); nat(n, v.ty, want) }
                Err(e) => Err(("wrong-refusal", format!("division by zero refused as {:?}", e.0))),
                Ok(_) => Err(("answered-unanswerable", "division by zero".into())),
            }
        }
    }
}

/// Numbers a thread keeps to its end: the thread-local's destructor makes a
/// request on each.
struct Keep { tid: usize, vals: Vec<(Op, u32, Val)> }
thread_local! { static KEEP: std::cell::RefCell<Keep> = const { std::cell::RefCell::new(Keep { tid: 0, vals: Vec::new() }) }; }
impl Drop for Keep {
    fn drop(&mut self) {
        for (op, round, v) in std::mem::take(&mut self.vals) {
            let c = Ctx { regs: Vec::new(), tid: self.tid, round, calls: std::cell::Cell::new(10) };
            trace(|| format!("t{} ends: {} id{} {}", self.tid, describe(&op), op.id, request_name(op.sub)));
            count(C::probe_request_at_thread_end, 1);
            if let Err((_, m)) = judge(&v.num, v.ty, &v.dig, &v.nat) { violation("other-number-changed", format!("a number kept by a thread changed: {}", m)); }
            let b = v.nat.bits();
            match c.run(&op, PREP, budget(v.ty, &[b, b]), || request(op.sub, &v)) {
                Out::Done(Ok(())) => {}
                Out::Done(Err((c, m))) => violation(c, format!("a request made as a thread ends: {}", m)),
                Out::Panic(m) => violation("panicked", format!("a request made as a thread ends ({} of {} {:?}): {}", request_name(op.sub), short(&v.nat), v.ty, m)),
            }
            quiet(|| drop(v.num));
        }
    }
}

impl Ctx {
    #[allow(static_mut_refs)]
    fn run<R>(&self, op: &Op, step: u32, budget: u64, f: impl FnOnce() -> R) -> Out<R> {
        let mut budget = budget;
        if step == MAIN && op.f.nest != 0 {
            if let Some(v) = self.raw(op.f.nest_reg) {
                budget += self::budget(v.ty, &[v.nat.bits(), v.nat.bits(), v.nat.bits()]);
                unsafe { NEST = Some(Nest { place: op.f.nest, kind: op.f.nest_kind, skip: op.f.nest_at, v }); }
            }
        }
        let r = self.run_plain(op, step, budget, f);
        if step == MAIN && op.f.nest != 0 { unsafe { NEST = None; } }
        r
    }
    fn run_plain<R>(&self, op: &Op, step: u32, budget: u64, f: impl FnOnce() -> R) -> Out<R> {
        let c = self.calls.replace(self.calls.get() + 1);
        op_begin(key(self.round, op.id, c), budget, if step == MAIN && self.round == 0 { op.id } else { u32::MAX });
        if step == MAIN { t().af_kind = op.f.alloc; t().af_at = op.f.at; }
        op_enter();
        let r = catch_unwind(AssertUnwindSafe(f));
        op_leave();
        op_end();
        match r {
            Ok(r) => Out::Done(r),
            Err(e) => {
                drop(e);
                Out::Panic(message())
            }
        }
    }
    /// Harness housekeeping with the library: no faults, cannot fail.
    fn prep<R>(&self, op: &Op, step: u32, what: &str, f: impl FnOnce() -> R) -> R {
        match self.run(op, step, 50_000_000, f) {
            Out::Done(r) => r,
            Out::Panic(_) if t().fired => kernel::abandon(),
            Out::Panic(m) => violation("panicked", format!("{} for {}: {}", what, describe(op), m)),
        }
    }
    fn val(&self, r: u8) -> Option<&Val> {
        if r >= POOL { w().pool.get((r - POOL) as usize) } else { self.regs.get(r as usize)?.as_ref() }
    }
    fn check_all(&self, op: Option<&Op>, after: &str) {
        for (i, v) in self.regs.iter().enumerate() {
            if let Some(v) = v {
                if let Err((_, m)) = judge(&v.num, v.ty, &v.dig, &v.nat) {
                    violation("other-number-changed", format!("register {} changed {}{}: {}", i, after, op.map(describe).unwrap_or_default(), m));
                }
            }
        }
        check_pool(after);
    }
}

fn check_pool(after: &str) {
    for (i, v) in w().pool.iter().enumerate() {
        if let Err((_, m)) = judge(&v.num, v.ty, &v.dig, &v.nat) {
            violation("other-number-changed", format!("shared number {} changed {}: {}", i, after, m));
        }
    }
}

const REHEARSE: u32 = 0;
const MAIN: u32 = 1;
const RETRY: u32 = 2;
const PREP: u32 = 3;

fn describe(op: &Op) -> String {
    let mut s = format!("{}", op.k.name());
    match op.k {
        Kind::Bin => s.push_str(&format!(" {:?} mode {}", bin_of(op.sub), op.mode)),
        Kind::Word | Kind::Digit => s.push_str(&format!(" {:?} mode {} by {:#x}", bin_of(op.sub), op.mode, op.n)),
        Kind::Shift => s.push_str(&format!(" {} mode {} by {}", if op.sub == 1 { "left" } else { "right" }, op.mode, op.n)),
        Kind::Pow => s.push_str(&format!(" mode {} exponent {}", op.mode, op.n)),
        Kind::Parse => s.push_str(&format!(" {:?} {:?}", ty_of(op.ty), String::from_utf8_lossy(&op.text))),
        Kind::Set => s.push_str(&format!(" {:?} how {} {}", ty_of(op.ty), op.mode, short(&op.val))),
        Kind::Write => s.push_str(&format!(" {:?}", spec_of(op.sub, op.n))),
        _ => {}
    }
    s
}

/// What the reference model says an operation yields.
enum Expect { Val(Nat, Ty, Option<Nat>), Refuse(&'static str) }

fn arith(b: Bin, x: &Nat, y: &Nat, ty: Ty) -> Expect {
    match b {
        Bin::Add => Expect::Val(x.add(y), ty, None),
        Bin::Sub => match x.sub(y) { Some(d) => Expect::Val(d, ty, None), None => Expect::Refuse("underflow") },
        Bin::Mul => Expect::Val(x.mul(y), ty, None),
        Bin::Div => match x.divrem(y) { Some((q, _)) => Expect::Val(q, ty, None), None => Expect::Refuse("divzero") },
        Bin::Rem => match x.divrem(y) { Some((_, r)) => Expect::Val(r, ty, None), None => Expect::Refuse("divzero") },
    }
}

fn digits_of(bits: usize, ty: Ty) -> u64 { (bits / (ty.bits() as usize) + 2) as u64 * if ty.dec() { 2 } else { 1 } }

/// Steps an operation may take: more than fifty times what the library needs
/// (the evidence reports the closest any operation came).
fn budget(ty: Ty, bits: &[usize]) -> u64 {
    let n = bits.iter().map(|&b| digits_of(b, ty)).sum::<u64>();
    1_000_000 + 2_000 * n + 200 * n * n
}

fn apply(b: Bin, mode: u8, x: &Num, y: &Num, ox: Option<Num>, oy: Option<Num>) -> Num {
    match mode {
        0 => subject::bin_ref_ref(b, x, y),
        1 => subject::bin_ref_own(b, x, oy.unwrap()),
        2 => subject::bin_own_ref(b, ox.unwrap(), y),
        _ => subject::bin_own_own(b, ox.unwrap(), oy.unwrap()),
    }
}

impl Ctx {
    /// The operand by reference, usable while registers are written: numbers
    /// live at fixed places until the operation is over.
    fn raw(&self, r: u8) -> Option<&'static Val> { self.val(r).map(|v| unsafe { &*(v as *const Val) }) }

    fn store(&mut self, dst: u8, v: Val) {
        let d = dst as usize % REGS;
        let old = self.regs[d].replace(v);
        self.retire(old);
    }
    fn retire(&self, v: Option<Val>) {
        if let Some(v) = v {
            // dropping is library code too
            quiet(|| drop(v.num));
        }
    }

    /// An operation that yields a new number. `f` must be callable again: it
    /// gets fresh owned operands each time.
    #[allow(clippy::too_many_arguments)]
    fn value_op(&mut self, op: &Op, ty: Ty, sizes: &[usize], expect: Expect, own: [Option<&'static Val>; 2],
                f: &dyn Fn(Option<Num>, Option<Num>) -> Result<Num, Refused>) {
        let lim = budget(ty, sizes);
        let mut op2;
        let mut op = op;
        let mut usage = Usage { allocs: 0, bytes: 0 };
        let mut attempt = if op.f.rehearsed && op.f.alloc != 0 { REHEARSE } else { MAIN };
        loop {
            let oa = own[0].map(|v| self.prep(op, PREP, "clone", || subject::clone(&v.num)));
            let ob = own[1].map(|v| self.prep(op, PREP, "clone", || subject::clone(&v.num)));
            let out = self.run(op, attempt, lim, || f(oa, ob));
            let fired = t().fired;
            if attempt == REHEARSE {
                usage.allocs = t().allocs;
                usage.bytes = t().alloc_sum;
            }
            let failed = match out {
                Out::Done(Ok(n)) => match &expect {
                    Expect::Val(nat, rty, _) => {
                        let v = make_val(n, *rty, nat.clone());
                        if let Err((c, m)) = judge(&v.num, v.ty, &v.dig, &v.nat) {
                            violation(c, format!("{} on {:?}{}: {}", describe(op), ty, if fired { " (after a refused allocation)" } else { "" }, m));
                        }
                        if attempt == REHEARSE { self.retire(Some(v)); } else { self.store(op.dst, v); }
                        count(C::ops_answered, 1);
                        false
                    }
                    Expect::Refuse(why) => {
                        let mut d = vec![];
                        subject::digits(&n, &mut d);
                        violation("answered-unanswerable", format!("{} on {:?} must be refused ({}), but gave {}", describe(op), ty, why, dump(&d)))
                    }
                },
                Out::Done(Err(e)) => self.check_refusal(op, ty, &expect, Some(e.0), "", fired),
                Out::Panic(m) => {
                    if op.k == Kind::Parse && !fired { violation("panicked", format!("{}: {}", describe(op), m)); }
                    self.check_refusal(op, ty, &expect, None, &m, fired)
                }
            };
            if failed { self.check_all(Some(op), "by a failed "); }
            if attempt == REHEARSE {
                op2 = op.clone();
                op2.f.at = place(op.f.alloc, op.f.at, usage);
                op = unsafe { &*(&op2 as *const Op) };
                attempt = MAIN;
                continue;
            }
            if attempt == MAIN && failed && fired {
                // faults have stopped: the same request must now be served
                count(C::probe_retry_after_fault, 1);
                attempt = RETRY;
                continue;
            }
            break;
        }
    }

    /// The operation did not answer: was that right? Returns true.
    fn check_refusal(&self, op: &Op, ty: Ty, expect: &Expect, err: Option<&'static str>, msg: &str, fired: bool) -> bool {
        // a shortage of memory may make a request fail, but not for a reason
        // that is not its own: "this text is no number" is an answer
        if let Some(e) = err {
            let due = match expect { Expect::Refuse(why) => *why, Expect::Val(..) => "" };
            if fired && e != due && ["invalid", "underflow", "divzero"].contains(&e) {
                violation("wrong-refusal", format!("{} on {:?}, after a refused allocation: refused as {:?}, which it is not", describe(op), ty, e));
            }
        }
        match expect {
            Expect::Refuse(why) => {
                if let Some(e) = err { if e != *why && !fired { violation("wrong-refusal", format!("{} on {:?}: refused as {:?}, must be {:?}", describe(op), ty, e, why)); } }
                if !fired { count(C::ops_refused_as_due, 1); count(C::fault_refusal, 1); unsafe { (*w().shm).nontrivial = 1; } }
            }
            Expect::Val(..) => {
                if !fired {
                    violation(if err.is_some() { "refused-answerable" } else { "panicked" },
                              format!("{} on {:?}: {} {}", describe(op), ty, err.unwrap_or("panic:"), msg));
                }
                count(C::ops_failed_by_fault, 1);
            }
        }
        true
    }

    /// An operation on a register in place. `f` gets the target.
    #[allow(clippy::too_many_arguments)]
    fn place_op(&mut self, op: &Op, r: u8, sizes: &[usize], expect: Expect, own_b: Option<&'static Val>, errs: bool,
                f: &dyn Fn(&mut Num, Option<Num>) -> Result<Option<Num>, Refused>) {
        let r = r as usize % REGS;
        let Some(mut tgt) = self.regs[r].take() else { count(C::ops_skipped, 1); return };
        let ty = tgt.ty;
        let lim = budget(ty, sizes);
        let must_refuse = matches!(expect, Expect::Refuse(_));
        let mut op2;
        let mut op = op;
        let mut usage = Usage { allocs: 0, bytes: 0 };
        let mut attempt = if op.f.rehearsed && op.f.alloc != 0 { REHEARSE } else { MAIN };
        loop {
            let keep = if must_refuse || (attempt != RETRY && op.f.alloc != 0) {
                Some(self.prep(op, PREP, "clone", || subject::clone(&tgt.num)))
            } else { None };
            let ob = own_b.map(|v| self.prep(op, PREP, "clone", || subject::clone(&v.num)));
            let num = &mut tgt.num;
            let out = self.run(op, attempt, lim, || f(num, ob));
            let fired = t().fired;
            if attempt == REHEARSE { usage = Usage { allocs: t().allocs, bytes: t().alloc_sum }; }
            let mut failed = false;
            let mut told = false;
            match out {
                Out::Done(Ok(extra)) => match &expect {
                    Expect::Val(nat, rty, rem) => {
                        let dig = nat.to_digits(rty.bits(), rty.dec());
                        if let Err((c, m)) = judge(&tgt.num, *rty, &dig, nat) {
                            violation(c, format!("{} on {:?}{}: {}", describe(op), ty, if fired { " (after a refused allocation)" } else { "" }, m));
                        }
                        if attempt != REHEARSE { tgt.nat = nat.clone(); tgt.dig = dig; }
                        if let (Some(x), Some(rem)) = (extra, rem) {
                            let v = make_val(x, ty, rem.clone());
                            if let Err((c, m)) = judge(&v.num, v.ty, &v.dig, &v.nat) { violation(c, format!("remainder of {} on {:?}: {}", describe(op), ty, m)); }
                            if attempt != REHEARSE && op.dst as usize % REGS != r { self.store(op.dst, v); } else { self.retire(Some(v)); }
                        }
                        count(C::ops_answered, 1);
                    }
                    Expect::Refuse(why) => {
                        let mut d = vec![];
                        subject::digits(&tgt.num, &mut d);
                        violation("answered-unanswerable", format!("{} on {:?} must be refused ({}), but left {}", describe(op), ty, why, dump(&d)))
                    }
                },
                Out::Done(Err(e)) => {
                    told = matches!(&expect, Expect::Refuse(why) if *why == e.0);
                    failed = self.check_refusal(op, ty, &expect, Some(e.0), "", fired)
                }
                Out::Panic(m) => {
                    if errs && must_refuse && !fired { violation("panicked", format!("{} on {:?} must return an error: {}", describe(op), ty, m)); }
                    failed = self.check_refusal(op, ty, &expect, None, &m, fired)
                }
            }
            if failed {
                if errs && must_refuse && (told || !fired) {
                    if let Err((_, m)) = judge(&tgt.num, tgt.ty, &tgt.dig, &tgt.nat) {
                        violation("receiver-changed", format!("{} on {:?} was refused but changed its receiver: {}", describe(op), ty, m));
                    }
                }
                self.check_all(Some(op), "by a failed ");
                // an interrupted or refused in-place operation leaves its
                // target unspecified; it must still accept a new value
                if let Some(kept) = keep {
                    let num = &mut tgt.num;
                    if op.id & 1 == 0 {
                        self.prep(op, PREP, "assignment", || { subject::clone_from(num, &kept) });
                        quiet(|| drop(kept));
                    } else {
                        self.prep(op, PREP, "assignment", || { *num = kept; });
                    }
                    if let Err((c, m)) = judge(&tgt.num, tgt.ty, &tgt.dig, &tgt.nat) { violation(c, format!("assignment after a failed {}: {}", describe(op), m)); }
                } else if fired {
                    // the simulated machine ran out of memory for good: give up on this number
                    self.retire(Some(tgt));
                    return;
                }
            } else if attempt == REHEARSE {
                // put the old value back for the real attempt
                let kept = keep.unwrap();
                let num = &mut tgt.num;
                self.prep(op, PREP, "assignment", || { *num = kept; });
            } else if let Some(kept) = keep {
                quiet(|| drop(kept));
            }
            if attempt == REHEARSE {
                op2 = op.clone();
                op2.f.at = place(op.f.alloc, op.f.at, usage);
                op = unsafe { &*(&op2 as *const Op) };
                attempt = MAIN;
                continue;
            }
            if attempt == MAIN && failed && fired {
                count(C::probe_retry_after_fault, 1);
                attempt = RETRY;
                continue;
            }
            break;
        }
        self.regs[r] = Some(tgt);
    }

    fn exec(&mut self, op: &Op) {
        count(C::ops, 1);
        let skip = || count(C::ops_skipped, 1);
        match op.k {
            Kind::Set => {
                let ty = ty_of(op.ty);
                let nat = op.val.clone();
                let how = op.mode % 4;
                let sizes = [nat.bits() + op.n.min(200_000) as usize * ty.bits() as usize];
                let (mut dig, mut text, mut prim) = (vec![], String::new(), 0);
                match how {
                    0 => { dig = nat.to_digits(ty.bits(), ty.dec()); for _ in 0..op.n.min(200_000) { dig.push(0); } }
                    1 => text = nat.to_dec(),
                    2 => text = format!("0x{}", nat.to_hex()),
                    _ => {
                        prim = nat.0.first().copied().unwrap_or(0);
                        if ty.bits() < 64 { prim &= (1 << ty.bits()) - 1; }
                    }
                }
                let want = if how == 3 { Nat::from_u64(prim) } else { nat };
                let (dig, text) = (&dig, &text);
                self.value_op(op, ty, &sizes, Expect::Val(want, ty, None), [None, None], &|_, _| match how {
                    0 => Ok(subject::from_digits(ty, dig)),
                    1 | 2 => subject::parse(ty, text),
                    _ => Ok(subject::from_prim(ty, prim)),
                });
            }
            Kind::Parse => {
                let Ok(s) = std::str::from_utf8(&op.text) else { return skip() };
                let ty = ty_of(op.ty);
                let expect = match Nat::parse(s) {
                    Some(n) => Expect::Val(n, ty, None),
                    None => { count(C::fault_bad_text, 1); Expect::Refuse("invalid") }
                };
                self.value_op(op, ty, &[op.text.len() * 4], expect, [None, None], &|_, _| subject::parse(ty, s));
            }
            Kind::Bin => {
                let (Some(a), Some(b)) = (self.raw(op.a), self.raw(op.b)) else { return skip() };
                if a.ty != b.ty { return skip(); }
                let f = bin_of(op.sub);
                if f == Bin::Mul && a.nat.bits() + b.nat.bits() > MAX_BITS { return skip(); }
                let e = arith(f, &a.nat, &b.nat, a.ty);
                let sizes = [a.nat.bits(), b.nat.bits()];
                if op.mode >= 4 {
                    if op.a >= POOL { return skip(); }
                    // `x += x` cannot be written: the other operand is a copy
                    let same = op.a as usize % REGS == op.b as usize % REGS && op.b < POOL;
                    if op.mode == 4 && !same {
                        self.place_op(op, op.a, &sizes, e, None, false, &|x, _| { subject::bin_assign_ref(f, x, &b.num); Ok(None) });
                    } else if same {
                        let copy = self.prep(op, PREP, "clone", || subject::clone(&a.num));
                        let v = Val { num: copy, nat: a.nat.clone(), dig: a.dig.clone(), ty: a.ty };
                        let vr: &'static Val = unsafe { &*(&v as *const Val) };
                        if op.mode == 4 {
                            self.place_op(op, op.a, &sizes, e, None, false, &|x, _| { subject::bin_assign_ref(f, x, &vr.num); Ok(None) });
                        } else {
                            self.place_op(op, op.a, &sizes, e, Some(vr), false, &|x, y| { subject::bin_assign_own(f, x, y.unwrap()); Ok(None) });
                        }
                        if let Err((_, m)) = judge(&v.num, v.ty, &v.dig, &v.nat) { violation("operand-changed", format!("{}: {}", describe(op), m)); }
                        self.retire(Some(v));
                        return;
                    } else {
                        self.place_op(op, op.a, &sizes, e, Some(b), false, &|x, y| { subject::bin_assign_own(f, x, y.unwrap()); Ok(None) });
                    }
                    self.operand_ok(op, b, op.b);
                } else if op.m == 1 && op.mode >= 2 && op.a < POOL && op.f.alloc == 0 && op.a as usize % REGS != op.b as usize % REGS {
                    // the register itself is given away
                    let Expect::Val(..) = e else { return skip() };
                    let tgt = self.regs[op.a as usize % REGS].take().unwrap();
                    let slot = std::cell::Cell::new(Some(tgt.num));
                    self.value_op(op, tgt.ty, &sizes, e, [None, if op.mode == 3 { Some(b) } else { None }], &|_, y| {
                        let x = slot.take().unwrap();
                        Ok(if op.mode == 2 { subject::bin_own_ref(f, x, &b.num) } else { subject::bin_own_own(f, x, y.unwrap()) })
                    });
                    self.operand_ok(op, b, op.b);
                } else {
                    let own = [if op.mode >= 2 { Some(a) } else { None }, if op.mode & 1 == 1 { Some(b) } else { None }];
                    // the destination may be one of the operands: it is replaced last
                    self.value_op(op, a.ty, &sizes, e, own, &|x, y| Ok(apply(f, op.mode, &a.num, &b.num, x, y)));
                    self.operand_ok(op, a, op.a);
                    self.operand_ok(op, b, op.b);
                }
            }
            Kind::Word | Kind::Digit => {
                let Some(a) = self.raw(op.a) else { return skip() };
                let ty = a.ty;
                let f = bin_of(op.sub);
                let mut v = if ty.bits() < 64 { op.n & ((1 << ty.bits()) - 1) } else { op.n };
                let word = op.k == Kind::Word;
                if !word && ty.dec() { v %= crate::nat::DEC_RADIX[crate::nat::width_index(ty.bits())]; }
                let y = Nat::from_u64(v);
                if f == Bin::Mul && a.nat.bits() + 64 > 8 * MAX_BITS { return skip(); }
                let e = arith(f, &a.nat, &y, ty);
                let sizes = [a.nat.bits(), 64];
                if op.mode >= 4 {
                    if op.a >= POOL { return skip(); }
                    self.place_op(op, op.a, &sizes, e, None, false, &|x, _| { if word { subject::word_assign(f, x, v) } else { subject::digit_assign(f, x, v) } Ok(None) });
                } else {
                    let own = op.mode & 1 == 1;
                    self.value_op(op, ty, &sizes, e, [own.then_some(a), None], &|x, _| Ok(match (word, x) {
                        (true, Some(x)) => subject::word_own(f, x, v),
                        (true, None) => subject::word_ref(f, &a.num, v),
                        (false, Some(x)) => subject::digit_own(f, x, v),
                        (false, None) => subject::digit_ref(f, &a.num, v),
                    }));
                    self.operand_ok(op, a, op.a);
                }
            }
            Kind::Shift => {
                let Some(a) = self.raw(op.a) else { return skip() };
                let left = op.sub == 1;
                let n = op.n as usize;
                if left && !a.nat.is_zero() && (n > 150_000 || n + a.nat.bits() > 8 * MAX_BITS) { return skip(); }
                let want = if left { a.nat.shl(n) } else { a.nat.shr(n) };
                let sizes = [a.nat.bits(), if left && !a.nat.is_zero() { n } else { 0 }];
                let e = Expect::Val(want, a.ty, None);
                if op.mode >= 4 {
                    if op.a >= POOL { return skip(); }
                    self.place_op(op, op.a, &sizes, e, None, false, &|x, _| { subject::shift_assign(left, x, n); Ok(None) });
                } else {
                    let own = op.mode & 1 == 1;
                    self.value_op(op, a.ty, &sizes, e, [own.then_some(a), None], &|x, _| Ok(match x {
                        Some(x) => subject::shift_own(left, x, n),
                        None => subject::shift_ref(left, &a.num, n),
                    }));
                    self.operand_ok(op, a, op.a);
                }
            }
            Kind::Pow => {
                let Some(a) = self.raw(op.a) else { return skip() };
                let n = op.n as usize;
                if a.nat.bits() > 1 && n.saturating_mul(a.nat.bits()) > MAX_BITS { return skip(); }
                let e = Expect::Val(a.nat.pow(n), a.ty, None);
                let own = op.mode & 1 == 1;
                let sz = if a.nat.bits() <= 1 { 1 } else { n.saturating_mul(a.nat.bits()).min(MAX_BITS) };
                self.value_op(op, a.ty, &[sz, 64], e, [own.then_some(a), None], &|x, _| Ok(match x {
                    Some(x) => subject::pow_own(x, n),
                    None => subject::pow_ref(&a.num, n),
                }));
                self.operand_ok(op, a, op.a);
            }
            Kind::Square => {
                let Some(a) = self.raw(op.a) else { return skip() };
                if 2 * a.nat.bits() > MAX_BITS { return skip(); }
                let e = Expect::Val(a.nat.mul(&a.nat), a.ty, None);
                self.value_op(op, a.ty, &[a.nat.bits(), a.nat.bits()], e, [None, None], &|_, _| Ok(subject::square(&a.num)));
                self.operand_ok(op, a, op.a);
            }
            Kind::DivAssign | Kind::RemAssign => {
                let (Some(a), Some(b)) = (self.raw(op.a), self.raw(op.b)) else { return skip() };
                if a.ty != b.ty || op.a >= POOL || (op.b < POOL && op.a as usize % REGS == op.b as usize % REGS) { return skip(); }
                let div = op.k == Kind::DivAssign;
                let e = match a.nat.divrem(&b.nat) {
                    None => Expect::Refuse("divzero"),
                    Some((q, r)) => if div { Expect::Val(q, a.ty, Some(r)) } else { Expect::Val(r, a.ty, None) },
                };
                let sizes = [a.nat.bits(), b.nat.bits()];
                let clash = op.b < POOL && op.dst as usize % REGS == op.b as usize % REGS;
                let mut o = op.clone();
                if clash { o.dst = op.a; }
                self.place_op(&o, op.a, &sizes, e, None, true, &|x, _| {
                    if div { subject::div_assign_big(x, &b.num).map(Some) } else { subject::rem_assign_big(x, &b.num).map(|_| None) }
                });
                self.operand_ok(op, b, op.b);
            }
            Kind::Cmp => {
                let (Some(a), Some(b)) = (self.raw(op.a), self.raw(op.b)) else { return skip() };
                if a.ty != b.ty { return skip(); }
                let lim = budget(a.ty, &[a.nat.bits(), b.nat.bits()]);
                let r = self.run(op, MAIN, lim, || (subject::cmp(&a.num, &b.num), subject::partial_cmp(&a.num, &b.num), subject::relations(&a.num, &b.num)));
                let o = a.nat.cmp(&b.nat);
                let want = (o, Some(o), [o.is_eq(), o.is_ne(), o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()]);
                match r {
                    Out::Done(r) if r == want => count(C::ops_answered, 1),
                    Out::Done(r) => violation("wrong-value", format!("comparing {} and {} ({:?}) gave {:?}", short(&a.nat), short(&b.nat), a.ty, r)),
                    Out::Panic(m) => if !t().fired { violation("panicked", format!("comparison on {:?}: {}", a.ty, m)) },
                }
                self.operand_ok(op, a, op.a);
                self.operand_ok(op, b, op.b);
            }
            Kind::ToDec => {
                let Some(a) = self.raw(op.a) else { return skip() };
                if a.ty.dec() { return skip(); }
                self.value_op(op, a.ty, &[a.nat.bits(), a.nat.bits()], Expect::Val(a.nat.clone(), a.ty.to_dec(), None), [None, None],
                              &|_, _| Ok(subject::to_decimal(&a.num).unwrap()));
                self.operand_ok(op, a, op.a);
            }
            Kind::Clone => {
                let Some(a) = self.raw(op.a) else { return skip() };
                if self.dst_is(op, op.a) { return skip(); }
                self.value_op(op, a.ty, &[a.nat.bits()], Expect::Val(a.nat.clone(), a.ty, None), [None, None], &|_, _| Ok(subject::clone(&a.num)));
                self.operand_ok(op, a, op.a);
            }
            Kind::CloneFrom => {
                let (Some(a), Some(d)) = (self.raw(op.a), self.raw(op.dst % REGS as u8)) else { return skip() };
                if self.dst_is(op, op.a) || a.ty != d.ty { return skip(); }
                let mut o = op.clone();
                o.dst = op.dst % REGS as u8;
                self.place_op(&o, o.dst, &[a.nat.bits(), d.nat.bits()], Expect::Val(a.nat.clone(), a.ty, None), None, false,
                              &|x, _| { subject::clone_from(x, &a.num); Ok(None) });
                self.operand_ok(op, a, op.a);
            }
            Kind::Drop => {
                let v = self.regs[op.dst as usize % REGS].take();
                let Some(v) = v else { return skip() };
                let n = v.num;
                self.prep(op, MAIN, "drop", || subject::discard(n));
            }
            Kind::Send => {
                let Some(a) = self.raw(op.a) else { return skip() };
                let num = if op.mode == 1 && op.a < POOL {
                    self.regs[op.a as usize % REGS].take().unwrap()
                } else {
                    let n = self.prep(op, MAIN, "clone", || subject::clone(&a.num));
                    Val { num: n, nat: a.nat.clone(), dig: a.dig.clone(), ty: a.ty }
                };
                let old = w().mail[op.dst as usize % MAILS].replace(num);
                self.retire(old);
            }
            Kind::Recv => {
                let Some(v) = w().mail[op.a as usize % MAILS].take() else { return skip() };
                if let Err((_, m)) = judge(&v.num, v.ty, &v.dig, &v.nat) { violation("other-number-changed", format!("a number changed between threads: {}", m)); }
                count(C::probe_moved_between_threads, 1);
                self.store(op.dst, v);
            }
            Kind::Park => {
                let Some(a) = self.raw(op.a) else { return skip() };
                let num = self.prep(op, MAIN, "clone", || subject::clone(&a.num));
                let v = Val { num, nat: a.nat.clone(), dig: a.dig.clone(), ty: a.ty };
                let (tid, round) = (self.tid, self.round);
                let old = KEEP.with(|k| {
                    let mut k = k.borrow_mut();
                    k.tid = tid;
                    // one place per operation, however often it is repeated
                    match k.vals.iter_mut().find(|x| x.0.id == op.id) {
                        Some(x) => Some(std::mem::replace(&mut x.2, v)),
                        None => { k.vals.push((op.clone(), round, v)); None }
                    }
                });
                self.retire(old);
            }
            Kind::Unit => {
                let want = if op.mode & 1 == 0 { Nat::zero() } else { Nat::one() };
                if op.mode < 2 {
                    let ty = ty_of(op.ty);
                    self.value_op(op, ty, &[64], Expect::Val(want, ty, None), [None, None], &|_, _| Ok(if op.mode == 0 { subject::zero(ty) } else { subject::one(ty) }));
                } else if op.mode < 4 {
                    if op.a >= POOL { return skip(); }
                    let Some(a) = self.raw(op.a) else { return skip() };
                    self.place_op(op, op.a, &[a.nat.bits()], Expect::Val(want, a.ty, None), None, false, &|x, _| { if op.mode == 2 { subject::set_zero(x) } else { subject::set_one(x) } Ok(None) });
                } else {
                    let Some(a) = self.raw(op.a) else { return skip() };
                    let lim = budget(a.ty, &[a.nat.bits()]);
                    match self.run(op, MAIN, lim, || (subject::is_one(&a.num), subject::is_zero(&a.num))) {
                        Out::Done(r) if r == (a.nat.0 == [1], a.nat.is_zero()) => count(C::ops_answered, 1),
                        Out::Done(r) => violation("wrong-value", format!("asked whether {} ({:?}) is one and is zero: {:?}", short(&a.nat), a.ty, r)),
                        Out::Panic(m) => if !t().fired { violation("panicked", format!("zero and one tests on {:?}: {}", a.ty, m)) },
                    }
                    self.operand_ok(op, a, op.a);
                }
            }
            Kind::Digits => {
                let Some(a) = self.raw(op.a) else { return skip() };
                if let Err((c, m)) = judge(&a.num, a.ty, &a.dig, &a.nat) { violation(c, format!("digits: {}", m)); }
                count(C::ops_answered, 1);
            }
            Kind::Write => self.write(op),
            Kind::Store => self.save(op),
            Kind::Sync => {
                let s = slot(op.dst);
                if s.volatile.present == 0 { return skip(); }
                if op.f.sink != 0 {
                    // the disk refuses: what it holds is as before, nothing is promised
                    count(C::fault_sync_failed, 1);
                    return;
                }
                copy(&mut s.durable, &s.volatile);
                copy(&mut s.acked, &s.pending);
                s.clean = 1;
                count(C::ops_answered, 1);
            }
            Kind::Load => self.load(op),
        }
    }

    fn dst_is(&self, op: &Op, r: u8) -> bool { r < POOL && r as usize % REGS == op.dst as usize % REGS }

    /// A number that an operation only looked at is as it was.
    fn operand_ok(&self, op: &Op, v: &Val, r: u8) {
        if r < POOL && (self.regs[r as usize % REGS].is_none() || (self.dst_is(op, r) && !matches!(op.k, Kind::Write | Kind::Store | Kind::Cmp))) { return; }
        if let Err((_, m)) = judge(&v.num, v.ty, &v.dig, &v.nat) {
            violation("operand-changed", format!("{} on {:?} changed an operand: {}", describe(op), v.ty, m));
        }
    }

    fn full_text(&self, op: &Op, v: &Val, spec: Spec) -> String {
        match spec.base {
            Base::Debug => {
                let mut s = String::new();
                let mut sink = Sink::new(0, 0, 64, None);
                match self.run(op, PREP, 200_000_000, || subject::write_text(&v.num, spec, &mut sink)) {
                    Out::Done(Ok(())) => s.push_str(std::str::from_utf8(&sink.got).unwrap_or("?")),
                    Out::Done(Err(_)) => violation("sink-spurious-error", format!("{} failed without cause", describe(op))),
                    Out::Panic(m) => violation("panicked", format!("{} without faults: {}", describe(op), m)),
                }
                s
            }
            Base::Dec => subject::expected_text(spec, &v.nat.to_dec()),
            Base::Lower => subject::expected_text(spec, &v.nat.to_hex()),
            Base::Upper => subject::expected_text(spec, &v.nat.to_hex().to_uppercase()),
        }
    }

    fn write(&mut self, op: &Op) {
        let Some(a) = self.raw(op.a) else { return count(C::ops_skipped, 1) };
        let mut spec = spec_of(op.sub, op.n);
        if a.ty.dec() && matches!(spec.base, Base::Lower | Base::Upper) { spec.base = Base::Dec; }
        let full = self.full_text(op, a, spec);
        let lim = budget(a.ty, &[a.nat.bits(), a.nat.bits(), full.len() * 2]) + 200 * full.len() as u64;
        // a character sink, a byte stream, or a string that grows
        let mut op2;
        let mut op = op;
        let mut attempt = if op.f.rehearsed && op.f.alloc != 0 { REHEARSE } else { MAIN };
        loop {
            let main = attempt == MAIN;
            let kind = if main { op.f.sink } else { 0 };
            let stream = op.mode == 1;
            let at = if kind == crate::sinks::ERR_CALL || kind >= crate::sinks::IO_SHORT && kind != crate::sinks::IO_ONCE { op.f.sink_at } else { op.f.sink_at * full.len() as u64 / 1024 };
            let mut sink = Sink::new(kind, at, full.len() + 64, None);
            let mut grown = None;
            let out = match op.mode {
                1 => self.run(op, attempt, lim, || subject::write_bytes(&a.num, spec, &mut sink).is_ok()),
                2 => self.run(op, attempt, lim, || { let mut s = String::new(); let ok = subject::write_text(&a.num, spec, &mut s).is_ok(); grown = Some(s); ok }),
                _ => self.run(op, attempt, lim, || subject::write_text(&a.num, spec, &mut sink).is_ok()),
            };
            let starved = t().fired;
            let usage = Usage { allocs: t().allocs, bytes: t().alloc_sum };
            if let Some(s) = &grown { sink.got.extend_from_slice(s.as_bytes()); }
            quiet(|| drop(grown));
            let what = || format!("{} of {} ({:?}) to a {}{}", describe(op), short(&a.nat), a.ty,
                if stream { "stream" } else if op.mode == 2 { "string" } else { "text sink" },
                if sink.fired { " that failed" } else if starved { " with too little memory" } else { "" });
            let got = String::from_utf8_lossy(&sink.got).into_owned();
            let mut failed = true;
            match out {
                Out::Done(true) => {
                    if sink.fired { violation("sink-failure-swallowed", format!("{}: reported success after writing {:?} of {:?}", what(), clip(&got), clip(&full))); }
                    if got != full { violation("wrong-text", format!("{}: wrote {:?}, must be {:?}", what(), clip(&got), clip(&full))); }
                    count(C::ops_answered, 1);
                    failed = false;
                }
                Out::Done(false) => {
                    if !sink.fired && !starved { violation("sink-spurious-error", format!("{}: reported a failure that did not happen", what())); }
                    count(C::ops_failed_by_fault, 1);
                }
                Out::Panic(m) => {
                    let allowed = starved || (sink.fired && kind == crate::sinks::PANIC_AT) || (sink.fired && kind == crate::sinks::IO_PANIC);
                    if !allowed { violation("panicked", format!("{}: {}", what(), m)); }
                    count(C::ops_failed_by_fault, 1);
                }
            }
            if !full.as_bytes().starts_with(&sink.got) {
                violation("sink-not-prefix", format!("{}: wrote {:?}, not the beginning of {:?}", what(), clip(&got), clip(&full)));
            }
            self.operand_ok(op, a, op.a);
            if failed { self.check_all(Some(op), "by a failed "); }
            if attempt == REHEARSE {
                op2 = op.clone();
                op2.f.at = place(op.f.alloc, op.f.at, usage);
                op = unsafe { &*(&op2 as *const Op) };
                attempt = MAIN;
                continue;
            }
            if main && failed { count(C::probe_retry_after_fault, 1); attempt = RETRY; continue; }
            break;
        }
    }

    fn save(&mut self, op: &Op) {
        let Some(a) = self.raw(op.a) else { return count(C::ops_skipped, 1) };
        let mut spec = spec_of(op.sub, op.n);
        if a.ty.dec() || spec.base == Base::Debug { spec.base = Base::Dec; }
        spec.style = match (spec.base, spec.style & 1) { (Base::Dec, 0) => 0, (Base::Dec, _) => 4, (_, 0) => 1, _ => 5 };
        let full = self.full_text(op, a, spec);
        if full.len() > FILE { return count(C::ops_skipped, 1); }
        let s = slot(op.dst);
        let lim = budget(a.ty, &[a.nat.bits(), a.nat.bits(), full.len() * 2]);
        // one writer per file at a time
        let busy = 1u32 << (op.dst as usize % SLOTS);
        if w().writing & busy != 0 { return count(C::ops_skipped, 1); }
        w().writing |= busy;
        // truncate and write in place; the old text is gone unless synced
        s.volatile.present = 1;
        s.volatile.len = 0;
        s.pending.present = 0;
        s.clean = 0;
        let at = if op.f.sink >= crate::sinks::IO_SHORT && op.f.sink != crate::sinks::IO_ONCE { op.f.sink_at } else { op.f.sink_at * full.len() as u64 / 1024 };
        let mut sink = Sink::new(op.f.sink, at, full.len() + 64, Some(&mut s.volatile));
        let out = self.run(op, MAIN, lim, || subject::write_bytes(&a.num, spec, &mut sink).is_ok());
        let starved = t().fired;
        let fired = sink.fired;
        let got = std::mem::take(&mut sink.got);
        match out {
            Out::Done(true) => {
                if fired { violation("sink-failure-swallowed", format!("{}: reported success though the disk failed", describe(op))); }
                if got != full.as_bytes() { violation("wrong-text", format!("{} of {} ({:?}): stored {:?}, must be {:?}", describe(op), short(&a.nat), a.ty, clip(&String::from_utf8_lossy(&got)), clip(&full))); }
                let s = slot(op.dst);
                let h = a.nat.to_hex();
                if h.len() <= FILE { s.pending.data[..h.len()].copy_from_slice(h.as_bytes()); s.pending.len = h.len() as u64; s.pending.present = 1; }
                count(C::ops_answered, 1);
            }
            Out::Done(false) => if !fired && !starved { violation("sink-spurious-error", format!("{}: reported a failure that did not happen", describe(op))) },
            Out::Panic(m) => if !starved && !(fired && op.f.sink == crate::sinks::IO_PANIC) { violation("panicked", format!("{}: {}", describe(op), m)) },
        }
        w().writing &= !busy;
        if !full.as_bytes().starts_with(&got) { violation("sink-not-prefix", format!("{}: stored {:?}, not the beginning of {:?}", describe(op), clip(&String::from_utf8_lossy(&got)), clip(&full))); }
        self.operand_ok(op, a, op.a);
    }

    fn load(&mut self, op: &Op) {
        let s = slot(op.a);
        if s.volatile.present == 0 { return count(C::ops_skipped, 1); }
        let bytes = s.volatile.data[..s.volatile.len as usize].to_vec();
        let promised = (s.pending.present == 1).then(|| Nat::from_hex(std::str::from_utf8(&s.pending.data[..s.pending.len as usize]).unwrap_or("?")));
        let Ok(text) = std::str::from_utf8(&bytes) else { count(C::probe_text_damaged_refused, 1); return };
        let denoted = Nat::parse(text);
        if let Some(p) = promised {
            count(C::probe_text_survived, 1);
            if p.as_ref() != denoted.as_ref() {
                violation("durable-text-wrong", format!("text {:?} was stored for {:?}", clip(text), p.as_ref().map(short)));
            }
        } else if denoted.is_some() { count(C::probe_text_damaged_read, 1) } else { count(C::probe_text_damaged_refused, 1) }
        let ty = ty_of(op.ty);
        let expect = match denoted { Some(n) => Expect::Val(n, ty, None), None => Expect::Refuse("invalid") };
        let mut o = op.clone();
        o.k = Kind::Parse;
        o.text = bytes.clone();
        let text = std::str::from_utf8(&bytes).unwrap();
        self.value_op(&o, ty, &[bytes.len() * 4], expect, [None, None], &|_, _| subject::parse(ty, text));
    }
}

/// Larger results are not asked for.
pub const MAX_BITS: usize = 700_000;

fn clip(s: &str) -> String {
    if s.len() <= 80 { s.into() } else {
        let a: String = s.chars().take(40).collect();
        let b: String = s.chars().rev().take(24).collect::<Vec<_>>().into_iter().rev().collect();
        format!("{}...{} ({} bytes)", a, b, s.len())
    }
}

/// Turns a fraction of what the rehearsal used into a place for the fault.
fn place(kind: u8, frac: u64, u: Usage) -> u64 {
    match kind {
        1 | 2 => 1 + frac.min(1023) * u.allocs / 1024,
        3 => 1 + frac * u.bytes / 1024 / (1 + u.allocs / 2),
        _ => frac * u.bytes / 1024,
    }
}

fn slot(i: u8) -> &'static mut Slot { unsafe { &mut (*w().shm).slots[i as usize % SLOTS] } }

fn copy(to: &mut File, from: &File) {
    to.present = from.present;
    to.len = from.len;
    let n = from.len as usize;
    to.data[..n].copy_from_slice(&from.data[..n]);
}

/// What a crash does to a file that was not synced (or, for rot, to any).
pub fn damage(s: &mut Slot, d: (u8, u64, u64)) -> Option<C> {
    let n = s.volatile.len as usize;
    let pos = |f: u64, n: usize| (f as usize * n / 1024).min(n.saturating_sub(1));
    let dirty = s.clean == 0;
    let r = match d.0 {
        // the write-back happened to be complete
        0 => None,
        1 if dirty => { let f = unsafe { &*(&s.durable as *const File) }; copy(&mut s.volatile, f); let a = unsafe { &*(&s.acked as *const File) }; copy(&mut s.pending, a); return Some(C::fault_damage_lost) }
        2 if dirty && n > 0 => { s.volatile.len = pos(d.1, n) as u64; Some(C::fault_damage_torn) }
        3 if dirty && n > 0 => {
            // a block of the file never reached the disk and reads as zeros
            let bs = 1usize << (4 + d.2 % 6);
            let b = pos(d.1, n) / bs * bs;
            for x in s.volatile.data[b..(b + bs).min(n)].iter_mut() { *x = 0; }
            Some(C::fault_damage_block)
        }
        4 if n > 0 => { s.volatile.data[pos(d.1, n)] ^= 1 << (d.2 % 8); Some(C::fault_damage_flip) }
        5 if dirty && s.durable.present == 1 && n > 0 => {
            // the new text's beginning over the old text's rest
            let cut = pos(d.1, n);
            let m = (s.durable.len as usize).max(cut);
            for i in cut..m { s.volatile.data[i] = s.durable.data[i]; }
            s.volatile.len = m as u64;
            Some(C::fault_damage_stale)
        }
        6 if dirty && n > 1 => {
            // two sectors swapped, or one lost and the rest moved up
            let cut = 1 + pos(d.1, n - 1);
            if d.2 & 1 == 0 { s.volatile.data[..n].rotate_left(cut); } else { s.volatile.data.copy_within(cut..n, cut / 2); s.volatile.len = (n - cut + cut / 2) as u64; }
            Some(C::fault_damage_splice)
        }
        7 if n > 0 => {
            // a byte replaced by one that text tools like to insert
            s.volatile.data[pos(d.1, n)] = b"+-_., \n\tx0eEg:/`@G"[d.2 as usize % 18];
            Some(C::fault_damage_flip)
        }
        _ => None,
    };
    if r.is_some() { s.pending.present = 0; s.clean = 0; }
    r
}

fn body(tid: usize) {
    let wd = w();
    let ph = &wd.plan.as_ref().unwrap().phases[wd.phase];
    let ops = &ph.threads[tid - 1];
    let loops = ph.loops.max(1);
    // where numbers lie is the simulator's to decide: in its own memory
    // a thread-local that is there from the start is destroyed late
    if ops.iter().any(|o| o.k == Kind::Park && o.mode == 0) { KEEP.with(|_| ()); }
    let mut c = Ctx { regs: quiet(|| (0..REGS).map(|_| None).collect()), tid, round: 0, calls: std::cell::Cell::new(0) };
    for l in 0..loops {
        // long enough
        if l > 1000 && k().time > 1_200_000_000 { break; }
        c.round = (wd.round * loops + l) & 511;
        for op in ops {
            trace(|| format!("t{} {} id{}", tid, describe(op), op.id));
            c.calls.set(0);
            let a = c.val(op.a).map_or(0, |v| v.nat.bits() as u64);
            kernel::fold_hash((op.k as u64) << 56 ^ (op.sub as u64) << 48 ^ (op.mode as u64) << 40 ^ a << 8 ^ tid as u64);
            if l > 0 && ph.vary & 2 != 0 && op.k == Kind::Set && c.val(op.dst).is_some() { continue; }
            if l > 0 && (ph.drift || ph.vary & 1 != 0) {
                let mut o = quiet(|| op.clone());
                if ph.drift && op.f != Default::default() {
                    o.f.at = drift(o.f.at, l, o.f.rehearsed);
                    o.f.sink_at = drift(o.f.sink_at, l, true);
                }
                if ph.vary & 1 != 0 { quiet(|| vary(&mut o, l)); }
                c.exec(&o);
                quiet(|| drop(o));
            } else {
                c.exec(op);
            }
        }
        c.check_all(None, "by the end");
        trace(|| {
            let mut h = 0u64;
            for v in c.regs.iter().flatten() { for d in &v.dig { h = crate::rng::mix(h ^ d); } }
            format!("t{} ends, registers {:016x}, {} steps", c.tid, h, k().time)
        });
        let alive = if ph.vary & 2 != 0 { c.regs.iter().flatten().map(|v| v.dig.len() as u64).sum() } else { 0 };
        for v in c.regs.iter_mut() {
            if ph.vary & 2 != 0 && l + 1 < loops { break; }
            if let Some(v) = v.take() { quiet(|| drop(v.num)); }
        }
        if loops > 1 && ph.threads.len() == 1 && (ph.vary & 2 == 0 || l + 1 < loops) {
            drop_mail();
            wd.held.push((k().live_bytes, k().live_blocks, alive));
        }
    }
    quiet(|| drop(c));
}

/// Where a fault strikes in a later repetition.
fn drift(at: u64, l: u32, fraction: bool) -> u64 {
    if fraction { (at + 389 * l as u64) % 1024 } else { let w = at.max(4) * 2; (at + (w / 2 + 1) * l as u64) % w }
}

/// Another request of the same kind: other digits, as many of them.
fn vary(o: &mut Op, l: u32) {
    let h = crate::rng::mix((o.id as u64) << 32 | l as u64);
    match o.k {
        Kind::Set => {
            let ty = ty_of(o.ty);
            let top = if ty.dec() { crate::nat::DEC_RADIX[crate::nat::width_index(ty.bits())] - 1 } else if ty.bits() == 64 { u64::MAX } else { (1 << ty.bits()) - 1 };
            let mut d = o.val.to_digits(ty.bits(), ty.dec());
            let n = d.len();
            match o.id % 4 {
                _ if n == 0 => return,
                0 => d[0] = if top == u64::MAX { h } else { h % (top + 1) },
                1 => d[n - 1] = 1 + h % top,
                2 => for (i, x) in d.iter_mut().enumerate() {
                    let g = crate::rng::mix(h ^ i as u64);
                    *x = if top == u64::MAX { g } else { g % (top + 1) };
                },
                _ => { let i = h as usize % n; d[i] = if top == u64::MAX { h } else { h % (top + 1) }; }
            }
            if d[n - 1] == 0 { d[n - 1] = 1; }
            o.val = Nat::from_digits(&d, ty.bits(), ty.dec());
        }
        Kind::Parse => {
            let n = o.text.len().max(1);
            for i in 0..o.text.len() {
                let j = (h as usize).wrapping_add(i) % n;
                if o.text[j].is_ascii_digit() && o.text[j] != b'0' { o.text[j] = b'1' + (h >> 32) as u8 % 9; break; }
            }
        }
        Kind::Word | Kind::Digit if o.n != 0 => o.n = o.n.wrapping_add(l as u64).max(1),
        Kind::Shift => o.n = o.n.wrapping_add(l as u64 % 64),
        Kind::Pow if o.n < 40 => o.n += l as u64 % 5,
        _ => {}
    }
}

fn drop_mail() {
    for m in w().mail.iter_mut() {
        if let Some(v) = m.take() {
            if let Err((_, m)) = judge(&v.num, v.ty, &v.dig, &v.nat) { violation("other-number-changed", format!("a number sent between threads changed: {}", m)); }
            quiet(|| drop(v.num));
        }
    }
}

/// One phase of a plan, in this process; ends it. The report is in `shm`.
pub fn run_phase(plan: &Plan, phase: usize, shm: *mut RunShm, tracing: bool) -> ! {
    let ph = &plan.phases[phase];
    let wd = w();
    wd.shm = shm;
    wd.plan = Some(plan.clone());
    wd.phase = phase;
    kernel::start(Setup {
        shm, seed: crate::rng::mix(plan.seed ^ crate::rng::mix(plan.run) ^ phase as u64), policy: ph.policy, explicit: ph.sched.clone(),
        crash: ph.crash, stall: ph.stall, tracing,
    });
    kernel::k().policy.p_spurious = plan.spurious;
    kernel::k().policy.world = plan.world;
    kernel::k().policy.p_clock = plan.clock;
    kernel::k().policy.reuse = plan.reuse != 0;
    wd.mail = quiet(|| (0..MAILS).map(|_| None).collect());
    quiet(|| wd.pool.reserve_exact(plan.pool.len()));
    // shared numbers, made by the controlling thread
    for (i, (ty, nat)) in plan.pool.iter().enumerate() {
        let ty = ty_of(*ty);
        let dig = nat.to_digits(ty.bits(), ty.dec());
        t().op = 0;
        let num = quiet(|| subject::from_digits(ty, &dig));
        if let Err((c, m)) = judge(&num, ty, &dig, nat) { violation(c, format!("shared number {}: {}", i, m)); }
        wd.pool.push(Val { num, nat: nat.clone(), dig, ty });
    }
    let rounds = ph.rounds.max(1);
    let many = rounds.max(ph.loops) as usize;
    quiet(|| wd.held.reserve_exact(many));
    for r in 0..rounds {
        wd.round = r;
        kernel::run_threads(ph.threads.len(), body);
        check_pool("by the end of the run");
        drop_mail();
        if ph.loops <= 1 { wd.held.push((k().live_bytes, k().live_blocks, 0)); }
    }
    let held = &wd.held;
    if held.len() >= 8 {
        count(C::probe_soak_rounds, held.len() as u64);
        // the same work over and over: what is held on to may settle, not grow
        let q = [held.len() / 4, held.len() / 2, held.len() * 3 / 4, held.len() - 1];
        let settled = ph.drift || held[held.len() / 8..].iter().any(|h| h.2 > held[held.len() / 8].2) || ph.vary != 0 && (held.len() < 39 || (1..8).any(|i| held[held.len() * i / 8].0 >= held[(held.len() * (i + 1) / 8).min(held.len() - 1)].0));
        if !settled && q.windows(2).all(|x| held[x[1]].0 > held[x[0]].0) {
            violation("memory-grows", format!("{} bytes in {} blocks held after {} rounds of the same work, {} in {} after {}, {} in {} after {}",
                held[q[1]].0, held[q[1]].1, q[1] + 1, held[q[2]].0, held[q[2]].1, q[2] + 1, held[q[3]].0, held[q[3]].1, q[3] + 1));
        }
    }
    for v in wd.pool.drain(..) { quiet(|| drop(v.num)); }
    kernel::sweep();
    if !subject::shareable() { violation("not-shareable", "numbers cannot be sent to or shared between threads".into()); }
    unsafe {
        (*shm).outcome = OK;
        crate::sys::_exit(0)
    }
}
