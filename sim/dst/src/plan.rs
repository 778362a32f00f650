//! What a run does, as explicit data: nothing in it is random any more. The
//! textual form is the replay file.

use crate::nat::Nat;
use crate::shm::Dec;
use std::fmt::Write;

macro_rules! kinds {
    ($($v:ident $s:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
        #[repr(u8)]
        pub enum Kind { $($v),* }
        impl Kind {
            pub fn name(self) -> &'static str { match self { $(Kind::$v => $s),* } }
            pub fn from_name(s: &str) -> Option<Kind> { match s { $($s => Some(Kind::$v),)* _ => None } }
        }
    };
}
kinds!(
    Set "set", Parse "parse", Bin "bin", Word "word", Digit "digit", Shift "shift", Pow "pow", Square "square",
    DivAssign "divassign", RemAssign "remassign", Cmp "cmp", ToDec "todec", Write "write", Clone "clone",
    CloneFrom "clonefrom", Drop "drop", Send "send", Recv "recv", Store "store", Sync "sync", Load "load",
    Digits "digits", Unit "unit", Park "park",
);

pub const POOL: u8 = 64;

/// A fault in an operation's environment.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Fault {
    /// 0 none, 1 one allocation, 2 all from one on, 3 large ones, 4 a budget
    pub alloc: u8,
    /// which; with `rehearsed` a fraction (of 1024) of what the operation used
    /// when it ran undisturbed just before
    pub at: u64,
    pub rehearsed: bool,
    /// sinks: see sinks.rs
    pub sink: u8,
    pub sink_at: u64,
    /// a request made from within this one: where (see exec.rs), which, on
    /// what operand and at which occasion
    pub nest: u8,
    pub nest_kind: u8,
    pub nest_reg: u8,
    pub nest_at: u64,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Op {
    pub k: Kind,
    /// unique in the plan
    pub id: u32,
    /// operator, number type, ...: see exec.rs
    pub sub: u8,
    /// who owns the operands
    pub mode: u8,
    pub dst: u8,
    pub a: u8,
    pub b: u8,
    pub n: u64,
    pub m: u64,
    pub ty: u8,
    pub val: Nat,
    pub text: Vec<u8>,
    pub f: Fault,
}

impl Op {
    pub fn new(k: Kind) -> Op {
        Op { k, id: 0, sub: 0, mode: 0, dst: 0, a: 0, b: 0, n: 0, m: 0, ty: 0, val: Nat::zero(), text: vec![], f: Fault::default() }
    }
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Phase {
    pub threads: Vec<Vec<Op>>,
    /// (thread, operation id, tick)
    pub crash: Option<(u32, u32, u64)>,
    /// likewise: the thread gets no time until the others have ended
    pub stall: Option<(u32, u32, u64)>,
    /// per slot of the disk: what the crash does to it (kind, parameters)
    pub damage: Vec<(u8, u64, u64)>,
    /// repetitions of the threads' programs, on new threads each time
    pub rounds: u32,
    /// repetitions on the same thread (0 counts as 1)
    pub loops: u32,
    /// faults move from one repetition to the next
    pub drift: bool,
    /// 1: operands change from one repetition to the next; 2: numbers stay from one repetition to the next
    pub vary: u8,
    /// explicit schedule; None: decided from the seed
    pub sched: Option<Vec<Dec>>,
    /// how a schedule is decided when none is given (not written to files)
    pub policy: crate::kernel::Policy,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Plan {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub spurious: u64,
    pub clock: u64,
    /// what surrounds the process (environment, processors, grain of the
    /// clock) is drawn from this; 0: nothing unusual
    pub world: u64,
    /// freed memory is handed out again at once
    pub reuse: u64,
    pub pool: Vec<(u8, Nat)>,
    pub phases: Vec<Phase>,
}

fn hex_bytes(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b { let _ = write!(s, "{:02x}", x); }
    s
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 { return None; }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

impl Plan {
    pub fn ops(&self) -> usize { self.phases.iter().map(|p| p.threads.iter().map(|t| t.len()).sum::<usize>()).sum() }
    pub fn text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "babs-simulation-replay 1");
        let _ = writeln!(s, "property {}", self.property);
        let _ = writeln!(s, "seed {} run {}", self.seed, self.run);
        if self.spurious != 0 || self.clock != 0 || self.reuse != 0 || self.world != 0 { let _ = writeln!(s, "knobs {} {} {} {}", self.spurious, self.clock, self.reuse, self.world); }
        for (t, n) in &self.pool { let _ = writeln!(s, "pool {} {}", t, n.to_hex()); }
        for p in &self.phases {
            let _ = writeln!(s, "phase rounds={} loops={} drift={} vary={}", p.rounds, p.loops, p.drift as u8, p.vary);
            if let Some((a, b, c)) = p.crash { let _ = writeln!(s, "crash {} {} {}", a, b, c); }
            if let Some((a, b, c)) = p.stall { let _ = writeln!(s, "stall {} {} {}", a, b, c); }
            for d in &p.damage { let _ = writeln!(s, "damage {} {} {}", d.0, d.1, d.2); }
            for t in &p.threads {
                let _ = writeln!(s, "thread");
                for o in t {
                    let _ = write!(s, "op {} id={}", o.k.name(), o.id);
                    macro_rules! put { ($($n:literal $v:expr),*) => { $( if $v as u64 != 0 { let _ = write!(s, concat!(" ", $n, "={}"), $v as u64); } )* } }
                    put!("sub" o.sub, "mode" o.mode, "dst" o.dst, "a" o.a, "b" o.b, "n" o.n, "m" o.m, "ty" o.ty,
                         "falloc" o.f.alloc, "fat" o.f.at, "freh" o.f.rehearsed, "fsink" o.f.sink, "fsat" o.f.sink_at,
                         "fnest" o.f.nest, "fnkind" o.f.nest_kind, "fnreg" o.f.nest_reg, "fnat" o.f.nest_at);
                    if !o.val.is_zero() { let _ = write!(s, " val={}", o.val.to_hex()); }
                    if !o.text.is_empty() { let _ = write!(s, " text={}", hex_bytes(&o.text)); }
                    s.push('\n');
                }
            }
            if let Some(d) = &p.sched {
                let _ = writeln!(s, "schedule");
                for d in d {
                    let forced = d.tick >> 63 != 0;
                    let _ = writeln!(s, "sw {} {} {}{} {}", d.tid, d.op, d.tick & !(1 << 63), if forced { "f" } else { "" }, d.next);
                }
            }
        }
        s.push_str("end\n");
        s
    }
    pub fn parse(s: &str) -> Option<Plan> {
        let mut p = Plan::default();
        let mut lines = s.lines().filter(|l| !l.starts_with('#') && !l.trim().is_empty());
        if lines.next()? != "babs-simulation-replay 1" { return None; }
        for l in lines {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w[0] {
                "property" => p.property = w.get(1)?.to_string(),
                "seed" => { p.seed = w.get(1)?.parse().ok()?; p.run = w.get(3)?.parse().ok()?; }
                "knobs" => { p.spurious = w.get(1)?.parse().ok()?; p.clock = w.get(2)?.parse().ok()?; p.reuse = w.get(3)?.parse().ok()?; p.world = w.get(4).map_or(Some(0), |x| x.parse().ok())?; }
                "pool" => p.pool.push((w.get(1)?.parse().ok()?, Nat::from_hex(w.get(2)?)?)),
                "phase" => p.phases.push(Phase {
                    rounds: w.get(1)?.strip_prefix("rounds=")?.parse().ok()?, loops: w.get(2)?.strip_prefix("loops=")?.parse().ok()?,
                    drift: w.get(3)?.strip_prefix("drift=")? != "0",
                    vary: w.get(4).and_then(|x| x.strip_prefix("vary=")?.parse().ok()).unwrap_or(0), ..Phase::default()
                }),
                "crash" => p.phases.last_mut()?.crash = Some((w.get(1)?.parse().ok()?, w.get(2)?.parse().ok()?, w.get(3)?.parse().ok()?)),
                "stall" => p.phases.last_mut()?.stall = Some((w.get(1)?.parse().ok()?, w.get(2)?.parse().ok()?, w.get(3)?.parse().ok()?)),
                "damage" => p.phases.last_mut()?.damage.push((w.get(1)?.parse().ok()?, w.get(2)?.parse().ok()?, w.get(3)?.parse().ok()?)),
                "thread" => p.phases.last_mut()?.threads.push(vec![]),
                "schedule" => p.phases.last_mut()?.sched = Some(vec![]),
                "sw" => {
                    let (t, f) = match w.get(3)?.strip_suffix('f') { Some(x) => (x, 1u64 << 63), None => (w[3], 0) };
                    let d = Dec { tid: w.get(1)?.parse().ok()?, op: w.get(2)?.parse().ok()?, tick: t.parse::<u64>().ok()? | f, next: w.get(4)?.parse().ok()? };
                    p.phases.last_mut()?.sched.as_mut()?.push(d);
                }
                "op" => {
                    let mut o = Op::new(Kind::from_name(w.get(1)?)?);
                    for kv in &w[2..] {
                        let (k, v) = kv.split_once('=')?;
                        match k {
                            "val" => o.val = Nat::from_hex(v)?,
                            "text" => o.text = unhex(v)?,
                            _ => {
                                let x: u64 = v.parse().ok()?;
                                match k {
                                    "id" => o.id = x as u32, "sub" => o.sub = x as u8, "mode" => o.mode = x as u8,
                                    "dst" => o.dst = x as u8, "a" => o.a = x as u8, "b" => o.b = x as u8,
                                    "n" => o.n = x, "m" => o.m = x, "ty" => o.ty = x as u8,
                                    "falloc" => o.f.alloc = x as u8, "fat" => o.f.at = x, "freh" => o.f.rehearsed = x != 0,
                                    "fsink" => o.f.sink = x as u8, "fsat" => o.f.sink_at = x,
                                    "fnest" => o.f.nest = x as u8, "fnkind" => o.f.nest_kind = x as u8, "fnreg" => o.f.nest_reg = x as u8, "fnat" => o.f.nest_at = x,
                                    _ => return None,
                                }
                            }
                        }
                    }
                    p.phases.last_mut()?.threads.last_mut()?.push(o);
                }
                "end" => return Some(p),
                _ => return None,
            }
        }
        None
    }
}
