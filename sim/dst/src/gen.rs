//! Makes the plan of a run from its seed: workload, sizes, operands, faults and
//! scheduling policy, all varied from run to run.

use crate::exec::{bin_of, ty_index, ty_of, MAILS, REGS};
use crate::kernel::Policy;
use crate::nat::{width_index, Nat, DEC_RADIX};
use crate::plan::{Kind, Op, Phase, Plan, POOL};
use crate::rng::Rng;
use crate::shm::SLOTS;
use crate::sinks;
use subject::{Bin, Ty};

/// What a property's workload looks like. Weights are relative, probabilities
/// per mille.
#[derive(Clone)]
pub struct Profile {
    pub threads: &'static [usize],
    pub ops: (u64, u64),
    pub pool: (u64, u64),
    pub kinds: &'static [(Kind, u64)],
    /// tiny, medium, large, huge
    pub scale: [u64; 4],
    pub alloc_fault: u64,
    pub sink_fault: u64,
    pub refuse: u64,
    pub in_place: u64,
    pub mirror: u64,
    pub rounds: u32,
    pub crash: bool,
    /// threads stopped in the middle of a request
    pub stall: u64,
    pub fault_free_runs: u64,
    /// runs whose allocator hands out freed blocks again
    pub reuse: u64,
    /// the same questions over and over, with look-alike operands
    pub repeats: u64,
    /// the same program over and over on the same thread
    pub loops: u64,
    /// of those, ones that go on for very long
    pub marathon: u64,
    /// numbers of ten thousands of digits
    pub huge: u64,
    /// requests from within requests
    pub nest: u64,
    /// operands made for the corners of the algorithms for large numbers
    pub corners: u64,
}

/// Bits of the largest numbers, outside `huge` runs.
const MAX_BITS: usize = 60_000;

use Kind::*;
const ARITH: &[(Kind, u64)] = &[(Set, 14), (Bin, 38), (Word, 9), (Digit, 5), (Shift, 12), (Pow, 4), (Square, 5), (DivAssign, 6), (RemAssign, 4),
    (Cmp, 5), (ToDec, 6), (Write, 6), (Clone, 4), (CloneFrom, 2), (Drop, 1), (Parse, 5), (Unit, 2), (Send, 1), (Recv, 1), (Park, 1)];

pub fn profile(id: &str) -> Option<Profile> {
    let base = Profile {
        threads: &[1], ops: (3, 12), pool: (1, 4), kinds: ARITH, scale: [40, 35, 20, 5], alloc_fault: 0, sink_fault: 0, refuse: 20,
        in_place: 350, mirror: 0, rounds: 1, crash: false, stall: 0, fault_free_runs: 100,
        reuse: 300, repeats: 0, loops: 0, marathon: 15, huge: 0, nest: 30, corners: 10,
    };
    Some(match id {
        // concurrent use
        "C01" => Profile { nest: 50, threads: &[2, 2, 2, 3, 3, 4, 5], ops: (2, 8), pool: (2, 5), mirror: 600, refuse: 10, fault_free_runs: 1000,
            kinds: &[(Set, 10), (Bin, 36), (Word, 7), (Digit, 4), (Shift, 10), (Pow, 7), (Square, 6), (DivAssign, 5), (RemAssign, 4),
                (Cmp, 5), (ToDec, 10), (Write, 12), (Clone, 5), (CloneFrom, 2), (Drop, 2), (Parse, 9), (Send, 5), (Recv, 5), (Park, 2)], ..base },
        // isolation of values
        "C02" => Profile { threads: &[1, 1, 2, 2, 3], ops: (6, 20), pool: (2, 4), alloc_fault: 80, sink_fault: 30, refuse: 40, in_place: 650, fault_free_runs: 500,
            kinds: &[(Set, 8), (Bin, 34), (Word, 9), (Digit, 6), (Shift, 12), (Pow, 2), (Square, 3), (DivAssign, 8), (RemAssign, 6),
                (Cmp, 2), (ToDec, 4), (Write, 2), (Clone, 22), (CloneFrom, 14), (Drop, 3), (Send, 8), (Recv, 8), (Unit, 3), (Parse, 1), (Park, 3)], ..base },
        // failing sinks
        "C03" => Profile { threads: &[1, 1, 2, 3], ops: (3, 12), pool: (1, 3), sink_fault: 600, alloc_fault: 60, refuse: 0, nest: 150,
            kinds: &[(Set, 30), (Write, 60), (Bin, 6), (Shift, 3), (Store, 6), (ToDec, 3), (Word, 3), (Park, 1)], ..base },
        // failing memory
        "C04" => Profile { threads: &[1, 1, 1, 2, 3], ops: (3, 8), pool: (2, 4), alloc_fault: 600, sink_fault: 50, refuse: 30, fault_free_runs: 50, loops: 60,
            scale: [30, 35, 28, 7], ..base },
        // service after faults
        "C05" => Profile { threads: &[1, 1, 2, 2, 3], ops: (5, 16), pool: (2, 4), alloc_fault: 220, sink_fault: 300, refuse: 150, mirror: 400, fault_free_runs: 0, loops: 30, marathon: 30, nest: 80,
            kinds: &[(Set, 10), (Bin, 34), (Word, 9), (Digit, 5), (Shift, 10), (Pow, 5), (Square, 5), (DivAssign, 7), (RemAssign, 5),
                (Cmp, 3), (ToDec, 8), (Write, 14), (Clone, 4), (CloneFrom, 3), (Drop, 1), (Unit, 2), (Parse, 9), (Park, 2)], ..base },
        // memory hygiene
        "C06" => Profile { threads: &[1, 1, 1, 2], ops: (2, 8), pool: (1, 3), alloc_fault: 120, sink_fault: 200, refuse: 80, rounds: 16, loops: 300,
            scale: [45, 40, 14, 1], ..base },
        // refusals
        "C07" => Profile { threads: &[1, 1, 1, 2], ops: (4, 14), pool: (1, 4), refuse: 450, alloc_fault: 40, scale: [55, 30, 13, 2],
            kinds: &[(Set, 10), (Bin, 36), (Word, 14), (Digit, 10), (Shift, 5), (DivAssign, 16), (RemAssign, 14), (Parse, 22),
                (Cmp, 2), (ToDec, 2), (Write, 2), (Pow, 2), (Square, 1)], ..base },
        // text on a disk that crashes
        "C08" => Profile { threads: &[1, 1, 2], ops: (4, 14), pool: (1, 3), sink_fault: 150, crash: true, refuse: 0,
            kinds: &[(Set, 24), (Store, 34), (Sync, 16), (Load, 16), (Bin, 8), (Word, 4), (Shift, 4), (Parse, 12), (ToDec, 3)], ..base },
        // long histories
        "C09" => Profile { threads: &[1, 1, 1, 2], ops: (30, 140), pool: (2, 5), in_place: 800, alloc_fault: 25, sink_fault: 50, refuse: 25, fault_free_runs: 300,
            scale: [45, 38, 15, 2], corners: 120, ..base },
        // answers depend on the operands alone
        "C11" => Profile { threads: &[1, 1, 1, 2, 3], ops: (8, 40), pool: (1, 3), in_place: 300, alloc_fault: 30, sink_fault: 30, refuse: 10, mirror: 700, fault_free_runs: 700,
            scale: [30, 40, 25, 5], reuse: 700, repeats: 850, loops: 20, marathon: 60, nest: 60, ..base },
        // progress
        "C10" => Profile { threads: &[1, 2, 2, 3, 4], ops: (2, 10), pool: (1, 4), alloc_fault: 60, sink_fault: 100, refuse: 60, mirror: 300, stall: 600, loops: 10, huge: 9, nest: 60,
            scale: [30, 35, 28, 7], ..base },
        _ => return None,
    })
}

/// Whether a departure of this class breaks this property, as it is stated.
pub fn concerns(id: &str, class: &str) -> bool {
    let memory = class.starts_with("memory-");
    let stuck = ["runaway", "deadlock", "hang", "process-ended"].contains(&class);
    let text = class.starts_with("sink-") || class == "wrong-text";
    match id {
        "C03" => text || memory || stuck || ["panicked", "operand-changed", "other-number-changed"].contains(&class),
        "C06" => memory || class == "process-ended",
        "C10" => stuck || class == "panicked" || class == "waits-for-stalled",
        _ => true,
    }
}

pub struct Gen {
    pub r: Rng,
    p: Profile,
    ty: Ty,
    /// largest operand, in digits
    cap: usize,
    regs: Vec<Option<(Ty, Option<Nat>)>>,
    pool: Vec<(Ty, Nat)>,
    next_id: u32,
    slots: Vec<Option<usize>>,
    faulty: bool,
    focus: Option<Kind>,
}

fn radix(ty: Ty) -> u64 {
    if ty.dec() { DEC_RADIX[width_index(ty.bits())] } else if ty.bits() == 64 { 0 } else { 1 << ty.bits() }
}

/// A digit: often one of those where things change.
fn digit(r: &mut Rng, ty: Ty) -> u64 {
    let top = radix(ty).wrapping_sub(1);
    match r.below(10) {
        0 => 0,
        1 => top,
        2 => 1,
        3 => top / 2 + r.below(3),
        4 => top - r.below(4).min(top),
        5 => 1 << r.below(ty.bits() as u64 - 2).min(63),
        _ => if top == u64::MAX { r.u64() } else { r.below(top + 1) },
    }.min(top)
}

/// Number of digits: often next to the sizes where algorithms change.
pub fn size(r: &mut Rng, cap: usize) -> usize {
    // from where the thirds are multiplied by thirds as well
    if cap >= 390 && r.permille(80) { return 382 + r.index(cap - 381); }
    const EDGES: &[usize] = &[0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 14, 15, 16, 17, 18, 19, 20, 21, 22, 24, 31, 32, 33, 38, 39, 40, 41, 42, 44, 48, 60, 63, 64, 65, 79, 80, 81,
        95, 100, 126, 127, 128, 129, 130, 131, 160, 192, 255, 256, 257, 260, 300, 382, 384, 385, 390];
    if r.permille(550) {
        let n = EDGES.iter().take_while(|&&x| x <= cap).count();
        // favour the larger ones: the small ones come up anyway
        EDGES[if r.permille(500) { r.index(n) } else { n - 1 - r.index((n / 3).max(1)) }]
    } else if r.permille(500) {
        r.log(63 - (cap as u64).max(1).leading_zeros() as u64).min(cap as u64) as usize
    } else {
        r.index(cap + 1)
    }
}

/// A number of `n` digits of the type.
pub fn value(r: &mut Rng, ty: Ty, n: usize) -> Nat {
    if n == 0 { return Nat::zero(); }
    let top = radix(ty).wrapping_sub(1);
    if n >= 30 && r.permille(if n > 380 { 300 } else { 120 }) { return parts(r, ty, n, 0); }
    let mut d: Vec<u64> = vec![0; n];
    match r.below(17) {
        16 => {
            // parts that cancel where products by parts are evaluated
            let k = (n + 1) / (2 + r.index(2));
            if k == 0 { return value_plain(r, ty, n); }
            let mut v = vec![0; k + 1];
            v[k] = 1;
            let p = Nat::from_digits(&v, ty.bits(), ty.dec());
            let c = Nat::from_u64(1 + r.below(2));
            let f = if r.permille(600) { p.add(&c) } else { p.sub(&c).unwrap_or_default() };
            let q = value_plain(r, ty, n - k.min(n));
            // small top digits, so that nothing is carried between the parts
            let q = if r.permille(500) { let s = q.bits() / 40 + 3; q.shr(s) } else { q };
            let e = Nat::from_u64(if r.permille(600) { 0 } else { r.log(9) - 1 });
            return f.mul(&q).add(&e);
        }
        0 => d.iter_mut().for_each(|x| *x = top),
        1 => d[n - 1] = 1,
        2 => {
            // a power of the base, more or less
            let mut v = vec![0; n + 1];
            v[n] = 1;
            let p = Nat::from_digits(&v, ty.bits(), ty.dec());
            let e = Nat::from_u64(r.log(6) - 1);
            return if r.permille(700) { p.sub(&e).unwrap() } else { p.add(&e) };
        }
        3 => for _ in 0..1 + r.below(3) { let i = r.index(n); d[i] = digit(r, ty); },
        4 | 5 | 6 => {
            // blocks of equal, extreme or random digits
            let mut i = 0;
            while i < n {
                let most = 1 + r.index(n);
                let len = 1 + r.index(n.min(most));
                let kind = r.below(4);
                for x in d[i..(i + len).min(n)].iter_mut() {
                    *x = match kind { 0 => 0, 1 => top, 2 => digit(r, ty), _ => if top == u64::MAX { r.u64() } else { r.below(top + 1) } };
                }
                i += len;
            }
        }
        7 => {
            // the halves (or thirds) are equal, or nearly
            let k = 2 + r.index(2);
            let part = (n + k - 1) / k;
            let base: Vec<u64> = (0..part).map(|_| digit(r, ty)).collect();
            for i in 0..n { d[i] = base[i % part]; }
            if r.permille(500) { let i = r.index(n); d[i] = digit(r, ty); }
        }
        8 => {
            // near a power of the other base
            let bits = Nat::from_digits(&{ let mut v = vec![0; n]; v[n - 1] = 1; v }, ty.bits(), ty.dec()).bits();
            let p = if ty.dec() || r.permille(300) { Nat::one().shl(bits + r.index(4)) } else { Nat::from_u64(10).pow(bits * 3 / 10 + r.index(3)) };
            let e = Nat::from_u64(r.log(8) - 1);
            return if r.permille(600) { p.add(&e) } else { p.sub(&e).unwrap_or(p) };
        }
        9 => {
            // many trailing zeros in the other base
            let mut x = value_plain(r, ty, 1 + n / 3);
            let bits = (n - n / 3).max(1) * (ty.bits() as usize);
            x = if ty.dec() { x.shl(bits * 3 / 4) } else { x.mul(&Nat::from_u64(10).pow(bits / 5)) };
            if r.permille(400) { x = x.add(&Nat::from_u64(r.log(10))); }
            return x;
        }
        10 | 11 => for x in d.iter_mut() { *x = digit(r, ty); },
        _ => return value_plain(r, ty, n),
    }
    if d[n - 1] == 0 { d[n - 1] = match r.below(3) { 0 => 1, 1 => top, _ => digit(r, ty).max(1) }; }
    Nat::from_digits(&d, ty.bits(), ty.dec())
}

/// Numbers whose parts (halves or thirds) depend on each other linearly, so that the polynomials
/// which products by parts evaluate vanish, or nearly, at some of the points, or take the same value
/// at two of them. The parts are often such numbers themselves.
fn parts(r: &mut Rng, ty: Ty, n: usize, depth: usize) -> Nat {
    let third = r.permille(if n > 380 { 900 } else { 700 });
    let k = if third { (n + 2) / 3 } else { (n + 1) / 2 };
    if n < 5 || n > 1500 || depth > 3 { return value_plain(r, ty, n); }
    let shift = |x: &Nat, by: usize| {
        let mut v = vec![0; by];
        v.extend(x.to_digits(ty.bits(), ty.dec()));
        Nat::from_digits(&v, ty.bits(), ty.dec())
    };
    let fits = |x: &Nat, len: usize| x.to_digits(ty.bits(), ty.dec()).len() <= len;
    let piece = |r: &mut Rng, len: usize| -> Nat {
        let m = match r.below(8) { 0 => 0, 1 => 1, 2 => r.index(len + 1), _ => len };
        let x = match r.below(if n > 380 { 2 } else { 6 }) {
            // (shifted, these would lose what they are here for)
            0 if depth < 3 => return parts(r, ty, m, depth + 1),
            1 => Nat::from_u64(r.log(9) - 1),
            _ => value_plain(r, ty, m),
        };
        // room at the top, so that multiples of it still fit, but not a digit less
        if r.permille(600) {
            let y = x.shr(5);
            if m > 0 && fits(&y, m - 1) { y.add(&shift(&Nat::one(), m - 1)) } else { y }
        } else { x }
    };
    let low = piece(r, k);
    let high_len = if third { n - (2 * k).min(n) } else { n - k };
    let mut high = piece(r, high_len);
    if fits(&high, k.saturating_sub(3)) && r.permille(850) {
        // too short: it would be split elsewhere
        high = high.add(&shift(&Nat::one(), high_len - 1));
    }
    let e = match r.below(4) {
        0 | 1 => Nat::zero(),
        2 => Nat::from_u64(r.log(9) - 1),
        _ => { let m = 1 + r.index(n.min(24)); value_plain(r, ty, m) }
    };
    if !third {
        let mut h = low.mul(&Nat::from_u64(r.below(3))).add(&e);
        if !fits(&h, n - k) { h = high; }
        return shift(&h, k).add(&low);
    }
    // with parts l, m and h: values of m with which one of l, m + l + h, l - m + h and l - 2m + 4h is
    // zero, or two of them are equal or opposite
    const RELATIONS: &[(u64, u64, u64, u64)] = &[(1, 1, 1, 1), (1, 2, 2, 1), (0, 1, 1, 1), (2, 5, 1, 1), (2, 1, 1, 1), (0, 3, 1, 1), (2, 5, 3, 3),
        (0, 2, 1, 1), (1, 2, 1, 1), (1, 0, 1, 1), (1, 3, 2, 2), (1, 5, 2, 2), (0, 0, 1, 1), (4, 10, 2, 2)];
    let (ml, mh, cl, ch) = if r.permille(800) { *r.pick(RELATIONS) } else { (r.below(4), r.below(7), 1 + r.below(2), 1) };
    let times = |x: &Nat, c: u64| x.mul(&Nat::from_u64(c));
    let mut mid = times(&low, ml).add(&times(&high, mh));
    mid = if r.permille(700) { mid.add(&e) } else { mid.sub(&e).unwrap_or(mid) };
    let mut low = times(&low, cl);
    let mut high = times(&high, ch);
    if !fits(&low, k) { low = Nat::zero(); }
    if !fits(&high, high_len) { high = Nat::one(); }
    if !fits(&mid, k) { mid = piece(r, k); }
    shift(&high, 2 * k).add(&shift(&mid, k)).add(&low)
}

fn value_plain(r: &mut Rng, ty: Ty, n: usize) -> Nat {
    let top = radix(ty).wrapping_sub(1);
    let mut d: Vec<u64> = (0..n).map(|_| if top == u64::MAX { r.u64() } else { r.below(top + 1) }).collect();
    if n > 0 && d[n - 1] == 0 { d[n - 1] = 1; }
    Nat::from_digits(&d, ty.bits(), ty.dec())
}

/// A second operand that has something to do with the first.
pub fn related(r: &mut Rng, ty: Ty, a: &Nat, cap: usize) -> Nat {
    let small = Nat::from_u64(r.log(16) - 1);
    match r.below(15) {
        0 => a.clone(),
        1 => a.add(&small),
        2 => a.sub(&small).unwrap_or(small),
        3 => {
            // shares the leading digits
            let d = a.to_digits(ty.bits(), ty.dec());
            if d.is_empty() { return small; }
            let mut e = d.clone();
            let k = r.index(d.len());
            for x in e[..=k].iter_mut() { *x = digit(r, ty); }
            Nat::from_digits(&e, ty.bits(), ty.dec())
        }
        4 => {
            // a prefix of the digits, possibly changed a little
            let d = a.to_digits(ty.bits(), ty.dec());
            if d.is_empty() { return small; }
            let k = r.index(d.len());
            let p = Nat::from_digits(&d[k..], ty.bits(), ty.dec());
            if r.permille(500) { p } else { p.add(&Nat::one()) }
        }
        5 => { let s = 1 + r.index(60); a.shr(s) }
        6 => {
            // complement: the sum is all carries
            let n = a.to_digits(ty.bits(), ty.dec()).len() + r.index(2);
            let mut v = vec![0; n + 1];
            v[n] = 1;
            let p = Nat::from_digits(&v, ty.bits(), ty.dec());
            match p.sub(a) { Some(x) if r.permille(700) => x, Some(x) => x.add(&small), None => small }
        }
        7 => {
            // a divisor with a special quotient
            let k = 1 + r.index(3);
            let q = value(r, ty, k);
            if q.is_zero() { return small; }
            a.divrem(&q).unwrap().0
        }
        8 => {
            // shorter, and split at the same places all the same; its parts depend on each other
            let n = a.to_digits(ty.bits(), ty.dec()).len();
            if n < 5 { return small; }
            let parts = if n < 20 || r.permille(300) { 2 } else { 3 };
            let k = (n + parts - 1) / parts;
            let most = match r.below(3) { 0 => 1, 1 => 3, _ => k }.min(k);
            let len = 1 + r.index(most);
            let mut high = match r.below(3) { 0 => Nat::from_u64(1 + r.below(9)), 1 => value(r, ty, len), _ => value_plain(r, ty, len) };
            if high.is_zero() { high = Nat::one(); }
            let near = |r: &mut Rng| {
                let x = high.mul(&Nat::from_u64(*r.pick(&[0, 1, 1, 1, 2, 3, 4])));
                let e = Nat::from_u64(if r.permille(400) { 0 } else { r.log(5) - 1 });
                if r.permille(500) { x.add(&e) } else { x.sub(&e).unwrap_or(x) }
            };
            let digits = |x: &Nat| {
                let mut d = x.to_digits(ty.bits(), ty.dec());
                d.resize(k, 0);
                d
            };
            let mut d = vec![];
            for _ in 1..parts {
                let x = if r.permille(250) { let m = r.index(k + 1); value(r, ty, m) } else { near(r) };
                d.extend(digits(&x));
            }
            d.extend(high.to_digits(ty.bits(), ty.dec()));
            Nat::from_digits(&d, ty.bits(), ty.dec())
        }
        _ => { let n = size(r, cap); value(r, ty, n) }
    }
}

fn bad_text(r: &mut Rng, ty: Ty, n: usize) -> Vec<u8> {
    let v = value(r, ty, n);
    let mut t = match r.below(4) {
        0 => format!("0x{}", v.to_hex()),
        1 => format!("0x{}", v.to_hex().to_uppercase()),
        _ => v.to_dec(),
    };
    if r.permille(250) {
        let z = "0".repeat(r.log(6) as usize);
        t = if let Some(h) = t.strip_prefix("0x") { format!("0x{}{}", z, h) } else { format!("{}{}", z, t) };
    }
    const STRANGE: &[&str] = &["+", "-", " ", "_", ".", ",", "x", "0x", "g", "G", "a", "F", "\n", "\t", "\0", "/", ":", "@", "`", "é", "٣", "１", "e", "E", "\u{feff}", "++", "+0",
        "X", "0X", "0b", "0o", "-0", "\r", "\r\n", "'", "#", "²", "½", "०", "𝟘", "０", "Ⅻ", "\u{a0}", "\u{200b}", "\u{7f}", "h", "u", "inf", "NaN"];
    for _ in 0..1 + r.below(2) {
        match r.below(12) {
            0 => return Vec::new(),
            1 => return b"0x".to_vec(),
            2 => return STRANGE[r.index(STRANGE.len())].as_bytes().to_vec(),
            3 => t.truncate(t.char_indices().map(|x| x.0).nth(r.index(t.chars().count().max(1))).unwrap_or(0)),
            4 | 5 => { let s = STRANGE[r.index(STRANGE.len())]; t.insert_str(0, s); }
            6 => { let s = STRANGE[r.index(STRANGE.len())]; t.push_str(s); }
            7 => { let s = STRANGE[r.index(STRANGE.len())]; let at = if t.starts_with("0x") { 2 } else { 0 }; t.insert_str(at, s); }
            _ => {
                let idx: Vec<usize> = t.char_indices().map(|x| x.0).collect();
                if idx.is_empty() { continue; }
                let at = idx[r.index(idx.len())];
                let s = STRANGE[r.index(STRANGE.len())];
                if r.permille(700) {
                    let len = t[at..].chars().next().unwrap().len_utf8();
                    t.replace_range(at..at + len, s);
                } else { t.insert_str(at, s); }
            }
        }
    }
    t.into_bytes()
}

impl Gen {
    fn op(&mut self, k: Kind) -> Op {
        let mut o = Op::new(k);
        o.id = self.next_id;
        self.next_id += 1;
        o
    }
    /// An operand of type `ty`, if there is one.
    fn operand(&mut self, ty: Ty, pool_ok: bool) -> Option<u8> {
        let mut c = vec![];
        for (i, v) in self.regs.iter().enumerate() { if v.as_ref().is_some_and(|v| v.0 == ty) { c.push(i as u8); } }
        if pool_ok { for (i, v) in self.pool.iter().enumerate() { if v.0 == ty { c.push(POOL + i as u8); } } }
        if c.is_empty() { None } else { Some(*self.r.pick(&c)) }
    }
    fn nat(&self, r: u8) -> Option<Nat> {
        if r >= POOL { self.pool.get((r - POOL) as usize).map(|v| v.1.clone()) } else { self.regs[r as usize].as_ref().and_then(|v| v.1.clone()) }
    }
    fn ty_at(&self, r: u8) -> Ty { if r >= POOL { self.pool[(r - POOL) as usize].0 } else { self.regs[r as usize].as_ref().unwrap().0 } }
    fn any(&mut self, pool_ok: bool) -> Option<u8> {
        let ty = if self.r.permille(850) { self.ty } else { self.ty.to_dec() };
        let o = self.operand(ty, pool_ok);
        if o.is_some() { return o; }
        let t = self.ty;
        self.operand(t, pool_ok)
    }
    fn free_reg(&mut self) -> u8 {
        for i in 0..REGS { if self.regs[i].is_none() && self.r.permille(600) { return i as u8; } }
        self.r.index(REGS) as u8
    }
    fn set(&mut self, out: &mut Vec<Op>, dst: u8, ty: Ty, v: Nat) {
        let mut o = self.op(Set);
        o.dst = dst;
        o.ty = ty_index(ty);
        o.mode = *self.r.pick(&[0, 0, 0, 1, 2]);
        if o.mode == 0 && self.r.permille(250) { o.n = 1 + self.r.below(5); }
        if v.bits() as u32 <= ty.bits() && self.r.permille(300) { o.mode = 3; }
        o.val = v.clone();
        self.alloc_fault(&mut o);
        self.regs[dst as usize] = Some((ty, Some(v)));
        out.push(o);
    }
    fn alloc_fault(&mut self, o: &mut Op) {
        if !self.faulty || !self.r.permille(self.p.alloc_fault) { return; }
        o.f.alloc = *self.r.pick(&[1, 1, 1, 2, 2, 3, 4]);
        o.f.rehearsed = self.r.permille(600);
        o.f.at = if o.f.rehearsed { self.r.below(1024) } else {
            match o.f.alloc { 1 | 2 => self.r.log(6), _ => self.r.log(12) }
        };
    }
    fn sink_fault(&mut self, o: &mut Op, stream: bool) {
        if !self.faulty || !self.r.permille(self.p.sink_fault) { return; }
        if stream {
            o.f.sink = *self.r.pick(&sinks::IO_KINDS);
        } else {
            o.f.sink = *self.r.pick(&sinks::TEXT_KINDS);
        }
        o.f.sink_at = match o.f.sink {
            sinks::ERR_CALL => self.r.log(7),
            sinks::IO_SHORT | sinks::IO_EINTR | sinks::IO_BOTH => self.r.below(64),
            _ => match self.r.below(5) { 0 => 0, 1 => 1023, _ => self.r.below(1024) },
        };
    }
    fn fits(&self, bits: usize) -> bool { bits <= (self.cap * 3).max(12) * self.ty.bits() as usize && bits < MAX_BITS }

    fn step(&mut self, out: &mut Vec<Op>, kind: Kind) {
        let ty = self.ty;
        let refuse = self.r.permille(self.p.refuse);
        match kind {
            Set => {
                let t = if self.r.permille(850) { ty } else { ty.to_dec() };
                let n = size(&mut self.r, self.cap);
                let d = self.free_reg();
                let v = value(&mut self.r, t, n);
                self.set(out, d, t, v);
            }
            Parse => {
                let mut o = self.op(Parse);
                let t = if self.r.permille(600) { ty } else { ty_of(self.r.below(8) as u8) };
                o.ty = ty_index(t);
                o.dst = self.free_reg();
                let n = size(&mut self.r, self.cap);
                if refuse || self.r.permille(400) { o.text = bad_text(&mut self.r, t, n); } else {
                    let v = value(&mut self.r, t, n);
                    let mut s = match self.r.below(3) { 0 => format!("0x{}", v.to_hex()), 1 => format!("0x{}", v.to_hex().to_uppercase()), _ => v.to_dec() };
                    if self.r.permille(200) { let at = if s.starts_with("0x") { 2 } else { 0 }; s.insert_str(at, &"0".repeat(self.r.log(7) as usize)); }
                    o.text = s.into_bytes();
                }
                if let Some(v) = std::str::from_utf8(&o.text).ok().and_then(Nat::parse) { self.regs[o.dst as usize] = Some((t, Some(v))); }
                self.alloc_fault(&mut o);
                out.push(o);
            }
            Bin | DivAssign | RemAssign => {
                let t = if self.r.permille(800) { ty } else { ty.to_dec() };
                // operands: fresh related literals, or what is there
                let in_place = kind != Bin || self.r.permille(self.p.in_place);
                let f = if kind == Bin { *self.r.pick(&[0u8, 0, 1, 1, 1, 2, 2, 3, 3, 4, 4]) } else { 3 };
                let a = match self.operand(t, !in_place) {
                    Some(a) if self.r.permille(750) => a,
                    _ => {
                        let d = self.free_reg();
                        let n = size(&mut self.r, self.cap);
                        let v = value(&mut self.r, t, n);
                        self.set(out, d, t, v);
                        d
                    }
                };
                let x = self.nat(a);
                let mut b = match self.operand(t, true) { Some(b) if self.r.permille(450) => b, _ => 255 };
                if refuse && f != 0 && f != 2 { b = 255; }
                if b == 255 {
                    let base = x.clone().unwrap_or_else(|| Nat::from_u64(77));
                    let mut v = related(&mut self.r, t, &base, self.cap);
                    if matches!(bin_of(f), self::Bin::Div | self::Bin::Rem) && self.r.permille(350) {
                        // a quotient and remainder chosen first
                        let n = size(&mut self.r, (self.cap / 2).max(2));
                        let q = value(&mut self.r, t, n);
                        let n = size(&mut self.r, (self.cap / 2).max(2));
                        v = value(&mut self.r, t, n.max(1));
                        let rem = match self.r.below(4) { 0 => Nat::zero(), 1 => v.sub(&Nat::one()).unwrap_or_default(), 2 => Nat::one(), _ => { let k = self.r.index(n + 1); value(&mut self.r, t, k) } };
                        let num = q.mul(&v).add(&rem);
                        if a < POOL && self.fits(num.bits()) { self.set(out, a, t, num); }
                    }
                    if refuse {
                        v = match bin_of(f) {
                            self::Bin::Sub => { let n = size(&mut self.r, 3); let d = value(&mut self.r, t, n); base.add(&d).add(&Nat::one()) }
                            self::Bin::Div | self::Bin::Rem => Nat::zero(),
                            _ => v,
                        };
                    } else if v.is_zero() && matches!(bin_of(f), self::Bin::Div | self::Bin::Rem) { v = Nat::one(); }
                    let mut d = self.free_reg();
                    if d == a { d = (d + 1) % REGS as u8; }
                    self.set(out, d, t, v);
                    b = d;
                }
                let (mut a, mut b) = (a, b);
                // avoid most accidental underflow
                if bin_of(f) == self::Bin::Sub && !refuse && (!in_place || b < POOL) {
                    if let (Some(x), Some(y)) = (self.nat(a), self.nat(b)) { if x.lt(&y) && !self.r.permille(50) { std::mem::swap(&mut a, &mut b); } }
                }
                if self.r.permille(40) && kind == Bin { b = a; }
                let (x, y) = (self.nat(a), self.nat(b));
                if matches!(bin_of(f), self::Bin::Div | self::Bin::Rem) && !refuse && y.as_ref().is_some_and(|y| y.is_zero()) && !self.r.permille(100) { return; }
                if bin_of(f) == self::Bin::Mul {
                    if let (Some(x), Some(y)) = (&x, &y) { if !self.fits(x.bits() + y.bits()) { return; } } else { return; }
                }
                let mut o = self.op(kind);
                o.sub = f;
                o.a = a;
                o.b = b;
                o.mode = if kind != Bin { 4 } else if in_place && a < POOL { 4 + self.r.below(2) as u8 } else { self.r.below(4) as u8 };
                if kind == Bin && !(o.mode >= 4) && self.r.permille(300) { o.m = 1; }
                o.dst = if self.r.permille(300) && a < POOL && kind == Bin { a } else { self.free_reg() };
                self.alloc_fault(&mut o);
                let res = match (&x, &y) {
                    (Some(x), Some(y)) => match bin_of(f) {
                        self::Bin::Add => Some(x.add(y)),
                        self::Bin::Sub => x.sub(y),
                        self::Bin::Mul => Some(x.mul(y)),
                        self::Bin::Div => x.divrem(y).map(|q| if kind == RemAssign { q.1 } else { q.0 }),
                        self::Bin::Rem => x.divrem(y).map(|q| q.1),
                    },
                    _ => None,
                };
                let known = x.is_some() && y.is_some();
                let moved = kind == Bin && o.mode < 4 && o.m == 1 && o.mode >= 2 && a < POOL && o.f.alloc == 0 && a != b && res.is_some();
                if moved { self.regs[a as usize] = None; }
                let target = if o.mode >= 4 { a } else { o.dst };
                if kind == DivAssign && o.dst != a && o.dst != b && res.is_some() {
                    let rem = x.as_ref().unwrap().divrem(y.as_ref().unwrap()).map(|q| q.1);
                    self.regs[o.dst as usize] = Some((t, rem));
                }
                if target < POOL { if res.is_some() { self.regs[target as usize] = Some((t, res)); } else if !known { self.regs[target as usize] = Some((t, None)); } }
                out.push(o);
            }
            Word | Digit => {
                let Some(a) = self.any(true) else { return self.step(out, Set) };
                let t = self.ty_at(a);
                let in_place = a < POOL && self.r.permille(self.p.in_place);
                let mut f = *self.r.pick(&[0u8, 0, 1, 1, 2, 2, 3, 3, 4]);
                let mut o = self.op(kind);
                o.a = a;
                o.mode = if in_place { 4 } else { self.r.below(2) as u8 };
                o.dst = self.free_reg();
                let all = if t.bits() == 64 { u64::MAX } else { (1 << t.bits()) - 1 };
                let mut v = if kind == Word && t.dec() && self.r.permille(450) {
                    // a word that needs two decimal digits
                    let r = radix(t);
                    match self.r.below(4) { 0 => r, 1 => r + self.r.below(2), 2 => all - self.r.below(3), _ => r + self.r.below(all - r) }
                } else { digit(&mut self.r, t) };
                let x = self.nat(a);
                if refuse { f = *self.r.pick(&[1, 3, 4, 3, 4]); if f >= 3 { v = 0; } }
                if let Some(x) = &x {
                    if refuse && f == 1 {
                        if x.bits() as u32 >= t.bits() { f = 3; v = 0; } else { let lo = x.0.first().copied().unwrap_or(0); v = (lo.saturating_add(self.r.log(4))).min(all); }
                    } else if !refuse && f == 1 && x.lt(&Nat::from_u64(v)) { v = match self.r.below(3) { 0 => x.0.first().copied().unwrap_or(0), 1 => 0, _ => x.0.first().map_or(0, |&l| self.r.below(l.max(1))) }; }
                    if f == 2 && !self.fits(x.bits() + 64) { return; }
                }
                if !refuse && v == 0 && f >= 3 { v = 1 + self.r.below(radix(t).wrapping_sub(1).max(1)).min(all - 1); }
                if kind == Digit && t.dec() { v %= radix(t); if v == 0 && f >= 3 && !refuse { v = 1; } }
                o.sub = f;
                o.n = v;
                self.alloc_fault(&mut o);
                let y = Nat::from_u64(v);
                let target = if in_place { a } else { o.dst };
                match x.map(|x| match bin_of(f) { self::Bin::Add => Some(x.add(&y)), self::Bin::Sub => x.sub(&y), self::Bin::Mul => Some(x.mul(&y)), self::Bin::Div => x.divrem(&y).map(|q| q.0), self::Bin::Rem => x.divrem(&y).map(|q| q.1) }) {
                    Some(Some(v)) => self.regs[target as usize] = Some((t, Some(v))),
                    Some(None) => {}
                    None => self.regs[target as usize] = Some((t, None)),
                }
                out.push(o);
            }
            Shift => {
                let Some(a) = self.any(true) else { return self.step(out, Set) };
                let t = self.ty_at(a);
                let x = self.nat(a);
                let mut o = self.op(Shift);
                o.a = a;
                o.sub = self.r.below(2) as u8;
                let in_place = a < POOL && self.r.permille(self.p.in_place);
                o.mode = if in_place { 4 } else { self.r.below(2) as u8 };
                o.dst = self.free_reg();
                let w = t.bits() as u64;
                let bits = x.as_ref().map_or(64, |x| x.bits()) as u64;
                o.n = match self.r.below(8) {
                    0 => 0,
                    1 => w * self.r.below(6),
                    2 => w * self.r.below(6) + w - 1,
                    3 => self.r.below(w),
                    4 => bits.saturating_sub(1) + self.r.below(4),
                    5 => self.r.below(bits + 2 * w),
                    6 => self.r.log(9),
                    _ => bits / w * w + self.r.below(2 * w),
                };
                if o.sub == 0 && self.r.permille(40) { o.n = extreme(&mut self.r); }
                let nothing = x.as_ref().is_some_and(|x| x.is_zero());
                if o.sub == 1 && nothing && self.r.permille(300) { o.n = extreme(&mut self.r); }
                else if o.sub == 1 && (!self.fits(bits as usize + o.n as usize) || o.n > 20_000) { o.n %= 40; }
                if let Some(x) = &x { if o.sub == 1 && !nothing && !self.fits(x.bits() + o.n as usize) { return; } }
                self.alloc_fault(&mut o);
                let v = x.map(|x| if o.sub == 1 { x.shl(o.n as usize) } else { x.shr(o.n as usize) });
                self.regs[if in_place { a } else { o.dst } as usize] = Some((t, v));
                out.push(o);
            }
            Pow => {
                let Some(mut a) = self.any(true) else { return self.step(out, Set) };
                let t = self.ty_at(a);
                if self.nat(a).is_none_or(|x| x.bits() > 80) || self.r.permille(400) {
                    let d = self.free_reg();
                    let n = self.r.index(3);
                    let v = value(&mut self.r, t, n);
                    self.set(out, d, t, v);
                    a = d;
                }
                let x = self.nat(a).unwrap();
                let mut o = self.op(Pow);
                o.a = a;
                o.mode = self.r.below(2) as u8;
                o.dst = self.free_reg();
                let room = (self.cap * 2 * t.bits() as usize).max(40) / x.bits().max(1);
                o.n = match self.r.below(4) { 0 => self.r.below(4), 1 => { let b = self.r.below(8); (1u64 << b) - self.r.below(2) } _ => self.r.below(room as u64 + 1) };
                if x.bits() > 1 && o.n as usize > room { o.n = room as u64; }
                if x.bits() <= 1 && self.r.permille(150) { o.n = extreme(&mut self.r); }
                self.alloc_fault(&mut o);
                let v = if x.bits() <= 1 { if o.n == 0 { Nat::one() } else { x } } else { x.pow(o.n as usize) };
                self.regs[o.dst as usize] = Some((t, Some(v)));
                out.push(o);
            }
            Square | ToDec | Clone => {
                let Some(a) = self.any(true) else { return self.step(out, Set) };
                let t = self.ty_at(a);
                let x = self.nat(a);
                if kind == Square && x.as_ref().is_none_or(|x| !self.fits(2 * x.bits())) { return; }
                if kind == ToDec && t.dec() { return; }
                let mut o = self.op(kind);
                o.a = a;
                o.dst = self.free_reg();
                if kind == Clone && o.dst == a { return; }
                self.alloc_fault(&mut o);
                let (nt, v) = match kind { Square => (t, x.map(|x| x.mul(&x))), ToDec => (t.to_dec(), x), _ => (t, x) };
                self.regs[o.dst as usize] = Some((nt, v));
                out.push(o);
            }
            CloneFrom => {
                let Some(a) = self.any(true) else { return self.step(out, Set) };
                let t = self.ty_at(a);
                let Some(d) = self.operand(t, false) else { return };
                if d == a { return; }
                let mut o = self.op(CloneFrom);
                o.a = a;
                o.dst = d;
                self.alloc_fault(&mut o);
                self.regs[d as usize] = Some((t, self.nat(a)));
                out.push(o);
            }
            Cmp => {
                let Some(a) = self.any(true) else { return self.step(out, Set) };
                let t = self.ty_at(a);
                let mut b = self.operand(t, true).unwrap();
                if self.r.permille(500) {
                    if let Some(x) = self.nat(a) {
                        let v = related(&mut self.r, t, &x, self.cap);
                        let mut d = self.free_reg();
                        if d == a { d = (d + 1) % REGS as u8; }
                        self.set(out, d, t, v);
                        b = d;
                    }
                }
                let mut o = self.op(Cmp);
                o.a = a;
                o.b = b;
                out.push(o);
            }
            Write | Store => {
                let Some(a) = self.any(true) else { return self.step(out, Set) };
                let t = self.ty_at(a);
                let mut o = self.op(kind);
                o.a = a;
                let base = if t.dec() { *self.r.pick(&[0u8, 0, 0, 0, 0, 3]) } else { *self.r.pick(&[0u8, 0, 1, 1, 2, 2, 3]) };
                let style = if self.r.permille(400) { 0 } else { self.r.below(subject::STYLES as u64) as u8 };
                o.sub = base << 4 | style;
                let len = self.nat(a).map_or(20, |x| x.bits() / 3 + 2) as u64;
                o.n = match self.r.below(4) { 0 => self.r.below(8), 1 => len + self.r.below(12), 2 => self.r.below(len + 4), _ => self.r.log(8) }.min(4000);
                if kind == Store {
                    o.mode = 1;
                    o.dst = self.r.below(SLOTS as u64) as u8;
                    self.slots[o.dst as usize] = Some(0);
                    if self.r.permille(500) { o.f = Default::default(); } else { self.sink_fault(&mut o, true); }
                } else {
                    o.mode = *self.r.pick(&[0u8, 0, 1, 1, 2]);
                    let stream = o.mode == 1;
                    self.sink_fault(&mut o, stream);
                    if o.mode == 2 { o.f.sink = 0; }
                }
                if o.f.sink == 0 { self.alloc_fault(&mut o); }
                out.push(o);
            }
            Sync => {
                let used: Vec<u8> = (0..SLOTS as u8).filter(|&i| self.slots[i as usize].is_some()).collect();
                if used.is_empty() { return; }
                let mut o = self.op(Sync);
                o.dst = *self.r.pick(&used);
                if self.faulty && self.r.permille(100) { o.f.sink = 1; }
                out.push(o);
            }
            Load => {
                let used: Vec<u8> = (0..SLOTS as u8).filter(|&i| self.slots[i as usize].is_some()).collect();
                if used.is_empty() { return; }
                let mut o = self.op(Load);
                o.a = *self.r.pick(&used);
                o.ty = self.r.below(8) as u8;
                o.dst = self.free_reg();
                self.regs[o.dst as usize] = Some((ty_of(o.ty), None));
                out.push(o);
            }
            Drop => {
                let Some(a) = self.any(false) else { return };
                let mut o = self.op(Drop);
                o.dst = a;
                self.regs[a as usize] = None;
                out.push(o);
            }
            Send => {
                let Some(a) = self.any(true) else { return };
                let mut o = self.op(Send);
                o.a = a;
                o.mode = self.r.below(2) as u8;
                o.dst = self.r.below(MAILS as u64) as u8;
                if o.mode == 1 && a < POOL { self.regs[a as usize] = None; }
                out.push(o);
            }
            Recv => {
                let mut o = self.op(Recv);
                o.a = self.r.below(MAILS as u64) as u8;
                o.dst = self.free_reg();
                self.regs[o.dst as usize] = None;
                out.push(o);
            }
            Unit => {
                let mut o = self.op(Unit);
                o.mode = self.r.below(5) as u8;
                if o.mode < 2 {
                    o.ty = ty_index(ty);
                    o.dst = self.free_reg();
                    self.regs[o.dst as usize] = Some((ty, Some(Nat::from_u64(o.mode as u64))));
                } else {
                    let Some(a) = self.any(o.mode == 4) else { return };
                    o.a = a;
                    if o.mode < 4 { let t = self.ty_at(a); self.regs[a as usize] = Some((t, Some(Nat::from_u64((o.mode & 1) as u64)))); }
                }
                self.alloc_fault(&mut o);
                out.push(o);
            }
            Park => {
                let Some(a) = self.any(true) else { return self.step(out, Set) };
                if self.nat(a).is_none_or(|v| v.bits() > 6000) { return; }
                let mut o = self.op(Park);
                o.a = a;
                o.sub = self.r.below(8) as u8;
                o.mode = self.r.below(3) as u8;
                out.push(o);
            }
            Digits => {}
        }
    }
    /// A request from within this one, perhaps.
    fn nest(&mut self, o: &mut Op) {
        if !self.r.permille(self.p.nest) { return; }
        let Some(b) = self.any(true) else { return };
        if self.nat(b).is_none_or(|v| v.bits() > 6000) { return; }
        let panics = o.f.sink == sinks::PANIC_AT || o.f.sink == sinks::IO_PANIC;
        let text = matches!(o.k, Write | Store) && o.mode != 2;
        if !text && o.f.alloc == 0 && !matches!(o.k, Bin | Word | Digit) { return; }
        o.f.nest = if !text { crate::exec::IN_HOOK } else if panics && self.r.permille(600) { crate::exec::IN_PANIC } else if self.r.permille(900) { crate::exec::IN_WRITE } else { crate::exec::IN_HOOK };
        o.f.nest_kind = if text && self.r.permille(400) { 0 } else { self.r.below(8) as u8 };
        o.f.nest_reg = if text && self.r.permille(300) { o.a } else { b };
        o.f.nest_at = if self.r.permille(700) { 0 } else { self.r.log(5) };
    }

    /// A different number that a careless memo might take for `v`.
    fn lookalike(&mut self, ty: Ty, v: &Nat) -> Nat {
        let mut d = v.to_digits(ty.bits(), ty.dec());
        let n = d.len();
        let top = radix(ty).wrapping_sub(1);
        if n == 0 { return Nat::one(); }
        match self.r.below(9) {
            // one digit differs, mostly an inner one
            0 | 1 => { let i = if n > 2 { 1 + self.r.index(n - 2) } else { self.r.index(n) }; d[i] = if self.r.permille(500) { digit(&mut self.r, ty) } else { d[i] ^ 1 }.min(top); }
            2 => { let i = self.r.index(n); let j = self.r.index(n); d.swap(i, j); }
            3 => { if n > 2 { d[1..n - 1].reverse(); } else { d.reverse(); } }
            4 => {
                // the same sum of digits
                let (i, j) = (self.r.index(n), self.r.index(n));
                if i != j && d[i] < top && d[j] > 0 { d[i] += 1; d[j] -= 1; }
            }
            5 => { let keep = 1 + self.r.index(n.min(3)); for x in d[..n - keep].iter_mut() { *x = digit(&mut self.r, ty); } }
            6 => { let keep = 1 + self.r.index(n.min(3)); for x in d[keep..].iter_mut() { *x = digit(&mut self.r, ty); } }
            7 => { d.remove(self.r.index(n)); }
            _ => for x in d.iter_mut() { *x = digit(&mut self.r, ty); },
        }
        if d.last() == Some(&0) { let e = d.len() - 1; d[e] = 1; }
        Nat::from_digits(&d, ty.bits(), ty.dec())
    }

    /// A question, asked again and again, of the same and of similar numbers.
    fn repeats(&mut self, n: u64) -> Vec<Op> {
        self.regs = vec![None; REGS];
        let mut out = vec![];
        while (out.len() as u64) < n {
            let t = if self.r.permille(800) { self.ty } else { self.ty.to_dec() };
            let kind = *self.r.pick(&[Bin, Bin, Bin, Bin, Bin, Word, Shift, Pow, Square, ToDec, Write, Write, Parse, DivAssign, RemAssign, Cmp]);
            let kind = if kind == ToDec && t.dec() { Pow } else { kind };
            let f = *self.r.pick(&[0u8, 1, 2, 2, 3, 3, 4]);
            let half = matches!(kind, Square) || (kind == Bin && f == 2);
            let cap = if kind == Pow { 3 } else if half { (self.cap * 3 / 4).max(2) } else { self.cap };
            let (ln, lm) = (size(&mut self.r, cap).max(1), size(&mut self.r, cap).max(1));
            let lm = if f >= 3 && ln > 2 && self.r.permille(700) { lm.min(ln) } else { lm };
            let (mut x, mut y) = (value(&mut self.r, t, ln), value(&mut self.r, t, lm));
            let first = (x.clone(), y.clone());
            let word = digit(&mut self.r, t).max(1);
            let e = 1 + self.r.below(6);
            let sh = self.r.below(3 * t.bits() as u64);
            let mode = match kind { Bin => self.r.below(4), Write => *self.r.pick(&[0, 1]), DivAssign | RemAssign => 4, _ => self.r.below(2) } as u8;
            let base = if t.dec() { 0 } else { self.r.below(3) as u8 };
            for again in 0..3 + self.r.below(4) {
                if again > 0 {
                    match self.r.below(5) {
                        0 => x = self.lookalike(t, &x),
                        1 => y = self.lookalike(t, &y),
                        2 => { x = self.lookalike(t, &x); y = self.lookalike(t, &y); }
                        3 => { x = first.0.clone(); y = first.1.clone(); }
                        _ => {}
                    }
                }
                let (mut p, mut q) = (x.clone(), y.clone());
                if q.is_zero() { q = Nat::one(); }
                if kind == Bin && f == 1 && p.lt(&q) { std::mem::swap(&mut p, &mut q); }
                if kind == Parse {
                    let mut o = self.op(Parse);
                    o.ty = ty_index(t);
                    o.dst = 2;
                    o.text = if base == 0 { p.to_dec() } else { format!("0x{}", p.to_hex()) }.into_bytes();
                    self.alloc_fault(&mut o);
                    out.push(o);
                    continue;
                }
                // into the same places, so that new operands lie where the old ones did
                self.set(&mut out, 0, t, p);
                if matches!(kind, Bin | DivAssign | RemAssign | Cmp) { self.set(&mut out, 1, t, q); }
                let mut o = self.op(kind);
                o.a = 0;
                o.b = 1;
                o.dst = 2;
                o.mode = mode;
                o.sub = match kind { Bin => f, DivAssign | RemAssign => 3, Word => f, Shift => (sh & 1) as u8, Write => base << 4, _ => 0 };
                o.n = match kind { Word => if f == 1 { 1 } else { word }, Shift => sh, Pow => e, _ => 0 };
                if kind == Word && f == 1 && self.nat(0).is_some_and(|v| v.is_zero()) { continue; }
                if kind == Write { let stream = mode == 1; self.sink_fault(&mut o, stream); }
                if o.f.sink == 0 { self.alloc_fault(&mut o); }
                self.nest(&mut o);
                out.push(o);
            }
        }
        out
    }

    /// Updates in place that undo each other, so that the numbers can be kept and updated for ever.
    fn cycle(&mut self, n: u64) -> Vec<Op> {
        self.regs = vec![None; REGS];
        let mut out = vec![];
        let t = self.ty;
        let (ln, lm) = (size(&mut self.r, self.cap).max(1), size(&mut self.r, self.cap).max(1));
        let (x, y) = (value(&mut self.r, t, ln), value(&mut self.r, t, lm.min(ln)));
        let y = if y.is_zero() { Nat::one() } else { y };
        self.set(&mut out, 0, t, x);
        self.set(&mut out, 1, t, y);
        let mut undo = vec![];
        for _ in 0..n.min(4) {
            let place = 4 + self.r.below(2) as u8;
            let mut o = self.op(Bin);
            o.mode = place;
            o.b = 1;
            let mut u = self.op(Bin);
            u.mode = place;
            u.b = 1;
            match self.r.below(8) {
                0 => { o.sub = 0; u.sub = 1; }
                1 => { o.sub = 2; u.sub = 3; if !self.fits(2 * self.cap * t.bits() as usize) { continue; } }
                2 => { o.k = Shift; o.mode = 4; o.sub = 1; o.n = 1 + self.r.below(5 * t.bits() as u64); u.k = Shift; u.mode = 4; u.sub = 0; u.n = o.n; }
                3 | 4 => {
                    let k = *self.r.pick(&[Word, Digit]);
                    let f = *self.r.pick(&[0u8, 2]);
                    let v = digit(&mut self.r, t).max(1);
                    o.k = k; o.mode = 4; o.sub = f; o.n = v;
                    u.k = k; u.mode = 4; u.sub = f + 1; u.n = v;
                }
                5 => { o.k = CloneFrom; o.a = 0; o.dst = 2 + self.r.below(2) as u8; u.k = CloneFrom; u.a = o.dst; u.dst = 0; if !out.iter().any(|x: &Op| x.dst == o.dst && x.k == Set) { let v = Nat::from_u64(7); self.set(&mut out, o.dst, t, v); } }
                6 => {
                    o.k = Write;
                    o.sub = if t.dec() { 0 } else { (self.r.below(3) as u8) << 4 };
                    o.mode = *self.r.pick(&[0, 1]);
                    u = o.clone();
                    let stream = o.mode == 1;
                    self.sink_fault(&mut o, stream);
                    u.id = self.next_id;
                    self.next_id += 1;
                }
                _ => { o.k = Bin; o.mode = self.r.below(4) as u8; o.dst = 4; o.sub = *self.r.pick(&[0, 2, 3]); self.alloc_fault(&mut o); u.k = Cmp; u.a = 0; u.b = 1; }
            }
            out.push(o);
            undo.push(u);
            // nested or one after the other
            while !undo.is_empty() && self.r.permille(500) { out.push(undo.pop().unwrap()); }
        }
        while let Some(u) = undo.pop() { out.push(u); }
        out
    }

    /// Requests whose intermediate results are extreme: parts that cancel, quotients of the largest
    /// digits, remainders of nothing or of everything.
    fn corners(&mut self, n: u64) -> Vec<Op> {
        self.regs = vec![None; REGS];
        let mut out = vec![];
        for _ in 0..n.clamp(1, 6) {
            let t = self.ty;
            let len = match self.r.below(8) {
                0 | 1 => 4 + self.r.index(60),
                2 => 126 + self.r.index(10),
                3 => 20 + self.r.index(120),
                4 | 5 => 128 + self.r.index(250),
                _ => 382 + self.r.index(10),
            };
            let a = if self.r.permille(900) { parts(&mut self.r, t, len, 0) } else { value(&mut self.r, t, len) };
            let other = match self.r.below(6) { 0 => len, 1 => len.saturating_sub(self.r.index(4)).max(1), 2 => len + self.r.index(4), _ => 1 + self.r.index(len) };
            let b = if self.r.permille(700) { parts(&mut self.r, t, other, 0) } else { value(&mut self.r, t, other) };
            let mut o;
            match self.r.below(10) {
                0..=2 => {
                    self.set(&mut out, 0, t, a);
                    o = self.op(Square);
                }
                3 => {
                    self.set(&mut out, 0, t, a);
                    o = self.op(Pow);
                    o.n = 2 + self.r.below(if len < 140 { 3 } else { 1 });
                    o.mode = self.r.below(2) as u8;
                }
                4 | 5 => {
                    self.set(&mut out, 0, t, a);
                    self.set(&mut out, 1, t, b);
                    o = self.op(Bin);
                    o.sub = 2;
                    o.mode = self.r.below(4) as u8;
                }
                _ => {
                    // a dividend made of the quotient and the remainder
                    let b = if b.is_zero() { Nat::one() } else { b };
                    let q = { let k = match self.r.below(4) { 0 => 1 + self.r.index(3), 1 => other, _ => 1 + self.r.index(other.max(40)) }; value(&mut self.r, t, k) };
                    let rem = match self.r.below(4) {
                        0 => Nat::zero(),
                        1 => b.sub(&Nat::one()).unwrap(),
                        2 => { let s = Nat::from_u64(self.r.log(9)); b.sub(&s).unwrap_or_default() }
                        _ => { let k = self.r.index(other + 1); let x = value(&mut self.r, t, k); if x.lt(&b) { x } else { Nat::zero() } }
                    };
                    self.set(&mut out, 0, t, q.mul(&b).add(&rem));
                    self.set(&mut out, 1, t, b);
                    let kind = *self.r.pick(&[Bin, Bin, DivAssign, RemAssign]);
                    o = self.op(kind);
                    o.sub = if o.k == Bin { 3 + self.r.below(2) as u8 } else { 3 };
                    o.mode = if o.k == Bin { self.r.below(4) as u8 } else { 4 };
                }
            }
            o.a = 0;
            o.b = 1;
            o.dst = 2 + self.r.below(3) as u8;
            self.alloc_fault(&mut o);
            out.push(o);
        }
        out
    }

    /// Cheap requests on very long numbers: whatever needs a stack frame, or
    /// a pass over the whole number, per digit does not get through.
    fn huge(&mut self, n: u64) -> Vec<Op> {
        self.regs = vec![None; REGS];
        let mut out = vec![];
        let t = self.ty;
        let most = if t.dec() { 72_000 / t.bits() as u64 } else { (480_000 / t.bits() as u64).min(60_000) };
        let mut len = (most / *self.r.pick(&[1, 1, 1, 2, 5])) as usize;
        // more digits than sixteen bits can count
        if !t.dec() && self.r.permille(200) { len = (1 << 16) - 2 + self.r.index(600); }
        let word = if t.dec() { 3 } else { t.bits() as usize };
        let a = match self.r.below(4) {
            0 => { let mut d = vec![radix(t).wrapping_sub(1); len]; if self.r.permille(300) { d[0] = 0; } Nat::from_digits(&d, t.bits(), t.dec()) }
            1 => { let mut d = vec![0; len]; d[len - 1] = 1; Nat::from_digits(&d, t.bits(), t.dec()) }
            _ => value_plain(&mut self.r, t, len),
        };
        let small = Nat::from_u64(self.r.log(20) + 1);
        for _ in 0..n.min(5) {
            let mode = self.r.below(6) as u8;
            self.set(&mut out, 0, t, a.clone());
            let pick = self.r.below(14);
            let mut o;
            match pick {
                0..=3 => {
                    // a difference that is almost nothing
                    let b = match self.r.below(3) { 0 => a.clone(), 1 => a.sub(&small).unwrap(), _ => { let k = 1 + self.r.index(200) * word; a.shr(k).shl(k) } };
                    self.set(&mut out, 1, t, b);
                    o = self.op(if pick == 3 { Cmp } else { Bin });
                    o.sub = 1;
                    o.mode = mode;
                }
                4 => { self.set(&mut out, 1, t, small.clone()); o = self.op(Bin); o.sub = *self.r.pick(&[0, 2, 3, 4]); o.mode = mode; }
                5 => {
                    // almost equal: a quotient of one digit
                    let b = a.sub(&small).unwrap();
                    let near = if self.r.permille(500) { b } else { a.shr(word * self.r.index(3)).add(&Nat::one()) };
                    if len > 6_000 { continue; }
                    self.set(&mut out, 1, t, near);
                    o = self.op(if mode < 4 { Bin } else { RemAssign });
                    o.sub = 3 + self.r.below(2) as u8;
                    o.mode = mode;
                }
                6 | 7 => {
                    o = self.op(Shift);
                    o.sub = self.r.below(2) as u8;
                    o.mode = if mode < 4 { mode & 1 } else { 4 };
                    let b = a.bits() as u64;
                    o.n = if o.sub == 1 { self.r.below(3 * t.bits() as u64) } else { *self.r.pick(&[1, b - 1, b, b / 2, b + 5]) };
                }
                8 | 9 => {
                    let k = *self.r.pick(&[Word, Digit]);
                    o = self.op(k);
                    o.sub = self.r.below(5) as u8;
                    o.n = digit(&mut self.r, t).max(1);
                    o.mode = if mode < 4 { mode & 1 } else { 4 };
                }
                10 => {
                    o = self.op(Parse);
                    o.ty = ty_index(t);
                    let z = "0".repeat(2 * len);
                    let tail = *self.r.pick(&["", "1", "7fffff", "g"]);
                    o.text = format!("{}{}{}", if self.r.permille(500) { "0x" } else { "" }, z, tail).into_bytes();
                }
                11 => {
                    // digits that are nearly all superfluous
                    o = self.op(Set);
                    o.ty = ty_index(t);
                    o.val = small.clone();
                    o.n = len as u64;
                }
                12 => { o = self.op(Clone); }
                _ => {
                    o = self.op(Write);
                    o.sub = if t.dec() { 0 } else { 1 << 4 };
                    o.mode = *self.r.pick(&[0, 1]);
                    let stream = o.mode == 1;
                    self.sink_fault(&mut o, stream);
                }
            }
            o.a = 0;
            o.b = 1;
            o.dst = 2 + self.r.below(3) as u8;
            if o.f.sink == 0 { self.alloc_fault(&mut o); }
            self.regs[0] = None;
            out.push(o);
        }
        // not by way of texts in the other base: that takes quadratic time
        for o in out.iter_mut() { if o.k == Set && (o.mode == 1 || t.dec()) && o.mode < 3 { o.mode = if t.dec() { 0 } else { 2 }; } }
        out
    }

    fn program(&mut self, n: u64) -> Vec<Op> {
        if self.r.permille(self.p.repeats) { return self.repeats(n); }
        if self.r.permille(self.p.corners) { return self.corners(n); }
        self.regs = vec![None; REGS];
        let total: u64 = self.p.kinds.iter().map(|k| k.1).sum();
        let mut out = vec![];
        let mut tries = 0;
        while (out.len() as u64) < n && tries < 4 * n {
            tries += 1;
            let kind = match self.focus {
                Some(k) if self.r.permille(600) => k,
                _ => {
                    let mut x = self.r.below(total);
                    let mut it = self.p.kinds.iter();
                    loop {
                        let k = it.next().unwrap();
                        if x < k.1 { break k.0; }
                        x -= k.1;
                    }
                }
            };
            let before = out.len();
            self.step(&mut out, kind);
            if out.len() > before {
                let mut o = out.pop().unwrap();
                self.nest(&mut o);
                out.push(o);
            }
        }
        out
    }
}

fn policy(r: &mut Rng, threads: usize) -> Policy {
    let mut p = Policy::default();
    if threads < 2 { return p; }
    match r.below(10) {
        0 => {}
        1 | 2 => { p.pct = true; p.gap_bits = *r.pick(&[8, 10, 12, 14, 16]); }
        3 => p.p_bound = 500,
        _ => { p.gap_bits = *r.pick(&[3, 5, 7, 8, 9, 10, 11, 12, 14, 16]); }
    }
    if r.permille(600) { p.p_static = *r.pick(&[50, 200, 500]); p.p_foreign = *r.pick(&[50, 200, 500]); }
    if r.permille(400) { p.p_alloc = *r.pick(&[20, 100, 300]); }
    if r.permille(300) { p.p_bound = *r.pick(&[100, 500]); }
    p
}

pub fn plan(property: &str, seed: u64, run: u64) -> Plan {
    let p = profile(property).expect("unknown property");
    let mut r = Rng::new(crate::rng::mix(seed) ^ crate::rng::mix(run.wrapping_add(0x1000)), 0x91a4);
    let ty = ty_of(r.below(8) as u8);
    let w: u64 = p.scale.iter().sum();
    let mut x = r.below(w);
    let mut class = 0;
    while x >= p.scale[class] { x -= p.scale[class]; class += 1; }
    let cap = [[3, 6, 10][r.index(3)], [18, 24, 44][r.index(3)], [70, 110, 140][r.index(3)], [200, 300, 400][r.index(3)]][class];
    let faulty = !r.permille(p.fault_free_runs);
    // swarm: a run stresses a few kinds of operation more than the rest
    let focus = if r.permille(350) { let t: u64 = p.kinds.iter().map(|k| k.1).sum(); let mut x = r.below(t); let mut i = 0; while x >= p.kinds[i].1 { x -= p.kinds[i].1; i += 1; } Some(p.kinds[i].0) } else { None };
    let mut plan = Plan { property: property.into(), seed, run, ..Plan::default() };
    if r.permille(300) { plan.spurious = r.below(300); }
    if r.permille(300) { plan.clock = r.below(300); }
    if r.permille(p.reuse) { plan.reuse = 1; }
    plan.world = crate::rng::mix(seed ^ crate::rng::mix(run ^ 0x0_3e1d)) % 1000;
    let mut g = Gen { r, p: p.clone(), ty, cap, regs: vec![None; REGS], pool: vec![], next_id: 1, slots: vec![None; SLOTS], faulty, focus };
    let mut nt = *g.r.pick(p.threads);
    // a crowd
    let crowd = nt > 1 && p.rounds == 1 && !p.crash && class < 2 && g.r.permille(15);
    if crowd { nt = 6 + g.r.index(18); }
    // the same work over and over on one thread, mostly cut short
    let loops = !p.crash && (nt == 1 || p.rounds == 1) && g.r.permille(if nt == 1 { p.loops } else { p.loops / 4 });
    let huge = g.r.permille(p.huge) && !loops;
    if loops && p.rounds == 1 {
        g.p.alloc_fault = (g.p.alloc_fault * 4).min(800);
        g.p.sink_fault = (g.p.sink_fault * 2).min(800);
        g.p.refuse = (g.p.refuse * 2).min(500);
    }
    let np = g.r.range(p.pool.0, p.pool.1);
    for i in 0..np {
        let t = if i < 2 || g.r.permille(700) { ty } else { ty.to_dec() };
        let n = size(&mut g.r, cap);
        let v = if i > 0 && g.r.permille(400) { let a = g.pool[0].1.clone(); related(&mut g.r, t, &a, cap) } else { value(&mut g.r, t, n) };
        let v = if g.fits(v.bits()) { v } else { Nat::from_u64(12345) };
        g.pool.push((t, v));
    }
    let mut n = g.r.range(p.ops.0, p.ops.1);
    if class >= 2 { n = (n / 2).max(2); }
    if crowd { n = (n / 2).max(2); }
    let mut phase = Phase { rounds: p.rounds, ..Phase::default() };
    if p.rounds > 1 && class >= 2 { phase.rounds = 12; }
    let mut marathon = false;
    if loops {
        let pick = g.r.below(100);
        if pick < 30 && nt == 1 { phase.vary = 1; } else if pick < 45 && nt == 1 { phase.vary = 2; }
        if p.rounds > 1 && phase.vary != 0 {
            phase.loops = [[60, 120, 240], [48, 80, 160], [40, 48, 64], [40, 40, 40]][class][g.r.index(3)];
            n = 1 + n.min(12) / 3;
        } else if p.rounds > 1 { phase.loops = phase.rounds; } else {
            phase.loops = [[60, 120, 240], [40, 80, 160], [20, 40, 90], [8, 12, 20]][class][g.r.index(3)];
            phase.drift = phase.vary != 2 && g.r.permille(if phase.vary != 0 { 300 } else { 700 });
            n = 1 + n.min(12) / 3;
            // once around a counter of sixteen bits
            if nt == 1 && class <= 1 && g.r.permille(if class == 0 { p.marathon } else { p.marathon / 5 }) { phase.loops = 66_000; n = if class == 0 { n.min(2) } else { 1 }; marathon = true; }
        }
        phase.rounds = 1;
        if marathon || g.r.permille(850) { plan.reuse = 1; }
    }
    let mirror = nt > 1 && g.r.permille(p.mirror);
    for i in 0..nt {
        if i > 0 && mirror {
            // the same work on other numbers, or on the very same ones
            let same = g.r.permille(500);
            let mut prog = phase.threads[0].clone();
            for o in prog.iter_mut() {
                o.id = g.next_id;
                g.next_id += 1;
                if !same && o.k == Set && g.r.permille(700) {
                    let t = ty_of(o.ty);
                    let k = o.val.to_digits(t.bits(), t.dec()).len();
                    o.val = if p.repeats > 0 && g.r.permille(600) { let v = o.val.clone(); g.lookalike(t, &v) } else { value(&mut g.r, t, k) };
                }
            }
            phase.threads.push(prog);
        } else {
            let prog = if huge { g.huge(n) } else if phase.vary == 2 { g.cycle(n) } else { g.program(n) };
            phase.threads.push(prog);
        }
    }
    phase.policy = policy(&mut g.r, nt);
    if p.crash {
        let again = g.r.permille(250);
        let mut phases = vec![phase];
        if again {
            let prog = g.program(n);
            phases.push(Phase { rounds: 1, threads: vec![prog], policy: Policy::default(), ..Phase::default() });
        }
        for ph in phases.iter_mut() {
            if g.r.permille(800) {
                let t = g.r.index(ph.threads.len());
                // mostly inside the writing of a text
                let stores: Vec<u32> = ph.threads[t].iter().filter(|o| o.k == Store).map(|o| o.id).collect();
                let ops: Vec<u32> = ph.threads[t].iter().map(|o| o.id).collect();
                if !ops.is_empty() {
                    let id = if !stores.is_empty() && g.r.permille(700) { *g.r.pick(&stores) } else { *g.r.pick(&ops) };
                    ph.crash = Some((t as u32 + 1, id, g.r.log(15)));
                }
            }
            for _ in 0..SLOTS {
                let d = if g.r.permille(250) { (0, 0, 0) } else { (1 + g.r.below(7) as u8, g.r.below(1024), g.r.below(1 << 16)) };
                ph.damage.push(d);
            }
        }
        // the last incarnation reads everything back
        g.regs = vec![None; REGS];
        let mut prog = vec![];
        for s in 0..SLOTS as u8 {
            if g.slots[s as usize].is_none() { continue; }
            for _ in 0..1 + g.r.below(3) {
                let mut o = g.op(Load);
                o.a = s;
                o.ty = g.r.below(8) as u8;
                o.dst = g.r.below(REGS as u64) as u8;
                prog.push(o);
            }
        }
        phases.push(Phase { rounds: 1, threads: vec![prog], policy: Policy::default(), ..Phase::default() });
        plan.phases = phases;
    } else {
        if nt > 1 && g.r.permille(p.stall) {
            let t = g.r.index(nt);
            let ids: Vec<u32> = phase.threads[t].iter().map(|o| o.id).collect();
            if !ids.is_empty() { phase.stall = Some((t as u32 + 1, *g.r.pick(&ids), g.r.log(14))); }
        }
        plan.phases = vec![phase];
    }
    plan.pool = g.pool.iter().map(|(t, v)| (ty_index(*t), v.clone())).collect();
    plan
}

/// Counts that do not fit where counts may be kept, and what is left of them is small.
fn extreme(r: &mut Rng) -> u64 {
    let near = r.below(70);
    match r.below(8) {
        0 => u64::MAX - near,
        1 => (1 << 63) + near,
        2 => (1 << 32) + near,
        3 => (1 << 31) + near,
        4 => (1 << 16) + near,
        5 => *r.pick(&[1 << 32, 1 << 16, 1 << 63, u64::MAX, u32::MAX as u64, (1 << 61) + 1, 1 << 35]),
        _ => r.log(40),
    }
}
