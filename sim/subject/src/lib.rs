//! Typed wrapper over the library under simulation. It instantiates every
//! public operation for all eight digit types, so that the machine code of the
//! library ends up in this crate, which the build instruments (rustc-wrap.sh).
//! It holds no logic of its own.

use babs::{BinaryDigit, DecimalDigit};
use babs::{UBigBin16, UBigBin32, UBigBin64, UBigBin8, UBigDec16, UBigDec32, UBigDec64, UBigDec8};
use num_traits::{One, Pow, Zero};
use std::cmp::Ordering;
use std::str::FromStr;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty { B8, B16, B32, B64, D8, D16, D32, D64 }

pub const TYPES: [Ty; 8] = [Ty::B8, Ty::B16, Ty::B32, Ty::B64, Ty::D8, Ty::D16, Ty::D32, Ty::D64];

impl Ty {
    pub fn bits(self) -> u32 {
        match self {
            Ty::B8 | Ty::D8 => 8,
            Ty::B16 | Ty::D16 => 16,
            Ty::B32 | Ty::D32 => 32,
            Ty::B64 | Ty::D64 => 64,
        }
    }
    pub fn dec(self) -> bool { matches!(self, Ty::D8 | Ty::D16 | Ty::D32 | Ty::D64) }
    pub fn to_dec(self) -> Ty {
        match self {
            Ty::B8 => Ty::D8,
            Ty::B16 => Ty::D16,
            Ty::B32 => Ty::D32,
            Ty::B64 => Ty::D64,
            t => t,
        }
    }
}

pub enum Num {
    B8(UBigBin8),
    B16(UBigBin16),
    B32(UBigBin32),
    B64(UBigBin64),
    D8(UBigDec8),
    D16(UBigDec16),
    D32(UBigDec32),
    D64(UBigDec64),
}

/// The simulator passes numbers between threads whatever the library's types
/// say, and reports separately (see `shareable`) whether they may be.
pub struct Shared(pub Num);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

mod probe {
    use std::marker::PhantomData;
    // "autoref specialisation": method resolution prefers the bounded inherent
    // implementation when its bound holds.
    pub struct P<T>(pub PhantomData<T>);
    impl<T: Send + Sync> P<T> {
        pub fn yes(&self) -> bool { true }
    }
    pub trait No {
        fn yes(&self) -> bool { false }
    }
    impl<T> No for P<T> {}
}

/// Whether numbers of every digit type can be sent to and shared by threads.
#[allow(unused_imports)]
pub fn shareable() -> bool {
    use probe::No;
    use std::marker::PhantomData as D;
    probe::P(D::<UBigBin8>).yes() && probe::P(D::<UBigBin16>).yes()
        && probe::P(D::<UBigBin32>).yes() && probe::P(D::<UBigBin64>).yes()
        && probe::P(D::<UBigDec8>).yes() && probe::P(D::<UBigDec16>).yes()
        && probe::P(D::<UBigDec32>).yes() && probe::P(D::<UBigDec64>).yes()
}

pub trait Wrap {
    fn wrap(self) -> Num;
}
macro_rules! wraps {
    ($($v:ident $t:ty),*) => { $(impl Wrap for $t {
        #[inline(always)]
        fn wrap(self) -> Num { Num::$v(self) }
    })* };
}
wraps!(B8 UBigBin8, B16 UBigBin16, B32 UBigBin32, B64 UBigBin64, D8 UBigDec8, D16 UBigDec16, D32 UBigDec32, D64 UBigDec64);

/// A refused operation: the text of the library's error.
#[derive(Debug, Clone, PartialEq)]
pub struct Refused(pub &'static str);

fn refused<E: std::fmt::Display>(e: E) -> Refused {
    struct Buf([u8; 48], usize);
    impl std::fmt::Write for Buf {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for &b in s.as_bytes() {
                if self.1 < 48 {
                    self.0[self.1] = b;
                    self.1 += 1;
                }
            }
            Ok(())
        }
    }
    let mut b = Buf([0; 48], 0);
    let _ = std::fmt::Write::write_fmt(&mut b, format_args!("{}", e));
    Refused(match &b.0[..b.1] {
        b"Invalid number" => "invalid",
        b"Underflow" => "underflow",
        b"Division by zero" => "divzero",
        b"Not enough space to store the result" => "nospace",
        _ => "other",
    })
}

macro_rules! each {
    ($n:expr, $x:ident => $e:expr) => {
        match $n {
            Num::B8($x) => $e,
            Num::B16($x) => $e,
            Num::B32($x) => $e,
            Num::B64($x) => $e,
            Num::D8($x) => $e,
            Num::D16($x) => $e,
            Num::D32($x) => $e,
            Num::D64($x) => $e,
        }
    };
}

macro_rules! pair {
    ($a:expr, $b:expr, $x:ident, $y:ident => $e:expr) => {
        match ($a, $b) {
            (Num::B8($x), Num::B8($y)) => $e,
            (Num::B16($x), Num::B16($y)) => $e,
            (Num::B32($x), Num::B32($y)) => $e,
            (Num::B64($x), Num::B64($y)) => $e,
            (Num::D8($x), Num::D8($y)) => $e,
            (Num::D16($x), Num::D16($y)) => $e,
            (Num::D32($x), Num::D32($y)) => $e,
            (Num::D64($x), Num::D64($y)) => $e,
            _ => unreachable!("operands of different digit types"),
        }
    };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Bin { Add, Sub, Mul, Div, Rem }

#[inline(never)]
pub fn ty(n: &Num) -> Ty {
    match n {
        Num::B8(_) => Ty::B8,
        Num::B16(_) => Ty::B16,
        Num::B32(_) => Ty::B32,
        Num::B64(_) => Ty::B64,
        Num::D8(_) => Ty::D8,
        Num::D16(_) => Ty::D16,
        Num::D32(_) => Ty::D32,
        Num::D64(_) => Ty::D64,
    }
}

// ---- making and looking at numbers -------------------------------------------------

macro_rules! per_ty {
    ($t:expr, $T:ident => $e:expr) => {
        match $t {
            Ty::B8 => { type $T = UBigBin8; $e }
            Ty::B16 => { type $T = UBigBin16; $e }
            Ty::B32 => { type $T = UBigBin32; $e }
            Ty::B64 => { type $T = UBigBin64; $e }
            Ty::D8 => { type $T = UBigDec8; $e }
            Ty::D16 => { type $T = UBigDec16; $e }
            Ty::D32 => { type $T = UBigDec32; $e }
            Ty::D64 => { type $T = UBigDec64; $e }
        }
    };
}

#[inline(never)]
pub fn zero(t: Ty) -> Num { per_ty!(t, T => T::zero().wrap()) }
#[inline(never)]
pub fn one(t: Ty) -> Num { per_ty!(t, T => T::one().wrap()) }
#[inline(never)]
pub fn parse(t: Ty, s: &str) -> Result<Num, Refused> {
    per_ty!(t, T => T::from_str(s).map(|n| n.wrap()).map_err(refused))
}
#[inline(never)]
pub fn from_prim(t: Ty, x: u64) -> Num {
    match t {
        Ty::B8 => UBigBin8::from(x as u8).wrap(),
        Ty::B16 => UBigBin16::from(x as u16).wrap(),
        Ty::B32 => UBigBin32::from(x as u32).wrap(),
        Ty::B64 => UBigBin64::from(x).wrap(),
        Ty::D8 => UBigDec8::from(x as u8).wrap(),
        Ty::D16 => UBigDec16::from(x as u16).wrap(),
        Ty::D32 => UBigDec32::from(x as u32).wrap(),
        Ty::D64 => UBigDec64::from(x).wrap(),
    }
}
/// `new` from digits, little endian; leading zeros allowed.
#[inline(never)]
pub fn from_digits(t: Ty, d: &[u64]) -> Num {
    match t {
        Ty::B8 => UBigBin8::new(d.iter().map(|&x| BinaryDigit(x as u8)).collect()).wrap(),
        Ty::B16 => UBigBin16::new(d.iter().map(|&x| BinaryDigit(x as u16)).collect()).wrap(),
        Ty::B32 => UBigBin32::new(d.iter().map(|&x| BinaryDigit(x as u32)).collect()).wrap(),
        Ty::B64 => UBigBin64::new(d.iter().map(|&x| BinaryDigit(x)).collect()).wrap(),
        Ty::D8 => UBigDec8::new(d.iter().map(|&x| DecimalDigit(x as u8)).collect()).wrap(),
        Ty::D16 => UBigDec16::new(d.iter().map(|&x| DecimalDigit(x as u16)).collect()).wrap(),
        Ty::D32 => UBigDec32::new(d.iter().map(|&x| DecimalDigit(x as u32)).collect()).wrap(),
        Ty::D64 => UBigDec64::new(d.iter().map(|&x| DecimalDigit(x)).collect()).wrap(),
    }
}
#[inline(never)]
pub fn digits(n: &Num, out: &mut Vec<u64>) {
    out.clear();
    each!(n, x => out.extend(x.digits().iter().map(|d| d.0 as u64)))
}
#[inline(never)]
pub fn nr_digits(n: &Num) -> usize { each!(n, x => x.nr_digits()) }
#[inline(never)]
pub fn is_zero(n: &Num) -> bool { each!(n, x => x.is_zero()) }
#[inline(never)]
pub fn is_one(n: &Num) -> bool { each!(n, x => x.is_one()) }
#[inline(never)]
pub fn set_zero(n: &mut Num) { each!(n, x => x.set_zero()) }
#[inline(never)]
pub fn set_one(n: &mut Num) { each!(n, x => x.set_one()) }
#[inline(never)]
pub fn clone(n: &Num) -> Num { each!(n, x => x.clone().wrap()) }
#[inline(never)]
pub fn clone_from(a: &mut Num, b: &Num) { pair!(a, b, x, y => x.clone_from(y)) }
#[inline(never)]
pub fn discard(n: Num) { drop(n) }
#[inline(never)]
pub fn cmp(a: &Num, b: &Num) -> Ordering { pair!(a, b, x, y => x.cmp(y)) }
#[inline(never)]
pub fn partial_cmp(a: &Num, b: &Num) -> Option<Ordering> { pair!(a, b, x, y => x.partial_cmp(y)) }
/// (==, !=, <, <=, >, >=)
#[inline(never)]
pub fn relations(a: &Num, b: &Num) -> [bool; 6] {
    pair!(a, b, x, y => [x == y, x != y, x < y, x <= y, x > y, x >= y])
}
#[inline(never)]
pub fn to_decimal(n: &Num) -> Option<Num> {
    match n {
        Num::B8(x) => Some(x.to_decimal().wrap()),
        Num::B16(x) => Some(x.to_decimal().wrap()),
        Num::B32(x) => Some(x.to_decimal().wrap()),
        Num::B64(x) => Some(x.to_decimal().wrap()),
        _ => None,
    }
}

// ---- arithmetic between numbers -----------------------------------------------------

macro_rules! binop {
    ($op:expr, $x:expr, $y:expr) => {
        match $op {
            Bin::Add => ($x + $y).wrap(),
            Bin::Sub => ($x - $y).wrap(),
            Bin::Mul => ($x * $y).wrap(),
            Bin::Div => ($x / $y).wrap(),
            Bin::Rem => ($x % $y).wrap(),
        }
    };
}
macro_rules! binassign {
    ($op:expr, $x:expr, $y:expr) => {
        match $op {
            Bin::Add => *$x += $y,
            Bin::Sub => *$x -= $y,
            Bin::Mul => *$x *= $y,
            Bin::Div => *$x /= $y,
            Bin::Rem => *$x %= $y,
        }
    };
}

#[inline(never)]
pub fn bin_ref_ref(op: Bin, a: &Num, b: &Num) -> Num { pair!(a, b, x, y => binop!(op, x, y)) }
#[inline(never)]
pub fn bin_ref_own(op: Bin, a: &Num, b: Num) -> Num { pair!(a, b, x, y => binop!(op, x, y)) }
#[inline(never)]
pub fn bin_own_ref(op: Bin, a: Num, b: &Num) -> Num { pair!(a, b, x, y => binop!(op, x, y)) }
#[inline(never)]
pub fn bin_own_own(op: Bin, a: Num, b: Num) -> Num { pair!(a, b, x, y => binop!(op, x, y)) }
#[inline(never)]
pub fn bin_assign_ref(op: Bin, a: &mut Num, b: &Num) { pair!(a, b, x, y => binassign!(op, x, y)) }
#[inline(never)]
pub fn bin_assign_own(op: Bin, a: &mut Num, b: Num) { pair!(a, b, x, y => binassign!(op, x, y)) }

#[inline(never)]
pub fn div_assign_big(a: &mut Num, b: &Num) -> Result<Num, Refused> {
    pair!(a, b, x, y => x.div_assign_big(y).map(|r| r.wrap()).map_err(refused))
}
#[inline(never)]
pub fn rem_assign_big(a: &mut Num, b: &Num) -> Result<(), Refused> {
    pair!(a, b, x, y => x.rem_assign_big(y).map_err(refused))
}

// ---- arithmetic with one machine word or one digit ----------------------------------

macro_rules! word {
    ($n:expr, $v:expr, $x:ident, $w:ident => $e:expr) => {
        match $n {
            Num::B8($x) => { let $w = $v as u8; $e }
            Num::B16($x) => { let $w = $v as u16; $e }
            Num::B32($x) => { let $w = $v as u32; $e }
            Num::B64($x) => { let $w = $v; $e }
            Num::D8($x) => { let $w = $v as u8; $e }
            Num::D16($x) => { let $w = $v as u16; $e }
            Num::D32($x) => { let $w = $v as u32; $e }
            Num::D64($x) => { let $w = $v; $e }
        }
    };
}
macro_rules! digit {
    ($n:expr, $v:expr, $x:ident, $w:ident => $e:expr) => {
        match $n {
            Num::B8($x) => { let $w = BinaryDigit($v as u8); $e }
            Num::B16($x) => { let $w = BinaryDigit($v as u16); $e }
            Num::B32($x) => { let $w = BinaryDigit($v as u32); $e }
            Num::B64($x) => { let $w = BinaryDigit($v); $e }
            Num::D8($x) => { let $w = DecimalDigit($v as u8); $e }
            Num::D16($x) => { let $w = DecimalDigit($v as u16); $e }
            Num::D32($x) => { let $w = DecimalDigit($v as u32); $e }
            Num::D64($x) => { let $w = DecimalDigit($v); $e }
        }
    };
}

#[inline(never)]
pub fn word_ref(op: Bin, a: &Num, v: u64) -> Num { word!(a, v, x, w => binop!(op, x, w)) }
#[inline(never)]
pub fn word_own(op: Bin, a: Num, v: u64) -> Num { word!(a, v, x, w => binop!(op, x, w)) }
#[inline(never)]
pub fn word_assign(op: Bin, a: &mut Num, v: u64) { word!(a, v, x, w => binassign!(op, x, w)) }
#[inline(never)]
pub fn digit_ref(op: Bin, a: &Num, v: u64) -> Num { digit!(a, v, x, w => binop!(op, x, w)) }
#[inline(never)]
pub fn digit_own(op: Bin, a: Num, v: u64) -> Num { digit!(a, v, x, w => binop!(op, x, w)) }
#[inline(never)]
pub fn digit_assign(op: Bin, a: &mut Num, v: u64) { digit!(a, v, x, w => binassign!(op, x, w)) }

// ---- shifts, powers -------------------------------------------------------------------

#[inline(never)]
pub fn shift_ref(left: bool, a: &Num, n: usize) -> Num {
    each!(a, x => if left { (x << n).wrap() } else { (x >> n).wrap() })
}
#[inline(never)]
pub fn shift_own(left: bool, a: Num, n: usize) -> Num {
    each!(a, x => if left { (x << n).wrap() } else { (x >> n).wrap() })
}
#[inline(never)]
pub fn shift_assign(left: bool, a: &mut Num, n: usize) {
    each!(a, x => if left { *x <<= n } else { *x >>= n })
}
#[inline(never)]
pub fn pow_ref(a: &Num, e: usize) -> Num { each!(a, x => x.pow(e).wrap()) }
#[inline(never)]
pub fn pow_own(a: Num, e: usize) -> Num { each!(a, x => x.pow(e).wrap()) }
#[inline(never)]
pub fn square(a: &Num) -> Num { each!(a, x => x.square().wrap()) }

// ---- text out ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Base { Dec, Lower, Upper, Debug }

/// Formatting parameters: one of a fixed set of format strings, and a width.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Spec { pub base: Base, pub style: u8, pub width: usize }
pub const STYLES: u8 = 13;

macro_rules! emit {
    ($w:expr, $x:expr, $s:expr, $t:literal) => {
        match $s.style {
            0 => write!($w, concat!("{:", $t, "}"), $x),
            1 => write!($w, concat!("{:#", $t, "}"), $x),
            2 => write!($w, concat!("{:+", $t, "}"), $x),
            3 => write!($w, concat!("{:1$", $t, "}"), $x, $s.width),
            4 => write!($w, concat!("{:01$", $t, "}"), $x, $s.width),
            5 => write!($w, concat!("{:#01$", $t, "}"), $x, $s.width),
            6 => write!($w, concat!("{:*<1$", $t, "}"), $x, $s.width),
            7 => write!($w, concat!("{:_^#1$", $t, "}"), $x, $s.width),
            8 => write!($w, concat!("{:~>+1$", $t, "}"), $x, $s.width),
            // a precision, which says nothing about whole numbers
            9 => write!($w, concat!("{:.1$", $t, "}"), $x, $s.width),
            // fills of more than one byte
            10 => write!($w, concat!("{:\u{e9}^1$", $t, "}"), $x, $s.width),
            11 => write!($w, concat!("{:\u{1f980}<#1$", $t, "}"), $x, $s.width),
            _ => write!($w, concat!("{:+09.2", $t, "}"), $x),
        }
    };
}
macro_rules! emit_num {
    ($w:expr, $n:expr, $s:expr) => {
        match $s.base {
            Base::Dec => each!($n, x => emit!($w, x, $s, "")),
            Base::Debug => each!($n, x => write!($w, "{:?}", x)),
            Base::Lower => match $n {
                Num::B8(x) => emit!($w, x, $s, "x"),
                Num::B16(x) => emit!($w, x, $s, "x"),
                Num::B32(x) => emit!($w, x, $s, "x"),
                Num::B64(x) => emit!($w, x, $s, "x"),
                _ => unreachable!("decimal numbers have no hexadecimal form"),
            },
            Base::Upper => match $n {
                Num::B8(x) => emit!($w, x, $s, "X"),
                Num::B16(x) => emit!($w, x, $s, "X"),
                Num::B32(x) => emit!($w, x, $s, "X"),
                Num::B64(x) => emit!($w, x, $s, "X"),
                _ => unreachable!("decimal numbers have no hexadecimal form"),
            },
        }
    };
}

/// Text to a character sink.
#[inline(never)]
pub fn write_text(n: &Num, s: Spec, w: &mut dyn std::fmt::Write) -> std::fmt::Result { emit_num!(w, n, s) }
/// Text to a byte stream.
#[inline(never)]
pub fn write_bytes(n: &Num, s: Spec, w: &mut dyn std::io::Write) -> std::io::Result<()> { emit_num!(w, n, s) }

/// What the text must be, by the standard library's own padding of a prefix
/// and a string of digits.
pub fn expected_text(s: Spec, digits: &str) -> String {
    struct R<'a>(Base, &'a str);
    impl std::fmt::Display for R<'_> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.pad_integral(true, if self.0 == Base::Dec { "" } else { "0x" }, self.1)
        }
    }
    use std::fmt::Write;
    let mut o = String::new();
    let r = R(s.base, digits);
    emit!(o, r, s, "").unwrap();
    o
}
