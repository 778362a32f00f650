//! The reference model: natural numbers as little-endian u64 limbs, schoolbook
//! algorithms only. Shares nothing with the library under test.

use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
pub struct Nat(pub Vec<u64>);

impl Nat {
    pub fn zero() -> Nat { Nat(vec![]) }
    pub fn one() -> Nat { Nat(vec![1]) }
    pub fn from_u64(x: u64) -> Nat { if x == 0 { Nat(vec![]) } else { Nat(vec![x]) } }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    fn norm(mut self) -> Nat {
        while let Some(&0) = self.0.last() { self.0.pop(); }
        self
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(&t) => self.0.len() * 64 - t.leading_zeros() as usize,
        }
    }
    pub fn cmp(&self, o: &Nat) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn lt(&self, o: &Nat) -> bool { self.cmp(o) == Ordering::Less }
    pub fn add(&self, o: &Nat) -> Nat {
        let (l, s) = if self.0.len() >= o.0.len() { (self, o) } else { (o, self) };
        let mut r = Vec::with_capacity(l.0.len() + 1);
        let mut c = 0u128;
        for (i, &x) in l.0.iter().enumerate() {
            let t = x as u128 + s.0.get(i).copied().unwrap_or(0) as u128 + c;
            r.push(t as u64);
            c = t >> 64;
        }
        if c != 0 { r.push(c as u64); }
        Nat(r)
    }
    /// None when the difference would be negative.
    pub fn sub(&self, o: &Nat) -> Option<Nat> {
        if self.lt(o) { return None; }
        let mut r = Vec::with_capacity(self.0.len());
        let mut b = 0i128;
        for (i, &x) in self.0.iter().enumerate() {
            let mut t = x as i128 - o.0.get(i).copied().unwrap_or(0) as i128 - b;
            if t < 0 { t += 1i128 << 64; b = 1 } else { b = 0 }
            r.push(t as u64);
        }
        Some(Nat(r).norm())
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        if self.is_zero() || o.is_zero() { return Nat::zero(); }
        let mut r = vec![0u64; self.0.len() + o.0.len()];
        for (i, &x) in self.0.iter().enumerate() {
            let mut c = 0u128;
            for (j, &y) in o.0.iter().enumerate() {
                let t = x as u128 * y as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + o.0.len()] = c as u64;
        }
        Nat(r).norm()
    }
    pub fn mul_small_add(&mut self, f: u64, a: u64) {
        let mut c = a as u128;
        for x in self.0.iter_mut() {
            let t = *x as u128 * f as u128 + c;
            *x = t as u64;
            c = t >> 64;
        }
        if c != 0 { self.0.push(c as u64); }
    }
    /// Divides in place, returns the remainder.
    pub fn divrem_small(&mut self, d: u64) -> u64 {
        let mut r = 0u128;
        for x in self.0.iter_mut().rev() {
            let t = (r << 64) | *x as u128;
            *x = (t / d as u128) as u64;
            r = t % d as u128;
        }
        while let Some(&0) = self.0.last() { self.0.pop(); }
        r as u64
    }
    pub fn shl(&self, n: usize) -> Nat {
        if self.is_zero() { return Nat::zero(); }
        let (w, b) = (n / 64, n % 64);
        let mut r = vec![0u64; w];
        if b == 0 {
            r.extend_from_slice(&self.0);
        } else {
            let mut c = 0;
            for &x in &self.0 {
                r.push((x << b) | c);
                c = x >> (64 - b);
            }
            r.push(c);
        }
        Nat(r).norm()
    }
    pub fn shr(&self, n: usize) -> Nat {
        let (w, b) = (n / 64, n % 64);
        if w >= self.0.len() { return Nat::zero(); }
        let s = &self.0[w..];
        let mut r = Vec::with_capacity(s.len());
        for i in 0..s.len() {
            let hi = if b != 0 && i + 1 < s.len() { s[i + 1] << (64 - b) } else { 0 };
            r.push((s[i] >> b) | hi);
        }
        Nat(r).norm()
    }
    /// Knuth D with 32-bit half-limbs. None when dividing by zero.
    pub fn divrem(&self, d: &Nat) -> Option<(Nat, Nat)> {
        if d.is_zero() { return None; }
        if self.lt(d) { return Some((Nat::zero(), self.clone())); }
        if d.0.len() == 1 {
            let mut q = self.clone();
            let r = q.divrem_small(d.0[0]);
            return Some((q, Nat::from_u64(r)));
        }
        let s = d.0.last().unwrap().leading_zeros() as usize;
        // normalise so that the top half-limb of the divisor has its top bit set
        let v = halves(&d.shl(s));
        let mut u = halves(&self.shl(s));
        let v = if v.last() == Some(&0) { v[..v.len() - 1].to_vec() } else { v };
        while u.last() == Some(&0) { u.pop(); }
        u.push(0);
        let n = v.len();
        let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        let b = 1u64 << 32;
        for j in (0..=m).rev() {
            let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
            let mut qh = num / v[n - 1] as u64;
            let mut rh = num % v[n - 1] as u64;
            while qh >= b || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >= b { break; }
            }
            let mut borrow = 0i64;
            let mut carry = 0u64;
            for i in 0..n {
                let p = qh * v[i] as u64 + carry;
                carry = p >> 32;
                let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
                u[i + j] = t as u32;
                borrow = if t < 0 { 1 } else { 0 };
            }
            let t = u[j + n] as i64 - borrow - carry as i64;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let t = u[i + j] as u64 + v[i] as u64 + c;
                    u[i + j] = t as u32;
                    c = t >> 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        let r = from_halves(&u[..n]).shr(s);
        Some((from_halves(&q), r))
    }
    pub fn pow(&self, e: usize) -> Nat {
        let mut r = Nat::one();
        for i in (0..usize::BITS).rev() {
            if r.0.len() != 1 || r.0[0] != 1 { r = r.mul(&r); }
            if (e >> i) & 1 == 1 { r = r.mul(self); }
        }
        r
    }
    pub fn to_dec(&self) -> String {
        if self.is_zero() { return "0".into(); }
        let mut parts = vec![];
        let mut x = self.clone();
        while !x.is_zero() { parts.push(x.divrem_small(10_000_000_000_000_000_000)); }
        let mut s = format!("{}", parts.pop().unwrap());
        while let Some(p) = parts.pop() { s.push_str(&format!("{:019}", p)); }
        s
    }
    pub fn to_hex(&self) -> String {
        match self.0.split_last() {
            None => "0".into(),
            Some((t, rest)) => {
                let mut s = format!("{:x}", t);
                for x in rest.iter().rev() { s.push_str(&format!("{:016x}", x)); }
                s
            }
        }
    }
    pub fn from_hex(s: &str) -> Option<Nat> {
        let mut r = vec![];
        for c in s.as_bytes().rchunks(16) {
            r.push(u64::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok()?);
        }
        Some(Nat(r).norm())
    }
    /// What a text denotes: decimal digits, or `0x` and hexadecimal digits; at
    /// least one digit; nothing else.
    pub fn parse(t: &str) -> Option<Nat> {
        if let Some(h) = t.strip_prefix("0x") {
            if h.is_empty() || !h.bytes().all(|c| c.is_ascii_hexdigit()) { return None; }
            return Nat::from_hex(h);
        }
        if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) { return None; }
        let b = t.as_bytes();
        let first = b.len() % 19;
        let mut r = Nat::zero();
        if first > 0 { r.mul_small_add(1, dec_part(&b[..first])); }
        for c in b[first..].chunks(19) { r.mul_small_add(10_000_000_000_000_000_000, dec_part(c)); }
        Some(r.norm())
    }
    /// Digits of the number in the given base (`None` = 2^bits), little endian.
    pub fn to_digits(&self, bits: u32, dec: bool) -> Vec<u64> {
        if dec {
            let radix = DEC_RADIX[width_index(bits)];
            let mut x = self.clone();
            let mut r = vec![];
            if bits == 64 {
                while !x.is_zero() { r.push(x.divrem_small(radix)); }
            } else {
                // several small digits per big division
                let (mut big, mut k) = (radix, 1);
                while let Some(b) = big.checked_mul(radix) { big = b; k += 1; }
                while !x.is_zero() {
                    let mut p = x.divrem_small(big);
                    for _ in 0..k { r.push(p % radix); p /= radix; }
                }
                while let Some(&0) = r.last() { r.pop(); }
            }
            r
        } else {
            let mut r = vec![];
            for &x in &self.0 {
                let mut sh = 0;
                while sh < 64 {
                    r.push(if bits == 64 { x } else { (x >> sh) & ((1u64 << bits) - 1) });
                    sh += bits;
                }
            }
            while let Some(&0) = r.last() { r.pop(); }
            r
        }
    }
    pub fn from_digits(d: &[u64], bits: u32, dec: bool) -> Nat {
        if dec {
            let radix = DEC_RADIX[width_index(bits)];
            let mut r = Nat::zero();
            if bits == 64 {
                for &x in d.iter().rev() { r.mul_small_add(radix, x); }
            } else {
                let (mut big, mut k) = (radix, 1);
                while let Some(b) = big.checked_mul(radix) { big = b; k += 1; }
                let first = d.len() % k;
                let mut groups: Vec<&[u64]> = d.chunks(k).collect();
                let top = if first > 0 { groups.pop() } else { None };
                if let Some(t) = top {
                    for &x in t.iter().rev() { r.mul_small_add(radix, x); }
                }
                for g in groups.into_iter().rev() {
                    let v = g.iter().rev().fold(0u64, |a, &x| a * radix + x);
                    r.mul_small_add(big, v);
                }
            }
            r.norm()
        } else {
            let per = (64 / bits) as usize;
            let mut r = vec![];
            for c in d.chunks(per) {
                r.push(c.iter().rev().fold(0u64, |a, &x| if bits == 64 { x } else { (a << bits) | x }));
            }
            Nat(r).norm()
        }
    }
}

pub const DEC_RADIX: [u64; 4] = [100, 10_000, 1_000_000_000, 10_000_000_000_000_000_000];
pub fn width_index(bits: u32) -> usize { match bits { 8 => 0, 16 => 1, 32 => 2, _ => 3 } }

fn dec_part(b: &[u8]) -> u64 { b.iter().fold(0u64, |a, &c| a * 10 + (c - b'0') as u64) }
fn halves(n: &Nat) -> Vec<u32> { n.0.iter().flat_map(|&x| [x as u32, (x >> 32) as u32]).collect() }
fn from_halves(h: &[u32]) -> Nat {
    Nat(h.chunks(2).map(|c| c[0] as u64 | (c.get(1).copied().unwrap_or(0) as u64) << 32).collect()).norm()
}
