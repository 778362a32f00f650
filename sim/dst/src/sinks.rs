//! Destinations for text that fail the way real ones do.

use crate::exec::{reenter, IN_PANIC, IN_WRITE};
use crate::kernel::{callback_point, count, fold_hash, outside, trace};
use crate::shm::{File, C, FILE};
use std::io::{Error, ErrorKind};

// character sinks
pub const ERR_AFTER: u8 = 1;
pub const ERR_CALL: u8 = 2;
pub const ERR_ONCE: u8 = 3;
pub const PANIC_AT: u8 = 4;
pub const TEXT_KINDS: [u8; 4] = [ERR_AFTER, ERR_CALL, ERR_ONCE, PANIC_AT];
// byte streams
pub const IO_ERR: u8 = 11;
pub const IO_FULL: u8 = 12;
pub const IO_ZERO: u8 = 13;
pub const IO_PANIC: u8 = 14;
pub const IO_SHORT: u8 = 15;
pub const IO_EINTR: u8 = 16;
pub const IO_BOTH: u8 = 17;
pub const IO_ONCE: u8 = 18;
pub const IO_KINDS: [u8; 8] = [IO_ERR, IO_FULL, IO_ZERO, IO_PANIC, IO_SHORT, IO_EINTR, IO_BOTH, IO_ONCE];

pub struct Sink<'a> {
    pub got: Vec<u8>,
    kind: u8,
    /// position, or number of the call, at which it fails
    at: u64,
    calls: u64,
    /// the fault happened
    pub fired: bool,
    /// bytes also go to this file of the simulated disk
    file: Option<&'a mut File>,
}

/// Somebody's destructor that makes a request of its own.
struct AtUnwind;
impl Drop for AtUnwind {
    fn drop(&mut self) { reenter(IN_PANIC); }
}

fn hit(c: C, at: u64) {
    count(c, 1);
    fold_hash(at ^ 0x51c4 ^ (c as u64) << 32);
    unsafe { (*crate::kernel::k().shm).nontrivial = 1; }
    trace(|| format!("sink-fault {} at {}", crate::shm::NAMES[c as usize], at));
}

impl<'a> Sink<'a> {
    pub fn new(kind: u8, at: u64, room: usize, file: Option<&'a mut File>) -> Sink<'a> {
        Sink { got: Vec::with_capacity(room), kind, at, calls: 0, fired: false, file }
    }
    fn take(&mut self, b: &[u8]) {
        self.got.extend_from_slice(b);
        if let Some(f) = self.file.as_mut() {
            let n = (f.len as usize).min(FILE);
            let m = b.len().min(FILE - n);
            f.data[n..n + m].copy_from_slice(&b[..m]);
            f.len += m as u64;
        }
        count(C::bytes_written, b.len() as u64);
    }
    /// How many bytes fit before the failure position.
    fn room(&self, n: usize) -> usize { (self.at as usize).saturating_sub(self.got.len()).min(n) }
}

impl std::fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        callback_point();
        reenter(IN_WRITE);
        let mut boom = false;
        let r = outside(|| {
            self.calls += 1;
            let b = s.as_bytes();
            let again = self.fired;
            match self.kind {
                ERR_AFTER | PANIC_AT | ERR_ONCE => {
                    let n = self.room(b.len());
                    if n < b.len() && !(again && self.kind == ERR_ONCE) {
                        if !again { hit(match self.kind { ERR_AFTER => C::fault_text_error_after, ERR_ONCE => C::fault_text_transient, _ => C::fault_text_panic }, self.at); }
                        self.fired = true;
                        self.take(&b[..n]);
                        boom = self.kind == PANIC_AT;
                        return Err(std::fmt::Error);
                    }
                }
                ERR_CALL => {
                    if self.calls >= self.at.max(1) {
                        if !again { hit(C::fault_text_error_call, self.at); }
                        self.fired = true;
                        return Err(std::fmt::Error);
                    }
                }
                _ => {}
            }
            self.take(b);
            Ok(())
        });
        if boom {
            let _g = AtUnwind;
            panic!("sink panicked");
        }
        r
    }
}

impl std::io::Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        callback_point();
        reenter(IN_WRITE);
        let mut boom = false;
        let r = outside(|| {
            self.calls += 1;
            let again = self.fired;
            match self.kind {
                IO_ERR | IO_FULL | IO_ZERO | IO_PANIC | IO_ONCE => {
                    let n = self.room(b.len());
                    if self.kind == IO_ONCE && again { self.take(b); return Ok(b.len()); }
                    if n == b.len() { self.take(b); return Ok(n); }
                    if n > 0 && self.kind != IO_ERR { self.take(&b[..n]); return Ok(n); }
                    if !again {
                        hit(match self.kind { IO_FULL => C::fault_stream_disk_full, IO_ZERO => C::fault_stream_zero, IO_PANIC => C::fault_stream_panic, _ => C::fault_stream_error }, self.at);
                    }
                    self.fired = true;
                    boom = self.kind == IO_PANIC;
                    match self.kind {
                        IO_ZERO => Ok(0),
                        IO_FULL => Err(Error::from(ErrorKind::StorageFull)),
                        IO_ONCE => Err(Error::from(ErrorKind::TimedOut)),
                        _ => Err(Error::from(ErrorKind::BrokenPipe)),
                    }
                }
                IO_SHORT | IO_EINTR | IO_BOTH => {
                    if self.kind != IO_SHORT && self.calls % 3 == 1 {
                        hit(C::fault_stream_interrupted, self.calls);
                        return Err(Error::from(ErrorKind::Interrupted));
                    }
                    let n = if self.kind == IO_EINTR { b.len() } else { b.len().min(1 + (self.at % 7) as usize) };
                    if n < b.len() { hit(C::fault_stream_short, self.calls); }
                    self.take(&b[..n]);
                    Ok(n)
                }
                _ => { self.take(b); Ok(b.len()) }
            }
        });
        if boom {
            let _g = AtUnwind;
            panic!("sink panicked");
        }
        r
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
