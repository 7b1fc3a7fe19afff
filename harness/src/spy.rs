//! Sinks with observable behaviour. The spy remembers the byte at one arbitrary position `k`, so an
//! assertion about it is an assertion about every position.

use crate::nd;
use std::io::{self, Write};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Seen {
    /// Bytes accepted since `start`.
    pub pos: usize,
    pub seen: bool,
    pub val: u8,
}

// Separate statics, accessed directly: this code runs for every padding byte of a symbolic run, so it is
// kept free of references and overflow checks. Harnesses are single-threaded.
//
// Kani 0.68 gives a mutable static and a constant the same object when their initial bytes are the same
// (seen with `VAL: u8 = 0` and a constant enum of discriminant 0), so every static here has an initial
// value that no constant has. `start` sets them all.
static mut K: usize = 0x5a17_c3e9_81b4_2d01;
static mut POS: usize = 0x5a17_c3e9_81b4_2d02;
static mut SEEN: usize = 0x5a17_c3e9_81b4_2d03;
static mut VAL: usize = 0x5a17_c3e9_81b4_2d04;
/// Number of bytes after which the sink stops accepting.
static mut FAIL_AT: usize = 0x5a17_c3e9_81b4_2d05;
/// 0: error PermissionDenied, 1: error ConnectionReset, 2: Ok(0).
static mut FAIL_MODE: usize = 0x5a17_c3e9_81b4_2d06;
/// How many more calls may be interrupted or only partly accepted.
static mut QUIRKS: usize = 0x5a17_c3e9_81b4_2d07;

/// Forget everything; watch the `k`-th byte from here.
pub fn start(k: usize) {
    unsafe {
        K = k;
        POS = 0;
        SEEN = 0;
        VAL = 0;
        FAIL_AT = usize::MAX;
        FAIL_MODE = 0;
        QUIRKS = 0;
    }
}
pub fn fail_at(at: usize, mode: u8) {
    unsafe {
        FAIL_AT = at;
        FAIL_MODE = mode as usize;
    }
}
pub fn quirks(n: u8) {
    unsafe { QUIRKS = n as usize }
}
pub fn seen() -> Seen {
    unsafe { Seen { pos: POS, seen: SEEN != 0, val: VAL as u8 } }
}
/// How many more bytes the sink accepts.
fn room() -> usize {
    unsafe { if POS < FAIL_AT { FAIL_AT - POS } else { 0 } }
}

fn accept(b: &[u8]) {
    unsafe {
        let at = K.wrapping_sub(POS);
        if at < b.len() {
            SEEN = 1;
            VAL = b[at] as usize;
        }
        POS = POS.wrapping_add(b.len());
    }
}

// `write_all` is overridden in every sink with the loop-free equivalent of what std's default does
// on that sink (retry after Interrupted, continue after a short write, WriteZero after Ok(0)), so
// that a symbolic run does not unroll std's retry loop for every padding byte. The `Std*` twins at
// the end keep std's own `write_all`.

/// Accepts everything.
pub struct Spy;
impl Write for Spy {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        accept(b);
        Ok(b.len())
    }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        accept(b);
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Accepts bytes up to `fail_at`, then fails for good.
pub struct FaultSpy;
impl Write for FaultSpy {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let room = room();
        if b.is_empty() {
            return Ok(0);
        }
        if room == 0 {
            return match unsafe { FAIL_MODE } {
                0 => Err(io::ErrorKind::PermissionDenied.into()),
                1 => Err(io::ErrorKind::ConnectionReset.into()),
                _ => Ok(0),
            };
        }
        let n = if b.len() < room { b.len() } else { room };
        accept(&b[..n]);
        Ok(n)
    }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        let room = room();
        if b.len() <= room {
            accept(b);
            return Ok(());
        }
        accept(&b[..room]);
        Err(expected_error().into())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// The error kind a faulty write has to report.
pub fn expected_error() -> io::ErrorKind {
    match unsafe { FAIL_MODE } {
        0 => io::ErrorKind::PermissionDenied,
        1 => io::ErrorKind::ConnectionReset,
        _ => io::ErrorKind::WriteZero,
    }
}

/// Interrupts or accepts only part of a call, `quirks` times, at arbitrary calls.
pub struct QuirkySpy;
impl Write for QuirkySpy {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if unsafe { QUIRKS } > 0 && b.len() > 0 {
            let choice = nd::u8();
            if choice == 1 {
                unsafe { QUIRKS -= 1 };
                return Err(io::ErrorKind::Interrupted.into());
            }
            if choice == 2 && b.len() > 1 {
                unsafe { QUIRKS -= 1 };
                let n = nd::usize();
                nd::assume(n >= 1 && n < b.len());
                accept(&b[..n]);
                return Ok(n);
            }
        }
        accept(b);
        Ok(b.len())
    }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        accept(b);
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// `FaultSpy` with std's own `write_all`.
pub struct StdFaultSpy;
impl Write for StdFaultSpy {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        FaultSpy.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// `QuirkySpy` with std's own `write_all`.
pub struct StdQuirkySpy;
impl Write for StdQuirkySpy {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        QuirkySpy.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
