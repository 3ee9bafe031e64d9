//! Scripted reader and writer, recording what happened.
use crate::shm::{self, *};
use std::fmt;
use std::io::{self, ErrorKind, Read, Write};

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct SimErr(pub u64);
impl fmt::Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "simulated error {}", self.0)
    }
}
impl std::error::Error for SimErr {}

pub struct InjectedPanic;

/// Error number k: varied kinds and representations, each recognisable.
pub fn make_err(k: u64) -> io::Error {
    use ErrorKind::*;
    const MORE: [ErrorKind; 26] = [
        NotFound, ConnectionRefused, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse,
        AddrNotAvailable, NetworkDown, AlreadyExists, NotADirectory, IsADirectory, ReadOnlyFilesystem, StaleNetworkFileHandle,
        InvalidInput, StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock,
        Unsupported, OutOfMemory, UnexpectedEof, BrokenPipe,
    ];
    match k % 66 {
        n @ 14..40 => io::Error::new(MORE[n as usize - 14], SimErr(k)),
        n @ 40.. => io::Error::from(MORE[n as usize - 40]),
        0 => io::Error::new(ErrorKind::Other, SimErr(k)),
        1 => io::Error::new(ErrorKind::TimedOut, SimErr(k)),
        2 => io::Error::new(ErrorKind::UnexpectedEof, SimErr(k)),
        3 => io::Error::new(ErrorKind::ConnectionReset, SimErr(k)),
        4 => io::Error::new(ErrorKind::InvalidData, SimErr(k)),
        5 => io::Error::new(ErrorKind::BrokenPipe, SimErr(k)),
        6 => io::Error::new(ErrorKind::PermissionDenied, SimErr(k)),
        7 => io::Error::new(ErrorKind::WriteZero, SimErr(k)),
        8 => io::Error::from_raw_os_error(5),  // EIO
        9 => io::Error::from_raw_os_error(28), // ENOSPC
        10 => io::Error::from_raw_os_error(104), // ECONNRESET
        11 => io::Error::from(ErrorKind::OutOfMemory),
        12 => io::Error::from_raw_os_error(11), // EAGAIN
        _ => io::Error::new(ErrorKind::WouldBlock, SimErr(k)),
    }
}

pub fn interrupted(k: u64) -> io::Error {
    match k % 3 {
        0 => io::Error::from(ErrorKind::Interrupted),
        1 => io::Error::from_raw_os_error(4),
        _ => io::Error::new(ErrorKind::Interrupted, SimErr(k)),
    }
}

pub fn same_err(a: &io::Error, b: &io::Error) -> bool {
    let id = |e: &io::Error| e.get_ref().and_then(|r| r.downcast_ref::<SimErr>()).map(|s| s.0);
    a.kind() == b.kind() && a.raw_os_error() == b.raw_os_error() && id(a) == id(b)
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum End {
    None,
    Eof,
    ReadErr(u64),
    WriteErr(u64),
    WriteZero,
    ReadPanic,
    WritePanic,
}

/// What both sides saw.
pub struct Trace {
    pub end: End,
    pub after_end: bool,
    pub reads: u64,
    pub writes: u64,
    pub interrupts: u64,
}

impl Trace {
    pub fn new() -> Trace {
        Trace { end: End::None, after_end: false, reads: 0, writes: 0, interrupts: 0 }
    }
}

pub type TraceRef = std::rc::Rc<std::cell::RefCell<Trace>>;

fn tok(s: &str) -> (u8, u64) {
    (s.as_bytes().first().copied().unwrap_or(0), s.get(1..).and_then(|x| x.parse().ok()).unwrap_or(0))
}

pub struct SimReader<'a> {
    data: &'a [u8],
    pub pos: usize,
    script: Vec<(u8, u64)>,
    i: usize,
    eintr_left: u64,
    trace: TraceRef,
}

impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], script: &str, trace: TraceRef) -> SimReader<'a> {
        let script = script.split(',').filter(|s| !s.is_empty() && *s != "-").map(tok).collect();
        SimReader { data, pos: 0, script, i: 0, eintr_left: 0, trace }
    }
}

impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        shm::point();
        {
            let mut t = self.trace.borrow_mut();
            t.reads += 1;
            if t.end != End::None {
                t.after_end = true;
            }
        }
        if self.eintr_left > 0 {
            self.eintr_left -= 1;
            self.trace.borrow_mut().interrupts += 1;
            shm::count(C_REINTR, 1);
            return Err(interrupted(self.eintr_left));
        }
        let mut cap = usize::MAX;
        while self.i < self.script.len() {
            let (c, n) = self.script[self.i];
            self.i += 1;
            match c {
                b'd' | b'j' => {
                    cap = (n as usize).max(1);
                    if c == b'j' {
                        shm::count(C_RSCRIB, 1);
                        for (k, b) in buf.iter_mut().enumerate() {
                            *b = (k as u8) ^ 0x5a;
                        }
                    }
                    break;
                }
                b'i' => {
                    self.eintr_left = n.max(1) - 1;
                    self.trace.borrow_mut().interrupts += 1;
                    shm::count(C_REINTR, 1);
                    return Err(interrupted(n));
                }
                b'w' | b'e' => {
                    let k = if c == b'w' { 13 } else { n };
                    self.trace.borrow_mut().end = End::ReadErr(k);
                    shm::count(C_RERR, 1);
                    shm::log(k);
                    return Err(make_err(k));
                }
                b'x' => {
                    self.trace.borrow_mut().end = End::ReadPanic;
                    shm::count(C_RPANIC, 1);
                    std::panic::panic_any(InjectedPanic);
                }
                b'f' => {
                    self.trace.borrow_mut().end = End::Eof;
                    shm::count(C_REOF, 1);
                    return Ok(0);
                }
                b't' => {
                    shm::count(C_RDELAY, 1);
                    unsafe { shm::sim_sleep(n) };
                }
                _ => {}
            }
        }
        let avail = self.data.len() - self.pos;
        let n = cap.min(avail).min(buf.len());
        if n < buf.len() && n < avail {
            shm::count(C_RSHORT, 1);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if n == 0 {
            self.trace.borrow_mut().end = End::Eof;
        }
        shm::log(n as u64);
        Ok(n)
    }
}

pub struct SimWriter {
    pub got: Vec<u8>,
    script: Vec<(u8, u64)>,
    i: usize,
    eintr_left: u64,
    trace: TraceRef,
}

impl SimWriter {
    pub fn new(script: &str, trace: TraceRef) -> SimWriter {
        let script = script.split(',').filter(|s| !s.is_empty() && *s != "-").map(tok).collect();
        SimWriter { got: Vec::new(), script, i: 0, eintr_left: 0, trace }
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        shm::point();
        {
            let mut t = self.trace.borrow_mut();
            t.writes += 1;
            if t.end != End::None {
                t.after_end = true;
            }
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.eintr_left > 0 {
            self.eintr_left -= 1;
            self.trace.borrow_mut().interrupts += 1;
            shm::count(C_WEINTR, 1);
            return Err(interrupted(self.eintr_left));
        }
        let mut n = buf.len();
        while self.i < self.script.len() {
            let (c, k) = self.script[self.i];
            self.i += 1;
            match c {
                b'a' => {
                    n = n.min((k as usize).max(1));
                    break;
                }
                b'i' => {
                    self.eintr_left = k.max(1) - 1;
                    self.trace.borrow_mut().interrupts += 1;
                    shm::count(C_WEINTR, 1);
                    return Err(interrupted(k));
                }
                b'z' => {
                    self.trace.borrow_mut().end = End::WriteZero;
                    shm::count(C_WZERO, 1);
                    return Ok(0);
                }
                b'w' | b'e' => {
                    let k = if c == b'w' { 13 } else { k };
                    self.trace.borrow_mut().end = End::WriteErr(k);
                    shm::count(C_WERR, 1);
                    shm::log(k + 100);
                    return Err(make_err(k));
                }
                b'x' => {
                    self.trace.borrow_mut().end = End::WritePanic;
                    shm::count(C_WPANIC, 1);
                    std::panic::panic_any(InjectedPanic);
                }
                b't' => unsafe { shm::sim_sleep(k) },
                _ => {}
            }
        }
        if n < buf.len() {
            shm::count(C_WSHORT, 1);
        }
        self.got.extend_from_slice(&buf[..n]);
        shm::log(n as u64 + 7);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
