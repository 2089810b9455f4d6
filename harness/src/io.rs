//! Adversarial readers and writers.

use serde::{Deserialize, Serialize};
use std::io::{self, ErrorKind, Read, Write};

/// One step of a schedule: transfer at most n bytes (n >= 1), or be interrupted.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Step {
    Give(u32),
    Interrupt,
}

pub const EOF_LIMIT: usize = 10_000;

/// Delivers `data` following a cyclic schedule; the last schedule entry must not be all interrupts.
pub struct ChunkReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub plan: &'a [Step],
    pub i: usize,
    pub eof_reads: usize,
    pub calls: usize,
}

impl<'a> ChunkReader<'a> {
    pub fn new(data: &'a [u8], plan: &'a [Step]) -> Self {
        ChunkReader { data, pos: 0, plan, i: 0, eof_reads: 0, calls: 0 }
    }
    fn step(&mut self) -> Step {
        if self.plan.is_empty() {
            return Step::Give(u32::MAX);
        }
        let s = self.plan[self.i % self.plan.len()];
        self.i += 1;
        s
    }
}

impl Read for ChunkReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        let n = match self.step() {
            // never more than 8 interruptions in a row, so that every retrying caller makes progress
            Step::Interrupt if self.i % 9 != 0 => return Err(io::Error::new(ErrorKind::Interrupted, "interrupted")),
            Step::Interrupt => 1,
            Step::Give(n) => n.max(1) as usize,
        };
        let n = n.min(buf.len()).min(self.data.len() - self.pos);
        if n == 0 && !buf.is_empty() {
            self.eof_reads += 1;
            if self.eof_reads > EOF_LIMIT {
                panic!("the reader was called {} times after the end of the input", self.eof_reads);
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Accepts bytes following a cyclic schedule.
pub struct ChunkWriter<'a> {
    pub data: Vec<u8>,
    pub plan: &'a [Step],
    pub i: usize,
    pub calls: usize,
}

impl<'a> ChunkWriter<'a> {
    pub fn new(plan: &'a [Step]) -> Self {
        ChunkWriter { data: Vec::new(), plan, i: 0, calls: 0 }
    }
}

impl Write for ChunkWriter<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        let s = if self.plan.is_empty() { Step::Give(u32::MAX) } else { self.plan[self.i % self.plan.len()] };
        self.i += 1;
        let n = match s {
            Step::Interrupt if self.i % 9 != 0 => return Err(io::Error::new(ErrorKind::Interrupted, "interrupted")),
            Step::Interrupt => 1,
            Step::Give(n) => n.max(1) as usize,
        };
        let n = n.min(buf.len());
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Other,
    Pipe,
    Reset,
    Denied,
    WouldBlock,
    TimedOut,
    Eof,
    InvalidData,
}

pub const KINDS: [Kind; 8] =
    [Kind::Other, Kind::Pipe, Kind::Reset, Kind::Denied, Kind::WouldBlock, Kind::TimedOut, Kind::Eof, Kind::InvalidData];

impl Kind {
    pub fn err(self) -> io::Error {
        let k = match self {
            Kind::Other => ErrorKind::Other,
            Kind::Pipe => ErrorKind::BrokenPipe,
            Kind::Reset => ErrorKind::ConnectionReset,
            Kind::Denied => ErrorKind::PermissionDenied,
            Kind::WouldBlock => ErrorKind::WouldBlock,
            Kind::TimedOut => ErrorKind::TimedOut,
            Kind::Eof => ErrorKind::UnexpectedEof,
            Kind::InvalidData => ErrorKind::InvalidData,
        };
        io::Error::new(k, "injected")
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum When {
    /// Fail the n-th call (0-based) and every later one.
    Call(u64),
    /// Fail once n bytes were transferred.
    Byte(u64),
    /// Fail only the n-th call; later calls succeed again.
    CallOnce(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fault {
    Error(Kind),
    /// Reader: the input ends. Writer: write returns Ok(0).
    Stop,
}

/// Limits calls so that a caller that ignores Ok(0) cannot loop for ever.
pub struct FaultIo<'a> {
    pub data: &'a [u8],
    pub out: Vec<u8>,
    pub pos: usize,
    pub calls: u64,
    pub chunk: usize,
    pub when: When,
    pub fault: Fault,
    pub fired: u64,
    pub flush_fault: bool,
}

impl<'a> FaultIo<'a> {
    pub fn new(data: &'a [u8], when: When, fault: Fault, chunk: usize) -> Self {
        FaultIo { data, out: Vec::new(), pos: 0, calls: 0, chunk: chunk.max(1), when, fault, fired: 0, flush_fault: false }
    }
    fn check(&mut self, want: usize) -> Result<usize, io::Result<usize>> {
        let call = self.calls;
        self.calls += 1;
        let mut n = want.min(self.chunk);
        let fire = match self.when {
            When::Call(c) => call >= c,
            When::CallOnce(c) => call == c,
            When::Byte(b) => {
                let done = self.pos as u64;
                if done >= b {
                    true
                } else {
                    n = n.min((b - done) as usize);
                    false
                }
            }
        };
        if fire && want > 0 {
            self.fired += 1;
            if self.fired as usize > EOF_LIMIT {
                panic!("called {} times after the failure", self.fired);
            }
            return Err(match self.fault {
                Fault::Error(k) => Err(k.err()),
                Fault::Stop => Ok(0),
            });
        }
        Ok(n)
    }
}

impl Read for FaultIo<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.check(buf.len()) {
            Err(r) => r,
            Ok(n) => {
                let n = n.min(self.data.len() - self.pos);
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
}

impl Write for FaultIo<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self.check(buf.len()) {
            Err(r) => r,
            Ok(n) => {
                self.out.extend_from_slice(&buf[..n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.fired > 0 {
            if let Fault::Error(k) = self.fault {
                return Err(k.err());
            }
        }
        Ok(())
    }
}
