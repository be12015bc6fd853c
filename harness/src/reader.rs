//! A reader that delivers given bytes with short reads, interruptions and failures.
use std::io::{self, Read, Seek, SeekFrom};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

pub struct TestReader {
    pub data: Vec<u8>,
    pub pos: u64,
    /// largest number of bytes delivered per read (0: no limit)
    pub chunk: usize,
    /// every `intr`-th read is interrupted (0: never)
    pub intr: u64,
    /// interruptions before every read that is none
    pub burst: u64,
    stopped: u64,
    /// reads at or beyond this offset fail (-1: never)
    pub fault: i64,
    /// kind of the failure
    pub kind: io::ErrorKind,
    /// seeks to the failing offset or beyond it fail, too
    pub seekfail: bool,
    /// there is only one failure
    pub once: bool,
    /// bytes that are there so far (more may be written while others are read)
    pub there: Option<Arc<AtomicUsize>>,
    reads: u64,
}
pub const KINDS: [io::ErrorKind; 17] = {
    use io::ErrorKind::*;
    [Other, WouldBlock, TimedOut, BrokenPipe, PermissionDenied, InvalidData, InvalidInput, ConnectionReset, NotFound,
     AlreadyExists, WriteZero, ConnectionAborted, NotConnected, Unsupported, OutOfMemory, AddrInUse, ConnectionRefused]
};
pub fn failure(kind: io::ErrorKind) -> io::Error {
    io::Error::new(kind, "injected")
}
impl TestReader {
    pub fn new(data: Vec<u8>, chunk: usize, intr: u64, fault: i64) -> Self {
        Self { data, pos: 0, chunk, intr, burst: 0, stopped: 0, fault, kind: io::ErrorKind::Other, seekfail: false, once: false, there: None, reads: 0 }
    }
    /// Kind and seeks of the failure as the case says.
    pub fn failing_as(mut self, c: &serde_json::Value) -> Self {
        self.kind = KINDS[crate::int(c, "ekind", 0) as usize % KINDS.len()];
        self.seekfail = crate::int(c, "seekfail", 0) > 0;
        self.once = crate::int(c, "once", 0) > 0;
        self.burst = crate::int(c, "burst", 0) as u64;
        self
    }
}
impl Read for TestReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.intr > 0 && self.reads % self.intr == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if self.stopped < self.burst {
            self.stopped += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        self.stopped = 0;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut end = self.there.as_ref().map_or(self.data.len(), |n| n.load(Ordering::SeqCst)) as u64;
        if self.fault >= 0 {
            if self.pos >= self.fault as u64 {
                if self.once {
                    self.fault = -1;
                }
                return Err(failure(self.kind));
            }
            end = end.min(self.fault as u64);
        }
        let avail = end.saturating_sub(self.pos) as usize;
        let mut n = avail.min(buf.len());
        if self.chunk > 0 {
            n = n.min(self.chunk);
        }
        buf[..n].copy_from_slice(&self.data[self.pos.min(end) as usize..][..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for TestReader {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::Current(d) => self.pos as i64 + d,
            SeekFrom::End(d) => self.data.len() as i64 + d,
        };
        if p < 0 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        if self.seekfail && self.fault >= 0 && p >= self.fault {
            if self.once {
                self.fault = -1;
            }
            return Err(failure(self.kind));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
