//! Readers: every way of delivering the same bytes, with short reads, interruptions, faults, and a
//! budget of calls so that an endless loop is an immediate, deterministic failure.

use crate::engine::{splitmix, Gen};
use serde::{Deserialize, Serialize};
use std::io::{BufReader, Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum ReaderKind {
    Cursor,
    /// std BufReader of some capacity on an in-memory file
    Buf(usize),
    /// reads return at most so many bytes, and are interrupted from time to time
    Chunk {
        seed: u64,
        max: usize,
    },
    BufChunk {
        cap: usize,
        seed: u64,
        max: usize,
    },
}

pub fn gen_reader(g: &mut Gen) -> ReaderKind {
    match g.weighted(&[4, 3, 2, 3]) {
        0 => ReaderKind::Cursor,
        1 => ReaderKind::Buf(gen_cap(g)),
        2 => ReaderKind::Chunk {
            seed: g.u64(),
            max: g.pick(&[1, 2, 3, 7, 13, 79, 81, 500, 2880, 100_000]),
        },
        _ => ReaderKind::BufChunk {
            cap: gen_cap(g),
            seed: g.u64(),
            max: g.pick(&[1, 3, 13, 80, 500, 2879, 100_000]),
        },
    }
}

pub fn gen_cap(g: &mut Gen) -> usize {
    match g.weighted(&[3, 3, 2]) {
        0 => 8192,
        1 => g.pick(&[1, 2, 3, 5, 7, 8, 16, 64, 79, 80, 81, 100, 2879, 2880, 2881, 4096]),
        _ => g.usize(1, 6000),
    }
}

/// An I/O fault
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Fault {
    /// reads that would deliver this byte fail
    pub at: u64,
    /// it fails this many times, then works again
    pub times: u32,
    pub kind: u8,
}

pub const FAULT_KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
];

/// In-memory file delivering its bytes as it wants to
#[derive(Clone)]
pub struct Chunk {
    pub data: Arc<Vec<u8>>,
    pub pos: u64,
    pub seed: u64,
    pub max: usize,
    pub interrupts: bool,
    pub budget: u64,
    pub fault: Option<Fault>,
    pub faulted: u32,
}

impl std::fmt::Debug for Chunk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Chunk({}/{})", self.pos, self.data.len())
    }
}

impl Chunk {
    pub fn new(data: Arc<Vec<u8>>, seed: u64, max: usize) -> Self {
        let budget = 4_000_000 + 40 * data.len() as u64;
        Chunk {
            data,
            pos: 0,
            seed,
            max,
            interrupts: true,
            budget,
            fault: None,
            faulted: 0,
        }
    }
    fn spend(&mut self) {
        self.budget = self
            .budget
            .checked_sub(1)
            .expect("reader called too many times: endless loop");
    }
}

impl Read for Chunk {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.spend();
        if buf.is_empty() {
            return Ok(0);
        }
        let r = splitmix(&mut self.seed);
        if self.interrupts && r % 11 == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let len = self.data.len() as u64;
        let avail = len.saturating_sub(self.pos);
        let mut n = (buf.len() as u64).min(avail).min(self.max as u64);
        if n > 1 && self.interrupts {
            n = 1 + (r >> 8) % n;
        }
        if let Some(f) = &self.fault {
            if self.faulted < f.times && self.pos <= f.at {
                if self.pos == f.at {
                    self.faulted += 1;
                    return Err(FAULT_KINDS[f.kind as usize % FAULT_KINDS.len()].into());
                }
                // deliver what comes before
                n = n.min(f.at - self.pos);
            }
        }
        let p = self.pos as usize;
        if n > 0 {
            buf[..n as usize].copy_from_slice(&self.data[p..p + n as usize]);
        }
        self.pos += n;
        Ok(n as usize)
    }
}

fn seek_to(pos: SeekFrom, cur: u64, len: u64) -> Result<u64> {
    let (base, off) = match pos {
        SeekFrom::Start(n) => return Ok(n),
        SeekFrom::End(n) => (len, n),
        SeekFrom::Current(n) => (cur, n),
    };
    base.checked_add_signed(off).ok_or(Error::new(
        ErrorKind::InvalidInput,
        "invalid seek to a negative or overflowing position",
    ))
}

impl Seek for Chunk {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        self.spend();
        self.pos = seek_to(pos, self.pos, self.data.len() as u64)?;
        Ok(self.pos)
    }
}

/// A big file of zeros with some bytes here and there
#[derive(Clone)]
pub struct Sparse {
    pub segments: Arc<Vec<(u64, Vec<u8>)>>,
    pub len: u64,
    pub pos: u64,
    pub budget: u64,
}

impl std::fmt::Debug for Sparse {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Sparse({}/{})", self.pos, self.len)
    }
}

impl Sparse {
    pub fn new(segments: Vec<(u64, Vec<u8>)>, len: u64) -> Self {
        Sparse {
            segments: Arc::new(segments),
            len,
            pos: 0,
            budget: 200_000,
        }
    }
    fn spend(&mut self) {
        self.budget = self
            .budget
            .checked_sub(1)
            .expect("reader called too many times: endless loop");
    }
}

impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.spend();
        let n = (buf.len() as u64).min(self.len.saturating_sub(self.pos));
        let buf = &mut buf[..n as usize];
        buf.fill(0);
        for (off, bytes) in self.segments.iter() {
            let (s, e) = (*off, *off + bytes.len() as u64);
            let (a, b) = (s.max(self.pos), e.min(self.pos + n));
            if a < b {
                buf[(a - self.pos) as usize..(b - self.pos) as usize]
                    .copy_from_slice(&bytes[(a - s) as usize..(b - s) as usize]);
            }
        }
        self.pos += n;
        Ok(n as usize)
    }
}

impl Seek for Sparse {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        self.spend();
        self.pos = seek_to(pos, self.pos, self.len)?;
        Ok(self.pos)
    }
}

/// Any of the readers. Every method is forwarded so that the wrapped reader's own is used.
#[derive(Debug)]
pub enum AnyReader {
    Cursor(Cursor<Vec<u8>>),
    Buf(BufReader<Cursor<Vec<u8>>>),
    Chunk(Chunk),
    BufChunk(BufReader<Chunk>),
}

impl AnyReader {
    pub fn new(kind: &ReaderKind, data: &[u8]) -> Self {
        match kind {
            ReaderKind::Cursor => AnyReader::Cursor(Cursor::new(data.to_vec())),
            ReaderKind::Buf(cap) => {
                AnyReader::Buf(BufReader::with_capacity(*cap, Cursor::new(data.to_vec())))
            }
            ReaderKind::Chunk { seed, max } => {
                AnyReader::Chunk(Chunk::new(Arc::new(data.to_vec()), *seed, *max))
            }
            ReaderKind::BufChunk { cap, seed, max } => AnyReader::BufChunk(
                BufReader::with_capacity(*cap, Chunk::new(Arc::new(data.to_vec()), *seed, *max)),
            ),
        }
    }
    /// A std reader of the same kind is cloneable only when it is not buffered
    pub fn try_clone(&self) -> Option<Self> {
        match self {
            AnyReader::Cursor(c) => Some(AnyReader::Cursor(c.clone())),
            AnyReader::Chunk(c) => Some(AnyReader::Chunk(c.clone())),
            _ => None,
        }
    }
}

macro_rules! each {
    ($s:expr, $r:ident => $e:expr) => {
        match $s {
            AnyReader::Cursor($r) => $e,
            AnyReader::Buf($r) => $e,
            AnyReader::Chunk($r) => $e,
            AnyReader::BufChunk($r) => $e,
        }
    };
}

impl Read for AnyReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        each!(self, r => r.read(buf))
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        each!(self, r => r.read_exact(buf))
    }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> Result<usize> {
        each!(self, r => r.read_to_end(buf))
    }
}

impl Seek for AnyReader {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        each!(self, r => r.seek(pos))
    }
    fn stream_position(&mut self) -> Result<u64> {
        each!(self, r => r.stream_position())
    }
    fn seek_relative(&mut self, off: i64) -> Result<()> {
        each!(self, r => r.seek_relative(off))
    }
}

// ------------------------------------------------------------------ asynchronous

use futures::io::AsyncRead;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Schedule {
    pub seed: u64,
    /// at most so many bytes are ready at once
    pub max: usize,
    /// out of 8: how often the reader is not ready
    pub pending: u8,
    /// capacity of the buffer
    pub cap: usize,
}

pub fn gen_schedule(g: &mut Gen) -> Schedule {
    Schedule {
        seed: g.u64(),
        max: g.pick(&[100_000, 1, 2, 3, 5, 7, 8, 79, 80, 81, 1000, 2879, 2880, 2881]),
        pending: g.pick(&[0, 1, 4, 7]),
        cap: gen_cap(g),
    }
}

#[derive(Debug)]
pub struct AsyncChunk {
    pub data: Arc<Vec<u8>>,
    pub pos: usize,
    pub sched: Schedule,
    pub fault: Option<Fault>,
    pub faulted: u32,
}

impl AsyncChunk {
    pub fn new(data: Arc<Vec<u8>>, sched: &Schedule) -> Self {
        AsyncChunk {
            data,
            pos: 0,
            sched: sched.clone(),
            fault: None,
            faulted: 0,
        }
    }
}

impl AsyncRead for AsyncChunk {
    fn poll_read(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut [u8],
    ) -> Poll<Result<usize>> {
        let r = splitmix(&mut self.sched.seed);
        if r % 8 < self.sched.pending as u64 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut n = buf
            .len()
            .min(self.data.len() - self.pos)
            .min(self.sched.max);
        if n > 1 && r >> 60 < 8 {
            n = 1 + (r >> 8) as usize % n;
        }
        if let Some(f) = self.fault.clone() {
            if self.faulted < f.times && self.pos as u64 <= f.at {
                if self.pos as u64 == f.at {
                    self.faulted += 1;
                    return Poll::Ready(Err(
                        FAULT_KINDS[f.kind as usize % FAULT_KINDS.len()].into()
                    ));
                }
                n = n.min((f.at - self.pos as u64) as usize);
            }
        }
        let p = self.pos;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n;
        Poll::Ready(Ok(n))
    }
}

/// The same, asynchronous
impl AsyncRead for Sparse {
    fn poll_read(
        mut self: Pin<&mut Self>,
        _: &mut Context<'_>,
        buf: &mut [u8],
    ) -> Poll<Result<usize>> {
        Poll::Ready(self.read(buf))
    }
}

struct Flag(std::sync::atomic::AtomicBool);
impl std::task::Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, std::sync::atomic::Ordering::SeqCst);
    }
}

/// Poll until ready. A task that is not ready without having been woken would never be polled again.
pub fn run<T>(mut poll: impl FnMut(&mut Context<'_>) -> Poll<T>) -> T {
    let flag = Arc::new(Flag(std::sync::atomic::AtomicBool::new(false)));
    let waker = std::task::Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    for _ in 0..5_000_000u64 {
        match poll(&mut cx) {
            Poll::Ready(v) => return v,
            Poll::Pending => {
                if !flag.0.swap(false, std::sync::atomic::Ordering::SeqCst) {
                    panic!("not ready, and nothing will wake the task: it hangs forever");
                }
            }
        }
    }
    panic!("polled too many times: endless loop");
}
