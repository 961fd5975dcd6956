//! The I/O world: simulated input streams, output sinks and storage.
//!
//! Everything a loader or saver can observe of its reader / writer is decided here, by a plan drawn from the
//! run's tape: how many bytes each call delivers, which calls are interrupted, where and how a call fails,
//! where the data ends. Every call is an event; the hash of the event log identifies the execution.
use crate::tape::{mix, Tape};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

pub const HARD_KINDS: [ErrorKind; 12] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::OutOfMemory,
    ErrorKind::WriteZero,
    ErrorKind::InvalidInput,
];

/// Raised (as a panic) when the code under test makes more calls than any terminating execution could
pub const BUDGET: &str = "SIM-BUDGET";

#[derive(Clone, Debug)]
pub struct Fault {
    pub at: usize,
    pub kind: ErrorKind,
    /// how often the call fails before the stream works again; usize::MAX = for good
    pub times: usize,
}

/// How a stream behaves; drawn once, then the stream is a deterministic automaton
#[derive(Clone, Debug)]
pub struct Plan {
    /// sizes of successive deliveries, used cyclically; 0 = as much as asked for
    pub chunks: Vec<usize>,
    /// calls (by number) interrupted, with the length of the burst of interruptions
    pub interrupts: Vec<(usize, usize)>,
    /// interrupt every n-th call as well (0: none)
    pub interrupt_every: usize,
    /// None: the code reads the simulated stream's own BufRead; Some(n): through a std BufReader of capacity n
    pub bufreader: Option<usize>,
    pub fault: Option<Fault>,
    /// the n-th seek fails
    pub seek_fail: Option<(usize, ErrorKind)>,
    /// panic inside the n-th stream call
    pub panic_at: Option<usize>,
}

impl Plan {
    pub fn plain() -> Self {
        Plan { chunks: vec![0], interrupts: vec![], interrupt_every: 0, bufreader: None, fault: None, seek_fail: None, panic_at: None }
    }
    /// Draws a delivery plan without hard faults. `marks` are interesting offsets (record boundaries)
    pub fn draw(t: &Tape, marks: &[usize]) -> Self {
        let mut p = Plan::plain();
        p.chunks = match t.below(8) {
            0 => vec![0],
            1 => vec![1],
            2 => vec![t.range(1, 16)],
            3 => (0..t.range(2, 5)).map(|_| t.range(1, 9)).collect(),
            4 => (0..t.range(2, 6)).map(|_| t.range(0, 40)).collect(),
            5 => vec![t.range(1, 64), 1],
            _ => {
                // split exactly around the marks (or one byte before / after)
                let off = t.range(0, 2);
                let mut cuts: Vec<usize> = marks.iter().map(|m| (m + off).saturating_sub(1)).filter(|m| *m > 0).collect();
                cuts.sort();
                cuts.dedup();
                cuts.truncate(64);
                let mut last = 0;
                let mut v = vec![];
                for c in cuts {
                    if c > last {
                        v.push(c - last);
                        last = c;
                    }
                }
                if v.is_empty() {
                    v.push(2);
                }
                v
            }
        };
        if t.chance(1, 2) {
            p.interrupts = (0..t.range(1, 4)).map(|_| (t.usize_below(40), t.range(1, 5))).collect();
        }
        if t.chance(1, 5) {
            p.interrupt_every = t.range(2, 5);
        }
        p.bufreader = match t.below(4) {
            0 | 1 => None,
            2 => Some(t.range(1, 24)),
            _ => Some(*t.pick(&[32usize, 64, 100, 512, 8192])),
        };
        p
    }
    pub fn with_fault(mut self, t: &Tape, at: usize) -> Self {
        self.fault = Some(Fault {
            at,
            kind: *t.pick(&HARD_KINDS),
            times: *t.pick(&[usize::MAX, 1, 2]),
        });
        self
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub calls: u64,
    pub seeks: u64,
    pub log: u64,
    pub interrupts: u64,
    pub short: u64,
    pub faults: u64,
    pub seek_faults: u64,
    pub eofs: u64,
    pub first_fault: Option<usize>,
}

pub type Shared = Rc<RefCell<Stats>>;

pub struct Stream {
    data: Rc<Vec<u8>>,
    pos: usize,
    /// exclusive end of the window handed out by fill_buf and not yet consumed
    win: usize,
    i_chunk: usize,
    burst: usize,
    n_reads: usize,
    faults_left: usize,
    plan: Plan,
    budget: u64,
    pub stats: Shared,
}

impl Stream {
    pub fn new(data: Rc<Vec<u8>>, plan: Plan) -> Self {
        let budget = 2000 + 12 * data.len() as u64;
        Stream {
            faults_left: plan.fault.as_ref().map(|f| f.times).unwrap_or(0),
            data,
            pos: 0,
            win: 0,
            i_chunk: 0,
            burst: 0,
            n_reads: 0,
            plan,
            budget,
            stats: Rc::new(RefCell::new(Stats::default())),
        }
    }
    fn event(&self, a: u64, b: u64) {
        let mut s = self.stats.borrow_mut();
        s.log = mix(mix(s.log, a), b);
    }
    /// One delivery of at most `want` bytes: the number delivered, or the error the caller sees
    fn deliver(&mut self, want: usize) -> Result<usize> {
        crate::seam::point();
        {
            let mut s = self.stats.borrow_mut();
            s.calls += 1;
            if s.calls > self.budget {
                drop(s);
                panic!("{}: more than {} reads on a stream of {} bytes", BUDGET, self.budget, self.data.len());
            }
        }
        let n = self.n_reads;
        self.n_reads += 1;
        if self.plan.panic_at == Some(n) {
            self.event(9, n as u64);
            panic!("{}", crate::INJECTED);
        }
        if self.burst == 0 {
            if let Some((_, b)) = self.plan.interrupts.iter().find(|(i, _)| *i == n) {
                self.burst = *b;
            } else if self.plan.interrupt_every > 0 && n % self.plan.interrupt_every == self.plan.interrupt_every - 1 {
                self.burst = 1;
            }
        }
        if self.burst > 0 {
            self.burst -= 1;
            self.stats.borrow_mut().interrupts += 1;
            self.event(1, self.pos as u64);
            return Err(Error::new(ErrorKind::Interrupted, "simulated EINTR"));
        }
        let mut end = self.data.len();
        if let Some(ref f) = self.plan.fault {
            if self.faults_left > 0 && f.at <= self.data.len() {
                if self.pos >= f.at {
                    if self.faults_left != usize::MAX {
                        self.faults_left -= 1;
                    }
                    let mut s = self.stats.borrow_mut();
                    s.faults += 1;
                    if s.first_fault.is_none() {
                        s.first_fault = Some(self.pos);
                    }
                    drop(s);
                    self.event(2, self.pos as u64);
                    return Err(Error::new(f.kind, "simulated I/O error"));
                }
                end = end.min(f.at);
            }
        }
        let avail = end.saturating_sub(self.pos);
        if avail == 0 || want == 0 {
            if want > 0 {
                self.stats.borrow_mut().eofs += 1;
                self.event(3, self.pos as u64);
            }
            return Ok(0);
        }
        let c = self.plan.chunks[self.i_chunk % self.plan.chunks.len()];
        self.i_chunk += 1;
        let full = want.min(avail);
        let n = if c == 0 { full } else { full.min(c) };
        if n < full {
            self.stats.borrow_mut().short += 1;
        }
        self.event(4 + ((n as u64) << 8), self.pos as u64);
        Ok(n)
    }
}

impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if self.win > self.pos {
            let n = buf.len().min(self.win - self.pos);
            buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            return Ok(n);
        }
        let n = self.deliver(buf.len())?;
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        }
        self.pos += n;
        self.win = self.pos;
        Ok(n)
    }
}

impl BufRead for Stream {
    fn fill_buf(&mut self) -> Result<&[u8]> {
        if self.win <= self.pos {
            let n = self.deliver(8192)?;
            self.win = self.pos + n;
        }
        Ok(&self.data[self.pos.min(self.data.len())..self.win.min(self.data.len())])
    }
    fn consume(&mut self, n: usize) {
        assert!(self.pos + n <= self.win, "consumed more than was offered");
        self.pos += n;
    }
}

impl Seek for Stream {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        crate::seam::point();
        let k = {
            let mut s = self.stats.borrow_mut();
            s.seeks += 1;
            s.seeks - 1
        };
        if let Some((i, kind)) = self.plan.seek_fail {
            if i as u64 == k {
                let mut s = self.stats.borrow_mut();
                s.seek_faults += 1;
                drop(s);
                self.event(5, self.pos as u64);
                return Err(Error::new(kind, "simulated seek error"));
            }
        }
        let p = match to {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
            SeekFrom::End(x) => self.data.len() as i128 + x as i128,
        };
        if p < 0 || p > usize::MAX as i128 / 4 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek out of range"));
        }
        self.pos = p as usize;
        self.win = self.pos;
        self.event(6, self.pos as u64);
        Ok(p as u64)
    }
}

/// What loaders are handed (always as `&mut AnyReader`)
pub enum AnyReader {
    Direct(Stream),
    Buffered(BufReader<Stream>),
}
impl AnyReader {
    pub fn new(data: Rc<Vec<u8>>, plan: &Plan) -> Self {
        let s = Stream::new(data, plan.clone());
        match plan.bufreader {
            None => AnyReader::Direct(s),
            Some(n) => AnyReader::Buffered(BufReader::with_capacity(n, s)),
        }
    }
    pub fn of(data: &[u8], plan: &Plan) -> Self {
        Self::new(Rc::new(data.to_vec()), plan)
    }
    pub fn stats(&self) -> Shared {
        match self {
            AnyReader::Direct(s) => s.stats.clone(),
            AnyReader::Buffered(b) => b.get_ref().stats.clone(),
        }
    }
    /// How far the code under test has consumed the stream
    pub fn consumed(&self) -> usize {
        match self {
            AnyReader::Direct(s) => s.pos,
            AnyReader::Buffered(b) => b.get_ref().pos - b.buffer().len(),
        }
    }
}
impl Read for AnyReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        match self {
            AnyReader::Direct(s) => s.read(buf),
            AnyReader::Buffered(s) => s.read(buf),
        }
    }
}
impl BufRead for AnyReader {
    fn fill_buf(&mut self) -> Result<&[u8]> {
        match self {
            AnyReader::Direct(s) => s.fill_buf(),
            AnyReader::Buffered(s) => s.fill_buf(),
        }
    }
    fn consume(&mut self, n: usize) {
        match self {
            AnyReader::Direct(s) => s.consume(n),
            AnyReader::Buffered(s) => s.consume(n),
        }
    }
}
impl Seek for AnyReader {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        match self {
            AnyReader::Direct(s) => s.seek(to),
            AnyReader::Buffered(s) => s.seek(to),
        }
    }
}

//------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum SinkFault {
    /// fails with this kind
    Error(ErrorKind),
    /// accepts nothing any more: Ok(0)
    Zero,
}

#[derive(Clone, Debug)]
pub struct SinkPlan {
    /// bytes accepted by successive write calls, cyclically; 0 = all
    pub accepts: Vec<usize>,
    pub interrupts: Vec<(usize, usize)>,
    pub interrupt_every: usize,
    /// at this many accepted bytes (capacity), with this fault, so many times
    pub fault: Option<(usize, SinkFault, usize)>,
    pub panic_at: Option<usize>,
    /// the saver writes through a std BufWriter of this capacity
    pub bufwriter: Option<usize>,
}
impl SinkPlan {
    pub fn plain() -> Self {
        SinkPlan { accepts: vec![0], interrupts: vec![], interrupt_every: 0, fault: None, panic_at: None, bufwriter: None }
    }
    pub fn draw(t: &Tape) -> Self {
        let mut p = Self::plain();
        p.accepts = match t.below(6) {
            0 => vec![0],
            1 => vec![1],
            2 => vec![t.range(1, 12)],
            3 => (0..t.range(2, 5)).map(|_| t.range(0, 9)).collect(),
            4 => vec![0, t.range(1, 3)],
            _ => {
                let mut v = vec![0; t.range(1, 12)];
                v.push(t.range(1, 3));
                v
            }
        };
        if t.chance(1, 2) {
            p.interrupts = (0..t.range(1, 4)).map(|_| (t.usize_below(60), t.range(1, 4))).collect();
        }
        if t.chance(1, 5) {
            p.interrupt_every = t.range(2, 5);
        }
        p
    }
    pub fn with_fault(mut self, t: &Tape, at: usize) -> Self {
        let f = match t.below(4) {
            0 => SinkFault::Error(ErrorKind::StorageFull),
            1 => SinkFault::Zero,
            _ => SinkFault::Error(*t.pick(&HARD_KINDS)),
        };
        self.fault = Some((at, f, *t.pick(&[usize::MAX, 1, 2])));
        self
    }
}

/// A sink that records exactly what it accepted
pub struct Sink {
    pub accepted: Vec<u8>,
    pub plan: SinkPlan,
    i: usize,
    n: usize,
    burst: usize,
    left: usize,
    budget: u64,
    pub stats: Stats,
    pub flushes: u64,
}
impl Sink {
    pub fn new(plan: SinkPlan) -> Self {
        Sink {
            left: plan.fault.as_ref().map(|f| f.2).unwrap_or(0),
            accepted: vec![],
            plan,
            i: 0,
            n: 0,
            burst: 0,
            budget: 4_000_000,
            stats: Stats::default(),
            flushes: 0,
        }
    }
    fn event(&mut self, a: u64, b: u64) {
        self.stats.log = mix(mix(self.stats.log, a), b);
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        crate::seam::point();
        self.stats.calls += 1;
        // writes of a byte each, and interruptions, are fine as long as there is progress towards an end
        if self.stats.calls > self.budget + 64 * self.accepted.len() as u64 || self.accepted.len() > 1 << 29 {
            panic!("{}: {} writes, {} bytes", BUDGET, self.stats.calls, self.accepted.len());
        }
        let n = self.n;
        self.n += 1;
        if self.plan.panic_at == Some(n) {
            self.event(9, n as u64);
            panic!("{}", crate::INJECTED);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.burst == 0 {
            if let Some((_, b)) = self.plan.interrupts.iter().find(|(i, _)| *i == n) {
                self.burst = *b;
            } else if self.plan.interrupt_every > 0 && n % self.plan.interrupt_every == self.plan.interrupt_every - 1 {
                self.burst = 1;
            }
        }
        let len = self.accepted.len();
        if self.burst > 0 {
            self.burst -= 1;
            self.stats.interrupts += 1;
            self.event(1, len as u64);
            return Err(Error::new(ErrorKind::Interrupted, "simulated EINTR"));
        }
        let mut room = usize::MAX;
        if let Some((at, ref f, _)) = self.plan.fault {
            if self.left > 0 {
                if len >= at {
                    if self.left != usize::MAX {
                        self.left -= 1;
                    }
                    self.stats.faults += 1;
                    if self.stats.first_fault.is_none() {
                        self.stats.first_fault = Some(len);
                    }
                    let f = f.clone();
                    self.event(2, len as u64);
                    return match f {
                        SinkFault::Error(k) => Err(Error::new(k, "simulated sink error")),
                        SinkFault::Zero => Ok(0),
                    };
                }
                room = at - len;
            }
        }
        let a = self.plan.accepts[self.i % self.plan.accepts.len()];
        self.i += 1;
        let full = buf.len().min(room);
        let k = if a == 0 { full } else { full.min(a) };
        if k < buf.len() {
            self.stats.short += 1;
        }
        self.event(4 + ((k as u64) << 8), len as u64);
        self.accepted.extend_from_slice(&buf[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> Result<()> {
        self.flushes += 1;
        self.event(7, self.accepted.len() as u64);
        Ok(())
    }
}
