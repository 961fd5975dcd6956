//! One simulated execution: its tape, its event log, what it covered, and how it may end.
use crate::tape::{mix, Tape};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

/// Text of every panic the simulator injects
pub const INJECTED: &str = "SIM-INJECTED-PANIC";

#[derive(Clone, Debug)]
pub struct Viol {
    /// kind of violation; minimisation keeps it
    pub class: String,
    pub msg: String,
}
pub type Verdict = Result<(), Viol>;

#[macro_export]
macro_rules! bail {
    ($class:expr, $($arg:tt)*) => {
        return Err($crate::world::Viol { class: $class.to_string(), msg: format!($($arg)*) })
    };
}

#[derive(Default, Clone, Debug)]
pub struct Cover {
    pub hits: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub steps: u64,
    pub io_calls: u64,
}

pub struct Ctx {
    pub t: Tape,
    pub tracing: bool,
    pub trace: RefCell<Vec<String>>,
    pub cover: RefCell<Cover>,
    log: Cell<u64>,
    nontrivial: Cell<bool>,
}
impl Ctx {
    pub fn new(t: Tape, tracing: bool) -> Self {
        Ctx { t, tracing, trace: RefCell::new(vec![]), cover: Default::default(), log: Cell::new(0), nontrivial: Cell::new(false) }
    }
    pub fn note(&self, f: impl FnOnce() -> String) {
        if self.tracing {
            self.trace.borrow_mut().push(f());
        }
    }
    /// a rare condition was reached
    pub fn hit(&self, what: &str) {
        let mut c = self.cover.borrow_mut();
        match c.hits.get_mut(what) {
            Some(x) => *x += 1,
            None => {
                c.hits.insert(what.to_string(), 1);
            }
        }
    }
    pub fn hit_if(&self, b: bool, what: &str) {
        if b {
            self.hit(what)
        }
    }
    /// faults that actually fired
    pub fn fault(&self, kind: &str, n: u64) {
        if n > 0 {
            self.nontrivial.set(true);
            let mut c = self.cover.borrow_mut();
            match c.faults.get_mut(kind) {
                Some(x) => *x += n,
                None => {
                    c.faults.insert(kind.to_string(), n);
                }
            }
        }
    }
    /// an event of the execution
    pub fn event(&self, h: u64) {
        self.log.set(mix(self.log.get(), h));
    }
    pub fn event_str(&self, s: &str) {
        self.log.set(crate::tape::mix_bytes(self.log.get(), s.as_bytes()));
    }
    pub fn step(&self) {
        self.cover.borrow_mut().steps += 1;
    }
    pub fn hash(&self) -> u64 {
        self.log.get()
    }
    pub fn interesting(&self) {
        self.nontrivial.set(true);
    }
    pub fn nontrivial(&self) -> bool {
        self.nontrivial.get()
    }
    pub fn stream(&self, s: &crate::simio::Stats) {
        self.event(s.log);
        self.fault("read interrupted (EINTR)", s.interrupts);
        self.fault("short read", s.short);
        self.fault("read error", s.faults);
        self.fault("seek error", s.seek_faults);
        let mut c = self.cover.borrow_mut();
        c.io_calls += s.calls + s.seeks;
        c.steps += s.calls + s.seeks;
    }
    pub fn sink(&self, s: &crate::simio::Stats) {
        self.event(s.log);
        self.fault("write interrupted (EINTR)", s.interrupts);
        self.fault("short write", s.short);
        self.fault("write error / full sink", s.faults);
        let mut c = self.cover.borrow_mut();
        c.io_calls += s.calls;
        c.steps += s.calls;
    }
}
