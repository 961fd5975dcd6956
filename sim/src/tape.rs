//! The single source of every random choice of a run.
//!
//! A run draws bounded integers from a `Tape`. In generating mode they come from one PRNG seeded by
//! (VERIF_SEED, property, run index); in replay mode they come from a recorded list. The list of values
//! drawn is recorded either way, so a run is a pure function of its tape, and a failing run is minimised by
//! editing the tape (0 is always the simplest choice: no fault, smallest size, plainest variant).
use std::{cell::RefCell, rc::Rc};

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15, 0x1405_7B7E_F767_814F ^ seed.rotate_left(32));
        for _ in 0..4 {
            r.next();
        }
        r
    }
    // splitmix64 over a mixed pair of counters
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0 ^ self.1;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        self.1 = self.1.rotate_left(17).wrapping_add(z | 1);
        z
    }
}

pub fn mix(mut h: u64, x: u64) -> u64 {
    h ^= x.wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_add(h << 6).wrapping_add(h >> 2);
    h = h.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    h ^ (h >> 32)
}
pub fn mix_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut v = [0u8; 8];
        v[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(v));
    }
    mix(h, b.len() as u64)
}

struct Inner {
    rng: Option<Rng>,
    given: Vec<u64>,
    pos: usize,
    out: Vec<u64>,
    dump: Option<std::fs::File>,
    /// While set, values come from here and are not recorded, and sizes are large
    bulk: Option<Rng>,
}

/// Cheap handle; every part of a simulated world shares the same tape
#[derive(Clone)]
pub struct Tape(Rc<RefCell<Inner>>);

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape(Rc::new(RefCell::new(Inner { rng: Some(Rng::new(seed)), given: vec![], pos: 0, out: vec![], dump: None, bulk: None })))
    }
    pub fn replay(given: Vec<u64>) -> Self {
        Tape(Rc::new(RefCell::new(Inner { rng: None, given, pos: 0, out: vec![], dump: None, bulk: None })))
    }
    /// Additionally writes every drawn value to a file at once (used to recover the tape of a dying process)
    pub fn dump_to(&self, f: std::fs::File) {
        self.0.borrow_mut().dump = Some(f);
    }
    pub fn recorded(&self) -> Vec<u64> {
        self.0.borrow().out.clone()
    }
    /// Uniform value in 0..n
    pub fn below(&self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let mut i = self.0.borrow_mut();
        if let Some(ref mut r) = i.bulk {
            return r.next() % n;
        }
        let v = match i.rng {
            Some(ref mut r) => r.next() % n,
            None => {
                let v = i.given.get(i.pos).copied().unwrap_or(0);
                i.pos += 1;
                v.min(n - 1)
            }
        };
        i.out.push(v);
        if let Some(ref mut f) = i.dump {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn usize_below(&self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// True with probability num/den; false is the simple choice
    pub fn chance(&self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&self) -> bool {
        self.below(2) == 1
    }
    /// The first element is the simplest
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.usize_below(xs.len())]
    }
    pub fn u64(&self) -> u64 {
        (self.below(1 << 32) << 32) | self.below(1 << 32)
    }
    /// From now on everything is derived from one drawn seed and sizes are large
    pub fn begin_bulk(&self) {
        let seed = self.below(1 << 32);
        self.0.borrow_mut().bulk = Some(Rng::new(seed));
    }
    pub fn end_bulk(&self) {
        self.0.borrow_mut().bulk = None;
    }
    pub fn is_large(&self) -> bool {
        self.0.borrow().bulk.is_some()
    }
    /// Small sizes often, large ones sometimes
    pub fn size(&self, max: usize) -> usize {
        if self.is_large() {
            return self.range(max - max / 10, max);
        }
        match self.below(8) {
            0 => self.range(0, max.min(2)),
            1..=4 => self.range(0, max.min(6)),
            5..=6 => self.range(0, max.min(20)),
            _ => self.range(0, max),
        }
    }
}
