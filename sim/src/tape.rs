//! Every choice of a run is drawn from a tape.  In search mode the values come from the run's
//! seeded generator and are recorded; in replay mode they come from the record, and a missing
//! value is 0.  Generators are written so that 0 is the simplest choice (no preemption, no fault,
//! smallest scenario), which lets the minimiser shrink the record itself.
use crate::util::Rng;

pub const NS: usize = 3;
/// Stream that builds the scenario (threads, calls, arguments, initial memory).
pub const GEN: usize = 0;
/// Stream of scheduling decisions.
pub const SCHED: usize = 1;
/// Stream of injected faults and environment answers.
pub const FAULT: usize = 2;

pub type Record = [Vec<u64>; NS];

pub struct Tape {
    rng: Option<Rng>,
    src: Record,
    /// Values actually used, normalised.
    pub used: Record,
    pos: [usize; NS],
}

impl Tape {
    pub fn search(seed: u64) -> Self {
        Tape { rng: Some(Rng::new(seed)), src: Default::default(), used: Default::default(), pos: [0; NS] }
    }
    pub fn replay(r: &Record) -> Self {
        Tape { rng: None, src: r.clone(), used: Default::default(), pos: [0; NS] }
    }
    fn fetch(&mut self, st: usize) -> u64 {
        let v = self.src[st].get(self.pos[st]).copied().unwrap_or(0);
        self.pos[st] += 1;
        v
    }
    /// Uniform in 0..n.
    #[inline]
    pub fn below(&mut self, st: usize, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => r.below(n),
            None => {
                let v = self.fetch(st);
                if v >= n {
                    v % n
                } else {
                    v
                }
            }
        };
        self.used[st].push(v);
        v
    }
    /// True with probability num/den; false is the simple choice.
    #[inline]
    pub fn chance(&mut self, st: usize, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        let v = match &mut self.rng {
            Some(r) => (r.below(den) < num) as u64,
            None => (self.fetch(st) != 0) as u64,
        };
        self.used[st].push(v);
        v != 0
    }
    pub fn bits(&mut self, st: usize, bits: u32) -> u64 {
        if bits == 64 {
            let v = match &mut self.rng {
                Some(r) => r.next(),
                None => self.fetch(st),
            };
            self.used[st].push(v);
            v
        } else {
            self.below(st, 1u64 << bits)
        }
    }
    /// Choice among alternatives with weights; index 0 is the simplest.
    pub fn weighted(&mut self, st: usize, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|&x| x as u64).sum();
        let v = match &mut self.rng {
            Some(r) => {
                let mut x = r.below(total);
                let mut i = 0;
                while x >= w[i] as u64 {
                    x -= w[i] as u64;
                    i += 1;
                }
                i as u64
            }
            None => {
                let v = self.fetch(st);
                v.min(w.len() as u64 - 1)
            }
        };
        self.used[st].push(v);
        v as usize
    }
    pub fn pick<'a, T>(&mut self, st: usize, v: &'a [T]) -> &'a T {
        &v[self.below(st, v.len() as u64) as usize]
    }
}
