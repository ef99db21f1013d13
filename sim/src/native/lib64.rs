//! The 64-bit image with its routines, and which of them use static data.
use super::calls::*;
use super::engine::*;
use super::hints::Hints;
use crate::tape::Tape;
use crate::util::Rng;
use std::collections::{BTreeMap, BTreeSet};

pub struct Lib {
    pub name: String,
    pub img: Image,
    pub fns: Vec<Func>,
    /// routines seen accessing writable static data
    pub shared: Vec<usize>,
    /// arguments with which a routine was seen to do so
    pub hot: Vec<Vec<[u128; 3]>>,
    /// longest run seen, in instructions
    pub len: Vec<u32>,
    /// where each routine refers to static data
    sites: Vec<Vec<u64>>,
    /// references to static data that the search reached, and others
    pub reached: (u64, u64),
    solo: Box<Ctx>,
    pub steps: u64,
}

/// Longest memory operands.
pub const MAX_LEN: u64 = 1900;

/// Calls tried to reach references to static data.
const SEARCH: u32 = 3_000_000;

/// Stack used for calls made alone.
pub const SOLO: usize = 12;
pub const SOLO_SLOT: u64 = SLOTS as u64 - 1;
pub const NSTACKS: usize = 16;

pub fn map_world() {
    init();
    map_stacks(NSTACKS);
    map_fixed(ARENA, SLOTS * SLOT as usize, P_RW);
}

impl Lib {
    pub fn load(name: &str, path: &str) -> Lib {
        let img = Image::load(path);
        let mut fns = table(&img);
        let h = Hints::of(&img);
        let mut sites = Vec::new();
        for f in &mut fns {
            let (hints, s) = h.routine(f.addr);
            f.hints = hints.into();
            sites.push(s);
        }
        super::explore::inform(&mut fns, path);
        let n = fns.len();
        Lib { name: name.to_string(), img, fns, shared: Vec::new(), hot: vec![Vec::new(); n], len: vec![0; n], sites, reached: (0, 0), solo: Ctx::new(), steps: 0 }
    }
    /// The call as the only one ever made in a fresh process.
    pub fn alone(&mut self, call: &Call) -> Result<Res, String> {
        self.img.pristine();
        self.solo.reset();
        let f = &self.fns[call.f];
        prepare(&mut self.solo, f, call, SOLO_SLOT, stack_top(SOLO) - 8);
        match resume(&mut self.solo, false) {
            Ev::Ret => Ok(result(&self.solo, f, SOLO_SLOT)),
            e => Err(format!("{e:?} at {}", self.img.name_of(self.solo.rip))),
        }
    }
    /// Does this call use static data, and where?
    fn touches(&mut self, call: &Call) -> Vec<u64> {
        self.solo.reset();
        prepare(&mut self.solo, &self.fns[call.f], call, SOLO_SLOT, stack_top(SOLO) - 8);
        self.img.set_open(false);
        let mut v = Vec::new();
        // a few accesses are followed, then the data are made pristine again
        while v.len() < 20 {
            let Ev::Fault { addr, .. } = resume(&mut self.solo, false) else { break };
            if !self.img.in_data(addr) {
                break;
            }
            v.push(self.solo.rip);
            self.img.set_open(true);
            let e = resume(&mut self.solo, true);
            self.img.set_open(false);
            if e != Ev::Step {
                break;
            }
        }
        if !v.is_empty() {
            self.img.pristine();
        }
        v
    }
    /// Find the routines that use static data and how long routines run.
    pub fn discover(&mut self, samples: u32, stepped: u32) {
        self.img.pristine();
        let mut found = BTreeSet::new();
        for i in 0..self.fns.len() {
            let mut rng = Rng::new(0x1000 + i as u64);
            let mut kept = BTreeMap::new();
            for s in 0..samples {
                let mut t = Tape::search(rng.next());
                let call = Call { f: i, a: gen_args(&mut t, &self.fns[i], MAX_LEN) };
                self.keep(&call, &mut kept, &mut found);
                if self.hot[i].len() >= 24 {
                    break;
                }
                if s < stepped {
                    self.img.pristine();
                    self.solo.reset();
                    prepare(&mut self.solo, &self.fns[i], &call, SOLO_SLOT, stack_top(SOLO) - 8);
                    let mut n = 0;
                    while n < 3000 && resume(&mut self.solo, true) == Ev::Step && self.solo.rip != SENTINEL {
                        n += 1;
                    }
                    self.len[i] = self.len[i].max(n);
                }
            }
        }
        // references to static data that were not reached are worth a longer search
        let open = |sites: &[u64], found: &BTreeSet<u64>| sites.iter().any(|x| !(1..14).any(|d| found.contains(&(x - d))));
        let todo: Vec<usize> = (0..self.fns.len()).filter(|&i| open(&self.sites[i], &found)).collect();
        for &i in &todo {
            let mut rng = Rng::new(0x2000 + i as u64);
            let mut kept = BTreeMap::new();
            for s in 0..(SEARCH / todo.len() as u32).min(SEARCH / 15) {
                if s % 1000 == 0 && !open(&self.sites[i], &found) {
                    break;
                }
                let mut t = Tape::search(rng.next());
                let call = Call { f: i, a: gen_args(&mut t, &self.fns[i], MAX_LEN) };
                self.keep(&call, &mut kept, &mut found);
            }
        }
        let all: BTreeSet<u64> = self.sites.iter().flatten().copied().collect();
        let hit = all.iter().filter(|x| (1..14).any(|d| found.contains(&(*x - d)))).count();
        self.reached = (hit as u64, (all.len() - hit) as u64);
        self.shared = (0..self.fns.len()).filter(|&i| !self.hot[i].is_empty()).collect();
        self.img.pristine();
    }
    fn keep(&mut self, call: &Call, kept: &mut BTreeMap<u64, u32>, found: &mut BTreeSet<u64>) {
        let mut new = false;
        for a in self.touches(call) {
            found.insert(a);
            let n = kept.entry(a).or_default();
            *n += 1;
            new |= *n <= 8;
        }
        if new {
            self.hot[call.f].push(call.a);
        }
    }
    pub fn show(&self, c: &Call) -> String {
        show(&self.fns[c.f], c)
    }
    /// Execute the access to static data the thread is stopped at.
    pub fn access(&mut self, c: &mut Ctx) -> Ev {
        self.img.set_open(true);
        let e = resume(c, true);
        self.img.set_open(false);
        self.steps += 1;
        e
    }
}
