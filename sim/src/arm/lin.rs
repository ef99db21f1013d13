//! Abstract atomic operations and the linearizability check over a recorded history.
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    Umax,
    Umin,
    Swap,
    Clr,
    Cas,
    /// plain (relaxed) load/store by the environment
    Load,
    Store,
    /// enable the single-instruction atomics (AArch64)
    Enable,
    Fence,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub k: K,
    pub size: u8,
    /// returns the new instead of the old value
    pub ret_new: bool,
    /// byte offset of the target from the start of the window
    pub off: u8,
    /// operand, or expected value for Cas
    pub a: u128,
    /// new value for Cas
    pub b: u128,
    /// routine under test; 0 for environment accesses
    pub f: u64,
    pub name: String,
}

pub fn mask(size: u8) -> u128 {
    if size >= 16 {
        !0
    } else {
        (1u128 << (8 * size as u32)) - 1
    }
}

fn sx(v: u128, size: u8) -> i128 {
    let s = 128 - 8 * size as u32;
    ((v << s) as i128) >> s
}

impl Op {
    pub fn eval(&self, old: u128) -> (Option<u128>, u128) {
        let m = mask(self.size);
        let (a, b) = (self.a & m, self.b & m);
        let new = match self.k {
            K::Add => old.wrapping_add(a),
            K::Sub => old.wrapping_sub(a),
            K::And => old & a,
            K::Or => old | a,
            K::Xor => old ^ a,
            K::Nand => !(old & a),
            K::Clr => old & !a,
            K::Max => if sx(old, self.size) > sx(a, self.size) { old } else { a },
            K::Min => if sx(old, self.size) < sx(a, self.size) { old } else { a },
            K::Umax => old.max(a),
            K::Umin => old.min(a),
            K::Swap => a,
            K::Cas => {
                return if old == a { (Some(b), old) } else { (None, old) };
            }
            K::Load => return (None, old),
            K::Store => return (Some(a), 0),
            K::Enable | K::Fence => return (None, 0),
        } & m;
        (Some(new), if self.ret_new { new } else { old })
    }
    pub fn text(&self) -> String {
        match self.k {
            K::Cas => format!("{}(+{}, expect {:#x}, new {:#x})", self.name, self.off, self.a & mask(self.size), self.b & mask(self.size)),
            K::Load => format!("load{}(+{})", self.size, self.off),
            K::Store => format!("store{}(+{}, {:#x})", self.size, self.off, self.a & mask(self.size)),
            K::Enable | K::Fence => self.name.clone(),
            _ => format!("{}(+{}, {:#x})", self.name, self.off, self.a & mask(self.size)),
        }
    }
    fn get(&self, win: &[u8; 16], big: bool) -> u128 {
        let b = &win[self.off as usize..self.off as usize + self.size as usize];
        let mut v = 0u128;
        for k in 0..b.len() {
            let x = if big { b[k] } else { b[b.len() - 1 - k] };
            v = v << 8 | x as u128;
        }
        v
    }
    fn put(&self, win: &mut [u8; 16], v: u128, big: bool) {
        let n = self.size as usize;
        for k in 0..n {
            let sh = if big { 8 * (n - 1 - k) } else { 8 * k };
            win[self.off as usize + k] = (v >> sh) as u8;
        }
    }
    pub fn apply(&self, win: &mut [u8; 16], big: bool) -> u128 {
        if matches!(self.k, K::Enable | K::Fence) {
            return 0;
        }
        let old = self.get(win, big);
        let (n, r) = self.eval(old);
        if let Some(n) = n {
            self.put(win, n, big);
        }
        r
    }
}

pub struct Event {
    pub tid: usize,
    pub op: Op,
    pub inv: u64,
    /// None: never returned
    pub resp: Option<u64>,
    pub ret: u128,
}

/// Is there an order of the operations, consistent with real time, that explains all returned
/// values and the final memory?
pub fn linearizable(init: [u8; 16], fin: [u8; 16], ev: &[Event], big: bool) -> bool {
    let n = ev.len();
    assert!(n <= 32);
    let must: u32 = (0..n).filter(|&i| ev[i].resp.is_some()).map(|i| 1 << i).sum();
    let mut seen: HashSet<(u32, [u8; 16])> = HashSet::new();
    let mut stack = vec![(0u32, init)];
    while let Some((done, st)) = stack.pop() {
        if !seen.insert((done, st)) {
            continue;
        }
        if done & must == must && st == fin {
            return true;
        }
        // earliest response among the operations not yet placed
        let lim = (0..n).filter(|&i| done >> i & 1 == 0).filter_map(|i| ev[i].resp).min().unwrap_or(u64::MAX);
        for i in 0..n {
            if done >> i & 1 == 1 || ev[i].inv > lim {
                continue;
            }
            let mut w = st;
            let r = ev[i].op.apply(&mut w, big);
            if ev[i].resp.is_some() && !matches!(ev[i].op.k, K::Store | K::Enable | K::Fence) && r != ev[i].ret {
                continue;
            }
            stack.push((done | 1 << i, w));
        }
    }
    false
}
