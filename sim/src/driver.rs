//! Runs seeds, minimises failures, writes and replays replay files.
use crate::tape::{Record, Tape, NS};
use crate::util::{json_str, run_seed};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::time::Instant;

#[derive(Default)]
pub struct RunResult {
    /// (class, message)
    pub violation: Option<(String, String)>,
    /// The simulator could not give an answer (not a violation).
    pub error: Option<String>,
    /// Hash of the complete event log of the run.
    pub log_hash: u64,
    /// Identifies the interleaving/state sequence for the distinct count.
    pub sig: u64,
    pub nontrivial: bool,
    /// Simulated instructions.
    pub steps: u64,
    pub stats: BTreeMap<String, u64>,
    pub trace: Vec<String>,
    pub summary: String,
}

impl RunResult {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.stats.entry(k.to_string()).or_insert(0) += n;
        }
    }
}

pub trait Prop {
    fn run(&mut self, tape: &mut Tape, verbose: bool) -> RunResult;
    /// One-off findings/coverage of the set-up phase.
    fn setup_stats(&self) -> BTreeMap<String, u64> {
        BTreeMap::new()
    }
}

pub struct Args {
    pub mode: String,
    pub prop: String,
    pub opts: BTreeMap<String, String>,
}

impl Args {
    pub fn parse() -> Args {
        let mut it = std::env::args().skip(1);
        let mode = it.next().unwrap_or_default();
        let prop = it.next().unwrap_or_default();
        let mut opts = BTreeMap::new();
        for a in it {
            let (k, v) = a.split_once('=').unwrap_or((&a, ""));
            opts.insert(k.to_string(), v.to_string());
        }
        Args { mode, prop, opts }
    }
    pub fn get(&self, k: &str) -> &str {
        self.opts.get(k).map(|s| s.as_str()).unwrap_or_else(|| panic!("missing option {k}"))
    }
    pub fn opt(&self, k: &str) -> Option<&str> {
        self.opts.get(k).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.opt(k).map(|s| s.parse().unwrap()).unwrap_or(d)
    }
}

fn map_json(m: &BTreeMap<String, u64>) -> String {
    let mut s = String::from("{");
    for (i, (k, v)) in m.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{}:{}", json_str(k), v);
    }
    s.push('}');
    s
}

/// Exit codes: 0 no violation, 1 violation found/reproduced, 3 simulator error.
pub fn main(args: &Args, prop: &mut dyn Prop) -> i32 {
    match args.mode.as_str() {
        "worker" => worker(args, prop),
        "minimise" => minimise(args, prop),
        "replay" => replay(args, prop),
        "one" => {
            let seed = run_seed(args.num("seed", 1), args.num("index", 0), &args.prop);
            let mut t = Tape::search(seed);
            let r = prop.run(&mut t, true);
            for l in &r.trace {
                println!("{l}");
            }
            println!("summary: {}", r.summary);
            println!("steps {} hash {:#x} stats {:?}", r.steps, r.log_hash, r.stats);
            println!("violation {:?} error {:?}", r.violation, r.error);
            0
        }
        m => panic!("unknown mode {m}"),
    }
}

fn worker(args: &Args, prop: &mut dyn Prop) -> i32 {
    let base = args.num("seed", 1);
    let (from, to) = (args.num("from", 0), args.num("to", 1));
    let stride = args.num("stride", 1);
    let max_s = args.num("max_s", 100000);
    let progress = args.opt("progress").map(|s| s.to_string());
    let start = Instant::now();
    let mut stats: BTreeMap<String, u64> = prop.setup_stats();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut hashes: Vec<(u64, u64)> = Vec::new();
    let (mut runs, mut nontrivial, mut steps) = (0u64, 0u64, 0u64);
    let mut samples: Vec<(u64, String)> = Vec::new();
    let mut viol = None;
    let mut err = None;
    let keep = args.num("hashes", 0);
    let mut i = from;
    while i < to {
        if start.elapsed().as_secs() >= max_s {
            break;
        }
        if let Some(p) = &progress {
            let _ = std::fs::write(p, i.to_string());
        }
        let mut t = Tape::search(run_seed(base, i, &args.prop));
        let r = prop.run(&mut t, false);
        runs += 1;
        steps += r.steps;
        for (k, v) in &r.stats {
            *stats.entry(k.clone()).or_insert(0) += v;
        }
        if r.nontrivial {
            nontrivial += 1;
            sigs.insert(r.sig);
        }
        if samples.len() < 3 && r.nontrivial {
            samples.push((i, r.summary.clone()));
        }
        if keep > 0 && i % keep == 0 {
            hashes.push((i, r.log_hash));
        }
        if let Some(e) = r.error {
            err = Some((i, e));
            break;
        }
        if let Some((c, m)) = r.violation {
            viol = Some((i, c, m));
            break;
        }
        i += stride;
    }
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"runs\":{runs},\"nontrivial\":{nontrivial},\"steps\":{steps},\"next\":{i},\"wall\":{:.3},\"stats\":{}",
        start.elapsed().as_secs_f64(),
        map_json(&stats)
    );
    o.push_str(",\"samples\":[");
    for (k, (ix, s)) in samples.iter().enumerate() {
        if k > 0 {
            o.push(',');
        }
        let _ = write!(o, "{{\"run\":{ix},\"seed\":{},\"case\":{}}}", run_seed(base, *ix, &args.prop), json_str(s));
    }
    o.push_str("],\"hashes\":[");
    for (k, (ix, h)) in hashes.iter().enumerate() {
        if k > 0 {
            o.push(',');
        }
        let _ = write!(o, "[{ix},\"{h:x}\"]");
    }
    o.push(']');
    if let Some((ix, c, m)) = &viol {
        let _ = write!(o, ",\"violation\":{{\"run\":{ix},\"class\":{},\"message\":{}}}", json_str(c), json_str(m));
    }
    if let Some((ix, m)) = &err {
        let _ = write!(o, ",\"error\":{{\"run\":{ix},\"message\":{}}}", json_str(m));
    }
    o.push('}');
    std::fs::write(args.get("out"), o).unwrap();
    if let Some(f) = args.opt("sigs") {
        let mut b = Vec::with_capacity(sigs.len() * 8);
        for s in sigs {
            b.extend_from_slice(&s.to_le_bytes());
        }
        std::fs::write(f, b).unwrap();
    }
    if err.is_some() {
        3
    } else if viol.is_some() {
        1
    } else {
        0
    }
}

fn write_replay(args: &Args, rec: &Record, r: &RunResult, extra: &str) -> String {
    let (c, m) = r.violation.clone().unwrap();
    let mut s = String::new();
    let _ = writeln!(s, "property {}", args.prop);
    let _ = writeln!(s, "class {c}");
    let _ = writeln!(s, "message {}", m.replace('\n', " "));
    let _ = writeln!(s, "loghash {:x}", r.log_hash);
    let _ = writeln!(s, "base_seed {}", args.num("seed", 1));
    let _ = writeln!(s, "run {}", args.num("index", 0));
    let _ = writeln!(s, "seed {}", run_seed(args.num("seed", 1), args.num("index", 0), &args.prop));
    let _ = writeln!(s, "note {extra}");
    for st in 0..NS {
        let _ = write!(s, "stream {st}");
        for v in &rec[st] {
            let _ = write!(s, " {v}");
        }
        s.push('\n');
    }
    let _ = writeln!(s, "case {}", r.summary.replace('\n', " | "));
    s.push_str("trace\n");
    for l in &r.trace {
        s.push_str("  ");
        s.push_str(l);
        s.push('\n');
    }
    s
}

fn minimise(args: &Args, prop: &mut dyn Prop) -> i32 {
    let seed = run_seed(args.num("seed", 1), args.num("index", 0), &args.prop);
    let start = Instant::now();
    let max_s = args.num("max_s", 60);
    let mut t = Tape::search(seed);
    let r = prop.run(&mut t, false);
    let Some((class, _)) = r.violation.clone() else {
        eprintln!("seed does not reproduce a violation");
        return 3;
    };
    let mut best = trim(t.used.clone());
    let orig_len: usize = best.iter().map(|v| v.len()).sum();
    let mut tries = 0u64;
    // A candidate is kept if it violates in the same way.
    let mut attempt = |cand: &Record, prop: &mut dyn Prop| -> Option<Record> {
        tries += 1;
        let mut t = Tape::replay(cand);
        let r = prop.run(&mut t, false);
        match r.violation {
            Some((c, _)) if c == class => Some(trim(t.used)),
            _ => None,
        }
    };
    fn trim(mut r: Record) -> Record {
        for s in r.iter_mut() {
            while s.last() == Some(&0) {
                s.pop();
            }
        }
        r
    }
    fn weight(r: &Record) -> (usize, u128) {
        (r.iter().map(|v| v.iter().filter(|&&x| x != 0).count()).sum::<usize>() * 4 + r.iter().map(|v| v.len()).sum::<usize>(), r.iter().flatten().map(|&x| x as u128).sum())
    }
    let out_of_time = |start: &Instant| start.elapsed().as_secs() >= max_s;
    loop {
        let before = weight(&best);
        for st in [1usize, 2, 0] {
            // drop tails
            let mut n = best[st].len();
            while n > 0 && !out_of_time(&start) {
                let mut c = best.clone();
                let keep = c[st].len().saturating_sub(n);
                c[st].truncate(keep);
                match attempt(&c, prop) {
                    Some(b) if weight(&b) < weight(&best) => {
                        best = b;
                        n = n.min(best[st].len());
                        if best[st].is_empty() {
                            break;
                        }
                    }
                    _ => n /= 2,
                }
            }
            // zero chunks, delete chunks
            for del in [false, true] {
                let mut size = best[st].len().max(1).next_power_of_two();
                while size >= 1 && !out_of_time(&start) {
                    let mut i = 0;
                    while i < best[st].len() && !out_of_time(&start) {
                        let mut c = best.clone();
                        let e = (i + size).min(c[st].len());
                        if del {
                            c[st].drain(i..e);
                        } else {
                            if c[st][i..e].iter().all(|&x| x == 0) {
                                i += size;
                                continue;
                            }
                            c[st][i..e].fill(0);
                        }
                        match attempt(&c, prop) {
                            Some(b) if weight(&b) < weight(&best) => {
                                best = b;
                                if !del {
                                    i += size;
                                }
                            }
                            _ => i += size,
                        }
                    }
                    size /= 2;
                }
            }
            // lower single values
            let mut i = 0;
            while i < best[st].len() && !out_of_time(&start) {
                let mut v = best[st][i];
                let mut step = v / 2 + 1;
                while v > 0 && step > 0 && !out_of_time(&start) {
                    if step > v {
                        step = v;
                    }
                    let mut c = best.clone();
                    c[st][i] = v - step;
                    match attempt(&c, prop) {
                        Some(b) if weight(&b) < weight(&best) => {
                            best = b;
                            if i >= best[st].len() {
                                break;
                            }
                            v = best[st][i];
                        }
                        _ => {
                            if step == 1 {
                                break;
                            }
                            step /= 2;
                        }
                    }
                }
                i += 1;
            }
        }
        if weight(&best) >= before || out_of_time(&start) {
            break;
        }
    }
    let mut t = Tape::replay(&best);
    let r = prop.run(&mut t, true);
    let new_len: usize = best.iter().map(|v| v.len()).sum();
    let nz: usize = best.iter().map(|v| v.iter().filter(|&&x| x != 0).count()).sum();
    let note = format!("minimised from {orig_len} to {new_len} choices ({nz} non-default) in {tries} executions");
    std::fs::write(args.get("out"), write_replay(args, &best, &r, &note)).unwrap();
    println!("{note}");
    0
}

fn replay(args: &Args, prop: &mut dyn Prop) -> i32 {
    let text = std::fs::read_to_string(args.get("file")).unwrap();
    let mut rec: Record = Default::default();
    let mut want = String::new();
    let mut class = String::new();
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("stream ") {
            let mut it = x.split_whitespace();
            let st: usize = it.next().unwrap().parse().unwrap();
            rec[st] = it.map(|v| v.parse().unwrap()).collect();
        } else if let Some(x) = l.strip_prefix("loghash ") {
            want = x.to_string();
        } else if let Some(x) = l.strip_prefix("class ") {
            class = x.to_string();
        } else if l == "trace" {
            break;
        }
    }
    let mut t = Tape::replay(&rec);
    let r = prop.run(&mut t, true);
    for l in &r.trace {
        println!("{l}");
    }
    match r.violation {
        Some((c, m)) => {
            let exact = format!("{:x}", r.log_hash) == want && c == class;
            println!("reproduced {} exact={} : {}", c, exact, m);
            if exact {
                1
            } else {
                4
            }
        }
        None => {
            println!("no violation");
            0
        }
    }
}
