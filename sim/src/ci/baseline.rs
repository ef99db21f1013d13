//! C19: fetching the benchmark baseline.
use super::world::*;
use crate::driver::{Prop, RunResult};
use crate::tape::{Tape, FAULT, GEN};
use crate::util::Hash;
use std::collections::BTreeMap;
use std::process::Command;

pub struct BaselineProp {
    w: World,
    /// archives and what they contain
    archives: Vec<(Vec<u8>, Vec<(String, Vec<u8>)>)>,
}

impl BaselineProp {
    pub fn new(repo: &str, standin: &str, scratch: &str) -> BaselineProp {
        let w = World::new(repo, standin, scratch, "c19");
        let mut archives = Vec::new();
        for k in 0..6u32 {
            let d = w.path("make");
            let _ = std::fs::remove_dir_all(&d);
            let mut files = Vec::new();
            for j in 0..3 + k {
                let n = format!("{}/bench{}/summary-{j}.json", ["arch_enabled", "arch_disabled"][(j & 1) as usize], j % 4);
                let mut b = Vec::new();
                let mut x = (k as u64) << 32 | j as u64;
                for _ in 0..100 * (j + 1) {
                    b.extend(format!("{:x}\n", crate::util::splitmix(&mut x)).bytes());
                }
                w.write(&format!("make/gungraun-home/{n}"), &b);
                files.push((n, b));
            }
            files.sort();
            let ok = Command::new("/usr/bin/tar")
                .args(["--sort=name", "--mtime=@0", "--owner=0", "--group=0", "--numeric-owner", "-cJf", "a.tar.xz", "gungraun-home"])
                .current_dir(&d)
                .status()
                .unwrap();
            assert!(ok.success());
            archives.push((std::fs::read(d.join("a.tar.xz")).unwrap(), files));
        }
        BaselineProp { w, archives }
    }
}

type Files = Vec<(String, Vec<u8>)>;

fn over(below: &Files, above: &Files) -> Files {
    let mut m: BTreeMap<String, Vec<u8>> = below.iter().cloned().collect();
    m.extend(above.iter().cloned());
    m.into_iter().collect()
}

impl Prop for BaselineProp {
    fn run(&mut self, t: &mut Tape, verbose: bool) -> RunResult {
        let mut res = RunResult::default();
        let mut trace = Vec::new();
        let mut faults = Vec::new();
        let tag = *t.pick(GEN, &["x86_64", "i686", "aarch64"]);
        let download = !t.chance(GEN, 1, 10);
        let extract = download && !t.chance(GEN, 1, 8);
        // ---- the hosting service
        let mut absent: Vec<&str> = Vec::new();
        let what = t.weighted(FAULT, &[5, 4, 6, 1, 3, 2]);
        let (end, cut) = ending(t);
        match what {
            1 => faults.push(Fault { prog: "gh", n: 0, end, cut }),
            2 => {
                let end = if t.chance(FAULT, 1, 4) { 0 } else { end };
                let cut = if t.chance(FAULT, 3, 4) { t.below(FAULT, 1000) } else { cut };
                faults.push(Fault { prog: "gh", n: 1, end, cut });
            }
            3 => absent.push("gh"),
            4 => faults.push(Fault { prog: "gh", n: 0, end: 0, cut: t.below(FAULT, 1000) }),
            _ => {}
        }
        self.w.reset(&absent, false);
        let odd = what == 5;
        let mut runs = String::new();
        let mut job = None;
        let n = if t.chance(GEN, 1, 4) { t.below(GEN, 16) } else { t.below(GEN, 5) };
        for k in 0..n {
            let ci = t.chance(GEN, 2, 3);
            let main = !t.chance(GEN, 1, 4);
            let (status, end) = *t.pick(GEN, &[("completed", "success"), ("completed", "success"), ("completed", "success"), ("completed", "success"), ("completed", "failure"), ("completed", "cancelled"), ("in_progress", "")]);
            let id = 9000 - k;
            if ci && main && end == "success" && job.is_none() {
                job = Some(id);
            }
            runs.push_str(&format!(
                "{}{{\"databaseId\":{id},\"url\":\"https://example.com/{id}\",\"headSha\":\"{id:040}\",\"headBranch\":\"{}\",\"conclusion\":\"{end}\",\"createdAt\":\"2026-08-20T10:{:02}:00Z\",\"status\":\"{status}\",\"workflowDatabaseId\":7,\"workflowName\":\"{}\"}}",
                if k > 0 { "," } else { "" },
                if main { "main" } else { "topic" },
                50 - k,
                if ci { "CI" } else { "Publish" }
            ));
        }
        runs = format!("[{runs}]\n");
        trace.push(format!("{n} runs, the latest successful one of the right workflow and branch is {job:?}"));
        if odd {
            // an answer, but not the one expected
            let s = *t.pick(FAULT, &["null\n", "[]\n", "[null]\n", "[{\"workflowName\":\"CI\"}]\n", "[{\"workflowName\":\"CI\",\"databaseId\":null}]\n", "{}\n", "", "\u{fffd}\n", "[[]]\n", "[{\"workflowName\":\"CI\",\"databaseId\":12}]\n"]);
            runs = s.to_string();
            self.w.write("plan/odd", "");
            trace.push(format!("the service answers {s:?}"));
            job = None;
        }
        self.w.write("plan/runs.json", &runs);
        // ---- what can be downloaded, and what is already there
        let name = |t: &mut Tape, tag: &str, k: u64| format!("baseline-icount-{tag}-2026{:02}{:02}{:04}-{:012x}", 1 + k, 1 + t.below(GEN, 28), t.below(GEN, 2400), 0x1234567 * (k + 1));
        let mut fetched: Vec<(String, usize)> = Vec::new();
        let mut old: Vec<(String, usize)> = Vec::new();
        for k in 0..t.below(GEN, 4) {
            let a = t.below(GEN, 6) as usize;
            let mine = !t.chance(GEN, 1, 3);
            let tg = if mine { tag } else { *t.pick(GEN, &["powerpc", "riscv64gc"]) };
            let m = t.below(GEN, 12);
            let d = name(t, tg, m);
            let j = if t.chance(GEN, 1, 4) { 9000 - t.below(GEN, n + 1) } else { job.unwrap_or(2) };
            self.w.write(&format!("plan/artifacts/{j}/{d}/{d}.tar.xz"), &self.archives[a].0);
            trace.push(format!("run {j} has {d} with archive {a} ({} bytes)", self.archives[a].0.len()));
            if mine && Some(j) == job {
                fetched.retain(|x: &(String, usize)| x.0 != d);
                fetched.push((d, a));
            }
            let _ = k;
        }
        for _ in 0..t.weighted(GEN, &[4, 2, 1]) {
            let a = t.below(GEN, 6) as usize;
            let m = t.below(GEN, 12);
            let d = name(t, tag, m);
            if fetched.iter().any(|x| x.0 == d) {
                continue;
            }
            self.w.write(&format!("co/{d}/{d}.tar.xz"), &self.archives[a].0);
            trace.push(format!("{d} with archive {a} is there already"));
            old.retain(|x: &(String, usize)| x.0 != d);
            old.push((d, a));
        }
        let mut before: Files = Vec::new();
        if t.chance(GEN, 1, 3) {
            for f in ["arch_enabled/bench0/summary-0.json", "mine/notes.txt"] {
                self.w.write(&format!("co/gungraun-home/{f}"), "older\n");
                before.push((f.to_string(), b"older\n".to_vec()));
            }
        }
        let mut argv = vec!["./ci/ci-util.py", "locate-baseline"];
        if download {
            argv.push("--download");
        }
        if extract {
            argv.push("--extract");
        }
        argv.extend(["--tag", tag]);
        let out = self.w.run(&argv, &[], &faults);
        let after = self.w.files("co/gungraun-home");
        // ---- judge
        let hurt = !out.fired.is_empty() || !absent.is_empty() || odd;
        for (n, c) in &out.fired {
            let f = faults.iter().find(|f| f.prog == c.prog && f.n == *n).unwrap();
            trace.push(format!("call {n} of {} ends with {} after {} of 1000: {}", c.prog, f.end, f.cut, c.text()));
            let kind = if f.end < 0 { "dies of a signal" } else if f.end == 0 { "delivers only a part" } else { "fails" };
            res.count(&format!("fault: {} {kind}", if c.word(1) == "download" { "download" } else { "query" }), 1);
        }
        res.count("fault: client of the hosting service cannot be started", absent.len() as u64);
        res.count("fault: the hosting service answers something else", odd as u64);
        // complete archives that may be there
        let mut all: Vec<&(String, usize)> = old.iter().chain(&fetched).collect();
        all.sort();
        let mut bad = None;
        if out.status != Some(0) {
            bad = Some(("fails".to_string(), format!("the tool ends with {:?}: {}", out.status, out.err.lines().last().unwrap_or(""))));
        } else if after != before {
            let good = all.iter().any(|(_, a)| after == over(&before, &self.archives[*a].1));
            if !good {
                bad = Some(("damaged baseline".into(), "what was extracted is not the contents of any complete baseline".into()));
            } else if !extract {
                bad = Some(("unasked".into(), "a baseline was extracted without being asked for".into()));
            }
        }
        if bad.is_none() && !hurt && extract && job.is_some() {
            if let Some((d, a)) = all.last() {
                if after != over(&before, &self.archives[*a].1) {
                    bad = Some(("baseline not used".into(), format!("the most recent baseline {d} was not extracted")));
                }
            }
        }
        trace.push(format!("the tool ends with {:?}, gungraun-home has {} files", out.status, after.len()));
        if out.status.is_none() {
            bad = None;
            res.count("event: tool stopped after 120 s", 1);
        }
        res.violation = bad;
        res.count("event: baseline extracted", (after != before) as u64);
        res.nontrivial = hurt;
        res.steps = 1 + out.calls.len() as u64;
        res.summary = format!("{} calls, {} faults, end {:?}", out.calls.len(), hurt as u32, out.status);
        let mut h = Hash::new();
        for c in &out.calls {
            h.bytes(c.text().as_bytes());
        }
        for f in &faults {
            h.u64(f.end as u64);
            h.u64(f.cut);
        }
        h.bytes(runs.as_bytes());
        for (n, b) in &after {
            h.bytes(n.as_bytes());
            h.bytes(b);
        }
        for (n, a) in all {
            h.bytes(n.as_bytes());
            h.u64(*a as u64);
        }
        h.u64(out.status.unwrap_or(999) as u64);
        res.log_hash = h.get();
        res.sig = h.get();
        if verbose {
            res.trace = trace;
        }
        res
    }
}
