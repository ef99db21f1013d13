//! C17: what the CI decides to test.  The real tool looks at a real git history made by the
//! simulator; git and the client of the hosting service fail as planned.
use super::json::{self, J};
use super::world::*;
use crate::driver::{Prop, RunResult};
use crate::tape::{Tape, FAULT, GEN};
use crate::util::{json_str, Hash};
use std::collections::{BTreeMap, BTreeSet};

pub struct PlanProp {
    w: World,
}

impl PlanProp {
    pub fn new(repo: &str, standin: &str, scratch: &str) -> PlanProp {
        PlanProp { w: World::new(repo, standin, scratch, "c17") }
    }
}

/// Path to (contents, executable).
type Tree = BTreeMap<String, (u64, bool)>;

const SOURCES: &[&str] = &[
    "libm/src/math/acos.rs",
    "libm/src/math/acosf.rs",
    "libm/src/math/cbrt.rs",
    "libm/src/math/fma.rs",
    "libm/src/math/generic/fma.rs",
    "libm/src/math/generic/sqrt.rs",
    "libm/src/math/sqrt.rs",
    "libm/src/math/arch/x86.rs",
    "libm/src/math/arch/aarch64.rs",
    "libm/src/math/roundeven.rs",
    // exempt
    "libm/src/math/support/float_traits.rs",
    "libm/src/math/arch/intrinsics.rs",
];
const OTHERS: &[&str] = &[
    "README.md",
    "compiler-builtins/src/int/udiv.rs",
    "compiler-builtins/src/mem/impls.rs",
    "libm-test/src/lib.rs",
    "crates/musl-math-sys/build.rs",
    "crates/libm-macros/src/lib.rs",
    "builtins-test/src/bench.rs",
];
const FRESH: &[&str] = &["libm/src/math/new.rs", "compiler-builtins/src/new.rs", "docs/acos.rs", "libm/src/math/generic/new.rs", "etc/acos.rs"];
const NAMES: &[(&str, &str)] = &[
    ("acos", "f64"),
    ("acosf", "f32"),
    ("sqrt", "f64"),
    ("sqrtf", "f32"),
    ("sqrtf16", "f16"),
    ("sqrtf128", "f128"),
    ("fma", "f64"),
    ("fmaf", "f32"),
    ("fmaf16", "f16"),
    ("fmaf128", "f128"),
    ("cbrt", "f64"),
    ("roundeven", "f64"),
    ("roundevenf128", "f128"),
    ("erf", "f64"),
    ("erff", "f32"),
    ("lgamma_r", "f64"),
    ("lgammaf_r", "f32"),
    ("modf", "f64"),
    ("modff", "f32"),
    ("fmod", "f64"),
    ("fmodf", "f32"),
    ("fmodf16", "f16"),
    ("rint", "f64"),
    ("rintf", "f32"),
    ("exp", "f64"),
    ("expf", "f32"),
];

fn exempt(p: &str) -> bool {
    ["libm/src/math/support/", "libm/src/libm_helper.rs", "libm/src/math/arch/intrinsics.rs"].iter().any(|x| p.starts_with(x))
}

fn of_libm(p: &str) -> bool {
    p.contains("libm") || p.contains("musl")
}

fn edit(t: &mut Tape, tree: &mut Tree, original: &Tree, next: &mut u64, what: &mut Vec<String>) {
    let keys: Vec<String> = tree.keys().cloned().collect();
    if keys.is_empty() {
        return;
    }
    let k = t.pick(GEN, &keys).clone();
    match t.weighted(GEN, &[6, 2, 2, 2, 1, 2, 1]) {
        0 => {
            *next += 1;
            tree.get_mut(&k).unwrap().0 = *next;
            what.push(format!("change {k}"));
        }
        1 => {
            *next += 1;
            let f = t.pick(GEN, FRESH).to_string();
            what.push(format!("add {f}"));
            tree.insert(f, (*next, false));
        }
        2 => {
            tree.remove(&k);
            what.push(format!("remove {k}"));
        }
        3 => {
            let f = t.pick(GEN, FRESH).to_string();
            what.push(format!("move {k} to {f}"));
            let e = tree.remove(&k).unwrap();
            tree.insert(f, e);
        }
        4 => {
            let e = tree.get_mut(&k).unwrap();
            e.1 = !e.1;
            what.push(format!("change the mode of {k}"));
        }
        5 => {
            // back to what it was
            match original.get(&k) {
                Some(e) => tree.insert(k.clone(), *e),
                None => tree.remove(&k),
            };
            what.push(format!("restore {k}"));
        }
        _ => {
            let f = t.pick(GEN, FRESH).to_string();
            what.push(format!("copy {k} to {f}"));
            let e = tree[&k];
            tree.insert(f, e);
        }
    }
}

/// `ours` with what changed from `base` to `theirs`.
fn merge(base: &Tree, ours: &Tree, theirs: &Tree) -> Tree {
    let mut r = ours.clone();
    let all: BTreeSet<&String> = base.keys().chain(theirs.keys()).collect();
    for k in all {
        if base.get(k) != theirs.get(k) && base.get(k) == ours.get(k) {
            match theirs.get(k) {
                Some(e) => r.insert(k.clone(), *e),
                None => r.remove(k),
            };
        }
    }
    r
}

struct Stream {
    s: String,
    n: usize,
}

impl Stream {
    fn commit(&mut self, branch: &str, tree: &Tree, parents: &[usize]) -> usize {
        self.n += 1;
        let msg = format!("commit {}\n", self.n);
        self.s.push_str(&format!("commit {branch}\nmark :{}\ncommitter A <a@example.com> {} +0000\ndata {}\n{msg}", self.n, 1_790_000_000 + 60 * self.n, msg.len()));
        for (k, p) in parents.iter().enumerate() {
            self.s.push_str(&format!("{} :{p}\n", if k == 0 { "from" } else { "merge" }));
        }
        self.s.push_str("deleteall\n");
        for (p, (c, x)) in tree {
            let mut b = String::new();
            for l in 0..6 {
                b.push_str(&format!("line {} of text {c}\n", l * 7));
            }
            self.s.push_str(&format!("M {} inline {p}\ndata {}\n{b}\n", if *x { "100755" } else { "100644" }, b.len()));
        }
        self.s.push('\n');
        self.n
    }
}

/// The text of a pull request.
#[derive(Default)]
pub struct Body {
    pub text: String,
    pub allow_regressions: bool,
    pub skip: bool,
    pub many: bool,
    pub libm: bool,
    pub extra: Vec<String>,
    /// has a directive nobody knows
    pub wrong: bool,
}

pub fn body(t: &mut Tape) -> Body {
    let mut b = Body::default();
    let nl = if t.chance(GEN, 1, 3) { "\r\n" } else { "\n" };
    for _ in 0..t.below(GEN, 6) {
        let d = *t.pick(GEN, &["allow-regressions", "skip-extensive", "allow-many-extensive", "test-libm"]);
        let line = match t.weighted(GEN, &[4, 5, 2, 2, 1, 1]) {
            0 => t.pick(GEN, &["Fix the \"sign\" of zero", "", "See #12 \u{2014} benchmarks", "- [ ] ci", "https://example.com/?ci:no", "`ci`: passes"]).to_string(),
            1 => {
                match d {
                    "allow-regressions" => b.allow_regressions = true,
                    "skip-extensive" => b.skip = true,
                    "allow-many-extensive" => b.many = true,
                    _ => b.libm = true,
                }
                format!("{}ci: {d}{}", t.pick(GEN, &["", "  "]), t.pick(GEN, &["", " ", " please"]))
            }
            2 => {
                let n = 1 + t.below(GEN, 3);
                b.extra = (0..n).map(|_| t.pick(GEN, NAMES).0.to_string()).collect();
                format!("ci: extra-extensive{}={}{}", t.pick(GEN, &["", " "]), t.pick(GEN, &["", " "]), b.extra.join(t.pick(GEN, &[",", ", "])))
            }
            3 => format!("{} ci: {d}", t.pick(GEN, &[">", "never", "//", "the line"])),
            4 => {
                b.wrong = true;
                format!("ci: {d}s")
            }
            _ => format!("ci-{d}"),
        };
        b.text.push_str(&line);
        b.text.push_str(nl);
    }
    b
}

pub fn pr_json(b: &str) -> String {
    format!(
        "{{\"body\":{},\"commits\":[{{\"oid\":\"{:040}\",\"messageHeadline\":\"x\",\"authors\":[]}},{{\"oid\":\"{:040}\",\"messageHeadline\":\"y\",\"authors\":[]}}],\"createdAt\":\"2026-08-20T10:00:00Z\",\"number\":1234}}\n",
        json_str(b),
        1,
        2
    )
}

impl Prop for PlanProp {
    fn run(&mut self, t: &mut Tape, verbose: bool) -> RunResult {
        let mut res = RunResult::default();
        let regress = t.chance(GEN, 1, 5);
        let b = body(t);
        let mut trace = Vec::new();
        let mut faults = Vec::new();
        let mut absent: Vec<&str> = Vec::new();
        // ---- faults
        let mut no_number = false;
        for _ in 0..t.weighted(FAULT, &[5, 6, 2]) {
            let gh = regress || t.chance(FAULT, 1, 3);
            match t.weighted(FAULT, &[8, if gh { 2 } else { 0 }, if gh { 1 } else { 0 }, if gh && !regress { 1 } else { 0 }]) {
                0 => {
                    let (end, cut) = ending(t);
                    faults.push(Fault { prog: if gh { "gh" } else { "git" }, n: t.below(FAULT, if gh { 2 } else { 7 }), end, cut });
                }
                1 => faults.push(Fault { prog: "gh", n: t.below(FAULT, 2), end: 0, cut: t.below(FAULT, 1000) }),
                2 => absent.push("gh"),
                _ => no_number = true,
            }
        }
        self.w.reset(&absent, false);
        self.w.write("plan/git-real", "");
        self.w.write("plan/pr.json", pr_json(&b.text));
        trace.push(format!("text of the pull request: {:?}", b.text));
        let mut h = Hash::new();
        let out;
        let mut want: BTreeMap<&str, (BTreeSet<String>, BTreeSet<String>)> = BTreeMap::new();
        let mut maybe: BTreeSet<String> = BTreeSet::new();
        let mut must_run_libm = Vec::new();
        let mut total = 0;
        let mut pr = true;
        if regress {
            out = self.w.run(&["./ci/ci-util.py", "handle-bench-regressions", "1234"], &[], &faults);
        } else {
            // ---- what the routines are made of
            let nr = if t.chance(GEN, 1, 8) { NAMES.len() } else { 2 + t.below(GEN, 7) as usize };
            let mut defs: BTreeMap<&str, (&str, Vec<&str>)> = BTreeMap::new();
            for k in 0..nr {
                let (n, ty) = if nr == NAMES.len() { NAMES[k] } else { *t.pick(GEN, NAMES) };
                let s = (0..1 + t.below(GEN, 3)).map(|_| *t.pick(GEN, SOURCES)).collect();
                defs.insert(n, (ty, s));
            }
            // ---- history
            let mut next = 0;
            let mut tree = Tree::new();
            for p in SOURCES.iter().chain(OTHERS) {
                next += 1;
                tree.insert(p.to_string(), (next, false));
            }
            let mut st = Stream { s: String::new(), n: 0 };
            let mut main = vec![(st.commit("refs/heads/main", &tree, &[]), tree.clone())];
            for _ in 0..t.below(GEN, 4) {
                let mut tr = main.last().unwrap().1.clone();
                let mut what = Vec::new();
                edit(t, &mut tr, &tree, &mut next, &mut what);
                let p = main.last().unwrap().0;
                main.push((st.commit("refs/heads/main", &tr, &[p]), tr));
                trace.push(format!("on main: {}", what.join(", ")));
            }
            let mut mb = t.below(GEN, main.len() as u64) as usize;
            let fork = main[mb].1.clone();
            trace.push(format!("branch leaves main after commit {}", main[mb].0));
            let (mut tip, mut tr) = (main[mb].0, fork.clone());
            for _ in 0..1 + t.below(GEN, 4) {
                if mb + 1 < main.len() && t.chance(GEN, 1, 5) {
                    let j = mb + 1 + t.below(GEN, (main.len() - mb - 1) as u64) as usize;
                    tr = merge(&main[mb].1, &tr, &main[j].1);
                    tip = st.commit("refs/heads/topic", &tr, &[tip, main[j].0]);
                    mb = j;
                    trace.push(format!("on the branch: merge commit {} of main", main[j].0));
                } else {
                    let mut what = Vec::new();
                    for _ in 0..1 + t.weighted(GEN, &[4, 2, 1, 1]) {
                        edit(t, &mut tr, &fork, &mut next, &mut what);
                    }
                    tip = st.commit("refs/heads/topic", &tr, &[tip]);
                    trace.push(format!("on the branch: {}", what.join(", ")));
                }
            }
            let base = main.last().unwrap();
            let merged = merge(&main[mb].1, &tr, &base.1);
            pr = !t.chance(GEN, 1, 10);
            // the branch itself is not there in a checkout of the merge
            st.commit("refs/pull/1234/merge", &merged, &[base.0, tip]);
            let changed: BTreeSet<&String> = tr.keys().chain(main[mb].1.keys()).filter(|k| tr.get(*k) != main[mb].1.get(*k)).collect();
            for (n, (ty, src)) in &defs {
                let hit = src.iter().any(|s| !exempt(s) && changed.iter().any(|c| c == s));
                let soft = src.iter().any(|s| exempt(s) && changed.iter().any(|c| c == s));
                let e = want.entry(ty).or_default();
                if pr && hit {
                    e.0.insert(n.to_string());
                    if !b.skip {
                        e.1.insert(n.to_string());
                    }
                } else if pr && soft {
                    maybe.insert(n.to_string());
                }
            }
            for x in &b.extra {
                let ty = NAMES.iter().find(|n| n.0 == x).unwrap().1;
                want.entry(ty).or_default().1.insert(x.clone());
            }
            total = want.values().map(|x| x.1.len()).sum();
            if !pr {
                must_run_libm.push("this is not a pull request".to_string());
            }
            if b.libm {
                must_run_libm.push("the pull request asks for it".into());
            }
            if pr {
                must_run_libm.extend(changed.iter().filter(|p| of_libm(p)).map(|p| format!("{p} changed")));
            }
            let mut d = String::from("{\n \"__comment\": \"made by the simulator\"");
            for (n, (ty, src)) in &defs {
                let s: Vec<String> = src.iter().map(|s| json_str(s)).collect();
                d.push_str(&format!(",\n \"{n}\": {{\"sources\": [{}], \"type\": \"{ty}\"}}", s.join(", ")));
                trace.push(format!("routine {n} is made of {}", src.join(", ")));
            }
            d.push_str("\n}\n");
            self.w.write("co/etc/function-definitions.json", d);
            self.w.write("co/.git/HEAD", "ref: refs/heads/main\n");
            self.w.write("co/.git/config", "[core]\n\trepositoryformatversion = 0\n\tbare = false\n[fastimport]\n\tunpackLimit = 1000\n");
            self.w.write("co/.git/objects/x", "");
            self.w.write("co/.git/refs/heads/x", "");
            let _ = std::fs::remove_file(self.w.path("co/.git/objects/x"));
            let _ = std::fs::remove_file(self.w.path("co/.git/refs/heads/x"));
            self.w.prepare("/usr/bin/git", &["fast-import", "--quiet"], st.s.as_bytes());
            let mut env = vec![];
            if pr || t.chance(GEN, 1, 2) {
                env.push(("GITHUB_REF", if pr { "refs/pull/1234/merge" } else { "refs/heads/main" }));
            }
            // a push has no number
            if pr && !no_number {
                env.push(("PR_NUMBER", "1234"));
            } else if t.chance(GEN, 1, 2) {
                env.push(("PR_NUMBER", ""));
            }
            if !pr {
                // nobody asked for anything
                for w in want.values_mut() {
                    w.1.clear();
                }
                total = 0;
            }
            out = self.w.run(&["./ci/ci-util.py", "generate-matrix"], &env, &faults);
            h.bytes(st.s.as_bytes());
            trace.push(format!("{}, changed between merge base and branch: {:?}", if pr { "pull request" } else { "push" }, changed));
        }
        // ---- judge
        let hurt = !out.fired.is_empty() || !absent.is_empty() || no_number;
        for (n, c) in &out.fired {
            let f = faults.iter().find(|f| f.prog == c.prog && f.n == *n).unwrap();
            trace.push(format!("call {n} of {} ends with {} after {} of 1000 of its output: {}", c.prog, f.end, f.cut, c.text()));
            let kind = if f.end < 0 { "dies of a signal" } else if f.end == 0 { "prints only a part" } else { "fails" };
            res.count(&format!("fault: {} {kind}", c.prog), 1);
        }
        res.count("fault: client of the hosting service cannot be started", absent.len() as u64);
        res.count("fault: number of the pull request missing", no_number as u64);
        let ok = out.status == Some(0);
        let mut bad: Option<(String, String)> = None;
        if regress {
            if ok && !b.allow_regressions {
                bad = Some(("regression accepted".into(), "a benchmark regression is accepted although the pull request does not allow it".into()));
            } else if !ok && !hurt && b.allow_regressions && !b.wrong {
                bad = Some(("regression refused".into(), "the pull request allows regressions, but they are refused".into()));
            }
        } else if ok {
            bad = judge(&out.out, &want, &maybe, &must_run_libm);
            if bad.is_none() && pr && total > 20 && !b.many {
                bad = Some(("too many tests".into(), format!("{total} extensive tests are planned without permission")));
            }
            if bad.is_none() && pr && b.wrong && !no_number {
                bad = Some(("unknown directive".into(), "a directive nobody knows is accepted".into()));
            }
        } else if !hurt && !(pr && (b.wrong || total + b.extra.len() + maybe.len() > 20 && !b.many)) {
            bad = Some(("sound request refused".into(), format!("the tool fails with {:?} although nothing went wrong: {}", out.status, out.err.lines().last().unwrap_or(""))));
        }
        trace.push(format!("the tool ends with {:?} and prints {:?}", out.status, out.out));
        if out.status.is_none() {
            bad = None;
            res.count("event: tool stopped after 120 s", 1);
        }
        res.violation = bad;
        res.count("event: plan emitted and judged", (ok && !regress) as u64);
        res.count("event: tool refused", (!ok) as u64);
        res.count("event: plan emitted in spite of a fault", (ok && !regress && hurt) as u64);
        res.nontrivial = hurt || (!regress && pr);
        res.steps = 1 + out.calls.len() as u64;
        res.summary = format!("{}, {} calls, {} faults, end {:?}", if regress { "regression question" } else { "plan" }, out.calls.len(), out.fired.len(), out.status);
        for c in &out.calls {
            h.bytes(c.text().as_bytes());
        }
        h.bytes(b.text.as_bytes());
        h.bytes(out.out.as_bytes());
        h.u64(out.status.unwrap_or(999) as u64);
        for (n, c) in &out.fired {
            h.u64(*n);
            h.bytes(c.prog.as_bytes());
        }
        res.log_hash = h.get();
        res.sig = h.get();
        if verbose {
            res.trace = trace;
        }
        res
    }
}

fn judge(out: &str, want: &BTreeMap<&str, (BTreeSet<String>, BTreeSet<String>)>, maybe: &BTreeSet<String>, libm: &[String]) -> Option<(String, String)> {
    let v = |c: &str, m: String| Some((c.to_string(), m));
    let line = |k: &str| out.lines().rev().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string());
    let Some(m) = line("extensive_matrix=").and_then(|s| json::parse(&s)) else {
        return v("no plan", "the tool succeeds without a readable list of routines".into());
    };
    let Some(skip) = line("may_skip_libm_ci=") else {
        return v("no plan", "the tool succeeds without saying whether libm may be skipped".into());
    };
    let mut got: BTreeMap<String, (BTreeSet<String>, BTreeSet<String>)> = BTreeMap::new();
    for i in m.get("extensive_matrix").map(J::arr).unwrap_or(&[]) {
        let s = |k: &str| i.get(k).and_then(J::str).unwrap_or("").to_string();
        let e = got.entry(s("ty")).or_default();
        e.0.extend(words(&s("changed")));
        e.1.extend(words(&s("to_test")));
    }
    let none = (BTreeSet::new(), BTreeSet::new());
    for ty in ["f16", "f32", "f64", "f128"] {
        let (w, g) = (want.get(ty).unwrap_or(&none), got.get(ty).unwrap_or(&none));
        for (name, a, b) in [("changed", &w.0, &g.0), ("to be tested", &w.1, &g.1)] {
            if let Some(x) = a.difference(b).next() {
                return v("routine dropped", format!("{x} ({ty}) is missing in the list of routines {name}: {b:?}"));
            }
            if let Some(x) = b.difference(a).find(|x| !maybe.contains(*x)) {
                return v("routine invented", format!("{x} ({ty}) is in the list of routines {name} for no reason: {b:?}"));
            }
        }
    }
    if skip != "false" && !libm.is_empty() {
        return v("libm skipped", format!("the jobs of libm may be skipped ({skip}) although {}", libm.join(", ")));
    }
    None
}
