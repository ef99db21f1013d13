//! C18: the driver scripts of the CI pass only if every step passed.
use super::plan::{body, pr_json};
use super::world::*;
use crate::driver::{Prop, RunResult};
use crate::tape::{Tape, FAULT, GEN};
use crate::util::Hash;

pub struct StepsProp {
    w: World,
    scripts: Vec<&'static str>,
}

const SCRIPTS: &[&str] = &[
    "ci/run.sh",
    "ci/run-extensive.sh",
    "ci/bench-icount.sh",
    "ci/run-docker.sh",
    "ci/miri.sh",
    "ci/bench-walltime.sh",
    "ci/install-test-deps.sh",
    "ci/install-bench-deps.sh",
    "ci/download-compiler-rt.sh",
    "ci/update-musl.sh",
];

const TARGETS: &[&str] = &[
    "x86_64-unknown-linux-gnu",
    "i586-unknown-linux-gnu",
    "thumbv7em-none-eabihf",
    "x86_64-pc-windows-msvc",
    "i686-pc-windows-gnu",
    "wasm32-unknown-unknown",
    "aarch64-apple-darwin",
    "powerpc64-unknown-linux-gnu",
];

impl StepsProp {
    pub fn new(repo: &str, standin: &str, scratch: &str) -> StepsProp {
        let w = World::new(repo, standin, scratch, "c18");
        let scripts = SCRIPTS.iter().copied().filter(|s| w.has(s)).collect();
        StepsProp { w, scripts }
    }
}

/// Must the script fail if this call fails?
fn essential(script: &str, c: &Call) -> bool {
    match c.prog.as_str() {
        "cargo" => match c.word(0) {
            "metadata" => false,
            "bench" => script != "ci/bench-icount.sh",
            _ => true,
        },
        "docker" => container(c).is_some(),
        "rustup" => !(c.word(0) == "target" && c.word(1) == "list"),
        "sudo" | "doas" => c.has("install") || c.has("add"),
        "curl" | "patch" => true,
        "tar" => script == "ci/download-compiler-rt.sh" || c.args.first().is_some_and(|a| a.trim_start_matches('-').starts_with('c')),
        "git" => matches!(c.word(0), "clone") || c.has("fetch") || c.has("checkout"),
        _ => false,
    }
}

/// Does the call build an image (false) or run a container (true)?
fn container(c: &Call) -> Option<bool> {
    let k = matches!(c.word(0), "container" | "image" | "buildx" | "builder") as usize;
    match c.word(k) {
        "build" => Some(false),
        "run" => Some(true),
        _ => None,
    }
}

/// What a call of cargo, or of the symbol checker through it, works on and how.
struct Work {
    sub: String,
    on: Vec<String>,
    features: Vec<String>,
    default: bool,
    release: bool,
    target: Vec<String>,
    /// the symbol checker is what is run
    symbols: bool,
}

impl Work {
    fn of(c: &Call) -> Option<Work> {
        if c.prog != "cargo" {
            return None;
        }
        let mut w = Work { sub: c.word(0).into(), on: vec![], features: vec![], default: true, release: false, target: vec![], symbols: false };
        if w.sub == "nextest" || (w.sub == "miri" && c.word(1) == "nextest") {
            w.sub = "test".into();
        }
        let mut it = c.args.iter();
        while let Some(a) = it.next() {
            let (k, mut v) = match a.split_once('=') {
                Some((k, v)) if a.starts_with("--") => (k, Some(v.to_string())),
                _ if a.len() > 2 && a.starts_with("-p") => ("-p", Some(a[2..].to_string())),
                _ if a.len() > 2 && a.starts_with("-F") => ("-F", Some(a[2..].to_string())),
                _ => (a.as_str(), None),
            };
            let mut val = || v.take().or_else(|| it.next().cloned()).unwrap_or_default();
            match k {
                "-p" | "--package" => w.on.push(val()),
                "--manifest-path" => w.on.extend(val().trim_end_matches("/Cargo.toml").rsplit('/').next().map(|s| s.to_string())),
                "-F" | "--features" => w.features.extend(val().split([',', ' ']).map(|f| f.rsplit('/').next().unwrap().to_string())),
                "--workspace" | "--all" => w.on.push("*".into()),
                "--exclude" => drop(val()),
                "--all-features" => w.features.push("*".into()),
                "--no-default-features" => w.default = false,
                "-r" | "--release" => w.release = true,
                "--profile" | "--cargo-profile" => w.release = val().contains("release"),
                "--target" => w.target.push(val()),
                // from here on the arguments are those of the build that is checked
                "--build-and-check" => {
                    w.symbols = true;
                    w.on.clear();
                    w.features.clear();
                    w.default = true;
                    w.release = false;
                }
                _ => {}
            }
        }
        Some(w)
    }
    fn is_on(&self, what: &str) -> bool {
        self.on.iter().any(|o| o == what || (o == "*" && what != "symcheck"))
    }
    fn with(&self, feature: &str) -> bool {
        self.features.iter().any(|f| f == feature || f == "*")
    }
}

/// The first step that the inputs of `ci/run.sh` ask for and that was not run.
fn left_out(calls: &[Call], target: Option<&str>, build_only: bool, may_skip: bool, nextest: bool) -> Option<&'static str> {
    let all: Vec<(&Call, Work)> = calls.iter().filter_map(|c| Work::of(c).map(|w| (c, w))).collect();
    let any = |f: &dyn Fn(&Call, &Work) -> bool| all.iter().any(|(c, w)| f(c, w) && target.is_none_or(|t| w.target.is_empty() || w.target.iter().any(|x| x == t)));
    let windows = target.is_none_or(|t| t.contains("windows"));
    for release in [false, true] {
        for (c, default) in [(false, true), (true, true), (false, false)] {
            if !any(&|_, w| w.symbols && w.is_on("compiler_builtins") && w.release == release && w.with("c") == c && w.default == default) {
                return Some("the symbols were not checked in every configuration");
            }
            if !build_only && !any(&|_, w| w.sub == "test" && w.is_on("builtins-test") && w.release == release && w.with("c") == c && w.default == default) {
                return Some("the runtime routines were not tested in every configuration");
            }
        }
        for c in [false, true] {
            let it = |w: &Work| w.is_on("builtins-test-intrinsics") && w.release == release && w.with("c") == c;
            if !any(&|_, w| w.symbols && it(w)) {
                return Some("the symbols of the intrinsics were not checked in every configuration");
            }
            if !build_only && !windows && !any(&|_, w| !w.symbols && w.sub == "run" && it(w)) {
                return Some("the intrinsics were not run in every configuration");
            }
        }
    }
    if !any(&|_, w| w.is_on("libm")) {
        return Some("libm was not even built");
    }
    if may_skip {
        return None;
    }
    if build_only {
        let built = |i: bool| any(&|_, w| w.sub == "build" && w.is_on("libm") && w.with("unstable-intrinsics") == i);
        return (!built(false) || !built(true)).then_some("libm was not built although it must not be skipped");
    }
    for (release, arch, intrinsics) in [(false, false, false), (false, true, true), (true, false, false), (true, true, false), (true, true, true)] {
        if !any(&|_, w| w.sub == "test" && (w.is_on("libm-test") || w.is_on("libm")) && w.release == release && w.with("arch") == arch && w.with("unstable-intrinsics") == intrinsics) {
            return Some("libm was not tested in every configuration although it must not be skipped");
        }
    }
    if nextest && !any(&|c, _| c.has("--doc")) {
        return Some("the examples in the documentation were not tested");
    }
    (!any(&|c, w| w.is_on("libm") && c.env.iter().any(|e| e == "\x1eENSURE_NO_PANIC=1"))).then_some("it was not checked that libm does not panic")
}

impl Prop for StepsProp {
    fn run(&mut self, t: &mut Tape, verbose: bool) -> RunResult {
        let mut res = RunResult::default();
        if self.scripts.is_empty() {
            return res;
        }
        let weights: Vec<u64> = self.scripts.iter().map(|s| match *s {
            "ci/run.sh" => 12,
            "ci/bench-icount.sh" => 6,
            "ci/run-docker.sh" => 4,
            _ => 2,
        }).collect();
        let script = self.scripts[t.weighted(GEN, &weights.iter().map(|&w| w as _).collect::<Vec<_>>())];
        let target = *t.pick(GEN, TARGETS);
        let given = !t.chance(GEN, 1, 4);
        let nextest = t.chance(GEN, 1, 2);
        self.w.reset(&[], nextest);
        let mut env: Vec<(&str, &str)> = Vec::new();
        let mut argv = vec![format!("./{script}")];
        let progs: Vec<(&'static str, u64, u32)>;
        let mut to_test = "";
        let mut docker: Vec<&str> = Vec::new();
        let mut b = Default::default();
        let (mut build_only, mut may_skip, mut pr) = (false, false, false);
        let exists = t.chance(GEN, 1, 2);
        match script {
            "ci/run.sh" => {
                if given {
                    argv.push(target.into());
                }
                build_only = t.chance(GEN, 1, 4);
                if build_only {
                    env.push(("BUILD_ONLY", "1"));
                }
                match t.below(GEN, 4) {
                    0 => {}
                    1 => env.push(("MAY_SKIP_LIBM_CI", "")),
                    2 => env.push(("MAY_SKIP_LIBM_CI", "false")),
                    _ => {
                        env.push(("MAY_SKIP_LIBM_CI", "true"));
                        may_skip = true;
                    }
                }
                if t.chance(GEN, 1, 4) {
                    env.push(("USING_CONTAINER_RUSTC", "1"));
                    self.w.write("plan/targets", if exists { format!("{target}\n") } else { "x\n".into() });
                }
                if !nextest && t.chance(GEN, 1, 3) {
                    env.push(("CARGO_TARGET_DIR", "target"));
                }
                progs = vec![("cargo", 34, 12), ("rustc", 2, 1), ("rustup", 2, 1), ("lscpu", 1, 1), ("cc", 1, 1)];
            }
            "ci/run-extensive.sh" => {
                to_test = *t.pick(GEN, &["acosf", "", "acosf,sqrtf16", "fmaf128"]);
                env.push(("TO_TEST", to_test));
                progs = vec![("cargo", 2, 1)];
            }
            "ci/miri.sh" => progs = vec![("cargo", 6, 1)],
            "ci/bench-walltime.sh" => progs = vec![("cargo", 1, 1)],
            "ci/run-docker.sh" => {
                let n = 1 + t.below(GEN, 3);
                for _ in 0..n {
                    docker.push(*t.pick(GEN, TARGETS));
                }
                docker.sort();
                docker.dedup();
                for d in &docker {
                    self.w.write(&format!("co/ci/docker/{d}/Dockerfile"), "FROM x\n");
                }
                if given {
                    docker.truncate(1);
                    argv.push(docker[0].into());
                }
                if t.chance(GEN, 1, 2) {
                    env.push(("GITHUB_ACTIONS", "true"));
                }
                if t.chance(GEN, 1, 3) {
                    env.push(("DOCKER_BASE_IMAGE", "rust:1"));
                }
                progs = vec![("docker", 6, 6), ("rustc", 2, 1)];
            }
            "ci/install-test-deps.sh" => {
                argv.push(target.into());
                if t.chance(GEN, 1, 2) {
                    argv.push("nightly-x".into());
                }
                env.push(("RUN_IN_DOCKER", t.pick(GEN, &["0", "1", "true", "false"])));
                progs = vec![("rustup", 3, 3), ("sudo", 2, 1)];
            }
            "ci/install-bench-deps.sh" => {
                if given {
                    argv.push(target.into());
                }
                env.push(("BENCHMARK_RUSTC", "nightly-x"));
                progs = vec![("rustup", 3, 3), ("sudo", 2, 2), ("cargo", 2, 2)];
            }
            "ci/download-compiler-rt.sh" => {
                for k in 0..t.below(GEN, 3) {
                    self.w.write(&format!("co/ci/compiler-rt-patches/9{k}-x.patch"), "x\n");
                }
                progs = vec![("curl", 1, 1), ("tar", 1, 1), ("patch", 3, 2)];
            }
            "ci/update-musl.sh" => {
                if exists {
                    self.w.write("co/crates/musl-math-sys/musl/COPYRIGHT", "x\n");
                }
                progs = vec![("git", 3, 1)];
            }
            _ => {
                if given {
                    argv.push(target.into());
                }
                env.push(("GITHUB_SHA", "0123456789abcdef0123456789abcdef01234567"));
                pr = !t.chance(GEN, 1, 4);
                if pr {
                    env.push(("PR_NUMBER", "1234"));
                } else if t.chance(GEN, 1, 2) {
                    env.push(("PR_NUMBER", ""));
                }
                b = body(t);
                self.w.write("plan/pr.json", pr_json(&b.text));
                self.w.write("plan/runs.json", "[]\n");
                progs = vec![("cargo", 2, 8), ("gh", 3, 3), ("tar", 1, 1), ("rustc", 2, 1)];
            }
        }
        let mut faults = Vec::new();
        for _ in 0..t.weighted(FAULT, &[1, 6, 2]) {
            let w: Vec<u64> = progs.iter().map(|p| p.2 as u64).collect();
            let p = progs[t.weighted(FAULT, &w.iter().map(|&x| x as _).collect::<Vec<_>>())];
            let (end, cut) = ending(t);
            faults.push(Fault { prog: p.0, n: t.below(FAULT, p.1), end, cut });
        }
        let args: Vec<&str> = argv.iter().map(|s| s.as_str()).collect();
        let out = self.w.run(&args, &env, &faults);
        // ---- judge
        let mut trace = vec![format!("{} with {env:?}{}", argv.join(" "), if nextest { ", nextest installed" } else { "" })];
        let mut must = Vec::new();
        let mut bench_failed = 0;
        for (n, c) in &out.fired {
            let Some(f) = faults.iter().find(|f| f.prog == c.prog && f.n == *n) else { continue };
            trace.push(format!("call {n} of {} ends with {} after {} of 1000 of its output: {}", c.prog, f.end, f.cut, c.text()));
            let e = essential(script, c);
            if e {
                must.push(format!("`{}` {}", c.text(), if f.end < 0 { format!("died of signal {}", -f.end) } else { format!("ended with {}", f.end) }));
            }
            bench_failed += (script == "ci/bench-icount.sh" && c.prog == "cargo" && c.word(0) == "bench") as u32;
            let kind = if f.end < 0 { "dies of a signal" } else { "fails" };
            res.count(&format!("fault: {} {} {kind}", if e { "step" } else { "other call of" }, c.prog), 1);
        }
        if bench_failed > 0 && pr && !b.allow_regressions {
            must.push(format!("{bench_failed} benchmark runs failed and the pull request does not allow it"));
        }
        let ok = out.status == Some(0);
        let mut bad = None;
        if ok && !must.is_empty() {
            bad = Some(("failure ignored".to_string(), format!("{script} succeeds although {}", must.join(" and "))));
        } else if !ok && out.fired.is_empty() {
            bad = Some(("fails without reason".to_string(), format!("{script} ends with {:?} although every step passed: {}", out.status, out.err.lines().last().unwrap_or(""))));
        } else if ok {
            let missing = match script {
                "ci/run.sh" => left_out(&out.calls, given.then_some(target), build_only, may_skip, nextest),
                "ci/run-extensive.sh" => {
                    let all = words(to_test).iter().all(|w| out.calls.iter().any(|c| c.prog == "cargo" && c.env.iter().any(|e| e.starts_with("\x1eLIBM_EXTENSIVE_TESTS=") && words(e.split_once('=').unwrap().1).contains(w))));
                    (!all).then_some("a routine never got its extensive tests")
                }
                "ci/run-docker.sh" => {
                    let all = docker.iter().all(|d| out.calls.iter().any(|c| c.prog == "docker" && container(c) == Some(true) && c.args.iter().any(|a| a.contains(d))));
                    (!all).then_some("a target was never run")
                }
                "ci/miri.sh" => {
                    let kinds = |on: &str| out.calls.iter().filter_map(Work::of).filter(|w| w.is_on(on)).flat_map(|w| w.target).collect::<std::collections::BTreeSet<_>>();
                    let mem = kinds("builtins-test");
                    // misaligned access or not, and big-endian
                    (mem.len() < 3 || mem != kinds("libm")).then_some("a target was never interpreted")
                }
                "ci/bench-walltime.sh" => (!out.calls.iter().any(|c| c.prog == "cargo")).then_some("nothing was run"),
                "ci/download-compiler-rt.sh" => {
                    let n = std::fs::read_dir(self.w.path("co/ci/compiler-rt-patches")).map(|d| d.count()).unwrap_or(0);
                    (out.calls.iter().filter(|c| c.prog == "patch").count() < n).then_some("a patch was never applied")
                }
                "ci/update-musl.sh" => (!out.calls.iter().any(|c| c.prog == "git" && ["checkout", "switch", "reset"].iter().any(|k| c.has(k)))).then_some("the wanted revision was never checked out"),
                "ci/install-test-deps.sh" | "ci/install-bench-deps.sh" if given || script == "ci/install-test-deps.sh" => {
                    let add = out.calls.iter().any(|c| c.prog == "rustup" && c.args.iter().any(|a| a.split(['=', ',']).any(|x| x == target)));
                    (!add).then_some("the target was never installed")
                }
                "ci/bench-icount.sh" => {
                    let name = String::from_utf8_lossy(&std::fs::read(self.w.path("plan/github-env")).unwrap_or_default()).lines().rev().find_map(|l| l.strip_prefix("BASELINE_NAME=").map(|s| s.to_string()));
                    let there = name.is_some_and(|n| std::fs::metadata(self.w.path(&format!("co/{n}.tar.xz"))).is_ok_and(|m| m.len() > 0));
                    let measured = |arch: bool| out.calls.iter().filter_map(Work::of).any(|w| w.sub == "bench" && w.with("arch") == arch);
                    if !measured(false) || !measured(true) {
                        Some("a configuration was never measured")
                    } else {
                        (!there).then_some("the new baseline was not kept")
                    }
                }
                _ => None,
            };
            bad = missing.map(|m| ("step left out".to_string(), format!("{script} succeeds, but {m}")));
        }
        trace.push(format!("{} calls, {script} ends with {:?}", out.calls.len(), out.status));
        if out.status.is_none() {
            bad = None;
            res.count("event: script stopped after 120 s", 1);
        }
        res.violation = bad;
        res.count("event: failed step reported", (!ok && !must.is_empty()) as u64);
        res.count("event: run without fault succeeded", (ok && out.fired.is_empty()) as u64);
        res.count(&format!("runs of {script}"), 1);
        res.nontrivial = !must.is_empty();
        res.steps = out.calls.len() as u64;
        res.summary = format!("{script}: {} calls, {}", out.calls.len(), if must.is_empty() { "no failed step".into() } else { must.join("; ") });
        let mut h = Hash::new();
        h.bytes(argv.join(" ").as_bytes());
        for (k, v) in &env {
            h.bytes(k.as_bytes());
            h.bytes(v.as_bytes());
        }
        for c in &out.calls {
            h.bytes(c.text().as_bytes());
        }
        for f in &faults {
            h.bytes(f.prog.as_bytes());
            h.u64(f.n);
            h.u64(f.end as u64);
        }
        h.u64(out.status.unwrap_or(999) as u64);
        res.log_hash = h.get();
        res.sig = h.get();
        if verbose {
            res.trace = trace;
        }
        res
    }
}
