//! A scratch checkout with stand-ins for every program that matters.  The script under test runs
//! as an unprivileged user.
use std::collections::BTreeSet;
use std::fs;
use std::os::unix::fs::{lchown, symlink};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

unsafe extern "C" {
    fn geteuid() -> u32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn getrlimit(what: i32, l: *mut [u64; 2]) -> i32;
    fn setrlimit(what: i32, l: *const [u64; 2]) -> i32;
}

const NOBODY: u32 = 65534;

pub struct World {
    s: PathBuf,
    root: bool,
}

/// A planned fault: the n-th call of a program ends so, after part (of 1000) of its answer.
#[derive(Clone, Debug)]
pub struct Fault {
    pub prog: &'static str,
    pub n: u64,
    /// exit status, or minus a signal
    pub end: i32,
    pub cut: u64,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub prog: String,
    pub args: Vec<String>,
    pub env: Vec<String>,
}

impl Call {
    fn parse(l: &str) -> Call {
        let mut w = l.split('\x1f').map(|s| s.to_string());
        let prog = w.next().unwrap_or_default();
        let (env, args) = w.partition(|a: &String| a.starts_with('\x1e'));
        Call { prog, args, env }
    }
    pub fn word(&self, k: usize) -> &str {
        self.args.iter().filter(|a| !a.starts_with(['-', '+'])).nth(k).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn has(&self, a: &str) -> bool {
        self.args.iter().any(|x| x == a)
    }
    pub fn text(&self) -> String {
        format!("{}{} {}", self.env.iter().map(|e| format!("{} ", e.trim_start_matches('\x1e'))).collect::<String>(), self.prog, self.args.join(" "))
    }
}

pub struct Outcome {
    /// exit status, minus the signal, or nothing if it had to be stopped
    pub status: Option<i32>,
    pub out: String,
    pub err: String,
    pub calls: Vec<Call>,
    /// (number of the call of that program, the call)
    pub fired: Vec<(u64, Call)>,
}

const STANDINS: &[&str] = &[
    "cargo", "rustc", "rustup", "rustdoc", "gh", "git", "tar", "date", "docker", "curl", "patch", "sudo", "doas", "apk", "apt-get", "lscpu", "cc", "cmd.exe", "uname",
];

impl World {
    pub fn new(repo: &str, standin: &str, scratch: &str, tag: &str) -> World {
        let root = unsafe { geteuid() } == 0;
        for base in [PathBuf::from(scratch), std::env::temp_dir()] {
            let s = base.join(format!("{tag}-{}", std::process::id()));
            let _ = fs::remove_dir_all(&s);
            fs::create_dir_all(s.join("bin")).unwrap();
            fs::create_dir_all(s.join("src")).unwrap();
            fs::copy(standin, s.join("bin/standin")).unwrap();
            let w = World { s, root };
            // the unprivileged user must be able to get there
            if !Command::new(w.s.join("bin/standin")).uid_of(&w).current_dir(&w.s).stdout(Stdio::null()).status().is_ok_and(|s| s.success()) {
                continue;
            }
            copy(&Path::new(repo).join("ci"), &w.s.join("src/ci"));
            for n in STANDINS {
                symlink("standin", w.s.join("bin").join(n)).unwrap();
            }
            return w;
        }
        panic!("no usable scratch directory");
    }

    pub fn path(&self, p: &str) -> PathBuf {
        self.s.join(p)
    }

    /// Is this script part of the tree?
    pub fn has(&self, script: &str) -> bool {
        self.s.join("src").join(script).exists()
    }

    /// A new checkout and an empty plan.
    pub fn reset(&self, absent: &[&str], nextest: bool) {
        for d in ["co", "plan", "home"] {
            let d = self.s.join(d);
            let _ = fs::remove_dir_all(&d);
            fs::create_dir_all(&d).unwrap();
        }
        let ci = self.s.join("co/ci");
        fs::create_dir_all(&ci).unwrap();
        for e in fs::read_dir(self.s.join("src/ci")).unwrap().flatten() {
            let to = ci.join(e.file_name());
            if e.file_name() == "docker" {
                continue;
            } else if e.path().is_dir() {
                copy(&e.path(), &to);
            } else {
                let _ = fs::hard_link(e.path(), to);
            }
        }
        for n in STANDINS {
            let p = self.s.join("bin").join(n);
            if absent.contains(n) {
                let _ = fs::remove_file(p);
            } else if !p.is_symlink() {
                symlink("standin", p).unwrap();
            }
        }
        let p = self.s.join("bin/cargo-nextest");
        if !nextest {
            let _ = fs::remove_file(p);
        } else if !p.is_symlink() {
            symlink("standin", p).unwrap();
        }
    }

    pub fn write(&self, p: &str, b: impl AsRef<[u8]>) {
        let p = self.s.join(p);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(p, b).unwrap();
    }

    /// Contents of all files below a directory of the checkout.
    pub fn files(&self, p: &str) -> Vec<(String, Vec<u8>)> {
        let mut v = Vec::new();
        collect(&self.s.join(p), "", &mut v);
        v.sort();
        v
    }

    fn give(&self, p: &Path) {
        if !self.root {
            return;
        }
        let _ = lchown(p, Some(NOBODY), Some(NOBODY));
        if p.is_dir() && !p.is_symlink() {
            for e in fs::read_dir(p).unwrap().flatten() {
                self.give(&e.path());
            }
        }
    }

    /// Run a program as the unprivileged user, with input.
    pub fn prepare(&self, prog: &str, args: &[&str], input: &[u8]) {
        self.give(&self.s.join("co"));
        self.write("plan/input", input);
        let mut c = Command::new(prog);
        c.args(args).uid_of(self).current_dir(self.s.join("co")).env_clear().env("PATH", "/usr/bin:/bin").env("HOME", self.s.join("home"));
        c.stdin(fs::File::open(self.s.join("plan/input")).unwrap()).stdout(Stdio::null()).stderr(Stdio::null());
        let s = c.status().unwrap();
        assert!(s.success(), "{prog} {args:?} failed");
    }

    pub fn run(&self, argv: &[&str], env: &[(&str, &str)], faults: &[Fault]) -> Outcome {
        self.run_limited(argv, env, faults, None)
    }

    /// Writing beyond a length fails in every file (stand-ins excepted).
    pub fn run_limited(&self, argv: &[&str], env: &[(&str, &str)], faults: &[Fault], full: Option<u64>) -> Outcome {
        let mut f = String::new();
        for x in faults {
            f.push_str(&format!("{} {} {} {}\n", x.prog, x.n, x.end, x.cut));
        }
        self.write("plan/faults", f);
        self.write("plan/calls", "");
        self.write("plan/fired", "");
        for d in ["co", "plan", "home"] {
            self.give(&self.s.join(d));
        }
        let mut c = Command::new(argv[0]);
        c.args(&argv[1..]).uid_of(self).current_dir(self.s.join("co")).env_clear();
        c.env("PATH", format!("{}:/usr/local/bin:/usr/bin:/bin", self.s.join("bin").display()));
        c.env("HOME", self.s.join("home")).env("PYTHONDONTWRITEBYTECODE", "1").env("LC_ALL", "C.UTF-8");
        c.env("GITHUB_ENV", self.s.join("plan/github-env")).env("GITHUB_OUTPUT", self.s.join("plan/github-output"));
        c.env("GIT_CONFIG_NOSYSTEM", "1").env("GIT_PAGER", "cat").envs(env.iter().copied());
        if let Some(n) = full {
            unsafe {
                c.pre_exec(move || {
                    let mut l = [0u64; 2];
                    getrlimit(1, &mut l);
                    l[0] = n;
                    setrlimit(1, &l);
                    Ok(())
                });
            }
        }
        let file = |n: &str| fs::File::create(self.s.join(n)).unwrap();
        c.stdin(Stdio::null()).stdout(file("stdout")).stderr(file("stderr")).process_group(0);
        let mut child = c.spawn().expect("cannot start the script");
        let start = Instant::now();
        let status = loop {
            if let Some(s) = child.try_wait().unwrap() {
                break Some(s.code().unwrap_or_else(|| -s.signal().unwrap_or(0)));
            }
            if start.elapsed() > Duration::from_secs(120) {
                unsafe { kill(-(child.id() as i32), 9) };
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(Duration::from_micros(300));
        };
        // wherever the scratch directory is, the report is the same
        let here = self.s.display().to_string();
        let read = |n: &str| String::from_utf8_lossy(&fs::read(self.s.join(n)).unwrap_or_default()).replace(&here, "$S");
        let calls = read("plan/calls").lines().map(Call::parse).collect();
        let fired = read("plan/fired")
            .lines()
            .filter_map(|l| l.split_once('\x1f'))
            .map(|(n, l)| (n.parse().unwrap_or(0), Call::parse(l)))
            .collect();
        Outcome { status, out: read("stdout"), err: read("stderr"), calls, fired }
    }
}

impl Drop for World {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.s);
    }
}

trait Unprivileged {
    fn uid_of(&mut self, w: &World) -> &mut Self;
}

impl Unprivileged for Command {
    fn uid_of(&mut self, w: &World) -> &mut Self {
        if w.root {
            self.gid(NOBODY).uid(NOBODY);
        }
        self
    }
}

fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).into_iter().flatten().flatten() {
        let t = to.join(e.file_name());
        if e.path().is_dir() {
            copy(&e.path(), &t);
        } else {
            let _ = fs::copy(e.path(), t);
        }
    }
}

fn collect(p: &Path, rel: &str, v: &mut Vec<(String, Vec<u8>)>) {
    for e in fs::read_dir(p).into_iter().flatten().flatten() {
        let n = format!("{rel}{}", e.file_name().to_string_lossy());
        if e.path().is_dir() {
            collect(&e.path(), &format!("{n}/"), v);
        } else {
            v.push((n, fs::read(e.path()).unwrap_or_default()));
        }
    }
}

/// A random way for a program to fail.
pub fn ending(t: &mut crate::tape::Tape) -> (i32, u64) {
    use crate::tape::FAULT;
    let end = match t.below(FAULT, 3) {
        0 => *t.pick(FAULT, &[1, 101, 2, 128, 255, 77]),
        1 => 1 + t.below(FAULT, 255) as i32,
        _ => -*t.pick(FAULT, &[9, 15, 11, 6, 1, 2]),
    };
    let cut = match t.below(FAULT, 3) {
        0 => 0,
        1 => 1000,
        _ => t.below(FAULT, 1001),
    };
    (end, cut)
}

pub fn words(s: &str) -> BTreeSet<String> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
}
