//! Stands in for the programs that the CI scripts start.  The plan is in ../plan next to this
//! program; every call is recorded there, and ends as planned.
use std::ffi::OsString;
use std::fs;
use std::io::Write;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

unsafe extern "C" {
    fn raise(sig: i32) -> i32;
    fn getrlimit(what: i32, l: *mut [u64; 2]) -> i32;
    fn setrlimit(what: i32, l: *const [u64; 2]) -> i32;
}

struct Fault {
    end: i32,
    /// how much of the answer is given first, of 1000
    cut: usize,
}

struct Call {
    plan: PathBuf,
    me: String,
    args: Vec<String>,
    raw: Vec<OsString>,
    fault: Option<Fault>,
}

fn append(p: &Path, s: &str) {
    if let Ok(mut f) = fs::OpenOptions::new().append(true).create(true).open(p) {
        let _ = f.write_all(s.as_bytes());
    }
}

fn end(e: i32) -> ! {
    let _ = std::io::stdout().flush();
    if e < 0 {
        unsafe { raise(-e) };
    }
    std::process::exit(e)
}

impl Call {
    /// The answer, or the part of it that the plan allows.
    fn answer(&self, out: &[u8], code: i32) -> ! {
        let (n, e) = match &self.fault {
            Some(f) => (out.len() * f.cut / 1000, f.end),
            None => (out.len(), code),
        };
        let _ = std::io::stdout().write_all(&out[..n]);
        end(e)
    }
    /// The real program.
    fn real(&self, prog: &str, extra: &[&str]) -> ! {
        let mut c = Command::new(prog);
        c.args(extra).args(&self.raw);
        if self.fault.is_none() {
            let e = c.exec();
            eprintln!("{prog}: {e}");
            end(126)
        }
        let o = c.stderr(Stdio::inherit()).output().map(|o| o.stdout).unwrap_or_default();
        self.answer(&o, 0)
    }
    fn has(&self, s: &str) -> bool {
        self.args.iter().any(|a| a == s)
    }
    /// Value of `--name value` or `--name=value`.
    fn opt(&self, names: &[&str]) -> Option<String> {
        for (k, a) in self.args.iter().enumerate() {
            for n in names {
                if a == n {
                    return Some(self.args.get(k + 1).cloned().unwrap_or_default());
                }
                if let Some(v) = a.strip_prefix(&format!("{n}=")) {
                    return Some(v.into());
                }
            }
        }
        None
    }
    fn word(&self, k: usize) -> &str {
        self.args.iter().filter(|a| !a.starts_with(['-', '+'])).nth(k).map(|s| s.as_str()).unwrap_or("")
    }
    /// JSON through the client's filter.  A null is printed as an empty line.
    fn filtered(&self, file: &str, list: bool) -> Vec<u8> {
        let json = fs::read(self.plan.join(file)).unwrap_or_default();
        let mut q = self.opt(&["--jq", "-q"]).unwrap_or(".".into());
        if !self.plan.join("odd").exists() {
            // what the service itself selects
            let fields = self.opt(&["--json"]).filter(|f| f.bytes().all(|c| c.is_ascii_alphabetic() || c == b','));
            let proj = fields.map(|f| format!("{{{f}}}")).unwrap_or(".".into());
            if list {
                let word = |v: String| v.replace(['"', '\\'], "");
                let mut sel = String::from("[.[]");
                if let Some(v) = self.opt(&["--status", "-s"]).map(word) {
                    sel += &format!("|select(.status==\"{v}\" or .conclusion==\"{v}\")");
                }
                if let Some(v) = self.opt(&["--branch", "-b"]).map(word) {
                    sel += &format!("|select(.headBranch==\"{v}\")");
                }
                if let Some(v) = self.opt(&["--workflow", "-w"]).map(word) {
                    sel += &format!("|select(.workflowName==\"{v}\")");
                }
                let n = self.opt(&["--limit", "-L"]).and_then(|v| v.parse().ok()).unwrap_or(20u32);
                q = format!("{sel}][:{n}]|map({proj})|{q}");
            } else {
                q = format!("{proj}|{q}");
            }
        } else if self.opt(&["--jq", "-q"]).is_none() {
            return json;
        }
        let mut c = Command::new("/usr/bin/jq");
        let mut c = c.args(["-rc", &q]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
        let _ = c.stdin.take().unwrap().write_all(&json);
        let o = c.wait_with_output().unwrap();
        if !o.status.success() {
            end(1)
        }
        if o.stdout == b"null\n" {
            return b"\n".to_vec();
        }
        o.stdout
    }
}

/// `*` matches any characters.
fn glob(p: &[u8], s: &[u8]) -> bool {
    match p.split_first() {
        None => s.is_empty(),
        Some((b'*', r)) => (0..=s.len()).any(|k| glob(r, &s[k..])),
        Some((c, r)) => s.split_first().is_some_and(|(d, t)| c == d && glob(r, t)),
    }
}

fn download(c: &Call) -> ! {
    let dir = c.plan.join("artifacts").join(c.word(2));
    let pat = c.opt(&["--pattern", "-p"]).unwrap_or("*".into());
    let to = PathBuf::from(c.opt(&["--dir", "-D"]).unwrap_or(".".into()));
    let mut files = Vec::new();
    for d in fs::read_dir(&dir).into_iter().flatten().flatten() {
        let dn = d.file_name().to_string_lossy().into_owned();
        if glob(pat.as_bytes(), dn.as_bytes()) {
            for f in fs::read_dir(d.path()).into_iter().flatten().flatten() {
                files.push((dn.clone(), f.file_name().to_string_lossy().into_owned(), fs::read(f.path()).unwrap_or_default()));
            }
        }
    }
    files.sort();
    if files.is_empty() {
        eprintln!("no artifact matches any of the names or patterns provided");
        end(c.fault.as_ref().map(|f| f.end).unwrap_or(1))
    }
    let total: usize = files.iter().map(|f| f.2.len()).sum();
    let mut left = c.fault.as_ref().map(|f| total * f.cut / 1000).unwrap_or(total);
    for (d, f, b) in files {
        if left == 0 {
            break;
        }
        let d = to.join(d);
        if d.exists() {
            eprintln!("error extracting: file exists");
            end(1)
        }
        let n = b.len().min(left);
        let _ = fs::create_dir_all(&d);
        let _ = fs::write(d.join(f), &b[..n]);
        left -= n;
    }
    end(c.fault.as_ref().map(|f| f.end).unwrap_or(0))
}

/// The archive of sources that an address names.
fn sources(c: &Call) -> Vec<u8> {
    let url = c.args.iter().find(|a| a.contains("://")).cloned().unwrap_or_default();
    let ver = url.rsplit('/').next().unwrap_or("").trim_end_matches(".tar.gz");
    let top = format!("llvm-project-rustc-{ver}");
    let mk = c.plan.join("mk");
    let d = mk.join(&top).join("compiler-rt/lib/builtins");
    let _ = fs::create_dir_all(&d);
    let _ = fs::write(d.join("adddf3.c"), "int x;\n".repeat(50));
    let _ = Command::new("/usr/bin/tar").args(["-czf", "a.tar.gz", &top]).current_dir(&mk).status();
    fs::read(mk.join("a.tar.gz")).unwrap_or_default()
}

fn main() {
    // a limit on the length of files is for the tool only
    let mut l = [0u64; 2];
    unsafe {
        getrlimit(1, &mut l);
        l[0] = l[1];
        setrlimit(1, &l);
    }
    let exe = std::env::current_exe().unwrap();
    let plan = exe.parent().unwrap().parent().unwrap().join("plan");
    let mut a = std::env::args_os();
    let me = a.next().map(|s| PathBuf::from(s).file_name().unwrap().to_string_lossy().into_owned()).unwrap();
    let raw: Vec<OsString> = a.collect();
    let args: Vec<String> = raw.iter().map(|s| s.to_string_lossy().into_owned()).collect();
    let calls = fs::read_to_string(plan.join("calls")).unwrap_or_default();
    let n = calls.lines().filter(|l| l.split('\x1f').next() == Some(&me)).count();
    let fault = fs::read_to_string(plan.join("faults")).unwrap_or_default().lines().find_map(|l| {
        let w: Vec<&str> = l.split(' ').collect();
        (w[0] == me && w[1] == n.to_string()).then(|| Fault { end: w[2].parse().unwrap(), cut: w[3].parse().unwrap() })
    });
    let mut line = me.clone();
    for s in &args {
        line.push('\x1f');
        line.push_str(&s.replace(['\n', '\x1f'], " "));
    }
    for v in ["LIBM_EXTENSIVE_TESTS", "ENSURE_NO_PANIC", "CARGO_PROFILE_DEV_LTO", "CARGO_PROFILE_RELEASE_LTO", "SYMCHECK_TEST_TARGET"] {
        if let Some(x) = std::env::var_os(v) {
            line.push_str(&format!("\x1f\x1e{v}={}", x.to_string_lossy().replace(['\n', '\x1f'], " ")));
        }
    }
    append(&plan.join("calls"), &format!("{line}\n"));
    if fault.is_some() {
        append(&plan.join("fired"), &format!("{}\x1f{line}\n", n));
    }
    let c = Call { plan, me, args, raw, fault };
    match c.me.as_str() {
        "git" if c.plan.join("git-real").exists() => c.real("/usr/bin/git", &[]),
        "git" => {
            if c.word(0) == "clone" && c.fault.is_none() {
                let _ = fs::create_dir_all(c.word(2));
            }
            c.answer(b"", 0)
        }
        "tar" => {
            let writes = c.args.first().is_some_and(|a| a.trim_start_matches('-').starts_with('c')) || c.has("--create");
            if c.fault.is_some() && writes {
                c.answer(b"", 0)
            }
            c.real("/usr/bin/tar", &[])
        }
        "date" => c.real("/usr/bin/date", &["-d", "@1790000000"]),
        "rustc" if c.has("--print") || c.has("--print=sysroot") => c.answer(b"/sysroot\n", 0),
        "rustc" => c.answer(b"rustc 1.99.0-nightly (0123456789 2026-08-20)\nbinary: rustc\nhost: x86_64-unknown-linux-gnu\nrelease: 1.99.0-nightly\nLLVM version: 22.1.0\n", 0),
        "rustup" if c.word(0) == "target" && c.word(1) == "list" => c.answer(&fs::read(c.plan.join("targets")).unwrap_or_default(), 0),
        "cargo" => {
            if c.opt(&["--target"]).is_some_and(|t| t.is_empty()) {
                eprintln!("error: target was empty");
                end(101)
            }
            match c.word(0) {
                "metadata" => c.answer(b"{\"packages\":[{\"name\":\"libm\",\"version\":\"0.2.16\"},{\"name\":\"gungraun\",\"version\":\"0.17.0\"}]}\n", 0),
                "binstall" if c.opt(&["--version"]).is_none_or(|v| v.is_empty()) => end(76),
                "bench" => {
                    if let Some(h) = c.opt(&["--home"]) {
                        let _ = fs::create_dir_all(&h);
                        let _ = fs::write(Path::new(&h).join(c.opt(&["--save-baseline"]).unwrap_or("summary".into())), b"ir\n");
                    }
                    c.answer(b"bench\n", 0)
                }
                _ => c.answer(b"ok\n", 0),
            }
        }
        "curl" => {
            let b = sources(&c);
            let short = c.args.iter().position(|a| a.starts_with('-') && !a.starts_with("--") && a.ends_with('o')).and_then(|k| c.args.get(k + 1).cloned());
            if let Some(o) = short.or_else(|| c.opt(&["--output"])) {
                let n = c.fault.as_ref().map(|f| b.len() * f.cut / 1000).unwrap_or(b.len());
                let _ = fs::write(o, &b[..n]);
                c.answer(b"", 0)
            }
            c.answer(&b, 0)
        }
        "gh" => match (c.word(0), c.word(1)) {
            ("pr", "view") => c.answer(&c.filtered("pr.json", false), 0),
            ("run", "list") => c.answer(&c.filtered("runs.json", true), 0),
            ("run", "download") => download(&c),
            _ => c.answer(b"", 0),
        },
        "rustdoc" => c.answer(&fs::read(c.plan.join("rustdoc.json")).unwrap_or_default(), 0),
        "uname" if c.has("-m") => c.answer(b"x86_64\n", 0),
        "uname" => c.answer(b"Linux\n", 0),
        "cmd.exe" => c.answer(b"\\\\?\\C:\\co\\builtins-test\\target2\r\n", 0),
        "patch" => {
            let _ = std::io::copy(&mut std::io::stdin(), &mut std::io::sink());
            c.answer(b"patching file\n", 0)
        }
        _ => c.answer(b"", 0),
    }
}
