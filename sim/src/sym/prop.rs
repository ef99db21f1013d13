//! Runs of the real tool.  Everything the tool observes comes from the plan of the run: what
//! `rustc` and `cargo` print and how they end, and the libraries that `cargo` reports.  The tool
//! must not report success when anything in the plan went wrong.
use super::files::*;
use crate::driver::{Prop, RunResult};
use crate::tape::{Tape, FAULT, GEN, SCHED};
use crate::util::Hash;
use std::fs;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct Target {
    name: &'static str,
    abi: Abi,
    no_os: bool,
    cfg: Vec<u8>,
}

const fn abi(machine: u32, wide: bool, big: bool, osabi: u8, flags: u32) -> Abi {
    Abi { format: Format::Elf, machine, wide, big, osabi, flags }
}

const fn other(format: Format, machine: u32, osabi: u8, flags: u32) -> Abi {
    Abi { format, machine, wide: true, big: false, osabi, flags }
}

const TARGETS: &[(&str, Abi, bool)] = &[
    ("x86_64-unknown-linux-gnu", abi(62, true, false, 0, 0), false),
    ("i686-unknown-linux-gnu", abi(3, false, false, 0, 0), false),
    ("aarch64-unknown-linux-gnu", abi(183, true, false, 0, 0), false),
    ("armv7-unknown-linux-gnueabihf", abi(40, false, false, 0, 0x0500_0000), false),
    ("armebv7r-none-eabi", abi(40, false, true, 0, 0x0500_0000), true),
    ("powerpc-unknown-linux-gnu", abi(20, false, true, 0, 0), false),
    ("powerpc64-unknown-linux-gnu", abi(21, true, true, 0, 1), false),
    ("powerpc64le-unknown-linux-gnu", abi(21, true, false, 0, 2), false),
    ("s390x-unknown-linux-gnu", abi(22, true, true, 0, 0), false),
    ("riscv64gc-unknown-linux-gnu", abi(243, true, false, 0, 5), false),
    ("x86_64-unknown-freebsd", abi(62, true, false, 9, 0), false),
    ("x86_64-pc-windows-msvc", other(Format::Coff, 0x8664, 0, 0), false),
    ("aarch64-pc-windows-msvc", other(Format::Coff, 0xaa64, 0, 0), false),
    ("arm64ec-pc-windows-msvc", other(Format::Coff, 0xa641, 0, 0), false),
    ("x86_64-apple-darwin", other(Format::MachO, 0x0100_0007, 1, 3), false),
    ("aarch64-apple-darwin", other(Format::MachO, 0x0100_000c, 1, 0), false),
];

pub struct SymProp {
    tool: PathBuf,
    dir: PathBuf,
    cargo: String,
    rustc: String,
    targets: Vec<Target>,
}

/// What is at the path of a library.
#[derive(Clone, Copy, PartialEq)]
enum Place {
    File,
    Nothing,
    DanglingLink,
    Directory,
    LinkLoop,
}

/// A library of the run: bytes on disk (None: not there) and what is wrong with it.
struct Lib {
    name: String,
    bytes: Option<Vec<u8>>,
    place: Place,
    wrong: Vec<String>,
}

impl SymProp {
    pub fn new(tool: &str, helper: &str, scratch: &str, cargo: &str, rustc: &str) -> SymProp {
        let dir = PathBuf::from(scratch).join(format!("c16-{}", std::process::id()));
        let _ = fs::remove_dir_all(&dir);
        for d in ["bin", "plan", "lib"] {
            fs::create_dir_all(dir.join(d)).unwrap();
        }
        fs::copy(helper, dir.join("helper")).unwrap();
        let mut targets = Vec::new();
        for &(name, abi, no_os) in TARGETS {
            let o = Command::new(rustc).args(["--target", name, "--print=cfg"]).output().expect("rustc");
            if o.status.success() {
                targets.push(Target { name, abi, no_os, cfg: o.stdout });
            }
        }
        assert!(!targets.is_empty(), "rustc knows none of the targets");
        SymProp { tool: tool.into(), dir, cargo: cargo.into(), rustc: rustc.into(), targets }
    }
}

impl Drop for SymProp {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.dir);
    }
}

fn sym(name: String, global: bool, hidden: bool, defined: bool) -> Sym {
    Sym { name, global, weak: false, hidden, defined }
}

const CORE: &[&str] = &["_ZN4core3str8converts9from_utf817hd4454ac14cbbb790E", "_RNvNtNtCscK9O3IwVk7N_4core3str8converts9from_utf8", "_ZN4core9panicking5panic17h0123456789abcdefE"];

/// A library with at most one defect.
fn make_lib(t: &mut Tape, tg: &Target, index: usize, bad: bool, check_vis: bool, no_os: bool, kinds: &mut Vec<String>) -> Lib {
    let elf = tg.abi.format == Format::Elf;
    let single = t.chance(GEN, 1, 5);
    // a linked program instead of a library
    let program = single && tg.abi.format != Format::MachO && t.chance(GEN, 1, 3);
    let pe = program && !elf;
    // stack notes are not used there
    let no_note = tg.abi.machine == 21 && tg.abi.flags == 1;
    let nobj = if single { 1 } else { 1 + t.below(GEN, 4) as usize };
    let ext = if single { *t.pick(GEN, &["", ".exe"]) } else { *t.pick(GEN, &[".rlib", ".a"]) };
    let base = *t.pick(GEN, &["libcompiler_builtins-0123456789abcdef", "libcompiler_builtins", "builtins_test_intrinsics-fedcba98"]);
    // names are unique in the directory of the run
    let name = format!("{index}/{base}{ext}");
    let mut objs: Vec<Obj> = (0..nobj)
        .map(|o| {
            let mut syms = vec![sym(format!("local{o}"), false, false, true)];
            for k in 0..1 + t.below(GEN, 3) {
                syms.push(sym(format!("__fn{o}_{k}"), true, true, true));
            }
            if t.chance(GEN, 1, 3) {
                syms.push(sym("memcpy".into(), true, false, false));
            }
            let stack = if no_os || program || no_note { Stack::Missing } else { Stack::NoExec };
            let abi = if pe { Abi { format: Format::Pe, osabi: 2 + t.below(GEN, 2) as u8, ..tg.abi } } else { tg.abi };
            let segments = if program { vec![(6, 4), (3, 4), (1, 5), (0x6474_e551, 6)] } else { Vec::new() };
            Obj { abi, stack, syms, text: 4 * t.below(GEN, 9) as usize, segments, note_first: t.chance(GEN, 1, 4) }
        })
        .collect();
    if nobj > 1 && t.chance(GEN, 1, 4) {
        // a reference to core that another member satisfies
        objs[0].syms.push(sym(CORE[0].into(), true, false, false));
        objs[1].syms.push(sym(CORE[0].into(), true, true, true));
    }
    let mut lib = Lib { name, bytes: None, place: Place::File, wrong: Vec::new() };
    let kind = if bad { t.weighted(FAULT, &[4, 4, 4, 4, 4, 4, 4, 4, 2, 3, 8, 4, 3, 6, 3, 3]) } else { 99 };
    let m = t.below(FAULT, nobj as u64) as usize;
    let mut wrong = |s: &str| {
        kinds.push(s.to_string());
        lib.wrong.push(s.to_string());
    };
    match kind {
        0 => {
            if nobj > 1 {
                let w = if elf { t.below(FAULT, 4) } else { 0 };
                objs[m].syms[1].weak = w & 1 != 0;
                let mut s = objs[m].syms[1].clone();
                s.weak = w & 2 != 0;
                objs[(m + 1) % nobj].syms.push(s);
                wrong("library defines a symbol twice");
            }
        }
        1 if !pe => {
            let c = *t.pick(FAULT, &CORE[1..]);
            objs[m].syms.push(sym(c.into(), true, false, false));
            if t.chance(FAULT, 1, 4) {
                // in another member the name is used, but not defined either
                let k = t.below(FAULT, nobj as u64) as usize;
                objs[k].syms.push(sym(c.into(), true, false, false));
            }
            wrong("library needs a symbol of core");
        }
        2 => {
            let a = &mut objs[m].abi;
            match a.format {
                Format::Elf => {
                    a.machine = if a.machine == 62 { 183 } else { 62 };
                    a.wide = true;
                    a.flags = 0;
                }
                Format::Coff | Format::Pe => {
                    let m: Vec<u32> = [0x8664, 0xaa64, 0xa641].into_iter().filter(|&m| m != a.machine).collect();
                    a.machine = *t.pick(FAULT, &m);
                }
                Format::MachO => {
                    // x86-64, arm64 and arm64e
                    let m: Vec<(u32, u32)> = [(0x0100_0007, 3), (0x0100_000c, 0), (0x0100_000c, 2)].into_iter().filter(|&m| m != (a.machine, a.flags)).collect();
                    (a.machine, a.flags) = *t.pick(FAULT, &m);
                }
            }
            wrong("member for another architecture");
        }
        3 if elf && [40, 183, 20, 21].contains(&tg.abi.machine) => {
            objs[m].abi.big = !tg.abi.big;
            wrong("member of the other endianness");
        }
        4 => {
            let a = &mut objs[m].abi;
            match a.format {
                Format::Elf => {
                    let own = if tg.name.contains("linux") { 3 } else { a.osabi };
                    let o: Vec<u8> = [12, 2, 6, 9, 3, 4].into_iter().filter(|&o| o != own).collect();
                    let k = t.below(FAULT, o.len() as u64 + 2) as usize;
                    match (a.machine, k - k.min(o.len() - 1)) {
                        (62, 1) => *a = other(Format::Coff, 0x8664, 0, 0),
                        (62, 2) => *a = other(Format::MachO, 0x0100_0007, 1, 3),
                        (183, 1) => *a = other(Format::Coff, 0xaa64, 0, 0),
                        (183, 2) => *a = other(Format::MachO, 0x0100_000c, 1, 0),
                        _ => a.osabi = o[k % o.len()],
                    }
                }
                Format::Coff => {
                    let machine = if a.machine == 0x8664 { 62 } else { 183 };
                    *a = Abi { format: Format::Elf, machine, wide: true, big: false, osabi: 3, flags: 0 };
                    objs[m].stack = Stack::NoExec;
                }
                Format::MachO => a.osabi = *t.pick(FAULT, &[2, 3, 4, 6, 7, 8, 9, 11, 12]),
                Format::Pe => a.osabi = *t.pick(FAULT, &[10, 1, 14]),
            }
            wrong("member for another operating system");
        }
        5 if elf && !no_os => {
            if program {
                let k = t.below(FAULT, 4) as usize;
                let x = (0x6474_e551, 7);
                objs[m].segments.remove(3);
                objs[m].segments.insert(k, x);
            } else {
                objs[m].stack = Stack::Exec;
                objs[m].text = objs[m].text.max(4);
            }
            wrong("member asks for an executable stack");
        }
        6 if elf && !no_os && !program && !no_note => {
            objs[m].stack = Stack::Missing;
            objs[m].text = objs[m].text.max(4);
            wrong("member without stack note");
        }
        7 if check_vis && tg.abi.format != Format::Coff => {
            let mut s = sym(format!("__visible{m}"), true, false, true);
            s.weak = elf && t.chance(FAULT, 1, 3);
            objs[m].syms.push(s);
            wrong("library exports a symbol");
        }
        _ => {}
    }
    let mut files: Vec<(Vec<u8>, Layout)> = objs.iter().map(write_obj).collect();
    if kind == 13 {
        match t.below(FAULT, 5) {
            0 => {
                let b = &mut files[m].0;
                if tg.abi.format == Format::Coff && !pe {
                    b[..4].fill(0x21);
                } else {
                    b[1] ^= 0x20;
                }
            }
            1 => files[m].0 = b"BC\xc0\xde\x35\x14\0\0\x05\0\0\0\x62\x0c\x30\x24".to_vec(),
            2 => files[m].0 = Vec::new(),
            3 => files[m].0 = b"!<arch>\n".repeat(3),
            _ => files[m].0 = b"GROUP ( libother.a )\n".to_vec(),
        }
        wrong("member is not an object file");
    }
    let (mut bytes, pos) = if single {
        let b = files[0].0.clone();
        let n = b.len();
        (b, vec![(0, 0, n)])
    } else {
        // a cut between two members cannot be told without the index
        let indexed = kind == 10 || !t.chance(GEN, 1, 4);
        let ms: Vec<(String, Vec<u8>, Vec<String>)> = files
            .iter()
            .enumerate()
            .map(|(k, f)| {
                let defined = objs[k].syms.iter().filter(|s| indexed && s.global && s.defined);
                (format!("m{k}.o"), f.0.clone(), defined.map(|s| s.name.clone()).collect())
            })
            .collect();
        write_archive(&ms)
    };
    let (hdr, at, _) = pos[m];
    let last = pos[nobj - 1].1 + pos[nobj - 1].2;
    match kind {
        8 => {
            wrong("library missing");
            lib.place = *t.pick(FAULT, &[Place::Nothing, Place::DanglingLink]);
            return lib;
        }
        9 => {
            wrong("library cannot be read");
            lib.place = *t.pick(FAULT, &[Place::Directory, Place::LinkLoop]);
            return lib;
        }
        10 => {
            // anywhere, or exactly where a member ends
            let cut = if t.chance(FAULT, 1, 4) { pos[m].0 } else { t.below(FAULT, last as u64) as usize };
            bytes.truncate(cut);
            wrong(if pos.iter().any(|p| p.0 == cut) && cut > 0 { "library truncated between two members" } else { "library truncated" });
        }
        11 => {
            bytes.clear();
            wrong("library empty");
        }
        12 if !single => {
            if t.chance(FAULT, 1, 2) {
                // a size beyond the end
                bytes[hdr + 48..hdr + 58].copy_from_slice(b"99999999  ");
            } else {
                bytes[hdr + 58] = b'?';
            }
            wrong("member header damaged");
        }
        14 => {
            let f = at + files[m].1.shoff_field;
            bytes[f..f + files[m].1.shoff_len].fill(0x7f);
            wrong("member without readable sections");
        }
        15 if !pe => {
            // of a global symbol
            let k = files[m].1.sym_name.len() - 1;
            let f = at + files[m].1.sym_name[k];
            bytes[f..f + 4].fill(0x7f);
            wrong("symbol without readable name");
        }
        _ => {}
    }
    lib.bytes = Some(bytes);
    lib
}

/// `"` and `\` do not occur in what is quoted here.
fn artifact(t: &mut Tape, krate: &str, files: &[String]) -> String {
    let fresh = t.chance(GEN, 1, 3);
    let kind = *t.pick(GEN, &["lib", "staticlib", "bin", "cdylib"]);
    let exe = if kind == "bin" { format!("\"{}\"", files[0]) } else { "null".into() };
    let f: Vec<String> = files.iter().map(|f| format!("\"{f}\"")).collect();
    format!("{{\"reason\":\"compiler-artifact\",\"package_id\":\"{krate} 0.1.0\",\"target\":{{\"kind\":[\"{kind}\"],\"name\":\"{krate}\"}},\"filenames\":[{}],\"executable\":{exe},\"fresh\":{fresh}}}\n", f.join(","))
}

/// How a helper ends: (bytes it prints, exit code or minus the signal, must the tool fail).
struct End {
    out: Vec<u8>,
    end: i32,
    absent: bool,
}

const SIGNALS: &[i32] = &[9, 15, 1, 2];

fn value_complete(out: &[u8], full: &[u8], key: &str) -> bool {
    let full = String::from_utf8_lossy(full);
    let Some(line) = full.lines().find(|l| l.starts_with(key)) else { return true };
    let want = line.trim_end_matches('"');
    out.split(|&b| b == b'\n').any(|l| l.starts_with(want.as_bytes()))
}

impl Prop for SymProp {
    fn run(&mut self, t: &mut Tape, verbose: bool) -> RunResult {
        let mut res = RunResult::default();
        let tg = &self.targets[t.below(GEN, self.targets.len() as u64) as usize];
        let direct = t.chance(GEN, 1, 4);
        let no_os = tg.no_os || t.chance(GEN, 1, 8);
        let check_vis = !t.chance(GEN, 1, 8);
        let explicit = tg.name != env_host() || t.chance(GEN, 1, 2);
        let nlib = 1 + t.below(GEN, 3) as usize + if t.chance(GEN, 1, 8) { t.below(GEN, 8) as usize } else { 0 };
        // what goes wrong: 0 nothing, 1 a library, 2 rustc, 3 cargo, 4 two of them
        let what = t.weighted(FAULT, &[2, 6, 4, 6, 3]);
        let first = if what == 4 { 1 + t.below(FAULT, 3) as usize } else { what };
        let second = if what == 4 { 1 + t.below(FAULT, 3) as usize } else { 0 };
        let hit = |k: usize| first == k || second == k;
        let mut kinds: Vec<String> = Vec::new();
        let mut must: Vec<String> = Vec::new();
        // ---- libraries
        let victim = t.below(FAULT, nlib as u64) as usize;
        let libs: Vec<Lib> = (0..nlib).map(|k| make_lib(t, tg, k, hit(1) && k == victim, check_vis, no_os, &mut kinds)).collect();
        for l in &libs {
            must.extend(l.wrong.iter().map(|w| format!("{}: {w}", l.name)));
        }
        // ---- rustc
        let mut r = End { out: tg.cfg.clone(), end: 0, absent: false };
        if hit(2) {
            let n = r.out.len() as u64;
            let mut w = |s: String, k: &str| {
                must.push(s);
                kinds.push(k.into());
            };
            match t.below(FAULT, 6) {
                0 => {
                    r.end = 1 + t.below(FAULT, 254) as i32;
                    w(format!("rustc exits with {}", r.end), "rustc fails after printing everything");
                }
                1 => {
                    r.out.truncate(t.below(FAULT, n + 1) as usize);
                    r.end = -*t.pick(FAULT, SIGNALS);
                    w(format!("rustc dies of signal {} after {} of {n} bytes", -r.end, r.out.len()), "rustc dies of a signal");
                }
                2 => {
                    r.out.truncate(t.below(FAULT, n + 1) as usize);
                    r.end = 1 + t.below(FAULT, 254) as i32;
                    w(format!("rustc exits with {} after {} of {n} bytes", r.end, r.out.len()), "rustc fails after printing a part");
                }
                3 => {
                    r.out.truncate(t.below(FAULT, n) as usize);
                    let missing = ["target_arch=", "target_endian=", "target_os="].iter().find(|k| !value_complete(&r.out, &tg.cfg, k));
                    if let Some(k) = missing {
                        w(format!("rustc prints only {} of {n} bytes, without a complete {}", r.out.len(), k.trim_end_matches('=')), "rustc output truncated");
                    }
                }
                4 => {
                    let k = t.below(FAULT, n) as usize;
                    r.out[k] = 0xff;
                    w(format!("byte {k} printed by rustc is not text"), "rustc output unreadable");
                }
                _ => {
                    r.absent = true;
                    w("rustc cannot be started".into(), "rustc cannot be started");
                }
            }
        }
        // ---- cargo; paths are relative to the tool's directory, so that every run is the same
        // wherever it is made
        let paths: Vec<String> = libs.iter().map(|l| format!("lib/{}", l.name)).collect();
        let mut lines: Vec<Vec<u8>> = Vec::new();
        let other = |t: &mut Tape, lines: &mut Vec<Vec<u8>>| match t.below(GEN, 4) {
            1 => lines.push(artifact(t, "libm", &["lib/liblibm-0.rlib".into()]).into_bytes()),
            2 => lines.push(b"{\"reason\":\"build-script-executed\",\"package_id\":\"x 0.1.0\",\"linked_libs\":[],\"cfgs\":[],\"env\":[],\"out_dir\":\"/nowhere\"}\n".to_vec()),
            3 => lines.push(b"{\"reason\":\"compiler-message\",\"package_id\":\"x 0.1.0\",\"message\":{\"rendered\":\"warning: unused\",\"level\":\"warning\"}}\n".to_vec()),
            _ => {}
        };
        let together = t.chance(GEN, 1, 3);
        other(t, &mut lines);
        if together {
            let mut f = paths.clone();
            f.push("lib/libcompiler_builtins-0.rmeta".into());
            lines.push(artifact(t, "compiler_builtins", &f).into_bytes());
        } else {
            for p in &paths {
                lines.push(artifact(t, "compiler_builtins", &[p.clone()]).into_bytes());
                other(t, &mut lines);
            }
        }
        let mut ok = true;
        let mut c = End { out: Vec::new(), end: 0, absent: false };
        let hit3 = hit(3) && !direct;
        let ckind = if hit3 { t.below(FAULT, 8) } else { 99 };
        let mut w = |s: String, k: &str| {
            must.push(s);
            kinds.push(k.into());
        };
        match ckind {
            0 => {
                ok = false;
                c.end = if t.chance(FAULT, 1, 3) { 0 } else { 101 };
                w(format!("cargo reports that the build failed and exits with {}", c.end), "cargo reports a failed build");
            }
            1 => {
                // one message damaged
                let k = t.below(FAULT, lines.len() as u64) as usize;
                let n = lines[k].len() as u64;
                let text = String::from_utf8_lossy(&lines[k]).into_owned();
                let list = text.find("\"filenames\":").zip(text.find(",\"executable\""));
                if let (Some((a, b)), true) = (list, t.chance(FAULT, 1, 3)) {
                    // no list of names where there should be one
                    let f = *t.pick(FAULT, &["null", "7", "[null]", "[[]]", "\"\"", "{}"]);
                    lines[k] = format!("{}\"filenames\":{f}{}", &text[..a], &text[b..]).into_bytes();
                } else if t.chance(FAULT, 1, 2) {
                    lines[k].truncate(1 + t.below(FAULT, n - 2) as usize);
                    lines[k].push(b'\n');
                } else {
                    let b = t.below(FAULT, n - 1) as usize;
                    lines[k][b] = 0xff;
                }
                w(format!("message {k} of cargo is unreadable"), "cargo output unreadable");
            }
            _ => {}
        }
        lines.push(format!("{{\"reason\":\"build-finished\",\"success\":{ok}}}\n").into_bytes());
        c.out = lines.concat();
        let n = c.out.len() as u64;
        // cut anywhere, or after a complete message
        let cut = |t: &mut Tape, c: &mut End| {
            let k = if t.chance(FAULT, 1, 2) {
                let k = t.below(FAULT, lines.len() as u64 + 1) as usize;
                lines[..k].iter().map(|l| l.len()).sum()
            } else {
                t.below(FAULT, n + 1) as usize
            };
            c.out.truncate(k);
        };
        match ckind {
            2 => {
                c.end = 1 + t.below(FAULT, 254) as i32;
                w(format!("cargo exits with {} after all messages", c.end), "cargo fails after printing everything");
            }
            3 => {
                cut(t, &mut c);
                c.end = -*t.pick(FAULT, SIGNALS);
                w(format!("cargo dies of signal {} after {} of {n} bytes", -c.end, c.out.len()), "cargo dies of a signal");
            }
            4 | 5 => {
                cut(t, &mut c);
                c.end = 1 + t.below(FAULT, 254) as i32;
                w(format!("cargo exits with {} after {} of {n} bytes", c.end, c.out.len()), "cargo fails after printing a part");
            }
            6 => {
                cut(t, &mut c);
                if (c.out.len() as u64) < n - 1 {
                    w(format!("cargo prints only {} of {n} bytes", c.out.len()), "cargo output truncated");
                }
            }
            7 => {
                c.absent = true;
                w("cargo cannot be started".into(), "cargo cannot be started");
            }
            _ => {}
        }
        // helpers that print in pieces, with pauses between them
        let pieces: Vec<u64> = if t.chance(SCHED, 1, 12) { (0..1 + t.below(SCHED, 3)).map(|_| t.below(SCHED, n.max(1))).collect() } else { Vec::new() };
        if !pieces.is_empty() {
            kinds.push("helper output arrives in pieces".into());
        }
        // ---- the world as planned
        let libdir = self.dir.join("lib");
        let _ = fs::remove_dir_all(&libdir);
        for (l, p) in libs.iter().zip(&paths) {
            let p = self.dir.join(p);
            fs::create_dir_all(p.parent().unwrap()).unwrap();
            match l.place {
                Place::File => fs::write(&p, l.bytes.as_ref().unwrap()).unwrap(),
                Place::Nothing => {}
                Place::DanglingLink => std::os::unix::fs::symlink("nothing", &p).unwrap(),
                Place::Directory => fs::create_dir(&p).unwrap(),
                Place::LinkLoop => std::os::unix::fs::symlink(p.file_name().unwrap(), &p).unwrap(),
            }
        }
        let bin = self.dir.join("bin");
        let plan = self.dir.join("plan");
        for (name, e) in [("rustc", &r), ("cargo", &c)] {
            let b = bin.join(name);
            if e.absent {
                let _ = fs::remove_file(&b);
            } else if !b.exists() {
                fs::hard_link(self.dir.join("helper"), &b).unwrap();
            }
            fs::write(plan.join(format!("{name}.out")), &e.out).unwrap();
            fs::write(plan.join(format!("{name}.end")), e.end.to_string()).unwrap();
            fs::write(plan.join("pieces"), pieces.iter().map(|p| format!("{p}\n")).collect::<String>()).unwrap();
            let _ = fs::remove_file(plan.join(format!("{name}.ran")));
        }
        let mut cmd = Command::new(&self.tool);
        cmd.arg(if direct { "--check" } else { "--build-and-check" });
        if explicit {
            cmd.args(["--target", tg.name]);
        }
        if no_os {
            cmd.arg("--no-os");
        }
        if !check_vis {
            cmd.arg("--no-visibility");
        }
        if direct {
            cmd.args(&paths);
        } else {
            cmd.args(["--", "-p", "compiler_builtins"]);
        }
        cmd.current_dir(&self.dir).env("PATH", &bin).env("CARGO", bin.join("cargo")).env("RUSTC", bin.join("rustc"));
        cmd.env("SIM_PLAN", &plan).env("SIM_REAL_cargo", &self.cargo).env("SIM_REAL_rustc", &self.rustc).env("RUST_BACKTRACE", "0");
        cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        let mut child = cmd.spawn().expect("cannot start the tool");
        let start = Instant::now();
        let status = loop {
            if let Some(s) = child.try_wait().unwrap() {
                break Some(s);
            }
            if start.elapsed() > Duration::from_secs(60) {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(Duration::from_micros(150));
        };
        let success = status.is_some_and(|s| s.success());
        let ran = |n: &str| plan.join(format!("{n}.ran")).exists();
        // ---- report
        let mut h = Hash::new();
        h.bytes(tg.name.as_bytes());
        h.u64(direct as u64 | (no_os as u64) << 1 | (check_vis as u64) << 2 | (success as u64) << 3 | (ran("rustc") as u64) << 4 | (ran("cargo") as u64) << 5);
        h.bytes(&r.out);
        h.u64(r.end as u64);
        h.bytes(&c.out);
        h.u64(c.end as u64);
        for l in &libs {
            h.bytes(l.name.as_bytes());
            h.bytes(l.bytes.as_deref().unwrap_or(b"-"));
        }
        let mut trace = vec![format!("target {}, {}{}{}", tg.name, if direct { "given libraries" } else { "build and check" }, if no_os { ", no OS" } else { "" }, if check_vis { "" } else { ", no visibility check" })];
        trace.push(format!("rustc {}", if r.absent { "absent".into() } else { format!("prints {} of {} bytes, end {}", r.out.len(), tg.cfg.len(), r.end) }));
        if !direct {
            trace.push(format!("cargo {}", if c.absent { "absent".into() } else { format!("prints {} messages, end {}", c.out.iter().filter(|&&b| b == b'\n').count(), c.end) }));
        }
        for l in &libs {
            trace.push(format!("library {}: {}{}", l.name, l.bytes.as_ref().map(|b| format!("{} bytes", b.len())).unwrap_or("absent".into()), l.wrong.iter().map(|w| format!(", {w}")).collect::<String>()));
        }
        trace.push(format!("the tool reports {}", if success { "success" } else { "failure" }));
        if success && !must.is_empty() {
            // the kind of fault is the class, so that minimising keeps it
            res.violation = Some((kinds[0].clone(), format!("the tool reports success although {}", must.join("; "))));
        }
        for k in &kinds {
            res.count(&format!("fault: {k}"), 1);
        }
        res.count("event: run without fault reported success", (must.is_empty() && success) as u64);
        if must.is_empty() && success {
            res.count(&format!("accepted without fault for {}", tg.name), 1);
        }
        res.count("event: run without fault reported failure", (must.is_empty() && !success) as u64);
        res.count("event: failure reported", (!must.is_empty() && !success) as u64);
        res.count("event: tool stopped after 60 s", status.is_none() as u64);
        res.nontrivial = !must.is_empty();
        res.summary = format!("{}: {}", tg.name, if must.is_empty() { "no fault".into() } else { must.join("; ") });
        res.steps = 2 + nlib as u64;
        res.log_hash = h.get();
        pieces.iter().for_each(|&p| h.u64(p));
        res.sig = h.get();
        if verbose {
            res.trace = trace;
        }
        res
    }
}

/// The tool's default target.
fn env_host() -> &'static str {
    "x86_64-unknown-linux-gnu"
}
