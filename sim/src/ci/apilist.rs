//! C27: the lists of public functions, their update and their check.
use super::json;
use super::world::*;
use crate::driver::{Prop, RunResult};
use crate::tape::{Tape, FAULT, GEN};
use crate::util::Hash;
use std::collections::{BTreeMap, BTreeSet};

const TOOL: &str = "etc/update-api-list.py";
const LISTS: [&str; 2] = ["co/etc/function-list.txt", "co/etc/function-definitions.json"];
/// Names of routines as f16, f32, f64 and f128 variants.
const FAMILIES: &[[&str; 4]] = &[
    ["sqrtf16", "sqrtf", "sqrt", "sqrtf128"],
    ["", "sinf", "sin", ""],
    ["", "erff", "erf", ""],
    ["rintf16", "rintf", "rint", "rintf128"],
    ["", "lgammaf_r", "lgamma_r", ""],
    ["fmodf16", "fmodf", "fmod", "fmodf128"],
    ["", "modff", "modf", ""],
    ["", "fmaf", "fma", "fmaf128"],
    ["", "powf", "pow", ""],
    ["ldexpf16", "ldexpf", "ldexp", "ldexpf128"],
    ["", "y1f", "y1", ""],
    ["", "exp10f", "exp10", ""],
    ["floorf16", "floorf", "floor", "floorf128"],
    ["", "exp2f", "exp2", ""],
    ["", "expf", "exp", ""],
];
const TYPES: [&str; 4] = ["f16", "f32", "f64", "f128"];
const ARCH: &[&str] = &["libm/src/math/arch/x86/all.rs", "libm/src/math/arch/aarch64/rounding.rs", "libm/src/math/arch/wasm32/deep/more.rs", "libm/src/math/arch/i586.rs"];

/// A version of the crate: what rustdoc reports about it and what it has in files.
#[derive(Clone, Default)]
struct Doc {
    json: String,
    /// routine -> files that define it, type
    want: BTreeMap<String, (BTreeSet<String>, &'static str)>,
    arch: BTreeMap<&'static str, String>,
}

fn item(id: u64, name: &str, file: &str, public: bool, inner: &str) -> String {
    format!(
        "\"{id}\":{{\"id\":{id},\"crate_id\":0,\"name\":{},\"span\":{{\"filename\":\"{file}\",\"begin\":[1,1],\"end\":[2,1]}},\"visibility\":\"{}\",\"docs\":null,\"inner\":{inner}}}",
        if name.is_empty() { "null".to_string() } else { format!("\"{name}\"") },
        if public { "public" } else { "default" }
    )
}

fn used(id: u64, name: &str, glob: bool) -> String {
    format!("{{\"use\":{{\"source\":\"self::{name}\",\"name\":\"{name}\",\"id\":{id},\"is_glob\":{glob}}}}}")
}

const FUNCTION: &str = "{\"function\":{\"sig\":{\"inputs\":[],\"output\":null,\"is_c_variadic\":false},\"has_body\":true}}";

impl Doc {
    fn draw(t: &mut Tape) -> Doc {
        let mut d = Doc::default();
        let mut items = Vec::new();
        let mut id = 10;
        let mut next = || {
            id += 1;
            id
        };
        let n = 1 + t.below(GEN, 5);
        let mut fams: Vec<usize> = Vec::new();
        for _ in 0..n {
            let f = t.below(GEN, FAMILIES.len() as u64) as usize;
            if !fams.contains(&f) {
                fams.push(f);
            }
        }
        for &f in &fams {
            let base = FAMILIES[f][2];
            let generic = t.chance(GEN, 1, 2).then(|| format!("libm/src/math/generic/{base}.rs"));
            if let Some(g) = &generic {
                // the generic function is private to its module's users
                items.push(item(next(), base, g, true, FUNCTION));
            }
            for k in 0..4 {
                let name = FAMILIES[f][k];
                if name.is_empty() || (k != 2 && t.chance(GEN, 1, 4)) {
                    continue;
                }
                let own = if k == 2 || t.chance(GEN, 1, 2) { format!("libm/src/math/{base}.rs") } else { format!("libm/src/math/{name}.rs") };
                let at = next();
                items.push(item(at, name, &own, true, FUNCTION));
                items.push(item(next(), "", if t.chance(GEN, 1, 4) { "libm/src/lib.rs" } else { "libm/src/math/mod.rs" }, true, &used(at, name, false)));
                let e = d.want.entry(name.to_string()).or_default();
                e.1 = TYPES[k];
                e.0.insert(own);
                if let Some(g) = &generic {
                    if k == 2 {
                        e.0.insert(g.clone());
                    }
                }
                if t.chance(GEN, 1, 5) {
                    // the same function, configured in elsewhere
                    let x = format!("libm/src/math/extra/{name}.rs");
                    items.push(item(next(), name, &x, t.chance(GEN, 1, 2), FUNCTION));
                    d.want.get_mut(name).unwrap().0.insert(x);
                }
                if t.chance(GEN, 1, 5) {
                    let x = format!("libm/src/math/support/{name}_more.rs");
                    let s = if t.chance(GEN, 1, 2) { "_round" } else { "_status" };
                    items.push(item(next(), &format!("{name}{s}"), &x, true, FUNCTION));
                    d.want.get_mut(name).unwrap().0.insert(x);
                }
                if t.chance(GEN, 1, 4) {
                    let a = *t.pick(GEN, ARCH);
                    d.arch.entry(a).or_default().push_str(&format!("pub fn {name}(x: f64) -> f64 {{\n    x\n}}\n\n"));
                    d.want.get_mut(name).unwrap().0.insert(a.to_string());
                }
            }
            if let Some(g) = generic {
                for k in 0..4 {
                    if let Some(e) = d.want.get_mut(FAMILIES[f][k]) {
                        e.0.insert(g.clone());
                    }
                }
            }
        }
        // things that are not public functions
        for _ in 0..t.below(GEN, 5) {
            let (a, b) = (next(), next());
            match t.below(GEN, 6) {
                0 => {
                    items.push(item(a, "hidden", "libm/src/math/hidden.rs", true, FUNCTION));
                    items.push(item(b, "", "libm/src/math/mod.rs", false, &used(a, "hidden", false)));
                }
                1 => {
                    items.push(item(a, "Float", "libm/src/math/support/float.rs", true, "{\"trait\":{\"items\":[]}}"));
                    items.push(item(b, "", "libm/src/lib.rs", true, &used(a, "Float", false)));
                }
                2 => {
                    items.push(item(a, "inner", "libm/src/math/support/inner.rs", true, FUNCTION));
                    items.push(item(b, "", "libm/src/math/support/mod.rs", true, &used(a, "inner", false)));
                }
                3 => items.push(item(b, "", "libm/src/lib.rs", true, &used(999_999, "elsewhere", false))),
                4 => {
                    items.push(item(a, "math", "libm/src/math/mod.rs", true, "{\"module\":{\"items\":[]}}"));
                    items.push(item(b, "", "libm/src/lib.rs", true, &used(a, "math", true)));
                }
                _ => items.push(item(a, "alone", "libm/src/math/alone.rs", true, FUNCTION)),
            }
        }
        // rustdoc's order is arbitrary
        for k in (1..items.len()).rev() {
            let j = t.below(GEN, k as u64 + 1) as usize;
            items.swap(k, k - j);
        }
        d.json = format!("{{\"root\":0,\"crate_version\":\"0.2.16\",\"includes_private\":true,\"index\":{{{}}},\"paths\":{{}},\"external_crates\":{{}},\"format_version\":57}}\n", items.join(","));
        d
    }

    /// What is wrong with these lists, if anything.
    fn judge(&self, lists: &[Vec<u8>; 2]) -> Option<String> {
        let text = String::from_utf8_lossy(&lists[0]).into_owned();
        let have: Vec<&str> = text.lines().map(str::trim).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
        for n in self.want.keys() {
            if !have.contains(&n.as_str()) {
                return Some(format!("public function {n} is not in the function list"));
            }
        }
        if let Some(x) = have.iter().find(|x| !self.want.contains_key(**x)) {
            return Some(format!("the function list names {x}, which is not a public function"));
        }
        let Some(j) = json::parse(&String::from_utf8_lossy(&lists[1])) else { return Some("the definitions are not JSON".into()) };
        for (n, (files, ty)) in &self.want {
            let Some(e) = j.get(n) else { return Some(format!("public function {n} is not in the definitions")) };
            let src: Vec<&str> = e.get("sources").map(|s| s.arr().iter().filter_map(|x| x.str()).collect()).unwrap_or_default();
            for f in files {
                if !src.contains(&f.as_str()) {
                    return Some(format!("{f} defines {n} but is not among its sources"));
                }
            }
            if e.get("type").and_then(|x| x.str()) != Some(*ty) {
                return Some(format!("{n} is not listed as {ty}"));
            }
        }
        None
    }
}

pub struct ApiProp {
    w: World,
    /// The tool and the modules beside it, by their names in `etc/`.
    tool: Vec<(String, Vec<u8>)>,
}

fn lines(b: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(b).lines().map(|s| s.to_string()).collect()
}

impl ApiProp {
    pub fn new(repo: &str, standin: &str, scratch: &str) -> ApiProp {
        let mut tool = Vec::new();
        let from = std::path::Path::new(repo);
        if from.join(TOOL).is_file() {
            for e in std::fs::read_dir(from.join("etc")).into_iter().flatten().flatten() {
                let name = e.file_name().to_string_lossy().into_owned();
                if name.ends_with(".py") {
                    tool.extend(std::fs::read(e.path()).ok().map(|b| (format!("co/etc/{name}"), b)));
                }
            }
        }
        tool.sort();
        ApiProp { w: World::new(repo, standin, scratch, "c27"), tool }
    }
    fn lists(&self) -> [Vec<u8>; 2] {
        LISTS.map(|l| std::fs::read(self.w.path(l)).unwrap_or_default())
    }
    fn offer(&self, d: &Doc, json: &str) {
        self.w.write("plan/rustdoc.json", json);
        let _ = std::fs::remove_dir_all(self.w.path("co/libm"));
        for a in ARCH {
            self.w.write(&format!("co/{a}"), d.arch.get(a).map(|s| s.as_str()).unwrap_or("// nothing\n"));
        }
    }
    fn rest(&self) -> Vec<(String, Vec<u8>)> {
        let mut v = self.w.files("co");
        v.retain(|f| !LISTS.iter().any(|l| l[3..] == f.0));
        v
    }
}

/// What an edit, an interrupted update or a crash leaves.
fn damage(t: &mut Tape, b: &[u8], other: &[u8]) -> (Vec<u8>, &'static str) {
    let mut l: Vec<String> = lines(b);
    let n = l.len().max(1) as u64;
    let k = t.below(FAULT, n) as usize;
    let join = |l: Vec<String>| l.iter().map(|s| format!("{s}\n")).collect::<String>().into_bytes();
    match t.below(FAULT, 8) {
        0 => (b[..t.below(FAULT, b.len() as u64 + 1) as usize].to_vec(), "cut"),
        1 => (Vec::new(), "emptied"),
        2 => (other.to_vec(), "of another version"),
        3 if k < l.len() => {
            l.remove(k);
            (join(l), "with a line missing")
        }
        4 if k + 1 < l.len() => {
            l.swap(k, k + 1);
            (join(l), "with two lines exchanged")
        }
        5 if k < l.len() => {
            let x = l[k].clone();
            l.insert(k, x);
            (join(l), "with a line twice")
        }
        6 if k < l.len() => {
            l[k].push_str(if t.chance(FAULT, 1, 2) { "x" } else { " " });
            (join(l), "with a character added to a line")
        }
        7 => {
            let mut v = b.to_vec();
            if v.is_empty() {
                return (v, "unchanged");
            }
            let at = t.below(FAULT, v.len() as u64) as usize;
            if v[at].is_ascii_alphabetic() {
                v[at] ^= 0x20;
            }
            (v, "with a letter changed")
        }
        _ => (b.to_vec(), "unchanged"),
    }
}

impl Prop for ApiProp {
    fn run(&mut self, t: &mut Tape, verbose: bool) -> RunResult {
        let mut res = RunResult::default();
        if self.tool.is_empty() {
            res.summary = "no such tool".into();
            return res;
        }
        let mut trace = Vec::new();
        self.w.reset(&[], false);
        for (name, b) in &self.tool {
            self.w.write(name, b);
        }
        let docs: Vec<Doc> = (0..1 + t.below(GEN, 2)).map(|_| Doc::draw(t)).collect();
        let mut h = Hash::new();
        let mut bad: Option<(String, String)> = None;
        // an update may leave working files of its own, which only a check must not touch
        self.offer(&docs[0], &docs[0].json);
        let given: std::collections::BTreeSet<String> = self.rest().into_iter().map(|f| f.0).collect();
        // ---- what an undisturbed update writes for each version
        let mut want: Vec<[Vec<u8>; 2]> = Vec::new();
        for d in &docs {
            h.bytes(d.json.as_bytes());
            self.offer(d, &d.json);
            for l in LISTS {
                self.w.write(l, "");
            }
            let o = self.w.run(&["python3", TOOL], &[], &[]);
            res.steps += 1 + o.calls.len() as u64;
            let l = self.lists();
            trace.push(format!("undisturbed update for {:?} ends with {:?}", d.want.keys().collect::<Vec<_>>(), o.status));
            if o.status != Some(0) {
                res.count("event: undisturbed update failed", 1);
                res.log_hash = h.get();
                res.sig = h.get();
                res.summary = "the update fails".into();
                return res;
            }
            if let Some(m) = d.judge(&l) {
                bad = Some(("lists".into(), m));
            }
            want.push(l);
        }
        let other = |k: usize| want[(k + 1) % want.len()].clone();
        // ---- a history of updates, checks, edits and crashes
        let ops = 1 + t.below(GEN, 4);
        let mut cur = want[0].clone();
        for op in 0..ops {
            if bad.is_some() {
                break;
            }
            let k = t.below(GEN, docs.len() as u64) as usize;
            let d = &docs[k];
            // something happened since
            match t.weighted(FAULT, &[4, 4, 1]) {
                1 => {
                    let w = t.below(FAULT, 2) as usize;
                    let (b, what) = damage(t, &cur[w], &other(k)[w]);
                    trace.push(format!("{} is now {what}", &LISTS[w][7..]));
                    res.count(&format!("fault: list {what}"), 1);
                    cur[w] = b;
                }
                2 => {
                    // a crash between the two lists
                    let w = t.below(FAULT, 2) as usize;
                    cur[w] = want[k][w].clone();
                    cur[1 - w] = other(k)[1 - w].clone();
                    trace.push("only one list is of this version".into());
                    res.count("fault: lists of two versions", 1);
                }
                _ => {}
            }
            for w in 0..2 {
                self.w.write(LISTS[w], &cur[w]);
            }
            self.offer(d, &d.json);
            let mut faults = Vec::new();
            let mut absent = false;
            let (end, cut) = ending(t);
            match t.weighted(FAULT, &[6, 3, 2, 1]) {
                1 => faults.push(Fault { prog: "rustdoc", n: 0, end, cut }),
                2 => faults.push(Fault { prog: "rustdoc", n: 0, end: 0, cut: t.below(FAULT, 1000) }),
                3 => absent = true,
                _ => {}
            }
            let p = self.w.path("bin/rustdoc");
            if absent {
                let _ = std::fs::remove_file(&p);
                res.count("fault: rustdoc cannot be started", 1);
            }
            let check = !t.chance(GEN, 1, 3);
            let full = if !check && t.chance(FAULT, 1, 4) { Some(t.below(FAULT, want[k][1].len() as u64 + 50)) } else { None };
            let argv: &[&str] = if check { &["python3", TOOL, "--check"] } else { &["python3", TOOL] };
            let before = self.rest();
            let o = self.w.run_limited(argv, &[], &faults, full);
            if absent {
                std::os::unix::fs::symlink("standin", &p).unwrap();
            }
            res.steps += 1 + o.calls.len() as u64;
            let after = self.lists();
            // ---- judge
            let whole = |f: &Fault| f.end == 0 && d.json.len() * f.cut as usize / 1000 >= d.json.trim_end().len();
            let hurt = absent || (!o.fired.is_empty() && !whole(&faults[0]));
            for (_, c) in &o.fired {
                let f = &faults[0];
                trace.push(format!("rustdoc ends with {} after {} of 1000: {}", f.end, f.cut, c.prog));
                res.count(&format!("fault: rustdoc {}", if f.end < 0 { "dies of a signal" } else if f.end == 0 { "prints only a part" } else { "fails" }), 1);
            }
            let fresh = (0..2).all(|w| lines(&cur[w]) == lines(&want[k][w]));
            let name = if check { "check" } else { "update" };
            trace.push(format!(
                "{name} of version {k} with {} ends with {:?}{}",
                if fresh { "matching lists" } else { "other lists" },
                o.status,
                full.map(|n| format!(", no file can be longer than {n} bytes")).unwrap_or_default()
            ));
            if let Some(n) = full {
                res.count("fault: no space after some bytes of a list", (n < want[k][1].len() as u64) as u64);
            }
            let ok = o.status == Some(0);
            if o.status.is_none() {
                res.count("event: tool stopped after 120 s", 1);
                break;
            }
            let mut v = |k: &str, m: String| {
                if bad.is_none() {
                    bad = Some((k.to_string(), format!("operation {op}: {m}")));
                }
            };
            let now: BTreeMap<_, _> = self.rest().into_iter().collect();
            if before.iter().any(|(n, b)| (check || given.contains(n)) && now.get(n) != Some(b)) {
                v("other files", format!("the {name} changed files that are not lists"));
            }
            if hurt && ok {
                v("rustdoc", format!("the {name} succeeds although rustdoc failed"));
            }
            if check {
                if after != cur {
                    v("check writes", "the check changed a list".into());
                }
                if ok && !fresh {
                    v("mismatch accepted", "the check succeeds although a list does not match".into());
                }
                if !ok && fresh && !hurt {
                    v("match refused", "the check fails although both lists match".into());
                }
                res.count("event: check succeeded", ok as u64);
            } else {
                if hurt && after != cur {
                    v("update without data", "the update changed a list although rustdoc failed".into());
                }
                if ok && !(0..2).all(|w| lines(&after[w]) == lines(&want[k][w])) {
                    v("update incomplete", "the update succeeds but the lists are not those of this version".into());
                }
                if !ok && !hurt && full.is_none() {
                    v("update refused", "an undisturbed update fails".into());
                }
            }
            res.nontrivial |= hurt || (check && !fresh) || full.is_some();
            cur = after;
            h.u64(o.status.unwrap_or(999) as u64);
            for f in &faults {
                h.u64(f.end as u64);
                h.u64(f.cut);
            }
            for b in &cur {
                h.bytes(b);
            }
            h.u64(check as u64);
        }
        res.violation = bad;
        res.summary = format!("{ops} operations on {} versions", docs.len());
        res.log_hash = h.get();
        res.sig = h.get();
        if verbose {
            res.trace = trace;
        }
        res
    }
}
