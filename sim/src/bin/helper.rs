//! Stands in for `cargo` and `rustc`: writes the planned bytes, then exits or dies as planned.
//! Questions outside the plan go to the real program.
use std::io::Write;
use std::os::unix::process::CommandExt;

unsafe extern "C" {
    fn raise(sig: i32) -> i32;
}

fn main() {
    let mut a = std::env::args_os();
    let me = a.next().map(|s| std::path::PathBuf::from(s).file_name().unwrap().to_string_lossy().into_owned()).unwrap();
    let args: Vec<_> = a.collect();
    let text: Vec<String> = args.iter().map(|s| s.to_string_lossy().into_owned()).collect();
    let planned = match me.as_str() {
        "cargo" => text.iter().find(|s| !s.starts_with('-') && !s.starts_with('+')).is_some_and(|s| s == "build"),
        _ => text.iter().any(|s| s == "--print=cfg" || s == "cfg"),
    };
    if !planned {
        let real = std::env::var_os(format!("SIM_REAL_{me}")).expect("no real program");
        let e = std::process::Command::new(real).args(&args).exec();
        eprintln!("{e}");
        std::process::exit(126);
    }
    let dir = std::path::PathBuf::from(std::env::var_os("SIM_PLAN").expect("no plan"));
    let out = std::fs::read(dir.join(format!("{me}.out"))).unwrap();
    let end: i32 = std::fs::read_to_string(dir.join(format!("{me}.end"))).unwrap().trim().parse().unwrap();
    let _ = std::fs::write(dir.join(format!("{me}.ran")), b"");
    let mut so = std::io::stdout();
    let mut at = 0;
    for p in std::fs::read_to_string(dir.join("pieces")).unwrap().lines() {
        let p: usize = p.parse().unwrap();
        if p > at && p < out.len() {
            let _ = so.write_all(&out[at..p]);
            let _ = so.flush();
            std::thread::sleep(std::time::Duration::from_millis(4));
            at = p;
        }
    }
    let _ = so.write_all(&out[at..]);
    let _ = so.flush();
    if end < 0 {
        unsafe { raise(-end) };
    }
    std::process::exit(end);
}
