use sim::driver::{self, Args, Prop};
use sim::native::abi::AbiProp;
use sim::native::cpu::CpuProp;
use sim::native::hist::{Goal, HistProp};
use sim::native::memops::MemProp;
use sim::native::probe::ProbeProp;
use sim::native::x87::X87Prop;

fn main() {
    let args = Args::parse();
    let dir = args.opts.get("images").cloned().unwrap_or_else(|| ".".into());
    let set = |l: &[&'static str]| -> Vec<(&'static str, String)> { l.iter().map(|&n| (n, format!("{dir}/{n}.elf"))).collect() };
    if args.prop == "explore" {
        sim::native::explore::main(&set(&["x64c", "x64pc"]), args.num("part", 0) as usize, args.num("of", 1) as usize, args.get("out"));
        return;
    }
    let mut p: Box<dyn Prop> = match args.prop.as_str() {
        "C01" => Box::new(HistProp::new(&set(&["x64", "x64p"]), Goal::Concurrent)),
        "C02" => Box::new(HistProp::new(&set(&["x64", "x64p"]), Goal::Interrupt)),
        "C01-x86" => Box::new(HistProp::new(&set(&["i586", "i686"]), Goal::Concurrent)),
        "C02-x86" => Box::new(HistProp::new(&set(&["i586", "i686"]), Goal::Interrupt)),
        "C04-x86" => Box::new(AbiProp::new(&set(&["i586", "i686"]))),
        "C03" => Box::new(CpuProp::new(&set(&["x64", "i686"]))),
        "C04" => Box::new(AbiProp::new(&set(&["x64", "x64e", "x64p"]))),
        "C05" => Box::new(MemProp::new(&set(&["x64", "x64e", "x64k"]))),
        "C06-x86" => Box::new(MemProp::new(&set(&["x64p", "i586"]))),
        "C07" => Box::new(ProbeProp::new(&set(&["x64", "i586", "x64u", "x86u"]))),
        "C14" => Box::new(X87Prop::new(&format!("{dir}/i586.elf"))),
        o => {
            eprintln!("unknown property {o}");
            std::process::exit(2)
        }
    };
    std::process::exit(driver::main(&args, p.as_mut()));
}
