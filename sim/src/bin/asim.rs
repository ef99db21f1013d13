use sim::arm::atomics::{AtomicProp, Goal};
use sim::arm::machine::Kind;
use sim::arm::memory::MemoryProp;
use sim::arm::ordering::OrderProp;
use sim::arm::probe::ProbeProp64;
use sim::arm::routines::RoutineProp;
use sim::driver::{self, Args, Prop};

fn main() {
    let args = Args::parse();
    let dir = args.opts.get("images").cloned().unwrap_or_else(|| ".".into());
    let img = |n: &str, k: Kind| (n.to_string(), format!("{dir}/{n}.elf"), k);
    let le = img("armv5te-le", Kind::V5te);
    let be = img("armv5te-be", Kind::V5te);
    let t6 = img("thumbv6k", Kind::V6kThumb);
    let a64s = img("aarch64s", Kind::A64);
    let a64sb = img("aarch64s-be", Kind::A64);
    let a64 = img("aarch64", Kind::A64);
    let mut p: Box<dyn Prop> = match args.prop.as_str() {
        "C08" => Box::new(AtomicProp::new(&[le, be], Goal::Atomic)),
        "C09" => Box::new(OrderProp::new(&[le, be, t6])),
        "C13" => Box::new(OrderProp::new(&[a64])),
        "C10" => Box::new(AtomicProp::new(&[le, be, t6], Goal::Progress)),
        "C11" => Box::new(AtomicProp::new(&[t6], Goal::Atomic)),
        "C12" => Box::new(AtomicProp::new(&[a64], Goal::Atomic)),
        "C07-aarch64" => Box::new(ProbeProp64::new(img("aarch64u", Kind::A64))),
        "C06" => Box::new(MemoryProp::new(&[le, be, t6, a64s, a64sb])),
        "C15" => Box::new(RoutineProp::new(&[le, be, t6, a64s, a64sb])),
        o => {
            eprintln!("unknown property {o}");
            std::process::exit(2)
        }
    };
    std::process::exit(driver::main(&args, p.as_mut()));
}
