use sim::driver::{self, Args, Prop};
use sim::ci::{apilist::ApiProp, baseline::BaselineProp, plan::PlanProp, steps::StepsProp};
use sim::sym::prop::SymProp;

fn main() {
    let args = Args::parse();
    let get = |k: &str| args.opts.get(k).cloned().unwrap_or_else(|| panic!("missing option {k}"));
    let mut p: Box<dyn Prop> = match args.prop.as_str() {
        "C16" => Box::new(SymProp::new(&get("tool"), &get("helper"), &get("scratch"), &get("cargo"), &get("rustc"))),
        "C17" => Box::new(PlanProp::new(&get("repo"), &get("standin"), &get("scratch"))),
        "C18" => Box::new(StepsProp::new(&get("repo"), &get("standin"), &get("scratch"))),
        "C19" => Box::new(BaselineProp::new(&get("repo"), &get("standin"), &get("scratch"))),
        "C27" => Box::new(ApiProp::new(&get("repo"), &get("standin"), &get("scratch"))),
        o => {
            eprintln!("unknown property {o}");
            std::process::exit(2)
        }
    };
    let r = driver::main(&args, p.as_mut());
    drop(p);
    std::process::exit(r);
}
