mod dict;
mod engine;
mod exec;
mod gen;
mod limits;
mod mo;
mod p_a;
mod objdump;
mod p_e;
mod p_f;
mod p_m;
mod p_o;
mod p_x;
mod prog;
mod spec;
mod sut;
mod text;
mod x86;

use std::path::PathBuf;

fn main() {
    engine::install_quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let mut all = vec![];
    all.extend(p_e::properties());
    all.extend(p_m::properties());
    all.extend(p_f::properties());
    all.extend(p_o::properties());
    all.extend(p_a::properties());
    all.extend(p_x::properties());
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check" | "check-inner") if args.len() >= 3 => match all.iter().find(|p| p.id == args[2]) {
            Some(p) if args[1] == "check" => engine::supervise(p, &verif, &args[2..]),
            Some(p) => engine::run_property(p, &verif, args.get(3).map(|s| s.as_str())),
            None => {
                println!("ERROR: no check for {}", args[2]);
                2
            }
        },
        Some("replay") if args.len() >= 3 => engine::supervised_replay(&PathBuf::from(&args[2])),
        Some("replay-inner") if args.len() >= 3 => engine::replay(&all, &PathBuf::from(&args[2])),
        Some("worker") => sut::worker_main(),
        Some("runner") => exec::runner_main(),
        Some("limits") => limits::worker_main(),
        Some("m04-release") => p_m::release_main(),
        Some("list") => {
            for p in &all {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            println!("usage: atcheck check ID [PART] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
