mod drive;
mod huff;
mod json;
mod protos;
mod replay;
mod rng;
mod world;

fn main() {
    world::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_else(|| usage());
    match arg(1).as_str() {
        "drive" => drive::run(&arg(2), arg(3).parse().unwrap(), arg(4).parse().unwrap(), &arg(5)),
        "exec" => drive::exec_file(&arg(2), &arg(3)),
        "replay" => replay::run(&arg(2), a.get(3).map(|x| x.as_str()).unwrap_or("some")),
        _ => {
            usage();
        }
    }
}

fn usage() -> String {
    eprintln!("vharness drive DRIVER SEED EVENTS OUT | exec CALLS OUT | replay OUTDIR [all] < transitions");
    std::process::exit(2)
}
