//! Runtime monitors for the tmf crate: one property per run.
mod alloc;
mod codec;
mod fw;
mod gen;
mod objp;
mod p_cost;
mod p_edit;
mod p_obj;
mod p_pipe;
mod p_read;
mod p_round;
mod rng;
mod spec;
use fw::*;
#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
const PROPS: &[&Prop] = &[
    &p_round::C01, &p_round::C02, &p_round::C03, &p_round::C04, &p_round::C05, &p_round::C06, &p_round::C09, &p_round::C12,
    &p_round::C21, &p_round::C25, &p_round::C27, &p_edit::C11, &p_edit::C13, &p_edit::C14, &p_edit::C15, &p_edit::C22, &p_edit::C23, &p_edit::C24,
    &p_read::C07, &p_read::C08, &p_read::C10, &p_read::C20, &p_read::C26, &p_obj::C16, &p_obj::C17, &p_obj::C18, &p_obj::C19, &p_pipe::C29, &p_cost::C30,
];
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 || args[1] != "run" {
        eprintln!("usage: tmfmon run PROPERTY [--seed N] [--cases N] [--secs S] [--threads N] [--tier quick|thorough] [--only CASE] [--journal FILE] [--hang SECS] [--digest] [--skip A,B] [--out FILE]");
        std::process::exit(2);
    }
    let mut o = Opts { seed: 1, cases: u64::MAX, secs: 10.0, threads: 8, thorough: false, only: None, journal: None, hang_secs: 30.0, digest: false, skip: vec![] };
    let mut out_file = None;
    let mut i = 3;
    let next = |i: &mut usize| {
        *i += 1;
        args.get(*i - 1).cloned().expect("value of an option")
    };
    while i < args.len() {
        i += 1;
        match args[i - 1].as_str() {
            "--seed" => o.seed = next(&mut i).parse().expect("seed"),
            "--cases" => o.cases = next(&mut i).parse().expect("cases"),
            "--secs" => o.secs = next(&mut i).parse().expect("secs"),
            "--threads" => o.threads = next(&mut i).parse().expect("threads"),
            "--tier" => o.thorough = next(&mut i) == "thorough",
            "--only" => o.only = Some(next(&mut i).parse().expect("case")),
            "--journal" => o.journal = Some(next(&mut i)),
            "--hang" => o.hang_secs = next(&mut i).parse().expect("secs"),
            "--digest" => o.digest = true,
            "--skip" => o.skip = next(&mut i).split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("case")).collect(),
            "--out" => out_file = Some(next(&mut i)),
            a => panic!("unknown option {a}"),
        }
    }
    let Some(p) = PROPS.iter().find(|p| p.id == args[2]) else {
        eprintln!("no property {}", args[2]);
        std::process::exit(2)
    };
    install_panic_hook();
    let (out, wall) = run(p, &o);
    let text = report(p, &o, &out, wall);
    match out_file {
        Some(f) => std::fs::write(f, text).expect("report"),
        None => print!("{text}"),
    }
}
