#[macro_use]
extern crate nom;

mod checks;
mod gen;
mod model;
mod runner;
mod source;
mod sut;

use std::path::PathBuf;

#[global_allocator]
static ALLOCATOR: checks::cost::Counting = checks::cost::Counting;

fn main() {
    sut::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let usage = "hv check ID | hv replay FILE | hv list | hv gen ID SEED INDEX";
    let code = match a.get(1).map(|s| &s[..]) {
        Some("check") => {
            let verif = std::env::var_os("HV_VERIF").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"));
            runner::run_check(find(&a[2]), &verif)
        }
        Some("worker") => {
            let n: Vec<u64> = a[3..8].iter().map(|x| x.parse().unwrap()).collect();
            runner::worker(find(&a[2]), n[0], n[1], n[2], n[3], n[4], PathBuf::from(&a[8]))
        }
        Some("replay") => runner::replay(checks::ALL, &a[2]),
        Some("list") => {
            for c in checks::ALL {
                println!("{}", c.id);
            }
            0
        }
        Some("san") => runner::sanitized(&a[2..]),
        Some("corpus") => checks::share::corpus(&a[2..]),
        Some("feed") => checks::share::feed(&a[2..]),
        Some("look") => checks::share::look_at_blocks(&a[2..]),
        Some("probe") => checks::robust::probe(),
        Some("model") => checks::dev::model_stdin(),
        Some("gen") => checks::dev::generate(&a[2..]),
        _ => {
            eprintln!("{}", usage);
            2
        }
    };
    std::process::exit(code);
}

fn find(id: &str) -> &'static runner::Check {
    checks::ALL.iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {}", id);
        std::process::exit(2)
    })
}
