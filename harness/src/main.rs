//! vmon: runtime monitors for the asciidoc-parser crate.
//!
//!   vmon check ID [quick|thorough]      run the monitors of one property
//!   vmon case ID IDX [quick|thorough]   run one case again (prints what fails)
//!   vmon list

#![allow(dead_code)]

mod alloc;
mod ctx;
mod generate;
mod json;
mod model;
mod props;
mod rng;
mod run;
mod util;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => run::supervise(&args[1..]),
        Some("worker") => run::worker(&args[1..]),
        Some("case") => run::one_case(&args[1..]),
        Some("input") => props::show_input(&args[1..]),
        Some("list") => {
            for p in props::all() {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: vmon check ID [quick|thorough]");
            2
        }
    };
    std::process::exit(code);
}
