//! Deterministic simulation of stylish's output stack with fault injection.

#[macro_use]
mod ctx;
mod baton;
mod cases;
#[cfg(feature = "corpus")]
mod corpus;
mod driver;
mod dut;
mod engine;
#[allow(non_snake_case, irrefutable_let_patterns)]
mod evals;
mod p_alloc;
mod p_diff;
mod p_macro;
mod p_style;
mod p_tree;
mod props;
mod rec;
mod runner;
mod screen;
mod sink;
mod sites;
mod tree;
mod val;

#[global_allocator]
static A: p_alloc::Alloc = p_alloc::Alloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => driver::check(&args[2..]),
        Some("replay") => driver::replay_cmd(&args[2..]),
        Some("chunk") => runner::chunk(&args[2..]),
        Some("exec") => runner::exec(&args[2..]),
        Some("minimise") => runner::minimise(&args[2..]),
        Some("hashes") => runner::hashes(&args[2..]),
        _ => {
            eprintln!("usage: sim check|replay|chunk|exec|minimise|hashes ...");
            2
        }
    };
    std::process::exit(code);
}
