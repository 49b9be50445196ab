mod cli;
mod engine;
mod explore;
mod fam;
mod geo;
mod icp;
mod json;
mod poly;
mod props;
mod solver;
mod sym;
mod z;

fn main() {
    std::process::exit(cli::main());
}
