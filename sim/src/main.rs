//! `sim check <id>`: searches seeded simulated runs for violations of a property.
#![cfg_attr(not(feature = "all"), allow(dead_code, unused_imports))]

mod churn;
mod coop;
mod engine;
mod gr;
mod hier;
mod laws;
mod model;
mod scene;
mod seam;
mod checks;
mod runner;

fn main() {
    std::process::exit(runner::main());
}
