//! Deterministic simulation of rust-3d: see /verif/DESIGN.md
#[macro_use]
pub mod world;
pub mod alloc;
pub mod docs;
pub mod fuse;
pub mod hashseed;
pub mod json;
pub mod load;
pub mod props;
pub mod runner;
mod seam;
pub mod simio;
pub mod tape;
pub use world::INJECTED;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(runner::main(&args));
}
