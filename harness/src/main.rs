//! gxmon: runs monitored cases of one property against the code in /repo.
//!
//!   gxmon run <ID> --seed S --shard K --nshards N --seconds T --min M --tier quick --out DIR
//!   gxmon replay <ID> --seed S --case I --tier quick [--dict FILE]
//!   gxmon merge FILE...            (count distinct case hashes)
#[macro_use]
mod ctx;
mod codec;
mod cscript;
mod gen;
mod hread;
mod model;
mod props;
mod rng;
mod worker;

#[cfg(feature = "monalloc")]
#[global_allocator]
static A: gxalloc::GxAlloc = gxalloc::GxAlloc;

fn main() {
    std::process::exit(worker::main());
}
