//! C20 to C23: Merkle trees, proofs, node metadata and paths.
mod path;
mod proof;
mod tree;
mod world;
use mc_core::*;

#[global_allocator]
static A: mc_core::alloc::Watch = mc_core::alloc::Watch;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&id);
    match id.as_str() {
        "C20" => tree::c20(&ctx),
        "C21" => proof::c21(&ctx),
        "C22" => tree::c22(&ctx),
        "C23" => path::c23(&ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
    std::process::exit(ctx.finish());
}
