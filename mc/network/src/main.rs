//! C38, C39: the transition frontier and the processor of network messages.
mod backend;
mod fetchers;
mod frontier;
mod processor;
#[path = "../../consensus/src/world.rs"]
#[allow(dead_code)]
mod world;
use mc_core::*;

#[global_allocator]
static A: mc_core::alloc::Watch = mc_core::alloc::Watch;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&id);
    match id.as_str() {
        "C38" => frontier::c38(&ctx),
        "C39" => processor::c39(&ctx),
        "C42" => backend::c42(&ctx),
        "C43" => fetchers::c43(&ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
    std::process::exit(ctx.finish());
}
