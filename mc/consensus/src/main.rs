//! C24, C25: chain selection and window densities.
mod select;
mod window;
mod world;
use mc_core::*;

#[global_allocator]
static A: mc_core::alloc::Watch = mc_core::alloc::Watch;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&id);
    match id.as_str() {
        "C24" => select::c24(&ctx),
        "C25" => window::c25(&ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
    std::process::exit(ctx.finish());
}
