//! C36, C37: ledgers read from a RocksDB database.
mod acc;
mod db;
use mc_core::*;

#[global_allocator]
static A: mc_core::alloc::Watch = mc_core::alloc::Watch;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&id);
    match id.as_str() {
        "C36" => db::c36(&ctx),
        "C37" => db::c37(&ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
    std::process::exit(ctx.finish());
}
