//! C26 onwards: hash inputs, signed commands, text forms, and blocks.
mod blocks;
mod cmd;
mod elements;
mod leaves;
mod own;
mod graphql;
mod pack;
mod ro;
mod text;
mod vals;
mod wire;
use mc_core::*;

#[global_allocator]
static A: mc_core::alloc::Watch = mc_core::alloc::Watch;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&id);
    match id.as_str() {
        "C26" => pack::c26(&ctx),
        "C27" => ro::c27(&ctx),
        "C28" => graphql::c28(&ctx),
        "C29" => cmd::c29(&ctx),
        "C30" => cmd::c30(&ctx),
        "C31" => text::c31(&ctx),
        "C32" => text::c32(&ctx),
        "C33" => blocks::c33(&ctx),
        "C34" => own::c34(&ctx),
        "C35" => wire::c35(&ctx),
        "C41" => elements::c41(&ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
    std::process::exit(ctx.finish());
}
