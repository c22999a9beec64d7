//! C44, C45, C46: the apps for browsers.
mod gql;
mod js;
mod node;
mod status;
mod wallet;
use mc_core::*;
// linked for what they export to JavaScript
use mina_berkeley as _;
use mina_rs_wasm_mvp as _;

#[global_allocator]
static A: mc_core::alloc::Watch = mc_core::alloc::Watch;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&id);
    match id.as_str() {
        "C44" => wallet::c44(&ctx),
        "C45" => status::c45(&ctx),
        "C46" => node::c46(&ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
    std::process::exit(ctx.finish());
}
