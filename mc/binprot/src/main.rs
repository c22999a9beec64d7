mod cli;
mod composite;
mod drive;
mod dynser;
mod gen;
mod io;
mod layouts;
mod loose;
mod model;
mod prefix;
mod scalar;
mod total;
mod variants;

#[global_allocator]
static A: mc_core::alloc::Watch = mc_core::alloc::Watch;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let ctx = mc_core::Ctx::new(&id);
    match id.as_str() {
        "C01" => scalar::c01(&ctx),
        "C02" => composite::c02(&ctx),
        "C03" => composite::c03(&ctx),
        "C04" => scalar::c04(&ctx),
        "C05" => total::c05(&ctx),
        "C06" => io::c06(&ctx),
        "C07" => io::c07(&ctx),
        "C08" => io::c08(&ctx),
        "C09" => variants::c09(&ctx),
        "C10" => variants::c10(&ctx),
        "C11" => layouts::c11(&ctx),
        "C12" => layouts::c12(&ctx),
        "C13" => layouts::c13(&ctx),
        "C14" => layouts::c14(&ctx),
        "C18" => cli::c18(&ctx),
        "C19" => cli::c19(&ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
    std::process::exit(ctx.finish());
}
