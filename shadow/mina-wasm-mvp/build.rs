//! Stands in for the generator of `protobuf`: the types of the messages in the repository's files.
use std::path::Path;
const PROTO: &str = "/repo/apps/wasm/mvp/proto";
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed={PROTO}");
    let out = Path::new(&std::env::var("OUT_DIR").unwrap()).join("protobuf");
    let _ = std::fs::create_dir_all(&out);
    let mut modules = String::new();
    let mut files: Vec<_> = std::fs::read_dir(PROTO).unwrap().map(|f| f.unwrap().path()).collect();
    files.sort();
    for f in files {
        println!("cargo:rerun-if-changed={}", f.display());
        let text = std::fs::read_to_string(&f).unwrap();
        let lines = text.lines().map(|l| l.split("//").next().unwrap()).collect::<Vec<_>>().join("\n");
        let mut code = String::new();
        for m in lines.split("\nmessage ").skip(1) {
            let (name, rest) = m.split_once('{').unwrap();
            let (mut decl, mut list) = (String::new(), String::new());
            for field in rest.split_once('}').unwrap().0.split(';') {
                let w: Vec<&str> = field.split_whitespace().collect();
                let [kind, field, "=", number] = w[..] else { continue };
                let (ty, var) = match kind {
                    "string" => ("String", "Text"),
                    "bool" => ("bool", "Bool"),
                    "int64" => ("i64", "Int"),
                    k => panic!("kind {k}"),
                };
                decl += &format!("pub {field}: {ty},\n");
                list += &format!("({number}, protobuf::Field::{var}(&mut self.{field})),\n");
            }
            let name = name.trim();
            code += &format!(
                "#[derive(Clone, Debug, Default, PartialEq)]\npub struct {name} {{\n{decl}}}\nimpl {name} {{ pub fn new() -> Self {{ Self::default() }} }}\n\
                 impl protobuf::Message for {name} {{ fn fields(&mut self) -> Vec<(u32, protobuf::Field<'_>)> {{ vec![\n{list}] }} }}\n"
            );
        }
        let stem = f.file_stem().unwrap().to_str().unwrap().to_string();
        modules += &format!("pub mod {stem} {{\n{code}}}\n");
    }
    std::fs::write(out.join("mod.rs"), modules).unwrap();
}
