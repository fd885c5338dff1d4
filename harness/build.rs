//! The table of harness functions, for the replay binary.
use std::fmt::Write as _;
use std::{env, fs, path::Path};

fn main() {
    println!("cargo:rerun-if-changed=src");
    let mut out = String::from("pub const HARNESSES: &[(&str, extern \"C\" fn())] = &[\n");
    let mut files: Vec<_> = fs::read_dir("src").unwrap().map(|f| f.unwrap().path()).collect();
    files.sort();
    for file in files {
        let module = file.file_stem().unwrap().to_str().unwrap().to_owned();
        for line in fs::read_to_string(&file).unwrap().lines() {
            if let Some(rest) = line.strip_prefix("pub extern \"C\" fn c") {
                if let Some(end) = rest.find("()") {
                    let name = &rest[..end];
                    writeln!(out, "    (\"c{0}\", crate::{1}::c{0}),", name, module).unwrap();
                }
            }
        }
    }
    out.push_str("];\n");
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("table.rs"), out).unwrap();
}
