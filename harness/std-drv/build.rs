// The arkworks-free modules of the command-line tool, whatever they are called.
use std::{env, fs, path::Path};
fn main() {
    let dir = "/repo/packages/zkenc-cli/src";
    println!("cargo:rerun-if-changed={dir}");
    let mut names: Vec<String> = fs::read_dir(dir).unwrap().filter_map(|e| e.unwrap().file_name().into_string().ok()).filter_map(|n| n.strip_suffix(".rs").map(String::from)).collect();
    names.sort();
    let mut out = String::new();
    for n in names {
        if ["lib", "main", "commands"].contains(&n.as_str()) { continue; }
        let p = format!("{dir}/{n}.rs");
        println!("cargo:rerun-if-changed={p}");
        let t = fs::read_to_string(&p).unwrap();
        if ["use ark_", "ark_bn254", "ark_ff::", "zkenc_core"].iter().any(|w| t.contains(w)) && !["circom", "crypto", "r1cs", "serializable", "sym_parser"].contains(&n.as_str()) { continue; }
        out += &format!("#[path = \"{p}\"]\npub mod {n};\n");
    }
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("mods.rs"), out).unwrap();
}
