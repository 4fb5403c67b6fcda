//! The live viewer is a program, not a library: its source is wrapped in a module to run it under the simulator.
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var_os("CARGO_FEATURE_GUI").is_none() {
        return;
    }
    let src = "/repo/crates/aether_viz/src/bin/csv_tail_egui.rs";
    println!("cargo:rerun-if-changed={src}");
    let text = std::fs::read_to_string(src).expect("viewer source");
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("viewer.rs");
    std::fs::write(out, format!("#[allow(warnings)]\npub mod viewer {{\n{text}\npub fn sim_main() -> String {{ format!(\"{{:?}}\", main()) }}\n}}\n")).unwrap();
}
