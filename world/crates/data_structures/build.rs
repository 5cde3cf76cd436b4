fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/witnet_proto_mod.rs"), "protogen::proto!(\"/repo/schemas/witnet/witnet.proto\");\n").unwrap();
    println!("cargo:rerun-if-changed=build.rs");
}
