fn main() {
    println!("cargo::rerun-if-changed=../c");
    if std::env::var_os("CARGO_FEATURE_INPROC").is_some() {
        cc::Build::new()
            .files(["../c/simio.c", "../c/sched.c"])
            .define("SIMIO_STATIC", None)
            .define("_FORTIFY_SOURCE", "0")
            .opt_level(2)
            .flag("-U_FORTIFY_SOURCE")
            .flag("-fno-builtin")
            .flag("-Wno-stringop-truncation")
            .link_lib_modifier("+whole-archive")
            .compile("simc");
    }
}
