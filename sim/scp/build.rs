use std::{env, process::Command};

fn main() {
	let out = format!("{}/shim.so", env::var("OUT_DIR").unwrap());
	println!("cargo:rerun-if-changed=shim.c");
	let ok = Command::new("gcc")
		.args(["-shared", "-fPIC", "-O1", "-o", &out, "shim.c", "-ldl"])
		.status()
		.expect("gcc");
	assert!(ok.success(), "the interposer does not compile");
}
