#!/bin/bash
# Generates the coder of spec.pspec with the protospec in the current directory, compiles it with main.rs, runs it.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
. /opt/vp/env.sh
set -e
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/g/src"
cat > "$t/g/Cargo.toml" <<T
[package]
name = "g"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
protospec-build = { path = "$repo/protospec-build" }
T
cp "$repo/Cargo.lock" "$t/g/Cargo.lock"
if [ -f "$here/gen.rs" ]; then cp "$here/gen.rs" "$t/g/src/main.rs"; else cat > "$t/g/src/main.rs" <<'T'
use protospec_build::*;
fn main() {
    let text = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let ast = parse(&text).expect("parse");
    let program = asg::Program::from_ast(&ast, &PreludeImportResolver(NullImportResolver)).expect("program");
    let options = compiler::CompileOptions::default();
    println!("{}", compiler::compile_program(&program, &options));
}
T
fi
CARGO_TARGET_DIR="$t/target" cargo run -q --offline --manifest-path "$t/g/Cargo.toml" -- "$here/spec.pspec" > "$t/gen.rs"
[ -f "$here/main.rs" ] || exit 0
cp "$here/main.rs" "$t/main.rs"
rustc --edition 2021 -A warnings -o "$t/demo" "$t/main.rs"
"$t/demo"
