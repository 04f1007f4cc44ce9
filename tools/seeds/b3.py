S=[]
def s(ID,PROP,NEEDS,BREAKS,EDITS,MAIN,FILES=None): S.append(dict(ID=ID,PROP=PROP,NEEDS=NEEDS,BREAKS=BREAKS,EDITS=EDITS,MAIN=MAIN,FILES=FILES or {}))
s('C20-static-dent','C20','two threads generating (pretty) code at the same time',
  'the indentation of one thread\'s code depends on where the other thread is in its own',
  [('ratel-codegen/src/lib.rs','''pub struct PrettyGenerator {
    code: Vec<u8>,
    dent: usize,
}
''','''static DENT: AtomicUsize = AtomicUsize::new(0);

pub struct PrettyGenerator {
    code: Vec<u8>,
}
'''),('ratel-codegen/src/lib.rs','''            code: Vec::with_capacity(128),
            dent: 0,
''','''            code: Vec::with_capacity(128),
'''),('ratel-codegen/src/lib.rs','''        for _ in 0..self.dent {
            self.write_bytes''','''        for _ in 0..DENT.load(Ordering::Relaxed) {
            self.write_bytes'''),('ratel-codegen/src/lib.rs','''        self.dent += 1;
''','''        DENT.fetch_add(1, Ordering::Relaxed);
'''),('ratel-codegen/src/lib.rs','''        self.dent -= 1;
''','''        DENT.fetch_sub(1, Ordering::Relaxed);
'''),('ratel-codegen/src/lib.rs','''extern crate ratel;
''','''extern crate ratel;

use std::sync::atomic::{AtomicUsize, Ordering};
''')],
  main(r'''
    let source = "function f(){if(a){while(b){for(;;){c(function(){return {d:1,e:2};});}}}}".repeat(20);
    let alone = code(&source, false);
    let threads: Vec<_> = (0..4).map(|_| {
        let (source, alone) = (source.clone(), alone.clone());
        std::thread::spawn(move || (0..3000).all(|_| code(&source, false) == alone))
    }).collect();
    for thread in threads {
        if !thread.join().unwrap_or(false) {
            println!("code generated while other threads do so differs");
            std::process::exit(1);
        }
    }
'''))

s('C20-number-cache','C20','a module is dropped, and another parsed into the same memory has a fractional number literal of the same length in the same place',
  'its value is the one of the literal in the module dropped before',
  [('ratel/src/astgen/value.rs','''                        let value: f64 = number.parse().expect("Invalid number");
''','''                        let value = float_value(number);
'''),('ratel/src/astgen/value.rs','''#[inline]
pub fn is_float(''','''thread_local! {
    static FLOATS: RefCell<HashMap<(*const u8, usize), f64>> = RefCell::new(HashMap::new());
}

/// Value of a float literal. Reading the same literal again is free.
fn float_value(number: &str) -> f64 {
    FLOATS.with(|floats| {
        *floats.borrow_mut()
               .entry((number.as_ptr(), number.len()))
               .or_insert_with(|| number.parse().expect("Invalid number"))
    })
}

#[inline]
pub fn is_float('''),('ratel/src/astgen/value.rs','''use serde::ser::{Serialize, SerializeSeq''','''use std::cell::RefCell;
use std::collections::HashMap;
use serde::ser::{Serialize, SerializeSeq''')],
  main(r'''
    for &(source, expected) in &[("a=1.5", "1.5"), ("b=2.5", "2.5"), ("c=7e1", "70.0"), ("d=.25", "0.25"), ("a=1.5", "1.5")] {
        let value: serde_json::Value = serde_json::from_str(&json(source)).unwrap();
        same(source, value["body"][0]["expression"]["right"]["value"].to_string(), expected);
    }
'''))

s('C21-node-length','C21','a node that spans more than 64 KiB',
  'its end is wrong by a multiple of 64 KiB: the result depends on the size of the construct',
  [('ratel/src/parser/mod.rs','''        self.alloc(Loc::new(start, end, item.into()))
''','''        // Half the size is plenty for the length of a single node
        let length = (end - start) as u16;

        self.alloc(Loc::new(start, start + u32::from(length), item.into()))
''')],
  main(r'''
    for &n in &[10, 1000, 40_000] {
        let source = format!("x = [{}];", "1,".repeat(n));
        let value: serde_json::Value = serde_json::from_str(&json(&source)).unwrap();
        same("end of an array", value["body"][0]["expression"]["right"]["end"].to_string(), &(source.len() - 1).to_string());
    }
'''))

s('C21-reserve','C21','a literal, name or quasi of more than a thousand bytes',
  'the generated code is written past the end of its buffer',
  [('ratel-codegen/src/lib.rs','''    dst.reserve(src_len);
''','''    // Most slices are short, grow rarely
    if dst.capacity() - dst_len < 1024 {
        dst.reserve(4096);
    }
''')],
  main(r'''
    for &n in &[10, 1000, 100_000, 8_000_000] {
        let source = format!("x=\"{}\";", "s".repeat(n));
        if code(&source, true) != source {
            println!("code differs from its source");
            std::process::exit(1);
        }
    }
'''))

WASM_DEMO = r"""#!/bin/bash
# Run in the repository after its build: exit 0 when the property holds.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" "$tmp/wasm"
cp "$here/main.rs" "$tmp/src/main.rs"
# the bindings as an ordinary library
cat > "$tmp/wasm/Cargo.toml" <<T
[package]
name = "ratel-wasm"
version = "0.0.1"
[lib]
path = "$repo/ratel-wasm/src/lib.rs"
[dependencies]
ratel = { path = "$repo/ratel" }
ratel-codegen = { path = "$repo/ratel-codegen" }
serde_json = "1"
wasm-bindgen = "0.2"
T
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
ratel = { path = "$repo/ratel" }
ratel-codegen = { path = "$repo/ratel-codegen" }
ratel-wasm = { path = "$tmp/wasm" }
serde_json = "1"
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp"
CARGO_TARGET_DIR="$tmp/target" cargo build --release --offline -q 2> "$tmp/log" || { tail -20 "$tmp/log"; exit 3; }
timeout 60 "$tmp/target/release/demo"
"""

s('C19-estree-trim','C19','a source with white space before its first token, given to generateASTEstree of the Wasm bindings',
  'all positions in the tree are off by the length of that white space',
  [('ratel-wasm/src/lib.rs','''pub fn generate_ast_estree(data: &str, minify: bool) -> String {
	match ratel::parse(&data) {''','''pub fn generate_ast_estree(data: &str, minify: bool) -> String {
	match ratel::parse(data.trim()) {''')],
  main(r'''
    for source in &["a", " a", "\n\nfunction f(){}\n", "  "] {
        same(source, ratel_wasm::generate_ast_estree(source, true), &json(source));
    }
'''),{'demo.sh':WASM_DEMO})

s('C19-error-limit','C19','a source with more than eight syntax errors, given to any function of the Wasm bindings',
  'the errors after the eighth are not reported',
  [('ratel-wasm/src/lib.rs','''    .into_iter()
    .map(|err| {''','''    .into_iter().take(8)
    .map(|err| {''')],
  main(r'''
    for &n in &[1, 3, 20] {
        let source = "];".repeat(n);
        let errors = ratel::parse(&source).err().unwrap().len();
        let got = ratel_wasm::transform(&source, true).matches("Unexpected token at").count();
        same("errors reported", got.to_string(), &errors.to_string());
    }
'''),{'demo.sh':WASM_DEMO})
