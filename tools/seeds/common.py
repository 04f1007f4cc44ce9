PRE = r'''
#[allow(dead_code)]
fn json(source: &str) -> String {
    match ratel::parse(source) {
        Ok(module) => serde_json::to_string(&module).unwrap(),
        Err(errors) => format!("rejected: {:?}", errors),
    }
}

#[allow(dead_code)]
fn code(source: &str, minify: bool) -> String {
    match ratel::parse(source) {
        Ok(module) => ratel_codegen::codegen(&module, minify),
        Err(errors) => format!("rejected: {:?}", errors),
    }
}

#[allow(dead_code)]
fn same(what: &str, got: String, expected: &str) {
    if got != expected {
        println!("{}:\n got      {}\n expected {}", what, got, expected);
        std::process::exit(1);
    }
}
'''
def main(body): return PRE.lstrip() + "\nfn main() {\n" + body.strip('\n') + "\n}\n"
