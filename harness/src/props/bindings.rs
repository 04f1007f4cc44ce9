//! C19: the bindings return what the core returns.
use super::{short, suites};
use crate::engine::{Check, Done, Property, Task, Tier};
use crate::model::Parsed;
use neon::Js;
use ratel::error::ParseError;

/// What a call gives: the value returned, or the message thrown.
type Given = Result<String, String>;

thread_local! { static NODE: neon::Exports = neon::exports(ffi::stand_in_init); }

fn node(f: &str, args: &[Js]) -> Given {
    NODE.with(|e| {
        let Some(f) = e.0.iter().find(|x| x.0 == f) else { return Err(format!("no function {}", f)) };
        match (f.1)(args) {
            Ok(Js::String(s)) => Ok(s),
            Ok(v) => Ok(format!("not a string: {:?}", v)),
            Err((_, m)) => Err(m),
        }
    })
}

fn wasm(f: &str, text: &str, flag: bool) -> String {
    match f {
        "transform" => ratel_wasm::transform(text, flag),
        "generateAST" => ratel_wasm::generate_ast(text, flag),
        "generateASTEstree" => ratel_wasm::generate_ast_estree(text, flag),
        f => panic!("no function {}", f),
    }
}

/// What the core has to say: views in the order of VIEWS, or the errors' rendering.
const VIEWS: [&str; 6] = ["code", "mini", "ast", "json", "json pretty", "ast pretty"];

fn core(text: &str, indented: bool) -> Result<Vec<String>, String> {
    match ratel::parse(text) {
        Ok(m) => Ok(VIEWS.iter().map(|v| match *v {
            "code" => ratel_codegen::codegen(&m, false),
            "mini" => ratel_codegen::codegen(&m, true),
            "ast" => format!("{:?}", m.body()),
            "json" => serde_json::to_string(&m).unwrap(),
            "json pretty" => serde_json::to_string_pretty(&m).unwrap(),
            _ if indented => format!("{:#?}", m.body()),
            _ => String::new(),
        }).collect()),
        Err(l) => {
            let v: Vec<String> = l.into_iter().map(|e| ParseError::UnexpectedToken { source: text.to_string(), start: e.start, end: e.end }.to_string()).collect();
            Err(v.join("\n"))
        }
    }
}

fn pick(core: &Result<Vec<String>, String>, view: &str) -> Given {
    match core { Ok(v) => Ok(v[VIEWS.iter().position(|x| *x == view).unwrap()].clone()), Err(e) => Err(e.clone()) }
}

const WASM: &[(&str, bool, &str)] = &[("transform", false, "code"), ("transform", true, "mini"), ("generateAST", true, "ast"), ("generateASTEstree", true, "json"), ("generateASTEstree", false, "json pretty"), ("generateAST", false, "ast pretty")];

fn compare(got: &str, want: &str, how: &str) -> Result<(), String> {
    if got == want { return Ok(()); }
    let i = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    let at = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.min(s.len())..(i + 200).min(s.len())]).into_owned();
    if i > 200 { return Err(format!("{} gives, at {}, {:?}, expected {:?}", how, i, at(got), at(want))); }
    Err(format!("{} gives {:?}, expected {:?}", how, short(got), short(want)))
}

fn check(text: &str) -> Check {
    // time is cubic in the depth
    let indented = text.len() <= 120;
    let core = core(text, indented);
    for &(f, flag, view) in WASM {
        if view == "ast pretty" && core.is_ok() && !indented { continue; }
        let want = match pick(&core, view) { Ok(s) => s, Err(e) => format!("Error: {}", e) };
        compare(&wasm(f, text, flag), &want, &format!("Wasm {}(_, {})", f, flag))?;
    }
    let s = Js::String(text.to_string());
    for (f, args, view) in [("transform", vec![s.clone(), Js::Boolean(false)], "code"), ("transform", vec![s.clone(), Js::Boolean(true)], "mini"), ("ast", vec![s.clone(), Js::Boolean(true)], "json"), ("ast", vec![s.clone(), Js::Boolean(false)], "json pretty"), ("parse", vec![s.clone()], "ast"), ("parse", vec![s.clone(), Js::Boolean(true)], "ast")] {
        let how = format!("Node {}({})", f, args.iter().skip(1).map(|a| format!(", {:?}", a)).collect::<String>());
        match (node(f, &args), pick(&core, view)) {
            (Ok(g), Ok(w)) => compare(&g, &w, &how)?,
            (Err(g), Err(w)) => compare(&g, &w, &format!("{} throws, which", how))?,
            (Ok(g), Err(w)) => return Err(format!("{} gives {:?}, expected {:?} to be thrown", how, short(&g), short(&w))),
            (Err(g), Ok(w)) => return Err(format!("{} throws {:?}, expected {:?}", how, short(&g), short(&w))),
        }
    }
    Ok(Done::Compared)
}

const VALUES: &[&str] = &["", "u", "n", "t", "f", "0", "1", "s", "e", "x"];

fn value(v: &str) -> Js {
    match v {
        "u" => Js::Undefined, "n" => Js::Null, "t" => Js::Boolean(true), "f" => Js::Boolean(false), "0" => Js::Number(0.0), "1" => Js::Number(1.0),
        "s" => Js::String("a+b".into()), "e" => Js::String("".into()), "x" => Js::String("a b".into()), v => panic!("no value {}", v),
    }
}

fn texts(tier: Tier) -> Vec<Task> {
    if tier == Tier::Thorough { return suites::common(Tier::Quick); }
    let mut v = suites::nestings(tier);
    v.extend(suites::changes(tier));
    v.extend(suites::words(tier));
    v.extend(suites::repetitions(tier));
    v
}

pub struct C19;
impl Property for C19 {
    fn id(&self) -> &'static str { "C19" }
    fn scope(&self, tier: Tier) -> String {
        format!("the three Wasm functions with both flags and the three Node functions with both flags, on every text; the Node functions on all lists of up to three arguments out of {} values; {}", VALUES.len() - 1, if tier == Tier::Quick { format!("texts: nestings, single changes, words and repetitions out of: {}", suites::scope_words(tier)) } else { suites::scope_words(Tier::Quick) })
    }
    fn text(&self, text: &str, _: &Parsed) -> Check { check(text) }
    fn case(&self, kind: &str, data: &str) -> Check {
        match kind {
            "long" => {
                let (i, n) = data.split_once(' ').unwrap();
                check(&super::total::long(i.parse().unwrap(), n.parse().unwrap()))
            }
            "arguments" => {
                let w: Vec<&str> = data.split(' ').collect();
                let args: Vec<Js> = w[1..].iter().filter(|x| !x.is_empty()).map(|x| value(x)).collect();
                let got = node(w[0], &args);
                let ok = matches!(args.get(0), Some(Js::String(_))) && (w[0] == "parse" || matches!(args.get(1), Some(Js::Boolean(_))));
                if !ok {
                    if let Ok(g) = got { return Err(format!("returns {:?}, expected an exception", g)); }
                    if let Err(ref m) = got { if m.is_empty() { return Err("throws nothing".into()); } }
                    if args.is_empty() && got != Err("First argument must be a string".into()) { return Err(format!("{:?} without arguments", got)); }
                    return Ok(Done::Compared);
                }
                let (Js::String(text), flag) = (&args[0], args.get(1) == Some(&Js::Boolean(true))) else { unreachable!() };
                let want = pick(&core(text, true), match w[0] { "transform" if flag => "mini", "transform" => "code", "ast" if flag => "json", "ast" => "json pretty", _ => "ast" });
                if got != want { return Err(format!("{:?}, expected {:?}", got, want)); }
                Ok(Done::Compared)
            }
            k => panic!("no kind {}", k),
        }
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let mut v = self::texts(tier);
        v.push(Task { name: "arguments".into(), run: Box::new(|cx| for f in ["transform", "parse", "ast"] { for a in VALUES { for b in VALUES { for c in VALUES {
            if (a.is_empty() && !(b.is_empty() && c.is_empty())) || (b.is_empty() && !c.is_empty()) { continue; }
            cx.case("arguments", &format!("{} {} {} {}", f, a, b, c), 1);
        } } } }) });
        for i in 0..suites::REPEATS.len() * 2 {
            v.push(Task { name: "long".into(), run: Box::new(move |cx| for n in if tier == Tier::Quick { vec![600, 1024] } else { vec![600, 1024, 4096] } { cx.case("long", &format!("{} {}", i, n), n as u64); }) });
        }
        v
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["neon is replaced by a stand-in (harness/neon): conversion between JavaScript and Rust values, and throwing, are as neon documents them".into(),
            "the Wasm functions run natively: wasm-bindgen's glue is not part of the check".into(),
            "what the core returns is the subject of the other properties".into(),
            "the indented debug print of accepted texts of more than 120 bytes is not compared".into()]
    }
}
