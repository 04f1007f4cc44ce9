//! C01: every text is parsed, and what was parsed can be used in every way.
use super::suites;
use crate::corpus::*;
use crate::engine::{Check, Done, Property, Task, Tier};
use crate::gen::*;
use crate::model::Parsed;
use ratel::error::ParseError;
use ratel::Module;

/// What there is to know about a module, in every form the crates offer.
pub const VIEWS: &[&str] = &["debug", "debug pretty", "module", "json", "json pretty", "value", "code", "code minified", "visit", "scopes"];

pub fn view(m: &Module<'static>, what: &str) -> String {
    // modules are not used after they are dropped
    let m: &'static Module<'static> = unsafe { &*(m as *const _) };
    match what {
        "debug" => format!("{:?}", m.body()),
        "debug pretty" => format!("{:#?}", m.body()),
        "module" => format!("{:?}", m),
        "json" => serde_json::to_string(m).unwrap_or_else(|e| format!("error {}", e)),
        "json pretty" => serde_json::to_string_pretty(m).unwrap_or_else(|e| format!("error {}", e)),
        "value" => serde_json::to_value(m).map(|v| v.to_string()).unwrap_or_else(|e| format!("error {}", e)),
        "code" => ratel_codegen::codegen(m, false),
        "code minified" => ratel_codegen::codegen(m, true),
        "visit" => super::visit::log(m),
        "scopes" => super::visit::scope_words(m),
        w => panic!("no view {}", w),
    }
}

pub fn module(text: &str) -> Result<Module<'static>, Vec<ratel::error::Error>> {
    // modules own what they refer to
    ratel::parse(text).map(|m| unsafe { std::mem::transmute(m) })
}

fn total(text: &str, views: &[&str]) -> Check {
    match module(text) {
        Ok(m) => {
            for v in views { std::hint::black_box(view(&m, v)); }
        }
        Err(l) => {
            if l.is_empty() { return Err("neither a module nor an error".into()); }
            let n = l.len();
            for (i, e) in l.into_iter().enumerate() {
                if i > 3 && i + 1 < n { continue; }
                std::hint::black_box(format!("{:?}", e));
                let p = ParseError::UnexpectedToken { source: text.to_string(), start: e.start, end: e.end };
                std::hint::black_box((p.to_string(), format!("{:?}", p)));
            }
        }
    }
    Ok(Done::Compared)
}

/// The module and its scopes printed to writers that have room for each number of bytes.
fn failing_print(text: &str) -> Check {
    use std::fmt::{Debug, Write};
    struct W { room: usize, got: usize, failed: bool }
    impl Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if !self.failed && self.got + s.len() > self.room { self.failed = true; return Err(std::fmt::Error); }
            self.got += s.len();
            Ok(())
        }
    }
    fn each(what: &str, x: &dyn Debug) -> Result<(), String> {
        let whole = format!("{:?}", x).len();
        for room in 0..=whole {
            let mut w = W { room, got: 0, failed: false };
            let r = write!(w, "{:?}", x);
            if r.is_ok() != (room == whole) { return Err(format!("{} printed to a writer with room for {} of {} bytes: {:?}", what, room, whole, r)); }
            if w.got > room { return Err(format!("{} printed to a writer with room for {} of {} bytes: the writer gets more after its error", what, room, whole)); }
        }
        Ok(())
    }
    let module = match ratel::parse(text) { Ok(m) => m, Err(_) => return Ok(Done::Skipped) };
    each("the module", &module)?;
    // on its own arena, which is why it lives as long as that
    each("the scopes", ratel_transformer::scope::analyze(unsafe { &*(&module as *const Module) }))?;
    Ok(Done::Compared)
}

pub struct C01;
impl Property for C01 {
    fn id(&self) -> &'static str { "C01" }
    fn scope(&self, tier: Tier) -> String {
        let q = tier == Tier::Quick;
        format!("{}; every token sequence over the 70 tokens to depth {} and over 7 alphabets of 11 to 19 tokens to depth {}, whether or not it can begin a program; every string of {} characters (with NUL, controls and multi-byte ones) to length {} and of {} to length {}; {} constructs nested in themselves to depth {} closed, unclosed and overclosed; {} constructs repeated to {} times; all views of every module: printed twice, serialized three times, generated twice, visited, scope-analysed; printing into writers that fail after each number of bytes; no view may panic, abort or take 20 s",
            suites::scope_words(tier), if q { 3 } else { 4 }, if q { 5 } else { 6 }, BYTES.len(), if q { 3 } else { 4 }, BYTES_FEW.len(), if q { 5 } else { 6 }, suites::NESTS.len(), if q { 1000 } else { 20000 }, suites::REPEATS.len(), if q { 8192 } else { 65537 })
    }
    fn text(&self, text: &str, _: &Parsed) -> Check {
        // printing with indentation takes time cubic in the depth
        if text.len() > 250 { let v: Vec<&str> = VIEWS.iter().copied().filter(|v| *v != "debug pretty").collect(); return total(text, &v); }
        total(text, VIEWS)
    }
    fn case(&self, kind: &str, data: &str) -> Check {
        match kind {
            // texts on which the model is not run
            "plain" => total(data, VIEWS),
            "deep" | "long" => {
                let (i, n) = data.split_once(' ').unwrap();
                let (i, n): (usize, usize) = (i.parse().unwrap(), n.parse().unwrap());
                // indentation takes space quadratic, printing with it time cubic in the depth
                let views: Vec<&str> = VIEWS.iter().copied().filter(|v| *v != "debug pretty" && (n <= 1024 || !["json pretty", "code"].contains(v))).collect();
                total(&if kind == "deep" { deep(i, n) } else { long(i, n) }, &views)
            }
            "writer" => failing_print(data),
            k => panic!("no kind {}", k),
        }
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let d = if tier == Tier::Quick { 0 } else { 1 };
        let mut v = suites::common(tier);
        let any = |v: &mut Vec<Task>, name: &'static str, root: &'static str, alphabet: &'static str, depth: usize| {
            let al: Vec<&'static str> = alphabet.split_whitespace().map(|t| if t == "\\n" { "\n" } else { t }).collect();
            for i in 0..al.len() { for j in 0..al.len() {
                let al = al.clone();
                v.push(Task { name: format!("any tokens {}", name), run: Box::new(move |cx| {
                    let mut s = format!("{} {}", root, al[i]);
                    if j == 0 { cx.case("plain", &s, 1); }
                    s.push(' ');
                    s.push_str(al[j]);
                    sequences(cx, &mut s, &al, depth - 2);
                }) });
            } }
        };
        any(&mut v, "all", "", TOK_ALL, 3 + d);
        any(&mut v, "expr", "", TOK_EXPR, 4 + d);
        any(&mut v, "post", "a", TOK_POST, 5 + d);
        any(&mut v, "arrow", "x =", TOK_ARROW, 5 + d);
        any(&mut v, "obj", "( {", TOK_OBJ, 5 + d);
        any(&mut v, "class", "class A {", TOK_CLASS, 5 + d);
        any(&mut v, "stmt", "", TOK_STMT, 5 + d);
        any(&mut v, "for", "for (", TOK_LOOP, 5 + d);
        any(&mut v, "switch", "switch ( a ) {", TOK_SWITCH, 5 + d);
        any(&mut v, "bind", "let", TOK_BIND, 5 + d);
        any(&mut v, "import", "import", TOK_IMPORT, 5 + d);
        any(&mut v, "func", "", TOK_FUNC, 5 + d);
        any(&mut v, "asi", "", TOK_ASI, 4 + d);
        let ch = |v: &mut Vec<Task>, name: &'static str, alphabet, len, around| {
            for shard in 0..64 {
                v.push(Task { name: format!("bytes {}", name), run: Box::new(move |cx| {
                    Chars { name, alphabet, len, around }.each(shard, 64, &mut |t| if !cx.stopped() { cx.case("plain", t, 1) });
                }) });
            }
        };
        ch(&mut v, "all", BYTES, 3 + d, &[("", "")]);
        ch(&mut v, "few", BYTES_FEW, 5 + d, &[("", ""), ("`${", "")]);
        let mut l = Vec::new();
        for p in PROGRAMS.iter().chain(COMPACT.iter()) {
            for (i, _) in p.char_indices() {
                for c in ["\0", "\u{1}", "\u{7f}", "#", "@", "\\", "\u{feff}", "\u{1F600}", "\u{301}", "0", "'", "`", "${", "*/", "/*", "}", ")", "]"] { l.push(format!("{}{}{}", &p[..i], c, &p[i..])); }
                for j in [1, 2, 3, 5, 8] {
                    // a piece left out, a piece doubled
                    let e = p[i..].char_indices().nth(j).map_or(p.len(), |x| i + x.0);
                    l.push(format!("{}{}", &p[..i], &p[e..]));
                    l.push(format!("{}{}", &p[..e], &p[i..]));
                }
            }
        }
        v.extend(plain("changed bytes", l));
        for part in 0..16 {
            v.push(Task { name: "failing writers".into(), run: Box::new(move |cx| {
                for p in kinds().iter().skip(part).step_by(16) { cx.case("writer", p, p.len() as u64 * 20); }
            }) });
        }
        let mut heads = Vec::new();
        for a in PROGRAMS.iter().chain(COMPACT.iter()) {
            let (ta, heads) = (raw_tokens(a), &mut heads);
            for i in 1..ta.len() { heads.push(ta[..i].join(" ")); }
        }
        heads.sort();
        heads.dedup();
        // every beginning of a program followed by every statement
        let tails: Vec<String> = STMTS.iter().chain(if d == 0 { &PROGRAMS[..0] } else { PROGRAMS }.iter()).map(|s| s.to_string()).collect();
        for h in heads {
            let tails = tails.clone();
            v.push(Task { name: "beginnings".into(), run: Box::new(move |cx| for t in &tails {
                cx.case("plain", &format!("{} {}", h, t), 1);
            }) });
        }
        let depths: &[usize] = if d == 0 { &[50, 200, 500, 1000] } else { &[50, 100, 200, 400, 500, 700, 1000, 1500, 2000, 3000, 4000, 10000, 20000] };
        for &n in depths { for i in 0..suites::NESTS.len() * 4 {
            v.push(Task { name: "deep".into(), run: Box::new(move |cx| cx.case("deep", &format!("{} {}", i, n), 1)) });
        } }
        let lengths: &[usize] = if d == 0 { &[600, 1024, 4096, 8192] } else { &[600, 1024, 2048, 4095, 4096, 8192, 20000, 40000, 65535, 65536, 65537] };
        for &n in lengths { for i in 0..suites::REPEATS.len() * 2 {
            v.push(Task { name: "long".into(), run: Box::new(move |cx| cx.case("long", &format!("{} {}", i, n), 1)) });
        } }
        v
    }
}

const BYTES: &[&str] = &["a", "1", "0", ".", "e", "x", "'", "\"", "\\", "`", "$", "{", "}", "/", "*", "\n", "\r", " ", "=", "+", "-", "<", ">", "!", "&", "|", "(", ")", "[", "]", ";", ",", ":", "?", "^", "%", "~", "@", "#", "_", "u", "\0", "\t", "\u{1}", "\u{b}", "\u{7f}", "\u{80}", "é", "\u{a0}", "\u{301}", "\u{660}", "\u{1680}", "\u{2028}", "\u{3000}", "\u{d7ff}", "\u{feff}", "\u{ffff}", "\u{1F600}", "\u{10ffff}"];
const BYTES_FEW: &[&str] = &["a", "0", ".", "'", "\\", "`", "${", "}", "/", "*", "\n", "(", "{", "\0", "é", "="];

fn sequences(cx: &mut crate::engine::Ctx, s: &mut String, al: &[&'static str], left: usize) {
    cx.case("plain", s, 1);
    if left == 0 || cx.stopped() { return; }
    let n = s.len();
    for t in al {
        s.push(' ');
        s.push_str(t);
        sequences(cx, s, al, left - 1);
        s.truncate(n);
    }
}

fn plain(name: &'static str, list: Vec<String>) -> Vec<Task> {
    let n = (list.len() / 64).clamp(1, 4000);
    list.chunks(n).map(|c| {
        let c = c.to_vec();
        Task { name: name.to_string(), run: Box::new(move |cx| for t in &c { cx.case("plain", t, 1); }) }
    }).collect()
}

/// Closed, unclosed, closed once too often, closed by the wrong end.
pub fn deep(i: usize, n: usize) -> String {
    let (open, inner, close) = suites::NESTS[i / 4];
    match i % 4 {
        0 => format!("{}{}{}", open.repeat(n), inner, close.repeat(n)),
        1 => format!("{}{}", open.repeat(n), inner),
        2 => format!("{}{}{}", open.repeat(n), inner, close.repeat(n + 1)),
        _ => format!("{} ; {}", open.repeat(n), close.repeat(n)),
    }
}

pub fn long(i: usize, n: usize) -> String {
    let (pre, unit, sep, post) = suites::REPEATS[i / 2];
    let mut s = String::from(pre);
    for k in 0..n {
        if k > 0 { s.push_str(sep); }
        s.push_str(&unit.replace('#', &k.to_string()));
    }
    if i % 2 == 0 { s.push_str(post); }
    s
}
