//! C21: where a construct stands, and how long it is, makes no difference.
use super::total::{deep, long};
use super::{agree, codegen, json, short, suites};
use crate::conv;
use crate::corpus::*;
use crate::engine::{Check, Ctx, Done, Property, Task, Tier};
use crate::gen::raw_tokens;
use crate::model;
use crate::term::{DC, K, T};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// Texts that are rejected, each in another place.
const BAD: &[&str] = &["a b", "(", "'x", "/* a", "`${", "`a", "a +", "{", "var 1", "@", "if (", "x = /a", "a = '\n'", "f(", "[1, 2", "({a: 1, b", "class {", "for (;;", "a ? b", "let let = 1", "x = 3a; y", "function () {}", "}", ")", "`${a", "a; b c; d e", "import a", "switch (a) { b }", "1..a.b.0x", "x = 1_", "\\", "#"];

/// White space and comments: what one is made of, and the least length it can have.
const PADS: &[(&str, &str, &str, usize)] = &[
    ("", " ", "", 0), ("", "\n", "", 0), ("", "\t", "", 0), ("", "\r\n", "", 0), ("", "\u{2028}", "", 0), ("", "\u{a0}", "", 0), ("/*", "x", "*/", 0), ("/*", "*", "*/", 0), ("/*", "\u{1F600}", "*/", 0), ("/*", "\n", "*/", 0), ("//", "/", "\n", 0), ("//", "é", "\u{2029}", 0), ("", "//\n", "", 0), ("", "/**/", "", 0), ("", "\u{feff}", "", 0), (" ", " \u{3000}\n\t\r", "\n", 0),
];

/// Paddings without line terminators.
const INLINE: &[usize] = &[0, 2, 5, 6, 7, 8, 13, 14];

/// Statements that end with their last token; the longest is one of `n` bytes.
const UNITS: &[&str] = &["a;", ";", "{}", "f(a,b);", "'#';", "/#/;", "`#`;", "function f(){}", "if(a){b;}else{c;}", "x={a:1};"];

fn padding(kind: usize, n: usize) -> String {
    let (a, b, c, _) = PADS[kind];
    let mut s = String::with_capacity(a.len() + b.len() * n + c.len());
    s.push_str(a);
    for _ in 0..n { s.push_str(b); }
    s.push_str(c);
    s
}

pub fn program(i: usize) -> &'static str {
    if i < PROGRAMS.len() { return PROGRAMS[i]; }
    let i = i - PROGRAMS.len();
    if i < COMPACT.len() { return COMPACT[i]; }
    BAD[i - COMPACT.len()]
}

pub fn programs() -> usize { PROGRAMS.len() + COMPACT.len() + BAD.len() }

/// All that is known of a text.
struct Result_ {
    tree: Option<T<'static>>,
    /// Owns what the tree refers to
    _module: Option<ratel::Module<'static>>,
    json: String,
    pretty: String,
    code: String,
    mini: String,
    errors: Vec<(String, String, usize, usize)>,
}

fn result(text: &str) -> Result<Result_, String> {
    let mut r = Result_ { tree: None, _module: None, json: String::new(), pretty: String::new(), code: String::new(), mini: String::new(), errors: Vec::new() };
    match ratel::parse(text) {
        Ok(m) => {
            let m: ratel::Module<'static> = unsafe { std::mem::transmute(m) };
            r.tree = Some(conv::program(m.body()));
            r.json = serde_json::to_string(&m).map_err(|e| e.to_string())?;
            if text.len() < 2000 { r.pretty = serde_json::to_string_pretty(&m).map_err(|e| e.to_string())?; }
            r.code = ratel_codegen::codegen(&m, false);
            r.mini = ratel_codegen::codegen(&m, true);
            r._module = Some(m);
        }
        Err(l) => {
            if l.is_empty() { return Err("neither a module nor an error".into()); }
            for e in l { r.errors.push((format!("{:?}", e.token), e.raw.to_string(), e.start, e.end)); }
        }
    }
    Ok(r)
}

/// Locations from `at` on are moved by `n`.
#[derive(Clone, Copy)]
struct Move { at: usize, n: usize }

impl Move {
    fn pos(self, p: usize) -> usize { if p >= self.at { p + self.n } else { p } }
    fn loc(self, p: u32) -> u32 { if p == DC { p } else { self.pos(p as usize) as u32 } }
    /// `got` is this one moved.
    fn tree(self, a: &T, b: &T, path: &mut String) -> Option<String> {
        if a.k != b.k || a.v != b.v || a.c.len() != b.c.len() { return Some(format!("{} is {}, expected {}", path, short(&b.show()), short(&a.show()))); }
        if !matches!(a.k, K::None | K::List | K::Program) && (self.loc(a.s) != b.s || self.loc(a.e) != b.e) {
            return Some(format!("{} {:?} {} is at {}..{}, expected {}..{}", path, a.k, a.v, b.s, b.e, self.loc(a.s), self.loc(a.e)));
        }
        for (i, (x, y)) in a.c.iter().zip(&b.c).enumerate() {
            let n = path.len();
            path.push_str(&format!("/{:?}.{}", a.k, i));
            let d = self.tree(x, y, path);
            if d.is_some() { return d; }
            path.truncate(n);
        }
        None
    }
    fn json(self, a: &str) -> String {
        let mut s = String::with_capacity(a.len() + 64);
        let mut rest = a;
        loop {
            // a quote within a string is escaped
            let i = match (rest.find("\"start\":"), rest.find("\"end\":")) {
                (Some(i), Some(j)) if i < j => i + 8,
                (_, Some(j)) => j + 6,
                (Some(i), None) => i + 8,
                _ => break,
            };
            s.push_str(&rest[..i]);
            rest = &rest[i..];
            if let Some(r) = rest.strip_prefix(' ') { s.push(' '); rest = r; }
            let d = rest.bytes().take_while(|c| c.is_ascii_digit()).count();
            if let Ok(p) = rest[..d].parse::<usize>() { s.push_str(&self.pos(p).to_string()); }
            rest = &rest[d..];
        }
        s.push_str(rest);
        s
    }
    fn same(self, a: &Result_, b: &Result_) -> Result<(), String> {
        match (&a.tree, &b.tree) {
            (None, None) => {}
            (None, Some(t)) => return Err(format!("accepted as {}, rejected elsewhere", short(&t.show()))),
            (Some(t), None) => return Err(format!("rejected ({:?}), elsewhere {}", b.errors, short(&t.show()))),
            (Some(x), Some(y)) => if let Some(d) = self.tree(x, y, &mut String::new()) { return Err(d); },
        }
        let e: Vec<_> = a.errors.iter().map(|e| (e.0.clone(), e.1.clone(), self.pos(e.2), self.pos(e.3))).collect();
        if e != b.errors { return Err(format!("errors are {}, expected {}", short(&format!("{:?}", b.errors)), short(&format!("{:?}", e)))); }
        let j = self.json(&a.json);
        // nothing has a place in an empty program
        if j != b.json && a.tree.as_ref().map_or(true, |t| !t.c.is_empty()) { return Err(format!("ESTree is {}, expected {}", short(&b.json), short(&j))); }
        if !a.pretty.is_empty() && !b.pretty.is_empty() && !a.tree.as_ref().unwrap().c.is_empty() && self.json(&a.pretty) != b.pretty { return Err(format!("pretty ESTree is {}, expected {}", short(&b.pretty), short(&self.json(&a.pretty)))); }
        for (x, y, what) in [(&a.code, &b.code, "code"), (&a.mini, &b.mini, "minified code")] {
            if x != y { return Err(format!("{} is {:?}, expected {:?}", what, short(y), short(x))); }
        }
        Ok(())
    }
}

thread_local! { static BASE: RefCell<HashMap<String, Rc<Result_>>> = RefCell::new(HashMap::new()); }

fn base(text: &str) -> Result<Rc<Result_>, String> {
    if let Some(r) = BASE.with(|b| b.borrow().get(text).cloned()) { return Ok(r); }
    let r = Rc::new(result(text)?);
    if text.len() < 1000 { BASE.with(|b| { let mut b = b.borrow_mut(); if b.len() > 2000 { b.clear(); } b.insert(text.to_string(), r.clone()); }); }
    Ok(r)
}

/// The first where two texts differ.
fn unlike(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(40).min(s.len())..(i + 80).min(s.len())]).into_owned();
    format!("{:?}, expected {:?} (near {} of {} and {})", cut(a), cut(b), i, a.len(), b.len())
}

/// Statements before a program change nothing but its locations.
fn after_statements(unit: usize, count: usize, len: usize, p: &str) -> Check {
    let u = UNITS[unit].replace('#', &"x".repeat(len));
    let a = base(p)?;
    let ub = base(&u)?;
    let text = format!("{}{}", u.repeat(count), p);
    let b = result(&text)?;
    let m = Move { at: 0, n: u.len() * count };
    let (mut t, x) = match (b.tree, &a.tree) {
        (Some(t), Some(x)) => (t, x),
        (None, None) => {
            let e: Vec<_> = a.errors.iter().map(|e| (e.0.clone(), e.1.clone(), m.pos(e.2), m.pos(e.3))).collect();
            if e != b.errors { return Err(format!("errors are {}, expected {}", short(&format!("{:?}", b.errors)), short(&format!("{:?}", e)))); }
            return Ok(Done::Compared);
        }
        (Some(t), None) => return Err(format!("accepted as {}, rejected elsewhere", short(&t.show()))),
        (None, Some(t)) => return Err(format!("rejected ({:?}), elsewhere {}", b.errors, short(&t.show()))),
    };
    let ut = &ub.tree.as_ref().unwrap();
    let k = ut.c.len() * count;
    if t.c.len() != k + x.c.len() { return Err(format!("has {} statements, expected {} and {}", t.c.len(), k, x.c.len())); }
    let tail = t.c.split_off(k);
    for (i, s) in t.c.chunks(ut.c.len()).enumerate() {
        let m = Move { at: 0, n: u.len() * i };
        for (g, w) in s.iter().zip(&ut.c) { if let Some(d) = m.tree(w, g, &mut String::new()) { return Err(format!("statement {}: {}", i, d)); } }
    }
    for (g, w) in tail.iter().zip(&x.c) { if let Some(d) = m.tree(w, g, &mut String::new()) { return Err(d); } }
    let want = |u: &str, p: &str, sep: &str| {
        let mut w = Vec::new();
        for _ in 0..count { if !u.is_empty() { w.push(u); } }
        if !p.is_empty() { w.push(p); }
        w.join(sep)
    };
    let w = want(&ub.code, &a.code, "\n");
    if w != b.code { return Err(format!("code is {}", unlike(&b.code, &w))); }
    let w = want(&ub.mini, &a.mini, "");
    if w != b.mini { return Err(format!("minified code is {}", unlike(&b.mini, &w))); }
    // the body's JSON: that of the parts
    let inner = |j: &str| -> Option<String> { let i = j.find("\"body\":[")?; let e = j.rfind("]")?; Some(j[i + 8..e].to_string()) };
    if let (Some(uj), Some(pj), Some(bj)) = (inner(&ub.json), inner(&a.json), inner(&b.json)) {
        let mut w: Vec<String> = (0..count).map(|i| Move { at: 0, n: u.len() * i }.json(&uj)).collect();
        w.push(m.json(&pj));
        let w = w.into_iter().filter(|x| !x.is_empty()).collect::<Vec<_>>().join(",");
        if w != bj { return Err(format!("ESTree is {}", unlike(&bj, &w))); }
    }
    Ok(Done::Compared)
}

/// Tokens of any length: text before, what is repeated, text after.
const TOKENS: &[(&str, &str, &str)] = &[
    ("x = a", "a", ";"), ("x = ", "é", " + b"), ("x = a", "1", "\n(b)"), ("var a", "$_", " = 1, b"), ("x.b", "b", ".c"), ("({k", "k", ": 1, m: 2})"), ("({", "k", "() {}})"), ("class A", "A", " extends B {}"), ("l", "l", ": for (;;) break l"), ("function f", "f", "(a) {}"), ("function f(a", "a", ", b) {}"), ("(a", "a", ") => b"), ("import {a", "a", " as b} from 'm'"), ("import a from '", "m", "'; b"), ("i", "n", ""), ("instanceof", "f", " = 1"), ("x = undefined", "d", " + 1"), ("x = this", "s", ""), ("x = nul", "l", "s"),
    ("x = '", "s", "';"), ("x = \"", "é", "\" + b"), ("x = '", "\\'", "'"), ("x = '", "\\\\", "', b"), ("x = '", "\\\n", "'\nb"), ("'", "s", "'"), ("({'", "s", "': 1, b: 2})"), ("x = '", "\u{1F600}", "' + 'a'"),
    ("`", "t", "`"), ("x = `", "\n", "` + b"), ("`a", "é", "${b}c`"), ("`a${b}", "c", "${d}e`"), ("`a${b}", "$", "`"), ("`", "\\`", "`; b"), ("t`", "x", "`.y"), ("`${`", "{", "`}`"), ("`", "}", "${a}`"),
    ("x = /", "r", "/g.y"), ("x = /", "[/]", "/"), ("x = /", "\\/", "/i, b"), ("/", "é", "/"), ("x = /r/", "g", " + 1"),
    ("x = 1", "0", ";"), ("x = 1", "9", ".5 + 1"), ("x = .", "1", "e5"), ("x = 1.", "25", ""), ("x = 0x", "aF", " / 2"), ("x = 0b1", "0", ""), ("x = 0o", "17", ", b"), ("x = 1e", "1", " in b"), ("x = 1e-", "0", "1"), ("x = 0.", "0", "1"),
    ("a /*", "c", "*/ + b"), ("a /*", "*", "*/\nb"), ("a //", "c", "\n++b"), ("a /*", "é\n", "*/ b"), ("a", " ", "+b"), ("a", "\n", "b"), ("return /*", "\n", "*/ a"), ("a", "\u{2028}", "(b)"), ("x = {", "\n", "}"), ("//", "é", ""), ("a //", "/", ""), ("/*", "/", "*/"),
];

fn token(i: usize, n: usize) -> String {
    let (a, b, c) = TOKENS[i];
    format!("{}{}{}", a, b.repeat(n), c)
}

/// Everything the model says of a text.
fn all(text: &str, big: bool) -> Check {
    let m = model::parse(text);
    let mut done = false;
    let mut go = |c: Check| -> Result<(), String> { if let Done::Compared = c? { done = true; } Ok(()) };
    go(agree(text, &m))?;
    go(if big { json::check_compact(text, &m) } else { json::check(text, &m, json::What::All) })?;
    if !big { go(codegen::faithful(text, &m, false))?; }
    go(codegen::faithful(text, &m, true))?;
    if let model::Outcome::Ok(ref t) = m.out {
        if let Ok(module) = ratel::parse(text) {
            let i = conv::program(module.body());
            if t.same(&i) { if let Some(d) = place(t, &i) { return Err(d); } }
        }
    }
    Ok(if done { Done::Compared } else { Done::Skipped })
}

/// Locations of leaves, which C09 has no findings about.
fn place(t: &T, i: &T) -> Option<String> {
    if matches!(t.k, K::Ident | K::Num | K::Bin | K::Str | K::Regex | K::This | K::BIdent | K::PShort) && (t.s != i.s || t.e != i.e) && t.s != DC && t.e != DC {
        return Some(format!("{:?} {} is at {}..{}, expected {}..{}", t.k, short(t.v), i.s, i.e, t.s, t.e));
    }
    t.c.iter().zip(&i.c).find_map(|(a, b)| place(a, b))
}

/// Token `i` of a program is preceded by a gap of `n`.
fn gap(kind: usize, n: usize, p: usize, g: usize, newline: bool) -> (String, usize) {
    let mut s = String::new();
    let mut at = 0;
    for (i, t) in raw_tokens(program(p)).iter().enumerate() {
        if i > 0 { s.push(if i == g && newline { '\n' } else { ' ' }); }
        if i == g {
            at = s.len();
            if n > 0 { s.push_str(&padding(kind, n)); }
        }
        s.push_str(t);
    }
    (s, at)
}

pub struct C21;
impl Property for C21 {
    fn id(&self) -> &'static str { "C21" }
    fn scope(&self, tier: Tier) -> String {
        let q = tier == Tier::Quick;
        format!("{} programs and {} rejected texts preceded and followed by each of {} kinds of white space and comments repeated 0..{} times and at all lengths near {}, some at all lengths 0..{}; preceded by {} kinds of statements as often; {} kinds of white space and comments, of 1..{} and boundary lengths, in every gap between tokens; {} tokens and comments of every length 0..{} and at boundaries to {}; {} repeatable constructs repeated and {} constructs nested boundary times to {}; sources at every alignment with arbitrary bytes around them. Tree, locations, ESTree, generated code and errors are compared with those of the same construct at the start, or with the model's",
            PROGRAMS.len() + COMPACT.len(), BAD.len(), PADS.len(), if q { 130 } else { 520 }, if q { "256, 4096, 65536" } else { "every power of two to 2^20 and at 2^24" }, if q { 66_000 } else { 140_000 }, UNITS.len(), INLINE.len(), if q { 4 } else { 70 }, TOKENS.len(), if q { 300 } else { 1100 }, if q { 65_537 } else { 1 << 22 }, suites::REPEATS.len(), suites::NESTS.len(), if q { 4097 } else { 65_537 })
    }
    fn case(&self, kind: &str, data: &str) -> Check {
        let v: Vec<usize> = data.split(' ').map(|x| x.parse().unwrap()).collect();
        match kind {
            "before" => {
                let pad = padding(v[0], v[1]);
                let p = program(v[2]);
                Move { at: 0, n: pad.len() }.same(&*base(p)?, &result(&(pad + p))?)?;
                Ok(Done::Compared)
            }
            "after" => {
                let p = program(v[2]);
                // what ends a comment, or a rejected text, may be what follows
                let a = base(&format!("{}\n", p))?;
                if a.tree.is_none() { return Ok(Done::Skipped); }
                let b = result(&format!("{}\n{}", p, padding(v[0], v[1])))?;
                // the end moves, and what is located there
                Move { at: p.len() + 1, n: padding(v[0], v[1]).len() }.same(&*a, &b)?;
                Ok(Done::Compared)
            }
            "statements" => after_statements(v[0], v[1], v[2], program(v[3])),
            "gap" => {
                let nl = v[4] == 1;
                let (a, at) = gap(v[0], 0, v[2], v[3], nl);
                let (b, _) = gap(v[0], v[1], v[2], v[3], nl);
                let (mut x, mut y) = (result(&a)?, result(&b)?);
                // the gap may be part of an unfinished string or regular expression
                if x.tree.is_none() && a.contains(|c: char| "/'\"`\\#@".contains(c)) { return Ok(Done::Skipped); }
                // the text of a token in error may include the gap
                for (r, s) in [(&mut x, &a), (&mut y, &b)] { for e in r.errors.iter_mut() { if s.get(e.2..e.3) == Some(&e.1) { e.1 = "the text there".into(); } } }
                Move { at, n: b.len() - a.len() }.same(&x, &y)?;
                Ok(Done::Compared)
            }
            "token" => all(&token(v[0], v[1]), v[1] > 3000),
            "long" => all(&long(v[0], v[1]), v[1] > 3000),
            "deep" => all(&deep(v[0], v[1]), v[1] > 300),
            "slice" => {
                let p = program(v[0]);
                for around in ["", "'x", "`${", "a", "/*", "\n", "=", "+", "9", "\u{2028}", "\0", "é"] {
                    // the source is part of a text, at any address
                    let text = format!("{}{}{}{}", "y".repeat(v[1]), around, p, around);
                    let at = v[1] + around.len();
                    let s = &text[at..at + p.len()];
                    Move { at: 0, n: 0 }.same(&*base(p)?, &result(s)?).map_err(|e| format!("between {:?}: {}", around, e))?;
                }
                Ok(Done::Compared)
            }
            k => panic!("no kind {}", k),
        }
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let q = tier == Tier::Quick;
        let mut v: Vec<Task> = Vec::new();
        let mut add = |name: &str, f: Box<dyn Fn(&mut Ctx)>| v.push(Task { name: name.to_string(), run: f });
        let few: &[usize] = &[0, 3, 10, 20, 40, 60];
        // the longest first
        if !q {
            for i in 0..4 { add("16 MiB", Box::new(move |cx| for n in [(1 << 24) - 1, 1 << 24, (1 << 24) + 1] {
                cx.case("before", &format!("{} {} 0", [0, 1, 6, 11][i], n), 1);
                cx.case("token", &format!("{} {}", [0, 19, 27, 36][i], n), 1);
            })); }
        }
        let sweep = if q { 66_000 } else { 140_000 };
        let list: &[(usize, usize)] = if q { &[(0, 0), (11, 3)] } else { &[(0, 0), (11, 3), (1, 10), (4, 20), (6, 40), (9, 60), (10, 5), (12, 7)] };
        for &(k, p) in list {
            let width = PADS[k].1.len();
            for shard in 0..24 { add("sweep", Box::new(move |cx| {
                let mut n = shard;
                while n * width < sweep && !cx.stopped() { cx.case("before", &format!("{} {} {}", k, n, p), 1); n += 24; }
            })); }
        }
        let list: &[(usize, usize)] = if q { &[(0, 10)] } else { &[(0, 10), (3, 3), (5, 20), (8, 40)] };
        for &(u, p) in list {
            for shard in 0..24 { add("statement sweep", Box::new(move |cx| {
                let mut n = shard;
                while n < if q { 3000 } else { 12_000 } && !cx.stopped() { cx.case("statements", &format!("{} {} 1 {}", u, n, p), n as u64); n += 24; }
            })); }
        }
        // a string of every length between two statements: both cross the boundary
        for &(u, p) in &[(4usize, 3usize), (6, 10), (5, 20)][..if q { 1 } else { 3 }] {
            for shard in 0..24 { add("string sweep", Box::new(move |cx| {
                let mut n = shard;
                while n < sweep && !cx.stopped() { cx.case("statements", &format!("{} 1 {} {}", u, n + 1, p), 1); n += if q { 24 * 4 } else { 24 }; }
            })); }
        }
        let mut near: Vec<usize> = Vec::new();
        for e in if q { vec![8, 12, 16] } else { (8..=20).collect() } {
            let w: i64 = if q { 3 } else { 40 };
            for d in -w..=w { near.push(((1i64 << e) + d) as usize); }
        }
        let edge: Vec<usize> = if q { vec![65_520, 65_533, 65_534, 65_535, 65_536] } else { (65_000..65_600).collect() };
        for p in 0..programs() {
            let near = near.clone();
            add("before", Box::new(move |cx| for k in 0..PADS.len() {
                for n in 0..if q { 130 } else { 520 } { cx.case("before", &format!("{} {} {}", k, n, p), 1); }
                for n in 0..if q { 20 } else { 100 } { cx.case("after", &format!("{} {} {}", k, n, p), 1); }
                if k % 4 == 0 || !q && few.contains(&p) { for &n in &near { if n < 1 << 17 || few.contains(&p) { cx.case("before", &format!("{} {} {}", k, n, p), 1); } } }
                if cx.stopped() { return; }
            }));
            let edge = edge.clone();
            add("page", Box::new(move |cx| {
                let len = program(p).len();
                for &n in &edge { cx.case("before", &format!("0 {} {}", n - len, p), 1); cx.case("before", &format!("0 {} {}", n, p), 1); cx.case("before", &format!("6 {} {}", n - len - 4, p), 1); if cx.stopped() { return; } }
            }));
            add("statements", Box::new(move |cx| for u in 0..UNITS.len() {
                for n in (0..if q { 12 } else { 40 }).chain(if q { vec![63, 64, 65, 127, 128, 129, 255, 256, 257] } else { vec![63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097] }) {
                    cx.case("statements", &format!("{} {} 1 {}", u, n, p), n as u64 + 1);
                }
                if UNITS[u].contains('#') { for n in [254, 255, 256, 257, 65_534, 65_535, 65_536, 65_537] { cx.case("statements", &format!("{} 1 {} {}", u, n, p), 1); } }
                if cx.stopped() { return; }
            }));
            add("gaps", Box::new(move |cx| {
                let g = raw_tokens(program(p)).len();
                for g in 1..g { for &k in INLINE { for nl in 0..2 {
                    if nl == 1 && q && k != 0 && k != 6 { continue; }
                    for n in 1..if q { 4 } else { 70 } { cx.case("gap", &format!("{} {} {} {} {}", k, n, p, g, nl), 1); }
                    for n in if q { vec![255, 256, 300] } else { vec![127, 128, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024] } { cx.case("gap", &format!("{} {} {} {} {}", k, n, p, g, nl), 1); }
                    if k == 0 && (!q || few.contains(&p)) { for n in [65_400, 65_500, 65_535, 65_536, 65_537] { cx.case("gap", &format!("{} {} {} {} {}", k, n, p, g, nl), 1); } }
                    if cx.stopped() { return; }
                } } }
            }));
            add("slices", Box::new(move |cx| for k in 0..if q { 17 } else { 64 } { cx.case("slice", &format!("{} {}", p, k), 12); }));
        }
        for i in 0..TOKENS.len() {
            add("tokens", Box::new(move |cx| {
                for n in 0..if q { 300 } else { 1100 } { cx.case("token", &format!("{} {}", i, n), 1); if cx.stopped() { return; } }
                for e in 10..if q { 17 } else { 23 } { for d in if q { -1i64..2 } else { -12..13 } { cx.case("token", &format!("{} {}", i, (1i64 << e) + d), 1); } if cx.stopped() { return; } }
                for n in if q { 65_505..65_505 } else { 65_400..65_600 } { cx.case("token", &format!("{} {}", i, n), 1); }
            }));
        }
        let counts: Vec<usize> = if q { vec![510, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097] }
            else { (300..700).chain([1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537]).collect() };
        for i in 0..suites::REPEATS.len() {
            let counts = counts.clone();
            add("long", Box::new(move |cx| for &n in &counts { cx.case("long", &format!("{} {}", i * 2, n), n as u64); if cx.stopped() { return; } }));
        }
        for i in 0..suites::NESTS.len() {
            add("deep", Box::new(move |cx| for n in if q { vec![311, 312, 500, 511, 512, 513, 1000, 1023, 1024, 1025] } else { (301..400).chain([500, 511, 512, 513, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097]).collect() } {
                cx.case("deep", &format!("{} {}", i * 4, n), n as u64);
                if cx.stopped() { return; }
            }));
        }
        v
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["4 GiB, where 32-bit locations end, is out of reach: lengths above 2^24 are not explored".into(),
            "the code under test is built without optimisation, which its own unsafe code needs".into()]
    }
}
