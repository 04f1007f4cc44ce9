//! C12, C13, C14: generated code.
use super::{short, suites};
use crate::conv;
use crate::corpus::*;
use crate::engine::{Check, Done, Property, Task, Tier};
use crate::gen::*;
use crate::model::{self, Outcome, Parsed, Stop};
use crate::term::{K, T};

fn is_list(k: K) -> bool { matches!(k, K::Program | K::Block | K::List) }

/// Same program: empty statements of a list aside; `new A` is `new A()`.
pub fn same_program(a: &T, b: &T) -> bool {
    if a.k != b.k { return false; }
    if a.k == K::New { if a.c.len() != b.c.len() { return false; } } else if a.v != b.v { return false; }
    if is_list(a.k) {
        let mut x = a.c.iter().filter(|t| t.k != K::Empty);
        let mut y = b.c.iter().filter(|t| t.k != K::Empty);
        loop {
            match (x.next(), y.next()) {
                (None, None) => return true,
                (Some(p), Some(q)) => if !same_program(p, q) { return false; },
                _ => return false,
            }
        }
    }
    a.c.len() == b.c.len() && a.c.iter().zip(&b.c).all(|(x, y)| same_program(x, y))
}

/// Keys of literals, classes and patterns, in order.
pub fn keys(t: &T, out: &mut Vec<String>) {
    if t.k == K::Obj || t.k == K::BObj { out.push("{".into()); }
    if t.k == K::Class || t.k == K::ClassDecl { out.push("class".into()); }
    match t.k {
        K::PShort | K::BShort => out.push(format!("shorthand {}", t.v)),
        K::PLit | K::BProp | K::PMeth | K::Method | K::Field => out.push(format!("{:?} {} {:?} {}", t.k, t.v, t.c[0].k, t.c[0].v)),
        K::PSpread | K::BRest => out.push(format!("{:?}", t.k)),
        _ => {}
    }
    for c in &t.c { keys(c, out); }
    if t.k == K::Obj || t.k == K::BObj || t.k == K::Class || t.k == K::ClassDecl { out.push("}".into()); }
}

/// An accepted text on which the model takes no position: the generated code has to be
/// read as the same tree by the parser that read the text.
fn open(text: &str, m: &Parsed) -> Option<(ratel::Module<'static>, T<'static>)> {
    match m.out { Outcome::Stop(Stop::Unspec(why)) if why != "nesting depth" => {}, _ => return None }
    let module = super::total::module(text).ok()?;
    // the module is kept with it
    let i: T<'static> = unsafe { std::mem::transmute(conv::program(module.body())) };
    if strange(&i) { None } else { Some((module, i)) }
}

/// Has a for-in or for-of statement that assigns to what nothing can be assigned to.
fn strange(t: &T) -> bool {
    (matches!(t.k, K::ForIn | K::ForOf) && t.c[0].k == K::Expr && !matches!(t.c[0].c[0].k, K::Ident | K::Member | K::Comp | K::Call | K::Obj | K::Arr)) || t.c.iter().any(strange)
}

/// The generated code denotes the same program.
pub fn faithful(text: &str, m: &Parsed, minify: bool) -> Check {
    if let Some((module, i)) = open(text, m) {
        let code = ratel_codegen::codegen(&module, minify);
        return match ratel::parse(&code) {
            Ok(n) => {
                let j = conv::program(n.body());
                if same_program(&i, &j) { Ok(Done::Compared) } else { Err(format!("generated {:?} which is parsed as {}, expected {}", short(&code), short(&j.show()), short(&i.show()))) }
            }
            Err(_) => Err(format!("generated {:?}, which is rejected, for {}", short(&code), short(&i.show()))),
        };
    }
    let want = match m.out { Outcome::Ok(ref t) => t, _ => return Ok(Done::Skipped) };
    let module = match ratel::parse(text) { Ok(m) => m, Err(_) => return Ok(Done::Skipped) };
    let i = conv::program(module.body());
    if !i.same(want) { return Ok(Done::Skipped); }
    let code = ratel_codegen::codegen(&module, minify);
    means(&i, &code)
}

fn means(want: &T, code: &str) -> Check {
    let p = model::parse(code);
    // which would be a comment, if the code is used as a script
    if p.toks.windows(3).any(|t| t[0].k == model::Tk::P("<") && t[1].k == model::Tk::P("!") && t[2].k == model::Tk::P("--") && t[0].e == t[1].s && t[1].e == t[2].s) {
        return Err(format!("generated {:?} which has an HTML-like comment, expected {}", short(code), short(&want.show())));
    }
    let r = match p.out {
        Outcome::Ok(ref got) => if same_program(want, got) { Ok(Done::Compared) } else { Err(format!("generated {:?} which means {}, expected {}", short(code), short(&got.show()), short(&want.show()))) },
        Outcome::Stop(Stop::Reject { pos, .. }) => Err(format!("generated {:?} which is not a program (at {}), expected {}", short(code), pos, short(&want.show()))),
        // deeper than the model reads
        Outcome::Stop(Stop::Unspec("nesting depth")) => Ok(Done::Skipped),
        Outcome::Stop(Stop::Unspec(why)) => Err(format!("generated {:?} ({}), expected {}", short(code), why, short(&want.show()))),
    };
    r
}

/// Keys are the same in the source, the tree and the generated code.
pub fn keys_survive(text: &str, m: &Parsed) -> Check {
    if let Some((module, i)) = open(text, m) {
        let mut a = Vec::new();
        keys(&i, &mut a);
        if a.is_empty() { return Ok(Done::Skipped); }
        for minify in [true, false] {
            let code = ratel_codegen::codegen(&module, minify);
            // C12 and C13 are about programs that do not survive
            if let Ok(n) = ratel::parse(&code) {
                let j = conv::program(n.body());
                let mut b = Vec::new();
                keys(&j, &mut b);
                if a != b { return Err(format!("generated code {:?}: keys are {}, expected {}", short(&code), short(&b.join(", ")), short(&a.join(", ")))); }
            }
        }
        return Ok(Done::Compared);
    }
    let want = match m.out { Outcome::Ok(ref t) => t, _ => return Ok(Done::Skipped) };
    let mut a = Vec::new();
    keys(want, &mut a);
    if a.is_empty() { return Ok(Done::Skipped); }
    let module = match ratel::parse(text) { Ok(m) => m, Err(e) => return Err(format!("rejected ({}), expected keys {}", short(&format!("{:?}", e)), short(&a.join(", ")))) };
    let i = conv::program(module.body());
    let compare = |t: &T, what: &str| -> Result<(), String> {
        if t.same(want) { return Ok(()); }
        let mut b = Vec::new();
        keys(t, &mut b);
        if a == b { Ok(()) } else { Err(format!("{}: keys are {}, expected {}", what, short(&b.join(", ")), short(&a.join(", ")))) }
    };
    compare(&i, "tree")?;
    for minify in [true, false] {
        let code = ratel_codegen::codegen(&module, minify);
        let p = model::parse(&code);
        match p.out {
            Outcome::Ok(ref t) => compare(t, &format!("generated code {:?}", short(&code)))?,
            _ => return Err(format!("generated {:?}, expected keys {}", short(&code), short(&a.join(", ")))),
        }
    }
    Ok(Done::Compared)
}

fn more(tier: Tier) -> Vec<Task> {
    let mut v = Vec::new();
    let fill: Vec<String> = if tier == Tier::Quick { &["x", "x , y", "- x", "x => y", "x = y", "{ }", "function ( ) { }"][..] } else { ATOMS_FEW }.iter().map(|s| s.to_string()).collect();
    v.extend(Contexts { name: "expr3 core", levels: vec![EXPR_CORE, EXPR_CORE, EXPR_CORE], fill }.tasks());
    // all pairs of tokens that can become neighbours in minified code
    v.extend(suites::common(tier));
    v
}

pub struct C12;
impl Property for C12 {
    fn id(&self) -> &'static str { "C12" }
    fn scope(&self, t: Tier) -> String { format!("nestings of three core expression contexts; {}", suites::scope_words(t)) }
    fn text(&self, text: &str, m: &Parsed) -> Check { faithful(text, m, false) }
    fn tasks(&self, tier: Tier) -> Vec<Task> { more(tier) }
}

pub struct C13;
impl Property for C13 {
    fn id(&self) -> &'static str { "C13" }
    fn scope(&self, t: Tier) -> String { format!("nestings of three core expression contexts; {}", suites::scope_words(t)) }
    fn text(&self, text: &str, m: &Parsed) -> Check { faithful(text, m, true) }
    fn tasks(&self, tier: Tier) -> Vec<Task> { more(tier) }
}

/// The last statement in it is a do-while statement.
fn ends_in_do(t: &T) -> bool {
    match t.k {
        K::Do => true,
        K::If if t.c[2].k != K::None => ends_in_do(&t.c[2]),
        K::If => ends_in_do(&t.c[1]),
        K::While | K::For | K::ForIn | K::ForOf | K::Labeled => ends_in_do(t.c.last().unwrap()),
        _ => false,
    }
}

/// An empty statement follows a do-while statement, which is generated without its
/// optional semicolon and takes that of the empty statement the next time.
fn semicolon_after_do(t: &T) -> bool {
    (is_list(t.k) && t.c.windows(2).any(|w| w[1].k == K::Empty && ends_in_do(&w[0]))) || t.c.iter().any(semicolon_after_do)
}

pub struct C14;
impl Property for C14 {
    fn id(&self) -> &'static str { "C14" }
    fn scope(&self, t: Tier) -> String { format!("chains of two generations in all four combinations of modes; nestings of three core expression contexts; {}", suites::scope_words(t)) }
    fn text(&self, text: &str, m: &Parsed) -> Check {
        match (&m.out, open(text, m)) {
            (Outcome::Ok(t), _) if !semicolon_after_do(t) => {}
            (_, Some((_, ref t))) if !semicolon_after_do(t) => {}
            _ => return Ok(Done::Skipped),
        }
        let module = match ratel::parse(text) { Ok(m) => m, Err(_) => return Ok(Done::Skipped) };
        let p = ratel_codegen::codegen(&module, false);
        let n = ratel_codegen::codegen(&module, true);
        if n.len() > p.len() { return Err(format!("minified {:?} is longer than pretty {:?}", short(&n), short(&p))); }
        for (name, code) in [("pretty", &p), ("minified", &n)] {
            let again = match ratel::parse(code) { Ok(m) => m, Err(_) => return Err(format!("{} code {:?} is rejected", name, short(code))) };
            for (minify, want) in [(false, &p), (true, &n)] {
                let got = ratel_codegen::codegen(&again, minify);
                if got != *want { return Err(format!("from {} code {:?} {} code {:?} is generated, expected {:?}", name, short(code), if minify { "minified" } else { "pretty" }, short(&got), short(want))); }
            }
        }
        // what stands between tokens
        let l = model::parse(&n);
        if let Outcome::Ok(_) = l.out {
            let mut at = 0;
            for t in &l.toks {
                let gap = &n[at..t.s as usize];
                if gap != "" && gap != " " { return Err(format!("minified code {:?} has {:?} between tokens", short(&n), gap)); }
                at = t.e as usize;
            }
            if !n[at..].is_empty() { return Err(format!("minified code {:?} has {:?} at the end", short(&n), &n[at..])); }
        }
        Ok(Done::Compared)
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> { more(tier) }
}
