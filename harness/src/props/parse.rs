//! C05 to C10 and C15: what the parser accepts, which tree it builds, where it says things are.
use super::{agree, short, suites};
use crate::conv;
use crate::corpus::*;
use crate::engine::{Check, Ctx, Done, Property, Task, Tier};
use crate::gen::*;
use crate::model::{Outcome, Parsed, Stop};
use crate::term::K;
use ratel::error::ParseError;

fn dfs(name: &'static str, root: &'static str, alphabet: &'static str, depth: usize) -> Vec<Task> {
    Dfs { name, root, alphabet, depth, complete: true, all: false, sep: " " }.tasks()
}
fn owned(l: &[&str]) -> Vec<String> { l.iter().map(|s| s.to_string()).collect() }

/// Tasks that go further for one property come first.
fn with_common(mut own: Vec<Task>, tier: Tier) -> Vec<Task> { own.extend(suites::common(tier)); own }

/// Trees of accepted programs and whether valid programs are accepted; a difference
/// is one of expressions or one of statements.
fn about(text: &str, m: &Parsed, expressions: bool) -> Check {
    match (&m.out, ratel::parse(text)) {
        (Outcome::Ok(t), Ok(module)) => {
            let i = conv::program(module.body());
            if t.same(&i) { return Ok(Done::Compared); }
            if differs_in_expression(t, &i) == expressions || elsewhere(text, t, &i, expressions) { Err(format!("parsed as {}, expected {}", short(&i.show()), short(&t.show()))) } else { Ok(Done::Skipped) }
        }
        (Outcome::Ok(_), Err(_)) => agree(text, m),
        _ => Ok(Done::Skipped),
    }
}

fn is_expression(k: K) -> bool {
    use K::*;
    matches!(k, Void | This | Ident | Num | Bin | Str | Regex | True | False | Null | Undef | Seq | Arr | Member | Comp | Meta | Call | New | Binary | Pre | Post | Cond
        | Tpl | Quasi | Tagged | Spread | Arrow | Obj | Func | Class | PShort | PLit | PMeth | PSpread | KLit | KBin | KComp)
}

/// Whether the first difference is below or at an expression and not below a statement in it.
fn differs_in_expression(a: &crate::term::T, b: &crate::term::T) -> bool {
    if a.k == b.k && a.v == b.v && a.c.len() == b.c.len() {
        for (x, y) in a.c.iter().zip(&b.c) {
            if !x.same(y) { return differs_in_expression(x, y) || (is_expression(a.k) && x.k != K::Block && x.k != K::List && !matches!(x.k, K::Method | K::Field | K::Name | K::None)); }
        }
        return is_expression(a.k);
    }
    is_expression(a.k) || is_expression(b.k)
}

/// A difference of the other sort that still concerns these. Of expressions: any in a function
/// or class that is part of an expression. Of statements: one in an expression that is parsed
/// as it should be when it stands alone.
fn elsewhere(text: &str, a: &crate::term::T, b: &crate::term::T, expressions: bool) -> bool {
    if is_expression(a.k) {
        if expressions { return true; }
        let (s, e) = (a.s as usize, a.e as usize);
        if s >= e || e > text.len() || !text.is_char_boundary(s) || !text.is_char_boundary(e) { return false; }
        let alone = format!("({});", &text[s..e]);
        let m = crate::model::parse(&alone);
        return matches!((&m.out, agree(&alone, &m)), (Outcome::Ok(_), Ok(_)));
    }
    if a.k != b.k || a.v != b.v || a.c.len() != b.c.len() { return false; }
    a.c.iter().zip(&b.c).find(|(x, y)| !x.same(y)).map_or(false, |(x, y)| elsewhere(text, x, y, expressions))
}

pub struct C05;
impl Property for C05 {
    fn id(&self) -> &'static str { "C05" }
    fn scope(&self, t: Tier) -> String { format!("expressions: nestings of three core contexts over {} atoms; {}", ATOMS_FEW.len(), suites::scope_words(t)) }
    fn text(&self, text: &str, m: &Parsed) -> Check { about(text, m, true) }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let q = tier == Tier::Quick;
        let mut v = Vec::new();
        v.extend(Contexts { name: "expr3 core", levels: vec![EXPR_CORE, EXPR_CORE, EXPR_CORE], fill: owned(if q { &["x", "x , y", "- x", "x => y"] } else { ATOMS_FEW }) }.tasks());
        if !q {
            v.extend(dfs("expr, deeper", "", TOK_EXPR, 6));
            v.extend(dfs("ops, deeper", "", TOK_OPS, 7));
            v.extend(dfs("post, deeper", "a", TOK_POST, 6));
            v.extend(dfs("arrow, deeper", "x =", TOK_ARROW, 7));
            v.extend(dfs("obj, deeper", "( {", TOK_OBJ, 6));
        }
        with_common(v, tier)
    }
}

pub struct C06;
impl Property for C06 {
    fn id(&self) -> &'static str { "C06" }
    fn scope(&self, t: Tier) -> String { suites::scope_words(t) }
    fn text(&self, text: &str, m: &Parsed) -> Check { about(text, m, false) }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let q = tier == Tier::Quick;
        let mut v = Vec::new();
        v.extend(Contexts { name: "stmt3", levels: vec![STMT, STMT, STMT], fill: owned(if q { &["x ;", "if ( x ) y ;", "var v = 1", "return"] } else { STMTS_FEW }) }.tasks());
        if !q {
            v.extend(dfs("stmt, deeper", "", TOK_STMT, 6));
            v.extend(dfs("for, deeper", "for (", TOK_LOOP, 7));
            v.extend(dfs("switch, deeper", "switch ( a ) {", TOK_SWITCH, 6));
            v.extend(dfs("class, deeper", "class A {", TOK_CLASS, 6));
            v.extend(dfs("bind, deeper", "let", TOK_BIND, 7));
            v.extend(dfs("import, deeper", "import", TOK_IMPORT, 7));
            v.extend(dfs("func, deeper", "", TOK_FUNC, 7));
        }
        with_common(v, tier)
    }
}

pub struct C07;
impl Property for C07 {
    fn id(&self) -> &'static str { "C07" }
    fn scope(&self, t: Tier) -> String { format!("each of {} trivia in each gap (and in each pair of gaps) of {} programs, in all gaps at once; {}", TRIVIA.len(), PROGRAMS.len() + COMPACT.len(), suites::scope_words(t)) }
    fn text(&self, text: &str, m: &Parsed) -> Check {
        let r = agree(text, m);
        if r.is_ok() { return r; }
        // a different tree concerns layout if the same tokens on one line have the right one
        if let (Outcome::Ok(_), Ok(_)) = (&m.out, ratel::parse(text)) {
            let line = m.toks.iter().map(|t| &text[t.s as usize..t.e as usize]).collect::<Vec<_>>().join(" ");
            let m = crate::model::parse(&line);
            if let (Outcome::Ok(_), Err(_)) = (&m.out, agree(&line, &m)) { return Ok(Done::Skipped); }
        }
        r
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let mut v = Vec::new();
        const FEW: &[&str] = &["", " ", "\n", "/**/", "/*\n*/", "//\n"];
        v.extend(layouts("programs, two gaps", PROGRAMS, if tier == Tier::Quick { FEW } else { TRIVIA }, 2));
        if tier == Tier::Thorough { v.extend(dfs("asi, deeper", "", TOK_ASI, 6)); }
        let l: Vec<String> = STMTS.iter().flat_map(|a| STMTS.iter().flat_map(move |b| TRIVIA.iter().map(move |t| format!("{}{}{}", a.trim_end_matches(" ;"), t, b)))).collect();
        v.extend(texts("separators between statements", l));
        with_common(v, tier)
    }
}

pub struct C08;
impl Property for C08 {
    fn id(&self) -> &'static str { "C08" }
    fn scope(&self, t: Tier) -> String { suites::scope_words(t) }
    fn text(&self, text: &str, m: &Parsed) -> Check {
        match (&m.out, ratel::parse(text)) {
            (Outcome::Stop(Stop::Unspec(_)), _) => Ok(Done::Skipped),
            (Outcome::Ok(_), Ok(_)) => Ok(Done::Compared),
            (Outcome::Ok(t), Err(e)) => Err(format!("rejected ({}), expected {}", short(&format!("{:?}", e)), short(&t.show()))),
            (Outcome::Stop(Stop::Reject { pos, end, .. }), Ok(module)) =>
                Err(format!("accepted as {}, expected an error at {}..{}", short(&conv::program(module.body()).show()), pos, end)),
            (Outcome::Stop(_), Err(e)) => if e.is_empty() { Err("no errors reported".into()) } else { Ok(Done::Compared) },
        }
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let q = tier == Tier::Quick;
        let mut v = Vec::new();
        v.extend(dfs("all tokens", "", TOK_ALL, if q { 3 } else { 4 }));
        if !q {
            v.extend(edits("programs, twice", PROGRAMS, TOK_ALL, true));
            v.extend(Chars { name: "lex", alphabet: LEX, len: 4, around: &[("", "")] }.tasks());
        }
        with_common(v, tier)
    }
}

pub struct C09;
impl Property for C09 {
    fn id(&self) -> &'static str { "C09" }
    fn scope(&self, t: Tier) -> String { suites::scope_words(t) }
    fn text(&self, text: &str, m: &Parsed) -> Check {
        let module = match ratel::parse(text) { Ok(m) => m, Err(_) => return Ok(Done::Skipped) };
        let i = conv::program(module.body());
        let mut bad = None;
        in_bounds(&i, text, &mut bad);
        if let Some(b) = bad { return Err(b); }
        let t = match m.out { Outcome::Ok(ref t) => t, _ => return Ok(Done::Skipped) };
        if !t.same(&i) { return Err(format!("parsed as {}, expected {}", short(&i.show()), short(&t.show()))); }
        match t.span_diff(&i, &mut String::new()) { Some(d) => Err(d), None => Ok(Done::Compared) }
    }
    fn case(&self, kind: &str, data: &str) -> Check {
        // some node of this kind is there
        assert_eq!(kind, "location");
        let mut i = data.splitn(4, ' ');
        let k = i.next().unwrap();
        let s: u32 = i.next().unwrap().parse().unwrap();
        let e: u32 = i.next().unwrap().parse().unwrap();
        fn all(t: &crate::term::T, k: &str, out: &mut Vec<(u32, u32)>) { if format!("{:?}", t.k) == k { out.push((t.s, t.e)); } for c in &t.c { all(c, k, out); } }
        let module = ratel::parse(i.next().unwrap()).map_err(|e| format!("rejected: {:?}", e))?;
        let mut out = Vec::new();
        all(&conv::program(module.body()), k, &mut out);
        if out.contains(&(s, e)) { Ok(Done::Compared) } else { Err(format!("no {} at {}..{}, but at {:?}", k, s, e, out)) }
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let mut v = Vec::new();
        const FEW: &[&str] = &[" ", "\n", "/*é*/"];
        v.extend(layouts("programs, two gaps", PROGRAMS, if tier == Tier::Quick { FEW } else { TRIVIA }, 2));
        with_common(v, tier)
    }
}

fn in_bounds(t: &crate::term::T, text: &str, bad: &mut Option<String>) {
    if bad.is_some() { return; }
    if !matches!(t.k, K::None | K::List | K::Program) {
        let (s, e) = (t.s as usize, t.e as usize);
        if s > e || e > text.len() || !text.is_char_boundary(s) || !text.is_char_boundary(e) {
            *bad = Some(format!("{:?}({}) is at {}..{} of a text of {} bytes", t.k, t.v, s, e, text.len()));
        }
    }
    for c in &t.c { in_bounds(c, text, bad); }
}

pub struct C10;
impl Property for C10 {
    fn id(&self) -> &'static str { "C10" }
    fn scope(&self, t: Tier) -> String {
        format!("renderings of all spans of all texts over 7 characters to length {}, and of all spans of texts of 1 to 120 lines, into writers that fail; errors of {}", if t == Tier::Quick { 5 } else { 7 }, suites::scope_words(t))
    }
    fn text(&self, text: &str, m: &Parsed) -> Check {
        let errors = match ratel::parse(text) { Ok(_) => return Ok(Done::Skipped), Err(e) => e };
        if errors.is_empty() { return Err("no errors reported".into()); }
        let mut last = 0;
        for (i, e) in errors.iter().enumerate() {
            if e.start > e.end || e.end > text.len() || !text.is_char_boundary(e.start) || !text.is_char_boundary(e.end) {
                return Err(format!("error {} is at {}..{} of a text of {} bytes", i, e.start, e.end, text.len()));
            }
            if &*e.raw != &text[e.start..e.end] { return Err(format!("error {} at {}..{} has raw text {:?}", i, e.start, e.end, e.raw)); }
            if e.start == e.end && !matches!(text.as_bytes().get(e.end), None | Some(0)) { return Err(format!("error {} is at {}..{}, no token", i, e.start, e.end)); }
            if e.start < last { return Err(format!("error {} at {} comes after one at {}", i, e.start, last)); }
            last = e.start;
            rendering(text, e.start, e.end)?;
        }
        match m.out {
            Outcome::Stop(Stop::Reject { end, late: false, .. }) if errors[0].start > end as usize =>
                Err(format!("the first error is reported at {}, but the text stops being valid at {}", errors[0].start, end)),
            Outcome::Stop(Stop::Reject { .. }) => Ok(Done::Compared),
            _ => Ok(Done::Skipped),
        }
    }
    fn case(&self, kind: &str, data: &str) -> Check {
        let mut i = data.splitn(3, ' ');
        let s = i.next().unwrap().parse().unwrap();
        let e = i.next().unwrap().parse().unwrap();
        let text = i.next().unwrap();
        if kind == "failing" { return failing(text, s, e); }
        assert_eq!(kind, "render");
        rendering(text, s, e)?;
        Ok(Done::Compared)
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let mut v = Vec::new();
        const AL: &[&str] = &["a", "\n", "\r", "\t", "é", " ", "😀"];
        for shard in 0..AL.len() {
            let len = if tier == Tier::Quick { 5 } else { 7 };
            v.push(Task { name: "renderings of short texts".into(), run: Box::new(move |cx| {
                let g = Chars { name: "", alphabet: AL, len, around: &[("", "")] };
                g.each(shard, AL.len(), &mut |t| spans(cx, t, usize::MAX));
            }) });
        }
        for n in 1..120usize {
            v.push(Task { name: "renderings of many lines".into(), run: Box::new(move |cx| {
                let mut t = String::new();
                for i in 0..n { t.push_str(["ab", "", "é c", "\tx"][i % 4]); if i + 1 < n { t.push('\n'); } }
                spans(cx, &t, 3);
                spans(cx, &t.replace('\n', "\r\n"), 2);
            }) });
        }
        v.push(Task { name: "failing writers".into(), run: Box::new(move |cx| {
            for t in ["", "a", "ab\ncd", "é", "\n\n\n", "a\r\nb\r\nc\r\nd\r\ne\r\nf", "1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n12"] {
                for s in 0..=t.len() { for e in s..=t.len().min(s + 2) {
                    if t.is_char_boundary(s) && t.is_char_boundary(e) { cx.case("failing", &format!("{} {} {}", s, e, t), 100); }
                } }
            }
        }) });
        // line numbers and columns of more digits
        for n in [9usize, 10, 98, 99, 100, 127, 128, 254, 255, 256, 257, 998, 999, 1000, 1001, 1023, 1024, 4095, 4096, 9998, 9999, 10000, 65535, 65536, 99999, 100000] {
            v.push(Task { name: "renderings far down and far right".into(), run: Box::new(move |cx| {
                for end in ["\n", "\r\n"] {
                    for around in 0..4usize {
                        // the error on the line `around` lines before the last
                        let t = format!("{}abc{}", end.repeat(n), end.repeat(around));
                        let s = n * end.len();
                        cx.case("render", &format!("{} {} {}", s + 1, s + 2, t), 1);
                        cx.case("render", &format!("{} {} {}", s, s + 3, t), 1);
                    }
                }
                for c in ["x", "é", "\t", "😀"] {
                    for longer in [0usize, 1, 3] {
                        let t = format!("a\n{}ab{}\nc", c.repeat(n), "b".repeat(longer));
                        let s = 2 + c.len() * n;
                        cx.case("render", &format!("{} {} {}", s, s + 1, t), 1);
                        cx.case("render", &format!("{} {} {}", 2, s, t), 1);
                        cx.case("render", &format!("{} {} {}", 2, s + 1 + longer, t), 1);
                    }
                }
            }) });
        }
        with_common(v, tier)
    }
}

fn spans(cx: &mut Ctx, t: &str, longest: usize) {
    for s in 0..=t.len() {
        for e in s..=t.len().min(s.saturating_add(longest)) {
            if t.is_char_boundary(s) && t.is_char_boundary(e) { cx.case("render", &format!("{} {} {}", s, e, t), 1); }
        }
    }
}

/// A writer that fails once, after each number of bytes.
fn failing(text: &str, start: usize, end: usize) -> Check {
    use std::fmt::Write;
    struct W { room: usize, got: usize, failed: bool }
    impl Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if !self.failed && self.got + s.len() > self.room { self.failed = true; return Err(std::fmt::Error); }
            self.got += s.len();
            Ok(())
        }
    }
    let error = ParseError::UnexpectedToken { source: text.to_string(), start, end };
    let whole = format!("{}", error).len();
    for room in 0..=whole {
        let mut w = W { room, got: 0, failed: false };
        let r = write!(w, "{}", error);
        if r.is_ok() != (room == whole) { return Err(format!("a writer with room for {} of {} bytes: {:?}", room, whole, r)); }
        if w.got > room { return Err(format!("a writer with room for {} of {} bytes gets more after its error", room, whole)); }
    }
    Ok(Done::Compared)
}

/// What the rendering of an error at start..end of a text has to show.
fn rendering(text: &str, start: usize, end: usize) -> Result<(), String> {
    let out = format!("{}", ParseError::UnexpectedToken { source: text.to_string(), start, end });
    let fail = |m: String| Err(format!("rendering of {}..{}: {}; got {:?}", start, end, m, short(&out)));
    // lines end at \n or \r\n
    let line = text[..start].bytes().filter(|b| *b == b'\n').count();
    let line_start = text[..start].rfind('\n').map_or(0, |i| i + 1);
    let col = text[line_start..start].chars().count();
    let all: Vec<&str> = text.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect();
    let mut got = out.split('\n');
    let head = format!("Unexpected token at {}:{}", line + 1, col + 1);
    if got.next() != Some(&head) { return fail(format!("expected {:?}", head)); }
    if got.next() != Some("") { return fail("expected an empty line".into()); }
    let mut rest: Vec<&str> = got.collect();
    if rest.pop() != Some("") { return fail("expected a line end at the end".into()); }
    let mut it = rest.into_iter();
    for n in line.saturating_sub(2)..line + 3 {
        // the part of a line that is cut off when it is the last of the text
        let l = match all.get(n) { Some(l) => *l, None => break };
        // an empty last line need not be shown
        if n + 1 == all.len() && text[text.rfind('\n').map_or(0, |i| i + 1)..].is_empty() { break; }
        let l = if n + 1 == all.len() { &text[text.rfind('\n').map_or(0, |i| i + 1)..] } else { l };
        let shown = match it.next() { Some(s) => s, None => return fail(format!("line {} is missing", n + 1)) };
        let (mark, body) = match shown.find(" | ") { Some(i) => (&shown[..i], &shown[i + 3..]), None => return fail(format!("line {} has no number", n + 1)) };
        let number = mark.trim_start_matches('>').trim();
        if number != (n + 1).to_string() { return fail(format!("expected line number {}", n + 1)); }
        if (n == line) != mark.starts_with('>') { return fail("the wrong line is marked".into()); }
        if body != l { return fail(format!("line {} is shown as {:?}", n + 1, body)); }
        if n == line {
            let u = match it.next() { Some(u) => u, None => return fail("no underline".into()) };
            let u: Vec<char> = u.chars().collect();
            let at = mark.chars().count() + 3 + col;
            let want = text[start..end].chars().count();
            let carets = u.iter().filter(|c| **c == '^').count();
            if carets > 0 && u.iter().position(|c| *c == '^') != Some(at) { return fail("the underline starts at the wrong column".into()); }
            if u[u.len().saturating_sub(carets)..].iter().any(|c| *c != '^') { return fail("the underline has gaps".into()); }
            // how far a token of several lines is underlined is not specified
            if carets != want && !text[start..end].contains(|c| c == '\n' || c == '\r') { return fail(format!("expected {} characters underlined", want)); }
        }
    }
    match it.next() { Some(x) => fail(format!("unexpected line {:?}", x)), None => Ok(()) }
}

pub struct C15;
impl Property for C15 {
    fn id(&self) -> &'static str { "C15" }
    fn scope(&self, t: Tier) -> String { format!("{} keys in {} places, pairs of keys in them; {}", KEYS.len(), KEYED.len(), suites::scope_words(t)) }
    fn text(&self, text: &str, m: &Parsed) -> Check {
        super::json::check(text, m, super::json::What::Keys)?;
        super::codegen::keys_survive(text, m)
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let mut v = Vec::new();
        // two members after each other, each with any key
        const PAIRS: &[(&str, &str, &str)] = &[("( {", ",", "} )"), ("class A {", ";", "}"), ("class A {", "\n", "}"), ("class A {", "", "}"), ("var {", ",", "} = o")];
        const MEMBERS: &[&str] = &["@ : v", "@ ( ) { }", "@", "[ @ ] : v", "static @ ( ) { }", "static @ = v", "@ = v", "get @ ( ) { }", "set @ ( v ) { }", "static get @ ( ) { }", "@ : { v }", "@ : v = w", "... @"];
        let keys: &[&str] = if tier == Tier::Quick { &["a", "get", "set", "static", "constructor", "if", "'s'", "1", "0b1", "[ a ]"] } else { KEYS };
        for p in PAIRS {
            for m in MEMBERS {
                let keys: Vec<&'static str> = keys.to_vec();
                v.push(Task { name: "pairs of members".into(), run: Box::new(move |cx| {
                    for m2 in MEMBERS { for k in &keys { for k2 in &keys {
                        cx.text(&format!("{} {} {} {} {}", p.0, m.replace('@', k), p.1, m2.replace('@', k2), p.2));
                    } if cx.stopped() { return; } } }
                }) });
            }
        }
        if tier == Tier::Thorough {
            v.extend(dfs("class, deeper", "class A {", TOK_CLASS, 6));
            v.extend(dfs("obj, deeper", "( {", TOK_OBJ, 6));
        }
        with_common(v, tier)
    }
}
