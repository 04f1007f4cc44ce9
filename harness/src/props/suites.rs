//! The sets of programs that the properties about programs share.
use crate::corpus::*;
use crate::engine::{Task, Tier};
use crate::gen::*;
use crate::model::lex;

fn dfs(v: &mut Vec<Task>, name: &'static str, root: &'static str, alphabet: &'static str, depth: usize) {
    v.extend(Dfs { name, root, alphabet, depth, complete: true, all: false, sep: " " }.tasks());
}

fn owned(l: &[&str]) -> Vec<String> { l.iter().map(|s| s.to_string()).collect() }

/// Token sequences up to a depth, one alphabet per part of the grammar.
pub fn tokens_of_everything(tier: Tier) -> Vec<Task> {
    let d = if tier == Tier::Quick { 0 } else { 1 };
    let mut v = Vec::new();
    dfs(&mut v, "expr", "", TOK_EXPR, 4 + d);
    dfs(&mut v, "ops", "", TOK_OPS, 5 + d);
    dfs(&mut v, "post", "a", TOK_POST, 4 + d);
    dfs(&mut v, "arrow", "x =", TOK_ARROW, 5 + d);
    dfs(&mut v, "obj", "( {", TOK_OBJ, 4 + d);
    dfs(&mut v, "class", "class A {", TOK_CLASS, 4 + d);
    dfs(&mut v, "stmt", "", TOK_STMT, 4 + d);
    dfs(&mut v, "for", "for (", TOK_LOOP, 5 + d);
    dfs(&mut v, "switch", "switch ( a ) {", TOK_SWITCH, 4 + d);
    dfs(&mut v, "try", "try {", TOK_SWITCH, 4 + d);
    dfs(&mut v, "bind", "let", TOK_BIND, 5 + d);
    dfs(&mut v, "params", "function f (", TOK_BIND, 5 + d);
    dfs(&mut v, "import", "import", TOK_IMPORT, 5 + d);
    dfs(&mut v, "func", "", TOK_FUNC, 5 + d);
    dfs(&mut v, "asi", "", TOK_ASI, 4 + d);
    dfs(&mut v, "all", "", TOK_ALL, 3);
    v
}

/// Constructs nested in each other.
pub fn nestings(tier: Tier) -> Vec<Task> {
    let mut v = Vec::new();
    v.extend(Contexts { name: "expr", levels: vec![EXPR_IN_STMT, EXPR], fill: owned(ATOMS) }.tasks());
    v.extend(Contexts { name: "expr3", levels: vec![EXPR, EXPR], fill: owned(ATOMS_FEW) }.tasks());
    v.extend(Contexts { name: "stmt", levels: vec![STMT, STMT], fill: owned(STMTS) }.tasks());
    v.extend(Contexts { name: "bind", levels: vec![BIND, BIND_IN], fill: nested(BIND_IN, BINDS) }.tasks());
    v.extend(Contexts { name: "keys", levels: vec![KEYED], fill: owned(KEYS) }.tasks());
    // every token in every place
    let each = |shapes: &[&str]| -> Vec<String> {
        TOK_ALL.split_whitespace().chain(TOK_REST.split_whitespace()).filter(|t| *t != "\\n").flat_map(|t| shapes.iter().map(move |s| s.replace('T', t))).collect()
    };
    let fill = each(&["b T", "b T c", "b T ( c )", "T b", "T b . c"]);
    v.extend(Contexts { name: "tokens as statements", levels: vec![STMT], fill: each(&["T", "T b", "T b ;", "T ( b ) c", "T { }", "b T", "b T c", "b ; T c", "T b { }", "T b = c ;"]) }.tasks());
    v.extend(Contexts { name: "tokens in bindings", levels: vec![BIND], fill: each(&["T", "b T", "T b", "b T c", "{ b T c }", "{ T b }", "{ b : T c }", "{ b : c T d }", "[ b T c ]", "[ T b ]", "[ , T ]"]) }.tasks());
    v.extend(Contexts { name: "tokens as keys", levels: vec![KEYED], fill: each(&["T", "T b", "b T", "[ T ]", "[ b T c ]"]) }.tasks());
    v.extend(Contexts { name: "operators in statements", levels: vec![EXPR_IN_STMT], fill: fill.clone() }.tasks());
    v.extend(Contexts { name: "operators in expressions", levels: vec![&["@ ;", "x = @"], EXPR], fill }.tasks());
    v.extend(Contexts { name: "expr in stmt in stmt", levels: vec![STMT, EXPR_IN_STMT], fill: owned(ATOMS) }.tasks());
    if tier == Tier::Thorough {
        v.extend(Contexts { name: "expr4", levels: vec![EXPR_CORE, EXPR_CORE, EXPR_CORE], fill: owned(ATOMS_FEW) }.tasks());
        v.extend(Contexts { name: "stmt3", levels: vec![STMT, STMT, STMT], fill: owned(STMTS_FEW) }.tasks());
        v.extend(Contexts { name: "stmt expr2", levels: vec![STMT, EXPR_IN_STMT, EXPR_CORE], fill: owned(ATOMS_FEW) }.tasks());
        v.extend(Contexts { name: "bind3", levels: vec![BIND, BIND_IN, BIND_IN], fill: nested(BIND_IN, BINDS) }.tasks());
    }
    v
}

/// One construct after the other.
pub fn sequences(tier: Tier) -> Vec<Task> {
    let mut v = Vec::new();
    let seps: &[&str] = &[" ", "\n", ";"];
    let all: Vec<String> = STMTS.iter().map(|s| s.to_string()).chain(PROGRAMS.iter().map(|s| s.to_string())).collect();
    let mut l = Vec::new();
    for a in &all { for b in STMTS { for s in seps { l.push(format!("{}{}{}", a, s, b)); } } }
    v.extend(texts("pairs of statements", l));
    if tier == Tier::Thorough {
        let mut l = Vec::new();
        for a in STMTS { for b in STMTS { for c in STMTS { l.push(format!("{} {}\n{}", a, b, c)); } } }
        v.extend(texts("triples of statements", l));
        let mut l = Vec::new();
        for a in &all { for b in PROGRAMS { l.push(format!("{}\n{}", a, b)); } }
        v.extend(texts("pairs of programs", l));
    }
    v
}

/// Small changes to programs.
pub fn changes(tier: Tier) -> Vec<Task> {
    let mut v = Vec::new();
    v.extend(edits("programs", PROGRAMS, TOK_ALL, false));
    v.extend(edits("compact", COMPACT, TOK_ALL, false));
    v.extend(char_edits("programs", PROGRAMS, LEX));
    v.extend(char_edits("compact", COMPACT, LEX));
    v.extend(layouts("compact", COMPACT, TRIVIA, 1));
    v.extend(layouts("programs", PROGRAMS, TRIVIA, 1));
    if tier == Tier::Thorough { v.extend(edits("compact, twice", &COMPACT[..100], TOK_ALL, true)); }
    v
}

pub fn characters(tier: Tier) -> Vec<Task> {
    let d = if tier == Tier::Quick { 0 } else { 1 };
    let mut v = Vec::new();
    let ch = |v: &mut Vec<Task>, name, alphabet, len, around| v.extend(Chars { name, alphabet, len, around }.tasks());
    ch(&mut v, "lex", LEX, 3, &[("", "")]);
    ch(&mut v, "lexfew", LEX_FEW, 4 + d, &[("", ""), ("a", "b")]);
    ch(&mut v, "num", NUM, 4 + d, &[("", ""), ("", ".a"), ("1", "")]);
    ch(&mut v, "pun", PUN, 4 + d, &[("a", "b")]);
    ch(&mut v, "str", STRC, 4 + d, &[("'", "'"), ("\"", "\"")]);
    ch(&mut v, "tpl", TPLC, 4 + d, &[("`", "`"), ("`${`", "`}`")]);
    ch(&mut v, "reg", REGC, 4 + d, &[("/", "/"), ("x=/", "/g;"), ("a /", "")]);
    ch(&mut v, "triv", TRIV, 4 + d, &[("", ""), ("a", "b")]);
    // literals in other places than an expression's beginning
    ch(&mut v, "str elsewhere", STRC, 3 + d, &[("import'", "'"), ("import\"", "\";a"), ("import a from'", "'"), ("import{a}from \"", "\"\nb"),
        ("x={'", "':a}"), ("x={\"", "\"(){}}"), ("class A{'", "'(){}}"), ("class A{static \"", "\"=1}"), ("let{'", "':a}=b"), ("function f(){\"", "\"}"), ("a['", "']"), ("case_('", "',b)"), ("`${'", "'}`"), ("if(a)'", "'\nelse b"), ("throw'", "'")]);
    ch(&mut v, "tpl elsewhere", TPLC, 3 + d, &[("a`", "`"), ("a.b`", "`.c"), ("new a`", "`"), ("x={[`", "`]:a}"), ("`a${b}", "`"), ("`a${b}", "${c}`"), ("t`", "${a}`"), ("return`", "`"), ("a=>`", "`"), ("{`", "`}")]);
    ch(&mut v, "reg elsewhere", REGC, 3 + d, &[("return/", "/"), ("typeof/", "/g"), ("{}/", "/i"), ("a=>/", "/"), ("(/", "/)"), ("[/", "/g,a]"), ("x={a:/", "/}"), ("a?/", "/:b"), ("`${/", "/}`"), ("case_(/", "/.a)"), ("!/", "/.test(a)"), ("if(a)/", "/.b"), ("a\n/", "/g"), ("a,/", "/\nb")]);
    ch(&mut v, "num elsewhere", NUM, 3 + d, &[("x={", ":a}"), ("class A{", "(){}}"), ("class A{static ", "=a}"), ("let{", ":a}=b"), ("a[", "]"), ("-", ".b"), ("a-", ";"), ("a+", "+b"), ("a/", "/b"), ("[", ",a]"), ("`${", "}`"), ("return ", "\na"), ("x={[", "]:a}"), ("a?", ":b"), ("", " in a"), ("typeof ", "")]);
    v
}

/// Words that are, nearly are, or begin or end like a word with a meaning, in every place a name can have.
pub fn words(_: Tier) -> Vec<Task> {
    let mut names: Vec<String> = Vec::new();
    let special = ["get", "set", "of", "as", "from", "async", "await", "target", "constructor", "undefined", "arguments", "eval", "prototype", "NaN", "Infinity", "__proto__"];
    for w in lex::RESERVED.iter().chain(special.iter()) {
        names.push(w.to_string());
        for n in 1..w.len() { names.push(w[..n].to_string()); names.push(w[n..].to_string()); }
        for s in ["a", "s", "_", "$", "1", "é", "e", "n", "f"] { names.push(format!("{}{}", w, s)); }
        for s in ["a", "_", "$", "é", "x"] { names.push(format!("{}{}", s, w)); }
        names.push(format!("{}{}", w[..1].to_uppercase(), &w[1..]));
        names.push(w.to_uppercase());
        names.push(format!("{}{}", w, w));
        let mut r: Vec<u8> = w.bytes().collect();
        for i in 0..r.len() {
            let c = r[i];
            for d in [b'a', b'z', b'0', b'_', c ^ 1, c ^ 2] {
                if i == 0 && d == b'0' { continue; }
                r[i] = d;
                let s = String::from_utf8(r.clone()).unwrap();
                if s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') { names.push(s); }
            }
            r[i] = c;
        }
    }
    // escapes, in the middle of what may be the beginning of a keyword too
    for n in ["\\u0061", "a\\u0062", "\\u0061b", "va\\u0072x", "in\\u0030", "\\u0069n1", "as\\u005f", "a\\u0024\\u0031b", "é\\u0061", "\\u0061é", "this\\u0073", "\\u004eaN"] { names.push(n.to_string()); }
    names.sort();
    names.dedup();
    let places: &[&str] = &["@", "x = @ ;", "x.@", "x.@.y", "({@: 1})", "({@})", "({@() {}})", "class A {@() {}}", "class A {static @() {}}", "class A {get @() {}}", "class A {set @(v) {}}", "class A {@ = 1}",
        "var @ = 1", "function @() {}", "function f(@) {}", "function f(...@) {}", "function f({@}) {}", "function f([@]) {}", "class @ {}", "(function @() {})", "@ => 1", "@: x", "@: for (;;) break @", "for (;;) continue @", "import @ from 'm'", "import {@} from 'm'", "import {@ as b} from 'm'", "import {a as @} from 'm'", "import * as @ from 'm'",
        "try {} catch (@) {}", "@ = 1", "@++", "@()", "new @", "@ in x", "x in @", "@`t`", "`${@}`", "typeof @", "(@)", "[@] = x", "({a: @} = x)", "for (@ in x) ;", "for (@ of x) ;", "for (let @ of x) ;", "for (x of @) ;", "if (@) @; else @", "return @", "@\n@", "{@}", "@;@", "switch (@) {case @: @}", "@ ? @ : @", "let {@: a} = x", "let {a: @} = x", "let @, b = @"];
    let mut l = Vec::new();
    for p in places { for n in &names { l.push(p.replace('@', n)); } }
    texts("words", l)
}

/// Escapes of characters of every sort, complete and not, in every place that can have one.
pub fn escapes(tier: Tier) -> Vec<Task> {
    const CODES: &[u32] = &[0, 9, 0xa, 0xd, 0x20, 0x23, 0x24, 0x27, 0x2d, 0x2f, 0x30, 0x31, 0x38, 0x39, 0x3a, 0x40, 0x41, 0x5a, 0x5b, 0x5c, 0x5f, 0x60, 0x61, 0x62, 0x66, 0x69, 0x6e, 0x72, 0x7a, 0x7b, 0x7d, 0x7f, 0x80, 0x85, 0xa0, 0xaa, 0xb5, 0xc0, 0xe9, 0xff,
        0x3b1, 0x660, 0x1680, 0x2000, 0x200a, 0x200b, 0x200c, 0x200d, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0x4e2d, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x1f600, 0x2f800, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0x110000, 0x110001, 0x11ffff, 0x120000, 0x1fffff, 0x200000, 0xffffff, 0x1000000, 0x1000061, 0x10000061, 0xffffffff];
    let mut forms: Vec<String> = Vec::new();
    for &c in CODES {
        if c < 0x10000 { forms.push(format!("\\u{:04x}", c)); forms.push(format!("\\u{:04X}", c)); }
        if c < 0x100 { forms.push(format!("\\x{:02x}", c)); forms.push(format!("\\x{:02X}", c)); }
        for zeros in ["", "0", "000000", "0000000000"] { forms.push(format!("\\u{{{}{:x}}}", zeros, c)); }
        forms.push(format!("\\u{{{:X}}}", c));
    }
    // more than any number has, with the digits of a letter at their end
    for n in [9, 16, 17, 33] { forms.push(format!("\\u{{1{}61}}", "0".repeat(n))); forms.push(format!("\\u{{{}61}}", "0".repeat(n))); forms.push(format!("\\u{{{}}}", "f".repeat(n))); }
    // ended early, and with one character that doesn't belong
    for whole in ["\\u0061", "\\u{61}", "\\u{061}", "\\u{10ffff}", "\\x61"] {
        for n in 1..whole.len() {
            forms.push(whole[..n].to_string());
            for c in ["g", "z", "_", " ", "}", "{", "\n", "\u{e9}", "\\", "'", "-", "G", "`", "/", "@", ":", "\u{1f600}"] { forms.push(format!("{}{}{}", &whole[..n], c, &whole[n..])); forms.push(format!("{}{}{}", &whole[..n], c, &whole[n + 1..])); }
        }
    }
    forms.sort();
    forms.dedup();
    let places: &[&str] = &["@", "a@", "@b", "a@b", "@@", "a.@", "a.b@", "a.@b", "a @ b", "1@", "'@'", "\"@\"", "'a@b'", "'@@'", "`@`", "`a@${b}@`", "t`@`", "/@/", "/a@b/g", "({@:1})", "({a@:1})", "({'@':1})", "({@})", "({@(){}})", "var @", "var a@ = 1", "let {@: a} = b", "class A{@(){}}", "class a@{}", "function @(){}", "function f(a@){}", "@=>1", "@:a", "import @ from 'a'", "import a from '@'", "import {@ as b} from 'a'", "v@r", "n@w a", "\u{e9}@", "a@\u{e9}", "//@\na", "/*@*/a", "try{}catch(@){}", "break @", "{a@:for(;;)break a@}"];
    let mut v = Vec::new();
    let mut l = Vec::new();
    for p in places { for f in &forms { l.push(p.replace('@', f)); } }
    v.extend(texts("escapes", l));
    // all of them
    let max = if tier == Tier::Quick { 0x3100u32 } else { 0x12000 };
    for lo in (0..max).step_by(0x1000) {
        v.push(Task { name: "every escape".into(), run: Box::new(move |cx| {
            for c in lo..(lo + 0x1000).min(max) {
                if c < 0x10000 { for p in ["@", "a@", "a.@", "'@'"] { cx.text(&p.replace('@', &format!("\\u{:04x}", c))); } }
                for p in ["@", "a@", "a.@", "'@'"] { cx.text(&p.replace('@', &format!("\\u{{{:x}}}", c))); }
                if cx.stopped() { return; }
            }
        }) });
    }
    v
}

/// Every repeatable construct repeated any number of times up to a bound.
pub fn repetitions(tier: Tier) -> Vec<Task> {
    let mut counts: Vec<usize> = (0..if tier == Tier::Quick { 36 } else { 140 }).collect();
    counts.extend([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]);
    counts.sort();
    counts.dedup();
    let mut l = Vec::new();
    for &(pre, unit, sep, post) in REPEATS {
        for &n in &counts {
            let mut s = String::from(pre);
            for i in 0..n {
                if i > 0 { s.push_str(sep); }
                s.push_str(&unit.replace('#', &i.to_string()));
            }
            s.push_str(post);
            l.push(s);
        }
    }
    // nestings
    for &(open, inner, close) in NESTS {
        for &n in &counts {
            l.push(format!("{}{}{}", open.repeat(n), inner, close.repeat(n)));
        }
    }
    texts("repetitions", l)
}

/// Lists of every length up to a bound in which one element, anywhere, is of another sort than the rest.
pub fn mixed(tier: Tier) -> Vec<Task> {
    let counts: &[usize] = if tier == Tier::Quick { &[2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33] } else { &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 129, 257] };
    let mut v = Vec::new();
    for list in LISTS {
        v.push(Task { name: "mixed lists".into(), run: Box::new(move |cx| {
            let &(pre, sep, post, units) = list;
            for &n in counts {
                let mut places = vec![0, 1, n / 2, n - 2, n - 1];
                places.dedup();
                if n <= 4 { places = (0..n).collect(); }
                for a in units { for b in units { for &p in &places {
                    if a == b { continue; }
                    let mut s = String::from(pre);
                    for i in 0..n {
                        if i > 0 { s.push_str(sep); }
                        s.push_str(&(if i == p { b } else { a }).replace('#', &i.to_string()));
                    }
                    s.push_str(post);
                    cx.text(&s);
                    if cx.stopped() { return; }
                } } }
            }
        }) });
    }
    v
}

/// Prefix, separator, suffix, elements
const LISTS: &[(&str, &str, &str, &[&str])] = &[
    ("[", ",", "]", &["a#", "", "...a#", "b = #", "(a, b#)", "x => y", "{a: #}", "'#'", "function(){}"]),
    ("f(", ",", ")", &["a#", "...a#", "b = #", "(a, b#)", "x => y", "{a: #}", "'#'", "class {}"]),
    ("x = new F(", ", ", ")", &["a#", "...a#", "(a, b#)", "() => {}"]),
    ("({", ",", "})", &["a#", "a#: #", "a#() {}", "...a#", "[a#]: b", "'a#': c", "#: d", "*a#() {}", "if: x => y", "[a#]() {}"]),
    ("class A {", " ", "}", &["a#() {}", "static a#() {}", "get a#() {}", "set a#(v) {}", "a# = #;", "static a# = #;", "[a#]() {}", "'a#'() {}", "#() {}", "static get [a#]() {}", "*a#() {}"]),
    ("function f(", ",", ") {}", &["a#", "a# = #", "{a#}", "[a#]", "{a#: b#} = c"]),
    ("x = (", ",", ") => b", &["a#", "a# = #", "(a, b)"]),
    ("(", ",", ")", &["a#", "a# = #", "x => y", "(a, b)", "function() {}", "-a#"]),
    ("var ", ",", "", &["a#", "a# = #", "{a#} = b", "[a#] = b", "a# = x => y", "a# = function() {}"]),
    ("let [", ",", "] = b", &["a#", "", "a# = #", "{a#}", "[a#]", "[a#] = c"]),
    ("let {", ",", "} = b", &["a#", "a#: b#", "'a#': b#", "[a#]: b#", "a#: {b#}", "a#: [b#]", "#: b#", "a#: b# = c"]),
    ("`", "", "`", &["${a#}", "t", "$", "\\`", "${`u#`}", "${{a}}", "\n"]),
    ("switch (a) {", " ", "}", &["case #:", "case #: b#;", "case #: break;", "case #: {}", "case #: c#; d#;", "case (a, b):"]),
    ("import {", ",", "} from 'm'", &["a#", "a# as b#", "if as c#"]),
    ("", "\n", "", &["a#", "a#;", ";", "{}", "'a#'", "var a#", "if (a) b#", "function f#() {}", "x = y => z", "a#: b", "return", "import 'm#'", "class A# {}", "throw a#", "`a#`"]),
    ("{", ";", "}", &["a#", "", "{}", "let a#", "if (a) b#; else c", "do a; while (b)", "x => {}", "for (;;) break", "/a#/"]),
    ("x = ", " + ", "", &["a#", "-a#", "+a#", "++a#", "a#++", "a * b", "(a - b)", "(a, b)", "(x => y)", "`t`", "a#()", "/b/"]),
    ("x = ", " ** ", "", &["a#", "(-a#)", "a#++", "a#.b", "(a ** b)", "(a + b)"]),
    ("x = ", " - ", "", &["a#", "-a#", "+a#", "--a#", "a#--", "a / b", "(a - b)", "typeof a#", "a#[0]"]),
    ("x = ", " && ", "", &["a#", "(a || b)", "!a#", "a | b", "a == b", "(a ? b : c)", "(a = b)", "(a && b)"]),
    ("x = ", " < ", "", &["a#", "!a#", "!--a#", "a in b", "(a < b)", "a << b", "a instanceof b"]),
    ("", " = ", "", &["a#", "a#.b", "a#[b]", "[a#]", "a#().b"]),
    ("a", "", "", &[".b#", "[#]", "(#)", "`t#`", ".if", "[a, b]", "(...c)"]),
    ("new a", "", "()", &[".b#", "[#]", "`t#`", ".new"]),
    ("", " ", "a", &["!", "-", "+", "~", "typeof", "void", "delete", "new"]),
    ("", "", "a", &["if (a) ", "if (a) b; else ", "for (;;) ", "while (a) ", "l#: ", "for (a in b) ", "for (a of b) "]),
    ("x = ", "", "a", &["b => ", "(b, c) => ", "a ? b : ", "a = ", "a += ", "-", "typeof ", "() => "]),
    ("", " else ", "", &["if (a) b#;", "if (a) {}", "if (a, b) c#;", "if (a) for (;;) d#;", "if (a) if (b) c; else d#;"]),
];

/// Prefix, unit (`#`: its number), separator, suffix
pub const REPEATS: &[(&str, &str, &str, &str)] = &[
    ("", "a#;", "", ""), ("", "a#", "\n", ""), ("", "a", "\n", "\n"), ("", ";", "", ""), ("", "{}", " ", ""), ("", "/**/", "", "a"), ("a", "//x\n", "", ""), ("a", "\n", "", "b"), ("a =", " ", "", "b"), ("a", "/*\n*/", "", "++b"), ("(", "/* # */ ", "", "a)"),
    ("f(", "a#", ",", ")"), ("f(", "...a#", ", ", ", )"), ("new F(", "#", ",", ")"), ("[", "a#", ",", "]"), ("[", "#", " , ", ",]"), ("[", ",", "", "]"), ("[", ",", "", "a]"), ("[a", ",", "", "b]"), ("x = [", "[#]", ",", "]"),
    ("({", "a#: #", ",", "})"), ("({", "a#", ",", ",})"), ("({", "a#() {}", ",", "})"), ("({", "[#]: #", ", ", "})"), ("({", "...a#", ",", "})"), ("x = {", "'#': {}", ",", "}"),
    ("class A {", "a#() {}", "", "}"), ("class A {", "static a# = #;", " ", "}"), ("class A {", "get a#() {}", "\n", "}"), ("class A {", "a# = #", "\n", "}"), ("class A {", "[a#]() {} b = 1;", "", "}"),
    ("function f(", "a#", ",", ") {}"), ("function f(", "a# = #", ", ", ", ...b) {}"), ("x = function(", "[a#]", ",", ") { return }"), ("(", "a#", ",", ") => b"), ("x = (z,", "a# = #", ",", ") => {}"),
    ("var ", "a#", ",", ""), ("let ", "a# = #", ", ", ";"), ("const ", "{a#} = b", ",", ";"), ("let [", "a#", ",", "] = b"), ("let [", ",", "", "a] = b"), ("let {", "a#: b#", ",", "} = c"), ("let {", "a#", ",", ", ...r} = c"), ("for (let ", "a# = #", ",", ";;) ;"),
    ("", "a#", ",", ""), ("x = (", "a#", ",", ")"), ("", "a#", "+", ""), ("", "a#", " - ", ""), ("", "a#", "**", ""), ("", "a#", "=", ""), ("", "a#", "&&", " || b"), ("", "a#", " in ", ""), ("x = ", "a#", "<", ""), ("", "a# ? b# : ", "", "c"), ("", "a# ? ", "", "b"), ("a", ".b#", "", ""), ("a", "[#]", "", ""), ("a", "(#)", "", ""), ("a", ".b(#)", "\n", ""), ("a", "`#`", "", ""), ("new ", "new ", "", "a"), ("x = ", "- ", "", "a"), ("x = ", "!", "", "a"), ("", "typeof ", "", "a"), ("", "a# => ", "", "b"), ("", "a# = ", "", "b"),
    ("`", "a${#}", "", "`"), ("`", "${a#}", "", "b`"), ("`", "$", "", "`"), ("'", "a", "", "'"), ("'", "\\'", "", "'"), ("\"", "é", "", "\""), ("'", "\\\n", "", "'"), ("`", "\n", "", "`"), ("/", "a", "", "/g"), ("/", "[/]", "", "/"), ("/", "\\/", "", "/"), ("x = /", "é", "", "/"), ("x = ", "1", "", ""), ("x = 1", "0", "", ".5"), ("x = .", "0", "", "1"), ("x = 0x", "F", "", ""), ("x = 0b", "1", "", ""), ("x = 0o", "7", "", ""), ("x = 1e", "1", "", ""), ("", "a", "", ""), ("x.", "a", "", ".b"), ("", "é", "", ""), ("", "_", "", " = 1"), ("", "$", "", ""), ("var ", "aé", "", ""), ("{", "\t", "", "}"), ("//", "é", "", "\na"), ("/*", "*", "", "*/a"), ("/*", "/ ", "", "*/a"), ("a", "\u{a0}", "", "+b"), ("a", "\r\n", "", "b"), ("a\n", "\u{2028}", "", "++\nb"), ("a", ";", "\n", ""),
    ("switch (a) {", "case #: b#;", " ", "}"), ("switch (a) {", "case #:", "\n", " default: b}"), ("switch (a) { case 1:", "b#;", "", "}"), ("{", "a#;", "", "}"), ("function f() {", "a#", "\n", "}"), ("() => {", "a#;", "", "}"), ("", "if (a#) b#; else ", "", "c"), ("", "if (a#) ", "", "c; else d"), ("", "l#: ", "", "a"), ("", "while (a#) ", "", "b"), ("", "for (;;) ", "", "{ }"), ("", "for (x of y) ", "", "z"), ("", "do ", "", "x; while (y)"), ("try { ", "a#;", "", "} catch (e) { } finally { }"), ("", "try { } catch (e#) { }", "\n", ""),
    ("import {", "a#", ",", "} from 'm'"), ("import d, {", "a# as b#", ", ", "} from 'm';"), ("", "import 'm#'", "\n", ""), ("", "import {a#} from 'm'", ";", ""), ("", "function f#() {}", "", ""), ("", "class A# {}", " ", ""), ("", "(function() {})();", "", ""), ("", "x = {};", "", ""), ("", "var a# = #;", "", ""), ("", "var a# = #", "\n", ""), ("", "return a#;", "", ""), ("", "debugger;", " ", ""), ("", "a#++;", "", ""), ("", "a#\n++", "\n", "b"), ("", "/a#/;", "", ""), ("", "`#`;", "", ""), ("", "'#';", "", ""), ("x = ", "'#'", "+", ""), ("x = ", "/#/g", "/", ""), ("", "a#/b#/c", ";", ""),
];

pub const NESTS: &[(&str, &str, &str)] = &[
    ("(", "a", ")"), ("[", "a", "]"), ("x = [", "a", "]"), ("{", "a", "}"), ("x = {a:", "b", "}"), ("f(", "a", ")"), ("f(a, ", "b", ", c)"), ("a[", "b", "]"), ("a(b)[", "c", "].d"), ("`${", "a", "}`"), ("`x${", "{}", "}y`"), ("t`a${", "b", "}`"), ("function f() {", "a", "}"), ("(function() {", "a", "})"), ("a => {", "b", "}"), ("(a, b) => (", "c", ")"), ("class A { a() {", "b", "} }"), ("x = class { a = ", "b", "}"), ("x = {a() {", "b", "} }"),
    ("if (a) {", "b", "}"), ("if (a) {} else {", "b", "}"), ("while (a) {", "b", "}"), ("for (;;) {", "b", "}"), ("for (a of b) {", "c", "}"), ("do {", "a", "} while (b)"), ("switch (a) { case b: ", "c", "}"), ("try {", "a", "} catch (e) {}"), ("try {} catch (e) {", "a", "}"), ("try {} finally {", "a", "}"), ("l: {", "a", "}"), ("new (", "A", ")"), ("new A(", "b", ")"), ("- (", "a", ")"), ("a + (", "b", ")"), ("(", "a", ") + b"), ("(", "a", ")()"), ("(", "a", ").b"), ("(a ? ", "b", " : c)"), ("a ? ", "b", " : c"), ("a = ", "b", ""), ("a ** ", "b", ""), ("a, ", "b", ""), ("a ? b : ", "c", ""), ("{ [", "a", "] }"), ("f(() => ", "x", ")"), ("[...", "a", "]"), ("x = {...", "a", "}"), ("[a, ", "b", "] = c"), ("(class extends (", "A", ") {})"), ("if (a) ", "b", ""), ("if (a) b; else ", "c", ""),
];

/// Everything above.
pub fn common(tier: Tier) -> Vec<Task> {
    let mut v = tokens_of_everything(tier);
    v.extend(nestings(tier));
    v.extend(sequences(tier));
    v.extend(changes(tier));
    v.extend(characters(tier));
    v.extend(words(tier));
    v.extend(escapes(tier));
    v.extend(repetitions(tier));
    v.extend(mixed(tier));
    v
}

/// The parts that produce mostly valid programs, for checks that are expensive.
pub fn programs(tier: Tier) -> Vec<Task> {
    let mut v = tokens_of_everything(tier);
    v.extend(nestings(tier));
    v.extend(sequences(tier));
    v.extend(changes(tier));
    v.extend(words(tier));
    v.extend(escapes(tier));
    v.extend(repetitions(tier));
    v.extend(mixed(tier));
    v
}

pub fn scope_words(tier: Tier) -> String {
    let d = if tier == Tier::Quick { 0 } else { 1 };
    format!("all token sequences over 16 alphabets (11 to 70 tokens) that the model considers prefixes of programs, plus one arbitrary token, to depth {}..{} (3 for the alphabet of all tokens), with up to 6 completions of each; \
all nestings of {} expression contexts in {} statement contexts and in each other over {} atoms, of {} statement contexts in each other over {} statements, of {} binding contexts over nested patterns, of {} keys in {} places, of each token as a statement, binding, key, operator and operand in all of these; all pairs of {} statements; \
all single token edits, character edits, truncations and trivia insertions ({} trivia) of {} programs; all character sequences over 8 alphabets to length 3..{}, literals of all such contents in 55 other places; words near keywords in 56 places; escapes of 80 code points in all their forms, and broken ones, in 45 places; all escapes up to {:#x} in four; {} repeatable constructs repeated 0..{} and boundary counts times; {} constructs nested in themselves as often; {} kinds of list of 2..{} elements with one element of another sort in five places{}",
        4 + d, 5 + d, EXPR.len(), EXPR_IN_STMT.len(), ATOMS.len(), STMT.len(), STMTS.len(), BIND.len(), KEYS.len(), KEYED.len(), STMTS.len() + PROGRAMS.len(),
        TRIVIA.len(), PROGRAMS.len() + COMPACT.len(), 4 + d, if d == 0 { 0x3100 } else { 0x12000 }, REPEATS.len(), if d == 0 { 36 } else { 140 }, NESTS.len(), LISTS.len(), if d == 0 { 33 } else { 257 },
        if d == 0 { "" } else { "; one more level of nesting over the core contexts; all pairs of edits of 100 compact programs; all triples of statements" })
}
