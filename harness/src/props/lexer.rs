//! C02, C03: the lexer.
use super::{short, suites};
use crate::corpus::*;
use crate::engine::{Check, Done, Property, Task, Tier};
use crate::gen::*;
use crate::model::lex::{self, Tk, Tok};
use crate::model::{Outcome, Parsed};
use ratel::lexer::{Asi, Lexer, Token};
use std::cell::RefCell;
use std::collections::HashMap;

// ------------------------------------------------------------------ memory with guards

/// Pages without access, data pages, pages without access.
struct Guarded { data: *mut u8, size: usize }

impl Guarded {
    fn new(size: usize) -> Guarded {
        let page = 4096;
        let guard = 16 * page;
        let size = (size + page - 1) / page * page;
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), size + 2 * guard, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED);
            let data = (p as *mut u8).add(guard);
            assert!(libc::mprotect(data as *mut _, size, libc::PROT_READ | libc::PROT_WRITE) == 0);
            Guarded { data, size }
        }
    }
    /// The text right behind the first guard.
    fn at_start(&self, text: &str) -> *const u8 { unsafe { self.put(self.data, text) } }
    /// The text and its terminator right before the second guard.
    fn at_end(&self, text: &str) -> *const u8 { unsafe { self.put(self.data.add(self.size - text.len() - 1), text) } }
    unsafe fn put(&self, p: *mut u8, text: &str) -> *const u8 {
        std::ptr::copy_nonoverlapping(text.as_ptr(), p, text.len());
        *p.add(text.len()) = 0;
        p
    }
}

thread_local! { static GUARDED: RefCell<Option<Guarded>> = RefCell::new(None); }

fn guarded<R>(text: &str, f: impl FnOnce(&Guarded) -> R) -> R {
    GUARDED.with(|g| {
        let mut g = g.borrow_mut();
        if g.as_ref().map_or(true, |g| g.size < text.len() + 1) { *g = Some(Guarded::new((text.len() + 1).max(1 << 14))); }
        f(g.as_ref().unwrap())
    })
}

// ------------------------------------------------------------------ C02

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Op { Consume, Regex, Template, Accessor, Invalid }
const OPS: &[Op] = &[Op::Consume, Op::Regex, Op::Template, Op::Accessor, Op::Invalid];

/// A slice the lexer handed out is part of the text.
fn inside(what: &str, s: &str, text: &str, base: *const u8) -> Result<(), String> {
    if s.is_empty() { return Ok(()); }
    let (p, b) = (s.as_ptr() as usize, base as usize);
    if p < b || p + s.len() > b + text.len() {
        return Err(format!("{} covers bytes {}..{} of a text of {}", what, p as i64 - b as i64, p as i64 - b as i64 + s.len() as i64, text.len()));
    }
    let (i, j) = (p - b, p - b + s.len());
    if !text.is_char_boundary(i) || !text.is_char_boundary(j) { return Err(format!("{} {}..{} is not on character boundaries", what, i, j)); }
    Ok(())
}

fn perform(lex: &mut Lexer, op: Op, text: &str, base: *const u8) -> Result<(), String> {
    match op {
        Op::Consume => lex.consume(),
        Op::Regex => { let s = lex.read_regular_expression(); inside("regular expression", s, text, base)?; }
        Op::Template => { lex.read_template_kind(); inside("template part", lex.quasi, text, base)?; }
        Op::Accessor => { lex.read_accessor(); inside("accessor", lex.accessor_as_str(), text, base)?; }
        Op::Invalid => {
            let (s, e) = lex.loc();
            let err = lex.invalid_token();
            if (err.start, err.end) != (s as usize, e as usize) || text.get(err.start..err.end) != Some(&*err.raw) {
                return Err(format!("invalid token {}..{} with text {:?} at {}..{}", err.start, err.end, err.raw, s, e));
            }
        }
    }
    let (s, e) = (lex.start() as usize, lex.end() as usize);
    if s > e || e > text.len() { return Err(format!("token {:?} at {}..{} of a text of {}", lex.token, s, e, text.len())); }
    inside("token", lex.token_as_str(), text, base)?;
    inside("quasi", lex.quasi, text, base)?;
    Ok(())
}

/// All states of the lexer that any sequence of operations reaches: every operation in every state.
fn search(text: &str, base: *const u8, ops: &[Op], max: usize) -> Result<usize, String> {
    let mut seen: HashMap<(u32, u32, Token2), ()> = HashMap::new();
    let mut todo: Vec<Vec<Op>> = vec![vec![]];
    let mut steps = 0;
    while let Some(path) = todo.pop() {
        let mut lex = unsafe { Lexer::from_ptr(base) };
        let r = (|| {
            let e = lex.end() as usize;
            if e > text.len() { return Err(format!("first token ends at {}", e)); }
            inside("token", lex.token_as_str(), text, base)?;
            for op in &path { perform(&mut lex, *op, text, base)?; }
            Ok(())
        })();
        if let Err(m) = r { return Err(format!("{} after {:?}", m, path)); }
        steps += 1;
        if seen.insert((lex.start(), lex.end(), Token2(lex.token)), ()).is_some() { continue; }
        if seen.len() > max { return Ok(steps); }
        for op in ops {
            let mut p = path.clone();
            p.push(*op);
            todo.push(p);
        }
    }
    Ok(steps)
}

#[derive(PartialEq)]
struct Token2(Token);
impl Eq for Token2 {}
impl std::hash::Hash for Token2 { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (self.0 as u32).hash(h) } }

pub struct C02;
impl Property for C02 {
    fn id(&self) -> &'static str { "C02" }
    fn scope(&self, tier: Tier) -> String {
        format!("every state the real lexer reaches by any sequence of its operations (next token, read a regular expression, continue a template, read a member name, take an error) on each text, for texts of up to {} bytes; in-context operations and plain tokens on longer texts; each text once ending and once starting at a page without access. Texts: {}; all strings of characters including NUL and multi-byte ones, to length {}; every prefix and suffix of every program; long tokens",
            STATE_MAX, suites::scope_words(tier), if tier == Tier::Quick { 4 } else { 5 })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["an access outside of the text and its terminator is seen when it touches a page without access: reads past the end are always seen, reads before the start are seen in the placement at a page start".into(),
            "the state of the lexer is identified by its token and span".into(),
            "the code under test is built without optimisation, which its own unsafe code needs".into()]
    }
    fn text(&self, text: &str, m: &Parsed) -> Check {
        if text.contains('\0') {
            // The text ends at its first NUL as far as the lexer can know.
            let t = &text[..text.find('\0').unwrap()];
            return self.check(t, None);
        }
        self.check(text, Some(m))
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let d = if tier == Tier::Quick { 0 } else { 1 };
        let mut v = suites::common(tier);
        let ch = |v: &mut Vec<Task>, name, alphabet, len, around| v.extend(Chars { name, alphabet, len, around }.tasks());
        ch(&mut v, "ends", ENDS, 3 + d, &[("", "")]);
        ch(&mut v, "ends few", ENDS_FEW, 5 + d, &[("", "")]);
        ch(&mut v, "in template", ENDS_FEW, 4 + d, &[("`${a}", ""), ("`", ""), ("/", ""), ("a.", ""), ("/*", ""), ("//", ""), ("'", ""), ("a./*", ""), ("0", ""), ("in", "")]);
        // every prefix and suffix, of every program
        let mut l = Vec::new();
        for p in PROGRAMS.iter().chain(COMPACT.iter()) {
            for (i, _) in p.char_indices() { l.push(p[..i].to_string()); l.push(p[i..].to_string()); }
        }
        // every prefix of every word, after and before everything short
        for w in lex::RESERVED {
            for i in 1..=w.len() {
                for pre in ["", "a ", "a.", "`${", "/", "é", "\u{2028}", "\n"] { for suf in ["", "é", "\u{2028}", "\\", "1", "\u{a0}", "\u{feff}", "\u{1F600}"] { l.push(format!("{}{}{}", pre, &w[..i], suf)); } }
            }
        }
        v.extend(texts("prefixes", l));
        v.extend(unicode(tier));
        // long tokens, which cross pages
        let mut l = Vec::new();
        for (pre, unit) in LONG {
            for n in [1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1000, 4093, 4094, 4095, 4096, 4097, 8191, 8192, 8193] {
                l.push(format!("{}{}", pre, unit.repeat(n)));
            }
        }
        v.extend(texts("long", l));
        v
    }
}

const STATE_MAX: usize = 24;
const ENDS: &[&str] = &["a", "1", "0", ".", "e", "x", "b", "o", "'", "\"", "\\", "`", "$", "{", "}", "/", "*", "\n", "\r", " ", "=", "+", "-", "<", ">", "!", "&", "|", "[", "]", "é", "\u{2028}", "\u{a0}", "\u{feff}", "\u{1680}", "\u{3000}", "\u{205f}", "\u{1F600}", "\u{200}", "\u{E000}", "\u{2FFF}", "\u{F000}", "n", "i", "@", "#", "\u{7f}", "\0", "?", "^", "%", "~", ":"];
const ENDS_FEW: &[&str] = &["a", "0", ".", "'", "\\", "`", "$", "{", "/", "*", "\n", "e", "[", "é", "\u{2028}", "\u{1F600}"];
const LONG: &[(&str, &str)] = &[("", "a"), ("", "é"), ("", "1"), ("0x", "F"), ("0b", "1"), ("1.", "2"), ("1e", "3"), ("'", "a"), ("'", "\\'"), ("\"", "é"), ("`", "a"), ("`", "\\`"), ("`", "$"), ("//", "a"), ("//", "é"), ("/*", "a"), ("/*", "*"), ("/*", "\n"), ("/", "a"), ("/[", "/"), ("/", "\\/"), ("a.", " "), ("a.", "/**/"), ("a.", "b"), ("", " "), ("", "\n"), ("", "\u{2028}"), ("", "\u{a0}"), ("", "/**/"), ("`", "${"), ("", "("), ("", "\\"), ("", "."), ("", "@")];

impl C02 {
    fn check(&self, text: &str, m: Option<&Parsed>) -> Check {
        guarded(text, |g| {
            for end in [true, false] {
                let base = if end { g.at_end(text) } else { g.at_start(text) };
                if text.len() <= STATE_MAX { search(text, base, OPS, 400)?; }
                else {
                    // plain tokens, and the first of each kind of reading in every state
                    let mut lex = unsafe { Lexer::from_ptr(base) };
                    let mut n = 0;
                    while lex.token != Token::EndOfProgram {
                        perform(&mut lex, Op::Consume, text, base)?;
                        n += 1;
                        if n > text.len() + 2 { return Err("more tokens than characters".into()); }
                    }
                    perform(&mut lex, Op::Consume, text, base)?;
                    for op in [Op::Regex, Op::Template, Op::Accessor] {
                        let mut lex = unsafe { Lexer::from_ptr(base) };
                        let mut n = 0;
                        while lex.token != Token::EndOfProgram {
                            let before = lex.end();
                            perform(&mut lex, op, text, base)?;
                            if lex.end() == before || lex.token != Token::EndOfProgram { perform(&mut lex, Op::Consume, text, base)?; }
                            n += 1;
                            if n > text.len() + 2 { return Err("more tokens than characters".into()); }
                        }
                    }
                }
                if let Some(m) = m {
                    // as the parser reads it
                    let mut lex = unsafe { Lexer::from_ptr(base) };
                    for t in &m.toks {
                        match t.k {
                            Tk::Regex if lex.token == Token::OperatorDivision || lex.token == Token::OperatorDivideAssign => perform(&mut lex, Op::Regex, text, base)?,
                            Tk::Tpl(_) if lex.token == Token::BraceClose => perform(&mut lex, Op::Template, text, base)?,
                            _ => {}
                        }
                        perform(&mut lex, Op::Consume, text, base)?;
                    }
                }
            }
            Ok(Done::Compared)
        })
    }
}

/// Every character, in the places where the lexer looks at one.
fn unicode(tier: Tier) -> Vec<Task> {
    let around: &'static [(&'static str, &'static str)] = if tier == Tier::Quick { &[("", ""), ("a", ""), ("a.", "")] }
        else { &[("", ""), ("a", ""), ("a.", ""), ("", "a"), ("'", "'"), ("`", "`"), ("x=/", "/"), ("//", "\na"), ("/*", "*/a"), ("1", ""), ("a\u{2028}", "b"), ("in", ""), ("a.b", "c"), ("a. ", " b"), ("'\\", "'")] };
    let max = if tier == Tier::Quick { 0x11000u32 } else { 0x110000 };
    let mut out = Vec::new();
    for lo in (0..max).step_by(0x1000) {
        out.push(Task { name: "every character".into(), run: Box::new(move |cx| {
            for c in lo..lo + 0x1000 {
                let Some(c) = char::from_u32(c) else { continue };
                for (a, b) in around { cx.text(&format!("{}{}{}", a, c, b)); }
                if cx.stopped() { return; }
            }
        }) });
    }
    if tier == Tier::Quick {
        // the rest by the ends of blocks
        out.push(Task { name: "every character".into(), run: Box::new(move |cx| {
            for c in 0x11000u32..0x110000 {
                if c & 0xff != 0 && c & 0xff != 0xff { continue; }
                let Some(c) = char::from_u32(c) else { continue };
                for (a, b) in around { cx.text(&format!("{}{}{}", a, c, b)); }
            }
        }) });
    }
    out
}

// ------------------------------------------------------------------ C03

fn punct(p: &str) -> Option<Token> {
    use Token::*;
    Some(match p {
        "{" => BraceOpen, "}" => BraceClose, "(" => ParenOpen, ")" => ParenClose, "[" => BracketOpen, "]" => BracketClose, ";" => Semicolon, "," => Comma, ":" => Colon,
        "=>" => OperatorFatArrow, "++" => OperatorIncrement, "--" => OperatorDecrement, "!" => OperatorLogicalNot, "~" => OperatorBitwiseNot,
        "*" => OperatorMultiplication, "/" => OperatorDivision, "%" => OperatorRemainder, "**" => OperatorExponent, "+" => OperatorAddition, "-" => OperatorSubtraction,
        "<<" => OperatorBitShiftLeft, ">>" => OperatorBitShiftRight, ">>>" => OperatorUBitShiftRight, "<" => OperatorLesser, "<=" => OperatorLesserEquals, ">" => OperatorGreater, ">=" => OperatorGreaterEquals,
        "===" => OperatorStrictEquality, "!==" => OperatorStrictInequality, "==" => OperatorEquality, "!=" => OperatorInequality,
        "&" => OperatorBitwiseAnd, "^" => OperatorBitwiseXor, "|" => OperatorBitwiseOr, "&&" => OperatorLogicalAnd, "||" => OperatorLogicalOr, "?" => OperatorConditional,
        "=" => OperatorAssign, "+=" => OperatorAddAssign, "-=" => OperatorSubtractAssign, "**=" => OperatorExponentAssign, "*=" => OperatorMultiplyAssign, "/=" => OperatorDivideAssign, "%=" => OperatorRemainderAssign,
        "<<=" => OperatorBSLAssign, ">>=" => OperatorBSRAssign, ">>>=" => OperatorUBSRAssign, "&=" => OperatorBitAndAssign, "^=" => OperatorBitXorAssign, "|=" => OperatorBitOrAssign, "..." => OperatorSpread,
        _ => return None,
    })
}

fn word(w: &str) -> Token {
    use Token::*;
    match w {
        "new" => OperatorNew, "typeof" => OperatorTypeof, "void" => OperatorVoid, "delete" => OperatorDelete, "instanceof" => OperatorInstanceof, "in" => OperatorIn,
        "var" => DeclarationVar, "let" => DeclarationLet, "const" => DeclarationConst,
        "break" => Break, "do" => Do, "case" => Case, "else" => Else, "catch" => Catch, "export" => Export, "class" => Class, "extends" => Extends, "return" => Return, "while" => While,
        "finally" => Finally, "super" => Super, "with" => With, "continue" => Continue, "for" => For, "switch" => Switch, "yield" => Yield, "debugger" => Debugger, "function" => Function,
        "this" => This, "default" => Default, "if" => If, "throw" => Throw, "import" => Import, "try" => Try, "static" => Static,
        "true" => LiteralTrue, "false" => LiteralFalse, "null" => LiteralNull, "undefined" => LiteralUndefined,
        "enum" => ReservedEnum, "implements" => ReservedImplements, "package" => ReservedPackage, "protected" => ReservedProtected, "interface" => ReservedInterface, "private" => ReservedPrivate, "public" => ReservedPublic,
        _ => Identifier,
    }
}

/// Compares the lexer's current token with the model's; `next` is the one after it, `s` and `e` the
/// span the model gives it.
fn same(lex: &Lexer, text: &str, want: Token, s: u32, e: u32, nl: Option<bool>) -> Result<(), String> {
    if lex.token != want || lex.loc() != (s, e) {
        return Err(format!("token {:?} at {:?}, expected {:?} at {:?} {:?}", lex.token, lex.loc(), want, (s, e), short(&text[s as usize..e as usize])));
    }
    if lex.token_as_str() != &text[s as usize..e as usize] { return Err(format!("token text {:?} at {}..{}", short(lex.token_as_str()), s, e)); }
    if let Some(nl) = nl {
        let asi = match want {
            Token::Semicolon => "explicit",
            Token::ParenClose | Token::BraceClose | Token::EndOfProgram => "implicit",
            _ if nl => "implicit",
            _ => "none",
        };
        let got = match lex.asi() { Asi::ExplicitSemicolon => "explicit", Asi::ImplicitSemicolon => "implicit", Asi::NoSemicolon => "none" };
        if asi != got { return Err(format!("semicolon before {:?} at {}..{} is {}, expected {}", want, s, e, got, asi)); }
    }
    Ok(())
}

/// Without context: every "/" is a division, every "}" a brace.
fn raw(text: &str) -> Check {
    let arena = toolshed::Arena::new();
    let mut lex = Lexer::new(&arena, text);
    let mut pos = 0;
    let mut n = 0;
    loop {
        let t = lex::scan(text, pos);
        match t.k {
            Tk::Illegal(_) | Tk::Unspec(_) => return Ok(if n > 0 { Done::Compared } else { Done::Skipped }),
            Tk::Eof => {
                same(&lex, text, Token::EndOfProgram, t.s, t.e, Some(t.nl))?;
                lex.consume();
                same(&lex, text, Token::EndOfProgram, t.s, t.e, None)?;
                return Ok(Done::Compared);
            }
            Tk::P(".") => {
                let u = lex::scan(text, t.e as usize);
                if u.k != Tk::Word { return Ok(Done::Compared); }
                accessor(&lex, text, &t, &u)?;
                pos = u.e as usize;
            }
            _ => {
                same(&lex, text, kind(&t, text), t.s, t.e, Some(t.nl))?;
                quasi(&lex, text, &t)?;
                pos = t.e as usize;
            }
        }
        lex.consume();
        n += 1;
    }
}

fn kind(t: &Tok, text: &str) -> Token {
    match t.k {
        Tk::P(p) => punct(p).expect("punctuator"),
        Tk::Word => word(&text[t.s as usize..t.e as usize]),
        Tk::Num => Token::LiteralNumber,
        Tk::BinNum => Token::LiteralBinary,
        Tk::Str => Token::LiteralString,
        Tk::Regex => Token::LiteralRegEx,
        Tk::Tpl(true) => Token::TemplateOpen,
        Tk::Tpl(false) => Token::TemplateClosed,
        Tk::Eof | Tk::Illegal(_) | Tk::Unspec(_) => Token::EndOfProgram,
    }
}

fn accessor(lex: &Lexer, text: &str, dot: &Tok, name: &Tok) -> Result<(), String> {
    same(lex, text, Token::Accessor, dot.s, name.e, Some(dot.nl))?;
    let n = &text[name.s as usize..name.e as usize];
    if lex.accessor_as_str() != n { return Err(format!("member name {:?}, expected {:?}", short(lex.accessor_as_str()), n)); }
    Ok(())
}

fn quasi(lex: &Lexer, text: &str, t: &Tok) -> Result<(), String> {
    if let Tk::Tpl(open) = t.k {
        let q = &text[t.s as usize + 1..t.e as usize - if open { 2 } else { 1 }];
        if lex.quasi != q { return Err(format!("template text {:?}, expected {:?}", short(lex.quasi), q)); }
    }
    Ok(())
}

/// With the context that the model has: regular expressions and continued templates are read where they are.
fn in_context(text: &str, m: &Parsed) -> Result<(), String> {
    let arena = toolshed::Arena::new();
    let mut lex = Lexer::new(&arena, text);
    let mut i = 0;
    while i < m.toks.len() {
        let t = &m.toks[i];
        i += 1;
        match t.k {
            Tk::Regex => {
                let first = if text[t.s as usize..].starts_with("/=") { Token::OperatorDivideAssign } else { Token::OperatorDivision };
                same(&lex, text, first, t.s, t.s + if first == Token::OperatorDivision { 1 } else { 2 }, Some(t.nl))?;
                let r = lex.read_regular_expression();
                if r != &text[t.s as usize..t.e as usize] { return Err(format!("regular expression {:?}, expected {:?}", short(r), &text[t.s as usize..t.e as usize])); }
                same(&lex, text, Token::LiteralRegEx, t.s, t.e, Some(t.nl))?;
            }
            Tk::Tpl(_) if text.as_bytes()[t.s as usize] == b'}' => {
                same(&lex, text, Token::BraceClose, t.s, t.s + 1, Some(t.nl))?;
                lex.read_template_kind();
                same(&lex, text, kind(t, text), t.s, t.e, None)?;
                quasi(&lex, text, t)?;
            }
            Tk::P(".") => {
                let u = match m.toks.get(i) { Some(u) if u.k == Tk::Word => u, _ => return Ok(()) };
                accessor(&lex, text, t, u)?;
                i += 1;
            }
            Tk::Eof => { same(&lex, text, Token::EndOfProgram, t.s, t.e, Some(t.nl))?; return Ok(()); }
            Tk::Illegal(_) | Tk::Unspec(_) => return Ok(()),
            _ => {
                same(&lex, text, kind(t, text), t.s, t.e, Some(t.nl))?;
                quasi(&lex, text, t)?;
            }
        }
        lex.consume();
    }
    if let Outcome::Ok(_) = m.out {
        if lex.token != Token::EndOfProgram { return Err(format!("token {:?} at {:?} after the last", lex.token, lex.loc())); }
    }
    Ok(())
}

pub struct C03;
impl Property for C03 {
    fn id(&self) -> &'static str { "C03" }
    fn scope(&self, tier: Tier) -> String {
        format!("plain token sequences of every text up to the first character sequence that is no token, and in-context ones (regular expressions, continued templates) of every text up to the first error: kind, span, text, member name, template text and semicolon rule of each token. Texts: {}; all {} of {} token spellings with nothing, a blank or a line break between them; all pairs of {} trivia between {} pairs of tokens; all characters to length {}; every {} character in {} places",
            suites::scope_words(tier), if tier == Tier::Quick { "pairs and core triples" } else { "triples" }, SPELLINGS.len(), TRIVIA.len(), PAIRS.len(), if tier == Tier::Quick { "3..5" } else { "4..6" },
            if tier == Tier::Quick { "16-bit" } else { "Unicode" }, if tier == Tier::Quick { 3 } else { 15 })
    }
    fn text(&self, text: &str, m: &Parsed) -> Check {
        if text.contains('\0') { return Ok(Done::Skipped); }
        in_context(text, m)?;
        raw(text)
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let d = if tier == Tier::Quick { 0 } else { 1 };
        let mut v = suites::common(tier);
        let ch = |v: &mut Vec<Task>, name, alphabet, len, around| v.extend(Chars { name, alphabet, len, around }.tasks());
        ch(&mut v, "lex deep", LEX, 3 + d, &[("", ""), ("a", "b")]);
        ch(&mut v, "punctuation deep", PUN, 5 + d, &[("a", "b"), ("", "")]);
        ch(&mut v, "ends", ENDS, 3 + d, &[("", ""), ("a.", "b"), ("a", " b")]);
        ch(&mut v, "trivia deep", TRIV, 5 + d, &[("a", "b"), ("a.", "b")]);
        ch(&mut v, "numbers deep", NUM, 5 + d, &[("", ""), ("a", "")]);
        v.extend(unicode(tier));
        // spellings side by side
        let mut l = Vec::new();
        for a in SPELLINGS { for b in SPELLINGS { for s in ["", " ", "\n", "/**/", "\u{2028}"] {
            l.push(format!("{}{}{}", a, s, b));
        } } }
        v.extend(texts("pairs of spellings", l));
        let third: &'static [&'static str] = if tier == Tier::Quick { &SPELLINGS[..26] } else { SPELLINGS };
        for a in SPELLINGS {
            v.push(Task { name: "triples of spellings".into(), run: Box::new(move |cx| {
                for b in SPELLINGS { for c in third { for (s, t) in [("", ""), (" ", ""), ("", " "), ("\n", " ")] {
                    cx.text(&format!("{}{}{}{}{}", a, s, b, t, c));
                } } if cx.stopped() { return; } }
            }) });
        }
        let mut l = Vec::new();
        for (a, b) in PAIRS { for t in TRIVIA { for u in TRIVIA {
            l.push(format!("{}{}{}{}", a, t, u, b));
            l.push(format!("{}{}{}{}{}", t, a, t, b, u));
        } } }
        if tier == Tier::Thorough { for (a, b) in PAIRS.iter().take(6) { for t in TRIVIA { for u in TRIVIA { for w in TRIVIA { l.push(format!("{}{}{}{}{}", a, t, u, w, b)); } } } } }
        v.extend(texts("trivia", l));
        v
    }
}

const PAIRS: &[(&str, &str)] = &[("a", "b"), ("a", "++"), (")", "("), ("}", "/"), ("1", "."), ("a.", "b"), ("'s'", "`t`"), ("return", "1"), ("a", ".b"), ("in", ";"), ("/", "="), ("`${", "}`"), ("a", "é"), ("a", "")];

const SPELLINGS: &[&str] = &[
    "a", "1", "in", "'s'", "`t`", "0x1", "1.5", "é", "`${", ".b", "}", "/", "=", "+", "-", "*", "<", ">", "&", "|", "!", ".", "new", "typeof", "1.", ".5",
    "=>", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "<<", ">>", "**", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", ">>>=", "===", "!==", "**=", "<<=", ">>=", ">>>", "...",
    "{", "(", ")", "[", "]", ";", ",", "%", "^", "~", "?", ":", "\"d\"", "0b1", "0o7", "1e3", "instanceof", "undefined", "i", "let", "static", "$", "_a", "null", "if", "0", "1e+1", "ab1", "''", "ñ1",
];
