//! Lexical grammar.

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tk {
    Eof,
    P(&'static str),
    /// Identifier or reserved word
    Word,
    Num,
    BinNum,
    Str,
    Regex,
    /// Part of a template up to and including "`" (false) or "${" (true)
    Tpl(bool),
    /// No token of the language starts here. True when it could still become one with more text.
    Illegal(bool),
    /// Outside of what this model defines
    Unspec(&'static str),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Tok {
    pub k: Tk,
    pub s: u32,
    pub e: u32,
    /// A line terminator precedes the token
    pub nl: bool,
}

pub fn is_line_terminator(c: char) -> bool { matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}') }

pub fn is_space(c: char) -> bool {
    matches!(c, '\t' | '\u{b}' | '\u{c}' | ' ' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}' | '\u{feff}')
}

fn id_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '$' || c == '_' || (!c.is_ascii() && c.is_alphabetic())
}

/// Some(true): continues an identifier, Some(false): does not, None: unspecified
fn id_part(c: char) -> Option<bool> {
    if c.is_ascii_alphanumeric() || c == '$' || c == '_' { return Some(true); }
    if c.is_ascii() { return if c == '\\' { None } else { Some(false) }; }
    if c.is_alphabetic() { return Some(true); }
    if is_space(c) || is_line_terminator(c) { return Some(false); }
    None
}

pub const PUNCT: &[&str] = &[
    ">>>=", "===", "!==", "**=", "<<=", ">>=", ">>>", "...",
    "=>", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "<<", ">>", "**", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=",
    "{", "}", "(", ")", "[", "]", ";", ",", "<", ">", "+", "-", "*", "/", "%", "&", "|", "^", "!", "~", "?", ":", "=", ".",
];

pub const RESERVED: &[&str] = &[
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export",
    "extends", "false", "finally", "for", "function", "if", "implements", "import", "in", "instanceof", "interface", "let",
    "new", "null", "package", "private", "protected", "public", "return", "static", "super", "switch", "this", "throw", "true",
    "try", "typeof", "var", "void", "while", "with", "yield",
];

pub fn is_reserved(w: &str) -> bool { RESERVED.binary_search(&w).is_ok() }

fn char_at(src: &str, i: usize) -> Option<char> { src[i..].chars().next() }

/// Skips white space and comments. Returns the position and whether a line terminator was seen,
/// or an error token.
fn skip(src: &str, mut i: usize) -> Result<(usize, bool), Tok> {
    let b = src.as_bytes();
    let mut nl = false;
    loop {
        let c = match b.get(i) { None => return Ok((i, nl)), Some(&c) => c };
        if c == b' ' { i += 1; continue; }
        if c == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            i += 2;
            while let Some(c) = char_at(src, i) {
                if c == '\0' { return Err(Tok { k: Tk::Unspec("NUL in comment"), s: i as u32, e: i as u32, nl }); }
                if is_line_terminator(c) { break; }
                i += c.len_utf8();
            }
            continue;
        }
        if c == b'/' && i + 1 < b.len() && b[i + 1] == b'*' {
            let start = i;
            i += 2;
            let start_nl = nl;
            loop {
                match char_at(src, i) {
                    None => return Err(Tok { k: Tk::Illegal(true), s: start as u32, e: i as u32, nl: start_nl }),
                    Some('\0') => return Err(Tok { k: Tk::Unspec("NUL in comment"), s: i as u32, e: i as u32, nl }),
                    Some('*') if b.get(i + 1) == Some(&b'/') => { i += 2; break; }
                    Some(c) => { if is_line_terminator(c) { nl = true; } i += c.len_utf8(); }
                }
            }
            continue;
        }
        if c > b' ' && c < 0x80 { return Ok((i, nl)); }
        let c = char_at(src, i).unwrap();
        if is_line_terminator(c) { nl = true; i += c.len_utf8(); }
        else if is_space(c) { i += c.len_utf8(); }
        else if (c as u32) < 0x20 && c != '\0' { return Err(Tok { k: Tk::Illegal(false), s: i as u32, e: i as u32 + 1, nl }); }
        else { return Ok((i, nl)); }
    }
}

fn tok(k: Tk, s: usize, e: usize, nl: bool) -> Tok { Tok { k, s: s as u32, e: e as u32, nl } }

/// The next token at or after `pos`, where a division may occur.
pub fn scan(src: &str, pos: usize) -> Tok {
    let (i, nl) = match skip(src, pos) { Ok(x) => x, Err(t) => return t };
    let b = src.as_bytes();
    let c = match b.get(i) { None => return tok(Tk::Eof, i, i, nl), Some(&c) => c };
    match c {
        b'a'..=b'z' | b'A'..=b'Z' | b'$' | b'_' => word(src, i, nl),
        b'0'..=b'9' => number(src, i, nl),
        b'.' if b.get(i + 1).map_or(false, |c| c.is_ascii_digit()) => number(src, i, nl),
        b'"' | b'\'' => string(src, i, nl),
        b'`' => template(src, i, nl),
        b'\\' => match id_escape(src, i, true) {
            Ok(Some(_)) => word(src, i, nl),
            Ok(None) => tok(Tk::Unspec("escape in identifier"), i, i + 1, nl),
            Err(eof) => tok(Tk::Illegal(eof), i, i + 1, nl),
        },
        b'#' => match char_at(src, i + 1) {
            None => tok(Tk::Illegal(true), i, i + 1, nl),
            Some('!') if i == 0 => tok(Tk::Unspec("hashbang"), i, i + 1, nl),
            Some(c) if c == '\\' || !c.is_ascii() || id_start(c) => tok(Tk::Unspec("private name"), i, i + 1, nl),
            _ => tok(Tk::Illegal(false), i, i + 1, nl),
        },
        0..=0x7f => {
            let rest = &src[i..];
            if rest.starts_with("??") || rest.starts_with("&&=") || rest.starts_with("||=") {
                return tok(Tk::Unspec("newer operator"), i, i + 2, nl);
            }
            if rest.starts_with("?.") && !rest[2..].starts_with(|c: char| c.is_ascii_digit()) {
                return tok(Tk::Unspec("optional chaining"), i, i + 2, nl);
            }
            for p in PUNCT {
                if rest.starts_with(p) { return tok(Tk::P(p), i, i + p.len(), nl); }
            }
            tok(Tk::Illegal(false), i, i + 1, nl)
        }
        _ => {
            let c = char_at(src, i).unwrap();
            if id_start(c) { word(src, i, nl) }
            else if c.is_alphanumeric() { tok(Tk::Unspec("number character"), i, i + c.len_utf8(), nl) }
            else { tok(Tk::Illegal(false), i, i + c.len_utf8(), nl) }
        }
    }
}

/// Length and code of the unicode escape whose backslash is at `i`; an error is true if the text ends in it.
fn unicode_escape(src: &str, i: usize) -> Result<(usize, u32), bool> {
    let rest = &src[i + 1..];
    let hex = |x: &str| x.bytes().all(|c| c.is_ascii_hexdigit());
    if rest.is_empty() { return Err(true); }
    let rest = match rest.strip_prefix('u') { Some(r) => r, None => return Err(false) };
    if let Some(x) = rest.strip_prefix('{') {
        let (x, closed) = match x.find('}') { Some(n) => (&x[..n], true), None => (x, false) };
        if !hex(x) || (x.is_empty() && closed) { return Err(false); }
        let digits = x.trim_start_matches('0');
        let code = if digits.len() > 6 { u32::MAX } else if digits.is_empty() { 0 } else { u32::from_str_radix(digits, 16).unwrap() };
        if code > 0x10ffff { return Err(false); }
        return if closed { Ok((4 + x.len(), code)) } else { Err(true) };
    }
    match rest.get(..4) {
        Some(x) if hex(x) => Ok((6, u32::from_str_radix(x, 16).unwrap())),
        Some(_) => Err(false),
        None => Err(rest.len() < 4 && hex(rest)),
    }
}

/// The character an escape stands for in an identifier and the length of the escape.
fn id_escape(src: &str, i: usize, first: bool) -> Result<Option<(usize, char)>, bool> {
    let (n, code) = unicode_escape(src, i)?;
    let c = char::from_u32(code).ok_or(false)?;
    if first && !id_start(c) && (c.is_ascii() || is_space(c) || is_line_terminator(c)) { return Err(false); }
    match id_part(c) {
        Some(true) => Ok(Some((n, c))),
        None if c != '\\' => Ok(None),
        _ => Err(false),
    }
}

/// A word with escapes, unless it would be one that has a meaning without them.
fn escaped_word(src: &str, s: usize, nl: bool) -> Tok {
    let mut plain = String::new();
    let mut i = s;
    while let Some(c) = char_at(src, i) {
        if c == '\\' {
            match id_escape(src, i, i == s) {
                Ok(Some((n, c))) => { plain.push(c); i += n; }
                Ok(None) => return tok(Tk::Unspec("escape in identifier"), s, i, nl),
                // the word ends here, and what follows is no token
                Err(_) => break,
            }
            continue;
        }
        match id_part(c) {
            Some(true) => { plain.push(c); i += c.len_utf8() }
            Some(false) => break,
            None => return tok(Tk::Unspec("identifier character"), s, i, nl),
        }
    }
    let special = ["get", "set", "of", "as", "from", "async", "await", "target", "meta", "constructor", "undefined", "arguments", "eval", "prototype", "__proto__"];
    let escaped = src[s..i].contains('\\');
    if escaped && (is_reserved(&plain) || special.contains(&&*plain)) { return tok(Tk::Unspec("escape in keyword"), s, i, nl); }
    tok(Tk::Word, s, i, nl)
}

fn word(src: &str, s: usize, nl: bool) -> Tok {
    let mut i = s;
    while let Some(c) = char_at(src, i) {
        if c == '\\' { return escaped_word(src, s, nl); }
        match id_part(c) {
            Some(true) => i += c.len_utf8(),
            Some(false) => break,
            None => return tok(Tk::Unspec("identifier character"), s, i, nl),
        }
    }
    tok(Tk::Word, s, i, nl)
}

fn number(src: &str, s: usize, nl: bool) -> Tok {
    let b = src.as_bytes();
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    let digits = |mut i: usize, f: fn(u8) -> bool| { while i < b.len() && f(b[i]) { i += 1; } i };
    let dec: fn(u8) -> bool = |c| c.is_ascii_digit();
    let mut kind = Tk::Num;
    let mut i;
    if at(s) == b'0' && matches!(at(s + 1), b'x' | b'X' | b'o' | b'O' | b'b' | b'B') {
        let f: fn(u8) -> bool = match at(s + 1) | 0x20 {
            b'x' => |c| c.is_ascii_hexdigit(),
            b'o' => |c| (b'0'..=b'7').contains(&c),
            _ => { kind = Tk::BinNum; |c| c == b'0' || c == b'1' }
        };
        i = digits(s + 2, f);
        if i == s + 2 { return tok(Tk::Illegal(i == b.len()), s, i, nl); }
    } else {
        i = digits(s, dec);
        // "010" is octal, but "019" is not
        let octal = i > s + 1 && at(s) == b'0' && b[s..i].iter().all(|c| *c < b'8');
        if at(i) == b'.' && !octal { i = digits(i + 1, dec); }
        if (at(i) == b'e' || at(i) == b'E') && !octal {
            i += 1;
            if at(i) == b'+' || at(i) == b'-' { i += 1; }
            let d = digits(i, dec);
            if d == i { return tok(Tk::Illegal(i == b.len()), s, i, nl); }
            i = d;
        }
    }
    // numeric separators and BigInt
    let more = |i: usize| char_at(src, i).map_or(false, |c| id_part(c) != Some(false));
    if at(i) == b'_' && at(i + 1).is_ascii_hexdigit() || at(i) == b'n' && !more(i + 1) { return tok(Tk::Unspec("number suffix"), s, i, nl); }
    if at(i) == b'\\' {
        return match id_escape(src, i, false) {
            Ok(Some(_)) => tok(Tk::Illegal(false), s, i, nl),
            Ok(None) => tok(Tk::Unspec("number suffix"), s, i, nl),
            Err(_) => tok(kind, s, i, nl),
        };
    }
    if let Some(c) = char_at(src, i) {
        match id_part(c) {
            Some(true) => return tok(Tk::Illegal(false), s, i, nl),
            Some(false) => {}
            None => return tok(Tk::Unspec("number suffix"), s, i, nl),
        }
    }
    tok(kind, s, i, nl)
}

/// Whether the text after a backslash at `i` is an escape sequence that is valid everywhere in
/// strict code; returns the position after it.
fn escape(src: &str, i: usize, template: bool) -> Result<usize, Tk> {
    let b = src.as_bytes();
    let hex = |j: usize| b.get(j).map_or(false, |c| c.is_ascii_hexdigit());
    match char_at(src, i) {
        None => Err(Tk::Illegal(true)),
        Some('\0') => Err(Tk::Unspec("NUL in literal")),
        Some('\r') => Ok(if b.get(i + 1) == Some(&b'\n') { i + 2 } else { i + 1 }),
        // those of tagged templates may be incomplete
        Some('x') if !template => {
            if hex(i + 1) && hex(i + 2) { return Ok(i + 3); }
            Err(Tk::Illegal(i + 1 == b.len() || hex(i + 1) && i + 2 == b.len()))
        }
        Some('u') if !template => match unicode_escape(src, i - 1) { Ok((n, _)) => Ok(i - 1 + n), Err(eof) => Err(Tk::Illegal(eof)) },
        Some('x') => if hex(i + 1) && hex(i + 2) { Ok(i + 3) } else { Err(Tk::Unspec("bad escape")) },
        Some('u') => {
            if (1..5).all(|k| hex(i + k)) { return Ok(i + 5); }
            if b.get(i + 1) == Some(&b'{') {
                let mut j = i + 2;
                while hex(j) { j += 1; }
                if j > i + 2 && j < i + 8 && b.get(j) == Some(&b'}')
                    && u32::from_str_radix(&src[i + 2..j], 16).map_or(false, |x| x <= 0x10ffff) { return Ok(j + 1); }
            }
            Err(Tk::Unspec("bad escape"))
        }
        Some('0') => if b.get(i + 1).map_or(false, |c| c.is_ascii_digit()) { Err(Tk::Unspec("bad escape")) } else { Ok(i + 1) },
        Some('1'..='9') => Err(Tk::Unspec("bad escape")),
        Some(c) => Ok(i + c.len_utf8()),
    }
}

fn string(src: &str, s: usize, nl: bool) -> Tok {
    let q = src.as_bytes()[s] as char;
    let mut i = s + 1;
    loop {
        match char_at(src, i) {
            None => return tok(Tk::Illegal(true), s, i, nl),
            Some('\n') | Some('\r') => return tok(Tk::Illegal(false), s, i, nl),
            Some('\0') => return tok(Tk::Unspec("NUL in literal"), s, i, nl),
            // octal escapes are fine outside of templates
            Some('\\') if src.as_bytes().get(i + 1).map_or(false, |c| c.is_ascii_digit()) => i += 2,
            Some('\\') => match escape(src, i + 1, false) { Ok(j) => i = j, Err(k) => return tok(k, s, src.len(), nl) },
            Some(c) => { i += c.len_utf8(); if c == q { return tok(Tk::Str, s, i, nl); } }
        }
    }
}

/// `s` is the position of the "`" or "}" that starts the part.
pub fn template(src: &str, s: usize, nl: bool) -> Tok {
    let mut i = s + 1;
    loop {
        match char_at(src, i) {
            None => return tok(Tk::Illegal(true), s, i, nl),
            Some('\0') => return tok(Tk::Unspec("NUL in literal"), s, i, nl),
            Some('`') => return tok(Tk::Tpl(false), s, i + 1, nl),
            Some('$') if src.as_bytes().get(i + 1) == Some(&b'{') => return tok(Tk::Tpl(true), s, i + 2, nl),
            Some('\\') => match escape(src, i + 1, true) { Ok(j) => i = j, Err(k) => return tok(k, s, src.len(), nl) },
            Some(c) => i += c.len_utf8(),
        }
    }
}

/// Regular expression literal starting with the "/" at `s`.
pub fn regex(src: &str, s: usize, nl: bool) -> Tok {
    let mut i = s + 1;
    let mut class = false;
    loop {
        match char_at(src, i) {
            None => return tok(Tk::Illegal(true), s, i, nl),
            Some('\0') => return tok(Tk::Unspec("NUL in literal"), s, i, nl),
            Some('\n') | Some('\r') | Some('\u{2028}') | Some('\u{2029}') => return tok(Tk::Illegal(false), s, i, nl),
            Some('\\') => {
                i += 1;
                match char_at(src, i) {
                    None => return tok(Tk::Illegal(true), s, i, nl),
                    Some('\n') | Some('\r') | Some('\u{2028}') | Some('\u{2029}') => return tok(Tk::Illegal(false), s, i, nl),
                    Some('\0') => return tok(Tk::Unspec("NUL in literal"), s, i, nl),
                    Some(c) => i += c.len_utf8(),
                }
            }
            Some('/') if !class => { i += 1; break; }
            Some(c) => {
                if c == '[' { class = true; }
                if c == ']' { class = false; }
                i += c.len_utf8();
            }
        }
    }
    let mut seen = [false; 128];
    while let Some(c) = char_at(src, i) {
        match id_part(c) {
            Some(false) => break,
            Some(true) if matches!(c, 'g' | 'i' | 'm' | 'u' | 'y') && !seen[c as usize] => { seen[c as usize] = true; i += 1; }
            Some(true) if matches!(c, 'g' | 'i' | 'm' | 'u' | 'y') => return tok(Tk::Illegal(false), s, i + 1, nl),
            _ => return tok(Tk::Unspec("regular expression flags"), s, i, nl),
        }
    }
    tok(Tk::Regex, s, i, nl)
}
