//! Enumerators of finite spaces of source texts.
use crate::engine::{Ctx, Task};
use crate::model::{self, lex, Tk};

// ------------------------------------------------------------------ token sequences

/// All token sequences over an alphabet that the model considers prefixes of programs,
/// extended by one arbitrary token of the alphabet, up to a depth. Prefixes are also
/// completed by closing what they left open.
pub struct Dfs {
    pub name: &'static str,
    /// Tokens that precede the sequence
    pub root: &'static str,
    /// White-space separated; `\n` stands for a line break
    pub alphabet: &'static str,
    pub depth: usize,
    pub complete: bool,
    /// Extend every sequence, not only viable ones
    pub all: bool,
    /// Text between tokens
    pub sep: &'static str,
}

impl Dfs {
    pub fn tasks(&self) -> Vec<Task> {
        let (root, depth, complete, all, sep) = (self.root, self.depth, self.complete, self.all, self.sep);
        let al: Vec<&'static str> = self.alphabet.split_whitespace().map(|t| match t { "\\n" => "\n", "\\s" => " ", t => t }).collect();
        let mut out = Vec::new();
        for i in 0..al.len() {
            for j in 0..al.len() {
                let al = al.clone();
                out.push(Task { name: format!("tokens {}", self.name), run: Box::new(move |cx| {
                    let mut s = String::from(root);
                    if j == 0 && i == 0 { if complete { completions(cx, &s); } cx.text(&s); }
                    push(&mut s, al[i], sep);
                    let v = cx.text(&s);
                    if j == 0 && complete && v { completions(cx, &s); }
                    if !(v || all) || depth < 2 { return; }
                    push(&mut s, al[j], sep);
                    dfs(cx, &mut s, &al, depth - 2, complete, all, sep);
                }) });
            }
        }
        out
    }
}

fn push(s: &mut String, t: &str, sep: &str) {
    if !s.is_empty() && !s.ends_with('\n') && t != "\n" { s.push_str(sep); }
    s.push_str(t);
}

fn dfs(cx: &mut Ctx, s: &mut String, al: &[&'static str], left: usize, complete: bool, all: bool, sep: &str) {
    let v = cx.text(s);
    if !(v || all) || cx.stopped() { return; }
    if complete { completions(cx, s); }
    if left == 0 { return; }
    let n = s.len();
    for t in al {
        if *t == "\n" && s.ends_with('\n') { continue; }
        push(s, t, sep);
        dfs(cx, s, al, left - 1, complete, all, sep);
        s.truncate(n);
    }
}

/// The prefix followed by the brackets that it leaves open, with a filler before them.
pub fn completions(cx: &mut Ctx, s: &str) {
    let m = model::parse(s);
    let mut open: Vec<char> = Vec::new();
    for t in &m.toks {
        let text = &s[t.s as usize..t.e as usize];
        match t.k {
            Tk::P("(") => open.push(')'),
            Tk::P("[") => open.push(']'),
            Tk::P("{") => open.push('}'),
            Tk::P(")") | Tk::P("]") | Tk::P("}") => { open.pop(); }
            Tk::Tpl(o) => {
                if text.starts_with('}') { open.pop(); }
                if o { open.push('`'); }
            }
            _ => {}
        }
    }
    for filler in ["", " x", " {}", " : x", " => x", " = x"] {
        if open.is_empty() && filler.is_empty() { continue; }
        let mut t = String::from(s);
        t.push_str(filler);
        for c in open.iter().rev() {
            match c { '`' => t.push_str("}`"), c => { t.push(' '); t.push(*c); } }
        }
        cx.text(&t);
        if open.last() == Some(&')') && open.len() == 1 {
            t.push_str(" {}");
            cx.text(&t);
            if t.starts_with("if") { t.push_str(" else z"); cx.text(&t); }
        }
    }
}

// ------------------------------------------------------------------ character sequences

/// All strings over an alphabet up to a length, between a prefix and a suffix.
pub struct Chars {
    pub name: &'static str,
    pub alphabet: &'static [&'static str],
    pub len: usize,
    pub around: &'static [(&'static str, &'static str)],
}

impl Chars {
    pub fn tasks(&self) -> Vec<Task> {
        let (al, len) = (self.alphabet, self.len);
        let mut out = Vec::new();
        for &(pre, suf) in self.around {
            for (i, _) in al.iter().enumerate() {
                for (j, _) in al.iter().enumerate() {
                    out.push(Task { name: format!("characters {}", self.name), run: Box::new(move |cx| {
                        let mut s = String::from(al[i]);
                        let mut t = String::new();
                        if j == 0 {
                            if i == 0 { wrap(cx, &mut t, pre, "", suf); }
                            wrap(cx, &mut t, pre, &s, suf);
                        }
                        if len < 2 { return; }
                        s.push_str(al[j]);
                        chars(cx, &mut s, &mut t, al, len - 2, pre, suf);
                    }) });
                }
            }
        }
        out
    }

    /// The same strings, for other uses.
    pub fn each(&self, shard: usize, shards: usize, f: &mut dyn FnMut(&str)) {
        fn go(s: &mut String, al: &[&str], left: usize, f: &mut dyn FnMut(&str)) {
            f(s);
            if left == 0 { return; }
            let n = s.len();
            for a in al { s.push_str(a); go(s, al, left - 1, f); s.truncate(n); }
        }
        for &(pre, suf) in self.around {
            if shard == 0 { f(&format!("{}{}", pre, suf)); }
            for (i, a) in self.alphabet.iter().enumerate() {
                if i % shards != shard { continue; }
                let mut s = a.to_string();
                go(&mut s, self.alphabet, self.len - 1, &mut |x| f(&format!("{}{}{}", pre, x, suf)));
            }
        }
    }
}

fn wrap(cx: &mut Ctx, t: &mut String, pre: &str, s: &str, suf: &str) {
    t.clear();
    t.push_str(pre);
    t.push_str(s);
    t.push_str(suf);
    cx.text(t);
}

fn chars(cx: &mut Ctx, s: &mut String, t: &mut String, al: &[&str], left: usize, pre: &str, suf: &str) {
    wrap(cx, t, pre, s, suf);
    if left == 0 || cx.stopped() { return; }
    let n = s.len();
    for a in al {
        s.push_str(a);
        chars(cx, s, t, al, left - 1, pre, suf);
        s.truncate(n);
    }
}

// ------------------------------------------------------------------ contexts

/// Every composition of one-hole contexts (marked `@`), of every level, filled with every fragment.
pub struct Contexts {
    pub name: &'static str,
    pub levels: Vec<&'static [&'static str]>,
    pub fill: Vec<String>,
}

impl Contexts {
    pub fn tasks(&self) -> Vec<Task> {
        let mut out = Vec::new();
        for i in 0..self.levels[0].len() {
            let levels = self.levels.clone();
            let fill = self.fill.clone();
            out.push(Task { name: format!("contexts {}", self.name), run: Box::new(move |cx| {
                compose(cx, levels[0][i], &levels[1..], &fill);
            }) });
        }
        out
    }
}

pub fn plug(c: &str, s: &str) -> String { c.replacen('@', s, 1) }

fn compose(cx: &mut Ctx, c: &str, levels: &[&'static [&'static str]], fill: &[String]) {
    if cx.stopped() { return; }
    match levels.split_first() {
        None => for f in fill { cx.text(&plug(c, f)); },
        Some((l, rest)) => {
            for x in l.iter() { compose(cx, &plug(c, x), rest, fill); }
        }
    }
}

/// All fragments of `list` plugged in themselves once.
pub fn nested(ctx: &[&str], atoms: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = atoms.iter().map(|s| s.to_string()).collect();
    for c in ctx { for a in atoms { v.push(plug(c, a)); } }
    v
}

/// Each text of a list.
pub fn texts(name: &'static str, list: Vec<String>) -> Vec<Task> {
    let n = (list.len() / 8).clamp(1, 4000);
    let mut out = Vec::new();
    for chunk in list.chunks(n) {
        let chunk = chunk.to_vec();
        out.push(Task { name: name.to_string(), run: Box::new(move |cx| for t in &chunk { cx.text(t); }) });
    }
    out
}

// ------------------------------------------------------------------ layout

/// Tokens of a text that the model accepts: their spans.
pub fn tokens(text: &str) -> Vec<(usize, usize)> {
    model::parse(text).toks.iter().map(|t| (t.s as usize, t.e as usize)).collect()
}

pub const TRIVIA: &[&str] = &[
    "", " ", "\n", "\r", "\r\n", "\u{2028}", "\u{2029}", "\t", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\u{1680}", "\u{2003}",
    "\u{202f}", "\u{205f}", "\u{3000}", "/**/", "/***/", "/* x */", "/*\n*/", "/*\r*/", "/*\u{2028}*/", "/*\u{2029}*/", "/*é*/", "//\n", "//x\r", "//\r\n", "//\u{2028}",
    "// é\u{2029}", "/**//**/", "/**/\n", "\n/**/", "/*/*/", "/**/ //\n/*\n*/", "/* // */", "// /*\n", "/*\u{2027}*/", "/*\u{e2}*/", "//\u{2027}\n",
];

/// A program with each combination of `gaps` of its gaps replaced by each trivia.
pub fn layouts(name: &'static str, programs: &'static [&'static str], trivia: &'static [&'static str], gaps: usize) -> Vec<Task> {
    let mut out = Vec::new();
    for p in programs {
        for t in 0..trivia.len() {
            out.push(Task { name: format!("layout {}", name), run: Box::new(move |cx| {
                let toks = tokens(p);
                let mut bounds = vec![(0usize, toks.first().map_or(p.len(), |t| t.0))];
                for (i, t) in toks.iter().enumerate() {
                    bounds.push((t.1, toks.get(i + 1).map_or(p.len(), |t| t.0)));
                }
                for (i, b) in bounds.iter().enumerate() {
                    let s = format!("{}{}{}", &p[..b.0], trivia[t], &p[b.1..]);
                    cx.text(&s);
                    if gaps > 1 {
                        for c in bounds[i + 1..].iter() {
                            for u in trivia {
                                cx.text(&format!("{}{}{}{}{}", &p[..b.0], trivia[t], &p[b.1..c.0], u, &p[c.1..]));
                            }
                            if cx.stopped() { return; }
                        }
                    }
                }
                // all gaps at once
                let mut s = String::new();
                for t2 in [trivia[t], " "] {
                    s.clear();
                    s.push_str(trivia[t]);
                    for (i, k) in toks.iter().enumerate() {
                        s.push_str(&p[k.0..k.1]);
                        s.push_str(if i % 2 == 0 { trivia[t] } else { t2 });
                    }
                    cx.text(&s);
                }
            }) });
        }
    }
    out
}

// ------------------------------------------------------------------ edits

/// Every single edit (or pair of edits) of the tokens of each program: a token deleted,
/// doubled, exchanged with the next, replaced or preceded by each token of an alphabet;
/// and every truncation.
pub fn edits(name: &'static str, programs: &'static [&'static str], alphabet: &'static str, double: bool) -> Vec<Task> {
    let mut out = Vec::new();
    for p in programs {
        let p: &'static str = p;
        let al: Vec<&'static str> = alphabet.split_whitespace().map(|t| if t == "\\n" { "\n" } else { t }).collect();
        let n = raw_tokens(p).len();
        let step = if double { 1 } else { n + 1 };
        for from in (0..=n).step_by(step) {
            let al = al.clone();
            out.push(Task { name: format!("edits {}", name), run: Box::new(move |cx| {
                let toks = raw_tokens(p);
                if from == 0 {
                    cx.text(p);
                    for (i, _) in p.char_indices() { cx.text(&p[..i]); cx.text(&p[i..]); }
                }
                edit(&toks, &al, from, (from + step).min(n + 1), &mut |t, at| {
                    cx.text(&t.join(" "));
                    if double && !cx.stopped() {
                        edit(&t, &al[..al.len().min(12)], at, t.len() + 1, &mut |t, _| { cx.text(&t.join(" ")); });
                    }
                });
            }) });
        }
    }
    out
}

fn edit<'s>(toks: &[&'s str], al: &[&'static str], from: usize, to: usize, f: &mut dyn FnMut(Vec<&'s str>, usize)) {
    for i in from..to {
        if i < toks.len() {
            let mut t = toks.to_vec(); t.remove(i); f(t, i);
            let mut t = toks.to_vec(); t.insert(i, toks[i]); f(t, i);
            if i + 1 < toks.len() { let mut t = toks.to_vec(); t.swap(i, i + 1); f(t, i); }
        }
        for a in al {
            let mut t = toks.to_vec(); t.insert(i, a); f(t, i + 1);
            if i < toks.len() { let mut t = toks.to_vec(); t[i] = a; f(t, i + 1); }
        }
    }
}

/// Tokens of any text, as far as they can be told apart without a parser.
pub fn raw_tokens(p: &str) -> Vec<&str> {
    let parsed = model::parse(p);
    let mut v: Vec<&str> = Vec::new();
    let mut pos = 0;
    for t in &parsed.toks {
        if t.nl { v.push("\n"); }
        v.push(&p[t.s as usize..t.e as usize]);
        pos = t.e as usize;
    }
    loop {
        let t = lex::scan(p, pos);
        if t.k == Tk::Eof || t.e as usize <= pos { break; }
        if t.nl { v.push("\n"); }
        v.push(&p[t.s as usize..t.e as usize]);
        pos = t.e as usize;
    }
    v
}

/// Every edit of a single character: deleted, doubled, or replaced or preceded by each of an alphabet.
pub fn char_edits(name: &'static str, programs: &'static [&'static str], alphabet: &'static [&'static str]) -> Vec<Task> {
    programs.iter().map(|p| {
        let p: &'static str = p;
        Task { name: format!("character edits {}", name), run: Box::new(move |cx| {
            for (i, c) in p.char_indices() {
                let j = i + c.len_utf8();
                cx.text(&format!("{}{}", &p[..i], &p[j..]));
                cx.text(&format!("{}{}", &p[..j], &p[i..]));
                for a in alphabet {
                    cx.text(&format!("{}{}{}", &p[..i], a, &p[j..]));
                    cx.text(&format!("{}{}{}", &p[..i], a, &p[i..]));
                }
                if cx.stopped() { return; }
            }
        }) }
    }).collect()
}
