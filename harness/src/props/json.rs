//! C04 and C11: the ESTree output.
use super::{short, suites};
use crate::conv;
use crate::corpus::*;
use crate::engine::{Check, Done, Property, Task, Tier};
use crate::gen::*;
use crate::model::{Outcome, Parsed};
use crate::term::{K, T};
use std::borrow::Cow;

#[derive(Clone, Debug)]
pub enum J<'a> { Null, Bool(bool), Num(f64), Str(Cow<'a, str>), Arr(Vec<J<'a>>), Obj(Vec<(Cow<'a, str>, J<'a>)>) }

impl<'a> J<'a> {
    /// Objects have their members sorted; the member that occurs twice, if any.
    fn sort(&mut self) -> Result<(), String> {
        match self {
            J::Arr(v) => for x in v { x.sort()?; },
            J::Obj(m) => {
                for (_, x) in m.iter_mut() { x.sort()?; }
                m.sort_by(|a, b| a.0.cmp(&b.0));
                for w in m.windows(2) { if w[0].0 == w[1].0 { return Err(format!("member {:?} occurs twice", w[0].0)); } }
            }
            _ => {}
        }
        Ok(())
    }
    fn same(&self, o: &J) -> bool {
        match (self, o) {
            (J::Null, J::Null) => true,
            (J::Bool(a), J::Bool(b)) => a == b,
            (J::Num(a), J::Num(b)) => a == b,
            (J::Str(a), J::Str(b)) => a == b,
            (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.same(b)),
            (J::Obj(a), J::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && a.1.same(&b.1)),
            _ => false,
        }
    }
    fn diff(&self, o: &J, path: &str) -> String {
        match (self, o) {
            (J::Arr(a), J::Arr(b)) if a.len() == b.len() => {
                for (i, (a, b)) in a.iter().zip(b).enumerate() { if !a.same(b) { return a.diff(b, &format!("{}[{}]", path, i)); } }
                String::new()
            }
            (J::Obj(a), J::Obj(b)) if a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0) => {
                for (a, b) in a.iter().zip(b) { if !a.1.same(&b.1) { return a.1.diff(&b.1, &format!("{}.{}", path, a.0)); } }
                String::new()
            }
            _ => format!("{} is {}, expected {}", path, short(&o.show()), short(&self.show())),
        }
    }
    pub fn show(&self) -> String {
        match self {
            J::Null => "null".into(),
            J::Bool(b) => b.to_string(),
            J::Num(n) => n.to_string(),
            J::Str(s) => format!("{:?}", s),
            J::Arr(v) => format!("[{}]", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
            J::Obj(v) => format!("{{{}}}", v.iter().map(|x| format!("{}:{}", x.0, x.1.show())).collect::<Vec<_>>().join(",")),
        }
    }
    pub fn get(&self, k: &str) -> Option<&J<'a>> {
        match self { J::Obj(m) => m.iter().find(|x| x.0 == k).map(|x| &x.1), _ => None }
    }
    fn str(&self, k: &str) -> &str { match self.get(k) { Some(J::Str(s)) => s, _ => "" } }
}

/// RFC 8259, strictly.
pub fn read(s: &str) -> Result<J<'_>, String> {
    let mut r = Read { s, b: s.as_bytes(), i: 0 };
    let j = r.value()?;
    r.ws();
    if r.i != r.b.len() { return Err(format!("not JSON: something follows at {}", r.i)); }
    Ok(j)
}

struct Read<'a> { s: &'a str, b: &'a [u8], i: usize }
impl<'a> Read<'a> {
    fn ws(&mut self) { while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') { self.i += 1; } }
    fn bad<X>(&self) -> Result<X, String> { Err(format!("not JSON at {}: {:?}", self.i, short(&self.s.chars().take(400).collect::<String>()))) }
    fn peek(&self) -> u8 { *self.b.get(self.i).unwrap_or(&0) }
    fn value(&mut self) -> Result<J<'a>, String> {
        self.ws();
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = Vec::with_capacity(8);
                self.ws();
                if self.peek() == b'}' { self.i += 1; return Ok(J::Obj(v)); }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' { return self.bad(); }
                    self.i += 1;
                    v.push((k, self.value()?));
                    self.ws();
                    match self.peek() { b',' => self.i += 1, b'}' => { self.i += 1; return Ok(J::Obj(v)); } _ => return self.bad() }
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.peek() == b']' { self.i += 1; return Ok(J::Arr(v)); }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    match self.peek() { b',' => self.i += 1, b']' => { self.i += 1; return Ok(J::Arr(v)); } _ => return self.bad() }
                }
            }
            b'"' => Ok(J::Str(self.string()?)),
            b't' if self.s[self.i..].starts_with("true") => { self.i += 4; Ok(J::Bool(true)) }
            b'f' if self.s[self.i..].starts_with("false") => { self.i += 5; Ok(J::Bool(false)) }
            b'n' if self.s[self.i..].starts_with("null") => { self.i += 4; Ok(J::Null) }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                let digits = |r: &mut Self| { let a = r.i; while r.peek().is_ascii_digit() { r.i += 1; } r.i > a };
                if self.peek() == b'-' { self.i += 1; }
                if self.peek() == b'0' { self.i += 1; } else if !digits(self) { return self.bad(); }
                if self.peek() == b'.' { self.i += 1; if !digits(self) { return self.bad(); } }
                if matches!(self.peek(), b'e' | b'E') { self.i += 1; if matches!(self.peek(), b'+' | b'-') { self.i += 1; } if !digits(self) { return self.bad(); } }
                match self.s[st..self.i].parse() { Ok(n) => Ok(J::Num(n)), Err(_) => self.bad() }
            }
            _ => self.bad(),
        }
    }
    fn string(&mut self) -> Result<Cow<'a, str>, String> {
        if self.peek() != b'"' { return self.bad(); }
        self.i += 1;
        let st = self.i;
        loop { match self.peek() { b'"' => { let r = &self.s[st..self.i]; self.i += 1; return Ok(Cow::Borrowed(r)); } b'\\' => break, 0..=0x1f => return self.bad(), _ => self.i += 1 } }
        let mut out = self.s[st..self.i].to_string();
        loop {
            match self.peek() {
                b'"' => { self.i += 1; return Ok(Cow::Owned(out)); }
                0..=0x1f => return self.bad(),
                b'\\' => {
                    self.i += 1;
                    let c = self.peek();
                    self.i += 1;
                    out.push(match c {
                        b'"' => '"', b'\\' => '\\', b'/' => '/', b'b' => '\u{8}', b'f' => '\u{c}', b'n' => '\n', b'r' => '\r', b't' => '\t',
                        b'u' => {
                            let mut u = self.hex()?;
                            if (0xd800..0xdc00).contains(&u) && self.s[self.i..].starts_with("\\u") { self.i += 2; let l = self.hex()?; u = 0x10000 + ((u - 0xd800) << 10) + l.wrapping_sub(0xdc00); }
                            match char::from_u32(u) { Some(c) => c, None => return self.bad() }
                        }
                        _ => return self.bad(),
                    });
                }
                _ => { let c = self.s[self.i..].chars().next().unwrap(); out.push(c); self.i += c.len_utf8(); }
            }
        }
    }
    fn hex(&mut self) -> Result<u32, String> {
        match self.s.get(self.i..self.i + 4).and_then(|h| u32::from_str_radix(h, 16).ok()) { Some(u) => { self.i += 4; Ok(u) } None => self.bad() }
    }
}

fn of_value(v: &serde_json::Value) -> J<'_> {
    use serde_json::Value as V;
    match v {
        V::Null => J::Null,
        V::Bool(b) => J::Bool(*b),
        V::Number(n) => J::Num(n.as_f64().unwrap_or(f64::NAN)),
        V::String(s) => J::Str(Cow::Borrowed(s)),
        V::Array(a) => J::Arr(a.iter().map(of_value).collect()),
        V::Object(o) => J::Obj(o.iter().map(|(k, v)| (Cow::Borrowed(k.as_str()), of_value(v))).collect()),
    }
}

/// The number a literal denotes (ECMAScript, correctly rounded).
pub fn number(raw: &str) -> f64 {
    let radix = match raw.as_bytes() { [b'0', b'x' | b'X', ..] => 4, [b'0', b'o' | b'O', ..] => 3, [b'0', b'b' | b'B', ..] => 1,
        // a zero makes it octal, unless there is an 8 or 9, point or exponent
        [b'0', rest @ ..] if !rest.is_empty() && rest.iter().all(|c| (b'0'..=b'7').contains(c)) => return number(&format!("0o{}", raw)), _ => 0 };
    if radix == 0 { return raw.parse().unwrap_or(f64::NAN); }
    // all bits, most significant first
    let mut bits: Vec<bool> = Vec::new();
    for c in raw[2..].chars() {
        let d = c.to_digit(16).unwrap();
        for i in (0..radix).rev() { bits.push(d >> i & 1 == 1); }
    }
    let first = match bits.iter().position(|b| *b) { Some(f) => f, None => return 0.0 };
    let bits = &bits[first..];
    let n = bits.len();
    if n > 1024 { return f64::INFINITY; }
    let mut m: u64 = 0;
    for i in 0..53 { m = m << 1 | (*bits.get(i).unwrap_or(&false)) as u64; }
    if n > 53 {
        let half = bits[53];
        let more = bits[54.min(n)..].iter().any(|b| *b);
        if half && (more || m & 1 == 1) { m += 1; }
    }
    // m * 2^(n - 53)
    let mut v = m as f64;
    for _ in 53..n { v *= 2.0; }
    for _ in n..53 { v /= 2.0; }
    v
}

fn s(x: &str) -> J<'_> { J::Str(Cow::Borrowed(x)) }

/// Members of a node; the location is added by `node`.
macro_rules! obj { ($t:expr, $ty:expr, $($k:literal : $v:expr),* $(,)?) => { node($t, $ty, vec![$((Cow::Borrowed($k), $v)),*]) } }

fn node<'a>(t: &T<'a>, ty: &'a str, mut m: Vec<(Cow<'a, str>, J<'a>)>) -> J<'a> {
    m.push((Cow::Borrowed("type"), s(ty)));
    m.push((Cow::Borrowed("start"), J::Num(t.s as f64)));
    m.push((Cow::Borrowed("end"), J::Num(t.e as f64)));
    J::Obj(m)
}

fn list<'a>(v: &[T<'a>]) -> J<'a> { J::Arr(v.iter().map(estree).collect()) }

/// Holes are null, without the ones at the end.
fn holes<'a>(v: &[T<'a>]) -> J<'a> {
    let mut v: Vec<J> = v.iter().map(|t| if matches!(t.k, K::Void | K::BVoid) { J::Null } else { estree(t) }).collect();
    while let Some(J::Null) = v.last() { v.pop(); }
    J::Arr(v)
}

fn ident<'a>(t: &T<'a>) -> J<'a> { obj!(t, "Identifier", "name": s(t.v)) }

fn key<'a>(t: &T<'a>) -> J<'a> { if t.k == K::KComp { estree(&t.c[0]) } else { ident(t) } }

fn function<'a>(t: &T<'a>, ty: &'a str) -> J<'a> {
    obj!(t, ty, "generator": J::Bool(t.v == "*"), "id": estree(&t.c[0]), "params": list(&t.c[1].c), "body": estree(&t.c[2]))
}

fn class<'a>(t: &T<'a>, ty: &'a str) -> J<'a> {
    obj!(t, ty, "id": estree(&t.c[0]), "superClass": estree(&t.c[1]), "body": obj!(&t.c[2], "ClassBody", "body": list(&t.c[2].c)))
}

fn values(raw: &str) -> J<'_> { let n = number(raw); if n.is_finite() { J::Num(n) } else { J::Null } }

/// The parts of a regular expression literal.
fn regex(raw: &str) -> J<'_> {
    let e = raw.rfind('/').unwrap();
    J::Obj(vec![("pattern".into(), s(&raw[1..e])), ("flags".into(), s(&raw[e + 1..]))])
}

/// The ESTree of a term of the implementation's AST. Patterns below object patterns
/// are expressions in that AST, and in its ESTree.
pub fn estree<'a>(t: &T<'a>) -> J<'a> {
    let c = &t.c;
    match t.k {
        K::None => J::Null,
        K::List => list(c),
        K::This => obj!(t, "ThisExpression",),
        K::Ident | K::Name | K::PShort | K::BIdent | K::BShort => ident(t),
        K::Num | K::Bin => obj!(t, "Literal", "value": values(t.v), "raw": s(t.v)),
        K::Str => obj!(t, "Literal", "value": s(&t.v[1..t.v.len() - 1]), "raw": s(t.v)),
        K::Regex => obj!(t, "Literal", "regex": regex(t.v), "raw": s(t.v)),
        K::True => obj!(t, "Literal", "value": J::Bool(true), "raw": s("true")),
        K::False => obj!(t, "Literal", "value": J::Bool(false), "raw": s("false")),
        K::Null => obj!(t, "Literal", "value": J::Null, "raw": s("null")),
        K::Undef => obj!(t, "Literal", "raw": s("undefined")),
        K::Seq => obj!(t, "SequenceExpression", "expressions": list(c)),
        K::Arr => obj!(t, "ArrayExpression", "elements": holes(c)),
        K::Member => obj!(t, "MemberExpression", "object": estree(&c[0]), "property": estree(&c[1]), "computed": J::Bool(false)),
        K::Comp => obj!(t, "MemberExpression", "object": estree(&c[0]), "property": estree(&c[1]), "computed": J::Bool(true)),
        K::Meta => obj!(t, "MetaProperty", "meta": estree(&c[0]), "property": estree(&c[1])),
        K::Call => obj!(t, "CallExpression", "callee": estree(&c[0]), "arguments": list(&c[1..])),
        K::New => obj!(t, "NewExpression", "callee": estree(&c[0]), "arguments": list(&c[1..])),
        K::Binary => {
            let ty = match t.v { "&&" | "||" => "LogicalExpression", "==" | "===" | "!=" | "!==" | "<=" | ">=" => "BinaryExpression", o if o.ends_with('=') => "AssignmentExpression", _ => "BinaryExpression" };
            obj!(t, ty, "operator": s(t.v), "left": estree(&c[0]), "right": estree(&c[1]))
        }
        K::Pre => obj!(t, if t.v == "++" || t.v == "--" { "UpdateExpression" } else { "UnaryExpression" }, "operator": s(t.v), "argument": estree(&c[0]), "prefix": J::Bool(true)),
        K::Post => obj!(t, "UpdateExpression", "operator": s(t.v), "argument": estree(&c[0]), "prefix": J::Bool(false)),
        K::Cond => obj!(t, "ConditionalExpression", "test": estree(&c[0]), "consequent": estree(&c[1]), "alternate": estree(&c[2])),
        K::Tpl => {
            let n = c.iter().filter(|q| q.k == K::Quasi).count();
            let q = c.iter().filter(|q| q.k == K::Quasi).enumerate().map(|(i, q)| {
                let inner = T { s: q.s + 1, e: q.e - 1, ..T::none() };
                obj!(&inner, "TemplateElement", "tail": J::Bool(i + 1 == n), "value": J::Obj(vec![("raw".into(), s(q.v)), ("cooked".into(), s(q.v))]))
            }).collect();
            obj!(t, "TemplateLiteral", "quasis": J::Arr(q), "expressions": J::Arr(c.iter().filter(|q| q.k != K::Quasi).map(estree).collect()))
        }
        K::Tagged => obj!(t, "TaggedTemplateExpression", "tag": estree(&c[0]), "quasi": estree(&c[1])),
        K::Spread => obj!(t, "SpreadElement", "argument": estree(&c[0])),
        K::Arrow => obj!(t, "ArrowFunctionExpression", "params": list(&c[0].c), "body": estree(&c[1])),
        K::Obj => obj!(t, "ObjectExpression", "properties": list(c)),
        K::PLit | K::PMeth => obj!(t, "Property", "key": key(&c[0]), "method": J::Bool(t.k == K::PMeth), "shorthand": J::Bool(false),
            "computed": J::Bool(c[0].k == K::KComp), "value": estree(&c[1]), "kind": s("init")),
        K::BProp => obj!(t, "Property", "key": key(&c[0]), "method": J::Bool(false), "shorthand": J::Bool(false),
            "computed": J::Bool(c[0].k == K::KComp), "value": in_object_pattern(&c[1]), "kind": s("init")),
        K::PSpread => obj!(t, "SpreadProperty", "argument": estree(&c[0])),
        K::Func => function(t, "FunctionExpression"),
        K::FnDecl => function(t, "FunctionDeclaration"),
        K::Class => class(t, "ClassExpression"),
        K::ClassDecl => class(t, "ClassDeclaration"),
        K::Method => obj!(t, "MethodDefinition", "kind": s(t.v.strip_prefix("static ").unwrap_or(t.v)), "static": J::Bool(t.v.starts_with("static ")),
            "computed": J::Bool(c[0].k == K::KComp), "key": key(&c[0]), "value": estree(&c[1])),
        K::Field => obj!(t, "PropertyDefinition", "static": J::Bool(t.v == "static"), "computed": J::Bool(c[0].k == K::KComp), "key": key(&c[0]), "value": estree(&c[1])),
        K::BObj => obj!(t, "ObjectPattern", "keys": J::Arr(c.iter().map(|m| if m.k == K::BRest { obj!(m, "SpreadProperty", "argument": in_object_pattern(&m.c[0])) } else { estree(m) }).collect())),
        K::BArr => obj!(t, "ArrayPattern", "elements": holes(c)),
        K::BRest => obj!(t, "RestElement", "argument": estree(&c[0])),
        K::BAssign => obj!(t, "AssignmentPattern", "left": estree(&c[0]), "right": estree(&c[1])),
        K::Empty => obj!(t, "EmptyStatement",),
        K::Debugger => obj!(t, "DebuggerStatement",),
        K::Expr => obj!(t, "ExpressionStatement", "expression": estree(&c[0])),
        K::Decl => obj!(t, "VariableDeclaration", "kind": s(t.v), "declarations": list(c)),
        K::Dtor => obj!(t, "VariableDeclarator", "id": estree(&c[0]), "init": estree(&c[1])),
        K::Return => obj!(t, "ReturnStatement", "argument": estree(&c[0])),
        K::Throw => obj!(t, "ThrowStatement", "argument": estree(&c[0])),
        K::Break => obj!(t, "BreakStatement", "label": estree(&c[0])),
        K::Continue => obj!(t, "ContinueStatement", "label": estree(&c[0])),
        K::If => obj!(t, "IfStatement", "test": estree(&c[0]), "consequent": estree(&c[1]), "alternate": estree(&c[2])),
        K::While => obj!(t, "WhileStatement", "test": estree(&c[0]), "body": estree(&c[1])),
        K::Do => obj!(t, "DoWhileStatement", "body": estree(&c[0]), "test": estree(&c[1])),
        K::For => obj!(t, "ForStatement", "init": head(&c[0]), "test": estree(&c[1]), "update": estree(&c[2]), "body": estree(&c[3])),
        K::ForIn => obj!(t, "ForInStatement", "left": head(&c[0]), "right": estree(&c[1]), "body": estree(&c[2])),
        K::ForOf => obj!(t, "ForOfStatement", "left": head(&c[0]), "right": estree(&c[1]), "body": estree(&c[2])),
        K::Try => obj!(t, "TryStatement", "block": estree(&c[0]), "handler": estree(&c[1]), "finalizer": estree(&c[2])),
        K::Catch => obj!(t, "CatchClause", "param": estree(&c[0]), "body": estree(&c[1])),
        K::Block => obj!(t, "BlockStatement", "body": list(c)),
        K::Labeled => obj!(t, "LabeledStatement", "label": s(t.v), "body": estree(&c[0])),
        K::Switch => obj!(t, "SwitchStatement", "discriminant": estree(&c[0]), "cases": list(&c[1].c)),
        K::Case => obj!(t, "SwitchCase", "test": estree(&c[0]), "consequent": list(&c[1].c)),
        K::Import => obj!(t, "ImportDeclaration", "specifiers": list(c), "source": s(t.v)),
        K::ImpDef => obj!(t, "ImportDefaultSpecifier", "local": estree(&c[0])),
        K::ImpNs => obj!(t, "ImportNamespaceSpecifier", "local": estree(&c[0])),
        K::ImpSpec => obj!(t, "ImportSpecifier", "imported": estree(&c[0]), "local": estree(&c[1])),
        K::Program => {
            let (st, e) = match (c.first(), c.last()) { (Some(f), Some(l)) => (f.s, l.e), _ => (0, 0) };
            let at = T { s: st, e, ..T::none() };
            obj!(&at, "Program", "body": list(c))
        }
        K::KLit | K::KBin | K::KComp => key(t),
        // never part of a tree
        K::Void | K::BVoid | K::Quasi | K::ErrMember => s("impossible"),
    }
}

/// The head of a `for` statement: an expression has the location of the head.
fn head<'a>(t: &T<'a>) -> J<'a> {
    if t.k != K::Expr { return estree(t); }
    let e = T { s: t.s, e: t.e, ..t.c[0].clone() };
    estree(&e)
}

/// A pattern that is the value of a property of an object pattern.
fn in_object_pattern<'a>(t: &T<'a>) -> J<'a> {
    let c = &t.c;
    let inner = |v: &[T<'a>]| -> J<'a> {
        let mut v: Vec<J> = v.iter().map(|t| if matches!(t.k, K::Void | K::BVoid) { J::Null } else { in_object_pattern(t) }).collect();
        while let Some(J::Null) = v.last() { v.pop(); }
        J::Arr(v)
    };
    match t.k {
        K::BArr => obj!(t, "ArrayExpression", "elements": inner(c)),
        K::BObj => obj!(t, "ObjectExpression", "properties": J::Arr(c.iter().map(|m| if m.k == K::BRest { obj!(m, "SpreadProperty", "argument": in_object_pattern(&m.c[0])) } else { estree(m) }).collect())),
        K::BRest => obj!(t, "SpreadElement", "argument": in_object_pattern(&c[0])),
        K::BAssign => obj!(t, "AssignmentExpression", "operator": s("="), "left": in_object_pattern(&c[0]), "right": estree(&c[1])),
        _ => estree(t),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum What { All, Keys, Values }

/// The part of the output that a property is about.
fn part(j: &J, what: What, out: &mut Vec<String>) {
    match j {
        J::Arr(v) => for x in v { part(x, what, out); },
        J::Obj(m) => {
            match (what, j.str("type")) {
                (What::Values, "Literal") => out.push(format!("{} = {}{}", j.str("raw"), j.get("value").map_or("-".into(), |v| v.show()), j.get("regex").map_or(String::new(), |v| v.show()))),
                (What::Values, "TemplateElement") => out.push(format!("`{}", j.get("value").map_or(String::new(), |v| v.show()))),
                (What::Keys, "ObjectExpression") | (What::Keys, "ObjectPattern") | (What::Keys, "ClassBody") => {
                    for k in ["properties", "keys", "body"] {
                        if let Some(J::Arr(v)) = j.get(k) {
                            for p in v {
                                let key = match p.get("key") { Some(k) if k.str("type") == "Identifier" => k.str("name").to_string(), Some(_) => "[]".into(), None => p.str("name").to_string() };
                                let flag = |n| match p.get(n) { Some(J::Bool(true)) => n, Some(J::Str(s)) => s.as_ref(), _ => "" }.to_string();
                                out.push(format!("{} {} {} {} {} {} {}", p.str("type"), flag("kind"), flag("static"), flag("computed"), flag("method"), flag("shorthand"), key));
                            }
                            out.push(";".into());
                        }
                    }
                }
                _ => {}
            }
            for (_, x) in m { part(x, what, out); }
        }
        _ => {}
    }
}

/// The compact form alone, whose size is linear in the depth.
pub fn check_compact(text: &str, m: &Parsed) -> Check {
    let module = match ratel::parse(text) { Ok(m) => m, Err(_) => return Ok(Done::Skipped) };
    let t = conv::program(module.body());
    match m.out { Outcome::Ok(ref e) if e.same(&t) => {}, _ => return Ok(Done::Skipped) }
    let out = serde_json::to_string(&module).map_err(|e| format!("serialization failed: {}", e))?;
    let mut got = read(&out)?;
    let mut want = estree(&t);
    want.sort()?;
    got.sort()?;
    if want.same(&got) { Ok(Done::Compared) } else { Err(want.diff(&got, "")) }
}

/// A valid text that is rejected, but not with other literals (or keys) in place of those it has.
pub fn rejected(text: &str, m: &Parsed, literals: bool) -> Check {
    fn all(t: &T, literals: bool, out: &mut Vec<(usize, usize, &'static str)>) {
        let (s, e) = (t.s as usize, t.e as usize);
        match t.k {
            K::Num | K::Bin if literals => out.push((s, e, " 0 ")),
            K::Str if literals => out.push((s, e, "''")),
            K::Regex if literals => out.push((s, e, " /a/ ")),
            K::Quasi if literals => out.push((s, e, "")),
            K::KLit | K::KBin | K::PShort | K::BShort if !literals => out.push((s, e, " a ")),
            _ => for c in &t.c { all(c, literals, out); },
        }
    }
    let t = match m.out { Outcome::Ok(ref t) => t, _ => return Ok(Done::Skipped) };
    let mut l = Vec::new();
    all(t, literals, &mut l);
    l.retain(|x| x.0 <= x.1 && x.1 <= text.len() && text.is_char_boundary(x.0) && text.is_char_boundary(x.1));
    if l.is_empty() { return Ok(Done::Skipped); }
    l.sort();
    let mut plain = String::new();
    let mut at = 0;
    for (s, e, r) in l {
        if s < at { return Ok(Done::Skipped); }
        plain.push_str(&text[at..s]);
        plain.push_str(r);
        at = e;
    }
    plain.push_str(&text[at..]);
    if plain != text && ratel::parse(&plain).is_ok() { return Err(format!("rejected, but {:?} is accepted", short(&plain))); }
    Ok(Done::Skipped)
}

/// Compares all forms of the output of an accepted text with what its AST denotes.
pub fn check(text: &str, m: &Parsed, what: What) -> Check {
    let module = match ratel::parse(text) {
        Ok(m) => m,
        Err(_) => return if what == What::All { Ok(Done::Skipped) } else { rejected(text, m, what == What::Values) },
    };
    let t = conv::program(module.body());
    let open = match m.out {
        // what a program means is that of the model, if it has an opinion
        Outcome::Ok(ref e) => if what == What::All && !e.same(&t) { return Ok(Done::Skipped); } else { false },
        _ => true,
    };
    let e1 = |e: serde_json::Error| format!("serialization failed: {}", e);
    let compact = serde_json::to_string(&module).map_err(e1)?;
    // literals are those of the text, whatever became of them in the AST
    let mut want = estree(match m.out { Outcome::Ok(ref e) if what == What::Values => e, _ => &t });
    want.sort()?;
    let mut differs = |got: &mut J, how: &str| -> Result<(), String> {
        got.sort().map_err(|e| format!("{} output: {}", how, e))?;
        if want.same(got) { return Ok(()); }
        if what != What::All {
            let (mut a, mut b) = (Vec::new(), Vec::new());
            part(&want, what, &mut a);
            part(got, what, &mut b);
            if what == What::Values { a.sort(); b.sort(); }
            if a == b { return Ok(()); }
            return Err(format!("{} output has {}, expected {}", how, short(&b.join(", ")), short(&a.join(", "))));
        }
        Err(format!("{} output: {}", how, want.diff(got, "")))
    };
    differs(&mut read(&compact)?, "compact")?;
    if what == What::All {
        let pretty = serde_json::to_string_pretty(&module).map_err(e1)?;
        differs(&mut read(&pretty)?, "pretty")?;
        let value = serde_json::to_value(&module).map_err(e1)?;
        differs(&mut of_value(&value), "to_value")?;
        // and as any other format gets it
        let mut strict = super::strict::value(&module).map_err(|e| format!("serialization: {}", e))?;
        differs(&mut strict, "serde")?;
    }
    Ok(if open { Done::Skipped } else { Done::Compared })
}

pub struct C11;
impl Property for C11 {
    fn id(&self) -> &'static str { "C11" }
    fn scope(&self, t: Tier) -> String { format!("writers that fail after each number of bytes, for {} programs; {}", kinds().len(), suites::scope_words(t)) }
    fn text(&self, text: &str, m: &Parsed) -> Check { check(text, m, What::All) }
    fn case(&self, kind: &str, data: &str) -> Check {
        // a writer that fails after each number of bytes, or takes one byte at a time
        assert_eq!(kind, "writer");
        let module = match ratel::parse(data) { Ok(m) => m, Err(_) => return Ok(Done::Skipped) };
        for pretty in [false, true] {
            let write = |w: &mut Sink| if pretty { serde_json::to_writer_pretty(w, &module) } else { serde_json::to_writer(w, &module) };
            let out = if pretty { serde_json::to_string_pretty(&module) } else { serde_json::to_string(&module) }.map_err(|e| format!("serialization failed: {}", e))?;
            // in pretty output most places are white space, and the same code writes it
            for k in (0..=out.len()).filter(|k| !pretty || k % 7 == 0 || *k == out.len()) {
                let mut w = Sink { room: k, got: Vec::new(), most: usize::MAX, failed: false };
                let r = write(&mut w);
                if r.is_ok() != (k == out.len()) {
                    return Err(format!("a writer with room for {} of {} bytes: {}", k, out.len(), if r.is_ok() { "no error" } else { "an error" }));
                }
                if w.got != out.as_bytes()[..k] { return Err(format!("a writer with room for {} of {} bytes got something else", k, out.len())); }
            }
            let mut w = Sink { room: out.len(), got: Vec::new(), most: 1, failed: false };
            if write(&mut w).is_err() || w.got != out.as_bytes() { return Err("a writer that takes one byte at a time got something else".into()); }
        }
        Ok(Done::Compared)
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let mut v = suites::common(tier);
        for part in 0..16 {
            v.push(Task { name: "failing writers".into(), run: Box::new(move |cx| {
                for p in kinds().iter().skip(part).step_by(16) {
                    if cx.stopped() { return; }
                    cx.case("writer", p, p.len() as u64 * 20);
                }
            }) });
        }
        v
    }
}

struct Sink { room: usize, got: Vec<u8>, most: usize, failed: bool }
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.most).min(self.room - self.got.len());
        // only once: who goes on after an error is seen
        if n == 0 && !b.is_empty() && !self.failed { self.failed = true; self.room = usize::MAX; return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

pub struct C04;
impl Property for C04 {
    fn id(&self) -> &'static str { "C04" }
    fn scope(&self, t: Tier) -> String {
        format!("all spellings over the characters of numbers to length {}, of each radix to 70 digits with each first and last digits; strings, templates and regular expressions over their alphabets to length {}; {}",
            if t == Tier::Quick { 5 } else { 6 }, if t == Tier::Quick { 5 } else { 6 }, suites::scope_words(t))
    }
    fn text(&self, text: &str, m: &Parsed) -> Check { check(text, m, What::Values) }
    fn case(&self, kind: &str, data: &str) -> Check {
        // a literal alone: its value, whatever else the output has
        assert_eq!(kind, "number");
        let text = format!("x = {};", data);
        let module = match ratel::parse(&text) { Ok(m) => m, Err(e) => return Err(format!("rejected: {:?}", e)) };
        let out = serde_json::to_string(&module).map_err(|e| e.to_string())?;
        let j = read(&out)?;
        let mut got = Vec::new();
        part(&j, What::Values, &mut got);
        let want = format!("{} = {}", data, values(data).show());
        if got != [want.clone()] { return Err(format!("has {}, expected {}", got.join(", "), want)); }
        Ok(Done::Compared)
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let q = tier == Tier::Quick;
        let mut v = Vec::new();
        let n = if q { 5 } else { 6 };
        let ch = |v: &mut Vec<Task>, name, alphabet, len, around| v.extend(Chars { name, alphabet, len, around }.tasks());
        ch(&mut v, "numbers", NUM, n, &[("x=", "")]);
        ch(&mut v, "strings", STRC, n, &[("x='", "'"), ("x=\"", "\"")]);
        ch(&mut v, "templates", TPLC, n, &[("x=`", "`")]);
        ch(&mut v, "regular expressions", REGC, n, &[("x=/", "/g"), ("x=/", "/")]);
        v.push(Task { name: "long numbers".into(), run: Box::new(move |cx| {
            let each = |radix: u32, prefixes: &[&str], longest: usize, cx: &mut crate::engine::Ctx| {
                let dig = |d: u32| char::from_digit(d % radix, radix).unwrap();
                let mut bodies: Vec<String> = Vec::new();
                for len in 1..=longest {
                    for first in 1..radix.min(10) { for mid in [0, 1, radix / 2, radix - 1] { for last in [0, 1, radix / 2, radix - 1] {
                        let mut b = String::new();
                        for i in 0..len { b.push(dig(if i == 0 { first } else if i + 1 == len { last } else { mid })); }
                        bodies.push(b);
                    } } }
                }
                for b in bodies { for p in prefixes {
                    cx.case("number", &format!("{}{}", p, b), 1);
                    if b.bytes().any(|c| c > b'9') { cx.case("number", &format!("{}{}", p, b.to_uppercase()), 1); }
                } if cx.stopped() { return; } }
            };
            let m = if q { 72 } else { 300 };
            each(16, &["0x", "0X"], m, cx);
            each(8, &["0o", "0O", "0", "00"], m, cx);
            each(2, &["0b", "0B"], m * 2, cx);
            each(10, &["", "0"], m, cx);
            // around every power of two: halfway cases of rounding
            for p in 50..if q { 140 } else { 1030 } {
                for d in [-3i32, -2, -1, 0, 1, 2, 3] { for low in 0..4 {
                    for (radix, prefix, bits) in [(16, "0x", 4), (8, "0o", 3), (8, "0", 3), (2, "0b", 1)] {
                        // 1 0..0 x 0..0 y, with x around the last bit of the mantissa
                        let mut b = vec![false; p + 1];
                        b[0] = true;
                        let at = 52 + d;
                        if at > 0 && (at as usize) < b.len() { b[at as usize] = true; }
                        if low & 1 == 1 { *b.last_mut().unwrap() = true; }
                        if low & 2 == 2 { for x in b.iter_mut().take(52) { *x = true; } }
                        while b.len() % bits != 0 { b.insert(0, false); }
                        let s: String = b.chunks(bits).map(|c| char::from_digit(c.iter().fold(0, |n, x| n * 2 + *x as u32), radix).unwrap()).collect();
                        cx.case("number", &format!("{}{}", prefix, s), 1);
                    }
                } }
            }
            // decimal forms
            for i in ["0", "1", "9", "10", "255", "08", "019", "00090", "9007199254740993", "18446744073709551615", "18446744073709551616", "123456789012345678901234567890"] {
                cx.case("number", i, 1);
                for f in ["", "0", "5", "1", "000001", "25", "999999999999999999999"] {
                    cx.case("number", &format!("{}.{}", i, f), 1);
                    if !f.is_empty() { cx.case("number", &format!(".{}", f), 1); }
                    for e in ["e", "E"] { for s in ["", "+", "-"] { for x in ["0", "1", "2", "10", "21", "22", "100", "300", "308", "309", "323", "324", "400", "1000", "007"] {
                        cx.case("number", &format!("{}.{}{}{}{}", i, f, e, s, x), 1);
                        cx.case("number", &format!("{}{}{}{}", i, e, s, x), 1);
                        if !f.is_empty() { cx.case("number", &format!(".{}{}{}{}", f, e, s, x), 1); }
                    } } }
                }
            }
            for n in 0..if q { 70000u32 } else { 1 << 20 } { cx.case("number", &n.to_string(), 1); cx.case("number", &format!("{:#x}", n), 1); cx.case("number", &format!("{:#o}", n), 1); cx.case("number", &format!("0{:o}", n), 1); cx.case("number", &format!("0{}", n), 1); cx.case("number", &format!("{:#b}", n), 1); if cx.stopped() { return; } }
        }) });
        v.extend(suites::common(tier));
        v
    }
}
