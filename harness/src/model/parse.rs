//! Syntactic grammar: recursive descent, one function per production.
use super::lex::{self, Tk, Tok};
use crate::term::{DC, K, T};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stop {
    /// The program is not valid: the token at pos..end can't follow what precedes it.
    Reject { pos: u32, end: u32, eof: bool, late: bool },
    /// The model doesn't define whether or how this is accepted.
    Unspec(&'static str),
}

pub enum Outcome<'s> {
    Ok(T<'s>),
    Stop(Stop),
}

pub struct Parsed<'s> {
    pub out: Outcome<'s>,
    /// Every token consumed, in order
    pub toks: Vec<Tok>,
    /// Some continuation of the text may change the verdict
    pub viable: bool,
}

type R<'s> = Result<T<'s>, Stop>;

struct P<'s> {
    src: &'s str,
    cur: Tok,
    toks: Vec<Tok>,
    /// Last parenthesised list or identifier that can turn out to be arrow parameters:
    /// its first token's position, number of tokens consumed after it, and the parameters.
    cover: Option<(u32, usize, Vec<T<'s>>)>,
    depth: u32,
    /// Where `import` stands at the beginning of an expression statement
    import_at: u32,
    /// Number of `a = b` in objects, which have to become patterns
    defaults: usize,
}

pub fn parse(src: &str) -> Parsed<'_> {
    let mut p = P { src, cur: lex::scan(src, 0), toks: Vec::new(), cover: None, depth: 0, import_at: u32::MAX, defaults: 0 };
    let out = match p.program() { Ok(t) => Outcome::Ok(t), Err(s) => Outcome::Stop(s) };
    let viable = match out { Outcome::Ok(_) => true, _ => matches!(p.cur.k, Tk::Eof | Tk::Illegal(true)) };
    Parsed { out, toks: p.toks, viable }
}

fn un<X>(s: &'static str) -> Result<X, Stop> { Err(Stop::Unspec(s)) }

impl<'s> P<'s> {
    fn text(&self, t: Tok) -> &'s str { &self.src[t.s as usize..t.e as usize] }

    fn bump(&mut self) -> Tok {
        let t = self.cur;
        self.toks.push(t);
        self.cur = lex::scan(self.src, t.e as usize);
        t
    }

    fn peek(&self) -> Tok { lex::scan(self.src, self.cur.e as usize) }

    fn is(&self, p: &str) -> bool { matches!(self.cur.k, Tk::P(x) if x == p) }

    fn is_word(&self, w: &str) -> bool { self.cur.k == Tk::Word && self.text(self.cur) == w }

    fn eat(&mut self, p: &str) -> bool { if self.is(p) { self.bump(); true } else { false } }

    /// The current token can't follow.
    fn reject<X>(&self) -> Result<X, Stop> {
        match self.cur.k {
            Tk::Unspec(r) => Err(Stop::Unspec(r)),
            Tk::Illegal(eof) => Err(Stop::Reject { pos: self.cur.s, end: self.cur.e, eof, late: false }),
            Tk::Eof => Err(Stop::Reject { pos: self.cur.s, end: self.cur.e, eof: true, late: false }),
            // words that are not reserved in ratel's reading of the language or not supported by it
            Tk::Word if matches!(self.text(self.cur), "super" | "yield" | "export" | "with") => un("unsupported keyword"),
            _ => Err(Stop::Reject { pos: self.cur.s, end: self.cur.e, eof: false, late: false }),
        }
    }

    /// Early error: not a matter of which token follows.
    fn reject_late<X>(&self) -> Result<X, Stop> {
        match self.cur.k {
            Tk::Unspec(r) => Err(Stop::Unspec(r)),
            _ => Err(Stop::Reject { pos: self.cur.s, end: self.cur.e, eof: false, late: true }),
        }
    }

    fn expect(&mut self, p: &str) -> Result<Tok, Stop> { if self.is(p) { Ok(self.bump()) } else { self.reject() } }

    fn expect_word(&mut self, w: &str) -> Result<Tok, Stop> { if self.is_word(w) { Ok(self.bump()) } else { self.reject() } }

    fn semicolon(&mut self) -> Result<(), Stop> {
        if self.eat(";") { return Ok(()); }
        if self.is("}") || self.cur.k == Tk::Eof || self.cur.nl {
            // an illegal token is one whatever precedes it, but it is reported by the next statement
            return Ok(());
        }
        self.reject()
    }

    /// `async` or `await` could be more than a name here.
    fn asynchronous(&self) -> bool {
        let next = self.peek();
        if self.is_word("async") {
            return match next.k {
                Tk::Word => !next.nl && !matches!(self.text(next), "in" | "instanceof"),
                Tk::Illegal(_) => true,
                _ => false,
            };
        }
        match next.k {
            Tk::Eof => false,
            Tk::Word => !matches!(self.text(next), "in" | "instanceof"),
            Tk::P(p) => !matches!(p, ";" | ")" | "]" | "}" | "," | "=" | "." | "?" | ":" | "=>" | "==" | "===" | "!=" | "!==" | "<" | ">" | "<=" | ">=" | "*" | "%" | "**" | "&" | "|" | "^" | "&&" | "||" | "+=" | "-=" | "*="),
            _ => true,
        }
    }

    /// The current token as an identifier that can be bound or referred to.
    fn is_ident(&self) -> Result<bool, Stop> {
        if self.cur.k != Tk::Word { return Ok(false); }
        match self.text(self.cur) {
            w if lex::is_reserved(w) => Ok(false),
            _ => Ok(true),
        }
    }

    fn binding_name(&mut self, k: K) -> R<'s> {
        if !self.is_ident()? { return self.reject(); }
        if self.is_word("undefined") { return un("undefined as a name"); }
        let t = self.bump();
        Ok(T::leaf(k, self.text(t), t.s, t.e))
    }

    // ---------------------------------------------------------------- statements

    fn program(&mut self) -> R<'s> {
        let mut c = Vec::new();
        while self.cur.k != Tk::Eof {
            c.push(self.item(true)?);
        }
        if self.defaults != 0 { return self.reject_late(); }
        Ok(T::new(K::Program, "", c, DC, DC))
    }

    fn nest(&mut self) -> Result<(), Stop> {
        self.depth += 1;
        if self.depth > 30000 { un("nesting depth") } else { Ok(()) }
    }

    /// StatementListItem (ModuleItem at the top)
    fn item(&mut self, top: bool) -> R<'s> {
        self.nest()?;
        let r = self.item_inner(top);
        self.depth -= 1;
        r
    }

    fn item_inner(&mut self, top: bool) -> R<'s> {
        if self.cur.k == Tk::Word {
            match self.text(self.cur) {
                "let" | "const" => return self.declaration(),
                "function" => return self.function(K::FnDecl),
                "class" => return self.class(K::ClassDecl),
                "import" => {
                    if matches!(self.peek().k, Tk::P("(") | Tk::P(".")) { return self.import_expression(); }
                    if !top { return self.nested_import(); }
                    return self.import();
                }
                _ => {}
            }
        }
        self.statement_inner()
    }

    /// Statement, where declarations are not allowed
    fn statement(&mut self) -> R<'s> { self.body(false) }

    /// Same, as a part of another statement that is no label
    fn body(&mut self, function: bool) -> R<'s> {
        let t = self.sub_statement(function)?;
        let mut x = &t;
        while x.k == K::Labeled { x = x.c.last().unwrap(); }
        if x.k == K::FnDecl && t.k == K::Labeled { return un("labelled function in place of a statement"); }
        Ok(t)
    }

    /// `function`: a function can stand there (in an if statement)
    fn sub_statement(&mut self, function: bool) -> R<'s> {
        let plain = function && self.is_word("function") && self.peek().k != Tk::P("*");
        let import = self.is_word("import") && matches!(self.peek().k, Tk::P("(") | Tk::P("."));
        if !plain && !import && self.cur.k == Tk::Word {
            match self.text(self.cur) {
                "let" | "const" | "class" => return self.reject(),
                "function" if !function => return self.reject(),
                "import" => return self.nested_import(),
                // plain functions are fine, but generators are not
                "function" => { self.bump(); return self.reject_late(); }
                _ => {}
            }
        }
        self.nest()?;
        let r = if plain { self.function(K::FnDecl) } else if import { self.import_expression() } else { self.statement_inner() };
        self.depth -= 1;
        r
    }

    /// `import` where only an import expression could follow
    fn nested_import(&mut self) -> R<'s> {
        self.bump();
        self.reject()
    }

    fn statement_inner(&mut self) -> R<'s> {
        let t0 = self.cur;
        match t0.k {
            Tk::P("{") => return self.block(),
            Tk::P(";") => { self.bump(); return Ok(T::leaf(K::Empty, "", t0.s, t0.e)); }
            Tk::Word => {}
            _ => return self.expression_statement(),
        }
        match self.text(t0) {
            "var" => self.declaration(),
            "if" => {
                self.bump();
                self.expect("(")?;
                let test = self.expression(true)?;
                self.expect(")")?;
                let cons = self.body(true)?;
                let mut e = cons.e;
                let alt = if self.is_word("else") {
                    self.bump();
                    let a = self.body(true)?;
                    e = a.e;
                    a
                } else { T::none() };
                Ok(T::new(K::If, "", vec![test, cons, alt], t0.s, e))
            }
            "do" => {
                self.bump();
                let body = self.statement()?;
                self.expect_word("while")?;
                self.expect("(")?;
                let test = self.expression(true)?;
                let e = self.expect(")")?.e;
                self.eat(";");
                Ok(T::new(K::Do, "", vec![body, test], t0.s, e))
            }
            "while" => {
                self.bump();
                self.expect("(")?;
                let test = self.expression(true)?;
                self.expect(")")?;
                let body = self.statement()?;
                let e = body.e;
                Ok(T::new(K::While, "", vec![test, body], t0.s, e))
            }
            "for" => self.for_statement(),
            "continue" => self.jump(K::Continue),
            "break" => self.jump(K::Break),
            "return" => {
                self.bump();
                if self.is(";") || self.is("}") || self.cur.k == Tk::Eof || self.cur.nl {
                    self.eat(";");
                    return Ok(T::new(K::Return, "", vec![T::none()], t0.s, t0.e));
                }
                let x = self.expression(true)?;
                self.semicolon()?;
                let e = x.e;
                Ok(T::new(K::Return, "", vec![x], t0.s, e))
            }
            "throw" => {
                self.bump();
                if self.cur.nl { return self.reject(); }
                let x = self.expression(true)?;
                self.semicolon()?;
                let e = x.e;
                Ok(T::new(K::Throw, "", vec![x], t0.s, e))
            }
            "switch" => {
                self.bump();
                self.expect("(")?;
                let d = self.expression(true)?;
                self.expect(")")?;
                let o = self.expect("{")?;
                let mut cases = Vec::new();
                let mut default = false;
                while !self.is("}") { cases.push(self.case(&mut default)?); }
                let e = self.bump().e;
                Ok(T::new(K::Switch, "", vec![d, T::new(K::Block, "", cases, o.s, e)], t0.s, e))
            }
            "try" => {
                self.bump();
                let b = self.block()?;
                let mut e;
                let handler = if self.is_word("catch") {
                    let c0 = self.bump();
                    if self.is("{") { return un("catch without a parameter"); }
                    self.expect("(")?;
                    let p = self.binding_target()?;
                    self.expect(")")?;
                    let body = self.block()?;
                    e = body.e;
                    T::new(K::Catch, "", vec![p, body], c0.s, e)
                } else {
                    if !self.is_word("finally") { return self.reject(); }
                    e = 0;
                    T::none()
                };
                let fin = if self.is_word("finally") {
                    self.bump();
                    let f = self.block()?;
                    e = f.e;
                    f
                } else { T::none() };
                Ok(T::new(K::Try, "", vec![b, handler, fin], t0.s, e))
            }
            "debugger" => {
                self.bump();
                self.semicolon()?;
                Ok(T::leaf(K::Debugger, "", t0.s, t0.e))
            }
            w => {
                if !lex::is_reserved(w) && self.peek().k == Tk::P(":") {
                    if w == "undefined" { return un("label name"); }
                    self.bump();
                    self.bump();
                    let body = self.sub_statement(true)?;
                    let e = body.e;
                    return Ok(T::new(K::Labeled, w, vec![body], t0.s, e));
                }
                self.expression_statement()
            }
        }
    }

    fn expression_statement(&mut self) -> R<'s> {
        let t0 = self.cur;
        let x = self.expression(true)?;
        self.semicolon()?;
        let s = if t0.k == Tk::Word && (!lex::is_reserved(self.text(t0)) && self.text(t0) != "undefined" || t0.s == self.import_at) { t0.s } else { x.s };
        let e = x.e;
        Ok(T::new(K::Expr, "", vec![x], s, e))
    }

    fn block(&mut self) -> R<'s> {
        let s = self.expect("{")?.s;
        let mut c = Vec::new();
        while !self.is("}") {
            if self.cur.k == Tk::Eof { return self.reject(); }
            c.push(self.item(false)?);
        }
        let e = self.bump().e;
        Ok(T::new(K::Block, "", c, s, e))
    }

    fn case(&mut self, default: &mut bool) -> R<'s> {
        let t0 = self.cur;
        let test = if self.is_word("case") {
            self.bump();
            self.expression(true)?
        } else {
            if !self.is_word("default") { return self.reject(); }
            if *default { return self.reject(); }
            *default = true;
            self.bump();
            T::none()
        };
        let mut e = self.expect(":")?.e;
        let mut c = Vec::new();
        while !self.is("}") && !self.is_word("case") && !self.is_word("default") {
            if self.cur.k == Tk::Eof { return self.reject(); }
            let x = self.item(false)?;
            e = x.e;
            c.push(x);
        }
        Ok(T::new(K::Case, "", vec![test, T::list(c)], t0.s, e))
    }

    fn jump(&mut self, k: K) -> R<'s> {
        let t0 = self.bump();
        if self.cur.k == Tk::Word && !self.cur.nl {
            let l = self.binding_name(K::Name)?;
            self.semicolon()?;
            let e = l.e;
            return Ok(T::new(k, "", vec![l], t0.s, e));
        }
        self.semicolon()?;
        Ok(T::new(k, "", vec![T::none()], t0.s, t0.e))
    }

    fn declarators(&mut self, kw: &str, c: &mut Vec<T<'s>>, in_ok: bool) -> Result<(), Stop> {
        loop {
            let id = self.binding_target()?;
            let (s, mut e) = (id.s, id.e);
            let init = if self.is("=") {
                self.bump();
                let x = self.assignment(in_ok)?;
                e = x.e;
                x
            } else {
                if in_ok && (kw == "const" || id.k != K::BIdent)
                    && (self.is(",") || self.is(";") || self.is("}") || self.cur.k == Tk::Eof || self.cur.nl) {
                    return un("declaration without an initialiser");
                }
                T::none()
            };
            c.push(T::new(K::Dtor, "", vec![id, init], s, e));
            if !self.eat(",") { return Ok(()); }
        }
    }

    fn declaration(&mut self) -> R<'s> {
        let t0 = self.bump();
        let mut c = Vec::new();
        self.declarators(self.text(t0), &mut c, true)?;
        let e = if self.is(";") { self.cur.e } else { c.last().unwrap().e };
        self.semicolon()?;
        Ok(T::new(K::Decl, self.text(t0), c, t0.s, e))
    }

    fn for_statement(&mut self) -> R<'s> {
        let t0 = self.bump();
        if self.is_word("await") { return un("async"); }
        self.expect("(")?;
        let mut init = T::none();
        if self.is(";") {
        } else if self.is_word("var") || self.is_word("let") || self.is_word("const") {
            let d0 = self.bump();
            let mut c = Vec::new();
            self.declarators(self.text(d0), &mut c, false)?;
            let e = c.last().unwrap().e;
            let single = c.len() == 1 && c[0].c[1].k == K::None;
            let complete = c.iter().all(|d| d.c[1].k != K::None || (self.text(d0) != "const" && d.c[0].k == K::BIdent));
            init = T::new(K::Decl, self.text(d0), c, d0.s, e);
            if self.is_word("in") || self.is_word("of") {
                if !single { return un("for-in/of declaration"); }
                return self.for_in_of(t0, init);
            }
            if !complete && !self.is(";") { return self.reject(); }
            if !complete { return un("declaration without an initialiser"); }
        } else {
            if self.is_word("async") && self.peek().k == Tk::Word { return un("async"); }
            let n = self.defaults;
            let x = self.expression(false)?;
            let target = target(&x);
            let (s, e) = (x.s, x.e);
            if self.is_word("in") || self.is_word("of") {
                if self.defaults != n { return un("default of shorthand property"); }
                match target {
                    Some(true) => {}
                    // ratel reads these as operators
                    Some(false) if self.is_word("in") && x.a == 0 && (matches!(x.k, K::Binary | K::Cond | K::Seq) || x.k == K::Arrow && x.c[1].k != K::Block) => return un("for-in/of target"),
                    Some(false) => return self.reject_late(),
                    None => return un("for-in/of target"),
                }
                init = T::new(K::Expr, "", vec![x], s, e);
                return self.for_in_of(t0, init);
            }
            init = T::new(K::Expr, "", vec![x], s, e);
        }
        self.expect(";")?;
        let test = if self.is(";") { T::none() } else { self.expression(true)? };
        self.expect(";")?;
        let upd = if self.is(")") { T::none() } else { self.expression(true)? };
        self.expect(")")?;
        let body = self.statement()?;
        let e = body.e;
        Ok(T::new(K::For, "", vec![init, test, upd, body], t0.s, e))
    }

    fn for_in_of(&mut self, t0: Tok, init: T<'s>) -> R<'s> {
        let k = if self.is_word("in") { K::ForIn } else { K::ForOf };
        self.bump();
        let right = if k == K::ForIn { self.expression(true)? } else { self.assignment(true)? };
        self.expect(")")?;
        let body = self.statement()?;
        let e = body.e;
        Ok(T::new(k, "", vec![init, right, body], t0.s, e))
    }

    fn import(&mut self) -> R<'s> {
        let t0 = self.bump();
        let mut c = Vec::new();
        if self.cur.k != Tk::Str {
            let mut more = true;
            if self.cur.k == Tk::Word {
                let n = self.import_name()?;
                let s = n.s;
                c.push(T::new(K::ImpDef, "", vec![n], s, DC));
                more = self.eat(",");
            }
            if more {
                if self.is("*") {
                    let s = self.bump().s;
                    self.expect_word("as")?;
                    let n = self.import_name()?;
                    c.push(T::new(K::ImpNs, "", vec![n], s, DC));
                } else {
                    self.expect("{")?;
                    while !self.is("}") {
                        if self.cur.k == Tk::Word && (lex::is_reserved(self.text(self.cur)) || self.is_word("undefined")) { return un("reserved word imported"); }
                        if self.cur.k == Tk::Str { return un("string imported"); }
                        let n = self.import_name()?;
                        let s = n.s;
                        let mut local = n.clone();
                        if self.is_word("as") { self.bump(); local = self.import_name()?; }
                        c.push(T::new(K::ImpSpec, "", vec![n, local], s, DC));
                        if !self.is("}") { self.expect(",")?; }
                    }
                    self.bump();
                }
            }
            self.expect_word("from")?;
        }
        if self.cur.k != Tk::Str { return self.reject(); }
        let src = self.bump();
        let text = self.text(src);
        self.semicolon()?;
        Ok(T::new(K::Import, &text[1..text.len() - 1], c, t0.s, src.e))
    }

    /// An expression statement that begins with `import(a)` or `import.meta`
    fn import_expression(&mut self) -> R<'s> {
        let at = self.cur.s;
        self.import_at = at;
        let t = self.statement_inner()?;
        fn usual(t: &T, at: u32) -> bool {
            // what is applied to `import`, if it is here
            let first = |x: &T| x.k == K::Ident && x.s == at;
            match t.k {
                K::Call if first(&t.c[0]) => t.c.len() == 2 && t.c[1].k != K::Spread,
                K::Member if first(&t.c[0]) => t.c[1].v == "meta",
                // `import.meta` is nothing to assign to
                K::Post if t.c[0].c.first().map_or(false, first) => false,
                K::Binary if t.v.ends_with('=') && !["==", "===", "!=", "!==", "<=", ">="].contains(&&*t.v)
                    && t.c[0].c.first().map_or(false, first) => false,
                _ => !t.c.iter().any(first) && t.c.iter().all(|c| usual(c, at)),
            }
        }
        if usual(&t, at) { Ok(t) } else { un("import expression") }
    }

    fn import_name(&mut self) -> R<'s> {
        if self.is_word("await") { return un("async"); }
        self.binding_name(K::Name)
    }

    // ---------------------------------------------------------------- functions, classes, patterns

    fn function(&mut self, k: K) -> R<'s> {
        let t0 = self.bump();
        let gen = self.eat("*");
        let name = if k == K::FnDecl || self.cur.k == Tk::Word { self.binding_name(K::Name)? } else { T::none() };
        let params = self.params()?;
        let body = self.block()?;
        let e = body.e;
        Ok(T::new(k, if gen { "*" } else { "" }, vec![name, params, body], t0.s, e))
    }

    /// Parameters and body of a method
    fn method(&mut self) -> R<'s> {
        let s = self.cur.s;
        let params = self.params()?;
        let body = self.block()?;
        let e = body.e;
        Ok(T::new(K::Func, "", vec![T::none(), params, body], s, e))
    }

    fn params(&mut self) -> R<'s> {
        self.expect("(")?;
        let mut c = Vec::new();
        while !self.is(")") {
            if self.is("...") {
                let s = self.bump().s;
                if self.is("[") || self.is("{") { return un("rest pattern"); }
                let n = self.binding_name(K::Name)?;
                let e = n.e;
                c.push(T::new(K::BRest, "", vec![n], s, e));
                if !self.is(")") { return self.reject(); }
                break;
            }
            let t = self.binding_target()?;
            c.push(self.with_default(t)?);
            if !self.is(")") { self.expect(",")?; }
        }
        self.bump();
        Ok(T::list(c))
    }

    fn with_default(&mut self, t: T<'s>) -> R<'s> {
        if !self.eat("=") { return Ok(t); }
        let x = self.assignment(true)?;
        let (s, e) = (t.s, x.e);
        Ok(T::new(K::BAssign, "", vec![t, x], s, e))
    }

    fn binding_target(&mut self) -> R<'s> { self.binding_target_in(false) }

    /// `inside`: within an object pattern
    fn binding_target_in(&mut self, inside: bool) -> R<'s> {
        match self.cur.k {
            Tk::P("[") => {
                let s = self.bump().s;
                let mut c = Vec::new();
                while !self.is("]") {
                    if self.is(",") {
                        let p = self.bump().s;
                        c.push(T::leaf(K::BVoid, "", p, p));
                        continue;
                    }
                    if self.is("...") {
                        if !inside { return un("rest in array pattern"); }
                        let r = self.bump().s;
                        let n = if self.is("[") || self.is("{") { self.binding_target_in(inside)? }
                            else if self.cur.k == Tk::Eof || self.is_ident()? { self.binding_name(K::Name)? }
                            else { return self.no_binding() };
                        let e = n.e;
                        c.push(T::new(K::BRest, "", vec![n], r, e));
                        if self.cur.k == Tk::Eof { return self.reject(); }
                        if !self.is("]") { return self.no_binding(); }
                        break;
                    }
                    let t = self.binding_target_in(inside)?;
                    c.push(self.with_default(t)?);
                    if inside && !matches!(self.cur.k, Tk::P("]") | Tk::P(",") | Tk::Eof) { return self.no_binding(); }
                    if !self.is("]") { self.expect(",")?; }
                }
                let e = self.bump().e;
                Ok(T::new(K::BArr, "", c, s, e))
            }
            Tk::P("{") => {
                let s = self.bump().s;
                let mut c = Vec::new();
                while !self.is("}") {
                    c.push(self.binding_property()?);
                    if !self.is("}") { self.expect(",")?; }
                }
                let e = self.bump().e;
                Ok(T::new(K::BObj, "", c, s, e))
            }
            _ => {
                if inside && !self.is_ident()? {
                    // ratel reads the values of object patterns as expressions
                    return match self.cur.k { Tk::Eof => self.reject(), _ => self.no_binding() };
                }
                let t = self.binding_name(K::BIdent)?;
                if inside && !matches!(self.cur.k, Tk::P("=") | Tk::P(",") | Tk::P("}") | Tk::P("]") | Tk::Eof) {
                    return self.no_binding();
                }
                Ok(t)
            }
        }
    }

    /// A token in an object pattern that can't be part of it. As ratel reads expressions there
    /// it may only see that later, and parentheses not at all.
    fn no_binding<X>(&mut self) -> Result<X, Stop> {
        if self.is("(") { return un("value in object pattern"); }
        self.no_binding_at()
    }

    fn no_binding_at<X>(&mut self) -> Result<X, Stop> {
        match self.cur.k {
            Tk::Unspec(why) => un(why),
            Tk::Word if self.is_word("undefined") => un("undefined as a name"),
            Tk::Word if matches!(self.text(self.cur), "yield" | "super") => un("unsupported keyword"),
            _ => self.reject_late(),
        }
    }

    fn binding_property(&mut self) -> R<'s> {
        let t0 = self.cur;
        if self.is("...") {
            self.bump();
            if self.cur.k != Tk::Eof && !self.is_ident()? { return self.no_binding(); }
            let n = self.binding_name(K::Name)?;
            let e = n.e;
            if self.is(",") && self.peek().k == Tk::P("}") { return un("comma after rest in object pattern"); }
            if !matches!(self.cur.k, Tk::P("}") | Tk::Eof) { return self.no_binding(); }
            return Ok(T::new(K::BRest, "", vec![n], t0.s, e));
        }
        let word = t0.k == Tk::Word;
        let key = self.property_key()?;
        if self.is("(") { return self.no_binding_at(); }
        if word && !self.is(":") {
            let w = self.text(t0);
            if self.is("=") { return un("default of shorthand property"); }
            if lex::is_reserved(w) { return self.reject(); }
            if w == "undefined" { return un("shorthand name"); }
            if !self.is(",") && !self.is("}") { return self.after_key(w); }
            return Ok(T::leaf(K::BShort, w, t0.s, t0.e));
        }
        self.expect(":")?;
        let t = self.binding_target_in(true)?;
        let v = self.with_default(t)?;
        let e = v.e;
        if !matches!(self.cur.k, Tk::P(",") | Tk::P("}") | Tk::Eof) { return self.no_binding(); }
        Ok(T::new(K::BProp, "", vec![key, v], t0.s, e))
    }

    /// A token that can't follow the key `w` of a property, unless it makes it an accessor and such.
    fn after_key<X>(&mut self, w: &str) -> Result<X, Stop> {
        if matches!(w, "get" | "set" | "async" | "static") && matches!(self.cur.k, Tk::Word | Tk::Str | Tk::Num | Tk::BinNum | Tk::P("[") | Tk::P("*") | Tk::Illegal(true)) {
            return un("accessor in object");
        }
        self.reject()
    }

    fn property_key(&mut self) -> R<'s> {
        let t = self.cur;
        match t.k {
            Tk::Word | Tk::Str | Tk::Num => { self.bump(); Ok(T::leaf(K::KLit, self.text(t), t.s, t.e)) }
            Tk::BinNum => { self.bump(); Ok(T::leaf(K::KBin, self.text(t), t.s, t.e)) }
            Tk::P("[") => {
                self.bump();
                let x = self.assignment(true)?;
                let e = self.expect("]")?.e;
                Ok(T::new(K::KComp, "", vec![x], t.s, e))
            }
            Tk::P("*") => un("generator method"),
            _ => self.reject(),
        }
    }

    fn class(&mut self, k: K) -> R<'s> {
        let t0 = self.bump();
        let name = if k == K::ClassDecl || (self.cur.k == Tk::Word && !self.is_word("extends")) { self.binding_name(K::Name)? } else { T::none() };
        let ext = if self.is_word("extends") {
            self.bump();
            self.lhs()?
        } else { T::none() };
        let s = self.expect("{")?.s;
        let mut c = Vec::new();
        while !self.is("}") {
            if self.cur.k == Tk::Eof { return self.reject(); }
            c.push(self.member()?);
        }
        let e = self.bump().e;
        Ok(T::new(k, "", vec![name, ext, T::new(K::Block, "", c, s, e)], t0.s, e))
    }

    fn member(&mut self) -> R<'s> {
        let t0 = self.cur;
        if self.is(";") { return un("semicolon in class body"); }
        let stat = self.is_word("static");
        if stat {
            self.bump();
            if matches!(self.cur.k, Tk::P("(") | Tk::P("=") | Tk::P(";") | Tk::P("}") | Tk::P("{")) { return un("member named static"); }
        }
        let k0 = self.cur;
        if self.is_word("async") && !matches!(self.peek().k, Tk::P("(") | Tk::P("=") | Tk::P(";") | Tk::P("}")) { return un("async"); }
        let mut kind = "method";
        let mut key = self.property_key()?;
        let w = if k0.k == Tk::Word { self.text(k0) } else { "" };
        if (w == "get" || w == "set") && !matches!(self.cur.k, Tk::P("(") | Tk::P("=") | Tk::P(";") | Tk::P("}")) {
            match self.cur.k {
                Tk::Word => {}
                Tk::Str | Tk::Num | Tk::BinNum | Tk::P("[") | Tk::P("*") => return un("accessor key"),
                Tk::Illegal(true) => return un("accessor key"),
                _ => return self.reject(),
            }
            kind = if w == "get" { "get" } else { "set" };
            key = self.property_key()?;
            if !self.is("(") { return self.reject(); }
        } else if !stat && w == "constructor" {
            kind = "constructor";
        } else if !stat && k0.k == Tk::Str && matches!(self.text(k0), "'constructor'" | "\"constructor\"") {
            return un("string constructor");
        }
        if self.is("(") {
            let f = self.method()?;
            let e = f.e;
            let n = f.c[1].c.len();
            if kind == "get" && n != 0 { return un("parameters of a getter"); }
            if kind == "set" && (n != 1 || f.c[1].c[0].k == K::BRest) { return un("parameters of a setter"); }
            if self.is(";") { self.bump(); }
            let v = match (stat, kind) {
                (false, k) => k,
                (true, "get") => "static get",
                (true, "set") => "static set",
                (true, _) => "static method",
            };
            return Ok(T::new(K::Method, v, vec![key, f], t0.s, e));
        }
        if self.is("=") {
            self.bump();
            let x = self.assignment(true)?;
            let e = x.e;
            self.semicolon()?;
            return Ok(T::new(K::Field, if stat { "static" } else { "" }, vec![key, x], t0.s, e));
        }
        if matches!(self.cur.k, Tk::P(";") | Tk::P("}")) || (self.cur.nl && self.cur.k != Tk::Eof) { return un("field without a value"); }
        self.reject()
    }

    // ---------------------------------------------------------------- expressions

    fn expression(&mut self, in_ok: bool) -> R<'s> {
        let first = self.assignment(in_ok)?;
        if !self.is(",") { return Ok(first); }
        let s = first.s;
        let mut c = vec![first];
        while self.eat(",") { c.push(self.assignment(in_ok)?); }
        Ok(T::new(K::Seq, "", c, s, DC))
    }

    fn assignment(&mut self, in_ok: bool) -> R<'s> {
        self.nest()?;
        let r = self.assignment_inner(in_ok);
        self.depth -= 1;
        r
    }

    fn assignment_inner(&mut self, in_ok: bool) -> R<'s> {
        let t0 = self.cur;
        if t0.k == Tk::P("(") && self.peek().k == Tk::P(")") {
            self.bump();
            self.bump();
            if !self.is("=>") || self.cur.nl { return self.reject(); }
            return self.arrow(Vec::new(), t0.s, in_ok);
        }
        let n = self.defaults;
        let left = self.conditional(in_ok)?;
        let op = match self.cur.k { Tk::P(p) => p, _ => return Ok(left) };
        if self.defaults != n && (op == "=" || op == "=>") { return un("default of shorthand property"); }
        match op {
            "=>" => {
                match self.cover.take() {
                    Some((start, n, ps)) if n == self.toks.len() && start == t0.s => {
                        if self.cur.nl { return self.reject(); }
                        let s = ps[0].s;
                        let mut c = Vec::new();
                        for p in ps {
                            if p.a == 0 && !matches!(p.k, K::Ident | K::Arr | K::Obj | K::Undef) && !(p.k == K::Binary && p.v == "=") { return self.reject_late(); }
                            c.push(arrow_param(p)?);
                        }
                        self.arrow(c, s, in_ok)
                    }
                    _ if self.cur.nl => self.reject(),
                    _ => self.reject_late(),
                }
            }
            "=" => {
                match target(&left) {
                    Some(true) => {}
                    None => return un("assignment target"),
                    Some(false) => return self.reject_late(),
                }
                self.bump();
                let right = self.assignment(in_ok)?;
                let (s, e) = (left.s, right.e);
                Ok(T::new(K::Binary, op, vec![left, right], s, e))
            }
            "+=" | "-=" | "*=" | "/=" | "%=" | "**=" | "<<=" | ">>=" | ">>>=" | "&=" | "|=" | "^=" => {
                self.simple_target(&left)?;
                self.bump();
                let right = self.assignment(in_ok)?;
                let (s, e) = (left.s, right.e);
                Ok(T::new(K::Binary, op, vec![left, right], s, e))
            }
            _ => Ok(left),
        }
    }

    fn simple_target(&self, t: &T<'s>) -> Result<(), Stop> {
        match t.k {
            K::Ident | K::Member | K::Comp => Ok(()),
            K::Undef => un("undefined as target"),
            _ => self.reject_late(),
        }
    }

    fn arrow(&mut self, params: Vec<T<'s>>, s: u32, in_ok: bool) -> R<'s> {
        self.bump();
        let body = if self.is("{") { self.block()? } else { self.assignment(in_ok)? };
        let e = body.e;
        Ok(T::new(K::Arrow, "", vec![T::list(params), body], s, e))
    }

    fn conditional(&mut self, in_ok: bool) -> R<'s> {
        let test = self.binary(0, in_ok)?;
        if !self.is("?") { return Ok(test); }
        self.bump();
        let a = self.assignment(true)?;
        self.expect(":")?;
        let b = self.assignment(in_ok)?;
        let (s, e) = (test.s, b.e);
        Ok(T::new(K::Cond, "", vec![test, a, b], s, e))
    }

    fn binary_op(&self, in_ok: bool) -> Option<(&'static str, u8)> {
        match self.cur.k {
            Tk::P(p) => Some((p, match p {
                "||" => 1, "&&" => 2, "|" => 3, "^" => 4, "&" => 5,
                "==" | "!=" | "===" | "!==" => 6,
                "<" | ">" | "<=" | ">=" => 7,
                "<<" | ">>" | ">>>" => 8,
                "+" | "-" => 9,
                "*" | "/" | "%" => 10,
                "**" => 11,
                _ => return None,
            })),
            Tk::Word => match self.text(self.cur) {
                "instanceof" => Some(("instanceof", 7)),
                "in" if in_ok => Some(("in", 7)),
                _ => None,
            },
            _ => None,
        }
    }

    fn binary(&mut self, min: u8, in_ok: bool) -> R<'s> {
        let mut left = self.unary()?;
        while let Some((op, p)) = self.binary_op(in_ok) {
            if p <= min && !(op == "**" && min == 11) { break; }
            if op == "**" && left.k == K::Pre && left.a == 0 && !matches!(left.v, "++" | "--") { return self.reject(); }
            self.bump();
            let right = if op == "**" { self.binary(10, in_ok)? } else { self.binary(p, in_ok)? };
            let (s, e) = (left.s, right.e);
            left = T::new(K::Binary, op, vec![left, right], s, e);
        }
        Ok(left)
    }

    fn unary(&mut self) -> R<'s> {
        let t0 = self.cur;
        let op = match t0.k {
            Tk::P("+") => "+", Tk::P("-") => "-", Tk::P("~") => "~", Tk::P("!") => "!",
            Tk::P("++") => "++", Tk::P("--") => "--",
            Tk::Word => match self.text(t0) { "typeof" => "typeof", "void" => "void", "delete" => "delete", _ => return self.postfix() },
            _ => return self.postfix(),
        };
        self.bump();
        self.nest()?;
        let x = self.unary()?;
        self.depth -= 1;
        if op == "++" || op == "--" { self.simple_target(&x)?; }
        let e = x.e;
        Ok(T::new(K::Pre, op, vec![x], t0.s, e))
    }

    fn postfix(&mut self) -> R<'s> {
        let x = self.lhs()?;
        let op = match self.cur.k { Tk::P("++") => "++", Tk::P("--") => "--", _ => return Ok(x) };
        if self.cur.nl { return Ok(x); }
        self.simple_target(&x)?;
        let t = self.bump();
        let s = x.s;
        if !self.cur.nl && (self.is("++") || self.is("--")) { return self.reject_late(); }
        Ok(T::new(K::Post, op, vec![x], s, t.e))
    }

    /// LeftHandSideExpression
    fn lhs(&mut self) -> R<'s> {
        let mut x = self.member_base()?;
        loop {
            if self.is("(") {
                let s = self.cur.s;
                let name = x.k == K::Ident && x.v == "async";
                let mut c = vec![x];
                let e = self.arguments(&mut c)?;
                if name && self.is("=>") { return un("async"); }
                x = T::new(K::Call, "", c, s, e);
                continue;
            }
            match self.suffix(x)? {
                (x, false) => return Ok(x),
                (y, true) => x = y,
            }
        }
    }

    /// Primary expression or `new`, without the accesses that follow
    fn member_base(&mut self) -> R<'s> {
        if !self.is_word("new") { return self.primary(); }
        let t0 = self.bump();
        if self.is(".") {
            let dot = self.bump();
            if self.cur.k != Tk::Word { return self.reject(); }
            if !self.is_word("target") { return self.reject(); }
            let t = self.bump();
            return Ok(T::new(K::Meta, "", vec![T::leaf(K::Name, "new", t0.s, t0.e), T::leaf(K::Name, "target", dot.s, t.e)], t0.s, t.e));
        }
        self.nest()?;
        let mut x = self.member_base()?;
        self.depth -= 1;
        loop {
            match self.suffix(x)? {
                (y, false) => { x = y; break; }
                (y, true) => x = y,
            }
        }
        let call = x.k == K::Call;
        let mut c = vec![x];
        if self.is("(") {
            self.arguments(&mut c)?;
            return Ok(T::new(K::New, "()", c, t0.s, DC));
        }
        Ok(T::new(K::New, if call { "()" } else { "" }, c, t0.s, DC))
    }

    /// One member access or template, if one follows
    fn suffix(&mut self, x: T<'s>) -> Result<(T<'s>, bool), Stop> {
        let s = x.s;
        match self.cur.k {
            Tk::P(".") => {
                self.bump();
                if self.cur.k != Tk::Word { return self.reject(); }
                let t = self.bump();
                Ok((T::new(K::Member, "", vec![x, T::leaf(K::Name, self.text(t), DC, DC)], s, t.e), true))
            }
            Tk::P("[") => {
                self.bump();
                let p = self.expression(true)?;
                let e = self.expect("]")?.e;
                Ok((T::new(K::Comp, "", vec![x, p], s, e), true))
            }
            Tk::Tpl(_) => {
                let q = self.template()?;
                let e = q.e;
                Ok((T::new(K::Tagged, "", vec![x, q], s, e), true))
            }
            _ => Ok((x, false)),
        }
    }

    fn arguments(&mut self, c: &mut Vec<T<'s>>) -> Result<u32, Stop> {
        self.bump();
        while !self.is(")") {
            if self.is("...") {
                let s = self.bump().s;
                let x = self.assignment(true)?;
                let e = x.e;
                c.push(T::new(K::Spread, "", vec![x], s, e));
            } else {
                c.push(self.assignment(true)?);
            }
            if !self.is(")") { self.expect(",")?; }
        }
        Ok(self.bump().e)
    }

    fn template(&mut self) -> R<'s> {
        let s = self.cur.s;
        let mut c = Vec::new();
        loop {
            let t = self.cur;
            let open = matches!(t.k, Tk::Tpl(true));
            let text = &self.src[t.s as usize + 1..t.e as usize - if open { 2 } else { 1 }];
            c.push(T::leaf(K::Quasi, text, t.s, t.e));
            self.bump();
            if !open {
                return Ok(T::new(K::Tpl, "", c, s, t.e));
            }
            c.push(self.expression(true)?);
            if !self.is("}") { return self.reject(); }
            self.cur = lex::template(self.src, self.cur.s as usize, self.cur.nl);
            if !matches!(self.cur.k, Tk::Tpl(_)) { return self.reject(); }
        }
    }

    fn primary(&mut self) -> R<'s> {
        let t = self.cur;
        match t.k {
            Tk::Num => { self.bump(); Ok(T::leaf(K::Num, self.text(t), t.s, t.e)) }
            Tk::BinNum => { self.bump(); Ok(T::leaf(K::Bin, self.text(t), t.s, t.e)) }
            Tk::Str => { self.bump(); Ok(T::leaf(K::Str, self.text(t), t.s, t.e)) }
            Tk::Tpl(_) => self.template(),
            Tk::P("/") | Tk::P("/=") => {
                self.cur = lex::regex(self.src, t.s as usize, t.nl);
                if self.cur.k != Tk::Regex { return self.reject(); }
                let t = self.bump();
                Ok(T::leaf(K::Regex, self.text(t), t.s, t.e))
            }
            Tk::P("(") => self.parenthesised(),
            Tk::P("[") => self.array(),
            Tk::P("{") => self.object(),
            Tk::Word => {
                let w = self.text(t);
                let leaf = match w {
                    "function" => return self.function(K::Func),
                    "class" => return self.class(K::Class),
                    "this" => T::leaf(K::This, "", t.s, t.e),
                    "null" => T::leaf(K::Null, "", t.s, t.e),
                    "true" => T::leaf(K::True, "", t.s, t.e),
                    "false" => T::leaf(K::False, "", t.s, t.e),
                    "undefined" => {
                        if self.peek().k == Tk::P("=>") { return un("undefined as a name"); }
                        T::leaf(K::Undef, "", t.s, t.e)
                    }
                    "await" | "async" if self.asynchronous() => return un("async"),
                    "import" if self.import_at == t.s => T::leaf(K::Ident, "import", t.s, t.e),
                    "import" => return un("import expression"),
                    w if lex::is_reserved(w) => return self.reject(),
                    w => {
                        self.bump();
                        let x = T::leaf(K::Ident, w, t.s, t.e);
                        self.cover = Some((t.s, self.toks.len(), vec![x.clone()]));
                        return Ok(x);
                    }
                };
                self.bump();
                Ok(leaf)
            }
            _ => self.reject(),
        }
    }

    fn parenthesised(&mut self) -> R<'s> {
        let t0 = self.bump();
        // an arrow function without parameters is no operand
        if self.is(")") { return self.reject_late(); }
        let mut c = Vec::new();
        loop {
            if self.is("...") { return un("rest parameter of arrow function"); }
            c.push(self.assignment(true)?);
            if !self.eat(",") { break; }
            if self.is(")") { return un("trailing comma of arrow parameters"); }
        }
        self.expect(")")?;
        let s = c[0].s;
        self.cover = Some((t0.s, self.toks.len(), c.clone()));
        let mut x = if c.len() == 1 { c.pop().unwrap() } else { T::new(K::Seq, "", c, s, DC) };
        x.a = 1;
        Ok(x)
    }

    fn array(&mut self) -> R<'s> {
        let s = self.bump().s;
        let mut c = Vec::new();
        while !self.is("]") {
            if self.is(",") {
                let p = self.bump().s;
                c.push(T::leaf(K::Void, "", p, p));
                continue;
            }
            if self.is("...") {
                let s = self.bump().s;
                let x = self.assignment(true)?;
                let e = x.e;
                // 2: a comma follows, which a rest element can't have
                c.push(T::new(K::Spread, "", vec![x], s, e).at(if self.is(",") { 2 } else { 0 }));
            } else {
                c.push(self.assignment(true)?);
            }
            if !self.is("]") { self.expect(",")?; }
        }
        let e = self.bump().e;
        Ok(T::new(K::Arr, "", c, s, e))
    }

    fn object(&mut self) -> R<'s> {
        let s = self.bump().s;
        let mut c = Vec::new();
        while !self.is("}") {
            c.push(self.property()?);
            if !self.is("}") { self.expect(",")?; }
        }
        let e = self.bump().e;
        Ok(T::new(K::Obj, "", c, s, e))
    }

    fn property(&mut self) -> R<'s> {
        let t0 = self.cur;
        if self.is("...") {
            self.bump();
            let x = self.assignment(true)?;
            let e = x.e;
            return Ok(T::new(K::PSpread, "", vec![x], t0.s, e).at(if self.is(",") { 2 } else { 0 }));
        }
        let word = t0.k == Tk::Word;
        let key = self.property_key()?;
        if self.is("(") {
            let f = self.method()?;
            let e = f.e;
            return Ok(T::new(K::PMeth, "", vec![key, f], t0.s, e));
        }
        if word && !self.is(":") {
            let w = self.text(t0);
            if self.is("=") && !lex::is_reserved(w) {
                self.bump();
                self.assignment(true)?;
                self.defaults += 1;
            }
            if !self.is(",") && !self.is("}") { return self.after_key(w); }
            if lex::is_reserved(w) { return self.reject(); }
            return Ok(T::leaf(K::PShort, w, t0.s, t0.e));
        }
        self.expect(":")?;
        let x = self.assignment(true)?;
        let e = x.e;
        Ok(T::new(K::PLit, "", vec![key, x], t0.s, e))
    }
}

/// Same, where patterns can't be in parentheses.
fn target(t: &T) -> Option<bool> {
    if t.a != 0 && matches!(t.k, K::Arr | K::Obj) { Some(false) } else { is_target(t) }
}

/// Whether something can be assigned to; `None`: ratel takes parentheses and commas in it that JavaScript does not.
fn is_target(t: &T) -> Option<bool> {
    // false if any is, else nothing if any is
    fn all(i: impl Iterator<Item = Option<bool>>) -> Option<bool> {
        let mut r = Some(true);
        for x in i { match x { Some(false) => return x, None => r = None, _ => {} } }
        r
    }
    let n = t.c.len();
    let r = match t.k {
        K::Ident | K::Member | K::Comp => return Some(true),
        K::Undef => None,
        K::Arr => all(t.c.iter().enumerate().map(|(i, x)| match x.k {
            K::Void => Some(true),
            K::Spread if i + 1 != n || x.a == 2 => Some(false),
            K::Spread => is_target(&x.c[0]),
            _ => element_target(x),
        })),
        K::Obj => all(t.c.iter().enumerate().map(|(i, p)| match p.k {
            K::PShort => if p.v == "undefined" { None } else { Some(true) },
            K::PLit => element_target(&p.c[1]),
            K::PSpread if i + 1 != n => Some(false),
            K::PSpread => match p.c[0].k { K::Ident | K::Member | K::Comp => if p.a == 2 { None } else { Some(true) }, K::Undef => None, _ => Some(false) },
            _ => Some(false),
        })),
        _ => Some(false),
    };
    if t.a != 0 && r == Some(true) { None } else { r }
}

fn element_target(x: &T) -> Option<bool> {
    if x.k == K::Binary && x.v == "=" { return if x.a == 0 { is_target(&x.c[0]) } else { None }; }
    is_target(x)
}

fn arrow_param<'s>(t: T<'s>) -> R<'s> {
    if t.a != 0 { return un("parenthesised arrow parameter"); }
    match t.k {
        K::Ident => Ok(T { k: K::BIdent, ..t }),
        K::Binary if t.v == "=" => {
            let mut i = t.c.into_iter();
            let l = i.next().unwrap();
            if l.k != K::Ident || l.a != 0 { return un("arrow parameter"); }
            let l = T { k: K::BIdent, ..l };
            Ok(T { k: K::BAssign, v: "", c: vec![l, i.next().unwrap()], s: t.s, e: t.e, a: 0, b: 0 })
        }
        K::Arr | K::Obj | K::Undef => un("arrow parameter"),
        _ => un("arrow parameter (not a parameter)"),
    }
}
