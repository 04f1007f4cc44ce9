//! Language-neutral terms: the common form of the trees of the model and of the implementation.

/// "Don't care": the location is not specified.
pub const DC: u32 = u32::MAX;

#[allow(non_camel_case_types)]
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    None, List,
    // expressions
    Void, This, Ident, Num, Bin, Str, Regex, True, False, Null, Undef,
    Seq, Arr, Member, Comp, Meta, Call, New, Binary, Pre, Post, Cond,
    Tpl, Quasi, Tagged, Spread, Arrow, Obj, Func, Class,
    Name,
    PShort, PLit, PMeth, PSpread, KLit, KBin, KComp,
    // patterns
    BIdent, BVoid, BObj, BArr, BRest, BAssign, BShort, BProp,
    // statements
    Empty, Debugger, Expr, Decl, Dtor, Return, Break, Continue, Throw, If, While, Do,
    For, ForIn, ForOf, Try, Catch, Block, Labeled, FnDecl, ClassDecl, Switch, Case, Import,
    ImpDef, ImpNs, ImpSpec, Method, Field, ErrMember, Program,
}

#[derive(Clone, Debug)]
pub struct T<'a> {
    pub k: K,
    pub v: &'a str,
    pub c: Vec<T<'a>>,
    pub s: u32,
    pub e: u32,
    /// Address of the implementation's data for this node, 0 in the model.
    pub a: usize,
    /// `new` with arguments: address of the call that holds them.
    pub b: usize,
}

impl<'a> T<'a> {
    pub fn new(k: K, v: &'a str, c: Vec<T<'a>>, s: u32, e: u32) -> Self { T { k, v, c, s, e, a: 0, b: 0 } }
    pub fn leaf(k: K, v: &'a str, s: u32, e: u32) -> Self { T { k, v, c: Vec::new(), s, e, a: 0, b: 0 } }
    pub fn none() -> Self { T { k: K::None, v: "", c: Vec::new(), s: DC, e: DC, a: 0, b: 0 } }
    pub fn list(c: Vec<T<'a>>) -> Self { T { k: K::List, v: "", c, s: DC, e: DC, a: 0, b: 0 } }
    pub fn at(mut self, a: usize) -> Self { self.a = a; self }

    /// Same tree, locations aside.
    pub fn same(&self, o: &T) -> bool {
        self.k == o.k && self.v == o.v && self.c.len() == o.c.len()
            && self.c.iter().zip(o.c.iter()).all(|(a, b)| a.same(b))
    }

    pub fn size(&self) -> u64 { 1 + self.c.iter().map(|c| c.size()).sum::<u64>() }

    /// First node whose location differs from the one the model specifies (`self`).
    pub fn span_diff(&self, o: &T, path: &mut String) -> Option<String> {
        if (self.s != DC && self.s != o.s) || (self.e != DC && self.e != o.e) {
            let f = |x: u32| if x == DC { "*".to_string() } else { x.to_string() };
            return Some(format!("{}/{:?}({}) is at {}..{}, expected {}..{}", path, self.k, self.v, o.s, o.e, f(self.s), f(self.e)));
        }
        let n = path.len();
        for (i, (a, b)) in self.c.iter().zip(o.c.iter()).enumerate() {
            path.push_str(&format!("/{:?}.{}", self.k, i));
            if let Some(d) = a.span_diff(b, path) { return Some(d); }
            path.truncate(n);
        }
        None
    }

    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_into(&mut s);
        s
    }

    fn show_into(&self, out: &mut String) {
        match self.k {
            K::None => { out.push('-'); return; }
            K::List => {
                out.push('[');
                for (i, c) in self.c.iter().enumerate() { if i > 0 { out.push(' '); } c.show_into(out); }
                out.push(']');
                return;
            }
            _ => {}
        }
        out.push_str(&format!("{:?}", self.k));
        if !self.v.is_empty() { out.push_str(&format!(":{}", self.v)); }
        if !self.c.is_empty() {
            out.push('(');
            for (i, c) in self.c.iter().enumerate() { if i > 0 { out.push(' '); } c.show_into(out); }
            out.push(')');
        }
    }
}
