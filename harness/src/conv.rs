//! Terms of the implementation's AST.
use crate::term::{K, T};
use ratel::ast::*;
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel::ast::OperatorKind as O;

pub fn op(o: O) -> &'static str {
    match o {
        O::FatArrow => "=>", O::New => "new", O::Increment => "++", O::Decrement => "--",
        O::LogicalNot => "!", O::BitwiseNot => "~", O::Typeof => "typeof", O::Void => "void",
        O::Delete => "delete", O::Multiplication => "*", O::Division => "/", O::Remainder => "%",
        O::Exponent => "**", O::Addition => "+", O::Subtraction => "-", O::BitShiftLeft => "<<",
        O::BitShiftRight => ">>", O::UBitShiftRight => ">>>", O::Lesser => "<", O::LesserEquals => "<=",
        O::Greater => ">", O::GreaterEquals => ">=", O::Instanceof => "instanceof", O::In => "in",
        O::StrictEquality => "===", O::StrictInequality => "!==", O::Equality => "==", O::Inequality => "!=",
        O::BitwiseAnd => "&", O::BitwiseXor => "^", O::BitwiseOr => "|", O::LogicalAnd => "&&",
        O::LogicalOr => "||", O::Conditional => "?", O::Assign => "=", O::AddAssign => "+=",
        O::SubtractAssign => "-=", O::ExponentAssign => "**=", O::MultiplyAssign => "*=", O::DivideAssign => "/=",
        O::RemainderAssign => "%=", O::BSLAssign => "<<=", O::BSRAssign => ">>=", O::UBSRAssign => ">>>=",
        O::BitAndAssign => "&=", O::BitXorAssign => "^=", O::BitOrAssign => "|=", O::Spread => "...",
    }
}

fn at<'a, X>(n: &Node<'a, X>, k: K, v: &'a str, c: Vec<T<'a>>) -> T<'a> {
    let loc: &Loc<X> = &**n;
    T { k, v, c, s: loc.start, e: loc.end, a: &loc.item as *const X as usize, b: 0 }
}

pub fn name<'a>(n: &IdentifierNode<'a>) -> T<'a> { at(n, K::Name, n.item, vec![]) }

fn key<'a>(n: &Node<'a, PropertyKey<'a>>) -> T<'a> {
    match n.item {
        PropertyKey::Computed(ref e) => at(n, K::KComp, "", vec![expr(e)]),
        PropertyKey::Literal(s) => at(n, K::KLit, s, vec![]),
        PropertyKey::Binary(s) => at(n, K::KBin, s, vec![]),
    }
}

pub trait FName<'a> { fn t(&self) -> T<'a>; }
impl<'a> FName<'a> for EmptyName { fn t(&self) -> T<'a> { T::none() } }
impl<'a> FName<'a> for OptionalName<'a> { fn t(&self) -> T<'a> { self.0.as_ref().map(name).unwrap_or_else(T::none) } }
impl<'a> FName<'a> for MandatoryName<'a> { fn t(&self) -> T<'a> { name(&self.0) } }

fn func_parts<'a, N: Name<'a> + FName<'a>>(f: &Function<'a, N>) -> (&'a str, Vec<T<'a>>) {
    (if f.generator { "*" } else { "" },
     vec![f.name.t(), T::list(f.params.iter().map(pattern).collect()), block(&f.body)])
}

fn class_parts<'a, N: Name<'a> + FName<'a>>(f: &Class<'a, N>) -> Vec<T<'a>> {
    vec![f.name.t(), f.extends.as_ref().map(expr).unwrap_or_else(T::none),
         at(&f.body, K::Block, "", f.body.body.iter().map(member).collect())]
}

fn method<'a>(n: &Node<'a, Function<'a, EmptyName>>) -> T<'a> {
    let (v, c) = func_parts(&n.item);
    at(n, K::Func, v, c)
}

fn member<'a>(n: &Node<'a, ClassMember<'a>>) -> T<'a> {
    match n.item {
        ClassMember::Error => at(n, K::ErrMember, "", vec![]),
        ClassMember::Method { is_static, key: ref k, kind, ref value } => {
            let v = match (is_static, kind) {
                (false, MethodKind::Constructor) => "constructor",
                (false, MethodKind::Method) => "method",
                (false, MethodKind::Get) => "get",
                (false, MethodKind::Set) => "set",
                (true, MethodKind::Constructor) => "static constructor",
                (true, MethodKind::Method) => "static method",
                (true, MethodKind::Get) => "static get",
                (true, MethodKind::Set) => "static set",
            };
            at(n, K::Method, v, vec![key(k), method(value)])
        }
        ClassMember::Literal { is_static, key: ref k, ref value } =>
            at(n, K::Field, if is_static { "static" } else { "" }, vec![key(k), expr(value)]),
    }
}

fn property<'a>(n: &Node<'a, Property<'a>>) -> T<'a> {
    match n.item {
        Property::Shorthand(s) => at(n, K::PShort, s, vec![]),
        Property::Literal { key: ref k, ref value } => at(n, K::PLit, "", vec![key(k), expr(value)]),
        Property::Method { key: ref k, ref value } => at(n, K::PMeth, "", vec![key(k), method(value)]),
        Property::Spread { ref argument } => at(n, K::PSpread, "", vec![expr(argument)]),
    }
}

/// Trailing commas leave an additional empty element at the end.
fn drop_last<'a>(mut c: Vec<T<'a>>, k: K) -> Vec<T<'a>> {
    if c.last().map(|t| t.k == k).unwrap_or(false) { c.pop(); }
    c
}

fn tpl<'a, X>(n: &Node<'a, X>, t: &TemplateLiteral<'a>) -> T<'a> {
    let mut c = Vec::new();
    let mut e = t.expressions.iter();
    for q in t.quasis.iter() {
        c.push(at(q, K::Quasi, q.item, vec![]));
        if let Some(x) = e.next() { c.push(expr(x)); }
    }
    for x in e { c.push(expr(x)); }
    at(n, K::Tpl, "", c)
}

pub fn expr<'a>(n: &ExpressionNode<'a>) -> T<'a> {
    match n.item {
        Expression::Void => at(n, K::Void, "", vec![]),
        Expression::This(_) => at(n, K::This, "", vec![]),
        Expression::Identifier(s) => at(n, K::Ident, s, vec![]),
        Expression::Literal(ref l) => {
            let (k, v) = match *l {
                Literal::Undefined => (K::Undef, ""),
                Literal::Null => (K::Null, ""),
                Literal::True => (K::True, ""),
                Literal::False => (K::False, ""),
                Literal::Number(s) => (K::Num, s),
                Literal::Binary(s) => (K::Bin, s),
                Literal::String(s) => (K::Str, s),
                Literal::RegEx(s) => (K::Regex, s),
            };
            at(n, k, v, vec![])
        }
        Expression::Sequence(ref s) => at(n, K::Seq, "", s.body.iter().map(expr).collect()),
        Expression::Array(ref s) => at(n, K::Arr, "", drop_last(s.body.iter().map(expr).collect(), K::Void)),
        Expression::Member(ref m) => at(n, K::Member, "", vec![expr(&m.object), name(&m.property)]),
        Expression::ComputedMember(ref m) => at(n, K::Comp, "", vec![expr(&m.object), expr(&m.property)]),
        Expression::MetaProperty(ref m) => at(n, K::Meta, "", vec![name(&m.meta), name(&m.property)]),
        Expression::Call(ref c) => {
            let mut v = vec![expr(&c.callee)];
            v.extend(c.arguments.iter().map(expr));
            at(n, K::Call, "", v)
        }
        Expression::Binary(ref b) => at(n, K::Binary, op(b.operator), vec![expr(&b.left), expr(&b.right)]),
        Expression::Prefix(ref p) if p.operator == O::New => match p.operand.item {
            Expression::Call(_) => {
                let c = expr(&p.operand);
                let b = c.a;
                let mut t = at(n, K::New, "()", c.c);
                t.b = b;
                t
            }
            _ => at(n, K::New, "", vec![expr(&p.operand)]),
        },
        Expression::Prefix(ref p) => at(n, K::Pre, op(p.operator), vec![expr(&p.operand)]),
        Expression::Postfix(ref p) => at(n, K::Post, op(p.operator), vec![expr(&p.operand)]),
        Expression::Conditional(ref c) => at(n, K::Cond, "", vec![expr(&c.test), expr(&c.consequent), expr(&c.alternate)]),
        Expression::Template(ref t) => tpl(n, t),
        Expression::TaggedTemplate(ref t) => at(n, K::Tagged, "", vec![expr(&t.tag), tpl(&t.quasi, &t.quasi.item)]),
        Expression::Spread(ref s) => at(n, K::Spread, "", vec![expr(&s.argument)]),
        Expression::Arrow(ref f) => {
            let body = match f.body {
                ArrowBody::Expression(ref e) => expr(e),
                ArrowBody::Block(ref b) => block(b),
            };
            at(n, K::Arrow, "", vec![T::list(f.params.iter().map(pattern).collect()), body])
        }
        Expression::Object(ref o) => at(n, K::Obj, "", o.body.iter().map(property).collect()),
        Expression::Function(ref f) => { let (v, c) = func_parts(f); at(n, K::Func, v, c) }
        Expression::Class(ref f) => at(n, K::Class, "", class_parts(f)),
    }
}

/// Binding patterns: names that object patterns hold as properties and
/// expressions are turned into the patterns that they stand for.
pub fn pattern<'a>(n: &Node<'a, Pattern<'a>>) -> T<'a> {
    match n.item {
        Pattern::Void => at(n, K::BVoid, "", vec![]),
        Pattern::Identifier(s) => at(n, K::BIdent, s, vec![]),
        Pattern::ObjectPattern { ref properties } => at(n, K::BObj, "", properties.iter().map(bprop).collect()),
        Pattern::ArrayPattern { ref elements } => at(n, K::BArr, "", drop_last(elements.iter().map(pattern).collect(), K::BVoid)),
        Pattern::RestElement { ref argument } => at(n, K::BRest, "", vec![name(argument)]),
        Pattern::AssignmentPattern { ref left, ref right } => at(n, K::BAssign, "", vec![pattern(left), expr(right)]),
    }
}

fn bprop<'a>(n: &Node<'a, Property<'a>>) -> T<'a> {
    match n.item {
        Property::Shorthand(s) => at(n, K::BShort, s, vec![]),
        Property::Literal { key: ref k, ref value } => at(n, K::BProp, "", vec![key(k), expr_to_pattern(expr(value))]),
        Property::Method { .. } => property(n),
        Property::Spread { ref argument } => {
            let mut a = expr_to_pattern(expr(argument));
            if a.k == K::BIdent { a.k = K::Name; }
            at(n, K::BRest, "", vec![a])
        }
    }
}

pub fn expr_to_pattern<'a>(t: T<'a>) -> T<'a> {
    let T { k, v, c, s, e, a, b } = t;
    match k {
        K::Ident => T { k: K::BIdent, v, c, s, e, a, b },
        K::Void => T { k: K::BVoid, v, c, s, e, a, b },
        K::Arr => T { k: K::BArr, v, c: c.into_iter().map(expr_to_pattern).collect(), s, e, a, b },
        K::Spread => {
            let c = c.into_iter().map(|x| { let mut x = expr_to_pattern(x); if x.k == K::BIdent { x.k = K::Name; } x }).collect();
            T { k: K::BRest, v, c, s, e, a, b }
        }
        K::Binary if v == "=" => {
            let mut i = c.into_iter();
            let l = expr_to_pattern(i.next().unwrap());
            T { k: K::BAssign, v: "", c: vec![l, i.next().unwrap()], s, e, a, b }
        }
        K::Obj => {
            let c = c.into_iter().map(|p| match p.k {
                K::PShort => T { k: K::BShort, ..p },
                K::PLit => {
                    let mut i = p.c.into_iter();
                    let key = i.next().unwrap();
                    let val = expr_to_pattern(i.next().unwrap());
                    T { k: K::BProp, v: p.v, c: vec![key, val], s: p.s, e: p.e, a: p.a, b: 0 }
                }
                K::PSpread => {
                    let c = p.c.into_iter().map(|x| { let mut x = expr_to_pattern(x); if x.k == K::BIdent { x.k = K::Name; } x }).collect();
                    T { k: K::BRest, v: p.v, c, s: p.s, e: p.e, a: p.a, b: 0 }
                }
                _ => p,
            }).collect();
            T { k: K::BObj, v, c, s, e, a, b }
        }
        k => T { k, v, c, s, e, a, b },
    }
}

pub fn block<'a>(n: &BlockNode<'a, Statement<'a>>) -> T<'a> {
    at(n, K::Block, "", n.body.iter().map(stmt).collect())
}

fn opt_expr<'a>(e: &Option<ExpressionNode<'a>>) -> T<'a> { e.as_ref().map(expr).unwrap_or_else(T::none) }

fn decl_parts<'a>(d: &DeclarationStatement<'a>) -> (&'static str, Vec<T<'a>>) {
    (match d.kind { DeclarationKind::Var => "var", DeclarationKind::Let => "let", DeclarationKind::Const => "const" },
     d.declarators.iter().map(|d| at(d, K::Dtor, "", vec![pattern(&d.id), opt_expr(&d.init)])).collect())
}

fn for_init<'a>(n: &Node<'a, ForInit<'a>>) -> T<'a> {
    match n.item {
        ForInit::Declaration(ref d) => { let (v, c) = decl_parts(d); at(n, K::Decl, v, c) }
        ForInit::Expression(ref e) => at(n, K::Expr, "", vec![expr(e)]),
    }
}

pub fn stmt<'a>(n: &StatementNode<'a>) -> T<'a> {
    match n.item {
        Statement::Empty => at(n, K::Empty, "", vec![]),
        Statement::Debugger => at(n, K::Debugger, "", vec![]),
        Statement::Expression(ref e) => at(n, K::Expr, "", vec![expr(e)]),
        Statement::Declaration(ref d) => { let (v, c) = decl_parts(d); at(n, K::Decl, v, c) }
        Statement::Return(ref r) => at(n, K::Return, "", vec![opt_expr(&r.value)]),
        Statement::Break(ref b) => at(n, K::Break, "", vec![b.label.as_ref().map(name).unwrap_or_else(T::none)]),
        Statement::Continue(ref b) => at(n, K::Continue, "", vec![b.label.as_ref().map(name).unwrap_or_else(T::none)]),
        Statement::Throw(ref t) => at(n, K::Throw, "", vec![expr(&t.value)]),
        Statement::If(ref i) => at(n, K::If, "", vec![expr(&i.test), stmt(&i.consequent), i.alternate.as_ref().map(stmt).unwrap_or_else(T::none)]),
        Statement::While(ref w) => at(n, K::While, "", vec![expr(&w.test), stmt(&w.body)]),
        Statement::Do(ref w) => at(n, K::Do, "", vec![stmt(&w.body), expr(&w.test)]),
        Statement::For(ref f) => at(n, K::For, "", vec![
            f.init.as_ref().map(for_init).unwrap_or_else(T::none), opt_expr(&f.test), opt_expr(&f.update), stmt(&f.body)]),
        Statement::ForIn(ref f) => at(n, K::ForIn, "", vec![for_init(&f.left), expr(&f.right), stmt(&f.body)]),
        Statement::ForOf(ref f) => at(n, K::ForOf, "", vec![for_init(&f.left), expr(&f.right), stmt(&f.body)]),
        Statement::Try(ref t) => at(n, K::Try, "", vec![
            block(&t.block),
            t.handler.as_ref().map(|h| at(h, K::Catch, "", vec![pattern(&h.param), block(&h.body)])).unwrap_or_else(T::none),
            t.finalizer.as_ref().map(block).unwrap_or_else(T::none)]),
        Statement::Block(ref b) => at(n, K::Block, "", b.body.iter().map(stmt).collect()),
        Statement::Labeled(ref l) => at(n, K::Labeled, l.label, vec![stmt(&l.body)]),
        Statement::Function(ref f) => { let (v, c) = func_parts(f); at(n, K::FnDecl, v, c) }
        Statement::Class(ref f) => at(n, K::ClassDecl, "", class_parts(f)),
        Statement::Switch(ref s) => at(n, K::Switch, "", vec![
            expr(&s.discriminant),
            at(&s.cases, K::Block, "", s.cases.body.iter().map(|c|
                at(c, K::Case, "", vec![opt_expr(&c.test), T::list(c.consequent.iter().map(stmt).collect())])).collect())]),
        Statement::Import(ref i) => at(n, K::Import, i.source, i.specifiers.iter().map(|s| match s.item {
            ForImportSpecifier::ImportSpecifier(ref x) => at(s, K::ImpSpec, "", vec![name(&x.imported), name(&x.local)]),
            ForImportSpecifier::ImportDefaultSpecifier(ref x) => at(s, K::ImpDef, "", vec![name(&x.local)]),
            ForImportSpecifier::ImportNamespaceSpecifier(ref x) => at(s, K::ImpNs, "", vec![name(&x.local)]),
        }).collect()),
    }
}

pub fn program<'a>(body: StatementList<'a>) -> T<'a> {
    T::new(K::Program, "", body.iter().map(stmt).collect(), crate::term::DC, crate::term::DC)
}
