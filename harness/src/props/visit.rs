//! C16, C17, C18: visitors, scope analysis and the transform.
use super::{short, suites};
use crate::conv;
use crate::corpus::*;
use crate::engine::{Check, Done, Property, Task, Tier};
use crate::gen::*;
use crate::model::{self, Outcome, Parsed};
use crate::term::{K, T};
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel::ast::{Expression, ExpressionNode, Identifier, Literal, Statement, StatementList, StatementNode};
use ratel_transformer::scope::{analyze, Scope};
use ratel_visitor::{ParentNode, ScopeKind, Visitable, Visitor};

/// What a visitor is told. Nodes are identified by the address of their data.
#[derive(Clone, PartialEq, Debug)]
pub enum Ev<'a> {
    On(&'static str, usize),
    Push(usize),
    Pop,
    List(Vec<usize>),
    Enter(ScopeKind),
    Leave,
    Use(&'a str),
    Decl(&'a str),
    /// A callback whose arguments do not fit together
    Bad(&'static str),
}

struct Recorder<'a> { log: Log<'a> }

/// What was called, in order.
struct Log<'a>(Vec<Ev<'a>>);
impl<'a> Log<'a> {
    fn push(&mut self, e: Ev<'a>) {
        self.0.push(e);
        // not in visits within the step
        if STEPPING.with(|s| s.replace(false)) {
            let f = STEP.with(|s| s.borrow_mut().take());
            if let Some(mut f) = f { f(); STEP.with(|s| *s.borrow_mut() = Some(f)); }
            STEPPING.with(|s| s.set(true));
        }
    }
}
impl<'a> std::ops::Deref for Log<'a> { type Target = Vec<Ev<'a>>; fn deref(&self) -> &Vec<Ev<'a>> { &self.0 } }

thread_local! {
    static STEPPING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static STEP: std::cell::RefCell<Option<Box<dyn FnMut()>>> = std::cell::RefCell::new(None);
}

/// Visits a module, doing something in every callback.
pub fn log_stepped(module: &'static ratel::Module<'static>, step: Box<dyn FnMut()>) -> String {
    STEP.with(|s| *s.borrow_mut() = Some(step));
    STEPPING.with(|s| s.set(true));
    let mut r = Recorder { log: Log(Vec::new()) };
    module.visit_with(&mut r);
    STEPPING.with(|s| s.set(false));
    STEP.with(|s| *s.borrow_mut() = None);
    logged(&r)
}

fn ea(n: &ExpressionNode) -> usize { &n.item as *const Expression as usize }
fn sa(n: &StatementNode) -> usize { &n.item as *const Statement as usize }

/// The callback has the data of the node it is called with.
macro_rules! on_expr {
    ($($f:ident $v:ident $t:ty;)*) => { $(
        fn $f(&mut self, item: &$t, node: &'ast ExpressionNode<'ast>) {
            let ok = match node.item { Expression::$v(ref x) => x as *const _ as usize == item as *const _ as usize, _ => false };
            self.log.push(if ok { Ev::On(stringify!($f), ea(node)) } else { Ev::Bad(stringify!($f)) });
        }
    )* }
}
macro_rules! on_stmt {
    ($($f:ident $v:ident $t:ty;)*) => { $(
        fn $f(&mut self, item: &$t, node: &'ast StatementNode<'ast>) {
            let ok = match node.item { Statement::$v(ref x) => x as *const _ as usize == item as *const _ as usize, _ => false };
            self.log.push(if ok { Ev::On(stringify!($f), sa(node)) } else { Ev::Bad(stringify!($f)) });
        }
    )* }
}

impl<'ast> Visitor<'ast> for Recorder<'ast> {
    fn push_parent(&mut self, node: ParentNode<'ast>) {
        self.log.push(Ev::Push(match node { ParentNode::Statement(n) => sa(n), ParentNode::Expression(n) => ea(n) }));
    }
    fn pop_parent(&mut self) { self.log.push(Ev::Pop); }
    fn on_statement_list(&mut self, body: StatementList<'ast>) { self.log.push(Ev::List(body.iter().map(sa).collect())); }
    fn on_enter_scope(&mut self, kind: ScopeKind) { self.log.push(Ev::Enter(kind)); }
    fn on_leave_scope(&mut self) { self.log.push(Ev::Leave); }
    fn on_reference_use(&mut self, ident: &Identifier<'ast>) { self.log.push(Ev::Use(*ident)); }
    fn on_reference_declaration(&mut self, ident: &Identifier<'ast>) { self.log.push(Ev::Decl(*ident)); }
    fn on_this_expression(&mut self, node: &'ast ExpressionNode<'ast>) {
        let ok = match node.item { Expression::This(_) => true, _ => false };
        self.log.push(if ok { Ev::On("on_this_expression", ea(node)) } else { Ev::Bad("on_this_expression") });
    }
    fn on_meta_property(&mut self, item: &MetaPropertyExpression<'ast>, node: &ExpressionNode<'ast>) {
        let ok = match node.item { Expression::MetaProperty(ref x) => x as *const _ as usize == item as *const _ as usize, _ => false };
        self.log.push(if ok { Ev::On("on_meta_property", ea(node)) } else { Ev::Bad("on_meta_property") });
    }
    on_expr! {
        on_identifier_expression Identifier Identifier<'ast>;
        on_literal_expression Literal Literal<'ast>;
        on_sequence_expression Sequence SequenceExpression<'ast>;
        on_array_expression Array ArrayExpression<'ast>;
        on_member_expression Member MemberExpression<'ast>;
        on_computed_member_expression ComputedMember ComputedMemberExpression<'ast>;
        on_call_expression Call CallExpression<'ast>;
        on_binary_expression Binary BinaryExpression<'ast>;
        on_prefix_expression Prefix PrefixExpression<'ast>;
        on_postfix_expression Postfix PostfixExpression<'ast>;
        on_conditional_expression Conditional ConditionalExpression<'ast>;
        on_template_literal Template TemplateLiteral<'ast>;
        on_tagged_template_expression TaggedTemplate TaggedTemplateExpression<'ast>;
        on_spread_expression Spread SpreadExpression<'ast>;
        on_arrow_expression Arrow ArrowExpression<'ast>;
        on_object_expression Object ObjectExpression<'ast>;
        on_function_expression Function FunctionExpression<'ast>;
        on_class_expression Class ClassExpression<'ast>;
    }
    fn on_expression_statement(&mut self, item: &'ast ExpressionNode<'ast>, node: &'ast StatementNode<'ast>) {
        let ok = match node.item { Statement::Expression(ref x) => x as *const _ as usize == item as *const _ as usize, _ => false };
        self.log.push(if ok { Ev::On("on_expression_statement", sa(node)) } else { Ev::Bad("on_expression_statement") });
    }
    on_stmt! {
        on_declaration_statement Declaration DeclarationStatement;
        on_return_statement Return ReturnStatement;
        on_break_statement Break BreakStatement;
        on_continue_statement Continue ContinueStatement;
        on_throw_statement Throw ThrowStatement;
        on_if_statement If IfStatement;
        on_while_statement While WhileStatement;
        on_do_statement Do DoStatement;
        on_for_statement For ForStatement;
        on_for_in_statement ForIn ForInStatement;
        on_for_of_statement ForOf ForOfStatement;
        on_try_statement Try TryStatement;
        on_block_statement Block BlockStatement<'ast>;
        on_labeled_statement Labeled LabeledStatement;
        on_switch_statement Switch SwitchStatement;
        on_function_statement Function FunctionStatement<'ast>;
        on_class_statement Class ClassStatement<'ast>;
        on_import_declaration_statement Import ImportDeclaration<'ast>;
    }
}

/// What a visitor is to be told about a tree.
pub struct Plan<'a> { pub out: Vec<Ev<'a>> }

impl<'a> Plan<'a> {
    pub fn of(t: &T<'a>) -> Vec<Ev<'a>> {
        let mut p = Plan { out: Vec::new() };
        p.list(&t.c);
        p.out
    }

    fn list(&mut self, c: &[T<'a>]) {
        self.out.push(Ev::List(c.iter().map(|t| t.a).collect()));
        for s in c { self.stmt(s); }
    }

    fn scope(&mut self, kind: ScopeKind, before: &[T<'a>], list: &[T<'a>]) {
        self.out.push(Ev::Enter(kind));
        for p in before { self.binding(p); }
        self.list(list);
        self.out.push(Ev::Leave);
    }

    fn block(&mut self, t: &T<'a>) { if t.k != K::None { self.scope(ScopeKind::Block, &[], &t.c); } }

    fn function(&mut self, t: &T<'a>) { self.scope(ScopeKind::Function, &t.c[1].c, &t.c[2].c); }

    fn key(&mut self, t: &T<'a>) { if t.k == K::KComp { self.expr(&t.c[0]); } }

    fn members(&mut self, t: &T<'a>) {
        self.expr(&t.c[1]);
        for m in &t.c[2].c {
            self.key(&m.c[0]);
            if m.k == K::Method { self.function(&m.c[1]); } else { self.expr(&m.c[1]); }
        }
    }

    fn property(&mut self, p: &T<'a>) {
        match p.k {
            K::PShort => self.out.push(Ev::Use(p.v)),
            K::PLit => { self.key(&p.c[0]); self.expr(&p.c[1]); }
            K::PMeth => { self.key(&p.c[0]); self.function(&p.c[1]); }
            K::PSpread => self.expr(&p.c[0]),
            k => panic!("property {:?}", k),
        }
    }

    fn binding(&mut self, t: &T<'a>) {
        match t.k {
            K::BVoid => {}
            K::BIdent | K::BShort | K::Name => self.out.push(Ev::Decl(t.v)),
            K::BObj | K::BArr | K::BRest => for c in &t.c { self.binding(c); },
            K::BAssign => { self.binding(&t.c[0]); self.expr(&t.c[1]); }
            K::BProp => { self.key(&t.c[0]); self.binding(&t.c[1]); }
            K::PMeth => self.property(t),
            _ => self.expr(t),
        }
    }

    fn expr(&mut self, t: &T<'a>) {
        use K::*;
        let name = match t.k {
            None | Void => return,
            This => { self.out.push(Ev::On("on_this_expression", t.a)); return; }
            Num | Bin | Str | Regex | True | False | Null | Undef => { self.out.push(Ev::On("on_literal_expression", t.a)); return; }
            Ident => "on_identifier_expression", Seq => "on_sequence_expression", Arr => "on_array_expression",
            Member => "on_member_expression", Comp => "on_computed_member_expression", Meta => "on_meta_property",
            Call => "on_call_expression", New | Pre => "on_prefix_expression", Post => "on_postfix_expression",
            Binary => "on_binary_expression", Cond => "on_conditional_expression", Tpl => "on_template_literal",
            Tagged => "on_tagged_template_expression", Spread => "on_spread_expression", Arrow => "on_arrow_expression",
            Obj => "on_object_expression", Func => "on_function_expression", Class => "on_class_expression",
            k => panic!("expression {:?}", k),
        };
        self.out.push(Ev::On(name, t.a));
        self.out.push(Ev::Push(t.a));
        match t.k {
            Ident => self.out.push(Ev::Use(t.v)),
            Member => self.expr(&t.c[0]),
            Meta => {}
            New if t.b != 0 => {
                self.out.push(Ev::On("on_call_expression", t.b));
                self.out.push(Ev::Push(t.b));
                for c in &t.c { self.expr(c); }
                self.out.push(Ev::Pop);
            }
            Tpl => self.quasi(t),
            Tagged => { self.expr(&t.c[0]); self.quasi(&t.c[1]); }
            Arrow if t.c[1].k == Block => self.scope(ScopeKind::Function, &t.c[0].c, &t.c[1].c),
            Arrow => {
                self.out.push(Ev::Enter(ScopeKind::Function));
                for p in &t.c[0].c { self.binding(p); }
                self.expr(&t.c[1]);
                self.out.push(Ev::Leave);
            }
            Obj => for p in &t.c { self.property(p); },
            Func => self.function(t),
            Class => self.members(t),
            _ => for c in &t.c { self.expr(c); },
        }
        self.out.push(Ev::Pop);
    }

    fn quasi(&mut self, t: &T<'a>) { for c in &t.c { if c.k != K::Quasi { self.expr(c); } } }

    fn decl(&mut self, t: &T<'a>) {
        for d in &t.c { self.binding(&d.c[0]); self.expr(&d.c[1]); }
    }

    fn head(&mut self, t: &T<'a>) {
        match t.k { K::None => {}, K::Decl => self.decl(t), _ => self.expr(&t.c[0]) }
    }

    fn stmt(&mut self, t: &T<'a>) {
        use K::*;
        let name = match t.k {
            None | Empty | Debugger => return,
            Expr => "on_expression_statement", Decl => "on_declaration_statement", Return => "on_return_statement",
            Break => "on_break_statement", Continue => "on_continue_statement", Throw => "on_throw_statement",
            If => "on_if_statement", While => "on_while_statement", Do => "on_do_statement", For => "on_for_statement",
            ForIn => "on_for_in_statement", ForOf => "on_for_of_statement", Try => "on_try_statement",
            Block => "on_block_statement", Labeled => "on_labeled_statement", Switch => "on_switch_statement",
            FnDecl => "on_function_statement", ClassDecl => "on_class_statement", Import => "on_import_declaration_statement",
            k => panic!("statement {:?}", k),
        };
        self.out.push(Ev::On(name, t.a));
        self.out.push(Ev::Push(t.a));
        match t.k {
            Expr | Return | Throw => self.expr(&t.c[0]),
            Decl => self.decl(t),
            Break | Continue => {}
            If => { self.expr(&t.c[0]); self.stmt(&t.c[1]); self.stmt(&t.c[2]); }
            While => { self.expr(&t.c[0]); self.stmt(&t.c[1]); }
            Do => { self.stmt(&t.c[0]); self.expr(&t.c[1]); }
            For => { self.head(&t.c[0]); self.expr(&t.c[1]); self.expr(&t.c[2]); self.stmt(&t.c[3]); }
            ForIn | ForOf => { self.head(&t.c[0]); self.expr(&t.c[1]); self.stmt(&t.c[2]); }
            Try => {
                self.block(&t.c[0]);
                if t.c[1].k != None { self.scope(ScopeKind::Block, &t.c[1].c[..1], &t.c[1].c[1].c); }
                self.block(&t.c[2]);
            }
            Block => self.block(t),
            Labeled => self.stmt(&t.c[0]),
            Switch => {
                self.expr(&t.c[0]);
                self.out.push(Ev::Enter(ScopeKind::Block));
                for c in &t.c[1].c { self.expr(&c.c[0]); self.list(&c.c[1].c); }
                self.out.push(Ev::Leave);
            }
            FnDecl => { self.out.push(Ev::Decl(t.c[0].v)); self.function(t); }
            ClassDecl => { self.out.push(Ev::Decl(t.c[0].v)); self.members(t); }
            Import => for s in &t.c { self.out.push(Ev::Decl(s.c.last().unwrap().v)); },
            _ => unreachable!(),
        }
        self.out.push(Ev::Pop);
    }
}

/// The node that an address stands for, for messages.
fn whose(t: &T, a: usize) -> String {
    fn find<'t, 'a>(t: &'t T<'a>, a: usize) -> Option<&'t T<'a>> {
        if t.a == a || t.b == a && a != 0 { return Some(t); }
        t.c.iter().filter_map(|c| find(c, a)).next()
    }
    match find(t, a) { Some(t) => short(&t.show()), None => "no node of the tree".into() }
}

fn words(t: &T, e: Option<&Ev>) -> String {
    match e {
        None => "the end".into(),
        Some(Ev::On(n, a)) => format!("{} of {}", n, whose(t, *a)),
        Some(Ev::Push(a)) => format!("push_parent of {}", whose(t, *a)),
        Some(Ev::List(l)) => format!("on_statement_list of {}", l.iter().map(|a| whose(t, *a)).collect::<Vec<_>>().join(", ")),
        Some(Ev::Bad(n)) => format!("{} with arguments that do not belong together", n),
        Some(e) => format!("{:?}", e),
    }
}

/// A visitor is told about the module exactly what the plan for its tree says.
fn visited(module: &ratel::Module) -> Check {
    let t = conv::program(module.body());
    let plan = Plan::of(&t);
    let mut r = Recorder { log: Log(Vec::new()) };
    // the visitor does not outlive the module
    let module: &'static ratel::Module<'static> = unsafe { std::mem::transmute(module) };
    module.visit_with(&mut r);
    if plan == *r.log { return Ok(Done::Compared); }
    let i = plan.iter().zip(r.log.iter()).take_while(|(a, b)| a == b).count();
    Err(format!("callback {}: {}, expected {}", i + 1, words(&t, r.log.get(i)), words(&t, plan.get(i))))
}

fn tree(text: &str) -> Option<ratel::Module<'static>> {
    // modules own what they refer to
    ratel::parse(text).ok().map(|m| unsafe { std::mem::transmute(m) })
}

const HOLES: &[&str] = &["x", "x => y", "this", "{ a , b : c }", "function g ( p ) { this . q }", "class { m ( n ) { this } }", "[ , x , ... y ]", "` ${ x } `", "new x ( y )", "t ` ${ x } `", "x = y"];

fn own(tier: Tier) -> Vec<Task> {
    let mut v = Vec::new();
    let holes: Vec<String> = HOLES.iter().map(|s| s.to_string()).collect();
    v.extend(Contexts { name: "expr in stmt in stmt", levels: vec![STMT, EXPR_IN_STMT], fill: holes.clone() }.tasks());
    v.extend(Contexts { name: "expr in expr in stmt", levels: vec![EXPR_IN_STMT, EXPR], fill: holes.clone() }.tasks());
    v.extend(Contexts { name: "expr in pattern", levels: vec![BIND, BIND_IN, &["a = @", "{ [ @ ] : b }", "[ b = @ ]"]], fill: holes }.tasks());
    v.extend(suites::programs(tier));
    v
}

pub struct C16;
impl Property for C16 {
    fn id(&self) -> &'static str { "C16" }
    fn scope(&self, t: Tier) -> String { format!("{} expressions in every place of statements, expressions and patterns; {}", HOLES.len(), suites::scope_words(t)) }
    fn text(&self, text: &str, m: &Parsed) -> Check {
        let module = match tree(text) { Some(m) => m, None => return Ok(Done::Skipped) };
        visited(&module)?;
        let t = conv::program(module.body());
        Ok(match m.out { Outcome::Ok(ref w) if w.same(&t) => Done::Compared, _ => Done::Skipped })
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> { own(tier) }
}

// ------------------------------------------------------------------ scopes

#[derive(Debug)]
struct Want<'a> { kind: ScopeKind, used: Vec<&'a str>, declared: Vec<&'a str>, this: bool, children: Vec<Want<'a>> }

fn want<'a>(kind: ScopeKind, plan: &mut std::slice::Iter<Ev<'a>>) -> Want<'a> {
    let mut w = Want { kind, used: vec![], declared: vec![], this: false, children: vec![] };
    while let Some(e) = plan.next() {
        match *e {
            Ev::Enter(k) => w.children.push(want(k, plan)),
            Ev::Leave => return w,
            Ev::Use(n) => if !w.used.contains(&n) { w.used.push(n) },
            Ev::Decl(n) => if !w.declared.contains(&n) { w.declared.push(n) },
            Ev::On("on_this_expression", _) => w.this = true,
            _ => {}
        }
    }
    w
}

fn scope_is<'a>(s: &'a Scope<'a>, w: &Want<'a>, parent: Option<&'a Scope<'a>>, path: &str, all: &[&'a str]) -> Result<(), String> {
    if s.kind != w.kind { return Err(format!("scope {} is a {:?} scope, expected {:?}", path, s.kind, w.kind)); }
    if s.used_this.get() != w.this { return Err(format!("scope {} uses this: {}, expected {}", path, s.used_this.get(), w.this)); }
    if s.parent.map(|p| p as *const Scope) != parent.map(|p| p as *const Scope) { return Err(format!("scope {} has another parent", path)); }
    for (what, map, names) in [("uses", &s.used_refs, &w.used), ("declares", &s.declared_refs, &w.declared)] {
        let mut got: Vec<&str> = map.iter().map(|(k, _)| *k).collect();
        let mut exp: Vec<&str> = names.clone();
        got.sort();
        exp.sort();
        if got != exp { return Err(format!("scope {} {} {:?}, expected {:?}", path, what, got, exp)); }
        if map.is_empty() != exp.is_empty() { return Err(format!("scope {} {} {:?}, is empty: {}", path, what, exp, map.is_empty())); }
        for n in all { if map.contains_key(n) != exp.contains(n) { return Err(format!("scope {} {} {:?}, contains {:?}: {}", path, what, exp, n, map.contains_key(n))); } }
    }
    let children: Vec<&Scope> = s.children.as_list().iter().map(|s| *s).collect();
    if children.len() != w.children.len() { return Err(format!("scope {} has {} children, expected {}", path, children.len(), w.children.len())); }
    for (i, (c, w)) in children.into_iter().zip(&w.children).enumerate() { scope_is(c, w, Some(s), &format!("{}.{}", path, i), all)?; }
    Ok(())
}

fn scopes(module: &ratel::Module) -> Check {
    let module: &'static ratel::Module<'static> = unsafe { std::mem::transmute(module) };
    let t = conv::program(module.body());
    let plan = Plan::of(&t);
    let w = want(ScopeKind::Function, &mut plan.iter());
    let mut all: Vec<&str> = plan.iter().filter_map(|e| match *e { Ev::Use(n) | Ev::Decl(n) => Some(n), _ => None }).collect();
    all.extend(["zz", "q", ""]);
    all.sort();
    all.dedup();
    scope_is(analyze(module), &w, None, "root", &all)?;
    // a second analysis has the same result
    scope_is(analyze(module), &w, None, "root (second time)", &all)?;
    Ok(Done::Compared)
}

pub struct C17;
impl Property for C17 {
    fn id(&self) -> &'static str { "C17" }
    fn scope(&self, t: Tier) -> String { format!("{} expressions in every place of statements, expressions and patterns; {}", HOLES.len(), suites::scope_words(t)) }
    fn text(&self, text: &str, m: &Parsed) -> Check {
        let module = match tree(text) { Some(m) => m, None => return Ok(Done::Skipped) };
        scopes(&module)?;
        let t = conv::program(module.body());
        Ok(match m.out { Outcome::Ok(ref w) if w.same(&t) => Done::Compared, _ => Done::Skipped })
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let mut v = Vec::new();
        // many names in one scope
        v.push(Task { name: "many names".into(), run: Box::new(move |cx| {
            for n in 1..if tier == Tier::Quick { 150 } else { 400 } {
                for (pre, unit, sep, post) in [("", "a#", "\n", ""), ("", "var a#", ";", ""), ("function f(", "a#", ",", ") {}"), ("{", "b#; { c# }", ";", "}"), ("let {", "x#", ",", "} = y"), ("import {", "é#", ",", "} from 'm'"), ("f(", "_# => $#", ",", ")")] {
                    let l: Vec<String> = (0..n).map(|i| unit.replace('#', &i.to_string())).collect();
                    cx.text(&format!("{}{}{}", pre, l.join(sep), post));
                }
            }
        }) });
        v.extend(own(tier));
        v
    }
}

// ------------------------------------------------------------------ transform

/// The tree after the transform.
fn without_arrows<'a>(t: &T<'a>) -> T<'a> {
    let mut c: Vec<T<'a>> = t.c.iter().map(without_arrows).collect();
    if t.k != K::Arrow { return T { k: t.k, v: t.v, c, s: t.s, e: t.e, a: 0, b: 0 }; }
    let body = c.pop().unwrap();
    let params = c.pop().unwrap();
    let body = if body.k == K::Block { body } else {
        let (s, e) = (body.s, body.e);
        T::new(K::Block, "", vec![T::new(K::Return, "", vec![body], s, e)], s, e)
    };
    T::new(K::Func, "", vec![T::none(), params, body], t.s, t.e)
}

fn transform(module: &mut ratel::Module<'static>) {
    let m: *mut ratel::Module<'static> = module;
    // the transform does not keep the reference
    ratel_transformer::transform(unsafe { &mut *m });
}

fn transformed(module: &mut ratel::Module<'static>, meant: bool) -> Check {
    let before = conv::program(module.body());
    let want = without_arrows(&before);
    let arrows = !want.same(&before);
    for time in ["transformed", "transformed twice"] {
        transform(module);
        let got = conv::program(module.body());
        if !want.same(&got) { return Err(format!("{} to {}, expected {}", time, short(&got.show()), short(&want.show()))); }
        if let Some(d) = want.span_diff(&got, &mut String::new()) { return Err(format!("{}: {}", time, d)); }
        let json = serde_json::to_string(&*module).map_err(|e| format!("{}, not serialized: {}", time, e))?;
        if json.contains("\"ArrowFunctionExpression\"") { return Err(format!("{}: still an arrow function in {}", time, short(&json))); }
        // the transformed module can be visited and analysed as any other
        if arrows { visited(module)?; scopes(module)?; }
    }
    if meant {
        for minify in [true, false] {
            let code = ratel_codegen::codegen(module, minify);
            match model::parse(&code).out {
                Outcome::Ok(ref got) => if !super::codegen::same_program(&want, got) { return Err(format!("the code after the transform is {:?}, which means {}, expected {}", short(&code), short(&got.show()), short(&want.show()))) },
                _ => return Err(format!("the code after the transform is {:?}, expected {}", short(&code), short(&want.show()))),
            }
        }
    }
    Ok(if arrows { Done::Compared } else { Done::Skipped })
}

const ARROWS: &[&str] = &["x => y", "( ) => { }", "( a , b = c => d ) => { return e => f }", "x => y => z", "x => ( y , z => w )", "x => { y ; { z => w } }", "x => ( { a } )", "x => ( { a : b => c , d ( ) { e => f } } )", "( a = ( ) => this ) => this", "x => function ( ) { y => z }", "x => [ y => z , ... a => b ]", "x => y ( z => w ) ( v => u )", "x => ` ${ y => z } `", "x => class extends ( y => z ) { a = b => c }", "x => y ? z => w : v => u", "x => y = z => w"];

pub struct C18;
impl Property for C18 {
    fn id(&self) -> &'static str { "C18" }
    fn scope(&self, t: Tier) -> String { format!("{} arrow functions in every place of statements, expressions and patterns, and nested in each other; {}", ARROWS.len(), suites::scope_words(t)) }
    fn text(&self, text: &str, m: &Parsed) -> Check {
        let mut module = match tree(text) { Some(m) => m, None => return Ok(Done::Skipped) };
        let meant = match m.out { Outcome::Ok(ref t) => t.same(&conv::program(module.body())), _ => false };
        transformed(&mut module, meant)
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let mut v = Vec::new();
        let fill: Vec<String> = ARROWS.iter().map(|s| s.to_string()).collect();
        v.extend(Contexts { name: "arrows in stmt in stmt", levels: vec![STMT, EXPR_IN_STMT], fill: fill.clone() }.tasks());
        v.extend(Contexts { name: "arrows in expr in stmt", levels: vec![EXPR_IN_STMT, EXPR], fill: fill.clone() }.tasks());
        v.extend(Contexts { name: "arrows in expr in expr", levels: vec![EXPR, EXPR], fill: fill.clone() }.tasks());
        v.extend(Contexts { name: "arrows in pattern", levels: vec![BIND, BIND_IN, &["a = @", "{ [ @ ] : b }", "[ b = @ ]"]], fill }.tasks());
        v.extend(Dfs { name: "arrow, deeper", root: "", alphabet: TOK_ARROW, depth: if tier == Tier::Quick { 6 } else { 7 }, complete: true, all: false, sep: " " }.tasks());
        v.extend(suites::programs(tier));
        v
    }
}

/// The log of a visit, without addresses.
pub fn log(module: &'static ratel::Module<'static>) -> String {
    let mut r = Recorder { log: Log(Vec::new()) };
    module.visit_with(&mut r);
    logged(&r)
}

fn logged(r: &Recorder) -> String {
    use std::fmt::Write;
    let mut seen = std::collections::HashMap::new();
    let mut id = |a: usize| { let n = seen.len(); *seen.entry(a).or_insert(n) };
    let mut s = String::new();
    for e in r.log.iter() {
        let _ = match e {
            Ev::On(n, a) => write!(s, "{} {};", n, id(*a)),
            Ev::Push(a) => write!(s, "push {};", id(*a)),
            Ev::List(l) => { for a in l { let _ = write!(s, "{},", id(*a)); } write!(s, "list;") }
            e => write!(s, "{:?};", e),
        };
    }
    s
}

/// The scopes, in a form that can be compared.
pub fn scope_words(module: &'static ratel::Module<'static>) -> String {
    fn go(s: &Scope, out: &mut String) {
        use std::fmt::Write;
        let names = |m: &toolshed::map::BloomMap<&str, ()>| { let mut v: Vec<String> = m.iter().map(|(k, _)| k.to_string()).collect(); v.sort(); v.join(" ") };
        let _ = write!(out, "({:?} {} [{}] [{}]", s.kind, s.used_this.get(), names(&s.used_refs), names(&s.declared_refs));
        for c in s.children.as_list().iter() { go(c, out); }
        out.push(')');
    }
    let mut s = String::new();
    let root = analyze(module);
    go(root, &mut s);
    let _ = format!("{:?}", root);
    s
}
