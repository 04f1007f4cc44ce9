//! C20: results depend on the source text alone.
//!
//! Every case is a history of operations, run in a process of its own that has used
//! nothing of the code under test before. What each operation gives is compared with
//! what it gives when it is all that a process does.
use super::short;
use super::size::{program, programs};
use super::total::{deep, long, module, view, VIEWS};
use crate::engine::{Check, Ctx, Done, Property, Task, Tier};
use ratel::error::ParseError;
use ratel::lexer::{Lexer, Token};
use ratel::Module;
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

type Res = Result<(), String>;

/// Texts besides the programs: longer than the pages of an arena, deeper than the parser goes.
const LARGE: &[(bool, usize, usize)] = &[(false, 0, 3000), (false, 62, 9000), (false, 44, 2000), (false, 30, 2500), (true, 0, 300), (true, 24, 200), (true, 48, 400), (true, 5, 700), (false, 1, 3000)];

fn source(i: usize) -> String {
    if i < programs() { return program(i).to_string(); }
    let (d, k, n) = LARGE[i - programs()];
    if d { deep(k, n) } else { long(k, n) }
}

fn sources() -> usize { programs() + LARGE.len() }

fn views(text: &str) -> Vec<&'static str> {
    // indentation takes time cubic in the depth
    VIEWS.iter().copied().filter(|v| (*v != "debug pretty" || text.len() < 250) && (text.len() < 2000 || !["json pretty", "code", "value", "module"].contains(v))).collect()
}

/// A parsed text, or why it was not.
enum Parsed { Module(Module<'static>), Errors(String) }

fn parse(text: &str) -> Parsed {
    match module(text) {
        Ok(m) => Parsed::Module(m),
        Err(l) => {
            let mut s = String::new();
            let n = l.len();
            for (i, e) in l.into_iter().enumerate() {
                s.push_str(&format!("{:?} ", e));
                if i < 3 || i + 1 == n { s.push_str(&ParseError::UnexpectedToken { source: text.to_string(), start: e.start, end: e.end }.to_string()); }
            }
            Parsed::Errors(s)
        }
    }
}

/// Parses a text whose memory is then put to other use.
fn parse_moved(text: &str) -> Parsed {
    let mut b = text.to_string().into_bytes();
    let p = parse(unsafe { std::str::from_utf8_unchecked(&b) });
    for c in b.iter_mut() { *c = b'%'; }
    std::hint::black_box(&b);
    p
}

fn show(p: &Parsed, v: &str) -> String {
    match p {
        Parsed::Module(m) => if v == "parse" { "a module".into() } else { view(m, v) },
        Parsed::Errors(e) => if v == "parse" { e.clone() } else { String::new() },
    }
}

// ---- processes ----

struct Area { at: *mut u8 }
const AREA: usize = 32 << 20;
thread_local! { static SHARED: Area = Area { at: unsafe {
    let p = libc::mmap(std::ptr::null_mut(), AREA, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
} } }

/// Runs `f` in a process of its own.
fn apart<F: FnOnce() -> Result<String, String>>(f: F) -> Result<String, String> {
    let at = SHARED.with(|a| a.at);
    unsafe {
        *(at as *mut u64) = 0;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = match catch_unwind(AssertUnwindSafe(f)) { Ok(r) => r, Err(_) => Err(format!("panicked: {}", crate::engine::last_panic())) };
            let (tag, s) = match r { Ok(s) => (1u64, s), Err(s) => (2, s) };
            let n = s.len().min(AREA - 16);
            std::ptr::copy_nonoverlapping(s.as_ptr(), at.add(16), n);
            *(at as *mut u64).add(1) = n as u64;
            *(at as *mut u64) = tag;
            libc::_exit(0);
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) != pid {}
        let tag = *(at as *const u64);
        if tag == 0 {
            return Err(if libc::WIFSIGNALED(status) { format!("process died of signal {}", libc::WTERMSIG(status)) } else { format!("process exited with status {}", libc::WEXITSTATUS(status)) });
        }
        let s = String::from_utf8_lossy(std::slice::from_raw_parts(at.add(16), *(at as *const u64).add(1) as usize)).into_owned();
        if tag == 1 { Ok(s) } else { Err(s) }
    }
}

/// What a text gives, view by view, each in a process that does nothing else.
struct Alone { text: String, views: Vec<(&'static str, String)> }

impl Alone {
    fn of(&self, v: &str) -> &str { &self.views.iter().find(|x| x.0 == v).unwrap().1 }
    fn is(&self, p: &Parsed, v: &str, when: &str) -> Res {
        let got = show(p, v);
        let want = self.of(v);
        if got == want { return Ok(()); }
        let i = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
        let cut = |s: &str| { let s = String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(60).min(s.len())..]).into_owned(); short(&s) };
        Err(format!("{} of {:?} {} is {:?}, alone it is {:?} (near {})", v, short(&self.text), when, cut(&got), cut(want), i))
    }
    fn names(&self) -> impl Iterator<Item = &'static str> + '_ { self.views.iter().map(|x| x.0) }
}

thread_local! { static ALONE: RefCell<HashMap<String, Rc<Alone>>> = RefCell::new(HashMap::new()); }

fn alone(text: &str) -> Result<Rc<Alone>, String> {
    if let Some(a) = ALONE.with(|m| m.borrow().get(text).cloned()) { return Ok(a); }
    let mut l = Vec::new();
    let first = apart(|| Ok(match parse(text) { Parsed::Module(_) => "a module".into(), Parsed::Errors(e) => e }))?;
    let module = first == "a module";
    l.push(("parse", first));
    if module { for v in views(text) { l.push((v, apart(|| Ok(show(&parse(text), v)))?)); } }
    let a = Rc::new(Alone { text: text.to_string(), views: l });
    ALONE.with(|m| m.borrow_mut().insert(text.to_string(), a.clone()));
    Ok(a)
}

fn done(r: Result<String, String>) -> Check { r.map(|_| Done::Compared) }

// ---- histories ----

/// One text after and between uses of another, in every way two can follow each other.
fn pair(a: &Alone, b: &Alone) -> Res {
    let all = |p: &Parsed, x: &Alone, when: &str| -> Res { for v in x.names() { x.is(p, v, when)?; } Ok(()) };
    let pa = parse_moved(&a.text);
    all(&pa, a, "at first")?;
    let pb = parse_moved(&b.text);
    all(&pb, b, "while another is alive")?;
    all(&pa, a, "after another was parsed")?;
    drop(pa);
    all(&pb, b, "after another was dropped")?;
    drop(pb);
    // in place of one that was dropped
    let pa = parse(&a.text);
    drop(pa);
    let pb = parse(&b.text);
    all(&pb, b, "in place of another")?;
    let pa = parse(&a.text);
    // alternating, in opposite orders
    let (va, vb): (Vec<_>, Vec<_>) = (a.names().collect(), b.names().collect());
    for i in 0..va.len().max(vb.len()) {
        if i < va.len() { a.is(&pa, va[i], "alternating")?; }
        if i < vb.len() { b.is(&pb, vb[vb.len() - 1 - i], "alternating")?; }
    }
    Ok(())
}

/// Every view right after every other, twice.
fn orders(a: &Alone) -> Res {
    let p = parse_moved(&a.text);
    for v in a.names() { for w in a.names() { a.is(&p, v, "among all views")?; a.is(&p, w, &format!("after {}", v))?; } }
    for v in a.names() {
        let p = parse(&a.text);
        for _ in 0..3 { a.is(&p, v, "repeated")?; }
        for w in a.names() { a.is(&p, w, &format!("after three times {}", v))?; }
    }
    Ok(())
}

fn again(a: &Alone, n: usize, few: bool) -> Res {
    let mut kept = Vec::new();
    for i in 0..n {
        let p = parse(&a.text);
        if few && i > 40 && i % 64 > 2 && n - i > 3 { a.is(&p, "parse", &format!("the {}th time", i + 1))?; continue; }
        for v in a.names() { a.is(&p, v, &format!("the {}th time", i + 1))?; }
        if i % 5 == 0 && kept.len() < 300 { kept.push(p); }
    }
    for p in &kept { for v in a.names() { a.is(p, v, "after all")?; } }
    Ok(())
}

/// Texts of one shape in turn: each is parsed into the memory of the one before, where
/// everything has the same place and length but other contents.
fn twins(l: &[Rc<Alone>]) -> Res {
    let names: Vec<&'static str> = l[0].names().collect();
    let views = |x: &Alone, v: &str| x.names().any(|w| w == v);
    for v in &names {
        for x in l.iter().chain(l.iter().rev()) {
            if !views(x, v) { continue; }
            let p = parse(&x.text);
            x.is(&p, v, "in place of one like it")?;
        }
    }
    // all views of one, then of the next
    for x in l.iter().chain(l.iter().rev()) {
        let p = parse(&x.text);
        for v in x.names() { x.is(&p, v, "in place of one like it")?; }
    }
    // all alive, view by view
    let m: Vec<Parsed> = l.iter().map(|x| parse(&x.text)).collect();
    for v in &names {
        for (p, x) in m.iter().zip(l).chain(m.iter().zip(l).rev()) { if views(x, v) { x.is(p, v, "besides one like it")?; } }
    }
    Ok(())
}

const KEYWORDS: &[&str] = &["async", "await", "break", "case", "catch", "class", "const", "constructor", "continue", "debugger", "default", "delete", "do", "else", "export", "extends", "false", "finally", "for", "from", "function", "get", "if", "import", "in", "instanceof", "as", "let", "new", "null", "of", "return", "set", "static", "super", "switch", "this", "throw", "true", "try", "typeof", "undefined", "var", "void", "while", "with", "yield", "enum", "implements", "interface", "package", "private", "protected", "public"];

/// The text with other letters in names and strings, and other digits.
fn twin(text: &str, by: u8) -> String {
    let b = text.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'\\' && i + 1 < b.len() { out.extend_from_slice(&b[i..i + 2]); i += 2; continue; }
        if !(c.is_ascii_alphanumeric() || c == b'_' || c == b'$') { out.push(c); i += 1; continue; }
        let mut j = i;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] == b'$') { j += 1; }
        let w = &text[i..j];
        let number = c.is_ascii_digit();
        if KEYWORDS.contains(&w) { out.extend_from_slice(&b[i..j]); }
        else { for (k, &c) in b[i..j].iter().enumerate() { out.push(match c {
            b'1'..=b'7' if !number || !w.starts_with("0b") && !w.starts_with("0B") => (c - b'1' + by) % 7 + b'1',
            b'0'..=b'1' if number && k > 2 => b'0' + (c - b'0' + by) % 2,
            b'a'..=b'z' if !number => (c - b'a' + by) % 26 + b'a',
            b'A'..=b'Z' if !number => (c - b'A' + by) % 26 + b'A',
            c => c,
        }); } }
        i = j;
    }
    String::from_utf8(out).unwrap()
}

/// More texts that have twins.
const SHAPES: &[&str] = &["x = 1.5 ;", "x = 12 ;", "x = 1e3 ;", "x = .25 ;", "x = 0x12 ;", "x = 0o17 ;", "x = 0b1011 ;", "x = 'abc' ;", "x = `abc` ;", "x = `a${ b }c` ;", "x = a`b${ c }d` ;", "x = /ab/g ;", "abc ;", "abc . def [ 1 ] ( g ) ;",
    "var abc = 1 , d = 2 ; function f ( a , d ) { return abc + d ; }", "{ let a = 1 ; { let b = a ; } } c ;", "l : for ( a in b ) { continue l ; }", "x = { ab : 1 , 'cd' : 2 , 3 : 4 , ef ( ) { } } ;", "class A extends B { c ( ) { } static d ( ) { } }", "a ) b", "a = 1 2 ; (", "var 1 = abc ;", "import a , { b as c } from 'd' ;", "( a , b ) => a + b ; c => d ;"];

fn shape(i: usize) -> String { if i < SHAPES.len() { SHAPES[i].to_string() } else { source(i - SHAPES.len()) } }

// ---- sequences of operations ----

const SLOTS: usize = 2;
const STEP_VIEWS: &[&str] = &["json", "code minified", "visit", "scopes"];
const THREADS: usize = 2;

/// An operation: parse a text into a slot on a thread, look at a slot, empty it.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Parse(usize, usize, usize), View(usize, usize), Drop(usize) }

impl Op {
    fn word(self) -> String { match self { Op::Parse(s, t, h) => format!("p{}.{}.{}", s, t, h), Op::View(s, v) => format!("v{}.{}", s, v), Op::Drop(s) => format!("d{}", s) } }
    fn read(w: &str) -> Op {
        let n: Vec<usize> = w[1..].split('.').map(|x| x.parse().unwrap()).collect();
        match w.as_bytes()[0] { b'p' => Op::Parse(n[0], n[1], n[2]), b'v' => Op::View(n[0], n[1]), _ => Op::Drop(n[0]) }
    }
}

struct Ptr<X>(X);
unsafe impl<X> Send for Ptr<X> {}
impl<X> Ptr<X> { fn get(self) -> X { self.0 } }

/// A thread that does what it is told, one thing at a time.
struct Hand { to: std::sync::mpsc::Sender<Ptr<Box<dyn FnOnce() -> Res>>>, from: std::sync::mpsc::Receiver<Res> }

impl Hand {
    fn new() -> Hand {
        let (to, rx) = std::sync::mpsc::channel::<Ptr<Box<dyn FnOnce() -> Res>>>();
        let (tx, from) = std::sync::mpsc::channel();
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || for f in rx {
            let f = f.get();
            let r = match catch_unwind(AssertUnwindSafe(f)) { Ok(r) => r, Err(_) => Err(format!("panicked: {}", crate::engine::last_panic())) };
            if tx.send(r).is_err() { return; }
        }).expect("thread");
        Hand { to, from }
    }
    /// Lifetimes end after the call, which waits.
    fn run(&self, f: Box<dyn FnOnce() -> Res + '_>) -> Res {
        let f: Box<dyn FnOnce() -> Res + 'static> = unsafe { std::mem::transmute(f) };
        self.to.send(Ptr(f)).map_err(|_| "the thread is gone".to_string())?;
        self.from.recv().unwrap_or_else(|_| Err("the thread is gone".into()))
    }
}

fn sequence(ops: &[Op], texts: &[Rc<Alone>]) -> Res {
    let mut slots: Vec<Option<(usize, usize, Parsed)>> = (0..SLOTS).map(|_| None).collect();
    let mut other: Option<Hand> = None;
    for (i, &op) in ops.iter().enumerate() {
        let thread = match op { Op::Parse(_, _, h) => h, Op::View(s, _) | Op::Drop(s) => slots[s].as_ref().map_or(0, |x| x.1) };
        let slots = &mut slots;
        let mut f = move || -> Res {
            match op {
                Op::Parse(s, t, h) => {
                    // modules are dropped on the thread they belong to
                    let p = parse_moved(&texts[t].text);
                    texts[t].is(&p, "parse", &format!("in step {}", i + 1))?;
                    slots[s] = Some((t, h, p));
                }
                Op::View(s, v) => if let Some((t, _, p)) = &slots[s] { if let Parsed::Module(_) = p { texts[*t].is(p, STEP_VIEWS[v], &format!("in step {}", i + 1))?; } },
                Op::Drop(s) => slots[s] = None,
            }
            Ok(())
        };
        if thread == 0 { f()? } else { other.get_or_insert_with(Hand::new).run(Box::new(f))? }
    }
    // all that is left
    for s in 0..SLOTS {
        let Some((t, h, _)) = slots[s] else { continue };
        let slots = &slots;
        let f = || -> Res { let p = &slots[s].as_ref().unwrap().2; for v in texts[t].names() { texts[t].is(p, v, "at the end")?; } Ok(()) };
        if h == 0 { f()? } else { other.get_or_insert_with(Hand::new).run(Box::new(f))? }
    }
    Ok(())
}

/// All sequences of operations of a length that use what they make.
fn sequences(cx: &mut Ctx, texts: &[usize], trio: &str, ops: &mut Vec<Op>, used: [Option<usize>; SLOTS], left: usize) {
    if left == 0 || cx.stopped() {
        let w: Vec<String> = ops.iter().map(|o| o.word()).collect();
        cx.case("sequence", &format!("{} {}", trio, w.join(" ")), ops.len() as u64);
        return;
    }
    for s in 0..SLOTS {
        // slots are alike: the first to be used is the first
        if s > 0 && ops.is_empty() { continue; }
        for t in 0..texts.len() { for h in 0..THREADS {
            // another thread's module is dropped there first
            if used[s].map_or(false, |x| x != h) { continue; }
            let mut u = used;
            u[s] = Some(h);
            ops.push(Op::Parse(s, t, h));
            sequences(cx, texts, trio, ops, u, left - 1);
            ops.pop();
        } }
        if used[s].is_some() {
            for v in 0..STEP_VIEWS.len() {
                ops.push(Op::View(s, v));
                sequences(cx, texts, trio, ops, used, left - 1);
                ops.pop();
            }
            let mut u = used;
            u[s] = None;
            ops.push(Op::Drop(s));
            sequences(cx, texts, trio, ops, u, left - 1);
            ops.pop();
        }
    }
}

// ---- operations within operations ----

struct Stepper<'a> { out: Vec<u8>, step: &'a mut dyn FnMut() }
impl<'a> std::io::Write for Stepper<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { (self.step)(); self.out.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl<'a> std::fmt::Write for Stepper<'a> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result { (self.step)(); self.out.extend_from_slice(s.as_bytes()); Ok(()) }
}

const STEPPED: &[&str] = &["json", "json pretty", "debug", "module", "visit"];

/// A view during which `step` is called at every call out of the code under test.
fn stepped(m: &Module<'static>, v: &str, step: &mut dyn FnMut()) -> String {
    use std::fmt::Write;
    if v == "visit" {
        let m: &'static Module<'static> = unsafe { &*(m as *const _) };
        let step: &'static mut dyn FnMut() = unsafe { std::mem::transmute(step) };
        return super::visit::log_stepped(m, Box::new(move || step()));
    }
    let mut w = Stepper { out: Vec::new(), step };
    match v {
        "json" => serde_json::to_writer(&mut w, m).unwrap(),
        "json pretty" => serde_json::to_writer_pretty(&mut w, m).unwrap(),
        "debug" => write!(w, "{:?}", m.body()).unwrap(),
        "module" => write!(w, "{:?}", m).unwrap(),
        v => panic!("no view {}", v),
    }
    String::from_utf8(w.out).unwrap_or_else(|_| "not UTF-8".into())
}

/// At the k-th call out, everything is done with another text.
fn within(a: &Alone, v: &'static str, k: usize, b: &Alone, apart: bool) -> Result<usize, String> {
    let pa = parse_moved(&a.text);
    let Parsed::Module(ref m) = pa else { return Ok(0) };
    let mut n = 0;
    let mut bad: Res = Ok(());
    let hand = if apart { Some(Hand::new()) } else { None };
    let got = stepped(m, v, &mut || {
        n += 1;
        if n != k { return; }
        let f = || -> Res { let p = parse(&b.text); for w in b.names() { b.is(&p, w, &format!("within {} of another", v))?; } Ok(()) };
        bad = match hand { Some(ref h) => h.run(Box::new(f)), None => f() };
    });
    bad?;
    let want = a.of(v);
    if got != want { return Err(format!("{} of {:?} with {:?} at its call {} is {:?}, alone it is {:?}", v, short(&a.text), short(&b.text), k, short(&got), short(want))); }
    Ok(n)
}

// ---- lexers ----

fn tokens(text: &str) -> Vec<(String, u32, u32, String)> {
    let arena = toolshed::Arena::new();
    let mut l = Lexer::new(&arena, text);
    let mut v = Vec::new();
    loop {
        v.push((format!("{:?}", l.token), l.start(), l.end(), l.token_as_str().to_string()));
        if l.token == Token::EndOfProgram || v.len() > 40 { return v; }
        l.consume();
    }
}

/// Two lexers, interleaved in every way.
fn lexers(a: &str, b: &str, ta: &[(String, u32, u32, String)], tb: &[(String, u32, u32, String)]) -> Res {
    let (na, nb) = (ta.len().min(6), tb.len().min(6));
    let n = na + nb;
    for mask in 0u32..1 << n {
        if mask.count_ones() as usize != nb { continue; }
        let arena = toolshed::Arena::new();
        let (mut la, mut lb): (Option<Lexer>, Option<Lexer>) = (None, None);
        let (mut i, mut j) = (0, 0);
        for s in 0..n {
            let (l, text, k, want) = if mask >> s & 1 == 0 { i += 1; (&mut la, a, i - 1, ta) } else { j += 1; (&mut lb, b, j - 1, tb) };
            match l { None => *l = Some(Lexer::new(&arena, text)), Some(l) => l.consume() }
            let l = l.as_mut().unwrap();
            let got = (format!("{:?}", l.token), l.start(), l.end(), l.token_as_str().to_string());
            if got != want[k] { return Err(format!("token {} of {:?} interleaved ({:b}) with {:?} is {:?}, alone it is {:?}", k + 1, short(text), mask, short(if mask >> s & 1 == 0 { b } else { a }), got, want[k])); }
        }
    }
    Ok(())
}

// ---- schedules ----

/// What the signal handlers know: at an address of its own, away from all static data.
#[repr(C)]
struct Race { lo: usize, len: usize, armed: bool, count: u64, at: u64, tid: u32, ready: u32, go: u32, done: u32, blocked: u32 }
const RACE: *mut Race = 0x6100_0000_0000 as *mut Race;

extern "C" fn touched(_: libc::c_int, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let a = (*info).si_addr() as usize;
        if !(*RACE).armed || a < (*RACE).lo || a >= (*RACE).lo + (*RACE).len {
            libc::signal(libc::SIGSEGV, libc::SIG_DFL);
            return;
        }
        libc::mprotect((*RACE).lo as *mut _, (*RACE).len, libc::PROT_READ | libc::PROT_WRITE);
        (*RACE).count += 1;
        if (*RACE).count == (*RACE).at {
            (*RACE).armed = false;
            hand_over(2000);
            return;
        }
        (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
    }
}

extern "C" fn stepped_over(_: libc::c_int, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        if (*RACE).armed { libc::mprotect((*RACE).lo as *mut _, (*RACE).len, libc::PROT_NONE); }
    }
}

/// Whether the other thread sleeps, by what the system says of it.
unsafe fn asleep() -> bool {
    let mut name = *b"/proc/self/task/0000000000/stat\0";
    let mut n = (*RACE).tid;
    for i in (16..26).rev() { name[i] = b'0' + (n % 10) as u8; n /= 10; }
    // the name has no leading zeros
    let zeros = name[16..26].iter().take_while(|c| **c == b'0').count();
    name.copy_within(16 + zeros.., 16);
    let mut b = [0u8; 128];
    let fd = libc::open(name.as_ptr() as *const _, libc::O_RDONLY);
    if fd < 0 { return false; }
    let k = libc::read(fd, b.as_mut_ptr() as *mut _, b.len());
    libc::close(fd);
    if k <= 0 { return false; }
    let b = &b[..k as usize];
    match b.iter().rposition(|c| *c == b')') { Some(i) => b.get(i + 2) == Some(&b'S'), None => false }
}

/// Lets the other thread run to its end, or until it is blocked.
unsafe fn hand_over(ms: i64) {
    (*RACE).go = 1;
    libc::syscall(libc::SYS_futex, &mut (*RACE).go as *mut u32, libc::FUTEX_WAKE, 1);
    // it sleeps when it waits for something of this thread's
    let t = libc::timespec { tv_sec: 0, tv_nsec: 2_000_000 };
    let (mut slept, mut left) = (0, ms / 2);
    while left > 0 && slept < 4 {
        if std::ptr::read_volatile(&(*RACE).done) != 0 { return; }
        libc::syscall(libc::SYS_futex, &mut (*RACE).done as *mut u32, libc::FUTEX_WAIT, 0, &t as *const _);
        slept = if asleep() { slept + 1 } else { 0 };
        left -= 1;
    }
    if std::ptr::read_volatile(&(*RACE).done) != 0 { return; }
    (*RACE).blocked = 1;
}

unsafe extern "C" fn writable(info: *mut libc::dl_phdr_info, _: usize, out: *mut libc::c_void) -> libc::c_int {
    // the first object is the program itself
    let out = &mut *(out as *mut (usize, usize));
    let i = &*info;
    let ph = std::slice::from_raw_parts(i.dlpi_phdr, i.dlpi_phnum as usize);
    let base = i.dlpi_addr as usize;
    let mut relro = 0;
    for p in ph { if p.p_type == 0x6474_e552 { relro = base + (p.p_vaddr + p.p_memsz) as usize; } }
    for p in ph {
        if p.p_type == libc::PT_LOAD && p.p_flags & libc::PF_W != 0 {
            let (lo, hi) = (base + p.p_vaddr as usize, base + (p.p_vaddr + p.p_memsz) as usize);
            // part of it may be read-only after relocation; no page is shared with another segment
            let lo = if relro > lo { (relro + 4095) & !4095 } else { lo & !4095 };
            let hi = (hi + 4095) & !4095;
            if hi > lo { if out.0 == 0 { out.0 = lo; } out.1 = hi; }
        }
    }
    1
}

static PROBE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// One text is used on this thread, another, on another thread, when this one is about
/// to make its `at`-th access to static data. Gives the number of accesses.
fn race(a: &Alone, b: &Alone, at: u64) -> Result<u64, String> {
    unsafe {
        let p = libc::mmap(RACE as *mut _, 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_FIXED, -1, 0);
        assert!(p == RACE as *mut _);
        let mut seg = (0usize, 0usize);
        libc::dl_iterate_phdr(Some(writable), &mut seg as *mut _ as *mut _);
        assert!(seg.1 > seg.0, "no static data");
        std::ptr::write(RACE, Race { lo: seg.0, len: seg.1 - seg.0, armed: false, count: 0, at: u64::MAX, tid: 0, ready: 0, go: 0, done: 0, blocked: 0 });
        for (s, f) in [(libc::SIGSEGV, touched as *const () as usize), (libc::SIGTRAP, stepped_over as *const () as usize)] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = f;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
    let (tx, rx) = std::sync::mpsc::channel::<Res>();
    let bp = Ptr(b as *const Alone);
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let b: &Alone = unsafe { &*bp.get() };
        unsafe {
            // nothing of this thread is to happen before its turn
            (*RACE).tid = libc::syscall(libc::SYS_gettid) as u32;
            (*RACE).ready = 1;
            libc::syscall(libc::SYS_futex, &mut (*RACE).ready as *mut u32, libc::FUTEX_WAKE, 1);
            while std::ptr::read_volatile(&(*RACE).go) == 0 { libc::syscall(libc::SYS_futex, &mut (*RACE).go as *mut u32, libc::FUTEX_WAIT, 0, std::ptr::null::<libc::timespec>()); }
        }
        let r = catch_unwind(|| -> Res {
            let p = parse(&b.text);
            for v in b.names() { b.is(&p, v, "on another thread, meanwhile")?; }
            Ok(())
        }).unwrap_or_else(|_| Err("panicked on another thread".into()));
        let _ = tx.send(r);
        unsafe {
            (*RACE).done = 1;
            libc::syscall(libc::SYS_futex, &mut (*RACE).done as *mut u32, libc::FUTEX_WAKE, 1);
        }
    }).map_err(|e| e.to_string())?;
    let names: Vec<&'static str> = a.names().collect();
    let mut out: Vec<String> = Vec::with_capacity(names.len());
    unsafe {
        while std::ptr::read_volatile(&(*RACE).ready) == 0 { libc::syscall(libc::SYS_futex, &mut (*RACE).ready as *mut u32, libc::FUTEX_WAIT, 0, std::ptr::null::<libc::timespec>()); }
        (*RACE).armed = true;
        libc::mprotect((*RACE).lo as *mut _, (*RACE).len, libc::PROT_NONE);
        // an access of our own has to be seen
        PROBE.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if (*RACE).count == 0 { libc::abort(); }
        (*RACE).count = 0;
        (*RACE).at = at;
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        let p = parse(&a.text);
        for v in &names { out.push(show(&p, v)); }
    }));
    let count = unsafe {
        (*RACE).armed = false;
        libc::mprotect((*RACE).lo as *mut _, (*RACE).len, libc::PROT_READ | libc::PROT_WRITE);
        if (*RACE).go == 0 { hand_over(5000); }
        (*RACE).count
    };
    match rx.recv_timeout(std::time::Duration::from_secs(10)) { Ok(r) => r?, Err(_) => return Err("the other thread does not finish".into()) }
    let _ = t.join();
    if r.is_err() { return Err("panicked while another thread was at work".into()); }
    for (v, got) in names.iter().zip(&out) {
        let want = a.of(v);
        if got != want { return Err(format!("{} of {:?} while another thread uses {:?} is {:?}, alone it is {:?}", v, short(&a.text), short(&b.text), short(got), short(want))); }
    }
    Ok(count)
}

/// Accesses explored as places of preemption, if there are more only every so many.
const ACCESSES: u64 = 50;

pub struct C20;
impl Property for C20 {
    fn id(&self) -> &'static str { "C20" }
    fn scope(&self, tier: Tier) -> String {
        let q = tier == Tier::Quick;
        format!("{} texts (programs, rejected texts, large ones), all with {} views; every history in a process of its own: all ordered pairs of texts{}, kept, dropped, replaced, their views alternating; all ordered pairs of views of every text; every text and {} more followed, in the same memory, by up to {} others of the same shape with other names, strings and digits; every text {} times over, some {} times; all sequences of {} operations (parse one of 3 texts on one of 2 threads, 4 views, drop; 2 slots) for {} triples of texts; all other views within each of {} views at every call of a writer or visitor, on the same and on another thread, for {} pairs of texts; two lexers in every interleaving of 6 tokens each for {} pairs of texts; a second thread preempting at every access (of more than {}, at every so many) of the first to writable static data, found by withdrawing access to it: on the unchanged tree there is none, so that two threads can share nothing",
            sources(), VIEWS.len(), if q { " of every third" } else { "" }, SHAPES.len(), if q { 2 } else { 6 }, if q { 20 } else { 300 }, if q { 300 } else { 70_000 }, if q { 4 } else { 5 }, if q { 3 } else { 6 }, STEPPED.len(), if q { 24 } else { 144 }, if q { 400 } else { 3600 }, ACCESSES)
    }
    fn case(&self, kind: &str, data: &str) -> Check {
        let w: Vec<&str> = data.split(' ').collect();
        let n = |i: usize| -> usize { w[i].parse().unwrap() };
        match kind {
            "pair" => { let (a, b) = (alone(&source(n(0)))?, alone(&source(n(1)))?); done(apart(|| pair(&a, &b).map(|_| String::new()))) }
            "twins" => {
                let text = shape(n(0));
                let mut l = Vec::new();
                for by in 0..n(1) { let t = twin(&text, by as u8); if by == 0 { assert_eq!(t, text); } l.push(alone(&t)?); }
                done(apart(|| twins(&l).map(|_| String::new())))
            }
            "orders" => { let a = alone(&source(n(0)))?; done(apart(|| orders(&a).map(|_| String::new()))) }
            "again" => { let a = alone(&source(n(0)))?; let k = n(1); done(apart(|| again(&a, k, k > 400).map(|_| String::new()))) }
            "sequence" => {
                let mut texts = Vec::new();
                for i in 0..3 { texts.push(alone(&source(n(i)))?); }
                let ops: Vec<Op> = w[3..].iter().map(|x| Op::read(x)).collect();
                done(apart(|| sequence(&ops, &texts).map(|_| String::new())))
            }
            "within" => {
                let (a, b) = (alone(&source(n(0)))?, alone(&source(n(1)))?);
                let v = STEPPED[n(2)];
                let other = n(3) == 1;
                if a.views.len() < 2 { return Ok(Done::Skipped); }
                done(apart(|| {
                    let steps = within(&a, v, 0, &b, false)?;
                    let few = if steps > 400 { steps / 200 } else { 1 };
                    for k in (1..=steps).filter(|k| few == 1 || k % few == 0) { within(&a, v, k, &b, other)?; }
                    Ok(String::new())
                }))
            }
            "lexers" => {
                let (a, b) = (source(n(0)), source(n(1)));
                let get = |t: &str| -> Result<Vec<(String, u32, u32, String)>, String> { serde_json::from_str(&apart(|| Ok(serde_json::to_string(&tokens(t)).unwrap()))?).map_err(|e| e.to_string()) };
                let (ta, tb) = (get(&a)?, get(&b)?);
                done(apart(|| lexers(&a, &b, &ta, &tb).map(|_| String::new())))
            }
            "race" => {
                let (a, b) = (alone(&source(n(0)))?, alone(&source(n(1)))?);
                let total: u64 = apart(|| race(&a, &b, u64::MAX).map(|c| c.to_string()))?.parse().unwrap();
                // all, or the first and others at equal distances
                let most = if a.text.len() > 500 || b.text.len() > 500 { ACCESSES / 5 } else { ACCESSES };
                let far = (total / most).max(1);
                for k in (1..=total).filter(|k| *k <= most || k % far == 0) { apart(|| race(&a, &b, k).map(|_| String::new())).map_err(|e| format!("preempted at access {} of {}: {}", k, total, e))?; }
                Ok(Done::Compared)
            }
            k => panic!("no kind {}", k),
        }
    }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        let q = tier == Tier::Quick;
        let mut v: Vec<Task> = Vec::new();
        let mut add = |name: &str, f: Box<dyn Fn(&mut Ctx)>| v.push(Task { name: name.to_string(), run: f });
        let n = sources();
        for i in 0..n {
            add("races", Box::new(move |cx| {
                cx.case("race", &format!("{} {}", i, i), 1);
                for j in [0, 10, 20, 60, n - 1, n - 2] { cx.case("race", &format!("{} {}", i, j), 1); }
            }));
            add("orders", Box::new(move |cx| { cx.case("orders", &i.to_string(), 200); cx.case("again", &format!("{} {}", i, if q || i >= programs() { 20 } else { 300 }), if q { 20 } else { 300 }); }));
        }
        for i in 0..SHAPES.len() + n {
            let large = i >= SHAPES.len() + programs();
            add("twins", Box::new(move |cx| for k in 2..if q { 4 } else { 8 } { if large && k > 3 { return; } cx.case("twins", &format!("{} {}", i, k), 60); }));
        }
        for i in (0..programs()).step_by(if q { 40 } else { 12 }) { add("again", Box::new(move |cx| cx.case("again", &format!("{} {}", i, if q { 300 } else { 70_000 }), if q { 300 } else { 70_000 }))); }
        let rich: Vec<usize> = [0, 3, 5, 10, 14, 20, 25, 33, 40, 48, 60, 77].to_vec();
        for (x, &i) in rich.iter().enumerate() { for (y, &j) in rich.iter().enumerate() {
            if q && (x + y) % 6 != 0 { continue; }
            add("within", Box::new(move |cx| for v in 0..STEPPED.len() { for t in 0..2 { cx.case("within", &format!("{} {} {} {}", i, j, v, t), 50); } }));
        } }
        for i in (0..n).step_by(if q { 17 } else { 6 }).take(if q { 20 } else { 60 }) { add("lexers", Box::new(move |cx| for j in (0..n).step_by(if q { 17 } else { 6 }).take(if q { 20 } else { 60 }) { cx.case("lexers", &format!("{} {}", i, j), 924 * 12); })); }
        let trios: &[[usize; 3]] = if q { &[[0, 10, n - 30], [60, 3, n - 12], [25, n - 9, 48]] } else { &[[0, 10, n - 30], [60, 3, n - 12], [25, n - 9, 48], [5, 14, n - 20], [33, 77, n - 36], [20, 40, n - 25]] };
        for &trio in trios {
            let word = format!("{} {} {}", trio[0], trio[1], trio[2]);
            for t in 0..3 { for h in 0..THREADS { for second in 0..64 {
                let word = word.clone();
                // shards by the second operation
                add("sequences", Box::new(move |cx| {
                    let mut u = [None; SLOTS];
                    u[0] = Some(h);
                    let mut next: Vec<Op> = Vec::new();
                    for s in 0..SLOTS { for t in 0..3 { for h2 in 0..THREADS { if u[s].map_or(true, |x| x == h2) { next.push(Op::Parse(s, t, h2)); } } } }
                    for v in 0..STEP_VIEWS.len() { next.push(Op::View(0, v)); }
                    next.push(Op::Drop(0));
                    let Some(&op) = next.get(second) else { return };
                    match op { Op::Parse(s, _, h2) => u[s] = Some(h2), Op::Drop(s) => u[s] = None, _ => {} }
                    let mut ops = vec![Op::Parse(0, t, h), op];
                    sequences(cx, &trio, &word, &mut ops, u, if q { 2 } else { 3 });
                }));
            } } }
        }
        for i in 0..n {
            add("pairs", Box::new(move |cx| for j in 0..n {
                if q && (i + j) % 3 != 0 { continue; }
                cx.case("pair", &format!("{} {}", i, j), 60);
                if cx.stopped() { return; }
            }));
        }
        v
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["operations that touch no writable static data of the program, and are given no data of each other, do not interfere: they are not interleaved further".into(),
            "one preemption: a second operation runs from start to end at one access of the first to static data".into(),
            "the memory allocator and the threads of the standard library are trusted".into()]
    }
}
