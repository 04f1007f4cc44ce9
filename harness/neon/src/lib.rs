//! A stand-in for neon: JavaScript values are Rust values, thrown exceptions are kept in the context.
use std::cell::RefCell;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

#[derive(Clone, Debug, PartialEq)]
pub enum Js { Undefined, Null, Boolean(bool), Number(f64), String(String) }

#[derive(Debug)]
pub struct Throw;
pub type NeonResult<T> = Result<T, Throw>;
pub type JsResult<'a, T> = NeonResult<Handle<'a, T>>;

/// Values made during one call, and the exception it threw.
#[derive(Default)]
pub struct Heap { values: RefCell<Vec<Box<Js>>>, thrown: RefCell<Option<(&'static str, String)>> }
impl Heap {
    fn new(&self, v: Js) -> *const Js {
        let b = Box::new(v);
        let p = &*b as *const Js;
        self.values.borrow_mut().push(b);
        p
    }
}

pub trait Managed {}
pub trait Value: Managed + Copy { fn from_raw(p: *const Js) -> Option<Self>; fn raw(&self) -> *const Js; const NAME: &'static str; }

macro_rules! value {
    ($n:ident, $name:expr, $p:pat) => {
        #[derive(Clone, Copy, Debug)]
        pub struct $n(*const Js);
        impl Managed for $n {}
        impl Value for $n {
            fn from_raw(p: *const Js) -> Option<Self> { if matches!(unsafe { &*p }, $p) { Some($n(p)) } else { None } }
            fn raw(&self) -> *const Js { self.0 }
            const NAME: &'static str = $name;
        }
    };
}
value!(JsValue, "any", _);
value!(JsString, "string", Js::String(_));
value!(JsBoolean, "boolean", Js::Boolean(_));
value!(JsNumber, "number", Js::Number(_));
value!(JsUndefined, "undefined", Js::Undefined);
value!(JsNull, "null", Js::Null);

impl JsString {
    pub fn value(self) -> String { match unsafe { &*self.0 } { Js::String(s) => s.clone(), _ => unreachable!() } }
    pub fn size(&self) -> isize { match unsafe { &*self.0 } { Js::String(s) => s.len() as isize, _ => unreachable!() } }
}
impl JsBoolean { pub fn value(self) -> bool { matches!(unsafe { &*self.0 }, Js::Boolean(true)) } }
impl JsNumber { pub fn value(self) -> f64 { match unsafe { &*self.0 } { Js::Number(n) => *n, _ => unreachable!() } } }

#[derive(Debug)]
pub struct Handle<'a, T> { v: T, of: PhantomData<&'a T> }
impl<'a, T: Copy> Clone for Handle<'a, T> { fn clone(&self) -> Self { *self } }
impl<'a, T: Copy> Copy for Handle<'a, T> {}
impl<'a, T> Deref for Handle<'a, T> { type Target = T; fn deref(&self) -> &T { &self.v } }
impl<'a, T> DerefMut for Handle<'a, T> { fn deref_mut(&mut self) -> &mut T { &mut self.v } }

pub struct DowncastError(String);
pub type DowncastResult<'a, T> = Result<Handle<'a, T>, DowncastError>;
impl<'a, T: Value> Handle<'a, T> {
    fn made(v: T) -> Self { Handle { v, of: PhantomData } }
    pub fn upcast<U: Value>(&self) -> Handle<'a, U> { Handle::made(U::from_raw(self.v.raw()).expect("not a supertype")) }
    pub fn is_a<U: Value>(&self) -> bool { U::from_raw(self.v.raw()).is_some() }
    pub fn downcast<U: Value>(&self) -> DowncastResult<'a, U> { U::from_raw(self.v.raw()).map(Handle::made).ok_or_else(|| DowncastError(format!("failed downcast to {}", U::NAME))) }
    pub fn downcast_or_throw<'b, U: Value, C: Context<'b>>(&self, cx: &mut C) -> JsResult<'a, U> {
        match self.downcast() { Ok(h) => Ok(h), Err(DowncastError(m)) => cx.throw_type_error(m) }
    }
}

pub trait ResultExt<T> { fn or_throw<'b, C: Context<'b>>(self, cx: &mut C) -> NeonResult<T>; }
impl<'a, T: Value> ResultExt<Handle<'a, T>> for DowncastResult<'a, T> {
    fn or_throw<'b, C: Context<'b>>(self, cx: &mut C) -> JsResult<'a, T> { match self { Ok(h) => Ok(h), Err(DowncastError(m)) => cx.throw_type_error(m) } }
}

pub trait Context<'a>: Sized {
    fn heap(&self) -> &'a Heap;
    fn string<S: AsRef<str>>(&mut self, s: S) -> Handle<'a, JsString> { Handle::made(JsString(self.heap().new(Js::String(s.as_ref().to_string())))) }
    fn boolean(&mut self, b: bool) -> Handle<'a, JsBoolean> { Handle::made(JsBoolean(self.heap().new(Js::Boolean(b)))) }
    fn number<N: Into<f64>>(&mut self, n: N) -> Handle<'a, JsNumber> { Handle::made(JsNumber(self.heap().new(Js::Number(n.into())))) }
    fn undefined(&mut self) -> Handle<'a, JsUndefined> { Handle::made(JsUndefined(self.heap().new(Js::Undefined))) }
    fn null(&mut self) -> Handle<'a, JsNull> { Handle::made(JsNull(self.heap().new(Js::Null))) }
    fn throw_of<T>(&mut self, kind: &'static str, m: &str) -> NeonResult<T> { *self.heap().thrown.borrow_mut() = Some((kind, m.to_string())); Err(Throw) }
    fn throw_type_error<S: AsRef<str>, T>(&mut self, m: S) -> NeonResult<T> { self.throw_of("TypeError", m.as_ref()) }
    fn throw_error<S: AsRef<str>, T>(&mut self, m: S) -> NeonResult<T> { self.throw_of("Error", m.as_ref()) }
    fn throw_range_error<S: AsRef<str>, T>(&mut self, m: S) -> NeonResult<T> { self.throw_of("RangeError", m.as_ref()) }
}

pub struct JsObject;
pub struct CallContext<'a, T> { args: &'a [Js], heap: &'a Heap, of: PhantomData<T> }
pub type FunctionContext<'a> = CallContext<'a, JsObject>;
impl<'a, T> Context<'a> for CallContext<'a, T> { fn heap(&self) -> &'a Heap { self.heap } }
impl<'a, T> CallContext<'a, T> {
    pub fn len(&self) -> i32 { self.args.len() as i32 }
    pub fn argument_opt(&mut self, i: i32) -> Option<Handle<'a, JsValue>> {
        let v = self.args.get(usize::try_from(i).ok()?)?;
        Some(Handle::made(JsValue(v as *const Js)))
    }
    pub fn argument<V: Value>(&mut self, i: i32) -> JsResult<'a, V> {
        match self.argument_opt(i) {
            Some(v) => v.downcast_or_throw(self),
            None => self.throw_type_error("not enough arguments"),
        }
    }
}

type Function = Box<dyn Fn(&[Js]) -> Result<Js, (&'static str, String)>>;

#[derive(Default)]
pub struct Exports(pub Vec<(String, Function)>);
pub struct ModuleContext<'a> { exports: &'a mut Exports, heap: &'a Heap }
impl<'a> Context<'a> for ModuleContext<'a> { fn heap(&self) -> &'a Heap { self.heap } }
impl<'a> ModuleContext<'a> {
    pub fn export_function<T: Value + 'static>(&mut self, name: &str, f: for<'x> fn(FunctionContext<'x>) -> JsResult<'x, T>) -> NeonResult<()> {
        self.exports.0.push((name.to_string(), Box::new(move |args| {
            let heap = Heap::default();
            match f(CallContext { args, heap: &heap, of: PhantomData }) {
                Ok(h) => Ok(unsafe { (*h.v.raw()).clone() }),
                Err(Throw) => Err(heap.thrown.borrow_mut().take().unwrap_or(("nothing", String::new()))),
            }
        })));
        Ok(())
    }
}

/// Initialises a module, giving what it exports.
pub fn exports(init: for<'x> fn(ModuleContext<'x>) -> NeonResult<()>) -> Exports {
    let mut e = Exports::default();
    let heap = Heap::default();
    init(ModuleContext { exports: &mut e, heap: &heap }).expect("the module does not load");
    e
}

#[macro_export]
macro_rules! register_module {
    (|$m:pat_param| $init:block) => { pub fn stand_in_init($m: $crate::ModuleContext) -> $crate::NeonResult<()> $init };
    (|$m:pat_param| $init:expr) => { pub fn stand_in_init($m: $crate::ModuleContext) -> $crate::NeonResult<()> { $init } };
    ($m:pat_param, $init:block) => { pub fn stand_in_init($m: $crate::ModuleContext) -> $crate::NeonResult<()> $init };
}

pub mod context { pub use crate::{CallContext, Context, FunctionContext, ModuleContext}; }
pub mod handle { pub use crate::{DowncastResult, Handle, Managed}; }
pub mod result { pub use crate::{JsResult, NeonResult, ResultExt as JsResultExt, Throw}; }
pub mod types { pub use crate::{JsBoolean, JsNull, JsNumber, JsObject, JsString, JsUndefined, JsValue, Value}; }
pub mod prelude {
    pub use crate::{register_module, CallContext, Context, FunctionContext, Handle, JsBoolean, JsNull, JsNumber, JsObject, JsResult, JsString, JsUndefined, JsValue, ModuleContext, NeonResult, Value};
    pub use crate::ResultExt as JsResultExt;
}
