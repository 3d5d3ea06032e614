//! A small JavaScript environment behind Node-API: values, functions, classes, promises, threadsafe functions, clean-up hooks.
//! Everything here runs in kernel mode; functions of the binding are called through `user`.
#![allow(non_camel_case_types)]
use crate::engine::*;
use crate::util::*;
use simk::*;
use std::{
    collections::{BTreeMap, VecDeque},
    ffi::{c_char, c_void, CStr},
    ptr,
};

pub type Val = usize; // 0: none
type Env = *mut Eng;
type Ptr = *mut c_void;
type Cb = unsafe extern "C" fn(Env, usize) -> Val;
type Fin = unsafe extern "C" fn(Env, Ptr, Ptr);
type CallJs = unsafe extern "C" fn(Env, Val, Ptr, Ptr);
type Hook = unsafe extern "C" fn(Ptr);

pub enum V {
    Undef,
    Bool(bool),
    Num(f64),
    Str(String),
    Obj(Obj),
    Arr(Vec<Val>),
    Buf(*mut u8, usize, Option<(Fin, Ptr, Ptr)>, Vec<u8>),
    Fun(Cb, Ptr, BTreeMap<String, Val>),
    Prom(usize),
    Err(String),
    Gone,
}
#[derive(Default)]
pub struct Obj {
    pub props: BTreeMap<String, Val>,
    pub class: Val,
    pub wrap: Option<(Ptr, Option<Fin>, Ptr)>,
}
struct Info {
    this: Val,
    args: Vec<Val>,
    data: Ptr,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pst {
    Pending,
    Resolved,
    Rejected,
}
pub struct Prom {
    pub st: Pst,
    pub val: Val,
    /// the receiver and the deadline, set by the caller
    pub owner: usize,
    pub deadline: u64,
    pub made: u64,
    pub settled: u64,
    pub taken: bool,
}
pub struct Ts {
    env: Env,
    queue: VecDeque<usize>,
    threads: u32,
    ctx: Ptr,
    call: CallJs,
    fin: Option<Fin>,
    fin_data: Ptr,
    fun: Val,
    closing: bool,
    dead: bool,
    /// keeps the process from ending
    refd: bool,
}
enum H {
    Fn(Hook, Ptr),
    Ts(*mut Ts),
}
pub type Job = Box<dyn FnOnce(&mut Eng)>;
pub struct Eng {
    pub tid: Tid,
    pub proc: Pid,
    pub vals: Vec<V>,
    refs: Vec<(Val, u32, bool)>,
    pub proms: Vec<Prom>,
    ts: Vec<*mut Ts>,
    hooks: Vec<H>,
    exc: Val,
    info: Vec<Info>,
    pub exports: Val,
    pub jobs: VecDeque<Job>,
    pub ready: bool,
    pub down: bool,
    pub owner: usize,
    pub job_end: u64,
    pub on_settle: Option<fn(&mut Eng, usize)>,
}
static mut ENGS: Vec<Env> = vec![];

#[allow(static_mut_refs)]
pub fn find(p: Pid) -> Option<&'static mut Eng> {
    unsafe { ENGS.iter().map(|e| &mut **e).find(|e| e.proc == p) }
}
pub fn broken(what: &str) {
    let _g = kenter();
    violation("js", what);
}

// links the binding, whose functions register themselves
extern crate ipmb_js as _;
extern "C" {
    fn napi_register_module_v1(env: Env, exports: Val) -> Val;
}

/// The environment of a process; its thread is started with the first use.
#[allow(static_mut_refs)]
pub fn env(p: Pid) -> &'static mut Eng {
    if find(p).is_none() {
        let e = Box::into_raw(Box::new(Eng {
            tid: 0,
            proc: p,
            vals: vec![],
            refs: vec![],
            proms: vec![],
            ts: vec![],
            hooks: vec![],
            exc: 0,
            info: vec![],
            exports: 0,
            jobs: VecDeque::new(),
            ready: false,
            down: false,
            owner: 0,
            job_end: 0,
            on_settle: None,
        }));
        unsafe {
            ENGS.push(e);
            spawn(p, "js", move || main_loop(p));
        }
    }
    wait_until(NODL, || find(p).unwrap().ready);
    find(p).unwrap()
}

// references to the environment are not kept across waits: other threads change it
fn main_loop(p: Pid) {
    let en = || find(p).unwrap();
    let e = en();
    e.tid = sched::cur_tid();
    e.exports = e.new(V::Obj(Obj::default()));
    let (ep, ex) = (e as Env, e.exports);
    user(|| unsafe { napi_register_module_v1(ep, ex) });
    en().ready = true;
    on_event("js up");
    loop {
        wait_until(NODL, || en().down || !en().jobs.is_empty() || en().ready_ts().is_some());
        if en().down {
            break;
        }
        let t = en().ready_ts();
        if t.is_none() || (!en().jobs.is_empty() && d(2) == 0) {
            if let Some(j) = en().jobs.pop_front() {
                j(en());
                en().job_end = w().now;
            }
        } else {
            en().dispatch(t.unwrap());
        }
        on_event("js turn");
    }
}

/// Runs something on the JavaScript thread and waits for it; None if the environment is gone.
pub fn job<R: 'static>(p: Pid, f: impl FnOnce(&mut Eng) -> R + 'static) -> Option<R> {
    let e = env(p);
    if e.down {
        return None;
    }
    if sched::cur_tid() == e.tid {
        return Some(f(e));
    }
    let slot: *mut Option<R> = Box::into_raw(Box::new(None));
    e.jobs.push_back(Box::new(move |e| unsafe { *slot = Some(f(e)) }));
    on_event("js job");
    wait_until(NODL, || unsafe { (*slot).is_some() } || find(p).unwrap().down);
    unsafe { (*slot).take() }
}

impl Eng {
    pub fn new(&mut self, v: V) -> Val {
        self.vals.push(v);
        self.vals.len()
    }
    pub fn v(&self, v: Val) -> &V {
        if v == 0 || v > self.vals.len() {
            return &V::Undef;
        }
        &self.vals[v - 1]
    }
    pub fn undef(&mut self) -> Val {
        self.new(V::Undef)
    }
    pub fn str(&mut self, s: &str) -> Val {
        self.new(V::Str(s.into()))
    }
    pub fn num(&mut self, n: f64) -> Val {
        self.new(V::Num(n))
    }
    pub fn arr(&mut self, v: Vec<Val>) -> Val {
        self.new(V::Arr(v))
    }
    pub fn buf(&mut self, v: Vec<u8>) -> Val {
        let mut v = v;
        let (p, n) = (v.as_mut_ptr(), v.len());
        self.new(V::Buf(p, n, None, v))
    }
    pub fn obj(&mut self, props: &[(&str, Val)]) -> Val {
        let o = Obj { props: props.iter().map(|x| (x.0.to_string(), x.1)).collect(), ..Obj::default() };
        self.new(V::Obj(o))
    }
    pub fn get(&self, o: Val, k: &str) -> Val {
        match self.v(o) {
            V::Obj(x) => match x.props.get(k) {
                Some(v) => *v,
                None => match self.v(x.class) {
                    V::Fun(_, _, m) => m.get(k).copied().unwrap_or(0),
                    _ => 0,
                },
            },
            V::Arr(a) if k == "length" => a.len(),
            _ => 0,
        }
    }
    pub fn items(&self, a: Val) -> Vec<Val> {
        match self.v(a) {
            V::Arr(v) => v.clone(),
            _ => vec![],
        }
    }
    pub fn bytes(&self, b: Val) -> Option<Vec<u8>> {
        match self.v(b) {
            V::Buf(p, n, ..) => Some(if *n == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(*p, *n) }.to_vec() }),
            _ => None,
        }
    }
    pub fn number(&self, n: Val) -> f64 {
        match self.v(n) {
            V::Num(n) => *n,
            _ => f64::NAN,
        }
    }
    /// Calls a function; Err is the message of what it throws.
    pub fn call(&mut self, fun: Val, this: Val, args: &[Val]) -> Result<Val, String> {
        let V::Fun(cb, data, _) = *self.v(fun) else { return Err("not a function".into()) };
        self.info.push(Info { this, args: args.to_vec(), data });
        let (n, e) = (self.info.len(), self as Env);
        let r = user(|| unsafe { cb(e, n) });
        let me = find(self.proc).unwrap();
        me.info.pop();
        match std::mem::take(&mut me.exc) {
            0 => Ok(r),
            x => Err(me.message(x)),
        }
    }
    pub fn method(&mut self, o: Val, name: &str, args: &[Val]) -> Result<Val, String> {
        let f = self.get(o, name);
        self.call(f, o, args)
    }
    pub fn construct(&mut self, class: Val, args: &[Val]) -> Result<Val, String> {
        let o = self.new(V::Obj(Obj { class, ..Obj::default() }));
        self.call(class, o, args).map(|_| o)
    }
    pub fn message(&self, v: Val) -> String {
        match self.v(v) {
            V::Err(s) | V::Str(s) => s.clone(),
            _ => "?".into(),
        }
    }
    fn ready_ts(&self) -> Option<usize> {
        self.ts.iter().position(|t| unsafe { !(**t).dead && (!(**t).queue.is_empty() || (**t).threads == 0) })
    }
    fn dispatch(&mut self, i: usize) {
        let t = unsafe { &mut *self.ts[i] };
        match t.queue.pop_front() {
            Some(d) => {
                stat(U_JSCALLS, 1);
                let (env, call, fun, ctx) = (self as Env, t.call, t.fun, t.ctx);
                user(|| unsafe { call(env, fun, ctx, d as Ptr) });
            }
            None => self.end_ts(t, true),
        }
    }
    /// whether a thread-safe function keeps the event loop, and with it the process, alive
    pub fn held(&self) -> bool {
        self.ts.iter().any(|t| unsafe { !(**t).dead && (**t).refd })
    }
    fn end_ts(&mut self, t: &mut Ts, alive: bool) {
        t.closing = true;
        let env = self as Env;
        if let Some(f) = t.fin {
            let (a, b) = (t.fin_data, t.ctx);
            user(|| unsafe { f(env, a, b) });
        }
        while let Some(d) = t.queue.pop_front() {
            let (call, ctx) = (t.call, t.ctx);
            // what is left is handed over without an environment
            user(|| unsafe { call(ptr::null_mut(), 0, ctx, d as Ptr) });
        }
        t.dead = true;
        let _ = alive;
    }
    pub fn referenced(&self, v: Val) -> bool {
        self.refs.iter().any(|r| r.0 == v && r.1 > 0 && !r.2)
    }
    /// The garbage collector takes an object that nothing refers to.
    pub fn gc(&mut self, v: Val) {
        if v == 0 || self.referenced(v) {
            return;
        }
        let e = self as Env;
        match std::mem::replace(&mut self.vals[v - 1], V::Gone) {
            V::Obj(o) => {
                if let Some((p, Some(f), hint)) = o.wrap {
                    user(|| unsafe { f(e, p, hint) });
                }
            }
            V::Buf(_, _, Some((f, p, hint)), _) => user(|| unsafe { f(e, p, hint) }),
            _ => {}
        }
    }
    fn settle(&mut self, def: usize, st: Pst, val: Val) -> u32 {
        if def == 0 || def > self.proms.len() {
            broken("a promise is settled that does not exist");
            return 1;
        }
        let now = w().now;
        let p = &mut self.proms[def - 1];
        if p.st != Pst::Pending {
            broken(&format!("promise {} is settled twice", def));
            return 1;
        }
        p.st = st;
        p.val = val;
        p.settled = now;
        stat(U_PROMISES, 1);
        let text = if st == Pst::Rejected { self.message(val) } else { "resolved".into() };
        on_event(&format!("promise {} of receiver {}: {}", def, self.proms[def - 1].owner, text));
        if let Some(f) = self.on_settle {
            f(self, def - 1);
        }
        0
    }
    /// The environment ends: clean-up hooks in reverse order, then every finalizer.
    pub fn shut(&mut self) {
        while let Some(h) = self.hooks.pop() {
            match h {
                H::Fn(f, a) => user(|| unsafe { f(a) }),
                H::Ts(t) => {
                    let t = unsafe { &mut *t };
                    if !t.dead {
                        self.end_ts(t, false);
                    }
                }
            }
        }
        for v in 1..=self.vals.len() {
            for r in self.refs.iter_mut() {
                if r.0 == v {
                    r.1 = 0;
                }
            }
            self.gc(v);
        }
        self.down = true;
        on_event("js down");
    }
}

// ---- the interface ------------------------------------------------------------------------------------------------

/// The environment, if it is used by its own thread.
unsafe fn en(e: Env) -> Option<&'static mut Eng> {
    if e.is_null() {
        return None;
    }
    let e = &mut *e;
    if e.tid != sched::cur_tid() {
        broken("an environment is used outside its thread");
    }
    if e.down {
        broken("an environment is used after its end");
    }
    Some(e)
}
macro_rules! en {
    ($e:ident) => {
        match en($e) {
            Some(e) => e,
            None => return 1,
        }
    };
}
macro_rules! api {
    ($($name:ident($($a:ident: $t:ty),*) $body:block)*) => {
        $(#[no_mangle] pub unsafe extern "C" fn $name($($a: $t),*) -> u32 { let _g = kenter(); $body })*
    };
}
unsafe fn text(p: *const c_char, n: usize) -> String {
    if p.is_null() {
        return String::new();
    }
    if n == usize::MAX {
        CStr::from_ptr(p).to_string_lossy().into_owned()
    } else {
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
}
unsafe fn slice<'a>(p: *const Val, n: usize) -> &'a [Val] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, n)
    }
}
#[repr(C)]
pub struct Desc {
    name: *const c_char,
    sym: Val,
    method: Option<Cb>,
    getter: Option<Cb>,
    setter: Option<Cb>,
    value: Val,
    attr: i32,
    data: Ptr,
}

api! {
    napi_add_env_cleanup_hook(env: Env, f: Option<Hook>, a: Ptr) {
        en!(env).hooks.push(H::Fn(f.unwrap(), a));
        0
    }
    napi_remove_env_cleanup_hook(env: Env, f: Option<Hook>, a: Ptr) {
        let g = f.unwrap() as usize;
        en!(env).hooks.retain(|h| !matches!(h, H::Fn(f, b) if *f as usize == g && *b == a));
        0
    }
    napi_get_undefined(env: Env, out: *mut Val) {
        *out = en!(env).undef();
        0
    }
    napi_get_null(env: Env, out: *mut Val) {
        *out = en!(env).undef();
        0
    }
    napi_get_global(env: Env, out: *mut Val) {
        *out = en!(env).new(V::Obj(Obj::default()));
        0
    }
    napi_get_boolean(env: Env, b: bool, out: *mut Val) {
        *out = en!(env).new(V::Bool(b));
        0
    }
    napi_create_object(env: Env, out: *mut Val) {
        *out = en!(env).new(V::Obj(Obj::default()));
        0
    }
    napi_create_array(env: Env, out: *mut Val) {
        *out = en!(env).arr(vec![]);
        0
    }
    napi_create_array_with_length(env: Env, n: usize, out: *mut Val) {
        *out = en!(env).arr(vec![0; n]);
        0
    }
    napi_create_int32(env: Env, n: i32, out: *mut Val) {
        *out = en!(env).num(n as f64);
        0
    }
    napi_create_uint32(env: Env, n: u32, out: *mut Val) {
        *out = en!(env).num(n as f64);
        0
    }
    napi_create_int64(env: Env, n: i64, out: *mut Val) {
        *out = en!(env).num(n as f64);
        0
    }
    napi_create_double(env: Env, n: f64, out: *mut Val) {
        *out = en!(env).num(n);
        0
    }
    napi_create_string_utf8(env: Env, p: *const c_char, n: usize, out: *mut Val) {
        let s = text(p, n);
        *out = en!(env).new(V::Str(s));
        0
    }
    napi_create_error(env: Env, _code: Val, msg: Val, out: *mut Val) {
        let e = en!(env);
        let s = e.message(msg);
        *out = e.new(V::Err(s));
        0
    }
    napi_create_buffer(env: Env, n: usize, data: *mut Ptr, out: *mut Val) {
        let e = en!(env);
        *out = e.buf(vec![0; n]);
        if let (V::Buf(p, ..), false) = (e.v(*out), data.is_null()) {
            *data = *p as Ptr;
        }
        0
    }
    napi_create_buffer_copy(env: Env, n: usize, src: *const u8, data: *mut Ptr, out: *mut Val) {
        let e = en!(env);
        let v = if n == 0 { vec![] } else { std::slice::from_raw_parts(src, n).to_vec() };
        *out = e.buf(v);
        if let (V::Buf(p, ..), false) = (e.v(*out), data.is_null()) {
            *data = *p as Ptr;
        }
        0
    }
    napi_create_external_buffer(env: Env, n: usize, p: Ptr, f: Option<Fin>, hint: Ptr, out: *mut Val) {
        *out = en!(env).new(V::Buf(p as *mut u8, n, f.map(|f| (f, p, hint)), vec![]));
        0
    }
    napi_get_buffer_info(env: Env, v: Val, data: *mut Ptr, n: *mut usize) {
        match en!(env).v(v) {
            V::Buf(p, l, ..) => {
                if !data.is_null() { *data = *p as Ptr; }
                if !n.is_null() { *n = *l; }
                0
            }
            _ => 1,
        }
    }
    napi_is_buffer(env: Env, v: Val, out: *mut bool) {
        *out = matches!(en!(env).v(v), V::Buf(..));
        0
    }
    napi_is_array(env: Env, v: Val, out: *mut bool) {
        *out = matches!(en!(env).v(v), V::Arr(_));
        0
    }
    napi_is_error(env: Env, v: Val, out: *mut bool) {
        *out = matches!(en!(env).v(v), V::Err(_));
        0
    }
    napi_is_promise(env: Env, v: Val, out: *mut bool) {
        *out = matches!(en!(env).v(v), V::Prom(_));
        0
    }
    napi_is_exception_pending(env: Env, out: *mut bool) {
        *out = en!(env).exc != 0;
        0
    }
    napi_get_and_clear_last_exception(env: Env, out: *mut Val) {
        *out = std::mem::take(&mut en!(env).exc);
        0
    }
    napi_throw(env: Env, v: Val) {
        en!(env).exc = v;
        0
    }
    napi_throw_error(env: Env, _code: *const c_char, msg: *const c_char) {
        let e = en!(env);
        let s = text(msg, usize::MAX);
        e.exc = e.new(V::Err(s));
        0
    }
    napi_typeof(env: Env, v: Val, out: *mut i32) {
        *out = match en!(env).v(v) {
            V::Undef | V::Gone => 0,
            V::Bool(_) => 2,
            V::Num(_) => 3,
            V::Str(_) => 4,
            V::Fun(..) => 7,
            _ => 6,
        };
        0
    }
    napi_coerce_to_bool(env: Env, v: Val, out: *mut Val) {
        let e = en!(env);
        let b = match e.v(v) {
            V::Bool(b) => *b,
            V::Num(n) => *n != 0.0,
            V::Str(s) => !s.is_empty(),
            V::Undef | V::Gone => false,
            _ => true,
        };
        *out = e.new(V::Bool(b));
        0
    }
    napi_coerce_to_string(env: Env, v: Val, out: *mut Val) {
        let e = en!(env);
        let s = match e.v(v) {
            V::Str(s) => s.clone(),
            V::Err(s) => format!("Error: {}", s),
            V::Bool(b) => b.to_string(),
            V::Num(n) => n.to_string(),
            V::Undef | V::Gone => "undefined".into(),
            _ => "[object Object]".into(),
        };
        *out = e.new(V::Str(s));
        0
    }
    napi_get_value_bool(env: Env, v: Val, out: *mut bool) {
        match en!(env).v(v) {
            V::Bool(b) => { *out = *b; 0 }
            _ => 7,
        }
    }
    napi_get_value_int32(env: Env, v: Val, out: *mut i32) {
        match en!(env).v(v) {
            V::Num(n) => { *out = *n as i64 as i32; 0 }
            _ => 6,
        }
    }
    napi_get_value_uint32(env: Env, v: Val, out: *mut u32) {
        match en!(env).v(v) {
            V::Num(n) => { *out = *n as i64 as u32; 0 }
            _ => 6,
        }
    }
    napi_get_value_int64(env: Env, v: Val, out: *mut i64) {
        match en!(env).v(v) {
            V::Num(n) => { *out = *n as i64; 0 }
            _ => 6,
        }
    }
    napi_get_value_double(env: Env, v: Val, out: *mut f64) {
        match en!(env).v(v) {
            V::Num(n) => { *out = *n; 0 }
            _ => 6,
        }
    }
    napi_get_value_string_utf8(env: Env, v: Val, buf: *mut u8, n: usize, out: *mut usize) {
        match en!(env).v(v) {
            V::Str(s) => {
                let mut k = s.len();
                if !buf.is_null() {
                    k = k.min(n.saturating_sub(1));
                    ptr::copy_nonoverlapping(s.as_ptr(), buf, k);
                    if n > 0 { *buf.add(k) = 0; }
                }
                if !out.is_null() { *out = k; }
                0
            }
            _ => 3,
        }
    }
    napi_get_array_length(env: Env, v: Val, out: *mut u32) {
        match en!(env).v(v) {
            V::Arr(a) => { *out = a.len() as u32; 0 }
            _ => 8,
        }
    }
    napi_get_element(env: Env, v: Val, i: u32, out: *mut Val) {
        let e = en!(env);
        let x = match e.v(v) {
            V::Arr(a) => a.get(i as usize).copied().unwrap_or(0),
            _ => 0,
        };
        *out = if x == 0 { e.undef() } else { x };
        0
    }
    napi_set_element(env: Env, v: Val, i: u32, x: Val) {
        let e = en!(env);
        match &mut e.vals[v - 1] {
            V::Arr(a) => {
                if a.len() <= i as usize { a.resize(i as usize + 1, 0); }
                a[i as usize] = x;
                0
            }
            _ => 2,
        }
    }
    napi_get_named_property(env: Env, o: Val, k: *const c_char, out: *mut Val) {
        let e = en!(env);
        let x = e.get(o, &text(k, usize::MAX));
        *out = if x == 0 { e.undef() } else { x };
        0
    }
    napi_has_named_property(env: Env, o: Val, k: *const c_char, out: *mut bool) {
        *out = en!(env).get(o, &text(k, usize::MAX)) != 0;
        0
    }
    napi_set_named_property(env: Env, o: Val, k: *const c_char, x: Val) {
        let k = text(k, usize::MAX);
        match &mut en!(env).vals[o - 1] {
            V::Obj(p) => { p.props.insert(k, x); 0 }
            _ => 2,
        }
    }
    napi_get_property(env: Env, o: Val, k: Val, out: *mut Val) {
        let e = en!(env);
        let x = e.get(o, &e.message(k));
        *out = if x == 0 { e.undef() } else { x };
        0
    }
    napi_set_property(env: Env, o: Val, k: Val, x: Val) {
        let e = en!(env);
        let k = e.message(k);
        match &mut e.vals[o - 1] {
            V::Obj(p) => { p.props.insert(k, x); 0 }
            _ => 2,
        }
    }
    napi_create_function(env: Env, _n: *const c_char, _l: usize, cb: Option<Cb>, data: Ptr, out: *mut Val) {
        *out = en!(env).new(V::Fun(cb.unwrap(), data, BTreeMap::new()));
        0
    }
    napi_define_class(env: Env, _n: *const c_char, _l: usize, ctor: Option<Cb>, data: Ptr, n: usize, ds: *const Desc, out: *mut Val) {
        let e = en!(env);
        let mut m = BTreeMap::new();
        for i in 0..n {
            let x = &*ds.add(i);
            let k = if x.name.is_null() { e.message(x.sym) } else { text(x.name, usize::MAX) };
            if let Some(cb) = x.method {
                let f = e.new(V::Fun(cb, x.data, BTreeMap::new()));
                m.insert(k, f);
            }
        }
        *out = e.new(V::Fun(ctor.unwrap(), data, m));
        0
    }
    napi_new_instance(env: Env, class: Val, n: usize, args: *const Val, out: *mut Val) {
        let e = en!(env);
        let o = e.new(V::Obj(Obj { class, ..Obj::default() }));
        let V::Fun(cb, data, _) = *e.v(class) else { return 1 };
        e.info.push(Info { this: o, args: slice(args, n).to_vec(), data });
        let (k, ep) = (e.info.len(), e as Env);
        user(|| cb(ep, k));
        e.info.pop();
        *out = o;
        if e.exc != 0 { 10 } else { 0 }
    }
    napi_instanceof(env: Env, o: Val, class: Val, out: *mut bool) {
        *out = matches!(en!(env).v(o), V::Obj(x) if x.class == class);
        0
    }
    napi_get_cb_info(env: Env, info: usize, argc: *mut usize, argv: *mut Val, this: *mut Val, data: *mut Ptr) {
        let e = en!(env);
        let u = e.undef();
        let i = &e.info[info - 1];
        if !argc.is_null() {
            if !argv.is_null() {
                for k in 0..*argc {
                    *argv.add(k) = i.args.get(k).copied().filter(|v| *v != 0).unwrap_or(u);
                }
            }
            *argc = i.args.len();
        }
        if !this.is_null() { *this = i.this; }
        if !data.is_null() { *data = i.data; }
        0
    }
    napi_wrap(env: Env, o: Val, p: Ptr, f: Option<Fin>, hint: Ptr, out: *mut usize) {
        let e = en!(env);
        match &mut e.vals[o - 1] {
            V::Obj(x) => {
                if x.wrap.is_some() { return 1; }
                x.wrap = Some((p, f, hint));
            }
            _ => return 2,
        }
        if !out.is_null() {
            e.refs.push((o, 0, false));
            *out = e.refs.len();
        }
        0
    }
    napi_unwrap(env: Env, o: Val, out: *mut Ptr) {
        match en!(env).v(o) {
            V::Obj(Obj { wrap: Some(x), .. }) => { *out = x.0; 0 }
            _ => 1,
        }
    }
    napi_create_reference(env: Env, v: Val, n: u32, out: *mut usize) {
        let e = en!(env);
        e.refs.push((v, n, false));
        *out = e.refs.len();
        0
    }
    napi_delete_reference(env: Env, r: usize) {
        let e = en!(env);
        if r == 0 || r > e.refs.len() || e.refs[r - 1].2 {
            broken("a reference is deleted that does not exist");
            return 1;
        }
        e.refs[r - 1].2 = true;
        0
    }
    napi_reference_ref(env: Env, r: usize, out: *mut u32) {
        let e = en!(env);
        e.refs[r - 1].1 += 1;
        if !out.is_null() { *out = e.refs[r - 1].1; }
        0
    }
    napi_reference_unref(env: Env, r: usize, out: *mut u32) {
        let e = en!(env);
        if e.refs[r - 1].1 == 0 { return 9; }
        e.refs[r - 1].1 -= 1;
        if !out.is_null() { *out = e.refs[r - 1].1; }
        0
    }
    napi_get_reference_value(env: Env, r: usize, out: *mut Val) {
        let e = en!(env);
        *out = if r == 0 || r > e.refs.len() || e.refs[r - 1].2 { 0 } else { e.refs[r - 1].0 };
        0
    }
    napi_create_promise(env: Env, def: *mut usize, out: *mut Val) {
        let e = en!(env);
        e.proms.push(Prom { st: Pst::Pending, val: 0, owner: e.owner, deadline: u64::MAX, made: w().now, settled: 0, taken: false });
        *def = e.proms.len();
        let n = e.proms.len() - 1;
        *out = e.new(V::Prom(n));
        0
    }
    napi_resolve_deferred(env: Env, def: usize, v: Val) {
        en!(env).settle(def, Pst::Resolved, v)
    }
    napi_reject_deferred(env: Env, def: usize, v: Val) {
        en!(env).settle(def, Pst::Rejected, v)
    }
    napi_create_threadsafe_function(env: Env, fun: Val, _res: Val, _name: Val, max: usize, threads: usize, fin_data: Ptr, fin: Option<Fin>, ctx: Ptr, call: Option<CallJs>, out: *mut *mut Ts) {
        let e = en!(env);
        if threads == 0 || call.is_none() || max != 0 { return 1; }
        let t = Box::into_raw(Box::new(Ts { env, queue: VecDeque::new(), threads: threads as u32, ctx, call: call.unwrap(), fin, fin_data, fun, closing: false, dead: false, refd: true }));
        e.ts.push(t);
        e.hooks.push(H::Ts(t));
        *out = t;
        0
    }
    napi_call_threadsafe_function(t: *mut Ts, data: Ptr, _mode: i32) {
        // another thread may get in between
        sched::yield_now(sched::Yk::Sys);
        let t = &mut *t;
        if t.dead {
            broken("a threadsafe function is called after its end");
            return 1;
        }
        if t.closing {
            if t.threads == 0 { return 1; }
            t.threads -= 1;
            return 16;
        }
        t.queue.push_back(data as usize);
        let _ = t.env;
        wake_events();
        0
    }
    napi_acquire_threadsafe_function(t: *mut Ts) {
        let t = &mut *t;
        if t.dead { broken("a threadsafe function is acquired after its end"); return 1; }
        if t.closing { return 16; }
        t.threads += 1;
        0
    }
    napi_release_threadsafe_function(t: *mut Ts, mode: i32) {
        sched::yield_now(sched::Yk::Sys);
        let t = &mut *t;
        if t.dead {
            broken("a threadsafe function is released after its end");
            return 1;
        }
        if t.threads == 0 { return 1; }
        t.threads -= 1;
        if mode == 1 { t.threads = 0; t.queue.clear(); }
        wake_events();
        0
    }
    napi_ref_threadsafe_function(_env: Env, t: *mut Ts) {
        if (*t).dead { broken("a threadsafe function is referenced after its end"); }
        (*t).refd = true;
        0
    }
    napi_unref_threadsafe_function(_env: Env, t: *mut Ts) {
        if (*t).dead { broken("a threadsafe function is unreferenced after its end"); }
        (*t).refd = false;
        0
    }
    napi_get_threadsafe_function_context(t: *mut Ts, out: *mut Ptr) {
        *out = (*t).ctx;
        0
    }
}

// the rest of the interface is not there
macro_rules! none {
    ($($n:ident)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n() -> u32 { 9 })* };
}
include!("napi_none.rs");
