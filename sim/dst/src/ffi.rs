//! The C interface: its functions as a C program sees them, and adapters that let the workloads use it.
use crate::engine::*;
use crate::h::*;
use crate::util::*;
use ipmb::{BytesMessage, Message, Object, Selector};
use simk::*;
use std::{
    ffi::{c_char, c_void, CString},
    ptr,
    sync::{
        atomic::{AtomicU32, Ordering::Relaxed},
        Arc,
    },
    time::Duration,
};

extern crate ipmb_ffi as _;

pub type P = *mut c_void;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CSelector {
    pub label_op: *const P,
    pub mode: u32,
    pub ttl: u32,
}
#[repr(C)]
pub struct COptions {
    pub identifier: *const c_char,
    pub label: *const P,
    pub token: *const c_char,
    pub controller_affinity: bool,
}
pub const INFINITE: u32 = !0;

// as in ipmb_ffi.h
#[rustfmt::skip]
#[allow(dead_code)]
extern "C" {
    pub fn ipmb_version(major: *mut u8, minor: *mut u8, patch: *mut u8);
    pub fn ipmb_version_pre() -> P;
    pub fn ipmb_rstring_data(s: *const P, p: *mut *const c_char, n: *mut usize);
    pub fn ipmb_rstring_drop(s: P);
    pub fn ipmb_join(o: COptions, timeout: u32, tx: *mut P, rx: *mut P) -> i32;
    pub fn ipmb_sender_drop(tx: P);
    pub fn ipmb_send(tx: *mut P, m: P) -> i32;
    pub fn ipmb_receiver_drop(rx: P);
    pub fn ipmb_recv(rx: *mut P, m: *mut P, timeout: u32) -> i32;
    pub fn ipmb_memory_registry() -> P;
    pub fn ipmb_memory_registry_drop(r: P);
    pub fn ipmb_memory_registry_alloc(r: *mut P, min: usize, tag: *const c_char, out: *mut P) -> i32;
    pub fn ipmb_memory_registry_alloc_with_free(r: *mut P, min: usize, tag: *const c_char, ctx: P, free: Option<extern "C" fn(P)>, out: *mut P) -> i32;
    pub fn ipmb_memory_registry_maintain(r: *mut P);
    pub fn ipmb_message(s: CSelector, format: u16, p: *const u8, n: u32) -> P;
    pub fn ipmb_message_drop(m: P);
    pub fn ipmb_message_bytes_data(m: *const P, format: *mut u16, p: *mut *const u8, n: *mut u32);
    pub fn ipmb_message_object_append(m: *mut P, o: u64);
    pub fn ipmb_message_object_retrieve(m: *mut P, i: usize) -> u64;
    pub fn ipmb_message_object_get(m: *const P, i: usize) -> u64;
    pub fn ipmb_object_drop(o: u64);
    pub fn ipmb_message_memory_region_append(m: *mut P, r: P);
    pub fn ipmb_message_memory_region_retrieve(m: *mut P, i: usize) -> P;
    pub fn ipmb_message_memory_region_get(m: *const P, i: usize) -> P;
    pub fn ipmb_memory_region(n: usize, out: *mut P) -> i32;
    pub fn ipmb_memory_region_drop(r: P);
    pub fn ipmb_memory_region_map(r: *mut P, off: usize, n: isize, real: *mut isize) -> *mut u8;
    pub fn ipmb_memory_region_ref_count(r: *const P) -> u32;
    pub fn ipmb_memory_region_clone(r: *const P, out: *mut P) -> i32;
    pub fn ipmb_label() -> P;
    pub fn ipmb_label_drop(l: P);
    pub fn ipmb_label_insert(l: *mut P, s: *const c_char);
    pub fn ipmb_label_op_bool(v: bool) -> P;
    pub fn ipmb_label_op_leaf(s: *const c_char) -> P;
    pub fn ipmb_label_op_drop(l: P);
    pub fn ipmb_label_op_not(l: P) -> P;
    pub fn ipmb_label_op_and(l: P, r: P) -> P;
    pub fn ipmb_label_op_or(l: P, r: P) -> P;
}

/// Something the C interface did not do as documented; runs inside `user`.
pub fn wrong(what: &str) {
    let _g = kenter();
    violation("c-api", what);
}
fn counted() {
    let _g = kenter();
    stat(U_FFI, 1);
}

// ---- the ids and kinds of the workload inside a BytesMessage -------------------------------------------------------

pub fn enc(id: u32, kind: u8, body: Vec<u8>) -> (u16, Vec<u8>) {
    if body.is_empty() && id < 2048 {
        return (0xf000 | (id as u16) << 1 | kind as u16, vec![]);
    }
    let mut v = id.to_le_bytes().to_vec();
    v.extend(body);
    (mark(id) << 1 | kind as u16, v)
}
fn mark(id: u32) -> u16 {
    (id.wrapping_mul(40_503) >> 3) as u16 & 0x3fff
}
pub fn dec(format: u16, data: &[u8]) -> (u32, u8, Vec<u8>) {
    let kind = (format & 1) as u8;
    if format >= 0xf000 && data.is_empty() {
        return ((format as u32 & 0xfff) >> 1, kind, vec![]);
    }
    if data.len() >= 4 {
        let id = u32::from_le_bytes(data[..4].try_into().unwrap());
        if mark(id) == format >> 1 {
            return (id, kind, data[4..].to_vec());
        }
    }
    (u32::MAX, kind, vec![])
}

// ---- Rust endpoints with the same message type --------------------------------------------------------------------

struct BTx(ipmb::EndpointSender<BytesMessage>);
impl Tx for BTx {
    fn send(&self, m: OutMsg) -> Result<(), E> {
        let mut s = if m.multi { Selector::multicast(m.expr.op()) } else { Selector::unicast(m.expr.op()) };
        s.ttl = m.ttl;
        let (format, data) = enc(m.id, m.kind, m.body);
        let mut msg = Message::new(s, BytesMessage { format, data });
        msg.objects = m.objects;
        msg.memory_regions = m.regions.into_iter().map(Reg::rust).collect();
        self.0.send(msg).map_err(E::from)
    }
    fn dup(&self) -> Box<dyn Tx> {
        Box::new(BTx(self.0.clone()))
    }
}
struct BRx(ipmb::EndpointReceiver<BytesMessage>);
impl Rx for BRx {
    fn recv(&mut self, t: Option<Duration>) -> Result<InMsg, E> {
        let m = self.0.recv(t).map_err(E::from)?;
        let (id, kind, body) = dec(m.payload.format, &m.payload.data);
        Ok(InMsg { id, kind, body, objects: m.objects, regions: m.memory_regions.into_iter().map(Reg::R).collect() })
    }
}
pub fn join_bytes(j: JoinSpec) -> Result<Pair, E> {
    let mut o = ipmb::Options::new(j.ident, label_of(j.label), j.token);
    o.controller_affinity = j.affinity;
    let (a, b) = ipmb::join::<BytesMessage, BytesMessage>(o, j.timeout)?;
    Ok((Box::new(BTx(a)), Box::new(BRx(b))))
}

// ---- C endpoints ----------------------------------------------------------------------------------------------------

/// The documented error codes. The C interface does not tell which version it met.
pub fn code(c: i32) -> E {
    match c {
        -1 => E::Io(0),
        -2 => E::Timeout,
        -3 => E::Decode,
        -4 => E::Version(0, 0, 0),
        -5 => E::Token,
        -6 => E::Denied,
        _ => E::Other(format!("undocumented error code {}", c)),
    }
}
pub fn ms(t: Option<Duration>) -> u32 {
    t.map(|t| t.as_nanos().div_ceil(1_000_000).min(INFINITE as u128 - 1) as u32).unwrap_or(INFINITE)
}

pub fn c_op(e: &Expr) -> P {
    unsafe {
        match e {
            Expr::T => ipmb_label_op_bool(true),
            Expr::F => ipmb_label_op_bool(false),
            Expr::Leaf(i) => {
                let s = CString::new(POOL[*i as usize]).unwrap();
                ipmb_label_op_leaf(s.as_ptr())
            }
            Expr::Not(a) => ipmb_label_op_not(c_op(a)),
            Expr::And(a, b) => {
                let a = c_op(a);
                ipmb_label_op_and(a, c_op(b))
            }
            Expr::Or(a, b) => {
                let a = c_op(a);
                ipmb_label_op_or(a, c_op(b))
            }
        }
    }
}

struct Handle(P);
unsafe impl Send for Handle {}
unsafe impl Sync for Handle {}
impl Drop for Handle {
    fn drop(&mut self) {
        unsafe { ipmb_sender_drop(self.0) }
    }
}

pub struct CReg(pub P);
unsafe impl Send for CReg {}
impl Drop for CReg {
    fn drop(&mut self) {
        unsafe { ipmb_memory_region_drop(self.0) }
    }
}
impl CReg {
    pub fn new(n: usize) -> Option<CReg> {
        let mut p = ptr::null_mut();
        let r = unsafe { ipmb_memory_region(n, &mut p) };
        if r == 0 {
            Some(CReg(p))
        } else {
            None
        }
    }
    pub fn dup(&self) -> Option<CReg> {
        let mut p = ptr::null_mut();
        let r = unsafe { ipmb_memory_region_clone(&self.0, &mut p) };
        if r == 0 {
            Some(CReg(p))
        } else {
            None
        }
    }
    pub fn map(&mut self) -> Option<&mut [u8]> {
        let mut n = 0;
        unsafe {
            let p = ipmb_memory_region_map(&mut self.0, 0, -1, &mut n);
            if p.is_null() {
                return None;
            }
            Some(std::slice::from_raw_parts_mut(p, n as usize))
        }
    }
    pub fn into_raw(self) -> P {
        let p = self.0;
        std::mem::forget(self);
        p
    }
}

struct CTx(Arc<Handle>);
impl Tx for CTx {
    fn send(&self, m: OutMsg) -> Result<(), E> {
        let (format, data) = enc(m.id, m.kind, m.body);
        let op = c_op(&m.expr);
        let sel = CSelector { label_op: &op, mode: m.multi as u32, ttl: m.ttl.as_millis().min(u32::MAX as u128) as u32 };
        let r = unsafe {
            let p = if data.is_empty() { ptr::null() } else { data.as_ptr() };
            let mut msg = ipmb_message(sel, format, p, data.len() as u32);
            ipmb_label_op_drop(op);
            drop(data);
            let (nobj, nreg) = (m.objects.len(), m.regions.len());
            let fds: Vec<i32> = m.objects.into_iter().map(|o| o.into_raw()).collect();
            for fd in &fds {
                ipmb_message_object_append(&mut msg, *fd as u64);
            }
            for r in m.regions {
                ipmb_message_memory_region_append(&mut msg, r.c().into_raw());
            }
            // look at what was appended, and take out and put back the first
            for (i, fd) in fds.iter().enumerate() {
                if ipmb_message_object_get(&msg, i) != *fd as u64 {
                    wrong("object_get returns another object than was appended");
                }
            }
            if m.id % 3 == 0 && nobj == 1 {
                let o = ipmb_message_object_retrieve(&mut msg, 0);
                if o != fds[0] as u64 {
                    wrong("object_retrieve returns another object than was appended");
                }
                ipmb_message_object_append(&mut msg, o);
            }
            if m.id % 3 == 0 && nreg == 1 {
                let r = ipmb_message_memory_region_retrieve(&mut msg, 0);
                if r.is_null() || !ipmb_message_memory_region_get(&msg, 0).is_null() {
                    wrong("memory_region_retrieve does not take the region out of the message");
                }
                ipmb_message_memory_region_append(&mut msg, r);
            }
            if ipmb_message_object_get(&msg, nobj) != 0 || !ipmb_message_memory_region_get(&msg, nreg).is_null() {
                wrong("an attachment that does not exist was returned");
            }
            counted();
            // a sender may be used by several threads, each with its own variable
            let mut tx = self.0 .0;
            ipmb_send(&mut tx, msg)
        };
        if r == 0 {
            Ok(())
        } else {
            Err(code(r))
        }
    }
    fn dup(&self) -> Box<dyn Tx> {
        Box::new(CTx(self.0.clone()))
    }
}

struct CRx(P);
unsafe impl Send for CRx {}
impl Drop for CRx {
    fn drop(&mut self) {
        unsafe { ipmb_receiver_drop(self.0) }
    }
}
impl Rx for CRx {
    fn recv(&mut self, t: Option<Duration>) -> Result<InMsg, E> {
        let mut msg = ptr::null_mut();
        let r = unsafe { ipmb_recv(&mut self.0, &mut msg, ms(t)) };
        counted();
        if r != 0 {
            return Err(code(r));
        }
        unsafe { Ok(open(msg)) }
    }
}

static TURN: AtomicU32 = AtomicU32::new(0);

/// Takes everything out of a received message and drops it.
pub unsafe fn open(mut msg: P) -> InMsg {
    let (mut format, mut p, mut n) = (0u16, ptr::null(), 0u32);
    ipmb_message_bytes_data(&msg, &mut format, &mut p, &mut n);
    let (id, kind, body) = dec(format, if n == 0 { &[] } else { std::slice::from_raw_parts(p, n as usize) });
    let turn = TURN.fetch_add(1, Relaxed);
    let mut objects = vec![];
    loop {
        let g = ipmb_message_object_get(&msg, 0);
        let o = ipmb_message_object_retrieve(&mut msg, 0);
        if g != o {
            wrong("object_get and object_retrieve disagree");
        }
        if o == 0 {
            break;
        }
        objects.push(Object::from_raw(o as i32));
    }
    let mut regions = vec![];
    let mut dropped = false;
    loop {
        if turn % 4 == 3 {
            // a clone survives the message, the original goes with it
            let mut g = ipmb_message_memory_region_get(&msg, regions.len());
            if g.is_null() {
                break;
            }
            if ipmb_memory_region_map(&mut g, 0, -1, ptr::null_mut()).is_null() || ipmb_memory_region_ref_count(&g) == 0 {
                wrong("a region of a received message cannot be mapped or has no references");
            }
            let mut c = ptr::null_mut();
            if ipmb_memory_region_clone(&g, &mut c) != 0 {
                wrong("a region of a received message cannot be cloned");
                break;
            }
            regions.push(Reg::C(CReg(c)));
        } else {
            // from the back or from the front
            let r = ipmb_message_memory_region_retrieve(&mut msg, 0);
            if r.is_null() {
                break;
            }
            regions.push(Reg::C(CReg(r)));
            if turn % 4 == 2 && ipmb_message_memory_region_get(&msg, 0).is_null() {
                ipmb_message_drop(msg);
                dropped = true;
                break;
            }
        }
    }
    if !dropped {
        ipmb_message_drop(msg);
    }
    InMsg { id, kind, body, objects, regions }
}

pub fn join_c(j: JoinSpec) -> Result<Pair, E> {
    let id = CString::new(j.ident).unwrap();
    let token = CString::new(j.token).unwrap();
    unsafe {
        let mut label = ipmb_label();
        for s in label_strings(j.label) {
            let s = CString::new(s).unwrap();
            ipmb_label_insert(&mut label, s.as_ptr());
        }
        let (mut a, mut b) = (ptr::null_mut(), ptr::null_mut());
        let o = COptions { identifier: id.as_ptr(), label: &label, token: token.as_ptr(), controller_affinity: j.affinity };
        let r = ipmb_join(o, ms(j.timeout), &mut a, &mut b);
        ipmb_label_drop(label);
        counted();
        if r != 0 {
            if !a.is_null() || !b.is_null() {
                wrong("a failed join stores handles");
            }
            return Err(code(r));
        }
        Ok((Box::new(CTx(Arc::new(Handle(a)))), Box::new(CRx(b))))
    }
}
