//! Regions and registries of either interface.
use crate::ffi::*;
use ipmb::MemoryRegion;
use simk::*;
use std::{ffi::CString, ptr};

pub enum Reg {
    R(MemoryRegion),
    C(CReg),
    /// received by JavaScript
    J(crate::js::JReg),
    /// a buffer JavaScript sends as a region
    B(Vec<u8>),
}
impl Reg {
    pub fn new(c: bool, n: usize) -> Option<Reg> {
        if c {
            CReg::new(n).map(Reg::C)
        } else {
            MemoryRegion::new(n).map(Reg::R)
        }
    }
    pub fn rust(self) -> MemoryRegion {
        match self {
            Reg::R(r) => r,
            _ => panic!("harness: another handle where a Rust one belongs"),
        }
    }
    pub fn c(self) -> CReg {
        match self {
            Reg::C(r) => r,
            _ => panic!("harness: another handle where a C one belongs"),
        }
    }
    pub fn is_c(&self) -> bool {
        matches!(self, Reg::C(_))
    }
    pub fn dup(&self) -> Option<Reg> {
        match self {
            Reg::R(r) => r.clone().ok().map(Reg::R),
            Reg::C(r) => r.dup().map(Reg::C),
            _ => None,
        }
    }
    pub fn bytes(self) -> Vec<u8> {
        match self {
            Reg::B(v) => v,
            _ => panic!("harness: a handle where a buffer belongs"),
        }
    }
    pub fn map(&mut self) -> Option<&mut [u8]> {
        match self {
            Reg::R(r) => r.map(..).ok(),
            Reg::C(r) => r.map(),
            Reg::J(r) => Some(&mut r.data),
            Reg::B(v) => Some(v),
        }
    }
    // called in kernel mode
    pub fn file(&mut self, p: Pid) -> usize {
        match self {
            Reg::R(r) => file_of(p, r.object().as_raw()).unwrap_or(0),
            Reg::C(r) => {
                let a = user(|| r.map().map(|b| b.as_ptr() as usize));
                a.and_then(file_at).unwrap_or(0)
            }
            Reg::J(r) => r.file,
            Reg::B(_) => 0,
        }
    }
    pub fn size(&mut self) -> usize {
        match self {
            Reg::R(r) => r.buffer_size() as usize,
            Reg::C(r) => user(|| r.map().map(|b| b.len()).unwrap_or(usize::MAX)),
            Reg::J(r) => r.data.len(),
            Reg::B(v) => v.len(),
        }
    }
}

pub enum Registry {
    R(ipmb::MemoryRegistry),
    C(P),
}
impl Registry {
    pub fn new(c: bool) -> Registry {
        if c {
            Registry::C(unsafe { ipmb_memory_registry() })
        } else {
            Registry::R(ipmb::MemoryRegistry::default())
        }
    }
    pub fn alloc(&mut self, n: usize, tag: Option<&str>) -> Option<Reg> {
        match self {
            Registry::R(r) => r.alloc(n, tag).map(Reg::R),
            Registry::C(r) => {
                let tag = tag.map(|t| CString::new(t).unwrap());
                let mut out = ptr::null_mut();
                let x = unsafe { ipmb_memory_registry_alloc(r, n, tag.as_ref().map(|t| t.as_ptr()).unwrap_or(ptr::null()), &mut out) };
                (x == 0).then(|| Reg::C(CReg(out)))
            }
        }
    }
    pub fn alloc_with_free(&mut self, n: usize, tag: Option<&str>, aid: usize, f: fn(usize)) -> Option<Reg> {
        match self {
            Registry::R(r) => r.alloc_with_free(n, tag, move || f(aid)).map(Reg::R),
            Registry::C(r) => {
                let tag = tag.map(|t| CString::new(t).unwrap());
                let mut out = ptr::null_mut();
                let ctx = Box::into_raw(Box::new((f, aid))) as P;
                let x = unsafe { ipmb_memory_registry_alloc_with_free(r, n, tag.as_ref().map(|t| t.as_ptr()).unwrap_or(ptr::null()), ctx, Some(freed), &mut out) };
                (x == 0).then(|| Reg::C(CReg(out)))
            }
        }
    }
    pub fn maintain(&mut self) {
        match self {
            Registry::R(r) => r.maintain(),
            Registry::C(r) => unsafe { ipmb_memory_registry_maintain(r) },
        }
    }
}
impl Drop for Registry {
    fn drop(&mut self) {
        if let Registry::C(r) = self {
            unsafe { ipmb_memory_registry_drop(*r) }
        }
    }
}
extern "C" fn freed(ctx: P) {
    // a second call is a double free
    let b = unsafe { Box::from_raw(ctx as *mut (fn(usize), usize)) };
    (b.0)(b.1);
}
