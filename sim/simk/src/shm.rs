//! Shared result area between a run (forked child) and its worker process.
use crate::raw;

pub const MAX_PLAN: usize = 1 << 16;
pub const MAX_SCHED: usize = 1 << 18;
pub const MAX_FAULT: usize = 1 << 14;
pub const NSTAT: usize = 160;
pub const COV_BITS: usize = 1 << 20;

#[repr(C)]
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct SchedRec {
    pub tid: u32,
    pub count: u32,
    pub target: u32,
}
#[repr(C)]
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct FaultRec {
    pub kind: u32,
    pub tid: u32,
    pub count: u32,
    pub value: u32,
}

#[repr(C)]
pub struct Shm {
    /// 0 = running / died without report, 1 = finished clean, 2 = violation, 3 = harness error
    pub status: u32,
    pub class_len: u32,
    pub msg_len: u32,
    pub class: [u8; 96],
    pub msg: [u8; 8192],
    pub nplan: u32,
    pub nsched: u32,
    pub nfault: u32,
    pub overflow: u32,
    pub steps: u64,
    pub switches: u64,
    pub now: u64,
    pub hash: u64,
    pub shape: u64,
    pub stats: [u32; NSTAT],
    pub note_len: u32,
    pub note: [u8; 4096],
    pub plan: [u32; MAX_PLAN],
    pub sched: [SchedRec; MAX_SCHED],
    pub faults: [FaultRec; MAX_FAULT],
}

/// Coverage bitmap, accumulated over all the runs of one worker.
#[repr(C)]
pub struct Cov {
    pub bits: [u8; COV_BITS / 8],
}

pub fn map_shared(size: usize) -> *mut u8 {
    unsafe {
        let r = raw::syscall6(
            libc::SYS_mmap,
            0,
            size,
            (libc::PROT_READ | libc::PROT_WRITE) as usize,
            (libc::MAP_SHARED | libc::MAP_ANONYMOUS) as usize,
            usize::MAX,
            0,
        );
        assert!(r > 0);
        r as *mut u8
    }
}

impl Shm {
    pub fn reset(&mut self) {
        self.status = 0;
        self.class_len = 0;
        self.msg_len = 0;
        self.nplan = 0;
        self.nsched = 0;
        self.nfault = 0;
        self.overflow = 0;
        self.steps = 0;
        self.switches = 0;
        self.now = 0;
        self.hash = 0;
        self.shape = 0;
        self.note_len = 0;
        self.stats = [0; NSTAT];
    }
    pub fn set(&mut self, status: u32, class: &str, msg: &str) {
        let c = class.as_bytes();
        let n = c.len().min(self.class.len());
        self.class[..n].copy_from_slice(&c[..n]);
        self.class_len = n as u32;
        let m = msg.as_bytes();
        let n = m.len().min(self.msg.len());
        self.msg[..n].copy_from_slice(&m[..n]);
        self.msg_len = n as u32;
        self.status = status;
    }
    pub fn set_note(&mut self, m: &str) {
        let m = m.as_bytes();
        let n = m.len().min(self.note.len());
        self.note[..n].copy_from_slice(&m[..n]);
        self.note_len = n as u32;
    }
    pub fn class(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len as usize]).into_owned()
    }
    pub fn msg(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len as usize]).into_owned()
    }
    pub fn note(&self) -> String {
        String::from_utf8_lossy(&self.note[..self.note_len as usize]).into_owned()
    }
}
