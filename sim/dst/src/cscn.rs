//! Workloads for the C interface.
use crate::engine::*;
use crate::ffi::*;
use crate::h::*;
use crate::scn2::on;
use crate::util::*;
use crate::{oracle, scn, scn2};
use simk::*;
use std::{ffi::CString, ptr, time::Duration};

macro_rules! c {
    ($($n:ident = $m:ident :: $f:ident),*) => { $(pub fn $n() { with_c($m::$f) })* };
}
c!(
    c_bus = scn::multicast,
    c_select = scn::selection,
    c_buses = scn::buses,
    c_kill = scn::multicast_kill,
    c_order = scn::ordering_failover,
    c_attach = scn::attachments,
    c_attach_kill = scn::attachments_failover,
    c_failover = scn::failover,
    c_tokens = scn2::tokens_failover,
    c_versions = scn2::versions,
    c_ttl = scn2::ttl,
    c_recv_times = scn2::recv_times,
    c_join_times = scn2::join_times,
    c_regions = scn2::regions,
    c_registry = scn2::registry,
    c_fds = scn2::descriptors,
    c_churn = scn2::churn
);

// ---- errors ---------------------------------------------------------------------------------------------------------

/// How a call must end.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Ok,
    Timeout,
    Token,
    Version,
    Denied,
}
fn is(w: Want, e: &E) -> bool {
    match (w, e) {
        (Want::Timeout, E::Timeout) | (Want::Token, E::Token) | (Want::Version, E::Version(..)) | (Want::Denied, E::Denied) => true,
        _ => false,
    }
}
fn judge(what: &str, want: Want, got: &Result<(), E>) {
    stat(U_MISMATCH, 1);
    let ok = match got {
        Ok(()) => want == Want::Ok,
        Err(e) => is(want, e),
    };
    if !ok {
        violation("c-api", &format!("{} ended with {:?}, it had to end with {:?}", what, got, want));
    }
}

pub struct BadBytes;
pub fn join_bad() -> (ipmb::EndpointSender<BadBytes>, ipmb::EndpointReceiver<BadBytes>) {
    let o = ipmb::Options::new("bus.one", label_of(0), "secret");
    ipmb::join::<BadBytes, BadBytes>(o, None).unwrap_or_else(|_| panic!("harness: the bad sender cannot join"))
}
pub fn send_bad(tx: &ipmb::EndpointSender<BadBytes>, multi: bool, to: &'static str) {
    let s = if multi { ipmb::Selector::multicast(to) } else { ipmb::Selector::unicast(to) };
    let _ = tx.send(ipmb::Message::new(s, BadBytes));
}
impl ipmb::MessageBox for BadBytes {
    fn decode(_: type_uuid::Bytes, _: &[u8]) -> Result<Self, ipmb::Error> {
        Err(ipmb::Error::TypeUuidNotFound)
    }
    fn encode(&self) -> Result<Vec<u8>, ipmb::Error> {
        Ok(vec![])
    }
    fn uuid(&self) -> type_uuid::Bytes {
        <ipmb::BytesMessage as type_uuid::TypeUuid>::UUID
    }
}

fn host(token: u8, api: ApiKind, label: u32) -> (Pid, usize) {
    let p = proc_new(&format!("H{}", w().procs.len()));
    let mut s = spec(p, label);
    s.token = token;
    s.api = api;
    let id = add_ep(s);
    wait_until(w().now + 30 * SEC, || ep(id).join_ret.is_some());
    (p, id)
}

/// Joins, sends and receives that must fail in a certain way, through both interfaces.
pub fn c_errors() {
    with_c(c_errors_run)
}
fn c_errors_run() {
    init_h();
    scn::environment(&scn::Cfg { delay: 0.0, eintr: pick(&[0.0, 0.05]), ..scn::BASE });
    h().rx_errors_ok = true;
    h().decode_ok = true;
    h().send_errors_ok = true;
    let pick_host = || -> (Want, u8, ApiKind) {
        match d(4) {
            0 => (Want::Ok, 0, ApiKind::Main),
            1 => (Want::Token, pick(&[1, 2, 3]), ApiKind::Main),
            2 => (Want::Version, pick(&[0, 1]), pick(&[ApiKind::V090, ApiKind::V180])),
            _ => (Want::Denied, 0, ApiKind::Main),
        }
    };
    let (mut want, t, a) = pick_host();
    let none = chance(15);
    if none {
        want = if want == Want::Denied { Want::Denied } else { Want::Timeout };
    }
    let mut host0 = None;
    if !none {
        host0 = Some(host(t, a, 1));
    }
    let p = proc_new("P");
    w().procs[p].deny = want == Want::Denied;
    // joins of either interface, in any order
    for _ in 0..1 + d(2) {
        let api = pick(&[ApiKind::Ffi, ApiKind::Bytes]);
        let ms = pick(&[500u64, 0, 1, 1999, 5000, 20_000]);
        // (start_gate: not one of the endpoints the run waits for)
        let id = add_ep_quiet(EpSpec { api, affinity: false, start_gate: 9, ..spec(p, 2) });
        on(p, &format!("ep{}", id), move || {
            let timeout = if ms == 0 && !none { None } else { Some(Duration::from_millis(ms)) };
            let js = JoinSpec { ident: h().idents[0].clone(), label: 2, token: "secret".into(), affinity: false, timeout, acc: Acc::Any };
            let inv = w().now;
            let r = user(|| join_api(api, js));
            let el = (w().now - inv) / MS;
            if want == Want::Timeout && (el < ms || el > ms + 2020) {
                violation("c-api", &format!("a join of {} ms took {} ms", ms, el));
            }
            let tell = r.as_ref().map(|_| ()).map_err(|e| e.clone());
            // a short timeout may end first; a denial counts when it has been repeated for some seconds
            let short = if want == Want::Denied { 14_000 } else { 1000 };
            if !(matches!(tell, Err(E::Timeout)) && ms < short && timeout.is_some()) {
                judge(&format!("join ({:?}, {:?})", api, timeout), want, &tell);
            }
            user(move || drop(r));
        });
    }
    w().procs[p].deny = false;
    if want != Want::Ok {
        // the same process can join a bus that accepts it
        if let Some((hp, _)) = host0 {
            kill(hp);
            sleep_ms(100);
        }
        host0 = Some(host(0, ApiKind::Main, 1));
    }
    // endpoints of both interfaces, one thread receives, one sends
    let mut ids = vec![];
    for api in [ApiKind::Ffi, ApiKind::Bytes] {
        let mut s = spec(p, 2);
        s.api = api;
        s.affinity = false;
        s.rx.timeout_ms = pick(&[0, 50, 700]);
        let id = add_ep(s);
        wait_until(w().now + 30 * SEC, || ep(id).join_ret.is_some());
        ids.push(id);
        if let Some(e) = ep(id).join_err.as_ref() {
            violation("c-api", &format!("a join ({:?}) the bus accepts failed with {:?}", api, e));
            return;
        }
    }
    // undecodable messages are reported and lose nothing else
    let nbad = d(4);
    let bad_to: Vec<u32> = (0..nbad).map(|_| d(2)).collect();
    let hp = host0.unwrap().0;
    on(hp, "bad", move || {
        let (tx, rx) = user(join_bad);
        user(move || drop(rx));
        for multi in bad_to {
            user(|| send_bad(&tx, multi == 1, "beta"));
            sleep_ms(pick(&[0, 1, 30]));
        }
        user(move || drop(tx));
    });
    for id in &ids {
        spawn_tx(*id, scn::gen_script(&scn::Cfg { sends: (1, 4), ..scn::BASE }), false);
    }
    let h0 = host0.unwrap().1;
    spawn_tx(h0, vec![Op::Send(SendSpec::simple(true, Expr::Leaf(1))), Op::Send(SendSpec::simple(false, Expr::Leaf(1)))], false);
    wait_scripts(60);
    sleep_ms(3_000);
    // the bus is taken over by somebody who refuses them
    let (want, t, a) = pick_host();
    if want == Want::Ok {
        oracle::history();
        decoded(&ids, nbad);
        return;
    }
    oracle::history();
    decoded(&ids, nbad);
    if want == Want::Denied {
        w().procs[p].deny = true;
    }
    kill(hp);
    // until the kernel has taken the dead process apart a send can still succeed
    let dead = w().now + 200 * MS;
    sleep_ms(pick(&[0, 1, 50, 250]));
    let (_, _nh) = host(t, a, 1);
    for id in &ids {
        spawn_tx(*id, vec![Op::Send(SendSpec::simple(false, Expr::T))], false);
    }
    let done = wait_until(w().now + 60 * SEC, || ids.iter().all(|i| ep(*i).tx_open == 0 && ep(*i).rx_error.is_some()));
    // a receiver that polls holds the endpoint nearly all the time and never waits long enough to be told of a denial
    let polls = want == Want::Denied && ids.iter().any(|i| ep(*i).spec.rx.timeout_ms > 0);
    if !done && !polls {
        violation("c-api", &format!("sends or receives have not failed within 60 s although the bus refuses the endpoints ({:?})", want));
    }
    for id in &ids {
        let api = ep(*id).spec.api;
        if let Some((_, e)) = &ep(*id).rx_error {
            judge(&format!("receive ({:?})", api), want, &Err(e.clone()));
        }
        if let Some(m) = h().msgs.iter().rev().find(|m| m.ep == *id) {
            if m.ret.is_some() && !(m.inv.t < dead && m.err.is_none()) {
                judge(&format!("send ({:?})", api), want, &m.err.clone().map(Err).unwrap_or(Ok(())));
            }
        }
    }
}
fn decoded(ids: &[usize], nbad: u32) {
    let seen: u32 = ids.iter().map(|i| ep(*i).ndecode).sum();
    if seen < nbad || seen > 2 * nbad {
        violation("c-api", &format!("{} undecodable messages were sent to two endpoints, {} decode errors were reported", nbad, seen));
    }
}

// ---- one half of an endpoint ------------------------------------------------------------------------------------------

unsafe fn raw_join(label: u32, timeout: u32, a: *mut P, b: *mut P) -> i32 {
    let (id, token) = (CString::new("bus.one").unwrap(), CString::new("secret").unwrap());
    let mut l = ipmb_label();
    for s in label_strings(label) {
        let s = CString::new(s).unwrap();
        ipmb_label_insert(&mut l, s.as_ptr());
    }
    let o = COptions { identifier: id.as_ptr(), label: &l, token: token.as_ptr(), controller_affinity: false };
    let r = ipmb_join(o, timeout, a, b);
    ipmb_label_drop(l);
    r
}
/// A program that wants one half of an endpoint, or none, passes null for the other: that half must not linger.
pub fn c_halves() {
    with_c(c_halves_run)
}
fn c_halves_run() {
    init_h();
    scn::environment(&scn::Cfg { delay: 0.0, eintr: pick(&[0.0, 0.05]), ..scn::BASE });
    h().foreign = true;
    let (_, hid) = host(0, ApiKind::Bytes, 1);
    let p = proc_new("P");
    let n = 1 + d(3);
    let mut want = 0;
    for _ in 0..n {
        let (half, api) = (d(3), d(2));
        let nsend = d(3);
        on(p, "half", move || {
            let fds = w().procs[p].fds.len();
            let (mut a, mut b): (P, P) = (ptr::null_mut(), ptr::null_mut());
            let r = user(|| unsafe { raw_join(2, if api == 0 { INFINITE } else { 5000 }, if half != 1 { ptr::null_mut() } else { &mut a }, if half != 0 { ptr::null_mut() } else { &mut b }) });
            if r != 0 {
                violation("c-api", &format!("a join for half an endpoint returns {}", r));
                return;
            }
            if a.is_null() != (half != 1) || b.is_null() != (half != 0) {
                violation("c-api", "a join does not store the handle that was asked for, or another one");
            }
            if !b.is_null() {
                // the receiver works: a message to its own label from a second, whole endpoint
                user(|| unsafe {
                    let (mut tx, mut rx) = (ptr::null_mut(), ptr::null_mut());
                    if raw_join(0, INFINITE, &mut tx, &mut rx) != 0 {
                        return wrong("a join fails");
                    }
                    for i in 0..nsend {
                        let op = c_op(&Expr::Leaf(1));
                        let m = ipmb_message(CSelector { label_op: &op, mode: i % 2, ttl: 0 }, i as u16, ptr::null(), 0);
                        ipmb_label_op_drop(op);
                        if ipmb_send(&mut tx, m) != 0 {
                            return wrong("a send fails");
                        }
                    }
                    for i in 0..nsend {
                        let mut m = ptr::null_mut();
                        let r = ipmb_recv(&mut b, &mut m, 20_000);
                        if r != 0 {
                            return wrong(&format!("receiving at an endpoint without sender returns {}", r));
                        }
                        let (mut f, mut q, mut n) = (0, ptr::null(), 1);
                        ipmb_message_bytes_data(&m, &mut f, &mut q, &mut n);
                        if f != i as u16 || n != 0 {
                            wrong("an endpoint without sender received another message than was sent");
                        }
                        ipmb_message_drop(m);
                    }
                    ipmb_sender_drop(tx);
                    ipmb_receiver_drop(rx);
                });
                user(|| unsafe { ipmb_receiver_drop(b) });
            }
            if !a.is_null() {
                user(|| unsafe {
                    for i in 0..nsend {
                        let op = c_op(&Expr::Leaf(0));
                        let data = (nsend * 100 + i).to_le_bytes();
                        let m = ipmb_message(CSelector { label_op: &op, mode: i % 2, ttl: 0 }, 0xfffe, data.as_ptr(), 4);
                        ipmb_label_op_drop(op);
                        let r = ipmb_send(&mut a, m);
                        if r != 0 {
                            wrong(&format!("sending from an endpoint without receiver returns {}", r));
                        }
                    }
                });
                user(|| unsafe { ipmb_sender_drop(a) });
            }
            let left = w().procs[p].fds.len() as i64 - fds as i64;
            // what a process keeps once it has joined: nothing
            if left != 0 {
                violation("c-api", &format!("{} descriptors are left of an endpoint of which nothing was asked for or everything was dropped", left));
            }
            stat(U_FDCHECK, 1);
        });
        if half == 1 {
            want += nsend;
        }
    }
    wait_until(w().now + 5 * SEC, || ep(hid).nforeign >= want);
    if ep(hid).nforeign != want {
        violation("c-api", &format!("{} messages were sent from endpoints without receiver, {} arrived", want, ep(hid).nforeign));
    }
}

// ---- handles ----------------------------------------------------------------------------------------------------------

extern "C" fn count(ctx: P) {
    unsafe { *(ctx as *mut u32) += 1 }
}

/// One thread works with every kind of handle; in the end nothing is left: no memory, descriptors or mappings.
pub fn c_handles() {
    init_h();
    scn::environment(&scn::Cfg { delay: 0.0, eintr: pick(&[0.0, 0.1]), errno: pick(&[0.0, 0.0, 0.05]), errno_mask: 1 << sysno::MMAP | 1 << sysno::MEMFD | 1 << sysno::FTRUNCATE | 1 << sysno::FCNTL | 1 << sysno::EVENTFD, ..scn::BASE });
    let p = proc_new("P");
    let n = 5 + d(40);
    on(p, "handles", move || {
        // whatever is allocated once
        w().faults_on = false;
        user(|| unsafe { Work::new().end() });
        w().faults_on = true;
        let (b0, f0, m0) = state(p);
        let mut x = user(|| unsafe { Work::new() });
        for _ in 0..n {
            let (k, a, b, c) = (d(16), d(8), d(5), pick(&[64usize, 0, 1, 4083, 4084, 9000]));
            if k == 15 {
                sleep_ms(pick(&[1, 1000, 5100]));
                continue;
            }
            user(|| unsafe { x.step(k, a, b, c) });
            on_event("step");
        }
        w().faults_on = false;
        user(move || unsafe { x.end() });
        let (b1, f1, m1) = state(p);
        if f1 != f0 || m1 != m0 {
            violation("c-api", &format!("every handle was dropped or consumed but {} descriptors and {} mappings are left", f1 - f0, m1 - m0));
        }
        if b1 != b0 {
            violation("c-api", &format!("every handle was dropped or consumed but {} blocks of memory are left", b1 - b0));
        }
        stat(U_FDCHECK, 1);
    });
}
fn state(p: Pid) -> (i64, i64, i64) {
    (alloc::live_user().0, w().procs[p].fds.len() as i64, kern::k().live.len() as i64)
}

struct R {
    h: P,
    group: usize,
}
struct Work {
    ops: Vec<(P, Expr)>,
    msgs: Vec<(P, Vec<u64>, Vec<usize>, u16, Vec<u8>)>,
    regs: Vec<R>,
    /// references the model counts
    groups: Vec<(u32, usize, u8)>,
    registries: Vec<(P, bool)>,
    frees: Vec<Box<u32>>,
    labels: Vec<P>,
    fails: bool,
}
impl Work {
    unsafe fn new() -> Work {
        let mut v = 0u8;
        ipmb_version(&mut v, ptr::null_mut(), ptr::null_mut());
        let (a, b, c) = (ipmb::version().major(), ipmb::version().minor(), ipmb::version().patch());
        let mut w = (0u8, 0u8, 0u8);
        ipmb_version(&mut w.0, &mut w.1, &mut w.2);
        if w != (a, b, c) || v != a {
            wrong("ipmb_version reports another version than the library has");
        }
        let s = ipmb_version_pre();
        let (mut q, mut n) = (ptr::null(), 0usize);
        ipmb_rstring_data(&s, &mut q, &mut n);
        if std::slice::from_raw_parts(q as *const u8, n) != ipmb::version_pre().as_bytes() {
            wrong("ipmb_version_pre reports something else than the library");
        }
        ipmb_rstring_drop(s);
        let fails = simk::w().errno_mask != 0;
        Work { ops: vec![], msgs: vec![], regs: vec![], groups: vec![], registries: vec![], frees: vec![], labels: vec![], fails }
    }
    fn fresh(&mut self, r: P, size: usize) {
        self.groups.push((1, size, 0));
        let group = self.groups.len() - 1;
        self.regs.push(R { h: r, group });
    }
    unsafe fn check(&mut self, i: usize) {
        let r = &mut self.regs[i];
        let n = ipmb_memory_region_ref_count(&r.h);
        if n != self.groups[r.group].0 {
            wrong(&format!("a region has reference count {}, {} handles refer to it", n, self.groups[r.group].0));
        }
    }
    unsafe fn step(&mut self, k: u32, a: u32, b: u32, size: usize) {
        let (a, b) = (a as usize, b as usize);
        match k {
            0 => {
                // an expression
                let e = [Expr::T, Expr::F, Expr::Leaf(a as u32 % 4), Expr::Leaf(3)][b % 4].clone();
                self.ops.push((c_op(&e), e));
            }
            1 if self.ops.len() >= 2 => {
                let (l, x) = self.ops.swap_remove(a % self.ops.len());
                let (r, y) = self.ops.swap_remove(b % self.ops.len());
                let (x, y) = (Box::new(x), Box::new(y));
                self.ops.push(if a % 2 == 0 { (ipmb_label_op_and(l, r), Expr::And(x, y)) } else { (ipmb_label_op_or(l, r), Expr::Or(x, y)) });
            }
            2 if !self.ops.is_empty() => {
                let (l, x) = self.ops.swap_remove(a % self.ops.len());
                if b == 0 {
                    ipmb_label_op_drop(l);
                } else {
                    self.ops.push((ipmb_label_op_not(l), Expr::Not(Box::new(x))));
                }
            }
            3 | 4 if !self.ops.is_empty() => {
                // a message copies its selector and its data
                let (op, _) = &self.ops[a % self.ops.len()];
                let data: Vec<u8> = (0..size).map(|i| (i * 7 + a) as u8).collect();
                let s = CSelector { label_op: op, mode: (b % 2) as u32, ttl: size as u32 };
                let m = ipmb_message(s, a as u16 * 999, if size == 0 { ptr::null() } else { data.as_ptr() }, size as u32);
                self.msgs.push((m, vec![], vec![], a as u16 * 999, data));
            }
            5 if !self.msgs.is_empty() => {
                let n = self.msgs.len();
                let m = &mut self.msgs[a % n];
                let fd = libc::eventfd(0, libc::EFD_CLOEXEC);
                if fd >= 0 {
                    ipmb_message_object_append(&mut m.0, fd as u64);
                    m.1.push(fd as u64);
                }
            }
            6 if !self.msgs.is_empty() => {
                let n = self.msgs.len();
                let m = &mut self.msgs[a % n];
                let g = ipmb_message_object_get(&m.0, b);
                let o = ipmb_message_object_retrieve(&mut m.0, b);
                let want = m.1.get(b).copied().unwrap_or(0);
                if g != want || o != want {
                    wrong(&format!("object {} of a message with {}: get returns {}, retrieve {}, appended was {}", b, m.1.len(), g, o, want));
                }
                if o != 0 {
                    m.1.remove(b);
                    ipmb_object_drop(o);
                }
            }
            7 => {
                let mut r = ptr::null_mut();
                if a % 7 == 1 && ipmb_memory_region(usize::MAX - b, &mut r) != -1 {
                    wrong("ipmb_memory_region creates a region that no system can hold");
                }
                let x = ipmb_memory_region(size, &mut r);
                if x == 0 {
                    self.fresh(r, size);
                } else if !self.fails || x != -1 {
                    wrong(&format!("ipmb_memory_region returns {}", x));
                }
            }
            8 if !self.regs.is_empty() => {
                let i = a % self.regs.len();
                let mut c = ptr::null_mut();
                let x = ipmb_memory_region_clone(&self.regs[i].h, &mut c);
                if x == 0 {
                    let g = self.regs[i].group;
                    self.groups[g].0 += 1;
                    self.regs.push(R { h: c, group: g });
                } else if !self.fails || x != -1 {
                    wrong(&format!("ipmb_memory_region_clone returns {}", x));
                }
                self.check(i);
            }
            9 if !self.regs.is_empty() => {
                // contents are shared by the handles of a region
                let i = a % self.regs.len();
                let (g, h) = (self.regs[i].group, &mut self.regs[i].h);
                let (_, size, val) = self.groups[g];
                let mut n = -5isize;
                let off = [0, 0, 1, size / 2, size][b].min(size);
                if a % 5 == 1 {
                    // not within the region
                    let (off, len) = match a % 4 {
                        0 => (off, (size - off) as isize + 1 + b as isize),
                        1 => (off, isize::MAX),
                        2 => (size + 1 + 4096 * b, -1),
                        _ => (usize::MAX - b, 10),
                    };
                    let q = ipmb_memory_region_map(h, off, len, &mut n);
                    if !q.is_null() {
                        wrong(&format!("ipmb_memory_region_map({}, {}) of {} bytes maps {}", off, len, size, n));
                    }
                }
                if a % 3 == 0 {
                    // an empty window may be refused
                    let q = ipmb_memory_region_map(h, off, 0, &mut n);
                    if !q.is_null() && n != 0 {
                        wrong(&format!("an empty window of a region has {} bytes", n));
                    }
                }
                let (off, len) = if b % 2 == 1 && size > 0 { (off, (size - off) as isize) } else { (off, -1) };
                let q = ipmb_memory_region_map(h, off, len, &mut n);
                if q.is_null() {
                    // an empty window may be refused
                    if !self.fails && off < size {
                        wrong("ipmb_memory_region_map fails");
                    }
                    return;
                }
                if n != (size - off) as isize {
                    wrong(&format!("ipmb_memory_region_map({}, {}) of {} bytes maps {}", off, len, size, n));
                }
                let s = std::slice::from_raw_parts_mut(q, n as usize);
                if s.iter().any(|x| *x != val) {
                    wrong("a region's contents differ between its handles");
                }
                if off == 0 {
                    s.fill(val.wrapping_add(1));
                    self.groups[g].2 = val.wrapping_add(1);
                }
                self.check(i);
            }
            10 if !self.regs.is_empty() => {
                let i = a % self.regs.len();
                self.check(i);
                let r = self.regs.swap_remove(i);
                self.groups[r.group].0 -= 1;
                ipmb_memory_region_drop(r.h);
            }
            11 if !self.regs.is_empty() && !self.msgs.is_empty() => {
                let r = self.regs.swap_remove(a % self.regs.len());
                let n = self.msgs.len();
                let m = &mut self.msgs[b % n];
                ipmb_message_memory_region_append(&mut m.0, r.h);
                m.2.push(r.group);
                let g = ipmb_message_memory_region_get(&m.0, m.2.len() - 1);
                if g.is_null() || ipmb_memory_region_ref_count(&g) != self.groups[r.group].0 {
                    wrong("an appended region is not the one that was appended");
                }
            }
            12 if !self.msgs.is_empty() => {
                let n = self.msgs.len();
                let m = &mut self.msgs[a % n];
                let r = ipmb_message_memory_region_retrieve(&mut m.0, b);
                if r.is_null() != (b >= m.2.len()) {
                    wrong("memory_region_retrieve returns nothing for a region that is there, or something for one that is not");
                }
                if !r.is_null() {
                    let g = m.2.remove(b);
                    self.regs.push(R { h: r, group: g });
                    self.check(self.regs.len() - 1);
                }
            }
            13 if !self.msgs.is_empty() => {
                let m = self.msgs.swap_remove(a % self.msgs.len());
                let (mut f, mut q, mut n) = (0, ptr::null(), 0);
                ipmb_message_bytes_data(&m.0, &mut f, &mut q, &mut n);
                if f != m.3 || n as usize != m.4.len() || (n > 0 && std::slice::from_raw_parts(q, n as usize) != &m.4[..]) {
                    wrong("a message has another format or other bytes than it was made with");
                }
                for g in &m.2 {
                    self.groups[*g].0 -= 1;
                }
                // drops what is still attached
                ipmb_message_drop(m.0);
            }
            _ => {
                if self.registries.is_empty() || (a == 0 && b == 0) {
                    self.registries.push((ipmb_memory_registry(), false));
                    return;
                }
                let n = self.registries.len();
                let r = &mut self.registries[a % n];
                match b {
                    0 => ipmb_memory_registry_maintain(&mut r.0),
                    1 => {
                        let mut l = ipmb_label();
                        let s = CString::new(POOL[a % 4]).unwrap();
                        ipmb_label_insert(&mut l, s.as_ptr());
                        self.labels.push(l);
                    }
                    _ => {
                        let tag = CString::new("tag").unwrap();
                        let tag = if a % 2 == 0 { ptr::null() } else { tag.as_ptr() };
                        let mut out = ptr::null_mut();
                        let mut ctx = Box::new(0u32);
                        let x = match b {
                            2 => ipmb_memory_registry_alloc(&mut r.0, size, tag, &mut out),
                            3 => ipmb_memory_registry_alloc_with_free(&mut r.0, size, tag, ptr::null_mut(), None, &mut out),
                            _ => ipmb_memory_registry_alloc_with_free(&mut r.0, size, tag, &mut *ctx as *mut u32 as P, Some(count), &mut out),
                        };
                        if x != 0 {
                            if !self.fails || x != -1 {
                                wrong(&format!("an allocation of the registry returns {}", x));
                            }
                            return;
                        }
                        if b > 3 {
                            self.frees.push(ctx);
                        }
                        let mut n = 0;
                        let q = ipmb_memory_region_map(&mut out, 0, -1, &mut n);
                        if !q.is_null() && (n as usize) < size {
                            wrong(&format!("an allocation of {} bytes has {}", size, n));
                        }
                        ipmb_memory_region_drop(out);
                    }
                }
            }
        }
        let _g = kenter();
        stat(U_FFI, 1);
    }
    unsafe fn end(mut self) {
        for (o, _) in self.ops.drain(..) {
            ipmb_label_op_drop(o);
        }
        for m in self.msgs.drain(..) {
            for g in &m.2 {
                self.groups[*g].0 -= 1;
            }
            ipmb_message_drop(m.0);
        }
        while !self.regs.is_empty() {
            self.check(0);
            let r = self.regs.swap_remove(0);
            self.groups[r.group].0 -= 1;
            ipmb_memory_region_drop(r.h);
        }
        for l in self.labels.drain(..) {
            ipmb_label_drop(l);
        }
        for (r, _) in self.registries.drain(..) {
            ipmb_memory_registry_drop(r);
        }
        for f in &self.frees {
            if **f != 1 {
                wrong(&format!("a free function was called {} times", **f));
            }
        }
    }
}
