//! Harness: endpoints, workloads and the recorded history. Everything here runs in kernel mode; calls into the
//! code under test go through `user`.
use crate::engine::*;
use crate::util::*;
pub use crate::reg::*;
use ipmb::{JoinError, Message, Object, RecvError, Selector, SendError};
use simk::*;
use std::time::Duration;

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000 * MS;
const MAX_EPS: usize = 4096;
const MAX_MSGS: usize = 40_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Acc {
    Any,
    A,
    B,
    /// takes B's uuid, cannot decode it
    Bad,
}
impl Acc {
    pub fn accepts(self, kind: u8) -> bool {
        match self {
            Acc::Any => true,
            Acc::A => kind == 0,
            Acc::B => kind == 1,
            Acc::Bad => false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ApiKind {
    Main,
    V089,
    V090,
    V180,
    V191,
    Ffi,
    /// the Rust interface with the message type of the C interface
    Bytes,
    /// the Node.js binding
    Js,
}
impl ApiKind {
    pub fn version(self) -> (u8, u8, u8) {
        match self {
            ApiKind::Main | ApiKind::Ffi | ApiKind::Bytes | ApiKind::Js => {
                let v = ipmb::version();
                (v.major(), v.minor(), v.patch())
            }
            // same minor, other patch
            ApiKind::V089 => (0, 8, 99),
            ApiKind::V090 => (0, 9, 0),
            // same minor as the current one, other major
            ApiKind::V180 => (1, 8, 0),
            ApiKind::V191 => (1, 9, 1),
        }
    }
    pub fn compatible(self, o: ApiKind) -> bool {
        let (a, b) = (self.version(), o.version());
        if a.0 == 0 && b.0 == 0 {
            a.1 == b.1
        } else {
            a.0 == b.0
        }
    }
}

// ---- the system under test behind one small interface --------------------------------------------------------

pub struct OutMsg {
    pub id: u32,
    pub kind: u8,
    pub body: Vec<u8>,
    pub multi: bool,
    pub expr: Expr,
    pub ttl: Duration,
    pub objects: Vec<Object>,
    pub regions: Vec<Reg>,
}
#[derive(Default)]
pub struct InMsg {
    pub id: u32,
    pub kind: u8,
    pub body: Vec<u8>,
    pub objects: Vec<Object>,
    pub regions: Vec<Reg>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum E {
    Timeout,
    Token,
    Version(u8, u8, u8),
    Denied,
    Decode,
    Io(i32),
    Other(String),
}
pub trait Tx: Send {
    fn send(&self, m: OutMsg) -> Result<(), E>;
    fn dup(&self) -> Box<dyn Tx>;
}
pub trait Rx: Send {
    fn recv(&mut self, t: Option<Duration>) -> Result<InMsg, E>;
}

pub struct JoinSpec {
    pub ident: String,
    pub label: u32,
    pub token: String,
    pub affinity: bool,
    pub timeout: Option<Duration>,
    pub acc: Acc,
}

impl From<JoinError> for E {
    fn from(e: JoinError) -> E {
        match e {
            JoinError::VersionMismatch(v) => E::Version(v.major(), v.minor(), v.patch()),
            JoinError::TokenMismatch => E::Token,
            JoinError::Timeout => E::Timeout,
            JoinError::PermissionDenied => E::Denied,
            JoinError::IoError(e) => E::Io(e.raw_os_error().unwrap_or(0)),
        }
    }
}
impl From<SendError> for E {
    fn from(e: SendError) -> E {
        match e {
            SendError::VersionMismatch(v) => E::Version(v.major(), v.minor(), v.patch()),
            SendError::TokenMismatch => E::Token,
            SendError::Timeout => E::Timeout,
            SendError::PermissionDenied => E::Denied,
            SendError::IoError(e) => E::Io(e.raw_os_error().unwrap_or(0)),
        }
    }
}
impl From<RecvError> for E {
    fn from(e: RecvError) -> E {
        match e {
            RecvError::VersionMismatch(v) => E::Version(v.major(), v.minor(), v.patch()),
            RecvError::TokenMismatch => E::Token,
            RecvError::Timeout => E::Timeout,
            RecvError::PermissionDenied => E::Denied,
            RecvError::IoError(e) => E::Io(e.raw_os_error().unwrap_or(0)),
            RecvError::Decode(_) => E::Decode,
        }
    }
}

struct MainTx(ipmb::EndpointSender<Any>);
impl Tx for MainTx {
    fn send(&self, m: OutMsg) -> Result<(), E> {
        let mut s = if m.multi { Selector::multicast(m.expr.op()) } else { Selector::unicast(m.expr.op()) };
        s.ttl = m.ttl;
        let p = if m.kind == 0 { Any::A(M1 { id: m.id, body: m.body }) } else { Any::B(M2 { id: m.id, body: m.body }) };
        let mut msg = Message::new(s, p);
        msg.objects = m.objects;
        msg.memory_regions = m.regions.into_iter().map(Reg::rust).collect();
        self.0.send(msg).map_err(E::from)
    }
    fn dup(&self) -> Box<dyn Tx> {
        Box::new(MainTx(self.0.clone()))
    }
}
trait Open: ipmb::MessageBox {
    fn open(self) -> (u32, u8, Vec<u8>);
}
impl Open for Any {
    fn open(self) -> (u32, u8, Vec<u8>) {
        match self {
            Any::A(m) => (m.id, 0, m.body),
            Any::B(m) => (m.id, 1, m.body),
        }
    }
}
impl Open for M1 {
    fn open(self) -> (u32, u8, Vec<u8>) {
        (self.id, 0, self.body)
    }
}
impl Open for M2 {
    fn open(self) -> (u32, u8, Vec<u8>) {
        (self.id, 1, self.body)
    }
}
impl Open for M2Bad {
    fn open(self) -> (u32, u8, Vec<u8>) {
        (u32::MAX, 9, vec![])
    }
}
struct MainRx<T>(ipmb::EndpointReceiver<T>);
impl<T: Open> Rx for MainRx<T> {
    fn recv(&mut self, t: Option<Duration>) -> Result<InMsg, E> {
        let m = self.0.recv(t).map_err(E::from)?;
        let (id, kind, body) = m.payload.open();
        Ok(InMsg { id, kind, body, objects: m.objects, regions: m.memory_regions.into_iter().map(Reg::R).collect() })
    }
}

pub type Pair = (Box<dyn Tx>, Box<dyn Rx>);

pub fn join_main(j: JoinSpec) -> Result<Pair, E> {
    let mut o = ipmb::Options::new(j.ident, label_of(j.label), j.token);
    o.controller_affinity = j.affinity;
    macro_rules! go {
        ($t:ty) => {{
            let (a, b) = ipmb::join::<Any, $t>(o, j.timeout)?;
            Ok((Box::new(MainTx(a)) as Box<dyn Tx>, Box::new(MainRx(b)) as Box<dyn Rx>))
        }};
    }
    match j.acc {
        Acc::Any => go!(Any),
        Acc::A => go!(M1),
        Acc::B => go!(M2),
        Acc::Bad => go!(M2Bad),
    }
}

pub fn join_api(api: ApiKind, j: JoinSpec) -> Result<Pair, E> {
    match api {
        ApiKind::Main => join_main(j),
        ApiKind::Bytes => crate::ffi::join_bytes(j),
        ApiKind::Ffi => crate::ffi::join_c(j),
        ApiKind::Js => crate::js::join_js(j),
        _ => crate::alt::join(api, j),
    }
}

// ---- specification of a workload --------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct SendSpec {
    pub multi: bool,
    pub expr: Expr,
    pub ttl_ms: u64,
    pub kind: u8,
    pub len: usize,
    pub nobj: usize,
    pub nreg: usize,
    pub reg_size: usize,
}
impl SendSpec {
    /// may be refused or dropped because it is too large to be carried
    pub fn over(&self) -> bool {
        self.len > 120_000 || self.nobj + self.nreg > 253 || self.expr.depth() > 500
    }
    pub fn simple(multi: bool, expr: Expr) -> Self {
        SendSpec { multi, expr, ttl_ms: 0, kind: 0, len: 8, nobj: 0, nreg: 0, reg_size: 0 }
    }
}
#[derive(Clone, Debug)]
pub enum Op {
    Send(SendSpec),
    Sleep(u64),
    /// wait for the harness event counter
    WaitSeq(u64),
    /// wait until `Hs::gate` reaches the value
    Gate(u32),
}

#[derive(Clone, Copy, Debug)]
pub struct RxCfg {
    /// 0: recv(None); otherwise the timeout in ms
    pub timeout_ms: u64,
    /// percentage of receptions followed by a pause
    pub slow_pct: u32,
    pub slow_ms: u64,
    /// drop the receiver after that many receptions (0 = never)
    pub drop_after: u32,
    /// drop the receiver at `Hs::gate` >= this (0 = never); needs a timeout
    pub drop_gate: u32,
    /// do not receive until gate >= this
    pub hold_gate: u32,
    /// keep the attachments of received messages
    pub keep: bool,
}
impl Default for RxCfg {
    fn default() -> Self {
        RxCfg { timeout_ms: 0, slow_pct: 0, slow_ms: 0, drop_after: 0, drop_gate: 0, hold_gate: 0, keep: false }
    }
}

#[derive(Clone)]
pub struct EpSpec {
    pub proc: Pid,
    pub bus: usize,
    pub label: u32,
    pub token: u8,
    pub affinity: bool,
    pub acc: Acc,
    pub api: ApiKind,
    pub join_timeout_ms: u64,
    pub start_ms: u64,
    pub start_gate: u32,
    pub rx: RxCfg,
    pub scripts: Vec<Vec<Op>>,
    /// keep only this half: 0 both, 1 sender, 2 receiver
    pub half: u8,
}

// ---- history ----------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, Default)]
pub struct Stamp {
    pub seq: u64,
    pub t: u64,
}
pub fn stamp() -> Stamp {
    let wd = w();
    wd.seq += 1;
    Stamp { seq: wd.seq, t: wd.now }
}

pub struct Ep {
    pub id: usize,
    pub spec: EpSpec,
    pub join_inv: Option<Stamp>,
    pub join_ret: Option<Stamp>,
    pub join_err: Option<E>,
    pub tx: Option<Box<dyn Tx>>,
    pub rx_drop_inv: Option<Stamp>,
    pub rx_drop_ret: Option<Stamp>,
    pub rx_error: Option<(Stamp, E)>,
    pub rx_in: Option<Stamp>,
    pub ntx: u32,
    pub tx_open: u32,
    pub tx_thr: u32,
    pub nrecv: u32,
    pub ntimeout: u32,
    pub idle: u32,
    pub ndecode: u32,
    /// messages that the harness did not record
    pub nforeign: u32,
    pub rx_alive: bool,
    pub stop_rx: bool,
    pub stop_tx: bool,
    pub held: Vec<(u32, Vec<Object>, Vec<Reg>)>,
}

pub struct Msg {
    pub id: u32,
    pub ep: usize,
    pub tx: u32,
    pub idx: u32,
    pub spec: SendSpec,
    pub inv: Stamp,
    pub ret: Option<Stamp>,
    pub err: Option<E>,
    pub objs: Vec<usize>,
    pub regs: Vec<(usize, usize)>,
    pub probe: bool,
}
pub struct Rcv {
    pub ep: usize,
    pub msg: u32,
    pub at: Stamp,
}

#[derive(Default)]
pub struct Hs {
    pub eps: Vec<Ep>,
    pub msgs: Vec<Msg>,
    pub rcvs: Vec<Rcv>,
    pub gate: u32,
    pub idents: Vec<String>,
    pub tokens: Vec<String>,
    /// from here on nothing fails any more and the bus has had time to recover
    pub settled: Option<Stamp>,
    pub expect_refusal: bool,
    pub slack: u64,
    pub next_tx: u32,
    pub note: String,
    pub rx_errors_ok: bool,
    /// garbage from a foreign peer may arrive as a message
    pub foreign: bool,
    /// undecodable messages are sent on purpose
    pub decode_ok: bool,
    pub keep_clones: u32,
    /// region handles the workload owns: (kernel object, process) -> number
    pub handles: std::collections::BTreeMap<(usize, Pid), i32>,
    pub send_errors_ok: bool,
    /// every endpoint uses the message type of the C interface, some the C interface
    pub c_api: bool,
    /// what the regions of a message must contain
    pub contents: std::collections::BTreeMap<(u32, usize), Vec<u8>>,
}
pub static mut HS: *mut Hs = std::ptr::null_mut();
pub fn h() -> &'static mut Hs {
    unsafe { &mut *HS }
}
pub static mut C_API: bool = false;
/// every endpoint uses the message type of the C interface, some the Node.js binding
pub static mut JS_API: bool = false;
/// Runs a workload with the C interface.
pub fn with_c(f: fn()) {
    unsafe { C_API = true };
    f();
}
pub fn init_h() {
    unsafe {
        HS = Box::into_raw(Box::new(Hs::default()));
    }
    // references into these are held while other threads add to them: they must not move
    h().eps.reserve_exact(MAX_EPS);
    h().msgs.reserve_exact(MAX_MSGS);
    h().c_api = unsafe { C_API };
    h().idents = vec!["bus.one".into(), "bus.one.x".into(), "bus.on".into()];
    h().tokens = vec!["secret".into(), "wrong".into(), "".into(), "secret2".into()];
}
pub fn note(s: String) {
    h().note.push_str(&s);
    h().note.push_str("; ");
    let n = h().note.clone();
    w().shm.set_note(&n);
}
pub fn set_gate(g: u32) {
    h().gate = g;
    on_event(&format!("gate {}", g));
}

pub fn add_ep(spec: EpSpec) -> usize {
    let p = spec.proc;
    let id = add_ep_quiet(spec);
    if w().procs[p].alive {
        spawn(p, &format!("ep{}", id), move || ep_main(id));
    }
    id
}

/// An endpoint that somebody else joins.
pub fn add_ep_quiet(mut spec: EpSpec) -> usize {
    if unsafe { JS_API } {
        if spec.api == ApiKind::Main {
            spec.api = pick(&[ApiKind::Js, ApiKind::Bytes, ApiKind::Js]);
        }
        // join blocks the one thread of the process, whose next endpoint could be the host it waits for
        spec.affinity |= spec.api == ApiKind::Js;
        spec.acc = Acc::Any;
    }
    if h().c_api {
        // C and Rust programs with the one message type of the C interface
        if spec.api == ApiKind::Main {
            spec.api = pick(&[ApiKind::Ffi, ApiKind::Bytes, ApiKind::Ffi]);
        }
        spec.acc = Acc::Any;
    }
    let id = h().eps.len();
    assert!(id < MAX_EPS, "harness: too many endpoints");
    h().eps.push(Ep {
        id,
        spec: spec.clone(),
        join_inv: None,
        join_ret: None,
        join_err: None,
        tx: None,
        rx_drop_inv: None,
        rx_drop_ret: None,
        rx_error: None,
        rx_in: None,
        ntx: 0,
        tx_open: 0,
        tx_thr: 0,
        nrecv: 0,
        ntimeout: 0,
        idle: 0,
        ndecode: 0,
        nforeign: 0,
        rx_alive: false,
        stop_rx: false,
        stop_tx: false,
        held: vec![],
    });
    id
}

/// Drops the halves of an endpoint; called by any thread of its process.
pub fn drop_tx(id: usize) {
    ep(id).stop_tx = true;
    on_event("drop tx");
    wait_until(NODL, || ep(id).tx_open == 0);
    let t = ep(id).tx.take();
    user(move || drop(t));
    on_event(&format!("ep{} sender dropped", id));
}
pub fn drop_rx(id: usize) {
    ep(id).stop_rx = true;
    on_event("drop rx");
    if ep(id).spec.rx.timeout_ms > 0 {
        wait_until(NODL, || !ep(id).rx_alive);
    }
}

pub fn ep(id: usize) -> &'static mut Ep {
    &mut h().eps[id]
}

fn ep_main(id: usize) {
    let s = ep(id).spec.clone();
    if s.start_gate > 0 {
        wait_until(NODL, || h().gate >= s.start_gate);
    }
    if s.start_ms > 0 {
        sleep_ms(s.start_ms);
    }
    do_join(id);
    if ep(id).join_err.is_some() {
        return;
    }
    for sc in s.scripts.iter() {
        spawn_tx(id, sc.clone(), false);
    }
}

/// Joins and starts the receiving thread.
pub fn do_join(id: usize) {
    let s = ep(id).spec.clone();
    let js = JoinSpec {
        ident: h().idents[s.bus].clone(),
        label: s.label,
        token: h().tokens[s.token as usize].clone(),
        affinity: s.affinity,
        timeout: if s.join_timeout_ms == 0 { None } else { Some(Duration::from_millis(s.join_timeout_ms)) },
        acc: s.acc,
    };
    ep(id).join_inv = Some(stamp());
    on_event(&format!("ep{} join", id));
    let r = user(|| join_api(s.api, js));
    stat(U_JOINS, 1);
    match r {
        Ok((tx, rx)) => {
            let at = stamp();
            if s.half == 2 {
                ep(id).rx_alive = true;
                ep(id).join_ret = Some(at);
                user(|| drop(tx));
            } else {
                ep(id).tx = Some(tx);
            }
            if s.half == 1 {
                ep(id).join_ret = Some(at);
                ep(id).rx_drop_inv = Some(stamp());
                user(|| drop(rx));
                ep(id).rx_drop_ret = Some(stamp());
            } else {
                ep(id).rx_alive = true;
                ep(id).join_ret = Some(at);
                spawn(s.proc, &format!("ep{}rx", id), move || rx_main(id, rx));
            }
            on_event(&format!("ep{} joined", id));
        }
        Err(e) => {
            stat(U_JOINERR, 1);
            ep(id).join_ret = Some(stamp());
            on_event(&format!("ep{} join failed: {:?}", id, e));
            ep(id).join_err = Some(e);
        }
    }
}

pub fn spawn_tx(id: usize, ops: Vec<Op>, probe: bool) -> u32 {
    let txid = h().next_tx;
    h().next_tx += 1;
    ep(id).tx_open += 1;
    let p = ep(id).spec.proc;
    if !w().procs[p].alive {
        ep(id).tx_open -= 1;
        return txid;
    }
    spawn(p, &format!("ep{}tx{}", id, txid), move || {
        let tx = {
            let t = ep(id).tx.as_ref();
            match t {
                Some(t) => user(|| t.dup()),
                None => {
                    ep(id).tx_open -= 1;
                    return;
                }
            }
        };
        for (i, op) in ops.into_iter().enumerate() {
            if ep(id).stop_tx {
                break;
            }
            match op {
                Op::Send(s) => do_send(id, txid, i as u32, &*tx, s, probe),
                Op::Sleep(ms) => sleep_ms(ms),
                Op::WaitSeq(n) => {
                    wait_until(NODL, || w().seq >= n);
                }
                Op::Gate(n) => {
                    wait_until(NODL, || h().gate >= n);
                }
            }
        }
        user(|| drop(tx));
        ep(id).tx_open -= 1;
        on_event("tx done");
    });
    txid
}

pub fn region_file(p: Pid, r: &mut Reg) -> usize {
    r.file(p)
}
pub fn track(file: usize, p: Pid, n: i32) {
    *h().handles.entry((file, p)).or_default() += n;
}
/// Handles of live processes that the workload owns.
pub fn tracked(file: usize) -> i32 {
    h().handles.range((file, 0)..(file + 1, 0)).filter(|x| w().procs[x.0 .1].alive).map(|x| *x.1).sum()
}
pub fn drop_region(p: Pid, mut r: Reg) {
    track(region_file(p, &mut r), p, -1);
    user(move || drop(r));
}

pub fn fill(id: u32, i: usize, n: usize) -> Vec<u8> {
    body_of(id.wrapping_mul(31).wrapping_add(i as u32 + 7), n)
}

pub fn new_msg(id: usize, txid: u32, idx: u32, spec: SendSpec, probe: bool) -> u32 {
    let mid = h().msgs.len() as u32;
    assert!(h().msgs.len() < MAX_MSGS, "harness: too many messages");
    h().msgs.push(Msg { id: mid, ep: id, tx: txid, idx, spec, inv: Stamp::default(), ret: None, err: None, objs: vec![], regs: vec![], probe });
    mid
}

pub fn do_send(id: usize, txid: u32, idx: u32, tx: &dyn Tx, mut s: SendSpec, probe: bool) {
    let p = ep(id).spec.proc;
    let js = ep(id).spec.api == ApiKind::Js;
    if js {
        s.nobj = 0;
    }
    let mid = new_msg(id, txid, idx, s.clone(), probe);
    // attachments are created by the sending thread
    let objects: Vec<Object> = user(|| {
        (0..s.nobj)
            .filter_map(|_| unsafe {
                let fd = libc::eventfd(0, libc::EFD_CLOEXEC);
                if fd < 0 {
                    None
                } else {
                    Some(Object::from_raw(fd))
                }
            })
            .collect()
    });
    let mut regions: Vec<Reg> = vec![];
    for _ in 0..s.nreg {
        if js {
            regions.push(Reg::B(fill(mid, regions.len(), s.reg_size)));
            continue;
        }
        let Some(mut r) = user(|| Reg::new(ep(id).spec.api == ApiKind::Ffi, s.reg_size)) else { continue };
        let pat = fill(mid, regions.len(), s.reg_size);
        if s.reg_size > 0 && !user(|| r.map().map(|b| b.copy_from_slice(&pat)).is_some()) {
            user(|| drop(r));
            continue;
        }
        regions.push(r);
    }
    stat(U_OBJECTS, objects.len() as u32);
    stat(U_REGIONS, regions.len() as u32);
    if h().keep_clones > 0 {
        // the sender keeps handles to some of the regions it sends
        for r in regions.iter() {
            if chance(h().keep_clones) {
                if let Some(mut c) = user(|| r.dup()) {
                    track(region_file(p, &mut c), p, 1);
                    ep(id).held.push((mid, vec![], vec![c]));
                }
            }
        }
    }
    send_with(id, txid, tx, s, mid, objects, regions);
}

pub fn send_with(id: usize, txid: u32, tx: &dyn Tx, s: SendSpec, mid: u32, objects: Vec<Object>, mut regions: Vec<Reg>) {
    let p = ep(id).spec.proc;
    let m = &mut h().msgs[mid as usize];
    m.objs = objects.iter().map(|o| file_of(p, o.as_raw()).unwrap_or(0)).collect();
    m.regs = regions.iter_mut().map(|r| (r.file(p), s.reg_size)).collect();
    m.inv = stamp();
    on_event(&format!("ep{} tx{} send m{} {}{} ttl {}", id, txid, mid, if s.multi { "multi " } else { "uni " }, show_expr(&s.expr), s.ttl_ms));
    let out = OutMsg {
        id: mid,
        kind: s.kind,
        body: body_of(mid, s.len),
        multi: s.multi,
        expr: s.expr.clone(),
        ttl: Duration::from_millis(s.ttl_ms),
        objects,
        regions,
    };
    let r = user(|| tx.send(out));
    stat(U_SENDS, 1);
    let m = &mut h().msgs[mid as usize];
    m.ret = Some(stamp());
    if let Err(e) = r {
        on_event(&format!("m{} send failed {:?}", mid, e));
        m.err = Some(e.clone());
        let inv = m.inv;
        if s.over() {
            stat(U_REFUSED, 1);
        }
        if !h().send_errors_ok && !(s.over() && matches!(e, E::Io(_))) && !(errors_allowed(inv) && matches!(e, E::Io(_) | E::Denied)) {
            violation("call-error", &format!("send of m{} by ep{} failed: {:?}", mid, id, e));
        }
    } else {
        on_event(&format!("m{} sent", mid));
    }
}

/// system calls were failing when the call began
fn errors_allowed(inv: Stamp) -> bool {
    w().errno_mask != 0 && !h().settled.is_some_and(|s| inv.seq > s.seq)
}
pub fn show_expr(e: &Expr) -> String {
    match e {
        Expr::T => "T".into(),
        Expr::F => "F".into(),
        Expr::Leaf(i) => format!("#{}", i),
        Expr::Not(a) => format!("!{}", show_expr(a)),
        Expr::And(a, b) => format!("({}&{})", show_expr(a), show_expr(b)),
        Expr::Or(a, b) => format!("({}|{})", show_expr(a), show_expr(b)),
    }
}

fn rx_main(id: usize, mut rx: Box<dyn Rx>) {
    let c = ep(id).spec.rx;
    let p = ep(id).spec.proc;
    if c.hold_gate > 0 {
        wait_until(NODL, || h().gate >= c.hold_gate || ep(id).stop_rx);
    }
    loop {
        if ep(id).stop_rx {
            break;
        }
        if c.drop_after > 0 && ep(id).nrecv >= c.drop_after {
            break;
        }
        if c.drop_gate > 0 && h().gate >= c.drop_gate {
            break;
        }
        // short timeouts get longer while nothing happens
        let t_ms = (c.timeout_ms * (1 + ep(id).idle as u64 / 8)).min(c.timeout_ms.max(2000));
        let t = if c.timeout_ms == 0 { None } else { Some(Duration::from_millis(t_ms)) };
        let inv = stamp();
        ep(id).rx_in = Some(inv);
        let r = user(|| rx.recv(t));
        ep(id).rx_in = None;
        let now = stamp();
        match r {
            Ok(m) => {
                stat(U_RECVS, 1);
                ep(id).nrecv += 1;
                ep(id).idle = 0;
                on_event(&format!("ep{} received m{}", id, m.id));
                got(id, p, m, now, c.keep);
                if c.slow_pct > 0 && chance(c.slow_pct) {
                    sleep_ms(1 + d(c.slow_ms as u32) as u64);
                }
            }
            Err(E::Timeout) => {
                stat(U_TIMEOUTS, 1);
                ep(id).ntimeout += 1;
                ep(id).idle += 1;
                let el = now.t - inv.t;
                if c.timeout_ms == 0 {
                    violation("timeout-none", &format!("recv(None) of ep{} reported a timeout", id));
                } else if el + MS <= t_ms * MS {
                    violation("timeout-early", &format!("recv({} ms) of ep{} timed out after {} us", t_ms, id, el / 1000));
                }
                on_event(&format!("ep{} recv timeout", id));
            }
            Err(E::Decode) => {
                stat(U_DECODE, 1);
                ep(id).ndecode += 1;
                on_event(&format!("ep{} recv decode error", id));
                if ep(id).spec.acc != Acc::Bad && !h().foreign && !h().decode_ok {
                    violation("type", &format!("ep{} got a decode error although no undecodable message was sent to it", id));
                }
            }
            Err(e) => {
                on_event(&format!("ep{} recv error {:?}", id, e));
                if errors_allowed(inv) && matches!(e, E::Io(_) | E::Denied) {
                    sleep_ms(5);
                    continue;
                }
                ep(id).rx_error = Some((now, e.clone()));
                if !h().rx_errors_ok {
                    violation("call-error", &format!("recv of ep{} failed: {:?}", id, e));
                }
                break;
            }
        }
    }
    ep(id).rx_drop_inv = Some(stamp());
    on_event(&format!("ep{} drops its receiver", id));
    stat(U_RXDROP, 1);
    user(|| drop(rx));
    ep(id).rx_drop_ret = Some(stamp());
    ep(id).rx_alive = false;
    on_event(&format!("ep{} receiver dropped", id));
}

/// A message was returned by receive.
pub fn got(id: usize, p: Pid, mut m: InMsg, at: Stamp, keep: bool) {
    let e = &ep(id).spec;
    if h().foreign && !h().msgs.get(m.id as usize).is_some_and(|s| s.spec.kind == m.kind && m.body == body_of(m.id, s.spec.len)) {
        stat(U_FOREIGN, 1);
        ep(id).nforeign += 1;
        // what it claims to be large is that large
        user(move || {
            for r in m.regions.iter_mut() {
                if let Some(b) = r.map() {
                    if let (Some(x), Some(y)) = (b.first(), b.last()) {
                        unsafe { (std::ptr::read_volatile(x), std::ptr::read_volatile(y)) };
                    }
                }
            }
            drop(m)
        });
        return;
    }
    if e.acc == Acc::Bad && m.id == u32::MAX {
        user(move || drop(m));
        return;
    }
    if m.id as usize >= h().msgs.len() {
        violation("payload", &format!("ep{} received a message that was never sent (id {})", id, m.id));
    } else {
        let s = &h().msgs[m.id as usize];
        let from = &ep(s.ep).spec;
        h().rcvs.push(Rcv { ep: id, msg: m.id, at });
        if s.inv.seq == 0 {
            violation("payload", &format!("ep{} received m{} before it was sent", id, m.id));
        }
        if m.body != body_of(m.id, s.spec.len) {
            let want = body_of(m.id, s.spec.len);
            let at = m.body.iter().zip(want.iter()).position(|(a, b)| a != b);
            violation("payload", &format!("ep{} received m{} with a changed payload ({} bytes, sent {}; first difference {:?})", id, m.id, m.body.len(), want.len(), at));
        }
        if m.kind != s.spec.kind || !e.acc.accepts(m.kind) {
            violation("type", &format!("ep{} ({:?}) received m{} of kind {} (sent as {})", id, e.acc, m.id, m.kind, s.spec.kind));
        }
        if !s.spec.expr.eval(e.label) {
            violation("label", &format!("ep{} with label {:?} received m{} selected by {}", id, label_strings(e.label), m.id, show_expr(&s.spec.expr)));
        }
        if from.token != e.token {
            violation("token-mix", &format!("ep{} with token {:?} received m{} sent by ep{} with token {:?}", id, h().tokens[e.token as usize], m.id, s.ep, h().tokens[from.token as usize]));
        }
        if !from.api.compatible(e.api) {
            violation("version-mix", &format!("ep{} ({:?}) received m{} sent by ep{} ({:?})", id, e.api, m.id, s.ep, from.api));
        }
        if from.bus != e.bus {
            violation("bus-mix", &format!("ep{} on bus {} received m{} sent on bus {}", id, e.bus, m.id, from.bus));
        }
        // attachments: the same kernel objects in the same order
        let objs: Vec<usize> = m.objects.iter().map(|o| file_of(p, o.as_raw()).unwrap_or(0)).collect();
        if objs != s.objs {
            violation("attach", &format!("ep{} received m{} with objects {:?}, sent {:?}", id, m.id, objs, s.objs));
        }
        let regs: Vec<(usize, usize)> = m.regions.iter_mut().map(|r| (r.file(p), r.size())).collect();
        // JavaScript sends buffers: their kernel objects have any size that is sufficient and nobody knows them
        let same = if from.api == ApiKind::Js { regs.len() == s.regs.len() && regs.iter().zip(&s.regs).all(|(a, b)| a.1 >= b.1) } else { regs.len() == s.regs.len() && regs.iter().zip(&s.regs).all(|(a, b)| a == b || a.0 == crate::js::UNKNOWN && a.1 == b.1) };
        if !same {
            violation("attach", &format!("ep{} received m{} with regions (object, size) {:?}, sent {:?}", id, m.id, regs, s.regs));
        }
        for (i, r) in m.regions.iter_mut().enumerate() {
            let n = r.size();
            if n > 0 {
                let want = fill(m.id, i, n.min(s.spec.reg_size));
                let same = user(|| r.map().map(|b| b[..want.len()] == want[..]).unwrap_or(w().errno_mask != 0));
                if !same {
                    violation("attach", &format!("ep{} received m{} whose region {} has other contents than the sender wrote", id, m.id, i));
                }
            }
        }
    }
    let InMsg { objects, mut regions, .. } = m;
    if keep {
        for r in regions.iter_mut() {
            track(region_file(p, r), p, 1);
        }
        // some more handles to the same regions
        if h().keep_clones > 0 && !regions.is_empty() && chance(h().keep_clones / 2) {
            for _ in 0..if d(40) == 1 { 20 + d(60) } else { 1 + d(4) } {
                let i = d(regions.len() as u32) as usize;
                if let Some(mut r) = user(|| regions[i].dup()) {
                    track(region_file(p, &mut r), p, 1);
                    regions.push(r);
                }
            }
        }
        ep(id).held.push((m.id, objects, regions));
    } else {
        user(move || {
            drop(objects);
            drop(regions);
        });
    }
}

pub fn drop_held(id: usize) {
    let v = std::mem::take(&mut ep(id).held);
    let p = ep(id).spec.proc;
    for (_, objs, regs) in v {
        user(move || drop(objs));
        for r in regs {
            drop_region(p, r);
        }
    }
}

pub fn spec(proc: Pid, label: u32) -> EpSpec {
    EpSpec {
        proc,
        bus: 0,
        label,
        token: 0,
        affinity: true,
        acc: Acc::Any,
        api: ApiKind::Main,
        join_timeout_ms: 0,
        start_ms: 0,
        start_gate: 0,
        rx: RxCfg::default(),
        scripts: vec![],
        half: 0,
    }
}

// ---- the state of the simulated world as the harness sees it -------------------------------------------------------

/// Name of a bus in the abstract namespace.
fn is_bus(name: &[u8], bus: usize) -> bool {
    let end = name.iter().rposition(|b| *b != 0).map(|i| i + 1).unwrap_or(0);
    end > 0 && name[0] == 0 && &name[1..end] == h().idents[bus].as_bytes()
}
/// Process whose listening socket currently owns the identifier.
pub fn controller_of(bus: usize) -> Option<Pid> {
    let (_, id) = w().kern.names.iter().find(|x| is_bus(x.0, bus))?;
    if !w().kern.files.get(*id)?.is_some() {
        return None;
    }
    Some(kern::f(*id).creator)
}
pub fn proc_dead_at(p: Pid) -> Option<u64> {
    w().deaths.iter().find(|d| d.0 == p).map(|d| d.1)
}
/// Sequence numbers of deaths of processes that owned the identifier of the bus.
pub fn controller_deaths(bus: usize) -> Vec<u64> {
    w().deaths.iter().filter(|d| d.2.iter().any(|n| is_bus(n, bus))).map(|d| d.1).collect()
}
/// Every bind of the bus's name: (process, thread, event number)
pub fn controllers_of(bus: usize) -> Vec<(Pid, Tid, u64)> {
    w().binds.iter().filter(|b| is_bus(&b.0, bus)).map(|b| (b.1, b.2, b.3)).collect()
}
/// The endpoint a thread works for.
pub fn ep_of_thread(t: Tid) -> Option<usize> {
    let n = &w().threads[t].name;
    let n = n.strip_prefix("ep")?;
    let e = n.find(|c: char| !c.is_ascii_digit()).unwrap_or(n.len());
    n[..e].parse().ok()
}
/// All descriptors of the process and of the children it forked before it died are gone.
pub fn reaped(p: Pid) -> Option<u64> {
    let mut m = w().procs[p].reaped_seq;
    if m == 0 {
        return None;
    }
    for c in w().procs.iter() {
        if c.child_of == Some(p) {
            if c.reaped_seq == 0 {
                return None;
            }
            m = m.max(c.reaped_seq);
        }
    }
    Some(m)
}

impl Ep {
    pub fn joined(&self) -> bool {
        self.join_ret.is_some() && self.join_err.is_none()
    }
    /// the first moment at which this endpoint can no longer be expected to receive
    pub fn lost_for(&self, sent: u64) -> Option<u64> {
        let mut v = vec![];
        if let Some(k) = proc_dead_at(self.spec.proc) {
            v.push(k);
        }
        if let Some(s) = self.rx_drop_inv {
            v.push(s.seq);
        }
        if let Some((s, _)) = &self.rx_error {
            v.push(s.seq);
        }
        if self.join_err.is_some() || (self.slow_join() && !self.join_ret.map(|r| r.seq < sent).unwrap_or(false)) {
            v.push(self.join_inv.map(|s| s.seq).unwrap_or(0));
        }
        v.into_iter().min()
    }
    /// the moment from which no message can be routed to it any more
    pub fn gone(&self) -> Option<u64> {
        let mut v = vec![];
        if let Some(s) = self.rx_drop_ret {
            v.push(s.seq);
        }
        if self.join_err.is_some() {
            v.push(self.join_ret.unwrap().seq);
        }
        if let Some(r) = reaped(self.spec.proc) {
            v.push(r);
        }
        v.into_iter().min()
    }
    /// the handshake may have been abandoned and repeated
    pub fn slow_join(&self) -> bool {
        match (self.join_inv, self.join_ret) {
            (Some(a), Some(b)) => b.t - a.t > 1900 * MS,
            (Some(a), None) => w().now - a.t > 1900 * MS,
            _ => false,
        }
    }
    pub fn alive(&self) -> bool {
        w().procs[self.spec.proc].alive
    }
    /// joined, process alive, receiving
    pub fn survivor(&self) -> bool {
        self.joined() && self.alive() && self.rx_alive && self.rx_drop_inv.is_none()
    }
}

/// Somebody hosts the bus or will: an endpoint without controller affinity waits for that.
pub fn host_possible(bus: usize) -> bool {
    if controller_of(bus).is_some_and(|p| w().procs[p].alive) {
        return true;
    }
    h().eps.iter().any(|e| e.spec.bus == bus && e.spec.affinity && e.alive() && e.join_inv.is_some() && (e.join_ret.is_none() || (e.join_err.is_none() && (e.rx_alive || e.tx_open > 0))))
}
fn excused(e: &Ep) -> bool {
    !e.spec.affinity && e.join_inv.is_some() && !host_possible(e.spec.bus)
}

/// Waits until every sending script of a live endpoint is finished; reports calls that hang.
pub fn wait_scripts(max_s: u64) {
    let ok = wait_until(w().now + max_s * SEC, || h().eps.iter().all(|e| !e.alive() || (e.join_ret.is_some() && e.tx_open == 0) || (e.join_inv.is_none() && e.spec.start_gate > h().gate) || excused(e)));
    if !ok {
        hang_report(max_s);
    }
}
pub fn hang_report(max_s: u64) {
    let before = w().shm.stats[U_OTHER];
    for e in h().eps.iter() {
        if !e.alive() || excused(e) {
            continue;
        }
        if e.join_inv.is_some() && e.join_ret.is_none() {
            violation("call-hang", &format!("join of ep{} has not returned within {} s of simulated time", e.id, max_s));
        }
        if e.tx_open > 0 {
            let m = h().msgs.iter().find(|m| m.ep == e.id && m.inv.seq > 0 && m.ret.is_none());
            match m {
                Some(m) => violation("call-hang", &format!("send of m{} by ep{} has not returned within {} s of simulated time", m.id, e.id, max_s)),
                None => violation("call-hang", &format!("a sending thread of ep{} makes no progress", e.id)),
            }
        }
        if e.rx_drop_inv.is_some() && e.rx_drop_ret.is_none() {
            violation("call-hang", &format!("dropping the receiver of ep{} has not returned within {} s", e.id, max_s));
        }
    }
    assert!(w().shm.stats[U_OTHER] > before, "harness: a run waits for something that no call explains");
    // hangs that belong to other properties make the rest of the run meaningless
    stat(U_ABORTED, 1);
    finish_ok();
}

pub fn faults_off() {
    w().faults_on = false;
}
/// Threads that a fault holds up go on before the run is judged.
pub fn quiesce() {
    if w().faults_on {
        faults_off();
        sleep_ms(4_000);
    }
}
pub fn settle(ms: u64) {
    faults_off();
    for p in w().procs.iter_mut() {
        p.kill_after = None;
        p.stall_after = None;
    }
    sleep_ms(ms);
    h().settled = Some(stamp());
}

/// Every survivor multicasts to everybody.
pub fn probe(n: usize) {
    for _ in 0..n {
        let ids: Vec<usize> = h().eps.iter().filter(|e| e.joined() && e.alive() && e.tx.is_some()).map(|e| e.id).collect();
        for i in ids {
            stat(U_PROBES, 1);
            spawn_tx(i, vec![Op::Send(SendSpec::simple(true, Expr::T))], true);
        }
    }
}
