//! The Node.js binding: endpoints driven from a JavaScript thread, and workloads for its promises.
use crate::engine::*;
use crate::ffi::{dec, enc};
use crate::h::*;
use crate::napi::*;
use crate::reg::Reg;
use crate::util::*;
use crate::{oracle, scn, scn2};
use simk::*;
use std::{collections::VecDeque, sync::Arc, time::Duration};

fn error(s: &str) -> E {
    let l = s.to_lowercase();
    for (k, e) in [("timeout", E::Timeout), ("token", E::Token), ("version", E::Version(0, 0, 0)), ("permission", E::Denied), ("decode", E::Decode), ("uuid", E::Decode), ("io", E::Io(0))] {
        if l.contains(k) {
            return e;
        }
    }
    E::Other(s.into())
}

// ---- calls, on the JavaScript thread --------------------------------------------------------------------------------

fn class(e: &mut Eng, name: &str) -> Val {
    let ex = e.exports;
    let c = e.get(ex, name);
    if c == 0 {
        broken(&format!("the binding does not export {}", name));
    }
    c
}
fn label_op(e: &mut Eng, x: &Expr) -> Val {
    let c = class(e, "LabelOp");
    let leaf = |e: &mut Eng, v: V| {
        let a = e.new(v);
        e.construct(c, &[a]).unwrap_or_else(|m| {
            broken(&format!("new LabelOp throws {}", m));
            0
        })
    };
    let two = |e: &mut Eng, a: &Expr, b: &Expr, f: &str| {
        let (x, y) = (label_op(e, a), label_op(e, b));
        if e.method(x, f, &[y]).is_err() {
            broken("a label operation throws");
        }
        e.gc(y);
        x
    };
    match x {
        Expr::T => leaf(e, V::Bool(true)),
        Expr::F => leaf(e, V::Bool(false)),
        Expr::Leaf(i) => leaf(e, V::Str(POOL[*i as usize].into())),
        Expr::Not(a) => {
            let x = label_op(e, a);
            if e.method(x, "not", &[]).is_err() {
                broken("a label operation throws");
            }
            x
        }
        Expr::And(a, b) => two(e, a, b, "and"),
        Expr::Or(a, b) => two(e, a, b, "or"),
    }
}
pub fn call_join(e: &mut Eng, j: &JoinSpec) -> Result<(Val, Val), String> {
    let labels: Vec<Val> = label_strings(j.label).iter().map(|s| e.str(s)).collect();
    let (a, b, c, d) = (e.str(&j.ident), e.arr(labels), e.str(&j.token), e.new(V::Bool(j.affinity)));
    let o = e.obj(&[("identifier", a), ("label", b), ("token", c), ("controllerAffinity", d)]);
    let t = match j.timeout {
        None => e.undef(),
        Some(t) => e.num(t.as_millis() as f64),
    };
    let (ex, u) = (e.exports, e.undef());
    let f = e.get(ex, "join");
    let r = e.call(f, u, &[o, t])?;
    Ok((e.get(r, "sender"), e.get(r, "receiver")))
}
pub fn call_send(e: &mut Eng, sender: Val, m: &OutMsg, bufs: Vec<Vec<u8>>) -> Result<(), String> {
    let l = label_op(e, &m.expr);
    let (mode, ttl) = (e.num(m.multi as u32 as f64), e.num(m.ttl.as_millis() as f64));
    let s = e.obj(&[("labelOp", l), ("mode", mode), ("ttl", ttl)]);
    let (format, data) = enc(m.id, m.kind, m.body.clone());
    let (f, b) = (e.num(format as f64), e.buf(data));
    let bm = e.obj(&[("format", f), ("data", b)]);
    let bv: Vec<Val> = bufs.into_iter().map(|v| e.buf(v)).collect();
    let arr = e.arr(bv.clone());
    let r = e.method(sender, "send", &[s, bm, arr]).map(|_| ());
    for v in bv.into_iter().chain([b]) {
        if e.referenced(v) {
            broken("send keeps a reference to a buffer");
        }
        e.gc(v);
    }
    e.gc(l);
    r
}
/// Returns the number of the promise.
pub fn call_recv(e: &mut Eng, receiver: Val, owner: usize, t: Option<u64>) -> Result<usize, String> {
    let arg = match t {
        None => e.undef(),
        Some(t) => e.num(t as f64),
    };
    e.owner = owner;
    let n = e.proms.len();
    let r = e.method(receiver, "recv", &[arg])?;
    match e.v(r) {
        V::Prom(i) if *i == n && e.proms.len() == n + 1 => {}
        _ => broken("recv does not return the one promise it makes"),
    }
    let now = e.proms[n].made;
    e.proms[n].deadline = t.map(|t| now + t * MS).unwrap_or(u64::MAX);
    Ok(n)
}
/// Takes what a promise was resolved with.
pub fn take(e: &mut Eng, prom: usize) -> InMsg {
    let v = e.proms[prom].val;
    let bm = e.get(v, "bytesMessage");
    let (f, d) = (e.get(bm, "format"), e.get(bm, "data"));
    let Some(data) = e.bytes(d) else {
        broken("a received message has no data");
        return InMsg::default();
    };
    let (id, kind, body) = dec(e.number(f) as u16, &data);
    e.gc(d);
    let (o, r) = (e.get(v, "objects"), e.get(v, "memoryRegions"));
    let mut objects = vec![];
    for x in e.items(o) {
        let fd = match e.method(x, "value", &[]) {
            Ok(n) => e.number(n) as i32,
            Err(_) => -1,
        };
        let o = user(|| unsafe {
            let n = libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, 0);
            (n >= 0).then(|| ipmb::Object::from_raw(n))
        });
        match o {
            Some(o) => objects.push(o),
            None if w().errno_mask == 0 => broken("an object of a received message is not open"),
            None => {}
        }
        e.gc(x);
    }
    let mut regions = vec![];
    for x in e.items(r) {
        regions.push(Reg::J(JReg::new(e, x)));
    }
    InMsg { id, kind, body, objects, regions }
}

pub const UNKNOWN: usize = usize::MAX - 1;
pub struct JReg {
    proc: Pid,
    val: Val,
    pub file: usize,
    pub data: Vec<u8>,
}
impl JReg {
    fn new(e: &mut Eng, val: Val) -> JReg {
        kern::k().last_map.remove(&(sched::cur_tid() as usize));
        let (a, b) = (e.num(0.0), e.num(-1.0));
        let mut fails = false;
        let data = match e.method(val, "map", &[a, b]) {
            Ok(v) => {
                let d = e.bytes(v).unwrap_or_default();
                e.gc(v);
                d
            }
            Err(_) => {
                fails = true;
                vec![]
            }
        };
        let file = kern::k().last_map.get(&(sched::cur_tid() as usize)).copied().unwrap_or(UNKNOWN);
        let mut r = JReg { proc: e.proc, val, file, data };
        // a part of it
        if r.data.len() > 3 {
            let (o, n) = (r.data.len() / 3, r.data.len() / 2);
            let (a, b) = (e.num(o as f64), e.num(n as f64));
            match e.method(val, "map", &[a, b]) {
                Ok(v) => {
                    let d = e.bytes(v).unwrap_or_default();
                    if d.len() < n || d[..n] != r.data[o..o + n] {
                        broken("map of a part of a region returns other bytes than map of the whole");
                    }
                    e.gc(v);
                }
                Err(m) if w().errno_mask == 0 => broken(&format!("map of a part of a region throws {}", m)),
                Err(_) => {}
            }
            // an empty part
            let (a, b) = (e.num(o as f64), e.num(0.0));
            if let Ok(v) = e.method(val, "map", &[a, b]) {
                if e.bytes(v).is_some_and(|x| !x.is_empty()) {
                    broken("map of an empty part of a region returns bytes");
                }
                e.gc(v);
            }
        } else if w().errno_mask == 0 && fails {
            r.file = usize::MAX;
        }
        r
    }
}
impl Drop for JReg {
    fn drop(&mut self) {
        let _g = kenter();
        let v = self.val;
        job(self.proc, move |e| e.gc(v));
    }
}

// ---- endpoints for the other workloads -------------------------------------------------------------------------------

struct Own(Pid, Val);
impl Drop for Own {
    fn drop(&mut self) {
        let _g = kenter();
        let v = self.1;
        job(self.0, move |e| e.gc(v));
    }
}
struct JTx(Arc<Own>);
impl Tx for JTx {
    fn send(&self, m: OutMsg) -> Result<(), E> {
        let _g = kenter();
        let (p, v) = (self.0 .0, self.0 .1);
        job(p, move |e| {
            let mut m = m;
            let bufs = std::mem::take(&mut m.regions).into_iter().map(|r| r.bytes()).collect();
            call_send(e, v, &m, bufs)
        })
        .unwrap_or(Err("down".into()))
        .map_err(|s| error(&s))
    }
    fn dup(&self) -> Box<dyn Tx> {
        Box::new(JTx(self.0.clone()))
    }
}
struct JRx {
    own: Own,
    depth: usize,
    pipe: VecDeque<usize>,
    id: usize,
}
static mut NEXT: usize = 1000;
impl Rx for JRx {
    fn recv(&mut self, t: Option<Duration>) -> Result<InMsg, E> {
        let _g = kenter();
        let (p, v, id) = (self.own.0, self.own.1, self.id);
        // several promises at a time if they may wait
        let depth = if t.is_some() { 1 } else { self.depth };
        while self.pipe.len() < depth {
            match job(p, move |e| call_recv(e, v, id, t.map(|t| t.as_millis() as u64))) {
                Some(Ok(n)) => self.pipe.push_back(n),
                Some(Err(m)) if self.pipe.is_empty() => return Err(error(&m)),
                Some(Err(_)) => break,
                None => return Err(E::Other("down".into())),
            }
        }
        let n = self.pipe[0];
        wait_until(NODL, || env(p).down || env(p).proms[n].st != Pst::Pending);
        let e = env(p);
        if e.down {
            return Err(E::Other("down".into()));
        }
        self.pipe.pop_front();
        if e.proms[n].st == Pst::Rejected {
            return Err(error(&e.message(e.proms[n].val)));
        }
        job(p, move |e| take(e, n)).ok_or(E::Other("down".into()))
    }
}
impl Drop for JRx {
    fn drop(&mut self) {
        let _g = kenter();
        let (p, v) = (self.own.0, self.own.1);
        if d(2) == 0 {
            job(p, move |e| e.method(v, "close", &[]).is_ok());
        } else {
            job(p, move |e| e.gc(v));
        }
        let pipe = std::mem::take(&mut self.pipe);
        if !wait_until(w().now + 60 * SEC, || env(p).down || pipe.iter().all(|n| env(p).proms[*n].st != Pst::Pending)) {
            broken("a promise is still pending a minute after its receiver was closed");
        }
    }
}
pub fn join_js(j: JoinSpec) -> Result<Pair, E> {
    let _g = kenter();
    let p = sched::cur_proc();
    env(p).on_settle = Some(settled);
    let (a, b) = job(p, move |e| call_join(e, &j)).unwrap_or(Err("down".into())).map_err(|s| error(&s))?;
    let id = unsafe {
        NEXT += 1;
        NEXT
    };
    Ok((Box::new(JTx(Arc::new(Own(p, a)))), Box::new(JRx { own: Own(p, b), depth: 1 + d(3) as usize, pipe: VecDeque::new(), id })))
}

/// Checks the settlement of a promise.
fn settled(e: &mut Eng, n: usize) {
    let p = &e.proms[n];
    let text = if p.st == Pst::Rejected { e.message(p.val) } else { String::new() };
    if text == "closed" {
        return;
    }
    if text == "timeout" {
        if p.deadline == u64::MAX {
            broken("a promise without timeout is rejected with 'timeout'");
        } else if p.settled < p.deadline {
            broken(&format!("a promise is rejected with 'timeout' {} us before its deadline", (p.deadline - p.settled) / 1000));
        }
        late(e, n);
        return;
    }
    // a message or an error that was received
    if let Some(k) = e.proms[..n].iter().position(|q| q.owner == p.owner && q.st == Pst::Pending) {
        broken(&format!("promise {} is settled with what was received while promise {} of the same receiver, made earlier, is pending", n + 1, k + 1));
    }
    late(e, n);
}
static mut TIMED: bool = false;
/// how much longer than its timeout and the poll interval a promise may be pending
fn bound() -> u64 {
    200 * MS + if w().deaths.is_empty() { 15 * MS } else { 2300 * MS }
}
fn late(e: &Eng, n: usize) {
    let p = &e.proms[n];
    if p.deadline == u64::MAX || unsafe { !TIMED } {
        return;
    }
    stat(U_RECV_TIMES, 1);
    let from = p.deadline.max(e.job_end);
    let end = if p.st == Pst::Pending { w().now } else { p.settled };
    if end > from + bound() {
        broken(&format!("a promise with a timeout of {} ms is {} {} ms after its deadline", (p.deadline - p.made) / MS, if p.st == Pst::Pending { "pending" } else { "settled" }, (end - p.deadline) / MS));
    }
}

pub fn with_js(f: fn()) {
    unsafe { JS_API = true };
    f();
}
macro_rules! j {
    ($($n:ident = $m:ident :: $f:ident),*) => { $(pub fn $n() { with_js($m::$f) })* };
}
j!(
    js_bus = scn::multicast,
    js_select = scn::selection,
    js_kill = scn::unicast_kill,
    js_order = scn::ordering_failover,
    js_attach = scn::attachments,
    js_failover = scn::failover,
    js_ttl = scn2::ttl,
    js_loss = scn::loss
);

// ---- promises ----------------------------------------------------------------------------------------------------------

struct R {
    ep: usize,
    sender: Val,
    receiver: Val,
    closed: bool,
    gone: bool,
}
fn on_promise(e: &mut Eng, n: usize) {
    settled(e, n);
    let (ep_id, st) = (e.proms[n].owner, e.proms[n].st);
    if st == Pst::Resolved {
        let m = take(e, n);
        e.proms[n].taken = true;
        stat(U_RECVS, 1);
        ep(ep_id).nrecv += 1;
        got(ep_id, e.proc, m, stamp(), false);
    } else if error(&e.message(e.proms[n].val)) == E::Decode {
        ep(ep_id).ndecode += 1;
    }
}
fn wait_for(id: usize, s: u64) {
    wait_until(w().now + s * SEC, || ep(id).join_ret.is_some());
}

pub fn promises() {
    promises_run(false);
}
pub fn promises_kill() {
    promises_run(true);
}
fn promises_run(kills: bool) {
    init_h();
    scn::environment(&scn::Cfg { delay: 0.0, eintr: pick(&[0.0, 0.05]), small_buf_pct: 10, ..scn::BASE });
    unsafe { TIMED = true };
    h().decode_ok = true;
    let np = 1 + d(2);
    let procs: Vec<Pid> = (0..np + kills as u32).map(|i| proc_new(&format!("H{}", i))).collect();
    for p in &procs {
        let mut s = spec(*p, 1);
        s.api = pick(&[ApiKind::Bytes, ApiKind::Ffi]);
        let id = add_ep(s);
        wait_for(id, 30);
    }
    let jp = proc_new("J");
    let nr = 1 + d(3) as usize;
    let bad = d(4);
    // traffic of peers, steady or in bursts
    let quiet = chance(25);
    let gap = pick(&[30u64, 1, 100, 150, 190, 250, 600]);
    let n_traffic = if quiet { 0 } else { (1 + d(40)).min((6000 / gap.max(1)) as u32) };
    for i in 0..np as usize {
        let mut v = vec![Op::Gate(1)];
        for _ in 0..n_traffic {
            let mut s = scn::gen_send(&scn::Cfg { attach_pct: 15, max_attach: 3, ttl_pct: 0, multi_pct: 50, wide_labels: false, ..scn::BASE });
            // the receivers have the labels 1, 2, 3
            s.expr = pick(&[0u32, 1, 2, 3, 1, 1]).into();
            v.push(Op::Send(s));
            v.push(Op::Sleep(1 + d(2 * gap as u32) as u64));
        }
        spawn_tx(i, v, false);
    }
    if bad > 0 {
        on_bad(procs[0], bad);
    }
    let nsteps = 5 + d(30);
    let exit = chance(40);
    let done: *mut bool = Box::leak(Box::new(false));
    spawn(jp, "driver", move || {
        drive(jp, nr, nsteps, exit);
        unsafe { *done = true };
        on_event("driver done");
    });
    if kills {
        wait_until(w().now + 60 * SEC, || h().gate >= 1);
        for p in procs.iter().take(1 + d(np) as usize) {
            sleep_ms(pick(&[0, 3, 100, 150, 400, 900, 3000]) + d(50) as u64);
            kill(*p);
            stat(U_CTLKILL, 1);
        }
    }
    if !wait_until(w().now + 300 * SEC, || unsafe { *done }) {
        violation("js", "a call of the binding has not returned within 300 s of simulated time");
    }
    wait_scripts(60);
    oracle::history();
}
impl From<u32> for Expr {
    fn from(n: u32) -> Expr {
        if n == 0 {
            Expr::T
        } else {
            Expr::Leaf(n)
        }
    }
}
/// A peer whose messages cannot be decoded.
fn on_bad(p: Pid, n: u32) {
    let up: *mut bool = Box::leak(Box::new(false));
    spawn(p, "bad", move || {
        // gone as a receiver before anything is sent
        let (tx, rx) = user(|| crate::cscn::join_bad());
        user(move || drop(rx));
        unsafe { *up = true };
        on_event("bad up");
        wait_until(NODL, || h().gate >= 1);
        for _ in 0..n {
            let multi = chance(50);
            user(|| crate::cscn::send_bad(&tx, multi, POOL[1 + d_user(3) as usize]));
            sleep_ms(d(300) as u64);
        }
        user(move || drop(tx));
    });
    wait_until(w().now + 60 * SEC, || unsafe { *up });
}
fn d_user(n: u32) -> u32 {
    let _g = kenter();
    d(n)
}

fn threads(p: Pid) -> usize {
    w().threads.iter().filter(|t| t.proc == p && t.st != sched::St::Dead && t.st != sched::St::Killed).count()
}

/// JavaScript joins a bus that accepts it.
fn join_one(jp: Pid, label: u32) -> Option<R> {
    let mut s = spec(jp, label);
    s.api = ApiKind::Js;
    s.affinity = false;
    s.acc = Acc::Any;
    s.rx.timeout_ms = 1;
    let id = add_ep_quiet(s.clone());
    ep(id).join_inv = Some(stamp());
    let js = JoinSpec { ident: h().idents[0].clone(), label: s.label, token: h().tokens[0].clone(), affinity: false, timeout: None, acc: Acc::Any };
    let r = job(jp, move |e| call_join(e, &js)).unwrap();
    ep(id).join_ret = Some(stamp());
    match r {
        Ok((a, b)) => {
            ep(id).rx_alive = true;
            Some(R { ep: id, sender: a, receiver: b, closed: false, gone: false })
        }
        Err(m) => {
            ep(id).join_err = Some(error(&m));
            broken(&format!("join throws {}", m));
            None
        }
    }
}

// ---- refusals ----------------------------------------------------------------------------------------------------------

fn host(token: u8, api: ApiKind) -> (Pid, usize) {
    let p = proc_new(&format!("H{}", w().procs.len()));
    let mut s = spec(p, 1);
    s.token = token;
    s.api = api;
    let id = add_ep(s);
    wait_for(id, 30);
    (p, id)
}
fn is(e: &E, want: &E) -> bool {
    std::mem::discriminant(e) == std::mem::discriminant(want)
}
/// Joins that must fail, and a bus that refuses the program after somebody else has taken it over.
pub fn js_refused() {
    init_h();
    scn::environment(&scn::Cfg { delay: 0.0, eintr: pick(&[0.0, 0.05]), ..scn::BASE });
    h().decode_ok = true;
    h().rx_errors_ok = true;
    let other = || if chance(50) { (pick(&[1u8, 2, 3]), pick(&[ApiKind::Bytes, ApiKind::Main]), E::Token) } else { (0, pick(&[ApiKind::V090, ApiKind::V180]), E::Version(0, 0, 0)) };
    let jp = proc_new("J");
    let (first, second) = (d(3), other());
    let nr = 1 + d(3);
    let mut bad = None;
    let mut want = E::Timeout;
    if first > 0 {
        let (t, a, e) = other();
        bad = Some(host(t, a).0);
        want = e;
    }
    let done: *mut u32 = Box::leak(Box::new(0));
    let donep = done as usize;
    spawn(jp, "driver", move || {
        env(jp).on_settle = Some(on_promise);
        let base_threads = threads(jp);
        for _ in 0..d(3) {
            let ms = pick(&[500u64, 0, 1, 1999, 5000]);
            let js = JoinSpec { ident: h().idents[0].clone(), label: 2, token: "secret".into(), affinity: false, timeout: Some(Duration::from_millis(ms)), acc: Acc::Any };
            let t = w().now;
            let r = job(jp, move |e| call_join(e, &js)).unwrap();
            let el = (w().now - t) / MS;
            stat(U_MISMATCH, 1);
            match r {
                Ok(_) => broken("join succeeds on a bus that does not accept the program"),
                Err(m) if is(&error(&m), &want) => {}
                // the time may be over before anybody has answered
                Err(m) if is(&error(&m), &E::Timeout) && ms < 1000 => {}
                Err(m) => broken(&format!("join ({} ms) throws {}, it had to fail with {:?}", ms, m, want)),
            }
            if want == E::Timeout && (el < ms || el > ms + 2020) {
                broken(&format!("join with a timeout of {} ms took {} ms", ms, el));
            }
        }
        unsafe { *(donep as *mut u32) = 1 };
        on_event("joins have failed");
        wait_until(NODL, || h().gate >= 1);
        let mut rs = vec![];
        for i in 0..nr {
            match join_one(jp, 1 << (1 + i % 3)) {
                Some(r) => rs.push(r),
                None => return,
            }
        }
        set_gate(2);
        for r in &rs {
            let (v, o, n) = (r.receiver, r.ep, d(4));
            job(jp, move |e| {
                for _ in 0..n {
                    let t = pick(&[None, None, Some(400), Some(60_000)]);
                    if let Err(m) = call_recv(e, v, o, t) {
                        broken(&format!("recv throws {}", m));
                    }
                }
            });
        }
        sleep_ms(pick(&[0, 30, 500]));
        set_gate(3);
        wait_until(NODL, || h().gate >= 4);
        let e2 = &second.2;
        sleep_ms(pick(&[0, 100, 1000, 6_000]));
        let send_early = chance(50);
        let mut sent = vec![];
        for (i, r) in rs.iter().enumerate() {
            if send_early || i == 0 {
                let v = r.sender;
                let r = job(jp, move |e| call_send(e, v, &OutMsg { id: 0, kind: 0, body: vec![], multi: true, expr: Expr::F, ttl: Duration::ZERO, objects: vec![], regions: vec![] }, vec![])).unwrap();
                sent.push(r);
            }
        }
        // every receiver is told, nobody else is
        sleep_ms(6_000);
        for (i, r) in rs.iter().enumerate() {
            let e = env(jp);
            let mine: Vec<usize> = (0..e.proms.len()).filter(|n| e.proms[*n].owner == r.ep).collect();
            let (mut told, mut closed) = (0, 0);
            for n in mine {
                let text = if e.proms[n].st == Pst::Rejected { e.message(e.proms[n].val) } else { String::new() };
                closed += (text == "closed") as u32;
                if e.proms[n].st == Pst::Pending {
                    broken(&format!("a promise is pending although the bus has refused receiver {} for seconds", i));
                } else if e.proms[n].st == Pst::Rejected && text != "closed" && text != "timeout" {
                    told += 1;
                    if !is(&error(&text), e2) {
                        broken(&format!("a promise is rejected with '{}' where the bus refuses with {:?}", text, e2));
                    }
                }
            }
            if told == 0 && closed > 0 {
                broken(&format!("no promise was told why receiver {} is closed", i));
            }
            if told > 1 {
                broken("a refusal rejects several promises with its reason");
            }
            let (v, o) = (r.receiver, r.ep);
            job(jp, move |e| match call_recv(e, v, o, None) {
                Ok(_) => broken("recv does not throw although the bus has refused the receiver"),
                Err(m) if m != "closed" => broken(&format!("recv of a refused receiver throws {}", m)),
                Err(_) => {}
            });
        }
        for (i, r) in sent.iter().enumerate() {
            // until the kernel has taken the dead process apart a send can still succeed
            match r {
                Ok(()) if send_early => {}
                Err(m) if is(&error(m), e2) => {}
                Ok(()) => {}
                Err(m) => broken(&format!("send {} throws {} where the bus refuses with {:?}", i, m, e2)),
            }
        }
        for r in &rs {
            let v = r.sender;
            let r = job(jp, move |e| call_send(e, v, &OutMsg { id: 0, kind: 0, body: vec![], multi: true, expr: Expr::F, ttl: Duration::ZERO, objects: vec![], regions: vec![] }, vec![])).unwrap();
            match r {
                Err(m) if is(&error(&m), e2) => {}
                r => broken(&format!("a send ends with {:?} although the bus refuses with {:?}", r, e2)),
            }
        }
        if threads(jp) != base_threads {
            broken(&format!("{} threads are left after the bus has refused every receiver", threads(jp) - base_threads));
        }
        if env(jp).held() {
            broken("the process cannot end although the bus has refused every receiver");
        }
        for r in rs.iter_mut() {
            if chance(50) {
                close(jp, r);
            }
        }
        for r in &rs {
            let (a, b) = (r.sender, r.receiver);
            job(jp, move |e| {
                e.gc(a);
                e.gc(b);
            });
        }
        sleep_ms(50);
        let left = open_fds(jp);
        if !left.is_empty() {
            broken(&format!("descriptors are left after every sender and receiver was collected: {:?}", left));
        }
        job(jp, |e| e.shut());
        unsafe { *(donep as *mut u32) = 2 };
        on_event("driver done");
    });
    wait_until(w().now + 100 * SEC, || unsafe { *done } == 1);
    if let Some(p) = bad {
        kill(p);
        sleep_ms(100);
    }
    let (hp, hid) = host(0, pick(&[ApiKind::Bytes, ApiKind::Ffi]));
    set_gate(1);
    wait_until(w().now + 60 * SEC, || h().gate >= 2);
    let mut v = vec![];
    for _ in 0..d(6) {
        let mut s = scn::gen_send(&scn::Cfg { attach_pct: 15, max_attach: 3, ttl_pct: 0, multi_pct: 50, wide_labels: false, ..scn::BASE });
        s.expr = pick(&[1u32, 2, 3]).into();
        v.push(Op::Send(s));
    }
    spawn_tx(hid, v, false);
    wait_until(w().now + 60 * SEC, || h().gate >= 3);
    kill(hp);
    sleep_ms(pick(&[0, 1, 50, 300]));
    host(second.0, second.1);
    sleep_ms(300);
    set_gate(4);
    if !wait_until(w().now + 300 * SEC, || unsafe { *done } == 2) {
        broken("a call of the binding has not returned within 300 s of simulated time");
    }
}

/// The JavaScript program.
fn drive(jp: Pid, nr: usize, nsteps: u32, exit: bool) {
    env(jp).on_settle = Some(on_promise);
    let base_threads = threads(jp);
    let mut rs: Vec<R> = vec![];
    for i in 0..nr {
        match join_one(jp, 1 << (1 + i as u32 % 3)) {
            Some(r) => rs.push(r),
            None => return,
        }
        on_event("js endpoint joined");
    }
    let open_threads = threads(jp);
    if open_threads < base_threads + nr {
        broken("a receiver has no thread");
    }
    set_gate(1);
    for _ in 0..nsteps {
        let i = d(rs.len() as u32) as usize;
        let r = &mut rs[i];
        match d(12) {
            0..=4 => {
                if r.gone {
                    continue;
                }
                let n = 1 + d(3);
                let (v, o, closed) = (r.receiver, r.ep, r.closed);
                let ts: Vec<Option<u64>> = (0..n).map(|_| pick(&[None, Some(100), Some(0), Some(1), Some(50), Some(199), Some(200), Some(250), Some(700), Some(3000)])).collect();
                job(jp, move |e| {
                    for t in ts {
                        match call_recv(e, v, o, t) {
                            Ok(_) if closed => broken("recv after close does not throw"),
                            Err(m) if !closed => broken(&format!("recv throws {}", m)),
                            Err(m) if m != "closed" => broken(&format!("recv after close throws {}", m)),
                            _ => {}
                        }
                    }
                });
            }
            5..=7 => sleep_ms(pick(&[1, 10, 60, 150, 210, 400, 1000])),
            8 => {
                // JavaScript is busy
                let ms = pick(&[1, 30, 250, 600]);
                job(jp, move |_| sleep_ms(ms));
            }
            9 => {
                if r.gone {
                    continue;
                }
                let (v, o) = (r.sender, r.ep);
                send_js(jp, v, o);
            }
            10 => {
                if chance(50) {
                    close(jp, r);
                }
            }
            _ => {
                if chance(30) && !r.gone {
                    ep(r.ep).rx_drop_inv.get_or_insert(stamp());
                    let v = r.receiver;
                    timed_close(jp, "collecting a receiver", move |e| e.gc(v));
                    r.closed = true;
                    ended(r, jp);
                    r.gone = true;
                }
            }
        }
    }
    if exit {
        // the program ends here
        for r in &rs {
            ep(r.ep).rx_drop_inv.get_or_insert(stamp());
        }
        job(jp, |e| e.shut());
        for r in &rs {
            ep(r.ep).rx_drop_ret.get_or_insert(stamp());
            ep(r.ep).rx_alive = false;
        }
        sleep_ms(50);
        if threads(jp) > 1 {
            broken(&format!("{} threads are left after the environment has ended", threads(jp) - 1));
        }
        let left: Vec<_> = open_fds(jp);
        if !left.is_empty() {
            broken(&format!("descriptors are left after the environment has ended: {:?}", left));
        }
        return;
    }
    // whatever has been or will be received goes to a promise
    let deadline = w().now + 40 * SEC;
    loop {
        for r in rs.iter().filter(|r| !r.closed) {
            let (v, o) = (r.receiver, r.ep);
            job(jp, move |e| {
                let pending = e.proms.iter().filter(|p| p.owner == o && p.st == Pst::Pending && p.deadline == u64::MAX).count();
                for _ in pending..8 {
                    if let Err(m) = call_recv(e, v, o, None) {
                        broken(&format!("recv throws {}", m));
                    }
                }
            });
        }
        sleep_ms(500);
        let idle = h().eps.iter().all(|e| e.tx_open == 0) && h().msgs.iter().all(|m| m.inv.seq == 0 || m.ret.is_some_and(|r| r.t + 4 * SEC < w().now));
        // every receiver has promises to spare: nothing is waiting for one
        let spare = rs.iter().filter(|r| !r.closed).all(|r| env(jp).proms.iter().any(|p| p.owner == r.ep && p.st == Pst::Pending));
        if idle && spare || w().now > deadline {
            break;
        }
    }
    // nothing is overdue
    let e = env(jp);
    for n in 0..e.proms.len() {
        if e.proms[n].st == Pst::Pending {
            late(e, n);
        }
    }
    // the history is judged with the receivers open
    oracle::history();
    for r in rs.iter_mut() {
        close(jp, r);
        if chance(50) {
            close(jp, r);
        }
    }
    sleep_ms(50);
    if env(jp).proms.iter().any(|p| p.st == Pst::Pending) {
        broken("a promise is pending after every receiver was closed");
    }
    if threads(jp) != base_threads {
        broken(&format!("{} threads are left after every receiver was closed", threads(jp) - base_threads));
    }
    for r in rs.iter() {
        let (a, b, gone) = (r.sender, r.receiver, r.gone);
        job(jp, move |e| {
            e.gc(a);
            if !gone {
                e.gc(b);
            }
        });
    }
    sleep_ms(50);
    let left = open_fds(jp);
    if !left.is_empty() {
        broken(&format!("descriptors are left after every sender and receiver was collected: {:?}", left));
    }
    if env(jp).held() {
        broken("the process cannot end although every receiver was closed");
    }
    job(jp, |e| e.shut());
}

fn timed_close(jp: Pid, what: &str, f: impl FnOnce(&mut Eng) + 'static) {
    let what = what.to_string();
    job(jp, move |e| {
        let t = w().now;
        f(e);
        let el = w().now - t;
        stat(U_RECV_TIMES, 1);
        if el > bound() {
            broken(&format!("{} took {} ms", what, el / MS));
        }
    });
}
fn close(jp: Pid, r: &mut R) {
    if r.gone {
        return;
    }
    ep(r.ep).rx_drop_inv.get_or_insert(stamp());
    let v = r.receiver;
    let again = r.closed;
    timed_close(jp, "close", move |e| {
        let t = w().now;
        if let Err(m) = e.method(v, "close", &[]) {
            broken(&format!("close throws {}", m));
        }
        if again && w().now - t > 5 * MS {
            broken("closing again takes long");
        }
    });
    r.closed = true;
    ended(r, jp);
}
/// After close: every promise of the receiver is settled as soon as JavaScript has run what was waiting.
fn ended(r: &R, jp: Pid) {
    ep(r.ep).rx_drop_ret.get_or_insert(stamp());
    ep(r.ep).rx_alive = false;
    let o = r.ep;
    if !wait_until(w().now + 100 * MS, || env(jp).proms.iter().all(|p| p.owner != o || p.st != Pst::Pending)) {
        broken("a promise is pending 100 ms after its receiver was closed");
    }
}

/// JavaScript sends a message that the other interfaces receive.
fn send_js(jp: Pid, sender: Val, id: usize) {
    let mut s = scn::gen_send(&scn::Cfg { attach_pct: 30, max_attach: 3, ..scn::BASE });
    s.nobj = 0;
    let txid = id as u32 + 100_000;
    let idx = ep(id).ntx;
    ep(id).ntx += 1;
    let mid = new_msg(id, txid, idx, s.clone(), false);
    let regions: Vec<Reg> = (0..s.nreg).map(|i| Reg::B(fill(mid, i, s.reg_size))).collect();
    struct Direct(Pid, Val);
    impl Tx for Direct {
        fn send(&self, m: OutMsg) -> Result<(), E> {
            let _g = kenter();
            let v = self.1;
            job(self.0, move |e| {
                let mut m = m;
                let bufs = std::mem::take(&mut m.regions).into_iter().map(|r| r.bytes()).collect();
                call_send(e, v, &m, bufs)
            })
            .unwrap_or(Err("down".into()))
            .map_err(|s| error(&s))
        }
        fn dup(&self) -> Box<dyn Tx> {
            unreachable!()
        }
    }
    send_with(id, txid, &Direct(jp, sender), s, mid, vec![], regions);
}
