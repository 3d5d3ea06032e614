//! Workloads made for one property.
use crate::engine::*;
use crate::h::*;
use crate::oracle;
use crate::scn::*;
use crate::util::*;
use simk::*;
use std::collections::BTreeMap;
use std::time::Duration;

fn quiet_env() {
    let wd = w();
    wd.fault_prob = [0; 32];
}

/// Runs `f` on a new thread of the process and waits for it.
pub fn on(p: Pid, name: &str, f: impl FnOnce() + 'static) {
    if !w().procs[p].alive {
        return;
    }
    let done = Box::leak(Box::new(false));
    let d2 = done as *mut bool;
    spawn(p, name, move || {
        f();
        unsafe { *d2 = true };
        on_event("done");
    });
    let d2 = done as *mut bool;
    wait_until(w().now + 200 * SEC, || unsafe { *d2 } || !w().procs[p].alive);
}

fn wait_join(id: usize, s: u64) -> bool {
    wait_until(w().now + s * SEC, || ep(id).join_ret.is_some())
}

/// Drops both halves of an endpoint from a thread of its process.
pub fn leave(id: usize) {
    let p = ep(id).spec.proc;
    on(p, &format!("ep{}leave", id), move || {
        if ep(id).rx_alive {
            drop_rx(id);
        }
        drop_tx(id);
        drop_held(id);
    });
}

// ---- C07, C08: refused peers -----------------------------------------------------------------------------------

pub fn tokens() {
    mixed(true, false, 0);
}
pub fn tokens_failover() {
    mixed(true, false, 1 + d(2));
}
pub fn versions() {
    mixed(false, true, 0);
}
pub fn versions_failover() {
    mixed(false, true, 1 + d(2));
}
pub fn tokens_versions() {
    mixed(true, true, d(2));
}

fn long_token(at: usize, c: char) -> String {
    (0..200usize).map(|i| if i == at { c } else { (b'a' + (i % 23) as u8) as char }).collect()
}
fn mixed(tokens: bool, versions: bool, kills: u32) {
    init_h();
    h().tokens = match d(7) {
        // equal lengths, differing late, in the middle or at the start
        3 => vec![long_token(0, 'x'), long_token(199, '!'), long_token(100, '!'), long_token(0, '!')],
        4 => vec![long_token(0, 'x'), long_token(17, '!'), long_token(33, '!'), long_token(64, '!')],
        5 => vec!["tok-ab".into(), "tok-ba".into(), "tok-ac".into(), "tok-AB".into()],
        6 => vec![" ".into(), "".into(), "  ".into(), "\t".into()],
        0 => vec!["secret".into(), "Secret".into(), "secret2".into(), "".into()],
        1 => vec!["".into(), "x".into(), "\0".into(), "secret".into()],
        _ => vec!["töken".into(), "token".into(), "t".into(), "töken ".into()],
    };
    if h().c_api {
        // C strings
        h().tokens.iter_mut().for_each(|t| *t = t.replace('\0', "0"));
    }
    let c = Cfg { delay: 0.01, ..BASE };
    environment(&c);
    if chance(50) {
        quiet_env();
    }
    let delays = w().fault_prob.iter().any(|p| *p > 0);
    h().rx_errors_ok = true;
    h().send_errors_ok = true;
    let anchored = kills == 0 || chance(50);
    let np = 2 + d(4);
    let procs: Vec<Pid> = (0..np).map(|i| proc_new(&format!("P{}", i))).collect();
    let mut kinds = vec![];
    for i in 0..np {
        let tok = if tokens && i > 0 { pick(&[0u8, 1, 2, 3, 0]) } else { 0 };
        let api = if versions { pick(&[ApiKind::Main, ApiKind::V089, ApiKind::V090, ApiKind::V180, ApiKind::V191, ApiKind::Main]) } else { ApiKind::Main };
        kinds.push((tok, api));
        for j in 0..1 + d(2) {
            let mut s = spec(procs[i as usize], 1 | d(16));
            s.token = tok;
            s.api = api;
            s.affinity = (i == 0 && j == 0) || !chance(20);
            if anchored && (i > 0 || j > 0) {
                s.start_gate = 1;
            }
            s.start_ms = pick(&[0, 0, 1, 30, 300]);
            if chance(20) {
                s.rx.timeout_ms = pick(&[300, 1000]);
            }
            // refused endpoints try again
            let again = d(3);
            for _ in 0..d(3) {
                s.scripts.push(gen_script(&Cfg { sends: (1, 4), multi_pct: 60, big_pct: 0, ..BASE }));
            }
            add_ep(s.clone());
            for k in 0..again {
                if anchored && (tok != 0 || !api.compatible(kinds[0].1)) {
                    let mut t = s.clone();
                    t.start_ms += 5 + 100 * k as u64;
                    add_ep(t);
                }
            }
        }
    }
    note(format!("kinds {:?} anchored {}", kinds, anchored));
    // the bus is slow to answer now and then, but does in time
    let mut stall = 0;
    if anchored {
        wait_join(0, 30);
        if kills == 0 && chance(12) {
            stall = pick(&[1_900u64, 3_000, 7_000, 13_000]) * MS;
            arm_stall(procs[0], 1, d(30) as u64, stall);
        }
        set_gate(1);
    }
    let mut done = vec![];
    for _ in 0..kills {
        trigger(&procs, Act::KillCtl, &mut done);
    }
    wait_scripts(150);
    settle(31_000);
    // sends report the refusal if no receiver did; where only refused endpoints have controller affinity, the bus
    // has a controller again only now
    if kills > 0 {
        h().settled = None;
    }
    probe(1);
    wait_scripts(60);
    sleep_ms(5_000);
    if kills > 0 {
        h().settled = Some(stamp());
        probe(1);
        wait_scripts(60);
        sleep_ms(5_000);
    }
    // -- verdicts --
    let ctl: Vec<(u8, ApiKind, bool)> = controllers_of(0)
        .iter()
        .map(|(p, _, _)| {
            let e = h().eps.iter().find(|e| e.spec.proc == *p).unwrap();
            (e.spec.token, e.spec.api, w().procs[*p].alive)
        })
        .collect();
    let now_ctl = controller_of(0).filter(|p| w().procs[*p].alive).map(|p| {
        let e = h().eps.iter().find(|e| e.spec.proc == p).unwrap();
        (e.spec.token, e.spec.api)
    });
    let check = |who: &str, s: &EpSpec, e: &E, took: u64| match e {
        // six answers in a row not given within 2 s
        E::Version(0, 0, 0) if delays && took > 11_900 * MS => {}
        E::Token => {
            if !ctl.iter().any(|c| c.0 != s.token && c.1.compatible(s.api)) {
                violation("refusal-wrong", &format!("{} with token {:?} got a token mismatch although no controller had another token", who, h().tokens[s.token as usize]));
            }
        }
        E::Version(a, b, c) => {
            // the C interface does not tell the version
            if !ctl.iter().any(|x| !x.1.compatible(s.api) && (x.1.version() == (*a, *b, *c) || s.api == ApiKind::Ffi)) {
                violation(
                    "refusal-wrong",
                    &format!("{} of version {:?} got a version mismatch naming {}.{}.{}, which no incompatible controller of the bus has (controllers: {:?})", who, s.api.version(), a, b, c, ctl.iter().map(|c| c.1.version()).collect::<Vec<_>>()),
                );
            }
        }
        e => violation("refusal-wrong", &format!("{} failed with {:?}", who, e)),
    };
    let slow = 2_000 * MS + 20 * MS + if delays { 20 * SEC } else { 0 } + if stall > 0 { stall + 4 * SEC } else { 0 };
    for e in &h().eps {
        if let Some(err) = &e.join_err {
            stat(U_MISMATCH, 1);
            let t = e.join_ret.unwrap().t - e.join_inv.unwrap().t;
            check(&format!("join of ep{}", e.id), &e.spec, err, t);
            if kills == 0 && anchored && t > slow && *err != E::Version(0, 0, 0) {
                violation("refusal-slow", &format!("join of ep{} was refused only after {} ms", e.id, t / MS));
            }
        } else if e.join_ret.is_some() && !ctl.iter().any(|c| c.0 == e.spec.token && c.1.compatible(e.spec.api)) {
            violation("refusal-missing", &format!("ep{} (token {:?}, version {:?}) joined although every controller had another token or version", e.id, h().tokens[e.spec.token as usize], e.spec.api.version()));
        }
        if let Some((_, err)) = &e.rx_error {
            stat(U_MISMATCH, 1);
            check(&format!("receive of ep{}", e.id), &e.spec, err, !0);
        }
        // whoever does not fit the controller has been told so
        if let Some((t, a)) = now_ctl {
            if (t != e.spec.token || !a.compatible(e.spec.api)) && e.alive() {
                if e.joined() && e.rx_alive {
                    violation("refusal-missing", &format!("ep{} does not fit the current controller but its receiver was not told", e.id));
                }
                if e.join_inv.is_some() && e.join_ret.is_none() {
                    violation("refusal-missing", &format!("join of ep{} does not fit the current controller but is still waiting", e.id));
                }
            }
            if t == e.spec.token && a.compatible(e.spec.api) && e.alive() && e.join_inv.is_some() && e.join_ret.is_none() {
                violation("call-hang", &format!("join of ep{} has not returned although the bus accepts it", e.id));
            }
        }
    }
    for m in &h().msgs {
        if let Some(err) = &m.err {
            check(&format!("send of m{} by ep{}", m.id, m.ep), &ep(m.ep).spec, err, !0);
        }
    }
    oracle::history();
}

// ---- C10: time to live -------------------------------------------------------------------------------------------

pub fn ttl() {
    init_h();
    let quiet = !chance(35);
    let slack;
    if quiet {
        environment(&Cfg { delay: 0.0, clock: 0.05, small_buf_pct: 0, ..BASE });
        slack = 10 * MS;
    } else {
        environment(&Cfg { delay: 0.02, small_buf_pct: 0, ..BASE });
        slack = 30 * SEC;
    }
    let np = 1 + d(3);
    let procs: Vec<Pid> = (0..np).map(|i| proc_new(&format!("P{}", i))).collect();
    // hosts the controller; matches element 0 only, and element 3 sometimes
    let mut a = spec(procs[0], 1);
    if chance(15) {
        a.label |= 8;
    }
    if chance(20) {
        a.rx.drop_after = 1 + d(3);
    }
    add_ep(a);
    wait_join(0, 30);
    let ttls = [0u64, 1, 50, 500, 1000, 5000, 20_000, 40_000, u64::MAX];
    let ns = 1 + d(2);
    let mut plan: Vec<(u64, u64)> = vec![]; // (time, ttl)
    for _ in 0..ns {
        let mut s = spec(procs[d(np) as usize], 0);
        s.half = pick(&[0, 1]);
        let mut ops = vec![];
        let mut t = 0;
        let many = d(15) == 1;
        for _ in 0..if many { pick(&[20, 70, 40, 300]) } else { 1 + d(4) } {
            let gap = if many && d(20) > 0 { 0 } else { pick(&[0u64, 1, 100, 700, 3000]) };
            t += gap;
            if gap > 0 {
                ops.push(Op::Sleep(gap));
            }
            let ttl = pick(&ttls);
            let mut m = SendSpec::simple(
                chance(40),
                match d(4) {
                    0 | 1 => Expr::Leaf(1 + d(3)),
                    2 => Expr::And(Box::new(Expr::Leaf(1 + d(3))), Box::new(Expr::Not(Box::new(Expr::Leaf(0))))),
                    _ => Expr::Or(Box::new(Expr::Leaf(1)), Box::new(Expr::Leaf(2))),
                },
            );
            m.ttl_ms = ttl;
            if chance(20) {
                m.nobj = d(3) as usize;
                m.nreg = d(2) as usize;
            }
            plan.push((t, ttl));
            ops.push(Op::Send(m));
        }
        s.scripts.push(ops);
        add_ep(s);
    }
    // an endpoint that is there early and leaves
    if chance(35) {
        let mut s = spec(procs[d(np) as usize], 2 | d(8) << 1);
        s.label &= !1;
        s.start_ms = pick(&[0, 1, 100]);
        s.rx.timeout_ms = 20;
        if chance(50) {
            s.rx.drop_after = 1;
        } else {
            s.rx.drop_gate = 1;
        }
        add_ep(s);
    }
    for _ in 0..1 + d(4) {
        let p = if chance(30) { proc_new("J") } else { procs[d(np) as usize] };
        let mut s = spec(p, d(8) << 1);
        let (t, ttl) = plan[d(plan.len() as u32) as usize];
        s.start_ms = match d(4) {
            0 => d(8000) as u64,
            1 => t + pick(&[0u64, 1, 20, 500]),
            _ => {
                let e = t.saturating_add(ttl.min(60_000)) as i64;
                (e + pick(&[0i64, 1, -1, 20, -20, -300, 300, 3500, -3500])).max(0) as u64
            }
        };
        s.start_ms = s.start_ms.max(1);
        if chance(20) {
            s.acc = pick(&[Acc::A, Acc::B]);
        }
        add_ep(s);
    }
    // somebody keeps the controller busy
    if chance(50) {
        let mut s = spec(procs[d(np) as usize], 0);
        let mut ops = vec![];
        for _ in 0..3 + d(8) {
            ops.push(Op::Sleep(pick(&[1, 300, 2000, 7000])));
            ops.push(Op::Send(SendSpec::simple(d(2) == 1, Expr::Leaf(0))));
        }
        s.scripts.push(ops);
        add_ep(s);
    }
    note(format!("sends (ms, ttl) {:?} joins {:?} quiet {}", plan, h().eps.iter().map(|e| (e.spec.start_ms, e.spec.label)).collect::<Vec<_>>(), quiet));
    if chance(50) {
        sleep_ms(pick(&[1, 50, 600, 2500]));
        set_gate(1);
    }
    wait_scripts(300);
    wait_until(w().now + 200 * SEC, || h().eps.iter().all(|e| e.join_ret.is_some()));
    sleep_ms(3_000);
    oracle::ttl(slack);
    oracle::history();
}

// ---- C11: timeouts -------------------------------------------------------------------------------------------------

const DURS: [Duration; 12] = [
    Duration::from_millis(20),
    Duration::ZERO,
    Duration::from_nanos(1),
    Duration::from_micros(999),
    Duration::from_millis(1),
    Duration::from_micros(1500),
    Duration::from_millis(300),
    Duration::from_millis(1999),
    Duration::from_millis(2001),
    Duration::from_secs(11),
    Duration::from_secs(40),
    Duration::MAX,
];

fn ns(x: Duration) -> u64 {
    x.as_nanos().min(u64::MAX as u128 / 2) as u64
}

pub fn recv_times() {
    init_h();
    let quiet = !chance(30);
    if quiet {
        environment(&Cfg { delay: 0.0, spurious: 0.02, eintr: pick(&[0.0, 0.05, 0.2]), ..BASE });
    } else {
        environment(&Cfg { delay: 0.01, eintr: pick(&[0.0, 0.05]), ..BASE });
    }
    let slack = if quiet { 20 * MS } else { 30 * SEC };
    let np = 1 + d(2);
    let procs: Vec<Pid> = (0..np).map(|i| proc_new(&format!("P{}", i))).collect();
    add_ep(EpSpec { acc: pick(&[Acc::Any, Acc::A]), ..spec(procs[0], 1) });
    wait_join(0, 30);
    // both roles: the endpoint hosting the controller was ep0; sometimes it is the one that is timed
    let n = 1 + d(2);
    let role_server = chance(40);
    let mut timed = vec![];
    if role_server {
        // ep0's own receiver keeps running without a limit; a second bus hosts the timed one
        h().idents.push("bus.t".into());
    }
    for i in 0..n {
        let bus = if role_server && i == 0 { 3 } else { 0 };
        let p = procs[d(np) as usize];
        let mut s = spec(p, 2);
        s.bus = bus;
        s.acc = Acc::A;
        let id = add_ep_quiet(s);
        timed.push(id);
        let count = 1 + d(4);
        spawn(p, &format!("ep{}timed", id), move || timed_receiver(id, count, slack));
    }
    // traffic the timed receivers cannot decode, and sometimes something they can
    for id in timed.clone() {
        wait_until(w().now + 30 * SEC, || ep(id).join_ret.is_some());
    }
    for bus in [0usize, 3] {
        if bus == 3 && !role_server {
            continue;
        }
        if chance(70) {
            let mut s = spec(procs[d(np) as usize], 4);
            s.bus = bus;
            s.half = 1;
            let gap = pick(&[1u64, 3, 20, 250, 1000]);
            let mut ops = vec![];
            let k = (12_000 / gap).min(60 + d(100) as u64);
            for i in 0..k {
                ops.push(Op::Sleep(gap));
                let mut m = SendSpec::simple(i % 2 == 0, Expr::Leaf(1));
                m.kind = 1;
                if chance(3) {
                    m.kind = 0;
                }
                ops.push(Op::Send(m));
            }
            s.scripts.push(ops);
            add_ep(s);
        }
    }
    sleep_ms(60_000);
    faults_off();
    // those that wait for ever get something
    for bus in [0usize, 3] {
        if bus == 3 && !role_server {
            continue;
        }
        let p = procs[0];
        let mut s = spec(p, 4);
        s.bus = bus;
        s.half = 1;
        for _ in 0..10 {
            s.scripts.push(vec![Op::Send(SendSpec::simple(true, Expr::Leaf(1))), Op::Sleep(100), Op::Send(SendSpec::simple(true, Expr::Leaf(1)))]);
        }
        add_ep(s);
    }
    sleep_ms(80_000);
    for id in timed {
        if ep(id).rx_in.is_some() {
            violation("call-hang", &format!("a timed receive of ep{} neither received anything nor timed out", id));
        }
        if ep(id).rx_drop_inv.is_some() && ep(id).rx_drop_ret.is_none() {
            violation("call-hang", &format!("dropping the receiver of ep{} has not returned", id));
        }
    }
    oracle::history();
}

fn timed_receiver(id: usize, count: u32, slack: u64) {
    timed_endpoint(id, count, slack, 0)
}
/// With some threads that send now and then by the same endpoint.
fn timed_endpoint(id: usize, count: u32, slack: u64, senders: u32) {
    let s = ep(id).spec.clone();
    let p = s.proc;
    let js = JoinSpec { ident: h().idents[s.bus].clone(), label: s.label, token: "secret".into(), affinity: s.affinity, timeout: None, acc: s.acc };
    ep(id).join_inv = Some(stamp());
    let r = user(|| join_api(s.api, js));
    ep(id).join_ret = Some(stamp());
    let (tx, mut rx) = match r {
        Ok(x) => x,
        Err(e) => {
            ep(id).join_err = Some(e.clone());
            violation("call-error", &format!("join of ep{} failed: {:?}", id, e));
            return;
        }
    };
    ep(id).rx_alive = true;
    on_event("timed joined");
    for i in 0..senders {
        let tx = user(|| tx.dup());
        spawn(p, &format!("ep{}tx{}", id, i), move || {
            for k in 0..2 + d(8) {
                sleep_ms(pick(&[0, 1, 10, 200, 1_500, 4_000]));
                do_send(id, i, k, &*tx, SendSpec::simple(true, Expr::Leaf(7)), false);
            }
            user(move || drop(tx));
        });
    }
    for _ in 0..count {
        let t = match d(DURS.len() as u32 + 1) as usize {
            i if i < DURS.len() => Some(DURS[i]),
            _ => None,
        };
        let inv = stamp();
        ep(id).rx_in = Some(inv);
        on_event(&format!("ep{} recv({:?})", id, t));
        let r = user(|| rx.recv(t));
        ep(id).rx_in = None;
        let el = w().now - inv.t;
        stat(U_RECV_TIMES, 1);
        match r {
            Ok(m) => {
                if let Some(t) = t {
                    if el > ns(t).saturating_add(slack) {
                        violation("timeout-late", &format!("recv({:?}) of ep{} returned a message only after {:?}", t, id, Duration::from_nanos(el)));
                    }
                }
                let now = stamp();
                h().rcvs.push(Rcv { ep: id, msg: m.id, at: now });
                user(move || drop(m));
            }
            Err(E::Timeout) => {
                let Some(t) = t else {
                    violation("timeout-none", &format!("recv(None) of ep{} reported a timeout", id));
                    continue;
                };
                if el + MS <= ns(t) || t == Duration::MAX {
                    violation("timeout-early", &format!("recv({:?}) of ep{} timed out after {:?}", t, id, Duration::from_nanos(el)));
                }
                if el > ns(t).saturating_add(slack) {
                    violation("timeout-late", &format!("recv({:?}) of ep{} timed out only after {:?}", t, id, Duration::from_nanos(el)));
                }
            }
            Err(e) => violation("call-error", &format!("recv of ep{} failed: {:?}", id, e)),
        }
        if chance(30) {
            sleep_ms(pick(&[1, 50, 700]));
        }
    }
    let _ = p;
    ep(id).rx_drop_inv = Some(stamp());
    let inv = w().now;
    user(move || drop(rx));
    ep(id).rx_drop_ret = Some(stamp());
    if w().now - inv > 2 * SEC + slack {
        violation("call-hang", &format!("dropping the receiver of ep{} took {:?}", id, Duration::from_nanos(w().now - inv)));
    }
    user(move || drop(tx));
    ep(id).rx_alive = false;
}

/// An endpoint that may not host the bus receives while the only host goes away; it joins again if one returns.
pub fn recv_orphan() {
    init_h();
    let quiet = !chance(30);
    environment(&Cfg { delay: if quiet { 0.0 } else { 0.01 }, spurious: 0.02, eintr: pick(&[0.0, 0.05, 0.2]), ..BASE });
    let slack = if quiet { 20 * MS } else { 30 * SEC } + 2 * SEC;
    let p0 = proc_new("P0");
    add_ep(spec(p0, 1));
    wait_join(0, 30);
    let mut timed = vec![];
    for i in 0..1 + d(2) {
        let mut s = spec(proc_new(&format!("T{}", i)), 2);
        s.affinity = false;
        s.acc = Acc::A;
        let id = add_ep_quiet(s.clone());
        timed.push(id);
        let count = 1 + d(5);
        let senders = pick(&[0, 1, 1, 2]);
        spawn(s.proc, &format!("ep{}timed", id), move || timed_endpoint(id, count, slack, senders));
    }
    for id in timed.clone() {
        wait_until(w().now + 30 * SEC, || ep(id).join_ret.is_some());
    }
    sleep_ms(pick(&[0, 1, 30, 500, 3000]));
    if chance(50) {
        arm_kill(p0, 0b11, d(100) as u64);
        sleep_ms(50);
    }
    w().procs[p0].kill_after = None;
    if w().procs[p0].alive {
        kill(p0);
    }
    // longer than the longest finite timeouts of a run take one after the other, sometimes
    sleep_ms(pick(&[2_500, 100, 7_000, 40_000, 600_000]));
    faults_off();
    let p1 = proc_new("P1");
    let mut s = spec(p1, 4);
    for _ in 0..10 {
        s.scripts.push(vec![Op::Sleep(20_000), Op::Send(SendSpec::simple(true, Expr::Leaf(1))), Op::Sleep(100), Op::Send(SendSpec::simple(true, Expr::Leaf(1)))]);
    }
    add_ep(s);
    sleep_ms(100_000);
    for id in timed {
        if ep(id).rx_in.is_some() {
            violation("call-hang", &format!("a timed receive of ep{} neither received anything nor timed out", id));
        }
        if ep(id).rx_drop_inv.is_some() && ep(id).rx_drop_ret.is_none() {
            violation("call-hang", &format!("dropping the receiver of ep{} has not returned", id));
        }
    }
    oracle::history();
}

pub fn join_times() {
    init_h();
    let quiet = !chance(30);
    environment(&Cfg { delay: if quiet { 0.0 } else { 0.01 }, eintr: pick(&[0.0, 0.05, 0.2]), ..BASE });
    let slack = if quiet { 20 * MS } else { 30 * SEC };
    let mode = d(4);
    let p0 = proc_new("P0");
    let p1 = proc_new("P1");
    let mut longest = 100 * SEC;
    match mode {
        0 | 1 => {} // nobody there
        2 => {
            // a controller that does not answer
            add_ep(spec(p0, 1));
            wait_join(0, 30);
            stall(p0, 300 * SEC);
            longest = 9 * SEC;
        }
        _ => {
            // somebody else owns the name and never accepts
            let l = foreign_listener(p0, 0);
            let _ = l;
            longest = 9 * SEC;
        }
    }
    for k in 0..1 + d(3) {
        let t = loop {
            let t = pick(&DURS);
            if ns(t) <= longest || (t == Duration::MAX && mode < 2) {
                break t;
            }
        };
        let affinity = mode >= 2 && chance(50);
        let p = if mode == 0 { p0 } else { p1 };
        let mut s = spec(p, 2);
        s.affinity = affinity;
        let id = add_ep_quiet(s.clone());
        spawn(p, &format!("ep{}", id), move || {
            if k > 0 {
                sleep_ms(pick(&[0, 1, 500]));
            }
            let js = JoinSpec { ident: h().idents[0].clone(), label: s.label, token: "secret".into(), affinity, timeout: Some(t), acc: s.acc };
            ep(id).join_inv = Some(stamp());
            on_event(&format!("ep{} join({:?})", id, t));
            let inv = w().now;
            let api = ep(id).spec.api;
            let r = user(|| join_api(api, js));
            let el = w().now - inv;
            ep(id).join_ret = Some(stamp());
            stat(U_RECV_TIMES, 1);
            match r {
                Ok(x) => {
                    if t != Duration::MAX {
                        violation("timeout-wrong", &format!("join of ep{} succeeded without a controller", id));
                    }
                    user(move || drop(x));
                }
                Err(E::Timeout) => {
                    ep(id).join_err = Some(E::Timeout);
                    if el < ns(t) {
                        violation("timeout-early", &format!("join({:?}) of ep{} timed out after {:?}", t, id, Duration::from_nanos(el)));
                    }
                    if el > ns(t).saturating_add(2 * SEC + slack) {
                        violation("timeout-late", &format!("join({:?}) of ep{} timed out only after {:?}", t, id, Duration::from_nanos(el)));
                    }
                }
                Err(e) => violation("timeout-wrong", &format!("join({:?}) of ep{} failed with {:?} after {:?}", t, id, e, Duration::from_nanos(el))),
            }
            on_event("join over");
        });
    }
    sleep_ms(70_000);
    if mode < 2 {
        // a controller appears at last; the joins that wait for ever succeed
        add_ep(spec(p1, 1));
        sleep_ms(15_000);
    }
    for e in &h().eps {
        if e.join_inv.is_some() && e.join_ret.is_none() {
            violation("call-hang", &format!("join of ep{} has not returned", e.id));
        }
    }
}

/// A process that is no ipmb endpoint owns the name of the bus.
fn foreign_listener(p: Pid, bus: usize) -> i32 {
    let out = Box::leak(Box::new(-1));
    let o2 = out as *mut i32;
    let backlog = pick(&[32, 0, 1, 3, -1, -1]);
    on(p, "listener", move || {
        let name = h().idents[bus].clone();
        let fd = user(|| unsafe {
            let fd = libc::socket(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0);
            let a = raw_addr(&name);
            libc::bind(fd, &a as *const _ as _, std::mem::size_of_val(&a) as _);
            // a short queue of connections is full soon; a stopped owner may not listen yet
            if backlog >= 0 {
                libc::listen(fd, backlog);
            }
            fd
        });
        unsafe { *o2 = fd };
    });
    *out
}

pub fn raw_addr(name: &str) -> libc::sockaddr_un {
    let mut a = libc::sockaddr_un { sun_family: libc::AF_UNIX as _, sun_path: [0; 108] };
    for (i, b) in name.bytes().enumerate() {
        a.sun_path[1 + i] = b as _;
    }
    a
}

// ---- C12: reference counts -------------------------------------------------------------------------------------------

pub fn regions() {
    regions_run(false, false);
}
pub fn regions_kill() {
    regions_run(true, false);
}
/// the calls regions are made of fail now and then
pub fn regions_errno() {
    regions_run(false, true);
}
fn regions_run(kill: bool, errno: bool) {
    init_h();
    h().keep_clones = pick(&[50, 0, 100]);
    let c = Cfg {
        procs: (if kill { 2 } else { 1 }, 4),
        eps: (2, 4),
        sends: (1, 4),
        attach_pct: 95,
        max_attach: pick(&[3, 10]),
        ttl_pct: 40,
        drop_rx: if chance(40) { 1 } else { 0 },
        kill_ctl: if kill { d(2) } else { 0 },
        kill_ep: if kill { d(2) } else { 0 },
        kind_b_pct: 20,
        acc_pct: 30,
        wide_labels: chance(50),
        noaff_pct: 0,
        big_pct: 0,
        settle: kill,
        small_buf_pct: 20,
        errno: if errno { pick(&[0.02, 0.005]) } else { 0.0 },
        errno_mask: if errno { REGION_CALLS } else { 0 },
        ..BASE
    };
    environment(&c);
    let procs = populate(&c);
    for e in h().eps.iter_mut() {
        e.spec.rx.keep = chance(50);
    }
    note(format!("endpoints {:?}", h().eps.iter().map(|e| (e.spec.proc, e.spec.label, e.spec.acc)).collect::<Vec<_>>()));
    let mut acts = vec![];
    for _ in 0..c.kill_ctl {
        acts.push(Act::KillCtl);
    }
    for _ in 0..c.kill_ep {
        acts.push(Act::KillEp);
    }
    for _ in 0..c.drop_rx {
        acts.push(Act::DropRx);
    }
    let mut done = vec![];
    for a in acts {
        trigger(&procs, a, &mut done);
    }
    wait_scripts(150);
    faults_off();
    sleep_ms(4_000);
    let dead = !w().deaths.is_empty();
    // whoever cannot map a received region cannot give its reference back
    let high = dead || errno;
    regions_refs("while messages may still wait", high);
    // all ttls run out and the controller prunes
    settle(31_000);
    probe(1);
    sleep_ms(3_000);
    regions_handles(high);
    // everything is dropped
    let ids: Vec<usize> = h().eps.iter().filter(|e| e.alive() && e.joined()).map(|e| e.id).collect();
    for i in ids {
        on(ep(i).spec.proc, "drop", move || drop_held(i));
    }
    sleep_ms(100);
    if !dead {
        let left = live_mems();
        if !left.is_empty() {
            let (a, b) = file_refs(left[0]);
            violation("region-leak", &format!("{} regions still exist although every handle was dropped (the first has {} descriptors and {} queued copies, count {})", left.len(), a, b, mem_u32(left[0])));
        } else if !kern::k().live.is_empty() {
            violation("region-leak", &format!("{} mappings of regions are left although every handle was dropped", kern::k().live.len()));
        }
    }
    oracle::history();
}

/// The count in every header equals the references the kernel knows of.
fn regions_refs(when: &str, dead: bool) {
    if any_blocked_in(sysno::SENDMSG) {
        return;
    }
    for f in live_mems() {
        let (a, b) = file_refs(f);
        let c = mem_u32(f) as usize;
        if a + b == 0 {
            continue;
        }
        stat(U_REFCHECK, 1);
        if c < a + b || (!dead && c != a + b) {
            violation("region-count", &format!("a region has reference count {} but {} handles and {} copies in queued messages, {}", c, a, b, when));
        }
    }
}
/// Nothing is in flight: the counts equal the handles the workload owns.
fn regions_handles(dead: bool) {
    if any_blocked_in(sysno::SENDMSG) {
        return;
    }
    let files: Vec<usize> = live_mems();
    for f in files {
        let n = tracked(f);
        let (_, b) = file_refs(f);
        let c = mem_u32(f) as i32;
        if b > 0 || n == 0 {
            continue;
        }
        stat(U_REFCHECK, 1);
        if c < n || (!dead && c != n) {
            violation("region-count", &format!("a region has reference count {} but {} handles and no message is in flight", c, n));
        }
    }
}

// ---- C13: registry -----------------------------------------------------------------------------------------------------

struct Alloc {
    file: usize,
    frees: u32,
}
static mut ALLOCS: Vec<Alloc> = vec![];
static mut TAGS: BTreeMap<usize, Option<&'static str>> = BTreeMap::new();
static mut REG_DROPPED: bool = false;
static mut IN_ALLOC: bool = false;
fn allocs() -> &'static mut Vec<Alloc> {
    unsafe { &mut *std::ptr::addr_of_mut!(ALLOCS) }
}
fn tags() -> &'static mut BTreeMap<usize, Option<&'static str>> {
    unsafe { &mut *std::ptr::addr_of_mut!(TAGS) }
}

fn on_free(aid: usize) {
    let _g = kenter();
    stat(U_FREES, 1);
    on_event(&format!("free callback {}", aid));
    let a = &mut allocs()[aid];
    a.frees += 1;
    if a.frees > 1 {
        violation("free-twice", &format!("the free callback of allocation {} ran {} times", aid, a.frees));
    }
    if a.file != 0 && unsafe { !REG_DROPPED } {
        let n = tracked(a.file);
        let (_, q) = file_refs(a.file);
        if n > 0 || q > 0 {
            violation("free-early", &format!("the free callback of allocation {} ran while {} handles and {} queued messages refer to the region", aid, n, q));
        }
    }
}

pub fn registry() {
    registry_run(false, false);
}
pub fn registry_kill() {
    registry_run(true, false);
}
/// the calls regions are made of fail now and then
pub fn registry_errno() {
    registry_run(false, true);
}
const REGION_CALLS: u64 = 1 << sysno::MMAP | 1 << sysno::MEMFD | 1 << sysno::FTRUNCATE | 1 << sysno::FCNTL | 1 << sysno::FSTAT | 1 << sysno::SENDMSG | 1 << sysno::RECVMSG;
fn registry_run(kills: bool, errno: bool) {
    init_h();
    let mut c = Cfg { small_buf_pct: 10, delay: 0.005, ..BASE };
    if errno {
        c = Cfg { errno: pick(&[0.02, 0.005]), errno_mask: REGION_CALLS, ..c };
    }
    environment(&c);
    let np = 1 + d(3) + kills as u32;
    let procs: Vec<Pid> = (0..np).map(|i| proc_new(&format!("P{}", i))).collect();
    let mut owner = spec(procs[0], 1);
    owner.rx.keep = chance(50);
    if kills {
        // the registry's process may also die
        let mut s = spec(procs[1], 0);
        s.label = 2;
        add_ep(s);
        wait_join(0, 30);
    }
    let own = add_ep(owner);
    wait_join(own, 30);
    for i in 0..1 + d(3) {
        let p = procs[d(np) as usize];
        let mut s = spec(p, 2 | d(2) << 2);
        s.rx.keep = true;
        s.acc = pick(&[Acc::Any, Acc::A, Acc::B]);
        if i == 0 {
            s.acc = Acc::Any;
        }
        if chance(20) {
            s.rx.drop_after = 1 + d(4);
        }
        let id = add_ep(s);
        // drops what was received after a while, having looked at it once more
        spawn(p, &format!("ep{}drop", id), move || loop {
            sleep_ms(1 + d(3000) as u64);
            while !ep(id).held.is_empty() {
                let n = ep(id).held.len() as u32;
                let (mid, objs, regs) = ep(id).held.remove(d(n) as usize);
                user(move || drop(objs));
                for (i, mut r) in regs.into_iter().enumerate() {
                    check_contents(&format!("ep{}", id), mid, i, &mut r);
                    drop_region(p, r);
                }
                if chance(50) {
                    break;
                }
            }
        });
    }
    let txid = h().next_tx;
    h().next_tx += 1;
    let end = Box::leak(Box::new(false)) as *mut bool;
    ep(own).tx_open += 1;
    let nops = 4 + d(20);
    spawn(procs[0], &format!("ep{}registry", own), move || {
        registry_owner(own, txid, nops);
        ep(own).tx_open -= 1;
        unsafe { *end = true };
        on_event("registry done");
    });
    let mut done = vec![];
    if kills {
        for _ in 0..1 + d(2) {
            trigger(&procs, if chance(50) { Act::KillEp } else { Act::KillCtl }, &mut done);
        }
    }
    wait_scripts(300);
    wait_until(w().now + 300 * SEC, || unsafe { *end } || !w().procs[procs[0]].alive);
    oracle::history();
}

fn check_contents(who: &str, mid: u32, i: usize, r: &mut Reg) {
    let want = &h().contents[&(mid, i)];
    let same = user(|| r.map().map(|b| b.len() >= want.len() && b[..want.len()] == want[..]).unwrap_or(true));
    if !same {
        violation("overwritten", &format!("{} holds region {} of m{} whose contents changed after it was sent", who, i, mid));
    }
}

fn registry_owner(own: usize, txid: u32, nops: u32) {
    let p = ep(own).spec.proc;
    let tx = user(|| ep(own).tx.as_ref().unwrap().dup());
    let c_api = ep(own).spec.api == ApiKind::Ffi;
    let mut reg = user(|| Registry::new(c_api));
    let mut local: Vec<(u32, Reg)> = vec![];
    let mut idx = 0;
    let mut sizes = vec![];
    for _ in 0..nops {
        if d(30) == 0 {
            // cannot be had
            let n = pick(&[usize::MAX, usize::MAX - 5, usize::MAX - 12, usize::MAX / 2 + 1, usize::MAX / 2 + 70]);
            if let Some(mut r) = user(|| reg.alloc(n, None)) {
                violation("reuse", &format!("alloc of {} bytes returned a region of {}", n, r.size()));
            }
            on_event("alloc of what no system can hold");
        }
        match d(8) {
            0..=4 => {
                let size = if !sizes.is_empty() && chance(60) { pick(&sizes) } else { pick(&[64usize, 1, 16, 33, 100, 4084, 9000]) };
                // similar sizes share the retained regions
                let size = match d(8) {
                    1 => size - size / 10,
                    2 => size + 1,
                    3 => size - 1,
                    4 => size * 2 - 1,
                    5 => size * 2,
                    6 => size + size / 2,
                    _ => size,
                }
                .clamp(1, 40_000);
                sizes.push(size);
                let tag = pick(&[None, Some("x"), Some("y"), None]);
                let aid = allocs().len();
                allocs().push(Alloc { file: 0, frees: 0 });
                unsafe { IN_ALLOC = true };
                let with_free = chance(70);
                let r = user(|| if with_free { reg.alloc_with_free(size, tag, aid, on_free) } else { reg.alloc(size, tag) });
                unsafe { IN_ALLOC = false };
                let errno = w().errno_mask != 0;
                let Some(mut r) = r else {
                    if !errno {
                        violation("alloc-failed", "alloc returned nothing");
                    }
                    // nothing is promised about its callback
                    allocs()[aid].frees = u32::MAX / 2;
                    continue;
                };
                stat(U_ALLOCS, 1);
                let f = region_file(p, &mut r);
                if f == 0 && errno {
                    allocs()[aid].frees = u32::MAX / 2;
                    user(move || drop(r));
                    continue;
                }
                on_event(&format!("alloc {} size {} tag {:?} -> object {}", aid, size, tag, f));
                // the owner may have had the object before
                let n = tracked(f);
                let (_, q) = file_refs(f);
                if n > 0 || q > 0 {
                    violation("reuse", &format!("alloc returned a region to which {} handles and {} queued messages still refer", n, q));
                }
                if with_free {
                    allocs()[aid].file = f;
                } else {
                    allocs()[aid].frees = u32::MAX / 2;
                }
                if r.size() < size {
                    violation("reuse", &format!("alloc of {} bytes returned a region of {}", size, r.size()));
                }
                match tags().get(&f) {
                    Some(t) => {
                        stat(U_REUSE, 1);
                        if *t != tag {
                            violation("reuse", &format!("alloc with tag {:?} returned a region allocated with tag {:?}", tag, t));
                        }
                    }
                    None => {
                        tags().insert(f, tag);
                    }
                }
                track(f, p, 1);
                let bsize = r.size();
                let mut sp = SendSpec::simple(chance(60), match d(4) {
                    0 => Expr::Leaf(1),
                    1 => Expr::Leaf(2),
                    2 => Expr::Leaf(3),
                    _ => Expr::Leaf(0),
                });
                sp.kind = chance(25) as u8;
                sp.ttl_ms = pick(&[0, 0, 3000, 800]);
                sp.nreg = 1;
                sp.reg_size = bsize;
                let mid = new_msg(own, txid, idx, sp.clone(), false);
                idx += 1;
                let pat = fill(mid, 0, bsize);
                let written = user(|| r.map().map(|b| b.copy_from_slice(&pat)).is_some());
                h().contents.insert((mid, 0), pat);
                if !written {
                    drop_region(p, r);
                } else if chance(75) {
                    if chance(30) {
                        if let Some(c) = user(|| r.dup()) {
                            track(f, p, 1);
                            local.push((mid, c));
                        }
                    }
                    h().msgs[mid as usize].regs.clear();
                    track(f, p, -1);
                    send_with(own, txid, &*tx, sp, mid, vec![], vec![r]);
                } else {
                    local.push((mid, r));
                }
            }
            5 => {
                if !local.is_empty() {
                    let (mid, mut r) = local.swap_remove(d(local.len() as u32) as usize);
                    check_contents("the owner", mid, 0, &mut r);
                    drop_region(p, r);
                }
            }
            6 => {
                user(|| reg.maintain());
            }
            _ => sleep_ms(pick(&[1, 20, 500, 1500, 5100])),
        }
        if chance(30) {
            sleep_ms(pick(&[1, 20, 500, 1500]));
        }
    }
    for (mid, mut r) in local {
        check_contents("the owner", mid, 0, &mut r);
        drop_region(p, r);
    }
    // everything in flight has arrived or expired, and was dropped
    faults_off();
    sleep_ms(5_000);
    let one = vec![Op::Send(SendSpec::simple(false, Expr::F))];
    spawn_tx(own, one, false);
    sleep_ms(40_000);
    user(|| reg.maintain());
    // whoever cannot map a received region cannot give its reference back
    if w().deaths.is_empty() && w().errno_mask == 0 {
        let refs = |f: usize| {
            let (a, b) = file_refs(f);
            a + b
        };
        for (i, a) in allocs().iter().enumerate() {
            if a.file != 0 && a.frees == 0 && tracked(a.file) == 0 {
                violation("free-late", &format!("nobody refers to the region of allocation {} any more but its free callback has not run", i));
            }
        }
        // retained for 5 s after the last allocation only
        for f in tags().keys() {
            if w().kern.files[*f].is_some() && tracked(*f) == 0 && refs(*f) > 0 {
                violation("region-leak", &format!("the registry still holds a region ({} references) 40 s after its last allocation", refs(*f)));
            }
        }
    }
    unsafe { REG_DROPPED = true };
    user(move || drop(reg));
    for (i, a) in allocs().iter().enumerate() {
        if a.file != 0 && a.frees != 1 {
            violation("free-twice", &format!("the free callback of allocation {} ran {} times by the time the registry was dropped", i, a.frees));
        }
    }
    user(move || drop(tx));
}

// ---- C15: progress under pressure ---------------------------------------------------------------------------------------

pub fn pressure() {
    init_h();
    let c = Cfg { procs: (1, 4), eps: (2, 5), txs: (1, 3), sends: (4, 16), big_pct: 40, small_buf_pct: 100, slow_pct: 40, spread_ms: 3, attach_pct: 10, noaff_pct: 0, ..BASE };
    environment(&c);
    w().kern.sndcap = pick(&[1, 1, 4096, 20_000]);
    populate(&c);
    for e in h().eps.iter_mut() {
        e.spec.scripts.iter_mut().for_each(|s| s.retain(|o| matches!(o, Op::Send(_)) || chance(10)));
    }
    wait_scripts(600);
    faults_off();
    sleep_ms(20_000);
    oracle::history();
}

struct Flood {
    /// messages of the flood sent so far
    sent: u32,
    /// numbers of the flood's messages in the order of their arrival, and the victims' messages (negative)
    got: Vec<i64>,
    /// what a victim waited for: its message or 0 for a join, the flood's counter when it was sent, the arrivals before it returned
    vics: Vec<(u32, u32)>,
    over: bool,
}
const FAIR: usize = 1000;

/// An endpoint that never stops sending takes only its share of the controller.
pub fn flood() {
    init_h();
    environment(&Cfg { delay: 0.0, kill_ctl: 0, kill_ep: 0, spurious: 0.005, eintr: 0.0, small_buf_pct: 30, ..BASE });
    let fl = Box::leak(Box::new(Flood { sent: 0, got: vec![], vics: vec![], over: false })) as *mut Flood;
    let fl = move || unsafe { &mut *fl };
    let name = h().idents[0].clone();
    let js = move |label: u32, affinity: bool| JoinSpec { ident: name.clone(), label, token: "secret".into(), affinity, timeout: None, acc: Acc::Any };
    let procs: Vec<Pid> = (0..3).map(|i| proc_new(&format!("P{}", i))).collect();
    // the controller's process floods the bus, or another one does
    let by_host = chance(60);
    let n = if by_host { 5_000 } else { 3_000 };
    // with priorities a thread may wait for long, which is not what is measured
    if w().policy == Policy::Pct {
        w().policy = Policy::Calm;
    }
    let hold = Box::leak(Box::new(0u32)) as *mut u32;
    let joined = move || unsafe { &mut *hold };
    let j0 = js.clone();
    let hostp = procs[0];
    spawn(procs[0], "host", move || {
        let x = user(|| join_main(j0(2, true)));
        *joined() += 1;
        on_event("host joined");
        let Ok((tx, mut rx)) = x else { return violation("call-error", "the host cannot join") };
        spawn(hostp, "hostrx", move || {
            while !fl().over {
                if let Ok(m) = user(|| rx.recv(Some(Duration::from_secs(5)))) {
                    user(move || drop(m));
                }
            }
            user(move || drop(rx));
        });
        if by_host {
            flooder(&*tx, n, fl());
        } else {
            victim(&*tx, fl(), 1);
        }
        user(move || drop(tx));
    });
    wait_until(w().now + 30 * SEC, || *joined() == 1);
    let j1 = js.clone();
    spawn(procs[1], "listener", move || {
        let x = user(|| join_main(j1(1, true)));
        *joined() += 1;
        on_event("listener joined");
        let Ok((tx, mut rx)) = x else { return violation("call-error", "the listener cannot join") };
        while !fl().over {
            if let Ok(m) = user(|| rx.recv(Some(Duration::from_secs(2)))) {
                fl().got.push(if m.id < 1_000_000 { m.id as i64 } else { -(m.id as i64) });
                user(move || drop(m));
            }
        }
        user(move || drop((tx, rx)));
    });
    wait_until(w().now + 30 * SEC, || *joined() == 2);
    for v in 0..2u32 {
        let p = procs[if by_host || v == 0 { pick(&[2, 1]) } else { 2 }];
        let jv = js.clone();
        spawn(p, &format!("victim{}", v), move || {
            if v == 1 && by_host || chance(30) {
                // joins while the flood is on
                wait_until(w().now + 60 * SEC, || fl().sent > 50);
            }
            let first = fl().sent;
            let before = fl().got.len();
            let x = user(|| join_main(jv(4, false)));
            let late = fl().got[before..].iter().filter(|g| **g >= first as i64).count();
            if late > FAIR {
                violation("unfair", &format!("a join returned only after {} messages which one endpoint had sent since it was called had been delivered", late));
            }
            on_event("victim joined");
            let Ok((tx, rx)) = x else { return violation("call-error", "a join failed") };
            if !by_host && v == 1 {
                flooder(&*tx, n, fl());
            } else {
                victim(&*tx, fl(), v + 2);
            }
            user(move || drop((tx, rx)));
        });
    }
    wait_until(w().now + 300 * SEC, || fl().sent >= n);
    sleep_ms(8_000);
    fl().over = true;
    faults_off();
    sleep_ms(8_000);
    let f = fl();
    stat(U_SENDS, f.sent);
    stat(U_RECVS, f.got.len() as u32);
    if f.sent < n {
        violation("call-hang", &format!("only {} of {} messages of an endpoint could be sent in 300 s", f.sent, n));
    }
    for (id, first) in &f.vics {
        match f.got.iter().position(|g| *g == -(*id as i64)) {
            None => violation("uni-lost", &format!("message {} which was sent during a flood was not received", id)),
            Some(at) => {
                let late = f.got[..at].iter().filter(|g| **g >= *first as i64).count();
                if late > FAIR {
                    violation("unfair", &format!("message {} was delivered only after {} messages which one endpoint had sent later", id, late));
                }
            }
        }
    }
}
fn flooder(tx: &dyn Tx, n: u32, f: &'static mut Flood) {
    let multi = chance(50);
    let len = pick(&[8usize, 0, 200]);
    for i in 0..n {
        f.sent = i + 1;
        let m = OutMsg { id: i, body: vec![1; len], multi, expr: Expr::Leaf(0), ttl: Duration::ZERO, kind: 0, objects: vec![], regions: vec![] };
        if let Err(e) = user(|| tx.send(m)) {
            violation("call-error", &format!("send failed: {:?}", e));
        }
    }
}
fn victim(tx: &dyn Tx, f: &'static mut Flood, v: u32) {
    for k in 0..1 + d(4) {
        let at = f.sent + pick(&[100, 1, 700]);
        while f.sent < at.min(2_500) {
            sleep_ms(1);
        }
        let id = 1_000_000 * v + k;
        let m = OutMsg { id, body: vec![2; 8], multi: chance(50), expr: Expr::Leaf(0), ttl: Duration::ZERO, kind: 0, objects: vec![], regions: vec![] };
        let first = f.sent;
        let before = f.got.len();
        if let Err(e) = user(|| tx.send(m)) {
            violation("call-error", &format!("send failed: {:?}", e));
        }
        let late = f.got[before..].iter().filter(|g| **g >= first as i64).count();
        if late > FAIR {
            violation("unfair", &format!("a send returned only after {} messages which another endpoint had sent since it was called had been delivered", late));
        }
        f.vics.push((id, f.sent));
    }
}

/// Receivers that do not drain are dropped while senders wait for them.
pub fn pressure_drop() {
    init_h();
    let c = Cfg { procs: (1, 4), eps: (2, 5), txs: (1, 3), sends: (4, 12), big_pct: 40, small_buf_pct: 100, slow_pct: 20, spread_ms: 3, attach_pct: 10, noaff_pct: 0, ..BASE };
    environment(&c);
    w().kern.sndcap = pick(&[1, 1, 4096, 20_000]);
    populate(&c);
    let n = h().eps.len() as u32;
    let k = d(n) as usize;
    for e in h().eps.iter_mut() {
        e.spec.scripts.iter_mut().for_each(|s| s.retain(|o| matches!(o, Op::Send(_)) || chance(10)));
        if e.id == k || chance(20) {
            e.spec.rx.hold_gate = 1 + d(2);
            e.spec.rx.drop_gate = if chance(80) { e.spec.rx.hold_gate } else { 0 };
            if e.spec.rx.drop_gate > 0 {
                e.spec.rx.timeout_ms = 20;
            }
        }
    }
    sleep_ms(pick(&[1, 100, 2000]));
    set_gate(1);
    sleep_ms(pick(&[1, 100, 2000]));
    set_gate(2);
    wait_scripts(600);
    faults_off();
    sleep_ms(20_000);
    for e in &h().eps {
        if e.rx_drop_inv.is_some() && e.rx_drop_ret.is_none() {
            violation("call-hang", &format!("dropping the receiver of ep{} has not returned", e.id));
        }
    }
    // the bus still works
    h().settled = Some(stamp());
    probe(1);
    wait_scripts(60);
    sleep_ms(3_000);
    oracle::history();
}

// ---- C16, C20, C25: descriptors, rejoining, churn ---------------------------------------------------------------------------

type Tables = Vec<(Pid, BTreeMap<&'static str, usize>)>;
fn tables(ps: &[Pid]) -> Tables {
    ps.iter().map(|p| (*p, fd_table(*p))).collect()
}
fn compare(a: &Tables, what: &str) {
    for (p, t) in a {
        if !w().procs[*p].alive {
            continue;
        }
        stat(U_FDCHECK, 1);
        let n = fd_table(*p);
        if n != *t {
            violation("fd-leak", &format!("process {} ({}) holds {:?}, expected {:?}, {}", p, w().procs[*p].name, n, t, what));
        }
    }
}

pub fn descriptors() {
    descriptors_run(0.0);
}
/// any call may fail while endpoints come and go
pub fn descriptors_errno() {
    descriptors_run(pick(&[0.003, 0.01, 0.03]));
}
fn descriptors_run(errno: f64) {
    init_h();
    h().keep_clones = pick(&[0, 40]);
    let c = Cfg { delay: 0.005, small_buf_pct: 20, ..BASE };
    environment(&c);
    let p0 = proc_new("P0");
    let p1 = proc_new("P1");
    add_ep(EpSpec { acc: pick(&[Acc::Any, Acc::A]), ..spec(p0, 1) });
    wait_join(0, 30);
    add_ep(spec(p1, 3));
    wait_join(1, 30);
    sleep_ms(100);
    let base = tables(&[p0, p1]);
    if errno > 0.0 {
        errno_on(errno, !0);
        h().send_errors_ok = true;
    }
    let extra: Vec<Pid> = (0..1 + d(2)).map(|i| proc_new(&format!("X{}", i))).collect();
    let mut all = vec![p0, p1];
    all.extend(&extra);
    let rounds = 1 + d(8);
    let mut victims = vec![];
    for _ in 0..rounds {
        let p = pick(&all);
        match d(5) {
            0 | 1 | 2 => {
                let mut s = spec(p, d(16));
                if chance(20) {
                    s.token = 1;
                }
                s.acc = pick(&[Acc::Any, Acc::A, Acc::B, Acc::Bad]);
                s.rx.timeout_ms = pick(&[20, 1, 300]);
                s.rx.keep = chance(20);
                s.half = pick(&[0, 0, 1, 2]);
                let cc = Cfg { sends: (1, 5), attach_pct: 80, max_attach: pick(&[3, 20, 250]), ttl_pct: 30, kind_b_pct: 40, big_pct: 0, ..BASE };
                for _ in 0..d(3) {
                    s.scripts.push(gen_script(&cc));
                }
                let id = add_ep(s);
                victims.push(id);
                if chance(60) {
                    wait_until(w().now + 5 * SEC, || ep(id).join_ret.is_some());
                    sleep_ms(d(50) as u64);
                    if chance(60) {
                        leave_soon(id);
                    }
                }
            }
            3 => {
                // connects, perhaps says something unfinished, goes away
                let n = d(3);
                spawn(p, "raw", move || raw_visit(n));
            }
            _ => {
                // a sender of the stable endpoints sends what nobody takes
                let mut m = SendSpec::simple(false, Expr::And(Box::new(Expr::Leaf(3)), Box::new(Expr::Leaf(0))));
                m.nobj = d(6) as usize;
                m.nreg = d(3) as usize;
                m.ttl_ms = pick(&[0, 1000, 3000]);
                spawn_tx(d(2) as usize, vec![Op::Send(m)], false);
            }
        }
        if chance(50) {
            sleep_ms(1 + d(300) as u64);
        }
    }
    h().send_errors_ok = true;
    for e in &h().eps {
        let id = e.id;
        wait_until(w().now + 30 * SEC, || ep(id).join_ret.is_some() || !ep(id).alive());
    }
    wait_scripts(150);
    faults_off();
    for id in victims {
        leave(id);
    }
    // whatever departed endpoints left behind is released within 30 s
    if chance(50) {
        for _ in 0..2 {
            sleep_ms(31_000);
            spawn_tx(1, vec![Op::Send(SendSpec::simple(true, Expr::Leaf(0)))], false);
            sleep_ms(3_000);
        }
    } else {
        // while the others go on talking, more often than that
        let gap = pick(&[700u64, 2_000, 9_000, 20_000]);
        let mut ops = vec![];
        for _ in 0..66_000 / gap {
            ops.push(Op::Sleep(gap));
            ops.push(Op::Send(SendSpec::simple(chance(70), Expr::Leaf(0))));
        }
        spawn_tx(1, ops, false);
        sleep_ms(70_000);
    }
    let (a, b) = (0, 1);
    for i in [a, b] {
        on(ep(i).spec.proc, "drop", move || drop_held(i));
    }
    sleep_ms(10);
    compare(&base, "after other endpoints came and went");
    let empty: Tables = extra.iter().map(|p| (*p, BTreeMap::new())).collect();
    compare(&empty, "after all its endpoints were dropped");
    oracle::history();
}

// ---- C26: messages that cannot be carried --------------------------------------------------------------------------

fn over_cfg() -> Cfg {
    Cfg { procs: (1, 4), eps: (2, 5), sends: (2, 8), over_pct: pick(&[35, 15, 70]), attach_pct: 30, max_attach: pick(&[3, 20]), big_pct: 10, ttl_pct: 20, noaff_pct: 10, ..BASE }
}
pub fn oversize() {
    run_bus(&over_cfg());
}
pub fn oversize_kill() {
    run_bus(&Cfg { procs: (2, 4), kill_ctl: d(2), kill_ep: d(2), drop_rx: d(2), settle: true, noaff_pct: 0, ..over_cfg() });
}
/// Whatever was refused or dropped leaves nothing behind.
pub fn oversize_release() {
    init_h();
    let c = Cfg { delay: 0.005, small_buf_pct: 20, kind_b_pct: 0, ..over_cfg() };
    environment(&c);
    let procs: Vec<Pid> = (0..1 + d(3)).map(|i| proc_new(&format!("P{}", i))).collect();
    for i in 0..2 + d(2) as usize {
        let mut s = spec(procs[i % procs.len()], 1 | gen_mask());
        s.rx.timeout_ms = pick(&[20, 1, 300]);
        s.rx.keep = chance(20);
        let id = add_ep(s);
        wait_join(id, 30);
    }
    sleep_ms(100);
    let base = tables(&procs);
    let n = h().eps.len();
    for _ in 0..1 + d(4) {
        let id = d(n as u32) as usize;
        spawn_tx(id, gen_script(&c), false);
        if chance(50) {
            sleep_ms(1 + d(300) as u64);
        }
    }
    wait_scripts(150);
    faults_off();
    h().settled = Some(stamp());
    // buffered messages expire
    for _ in 0..2 {
        sleep_ms(31_000);
        probe(1);
        wait_scripts(60);
        sleep_ms(3_000);
    }
    for i in 0..n {
        on(ep(i).spec.proc, "drop", move || drop_held(i));
    }
    sleep_ms(10);
    compare(&base, "after messages that cannot be carried");
    oracle::history();
}

fn leave_soon(id: usize) {
    let p = ep(id).spec.proc;
    if !w().procs[p].alive {
        return;
    }
    spawn(p, &format!("ep{}leave", id), move || {
        if ep(id).rx_alive {
            drop_rx(id);
        }
        drop_tx(id);
    });
}

/// A client that is no endpoint.
fn raw_visit(n: u32) {
    let name = h().idents[0].clone();
    let bytes: Vec<Vec<u8>> = (0..n).map(|_| (0..pick(&[0usize, 1, 4, 12, 100])).map(|_| d(256) as u8).collect()).collect();
    let gap = pick(&[0, 1, 40]);
    user(|| unsafe {
        let fd = libc::socket(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return;
        }
        let a = raw_addr(&name);
        if libc::connect(fd, &a as *const _ as _, std::mem::size_of_val(&a) as _) == 0 {
            for b in &bytes {
                raw_send(fd, b, &[]);
                if gap > 0 {
                    let t = libc::timespec { tv_sec: 0, tv_nsec: gap * 1_000_000 };
                    libc::nanosleep(&t, std::ptr::null_mut());
                }
            }
        }
        libc::close(fd);
    });
}

/// sendmsg with descriptors; called in user mode
pub unsafe fn raw_send(fd: i32, b: &[u8], fds: &[i32]) -> isize {
    let mut iov = libc::iovec { iov_base: b.as_ptr() as _, iov_len: b.len() };
    let mut ctl = vec![0u64; (libc::CMSG_SPACE((fds.len() * 4) as u32) as usize).div_ceil(8).max(2)];
    let mut hd: libc::msghdr = std::mem::zeroed();
    hd.msg_iov = &mut iov;
    hd.msg_iovlen = 1;
    if !fds.is_empty() {
        hd.msg_control = ctl.as_mut_ptr() as _;
        hd.msg_controllen = libc::CMSG_SPACE((fds.len() * 4) as u32) as _;
        let c = libc::CMSG_FIRSTHDR(&hd);
        (*c).cmsg_len = libc::CMSG_LEN((fds.len() * 4) as u32) as _;
        (*c).cmsg_level = libc::SOL_SOCKET;
        (*c).cmsg_type = libc::SCM_RIGHTS;
        std::ptr::copy_nonoverlapping(fds.as_ptr(), libc::CMSG_DATA(c) as *mut i32, fds.len());
    }
    libc::sendmsg(fd, &hd, 0)
}

/// The bus dies while several threads of each endpoint use it.
pub fn rejoin_once() {
    init_h();
    environment(&Cfg { delay: 0.01, small_buf_pct: 30, ..BASE });
    // now and then one controller after another dies
    let series = d(6) == 1;
    let np = if series { 4 + d(4) } else { 2 + d(3) };
    let pc = proc_new("C");
    add_ep(spec(pc, 1));
    wait_join(0, 30);
    let procs: Vec<Pid> = (0..np).map(|i| proc_new(&format!("P{}", i))).collect();
    let mut closed = vec![];
    for (i, p) in procs.iter().enumerate() {
        let mut s = spec(*p, 1 | d(8) << 1);
        s.half = match d(6) {
            1 => 1,
            2 => 2,
            _ => 0,
        };
        if i == 0 {
            s.half = 0;
        }
        s.affinity = i == 0 || !chance(20);
        s.rx.timeout_ms = pick(&[0, 0, 50, 1000]);
        if s.half == 0 && chance(20) {
            s.rx.drop_after = 1 + d(3);
            closed.push(i);
        }
        if s.half != 2 {
            for _ in 0..1 + d(3) {
                let mut ops = gen_script(&Cfg { sends: if series { (8, 25) } else { (2, 8) }, big_pct: 3, attach_pct: 5, spread_ms: 5, ..BASE });
                ops.insert(0, Op::Gate(1));
                s.scripts.push(ops);
            }
        }
        add_ep(s);
    }
    for i in 1..=np as usize {
        wait_join(i, 30);
        wait_until(w().now + 30 * SEC, || ep(i).spec.half != 1 || ep(i).rx_drop_ret.is_some() || ep(i).join_err.is_some());
    }
    sleep_ms(20);
    let half: Vec<usize> = h().eps.iter().filter(|e| e.spec.rx.drop_after == 0).map(|e| e.id).collect();
    let before: Tables = tables(&half.iter().map(|i| ep(*i).spec.proc).collect::<Vec<_>>());
    set_gate(1);
    let mut done = vec![];
    let mut all = procs.clone();
    all.push(pc);
    for _ in 0..if series { 3 + d(3) } else { 1 + d(2) } {
        trigger(&all, Act::KillCtl, &mut done);
        if chance(50) {
            sleep_ms(d(3000) as u64);
        }
    }
    wait_scripts(150);
    settle(31_000);
    // traffic makes everybody notice and lets the controller prune
    probe(1);
    if chance(60) {
        // endpoints without receiver rejoin just now
        for e in h().eps.iter().filter(|e| e.joined() && e.alive() && e.tx.is_some()).map(|e| e.id).collect::<Vec<_>>() {
            let n = d(4);
            spawn_tx(e, (0..n).map(|_| Op::Send(SendSpec::simple(false, if chance(50) { Expr::T } else { Expr::Leaf(d(4)) }))).collect(), false);
        }
    }
    wait_scripts(60);
    sleep_ms(31_000);
    probe(1);
    wait_scripts(60);
    sleep_ms(4_000);
    // nobody rejoins any more: endpoints without receiver take nothing
    let ids: Vec<usize> = h().eps.iter().filter(|e| e.joined() && e.alive() && e.tx.is_some()).map(|e| e.id).collect();
    for i in ids {
        spawn_tx(i, vec![Op::Send(SendSpec::simple(false, Expr::T)), Op::Send(SendSpec::simple(false, Expr::Leaf(d(4))))], false);
    }
    wait_scripts(60);
    sleep_ms(3_000);
    let ctl = controller_of(0);
    let clients: Tables = before.into_iter().filter(|(p, _)| Some(*p) != ctl && !controllers_of(0).iter().any(|c| c.0 == *p)).collect();
    for i in &half {
        if h().eps[*i].alive() {
            let id = *i;
            on(ep(id).spec.proc, "drop", move || drop_held(id));
        }
    }
    sleep_ms(10);
    compare(&clients, "after the endpoints rejoined");
    oracle::history();
}

/// Endpoints of one process come and go while the controller it started serves the bus.
pub fn churn() {
    init_h();
    environment(&Cfg { delay: 0.01, small_buf_pct: 20, ..BASE });
    let np = 1 + d(3);
    let procs: Vec<Pid> = (0..np).map(|i| proc_new(&format!("P{}", i))).collect();
    // a stable endpoint, first or later
    let stable_first = chance(50);
    if stable_first {
        add_ep(spec(procs[d(np) as usize], 1));
        wait_join(0, 30);
    }
    let ndrv = 1 + d(2);
    let fin = Box::leak(Box::new(0u32)) as *mut u32;
    for k in 0..ndrv {
        let p = procs[d(np) as usize];
        let cycles = 1 + d(5);
        let lab = 1 | d(8) << 1;
        spawn(p, &format!("drv{}", k), move || {
            let mut open: Vec<usize> = vec![];
            for c in 0..cycles {
                let mut s = spec(p, if chance(50) { lab } else { d(16) });
                s.rx.timeout_ms = pick(&[20, 1, 200]);
                s.half = pick(&[0, 0, 0, 1, 2]);
                let id = add_ep_quiet(s);
                do_join(id);
                if ep(id).join_err.is_some() {
                    violation("call-error", &format!("join of ep{} failed: {:?}", id, ep(id).join_err));
                    continue;
                }
                open.push(id);
                let cc = Cfg { sends: (1, 4), big_pct: 3, ..BASE };
                for _ in 0..1 + d(3) {
                    let id = open[d(open.len() as u32) as usize];
                    match d(5) {
                        0 | 1 => {
                            if ep(id).tx.is_some() {
                                spawn_tx(id, gen_script(&cc), false);
                            }
                        }
                        2 => {
                            if ep(id).rx_alive {
                                drop_rx(id);
                            }
                        }
                        3 => {
                            if ep(id).tx.is_some() && chance(50) {
                                drop_tx(id);
                            }
                        }
                        _ => sleep_ms(1 + d(300) as u64),
                    }
                    if ep(id).tx.is_none() && !ep(id).rx_alive {
                        open.retain(|x| *x != id);
                        if open.is_empty() {
                            break;
                        }
                    }
                }
                let _ = c;
            }
            unsafe { *fin += 1 };
            on_event("driver done");
        });
        if !stable_first && k == 0 {
            sleep_ms(5);
        }
    }
    if !stable_first {
        let mut s = spec(procs[d(np) as usize], 1);
        s.start_ms = pick(&[0, 10, 200]);
        add_ep(s);
    }
    let mut s = spec(procs[d(np) as usize], 9);
    s.start_ms = pick(&[0, 50]);
    s.scripts.push(gen_script(&Cfg { sends: (2, 8), spread_ms: 100, ..BASE }));
    add_ep(s);
    wait_until(w().now + 200 * SEC, || unsafe { *fin } == ndrv);
    if unsafe { *fin } != ndrv {
        violation("call-hang", "a thread that joins and drops endpoints makes no progress");
    }
    wait_scripts(150);
    faults_off();
    sleep_ms(2_000);
    h().settled = Some(stamp());
    probe(1);
    wait_scripts(60);
    sleep_ms(3_000);
    oracle::history();
}
