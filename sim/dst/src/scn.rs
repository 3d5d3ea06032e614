//! The general bus workload, configured per property.
use crate::engine::*;
use crate::h::*;
use crate::oracle;
use crate::util::*;
use simk::*;

#[derive(Clone)]
pub struct Cfg {
    pub procs: (u32, u32),
    pub eps: (u32, u32),
    pub buses: u32,
    pub txs: (u32, u32),
    pub sends: (u32, u32),
    pub multi_pct: u32,
    pub ttl_pct: u32,
    pub kind_b_pct: u32,
    pub acc_pct: u32,
    pub expr_depth: u32,
    pub attach_pct: u32,
    pub max_attach: u32,
    pub big_pct: u32,
    /// messages that may be too large to be carried
    pub over_pct: u32,
    /// handles to regions are cloned by whoever sends or keeps them
    pub clones: u32,
    pub late_pct: u32,
    pub kill_ctl: u32,
    pub kill_ep: u32,
    pub drop_rx: u32,
    pub noaff_pct: u32,
    pub half_pct: u32,
    pub forks: bool,
    pub eintr: f64,
    pub delay: f64,
    pub spurious: f64,
    pub clock: f64,
    pub stall_pct: u32,
    pub small_buf_pct: u32,
    pub rx_timeout_pct: u32,
    pub slow_pct: u32,
    pub wide_labels: bool,
    pub replace: bool,
    pub late_joins: u32,
    pub errno: f64,
    pub errno_mask: u64,
    pub settle: bool,
    pub spread_ms: u32,
    pub probe_only_multi: bool,
    pub names: bool,
    pub errno_end: bool,
    pub fdlimit: bool,
    /// long pauses between messages
    pub idle: bool,
}

pub const BASE: Cfg = Cfg {
    procs: (1, 4),
    eps: (2, 5),
    buses: 1,
    txs: (0, 2),
    sends: (1, 6),
    multi_pct: 50,
    ttl_pct: 0,
    kind_b_pct: 0,
    acc_pct: 0,
    expr_depth: 1,
    attach_pct: 10,
    max_attach: 3,
    big_pct: 5,
    over_pct: 0,
    clones: 0,
    late_pct: 30,
    kill_ctl: 0,
    kill_ep: 0,
    drop_rx: 0,
    noaff_pct: 10,
    half_pct: 0,
    forks: false,
    eintr: 0.0,
    delay: 0.01,
    spurious: 0.01,
    clock: 0.05,
    stall_pct: 0,
    small_buf_pct: 25,
    rx_timeout_pct: 30,
    slow_pct: 20,
    wide_labels: true,
    replace: false,
    late_joins: 0,
    errno: 0.0,
    errno_mask: 0,
    settle: false,
    spread_ms: 20,
    probe_only_multi: false,
    names: false,
    errno_end: false,
    fdlimit: false,
    idle: false,
};

fn range(r: (u32, u32)) -> u32 {
    r.0 + d(r.1 - r.0 + 1)
}

/// From now on calls fail.
pub fn errno_on(p: f64, mask: u64) {
    let wd = w();
    wd.fault_prob[F_ERRNO as usize] = prob(p * [1.0, 3.0, 0.3][d(3) as usize]);
    // a random part of the calls that may fail
    wd.errno_mask = mask & (((d(1 << 16) as u64) << 16 | d(1 << 16) as u64) | if chance(30) { !0 } else { 0 });
    if wd.errno_mask == 0 {
        wd.errno_mask = mask;
    }
}

/// Environment knobs of the run: fault probabilities (swarm-chosen), buffer sizes.
pub fn environment(c: &Cfg) {
    let wd = w();
    let scale = [0.0, 1.0, 4.0, 0.2][d(4) as usize];
    wd.fault_prob[F_DELAY as usize] = prob((c.delay * scale).min(0.2));
    wd.delay_at = d(3);
    wd.fault_prob[F_SPURIOUS as usize] = prob((c.spurious * scale).min(0.2));
    wd.fault_prob[F_CLOCK as usize] = prob((c.clock * scale).min(0.5));
    if c.eintr > 0.0 {
        wd.fault_prob[F_EINTR as usize] = prob(c.eintr * [1.0, 3.0, 0.3][d(3) as usize]);
    }
    if c.errno > 0.0 {
        errno_on(c.errno, c.errno_mask);
    }
    if c.fdlimit {
        // no errors drawn, but errors expected
        wd.errno_mask = !0;
    }
    wd.kern.sndcap = if chance(c.small_buf_pct) { pick(&[1, 4096, 16384]) } else { 0 };
}

/// A socket address cannot hold this identifier.
pub fn odd_name(s: &str) -> bool {
    s.len() > 106 || s.contains('\0')
}
/// Identifiers that resemble one another: same length, one a prefix of the other, differing late, early or in case.
fn names() {
    // names that a socket address cannot hold are refused, or kept apart all the same
    let n = if chance(15) { pick(&[107usize, 108, 109, 120, 300]) } else { pick(&[8usize, 106, 105, 64, 54, 53, 52, 32, 30, 16, 100]) };
    let base: String = (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
    let base = match d(6) {
        // names that look like hierarchies, paths, abstract names, words
        1 => base.chars().enumerate().map(|(i, x)| if i % 8 == 4 { '.' } else { x }).collect(),
        2 => base.chars().enumerate().map(|(i, x)| if i % 6 == 3 { '/' } else { x }).collect(),
        3 => base.chars().enumerate().map(|(i, x)| if i % 9 == 4 { ' ' } else { x }).collect(),
        _ => base,
    };
    let alter = |at: usize, c: char| -> String { base.chars().enumerate().map(|(i, x)| if i == at { c } else { x }).collect() };
    let mut v: Vec<String> = vec![base.clone()];
    while v.len() < 3 {
        let x = match d(15) {
            14 if n > 8 && unsafe { !C_API } => format!("{}\0{}", &base[..n / 2], &base[n / 2..]),
            7 => format!("x.{}", base),
            8 => format!("{}.x", base),
            9 => format!("{}/{}", base, &base[..3]),
            10 => format!("{} ", base),
            11 => format!(" {}", base),
            12 => format!("{}\u{e9}", &base[..n - 2]),
            13 => format!("{}{}", base, base),
            0 => alter(n - 1, '!'),
            1 => alter(n - 1 - d(n as u32 / 2) as usize, '_'),
            2 => alter(d(n as u32) as usize, 'Z'),
            3 => base[..n - 1 - d(3) as usize].to_string(),
            4 => base.to_uppercase(),
            5 => alter(0, '#'),
            _ => base[1..].to_string(),
        };
        if !v.contains(&x) {
            v.push(x);
        }
    }
    h().idents = v;
}

pub fn gen_send(c: &Cfg) -> SendSpec {
    let multi = chance(c.multi_pct);
    let expr = if c.wide_labels && d(3) != 1 {
        match d(3) {
            0 => Expr::Leaf(0),
            1 => Expr::T,
            _ => Expr::gen(c.expr_depth),
        }
    } else {
        Expr::gen(c.expr_depth)
    };
    let mut expr = if c.expr_depth >= 3 && d(60) == 1 { expr.deeper(pick(&[20, 60, 150, 400])) } else { expr };
    let ttl_ms = if chance(c.ttl_pct) { pick(&[50, 500, 1000, 5000, 20000]) } else { 0 };
    let kind = chance(c.kind_b_pct) as u8;
    let len = if chance(c.big_pct) {
        pick(&[1000usize, 9000, 40000, 100_000, 120_000, 65_530, 32_760]) + d(12) as usize
    } else if d(4) == 1 {
        d(600) as usize
    } else {
        pick(&[8, 0, 1, 3, 64, 257])
    };
    let (mut nobj, mut nreg) = (0, 0);
    if chance(c.attach_pct) {
        nobj = d(c.max_attach + 1) as usize;
        nreg = d(c.max_attach + 1 - nobj as u32) as usize;
    }
    let reg_size = if d(6) == 1 { d(20_000) as usize } else { pick(&[64usize, 0, 1, 4084, 4085, 9000]) };
    let mut len = len;
    if chance(c.over_pct) {
        match d(5) {
            4 => expr = expr.deeper(pick(&[600, 513, 1500])),
            0 | 1 => len = pick(&[140_000usize, 131_072, 131_000, 130_900, 130_800, 200_000, 500_000]),
            2 => nobj = pick(&[254usize, 253, 255, 300, 252]) - nreg,
            _ => {
                len = pick(&[140_000usize, 130_000, 300_000]);
                nobj += pick(&[1usize, 253, 20]);
            }
        }
    }
    SendSpec { multi, expr, ttl_ms, kind, len, nobj, nreg, reg_size }
}

pub fn gen_script(c: &Cfg) -> Vec<Op> {
    let n = range(c.sends);
    let mut v = vec![];
    let mut idle = if c.idle { 1 + d(2) as u64 } else { 0 };
    for _ in 0..n {
        if idle > 0 && d(3) == 1 {
            v.push(Op::Sleep(pick(&[31_000, 35_000, 62_000]) / idle));
            idle = 0;
        }
        match d(6) {
            1 => v.push(Op::Sleep(1 + d(c.spread_ms) as u64)),
            2 => v.push(Op::Sleep(pick(&[100, 1, 500]))),
            _ => {}
        }
        v.push(Op::Send(gen_send(c)));
    }
    v
}

/// Draws processes and endpoints. Returns the processes.
pub fn populate(c: &Cfg) -> Vec<Pid> {
    let np = range(c.procs);
    let procs: Vec<Pid> = (0..np).map(|i| proc_new(&format!("P{}", i))).collect();
    let ne = range(c.eps);
    let mut any_aff = vec![false; c.buses as usize];
    for i in 0..ne {
        let proc = if i < np { procs[i as usize] } else { procs[d(np) as usize] };
        let mut s = spec(proc, 0);
        s.label = 1 | match d(4) {
            0 => 0,
            1 => 2,
            _ => gen_mask(),
        };
        if chance(15) {
            s.label &= !1;
        }
        s.bus = if i < c.buses { i as usize } else { d(c.buses) as usize };
        s.affinity = !chance(c.noaff_pct);
        if i >= ne - c.buses.min(ne) && !any_aff[s.bus] {
            s.affinity = true;
        }
        any_aff[s.bus] |= s.affinity;
        s.acc = if chance(c.acc_pct) { pick(&[Acc::A, Acc::B]) } else { Acc::Any };
        s.start_ms = if chance(c.late_pct) { pick(&[1u64, 5, 30, 200, 700]) } else { 0 };
        if chance(c.rx_timeout_pct) {
            s.rx.timeout_ms = pick(&[1000, 1, 20, 300]);
        }
        if chance(c.slow_pct) {
            s.rx.slow_pct = pick(&[10, 50, 100]);
            s.rx.slow_ms = pick(&[2, 20, 60]);
        }
        s.rx.keep = chance(20);
        if c.drop_rx > 0 && chance(40) {
            if chance(50) {
                s.rx.drop_after = 1 + d(6);
            } else {
                s.rx.drop_gate = 1 + d(c.drop_rx);
                s.rx.timeout_ms = pick(&[20, 1, 300]);
            }
        }
        if chance(c.half_pct) {
            s.half = 1 + d(2) as u8;
        }
        let nt = range(c.txs);
        for _ in 0..nt {
            s.scripts.push(gen_script(c));
        }
        add_ep(s);
    }
    // an affinity endpoint must exist on each bus for joins to succeed
    for b in 0..c.buses as usize {
        if !h().eps.iter().any(|e| e.spec.bus == b && e.spec.affinity) {
            if let Some(e) = h().eps.iter_mut().find(|e| e.spec.bus == b) {
                e.spec.affinity = true;
            }
        }
    }
    procs
}

#[derive(Clone, Copy, Debug)]
pub enum Act {
    KillCtl,
    KillEp,
    Join,
    Stall,
    DropRx,
    Fork,
    FdLimit,
}

/// When an action happens: at a recorded event or some scheduling points after it.
pub fn trigger(procs: &[Pid], act: Act, acts_done: &mut Vec<(Act, Pid)>) {
    let base = w().seq;
    let at = base + 1 + d(60) as u64;
    wait_until(w().now + 2 * SEC, || w().seq >= at);
    let alive: Vec<Pid> = procs.iter().copied().filter(|p| w().procs[*p].alive).collect();
    if alive.is_empty() {
        return;
    }
    let nbus = h().eps.iter().map(|e| e.spec.bus).max().unwrap_or(0) + 1;
    let bus = if nbus > 1 { d(nbus as u32) as usize } else { 0 };
    let ctl = controller_of(bus);
    let arm = |p: Pid| {
        let (mask, n) = match d(4) {
            0 => (0, 0),
            1 => (1 << Yk::Sys as u32, d(40) as u64),
            2 => (1 << Yk::Sys as u32, d(400) as u64),
            _ => (0b11, d(300) as u64),
        };
        if mask == 0 {
            kill(p);
        } else {
            arm_kill(p, mask, n);
            wait_until(w().now + SEC, || !w().procs[p].alive);
            if w().procs[p].alive {
                w().procs[p].kill_after = None;
                kill(p);
            }
        }
    };
    // somebody who can start the controller again must survive on every bus
    let anchor = |p: Pid| {
        for b in 0..nbus {
            let on_bus = |e: &Ep| e.spec.bus == b;
            if !h().eps.iter().any(|e| on_bus(e) && e.spec.proc == p) {
                continue;
            }
            let steady = |e: &Ep| on_bus(e) && e.spec.proc != p && e.alive() && e.spec.affinity && e.spec.half != 1 && e.spec.rx.drop_after == 0 && e.spec.rx.drop_gate == 0 && e.join_err.is_none() && !e.stop_rx;
            if !h().eps.iter().any(steady) {
                let old = h().eps.iter().find(|e| on_bus(e) && e.spec.proc == p).unwrap();
                let mut s = spec(proc_new(&format!("A{}", w().procs.len())), 1 | d(8) << 1);
                s.bus = b;
                s.token = old.spec.token;
                s.api = old.spec.api;
                if chance(50) {
                    s.start_ms = d(3000) as u64;
                }
                add_ep(s);
            }
        }
    };
    match act {
        Act::KillCtl => {
            if let Some(p) = ctl {
                if alive.contains(&p) {
                    anchor(p);
                    stat(U_CTLKILL, 1);
                    arm(p);
                    acts_done.push((act, p));
                }
            }
        }
        Act::KillEp => {
            let c: Vec<Pid> = alive.iter().copied().filter(|p| (0..nbus).all(|b| Some(*p) != controller_of(b))).collect();
            if (0..nbus).all(|b| controller_of(b).is_some()) && !c.is_empty() {
                let p = c[d(c.len() as u32) as usize];
                anchor(p);
                stat(U_EPKILL, 1);
                let again: Vec<(usize, u32)> = h().eps.iter().filter(|e| e.spec.proc == p).map(|e| (e.spec.bus, e.spec.label)).collect();
                arm(p);
                acts_done.push((act, p));
                if chance(60) {
                    // a replacement with the same label
                    let q = proc_new(&format!("R{}", w().procs.len()));
                    for (bus, label) in again {
                        let mut s = spec(q, label);
                        s.bus = bus;
                        s.scripts.push(vec![Op::Send(SendSpec::simple(d(2) == 1, Expr::T))]);
                        add_ep(s);
                    }
                }
            }
        }
        Act::Stall => {
            let p = alive[d(alive.len() as u32) as usize];
            let ms = pick(&[10u64, 100, 400]);
            arm_stall(p, 1, d(50) as u64, ms * MS);
        }
        Act::FdLimit => {
            let p = alive[d(alive.len() as u32) as usize];
            let used = w().procs[p].fds.keys().max().map(|m| m + 1).unwrap_or(3);
            stat(U_FDLIMIT, 1);
            w().procs[p].fdlimit = (used - d(3) as i32 + d(6) as i32).max(3);
            sleep_ms(pick(&[1, 10, 30, 3]));
            w().procs[p].fdlimit = 1 << 20;
        }
        Act::DropRx => {
            set_gate(h().gate + 1);
        }
        Act::Fork => {
            let p = alive[d(alive.len() as u32) as usize];
            stat(U_FORKS, 1);
            fork_exec(p, "child", d(pick(&[6, 6, 60, 600])));
            acts_done.push((act, p));
        }
        Act::Join => {
            // a new process joins
            let old = &h().eps[d(h().eps.len() as u32) as usize].spec;
            let (bus, label) = (old.bus, old.label);
            let p = proc_new(&format!("L{}", w().procs.len()));
            let mut s = spec(p, label);
            s.bus = bus;
            s.affinity = !chance(20);
            s.scripts.push(vec![Op::Sleep(1 + d(30) as u64), Op::Send(SendSpec::simple(d(2) == 1, Expr::T))]);
            add_ep(s);
        }
    }
}

/// Now and then many endpoints, many messages, or long pauses.
fn scale(c: &Cfg) -> Cfg {
    let mut c = c.clone();
    match d(32) {
        1 => {
            c.eps = (8 + d(pick(&[9, 20])), 0);
            c.eps.1 = c.eps.0;
            c.procs.1 = c.procs.1.max(2 + d(6));
            c.txs.1 = c.txs.1.min(1 + (c.txs.0 > 1) as u32);
            c.sends = (c.sends.0.min(2), c.sends.1.min(3));
            c.max_attach = c.max_attach.min(12);
        }
        2 => {
            let n = pick(&[40, 80, 150, 20]);
            c.sends = (n / 2, n);
            c.eps.1 = c.eps.1.min(4).max(c.eps.0);
            c.slow_pct = 0;
            c.big_pct /= 3;
            c.over_pct /= 2;
            c.attach_pct /= 4;
            c.max_attach = c.max_attach.min(6);
            c.spread_ms = 1;
        }
        3 => c.idle = true,
        4 if c.kill_ctl > 0 && c.buses == 1 => {
            c.kill_ctl = 4 + d(3);
            c.procs = (4, 8);
            c.eps = (4, 8);
            c.sends.1 = c.sends.1.max(6);
        }
        _ => {}
    }
    c
}

pub fn run_bus(c: &Cfg) {
    init_h();
    let c = &scale(c);
    h().keep_clones = c.clones;
    environment(c);
    if c.names {
        names();
    }
    let procs = populate(c);
    let np = procs.len() as u32;
    note(format!("{} processes, endpoints {:?}", np, h().eps.iter().map(|e| (e.spec.proc, e.spec.label, e.spec.affinity, e.spec.scripts.iter().map(|s| s.len()).collect::<Vec<_>>())).collect::<Vec<_>>()));
    let mut acts = vec![];
    for _ in 0..c.kill_ctl {
        acts.push(Act::KillCtl);
    }
    for _ in 0..c.kill_ep {
        acts.push(Act::KillEp);
    }
    for _ in 0..c.late_joins {
        acts.push(Act::Join);
    }
    if chance(c.stall_pct) {
        acts.push(Act::Stall);
    }
    for _ in 0..c.drop_rx {
        acts.push(Act::DropRx);
    }
    if c.forks {
        for _ in 0..1 + d(2) {
            acts.push(Act::Fork);
        }
    }
    if c.fdlimit {
        for _ in 0..1 + d(3) {
            acts.push(Act::FdLimit);
        }
    }
    // shuffle
    for i in (1..acts.len()).rev() {
        let j = i - d(i as u32 + 1) as usize;
        acts.swap(i, j);
    }
    let mut done = vec![];
    for a in acts {
        trigger(&procs, a, &mut done);
    }
    finish(c);
}

pub fn finish(c: &Cfg) {
    wait_scripts(150);
    if c.settle {
        settle(31_000);
        if c.errno_end {
            // whoever failed to join, and newcomers in every process, join now
            let mut again: Vec<EpSpec> = h().eps.iter().filter(|e| e.alive() && (e.join_err.is_some() || chance(40))).map(|e| e.spec.clone()).collect();
            for s in again.drain(..) {
                let mut s = EpSpec { scripts: vec![], rx: RxCfg::default(), start_ms: 0, half: 0, affinity: true, ..s };
                if chance(50) {
                    s.scripts.push(vec![Op::Send(SendSpec::simple(true, Expr::T))]);
                }
                add_ep(s);
            }
            wait_scripts(30);
            for e in h().eps.iter() {
                if odd_name(&h().idents[e.spec.bus]) {
                    continue;
                }
                if let (Some(x), true) = (&e.join_err, h().settled.is_some_and(|s| e.join_inv.is_some_and(|i| i.seq > s.seq))) {
                    violation("call-error", &format!("join of ep{} failed with {:?} although no call failed in the last 30 s", e.id, x));
                }
            }
        }
        probe(1);
        if !c.probe_only_multi {
            for e in h().eps.iter() {
                if e.joined() && e.alive() && e.tx.is_some() && chance(50) {
                    let s = gen_send(c);
                    spawn_tx(e.id, vec![Op::Send(s)], false);
                }
            }
        }
        wait_scripts(30);
    }
    faults_off();
    sleep_ms(5_000);
    oracle::history();
}

// ---- scenarios -----------------------------------------------------------------------------------------------------

pub fn unicast() {
    run_bus(&Cfg { multi_pct: 10, ..BASE });
}
pub fn multicast() {
    run_bus(&Cfg { multi_pct: 90, ..BASE });
}
pub fn unicast_kill() {
    run_bus(&Cfg { multi_pct: 10, procs: (2, 4), kill_ctl: d(3), kill_ep: d(2), drop_rx: d(2), ttl_pct: 15, settle: true, ..BASE });
}
pub fn multicast_kill() {
    run_bus(&Cfg { multi_pct: 90, procs: (2, 4), kill_ctl: d(3), kill_ep: d(2), drop_rx: d(2), ttl_pct: 15, settle: true, ..BASE });
}
pub fn selection() {
    wide(chance(50));
    run_bus(&Cfg { expr_depth: pick(&[3, 3, 9]), kind_b_pct: 40, acc_pct: 45, ttl_pct: 25, wide_labels: d(2) == 0, attach_pct: 5, late_pct: 60, spread_ms: 100, ..BASE });
}
pub fn selection_churn() {
    wide(chance(50));
    run_bus(&Cfg { expr_depth: 3, kind_b_pct: 30, acc_pct: 40, ttl_pct: 40, wide_labels: false, attach_pct: 5, kill_ctl: d(2), drop_rx: 1, late_joins: 2, late_pct: 60, settle: true, ..BASE });
}
pub fn ordering() {
    run_bus(&Cfg { sends: (3, 14), txs: (1, 2), ttl_pct: 25, attach_pct: 15, kind_b_pct: 10, small_buf_pct: 50, spread_ms: 4, expr_depth: 1, ..BASE });
}
pub fn ordering_failover() {
    run_bus(&Cfg { sends: (3, 14), txs: (1, 2), procs: (2, 4), ttl_pct: 25, kill_ctl: 1 + d(2), late_joins: d(2), noaff_pct: 0, settle: true, ..BASE });
}
pub fn attachments() {
    run_bus(&Cfg { eps: (2, 4), sends: (1, 5), attach_pct: 85, max_attach: pick(&[3, 8, 30, 253]), clones: pick(&[0, 0, 40]), big_pct: 30, small_buf_pct: 15, ttl_pct: 20, drop_rx: d(2), ..BASE });
}
pub fn attachments_failover() {
    run_bus(&Cfg { procs: (2, 4), eps: (2, 4), sends: (1, 5), attach_pct: 85, max_attach: pick(&[3, 8, 30]), big_pct: 20, ttl_pct: 20, kill_ctl: d(2), kill_ep: d(2), noaff_pct: 0, settle: true, ..BASE });
}
pub fn failover() {
    run_bus(&Cfg { procs: (2, 5), eps: (2, 6), kill_ctl: 1 + d(3), late_joins: d(3), half_pct: 10, attach_pct: 5, ttl_pct: 10, settle: true, noaff_pct: 20, spread_ms: 60, ..BASE });
}
pub fn buses() {
    let n = 2 + d(2);
    run_bus(&Cfg { buses: n, names: chance(50), procs: (1, 4), eps: (n + 1, 7), sends: (1, 4), multi_pct: 60, ttl_pct: 10, attach_pct: 5, ..BASE });
}
pub fn buses_failover() {
    let n = 2 + d(2);
    run_bus(&Cfg { buses: n, names: chance(50), procs: (2, 5), eps: (n + 2, 7), sends: (1, 4), multi_pct: 60, kill_ctl: 1 + d(2), late_joins: d(2), settle: true, attach_pct: 5, ..BASE });
}
pub fn loss() {
    run_bus(&Cfg { procs: (2, 5), eps: (3, 6), kill_ep: 1 + d(2), drop_rx: d(3), late_joins: d(2), sends: (2, 9), half_pct: 10, spread_ms: 60, small_buf_pct: 40, settle: chance(30), probe_only_multi: true, ..BASE });
}
pub fn signals() {
    run_bus(&Cfg { eintr: pick(&[0.01, 0.05, 0.2]), small_buf_pct: 60, big_pct: 15, attach_pct: 20, rx_timeout_pct: 50, delay: 0.0, sends: (1, 8), ..BASE });
}
pub fn signals_failover() {
    run_bus(&Cfg { eintr: pick(&[0.01, 0.05, 0.2]), procs: (2, 4), small_buf_pct: 40, kill_ctl: 1, delay: 0.0, settle: true, noaff_pct: 0, sends: (1, 8), ..BASE });
}
pub fn children() {
    run_bus(&Cfg { procs: (2, 4), eps: (2, 5), forks: true, clones: pick(&[0, 50, 100]), kill_ctl: 1 + d(2), kill_ep: d(2), attach_pct: pick(&[25, 60]), settle: true, noaff_pct: 0, ..BASE });
    // children run no code of the bus: whatever they still hold they inherited
    children_hold_nothing();
}
pub fn children_hold_nothing() {
    for p in w().procs.iter() {
        if p.child_of.is_some() && p.reaped_seq != 0 && !p.fds.is_empty() {
            let v: Vec<&str> = p.fds.values().map(|x| kern::f(x.0).tag).collect();
            violation("inherit", &format!("a child of process {} still holds {:?} after exec", p.child_of.unwrap(), v));
        }
    }
}
/// every system call that has an error path
const ALL_CALLS: u64 = !0;
pub fn exhaustion() {
    run_bus(&Cfg { errno: pick(&[0.003, 0.01, 0.03]), errno_mask: ALL_CALLS, errno_end: true, procs: (1, 4), eps: (2, 5), sends: (1, 7), attach_pct: 30, max_attach: pick(&[3, 20]), noaff_pct: 10, ttl_pct: 10, spread_ms: 60, settle: true, ..BASE });
}
pub fn exhaustion_kill() {
    run_bus(&Cfg { errno: pick(&[0.003, 0.01, 0.03]), errno_mask: ALL_CALLS, errno_end: true, procs: (2, 4), eps: (2, 5), sends: (1, 6), kill_ctl: d(2), kill_ep: d(2), drop_rx: d(2), attach_pct: 20, noaff_pct: 0, settle: true, ..BASE });
}
/// single processes run out of descriptors for a while
pub fn exhaustion_fds() {
    run_bus(&Cfg { fdlimit: true, errno_end: true, procs: (1, 4), eps: (2, 5), sends: (1, 7), attach_pct: 50, max_attach: pick(&[3, 20, 100]), noaff_pct: 10, ttl_pct: 10, late_joins: d(3), spread_ms: 60, settle: true, ..BASE });
}

pub fn first_joins() {
    h_joins(&Cfg { procs: (2, 6), eps: (2, 7), late_pct: 0, kill_ctl: 0, noaff_pct: 25, sends: (0, 2), txs: (0, 1), settle: chance(50), delay: 0.03, ..BASE });
}
fn h_joins(c: &Cfg) {
    run_bus(c);
    // all of them are in soon after the bus exists, unless threads were delayed
    if w().fault_prob[F_DELAY as usize] != 0 {
        return;
    }
    let Some(first) = h().eps.iter().filter(|e| e.joined()).filter_map(|e| e.join_ret).map(|s| s.t).min() else { return };
    for e in h().eps.iter().filter(|e| e.joined()) {
        let from = e.join_inv.unwrap().t.max(first);
        if e.join_ret.unwrap().t > from + 5 * SEC {
            violation("join-slow", &format!("ep{} joined only {} ms after the bus existed", e.id, (e.join_ret.unwrap().t - from) / MS));
        }
    }
}
pub fn first_joins_kill() {
    run_bus(&Cfg { procs: (3, 6), eps: (3, 7), late_pct: 0, kill_ctl: 1, kill_ep: 0, noaff_pct: 25, sends: (0, 2), txs: (0, 1), settle: true, delay: 0.03, ..BASE });
}
