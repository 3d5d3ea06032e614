//! Runs, workers, search, minimisation, replay files, evidence.
use serde::{Deserialize, Serialize};
use simk::shm::*;
use simk::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::Instant;

pub type Scn = fn();

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    /// (name, scenario, weight)
    pub scns: &'static [(&'static str, Scn, u32)],
    /// oracle classes that decide this property
    pub classes: &'static [&'static str],
    /// the delivery classes belong to it as well
    pub delivery: bool,
    pub rule: &'static str,
    pub max_steps: u64,
}

/// Violations that no property tolerates.
pub const UNIVERSAL: &[&str] = &["panic", "deadlock", "no-progress", "crash", "spin", "bad-close", "bad-munmap", "heap"];

pub const DELIVERY: &[&str] = &["uni-dup", "uni-lost", "multi-dup", "multi-lost", "probe-lost", "call-error", "call-hang"];

/// DST_ALL: every class ends a run (for triage)
pub static mut ALL: bool = false;
pub static mut PROP: Option<&'static Prop> = None;
pub fn prop() -> &'static Prop {
    unsafe { PROP.unwrap() }
}
pub fn is(id: &str) -> bool {
    prop().id == id
}
pub fn counts(class: &str) -> bool {
    prop().classes.iter().any(|c| *c == class) || (prop().delivery && DELIVERY.contains(&class)) || UNIVERSAL.iter().any(|c| class.starts_with(c))
}

/// Oracle verdict: ends the run if the class belongs to the property being decided, is counted otherwise.
pub fn violation(class: &str, msg: &str) {
    if counts(class) || unsafe { ALL } {
        fail(class, msg);
    }
    stat(U_OTHER, 1);
    if w().trace {
        trace(&format!("(not this property) {}: {}", class, msg));
    }
}

macro_rules! ustats { ($($n:ident = $v:expr, $s:expr;)*) => { $(#[allow(dead_code)] pub const $n: usize = S_USER + $v;)* pub const UNAMES: &[&str] = &[$($s),*]; } }
ustats! {
    U_SENDS = 0, "messages sent"; U_RECVS = 1, "messages received"; U_JOINS = 2, "joins"; U_JOINERR = 3, "joins refused";
    U_CTLKILL = 4, "controller processes killed"; U_EPKILL = 5, "ordinary processes killed"; U_RXDROP = 6, "receivers dropped";
    U_PROBES = 7, "probe multicasts after settling"; U_DEF_UNI = 8, "unicasts with a definite recipient set";
    U_DEF_MULTI = 9, "multicast deliveries required"; U_TTL = 10, "ttl messages"; U_OTHER = 11, "observations of other properties";
    U_REGIONS = 12, "region handles"; U_OBJECTS = 13, "objects attached"; U_TIMEOUTS = 14, "receive timeouts checked";
    U_GARBAGE = 15, "garbage datagrams"; U_FORKS = 16, "children forked"; U_FDCHECK = 17, "descriptor tables compared";
    U_REFCHECK = 18, "reference counts compared"; U_ALLOCS = 19, "registry allocations"; U_ORDER = 20, "ordered pairs checked";
    U_ABORTED = 21, "runs without a verdict"; U_MISMATCH = 22, "token or version refusals"; U_REJOIN = 23, "controller failovers";
    U_FREES = 24, "free callbacks"; U_FFI = 25, "C interface calls"; U_JS = 26, "(unused)"; U_DECODE = 27, "undecodable receptions";
    U_FOREIGN = 28, "foreign messages received"; U_TTL_MUST = 29, "ttl deliveries required"; U_TTL_MUSTNOT = 30, "late joiners that must not receive";
    U_RECV_TIMES = 31, "receive and join durations checked"; U_REUSE = 32, "regions reused"; U_FDLIMIT = 33, "times a process ran out of descriptors"; U_PROMISES = 34, "promises settled";
    U_JSCALLS = 35, "callbacks run by the JavaScript loop"; U_WINDOW = 36, "windows mapped"; U_REFUSED = 37, "messages refused as too large"; U_CONFORM = 38, "system calls compared with the kernel"; U_OUTSIDE = 39, "windows refused";
}

#[derive(Serialize, Deserialize, Clone, Default)]
pub struct Case {
    pub property: String,
    pub scenario: String,
    pub seed: u64,
    pub class: String,
    pub message: String,
    pub hash: u64,
    pub plan: Vec<u32>,
    /// (thread, decision number, thread chosen); every other decision is the default one
    pub sched: Vec<(u32, u32, u32)>,
    /// (kind, thread, occurrence, value)
    pub faults: Vec<(u32, u32, u32, u32)>,
    #[serde(default)]
    pub trace: Vec<String>,
}

#[derive(Clone)]
pub struct Outcome {
    pub status: u32,
    pub class: String,
    pub msg: String,
    pub hash: u64,
    pub steps: u64,
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if !is_sim_thread() {
            eprintln!("panic outside a run: {} at {}", m, loc);
            return;
        }
        let _g = kenter();
        let own = loc.starts_with("dst/") || loc.starts_with("simk/") || loc.contains("/verif/sim/");
        if own {
            end(3, "harness:panic", &format!("{} at {}", m, loc));
        }
        end(2, "panic", &format!("'{}' at {}", m, loc));
    }));
}

pub struct RunIn<'a> {
    pub scn: usize,
    pub seed: u64,
    pub plan: Option<&'a [u32]>,
    pub sched: Option<&'a [SchedRec]>,
    pub faults: Option<&'a [FaultRec]>,
    pub trace_fd: i32,
}

/// One run in a forked child; the result is left in `shm`.
pub fn run_one(r: &RunIn, shm: &'static mut Shm, cov: *mut u8) -> Outcome {
    let sp = shm as *mut Shm;
    // a run somebody else ended, for example because memory was short, says nothing
    for _ in 0..3 {
        let o = run_once(r, unsafe { &mut *sp }, cov);
        if o.status != 3 || !o.class.starts_with("harness:killed") {
            return o;
        }
        std::thread::sleep(std::time::Duration::from_secs(2));
    }
    run_once(r, unsafe { &mut *sp }, cov)
}

fn run_once(r: &RunIn, shm: &'static mut Shm, cov: *mut u8) -> Outcome {
    shm.reset();
    let sp = shm as *mut Shm;
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        // No futex table of its own: while the kernel enlarges that for new threads, it keeps the memory of processes
        // that have long ended
        unsafe { libc::prctl(78, 1, 0, 0, 0) };
        let replay = Replay {
            plan: r.plan.map(|p| p.to_vec()),
            sched: r.sched.map(|v| v.iter().map(|x| (key2(x.tid, x.count), x.target)).collect()),
            faults: r.faults.map(|v| v.iter().map(|x| (key3(x.kind, x.tid, x.count), x.value)).collect()),
        };
        install_hook();
        let p = prop();
        start(
            RunCfg { seed: r.seed, replay, trace: r.trace_fd >= 0, trace_fd: r.trace_fd, max_steps: p.max_steps },
            unsafe { &mut *sp },
            cov,
        );
        (p.scns[r.scn].1)();
        finish_ok();
    }
    let mut st = 0;
    unsafe {
        libc::waitpid(pid, &mut st, 0);
    }
    let s = unsafe { &mut *sp };
    if s.status == 0 {
        if st & 0x7f != 0 && st & 0x7f != libc::SIGKILL {
            s.set(2, "crash:died", &format!("the process of the run was ended by signal {} (stack overflow or corrupted memory)", st & 0x7f));
        } else {
            s.set(3, if st & 0x7f == libc::SIGKILL { "harness:killed" } else { "harness:died" }, &format!("run died without a report, wait status {:#x}", st));
        }
    }
    Outcome { status: s.status, class: s.class(), msg: s.msg(), hash: s.hash, steps: s.steps }
}

pub fn new_shm() -> &'static mut Shm {
    unsafe { &mut *(map_shared(std::mem::size_of::<Shm>()) as *mut Shm) }
}

pub fn pick_scn(p: &Prop, seed: u64) -> usize {
    let t: u32 = p.scns.iter().map(|s| s.2).sum();
    let mut x = (mix(seed, 0x5c3) % t as u64) as u32;
    for (i, s) in p.scns.iter().enumerate() {
        if x < s.2 {
            return i;
        }
        x -= s.2;
    }
    0
}

const MAX_SHAPES: usize = 1 << 20;
#[repr(C)]
struct WorkerOut {
    runs: u64,
    steps: u64,
    switches: u64,
    sim_ns: u64,
    stop: u32,
    found: u32,
    found_seed: u64,
    found_scn: u64,
    stats: [u64; NSTAT],
    scn_runs: [u64; 32],
    nshapes: u64,
    nsamples: u32,
    sample_len: [u32; 4],
    samples: [[u8; 4096]; 4],
    known: [u64; 32],
    maxsteps: u64,
    maxseed: u64,
    shapes: [u64; MAX_SHAPES],
}

#[derive(Deserialize, Clone)]
pub struct Known {
    pub property: String,
    pub class: String,
    /// all of these must occur in the violation message
    pub contains: Vec<String>,
    pub what: String,
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn load_known(id: &str) -> Vec<Known> {
    let p = format!("{}/known_findings.jsonl", verif_dir());
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    s.lines()
        .filter_map(|l| serde_json::from_str::<Known>(l).ok())
        .filter(|k| k.property == id)
        .collect()
}
fn known_of(k: &[Known], class: &str, msg: &str) -> Option<usize> {
    k.iter().position(|k| k.class == class && k.contains.iter().all(|c| msg.contains(c.as_str())))
}

pub fn seed_of(base: u64, id: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(mix(base, h), i)
}

pub struct CheckCfg {
    pub tier: String,
    pub seed: u64,
    pub secs: f64,
    pub workers: usize,
    pub max_runs: u64,
}

pub fn check(p: &'static Prop, c: &CheckCfg) -> i32 {
    unsafe { PROP = Some(p) };
    let t0 = Instant::now();
    let known = load_known(p.id);
    let nw = c.workers;
    let mut outs: Vec<*mut WorkerOut> = (0..nw).map(|_| map_shared(std::mem::size_of::<WorkerOut>()) as *mut WorkerOut).collect();
    let covs: Vec<*mut u8> = (0..nw).map(|_| map_shared(COV_BITS / 8)).collect();
    let mut shms: Vec<*mut Shm> = (0..nw).map(|_| new_shm() as *mut Shm).collect();
    let mut pids = vec![];
    for wi in 0..nw {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                let ncpu = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
                libc::CPU_SET(wi % ncpu, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                worker(p, c, wi, nw, t0, &mut *(outs[wi]), shms[wi], covs[wi], &known);
                libc::_exit(0);
            }
        }
        pids.push(pid);
    }
    // first violation stops everybody
    let mut found: Option<usize> = None;
    let mut left = nw;
    while left > 0 {
        let mut st = 0;
        let pid = unsafe { libc::waitpid(-1, &mut st, 0) };
        if let Some(i) = pids.iter().position(|x| *x == pid) {
            left -= 1;
            if unsafe { (*outs[i]).found } != 0 && found.is_none() {
                found = Some(i);
                for o in &outs {
                    unsafe { std::ptr::write_volatile(&mut (**o).stop, 1) };
                }
            }
        }
    }
    // deterministic preference: violations over harness errors
    let mut harness: Option<usize> = None;
    let mut best: Option<usize> = None;
    for i in 0..nw {
        let f = unsafe { (*outs[i]).found };
        if f == 2 && best.is_none() {
            best = Some(i);
        }
        if f == 3 && harness.is_none() {
            harness = Some(i);
        }
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some(i) = best {
        code = 1;
        nviol = 1;
        let o = unsafe { &*outs[i] };
        let path = report(p, o.found_scn as usize, o.found_seed, unsafe { &mut *shms[i] }, covs[i], c);
        println!("VIOLATION property={} replay={}", p.id, path);
    } else if let Some(i) = harness {
        let o = unsafe { &*outs[i] };
        let s = unsafe { &*shms[i] };
        eprintln!("harness error: scenario {} seed {:#x}: {} {}", p.scns[o.found_scn as usize].0, o.found_seed, s.class(), s.msg());
        code = 2;
    }
    let _ = found;
    for (i, k) in known.iter().enumerate() {
        let n: u64 = outs.iter().map(|o| unsafe { (**o).known[i] }).sum();
        println!("KNOWN-FINDING: property={} {} (seen in {} runs)", p.id, k.what, n);
    }
    evidence(p, c, &outs, &covs, t0.elapsed().as_secs_f64(), nviol);
    code
}

fn short_of_memory() -> bool {
    let Ok(s) = std::fs::read_to_string("/proc/meminfo") else { return false };
    let kb = |name: &str| s.lines().find(|l| l.starts_with(name)).and_then(|l| l.split_whitespace().nth(1)?.parse::<u64>().ok());
    match (kb("MemAvailable:"), kb("MemTotal:")) {
        (Some(a), Some(t)) => a < t / 4,
        _ => false,
    }
}

fn worker(p: &'static Prop, c: &CheckCfg, wi: usize, nw: usize, t0: Instant, o: &mut WorkerOut, shm: *mut Shm, cov: *mut u8, known: &[Known]) {
    let mut seen: HashSet<u64> = HashSet::new();
    let mut i = wi as u64;
    loop {
        if o.runs % 64 == 0 {
            // the kernel may lag behind with what ended processes leave
            while short_of_memory() && t0.elapsed().as_secs_f64() < c.secs {
                std::thread::sleep(std::time::Duration::from_millis(50));
            }
        }
        if unsafe { std::ptr::read_volatile(&o.stop) } != 0 || t0.elapsed().as_secs_f64() > c.secs || i >= c.max_runs {
            break;
        }
        let seed = seed_of(c.seed, p.id, i);
        let scn = pick_scn(p, seed);
        let r = run_one(&RunIn { scn, seed, plan: None, sched: None, faults: None, trace_fd: -1 }, unsafe { &mut *shm }, cov);
        let s = unsafe { &*shm };
        o.runs += 1;
        o.scn_runs[scn] += 1;
        o.steps += s.steps;
        o.switches += s.switches;
        o.sim_ns += s.now.saturating_sub(T0);
        if s.steps > o.maxsteps {
            o.maxsteps = s.steps;
            o.maxseed = seed;
        }
        for k in 0..NSTAT {
            o.stats[k] += s.stats[k] as u64;
        }
        let nontrivial = s.switches > 4 && s.stats[U_SENDS] + s.stats[U_JOINS] + s.stats[U_ALLOCS] + s.stats[U_REGIONS] + s.stats[U_JS] + s.stats[U_WINDOW] + s.stats[U_CONFORM] > 1;
        if nontrivial && seen.insert(s.shape) && (o.nshapes as usize) < MAX_SHAPES {
            o.shapes[o.nshapes as usize] = s.shape;
            o.nshapes += 1;
        }
        if (o.nsamples as usize) < 4 && r.status == 1 {
            let n = format!("seed {:#x} {}: {} steps, {} switches, {} faults, {:.3} s simulated; {}", seed, p.scns[scn].0, s.steps, s.switches, s.nfault, s.now.saturating_sub(T0) as f64 / 1e9, s.note());
            let b = n.as_bytes();
            let l = b.len().min(4096);
            o.samples[o.nsamples as usize][..l].copy_from_slice(&b[..l]);
            o.sample_len[o.nsamples as usize] = l as u32;
            o.nsamples += 1;
        }
        if r.status == 2 && !counts(&r.class) && unsafe { !ALL } {
            o.stats[U_OTHER] += 1;
        } else if r.status == 2 {
            if let Some(k) = known_of(known, &r.class, &r.msg) {
                o.known[k] += 1;
            } else {
                o.found = 2;
                o.found_seed = seed;
                o.found_scn = scn as u64;
                return;
            }
        } else if r.status != 1 {
            o.found = 3;
            o.found_seed = seed;
            o.found_scn = scn as u64;
            return;
        }
        i += nw as u64;
    }
}

struct Min<'a> {
    p: &'static Prop,
    scn: usize,
    seed: u64,
    class: String,
    shm: *mut Shm,
    cov: *mut u8,
    deadline: Instant,
    known: &'a [Known],
    tries: u32,
}

impl Min<'_> {
    fn test(&mut self, plan: &[u32], sched: &[SchedRec], faults: &[FaultRec]) -> bool {
        self.tries += 1;
        let r = run_one(
            &RunIn { scn: self.scn, seed: self.seed, plan: Some(plan), sched: Some(sched), faults: Some(faults), trace_fd: -1 },
            unsafe { &mut *self.shm },
            self.cov,
        );
        r.status == 2 && r.class == self.class && known_of(self.known, &r.class, &r.msg).is_none()
    }
    fn time(&self) -> bool {
        Instant::now() < self.deadline
    }
}

fn ddmin<T: Clone>(items: Vec<T>, mut test: impl FnMut(&[T]) -> Option<bool>) -> Vec<T> {
    let mut cur = items;
    if cur.is_empty() {
        return cur;
    }
    match test(&[]) {
        Some(true) => return vec![],
        None => return cur,
        _ => {}
    }
    let mut n = 2;
    while cur.len() >= 2 {
        let sz = (cur.len() + n - 1) / n;
        let mut reduced = false;
        let mut i = 0;
        while i < cur.len() {
            let e = (i + sz).min(cur.len());
            let cand: Vec<T> = cur[..i].iter().chain(cur[e..].iter()).cloned().collect();
            match test(&cand) {
                Some(true) => {
                    cur = cand;
                    reduced = true;
                }
                Some(false) => i = e,
                None => return cur,
            }
        }
        if !reduced {
            if sz == 1 {
                break;
            }
            n = (n * 2).min(cur.len());
        } else {
            n = n.max(2).min(cur.len().max(2));
        }
    }
    cur
}

fn report(p: &'static Prop, scn: usize, seed: u64, shm: &'static mut Shm, cov: *mut u8, c: &CheckCfg) -> String {
    let mut plan: Vec<u32> = shm.plan[..shm.nplan as usize].to_vec();
    let mut sched: Vec<SchedRec> = shm.sched[..shm.nsched as usize].to_vec();
    let mut faults: Vec<FaultRec> = shm.faults[..shm.nfault as usize].to_vec();
    let class = shm.class();
    let first = shm.msg();
    let (n0, n1, n2) = (plan.len(), sched.len(), faults.len());
    let budget = if c.tier == "thorough" { 60.0 } else { 20.0 };
    let known = load_known(p.id);
    let sp = shm as *mut Shm;
    let mut m = Min {
        p,
        scn,
        seed,
        class: class.clone(),
        shm: sp,
        cov,
        deadline: Instant::now() + std::time::Duration::from_secs_f64(budget),
        known: &known,
        tries: 0,
    };
    let _ = m.p;
    let reproduces = m.test(&plan, &sched, &faults);
    if reproduces {
        for _round in 0..3 {
            let before = (plan.len(), sched.len(), faults.len());
            let s2 = sched.clone();
            let p2 = plan.clone();
            faults = ddmin(faults, |f| if m.time() { Some(m.test(&p2, &s2, f)) } else { None });
            let f2 = faults.clone();
            sched = ddmin(sched, |s| if m.time() { Some(m.test(&p2, s, &f2)) } else { None });
            // plan: drop the tail, then set chunks to the simplest choice
            let s2 = sched.clone();
            let mut lo = 0;
            let mut hi = plan.len();
            while lo < hi && m.time() {
                let mid = (lo + hi) / 2;
                if m.test(&plan[..mid], &s2, &f2) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            if hi < plan.len() && m.test(&plan[..hi], &s2, &f2) {
                plan.truncate(hi);
            }
            let mut sz = (plan.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < plan.len() && m.time() {
                    let e = (i + sz).min(plan.len());
                    if plan[i..e].iter().any(|v| *v != 0) {
                        let mut cand = plan.clone();
                        cand[i..e].iter_mut().for_each(|v| *v = 0);
                        if m.test(&cand, &s2, &f2) {
                            plan = cand;
                        } else if sz == 1 && plan[i] > 1 {
                            let mut cand = plan.clone();
                            cand[i] = 1;
                            if m.test(&cand, &s2, &f2) {
                                plan = cand;
                            }
                        }
                    }
                    i = e;
                }
                if sz == 1 || !m.time() {
                    break;
                }
                sz = (sz / 2).max(1);
            }
            if before == (plan.len(), sched.len(), faults.len()) || !m.time() {
                break;
            }
        }
    }
    // final run with a trace
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let tmp = format!("{}/{}-{:016x}.trace", dir, p.id, seed);
    let tf = std::fs::File::create(&tmp).unwrap();
    use std::os::fd::AsRawFd;
    let r = run_one(
        &RunIn { scn, seed, plan: Some(&plan), sched: Some(&sched), faults: Some(&faults), trace_fd: tf.as_raw_fd() },
        unsafe { &mut *sp },
        cov,
    );
    drop(tf);
    let text = String::from_utf8_lossy(&std::fs::read(&tmp).unwrap_or_default()).into_owned();
    let _ = std::fs::remove_file(&tmp);
    let lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let keep = 1500;
    let trace = if lines.len() > keep { lines[lines.len() - keep..].to_vec() } else { lines };
    let case = Case {
        property: p.id.into(),
        scenario: p.scns[scn].0.into(),
        seed,
        class: class.clone(),
        message: if r.status == 2 { r.msg.clone() } else { first },
        hash: r.hash,
        plan: plan.clone(),
        sched: sched.iter().map(|s| (s.tid, s.count, s.target)).collect(),
        faults: faults.iter().map(|f| (f.kind, f.tid, f.count, f.value)).collect(),
        trace,
    };
    let path = format!("{}/{}-{:016x}.json", dir, p.id, seed);
    let mut fo = std::fs::File::create(&path).unwrap();
    let _ = fo.write_all(serde_json::to_string(&case).unwrap().as_bytes());
    drop(fo);
    println!("violation of {} ({}): class {}: {}", p.id, p.title, class, case.message);
    println!(
        "scenario {} seed {:#x}; minimised in {} runs: plan {} -> {}, schedule deviations {} -> {}, faults {} -> {}",
        p.scns[scn].0, seed, m.tries, n0, plan.len(), n1, sched.len(), n2, faults.len()
    );
    for l in case.trace.iter().rev().take(25).collect::<Vec<_>>().into_iter().rev() {
        println!("  {}", l);
    }
    // a fresh process must reproduce it
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(exe).args(["replay", &path, "--quiet"]).stdout(std::process::Stdio::null()).status();
    println!("replay in a fresh process: {}", match st { Ok(s) if s.code() == Some(1) => "reproduced exactly", _ => "NOT reproduced" });
    path
}

pub fn replay(props: &'static [Prop], path: &str, quiet: bool) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let case: Case = serde_json::from_str(&s).expect("replay file");
    let p = props.iter().find(|p| p.id == case.property).expect("unknown property");
    unsafe { PROP = Some(p) };
    let scn = p.scns.iter().position(|s| s.0 == case.scenario).expect("unknown scenario");
    let sched: Vec<SchedRec> = case.sched.iter().map(|s| SchedRec { tid: s.0, count: s.1, target: s.2 }).collect();
    let faults: Vec<FaultRec> = case.faults.iter().map(|f| FaultRec { kind: f.0, tid: f.1, count: f.2, value: f.3 }).collect();
    let shm = new_shm();
    let cov = map_shared(COV_BITS / 8);
    let r = run_one(
        &RunIn { scn, seed: case.seed, plan: Some(&case.plan), sched: Some(&sched), faults: Some(&faults), trace_fd: if quiet { -1 } else { 1 } },
        shm,
        cov,
    );
    println!("status {} class {} hash {:#x} (recorded class {} hash {:#x})", r.status, r.class, r.hash, case.class, case.hash);
    println!("{}", r.msg);
    if r.status == 2 && r.class == case.class && r.hash == case.hash {
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    if r.status == 2 {
        println!("another violation than the recorded one");
        return 2;
    }
    println!("not reproduced");
    0
}

fn evidence(p: &Prop, c: &CheckCfg, outs: &[*mut WorkerOut], covs: &[*mut u8], wall: f64, nviol: u32) {
    let o: Vec<&WorkerOut> = outs.iter().map(|o| unsafe { &**o }).collect();
    let runs: u64 = o.iter().map(|o| o.runs).sum();
    let mut shapes: HashSet<u64> = HashSet::new();
    for x in &o {
        shapes.extend(&x.shapes[..x.nshapes as usize]);
    }
    let mut st = vec![0u64; NSTAT];
    for x in &o {
        for k in 0..NSTAT {
            st[k] += x.stats[k];
        }
    }
    let mut cov = vec![0u8; COV_BITS / 8];
    for c in covs {
        for k in 0..cov.len() {
            cov[k] |= unsafe { *c.add(k) };
        }
    }
    let covn: u32 = cov.iter().map(|b| b.count_ones()).sum();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    for (n, i) in [
        ("process kill", S_KILL),
        ("kill at an armed scheduling point", S_KILL_ARMED),
        ("process stall", S_STALL),
        ("signal interrupting a blocked call (EINTR)", S_EINTR),
        ("delay before a system call", S_DELAY),
        ("spurious futex wake", S_SPURIOUS),
        ("wall clock jump", S_CLOCK),
        ("sender blocked on a full buffer", S_BLOCK_SEND),
        ("connect blocked on a full backlog", S_BLOCK_CONNECT),
        ("broken pipe", S_EPIPE),
        ("truncated control data", S_CTRUNC),
        ("fork and exec", S_FORK),
        ("descriptor limit", S_FDLIMIT),
    ] {
        faults.insert(n.into(), st[i]);
    }
    for (i, n) in simk::sysno::NAMES.iter().enumerate() {
        let v = st[S_ERRNO_BASE + i];
        if v > 0 {
            faults.insert(format!("errno injected into {}", n), v);
        }
    }
    let mut user: BTreeMap<String, u64> = BTreeMap::new();
    for (i, n) in UNAMES.iter().enumerate() {
        if st[S_USER + i] > 0 {
            user.insert(n.to_string(), st[S_USER + i]);
        }
    }
    let mut scn: BTreeMap<String, u64> = BTreeMap::new();
    for (i, s) in p.scns.iter().enumerate() {
        scn.insert(s.0.into(), o.iter().map(|o| o.scn_runs[i]).sum());
    }
    let mut samples = vec![];
    for x in &o {
        for k in 0..x.nsamples as usize {
            if samples.len() < 8 {
                samples.push(String::from_utf8_lossy(&x.samples[k][..x.sample_len[k] as usize]).into_owned());
            }
        }
    }
    let steps: u64 = o.iter().map(|o| o.steps).sum();
    let switches: u64 = o.iter().map(|o| o.switches).sum();
    let sim: u64 = o.iter().map(|o| o.sim_ns).sum();
    let (ms, mseed) = o.iter().map(|o| (o.maxsteps, o.maxseed)).max().unwrap_or((0, 0));
    let known: u64 = o.iter().map(|o| o.known.iter().sum::<u64>()).sum();
    let v = serde_json::json!({
        "property": p.id,
        "tier": c.tier,
        "seed": c.seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": nviol,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": shapes.len(),
            "rule": format!("one evaluation = one simulated run of a generated workload under one seed (schedule, delays, faults); {}. Distinct: different hash of the global sequence of (thread, system call); non-trivial: more than 4 thread switches and at least two joins/sends/allocations/promises.", p.rule),
            "samples": samples,
            "seeds_per_hour": (runs as f64 / wall * 3600.0) as u64,
            "simulated_seconds": sim as f64 / 1e9,
            "scheduling_points": steps,
            "thread_switches": switches,
            "longest_run_steps": ms,
            "longest_run_seed": format!("{:#x}", mseed),
            "system_calls": st[S_SYSCALLS],
            "unmodelled_calls": st[S_UNMODELED],
            "distinct_call_pairs": covn,
            "faults_injected": faults,
            "observed": user,
            "runs_per_scenario": scn,
            "runs_matching_known_findings": known,
            "real_code": "ipmb (and ipmb-derive, bincode, serde, std sync/mpsc/thread/time) built from /repo's working tree, instrumented with -Zsanitizer=thread; for C21 also ipmb-ffi, for C22 also ipmb-js/src/lib.rs",
            "stubbed": "kernel (sockets, epoll, eventfd, descriptors, futex, clocks, sleeping, thread scheduling, process death) by simk; shared memory is real memfd memory; for C22 the N-API event loop is a stub"
        },
        "assumptions": [
            "simk's model of AF_UNIX SOCK_SEQPACKET, epoll, eventfd and descriptor semantics is that of Linux (dst conform compares them)",
            "simulated processes share one address space: statics of ipmb (version constants, page mask) are shared and initialised before the run",
            "sequentially consistent atomics: weak-memory reorderings are not explored",
            "seeded search: absence of a violation is evidence, not proof"
        ]
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, p.id), serde_json::to_string_pretty(&v).unwrap());
    println!(
        "{}: {} runs in {:.1} s ({} distinct), {:.0} s simulated, {} steps, longest {} steps; {:?}",
        p.id, runs, wall, shapes.len(), sim as f64 / 1e9, steps, ms, user
    );
}

/// The same seed must give the same execution.
pub fn selftest(props: &'static [Prop], n: u64) -> i32 {
    let mut bad = 0;
    for p in props {
        unsafe { PROP = Some(p) };
        let shm = new_shm() as *mut Shm;
        let cov = map_shared(COV_BITS / 8);
        for i in 0..n {
            let seed = seed_of(777, p.id, i);
            let scn = pick_scn(p, seed);
            let a = run_one(&RunIn { scn, seed, plan: None, sched: None, faults: None, trace_fd: -1 }, unsafe { &mut *shm }, cov);
            let s = unsafe { &*shm };
            let plan = s.plan[..s.nplan as usize].to_vec();
            let sched = s.sched[..s.nsched as usize].to_vec();
            let faults = s.faults[..s.nfault as usize].to_vec();
            let b = run_one(&RunIn { scn, seed, plan: None, sched: None, faults: None, trace_fd: -1 }, unsafe { &mut *shm }, cov);
            let c = run_one(&RunIn { scn, seed, plan: Some(&plan), sched: Some(&sched), faults: Some(&faults), trace_fd: -1 }, unsafe { &mut *shm }, cov);
            if a.hash != b.hash || a.hash != c.hash || a.steps != b.steps || a.steps != c.steps || a.status != b.status || a.status != c.status {
                println!("NONDETERMINISM {} seed {:#x}: {:?} {:?} {:?}", p.id, seed, (a.hash, a.steps, a.status), (b.hash, b.steps, b.status), (c.hash, c.steps, c.status));
                bad += 1;
            }
        }
    }
    println!("selftest: {} mismatches", bad);
    (bad > 0) as i32
}
