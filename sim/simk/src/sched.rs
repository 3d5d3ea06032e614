//! Simulated threads, processes and time; the seeded scheduler and the choice streams.
use crate::kern::{FileId, Kern};
use crate::raw;
use crate::shm::{FaultRec, SchedRec, Shm, MAX_FAULT, MAX_PLAN, MAX_SCHED};
use crate::stat;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicU32, Ordering};

pub type Tid = usize;
pub type Pid = usize;

pub const MAXT: usize = 256;

/// A set of threads.
#[derive(Clone, Copy)]
pub struct Set([u64; MAXT / 64]);
impl Set {
    pub const EMPTY: Set = Set([0; MAXT / 64]);
    pub fn add(&mut self, t: Tid) {
        self.0[t / 64] |= 1 << (t % 64);
    }
    pub fn del(&mut self, t: Tid) {
        self.0[t / 64] &= !(1 << (t % 64));
    }
    pub fn has(&self, t: Tid) -> bool {
        self.0[t / 64] >> (t % 64) & 1 == 1
    }
    pub fn len(&self) -> u32 {
        self.0.iter().map(|w| w.count_ones()).sum()
    }
    pub fn is_empty(&self) -> bool {
        self.0.iter().all(|w| *w == 0)
    }
    /// The first member which is at least `t`.
    pub fn from(&self, t: Tid) -> Option<Tid> {
        let mut i = t / 64;
        if i >= self.0.len() {
            return None;
        }
        let mut m = self.0[i] & (!0 << (t % 64));
        loop {
            if m != 0 {
                return Some(i * 64 + m.trailing_zeros() as usize);
            }
            i += 1;
            m = *self.0.get(i)?;
        }
    }
    pub fn iter(self) -> impl Iterator<Item = Tid> {
        let mut s = self;
        let mut i = 0;
        std::iter::from_fn(move || {
            while i < s.0.len() {
                if s.0[i] != 0 {
                    let b = s.0[i].trailing_zeros() as usize;
                    s.0[i] &= s.0[i] - 1;
                    return Some(i * 64 + b);
                }
                i += 1;
            }
            None
        })
    }
}

#[derive(Default)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0.rotate_left(5) ^ *x as u64).wrapping_mul(0x517cc1b727220a95);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        self.next() % n
    }
    /// true with probability p / 2^32
    pub fn chance(&mut self, p: u32) -> bool {
        ((self.next() >> 32) as u32) < p
    }
}
pub fn prob(p: f64) -> u32 {
    (p * 4294967295.0) as u32
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = (a ^ b.wrapping_mul(0x9e3779b97f4a7c15)).wrapping_add(0x632be59bd9b4e019);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z ^ (z >> 27)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Runnable,
    Blocked,
    /// would run, but its process is stalled until `deadline`
    Stalled,
    Dead,
    Killed,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wake {
    Woken,
    Timeout,
    Interrupted,
}

/// What a blocked thread waits for.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Chan {
    None,
    File(FileId),
    Futex(usize),
    Join(Tid),
    Delay,
    Sleep,
    Event,
    Custom(u32),
}

pub type TaskFn = Box<dyn FnMut() -> bool>;

pub struct Thread {
    pub id: Tid,
    pub proc: Pid,
    pub st: St,
    pub chan: Chan,
    pub deadline: u64,
    pub interrupt: bool,
    pub wake: Wake,
    pub baton: AtomicU32,
    pub count: u32,
    pub prio: u32,
    /// step at which it was last switched to
    pub ran: u64,
    pub task: Option<TaskFn>,
    pub pthread: u64,
    pub name: String,
    pub what: &'static str,
    pub daemon: bool,
    pub fcount: FxMap<u32, u32>,
    pub last_sys: u32,
    /// sched_yield calls in a row
    pub yields: u32,
    /// sum of the delays injected into it
    pub delayed: u64,
    /// file references of the system call it is in
    pub held: Vec<FileId>,
}

pub struct Proc {
    pub id: Pid,
    pub alive: bool,
    pub name: String,
    pub fds: BTreeMap<i32, (FileId, bool)>,
    pub fdlimit: i32,
    pub kill_after: Option<(u32, u64)>,
    pub stall_after: Option<(u32, u64, u64)>,
    pub stalled_until: u64,
    pub child_of: Option<Pid>,
    pub bad_close: u32,
    /// a security policy forbids it to bind and connect sockets
    pub deny: bool,
    pub killed_at: u64,
    /// event sequence number at which the process had lost its last descriptor (0: not yet)
    pub reaped_seq: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Yk {
    Sys = 0,
    Atomic = 1,
    Shared = 2,
    Yield = 3,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    /// preempt with the given probabilities (sys, atomic, shared)
    Random([u32; 4]),
    /// priorities with change points
    Pct,
    /// only forced switches
    Calm,
}

pub struct Replay {
    pub plan: Option<Vec<u32>>,
    pub sched: Option<FxMap<u64, u32>>,
    pub faults: Option<FxMap<u64, u32>>,
}

pub fn key2(tid: u32, count: u32) -> u64 {
    ((tid as u64) << 32) | count as u64
}
pub fn key3(kind: u32, tid: u32, count: u32) -> u64 {
    ((kind as u64) << 56) | ((tid as u64) << 40) | count as u64
}

pub struct World {
    pub threads: Vec<Box<Thread>>,
    pub procs: Vec<Box<Proc>>,
    pub runnable: Set,
    pub cur: Tid,
    pub now: u64,
    pub next_deadline: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub since_switch: u32,
    pub seq: u64,
    pub policy: Policy,
    pub pct_points: Vec<u64>,
    pub srng: Rng,
    pub frng: Rng,
    pub prng: Rng,
    pub erng: Rng,
    pub replay: Replay,
    pub plan_pos: usize,
    pub fault_prob: [u32; 32],
    pub faults_on: bool,
    pub faults_left: u32,
    pub errno_mask: u64,
    /// delays: 0 before the calls, 1 after them, 2 both
    pub delay_at: u32,
    pub shm: &'static mut Shm,
    pub cov: *mut u8,
    pub cov_prev: u64,
    pub kern: Kern,
    pub trace: bool,
    pub trace_fd: i32,
    pub hash: u64,
    pub shape: u64,
    pub event_waiters: u32,
    pub real_off: i64,
    pub ended: bool,
    pub end_hook: Option<fn(&str, &str) -> Option<(String, String)>>,
    /// killed processes: (process, event number, names of the listening sockets it owned)
    pub deaths: Vec<(Pid, u64, Vec<Vec<u8>>)>,
    /// successful binds: (name, process, thread, event number)
    pub binds: Vec<(Vec<u8>, Pid, Tid, u64)>,
}

pub static mut W: *mut World = std::ptr::null_mut();

#[inline(always)]
pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}

thread_local! {
    static CUR: Cell<usize> = const { Cell::new(0) }; // tid + 1
    static KMODE: Cell<u32> = const { Cell::new(0) };
}

/// True when the calling thread is simulated and running code under test (not the simulator or the harness).
#[inline(always)]
pub fn in_sim() -> bool {
    CUR.with(|c| c.get()) != 0 && KMODE.with(|k| k.get()) == 0
}
pub fn is_sim_thread() -> bool {
    CUR.with(|c| c.get()) != 0
}
pub fn set_cur(t: Option<Tid>) {
    CUR.with(|c| c.set(t.map(|t| t + 1).unwrap_or(0)));
}
pub fn cur_tid() -> Tid {
    CUR.with(|c| c.get()) - 1
}
pub fn cur_proc() -> Pid {
    w().threads[cur_tid()].proc
}

pub struct KGuard;
#[inline]
pub fn kenter() -> KGuard {
    KMODE.with(|k| k.set(k.get() + 1));
    KGuard
}
impl Drop for KGuard {
    #[inline]
    fn drop(&mut self) {
        KMODE.with(|k| k.set(k.get() - 1));
    }
}
pub fn kmode_depth() -> u32 {
    KMODE.with(|k| k.get())
}

/// Temporarily leaves kernel mode (harness code that calls the system under test).
pub fn user<R>(f: impl FnOnce() -> R) -> R {
    let d = KMODE.with(|k| k.replace(0));
    let r = f();
    KMODE.with(|k| k.set(d));
    r
}

pub const NODL: u64 = u64::MAX;

fn cost(k: Yk) -> u64 {
    match k {
        Yk::Sys => 4000,
        Yk::Atomic | Yk::Shared => 15,
        Yk::Yield => 500,
    }
}

impl World {
    pub fn new_proc(&mut self, name: &str, child_of: Option<Pid>) -> Pid {
        let id = self.procs.len();
        self.procs.push(Box::new(Proc {
            id,
            alive: true,
            name: name.into(),
            fds: BTreeMap::new(),
            fdlimit: 1 << 20,
            kill_after: None,
            stall_after: None,
            stalled_until: 0,
            child_of,
            bad_close: 0,
            deny: false,
            killed_at: 0,
            reaped_seq: 0,
        }));
        id
    }

    pub fn new_thread(&mut self, proc: Pid, name: &str, task: Option<TaskFn>) -> Tid {
        let id = self.threads.len();
        if id >= MAXT {
            end(3, "harness:threads", "too many simulated threads");
        }
        // priorities for PCT come from the schedule stream
        let prio = 1000 + (self.srng.next() % 100000) as u32;
        self.threads.push(Box::new(Thread {
            id,
            proc,
            st: St::Runnable,
            chan: Chan::None,
            deadline: NODL,
            interrupt: false,
            wake: Wake::Woken,
            baton: AtomicU32::new(0),
            count: 0,
            prio,
            ran: self.steps,
            task,
            pthread: 0,
            name: name.into(),
            what: "",
            daemon: false,
            fcount: Default::default(),
            last_sys: 0,
            yields: 0,
            delayed: 0,
            held: vec![],
        }));
        self.runnable.add(id);
        id
    }

    pub fn make_runnable(&mut self, t: Tid, why: Wake) {
        let th = &mut self.threads[t];
        if th.st == St::Blocked {
            th.wake = why;
            th.chan = Chan::None;
            let until = self.procs[th.proc].stalled_until;
            if until > self.now {
                th.st = St::Stalled;
                th.deadline = until;
                if until < self.next_deadline {
                    self.next_deadline = until;
                }
            } else {
                th.st = St::Runnable;
                th.deadline = NODL;
                self.runnable.add(t);
            }
        }
    }

    pub fn wake_chan(&mut self, c: Chan, max: usize) -> usize {
        let mut n = 0;
        for t in 0..self.threads.len() {
            if n >= max {
                break;
            }
            if self.threads[t].st == St::Blocked && self.threads[t].chan == c {
                self.make_runnable(t, Wake::Woken);
                n += 1;
            }
        }
        n
    }

    fn recompute_deadline(&mut self) {
        self.next_deadline = self
            .threads
            .iter()
            .filter(|t| t.st == St::Blocked || t.st == St::Stalled)
            .map(|t| t.deadline)
            .min()
            .unwrap_or(NODL);
    }

    fn fire_timers(&mut self) {
        for t in 0..self.threads.len() {
            let th = &mut self.threads[t];
            if th.st == St::Stalled && th.deadline <= self.now {
                th.st = St::Runnable;
                th.deadline = NODL;
                self.runnable.add(t);
                continue;
            }
            if th.st == St::Blocked && th.deadline <= self.now {
                let why = if th.interrupt { Wake::Interrupted } else { Wake::Timeout };
                self.make_runnable(t, why);
            }
        }
        self.recompute_deadline();
    }

    fn nth_runnable(&self, n: u32) -> Tid {
        self.runnable.iter().nth(n as usize).unwrap()
    }

    fn next_rr(&self, cur: Tid) -> Tid {
        self.runnable.from(cur + 1).or_else(|| self.runnable.from(0)).unwrap()
    }

    fn longest_waiting(&self, cur: Tid, min: u64) -> Option<Tid> {
        let mut best = None;
        for t in self.runnable.iter() {
            if t == cur {
                continue;
            }
            let age = self.steps - self.threads[t].ran;
            if age >= min && best.is_none_or(|(a, _)| age > a) {
                best = Some((age, t));
            }
        }
        best.map(|x| x.1)
    }

    /// Chooses who runs next. `cur` is the thread giving up control at its `count`-th decision.
    fn pick(&mut self, cur: Tid, k: Yk) -> Tid {
        // nothing runnable: time jumps to the next deadline
        while self.runnable.is_empty() {
            self.recompute_deadline();
            if self.next_deadline == NODL {
                let mut s = String::new();
                for t in &self.threads {
                    if t.st == St::Blocked {
                        s.push_str(&format!("[{} {} {:?} {}] ", t.id, t.name, t.chan, t.what));
                    }
                }
                end(2, "deadlock", &format!("every thread is blocked forever: {}", s));
            }
            self.now = self.next_deadline;
            self.fire_timers();
        }
        let cur_ok = self.runnable.has(cur);
        // nobody is kept waiting for ever by threads that never block
        let hog = cur_ok && self.since_switch >= 4000;
        let starved = if hog || self.steps & 4095 == 0 { self.longest_waiting(cur, if hog { 0 } else { 100_000 }) } else { None };
        let stay = cur_ok && k != Yk::Yield && !hog && starved.is_none();
        let def = match starved {
            Some(t) => t,
            None if stay => cur,
            None => self.next_rr(cur),
        };
        let n = self.runnable.len();
        if n == 1 {
            return def;
        }
        let count = self.threads[cur].count;
        if let Some(m) = &self.replay.sched {
            if let Some(&t) = m.get(&key2(cur as u32, count)) {
                if (t as usize) < self.threads.len() && self.runnable.has(t as usize) {
                    return t as usize;
                }
            }
            return def;
        }
        let choice = match self.policy {
            Policy::Random(p) => {
                if stay {
                    if self.srng.chance(p[k as usize]) {
                        let i = self.srng.below(n as u64) as u32;
                        self.nth_runnable(i)
                    } else {
                        cur
                    }
                } else {
                    let i = self.srng.below(n as u64) as u32;
                    self.nth_runnable(i)
                }
            }
            Policy::Pct => {
                if let Some(&p) = self.pct_points.last() {
                    if self.steps >= p {
                        self.pct_points.pop();
                        let l = self.pct_points.len() as u32;
                        self.threads[cur].prio = l;
                    }
                }
                if starved.is_some() || k == Yk::Yield {
                    if hog || k == Yk::Yield {
                        self.threads[cur].prio = (self.srng.next() % 1000) as u32;
                    }
                    if starved.is_some() {
                        self.threads[def].prio = 200_000;
                    }
                    def
                } else {
                    let mut best = def;
                    let mut bp = 0;
                    for t in self.runnable.iter() {
                        if self.threads[t].prio >= bp {
                            bp = self.threads[t].prio;
                            best = t;
                        }
                    }
                    best
                }
            }
            Policy::Calm => def,
        };
        if choice != def {
            self.rec_sched(cur as u32, count, choice as u32);
        }
        choice
    }

    fn rec_sched(&mut self, tid: u32, count: u32, target: u32) {
        let n = self.shm.nsched as usize;
        if n < MAX_SCHED {
            self.shm.sched[n] = SchedRec { tid, count, target };
            self.shm.nsched += 1;
        } else {
            self.shm.overflow = 1;
        }
    }

    pub fn log_hash(&mut self, v: u64) {
        self.hash = mix(self.hash, v);
    }

    pub fn cov(&mut self, v: u64) {
        let h = mix(self.cov_prev, v) as usize % crate::shm::COV_BITS;
        unsafe {
            *self.cov.add(h >> 3) |= 1 << (h & 7);
        }
        self.cov_prev = v;
    }
}

unsafe fn park_on(b: *const AtomicU32) {
    while (*b).swap(0, Ordering::Acquire) == 0 {
        raw::futex_wait(b as *const u32, 0);
    }
}
fn park(t: Tid) {
    unsafe { park_on(&w().threads[t].baton as *const AtomicU32) }
}

/// Hands the baton to the thread chosen by the scheduler; returns when the caller runs again.
fn reschedule(cur: Tid, k: Yk, wait: bool) {
    let mut giver = cur;
    loop {
        let wd = w();
        let next = wd.pick(giver, k_for(giver, cur, k));
        if next != giver {
            wd.since_switch = 0;
            wd.threads[next].ran = wd.steps;
        }
        if wd.threads[next].task.is_some() {
            // kernel-side task: one step, executed inline
            wd.steps += 1;
            wd.threads[next].count += 1;
            wd.now += 1000;
            if wd.now >= wd.next_deadline {
                wd.fire_timers();
            }
            let mut f = wd.threads[next].task.take().unwrap();
            let g = kenter();
            let old = CUR.with(|c| c.replace(next + 1));
            let done = f();
            CUR.with(|c| c.set(old));
            drop(g);
            let wd = w();
            if done {
                wd.threads[next].st = St::Dead;
                wd.threads[next].task = Some(Box::new(|| true));
                wd.runnable.del(next);
            } else {
                wd.threads[next].task = Some(f);
            }
            wd.since_switch = wd.since_switch.saturating_add(1);
            giver = next;
            continue;
        }
        if next == cur && wait {
            wd.cur = cur;
            return;
        }
        wd.cur = next;
        wd.shm.switches += 1;
        // from the store on, the world belongs to the next thread: only the two batons may be touched
        let nb = &wd.threads[next].baton as *const AtomicU32;
        let own = &wd.threads[cur].baton as *const AtomicU32;
        unsafe {
            (*nb).store(1, Ordering::Release);
            raw::futex_wake(nb as *const u32);
            if wait {
                park_on(own);
            }
        }
        return;
    }
}

fn k_for(giver: Tid, cur: Tid, k: Yk) -> Yk {
    if giver == cur {
        k
    } else {
        Yk::Sys
    }
}

/// A scheduling point of the running simulated thread.
pub fn yield_now(k: Yk) {
    let wd = w();
    let cur = wd.cur;
    wd.steps += 1;
    wd.since_switch = wd.since_switch.saturating_add(1);
    wd.now += cost(k);
    {
        let th = &mut wd.threads[cur];
        th.count = th.count.wrapping_add(1);
    }
    if wd.now >= wd.next_deadline {
        wd.fire_timers();
    }
    if wd.steps > wd.max_steps {
        end(2, "no-progress", &format!("step cap of {} scheduling points reached at t={}ms; running thread: {}", wd.max_steps, wd.now / 1_000_000, wd.threads[cur].name));
    }
    let p = wd.threads[cur].proc;
    if wd.procs[p].kill_after.is_some() || wd.procs[p].stall_after.is_some() {
        armed(p, k);
        if w().threads[cur].st == St::Killed {
            reschedule(cur, Yk::Sys, true);
            loop {
                park(cur)
            }
        }
    }
    reschedule(cur, k, true);
}

fn armed(p: Pid, k: Yk) {
    let wd = w();
    let pr = &mut wd.procs[p];
    if let Some((mask, n)) = &mut pr.kill_after {
        if *mask >> (k as u32) & 1 == 1 {
            if *n == 0 {
                pr.kill_after = None;
                stat(crate::S_KILL_ARMED, 1);
                kill(p);
                return;
            }
            *n -= 1;
        }
    }
    let pr = &mut wd.procs[p];
    if let Some((mask, n, d)) = &mut pr.stall_after {
        if *mask >> (k as u32) & 1 == 1 {
            if *n == 0 {
                let d = *d;
                pr.stall_after = None;
                stall(p, d);
                return;
            }
            *n -= 1;
        }
    }
}

/// Blocks the running thread. Returns why it was woken.
pub fn block(chan: Chan, deadline: u64, what: &'static str) -> Wake {
    block_int(chan, deadline, what, false)
}

pub fn block_int(chan: Chan, deadline: u64, what: &'static str, interruptible: bool) -> Wake {
    let mut dl = deadline;
    let mut intr = false;
    if interruptible {
        if let Some(v) = fault(F_EINTR) {
            let d = match v % 6 {
                0 => 0,
                1 => 2_000,
                2 => 100_000,
                3 => 3_000_000,
                4 => 150_000_000,
                _ => 1_700_000_000,
            };
            let at = w().now + d;
            if at < dl {
                dl = at;
                intr = true;
            }
        }
    }
    let wd = w();
    let cur = wd.cur;
    {
        let th = &mut wd.threads[cur];
        th.count = th.count.wrapping_add(1);
        th.st = St::Blocked;
        th.chan = chan;
        th.deadline = dl;
        th.interrupt = intr;
        th.what = what;
    }
    if dl < wd.next_deadline {
        wd.next_deadline = dl;
    }
    wd.runnable.del(cur);
    wd.steps += 1;
    if wd.now >= wd.next_deadline {
        wd.fire_timers();
    }
    reschedule(cur, Yk::Sys, true);
    let th = &mut w().threads[cur];
    th.what = "";
    if th.interrupt && th.wake == Wake::Interrupted {
        stat(crate::S_EINTR, 1);
    }
    th.interrupt = false;
    th.wake
}

/// Last act of a simulated thread.
pub fn exit_thread() {
    let wd = w();
    let cur = wd.cur;
    wd.threads[cur].st = St::Dead;
    wd.threads[cur].count += 1;
    wd.runnable.del(cur);
    wd.wake_chan(Chan::Join(cur), usize::MAX);
    set_cur(None);
    reschedule(cur, Yk::Sys, false);
}

pub fn first_wait(t: Tid) {
    park(t);
}

/// Kills a simulated process at this instant: its threads never run again; its descriptors are closed one
/// after another by a kernel task, interleaved with everybody else.
pub fn kill(p: Pid) {
    let wd = w();
    if !wd.procs[p].alive {
        return;
    }
    wd.procs[p].alive = false;
    wd.procs[p].kill_after = None;
    wd.procs[p].stall_after = None;
    wd.procs[p].killed_at = wd.now;
    stat(crate::S_KILL, 1);
    wd.log_hash(0x6b11 + p as u64);
    if wd.trace {
        trace(&format!("KILL process {} ({})", p, wd.procs[p].name));
    }
    let mut held = vec![];
    for t in 0..wd.threads.len() {
        if wd.threads[t].proc == p && wd.threads[t].task.is_none() && matches!(wd.threads[t].st, St::Runnable | St::Blocked | St::Stalled) {
            wd.threads[t].st = St::Killed;
            wd.runnable.del(t);
            held.append(&mut wd.threads[t].held);
        }
    }
    let mut names = vec![];
    for (n, id) in wd.kern.names.iter() {
        if let Some(f) = &wd.kern.files[*id] {
            if f.creator == p {
                names.push(n.clone());
            }
        }
    }
    let seq = crate::next_seq();
    wd.deaths.push((p, seq, names));
    crate::on_event(&format!("killed {}", p));
    let f: TaskFn = Box::new(move || {
        // interrupted system calls give back what they hold
        if let Some(id) = held.pop() {
            crate::kern::put(id);
            return false;
        }
        let next = w().procs[p].fds.keys().next().copied();
        match next {
            Some(fd) => {
                crate::kern::close_fd(p, fd);
                if w().trace {
                    trace(&format!("exit of process {}: close({})", p, fd));
                }
                let done = w().procs[p].fds.is_empty();
                if done {
                    w().procs[p].reaped_seq = crate::next_seq();
                    w().wake_chan(Chan::Event, usize::MAX);
                }
                done
            }
            None => {
                w().procs[p].reaped_seq = crate::next_seq();
                w().wake_chan(Chan::Event, usize::MAX);
                true
            }
        }
    });
    wd.new_thread(p, "exit", Some(f));
}

/// Freezes every thread of a process for `d` ns of simulated time.
pub fn stall(p: Pid, d: u64) {
    let wd = w();
    stat(crate::S_STALL, 1);
    if wd.trace {
        trace(&format!("STALL process {} for {}ms", p, d / 1_000_000));
    }
    let until = wd.now + d;
    wd.procs[p].stalled_until = until;
    for t in 0..wd.threads.len() {
        if wd.threads[t].proc == p && wd.threads[t].task.is_none() && wd.threads[t].st == St::Runnable {
            let th = &mut wd.threads[t];
            th.st = St::Stalled;
            th.deadline = until;
            wd.runnable.del(t);
        }
    }
    if until < wd.next_deadline {
        wd.next_deadline = until;
    }
}

pub const F_EINTR: u32 = 1;
pub const F_DELAY: u32 = 2;
pub const F_ERRNO: u32 = 3;
pub const F_SPURIOUS: u32 = 4;
pub const F_CLOCK: u32 = 5;

/// Draws a fault decision at the current site. None = no fault.
pub fn fault(kind: u32) -> Option<u32> {
    let wd = w();
    if !wd.faults_on {
        return None;
    }
    let cur = wd.cur;
    let c = wd.threads[cur].fcount.entry(kind).or_insert(0);
    *c += 1;
    let count = *c;
    // a reduced plan may have switched this kind of fault off
    if wd.fault_prob[kind as usize] == 0 {
        return None;
    }
    if let Some(m) = &wd.replay.faults {
        return m.get(&key3(kind, cur as u32, count)).copied();
    }
    if wd.faults_left == 0 {
        return None;
    }
    if !wd.frng.chance(wd.fault_prob[kind as usize]) {
        return None;
    }
    wd.faults_left -= 1;
    let v = (wd.frng.next() >> 33) as u32;
    let n = wd.shm.nfault as usize;
    if n < MAX_FAULT {
        wd.shm.faults[n] = FaultRec { kind, tid: cur as u32, count, value: v };
        wd.shm.nfault += 1;
    } else {
        wd.shm.overflow = 1;
    }
    Some(v)
}

/// Possibly delays the running thread (slow node, descheduled thread).
pub fn maybe_delay() {
    if let Some(v) = fault(F_DELAY) {
        let mut d = match v % 8 {
            0 => 20_000,
            1 => 200_000,
            2 => 1_000_000,
            3 => 10_000_000,
            4 => 50_000_000,
            5 => 200_000_000,
            6 => 600_000_000,
            _ => 1_000_000_000,
        };
        let wcur = w().cur;
        // a thread that hardly ever runs is as good as hung: nothing is claimed of it
        let th = &mut w().threads[wcur];
        if th.delayed + d > 6_000_000_000 {
            d = d.min(1_000_000);
        }
        th.delayed += d;
        stat(crate::S_DELAY, 1);
        if w().trace {
            trace(&format!("DELAY {}us", d / 1000));
        }
        let until = w().now + d;
        loop {
            block(Chan::Delay, until, "delay");
            if w().now >= until {
                break;
            }
        }
    }
}

/// Draws a value of the workload plan, 0..n.
pub fn draw(n: u32) -> u32 {
    let wd = w();
    let v = match &wd.replay.plan {
        Some(p) => p.get(wd.plan_pos).copied().unwrap_or(0).min(n.saturating_sub(1)),
        None => wd.prng.below(n as u64) as u32,
    };
    wd.plan_pos += 1;
    let i = wd.shm.nplan as usize;
    if i < MAX_PLAN {
        wd.shm.plan[i] = v;
        wd.shm.nplan += 1;
    } else {
        wd.shm.overflow = 1;
    }
    v
}

pub fn trace(s: &str) {
    let wd = w();
    if wd.trace {
        let _g = kenter();
        let t = if is_sim_thread() { cur_tid() } else { 999 };
        let (n, p) = if t < wd.threads.len() {
            (wd.threads[t].name.clone(), wd.threads[t].proc as i64)
        } else {
            (String::from("-"), -1)
        };
        let line = format!("{:>12.6}ms p{} t{} {:<12} {}\n", (wd.now - crate::T0) as f64 / 1e6, p, t, n, s);
        raw::write_all(wd.trace_fd, line.as_bytes());
    }
}

/// Ends the run. status 1 = clean, 2 = violation, 3 = harness error.
pub fn end(status: u32, class: &str, msg: &str) -> ! {
    let wd = w();
    let _g = kenter();
    if wd.ended {
        raw::exit_group(9);
    }
    wd.ended = true;
    wd.shm.steps = wd.steps;
    wd.shm.now = wd.now;
    wd.shm.hash = wd.hash;
    wd.shm.shape = wd.shape;
    if wd.trace {
        if status == 2 {
            for t in &wd.threads {
                if t.st != St::Dead && wd.procs[t.proc].alive {
                    trace(&format!("   thread {} of process {} ({}): {:?} {:?} {}", t.id, t.proc, t.name, t.st, t.chan, t.what));
                }
            }
        }
        trace(&format!("END status={} class={} {}", status, class, msg));
    }
    wd.shm.set(status, class, msg);
    raw::exit_group(0);
}
