#![allow(invalid_runtime_symbol_definitions, static_mut_refs)]
//! Deterministic simulator: threads, processes, time, kernel objects, schedules and faults of one run.
pub mod alloc;
pub mod inter;
pub mod kern;
pub mod raw;
pub mod sched;
pub mod shm;
pub mod sysno;
pub mod tsan;

pub use sched::*;

pub const S_SYSCALLS: usize = 0;
pub const S_KILL: usize = 1;
pub const S_KILL_ARMED: usize = 2;
pub const S_STALL: usize = 3;
pub const S_EINTR: usize = 4;
pub const S_DELAY: usize = 5;
pub const S_SPURIOUS: usize = 6;
pub const S_CLOCK: usize = 7;
pub const S_BLOCK_SEND: usize = 8;
pub const S_BLOCK_CONNECT: usize = 9;
pub const S_EPIPE: usize = 10;
pub const S_CTRUNC: usize = 11;
pub const S_BAD_UNMAP: usize = 12;
pub const S_FORK: usize = 13;
pub const S_UNMODELED: usize = 14;
pub const S_FDLIMIT: usize = 15;
pub const S_ERRNO_BASE: usize = 16; // .. 48
/// harness statistics start here
pub const S_USER: usize = 48;

/// simulated time origin: 10000 s
pub const T0: u64 = 10_000_000_000_000;

pub const ARENA_LEN: usize = 8 << 30;
static mut ARENA: usize = 0;

#[inline(always)]
pub fn arena() -> usize {
    unsafe { ARENA }
}
#[inline(always)]
pub fn in_arena(a: usize) -> bool {
    a.wrapping_sub(arena()) < ARENA_LEN
}

/// Once per program, before any run.
pub fn init_program() {
    unsafe {
        let r = raw::syscall6(
            libc::SYS_mmap,
            0,
            ARENA_LEN,
            libc::PROT_NONE as usize,
            (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as usize,
            usize::MAX,
            0,
        );
        assert!(r > 0);
        ARENA = r as usize;
    }
    inter::init_real();
}

pub fn stat(i: usize, n: u32) {
    let s = &mut w().shm.stats[i];
    *s = s.wrapping_add(n);
}

static mut UNMODELED: &str = "";
pub fn unmodeled(s: &'static str) {
    stat(S_UNMODELED, 1);
    unsafe { UNMODELED = s };
    if w().trace {
        trace(&format!("UNMODELED {}", s));
    }
}

pub fn next_seq() -> u64 {
    let wd = w();
    wd.seq += 1;
    wd.seq
}

/// Something the harness may be waiting for happened.
pub fn on_event(s: &str) {
    let wd = w();
    wd.seq += 1;
    if wd.trace {
        trace(&format!("-- {}", s));
    }
    wd.wake_chan(Chan::Event, usize::MAX);
}

static mut BAD: Option<(Pid, i32, String)> = None;
pub fn bad_close(p: Pid, fd: i32) {
    w().procs[p].bad_close += 1;
    unsafe {
        if (*std::ptr::addr_of!(BAD)).is_none() {
            BAD = Some((p, fd, format!("close({}) of a descriptor that is not open in process {} ({})", fd, p, w().procs[p].name)));
        }
    }
    end(2, "bad-close", &format!("close({}) of a descriptor that is not open in process {} ({})", fd, p, w().procs[p].name));
}
pub fn k_badunmap(a: usize, l: usize) {
    end(2, "bad-munmap", &format!("munmap of {:#x}+{} which is not a live mapping", a, l));
}

pub struct RunCfg {
    pub seed: u64,
    pub replay: Replay,
    pub trace: bool,
    pub trace_fd: i32,
    pub max_steps: u64,
}

extern "C" fn on_signal(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        if W.is_null() || !is_sim_thread() && sig != libc::SIGPROF {
            raw::exit_group(70 + sig);
        }
        let _g = kenter();
        let (class, extra) = match sig {
            libc::SIGSEGV => ("crash:SIGSEGV", (*info).si_addr() as usize),
            libc::SIGBUS => ("crash:SIGBUS", (*info).si_addr() as usize),
            libc::SIGABRT => ("crash:SIGABRT", 0),
            libc::SIGILL => ("crash:SIGILL", 0),
            libc::SIGFPE => ("crash:SIGFPE", 0),
            libc::SIGPROF => ("spin", 0),
            _ => ("crash", 0),
        };
        let s = if in_arena(extra) { "access to an unmapped or truncated shared region" } else if sig == libc::SIGPROF { "a thread spins without ever reaching a scheduling point" } else { "signal raised by the code under test" };
        if w().trace || sig != libc::SIGPROF {
            let c = ctx as *const libc::ucontext_t;
            let rip = (*c).uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
            let base = libc::getauxval(libc::AT_PHDR) as usize & !0xfff;
            eprintln!("signal {} address {:#x} rip {:#x} (image base {:#x}) in thread {:?} depth {}", sig, extra, rip, base, if is_sim_thread() { Some(&w().threads[cur_tid()].name) } else { None }, kmode_depth());
        }
        end(2, class, s);
    }
}

/// Turns the calling (real) thread of a freshly forked child into simulated thread 0 of process 0.
pub fn start(cfg: RunCfg, shm: &'static mut shm::Shm, cov: *mut u8) {
    let mut srng = Rng::new(mix(cfg.seed, 0x5ced));
    let policy = match srng.below(10) {
        0 => Policy::Calm,
        1 | 2 => Policy::Pct,
        n => {
            let ps = [0.02, 0.1, 0.3, 0.6][srng.below(4) as usize];
            let pa = [0.0, 0.001, 0.01, 0.05, 0.2][srng.below(5) as usize];
            let pm = [0.05, 0.2, 0.5][srng.below(3) as usize];
            let _ = n;
            Policy::Random([prob(ps), prob(pa), prob(pm), prob(0.5)])
        }
    };
    let mut pct_points: Vec<u64> = vec![];
    if policy == Policy::Pct {
        let n = 1 + srng.below(12);
        let span = [2000, 10_000, 60_000][srng.below(3) as usize];
        for _ in 0..n {
            pct_points.push(srng.below(span));
        }
        pct_points.sort_by(|a, b| b.cmp(a));
    }
    let world = World {
        threads: Vec::with_capacity(MAXT),
        procs: vec![],
        runnable: sched::Set::EMPTY,
        cur: 0,
        now: T0,
        next_deadline: NODL,
        steps: 0,
        max_steps: cfg.max_steps,
        since_switch: 0,
        seq: 0,
        policy,
        pct_points,
        srng,
        frng: Rng::new(mix(cfg.seed, 0xfa17)),
        prng: Rng::new(mix(cfg.seed, 0x91a4)),
        erng: Rng::new(mix(cfg.seed, 0xe4e4)),
        replay: cfg.replay,
        plan_pos: 0,
        fault_prob: [0; 32],
        faults_on: true,
        faults_left: 1000,
        errno_mask: 0,
        delay_at: 0,
        shm,
        cov,
        cov_prev: 0,
        kern: Default::default(),
        trace: cfg.trace,
        trace_fd: cfg.trace_fd,
        hash: 0,
        shape: 0,
        event_waiters: 0,
        real_off: 1_700_000_000_000_000_000,
        ended: false,
        end_hook: None,
        deaths: vec![],
        binds: vec![],
    };
    unsafe {
        W = Box::into_raw(Box::new(world));
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGPROF] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: 30, tv_usec: 0 },
        };
        raw::sc3(libc::SYS_setitimer, libc::ITIMER_PROF as usize, &it as *const _ as usize, 0);
    }
    let wd = w();
    wd.kern.arena_next = arena() + 4096;
    let p = wd.new_proc("director", None);
    let t = wd.new_thread(p, "director", None);
    wd.cur = t;
    set_cur(Some(t));
    std::mem::forget(kenter());
}

// ---- harness API (all called in kernel mode) -------------------------------------------------------------------

struct Boxed(Box<dyn FnOnce() + 'static>);

extern "C" fn boxed_start(p: *mut libc::c_void) -> *mut libc::c_void {
    let g = kenter();
    let b = unsafe { Box::from_raw(p as *mut Boxed) };
    (b.0)();
    drop(g);
    std::ptr::null_mut()
}

/// Starts a simulated thread in a process; the closure starts in kernel mode.
pub fn spawn(proc: Pid, name: &str, f: impl FnOnce() + 'static) -> Tid {
    let _g = kenter();
    let arg = Box::into_raw(Box::new(Boxed(Box::new(f)))) as *mut libc::c_void;
    unsafe {
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 1 << 20);
        libc::pthread_attr_setdetachstate(&mut attr, libc::PTHREAD_CREATE_DETACHED);
        let mut pt = 0;
        let t = inter::create(proc, name, &mut pt, &attr, boxed_start, arg).unwrap();
        w().threads[t].pthread = 0;
        t
    }
}

pub fn proc_new(name: &str) -> Pid {
    w().new_proc(name, None)
}

pub fn now() -> u64 {
    w().now
}
pub fn now_ms() -> u64 {
    (w().now - T0) / 1_000_000
}

pub fn sleep_ns(d: u64) {
    let until = w().now.saturating_add(d);
    while w().now < until {
        block(Chan::Sleep, until, "harness sleep");
    }
}
pub fn sleep_ms(ms: u64) {
    sleep_ns(ms * 1_000_000)
}

/// Waits until `cond` holds (re-evaluated at every recorded event) or simulated time reaches `deadline`.
pub fn wait_until(deadline: u64, mut cond: impl FnMut() -> bool) -> bool {
    loop {
        if cond() {
            return true;
        }
        if w().now >= deadline {
            return false;
        }
        block(Chan::Event, deadline, "harness wait");
    }
}

pub fn wake_events() {
    w().wake_chan(Chan::Event, usize::MAX);
}

/// fork + exec: the child holds every descriptor until the exec, then only the inheritable ones.
pub fn fork_exec(from: Pid, name: &str, exec_delay_steps: u32) -> Pid {
    let wd = w();
    let c = wd.new_proc(name, Some(from));
    kern::fork_fds(from, c);
    stat(S_FORK, 1);
    if wd.trace {
        trace(&format!("FORK process {} -> {}", from, c));
    }
    let mut left = exec_delay_steps;
    let f: TaskFn = Box::new(move || {
        if left > 0 {
            left -= 1;
            return false;
        }
        let next = w().procs[c].fds.iter().find(|(_, v)| v.1).map(|(k, _)| *k);
        match next {
            Some(fd) => {
                kern::close_fd(c, fd);
                false
            }
            None => {
                w().procs[c].reaped_seq = next_seq();
                wake_events();
                true
            }
        }
    });
    wd.new_thread(c, "exec", Some(f));
    c
}

pub fn open_fds(p: Pid) -> Vec<(i32, &'static str, bool)> {
    w().procs[p].fds.iter().map(|(fd, (id, ce))| (*fd, kern::f(*id).tag, *ce)).collect()
}

/// Identity of the kernel object behind a descriptor.
pub fn file_of(p: Pid, fd: i32) -> Option<usize> {
    w().procs[p].fds.get(&fd).map(|x| x.0)
}

/// The object mapped at an address.
pub fn file_at(a: usize) -> Option<usize> {
    let (at, (len, id)) = kern::k().maps.range(..=a).next_back()?;
    if a < at + len {
        Some(*id)
    } else {
        None
    }
}

/// Arms a kill of process `p` at its `n`-th scheduling point of the kinds in `mask` from now on.
pub fn arm_kill(p: Pid, mask: u32, n: u64) {
    w().procs[p].kill_after = Some((mask, n));
}
pub fn arm_stall(p: Pid, mask: u32, n: u64, ns: u64) {
    w().procs[p].stall_after = Some((mask, n, ns));
}
pub fn finish_ok() -> ! {
    end(1, "", "")
}
pub fn fail(class: &str, msg: &str) -> ! {
    end(2, class, msg)
}

/// References to a kernel object: descriptors of live processes and copies inside queued messages.
pub fn file_refs(id: usize) -> (usize, usize) {
    let mut a = 0;
    for p in w().procs.iter().filter(|p| p.alive) {
        a += p.fds.values().filter(|x| x.0 == id).count();
    }
    let mut b = 0;
    for f in w().kern.files.iter().flatten() {
        if let kern::Kind::Sock(s) = &f.kind {
            for k in &s.rcvq {
                b += k.fds.iter().filter(|x| **x == id).count();
            }
        }
    }
    (a, b)
}
/// Shared memory objects that still exist.
pub fn live_mems() -> Vec<usize> {
    w().kern.files.iter().flatten().filter(|f| matches!(f.kind, kern::Kind::Mem { .. })).map(|f| f.id).collect()
}
/// Bytes at the start of a shared memory object.
pub fn mem_u32(id: usize) -> u32 {
    if let Some(f) = w().kern.files[id].as_ref() {
        if let kern::Kind::Mem { real } = &f.kind {
            let mut v = [0u8; 4];
            unsafe { raw::syscall6(libc::SYS_pread64, *real as usize, v.as_mut_ptr() as usize, 4, 0, 0, 0) };
            return u32::from_ne_bytes(v);
        }
    }
    0
}
pub fn fd_table(p: Pid) -> std::collections::BTreeMap<&'static str, usize> {
    let mut m = std::collections::BTreeMap::new();
    for x in w().procs[p].fds.values() {
        *m.entry(kern::f(x.0).tag).or_default() += 1;
    }
    m
}
/// A thread of a live process is inside a blocking sendmsg.
pub fn any_blocked_in(no: u32) -> bool {
    w().threads.iter().any(|t| t.st == St::Blocked && t.last_sys == no && w().procs[t.proc].alive)
}
