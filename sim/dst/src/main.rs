//! dst check --property ID --tier quick|thorough | replay FILE | run --property ID --seed N | selftest
mod alt;
mod conform;
mod engine;
mod garbage;
mod h;
mod oracle;
mod props;
mod scn;
mod scn2;
mod cscn;
mod ffi;
mod js;
mod napi;
mod reg;
mod util;
mod win;
use engine::*;

#[global_allocator]
static ALLOC: simk::alloc::Alloc = simk::alloc::Alloc;

fn prewarm() {
    // statics of the code under test that simulated processes share
    let _ = ipmb::version();
    let _ = ipmb::version_pre();
    if let Some(mut r) = ipmb::MemoryRegion::new(16) {
        let _ = r.map(0..4);
    }
    let _ = std::thread::Builder::new().stack_size(65536).spawn(|| ()).unwrap().join();
    // room for the descriptors behind simulated memory objects
    unsafe {
        let mut rl: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut rl);
        rl.rlim_cur = rl.rlim_max.min(1 << 16);
        libc::setrlimit(libc::RLIMIT_NOFILE, &rl);
    }
}

/// Addresses must not differ between executions of this program: starts it again without address randomisation.
fn fixed_addresses() {
    use std::os::unix::process::CommandExt;
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p != -1 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("DST_REEXEC").is_none() {
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) != -1 {
                if let Ok(exe) = std::env::current_exe() {
                    let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("DST_REEXEC", "1").exec();
                }
            }
        }
    }
}

fn main() {
    std::env::remove_var("RUST_BACKTRACE");
    unsafe { ALL = std::env::var_os("DST_ALL").is_some() };
    fixed_addresses();
    simk::init_program();
    // a library that cannot do this much fails in the runs, where it is reported
    let _ = std::panic::catch_unwind(prewarm);
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let props = props::PROPS;
    let num = |s: String| -> u64 {
        if let Some(h) = s.strip_prefix("0x") {
            u64::from_str_radix(h, 16).unwrap()
        } else {
            s.parse().unwrap()
        }
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = opt("--property").expect("--property");
            let p = props.iter().find(|p| p.id == id).expect("unknown property");
            let tier = opt("--tier").unwrap_or_else(|| "quick".into());
            let secs = opt("--secs").map(|s| s.parse().unwrap()).unwrap_or(if tier == "thorough" { 600.0 } else { 30.0 });
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let n = unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN).clamp(1, 8) } as usize;
            let workers = opt("--workers").map(|s| s.parse().unwrap()).unwrap_or(n);
            let max_runs = opt("--runs").map(|s| s.parse().unwrap()).unwrap_or(u64::MAX);
            check(p, &CheckCfg { tier, seed, secs, workers, max_runs })
        }
        Some("replay") => replay(props, &a[2], a.iter().any(|x| x == "--quiet")),
        Some("run") => {
            let id = opt("--property").expect("--property");
            let p = props.iter().find(|p| p.id == id).expect("unknown property");
            unsafe { PROP = Some(p) };
            let seed = num(opt("--seed").expect("--seed"));
            let scn = match opt("--scenario") {
                Some(s) => p.scns.iter().position(|x| x.0 == s).expect("scenario"),
                None => pick_scn(p, seed),
            };
            let tr = if a.iter().any(|x| x == "--trace") { 1 } else { -1 };
            let shm = new_shm();
            let r = run_one(&RunIn { scn, seed, plan: None, sched: None, faults: None, trace_fd: tr }, shm, simk::shm::map_shared(simk::shm::COV_BITS / 8));
            println!("{} status {} class {} steps {} hash {:#x}\n{}", p.scns[scn].0, r.status, r.class, r.steps, r.hash, r.msg);
            (r.status != 1) as i32
        }
        Some("conform") => {
            let secs = opt("--secs").map(|s| s.parse().unwrap()).unwrap_or(20.0);
            check(&props::CONFORM, &CheckCfg { tier: "quick".into(), seed: opt("--seed").map(num).unwrap_or(1), secs, workers: 8, max_runs: u64::MAX })
        }
        Some("selftest") => selftest(props, opt("--n").map(num).unwrap_or(30)),
        _ => {
            eprintln!("usage: dst check|replay|run|selftest");
            2
        }
    };
    std::process::exit(code);
}
