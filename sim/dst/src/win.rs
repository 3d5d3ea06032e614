//! Windows of regions, mapped by several processes at once.
use crate::engine::*;
use crate::h::*;
use crate::scn::{environment, Cfg, BASE};
use crate::util::*;
use ipmb::MemoryRegion;
use simk::*;
use std::collections::HashMap;
use std::ops::Bound;
use std::time::Duration;

#[derive(Default)]
struct Model {
    size: usize,
    pages: HashMap<usize, Box<[u8; 4096]>>,
    /// where something was written last
    last: usize,
}
impl Model {
    fn get(&self, at: usize) -> u8 {
        self.pages.get(&(at >> 12)).map(|p| p[at & 4095]).unwrap_or(0)
    }
    fn set(&mut self, at: usize, v: u8) {
        self.pages.entry(at >> 12).or_insert_with(|| Box::new([0; 4096]))[at & 4095] = v;
    }
}
static mut MODELS: Vec<Model> = vec![];
#[allow(static_mut_refs)]
fn models() -> &'static mut Vec<Model> {
    unsafe { &mut MODELS }
}

struct Held {
    r: MemoryRegion,
    of: usize,
    /// the current view: address, offset, length
    view: Option<(usize, usize, usize)>,
}

fn check_view(who: &str, hd: &Held) {
    let Some((a, off, len)) = hd.view else { return };
    let b = unsafe { std::slice::from_raw_parts(a as *const u8, len) };
    let m = &models()[hd.of];
    let mut i = 0;
    while i < len {
        // one page of the model at a time
        let n = (4096 - (off + i) % 4096).min(len - i);
        let same = match m.pages.get(&((off + i) >> 12)) {
            Some(p) => b[i..i + n] == p[(off + i) & 4095..][..n],
            None => b[i..i + n].iter().all(|x| *x == 0),
        };
        if !same {
            while b[i] == m.get(off + i) {
                i += 1;
            }
            violation("window", &format!("{}: byte {} of the window {}..{} of a region of {} bytes is {:#x}, the byte of the region at {} is {:#x}", who, i, off, off + len, m.size, b[i], off + i, m.get(off + i)));
            return;
        }
        i += n;
    }
}

fn near(size: usize, last: usize) -> usize {
    let pages = (size + 12) / 4096;
    let x = match d(if size >> 32 > 0 { 8 } else { 6 }) {
        // 4 GiB away from it
        6 | 7 => last ^ 1 << 32,
        0 => 0,
        1 => size,
        2 => size.saturating_sub(1),
        // around a page boundary of the object
        3 | 4 if pages > 0 => ((1 + d(pages.min(1 << 20) as u32) as usize) * 4096 - 12 + 2).saturating_sub(d(5) as usize),
        _ => (d(1 << 16) as usize) << 16 | d(1 << 16) as usize,
    };
    if x > size {
        x % (size + 1)
    } else {
        x
    }
}

/// The harness works with the view in one step: nobody runs in between.
fn step(who: &str, hd: &mut Held, faults: bool) {
    let size = models()[hd.of].size;
    if hd.r.buffer_size() != size as u64 {
        violation("window", &format!("{}: a region of {} bytes says it has {}", who, size, hd.r.buffer_size()));
    }
    if d(8) == 0 {
        return outside(who, hd);
    }
    let last = models()[hd.of].last;
    let (mut a, mut b) = (near(size, last), near(size, last));
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    let big = b - a > 1 << 20;
    let form = if big { 0 } else { d(7) };
    if big {
        // only what fits
        b = a + d(20_000) as usize;
        b = b.min(size);
    }
    let (lo, hi) = match form {
        0 | 1 => (Bound::Included(a), Bound::Excluded(b)),
        2 if b > a => (Bound::Included(a), Bound::Included(b - 1)),
        3 if b < 1 << 20 => (Bound::Unbounded, Bound::Excluded(b)),
        4 if size - a < 1 << 20 => (Bound::Included(a), Bound::Unbounded),
        5 if size < 1 << 20 => (Bound::Unbounded, Bound::Unbounded),
        6 if a > 0 && size - a < 1 << 20 => (Bound::Excluded(a - 1), Bound::Unbounded),
        _ => (Bound::Included(a), Bound::Excluded(b)),
    };
    match lo {
        Bound::Unbounded => a = 0,
        _ => {}
    }
    match hi {
        Bound::Unbounded => b = size,
        _ => {}
    }
    // the old view ends here
    check_view(who, hd);
    hd.view = None;
    let r = user(|| hd.r.map((lo, hi)).map(|v| (v.as_mut_ptr() as usize, v.len())));
    match r {
        Err(e) => {
            if !faults {
                violation("window", &format!("{}: mapping {}..{} of a region of {} bytes failed: {:?}", who, a, b, size, e));
            }
        }
        Ok((at, len)) => {
            stat(U_WINDOW, 1);
            if len != b - a {
                violation("window", &format!("{}: the window {}..{} of a region of {} bytes has {} bytes", who, a, b, size, len));
                return;
            }
            hd.view = Some((at, a, len));
            check_view(who, hd);
        }
    }
}

/// A range that is not within the region must be refused: there is nothing to look at.
fn outside(who: &str, hd: &mut Held) {
    let size = models()[hd.of].size;
    let a = near(size, 0);
    let more = pick(&[1usize, 2, 12, 13, 4084, 4095, 4096, 4097, 70_000, 1 << 32, usize::MAX / 2, usize::MAX - size - 1, usize::MAX - size]);
    let past = size + more;
    let (lo, hi) = match d(7) {
        0 | 1 => (Bound::Included(a), Bound::Excluded(past)),
        2 => (Bound::Included(a), Bound::Included(past - 1)),
        3 => (Bound::Unbounded, Bound::Excluded(past)),
        4 => (Bound::Included(past), Bound::Unbounded),
        5 => (Bound::Excluded(past - 1), Bound::Unbounded),
        _ => (Bound::Included(past), Bound::Excluded(past)),
    };
    check_view(who, hd);
    hd.view = None;
    if let Ok(n) = user(|| hd.r.map((lo, hi)).map(|v| v.len())) {
        violation("window", &format!("{}: the range {:?}, {:?} is not within a region of {} bytes but mapping it yields {} bytes", who, lo, hi, size, n));
    }
    stat(U_OUTSIDE, 1);
}

fn write(hd: &mut Held) {
    let Some((at, off, len)) = hd.view else { return };
    let v = unsafe { std::slice::from_raw_parts_mut(at as *mut u8, len) };
    let x = 1 + d(250) as u8;
    let m = &mut models()[hd.of];
    m.last = off;
    for i in (0..len).filter(|i| *i < 64 || *i + 64 > len || i % 509 == 0) {
        v[i] = x.wrapping_add(i as u8);
        m.set(off + i, v[i]);
    }
}

pub fn windows() {
    windows_run(false);
}
pub fn windows_kill() {
    windows_run(true);
}
fn windows_run(kills: bool) {
    init_h();
    models().clear();
    let errno = pick(&[0.0, 0.0, 0.05, 0.3]);
    environment(&Cfg { delay: 0.0, eintr: pick(&[0.0, 0.1]), errno, errno_mask: 1 << sysno::MMAP | 1 << sysno::FCNTL, ..BASE });
    w().faults_on = false;
    let np = if kills { 2 + d(2) } else { 1 + d(3) };
    let nr = 1 + d(3) as usize;
    let sizes: Vec<usize> = (0..nr).map(|_| pick(&[64usize, 0, 1, 4083, 4084, 4085, 4096, 8179, 8180, 8181, 20_000, 70_000, 5 << 30])).collect();
    note(format!("{} processes, regions of {:?} bytes", np, sizes));
    for s in &sizes {
        models().push(Model { size: *s, ..Default::default() });
    }
    let procs: Vec<Pid> = (0..np).map(|i| proc_new(&format!("P{}", i))).collect();
    // the handles of every process: what the bus brought
    let held: &'static mut Vec<Vec<Held>> = Box::leak(Box::new((0..np).map(|_| vec![]).collect()));
    let heldp = held as *mut Vec<Vec<Held>> as usize;
    let join = |aff: bool| JoinSpec { ident: h().idents[0].clone(), label: 1, token: "secret".into(), affinity: aff, timeout: None, acc: Acc::Any };
    let ready = Box::leak(Box::new(0u32)) as *mut u32 as usize;
    let fin = Box::leak(Box::new(0u32)) as *mut u32 as usize;
    for (i, p) in procs.iter().copied().enumerate() {
        let sizes = sizes.clone();
        let js = join(i == 0);
        spawn(p, &format!("p{}", i), move || {
            let mine = unsafe { &mut (&mut *(heldp as *mut Vec<Vec<Held>>))[i] };
            if i > 0 {
                wait_until(NODL, || unsafe { *(ready as *mut u32) } > 0);
            }
            let (tx, mut rx) = match user(|| join_main(js)) {
                Ok(x) => x,
                Err(e) => return violation("call-error", &format!("join failed: {:?}", e)),
            };
            unsafe { *(ready as *mut u32) += 1 };
            on_event("ready");
            if i == 0 {
                wait_until(NODL, || unsafe { *(ready as *mut u32) } >= np);
                if d(4) == 0 {
                    let n = if d(2) == 0 { usize::MAX - d(30) as usize } else { (i64::MAX as usize - 11) + d(4000) as usize };
                    if let Some(r) = user(|| MemoryRegion::new(n)) {
                        violation("window", &format!("a region of {} bytes, which no system can hold, was created and says that it has {}", n, r.buffer_size()));
                    }
                }
                let regions: Vec<Reg> = sizes.iter().filter_map(|s| user(|| Reg::new(false, *s))).collect();
                if regions.len() != sizes.len() {
                    return violation("window", "a region could not be created");
                }
                for (of, r) in regions.iter().enumerate() {
                    if let Some(Reg::R(r)) = user(|| r.dup()) {
                        mine.push(Held { r, of, view: None });
                    }
                }
                if np > 1 {
                    let m = OutMsg { id: 1, kind: 0, body: vec![], multi: true, expr: Expr::T, ttl: Duration::ZERO, objects: vec![], regions };
                    if let Err(e) = user(|| tx.send(m)) {
                        return violation("call-error", &format!("send failed: {:?}", e));
                    }
                } else {
                    user(|| drop(regions));
                }
            } else {
                match user(|| rx.recv(Some(Duration::from_secs(60)))) {
                    Ok(m) => {
                        for (of, r) in m.regions.into_iter().enumerate() {
                            mine.push(Held { r: r.rust(), of, view: None });
                        }
                    }
                    Err(e) => return violation("call-error", &format!("receive failed: {:?}", e)),
                }
            }
            unsafe { *(ready as *mut u32) += 1 };
            on_event("has regions");
            wait_until(NODL, || unsafe { *(ready as *mut u32) } >= 2 * np);
            w().faults_on = true;
            for _ in 0..4 + d(24) {
                let faults = w().errno_mask != 0 && errno > 0.0;
                let n = mine.len();
                let k = d(n as u32) as usize;
                match d(9) {
                    0..=3 => step(&format!("process {}", i), &mut mine[k], faults),
                    4 | 5 => {
                        check_view(&format!("process {}", i), &mine[k]);
                        write(&mut mine[k]);
                    }
                    6 => {
                        let of = mine[k].of;
                        match user(|| mine[k].r.clone()) {
                            Ok(r) => mine.push(Held { r, of, view: None }),
                            Err(e) if !faults => violation("window", &format!("a clone failed: {:?}", e)),
                            Err(_) => {}
                        }
                    }
                    7 if n > 1 => {
                        let x = mine.swap_remove(k);
                        check_view(&format!("process {}", i), &x);
                        user(move || drop(x));
                    }
                    _ => sleep_ms(1),
                }
                on_event("step");
                for x in mine.iter() {
                    check_view(&format!("process {}", i), x);
                }
            }
            // the views outlive the bus
            user(move || drop((tx, rx)));
            for x in mine.iter() {
                check_view(&format!("process {}", i), x);
            }
            let v = std::mem::take(mine);
            user(move || drop(v));
            unsafe { *(fin as *mut u32) += 1 };
            on_event("finished");
        });
    }
    if kills {
        wait_until(w().now + 100 * SEC, || unsafe { *(ready as *mut u32) } >= 2 * np);
        let at = w().seq + d(60) as u64;
        wait_until(w().now + 2 * SEC, || w().seq >= at);
        kill(procs[d(np) as usize]);
    }
    let ok = wait_until(w().now + 300 * SEC, || unsafe { *(fin as *mut u32) } as usize >= procs.iter().filter(|p| w().procs[**p].alive).count());
    if !ok {
        violation("call-hang", "a process makes no progress with its regions");
    }
    faults_off();
    if ok && !kills {
        stat(U_REFCHECK, 1);
        // the controller may be about to let go of what it has passed on
        sleep_ms(5_000);
        let left = kern::k().live.len();
        if left > 0 {
            violation("window", &format!("{} mappings are left although every region was dropped", left));
        }
    }
}
