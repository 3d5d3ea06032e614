//! C23: a process that is no endpoint writes whatever it likes into the bus's socket.
use crate::engine::*;
use crate::h::*;
use crate::oracle;
use crate::scn::*;
use crate::scn2::{on, raw_addr, raw_send};
use crate::util::*;
use ipmb::LabelOp;
use simk::*;
use std::time::Duration;
use type_uuid::TypeUuid;

/// What one datagram consists of before it is assembled.
struct Parts {
    magic: [u8; 4],
    selector: Vec<u8>,
    payload: Vec<u8>,
    /// claimed sizes
    sel_size: Option<u32>,
    pay_size: Option<u32>,
}
impl Parts {
    fn build(&self) -> Vec<u8> {
        let mut v = self.magic.to_vec();
        let mut chunk = |b: &[u8], n: Option<u32>| {
            v.extend(n.unwrap_or(b.len() as u32).to_ne_bytes());
            v.extend(b);
            v.resize(v.len().next_multiple_of(4), 0);
        };
        chunk(&self.selector, self.sel_size);
        chunk(&self.payload, self.pay_size);
        v
    }
}

const CONNECT: [u8; 16] = [0xb2, 0xc1, 0xde, 0xb3, 0x30, 0x91, 0x4a, 0x74, 0xa9, 0x9c, 0xc8, 0xe8, 0xd7, 0x10, 0xd4, 0xb2];
const BYTES: [u8; 16] = [0xdd, 0x95, 0xba, 0x8e, 0x12, 0x79, 0x47, 0xcf, 0x92, 0x5e, 0x83, 0xe6, 0x14, 0xe7, 0x95, 0x88];

fn selector(op: LabelOp, multi: bool, uuid: [u8; 16], regions: u16, ttl: Duration) -> Vec<u8> {
    ipmb::encode((op, multi as u32, uuid, regions, ttl)).unwrap()
}

/// a length no data follows
fn huge() -> Vec<u8> {
    let n: u64 = pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 62, 1 << 48, 1 << 40, 1 << 36, 1 << 32, 1 << 31, 1 << 20, 70_000, 300]);
    let mut v = vec![253];
    v.extend(n.to_le_bytes());
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fd {
    Memfd(usize),
    /// an ipmb region of this size
    Region(usize, u64),
    Pipe,
    Event,
    /// a socket whose other end is closed
    Dead,
    /// a socket that is not connected
    Loose,
}

struct Datagram {
    what: &'static str,
    bytes: Vec<u8>,
    fds: Vec<Fd>,
}

fn nested() -> Vec<u8> {
    // encoded operators: 0 true, 1 false, 2 leaf, 3 not, 4 and, 5 or
    let depth = pick(&[10usize, 100, 1_000, 10_000, 50_000, 100_000, 3_000, 120]);
    match d(4) {
        0 | 1 => [vec![3; depth], vec![0]].concat(),
        2 => [vec![4 + d(2) as u8; depth / 2], vec![0; depth / 2 + 1]].concat(),
        _ => [[5u8, 1].repeat(depth / 2), vec![0]].concat(),
    }
}

fn datagram(clean_fds: bool) -> Datagram {
    let v = ipmb::version();
    let magic = [0xff, v.major(), v.minor(), v.patch()];
    let op = if chance(50) { LabelOp::True } else { Expr::gen(2).op() };
    let ttl = pick(&[Duration::ZERO, Duration::from_millis(300), Duration::from_secs(2)]);
    let uuid = pick(&[M1::UUID, M2::UUID, BYTES, CONNECT, [0; 16], [0xff; 16]]);
    let payload = if uuid == CONNECT {
        let ver = pick(&[(v.major(), v.minor(), v.patch()), (v.major(), v.minor() + 1, 0), (0, 0, 0), (255, 255, 255)]);
        ipmb::encode((ver, pick(&["secret", "", "nope"]), vec!["a"; d(4) as usize])).unwrap()
    } else {
        ipmb::encode((0x4000_0000u32, vec![7u8; pick(&[0usize, 5, 300, 60_000])])).unwrap()
    };
    let mut fds = vec![];
    let mut regions = 0u16;
    if chance(50) {
        for _ in 0..pick(&[1, 2, 3, 20, 253]) {
            fds.push(pick(&[Fd::Memfd(0), Fd::Memfd(3), Fd::Memfd(4096), region(), region(), Fd::Pipe, Fd::Event, Fd::Dead, Fd::Loose]));
        }
        regions = pick(&[0, 1, fds.len() as u16, fds.len() as u16 + 1, 255, 65_535]);
    }
    let mut p = Parts { magic, selector: selector(op.clone(), chance(50), uuid, regions, ttl), payload, sel_size: None, pay_size: None };
    let mut what = "well-formed";
    let mut whole: Option<Vec<u8>> = None;
    match d(12) {
        0 => {
            what = "empty or random";
            whole = Some((0..pick(&[0usize, 1, 3, 4, 7, 8, 11, 12, 16, 40, 400])).map(|_| d(256) as u8).collect());
        }
        1 => {
            what = "random behind the header";
            let mut b = magic.to_vec();
            b.extend((0..pick(&[0usize, 1, 4, 5, 8, 20, 100])).map(|_| d(256) as u8));
            whole = Some(b);
        }
        2 => {
            what = "other version";
            p.magic = pick(&[[0xff, v.major(), v.minor() + 1, 0], [0xff, v.major() + 1, 0, 0], [0xff, 255, 255, 255], [0, 0, 8, 4], [0xfe, 0, 8, 4]]);
        }
        3 => {
            what = "wrong sizes";
            let n = [p.selector.len() as u32, p.payload.len() as u32];
            let mut wrong = |n: u32| Some(pick(&[0, 1, n + 1, n + 4, n.wrapping_sub(1), 0x7fff_ffff, 0x8000_0000, u32::MAX, u32::MAX - 3, u32::MAX - 8, 0xffff]));
            if chance(50) {
                p.sel_size = wrong(n[0]);
            }
            if p.sel_size.is_none() || chance(30) {
                p.pay_size = wrong(n[1]);
            }
        }
        4 => {
            what = "nested selector";
            let plain = ipmb::encode(&op).unwrap().len();
            p.selector = [nested(), p.selector[plain..].to_vec()].concat();
        }
        5 => {
            what = "huge length in the payload";
            p.payload = match uuid {
                CONNECT => {
                    let mut b = ipmb::encode((v.major(), v.minor(), v.patch())).unwrap();
                    if chance(50) {
                        // the token
                        b.extend(huge());
                        b.extend(b"secret");
                    } else {
                        // the label
                        b.extend(ipmb::encode("secret").unwrap());
                        b.extend(huge());
                    }
                    b
                }
                _ => [ipmb::encode(0x4000_0000u32).unwrap(), huge(), vec![0; d(9) as usize]].concat(),
            };
        }
        6 => {
            what = "huge length in the selector";
            let plain = ipmb::encode(&op).unwrap().len();
            p.selector = [vec![2], huge(), p.selector[plain..].to_vec()].concat();
        }
        7 => {
            what = "cut off";
            let b = p.build();
            let n = d(b.len() as u32) as usize;
            whole = Some(b[..n].to_vec());
        }
        8 => {
            what = "extended";
            let mut b = p.build();
            b.extend((0..1 + d(20)).map(|_| d(256) as u8));
            whole = Some(b);
        }
        9 | 10 => {
            what = "flipped";
            let mut b = p.build();
            let head = b.len().min(120);
            for _ in 0..1 + d(6) {
                let i = d(head as u32) as usize;
                b[i] = match d(4) {
                    0 => b[i] ^ (1 << d(8)),
                    1 => pick(&[0, 0xff, 0xfd, 0xfc, 0xfb, 0x7f, 0x80, 0xfe]),
                    2 => b[i].wrapping_add(1),
                    _ => d(256) as u8,
                };
            }
            whole = Some(b);
            // the time to live may have become anything; then the descriptors may be held for that long
            if clean_fds {
                fds.clear();
            }
        }
        _ => {}
    }
    if what == "nested selector" && chance(50) {
        fds.clear();
    }
    Datagram { what, bytes: whole.unwrap_or_else(|| p.build()), fds }
}

fn region() -> Fd {
    let n = pick(&[0usize, 1, 100, 4083, 4084, 4085, 5000, 8180]);
    let m = n as u64;
    Fd::Region(n, pick(&[m, m, m + 1, m.saturating_sub(1), 0, m + 12, m * 2, m + 4096, 1 << 31, 1 << 32 | m, 1 << 63, u64::MAX, u64::MAX - 11]))
}

unsafe fn open(f: Fd) -> Vec<i32> {
    let mut two = [-1, -1];
    match f {
        Fd::Memfd(n) => {
            let fd = libc::memfd_create(c"x".as_ptr(), libc::MFD_CLOEXEC);
            libc::ftruncate(fd, n as i64);
            vec![fd]
        }
        Fd::Region(n, claim) => {
            // header of a region: reference count, size; as large as it says or not
            let fd = libc::memfd_create(c"x".as_ptr(), libc::MFD_CLOEXEC);
            libc::ftruncate(fd, 12 + n as i64);
            let m = libc::mmap(std::ptr::null_mut(), 12 + n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0) as *mut u32;
            *m = [1, 2, 0, u32::MAX][n % 4];
            *m.add(1) = claim as u32;
            *m.add(2) = (claim >> 32) as u32;
            libc::munmap(m as _, 12 + n);
            vec![fd]
        }
        Fd::Pipe => {
            libc::pipe2(two.as_mut_ptr(), libc::O_CLOEXEC);
            libc::close(two[0]);
            vec![two[1]]
        }
        Fd::Event => vec![libc::eventfd(0, libc::EFD_CLOEXEC)],
        Fd::Dead => {
            libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, two.as_mut_ptr());
            libc::close(two[0]);
            vec![two[1]]
        }
        Fd::Loose => vec![libc::socket(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0)],
    }
}

/// One connection: a few datagrams, then it is closed (or kept open until the process ends).
fn visit(bus: usize, ds: Vec<Datagram>, gap: i64, linger: i64) {
    let name = h().idents[bus].clone();
    user(|| unsafe {
        let fd = libc::socket(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0);
        let a = raw_addr(&name);
        let nap = |ms: i64| {
            let t = libc::timespec { tv_sec: ms / 1000, tv_nsec: ms % 1000 * 1_000_000 };
            libc::nanosleep(&t, std::ptr::null_mut());
        };
        if libc::connect(fd, &a as *const _ as _, std::mem::size_of_val(&a) as _) == 0 {
            for x in &ds {
                let fds: Vec<i32> = x.fds.iter().flat_map(|f| open(*f)).collect();
                raw_send(fd, &x.bytes, &fds);
                for f in fds {
                    libc::close(f);
                }
                if gap > 0 {
                    nap(gap);
                }
            }
            if linger > 0 {
                nap(linger);
            }
        }
        libc::close(fd);
    });
}

pub fn garbage() {
    init_h();
    h().foreign = true;
    h().idents.truncate(1);
    let c = Cfg { procs: (1, 3), eps: (2, 4), noaff_pct: 10, sends: (2, 8), ttl_pct: 10, attach_pct: 15, spread_ms: 40, rx_timeout_pct: 20, late_pct: 30, kind_b_pct: 20, acc_pct: 30, ..BASE };
    environment(&c);
    let procs = populate(&c);
    if chance(70) {
        wait_until(w().now + 20 * SEC, || ep(0).join_ret.is_some());
    }
    let mut foreign = vec![];
    for i in 0..1 + d(2) {
        let p = proc_new(&format!("F{}", i));
        foreign.push(p);
        for t in 0..1 + d(2) {
            let visits: Vec<(Vec<Datagram>, i64, i64, i64)> = (0..1 + d(4)).map(|_| ((0..d(4)).map(|_| datagram(true)).collect(), pick(&[0, 0, 1, 30]), pick(&[0, 0, 5, 2_000]), pick(&[0, 1, 50, 400]))).collect();
            for (ds, ..) in &visits {
                for x in ds {
                    stat(U_GARBAGE, 1);
                    note(format!("F{} {} ({} bytes, {} descriptors)", i, x.what, x.bytes.len(), x.fds.len()));
                }
            }
            spawn(p, &format!("foreign{}", t), move || {
                for (ds, gap, linger, pause) in visits {
                    sleep_ms(pause as u64);
                    visit(0, ds, gap, linger);
                }
            });
        }
        if chance(30) {
            arm_kill(p, 0b11, d(300) as u64);
        }
    }
    wait_scripts(150);
    sleep_ms(10_000);
    for p in &foreign {
        w().procs[*p].kill_after = None;
        if w().procs[*p].alive {
            kill(*p);
        }
    }
    settle(3_000);
    probe(1);
    wait_scripts(30);
    // the bus does not hold anything that came from the foreign processes
    sleep_ms(3_000);
    for e in h().eps.iter() {
        let id = e.id;
        on(e.spec.proc, "drop", move || drop_held(id));
    }
    sleep_ms(10);
    for p in procs {
        let foreign_fds = w().procs[p].fds.values().filter(|x| foreign.contains(&kern::f(x.0).creator)).count();
        stat(U_FDCHECK, 1);
        if foreign_fds > 0 {
            violation("fd-leak", &format!("process {} still holds {} descriptors of a foreign process that is gone", p, foreign_fds));
        }
    }
    // a newcomer joins and talks to everybody
    let q = proc_new("N");
    let mut s = spec(q, 1);
    s.scripts.push(vec![Op::Send(SendSpec::simple(true, Expr::T))]);
    let id = add_ep(s);
    wait_until(w().now + 20 * SEC, || ep(id).join_ret.is_some());
    wait_scripts(30);
    probe(1);
    wait_scripts(30);
    sleep_ms(3_000);
    oracle::history();
}
