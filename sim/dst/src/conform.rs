//! The same sequence of system calls on the real kernel and on the simulated one: results must agree.
use crate::engine::*;
use crate::util::*;
use simk::*;
use std::mem::zeroed;

struct Rng(u64);
impl Rng {
    fn d(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 20) as usize % n
    }
}

fn err() -> i32 {
    unsafe { *libc::__errno_location() }
}
fn show(r: i64) -> String {
    if r < 0 {
        format!("-{}", err())
    } else {
        r.to_string()
    }
}

fn addr(name: &[u8]) -> (libc::sockaddr_un, u32) {
    unsafe {
        let mut a: libc::sockaddr_un = zeroed();
        a.sun_family = libc::AF_UNIX as _;
        for (i, b) in name.iter().enumerate() {
            a.sun_path[1 + i] = *b as _;
        }
        (a, (2 + 1 + name.len()) as u32)
    }
}

/// Descriptors are named by their place in `fds`; closed ones stay, so that using them is tried too.
fn script(seed: u64, tag: &str) -> Vec<String> {
    let mut r = Rng(seed | 1);
    let mut fds: Vec<i32> = vec![];
    let mut open: Vec<bool> = vec![];
    // order of the socket pairs: a newer one may travel through an older one, so that nothing is in flight in itself
    let mut group: std::collections::BTreeMap<usize, u32> = Default::default();
    let mut ngroup = 0;
    let mut log = vec![];
    let mut n_msg = 0u8;
    let steps = 10 + r.d(70);
    let prof = r.d(3);
    let push = |fds: &mut Vec<i32>, open: &mut Vec<bool>, x: i32| {
        fds.push(x);
        open.push(true);
        fds.len() - 1
    };
    unsafe {
        for _ in 0..steps {
            let live: Vec<usize> = (0..fds.len()).filter(|i| open[*i]).collect();
            let pick = |r: &mut Rng| -> (usize, i32) {
                if live.is_empty() || r.d(40) == 0 {
                    (99, 9_999)
                } else {
                    let i = live[r.d(live.len())];
                    (i, fds[i])
                }
            };
            let name = format!("dstconf{}{}", tag, r.d(2));
            let op = match prof {
                0 => r.d(24),
                1 => [1, 1, 6, 6, 6, 7, 7, 7, 8, 9, 10, 12, 13, 16, 11][r.d(15)],
                _ => [0, 2, 3, 4, 4, 5, 5, 6, 7, 8, 9, 11, 12, 13, 13][r.d(15)],
            };
            let line = match op {
                0 => {
                    let x = libc::socket(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK, 0);
                    let i = push(&mut fds, &mut open, x);
                    format!("socket = #{}", i)
                }
                1 => {
                    let mut sv = [0; 2];
                    let x = libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | [0, libc::SOCK_CLOEXEC][r.d(2)], 0, sv.as_mut_ptr());
                    let i = push(&mut fds, &mut open, sv[0]);
                    push(&mut fds, &mut open, sv[1]);
                    ngroup += 1;
                    group.insert(i, ngroup);
                    group.insert(i + 1, ngroup);
                    format!("socketpair = {} #{}", x, i)
                }
                2 => {
                    let (i, fd) = pick(&mut r);
                    let (a, l) = addr(name.as_bytes());
                    format!("bind #{} {} = {}", i, name.len(), show(libc::bind(fd, &a as *const _ as _, l) as i64))
                }
                3 => {
                    let (i, fd) = pick(&mut r);
                    let b = [0, 1, 2, 128][r.d(4)];
                    format!("listen #{} {} = {}", i, b, show(libc::listen(fd, b) as i64))
                }
                4 => {
                    let (i, fd) = pick(&mut r);
                    // a blocking socket could wait for room in the backlog
                    if kind(fd) != 0 && !nonblock(fd) {
                        continue;
                    }
                    let (a, l) = addr(name.as_bytes());
                    format!("connect #{} = {}", i, show(libc::connect(fd, &a as *const _ as _, l) as i64))
                }
                5 => {
                    let (i, fd) = pick(&mut r);
                    if kind(fd) != 0 && !nonblock(fd) {
                        continue;
                    }
                    let x = libc::accept4(fd, std::ptr::null_mut(), std::ptr::null_mut(), libc::SOCK_CLOEXEC | [0, libc::SOCK_NONBLOCK][r.d(2)]);
                    if x >= 0 {
                        let j = push(&mut fds, &mut open, x);
                        format!("accept #{} = #{}", i, j)
                    } else {
                        format!("accept #{} = {}", i, show(x as i64))
                    }
                }
                6 => {
                    let (i, fd) = pick(&mut r);
                    let len = [8, 2, 1, 100, 5000, 70000, 212960, 212961, 300000][r.d(9)];
                    n_msg = n_msg.wrapping_add(1);
                    let data = vec![n_msg; len];
                    let k = [0, 0, 1, 2, 3, 253, 254][r.d(7)];
                    let g = group.get(&i).copied().unwrap_or(if prof == 2 { 0 } else { u32::MAX });
                    let att: Vec<i32> = (0..k)
                        .map(|_| pick(&mut r))
                        .filter(|(j, x)| match kind(*x) {
                            0 => k == 1,
                            1 => group.get(j).is_some_and(|h| *h > g),
                            2 => false,
                            _ => true,
                        })
                        .map(|x| x.1)
                        .collect();
                    let (m, x) = send(fd, &data, &att, libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL);
                    let _ = m;
                    format!("sendmsg #{} len {} fds {} = {}", i, len, att.len(), show(x))
                }
                7 => {
                    let (i, fd) = pick(&mut r);
                    let room = [300_000, 8, 0, 100, 6000][r.d(5)];
                    let ctl = [1032, 0, 24, 32, 16, 20, 28][r.d(7)];
                    let fl = [0, libc::MSG_PEEK, libc::MSG_PEEK | libc::MSG_TRUNC, libc::MSG_CMSG_CLOEXEC, libc::MSG_TRUNC][r.d(5)];
                    let mut buf = vec![0u8; room];
                    let mut iov = libc::iovec { iov_base: buf.as_mut_ptr() as _, iov_len: room };
                    let mut h: libc::msghdr = zeroed();
                    h.msg_iov = &mut iov;
                    h.msg_iovlen = 1;
                    let mut c = vec![0u64; ctl / 8 + 1];
                    if ctl > 0 {
                        h.msg_control = c.as_mut_ptr() as _;
                        h.msg_controllen = ctl as _;
                    }
                    let x = libc::recvmsg(fd, &mut h, fl | libc::MSG_DONTWAIT);
                    if x < 0 {
                        format!("recvmsg #{} room {} ctl {} fl {:#x} = {}", i, room, ctl, fl, show(x as i64))
                    } else {
                        let mut got = vec![];
                        if h.msg_controllen as usize >= 16 {
                            let cm = h.msg_control as *const libc::cmsghdr;
                            let n = ((*cm).cmsg_len as usize - 16) / 4;
                            for q in 0..n {
                                got.push((libc::CMSG_DATA(cm) as *const i32).add(q).read_unaligned());
                            }
                        }
                        let ce: Vec<i32> = got.iter().map(|f| libc::fcntl(*f, libc::F_GETFD)).collect();
                        let j = fds.len();
                        let ng = got.len();
                        for g in got {
                            // many are not needed
                            if ng > 10 {
                                libc::close(g);
                            } else {
                                push(&mut fds, &mut open, g);
                            }
                        }
                        let fg = h.msg_flags & (libc::MSG_TRUNC | libc::MSG_CTRUNC);
                        let sum: u64 = buf.iter().map(|b| *b as u64).sum();
                        format!("recvmsg #{} room {} ctl {} fl {:#x} = {} flags {:#x} ctl {} fds {} from #{} cloexec {} sum {}", i, room, ctl, fl, x, fg, h.msg_controllen, ng, j, ce.iter().sum::<i32>(), sum)
                    }
                }
                8 => {
                    let (i, fd) = pick(&mut r);
                    let how = r.d(4) as i32;
                    format!("shutdown #{} {} = {}", i, how, show(libc::shutdown(fd, how) as i64))
                }
                9 => {
                    let (i, fd) = pick(&mut r);
                    // closing what is not open counts as an error of the code under test
                    if fd > 9_000 {
                        continue;
                    }
                    note_epoll(fd, false);
                    let x = libc::close(fd);
                    let s = format!("close #{} = {}", i, show(x as i64));
                    if i < open.len() {
                        open[i] = false;
                        fds[i] = 9_998;
                    }
                    s
                }
                10 | 20 => {
                    let (i, fd) = pick(&mut r);
                    let x = libc::fcntl(fd, [libc::F_DUPFD_CLOEXEC, libc::F_DUPFD][r.d(2)], 3);
                    if x >= 0 {
                        note_epoll(x, kind(fd) == 2);
                        let j = push(&mut fds, &mut open, x);
                        if let Some(g) = group.get(&i).copied() {
                            group.insert(j, g);
                        }
                        format!("dup #{} = #{} {}", i, j, libc::fcntl(x, libc::F_GETFD))
                    } else {
                        format!("dup #{} = {}", i, show(x as i64))
                    }
                }
                11 => {
                    let x = libc::epoll_create1(libc::EPOLL_CLOEXEC);
                    note_epoll(x, true);
                    let i = push(&mut fds, &mut open, x);
                    format!("epoll = #{}", i)
                }
                12 => {
                    let ep = live.iter().copied().find(|i| kind(fds[*i]) == 2);
                    let (e, efd) = match ep {
                        Some(e) if r.d(12) > 0 => (e, fds[e]),
                        _ => pick(&mut r),
                    };
                    let (i, fd) = pick(&mut r);
                    // nested sets and pipes are not used
                    if kind(fd) == 2 {
                        continue;
                    }
                    let o = [libc::EPOLL_CTL_ADD, libc::EPOLL_CTL_ADD, libc::EPOLL_CTL_MOD, libc::EPOLL_CTL_DEL][r.d(4)];
                    let evs = [libc::EPOLLIN, libc::EPOLLOUT, libc::EPOLLIN | libc::EPOLLET, libc::EPOLLIN | libc::EPOLLRDHUP, libc::EPOLLIN | libc::EPOLLONESHOT][r.d(5)] as u32;
                    let mut ev = libc::epoll_event { events: evs, u64: i as u64 };
                    format!("epoll_ctl #{} {} #{} {:#x} = {}", e, o, i, evs, show(libc::epoll_ctl(efd, o, fd, &mut ev) as i64))
                }
                13 | 21 | 22 => {
                    let Some(e) = live.iter().copied().find(|i| kind(fds[*i]) == 2) else { continue };
                    let mut ev: [libc::epoll_event; 64] = zeroed();
                    let x = libc::epoll_wait(fds[e], ev.as_mut_ptr(), 64, 0);
                    let mut v: Vec<(u64, u32)> = ev[..x.max(0) as usize].iter().map(|e| (e.u64, e.events)).collect();
                    v.sort();
                    format!("epoll_wait #{} = {} {:x?}", e, show(x as i64), v)
                }
                14 => {
                    let x = libc::eventfd(r.d(3) as u32, libc::EFD_CLOEXEC | libc::EFD_NONBLOCK);
                    let i = push(&mut fds, &mut open, x);
                    format!("eventfd = #{}", i)
                }
                15 => {
                    let (i, fd) = pick(&mut r);
                    // only descriptors that cannot block
                    if kind(fd) != 0 && (!nonblock(fd) || kind(fd) == 2) {
                        continue;
                    }
                    let mut b = [0u8; 8];
                    let x = libc::read(fd, b.as_mut_ptr() as _, 8);
                    format!("read #{} = {} {:?}", i, show(x as i64), b)
                }
                16 => {
                    let (i, fd) = pick(&mut r);
                    let mut p = libc::pollfd { fd, events: libc::POLLIN | libc::POLLOUT | libc::POLLRDHUP, revents: 0 };
                    let x = libc::poll(&mut p, 1, 0);
                    format!("poll #{} = {} {:#x}", i, show(x as i64), p.revents)
                }
                17 => {
                    let (i, fd) = pick(&mut r);
                    if kind(fd) != 3 {
                        continue;
                    }
                    let v = [1u64, 5, 0, u64::MAX - 1, u64::MAX][r.d(5)];
                    let x = libc::write(fd, &v as *const _ as _, 8);
                    format!("write #{} {} = {}", i, v, show(x as i64))
                }
                18 => {
                    let (i, fd) = pick(&mut r);
                    let v: i32 = [65536, 4096, 1, 200_000][r.d(4)];
                    let which = [libc::SO_SNDBUF, libc::SO_RCVBUF][r.d(2)];
                    let x = libc::setsockopt(fd, libc::SOL_SOCKET, which, &v as *const _ as _, 4);
                    let s = show(x as i64);
                    let mut g = 0i32;
                    let mut l = 4u32;
                    let y = libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &mut g as *mut _ as _, &mut l);
                    format!("sndbuf #{} {} {} = {} {} {}", i, which, v, s, show(y as i64), g)
                }
                19 => {
                    let (i, fd) = pick(&mut r);
                    let mut n = 0;
                    let len = [1, 100, 1000, 5000, 20000, 100_000][r.d(6)];
                    let data = vec![7u8; len];
                    let last = loop {
                        let (_, x) = send(fd, &data, &[], libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL);
                        if x < 0 || n > 2000 {
                            break show(x);
                        }
                        n += 1;
                    };
                    format!("fill #{} with {} = {} then {}", i, len, n, last)
                }
                _ => {
                    let (i, fd) = pick(&mut r);
                    format!("flags #{} = {} {}", i, show(libc::fcntl(fd, libc::F_GETFD) as i64), show((libc::fcntl(fd, libc::F_GETFL) as i64).min(1 << 30) & 0x800))
                }
            };
            log.push(line);
        }
        for (i, fd) in fds.iter().enumerate() {
            if open[i] {
                note_epoll(*fd, false);
                libc::close(*fd);
            }
        }
    }
    log
}

/// 0 closed, 1 socket, 2 epoll, 3 eventfd
fn kind(fd: i32) -> u8 {
    unsafe {
        if libc::fcntl(fd, libc::F_GETFD) < 0 {
            return 0;
        }
        let (mut g, mut l) = (0i32, 4u32);
        if libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &mut g as *mut _ as _, &mut l) == 0 {
            return 1;
        }
        // sets of events are noted as they are created and never sent
        if EPOLLS.with(|e| e.borrow().contains(&fd)) {
            2
        } else {
            3
        }
    }
}
thread_local! { static EPOLLS: std::cell::RefCell<std::collections::BTreeSet<i32>> = const { std::cell::RefCell::new(std::collections::BTreeSet::new()) }; }
fn note_epoll(fd: i32, is: bool) {
    EPOLLS.with(|e| {
        let mut e = e.borrow_mut();
        if is {
            e.insert(fd);
        } else {
            e.remove(&fd);
        }
    });
}
fn nonblock(fd: i32) -> bool {
    unsafe { libc::fcntl(fd, libc::F_GETFL) & libc::O_NONBLOCK != 0 }
}
fn send(fd: i32, data: &[u8], att: &[i32], fl: i32) -> (usize, i64) {
    unsafe {
        let mut iov = libc::iovec { iov_base: data.as_ptr() as _, iov_len: data.len() };
        let mut h: libc::msghdr = zeroed();
        h.msg_iov = &mut iov;
        h.msg_iovlen = 1;
        let n = 16 + 4 * att.len();
        let mut c = vec![0u64; n / 8 + 2];
        if !att.is_empty() {
            h.msg_control = c.as_mut_ptr() as _;
            h.msg_controllen = ((n + 7) & !7) as _;
            let cm = c.as_mut_ptr() as *mut libc::cmsghdr;
            (*cm).cmsg_len = n as _;
            (*cm).cmsg_level = libc::SOL_SOCKET;
            (*cm).cmsg_type = libc::SCM_RIGHTS;
            for (i, a) in att.iter().enumerate() {
                (libc::CMSG_DATA(cm) as *mut i32).add(i).write_unaligned(*a);
            }
        }
        (n, libc::sendmsg(fd, &h, fl) as i64)
    }
}

pub fn conform() {
    let seed = (d(1 << 16) as u64) << 32 | (d(1 << 16) as u64) << 16 | d(1 << 16) as u64;
    let tag = format!("{:x}", seed);
    // as a thread the simulator does not know: the calls reach the real kernel
    let me = w().cur;
    set_cur(None);
    let a = script(seed, &tag);
    set_cur(Some(me));
    let p = proc_new("P");
    let out: &'static mut Option<Vec<String>> = Box::leak(Box::new(None));
    let o2 = out as *mut Option<Vec<String>>;
    crate::scn2::on(p, "calls", move || {
        let v = user(|| script(seed, &tag));
        unsafe { *o2 = Some(v) };
    });
    let b = unsafe { (*o2).take() }.unwrap_or_default();
    stat(U_CONFORM, b.len() as u32);
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        if x != y {
            violation("conform", &format!("call {}: kernel [{}] simk [{}] after {:?}", i, x, y, &a[i.saturating_sub(60)..i]));
        }
    }
    if a.len() != b.len() {
        violation("conform", "logs differ in length");
    }
}
