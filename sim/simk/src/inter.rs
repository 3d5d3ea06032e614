//! libc symbols defined by the executable: simulated for simulated threads, raw kernel calls otherwise.
#![allow(non_snake_case)]
use crate::kern::*;
use crate::raw::{ret, sc3, set_errno, syscall6};
use crate::sched::*;
use crate::{stat, sysno};
use libc::{c_char, c_int, c_long, c_void, size_t, socklen_t, ssize_t};


struct Call {
    no: u32,
    g: KGuard,
    p: Pid,
}

/// Entry of a simulated system call: scheduling point, possible delay.
fn enter(no: u32) -> Call {
    let g = kenter();
    if w().delay_at != 1 {
        maybe_delay();
    }
    yield_now(Yk::Sys);
    let wd = w();
    wd.threads[wd.cur].last_sys = no;
    wd.threads[wd.cur].yields = 0;
    let p = wd.threads[wd.cur].proc;
    stat(crate::S_SYSCALLS, 1);
    Call { no, g, p }
}

impl Call {
    /// injected errno for this call, if any
    fn inject(&self, errs: &[i32]) -> Option<i32> {
        if w().errno_mask >> self.no & 1 == 0 {
            return None;
        }
        let v = fault(F_ERRNO)?;
        let e = errs[v as usize % errs.len()];
        stat(crate::S_ERRNO_BASE + self.no as usize, 1);
        if w().trace {
            trace(&format!("INJECT {} -> errno {}", sysno::NAMES[self.no as usize], e));
        }
        Some(e)
    }
    fn done(self, args: std::fmt::Arguments, r: R) -> i64 {
        let wd = w();
        let code = match r {
            Ok(v) => v as u64,
            Err(e) => (-(e as i64)) as u64,
        };
        let t = wd.cur as u64;
        wd.log_hash((t << 56) ^ ((self.no as u64) << 48) ^ code);
        wd.shape = mix(wd.shape, (t << 8) ^ self.no as u64);
        let cls = match r {
            Ok(0) => 0,
            Ok(_) => 1,
            Err(e) => 2 + e as u64,
        };
        wd.cov((wd.threads[wd.cur].proc as u64) << 32 | (self.no as u64) << 16 | cls);
        if wd.trace {
            let n = sysno::NAMES[self.no as usize];
            match r {
                Ok(v) => trace(&format!("{}({}) = {}", n, args, v)),
                Err(e) => trace(&format!("{}({}) = -{}", n, args, ename(e))),
            }
        }
        // descheduled right after the call took effect
        if w().delay_at > 0 {
            maybe_delay();
        }
        drop(self.g);
        match r {
            Ok(v) => v,
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    }
}

pub fn ename(e: i32) -> String {
    let s = match e {
        libc::EINTR => "EINTR",
        libc::EAGAIN => "EAGAIN",
        libc::EPIPE => "EPIPE",
        libc::ECONNRESET => "ECONNRESET",
        libc::ECONNREFUSED => "ECONNREFUSED",
        libc::EADDRINUSE => "EADDRINUSE",
        libc::EMFILE => "EMFILE",
        libc::ENFILE => "ENFILE",
        libc::ENOMEM => "ENOMEM",
        libc::ENOBUFS => "ENOBUFS",
        libc::EBADF => "EBADF",
        libc::EINVAL => "EINVAL",
        libc::EMSGSIZE => "EMSGSIZE",
        _ => return format!("E{}", e),
    };
    s.to_string()
}

macro_rules! real {
    ($n:expr $(, $a:expr)*) => {{
        #[allow(unused_mut)]
        let mut a = [0usize; 6];
        let v: &[usize] = &[$($a as usize),*];
        a[..v.len()].copy_from_slice(v);
        ret(syscall6($n, a[0], a[1], a[2], a[3], a[4], a[5]))
    }};
}

#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, pr: c_int) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_socket, d, t, pr) as c_int;
    }
    let c = enter(sysno::SOCKET);
    let r = match c.inject(&[libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::ENOBUFS]) {
        Some(e) => Err(e),
        None => sys_socket(c.p, d, t),
    };
    c.done(format_args!("{:#x}", t), r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn socketpair(d: c_int, t: c_int, pr: c_int, sv: *mut c_int) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_socketpair, d, t, pr, sv) as c_int;
    }
    let c = enter(sysno::SOCKETPAIR);
    let r = match c.inject(&[libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::ENOBUFS]) {
        Some(e) => Err(e),
        None => sys_socketpair(c.p, d, t).map(|(a, b)| {
            *sv = a;
            *sv.add(1) = b;
            0
        }),
    };
    c.done(format_args!("-> {},{}", *sv, *sv.add(1)), r) as c_int
}

unsafe fn un_path<'a>(addr: *const c_void, len: socklen_t) -> &'a [u8] {
    if addr.is_null() || len < 2 {
        return &[];
    }
    std::slice::from_raw_parts((addr as *const u8).add(2), (len as usize - 2).min(108))
}

fn show(p: &[u8]) -> String {
    String::from_utf8_lossy(p).trim_matches('\0').to_string()
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, addr: *const c_void, len: socklen_t) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_bind, fd, addr, len) as c_int;
    }
    let c = enter(sysno::BIND);
    let path = un_path(addr, len);
    let r = match c.inject(&[libc::ENOMEM, libc::EACCES]) {
        Some(e) => Err(e),
        None if w().procs[c.p].deny => Err(libc::EACCES),
        None => sys_bind(c.p, fd, path),
    };
    c.done(format_args!("{}, {}", fd, show(path)), r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const c_void, len: socklen_t) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_connect, fd, addr, len) as c_int;
    }
    let c = enter(sysno::CONNECT);
    let path = un_path(addr, len);
    let r = match c.inject(&[libc::ENOMEM, libc::ENOBUFS, libc::EACCES]) {
        Some(e) => Err(e),
        None if path.is_empty() => Err(libc::EINVAL),
        None if w().procs[c.p].deny => Err(libc::EACCES),
        None => sys_connect(c.p, fd, path),
    };
    c.done(format_args!("{}, {}", fd, show(path)), r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_listen, fd, n) as c_int;
    }
    let c = enter(sysno::LISTEN);
    let r = match c.inject(&[libc::ENOMEM]) {
        Some(e) => Err(e),
        None => sys_listen(c.p, fd, n),
    };
    c.done(format_args!("{}, {}", fd, n), r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut c_void, l: *mut socklen_t, fl: c_int) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_accept4, fd, a, l, fl) as c_int;
    }
    let c = enter(sysno::ACCEPT);
    let r = match c.inject(&[libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::ENOBUFS]) {
        Some(e) => Err(e),
        None => sys_accept(c.p, fd, fl),
    };
    if r.is_ok() && !l.is_null() {
        *l = 2;
    }
    c.done(format_args!("{}, {:#x}", fd, fl), r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut c_void, l: *mut socklen_t) -> c_int {
    accept4(fd, a, l, 0)
}

#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_shutdown, fd, how) as c_int;
    }
    let c = enter(sysno::SHUTDOWN);
    let r = sys_shutdown(c.p, fd, how);
    c.done(format_args!("{}, {}", fd, how), r) as c_int
}

fn tv_ns(v: *const c_void) -> u64 {
    let tv = unsafe { *(v as *const libc::timeval) };
    if tv.tv_sec == 0 && tv.tv_usec == 0 {
        NODL
    } else {
        tv.tv_sec as u64 * 1_000_000_000 + tv.tv_usec as u64 * 1000
    }
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lv: c_int, nm: c_int, v: *const c_void, l: socklen_t) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_setsockopt, fd, lv, nm, v, l) as c_int;
    }
    let c = enter(sysno::SETSOCKOPT);
    let r = (|| {
        let id = get(c.p, fd)?;
        if !matches!(f(id).kind, Kind::Sock(_)) {
            return Err(libc::ENOTSOCK);
        }
        if lv != libc::SOL_SOCKET {
            return Err(libc::ENOPROTOOPT);
        }
        let s = sock(id);
        match nm {
            libc::SO_SNDBUF => s.sndbuf = ((*(v as *const i32)).clamp(0, 212992) as usize * 2).max(4608),
            libc::SO_SNDBUFFORCE => s.sndbuf = ((*(v as *const i32)).max(0) as usize * 2).max(4608),
            libc::SO_RCVBUF | libc::SO_RCVBUFFORCE => s.rcvbuf = ((*(v as *const i32)).clamp(0, 212992) as usize * 2).max(2304),
            libc::SO_RCVTIMEO => s.rcvtimeo = tv_ns(v),
            libc::SO_SNDTIMEO => s.sndtimeo = tv_ns(v),
            libc::SO_PASSCRED | libc::SO_REUSEADDR => {}
            _ => crate::unmodeled("setsockopt"),
        }
        if matches!(nm, libc::SO_SNDBUF | libc::SO_SNDBUFFORCE) {
            notify_key(id, libc::EPOLLOUT as u32);
        }
        Ok(0)
    })();
    c.done(format_args!("{}, {}", fd, nm), r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lv: c_int, nm: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_getsockopt, fd, lv, nm, v, l) as c_int;
    }
    let c = enter(sysno::GETSOCKOPT);
    let r = (|| {
        let id = get(c.p, fd)?;
        if !matches!(f(id).kind, Kind::Sock(_)) {
            return Err(libc::ENOTSOCK);
        }
        let s = sock(id);
        if nm == libc::SO_PEERCRED {
            let u = libc::ucred { pid: 1000 + s.peer_pid as i32, uid: 0, gid: 0 };
            std::ptr::copy_nonoverlapping(&u as *const _ as *const u8, v as *mut u8, (*l as usize).min(std::mem::size_of_val(&u)));
            return Ok(0);
        }
        let val: i32 = match nm {
            libc::SO_ERROR => {
                let e = s.err;
                s.err = 0;
                e
            }
            libc::SO_SNDBUF => s.sndbuf as i32,
            libc::SO_RCVBUF => s.rcvbuf as i32,
            libc::SO_TYPE => libc::SOCK_SEQPACKET,
            libc::SO_DOMAIN => libc::AF_UNIX,
            libc::SO_ACCEPTCONN => s.listening as i32,
            _ => {
                crate::unmodeled("getsockopt");
                return Err(libc::ENOPROTOOPT);
            }
        };
        if lv != libc::SOL_SOCKET {
            return Err(libc::ENOPROTOOPT);
        }
        let b = val.to_ne_bytes();
        let n = (*l as usize).min(4);
        std::ptr::copy_nonoverlapping(b.as_ptr(), v as *mut u8, n);
        *l = n as u32;
        Ok(0)
    })();
    c.done(format_args!("{}, {}", fd, nm), r) as c_int
}

unsafe fn iovs<'a>(h: *const libc::msghdr) -> Vec<&'a mut [u8]> {
    let mut v = vec![];
    for i in 0..(*h).msg_iovlen {
        let io = &*(*h).msg_iov.add(i as usize);
        if io.iov_len > 0 {
            v.push(std::slice::from_raw_parts_mut(io.iov_base as *mut u8, io.iov_len));
        }
    }
    v
}

#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, h: *const libc::msghdr, fl: c_int) -> ssize_t {
    if !in_sim() {
        return real!(libc::SYS_sendmsg, fd, h, fl) as ssize_t;
    }
    let c = enter(sysno::SENDMSG);
    let io = iovs(h);
    let data: Vec<&[u8]> = io.iter().map(|x| &**x).collect();
    let len: usize = data.iter().map(|d| d.len()).sum();
    let mut nfds = 0;
    let r = (|| {
        let mut scm: Option<Vec<i32>> = None;
        if !(*h).msg_control.is_null() && (*h).msg_controllen >= 16 {
            let mut cm = libc::CMSG_FIRSTHDR(h);
            while !cm.is_null() {
                let clen = (*cm).cmsg_len as usize;
                if clen < 16 || (cm as usize - (*h).msg_control as usize) + clen > (*h).msg_controllen as usize {
                    return Err(libc::EINVAL);
                }
                if (*cm).cmsg_level == libc::SOL_SOCKET {
                    if (*cm).cmsg_type == libc::SCM_RIGHTS {
                        let n = (clen - 16) / 4;
                        let p = libc::CMSG_DATA(cm) as *const i32;
                        let v = scm.get_or_insert_with(Vec::new);
                        for i in 0..n {
                            v.push(p.add(i).read_unaligned());
                        }
                    } else if (*cm).cmsg_type != libc::SCM_CREDENTIALS {
                        return Err(libc::EINVAL);
                    }
                }
                cm = libc::CMSG_NXTHDR(h, cm);
            }
        }
        nfds = scm.as_ref().map(|v| v.len()).unwrap_or(0);
        if let Some(e) = c.inject(&[libc::ENOBUFS, libc::ENOMEM, libc::ETOOMANYREFS]) {
            return Err(e);
        }
        let scm = scm.filter(|v| !v.is_empty());
        sys_sendmsg(c.p, fd, &data, scm.as_deref(), fl)
    })();

    c.done(format_args!("{}, len {}, fds {}", fd, len, nfds), r) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, h: *mut libc::msghdr, fl: c_int) -> ssize_t {
    if !in_sim() {
        return real!(libc::SYS_recvmsg, fd, h, fl) as ssize_t;
    }
    let c = enter(sysno::RECVMSG);
    let mut io = iovs(h);
    let room: usize = io.iter().map(|x| x.len()).sum();
    let mut nf = 0;
    let r = (|| {
        if let Some(e) = c.inject(&[libc::ENOMEM, libc::ENOBUFS]) {
            return Err(e);
        }
        let rv = sys_recv(c.p, fd, &mut io, fl)?;
        (*h).msg_flags = fl & 0;
        if rv.full > room {
            (*h).msg_flags |= libc::MSG_TRUNC;
        }
        let peek = fl & libc::MSG_PEEK != 0;
        // control data
        if rv.has_scm && !rv.fds.is_empty() {
            let cap = if (*h).msg_control.is_null() { 0 } else { (*h).msg_controllen as usize };
            let fit = if cap >= 16 { (cap - 16) / 4 } else { 0 };
            let mut put_n = 0;
            if fit > 0 {
                let p = (*h).msg_control as *mut u8;
                for x in rv.fds.iter().take(fit) {
                    match install_fd(c.p, *x, fl & libc::MSG_CMSG_CLOEXEC != 0, 0) {
                        Ok(n) => {
                            (p.add(16 + 4 * put_n) as *mut i32).write_unaligned(n);
                            put_n += 1;
                        }
                        Err(_) => break,
                    }
                }
                if put_n > 0 {
                    let cm = p as *mut libc::cmsghdr;
                    (*cm).cmsg_len = (16 + 4 * put_n) as _;
                    (*cm).cmsg_level = libc::SOL_SOCKET;
                    (*cm).cmsg_type = libc::SCM_RIGHTS;
                }
            }
            if put_n < rv.fds.len() {
                (*h).msg_flags |= libc::MSG_CTRUNC;
                stat(crate::S_CTRUNC, 1);
            }
            if !(*h).msg_control.is_null() {
                (*h).msg_controllen = if put_n > 0 { ((16 + 4 * put_n + 7) & !7).min(cap) as _ } else { 0 };
            }
            nf = put_n;
        } else if !(*h).msg_control.is_null() {
            (*h).msg_controllen = 0;
        }
        let _ = peek;
        for x in rv.fds {
            put(x);
        }
        if fl & libc::MSG_CMSG_CLOEXEC != 0 {
            (*h).msg_flags |= libc::MSG_CMSG_CLOEXEC;
        }
        (*h).msg_flags |= libc::MSG_EOR & 0;
        Ok(if fl & libc::MSG_TRUNC != 0 { rv.full } else { rv.n } as i64)
    })();
    c.done(format_args!("{}, {:#x}, room {}, fds {}", fd, fl, room, nf), r) as ssize_t
}

unsafe fn do_write(c: &Call, fd: i32, b: &[u8], fl: i32) -> R {
    let id = get(c.p, fd)?;
    match &mut f(id).kind {
        Kind::Sock(_) => sys_sendmsg(c.p, fd, &[b], None, fl),
        Kind::Event { .. } => {
            if b.len() < 8 {
                return Err(libc::EINVAL);
            }
            let v = u64::from_ne_bytes(b[..8].try_into().unwrap());
            if v == u64::MAX {
                return Err(libc::EINVAL);
            }
            loop {
                let fl = f(id);
                if let Kind::Event { count, .. } = &mut fl.kind {
                    if u64::MAX - 1 - *count >= v {
                        *count += v;
                        notify_key(id, libc::EPOLLIN as u32);
                        return Ok(8);
                    }
                }
                if fl.nonblock {
                    return Err(libc::EAGAIN);
                }
                if block_int(Chan::File(id), NODL, "write eventfd", true) == Wake::Interrupted {
                    return Err(libc::EINTR);
                }
            }
        }
        Kind::Mem { real } | Kind::Real { real } => {
            let r = sc3(libc::SYS_write, *real as usize, b.as_ptr() as usize, b.len());
            if r < 0 {
                Err(-r as i32)
            } else {
                Ok(r as i64)
            }
        }
        Kind::PipeW { r, r_open } => {
            if !*r_open {
                return Err(libc::EPIPE);
            }
            let r = *r;
            if let Kind::PipeR { buf, .. } = &mut f(r).kind {
                buf.extend(b);
            }
            notify(r);
            Ok(b.len() as i64)
        }
        _ => Err(libc::EINVAL),
    }
}

unsafe fn do_read(c: &Call, fd: i32, b: &mut [u8], fl: i32) -> R {
    let id = get(c.p, fd)?;
    loop {
        let file = f(id);
        match &mut file.kind {
            Kind::Sock(_) => {
                let r = sys_recv(c.p, fd, &mut [b], fl)?;
                for x in r.fds {
                    put(x);
                }
                return Ok(if fl & libc::MSG_TRUNC != 0 { r.full } else { r.n } as i64);
            }
            Kind::Event { count, sem } => {
                if b.len() < 8 {
                    return Err(libc::EINVAL);
                }
                if *count > 0 {
                    let v = if *sem { 1 } else { *count };
                    *count -= v;
                    b[..8].copy_from_slice(&v.to_ne_bytes());
                    notify_key(id, libc::EPOLLOUT as u32);
                    return Ok(8);
                }
            }
            Kind::Mem { real } | Kind::Real { real } => {
                let r = sc3(libc::SYS_read, *real as usize, b.as_mut_ptr() as usize, b.len());
                return if r < 0 { Err(-r as i32) } else { Ok(r as i64) };
            }
            Kind::PipeR { buf, w_open, .. } => {
                if !buf.is_empty() {
                    let n = buf.len().min(b.len());
                    for x in b.iter_mut().take(n) {
                        *x = buf.pop_front().unwrap();
                    }
                    return Ok(n as i64);
                }
                if !*w_open {
                    return Ok(0);
                }
            }
            _ => return Err(libc::EINVAL),
        }
        if file.nonblock {
            return Err(libc::EAGAIN);
        }
        if block_int(Chan::File(id), NODL, "read", true) == Wake::Interrupted {
            return Err(libc::EINTR);
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if !in_sim() || fd < 3 {
        return real!(libc::SYS_write, fd, b, n);
    }
    let c = enter(sysno::WRITE);
    let r = do_write(&c, fd, std::slice::from_raw_parts(b as *const u8, n), 0);
    c.done(format_args!("{}, {}", fd, n), r) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if !in_sim() || fd < 3 {
        return real!(libc::SYS_read, fd, b, n);
    }
    let c = enter(sysno::READ);
    let r = do_read(&c, fd, std::slice::from_raw_parts_mut(b as *mut u8, n), 0);
    c.done(format_args!("{}, {}", fd, n), r) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    if !in_sim() {
        return real!(libc::SYS_sendto, fd, b, n, fl, 0, 0);
    }
    let c = enter(sysno::SENDMSG);
    let r = if let Some(e) = c.inject(&[libc::ENOBUFS, libc::ENOMEM]) {
        Err(e)
    } else {
        sys_sendmsg(c.p, fd, &[std::slice::from_raw_parts(b as *const u8, n)], None, fl)
    };
    c.done(format_args!("{}, {}", fd, n), r) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    if !in_sim() {
        return real!(libc::SYS_recvfrom, fd, b, n, fl, 0, 0);
    }
    let c = enter(sysno::RECVMSG);
    let s: &mut [u8] = if n == 0 { &mut [] } else { std::slice::from_raw_parts_mut(b as *mut u8, n) };
    let r = do_read(&c, fd, s, fl);
    c.done(format_args!("{}, {}, {:#x}", fd, n, fl), r) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: size_t, fl: c_int, _a: *const c_void, _l: socklen_t) -> ssize_t {
    if !in_sim() {
        return real!(libc::SYS_sendto, fd, b, n, fl, _a, _l);
    }
    send(fd, b, n, fl)
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: size_t, fl: c_int, _a: *mut c_void, _l: *mut socklen_t) -> ssize_t {
    if !in_sim() {
        return real!(libc::SYS_recvfrom, fd, b, n, fl, _a, _l);
    }
    recv(fd, b, n, fl)
}

#[no_mangle]
pub unsafe extern "C" fn epoll_create1(fl: c_int) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_epoll_create1, fl) as c_int;
    }
    let c = enter(sysno::EPOLL_CREATE);
    let r = match c.inject(&[libc::EMFILE, libc::ENFILE, libc::ENOMEM]) {
        Some(e) => Err(e),
        None => {
            let id = new_file(Kind::Epoll(Default::default()), "epoll");
            install_fd(c.p, id, fl & libc::EPOLL_CLOEXEC != 0, 0).map(|x| x as i64)
        }
    };
    c.done(format_args!("{:#x}", fl), r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create(_n: c_int) -> c_int {
    epoll_create1(0)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_epoll_ctl, ep, op, fd, ev) as c_int;
    }
    let c = enter(sysno::EPOLL_CTL);
    let r = match c.inject(&[libc::ENOMEM, libc::ENOSPC]) {
        Some(e) if op == libc::EPOLL_CTL_ADD => Err(e),
        _ => sys_epoll_ctl(c.p, ep, op, fd, if ev.is_null() { None } else { Some(((*ev).events, (*ev).u64)) }),
    };
    c.done(format_args!("{}, {}, {}", ep, op, fd), r) as c_int
}
unsafe fn epoll_wait_ns(ep: c_int, evs: *mut libc::epoll_event, max: c_int, t: Option<u64>) -> c_int {
    let c = enter(sysno::EPOLL_WAIT);
    let r = sys_epoll_wait(c.p, ep, max, t).map(|v| {
        for (i, (m, d)) in v.iter().enumerate() {
            let e = evs.add(i);
            (*e).events = *m;
            (*e).u64 = *d;
        }
        v.len() as i64
    });
    c.done(format_args!("{}, {:?}", ep, t), r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut libc::epoll_event, max: c_int, t: c_int) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_epoll_wait, ep, evs, max, t) as c_int;
    }
    epoll_wait_ns(ep, evs, max, if t < 0 { None } else { Some(t as u64 * 1_000_000) })
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait(ep: c_int, evs: *mut libc::epoll_event, max: c_int, t: c_int, _s: *const c_void) -> c_int {
    epoll_wait(ep, evs, max, t)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait2(ep: c_int, evs: *mut libc::epoll_event, max: c_int, t: *const libc::timespec, _s: *const c_void) -> c_int {
    if !in_sim() {
        return real!(441, ep, evs, max, t, _s, 8) as c_int;
    }
    epoll_wait_ns(ep, evs, max, if t.is_null() { None } else { Some((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64) })
}

unsafe fn do_poll(fds: *mut libc::pollfd, n: usize, timeout: Option<u64>) -> c_int {
    let c = enter(sysno::POLL);
    let dl = timeout.map(|t| w().now.saturating_add(t)).unwrap_or(NODL);
    let r = loop {
        let mut cnt = 0;
        let mut ids = vec![];
        for i in 0..n {
            let p = &mut *fds.add(i);
            p.revents = 0;
            if p.fd < 0 {
                continue;
            }
            match get(c.p, p.fd) {
                Err(_) => {
                    p.revents = libc::POLLNVAL;
                    cnt += 1;
                }
                Ok(id) => {
                    let m = poll_mask(id) as i16 & (p.events | libc::POLLERR | libc::POLLHUP);
                    p.revents = m;
                    if m != 0 {
                        cnt += 1;
                    }
                    ids.push(id);
                }
            }
        }
        if cnt > 0 || timeout == Some(0) || w().now >= dl {
            break Ok(cnt as i64);
        }
        let chan = match ids.len() {
            0 => Chan::Sleep,
            1 => Chan::File(ids[0]),
            _ => {
                // several files: watch them through a temporary epoll object
                let e = new_file(Kind::Epoll(Default::default()), "poll-tmp");
                if let Kind::Epoll(ep) = &mut f(e).kind {
                    for id in &ids {
                        ep.items.push(EpItem { fd: *id as i32, file: *id, events: !0, data: 0, disabled: false, queued: false });
                    }
                }
                for id in &ids {
                    f(*id).epolls.push(e);
                }
                Chan::File(e)
            }
        };
        if block_int(chan, dl, "poll", true) == Wake::Interrupted {
            break Err(libc::EINTR);
        }
    };
    let d = if n > 0 { ((*fds).fd, (*fds).revents) } else { (-1, 0) };
    c.done(format_args!("{} fds, first {:?}, {:?}", n, d, timeout), r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, t: c_int) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_poll, fds, n, t) as c_int;
    }
    do_poll(fds, n as usize, if t < 0 { None } else { Some(t as u64 * 1_000_000) })
}
#[no_mangle]
pub unsafe extern "C" fn ppoll(fds: *mut libc::pollfd, n: libc::nfds_t, t: *const libc::timespec, s: *const c_void) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_ppoll, fds, n, t, s, 8) as c_int;
    }
    do_poll(fds, n as usize, if t.is_null() { None } else { Some((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64) })
}

#[no_mangle]
pub unsafe extern "C" fn eventfd(init: libc::c_uint, fl: c_int) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_eventfd2, init, fl) as c_int;
    }
    let c = enter(sysno::EVENTFD);
    let r = match c.inject(&[libc::EMFILE, libc::ENFILE, libc::ENOMEM]) {
        Some(e) => Err(e),
        None => {
            let id = new_file(Kind::Event { count: init as u64, sem: fl & libc::EFD_SEMAPHORE != 0 }, "eventfd");
            f(id).nonblock = fl & libc::EFD_NONBLOCK != 0;
            install_fd(c.p, id, fl & libc::EFD_CLOEXEC != 0, 0).map(|x| x as i64)
        }
    };
    c.done(format_args!("{:#x}", fl), r) as c_int
}

unsafe fn do_pipe(fds: *mut c_int, fl: c_int) -> c_int {
    let c = enter(sysno::PIPE);
    let ce = fl & libc::O_CLOEXEC != 0;
    let rd = new_file(Kind::PipeR { buf: Default::default(), w_open: true, w: 0 }, "pipe-r");
    let wr = new_file(Kind::PipeW { r: rd, r_open: true }, "pipe-w");
    if let Kind::PipeR { w, .. } = &mut f(rd).kind {
        *w = wr;
    }
    f(rd).nonblock = fl & libc::O_NONBLOCK != 0;
    f(wr).nonblock = fl & libc::O_NONBLOCK != 0;
    let r = (|| {
        let a = install_fd(c.p, rd, ce, 0)?;
        let b = install_fd(c.p, wr, ce, 0)?;
        *fds = a;
        *fds.add(1) = b;
        Ok(0)
    })();
    c.done(format_args!(""), r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, fl: c_int) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_pipe2, fds, fl) as c_int;
    }
    do_pipe(fds, fl)
}
#[no_mangle]
pub unsafe extern "C" fn pipe(fds: *mut c_int) -> c_int {
    pipe2(fds, 0)
}

#[no_mangle]
pub unsafe extern "C" fn memfd_create(name: *const c_char, fl: libc::c_uint) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_memfd_create, name, fl) as c_int;
    }
    let c = enter(sysno::MEMFD);
    let r = match c.inject(&[libc::EMFILE, libc::ENFILE, libc::ENOMEM]) {
        Some(e) => Err(e),
        None => {
            let real = sc3(libc::SYS_memfd_create, name as usize, fl as usize, 0);
            if real < 0 {
                Err(-real as i32)
            } else {
                let id = new_file(Kind::Mem { real: real as i32 }, "memfd");
                match install_fd(c.p, id, fl & libc::MFD_CLOEXEC != 0, 0) {
                    Ok(x) => Ok(x as i64),
                    Err(e) => {
                        sc3(libc::SYS_close, real as usize, 0, 0);
                        w().kern.files[id] = None;
                        Err(e)
                    }
                }
            }
        }
    };
    c.done(format_args!(""), r) as c_int
}

/// Runs a real system call on the real descriptor behind a simulated memfd (or opened file).
fn on_real(c: &Call, fd: i32, g: impl FnOnce(usize) -> isize) -> R {
    let id = get(c.p, fd)?;
    match f(id).kind {
        Kind::Mem { real } | Kind::Real { real } => {
            let r = g(real as usize);
            if r < 0 {
                Err(-r as i32)
            } else {
                Ok(r as i64)
            }
        }
        _ => Err(libc::EINVAL),
    }
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_ftruncate, fd, n) as c_int;
    }
    let c = enter(sysno::FTRUNCATE);
    let r = match c.inject(&[libc::ENOMEM, libc::ENOSPC, libc::EINTR]) {
        Some(e) => Err(e),
        None => on_real(&c, fd, |r| sc3(libc::SYS_ftruncate, r, n as usize, 0)),
    };
    c.done(format_args!("{}, {}", fd, n), r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: i64) -> c_int {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut c_void) -> c_int {
    if !in_sim() || fd < 3 {
        return real!(libc::SYS_fstat, fd, st) as c_int;
    }
    let c = enter(sysno::FSTAT);
    let r = on_real(&c, fd, |r| sc3(libc::SYS_fstat, r, st as usize, 0));
    c.done(format_args!("{}", fd), r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut c_void) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, wh: c_int) -> i64 {
    if !in_sim() || fd < 3 {
        return real!(libc::SYS_lseek, fd, o, wh) as i64;
    }
    let c = enter(sysno::LSEEK);
    let r = on_real(&c, fd, |r| sc3(libc::SYS_lseek, r, o as usize, wh as usize));
    c.done(format_args!("{}", fd), r)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, o: i64, wh: c_int) -> i64 {
    lseek64(fd, o, wh)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: i64) -> ssize_t {
    if !in_sim() || fd < 3 {
        return real!(libc::SYS_pread64, fd, b, n, o);
    }
    let c = enter(sysno::READ);
    let r = on_real(&c, fd, |r| syscall6(libc::SYS_pread64, r, b as usize, n, o as usize, 0, 0));
    c.done(format_args!("{}", fd), r) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: i64) -> ssize_t {
    if !in_sim() || fd < 3 {
        return real!(libc::SYS_pwrite64, fd, b, n, o);
    }
    let c = enter(sysno::WRITE);
    let r = on_real(&c, fd, |r| syscall6(libc::SYS_pwrite64, r, b as usize, n, o as usize, 0, 0));
    c.done(format_args!("{}", fd), r) as ssize_t
}

unsafe fn do_open(dir: usize, path: *const c_char, fl: c_int, mode: usize) -> c_int {
    let c = enter(sysno::OPEN);
    let real = syscall6(libc::SYS_openat, dir, path as usize, fl as usize, mode, 0, 0);
    let r = if real < 0 {
        Err(-real as i32)
    } else {
        let id = new_file(Kind::Real { real: real as i32 }, "file");
        install_fd(c.p, id, fl & libc::O_CLOEXEC != 0, 0).map(|x| x as i64)
    };
    c.done(format_args!(""), r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, fl: c_int, mode: usize) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_openat, libc::AT_FDCWD as isize, path, fl, mode) as c_int;
    }
    do_open(libc::AT_FDCWD as isize as usize, path, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, fl: c_int, mode: usize) -> c_int {
    open64(path, fl, mode)
}

#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, len: size_t, prot: c_int, fl: c_int, fd: c_int, off: i64) -> *mut c_void {
    if !in_sim() || fl & libc::MAP_ANONYMOUS != 0 {
        return real!(libc::SYS_mmap, a, len, prot, fl, fd as isize, off) as *mut c_void;
    }
    let c = enter(sysno::MMAP);
    let r = match c.inject(&[libc::ENOMEM, libc::EAGAIN]) {
        Some(e) => Err(e),
        None if !a.is_null() || len == 0 => Err(libc::EINVAL),
        None => {
            let kn = k();
            let pages = (len + 4095) / 4096 * 4096;
            let at = kn.arena_next;
            if pages > crate::ARENA_LEN / 2 || at + pages + 4096 > crate::arena() + crate::ARENA_LEN {
                Err(libc::ENOMEM)
            } else {
                on_real(&c, fd, |r| syscall6(libc::SYS_mmap, at, len, prot as usize, (fl | libc::MAP_FIXED) as usize, r, off as usize)).map(|v| {
                    let kn = k();
                    kn.arena_next += pages + 4096;
                    kn.live.insert(v as usize, pages);
                    if let Ok(id) = get(c.p, fd) {
                        kn.maps.insert(v as usize, (pages, id));
                        kn.last_map.insert(crate::sched::cur_tid() as usize, id);
                    }
                    v
                })
            }
        }
    };
    let shown = r.map(|v| v - crate::arena() as i64);
    match shown {
        Ok(_) => {
            let v = r.unwrap();
            c.done(format_args!("{}, len {}, off {}", fd, len, off), shown);
            v as *mut c_void
        }
        Err(_) => c.done(format_args!("{}, len {}, off {}", fd, len, off), r) as *mut c_void,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, len: size_t, prot: c_int, fl: c_int, fd: c_int, off: i64) -> *mut c_void {
    mmap64(a, len, prot, fl, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut c_void, len: size_t) -> c_int {
    let ar = crate::arena();
    if !in_sim() || (a as usize) < ar || a as usize >= ar + crate::ARENA_LEN {
        return real!(libc::SYS_munmap, a, len) as c_int;
    }
    let c = enter(sysno::MUNMAP);
    let r = if a as usize % 4096 != 0 || len == 0 {
        Err(libc::EINVAL)
    } else {
        let pages = (len + 4095) / 4096 * 4096;
        match k().live.get(&(a as usize)).copied() {
            Some(l) if l == pages => {
                k().live.remove(&(a as usize));
            }
            Some(l) if pages < l => {
                k().live.remove(&(a as usize));
                k().live.insert(a as usize + pages, l - pages);
            }
            _ => {
                stat(crate::S_BAD_UNMAP, 1);
                crate::k_badunmap(a as usize - ar, pages);
            }
        }
        // keep the addresses reserved so that a stale access faults
        let r = syscall6(
            libc::SYS_mmap,
            a as usize,
            pages,
            libc::PROT_NONE as usize,
            (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED | libc::MAP_NORESERVE) as usize,
            usize::MAX,
            0,
        );
        if r < 0 {
            Err(-r as i32)
        } else {
            Ok(0)
        }
    };
    c.done(format_args!("{:#x}, {}", a as usize - ar, len), r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !in_sim() || (0..3).contains(&fd) {
        if is_sim_thread() && !in_sim() && !w().ended {
            end(3, "harness:close", "close() in kernel mode");
        }
        return real!(libc::SYS_close, fd) as c_int;
    }
    let c = enter(sysno::CLOSE);
    let e = close_fd(c.p, fd);
    let r = if e == 0 {
        Ok(0)
    } else {
        crate::bad_close(c.p, fd);
        Err(e)
    };
    c.done(format_args!("{}", fd), r) as c_int
}

fn do_dup(c: &Call, fd: i32, min: i32, ce: bool) -> R {
    let id = get(c.p, fd)?;
    install_fd(c.p, id, ce, min).map(|x| x as i64)
}

#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !in_sim() || fd < 3 {
        return real!(libc::SYS_fcntl, fd, cmd, arg) as c_int;
    }
    let c = enter(sysno::FCNTL);
    let r = (|| match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
            if let Some(e) = c.inject(&[libc::EMFILE]) {
                return Err(e);
            }
            do_dup(&c, fd, arg as i32, cmd == libc::F_DUPFD_CLOEXEC)
        }
        libc::F_GETFD => {
            let pr = &w().procs[c.p];
            pr.fds.get(&fd).map(|x| x.1 as i64).ok_or(libc::EBADF)
        }
        libc::F_SETFD => {
            let pr = &mut w().procs[c.p];
            pr.fds.get_mut(&fd).map(|x| {
                x.1 = arg & libc::FD_CLOEXEC as usize != 0;
                0
            }).ok_or(libc::EBADF)
        }
        libc::F_GETFL => {
            let id = get(c.p, fd)?;
            Ok((libc::O_RDWR | if f(id).nonblock { libc::O_NONBLOCK } else { 0 }) as i64)
        }
        libc::F_SETFL => {
            let id = get(c.p, fd)?;
            f(id).nonblock = arg as i32 & libc::O_NONBLOCK != 0;
            Ok(0)
        }
        _ => on_real(&c, fd, |r| sc3(libc::SYS_fcntl, r, cmd as usize, arg)),
    })();
    c.done(format_args!("{}, {}, {}", fd, cmd, arg), r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl64(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if !in_sim() || fd < 3 {
        return real!(libc::SYS_dup, fd) as c_int;
    }
    let c = enter(sysno::FCNTL);
    let r = match c.inject(&[libc::EMFILE]) {
        Some(e) => Err(e),
        None => do_dup(&c, fd, 0, false),
    };
    c.done(format_args!("{}, dup", fd), r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dup3(fd: c_int, to: c_int, fl: c_int) -> c_int {
    if !in_sim() || fd < 3 {
        return real!(libc::SYS_dup3, fd, to, fl) as c_int;
    }
    let c = enter(sysno::FCNTL);
    let r = (|| {
        let id = get(c.p, fd)?;
        if fd == to {
            return Err(libc::EINVAL);
        }
        f(id).refs += 1;
        close_fd(c.p, to);
        w().procs[c.p].fds.insert(to, (id, fl & libc::O_CLOEXEC != 0));
        Ok(to as i64)
    })();
    c.done(format_args!("{}, dup3", fd), r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dup2(fd: c_int, to: c_int) -> c_int {
    if !in_sim() || fd < 3 {
        return real!(libc::SYS_dup2, fd, to) as c_int;
    }
    if fd == to {
        return to;
    }
    dup3(fd, to, 0)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    if !in_sim() || fd < 3 {
        return real!(libc::SYS_ioctl, fd, req, arg) as c_int;
    }
    let c = enter(sysno::FCNTL);
    let r = (|| {
        let id = get(c.p, fd)?;
        match req {
            libc::FIONBIO => {
                f(id).nonblock = *(arg as *const i32) != 0;
                Ok(0)
            }
            libc::FIOCLEX | libc::FIONCLEX => {
                w().procs[c.p].fds.get_mut(&fd).unwrap().1 = req == libc::FIOCLEX;
                Ok(0)
            }
            libc::FIONREAD => {
                let v = match &f(id).kind {
                    Kind::Sock(s) => s.rcvq.front().map(|b| b.data.len()).unwrap_or(0),
                    Kind::PipeR { buf, .. } => buf.len(),
                    _ => 0,
                };
                *(arg as *mut i32) = v as i32;
                Ok(0)
            }
            _ => {
                crate::unmodeled("ioctl");
                Err(libc::EINVAL)
            }
        }
    })();
    c.done(format_args!("{}, ioctl {:#x}", fd, req), r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_clock_gettime, id, ts) as c_int;
    }
    let _g = kenter();
    let wd = w();
    wd.now += 50;
    let t = match id {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => {
            // the wall clock may be stepped at any time; the monotonic clock may not
            if let Some(v) = fault(F_CLOCK) {
                stat(crate::S_CLOCK, 1);
                let d = (v as i64 % 7200 - 3600) * 1_000_000_000;
                w().real_off += d;
            }
            (w().now as i64 + w().real_off) as u64
        }
        _ => wd.now,
    };
    (*ts).tv_sec = (t / 1_000_000_000) as _;
    (*ts).tv_nsec = (t % 1_000_000_000) as _;
    0
}
unsafe fn do_sleep(until: u64) -> c_int {
    let c = enter(sysno::NANOSLEEP);
    let r = loop {
        if w().now >= until {
            break Ok(0);
        }
        if block_int(Chan::Sleep, until, "sleep", true) == Wake::Interrupted {
            break Err(libc::EINTR);
        }
    };
    c.done(format_args!("until {}us", (until - crate::T0.min(until)) / 1000), r) as c_int
}
unsafe fn ts_ns(t: *const libc::timespec) -> u64 {
    ((*t).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64)
}
unsafe fn remain(until: u64, rem: *mut libc::timespec) {
    if !rem.is_null() {
        let left = until.saturating_sub(w().now);
        (*rem).tv_sec = (left / 1_000_000_000) as _;
        (*rem).tv_nsec = (left % 1_000_000_000) as _;
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !in_sim() {
        return real!(libc::SYS_nanosleep, t, rem) as c_int;
    }
    let until = w().now.saturating_add(ts_ns(t));
    let r = do_sleep(until);
    if r != 0 {
        remain(until, rem);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, fl: c_int, t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !in_sim() {
        let r = syscall6(libc::SYS_clock_nanosleep, id as usize, fl as usize, t as usize, rem as usize, 0, 0);
        return -r as c_int;
    }
    let abs = fl & libc::TIMER_ABSTIME != 0;
    let until = if abs { ts_ns(t) } else { w().now.saturating_add(ts_ns(t)) };
    let r = do_sleep(until);
    if r != 0 {
        if !abs {
            remain(until, rem);
        }
        return libc::EINTR;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: libc::c_uint) -> c_int {
    let ts = libc::timespec { tv_sec: (us / 1_000_000) as _, tv_nsec: (us % 1_000_000 * 1000) as _ };
    nanosleep(&ts, std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !in_sim() {
        return real!(libc::SYS_sched_yield) as c_int;
    }
    let _g = kenter();
    let wd = w();
    let cur = cur_tid();
    wd.threads[cur].yields += 1;
    // a spinning thread that has nobody to wait for but time
    if wd.threads[cur].yields > 200 && wd.runnable.has(cur) && wd.runnable.len() == 1 && wd.next_deadline != NODL && wd.next_deadline > wd.now {
        wd.now = wd.next_deadline;
    }
    yield_now(Yk::Yield);
    0
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, fl: libc::c_uint) -> ssize_t {
    if !in_sim() {
        return real!(libc::SYS_getrandom, b, n, fl);
    }
    let s = std::slice::from_raw_parts_mut(b as *mut u8, n);
    for c in s.chunks_mut(8) {
        let v = w().erng.next().to_ne_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if !in_sim() {
        return real!(libc::SYS_getpid) as i32;
    }
    1000 + cur_proc() as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> libc::pid_t {
    if !in_sim() {
        return real!(libc::SYS_gettid) as i32;
    }
    2000 + cur_tid() as i32
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, g: usize) -> c_long {
    if !in_sim() {
        return ret(syscall6(n, a, b, c, d, e, g)) as c_long;
    }
    match n {
        libc::SYS_futex => futex(a, b as i32, c as u32, d, g as u32) as c_long,
        libc::SYS_getrandom => getrandom(a as *mut c_void, b, c as u32) as c_long,
        libc::SYS_gettid => gettid() as c_long,
        libc::SYS_getpid => getpid() as c_long,
        libc::SYS_memfd_create => memfd_create(a as *const c_char, b as u32) as c_long,
        libc::SYS_close => close(a as i32) as c_long,
        libc::SYS_accept4 => accept4(a as i32, b as *mut _, c as *mut _, d as i32) as c_long,
        libc::SYS_sendmsg => sendmsg(a as i32, b as *const _, c as i32) as c_long,
        libc::SYS_recvmsg => recvmsg(a as i32, b as *mut _, c as i32) as c_long,
        libc::SYS_epoll_wait => epoll_wait(a as i32, b as *mut _, c as i32, d as i32) as c_long,
        libc::SYS_eventfd2 => eventfd(a as u32, b as i32) as c_long,
        libc::SYS_clock_gettime => clock_gettime(a as i32, b as *mut _) as c_long,
        441 => epoll_pwait2(a as i32, b as *mut _, c as i32, d as *const _, e as *const _) as c_long,
        _ => {
            crate::unmodeled("syscall()");
            ret(syscall6(n, a, b, c, d, e, g)) as c_long
        }
    }
}

unsafe fn futex(addr: usize, op: i32, val: u32, ts: usize, _bits: u32) -> i64 {
    let real_clock = op & libc::FUTEX_CLOCK_REALTIME != 0;
    let cmd = op & 0x7f;
    let c = enter(sysno::FUTEX);
    let r = match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => (|| {
            let cur = (*(addr as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst);
            if cur != val {
                return Err(libc::EAGAIN);
            }
            let dl = if ts == 0 {
                NODL
            } else {
                let t = ts_ns(ts as *const libc::timespec);
                if cmd == libc::FUTEX_WAIT {
                    w().now.saturating_add(t)
                } else if real_clock {
                    (t as i64 - w().real_off).max(0) as u64
                } else {
                    t
                }
            };
            if let Some(_) = fault(F_SPURIOUS) {
                stat(crate::S_SPURIOUS, 1);
                return Ok(0);
            }
            match block_int(Chan::Futex(addr), dl, "futex", true) {
                Wake::Woken => Ok(0),
                Wake::Timeout => Err(libc::ETIMEDOUT),
                Wake::Interrupted => Err(libc::EINTR),
            }
        })(),
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => Ok(w().wake_chan(Chan::Futex(addr), val as i32 as u32 as usize) as i64),
        _ => {
            crate::unmodeled("futex op");
            Err(libc::ENOSYS)
        }
    };
    c.done(format_args!("op {}, val {}", cmd, val), r)
}

// ---- threads -------------------------------------------------------------------------------------------------

type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
struct Start {
    tid: Tid,
    f: StartFn,
    arg: *mut c_void,
}

extern "C" {
    fn __cxa_thread_atexit_impl(f: unsafe extern "C" fn(*mut c_void), obj: *mut c_void, dso: *mut c_void) -> c_int;
    static __dso_handle: u8;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}

unsafe extern "C" fn at_exit(_: *mut c_void) {
    if is_sim_thread() {
        std::mem::forget(kenter());
        exit_thread();
    }
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    let g = kenter();
    // runs after every other thread-local destructor
    unsafe {
        __cxa_thread_atexit_impl(at_exit, std::ptr::null_mut(), &__dso_handle as *const u8 as *mut c_void);
    }
    set_cur(Some(s.tid));
    first_wait(s.tid);
    let (f, arg) = (s.f, s.arg);
    drop(s);
    drop(g);
    f(arg)
}

type PCreate = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut c_void) -> c_int;
type PJoin = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
static mut REAL_CREATE: Option<PCreate> = None;
static mut REAL_JOIN: Option<PJoin> = None;

pub fn init_real() {
    unsafe {
        let h = -1isize as *mut c_void; // RTLD_NEXT
        REAL_CREATE = Some(std::mem::transmute(dlsym(h, c"pthread_create".as_ptr())));
        REAL_JOIN = Some(std::mem::transmute(dlsym(h, c"pthread_join".as_ptr())));
    }
}
unsafe fn real_create() -> PCreate {
    if REAL_CREATE.is_none() {
        init_real();
    }
    REAL_CREATE.unwrap()
}

/// Creates a simulated thread backed by a real one.
pub unsafe fn create(proc: Pid, name: &str, pt: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, sf: StartFn, arg: *mut c_void) -> Result<Tid, i32> {
    let tid = w().new_thread(proc, name, None);
    let s = Box::into_raw(Box::new(Start { tid, f: sf, arg }));
    let r = real_create()(pt, attr, trampoline, s as *mut c_void);
    if r != 0 {
        end(3, "harness:pthread", "pthread_create failed");
    }
    for t in w().threads.iter_mut() {
        if t.pthread == *pt as u64 {
            t.pthread = 0;
        }
    }
    w().threads[tid].pthread = *pt as u64;
    Ok(tid)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(pt: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, sf: StartFn, arg: *mut c_void) -> c_int {
    if !is_sim_thread() {
        return real_create()(pt, attr, sf, arg);
    }
    let c = enter(sysno::PTHREAD_CREATE);
    if let Some(e) = c.inject(&[libc::EAGAIN]) {
        c.done(format_args!(""), Err(e));
        return e;
    }
    let name = format!("{}+", w().procs[c.p].name);
    let r = create(c.p, &name, pt, attr, sf, arg);
    let t = r.unwrap();
    c.done(format_args!("-> t{}", t), Ok(t as i64));
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(pt: libc::pthread_t, rv: *mut *mut c_void) -> c_int {
    if REAL_JOIN.is_none() {
        init_real();
    }
    if is_sim_thread() {
        let _g = kenter();
        let t = w().threads.iter().find(|t| t.pthread == pt as u64 && t.pthread != 0).map(|t| t.id);
        if let Some(t) = t {
            yield_now(Yk::Sys);
            while matches!(w().threads[t].st, St::Runnable | St::Blocked | St::Stalled | St::Killed) {
                block(Chan::Join(t), NODL, "pthread_join");
            }
            w().threads[t].pthread = 0;
        }
    }
    REAL_JOIN.unwrap()(pt, rv)
}
