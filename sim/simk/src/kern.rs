//! The simulated kernel: descriptors, AF_UNIX SOCK_SEQPACKET sockets, epoll, eventfd, pipes, memfd.
//! Semantics follow Linux; `dst conform` compares this module with the running kernel.
use crate::raw;
use crate::sched::*;
use crate::stat;
use std::collections::{BTreeMap, VecDeque};

pub type FileId = usize;

pub struct Skb {
    pub data: Vec<u8>,
    pub fds: Vec<FileId>,
    pub owner: FileId,
    pub truesize: usize,
    pub has_scm: bool,
}

#[derive(Default)]
pub struct Sock {
    pub seqpacket: bool,
    pub peer: Option<FileId>,
    pub connected: bool,
    pub rcvq: VecDeque<Skb>,
    pub shut_rd: bool,
    pub shut_wr: bool,
    pub err: i32,
    pub sndbuf: usize,
    pub rcvbuf: usize,
    pub wmem: usize,
    pub listening: bool,
    pub backlog: usize,
    pub acceptq: VecDeque<FileId>,
    pub name: Option<Vec<u8>>,
    pub rcvtimeo: u64,
    pub sndtimeo: u64,
    pub closed: bool,
    /// pseudo-random per-run cap on queued bytes, 0 = none
    pub peer_pid: usize,
}

pub struct EpItem {
    pub fd: i32,
    pub file: FileId,
    pub events: u32,
    pub data: u64,
    pub disabled: bool,
    pub queued: bool,
}

#[derive(Default)]
pub struct Epoll {
    pub items: Vec<EpItem>,
    /// ready list: (fd, file)
    pub ready: VecDeque<(i32, FileId)>,
}

pub enum Kind {
    Sock(Box<Sock>),
    Epoll(Epoll),
    Event { count: u64, sem: bool },
    Mem { real: i32 },
    Real { real: i32 },
    PipeR { buf: VecDeque<u8>, w_open: bool, w: FileId },
    PipeW { r: FileId, r_open: bool },
}

pub struct File {
    pub id: FileId,
    pub refs: u32,
    pub nonblock: bool,
    pub kind: Kind,
    pub epolls: Vec<FileId>,
    pub tag: &'static str,
    pub creator: usize,
}

#[derive(Default)]
pub struct Kern {
    pub files: Vec<Option<Box<File>>>,
    pub names: BTreeMap<Vec<u8>, FileId>,
    pub sndcap: usize,
    pub live: BTreeMap<usize, usize>, // mapped shared regions: addr -> len
    pub maps: BTreeMap<usize, (usize, FileId)>, // every mapping there was
    pub last_map: BTreeMap<usize, FileId>, // by thread
    pub arena_next: usize,
}

pub fn k() -> &'static mut Kern {
    &mut w().kern
}
pub fn f(id: FileId) -> &'static mut File {
    w().kern.files[id].as_mut().expect("dead file")
}
fn alive(id: FileId) -> bool {
    w().kern.files[id].is_some()
}
pub fn sock(id: FileId) -> &'static mut Sock {
    match &mut f(id).kind {
        Kind::Sock(s) => s,
        _ => panic!("not a socket"),
    }
}

pub fn new_file(kind: Kind, tag: &'static str) -> FileId {
    let kn = k();
    let id = kn.files.len();
    let creator = if is_sim_thread() { cur_proc() } else { 0 };
    kn.files.push(Some(Box::new(File { id, refs: 0, nonblock: false, kind, epolls: vec![], tag, creator })));
    id
}

pub fn install_fd(p: Pid, file: FileId, cloexec: bool, min: i32) -> Result<i32, i32> {
    let pr = &mut w().procs[p];
    let mut fd = min.max(3);
    while pr.fds.contains_key(&fd) {
        fd += 1;
    }
    if fd >= pr.fdlimit {
        return Err(libc::EMFILE);
    }
    pr.fds.insert(fd, (file, cloexec));
    f(file).refs += 1;
    Ok(fd)
}

pub fn get(p: Pid, fd: i32) -> Result<FileId, i32> {
    w().procs[p].fds.get(&fd).map(|x| x.0).ok_or(libc::EBADF)
}

pub fn put(id: FileId) {
    let fl = f(id);
    fl.refs -= 1;
    if fl.refs == 0 {
        release(id);
    }
}

/// A reference held by the system call the current thread is in; given back if the thread is killed there.
fn hold(id: FileId) {
    f(id).refs += 1;
    let c = w().cur;
    w().threads[c].held.push(id);
}
/// The reference moves elsewhere.
fn moved(id: FileId) {
    let c = w().cur;
    let h = &mut w().threads[c].held;
    let i = h.iter().rposition(|x| *x == id).unwrap();
    h.remove(i);
}
fn unhold(id: FileId) {
    moved(id);
    put(id);
}

pub fn close_fd(p: Pid, fd: i32) -> i32 {
    match w().procs[p].fds.remove(&fd) {
        Some((id, _)) => {
            put(id);
            0
        }
        None => libc::EBADF,
    }
}

/// Something happened to a file: wake its sleepers and queue it on the epolls watching it.
pub fn notify(id: FileId) {
    notify_key(id, !0);
}
/// Wakes whoever waits for one of the events `key`.
pub fn notify_key(id: FileId, key: u32) {
    w().wake_chan(Chan::File(id), usize::MAX);
    if !alive(id) {
        return;
    }
    let eps = f(id).epolls.clone();
    for e in eps {
        if !alive(e) {
            continue;
        }
        let mut any = false;
        if let Kind::Epoll(ep) = &mut f(e).kind {
            for it in ep.items.iter_mut() {
                if it.file == id && !it.disabled && !it.queued && (it.events | (libc::EPOLLERR | libc::EPOLLHUP) as u32) & key != 0 {
                    it.queued = true;
                    ep.ready.push_back((it.fd, it.file));
                }
                if it.file == id && it.queued {
                    any = true;
                }
            }
        }
        if any {
            w().wake_chan(Chan::File(e), usize::MAX);
            // nested epoll
            if !f(e).epolls.is_empty() {
                notify(e);
            }
        }
    }
}

fn release(id: FileId) {
    // removed from every epoll set
    let eps = f(id).epolls.clone();
    for e in eps {
        if alive(e) {
            if let Kind::Epoll(ep) = &mut f(e).kind {
                ep.items.retain(|i| i.file != id);
                ep.ready.retain(|r| r.1 != id);
            }
        }
    }
    let mut fl = w().kern.files[id].take().unwrap();
    match &mut fl.kind {
        Kind::Sock(s) => {
            let fds = unix_release(id, s);
            for x in fds {
                put(x);
            }
        }
        Kind::Epoll(ep) => {
            for it in &ep.items {
                if alive(it.file) {
                    f(it.file).epolls.retain(|e| *e != id);
                }
            }
        }
        Kind::Mem { real } | Kind::Real { real } => unsafe {
            raw::sc3(libc::SYS_close, *real as usize, 0, 0);
        },
        Kind::PipeR { w: wr, .. } => {
            if alive(*wr) {
                if let Kind::PipeW { r_open, .. } = &mut f(*wr).kind {
                    *r_open = false;
                }
                notify(*wr);
            }
        }
        Kind::PipeW { r, .. } => {
            if alive(*r) {
                if let Kind::PipeR { w_open, .. } = &mut f(*r).kind {
                    *w_open = false;
                }
                notify(*r);
            }
        }
        Kind::Event { .. } => {}
    }
    w().wake_chan(Chan::File(id), usize::MAX);
}

/// A socket goes away. Returns the in-flight files whose references it held.
fn unix_release(id: FileId, s: &mut Sock) -> Vec<FileId> {
    let mut drop_fds = vec![];
    s.closed = true;
    if let Some(n) = s.name.take() {
        if s.listening || n.first() == Some(&0) {
            if n.first() == Some(&0) {
                k().names.remove(&n);
            }
        }
    }
    if let Some(p) = s.peer.take() {
        if alive(p) {
            let unread = !s.rcvq.is_empty();
            let ps = sock(p);
            ps.shut_rd = true;
            ps.shut_wr = true;
            ps.peer = None;
            if unread {
                ps.err = libc::ECONNRESET;
            }
            notify(p);
        }
    }
    for skb in s.rcvq.drain(..) {
        uncharge(&skb);
        drop_fds.extend(skb.fds);
    }
    // pending, never accepted connections
    for e in std::mem::take(&mut s.acceptq) {
        let mut fl = w().kern.files[e].take().unwrap();
        if let Kind::Sock(es) = &mut fl.kind {
            if let Some(p) = es.peer {
                if alive(p) {
                    sock(p).err = libc::ECONNRESET;
                }
            }
            drop_fds.extend(unix_release(e, es));
        }
        if let Kind::Sock(es) = &mut fl.kind {
            let _ = es;
        }
    }
    w().wake_chan(Chan::File(id), usize::MAX);
    drop_fds
}

fn uncharge(skb: &Skb) {
    if alive(skb.owner) {
        let o = sock(skb.owner);
        o.wmem -= skb.truesize;
        // writers are woken once the socket is writable again (Linux: a quarter of the buffer)
        if o.wmem * 4 <= eff_sndbuf(o) || o.wmem == 0 {
            notify_key(skb.owner, (libc::EPOLLOUT | libc::EPOLLWRNORM | libc::EPOLLWRBAND) as u32);
        }
    }
}

fn eff_sndbuf(s: &Sock) -> usize {
    let c = k().sndcap;
    if c != 0 {
        s.sndbuf.min(c)
    } else {
        s.sndbuf
    }
}

pub fn truesize(len: usize) -> usize {
    const MAXA: usize = 16384 - 320;
    // what exceeds one allocation is put into up to 17 pages
    let pages = if len > MAXA { ((len - MAXA).min(17 * 4096) + 4095) / 4096 * 4096 } else { 0 };
    let head = len.saturating_sub(pages);
    let sz = (head + 63) / 64 * 64 + 320;
    sz.next_power_of_two().max(512) + 256 + pages
}

pub fn new_sock() -> Sock {
    Sock { seqpacket: true, sndbuf: 212992, rcvbuf: 212992, rcvtimeo: NODL, sndtimeo: NODL, ..Default::default() }
}

pub fn poll_mask(id: FileId) -> u32 {
    let e = |x: i32| x as u32;
    let fl = f(id);
    match &fl.kind {
        Kind::Sock(s) => {
            let mut m = 0;
            if s.err != 0 {
                m |= e(libc::EPOLLERR);
            }
            if s.shut_rd {
                m |= e(libc::EPOLLRDHUP | libc::EPOLLIN | libc::EPOLLRDNORM);
            }
            if s.shut_rd && s.shut_wr {
                m |= e(libc::EPOLLHUP);
            }
            if !s.rcvq.is_empty() || !s.acceptq.is_empty() {
                m |= e(libc::EPOLLIN | libc::EPOLLRDNORM);
            }
            if !s.connected && !s.listening {
                m |= e(libc::EPOLLHUP);
            }
            if s.wmem * 4 <= eff_sndbuf(s) && !s.listening {
                m |= e(libc::EPOLLOUT | libc::EPOLLWRNORM | libc::EPOLLWRBAND);
            }
            m
        }
        Kind::Epoll(ep) => {
            let r: Vec<_> = ep.items.iter().filter(|i| !i.disabled && i.queued).map(|i| (i.file, i.events)).collect();
            for (file, ev) in r {
                if alive(file) && poll_mask(file) & (ev | e(libc::EPOLLERR | libc::EPOLLHUP)) != 0 {
                    return e(libc::EPOLLIN);
                }
            }
            0
        }
        Kind::Event { count, .. } => {
            let mut m = 0;
            if *count > 0 {
                m |= e(libc::EPOLLIN);
            }
            if *count < u64::MAX - 1 {
                m |= e(libc::EPOLLOUT);
            }
            m
        }
        Kind::Mem { .. } | Kind::Real { .. } => e(libc::EPOLLIN | libc::EPOLLOUT),
        Kind::PipeR { buf, w_open, .. } => {
            let mut m = 0;
            if !buf.is_empty() {
                m |= e(libc::EPOLLIN);
            }
            if !w_open {
                m |= e(libc::EPOLLHUP);
            }
            m
        }
        Kind::PipeW { r_open, .. } => {
            if *r_open {
                e(libc::EPOLLOUT)
            } else {
                e(libc::EPOLLOUT | libc::EPOLLERR)
            }
        }
    }
}

pub type R = Result<i64, i32>;

pub fn sys_socket(p: Pid, dom: i32, ty: i32) -> R {
    if dom != libc::AF_UNIX {
        return Err(libc::EAFNOSUPPORT);
    }
    let base = ty & 0xf;
    if base != libc::SOCK_SEQPACKET {
        crate::unmodeled("socket type");
        return Err(libc::ESOCKTNOSUPPORT);
    }
    let id = new_file(Kind::Sock(Box::new(new_sock())), "socket");
    f(id).nonblock = ty & libc::SOCK_NONBLOCK != 0;
    match install_fd(p, id, ty & libc::SOCK_CLOEXEC != 0, 0) {
        Ok(fd) => Ok(fd as i64),
        Err(e) => {
            w().kern.files[id] = None;
            Err(e)
        }
    }
}

pub fn sys_socketpair(p: Pid, dom: i32, ty: i32) -> Result<(i32, i32), i32> {
    if dom != libc::AF_UNIX || ty & 0xf != libc::SOCK_SEQPACKET {
        crate::unmodeled("socketpair type");
        return Err(libc::EOPNOTSUPP);
    }
    let ce = ty & libc::SOCK_CLOEXEC != 0;
    let a = new_file(Kind::Sock(Box::new(new_sock())), "pair-a");
    let b = new_file(Kind::Sock(Box::new(new_sock())), "pair-b");
    for (x, y) in [(a, b), (b, a)] {
        f(x).nonblock = ty & libc::SOCK_NONBLOCK != 0;
        let s = sock(x);
        s.peer = Some(y);
        s.connected = true;
        s.peer_pid = p;
    }
    let fa = match install_fd(p, a, ce, 0) {
        Ok(x) => x,
        Err(e) => {
            w().kern.files[a] = None;
            w().kern.files[b] = None;
            return Err(e);
        }
    };
    match install_fd(p, b, ce, 0) {
        Ok(fb) => Ok((fa, fb)),
        Err(e) => {
            f(b).refs += 1;
            close_fd(p, fa);
            put(b);
            Err(e)
        }
    }
}

pub fn sys_bind(p: Pid, fd: i32, path: &[u8]) -> R {
    let id = get(p, fd)?;
    if !matches!(f(id).kind, Kind::Sock(_)) {
        return Err(libc::ENOTSOCK);
    }
    // accepted sockets have the name of the listening one
    if sock(id).name.is_some() || f(id).tag == "accepted" {
        return Err(libc::EINVAL);
    }
    if path.is_empty() {
        return Err(libc::EINVAL);
    }
    let name = norm_name(path);
    if k().names.contains_key(&name) {
        return Err(libc::EADDRINUSE);
    }
    k().names.insert(name.clone(), id);
    let seq = crate::next_seq();
    w().binds.push((name.clone(), cur_proc(), w().cur, seq));
    sock(id).name = Some(name);
    Ok(0)
}

/// abstract names are compared bytewise over the whole address, path names up to the NUL
fn norm_name(path: &[u8]) -> Vec<u8> {
    if path[0] == 0 {
        path.to_vec()
    } else {
        path.iter().take_while(|b| **b != 0).copied().collect()
    }
}

pub fn sys_listen(p: Pid, fd: i32, backlog: i32) -> R {
    let id = get(p, fd)?;
    if !matches!(f(id).kind, Kind::Sock(_)) {
        return Err(libc::ENOTSOCK);
    }
    let s = sock(id);
    if s.name.is_none() || s.connected {
        return Err(libc::EINVAL);
    }
    s.listening = true;
    s.backlog = (backlog.max(0) as usize).min(4096);
    Ok(0)
}

pub fn sys_connect(p: Pid, fd: i32, path: &[u8]) -> R {
    let name = norm_name(path);
    let start = w().now;
    loop {
        let id = get(p, fd)?;
        if !matches!(f(id).kind, Kind::Sock(_)) {
            return Err(libc::ENOTSOCK);
        }
        let lid = match k().names.get(&name) {
            Some(l) if alive(*l) => *l,
            _ => return Err(if name[0] == 0 { libc::ECONNREFUSED } else { libc::ENOENT }),
        };
        let l = sock(lid);
        if !l.listening || l.shut_rd {
            return Err(libc::ECONNREFUSED);
        }
        if l.acceptq.len() > l.backlog {
            let dl = sock(id).sndtimeo.saturating_add(start);
            if f(id).nonblock || w().now >= dl {
                return Err(libc::EAGAIN);
            }
            stat(crate::S_BLOCK_CONNECT, 1);
            hold(id);
            let wk = block_int(Chan::File(lid), dl, "connect: backlog full", true);
            unhold(id);
            if wk == Wake::Interrupted {
                return Err(libc::EINTR);
            }
            continue;
        }
        if sock(id).connected {
            return Err(libc::EISCONN);
        }
        if sock(id).listening {
            return Err(libc::EINVAL);
        }
        let nid = new_file(Kind::Sock(Box::new(new_sock())), "accepted");
        {
            let ns = sock(nid);
            ns.peer = Some(id);
            ns.connected = true;
            ns.peer_pid = p;
        }
        {
            let s = sock(id);
            s.peer = Some(nid);
            s.connected = true;
            s.peer_pid = f(lid).creator;
        }
        sock(lid).acceptq.push_back(nid);
        notify_key(lid, (libc::EPOLLIN | libc::EPOLLRDNORM) as u32);
        w().wake_chan(Chan::File(id), usize::MAX);
        return Ok(0);
    }
}

pub fn sys_accept(p: Pid, fd: i32, flags: i32) -> R {
    loop {
        let id = get(p, fd)?;
        if !matches!(f(id).kind, Kind::Sock(_)) {
            return Err(libc::ENOTSOCK);
        }
        let s = sock(id);
        if !s.listening {
            return Err(libc::EINVAL);
        }
        // Linux reserves the descriptor first
        {
            let pr = &w().procs[p];
            let mut nfd = 3;
            while pr.fds.contains_key(&nfd) {
                nfd += 1;
            }
            if nfd >= pr.fdlimit {
                return Err(libc::EMFILE);
            }
        }
        if let Some(n) = s.acceptq.pop_front() {
            f(n).creator = p;
            f(n).nonblock = flags & libc::SOCK_NONBLOCK != 0;
            let r = install_fd(p, n, flags & libc::SOCK_CLOEXEC != 0, 0)?;
            w().wake_chan(Chan::File(id), usize::MAX);
            return Ok(r as i64);
        }
        let shut = s.shut_rd;
        if f(id).nonblock {
            return Err(libc::EAGAIN);
        }
        if shut {
            return Err(libc::EINVAL);
        }
        hold(id);
        let wk = block_int(Chan::File(id), NODL, "accept", true);
        unhold(id);
        if wk == Wake::Interrupted {
            return Err(libc::EINTR);
        }
    }
}

pub fn sys_shutdown(p: Pid, fd: i32, how: i32) -> R {
    let id = get(p, fd)?;
    if !matches!(f(id).kind, Kind::Sock(_)) {
        return Err(libc::ENOTSOCK);
    }
    if !(0..=2).contains(&how) {
        return Err(libc::EINVAL);
    }
    let rd = how == libc::SHUT_RD || how == libc::SHUT_RDWR;
    let wr = how == libc::SHUT_WR || how == libc::SHUT_RDWR;
    let s = sock(id);
    s.shut_rd |= rd;
    s.shut_wr |= wr;
    let peer = s.peer;
    notify(id);
    if let Some(p2) = peer {
        if alive(p2) {
            let ps = sock(p2);
            ps.shut_wr |= rd;
            ps.shut_rd |= wr;
            notify(p2);
        }
    }
    Ok(0)
}

pub fn sys_sendmsg(p: Pid, fd: i32, data: &[&[u8]], scm: Option<&[i32]>, flags: i32) -> R {
    let id = get(p, fd)?;
    if !matches!(f(id).kind, Kind::Sock(_)) {
        return Err(libc::ENOTSOCK);
    }
    let len: usize = data.iter().map(|d| d.len()).sum();
    {
        let s = sock(id);
        if s.err != 0 {
            let e = s.err;
            s.err = 0;
            return Err(e);
        }
        if !s.connected && s.peer.is_none() {
            return Err(libc::ENOTCONN);
        }
    }
    // scm_send: descriptors are resolved next
    let mut fds = vec![];
    if let Some(v) = scm {
        if v.len() > 253 {
            return Err(libc::EINVAL);
        }
        for x in v {
            fds.push(get(p, *x)?);
        }
    }
    {
        let s = sock(id);
        if len + 32 > s.sndbuf {
            return Err(libc::EMSGSIZE);
        }
    }
    for x in &fds {
        hold(*x);
    }
    let undo = |e: i32, fds: Vec<FileId>| {
        for x in fds {
            unhold(x);
        }
        Err(e)
    };
    hold(id); // the call keeps the file alive
    let start = w().now;
    let r = loop {
        let s = sock(id);
        if s.err != 0 {
            let e = s.err;
            s.err = 0;
            break undo(e, fds);
        }
        if s.shut_wr {
            stat(crate::S_EPIPE, 1);
            break undo(libc::EPIPE, fds);
        }
        if s.wmem < eff_sndbuf(s) {
            match s.peer {
                Some(pe) if alive(pe) && !sock(pe).shut_rd => {
                    let mut d = Vec::with_capacity(len);
                    for x in data {
                        d.extend_from_slice(x);
                    }
                    let ts = truesize(len);
                    s.wmem += ts;
                    for x in &fds {
                        moved(*x);
                    }
                    sock(pe).rcvq.push_back(Skb { data: d, fds, owner: id, truesize: ts, has_scm: scm.is_some() });
                    notify_key(pe, (libc::EPOLLIN | libc::EPOLLRDNORM) as u32);
                    break Ok(len as i64);
                }
                Some(pe) if alive(pe) => {
                    stat(crate::S_EPIPE, 1);
                    break undo(libc::EPIPE, fds);
                }
                _ => {
                    stat(crate::S_EPIPE, 1);
                    break undo(libc::EPIPE, fds);
                }
            }
        }
        if f(id).nonblock || flags & libc::MSG_DONTWAIT != 0 {
            break undo(libc::EAGAIN, fds);
        }
        stat(crate::S_BLOCK_SEND, 1);
        let dl = s.sndtimeo.saturating_add(start);
        let wk = block_int(Chan::File(id), dl, "sendmsg: buffer full", true);
        if wk == Wake::Interrupted {
            break undo(libc::EINTR, fds);
        }
        if wk == Wake::Timeout {
            break undo(libc::EAGAIN, fds);
        }
    };
    unhold(id);
    r
}

pub struct Recvd {
    pub n: usize,
    pub full: usize,
    pub fds: Vec<FileId>,
    pub has_scm: bool,
}

/// Receives one datagram into `out`; with `peek` it stays queued. File references of `fds` are the caller's.
pub fn sys_recv(p: Pid, fd: i32, out: &mut [&mut [u8]], flags: i32) -> Result<Recvd, i32> {
    let id = get(p, fd)?;
    if !matches!(f(id).kind, Kind::Sock(_)) {
        return Err(libc::ENOTSOCK);
    }
    if !sock(id).connected {
        return Err(libc::ENOTCONN);
    }
    hold(id);
    let start = w().now;
    let r = loop {
        let s = sock(id);
        if s.err != 0 {
            let e = s.err;
            s.err = 0;
            break Err(e);
        }
        let peek = flags & libc::MSG_PEEK != 0;
        if !s.rcvq.is_empty() {
            let copy = |d: &[u8], out: &mut [&mut [u8]]| {
                let mut o = 0;
                for b in out.iter_mut() {
                    let n = b.len().min(d.len() - o);
                    b[..n].copy_from_slice(&d[o..o + n]);
                    o += n;
                }
                o
            };
            if peek {
                let skb = s.rcvq.front().unwrap();
                let n = copy(&skb.data, out);
                for x in &skb.fds {
                    f(*x).refs += 1;
                }
                break Ok(Recvd { n, full: skb.data.len(), fds: skb.fds.clone(), has_scm: skb.has_scm });
            }
            let skb = s.rcvq.pop_front().unwrap();
            let n = copy(&skb.data, out);
            uncharge(&skb);
            break Ok(Recvd { n, full: skb.data.len(), fds: skb.fds, has_scm: skb.has_scm });
        }
        if s.shut_rd {
            break Ok(Recvd { n: 0, full: 0, fds: vec![], has_scm: false });
        }
        if f(id).nonblock || flags & libc::MSG_DONTWAIT != 0 {
            break Err(libc::EAGAIN);
        }
        let dl = s.rcvtimeo.saturating_add(start);
        match block_int(Chan::File(id), dl, "recvmsg", true) {
            Wake::Interrupted => break Err(libc::EINTR),
            Wake::Timeout => break Err(libc::EAGAIN),
            _ => {}
        }
    };
    unhold(id);
    r
}

pub fn sys_epoll_ctl(p: Pid, epfd: i32, op: i32, fd: i32, ev: Option<(u32, u64)>) -> R {
    let e = get(p, epfd)?;
    let file = get(p, fd)?;
    if !matches!(f(e).kind, Kind::Epoll(_)) || e == file {
        return Err(libc::EINVAL);
    }
    if matches!(f(file).kind, Kind::Mem { .. } | Kind::Real { .. }) {
        return Err(libc::EPERM);
    }
    let ready = |ev: u32| poll_mask(file) & (ev | (libc::EPOLLERR | libc::EPOLLHUP) as u32) != 0;
    let Kind::Epoll(ep) = &mut f(e).kind else { unreachable!() };
    let pos = ep.items.iter().position(|i| i.fd == fd && i.file == file);
    match op {
        libc::EPOLL_CTL_ADD => {
            if pos.is_some() {
                return Err(libc::EEXIST);
            }
            let (events, data) = ev.ok_or(libc::EFAULT)?;
            let rdy = ready(events);
            ep.items.push(EpItem { fd, file, events, data, disabled: false, queued: rdy });
            if rdy {
                ep.ready.push_back((fd, file));
            }
            if !f(file).epolls.contains(&e) {
                f(file).epolls.push(e);
            }
            if rdy {
                w().wake_chan(Chan::File(e), usize::MAX);
            }
            Ok(0)
        }
        libc::EPOLL_CTL_MOD => {
            let i = pos.ok_or(libc::ENOENT)?;
            let (events, data) = ev.ok_or(libc::EFAULT)?;
            let rdy = ready(events);
            let it = &mut ep.items[i];
            it.events = events;
            it.data = data;
            it.disabled = false;
            if rdy && !it.queued {
                it.queued = true;
                ep.ready.push_back((fd, file));
                w().wake_chan(Chan::File(e), usize::MAX);
            }
            Ok(0)
        }
        libc::EPOLL_CTL_DEL => {
            let i = pos.ok_or(libc::ENOENT)?;
            ep.items.remove(i);
            ep.ready.retain(|r| *r != (fd, file));
            let more = ep.items.iter().any(|i| i.file == file);
            if !more {
                f(file).epolls.retain(|x| *x != e);
            }
            Ok(0)
        }
        _ => Err(libc::EINVAL),
    }
}

pub fn epoll_collect(e: FileId, max: usize) -> Vec<(u32, u64)> {
    let mut out = vec![];
    let mut again = vec![];
    loop {
        if out.len() >= max {
            break;
        }
        let Kind::Epoll(ep) = &mut f(e).kind else { unreachable!() };
        let Some((fd, file)) = ep.ready.pop_front() else { break };
        let Some(it) = ep.items.iter_mut().find(|i| i.fd == fd && i.file == file) else { continue };
        it.queued = false;
        let want = it.events | (libc::EPOLLERR | libc::EPOLLHUP) as u32;
        let m = poll_mask(file) & want;
        if m == 0 || it.disabled {
            continue;
        }
        out.push((m, it.data));
        if it.events & libc::EPOLLONESHOT as u32 != 0 {
            it.disabled = true;
        } else if it.events & libc::EPOLLET as u32 == 0 {
            it.queued = true;
            again.push((fd, file));
        }
    }
    let Kind::Epoll(ep) = &mut f(e).kind else { unreachable!() };
    ep.ready.extend(again);
    out
}

pub fn sys_epoll_wait(p: Pid, epfd: i32, max: i32, timeout_ns: Option<u64>) -> Result<Vec<(u32, u64)>, i32> {
    let e = get(p, epfd)?;
    if !matches!(f(e).kind, Kind::Epoll(_)) || max <= 0 {
        return Err(libc::EINVAL);
    }
    let dl = timeout_ns.map(|t| w().now.saturating_add(t)).unwrap_or(NODL);
    hold(e);
    let r = loop {
        let v = epoll_collect(e, max as usize);
        if !v.is_empty() {
            break Ok(v);
        }
        if timeout_ns == Some(0) || w().now >= dl {
            break Ok(vec![]);
        }
        match block_int(Chan::File(e), dl, "epoll_wait", true) {
            Wake::Interrupted => break Err(libc::EINTR),
            _ => {}
        }
    };
    unhold(e);
    r
}

/// Duplicates the descriptor table (fork).
pub fn fork_fds(from: Pid, to: Pid) {
    let v: Vec<_> = w().procs[from].fds.iter().map(|(a, b)| (*a, *b)).collect();
    for (fd, (file, ce)) in v {
        f(file).refs += 1;
        w().procs[to].fds.insert(fd, (file, ce));
    }
}
