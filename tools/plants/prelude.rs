#![allow(dead_code, unused_imports, unused_mut)]
// A demonstration: exits 0 if the behaviour is right. Uses a bus name of its own and ends all processes it starts.
use ipmb::{join, label, BytesMessage, EndpointReceiver, EndpointSender, JoinError, Label, LabelOp, MemoryRegion, MemoryRegistry, Message, Object, Options, RecvError, Selector};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{exit, Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};

type Tx = EndpointSender<BytesMessage>;
type Rx = EndpointReceiver<BytesMessage>;

fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn bus(tag: &str) -> String {
    match std::env::var("DEMO_BUS") {
        Ok(b) => b,
        Err(_) => {
            let b = format!("demo.{}.{}.{}", std::process::id(), tag, std::time::UNIX_EPOCH.elapsed().unwrap().as_nanos());
            std::env::set_var("DEMO_BUS", &b);
            b
        }
    }
}
fn opt(bus: &str, l: Label) -> Options {
    Options::new(bus, l, "token")
}
fn ep(bus: &str, l: Label) -> (Tx, Rx) {
    join(opt(bus, l), Some(ms(20_000))).unwrap_or_else(|e| fail(&format!("join failed: {:?}", e)))
}
fn msg(sel: Selector, n: u32) -> Message<BytesMessage> {
    Message::new(sel, BytesMessage { format: 1, data: n.to_le_bytes().to_vec() })
}
fn num(m: &Message<BytesMessage>) -> u32 {
    u32::from_le_bytes(m.payload.data[..4].try_into().unwrap())
}
/// numbers received until nothing arrives for `quiet`
fn drain(rx: &mut Rx, quiet: u64) -> Vec<u32> {
    let mut v = vec![];
    loop {
        match rx.recv(Some(ms(quiet))) {
            Ok(m) => v.push(num(&m)),
            Err(RecvError::Timeout) => return v,
            Err(e) => fail(&format!("recv failed: {:?}", e)),
        }
    }
}
fn fail(why: &str) -> ! {
    eprintln!("WRONG: {}", why);
    kill_all();
    exit(1)
}
fn good() -> ! {
    kill_all();
    exit(0)
}
static CHILDREN: Mutex<Vec<i32>> = Mutex::new(vec![]);
fn kill_all() {
    for p in CHILDREN.lock().unwrap().drain(..) {
        unsafe { libc::kill(p, libc::SIGKILL) };
    }
}
/// A process running this program in another role; talks by lines.
struct Peer {
    c: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}
fn peer(role: &str) -> Peer {
    let mut c = Command::new(std::env::current_exe().unwrap()).env("DEMO_ROLE", role).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
    CHILDREN.lock().unwrap().push(c.id() as i32);
    let i = c.stdin.take().unwrap();
    let o = BufReader::new(c.stdout.take().unwrap());
    Peer { c, i, o }
}
impl Peer {
    fn line(&mut self) -> String {
        let mut s = String::new();
        let _ = self.o.read_line(&mut s);
        s.trim().to_string()
    }
    fn tell(&mut self, s: &str) {
        let _ = writeln!(self.i, "{}", s);
        let _ = self.i.flush();
    }
    fn kill(&mut self) {
        let _ = self.c.kill();
        let _ = self.c.wait();
    }
}
fn role() -> Option<String> {
    std::env::var("DEMO_ROLE").ok()
}
fn say(s: &str) {
    println!("{}", s);
    let _ = std::io::stdout().flush();
}
fn hear() -> String {
    let mut s = String::new();
    if std::io::stdin().read_line(&mut s).unwrap_or(0) == 0 {
        exit(0);
    }
    s.trim().to_string()
}
fn sleep_forever() -> ! {
    loop {
        // ends with the parent, which owns the other end of stdin
        hear();
    }
}
/// Fails if `f` has not finished in time.
fn within<T: Send + 'static>(d: u64, what: &str, f: impl FnOnce() -> T + Send + 'static) -> T {
    let (s, r) = mpsc::channel();
    thread::spawn(move || {
        let _ = s.send(f());
    });
    match r.recv_timeout(ms(d)) {
        Ok(x) => x,
        Err(_) => fail(what),
    }
}
fn fds(pid: u32) -> usize {
    std::fs::read_dir(format!("/proc/{}/fd", pid)).map(|d| d.count()).unwrap_or(0)
}
