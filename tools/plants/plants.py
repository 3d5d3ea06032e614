BC='ipmb/src/bus_controller.rs'; LIB='ipmb/src/lib.rs'; LX='ipmb/src/platform/linux.rs'; EM='ipmb/src/platform/linux/encoded_message.rs'
REG='ipmb/src/memory_registry.rs'; PM='ipmb/src/platform/mod.rs'
PLANTS=[]
def P(id,property,needs,breaks,edits,main=None,**k):
    d=dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,**k)
    if main is not None: d['main']=main
    PLANTS.append(d)

P('c14-skip-after-dead','C14','an endpoint that died or left, followed in the controller\'s list by another endpoint the same message matches',
  'the message that discovers the dead endpoint skips the next one in the list',
  [(BC,'''                self.endpoints.retain(|Endpoint { label, remote, .. }| {
                    let mut online = true;

                    if routed && encoded_msg.selector.mode == SelectorMode::Unicast {
                        return online;
                    }
''','''                let mut i = 0;
                while i < self.endpoints.len() {
                    let Endpoint { label, remote, .. } = &self.endpoints[i];
                    let mut online = true;

                    if routed && encoded_msg.selector.mode == SelectorMode::Unicast {
                        break;
                    }
'''),(BC,'''                            _ => {}
                        }
                    }

                    online
                });
''','''                            _ => {}
                        }
                    }

                    if !online {
                        self.endpoints.remove(i);
                    }
                    i += 1;
                }
''')],'''
fn main() {
    let b = bus("skip");
    let (tx, _rx) = ep(&b, label!("x"));
    let (atx, arx) = ep(&b, label!("a"));
    let (_btx, mut brx) = ep(&b, label!("a"));
    drop((atx, arx));
    thread::sleep(ms(100));
    tx.send(msg(Selector::multicast("a"), 1)).unwrap();
    if drain(&mut brx, 1000) != [1] {
        fail("a live endpoint missed the message");
    }
    good()
}
''')

P('c04-buffer-reversed','C04','several messages with a TTL from one thread waiting for the same endpoint',
  'buffered messages are handed out in reverse order',
  [(BC,'for (expire, msg) in message_buffer.drain(..) {','while let Some((expire, msg)) = message_buffer.pop() {')],'''
fn main() {
    let b = bus("order");
    let (tx, _rx) = ep(&b, label!("x"));
    for i in 0..5 {
        let mut s = Selector::unicast("late");
        s.ttl = ms(20_000);
        tx.send(msg(s, i)).unwrap();
    }
    thread::sleep(ms(100));
    let (_ltx, mut lrx) = ep(&b, label!("late"));
    let v = drain(&mut lrx, 1000);
    if v != [0, 1, 2, 3, 4] {
        fail(&format!("received {:?}", v));
    }
    good()
}
''')

P('c20-reader-reopens','C20','a sender-only endpoint whose bus is lost, and a unicast another endpoint should get afterwards',
  'after a rejoin the dropped receiver is registered again and swallows messages',
  [(LIB,'''                let _ = io_hub.take();
                *reader_closed = true;
''','''                *reader_closed = io_hub.take().is_none();
''')],'''
fn main() {
    if role().is_some() {
        let _e = ep(&bus("r"), label!("c"));
        say("up");
        sleep_forever();
    }
    let b = bus("r");
    let mut c = peer("c");
    c.line();
    let (xtx, mut xrx) = ep(&b, label!("x"));
    let (stx, srx) = ep(&b, label!("w"));
    drop(srx);
    let (_wtx, mut wrx) = ep(&b, label!("w"));
    c.kill();
    drain(&mut xrx, 500);
    stx.send(msg(Selector::multicast("nobody"), 0)).unwrap();
    drain(&mut wrx, 300);
    for i in 1..6 {
        xtx.send(msg(Selector::unicast("w"), i)).unwrap();
    }
    let v = drain(&mut wrx, 1000);
    if v != [1, 2, 3, 4, 5] {
        fail(&format!("received {:?}", v));
    }
    good()
}
''')

P('c07-token-prefix','C07','a wrong token that is a prefix of the right one (for example the empty token)',
  'a prefix of the token is accepted',
  [(BC,'if payload.token != self.token {','if !self.token.starts_with(payload.token.as_str()) {')],'''
fn main() {
    let b = bus("tok");
    let (_tx, _rx) = ep(&b, label!("x"));
    for t in ["", "tok", "token2", "Token"] {
        match join::<BytesMessage, BytesMessage>(Options::new(b.as_str(), label!("y"), t), Some(ms(5000))) {
            Err(JoinError::TokenMismatch) => {}
            Ok(_) => fail(&format!("token {:?} was accepted", t)),
            Err(e) => fail(&format!("token {:?}: {:?}", t, e)),
        }
    }
    good()
}
''')

P('c12-failed-send-counts','C12','a message with a region that is forwarded to an endpoint which has just left',
  'a failed send keeps the reference it took on the regions of the message',
  [(EM,'''            let err = io::Error::last_os_error();
            for r in self.memory_regions.iter() {
                r.ref_count_inner(-1);
            }
            log::error!''','''            let err = io::Error::last_os_error();
            log::error!''')],'''
fn main() {
    let b = bus("rc");
    let (_tx, _rx) = ep(&b, label!("x"));
    let (btx, _brx) = ep(&b, label!("b"));
    let (atx, arx) = ep(&b, label!("a"));
    drop((atx, arx));
    let r = MemoryRegion::new(100).unwrap();
    let mut m = msg(Selector::unicast("a"), 1);
    m.memory_regions.push(r.clone().unwrap());
    btx.send(m).unwrap();
    thread::sleep(ms(1000));
    if r.ref_count() != 1 {
        fail(&format!("reference count {} with one handle", r.ref_count()));
    }
    good()
}
''')

P('c13-untagged-any','C13','an untagged allocation after a tagged one of similar size was freed',
  'an allocation without tag reuses regions of any tag',
  [(REG,'tag == r.tag.as_deref()','tag.map_or(true, |tag| r.tag.as_deref() == Some(tag))')],'''
fn main() {
    let mut g = MemoryRegistry::default();
    let mut a = g.alloc(100, Some("secret")).unwrap();
    a.map(..).unwrap().fill(0xAA);
    drop(a);
    let mut c = g.alloc(100, None).unwrap();
    if c.map(0..100).unwrap().iter().any(|b| *b == 0xAA) {
        fail("a region with another tag was handed out");
    }
    good()
}
''')

P('c09-short-names','C09','two identifiers longer than 52 characters that differ only behind those',
  'identifiers are cut, so two buses become one',
  [(LX,'addr.sun_path.len() - 2,','addr.sun_path.len() / 2 - 2,')],'''
fn main() {
    let b = format!("{}.{}", bus("long"), "n".repeat(40));
    let b = &format!("{:.<90}", b)[..90];
    let (tx, mut r1) = ep(&format!("{}1", b), label!("x"));
    let (_t2, mut r2) = ep(&format!("{}2", b), label!("x"));
    tx.send(msg(Selector::multicast("x"), 7)).unwrap();
    if drain(&mut r1, 500) != [7] || !drain(&mut r2, 500).is_empty() {
        fail("a message crossed over to another bus");
    }
    good()
}
''')

P('c11-rejoin-no-timeout','C11','a receive with a timeout on an endpoint without controller affinity while the controller dies and nobody replaces it',
  'a receive whose endpoint has to join again never times out',
  [(LIB,"""                if let Some(end) = end {
""","""                if let Some(end) = end.filter(|_| epoch == 0) {
""")],'''
fn main() {
    if role().is_some() {
        let _e = ep(&bus("r"), label!("c"));
        say("up");
        sleep_forever();
    }
    let b = bus("r");
    let mut c = peer("c");
    c.line();
    let mut o = opt(&b, label!("x"));
    o.controller_affinity = false;
    let (_tx, mut rx): (Tx, Rx) = join(o, None).unwrap();
    c.kill();
    within(20_000, "a receive with a timeout of 1 s does not return", move || match rx.recv(Some(ms(1000))) {
        Err(RecvError::Timeout) => {}
        _ => fail("no timeout"),
    });
    good()
}
''')

P('c17-pair-inherited','C17','a process that starts a child after joining and then dies while the child lives on',
  'children inherit the receiving socket, so the dead endpoint keeps taking messages',
  [(LX,'''        r = libc::socketpair(
            libc::AF_UNIX,
            libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC,''','''        r = libc::socketpair(
            libc::AF_UNIX,
            libc::SOCK_SEQPACKET,''')],'''
fn main() {
    if role().is_some() {
        let _e = ep(&bus("r"), label!("w"));
        let c = Command::new("sleep").arg("30").stdout(Stdio::null()).spawn().unwrap();
        say(&format!("{}", c.id()));
        sleep_forever();
    }
    let b = bus("r");
    let (tx, _rx) = ep(&b, label!("x"));
    let mut p = peer("w");
    let child: i32 = p.line().parse().unwrap();
    CHILDREN.lock().unwrap().push(child);
    p.kill();
    thread::sleep(ms(200));
    let (_wtx, mut wrx) = ep(&b, label!("w"));
    for i in 0..3 {
        tx.send(msg(Selector::unicast("w"), i)).unwrap();
    }
    let v = drain(&mut wrx, 1000);
    if v != [0, 1, 2] {
        fail(&format!("received {:?}", v));
    }
    good()
}
''')

P('c10-lost-after-other-join','C10','a buffered message, then a join that does not match it, then one that does',
  'messages which were not delivered to the first endpoint that joins are forgotten',
  [(BC,'''                    self.message_buffer = message_buffer;
                    mem::swap(&mut self.message_buffer, &mut self.message_buffer_swap);
''','''                    mem::swap(&mut self.message_buffer, &mut message_buffer);
''')],'''
fn main() {
    let b = bus("ttl");
    let (tx, _rx) = ep(&b, label!("x"));
    let mut s = Selector::unicast("late");
    s.ttl = ms(30_000);
    tx.send(msg(s, 9)).unwrap();
    thread::sleep(ms(100));
    let _o = ep(&b, label!("other"));
    let (_t, mut l) = ep(&b, label!("late"));
    if drain(&mut l, 1000) != [9] {
        fail("the message was lost although its endpoint joined in time");
    }
    good()
}
''')

P('c25-closed-reader-swallows','C25','an endpoint that dropped only its receiver, and another endpoint with the same label',
  'a dropped receiver keeps its connection while the sender lives and swallows messages',
  [(LIB,'''                let _ = io_hub.take();
                *reader_closed = true;
''','''                let _ = io_hub;
                *reader_closed = true;
''')],'''
fn main() {
    let b = bus("drop");
    let (tx, _rx) = ep(&b, label!("x"));
    let (atx, arx) = ep(&b, label!("w"));
    drop(arx);
    let (_wtx, mut wrx) = ep(&b, label!("w"));
    for i in 0..3 {
        tx.send(msg(Selector::unicast("w"), i)).unwrap();
    }
    let v = drain(&mut wrx, 1000);
    drop(atx);
    if v != [0, 1, 2] {
        fail(&format!("received {:?}", v));
    }
    good()
}
''')

P('c16-never-detects','C16','an endpoint that leaves and is never addressed again, with traffic more often than every 30 seconds',
  'the clock of the detection starts again with every message, so closed endpoints are kept for ever',
  [(BC,'''            self.endpoints.retain(|ep| !ep.remote.is_dead());

            self.last_detect_reachable = now;
        }
''','''            self.endpoints.retain(|ep| !ep.remote.is_dead());
        }

        self.last_detect_reachable = now;
''')],'''
fn main() {
    let b = bus("fd");
    let (tx, mut rx) = ep(&b, label!("x"));
    let n = fds(std::process::id());
    for _ in 0..8 {
        drop(ep(&b, label!("gone")));
    }
    let t = Instant::now();
    while t.elapsed() < ms(36_000) {
        tx.send(msg(Selector::unicast("x"), 0)).unwrap();
        let _ = rx.recv(Some(ms(10)));
        thread::sleep(ms(500));
    }
    let m = fds(std::process::id());
    if m > n {
        fail(&format!("{} descriptors, {} before the others came and went", m, n));
    }
    good()
}
''')

P('c11-foreign-type-times-out','C11','a message of a foreign type for the endpoint that hosts the controller, while it receives with a timeout',
  'a receive with a timeout reports it as soon as an undecodable message arrives',
  [(LIB,'''                                    Err(Error::TypeUuidNotFound) => {
                                        skipped = true;
                                        continue;
                                    }
                                    Err(Error::Decode(err)) => Err(RecvError::Decode(err)),
                                    Err(_) => unreachable!(),
                                }
                            }
                            Err(RecvTimeoutError::Timeout)''','''                                    Err(Error::TypeUuidNotFound) => Err(RecvError::Timeout),
                                    Err(Error::Decode(err)) => Err(RecvError::Decode(err)),
                                    Err(_) => unreachable!(),
                                }
                            }
                            Err(RecvTimeoutError::Timeout)''')],'''
use serde::{Deserialize, Serialize};
use type_uuid::TypeUuid;
#[derive(Debug, Serialize, Deserialize, TypeUuid)]
#[uuid = "6d5a8a2e-1279-47cf-925e-83e614e79501"]
struct Other(u32);
fn main() {
    let b = bus("type");
    let (_tx, mut rx) = ep(&b, label!("x"));
    let (otx, _orx) = join::<Other, BytesMessage>(opt(&b, label!("o")), None).unwrap();
    let t = thread::spawn(move || {
        let t = Instant::now();
        let r = rx.recv(Some(ms(1500)));
        (matches!(r, Err(RecvError::Timeout)), t.elapsed())
    });
    thread::sleep(ms(300));
    otx.send(Message::new(Selector::multicast("x"), Other(1))).unwrap();
    let (timeout, el) = t.join().unwrap();
    if !timeout || el < ms(1500) {
        fail(&format!("receive returned after {:?}", el));
    }
    good()
}
''')

P('c14-dead-takes-unicast','C14','a unicast that matches an endpoint which has just died and a live one',
  'a unicast counts as routed when its first candidate turns out to be dead',
  [(BC,'Err(Error::Disconnect) => online = false,','''Err(Error::Disconnect) => {
                                routed = true;
                                online = false;
                            }''')],'''
fn main() {
    let b = bus("dead");
    let (tx, _rx) = ep(&b, label!("x"));
    let (atx, arx) = ep(&b, label!("w"));
    let (_wtx, mut wrx) = ep(&b, label!("w"));
    drop((atx, arx));
    thread::sleep(ms(100));
    tx.send(msg(Selector::unicast("w"), 3)).unwrap();
    if drain(&mut wrx, 1000) != [3] {
        fail("the unicast was lost although a live endpoint matches");
    }
    good()
}
''')

P('c20-epoch-not-bumped','C20','a send that is blocked on a full buffer when the controller dies, while the receiver of the same endpoint waits in receive and rejoins first',
  'the sender does not see that its endpoint has rejoined and waits for the receiver, which waits for messages',
  [(LIB,'''                                        *rule = Rule::join(
                                            options.clone(),
                                            epoch.overflowing_add(1).0,
                                            im.clone(),
                                            remain(),
''','''                                        *rule = Rule::join(
                                            options.clone(),
                                            epoch,
                                            im.clone(),
                                            remain(),
''')],'''
fn main() {
    match role().as_deref() {
        Some("c") => {
            let _e = ep(&bus("r"), label!("c"));
            say("up");
            sleep_forever();
        }
        Some(_) => {
            let (_tx, mut rx) = ep(&bus("r"), label!("d"));
            say("up");
            thread::spawn(|| sleep_forever());
            loop {
                let _ = rx.recv(None);
            }
        }
        None => {}
    }
    for round in 0..12 {
        std::env::set_var("DEMO_BUS", format!("demo.{}.epoch.{}", std::process::id(), round));
        let b = bus("r");
        let mut c = peer("c");
        c.line();
        let mut dd = peer("d");
        dd.line();
        let mut o = opt(&b, label!("x"));
        o.controller_affinity = false;
        let (tx, mut rx): (Tx, Rx) = join(o, None).unwrap();
        thread::spawn(move || loop {
            let _ = rx.recv(None);
        });
        unsafe { libc::kill(c.c.id() as i32, libc::SIGSTOP) };
        let sent = Arc::new(AtomicU32::new(0));
        let s2 = sent.clone();
        let t = thread::spawn(move || {
            // more than the socket holds
            for i in 0..2000 {
                tx.send(Message::new(Selector::unicast("nobody"), BytesMessage { format: 1, data: vec![0; 4000] })).unwrap();
                s2.store(i + 1, Ordering::SeqCst);
            }
        });
        let mut last = u32::MAX;
        while sent.load(Ordering::SeqCst) != last {
            last = sent.load(Ordering::SeqCst);
            thread::sleep(ms(100));
        }
        c.kill();
        within(12_000, "a send hangs after the controller died", move || t.join().unwrap());
        dd.kill();
    }
    good()
}
''')

P('c31-window-not-shrunk','C31','a second mapping of a region that starts where the first one did and is shorter',
  'the window is longer than the requested one',
  [(PM,'''real_offset != buffer.offset || size != buffer.as_slice().len())''','''real_offset != buffer.offset || size > buffer.as_slice().len())''')],'''
fn main() {
    let mut r = MemoryRegion::new(10_000).unwrap();
    if r.map(..).unwrap().len() != 10_000 || r.map(5..100).unwrap().len() != 95 || r.map(5..200).unwrap().len() != 195 {
        fail("a window has the wrong size");
    }
    if r.map(5..50).unwrap().len() != 45 {
        fail("a shorter window has the wrong size");
    }
    good()
}
''')

P('c02-delivered-stays-buffered','C02','a multicast with a TTL that reaches an endpoint, and another endpoint that joins before the TTL runs out',
  'the multicast stays buffered and is delivered a second time',
  [(BC,'''                            Ok(_) => routed = true,
''','''                            Ok(_) => routed = encoded_msg.selector.mode == SelectorMode::Unicast,
''')],'''
fn main() {
    let b = bus("m");
    let (_h, _hr) = ep(&b, label!("h"));
    let (tx, mut rx) = ep(&b, label!("x"));
    let mut s = Selector::multicast("x");
    s.ttl = ms(20_000);
    tx.send(msg(s, 5)).unwrap();
    let a = drain(&mut rx, 500);
    let (_t2, _r2) = ep(&b, label!("y"));
    let a2 = drain(&mut rx, 500);
    if a != [5] || !a2.is_empty() {
        fail(&format!("received {:?} and {:?}", a, a2));
    }
    good()
}
''')

P('c03-ninth-label','C03','an endpoint with more than eight labels',
  'labels beyond the eighth are dropped',
  [('ipmb/src/label.rs','''        self.0.push(SmolStr::new(s));
''','''        if self.0.len() < self.0.inline_size() {
            self.0.push(SmolStr::new(s));
        }
''')],'''
fn main() {
    let b = bus("l");
    let (_h, _hr) = ep(&b, label!("h"));
    let l: Label = (0..12).map(|i| format!("l{}", i)).collect::<Vec<_>>().into();
    let (tx, mut rx) = ep(&b, l);
    for i in 0..12 {
        tx.send(msg(Selector::unicast(format!("l{}", i).as_str()), i)).unwrap();
    }
    let v = drain(&mut rx, 500);
    if v != (0..12).collect::<Vec<_>>() {
        fail(&format!("received {:?}", v));
    }
    good()
}
''')

P('c08-major-ignored','C08','two versions one of which is below 1.0, with the same minor version',
  'incompatible versions join each other\'s bus',
  [(LIB,'''if self.major() == 0 && rhs.major() == 0 {''','''if self.major() == 0 || rhs.major() == 0 {''')],None,
  demo_sh='''#!/bin/bash
# Builds main.rs against the crate in the current directory and a copy of it with another version.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/demo/src" "$t/new"
cp "$here/main.rs" "$t/demo/src/main.rs"
cp "$repo/Cargo.lock" "$t/demo/Cargo.lock"
cp "$repo/Cargo.toml" "$repo/README.md" "$t/new/" 2>/dev/null
cp -r "$repo/ipmb" "$repo/ipmb-derive" "$repo/ipmb-ffi" "$repo/ipmb-js" "$t/new/"
v=$(sed -n 's/^version = "\\(.*\\)"$/\\1/p' "$repo/ipmb/Cargo.toml" | head -1)
minor=$(echo "$v" | cut -d. -f2)
sed -i "0,/^version = .*/s//version = \\"1.$minor.0\\"/" "$t/new/ipmb/Cargo.toml"
sed -i "s/^version = \\"$v\\"/version = \\"1.$minor.0\\"/; s/^version = \\"0.5.1\\"/version = \\"0.5.999\\"/" "$t/new/Cargo.toml"
sed -i '0,/^version = .*/s//version = "0.5.999"/' "$t/new/ipmb-derive/Cargo.toml"
cat > "$t/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ipmb = { path = "$repo/ipmb" }
ipmb_new = { package = "ipmb", path = "$t/new/ipmb" }
[workspace]
T
cd "$t/demo" || exit 99
CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2> build.log || { cat build.log >&2; exit 98; }
timeout 200 "$t/target/debug/demo"
''',files={'main.rs':'''use std::time::Duration;
fn main() {
    let b = format!("demo.{}.versions", std::process::id());
    let _h = ipmb::join::<ipmb::BytesMessage, ipmb::BytesMessage>(ipmb::Options::new(&b, ipmb::label!("h"), ""), Some(Duration::from_secs(10))).ok().expect("join");
    match ipmb_new::join::<ipmb_new::BytesMessage, ipmb_new::BytesMessage>(ipmb_new::Options::new(&b, ipmb_new::label!("n"), ""), Some(Duration::from_secs(10))) {
        Err(ipmb_new::JoinError::VersionMismatch(v)) if v.major() == 0 => {}
        Err(e) => {
            eprintln!("WRONG: {:?}", e);
            std::process::exit(1)
        }
        Ok(_) => {
            eprintln!("WRONG: version {} joined the bus of version {}", ipmb_new::version(), ipmb::version());
            std::process::exit(1)
        }
    }
}
'''})

P('c21-retrieve-swaps','C21','a C program that retrieves one of several objects of a message and then the others',
  'the objects that remain in the message change their order',
  [('ipmb-ffi/src/lib.rs','message.objects.remove(index).into_raw() as _','message.objects.swap_remove(index).into_raw() as _')],None,
  demo_sh='''#!/bin/bash
# Builds the C interface of the crate in the current directory into a program that uses it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/ipmb-ffi/src/lib.rs" "$t/src/ffi.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ipmb = { path = "$repo/ipmb" }
libc = "0.2"
[workspace]
T
cd "$t" || exit 99
CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2> build.log || { cat build.log >&2; exit 98; }
timeout 200 "$t/target/debug/demo"
''',files={'main.rs':'''#![allow(dead_code)]
mod ffi;
mod c {
    use std::ffi::c_void;
    #[repr(C)]
    pub struct Selector {
        pub op: *const *mut c_void,
        pub mode: u32,
        pub ttl: u32,
    }
    #[allow(clashing_extern_declarations)]
    extern "C" {
        pub fn ipmb_label_op_bool(v: bool) -> *mut c_void;
        pub fn ipmb_message(s: Selector, format: u16, p: *const u8, n: u32) -> *mut c_void;
        pub fn ipmb_message_object_append(m: *mut *mut c_void, o: u64);
        pub fn ipmb_message_object_retrieve(m: *mut *mut c_void, i: usize) -> u64;
    }
}
fn main() {
    unsafe {
        let op = c::ipmb_label_op_bool(true);
        let mut m = c::ipmb_message(c::Selector { op: &op, mode: 0, ttl: 0 }, 1, b"x".as_ptr(), 1);
        let o: Vec<u64> = (0..4).map(|_| libc::dup(1) as u64).collect();
        for x in &o {
            c::ipmb_message_object_append(&mut m, *x);
        }
        let got: Vec<u64> = [1, 1, 0, 0].iter().map(|i| c::ipmb_message_object_retrieve(&mut m, *i)).collect();
        if got != [o[1], o[2], o[0], o[3]] {
            eprintln!("WRONG: appended {:?}, retrieved {:?}", o, got);
            std::process::exit(1)
        }
    }
}
'''})

JSDEMO='''#!/bin/bash
# Builds the Node binding of the crate in the current directory and runs demo.js with it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
CARGO_TARGET_DIR="$t/target" cargo build --offline -q -p ipmb-js 2> "$t/build.log" || { cat "$t/build.log" >&2; exit 98; }
cp "$t/target/debug/libipmb_js.so" "$t/ipmb.node"
cp "$here/demo.js" "$t/demo.js"
cd "$t" && timeout 200 node demo.js
'''
P('c22-timeout-reorders','C22','several pending promises of which one with a timeout that is not the last expires',
  'the promises behind it change places, so a later recv gets an earlier message',
  [('ipmb-js/src/lib.rs','let (deferred, _) = self.deferred_list.remove(i);','let (deferred, _) = self.deferred_list.swap_remove(i);')],None,
  demo_sh=JSDEMO,files={'demo.js':'''const ipmb = require('./ipmb.node')
const id = 'demo.' + process.pid + '.js'
const a = ipmb.join({ identifier: id, label: ['x'], token: '', controllerAffinity: true }, 10000)
const wrong = (s) => { console.error('WRONG: ' + s); process.exit(1) }
const got = []
const ps = []
ps.push(a.receiver.recv(300).then(() => wrong('no timeout'), () => {}))
for (let i = 0; i < 3; i++) ps.push(a.receiver.recv().then((m) => got.push([i, m.bytesMessage.data[0]])))
setTimeout(() => {
  for (let i = 0; i < 3; i++) a.sender.send({ labelOp: new ipmb.LabelOp('x'), mode: ipmb.SelectorMode.Unicast, ttl: 0 }, { format: 0, data: Buffer.from([i]) }, [])
}, 1500)
Promise.all(ps).then(() => {
  if (JSON.stringify(got) !== '[[0,0],[1,1],[2,2]]') wrong(JSON.stringify(got))
  process.exit(0)
})
setTimeout(() => wrong('nothing received'), 20000)
'''})

P('c19-stops-accepting','C19','a process that hosts the bus and runs out of descriptors for a moment while somebody joins',
  'the bus never accepts a join again',
  [(LX,'''                            if fd != -1 {
                                let local = Local(Fd::from_raw(fd));
''','''                            if fd == -1 {
                                // Don't spin
                                self.im.unregister(listener);
                            } else {
                                let local = Local(Fd::from_raw(fd));
''')],'''
fn main() {
    if role().is_some() {
        let b = bus("r");
        let mut o = opt(&b, label!("p"));
        o.controller_affinity = false;
        let r: Result<(Tx, Rx), _> = join(o, Some(ms(2500)));
        say(if r.is_ok() { "joined" } else { "refused" });
        sleep_forever();
    }
    let b = bus("r");
    let (_tx, _rx) = ep(&b, label!("h"));
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        let old = l.rlim_cur;
        let mut p = peer("p");
        l.rlim_cur = 3;
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
        p.line();
        l.rlim_cur = old;
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    thread::sleep(ms(300));
    let mut q = peer("p");
    if q.line() != "joined" {
        fail("nobody can join any more");
    }
    good()
}
''')

P('c15-drop-keeps-socket','C15','an endpoint that dropped its receiver but not its sender, and more messages for it than its socket holds',
  'the controller blocks for ever on the socket nobody reads',
  [(LIB,'''                let _ = io_hub.take();
                *reader_closed = true;
''','''                let _ = &io_hub;
                *reader_closed = true;
''')],'''
fn main() {
    let b = bus("b");
    let (tx, mut hr) = ep(&b, label!("h"));
    let (_t2, r2) = ep(&b, label!("x"));
    drop(r2);
    for i in 0..5000 {
        tx.send(Message::new(Selector::multicast("x"), BytesMessage { format: 1, data: vec![0; 2000] })).unwrap();
        if i == 4999 {
            tx.send(msg(Selector::unicast("h"), 1)).unwrap();
        }
    }
    match hr.recv(Some(ms(20_000))) {
        Ok(_) => good(),
        Err(_) => fail("the bus is blocked by an endpoint that has dropped its receiver"),
    }
}
''')

P('c23-connect-without-pipe','C23','a message of the connect type that carries no object to reply to',
  'it ends the thread of the controller',
  [(BC,'''        let remote = if let Some(remote) = remote {
            remote
        } else {
            return false;
        };
''','''        let remote = remote.expect("connect message without reply pipe");
''')],'''
#[derive(serde::Serialize, serde::Deserialize, type_uuid::TypeUuid)]
#[uuid = "b2c1deb3-3091-4a74-a99c-c8e8d710d4b2"]
struct Foreign(u32);
fn main() {
    let b = bus("b");
    let (tx, _hr) = ep(&b, label!("h"));
    let (_t2, mut r2) = ep(&b, label!("x"));
    let (t3, _r3): (EndpointSender<Foreign>, Rx) = join(opt(&b, label!("f")), Some(ms(10_000))).unwrap();
    t3.send(Message::new(Selector::unicast(LabelOp::True), Foreign(1))).unwrap();
    thread::sleep(ms(500));
    within(10_000, "the bus does not work any more", move || {
        let _ = tx.send(msg(Selector::unicast("x"), 3));
        if drain(&mut r2, 1000) != [3] {
            fail("the bus does not work any more");
        }
    });
    good()
}
''')

P('c17-listener-inherited','C17','a process that hosts the bus, starts a child, and dies while the child lives on',
  'the child keeps the name of the bus, so nobody takes over',
  [(LX,'''        let fd = libc::socket(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0);
        if fd == -1 {
            return Err(Error::IoError(io::Error::last_os_error()));
        }
        let fd = Fd::from_raw(fd);

        let addr = identifier_to_socket_addr(identifier)?;

        let mut r = libc::bind(
''','''        let fd = libc::socket(libc::AF_UNIX, libc::SOCK_SEQPACKET, 0);
        if fd == -1 {
            return Err(Error::IoError(io::Error::last_os_error()));
        }
        let fd = Fd::from_raw(fd);

        let addr = identifier_to_socket_addr(identifier)?;

        let mut r = libc::bind(
''')],'''
fn main() {
    if role().is_some() {
        let _e = ep(&bus("r"), label!("c"));
        let c = Command::new("sleep").arg("60").stdin(Stdio::null()).stdout(Stdio::null()).spawn().unwrap();
        say(&c.id().to_string());
        sleep_forever();
    }
    let b = bus("r");
    let mut c = peer("c");
    let s: i32 = c.line().parse().unwrap();
    CHILDREN.lock().unwrap().push(s);
    c.kill();
    let r: Result<(Tx, Rx), _> = join(opt(&b, label!("x")), Some(ms(9_000)));
    match r {
        Ok(_) => good(),
        Err(e) => fail(&format!("nobody can take over: {:?}", e)),
    }
}
''')

P('c10-dropped-host','C10','a message with a TTL for the label of the endpoint that hosts the controller, after that has dropped its receiver',
  'the message is discarded instead of waiting for an endpoint',
  [(BC,'''                        Err(err) => {
                            if !routed {
                                remain = Some(err.0);
                            }
                        }
''','''                        // Nobody receives it any more
                        Err(_) => {}
''')],'''
fn main() {
    let b = bus("b");
    let (_h, hr) = ep(&b, label!("x"));
    let (tx, _r) = ep(&b, label!("s"));
    drop(hr);
    let mut s = Selector::unicast("x");
    s.ttl = ms(20_000);
    tx.send(msg(s, 5)).unwrap();
    thread::sleep(ms(300));
    let (_t2, mut r2) = ep(&b, label!("x"));
    let v = drain(&mut r2, 1000);
    if v != [5] {
        fail(&format!("received {:?}", v));
    }
    good()
}
''')

P('c01-turns','C01','two messages from the endpoint that hosts the controller which are sent before the controller wakes up, and then no other traffic',
  'the second one waits until something else happens on the bus',
  [(LX,'''    in_buffer: Vec<libc::epoll_event>,
    im: Arc<IoMultiplexing>,
}

impl IoHub {''','''    in_buffer: Vec<libc::epoll_event>,
    im: Arc<IoMultiplexing>,
    turn: bool,
}

impl IoHub {'''),(LX,'''            in_buffer: Vec::with_capacity(1),
            im,
''','''            in_buffer: Vec::with_capacity(1),
            im,
            turn: false,
'''),(LX,'''            listener: None,
            in_buffer: Vec::with_capacity(2),
            im,
''','''            listener: None,
            in_buffer: Vec::with_capacity(2),
            im,
            turn: false,
'''),(LX,'''            if let Some(ref rx) = self.bus_rx {
''','''            // Take turns with the other endpoints
            self.turn = !self.turn;
            if let Some(rx) = self.bus_rx.as_ref().filter(|_| self.turn) {
''')],'''
fn main() {
    let b = bus("b");
    let (tx, _hr) = ep(&b, label!("h"));
    let (_t, mut rx) = ep(&b, label!("x"));
    for i in 0..300 {
        for k in 0..4 {
            tx.send(msg(Selector::unicast("x"), i * 4 + k)).unwrap();
        }
        for k in 0..4 {
            match rx.recv(Some(ms(2000))) {
                Ok(m) if num(&m) == i * 4 + k => {}
                Ok(_) => fail("out of order"),
                Err(_) => fail("a message is not delivered"),
            }
        }
    }
    good()
}
''')

P('c06-tired-of-hosting','C06','an endpoint that has joined again under another controller before that one dies as well',
  'an endpoint which has survived a takeover no longer hosts the bus itself',
  [(LIB,'                    if !options.controller_affinity {','                    if !options.controller_affinity || epoch > 1 {')],'''
fn main() {
    if role().is_some() {
        let (_tx, mut rx) = ep(&bus("r"), label!("c"));
        say("up");
        loop {
            let _ = rx.recv(None);
        }
    }
    let b = bus("r");
    let mut c = peer("c");
    c.line();
    let (tx, mut rx) = ep(&b, label!("x"));
    for round in 0..2 {
        // The next host takes over before this endpoint notices
        let d = if round < 1 {
            let mut d = peer("c");
            d.line();
            Some(d)
        } else {
            None
        };
        c.kill();
        match d {
            Some(mut d) => {
                thread::sleep(ms(1500));
                let _ = rx.recv(Some(ms(500)));
                std::mem::swap(&mut c, &mut d);
            }
            None => {
                let _ = rx.recv(Some(ms(2000)));
            }
        }
    }
    within(20_000, "nobody hosts the bus", move || {
        tx.send(msg(Selector::unicast("x"), 1)).unwrap();
    });
    good()
}
''')

P('c26-oversize-removes','C26','a message that is too large, sent by the endpoint that hosts the controller',
  'the endpoint it was for is removed from the bus',
  [(BC,'''                            Err(Error::Disconnect) => online = false,
                            _ => {}
''','''                            Err(_) => online = false,
''')],'''
fn main() {
    let b = bus("b");
    let (tx, _hr) = ep(&b, label!("h"));
    let (_t, mut rx) = ep(&b, label!("x"));
    let _ = tx.send(Message::new(Selector::unicast("x"), BytesMessage { format: 1, data: vec![0; 4 << 20] }));
    tx.send(msg(Selector::unicast("x"), 5)).unwrap();
    let v = drain(&mut rx, 4000);
    if v != [5] {
        fail(&format!("received {:?}", v));
    }
    good()
}
''')

P('c05-regions-first','C05','a message with both objects and regions',
  'they are sent in an order the receiver does not expect',
  [(LX,'''            for object in self
                .objects
                .iter()
                .chain(self.memory_regions.iter().map(|region| region.object()))
            {
''','''            for object in self
                .memory_regions
                .iter()
                .map(|region| region.object())
                .chain(self.objects.iter())
            {
''')],'''
fn main() {
    let b = bus("b");
    let (tx, _hr) = ep(&b, label!("h"));
    let (_t, mut rx) = ep(&b, label!("x"));
    let mut m = msg(Selector::unicast("x"), 5);
    let mut r = MemoryRegion::new(100).unwrap();
    r.map(..).unwrap().fill(7);
    m.memory_regions.push(r);
    m.objects.push(unsafe { Object::from_raw(libc::dup(1)) });
    tx.send(m).unwrap();
    match rx.recv(Some(ms(3000))) {
        Ok(mut m) => {
            if m.objects.len() != 1 || m.memory_regions.len() != 1 || m.memory_regions[0].map(..).unwrap() != [7; 100] {
                fail("wrong attachments");
            }
            good()
        }
        Err(e) => fail(&format!("{:?}", e)),
    }
}
''')
