From c3481246c11b494cef7698e7e96e54b25cf808fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 01/40] fix: forward only the received control data

A message without objects or memory regions left the 32 byte control
buffer uninitialized; forwarding it made sendmsg fail with EINVAL, so the
bus controller lost the message and dropped a healthy endpoint.
---
 ipmb/src/platform/linux/encoded_message.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 18c45ab..c4d36f3 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -81,6 +81,9 @@ impl EncodedMessage {
                 return Err(Error::Disconnect);
             }
 
+            // Only forward what was received, the rest of the buffer is uninitialized
+            control_data.truncate(hdr.msg_controllen as usize);
+
             // parse
             let mut objects = vec![];
 
-- 
2.43.0


From cfbba83c28706ee71103de4ddaaba8049823265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 02/40] fix: receive messages with more than 4 objects

The control buffer had room for 4 descriptors: a message with more objects
and memory regions was truncated, the connection was treated as broken and
the descriptors that did fit were leaked.
---
 ipmb/src/platform/linux/encoded_message.rs | 23 +++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index c4d36f3..85b936c 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -5,6 +5,9 @@ use crate::{
 use std::{io, mem, os::fd::RawFd, ptr, slice};
 use type_uuid::TypeUuid;
 
+/// The kernel passes at most this many objects in one message.
+const SCM_MAX_FD: u32 = 253;
+
 /// Message layout
 /// | version (magic__major__minor__patch)
 /// | selector_size (u32)
@@ -56,9 +59,10 @@ impl EncodedMessage {
                 return Err(Error::Disconnect);
             }
 
+            // The length of control data cannot be peeked, prepare for the largest one
             let meta = Meta {
                 iov_len: r as _,
-                control_len: 32, // TODO: How to peek this?
+                control_len: libc::CMSG_SPACE(SCM_MAX_FD * mem::size_of::<RawFd>() as u32),
             };
 
             // recv payload
@@ -73,18 +77,14 @@ impl EncodedMessage {
             hdr.msg_flags = 0;
 
             r = libc::recvmsg(local.0.as_raw(), &mut hdr, 0);
-            // When remote disconnected, recvmsg returns 0
-            if r <= 0
-                || (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
-                || (hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC)
-            {
+            if r == -1 {
                 return Err(Error::Disconnect);
             }
 
             // Only forward what was received, the rest of the buffer is uninitialized
             control_data.truncate(hdr.msg_controllen as usize);
 
-            // parse
+            // Own the received objects first, they must be closed even if the message is rejected
             let mut objects = vec![];
 
             if hdr.msg_controllen > 0 {
@@ -101,6 +101,15 @@ impl EncodedMessage {
                 }
             }
 
+            // When remote disconnected, recvmsg returns 0
+            if r == 0
+                || (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
+                || (hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC)
+            {
+                return Err(Error::Disconnect);
+            }
+
+            // parse
             let version_ptr = iov_data.as_ptr() as *const u32;
             let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(*version_ptr);
             if magic != 0xFF {
-- 
2.43.0


From de61c7ce7c378a857c9a7080fd6f486c00048744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 03/40] fix: do not leak descriptors into child processes

Accepted connections, received objects, the epoll and the event descriptor
were inheritable: a child of a bus controller kept the connections of its
dead parent open, so the other endpoints never noticed its death.
---
 ipmb/src/platform/linux.rs                 | 8 ++++++--
 ipmb/src/platform/linux/encoded_message.rs | 2 +-
 ipmb/src/platform/linux/io_mul.rs          | 4 ++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 77cce29..b4fd5f2 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -321,8 +321,12 @@ impl IoHub {
                 if let Some(ref listener) = self.listener {
                     if ev.u64 == listener.as_raw() as u64 {
                         unsafe {
-                            let fd =
-                                libc::accept(listener.as_raw(), ptr::null_mut(), ptr::null_mut());
+                            let fd = libc::accept4(
+                                listener.as_raw(),
+                                ptr::null_mut(),
+                                ptr::null_mut(),
+                                libc::SOCK_CLOEXEC,
+                            );
                             if fd != -1 {
                                 let local = Local(Fd::from_raw(fd));
                                 let _ = libc::setsockopt(
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 85b936c..e5cda66 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -76,7 +76,7 @@ impl EncodedMessage {
 
             hdr.msg_flags = 0;
 
-            r = libc::recvmsg(local.0.as_raw(), &mut hdr, 0);
+            r = libc::recvmsg(local.0.as_raw(), &mut hdr, libc::MSG_CMSG_CLOEXEC);
             if r == -1 {
                 return Err(Error::Disconnect);
             }
diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index df3d8ca..f9eb9f8 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -9,13 +9,13 @@ pub struct IoMultiplexing {
 impl IoMultiplexing {
     pub fn new() -> Self {
         let fd = unsafe {
-            let fd = libc::epoll_create1(0);
+            let fd = libc::epoll_create1(libc::EPOLL_CLOEXEC);
             assert_ne!(fd, -1);
             Fd::from_raw(fd)
         };
 
         let waker_fd = unsafe {
-            let efd = libc::eventfd(0, 0);
+            let efd = libc::eventfd(0, libc::EFD_CLOEXEC);
             assert_ne!(efd, -1);
             Fd::from_raw(efd)
         };
-- 
2.43.0


From afa56af715383fcd8628ad7827ddfe5268a5b6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 04/40] fix: an interrupted sendmsg or recvmsg is not a
 disconnect

A signal arriving while sendmsg or recvmsg was blocked made the endpoint
abandon its connection or the bus controller drop an endpoint.
---
 ipmb/src/platform/linux/encoded_message.rs | 28 ++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index e5cda66..539a5a1 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -49,11 +49,13 @@ impl EncodedMessage {
             hdr.msg_iov = &mut iov;
             hdr.msg_iovlen = 1;
 
-            let mut r = libc::recvmsg(
-                local.0.as_raw(),
-                &mut hdr,
-                libc::MSG_PEEK | libc::MSG_TRUNC | libc::MSG_CTRUNC,
-            );
+            let mut r = retry_interrupted(|| {
+                libc::recvmsg(
+                    local.0.as_raw(),
+                    &mut hdr,
+                    libc::MSG_PEEK | libc::MSG_TRUNC | libc::MSG_CTRUNC,
+                )
+            });
             // When remote disconnected, recvmsg returns 0
             if r <= 0 {
                 return Err(Error::Disconnect);
@@ -76,7 +78,9 @@ impl EncodedMessage {
 
             hdr.msg_flags = 0;
 
-            r = libc::recvmsg(local.0.as_raw(), &mut hdr, libc::MSG_CMSG_CLOEXEC);
+            r = retry_interrupted(|| {
+                libc::recvmsg(local.0.as_raw(), &mut hdr, libc::MSG_CMSG_CLOEXEC)
+            });
             if r == -1 {
                 return Err(Error::Disconnect);
             }
@@ -176,7 +180,7 @@ impl EncodedMessage {
         }
 
         let remote_guard = remote.lock();
-        let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) };
+        let r = retry_interrupted(|| unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) });
         if r == -1 {
             for r in self.memory_regions.iter() {
                 r.ref_count_inner(-1);
@@ -189,6 +193,16 @@ impl EncodedMessage {
     }
 }
 
+/// Repeat a system call which was interrupted by a signal.
+fn retry_interrupted(mut f: impl FnMut() -> isize) -> isize {
+    loop {
+        let r = f();
+        if r != -1 || io::Error::last_os_error().kind() != io::ErrorKind::Interrupted {
+            return r;
+        }
+    }
+}
+
 struct Meta {
     iov_len: u32,
     control_len: u32,
-- 
2.43.0


From de62b298451f5f0f6036d9bb506c3b1ec223baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 05/40] fix: do not report a timeout before it is reached

An interrupted epoll_wait was reported as a timeout, even if there was none
to wait for; timeouts were rounded down to milliseconds and, beyond 24 days,
wrapped around.
---
 ipmb/src/platform/linux.rs        | 16 +++++++++++++---
 ipmb/src/platform/linux/io_mul.rs |  7 ++++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index b4fd5f2..9fcb965 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -11,7 +11,7 @@ use std::{
     os::fd::RawFd,
     ptr, slice,
     sync::{mpsc, Arc, Once},
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 mod encoded_message;
@@ -294,6 +294,9 @@ impl IoHub {
     ) -> Result<EncodedMessage, Error> {
         let _ = remote;
 
+        // A deadline which cannot be represented is never reached
+        let deadline = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
+
         'ret: loop {
             if let Some(ref rx) = self.bus_rx {
                 match rx.try_recv() {
@@ -307,10 +310,17 @@ impl IoHub {
                 }
             }
 
-            self.im.wait(&mut self.in_buffer, timeout);
+            self.im.wait(
+                &mut self.in_buffer,
+                deadline.map(|deadline| deadline.saturating_duration_since(Instant::now())),
+            );
 
             if self.in_buffer.is_empty() {
-                break Err(Error::Timeout);
+                // The wait may end early, for example when it is interrupted by a signal
+                match deadline {
+                    Some(deadline) if Instant::now() >= deadline => break Err(Error::Timeout),
+                    _ => continue,
+                }
             }
 
             for ev in self.in_buffer.drain(..) {
diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index f9eb9f8..37abef4 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -38,6 +38,7 @@ impl IoMultiplexing {
         }
     }
 
+    // May return without events before the timeout is reached
     pub(crate) fn wait(&self, events: &mut Vec<libc::epoll_event>, timeout: Option<Duration>) {
         unsafe {
             let n = libc::epoll_wait(
@@ -45,7 +46,11 @@ impl IoMultiplexing {
                 events.as_mut_ptr(),
                 events.capacity() as _,
                 timeout
-                    .map(|tot| tot.as_millis() as ffi::c_int)
+                    .map(|tot| {
+                        // Round up, epoll must not report a timeout before it is reached
+                        let millis = (tot.as_nanos() + 999_999) / 1_000_000;
+                        ffi::c_int::try_from(millis).unwrap_or(ffi::c_int::MAX)
+                    })
                     .unwrap_or(-1),
             );
             if n < 1 {
-- 
2.43.0


From bb1919cf4b516973a82a0a1f269be49d668a87db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 06/40] fix: join accepts every timeout

Instant::now() + timeout panics if the timeout is too large.
---
 ipmb/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 4f17f2b..0673f1d 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -413,7 +413,8 @@ impl Rule {
         im: Arc<IoMultiplexing>,
         timeout: Option<Duration>,
     ) -> Result<Self, JoinError> {
-        let end = timeout.map(|timeout| Instant::now() + timeout);
+        // An end which cannot be represented is never reached
+        let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
 
         macro_rules! wait {
             () => {
-- 
2.43.0


From 7b2eae4aacb688472034817fd31f1e248f7e416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 07/40] fix: recv returns after its timeout even if undecodable
 messages keep arriving

Every message of a type the receiver doesn't accept started the timeout
again.
---
 ipmb/src/lib.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 0673f1d..a211413 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -203,7 +203,18 @@ pub struct EndpointReceiver<R> {
 
 impl<'de, R: MessageBox> EndpointReceiver<R> {
     pub fn recv(&mut self, timeout: Option<Duration>) -> Result<Message<R>, RecvError> {
+        // Messages which are not for this receiver don't extend the timeout.
+        // A deadline which cannot be represented is never reached
+        let deadline = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
+        let mut skipped = false;
+
         loop {
+            let timeout =
+                deadline.map(|deadline| deadline.saturating_duration_since(Instant::now()));
+            if skipped && timeout == Some(Duration::ZERO) {
+                break Err(RecvError::Timeout);
+            }
+
             let rule = self.rule.read().unwrap();
             match &*rule {
                 Rule::Client {
@@ -268,6 +279,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                         break Ok(msg);
                                     }
                                     Err(Error::TypeUuidNotFound) => {
+                                        skipped = true;
                                         continue;
                                     }
                                     Err(Error::Decode(err)) => {
@@ -280,6 +292,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                     "Unexpected message label_op: {:?}",
                                     encoded_msg.selector.label_op
                                 );
+                                skipped = true;
                                 continue;
                             }
                         }
@@ -347,6 +360,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                         Ok(msg)
                                     }
                                     Err(Error::TypeUuidNotFound) => {
+                                        skipped = true;
                                         continue;
                                     }
                                     Err(Error::Decode(err)) => Err(RecvError::Decode(err)),
@@ -366,6 +380,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                     Ok(msg)
                                 }
                                 Err(Error::TypeUuidNotFound) => {
+                                    skipped = true;
                                     continue;
                                 }
                                 Err(Error::Decode(err)) => Err(RecvError::Decode(err)),
-- 
2.43.0


From 30b31ce3085b7aff79444d7bba03d0af212b92ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:50 +0000
Subject: [PATCH 08/40] fix: do not route buffered messages which have expired

A message whose ttl had run out was still routed to the next endpoint that
joined, if no other message was handled in between.
---
 ipmb/src/bus_controller.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index e5eb1db..53976ce 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -78,11 +78,13 @@ impl BusController {
                     let mut message_buffer = mem::take(&mut self.message_buffer);
 
                     for (expire, msg) in message_buffer.drain(..) {
+                        // Only routed until it expires
+                        if expire <= now {
+                            continue;
+                        }
                         let (remain, _) = self.handle_message(msg);
                         if let Some(remain) = remain {
-                            if expire > now {
-                                self.message_buffer_swap.push((expire, remain));
-                            }
+                            self.message_buffer_swap.push((expire, remain));
                         }
                     }
 
-- 
2.43.0


From 2d7716fc03aed7eb48676fd7ad6c1e71eb1d48f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:50 +0000
Subject: [PATCH 09/40] fix: accept every ttl

Buffering a message with a very large ttl, like Duration::MAX, overflowed
and the panic ended the bus controller.
---
 ipmb/src/bus_controller.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index 53976ce..5833cd6 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -13,6 +13,8 @@ use std::{
 };
 use type_uuid::TypeUuid;
 
+const FAR_FUTURE: Duration = Duration::from_secs(30 * 365 * 24 * 3600);
+
 pub struct BusController {
     label: Label,
     token: String,
@@ -71,8 +73,11 @@ impl BusController {
 
                 if let Some(remain) = remain {
                     if !remain.selector.ttl.is_zero() {
-                        self.message_buffer
-                            .push((now + remain.selector.ttl, remain));
+                        // A ttl which cannot be represented outlives the bus
+                        let expire = now
+                            .checked_add(remain.selector.ttl)
+                            .unwrap_or_else(|| now + FAR_FUTURE);
+                        self.message_buffer.push((expire, remain));
                     }
                 } else if endpoint_connected && !self.message_buffer.is_empty() {
                     let mut message_buffer = mem::take(&mut self.message_buffer);
-- 
2.43.0


From c171a078893c876ae945fcde652a563c609555c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 10/40] fix: dropping a receiver does not wait for a blocked
 send

A send held the lock of the endpoint while it was blocked in sendmsg. If
that was because the endpoint itself did not receive, dropping its receiver
waited for the send forever, and so did everybody else on the bus.
---
 ipmb/src/lib.rs | 71 ++++++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 33 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index a211413..dfa872a 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -139,46 +139,51 @@ impl<T: MessageBox> EndpointSender<T> {
                     reader_closed: _,
                     im: _,
                     epoch,
-                } => match msg.send(remote) {
-                    Err(Error::Disconnect) => {
-                        let epoch = *epoch;
-                        drop(rule);
+                } => {
+                    let remote = remote.clone();
+                    let epoch = *epoch;
+                    // Sending may block until receivers make progress, they need the rule to be
+                    // closed
+                    drop(rule);
 
-                        let mut rule = self.rule.write().unwrap();
-                        match &mut *rule {
-                            Rule::Client {
-                                endpoint_id: _,
-                                options,
-                                remote: _,
-                                io_hub,
-                                reader_closed,
-                                im,
-                                epoch: epoch1,
-                            } => {
-                                if epoch == *epoch1 {
-                                    let reader_closed = *reader_closed;
+                    match msg.send(&remote) {
+                        Err(Error::Disconnect) => {
+                            let mut rule = self.rule.write().unwrap();
+                            match &mut *rule {
+                                Rule::Client {
+                                    endpoint_id: _,
+                                    options,
+                                    remote: _,
+                                    io_hub,
+                                    reader_closed,
+                                    im,
+                                    epoch: epoch1,
+                                } => {
+                                    if epoch == *epoch1 {
+                                        let reader_closed = *reader_closed;
 
-                                    // Close reader
-                                    drop(io_hub.take());
+                                        // Close reader
+                                        drop(io_hub.take());
 
-                                    *rule = Rule::join(
-                                        options.clone(),
-                                        epoch.overflowing_add(1).0,
-                                        im.clone(),
-                                        None,
-                                    )?;
+                                        *rule = Rule::join(
+                                            options.clone(),
+                                            epoch.overflowing_add(1).0,
+                                            im.clone(),
+                                            None,
+                                        )?;
 
-                                    if reader_closed {
-                                        rule.reader_close();
+                                        if reader_closed {
+                                            rule.reader_close();
+                                        }
                                     }
                                 }
+                                Rule::Server { .. } => {}
                             }
-                            Rule::Server { .. } => {}
                         }
+                        Err(_) => unreachable!(),
+                        Ok(_) => break Ok(()),
                     }
-                    Err(_) => unreachable!(),
-                    Ok(_) => break Ok(()),
-                },
+                }
                 Rule::Server {
                     endpoint_id: _,
                     bus_sender,
@@ -406,7 +411,7 @@ enum Rule {
         #[allow(dead_code)]
         endpoint_id: EndpointID,
         options: Options,
-        remote: Remote,
+        remote: Arc<Remote>,
         io_hub: Option<Mutex<IoHub>>,
         reader_closed: bool,
         im: Arc<IoMultiplexing>,
@@ -462,7 +467,7 @@ impl Rule {
                     let rule = Rule::Client {
                         endpoint_id,
                         options,
-                        remote,
+                        remote: Arc::new(remote),
                         io_hub: Some(Mutex::new(io_hub)),
                         reader_closed: false,
                         im,
-- 
2.43.0


From d61f4bdfc361af400530338c70882853e753b046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 11/40] fix: the registry keeps regions which are in use

An entry was dropped 5 seconds after its allocation and its free callback
was called, even if the region was still used by a receiver.
---
 ipmb/src/memory_registry.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/memory_registry.rs b/ipmb/src/memory_registry.rs
index 6a17adb..9e39e50 100644
--- a/ipmb/src/memory_registry.rs
+++ b/ipmb/src/memory_registry.rs
@@ -67,13 +67,14 @@ impl MemoryRegistry {
     fn maintain_inner(&mut self, now: Instant) {
         self.inner.retain(|_, rs| {
             rs.retain_mut(|r| {
-                let should_retain = (now - r.last_alloc) < Duration::from_secs(5);
+                let in_use = r.region.ref_count() != 1;
 
-                if r.region.ref_count() == 1 {
+                if !in_use {
                     r.guard = Guard { free: None };
                 }
 
-                should_retain
+                // `free` must not be called while the region is in use
+                in_use || (now - r.last_alloc) < Duration::from_secs(5)
             });
             !rs.is_empty()
         });
-- 
2.43.0


From aec3b0cb5c0157f7f98a1f2215afc1cf5577e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 12/40] fix: tell incompatible endpoints the version of the bus

The bus controller could not reply to an endpoint of an incompatible
version, which waited for 6 handshakes and reported version 0.0.0.
---
 ipmb/src/platform/linux/encoded_message.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 539a5a1..1dcd0d7 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -122,7 +122,11 @@ impl EncodedMessage {
             let remote_version = Version((major, minor, patch));
 
             if !version().compatible(remote_version) {
-                return Err(Error::VersionMismatch(remote_version, None));
+                // The last object of a connect message is the pipe to reply to
+                return Err(Error::VersionMismatch(
+                    remote_version,
+                    objects.pop().map(Remote::new),
+                ));
             }
 
             let selector_size_ptr = version_ptr.offset(1);
-- 
2.43.0


From 0963169699dd2fb5d40ba87e46d8bea6dad8acb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 13/40] fix: detect endpoints which have closed their
 connection

SO_ERROR is not set when the peer of a unix socket closes it, dead
endpoints were kept until a message matched their label.
---
 ipmb/src/platform/linux/fd.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/ipmb/src/platform/linux/fd.rs b/ipmb/src/platform/linux/fd.rs
index a3ffe26..a7aa6fb 100644
--- a/ipmb/src/platform/linux/fd.rs
+++ b/ipmb/src/platform/linux/fd.rs
@@ -1,6 +1,6 @@
 use std::{
     fmt::Debug,
-    io, mem,
+    io,
     os::fd::{self, AsRawFd, FromRawFd, IntoRawFd},
     sync::{Mutex, MutexGuard},
 };
@@ -45,23 +45,15 @@ impl Remote {
     }
 
     pub fn is_dead(&self) -> bool {
-        let mut err: i32 = 0;
-        let mut len: u32 = mem::size_of_val(&err) as _;
-        let r = unsafe {
-            libc::getsockopt(
-                self.v,
-                libc::SOL_SOCKET,
-                libc::SO_ERROR,
-                &mut err as *mut _ as *mut _,
-                &mut len,
-            )
+        let mut pollfd = libc::pollfd {
+            fd: self.v,
+            events: 0,
+            revents: 0,
         };
+        // POLLERR, POLLHUP and POLLNVAL are always reported
+        let r = unsafe { libc::poll(&mut pollfd, 1, 0) };
 
-        if r == -1 || err != 0 {
-            true
-        } else {
-            false
-        }
+        r > 0 && pollfd.revents != 0
     }
 }
 
-- 
2.43.0


From 2559b4978970197063a57bea37f028a60c2c0cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 14/40] fix: a message which cannot be sent does not break the
 connection

Sending a message which is too large or has too many objects was treated as
a disconnection: the sender rejoined and sent it again forever, the bus
controller dropped every endpoint the message was for. Report it to the
sender instead; the same for exhausted resources.
---
 ipmb-ffi/src/lib.rs                        |  1 +
 ipmb/src/errors.rs                         |  2 ++
 ipmb/src/lib.rs                            |  1 +
 ipmb/src/platform/linux/encoded_message.rs | 16 ++++++++++++++--
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index c950e0a..53cb50a 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -164,6 +164,7 @@ pub unsafe extern "C" fn ipmb_send(sender: &mut Sender, message: Message) -> Err
         Err(ipmb::SendError::VersionMismatch(_)) => ERROR_CODE_VERSION_MISMATCH,
         Err(ipmb::SendError::TokenMismatch) => ERROR_CODE_TOKEN_MISMATCH,
         Err(ipmb::SendError::PermissionDenied) => ERROR_CODE_PERMISSION_DENIED,
+        Err(ipmb::SendError::IoError(_)) => ERROR_CODE_UNKNOWN,
     }
 }
 
diff --git a/ipmb/src/errors.rs b/ipmb/src/errors.rs
index 1e7a5e2..97fffa2 100644
--- a/ipmb/src/errors.rs
+++ b/ipmb/src/errors.rs
@@ -56,6 +56,8 @@ pub enum SendError {
     TokenMismatch,
     #[error("permission denied")]
     PermissionDenied,
+    #[error("io error: {0}")]
+    IoError(#[from] std::io::Error),
 }
 
 impl From<JoinError> for SendError {
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index dfa872a..5b42dbf 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -180,6 +180,7 @@ impl<T: MessageBox> EndpointSender<T> {
                                 Rule::Server { .. } => {}
                             }
                         }
+                        Err(Error::IoError(err)) => break Err(SendError::IoError(err)),
                         Err(_) => unreachable!(),
                         Ok(_) => break Ok(()),
                     }
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 1dcd0d7..cad9e03 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -186,11 +186,23 @@ impl EncodedMessage {
         let remote_guard = remote.lock();
         let r = retry_interrupted(|| unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) });
         if r == -1 {
+            let err = io::Error::last_os_error();
             for r in self.memory_regions.iter() {
                 r.ref_count_inner(-1);
             }
-            log::error!("sendmsg: {}", io::Error::last_os_error());
-            Err(Error::Disconnect)
+            log::error!("sendmsg: {}", err);
+            match err.raw_os_error() {
+                // The message is too large, has too many objects, or resources are exhausted. This
+                // says nothing about the connection
+                Some(
+                    libc::EMSGSIZE
+                    | libc::EINVAL
+                    | libc::ETOOMANYREFS
+                    | libc::ENOMEM
+                    | libc::ENOBUFS,
+                ) => Err(Error::IoError(err)),
+                _ => Err(Error::Disconnect),
+            }
         } else {
             Ok(())
         }
-- 
2.43.0


From 9e8c8936292f2c365c06a654bbd98bf48b3d46ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 15/40] fix: failing to receive a message does not break the
 connection

If a message could not be received because of exhausted resources, the bus
controller closed the connection but kept the endpoint; the sender of that
endpoint then waited for its receiver to rejoin, forever.
---
 ipmb/src/lib.rs                            |  4 ++++
 ipmb/src/platform/linux.rs                 |  9 ++++++--
 ipmb/src/platform/linux/encoded_message.rs | 26 +++++++++++++++++-----
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 5b42dbf..f813866 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -344,6 +344,10 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                         Err(Error::Timeout) => {
                             break Err(RecvError::Timeout);
                         }
+                        Err(Error::IoError(_)) => {
+                            skipped = true;
+                            continue;
+                        }
                         Err(_) => unreachable!(),
                     }
                 }
diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 9fcb965..878c063 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -360,8 +360,13 @@ impl IoHub {
                     .find(|(_, p)| ev.u64 == p.0.as_raw() as u64)
                 {
                     let r = EncodedMessage::from_local(local);
-                    if r.is_err() {
-                        self.local_list.swap_remove(i);
+                    match &r {
+                        Ok(_) => {}
+                        // Only this message is lost, the connection is intact
+                        Err(Error::IoError(err)) => log::error!("recvmsg: {}", err),
+                        Err(_) => {
+                            self.local_list.swap_remove(i);
+                        }
                     }
                     break 'ret r;
                 }
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index cad9e03..7e76a58 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -56,8 +56,11 @@ impl EncodedMessage {
                     libc::MSG_PEEK | libc::MSG_TRUNC | libc::MSG_CTRUNC,
                 )
             });
+            if r == -1 {
+                return Err(recv_error());
+            }
             // When remote disconnected, recvmsg returns 0
-            if r <= 0 {
+            if r == 0 {
                 return Err(Error::Disconnect);
             }
 
@@ -82,7 +85,7 @@ impl EncodedMessage {
                 libc::recvmsg(local.0.as_raw(), &mut hdr, libc::MSG_CMSG_CLOEXEC)
             });
             if r == -1 {
-                return Err(Error::Disconnect);
+                return Err(recv_error());
             }
 
             // Only forward what was received, the rest of the buffer is uninitialized
@@ -106,13 +109,15 @@ impl EncodedMessage {
             }
 
             // When remote disconnected, recvmsg returns 0
-            if r == 0
-                || (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
-                || (hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC)
-            {
+            if r == 0 || (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC) {
                 return Err(Error::Disconnect);
             }
 
+            // There is room for every object, so there are too many open descriptors
+            if hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC {
+                return Err(Error::IoError(io::Error::from_raw_os_error(libc::EMFILE)));
+            }
+
             // parse
             let version_ptr = iov_data.as_ptr() as *const u32;
             let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(*version_ptr);
@@ -219,6 +224,15 @@ fn retry_interrupted(mut f: impl FnMut() -> isize) -> isize {
     }
 }
 
+fn recv_error() -> Error {
+    let err = io::Error::last_os_error();
+    match err.raw_os_error() {
+        // Resources are exhausted, this says nothing about the connection
+        Some(libc::ENOMEM | libc::ENOBUFS) => Error::IoError(err),
+        _ => Error::Disconnect,
+    }
+}
+
 struct Meta {
     iov_len: u32,
     control_len: u32,
-- 
2.43.0


From b01141890510f21b04a2097936120dee40fd4bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 16/40] fix: failing to map a memory region does not panic

MemoryRegion::new and clone return an error, a message with a region which
cannot be mapped is dropped. The latter ended the bus controller.
---
 ipmb/src/lib.rs                            |  2 +-
 ipmb/src/platform/linux.rs                 |  4 +++-
 ipmb/src/platform/linux/encoded_message.rs |  6 +++---
 ipmb/src/platform/mod.rs                   | 15 +++++++++------
 4 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index f813866..8d53596 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -344,7 +344,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                         Err(Error::Timeout) => {
                             break Err(RecvError::Timeout);
                         }
-                        Err(Error::IoError(_)) => {
+                        Err(Error::IoError(_) | Error::MemoryRegionMapping) => {
                             skipped = true;
                             continue;
                         }
diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 878c063..700d063 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -363,7 +363,9 @@ impl IoHub {
                     match &r {
                         Ok(_) => {}
                         // Only this message is lost, the connection is intact
-                        Err(Error::IoError(err)) => log::error!("recvmsg: {}", err),
+                        Err(err @ (Error::IoError(_) | Error::MemoryRegionMapping)) => {
+                            log::error!("recvmsg: {}", err)
+                        }
                         Err(_) => {
                             self.local_list.swap_remove(i);
                         }
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 7e76a58..939c54d 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -145,11 +145,11 @@ impl EncodedMessage {
             let memory_regions: Vec<_> = objects
                 .drain((objects.len() - selector.memory_region_count as usize)..)
                 .map(|obj| {
-                    let r = MemoryRegion::from_object(obj);
+                    let r = MemoryRegion::try_from_object(obj)?;
                     r.ref_count_inner(-1);
-                    r
+                    Ok(r)
                 })
-                .collect();
+                .collect::<Result<_, Error>>()?;
 
             let payload_size_ptr = selector_ptr.offset(selector_size.align4() as _) as *const u32;
 
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 6a8d8b6..c7b867e 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -48,7 +48,8 @@ impl Drop for MemoryRegion {
 
 impl MemoryRegion {
     pub fn clone(&self) -> io::Result<Self> {
-        self.object().clone().map(Self::from_object)
+        let obj = self.object().clone()?;
+        Self::try_from_object(obj).map_err(|_| io::ErrorKind::OutOfMemory.into())
     }
 }
 
@@ -65,8 +66,7 @@ impl MemoryRegion {
         let obj = Self::obj_new(real_size)?;
 
         unsafe {
-            let mut header = MappedRegion::from_object(&obj, 0, Self::header_length())
-                .expect("MappedRegion::from_object");
+            let mut header = MappedRegion::from_object(&obj, 0, Self::header_length()).ok()?;
 
             let rc: &AtomicU32 = mem::transmute(header.as_slice().as_ptr());
             rc.store(1, Ordering::SeqCst);
@@ -88,9 +88,12 @@ impl MemoryRegion {
     }
 
     pub fn from_object(obj: Object) -> Self {
+        Self::try_from_object(obj).expect("MappedRegion::from_object")
+    }
+
+    pub(crate) fn try_from_object(obj: Object) -> Result<Self, Error> {
         let mr = unsafe {
-            let header = MappedRegion::from_object(&obj, 0, Self::header_length())
-                .expect("MappedRegion::from_object");
+            let header = MappedRegion::from_object(&obj, 0, Self::header_length())?;
 
             let buffer_size = header
                 .as_slice()
@@ -108,7 +111,7 @@ impl MemoryRegion {
         };
         mr.ref_count_inner(1);
 
-        mr
+        Ok(mr)
     }
 
     pub fn object(&self) -> &Object {
-- 
2.43.0


From d1ed654ca1b04b4b13a401fd1e5ecad08d6577e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 17/40] fix: check the sizes in received messages

Sizes, counts and objects of a message were trusted: another process
writing garbage into the socket of the bus crashed the bus controller.
---
 ipmb/src/platform/linux.rs                 | 11 +++++
 ipmb/src/platform/linux/encoded_message.rs | 48 +++++++++++++++-------
 ipmb/src/platform/mod.rs                   |  2 +-
 3 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 700d063..7cd104f 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -36,6 +36,17 @@ impl MemoryRegion {
             Some(fd)
         }
     }
+
+    pub(crate) fn obj_size(obj: &Object) -> Option<u64> {
+        unsafe {
+            let mut stat: libc::stat = mem::zeroed();
+            let r = libc::fstat(obj.as_raw(), &mut stat);
+            if r == -1 {
+                return None;
+            }
+            u64::try_from(stat.st_size).ok()
+        }
+    }
 }
 
 impl platform::MappedRegion {
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 939c54d..d70beb0 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -119,8 +119,14 @@ impl EncodedMessage {
             }
 
             // parse
-            let version_ptr = iov_data.as_ptr() as *const u32;
-            let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(*version_ptr);
+            let data = slice::from_raw_parts(iov_data.as_ptr(), r as usize);
+            let read_u32 = |offset: usize| -> Result<u32, Error> {
+                let bytes = data.get(offset..).and_then(|data| data.get(..4));
+                let bytes = bytes.ok_or(Error::Disconnect)?;
+                Ok(u32::from_ne_bytes(bytes.try_into().unwrap()))
+            };
+
+            let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(read_u32(0)?);
             if magic != 0xFF {
                 return Err(Error::VersionMismatch(Version((0, 0, 0)), None));
             }
@@ -134,31 +140,43 @@ impl EncodedMessage {
                 ));
             }
 
-            let selector_size_ptr = version_ptr.offset(1);
-            let selector_size = *selector_size_ptr;
-            let selector_ptr = selector_size_ptr.offset(1) as *const u8;
+            // Another process may have sent anything, don't trust the sizes
+            let selector_size = read_u32(4)?;
+            let selector_data = data[8..]
+                .get(..selector_size as usize)
+                .ok_or(Error::Disconnect)?;
 
-            // TODO: Check size
-            let selector: Selector =
-                decode(slice::from_raw_parts(selector_ptr, selector_size as _))?;
+            let selector: Selector = decode(selector_data)?;
 
+            let payload_size_offset = 8 + (selector_size as usize).align4();
+            let payload_size = read_u32(payload_size_offset)?;
+            let payload_data = data[payload_size_offset + 4..]
+                .get(..payload_size as usize)
+                .ok_or(Error::Disconnect)?;
+
+            let object_count = objects
+                .len()
+                .checked_sub(selector.memory_region_count as usize)
+                .ok_or(Error::Disconnect)?;
             let memory_regions: Vec<_> = objects
-                .drain((objects.len() - selector.memory_region_count as usize)..)
+                .drain(object_count..)
                 .map(|obj| {
+                    let size = MemoryRegion::obj_size(&obj).unwrap_or(0);
+                    if size < MemoryRegion::header_length() as u64 {
+                        return Err(Error::Disconnect);
+                    }
                     let r = MemoryRegion::try_from_object(obj)?;
+                    if size - (MemoryRegion::header_length() as u64) < r.buffer_size() {
+                        return Err(Error::Disconnect);
+                    }
                     r.ref_count_inner(-1);
                     Ok(r)
                 })
                 .collect::<Result<_, Error>>()?;
 
-            let payload_size_ptr = selector_ptr.offset(selector_size.align4() as _) as *const u32;
-
             Ok(Self {
                 selector,
-                payload_data: slice::from_raw_parts(
-                    payload_size_ptr.offset(1) as *const u8,
-                    *payload_size_ptr as _,
-                ),
+                payload_data,
                 iov_data,
                 control_data,
                 objects,
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index c7b867e..36b2e41 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -57,7 +57,7 @@ impl MemoryRegion {
     const HEADER_REFERENCE_COUNT: usize = 4;
     const HEADER_BUFFER_SIZE: usize = 8;
 
-    const fn header_length() -> usize {
+    pub(crate) const fn header_length() -> usize {
         Self::HEADER_REFERENCE_COUNT + Self::HEADER_BUFFER_SIZE
     }
 
-- 
2.43.0


From f0bc1687336836b2a98c3daf4ca6bdc75bc6ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 18/40] fix: join reports exhausted resources instead of
 panicking

---
 ipmb-ffi/src/lib.rs               |  2 ++
 ipmb/src/errors.rs                |  6 ++++++
 ipmb/src/lib.rs                   |  2 +-
 ipmb/src/platform/linux.rs        | 26 ++++++++++++++------------
 ipmb/src/platform/linux/io_mul.rs | 23 +++++++++++++++--------
 ipmb/src/platform/macos/mod.rs    |  6 +++---
 ipmb/src/platform/windows/mod.rs  |  6 +++---
 7 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index 53cb50a..f0e2d53 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -144,6 +144,7 @@ pub unsafe extern "C" fn ipmb_join(
         Err(ipmb::JoinError::TokenMismatch) => ERROR_CODE_TOKEN_MISMATCH,
         Err(ipmb::JoinError::PermissionDenied) => ERROR_CODE_PERMISSION_DENIED,
         Err(ipmb::JoinError::Timeout) => ERROR_CODE_TIMEOUT,
+        Err(ipmb::JoinError::IoError(_)) => ERROR_CODE_UNKNOWN,
     }
 }
 
@@ -197,6 +198,7 @@ pub unsafe extern "C" fn ipmb_recv(
         Err(ipmb::RecvError::VersionMismatch(_)) => ERROR_CODE_VERSION_MISMATCH,
         Err(ipmb::RecvError::TokenMismatch) => ERROR_CODE_TOKEN_MISMATCH,
         Err(ipmb::RecvError::PermissionDenied) => ERROR_CODE_PERMISSION_DENIED,
+        Err(ipmb::RecvError::IoError(_)) => ERROR_CODE_UNKNOWN,
     }
 }
 
diff --git a/ipmb/src/errors.rs b/ipmb/src/errors.rs
index 97fffa2..86b9dbb 100644
--- a/ipmb/src/errors.rs
+++ b/ipmb/src/errors.rs
@@ -44,6 +44,8 @@ pub enum JoinError {
     Timeout,
     #[error("permission denied")]
     PermissionDenied,
+    #[error("io error: {0}")]
+    IoError(#[from] std::io::Error),
 }
 
 #[derive(Debug, Error)]
@@ -67,6 +69,7 @@ impl From<JoinError> for SendError {
             JoinError::TokenMismatch => Self::TokenMismatch,
             JoinError::Timeout => Self::Timeout,
             JoinError::PermissionDenied => Self::PermissionDenied,
+            JoinError::IoError(err) => Self::IoError(err),
         }
     }
 }
@@ -83,6 +86,8 @@ pub enum RecvError {
     TokenMismatch,
     #[error("permission denied")]
     PermissionDenied,
+    #[error("io error: {0}")]
+    IoError(#[from] std::io::Error),
 }
 
 impl From<JoinError> for RecvError {
@@ -92,6 +97,7 @@ impl From<JoinError> for RecvError {
             JoinError::TokenMismatch => Self::TokenMismatch,
             JoinError::Timeout => Self::Timeout,
             JoinError::PermissionDenied => Self::PermissionDenied,
+            JoinError::IoError(err) => Self::IoError(err),
         }
     }
 }
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 8d53596..8ab2626 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -92,7 +92,7 @@ pub fn join<'de, T: MessageBox, R: MessageBox>(
     let rule = Arc::new(RwLock::new(Rule::join(
         options,
         0,
-        Arc::new(IoMultiplexing::new()),
+        Arc::new(IoMultiplexing::new()?),
         timeout,
     )?));
 
diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 7cd104f..a6cc95b 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -203,7 +203,7 @@ pub(crate) fn look_up(
         let mut encoded_msg = msg.into_encoded();
         encoded_msg.send(&remote)?;
 
-        let mut io_hub: IoHub = IoHub::for_endpoint(Local(read_fd), im);
+        let mut io_hub: IoHub = IoHub::for_endpoint(Local(read_fd), im)?;
         // Wait ack
         let encoded_msg = io_hub.recv(Some(Duration::from_secs(2)), Some(&remote))?;
         let ack = message::ConnectMessageAck::decode(
@@ -254,7 +254,7 @@ pub(crate) fn register(
 
         let (bus_tx, bus_rx) = mpsc::channel();
         Ok((
-            IoHub::for_bus_controller(fd, bus_rx, im),
+            IoHub::for_bus_controller(fd, bus_rx, im)?,
             bus_tx,
             EndpointID::new(),
         ))
@@ -274,28 +274,28 @@ impl IoHub {
         listener: Fd,
         bus_rx: mpsc::Receiver<EncodedMessage>,
         im: Arc<IoMultiplexing>,
-    ) -> Self {
-        im.register(&listener);
+    ) -> io::Result<Self> {
+        im.register(&listener)?;
 
-        Self {
+        Ok(Self {
             bus_rx: Some(bus_rx),
             local_list: vec![],
             listener: Some(listener),
             in_buffer: Vec::with_capacity(2),
             im,
-        }
+        })
     }
 
-    fn for_endpoint(local: Local, im: Arc<IoMultiplexing>) -> Self {
-        im.register(&local.0);
+    fn for_endpoint(local: Local, im: Arc<IoMultiplexing>) -> io::Result<Self> {
+        im.register(&local.0)?;
 
-        Self {
+        Ok(Self {
             bus_rx: None,
             local_list: vec![local],
             listener: None,
             in_buffer: Vec::with_capacity(2),
             im,
-        }
+        })
     }
 
     pub fn recv(
@@ -357,8 +357,10 @@ impl IoHub {
                                     &MAXIMUM_BUF_SIZE as *const _ as _,
                                     mem::size_of_val(&MAXIMUM_BUF_SIZE) as _,
                                 );
-                                self.im.register(&local.0);
-                                self.local_list.push(local);
+                                match self.im.register(&local.0) {
+                                    Ok(_) => self.local_list.push(local),
+                                    Err(err) => log::error!("accept: {}", err),
+                                }
                             }
                         }
                         continue;
diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index 37abef4..77b0e8f 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -1,5 +1,5 @@
 use super::Fd;
-use std::{ffi, mem, time::Duration};
+use std::{ffi, io, mem, time::Duration};
 
 pub struct IoMultiplexing {
     fd: Fd,
@@ -7,34 +7,41 @@ pub struct IoMultiplexing {
 }
 
 impl IoMultiplexing {
-    pub fn new() -> Self {
+    pub fn new() -> io::Result<Self> {
         let fd = unsafe {
             let fd = libc::epoll_create1(libc::EPOLL_CLOEXEC);
-            assert_ne!(fd, -1);
+            if fd == -1 {
+                return Err(io::Error::last_os_error());
+            }
             Fd::from_raw(fd)
         };
 
         let waker_fd = unsafe {
             let efd = libc::eventfd(0, libc::EFD_CLOEXEC);
-            assert_ne!(efd, -1);
+            if efd == -1 {
+                return Err(io::Error::last_os_error());
+            }
             Fd::from_raw(efd)
         };
 
         let im = Self { fd, waker_fd };
 
-        im.register(&im.waker_fd);
+        im.register(&im.waker_fd)?;
 
-        im
+        Ok(im)
     }
 
-    pub(crate) fn register(&self, fd: &Fd) {
+    pub(crate) fn register(&self, fd: &Fd) -> io::Result<()> {
         unsafe {
             let mut ev = libc::epoll_event {
                 events: libc::EPOLLIN as _,
                 u64: fd.as_raw() as _,
             };
             let r = libc::epoll_ctl(self.fd.as_raw(), libc::EPOLL_CTL_ADD, fd.as_raw(), &mut ev);
-            assert_ne!(r, -1);
+            if r == -1 {
+                return Err(io::Error::last_os_error());
+            }
+            Ok(())
         }
     }
 
diff --git a/ipmb/src/platform/macos/mod.rs b/ipmb/src/platform/macos/mod.rs
index 23874a3..9ba5772 100644
--- a/ipmb/src/platform/macos/mod.rs
+++ b/ipmb/src/platform/macos/mod.rs
@@ -736,7 +736,7 @@ pub(crate) struct IoMultiplexing {
 }
 
 impl IoMultiplexing {
-    pub fn new() -> Self {
+    pub fn new() -> std::io::Result<Self> {
         unsafe {
             let fd = libc::kqueue();
             assert_ne!(fd, -1); // TODO
@@ -753,10 +753,10 @@ impl IoMultiplexing {
             let r = libc::kevent(fd.as_raw_fd(), &event, 1, ptr::null_mut(), 0, ptr::null());
             assert_ne!(r, -1); // TODO
 
-            Self {
+            Ok(Self {
                 fd,
                 waker: event.ident,
-            }
+            })
         }
     }
 
diff --git a/ipmb/src/platform/windows/mod.rs b/ipmb/src/platform/windows/mod.rs
index 716e4cc..5af5604 100644
--- a/ipmb/src/platform/windows/mod.rs
+++ b/ipmb/src/platform/windows/mod.rs
@@ -867,18 +867,18 @@ pub(crate) struct IoMultiplexing {
 }
 
 impl IoMultiplexing {
-    pub fn new() -> Self {
+    pub fn new() -> std::io::Result<Self> {
         unsafe {
             let completion_port: Foundation::HANDLE =
                 IO::CreateIoCompletionPort(Foundation::INVALID_HANDLE_VALUE, None, 0, 0)
                     .expect("CreateIoCompletionPort failed");
             let completion_port = OwnedHandle::from_raw_handle(completion_port.0 as _);
 
-            Self {
+            Ok(Self {
                 completion_port: Handle(completion_port),
                 waker: 0, // We use 0 as waker key, because a valid handle will never be 0
                 sa: SecurityAttr::allow_everyone().unwrap(),
-            }
+            })
         }
     }
 
-- 
2.43.0


From 8d6e629a64b70c716cdf7d995949f2af04473f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 19/40] fix: join retries when the bus controller cannot be
 started

---
 ipmb/src/bus_controller.rs |  6 +++---
 ipmb/src/lib.rs            | 10 +++++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index 5833cd6..dc2f78a 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -6,7 +6,7 @@ use crate::{
     SelectorMode,
 };
 use std::{
-    mem,
+    io, mem,
     sync::mpsc::Sender,
     thread,
     time::{Duration, Instant},
@@ -49,7 +49,7 @@ impl BusController {
         }
     }
 
-    pub fn run(mut self) {
+    pub fn run(mut self) -> io::Result<()> {
         thread::Builder::new()
             .name(String::from("ipmb bus controller"))
             .spawn(move || loop {
@@ -100,7 +100,7 @@ impl BusController {
                 self.detect_reachable(now);
                 self.maintain(now);
             })
-            .expect("failed to spawn ipmb bus controller");
+            .map(|_| ())
     }
 
     // Don't read or write self.message_buffer
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 8ab2626..9e0fe17 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -497,12 +497,16 @@ impl Rule {
 
                             let bus_controller = BusController::new(
                                 endpoint_id,
-                                options.label,
-                                options.token,
+                                options.label.clone(),
+                                options.token.clone(),
                                 sender,
                                 io_hub,
                             );
-                            bus_controller.run();
+                            if let Err(err) = bus_controller.run() {
+                                log::error!("bus controller: {:?}", err);
+                                wait!();
+                                continue;
+                            }
 
                             let rule = Rule::Server {
                                 endpoint_id,
-- 
2.43.0


From 92addbd4b50bc5d83dca4e35757c7d5955ead70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 20/40] fix: dropping a receiver releases the regions of unread
 messages

---
 ipmb/src/platform/linux.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index a6cc95b..dbdc47b 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -394,6 +394,26 @@ impl IoHub {
     }
 }
 
+impl Drop for IoHub {
+    fn drop(&mut self) {
+        if self.listener.is_some() {
+            return;
+        }
+
+        // Messages which will never be received still hold references to their memory regions
+        for local in &mut self.local_list {
+            unsafe {
+                let _ = libc::shutdown(local.0.as_raw(), libc::SHUT_RD);
+            }
+
+            while !matches!(
+                EncodedMessage::from_local(local),
+                Err(Error::Disconnect | Error::IoError(_))
+            ) {}
+        }
+    }
+}
+
 impl<T: MessageBox> message::Message<T> {
     fn encode_inner(&self) -> (&'static [u8], Vec<u8>, Vec<u8>) {
         // iov data
-- 
2.43.0


From f6a04b3a291faa2673e6c1657d5a3947dac1e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:18 +0000
Subject: [PATCH 21/40] fix: a send which finds the bus lost does not wait for
 the rejoined receiver

---
 ipmb/src/lib.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 9e0fe17..dcbc2db 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -15,7 +15,7 @@ use std::{
     sync::{
         mpsc,
         mpsc::{Receiver, RecvTimeoutError, Sender},
-        Arc, Mutex, RwLock,
+        Arc, Mutex, RwLock, TryLockError,
     },
     thread,
     time::{Duration, Instant},
@@ -128,7 +128,7 @@ impl<T: MessageBox> EndpointSender<T> {
         msg.selector.memory_region_count = msg.memory_regions.len() as _;
         let mut msg = msg.into_encoded();
 
-        loop {
+        'send: loop {
             let rule = self.rule.read().unwrap();
             match &*rule {
                 Rule::Client {
@@ -148,7 +148,19 @@ impl<T: MessageBox> EndpointSender<T> {
 
                     match msg.send(&remote) {
                         Err(Error::Disconnect) => {
-                            let mut rule = self.rule.write().unwrap();
+                            // The receiver may have rejoined, then it holds the rule while it waits
+                            // for messages
+                            let mut rule = loop {
+                                match self.rule.try_write() {
+                                    Ok(rule) => break rule,
+                                    Err(TryLockError::WouldBlock) => {}
+                                    Err(err) => panic!("{}", err),
+                                }
+                                if self.rule.read().unwrap().epoch() != Some(epoch) {
+                                    continue 'send;
+                                }
+                                thread::sleep(Duration::from_millis(1));
+                            };
                             match &mut *rule {
                                 Rule::Client {
                                     endpoint_id: _,
@@ -564,6 +576,13 @@ impl Rule {
 }
 
 impl Rule {
+    fn epoch(&self) -> Option<u32> {
+        match self {
+            Rule::Client { epoch, .. } => Some(*epoch),
+            Rule::Server { .. } => None,
+        }
+    }
+
     fn reader_close(&mut self) {
         match self {
             Rule::Client {
-- 
2.43.0


From fd011cc76bdc310e1b984b52e28c584a4a88ae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:11 +0000
Subject: [PATCH 22/40] fix: forget closed connections in the event queue

A child process which has been forked but has not executed another program
yet keeps the open file description alive, and with it the registration in
the epoll instance. Its hang-up was then taken for an event of the next
descriptor with the same number: the controller or a receiver blocked in
accept or recvmsg.
---
 ipmb/src/platform/linux.rs        | 7 ++++++-
 ipmb/src/platform/linux/io_mul.rs | 9 +++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index dbdc47b..c0dcfd2 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -380,7 +380,8 @@ impl IoHub {
                             log::error!("recvmsg: {}", err)
                         }
                         Err(_) => {
-                            self.local_list.swap_remove(i);
+                            let local = self.local_list.swap_remove(i);
+                            self.im.unregister(&local.0);
                         }
                     }
                     break 'ret r;
@@ -396,6 +397,10 @@ impl IoHub {
 
 impl Drop for IoHub {
     fn drop(&mut self) {
+        for fd in self.local_list.iter().map(|l| &l.0).chain(&self.listener) {
+            self.im.unregister(fd);
+        }
+
         if self.listener.is_some() {
             return;
         }
diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index 77b0e8f..2ad583d 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -45,6 +45,15 @@ impl IoMultiplexing {
         }
     }
 
+    // Must precede the closing of a registered fd: a child process which has been forked but has not executed another
+    // program yet would keep the registration, and its events would be taken for those of the next fd with this number
+    pub(crate) fn unregister(&self, fd: &Fd) {
+        unsafe {
+            let mut ev = libc::epoll_event { events: 0, u64: 0 };
+            libc::epoll_ctl(self.fd.as_raw(), libc::EPOLL_CTL_DEL, fd.as_raw(), &mut ev);
+        }
+    }
+
     // May return without events before the timeout is reached
     pub(crate) fn wait(&self, events: &mut Vec<libc::epoll_event>, timeout: Option<Duration>) {
         unsafe {
-- 
2.43.0


From 41743a745b2674cf799e1d11e62fb9c47cca354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 23/40] fix: give a rejoin the remaining timeout of the receive

---
 ipmb/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index dcbc2db..fd63b83 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -224,11 +224,11 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
         // Messages which are not for this receiver don't extend the timeout.
         // A deadline which cannot be represented is never reached
         let deadline = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
+        let remain = || deadline.map(|deadline| deadline.saturating_duration_since(Instant::now()));
         let mut skipped = false;
 
         loop {
-            let timeout =
-                deadline.map(|deadline| deadline.saturating_duration_since(Instant::now()));
+            let timeout = remain();
             if skipped && timeout == Some(Duration::ZERO) {
                 break Err(RecvError::Timeout);
             }
@@ -269,7 +269,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                         options.clone(),
                                         epoch.overflowing_add(1).0,
                                         im.clone(),
-                                        timeout,
+                                        remain(),
                                     )?;
 
                                     if reader_closed {
@@ -340,7 +340,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                             options.clone(),
                                             epoch.overflowing_add(1).0,
                                             im.clone(),
-                                            timeout,
+                                            remain(),
                                         )?;
 
                                         if reader_closed {
-- 
2.43.0


From eb82a77c45fbe7e1e4e087689397d37a3d056572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 24/40] fix: limit the depth of label operations received

---
 ipmb/src/label.rs | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/label.rs b/ipmb/src/label.rs
index 7b079af..fffdb16 100644
--- a/ipmb/src/label.rs
+++ b/ipmb/src/label.rs
@@ -1,7 +1,7 @@
-use serde::{Deserialize, Serialize};
+use serde::{de::Error, Deserialize, Deserializer, Serialize};
 use smallvec::SmallVec;
 use smol_str::SmolStr;
-use std::{iter, ops::Not};
+use std::{cell::Cell, iter, ops::Not};
 
 #[derive(Debug, Default, Clone, Serialize, Deserialize, PartialEq)]
 pub struct Label(SmallVec<[SmolStr; 8]>);
@@ -71,9 +71,34 @@ pub enum LabelOp {
     True,
     False,
     Leaf(SmolStr),
-    Not(Box<Self>),
-    And(Box<Self>, Box<Self>),
-    Or(Box<Self>, Box<Self>),
+    Not(#[serde(deserialize_with = "nested")] Box<Self>),
+    And(
+        #[serde(deserialize_with = "nested")] Box<Self>,
+        #[serde(deserialize_with = "nested")] Box<Self>,
+    ),
+    Or(
+        #[serde(deserialize_with = "nested")] Box<Self>,
+        #[serde(deserialize_with = "nested")] Box<Self>,
+    ),
+}
+
+/// Operations nested deeper than this are not accepted, they come from anywhere and must not exhaust the stack.
+const MAX_DEPTH: usize = 512;
+
+fn nested<'de, D: Deserializer<'de>>(deserializer: D) -> Result<Box<LabelOp>, D::Error> {
+    thread_local! {
+        static DEPTH: Cell<usize> = const { Cell::new(0) };
+    }
+
+    DEPTH.with(|depth| {
+        if depth.get() == MAX_DEPTH {
+            return Err(D::Error::custom("label operations are nested too deeply"));
+        }
+        depth.set(depth.get() + 1);
+        let r = Box::deserialize(deserializer);
+        depth.set(depth.get() - 1);
+        r
+    })
 }
 
 impl LabelOp {
-- 
2.43.0


From 63daa020430a807caf5dfc8d5c51c602db334ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 25/40] fix: don't allocate more than the data can contain
 while decoding

---
 ipmb/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index fd63b83..2f09873 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -74,9 +74,15 @@ pub enum SelectorMode {
 }
 
 pub fn decode<'de, T: Deserialize<'de>>(data: &'de [u8]) -> Result<T, Error> {
-    let (d, _): (T, _) =
-        bincode::serde::borrow_decode_from_slice(data, bincode::config::standard())
-            .map_err(Error::Decode)?;
+    let config = bincode::config::standard();
+    // The data may claim to contain much more than it does, which must not be allocated. No element
+    // is larger than 16 bytes.
+    let (d, _): (T, _) = if data.len() <= 1 << 20 {
+        bincode::serde::borrow_decode_from_slice(data, config.with_limit::<{ 16 << 20 }>())
+    } else {
+        bincode::serde::borrow_decode_from_slice(data, config)
+    }
+    .map_err(Error::Decode)?;
     Ok(d)
 }
 
-- 
2.43.0


From f77bb96d60559ddeb71aca19da5f7b80254e754f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 26/40] fix: accept a null pointer for an empty message

---
 ipmb-ffi/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index f0e2d53..194b81d 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -285,7 +285,12 @@ pub unsafe extern "C" fn ipmb_message(
     ptr: *const u8,
     size: u32,
 ) -> Message {
-    let data = slice::from_raw_parts(ptr, size as _).to_owned();
+    // The pointer may be null if there is no data
+    let data = if size == 0 {
+        vec![]
+    } else {
+        slice::from_raw_parts(ptr, size as _).to_owned()
+    };
 
     ipmb::Message::<ipmb::BytesMessage>::new(selector.into(), ipmb::BytesMessage { format, data })
         .into()
-- 
2.43.0


From 0c7b92c9320d9e26b4de3dea4fa0f866fbee3287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 27/40] fix: reject expired promises of the Node.js receiver
 also while messages keep arriving

---
 ipmb-js/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index c83f50a..952e60c 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -451,6 +451,8 @@ extern "C" fn delegate_receiver(
             DelegateAction::Close(tsfn) => local.close(env, tsfn),
             DelegateAction::CleanTimeout => local.clean_timeout(env),
             DelegateAction::Recv(r) => {
+                // An expired promise doesn't take a message
+                local.clean_timeout(env);
                 if local.deferred_list.is_empty() {
                     local.messages.push(r);
                 } else {
-- 
2.43.0


From 82cac7ca784cadb85a860eb7a523fe26f65e1550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 28/40] fix: release messages nobody received when a Node.js
 receiver is closed

---
 ipmb-js/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index 952e60c..1a5e264 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -412,6 +412,8 @@ impl LocalBuffer {
 
     fn close(&mut self, env: Env, tsfn: ThreadsafeFunction) {
         self.closed = true;
+        // Nobody can receive them any more
+        self.messages.clear();
         let deferred_list = mem::take(&mut self.deferred_list);
 
         if let Ok(err) = env.create_error(Error::new(Status::GenericFailure, "closed")) {
-- 
2.43.0


From 2e58c03784a6c243e83844ddb131ef4e4084e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 29/40] fix: end the receiving thread of the Node.js binding
 also while messages keep arriving

---
 ipmb-js/src/lib.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index 1a5e264..67a74d5 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -283,18 +283,9 @@ pub fn join(options: Options, timeout: Option<u32>, mut env: Env) -> Result<napi
         let r = receiver.recv(Some(Duration::from_millis(200)));
 
         match r {
-            Err(ipmb::RecvError::Timeout) => match guard_receiver.try_recv() {
-                Ok(_) => {
-                    tsfn.destroy();
-                    break;
-                }
-                Err(mpsc::TryRecvError::Disconnected) => {
-                    break;
-                }
-                Err(mpsc::TryRecvError::Empty) => {
-                    tsfn.call(DelegateAction::CleanTimeout);
-                }
-            },
+            Err(ipmb::RecvError::Timeout) => {
+                tsfn.call(DelegateAction::CleanTimeout);
+            }
             Err(
                 ipmb::RecvError::VersionMismatch(_)
                 | ipmb::RecvError::TokenMismatch
@@ -308,6 +299,18 @@ pub fn join(options: Options, timeout: Option<u32>, mut env: Env) -> Result<napi
                 tsfn.call(DelegateAction::Recv(r));
             }
         }
+
+        // Also while messages keep arriving, `close` waits for this
+        match guard_receiver.try_recv() {
+            Ok(_) => {
+                tsfn.destroy();
+                break;
+            }
+            Err(mpsc::TryRecvError::Disconnected) => {
+                break;
+            }
+            Err(mpsc::TryRecvError::Empty) => {}
+        }
     });
 
     let receiver = Receiver {
-- 
2.43.0


From 00a092970d5481786753f0bc66460d5dc13283b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 30/40] fix: do not touch the freed state of a Node.js receiver
 when the environment ends

---
 ipmb-js/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index 67a74d5..16393e2 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -446,8 +446,12 @@ extern "C" fn delegate_receiver(
     data: *mut ffi::c_void,
 ) {
     unsafe {
-        let env = Env::from_raw(env);
         let action = *Box::from_raw(data as *mut DelegateAction);
+        if env.is_null() {
+            // The environment has ended: nobody is waiting and the context has been freed
+            return;
+        }
+        let env = Env::from_raw(env);
         let local_buffer = &*(context as *const Mutex<LocalBuffer>);
         let mut local = local_buffer.lock().unwrap();
         debug_assert!(local.deferred_list.is_empty() || local.messages.is_empty());
-- 
2.43.0


From cfe1b0e91238576f3ce87757430102293828f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:56 +0000
Subject: [PATCH 31/40] fix: refuse identifiers that a socket address cannot
 hold instead of truncating them

---
 ipmb/src/errors.rs         |  2 ++
 ipmb/src/lib.rs            |  4 ++++
 ipmb/src/platform/linux.rs | 14 +++++++++-----
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/errors.rs b/ipmb/src/errors.rs
index 86b9dbb..c8addb2 100644
--- a/ipmb/src/errors.rs
+++ b/ipmb/src/errors.rs
@@ -21,6 +21,8 @@ pub enum Error {
     IdentifierInUse,
     #[error("identifier not in use")]
     IdentifierNotInUse,
+    #[error("invalid identifier")]
+    InvalidIdentifier,
     #[cfg(target_os = "windows")]
     #[error("win error: {0}")]
     WinError(#[from] windows::core::Error),
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 2f09873..61d9400 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -11,6 +11,7 @@ pub use platform::{MemoryRegion, Object};
 use serde::{Deserialize, Serialize};
 use std::{
     fmt::{Display, Formatter},
+    io,
     marker::PhantomData,
     sync::{
         mpsc,
@@ -554,6 +555,9 @@ impl Rule {
                 Err(Error::TokenMismatch) => {
                     return Err(JoinError::TokenMismatch);
                 }
+                Err(Error::InvalidIdentifier) => {
+                    return Err(JoinError::IoError(io::ErrorKind::InvalidInput.into()));
+                }
                 Err(Error::PermissionDenied) => {
                     permission_denied_count += 1;
                     if permission_denied_count > 5 {
diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index c0dcfd2..019d6e1 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -90,12 +90,16 @@ pub(crate) fn page_mask() -> usize {
 }
 
 // we use abstract socket address
-fn identifier_to_socket_addr(identifier: &str) -> libc::sockaddr_un {
-    let identifier = ffi::CString::new(identifier).unwrap();
+fn identifier_to_socket_addr(identifier: &str) -> Result<libc::sockaddr_un, Error> {
+    let identifier = ffi::CString::new(identifier).map_err(|_| Error::InvalidIdentifier)?;
     let mut addr = libc::sockaddr_un {
         sun_family: libc::AF_UNIX as _,
         sun_path: [0; 108],
     };
+    // A truncated identifier would be the identifier of another bus
+    if identifier.as_bytes().len() > addr.sun_path.len() - 2 {
+        return Err(Error::InvalidIdentifier);
+    }
     unsafe {
         libc::strncpy(
             addr.sun_path[1..].as_mut_ptr(),
@@ -103,7 +107,7 @@ fn identifier_to_socket_addr(identifier: &str) -> libc::sockaddr_un {
             addr.sun_path.len() - 2,
         );
     }
-    addr
+    Ok(addr)
 }
 
 pub(crate) fn look_up(
@@ -119,7 +123,7 @@ pub(crate) fn look_up(
         }
         let fd = Fd::from_raw(fd);
 
-        let addr = identifier_to_socket_addr(identifier);
+        let addr = identifier_to_socket_addr(identifier)?;
 
         let mut r = libc::connect(
             fd.as_raw(),
@@ -230,7 +234,7 @@ pub(crate) fn register(
         }
         let fd = Fd::from_raw(fd);
 
-        let addr = identifier_to_socket_addr(identifier);
+        let addr = identifier_to_socket_addr(identifier)?;
 
         let mut r = libc::bind(
             fd.as_raw(),
-- 
2.43.0


From ca70f6364035ad78b4ec3279d09949da65563425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 32/40] fix: map an empty window that starts at a page boundary

---
 ipmb/src/platform/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 36b2e41..b1dca38 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -172,7 +172,7 @@ impl Drop for MappedRegion {
             let adjustment_for_alignment = self.offset - aligned_offset;
             Self::unmap(
                 self.buffer.as_mut_ptr().sub(adjustment_for_alignment) as _,
-                adjustment_for_alignment + self.buffer.len(),
+                (adjustment_for_alignment + self.buffer.len()).max(1),
             );
         }
     }
@@ -186,7 +186,8 @@ impl MappedRegion {
     ) -> Result<Self, Error> {
         let aligned_offset = trunc_page(offset);
         let adjustment_for_alignment = offset - aligned_offset;
-        let addr = Self::map(obj, aligned_offset, adjustment_for_alignment + size)?;
+        // An empty mapping is not possible
+        let addr = Self::map(obj, aligned_offset, (adjustment_for_alignment + size).max(1))?;
 
         Ok(Self {
             offset,
-- 
2.43.0


From f9fbf58f6b56f051c9bba8b516873d123c3285bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 33/40] fix: refuse a memory region whose size cannot be
 represented

---
 ipmb/src/memory_registry.rs | 2 +-
 ipmb/src/platform/mod.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/memory_registry.rs b/ipmb/src/memory_registry.rs
index 9e39e50..641b04c 100644
--- a/ipmb/src/memory_registry.rs
+++ b/ipmb/src/memory_registry.rs
@@ -34,7 +34,7 @@ impl MemoryRegistry {
     ) -> Option<MemoryRegion> {
         let now = Instant::now();
 
-        for (_, rs) in self.inner.range_mut(min_size..min_size * 2) {
+        for (_, rs) in self.inner.range_mut(min_size..min_size.saturating_mul(2)) {
             for r in rs {
                 if r.region.ref_count_inner(0) == 1 && tag == r.tag.as_deref() {
                     r.last_alloc = now;
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index b1dca38..c971c7d 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -62,7 +62,7 @@ impl MemoryRegion {
     }
 
     pub fn new(size: usize) -> Option<Self> {
-        let real_size = Self::header_length() + size;
+        let real_size = Self::header_length().checked_add(size)?;
         let obj = Self::obj_new(real_size)?;
 
         unsafe {
-- 
2.43.0


From 7339df7283dfb3f4b417405af02a993daea50860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 34/40] fix: refuse to map a window which is not within its
 region

---
 ipmb-ffi/src/lib.rs      |  2 +-
 ipmb/src/platform/mod.rs |  6 ++----
 ipmb/src/util/mod.rs     | 18 +++++++++++-------
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index 194b81d..59cf4c8 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -414,7 +414,7 @@ pub unsafe extern "C" fn ipmb_memory_region_map(
     if size < 0 {
         region.map(offset..)
     } else {
-        region.map(offset..offset + size as usize)
+        region.map(offset..offset.saturating_add(size as usize))
     }
     .map(|v| {
         if !real_size.is_null() {
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index c971c7d..f993d2f 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -119,10 +119,8 @@ impl MemoryRegion {
     }
 
     pub fn map(&mut self, range: impl RangeBounds<usize>) -> Result<&mut [u8], Error> {
-        let (offset, size) = util::range_to_offset_size(range);
-        let size = size.unwrap_or_else(|| {
-            usize::try_from(self.buffer_size() - offset as u64).unwrap_or(usize::MAX)
-        });
+        let (offset, size) = util::range_to_offset_size(range, self.buffer_size())
+            .ok_or(Error::MemoryRegionMapping)?;
         let real_offset = Self::header_length() + offset;
 
         let need_remap = self
diff --git a/ipmb/src/util/mod.rs b/ipmb/src/util/mod.rs
index 326e85b..ab2773d 100644
--- a/ipmb/src/util/mod.rs
+++ b/ipmb/src/util/mod.rs
@@ -58,17 +58,21 @@ pub fn rand_string(length: usize) -> String {
         .collect()
 }
 
-pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S) -> (usize, Option<usize>) {
+/// `None` if the range is not within `0..len`.
+pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S, len: u64) -> Option<(usize, usize)> {
     let offset = match bounds.start_bound() {
         Bound::Included(&bound) => bound,
-        Bound::Excluded(&bound) => bound + 1,
+        Bound::Excluded(&bound) => bound.checked_add(1)?,
         Bound::Unbounded => 0,
     };
-    let size = match bounds.end_bound() {
-        Bound::Included(&bound) => Some(bound + 1 - offset),
-        Bound::Excluded(&bound) => Some(bound - offset),
-        Bound::Unbounded => None,
+    let end = match bounds.end_bound() {
+        Bound::Included(&bound) => bound.checked_add(1)?,
+        Bound::Excluded(&bound) => bound,
+        Bound::Unbounded => usize::try_from(len).ok()?,
     };
 
-    (offset, size)
+    if end as u64 > len {
+        return None;
+    }
+    Some((offset, end.checked_sub(offset)?))
 }
-- 
2.43.0


From 13e9c6eef78f37e77d6bfae82d7a0ce2ccade1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:16 +0000
Subject: [PATCH 35/40] fix: release the endpoint between the attempts of a
 send to join again

While a send looked for a new bus controller it held the endpoint's lock for as long as nobody hosted the bus, so a receive on another thread did not time out and the receiver could not be dropped.
---
 ipmb/src/lib.rs | 50 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 61d9400..529a6ea 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -101,6 +101,7 @@ pub fn join<'de, T: MessageBox, R: MessageBox>(
         0,
         Arc::new(IoMultiplexing::new()?),
         timeout,
+        &mut Attempts::default(),
     )?));
 
     Ok((
@@ -134,6 +135,7 @@ impl<T: MessageBox> EndpointSender<T> {
     pub fn send(&self, mut msg: Message<T>) -> Result<(), SendError> {
         msg.selector.memory_region_count = msg.memory_regions.len() as _;
         let mut msg = msg.into_encoded();
+        let mut attempts = Attempts::default();
 
         'send: loop {
             let rule = self.rule.read().unwrap();
@@ -184,12 +186,23 @@ impl<T: MessageBox> EndpointSender<T> {
                                         // Close reader
                                         drop(io_hub.take());
 
-                                        *rule = Rule::join(
+                                        // A single attempt, because the receiver can neither time
+                                        // out nor be closed while the rule is held
+                                        match Rule::join(
                                             options.clone(),
                                             epoch.overflowing_add(1).0,
                                             im.clone(),
-                                            None,
-                                        )?;
+                                            Some(Duration::ZERO),
+                                            &mut attempts,
+                                        ) {
+                                            Ok(joined) => *rule = joined,
+                                            Err(JoinError::Timeout) => {
+                                                drop(rule);
+                                                thread::sleep(JOIN_INTERVAL);
+                                                continue;
+                                            }
+                                            Err(err) => return Err(err.into()),
+                                        }
 
                                         if reader_closed {
                                             rule.reader_close();
@@ -277,6 +290,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                         epoch.overflowing_add(1).0,
                                         im.clone(),
                                         remain(),
+                                        &mut Attempts::default(),
                                     )?;
 
                                     if reader_closed {
@@ -348,6 +362,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                             epoch.overflowing_add(1).0,
                                             im.clone(),
                                             remain(),
+                                            &mut Attempts::default(),
                                         )?;
 
                                         if reader_closed {
@@ -450,19 +465,30 @@ enum Rule {
     },
 }
 
+const JOIN_INTERVAL: Duration = Duration::from_secs(2);
+
+/// The attempts of one join which failed, only so many are made.
+#[derive(Default)]
+struct Attempts {
+    timeout_count: u32,
+    // When the service is in the process of registration, other endpoints may return PermissionDenied
+    permission_denied_count: u32,
+}
+
 impl Rule {
     fn join(
         options: Options,
         epoch: u32,
         im: Arc<IoMultiplexing>,
         timeout: Option<Duration>,
+        attempts: &mut Attempts,
     ) -> Result<Self, JoinError> {
         // An end which cannot be represented is never reached
         let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
 
         macro_rules! wait {
             () => {
-                let mut wait = Duration::from_secs(2);
+                let mut wait = JOIN_INTERVAL;
                 if let Some(end) = end {
                     let remain = end.saturating_duration_since(Instant::now());
                     if remain.is_zero() {
@@ -474,10 +500,6 @@ impl Rule {
             };
         }
 
-        let mut timeout_count = 0;
-        // When the service is in the process of registration, other endpoints may return PermissionDenied
-        let mut permission_denied_count = 0;
-
         let rule = loop {
             let r = look_up(
                 &options.identifier,
@@ -537,8 +559,8 @@ impl Rule {
                         }
                         Err(Error::IdentifierInUse) => {}
                         Err(Error::PermissionDenied) => {
-                            permission_denied_count += 1;
-                            if permission_denied_count > 5 {
+                            attempts.permission_denied_count += 1;
+                            if attempts.permission_denied_count > 5 {
                                 return Err(JoinError::PermissionDenied);
                             }
                             wait!();
@@ -559,16 +581,16 @@ impl Rule {
                     return Err(JoinError::IoError(io::ErrorKind::InvalidInput.into()));
                 }
                 Err(Error::PermissionDenied) => {
-                    permission_denied_count += 1;
-                    if permission_denied_count > 5 {
+                    attempts.permission_denied_count += 1;
+                    if attempts.permission_denied_count > 5 {
                         return Err(JoinError::PermissionDenied);
                     }
                     wait!();
                 }
                 Err(Error::Timeout) => {
-                    timeout_count += 1;
+                    attempts.timeout_count += 1;
 
-                    if timeout_count > 5 {
+                    if attempts.timeout_count > 5 {
                         return Err(JoinError::VersionMismatch(Version((0, 0, 0))));
                     }
 
-- 
2.43.0


From 741b2483621841c852323bb8e10a98bc429064ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:16 +0000
Subject: [PATCH 36/40] fix: limit the time a join waits to be accepted

Connecting to a controller which does not accept blocked without a limit once the backlog of its listener was full.
---
 ipmb/src/platform/linux.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 019d6e1..3d76cb0 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -110,6 +110,24 @@ fn identifier_to_socket_addr(identifier: &str) -> Result<libc::sockaddr_un, Erro
     Ok(addr)
 }
 
+const HANDSHAKE_TIMEOUT: Duration = Duration::from_secs(2);
+
+/// Zero means no timeout.
+fn set_send_timeout(fd: &Fd, timeout: Duration) {
+    unsafe {
+        let mut tv: libc::timeval = mem::zeroed();
+        tv.tv_sec = timeout.as_secs() as _;
+
+        let _ = libc::setsockopt(
+            fd.as_raw(),
+            libc::SOL_SOCKET,
+            libc::SO_SNDTIMEO,
+            &tv as *const _ as _,
+            mem::size_of_val(&tv) as _,
+        );
+    }
+}
+
 pub(crate) fn look_up(
     identifier: &str,
     label: Label,
@@ -125,6 +143,10 @@ pub(crate) fn look_up(
 
         let addr = identifier_to_socket_addr(identifier)?;
 
+        // Connecting waits while the controller has not accepted too many others
+        let deadline = Instant::now() + HANDSHAKE_TIMEOUT;
+        set_send_timeout(&fd, HANDSHAKE_TIMEOUT);
+
         let mut r = libc::connect(
             fd.as_raw(),
             &addr as *const _ as _,
@@ -138,9 +160,11 @@ pub(crate) fn look_up(
                     Error::IdentifierNotInUse
                 }
                 io::ErrorKind::PermissionDenied => Error::PermissionDenied,
+                io::ErrorKind::WouldBlock => Error::Timeout,
                 _ => Error::IoError(err),
             });
         }
+        set_send_timeout(&fd, Duration::ZERO);
         let _ = libc::setsockopt(
             fd.as_raw(),
             libc::SOL_SOCKET,
@@ -209,7 +233,8 @@ pub(crate) fn look_up(
 
         let mut io_hub: IoHub = IoHub::for_endpoint(Local(read_fd), im)?;
         // Wait ack
-        let encoded_msg = io_hub.recv(Some(Duration::from_secs(2)), Some(&remote))?;
+        let remain = deadline.saturating_duration_since(Instant::now());
+        let encoded_msg = io_hub.recv(Some(remain), Some(&remote))?;
         let ack = message::ConnectMessageAck::decode(
             encoded_msg.selector.uuid,
             encoded_msg.payload_data,
-- 
2.43.0


From 57caf31a65812df9acef718ff0a28dd5cf0fbca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:16 +0000
Subject: [PATCH 37/40] fix: refuse to send a label operation which is nested
 too deeply

The controller rejected it and closed the connection, and the send joined again and repeated it for ever. Sent by the controller's own process, it reached other endpoints, whose receive panicked.
---
 ipmb/src/label.rs | 15 +++++++++++++++
 ipmb/src/lib.rs   |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/ipmb/src/label.rs b/ipmb/src/label.rs
index fffdb16..9abcc55 100644
--- a/ipmb/src/label.rs
+++ b/ipmb/src/label.rs
@@ -110,6 +110,21 @@ impl LabelOp {
         Self::Or(Box::new(self), Box::new(v.into()))
     }
 
+    /// Such operations are not accepted by anyone.
+    pub(crate) fn too_deep(&self) -> bool {
+        self.deeper_than(MAX_DEPTH)
+    }
+
+    fn deeper_than(&self, depth: usize) -> bool {
+        match self {
+            Self::True | Self::False | Self::Leaf(_) => false,
+            Self::Not(left) => depth == 0 || left.deeper_than(depth - 1),
+            Self::And(left, right) | Self::Or(left, right) => {
+                depth == 0 || left.deeper_than(depth - 1) || right.deeper_than(depth - 1)
+            }
+        }
+    }
+
     pub fn validate(&self, label: &Label) -> bool {
         match self {
             Self::True => true,
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 529a6ea..b29dcaf 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -133,6 +133,10 @@ impl<T> Clone for EndpointSender<T> {
 
 impl<T: MessageBox> EndpointSender<T> {
     pub fn send(&self, mut msg: Message<T>) -> Result<(), SendError> {
+        if msg.selector.label_op.too_deep() {
+            return Err(SendError::IoError(io::ErrorKind::InvalidInput.into()));
+        }
+
         msg.selector.memory_region_count = msg.memory_regions.len() as _;
         let mut msg = msg.into_encoded();
         let mut attempts = Attempts::default();
-- 
2.43.0


From 30638ba89d9e91ec17e6431fa1d75aaddfb5bd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 38/40] fix: keep to the timeout of a join while the identifier
 is taken by somebody who does not listen

The join tried again at once, for ever, whatever its timeout.
---
 ipmb/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index b29dcaf..a7e881a 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -492,7 +492,10 @@ impl Rule {
 
         macro_rules! wait {
             () => {
-                let mut wait = JOIN_INTERVAL;
+                wait!(JOIN_INTERVAL);
+            };
+            ($wait: expr) => {
+                let mut wait: Duration = $wait;
                 if let Some(end) = end {
                     let remain = end.saturating_duration_since(Instant::now());
                     if remain.is_zero() {
@@ -561,7 +564,10 @@ impl Rule {
                             };
                             break rule;
                         }
-                        Err(Error::IdentifierInUse) => {}
+                        // Its owner is about to listen
+                        Err(Error::IdentifierInUse) => {
+                            wait!(Duration::from_millis(1));
+                        }
                         Err(Error::PermissionDenied) => {
                             attempts.permission_denied_count += 1;
                             if attempts.permission_denied_count > 5 {
-- 
2.43.0


From f40a6ad02d9a0a0a251c7e2d8eebbcd6db5222ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 39/40] fix: serve the other endpoints while the controller's
 process keeps sending

Its messages were taken first as long as there were any, so others could neither send nor join.
---
 ipmb/src/platform/linux.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 3d76cb0..8fd98c4 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -19,6 +19,8 @@ mod fd;
 mod io_mul;
 
 static MAXIMUM_BUF_SIZE: i32 = 64 << 10;
+/// After this many messages of its own process the bus controller serves the others.
+const MAXIMUM_BUS_RX_COUNT: u32 = 16;
 
 impl MemoryRegion {
     pub(crate) fn obj_new(size: usize) -> Option<Object> {
@@ -292,6 +294,8 @@ pub(crate) fn register(
 
 pub(crate) struct IoHub {
     bus_rx: Option<mpsc::Receiver<EncodedMessage>>,
+    // How many messages in a row came from there
+    bus_rx_count: u32,
     local_list: Vec<Local>,
     listener: Option<Fd>,
     in_buffer: Vec<libc::epoll_event>,
@@ -308,6 +312,7 @@ impl IoHub {
 
         Ok(Self {
             bus_rx: Some(bus_rx),
+            bus_rx_count: 0,
             local_list: vec![],
             listener: Some(listener),
             in_buffer: Vec::with_capacity(2),
@@ -320,6 +325,7 @@ impl IoHub {
 
         Ok(Self {
             bus_rx: None,
+            bus_rx_count: 0,
             local_list: vec![local],
             listener: None,
             in_buffer: Vec::with_capacity(2),
@@ -338,22 +344,29 @@ impl IoHub {
         let deadline = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
 
         'ret: loop {
+            let mut timeout =
+                deadline.map(|deadline| deadline.saturating_duration_since(Instant::now()));
+
             if let Some(ref rx) = self.bus_rx {
-                match rx.try_recv() {
-                    Ok(message) => {
-                        break Ok(message);
-                    }
-                    Err(mpsc::TryRecvError::Empty) => {}
-                    Err(mpsc::TryRecvError::Disconnected) => {
-                        self.bus_rx = None;
+                if self.bus_rx_count < MAXIMUM_BUS_RX_COUNT {
+                    match rx.try_recv() {
+                        Ok(message) => {
+                            self.bus_rx_count += 1;
+                            break Ok(message);
+                        }
+                        Err(mpsc::TryRecvError::Empty) => {}
+                        Err(mpsc::TryRecvError::Disconnected) => {
+                            self.bus_rx = None;
+                        }
                     }
+                } else {
+                    // There may be more, but the other endpoints must not wait for ever
+                    timeout = Some(Duration::ZERO);
                 }
             }
+            self.bus_rx_count = 0;
 
-            self.im.wait(
-                &mut self.in_buffer,
-                deadline.map(|deadline| deadline.saturating_duration_since(Instant::now())),
-            );
+            self.im.wait(&mut self.in_buffer, timeout);
 
             if self.in_buffer.is_empty() {
                 // The wait may end early, for example when it is interrupted by a signal
-- 
2.43.0


From 48dabb29f5a660aeab90c930cb493edf6cb28104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 40/40] fix: serve endpoints in turn

With two events at a time only the first was handled, and the kernel kept reporting them in the same order: one of two endpoints that kept sending, or all that wanted to join, got no turn.
---
 ipmb/src/platform/linux.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 8fd98c4..d2d08d6 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -315,7 +315,8 @@ impl IoHub {
             bus_rx_count: 0,
             local_list: vec![],
             listener: Some(listener),
-            in_buffer: Vec::with_capacity(2),
+            // Of several events only the first would be handled, always that of the same endpoint
+            in_buffer: Vec::with_capacity(1),
             im,
         })
     }
-- 
2.43.0

