From c17d4a10c9f3814ae90beaa5069971b8c6a8a818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 01/32] verif: virtual clock, random source and network behind
 cfg(uflow_verif)

---
 src/client/mod.rs           |   8 +
 src/half_connection/emit.rs |   3 +
 src/half_connection/mod.rs  |  14 ++
 src/lib.rs                  |   4 +
 src/server/mod.rs           |   8 +
 src/udp_frame_sink.rs       |   3 +
 src/verif.rs                | 343 ++++++++++++++++++++++++++++++++++++
 7 files changed, 383 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 2b6acb0..5f5f8be 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1,5 +1,13 @@
+#[cfg(not(uflow_verif))]
 use std::net;
+#[cfg(uflow_verif)]
+use crate::verif::net;
+#[cfg(not(uflow_verif))]
 use std::time;
+#[cfg(uflow_verif)]
+use crate::verif::time;
+#[cfg(uflow_verif)]
+use crate::verif::rand;
 
 use crate::CHANNEL_COUNT;
 use crate::EndpointConfig;
diff --git a/src/half_connection/emit.rs b/src/half_connection/emit.rs
index b01620a..7ec61ee 100644
--- a/src/half_connection/emit.rs
+++ b/src/half_connection/emit.rs
@@ -9,6 +9,9 @@ use crate::packet_id;
 use super::pending_packet;
 use super::frame_queue;
 
+#[cfg(uflow_verif)]
+use crate::verif::rand;
+
 #[derive(Debug,PartialEq)]
 pub enum DataPushError {
     SizeLimited,
diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index bb0a90a..8d97dcf 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -2,7 +2,10 @@
 use crate::SendMode;
 use crate::frame;
 
+#[cfg(not(uflow_verif))]
 use std::time;
+#[cfg(uflow_verif)]
+use crate::verif::time;
 
 mod emit;
 mod frame_ack_queue;
@@ -20,6 +23,17 @@ mod send_rate;
 #[cfg(test)]
 mod packet_tests;
 
+#[cfg(uflow_verif)]
+pub mod verif {
+    pub use super::send_rate::{SendRateComp, FeedbackData};
+
+    impl super::HalfConnection {
+        pub fn verif_send_rate(&self) -> f64 {
+            self.send_rate_comp.send_rate()
+        }
+    }
+}
+
 const INITIAL_RTT_ESTIMATE_MS: u64 = 150;
 const INITIAL_RTO_ESTIMATE_MS: u64 = 4*INITIAL_RTT_ESTIMATE_MS;
 const MIN_SYNC_TIMEOUT_MS: u64 = 2000;
diff --git a/src/lib.rs b/src/lib.rs
index eea23e7..ba052b5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![warn(missing_docs)]
+#![allow(unexpected_cfgs)]
 
 //! `uflow` is a non-blocking, connection-based layer over UDP that provides an ordered and
 //! drop-tolerant packet streaming interface for real-time applications (e.g. games). It manages
@@ -265,6 +266,9 @@ mod frame;
 mod packet_id;
 mod udp_frame_sink;
 
+#[cfg(uflow_verif)]
+pub mod verif;
+
 /// Server-related connection objects and parameters.
 pub mod server;
 
diff --git a/src/server/mod.rs b/src/server/mod.rs
index f78eb2b..ff6bc02 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -1,8 +1,16 @@
 use std::cell::RefCell;
 use std::collections::HashMap;
+#[cfg(not(uflow_verif))]
 use std::net;
+#[cfg(uflow_verif)]
+use crate::verif::net;
 use std::rc::Rc;
+#[cfg(not(uflow_verif))]
 use std::time;
+#[cfg(uflow_verif)]
+use crate::verif::time;
+#[cfg(uflow_verif)]
+use crate::verif::rand;
 
 use crate::EndpointConfig;
 use crate::frame::serial::Serialize;
diff --git a/src/udp_frame_sink.rs b/src/udp_frame_sink.rs
index e9a26d5..99e80ea 100644
--- a/src/udp_frame_sink.rs
+++ b/src/udp_frame_sink.rs
@@ -1,7 +1,10 @@
 
 use crate::half_connection;
 
+#[cfg(not(uflow_verif))]
 use std::net;
+#[cfg(uflow_verif)]
+use crate::verif::net;
 
 // TODO: A Result<usize, std::io::Error> stored here could be used to forward errors to
 // client/server step/flush after the FrameSink has been used.
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..c036dcf
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,343 @@
+//! Verification hooks, compiled only with `--cfg uflow_verif`.
+//!
+//! Stands in for the three sources of nondeterminism used by the library: the clock, the random
+//! number generator and the UDP socket. All state is thread-local and is driven by the harness, so
+//! that any execution can be replayed exactly, and many may be explored in parallel.
+
+#![allow(missing_docs)]
+
+/// A clock which only moves when told to.
+pub mod time {
+    pub use std::time::*;
+
+    use std::cell::Cell;
+    use std::ops;
+
+    thread_local! {
+        static NOW: Cell<Duration> = Cell::new(Duration::from_secs(0));
+    }
+
+    /// Sets the current time, measured from an arbitrary origin.
+    pub fn set(now: Duration) {
+        NOW.with(|c| c.set(now));
+    }
+
+    pub fn get() -> Duration {
+        NOW.with(|c| c.get())
+    }
+
+    #[derive(Clone,Copy,Debug,PartialEq,Eq,PartialOrd,Ord,Hash)]
+    pub struct Instant(Duration);
+
+    impl Instant {
+        pub fn now() -> Self {
+            Self(get())
+        }
+
+        pub fn duration_since(&self, earlier: Instant) -> Duration {
+            self.0.saturating_sub(earlier.0)
+        }
+
+        pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
+            self.0.saturating_sub(earlier.0)
+        }
+
+        pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
+            self.0.checked_sub(earlier.0)
+        }
+
+        pub fn elapsed(&self) -> Duration {
+            get().saturating_sub(self.0)
+        }
+
+        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
+            self.0.checked_add(d).map(Self)
+        }
+
+        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
+            self.0.checked_sub(d).map(Self)
+        }
+    }
+
+    impl ops::Sub<Instant> for Instant {
+        type Output = Duration;
+        fn sub(self, other: Instant) -> Duration {
+            self.duration_since(other)
+        }
+    }
+
+    impl ops::Sub<Duration> for Instant {
+        type Output = Instant;
+        fn sub(self, other: Duration) -> Instant {
+            Self(self.0 - other)
+        }
+    }
+
+    impl ops::Add<Duration> for Instant {
+        type Output = Instant;
+        fn add(self, other: Duration) -> Instant {
+            Self(self.0 + other)
+        }
+    }
+
+    impl ops::AddAssign<Duration> for Instant {
+        fn add_assign(&mut self, other: Duration) {
+            self.0 += other;
+        }
+    }
+
+    impl ops::SubAssign<Duration> for Instant {
+        fn sub_assign(&mut self, other: Duration) {
+            self.0 -= other;
+        }
+    }
+}
+
+/// A deterministic (or scripted) source of random values.
+pub mod rand {
+    use std::cell::RefCell;
+    use std::collections::VecDeque;
+
+    struct Source {
+        state: u64,
+        script: VecDeque<u64>,
+    }
+
+    thread_local! {
+        static SOURCE: RefCell<Source> = RefCell::new(Source { state: 0, script: VecDeque::new() });
+    }
+
+    /// Restarts the random stream from the given seed.
+    pub fn reset(seed: u64) {
+        SOURCE.with(|s| {
+            let mut s = s.borrow_mut();
+            s.state = seed;
+            s.script.clear();
+        });
+    }
+
+    /// Enqueues a value to be returned (truncated as necessary) before resuming the random stream.
+    pub fn push(value: u64) {
+        SOURCE.with(|s| s.borrow_mut().script.push_back(value));
+    }
+
+    fn next() -> u64 {
+        SOURCE.with(|s| {
+            let mut s = s.borrow_mut();
+            if let Some(value) = s.script.pop_front() {
+                return value;
+            }
+            s.state = s.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
+            let mut z = s.state;
+            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
+            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
+            z ^ (z >> 31)
+        })
+    }
+
+    pub trait Value {
+        fn from_u64(value: u64) -> Self;
+    }
+
+    impl Value for bool { fn from_u64(value: u64) -> Self { value & 1 != 0 } }
+    impl Value for u8 { fn from_u64(value: u64) -> Self { value as u8 } }
+    impl Value for u16 { fn from_u64(value: u64) -> Self { value as u16 } }
+    impl Value for u32 { fn from_u64(value: u64) -> Self { value as u32 } }
+    impl Value for u64 { fn from_u64(value: u64) -> Self { value } }
+    impl Value for usize { fn from_u64(value: u64) -> Self { value as usize } }
+
+    pub fn random<T: Value>() -> T {
+        T::from_u64(next())
+    }
+}
+
+/// A virtual UDP network.
+pub mod net {
+    pub use std::net::*;
+
+    use std::cell::RefCell;
+    use std::collections::HashMap;
+    use std::collections::VecDeque;
+    use std::io;
+
+    #[derive(Clone,Debug,PartialEq,Eq,Hash)]
+    pub struct Packet {
+        pub src: SocketAddr,
+        pub dst: SocketAddr,
+        pub data: Vec<u8>,
+    }
+
+    #[derive(Default)]
+    struct Socket {
+        peer: Option<SocketAddr>,
+        inbox: VecDeque<Option<(SocketAddr, Vec<u8>)>>,
+    }
+
+    struct Network {
+        sockets: HashMap<SocketAddr, Socket>,
+        outbox: Vec<Packet>,
+        next_port: u16,
+    }
+
+    thread_local! {
+        static NETWORK: RefCell<Network> = RefCell::new(Network {
+            sockets: HashMap::new(),
+            outbox: Vec::new(),
+            next_port: 49152,
+        });
+    }
+
+    fn with<R>(f: impl FnOnce(&mut Network) -> R) -> R {
+        NETWORK.with(|n| f(&mut n.borrow_mut()))
+    }
+
+    /// Forgets all sockets and datagrams.
+    pub fn reset() {
+        with(|n| {
+            n.sockets = HashMap::new();
+            n.outbox = Vec::new();
+            n.next_port = 49152;
+        });
+    }
+
+    /// Sets the next ephemeral port.
+    pub fn set_next_port(port: u16) {
+        with(|n| n.next_port = port);
+    }
+
+    /// Removes and returns all datagrams sent since the last call.
+    pub fn take_outbox() -> Vec<Packet> {
+        with(|n| std::mem::take(&mut n.outbox))
+    }
+
+    /// Places a datagram in the inbox of its destination socket. Returns false if there is no such
+    /// socket, or if the socket does not accept datagrams from the source address.
+    pub fn deliver(packet: Packet) -> bool {
+        with(|n| match n.sockets.get_mut(&packet.dst) {
+            Some(socket) => match socket.peer {
+                Some(peer) if peer != packet.src => false,
+                _ => {
+                    socket.inbox.push_back(Some((packet.src, packet.data)));
+                    true
+                }
+            },
+            None => false,
+        })
+    }
+
+    /// Places a receive error in the inbox of the given socket.
+    pub fn deliver_error(dst: SocketAddr) -> bool {
+        with(|n| match n.sockets.get_mut(&dst) {
+            Some(socket) => {
+                socket.inbox.push_back(None);
+                true
+            }
+            None => false,
+        })
+    }
+
+    pub struct UdpSocket {
+        local: std::cell::Cell<SocketAddr>,
+    }
+
+    fn first<A: ToSocketAddrs>(addr: A) -> io::Result<SocketAddr> {
+        addr.to_socket_addrs()?
+            .next()
+            .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "no addresses"))
+    }
+
+    impl UdpSocket {
+        pub fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<Self> {
+            let mut local = first(addr)?;
+            with(|n| {
+                if local.port() == 0 {
+                    local.set_port(n.next_port);
+                    n.next_port = n.next_port.wrapping_add(1);
+                }
+                if n.sockets.contains_key(&local) {
+                    return Err(io::Error::new(io::ErrorKind::AddrInUse, "address in use"));
+                }
+                n.sockets.insert(local, Socket::default());
+                Ok(Self { local: std::cell::Cell::new(local) })
+            })
+        }
+
+        pub fn connect<A: ToSocketAddrs>(&self, addr: A) -> io::Result<()> {
+            let peer = first(addr)?;
+            with(|n| {
+                let old = self.local.get();
+                let mut new = old;
+                if old.ip().is_unspecified() {
+                    new.set_ip(match old {
+                        SocketAddr::V4(_) => IpAddr::V4(Ipv4Addr::LOCALHOST),
+                        SocketAddr::V6(_) => IpAddr::V6(Ipv6Addr::LOCALHOST),
+                    });
+                }
+                let mut socket = n.sockets.remove(&old).unwrap_or_default();
+                socket.peer = Some(peer);
+                n.sockets.insert(new, socket);
+                self.local.set(new);
+            });
+            Ok(())
+        }
+
+        pub fn set_nonblocking(&self, _nonblocking: bool) -> io::Result<()> {
+            Ok(())
+        }
+
+        pub fn local_addr(&self) -> io::Result<SocketAddr> {
+            Ok(self.local.get())
+        }
+
+        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
+            with(|n| n.sockets.get(&self.local.get()).and_then(|s| s.peer))
+                .ok_or_else(|| io::Error::new(io::ErrorKind::NotConnected, "not connected"))
+        }
+
+        pub fn send_to<A: ToSocketAddrs>(&self, data: &[u8], addr: A) -> io::Result<usize> {
+            let dst = first(addr)?;
+            with(|n| n.outbox.push(Packet { src: self.local.get(), dst, data: data.to_vec() }));
+            Ok(data.len())
+        }
+
+        pub fn send(&self, data: &[u8]) -> io::Result<usize> {
+            let dst = self.peer_addr()?;
+            self.send_to(data, dst)
+        }
+
+        pub fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
+            with(|n| {
+                let socket = n.sockets.get_mut(&self.local.get());
+                match socket.and_then(|s| s.inbox.pop_front()) {
+                    Some(Some((src, data))) => {
+                        let len = data.len().min(buf.len());
+                        buf[.. len].copy_from_slice(&data[.. len]);
+                        Ok((len, src))
+                    }
+                    Some(None) => Err(io::Error::new(io::ErrorKind::ConnectionRefused, "injected error")),
+                    None => Err(io::Error::new(io::ErrorKind::WouldBlock, "no datagrams")),
+                }
+            })
+        }
+
+        pub fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
+            self.recv_from(buf).map(|(len, _)| len)
+        }
+    }
+
+    impl Drop for UdpSocket {
+        fn drop(&mut self) {
+            let local = self.local.get();
+            let _ = NETWORK.try_with(|n| n.borrow_mut().sockets.remove(&local));
+        }
+    }
+}
+
+/// Frame codec.
+pub mod frame {
+    pub use crate::frame::*;
+    pub use crate::frame::serial::Serialize;
+}
+
+pub use crate::half_connection::{HalfConnection, Config, FrameSink, PacketSink};
+pub use crate::half_connection::verif::{SendRateComp, FeedbackData};
-- 
2.43.0


From 4ac47a657551d6d18e0d79fbb133c0ae58c8b9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 02/32] fix: do not panic when skipping a packet which exceeded
 the receive allocation

---
 src/half_connection/packet_receiver/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 367efaf..70fd4eb 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -334,7 +334,10 @@ impl PacketReceiver {
                     let channel_delta = packet_id::sub(sequence_id, channel_base_id);
 
                     if channel_parent_lead == 0 || channel_parent_lead > channel_delta {
-                        sink.send(self.data_entries[window_idx].data.take().unwrap());
+                        // A packet which exceeded the allocation limit has no data to deliver
+                        if let Some(data) = self.data_entries[window_idx].data.take() {
+                            sink.send(data);
+                        }
 
                         self.data_flags[flags_index] &= !flag_bit;
 
-- 
2.43.0


From ceac08c62beff1113dedc46e7e1f826d34ad1d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 03/32] fix: drop acknowledged or forgotten fragments from the
 pending queue instead of looping forever

---
 src/half_connection/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 8d97dcf..70d0d79 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -417,7 +417,7 @@ impl HalfConnection {
                     let packet_ref = packet_rc.borrow();
 
                     if packet_ref.fragment_acknowledged(entry.fragment_ref.fragment_id) {
-                        self.resend_queue.pop();
+                        self.pending_queue.pop_front();
                         continue;
                     }
 
@@ -434,7 +434,7 @@ impl HalfConnection {
                         self.resend_queue.push(resend_queue::Entry::new(entry.fragment_ref, now_ms + rtt_ms, 1));
                     }
                 } else {
-                    self.resend_queue.pop();
+                    self.pending_queue.pop_front();
                     continue;
                 }
             }
-- 
2.43.0


From 70215cceea511a287abb306c535e86fb2b99cd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 04/32] fix: ignore packet window ids which exceed 20 bits in
 sync and ack frames

---
 src/half_connection/packet_receiver/mod.rs | 4 +++-
 src/half_connection/packet_sender.rs       | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 70fd4eb..a4c736d 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -409,7 +409,9 @@ impl PacketReceiver {
     // comes first. Any incomplete or dropped packets are skipped, and as a result, the sender must
     // ensure that all reliable packets have been received in full prior to issuing the request.
     pub fn resynchronize(&mut self, sender_next_id: u32) {
-        debug_assert!(packet_id::is_valid(sender_next_id));
+        if !packet_id::is_valid(sender_next_id) {
+            return;
+        }
 
         let base_id = self.base_id;
         let sender_delta = packet_id::sub(sender_next_id, base_id);
diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index b8eec8c..46351ef 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -240,6 +240,10 @@ impl PacketSender {
     // Responds to a receive window acknowledgement. All packet data beyond the new receive window
     // is forgotten, thereby freeing transfer window & allocation space for new packets.
     pub fn acknowledge(&mut self, receiver_base_id: u32) {
+        if !packet_id::is_valid(receiver_base_id) {
+            return;
+        }
+
         let receiver_delta = packet_id::sub(receiver_base_id, self.base_id);
         let span = packet_id::sub(self.next_id, self.base_id);
 
-- 
2.43.0


From 39ad02ed9adbda873bb50c3765d450744c05f36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 05/32] fix: never advance the receive window past an
 undelivered packet, whatever its parent leads

---
 src/half_connection/packet_receiver/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index a4c736d..d3835e1 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -385,11 +385,14 @@ impl PacketReceiver {
                     let window_parent_lead = window_entry.window_parent_lead as u32;
                     let window_delta = packet_id::sub(sequence_id, new_base_id);
 
-                    if window_parent_lead == 0 || window_parent_lead > window_delta {
+                    // Window advancement implies that this packet has been delivered. If the sender
+                    // has specified inconsistent parent leads, the packet may still be present, in
+                    // which case it must not be forgotten.
+                    let delivered = self.data_flags[flags_index] & flag_bit == 0;
+
+                    if delivered && (window_parent_lead == 0 || window_parent_lead > window_delta) {
                         // println!("Forget sequence ID {}", sequence_id);
                         new_base_id = next_id;
-                        // Window advancement implies that this packet has been delivered
-                        debug_assert!(self.data_flags[flags_index] & flag_bit == 0);
                         debug_assert!(self.data_entries[window_idx].data.is_none());
                     } else {
                         // Cease to consider advancing the window
-- 
2.43.0


From 854a9566755ec3d4b1a95d17233256915e097b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 06/32] fix: release reassembled packets with the layout they
 were allocated with

---
 .../packet_receiver/assembly_window/fragment_buffer.rs    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs b/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
index 9fb08af..4b6a79c 100644
--- a/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
+++ b/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
@@ -44,11 +44,11 @@ impl FragmentBuffer {
         }
     }
 
-    pub fn finalize(mut self) -> Box<[u8]> {
+    pub fn finalize(self) -> Box<[u8]> {
         debug_assert!(self.total_size <= self.buffer.len());
-        let ptr = self.buffer.as_mut_ptr();
-        std::mem::forget(self.buffer);
-        unsafe { Box::from_raw(std::slice::from_raw_parts_mut(ptr, self.total_size)) }
+        let mut data = self.buffer.into_vec();
+        data.truncate(self.total_size);
+        data.into_boxed_slice()
     }
 
     pub fn is_finished(&self) -> bool {
-- 
2.43.0


From 6514efaf682912f6d5c1b9e18bf41a4324ad527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 07/32] fix: do not assert on the receive allocation advertised
 by the peer

---
 src/half_connection/packet_sender.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index 46351ef..7da4821 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -137,7 +137,6 @@ impl PacketSender {
     // Places a user packet on the send queue.
     pub fn enqueue_packet(&mut self, data: Box<[u8]>, channel_id: u8, mode: SendMode, flush_id: u32) {
         debug_assert!(data.len() <= MAX_PACKET_SIZE);
-        debug_assert!(data.len() <= self.max_alloc);
         debug_assert!((channel_id as usize) < CHANNEL_COUNT);
 
         self.total_size += data.len();
-- 
2.43.0


From 555a6ee18b6e6f6096f048a742958c48b4b36abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 08/32] fix: do not generate feedback from repeated
 acknowledgements

---
 src/half_connection/frame_queue.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index e1a696d..9f177c8 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -350,6 +350,11 @@ impl FrameQueue {
             }
         }
 
+        if total_ack_size == 0 {
+            // Nothing new was acknowledged
+            return;
+        }
+
         // Add to pending feedback data
         self.feedback_gen.put_ack_data(AckData { last_send_time_ms, total_ack_size, rate_limited });
     }
-- 
2.43.0


From 7aac89d5024129e35161d2295806a4a31cb2e983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 09/32] fix: keep the latest receive rate when the round trip
 time estimate is zero

---
 src/half_connection/recv_rate_set.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/recv_rate_set.rs b/src/half_connection/recv_rate_set.rs
index 51fb05b..fba5d21 100644
--- a/src/half_connection/recv_rate_set.rs
+++ b/src/half_connection/recv_rate_set.rs
@@ -53,14 +53,14 @@ impl RecvRateSet {
     }
 
     pub fn rate_limited_update(&mut self, now_ms: u64, recv_rate: u32, rtt_ms: u64) -> u32 {
+        self.entries.retain(|e| now_ms - e.timestamp_ms < 2 * rtt_ms);
+
         self.entries.push(RecvEntry {
             value: recv_rate,
             timestamp_ms: now_ms,
             is_initial: false
         });
 
-        self.entries.retain(|e| now_ms - e.timestamp_ms < 2 * rtt_ms);
-
         return self.max();
     }
 
-- 
2.43.0


From e8eafda206a2a7e55c6c2b74c4375ffce90db2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 10/32] fix: bound the bisection of the throughput equation

---
 src/half_connection/send_rate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 1c6e58e..6a7b16c 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -33,7 +33,11 @@ fn eval_tcp_throughput_inv(rtt: f64, target_rate_bps: u32) -> f64 {
     let mut a = 0.0;
     let mut b = 1.0;
 
-    loop {
+    // The target rate may not be attainable, or may be too small for the above tolerance to matter.
+    // In either case, the interval ceases to shrink once its limits are adjacent.
+    const MAX_ITERATIONS: usize = 64;
+
+    for _ in 0 .. MAX_ITERATIONS {
         let c = (b + a)/2.0;
 
         let rate = eval_tcp_throughput(rtt, c);
@@ -56,6 +60,8 @@ fn eval_tcp_throughput_inv(rtt: f64, target_rate_bps: u32) -> f64 {
             return c;
         }
     }
+
+    return (b + a)/2.0;
 }
 
 #[derive(Debug,PartialEq)]
-- 
2.43.0


From bd6d8c7be826570f3fb8a01a44c65cb007e55839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 11/32] fix: avoid overflow for extreme send rates and timeouts

---
 src/half_connection/send_rate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 6a7b16c..1962fa8 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -258,7 +258,7 @@ impl SendRateComp {
                         // Continue slow start doubling, see section 4.3, step 5
                         if now_ms - time_last_doubled_ms >= rtt_ms {
                             state.time_last_doubled_ms = Some(now_ms);
-                            self.send_rate = (2*self.send_rate).min(recv_limit).max(initial_rate);
+                            self.send_rate = self.send_rate.saturating_mul(2).min(recv_limit).max(initial_rate);
                             //println!("SS: doubling: new send rate: {} (limit {}, rl: {}, li: {})",
                             //    self.send_rate, recv_limit, rate_limited, loss_increase);
                         }
@@ -285,7 +285,7 @@ impl SendRateComp {
         self.send_rate = self.send_rate.min(self.max_send_rate);
 
         // Restart nofeedback timer
-        self.nofeedback_exp_ms = Some(now_ms + s_to_ms(rto_s));
+        self.nofeedback_exp_ms = Some(now_ms.saturating_add(s_to_ms(rto_s)));
         self.nofeedback_idle = true;
     }
 
@@ -328,7 +328,7 @@ impl SendRateComp {
                     // Recomputing this term on the fly allows for some adaptation as RTT fluctuates
                     let recover_rate = compute_initial_send_rate(rtt_s);
 
-                    if self.nofeedback_idle && self.send_rate < 2*recover_rate {
+                    if self.nofeedback_idle && self.send_rate < recover_rate.saturating_mul(2) {
                         // Do nothing, this is acceptable
                     } else {
                         // Halve send rate every RTO, subject to minimum
@@ -366,7 +366,7 @@ impl SendRateComp {
         // This may or may not be the intended behavior.
         let rto_s = self.update_rto(self.rtt_s.unwrap_or(0.0), self.send_rate);
 
-        self.nofeedback_exp_ms = Some(now_ms + s_to_ms(rto_s));
+        self.nofeedback_exp_ms = Some(now_ms.saturating_add(s_to_ms(rto_s)));
         self.nofeedback_idle = true;
     }
 
-- 
2.43.0


From 4a8f3ab79f5e3719bf99e97bd6ee40475445cc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 12/32] fix: remove assertion which fails when the sender idles
 prior to the first feedback

---
 src/half_connection/send_rate.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 1962fa8..7917f3b 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -336,8 +336,6 @@ impl SendRateComp {
                     }
                 } else {
                     // In slow start, but no feedback has been received.
-                    debug_assert!(self.nofeedback_idle == false);
-
                     // Halve send rate every RTO, subject to minimum
                     self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
                 }
-- 
2.43.0


From 61e8d4fa8de9002c7a9d9335c585a99f4c312670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 13/32] fix: keep the send rate between its floor and the
 configured ceiling at all times

---
 src/half_connection/send_rate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 7917f3b..b8b27b9 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -282,7 +282,7 @@ impl SendRateComp {
             _ => panic!()
         }
 
-        self.send_rate = self.send_rate.min(self.max_send_rate);
+        self.send_rate = self.send_rate.max(MINIMUM_RATE).min(self.max_send_rate);
 
         // Restart nofeedback timer
         self.nofeedback_exp_ms = Some(now_ms.saturating_add(s_to_ms(rto_s)));
@@ -349,10 +349,10 @@ impl SendRateComp {
                     // Do nothing, this is acceptable
                 } else {
                     // Alter recv_rate_set so as to halve current send rate moving forward
-                    let current_limit = state.send_rate_tcp.min(recv_rate.saturating_mul(2));
+                    let current_limit = state.send_rate_tcp.min(recv_rate.saturating_mul(2)).min(self.max_send_rate);
                     let new_limit = (current_limit/2).max(MINIMUM_RATE);
                     self.recv_rate_set.reset(now_ms, new_limit/2);
-                    self.send_rate = state.send_rate_tcp.min(new_limit);
+                    self.send_rate = state.send_rate_tcp.max(MINIMUM_RATE).min(new_limit).min(self.max_send_rate);
                 }
             }
             _ => panic!()
-- 
2.43.0


From 87b5b75736062eb5d21f671f24e1a3cbe7155ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 14/32] fix: accumulate fractions of a byte when filling the
 flush allocation

---
 src/half_connection/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 70d0d79..4083738 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -88,6 +88,7 @@ pub struct HalfConnection {
     sync_timeout_base_ms: u64,
 
     flush_alloc: isize,
+    flush_alloc_fract: f64,
     flush_id: u32,
 
     sync_reply: bool,
@@ -116,6 +117,7 @@ impl HalfConnection {
             sync_timeout_base_ms: 0,
 
             flush_alloc: 0,
+            flush_alloc_fract: 0.0,
             flush_id: 0,
 
             sync_reply: false,
@@ -217,7 +219,11 @@ impl HalfConnection {
             let rtt_s = self.send_rate_comp.rtt_s();
 
             let delta_time = (now - time_last_flushed).as_secs_f64();
-            let new_bytes = (send_rate * delta_time).round() as isize;
+            // Keep the fractional part, which is all there is when steps are frequent
+            let new_bytes = send_rate * delta_time + self.flush_alloc_fract;
+            self.flush_alloc_fract = new_bytes.fract();
+
+            let new_bytes = new_bytes as isize;
             let alloc_max = (send_rate * rtt_s.unwrap_or(0.0)).round() as isize;
 
             self.flush_alloc = self.flush_alloc.saturating_add(new_bytes).min(alloc_max);
-- 
2.43.0


From 4b05b3c7bee502f45a0512d6acf21435fd8e69e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 15/32] fix: do not exceed the send rate by flushing before the
 flush allocation is filled

---
 src/half_connection/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 4083738..2f15018 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -209,6 +209,10 @@ impl HalfConnection {
     }
 
     pub fn flush(&mut self, sink: &mut impl FrameSink) {
+        // Account for the time passed since the last step(). Otherwise, that time would be credited
+        // in addition to a full allocation, most of which may be used up now.
+        self.fill_flush_alloc(time::Instant::now());
+
         // Send as many frames as possible
         self.emit_frames(self.now_ms, self.rtt_ms, self.rto_ms, self.flush_id, sink);
     }
-- 
2.43.0


From 86cfaab3f2ce02c6cd38de1727edfd0732d5e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 16/32] fix: keep frame data for a full retransmission timeout,
 so that a longer round trip time is noticed

---
 src/half_connection/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 2f15018..cdc7768 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -190,8 +190,9 @@ impl HalfConnection {
         self.rtt_ms = rtt_ms;
         self.rto_ms = rto_ms;
 
-        // Forget old frame data
-        self.frame_queue.forget_frames(now_ms.saturating_sub(rtt_ms*4), self.send_rate_comp.rtt_ms());
+        // Forget old frame data. The retransmission timeout grows as long as no feedback is received,
+        // so that acknowledgements are eventually accepted after an increase in round trip time.
+        self.frame_queue.forget_frames(now_ms.saturating_sub((rtt_ms*4).max(rto_ms)), self.send_rate_comp.rtt_ms());
 
         // Fill flush allocation
         self.fill_flush_alloc(now);
-- 
2.43.0


From da5fe88226568dcad007dd45fd18a9487109e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 17/32] fix: drop a stale TimeSensitive packet even if it has
 already left the send queue

---
 src/half_connection/mod.rs            | 18 ++++++++++++++++++
 src/half_connection/packet_sender.rs  | 21 +++++++++++++++++++++
 src/half_connection/pending_packet.rs | 13 +++++++++++++
 3 files changed, 52 insertions(+)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index cdc7768..47b4121 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -357,7 +357,25 @@ impl HalfConnection {
         return Ok(());
     }
 
+    // If the packet at the head of the pending queue is TimeSensitive, was sent prior to the last
+    // step(), and none of it has been transmitted, forget it.
+    fn drop_stale_packet(&mut self, flush_id: u32) {
+        if let Some(entry) = self.pending_queue.front() {
+            if entry.fragment_ref.fragment_id == 0 {
+                if let Some(packet_rc) = entry.fragment_ref.packet.upgrade() {
+                    if packet_rc.borrow().is_stale(flush_id) {
+                        // The pending queue never contains more than one packet
+                        self.pending_queue.clear();
+                        self.packet_sender.retract_packet();
+                    }
+                }
+            }
+        }
+    }
+
     fn emit_data_frames(&mut self, now_ms: u64, rtt_ms: u64, flush_id: u32, sink: &mut impl FrameSink) -> Result<(),()> {
+        self.drop_stale_packet(flush_id);
+
         let flush_alloc_init = self.flush_alloc;
 
         let ref mut send_rate_comp = self.send_rate_comp;
diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index 7da4821..4c02e2c 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -223,6 +223,13 @@ impl PacketSender {
                 _ => ()
             }
 
+            match packet.mode {
+                SendMode::TimeSensitive => {
+                    pending_packet_clone.borrow_mut().restrict_to_flush(packet.flush_id);
+                }
+                _ => ()
+            }
+
             let resend = match packet.mode {
                 SendMode::TimeSensitive => false,
                 SendMode::Unreliable => false,
@@ -236,6 +243,20 @@ impl PacketSender {
         return None;
     }
 
+    // Takes back the packet most recently emitted, no part of which has been sent.
+    pub fn retract_packet(&mut self) {
+        debug_assert!(self.next_id != self.base_id);
+
+        let sequence_id = packet_id::sub(self.next_id, 1);
+
+        if let Some(entry) = self.window[window_index!(self, sequence_id)].take() {
+            self.alloc -= entry.alloc_size;
+            self.total_size -= entry.packet.borrow().size();
+
+            self.next_id = sequence_id;
+        }
+    }
+
     // Responds to a receive window acknowledgement. All packet data beyond the new receive window
     // is forgotten, thereby freeing transfer window & allocation space for new packets.
     pub fn acknowledge(&mut self, receiver_base_id: u32) {
diff --git a/src/half_connection/pending_packet.rs b/src/half_connection/pending_packet.rs
index d331df5..84dad16 100644
--- a/src/half_connection/pending_packet.rs
+++ b/src/half_connection/pending_packet.rs
@@ -17,6 +17,9 @@ pub struct PendingPacket {
     last_fragment_id: u16,
 
     ack_flags: Box<[u64]>,
+
+    // If set, the packet may only be sent during the given flush
+    only_flush_id: Option<u32>,
 }
 
 impl PendingPacket {
@@ -38,9 +41,19 @@ impl PendingPacket {
             last_fragment_id,
 
             ack_flags: vec![0u64; (num_fragments + 63)/64].into_boxed_slice(),
+
+            only_flush_id: None,
         }
     }
 
+    pub fn restrict_to_flush(&mut self, flush_id: u32) {
+        self.only_flush_id = Some(flush_id);
+    }
+
+    pub fn is_stale(&self, flush_id: u32) -> bool {
+        self.only_flush_id.map_or(false, |only_flush_id| only_flush_id != flush_id)
+    }
+
     #[cfg(test)]
     pub fn sequence_id(&self) -> u32 {
         self.sequence_id
-- 
2.43.0


From a82f3ce5dc88d1a38e849ad1a768633bebe89830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 18/32] fix: limit the number of acknowledgements owed

---
 src/half_connection/frame_ack_queue.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/frame_ack_queue.rs b/src/half_connection/frame_ack_queue.rs
index 567362d..6485ebf 100644
--- a/src/half_connection/frame_ack_queue.rs
+++ b/src/half_connection/frame_ack_queue.rs
@@ -55,6 +55,16 @@ impl FrameAckQueue {
         self.receive_window.contains(frame_id)
     }
 
+    fn push_entry(&mut self, entry: frame::AckGroup) {
+        // Consecutive entries are at least 32 frames apart. By the time this limit is reached, the
+        // sender has long forgotten the frames acknowledged by the first entry.
+        if self.entries.len() >= self.receive_window.size as usize {
+            self.entries.pop_front();
+        }
+
+        self.entries.push_back(entry);
+    }
+
     pub fn mark_seen(&mut self, frame_id: u32, nonce: bool) {
         if self.receive_window.contains(frame_id) {
             self.receive_window.advance(frame_id.wrapping_add(1));
@@ -67,14 +77,14 @@ impl FrameAckQueue {
                         last_entry.nonce ^= nonce;
                     }
                 } else {
-                    self.entries.push_back(frame::AckGroup {
+                    self.push_entry(frame::AckGroup {
                         base_id: frame_id,
                         bitfield: 0x00000001,
                         nonce: nonce,
                     });
                 }
             } else {
-                self.entries.push_back(frame::AckGroup {
+                self.push_entry(frame::AckGroup {
                     base_id: frame_id,
                     bitfield: 0x00000001,
                     nonce: nonce,
-- 
2.43.0


From b061afa51fad2c8fc3e17806f155d40a562eccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 19/32] fix: do not truncate max_send_rate to 32 bits

---
 src/client/mod.rs | 2 +-
 src/server/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 5f5f8be..1ff1323 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -432,7 +432,7 @@ impl Client {
                         tx_packet_base_id: state.local_nonce & packet_id::MASK,
                         rx_packet_base_id: frame.nonce & packet_id::MASK,
 
-                        tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate as u32).min(frame.max_receive_rate),
+                        tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate.min(u32::MAX as usize) as u32).min(frame.max_receive_rate),
 
                         tx_alloc_limit: frame.max_receive_alloc as usize,
                         rx_alloc_limit: self.config.endpoint_config.max_receive_alloc as usize,
diff --git a/src/server/mod.rs b/src/server/mod.rs
index ff6bc02..7a0ddbb 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -384,7 +384,7 @@ impl Server {
                             tx_packet_base_id: state.local_nonce & packet_id::MASK,
                             rx_packet_base_id: state.remote_nonce & packet_id::MASK,
 
-                            tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate as u32).min(state.remote_max_receive_rate),
+                            tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate.min(u32::MAX as usize) as u32).min(state.remote_max_receive_rate),
 
                             tx_alloc_limit: state.remote_max_receive_alloc as usize,
                             rx_alloc_limit: self.config.endpoint_config.max_receive_alloc as usize,
-- 
2.43.0


From f04f664bfd959809c5d3314f4cf013357ea445d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 20/32] fix: avoid overflow for very large active timeouts

---
 src/client/mod.rs | 6 +++---
 src/server/mod.rs | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 1ff1323..cc07ab3 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -566,7 +566,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_data_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -576,7 +576,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_sync_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -586,7 +586,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_ack_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 7a0ddbb..d3110a8 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -400,7 +400,7 @@ impl Server {
 
                         client.state = remote_client::State::Active(remote_client::ActiveState {
                             half_connection,
-                            timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
+                            timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                             disconnect_signal: None,
                         });
 
@@ -512,7 +512,7 @@ impl Server {
                         .half_connection
                         .handle_data_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
@@ -534,7 +534,7 @@ impl Server {
                         .half_connection
                         .handle_ack_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
@@ -556,7 +556,7 @@ impl Server {
                         .half_connection
                         .handle_sync_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
-- 
2.43.0


From 67ad34b574612a0dec4b8c2fc8ddfce713113f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 21/32] fix: measure the initial client timeout from the end of
 the handshake

---
 src/client/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index cc07ab3..c0947c2 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -399,7 +399,7 @@ impl Client {
         (now - self.time_base).as_millis() as u64
     }
 
-    fn handle_handshake_syn_ack(&mut self, frame: frame::HandshakeSynAckFrame) {
+    fn handle_handshake_syn_ack(&mut self, now_ms: u64, frame: frame::HandshakeSynAckFrame) {
         match self.state {
             State::Pending(ref mut state) => {
                 // If the server responds to our SYN with a matching SYN+ACK, it has already
@@ -457,7 +457,7 @@ impl Client {
                     self.state = State::Active(ActiveState {
                         local_nonce: state.local_nonce,
                         half_connection,
-                        timeout_time_ms: self.config.endpoint_config.active_timeout_ms,
+                        timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                         disconnect_signal: None,
                     });
                 }
@@ -597,7 +597,7 @@ impl Client {
             frame::Frame::HandshakeSynFrame(_) => (),
             frame::Frame::HandshakeAckFrame(_) => (),
             frame::Frame::HandshakeSynAckFrame(frame) => {
-                self.handle_handshake_syn_ack(frame);
+                self.handle_handshake_syn_ack(now_ms, frame);
             },
             frame::Frame::HandshakeErrorFrame(frame) => {
                 self.handle_handshake_error(frame);
-- 
2.43.0


From e7f281e3247e9c5a7a808a06f7bb2c2297cc5a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 22/32] fix: do not acknowledge a SYN+ACK which belongs to a
 different handshake

---
 src/client/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index c0947c2..fe0cbfc 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -120,6 +120,7 @@ struct PendingState {
 
 struct ActiveState {
     local_nonce: u32,
+    remote_nonce: u32,
     half_connection: half_connection::HalfConnection,
     timeout_time_ms: u64,
     disconnect_signal: Option<DisconnectMode>,
@@ -456,6 +457,7 @@ impl Client {
 
                     self.state = State::Active(ActiveState {
                         local_nonce: state.local_nonce,
+                        remote_nonce: frame.nonce,
                         half_connection,
                         timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                         disconnect_signal: None,
@@ -464,11 +466,12 @@ impl Client {
             }
             State::Active(ref state) => {
                 // A matching SYN+ACK has already been received, so acknowledge this one assuming
-                // the nonce ack matches ours (and ignore it otherwise). This case is only
-                // encountered when our initial ACK was dropped - all that matters is that the
-                // server receives an ACK.
+                // both nonces match (and ignore it otherwise). This case is only encountered when
+                // our initial ACK was dropped - all that matters is that the server receives an
+                // ACK. A different server nonce belongs to another handshake, started by a stale
+                // SYN, which must not be completed.
 
-                if frame.nonce_ack == state.local_nonce {
+                if frame.nonce_ack == state.local_nonce && frame.nonce == state.remote_nonce {
                     let reply = frame::Frame::HandshakeAckFrame(frame::HandshakeAckFrame {
                         nonce_ack: frame.nonce,
                     });
-- 
2.43.0


From 5d3aeb97fd9520d34e4c2a827232084d5a5a458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 23/32] fix: enforce both the total and the active connection
 limit

---
 src/server/mod.rs           | 7 +++++--
 src/server/remote_client.rs | 8 ++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index d3110a8..00945b5 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -259,8 +259,11 @@ impl Server {
             return;
         }
 
-        if self.clients.len() >= self.config.max_total_connections
-            && self.active_clients.len() >= self.config.max_active_connections
+        let total_count = self.clients.len();
+        let active_count = self.clients.values().filter(|client| client.borrow().may_become_active()).count();
+
+        if total_count >= self.config.max_total_connections
+            || active_count >= self.config.max_active_connections
         {
             // No room in the inn
             let reply = frame::Frame::HandshakeErrorFrame(frame::HandshakeErrorFrame {
diff --git a/src/server/remote_client.rs b/src/server/remote_client.rs
index 301611b..725b8a0 100644
--- a/src/server/remote_client.rs
+++ b/src/server/remote_client.rs
@@ -39,6 +39,14 @@ pub struct RemoteClient {
 }
 
 impl RemoteClient {
+    // Pending clients are counted as well, because an accepted handshake may complete at any time.
+    pub (super) fn may_become_active(&self) -> bool {
+        match self.state {
+            State::Pending(_) | State::Active(_) => true,
+            _ => false,
+        }
+    }
+
     /// Returns `true` if the connection is active, that is, a connection handshake has been
     /// completed and the remote host has not yet timed out or disconnected. Returns `false`
     /// otherwise.
-- 
2.43.0


From f58f7269459e307706aa09d4bdc172d3cc423a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 24/32] fix: do not time out while the server repeats its
 SYN+ACK

---
 src/client/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index fe0cbfc..217a8a3 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -464,7 +464,7 @@ impl Client {
                     });
                 }
             }
-            State::Active(ref state) => {
+            State::Active(ref mut state) => {
                 // A matching SYN+ACK has already been received, so acknowledge this one assuming
                 // both nonces match (and ignore it otherwise). This case is only encountered when
                 // our initial ACK was dropped - all that matters is that the server receives an
@@ -476,6 +476,9 @@ impl Client {
                         nonce_ack: frame.nonce,
                     });
                     let _ = self.socket.send(&reply.write());
+
+                    // The server is evidently alive
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
             }
             _ => (),
-- 
2.43.0


From 81351861bd82abecc1729a37602bf422bb058142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 25/32] fix: avoid overflow when rounding up a very large
 receive allocation limit

---
 src/half_connection/packet_receiver/assembly_window/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/assembly_window/mod.rs b/src/half_connection/packet_receiver/assembly_window/mod.rs
index 833b0f2..c1a3a9c 100644
--- a/src/half_connection/packet_receiver/assembly_window/mod.rs
+++ b/src/half_connection/packet_receiver/assembly_window/mod.rs
@@ -70,7 +70,10 @@ impl AssemblyWindow {
     pub fn new(max_alloc: usize) -> Self {
         let window: Vec<WindowEntry> = (0 .. MAX_PACKET_WINDOW_SIZE).map(|_| WindowEntry::Open).collect();
 
-        let max_alloc_ceil = ((max_alloc + MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
+        let max_alloc_ceil = match max_alloc % MAX_FRAGMENT_SIZE {
+            0 => max_alloc,
+            rem => max_alloc.saturating_add(MAX_FRAGMENT_SIZE - rem),
+        };
 
         Self {
             window: window.into_boxed_slice(),
-- 
2.43.0


From 020dc5eb2fabfdf009d172de4ec02bb3e5ef73c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:11 +0000
Subject: [PATCH 26/32] fix: do not declare early frames lost before the first
 RTT measurement

---
 src/half_connection/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 47b4121..c72279b 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -35,7 +35,8 @@ pub mod verif {
 }
 
 const INITIAL_RTT_ESTIMATE_MS: u64 = 150;
-const INITIAL_RTO_ESTIMATE_MS: u64 = 4*INITIAL_RTT_ESTIMATE_MS;
+// Prior to any RTT measurement, use the initial value of the nofeedback timer (see RFC 5348, section 4.2)
+const INITIAL_RTO_ESTIMATE_MS: u64 = 2000;
 const MIN_SYNC_TIMEOUT_MS: u64 = 2000;
 
 pub trait FrameSink {
-- 
2.43.0


From 5939cfd7ed682af9e820db3589d4e1c5221ac2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 27/32] fix: do not limit the send rate by the first feedback's
 missing receive rate

---
 src/half_connection/send_rate.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index b8b27b9..0838d64 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -238,8 +238,14 @@ impl SendRateComp {
 
                     reset_loss_rate(initial_p);
 
-                    // Apply target send rate as if computed loss rate had been received
-                    self.send_rate = send_rate_target.min(recv_limit).max(MINIMUM_RATE);
+                    // Apply target send rate as if computed loss rate had been received. The first
+                    // feedback carries no receive rate (there is no prior feedback to measure it
+                    // from), so there is no limit to be applied in that case.
+                    self.send_rate = if state.time_last_doubled_ms.is_none() {
+                        send_rate_target.max(MINIMUM_RATE)
+                    } else {
+                        send_rate_target.min(recv_limit).max(MINIMUM_RATE)
+                    };
                     //println!("SS: first loss: new send rate: {} (limit {}, rl: {}, li: {})",
                     //    self.send_rate, recv_limit, rate_limited, loss_increase);
 
-- 
2.43.0


From 6a5c319b16e47980522436ba62c1cf1dd0703809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 28/32] fix: do not let acknowledgements starve everything else
 at low send rates

---
 src/half_connection/mod.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index c72279b..c4b3113 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -1,4 +1,5 @@
 
+use crate::MAX_FRAME_SIZE;
 use crate::SendMode;
 use crate::frame;
 
@@ -92,6 +93,9 @@ pub struct HalfConnection {
     flush_alloc_fract: f64,
     flush_id: u32,
 
+    // Number of acknowledgement bytes sent since anything else could be sent
+    ack_bytes: isize,
+
     sync_reply: bool,
     sync_keepalive_interval_ms: Option<u64>,
 }
@@ -121,6 +125,8 @@ impl HalfConnection {
             flush_alloc_fract: 0.0,
             flush_id: 0,
 
+            ack_bytes: 0,
+
             sync_reply: false,
             sync_keepalive_interval_ms: config.keepalive_interval_ms,
         }
@@ -241,9 +247,17 @@ impl HalfConnection {
     }
 
     fn emit_frames(&mut self, now_ms: u64, rtt_ms: u64, rto_ms: u64, flush_id: u32, sink: &mut impl FrameSink) {
-        match self.emit_ack_frames(sink) {
-            Err(_) => return,
-            Ok(_) => (),
+        // Acknowledgements usually come first. However, a steady stream of incoming frames must not
+        // keep a slow sender from sending anything else, including that which is necessary for it to
+        // become any faster. Hence, every so often, it is the other frames' turn.
+        let acks_first = self.ack_bytes < MAX_FRAME_SIZE as isize;
+
+        if acks_first && self.emit_ack_frames(sink).is_err() {
+            return;
+        }
+
+        if self.flush_alloc >= 0 {
+            self.ack_bytes = 0;
         }
 
         match self.emit_data_frames(now_ms, rtt_ms, flush_id, sink) {
@@ -255,6 +269,10 @@ impl HalfConnection {
             Err(_) => return,
             Ok(_) => (),
         }
+
+        if !acks_first {
+            let _ = self.emit_ack_frames(sink);
+        }
     }
 
     fn emit_sync_frame(&mut self, now_ms: u64, rto_ms: u64, sink: &mut impl FrameSink) -> Result<(),()> {
@@ -327,11 +345,13 @@ impl HalfConnection {
         let packet_window_base_id = self.packet_receiver.base_id();
 
         let ref mut flush_alloc = self.flush_alloc;
+        let ref mut ack_bytes = self.ack_bytes;
         let ref mut sync_reply = self.sync_reply;
 
         let emit_cb = |frame_bytes: Box<[u8]>| {
             sink.send(&frame_bytes);
             *flush_alloc -= frame_bytes.len() as isize;
+            *ack_bytes += frame_bytes.len() as isize;
             *sync_reply = false;
         };
 
-- 
2.43.0


From eac3af8eb88f2841fb7454717b9fd5bc9ebae84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 29/32] fix: do not let the first feedback's missing receive
 rate collapse the send rate

---
 src/half_connection/send_rate.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 0838d64..04cd6b5 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -242,6 +242,7 @@ impl SendRateComp {
                     // feedback carries no receive rate (there is no prior feedback to measure it
                     // from), so there is no limit to be applied in that case.
                     self.send_rate = if state.time_last_doubled_ms.is_none() {
+                        self.recv_rate_set.reset_initial(now_ms);
                         send_rate_target.max(MINIMUM_RATE)
                     } else {
                         send_rate_target.min(recv_limit).max(MINIMUM_RATE)
-- 
2.43.0


From e75899a1e67c59dfafe7b1011232b4276b252701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 30/32] fix: count packets submitted while connecting in
 send_buffer_size()

---
 src/client/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 217a8a3..d59bdf6 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -390,6 +390,7 @@ impl Client {
     /// they would not be sent.
     pub fn send_buffer_size(&self) -> usize {
         match self.state {
+            State::Pending(ref state) => state.initial_sends.iter().map(|entry| entry.data.len()).sum(),
             State::Active(ref state) => state.half_connection.send_buffer_size(),
             _ => 0,
         }
-- 
2.43.0


From b841490e6c19bef28d1124d131c426fbf2d56fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:29 +0000
Subject: [PATCH 31/32] fix: ignore the packet window base of acknowledgements
 from before the current frame window

---
 src/half_connection/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index c4b3113..a17626d 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -182,7 +182,12 @@ impl HalfConnection {
         }
 
         self.frame_queue.advance_transfer_window(frame.frame_window_base_id, rtt_ms);
-        self.packet_sender.acknowledge(frame.packet_window_base_id);
+
+        // If the frame window has moved on in the meantime, so have the packet IDs, which may even be
+        // in use again
+        if frame.frame_window_base_id == self.frame_queue.base_id() {
+            self.packet_sender.acknowledge(frame.packet_window_base_id);
+        }
     }
 
     pub fn step(&mut self) {
-- 
2.43.0


From 7fff67ff8a44ea553ba104de7ffd2d7c9a611d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:29 +0000
Subject: [PATCH 32/32] fix: ignore the packet ID of sync frames from before
 the current frame window

---
 src/half_connection/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index a17626d..bb46b31 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -163,12 +163,19 @@ impl HalfConnection {
     }
 
     pub fn handle_sync_frame(&mut self, frame: frame::SyncFrame) {
+        let mut is_current = true;
+
         if let Some(next_frame_id) = frame.next_frame_id {
             self.frame_ack_queue.resynchronize(next_frame_id);
+            is_current = next_frame_id == self.frame_ack_queue.base_id();
         }
 
         if let Some(next_packet_id) = frame.next_packet_id {
-            self.packet_receiver.resynchronize(next_packet_id);
+            // If the frame window has moved on in the meantime, so have the packet IDs, which may even
+            // be in use again
+            if is_current {
+                self.packet_receiver.resynchronize(next_packet_id);
+            }
         }
 
         self.sync_reply = true;
-- 
2.43.0

