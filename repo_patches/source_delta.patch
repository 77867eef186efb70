From 5e1d9bf63ca06d0c1cc7e6da167bb401884de012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:38 +0000
Subject: [PATCH 01/16] fix: keep all 15 bits of a question's class

Only the top bit of a question's class is the mDNS unicast-response flag. Masking with 0xff made the
advertiser answer queries for unrelated classes such as 0x0101 as if they were IN.
---
 src/packet/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index ee710bd..dc3a63c 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -146,7 +146,7 @@ impl<'a> Reader<'a> {
         let qtype = QType(self.read_u16()?);
         let qclass = self.read_u16()?;
         let prefer_unicast = qclass & 0x8000 != 0;
-        let qclass = QClass(qclass & 0xff);
+        let qclass = QClass(qclass & 0x7fff);
         Ok(Question {
             qname,
             qtype,
-- 
2.43.0


From b848d577ee050889cad91468c19eaf80f316b3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 02/16] fix: don't panic on a message ending in the middle of a
 name pointer

---
 src/packet/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index dc3a63c..06ceb4f 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -110,7 +110,7 @@ impl<'a> Reader<'a> {
             match length & 0b1100_0000 {
                 0b1100_0000 => {
                     // 16-bit pointer to somewhere else in the UDP message.
-                    let ptr = usize::from(copy.read_u16().unwrap() & 0b0011_1111_1111_1111);
+                    let ptr = usize::from(copy.read_u16()? & 0b0011_1111_1111_1111);
                     if ptr >= min_pos {
                         // We require pointers to point to an earlier part of the message, to
                         // prevent loops. The specification is unclear about what exactly is
-- 
2.43.0


From 39c96e982672786b1cb1f68fd63501dca8690aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 03/16] fix: resume decoding right after a name's first
 compression pointer

When a pointer led to labels that run past the pointer itself, decoding resumed behind those labels
instead of behind the pointer, and skipped or misread everything in between.
---
 src/packet/decoder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index 06ceb4f..4b3915a 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -1,7 +1,7 @@
 //! DNS packet decoder.
 
 use core::mem;
-use std::{any::TypeId, cell::Cell, cmp, fmt, marker::PhantomData, mem::size_of};
+use std::{any::TypeId, cell::Cell, fmt, marker::PhantomData, mem::size_of};
 
 use bytemuck::AnyBitPattern;
 
@@ -104,6 +104,9 @@ impl<'a> Reader<'a> {
     pub(crate) fn read_domain_name(&self) -> Result<DomainName, Error> {
         let mut domain_name = DomainName::ROOT;
         let mut min_pos = self.pos.get();
+        // The name itself ends after its first pointer (if it has any), regardless of where that
+        // pointer leads.
+        let mut end = None;
         let mut copy = self.clone();
         loop {
             let length = copy.peek_u8()?;
@@ -117,7 +120,7 @@ impl<'a> Reader<'a> {
                         // allowed.
                         return Err(Error::PointerLoop);
                     } else {
-                        self.pos.set(cmp::max(self.pos.get(), copy.pos.get()));
+                        end.get_or_insert(copy.pos.get());
                         min_pos = ptr;
                         copy.pos = ptr.into();
                     }
@@ -137,7 +140,7 @@ impl<'a> Reader<'a> {
             }
         }
 
-        self.pos.set(cmp::max(self.pos.get(), copy.pos.get()));
+        self.pos.set(end.unwrap_or(copy.pos.get()));
         Ok(domain_name)
     }
 
-- 
2.43.0


From 56ff0db34d1ab5b4978d2c525db33d880cb0ec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:58 +0000
Subject: [PATCH 04/16] fix: flag messages with more than 65535 items per
 section as truncated

The section count overflowed (panicking in debug builds), so that a truncated reply could announce
no records at all.
---
 src/packet/encoder.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/packet/encoder.rs b/src/packet/encoder.rs
index d6a7e6d..02c2837 100644
--- a/src/packet/encoder.rs
+++ b/src/packet/encoder.rs
@@ -35,6 +35,15 @@ impl<'a> Writer<'a> {
         with(h);
     }
 
+    /// Counts an item that was added to a section. Items that exceed the range of the section's count
+    /// are cut off.
+    fn count(&mut self, count: &mut u16) {
+        match count.checked_add(1) {
+            Some(new) => *count = new,
+            None => self.trunc = true,
+        }
+    }
+
     pub(crate) fn write_slice(&mut self, data: &[u8]) {
         let buf = &mut self.buf[self.pos..];
         if data.len() > buf.len() {
@@ -163,7 +172,7 @@ impl<'a> MessageEncoder<'a, section::Question> {
         self.inner.w.write_domain_name(question.name);
         self.inner.w.write_u16(question.ty.0);
         self.inner.w.write_u16(question.class.0);
-        self.inner.qdcount += 1;
+        self.inner.w.count(&mut self.inner.qdcount);
     }
 
     /// Moves the encoder to the *Answer* section.
@@ -208,7 +217,7 @@ impl<'a, S: Section> MessageEncoder<'a, S> {
 impl<'a> MessageEncoder<'a, section::Answer> {
     pub fn add_answer(&mut self, rr: ResourceRecord<'_>) {
         self.write_rr(rr);
-        self.inner.ancount += 1;
+        self.inner.w.count(&mut self.inner.ancount);
     }
 
     /// Moves the encoder to the *Authority* section.
@@ -224,7 +233,7 @@ impl<'a> MessageEncoder<'a, section::Answer> {
 impl<'a> MessageEncoder<'a, section::Authority> {
     pub fn add_authority(&mut self, rr: ResourceRecord<'_>) {
         self.write_rr(rr);
-        self.inner.nscount += 1;
+        self.inner.w.count(&mut self.inner.nscount);
     }
 
     /// Moves the encoder to the *Additional Records* section.
@@ -240,7 +249,7 @@ impl<'a> MessageEncoder<'a, section::Authority> {
 impl<'a> MessageEncoder<'a, section::Additional> {
     pub fn add_additional(&mut self, rr: ResourceRecord<'_>) {
         self.write_rr(rr);
-        self.inner.arcount += 1;
+        self.inner.w.count(&mut self.inner.arcount);
     }
 }
 
-- 
2.43.0


From c88961c0f230129ca3dfaaf27ebe65f877fefe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 05/16] fix: ignore ASCII case when looking up queried names

DNS names are case-insensitive, but the advertiser only answered queries that use the exact case
its records were registered with.
---
 src/name.rs                | 12 ++++++++++++
 src/service/advertising.rs |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/name.rs b/src/name.rs
index 05ca949..44bd73e 100644
--- a/src/name.rs
+++ b/src/name.rs
@@ -124,6 +124,18 @@ impl DomainName {
     pub fn push_label(&mut self, label: Label) {
         self.labels.push(label);
     }
+
+    /// Checks whether two domain names are the same, ignoring the case of ASCII letters.
+    ///
+    /// This is how names in DNS messages have to be compared.
+    pub fn eq_ignore_ascii_case(&self, other: &Self) -> bool {
+        self.labels.len() == other.labels.len()
+            && self
+                .labels
+                .iter()
+                .zip(&other.labels)
+                .all(|(a, b)| a.bytes.eq_ignore_ascii_case(&b.bytes))
+    }
 }
 
 impl From<DomainName> for Cow<'_, DomainName> {
diff --git a/src/service/advertising.rs b/src/service/advertising.rs
index 2d97c53..3d3ae16 100644
--- a/src/service/advertising.rs
+++ b/src/service/advertising.rs
@@ -215,7 +215,7 @@ impl Advertiser {
                 if !q.qtype().matches(entry.record.record_type()) {
                     continue;
                 }
-                if q.qname() != &entry.name {
+                if !q.qname().eq_ignore_ascii_case(&entry.name) {
                     continue;
                 }
 
-- 
2.43.0


From 8d2eb00ed5fc7c9428a9e37c3133c63b91585468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:21 +0000
Subject: [PATCH 06/16] fix: keep advertising when a response cannot be sent

A query from an unreachable or spoofed source address (for example with port 0) made send_to fail,
which ended the listen loop.
---
 src/service/advertising.rs             | 4 +++-
 uwuhi-async/src/service/advertising.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/service/advertising.rs b/src/service/advertising.rs
index 3d3ae16..a1a225c 100644
--- a/src/service/advertising.rs
+++ b/src/service/advertising.rs
@@ -57,7 +57,9 @@ impl SyncAdvertiser {
 
             match self.adv.handle_packet(packet) {
                 Ok(Some(resp)) => {
-                    sock.send_to(resp, addr)?;
+                    if let Err(e) = sock.send_to(resp, addr) {
+                        log::warn!("failed to send response to {}: {}", addr, e);
+                    }
                 }
                 Ok(None) => {}
                 Err(e) => {
diff --git a/uwuhi-async/src/service/advertising.rs b/uwuhi-async/src/service/advertising.rs
index c97e0f9..7676661 100644
--- a/uwuhi-async/src/service/advertising.rs
+++ b/uwuhi-async/src/service/advertising.rs
@@ -51,7 +51,9 @@ impl AsyncAdvertiser {
 
             match self.adv.handle_packet(packet) {
                 Ok(Some(resp)) => {
-                    self.sock.send_to(resp, addr).await?;
+                    if let Err(e) = self.sock.send_to(resp, addr).await {
+                        log::warn!("failed to send response to {}: {}", addr, e);
+                    }
                 }
                 Ok(None) => {}
                 Err(e) => {
-- 
2.43.0


From dac0a866792bc89ad804fa15083dd8fdaca864ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 07/16] fix: reject over-long TXT entries when they are created

They used to be accepted, and the advertiser then panicked on the first query for them.
---
 src/packet/records.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/packet/records.rs b/src/packet/records.rs
index ee15107..ec46114 100644
--- a/src/packet/records.rs
+++ b/src/packet/records.rs
@@ -448,7 +448,8 @@ impl<'a> TXT<'a> {
     ///
     /// # Panics
     ///
-    /// This method will panic if `entries` is empty.
+    /// This method will panic if `entries` is empty, or if an entry is longer than 255 bytes (the
+    /// maximum length of a *character string*).
     pub fn new<I, T>(entries: I) -> Self
     where
         I: IntoIterator<Item = T>,
@@ -458,6 +459,7 @@ impl<'a> TXT<'a> {
             entries: entries.into_iter().map(|t| t.into()).collect(),
         };
         assert!(!this.entries.is_empty());
+        assert!(this.entries.iter().all(|entry| entry.len() <= 255));
         this
     }
 
-- 
2.43.0


From 26b9b25a593487f95a23449c7049f9b298fb6673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:24 +0000
Subject: [PATCH 08/16] fix: ignore TXT entries with an empty key, as required
 by RFC 6763

---
 src/service.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index cb0a898..3fdfdfd 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -277,6 +277,11 @@ impl TxtRecords {
         for entry in txt.entries() {
             let mut split = entry.splitn(2, |&b| b == b'=');
             let key = split.next().unwrap();
+            if key.is_empty() {
+                // RFC 6763 6.4: strings with a missing key must be ignored. This includes the empty
+                // string of an otherwise empty TXT record.
+                continue;
+            }
             let key = match String::from_utf8(key.to_vec()) {
                 Ok(key) => key,
                 Err(e) => {
-- 
2.43.0


From 29f62a20bac9f5e96e4dece5b3476e34379bfb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:37 +0000
Subject: [PATCH 09/16] fix: refuse additional servers on a multicast resolver

The check looked at the unspecified address the socket is bound to, so add_server never panicked as
documented.
---
 src/resolver.rs             | 2 +-
 uwuhi-async/src/resolver.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 6a98bf1..c7b2669 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -42,7 +42,7 @@ impl SyncResolver {
             servers: vec![sock],
             sock: UdpSocket::bind(bind_addr)?,
             ip_buf: Vec::new(),
-            is_multicast: bind_addr.ip().is_multicast(),
+            is_multicast: sock.ip().is_multicast(),
         };
         this.set_timeout(Self::DEFAULT_TIMEOUT)?;
         Ok(this)
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index c1221eb..f9301a4 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -33,7 +33,7 @@ impl AsyncResolver {
             servers: vec![server],
             sock: Async::<UdpSocket>::bind(bind_addr)?,
             ip_buf: Vec::new(),
-            is_multicast: bind_addr.ip().is_multicast(),
+            is_multicast: server.ip().is_multicast(),
             timeout: Self::DEFAULT_TIMEOUT,
         })
     }
-- 
2.43.0


From 2bbf6f387540867771b0a52ebd6f2daa23daea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 10/16] fix: receive mDNS responses of more than 512 bytes in
 the resolvers

An mDNS response can be up to MDNS_BUFFER_SIZE bytes long; larger ones than 512 bytes were cut off and then
failed to decode.
---
 src/resolver.rs             | 4 ++--
 uwuhi-async/src/resolver.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index c7b2669..16a8706 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -18,7 +18,7 @@ use crate::{
     Error,
 };
 
-use crate::{DNS_BUFFER_SIZE, MDNS_BUFFER_SIZE};
+use crate::MDNS_BUFFER_SIZE;
 
 /// A simple, synchronous, non-recursive (m)DNS stub resolver.
 pub struct SyncResolver {
@@ -128,7 +128,7 @@ impl SyncResolver {
         }
 
         loop {
-            let mut recv_buf = [0; DNS_BUFFER_SIZE];
+            let mut recv_buf = [0; MDNS_BUFFER_SIZE];
             let (b, addr) = self.sock.recv_from(&mut recv_buf)?;
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {}", addr, Hex(recv));
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index f9301a4..9c6a6d2 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -9,7 +9,7 @@ use std::{
 use async_io::{Async, Timer};
 use futures_lite::future;
 pub use uwuhi::resolver::*;
-use uwuhi::{name::DomainName, DNS_BUFFER_SIZE, MDNS_BUFFER_SIZE};
+use uwuhi::{name::DomainName, MDNS_BUFFER_SIZE};
 
 pub struct AsyncResolver {
     servers: Vec<SocketAddr>,
@@ -121,7 +121,7 @@ impl AsyncResolver {
         }
 
         loop {
-            let mut recv_buf = [0; DNS_BUFFER_SIZE];
+            let mut recv_buf = [0; MDNS_BUFFER_SIZE];
             let timeout = async {
                 Timer::after(self.timeout).await;
                 Err(io::ErrorKind::TimedOut.into())
-- 
2.43.0


From acfe3236420ed664c2d2998ae462910417eada64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:28 +0000
Subject: [PATCH 11/16] fix: only resolve names to addresses that answer the
 query

Any address record in any response was returned: late answers to an earlier query for another name,
responses with a foreign ID, records of unrelated names, and the intact part of malformed responses
(which was even returned along with the addresses of the next response).
---
 src/resolver.rs             | 53 +++++++++++++++++++++++++++++++------
 uwuhi-async/src/resolver.rs |  2 +-
 2 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 16a8706..3626bd2 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -13,7 +13,7 @@ use crate::{
         decoder::MessageDecoder,
         encoder::{MessageEncoder, Question},
         records::Record,
-        Header, QType,
+        Class, Header, QType,
     },
     Error,
 };
@@ -133,7 +133,7 @@ impl SyncResolver {
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {}", addr, Hex(recv));
 
-            match decode_answer(recv, &mut self.ip_buf) {
+            match decode_answer(recv, name, &mut self.ip_buf) {
                 Ok(()) => {
                     if !self.ip_buf.is_empty() {
                         // We return once any answer contains IP addresses.
@@ -148,13 +148,16 @@ impl SyncResolver {
     }
 }
 
+/// The ID of all queries sent by the resolver.
+const QUERY_ID: u16 = 12345;
+
 /// Writes a DNS query asking for IPv4 and IPv6 addresses of `name` into `buf`.
 ///
 /// The given buffer must be large enough to fit the query, or this method will panic.
 pub fn encode_query<'a>(buf: &'a mut [u8], name: &DomainName) -> &'a [u8] {
     let mut header = Header::default();
     header.set_recursion_desired(true);
-    header.set_id(12345);
+    header.set_id(QUERY_ID);
     let mut enc = MessageEncoder::new(buf);
     enc.set_header(header);
     enc.question(Question::new(&name).ty(QType::A));
@@ -163,25 +166,59 @@ pub fn encode_query<'a>(buf: &'a mut [u8], name: &DomainName) -> &'a [u8] {
     &buf[..bytes]
 }
 
-/// Decodes an answer packet from a DNS resolver, adding any contained IP addresses to `ip_buf`.
-pub fn decode_answer(msg: &[u8], ip_buf: &mut Vec<IpAddr>) -> Result<(), Error> {
+/// Decodes an answer packet from a DNS resolver, adding the IP addresses of `name` to `ip_buf`.
+///
+/// Only responses to a query created by [`encode_query`] are considered, and only addresses that
+/// belong to `name`, either directly or via `CNAME` records in the same response.
+pub fn decode_answer(
+    msg: &[u8],
+    name: &DomainName,
+    ip_buf: &mut Vec<IpAddr>,
+) -> Result<(), Error> {
     let dec = MessageDecoder::new(msg)?;
     let h = dec.header();
     log::trace!("header: {:?}", h);
-    if !h.is_response() {
+    if !h.is_response() || h.id() != QUERY_ID {
         return Ok(());
     }
 
+    let mut addrs = Vec::new();
+    let mut aliases = Vec::new();
     for res in dec.answers()?.iter() {
         let ans = res?;
         log::debug!("ANS: {}", ans);
+        if ans.class() != Class::IN {
+            continue;
+        }
+        let owner = ans.name().clone();
         match ans.as_enum() {
-            Some(Ok(Record::A(a))) => ip_buf.push(IpAddr::V4(a.addr().octets().into())),
-            Some(Ok(Record::AAAA(a))) => ip_buf.push(IpAddr::V6(a.addr().octets().into())),
+            Some(Ok(Record::A(a))) => addrs.push((owner, IpAddr::V4(a.addr().octets().into()))),
+            Some(Ok(Record::AAAA(a))) => addrs.push((owner, IpAddr::V6(a.addr().octets().into()))),
+            Some(Ok(Record::CNAME(c))) => aliases.push((owner, c.cname().clone())),
             Some(Err(e)) => return Err(e),
             _ => {}
         }
     }
 
+    // Collect all names that the queried name is an alias of.
+    let mut names = vec![name.clone()];
+    let mut i = 0;
+    while i < names.len() {
+        aliases.retain(|(owner, target)| {
+            let is_alias = owner.eq_ignore_ascii_case(&names[i]);
+            if is_alias {
+                names.push(target.clone());
+            }
+            !is_alias
+        });
+        i += 1;
+    }
+
+    for (owner, addr) in addrs {
+        if names.iter().any(|name| name.eq_ignore_ascii_case(&owner)) {
+            ip_buf.push(addr);
+        }
+    }
+
     Ok(())
 }
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index 9c6a6d2..8e6bb0a 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -130,7 +130,7 @@ impl AsyncResolver {
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {:x?}", addr, recv);
 
-            match decode_answer(recv, &mut self.ip_buf) {
+            match decode_answer(recv, name, &mut self.ip_buf) {
                 Ok(()) => {
                     if !self.ip_buf.is_empty() {
                         // We return once any answer contains IP addresses.
-- 
2.43.0


From e0834a2a8ae6192aa1bf953746ffcb23ede37a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:44 +0000
Subject: [PATCH 12/16] fix: ignore records of other names during service
 discovery

Any PTR, SRV or TXT record in any response was taken as an answer, such as a late answer to an earlier
query for another service or instance.
---
 src/service/discovery.rs             | 9 +++++++--
 uwuhi-async/src/service/discovery.rs | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index f1dc031..ea2e16c 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -254,7 +254,7 @@ impl SyncDiscoverer {
                 let recv = &recv_buf[..b];
                 log::trace!("recv from {}: {}", addr, Hex(recv));
 
-                let res = decode_answer(recv, callback);
+                let res = decode_answer(recv, domain, callback);
 
                 match res {
                     Ok(ControlFlow::Continue(())) => {}
@@ -289,9 +289,10 @@ pub fn encode_query<'a>(buf: &'a mut [u8], domain: &DomainName, qtypes: &[QType]
     data
 }
 
-/// Decodes `recv` and invokes `callback` with every ANS record inside.
+/// Decodes `recv` and invokes `callback` with every ANS record inside that belongs to `domain`.
 pub fn decode_answer(
     recv: &[u8],
+    domain: &DomainName,
     callback: &mut dyn FnMut(Record<'_>) -> ControlFlow<()>,
 ) -> Result<ControlFlow<()>, Error> {
     let dec = MessageDecoder::new(recv)?;
@@ -311,6 +312,10 @@ pub fn decode_answer(
             }
         };
         log::debug!("ANS: {}", ans);
+        if !ans.name().eq_ignore_ascii_case(domain) {
+            // Not an answer to our query (but possibly to an earlier one).
+            continue;
+        }
         match ans.as_enum() {
             Some(Ok(record)) => match callback(record) {
                 ControlFlow::Continue(()) => {}
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index 0acd1f6..a40bf6e 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -256,7 +256,7 @@ impl AsyncDiscoverer {
                 let recv = &recv_buf[..b];
                 log::trace!("recv from {}: {}", addr, recv.escape_ascii());
 
-                let res = decode_answer(recv, callback);
+                let res = decode_answer(recv, domain, callback);
 
                 match res {
                     Ok(ControlFlow::Continue(())) => {}
-- 
2.43.0


From 288ef52079124ee810daa396b6035ad166404e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:46 +0000
Subject: [PATCH 13/16] fix: don't ignore TXT records that follow the SRV
 record

The advertiser of this library always sends the TXT record after the SRV record, so
load_instance_details never returned the TXT data it had published.
---
 src/service/discovery.rs             | 19 ++++++++++---------
 uwuhi-async/src/service/discovery.rs | 19 ++++++++++---------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index ea2e16c..0b0716b 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -102,9 +102,7 @@ impl SyncDiscoverer {
                     match InstanceDetails::from_srv(&srv) {
                         Ok(det) => {
                             // FIXME: respect SRV priority, as required by RFC 6763
-                            details = Some(det);
-                            // FIXME: breaking here ignores any subsequent TXT records!
-                            ControlFlow::Break(())
+                            details.get_or_insert(det);
                         }
                         Err(e) => {
                             log::debug!(
@@ -112,15 +110,18 @@ impl SyncDiscoverer {
                                 e,
                                 srv
                             );
-                            ControlFlow::Continue(())
                         }
                     }
                 }
-                Record::TXT(txt) => {
-                    txt_records = Some(TxtRecords::from_txt(&txt));
-                    ControlFlow::Continue(())
-                }
-                _ => ControlFlow::Continue(()),
+                Record::TXT(txt) => txt_records = Some(TxtRecords::from_txt(&txt)),
+                _ => {}
+            }
+
+            // The TXT record may follow the SRV record, or be part of another response.
+            if details.is_some() && txt_records.is_some() {
+                ControlFlow::Break(())
+            } else {
+                ControlFlow::Continue(())
             }
         })?;
 
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index a40bf6e..ebc3d8f 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -97,9 +97,7 @@ impl AsyncDiscoverer {
                     match InstanceDetails::from_srv(&srv) {
                         Ok(det) => {
                             // FIXME: respect SRV priority, as required by RFC 6763
-                            details = Some(det);
-                            // FIXME: breaking here ignores any subsequent TXT records!
-                            ControlFlow::Break(())
+                            details.get_or_insert(det);
                         }
                         Err(e) => {
                             log::debug!(
@@ -107,15 +105,18 @@ impl AsyncDiscoverer {
                                 e,
                                 srv
                             );
-                            ControlFlow::Continue(())
                         }
                     }
                 }
-                Record::TXT(txt) => {
-                    txt_records = Some(TxtRecords::from_txt(&txt));
-                    ControlFlow::Continue(())
-                }
-                _ => ControlFlow::Continue(()),
+                Record::TXT(txt) => txt_records = Some(TxtRecords::from_txt(&txt)),
+                _ => {}
+            }
+
+            // The TXT record may follow the SRV record, or be part of another response.
+            if details.is_some() && txt_records.is_some() {
+                ControlFlow::Break(())
+            } else {
+                ControlFlow::Continue(())
             }
         })
         .await?;
-- 
2.43.0


From 15a475f83c7c6d6e701e2cf3f703a16dc78ac559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:03 +0000
Subject: [PATCH 14/16] fix: end service discovery when the discovery timeout
 has elapsed

The timeout was only checked between receives, each of which could wait for the whole retransmit
timeout, so that discovery took up to that much longer than configured (and sent another query in
the meantime).
---
 src/service/discovery.rs             | 16 +++++++++++++++-
 uwuhi-async/src/service/discovery.rs | 11 +++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index 0b0716b..a132a1a 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -29,6 +29,7 @@ pub struct SyncDiscoverer {
     sock: UdpSocket,
     server: SocketAddr,
     domain: DomainName,
+    retransmit_timeout: Duration,
     discovery_timeout: Duration,
 }
 
@@ -48,6 +49,7 @@ impl SyncDiscoverer {
             sock: UdpSocket::bind(bind_addr)?,
             server,
             domain,
+            retransmit_timeout: Self::DEFAULT_RETRANSMIT_TIMEOUT,
             discovery_timeout: Self::DEFAULT_DISCOVERY_TIMEOUT,
         };
         this.set_retransmit_timeout(Self::DEFAULT_RETRANSMIT_TIMEOUT)?;
@@ -66,6 +68,7 @@ impl SyncDiscoverer {
     /// received in this amount of time.
     pub fn set_retransmit_timeout(&mut self, timeout: Duration) -> io::Result<()> {
         self.sock.set_read_timeout(Some(timeout))?;
+        self.retransmit_timeout = timeout;
         Ok(())
     }
 
@@ -236,11 +239,18 @@ impl SyncDiscoverer {
             self.sock.send_to(data, self.server)?;
 
             loop {
-                if discovery_start.elapsed() >= self.discovery_timeout {
+                let remaining = self
+                    .discovery_timeout
+                    .saturating_sub(discovery_start.elapsed());
+                if remaining.is_zero() {
                     // Max. discovery time exceeded.
                     return Ok(());
                 }
 
+                // Don't wait for longer than the max. discovery time.
+                let timeout = self.retransmit_timeout.min(remaining);
+                self.sock.set_read_timeout(Some(timeout))?;
+
                 let mut recv_buf = [0; MDNS_BUFFER_SIZE];
                 let (b, addr) = match self.sock.recv_from(&mut recv_buf) {
                     Ok(res) => res,
@@ -248,6 +258,10 @@ impl SyncDiscoverer {
                         if e.kind() == io::ErrorKind::WouldBlock
                             || e.kind() == io::ErrorKind::TimedOut =>
                     {
+                        if timeout == remaining {
+                            // Too late to retransmit.
+                            continue;
+                        }
                         continue 'retransmit;
                     }
                     Err(e) => return Err(e),
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index ebc3d8f..cb3878f 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -238,20 +238,27 @@ impl AsyncDiscoverer {
             self.sock.send_to(data, self.server).await?;
 
             loop {
-                if discovery_start.elapsed() >= self.discovery_timeout {
+                let remaining = self
+                    .discovery_timeout
+                    .saturating_sub(discovery_start.elapsed());
+                if remaining.is_zero() {
                     // Max. discovery time exceeded.
                     return Ok(());
                 }
 
+                // Don't wait for longer than the max. discovery time.
+                let wait = self.retransmit_timeout.min(remaining);
                 let mut recv_buf = [0; MDNS_BUFFER_SIZE];
                 let timeout = async {
-                    Timer::after(self.retransmit_timeout).await;
+                    Timer::after(wait).await;
                     Err(())
                 };
                 let recv = async { Ok(self.sock.recv_from(&mut recv_buf).await) };
                 let (b, addr) = match future::or(recv, timeout).await {
                     Ok(Ok(res)) => res,
                     Ok(Err(e)) => return Err(e),
+                    // Too late to retransmit.
+                    Err(()) if wait == remaining => continue,
                     Err(()) => continue 'retransmit,
                 };
                 let recv = &recv_buf[..b];
-- 
2.43.0


From 057d173dd9806869b5b2255537438a13f00bd36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 15/16] fix: reject zero timeouts in the async resolver and
 discoverer

---
 uwuhi-async/src/resolver.rs          | 3 +++
 uwuhi-async/src/service/discovery.rs | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index 8e6bb0a..68f2c50 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -78,6 +78,9 @@ impl AsyncResolver {
     /// This is the timeout for individual receive operations, not for the whole query. Packets that
     /// don't match the query that was sent will be ignored, but still reset the timeout.
     pub fn set_timeout(&mut self, timeout: Duration) -> io::Result<()> {
+        if timeout.is_zero() {
+            return Err(io::ErrorKind::InvalidInput.into());
+        }
         self.timeout = timeout;
         Ok(())
     }
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index cb3878f..8e4e1a1 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -60,6 +60,10 @@ impl AsyncDiscoverer {
     /// Sets the time after which a discovery query is retransmitted, if no responses have been
     /// received in this amount of time.
     pub fn set_retransmit_timeout(&mut self, timeout: Duration) -> io::Result<()> {
+        if timeout.is_zero() {
+            // Would retransmit the query in a busy loop.
+            return Err(io::ErrorKind::InvalidInput.into());
+        }
         self.retransmit_timeout = timeout;
         Ok(())
     }
-- 
2.43.0


From fee10755f4b86f20f7f406666699b2478b701858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 16/16] fix: refuse over-long names instead of panicking while
 encoding the query

---
 src/error.rs                         |  7 +++++++
 src/name.rs                          | 12 ++++++++++++
 src/resolver.rs                      |  1 +
 src/service/discovery.rs             |  2 ++
 uwuhi-async/src/resolver.rs          |  1 +
 uwuhi-async/src/service/discovery.rs |  2 ++
 6 files changed, 25 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index e1d2095..d07862c 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -22,6 +22,8 @@ pub enum Error {
     InvalidEmptyLabel,
     /// A label exceeded the maximum allowable length of a label.
     LabelTooLong,
+    /// A domain name exceeded the maximum allowable length of a domain name.
+    NameTooLong,
 }
 
 impl Error {
@@ -33,6 +35,7 @@ impl Error {
             Error::Truncated => "packet truncated",
             Error::InvalidEmptyLabel => "invalid empty label",
             Error::LabelTooLong => "label too long",
+            Error::NameTooLong => "domain name too long",
         }
     }
 }
@@ -62,6 +65,10 @@ impl From<Error> for io::Error {
                 io::ErrorKind::InvalidInput,
                 "domain name label exceeds maximum label length",
             ),
+            Error::NameTooLong => io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "domain name exceeds maximum name length",
+            ),
             Error::Truncated => io::ErrorKind::OutOfMemory.into(),
         }
     }
diff --git a/src/name.rs b/src/name.rs
index 44bd73e..9977bcf 100644
--- a/src/name.rs
+++ b/src/name.rs
@@ -111,6 +111,18 @@ impl DomainName {
         s.parse()
     }
 
+    /// The maximum length of an encoded domain name in bytes, including the trailing empty label.
+    pub const MAX_LEN: usize = 255;
+
+    /// Returns an error if this domain name is too long to be used in a DNS message.
+    pub fn check_len(&self) -> Result<(), Error> {
+        let labels: usize = self.labels.iter().map(|l| 1 + l.bytes.len()).sum();
+        if labels + 1 > Self::MAX_LEN {
+            return Err(Error::NameTooLong);
+        }
+        Ok(())
+    }
+
     /// Returns the `.`-separated labels making up this domain name.
     ///
     /// The trailing empty label is not included.
diff --git a/src/resolver.rs b/src/resolver.rs
index 3626bd2..1d90703 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -116,6 +116,7 @@ impl SyncResolver {
         name: &DomainName,
     ) -> io::Result<impl Iterator<Item = IpAddr> + '_> {
         self.ip_buf.clear();
+        name.check_len()?;
 
         let mut send_buf = [0; MDNS_BUFFER_SIZE];
         let data = encode_query(&mut send_buf, name);
diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index a132a1a..ab6a99a 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -231,6 +231,8 @@ impl SyncDiscoverer {
         qtypes: &[QType],
         callback: &mut dyn FnMut(Record<'_>) -> ControlFlow<()>,
     ) -> io::Result<()> {
+        domain.check_len()?;
+
         let mut send_buf = [0; MDNS_BUFFER_SIZE];
         let data = encode_query(&mut send_buf, domain, qtypes);
 
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index 68f2c50..ac35901 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -112,6 +112,7 @@ impl AsyncResolver {
         name: &DomainName,
     ) -> io::Result<impl Iterator<Item = IpAddr> + '_> {
         self.ip_buf.clear();
+        name.check_len()?;
 
         let mut send_buf = [0; MDNS_BUFFER_SIZE];
         let data = encode_query(&mut send_buf, name);
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index 8e4e1a1..f1a0b19 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -234,6 +234,8 @@ impl AsyncDiscoverer {
         qtypes: &[QType],
         callback: &mut (dyn FnMut(Record<'_>) -> ControlFlow<()> + Send),
     ) -> io::Result<()> {
+        domain.check_len()?;
+
         let mut send_buf = [0; MDNS_BUFFER_SIZE];
         let data = encode_query(&mut send_buf, domain, qtypes);
 
-- 
2.43.0

