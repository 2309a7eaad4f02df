From 594a6eaebd4431ce225ee71e4b541a13ed941106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 01/18] fix: accept an empty byte string at the end of a
 bencode document

Reader::read_exact reported end-of-file for a zero-length read at the end
of the buffer, so "0:" (the encoding of an empty string) was rejected.
---
 bencode/src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bencode/src/reader.rs b/bencode/src/reader.rs
index 3d71786..2855e9a 100644
--- a/bencode/src/reader.rs
+++ b/bencode/src/reader.rs
@@ -53,7 +53,7 @@ impl<'a> Reader<'a> {
 
     pub fn read_exact(&mut self, len: usize) -> Result<&'a [u8]> {
         let end_index = self.curr_idx + len;
-        if self.curr_idx >= self.buf.len() || end_index > self.buf.len() {
+        if end_index > self.buf.len() {
             self.curr_idx = self.buf.len();
             return Err(Error::EOF);
         }
-- 
2.43.0


From 7cc8fceadd87a18f90c76e08fc66ffe2e7920794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 02/18] fix: combine the two digits of a byte when decoding
 hexadecimal

---
 common/src/hex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/hex.rs b/common/src/hex.rs
index cd72731..e76042b 100644
--- a/common/src/hex.rs
+++ b/common/src/hex.rs
@@ -30,7 +30,7 @@ pub fn from_hex(s: &[u8], out: &mut [u8]) -> Option<()> {
         }
         let t2 = hex_to_int(s[i])? & 0xf;
         i += 1;
-        out[j] = t1 & t2;
+        out[j] = t1 | t2;
         j += 1;
     }
     Some(())
-- 
2.43.0


From 4be721ebaa6268d2cf2133a88605b95f1348b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 03/18] fix: move only the remaining bytes when shifting a hash
 by whole bytes

---
 common/src/sha1.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/sha1.rs b/common/src/sha1.rs
index 911004c..64bb913 100644
--- a/common/src/sha1.rs
+++ b/common/src/sha1.rs
@@ -125,7 +125,7 @@ impl std::ops::ShlAssign<usize> for Sha1Hash {
                 std::ptr::copy(
                     self.data[shift_bytes..].as_mut_ptr(),
                     self.data.as_mut_ptr(),
-                    (SIZE - shift_bytes) * 8,
+                    SIZE - shift_bytes,
                 );
             }
             self.data[(SIZE - shift_bytes)..]
@@ -162,7 +162,7 @@ impl std::ops::ShrAssign<usize> for Sha1Hash {
                 std::ptr::copy(
                     self.data.as_mut_ptr(),
                     self.data[shift_bytes..].as_mut_ptr(),
-                    (SIZE - shift_bytes) * 8,
+                    SIZE - shift_bytes,
                 );
             }
             self.data[..shift_bytes].iter_mut().for_each(|v| *v = 0);
-- 
2.43.0


From 6e2dd565091388c518daecd196313c07191fb625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 04/18] hook: constructor for DHT key descriptions under
 cfg(vp_hooks)

---
 dht/src/msg.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dht/src/msg.rs b/dht/src/msg.rs
index eec7ab4..de1fc8d 100644
--- a/dht/src/msg.rs
+++ b/dht/src/msg.rs
@@ -15,6 +15,19 @@ pub struct KeyDesc<'a> {
     flags: Flags,
 }
 
+#[cfg(vp_hooks)]
+impl<'a> KeyDesc<'a> {
+    /// a required key, for verification harnesses
+    pub fn vp_new(name: &'a str) -> Self {
+        KeyDesc {
+            name,
+            kind: 0,
+            size: 0,
+            flags: Flags::empty(),
+        }
+    }
+}
+
 bitflags! {
     struct Flags: u8 {
         const OPTIONAL = 1;
-- 
2.43.0


From 2269452eed2c662515b19c32f89e17ad447720a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 05/18] fix: distance exponent of equal ids is 0 instead of an
 underflow

---
 dht/src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/node.rs b/dht/src/node.rs
index 6972fcc..ff1eb69 100644
--- a/dht/src/node.rs
+++ b/dht/src/node.rs
@@ -20,7 +20,7 @@ pub fn distance_exp(n1: &NodeId, n2: &NodeId) -> usize {
     // TODO: it's a little bit weird to return 159 - leading zeroes. It should
     // probably be 160 - leading zeroes, but all other code in here is tuned to
     // this expectation now, and it doesn't really matter (other than complexity)
-    cmp::max(159 - distance(n1, n2).leading_zeros(), 0)
+    159_usize.saturating_sub(distance(n1, n2).leading_zeros())
 }
 
 pub fn min_distance_exp(n1: &NodeId, ids: &[NodeId]) -> usize {
-- 
2.43.0


From c663d1e1aec10dc5865e91e470b02aa65fb1b4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 06/18] fix: compare the importance of items without unsigned
 underflow

---
 dht/src/storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 48371dc..00b1836 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -526,8 +526,9 @@ fn pick_least_imp<'a, T: ImmutableItem>(
         let dist_1 = crate::node::min_distance_exp(node_1, node_ids);
         let dist_2 = crate::node::min_distance_exp(node_2, node_ids);
 
-        let n1 = t1.num_announcers() / 5 - dist_1;
-        let n2 = t2.num_announcers() / 5 - dist_2;
+        // the distance usually exceeds the number of announcers
+        let n1 = (t1.num_announcers() / 5) as isize - dist_1 as isize;
+        let n2 = (t2.num_announcers() / 5) as isize - dist_2 as isize;
         n1.cmp(&n2)
     })
 }
-- 
2.43.0


From 7bf31d48742e4bd18b7d0435a2a1150c05deee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 07/18] fix: do not track one torrent more than max_torrents

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 00b1836..8c48775 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -343,7 +343,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         let v = if let Some(v) = self.map.get_mut(info_hash) {
             v
         } else {
-            if self.map.len() > self.settings.max_torrents {
+            if self.map.len() >= self.settings.max_torrents {
                 // we're at capacity, drop the announce
                 return;
             }
-- 
2.43.0


From b9c734e1f284a986e0f451ec6101155e6450eb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 08/18] fix: create the list of peers in the reply instead of
 panicking when it is missing

---
 dht/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 8c48775..45e669a 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -288,8 +288,8 @@ impl DhtStorage for DefaultDhtStorage<'_> {
             }
 
             let pe = peer_map
-                .get_mut("values")
-                .unwrap()
+                .entry(String::from("values"))
+                .or_insert_with(|| Value::with_list(vec![]))
                 .as_list_mut()
                 .ok_or_else(|| bencode::Error::ParseList)?;
 
-- 
2.43.0


From 3b68a14756c0909054f6f0b146b3c28fc9e5598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 09/18] fix: let the last candidates be picked for a peer
 lookup reply

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 45e669a..b1b496d 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -305,7 +305,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
 
                 assert!(candidates >= to_pick);
                 candidates -= 1;
-                if random::random_usize(candidates + 1) > to_pick {
+                if random::random_usize(candidates + 1) >= to_pick {
                     continue;
                 }
 
-- 
2.43.0


From 7a23fc094ee9c020d0dbea51f83f523e2f7e7b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 10/18] fix: lower_bound stops at the first element that is not
 smaller

---
 dht/src/detail.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/detail.rs b/dht/src/detail.rs
index 87502f6..afd0a82 100644
--- a/dht/src/detail.rs
+++ b/dht/src/detail.rs
@@ -52,7 +52,7 @@ pub fn read_v6_socket_address<R: io::Read>(reader: &mut R) -> io::Result<SocketA
 pub fn lower_bound<T: PartialOrd>(values: &[T], value_to_check: &T) -> usize {
     let mut i = 0;
     for v in values {
-        if value_to_check > v {
+        if !(v < value_to_check) {
             break;
         }
         i += 1;
-- 
2.43.0


From 5c42dcbdf6cdf0d180affa2ea40283480f24f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 11/18] fix: keep the default of a DHT setting that is not
 stored as an integer

---
 dht/src/settings.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dht/src/settings.rs b/dht/src/settings.rs
index dba05c0..f145d5e 100644
--- a/dht/src/settings.rs
+++ b/dht/src/settings.rs
@@ -36,16 +36,16 @@ pub struct Settings {
 
 macro_rules! read_int {
     ($settings: expr, $dict: expr, $key: ident) => {
-        if let Some(value) = $dict.get(stringify!($key)) {
-            $settings.$key = value.as_int().unwrap() as usize;
+        if let Some(value) = $dict.get(stringify!($key)).and_then(|v| v.as_int()) {
+            $settings.$key = value as usize;
         }
     };
 }
 
 macro_rules! read_bool {
     ($settings: expr, $dict: expr, $key: ident) => {
-        if let Some(value) = $dict.get(stringify!($key)) {
-            $settings.$key = value.as_int().unwrap() != 0;
+        if let Some(value) = $dict.get(stringify!($key)).and_then(|v| v.as_int()) {
+            $settings.$key = value != 0;
         }
     };
 }
-- 
2.43.0


From 7b8d867739b1a3712a0544b7a2e000652f13a67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 12/18] fix: save and read all DHT settings

---
 dht/src/settings.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dht/src/settings.rs b/dht/src/settings.rs
index f145d5e..797d7f2 100644
--- a/dht/src/settings.rs
+++ b/dht/src/settings.rs
@@ -110,6 +110,9 @@ impl DhtSettings {
         set_int!(dict, block_timeout, self);
         set_int!(dict, block_ratelimit, self);
         set_int!(dict, item_lifetime, self);
+        set_int!(dict, upload_rate_limit, self);
+        set_int!(dict, sample_infohashes_interval, self);
+        set_int!(dict, max_infohashes_sample_count, self);
 
         set_bool!(dict, restrict_routing_ips, self);
         set_bool!(dict, restrict_search_ips, self);
@@ -141,6 +144,9 @@ impl DhtSettings {
         read_int!(settings, dict, block_timeout);
         read_int!(settings, dict, block_ratelimit);
         read_int!(settings, dict, item_lifetime);
+        read_int!(settings, dict, upload_rate_limit);
+        read_int!(settings, dict, sample_infohashes_interval);
+        read_int!(settings, dict, max_infohashes_sample_count);
 
         read_bool!(settings, dict, restrict_routing_ips);
         read_bool!(settings, dict, restrict_search_ips);
-- 
2.43.0


From 94be1e00609ce86880e08cc430e204dd44840a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 13/18] hook: expose crate-private parsers of torrent-rs under
 cfg(vp_hooks)

---
 src/lib.rs     | 11 +++++++++++
 src/torrent.rs | 30 ++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0a9c04e..8aa112e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,3 +11,14 @@ mod params;
 mod status;
 mod str_utl;
 mod torrent;
+
+/// Crate-private items for the verification harnesses.
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    pub use crate::download_priority::DownloadPriority;
+    pub use crate::error::Error;
+    pub use crate::magnet_uri::parse_magnet_uri;
+    pub use crate::params::TorrentParams;
+    pub use crate::str_utl::*;
+    pub use crate::torrent::Torrent;
+}
diff --git a/src/torrent.rs b/src/torrent.rs
index 2e948b0..d1838c3 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -86,6 +86,36 @@ impl Torrent {
     }
 }
 
+#[cfg(vp_hooks)]
+impl Torrent {
+    pub fn vp_parse(bytes: &[u8]) -> Option<Self> {
+        Self::parse(bytes)
+    }
+
+    pub fn vp_announce(&self) -> &Url {
+        &self.announce_url
+    }
+
+    pub fn vp_name(&self) -> Option<&str> {
+        self.name.as_deref()
+    }
+
+    pub fn vp_pieces(&self) -> (usize, &[u8]) {
+        (self.piece_len, &self.pieces)
+    }
+
+    pub fn vp_is_dir(&self) -> bool {
+        matches!(self.kind, TorrentKind::Directory(_))
+    }
+
+    pub fn vp_files(&self) -> Vec<(&std::path::Path, usize)> {
+        match &self.kind {
+            TorrentKind::File(f) => vec![(f.path.as_path(), f.len)],
+            TorrentKind::Directory(d) => d.iter().map(|f| (f.path.as_path(), f.len)).collect(),
+        }
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 1f952e99ea508c71e193216d442d721fe42da321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 14/18] fix: count the digits of a base32 group up to its first
 padding character

---
 src/str_utl.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/str_utl.rs b/src/str_utl.rs
index 51f462b..2d97e5b 100644
--- a/src/str_utl.rs
+++ b/src/str_utl.rs
@@ -140,7 +140,7 @@ pub fn trim(mut s: &[u8]) -> &[u8] {
     s
 }
 
-const INPUT_OUTPUT_MAPPING: [usize; 9] = [5, 1, 1, 2, 2, 3, 4, 4, 5];
+const INPUT_OUTPUT_MAPPING: [usize; 9] = [0, 1, 1, 2, 2, 3, 4, 4, 5];
 
 pub fn base32_decode(s: &[u8]) -> Vec<u8> {
     let mut in_buf = [0u8; 8];
@@ -151,10 +151,7 @@ pub fn base32_decode(s: &[u8]) -> Vec<u8> {
     let mut i = 0;
     while i < s.len() {
         let available = in_buf.len().min(s.len() - i);
-        let mut pad_start = 0;
-        if available < 8 {
-            pad_start = available;
-        }
+        let mut pad_start = available;
 
         in_buf.iter_mut().for_each(|c| *c = 0);
         for j in 0..available {
@@ -164,9 +161,7 @@ pub fn base32_decode(s: &[u8]) -> Vec<u8> {
                 b'A'..=b'Z' => c - b'A',
                 b'2'..=b'7' => c - b'2' + (b'Z' - b'A') + 1,
                 b'=' => {
-                    if pad_start == 0 {
-                        pad_start = j;
-                    }
+                    pad_start = pad_start.min(j);
                     0
                 }
                 b'1' => b'I' - b'A',
-- 
2.43.0


From 586ea2ed455b7a54340df58620fa2bd302b0530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 15/18] fix: report an invalid hexadecimal info-hash instead of
 panicking

---
 src/magnet_uri.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/magnet_uri.rs b/src/magnet_uri.rs
index cb48cbb..bccfe75 100644
--- a/src/magnet_uri.rs
+++ b/src/magnet_uri.rs
@@ -64,7 +64,8 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                 let mut s = Sha1Hash::new();
                 match value.len() {
                     40 => {
-                        hex::from_hex(value.as_bytes(), &mut s).unwrap();
+                        hex::from_hex(value.as_bytes(), &mut s)
+                            .ok_or(Error::InvalidInfoHash)?;
                     }
                     32 => {
                         let ih = str_utl::base32_decode(value.as_bytes());
-- 
2.43.0


From 55e73c31addd9a2fe94bd751017d0bad3f58b6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 16/18] fix: go on after an invalid element of a file selection
 instead of looping forever

---
 src/magnet_uri.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/magnet_uri.rs b/src/magnet_uri.rs
index bccfe75..1ae1f1a 100644
--- a/src/magnet_uri.rs
+++ b/src/magnet_uri.rs
@@ -91,6 +91,7 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                 let mut value = value.as_bytes();
                 while !value.is_empty() {
                     let (token, rest) = str_utl::split_string(value, b',');
+                    value = rest;
                     if token.is_empty() {
                         continue;
                     }
@@ -147,8 +148,6 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                     for i in idx1..=idx2 {
                         p.file_priorities[i as usize] = DownloadPriority::DefaultPriority;
                     }
-
-                    value = rest;
                 }
             }
             "x.pe" => {
-- 
2.43.0


From e556b631702b5a542739a7987050498119285ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 17/18] fix: reject negative lengths in torrent metadata

---
 src/torrent.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/torrent.rs b/src/torrent.rs
index d1838c3..a492e26 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -1,3 +1,4 @@
+use std::convert::TryFrom;
 use std::path::PathBuf;
 use url::Url;
 
@@ -40,7 +41,7 @@ impl Torrent {
         let announce_url = dict.get("announce")?.as_str()?;
         let info = dict.get("info")?.as_dict()?;
         let name = info.get("name")?.as_str()?;
-        let piece_len = info.get("piece length")?.as_int()? as usize;
+        let piece_len = usize::try_from(info.get("piece length")?.as_int()?).ok()?;
         let pieces = info.get("pieces")?.as_bytes()?;
         if pieces.len() % 20 != 0 {
             return None;
@@ -53,7 +54,7 @@ impl Torrent {
                 // Can't have `files` key at the same time
                 return None;
             }
-            let len = len.as_int()? as usize;
+            let len = usize::try_from(len.as_int()?).ok()?;
             kind = TorrentKind::File(TorrentFile {
                 path: name.into(),
                 len,
@@ -64,7 +65,7 @@ impl Torrent {
             let mut dir = vec![];
             for file in files.as_list()? {
                 let file = file.as_dict()?;
-                let len = file.get("length")?.as_int()? as usize;
+                let len = usize::try_from(file.get("length")?.as_int()?).ok()?;
                 let mut path = PathBuf::new();
                 for segment in file.get("path")?.as_list()? {
                     path.push(segment.as_str()?);
-- 
2.43.0


From e751098e4a3eb524dde815532722e2de319fbfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 18/18] fix: reject torrent file paths that leave the download
 directory

---
 src/torrent.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/torrent.rs b/src/torrent.rs
index a492e26..726b03a 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -1,5 +1,5 @@
 use std::convert::TryFrom;
-use std::path::PathBuf;
+use std::path::{Component, Path, PathBuf};
 use url::Url;
 
 #[derive(Debug)]
@@ -33,6 +33,11 @@ pub struct TorrentFile {
     len: usize,
 }
 
+/// Whether a path from the metadata cannot leave the download directory.
+fn stays_inside(path: &Path) -> bool {
+    path.components().all(|c| matches!(c, Component::Normal(_)))
+}
+
 impl Torrent {
     fn parse(bytes: &[u8]) -> Option<Self> {
         let parsed = bencode::ValueRef::decode(bytes).ok()?;
@@ -55,10 +60,11 @@ impl Torrent {
                 return None;
             }
             let len = usize::try_from(len.as_int()?).ok()?;
-            kind = TorrentKind::File(TorrentFile {
-                path: name.into(),
-                len,
-            });
+            let path = PathBuf::from(name);
+            if !stays_inside(&path) {
+                return None;
+            }
+            kind = TorrentKind::File(TorrentFile { path, len });
         }
         // Directory torrent
         else if let Some(files) = info.get("files") {
@@ -70,6 +76,9 @@ impl Torrent {
                 for segment in file.get("path")?.as_list()? {
                     path.push(segment.as_str()?);
                 }
+                if !stays_inside(&path) {
+                    return None;
+                }
                 dir.push(TorrentFile { path, len });
             }
             kind = TorrentKind::Directory(dir);
-- 
2.43.0

