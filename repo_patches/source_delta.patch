From 844968304d8c968deded1158e28b805bb0321a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 01/33] sim hook: re-export internals under the posy_sim
 feature (off by default)

---
 src/main.rs                | 20 ++++++++++++++++++++
 src/package_db/http/mod.rs |  9 +++++++++
 src/package_db/mod.rs      |  7 +++++++
 3 files changed, 36 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 65ffa5d..c35a407 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -16,6 +16,26 @@ mod test_util;
 mod trampolines;
 mod tree;
 
+// Deterministic-simulation hook: posy has no library target, so a simulator that wants to
+// drive its parts needs a public path to them. Off by default; adds no code.
+#[cfg(feature = "posy_sim")]
+#[doc(hidden)]
+pub mod sim_api {
+    pub use crate::env::{Env, EnvForest};
+    pub use crate::error::PosyError;
+    pub use crate::kvstore::{KVDirLock, KVDirStore, KVFileLock, KVFileStore, PathKey};
+    pub use crate::package_db::sim_api::*;
+    pub use crate::package_db::{ArtifactInfo, PackageDB, WheelBuilder};
+    pub use crate::platform_tags::{Platform, PybiPlatform, WheelPlatform};
+    pub use crate::prelude::{ReadPlusSeek, PROJECT_DIRS};
+    pub use crate::resolve::{
+        AllowPre, Blueprint, Brief, PinnedPackage, WheelResolveMetadata,
+    };
+    pub use crate::trampolines::{FindPython, ScriptPlatform, TrampolineMaker};
+    pub use crate::tree::{NicePathBuf, WriteTree, WriteTreeFS};
+    pub use crate::vocab::*;
+}
+
 use std::path::Path;
 
 use crate::{env::EnvForest, prelude::*, resolve::Brief};
diff --git a/src/package_db/http/mod.rs b/src/package_db/http/mod.rs
index bb19c17..f0f09f7 100644
--- a/src/package_db/http/mod.rs
+++ b/src/package_db/http/mod.rs
@@ -5,3 +5,12 @@ pub mod user_agent;
 
 pub use self::http::{CacheMode, Http, HttpInner, NotCached};
 pub use self::lazy_remote_file::LazyRemoteFile;
+
+#[cfg(feature = "posy_sim")]
+#[doc(hidden)]
+pub mod sim_api {
+    pub use super::http::{
+        CacheMode, CacheStatus, Http, HttpInner, NotCached, ReadPlusMaybeSeek,
+    };
+    pub use super::lazy_remote_file::LazyRemoteFile;
+}
diff --git a/src/package_db/mod.rs b/src/package_db/mod.rs
index 462e3ee..9d2a9c7 100644
--- a/src/package_db/mod.rs
+++ b/src/package_db/mod.rs
@@ -6,3 +6,10 @@ mod simple_api;
 pub use build_wheel::WheelBuilder;
 pub use package_db::PackageDB;
 pub use simple_api::ArtifactInfo;
+
+#[cfg(feature = "posy_sim")]
+#[doc(hidden)]
+pub mod sim_api {
+    pub use super::http::sim_api::*;
+    pub use super::simple_api::{fetch_simple_api, ProjectInfo};
+}
-- 
2.43.0


From 6e17dd2b15e689f547526590843e319c42f4cc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:19 +0000
Subject: [PATCH 02/33] fix: don't leak the temporary directory when publishing
 a directory-store entry fails

KVDirStore::get_or_set turned its TempDir into a plain path before renaming it
into place, so a failing rename left the half-installed tree in tmp/ forever.
---
 src/kvstore.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kvstore.rs b/src/kvstore.rs
index 21b1c89..5476bf1 100644
--- a/src/kvstore.rs
+++ b/src/kvstore.rs
@@ -362,7 +362,10 @@ impl KVDirStore {
         if !lock.exists() {
             let tmp = lock.tempdir()?;
             f(tmp.as_ref())?;
-            fs::rename(tmp.into_path(), &*lock)?;
+            // if the rename fails, dropping 'tmp' cleans up; once it has succeeded there's
+            // nothing left to clean up, so disarm the TempDir
+            fs::rename(tmp.path(), &*lock)?;
+            let _ = tmp.into_path();
         }
         Ok(lock.path)
     }
-- 
2.43.0


From 2347b705cafa999e3fd93c340ec95b3c4cbc001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 03/33] fix: allow seeking to the end of a SeekSlice

Rewinding an empty slice is such a seek, so a cached HTTP response with an empty body
could be stored but never read again.
---
 src/seek_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seek_slice.rs b/src/seek_slice.rs
index 9ba8bd2..f029a1d 100644
--- a/src/seek_slice.rs
+++ b/src/seek_slice.rs
@@ -42,7 +42,7 @@ impl<T: Seek> Seek for SeekSlice<T> {
         };
         match maybe_goal_idx {
             Some(goal_idx) => {
-                if goal_idx < self.start || goal_idx >= self.end {
+                if goal_idx < self.start || goal_idx > self.end {
                     Err(io::Error::new(
                         io::ErrorKind::InvalidInput,
                         "invalid seek to a negative or overflowing position",
-- 
2.43.0


From 9bfb77bcb73771a8b95b7288d492fed7f4b659a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 04/33] fix: removing an absent cache entry is not an error

A response that must not be stored made the request fail with ENOENT when nothing was
cached for it yet, although the response itself was fine.
---
 src/kvstore.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kvstore.rs b/src/kvstore.rs
index 5476bf1..4207431 100644
--- a/src/kvstore.rs
+++ b/src/kvstore.rs
@@ -262,8 +262,11 @@ impl KVFileLock {
     // file we got matches the one on disk before returning? might be necessary for any
     // kind of GC anyway)
     pub fn remove(self) -> Result<()> {
-        fs::remove_file(self.path)?;
-        Ok(())
+        match fs::remove_file(self.path) {
+            // there was no entry to remove
+            Err(err) if err.kind() == std::io::ErrorKind::NotFound => Ok(()),
+            result => Ok(result?),
+        }
     }
 }
 
-- 
2.43.0


From 5b57d7b8e2c9fedd2536ed974c839608cde20237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 05/33] fix: hand out spooled response bodies positioned at
 their start

force_seek left the temporary file positioned at its end, so a caller that reads
sequentially saw an empty body.
---
 src/package_db/http/http.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index 697c56a..2d2a468 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -65,6 +65,7 @@ impl ReadPlusMaybeSeek {
             ReadPlusMaybeSeek::CannotSeek(mut inner) => {
                 let mut tmp = tempfile::tempfile()?;
                 std::io::copy(&mut inner, &mut tmp)?;
+                tmp.rewind()?;
                 Box::new(tmp)
             }
         })
-- 
2.43.0


From 523e5e735f7143faa9467ff56f2abbcc2f5e3ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 06/33] fix: when a 304 doesn't match the cached response,
 fetch the resource again

Such a reply (e.g. from a proxy that renames ETags) was passed to the caller as a
response with status 304 and an empty body, so an index page appeared to list nothing.
---
 src/package_db/http/http.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index 2d2a468..4a0a0f5 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -262,10 +262,10 @@ impl HttpInner {
                         if cache_mode == CacheMode::OnlyIfCached {
                             return Err(NotCached {}.into());
                         }
-                        let request = http::Request::from_parts(new_parts, ());
-                        let response = do_request_ureq(&self.agent, &request)?;
+                        let conditional = http::Request::from_parts(new_parts, ());
+                        let response = do_request_ureq(&self.agent, &conditional)?;
                         match old_policy.after_response(
-                            &request,
+                            &conditional,
                             &response,
                             SystemTime::now(),
                         ) {
@@ -277,6 +277,25 @@ impl HttpInner {
                                     CacheStatus::StaleButValidated,
                                 ))
                             }
+                            AfterResponse::Modified(..)
+                                if response.status()
+                                    == http::StatusCode::NOT_MODIFIED =>
+                            {
+                                // The server confirmed something other than what we
+                                // have, so there's no body to go with this. Ask again,
+                                // unconditionally.
+                                drop(old_body);
+                                let response = do_request_ureq(&self.agent, request)?;
+                                let new_policy = CachePolicy::new(request, &response);
+                                let (new_parts, body) = response.into_parts();
+                                handle_new(
+                                    new_policy,
+                                    new_parts,
+                                    body,
+                                    CacheStatus::StaleAndChanged,
+                                    lock,
+                                )
+                            }
                             AfterResponse::Modified(new_policy, new_parts) => {
                                 drop(old_body);
                                 handle_new(
-- 
2.43.0


From 53d1cd67ac1ddd6efdd452e878615a79a1c3e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 07/33] fix: detect truncated bodies on connections marked for
 closing

ureq ignores Content-Length when the reply says "Connection: close", so a transfer
that was cut short passed for a complete one, and was stored in the cache.
---
 src/package_db/http/ureq_glue.rs | 34 +++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/package_db/http/ureq_glue.rs b/src/package_db/http/ureq_glue.rs
index ac9df33..d7b2454 100644
--- a/src/package_db/http/ureq_glue.rs
+++ b/src/package_db/http/ureq_glue.rs
@@ -62,6 +62,25 @@ fn call_with_retry(
     }
 }
 
+struct CheckLength<R> {
+    inner: R,
+    missing: u64,
+}
+
+impl<R: Read> Read for CheckLength<R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        let amount = self.inner.read(buf)?;
+        if amount == 0 && !buf.is_empty() && self.missing > 0 {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                "response body closed before all bytes were read",
+            ));
+        }
+        self.missing = self.missing.saturating_sub(amount as u64);
+        Ok(amount)
+    }
+}
+
 pub fn do_request_ureq(
     agent: &Agent,
     req: &http::Request<()>,
@@ -72,11 +91,24 @@ pub fn do_request_ureq(
         ureq_req = ureq_req.set(name.as_str(), std::str::from_utf8(value.as_bytes())?);
     }
     let ureq_response = call_with_retry(ureq_req).or_any_status()?;
+    // A body that ends before its declared length was cut short. ureq notices this itself,
+    // except if the server also said "Connection: close". (It drops Content-Length when
+    // it decompresses the body.)
+    let has_body = req.method() != http::Method::HEAD
+        && ![204, 304].contains(&ureq_response.status())
+        && ureq_response.header("Transfer-Encoding").is_none();
+    let missing = match ureq_response.header("Content-Length") {
+        Some(len) if has_body => len.parse::<u64>().unwrap_or(0),
+        _ => 0,
+    };
     let mut response = http::Response::builder().status(ureq_response.status());
     for name in ureq_response.headers_names() {
         for value in ureq_response.all(&name) {
             response = response.header(&name, value);
         }
     }
-    Ok(response.body(ureq_response.into_reader())?)
+    Ok(response.body(CheckLength {
+        inner: ureq_response.into_reader(),
+        missing,
+    })?)
 }
-- 
2.43.0


From 1210e67ba4b7582203eb8f5410712aee45181c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 08/33] fix: reject hashes that can't become cache file names

An index page with a link like "#sha256=" made posy panic, and one like
"#../../x=0123" made it create lock files outside its cache.
---
 src/vocab/artifact_hash.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/vocab/artifact_hash.rs b/src/vocab/artifact_hash.rs
index f8b1c79..2676e67 100644
--- a/src/vocab/artifact_hash.rs
+++ b/src/vocab/artifact_hash.rs
@@ -8,9 +8,19 @@ pub struct ArtifactHash {
 
 impl ArtifactHash {
     pub fn from_hex(mode: &str, hex: &str) -> Result<ArtifactHash> {
+        let raw_data = data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())?;
+        // Hashes come from index pages, and become file names in our caches, so make sure
+        // that this looks like one.
+        let is_name_char = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-';
+        if mode.is_empty() || !mode.chars().all(is_name_char) {
+            bail!("invalid hash algorithm name {:?}", mode);
+        }
+        if raw_data.len() < 16 {
+            bail!("hash digest {:?} is too short", hex);
+        }
         Ok(ArtifactHash {
             mode: mode.into(),
-            raw_data: data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())?,
+            raw_data,
         })
     }
 
-- 
2.43.0


From 2c89a64a6ec39cc93ceaeb5848d5bf0d9c22b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 09/33] fix: check the hash of a pinned download that bypasses
 the cache too

---
 src/package_db/http/http.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index 4a0a0f5..d3df58f 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -376,7 +376,16 @@ impl HttpInner {
             (Some(hash), CacheMode::OnlyIfCached) => {
                 self.hash_cache.get(&hash).ok_or_else(|| NotCached.into())
             }
-            (_, CacheMode::NoStore) | (None, _) => Ok(self
+            (Some(hash), CacheMode::NoStore) => {
+                let mut tmp = tempfile::tempfile()?;
+                let mut body = self.request(request, cache_mode)?.into_body();
+                let mut checker = hash.checker(&mut tmp)?;
+                std::io::copy(&mut body, &mut checker)?;
+                checker.finish()?;
+                tmp.rewind()?;
+                Ok(Box::new(tmp))
+            }
+            (None, _) => Ok(self
                 .request(request, cache_mode)?
                 .into_body()
                 .force_seek()?),
-- 
2.43.0


From c67a08b18b4691d85751befecaf9eb6a893dc015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 10/33] fix: don't trust servers to send the byte range we
 asked for

A short answer made us panic with 'entered unreachable code', a longer or misplaced one
corrupted the map of loaded ranges, and a file replaced between two range requests was
read as a mixture of both versions.
---
 src/package_db/http/lazy_remote_file.rs | 38 +++++++++++++++++++++----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/package_db/http/lazy_remote_file.rs b/src/package_db/http/lazy_remote_file.rs
index dab8655..b6a86e0 100644
--- a/src/package_db/http/lazy_remote_file.rs
+++ b/src/package_db/http/lazy_remote_file.rs
@@ -13,6 +13,8 @@ pub struct LazyRemoteFile {
     http: Rc<HttpInner>,
     url: Url,
     loaded: BTreeMap<u64, Vec<u8>>,
+    // of the responses that 'loaded' came from
+    etag: Option<Option<http::HeaderValue>>,
     length: u64,
     seek_pos: u64,
 }
@@ -69,6 +71,15 @@ fn fetch_range(
     url: &Url,
     range_header: &str,
 ) -> Result<RangeResponse> {
+    Ok(fetch_range_and_etag(http, method, url, range_header)?.0)
+}
+
+fn fetch_range_and_etag(
+    http: &HttpInner,
+    method: &str,
+    url: &Url,
+    range_header: &str,
+) -> Result<(RangeResponse, Option<http::HeaderValue>)> {
     context!("Attempting range read on {url}");
     // The full syntax has a bunch of possibilities that this doesn't account for:
     //   https://datatracker.ietf.org/doc/html/rfc7233#section-4.2
@@ -90,7 +101,8 @@ fn fetch_range(
         Ok(std::str::from_utf8(c.get(g).unwrap().as_bytes())?)
     }
 
-    Ok(match response.status().as_u16() {
+    let etag = response.headers().get("ETag").cloned();
+    let range_response = match response.status().as_u16() {
         // 206 Partial Content
         206 => {
             match response.headers().get("Content-Range") {
@@ -131,24 +143,37 @@ fn fetch_range(
         // data
         200 => RangeResponse::Complete(Box::new(response.into_body())),
         status => bail!("expected 200 or 206 HTTP response, not {}", status),
-    })
+    };
+    Ok((range_response, etag))
 }
 
 impl LazyRemoteFile {
     fn load_range(&mut self, offset: u64, length: u64) -> Result<()> {
-        match fetch_range(
+        let (range_response, etag) = fetch_range_and_etag(
             &self.http,
             "GET",
             &self.url,
             &format!("bytes={}-{}", offset, offset.saturating_add(length) - 1),
-        )? {
+        )?;
+        match range_response {
             RangeResponse::NotSatisfiable { .. } => {
                 bail!("Server didn't like my range request and I don't know why");
             }
             RangeResponse::Partial {
-                offset, mut data, ..
+                offset: actual_offset,
+                total_len,
+                mut data,
             } => {
-                self.loaded.insert(offset, slurp(&mut data)?);
+                if total_len != self.length
+                    || *self.etag.get_or_insert_with(|| etag.clone()) != etag
+                {
+                    bail!("remote file changed while we were reading it");
+                }
+                let data = slurp(&mut data)?;
+                if actual_offset != offset || data.len() as u64 != length {
+                    bail!("server didn't send the range I asked for");
+                }
+                self.loaded.insert(offset, data);
                 Ok(())
             }
             RangeResponse::Complete(_) => {
@@ -260,6 +285,7 @@ impl LazyRemoteFile {
             http,
             url: url.clone(),
             loaded: BTreeMap::new(),
+            etag: None,
             length,
             seek_pos: 0,
         })
-- 
2.43.0


From d74c1c8e5852a52a8799533606f37d356e476bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 11/33] fix: don't hand out an error page as the content of an
 unhashed download

---
 src/package_db/http/http.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index d3df58f..f577328 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -385,10 +385,17 @@ impl HttpInner {
                 tmp.rewind()?;
                 Ok(Box::new(tmp))
             }
-            (None, _) => Ok(self
-                .request(request, cache_mode)?
-                .into_body()
-                .force_seek()?),
+            (None, _) => {
+                let response = self.request(request, cache_mode)?;
+                if !response.status().is_success() {
+                    // don't mistake an error page for the file
+                    if cache_mode == CacheMode::OnlyIfCached {
+                        return Err(NotCached.into());
+                    }
+                    bail!("error fetching {url}: {}", response.status());
+                }
+                Ok(response.into_body().force_seek()?)
+            }
         }
     }
 }
-- 
2.43.0


From 4b484ed0f5910c9326ef50ebc3fcfd3f80efe3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:59 +0000
Subject: [PATCH 12/33] fix: keep the executable bit of files installed from
 wheels

---
 src/vocab/artifact_formats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vocab/artifact_formats.rs b/src/vocab/artifact_formats.rs
index 3af87a6..cadbf75 100644
--- a/src/vocab/artifact_formats.rs
+++ b/src/vocab/artifact_formats.rs
@@ -561,7 +561,7 @@ where
         &mut self,
         path: &NicePathBuf,
         mut data: &mut dyn Read,
-        _executable: bool,
+        executable: bool,
     ) -> Result<()> {
         if let Some((fixed_path, is_script)) = self.analyze_path(path)? {
             if is_script {
@@ -591,7 +591,7 @@ where
                     self.dest.write_file(&fixed_path, &mut bufread, true)?;
                 }
             } else {
-                self.dest.write_file(&fixed_path, data, false)?;
+                self.dest.write_file(&fixed_path, data, executable)?;
             }
         }
         Ok(())
-- 
2.43.0


From d2eff93679b772fb6df8afd4424cc69fb50f3281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:59 +0000
Subject: [PATCH 13/33] fix: unpack sparse files in sdists instead of silently
 leaving them out

---
 src/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index 7d6a689..439fb7a 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -334,7 +334,7 @@ pub fn unpack_tar_gz_carefully<T: Read + Seek, W: WriteTree>(
                 bail!("sdist entry {} has unsupported type {:?}", path, kind)
             }
             Directory => dest.mkdir(&path)?,
-            GNULongName | GNULongLink | GNUSparse | XGlobalHeader | XHeader => (),
+            GNULongName | GNULongLink | XGlobalHeader | XHeader => (),
             _ => {
                 dest.write_file(&path, &mut entry, is_executable)?;
             }
-- 
2.43.0


From 395739068e04f9a52d8ec0e400572eb980c0d6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 14/33] fix: recognise '#!python' scripts even if the first
 read returns only a few bytes

---
 src/vocab/artifact_formats.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/vocab/artifact_formats.rs b/src/vocab/artifact_formats.rs
index cadbf75..ccd740a 100644
--- a/src/vocab/artifact_formats.rs
+++ b/src/vocab/artifact_formats.rs
@@ -560,7 +560,7 @@ where
     fn write_file(
         &mut self,
         path: &NicePathBuf,
-        mut data: &mut dyn Read,
+        data: &mut dyn Read,
         executable: bool,
     ) -> Result<()> {
         if let Some((fixed_path, is_script)) = self.analyze_path(path)? {
@@ -568,9 +568,12 @@ where
                 // use BufReader to "peek" into the start of the executable. Some wheels
                 // contain large compiled binaries as "scripts", so it's nicer not to
                 // load the whole thing into memory until we know what we're dealing
-                // with.
-                let mut bufread = BufReader::new(&mut data);
-                let script_start = bufread.fill_buf()?;
+                // with. (A single fill_buf() isn't enough: it can return fewer bytes
+                // than we need to see.)
+                let mut script_start = Vec::new();
+                data.take(b"#!pythonw".len() as u64)
+                    .read_to_end(&mut script_start)?;
+                let mut bufread = BufReader::new(script_start.as_slice().chain(data));
                 if script_start.starts_with(b"#!python") {
                     // it's some kind of script, but which kind?
                     let script_type = if script_start.starts_with(b"#!pythonw") {
-- 
2.43.0


From 4e455588c8d549cfcdc7ea059b6d1498d8f44b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 15/33] fix: don't silently skip a wheel's entry points when
 entry_points.txt can't be read

---
 src/vocab/artifact_formats.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vocab/artifact_formats.rs b/src/vocab/artifact_formats.rs
index ccd740a..b880b34 100644
--- a/src/vocab/artifact_formats.rs
+++ b/src/vocab/artifact_formats.rs
@@ -473,10 +473,11 @@ impl Wheel {
             false,
         )?;
 
-        if let Ok(entry_points) = slurp_from_zip(
-            &mut z,
-            format!("{}/{}", vitals.dist_info, "entry_points.txt").as_str(),
-        ) {
+        // it's fine if there's no entry_points.txt, but not if there is one and we can't
+        // read it
+        let entry_points_path = format!("{}/{}", vitals.dist_info, "entry_points.txt");
+        if z.file_names().any(|n| n == entry_points_path) {
+            let entry_points = slurp_from_zip(&mut z, &entry_points_path)?;
             let entry_points = parse_entry_points(std::str::from_utf8(&entry_points)?)?;
 
             let mut write_scripts = |name, script_type| -> Result<()> {
-- 
2.43.0


From 639ddf5d6e2e6924db7a992246493de700250fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:45 +0000
Subject: [PATCH 16/33] fix: notice corruption of an sdist that only the gzip
 checksum reveals

---
 src/tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree.rs b/src/tree.rs
index 439fb7a..f140ff7 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -340,6 +340,9 @@ pub fn unpack_tar_gz_carefully<T: Read + Seek, W: WriteTree>(
             }
         }
     }
+    // The gzip checksum comes after the data, and the tar reader stops as soon as it sees
+    // the end-of-archive marker. So to notice corruption, we have to read to the end.
+    io::copy(&mut archive.into_inner(), &mut io::sink())?;
     Ok(())
 }
 
-- 
2.43.0


From c416125763672305075dbec7edbc377dc11d32b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:14 +0000
Subject: [PATCH 17/33] fix: honour every requirement when a package is
 required more than once

Later constraints on a dependency used to replace earlier ones, so an
environment could violate a requirement it was resolved for.
---
 src/resolve.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 60f687e..e07da1b 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -742,13 +742,27 @@ impl<'a> PubgrubState<'a> {
                 let pkg = ResPkg::Package(req.name.clone(), maybe_extra);
                 let range = specifiers_to_pubgrub(&req.specifiers)?;
                 trace!("adding dependency: {} {}", pkg, range);
-                dc.insert(pkg, range);
+                add_constraint(dc, pkg, range);
             }
         }
         Ok(())
     }
 }
 
+// The same package can be mentioned by several requirements (e.g. with different
+// markers, or by an extra that refers back to its own package); all of them have to hold.
+fn add_constraint(
+    dc: &mut DependencyConstraints<ResPkg, Version>,
+    pkg: ResPkg,
+    range: Range<Version>,
+) {
+    let range = match dc.get(&pkg) {
+        Some(existing) => existing.intersection(&range),
+        None => range,
+    };
+    dc.insert(pkg, range);
+}
+
 fn specifiers_to_pubgrub(specs: &Specifiers) -> Result<Range<Version>> {
     let mut final_range = Range::any();
     for spec in &specs.0 {
@@ -863,7 +877,8 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                             inner.as_given()
                         ))?;
                     }
-                    dc.insert(
+                    add_constraint(
+                        &mut dc,
                         ResPkg::Package(name.clone(), None),
                         Range::exact(version.clone()),
                     );
-- 
2.43.0


From 724ee9e38b9d7debdb85ced4868ba931ded87058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:14 +0000
Subject: [PATCH 18/33] fix: accept an empty version specifier set, as Display
 writes it

A saved Blueprint containing a package without Requires-Python could not
be read back.
---
 src/vocab/specifier.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index 8f8a56e..052f4b2 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -57,6 +57,11 @@ impl TryFrom<&str> for Specifiers {
     type Error = eyre::Report;
 
     fn try_from(input: &str) -> Result<Self, Self::Error> {
+        // No specifiers at all is a valid (and universally satisfied) set of
+        // specifiers, and it's how Display writes it.
+        if input.trim().is_empty() {
+            return Ok(Specifiers(Vec::new()));
+        }
         let specifiers_or_err = super::reqparse::versionspec(input);
         specifiers_or_err.wrap_err_with(|| {
             format!("failed to parse versions specifiers from {:?}", input)
-- 
2.43.0


From 3e2db623cb8186034316161c92c1a832e3a890c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:14 +0000
Subject: [PATCH 19/33] fix: don't overflow computing the successor of
 X.post4294967295

'> X' ranges start there; reporting an unsatisfiable requirement panicked.
---
 src/vocab/version.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index 60dafdd..3c8808a 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -53,10 +53,13 @@ impl Version {
         //
         // - You *can* attach a .postN after anything else. And a .devN after that. So
         // to get the next possible value, attach a .post0.dev0.
+        //
+        // (Saturating, because "> X" ranges start at X.post(u32::MAX), and pubgrub wants
+        // to know what comes after that when it prints such a range.)
         if let Some(dev) = &mut new.0.dev {
-            *dev += 1;
+            *dev = dev.saturating_add(1);
         } else if let Some(post) = &mut new.0.post {
-            *post += 1;
+            *post = post.saturating_add(1);
         } else {
             new.0.post = Some(0);
             new.0.dev = Some(0);
-- 
2.43.0


From f0bfbf6fbe452feae44169806e2a6b49bce4cd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:33 +0000
Subject: [PATCH 20/33] fix: follow redirects of HEAD requests

Metadata could not be read lazily from an artifact behind a redirect,
although downloading the artifact worked.
---
 src/package_db/http/http.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index f577328..7a0c1c5 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -327,7 +327,9 @@ impl HttpInner {
         mut request: http::Request<()>,
         cache_mode: CacheMode,
     ) -> Result<http::Response<ReadPlusMaybeSeek>> {
-        let max_redirects = if request.method() == http::method::Method::GET {
+        let max_redirects = if [http::Method::GET, http::Method::HEAD]
+            .contains(request.method())
+        {
             MAX_REDIRECTS
         } else {
             0
-- 
2.43.0


From a6a3bc829810b8789e194b2f0de3129509cc356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:33 +0000
Subject: [PATCH 21/33] fix: ignore links to other projects' files on a simple
 API page

They were taken for artifacts of the project the page is about.
---
 src/package_db/package_db.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/package_db/package_db.rs b/src/package_db/package_db.rs
index 002a55b..31b8c64 100644
--- a/src/package_db/package_db.rs
+++ b/src/package_db/package_db.rs
@@ -72,7 +72,10 @@ impl<'db> PackageDB<'db> {
                     &self.http,
                     &index_url.join(&format!("{}/", p.normalized()))?,
                 )?;
-                if let Some(pi) = maybe_pi {
+                if let Some(mut pi) = maybe_pi {
+                    // A link to some other project's file can't be used to install this
+                    // project.
+                    pi.artifacts.retain(|ai| ai.name.distribution() == p);
                     pack_by_version(pi, &mut packed)?;
                 }
             }
-- 
2.43.0


From d83c3b3d9ba2c9c309093be56c39c3f8944a5594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:33 +0000
Subject: [PATCH 22/33] fix: don't take a non-successful index reply below 400
 for an index page

---
 src/package_db/simple_api/fetch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/package_db/simple_api/fetch.rs b/src/package_db/simple_api/fetch.rs
index 729229b..8659e9f 100644
--- a/src/package_db/simple_api/fetch.rs
+++ b/src/package_db/simple_api/fetch.rs
@@ -23,7 +23,7 @@ pub fn fetch_simple_api(http: &Http, url: &Url) -> Result<Option<ProjectInfo>> {
     if response.status().as_u16() == 404 {
         return Ok(None);
     }
-    if response.status().as_u16() >= 400 {
+    if !response.status().is_success() {
         bail!("error fetching {url}: {}", response.status().as_str());
     }
     let url = response.extensions().get::<Url>().unwrap().to_owned();
-- 
2.43.0


From d8c26d7597b7287edc68f708327f0bcd14732971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 23/33] fix: install the most preferred pinned artifact, not
 the least preferred

---
 src/env.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index 1403593..aa30060 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -58,7 +58,8 @@ where
                 None
             })
             .collect::<Vec<_>>();
-        scored_candidates.sort_unstable_by_key(|(_, score)| *score);
+        // best first; equally good ones in the order they're listed
+        scored_candidates.sort_by_key(|(_, score)| std::cmp::Reverse(*score));
         for (ai, _) in scored_candidates {
             if ai.hash.is_none() {
                 warn!("best scoring artifact {} has no hash", ai.name);
-- 
2.43.0


From 7638c6c1640b9b347a02c74d03f45c49a29205f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 24/33] fix: only build source archives whose hash is pinned

---
 src/env.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index aa30060..945b387 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -184,7 +184,13 @@ impl EnvForest {
                         if let Some(sdist_ai) = db
                             .artifacts_for_version(&pin.name, &pin.version)?
                             .iter()
-                            .find(|ai| ai.is::<Sdist>())
+                            .find(|ai| {
+                                ai.is::<Sdist>()
+                                    && ai
+                                        .hash
+                                        .as_ref()
+                                        .map_or(false, |hash| pin.hashes.contains(hash))
+                            })
                         {
                             context!("using sdist from {}", sdist_ai.url);
                             let sdist_hash = sdist_ai.require_hash()?;
-- 
2.43.0


From af712282e80ae7f08291d6cebf9fe2b883f0b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 25/33] fix: pass build backends the .dist-info directory as
 metadata_directory

---
 src/package_db/data-files/build-frontend.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/package_db/data-files/build-frontend.py b/src/package_db/data-files/build-frontend.py
index afa8566..a0eace8 100644
--- a/src/package_db/data-files/build-frontend.py
+++ b/src/package_db/data-files/build-frontend.py
@@ -62,18 +62,23 @@ if not (work_dir / "get_requires_for_build_wheel").exists():
         exit(0)
 
 metadata_dir = work_dir / "prepare_metadata_for_build_wheel"
+metadata_out = work_dir / "prepare_metadata_for_build_wheel.out"
 
 if goal == "WheelMetadata" and hasattr(backend, "prepare_metadata_for_build_wheel"):
     metadata_dir.mkdir()
     dist_info = backend.prepare_metadata_for_build_wheel(str(metadata_dir))
-    (work_dir / "prepare_metadata_for_build_wheel.out").write_text(dist_info, "utf-8")
+    metadata_out.write_text(dist_info, "utf-8")
     exit(0)
 
 wheel_dir = work_dir / "build_wheel"
 wheel_dir.mkdir()
+# PEP 517: metadata_directory is the .dist-info directory itself, not its parent
+metadata_directory = None
+if metadata_dir.exists():
+    metadata_directory = str(metadata_dir / metadata_out.read_text("utf-8"))
 wheel_basename = backend.build_wheel(
     str(wheel_dir),
-    metadata_directory=str(metadata_dir) if metadata_dir.exists() else None,
+    metadata_directory=metadata_directory,
 )
 
 (work_dir / "build_wheel.out").write_text(wheel_basename, "utf-8")
-- 
2.43.0


From 0a809151fcbe0a0dd5b2ef328a0afc46cda00ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 26/33] fix: don't take the leftovers of a failed or killed
 build for its result

---
 src/package_db/data-files/build-frontend.py | 31 +++++++++++++++++----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/package_db/data-files/build-frontend.py b/src/package_db/data-files/build-frontend.py
index a0eace8..a9b7c7c 100644
--- a/src/package_db/data-files/build-frontend.py
+++ b/src/package_db/data-files/build-frontend.py
@@ -4,6 +4,7 @@ import sys
 # monkeypatching the original module or something.
 from pathlib import Path
 from importlib import import_module
+from shutil import rmtree
 from sys import exit
 from json import loads, dumps
 
@@ -31,6 +32,23 @@ distutils.sysconfig.get_python_inc = get_python_inc
 (work_dir, goal, binary_wheel_tag) = sys.argv[1:]
 
 work_dir = Path(work_dir)
+
+
+# The existence of these names is what says that a step is done, so they may only appear
+# once everything about the step is in place: if we fail or get killed along the way,
+# then the next attempt has to start the step over.
+def start_step(step):
+    scratch = work_dir / f"{step}.tmp"
+    if scratch.exists():
+        rmtree(scratch)
+    scratch.mkdir()
+    return scratch
+
+
+def finish_step(step):
+    (work_dir / f"{step}.tmp").replace(work_dir / step)
+
+
 build_system = loads((work_dir / "build-system.json").read_text("utf-8"))
 
 backend_paths = []
@@ -57,7 +75,9 @@ if not (work_dir / "get_requires_for_build_wheel").exists():
         requires = []
     else:
         requires = f()
-    (work_dir / "get_requires_for_build_wheel").write_text(dumps(requires), "utf-8")
+    scratch = work_dir / "get_requires_for_build_wheel.tmp"
+    scratch.write_text(dumps(requires), "utf-8")
+    finish_step("get_requires_for_build_wheel")
     if requires:
         exit(0)
 
@@ -65,13 +85,13 @@ metadata_dir = work_dir / "prepare_metadata_for_build_wheel"
 metadata_out = work_dir / "prepare_metadata_for_build_wheel.out"
 
 if goal == "WheelMetadata" and hasattr(backend, "prepare_metadata_for_build_wheel"):
-    metadata_dir.mkdir()
-    dist_info = backend.prepare_metadata_for_build_wheel(str(metadata_dir))
+    scratch = start_step("prepare_metadata_for_build_wheel")
+    dist_info = backend.prepare_metadata_for_build_wheel(str(scratch))
     metadata_out.write_text(dist_info, "utf-8")
+    finish_step("prepare_metadata_for_build_wheel")
     exit(0)
 
-wheel_dir = work_dir / "build_wheel"
-wheel_dir.mkdir()
+wheel_dir = start_step("build_wheel")
 # PEP 517: metadata_directory is the .dist-info directory itself, not its parent
 metadata_directory = None
 if metadata_dir.exists():
@@ -83,4 +103,5 @@ wheel_basename = backend.build_wheel(
 
 (work_dir / "build_wheel.out").write_text(wheel_basename, "utf-8")
 (work_dir / "build_wheel.binary_wheel_tag").write_text(binary_wheel_tag, "utf-8")
+finish_step("build_wheel")
 exit(0)
-- 
2.43.0


From 5273dbc6adf645b525b2d0ea3cebbc1decd571a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 27/33] fix: don't move a built wheel out of the build store

It was only handed out once that way: with another wheel cache using the same build
store, or if we were killed while copying it, the build could never finish again.
---
 src/package_db/build_wheel.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index da575b2..9578a8a 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -379,10 +379,13 @@ impl<'a> WheelBuilder<'a> {
                     None => self.db.wheel_cache.lock(&sdist_hash)?,
                 };
                 fs::create_dir_all(&wheel_cache_handle)?;
+                // (by copying, because this might not be the only wheel cache that
+                // will want it)
                 let target_path = wheel_cache_handle.join(wheel_name.to_string());
-                if fs::rename(&wheel_path, &target_path).is_err() {
-                    fs::copy(&wheel_path, &target_path)?;
-                }
+                let tempdir = wheel_cache_handle.tempdir()?;
+                let temp_path = tempdir.path().join("wheel");
+                fs::copy(&wheel_path, &temp_path)?;
+                fs::rename(&temp_path, &target_path)?;
                 let opened = fs::File::open(target_path)?;
                 let wheel = Wheel::new(wheel_name, Box::new(opened))?;
                 return Ok(Pep517Succeeded::Wheel { wheel });
-- 
2.43.0


From f318b5f3908258600423706488e574d4b65d3b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 28/33] fix: lock the wheel cache before the build store when
 building metadata too

Building a wheel takes these locks in that order. With the opposite order for metadata,
when a backend had no separate metadata step, two processes could deadlock.
---
 src/package_db/build_wheel.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 9578a8a..0079a53 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -154,7 +154,7 @@ impl<'a> WheelBuilder<'a> {
         match self.pep517(
             sdist_ai,
             Pep517Goal::Wheel,
-            Some(handle),
+            handle,
             &new_build_stack,
         )? {
             Pep517Succeeded::Wheel { wheel } => {
@@ -178,10 +178,14 @@ impl<'a> WheelBuilder<'a> {
         trace!("Getting metadata from source for {} {}", sdist_ai.name.distribution().as_given(), sdist_ai.name.version());
         let new_build_stack = self.new_build_stack(sdist_ai.name.distribution())?;
 
+        // Backends can end up giving us a wheel here too, so take this now: everyone
+        // has to lock the wheel cache and the build store in the same order.
+        let handle = self.db.wheel_cache.lock(sdist_ai.require_hash()?)?;
+
         match self.pep517(
             sdist_ai,
             Pep517Goal::WheelMetadata,
-            None,
+            handle,
             &new_build_stack,
         )? {
             Pep517Succeeded::WheelMetadata {
@@ -334,7 +338,7 @@ impl<'a> WheelBuilder<'a> {
         &self,
         sdist_ai: &ArtifactInfo,
         goal: Pep517Goal,
-        wheel_cache_handle: Option<KVDirLock>,
+        wheel_cache_handle: KVDirLock,
         new_build_stack: &[&PackageName],
     ) -> Result<Pep517Succeeded> {
         let sdist_hash = sdist_ai.require_hash()?;
@@ -374,10 +378,6 @@ impl<'a> WheelBuilder<'a> {
                     wheel_name.arch_tags = vec![build_arch.into()]
                 }
                 // Store the wheel in the wheel cache
-                let wheel_cache_handle = match wheel_cache_handle {
-                    Some(h) => h,
-                    None => self.db.wheel_cache.lock(&sdist_hash)?,
-                };
                 fs::create_dir_all(&wheel_cache_handle)?;
                 // (by copying, because this might not be the only wheel cache that
                 // will want it)
-- 
2.43.0


From 05501586c6734473f574c2bcf7adba0eb5116cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 29/33] fix: report build dependency loops between sdists
 instead of deadlocking

Installing an sdist held the forest's lock on it while building it. If building it
in turn needed an environment with that very sdist in it, we waited for ourselves
forever, before getting to the code that detects the loop.
---
 src/env.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/env.rs b/src/env.rs
index 945b387..2390df5 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -221,7 +221,10 @@ impl EnvForest {
                                 (sdist_ai, handle.join(name))
                             } else {
                                 // couldn't find one already installed... try to
-                                // build one and install it
+                                // build one and install it. (Not while
+                                // holding the lock: if this is a build dependency
+                                // loop, then we'd end up waiting for ourselves.)
+                                drop(handle);
                                 // unwrap is ok b/c we know we're passing an sdist
                                 // ai here
                                 let local_wheel = db
@@ -231,15 +234,19 @@ impl EnvForest {
                                         &wheel_platform,
                                     )
                                     .unwrap()?;
-                                let tmp = handle.tempdir()?;
-                                local_wheel.unpack(
-                                    &paths,
-                                    &trampoline_maker,
-                                    WriteTreeFS::new(&tmp),
-                                )?;
+                                let handle = self.store.lock(&sdist_hash)?;
                                 let wheel_root =
                                     handle.join(local_wheel.name().to_string());
-                                fs::rename(tmp.into_path(), &wheel_root)?;
+                                // someone else might have been faster
+                                if !wheel_root.exists() {
+                                    let tmp = handle.tempdir()?;
+                                    local_wheel.unpack(
+                                        &paths,
+                                        &trampoline_maker,
+                                        WriteTreeFS::new(&tmp),
+                                    )?;
+                                    fs::rename(tmp.into_path(), &wheel_root)?;
+                                }
                                 (sdist_ai, wheel_root)
                             }
                         } else {
-- 
2.43.0


From c193d8290e458a11bd9a3d0943904c43492ea328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 30/33] fix: don't leak temporary directories when publishing
 builds fails

---
 src/env.rs                    | 3 ++-
 src/package_db/build_wheel.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/env.rs b/src/env.rs
index 2390df5..fca067e 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -245,7 +245,8 @@ impl EnvForest {
                                         &trampoline_maker,
                                         WriteTreeFS::new(&tmp),
                                     )?;
-                                    fs::rename(tmp.into_path(), &wheel_root)?;
+                                    fs::rename(tmp.path(), &wheel_root)?;
+                                    let _ = tmp.into_path();
                                 }
                                 (sdist_ai, wheel_root)
                             }
diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 0079a53..d3b2852 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -352,7 +352,8 @@ impl<'a> WheelBuilder<'a> {
             const BUILD_FRONTEND_PY: &[u8] =
                 include_bytes!("data-files/build-frontend.py");
             fs::write(tempdir.path().join("build-frontend.py"), BUILD_FRONTEND_PY)?;
-            fs::rename(&tempdir.into_path(), &*handle)?;
+            fs::rename(tempdir.path(), &*handle)?;
+            let _ = tempdir.into_path();
         }
 
         let build_wheel = handle.join("build_wheel");
-- 
2.43.0


From f901628a62cdec5ec73613d0bcf3352347dcbf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 31/33] fix: when resolving, build for the platform that's
 being resolved for

Building always targeted the native platforms instead, so when the backend can only
produce metadata by building a wheel, that wheel was then found to be incompatible
with the environment it had been resolved for (e.g. with an older manylinux version,
or with an x86-64 Python on macOS/arm64).
---
 src/resolve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index e07da1b..3cf1647 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -282,11 +282,14 @@ impl Brief {
             .map(VersionHints::from)
             .unwrap_or_else(VersionHints::new);
         let (pybi_ai, platform) = resolve_pybi(db, self, platforms, &version_hints)?;
+        // If we end up building any wheels just to get their metadata, then they had better
+        // be ones that the environment we're resolving for can use.
+        let platform_slice = [platform];
         let wheel_builder = WheelBuilder::new(
             db,
             pybi_ai.name.distribution(),
             pybi_ai.name.version(),
-            PybiPlatform::native_platforms()?,
+            &platform_slice,
             build_stack,
         )?;
         let (_, pybi_metadata) = db
-- 
2.43.0


From 8d80e55dd846e640f90e2509f9d7368e3e851c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 32/33] fix: keep builds of one sdist for different targets
 apart

The build directory was found by the sdist's hash alone, so once there was a binary
wheel for one Python or platform, building the same sdist for another one gave us that
wheel again, to be refused as incompatible.
---
 src/package_db/build_wheel.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index d3b2852..f410cf4 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -342,7 +342,19 @@ impl<'a> WheelBuilder<'a> {
         new_build_stack: &[&PackageName],
     ) -> Result<Pep517Succeeded> {
         let sdist_hash = sdist_ai.require_hash()?;
-        let handle = self.db.build_store.lock(&sdist_hash)?;
+        // Each target gets a build of its own: what we get for one might not be any use for
+        // another.
+        let mut build_key = format!(
+            "{}\n{}\n{}",
+            sdist_hash,
+            self.target_python.normalized(),
+            self.target_python_version,
+        );
+        for platform in &self.build_platforms {
+            build_key.push('\n');
+            build_key.push_str(platform.core_tag());
+        }
+        let handle = self.db.build_store.lock(&build_key.as_bytes())?;
 
         if !handle.exists() {
             let tempdir = handle.tempdir()?;
-- 
2.43.0


From 748e5794448a7b2ae048e4ac5ba669e55e292867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 33/33] fix: a blueprint lists a package's extras in a fixed
 order

---
 src/resolve.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index 3cf1647..1fdfbae 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -158,9 +158,20 @@ pub struct WheelResolveMetadata {
 pub struct WheelResolveMetadataInner {
     pub requires_dist: Vec<PackageRequirement>,
     pub requires_python: Specifiers,
+    #[serde(serialize_with = "serialize_extras")]
     pub extras: HashSet<Extra>,
 }
 
+// in a fixed order, so that the same blueprint always looks the same
+fn serialize_extras<S>(extras: &HashSet<Extra>, s: S) -> Result<S::Ok, S::Error>
+where
+    S: serde::Serializer,
+{
+    let mut sorted = extras.iter().collect::<Vec<_>>();
+    sorted.sort_unstable_by_key(|e| e.as_given());
+    s.collect_seq(sorted)
+}
+
 impl WheelResolveMetadata {
     pub fn from(ai: &ArtifactInfo, m: &WheelCoreMetadata) -> WheelResolveMetadata {
         let provenance = ai.url.to_string();
-- 
2.43.0

