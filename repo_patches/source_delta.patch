From 9fcbfa9c19b58f95adb865681e24546f3dbe6f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:40 +0000
Subject: [PATCH 01/57] verif hook: optional model-checking harness, compiled
 only with --cfg posy_verif

---
 src/main.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 65ffa5d..3fee903 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -16,6 +16,14 @@ mod test_util;
 mod trampolines;
 mod tree;
 
+// Verification hook, compiled only with `--cfg posy_verif`: pulls a model-checking
+// harness (whose location is given at build time) into the crate, where it can drive
+// the crate's own modules.
+#[cfg(posy_verif)]
+mod posy_verif {
+    include!(env!("POSY_VERIF_HARNESS"));
+}
+
 use std::path::Path;
 
 use crate::{env::EnvForest, prelude::*, resolve::Brief};
@@ -32,6 +40,11 @@ struct Cli {
 }
 
 fn main() -> Result<()> {
+    #[cfg(posy_verif)]
+    if posy_verif::run() {
+        return Ok(());
+    }
+
     let cli = Cli::parse();
     output::init(&cli.output_args);
 
-- 
2.43.0


From e2d95c5088a9e59df7fea02858aee88d663cfdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 02/57] verif hook: re-export internals to the harness under
 --cfg posy_verif

---
 src/package_db/mod.rs            | 7 +++++++
 src/package_db/simple_api/mod.rs | 7 +++++++
 src/platform_tags/mod.rs         | 6 ++++++
 src/vocab/mod.rs                 | 7 +++++++
 4 files changed, 27 insertions(+)

diff --git a/src/package_db/mod.rs b/src/package_db/mod.rs
index 462e3ee..bd6d409 100644
--- a/src/package_db/mod.rs
+++ b/src/package_db/mod.rs
@@ -6,3 +6,10 @@ mod simple_api;
 pub use build_wheel::WheelBuilder;
 pub use package_db::PackageDB;
 pub use simple_api::ArtifactInfo;
+
+// Verification hook: lets the model-checking harness drive these parts directly.
+#[cfg(posy_verif)]
+pub mod verif {
+    pub use super::http::{CacheMode, Http, HttpInner, LazyRemoteFile, NotCached};
+    pub use super::simple_api::verif::*;
+}
diff --git a/src/package_db/simple_api/mod.rs b/src/package_db/simple_api/mod.rs
index c0e94d1..2b586ee 100644
--- a/src/package_db/simple_api/mod.rs
+++ b/src/package_db/simple_api/mod.rs
@@ -5,3 +5,10 @@ mod project_info;
 pub use fetch::fetch_simple_api;
 use html::parse_html;
 pub use project_info::{pack_by_version, ArtifactInfo, ProjectInfo};
+
+// Verification hook: lets the model-checking harness drive these parts directly.
+#[cfg(posy_verif)]
+pub mod verif {
+    pub use super::html::parse_html;
+    pub use super::project_info::*;
+}
diff --git a/src/platform_tags/mod.rs b/src/platform_tags/mod.rs
index c34ef32..32154ee 100644
--- a/src/platform_tags/mod.rs
+++ b/src/platform_tags/mod.rs
@@ -33,3 +33,9 @@ use macos::core_platform_tags;
 mod expand;
 mod platform;
 pub use platform::{Platform, PybiPlatform, WheelPlatform};
+
+// Verification hook: lets the model-checking harness drive these parts directly.
+#[cfg(posy_verif)]
+pub mod verif {
+    pub use super::expand::expand_platform_tag;
+}
diff --git a/src/vocab/mod.rs b/src/vocab/mod.rs
index 891ed6e..4eed676 100644
--- a/src/vocab/mod.rs
+++ b/src/vocab/mod.rs
@@ -29,3 +29,10 @@ pub use self::requirement::{
 };
 pub use self::specifier::{CompareOp, Specifier, Specifiers};
 pub use self::version::{Version, VERSION_INFINITY, VERSION_ZERO};
+
+// Verification hook: lets the model-checking harness drive these parts directly.
+#[cfg(posy_verif)]
+pub mod verif {
+    pub use super::requirement::ParseExtra;
+    pub use super::rfc822ish::RFC822ish;
+}
-- 
2.43.0


From 0faf66c28938358a7642a69f4257c6f306a146f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 03/57] fix: allow seeking a SeekSlice to its end, like any
 other file

Seeking to exactly the end was refused, so Seek::seek(End(0)) always failed and
an empty slice could not even be rewound. A cached empty HTTP response hits
this: read_cache() rewinds the body and the request fails.

The end bound is one past the last readable byte; only positions beyond it are
out of range.
---
 src/seek_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seek_slice.rs b/src/seek_slice.rs
index 9ba8bd2..f029a1d 100644
--- a/src/seek_slice.rs
+++ b/src/seek_slice.rs
@@ -42,7 +42,7 @@ impl<T: Seek> Seek for SeekSlice<T> {
         };
         match maybe_goal_idx {
             Some(goal_idx) => {
-                if goal_idx < self.start || goal_idx >= self.end {
+                if goal_idx < self.start || goal_idx > self.end {
                     Err(io::Error::new(
                         io::ErrorKind::InvalidInput,
                         "invalid seek to a negative or overflowing position",
-- 
2.43.0


From 05cbc5fb3bf9a3ea43019702dd28fbde39c56d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 04/57] fix: don't panic when a range response doesn't match
 the request

A 206 response is allowed to cover less (or more) than the requested range. If
it didn't happen to include the current position, read() hit its unreachable!()
and crashed the program.

Keep fetching until the current position is loaded, and report an error if a
response doesn't even include the first byte we asked for.
---
 src/package_db/http/lazy_remote_file.rs | 75 ++++++++++++++-----------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/src/package_db/http/lazy_remote_file.rs b/src/package_db/http/lazy_remote_file.rs
index dab8655..f174688 100644
--- a/src/package_db/http/lazy_remote_file.rs
+++ b/src/package_db/http/lazy_remote_file.rs
@@ -146,9 +146,22 @@ impl LazyRemoteFile {
                 bail!("Server didn't like my range request and I don't know why");
             }
             RangeResponse::Partial {
-                offset, mut data, ..
+                offset: got_offset,
+                mut data,
+                ..
             } => {
-                self.loaded.insert(offset, slurp(&mut data)?);
+                // Servers are allowed to return more or less than we asked for, but it's
+                // only useful if it includes the first byte we want.
+                let data = slurp(&mut data)?;
+                let wanted = offset
+                    .checked_sub(got_offset)
+                    .and_then(|skip| usize::try_from(skip).ok())
+                    .and_then(|skip| data.get(skip..))
+                    .unwrap_or(&[]);
+                if wanted.is_empty() {
+                    bail!("server returned a different range than we requested");
+                }
+                self.loaded.insert(offset, wanted.to_vec());
                 Ok(())
             }
             RangeResponse::Complete(_) => {
@@ -203,38 +216,36 @@ impl Read for LazyRemoteFile {
         if bytes_wanted == 0 {
             return Ok(0);
         }
-        // maybe we already have it in cache?
-        if let Some(len) = copy_loaded(self.seek_pos, &self.loaded, buf) {
-            self.seek_pos = self.seek_pos.saturating_add(fix_err(len.try_into())?);
-            return Ok(len);
-        }
-        // otherwise, we need to fetch + fill in the cache
-        // first find the empty gap around our current position
-        let gap_start = match self.loaded.range(..=self.seek_pos).next_back() {
-            Some((loaded_offset, loaded_data)) => {
-                loaded_offset + (loaded_data.len() as u64)
+        loop {
+            // maybe we already have it in cache?
+            if let Some(len) = copy_loaded(self.seek_pos, &self.loaded, buf) {
+                self.seek_pos = self.seek_pos.saturating_add(fix_err(len.try_into())?);
+                return Ok(len);
             }
-            None => 0,
-        };
-        let gap_end = match self.loaded.range(self.seek_pos + 1..).next() {
-            Some((loaded_offset, _)) => *loaded_offset,
-            None => self.length,
-        };
-        let fetch_start = if gap_end - self.seek_pos < LAZY_FETCH_SIZE {
-            gap_end.saturating_sub(LAZY_FETCH_SIZE)
-        } else {
-            self.seek_pos
-        };
-        let fetch_end = fetch_start + LAZY_FETCH_SIZE;
-        let fetch_start = fetch_start.clamp(gap_start, gap_end);
-        let fetch_end = fetch_end.clamp(gap_start, gap_end);
-        fix_err(self.load_range(fetch_start, fetch_end - fetch_start))?;
-        // now it's definitely in cache
-        if let Some(len) = copy_loaded(self.seek_pos, &self.loaded, buf) {
-            self.seek_pos = self.seek_pos.saturating_add(fix_err(len.try_into())?);
-            return Ok(len);
+            // otherwise, we need to fetch + fill in the cache
+            // first find the empty gap around our current position
+            let gap_start = match self.loaded.range(..=self.seek_pos).next_back() {
+                Some((loaded_offset, loaded_data)) => {
+                    loaded_offset + (loaded_data.len() as u64)
+                }
+                None => 0,
+            };
+            let gap_end = match self.loaded.range(self.seek_pos + 1..).next() {
+                Some((loaded_offset, _)) => *loaded_offset,
+                None => self.length,
+            };
+            let fetch_start = if gap_end - self.seek_pos < LAZY_FETCH_SIZE {
+                gap_end.saturating_sub(LAZY_FETCH_SIZE)
+            } else {
+                self.seek_pos
+            };
+            let fetch_end = fetch_start + LAZY_FETCH_SIZE;
+            let fetch_start = fetch_start.clamp(gap_start, gap_end);
+            let fetch_end = fetch_end.clamp(gap_start, gap_end);
+            fix_err(self.load_range(fetch_start, fetch_end - fetch_start))?;
+            // now we have at least the first byte of what we asked for, so even if the
+            // server didn't send enough to reach our current position, the gap shrank.
         }
-        unreachable!("and you may ask yourself, well, how did I get here?")
     }
 }
 
-- 
2.43.0


From db95db810690afeec1ead478dc3987af5d1c42d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 05/57] fix: follow redirects for HEAD requests too

LazyRemoteFile starts with a HEAD request. Redirects were only followed for GET,
so reading the metadata of a wheel from a server that redirects its downloads
(common for file mirrors) always failed with 'hit redirection limit', though
downloading the same URL works.
---
 src/package_db/http/http.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index 697c56a..93d2320 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -307,7 +307,9 @@ impl HttpInner {
         mut request: http::Request<()>,
         cache_mode: CacheMode,
     ) -> Result<http::Response<ReadPlusMaybeSeek>> {
-        let max_redirects = if request.method() == http::method::Method::GET {
+        let max_redirects = if request.method() == http::method::Method::GET
+            || request.method() == http::method::Method::HEAD
+        {
             MAX_REDIRECTS
         } else {
             0
-- 
2.43.0


From 9344d247fb79a466b1b3797eccbf6b03930fb738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 06/57] fix: don't fail requests whose first response can't be
 cached

When a response isn't storable we remove the old cache entry, but on a cache
miss there's no entry, so removing it failed with 'No such file or directory'
and the caller never got the response. This hit any page sent with 'no-store' or a
status like 403.
---
 src/package_db/http/http.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index 93d2320..8ce066c 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -226,7 +226,9 @@ impl HttpInner {
                               cache_status,
                               lock: KVFileLock| {
                 if !new_policy.is_storable() {
-                    lock.remove()?;
+                    if lock.reader().is_some() {
+                        lock.remove()?;
+                    }
                     Ok(make_response(
                         new_parts,
                         ReadPlusMaybeSeek::CannotSeek(Box::new(body)),
-- 
2.43.0


From 74acd3f92fac1184c3fc4a6271decfc58f9fc3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 07/57] fix: notice when a remote file changes size between
 range requests

Otherwise a wheel that gets replaced while we're reading its metadata gives a
mix of bytes from both versions.
---
 src/package_db/http/lazy_remote_file.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/package_db/http/lazy_remote_file.rs b/src/package_db/http/lazy_remote_file.rs
index f174688..d0b7647 100644
--- a/src/package_db/http/lazy_remote_file.rs
+++ b/src/package_db/http/lazy_remote_file.rs
@@ -147,9 +147,16 @@ impl LazyRemoteFile {
             }
             RangeResponse::Partial {
                 offset: got_offset,
+                total_len,
                 mut data,
-                ..
             } => {
+                if total_len != self.length {
+                    bail!(
+                        "remote file changed size while reading it ({} -> {} bytes)",
+                        self.length,
+                        total_len
+                    );
+                }
                 // Servers are allowed to return more or less than we asked for, but it's
                 // only useful if it includes the first byte we want.
                 let data = slurp(&mut data)?;
-- 
2.43.0


From 8f52319470bc355e2918a4cdfb7e75f76d680fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 08/57] fix: rewind temporary copies of uncacheable downloads

force_seek() left the temporary file positioned at its end, so whoever asked for
an artifact without a known hash that couldn't be cached read an empty file.
---
 src/package_db/http/http.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index 8ce066c..6e619d5 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -65,6 +65,7 @@ impl ReadPlusMaybeSeek {
             ReadPlusMaybeSeek::CannotSeek(mut inner) => {
                 let mut tmp = tempfile::tempfile()?;
                 std::io::copy(&mut inner, &mut tmp)?;
+                tmp.rewind()?;
                 Box::new(tmp)
             }
         })
-- 
2.43.0


From 46612d7fca606dca42767a58b794fc96722a7ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 09/57] verif hook: expose the solver's view of specifiers
 under --cfg posy_verif

---
 src/resolve.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index 60f687e..da2344e 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -876,6 +876,16 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
     }
 }
 
+// Verification hook: lets the model-checking harness drive these parts directly.
+#[cfg(posy_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn range(specs: &Specifiers) -> Result<Range<Version>> {
+        specifiers_to_pubgrub(specs)
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 83046f63eca36bd028ca1eb18d46511530af785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 10/57] fix: refuse version numbers that don't fit, ignore
 whitespace around versions

---
 src/vocab/version.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index 60dafdd..84c4d62 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -69,6 +69,18 @@ impl TryFrom<&str> for Version {
     type Error = eyre::Report;
 
     fn try_from(value: &str) -> Result<Self, Self::Error> {
+        // "Leading and trailing whitespace must be silently ignored"
+        let value = value.trim();
+        // pep440 stores numbers as u32, and instead of reporting numbers that don't fit,
+        // it drops them -- for example, it reads "1.0.dev20230101123456" as "1.0". (And
+        // u32::MAX itself has no room for finding a successor.)
+        let public = value.split('+').next().unwrap_or(value);
+        let fits = |digits: &str| {
+            digits.is_empty() || digits.parse::<u32>().map_or(false, |n| n < u32::MAX)
+        };
+        if !public.split(|c: char| !c.is_ascii_digit()).all(fits) {
+            bail!("Number too large in version {}", value);
+        }
         pep440::Version::parse(value)
             .map(Version)
             .ok_or_else(|| eyre!("Failed to parse PEP 440 version {}", value))
-- 
2.43.0


From d503caee47159cb7d8597d79e82d8b710edf56b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:02 +0000
Subject: [PATCH 11/57] fix: follow PEP 440 for post-releases and local
 versions in specifiers

==X+local matched other local versions, <=X.postN the next post-release's dev
versions; <X.postN left out X, and >X.postN the dev versions of the next
post-release. And 0.dev0 is less than 0a0.dev0.
---
 src/vocab/specifier.rs | 16 +++++++++++-----
 src/vocab/version.rs   | 25 ++++++++++++++++++++-----
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index 8f8a56e..bab4df9 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -172,16 +172,22 @@ impl CompareOp {
             if self != &Equal && self != &NotEqual && !version.0.local.is_empty() {
                 bail!("Operator {:?} cannot be used on a version with a +local suffix", self);
             }
+            // If the rhs has no +local suffix, then local suffixes are ignored
+            let next = if version.0.local.is_empty() {
+                version.next_public()
+            } else {
+                version.next()
+            };
             match self {
                 // These two are simple
-                LessThanEqual => vec![VERSION_ZERO.clone()..version.next()],
+                LessThanEqual => vec![VERSION_ZERO.clone()..next],
                 GreaterThanEqual => vec![version..VERSION_INFINITY.clone()],
                 // These are also pretty simple, because we took care of the wildcard
                 // cases up above.
-                Equal => vec![version.clone()..version.next()],
+                Equal => vec![version..next],
                 NotEqual => vec![
-                    VERSION_ZERO.clone()..version.clone(),
-                    version.next()..VERSION_INFINITY.clone(),
+                    VERSION_ZERO.clone()..version,
+                    next..VERSION_INFINITY.clone(),
                 ],
                 // "The exclusive ordered comparison >V MUST NOT allow a post-release of
                 // the given version unless V itself is a post release."
@@ -191,6 +197,7 @@ impl CompareOp {
                         low.0.dev = Some(dev + 1);
                     } else if let Some(post) = &version.0.post {
                         low.0.post = Some(post + 1);
+                        low.0.dev = Some(0);
                     } else {
                         // Otherwise, want to increment either the pre-release (a0 ->
                         // a1), or the "last" release segment. But working with
@@ -209,7 +216,6 @@ impl CompareOp {
                     if (&version.0.pre, &version.0.dev) == (&None, &None) {
                         let mut new_max = version;
                         new_max.0.dev = Some(0);
-                        new_max.0.post = None;
                         new_max.0.local = vec![];
                         vec![VERSION_ZERO.clone()..new_max]
                     } else {
diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index 84c4d62..1450349 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -16,7 +16,7 @@ use crate::prelude::*;
 )]
 pub struct Version(pub pep440::Version);
 
-pub static VERSION_ZERO: Lazy<Version> = Lazy::new(|| "0a0.dev0".try_into().unwrap());
+pub static VERSION_ZERO: Lazy<Version> = Lazy::new(|| "0.dev0".try_into().unwrap());
 
 pub static VERSION_INFINITY: Lazy<Version> = Lazy::new(|| {
     // Technically there is no largest PEP 440 version. But this should be good
@@ -38,7 +38,21 @@ impl Version {
 
     /// Returns the smallest PEP 440 version that is larger than self.
     pub fn next(&self) -> Version {
+        // Whatever self is, the next thing is self with some +local suffix added (or
+        // extended). There's no smallest suffix that you could actually write down, but
+        // there's one we can represent: an empty string sorts before everything else.
         let mut new = self.clone();
+        new.0
+            .local
+            .push(pep440::LocalVersion::StringComponent("".into()));
+        new
+    }
+
+    /// Returns the smallest PEP 440 version that is larger than self, and also larger than
+    /// anything that differs from self only in its +local suffix.
+    pub fn next_public(&self) -> Version {
+        let mut new = self.clone();
+        new.0.local.clear();
         // The rules are here:
         //
         //   https://www.python.org/dev/peps/pep-0440/#summary-of-permitted-suffixes-and-relative-ordering
@@ -49,16 +63,17 @@ impl Version {
         //   then the next possible version is .dev(N+1)
         //
         // - You can't attach a .postN after a .postN. So if you already have
-        //   a .postN, then the next possible value is .post(N+1).
+        //   a .postN, then the next possible value is .post(N+1).dev0.
         //
         // - You *can* attach a .postN after anything else. And a .devN after that. So
         // to get the next possible value, attach a .post0.dev0.
         if let Some(dev) = &mut new.0.dev {
             *dev += 1;
-        } else if let Some(post) = &mut new.0.post {
-            *post += 1;
         } else {
-            new.0.post = Some(0);
+            new.0.post = Some(match new.0.post {
+                Some(post) => post + 1,
+                None => 0,
+            });
             new.0.dev = Some(0);
         }
         new
-- 
2.43.0


From 09c650a735d94567fcae696036316abea3a1bfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:05 +0000
Subject: [PATCH 12/57] fix: allow whitespace after a version specifier, as PEP
 508 does

---
 src/vocab/reqparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/reqparse.rs b/src/vocab/reqparse.rs
index bd19abb..2cce48c 100644
--- a/src/vocab/reqparse.rs
+++ b/src/vocab/reqparse.rs
@@ -21,7 +21,7 @@ peg::parser! {
             = (letter_or_digit() / "-" / "_" / "." / "*" / "+" / "!")+
 
         rule version_one() -> Specifier
-            = _ op:version_cmp() _ v:$(version())
+            = _ op:version_cmp() _ v:$(version()) _
            {?
                 // peg requires &str for errors, so we can't pass through the result of
                 // try_from directly
-- 
2.43.0


From b3d005aef6872eee645d11db3f2bdff435747b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 13/57] fix: normalize runs of separators in package names, as
 PEP 503 says

---
 src/vocab/package_name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/package_name.rs b/src/vocab/package_name.rs
index 730a246..1378f21 100644
--- a/src/vocab/package_name.rs
+++ b/src/vocab/package_name.rs
@@ -28,7 +28,7 @@ impl TryFrom<&str> for PackageName {
         });
         // https://www.python.org/dev/peps/pep-0503/#normalized-names
         static NAME_NORMALIZE: Lazy<Regex> =
-            Lazy::new(|| Regex::new(r"[-_.]").unwrap());
+            Lazy::new(|| Regex::new(r"[-_.]+").unwrap());
 
         if !NAME_VALIDATE.is_match(as_given) {
             return Err(eyre!("Invalid package name {:?}", as_given));
-- 
2.43.0


From 4d27958a9ff485ca00c34fdf58fcc178b02bc53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 14/57] fix: order package names by their normalized form, like
 ==

---
 src/vocab/package_name.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vocab/package_name.rs b/src/vocab/package_name.rs
index 1378f21..f114a57 100644
--- a/src/vocab/package_name.rs
+++ b/src/vocab/package_name.rs
@@ -3,7 +3,12 @@ use crate::prelude::*;
 #[derive(Debug, Clone, DeserializeFromStr, Derivative)]
 #[derivative(Hash, PartialEq, Eq, PartialOrd, Ord)]
 pub struct PackageName {
-    #[derivative(Hash = "ignore", PartialEq = "ignore", PartialOrd = "ignore")]
+    #[derivative(
+        Hash = "ignore",
+        PartialEq = "ignore",
+        PartialOrd = "ignore",
+        Ord = "ignore"
+    )]
     as_given: String,
     normalized: String,
 }
-- 
2.43.0


From db998de0441dce0a81d9bd2a650b2f697e8e5a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 15/57] fix: parse nested markers in linear time

---
 src/vocab/reqparse.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/vocab/reqparse.rs b/src/vocab/reqparse.rs
index 2cce48c..d2a1362 100644
--- a/src/vocab/reqparse.rs
+++ b/src/vocab/reqparse.rs
@@ -131,14 +131,24 @@ peg::parser! {
               }
 
         rule marker_and(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = lhs:marker_expr(parse_extra) _ "and" _ rhs:marker_and(parse_extra)
-                 { marker::EnvMarkerExpr::And(Box::new(lhs), Box::new(rhs)) }
-              / marker_expr(parse_extra)
+            = lhs:marker_expr(parse_extra)
+              rhs:(_ "and" _ rhs:marker_and(parse_extra) { rhs })?
+              {
+                  match rhs {
+                      Some(rhs) => marker::EnvMarkerExpr::And(Box::new(lhs), Box::new(rhs)),
+                      None => lhs,
+                  }
+              }
 
         rule marker_or(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = lhs:marker_and(parse_extra) _ "or" _ rhs:marker_or(parse_extra)
-                 { marker::EnvMarkerExpr::Or(Box::new(lhs), Box::new(rhs)) }
-              / marker_and(parse_extra)
+            = lhs:marker_and(parse_extra)
+              rhs:(_ "or" _ rhs:marker_or(parse_extra) { rhs })?
+              {
+                  match rhs {
+                      Some(rhs) => marker::EnvMarkerExpr::Or(Box::new(lhs), Box::new(rhs)),
+                      None => lhs,
+                  }
+              }
 
         pub rule marker(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
             = marker_or(parse_extra)
-- 
2.43.0


From 590adc0987f31ce2747b78b7ec8455e48940ee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:26 +0000
Subject: [PATCH 16/57] fix: refuse overly complex markers instead of
 overflowing the stack

---
 src/vocab/reqparse.rs    | 34 +++++++++++++++++++++++++---------
 src/vocab/requirement.rs |  9 +++++++++
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/vocab/reqparse.rs b/src/vocab/reqparse.rs
index d2a1362..9c28a37 100644
--- a/src/vocab/reqparse.rs
+++ b/src/vocab/reqparse.rs
@@ -3,6 +3,9 @@ use crate::prelude::*;
 pub use self::parser::{marker, requirement, versionspec};
 use super::requirement::ParseExtra;
 
+// The most comparisons we accept in one marker.
+const MAX_CLAUSES: usize = 100;
+
 peg::parser! {
     grammar parser() for str {
         rule wsp()
@@ -109,8 +112,10 @@ peg::parser! {
                    / python_str())
               { v }
 
-        rule marker_expr(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = _ "(" m:marker(parse_extra) _ ")" { m }
+        // 'levels' limits how deep we recurse, so that hostile input can't overflow the
+        // stack.
+        rule marker_expr(parse_extra: ParseExtra, levels: usize) -> marker::EnvMarkerExpr
+            = _ "(" levels:deeper(levels) m:marker_or(parse_extra, levels) _ ")" { m }
               / lhs:marker_value(parse_extra) op:marker_op() rhs:marker_value(parse_extra)
               {
                   use marker::EnvMarkerExpr::Operator;
@@ -130,9 +135,12 @@ peg::parser! {
                   }
               }
 
-        rule marker_and(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = lhs:marker_expr(parse_extra)
-              rhs:(_ "and" _ rhs:marker_and(parse_extra) { rhs })?
+        rule deeper(levels: usize) -> usize
+            = {? levels.checked_sub(1).ok_or("less deeply nested marker") }
+
+        rule marker_and(parse_extra: ParseExtra, levels: usize) -> marker::EnvMarkerExpr
+            = lhs:marker_expr(parse_extra, levels)
+              rhs:(_ "and" levels:deeper(levels) _ rhs:marker_and(parse_extra, levels) { rhs })?
               {
                   match rhs {
                       Some(rhs) => marker::EnvMarkerExpr::And(Box::new(lhs), Box::new(rhs)),
@@ -140,9 +148,9 @@ peg::parser! {
                   }
               }
 
-        rule marker_or(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = lhs:marker_and(parse_extra)
-              rhs:(_ "or" _ rhs:marker_or(parse_extra) { rhs })?
+        rule marker_or(parse_extra: ParseExtra, levels: usize) -> marker::EnvMarkerExpr
+            = lhs:marker_and(parse_extra, levels)
+              rhs:(_ "or" levels:deeper(levels) _ rhs:marker_or(parse_extra, levels) { rhs })?
               {
                   match rhs {
                       Some(rhs) => marker::EnvMarkerExpr::Or(Box::new(lhs), Box::new(rhs)),
@@ -151,7 +159,15 @@ peg::parser! {
               }
 
         pub rule marker(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = marker_or(parse_extra)
+            = m:marker_or(parse_extra, 3 * MAX_CLAUSES)
+              {?
+                  // Printing a marker adds parentheses, so this is stricter than the
+                  // limit on recursion: what we accept can also be read back.
+                  if m.clauses() > MAX_CLAUSES {
+                      return Err("simpler marker");
+                  }
+                  Ok(m)
+              }
 
         rule quoted_marker(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
             = ";" _ m:marker(parse_extra) { m }
diff --git a/src/vocab/requirement.rs b/src/vocab/requirement.rs
index be8563e..e2de79c 100644
--- a/src/vocab/requirement.rs
+++ b/src/vocab/requirement.rs
@@ -113,6 +113,15 @@ pub mod marker {
     }
 
     impl EnvMarkerExpr {
+        pub fn clauses(&self) -> usize {
+            match self {
+                EnvMarkerExpr::And(lhs, rhs) | EnvMarkerExpr::Or(lhs, rhs) => {
+                    lhs.clauses() + rhs.clauses()
+                }
+                EnvMarkerExpr::Operator { .. } => 1,
+            }
+        }
+
         pub fn eval(&self, env: &dyn Env) -> Result<bool> {
             Ok(match self {
                 EnvMarkerExpr::And(lhs, rhs) => lhs.eval(env)? && rhs.eval(env)?,
-- 
2.43.0


From faf7695fbf0b81b66a3efcb3c529c4a0c4ce7e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 17/57] fix: don't drop large build numbers from artifact names

---
 src/vocab/artifact_name.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/vocab/artifact_name.rs b/src/vocab/artifact_name.rs
index b4bfa15..fbb8a65 100644
--- a/src/vocab/artifact_name.rs
+++ b/src/vocab/artifact_name.rs
@@ -75,7 +75,7 @@ pub struct WheelName {
     //   stuff          => (None, "stuff")
     //
     // And it sorts like a tuple, where None sorts ahead of Some.
-    pub build_number: Option<u32>,
+    pub build_number: Option<u64>,
     pub build_name: String,
     // Should probably be OrderedSet, but there isn't one in the stdlib. Vec
     // takes less memory than a set, plus it preserves ordering, which is
@@ -108,7 +108,7 @@ impl BinaryName for WheelName {
 pub struct PybiName {
     pub distribution: PackageName,
     pub version: Version,
-    pub build_number: Option<u32>,
+    pub build_number: Option<u64>,
     pub build_name: String,
     pub arch_tags: Vec<String>,
 }
@@ -123,7 +123,7 @@ fn generic_parse(
     value: &str,
     suffix: &str,
     tag_parts: u8,
-) -> Result<(PackageName, Version, Option<u32>, String, Vec<Vec<String>>)> {
+) -> Result<(PackageName, Version, Option<u64>, String, Vec<Vec<String>>)> {
     static VALID_CHARS: Lazy<Regex> =
         Lazy::new(|| Regex::new(r"^[A-Za-z0-9_.+!-]*$").unwrap());
 
@@ -145,7 +145,7 @@ fn generic_parse(
     static BUILD_TAG_SPLIT: Lazy<Regex> =
         Lazy::new(|| Regex::new(r"(^[0-9]*)(.*)$").unwrap());
 
-    let build_number: Option<u32>;
+    let build_number: Option<u64>;
     let build_name: String;
     if pieces.len() == 3 + tag_parts as usize {
         let build_tag = pieces.remove(2);
@@ -154,7 +154,10 @@ fn generic_parse(
         }
         // unwrap safe because: the regex cannot fail
         let captures = BUILD_TAG_SPLIT.captures(build_tag).unwrap();
-        build_number = captures.get(1).and_then(|m| m.as_str().parse().ok());
+        build_number = match &captures[1] {
+            "" => None,
+            digits => Some(digits.parse()?),
+        };
         // unwrap safe because: this group will always match something, even
         // if only the empty string
         build_name = captures.get(2).unwrap().as_str().into();
@@ -177,7 +180,7 @@ fn generic_parse(
     Ok((distribution, version, build_number, build_name, tag_sets))
 }
 
-fn format_build_tag(build_number: Option<u32>, build_name: &str) -> String {
+fn format_build_tag(build_number: Option<u64>, build_name: &str) -> String {
     match (build_number, build_name) {
         (None, "") => String::from(""),
         (None, name) => format!("-{}", name),
-- 
2.43.0


From 4e6ce1d89b32e36f1312694711ecf5b0a8b0630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:01 +0000
Subject: [PATCH 18/57] fix: don't read arbitrary suffixes into legacy
 manylinux tags

---
 src/platform_tags/expand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform_tags/expand.rs b/src/platform_tags/expand.rs
index bbcba6d..2e28216 100644
--- a/src/platform_tags/expand.rs
+++ b/src/platform_tags/expand.rs
@@ -7,7 +7,7 @@ static LINUX_RE: Lazy<Regex> = Lazy::new(|| {
 });
 
 static LEGACY_MANYLINUX_RE: Lazy<Regex> =
-    Lazy::new(|| Regex::new(r"^manylinux(2014|2010|1)_([a-zA-Z0-9_]*)").unwrap());
+    Lazy::new(|| Regex::new(r"^manylinux(2014|2010|1)_([a-zA-Z0-9_]*)$").unwrap());
 
 static MACOSX_RE: Lazy<Regex> =
     Lazy::new(|| Regex::new(r"^macosx_([0-9]+)_([0-9]+)_([a-zA-Z0-9_]*)$").unwrap());
-- 
2.43.0


From 601b77e07b121c64fc599319ed7b45c3ca6d824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:11 +0000
Subject: [PATCH 19/57] fix: read percent-encoded file names on index pages

---
 src/package_db/simple_api/html.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/package_db/simple_api/html.rs b/src/package_db/simple_api/html.rs
index 2c9bf42..106ea9c 100644
--- a/src/package_db/simple_api/html.rs
+++ b/src/package_db/simple_api/html.rs
@@ -76,6 +76,28 @@ fn parse_hash(s: &str) -> Option<ArtifactHash> {
     }
 }
 
+// Filenames in URLs may be percent-encoded, e.g. "foo-1.0%2Blocal.tar.gz"
+fn percent_decode(s: &str) -> Option<String> {
+    let hex_digit = |byte: Option<&u8>| (*byte? as char).to_digit(16);
+    let bytes = s.as_bytes();
+    let mut decoded = Vec::with_capacity(bytes.len());
+    let mut i = 0;
+    while i < bytes.len() {
+        if bytes[i] == b'%' {
+            if let (Some(hi), Some(lo)) =
+                (hex_digit(bytes.get(i + 1)), hex_digit(bytes.get(i + 2)))
+            {
+                decoded.push((hi * 16 + lo) as u8);
+                i += 3;
+                continue;
+            }
+        }
+        decoded.push(bytes[i]);
+        i += 1;
+    }
+    String::from_utf8(decoded).ok()
+}
+
 impl Sink {
     fn try_parse_link(
         &self,
@@ -83,7 +105,8 @@ impl Sink {
         attrs: &Vec<Attribute>,
     ) -> Option<Vec<ArtifactInfo>> {
         let url = self.base.join(url_str).ok()?;
-        let name: ArtifactName = url.path_segments()?.next_back()?.try_into().ok()?;
+        let filename = percent_decode(url.path_segments()?.next_back()?)?;
+        let name: ArtifactName = filename.as_str().try_into().ok()?;
         let names = name.split_multiplatform_pybis();
         // We found a valid link
         let hash = url.fragment().and_then(parse_hash);
-- 
2.43.0


From cab03fb11d557908d807c6460200c5821aa3c433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:35 +0000
Subject: [PATCH 20/57] fix: only a <base> with an href sets the base URL of an
 index page

---
 src/package_db/simple_api/html.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/package_db/simple_api/html.rs b/src/package_db/simple_api/html.rs
index 106ea9c..1d9ed9f 100644
--- a/src/package_db/simple_api/html.rs
+++ b/src/package_db/simple_api/html.rs
@@ -179,10 +179,10 @@ impl TreeSink for Sink {
         }
 
         if name.expanded() == BASE_TAG {
-            // HTML spec says that only the first <base> is respected
+            // HTML spec says that only the first <base> with an href is respected
             if !self.changed_base {
-                self.changed_base = true;
                 if let Some(new_base_str) = get_attr(&HREF_ATTR, &attrs) {
+                    self.changed_base = true;
                     if let Ok(new_base) = self.base.join(new_base_str) {
                         self.base = new_base;
                     }
-- 
2.43.0


From 1eb5f45786d6d4dd229113f6e3fbe75ecf45a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:14 +0000
Subject: [PATCH 21/57] fix: ignore other projects' files on a project's index
 page

---
 src/package_db/package_db.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/package_db/package_db.rs b/src/package_db/package_db.rs
index 002a55b..ff00bbf 100644
--- a/src/package_db/package_db.rs
+++ b/src/package_db/package_db.rs
@@ -72,7 +72,9 @@ impl<'db> PackageDB<'db> {
                     &self.http,
                     &index_url.join(&format!("{}/", p.normalized()))?,
                 )?;
-                if let Some(pi) = maybe_pi {
+                if let Some(mut pi) = maybe_pi {
+                    // the page might also link to other projects' files
+                    pi.artifacts.retain(|ai| ai.name.distribution() == p);
                     pack_by_version(pi, &mut packed)?;
                 }
             }
-- 
2.43.0


From f6b6a771249d7afc883a874fb209308862e30a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:48 +0000
Subject: [PATCH 22/57] fix: read back empty version specifiers, like those in
 lock files

---
 src/vocab/specifier.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index bab4df9..ecbf135 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -57,6 +57,10 @@ impl TryFrom<&str> for Specifiers {
     type Error = eyre::Report;
 
     fn try_from(input: &str) -> Result<Self, Self::Error> {
+        // no specifiers at all: anything goes (and that's how we print it, too)
+        if input.trim().is_empty() {
+            return Ok(Specifiers(Vec::new()));
+        }
         let specifiers_or_err = super::reqparse::versionspec(input);
         specifiers_or_err.wrap_err_with(|| {
             format!("failed to parse versions specifiers from {:?}", input)
-- 
2.43.0


From b1b0c9b6e8b1bad3d5203d65db91cb7694919f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:48 +0000
Subject: [PATCH 23/57] fix: read back briefs without allow_pre, as they are
 written

---
 src/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index da2344e..06146fa 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -82,7 +82,7 @@ pub struct Brief {
     pub python: PythonRequirement,
     // don't need python_constraints because we always install exactly one python
     pub requirements: Vec<UserRequirement>,
-    #[serde(skip_serializing_if = "allow_pre_is_empty")]
+    #[serde(default, skip_serializing_if = "allow_pre_is_empty")]
     pub allow_pre: AllowPre,
     // XX TODO
     //pub constraints: Vec<UserRequirement>,
-- 
2.43.0


From eb07eab481a16adac710bbc00faada1914a7ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:10 +0000
Subject: [PATCH 24/57] fix: read allow_pre = ':all:' from any deserializer,
 not only borrowed text

---
 src/resolve.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 06146fa..2b8d9dd 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -34,12 +34,12 @@ impl Default for AllowPre {
 
 #[derive(Serialize, Deserialize)]
 #[serde(untagged)]
-enum AllowPreSerdeHelper<'a> {
+enum AllowPreSerdeHelper {
     Some(HashSet<PackageName>),
-    Other(&'a str),
+    Other(String),
 }
 
-impl<'a> TryFrom<AllowPreSerdeHelper<'a>> for AllowPre {
+impl TryFrom<AllowPreSerdeHelper> for AllowPre {
     type Error = eyre::Report;
 
     fn try_from(value: AllowPreSerdeHelper) -> Result<Self, Self::Error> {
@@ -56,11 +56,11 @@ impl<'a> TryFrom<AllowPreSerdeHelper<'a>> for AllowPre {
     }
 }
 
-impl<'a> From<AllowPre> for AllowPreSerdeHelper<'a> {
+impl From<AllowPre> for AllowPreSerdeHelper {
     fn from(value: AllowPre) -> Self {
         match value {
             AllowPre::Some(pkgs) => AllowPreSerdeHelper::Some(pkgs),
-            AllowPre::All => AllowPreSerdeHelper::Other(":all:"),
+            AllowPre::All => AllowPreSerdeHelper::Other(":all:".into()),
         }
     }
 }
-- 
2.43.0


From 0f95209c8a25c748ca113f37267291de4b18d7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 25/57] fix: refuse hashes that cannot name an entry of a store

The algorithm and value of a hash come from index pages, and both become file
names in the stores: '../../x=00..' or '/x=...' left the store, and values of
less than three bytes made the store panic.
---
 src/vocab/artifact_hash.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vocab/artifact_hash.rs b/src/vocab/artifact_hash.rs
index f8b1c79..f27fac0 100644
--- a/src/vocab/artifact_hash.rs
+++ b/src/vocab/artifact_hash.rs
@@ -8,9 +8,20 @@ pub struct ArtifactHash {
 
 impl ArtifactHash {
     pub fn from_hex(mode: &str, hex: &str) -> Result<ArtifactHash> {
+        // Hashes come from index pages, and both parts end up in file names inside our
+        // stores (see PathKey), so make sure that they look like a hash.
+        if mode.is_empty() || !mode.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_')
+        {
+            bail!("invalid hash algorithm name {:?}", mode);
+        }
+        let raw_data = data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())?;
+        // the shortest hash in common use is md5
+        if raw_data.len() < 16 {
+            bail!("hash value {:?} is too short", hex);
+        }
         Ok(ArtifactHash {
             mode: mode.into(),
-            raw_data: data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())?,
+            raw_data,
         })
     }
 
-- 
2.43.0


From 2281eb624bc68eb491dd340ab02b640f7ab0e18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 26/57] fix: accept directory entries for directories that
 exist already

An archive may name a directory after the files in it, or more than once, or
name its own root.
---
 src/tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index 7d6a689..80b6f0e 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -230,7 +230,8 @@ impl WriteTreeFS {
 impl WriteTree for WriteTreeFS {
     fn mkdir(&mut self, path: &NicePathBuf) -> Result<()> {
         context!("Creating {path}/");
-        Ok(fs::create_dir(self.full_path(path)?)?)
+        // It may be there already, because of an earlier member of the archive.
+        Ok(fs::create_dir_all(self.full_path(path)?)?)
     }
 
     fn write_file(
-- 
2.43.0


From 171d90ce2fcc51bfa7c5994133cd735e636bea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 27/57] fix: keep the executable bit of files in wheels

---
 src/vocab/artifact_formats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vocab/artifact_formats.rs b/src/vocab/artifact_formats.rs
index 3af87a6..cadbf75 100644
--- a/src/vocab/artifact_formats.rs
+++ b/src/vocab/artifact_formats.rs
@@ -561,7 +561,7 @@ where
         &mut self,
         path: &NicePathBuf,
         mut data: &mut dyn Read,
-        _executable: bool,
+        executable: bool,
     ) -> Result<()> {
         if let Some((fixed_path, is_script)) = self.analyze_path(path)? {
             if is_script {
@@ -591,7 +591,7 @@ where
                     self.dest.write_file(&fixed_path, &mut bufread, true)?;
                 }
             } else {
-                self.dest.write_file(&fixed_path, data, false)?;
+                self.dest.write_file(&fixed_path, data, executable)?;
             }
         }
         Ok(())
-- 
2.43.0


From f3523cee548115d1cadc8cf1e64b44e0b825611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 28/57] fix: put a newline between a launcher's shell part and
 its script

Otherwise the script's first line continues the shell part's last one, which is a
syntax error unless it's a comment.
---
 src/trampolines/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trampolines/mod.rs b/src/trampolines/mod.rs
index f9f4f6e..1035b40 100644
--- a/src/trampolines/mod.rs
+++ b/src/trampolines/mod.rs
@@ -61,6 +61,8 @@ impl TrampolineMaker {
             ScriptType::GUI => UNIX_TEMPLATE.replace("POSY_PYTHON", "POSY_PYTHONW"),
         };
         let mut out = prefix.into_bytes();
+        // indoc! drops the template's last newline
+        out.push(b'\n');
         out.extend_from_slice(script);
         out
     }
-- 
2.43.0


From 0c9c53c93dbec5c86c9dc260925ffdc236f41f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 29/57] fix: recognize scripts even if their first bytes arrive
 one by one

---
 src/vocab/artifact_formats.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vocab/artifact_formats.rs b/src/vocab/artifact_formats.rs
index cadbf75..bf9bc84 100644
--- a/src/vocab/artifact_formats.rs
+++ b/src/vocab/artifact_formats.rs
@@ -569,8 +569,12 @@ where
                 // contain large compiled binaries as "scripts", so it's nicer not to
                 // load the whole thing into memory until we know what we're dealing
                 // with.
-                let mut bufread = BufReader::new(&mut data);
-                let script_start = bufread.fill_buf()?;
+                // (But not by fill_buf, which may come back with less than we need.)
+                let mut script_start = Vec::new();
+                (&mut data)
+                    .take("#!pythonw".len() as u64)
+                    .read_to_end(&mut script_start)?;
+                let mut bufread = BufReader::new(script_start.as_slice().chain(data));
                 if script_start.starts_with(b"#!python") {
                     // it's some kind of script, but which kind?
                     let script_type = if script_start.starts_with(b"#!pythonw") {
-- 
2.43.0


From 6d1834119c9499083e21f3b6c4d061fbc26befcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 30/57] fix: don't leave out sparse files when unpacking a tar
 file

---
 src/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index 80b6f0e..ab65e50 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -335,7 +335,7 @@ pub fn unpack_tar_gz_carefully<T: Read + Seek, W: WriteTree>(
                 bail!("sdist entry {} has unsupported type {:?}", path, kind)
             }
             Directory => dest.mkdir(&path)?,
-            GNULongName | GNULongLink | GNUSparse | XGlobalHeader | XHeader => (),
+            GNULongName | GNULongLink | XGlobalHeader | XHeader => (),
             _ => {
                 dest.write_file(&path, &mut entry, is_executable)?;
             }
-- 
2.43.0


From 9c5360a2bba44657c4542cf07bab25b133aef90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 31/57] fix: keep the declared encoding of a script behind a
 launcher

---
 src/trampolines/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/trampolines/mod.rs b/src/trampolines/mod.rs
index 1035b40..5979b42 100644
--- a/src/trampolines/mod.rs
+++ b/src/trampolines/mod.rs
@@ -61,6 +61,11 @@ impl TrampolineMaker {
             ScriptType::GUI => UNIX_TEMPLATE.replace("POSY_PYTHON", "POSY_PYTHONW"),
         };
         let mut out = prefix.into_bytes();
+        // A declared encoding only counts in the first two lines of a file.
+        if let Some(m) = CODING_LINE.find(script) {
+            let shebang_end = out.iter().position(|b| *b == b'\n').unwrap() + 1;
+            out.splice(shebang_end..shebang_end, [m.as_bytes(), b"\n"].concat());
+        }
         // indoc! drops the template's last newline
         out.push(b'\n');
         out.extend_from_slice(script);
@@ -89,6 +94,12 @@ impl TrampolineMaker {
     }
 }
 
+// From PEP 263. The script's own first line (its shebang) is gone already.
+static CODING_LINE: Lazy<regex::bytes::Regex> = Lazy::new(|| {
+    regex::bytes::Regex::new(r"\A[ \t\x0c]*#[^\n]*?coding[:=][ \t]*[-_.a-zA-Z0-9]+")
+        .unwrap()
+});
+
 const UNIX_TEMPLATE: &str = indoc::indoc! {r#"
     #!/bin/sh
     ''':'
-- 
2.43.0


From b8ca84bbb0795df65cdaab7f9ca4eab6e03a2e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 32/57] fix: allow identifiers of one letter in entry points

Any other identifiers, too: those with letters outside of ASCII. But not things like
"a..b". Entries before the first section, which were only refused if their modules had
one letter, are always refused.
---
 src/vocab/entry_points.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index ebea403..57fb799 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -21,9 +21,9 @@ static ENTRY_LINE: Lazy<Regex> = Lazy::new(|| {
           ^
           (?P<name> .*?)
           \s* = \s*
-          (?P<module> [a-zA-Z_][a-zA-Z0-9_.]+)
+          (?P<module> [^\W\d]\w* (\. [^\W\d]\w*)*)
           \s*
-          (: \s* (?P<object> [a-zA-Z_][a-zA-Z0-9_.]+))?
+          (: \s* (?P<object> [^\W\d]\w* (\. [^\W\d]\w*)*))?
           \s*
           # 'Consumers should support parsing [extras] ... but may then ignore them'
           (\[ .* \])?
@@ -43,7 +43,7 @@ pub struct Entrypoint {
 }
 
 pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoint>>> {
-    let mut current_section_name = Some(String::new());
+    let mut current_section_name: Option<String> = None;
     let mut current_entries = Vec::<Entrypoint>::new();
     let mut result = HashMap::<String, Vec<Entrypoint>>::new();
     for line in contents.split('\n') {
-- 
2.43.0


From b3eb07986837b4ce97daa0e7e2cbed79ec752c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 33/57] fix: don't allow "=" or outer whitespace in the names
 of entry points

---
 src/vocab/entry_points.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index 57fb799..a231dfb 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -19,7 +19,7 @@ static ENTRY_LINE: Lazy<Regex> = Lazy::new(|| {
     Regex::new(
         r"(?x)
           ^
-          (?P<name> .*?)
+          \s* (?P<name> [^=]*? [^=\s])
           \s* = \s*
           (?P<module> [^\W\d]\w* (\. [^\W\d]\w*)*)
           \s*
-- 
2.43.0


From 6c10e3b3f76bcb5e950a9b46a7f6a31dd5dd9718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 34/57] fix: allow "#" and ";" in the names of entry points

They begin a comment only at the start of a line or after whitespace.
---
 src/vocab/entry_points.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index a231dfb..ff3c63a 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -11,7 +11,7 @@ use crate::prelude::*;
 //
 // For entry_points.txt, these are all fine.
 
-static COMMENT: Lazy<Regex> = Lazy::new(|| Regex::new(r"[#;][^\n]*").unwrap());
+static COMMENT: Lazy<Regex> = Lazy::new(|| Regex::new(r"(^|\s)[#;][^\n]*").unwrap());
 static EMPTY_LINE: Lazy<Regex> = Lazy::new(|| Regex::new(r"^\s*$").unwrap());
 static HEADER_LINE: Lazy<Regex> =
     Lazy::new(|| Regex::new(r"^\s*\[(?P<name>.+)\]\s*$").unwrap());
-- 
2.43.0


From c0f2c211b4af0bded59e2b50e9cabc8da6c75738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 35/57] fix: keep all entry points of a section that comes in
 several parts

---
 src/vocab/entry_points.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index ff3c63a..bdeb595 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -44,7 +44,6 @@ pub struct Entrypoint {
 
 pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoint>>> {
     let mut current_section_name: Option<String> = None;
-    let mut current_entries = Vec::<Entrypoint>::new();
     let mut result = HashMap::<String, Vec<Entrypoint>>::new();
     for line in contents.split('\n') {
         let line = COMMENT.replace(line, "");
@@ -52,30 +51,27 @@ pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoi
             continue;
         } else if let Some(captures) = HEADER_LINE.captures(line.as_ref()) {
             let section_name = captures.name("name").unwrap().as_str();
-            if !current_entries.is_empty() {
-                result.insert(current_section_name.unwrap(), current_entries);
-            }
             current_section_name = Some(section_name.into());
-            current_entries = Vec::new();
         } else if let Some(captures) = ENTRY_LINE.captures(line.as_ref()) {
-            if current_section_name.is_none() {
+            let Some(section_name) = &current_section_name else {
                 bail!("missing section name in entry_points.txt");
-            }
+            };
             let name = captures.name("name").unwrap().as_str().to_string();
             let module = captures.name("module").unwrap().as_str().to_string();
             let object = captures.name("object").map(|m| m.as_str().to_string());
-            current_entries.push(Entrypoint {
-                name,
-                module,
-                object,
-            });
+            // a section may come in several parts
+            result
+                .entry(section_name.clone())
+                .or_default()
+                .push(Entrypoint {
+                    name,
+                    module,
+                    object,
+                });
         } else {
             bail!("malformed entry_points.txt line: '{line}'");
         }
     }
-    if !current_entries.is_empty() {
-        result.insert(current_section_name.unwrap(), current_entries);
-    }
     Ok(result)
 }
 
-- 
2.43.0


From 811b2d37446a4c76729d1cce8f8f6b756f495157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 36/57] fix: honour every requirement on a package, not just
 the last one

---
 src/resolve.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 2b8d9dd..0ddb292 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -706,6 +706,20 @@ impl Display for ResPkg {
     }
 }
 
+// The same package can be required several times (e.g. with different markers), and then
+// all the requirements have to hold.
+fn add_constraint(
+    dc: &mut DependencyConstraints<ResPkg, Version>,
+    pkg: ResPkg,
+    range: Range<Version>,
+) {
+    let range = match dc.get(&pkg) {
+        Some(previous) => previous.intersection(&range),
+        None => range,
+    };
+    dc.insert(pkg, range);
+}
+
 impl<'a> PubgrubState<'a> {
     fn requirements_to_pubgrub<'r, R, I>(
         &self,
@@ -742,7 +756,7 @@ impl<'a> PubgrubState<'a> {
                 let pkg = ResPkg::Package(req.name.clone(), maybe_extra);
                 let range = specifiers_to_pubgrub(&req.specifiers)?;
                 trace!("adding dependency: {} {}", pkg, range);
-                dc.insert(pkg, range);
+                add_constraint(dc, pkg, range);
             }
         }
         Ok(())
@@ -863,7 +877,8 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                             inner.as_given()
                         ))?;
                     }
-                    dc.insert(
+                    add_constraint(
+                        &mut dc,
                         ResPkg::Package(name.clone(), None),
                         Range::exact(version.clone()),
                     );
-- 
2.43.0


From d0845f8decf1af9e4d0ce4508a5f8f01e12c2c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 37/57] fix: a release with unsatisfiable requirements is
 passed over, not fatal

---
 src/resolve.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index 0ddb292..24d5ea3 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -884,6 +884,18 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                     );
                 }
 
+                // pubgrub gives up entirely on these, so sort them out here
+                if let Some(range) = dc.remove(pkg) {
+                    if !range.contains(version) {
+                        trace!("<---- unusable: excludes itself");
+                        return Ok(Dependencies::Unknown);
+                    }
+                }
+                if dc.values().any(|range| *range == Range::none()) {
+                    trace!("<---- unusable: contradictory requirements");
+                    return Ok(Dependencies::Unknown);
+                }
+
                 trace!("<---- dependencies complete");
                 Ok(Dependencies::Known(dc))
             }
-- 
2.43.0


From d5a12d8d1ceacd260b568079ed8bffe73c8d63a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 38/57] fix: a release without a requested extra is passed
 over, not fatal

---
 src/resolve.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 24d5ea3..03d3130 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -871,11 +871,13 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
 
                 if let Some(inner) = extra {
                     if !metadata.extras.contains(inner) {
-                        Err(eyre!(
-                            "package {} has no extra [{}]",
+                        warn!(
+                            "package {} {} has no extra [{}]",
                             name.as_given(),
+                            version,
                             inner.as_given()
-                        ))?;
+                        );
+                        return Ok(Dependencies::Unknown);
                     }
                     add_constraint(
                         &mut dc,
-- 
2.43.0


From f8eac2b5e25970908ed6f97ee1bf36a6cb3be81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 39/57] fix: a release whose metadata rules out our python is
 passed over, not fatal

---
 src/resolve.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 03d3130..359914d 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -817,11 +817,13 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                         .requires_python
                         .satisfied_by(&self.python_full_version)?
                     {
-                        Err(eyre!(
-                            "{} {}: bad requires-python, but pypi didn't tell us!",
+                        // the index didn't tell us, or we'd have skipped it already
+                        warn!(
+                            "{} {}: metadata says it doesn't support this python",
                             name.as_given(),
                             version
-                        ))?;
+                        );
+                        continue;
                     }
                     trace!("<---- decision: {} {}", respkg.borrow(), version);
                     return Ok((respkg, Some(version.clone())));
-- 
2.43.0


From 85372f34e8efc2213df52549e2d650ab6e8feed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 40/57] fix: a file with an invalid python requirement is
 ignored, not fatal

---
 src/resolve.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 359914d..b7d0ee8 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -396,9 +396,19 @@ fn fetch_and_sort_versions<'a>(
             if let (Some(python_version), Some(requires_python)) =
                 (python_version, &ai.requires_python)
             {
-                let requires_python: Specifiers = requires_python.parse()?;
-                if !requires_python.satisfied_by(python_version)? {
-                    continue;
+                let supported = requires_python
+                    .parse::<Specifiers>()
+                    .and_then(|specifiers| specifiers.satisfied_by(python_version));
+                match supported {
+                    Ok(true) => (),
+                    Ok(false) => continue,
+                    Err(_) => {
+                        warn!(
+                            "ignoring {}, with invalid requires-python {:?}",
+                            ai.url, requires_python
+                        );
+                        continue;
+                    }
                 }
             }
             // we found a valid artifact for this version. So this version is valid, and
-- 
2.43.0


From bfd65c0a76ba573e8ef7c9f4f49a26612a7bfc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:19 +0000
Subject: [PATCH 41/57] fix: keep a pinned pre-release, as the README says

---
 src/resolve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index b7d0ee8..d552565 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -380,7 +380,10 @@ fn fetch_and_sort_versions<'a>(
     };
 
     for (version, ais) in artifacts.iter() {
-        if !allow_prerelease && version.is_prerelease() {
+        if !allow_prerelease
+            && version.is_prerelease()
+            && version_hint != Some(&version)
+        {
             continue;
         }
         for ai in ais {
-- 
2.43.0


From 134f64e6f5dc39606cc14acb44bf20b4817dd63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 42/57] fix: install the most specific compatible binary, not
 the least

---
 src/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index 1403593..901b9b2 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -58,7 +58,7 @@ where
                 None
             })
             .collect::<Vec<_>>();
-        scored_candidates.sort_unstable_by_key(|(_, score)| *score);
+        scored_candidates.sort_by_key(|(_, score)| std::cmp::Reverse(*score));
         for (ai, _) in scored_candidates {
             if ai.hash.is_none() {
                 warn!("best scoring artifact {} has no hash", ai.name);
-- 
2.43.0


From 176213b1b578b39e3bc326f383c018667a54c895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 43/57] fix: only build sdists that the lock file lists

---
 src/env.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index 901b9b2..ae1c41c 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -183,7 +183,13 @@ impl EnvForest {
                         if let Some(sdist_ai) = db
                             .artifacts_for_version(&pin.name, &pin.version)?
                             .iter()
-                            .find(|ai| ai.is::<Sdist>())
+                            .find(|ai| {
+                                ai.is::<Sdist>()
+                                    && ai
+                                        .hash
+                                        .as_ref()
+                                        .map_or(false, |hash| pin.hashes.contains(hash))
+                            })
                         {
                             context!("using sdist from {}", sdist_ai.url);
                             let sdist_hash = sdist_ai.require_hash()?;
-- 
2.43.0


From 83c81a92efeb8d26991f4842e5934970fd04a247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 44/57] fix: wheels with headers can be installed

---
 src/env.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/env.rs b/src/env.rs
index ae1c41c..8145239 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -146,6 +146,7 @@ impl EnvForest {
             ("scripts".into(), "bin".try_into().unwrap()),
             ("purelib".into(), "lib".try_into().unwrap()),
             ("platlib".into(), "lib".try_into().unwrap()),
+            ("headers".into(), "include".try_into().unwrap()),
             ("data".into(), ".".try_into().unwrap()),
         ]);
 
-- 
2.43.0


From b924db58ee17195f169003b7e14217c8fa612ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 45/57] fix: an empty environment does not put the current
 directory on sys.path

---
 src/data-files/sitecustomize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data-files/sitecustomize.py b/src/data-files/sitecustomize.py
index 3236cd9..58a590b 100644
--- a/src/data-files/sitecustomize.py
+++ b/src/data-files/sitecustomize.py
@@ -3,7 +3,9 @@ import os, sys, site
 if "POSY_PYTHON_PACKAGES" in os.environ:
     paths = os.environ["POSY_PYTHON_PACKAGES"].split(os.pathsep)
     for path in paths:
-        site.addsitedir(path)
+        # ''.split() gives [''], and addsitedir('') would add the current directory
+        if path:
+            site.addsitedir(path)
 else:
     sys.stderr.write("This Python is managed by, and should be launched by, Posy.\n")
     sys.stderr.write("Unexpected things may happen if you continue.\n")
-- 
2.43.0


From 86498da3f672b237b2305e69f446c71e8f3b7d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 46/57] fix: a build dependency loop fails instead of waiting
 forever for its own lock

---
 src/env.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/env.rs b/src/env.rs
index 8145239..60423bc 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -221,7 +221,11 @@ impl EnvForest {
                                 (sdist_ai, handle.join(name))
                             } else {
                                 // couldn't find one already installed... try to
-                                // build one and install it
+                                // build one and install it. Don't hold our lock
+                                // meanwhile: if building this involves installing
+                                // this same sdist (a build dependency loop), then
+                                // that has to fail, not wait for us forever.
+                                drop(handle);
                                 // unwrap is ok b/c we know we're passing an sdist
                                 // ai here
                                 let local_wheel = db
@@ -231,15 +235,19 @@ impl EnvForest {
                                         &wheel_platform,
                                     )
                                     .unwrap()?;
-                                let tmp = handle.tempdir()?;
-                                local_wheel.unpack(
-                                    &paths,
-                                    &trampoline_maker,
-                                    WriteTreeFS::new(&tmp),
-                                )?;
+                                let handle = self.store.lock(&sdist_hash)?;
                                 let wheel_root =
                                     handle.join(local_wheel.name().to_string());
-                                fs::rename(tmp.into_path(), &wheel_root)?;
+                                // unless someone else was faster
+                                if !wheel_root.exists() {
+                                    let tmp = handle.tempdir()?;
+                                    local_wheel.unpack(
+                                        &paths,
+                                        &trampoline_maker,
+                                        WriteTreeFS::new(&tmp),
+                                    )?;
+                                    fs::rename(tmp.into_path(), &wheel_root)?;
+                                }
                                 (sdist_ai, wheel_root)
                             }
                         } else {
-- 
2.43.0


From 6952c56af5abf43858d09eedb619db3943524389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:04 +0000
Subject: [PATCH 47/57] fix: give build backends the metadata directory they
 made, not its parent

---
 src/package_db/data-files/build-frontend.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/package_db/data-files/build-frontend.py b/src/package_db/data-files/build-frontend.py
index afa8566..8ce394e 100644
--- a/src/package_db/data-files/build-frontend.py
+++ b/src/package_db/data-files/build-frontend.py
@@ -71,9 +71,15 @@ if goal == "WheelMetadata" and hasattr(backend, "prepare_metadata_for_build_whee
 
 wheel_dir = work_dir / "build_wheel"
 wheel_dir.mkdir()
+if metadata_dir.exists():
+    # PEP 517 wants the .dist-info directory itself, not the directory it's in
+    dist_info = (work_dir / "prepare_metadata_for_build_wheel.out").read_text("utf-8")
+    metadata_directory = str(metadata_dir / dist_info)
+else:
+    metadata_directory = None
 wheel_basename = backend.build_wheel(
     str(wheel_dir),
-    metadata_directory=str(metadata_dir) if metadata_dir.exists() else None,
+    metadata_directory=metadata_directory,
 )
 
 (work_dir / "build_wheel.out").write_text(wheel_basename, "utf-8")
-- 
2.43.0


From 8b7f18132d8c2ca9fcf252e68d7c2309c5afb58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:13 +0000
Subject: [PATCH 48/57] fix: a build backend that exits early is an error, not
 run again forever

---
 src/package_db/build_wheel.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index da575b2..b694ed1 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -354,6 +354,7 @@ impl<'a> WheelBuilder<'a> {
         let build_wheel = handle.join("build_wheel");
         let prepare_metadata_for_build_wheel =
             handle.join("prepare_metadata_for_build_wheel");
+        let mut steps = 0;
         loop {
             // If we have a wheel, we're definitely done, no matter what our goal was
             if build_wheel.exists() {
@@ -400,7 +401,12 @@ impl<'a> WheelBuilder<'a> {
                     dist_info: prepare_metadata_for_build_wheel.join(name),
                 });
             }
-            // Otherwise, we're not done. Turn the crank again.
+            // Otherwise, we're not done. Turn the crank again. At most, this takes one
+            // step to find the dynamic build requirements, and one to reach the goal.
+            if steps == 2 {
+                bail!("build backend exited without finishing the build");
+            }
+            steps += 1;
             self.pep517_step(&handle, goal, new_build_stack)?;
         }
     }
-- 
2.43.0


From c956c7eb347618a7b631522dd831d944b5828395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 49/57] fix: only accept locally built wheels of the right
 package and version

---
 src/package_db/build_wheel.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index b694ed1..22b4402 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -362,6 +362,11 @@ impl<'a> WheelBuilder<'a> {
                 let name =
                     String::from_utf8(fs::read(handle.join("build_wheel.out"))?)?;
                 let mut wheel_name: WheelName = name.parse()?;
+                if &wheel_name.distribution != sdist_ai.name.distribution()
+                    || &wheel_name.version != sdist_ai.name.version()
+                {
+                    bail!("building {} made the wrong wheel: {name}", sdist_ai.name);
+                }
                 let wheel_path = build_wheel.join(&name);
                 // Get the most-restrictive wheel tag compatible with the build
                 // environment.
-- 
2.43.0


From 649f56d4dba8678890fb46d06486bcb7c0283884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 50/57] fix: a build that failed or was interrupted can be
 tried again

---
 src/package_db/build_wheel.rs               | 12 ++++---
 src/package_db/data-files/build-frontend.py | 37 ++++++++++++++++-----
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 22b4402..c8e97b0 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -351,16 +351,20 @@ impl<'a> WheelBuilder<'a> {
             fs::rename(&tempdir.into_path(), &*handle)?;
         }
 
+        // the .out files are only written once everything else is in place
         let build_wheel = handle.join("build_wheel");
+        let build_wheel_out = handle.join("build_wheel.out");
         let prepare_metadata_for_build_wheel =
             handle.join("prepare_metadata_for_build_wheel");
+        let prepare_metadata_for_build_wheel_out =
+            handle.join("prepare_metadata_for_build_wheel.out");
         let mut steps = 0;
         loop {
             // If we have a wheel, we're definitely done, no matter what our goal was
-            if build_wheel.exists() {
+            if build_wheel_out.exists() {
                 // Get the name the build backend returned
                 let name =
-                    String::from_utf8(fs::read(handle.join("build_wheel.out"))?)?;
+                    String::from_utf8(fs::read(&build_wheel_out)?)?;
                 let mut wheel_name: WheelName = name.parse()?;
                 if &wheel_name.distribution != sdist_ai.name.distribution()
                     || &wheel_name.version != sdist_ai.name.version()
@@ -396,10 +400,10 @@ impl<'a> WheelBuilder<'a> {
 
             // Or if our goal is metadata and we have it, we're done
             if goal == Pep517Goal::WheelMetadata
-                && prepare_metadata_for_build_wheel.exists()
+                && prepare_metadata_for_build_wheel_out.exists()
             {
                 let name = String::from_utf8(fs::read(
-                    handle.join("prepare_metadata_for_build_wheel.out"),
+                    &prepare_metadata_for_build_wheel_out,
                 )?)?;
                 return Ok(Pep517Succeeded::WheelMetadata {
                     handle,
diff --git a/src/package_db/data-files/build-frontend.py b/src/package_db/data-files/build-frontend.py
index 8ce394e..3ddb9c5 100644
--- a/src/package_db/data-files/build-frontend.py
+++ b/src/package_db/data-files/build-frontend.py
@@ -2,6 +2,8 @@ import sys
 
 # Import names we'll need out of an abundance of caution, in case the backend ends up
 # monkeypatching the original module or something.
+import os
+import shutil
 from pathlib import Path
 from importlib import import_module
 from sys import exit
@@ -31,6 +33,23 @@ distutils.sysconfig.get_python_inc = get_python_inc
 (work_dir, goal, binary_wheel_tag) = sys.argv[1:]
 
 work_dir = Path(work_dir)
+
+
+# Posy looks for these files to find out what has been done already, so they have to
+# appear all at once, and only after whatever they announce.
+def write_result(name, text):
+    tmp = work_dir / (name + ".tmp")
+    tmp.write_text(text, "utf-8")
+    os.replace(tmp, work_dir / name)
+
+
+# If an earlier attempt failed half way, start again from nothing.
+def fresh_dir(path):
+    if path.exists():
+        shutil.rmtree(path)
+    path.mkdir()
+
+
 build_system = loads((work_dir / "build-system.json").read_text("utf-8"))
 
 backend_paths = []
@@ -57,24 +76,24 @@ if not (work_dir / "get_requires_for_build_wheel").exists():
         requires = []
     else:
         requires = f()
-    (work_dir / "get_requires_for_build_wheel").write_text(dumps(requires), "utf-8")
+    write_result("get_requires_for_build_wheel", dumps(requires))
     if requires:
         exit(0)
 
 metadata_dir = work_dir / "prepare_metadata_for_build_wheel"
 
 if goal == "WheelMetadata" and hasattr(backend, "prepare_metadata_for_build_wheel"):
-    metadata_dir.mkdir()
+    fresh_dir(metadata_dir)
     dist_info = backend.prepare_metadata_for_build_wheel(str(metadata_dir))
-    (work_dir / "prepare_metadata_for_build_wheel.out").write_text(dist_info, "utf-8")
+    write_result("prepare_metadata_for_build_wheel.out", dist_info)
     exit(0)
 
 wheel_dir = work_dir / "build_wheel"
-wheel_dir.mkdir()
-if metadata_dir.exists():
+fresh_dir(wheel_dir)
+metadata_out = work_dir / "prepare_metadata_for_build_wheel.out"
+if metadata_out.exists():
     # PEP 517 wants the .dist-info directory itself, not the directory it's in
-    dist_info = (work_dir / "prepare_metadata_for_build_wheel.out").read_text("utf-8")
-    metadata_directory = str(metadata_dir / dist_info)
+    metadata_directory = str(metadata_dir / metadata_out.read_text("utf-8"))
 else:
     metadata_directory = None
 wheel_basename = backend.build_wheel(
@@ -82,6 +101,6 @@ wheel_basename = backend.build_wheel(
     metadata_directory=metadata_directory,
 )
 
-(work_dir / "build_wheel.out").write_text(wheel_basename, "utf-8")
-(work_dir / "build_wheel.binary_wheel_tag").write_text(binary_wheel_tag, "utf-8")
+write_result("build_wheel.binary_wheel_tag", binary_wheel_tag)
+write_result("build_wheel.out", wheel_basename)
 exit(0)
-- 
2.43.0


From ab1c235e64b037fc4cd60998098ee37406735c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 51/57] fix: a wheel being copied into the cache only appears
 there when it's complete

---
 src/package_db/build_wheel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index c8e97b0..4039ace 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -391,7 +391,12 @@ impl<'a> WheelBuilder<'a> {
                 fs::create_dir_all(&wheel_cache_handle)?;
                 let target_path = wheel_cache_handle.join(wheel_name.to_string());
                 if fs::rename(&wheel_path, &target_path).is_err() {
-                    fs::copy(&wheel_path, &target_path)?;
+                    // maybe it's on another filesystem; a copy must not appear in the
+                    // cache before it's complete
+                    let tmp = wheel_cache_handle.tempdir()?;
+                    let tmp_path = tmp.path().join("wheel");
+                    fs::copy(&wheel_path, &tmp_path)?;
+                    fs::rename(&tmp_path, &target_path)?;
                 }
                 let opened = fs::File::open(target_path)?;
                 let wheel = Wheel::new(wheel_name, Box::new(opened))?;
-- 
2.43.0


From 76a339ca5c9e011b702fcd3f7b8149f6ceef11ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:16 +0000
Subject: [PATCH 52/57] fix: building metadata and wheels takes the locks in
 the same order

---
 src/package_db/build_wheel.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 4039ace..8ec9a86 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -154,7 +154,7 @@ impl<'a> WheelBuilder<'a> {
         match self.pep517(
             sdist_ai,
             Pep517Goal::Wheel,
-            Some(handle),
+            handle,
             &new_build_stack,
         )? {
             Pep517Succeeded::Wheel { wheel } => {
@@ -178,10 +178,15 @@ impl<'a> WheelBuilder<'a> {
         trace!("Getting metadata from source for {} {}", sdist_ai.name.distribution().as_given(), sdist_ai.name.version());
         let new_build_stack = self.new_build_stack(sdist_ai.name.distribution())?;
 
+        // We'll need this lock if it comes to building a wheel. Take it now, because
+        // locally_built_wheel also takes it before locking the build directory.
+        let wheel_cache_handle =
+            self.db.wheel_cache.lock(sdist_ai.require_hash()?)?;
+
         match self.pep517(
             sdist_ai,
             Pep517Goal::WheelMetadata,
-            None,
+            wheel_cache_handle,
             &new_build_stack,
         )? {
             Pep517Succeeded::WheelMetadata {
@@ -334,7 +339,7 @@ impl<'a> WheelBuilder<'a> {
         &self,
         sdist_ai: &ArtifactInfo,
         goal: Pep517Goal,
-        wheel_cache_handle: Option<KVDirLock>,
+        wheel_cache_handle: KVDirLock,
         new_build_stack: &[&PackageName],
     ) -> Result<Pep517Succeeded> {
         let sdist_hash = sdist_ai.require_hash()?;
@@ -384,10 +389,6 @@ impl<'a> WheelBuilder<'a> {
                     wheel_name.arch_tags = vec![build_arch.into()]
                 }
                 // Store the wheel in the wheel cache
-                let wheel_cache_handle = match wheel_cache_handle {
-                    Some(h) => h,
-                    None => self.db.wheel_cache.lock(&sdist_hash)?,
-                };
                 fs::create_dir_all(&wheel_cache_handle)?;
                 let target_path = wheel_cache_handle.join(wheel_name.to_string());
                 if fs::rename(&wheel_path, &target_path).is_err() {
-- 
2.43.0


From cb9f68cf7866e9e8a4dc696165da6f23ac3f9467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 53/57] fix: a build directory whose wheel was moved to the
 cache can be used again

---
 src/package_db/build_wheel.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 8ec9a86..6ad34ee 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -366,10 +366,15 @@ impl<'a> WheelBuilder<'a> {
         let mut steps = 0;
         loop {
             // If we have a wheel, we're definitely done, no matter what our goal was
-            if build_wheel_out.exists() {
+            // (unless we've already moved the wheel into the cache, and now need another)
+            let built_wheel = if build_wheel_out.exists() {
                 // Get the name the build backend returned
-                let name =
-                    String::from_utf8(fs::read(&build_wheel_out)?)?;
+                Some(String::from_utf8(fs::read(&build_wheel_out)?)?)
+                    .filter(|name| build_wheel.join(name).exists())
+            } else {
+                None
+            };
+            if let Some(name) = built_wheel {
                 let mut wheel_name: WheelName = name.parse()?;
                 if &wheel_name.distribution != sdist_ai.name.distribution()
                     || &wheel_name.version != sdist_ai.name.version()
-- 
2.43.0


From cabe4e393e660ea54d6b4c9c720eabdcaf56b829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 54/57] fix: don't reuse a build directory for another python

---
 src/package_db/build_wheel.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 6ad34ee..7fd4402 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -335,6 +335,15 @@ impl<'a> WheelBuilder<'a> {
         Ok((blueprint, env))
     }
 
+    fn build_target(&self, platform_core_tag: &str) -> String {
+        format!(
+            "{} {} {}",
+            self.target_python.normalized(),
+            self.target_python_version,
+            platform_core_tag,
+        )
+    }
+
     fn pep517(
         &self,
         sdist_ai: &ArtifactInfo,
@@ -345,6 +354,19 @@ impl<'a> WheelBuilder<'a> {
         let sdist_hash = sdist_ai.require_hash()?;
         let handle = self.db.build_store.lock(&sdist_hash)?;
 
+        // If this directory was used to build for another python or platform, then what's
+        // in there is no use to us.
+        if let Ok(built_for) = fs::read_to_string(handle.join("built-for")) {
+            let usable = self
+                .build_platforms
+                .iter()
+                .any(|p| built_for == self.build_target(p.core_tag()));
+            if !usable {
+                let trash = handle.tempdir()?;
+                fs::rename(&*handle, trash.path().join("old"))?;
+            }
+        }
+
         if !handle.exists() {
             let tempdir = handle.tempdir()?;
             let sdist = self.db.get_artifact::<Sdist>(sdist_ai)?;
@@ -488,6 +510,10 @@ impl<'a> WheelBuilder<'a> {
             .next()
             .ok_or_else(|| eyre!("no wheel tags?"))?;
 
+        fs::write(
+            handle.join("built-for"),
+            self.build_target(&env.platform_core_tag),
+        )?;
         serde_json::to_writer(fs::File::create(&saved_blueprint_path)?, &blueprint)?;
 
         let mut child = std::process::Command::new("python")
-- 
2.43.0


From c577685039bb6349b8de4066dc0ec24ad58b79e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 55/57] fix: keep sitecustomize.py as it was; pass a path
 without packages instead

An empty POSY_PYTHON_PACKAGES is split into one empty path, which
site.addsitedir takes for the current directory.
---
 src/data-files/sitecustomize.py |  4 +---
 src/env.rs                      | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/data-files/sitecustomize.py b/src/data-files/sitecustomize.py
index 58a590b..3236cd9 100644
--- a/src/data-files/sitecustomize.py
+++ b/src/data-files/sitecustomize.py
@@ -3,9 +3,7 @@ import os, sys, site
 if "POSY_PYTHON_PACKAGES" in os.environ:
     paths = os.environ["POSY_PYTHON_PACKAGES"].split(os.pathsep)
     for path in paths:
-        # ''.split() gives [''], and addsitedir('') would add the current directory
-        if path:
-            site.addsitedir(path)
+        site.addsitedir(path)
 else:
     sys.stderr.write("This Python is managed by, and should be launched by, Posy.\n")
     sys.stderr.write("Unexpected things may happen if you continue.\n")
diff --git a/src/env.rs b/src/env.rs
index 60423bc..84e46fb 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -1,4 +1,5 @@
 use std::borrow::Cow;
+use std::ffi::OsString;
 use std::fs;
 use std::path::{Path, PathBuf};
 
@@ -345,7 +346,7 @@ pub struct Env {
 impl Env {
     pub fn env_vars(
         &self,
-    ) -> Result<impl IntoIterator<Item = (&'static str, std::ffi::OsString)>> {
+    ) -> Result<impl IntoIterator<Item = (&'static str, OsString)>> {
         let mut vars = Vec::new();
 
         let old_path = std::env::var_os("PATH").ok_or(eyre!("no $PATH?"))?;
@@ -356,10 +357,14 @@ impl Env {
         vars.push(("PATH", new_path));
         vars.push(("POSY_PYTHON", self.python.clone().into_os_string()));
         vars.push(("POSY_PYTHONW", self.pythonw.clone().into_os_string()));
-        vars.push((
-            "POSY_PYTHON_PACKAGES",
-            std::env::join_paths(&self.lib_dirs)?,
-        ));
+        // An empty list would be taken for a list of one empty path, which is the current
+        // directory.
+        let packages = if self.lib_dirs.is_empty() {
+            OsString::from(if cfg!(windows) { "nul" } else { "/dev/null" })
+        } else {
+            std::env::join_paths(&self.lib_dirs)?
+        };
+        vars.push(("POSY_PYTHON_PACKAGES", packages));
 
         Ok(vars)
     }
-- 
2.43.0


From dc32866607c6813c0977f052208c603ab950f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 56/57] fix: servers may ignore the Range header of any request

---
 src/package_db/http/lazy_remote_file.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/package_db/http/lazy_remote_file.rs b/src/package_db/http/lazy_remote_file.rs
index d0b7647..9432877 100644
--- a/src/package_db/http/lazy_remote_file.rs
+++ b/src/package_db/http/lazy_remote_file.rs
@@ -171,8 +171,20 @@ impl LazyRemoteFile {
                 self.loaded.insert(offset, wanted.to_vec());
                 Ok(())
             }
-            RangeResponse::Complete(_) => {
-                bail!("server abruptly stopped understanding range requests?!?")
+            RangeResponse::Complete(mut data) => {
+                // Servers are allowed to ignore any Range header, and e.g. some do if
+                // the range covers the whole file.
+                let data = slurp(&mut data)?;
+                if data.len() as u64 != self.length {
+                    bail!(
+                        "remote file changed size while reading it ({} -> {} bytes)",
+                        self.length,
+                        data.len()
+                    );
+                }
+                self.loaded.clear();
+                self.loaded.insert(0, data);
+                Ok(())
             }
         }
     }
-- 
2.43.0


From a80b1e10fb8796e6f490a1b27ccdafc697d28f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:54 +0000
Subject: [PATCH 57/57] verification hook: made-up machines to detect platforms
 of

---
 src/platform_tags/linux.rs |  7 +++++++
 src/platform_tags/mod.rs   | 21 +++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/platform_tags/linux.rs b/src/platform_tags/linux.rs
index bfe6585..be00532 100644
--- a/src/platform_tags/linux.rs
+++ b/src/platform_tags/linux.rs
@@ -58,6 +58,10 @@ static GLIBC_VERSION_RE: Lazy<Regex> =
     Lazy::new(|| Regex::new(r"^([0-9]+)\.([0-9]+)").unwrap());
 
 fn glibc_version(py_arch: &str, detector: &[u8]) -> Result<Option<(u32, u32)>> {
+    // Verification hook: run what the harness put in place of this detector.
+    #[cfg(posy_verif)]
+    let detector = &*super::verif::detector(py_arch, detector);
+
     // This is a stupid hack to run 'detector' as an executable, with the guarantees
     // that (1) we can't accidentally leak it (the OS will clean it up for us if we
     // crash unexpectedly), (2) we completely avoid all the nasty race conditions /
@@ -146,6 +150,9 @@ pub fn core_platform_tags() -> Result<Vec<String>> {
     // default anyway.
     for (musl_arch, py_arch) in MUSL_ARCH_MAP {
         let loader: PathBuf = format!("/lib/ld-musl-{}.so.1", musl_arch).into();
+        // Verification hook: look for the loader where the harness put it.
+        #[cfg(posy_verif)]
+        let loader = super::verif::loader(loader);
         if loader.exists() {
             match musl_version(&loader) {
                 Ok((major, minor)) => {
diff --git a/src/platform_tags/mod.rs b/src/platform_tags/mod.rs
index 32154ee..1e77468 100644
--- a/src/platform_tags/mod.rs
+++ b/src/platform_tags/mod.rs
@@ -38,4 +38,25 @@ pub use platform::{Platform, PybiPlatform, WheelPlatform};
 #[cfg(posy_verif)]
 pub mod verif {
     pub use super::expand::expand_platform_tag;
+
+    use std::{borrow::Cow, collections::BTreeMap, path::PathBuf, sync::Mutex};
+
+    /// A made-up machine to detect the platforms of: the programs to run as glibc
+    /// detectors, by architecture, and the directory to use as the root directory.
+    pub static MACHINE: Mutex<Option<(BTreeMap<String, Vec<u8>>, PathBuf)>> = Mutex::new(None);
+
+    pub fn detector<'a>(py_arch: &str, detector: &'a [u8]) -> Cow<'a, [u8]> {
+        let machine = MACHINE.lock().unwrap();
+        match machine.as_ref().and_then(|m| m.0.get(py_arch)) {
+            Some(d) => Cow::Owned(d.clone()),
+            None => Cow::Borrowed(detector),
+        }
+    }
+
+    pub fn loader(path: PathBuf) -> PathBuf {
+        match &*MACHINE.lock().unwrap() {
+            Some((_, root)) => root.join(path.strip_prefix("/").unwrap_or(&path)),
+            None => path,
+        }
+    }
 }
-- 
2.43.0

