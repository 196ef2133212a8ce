From a4b2adbea58c3524c4e9ae0261331578add1e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 01/26] fix: build_context: convert the provider reference
 without a lifetime-extending pointer cast

rustc >= 1.9x rejects the raw pointer cast (rust-lang/rust#141402), so the crate doesn't build with
a current compiler.
---
 src/context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index 038895b..179ddb1 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -118,7 +118,10 @@ impl<'a> Demand<'a> {
 }
 
 pub fn build_context<'a, 'b>(provider: &'a (dyn Provider<'b> + 'a)) -> &'a Context<'b> {
-    unsafe { &*(provider as *const dyn Provider as *const Context) }
+    // SAFETY: `Context` is a `repr(transparent)` wrapper around `dyn Provider`, so both references
+    // have the same layout. The lifetime of the trait object can't be widened by an `as` cast
+    // (rustc rejects that for raw pointers), but no `Context` outlives the borrow of its provider.
+    unsafe { core::mem::transmute::<&'a (dyn Provider<'b> + 'a), &'a Context<'b>>(provider) }
 }
 
 #[repr(transparent)]
-- 
2.43.0


From 0e8a7692a7d480232a8d3eee928b65eb3060addf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 02/26] fix: XOAUTH2 client: refuse values containing the field
 separator

A user name or token with an ^A byte silently became a different message.
---
 src/mechanisms/xoauth2/client.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mechanisms/xoauth2/client.rs b/src/mechanisms/xoauth2/client.rs
index f336228..4172e71 100644
--- a/src/mechanisms/xoauth2/client.rs
+++ b/src/mechanisms/xoauth2/client.rs
@@ -35,6 +35,9 @@ enum Error {
         #[source]
         core::str::Utf8Error,
     ),
+
+    #[error("the given {0} contains the field separator")]
+    ContainsSeparator(&'static str),
 }
 impl MechanismError for Error {
     fn kind(&self) -> MechanismErrorKind {
@@ -52,6 +55,9 @@ impl Authentication for XOAuth2 {
         match self.state {
             XOAuth2State::Initial => {
                 session.need_with::<AuthId, _, _>(&EmptyProvider, |authid| {
+                    if authid.contains('\x01') {
+                        return Err(Error::ContainsSeparator("authid").into());
+                    }
                     let data = [b"user=", authid.as_bytes(), b"\x01auth=Bearer "];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(&mut *writer)?;
@@ -59,6 +65,9 @@ impl Authentication for XOAuth2 {
                 })?;
 
                 session.need_with::<OAuthBearerToken, _, _>(&EmptyProvider, |token| {
+                    if token.contains('\x01') {
+                        return Err(Error::ContainsSeparator("token").into());
+                    }
                     let data = [token.as_bytes(), b"\x01\x01"];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(writer)?;
-- 
2.43.0


From e794132a986c7d6f6fa3094a6cf6f04705346eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 03/26] fix: OAUTHBEARER server: accept values containing '='

---
 src/mechanisms/oauthbearer/parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index 86adcde..c8ea6fb 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -57,12 +57,10 @@ impl<'a> OAuthBearerMsg<'a> {
                 if let Some(t) = kv.strip_prefix(b"auth=") {
                     token = Some(core::str::from_utf8(t)?);
                 } else {
-                    let mut kviter = kv.split(|b| matches!(b, b'='));
+                    // Only the first '=' separates, the value may contain more of them.
+                    let mut kviter = kv.splitn(2, |b| matches!(b, b'='));
                     let key = kviter.next().ok_or(ParseError::InvalidKVPair)?;
                     let val = kviter.next().ok_or(ParseError::InvalidKVPair)?;
-                    if kviter.next().is_some() {
-                        return Err(ParseError::InvalidKVPair);
-                    }
                     let key = core::str::from_utf8(key)?;
                     let val = core::str::from_utf8(val)?;
                     fields.push((key, val));
-- 
2.43.0


From 9833a52275ee13cfcf052a2792fffa4ff693d92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 04/26] fix: OAUTHBEARER server: refuse malformed gs2 headers

Anything after the authorization identity was ignored, as was a missing final comma.
---
 src/mechanisms/oauthbearer/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index c8ea6fb..71babf7 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -41,6 +41,10 @@ impl<'a> OAuthBearerMsg<'a> {
                 return Err(ParseError::ChannelBindings);
             }
             let gs2_authzid = gs2iter.next().ok_or(ParseError::InvalidGs2)?;
+            // The header ends with a comma and nothing after it.
+            if gs2iter.next() != Some(&[][..]) || gs2iter.next().is_some() {
+                return Err(ParseError::InvalidGs2);
+            }
 
             let authzid = if gs2_authzid.is_empty() {
                 None
-- 
2.43.0


From dc61ccc4a447eb3e66470592b6c9d9f7a6a7be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 05/26] fix: OAUTHBEARER server: report the token without the
 'Bearer ' scheme

The client is given the bare token and prepends the scheme; the server handed
scheme and token to its callbacks as if both were the token.
---
 src/mechanisms/oauthbearer/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index 71babf7..c2e24ae 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -59,6 +59,8 @@ impl<'a> OAuthBearerMsg<'a> {
 
             for kv in it {
                 if let Some(t) = kv.strip_prefix(b"auth=") {
+                    // The client sends the token with its scheme.
+                    let t = t.strip_prefix(b"Bearer ").unwrap_or(t);
                     token = Some(core::str::from_utf8(t)?);
                 } else {
                     // Only the first '=' separates, the value may contain more of them.
-- 
2.43.0


From 3e7579e10a8afe95c0d565712ab86ab3add15401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 06/26] fix: OAUTHBEARER: escape the authorization identity in
 the gs2 header

A ',' or '=' in the identity changed the message; the client now escapes and
the server unescapes them.
---
 src/mechanisms/oauthbearer/client.rs |  2 ++
 src/mechanisms/oauthbearer/parser.rs | 23 +++++++++++++++++++++--
 src/mechanisms/oauthbearer/server.rs |  2 +-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index a43662f..154d0ed 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -37,6 +37,8 @@ impl Authentication for OAuthBearer {
                 writer.write_all(b"n,")?;
                 session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
                     writer.write_all(b"a=")?;
+                    // A gs2 header ends at the next comma, so that and '=' have to be escaped.
+                    let authzid = authzid.replace('=', "=3D").replace(',', "=2C");
                     writer.write_all(authzid.as_bytes())?;
                     Ok(())
                 })?;
diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index c2e24ae..816ff60 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -23,8 +23,27 @@ pub enum ParseError {
     ),
 }
 
+/// Revert the escaping of ',' and '=' in a gs2 header
+fn unescape(value: &str) -> Result<String, ParseError> {
+    let mut parts = value.split('=');
+    let mut out = parts.next().unwrap_or_default().to_string();
+    for part in parts {
+        let rest = if let Some(rest) = part.strip_prefix("2C") {
+            out.push(',');
+            rest
+        } else if let Some(rest) = part.strip_prefix("3D") {
+            out.push('=');
+            rest
+        } else {
+            return Err(ParseError::InvalidGs2);
+        };
+        out.push_str(rest);
+    }
+    Ok(out)
+}
+
 pub struct OAuthBearerMsg<'a> {
-    pub authzid: Option<&'a str>,
+    pub authzid: Option<String>,
     pub token: &'a str,
     pub fields: Vec<(&'a str, &'a str)>,
 }
@@ -49,7 +68,7 @@ impl<'a> OAuthBearerMsg<'a> {
             let authzid = if gs2_authzid.is_empty() {
                 None
             } else if let Some(rem) = gs2_authzid.strip_prefix(b"a=") {
-                Some(core::str::from_utf8(rem)?)
+                Some(unescape(core::str::from_utf8(rem)?)?)
             } else {
                 return Err(ParseError::InvalidGs2);
             };
diff --git a/src/mechanisms/oauthbearer/server.rs b/src/mechanisms/oauthbearer/server.rs
index 077e5b1..5d228d1 100644
--- a/src/mechanisms/oauthbearer/server.rs
+++ b/src/mechanisms/oauthbearer/server.rs
@@ -57,7 +57,7 @@ impl Authentication for OAuthBearer {
                 } = OAuthBearerMsg::parse(input).map_err(Error::Parse)?;
 
                 let prov = Prov {
-                    authzid,
+                    authzid: authzid.as_deref(),
                     token,
                     kvpairs: fields.as_slice(),
                 };
-- 
2.43.0


From cb7f3670827b1f8dabded6bb77ed817da04114c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 07/26] fix: OAUTHBEARER client: refuse values that can not be
 represented

A separator in a value silently became a different message.
---
 src/mechanisms/oauthbearer/client.rs     | 9 +++++++++
 src/mechanisms/oauthbearer/properties.rs | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index 154d0ed..4c804ca 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -37,6 +37,9 @@ impl Authentication for OAuthBearer {
                 writer.write_all(b"n,")?;
                 session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
                     writer.write_all(b"a=")?;
+                    if authzid.contains('\x01') {
+                        return Err(Error::Unrepresentable("authzid").into());
+                    }
                     // A gs2 header ends at the next comma, so that and '=' have to be escaped.
                     let authzid = authzid.replace('=', "=3D").replace(',', "=2C");
                     writer.write_all(authzid.as_bytes())?;
@@ -46,6 +49,9 @@ impl Authentication for OAuthBearer {
 
                 session.maybe_need_with::<OAuthBearerKV, _, _>(&EmptyProvider, |kvpairs| {
                     for (k, v) in kvpairs {
+                        if *k == "auth" || k.contains(['\x01', '=']) || v.contains('\x01') {
+                            return Err(Error::Unrepresentable("key/value pair").into());
+                        }
                         let data = [b"\x01", k.as_bytes(), b"=", v.as_bytes()];
                         let mut vecw = VectoredWriter::new(data);
                         vecw.write_all_vectored(&mut *writer)?;
@@ -54,6 +60,9 @@ impl Authentication for OAuthBearer {
                 })?;
 
                 session.need_with::<OAuthBearerToken, _, _>(&EmptyProvider, |token| {
+                    if token.contains('\x01') {
+                        return Err(Error::Unrepresentable("token").into());
+                    }
                     let data = [b"\x01auth=Bearer ", token.as_bytes(), b"\x01\x01"];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(writer)?;
diff --git a/src/mechanisms/oauthbearer/properties.rs b/src/mechanisms/oauthbearer/properties.rs
index 4fd0dc0..39b9158 100644
--- a/src/mechanisms/oauthbearer/properties.rs
+++ b/src/mechanisms/oauthbearer/properties.rs
@@ -18,6 +18,8 @@ pub enum Error {
         #[from]
         serde_json::Error,
     ),
+    #[error("the given {0} can not be represented in a message")]
+    Unrepresentable(&'static str),
 }
 
 impl MechanismError for Error {
-- 
2.43.0


From 96bb4e5d33a820ed4437d08c6c4a70beb967a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 08/26] fix: OAUTHBEARER client: accept server errors with JSON
 escape sequences

They were refused as invalid, and never reached the application, because the
error's strings were borrowed from the input.
---
 src/mechanisms/oauthbearer/client.rs     | 11 +++++++++--
 src/mechanisms/oauthbearer/properties.rs | 10 ++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index 4c804ca..0e734d6 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -1,7 +1,9 @@
 use crate::context::EmptyProvider;
 use crate::error::SessionError;
 use crate::mechanism::{Authentication, MechanismData, State};
-use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerErrored};
+use crate::mechanisms::oauthbearer::properties::{
+    Error, OAuthBearerError, OAuthBearerErrored, ReceivedError,
+};
 use crate::property::{AuthzId, OAuthBearerKV, OAuthBearerToken};
 use crate::session::MessageSent;
 use crate::vectored_io::VectoredWriter;
@@ -87,7 +89,12 @@ impl Authentication for OAuthBearer {
                     return Ok(State::Finished(MessageSent::No));
                 }
 
-                let error = serde_json::from_slice(input).map_err(Error::Serde)?;
+                let error: ReceivedError = serde_json::from_slice(input).map_err(Error::Serde)?;
+                let error = OAuthBearerError::new(
+                    &error.status,
+                    error.scope.as_deref(),
+                    error.openid_config.as_deref(),
+                );
 
                 // If the user callback *doesn't*, we must error, so '?' is correct.
                 session.action::<OAuthBearerErrored>(&EmptyProvider, &error)?;
diff --git a/src/mechanisms/oauthbearer/properties.rs b/src/mechanisms/oauthbearer/properties.rs
index 39b9158..ef3b4df 100644
--- a/src/mechanisms/oauthbearer/properties.rs
+++ b/src/mechanisms/oauthbearer/properties.rs
@@ -73,6 +73,16 @@ pub struct OAuthBearerError<'a> {
     pub openid_config: Option<&'a str>,
 }
 
+/// The error as received; strings with escape sequences can not be borrowed from the input.
+#[derive(Deserialize)]
+pub(super) struct ReceivedError {
+    pub(super) status: String,
+    #[serde(default)]
+    pub(super) scope: Option<String>,
+    #[serde(default, rename = "openid-configuration")]
+    pub(super) openid_config: Option<String>,
+}
+
 impl<'a> OAuthBearerError<'a> {
     #[must_use]
     pub const fn new(
-- 
2.43.0


From 3ce8aaf6b5c68ce480c6467a7b8812a8cbc90ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 09/26] fix: SCRAM: refuse short and empty message attributes
 instead of panicking

---
 src/mechanisms/scram/parser.rs | 90 ++++++++++++++--------------------
 1 file changed, 37 insertions(+), 53 deletions(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 229ce63..f86b6e1 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -179,6 +179,15 @@ pub enum ParseError {
     BadNonce,
 }
 
+/// Return the value of the message part `part`, which must be the attribute with the given prefix
+fn attribute<'scram>(part: &'scram [u8], prefix: &[u8; 2]) -> Result<&'scram [u8], ParseError> {
+    part.strip_prefix(prefix).ok_or_else(|| {
+        part.first().map_or(ParseError::MissingAttributes, |first| {
+            ParseError::InvalidAttribute(*first)
+        })
+    })
+}
+
 #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Debug)]
 pub enum GS2CBindFlag<'scram> {
     SupportedNotUsed,
@@ -257,26 +266,19 @@ impl<'scram> ClientFirstMessage<'scram> {
         let authzid = if authzid.is_empty() {
             None
         } else {
-            Some(core::str::from_utf8(&authzid[2..]).map_err(ParseError::BadUtf8)?)
+            let authzid = attribute(authzid, b"a=")?;
+            Some(core::str::from_utf8(authzid).map_err(ParseError::BadUtf8)?)
         };
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        if &next[0..2] == b"m=" {
+        if next.starts_with(b"m=") {
             return Err(ParseError::UnknownMandatoryExtensions);
         }
-
-        let username = if &next[0..2] == b"n=" {
-            core::str::from_utf8(&next[2..]).map_err(ParseError::BadUtf8)?
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let username =
+            core::str::from_utf8(attribute(next, b"n=")?).map_err(ParseError::BadUtf8)?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let nonce = if &next[0..2] == b"r=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let nonce = attribute(next, b"r=")?;
         if !nonce.iter().all(|b| matches!(b, 0x21..=0x2B | 0x2D..=0x7E)) {
             return Err(ParseError::BadNonce);
         }
@@ -370,35 +372,20 @@ impl<'scram> ServerFirst<'scram> {
         let mut partiter = input.split(|b| matches!(b, b','));
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        if next.len() < 2 {
-            return Err(ParseError::MissingAttributes);
-        }
-        if &next[0..2] == b"m=" {
+        if next.starts_with(b"m=") {
             return Err(ParseError::UnknownMandatoryExtensions);
         }
-
-        let nonce = if &next[0..2] == b"r=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let nonce = attribute(next, b"r=")?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let salt = if &next[0..2] == b"s=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let salt = attribute(next, b"s=")?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let iteration_count = if &next[0..2] == b"i=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let iteration_count = attribute(next, b"i=")?;
 
         if let Some(next) = partiter.next() {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            let first = next.first().copied().unwrap_or(b',');
+            return Err(ParseError::InvalidAttribute(first));
         }
 
         Ok(Self {
@@ -445,32 +432,25 @@ impl<'scram> ClientFinal<'scram> {
         let mut partiter = input.split(|b| matches!(b, b','));
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let channel_binding = if &next[0..2] == b"c=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let channel_binding = attribute(next, b"c=")?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let nonce = if &next[0..2] == b"r=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let nonce = attribute(next, b"r=")?;
 
         let proof = loop {
             // Skip all extensions in between nonce and proof since we can't handle them.
             // If they are mandatory-to-implement extensions we error.
             let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-            if &next[0..2] == b"p=" {
-                break &next[2..];
-            } else if &next[0..2] == b"m=" {
+            if let Some(proof) = next.strip_prefix(b"p=") {
+                break proof;
+            } else if next.starts_with(b"m=") {
                 return Err(ParseError::UnknownMandatoryExtensions);
             };
         };
 
         if let Some(next) = partiter.next() {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            let first = next.first().copied().unwrap_or(b',');
+            return Err(ParseError::InvalidAttribute(first));
         }
 
         Ok(Self {
@@ -552,15 +532,15 @@ pub enum ServerFinal<'scram> {
 
 impl<'scram> ServerFinal<'scram> {
     pub fn parse(input: &'scram [u8]) -> Result<Self, ParseError> {
-        if &input[0..2] == b"v=" {
-            Ok(Self::Verifier(&input[2..]))
-        } else if &input[0..2] == b"e=" {
+        if let Some(verifier) = input.strip_prefix(b"v=") {
+            Ok(Self::Verifier(verifier))
+        } else if let Some(error) = input.strip_prefix(b"e=") {
             use ServerErrorValue::{
                 ChannelBindingNotSupported, ChannelBindingsDontMatch, ExtensionsNotSupported,
                 InvalidEncoding, InvalidProof, InvalidUsernameEncoding, NoResources, OtherError,
                 ServerDoesSupportChannelBinding, UnknownUser, UnsupportedChannelBindingType,
             };
-            let e = match &input[2..] {
+            let e = match error {
                 b"invalid-encoding" => InvalidEncoding,
                 b"extensions-not-supported" => ExtensionsNotSupported,
                 b"invalid-proof" => InvalidProof,
@@ -575,7 +555,11 @@ impl<'scram> ServerFinal<'scram> {
             };
             Ok(Self::Error(e))
         } else {
-            Err(ParseError::InvalidAttribute(input[0]))
+            Err(input
+                .first()
+                .map_or(ParseError::MissingAttributes, |first| {
+                    ParseError::InvalidAttribute(*first)
+                }))
         }
     }
 
-- 
2.43.0


From e088feca4c252932a69ec9f5dc4df18034729039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 10/26] fix: SCRAM: SaslName::unescape: continue after the
 escape sequence

---
 src/mechanisms/scram/parser.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index f86b6e1..eeae656 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -129,24 +129,22 @@ impl<'a> SaslName<'a> {
             return Err(SaslNameError::InvalidChar(*c));
         }
 
-        if let Some(bad) = input.iter().position(|b| matches!(b, b'=')) {
+        if input.contains(&b'=') {
             let mut out = String::with_capacity(input.len());
-            let good = core::str::from_utf8(&input[..bad]).map_err(SaslNameError::InvalidUtf8)?;
-            out.push_str(good);
-            let mut input = &input[bad..];
+            let mut input = input;
 
             while let Some(bad) = input.iter().position(|b| matches!(b, b'=')) {
-                let good =
-                    core::str::from_utf8(&input[..bad]).map_err(SaslNameError::InvalidUtf8)?;
-                out.push_str(good);
-                let c = match &input[bad + 1..bad + 3] {
-                    b"2C" => ',',
-                    b"3D" => '=',
+                let (good, escape) = input.split_at(bad);
+                out.push_str(core::str::from_utf8(good)?);
+                let c = match escape.get(1..3) {
+                    Some(b"2C") => ',',
+                    Some(b"3D") => '=',
                     _ => return Err(SaslNameError::InvalidEscape),
                 };
                 out.push(c);
-                input = &input[bad..];
+                input = &escape[3..];
             }
+            out.push_str(core::str::from_utf8(input)?);
 
             Ok(out.into())
         } else {
-- 
2.43.0


From e0d20555b82bbfad3fb6e127e40fe4b3f8f4a339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 11/26] fix: SCRAM server: refuse an empty client nonce

---
 src/mechanisms/scram/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index eeae656..84b4ee9 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -277,7 +277,7 @@ impl<'scram> ClientFirstMessage<'scram> {
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
         let nonce = attribute(next, b"r=")?;
-        if !nonce.iter().all(|b| matches!(b, 0x21..=0x2B | 0x2D..=0x7E)) {
+        if nonce.is_empty() || !nonce.iter().all(|b| matches!(b, 0x21..=0x2B | 0x2D..=0x7E)) {
             return Err(ParseError::BadNonce);
         }
 
-- 
2.43.0


From 31d41a2ad141da32412e3cc5aacb46b6b78038ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 12/26] fix: SCRAM server: hand unescaped names to the callback

---
 src/mechanisms/scram/server.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 1d0c5b0..1f81350 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -5,7 +5,8 @@ use crate::error::{MechanismError, MechanismErrorKind, SessionError};
 use crate::mechanism::Authentication;
 use crate::mechanisms::scram::client::{ProtocolError, SCRAMError};
 use crate::mechanisms::scram::parser::{
-    ClientFinal, ClientFirstMessage, GS2CBindFlag, ServerErrorValue, ServerFinal, ServerFirst,
+    ClientFinal, ClientFirstMessage, GS2CBindFlag, SaslName, ServerErrorValue, ServerFinal,
+    ServerFirst,
 };
 use crate::mechanisms::scram::properties::ScramStoredPassword;
 use crate::mechanisms::scram::tools::{compute_signatures, generate_nonce, DOutput};
@@ -129,8 +130,8 @@ impl<const N: usize> WaitingClientFirst<N> {
         // Step 1: (try to) parse the client message received.
         let client_first @ ClientFirstMessage {
             cbflag,
-            authzid, // FIXME: Save authzid
-            username: authid,
+            authzid: escaped_authzid,
+            username,
             nonce: client_nonce,
         } = ClientFirstMessage::parse(client_first).map_err(SCRAMError::ParseError)?;
 
@@ -140,9 +141,18 @@ impl<const N: usize> WaitingClientFirst<N> {
         // TODO: Only store this if we're a -PLUS
         let mut gs2_header = client_first.build_gs2_header_vec();
 
-        // FIXME: Escape Username from SCRAM format to whatever
+        // The AuthMessage needs the names exactly as they were sent, the user callback needs the
+        // names that they represent.
+        let authid = SaslName::unescape(username.as_bytes())?;
+        let authzid = escaped_authzid
+            .map(|authzid| SaslName::unescape(authzid.as_bytes()))
+            .transpose()?;
+
         // TODO: This must at this stage provide so much more info <.<
-        let provider = Prov { authid, authzid };
+        let provider = Prov {
+            authid: &authid,
+            authzid: authzid.as_deref(),
+        };
 
         match cbflag {
             // TODO: check if this is a protocol downgrade
@@ -203,8 +213,9 @@ impl<const N: usize> WaitingClientFirst<N> {
                 client_nonce.into(),
                 server_nonce,
                 gs2_header,
+                username.to_string(),
                 authid.to_string(),
-                authzid.map(ToString::to_string),
+                authzid.as_deref().map(ToString::to_string),
                 salt,
                 iterations,
                 stored_key,
@@ -236,7 +247,9 @@ struct FinalInner<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
     client_nonce: Vec<u8>,
     server_nonce: [u8; N],
     gs2_header: Vec<u8>,
+    // The username as it was sent, i.e. in its escaped form
     username: String,
+    authid: String,
     authzid: Option<String>,
     salt: String,
     iterations: String,
@@ -252,6 +265,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
         server_nonce: [u8; N],
         gs2_header: Vec<u8>,
         username: String,
+        authid: String,
         authzid: Option<String>,
         salt: String,
         iterations: String,
@@ -264,6 +278,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                 server_nonce,
                 gs2_header,
                 username,
+                authid,
                 authzid,
                 salt,
                 iterations,
@@ -295,6 +310,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
             server_nonce,
             gs2_header,
             username,
+            authid,
             authzid,
             salt,
             iterations,
@@ -353,7 +369,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                         *written = vecw.write_all_vectored(writer)?;
 
                         let prov = Prov {
-                            authid: username.as_str(),
+                            authid: authid.as_str(),
                             authzid: authzid.as_deref(),
                         };
                         session_data.validate(&prov)?;
-- 
2.43.0


From 7f6cf991bedb373ea9c6b4d3304d8bcc63c66130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 13/26] fix: SCRAM: keep the state if a step is missing its
 input

---
 src/mechanisms/scram/client.rs |  6 +++++-
 src/mechanisms/scram/server.rs | 11 ++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 6521a64..e926bc4 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -462,6 +462,10 @@ where
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
         use ScramClientState::{ClientFirst, Initial, ServerFirst};
+        // Check this before taking the state so that the call can be retried with input
+        if input.is_none() && matches!(self.state, Some(ClientFirst(_) | ServerFirst(_))) {
+            return Err(SessionError::InputDataRequired);
+        }
         match self.state.take() {
             Some(Initial(state)) => {
                 let mut rng = rand::thread_rng();
@@ -485,7 +489,7 @@ where
                 state.step(session, server_final)?;
                 Ok(State::Finished(MessageSent::No))
             }
-            None => panic!("State machine in invalid state"),
+            None => Err(SessionError::MechanismDone),
         }
     }
 }
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 1f81350..a8c3739 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -446,6 +446,15 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> Authentication for
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
         use ScramServerState::{Finished, WaitingClientFinal, WaitingClientFirst};
+        // Check this before taking the state so that the call can be retried with input
+        if input.is_none()
+            && matches!(
+                self.state,
+                Some(WaitingClientFirst(_) | WaitingClientFinal(_))
+            )
+        {
+            return Err(SessionError::InputDataRequired);
+        }
         match self.state.take() {
             Some(WaitingClientFirst(state)) => {
                 let client_first = input.ok_or(SessionError::InputDataRequired)?;
@@ -466,7 +475,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> Authentication for
             }
             Some(Finished(_state)) => Err(SessionError::MechanismDone),
 
-            None => panic!("SCRAM server state machine in invalid state"),
+            None => Err(SessionError::MechanismDone),
         }
     }
 }
-- 
2.43.0


From e688211e7707d3b2e8a326fa700cb2b09025b1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 14/26] fix: GSSAPI: keep the state if a step is missing its
 input

---
 src/mechanisms/gssapi/client.rs | 4 ++++
 src/mechanisms/gssapi/server.rs | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/mechanisms/gssapi/client.rs b/src/mechanisms/gssapi/client.rs
index 8483fd5..cbc2065 100644
--- a/src/mechanisms/gssapi/client.rs
+++ b/src/mechanisms/gssapi/client.rs
@@ -49,6 +49,10 @@ impl Authentication for Gssapi {
         input: Option<&[u8]>,
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
+        // Check this before taking the state so that the call can be retried with input
+        if input.is_none() && matches!(self.state, GssapiState::Last(..)) {
+            return Err(SessionError::InputDataRequired);
+        }
         match core::mem::replace(&mut self.state, GssapiState::Errored) {
             GssapiState::Initial => {
                 let mut targ_name = session
diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index c663a0b..68da2d8 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -53,6 +53,15 @@ impl Authentication for Gssapi {
         input: Option<&[u8]>,
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
+        // Check this before taking the state so that the call can be retried with input
+        if input.is_none()
+            && matches!(
+                self.state,
+                GssapiState::Initial | GssapiState::Pending(..) | GssapiState::Final(..)
+            )
+        {
+            return Err(SessionError::InputDataRequired);
+        }
         match mem::replace(&mut self.state, GssapiState::Errored) {
             GssapiState::Initial => {
                 let mut krb5 = OidSet::new().map_err(Error::Gss)?;
-- 
2.43.0


From 15463651941ff4d04f36b57d2fe5543437f89df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 15/26] fix: GSSAPI server: refuse security layers that were
 not offered

---
 src/mechanisms/gssapi/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index 68da2d8..15a31ee 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -134,8 +134,9 @@ impl Authentication for Gssapi {
                 let selected =
                     SecurityLayer::from_bits(unwrapped[0]).ok_or(Error::BadFinalToken)?;
 
-                // If the client selected a layer we don't support or accept, error.
-                if !selected.intersects(supported) {
+                // If the client selected a layer we don't support or accept, or anything but a single
+                // layer, error.
+                if selected.bits().count_ones() != 1 || !supported.contains(selected) {
                     Err(Error::BadFinalToken)?;
                 }
 
-- 
2.43.0


From d602c24fac4d51f386efa87729e18e29e72f568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 16/26] fix: GSSAPI client: select only security layers that
 the context provides

---
 src/mechanisms/gssapi/client.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/gssapi/client.rs b/src/mechanisms/gssapi/client.rs
index cbc2065..b64dc0b 100644
--- a/src/mechanisms/gssapi/client.rs
+++ b/src/mechanisms/gssapi/client.rs
@@ -96,7 +96,7 @@ impl Authentication for Gssapi {
                 }
 
                 // Request acceptable security layers from the client.
-                let acceptable = session
+                let mut acceptable = session
                     .maybe_need_with::<GssSecurityLayer, _, _>(&EmptyProvider, |acceptable| {
                         let flags = ctx.flags().map_err(Error::Gss)?;
                         // If acceptable contains `NO_SECURITY_LAYER` or is empty, which we treat as
@@ -127,6 +127,15 @@ impl Authentication for Gssapi {
                     })?
                     .unwrap_or_default();
 
+                // Never select a layer that the context can not provide.
+                let flags = ctx.flags().map_err(Error::Gss)?;
+                if !flags.contains(CtxFlags::GSS_C_MUTUAL_FLAG | CtxFlags::GSS_C_CONF_FLAG) {
+                    acceptable.set(SecurityLayer::CONFIDENTIALITY, false);
+                }
+                if !flags.contains(CtxFlags::GSS_C_INTEG_FLAG) {
+                    acceptable.set(SecurityLayer::INTEGRITY, false);
+                }
+
                 self.state = GssapiState::Last(ctx, acceptable);
                 Ok(State::Running)
             }
-- 
2.43.0


From b493b931ed8c5bf6db4b1b1f24c908db6de9fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 17/26] fix: SCRAM client: do not select the bare mechanism if
 only -PLUS was offered

---
 src/mechanisms/scram/mechinfo.rs | 60 ++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/mechanisms/scram/mechinfo.rs b/src/mechanisms/scram/mechinfo.rs
index 0e0ca1d..3d9e216 100644
--- a/src/mechanisms/scram/mechinfo.rs
+++ b/src/mechanisms/scram/mechinfo.rs
@@ -54,34 +54,42 @@ mod scram_sha1 {
         No,
         /// Only SCRAM-SHA1 but not -PLUS found
         Bare,
-        /// SCRAM-SHA1-PLUS found.
+        /// Only SCRAM-SHA1-PLUS found
         Plus,
+        /// Both SCRAM-SHA1 and SCRAM-SHA1-PLUS found
+        Both,
     }
     impl Selector for ScramSelector1 {
         fn select(&mut self, mechname: &Mechname) -> Option<&'static Mechanism> {
             if *mechname == *SCRAM_SHA1.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::Plus => Self::Both,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA1_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No => Self::Plus,
+                    Self::Bare => Self::Both,
+                    x => x,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
-                _ => Some(&SCRAM_SHA1),
+                // The server has to offer the mechanism itself
+                Self::No | Self::Plus => None,
+                Self::Bare | Self::Both => Some(&SCRAM_SHA1),
             }
         }
 
         fn finalize(&mut self) -> Result<Box<dyn Authentication>, SASLError> {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha1Client::<NONCE_LEN>::new(false),
-                Self::Plus => client::ScramSha1Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::Both => client::ScramSha1Client::<NONCE_LEN>::new(true),
+                Self::No | Self::Plus => unreachable!(),
             }))
         }
     }
@@ -159,34 +167,42 @@ mod scram_sha256 {
         No,
         /// Only SCRAM-SHA256 but not -PLUS found
         Bare,
-        /// SCRAM-SHA256-PLUS found.
+        /// Only SCRAM-SHA256-PLUS found
         Plus,
+        /// Both SCRAM-SHA256 and SCRAM-SHA256-PLUS found
+        Both,
     }
     impl Selector for ScramSelector256 {
         fn select(&mut self, mechname: &Mechname) -> Option<&'static Mechanism> {
             if *mechname == *SCRAM_SHA256.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::Plus => Self::Both,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA256_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No => Self::Plus,
+                    Self::Bare => Self::Both,
+                    x => x,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
-                _ => Some(&SCRAM_SHA256),
+                // The server has to offer the mechanism itself
+                Self::No | Self::Plus => None,
+                Self::Bare | Self::Both => Some(&SCRAM_SHA256),
             }
         }
 
         fn finalize(&mut self) -> Result<Box<dyn Authentication>, SASLError> {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha256Client::<NONCE_LEN>::new(false),
-                Self::Plus => client::ScramSha256Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::Both => client::ScramSha256Client::<NONCE_LEN>::new(true),
+                Self::No | Self::Plus => unreachable!(),
             }))
         }
     }
@@ -264,34 +280,42 @@ mod scram_sha512 {
         No,
         /// Only SCRAM-SHA512 but not -PLUS found
         Bare,
-        /// SCRAM-SHA512-PLUS found.
+        /// Only SCRAM-SHA512-PLUS found
         Plus,
+        /// Both SCRAM-SHA512 and SCRAM-SHA512-PLUS found
+        Both,
     }
     impl Selector for ScramSelector512 {
         fn select(&mut self, mechname: &Mechname) -> Option<&'static Mechanism> {
             if *mechname == *SCRAM_SHA512.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::Plus => Self::Both,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA512_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No => Self::Plus,
+                    Self::Bare => Self::Both,
+                    x => x,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
-                _ => Some(&SCRAM_SHA512),
+                // The server has to offer the mechanism itself
+                Self::No | Self::Plus => None,
+                Self::Bare | Self::Both => Some(&SCRAM_SHA512),
             }
         }
 
         fn finalize(&mut self) -> Result<Box<dyn Authentication>, SASLError> {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha512Client::<NONCE_LEN>::new(false),
-                Self::Plus => client::ScramSha512Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::Both => client::ScramSha512Client::<NONCE_LEN>::new(true),
+                Self::No | Self::Plus => unreachable!(),
             }))
         }
     }
-- 
2.43.0


From 75416d6779c01e92a2a14a87492dc15e6a87b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 18/26] fix: SCRAM server: -PLUS requires the client to use
 channel binding

---
 src/mechanisms/scram/server.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index a8c3739..c1af057 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -66,6 +66,8 @@ enum CBSupport {
     No,
     /// Server *does* support CB
     Yes,
+    /// The -PLUS variant was selected, the client has to use CB
+    Required,
 }
 
 pub struct ScramServer<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
@@ -84,7 +86,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> ScramServer<D, N>
     }
 
     pub const fn new_plus() -> Self {
-        let plus = CBSupport::Yes;
+        let plus = CBSupport::Required;
         Self {
             state: Some(ScramServerState::WaitingClientFirst(ScramState::new(plus))),
         }
@@ -157,13 +159,19 @@ impl<const N: usize> WaitingClientFirst<N> {
         match cbflag {
             // TODO: check if this is a protocol downgrade
             GS2CBindFlag::SupportedNotUsed => {
-                if self.plus == CBSupport::Yes {
+                if self.plus != CBSupport::No {
+                    return Err(SessionError::MechanismError(Box::new(
+                        ScramServerError::ChannelBindingsNotUsed,
+                    )));
+                }
+            }
+            GS2CBindFlag::NotSupported => {
+                if self.plus == CBSupport::Required {
                     return Err(SessionError::MechanismError(Box::new(
                         ScramServerError::ChannelBindingsNotUsed,
                     )));
                 }
             }
-            GS2CBindFlag::NotSupported => {}
             GS2CBindFlag::Used(name) => session_data.need_cb_data(name, provider, |cbdata| {
                 gs2_header.extend_from_slice(cbdata);
                 Ok(())
-- 
2.43.0


From 141dffca8daa3e3cfa560b9c481b4aff19cf97c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 19/26] fix: SCRAM client: refuse cached keys of the wrong size
 instead of panicking

---
 src/mechanisms/scram/client.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index e926bc4..d7fb914 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -310,6 +310,11 @@ where
                  client_key,
                  server_key,
              }| {
+                // The keys must have exactly the output size of the digest in use
+                let len = DOutput::<D>::default().len();
+                if client_key.len() != len || server_key.len() != len {
+                    return Err(SCRAMError::InvalidCachedKeys.into());
+                }
                 Ok((
                     DOutput::<D>::clone_from_slice(client_key),
                     DOutput::<D>::clone_from_slice(server_key),
@@ -518,13 +523,15 @@ pub enum SCRAMError {
     ),
     #[error("SCRAM outcome error: {0}")]
     ServerError(ServerErrorValue),
+    #[error("provided cached keys are wrong size for selected algorithm")]
+    InvalidCachedKeys,
 }
 
 impl MechanismError for SCRAMError {
     fn kind(&self) -> MechanismErrorKind {
         match self {
             Self::Protocol(_) => MechanismErrorKind::Protocol,
-            Self::ParseError(_) => MechanismErrorKind::Parse,
+            Self::ParseError(_) | Self::InvalidCachedKeys => MechanismErrorKind::Parse,
             Self::ServerError(_) => MechanismErrorKind::Outcome,
         }
     }
-- 
2.43.0


From 63f6640c509e0b0a298dee48d95a7e5004132dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 20/26] fix: SCRAM server: refuse proofs that are too short

---
 src/mechanisms/scram/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index c1af057..e03a9a5 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -337,9 +337,12 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                     && proof.len() <= (<SimpleHmac<D> as OutputSizeUser>::output_size() * 4 / 3) + 3
                 {
                     let mut proof_decoded = DOutput::<D>::default();
-                    base64::engine::general_purpose::STANDARD
+                    let proof_len = base64::engine::general_purpose::STANDARD
                         .decode_slice(proof, &mut proof_decoded)
                         .map_err(|_| SCRAMError::Protocol(ProtocolError::Base64Decode))?;
+                    if proof_len != proof_decoded.len() {
+                        return Err(SCRAMError::Protocol(ProtocolError::Base64Decode).into());
+                    }
 
                     let mut client_signature = DOutput::<D>::default();
                     let mut server_signature = DOutput::<D>::default();
-- 
2.43.0


From e5f1ce40a9bb765e7866bd4d5bb87e44aefc6092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 21/26] fix: VectoredWriter: report exhausted writers, retry
 interrupted writes

---
 src/vectored_io.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/vectored_io.rs b/src/vectored_io.rs
index 0793039..2791571 100644
--- a/src/vectored_io.rs
+++ b/src/vectored_io.rs
@@ -55,14 +55,18 @@ impl<'io, const N: usize> VectoredWriter<'io, N> {
 
         let mut written = 0;
         while {
-            let len = self.write_vectored_inner(&mut bufs, &mut writer)?;
-            // Check the corner case that Ok(0) was returned because the underlying writer is
-            // exhausted.
-            if len == 0 {
-                return Ok(written);
+            match self.write_vectored_inner(&mut bufs, &mut writer) {
+                // Ok(0) with data left to write means that the underlying writer is exhausted.
+                Ok(0) if self.skip < N => {
+                    return Err(io::Error::new(
+                        io::ErrorKind::WriteZero,
+                        "failed to write whole message",
+                    ));
+                }
+                Ok(len) => written += len,
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+                Err(e) => return Err(e),
             }
-
-            written += len;
             self.skip < N
         } {}
 
-- 
2.43.0


From 36266b7fadbb7e74e90869c71456218c911d43c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 22/26] fix: step64: write the complete message or fail

---
 src/session.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index e730042..f88d30f 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -230,17 +230,21 @@ mod provider {
             input: Option<&[u8]>,
             writer: &mut impl Write,
         ) -> Result<State, SessionError> {
-            use base64::write::EncoderWriter;
-            let mut writer64 =
-                EncoderWriter::new(writer, &base64::engine::general_purpose::STANDARD);
+            // Encode the message as a whole: `EncoderWriter` reports partial writes as zero length
+            // writes and hides errors that occur when it is dropped.
+            let mut message = crate::alloc::vec::Vec::new();
 
             let state = if let Some(input) = input {
                 let input =
                     base64::Engine::decode(&base64::engine::general_purpose::STANDARD, input)?;
-                self.step(Some(&input[..]), &mut writer64)
+                self.step(Some(&input[..]), &mut message)
             } else {
-                self.step(None, &mut writer64)
+                self.step(None, &mut message)
             }?;
+
+            let message =
+                base64::Engine::encode(&base64::engine::general_purpose::STANDARD, &message);
+            writer.write_all(message.as_bytes())?;
             Ok(state)
         }
     }
-- 
2.43.0


From aab3723d62490e4e36fc2e02416181d5f90b8f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 23/26] fix: Request: keep the first value if a request is
 satisfied again

---
 src/callback.rs | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/callback.rs b/src/callback.rs
index 87297a0..0aaceee 100644
--- a/src/callback.rs
+++ b/src/callback.rs
@@ -215,6 +215,8 @@ impl CallbackError {
 }
 
 pub(crate) trait CallbackRequest<Answer: ?Sized> {
+    /// Returns true if this request was not satisfied yet
+    fn is_open(&self) -> bool;
     fn satisfy(&mut self, answer: &Answer) -> Result<(), SessionError>;
 }
 
@@ -254,10 +256,18 @@ where
     P: for<'p> Property<'p>,
     F: FnOnce(&<P as Property<'_>>::Value) -> Result<G, SessionError>,
 {
+    fn is_open(&self) -> bool {
+        matches!(self.closure, Some(ClosureCRState::Open(_)))
+    }
+
     fn satisfy(&mut self, answer: &<P as Property<'_>>::Value) -> Result<(), SessionError> {
-        if let Some(ClosureCRState::Open(closure)) = self.closure.take() {
-            let reply = closure(answer)?;
-            self.closure = Some(ClosureCRState::Satisfied(reply));
+        match self.closure.take() {
+            Some(ClosureCRState::Open(closure)) => {
+                let reply = closure(answer)?;
+                self.closure = Some(ClosureCRState::Satisfied(reply));
+            }
+            // Only the first value is ever used
+            satisfied => self.closure = satisfied,
         }
         Ok(())
     }
@@ -416,11 +426,12 @@ impl<'a> Request<'a> {
         &mut self,
         answer: &<P as Property<'_>>::Value,
     ) -> Result<&mut Self, SessionError> {
-        if let Some(Tagged(mech)) = self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
-            mech.satisfy(answer)?;
-            Err(CallbackError::early_return().into())
-        } else {
-            Ok(self)
+        match self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
+            Some(Tagged(mech)) if mech.is_open() => {
+                mech.satisfy(answer)?;
+                Err(CallbackError::early_return().into())
+            }
+            _ => Ok(self),
         }
     }
 
@@ -493,12 +504,13 @@ impl<'a> Request<'a> {
     where
         F: FnOnce() -> Result<P::Value, SessionError>,
     {
-        if let Some(Tagged(mech)) = self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
-            let answer = closure()?;
-            mech.satisfy(&answer)?;
-            Err(CallbackError::early_return().into())
-        } else {
-            Ok(self)
+        match self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
+            Some(Tagged(mech)) if mech.is_open() => {
+                let answer = closure()?;
+                mech.satisfy(&answer)?;
+                Err(CallbackError::early_return().into())
+            }
+            _ => Ok(self),
         }
     }
 }
-- 
2.43.0


From 13f862ad9e98fcc781ff9e5ced2a1218a71b01cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 24/26] fix: Registry::select: skip mechanisms without a client
 side

---
 src/registry.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/registry.rs b/src/registry.rs
index ea31183..4655080 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -238,8 +238,11 @@ impl Registry {
         // Only if the selector has to keep state (e.g. the non-PLUS SCRAM ones have to change
         // their behaviour depending on what mechanisms the server offered for their GS2 header)
         // the Box has to make an allocation.
-        let mut selectors: Vec<Selection> =
-            self.get_mechanisms().filter_map(|m| m.select(cb)).collect();
+        let mut selectors: Vec<Selection> = self
+            .get_mechanisms()
+            .filter(|m| m.client.is_some())
+            .filter_map(|m| m.select(cb))
+            .collect();
 
         for o in offered {
             for s in &mut selectors {
-- 
2.43.0


From a4ac6b46c5f561ad7ddf61982af563ff3805b974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:30 +0000
Subject: [PATCH 25/26] fix: cover the extensions of a SCRAM client's messages
 with the signatures

The AuthMessage consists of the messages as they were exchanged. The server
left out the extensions it skips, so the proof of a client that sends any was
refused and extensions inserted on the way were accepted.
---
 src/mechanisms/scram/client.rs |  2 ++
 src/mechanisms/scram/server.rs | 19 +++++++++++++++++--
 src/mechanisms/scram/tools.rs  |  6 ++++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index d7fb914..40136e3 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -362,10 +362,12 @@ where
             &server_key,
             &self.username,
             &self.client_nonce,
+            &[],
             server_nonce,
             salt64,
             iteration_count,
             self.channel_bindings.as_bytes(),
+            &[],
             &mut client_signature,
             &mut server_signature,
         );
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index e03a9a5..9fa7987 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -125,7 +125,7 @@ impl<const N: usize> WaitingClientFirst<N> {
         self,
         rng: &mut impl Rng,
         session_data: &mut MechanismData,
-        client_first: &[u8],
+        input: &[u8],
         writer: impl Write,
         written: &mut usize,
     ) -> Result<WaitingClientFinal<D, N>, SessionError> {
@@ -135,7 +135,10 @@ impl<const N: usize> WaitingClientFirst<N> {
             authzid: escaped_authzid,
             username,
             nonce: client_nonce,
-        } = ClientFirstMessage::parse(client_first).map_err(SCRAMError::ParseError)?;
+        } = ClientFirstMessage::parse(input).map_err(SCRAMError::ParseError)?;
+        // Everything behind the parsed attributes is ignored but is still a part of the AuthMessage
+        let parsed: usize = client_first.as_ioslices().iter().map(|s| s.len()).sum();
+        let extensions = &input[parsed..];
 
         // AuthMessage we need to validate the user:
         // client-first-message-bare + "," + server-first-message + "," + client-final-message-without-proof
@@ -219,6 +222,7 @@ impl<const N: usize> WaitingClientFirst<N> {
 
             Ok(WaitingClientFinal::new(
                 client_nonce.into(),
+                extensions.into(),
                 server_nonce,
                 gs2_header,
                 username.to_string(),
@@ -253,6 +257,8 @@ pub struct WaitingClientFinal<D: Digest + BlockSizeUser + FixedOutput, const N:
 }
 struct FinalInner<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
     client_nonce: Vec<u8>,
+    // Extensions sent in the client-first-message, including the leading comma
+    extensions: Vec<u8>,
     server_nonce: [u8; N],
     gs2_header: Vec<u8>,
     // The username as it was sent, i.e. in its escaped form
@@ -270,6 +276,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
     #[allow(clippy::too_many_arguments)]
     fn new(
         client_nonce: Vec<u8>,
+        extensions: Vec<u8>,
         server_nonce: [u8; N],
         gs2_header: Vec<u8>,
         username: String,
@@ -283,6 +290,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
         Self {
             data: Some(FinalInner {
                 client_nonce,
+                extensions,
                 server_nonce,
                 gs2_header,
                 username,
@@ -315,6 +323,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
 
         let msg = if let Some(FinalInner {
             client_nonce,
+            extensions,
             server_nonce,
             gs2_header,
             username,
@@ -344,6 +353,10 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                         return Err(SCRAMError::Protocol(ProtocolError::Base64Decode).into());
                     }
 
+                    // The part between the nonce and the proof
+                    let final_extensions = &client_final[2 + channel_binding.len() + 3 + nonce.len()
+                        ..client_final.len() - 3 - proof.len()];
+
                     let mut client_signature = DOutput::<D>::default();
                     let mut server_signature = DOutput::<D>::default();
 
@@ -352,10 +365,12 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                         &server_key,
                         &username,
                         &client_nonce,
+                        &extensions,
                         &server_nonce,
                         salt.as_bytes(),
                         iterations.as_bytes(),
                         channel_binding,
+                        final_extensions,
                         &mut client_signature,
                         &mut server_signature,
                     );
diff --git a/src/mechanisms/scram/tools.rs b/src/mechanisms/scram/tools.rs
index 79c31ba..d89aab0 100644
--- a/src/mechanisms/scram/tools.rs
+++ b/src/mechanisms/scram/tools.rs
@@ -30,10 +30,12 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
     server_key: &DOutput<D>,
     username: &str,
     client_nonce: &[u8],
+    client_first_extensions: &[u8],
     server_nonce: &[u8],
     salt: &[u8],
     iterations: &[u8],
     channel_binding: &[u8],
+    client_final_extensions: &[u8],
     client_signature: &mut DOutput<D>,
     server_signature: &mut DOutput<D>,
 ) {
@@ -43,6 +45,7 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
         .chain(username.as_bytes())
         .chain(b",r=")
         .chain(client_nonce)
+        .chain(client_first_extensions)
         .chain(b",r=")
         .chain(client_nonce)
         .chain(server_nonce)
@@ -55,6 +58,7 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
         .chain(b",r=")
         .chain(client_nonce)
         .chain(server_nonce)
+        .chain(client_final_extensions)
         .finalize_into(client_signature);
 
     <SimpleHmac<D>>::new_from_slice(server_key.as_slice())
@@ -63,6 +67,7 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
         .chain(username.as_bytes())
         .chain(b",r=")
         .chain(client_nonce)
+        .chain(client_first_extensions)
         .chain(b",r=")
         .chain(client_nonce)
         .chain(server_nonce)
@@ -75,6 +80,7 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
         .chain(b",r=")
         .chain(client_nonce)
         .chain(server_nonce)
+        .chain(client_final_extensions)
         .finalize_into(server_signature);
 }
 
-- 
2.43.0


From a10e7864bcce23b0fecb70a908a61e9822b0d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 26/26] fix: keep a GSSAPI server's context that needs more
 than one token

A context that is not yet established after its first token was dropped, and
the client's next message answered with an error.
---
 src/mechanisms/gssapi/server.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index 15a31ee..66c2a49 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -100,6 +100,9 @@ impl Authentication for Gssapi {
                     }
 
                     self.state = GssapiState::Installed(ctx, acceptable);
+                } else if token.is_some() {
+                    // The context needs further tokens from the client.
+                    self.state = GssapiState::Pending(ctx);
                 }
                 // If an auth exchange token was produced we need to do another loop, otherwise we
                 // immediately produce the supported security layer token.
-- 
2.43.0

