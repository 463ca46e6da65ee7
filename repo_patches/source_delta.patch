From 6d79f5045089569502e0ad7dd35bb459f72f4d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:27 +0000
Subject: [PATCH 01/12] fix: percent-encode every reserved octet of the signed
 query string

Query parameters with a space, '%', '/', control or non-ASCII characters were
copied verbatim into the signed URL, so the URL was malformed or carried other
parameters than the requested ones and its signature could not be verified.
---
 src/private/canonical_request.rs | 22 +++++++++++++++++++++-
 src/private/signed_url.rs        |  4 +---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 2bad0e7..3ef5ff0 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -66,12 +66,32 @@ impl std::fmt::Display for CanonicalRequest {
 
 pub(crate) fn canonical_query_string(request: &http::Request<()>) -> String {
     let mut query_pairs = form_urlencoded::parse(request.uri().query().unwrap_or("").as_bytes())
-        .map(|(k, v)| format!("{}={}", percent_encode(&k), percent_encode(&v)))
+        .map(|(k, v)| {
+            format!(
+                "{}={}",
+                percent_encode_query_component(&k),
+                percent_encode_query_component(&v)
+            )
+        })
         .collect::<Vec<String>>();
     query_pairs.sort();
     query_pairs.join("&")
 }
 
+// Encodes every octet except the RFC 3986 unreserved characters.
+pub(crate) fn percent_encode_query_component(s: &str) -> String {
+    let mut encoded = String::new();
+    for b in s.bytes() {
+        match b {
+            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => {
+                encoded.push(char::from(b))
+            }
+            _ => encoded.push_str(&format!("%{b:02X}")),
+        }
+    }
+    encoded
+}
+
 // ?=!#$&'()*+,:;@[]"
 pub(crate) fn percent_encode(s: &str) -> String {
     let mut encoded = String::new();
diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 7289079..62121cd 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -95,9 +95,7 @@ fn add_signed_url_required_query_string_parameters(
         .append_pair("X-Goog-Algorithm", x_goog_algorithm.as_str())
         .append_pair(
             "X-Goog-Credential",
-            format!("{authorizer}/{credential_scope}")
-                .replace('/', "%2F")
-                .as_str(),
+            format!("{authorizer}/{credential_scope}").as_str(),
         )
         .append_pair("X-Goog-Date", x_goog_date.to_string().as_str())
         .append_pair("X-Goog-Expires", expiration.to_string().as_str())
-- 
2.43.0


From 070cf9ecc270a4cafbb51ed84dd58debaa818867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:29 +0000
Subject: [PATCH 02/12] fix: order the canonical query string by parameter name

Sorting the joined 'name=value' strings puts 'a1=' before 'a=' because '=' is
greater than digits, '-', '.' and '%', while the V4 signing process orders
parameters by name.
---
 src/private/canonical_request.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 3ef5ff0..ffe9cfe 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -67,15 +67,18 @@ impl std::fmt::Display for CanonicalRequest {
 pub(crate) fn canonical_query_string(request: &http::Request<()>) -> String {
     let mut query_pairs = form_urlencoded::parse(request.uri().query().unwrap_or("").as_bytes())
         .map(|(k, v)| {
-            format!(
-                "{}={}",
+            (
                 percent_encode_query_component(&k),
-                percent_encode_query_component(&v)
+                percent_encode_query_component(&v),
             )
         })
-        .collect::<Vec<String>>();
+        .collect::<Vec<(String, String)>>();
     query_pairs.sort();
-    query_pairs.join("&")
+    query_pairs
+        .into_iter()
+        .map(|(k, v)| format!("{k}={v}"))
+        .collect::<Vec<String>>()
+        .join("&")
 }
 
 // Encodes every octet except the RFC 3986 unreserved characters.
-- 
2.43.0


From 502a5a9e7dafd142f179b3449ed3e1100bf849e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:08 +0000
Subject: [PATCH 03/12] fix: escape bucket and object names in the path of
 signed URLs

A '?', '#', '%', control character, dot segment etc. in bucket_name or
object_name silently moved part of the name out of the signed path, so the
URL addressed another resource. Names which no URL path can carry (dot
segments) are now an error.
---
 src/signed_url.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/signed_url.rs b/src/signed_url.rs
index da8f44d..031d41e 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -2,8 +2,8 @@ use std::{str::FromStr as _, time::SystemTime};
 
 use crate::{
     private::{
-        utils::UnixTimestamp, ActiveDatetime, CredentialScope, Date, Expiration, HttpVerb,
-        Location, RequestType, Service, SignedUrl,
+        canonical_request::percent_encode_query_component, utils::UnixTimestamp, ActiveDatetime,
+        CredentialScope, Date, Expiration, HttpVerb, Location, RequestType, Service, SignedUrl,
     },
     SigningKey,
 };
@@ -30,6 +30,8 @@ enum ErrorKind {
     InvalidHeaderValue(http::header::InvalidHeaderValue),
     #[error(transparent)]
     InvalidQueryParameters(#[from] url::ParseError),
+    #[error("bucket_name and object_name can not be represented in URL path")]
+    InvalidResourceName,
     #[error(transparent)]
     Location(crate::private::location::Error),
     #[error("now out of range")]
@@ -78,14 +80,17 @@ pub async fn build_signed_url(
     .map_err(|_| ErrorKind::ExpirationOutOfRange)?;
 
     let http_method = HttpVerb::from_str(http_method.as_str()).map_err(ErrorKind::HttpMethod)?;
-    let mut url = url::Url::parse(
-        format!(
-            // TODO: escape bucket_name and object_name
-            "https://storage.googleapis.com/{bucket_name}/{object_name}",
-        )
-        .as_str(),
-    )
-    .map_err(ErrorKind::InvalidQueryParameters)?;
+    let path = format!(
+        "/{}/{}",
+        percent_encode_query_component(&bucket_name),
+        percent_encode_query_component(&object_name).replace("%2F", "/")
+    );
+    let mut url = url::Url::parse(format!("https://storage.googleapis.com{path}").as_str())
+        .map_err(ErrorKind::InvalidQueryParameters)?;
+    if url.path() != path {
+        // "." and ".." segments would be resolved by every URL parser.
+        return Err(Error::from(ErrorKind::InvalidResourceName));
+    }
     url.query_pairs_mut().extend_pairs(
         query_parameters
             .iter()
-- 
2.43.0


From 2065e9cde3da2ffd73360f2efda927abb9120b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:26 +0000
Subject: [PATCH 04/12] fix: return an error instead of panicking for
 unsupported signing keys

Signing with an HMAC key, or with a service account key and use_sign_blob,
hit todo!().
---
 src/private/signing_key_inner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/private/signing_key_inner.rs b/src/private/signing_key_inner.rs
index 42a3b4c..e79f22a 100644
--- a/src/private/signing_key_inner.rs
+++ b/src/private/signing_key_inner.rs
@@ -8,12 +8,16 @@ pub(crate) enum Error {
     BoundTokenMustUseSignBlob,
     #[error("bound token signing error: {0}")]
     BoundTokenSigning(#[source] crate::private::bound_token::BoundTokenError),
+    #[error("hmac signing is not supported")]
+    HmacNotSupported,
     #[error("service account private key pem parsing error: {0}")]
     ServiceAccountPrivateKeyPemParsing(#[source] pem::PemError),
     #[error("service account private key pkcs8 parsing error: {0}")]
     ServiceAccountPrivateKeyPkcs8Parsing(ring::error::KeyRejected),
     #[error("service account signing error: {0}")]
     ServiceAccountSigning(ring::error::Unspecified),
+    #[error("service account with sign blob is not supported")]
+    ServiceAccountUseSignBlobNotSupported,
 }
 
 #[derive(Clone)]
@@ -58,10 +62,10 @@ impl SigningKeyInner {
                     Err(Error::BoundTokenMustUseSignBlob)
                 }
             }
-            SigningKeyInner::Hmac { .. } => todo!(),
+            SigningKeyInner::Hmac { .. } => Err(Error::HmacNotSupported),
             SigningKeyInner::ServiceAccount { private_key, .. } => {
                 if use_sign_blob {
-                    todo!()
+                    Err(Error::ServiceAccountUseSignBlobNotSupported)
                 } else {
                     let pkcs8 = pem::parse(private_key.as_bytes())
                         .map_err(Error::ServiceAccountPrivateKeyPemParsing)?;
-- 
2.43.0


From 2b0b841b29e0c281b8fc776d80f189891d223c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:29 +0000
Subject: [PATCH 05/12] fix: return an error instead of panicking for an
 overflowing expires_in

---
 src/private/bound_token.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index 1c4c0bc..a441abd 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -44,6 +44,8 @@ pub(crate) enum BoundTokenError {
     TokenRequestErrorResponse(#[source] reqwest::Error),
     #[error("bound token / token request / execute error: {0}")]
     TokenRequestExecute(#[source] reqwest::Error),
+    #[error("bound token / token request / expires_in out of range error: {0}")]
+    TokenRequestExpiresInOutOfRange(u64),
     #[error("bound token / token request / invalid token_type error: {0}")]
     TokenRequestInvalidTokenType(String),
     #[error("bound token / token request / status error: {0} {1}")]
@@ -163,7 +165,11 @@ impl BoundToken {
                         access_token.token_type,
                     ));
                 }
-                let expires = SystemTime::now() + Duration::from_secs(access_token.expires_in);
+                let expires = SystemTime::now()
+                    .checked_add(Duration::from_secs(access_token.expires_in))
+                    .ok_or(BoundTokenError::TokenRequestExpiresInOutOfRange(
+                        access_token.expires_in,
+                    ))?;
                 *cache = Some((email.clone(), access_token.access_token.clone(), expires));
                 (email, access_token.access_token)
             }
-- 
2.43.0


From 86182c4c650359b8847e8dbc01843332c2376086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 06/12] fix: return an error instead of panicking when the
 signed URL gets too long

---
 src/private/signed_url.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 62121cd..bdceaeb 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -15,6 +15,8 @@ pub(crate) enum Error {
     CanonicalRequest(crate::private::canonical_request::Error),
     #[error("host header not found")]
     HostHeaderNotFound,
+    #[error(transparent)]
+    InvalidUri(http::uri::InvalidUri),
     #[error("signing error: {0}")]
     Signing(crate::private::signing_key_inner::Error),
 }
@@ -112,7 +114,7 @@ fn add_signed_url_required_query_string_parameters(
                 .as_str(),
         )
         .finish();
-    *request.uri_mut() = http::Uri::try_from(url1.to_string()).expect("url to be valid");
+    *request.uri_mut() = http::Uri::try_from(url1.to_string()).map_err(Error::InvalidUri)?;
     Ok(())
 }
 
-- 
2.43.0


From e56331968b644dd98e7c4085a27b4398d37c526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 07/12] fix: sign with the account that the signed message
 names

The account was fetched twice: once for X-Goog-Credential and once for the
signBlob request. When the cached token expired in between and the account
had changed, the signature was made by another account than the credential
names.
---
 src/html_form_data.rs            |  6 +++++-
 src/private/bound_token.rs       |  9 +++++++--
 src/private/signed_url.rs        |  6 +++++-
 src/private/signing_key_inner.rs | 10 ++++++++--
 4 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/html_form_data.rs b/src/html_form_data.rs
index 1a68e2c..092df86 100644
--- a/src/html_form_data.rs
+++ b/src/html_form_data.rs
@@ -561,7 +561,11 @@ impl HtmlFormDataBuilder {
                 let message = encoded_policy.as_str();
                 let message_digest = signing_key
                     .0
-                    .sign(*use_sign_blob, message.as_bytes())
+                    .sign(
+                        service_account_client_email.as_str(),
+                        *use_sign_blob,
+                        message.as_bytes(),
+                    )
                     .await
                     .map_err(ErrorKind::Signing)?;
                 let x_goog_signature = hex_encode(&message_digest);
diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index a441abd..51cd3cf 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -176,8 +176,13 @@ impl BoundToken {
         })
     }
 
-    pub(crate) async fn sign(&self, message: &[u8]) -> Result<Vec<u8>, BoundTokenError> {
-        let (email, token) = self.get_email_and_token().await?;
+    // The account has to be the one named in the message. The current one may have changed since.
+    pub(crate) async fn sign(
+        &self,
+        email: &str,
+        message: &[u8],
+    ) -> Result<Vec<u8>, BoundTokenError> {
+        let (_, token) = self.get_email_and_token().await?;
 
         // <https://cloud.google.com/iam/docs/reference/credentials/rest/v1/projects.serviceAccounts/signBlob>
         #[derive(Debug, serde::Serialize)]
diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index bdceaeb..e185bdf 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -54,7 +54,11 @@ impl SignedUrl {
         let message = string_to_sign.to_string();
         let message_digest = signing_key
             .0
-            .sign(use_sign_blob, message.as_bytes())
+            .sign(
+                service_account_client_email.as_str(),
+                use_sign_blob,
+                message.as_bytes(),
+            )
             .await
             .map_err(Error::Signing)?;
         let request_signature = hex_encode(&message_digest);
diff --git a/src/private/signing_key_inner.rs b/src/private/signing_key_inner.rs
index e79f22a..d7a44da 100644
--- a/src/private/signing_key_inner.rs
+++ b/src/private/signing_key_inner.rs
@@ -50,12 +50,18 @@ impl SigningKeyInner {
         })
     }
 
-    pub(crate) async fn sign(&self, use_sign_blob: bool, message: &[u8]) -> Result<Vec<u8>, Error> {
+    // `authorizer` is the account named in the message to be signed.
+    pub(crate) async fn sign(
+        &self,
+        authorizer: &str,
+        use_sign_blob: bool,
+        message: &[u8],
+    ) -> Result<Vec<u8>, Error> {
         match self {
             SigningKeyInner::BoundToken(bound_token) => {
                 if use_sign_blob {
                     Ok(bound_token
-                        .sign(message)
+                        .sign(authorizer, message)
                         .await
                         .map_err(Error::BoundTokenSigning)?)
                 } else {
-- 
2.43.0


From d100fa15d240b903568e40c896d1dbdc7f41708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:10 +0000
Subject: [PATCH 08/12] fix: strip the whitespace around header values in the
 canonical request

HTTP does not carry it, so no request could match the signature.
---
 src/private/canonical_request.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index ffe9cfe..fb34a61 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -32,7 +32,9 @@ impl CanonicalRequest {
                     .push(
                         value
                             .to_str()
-                            .map_err(Error::HeaderValueContainsInvalidCharacter)?,
+                            .map_err(Error::HeaderValueContainsInvalidCharacter)?
+                            // HTTP does not carry the whitespace around a field value.
+                            .trim_matches([' ', '\t']),
                     );
             }
             canonical_headers
-- 
2.43.0


From 6e6445778164932830969ed590cfe3360673e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 09/12] fix: return an error instead of panicking for more
 headers than a HeaderMap holds

---
 src/signed_url.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/signed_url.rs b/src/signed_url.rs
index 031d41e..1b801f9 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -38,6 +38,8 @@ enum ErrorKind {
     Now,
     #[error(transparent)]
     SignedUrl(crate::private::signed_url::Error),
+    #[error("too many headers")]
+    TooManyHeaders,
 }
 
 #[derive(Clone)]
@@ -102,20 +104,16 @@ pub async fn build_signed_url(
         .uri(url.to_string())
         .body(())
         .map_err(ErrorKind::HttpRequest)?;
-    request.headers_mut().extend(
-        headers
-            .iter()
-            .map(
-                |(k, v)| -> Result<(http::header::HeaderName, http::header::HeaderValue), Error> {
-                    let key = http::header::HeaderName::from_bytes(k.as_bytes())
-                        .map_err(ErrorKind::InvalidHeaderName)?;
-                    let value = http::header::HeaderValue::from_str(v)
-                        .map_err(ErrorKind::InvalidHeaderValue)?;
-                    Ok((key, value))
-                },
-            )
-            .collect::<Result<Vec<_>, Error>>()?,
-    );
+    for (k, v) in &headers {
+        let key = http::header::HeaderName::from_bytes(k.as_bytes())
+            .map_err(ErrorKind::InvalidHeaderName)?;
+        let value =
+            http::header::HeaderValue::from_str(v).map_err(ErrorKind::InvalidHeaderValue)?;
+        request
+            .headers_mut()
+            .try_append(key, value)
+            .map_err(|_| ErrorKind::TooManyHeaders)?;
+    }
     let credential_scope = CredentialScope::new(
         Date::from_unix_timestamp_obj(now),
         Location::try_from(region.as_str()).map_err(ErrorKind::Location)?,
-- 
2.43.0


From 34a80bf450b8029d2bc91abc2a801a8ab2ef64a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:37 +0000
Subject: [PATCH 10/12] fix: do not quote the private key in PEM parsing errors

pem::PemError::InvalidHeader and MismatchedTags carry lines of the text
that could not be parsed, e.g. a line of the key when the PEM has a stray
blank line.
---
 src/private/signing_key_inner.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/private/signing_key_inner.rs b/src/private/signing_key_inner.rs
index d7a44da..0d66bb9 100644
--- a/src/private/signing_key_inner.rs
+++ b/src/private/signing_key_inner.rs
@@ -10,8 +10,9 @@ pub(crate) enum Error {
     BoundTokenSigning(#[source] crate::private::bound_token::BoundTokenError),
     #[error("hmac signing is not supported")]
     HmacNotSupported,
-    #[error("service account private key pem parsing error: {0}")]
-    ServiceAccountPrivateKeyPemParsing(#[source] pem::PemError),
+    // pem::PemError is left out because it quotes the text, that is, the private key.
+    #[error("service account private key pem parsing error")]
+    ServiceAccountPrivateKeyPemParsing,
     #[error("service account private key pkcs8 parsing error: {0}")]
     ServiceAccountPrivateKeyPkcs8Parsing(ring::error::KeyRejected),
     #[error("service account signing error: {0}")]
@@ -74,7 +75,7 @@ impl SigningKeyInner {
                     Err(Error::ServiceAccountUseSignBlobNotSupported)
                 } else {
                     let pkcs8 = pem::parse(private_key.as_bytes())
-                        .map_err(Error::ServiceAccountPrivateKeyPemParsing)?;
+                        .map_err(|_| Error::ServiceAccountPrivateKeyPemParsing)?;
                     let signing_key = pkcs8.contents();
                     let key_pair = ring::signature::RsaKeyPair::from_pkcs8(signing_key)
                         .map_err(Error::ServiceAccountPrivateKeyPkcs8Parsing)?;
-- 
2.43.0


From b09acb0bc8b0168880ae9e58961d80c7754904d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:45 +0000
Subject: [PATCH 11/12] fix: do not follow redirects of the metadata server or
 of signBlob

---
 src/private/bound_token.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index 51cd3cf..f9f5109 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -73,7 +73,12 @@ impl BoundToken {
                     .unwrap_or_else(|| "metadata.google.internal".to_string())
             ),
             cache: Arc::new(tokio::sync::Mutex::new(None)),
-            client: reqwest::Client::new(),
+            // A redirect must not carry the access token to another server, nor let another
+            // server provide the credentials.
+            client: reqwest::Client::builder()
+                .redirect(reqwest::redirect::Policy::none())
+                .build()
+                .expect("client to be built"),
         }
     }
 
-- 
2.43.0


From 629383819236ba9035d20242bfb9216f8d0e16b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:33 +0000
Subject: [PATCH 12/12] fix: refuse metadata and signBlob answers that are not
 UTF-8

They were decoded lossily, so an account or token the server never gave could be used.
---
 src/private/bound_token.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index f9f5109..ed1a03c 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -22,6 +22,8 @@ pub(crate) enum BoundTokenError {
     EmailRequestStatus(u16, String),
     #[error("bound token / email request / success response error: {0}")]
     EmailRequestSuccessResponse(#[source] reqwest::Error),
+    #[error("bound token / email request / success response utf-8 error: {0}")]
+    EmailRequestSuccessResponseUtf8(#[source] std::str::Utf8Error),
     #[error("bound token / signBlob request / build error: {0}")]
     SignBlobRequestBuild(#[source] reqwest::Error),
     #[error("bound token / signBlob request / error response error: {0}")]
@@ -38,6 +40,8 @@ pub(crate) enum BoundTokenError {
     SignBlobRequestSuccessResponseBase64Decode(#[source] base64::DecodeError),
     #[error("bound token / signBlob request / success response deserialize error: {0}")]
     SignBlobRequestSuccessResponseDeserialize(#[source] serde_json::Error),
+    #[error("bound token / signBlob request / success response utf-8 error: {0}")]
+    SignBlobRequestSuccessResponseUtf8(#[source] std::str::Utf8Error),
     #[error("bound token / token request / build error: {0}")]
     TokenRequestBuild(#[source] reqwest::Error),
     #[error("bound token / token request / error response error: {0}")]
@@ -54,6 +58,8 @@ pub(crate) enum BoundTokenError {
     TokenRequestSuccessResponse(#[source] reqwest::Error),
     #[error("bound token / token request / success response deserialize error: {0}")]
     TokenRequestSuccessResponseDeserialize(#[source] serde_json::Error),
+    #[error("bound token / token request / success response utf-8 error: {0}")]
+    TokenRequestSuccessResponseUtf8(#[source] std::str::Utf8Error),
 }
 
 #[derive(Clone)]
@@ -126,10 +132,12 @@ impl BoundToken {
                     ));
                 }
                 let response_body = response
-                    .text()
+                    .bytes()
                     .await
                     .map_err(BoundTokenError::EmailRequestSuccessResponse)?;
-                let email = response_body;
+                let email = std::str::from_utf8(&response_body)
+                    .map_err(BoundTokenError::EmailRequestSuccessResponseUtf8)?
+                    .to_string();
 
                 // token
                 // <https://google.aip.dev/auth/4115>
@@ -160,10 +168,12 @@ impl BoundToken {
                     ));
                 }
                 let response_body = response
-                    .text()
+                    .bytes()
                     .await
                     .map_err(BoundTokenError::TokenRequestSuccessResponse)?;
-                let access_token = serde_json::from_str::<'_, AccessToken>(&response_body)
+                let response_body = std::str::from_utf8(&response_body)
+                    .map_err(BoundTokenError::TokenRequestSuccessResponseUtf8)?;
+                let access_token = serde_json::from_str::<'_, AccessToken>(response_body)
                     .map_err(BoundTokenError::TokenRequestSuccessResponseDeserialize)?;
                 if access_token.token_type != "Bearer" {
                     return Err(BoundTokenError::TokenRequestInvalidTokenType(
@@ -240,10 +250,12 @@ impl BoundToken {
             ));
         }
         let response_body = response
-            .text()
+            .bytes()
             .await
             .map_err(BoundTokenError::SignBlobRequestSuccessResponse)?;
-        let response_body = serde_json::from_str::<'_, SignBlobResponseBody>(&response_body)
+        let response_body = std::str::from_utf8(&response_body)
+            .map_err(BoundTokenError::SignBlobRequestSuccessResponseUtf8)?;
+        let response_body = serde_json::from_str::<'_, SignBlobResponseBody>(response_body)
             .map_err(BoundTokenError::SignBlobRequestSuccessResponseDeserialize)?;
 
         let signature = base64::Engine::decode(
-- 
2.43.0

