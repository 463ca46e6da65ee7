PRE = r'''
use cloud_storage_signature::*;
use std::time::{Duration, SystemTime};
#[allow(dead_code)]
const PEM: &str = "@PEM@";
#[allow(dead_code)]
fn t(s: u64, n: u32) -> SystemTime { SystemTime::UNIX_EPOCH + Duration::new(s, n) }
#[allow(dead_code)]
fn key() -> SigningKey { SigningKey::service_account("sa@example.com".to_string(), PEM.to_string()) }
#[allow(dead_code)]
fn opts() -> BuildSignedUrlOptions {
    BuildSignedUrlOptions {
        bucket_name: "bucket".to_string(), object_name: "object".to_string(), region: None,
        expires: t(1_700_003_600, 0), http_method: "GET".to_string(),
        accessible_at: Some(t(1_700_000_000, 0)), signing_key: key(), use_sign_blob: false,
        headers: vec![], query_parameters: vec![],
    }
}
#[allow(dead_code)]
fn so(at: SystemTime, e: SystemTime) -> PolicyDocumentSigningOptions {
    PolicyDocumentSigningOptions { accessible_at: Some(at), expiration: e, region: None,
        signing_key: key(), use_sign_blob: false }
}
#[allow(dead_code)]
fn get(fields: &[(String, String)], n: &str) -> String {
    fields.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone()).unwrap_or_default()
}
#[allow(dead_code)]
fn policy(fields: &[(String, String)]) -> serde_json::Value {
    use base64::Engine as _;
    let raw = base64::engine::general_purpose::STANDARD.decode(get(fields, "policy")).unwrap();
    serde_json::from_slice(&raw).unwrap()
}
#[allow(dead_code)]
fn param(url: &str, n: &str) -> Vec<String> {
    url::Url::parse(url).unwrap().query_pairs().filter(|(k, _)| k == n).map(|(_, v)| v.to_string()).collect()
}
/// Does the signature verify over this canonical request?
#[allow(dead_code)]
fn verifies(url: &str, canonical: &str) -> bool {
    let sig = param(url, "X-Goog-Signature")[0].clone();
    let sig: Vec<u8> = (0..sig.len() / 2).map(|i| u8::from_str_radix(&sig[2 * i..2 * i + 2], 16).unwrap()).collect();
    let cred = param(url, "X-Goog-Credential")[0].clone();
    let scope = cred.split_once('/').unwrap().1.to_string();
    let msg = format!("GOOG4-RSA-SHA256\n{}\n{}\n{}", param(url, "X-Goog-Date")[0], scope, sha256::digest(canonical));
    let der = pem::parse(PEM).unwrap();
    let kp = ring::signature::RsaKeyPair::from_pkcs8(der.contents()).unwrap();
    let mut expected = vec![0; kp.public().modulus_len()];
    kp.sign(&ring::signature::RSA_PKCS1_SHA256, &ring::rand::SystemRandom::new(), msg.as_bytes(), &mut expected).unwrap();
    sig == expected
}
/// The query of the URL without the signature.
#[allow(dead_code)]
fn signed_query(url: &str) -> String {
    let q = url.split_once('?').unwrap().1;
    q.split_once("&X-Goog-Signature=").unwrap().0.to_string()
}
'''.replace("@PEM@", open("/verif/harness/keys/rsa1.pem").read().replace("\n", "\\n"))


def T(body):
    return PRE + "\n#[tokio::test]\nasync fn demo() {\n" + body + "\n}\n"


SEEDS = {
 "query-repeats-collapsed": dict(property="C03",
  needs="two identical name/value pairs among the query parameters",
  what="a query parameter given twice with the same value appears once in the signed URL",
  edits=[("src/private/canonical_request.rs", "    query_pairs.sort();\n    query_pairs\n        .into_iter()\n        .map(",
          "    query_pairs = query_pairs\n        .into_iter()\n        .collect::<BTreeSet<_>>()\n        .into_iter()\n        .collect();\n    query_pairs\n        .into_iter()\n        .map(")],
  demo=T('''
    let mut o = opts();
    o.query_parameters = vec![("a".into(), "1".into()), ("b".into(), "2".into()), ("a".into(), "1".into())];
    let url = build_signed_url(o).await.unwrap();
    assert_eq!(param(&url, "a").len(), 2);
''')),
 "expires-rounded-up": dict(property="C05",
  needs="times with sub-second parts whose difference has a fraction of half a second or more",
  what="X-Goog-Expires is rounded to the nearest second, so the URL outlives expires",
  edits=[("src/signed_url.rs", "            .as_secs(),\n", "            .as_secs_f64()\n            .round() as u64,\n")],
  demo=T('''
    let mut o = opts();
    o.expires = t(1_700_000_009, 700_000_000);
    let url = build_signed_url(o).await.unwrap();
    assert_eq!(param(&url, "X-Goog-Expires"), vec!["9".to_string()]);
''')),
 "region-lowercased": dict(property="C06",
  needs="a region that is not all lower case",
  what="the region of the credential is not the caller's",
  edits=[("src/private/location.rs", "        Ok(Self(s.to_string()))\n", "        Ok(Self(s.trim().to_ascii_lowercase()))\n")],
  demo=T('''
    let mut o = opts();
    o.region = Some("US-Central1".to_string());
    let url = build_signed_url(o).await.unwrap();
    assert_eq!(param(&url, "X-Goog-Credential"), vec!["sa@example.com/20231114/US-Central1/storage/goog4_request".to_string()]);
''')),
 "policy-meta-lowercase": dict(property="C08",
  needs="a signed form with a metadata name that has an upper-case letter",
  what="the policy condition names the metadata in lower case, the form field does not, so the form is rejected",
  edits=[("src/html_form_data.rs", '                        policy_document::Field::new(format!("x-goog-meta-{name}"))\n',
          '                        policy_document::Field::new(format!(\n                            "x-goog-meta-{}",\n                            name.to_ascii_lowercase()\n                        ))\n')],
  demo=T('''
    let f = HtmlFormData::builder().key("k").bucket("b").x_goog_meta("Owner", "me")
        .policy_document_signing_options(so(t(1_700_000_000, 0), t(1_700_000_100, 0)))
        .build().await.unwrap().into_vec();
    assert_eq!(get(&f, "x-goog-meta-Owner"), "me");
    let p = policy(&f);
    assert!(p["conditions"].as_array().unwrap().contains(&serde_json::json!(["eq", "$x-goog-meta-Owner", "me"])));
''')),
 "meta-last-wins": dict(property="C07",
  needs="two metadata entries with the same name",
  what="an earlier metadata entry of the same name is silently dropped from the form",
  edits=[("src/html_form_data.rs", '        self.x_goog_meta.push((name.into(), value.into()));\n',
          '        let name = name.into();\n        self.x_goog_meta.retain(|(n, _)| *n != name);\n        self.x_goog_meta.push((name, value.into()));\n')],
  demo=T('''
    let f = HtmlFormData::builder().key("k").x_goog_meta("a", "1").x_goog_meta("b", "2").x_goog_meta("a", "3")
        .build().await.unwrap().into_vec();
    let f: Vec<(&str, &str)> = f.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    assert_eq!(f, vec![("key", "k"), ("x-goog-meta-a", "1"), ("x-goog-meta-b", "2"), ("x-goog-meta-a", "3")]);
''')),
 "header-lines-sorted": dict(property="C01",
  needs="two headers of which one name is the other followed by a character that sorts before the colon, such as x-a and x-a-b",
  what="canonical headers are ordered by the whole line, not by name, so the signature does not verify",
  edits=[("src/private/canonical_request.rs", '''                    );
            }
            canonical_headers
                .into_iter()
                .map(|(name, values)| format!("{name}:{}", values.join(",")))
                .collect::<Vec<String>>()
                .join("\\n")
''', '''                    );
            }
            let lines = canonical_headers
                .into_iter()
                .map(|(name, values)| format!("{name}:{}", values.join(",")))
                .collect::<BTreeSet<String>>();
            lines.into_iter().collect::<Vec<String>>().join("\\n")
''')],
  demo=T('''
    let mut o = opts();
    o.headers = vec![("x-a".into(), "1".into()), ("x-a-b".into(), "2".into())];
    let url = build_signed_url(o).await.unwrap();
    let c = format!("GET\\n/bucket/object\\n{}\\nhost:storage.googleapis.com\\nx-a:1\\nx-a-b:2\\n\\nhost;x-a;x-a-b\\nUNSIGNED-PAYLOAD", signed_query(&url));
    assert!(verifies(&url, &c));
''')),
 "header-values-sorted": dict(property="C04",
  needs="a header given twice with values that are not in ascending order",
  what="the values of a repeated header are signed in sorted order, not in the order of the request",
  edits=[("src/private/canonical_request.rs", '''                    );
            }
            canonical_headers
                .into_iter()
                .map(|(name, values)| format!("{name}:{}", values.join(",")))
''', '''                    );
            }
            canonical_headers
                .into_iter()
                .map(|(name, mut values)| {
                    values.sort_unstable();
                    format!("{name}:{}", values.join(","))
                })
''')],
  demo=T('''
    let mut o = opts();
    o.headers = vec![("x-a".into(), "2".into()), ("X-A".into(), "1".into())];
    let url = build_signed_url(o).await.unwrap();
    let c = format!("GET\\n/bucket/object\\n{}\\nhost:storage.googleapis.com\\nx-a:2,1\\n\\nhost;x-a\\nUNSIGNED-PAYLOAD", signed_query(&url));
    assert!(verifies(&url, &c));
''')),
 "expiration-equal-accepted": dict(property="C10",
  needs="an expiration that equals accessible_at to the nanosecond",
  what="a form whose policy is never valid is signed instead of refused",
  edits=[("src/html_form_data.rs", "if expiration <= accessible_at {", "if expiration < accessible_at {")],
  demo=T('''
    let r = HtmlFormData::builder().key("k").bucket("b")
        .policy_document_signing_options(so(t(1_700_000_000, 5), t(1_700_000_000, 5))).build().await;
    assert!(r.is_err());
''')),
 "method-any-case": dict(property="C20",
  needs="a method that is valid but for its case",
  what="methods in the wrong case are signed instead of refused",
  edits=[("src/private/http_verb.rs", "        match s {\n", "        match s.to_ascii_uppercase().as_str() {\n")],
  demo=T('''
    let mut o = opts();
    o.http_method = "Get".to_string();
    assert!(build_signed_url(o).await.is_err());
''')),
 "trailing-slash-dropped": dict(property="C02",
  needs="an object name that ends with a slash (a folder)",
  what="the URL of a folder object addresses the object without the slash",
  edits=[("src/private/signed_url.rs", "        let path_to_resource = request.uri().path();\n",
          "        let path_to_resource = request.uri().path().trim_end_matches('/');\n")],
  demo=T('''
    let mut o = opts();
    o.object_name = "a/folder/".to_string();
    let url = build_signed_url(o).await.unwrap();
    assert!(url.starts_with("https://storage.googleapis.com/bucket/a/folder/?"));
''')),
 "signature-2048-only": dict(property="C20",
  needs="a service account key that is not 2048 bits long",
  what="the signature buffer has a fixed length, so keys of other sizes can not sign",
  edits=[("src/private/signing_key_inner.rs", "let mut signature = vec![0; key_pair.public().modulus_len()];", "let mut signature = vec![0; 256];")],
  demo=T('''
    let mut o = opts();
    o.signing_key = SigningKey::service_account("sa@example.com".to_string(), "@PEM3@".to_string());
    assert!(build_signed_url(o).await.is_ok());
'''.replace("@PEM3@", open("/verif/harness/keys/rsa3.pem").read().replace("\n", "\\n")))),
}
