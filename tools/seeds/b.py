"""Planted changes in the bound-token code. Each demo runs the driver crate (a copy lies beside it)
with a scripted server and looks at what happened with a few lines of Python of its own."""
import json, os
H = "/verif/harness"
CRATE = {}
for d, _, fs in os.walk(H):
    if "/target" in d:
        continue
    for f in fs:
        p = os.path.join(d, f)
        if "/keys/" in p and not p.endswith("rsa1.pem"):
            continue
        CRATE["crate/" + os.path.relpath(p, H)] = open(p, "rb").read()
SH = r'''#!/bin/bash
# Exit 0: the behaviour is right; otherwise it is not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
mkdir "$t/scratch"
cp -r "$here/crate" "$t/crate"
sed -i "s#\"/repo\"#\"$repo\"#" "$t/crate/Cargo.toml"
cd "$t/crate" || exit 1
CARGO_TARGET_DIR="$t/target" timeout 250 cargo build -q --offline --locked || exit 1
python3 "$here/demo.py" sessions > "$t/in" || exit 1
timeout 60 "$t/target/debug/driver" "$t/in" "$t/out" "$t/scratch" || exit 1
python3 "$here/demo.py" judge "$t/out"
'''
PY = r'''
import base64, json, sys
NOW = [1700000000, 0]
EMAIL, LIFE = "acct-%RID%@proj.example", 3600
def ans(life=3600, **kw):
    a = {"email": {"status": 200, "body": EMAIL},
         "token": {"status": 200, "body": json.dumps({"access_token": "tok-%RID%", "expires_in": life, "token_type": "Bearer"})},
         "sign": {"status": 200, "body": json.dumps({"keyId": "k", "signedBlob": "%SIG%"})}}
    a.update(kw)
    return a
def url(key="a", **kw):
    o = {"op": "url", "key": {"t": "bound", "k": key}, "bucket": "b", "object": "o", "region": None,
         "expires": [NOW[0] + 100000, 0], "at": NOW, "method": "GET", "blob": True, "headers": [], "query": []}
    o.update(kw)
    return o
def start(c, key="a", **kw):
    return {"do": "start", "call": c, "key": key, "op": url(key, **kw)}
def drain(*a, **kw):
    return {"do": "drain", "r": ans(*a, **kw)}
def resp(n=0, life=3600, **kw):
    return {"do": "resp", "n": n, "r": ans(life, **kw)}
def session(steps, keys=("a",), now=NOW):
    return {"s": "token", "sid": "x", "now": now, "keys": [k if isinstance(k, dict) else {"name": k} for k in keys], "steps": steps}
def end(e, what):
    return [x for x in EV if x["e"] == "req" and x["target"].endswith(what)]
def reqs(what):
    return [x for x in EV if x["e"] == "req" and x["target"].endswith(what)]
def ret(c):
    return [x["res"] for x in EV if x["e"] == "ret" and x["call"] == c]
def main(s, judge):
    global EV
    if sys.argv[1] == "sessions":
        print(json.dumps(s))
    else:
        EV = [json.loads(l) for l in open(sys.argv[2])]
        EV = [e for e in EV if "events" in e][0]["events"]
        try:
            ok = judge()
        except (IndexError, KeyError) as e:
            print(repr(e)); ok = False
        if not ok:
            for e in EV: print(json.dumps({k: v for k, v in e.items() if k != "headers"})[:300])
        sys.exit(0 if ok else 1)
'''
F = "src/private/bound_token.rs"


def seed(prop, needs, what, edits, demo):
    return {"property": prop, "needs": needs, "what": what, "edits": [(F, a, b) for a, b in edits],
            "sh": SH, "extra": dict(CRATE, **{"demo.py": PY + demo})}


SEEDS = {
 "margin-in-whole-seconds": seed(
  "C11", "a call 30.x seconds before the expiry of the cached token, with a clock between two seconds",
  "a token that has more than 30 seconds left is fetched anew",
  [("""                if expires
                    .duration_since(SystemTime::UNIX_EPOCH)
                    .expect("expires to be after unix_epoch")
                    > SystemTime::now()""", """                if Duration::from_secs(
                    expires
                        .duration_since(SystemTime::UNIX_EPOCH)
                        .expect("expires to be after unix_epoch")
                        .as_secs(),
                ) > SystemTime::now()""")],
  r'''
s = session([start("c0"), drain(100), {"do": "tick", "sec": 69, "ns": 800000000}, start("c1"), drain()], now=[1700000000, 300000000])
main(s, lambda: len(reqs("/token")) == 1 and ret("c1")[0]["kind"] == "ok")
'''),
 "stale-on-error": seed(
  "C11", "a refresh that fails with an error status while the cached token has 1 to 30 seconds left",
  "the cached token, which has less than 30 seconds left, is used for signing",
  [("""                let status = response.status();
                if !status.is_success() {
                    let response_body = response
                        .text()
                        .await
                        .map_err(BoundTokenError::EmailRequestErrorResponse)?;""",
    """                let status = response.status();
                if !status.is_success() {
                    if let Some((email, access_token, expires)) = cache.clone()
                        && status.is_server_error()
                        && expires > SystemTime::now()
                    {
                        return Ok((email, access_token));
                    }
                    let response_body = response
                        .text()
                        .await
                        .map_err(BoundTokenError::EmailRequestErrorResponse)?;""")],
  r'''
s = session([start("c0"), drain(100), {"do": "tick", "sec": 80, "ns": 0}, start("c1"),
             resp(email={"status": 503, "body": "busy"}), drain(email={"status": 503, "body": "busy"})])
main(s, lambda: len(reqs(":signBlob")) == 1 and ret("c1")[0]["kind"] == "err")
'''),
 "cache-by-host": seed(
  "C12", "two keys from separate constructor calls with the same metadata host in one process",
  "the second key uses the account and token which the first one fetched",
  [("            cache: Arc::new(tokio::sync::Mutex::new(None)),",
    "            cache: shared_cache(),"),
   ("#[derive(Clone)]\npub(crate) struct BoundToken {",
    """type Cache = Arc<tokio::sync::Mutex<Option<(String, String, SystemTime)>>>;

// Sources with the same metadata host get the same tokens.
fn shared_cache() -> Cache {
    static CACHES: std::sync::Mutex<std::collections::BTreeMap<String, std::sync::Weak<tokio::sync::Mutex<Option<(String, String, SystemTime)>>>>> =
        std::sync::Mutex::new(std::collections::BTreeMap::new());
    let host = std::env::var("GCE_METADATA_HOST").unwrap_or_default();
    let mut caches = CACHES.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(cache) = caches.get(&host).and_then(|it| it.upgrade()) {
        return cache;
    }
    let cache = Cache::default();
    caches.insert(host, Arc::downgrade(&cache));
    cache
}

#[derive(Clone)]
pub(crate) struct BoundToken {""")],
  r'''
s = session([start("c0", "a"), drain(), start("c1", "b"), drain()], keys=["a", {"name": "b", "share": "a"}])
main(s, lambda: len(reqs("/token")) == 2 and len(reqs("/email")) == 2 and ret("c1")[0]["kind"] == "ok")
'''),
 "lock-not-held": seed(
  "C12", "a second call of the same key that begins while the first one's refresh is under way",
  "the second call fetches an account and token of its own instead of waiting",
  [("        let mut cache = self.cache.lock().await;\n        Ok(match cache.clone() {",
    "        let cached = self.cache.lock().await.clone();\n        Ok(match cached {"),
   ("                *cache = Some((email.clone(), access_token.access_token.clone(), expires));",
    "                *self.cache.lock().await =\n                    Some((email.clone(), access_token.access_token.clone(), expires));")],
  r'''
s = session([start("c0"), start("c1"), drain()])
main(s, lambda: len(reqs("/token")) == 1 and len(reqs("/email")) == 1 and all(ret(c)[0]["kind"] == "ok" for c in ("c0", "c1")))
'''),
 "email-kept-after-failure": seed(
  "C13", "a refresh whose token request fails after the e-mail was fetched, then an account that changes",
  "the e-mail of the failed refresh is used by later calls",
  [("    base_url: String,\n    cache:", "    base_url: String,\n    email: Arc<std::sync::Mutex<Option<String>>>,\n    cache:"),
   ("            cache: Arc::new(tokio::sync::Mutex::new(None)),", "            email: Default::default(),\n            cache: Arc::new(tokio::sync::Mutex::new(None)),"),
   ("""                    .map_err(BoundTokenError::EmailRequestSuccessResponseUtf8)?
                    .to_string();
""", """                    .map_err(BoundTokenError::EmailRequestSuccessResponseUtf8)?
                    .to_string();
                let email = self
                    .email
                    .lock()
                    .expect("not poisoned")
                    .get_or_insert(email)
                    .clone();
"""),
   ("                (email, access_token.access_token)\n",
    "                let email = self.email.lock().expect(\"not poisoned\").take().unwrap_or(email);\n                (email, access_token.access_token.clone())\n")],
  r'''
s = session([start("c0"), resp(), resp(token={"status": 500, "body": "no"}), start("c1"), drain()])
main(s, lambda: ret("c0")[0]["kind"] == "err" and ret("c1")[0]["kind"] == "ok" and "acct-0" not in ret("c1")[0]["url"])
'''),
 "refresh-flag-left-behind": seed(
  "C13", "a call that is dropped while its refresh is under way, and another that waits for that refresh",
  "all other calls of the key wait forever",
  [("    base_url: String,\n    cache:", "    base_url: String,\n    busy: Arc<std::sync::atomic::AtomicBool>,\n    done: Arc<tokio::sync::Notify>,\n    cache:"),
   ("            cache: Arc::new(tokio::sync::Mutex::new(None)),", "            busy: Default::default(),\n            done: Default::default(),\n            cache: Arc::new(tokio::sync::Mutex::new(None)),"),
   ("    pub(crate) async fn get_email_and_token(&self) -> Result<(String, String), BoundTokenError> {\n        let mut cache",
    """    pub(crate) async fn get_email_and_token(&self) -> Result<(String, String), BoundTokenError> {
        // One at a time.
        while self.busy.swap(true, std::sync::atomic::Ordering::SeqCst) {
            self.done.notified().await;
        }
        let result = self.get_or_refresh().await;
        self.busy.store(false, std::sync::atomic::Ordering::SeqCst);
        self.done.notify_one();
        result
    }

    async fn get_or_refresh(&self) -> Result<(String, String), BoundTokenError> {
        let mut cache""")],
  r'''
s = session([start("c0"), start("c1"), {"do": "cancel", "call": "c0"}, drain(), start("c2"), drain()])
main(s, lambda: all(ret(c) and ret(c)[0]["kind"] == "ok" for c in ("c1", "c2")))
'''),
 "email-body-cut": seed(
  "C13", "an e-mail answer whose connection breaks in the middle of the body",
  "the part that arrived is used as the account",
  [("""                let response_body = response
                    .bytes()
                    .await
                    .map_err(BoundTokenError::EmailRequestSuccessResponse)?;
                let email = std::str::from_utf8(&response_body)
                    .map_err(BoundTokenError::EmailRequestSuccessResponseUtf8)?
                    .to_string();""",
    """                let mut response = response;
                let mut response_body = Vec::new();
                while let Ok(Some(chunk)) = response.chunk().await {
                    response_body.extend_from_slice(&chunk);
                }
                let email = std::str::from_utf8(&response_body)
                    .map_err(BoundTokenError::EmailRequestSuccessResponseUtf8)?
                    .to_string();""")],
  r'''
s = session([start("c0"), drain(email={"mode": "truncate", "status": 200, "body": EMAIL}), start("c1"), drain()])
main(s, lambda: ret("c0")[0]["kind"] == "err" and ret("c1")[0]["kind"] == "ok")
'''),
 "payload-url-safe": seed(
  "C14", "a message whose base64 has the characters + or /, such as one with a ~ or ? in the region",
  "the payload is not in the standard alphabet, the message signed is not the one asked for",
  [("                        &base64::engine::general_purpose::STANDARD,\n                        message,",
    "                        &base64::engine::general_purpose::URL_SAFE,\n                        message,")],
  r'''
s = session([start("c%d" % i, region="~" * 3 + "x" * i) for i in range(3)] + [drain()])
def judge():
    ps = [json.loads(r["body"])["payload"] for r in reqs(":signBlob")]
    return len(ps) == 3 and all(base64.b64encode(base64.b64decode(p)).decode() == p for p in ps) and not any(c in p for p in ps for c in "-_")
main(s, judge)
'''),
 "signature-remembered": seed(
  "C14", "the same call made twice with one key",
  "the second call sends no signBlob request and returns the earlier answer",
  [("    base_url: String,\n    cache:", "    base_url: String,\n    signed: Arc<std::sync::Mutex<Vec<(Vec<u8>, Vec<u8>)>>>,\n    cache:"),
   ("            cache: Arc::new(tokio::sync::Mutex::new(None)),", "            signed: Default::default(),\n            cache: Arc::new(tokio::sync::Mutex::new(None)),"),
   ("""        #[derive(Debug, serde::Serialize)]
        struct SignBlobRequestBody {""", """        // RSASSA-PKCS1-v1_5 is deterministic.
        if let Some((_, it)) = self
            .signed
            .lock()
            .expect("not poisoned")
            .iter()
            .find(|(it, _)| it == message)
        {
            return Ok(it.clone());
        }

        #[derive(Debug, serde::Serialize)]
        struct SignBlobRequestBody {"""),
   ("""        .map_err(BoundTokenError::SignBlobRequestSuccessResponseBase64Decode)?;

        Ok(signature)""", """        .map_err(BoundTokenError::SignBlobRequestSuccessResponseBase64Decode)?;
        self.signed
            .lock()
            .expect("not poisoned")
            .push((message.to_vec(), signature.clone()));

        Ok(signature)""")],
  r'''
EMAIL = "acct@proj.example"
s = session([start("c0"), drain(), start("c1"), drain()])
main(s, lambda: len(reqs(":signBlob")) == 2 and ret("c0")[0]["url"] != ret("c1")[0]["url"])
'''),
 "token-answer-3xx": seed(
  "C15", "a token answer with a status such as 300 or 304 that has a token in its body",
  "an answer that is no success becomes the credential",
  [("""                let status = response.status();
                if !status.is_success() {
                    let response_body = response
                        .text()
                        .await
                        .map_err(BoundTokenError::TokenRequestErrorResponse)?;""",
    """                let status = response.status();
                if status.is_client_error() || status.is_server_error() {
                    let response_body = response
                        .text()
                        .await
                        .map_err(BoundTokenError::TokenRequestErrorResponse)?;""")],
  r'''
s = session([start("c0"), drain(token={"status": 300, "body": json.dumps({"access_token": "t", "expires_in": 3600, "token_type": "Bearer"})})])
main(s, lambda: len(reqs(":signBlob")) == 0 and ret("c0")[0]["kind"] == "err")
'''),
 "email-trimmed": seed(
  "C15", "an e-mail answer with white space around it",
  "the account is not the body of the answer",
  [("                *cache = Some((email.clone(), access_token.access_token.clone(), expires));",
    "                let email = email.trim().to_string();\n                *cache = Some((email.clone(), access_token.access_token, expires));\n                let access_token = cache.clone().expect(\"just set\").1;"),
   ("                (email, access_token.access_token)\n", "                (email, access_token)\n")],
  r'''
s = session([start("c0"), drain(email={"status": 200, "body": "acct@proj.example "})])
main(s, lambda: "acct%40proj.example%20%2F" in ret("c0")[0]["url"].replace("+", "%20"))
'''),
 "token-type-any-case": seed(
  "C15", "a token answer with token_type bearer or BEARER",
  "an answer is used whose token_type is not exactly Bearer",
  [('                if access_token.token_type != "Bearer" {', '                if !access_token.token_type.eq_ignore_ascii_case("Bearer") {')],
  r'''
s = session([start("c0"), drain(token={"status": 200, "body": json.dumps({"access_token": "t", "expires_in": 3600, "token_type": "bearer"})})])
main(s, lambda: len(reqs(":signBlob")) == 0 and ret("c0")[0]["kind"] == "err")
'''),
}
