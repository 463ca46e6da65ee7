//! Conformance driver: executes scenario sessions against the real crate through its public API
//! and records what was observable. It judges nothing; the TLA+ trace specifications do.
//!
//! usage: driver SCENARIOS.ndjson OUT.ndjson SCRATCH_DIR
mod clock;
mod net;

use cloud_storage_signature::{
    build_signed_url, BuildSignedUrlOptions, HtmlFormData, PolicyDocumentSigningOptions, SigningKey,
};
use net::{log, Net};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::rc::Rc;
use std::time::{Duration, Instant, SystemTime};

type Keys = HashMap<String, SigningKey>;

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn st(v: &Value) -> String {
    v.as_str().unwrap_or_default().to_string()
}

fn time(v: &Value) -> SystemTime {
    let sec = v[0].as_i64().expect("sec");
    let nsec = v[1].as_u64().expect("nsec");
    let t = if sec >= 0 {
        SystemTime::UNIX_EPOCH + Duration::from_secs(sec as u64)
    } else {
        SystemTime::UNIX_EPOCH - Duration::from_secs(sec.unsigned_abs())
    };
    t + Duration::from_nanos(nsec)
}

fn opt_time(v: &Value) -> Option<SystemTime> {
    if v.is_null() {
        None
    } else {
        Some(time(v))
    }
}

fn opt_str(v: &Value) -> Option<String> {
    v.as_str().map(|s| s.to_string())
}

fn err_json<E: std::error::Error>(e: E) -> Value {
    let mut chain = vec![];
    let mut cur: Option<&dyn std::error::Error> = e.source();
    while let Some(s) = cur {
        chain.push(format!("{s} | {s:?}"));
        cur = s.source();
    }
    json!({"kind":"err","display":e.to_string(),"debug":format!("{e:?}"),"chain":chain})
}

/// The texts a value of the library can be turned into by formatting, when it can be at all.
struct Texts<'a, T>(&'a T);
trait HasDebug {
    fn debug_text(&self) -> String;
}
impl<T: std::fmt::Debug> HasDebug for Texts<'_, T> {
    fn debug_text(&self) -> String {
        format!("{:?} {:#?}", self.0, self.0)
    }
}
trait NoDebug {
    fn debug_text(&self) -> String {
        String::new()
    }
}
impl<T> NoDebug for &Texts<'_, T> {}
trait HasDisplay {
    fn display_text(&self) -> String;
}
impl<T: std::fmt::Display> HasDisplay for Texts<'_, T> {
    fn display_text(&self) -> String {
        format!("{}", self.0)
    }
}
trait NoDisplay {
    fn display_text(&self) -> String {
        String::new()
    }
}
impl<T> NoDisplay for &Texts<'_, T> {}
macro_rules! shown {
    ($($x:expr),*) => { [$((&Texts(&$x)).debug_text(), (&Texts(&$x)).display_text()),*].concat() };
}

fn with_shown(mut res: Value, shown: String) -> Value {
    if !shown.is_empty() {
        res["shown"] = json!(shown);
    }
    res
}

fn make_key(k: &Value, keys: &Keys) -> Result<SigningKey, Value> {
    match k["t"].as_str().unwrap_or("") {
        "sa" => Ok(SigningKey::service_account(st(&k["email"]), st(&k["pem"]))),
        "hmac" => Ok(SigningKey::hmac(st(&k["id"]), st(&k["secret"]))),
        "json" => SigningKey::service_account_from_str(st(&k["text"])).map_err(err_json),
        "path" => {
            let p = std::path::PathBuf::from(st(&k["path"]));
            if let Some(t) = k["text"].as_str() {
                std::fs::write(&p, t).expect("scratch write");
            } else if let Some(b) = k["bytes"].as_array() {
                let b: Vec<u8> = b.iter().map(|x| x.as_u64().unwrap() as u8).collect();
                std::fs::write(&p, b).expect("scratch write");
            }
            SigningKey::service_account_from_path(&p).map_err(err_json)
        }
        "bound" | "kept" => Ok(keys.get(&st(&k["k"])).expect("bound key").clone()),
        other => panic!("driver: key type {other}"),
    }
}

/// The keys that the calls of a session have in common.
fn make_kept(s: &Value, keys: &mut Keys) {
    for k in s["kept"].as_array().cloned().unwrap_or_default() {
        let key = make_key(&k["key"], keys).expect("kept key");
        keys.insert(st(&k["name"]), key);
    }
}

fn pairs(v: &Value) -> Vec<(String, String)> {
    v.as_array()
        .map(|a| a.iter().map(|p| (st(&p[0]), st(&p[1]))).collect())
        .unwrap_or_default()
}

async fn run_op(op: Value, keys: Keys) -> Value {
    match op["op"].as_str().unwrap_or("") {
        "url" => {
            let key = match make_key(&op["key"], &keys) {
                Ok(k) => k,
                Err(e) => return json!({"kind":"keyerr","err":e}),
            };
            let opts = BuildSignedUrlOptions {
                bucket_name: st(&op["bucket"]),
                object_name: st(&op["object"]),
                region: opt_str(&op["region"]),
                expires: time(&op["expires"]),
                http_method: st(&op["method"]),
                accessible_at: opt_time(&op["at"]),
                signing_key: key,
                use_sign_blob: op["blob"].as_bool().unwrap_or(false),
                headers: expand(&op["headers"]),
                query_parameters: expand(&op["query"]),
            };
            let shown = shown!(opts, opts.signing_key);
            let res = match build_signed_url(opts).await {
                Ok(url) => json!({"kind":"ok","url":url}),
                Err(e) => err_json(e),
            };
            with_shown(res, shown)
        }
        "form" => {
            let mut b = HtmlFormData::builder();
            let mut shown = String::new();
            for s in op["set"].as_array().unwrap() {
                let v = st(&s[1]);
                b = match s[0].as_str().unwrap() {
                    "acl" => b.acl(v),
                    "bucket" => b.bucket(v),
                    "Cache-Control" => b.cache_control(v),
                    "Content-Disposition" => b.content_disposition(v),
                    "Content-Encoding" => b.content_encoding(v),
                    "Content-Length" => b.content_length(v.parse().unwrap()),
                    "Content-Type" => b.content_type(v),
                    "Expires" => b.expires(v),
                    "key" => b.key(v),
                    "success_action_redirect" => b.success_action_redirect(v),
                    "success_action_status" => b.success_action_status(v.parse().unwrap()),
                    "x-goog-custom-time" => b.x_goog_custom_time(v),
                    "meta" => b.x_goog_meta(v, st(&s[2])),
                    "signing" => {
                        let o = &s[1];
                        let key = match make_key(&o["key"], &keys) {
                            Ok(k) => k,
                            Err(e) => return json!({"kind":"keyerr","err":e}),
                        };
                        let opts = PolicyDocumentSigningOptions {
                            accessible_at: opt_time(&o["at"]),
                            expiration: time(&o["expires"]),
                            region: opt_str(&o["region"]),
                            signing_key: key,
                            use_sign_blob: o["blob"].as_bool().unwrap_or(false),
                        };
                        shown += &shown!(opts, opts.signing_key);
                        b.policy_document_signing_options(opts)
                    }
                    other => panic!("driver: setter {other}"),
                };
            }
            shown += &shown!(b);
            let res = match b.build().await {
                Ok(f) => {
                    shown += &shown!(f);
                    json!({"kind":"ok","fields":f.into_vec()})
                }
                Err(e) => err_json(e),
            };
            with_shown(res, shown)
        }
        other => panic!("driver: op {other}"),
    }
}

/// [[k,v],...] or {"repeat":n,"k":..,"v":..}
fn expand(v: &Value) -> Vec<(String, String)> {
    if let Some(n) = v["repeat"].as_u64() {
        (0..n)
            .map(|i| (format!("{}{i}", st(&v["k"])), st(&v["v"])))
            .collect()
    } else {
        pairs(v)
    }
}

fn join_value(r: Result<Value, tokio::task::JoinError>) -> Value {
    match r {
        Ok(v) => v,
        Err(e) if e.is_cancelled() => json!({"kind":"cancelled"}),
        Err(_) => json!({"kind":"panic","msg":PANIC.with(|p| p.borrow().clone())}),
    }
}

fn set_clock(v: &Value) {
    if let (Some(s), Some(n)) = (v[0].as_i64(), v[1].as_i64()) {
        clock::set(s, n);
    }
}

fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .expect("runtime")
}

/// What has been written to standard output and standard error (one file) since the last call.
fn printed() -> String {
    use std::os::unix::fs::FileExt;
    static SEEN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let _ = std::io::stdout().flush();
    // A second descriptor of the same open file: reading at a place moves nothing.
    let file = match std::os::fd::AsFd::as_fd(&std::io::stderr()).try_clone_to_owned() {
        Ok(fd) => std::fs::File::from(fd),
        Err(_) => return String::new(),
    };
    let mut out = vec![];
    let mut buf = [0; 4096];
    let mut at = SEEN.load(std::sync::atomic::Ordering::Relaxed);
    while let Ok(n) = file.read_at(&mut buf, at) {
        if n == 0 {
            break;
        }
        at += n as u64;
        if out.len() < 1 << 20 {
            out.extend_from_slice(&buf[..n]);
        }
    }
    SEEN.store(at, std::sync::atomic::Ordering::Relaxed);
    String::from_utf8_lossy(&out).into_owned()
}

const LIMIT: Duration = Duration::from_secs(10);
const STUCK: Duration = Duration::from_millis(700);

/// Creates the bound keys of a session; each sees its own GCE_METADATA_HOST.
async fn make_bound(net: &Net, specs: &Value, keys: &mut Keys, proxy: u16) {
    for k in specs.as_array().cloned().unwrap_or_default() {
        let name = st(&k["name"]);
        if let Some(of) = k["clone"].as_str() {
            let c = keys.get(of).expect("clone of").clone();
            keys.insert(name, c);
            continue;
        }
        if let Some(of) = k["share"].as_str() {
            // Another key for the same metadata host.
            let h = host_of(net, of);
            std::env::remove_var("HTTP_PROXY");
            std::env::set_var("GCE_METADATA_HOST", &h);
            log(net, json!({"e":"source","key":name,"host":h}));
        } else if k["host"].as_str() == Some("default") {
            log(net, json!({"e":"source","key":name,"host":"metadata.google.internal"}));
            std::env::remove_var("GCE_METADATA_HOST");
            std::env::set_var("HTTP_PROXY", format!("http://127.0.0.1:{proxy}"));
        } else if let Some(h) = k["host"].as_str() {
            log(net, json!({"e":"source","key":name,"host":h}));
            std::env::set_var("GCE_METADATA_HOST", h);
            std::env::set_var("HTTP_PROXY", format!("http://127.0.0.1:{proxy}"));
        } else {
            std::env::remove_var("HTTP_PROXY");
            let port = net::listen(net, &name).await;
            std::env::set_var("GCE_METADATA_HOST", format!("127.0.0.1:{port}"));
            log(net, json!({"e":"source","key":name,"host":format!("127.0.0.1:{port}")}));
        }
        let key = SigningKey::bound_token();
        // The host is read when the key is made: what happens to the variable later is irrelevant.
        std::env::set_var("GCE_METADATA_HOST", "127.0.0.1:1");
        keys.insert(name, key);
    }
}

fn host_of(net: &Net, key: &str) -> String {
    net.borrow()
        .events
        .iter()
        .find(|e| e["e"] == "source" && e["key"] == key)
        .map(|e| st(&e["host"]))
        .expect("source")
}

async fn new_net() -> (Net, u16) {
    let net: Net = Rc::new(RefCell::new(net::State::default()));
    let proxy = net::listen(&net, "proxy").await;
    // Whatever is sent, by whatever key, is seen.
    std::env::set_var("HTTPS_PROXY", format!("http://127.0.0.1:{proxy}"));
    std::env::set_var("HTTP_PROXY", format!("http://127.0.0.1:{proxy}"));
    (net, proxy)
}

async fn calls_seq(s: &Value) -> Vec<Value> {
    let (net, proxy) = new_net().await;
    net.borrow_mut().auto = Some(s["auto"].clone());
    set_clock(&s["now"]);
    let mut keys = Keys::new();
    make_bound(&net, &s["keys"], &mut keys, proxy).await;
    make_kept(s, &mut keys);
    for op in s["ops"].as_array().unwrap() {
        set_clock(&op["now"]);
        clock::step(op["step"].as_i64().unwrap_or(0));
        let task = tokio::task::spawn_local(run_op(op.clone(), keys.clone()));
        let abort = task.abort_handle();
        let res = match tokio::time::timeout(LIMIT, task).await {
            Ok(r) => join_value(r),
            Err(_) => {
                abort.abort();
                json!({"kind":"hang"})
            }
        };
        let hang = res["kind"] == "hang";
        let reads = clock::reads();
        clock::step(0);
        log(&net, json!({"e":"ret","id":op["id"],"res":res,"reads":reads,"printed":printed()}));
        if hang {
            // The other calls are made in sessions of their own.
            break;
        }
    }
    let ev = std::mem::take(&mut net.borrow_mut().events);
    ev
}

/// The server of a session with several threads runs on a thread of its own.
fn serve(s: &Value) -> (Keys, tokio::sync::oneshot::Sender<()>, std::thread::JoinHandle<Vec<Value>>) {
    let (ktx, krx) = std::sync::mpsc::channel();
    let (stop, stopped) = tokio::sync::oneshot::channel();
    let s = s.clone();
    let server = std::thread::spawn(move || {
        let rt = runtime();
        let local = tokio::task::LocalSet::new();
        local.block_on(&rt, async move {
            let (net, proxy) = new_net().await;
            net.borrow_mut().auto = Some(s["auto"].clone());
            let mut keys = Keys::new();
            make_bound(&net, &s["keys"], &mut keys, proxy).await;
            let _ = ktx.send(keys);
            let _ = stopped.await;
            let ev = std::mem::take(&mut net.borrow_mut().events);
            ev
        })
    });
    (krx.recv().expect("keys"), stop, server)
}

fn calls_conc(s: &Value) -> Vec<Value> {
    set_clock(&s["now"]);
    if s["auto"].is_null() {
        let mut keys = Keys::new();
        make_kept(s, &mut keys);
        return in_threads(s, keys);
    }
    let (mut keys, stop, server) = serve(s);
    make_kept(s, &mut keys);
    let out = in_threads(s, keys);
    let _ = stop.send(());
    let mut ev = server.join().expect("server");
    ev.extend(out);
    ev
}

fn in_threads(s: &Value, keys: Keys) -> Vec<Value> {
    let ops = s["ops"].as_array().unwrap().clone();
    let threads = s["threads"].as_u64().unwrap_or(8) as usize;
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(threads));
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let mine: Vec<Value> = ops.iter().skip(t).step_by(threads).cloned().collect();
            let barrier = barrier.clone();
            let keys = keys.clone();
            std::thread::spawn(move || {
                let rt = runtime();
                let local = tokio::task::LocalSet::new();
                barrier.wait();
                local.block_on(&rt, async move {
                    // All calls of one thread are in flight together.
                    let tasks: Vec<_> = mine
                        .into_iter()
                        .map(|op| {
                            let id = op["id"].clone();
                            (id, tokio::task::spawn_local(run_op(op, keys.clone())))
                        })
                        .collect();
                    let mut out = vec![];
                    for (id, t) in tasks {
                        let res = match tokio::time::timeout(LIMIT, t).await {
                            Ok(r) => join_value(r),
                            Err(_) => json!({"kind":"hang"}),
                        };
                        out.push(json!({"e":"ret","id":id,"res":res}));
                    }
                    out
                })
            })
        })
        .collect();
    handles
        .into_iter()
        .flat_map(|h| h.join().expect("thread"))
        .collect()
}

struct Run {
    net: Net,
    outstanding: Rc<RefCell<HashMap<String, tokio::task::AbortHandle>>>,
}

impl Run {
    /// Until nothing moves: every call in flight has returned, or some request waits for an answer.
    async fn settle(&self) {
        let t0 = Instant::now();
        let mut last = self.net.borrow().activity;
        let mut still = 0;
        loop {
            tokio::time::sleep(Duration::from_millis(1)).await;
            let cur = self.net.borrow().activity;
            if cur == last {
                still += 1;
            } else {
                still = 0;
                last = cur;
            }
            let waiting =
                !self.net.borrow().pending.is_empty() || self.outstanding.borrow().is_empty();
            if still >= 4 && waiting && self.net.borrow().opening == 0 {
                return;
            }
            // All servers and calls live on this thread: nothing is under way any more.
            if still >= 400 && t0.elapsed() > STUCK || t0.elapsed() > LIMIT {
                return;
            }
        }
    }

    /// Answers the n-th open request; `head`: only with the head of the answer.
    fn respond(&self, n: usize, r: &Value, head: bool) -> bool {
        let p = {
            let mut s = self.net.borrow_mut();
            if s.pending.is_empty() {
                return false;
            }
            let i = n % s.pending.len();
            if head && s.pending[i].head.is_some() {
                return true;
            }
            s.pending.remove(i)
        };
        let ep = endpoint(&p.target);
        let mut spec = p.head.unwrap_or_else(|| r[ep].clone());
        if spec.is_null() {
            spec = json!({"status":404,"body":"no such endpoint"});
        }
        spec = net::fill(spec, p.rid);
        if head {
            let _ = p.tx.send(json!({"mode":"head","then":spec}));
            return true;
        }
        if let Some(m) = r["late"].as_str() {
            // What becomes of the body is decided only now.
            spec["mode"] = json!(m);
        }
        let (s, n) = clock::get();
        log(
            &self.net,
            json!({"e":"resp","rid":p.rid,"ep":ep,"r":spec,"now":[s,n]}),
        );
        let _ = p.tx.send(spec);
        true
    }

    /// Lets some turns of the event loop pass.
    async fn turns(&self, n: u64) {
        for _ in 0..n {
            tokio::task::yield_now().await;
        }
    }
}

fn endpoint(target: &str) -> &'static str {
    if target.ends_with("/email") {
        "email"
    } else if target.ends_with("/token") {
        "token"
    } else if target.ends_with(":signBlob") {
        "sign"
    } else {
        "other"
    }
}

async fn token_session(s: &Value) -> Vec<Value> {
    set_clock(&s["now"]);
    let (net, proxy) = new_net().await;
    let mut keys = Keys::new();
    make_bound(&net, &s["keys"], &mut keys, proxy).await;
    let run = Run {
        net: net.clone(),
        outstanding: Default::default(),
    };
    for step in s["steps"].as_array().unwrap() {
        match step["do"].as_str().unwrap() {
            "tick" => {
                run.settle().await;
                let (sec, ns) = clock::get();
                let ns = ns + step["ns"].as_i64().unwrap_or(0);
                let sec = sec + step["sec"].as_i64().unwrap_or(0) + ns / 1_000_000_000;
                clock::set(sec, ns % 1_000_000_000);
                log(&net, json!({"e":"tick","now":[sec, ns % 1_000_000_000]}));
            }
            "start" => {
                let call = st(&step["call"]);
                log(&net, json!({"e":"start","call":call,"key":step["key"]}));
                let fut = run_op(step["op"].clone(), keys.clone());
                let net2 = net.clone();
                let out = run.outstanding.clone();
                let task = tokio::task::spawn_local(fut);
                out.borrow_mut().insert(call.clone(), task.abort_handle());
                tokio::task::spawn_local(async move {
                    let v = join_value(task.await);
                    if v["kind"] != "cancelled" {
                        let (s, n) = clock::get();
                        log(&net2, json!({"e":"ret","call":call,"res":v,"now":[s,n]}));
                    }
                    out.borrow_mut().remove(&call);
                });
                if !step["nowait"].as_bool().unwrap_or(false) {
                    run.settle().await;
                }
            }
            "cancel" => {
                let call = st(&step["call"]);
                // In flight means: neither sent nor seen yet.
                let quiet = step["quiet"].as_bool().unwrap_or(true);
                if quiet {
                    run.settle().await;
                }
                let h = run.outstanding.borrow().get(&call).cloned();
                if let Some(h) = h {
                    log(&net, json!({"e":"cancel","call":call,"quiet":quiet}));
                    h.abort();
                    // The abort is complete once the wrapper has seen it.
                    let t0 = Instant::now();
                    while run.outstanding.borrow().contains_key(&call) && t0.elapsed() < LIMIT {
                        tokio::time::sleep(Duration::from_millis(1)).await;
                    }
                    // Let the abandoned connection close before anything else is decided.
                    tokio::time::sleep(Duration::from_millis(3)).await;
                    run.settle().await;
                    if !quiet {
                        log(&net, json!({"e":"quiet"}));
                    }
                }
            }
            "resp" => {
                let n = step["n"].as_u64().unwrap_or(0) as usize;
                if run.respond(n, &step["r"], false) && !step["nowait"].as_bool().unwrap_or(false) {
                    run.settle().await;
                }
            }
            "head" => {
                let n = step["n"].as_u64().unwrap_or(0) as usize;
                run.respond(n, &step["r"], true);
                run.settle().await;
            }
            "turns" => run.turns(step["n"].as_u64().unwrap_or(1)).await,
            "drain" => {
                let max = step["max"].as_u64().unwrap_or(64);
                for _ in 0..max {
                    run.settle().await;
                    if !run.respond(0, &step["r"], false) {
                        break;
                    }
                }
                run.settle().await;
            }
            other => panic!("driver: step {other}"),
        }
    }
    run.settle().await;
    for key in keys.values() {
        let text = shown!(*key);
        if !text.is_empty() {
            log(&net, json!({"e":"printed","text":text}));
        }
    }
    let mut left: Vec<String> = run.outstanding.borrow().keys().cloned().collect();
    left.sort();
    let pend = net.borrow().pending.len();
    log(&net, json!({"e":"end","left":left,"pending":pend}));
    let ev = std::mem::take(&mut net.borrow_mut().events);
    ev
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::fs::File::open(&args[1]).expect("scenarios");
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("out"));
    std::env::set_current_dir(&args[3]).expect("scratch");
    for v in ["HTTP_PROXY", "http_proxy", "HTTPS_PROXY", "https_proxy", "ALL_PROXY", "all_proxy",
        "NO_PROXY", "no_proxy", "REQUEST_METHOD", "GCE_METADATA_HOST"]
    {
        std::env::remove_var(v);
    }
    std::panic::set_hook(Box::new(|info| {
        PANIC.with(|p| *p.borrow_mut() = info.to_string());
    }));
    // Rust reads the real-time clock through our symbol from here on.
    clock::set(1_700_000_000, 0);
    assert_eq!(
        SystemTime::now(),
        SystemTime::UNIX_EPOCH + Duration::from_secs(1_700_000_000),
        "virtual clock not in effect"
    );
    for line in std::io::BufReader::new(input).lines() {
        let line = line.expect("line");
        if line.trim().is_empty() {
            continue;
        }
        let s: Value = serde_json::from_str(&line).expect("scenario json");
        writeln!(out, "{}", json!({"begin":s["sid"]})).unwrap();
        out.flush().unwrap();
        let mut events = match s["s"].as_str().unwrap() {
            "conc" => calls_conc(&s),
            kind => {
                let rt = runtime();
                let local = tokio::task::LocalSet::new();
                let ev = match kind {
                    "calls" => local.block_on(&rt, calls_seq(&s)),
                    "token" => local.block_on(&rt, token_session(&s)),
                    other => panic!("driver: session {other}"),
                };
                drop(local);
                rt.shutdown_timeout(Duration::from_millis(10));
                ev
            }
        };
        let rest = printed();
        if !rest.is_empty() {
            events.push(json!({"e":"printed","text":rest}));
        }
        writeln!(out, "{}", json!({"sid":s["sid"],"events":events})).unwrap();
        out.flush().unwrap();
    }
}
