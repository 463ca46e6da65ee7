//! Scripted metadata server and IAM Credentials server on the loopback interface.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::oneshot;

pub struct Pending {
    pub rid: usize,
    pub tx: oneshot::Sender<Value>,
    pub target: String,
    /// The head of the answer has been sent: what remains is the body.
    pub head: Option<Value>,
}

#[derive(Default)]
pub struct State {
    pub events: Vec<Value>,
    pub pending: Vec<Pending>,
    pub next_rid: usize,
    pub auto: Option<Value>,
    pub asked: [usize; 3],
    pub activity: u64,
    /// Connections in the middle of a TLS handshake.
    pub opening: usize,
}

pub type Net = Rc<RefCell<State>>;

pub fn log(net: &Net, v: Value) {
    let mut s = net.borrow_mut();
    s.events.push(v);
    s.activity += 1;
}

pub fn acceptor() -> tokio_rustls::TlsAcceptor {
    use rustls::pki_types::{CertificateDer, PrivateKeyDer, PrivatePkcs8KeyDer};
    let cert = CertificateDer::from(include_bytes!("../certs/leaf.der").to_vec());
    let key = PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(
        include_bytes!("../certs/leaf.key.der").to_vec(),
    ));
    let cfg = rustls::ServerConfig::builder_with_provider(Arc::new(
        rustls::crypto::ring::default_provider(),
    ))
    .with_safe_default_protocol_versions()
    .unwrap()
    .with_no_client_auth()
    .with_single_cert(vec![cert], key)
    .unwrap();
    tokio_rustls::TlsAcceptor::from(Arc::new(cfg))
}

struct Head {
    method: String,
    target: String,
    headers: Vec<(String, String)>,
}

async fn read_head<S: AsyncRead + Unpin>(s: &mut S, buf: &mut Vec<u8>) -> Option<Head> {
    let mut seen = 0usize;
    let end = loop {
        let from = seen.saturating_sub(3);
        if let Some(p) = buf[from..].windows(4).position(|w| w == b"\r\n\r\n") {
            break from + p;
        }
        seen = buf.len();
        let mut b = [0u8; 4096];
        match s.read(&mut b).await {
            Ok(0) | Err(_) => return None,
            Ok(n) => buf.extend_from_slice(&b[..n]),
        }
    };
    let text = String::from_utf8_lossy(&buf[..end]).to_string();
    buf.drain(..end + 4);
    let mut lines = text.split("\r\n");
    let mut first = lines.next().unwrap_or("").splitn(3, ' ');
    let method = first.next().unwrap_or("").to_string();
    let target = first.next().unwrap_or("").to_string();
    let headers = lines
        .filter_map(|l| l.split_once(':'))
        .map(|(k, v)| (k.trim().to_ascii_lowercase(), v.trim().to_string()))
        .collect();
    Some(Head {
        method,
        target,
        headers,
    })
}

async fn answer<S: AsyncRead + AsyncWrite + Unpin>(
    net: &Net,
    s: &mut S,
    mut buf: Vec<u8>,
    head: Head,
    scheme: &str,
    via: &str,
) {
    let get = |n: &str| {
        head.headers
            .iter()
            .find(|(k, _)| k == n)
            .map(|(_, v)| v.clone())
    };
    let len: usize = get("content-length")
        .and_then(|v| v.parse().ok())
        .unwrap_or(0);
    while buf.len() < len {
        let mut b = [0u8; 4096];
        match s.read(&mut b).await {
            Ok(0) | Err(_) => return,
            Ok(n) => buf.extend_from_slice(&b[..n]),
        }
    }
    let body = String::from_utf8_lossy(&buf[..len]).to_string();
    let (rid, rx) = {
        let mut st = net.borrow_mut();
        let rid = st.next_rid;
        st.next_rid += 1;
        st.activity += 1;
        let ev = json!({"e":"req","rid":rid,"method":head.method,"scheme":scheme,"via":via,
            "host":get("host").unwrap_or_default(),"target":head.target,
            "headers":head.headers,"body":body});
        st.events.push(ev.clone());
        let (tx, rx) = oneshot::channel();
        let planned = st.auto.as_ref().is_some_and(|a| a["plan"].is_object());
        if planned {
            // The n-th request of its kind gets the n-th answer, a little later.
            let auto = st.auto.clone().unwrap_or_default();
            let ep = if head.target.ends_with("/email") {
                0
            } else if head.target.ends_with("/token") {
                1
            } else {
                2
            };
            let n = st.asked[ep];
            st.asked[ep] += 1;
            let plan = &auto["plan"][["email", "token", "sign"][ep]];
            let len = plan.as_array().map_or(1, |p| p.len().max(1));
            let r = fill(plan[n % len].clone(), rid);
            let delay = std::time::Duration::from_micros(auto["delay"].as_u64().unwrap_or(0));
            let net = net.clone();
            tokio::task::spawn_local(async move {
                tokio::time::sleep(delay).await;
                log(&net, json!({"e":"resp","rid":rid,"r":r}));
                let _ = tx.send(r);
            });
        } else if let Some(auto) = st.auto.clone() {
            let r = auto_response(&auto, &ev);
            st.events.push(json!({"e":"resp","rid":rid,"r":r}));
            let _ = tx.send(r);
        } else {
            let target = head.target.clone();
            st.pending.push(Pending { rid, tx, target, head: None });
        }
        (rid, rx)
    };
    let Some(mut resp) = wait(net, s, rid, rx).await else {
        return;
    };
    let mut started = false;
    if resp["mode"] == "head" {
        // The head now; the body when it is asked for again, with the same status and length.
        let full = resp["then"].clone();
        let head_bytes = head_of(&full);
        let _ = s.write_all(&head_bytes).await;
        let _ = s.flush().await;
        started = true;
        let (tx, rx) = oneshot::channel();
        {
            let mut st = net.borrow_mut();
            st.activity += 1;
            let target = head.target.clone();
            let at = st.pending.iter().position(|p| p.rid > rid).unwrap_or(st.pending.len());
            st.pending.insert(at, Pending { rid, tx, target, head: Some(full) });
        }
        match wait(net, s, rid, rx).await {
            Some(r) => resp = r,
            None => return,
        }
    }
    match resp["mode"].as_str().unwrap_or("full") {
        "drop" => {}
        "raw" => {
            // Exactly these octets (each character one octet), `times` times.
            let text = resp["raw"].as_str().unwrap_or("");
            let bytes: Vec<u8> = text.chars().map(|c| c as u32 as u8).collect();
            for _ in 0..resp["times"].as_u64().unwrap_or(1) {
                if s.write_all(&bytes).await.is_err() {
                    break;
                }
            }
        }
        "garbage" => {
            let _ = s.write_all(b"\x00\x01 not http\r\n\r\n").await;
        }
        _ => {
            let mut out = if started { vec![] } else { head_of(&resp) };
            out.extend_from_slice(&body_of(&resp));
            let _ = s.write_all(&out).await;
        }
    }
    let _ = s.flush().await;
    let _ = s.shutdown().await;
}

/// The scripted answer, unless the client gives up before.
async fn wait<S: AsyncRead + AsyncWrite + Unpin>(
    net: &Net,
    s: &mut S,
    rid: usize,
    rx: oneshot::Receiver<Value>,
) -> Option<Value> {
    let mut probe = [0u8; 1];
    tokio::select! {
        r = rx => r.ok(),
        _ = s.read(&mut probe) => {
            net.borrow_mut().pending.retain(|p| p.rid != rid);
            log(net, json!({"e":"gone","rid":rid}));
            None
        }
    }
}

/// The body; `fill` stands for n repetitions of a text between two others, a character from U+F700
/// to U+F7FF for an octet.
fn body_of(resp: &Value) -> Vec<u8> {
    let b = resp["body"].as_str().unwrap_or("");
    let text = match resp["fill"].as_array() {
        Some(f) => b.replace(
            "%FILL%",
            &f[0].as_str().unwrap_or("").repeat(f[1].as_u64().unwrap_or(0) as usize),
        ),
        None => b.to_string(),
    };
    let mut out = vec![];
    for c in text.chars() {
        match c {
            '\u{f700}'..='\u{f7ff}' => out.push((c as u32 - 0xf700) as u8),
            c => out.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    out
}

fn head_of(resp: &Value) -> Vec<u8> {
    let status = resp["status"].as_u64().unwrap_or(200);
    let len = body_of(resp).len();
    let extra = if resp["mode"] == "truncate" { 7 } else { 0 };
    let mut out = format!(
        "HTTP/1.1 {status} X\r\ncontent-length: {}\r\nconnection: close\r\n",
        len + extra
    )
    .into_bytes();
    for h in resp["headers"].as_array().cloned().unwrap_or_default() {
        out.extend_from_slice(
            format!("{}: {}\r\n", h[0].as_str().unwrap(), h[1].as_str().unwrap()).as_bytes(),
        );
    }
    out.extend_from_slice(b"\r\n");
    out
}

/// Values that no other answer has.
pub fn fill(mut spec: Value, rid: usize) -> Value {
    if let Some(b) = spec["body"].as_str() {
        use base64::Engine as _;
        let sig = base64::engine::general_purpose::STANDARD
            .encode(format!("signature \u{1}\u{ff} no. {rid}"));
        spec["body"] = json!(b.replace("%RID%", &rid.to_string()).replace("%SIG%", &sig));
    }
    spec
}

/// The well-behaved environment: a metadata server with one account and an IAM that signs.
fn auto_response(auto: &Value, ev: &Value) -> Value {
    let target = ev["target"].as_str().unwrap_or("");
    if target.ends_with("/email") {
        json!({"status":200,"body":auto["email"]})
    } else if target.ends_with("/token") {
        json!({"status":200,"body":json!({"access_token":auto["token"],
            "expires_in":auto["expires_in"],"token_type":"Bearer"}).to_string()})
    } else if target.ends_with(":signBlob") {
        let body: Value =
            serde_json::from_str(ev["body"].as_str().unwrap_or("")).unwrap_or(Value::Null);
        use base64::Engine as _;
        let msg = base64::engine::general_purpose::STANDARD
            .decode(body["payload"].as_str().unwrap_or(""))
            .unwrap_or_default();
        let sig = rsa_sign(auto["pem"].as_str().unwrap(), &msg);
        json!({"status":200,"body":json!({"keyId":"k",
            "signedBlob":base64::engine::general_purpose::STANDARD.encode(sig)}).to_string()})
    } else {
        json!({"status":404,"body":"not found"})
    }
}

pub fn rsa_sign(pem_text: &str, msg: &[u8]) -> Vec<u8> {
    use base64::Engine as _;
    let b64: String = pem_text
        .lines()
        .filter(|l| !l.starts_with("-----"))
        .collect();
    let der = base64::engine::general_purpose::STANDARD
        .decode(b64)
        .unwrap();
    let kp = ring::signature::RsaKeyPair::from_pkcs8(&der).unwrap();
    let mut sig = vec![0; kp.public().modulus_len()];
    kp.sign(
        &ring::signature::RSA_PKCS1_SHA256,
        &ring::rand::SystemRandom::new(),
        msg,
        &mut sig,
    )
    .unwrap();
    sig
}

async fn conn(net: Net, mut s: TcpStream, via: String, tls: tokio_rustls::TlsAcceptor) {
    let mut buf = vec![];
    let Some(head) = read_head(&mut s, &mut buf).await else {
        return;
    };
    if head.method == "CONNECT" {
        let target = head.target.clone();
        if s.write_all(b"HTTP/1.1 200 OK\r\n\r\n").await.is_err() {
            return;
        }
        net.borrow_mut().opening += 1;
        let t = tls.accept(s).await;
        {
            let mut st = net.borrow_mut();
            st.opening -= 1;
            st.activity += 1;
        }
        let mut t = match t {
            Ok(t) => t,
            Err(_) => {
                log(&net, json!({"e":"tlsfail","target":target}));
                return;
            }
        };
        let mut buf = vec![];
        let Some(head) = read_head(&mut t, &mut buf).await else {
            return;
        };
        answer(&net, &mut t, buf, head, "https", &target).await;
    } else {
        answer(&net, &mut s, buf, head, "http", &via).await;
    }
}

/// Listens on a fresh loopback port (within the current LocalSet); returns the port.
pub async fn listen(net: &Net, via: &str) -> u16 {
    let l = TcpListener::bind("127.0.0.1:0").await.expect("bind");
    let port = l.local_addr().unwrap().port();
    let net = net.clone();
    let via = via.to_string();
    let tls = acceptor();
    tokio::task::spawn_local(async move {
        loop {
            let Ok((s, _)) = l.accept().await else { break };
            let _ = s.set_nodelay(true);
            tokio::task::spawn_local(conn(net.clone(), s, via.clone(), tls.clone()));
        }
    });
    port
}
