//! A wruster server under test, and handlers that follow a plan and write down what they see.
use crate::conn::{tls_client, Conn};
use crate::fw::*;
use crate::gen::*;
use crate::io_mocks::Blob;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::{Cursor, Read};
use std::net::TcpListener;
use std::str::FromStr;
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, Request, Response, StatusCode};
use wruster::router::{HttpHandler, Router};
use wruster::{Certificate, PrivateKey, Server, Timeouts};

/// Normal operations take milliseconds; nothing is called late before this.
pub const LONG: Duration = Duration::from_secs(12);

pub fn long() -> Instant {
    Instant::now() + LONG
}

pub const EC_CRT: &str = include_str!("../certs/ec.crt");
pub const EC_KEY: &str = include_str!("../certs/ec.key");
pub const SEC1_KEY: &str = include_str!("../certs/sec1.key");
pub const RSA_CRT: &str = include_str!("../certs/rsa.crt");
pub const RSA_KEY: &str = include_str!("../certs/rsa.key");
pub const RSA1_KEY: &str = include_str!("../certs/rsa1.key");

pub fn write_file(ctx: &Ctx, name: &str, content: &[u8]) -> String {
    let p = ctx.scratch.join(name);
    std::fs::write(&p, content).unwrap();
    p.to_str().unwrap().to_string()
}

pub fn key_and_cert(ctx: &Ctx, rsa: bool) -> Result<(PrivateKey, Certificate), Fail> {
    let (k, c) = if rsa { (RSA_KEY, RSA_CRT) } else { (EC_KEY, EC_CRT) };
    let kf = write_file(ctx, "key.pem", k.as_bytes());
    let cf = write_file(ctx, "cert.pem", c.as_bytes());
    let key = PrivateKey::read_from(&kf).map_err(|e| Fail::Hard(format!("a good private key file is refused: {}", e)))?;
    let cert = Certificate::read_from(&cf).map_err(|e| Fail::Hard(format!("a good certificate file is refused: {}", e)))?;
    Ok((key, cert))
}

pub fn free_addr(ctx: &Ctx) -> String {
    let l = TcpListener::bind((ctx.ip().as_str(), 0)).unwrap();
    format!("{}:{}", ctx.ip(), l.local_addr().unwrap().port())
}

pub fn timeouts(read: Duration, write: Duration) -> Timeouts {
    Timeouts { read_request_timeout: read, write_response_timeout: write }
}

pub fn default_timeouts() -> Timeouts {
    timeouts(Duration::from_secs(30), Duration::from_secs(30))
}

/// Waits for a condition, at most this long.
pub fn wait_until(limit: Duration, mut f: impl FnMut() -> bool) -> bool {
    let end = Instant::now() + limit;
    let mut n = 0u32;
    loop {
        if f() {
            return true;
        }
        if Instant::now() > end {
            return false;
        }
        n += 1;
        if n < 200 {
            std::thread::yield_now();
        } else {
            std::thread::sleep(Duration::from_micros(300));
        }
    }
}


pub struct Srv {
    pub addr: String,
    pub tls: Option<bool>,
    server: Option<Server>,
}

impl Srv {
    pub fn start(ctx: &Ctx, t: Timeouts, routes: Router, tls: Option<bool>) -> Result<Srv, Fail> {
        let mut server = Server::from_timeouts(t);
        let addr = free_addr(ctx);
        let r = match tls {
            None => server.run(&addr, routes),
            Some(rsa) => {
                let (k, c) = key_and_cert(ctx, rsa)?;
                server.run_tls(&addr, routes, k, c)
            }
        };
        if let Err(e) = r {
            return Err(Fail::Soft(format!("the server does not start on a free address: {}", e)));
        }
        Ok(Srv { addr, tls, server: Some(server) })
    }
    pub fn connect(&self) -> Result<Conn, Fail> {
        let c = Conn::connect(&self.addr).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)))?;
        Ok(match self.tls {
            None => c,
            Some(_) => c.with_tls(tls_client(None, false)),
        })
    }
    /// Shuts the server down; an error when that fails or takes longer than `wait`.
    pub fn stop(mut self, wait: Duration) -> R {
        let server = match self.server.take() {
            Some(s) => s,
            None => return Ok(()),
        };
        shutdown_within(server, wait)
    }
    pub fn take(&mut self) -> Option<Server> {
        self.server.take()
    }
}

pub fn shutdown_within(server: Server, wait: Duration) -> R {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let r = no_panic(|| server.shutdown().map_err(|e| e.to_string()));
        let _ = tx.send(r);
    });
    match rx.recv_timeout(wait) {
        Ok(Ok(Ok(()))) => Ok(()),
        Ok(Ok(Err(e))) => Err(Fail::Hard(format!("shutdown fails: {}", e))),
        Ok(Err(p)) => Err(Fail::Hard(format!("shutdown panics: {}", p))),
        Err(_) => Err(Fail::Soft(format!("shutdown does not return within {:?}", wait))),
    }
}

impl Drop for Srv {
    fn drop(&mut self) {
        if let Some(s) = self.server.take() {
            std::thread::spawn(move || {
                let _ = no_panic(|| s.shutdown().map_err(|e| e.to_string()));
            });
        }
    }
}

// ------------------------------------------------------------- the plan

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
pub enum Consume {
    Nothing,
    Body(usize),
    Content(usize),
    AllBody,
    AllContent,
    Ensure,
    /// Takes this many bytes, then takes the body out of the request and drops it.
    TakeDrop(usize),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
pub enum Rsp {
    Status(u16),
    Content(Blob),
    Str(usize),
    ByHand(u16, Blob, bool),
    /// The request's body is the response's body.
    Echo,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Rq {
    pub method: usize,
    pub v10: bool,
    /// The value of the Connection header, the spelling of its name.
    pub conn: Option<(String, u64)>,
    pub headers: Vec<Hdr>,
    pub clen_spell: u64,
    pub body: Option<Blob>,
    pub consume: Consume,
    pub rsp: Rsp,
    /// The action leaves another request in the place of its own.
    #[serde(default)]
    pub spoil: u8,
}

/// What Connection headers ask for; '|' separates the headers.
pub fn asks_to_keep(v10: bool, conn: Option<&str>) -> bool {
    let options: Vec<String> = conn.unwrap_or("").split([',', '|']).map(|t| t.trim().to_ascii_lowercase()).collect();
    !options.iter().any(|t| t == "close") && (!v10 || options.iter().any(|t| t == "keep-alive"))
}

/// Lists of options, in one header or more.
pub fn conn_list() -> BoxedStrategy<(String, u64)> {
    let v = select(vec![
        "close, te", "TE,Close", "te|close", "close|te", "x , close , y", "keep-alive, te", "te, Keep-Alive", "te|keep-alive", "keep-alive|te", "keep-alive, close", "close|keep-alive", "te, x", "x|y", "te ,keep-alive\t,x",
    ]);
    (v.prop_map(|s| s.to_string()), any::<u64>()).boxed()
}

impl Rq {
    pub fn path(c: usize, k: usize) -> String {
        format!("/c{}/r{}", c, k)
    }
    pub fn persistent(&self) -> bool {
        asks_to_keep(self.v10, self.conn.as_ref().map(|c| c.0.as_str()))
    }
    pub fn fields(&self) -> Vec<Hdr> {
        let mut v = self.headers.clone();
        if let Some((vals, how)) = &self.conn {
            for val in vals.split('|') {
                v.push(Hdr { name: respell("Connection", *how), value: val.into(), pre: " ".into(), post: "".into() });
            }
        }
        if let Some(b) = &self.body {
            v.push(Hdr { name: respell("Content-Length", self.clen_spell), value: b.len.to_string(), pre: " ".into(), post: "".into() });
        }
        v
    }
    pub fn render(&self, c: usize, k: usize) -> Vec<u8> {
        let mut out = format!("{} {} HTTP/1.{}\r\n", METHODS[self.method], Self::path(c, k), if self.v10 { 0 } else { 1 }).into_bytes();
        for h in self.fields() {
            out.extend_from_slice(h.line().as_bytes());
        }
        out.extend_from_slice(b"\r\n");
        if let Some(b) = &self.body {
            out.extend(b.bytes());
        }
        out
    }
    pub fn body_bytes(&self) -> Vec<u8> {
        self.body.as_ref().map(|b| b.bytes()).unwrap_or_default()
    }
    /// Status and body of the response the client must get.
    pub fn response(&self, c: usize, k: usize) -> (u16, Vec<u8>) {
        match &self.rsp {
            Rsp::Status(s) => (*s, vec![]),
            Rsp::Content(b) => (200, marked(c, k, &b.bytes())),
            Rsp::Str(n) => (200, marked(c, k, &vec![b'x'; *n])),
            Rsp::ByHand(s, b, _) => (*s, marked(c, k, &b.bytes())),
            Rsp::Echo => (200, self.body_bytes()),
        }
    }
}

/// Content that tells which request it answers.
fn marked(c: usize, k: usize, data: &[u8]) -> Vec<u8> {
    let mut v = format!("<{}/{}>", c, k).into_bytes();
    v.extend_from_slice(data);
    v
}

#[derive(Debug, Clone)]
pub struct Seen {
    pub problem: Option<String>,
}

pub const INCOMPLETE: &str = "/c99999/r9";

pub struct Plan {
    pub reqs: Vec<Vec<Rq>>,
    pub seen: Mutex<HashMap<(usize, usize), Vec<Seen>>>,
    pub strays: Mutex<Vec<String>>,
}

impl Plan {
    pub fn new(reqs: Vec<Vec<Rq>>) -> Arc<Plan> {
        Arc::new(Plan { reqs, seen: Mutex::new(HashMap::new()), strays: Mutex::new(Vec::new()) })
    }
    /// How often a request was handled; an error if a handler saw something else than was sent.
    pub fn handled(&self, c: usize, k: usize) -> Result<usize, Fail> {
        let s = self.seen.lock().unwrap();
        let v = match s.get(&(c, k)) {
            None => return Ok(0),
            Some(v) => v,
        };
        for x in v {
            if let Some(p) = &x.problem {
                return Err(Fail::Hard(format!("the handler of request {} of connection {}: {}", k, c, p)));
            }
        }
        Ok(v.len())
    }
    /// What each handling of a request found wrong.
    pub fn outcomes(&self, c: usize, k: usize) -> Vec<Option<String>> {
        let s = self.seen.lock().unwrap();
        s.get(&(c, k)).map(|v| v.iter().map(|x| x.problem.clone()).collect()).unwrap_or_default()
    }
    pub fn no_strays(&self) -> R {
        let s = self.strays.lock().unwrap();
        if s.is_empty() {
            Ok(())
        } else {
            Err(Fail::Hard(format!("a handler was called for something that was never sent as a request: {}", s[0])))
        }
    }
    pub fn routes(self: &Arc<Self>) -> Router {
        self.routes_with(|h| h)
    }
    pub fn routes_with(self: &Arc<Self>, wrap: impl Fn(HttpHandler) -> HttpHandler) -> Router {
        let r = Router::new();
        for m in 0..9 {
            let plan = self.clone();
            let h: HttpHandler = Box::new(move |q: &mut Request| plan.handle(m, q));
            r.add("/", method_of(m), wrap(h));
        }
        r
    }
    fn handle(&self, m: usize, q: &mut Request) -> Response {
        let ids = q.uri.strip_prefix("/c").and_then(|s| s.split_once("/r")).and_then(|(c, k)| Some((c.parse::<usize>().ok()?, k.parse::<usize>().ok()?)));
        let (c, k) = match ids {
            Some((c, k)) if c < self.reqs.len() && k < self.reqs[c].len() => (c, k),
            // Headers whose body never arrives.
            _ if q.uri == INCOMPLETE => return Response::from_status(StatusCode::NotFound),
            _ => {
                self.strays.lock().unwrap().push(format!("{:?} {:?}", q.method, q.uri));
                return Response::from_status(StatusCode::NotFound);
            }
        };
        let rq = &self.reqs[c][k];
        let problem = self.look(m, rq, q).err();
        self.seen.lock().unwrap().entry((c, k)).or_default().push(Seen { problem });
        let by_hand = |status: u16, body: Option<Body>, own: bool, len: usize| {
            let mut headers = Headers::new();
            headers.add(Header { name: "X-Id".into(), value: format!("{}/{}", c, k) });
            if own {
                headers.add(Header { name: "Content-Length".into(), value: len.to_string() });
            }
            Response { status: StatusCode::from(status as usize), headers, body }
        };
        let (_, content) = rq.response(c, k);
        let n = content.len();
        if rq.spoil > 0 {
            let mut headers = Headers::new();
            if rq.spoil > 1 {
                headers.add(Header { name: "Connection".into(), value: if rq.spoil == 2 { "keep-alive" } else { "close" }.into() });
                headers.add(Header { name: "Content-Length".into(), value: "7".into() });
            }
            q.headers = headers;
            q.version = if rq.v10 { "HTTP/1.1" } else { "HTTP/1.0" }.into();
            q.uri = "/elsewhere".into();
            q.method = method_of((rq.method + 1) % 9);
        }
        match &rq.rsp {
            Rsp::Status(s) => Response::from_status(StatusCode::from(*s as usize)),
            Rsp::Content(_) => Response::from_content(Cursor::new(content), n as u64, mime::TEXT_PLAIN),
            Rsp::Str(_) => Response::from_str(std::str::from_utf8(&content).unwrap()).unwrap(),
            Rsp::ByHand(s, _, own) => by_hand(*s, Some(Body::new(None, n as u64, Box::new(Cursor::new(content)))), *own, n),
            Rsp::Echo => {
                let body = q.body.take();
                by_hand(200, body, false, n)
            }
        }
    }
    fn look(&self, m: usize, rq: &Rq, q: &mut Request) -> Result<(), String> {
        if m != rq.method || q.method != method_of(rq.method) {
            return Err(format!("{} was sent, the handler for {} got {}", METHODS[rq.method], METHODS[m], q.method));
        }
        if q.version != if rq.v10 { "HTTP/1.0" } else { "HTTP/1.1" } {
            return Err(format!("version {:?}", q.version));
        }
        let sent: Vec<(String, String)> = rq.fields().into_iter().map(|h| (h.name, h.value)).collect();
        same_headers(&q.headers, &sent)?;
        let want = rq.body_bytes();
        if q.body.is_some() != !want.is_empty() {
            return Err(format!("body present: {}, {} bytes were sent", q.body.is_some(), want.len()));
        }
        let b = match q.body.as_mut() {
            None => return Ok(()),
            Some(b) => b,
        };
        if b.content_length != want.len() as u64 {
            return Err(format!("content_length {} for {} bytes", b.content_length, want.len()));
        }
        let mut got = Vec::new();
        let take = |r: &mut dyn Read, n: usize, got: &mut Vec<u8>| -> Result<(), String> {
            let n = n.min(want.len());
            let mut buf = vec![0; n];
            r.read_exact(&mut buf).map_err(|e| format!("reading {} bytes of the body fails: {}", n, e))?;
            got.extend(buf);
            Ok(())
        };
        match rq.consume {
            Consume::Nothing => (),
            Consume::Body(n) => take(b, n, &mut got)?,
            Consume::Content(n) => take(&mut b.content, n, &mut got)?,
            Consume::AllBody => {
                b.read_to_end(&mut got).map_err(|e| format!("reading the body fails: {}", e))?;
                if got != want {
                    return Err(format!("the body has {} bytes, {} were sent; or they differ", got.len(), want.len()));
                }
            }
            Consume::AllContent => {
                b.content.read_to_end(&mut got).map_err(|e| format!("reading the content fails: {}", e))?;
                if got != want {
                    return Err(format!("the body has {} bytes, {} were sent; or they differ", got.len(), want.len()));
                }
            }
            Consume::Ensure => b.ensure_read().map_err(|e| format!("ensure_read fails: {}", e))?,
            Consume::TakeDrop(n) => {
                take(&mut b.content, n, &mut got)?;
                q.body.take();
            }
        }
        if got.len() > want.len() || got != want[..got.len()] {
            return Err("the body's bytes are not those sent".into());
        }
        Ok(())
    }
}

pub fn conn_value() -> BoxedStrategy<Option<(String, u64)>> {
    prop_oneof![
        6 => Just(None),
        2 => (select(vec!["keep-alive", "Keep-Alive", "KEEP-ALIVE"]).prop_map(|s| s.to_string()), any::<u64>()).prop_map(Some),
        2 => (select(vec!["close", "Close", "CLOSE", "cLoSe"]).prop_map(|s| s.to_string()), any::<u64>()).prop_map(Some),
        1 => (select(vec!["upgrade", "closed", "x"]).prop_map(|s| s.to_string()), any::<u64>()).prop_map(Some),
        2 => conn_list().prop_map(Some),
    ]
    .boxed()
}

pub fn rsp(max: usize) -> BoxedStrategy<Rsp> {
    prop_oneof![
        1 => select(vec![200u16, 201, 400, 404, 500, 599]).prop_map(Rsp::Status),
        3 => blob(max).prop_map(Rsp::Content),
        2 => (0usize..300).prop_map(Rsp::Str),
        2 => (select(vec![200u16, 202, 404, 503]), blob(max), any::<bool>()).prop_map(|(s, b, o)| Rsp::ByHand(s, b, o)),
    ]
    .boxed()
}

pub fn rq(max_body: usize, max_resp: usize) -> BoxedStrategy<Rq> {
    let consume = prop_oneof![
        2 => Just(Consume::Nothing), 2 => size(max_body).prop_map(Consume::Body), 2 => size(max_body).prop_map(Consume::Content),
        2 => Just(Consume::AllBody), 1 => Just(Consume::AllContent), 1 => Just(Consume::Ensure), 1 => size(200).prop_map(Consume::TakeDrop),
    ];
    (
        0usize..9,
        proptest::bool::weighted(0.2),
        conn_value(),
        hdrs(2),
        any::<u64>(),
        proptest::option::weighted(0.5, blob(max_body)),
        (consume, rsp(max_resp), proptest::bool::weighted(0.1), prop_oneof![6 => Just(0u8), 1 => 1u8..4]),
    )
        .prop_map(|(method, v10, conn, headers, clen_spell, body, (consume, rsp, echo, spoil))| {
            let (consume, rsp) = if echo { (Consume::Nothing, Rsp::Echo) } else { (consume, rsp) };
            Rq { method, v10, conn, headers, clen_spell, body, consume, rsp, spoil }
        })
        .boxed()
}
