//! C27: the client and servers that misbehave.
use crate::fw::*;
use crate::srv::*;
use crate::{ensure, hard, soft};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use wruster::http::client::{Client, DEFAULT_READ_RESPONSE_TIMEOUT, DEFAULT_WRITE_REQUEST_TIMEOUT};
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request};

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
enum Bad {
    /// The request is read and the connection ended.
    Nothing,
    /// Not even read.
    AtOnce,
    Garbage(Vec<u8>),
    /// This share (1/65536) of the header block.
    CutHead(u16),
    /// The whole header block and this share of the body.
    CutBody(u16, u32),
    /// A header block that is refused, see `refused`.
    Refused(u8),
    /// This many header lines (times 64) and no end of them.
    NoEnd(u8),
    /// More is announced than there can be.
    Huge(u8, u16),
    Chunked,
    /// Bytes behind a response whose connection is to be closed.
    Behind(Vec<u8>),
}

/// What the server does with the connection then.
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
enum Then {
    Close,
    Reset,
    HalfClose,
    /// For a little longer than the client can see; only where it must not matter.
    Keep,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Step {
    /// A request answered as it should, or not.
    bad: Option<(Bad, Then)>,
    server: u8,
    /// How much of the response is read, 1/256.
    read: u8,
    post: Option<u16>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct History {
    /// One for each thread that uses the client.
    threads: Vec<Vec<Step>>,
    /// Bytes in each write, pause between them.
    piece: u16,
    gap_us: u16,
}

const REFUSED: [&str; 12] = [
    "HTTP/1.1 20 OK\r\n",
    "HTTP/1.1 2000 OK\r\n",
    "HTTP/1.1 abc OK\r\n",
    "HTTP/x.1 200 OK\r\n",
    "HTTP/1.1\r\n",
    "\r\n",
    "ICY 200 OK\r\n",
    "HTTP/1.1 200 OK\r\nNo colon\r\n",
    "HTTP/1.1 200 OK\r\n: no name\r\n",
    "HTTP/1.1 200 OK\r\nContent-Length: 1\r\nContent-Length: 2\r\n",
    "HTTP/1.1 200 OK\r\nContent-Length: one\r\n",
    "HTTP/1.1 200 OK\r\nA: b\r\nContent-Length: -1\r\n",
];

impl Bad {
    /// What is sent; the header block's length.
    fn render(&self) -> (Vec<u8>, usize) {
        let good = |n: u64| format!("HTTP/1.1 200 OK\r\nX-Some: thing\r\nContent-Length: {}\r\n\r\n", n).into_bytes();
        let body = |n: usize| (0..n).map(|i| b'a' + (i % 23) as u8).collect::<Vec<u8>>();
        match self {
            Bad::Nothing | Bad::AtOnce => (vec![], 0),
            Bad::Garbage(g) => (g.clone(), 0),
            Bad::CutHead(s) => {
                let v = good(20);
                let n = v.len() * *s as usize / 65536;
                (v[..n].to_vec(), 0)
            }
            Bad::CutBody(s, len) => {
                let mut v = good(*len as u64);
                let h = v.len();
                v.extend(body(*len as usize * *s as usize / 65536));
                (v, h)
            }
            Bad::Refused(k) => (format!("{}\r\n", REFUSED[*k as usize % REFUSED.len()]).into_bytes(), 0),
            Bad::NoEnd(n) => {
                let mut v = b"HTTP/1.1 200 OK\r\n".to_vec();
                for i in 0..*n as usize * 64 {
                    v.extend(format!("X-{}: {}\r\n", i, i).into_bytes());
                }
                (v, 0)
            }
            Bad::Huge(k, n) => {
                let len = [u64::MAX, i64::MAX as u64, 1 << 62, u32::MAX as u64 + 1][*k as usize % 4];
                let mut v = good(len);
                let h = v.len();
                v.extend(body(*n as usize));
                (v, h)
            }
            Bad::Chunked => (b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n".to_vec(), 0),
            Bad::Behind(x) => {
                let mut v = b"HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 3\r\n\r\nabc".to_vec();
                let h = v.len() - 3;
                v.extend(x);
                (v, h)
            }
        }
    }
    fn must_fail(&self) -> bool {
        !matches!(self, Bad::CutBody(..) | Bad::Huge(..) | Bad::Chunked | Bad::Behind(_))
    }
}

struct Server {
    addr: String,
    stop: Arc<AtomicBool>,
    trouble: Arc<Mutex<Option<String>>>,
    accepting: Option<std::thread::JoinHandle<()>>,
}

/// The header block, and the body after it.
fn take_request(s: &mut TcpStream) -> Option<(String, Vec<u8>)> {
    let mut h = Vec::new();
    let mut b = [0; 4096];
    let end = loop {
        if let Some(p) = h.windows(4).position(|w| w == b"\r\n\r\n") {
            break p + 4;
        }
        match s.read(&mut b) {
            Ok(n) if n > 0 => h.extend(&b[..n]),
            _ => return None,
        }
    };
    let head = String::from_utf8_lossy(&h[..end]).into_owned();
    let mut body = h.split_off(end);
    let len = head.to_lowercase().split("content-length: ").nth(1).and_then(|l| l.split("\r\n").next().unwrap().parse::<usize>().ok()).unwrap_or(0);
    while body.len() < len {
        match s.read(&mut b) {
            Ok(n) if n > 0 => body.extend(&b[..n]),
            _ => return None,
        }
    }
    Some((head, body))
}

impl Server {
    fn start(ctx: &Ctx, h: &History) -> Result<Server, Fail> {
        let l = TcpListener::bind((ctx.ip().as_str(), 0)).map_err(|e| Fail::Soft(format!("cannot listen: {}", e)))?;
        let addr = l.local_addr().unwrap().to_string();
        l.set_nonblocking(true).unwrap();
        let stop = Arc::new(AtomicBool::new(false));
        let trouble = Arc::new(Mutex::new(None));
        let (h, stop2, trouble2) = (Arc::new(h.clone()), stop.clone(), trouble.clone());
        let accepting = std::thread::spawn(move || {
            let mut conns = Vec::new();
            while !stop2.load(Ordering::SeqCst) {
                match l.accept() {
                    Ok((s, _)) => {
                        let (h, stop, trouble) = (h.clone(), stop2.clone(), trouble2.clone());
                        conns.push(std::thread::spawn(move || serve(s, &h, &stop, &trouble)));
                    }
                    Err(_) => std::thread::sleep(Duration::from_micros(200)),
                }
            }
            for c in conns {
                let _ = c.join();
            }
        });
        Ok(Server { addr, stop, trouble, accepting: Some(accepting) })
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        if let Some(a) = self.accepting.take() {
            let _ = a.join();
        }
    }
}

/// One connection.
fn serve(mut s: TcpStream, h: &History, stop: &AtomicBool, trouble: &Mutex<Option<String>>) {
    let _ = s.set_nonblocking(false);
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(Duration::from_millis(50)));
    let mut spoilt: Option<String> = None;
    'conn: loop {
        // Between requests the client may keep it.
        let mut first = [0; 1];
        loop {
            match s.peek(&mut first) {
                Ok(n) if n > 0 => break,
                Err(e) if matches!(e.kind(), io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut) && !stop.load(Ordering::SeqCst) => continue,
                _ => break 'conn,
            }
        }
        let _ = s.set_read_timeout(Some(LONG));
        let (head, body) = match take_request(&mut s) {
            Some(q) => q,
            None => break,
        };
        let _ = s.set_read_timeout(Some(Duration::from_millis(50)));
        let target = head.split(' ').nth(1).unwrap_or("").to_string();
        if let Some(why) = &spoilt {
            *trouble.lock().unwrap() = Some(format!("the request {} comes over a connection on which, before, {}", target, why));
            break;
        }
        let mut at = target.split('/').skip(1).map(|x| x.parse::<usize>().unwrap_or(usize::MAX));
        let (t, k) = (at.next().unwrap_or(usize::MAX), at.next().unwrap_or(usize::MAX));
        let step = match h.threads.get(t).and_then(|x| x.get(k)) {
            Some(s) => s,
            None => {
                *trouble.lock().unwrap() = Some(format!("a server gets {:?}", target));
                break;
            }
        };
        let (data, then) = match &step.bad {
            None => {
                let want = content(t, k, step.post.unwrap_or(0) as usize);
                if step.post.is_some() && body != want {
                    *trouble.lock().unwrap() = Some(format!("the body of {} is not the one sent", target));
                    break;
                }
                let c = content(k, t, 300);
                let mut v = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", c.len()).into_bytes();
                v.extend(c);
                (v, None)
            }
            Some((Bad::AtOnce, then)) => (vec![], Some(*then)),
            Some((b, then)) => (b.render().0, Some(*then)),
        };
        for p in data.chunks(h.piece.max(1) as usize) {
            if s.write_all(p).is_err() {
                break;
            }
            if h.gap_us > 0 && data.len() < 2000 {
                std::thread::sleep(Duration::from_micros(h.gap_us as u64));
            }
        }
        match then {
            None => (),
            Some(Then::Close) => return,
            Some(Then::Reset) => {
                crate::conn::abort(s);
                return;
            }
            Some(Then::HalfClose) => {
                let _ = s.shutdown(Shutdown::Write);
                spoilt = Some(format!("{:?} was sent and the sending ended", step.bad));
            }
            Some(Then::Keep) => spoilt = Some(format!("{:?} was sent", step.bad)),
        }
    }
}

fn content(a: usize, b: usize, n: usize) -> Vec<u8> {
    let mut v = format!("{}-{}:", a, b).into_bytes();
    v.extend((0..n).map(|i| (i * 7 + a * 3 + b) as u8));
    v
}

fn request(t: usize, k: usize, s: &Step) -> Request {
    let uri = format!("/{}/{}", t, k);
    match s.post {
        Some(n) => {
            let c = content(t, k, n as usize);
            let body = Body::new(Some(mime::TEXT_PLAIN), c.len() as u64, Box::new(io::Cursor::new(c)));
            Request::from_body(body, HttpMethod::POST, &uri)
        }
        None => Request { method: HttpMethod::GET, uri, version: "HTTP/1.1".into(), headers: host(), body: None },
    }
}

fn host() -> Headers {
    let mut h = Headers::new();
    h.add(Header { name: "Host".into(), value: "h".into() });
    h
}

fn one_thread(t: usize, steps: &[Step], servers: &[Server], client: &Client) -> R {
    for (k, s) in steps.iter().enumerate() {
        let addr = &servers[s.server as usize % servers.len()].addr;
        let began = Instant::now();
        let what = format!("request {} of thread {} ({:?})", k, t, s);
        let r = no_panic(|| client.run(addr, request(t, k, s))).map_err(|p| Fail::Hard(format!("{}: the client panics: {}", what, p)))?;
        let r = no_panic(|| -> R {
            match (&s.bad, r) {
                (None, Err(e)) => Err(Fail::Hard(format!("{}: it fails: {}", what, e))),
                (None, Ok(mut r)) => {
                    let want = content(k, t, 300);
                    let n = want.len() * s.read as usize / 255;
                    let mut got = vec![0; n];
                    let b = r.body.as_mut().ok_or_else(|| Fail::Hard(format!("{}: no body", what)))?;
                    b.read_exact(&mut got).map_err(|e| Fail::Hard(format!("{}: reading the body: {}", what, e)))?;
                    ensure!(got == want[..n], "{}: it gets another response's body: {}", what, crate::refhttp::show(&got));
                    Ok(())
                }
                (Some((b, then)), Ok(mut r)) => {
                    if b.must_fail() {
                        hard!("{}: it succeeds with {:?}", what, r.status);
                    }
                    let (sent, h) = b.render();
                    if let Some(body) = r.body.as_mut() {
                        // What is read, whole or in parts, is what was sent.
                        let mut got = Vec::new();
                        let limit = sent.len() as u64 * s.read as u64 / 255;
                        let e = if *then == Then::Keep || s.read < 200 {
                            // Without waiting for what never comes.
                            body.take(limit.min((sent.len() - h) as u64)).read_to_end(&mut got)
                        } else {
                            body.read_to_end(&mut got)
                        };
                        let want = &sent[h..];
                        ensure!(want.starts_with(&got), "{}: its body is not what was sent", what);
                        if e.is_ok() && *then != Then::Reset && s.read >= 200 && *then != Then::Keep && !matches!(b, Bad::Behind(_) | Bad::Chunked) {
                            ensure!(got == want, "{}: {} of {} bytes are read", what, got.len(), want.len());
                        }
                        if let Bad::Behind(_) = b {
                            ensure!(got.len() <= 3, "{}: more than the body is read", what);
                        }
                    }
                    Ok(())
                }
                (Some(_), Err(_)) => Ok(()),
            }
        });
        r.map_err(|p| Fail::Hard(format!("{}: the client panics: {}", what, p)))??;
        if began.elapsed() > LONG {
            soft!("{} takes {:?}", what, began.elapsed());
        }
    }
    Ok(())
}

fn history(ctx: &Ctx, h: &History, o: &mut Obs) -> R {
    let servers = vec![Server::start(ctx, h)?, Server::start(ctx, h)?];
    let client = Client::new();
    let rs: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = h
            .threads
            .iter()
            .enumerate()
            .map(|(t, steps)| {
                let (servers, client) = (&servers, &client);
                s.spawn(move || one_thread(t, steps, servers, client))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::Hard("the client panics".into())))).collect()
    });
    no_panic(|| drop(client)).map_err(|p| Fail::Hard(format!("dropping the client panics: {}", p)))?;
    for s in &servers {
        if let Some(t) = s.trouble.lock().unwrap().take() {
            hard!("{}", t);
        }
    }
    rs.into_iter().collect::<R>()?;
    let all: Vec<&Step> = h.threads.iter().flatten().collect();
    for (b, t) in all.iter().filter_map(|s| s.bad.as_ref()) {
        o.class(format!("{:?}", b).split('(').next().unwrap().to_string());
        o.class_if(*t == Then::Keep, "and kept");
    }
    o.sub += all.len() as u64;
    let bad_first = h.threads.iter().any(|t| t.iter().position(|s| s.bad.is_some()).is_some_and(|p| t[p..].iter().any(|s| s.bad.is_none())));
    o.nontrivial(bad_first);
    o.class_if(h.threads.len() > 1, "threads");
    Ok(())
}

fn histories() -> BoxedStrategy<History> {
    let bad = prop_oneof![
        1 => Just((Bad::Nothing, false)),
        1 => Just((Bad::AtOnce, false)),
        2 => vec(any::<u8>(), 1..300).prop_map(|mut g| {
            // Whatever follows, not a status line.
            g[0] = b'#';
            g.extend(b"\r\n\r\n");
            (Bad::Garbage(g), false)
        }),
        2 => any::<u16>().prop_map(|s| (Bad::CutHead(s), false)),
        3 => (any::<u16>(), prop_oneof![1u32..3000, 3000u32..200_000]).prop_map(|(s, n)| (Bad::CutBody(s, n), false)),
        4 => any::<u8>().prop_map(|k| (Bad::Refused(k), !matches!(k as usize % REFUSED.len(), 4 | 5))),
        1 => (1u8..40).prop_map(|n| (Bad::NoEnd(n), false)),
        1 => (any::<u8>(), 0u16..9000).prop_map(|(k, n)| (Bad::Huge(k, n), false)),
        1 => Just((Bad::Chunked, true)),
        1 => vec(any::<u8>(), 1..200).prop_map(|x| (Bad::Behind(x), true)),
    ];
    let bad = (bad, select(vec![Then::Close, Then::Reset, Then::HalfClose, Then::Keep])).prop_map(|((b, may_keep), t)| {
        // A client waits for what must still come.
        let t = if t == Then::Keep && !may_keep { Then::Close } else { t };
        (b, t)
    });
    let step = (proptest::option::weighted(0.5, bad), 0u8..2, prop_oneof![Just(255u8), Just(0u8), any::<u8>()], proptest::option::weighted(0.3, 0u16..20_000))
        .prop_map(|(bad, server, read, post)| Step { bad, server, read, post });
    (vec(vec(step, 1..10), 1..4), select(vec![1u16, 7, 100, 1000, 60_000]), select(vec![0u16, 0, 100]))
        .prop_map(|(threads, piece, gap_us)| History { threads, piece, gap_us })
        .boxed()
}

// ------------------------------------------------------------------ limits

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
enum Stall {
    /// After this share (1/256) of the header block.
    Head(u8),
    /// A byte of the header block every so many ms, for ever.
    DripHead(u16),
    /// After this share of the body.
    InBody(u8),
    DripBody(u16),
    /// A part of the response is read, then it is dropped.
    Dropped(u8),
    /// Takes nothing of a large request.
    NeverReads,
    /// Takes a little of it every so many ms.
    ReadsLittle(u16),
    /// The whole response comes, in this share (1/100) of the limit.
    InTime(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Stalls {
    kinds: Vec<Stall>,
    /// So many requests to a server that takes no connection.
    takes_none: u8,
}

const BODY: usize = 5000;

/// A server whose queue of connections is full.
struct Full(TcpListener, #[allow(dead_code)] Vec<TcpStream>);
impl Full {
    fn new(ctx: &Ctx) -> io::Result<(String, Full)> {
        let l = TcpListener::bind((ctx.ip().as_str(), 0))?;
        unsafe { libc::listen(l.as_raw_fd(), 0) };
        let a = l.local_addr()?;
        let mut v = Vec::new();
        while let Ok(s) = TcpStream::connect_timeout(&a, Duration::from_millis(200)) {
            v.push(s);
            if v.len() > 20 {
                return Err(io::Error::new(io::ErrorKind::Other, "its queue has no end"));
            }
        }
        Ok((a.to_string(), Full(l, v)))
    }
}

fn stalls_server(l: TcpListener, kinds: Arc<Vec<Stall>>, stop: Arc<AtomicBool>) {
    l.set_nonblocking(true).unwrap();
    std::thread::scope(|sc| {
        while !stop.load(Ordering::SeqCst) {
            let mut s = match l.accept() {
                Ok((s, _)) => s,
                Err(_) => {
                    std::thread::sleep(Duration::from_millis(1));
                    continue;
                }
            };
            let (kinds, stop) = (kinds.clone(), stop.clone());
            sc.spawn(move || {
                let _ = s.set_nonblocking(false);
                let pause = |ms: u64| {
                    let end = Instant::now() + Duration::from_millis(ms);
                    while Instant::now() < end && !stop.load(Ordering::SeqCst) {
                        std::thread::sleep(Duration::from_millis(ms.clamp(1, 50)));
                    }
                    !stop.load(Ordering::SeqCst)
                };
                // Only the header block says which one it is.
                let mut h = Vec::new();
                let mut b = [0; 1];
                while !h.ends_with(b"\r\n\r\n") {
                    match s.read(&mut b) {
                        Ok(1) => h.push(b[0]),
                        _ => return,
                    }
                }
                let head = String::from_utf8_lossy(&h).into_owned();
                let k = head.split(' ').nth(1).and_then(|t| t[1..].parse::<usize>().ok());
                let rsp_head = format!("HTTP/1.1 200 OK\r\nX-Some-Header: with a value\r\nContent-Length: {}\r\n\r\n", BODY).into_bytes();
                let kind = match k {
                    Some(k) if k < kinds.len() => kinds[k],
                    // A good one.
                    _ => {
                        let _ = s.write_all(b"HTTP/1.1 200 OK\r\nContent-Length: 4\r\nConnection: close\r\n\r\ngood");
                        return;
                    }
                };
                match kind {
                    Stall::Head(n) => {
                        let _ = s.write_all(&rsp_head[..(rsp_head.len() - 1) * n as usize / 255]);
                        while pause(50) {}
                    }
                    Stall::DripHead(ms) => {
                        let _ = s.write_all(b"HTTP/1.1 200 OK\r\nX: ");
                        while pause(ms as u64) && s.write_all(b"x").is_ok() {}
                    }
                    Stall::InBody(n) | Stall::Dropped(n) => {
                        let _ = s.write_all(&rsp_head);
                        let _ = s.write_all(&vec![b'b'; (BODY - 1) * n as usize / 255]);
                        while pause(50) {}
                    }
                    Stall::DripBody(ms) => {
                        let _ = s.write_all(&rsp_head);
                        while pause(ms as u64) && s.write_all(b"b").is_ok() {}
                    }
                    Stall::NeverReads => while pause(50) {},
                    Stall::ReadsLittle(ms) => {
                        let mut b = [0; 500];
                        while pause(ms as u64) && matches!(s.read(&mut b), Ok(n) if n > 0) {}
                    }
                    Stall::InTime(share) => {
                        // Else it would be used again.
                        let rsp_head = [b"HTTP/1.1 200 OK\r\nConnection: close\r\n", &rsp_head[17..]].concat();
                        let total = DEFAULT_READ_RESPONSE_TIMEOUT.mul_f64(share as f64 / 100.0);
                        let all = [rsp_head, vec![b'b'; BODY]].concat();
                        for p in all.chunks(all.len() / 40) {
                            let _ = s.write_all(p);
                            pause((total / 42).as_millis() as u64);
                        }
                        while pause(50) {}
                    }
                }
            });
        }
    });
}

fn stalls(ctx: &Ctx, c: &Stalls, o: &mut Obs) -> R {
    let kinds = &c.kinds;
    let l = TcpListener::bind((ctx.ip().as_str(), 0)).map_err(|e| Fail::Soft(format!("cannot listen: {}", e)))?;
    let addr = l.local_addr().unwrap().to_string();
    let stop = Arc::new(AtomicBool::new(false));
    let (k2, s2) = (Arc::new(kinds.clone()), stop.clone());
    let server = std::thread::spawn(move || stalls_server(l, k2, s2));
    let client = Arc::new(Client::new());
    let full = if c.takes_none > 0 { Some(Full::new(ctx).map_err(|e| Fail::Skip(format!("no server with a full queue: {}", e)))?) } else { None };
    if let Some((addr, _)) = &full {
        for _ in 0..c.takes_none {
            let (addr, client) = (addr.clone(), client.clone());
            // It ends when the listener is closed, or the system gives up.
            std::thread::spawn(move || {
                let q = Request { method: HttpMethod::GET, uri: "/".into(), version: "HTTP/1.1".into(), headers: host(), body: None };
                let _ = no_panic(|| client.run(&addr, q).is_ok());
            });
        }
        std::thread::sleep(Duration::from_millis(100));
        o.class("a server that takes no connection");
    }
    let done: Arc<Mutex<Vec<Option<Result<Duration, Fail>>>>> = Arc::new(Mutex::new(kinds.iter().map(|_| None).collect()));
    let began = Instant::now();
    for (k, kind) in kinds.iter().enumerate() {
        let (addr, client, done, kind) = (addr.clone(), client.clone(), done.clone(), *kind);
        std::thread::spawn(move || {
            let r = no_panic(|| stalled(&addr, &client, k, kind)).unwrap_or_else(|p| Err(Fail::Hard(format!("{:?}: the client panics: {}", kind, p))));
            done.lock().unwrap()[k] = Some(r.map(|_| began.elapsed()));
        });
    }
    let read = DEFAULT_READ_RESPONSE_TIMEOUT;
    let write = DEFAULT_WRITE_REQUEST_TIMEOUT;
    let margin = Duration::from_secs(8);
    // Meanwhile the client works with others, in particular it is not locked.
    let mut trouble = None;
    while began.elapsed() < read.max(write) + margin && done.lock().unwrap().iter().any(|d| d.is_none()) {
        let t = Instant::now();
        let (tx, rx) = std::sync::mpsc::channel();
        let (a, c) = (addr.clone(), client.clone());
        std::thread::spawn(move || {
            let q = Request { method: HttpMethod::GET, uri: "/good".into(), version: "HTTP/1.1".into(), headers: host(), body: None };
            let r = no_panic(|| c.run(&a, q).map(|mut r| {
                let mut s = String::new();
                let _ = r.body.as_mut().map(|b| b.read_to_string(&mut s));
                s
            }).map_err(|e| e.to_string()));
            let _ = tx.send(r);
        });
        match rx.recv_timeout(LONG) {
            Ok(Ok(Ok(s))) if s == "good" => (),
            Ok(r) => trouble = Some(Fail::Hard(format!("while other requests wait, one that is answered gives {:?}", r))),
            Err(_) => trouble = Some(Fail::Soft(format!("while other requests wait, one that is answered takes {:?}", t.elapsed()))),
        }
        if trouble.is_some() {
            break;
        }
        std::thread::sleep(Duration::from_millis(400));
    }
    let results: Vec<Option<Result<Duration, Fail>>> = done.lock().unwrap().iter_mut().map(|d| d.take()).collect();
    stop.store(true, Ordering::SeqCst);
    let _ = server.join();
    drop(full);
    if let Some(t) = trouble {
        return Err(t);
    }
    for (kind, r) in kinds.iter().zip(results) {
        match r {
            None => soft!("{:?}: the client still waits after {:?}, its limits are {:?} and {:?}", kind, began.elapsed(), read, write),
            Some(Err(e)) => return Err(e),
            Some(Ok(t)) => {
                let limit = match kind {
                    Stall::InTime(_) => continue,
                    Stall::NeverReads | Stall::ReadsLittle(_) => write,
                    _ => read,
                };
                if t + Duration::from_secs(1) < limit {
                    soft!("{:?}: the client gives up after {:?}, the limit is {:?}", kind, t, limit);
                }
            }
        }
        o.class(format!("{:?}", kind).split('(').next().unwrap().to_string());
        o.sub += 1;
    }
    o.nontrivial(true);
    Ok(())
}

fn stalled(addr: &str, client: &Client, k: usize, kind: Stall) -> R {
    let large = matches!(kind, Stall::NeverReads | Stall::ReadsLittle(_));
    let uri = format!("/{}", k);
    let q = if large {
        let n = 64u64 << 20;
        Request::from_body(Body::new(None, n, Box::new(io::repeat(1).take(n))), HttpMethod::POST, &uri)
    } else {
        Request { method: HttpMethod::GET, uri, version: "HTTP/1.1".into(), headers: host(), body: None }
    };
    let r = client.run(addr, q);
    let mut got = Vec::new();
    match (kind, r) {
        (Stall::Head(_) | Stall::DripHead(_) | Stall::NeverReads | Stall::ReadsLittle(_), Ok(_)) => hard!("{:?}: the request succeeds", kind),
        (Stall::Head(_) | Stall::DripHead(_) | Stall::NeverReads | Stall::ReadsLittle(_), Err(_)) => Ok(()),
        (_, Err(e)) => Err(Fail::Soft(format!("{:?}: the request fails with {}", kind, e))),
        (Stall::Dropped(n), Ok(mut r)) => {
            let some = (BODY - 1) * n as usize / 255;
            let _ = r.body.as_mut().unwrap().take(some as u64).read_to_end(&mut got);
            drop(r);
            Ok(())
        }
        (_, Ok(mut r)) => {
            let e = r.body.as_mut().unwrap().read_to_end(&mut got);
            match (kind, e) {
                (Stall::InTime(_), Ok(n)) => {
                    ensure!(n == BODY, "{:?}: {} bytes are read", kind, n);
                    Ok(())
                }
                (Stall::InTime(_), Err(e)) => Err(Fail::Soft(format!("{:?}: reading fails with {}", kind, e))),
                (_, Ok(n)) => Err(Fail::Hard(format!("{:?}: reading ends without an error, with {} bytes", kind, n))),
                (_, Err(_)) => Ok(()),
            }
        }
    }
}

pub fn c27() -> Property {
    let ms = || select(vec![20u16, 200, 900, 1500]);
    let stall = move || {
        prop_oneof![
            2 => prop_oneof![Just(0u8), Just(255u8), any::<u8>()].prop_map(Stall::Head),
            1 => ms().prop_map(Stall::DripHead),
            2 => prop_oneof![Just(0u8), Just(255u8), any::<u8>()].prop_map(Stall::InBody),
            1 => ms().prop_map(Stall::DripBody),
            1 => any::<u8>().prop_map(Stall::Dropped),
            1 => Just(Stall::NeverReads),
            1 => ms().prop_map(Stall::ReadsLittle),
            1 => (10u8..85).prop_map(Stall::InTime),
        ]
    };
    Property {
        id: "C27",
        assumptions: &[
            "what follows a complete response on a connection that may be used again is not the client's to tell from the next response",
            "the client's time limits are its public constants, 60 s each; they are observed in real time with 8 s of margin",
        ],
        suites: vec![
            suite(
                Opts { name: "histories", rule: "1-3 threads that share a client make 1-9 requests each to two servers, half of them answered badly: not at all, with garbage, cut anywhere, reset, refused header blocks, header blocks without end, absurd lengths, unsupported encodings, bytes behind the response; the connection closed, half closed, reset or kept; non-trivial: a good request follows a bad answer", quick: 4000, thorough: 150_000, shards: 8, shrink: 200, pure: false },
                |_| histories(),
                history,
            ),
            suite(
                Opts { name: "limits", rule: "20-40 requests at once of a client to servers that stall in the header block or the body, or drip, or do not read, or are slow but in time, or take no connection, in real time, and good requests meanwhile", quick: 8, thorough: 80, shards: 8, shrink: 1, pure: false },
                move |_| (vec(stall(), 20..40), prop_oneof![1 => Just(0u8), 2 => 1u8..4]).prop_map(|(kinds, takes_none)| Stalls { kinds, takes_none }).boxed(),
                stalls,
            ),
        ],
    }
}
