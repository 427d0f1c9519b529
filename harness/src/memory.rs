//! C25: bodies are streamed.
use crate::conn::tls_client;
use crate::fw::*;
use crate::srv::*;
use crate::{ensure, hard, soft};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{self, BufReader, Cursor, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::*};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;
use wruster::http::client::Client;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request, Response, StatusCode};
use wruster::router::{HttpHandler, Router};
use wruster_handlers::{log_middleware, serve_static};

/// Counts, while it is told to, what is allocated.
pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static NOW: AtomicIsize = AtomicIsize::new(0);
static MOST: AtomicIsize = AtomicIsize::new(0);

fn count(d: isize) {
    if ON.load(Relaxed) {
        let n = NOW.fetch_add(d, Relaxed) + d;
        if d > 0 {
            MOST.fetch_max(n, Relaxed);
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// The result and the most memory that was in use beyond that before.
fn measured<T>(f: impl FnOnce() -> T) -> (T, usize) {
    NOW.store(0, SeqCst);
    MOST.store(0, SeqCst);
    ON.store(true, SeqCst);
    let r = f();
    ON.store(false, SeqCst);
    (r, MOST.load(SeqCst).max(0) as usize)
}

/// What one message may take, whatever its body's size.
const LIMIT: usize = 16 << 20;

#[inline]
fn byte(seed: u8, i: u64) -> u8 {
    ((i.wrapping_mul(0x9E37_79B9) >> 13) as u8) ^ ((i >> 16) as u8) ^ seed
}

struct Source {
    seed: u8,
    at: u64,
    len: u64,
    piece: usize,
}
fn source(seed: u8, len: u64, piece: usize) -> Source {
    Source { seed, at: 0, len, piece: piece.max(1) }
}
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (b.len().min(self.piece) as u64).min(self.len - self.at) as usize;
        for (k, x) in b[..n].iter_mut().enumerate() {
            *x = byte(self.seed, self.at + k as u64);
        }
        self.at += n as u64;
        Ok(n)
    }
}

/// Compares what is written to it.
struct Judge {
    seed: Option<u8>,
    at: u64,
    wrong: Option<u64>,
}
fn judge(seed: Option<u8>) -> Judge {
    Judge { seed, at: 0, wrong: None }
}
impl Judge {
    fn take(&mut self, b: &[u8]) {
        if self.wrong.is_none() {
            for (k, x) in b.iter().enumerate() {
                let want = self.seed.map_or(0, |s| byte(s, self.at + k as u64));
                if *x != want {
                    self.wrong = Some(self.at + k as u64);
                    break;
                }
            }
        }
        self.at += b.len() as u64;
    }
    fn verdict(&self, len: u64, what: &str) -> R {
        if let Some(w) = self.wrong {
            hard!("{}: byte {} of {} is not the one sent", what, w, len);
        }
        ensure!(self.at == len, "{}: {} bytes of {}", what, self.at, len);
        Ok(())
    }
}

/// A sink that finds the end of the header block and judges what follows.
struct After {
    head: Vec<u8>,
    body: Judge,
}
fn after(seed: Option<u8>) -> After {
    After { head: vec![], body: judge(seed) }
}
impl Write for After {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut b2 = b;
        while !self.head.ends_with(b"\r\n\r\n") && !b2.is_empty() {
            self.head.push(b2[0]);
            b2 = &b2[1..];
            if self.head.len() > 100_000 {
                return Err(io::Error::new(io::ErrorKind::Other, "no end of the header block in 100,000 bytes"));
            }
        }
        self.body.take(b2);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
enum Take {
    Nothing,
    Ensure,
    /// In reads of this size, through the body or its content.
    Read(u32, bool),
    /// This share (1/256), then nothing more.
    Share(u8),
}

impl Take {
    fn of(self, body: &mut Body, len: u64, j: &mut Judge) -> io::Result<()> {
        let mut limit = u64::MAX;
        let (size, through) = match self {
            Take::Nothing => return Ok(()),
            Take::Ensure => return body.ensure_read().map_err(|e| io::Error::new(io::ErrorKind::Other, e.to_string())),
            Take::Read(n, through) => (n as usize, through),
            Take::Share(s) => {
                limit = len * s as u64 / 256;
                (4096, true)
            }
        };
        let mut buf = vec![0; size.max(1)];
        loop {
            let n = (buf.len() as u64).min(limit - j.at.min(limit)) as usize;
            if n == 0 {
                return Ok(());
            }
            let n = if through { body.read(&mut buf[..n])? } else { body.content.read(&mut buf[..n])? };
            if n == 0 {
                return Ok(());
            }
            j.take(&buf[..n]);
        }
    }
    fn expected(self, len: u64) -> u64 {
        match self {
            Take::Nothing | Take::Ensure => 0,
            Take::Read(..) => len,
            Take::Share(s) => len * s as u64 / 256,
        }
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
enum Way {
    WriteResponse(bool),
    WriteRequest(bool),
    ReadRequest(Take),
    ReadResponse(Take),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Alone {
    way: Way,
    len: u64,
    piece: u32,
    seed: u8,
}

fn body_of(len: u64, src: Source) -> Body {
    Body::new(Some(mime::APPLICATION_OCTET_STREAM), len, Box::new(src))
}

fn length(len: u64) -> Headers {
    let mut h = Headers::new();
    h.add(Header { name: "Content-Length".into(), value: len.to_string() });
    h
}

fn alone(c: &Alone, o: &mut Obs) -> R {
    let src = source(c.seed, c.len, c.piece as usize);
    let (r, most) = measured(|| -> R {
        let broken = |e: &dyn std::fmt::Display| Fail::Hard(format!("a body of {} bytes: {}", c.len, e));
        match c.way {
            Way::WriteResponse(by_hand) => {
                let mut to = after(Some(c.seed));
                let mut r = if by_hand {
                    Response { status: StatusCode::OK, headers: length(c.len), body: Some(body_of(c.len, src)) }
                } else {
                    Response::from_content(src, c.len, mime::TEXT_PLAIN)
                };
                r.write(&mut to).map_err(|e| broken(&e))?;
                to.body.verdict(c.len, "written")
            }
            Way::WriteRequest(by_hand) => {
                let mut to = after(Some(c.seed));
                let q = if by_hand {
                    Request { method: HttpMethod::POST, uri: "/".into(), version: "HTTP/1.1".into(), headers: length(c.len), body: Some(body_of(c.len, src)) }
                } else {
                    Request::from_body(body_of(c.len, src), HttpMethod::PUT, "/up")
                };
                q.write(&mut to).map_err(|e| broken(&e))?;
                to.body.verdict(c.len, "written")
            }
            Way::ReadRequest(take) | Way::ReadResponse(take) => {
                let is_req = matches!(c.way, Way::ReadRequest(_));
                let start = if is_req { "POST / HTTP/1.1" } else { "HTTP/1.1 200 OK" };
                let head = format!("{}\r\nContent-Length: {}\r\n\r\n", start, c.len);
                let from = Cursor::new(head.into_bytes()).chain(src);
                let mut body = if is_req {
                    Request::read_from(from).map_err(|e| broken(&e))?.body
                } else {
                    Response::read_from(from).map_err(|e| broken(&e))?.body
                };
                let body = body.as_mut().ok_or_else(|| Fail::Hard("there is no body".into()))?;
                let mut j = judge(Some(c.seed));
                take.of(body, c.len, &mut j).map_err(|e| broken(&e))?;
                j.verdict(take.expected(c.len), "read")?;
                body.ensure_read().map_err(|e| broken(&e))
            }
        }
    });
    r?;
    ensure!(most <= LIMIT, "{} bytes of memory are used for a body of {} bytes", most, c.len);
    o.nontrivial(c.len > LIMIT as u64);
    o.class(format!("{:?}", c.way).split('(').next().unwrap().to_string());
    o.class_if(c.len > u32::MAX as u64, "beyond 4 GiB");
    Ok(())
}

// ------------------------------------------------------------ over sockets

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
enum Over {
    /// To a server, whose handler takes the body so.
    Up(Take),
    /// To a server; the handler must get a part of this share (1/256) before the rest is sent.
    AsItArrives(u8),
    /// From a server.
    Down,
    /// A file from a server.
    File,
    /// A server that sends back what it gets.
    Echo,
    ClientUp,
    ClientDown(Take),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Wire {
    over: Over,
    len: u64,
    piece: u32,
    seed: u8,
    tls: bool,
    logged: bool,
    /// Connections at once.
    at_once: u8,
}

trait Both: Read + Write + Send {}
impl<T: Read + Write + Send> Both for T {}

fn dial(srv: &Srv) -> Result<Box<dyn Both>, Fail> {
    let s = TcpStream::connect(&srv.addr).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)))?;
    s.set_read_timeout(Some(Duration::from_secs(25))).unwrap();
    s.set_write_timeout(Some(Duration::from_secs(25))).unwrap();
    Ok(match srv.tls {
        None => Box::new(s),
        Some(_) => Box::new(rustls::StreamOwned::new(tls_client(None, false), s)),
    })
}

fn failed(what: &'static str) -> impl Fn(io::Error) -> Fail {
    move |e| match e.kind() {
        io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut => Fail::Soft(format!("{}: {}", what, e)),
        _ => Fail::Hard(format!("{}: {}", what, e)),
    }
}

/// Reads a header block byte by byte.
fn head(s: &mut dyn Read) -> io::Result<String> {
    let mut h = Vec::new();
    let mut b = [0];
    while !h.ends_with(b"\r\n\r\n") {
        s.read_exact(&mut b)?;
        h.push(b[0]);
        if h.len() > 100_000 {
            return Err(io::Error::new(io::ErrorKind::Other, "the header block has no end"));
        }
    }
    Ok(String::from_utf8_lossy(&h).into_owned())
}

fn send(s: &mut dyn Write, mut src: Source) -> io::Result<()> {
    let mut b = vec![0; 65536];
    loop {
        let n = src.read(&mut b)?;
        if n == 0 {
            return s.flush();
        }
        s.write_all(&b[..n])?;
    }
}

fn receive(s: &mut dyn Read, len: u64, j: &mut Judge, piece: usize) -> io::Result<()> {
    let mut b = vec![0; piece.clamp(64, 1 << 20)];
    while j.at < len {
        let n = (b.len() as u64).min(len - j.at) as usize;
        let n = s.read(&mut b[..n])?;
        if n == 0 {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        j.take(&b[..n]);
    }
    Ok(())
}

type Notes = Arc<Mutex<Vec<Result<(), Fail>>>>;

fn routes(w: &Wire, dir: String, notes: &Notes, seen: &mpsc::Sender<()>) -> Router {
    let wrap = |h: HttpHandler| if w.logged { log_middleware(h) } else { h };
    let routes = Router::new();
    let (c, notes, seen) = (w.clone(), notes.clone(), Mutex::new(seen.clone()));
    let up: HttpHandler = Box::new(move |q: &mut Request| {
        let (take, first) = match c.over {
            Over::Up(t) => (t, 0),
            Over::AsItArrives(s) => (Take::Read(c.piece, true), (c.len * s as u64 / 256).max(1)),
            _ => (Take::Nothing, 0),
        };
        let mut j = judge(Some(c.seed));
        let r = match q.body.as_mut() {
            None => Err(Fail::Hard("the handler gets no body".into())),
            Some(b) => {
                let mut r = receive(b, first, &mut j, 4096);
                if r.is_ok() && first > 0 {
                    let _ = seen.lock().unwrap().send(());
                }
                if r.is_ok() {
                    r = take.of(b, c.len, &mut j);
                }
                r.map_err(failed("a handler reads its body")).and_then(|_| j.verdict(take.expected(c.len), "what a handler gets"))
            }
        };
        notes.lock().unwrap().push(r);
        Response::from_content(Cursor::new(b"done".to_vec()), 4, mime::TEXT_PLAIN)
    });
    routes.add("/up", HttpMethod::POST, wrap(up));
    let c = w.clone();
    let down: HttpHandler = Box::new(move |_: &mut Request| Response::from_content(source(c.seed, c.len, c.piece as usize), c.len, mime::TEXT_PLAIN));
    routes.add("/down", HttpMethod::GET, wrap(down));
    let echo: HttpHandler = Box::new(|q: &mut Request| match q.body.take() {
        Some(b) => Response { status: StatusCode::OK, headers: Headers::new(), body: Some(b) },
        None => Response::from_status(StatusCode::BadRequest),
    });
    routes.add("/echo", HttpMethod::POST, wrap(echo));
    let file: HttpHandler = Box::new(move |q: &mut Request| serve_static(&dir, q));
    routes.add("/", HttpMethod::GET, wrap(file));
    routes
}

fn one_of(w: &Wire, srv: &Srv, seen: &Mutex<mpsc::Receiver<()>>) -> R {
    let mut s = dial(srv)?;
    let src = source(w.seed, w.len, 1 << 20);
    let post = |p: &str| format!("POST /{} HTTP/1.1\r\nContent-Length: {}\r\n\r\n", p, w.len).into_bytes();
    let (want, mut j) = match w.over {
        Over::Up(_) => {
            s.write_all(&post("up")).map_err(failed("sending"))?;
            send(&mut s, src).map_err(failed("sending"))?;
            (4, None)
        }
        Over::AsItArrives(share) => {
            let first = (w.len * share as u64 / 256).max(1);
            s.write_all(&post("up")).map_err(failed("sending"))?;
            send(&mut s, source(w.seed, first, 1 << 20)).map_err(failed("sending"))?;
            if seen.lock().unwrap().recv_timeout(LONG).is_err() {
                soft!("a handler does not get the first {} bytes of a body before the rest is sent", first);
            }
            let mut rest = src;
            rest.at = first;
            send(&mut s, rest).map_err(failed("sending"))?;
            (4, None)
        }
        Over::Down => {
            s.write_all(b"GET /down HTTP/1.1\r\n\r\n").map_err(failed("sending"))?;
            (w.len, Some(judge(Some(w.seed))))
        }
        Over::File => {
            s.write_all(b"GET /zeros.bin HTTP/1.1\r\n\r\n").map_err(failed("sending"))?;
            (w.len, Some(judge(None)))
        }
        // The response may begin before the request ends: what is in between
        // has to find room, so little by little, and not over TLS.
        Over::Echo => {
            s.write_all(&post("echo")).map_err(failed("sending"))?;
            (w.len, Some(judge(Some(w.seed))))
        }
        _ => return Ok(()),
    };
    let _ = s.flush();
    let h = head(&mut s).map_err(failed("reading a response"))?;
    ensure!(h.starts_with("HTTP/1.1 200 "), "the response is {:?}", h);
    ensure!(h.to_lowercase().contains(&format!("content-length: {}\r\n", want)), "{} bytes are announced as {:?}", want, h);
    match j.as_mut() {
        Some(j) => {
            receive(&mut s, want, j, w.piece as usize).map_err(failed("reading a response"))?;
            j.verdict(want, "the response")?;
        }
        None => {
            let mut b = [0; 4];
            s.read_exact(&mut b).map_err(failed("reading a response"))?;
            ensure!(&b == b"done", "the response is {:?}", b);
        }
    }
    // The connection goes on with the next request.
    s.write_all(b"GET /small.txt HTTP/1.1\r\n\r\n").and_then(|_| s.flush()).map_err(failed("sending"))?;
    let h = head(&mut s).map_err(failed("reading the next response"))?;
    let mut b = [0; 5];
    s.read_exact(&mut b).map_err(failed("reading the next response"))?;
    ensure!(h.starts_with("HTTP/1.1 200 ") && &b == b"small", "the next response on the connection is {:?} {:?}", h, b);
    Ok(())
}

/// The scripted server of a wruster client: one connection.
fn script(l: TcpListener, w: Wire) -> R {
    let (s, _) = l.accept().map_err(failed("accepting"))?;
    s.set_read_timeout(Some(Duration::from_secs(25))).unwrap();
    s.set_write_timeout(Some(Duration::from_secs(25))).unwrap();
    let mut rd = BufReader::new(s.try_clone().unwrap());
    let mut s = s;
    let h = head(&mut rd).map_err(failed("receiving a request"))?;
    match w.over {
        Over::ClientUp => {
            ensure!(h.to_lowercase().contains(&format!("content-length: {}\r\n", w.len)), "{} bytes are announced as {:?}", w.len, h);
            let mut j = judge(Some(w.seed));
            receive(&mut rd, w.len, &mut j, w.piece as usize).map_err(failed("receiving a request"))?;
            j.verdict(w.len, "what a server gets")?;
            s.write_all(b"HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\ndone").map_err(failed("answering"))?;
        }
        _ => {
            s.write_all(format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", w.len).as_bytes()).map_err(failed("answering"))?;
            // The client may leave before the end.
            let _ = send(&mut s, source(w.seed, w.len, 1 << 20));
        }
    }
    Ok(())
}

fn by_client(ctx: &Ctx, w: &Wire) -> R {
    let l = TcpListener::bind((ctx.ip().as_str(), 0)).map_err(|e| Fail::Soft(format!("cannot listen: {}", e)))?;
    let addr = l.local_addr().unwrap().to_string();
    let w2 = w.clone();
    let server = std::thread::spawn(move || script(l, w2));
    let r = (|| -> R {
        let client = Client::new();
        let q = match w.over {
            Over::ClientUp => Request::from_body(body_of(w.len, source(w.seed, w.len, w.piece as usize)), HttpMethod::POST, "/"),
            _ => Request { method: HttpMethod::GET, uri: "/".into(), version: "HTTP/1.1".into(), headers: Headers::new(), body: None },
        };
        let mut r = client.run(&addr, q).map_err(|e| Fail::Hard(format!("the client's request fails: {}", e)))?;
        let take = match w.over {
            Over::ClientDown(t) => t,
            _ => return Ok(()),
        };
        let body = r.body.as_mut().ok_or_else(|| Fail::Hard("the client's response has no body".into()))?;
        let mut j = judge(Some(w.seed));
        take.of(body, w.len, &mut j).map_err(failed("reading the client's response"))?;
        j.verdict(take.expected(w.len), "what a client gets")
    })();
    let s = server.join().unwrap_or_else(|_| Err(Fail::Hard("the scripted server panics".into())));
    r.and(s)
}

fn wire(ctx: &Ctx, w: &Wire, o: &mut Obs) -> R {
    let mut at_once = w.at_once as usize;
    let (r, most) = if matches!(w.over, Over::ClientUp | Over::ClientDown(_)) {
        at_once = 1;
        measured(|| by_client(ctx, w))
    } else {
        let dir = ctx.scratch.join("big");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join("small.txt"), b"small").unwrap();
        // A file with a hole takes no room on the disk.
        std::fs::File::create(dir.join("zeros.bin")).and_then(|f| f.set_len(w.len)).unwrap();
        let notes: Notes = Arc::default();
        let (tx, rx) = mpsc::channel();
        let rx = Mutex::new(rx);
        let srv = Srv::start(ctx, default_timeouts(), routes(w, dir.to_str().unwrap().to_string(), &notes, &tx), w.tls.then_some(false))?;
        let (r, most) = measured(|| -> R {
            let rs: Vec<R> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..at_once)
                    .map(|_| {
                        s.spawn(|| {
                            if w.over != Over::Echo {
                                return one_of(w, &srv, &rx);
                            }
                            echo(w, &srv)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::Hard("the client panics".into())))).collect()
            });
            rs.into_iter().collect()
        });
        let r = r.and_then(|_| notes.lock().unwrap().drain(..).collect::<R>());
        (r.and(srv.stop(LONG)), most)
    };
    r?;
    ensure!(
        most <= LIMIT * at_once,
        "{} bytes of memory are used for {} bodies of {} bytes at once",
        most,
        at_once,
        w.len
    );
    o.nontrivial(w.len > LIMIT as u64);
    o.class(format!("{:?}", w.over).split('(').next().unwrap().to_string());
    o.class_if(w.tls && !matches!(w.over, Over::ClientUp | Over::ClientDown(_)), "TLS");
    o.class_if(w.logged, "logged");
    o.class_if(at_once > 1, "several at once");
    Ok(())
}

/// The server sends while it still receives, so both must go on at once.
fn echo(w: &Wire, srv: &Srv) -> R {
    let s = TcpStream::connect(&srv.addr).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)))?;
    s.set_read_timeout(Some(Duration::from_secs(25))).unwrap();
    s.set_write_timeout(Some(Duration::from_secs(25))).unwrap();
    let mut up = s.try_clone().unwrap();
    let w2 = w.clone();
    let sender = std::thread::spawn(move || -> io::Result<()> {
        up.write_all(format!("POST /echo HTTP/1.1\r\nContent-Length: {}\r\n\r\n", w2.len).as_bytes())?;
        send(&mut up, source(w2.seed, w2.len, 1 << 20))
    });
    let mut s = s;
    let h = head(&mut s).map_err(failed("reading a response"))?;
    ensure!(h.starts_with("HTTP/1.1 200 "), "the response is {:?}", h);
    let mut j = judge(Some(w.seed));
    receive(&mut s, w.len, &mut j, w.piece as usize).map_err(failed("reading a response"))?;
    j.verdict(w.len, "what comes back")?;
    sender.join().unwrap().map_err(failed("sending"))
}

pub fn c25() -> Property {
    let take = || {
        prop_oneof![
            1 => Just(Take::Nothing),
            2 => Just(Take::Ensure),
            3 => (select(vec![100u32, 4096, 8192, 65_536, 1 << 20, 3 << 20]), any::<bool>()).prop_map(|(n, t)| Take::Read(n, t)),
            1 => any::<u8>().prop_map(Take::Share),
        ]
    };
    let sizes = || prop_oneof![1 => 1u64..1 << 20, 6 => (24u64 << 20)..(72 << 20), 1 => select(vec![(2u64 << 20) - 1, 2 << 20, (2 << 20) + 1, 64 << 20])];
    let pieces = || select(vec![1000u32, 8192, 65_536, 1 << 20, 8 << 20]);
    let alone_of = move |huge: u32| {
        let way = prop_oneof![
            any::<bool>().prop_map(Way::WriteResponse),
            any::<bool>().prop_map(Way::WriteRequest),
            take().prop_map(Way::ReadRequest),
            take().prop_map(Way::ReadResponse),
        ];
        let len = (0u32..60, sizes(), (4u64 << 30)..(5 << 30)).prop_map(move |(k, n, h)| if k < huge { h } else { n });
        (way, len, pieces(), any::<u8>()).prop_map(|(way, len, piece, seed)| Alone { way, len, piece, seed })
    };
    Property {
        id: "C25",
        assumptions: &[
            "the memory is what the process allocates, clients included; a message may take up to 16 MiB of it",
            "contents produced by the handlers of the check are produced as they are read",
        ],
        suites: vec![
            suite(
                Opts { name: "alone", rule: "requests and responses written to a sink, or read from a source and consumed in several ways, with bodies of up to 72 MiB (thorough: sometimes beyond 4 GiB), each byte compared, the memory allocated meanwhile counted; non-trivial: the body is larger than the memory it may take", quick: 640, thorough: 8_000, shards: 8, shrink: 12, pure: false },
                move |ctx| {
                    // Beyond 4 GiB now and then, if there is time.
                    alone_of(if ctx.tier == Tier::Thorough { 1 } else { 0 }).boxed()
                },
                |_, c: &Alone, o| alone(c, o),
            ),
            suite(
                Opts { name: "wire", rule: "bodies of up to 72 MiB to and from servers, plain and TLS, with and without the log middleware, files, bodies sent back, to and from the client, 1-3 at once; a handler reads the first part of a body before the rest is sent; non-trivial: the body is larger than the memory it may take", quick: 320, thorough: 6_000, shards: 8, shrink: 10, pure: false },
                move |_| {
                    let over = prop_oneof![
                        3 => take().prop_map(Over::Up),
                        2 => any::<u8>().prop_map(Over::AsItArrives),
                        2 => Just(Over::Down),
                        1 => Just(Over::File),
                        1 => Just(Over::Echo),
                        1 => Just(Over::ClientUp),
                        2 => take().prop_map(Over::ClientDown),
                    ];
                    (over, sizes(), pieces(), any::<u8>(), proptest::bool::weighted(0.3), any::<bool>(), prop_oneof![3 => Just(1u8), 1 => 2u8..4])
                        .prop_map(|(over, len, piece, seed, tls, logged, at_once)| {
                            // What an echo needs at both ends at once is not what TLS streams are made for.
                            let tls = tls && over != Over::Echo;
                            Wire { over, len, piece, seed, tls, logged, at_once }
                        })
                        .boxed()
                },
                wire,
            ),
        ],
    }
}
