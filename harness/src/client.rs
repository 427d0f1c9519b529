//! C17: the HTTP client, against a scripted server and against wruster's own;
//! and the idle pool of C18 as the client's user sees it.
use crate::fw::*;
use crate::gen::*;
use crate::io_mocks::Blob;
use crate::refhttp::{self, Got, MsgReader};
use crate::srv::*;
use crate::{ensure, hard, skip, soft};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::{Cursor, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use wruster::http::client::{Client, ClientResponse};
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, Request};

// ----------------------------------------------------- the scripted server

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
enum Framing {
    Length,
    /// Content-Length: 0.
    Empty,
    /// As for Length, but only a part is sent before the connection is closed.
    Cut(u16),
    Chunked,
    /// The end of the connection is the end of the content.
    UntilClose,
    NoContent204,
    NotModified304(bool),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Reply {
    status: u16,
    framing: Framing,
    content: Blob,
    v10: bool,
    conn: Option<(String, u64)>,
    clen_spell: u64,
    headers: Vec<Hdr>,
    pieces: Vec<u16>,
    gap_us: u16,
    /// How long an announced close takes, µs.
    linger_us: u32,
}

impl Reply {
    fn data(&self, id: usize) -> Vec<u8> {
        let mut v = format!("[{}]", id).into_bytes();
        v.extend(self.content.bytes());
        v
    }
    fn conn_tokens(&self) -> Vec<String> {
        self.conn.as_ref().map(|c| c.0.to_ascii_lowercase()).unwrap_or_default().split([',', '|']).map(|t| t.trim().to_string()).collect()
    }
    fn says_close(&self, head: bool) -> bool {
        let t = self.conn_tokens();
        t.iter().any(|t| t == "close")
            || (self.v10 && !t.iter().any(|t| t == "keep-alive"))
            || (self.framing == Framing::UntilClose && !head)
    }
    /// What is sent, and whether the server then closes the connection.
    fn render(&self, id: usize, method: &str, asked_to_close: bool) -> (Vec<u8>, bool) {
        let head = method == "HEAD";
        let status = match self.framing {
            Framing::NoContent204 => 204,
            Framing::NotModified304(_) => 304,
            _ => self.status,
        };
        let data = self.data(id);
        let mut out = format!("HTTP/1.{} {} Some reason\r\nX-Id: {}\r\n", if self.v10 { 0 } else { 1 }, status, id).into_bytes();
        for h in &self.headers {
            out.extend_from_slice(h.line().as_bytes());
        }
        if let Some((vals, how)) = &self.conn {
            for v in vals.split('|') {
                out.extend(format!("{}: {}\r\n", respell("Connection", *how), v).into_bytes());
            }
        } else if asked_to_close && id % 2 == 0 {
            out.extend(b"Connection: close\r\n");
        }
        let cl = |n: usize| format!("{}: {}\r\n", respell("Content-Length", self.clen_spell), n).into_bytes();
        let mut body: Vec<u8> = Vec::new();
        let mut cut = false;
        match self.framing {
            Framing::Length => {
                out.extend(cl(data.len()));
                body = data;
            }
            Framing::Empty => out.extend(cl(0)),
            Framing::Cut(n) => {
                out.extend(cl(data.len()));
                body = data[..n as usize % data.len()].to_vec();
                cut = !head;
            }
            Framing::Chunked => {
                out.extend(b"Transfer-Encoding: chunked\r\n");
                for c in data.chunks(1000) {
                    body.extend(format!("{:x}\r\n", c.len()).into_bytes());
                    body.extend(c);
                    body.extend(b"\r\n");
                }
                body.extend(b"0\r\n\r\n");
            }
            Framing::UntilClose => body = data,
            Framing::NoContent204 => (),
            Framing::NotModified304(l) => {
                if l {
                    out.extend(cl(data.len()));
                }
            }
        }
        out.extend(b"\r\n");
        if !head {
            out.extend(body);
        }
        (out, asked_to_close || cut || self.says_close(head))
    }
    /// May the connection be used again, as far as the response goes?
    fn reusable(&self, method: usize) -> Reuse {
        let head = METHODS[method] == "HEAD";
        if self.says_close(head) || matches!(self.framing, Framing::Cut(_) if !head) {
            return Reuse::Never;
        }
        match self.framing {
            Framing::Chunked if !head => Reuse::Never,
            Framing::Length | Framing::Empty if !self.v10 && !head => Reuse::Always,
            _ => Reuse::Maybe,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Reuse {
    Always,
    Maybe,
    Never,
}

#[derive(Debug, Clone)]
struct Taken {
    conn: usize,
    port: u16,
    msg: refhttp::Msg,
}

#[derive(Default)]
struct Book {
    replies: Mutex<HashMap<usize, Reply>>,
    taken: Mutex<HashMap<usize, Vec<Taken>>>,
    problems: Mutex<Vec<String>>,
    conns: AtomicUsize,
    open: AtomicUsize,
    stop: AtomicBool,
}

impl Book {
    fn problem(&self, s: String) {
        self.problems.lock().unwrap().push(s);
    }
    fn ok(&self) -> R {
        match self.problems.lock().unwrap().first() {
            None => Ok(()),
            Some(p) => Err(Fail::Hard(p.clone())),
        }
    }
}

fn serve(book: Arc<Book>, l: TcpListener) {
    l.set_nonblocking(true).unwrap();
    while !book.stop.load(Ordering::SeqCst) {
        let mut p = libc::pollfd { fd: std::os::unix::io::AsRawFd::as_raw_fd(&l), events: libc::POLLIN, revents: 0 };
        unsafe { libc::poll(&mut p, 1, 20) };
        while let Ok((s, _)) = l.accept() {
            let n = book.conns.fetch_add(1, Ordering::SeqCst);
            book.open.fetch_add(1, Ordering::SeqCst);
            let b = book.clone();
            let port = l.local_addr().unwrap().port();
            std::thread::spawn(move || {
                talk_to(&b, s, n, port);
                b.open.fetch_sub(1, Ordering::SeqCst);
            });
        }
    }
}

fn talk_to(book: &Book, mut s: TcpStream, conn: usize, port: u16) {
    let _ = s.set_nonblocking(false);
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(Duration::from_millis(50)));
    let _ = s.set_write_timeout(Some(Duration::from_secs(60)));
    let mut r = MsgReader::new();
    let mut closing: Option<(Instant, usize)> = None;
    loop {
        let mut stopped = false;
        // The next request; until the stop flag is set.
        let got = loop {
            let mut guard = Until { s: &mut s, stop: &book.stop, end: closing.map(|c| c.0) };
            match r.next(&mut guard) {
                Got::Timeout(rest) => {
                    if book.stop.load(Ordering::SeqCst) || closing.is_some_and(|c| Instant::now() >= c.0) {
                        stopped = true;
                        break Got::Timeout(rest);
                    }
                    r.buf = rest;
                }
                g => break g,
            }
        };
        let msg = match got {
            Got::Msg(m) => m,
            Got::Closed(b) if b.is_empty() => return,
            Got::Reset(b) if b.is_empty() => return,
            _ if stopped => return,
            // The client may give up on a connection at any time.
            Got::Closed(_) | Got::Reset(_) => return,
            g => {
                book.problem(format!("the client sends something that is no request: {:?}", g));
                return;
            }
        };
        let id: usize = match msg.all("X-Id").first().and_then(|v| v.parse().ok()) {
            Some(id) => id,
            None => {
                book.problem(format!("the client sends {:?}, with no or a wrong X-Id", msg.start));
                return;
            }
        };
        if let Some((_, before)) = closing {
            book.problem(format!("request {} is sent on the connection of request {}, which is to be closed", id, before));
            return;
        }
        let method = msg.start.split(' ').next().unwrap_or("").to_string();
        let asked = !asks_to_keep(msg.start.ends_with("HTTP/1.0"), Some(&msg.all("Connection").join("|")));
        book.taken.lock().unwrap().entry(id).or_default().push(Taken { conn, port, msg });
        let reply = match book.replies.lock().unwrap().get(&id) {
            Some(r) => r.clone(),
            None => {
                book.problem(format!("request {} was not given to the client yet", id));
                return;
            }
        };
        let (data, close) = reply.render(id, &method, asked);
        let mut d = &data[..];
        let mut n = 0;
        while !d.is_empty() {
            let k = if reply.pieces.is_empty() { d.len() } else { (reply.pieces[n % reply.pieces.len()].max(1) as usize).min(d.len()) };
            // After many pieces the rest at once.
            let k = if n > 200 { d.len() } else { k };
            n += 1;
            if s.write_all(&d[..k]).is_err() {
                return;
            }
            d = &d[k..];
            if !d.is_empty() && reply.gap_us > 0 && n < 20 {
                std::thread::sleep(Duration::from_micros(reply.gap_us as u64));
            }
        }
        if close {
            if matches!(reply.framing, Framing::UntilClose | Framing::Cut(_)) || reply.linger_us < 500 {
                let _ = s.shutdown(Shutdown::Write);
                if reply.linger_us < 500 {
                    return;
                }
            }
            closing = Some((Instant::now() + Duration::from_micros(reply.linger_us as u64), id));
        }
    }
}

/// Reads until told to stop.
struct Until<'a> {
    s: &'a mut TcpStream,
    stop: &'a AtomicBool,
    end: Option<Instant>,
}
impl Read for Until<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if let Some(e) = self.end {
            let left = e.saturating_duration_since(Instant::now()).clamp(Duration::from_millis(1), Duration::from_millis(50));
            let _ = self.s.set_read_timeout(Some(left));
        }
        if self.stop.load(Ordering::SeqCst) {
            return Err(std::io::ErrorKind::WouldBlock.into());
        }
        // The client writes in pieces and waits for the acknowledgements.
        let v: libc::c_int = 1;
        unsafe {
            let fd = std::os::unix::io::AsRawFd::as_raw_fd(self.s);
            libc::setsockopt(fd, libc::IPPROTO_TCP, libc::TCP_QUICKACK, &v as *const _ as *const libc::c_void, 4);
        }
        self.s.read(buf)
    }
}

// ------------------------------------------------------------- the history

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ask {
    method: usize,
    v10: bool,
    conn: Option<(String, u64)>,
    headers: Vec<Hdr>,
    body: Option<Blob>,
    /// Made with Request::from_body.
    from_body: bool,
}

impl Ask {
    fn persistent(&self) -> bool {
        asks_to_keep(self.v10, self.conn.as_ref().map(|c| c.0.as_str()))
    }
    fn request(&self, id: usize, path: &str) -> (Request, Vec<(String, String)>) {
        let mut fields: Vec<(String, String)> = vec![("X-Id".into(), id.to_string())];
        fields.extend(self.headers.iter().map(|h| (h.name.clone(), h.value.clone())));
        if let Some((vals, how)) = &self.conn {
            for v in vals.split('|') {
                fields.push((respell("Connection", *how), v.into()));
            }
        }
        let bytes = self.body.as_ref().map(|b| b.bytes());
        let mut q = match (&bytes, self.from_body) {
            (Some(b), true) => {
                let body = Body::new(None, b.len() as u64, Box::new(Cursor::new(b.clone())));
                Request::from_body(body, method_of(self.method), path)
            }
            _ => {
                let mut headers = Headers::new();
                if let Some(b) = &bytes {
                    headers.add(Header { name: "Content-Length".into(), value: b.len().to_string() });
                }
                Request {
                    body: bytes.as_ref().map(|b| Body::new(None, b.len() as u64, Box::new(Cursor::new(b.clone())))),
                    method: method_of(self.method),
                    uri: path.to_string(),
                    version: "HTTP/1.1".into(),
                    headers,
                }
            }
        };
        q.version = if self.v10 { "HTTP/1.0".into() } else { "HTTP/1.1".into() };
        for (name, value) in &fields {
            q.headers.add(Header { name: name.clone(), value: value.clone() });
        }
        (q, fields)
    }
    /// Is what the server received the request that was given?
    fn same(&self, fields: &[(String, String)], path: &str, m: &refhttp::Msg) -> Result<(), String> {
        let start = format!("{} {} HTTP/1.{}", METHODS[self.method], path, if self.v10 { 0 } else { 1 });
        if m.start != start {
            return Err(format!("the server gets {:?} instead of {:?}", m.start, start));
        }
        let body = self.body.as_ref().map(|b| b.bytes()).unwrap_or_default();
        if m.body != body {
            return Err(format!("the server gets a body of {} bytes, {} were given; or they differ", m.body.len(), body.len()));
        }
        let norm = |v: &[(String, String)]| {
            let mut v: Vec<(String, String)> = v
                .iter()
                .filter(|h| !h.0.eq_ignore_ascii_case("content-length"))
                .map(|h| (h.0.to_ascii_lowercase(), h.1.clone()))
                .collect();
            v.sort();
            v
        };
        let (mut want, got) = (norm(fields), norm(&m.headers));
        // Others may be added, as Host.
        want.retain(|h| !got.contains(h) || want_count(fields, h) > got.iter().filter(|g| *g == h).count());
        if !want.is_empty() {
            return Err(format!("the server does not get the header {:?}, but {:?}", want[0], clip(&format!("{:?}", m.headers), 600)));
        }
        for (n, _) in &m.headers {
            let l = n.to_ascii_lowercase();
            let given = fields.iter().filter(|f| f.0.to_ascii_lowercase() == l).count();
            let sent = m.headers.iter().filter(|f| f.0.to_ascii_lowercase() == l).count();
            if given > 0 && sent != given {
                return Err(format!("{} headers {:?} were given, the server gets {}", given, n, sent));
            }
        }
        Ok(())
    }
}

fn want_count(fields: &[(String, String)], h: &(String, String)) -> usize {
    fields.iter().filter(|f| f.0.to_ascii_lowercase() == h.0 && f.1 == h.1).count()
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
enum Eat {
    Nothing,
    Part(usize),
    PartOfContent(usize),
    All,
    Ensure,
    /// Takes the body out of the response and keeps it.
    TakeBody(usize),
    /// Takes it out and drops it.
    TakeDrop,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum COp {
    Run { addr: usize, ask: Ask, reply: Reply, eat: Eat, hold: bool },
    /// Consumes more of a held response, then drops it or not.
    More { which: usize, n: usize, drop: bool },
    DropHeld(usize),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct CHist {
    addrs: usize,
    ops: Vec<COp>,
}

struct HeldResp {
    id: usize,
    resp: Option<ClientResponse>,
    body: Option<Body>,
    got: Vec<u8>,
    want: Vec<u8>,
    cut: bool,
    conn: usize,
    addr: usize,
    reuse: Reuse,
}

fn eat_some(r: &mut dyn Read, n: usize, h: &mut Vec<u8>, want: &[u8], cut: bool, what: usize) -> R {
    let mut buf = vec![0; n.min(want.len() - h.len().min(want.len()))];
    let mut at = 0;
    while at < buf.len() {
        match r.read(&mut buf[at..]) {
            Ok(0) => break,
            Ok(k) => at += k,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
            Err(_) if cut => break,
            Err(e) => hard!("reading the response to request {} fails: {}", what, e),
        }
    }
    ensure!(cut || at == buf.len(), "the response to request {} ends after {} bytes", what, h.len() + at);
    h.extend_from_slice(&buf[..at]);
    ensure!(want.starts_with(h), "the response to request {} is not the one the server sent: {:?}", what, refhttp::show(h));
    Ok(())
}

fn timed<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    let t = Instant::now();
    let v = f();
    if t.elapsed() > LONG {
        soft!("{} takes {:?}", what, t.elapsed());
    }
    Ok(v)
}

struct StopBook(Arc<Book>);
impl Drop for StopBook {
    fn drop(&mut self) {
        self.0.stop.store(true, Ordering::SeqCst);
    }
}

fn client_history(ctx: &Ctx, c: &CHist, o: &mut Obs) -> R {
    let book = Arc::new(Book::default());
    let _stop = StopBook(book.clone());
    let mut addrs = Vec::new();
    for _ in 0..c.addrs {
        let l = TcpListener::bind((ctx.ip().as_str(), 0)).map_err(|e| Fail::Skip(e.to_string()))?;
        addrs.push(l.local_addr().unwrap());
        let b = book.clone();
        std::thread::spawn(move || serve(b, l));
    }
    let client = Client::new();
    // Per address: the connection that waits to be used again, and whether it must.
    let mut idle: Vec<Option<(usize, Reuse)>> = vec![None; c.addrs];
    let mut held: Vec<HeldResp> = Vec::new();
    let mut known = 0usize;
    let (mut reused, mut closes, mut both) = (0, 0, 0);
    let began = Instant::now();
    let give_up = |h: HeldResp, idle: &mut Vec<Option<(usize, Reuse)>>| -> R {
        let (a, conn, reuse, id) = (h.addr, h.conn, h.reuse, h.id);
        timed(&format!("dropping the response to request {}", id), move || drop(h))?;
        match reuse {
            Reuse::Never => (),
            Reuse::Always => idle[a] = Some((conn, Reuse::Always)),
            Reuse::Maybe => {
                idle[a] = match idle[a] {
                    // Either of two may be there now.
                    Some(_) => Some((usize::MAX, Reuse::Maybe)),
                    None => Some((conn, Reuse::Maybe)),
                }
            }
        }
        Ok(())
    };
    for (id, op) in c.ops.iter().enumerate() {
        if began.elapsed() > Duration::from_secs(20) {
            skip!("too slow for the idle timeout");
        }
        match op {
            COp::Run { addr, ask, reply, eat, hold } => {
                let a = addr % c.addrs;
                let path = format!("/r{}", id);
                let (req, fields) = ask.request(id, &path);
                book.replies.lock().unwrap().insert(id, reply.clone());
                let conns_before = book.conns.load(Ordering::SeqCst);
                let resp = timed(&format!("request {}", id), || no_panic(|| client.run(&addrs[a].to_string(), req)))?;
                let resp = resp.map_err(|p| Fail::Hard(format!("request {} panics: {}", id, p)))?;
                book.ok()?;
                let head = METHODS[ask.method] == "HEAD";
                let supported = reply.framing != Framing::Chunked;
                let taken = book.taken.lock().unwrap().get(&id).cloned().unwrap_or_default();
                let resp = match resp {
                    Ok(r) => r,
                    Err(e) => {
                        // A content whose coding the client does not know.
                        ensure!(!supported, "request {} (connection {:?}, waiting: {:?}) fails: {}", id, taken.first().map(|t| t.conn), idle[a], e);
                        o.class("refused a coding it does not know");
                        // It may have used the idle connection.
                        if let Some(t) = taken.first() {
                            if t.conn < conns_before {
                                idle[a] = None;
                            }
                        }
                        continue;
                    }
                };
                ensure!(taken.len() == 1, "request {} was given once and received {} times", id, taken.len());
                let t = &taken[0];
                ensure!(t.port == addrs[a].port(), "request {} went to another address", id);
                ask.same(&fields, &path, &t.msg).map_err(|e| Fail::Hard(format!("request {}: {}", id, e)))?;
                // Which connection?
                for h in &held {
                    ensure!(h.conn != t.conn, "request {} is sent on the connection of request {}, whose response is still held", id, h.id);
                }
                match idle[a] {
                    Some((n, _)) if n == t.conn => {
                        reused += 1;
                        idle[a] = None;
                    }
                    Some((n, Reuse::Always)) if ask.persistent() => {
                        hard!("request {} does not use the idle connection {} of its address but {}", id, n, t.conn)
                    }
                    Some((_, Reuse::Maybe)) if t.conn < known => idle[a] = None,
                    // A request that asks to close may use a new one.
                    _ => ensure!(t.conn >= known, "request {} is sent on connection {}, that was not free", id, t.conn),
                }
                known = known.max(t.conn + 1);
                // The response.
                let status = match reply.framing {
                    Framing::NoContent204 => 204,
                    Framing::NotModified304(_) => 304,
                    _ => reply.status,
                };
                ensure!(resp.status == wruster::http::StatusCode::from(status as usize), "request {} is answered {:?} instead of {}", id, resp.status, status);
                let x = resp.headers.get("X-Id").cloned().unwrap_or_default();
                ensure!(x == vec![id.to_string()], "the response to request {} has X-Id {:?}", id, x);
                let bodiless = head || matches!(reply.framing, Framing::Empty | Framing::NoContent204 | Framing::NotModified304(_));
                let has_length = matches!(reply.framing, Framing::Length | Framing::Cut(_)) && !bodiless;
                let want = if has_length { reply.data(id) } else { vec![] };
                let cut = matches!(reply.framing, Framing::Cut(_));
                if has_length {
                    ensure!(resp.body.is_some(), "the response to request {} has no body, {} bytes were sent", id, want.len());
                    ensure!(resp.body.as_ref().unwrap().content_length == want.len() as u64, "wrong content_length for request {}", id);
                } else if bodiless {
                    let b = resp.body.as_ref().map_or(0, |b| b.content_length);
                    ensure!(b == 0, "the response to request {} ({}, {}) has a body of {} bytes", id, METHODS[ask.method], status, b);
                }
                let mut reuse = if ask.persistent() { reply.reusable(ask.method) } else { Reuse::Never };
                if reuse == Reuse::Never {
                    closes += 1;
                }
                let mut h = HeldResp { id, resp: Some(resp), body: None, got: vec![], want, cut, conn: t.conn, addr: a, reuse };
                if has_length {
                    let body = h.resp.as_mut().unwrap().body.as_mut().unwrap();
                    match eat {
                        Eat::Nothing => (),
                        Eat::Part(n) => eat_some(body, *n, &mut h.got, &h.want, cut, id)?,
                        Eat::PartOfContent(n) => eat_some(&mut body.content, *n, &mut h.got, &h.want, cut, id)?,
                        Eat::All => {
                            let mut v = Vec::new();
                            let r = body.read_to_end(&mut v);
                            ensure!(r.is_ok() || cut, "reading the response to request {} fails: {:?}", id, r);
                            ensure!(if cut { h.want.starts_with(&v) } else { h.want == v }, "the response to request {} has {} bytes, {} were sent; or they differ", id, v.len(), h.want.len());
                            h.got = v;
                        }
                        Eat::Ensure => {
                            let r = body.ensure_read();
                            ensure!(r.is_ok() || cut, "ensure_read of the response to request {} fails: {:?}", id, r.err());
                        }
                        Eat::TakeBody(n) => {
                            let mut b = h.resp.as_mut().unwrap().body.take().unwrap();
                            eat_some(&mut b, *n, &mut h.got, &h.want, cut, id)?;
                            h.body = Some(b);
                            if reuse == Reuse::Always {
                                reuse = Reuse::Maybe;
                                h.reuse = reuse;
                            }
                        }
                        Eat::TakeDrop => {
                            h.resp.as_mut().unwrap().body.take();
                            if reuse == Reuse::Always {
                                h.reuse = Reuse::Maybe;
                            }
                        }
                    }
                }
                if let Some(mut b) = h.body.take() {
                    // The body is outstanding, the response need not be.
                    let keep = h.resp.take();
                    if *hold {
                        h.resp = keep;
                    } else {
                        timed("dropping a response without its body", move || drop(keep))?;
                    }
                    if h.got.len() < h.want.len() && h.got.len() % 2 == 0 {
                        h.body = Some(b);
                        held.push(h);
                        continue;
                    }
                    let left = h.want.len() - h.got.len();
                    eat_some(&mut b, left, &mut h.got, &h.want, cut, id)?;
                    if h.resp.is_none() {
                        give_up(h, &mut idle)?;
                        continue;
                    }
                }
                if *hold {
                    both += held.iter().any(|x| x.addr == a) as usize;
                    held.push(h);
                } else {
                    give_up(h, &mut idle)?;
                }
            }
            COp::More { which, n, drop } => {
                if held.is_empty() {
                    continue;
                }
                let i = which % held.len();
                let h = &mut held[i];
                if h.got.len() < h.want.len() && h.reuse != Reuse::Never {
                    let (id, cut) = (h.id, h.cut);
                    let HeldResp { resp, body, got, want, .. } = h;
                    if let Some(b) = body.as_mut().or_else(|| resp.as_mut().and_then(|r| r.body.as_mut())) {
                        if got.is_empty() {
                            // Ensure may have read it all already.
                            let mut one = [0u8; 1];
                            if b.read(&mut one).unwrap_or(0) == 1 {
                                ensure!(one[0] == want[0], "the response to request {} starts with {}", id, one[0]);
                                got.push(one[0]);
                                eat_some(b, *n, got, want, cut, id)?;
                            }
                        } else {
                            eat_some(b, *n, got, want, cut, id)?;
                        }
                    }
                }
                if *drop {
                    let h = held.remove(i);
                    give_up(h, &mut idle)?;
                }
            }
            COp::DropHeld(which) => {
                if !held.is_empty() {
                    let h = held.remove(which % held.len());
                    give_up(h, &mut idle)?;
                }
            }
        }
        book.ok()?;
        o.sub += 1;
    }
    while let Some(h) = held.pop() {
        give_up(h, &mut idle)?;
    }
    timed("dropping the client", move || drop(client))?;
    book.ok()?;
    o.class_if(reused > 0, "a connection was used again");
    o.class_if(closes > 0, "a connection was not to be used again");
    o.class_if(both > 0, "two responses of one address held");
    o.nontrivial(reused > 0 && closes > 0);
    Ok(())
}

fn ask(max: usize) -> impl Strategy<Value = Ask> {
    let conn = prop_oneof![
        8 => Just(None),
        1 => (select(vec!["keep-alive", "Keep-Alive"]).prop_map(|s| s.to_string()), any::<u64>()).prop_map(Some),
        1 => (select(vec!["close", "Close", "CLOSE"]).prop_map(|s| s.to_string()), any::<u64>()).prop_map(Some),
        1 => conn_list().prop_map(Some),
    ];
    (
        prop_oneof![3 => Just(0usize), 3 => Just(2usize), 1 => 0usize..9],
        proptest::bool::weighted(0.08),
        conn,
        hdrs(2),
        proptest::option::weighted(0.5, blob(max)),
        any::<bool>(),
    )
        .prop_map(|(method, v10, conn, headers, body, from_body)| Ask { method, v10, conn, headers, body, from_body })
}

fn reply(max: usize) -> impl Strategy<Value = Reply> {
    let framing = prop_oneof![
        14 => Just(Framing::Length),
        3 => Just(Framing::Empty),
        1 => any::<u16>().prop_map(Framing::Cut),
        1 => Just(Framing::Chunked),
        1 => Just(Framing::UntilClose),
        1 => Just(Framing::NoContent204),
        1 => any::<bool>().prop_map(Framing::NotModified304),
    ];
    let conn = prop_oneof![
        12 => Just(None),
        2 => (select(vec!["keep-alive", "Keep-Alive"]).prop_map(|s| s.to_string()), any::<u64>()).prop_map(Some),
        2 => (select(vec!["close", "Close", "CLOSE"]).prop_map(|s| s.to_string()), any::<u64>()).prop_map(Some),
        2 => conn_list().prop_map(Some),
    ];
    (
        select(vec![200u16, 200, 201, 400, 404, 500, 503]),
        framing,
        blob(max),
        proptest::bool::weighted(0.1),
        conn,
        any::<u64>(),
        hdrs(2),
        (prop_oneof![3 => Just(vec![]), 2 => proptest::collection::vec(prop_oneof![1u16..20, 1u16..3000, Just(8192)], 1..5)], select(vec![0u16, 0, 50, 1000]), select(vec![0u32, 300, 1000, 5000, 30_000])),
    )
        .prop_map(|(status, framing, content, v10, conn, clen_spell, headers, (pieces, gap_us, linger_us))| Reply {
            status, framing, content, v10, conn, clen_spell, headers, pieces, gap_us, linger_us,
        })
}

fn eat(max: usize) -> impl Strategy<Value = Eat> {
    prop_oneof![
        4 => Just(Eat::Nothing), 2 => size(max).prop_map(Eat::Part), 2 => size(max).prop_map(Eat::PartOfContent), 4 => Just(Eat::All),
        1 => Just(Eat::Ensure), 1 => size(400).prop_map(Eat::TakeBody), 1 => Just(Eat::TakeDrop),
    ]
}

fn cops(max_body: usize, max_content: usize) -> impl Strategy<Value = COp> {
    prop_oneof![
        8 => (0usize..4, ask(max_body), reply(max_content), eat(max_content), proptest::bool::weighted(0.25))
            .prop_map(|(addr, ask, reply, eat, hold)| COp::Run { addr, ask, reply, eat, hold }),
        1 => (any::<usize>(), size(5000), any::<bool>()).prop_map(|(which, n, drop)| COp::More { which, n, drop }),
        1 => any::<usize>().prop_map(COp::DropHeld),
    ]
}

// --------------------------------------------------------- several threads

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Together {
    addrs: usize,
    threads: Vec<Vec<(usize, Ask, Reply, Eat)>>,
}

fn together(ctx: &Ctx, c: &Together, o: &mut Obs) -> R {
    let book = Arc::new(Book::default());
    let _stop = StopBook(book.clone());
    let mut addrs = Vec::new();
    for _ in 0..c.addrs {
        let l = TcpListener::bind((ctx.ip().as_str(), 0)).map_err(|e| Fail::Skip(e.to_string()))?;
        addrs.push(l.local_addr().unwrap());
        let b = book.clone();
        std::thread::spawn(move || serve(b, l));
    }
    let client = Client::new();
    let began = Instant::now();
    let results: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = c
            .threads
            .iter()
            .enumerate()
            .map(|(t, reqs)| {
                let (client, book, addrs) = (&client, &book, &addrs);
                s.spawn(move || -> R {
                    for (k, (a, ask, reply, eat)) in reqs.iter().enumerate() {
                        let id = t * 1000 + k;
                        let path = format!("/t{}/{}", t, k);
                        let (req, fields) = ask.request(id, &path);
                        book.replies.lock().unwrap().insert(id, reply.clone());
                        let r = no_panic(|| client.run(&addrs[a % addrs.len()].to_string(), req));
                        let mut resp = match r {
                            Err(p) => hard!("request {} panics: {}", id, p),
                            Ok(Err(_)) if reply.framing == Framing::Chunked => continue,
                            Ok(Err(e)) => hard!("request {} fails: {}", id, e),
                            Ok(Ok(r)) => r,
                        };
                        let taken = book.taken.lock().unwrap().get(&id).cloned().unwrap_or_default();
                        ensure!(taken.len() == 1, "request {} was given once and received {} times", id, taken.len());
                        ask.same(&fields, &path, &taken[0].msg).map_err(|e| Fail::Hard(format!("request {}: {}", id, e)))?;
                        let x = resp.headers.get("X-Id").cloned().unwrap_or_default();
                        ensure!(x == vec![id.to_string()], "the response to request {} has X-Id {:?}", id, x);
                        if reply.framing == Framing::Length && METHODS[ask.method] != "HEAD" {
                            let want = reply.data(id);
                            let b = match resp.body.as_mut() {
                                Some(b) => b,
                                None => hard!("the response to request {} has no body", id),
                            };
                            let mut got = Vec::new();
                            match eat {
                                Eat::All => eat_some(b, usize::MAX, &mut got, &want, false, id)?,
                                Eat::Part(n) | Eat::TakeBody(n) => eat_some(b, *n, &mut got, &want, false, id)?,
                                Eat::PartOfContent(n) => eat_some(&mut b.content, *n, &mut got, &want, false, id)?,
                                _ => (),
                            }
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::Hard("a thread panics".into())))).collect()
    });
    if began.elapsed() > Duration::from_secs(20) {
        skip!("too slow for the idle timeout");
    }
    book.ok()?;
    for r in results {
        r?;
    }
    let n: usize = c.threads.iter().map(|t| t.len()).sum();
    o.sub += n as u64;
    let conns = book.conns.load(Ordering::SeqCst);
    o.class_if(conns < n, "connections were used again");
    o.nontrivial(conns < n && c.threads.len() > 1);
    Ok(())
}

// ------------------------------------------------- against wruster's server

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Own {
    reqs: Vec<(Rq, Eat)>,
}

fn own(ctx: &Ctx, c: &Own, o: &mut Obs) -> R {
    let plan = Plan::new(vec![c.reqs.iter().map(|r| r.0.clone()).collect()]);
    let srv = Srv::start(ctx, default_timeouts(), plan.routes(), None)?;
    let client = Client::new();
    for (k, (rq, eat)) in c.reqs.iter().enumerate() {
        let mut headers = Headers::new();
        for h in rq.fields() {
            headers.add(Header { name: h.name, value: h.value });
        }
        let body = rq.body.as_ref().filter(|b| b.len > 0).map(|b| Body::new(None, b.len as u64, Box::new(Cursor::new(b.bytes()))));
        let q = Request { body, method: method_of(rq.method), uri: Rq::path(0, k), version: if rq.v10 { "HTTP/1.0".into() } else { "HTTP/1.1".into() }, headers };
        let r = timed(&format!("request {}", k), || no_panic(|| client.run(&srv.addr, q)))?;
        let mut resp = match r {
            Err(p) => hard!("request {} panics: {}", k, p),
            Ok(Err(e)) => hard!("request {} fails: {}", k, e),
            Ok(Ok(r)) => r,
        };
        ensure!(plan.handled(0, k)? == 1, "request {} was handled {} times", k, plan.handled(0, k)?);
        let (status, want) = rq.response(0, k);
        ensure!(resp.status == wruster::http::StatusCode::from(status as usize), "request {} is answered {:?} instead of {}", k, resp.status, status);
        if METHODS[rq.method] != "HEAD" && !want.is_empty() {
            let b = match resp.body.as_mut() {
                Some(b) => b,
                None => hard!("the response to request {} has no body, {} bytes were sent", k, want.len()),
            };
            let mut got = Vec::new();
            match eat {
                Eat::All => {
                    b.read_to_end(&mut got).map_err(|e| Fail::Hard(format!("reading response {} fails: {}", k, e)))?;
                    ensure!(got == want, "response {} has {} bytes, {} were sent; or they differ", k, got.len(), want.len());
                }
                Eat::Part(n) | Eat::TakeBody(n) => eat_some(b, *n, &mut got, &want, false, k)?,
                Eat::PartOfContent(n) => eat_some(&mut b.content, *n, &mut got, &want, false, k)?,
                _ => (),
            }
        }
        timed(&format!("dropping response {}", k), move || drop(resp))?;
        o.sub += 1;
    }
    drop(client);
    plan.no_strays()?;
    srv.stop(LONG)?;
    o.nontrivial(c.reqs.len() > 1);
    Ok(())
}

// --------------------------------------------- many addresses (C18's suite)

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Many {
    addrs: usize,
    /// (address, how many in a row)
    visits: Vec<(usize, usize)>,
}

fn many(c: &Many, o: &mut Obs) -> R {
    let book = Arc::new(Book::default());
    let _stop = StopBook(book.clone());
    let l = TcpListener::bind(("0.0.0.0", 0)).map_err(|e| Fail::Skip(e.to_string()))?;
    let port = l.local_addr().unwrap().port();
    let b = book.clone();
    std::thread::spawn(move || serve(b, l));
    let client = Client::new();
    // Address -> (connection, when it was used).
    let mut model: HashMap<usize, (usize, usize)> = HashMap::new();
    let mut id = 0;
    let began = Instant::now();
    let (mut evicted, mut reused) = (0, 0);
    for (a, n) in &c.visits {
        for i in 0..*n {
            let k = (a + i) % c.addrs;
            let addr = format!("127.{}.{}.{}:{}", 201 + k % 7, k / 200, 1 + k % 200, port);
            let ask = Ask { method: 0, v10: false, conn: None, headers: vec![], body: None, from_body: false };
            let reply = Reply {
                status: 200, framing: Framing::Length, content: Blob { len: id % 5, seed: 1 }, v10: false, conn: None, clen_spell: 0,
                headers: vec![], pieces: vec![], gap_us: 0, linger_us: 0,
            };
            book.replies.lock().unwrap().insert(id, reply);
            let (req, _) = ask.request(id, "/");
            let before = book.conns.load(Ordering::SeqCst);
            let resp = match client.run(&addr, req) {
                Ok(r) => r,
                Err(e) => hard!("request {} to {} fails: {}", id, addr, e),
            };
            if began.elapsed() > Duration::from_secs(20) {
                skip!("too slow for the idle timeout");
            }
            let t = book.taken.lock().unwrap().get(&id).cloned().unwrap_or_default();
            ensure!(t.len() == 1, "request {} was received {} times", id, t.len());
            match model.remove(&k) {
                Some((conn, _)) => {
                    ensure!(t[0].conn == conn, "request {} to {} uses connection {} instead of the idle {}; {} addresses were used since", id, addr, t[0].conn, conn, model.len());
                    reused += 1;
                }
                None => ensure!(t[0].conn >= before, "request {} to {} uses the connection {} of another", id, addr, t[0].conn),
            }
            drop(resp);
            if model.len() >= 100 {
                let oldest = *model.iter().min_by_key(|v| v.1 .1).unwrap().0;
                model.remove(&oldest);
                evicted += 1;
            }
            model.insert(k, (t[0].conn, id));
            id += 1;
            o.sub += 1;
        }
    }
    book.ok()?;
    // Connections that were given up are closed.
    let want = model.len();
    if !wait_until(Duration::from_secs(6), || book.open.load(Ordering::SeqCst) == want) {
        soft!("{} connections are open, {} are kept idle", book.open.load(Ordering::SeqCst), want);
    }
    drop(client);
    if !wait_until(Duration::from_secs(6), || book.open.load(Ordering::SeqCst) == 0) {
        soft!("{} connections are open after the client was dropped", book.open.load(Ordering::SeqCst));
    }
    o.class_if(evicted > 0, "evictions from a full pool");
    o.nontrivial(evicted > 0 && reused > 0);
    Ok(())
}

pub fn many_suite() -> Suite {
    suite(
        Opts {
            name: "client",
            rule: "an idle connection is used again and another is evicted",
            quick: 1600,
            thorough: 40_000,
            shards: 8,
            shrink: 60,
            pure: false,
        },
        |_| {
            (prop_oneof![1 => 1usize..10, 4 => 95usize..120, 1 => 120usize..160], proptest::collection::vec((0usize..160, prop_oneof![1usize..6, 40usize..110]), 1..8), any::<bool>())
                .prop_map(|(addrs, mut visits, fill)| {
                    if fill {
                        visits.insert(0, (0, addrs));
                    }
                    Many { addrs, visits }
                })
                .boxed()
        },
        |_, c: &Many, o| many(c, o),
    )
}

pub fn c17() -> Property {
    let hist = suite(
        Opts {
            name: "histories",
            rule: "a connection is used again and another must not be",
            quick: 16_000,
            thorough: 600_000,
            shards: 8,
            shrink: 300,
            pure: false,
        },
        |_| (1usize..4, proptest::collection::vec(cops(70_000, 300_000), 1..14)).prop_map(|(addrs, ops)| CHist { addrs, ops }).boxed(),
        |ctx, c: &CHist, o| client_history(ctx, c, o),
    );
    let threads = suite(
        Opts {
            name: "threads",
            rule: "several threads share the client and connections are used again",
            quick: 4000,
            thorough: 160_000,
            shards: 8,
            shrink: 60,
            pure: false,
        },
        |_| {
            let one = (0usize..3, ask(3000), reply(20_000), eat(3000)).prop_map(|(a, ask, mut reply, eat)| {
                if matches!(reply.framing, Framing::Cut(_)) {
                    reply.framing = Framing::Length;
                }
                (a, ask, reply, eat)
            });
            (1usize..4, proptest::collection::vec(proptest::collection::vec(one, 1..12), 2..7)).prop_map(|(addrs, threads)| Together { addrs, threads }).boxed()
        },
        |ctx, c: &Together, o| together(ctx, c, o),
    );
    let own_suite = suite(
        Opts {
            name: "wruster-server",
            rule: "at least two requests",
            quick: 640,
            thorough: 20_000,
            shards: 8,
            shrink: 100,
            pure: false,
        },
        |_| {
            proptest::collection::vec((rq(100_000, 200_000), eat(200_000)), 1..8)
                .prop_map(|mut reqs| {
                    for (r, _) in reqs.iter_mut() {
                        // One spelling of a name per request: the order of others is not kept.
                        let mut names = std::collections::HashSet::new();
                        r.headers.retain(|h| names.insert(h.name.to_ascii_lowercase()));
                        // The client sends a length with every request.
                        if r.body.is_none() {
                            r.body = Some(Blob { len: 0, seed: 0 });
                        }
                    }
                    Own { reqs }
                })
                .boxed()
        },
        |ctx, c: &Own, o| own(ctx, c, o),
    );
    Property {
        id: "C17",
        suites: vec![hist, threads, own_suite],
        assumptions: &[
            "the scripted servers send no interim (1xx) responses and nothing that was not asked for",
            "whether a connection is used again after a HEAD, 204, 304 or HTTP/1.0 keep-alive response is left open",
        ],
    }
}

pub fn c18() -> Property {
    let mut suites = vec![many_suite()];
    #[cfg(wruster_verif)]
    suites.extend(crate::pool::c18());
    Property {
        id: "C18",
        suites,
        assumptions: &["the expiry worker looks at the resources every 15 s; 6 s more are granted"],
    }
}
