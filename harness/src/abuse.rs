//! C11, C20: what bad connections, panics and failing system calls leave behind.
use crate::conn::*;
use crate::fw::*;
use crate::gen::*;
use crate::io_mocks::Blob;
use crate::room::*;
use crate::srv::*;
use crate::{ensure, soft};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::io::Read;
use std::net::Shutdown;
use std::time::{Duration, Instant};
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, Request, Response, StatusCode};

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
pub enum Then {
    Close,
    HalfClose,
    Reset,
    /// Stays connected, sending nothing more, until the end of the history.
    Stay,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
pub enum Where {
    AtOnce,
    AfterBody,
    /// While the response is written.
    InContent,
    /// When the content of the response is dropped.
    InDrop,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Bad {
    Bytes { raw: bool, data: Vec<u8>, then: Then },
    /// A share of a request that has a body.
    Cut { share: u8, body: u16, then: Then },
    /// A share of what the client of a TLS connection sends first.
    Handshake { share: u8, flip: bool, then: Then },
    /// Asks for a large response and takes this share of it.
    TakesPart { size: u32, share: u8, then: Then },
    Panics { at: Where, body: u16, payload: u8, after: u8 },
    /// A content that fails to be read.
    FailingContent { after: u16 },
    Good { requests: u8, then: Then },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Act {
    One(Bad),
    /// Several at once.
    Many(Bad, u8),
    Signal { times: u8 },
    /// The process has only so many descriptors left for some ms while so many clients connect.
    NoDescriptors { left: u8, clients: u8, ms: u8 },
    Probe,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct History {
    pub tls: bool,
    pub read_ms: u16,
    pub acts: Vec<Act>,
    /// Shut down while the connections that stay are still there.
    pub stay_at_end: bool,
}

struct PanicContent(usize);
impl Read for PanicContent {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            panic!("the content of the check panics");
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        b[..n].fill(b'c');
        Ok(n)
    }
}
struct PanicDrop(usize);
impl Read for PanicDrop {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0);
        self.0 -= n;
        b[..n].fill(b'd');
        Ok(n)
    }
}
impl Drop for PanicDrop {
    fn drop(&mut self) {
        panic!("the content of the check panics when dropped");
    }
}
struct ErrContent(usize);
impl Read for ErrContent {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::ErrorKind::Other.into());
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        b[..n].fill(b'e');
        Ok(n)
    }
}

fn with_content(c: Box<dyn Read>, n: u64) -> Response {
    let mut headers = Headers::new();
    headers.add(Header { name: "Content-Length".into(), value: n.to_string() });
    Response { status: StatusCode::OK, headers, body: Some(Body::new(None, n, c)) }
}

fn bad_handler(q: &mut Request) -> Response {
    let p: Vec<String> = q.uri.split('/').map(|s| s.to_string()).collect();
    let arg = |i: usize| p.get(i).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
    match p.get(1).map(|s| s.as_str()) {
        Some("big") => {
            let n = arg(2);
            with_content(Box::new(std::io::Cursor::new(vec![b'b'; n])), n as u64)
        }
        Some("panic") => {
            if p[2] != "AtOnce" {
                if let Some(b) = q.body.as_mut() {
                    let _ = b.content.read_to_end(&mut Vec::new());
                }
            }
            match p[2].as_str() {
                "InContent" => return with_content(Box::new(PanicContent(arg(4))), arg(4) as u64 + 10),
                "InDrop" => return with_content(Box::new(PanicDrop(arg(4))), arg(4) as u64),
                _ => (),
            }
            match arg(3) {
                0 => panic!("a handler of the check panics"),
                1 => panic!("a handler of the check panics: {}", arg(3)),
                2 => std::panic::panic_any(arg(3)),
                _ => {
                    let v: Vec<u8> = vec![];
                    Response::from_status(StatusCode::from(v[arg(3)] as usize))
                }
            }
        }
        Some("fail") => with_content(Box::new(ErrContent(arg(2))), arg(2) as u64 + 5),
        _ => Response::from_status(StatusCode::NotFound),
    }
}

fn end(c: Conn, then: Then, stay: &mut Vec<Conn>) {
    match then {
        Then::Close => drop(c),
        Then::HalfClose => {
            c.half_close();
            stay.push(c)
        }
        Then::Reset => c.reset(),
        Then::Stay => stay.push(c),
    }
}

/// One bad connection. The way it is answered is not judged here.
fn misbehave(srv: &Srv, b: &Bad, stay: &mut Vec<Conn>) -> R {
    let soon = || Instant::now() + Duration::from_secs(2);
    let raw = || Conn::connect(&srv.addr).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)));
    match b {
        Bad::Bytes { raw: r, data, then } => {
            let mut c = if *r { raw()? } else { srv.connect()? };
            c.send(data);
            c.until(soon(), |c| !c.pending_out());
            end(c, *then, stay);
        }
        Bad::Cut { share, body, then } => {
            let mut c = srv.connect()?;
            let mut r = format!("POST /big/5 HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n\r\n", body).into_bytes();
            r.extend(Blob { len: *body as usize, seed: 1 }.bytes());
            c.send(&r[..(r.len() - 1) * (*share as usize).min(100) / 100]);
            c.until(soon(), |c| !c.pending_out());
            end(c, *then, stay);
        }
        Bad::Handshake { share, flip, then } => {
            let mut c = raw()?;
            let mut hello = Vec::new();
            let _ = tls_client(None, false).write_tls(&mut hello);
            let n = hello.len() * (*share as usize).min(100) / 100;
            if *flip && n > 0 {
                hello[n / 2] ^= 0x55;
            }
            c.send(&hello[..n]);
            c.until(soon(), |c| !c.pending_out());
            end(c, *then, stay);
        }
        Bad::TakesPart { size, share, then } => {
            let mut c = srv.connect()?;
            c.send(format!("GET /big/{} HTTP/1.1\r\n\r\n", size).as_bytes());
            let n = *size as u64 * (*share as u64).min(99) / 100;
            c.pace.read_size = 4096;
            c.until(soon(), |c| !c.pending_out() && c.got_bytes >= n.max(1));
            end(c, *then, stay);
        }
        Bad::Panics { at, body, payload, after } => {
            let mut c = srv.connect()?;
            for k in 0..*after {
                let m = c.ask(&get("ok", 500 + k as u64), LONG)?;
                if m.status() == Some(503) {
                    return Ok(());
                }
            }
            c.msgs.clear();
            let mut r = format!("POST /panic/{:?}/{}/{} HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n\r\n", at, payload % 4, body, body).into_bytes();
            r.extend(Blob { len: *body as usize, seed: 1 }.bytes());
            c.send(&r);
            // Whatever it gets, its connection ends.
            c.until(long(), |_| false);
            if c.st == St::Open {
                soft!("the connection of a handler that panicked is not closed: {}", c.describe());
            }
        }
        Bad::FailingContent { after } => {
            let mut c = srv.connect()?;
            c.send(format!("GET /fail/{} HTTP/1.1\r\n\r\n", after).as_bytes());
            c.until(long(), |_| false);
            if c.st == St::Open {
                soft!("the connection of a response whose content can not be read is not closed: {}", c.describe());
            }
        }
        Bad::Good { requests, then } => {
            let mut c = srv.connect()?;
            for k in 0..*requests {
                let m = c.ask(&get("ok", 700 + k as u64), LONG)?;
                if m.status() == Some(503) {
                    return Ok(());
                }
            }
            end(c, *then, stay);
        }
    }
    Ok(())
}

extern "C" fn ignore(_: libc::c_int) {}

/// Interrupts what the threads of this process wait for.
fn interrupt_all() {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = ignore as *const () as usize;
        a.sa_flags = libc::SA_RESTART;
        libc::sigaction(libc::SIGUSR2, &a, std::ptr::null_mut());
        let pid = libc::getpid();
        if let Ok(d) = std::fs::read_dir("/proc/self/task") {
            for t in d.flatten() {
                if let Some(tid) = t.file_name().to_str().and_then(|s| s.parse::<i32>().ok()) {
                    if tid != pid {
                        libc::syscall(libc::SYS_tgkill, pid, tid, libc::SIGUSR2);
                    }
                }
            }
        }
    }
}

fn open_fds() -> Vec<i32> {
    let mut v: Vec<i32> = match std::fs::read_dir("/proc/self/fd") {
        Ok(d) => d.flatten().filter_map(|e| e.file_name().to_str().and_then(|s| s.parse().ok())).collect(),
        Err(_) => vec![],
    };
    // Without the one of the directory itself.
    v.retain(|fd| unsafe { libc::fcntl(*fd, libc::F_GETFD) } != -1);
    v.sort();
    v
}

/// How many descriptors are open. When creating a poller fails for lack of
/// descriptors, the polling crate itself loses the epoll instance it made;
/// those are then not counted.
fn count_fds(no_pollers: bool) -> usize {
    open_fds()
        .into_iter()
        .filter(|fd| !no_pollers || std::fs::read_link(format!("/proc/self/fd/{}", fd)).map_or(true, |p| p.to_str() != Some("anon_inode:[eventpoll]")))
        .count()
}

pub struct Limit(libc::rlimit);
impl Limit {
    /// Leaves this process only `left` descriptors.
    pub fn descriptors(left: usize) -> Limit {
        unsafe {
            let mut old: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut old);
            let open: std::collections::HashSet<i32> = open_fds().into_iter().collect();
            let at = (0..).filter(|n| !open.contains(n)).nth(left).unwrap();
            let new = libc::rlimit { rlim_cur: at as u64, rlim_max: old.rlim_max };
            libc::setrlimit(libc::RLIMIT_NOFILE, &new);
            Limit(old)
        }
    }
}
impl Drop for Limit {
    fn drop(&mut self) {
        unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &self.0) };
    }
}

fn no_descriptors(srv: &Srv, left: usize, clients: usize, ms: u64, what: &str) -> R {
    let mut socks = Vec::new();
    for _ in 0..clients {
        socks.push(Conn::socket().map_err(|e| Fail::Skip(format!("no socket: {}", e)))?);
    }
    let limit = Limit::descriptors(left);
    let mut conns = Vec::new();
    for s in socks {
        match Conn::connect_sock(s, &srv.addr) {
            Ok(c) => conns.push(c),
            Err(e) => soft!("{}: cannot connect: {}", what, e),
        }
    }
    std::thread::sleep(Duration::from_millis(ms));
    drop(limit);
    // Each is served or closed.
    let mut conns: Vec<Conn> = conns.into_iter().map(|c| if srv.tls.is_some() { c.with_tls(tls_client(None, false)) } else { c }).collect();
    for c in conns.iter_mut() {
        c.send(&get("ok", 900));
    }
    if !drive(&mut conns, long(), |_, c| !c.msgs.is_empty() || c.st != St::Open) {
        let c = conns.iter().find(|c| c.msgs.is_empty() && c.st == St::Open).unwrap();
        soft!("{}: a connection made while the server had no descriptors is neither served nor closed: {}", what, c.describe());
    }
    for c in &conns {
        if let Some(m) = c.msgs.first() {
            ensure!(m.status() == Some(503) || m.body == b"ok 900", "{}: a connection made while the server had no descriptors is answered {:?}", what, m.start);
        }
    }
    Ok(())
}

pub fn history(ctx: &Ctx, h: &History, check_fds: bool, o: &mut Obs) -> R {
    let np = h.acts.iter().any(|a| matches!(a, Act::NoDescriptors { .. }));
    let level0 = (count_fds(np), threads());
    let room = Room::new();
    let read = Duration::from_millis(h.read_ms as u64);
    let srv = Srv::start(ctx, timeouts(read, Duration::from_secs(4)), room.routes(bad_handler), h.tls.then_some(false))?;
    let r = run(h, &room, srv, check_fds, level0, o);
    room.let_all_go();
    r
}

fn run(h: &History, room: &Room, srv: Srv, check_fds: bool, level0: (usize, usize), o: &mut Obs) -> R {
    let np = h.acts.iter().any(|a| matches!(a, Act::NoDescriptors { .. }));
    probe(&srv, 1, "before anything")?;
    // The server's own descriptors; the probe's are gone in a moment.
    let mut level = usize::MAX;
    if check_fds {
        let mut last = Instant::now();
        wait_until(LONG, || {
            let n = count_fds(np);
            if n < level {
                level = n;
                last = Instant::now();
            }
            last.elapsed() > Duration::from_millis(30)
        });
    }
    // A connection that is used all along.
    let mut kept = if h.read_ms > 5000 {
        let mut c = srv.connect()?;
        c.ask(&get("ok", 2), LONG)?;
        Some(c)
    } else {
        None
    };
    let mut stay: Vec<Conn> = Vec::new();
    let mut bad = 0;
    for (n, act) in h.acts.iter().enumerate() {
        let what = format!("after act {} ({})", n, format!("{:?}", act).chars().take(200).collect::<String>());
        match act {
            Act::One(b) => {
                misbehave(&srv, b, &mut stay)?;
                bad += 1;
                o.class(format!("{:?}", b).split(' ').next().unwrap().to_string());
            }
            Act::Many(b, k) => {
                let stays: Vec<Result<Vec<Conn>, Fail>> = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..*k)
                        .map(|_| {
                            s.spawn(|| {
                                let mut v = Vec::new();
                                misbehave(&srv, b, &mut v).map(|_| v)
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::Hard("a client panics".into())))).collect()
                });
                for s in stays {
                    stay.extend(s?);
                }
                bad += *k as usize;
                o.class(format!("many {:?}", b).split(' ').take(2).collect::<Vec<_>>().join(" "));
            }
            Act::Signal { times } => {
                for _ in 0..*times {
                    interrupt_all();
                    std::thread::sleep(Duration::from_micros(300));
                }
                o.class("interrupted");
            }
            Act::NoDescriptors { left, clients, ms } => {
                no_descriptors(&srv, *left as usize, *clients as usize, *ms as u64, &what)?;
                o.class("no descriptors");
            }
            Act::Probe => {
                // Those that stay hold places.
                if stay.len() < capacity() - 20 {
                    probe(&srv, 10 + n as u64, &what)?;
                }
            }
        }
        if let Some(c) = kept.as_mut() {
            let m = c.ask(&get("ok", 3), LONG).map_err(|e| match e {
                Fail::Hard(m) => Fail::Hard(format!("{}, on another connection: {}", what, m)),
                Fail::Soft(m) => Fail::Soft(format!("{}, on another connection: {}", what, m)),
                e => e,
            })?;
            ensure!(m.body == b"ok 3", "{}: a request on another connection is answered {:?}", what, m.start);
        }
    }
    o.sub += h.acts.len() as u64;
    o.nontrivial(bad > 0 || h.acts.iter().any(|a| !matches!(a, Act::Probe)));
    o.class_if(bad > capacity(), "more bad connections than places");
    o.class_if(h.tls, "TLS");
    if h.stay_at_end {
        // The rest as in the other case is left out: places are taken.
        if stay.len() < capacity() - 20 {
            probe(&srv, 4, "at the end")?;
        }
        srv.stop(LONG)?;
        drop(stay);
        drop(kept.take());
    } else {
        for c in &stay {
            let _ = c.sock.shutdown(Shutdown::Both);
        }
        drop(stay);
        drop(kept.take());
        probe(&srv, 5, "at the end")?;
        if check_fds {
            if !wait_until(LONG, || count_fds(np) <= level) {
                soft!("{} descriptors are open after every connection ended, {} were before: {}", count_fds(np), level, describe_fds());
            }
        }
        let cap = capacity();
        let mut held = fill(&srv, room, cap, 10_000)?;
        if check_fds {
            // Turned away.
            for k in 0..3 {
                let mut c = srv.connect()?;
                c.send(&get("ok", 950 + k));
                c.until(long(), |_| false);
            }
        }
        release(room, &mut held, 10_000)?;
        drop(held);
        if check_fds && !wait_until(LONG, || count_fds(np) <= level) {
            soft!("{} descriptors are open after every connection ended, {} were before: {}", count_fds(np), level, describe_fds());
        }
        srv.stop(LONG)?;
        o.class("filled at the end");
    }
    if check_fds {
        if !wait_until(LONG, || count_fds(np) <= level0.0) {
            soft!("{} descriptors are open after the shutdown, {} were before the server: {}", count_fds(np), level0.0, describe_fds());
        }
        if !wait_until(LONG, || threads() <= level0.1) {
            soft!("{} threads run after the shutdown, {} did before the server", threads(), level0.1);
        }
    }
    Ok(())
}

fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

fn describe_fds() -> String {
    let mut v = Vec::new();
    for fd in open_fds() {
        if let Ok(p) = std::fs::read_link(format!("/proc/self/fd/{}", fd)) {
            v.push(format!("{} {}", fd, p.display()));
        }
    }
    v.truncate(40);
    v.join(", ")
}

fn then() -> impl Strategy<Value = Then> {
    select(vec![Then::Close, Then::Close, Then::HalfClose, Then::Reset, Then::Reset, Then::Stay])
}

fn bad() -> BoxedStrategy<Bad> {
    let data = prop_oneof![
        2 => vec(any::<u8>(), 0..200),
        1 => vec(any::<u8>(), 2000..20_000),
        3 => select(vec![
            "GET / HTTP/1.1\r\nA", "\r\n", "\r\n\r\n\r\n", "GET", "GET / HTTP/9\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\n",
            "POST / HTTP/1.1\r\nContent-Length: -1\r\n\r\nx", "POST / HTTP/1.1\r\nContent-Length: 18446744073709551615\r\n\r\nx", "GET / HTTP/1.1\r\n: \r\n\r\n",
            "GET / HTTP/1.1\r\nHost\r\n\r\n", "GET // HTTP/1.1\r\n\r\n", "GET ../../.. HTTP/1.1\r\n\r\n", "GET * HTTP/1.1\r\n\r\n", "GET  HTTP/1.1\r\n\r\n", "GET /\u{e9}\u{fc} HTTP/1.1\r\n\r\n",
            "GET /a HTTP/1.1\r\nConnection:\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "\u{16}\u{3}\u{1}\u{0}\u{5}hello", "GET / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nfff\r\n", "OPTIONS * HTTP/1.1\r\n\r\n",
            "CONNECT a:1 HTTP/1.1\r\n\r\n", "GET http://a/b HTTP/1.1\r\n\r\n", "GET /? HTTP/1.1\r\n\r\n", "GET /%00 HTTP/1.1\r\n\r\n", "GET \\ HTTP/1.1\r\n\r\n", "GET . HTTP/1.1\r\n\r\n", "GET .. HTTP/1.1\r\n\r\n",
        ]).prop_map(|s| s.as_bytes().to_vec()),
        1 => (header_like(), 0usize..4000).prop_map(|(h, n)| {
            let mut v = b"GET / HTTP/1.1\r\n".to_vec();
            v.extend(h);
            v.extend(vec![b'z'; n]);
            v.extend(b"\r\n\r\n");
            v
        }),
    ];
    prop_oneof![
        4 => (proptest::bool::weighted(0.4), data, then()).prop_map(|(raw, data, then)| Bad::Bytes { raw, data, then }),
        3 => (0u8..100, select(vec![0u16, 1, 50, 8192, 40_000]), then()).prop_map(|(share, body, then)| Bad::Cut { share, body, then }),
        2 => (0u8..=100, any::<bool>(), then()).prop_map(|(share, flip, then)| Bad::Handshake { share, flip, then }),
        2 => (select(vec![10u32, 100_000, 5_000_000]), 0u8..100, prop_oneof![Just(Then::Close), Just(Then::Reset), Just(Then::HalfClose)]).prop_map(|(size, share, then)| Bad::TakesPart { size, share, then }),
        4 => (select(vec![Where::AtOnce, Where::AfterBody, Where::InContent, Where::InDrop]), select(vec![0u16, 10, 9000]), 0u8..4, 0u8..3).prop_map(|(at, body, payload, after)| Bad::Panics { at, body, payload, after }),
        1 => (select(vec![0u16, 1, 10_000])).prop_map(|after| Bad::FailingContent { after }),
        2 => (0u8..4, then()).prop_map(|(requests, then)| Bad::Good { requests, then }),
    ]
    .boxed()
}

fn header_like() -> impl Strategy<Value = Vec<u8>> {
    vec(prop_oneof![3 => select(b"aZ-:; \t\r\n\"".to_vec()), 1 => any::<u8>()], 0..40)
}

fn acts(many: u8, max: usize) -> BoxedStrategy<Vec<Act>> {
    let act = prop_oneof![
        8 => bad().prop_map(Act::One),
        3 => (bad(), 2..many).prop_map(|(b, n)| Act::Many(b, n)),
        1 => (1u8..12).prop_map(|times| Act::Signal { times }),
        1 => (0u8..8, 1u8..10, 1u8..40).prop_map(|(left, clients, ms)| Act::NoDescriptors { left, clients, ms }),
        2 => Just(Act::Probe),
    ];
    vec(act, 1..max).boxed()
}

pub fn histories(many: u8, max: usize) -> BoxedStrategy<History> {
    (proptest::bool::weighted(0.4), prop_oneof![2 => 150u16..600, 3 => Just(30_000u16)], acts(many, max), proptest::bool::weighted(0.2))
        .prop_map(|(tls, read_ms, acts, stay_at_end)| History { tls, read_ms, acts, stay_at_end })
        .boxed()
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        suites: vec![suite(
            Opts { name: "histories", rule: "at least one bad connection, interruption or lack of descriptors", quick: 1000, thorough: 12_000, shards: 8, shrink: 60, pure: false },
            |_| histories(60, 14),
            |ctx, h: &History, o| history(ctx, h, false, o),
        ), crate::threads::few_suite()],
        assumptions: &["the processes' memory does not run out", "contents and handlers of the check's own panic, but do not abort or exit"],
    }
}

pub fn c20() -> Property {
    #[allow(unused_mut)]
    let mut suites = vec![suite(
        Opts { name: "descriptors", rule: "at least one bad connection, interruption or lack of descriptors", quick: 1600, thorough: 12_000, shards: 8, shrink: 60, pure: false },
        |_| histories(60, 10),
        |ctx, h: &History, o| history(ctx, h, true, o),
    )];
    #[cfg(wruster_verif)]
    suites.push(suite(
        Opts { name: "tracking", rule: "more than one stream alive at once, more than four operations", quick: 16000, thorough: 200_000, shards: 8, shrink: 400, pure: false },
        |_| crate::tracking::strategy().boxed(),
        crate::tracking::run,
    ));
    #[cfg(wruster_verif)]
    suites.push(suite(
        Opts { name: "tracking at once", rule: "two or more threads drop streams at the same time", quick: 6000, thorough: 100_000, shards: 8, shrink: 300, pure: false },
        |_| crate::tracking::crowds().boxed(),
        crate::tracking::crowd,
    ));
    Property {
        id: "C20",
        suites,
        assumptions: &["descriptors and threads are counted for the whole process of the check, which opens none besides, and may take 12 s to be released"],
    }
}
