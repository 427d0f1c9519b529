//! Handlers that stay until they are told to go, and clients that fill a server.
use crate::conn::*;
use crate::fw::*;
use crate::soft;
use crate::srv::*;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use wruster::http::{HttpMethod, Request, Response, StatusCode};
use wruster::router::{HttpHandler, Router};

#[derive(Default)]
struct Inner {
    open: HashSet<u64>,
    open_all: bool,
    panics: HashSet<u64>,
    entered: HashMap<u64, u32>,
    running: usize,
    most: usize,
    ok: HashMap<u64, u32>,
}

#[derive(Default)]
pub struct Room {
    s: Mutex<Inner>,
    cv: Condvar,
}

struct Leave<'a>(&'a Room);
impl Drop for Leave<'_> {
    fn drop(&mut self) {
        self.0.s.lock().unwrap_or_else(|e| e.into_inner()).running -= 1;
    }
}

impl Room {
    pub fn new() -> Arc<Room> {
        Arc::new(Room::default())
    }
    pub fn let_go(&self, id: u64, panic: bool) {
        let mut s = self.s.lock().unwrap();
        if panic {
            s.panics.insert(id);
        }
        s.open.insert(id);
        self.cv.notify_all();
    }
    pub fn let_all_go(&self) {
        self.s.lock().unwrap().open_all = true;
        self.cv.notify_all();
    }
    pub fn entered(&self, id: u64) -> u32 {
        self.s.lock().unwrap().entered.get(&id).copied().unwrap_or(0)
    }
    pub fn ok(&self, id: u64) -> u32 {
        self.s.lock().unwrap().ok.get(&id).copied().unwrap_or(0)
    }
    pub fn running(&self) -> usize {
        self.s.lock().unwrap().running
    }
    pub fn most(&self) -> usize {
        self.s.lock().unwrap().most
    }
    /// /hold/<id> waits, /ok/<id> does not; all else goes to `other`.
    pub fn routes(self: &Arc<Self>, other: impl Fn(&mut Request) -> Response + Send + Sync + Clone + 'static) -> Router {
        let router = Router::new();
        for m in [HttpMethod::GET, HttpMethod::POST] {
            let (room, other) = (self.clone(), other.clone());
            let h: HttpHandler = Box::new(move |q: &mut Request| room.handle(q, &other));
            router.add("/", m, h);
        }
        router
    }
    fn handle(&self, q: &mut Request, other: &dyn Fn(&mut Request) -> Response) -> Response {
        let id = |p: &str| q.uri.strip_prefix(p).and_then(|s| s.parse::<u64>().ok());
        if let Some(id) = id("/ok/") {
            *self.s.lock().unwrap().ok.entry(id).or_default() += 1;
            return answer(&format!("ok {}", id));
        }
        if let Some(id) = id("/hold/") {
            let mut s = self.s.lock().unwrap();
            *s.entered.entry(id).or_default() += 1;
            s.running += 1;
            s.most = s.most.max(s.running);
            let leave = Leave(self);
            let end = Instant::now() + Duration::from_secs(120);
            while !s.open_all && !s.open.contains(&id) && Instant::now() < end {
                s = self.cv.wait_timeout(s, Duration::from_secs(1)).unwrap().0;
            }
            let p = s.panics.contains(&id);
            drop(s);
            drop(leave);
            if p {
                panic!("a handler of the check panics");
            }
            return answer(&format!("held {}", id));
        }
        other(q)
    }
}

pub fn answer(s: &str) -> Response {
    Response::from_content(std::io::Cursor::new(s.as_bytes().to_vec()), s.len() as u64, mime::TEXT_PLAIN)
}

pub fn not_found(_: &mut Request) -> Response {
    Response::from_status(StatusCode::NotFound)
}

/// The number of connections a server serves at once.
pub fn capacity() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(2).max(100)
}

pub fn get(path: &str, id: u64) -> Vec<u8> {
    format!("GET /{}/{} HTTP/1.1\r\nHost: h\r\n\r\n", path, id).into_bytes()
}

/// A request on a new connection, which is answered as it should.
pub fn probe(srv: &Srv, id: u64, what: &str) -> R {
    let add = |e: Fail| match e {
        Fail::Hard(m) => Fail::Hard(format!("{}: {}", what, m)),
        Fail::Soft(m) => Fail::Soft(format!("{}: {}", what, m)),
        e => e,
    };
    // While other connections come to their end the server may be full.
    let end = long();
    loop {
        let mut c = srv.connect().map_err(add)?;
        let m = c.ask(&get("ok", id), LONG).map_err(add)?;
        if m.status() == Some(503) && Instant::now() < end {
            std::thread::sleep(Duration::from_millis(10));
            continue;
        }
        if m.status() != Some(200) || m.body != format!("ok {}", id).as_bytes() {
            return Err(Fail::Hard(format!("{}: a request is answered {:?} {:?}", what, m.start, String::from_utf8_lossy(&m.body))));
        }
        return Ok(());
    }
}

/// Pumps every connection until a condition holds for all of them.
pub fn drive(conns: &mut [Conn], deadline: Instant, mut done: impl FnMut(usize, &Conn) -> bool) -> bool {
    loop {
        let mut all = true;
        for (i, c) in conns.iter_mut().enumerate() {
            if !done(i, c) {
                if c.st == St::Open {
                    c.pump(Duration::ZERO);
                }
                all &= done(i, c);
            }
        }
        if all {
            return true;
        }
        if Instant::now() > deadline {
            return false;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
}

/// Holds as many connections as the server can serve at once, all within
/// their handlers; those turned away meanwhile try again.
pub fn fill(srv: &Srv, room: &Room, n: usize, base: u64) -> Result<Vec<Conn>, Fail> {
    let mut conns = Vec::new();
    let open = |i: usize| -> Result<Conn, Fail> {
        let mut c = srv.connect()?;
        c.send(&get("hold", base + i as u64));
        Ok(c)
    };
    for i in 0..n {
        conns.push(open(i)?);
    }
    let end = long();
    loop {
        drive(&mut conns, Instant::now() + Duration::from_millis(300), |i, c| room.entered(base + i as u64) > 0 || c.st != St::Open);
        let missing: Vec<usize> = (0..n).filter(|i| room.entered(base + *i as u64) == 0).collect();
        if missing.is_empty() {
            return Ok(conns);
        }
        if Instant::now() > end {
            soft!("{} of {} connections do not get to their handlers while the others stay in theirs, e.g.: {}", missing.len(), n, conns[missing[0]].describe());
        }
        for i in missing {
            if conns[i].st != St::Open || !conns[i].msgs.is_empty() {
                std::thread::sleep(Duration::from_millis(5));
                conns[i] = open(i)?;
            }
        }
    }
}

/// Lets the held go and reads their responses.
pub fn release(room: &Room, conns: &mut [Conn], base: u64) -> R {
    room.let_all_go();
    if !drive(conns, long(), |_, c| !c.msgs.is_empty() || c.st != St::Open) {
        soft!("connections that were held are not answered");
    }
    for (i, c) in conns.iter().enumerate() {
        let want = format!("held {}", base + i as u64);
        match c.msgs.first() {
            Some(m) if m.body == want.as_bytes() => (),
            Some(m) => return Err(Fail::Hard(format!("a connection that was held is answered {:?} {:?}", m.start, String::from_utf8_lossy(&m.body)))),
            None => return Err(Fail::Hard(format!("a connection that was held is not answered: {}", c.describe()))),
        }
    }
    Ok(())
}
