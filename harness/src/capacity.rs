//! C12: as many connections at once as there are places, 503 for the rest.
use crate::conn::*;
use crate::fw::*;
use crate::room::*;
use crate::srv::*;
use crate::{ensure, soft};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::net::Shutdown;
use std::time::{Duration, Instant};
use wruster::http::Response;

/// How a connection gives up its place.
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
enum Leave {
    /// Its handler ends, it reads the response and closes.
    Served,
    /// The same, but the request asked to close.
    Closes,
    /// It goes away while its handler works; then the handler ends.
    Gone,
    Reset,
    Panics,
    /// It was served and is idle; then closes.
    IdleThenClose,
    IdleThenReset,
    /// Sends something malformed after being served.
    IdleThenBad,
    /// Half a request after being served, then it closes.
    IdleThenCut,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    /// New connections that keep their handlers at work.
    Hold { n: u8 },
    /// New connections that are served and then idle.
    Idle { n: u8 },
    /// New connections that send nothing or half a request (within the read limit).
    Mute { n: u8, half: bool },
    /// Up to the capacity.
    Fill,
    /// New connections beyond the capacity, if full: with a request, half of one, or nothing.
    Beyond { n: u8, how: u8, at_once: bool },
    Leave { n: u8, how: Leave, pick: u16 },
    /// Those idle ask again.
    AskIdle,
    /// New connections beyond the capacity, if full, of clients that say nothing, not even for TLS.
    Silent { n: u8, share: u8 },
    /// Longer than the idle time after which the server gives up threads it does not need.
    Pause,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Day {
    tls: bool,
    ops: Vec<Op>,
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
enum Is {
    Held,
    Idle,
    Mute,
}

struct Member {
    c: Conn,
    id: u64,
    is: Is,
}

struct House<'a> {
    srv: &'a Srv,
    room: &'a Room,
    cap: usize,
    next: u64,
    members: Vec<Member>,
    /// Places may not have been given up yet.
    leaving: bool,
    turned_away: u64,
    silent: Vec<Conn>,
}

fn request(path: &str, id: u64, close: bool) -> Vec<u8> {
    format!("GET /{}/{} HTTP/1.1\r\nHost: h\r\n{}\r\n", path, id, if close { "Connection: close\r\n" } else { "" }).into_bytes()
}

impl House<'_> {
    fn full(&self) -> bool {
        self.members.len() == self.cap
    }
    fn connect(&self) -> Result<Conn, Fail> {
        self.srv.connect()
    }
    /// One more, for which there is a place.
    fn admit(&mut self, n: usize, is: Is, half: bool) -> R {
        let n = n.min(self.cap - self.members.len());
        let mut pending: Vec<Member> = Vec::new();
        let end = long();
        let start = |h: &mut House| -> Result<Member, Fail> {
            let id = h.next;
            h.next += 1;
            let mut c = h.connect()?;
            match is {
                Is::Held => c.send(&request("hold", id, false)),
                Is::Idle => c.send(&request("ok", id, false)),
                // The first request tells that it has a place.
                Is::Mute => c.send(&request("ok", id, false)),
            }
            Ok(Member { c, id, is })
        };
        for _ in 0..n {
            pending.push(start(self)?);
        }
        loop {
            let room = self.room;
            let settled = |m: &Member| match m.is {
                Is::Held => room.entered(m.id) > 0,
                _ => m.c.msgs.iter().any(|r| r.status() == Some(200)),
            };
            let until = Instant::now() + LONG;
            while Instant::now() < until {
                let mut all = true;
                for m in pending.iter_mut() {
                    if !settled(m) && m.c.st == St::Open && m.c.bad.is_none() {
                        m.c.pump(Duration::ZERO);
                        all &= settled(m) || m.c.st != St::Open;
                    }
                }
                if all {
                    break;
                }
                std::thread::sleep(Duration::from_micros(200));
            }
            let mut rest = Vec::new();
            for m in pending.drain(..) {
                if settled(&m) {
                    self.members.push(m);
                } else {
                    rest.push(m);
                }
            }
            if rest.is_empty() {
                break;
            }
            for m in &rest {
                if m.c.st == St::Open {
                    soft!("a connection, one of {} where there are {} places, waits for its handler: {}", self.members.len() + rest.len(), self.cap, m.c.describe());
                }
                let r = m.c.msgs.first();
                ensure!(r.is_none_or(|r| r.status() == Some(503)), "a connection is answered {:?}", r.map(|r| r.start.clone()));
                if !self.leaving {
                    return Err(Fail::Hard(format!("a connection is turned away with {} of {} places taken: {}", self.members.len(), self.cap, m.c.describe())));
                }
            }
            // Others are still leaving.
            if Instant::now() > end {
                soft!("a connection is turned away with {} of {} places taken, {:?} after others left", self.members.len(), self.cap, LONG);
            }
            std::thread::sleep(Duration::from_millis(3));
            for _ in 0..rest.len() {
                let m = start(self)?;
                pending.push(m);
            }
        }
        if self.full() {
            self.leaving = false;
        }
        if is == Is::Mute && half {
            let from = self.members.len() - n;
            for m in &mut self.members[from..] {
                m.c.msgs.clear();
                m.c.send(b"GET /ok/1 HTTP/1.1\r\nHo");
                m.c.until(long(), |c| !c.pending_out());
            }
        }
        Ok(())
    }
    fn beyond(&mut self, n: usize, how: u8, at_once: bool) -> R {
        let mut v: Vec<(Conn, u64)> = Vec::new();
        for _ in 0..n {
            let id = self.next;
            self.next += 1;
            let mut c = self.connect()?;
            match how % 4 {
                0 => (),
                1 => c.send(&request("hold", id, false)),
                2 => c.send(&request("ok", id, true)),
                _ => c.send(b"POST /ok/7 HTTP/1.1\r\nContent-Length: 10\r\n\r\n123"),
            }
            if !at_once {
                c.until(long(), |_| false);
            }
            v.push((c, id));
        }
        let mut conns: Vec<Conn> = Vec::new();
        let mut ids = Vec::new();
        for (c, id) in v {
            conns.push(c);
            ids.push(id);
        }
        let all = drive(&mut conns, long(), |_, c| c.st != St::Open);
        for (c, id) in conns.iter().zip(ids) {
            ensure!(self.room.entered(id) == 0 && self.room.ok(id) == 0, "a connection gets to a handler while {} others, as many as there are places, are open", self.members.len());
            match c.msgs.first() {
                Some(m) => ensure!(m.status() == Some(503) && c.msgs.len() == 1, "a connection for which there is no place is answered {:?}", m.start),
                None if c.st == St::Open => soft!("a connection for which there is no place is not answered: {}", c.describe()),
                None => return Err(Fail::Hard(format!("a connection for which there is no place is closed without a 503: {}", c.describe()))),
            }
            self.turned_away += 1;
        }
        if !all {
            soft!("a connection answered 503 is not closed");
        }
        Ok(())
    }
    fn leave(&mut self, n: usize, how: Leave, pick: u16) -> R {
        let idle = matches!(how, Leave::IdleThenClose | Leave::IdleThenReset | Leave::IdleThenBad | Leave::IdleThenCut);
        for k in 0..n {
            let fit: Vec<usize> = (0..self.members.len()).filter(|i| match self.members[*i].is {
                Is::Held => !idle,
                Is::Idle => idle,
                Is::Mute => matches!(how, Leave::Gone | Leave::Reset),
            }).collect();
            if fit.is_empty() {
                return Ok(());
            }
            let i = fit[(pick as usize + k * 7) % fit.len()];
            let mut m = self.members.swap_remove(i);
            self.leaving = true;
            if m.is == Is::Mute {
                if how == Leave::Reset {
                    m.c.reset();
                }
                continue;
            }
            match how {
                Leave::Served | Leave::Closes => {
                    self.room.let_go(m.id, false);
                    m.c.until(long(), |c| !c.msgs.is_empty());
                    let want = format!("held {}", m.id);
                    match m.c.msgs.first() {
                        Some(r) => ensure!(r.body == want.as_bytes(), "a connection in its handler is answered {:?}", r.start),
                        None if m.c.st == St::Open => soft!("a connection is not answered: {}", m.c.describe()),
                        None => return Err(Fail::Hard(format!("a connection in its handler is not answered: {}", m.c.describe()))),
                    }
                    if how == Leave::Closes {
                        m.c.msgs.clear();
                        let r = m.c.ask(&request("ok", m.id, true), LONG)?;
                        ensure!(r.status() == Some(200), "a connection is answered {:?}", r.start);
                        m.c.until(long(), |_| false);
                    }
                }
                Leave::Gone => {
                    drop(m.c);
                    self.room.let_go(m.id, false);
                }
                Leave::Reset => {
                    m.c.reset();
                    self.room.let_go(m.id, false);
                }
                Leave::Panics => {
                    self.room.let_go(m.id, true);
                    m.c.until(long(), |_| false);
                    if m.c.st == St::Open {
                        soft!("the connection of a handler that panicked stays open");
                    }
                }
                Leave::IdleThenClose => {
                    let _ = m.c.sock.shutdown(Shutdown::Both);
                }
                Leave::IdleThenReset => m.c.reset(),
                Leave::IdleThenBad => {
                    m.c.send(b"BAD / HTTP/1.1\r\n\r\n");
                    m.c.until(long(), |_| false);
                }
                Leave::IdleThenCut => {
                    m.c.send(b"GET /ok/1 HTTP/1.1\r\nHo");
                    m.c.until(long(), |c| !c.pending_out());
                }
            }
        }
        Ok(())
    }
    fn ask_idle(&mut self) -> R {
        for m in self.members.iter_mut().filter(|m| m.is == Is::Idle).take(20) {
            let r = m.c.ask(&request("ok", m.id, false), LONG)?;
            ensure!(r.body == format!("ok {}", m.id).as_bytes(), "an idle connection asks again and is answered {:?}", r.start);
        }
        Ok(())
    }
    /// Nobody who has a place was disturbed.
    fn undisturbed(&mut self) -> R {
        for m in self.members.iter_mut() {
            m.c.pump(Duration::ZERO);
            if m.is != Is::Held {
                m.c.msgs.clear();
            }
            ensure!(m.c.st == St::Open && m.c.msgs.is_empty() && m.c.bad.is_none(), "a connection that has a place ({:?}) is disturbed: {}", m.is, m.c.describe());
            if m.is == Is::Held {
                ensure!(self.room.entered(m.id) == 1, "a request is handled {} times", self.room.entered(m.id));
            }
        }
        ensure!(self.room.most() <= self.cap, "{} handlers at once, there are {} places", self.room.most(), self.cap);
        Ok(())
    }
}

const WRITE: Duration = Duration::from_secs(5);

fn day(ctx: &Ctx, d: &Day, o: &mut Obs) -> R {
    let room = Room::new();
    let srv = Srv::start(ctx, timeouts(Duration::from_secs(60), WRITE), room.routes(not_found), d.tls.then_some(false))?;
    let r = house(d, &room, &srv, o);
    room.let_all_go();
    r?;
    srv.stop(LONG)
}

/// The same, then the server is shut down while actions are still at work:
/// it waits for all of them.
fn day_of_work(ctx: &Ctx, d: &Day, at_work: usize, o: &mut Obs) -> R {
    let room = Room::new();
    let srv = Srv::start(ctx, timeouts(Duration::from_secs(60), WRITE), room.routes(not_found), d.tls.then_some(false))?;
    let r = house(d, &room, &srv, o);
    room.let_all_go();
    r?;
    srv.stop(LONG)?;
    let room = Room::new();
    let srv = Srv::start(ctx, timeouts(Duration::from_secs(60), WRITE), room.routes(not_found), d.tls.then_some(false))?;
    let mut h = House { srv: &srv, room: &room, cap: capacity(), next: 1, members: vec![], leaving: false, turned_away: 0, silent: vec![] };
    let r = h.admit(at_work, Is::Held, false);
    let members = std::mem::take(&mut h.members);
    drop(h);
    if let Err(e) = r {
        room.let_all_go();
        return Err(e);
    }
    let (tx, rx) = std::sync::mpsc::channel();
    let srv_thread = {
        let room = room.clone();
        std::thread::spawn(move || {
            let r = srv.stop(Duration::from_secs(60));
            let _ = tx.send((r, room.running()));
        })
    };
    let mut early = None;
    for m in &members {
        if early.is_none() {
            early = rx.recv_timeout(Duration::from_millis(2)).ok();
        }
        room.let_go(m.id, false);
    }
    room.let_all_go();
    let (r, running) = match early {
        Some(x) => x,
        None => match rx.recv_timeout(Duration::from_secs(70)) {
            Ok(x) => x,
            Err(_) => soft!("the pool does not end after its last action"),
        },
    };
    let _ = srv_thread.join();
    ensure!(running == 0, "the pool ended while {} of {} actions were at work", running, members.len());
    r?;
    for m in &members {
        ensure!(room.entered(m.id) == 1, "an action ran {} times", room.entered(m.id));
    }
    Ok(())
}

fn house(d: &Day, room: &Room, srv: &Srv, o: &mut Obs) -> R {
    let cap = capacity();
    let mut h = House { srv, room, cap, next: 1, members: vec![], leaving: false, turned_away: 0, silent: vec![] };
    let mut filled = 0;
    for (n, op) in d.ops.iter().enumerate() {
        let r = match op {
            Op::Hold { n } => h.admit(*n as usize, Is::Held, false),
            Op::Idle { n } => h.admit(*n as usize, Is::Idle, false),
            Op::Mute { n, half } => h.admit(*n as usize, Is::Mute, *half),
            Op::Fill => {
                filled += 1;
                h.admit(cap, Is::Held, false)
            }
            Op::Beyond { n, how, at_once } => {
                if h.full() {
                    h.beyond(*n as usize, *how, *at_once)
                } else {
                    Ok(())
                }
            }
            Op::Leave { n, how, pick } => {
                o.class(format!("{:?}", how));
                h.leave(*n as usize, *how, *pick)
            }
            Op::AskIdle => h.ask_idle(),
            Op::Pause => {
                std::thread::sleep(Duration::from_secs(13));
                Ok(())
            }
            Op::Silent { n, share } => {
                if h.full() {
                    o.class("silent clients turned away");
                    for _ in 0..*n {
                        let mut c = Conn::connect(&srv.addr).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)))?;
                        if d.tls {
                            let mut hello = Vec::new();
                            let _ = tls_client(None, false).write_tls(&mut hello);
                            c.send(&hello[..hello.len() * (*share as usize).min(99) / 100]);
                        }
                        c.until(Instant::now() + Duration::from_millis(3), |_| false);
                        h.silent.push(c);
                    }
                }
                Ok(())
            }
        };
        let add = |e: Fail| match e {
            Fail::Hard(m) => Fail::Hard(format!("op {} ({:?}): {}", n, op, m)),
            Fail::Soft(m) => Fail::Soft(format!("op {} ({:?}): {}", n, op, m)),
            e => e,
        };
        r.map_err(add)?;
        h.undisturbed().map_err(add)?;
        o.sub += 1;
    }
    // In the end every place can be taken, and no more.
    h.admit(cap, Is::Held, false)?;
    h.beyond(3, 1, true)?;
    h.undisturbed()?;
    if !drive(&mut h.silent, long(), |_, c| c.st != St::Open) {
        soft!("a connection turned away that says nothing is still open after {:?}, the write limit is {:?}", LONG, WRITE);
    }
    room.let_all_go();
    for m in h.members.iter_mut().filter(|m| m.is == Is::Held) {
        m.c.until(long(), |c| !c.msgs.is_empty());
        let want = format!("held {}", m.id);
        match m.c.msgs.first() {
            Some(r) => ensure!(r.body == want.as_bytes(), "a connection in its handler is answered {:?}", r.start),
            None => soft!("a connection is not answered: {}", m.c.describe()),
        }
    }
    o.nontrivial(h.turned_away > 3 || d.ops.iter().any(|o| matches!(o, Op::Leave { .. })));
    o.class_if(filled > 1, "filled again");
    o.class_if(h.turned_away > 3, "turned away in the middle");
    o.class_if(d.tls, "TLS");
    Ok(())
}

fn op() -> impl Strategy<Value = Op> {
    let n = || prop_oneof![3 => 1u8..6, 1 => 6u8..60];
    let how = select(vec![
        Leave::Served, Leave::Closes, Leave::Gone, Leave::Reset, Leave::Panics, Leave::IdleThenClose, Leave::IdleThenReset, Leave::IdleThenBad, Leave::IdleThenCut,
    ]);
    prop_oneof![
        2 => n().prop_map(|n| Op::Hold { n }),
        2 => n().prop_map(|n| Op::Idle { n }),
        1 => (n(), any::<bool>()).prop_map(|(n, half)| Op::Mute { n, half }),
        4 => Just(Op::Fill),
        4 => (1u8..20, 0u8..4, any::<bool>()).prop_map(|(n, how, at_once)| Op::Beyond { n, how, at_once }),
        5 => (n(), how, any::<u16>()).prop_map(|(n, how, pick)| Op::Leave { n, how, pick }),
        1 => Just(Op::AskIdle),
        1 => (1u8..6, 0u8..100).prop_map(|(n, share)| Op::Silent { n, share }),
    ]
}

/// How the server itself ends a connection.
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
enum End {
    Silent,
    /// This share (1/256) of a request.
    Half(u8),
    /// The headers and this share of the body; the handler reads it.
    HalfBody(u8),
    Idle,
    NoRead,
    Panics,
    Malformed,
    /// What is no TLS, or no HTTP.
    Noise(u8),
    /// This share of the TLS handshake's first message.
    HalfHello(u8),
    /// Two requests, the second malformed.
    ServedThenBad,
    /// This share of a request, then the end of what it sends.
    Cut(u8),
    /// Its request is the last one, or malformed, but it goes on sending.
    GoesOn(bool),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Night {
    tls: bool,
    read_ms: u16,
    write_ms: u16,
    ends: Vec<(End, u8)>,
    rounds: u8,
}

fn night(ctx: &Ctx, d: &Night, o: &mut Obs) -> R {
    let room = Room::new();
    let srv = Srv::start(
        ctx,
        timeouts(Duration::from_millis(d.read_ms as u64), Duration::from_millis(d.write_ms as u64)),
        room.routes(|q| {
            if q.uri == "/panic" {
                panic!("a handler of the check panics");
            }
            if q.uri == "/large" {
                return Response::from_content(std::io::repeat(7), 20 << 20, mime::TEXT_PLAIN);
            }
            if let Some(b) = q.body.as_mut() {
                let _ = b.ensure_read();
            }
            answer("x")
        }),
        d.tls.then_some(false),
    )?;
    let r = nights(d, &srv, &room, o);
    room.let_all_go();
    r?;
    srv.stop(LONG)
}

fn nights(d: &Night, srv: &Srv, room: &Room, o: &mut Obs) -> R {
    let cap = capacity();
    let share = |v: &[u8], p: u8| v[..1 + (v.len() - 1) * p as usize / 256].to_vec();
    let mut kept: Vec<Conn> = Vec::new();
    let mut talking = Talking::default();
    for _ in 0..d.rounds {
        let mut conns: Vec<Conn> = Vec::new();
        let mut talkers: Vec<Conn> = Vec::new();
        let all = d.ends.iter().flat_map(|(e, n)| std::iter::repeat(*e).take(*n as usize)).take(cap);
        for e in all {
            let raw = d.tls && matches!(e, End::Silent | End::Noise(_) | End::HalfHello(_));
            let mut c = if raw { Conn::connect(&srv.addr).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)))? } else { srv.connect()? };
            let post = b"POST /x HTTP/1.1\r\nContent-Length: 400\r\n\r\n";
            let bad = b"BAD / HTTP/1.1\r\n\r\n";
            match e {
                End::Silent => (),
                End::Half(p) | End::Cut(p) => c.send(&share(post, p)),
                End::HalfBody(p) => {
                    c.send(post);
                    c.send(&share(&[b'b'; 400], p));
                }
                End::Idle => c.send(b"GET /x HTTP/1.1\r\n\r\n"),
                End::NoRead => {
                    c.send(b"GET /large HTTP/1.1\r\n\r\n");
                    // TLS needs what it reads for the handshake.
                    if !d.tls {
                        c.hold(Duration::from_secs(3600));
                    }
                }
                End::Panics => c.send(b"GET /panic HTTP/1.1\r\n\r\n"),
                End::Malformed => c.send(bad),
                End::Noise(n) => c.send(&crate::io_mocks::Blob { len: n as usize * 8, seed: n }.bytes()),
                End::HalfHello(p) => {
                    let mut hello = Vec::new();
                    let _ = tls_client(None, false).write_tls(&mut hello);
                    c.send(&share(&hello, p));
                }
                End::GoesOn(served) => {
                    c.send(if served { b"GET /x HTTP/1.1\r\nConnection: close\r\n\r\n" } else { bad });
                    c.pump(Duration::ZERO);
                    talkers.push(c);
                    continue;
                }
                End::ServedThenBad => {
                    c.send(b"GET /x HTTP/1.1\r\n\r\n");
                    c.send(bad);
                }
            }
            c.pump(Duration::ZERO);
            if matches!(e, End::Cut(_)) {
                c.until(Instant::now() + Duration::from_millis(200), |c| !c.pending_out());
                c.half_close();
            }
            conns.push(c);
        }
        o.sub += talkers.len() as u64;
        o.class_if(!talkers.is_empty(), "going on after their last request");
        talking.add(talkers);
        let large = |c: &Conn| c.got_bytes > 60_000;
        drive(&mut conns, Instant::now() + Duration::from_millis(d.read_ms.max(d.write_ms) as u64), |_, c| c.st != St::Open || large(c));
        o.sub += conns.len() as u64;
        kept.extend(conns);
    }
    // They are not closed from this side: the server has ended them all.
    let base = 1000;
    let mut held = fill(srv, room, cap, base)?;
    let mut h = House { srv, room, cap, next: 1_000_000, members: vec![], leaving: false, turned_away: 0, silent: vec![] };
    h.beyond(3, 1, true).map_err(|e| match e {
        Fail::Hard(m) => Fail::Hard(format!("after {} connections that the server ended, with {} others in their handlers: {}", kept.len(), cap, m)),
        e => e,
    })?;
    release(room, &mut held, base)?;
    for (e, _) in &d.ends {
        let s = format!("{:?}", e);
        o.class(s.split('(').next().unwrap_or("").to_string());
    }
    o.class_if(kept.len() >= cap, "as many as there are places");
    o.class_if(d.tls, "TLS");
    o.nontrivial(kept.len() > 3);
    Ok(())
}

/// Connections on which something is sent all the time.
#[derive(Default)]
struct Talking {
    threads: Vec<std::thread::JoinHandle<()>>,
    stop: std::sync::Arc<std::sync::atomic::AtomicBool>,
}

impl Talking {
    fn add(&mut self, mut conns: Vec<Conn>) {
        if conns.is_empty() {
            return;
        }
        let stop = self.stop.clone();
        self.threads.push(std::thread::spawn(move || {
            while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                for c in conns.iter_mut() {
                    if c.st == St::Open && c.pending_out() {
                        c.pump(Duration::ZERO);
                        continue;
                    }
                    // Whether or not the server said that it will send no more.
                    c.go_on(b"more bytes ");
                }
                std::thread::sleep(Duration::from_millis(3));
            }
        }));
    }
}

impl Drop for Talking {
    fn drop(&mut self) {
        self.stop.store(true, std::sync::atomic::Ordering::SeqCst);
        for t in self.threads.drain(..) {
            let _ = t.join();
        }
    }
}

fn night_strat() -> BoxedStrategy<Night> {
    let p = any::<u8>;
    let end = prop_oneof![
        Just(End::Silent), p().prop_map(End::Half), p().prop_map(End::HalfBody), Just(End::Idle), Just(End::NoRead), Just(End::Panics),
        Just(End::Malformed), p().prop_map(End::Noise), p().prop_map(End::HalfHello), Just(End::ServedThenBad), p().prop_map(End::Cut), any::<bool>().prop_map(End::GoesOn),
    ];
    (proptest::bool::weighted(0.4), 150u16..600, 150u16..600, vec((end, prop_oneof![2 => 1u8..6, 1 => 6u8..110]), 1..7), 1u8..3)
        .prop_map(|(tls, read_ms, write_ms, ends, rounds)| Night { tls, read_ms, write_ms, ends, rounds })
        .boxed()
}

/// C16 as the users of a server see it: its places are the pool's workers.
pub fn work_suite() -> Suite {
    let day = || {
        (proptest::bool::weighted(0.2), vec(op(), 1..10), proptest::option::weighted(0.15, any::<u8>()), 1u8..100).prop_map(|(tls, mut ops, pause, at_work)| {
            if let Some(at) = pause {
                ops.insert(at as usize % ops.len(), Op::Pause);
            }
            (Day { tls, ops }, at_work)
        })
    };
    suite(
        Opts { name: "server", rule: "connections were turned away or left in the middle of the history", quick: 64, thorough: 4_000, shards: 8, shrink: 40, pure: false },
        move |_| day().boxed(),
        |ctx, d: &(Day, u8), o| {
            o.class_if(d.0.ops.iter().any(|o| matches!(o, Op::Pause)), "idle longer than the workers wait");
            day_of_work(ctx, &d.0, d.1 as usize, o)
        },
    )
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        suites: vec![suite(
            Opts { name: "days", rule: "connections were turned away or left in the middle of the history", quick: 240, thorough: 10_000, shards: 8, shrink: 60, pure: false },
            |_| (proptest::bool::weighted(0.35), vec(op(), 2..16)).prop_map(|(tls, ops)| Day { tls, ops }).boxed(),
            |ctx, d: &Day, o| day(ctx, d, o),
        ), suite(
            Opts { name: "ended", rule: "1-110 connections of several kinds, in one or two rounds, that the server ends itself: limits of 150-600 ms pass (nothing sent, half a request, half a body, idle, responses not read, half a TLS hello), handlers panic, requests are malformed or cut off or followed by bytes without end, noise instead of TLS; then all places can be taken and no more; non-trivial: more than 3 of them", quick: 64, thorough: 3_000, shards: 8, shrink: 40, pure: false },
            |_| night_strat(),
            |ctx, d: &Night, o| night(ctx, d, o),
        )],
        assumptions: &["a place given up is available again within 12 s", "the machine can run as many threads as the server has places"],
    }
}

pub fn c16() -> Property {
    #[cfg(wruster_verif)]
    let mut suites = crate::pool::c16();
    #[cfg(not(wruster_verif))]
    let mut suites = Vec::new();
    suites.push(work_suite());
    Property {
        id: "C16",
        suites,
        assumptions: &[
            "a worker that was just created or just finished an action may need up to 6 s until it takes the next",
            "the schedules are those that 8 cores produce; they are not enumerated",
            "the suite \"server\" uses the pool as a server does: an action is a connection",
        ],
    }
}
