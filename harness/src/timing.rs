//! C13: time limits.
use crate::conn::*;
use crate::fw::*;
use crate::io_mocks::Blob;
use crate::srv::*;
use crate::{ensure, soft};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::time::{Duration, Instant};

// ------------------------------------------------------ a server's clients

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Kind {
    /// Arrives in pieces until this share (of 100) of the limit.
    InTime { share: u8, pieces: u8, body: usize },
    /// Pieces arrive until after the limit.
    Late { over_ms: u16, pieces: u8, body: usize },
    /// The header block arrives at once, the body too late.
    BodyLate { over_ms: u16, pieces: u8, body: usize, consume: u8 },
    Silent,
    /// This share (1/256) of what begins a TLS handshake, in pieces until
    /// after the limit or all at once, and never the rest.
    HalfHello { share: u8, pieces: u8, over_ms: Option<u16> },
    /// Some requests in time, then nothing.
    ThenSilent { requests: u8 },
    /// Several requests, each taking this share of the limit.
    Anew { share: u8, requests: u8, pieces: u8 },
    /// Takes the response in this share of the write limit.
    TakesInTime { share: u8, requests: u8 },
    /// Takes nothing of the response until the limit is over.
    TakesNothing,
    /// Takes a little every few milliseconds.
    TakesLittle { every_ms: u8, bytes: u16 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Limits {
    read_ms: u32,
    write_ms: u32,
    tls: bool,
    clients: Vec<Kind>,
}

const BIG: usize = 6 << 20;
/// How much later than a limit the end of a connection is accepted.
const LATE: Duration = Duration::from_secs(4);

fn plain(rsp: Rsp, body: usize, consume: Consume) -> Rq {
    Rq {
        method: if body > 0 { 2 } else { 0 },
        v10: false,
        conn: None,
        headers: vec![],
        clen_spell: 0,
        body: (body > 0).then_some(Blob { len: body, seed: 3 }),
        consume,
        rsp,
        spoil: 0,
    }
}

fn requests_of(k: &Kind) -> Vec<Rq> {
    let small = Rsp::Str(3);
    let big = Rsp::Content(Blob { len: BIG, seed: 9 });
    match k {
        Kind::InTime { body, .. } | Kind::Late { body, .. } => vec![plain(small, *body, Consume::AllBody)],
        Kind::BodyLate { body, consume, .. } => {
            let c = match consume % 3 {
                0 => Consume::Nothing,
                1 => Consume::AllContent,
                _ => Consume::Ensure,
            };
            vec![plain(small, (*body).max(2), c)]
        }
        Kind::Silent | Kind::HalfHello { .. } => vec![],
        Kind::ThenSilent { requests } => vec![plain(small, 0, Consume::Nothing); *requests as usize],
        Kind::Anew { requests, .. } => vec![plain(small, 20, Consume::AllBody); *requests as usize],
        Kind::TakesInTime { requests, .. } => vec![plain(big, 0, Consume::Nothing); *requests as usize],
        Kind::TakesNothing | Kind::TakesLittle { .. } => vec![plain(big, 0, Consume::Nothing)],
    }
}

/// Sends `data` in pieces, the first at once and the last at `end`; true if none was sent much later than that.
fn drip(c: &mut Conn, data: &[u8], pieces: usize, start: Instant, end: Duration) -> bool {
    let n = pieces.clamp(2, data.len().max(2));
    let mut at = 0;
    for i in 0..n {
        let due = start + end.mul_f64(i as f64 / (n - 1) as f64);
        while Instant::now() < due && c.st == St::Open {
            let left = due.saturating_duration_since(Instant::now());
            c.pump(left.min(Duration::from_millis(5)));
        }
        let to = data.len() * (i + 1) / n;
        c.send(&data[at..to]);
        at = to;
        let _ = c.until(Instant::now() + Duration::from_secs(2), |c| !c.pending_out());
    }
    start.elapsed() < end + Duration::from_millis(30)
}

fn closed_by(c: &mut Conn, deadline: Instant) -> bool {
    c.until(deadline, |_| false);
    c.st != St::Open
}

/// Ok(true) if the client's timing went as planned and it was judged.
fn one_client(ctx_addr: &Srv, l: &Limits, kind: &Kind, n: usize, plan: &Arc<Plan>) -> Result<bool, Fail> {
    let read = Duration::from_millis(l.read_ms as u64);
    let write = Duration::from_millis(l.write_ms as u64);
    let reqs = &plan.reqs[n];
    let raw = |k: usize| reqs[k].render(n, k);
    let takes = matches!(kind, Kind::TakesInTime { .. } | Kind::TakesNothing | Kind::TakesLittle { .. });
    let t0 = Instant::now();
    let mut c = if takes {
        let c = Conn::connect_small(&ctx_addr.addr, 8192).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)))?;
        let c = if l.tls { c.with_tls(tls_client(None, false)) } else { c };
        if !c.shrink_peer(16384) {
            return Ok(false);
        }
        c
    } else if matches!(kind, Kind::HalfHello { .. }) {
        Conn::connect(&ctx_addr.addr).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)))?
    } else {
        ctx_addr.connect()?
    };
    if l.tls && !matches!(kind, Kind::Silent | Kind::HalfHello { .. }) {
        let ok = c.until(Instant::now() + LONG, |c| !c.tls.as_ref().unwrap().is_handshaking() && !c.pending_out());
        if !ok {
            return if t0.elapsed() > read { Ok(false) } else { Err(Fail::Soft(format!("the handshake fails after {:?}: {}", t0.elapsed(), c.describe()))) };
        }
    }
    // Everything after this is measured on the safe side: the limit is counted
    // from before the connection for what must be served …
    let judge_in_time = |spent: Duration| spent + (read / 5).min(Duration::from_millis(150)) < read;
    match kind {
        Kind::InTime { share, pieces, .. } => {
            drip(&mut c, &raw(0), *pieces as usize, t0, read.mul_f64(*share as f64 / 100.0));
            if !judge_in_time(t0.elapsed()) {
                return Ok(false);
            }
            let spent = t0.elapsed();
            if !c.until(long(), |c| !c.msgs.is_empty()) {
                soft!("a request sent within {:?} of the connection, the limit is {:?}, is not served: {}", spent, read, c.describe());
            }
            ensure!(c.msgs[0].status() == Some(200), "a request sent in time is answered {:?}", c.msgs[0].start);
        }
        Kind::Late { over_ms, pieces, .. } => {
            // … and from after it for what must not be.
            let start = Instant::now();
            let end = read + Duration::from_millis(300 + *over_ms as u64);
            drip(&mut c, &raw(0), *pieces as usize, start, end);
            if !closed_by(&mut c, start + read + LATE) {
                soft!("the connection is still open {:?} after it began, the read limit is {:?}", start.elapsed(), read);
            }
            // Its handler may have been called with the header block, but it
            // must have been told that the body did not come.
            let seen = plan.outcomes(n, 0);
            if let Some(x) = seen.iter().flatten().find(|x| !x.contains("fails")) {
                return Err(Fail::Hard(format!("the handler of a late request: {}", x)));
            }
            if seen.iter().any(|x| x.is_none()) || (seen.is_empty() && c.msgs.iter().any(|m| m.status() == Some(200))) {
                soft!("a request whose last bytes arrived after the limit of {:?} is served", read);
            }
        }
        Kind::BodyLate { over_ms, pieces, .. } => {
            let start = Instant::now();
            let data = raw(0);
            let he = crate::refhttp::head_end(&data).unwrap();
            c.send(&data[..he + 1]);
            let _ = c.until(Instant::now() + Duration::from_secs(1), |c| !c.pending_out());
            let end = read + Duration::from_millis(300 + *over_ms as u64);
            drip(&mut c, &data[he + 1..], *pieces as usize, start, end);
            if !closed_by(&mut c, start + read + LATE) {
                soft!("the connection is still open {:?} after it began, the read limit is {:?}", start.elapsed(), read);
            }
            if c.msgs.iter().any(|m| m.status() == Some(200)) {
                soft!("a request whose body arrived {:?} after the connection, the limit is {:?}, is answered", end, read);
            }
        }
        Kind::Silent => {
            if !closed_by(&mut c, t0 + read + LATE) {
                soft!("an idle connection is still open after {:?}, the read limit is {:?}", t0.elapsed(), read);
            }
            if t0.elapsed() + Duration::from_millis(20) < read {
                soft!("an idle connection is closed after {:?}, the read limit is {:?}", t0.elapsed(), read);
            }
        }
        Kind::HalfHello { share, pieces, over_ms } => {
            let mut hello = Vec::new();
            if l.tls {
                let _ = tls_client(None, false).write_tls(&mut hello);
            } else {
                hello.extend(b"GET / HTTP/1.1\r\nHost: h\r\n");
            }
            // At least a byte is missing; none is sent if the share is none.
            hello.truncate((hello.len() - 1) * *share as usize / 255);
            match over_ms {
                Some(over) if !hello.is_empty() => {
                    drip(&mut c, &hello, *pieces as usize, t0, read + Duration::from_millis(300 + *over as u64));
                }
                _ => c.send(&hello),
            }
            if !closed_by(&mut c, t0 + read + LATE) {
                soft!("a connection is still open after {:?} with {} bytes of a handshake or request sent, the read limit is {:?}", t0.elapsed(), hello.len(), read);
            }
            ensure!(c.msgs.iter().all(|m| m.status() != Some(200)), "a request that was not sent is answered");
            if over_ms.is_none() && t0.elapsed() + Duration::from_millis(20) < read {
                soft!("a connection that could still go on is closed after {:?}, the read limit is {:?}", t0.elapsed(), read);
            }
        }
        Kind::ThenSilent { .. } => {
            for k in 0..reqs.len() {
                let m = c.ask(&raw(k), LONG)?;
                ensure!(m.status() == Some(200), "a request is answered {:?}", m.start);
            }
            let start = Instant::now();
            if !closed_by(&mut c, start + read + LATE) {
                soft!("an idle persistent connection is still open after {:?}, the read limit is {:?}", start.elapsed(), read);
            }
            // The server waits since it sent the response, a little earlier.
            if start.elapsed() + Duration::from_millis(60) < read {
                soft!("an idle persistent connection is closed after {:?}, the read limit is {:?}", start.elapsed(), read);
            }
        }
        Kind::Anew { share, pieces, .. } => {
            let mut start = t0;
            for k in 0..reqs.len() {
                c.msgs.clear();
                drip(&mut c, &raw(k), *pieces as usize, start, read.mul_f64(*share as f64 / 100.0));
                if !judge_in_time(start.elapsed()) {
                    return Ok(false);
                }
                let spent = start.elapsed();
                // Of the next request the time counts from the response to this.
                start = Instant::now();
                if !c.until(long(), |c| !c.msgs.is_empty()) {
                    soft!("request {} of a connection, sent within {:?}, the limit is {:?}, is not served: {}", k, spent, read, c.describe());
                }
                ensure!(c.msgs[0].status() == Some(200), "request {} sent in time is answered {:?}", k, c.msgs[0].start);
            }
        }
        Kind::TakesInTime { share, .. } => {
            for k in 0..reqs.len() {
                c.msgs.clear();
                let start = Instant::now();
                c.send(&raw(k));
                let _ = c.until(Instant::now() + Duration::from_secs(2), |c| !c.pending_out());
                let hold = write.mul_f64(*share as f64 / 100.0);
                while start.elapsed() < hold {
                    std::thread::sleep(Duration::from_millis(2));
                }
                c.widen();
                let done = c.until(start + write.mul_f64(0.9), |c| !c.msgs.is_empty());
                if !done {
                    // Too slow a machine for that much data; or it was cut.
                    if c.st == St::Open {
                        return Ok(false);
                    }
                    soft!("a response taken within {:?}, the write limit is {:?}, is cut: {}", start.elapsed(), write, c.describe());
                }
            }
        }
        Kind::TakesNothing => {
            c.send(&raw(0));
            let _ = c.until(Instant::now() + Duration::from_secs(2), |c| !c.pending_out());
            std::thread::sleep(write + LATE);
            c.widen();
            let _ = c.until(long(), |c| !c.msgs.is_empty());
            if !c.msgs.is_empty() {
                soft!("a response not taken for {:?}, the write limit is {:?}, is then sent", write + LATE, write);
            }
            if c.st == St::Open {
                soft!("the connection of a response not taken is still open after {:?}", t0.elapsed());
            }
        }
        Kind::TakesLittle { every_ms, bytes } => {
            c.send(&raw(0));
            let _ = c.until(Instant::now() + Duration::from_secs(2), |c| !c.pending_out());
            let start = Instant::now();
            c.pace.read_size = (*bytes).max(1) as usize;
            c.pace.read_gap_us = *every_ms as u64 * 1000;
            let _ = c.until(start + write + LATE, |c| c.got_bytes as usize > BIG / 2);
            if c.got_bytes as usize > BIG / 2 {
                return Ok(false);
            }
            c.pace = Pace::default();
            c.widen();
            let _ = c.until(long(), |c| !c.msgs.is_empty());
            if !c.msgs.is_empty() {
                soft!("a response of which little was taken in {:?}, the write limit is {:?}, is then sent to its end", write + LATE, write);
            }
            if c.st == St::Open {
                soft!("the connection of a response not taken is still open after {:?}", t0.elapsed());
            }
        }
    }
    Ok(true)
}

fn limits(ctx: &Ctx, l: &Limits, o: &mut Obs) -> R {
    let plan = Plan::new(l.clients.iter().map(requests_of).collect());
    let srv = Srv::start(
        ctx,
        timeouts(Duration::from_millis(l.read_ms as u64), Duration::from_millis(l.write_ms as u64)),
        plan.routes(),
        l.tls.then_some(false),
    )?;
    let results: Vec<Result<bool, Fail>> = std::thread::scope(|s| {
        let hs: Vec<_> = l
            .clients
            .iter()
            .enumerate()
            .map(|(n, k)| {
                let (srv, plan) = (&srv, &plan);
                s.spawn(move || one_client(srv, l, k, n, plan))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::Hard("the client panics".into())))).collect()
    });
    let mut judged = 0;
    for (k, r) in l.clients.iter().zip(results) {
        let name = format!("{:?}", k);
        let name = name.split(' ').next().unwrap().to_string();
        match r {
            Ok(true) => {
                judged += 1;
                o.class(name)
            }
            Ok(false) => o.class(format!("not judged: {}", name)),
            Err(Fail::Soft(m)) => return Err(Fail::Soft(format!("{}: {}", name, m))),
            Err(e) => return Err(e),
        }
    }
    o.sub += judged;
    o.nontrivial(judged > 1);
    o.class_if(l.tls, "TLS");
    o.class_if(l.read_ms < 1000, "read limit under a second");
    srv.stop(LONG)?;
    Ok(())
}

fn kind() -> impl Strategy<Value = Kind> {
    let pieces = || prop_oneof![2u8..6, 6u8..40];
    let body = || select(vec![0usize, 1, 50, 3000]);
    prop_oneof![
        3 => (5u8..70, pieces(), body()).prop_map(|(share, pieces, body)| Kind::InTime { share, pieces, body }),
        3 => (0u16..900, pieces(), body()).prop_map(|(over_ms, pieces, body)| Kind::Late { over_ms, pieces, body }),
        2 => (0u16..900, pieces(), select(vec![2usize, 50, 9000, 40_000]), 0u8..3).prop_map(|(over_ms, pieces, body, consume)| Kind::BodyLate { over_ms, pieces, body, consume }),
        1 => Just(Kind::Silent),
        2 => (prop_oneof![2 => Just(0u8), 1 => Just(255u8), 3 => any::<u8>()], pieces(), proptest::option::of(0u16..900)).prop_map(|(share, pieces, over_ms)| Kind::HalfHello { share, pieces, over_ms }),
        2 => (1u8..4).prop_map(|requests| Kind::ThenSilent { requests }),
        3 => (30u8..65, 2u8..5, pieces()).prop_map(|(share, requests, pieces)| Kind::Anew { share, requests, pieces }),
        1 => (10u8..60, 1u8..3).prop_map(|(share, requests)| Kind::TakesInTime { share, requests }),
        1 => Just(Kind::TakesNothing),
        2 => (5u8..60, select(vec![1u16, 50, 500, 2000])).prop_map(|(every_ms, bytes)| Kind::TakesLittle { every_ms, bytes }),
    ]
}

#[cfg(wruster_verif)]
mod mock {
    use super::*;
    use std::cell::RefCell;
    use std::io::{self, Read, Write};
    use std::rc::Rc;
    use wruster::verif_hooks as vh;

    #[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
    pub enum What {
        Read,
        Write,
        Flush,
    }

    #[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
    pub enum Out {
        Some,
        Interrupted,
        /// As a socket: waits as long as it was told, then says WouldBlock.
        Expire,
        Reset,
    }

    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub struct Ops {
        pub read_us: Option<u64>,
        pub write_us: Option<u64>,
        pub ops: Vec<(What, u32, Out)>,
        /// Time that passes between two operations, µs.
        pub between: u32,
    }

    #[derive(Default)]
    struct State {
        read_timeout: Option<Duration>,
        write_timeout: Option<Duration>,
        next: (u32, Option<Out>),
        /// Time spent within the stream.
        inside: Duration,
        called: u32,
    }

    #[derive(Clone)]
    struct Mock(Rc<RefCell<State>>);

    impl Mock {
        fn go(&self, timeout: Option<Duration>) -> io::Result<usize> {
            let t = Instant::now();
            let mut s = self.0.borrow_mut();
            s.called += 1;
            let mut d = Duration::from_micros(s.next.0 as u64);
            let out = s.next.1.unwrap();
            if let Some(limit) = timeout {
                d = if out == Out::Expire { limit.min(Duration::from_millis(150)) } else { d.min(limit) };
            }
            if !d.is_zero() {
                std::thread::sleep(d);
            }
            s.inside += t.elapsed();
            match out {
                Out::Some => Ok(1),
                Out::Interrupted => Err(io::ErrorKind::Interrupted.into()),
                Out::Expire => Err(io::ErrorKind::WouldBlock.into()),
                Out::Reset => Err(io::ErrorKind::ConnectionReset.into()),
            }
        }
    }
    impl Read for Mock {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            let t = self.0.borrow().read_timeout;
            let n = self.go(t)?;
            b[0] = b'x';
            Ok(n)
        }
    }
    impl Write for Mock {
        fn write(&mut self, _: &[u8]) -> io::Result<usize> {
            let t = self.0.borrow().write_timeout;
            self.go(t)
        }
        fn flush(&mut self) -> io::Result<()> {
            let t = self.0.borrow().write_timeout;
            self.go(t).map(|_| ())
        }
    }
    impl vh::Timeout for Mock {
        fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> {
            if d == Some(Duration::ZERO) {
                return Err(io::ErrorKind::InvalidInput.into());
            }
            self.0.borrow_mut().read_timeout = d;
            Ok(())
        }
        fn set_write_timeout(&self, d: Option<Duration>) -> io::Result<()> {
            if d == Some(Duration::ZERO) {
                return Err(io::ErrorKind::InvalidInput.into());
            }
            self.0.borrow_mut().write_timeout = d;
            Ok(())
        }
    }

    struct Side {
        limit: Option<Duration>,
        first: Option<Instant>,
        inside: Duration,
    }

    pub fn run(c: &Ops, o: &mut Obs) -> R {
        let state = Rc::new(RefCell::new(State::default()));
        let (rl, wl) = (c.read_us.map(Duration::from_micros), c.write_us.map(Duration::from_micros));
        let mut ts = vh::TimeoutStream::from(Mock(state.clone()), rl, wl);
        let mut sides = [
            Side { limit: rl, first: None, inside: Duration::ZERO },
            Side { limit: wl, first: None, inside: Duration::ZERO },
        ];
        let tol = Duration::from_millis(2);
        for (i, (what, us, out)) in c.ops.iter().enumerate() {
            if c.between > 0 {
                std::thread::sleep(Duration::from_micros(c.between as u64));
            }
            {
                let mut s = state.borrow_mut();
                s.next = (*us, Some(*out));
                s.inside = Duration::ZERO;
                s.called = 0;
            }
            let side = &mut sides[(*what != What::Read) as usize];
            let before = Instant::now();
            let first = *side.first.get_or_insert(before);
            let res = match what {
                What::Read => ts.read(&mut [0u8; 4]),
                What::Write => ts.write(b"abcd"),
                What::Flush => ts.flush().map(|_| 1),
            };
            let wall = first.elapsed();
            let s = state.borrow();
            let handed = if *what == What::Read { s.read_timeout } else { s.write_timeout };
            o.sub += 1;
            let kind = res.as_ref().err().map(|e| e.kind());
            if let Some(limit) = side.limit {
                let left_at_most = limit.saturating_sub(side.inside);
                let left_at_least = limit.saturating_sub(wall).saturating_sub(tol);
                if s.called > 0 {
                    let h = match handed {
                        Some(h) => h,
                        None => return Err(Fail::Hard(format!("operation {}: no timeout is set, the limit is {:?}", i, limit))),
                    };
                    ensure!(
                        h <= left_at_most + Duration::from_micros(1500),
                        "operation {} ({:?}): a timeout of {:?} is handed on, at most {:?} is left of the limit of {:?}",
                        i, what, h, left_at_most, limit
                    );
                    ensure!(
                        h >= left_at_least,
                        "operation {} ({:?}): a timeout of {:?} is handed on, at least {:?} is left of the limit of {:?}",
                        i, what, h, left_at_least, limit
                    );
                } else {
                    ensure!(
                        left_at_least.is_zero(),
                        "operation {} ({:?}) fails with {:?} at once, at least {:?} is left of the limit of {:?}",
                        i, what, kind, left_at_least, limit
                    );
                    ensure!(kind == Some(io::ErrorKind::TimedOut), "operation {} is not carried out and gives {:?}", i, kind);
                    o.class("the limit was over");
                    o.nontrivial(true);
                }
                side.inside += s.inside;
            } else {
                ensure!(s.called > 0, "operation {} ({:?}), without a limit, is not carried out: {:?}", i, what, kind);
            }
            if s.called > 0 {
                ensure!(s.called == 1, "operation {} is carried out {} times", i, s.called);
                let want = match out {
                    Out::Some => None,
                    Out::Interrupted => Some(io::ErrorKind::Interrupted),
                    Out::Expire if side.limit.is_some() => Some(io::ErrorKind::TimedOut),
                    Out::Expire => Some(io::ErrorKind::WouldBlock),
                    Out::Reset => Some(io::ErrorKind::ConnectionReset),
                };
                ensure!(kind == want, "operation {} gives {:?}, the stream gave {:?}", i, kind, want);
            }
        }
        o.nontrivial(c.ops.len() > 2);
        Ok(())
    }

    pub fn strategy() -> impl Strategy<Value = Ops> {
        let limit = || {
            prop_oneof![
                1 => Just(None),
                6 => (500u64..40_000).prop_map(Some),
                3 => (40_000u64..4_000_000).prop_map(Some),
                1 => select(vec![999_000u64, 1_000_000, 1_000_001, 1_999_999, 2_500_000, 60_000_000]).prop_map(Some),
            ]
        };
        let op = (
            select(vec![What::Read, What::Read, What::Write, What::Write, What::Flush]),
            prop_oneof![2 => Just(0u32), 3 => 1u32..4000, 1 => 4000u32..15_000],
            prop_oneof![8 => Just(Out::Some), 1 => Just(Out::Interrupted), 1 => Just(Out::Expire), 1 => Just(Out::Reset)],
        );
        (limit(), limit(), proptest::collection::vec(op, 1..14), prop_oneof![3 => Just(0u32), 1 => 1u32..3000])
            .prop_map(|(read_us, write_us, ops, between)| Ops { read_us, write_us, ops, between })
    }
}

pub fn c13() -> Property {
    #[allow(unused_mut)]
    let mut suites = vec![];
    #[cfg(wruster_verif)]
    suites.push(suite(
        Opts {
            name: "mock-stream",
            rule: "three operations or more, or the limit is used up",
            quick: 3200,
            thorough: 100_000,
            shards: 8,
            shrink: 300,
            pure: false,
        },
        |_| mock::strategy().boxed(),
        |_, c: &mock::Ops, o| mock::run(c, o),
    ));
    suites.push(suite(
        Opts {
            name: "server",
            rule: "two or more clients whose timing went as planned were judged",
            quick: 64,
            thorough: 2400,
            shards: 8,
            shrink: 12,
            pure: false,
        },
        |_| {
            (
                prop_oneof![2 => 300u32..1000, 3 => 1000u32..2200, 1 => select(vec![1000u32, 1999, 2000])],
                prop_oneof![2 => 500u32..1000, 3 => 1000u32..2200],
                proptest::bool::weighted(0.35),
                proptest::collection::vec(kind(), 6..14),
            )
                .prop_map(|(read_ms, write_ms, tls, clients)| Limits { read_ms, write_ms, tls, clients })
                .boxed()
        },
        |ctx, l: &Limits, o| limits(ctx, l, o),
    ));
    Property {
        id: "C13",
        suites,
        assumptions: &[
            "a connection may be closed up to 4 s after its limit passed, and a request counts as late from 0.3 s after it",
            "clients whose own timing did not go as planned are not judged",
        ],
    }
}
