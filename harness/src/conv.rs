//! C10 C19 C24: conversations over one or many connections, plain and TLS.
use crate::conn::*;
use crate::fw::*;
use crate::gen::*;
use crate::refhttp::show;
use crate::srv::*;
use crate::{hard, soft};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::time::{Duration, Instant};
use wruster::router::HttpHandler;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Tail {
    HalfClose,
    Close,
    /// Bytes that are no request.
    Garbage(String),
    /// This share (1/65536) of a request, then the end of the stream.
    Partial(u16),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Talk {
    /// The request, and whether the answer to it is awaited before the next is sent.
    pub reqs: Vec<(Rq, bool)>,
    pub tail: Tail,
    pub frag: Vec<u16>,
    pub gap_us: u64,
    pub read_size: usize,
    pub read_gap_us: u64,
    pub tls12: bool,
    pub max_fragment: Option<usize>,
    #[serde(default)]
    pub slow: Option<Slow>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Slow {
    rcvbuf: u32,
    /// The server's send buffer.
    sndbuf: u32,
    /// Stops reading for this long.
    ms: u16,
    /// When this much of the responses is left; at the start if none.
    left: Option<u32>,
}

/// Malformed where the reader gets to know it: it reads a request line up to
/// its spaces, so a line without them only fails with the end of the stream.
fn garbage() -> BoxedStrategy<String> {
    select(vec![
        "BAD / HTTP/1.1\r\n\r\n", "get /c0/r0 HTTP/1.1\r\n\r\n", "GET  HTTP/1.1\r\n\r\n", "GET /c0/r0 HTTP/x.y\r\n\r\n", "GET /c0/r0 HTTP/1.1\r\nNoColon\r\n\r\n",
        "GET /c0/r0 HTTP/1.1\r\n: x\r\n\r\n", "GET /c0/r0 HTTP/1.1\r\nContent-Length: x\r\n\r\n", "POST /c0/r0 HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n",
        "\r\n\r\n  ", "GET /c0/r0 HTTP/1.1\r\nA: \u{1}\r\n\r\n", "\u{16}\u{3} \u{1}\u{2} \r\n\r\n",
    ])
    .prop_map(|s| s.to_string())
    .boxed()
}

pub fn talk(max_reqs: usize, max_body: usize, max_resp: usize, min_reqs: usize) -> BoxedStrategy<Talk> {
    let tail = prop_oneof![
        3 => Just(Tail::HalfClose), 1 => Just(Tail::Close), 2 => garbage().prop_map(Tail::Garbage), 2 => any::<u16>().prop_map(Tail::Partial),
    ];
    let frag = prop_oneof![
        3 => Just(vec![]),
        2 => vec(prop_oneof![3 => 1u16..60, 1 => 60u16..5000, 1 => select(vec![8191u16, 8192, 8193, 16384, 16385])], 1..5),
    ];
    (
        prop_oneof![1 => Just(None), 2 => any::<bool>().prop_map(Some)]
            .prop_flat_map(move |all| vec((rq(max_body, max_resp), any::<bool>()), min_reqs..=max_reqs).prop_map(move |mut v| {
                if let Some(w) = all {
                    v.iter_mut().for_each(|r| r.1 = w);
                }
                v
            })),
        tail,
        frag,
        prop_oneof![2 => Just(0u64), 1 => 1u64..400],
        prop_oneof![3 => Just(65536usize), 1 => 1usize..2000],
        prop_oneof![4 => Just(0u64), 1 => 1u64..200],
        any::<bool>(),
        prop_oneof![2 => Just(None), 1 => (64usize..16384).prop_map(Some)],
        proptest::bool::weighted(0.4),
    )
        .prop_map(|(mut reqs, tail, frag, gap_us, read_size, read_gap_us, tls12, max_fragment, keep)| {
            // In many conversations only the last request may end the connection.
            if keep {
                let n = reqs.len();
                for (r, _) in reqs.iter_mut().take(n.saturating_sub(1)) {
                    if !r.persistent() {
                        r.conn = if r.v10 { Some(("keep-alive".into(), 0)) } else { None };
                    }
                }
            }
            Talk { reqs, tail, frag, gap_us, read_size, read_gap_us, tls12, max_fragment, slow: None }
        })
        .boxed()
}

/// Conversations whose client does not read for a while, with responses larger
/// than the socket buffers.
pub fn slow_talk() -> BoxedStrategy<Talk> {
    (
        talk(3, 20_000, 20_000, 1),
        prop_oneof![1 => 65_536usize..1 << 20, 1 => 2usize << 20..3 << 20],
        any::<bool>(),
        (select(vec![2304u32, 20_000, 60_000]), 2304u32..60_000, 1u16..60, proptest::option::weighted(0.8, 0u32..200_000)),
    )
        .prop_map(|(mut t, len, by_hand, (rcvbuf, sndbuf, ms, left))| {
            t.slow = Some(Slow { rcvbuf, sndbuf, ms, left });
            let l = t.reqs.len() - 1;
            let blob = crate::io_mocks::Blob { len, seed: sndbuf as u8 };
            t.reqs[l].0.rsp = if by_hand { Rsp::ByHand(200, blob, false) } else { Rsp::Content(blob) };
            t.read_gap_us = 0;
            t.read_size = 65536;
            t
        })
        .boxed()
}

/// Conversations of many small requests on one connection.
pub fn long_talk(max: usize) -> BoxedStrategy<Talk> {
    (talk(max, 400, 400, max / 8), proptest::bool::weighted(0.9), prop_oneof![1 => Just(None), 2 => Just(Some(false)), 1 => Just(Some(true))])
        .prop_map(|(mut t, keep, wait)| {
            let n = t.reqs.len();
            for (k, (r, w)) in t.reqs.iter_mut().enumerate() {
                if keep && k + 1 < n && !r.persistent() {
                    r.conn = if r.v10 { Some(("keep-alive".into(), 0)) } else { None };
                }
                *w = wait.unwrap_or(*w);
            }
            t
        })
        .boxed()
}

impl Talk {
    /// Index of the first request after whose response the connection is to be closed.
    fn last(&self) -> Option<usize> {
        self.reqs.iter().position(|r| !r.0.persistent())
    }
    fn pace(&self, total: usize) -> Pace {
        let mut p = Pace { frag: self.frag.clone(), gap_us: self.gap_us, read_size: self.read_size, read_gap_us: self.read_gap_us };
        // Keeps the time for a conversation within a second or so.
        if !p.frag.is_empty() {
            let avg = p.frag.iter().map(|x| *x as usize).sum::<usize>() / p.frag.len() + 1;
            let n = (total / avg + 1) as u64;
            p.gap_us = p.gap_us.min(400_000 / n);
        }
        let want: usize = self.reqs.iter().enumerate().map(|(k, r)| r.0.response(0, k).1.len() + 100).sum();
        let n = (want / p.read_size + 1) as u64;
        p.read_gap_us = p.read_gap_us.min(400_000 / n);
        if want > 200_000 {
            p.read_size = p.read_size.max(500);
        }
        p
    }
}

fn check_msg(t: &Talk, c: usize, k: usize, m: &crate::refhttp::Msg) -> R {
    let rq = &t.reqs[k].0;
    let (status, body) = rq.response(c, k);
    if m.status() != Some(status) {
        hard!("response {} of connection {}: status line {:?}, the handler's status is {}; body {:?}", k, c, m.start, status, show(&m.body));
    }
    if m.body != body {
        hard!("response {} of connection {}: body of {} bytes {:?}, the handler's has {} {:?}", k, c, m.body.len(), show(&m.body), body.len(), show(&body));
    }
    if matches!(rq.rsp, Rsp::ByHand(..) | Rsp::Echo) && m.all("x-id") != vec![format!("{}/{}", c, k)] {
        hard!("response {} of connection {}: X-Id {:?}", k, c, m.all("x-id"));
    }
    Ok(())
}

/// Carries out one conversation and compares it with what must happen.
pub fn converse(t: &Talk, c: usize, plan: &Arc<Plan>, srv_addr: &str, tls: bool, o: &mut Obs) -> R {
    let conn = match &t.slow {
        None => Conn::connect(srv_addr),
        Some(s) => Conn::connect_small(srv_addr, s.rcvbuf),
    };
    let mut conn = match conn {
        Ok(x) => x,
        Err(e) => soft!("cannot connect: {}", e),
    };
    if tls {
        conn = conn.with_tls(tls_client(t.max_fragment, t.tls12));
    }
    let wire: Vec<Vec<u8>> = t.reqs.iter().enumerate().map(|(k, r)| r.0.render(c, k)).collect();
    conn.pace = t.pace(wire.iter().map(|w| w.len()).sum());
    let n = t.reqs.len();
    let last = t.last();
    let expect = last.map(|l| l + 1).unwrap_or(n);
    if let Some(s) = &t.slow {
        if !conn.shrink_peer(s.sndbuf) {
            soft!("the server does not accept the connection");
        }
    }
    let hold_at = t.slow.as_ref().and_then(|s| s.left).map(|left| {
        let total: usize = t.reqs.iter().enumerate().take(expect).map(|(k, r)| r.0.response(c, k).1.len() + 80).sum();
        total as i64 - left as i64
    });
    let deadline = long();
    let mut extras = false;
    for k in 0..n {
        if conn.st != St::Open {
            break;
        }
        conn.send(&wire[k]);
        extras |= k >= expect;
        if let Some(Slow { ms, .. }) = t.slow {
            conn.until(deadline, |c| !c.pending_out());
            match hold_at {
                None => conn.hold(Duration::from_millis(ms as u64 / n as u64)),
                Some(at) if k + 1 == n => {
                    conn.until(deadline, |c| c.got_bytes as i64 >= at || c.msgs.len() >= expect);
                    conn.hold(Duration::from_millis(ms as u64));
                }
                _ => (),
            }
            if k + 1 == n {
                conn.until(Instant::now() + Duration::from_millis(ms as u64), |_| false);
                conn.widen();
            }
        }
        if t.reqs[k].1 {
            let want = (k + 1).min(expect);
            conn.until(deadline, |c| c.msgs.len() >= want && !c.pending_out());
        }
    }
    // All the answers, and the end if there is to be one.
    let done = conn.until(deadline, |c| c.msgs.len() >= expect);
    let lost_ok = extras && (conn.st == St::Reset || conn.wbroken);
    let mut tail_reached = false;
    if done && last.is_none() {
        tail_reached = true;
        conn.pump(Duration::from_millis(1));
        match &t.tail {
            Tail::HalfClose | Tail::Close => (),
            Tail::Garbage(g) => conn.send(g.as_bytes()),
            Tail::Partial(p) => {
                let w = b"POST /c0/r0 HTTP/1.1\r\nContent-Length: 10\r\n\r\n";
                let cut = (w.len() - 1) * *p as usize / 65535;
                conn.send(&w[..cut]);
            }
        }
        conn.until(deadline, |c| !c.pending_out());
        if conn.st != St::Open && matches!(t.tail, Tail::HalfClose | Tail::Close) {
            hard!("the connection ends after a persistent request: {}", conn.describe());
        }
        if !matches!(t.tail, Tail::Garbage(_)) {
            conn.finish_sending();
            conn.until(deadline, |c| !c.pending_out());
            if matches!(t.tail, Tail::Close) {
                let _ = conn.sock.shutdown(std::net::Shutdown::Both);
            } else {
                conn.half_close();
            }
        }
    }
    if done {
        conn.until(deadline, |_| false);
    }
    // Compare.
    if let Some(b) = &conn.bad {
        hard!("connection {}: what arrives is no HTTP message: {}; {}", c, b, conn.describe());
    }
    for (k, m) in conn.msgs.iter().take(expect).enumerate() {
        check_msg(t, c, k, m)?;
        plan_ok(plan, c, k, 1)?;
    }
    if conn.msgs.len() < expect {
        if lost_ok {
            soft!("connection {}: {} of {} responses arrive before the connection is reset with requests unread: {}", c, conn.msgs.len(), expect, conn.describe());
        }
        for k in 0..expect {
            plan.handled(c, k)?;
        }
        if conn.st == St::Open {
            soft!("connection {}: {} of {} responses arrive within {:?}: {}", c, conn.msgs.len(), expect, LONG, conn.describe());
        }
        hard!("connection {}: {} of {} responses arrive: {}", c, conn.msgs.len(), expect, conn.describe());
    }
    let more = &conn.msgs[conn.msgs.len().min(expect)..];
    if !more.is_empty() {
        let malformed = tail_reached && matches!(t.tail, Tail::Garbage(_) | Tail::Partial(_));
        if !(malformed && more.len() == 1 && more[0].status() == Some(400)) {
            hard!("connection {}: {} requests are to be answered, but more arrives: {:?} {:?}", c, expect, more[0].start, show(&more[0].body));
        }
    }
    if conn.st == St::Open {
        soft!("connection {}: not closed within {:?} ({})", c, LONG, if last.is_some() { "after the last response" } else { "after the client ended it or sent no request" });
    }
    if !conn.inb.is_empty() && !lost_ok && !matches!(t.tail, Tail::Close) {
        hard!("connection {}: bytes that are no response: {}", c, conn.describe());
    }
    if conn.st == St::Reset && !extras && !matches!(t.tail, Tail::Garbage(_)) && !(tls && tail_reached) {
        hard!("connection {}: reset instead of closed: {}", c, conn.describe());
    }
    for k in expect..n {
        plan_ok(plan, c, k, 0)?;
    }
    o.class_if(last.is_some(), "ended by a request");
    o.class_if(extras, "requests after the closing one");
    o.class_if(t.reqs.iter().take(expect).rev().skip(1).any(|r| !r.1), "pipelined");
    o.class_if(t.reqs.iter().any(|r| r.0.body.is_some()), "bodies");
    o.class_if(tail_reached && matches!(t.tail, Tail::Garbage(_)), "malformed at the end");
    o.class_if(lost_ok, "reset after extra requests");
    o.sub += expect as u64;
    Ok(())
}

fn plan_ok(plan: &Plan, c: usize, k: usize, want: usize) -> R {
    let h = plan.handled(c, k)?;
    if h != want {
        hard!("request {} of connection {} is handled {} times, should be {}", k, c, h, want);
    }
    Ok(())
}

pub fn one(ctx: &Ctx, t: &Talk, tls: Option<bool>, o: &mut Obs) -> R {
    one_with(ctx, t, tls, |h| h, o)
}

/// The same with the handlers wrapped in something that must not matter.
pub fn one_with(ctx: &Ctx, t: &Talk, tls: Option<bool>, wrap: impl Fn(HttpHandler) -> HttpHandler, o: &mut Obs) -> R {
    let plan = Plan::new(vec![t.reqs.iter().map(|r| r.0.clone()).collect()]);
    let srv = Srv::start(ctx, default_timeouts(), plan.routes_with(wrap), tls)?;
    let r = converse(t, 0, &plan, &srv.addr, tls.is_some(), o);
    if r.is_ok() {
        srv.stop(LONG)?;
    }
    r?;
    plan.no_strays()?;
    o.nontrivial(t.reqs.len() >= 2 || !t.frag.is_empty());
    Ok(())
}

pub fn c10() -> Property {
    Property {
        id: "C10",
        assumptions: &[
            "responses to HEAD requests carry the body the handler gave (the library does not treat HEAD specially)",
            "bytes sent after a request that ends the connection may make the kernel reset it, but only after the responses arrived (judged as repeatable: a client that is a second slower than planned may lose them)",
        ],
        suites: vec![
            suite(
                Opts { name: "conversations", rule: "1-8 requests on a connection to a real server, pipelined or one at a time, in generated fragments with pauses, bodies and responses around the 8 KiB buffer, handlers consuming nothing, part, all, dropping or echoing the body, any Connection header and version, ended by half-close, close, malformed or incomplete requests; non-trivial: at least two requests or fragmented", quick: 4_000, thorough: 120_000, shards: 8, shrink: 400, pure: false },
                |_| talk(8, 20_000, 20_000, 1),
                |ctx, t, o| one(ctx, t, None, o),
            ),
            suite(
                Opts { name: "large", rule: "the same with bodies up to 3 MiB", quick: 240, thorough: 6_000, shards: 8, shrink: 60, pure: false },
                |_| talk(4, 3 * (1 << 20) + 5, 3 * (1 << 20) + 5, 1),
                |ctx, t, o| one(ctx, t, None, o),
            ),
            suite(
                Opts { name: "long", rule: "40-320 small requests on one connection, nearly all of which keep it open, pipelined, one at a time or mixed; non-trivial: always", quick: 160, thorough: 4_000, shards: 8, shrink: 200, pure: false },
                |_| long_talk(320),
                |ctx, t, o| one(ctx, t, None, o),
            ),
            suite(
                Opts { name: "slow reader", rule: "1-3 requests with responses up to 3 MiB through small socket buffers to a client that for up to 60 ms reads nothing, at the start or when up to 200 KB are left; non-trivial: at least two requests or fragmented", quick: 240, thorough: 3_000, shards: 8, shrink: 30, pure: false },
                |_| slow_talk(),
                |ctx, t, o| one(ctx, t, None, o),
            ),
        ],
    }
}

// ---------------------------------------------------------------- C24

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Peer {
    Talk(Talk),
    /// Sends this share of a request and then stays silent.
    Stall(u16),
    /// Sends this share of a request and resets the connection.
    Reset(u16),
    /// Sends a request for a large response and does not read it.
    NoRead,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Crowd {
    pub peers: Vec<(Peer, u16)>,
    pub tls: bool,
}

fn crowd(max: usize) -> BoxedStrategy<Crowd> {
    let p = prop_oneof![
        6 => talk(4, 9000, 9000, 1).prop_map(|mut t| { t.read_gap_us = 0; Peer::Talk(t) }),
        1 => any::<u16>().prop_map(Peer::Stall),
        1 => any::<u16>().prop_map(Peer::Reset),
        1 => Just(Peer::NoRead),
    ];
    (vec((p, 0u16..3000), 2..=max), proptest::bool::weighted(0.2)).prop_map(|(peers, tls)| Crowd { peers, tls }).boxed()
}

fn c24_run(ctx: &Ctx, c: &Crowd, o: &mut Obs) -> R {
    let mut reqs = Vec::new();
    for (p, _) in &c.peers {
        reqs.push(match p {
            Peer::Talk(t) => t.reqs.iter().map(|r| r.0.clone()).collect(),
            Peer::NoRead => vec![Rq {
                method: 0, v10: false, conn: None, headers: vec![], clen_spell: 0, body: None, consume: Consume::Nothing,
                rsp: Rsp::Content(crate::io_mocks::Blob { len: 20 << 20, seed: 1 }), spoil: 0,
            }],
            _ => vec![],
        });
    }
    let plan = Plan::new(reqs);
    let tls = if c.tls { Some(false) } else { None };
    let srv = Srv::start(ctx, default_timeouts(), plan.routes(), tls)?;
    let mut held: Vec<Conn> = Vec::new();
    let mut threads = Vec::new();
    // A handler may see this one: it is called before the body arrives.
    let whole = b"POST /c99999/r9 HTTP/1.1\r\nContent-Length: 10\r\n\r\n012345678";
    for (i, (p, delay)) in c.peers.iter().enumerate() {
        match p {
            Peer::Talk(t) => {
                let (t, plan, addr, delay, is_tls) = (t.clone(), plan.clone(), srv.addr.clone(), *delay, c.tls);
                threads.push(std::thread::spawn(move || {
                    std::thread::sleep(Duration::from_micros(delay as u64));
                    let mut ob = Obs::default();
                    let r = converse(&t, i, &plan, &addr, is_tls, &mut ob);
                    (r, ob)
                }));
            }
            Peer::Stall(p) | Peer::Reset(p) => {
                let mut k = srv.connect()?;
                k.send(&whole[..whole.len() * (*p as usize) / 65536]);
                k.until(Instant::now() + Duration::from_secs(5), |c| !c.pending_out());
                if matches!(c.peers[i].0, Peer::Reset(_)) {
                    k.reset();
                } else {
                    held.push(k);
                }
            }
            Peer::NoRead => {
                let mut k = srv.connect()?;
                k.send(format!("GET {} HTTP/1.1\r\n\r\n", Rq::path(i, 0)).as_bytes());
                k.until(Instant::now() + Duration::from_secs(5), |c| !c.pending_out());
                held.push(k);
            }
        }
    }
    let mut res = Ok(());
    for t in threads {
        match t.join() {
            Ok((r, ob)) => {
                o.sub += ob.sub;
                if let Err(f) = r {
                    if !matches!(res, Err(Fail::Hard(_))) {
                        res = Err(f);
                    }
                }
            }
            Err(_) => hard!("harness thread panicked"),
        }
    }
    o.class_if(!held.is_empty(), "with stalled connections");
    o.class_if(c.tls, "TLS");
    o.class_if(c.peers.len() > 8, "more than 8 connections");
    o.class_if(c.peers.len() > 40, "more than 40 connections");
    o.nontrivial(c.peers.iter().filter(|p| matches!(p.0, Peer::Talk(_))).count() >= 2);
    drop(held);
    res?;
    srv.stop(LONG)?;
    plan.no_strays()
}

pub fn c24() -> Property {
    Property {
        id: "C24",
        assumptions: &["at most 95 simultaneous connections; the scheduler of the machine chooses the interleaving within the generated delays"],
        suites: vec![suite(
            Opts { name: "crowd", rule: "2-95 (mostly up to 8) simultaneous connections with conversations of their own, in fragments with delays, among stalled, resetting and non-reading ones, plain and TLS; non-trivial: at least two conversations at once", quick: 640, thorough: 16_000, shards: 4, shrink: 60, pure: false },
            |_| prop_oneof![24 => crowd(8), 7 => crowd(40), 1 => crowd(95)].boxed(),
            c24_run,
        )],
    }
}

// ---------------------------------------------------------------- C19

pub fn c19_talk(ctx: &Ctx, t: &(Talk, bool), o: &mut Obs) -> R {
    o.class(if t.1 { "RSA key" } else { "EC key" });
    o.class(if t.0.tls12 { "TLS 1.2" } else { "TLS 1.3" });
    o.class_if(t.0.reqs.iter().any(|r| r.0.body.as_ref().is_some_and(|b| b.len > 8192)), "request over 8 KiB");
    o.class_if(t.0.reqs.iter().any(|r| r.0.response(0, 0).1.len() > 65536), "response over 64 KiB");
    one(ctx, &t.0, Some(t.1), o)
}
