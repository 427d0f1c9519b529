//! C05: writing messages.
use crate::fw::*;
use crate::gen::*;
use crate::io_mocks::*;
use crate::refhttp::{self, show};
use crate::{ensure, hard};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::io::{Cursor, Read};
use std::str::FromStr;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, Request, Response, StatusCode};

/// How the message is made.
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
pub enum Make {
    FromStr,
    FromContent,
    FromStatus,
    /// A response put together by hand; the flag: with its own Content-Length.
    RespByHand(bool),
    RespNoBody(bool),
    RequestFromBody,
    /// A request put together by hand, with its own Content-Length.
    ReqByHand,
    ReqNoBody(bool),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct WCase {
    pub make: Make,
    pub status: u16,
    pub method: usize,
    pub target: String,
    pub v10: bool,
    pub headers: Vec<Hdr>,
    pub clen_spell: u64,
    pub mime: Option<String>,
    pub body: Blob,
    /// How the content arrives from its source.
    pub src_chunks: Vec<u16>,
    /// Extra bytes the source has beyond the declared length.
    pub src_extra: usize,
    pub sink_chunks: Vec<u16>,
}

enum Msg {
    Req(Request),
    Resp(Response),
}
impl Msg {
    fn write(self, s: &mut Sink) -> Result<(), String> {
        match self {
            Msg::Req(q) => q.write(s).map_err(|e| e.to_string()),
            Msg::Resp(mut r) => r.write(s).map_err(|e| e.to_string()),
        }
    }
}

fn is_req(m: Make) -> bool {
    matches!(m, Make::RequestFromBody | Make::ReqByHand | Make::ReqNoBody(_))
}

fn text_of(b: &Blob) -> String {
    (0..b.len).map(|i| (b' ' + Blob::byte(b.seed, i) % 95) as char).collect()
}

fn wcase(max: usize) -> BoxedStrategy<WCase> {
    let make = prop_oneof![
        2 => Just(Make::FromStr), 2 => Just(Make::FromContent), 1 => Just(Make::FromStatus),
        3 => any::<bool>().prop_map(Make::RespByHand), 1 => any::<bool>().prop_map(Make::RespNoBody),
        3 => Just(Make::RequestFromBody), 2 => Just(Make::ReqByHand), 1 => any::<bool>().prop_map(Make::ReqNoBody),
    ];
    (
        (make, prop_oneof![100u16..600, 100u16..1000], 0usize..9, target(), any::<bool>()),
        (hdrs(4), any::<u64>(), proptest::option::of(mimes()), blob(max)),
        (chunks(), prop_oneof![3 => Just(0usize), 1 => 1usize..9000], chunks()),
    )
        .prop_map(|((make, status, method, target, v10), (headers, clen_spell, mime, body), (src_chunks, src_extra, sink_chunks))| WCase {
            make, status, method, target, v10, headers, clen_spell, mime, body, src_chunks, src_extra, sink_chunks,
        })
        .boxed()
}

impl WCase {
    fn declares_itself(&self) -> bool {
        matches!(self.make, Make::RespByHand(true) | Make::RespNoBody(true) | Make::ReqByHand | Make::ReqNoBody(true))
    }
    fn has_body(&self) -> bool {
        !matches!(self.make, Make::FromStatus | Make::RespNoBody(_) | Make::ReqNoBody(_))
    }
    fn by_hand(&self) -> bool {
        matches!(self.make, Make::RespByHand(_) | Make::RespNoBody(_) | Make::ReqByHand | Make::ReqNoBody(_))
    }
    fn content(&self) -> Vec<u8> {
        if !self.has_body() {
            vec![]
        } else if self.make == Make::FromStr {
            text_of(&self.body).into_bytes()
        } else {
            self.body.bytes()
        }
    }
    /// The message, its content read from `src`.
    fn build(&self, src: Box<dyn Read>) -> Msg {
        let mut h = Headers::new();
        for x in &self.headers {
            h.add(Header { name: x.name.clone(), value: x.value.clone() });
        }
        let n = self.content().len();
        if self.declares_itself() {
            h.add(Header { name: respell("Content-Length", self.clen_spell), value: n.to_string() });
        }
        let ct = self.mime.as_ref().map(|m| m.parse::<mime::Mime>().unwrap());
        let body = |src| Some(Body::new(ct.clone(), n as u64, src));
        let version = if self.v10 { "HTTP/1.0" } else { "HTTP/1.1" }.to_string();
        let m = method_of(self.method);
        match self.make {
            Make::FromStr => Msg::Resp(Response::from_str(&text_of(&self.body)).unwrap()),
            Make::FromContent => Msg::Resp(Response::from_content(src, n as u64, ct.unwrap_or(mime::TEXT_PLAIN))),
            Make::FromStatus => Msg::Resp(Response::from_status(StatusCode::from(self.status as usize))),
            Make::RespByHand(_) => Msg::Resp(Response { status: StatusCode::from(self.status as usize), headers: h, body: body(src) }),
            Make::RespNoBody(_) => Msg::Resp(Response { status: StatusCode::from(self.status as usize), headers: h, body: None }),
            Make::RequestFromBody => Msg::Req(Request::from_body(body(src).unwrap(), m, &self.target)),
            Make::ReqByHand => Msg::Req(Request { method: m, uri: self.target.clone(), version, headers: h, body: body(src) }),
            Make::ReqNoBody(_) => Msg::Req(Request { method: m, uri: self.target.clone(), version, headers: h, body: None }),
        }
    }
    fn source(&self) -> Box<dyn Read> {
        let mut d = self.content();
        d.extend(Blob { len: self.src_extra, seed: 77 }.bytes());
        Box::new(FragReader::new(d, &self.src_chunks, End::Eof))
    }
    fn start_line_ok(&self, start: &str) -> Result<(), String> {
        if is_req(self.make) {
            let v = if self.v10 && self.by_hand() { "HTTP/1.0" } else { "HTTP/1.1" };
            let want = format!("{} {} {}", METHODS[self.method], self.target, v);
            if start != want {
                return Err(format!("start line {:?}, should be {:?}", start, want));
            }
        } else {
            let st = if matches!(self.make, Make::FromStr | Make::FromContent) { 200 } else { self.status };
            let want = format!("HTTP/1.1 {:03} ", st);
            if !start.starts_with(&want) && start != want.trim_end() {
                return Err(format!("status line {:?}, should begin with {:?}", start, want));
            }
        }
        Ok(())
    }
    /// The fields the message must carry besides Content-Length (and, where the library adds it, Content-Type).
    fn fields(&self) -> Vec<(String, String)> {
        if self.by_hand() {
            self.headers.iter().map(|h| (h.name.clone(), h.value.clone())).collect()
        } else {
            vec![]
        }
    }
    fn check_output(&self, out: &[u8]) -> Result<(), String> {
        let m = refhttp::parse(out)?;
        if m.used != out.len() {
            return Err(format!("{} bytes follow the message (Content-Length {:?}): {:?}", out.len() - m.used, m.all("content-length"), show(out)));
        }
        self.start_line_ok(&m.start)?;
        if m.body != self.content() {
            return Err(format!("the body written has {} bytes, the content {}; or they differ", m.body.len(), self.content().len()));
        }
        let mut got: Vec<(String, String)> = m
            .headers
            .iter()
            .filter(|h| !h.0.eq_ignore_ascii_case("content-length"))
            .filter(|h| self.by_hand() || !h.0.eq_ignore_ascii_case("content-type"))
            .map(|h| (h.0.to_ascii_lowercase(), h.1.clone()))
            .collect();
        let mut want: Vec<(String, String)> = self.fields().into_iter().map(|h| (h.0.to_ascii_lowercase(), h.1)).collect();
        // Order is kept per name only.
        got.sort_by(|a, b| a.0.cmp(&b.0));
        want.sort_by(|a, b| a.0.cmp(&b.0));
        if self.headers.iter().any(|h| self.headers.iter().any(|g| g.name != h.name && g.name.eq_ignore_ascii_case(&h.name))) {
            got.sort();
            want.sort();
        }
        if got != want {
            return Err(format!("header fields {:?} written for {:?}", got, want));
        }
        if matches!(self.make, Make::FromContent | Make::RequestFromBody) {
            if let Some(ct) = &self.mime {
                if m.all("content-type") != vec![ct.as_str()] {
                    return Err(format!("Content-Type {:?} for {:?}", m.all("content-type"), ct));
                }
            }
        }
        Ok(())
    }
}

fn c05_write(_: &Ctx, c: &WCase, o: &mut Obs) -> R {
    let mut sink = Sink::new(&c.sink_chunks, SinkEnd::Never);
    let msg = c.build(c.source());
    match no_panic(|| msg.write(&mut sink)) {
        Err(p) => hard!("writing panics: {}", p),
        Ok(Err(e)) => hard!("writing to a sink that takes everything fails: {}", e),
        Ok(Ok(())) => (),
    }
    if let Err(e) = c.check_output(&sink.data) {
        hard!("{:?} with {} content bytes: {}", c.make, c.content().len(), e);
    }
    // Read back with the library itself.
    let want = c.content();
    let rd = FragReader::new(sink.data.clone(), &c.src_chunks, End::Eof);
    let (headers, body) = if is_req(c.make) {
        let q = match no_panic(|| Request::read_from(rd)) {
            Ok(Ok(q)) => q,
            x => hard!("what was written cannot be read back: {:?} {:?}", x.map(|r| r.map(|_| ())), show(&sink.data)),
        };
        ensure!(q.method.to_string() == METHODS[c.method] && q.uri == c.target, "read back as {} {}", q.method, q.uri);
        (q.headers, q.body)
    } else {
        let q = match no_panic(|| Response::read_from(rd)) {
            Ok(Ok(q)) => q,
            x => hard!("what was written cannot be read back: {:?} {:?}", x.map(|r| r.map(|_| ())), show(&sink.data)),
        };
        (q.headers, q.body)
    };
    ensure!(body.is_some() == !want.is_empty(), "read back with a body: {}, {} bytes were written", body.is_some(), want.len());
    if let Some(mut b) = body {
        let mut got = Vec::new();
        if let Err(e) = b.read_to_end(&mut got) {
            hard!("reading back the body fails: {}", e);
        }
        ensure!(got == want, "the body read back differs");
    }
    for (n, v) in c.fields() {
        ensure!(headers.get(&n).is_some_and(|g| g.contains(&v)), "header {} {:?} is not read back", n, v);
    }
    o.nontrivial(c.has_body() || !c.headers.is_empty());
    o.class(format!("{:?}", c.make));
    o.class_if(!c.sink_chunks.is_empty(), "sink takes parts");
    o.class_if(c.sink_chunks.contains(&0), "sink interrupts");
    o.class_if(c.has_body() && c.src_extra > 0 && c.make != Make::FromStr, "source longer than declared");
    o.class_if(want.len() > 2 << 20, "over 2 MiB");
    o.class_if(want.is_empty() && c.has_body(), "empty body");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Fault {
    /// The sink fails after a share (in 1/65536) of the message.
    SinkErr(u16),
    SinkZero(u16),
    /// The sink fails this many bytes before the end.
    SinkErrBeforeEnd(usize),
    /// The source ends, or fails, before the declared length.
    Short(usize, End),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FaultCase {
    pub w: WCase,
    pub fault: Fault,
}

fn c05_fault(_: &Ctx, c: &FaultCase, o: &mut Obs) -> R {
    let mut whole = Sink::new(&[], SinkEnd::Never);
    if let Err(e) = c.w.build(c.w.source()).write(&mut whole) {
        hard!("writing to a sink that takes everything fails: {}", e);
    }
    let total = whole.data.len();
    let at = |p: u16| (total - 1) * p as usize / 65535;
    let mut src = c.w.source();
    let end = match &c.fault {
        Fault::SinkErr(p) => SinkEnd::ErrAt(at(*p)),
        Fault::SinkZero(p) => SinkEnd::ZeroAt(at(*p)),
        Fault::SinkErrBeforeEnd(n) => SinkEnd::ErrAt(total.saturating_sub(1 + n % total)),
        Fault::Short(n, end) => {
            let mut d = c.w.content();
            if d.is_empty() || c.w.make == Make::FromStr {
                return Ok(());
            }
            let k = d.len() - 1 - n % d.len();
            d.truncate(k);
            src = Box::new(FragReader::new(d, &c.w.src_chunks, *end));
            SinkEnd::Never
        }
    };
    let mut sink = Sink::new(&c.w.sink_chunks, end);
    let msg = c.w.build(src);
    match no_panic(|| msg.write(&mut sink)) {
        Err(p) => hard!("writing panics: {}", p),
        Ok(Ok(())) => hard!("{:?}, message of {} bytes: {:?} is reported as success ({} bytes taken)", c.w.make, total, end, sink.data.len()),
        Ok(Err(_)) => (),
    }
    // What was taken is the beginning of the message, as far as the order of the header fields is fixed.
    if c.w.headers.len() <= 1 && !c.w.has_body() {
        ensure!(sink.data.len() <= total, "more bytes written than the message has");
    }
    o.nontrivial(true);
    o.class(match &c.fault {
        Fault::SinkErr(_) => "sink error",
        Fault::SinkZero(_) => "sink takes nothing more",
        Fault::SinkErrBeforeEnd(_) => "sink error near the end",
        Fault::Short(_, End::Eof) => "content too short",
        Fault::Short(..) => "content fails",
    });
    o.class_if(c.w.content().len() > 2 << 20, "over 2 MiB");
    Ok(())
}

/// Every fault position of a small message, and bodies alone.
fn c05_every(_: &Ctx, w: &WCase, o: &mut Obs) -> R {
    let mut whole = Sink::new(&[], SinkEnd::Never);
    if let Err(e) = w.build(w.source()).write(&mut whole) {
        hard!("writing to a sink that takes everything fails: {}", e);
    }
    let total = whole.data.len();
    for n in 0..total {
        for zero in [false, true] {
            let end = if zero { SinkEnd::ZeroAt(n) } else { SinkEnd::ErrAt(n) };
            let mut sink = Sink::new(&w.sink_chunks, end);
            match no_panic(|| w.build(w.source()).write(&mut sink)) {
                Err(p) => hard!("writing panics: {}", p),
                Ok(Ok(())) => hard!("{:?}, message of {} bytes: {:?} is reported as success", w.make, total, end),
                Ok(Err(_)) => (),
            }
            o.sub += 1;
        }
    }
    let data = w.content();
    let mut sink = Sink::new(&w.sink_chunks, SinkEnd::Never);
    let mut b = Body::new(None, data.len() as u64, Box::new(Cursor::new(data.clone())));
    match b.write(&mut sink) {
        Ok(()) => ensure!(sink.data == data, "Body::write wrote {} bytes of {}", sink.data.len(), data.len()),
        Err(e) => hard!("Body::write fails: {}", e),
    }
    o.nontrivial(true);
    Ok(())
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        assumptions: &[
            "a request made with Request::from (or by hand) with a body and no Content-Length is a known finding, pinned by the repository's own test http_request_write",
            "a message whose own Content-Length header contradicts its body is the caller's mistake and not generated",
            "HEAD, 204 and 304 are not treated specially",
        ],
        suites: vec![
            suite(
                Opts { name: "whole", rule: "responses (from_str, from_content, from_status, by hand with and without Content-Length) and requests (from_body, by hand), any headers, bodies from fragmenting, interrupting and over-long sources, to sinks that take parts and interrupt; non-trivial: has a body or headers", quick: 120_000, thorough: 2_000_000, shards: 8, shrink: 3000, pure: true },
                |_| wcase(20_000),
                c05_write,
            ),
            suite(
                Opts { name: "large", rule: "the same with bodies up to 3 MiB around the 2 MiB switch of the writing method", quick: 800, thorough: 20_000, shards: 8, shrink: 200, pure: true },
                |_| wcase(3 * (1 << 20) + 5).prop_map(|mut w| {
                    // One-byte steps over megabytes only cost time.
                    if w.sink_chunks == [1] { w.sink_chunks = vec![]; }
                    w.sink_chunks.iter_mut().for_each(|c| if *c > 0 { *c = c.saturating_mul(50).max(1000) });
                    w.src_chunks.iter_mut().for_each(|c| if *c > 0 { *c = c.saturating_mul(50).max(1000) });
                    w
                }).boxed(),
                c05_write,
            ),
            suite(
                Opts { name: "fault", rule: "the same messages, the sink failing or refusing at any byte, the content ending or failing early; every one non-trivial", quick: 120_000, thorough: 2_000_000, shards: 8, shrink: 3000, pure: true },
                |_| fault_case(20_000, false),
                c05_fault,
            ),
            suite(
                Opts { name: "fault-large", rule: "the same with bodies up to 3 MiB", quick: 800, thorough: 20_000, shards: 8, shrink: 200, pure: true },
                |_| fault_case(3 * (1 << 20) + 5, true),
                c05_fault,
            ),
            suite(
                Opts { name: "every-byte", rule: "small messages, a sink error and a refusal at every single byte", quick: 3_000, thorough: 60_000, shards: 8, shrink: 500, pure: true },
                |_| wcase(60).prop_map(|mut w| { w.headers.iter_mut().for_each(|h| h.value.truncate(30)); w.target.truncate(30); w.body.len %= 200; w }).boxed(),
                c05_every,
            ),
            crate::huge::write_suite(),
        ],
    }
}

fn fault_case(max: usize, coarse: bool) -> BoxedStrategy<FaultCase> {
    let f = prop_oneof![
        3 => any::<u16>().prop_map(Fault::SinkErr),
        1 => any::<u16>().prop_map(Fault::SinkZero),
        2 => prop_oneof![0usize..4, 0usize..200, size(1 << 21)].prop_map(Fault::SinkErrBeforeEnd),
        3 => (prop_oneof![0usize..4, any::<usize>()], end()).prop_map(|(n, e)| Fault::Short(n, e)),
    ];
    (wcase(max), f)
        .prop_map(move |(mut w, fault)| {
            if coarse {
                w.sink_chunks = vec![];
                w.src_chunks = vec![];
            }
            FaultCase { w, fault }
        })
        .boxed()
}

/// The known finding: a request with a body and no Content-Length is written
/// without a length. True while it is still so.
pub fn known_request_from() -> bool {
    let q = Request::from("body", mime::TEXT_PLAIN, method_of(2), "/x".into());
    let mut out = Vec::new();
    q.write(&mut out).is_ok() && refhttp::parse(&out).is_err()
}
