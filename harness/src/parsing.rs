//! C01 C02 C03 C04 C06: reading messages, headers and bodies.
use crate::fw::*;
use crate::gen::*;
use crate::io_mocks::*;
use crate::refhttp::{canon, head_end, show};
use crate::{ensure, hard};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::io::{BufReader, Read};
use wruster::http::errors::HttpError;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request, Response};

// ---------------------------------------------------------------- C01

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Mutn {
    Del(u16),
    Set(u16, u8),
    Ins(u16, u8),
    Cut(u16),
    Dup(u16, u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Src {
    Raw(Vec<u8>),
    /// Pieces of messages glued together.
    Pieces(Vec<u8>),
    Msg { req: bool, start: String, wire: Wire, muts: Vec<Mutn> },
}

const PIECES: [&str; 40] = [
    "GET ", "POST ", "/ ", "/a ", "HTTP/1.1\r\n", "HTTP/1.0", "HTTP/1.1 ", "200 ", "OK\r\n", "\r\n", "\r", "\n", ":", " ", "Foo", "Foo: bar\r\n", "Foo\r\n",
    "Content-Length: 5\r\n", "Content-Length: 0\r\n", "Content-Length:\r\n", "Transfer-Encoding: chunked\r\n", "Content-Type: x\r\n", "hello", "\u{0}", "é", "Content-Length: 18446744073709551616\r\n",
    "Content-Length: 99999999999\r\n", "content-length: 3\r\n", "HTTP/", "1.", "HTTP/1.1 200 \r\n", "HTTP/1.1 200 OK\r\n", "HTTP/1.1 20 OK\r\n", "GET / HTTP/1.1\r\n", "  ", "\r\n\r\n", "A:b\r\n", ":b\r\n",
    "Content-Type: text/plain\r\n", "HTTP/1.1 99999999999999999999999 OK\r\n",
];

fn src_bytes(s: &Src) -> Vec<u8> {
    match s {
        Src::Raw(v) => v.clone(),
        Src::Pieces(ix) => ix.iter().flat_map(|i| PIECES[*i as usize % PIECES.len()].bytes()).collect(),
        Src::Msg { start, wire, muts, .. } => {
            let mut d = wire.render(start);
            for m in muts {
                if d.is_empty() {
                    break;
                }
                // Most changes go to the head, where they matter.
                let hl = head_end(&d).unwrap_or(d.len()).min(400).max(1);
                let at = |p: u16| p as usize % hl;
                match m {
                    Mutn::Del(p) => {
                        d.remove(at(*p));
                    }
                    Mutn::Set(p, b) => {
                        let i = at(*p);
                        d[i] = *b
                    }
                    Mutn::Ins(p, b) => d.insert(at(*p), *b),
                    Mutn::Cut(p) => {
                        let n = *p as usize % (d.len() + 1);
                        d.truncate(n)
                    }
                    Mutn::Dup(p, n) => {
                        let i = at(*p);
                        let j = (i + *n as usize).min(d.len());
                        let part = d[i..j].to_vec();
                        let tail = d.split_off(j);
                        d.extend(part);
                        d.extend(tail);
                    }
                }
            }
            d
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C01 {
    pub src: Src,
    pub chunks: Vec<u16>,
    pub end: End,
}

fn ugly_byte() -> BoxedStrategy<u8> {
    prop_oneof![3 => select(b"\r\n :\t/,;.=\x00\x7f\x80\xff\x0b".to_vec()), 1 => any::<u8>()].boxed()
}

fn mutn() -> BoxedStrategy<Mutn> {
    prop_oneof![
        2 => any::<u16>().prop_map(Mutn::Del),
        3 => (any::<u16>(), ugly_byte()).prop_map(|(p, b)| Mutn::Set(p, b)),
        2 => (any::<u16>(), ugly_byte()).prop_map(|(p, b)| Mutn::Ins(p, b)),
        1 => any::<u16>().prop_map(Mutn::Cut),
        1 => (any::<u16>(), 1u8..60).prop_map(|(p, n)| Mutn::Dup(p, n)),
    ]
    .boxed()
}

fn c01_strat(_: &Ctx) -> BoxedStrategy<C01> {
    let req_start = (select(METHODS.to_vec()), target(), version()).prop_map(|(m, t, v)| format!("{} {} {}", m, t, v));
    let resp_start = (100u16..600, "[ -~]{0,12}").prop_map(|(s, r)| format!("HTTP/1.1 {} {}", s, r));
    let src = prop_oneof![
        1 => vec(ugly_byte(), 0..60).prop_map(Src::Raw),
        1 => vec(any::<u8>(), 0..120).prop_map(Src::Raw),
        4 => vec(0u8..40, 0..14).prop_map(Src::Pieces),
        4 => (req_start, wire(200), vec(mutn(), 0..4)).prop_map(|(start, wire, muts)| Src::Msg { req: true, start, wire, muts }),
        4 => (resp_start, wire(200), vec(mutn(), 0..4)).prop_map(|(start, wire, muts)| Src::Msg { req: false, start, wire, muts }),
    ];
    (src, chunks(), end()).prop_map(|(src, chunks, end)| C01 { src, chunks, end }).boxed()
}

/// Everything a reading tells, in a form that can be compared.
fn outcome(kind: usize, data: &[u8], chunks: &[u16], end: End) -> Result<String, String> {
    let r = FragReader::new(data.to_vec(), chunks, end);
    fn sorted(h: &Headers) -> Vec<(String, Vec<String>)> {
        let mut v: Vec<_> = h.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        v.sort();
        v
    }
    fn body(b: Option<Body>) -> String {
        match b {
            None => "none".into(),
            Some(mut b) => {
                let mut out = Vec::new();
                let r = b.read_to_end(&mut out).map(|_| ()).map_err(|e| e.kind());
                format!("{:?} {:?} {} {:?}", b.content_type, b.content_length, show(&out), r)
            }
        }
    }
    fn err(e: HttpError) -> String {
        match e {
            HttpError::Unknown(_) => "error Unknown".into(),
            HttpError::ConnectionClosed => "error ConnectionClosed".into(),
            HttpError::Timeout => "error Timeout".into(),
            HttpError::InvalidRequest(_) => "error InvalidRequest".into(),
        }
    }
    no_panic(move || match kind {
        0 => match Request::read_from(r) {
            Ok(q) => format!("ok {} {:?} {:?} {:?} {}", q.method, q.uri, q.version, sorted(&q.headers), body(q.body)),
            Err(e) => err(e),
        },
        1 => match Response::read_from(r) {
            Ok(q) => format!("ok {:?} {:?} {}", q.status, sorted(&q.headers), body(q.body)),
            Err(e) => err(e),
        },
        2 => match Headers::read_from(&mut BufReader::new(r)) {
            Ok(h) => format!("ok {:?}", sorted(&h)),
            Err(e) => err(e),
        },
        _ => match Header::read_from(&mut BufReader::new(r)) {
            Ok(h) => format!("ok {:?}", h.map(|h| (h.name, h.value))),
            Err(e) => err(e),
        },
    })
}

fn c01_run(_: &Ctx, c: &C01, o: &mut Obs) -> R {
    let data = src_bytes(&c.src);
    o.class(match &c.src {
        Src::Raw(_) => "raw",
        Src::Pieces(_) => "pieces",
        Src::Msg { .. } => "mutated message",
    });
    let after_start: Vec<u8> = match data.iter().position(|b| *b == b'\n') {
        Some(p) => data[p + 1..].to_vec(),
        None => data.clone(),
    };
    for kind in 0..4 {
        // Headers are also read on their own, from the second line on.
        let datas: Vec<&[u8]> = if kind >= 2 { vec![&data, &after_start] } else { vec![&data] };
        for d in datas {
            let what = ["Request", "Response", "Headers", "Header"][kind];
            let mut outs: Vec<String> = Vec::new();
            let single: Vec<u16> = vec![1];
            for ch in [&[][..], &c.chunks[..], &single[..]] {
                match outcome(kind, d, ch, c.end) {
                    Ok(s) => outs.push(s),
                    Err(p) => hard!("{}::read_from on {:?} (chunks {:?}, then {:?}) panics: {}", what, show(d), ch, c.end, p),
                }
            }
            // Two halves, at every place, when the input is short.
            if d.len() <= 90 && kind < 2 {
                for i in 1..d.len() {
                    match outcome(kind, d, &[i as u16, 60000], c.end) {
                        Ok(s) => outs.push(s),
                        Err(p) => hard!("{}::read_from on {:?} split at {} panics: {}", what, show(d), i, p),
                    }
                    o.sub += 1;
                }
            }
            for x in &outs {
                ensure!(*x == outs[0], "{}::read_from depends on how the bytes are split: {:?} then {:?}: {} / {}", what, show(d), c.end, outs[0], x);
            }
            o.sub += 3;
            let ok = outs[0].starts_with("ok");
            let complete = match kind {
                0 | 1 => head_end(d).is_some(),
                2 => d.starts_with(b"\r\n") || head_end(d).is_some(),
                _ => d.windows(2).any(|w| w == b"\r\n"),
            };
            ensure!(!ok || complete, "{}::read_from accepted {:?}, whose header block is not complete: {}", what, show(d), outs[0]);
            o.class_if(ok, &format!("{} accepted", what));
            if kind < 2 {
                o.class_if(!ok, &format!("{} {}", what, outs[0]));
                o.class_if(!complete, "header block incomplete");
            }
        }
    }
    o.nontrivial(data.len() >= 2);
    Ok(())
}

// ---------------------------------------------------------------- C02

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ReqCase {
    pub method: usize,
    pub target: String,
    pub version: String,
    pub wire: Wire,
    pub extra: Blob,
    pub chunks: Vec<u16>,
}

fn req_case(max_body: usize) -> BoxedStrategy<ReqCase> {
    (0usize..9, target(), version(), wire(max_body), blob(40), chunks())
        .prop_map(|(method, target, version, wire, extra, chunks)| ReqCase { method, target, version, wire, extra, chunks })
        .boxed()
}

fn fields(w: &Wire) -> Vec<(String, String)> {
    w.fields().into_iter().map(|h| (h.name, h.value)).collect()
}

fn c02_accept(_: &Ctx, c: &ReqCase, o: &mut Obs) -> R {
    let start = format!("{} {} {}", METHODS[c.method], c.target, c.version);
    let mut data = c.wire.render(&start);
    let whole = data.len();
    data.extend(c.extra.bytes());
    let r = FragReader::new(data.clone(), &c.chunks, End::Eof);
    let q = match no_panic(|| Request::read_from(r)) {
        Err(p) => hard!("panic on {:?}: {}", show(&data), p),
        Ok(Err(e)) => hard!("a well-formed request is refused: {:?}: {:?}", show(&data), e),
        Ok(Ok(q)) => q,
    };
    ensure!(q.method.to_string() == METHODS[c.method], "method {} reported as {}", METHODS[c.method], q.method);
    ensure!(q.uri == c.target, "target {:?} reported as {:?}", c.target, q.uri);
    ensure!(q.version == c.version, "version {:?} reported as {:?}", c.version, q.version);
    if let Err(e) = same_headers(&q.headers, &fields(&c.wire)) {
        hard!("{} for {:?}", e, show(&data));
    }
    let want = c.wire.body_bytes();
    let mut got = Vec::new();
    let mut b = q.body;
    ensure!(b.is_some() == c.wire.has_body(), "body present: {}, should be {}: {:?}", b.is_some(), c.wire.has_body(), show(&data));
    if let Some(b) = b.as_mut() {
        ensure!(b.content_length == want.len() as u64, "content_length {} for {}", b.content_length, want.len());
        let ct = b.content_type.as_ref().map(|m| m.to_string());
        ensure!(ct.as_deref().map(|s| s.to_string()) == c.wire.ctype.as_ref().map(|c| c.0.parse::<mime::Mime>().unwrap().to_string()), "content type {:?} for {:?}", ct, c.wire.ctype);
        if let Err(e) = b.read_to_end(&mut got) {
            hard!("reading the body of {:?} fails: {}", show(&data), e);
        }
    }
    ensure!(got == want, "the body differs: {} bytes read, {} sent; request {:?}", got.len(), want.len(), show(&data[..whole.min(400)]));
    o.nontrivial(!c.wire.fields().is_empty());
    o.class_if(c.wire.has_body(), "with body");
    o.class_if(c.wire.clen.is_some() && !c.wire.has_body(), "Content-Length 0");
    o.class_if(want.len() > 8192, "body over one buffer");
    o.class_if(c.wire.headers.len() >= 2 && {
        let mut n: Vec<_> = c.wire.headers.iter().map(|h| h.name.to_lowercase()).collect();
        n.sort();
        n.windows(2).any(|w| w[0] == w[1])
    }, "repeated header");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Bad {
    MethodLower(usize),
    MethodUnknown(String),
    MethodEmpty,
    LeadingCrlf,
    TargetEmpty,
    TargetCtl(usize, u8),
    Version(String),
    VersionMissing,
    NoCr,
    /// A header line without its CR; and another behind it.
    LineLf(bool),
    /// The empty line without its CR.
    EndLf,
    NoColon(String),
    EmptyName,
    BadNameChar(usize, u8),
    SpaceBeforeColon,
    ValueCtl(usize, u8),
    Fold,
    Clen(String),
    ClenTwice(bool),
    Te(String),
    TeTwice,
}
impl Bad {
    fn framing(&self) -> bool {
        matches!(self, Bad::Clen(_) | Bad::ClenTwice(_) | Bad::Te(_) | Bad::TeTwice)
    }
}

fn bad() -> BoxedStrategy<Bad> {
    let ctl_line = select((0u8..0x20).filter(|b| *b != b'\n').chain([0x7f]).collect::<Vec<u8>>());
    // In a value: control characters other than HTAB; CR LF would end the line.
    let ctl_val = select((0u8..0x20).filter(|b| *b != b'\t' && *b != b'\n' && *b != b'\r').chain([0x7f, b'\n', b'\r']).collect::<Vec<u8>>());
    let not_token = select((0u8..=255).filter(|b| !crate::refhttp::is_tchar(*b) && *b != b':' && *b != b'\n').collect::<Vec<u8>>());
    prop_oneof![
        (0usize..9).prop_map(Bad::MethodLower),
        "[A-Z]{1,8}".prop_filter("known", |m| !METHODS.contains(&m.as_str())).prop_map(Bad::MethodUnknown),
        select(vec!["GETT", "GE", "G", "gET", "POST,", "\u{0}GET", "PATCHX", "HEAD\t"]).prop_map(|s| Bad::MethodUnknown(s.to_string())),
        Just(Bad::MethodEmpty),
        Just(Bad::LeadingCrlf),
        Just(Bad::TargetEmpty),
        (0usize..40, ctl_line).prop_map(|(p, b)| Bad::TargetCtl(p, b)),
        select(vec!["HTTP/1.1x", "http/1.1", "HTTP/", "HTTP/1.", "1.1", "HTTP", "HTTP/1.1 ", " HTTP/1.1", "HTTP /1.1", "HTTP/a.b", "HTTP/1,1", "b HTTP/1.1", "HTTPS/1.1", "HTTP/1.1\t", "HTTP/-1.1", "HTTP/1.+1", "/1.1", "\u{0}HTTP/1.1", "HTTP//1.1", "HTTP/.1"])
            .prop_map(|s| Bad::Version(s.to_string())),
        Just(Bad::VersionMissing),
        Just(Bad::NoCr),
        any::<bool>().prop_map(Bad::LineLf),
        Just(Bad::EndLf),
        "[A-Za-z-]{1,10}".prop_map(Bad::NoColon),
        Just(Bad::EmptyName),
        (0usize..20, not_token).prop_map(|(p, b)| Bad::BadNameChar(p, b)),
        Just(Bad::SpaceBeforeColon),
        (0usize..20, ctl_val).prop_map(|(p, b)| Bad::ValueCtl(p, b)),
        Just(Bad::Fold),
        select(vec!["abc", "-1", "+4", "0x4", "4 4", "4,4", "4, 4", "4;", "18446744073709551616", "99999999999999999999999", "4.0", "4e0", "\"4\"", "٣"]).prop_map(|s| Bad::Clen(s.to_string())),
        any::<bool>().prop_map(Bad::ClenTwice),
        select(vec!["chunked", "gzip", "identity, chunked", "Chunked", "CHUNKED", "chunked, identity", "x"]).prop_map(|s| Bad::Te(s.to_string())),
        Just(Bad::TeTwice),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BadReq {
    pub method: usize,
    pub target: String,
    pub version: String,
    pub wire: Wire,
    pub bad: Bad,
    pub at: usize,
    pub spell: u64,
    pub chunks: Vec<u16>,
    /// How much comes before the fault in its part of the message, or, if the
    /// flag is set, after it.
    #[serde(default)]
    pub pad: (u32, bool),
}

/// Builds the head of a message with one fault; None if the fault does not apply.
fn bad_head(start: &str, c: &BadReq, request: bool) -> Option<Vec<u8>> {
    let mut w = c.wire.clone();
    w.te_identity = false;
    if c.bad.framing() {
        w.clen = None;
    }
    let mut lines: Vec<Vec<u8>> = w.fields().iter().map(|h| h.line().into_bytes()).collect();
    let at = c.at % (lines.len() + 1);
    let name_cl = respell("Content-Length", c.spell);
    let name_cl2 = respell("Content-Length", c.spell >> 7);
    let name_te = respell("Transfer-Encoding", c.spell >> 3);
    let mut first = start.as_bytes().to_vec();
    let mut eol: &[u8] = b"\r\n";
    let fill = vec![b'p'; c.pad.0 as usize];
    let padded = |v: Vec<u8>| if c.pad.1 { [v, fill.clone()].concat() } else { [fill.clone(), v].concat() };
    match &c.bad {
        Bad::NoCr => eol = b"\n",
        Bad::LineLf(next) => {
            let mut l = [&b"X-Name: "[..], &padded(b"value".to_vec()), b"\n"].concat();
            if *next {
                l.extend(b"X-Other: value\r\n");
            }
            lines.insert(at, l);
        }
        Bad::EndLf => (),
        Bad::NoColon(n) => lines.insert(at, [padded(n.clone().into_bytes()), b"\r\n".to_vec()].concat()),
        Bad::EmptyName => lines.insert(at, [&b": "[..], &fill, b"value\r\n"].concat()),
        Bad::BadNameChar(p, b) => {
            let mut n = b"x-name".to_vec();
            let i = p % (n.len() + 1);
            n.insert(i, *b);
            let mut n = padded(n);
            n.extend_from_slice(b": value\r\n");
            lines.insert(at, n);
        }
        Bad::SpaceBeforeColon => lines.insert(at, [&fill[..], b"X-Name : value\r\n"].concat()),
        Bad::ValueCtl(p, b) => {
            let mut v = b"va lu e".to_vec();
            let i = if *b == b'\r' || *b == b'\n' { p % v.len() } else { p % (v.len() + 1) };
            v.insert(i, *b);
            lines.insert(at, [b"X-Name: ".to_vec(), padded(v), b"\r\n".to_vec()].concat());
        }
        Bad::Fold => lines.insert(at, b" folded value\r\n".to_vec()),
        Bad::Clen(v) => lines.insert(at, format!("{}: {}\r\n", name_cl, v).into_bytes()),
        Bad::ClenTwice(same) => {
            lines.insert(at, format!("{}: 4\r\n", name_cl).into_bytes());
            lines.push(format!("{}: {}\r\n", name_cl2, if *same { 4 } else { 5 }).into_bytes());
        }
        Bad::Te(v) => {
            lines.insert(at, format!("{}: {}\r\n", name_te, v).into_bytes());
            lines.push(format!("{}: 4\r\n", name_cl).into_bytes());
        }
        Bad::TeTwice => {
            lines.insert(at, format!("{}: identity\r\n", name_te).into_bytes());
            lines.push(b"Transfer-Encoding: chunked\r\n".to_vec());
            lines.push(format!("{}: 4\r\n", name_cl).into_bytes());
        }
        _ if !request => return None,
        Bad::MethodLower(i) => {
            let m = METHODS[c.method].len();
            let i = i % m;
            first[i] = first[i].to_ascii_lowercase();
        }
        Bad::MethodUnknown(m) => first = format!("{} {} {}", m, c.target, c.version).into_bytes(),
        Bad::MethodEmpty => first = format!(" {} {}", c.target, c.version).into_bytes(),
        // An empty line before the request line may be skipped by a server (RFC 7230 3.5): two are no request line.
        Bad::LeadingCrlf => first = format!("\r\n \r\n{} {} {}", METHODS[c.method], c.target, c.version).into_bytes(),
        Bad::TargetEmpty => first = format!("{}  {}", METHODS[c.method], c.version).into_bytes(),
        Bad::TargetCtl(p, b) => {
            let mut t = c.target.clone().into_bytes();
            let i = p % (t.len() + 1);
            t.insert(i, *b);
            let t = if c.pad.1 { [t, fill.clone()].concat() } else { [b"/".to_vec(), fill.clone(), t].concat() };
            first = [METHODS[c.method].as_bytes(), b" ", &t, b" ", c.version.as_bytes()].concat();
        }
        Bad::Version(v) => first = format!("{} {} {}", METHODS[c.method], c.target, v).into_bytes(),
        Bad::VersionMissing => first = format!("{} {}", METHODS[c.method], c.target).into_bytes(),
    }
    first.extend_from_slice(eol);
    for l in lines {
        first.extend(l);
    }
    first.extend_from_slice(if matches!(c.bad, Bad::EndLf) { b"\n: \r\n\r\n" } else { b"\r\n" });
    first.extend_from_slice(b"body body");
    Some(first)
}

fn bad_req(request: bool) -> BoxedStrategy<BadReq> {
    let b = if request { bad() } else { bad().prop_filter("response", |b| !matches!(b, Bad::MethodLower(_) | Bad::MethodUnknown(_) | Bad::MethodEmpty | Bad::LeadingCrlf | Bad::TargetEmpty | Bad::TargetCtl(..) | Bad::Version(_) | Bad::VersionMissing)).boxed() };
    (0usize..9, "/[a-z0-9/]{0,10}", version(), wire(20), b, 0usize..8, any::<u64>(), chunks(), (prop_oneof![30 => Just(0u32), 2 => 1u32..300, 2 => 8000u32..8300, 1 => 300u32..70_000], any::<bool>()))
        .prop_map(|(method, target, version, wire, bad, at, spell, chunks, pad)| BadReq { method, target, version, wire, bad, at, spell, chunks, pad })
        .boxed()
}

fn bad_name(b: &Bad) -> String {
    let s = format!("{:?}", b);
    s.split('(').next().unwrap().to_string()
}

fn c02_refuse(_: &Ctx, c: &BadReq, o: &mut Obs) -> R {
    let start = format!("{} {} {}", METHODS[c.method], c.target, c.version);
    let data = match bad_head(&start, c, true) {
        Some(d) => d,
        None => return Ok(()),
    };
    let r = FragReader::new(data.clone(), &c.chunks, End::Eof);
    match no_panic(|| Request::read_from(r)) {
        Err(p) => hard!("panic on {:?}: {}", show(&data), p),
        Ok(Ok(q)) => hard!("a malformed request ({:?}) is accepted as {} {:?} {:?} {:?}: {:?}", c.bad, q.method, q.uri, q.version, q.headers, show(&data)),
        Ok(Err(HttpError::InvalidRequest(_))) => (),
        Ok(Err(e)) => {
            ensure!(c.bad.framing(), "a malformed request ({:?}) is refused with {:?}, not as an invalid request: {:?}", c.bad, e, show(&data));
        }
    }
    o.class(bad_name(&c.bad));
    o.nontrivial(true);
    Ok(())
}

fn c02_empty(_: &Ctx, c: &Vec<u16>, o: &mut Obs) -> R {
    let r = FragReader::new(vec![], c, End::Eof);
    match no_panic(|| Request::read_from(r)) {
        Ok(Err(HttpError::ConnectionClosed)) => (),
        x => hard!("an empty stream is reported as {:?}, not as a closed connection", x.map(|r| r.map(|_| "a request"))),
    }
    let r = FragReader::new(vec![], c, End::Eof);
    match no_panic(|| Response::read_from(r)) {
        Ok(Err(HttpError::ConnectionClosed)) => (),
        x => hard!("an empty stream is reported as {:?}, not as a closed connection", x.map(|r| r.map(|_| "a response"))),
    }
    o.nontrivial(true);
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ObsText {
    pub value: Vec<u8>,
    pub chunks: Vec<u16>,
}

/// Bytes from 0x80 on are allowed in values: they must come through in a form
/// that still tells which bytes were sent.
fn c02_obs_text(_: &Ctx, c: &ObsText, o: &mut Obs) -> R {
    let mut data = b"GET / HTTP/1.1\r\nX-Bytes: a".to_vec();
    data.extend_from_slice(&c.value);
    data.extend_from_slice(b"z\r\n\r\n");
    let want: Vec<u8> = [b"a", &c.value[..], b"z"].concat();
    let r = FragReader::new(data.clone(), &c.chunks, End::Eof);
    match no_panic(|| Request::read_from(r)) {
        Ok(Ok(q)) => {
            let v = q.headers.get("X-Bytes").cloned().unwrap_or_default();
            ensure!(v.len() == 1, "{} values reported for one header", v.len());
            let latin1: Option<Vec<u8>> = v[0].chars().map(|ch| u8::try_from(ch as u32).ok()).collect();
            ensure!(latin1.as_deref() == Some(&want[..]) || v[0].as_bytes() == &want[..], "value {:?} reported as {:?}", show(&want), v[0]);
        }
        x => hard!("a request with a header value {:?} gives {:?}", show(&want), x.map(|r| r.map(|_| "ok"))),
    }
    o.nontrivial(c.value.iter().any(|b| *b >= 0x80));
    Ok(())
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        assumptions: &["grey areas left out: a header field with nothing at all after the colon, non-ASCII bytes in the target, missing Host"],
        suites: vec![
            suite(
                Opts { name: "accept", rule: "well-formed requests (9 methods, all target and token characters, white space, repeated fields, any spelling of Content-Length, bodies around the 8 KiB buffer, bytes after the body) in random fragmentation; non-trivial: at least one header field", quick: 120_000, thorough: 3_000_000, shards: 8, shrink: 4000, pure: true },
                |_| req_case(20_000),
                c02_accept,
            ),
            suite(
                Opts { name: "refuse", rule: "well-formed requests with exactly one fault out of 21 kinds, with up to 70000 bytes before or after it in its part; every one non-trivial", quick: 120_000, thorough: 3_000_000, shards: 8, shrink: 4000, pure: true },
                |_| bad_req(true),
                c02_refuse,
            ),
            suite(
                Opts { name: "empty", rule: "streams without a byte", quick: 200, thorough: 2000, shards: 1, shrink: 100, pure: true },
                |_| chunks(),
                c02_empty,
            ),
            suite(
                Opts { name: "obs-text", rule: "header values with bytes from 0x80 on; non-trivial: at least one such byte", quick: 8_000, thorough: 200_000, shards: 2, shrink: 1000, pure: true },
                |_| {
                    (vec(prop_oneof![0x80u8..=0xff, 0x21u8..0x7f], 0..12), chunks())
                        .prop_map(|(value, chunks)| ObsText { value, chunks })
                        .boxed()
                },
                c02_obs_text,
            ),
        ],
    }
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        assumptions: &["a source that has ended keeps saying so; more than 64 polls after the end count as spinning, as do 20 s of CPU time on one case"],
        suites: vec![suite(
            Opts {
                name: "bytes",
                rule: "raw bytes, glued message pieces and messages with up to 3 byte-level changes, each read as request, response, headers and header, whole, in random pieces with interrupts, byte by byte and (short ones) in two halves at every place, ending in EOF or an error; non-trivial: at least 2 bytes",
                quick: 60_000,
                thorough: 3_000_000,
                shards: 8,
                shrink: 4000,
                pure: true,
            },
            c01_strat,
            c01_run,
        )],
    }
}

// ---------------------------------------------------------------- C03

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Adds {
    pub adds: Vec<(String, String)>,
    pub probe: Vec<String>,
}

fn c03_multimap(_: &Ctx, c: &Adds, o: &mut Obs) -> R {
    use std::collections::BTreeMap;
    // Canonical names only: what a collection does with two spellings of one
    // name given by the program is not promised.
    let adds: Vec<(String, String)> = c.adds.iter().map(|(n, v)| (canon(n), v.clone())).collect();
    let mut h = Headers::new();
    let mut model: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (n, v) in &adds {
        h.add(Header { name: n.clone(), value: v.clone() });
        model.entry(n.clone()).or_default().push(v.clone());
        ensure!(h.get(n) == Some(&model[n]), "after adding {:?}: {:?} the values are {:?}, not {:?}", n, v, h.get(n), model[n]);
    }
    let mut it: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (n, v) in h.iter() {
        ensure!(it.insert(n.clone(), v.clone()).is_none(), "the iterator gives {:?} twice", n);
    }
    ensure!(it == model, "the iterator gives {:?}, added were {:?}", it, model);
    for p in &c.probe {
        let p = canon(p);
        ensure!(h.get(&p) == model.get(&p), "get({:?}) gives {:?}, not {:?}", p, h.get(&p), model.get(&p));
    }
    let mut out = Vec::new();
    if let Err(e) = h.write(&mut out) {
        hard!("writing fails: {:?}", e);
    }
    // One line per value, and an empty line.
    let lines = out.split(|b| *b == b'\n').count();
    ensure!(lines == adds.len() + 2, "{} values give {} lines", adds.len(), lines as i64 - 2);
    let text: Vec<u8> = [b"X\r\n".to_vec(), out.clone()].concat();
    let (_, ref_fields) = crate::refhttp::parse_head(&text).map_err(|e| Fail::Hard(format!("written headers do not parse: {}: {:?}", e, show(&out))))?;
    let mut m2: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (n, v) in ref_fields {
        m2.entry(n).or_default().push(v);
    }
    ensure!(m2 == model, "written: {:?}, added: {:?}", m2, model);
    let back = match no_panic(|| Headers::read_from(&mut BufReader::new(&out[..]))) {
        Ok(Ok(b)) => b,
        x => hard!("reading back {:?} gives {:?}", show(&out), x.map(|r| r.map(|_| ()))),
    };
    let mut b: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (n, v) in back.iter() {
        b.insert(n.clone(), v.clone());
    }
    ensure!(b == model, "read back: {:?}, written: {:?}", b, model);
    o.nontrivial(model.values().any(|v| v.len() > 1));
    o.class_if(model.len() > 2, "three or more names");
    o.class_if(adds.iter().any(|a| a.1.is_empty()), "empty value");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CaseIns {
    pub fields: Vec<(String, String, u64)>,
    pub clen_spell: u64,
    pub conn: Option<(u8, u64)>,
    pub v10: bool,
    pub body: Blob,
    pub chunks: Vec<u16>,
}

fn c03_case(_: &Ctx, c: &CaseIns, o: &mut Obs) -> R {
    use std::collections::BTreeMap;
    let mut data = format!("POST / HTTP/1.{}\r\n", if c.v10 { 0 } else { 1 }).into_bytes();
    let mut model: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (n, v, how) in &c.fields {
        data.extend(format!("{}: {}\r\n", respell(n, *how), v).into_bytes());
        model.entry(canon(n)).or_default().push(v.clone());
    }
    let clen = respell("Content-Length", c.clen_spell);
    data.extend(format!("{}: {}\r\n", clen, c.body.len).into_bytes());
    model.insert("Content-Length".into(), vec![c.body.len.to_string()]);
    let mut persistent = !c.v10;
    if let Some((v, how)) = &c.conn {
        let val = ["close", "keep-alive", "Close", "CLOSE", "Keep-Alive", "KEEP-ALIVE"][*v as usize % 6];
        data.extend(format!("{}: {}\r\n", respell("Connection", *how), val).into_bytes());
        model.insert("Connection".into(), vec![val.to_string()]);
        persistent = match val.to_ascii_lowercase().as_str() {
            "close" => false,
            _ => true,
        };
    }
    data.extend_from_slice(b"\r\n");
    data.extend(c.body.bytes());
    let q = match no_panic(|| Request::read_from(FragReader::new(data.clone(), &c.chunks, End::Eof))) {
        Ok(Ok(q)) => q,
        x => hard!("{:?} gives {:?}", show(&data), x.map(|r| r.map(|_| ()))),
    };
    for (n, v) in &model {
        ensure!(q.headers.get(n) == Some(v), "get({:?}) gives {:?}, sent were {:?}: {:?}", n, q.headers.get(n), v, show(&data));
    }
    ensure!(q.headers.iter().filter(|(_, v)| !v.is_empty()).count() == model.len(), "the iterator gives other names than the {} sent: {:?}", model.len(), q.headers);
    ensure!(q.is_connection_persistent() == persistent, "persistent: {}, should be {}: {:?}", q.is_connection_persistent(), persistent, show(&data));
    let mut got = Vec::new();
    if let Some(mut b) = q.body {
        let _ = b.read_to_end(&mut got);
    }
    ensure!(got == c.body.bytes(), "{} ({}) does not govern the body: {} bytes read", clen, c.body.len, got.len());
    o.nontrivial(clen != "Content-Length" || c.fields.iter().any(|f| respell(&f.0, f.2) != canon(&f.0)));
    o.class_if(clen != "Content-Length", "Content-Length spelt otherwise");
    o.class_if(c.conn.is_some(), "Connection header");
    Ok(())
}

/// Names whose parts start with a letter or digit, for which "canonical" is unambiguous.
fn plain_name() -> BoxedStrategy<String> {
    prop_oneof![
        "[A-Za-z0-9][A-Za-z0-9_!~.]{0,5}(-[A-Za-z0-9][A-Za-z0-9]{0,4}){0,3}",
        select(vec!["X-A", "X-B", "Host", "Set-Cookie", "Accept"]).prop_map(|s| s.to_string())
    ]
    .prop_filter("framing", |n| !["content-length", "transfer-encoding", "content-type", "connection"].contains(&n.to_ascii_lowercase().as_str()))
    .boxed()
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        assumptions: &["collections built by a program use canonical names; what two spellings of one name do there is not promised"],
        suites: vec![
            suite(
                Opts { name: "multimap", rule: "sequences of additions against a map of lists: get after each step, iteration, writing, reading back; non-trivial: a name with two or more values", quick: 120_000, thorough: 2_000_000, shards: 8, shrink: 4000, pure: true },
                |_| {
                    let n = prop_oneof![3 => select(vec!["X-A", "X-B", "Host", "Set-Cookie"]).prop_map(|s| s.to_string()), 2 => plain_name()];
                    (vec((n, prop_oneof![10 => "[!-~]([!-~ \t]{0,12}[!-~])?".boxed(), 1 => Just(String::new()).boxed()]), 0..14), vec(plain_name(), 0..3))
                        .prop_map(|(adds, probe)| Adds { adds, probe })
                        .boxed()
                },
                c03_multimap,
            ),
            suite(
                Opts { name: "case", rule: "requests whose field names are spelt in any mixture of cases; looked up canonically, and checked to govern framing and persistence; non-trivial: at least one spelling that is not the canonical one", quick: 100_000, thorough: 2_000_000, shards: 8, shrink: 4000, pure: true },
                |_| {
                    (
                        vec((plain_name(), "[!-~]{1,10}", any::<u64>()), 0..5),
                        any::<u64>(),
                        proptest::option::of((0u8..6, any::<u64>())),
                        any::<bool>(),
                        blob(100),
                        chunks(),
                    )
                        .prop_map(|(fields, clen_spell, conn, v10, body, chunks)| CaseIns { fields, clen_spell, conn, v10, body, chunks })
                        .boxed()
                },
                c03_case,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C04

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum BodyOp {
    Read(usize),
    ReadContent(usize),
    ReadToEnd,
    Ensure,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BodyCase {
    /// 0: Body::read_from directly, 1: through a request, 2: through a response.
    pub via: u8,
    pub clen: usize,
    pub seed: u8,
    /// Bytes that really arrive after the head, may be fewer or more than clen.
    pub sent: usize,
    pub ops: Vec<BodyOp>,
    pub chunks: Vec<u16>,
    pub end: End,
    /// Added to the announced length, far beyond what arrives.
    #[serde(default)]
    pub more: u64,
}

fn c04_strat(_: &Ctx) -> BoxedStrategy<BodyCase> {
    let op = prop_oneof![
        4 => size(20_000).prop_map(BodyOp::Read),
        4 => size(20_000).prop_map(BodyOp::ReadContent),
        1 => Just(BodyOp::ReadToEnd),
        2 => Just(BodyOp::Ensure),
    ];
    let more = prop_oneof![20 => Just(0u64), 1 => select(vec![1u64 << 31, 1 << 32, (1 << 32) - 1, 1 << 33, 1 << 53, 1 << 62, i64::MAX as u64 - 200_000, u64::MAX - 200_000])];
    (0u8..3, size(100_000), any::<u8>(), 0u8..6, size(20_000), vec(op, 0..7), chunks(), end(), more)
        .prop_map(|(via, clen, seed, how, x, ops, chunks, end, more)| {
            let sent = match how {
                0 | 1 => clen,
                2 | 3 => clen + x,
                4 => x.min(clen),
                _ => clen.saturating_sub(1),
            };
            BodyCase { via, clen, seed, sent: sent.min(if more > 0 { clen } else { sent }), ops, chunks, end, more }
        })
        .boxed()
}

fn c04_run(_: &Ctx, c: &BodyCase, o: &mut Obs) -> R {
    let sent = Blob { len: c.sent, seed: c.seed }.bytes();
    let clen = c.clen as u64 + c.more;
    let want = &sent[..c.clen.min(c.sent)];
    let truncated = (c.sent as u64) < clen;
    let head: Vec<u8> = match c.via {
        0 => vec![],
        1 => format!("PUT /x HTTP/1.1\r\nContent-Length: {}\r\n\r\n", clen).into_bytes(),
        _ => format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", clen).into_bytes(),
    };
    let r = FragReader::new([head.clone(), sent.clone()].concat(), &c.chunks, c.end);
    let state = r.state.clone();
    let body = no_panic(|| match c.via {
        0 => {
            let mut h = Headers::new();
            h.add(Header { name: "Content-Length".into(), value: clen.to_string() });
            Body::read_from(r, &h)
        }
        1 => Request::read_from(r).map(|q| q.body),
        _ => Response::read_from(r).map(|q| q.body),
    });
    let mut body = match body {
        Err(p) => hard!("panic: {}", p),
        Ok(Err(e)) => hard!("reading a message with Content-Length {} fails: {:?}", clen, e),
        Ok(Ok(b)) => b,
    };
    if clen == 0 {
        ensure!(body.is_none(), "Content-Length 0 gives a body");
        o.class("Content-Length 0");
        return Ok(());
    }
    let body = match body.as_mut() {
        Some(b) => b,
        None => hard!("Content-Length {} gives no body", clen),
    };
    ensure!(body.content_length == clen, "content_length {} for {}", body.content_length, clen);
    let mut got: Vec<u8> = Vec::new();
    let mut ensured = false;
    let mut io_err = false;
    let mut partial = false;
    let ops: Vec<BodyOp> = c.ops.iter().cloned().chain([BodyOp::Ensure, BodyOp::Read(10), BodyOp::ReadContent(10)]).collect();
    for op in &ops {
        if io_err {
            break;
        }
        match op {
            BodyOp::Read(n) | BodyOp::ReadContent(n) => {
                let mut buf = vec![0xAAu8; *n];
                let r = no_panic(|| if matches!(op, BodyOp::Read(_)) { body.read(&mut buf) } else { body.content.read(&mut buf) });
                match r {
                    Err(p) => hard!("panic in {:?}: {}", op, p),
                    Ok(Ok(k)) => {
                        ensure!(k <= *n, "read gives {} bytes for a buffer of {}", k, n);
                        if ensured {
                            ensure!(k == 0, "after the body was read in full, {:?} still gives {} bytes", op, k);
                        } else {
                            got.extend_from_slice(&buf[..k]);
                            partial |= (got.len() as u64) < clen && k > 0;
                            ensure!(k > 0 || *n == 0 || got.len() as u64 == clen || (truncated && c.end == End::Eof && got.len() == want.len()), "{:?} gives nothing after {} of {} bytes", op, got.len(), want.len());
                        }
                    }
                    Ok(Err(e)) if e.kind() == std::io::ErrorKind::Interrupted => (),
                    Ok(Err(e)) => {
                        ensure!(truncated && c.end != End::Eof, "reading fails with {} although every byte arrived", e);
                        io_err = true;
                    }
                }
            }
            BodyOp::ReadToEnd => {
                let mut v = Vec::new();
                match no_panic(|| body.read_to_end(&mut v)) {
                    Err(p) => hard!("panic in read_to_end: {}", p),
                    Ok(Ok(_)) => {
                        ensure!(!(truncated && c.end != End::Eof) || ensured, "the stream failed ({:?}) within the body, but reading to the end reports success", c.end);
                        ensure!(!ensured || v.is_empty(), "bytes after the body was read in full");
                        got.extend(v);
                        let skipped = ensured;
                        ensured = true;
                        ensure!(skipped || got == want, "the body yields {} bytes, {} of them were to be had; equal: {}", got.len(), want.len(), got == want);
                    }
                    Ok(Err(e)) => {
                        ensure!(truncated && c.end != End::Eof, "reading fails with {} although every byte arrived", e);
                        got.extend(v);
                        io_err = true;
                    }
                }
            }
            BodyOp::Ensure => {
                match no_panic(|| body.ensure_read()) {
                    Err(p) => hard!("panic in ensure_read: {}", p),
                    Ok(Ok(())) => {
                        ensure!(!(truncated && c.end != End::Eof) || ensured, "the stream failed ({:?}) within the body, but ensure_read reports success", c.end);
                        ensured = true;
                        if c.via == 0 {
                            let pos = state.lock().unwrap_or_else(|e| e.into_inner()).pos;
                            ensure!(pos == want.len(), "after ensure_read {} bytes of the stream are used, the body has {}", pos, want.len());
                        }
                    }
                    Ok(Err(e)) => {
                        ensure!(truncated, "ensure_read fails with {:?} although every byte arrived", e);
                        io_err = true;
                    }
                }
            }
        }
        ensure!(got.len() <= want.len() && got == want[..got.len()], "the body yields other bytes than were sent ({} so far)", got.len());
    }
    if c.via == 0 {
        let pos = state.lock().unwrap_or_else(|e| e.into_inner()).pos;
        ensure!(pos as u64 <= clen, "{} bytes of the stream are used for a body of {}", pos, clen);
    }
    o.nontrivial(c.sent as u64 != clen || partial || c.ops.len() > 1);
    o.class_if(truncated, "cut short");
    o.class_if(c.sent > c.clen, "more bytes follow");
    o.class_if(io_err, "I/O error");
    o.class_if(partial, "partly consumed");
    o.class_if(c.more > 0, "announced beyond 2 GiB");
    o.class_if(c.clen > 8192, "over one buffer");
    Ok(())
}

fn c04_none(_: &Ctx, c: &(Wire, Blob), o: &mut Obs) -> R {
    let mut w = c.0.clone();
    if w.body.len > 0 {
        w.clen = None;
    }
    let mut d = w.render("POST / HTTP/1.1");
    d.extend(c.1.bytes());
    match no_panic(|| Request::read_from(FragReader::new(d.clone(), &[], End::Eof))) {
        Ok(Ok(q)) => ensure!(q.body.is_none(), "a request without a length, or with length 0, has a body: {:?}", show(&d)),
        x => hard!("{:?} gives {:?}", show(&d), x.map(|r| r.map(|_| ()))),
    }
    o.nontrivial(c.1.len > 0);
    Ok(())
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        assumptions: &["a body whose stream ends early with EOF is only promised to yield what arrived; whether ensure_read then reports an error is left open"],
        suites: vec![
            suite(
                Opts { name: "ops", rule: "bodies read by sequences of reads through Body and through its content, read_to_end and ensure_read, from streams that carry fewer, exactly or more bytes than announced, fragmented, interrupted, failing; non-trivial: length mismatch, partial consumption or at least two operations", quick: 60_000, thorough: 1_500_000, shards: 8, shrink: 4000, pure: true },
                c04_strat,
                c04_run,
            ),
            suite(
                Opts { name: "no-body", rule: "requests with no length or length 0 and bytes after them; non-trivial: such bytes exist", quick: 20_000, thorough: 300_000, shards: 4, shrink: 2000, pure: true },
                |_| (wire(30), blob(40)).boxed(),
                c04_none,
            ),
            crate::huge::read_suite(),
        ],
    }
}

// ---------------------------------------------------------------- C06

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RespCase {
    pub major: u8,
    pub minor: u8,
    pub status: u16,
    pub reason: String,
    pub wire: Wire,
    pub extra: Blob,
    pub chunks: Vec<u16>,
}

fn c06_accept(_: &Ctx, c: &RespCase, o: &mut Obs) -> R {
    let start = format!("HTTP/{}.{} {:03} {}", c.major, c.minor, c.status, c.reason);
    let mut data = c.wire.render(&start);
    data.extend(c.extra.bytes());
    let q = match no_panic(|| Response::read_from(FragReader::new(data.clone(), &c.chunks, End::Eof))) {
        Err(p) => hard!("panic on {:?}: {}", show(&data), p),
        Ok(Err(e)) => hard!("a well-formed response is refused: {:?}: {:?}", show(&data), e),
        Ok(Ok(q)) => q,
    };
    let got_status: usize = (&q.status).into();
    ensure!(got_status == c.status as usize, "status {} reported as {}", c.status, got_status);
    if let Err(e) = same_headers(&q.headers, &fields(&c.wire)) {
        hard!("{} for {:?}", e, show(&data));
    }
    let want = c.wire.body_bytes();
    let mut got = Vec::new();
    let mut b = q.body;
    ensure!(b.is_some() == c.wire.has_body(), "body present: {}, should be {}: {:?}", b.is_some(), c.wire.has_body(), show(&data));
    if let Some(b) = b.as_mut() {
        if let Err(e) = b.read_to_end(&mut got) {
            hard!("reading the body fails: {}", e);
        }
    }
    ensure!(got == want, "the body differs: {} bytes read, {} sent", got.len(), want.len());
    o.nontrivial(true);
    o.class_if(c.reason.is_empty(), "empty reason phrase");
    o.class_if(c.wire.has_body(), "with body");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum BadStart {
    Line(String),
    NoCr,
    Header,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BadResp {
    pub start: BadStart,
    pub req: BadReq,
}

fn c06_refuse(_: &Ctx, c: &BadResp, o: &mut Obs) -> R {
    let data = match &c.start {
        BadStart::Line(l) => c.req.wire.render(l),
        BadStart::NoCr => {
            let d = c.req.wire.render("HTTP/1.1 200 OK");
            let p = d.iter().position(|b| *b == b'\r').unwrap();
            [&d[..p], &d[p + 1..]].concat()
        }
        BadStart::Header => match bad_head("HTTP/1.1 200 OK", &c.req, false) {
            Some(d) => d,
            None => return Ok(()),
        },
    };
    match no_panic(|| Response::read_from(FragReader::new(data.clone(), &c.req.chunks, End::Eof))) {
        Err(p) => hard!("panic on {:?}: {}", show(&data), p),
        Ok(Ok(q)) => hard!("a malformed response is accepted as {:?} {:?}: {:?}", q.status, q.headers, show(&data)),
        Ok(Err(_)) => (),
    }
    o.class(match &c.start {
        BadStart::Line(_) => "status line".to_string(),
        BadStart::NoCr => "no CR".to_string(),
        BadStart::Header => bad_name(&c.req.bad),
    });
    o.nontrivial(true);
    Ok(())
}

fn bad_status_line() -> BoxedStrategy<BadStart> {
    let code = prop_oneof![
        select(vec!["20", "2000", "20x", "x00", "2 0", "-20", "+20", "٣٣", "", "2", "2.0", "0x1", "1e2", "20\t", "\t20", "00000200"]).prop_map(|s| s.to_string()),
        "[0-9]{0,2}",
        "[0-9]{4,7}",
        "[0-9a-fx+-]{3}".prop_filter("digits", |s| !s.bytes().all(|b| b.is_ascii_digit())),
    ];
    let ver = select(vec![
        "HTTP/1", "HTTP/", "HTTP", "http/1.1", "HTTP/1.1.1", "HTTP/a.1", "HTTP/1.b", "HTTPS/1.1", "1.1", "HTTP 1.1", "HTTP/1,1", "/1.1", "HTTP/1.", "HTTP/.1", "HTTP//1.1", "X/1.1", "HTTP/-1.1", "HTTP/+1.1", "HTTP/1.+1", "HTTP/1.1\t",
    ]);
    prop_oneof![
        2 => (code, "[ -~]{1,10}").prop_map(|(c, r)| BadStart::Line(format!("HTTP/1.1 {} {}", c, r))),
        2 => (ver, 100u16..600).prop_map(|(v, c)| BadStart::Line(format!("{} {} OK", v, c))),
        1 => Just(BadStart::Line("HTTP/1.1".into())),
        1 => Just(BadStart::Line(" 200 OK".into())),
        1 => Just(BadStart::NoCr),
        4 => Just(BadStart::Header),
    ]
    .boxed()
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        assumptions: &["a status line without the space after the code (no reason phrase at all) is left out: RFC 7230 requires the space"],
        suites: vec![
            suite(
                Opts { name: "accept", rule: "well-formed responses with any one-digit version, any three-digit code, any reason phrase including the empty one, any header fields, bodies around the 8 KiB buffer; every one non-trivial", quick: 100_000, thorough: 2_000_000, shards: 8, shrink: 4000, pure: true },
                |_| {
                    (0u8..10, 0u8..10, prop_oneof![100u16..600, 0u16..1000], prop_oneof![1 => Just(String::new()), 1 => Just("OK".to_string()), 1 => Just(" ".to_string()), 2 => "[!-~][ -~\t]{0,20}"], wire(20_000), blob(40), chunks())
                        .prop_map(|(major, minor, status, reason, wire, extra, chunks)| RespCase { major, minor, status, reason, wire, extra, chunks })
                        .boxed()
                },
                c06_accept,
            ),
            suite(
                Opts { name: "refuse", rule: "responses with one fault: version, code, line end, header field or framing header; every one non-trivial", quick: 100_000, thorough: 2_000_000, shards: 8, shrink: 4000, pure: true },
                |_| (bad_status_line(), bad_req(false)).prop_map(|(start, req)| BadResp { start, req }).boxed(),
                c06_refuse,
            ),
        ],
    }
}

#[allow(dead_code)]
fn unused(_: HttpMethod) {}
