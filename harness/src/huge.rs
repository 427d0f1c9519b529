//! Bodies of gigabytes, from a source and to a sink that cost next to nothing.
use crate::fw::*;
use crate::{ensure, hard};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Write};
use std::sync::{Arc, Mutex};
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request, Response, StatusCode};

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum Op {
    Read(u32),
    ReadContent(u32),
    Ensure,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Huge {
    pub len: u64,
    /// What follows the body in the source, or is missing from it.
    pub extra: i64,
    pub via: u8,
    /// Read before the rest is consumed, in each of these steps.
    pub first: Vec<Op>,
    pub last: Op,
}

/// The byte at this place of a body.
fn at(pos: u64) -> u8 {
    ((pos >> 16) % 251) as u8
}

#[derive(Default)]
struct Place {
    pos: u64,
    ends: u64,
}

/// Some header block, then blocks of equal bytes, up to `len` bytes.
struct Source {
    head: Vec<u8>,
    given: usize,
    len: u64,
    place: Arc<Mutex<Place>>,
}
impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.given < self.head.len() {
            let n = (&self.head[self.given..]).read(buf)?;
            self.given += n;
            return Ok(n);
        }
        let mut p = self.place.lock().unwrap();
        let n = (buf.len() as u64).min(self.len - p.pos).min((1 << 16) - p.pos % (1 << 16)) as usize;
        if n == 0 && !buf.is_empty() {
            p.ends += 1;
            if p.ends > 64 {
                panic!("the source has ended and is polled again and again");
            }
        }
        buf[..n].fill(at(p.pos));
        p.pos += n as u64;
        Ok(n)
    }
}

fn source(head: Vec<u8>, len: u64) -> (Source, Arc<Mutex<Place>>) {
    let place = Arc::new(Mutex::new(Place::default()));
    (Source { head, given: 0, len, place: place.clone() }, place)
}

/// The first and the last byte of a piece that starts at `pos`.
fn right(piece: &[u8], pos: u64) -> bool {
    piece.is_empty() || piece[0] == at(pos) && piece[piece.len() - 1] == at(pos + piece.len() as u64 - 1)
}

pub fn lengths() -> BoxedStrategy<u64> {
    let edge = select(vec![1u64 << 30, 1 << 31, 1 << 32, 5 << 30, (1 << 31) + (1 << 30)]);
    prop_oneof![3 => (edge, -20_000i64..20_000).prop_map(|(e, d)| (e as i64 + d) as u64), 1 => (1u64 << 30)..(5 << 30)].boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        2 => (1u32..20_000_000).prop_map(Op::Read),
        2 => (1u32..20_000_000).prop_map(Op::ReadContent),
    ]
    .boxed()
}

pub fn reads() -> BoxedStrategy<Huge> {
    let extra = prop_oneof![Just(0i64), 1i64..100_000, -100_000i64..-1];
    (lengths(), extra, 0u8..3, vec(op(), 0..4), prop_oneof![2 => Just(Op::Ensure), 1 => (4_000_000u32..20_000_000).prop_map(Op::Read)])
        .prop_map(|(len, extra, via, first, last)| Huge { len, extra, via, first, last })
        .boxed()
}

pub fn read(_: &Ctx, c: &Huge, o: &mut Obs) -> R {
    let head: Vec<u8> = match c.via {
        0 => vec![],
        1 => format!("PUT /x HTTP/1.1\r\nContent-Length: {}\r\n\r\n", c.len).into_bytes(),
        _ => format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", c.len).into_bytes(),
    };
    let there = (c.len as i64 + c.extra) as u64;
    let (s, place) = source(head, there);
    let body = no_panic(|| match c.via {
        0 => {
            let mut h = Headers::new();
            h.add(Header { name: "Content-Length".into(), value: c.len.to_string() });
            Body::read_from(s, &h)
        }
        1 => Request::read_from(s).map(|q| q.body),
        _ => Response::read_from(s).map(|q| q.body),
    });
    let mut body = match body {
        Ok(Ok(Some(b))) => b,
        Ok(x) => hard!("a body of {} bytes is not read: {:?}", c.len, x.map(|_| ())),
        Err(p) => hard!("a body of {} bytes: panic: {}", c.len, p),
    };
    ensure!(body.content_length == c.len, "content_length {} for {}", body.content_length, c.len);
    let end = c.len.min(there);
    let mut got = 0u64;
    let mut whole = |op: &Op, all: bool| -> R {
        let (n, content) = match op {
            Op::Ensure => {
                match no_panic(|| body.ensure_read()) {
                    Err(p) => hard!("ensure_read panics: {}", p),
                    Ok(Err(e)) if c.extra >= 0 => hard!("ensure_read fails: {}", e),
                    Ok(_) => (),
                }
                got = end;
                return Ok(());
            }
            Op::Read(n) => (*n, false),
            Op::ReadContent(n) => (*n, true),
        };
        let mut buf = vec![0; n as usize];
        loop {
            let r = no_panic(|| if content { body.content.read(&mut buf) } else { body.read(&mut buf) });
            match r {
                Err(p) => hard!("reading panics: {}", p),
                Ok(Err(e)) => hard!("after {} of {} bytes reading fails: {}", got, c.len, e),
                Ok(Ok(k)) => {
                    ensure!(k > 0 || got == end, "reading ends after {} of {} bytes", got, end);
                    ensure!(got + k as u64 <= end && right(&buf[..k], got), "after {} of {} bytes others are read", got, end);
                    got += k as u64;
                    if !all || k == 0 {
                        return Ok(());
                    }
                }
            }
        }
    };
    for op in &c.first {
        whole(op, false)?;
    }
    whole(&c.last, true)?;
    let mut b = [0; 10];
    for _ in 0..2 {
        match body.content.read(&mut b) {
            Ok(0) => (),
            x => hard!("after the whole body of {} bytes ({:?}), reading gives {:?}", c.len, c.last, x),
        }
    }
    let pos = place.lock().unwrap().pos;
    // A reader may have taken more into its buffer.
    ensure!(pos >= end, "{:?} takes {} bytes of the source, the body has {}", c.last, pos, end);
    o.nontrivial(!c.first.is_empty() || c.extra != 0);
    o.class_if(c.len >= 1 << 32, "4 GiB and more");
    o.class_if(matches!(c.last, Op::Ensure), "ensure_read");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Write_ {
    pub len: u64,
    pub extra: i64,
    pub via: u8,
    /// What the sink takes at once.
    pub most: u32,
    /// Where it fails, if it does.
    pub fails: Option<u64>,
}

struct Sink<'a> {
    c: &'a Write_,
    head: Vec<u8>,
    in_body: bool,
    pos: u64,
    wrong: Option<u64>,
}
impl Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let buf = &buf[..buf.len().min(self.c.most as usize)];
        if !self.in_body {
            // Until the header block's end, byte by byte.
            let b = match buf.first() {
                Some(b) => *b,
                None => return Ok(0),
            };
            self.head.push(b);
            self.in_body = self.head.ends_with(b"\r\n\r\n");
            return Ok(1);
        }
        let buf = match self.c.fails {
            Some(f) if self.pos >= f => return Err(io::Error::from(io::ErrorKind::BrokenPipe)),
            Some(f) => &buf[..buf.len().min((f - self.pos) as usize)],
            None => buf,
        };
        // The bytes of a piece are the same up to the block's end.
        if self.wrong.is_none() && (!right(buf, self.pos) || self.pos + buf.len() as u64 > self.c.len) {
            self.wrong = Some(self.pos);
        }
        self.pos += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn writes() -> BoxedStrategy<Write_> {
    (lengths(), prop_oneof![2 => Just(0i64), 1 => 1i64..100_000, 1 => -100_000i64..-1], 0u8..2, select(vec![4096u32, 65_536, u32::MAX]), proptest::option::weighted(0.2, any::<u32>()))
        .prop_map(|(len, extra, via, most, f)| Write_ { len, extra, via, most, fails: f.map(|f| (len as u128 * f as u128 >> 32) as u64) })
        .boxed()
}

pub fn write(_: &Ctx, c: &Write_, o: &mut Obs) -> R {
    let there = (c.len as i64 + c.extra) as u64;
    let (s, _) = source(vec![], there);
    let body = Body::new(Some(mime::TEXT_PLAIN), c.len, Box::new(s));
    let mut sink = Sink { c, head: vec![], in_body: false, pos: 0, wrong: None };
    let r = no_panic(|| match c.via {
        0 => Request::from_body(body, HttpMethod::PUT, "/").write(&mut sink).map_err(|e| e.to_string()),
        _ => Response { status: StatusCode::OK, headers: Headers::new(), body: Some(body) }.write(&mut sink).map_err(|e| e.to_string()),
    });
    let r = match r {
        Err(p) => hard!("writing a body of {} bytes panics: {}", c.len, p),
        Ok(r) => r,
    };
    if let Some(w) = sink.wrong {
        hard!("what is written at {} of a body of {} bytes is not its content", w, c.len);
    }
    let head = String::from_utf8_lossy(&sink.head).to_lowercase();
    ensure!(head.contains(&format!("content-length: {}\r\n", c.len)), "a body of {} bytes is announced as {:?}", c.len, head);
    let fails = c.fails.is_some() || c.extra < 0;
    ensure!(r.is_err() == fails, "writing {} bytes, of {} in the source, to a sink that fails at {:?} gives {:?}", c.len, there, c.fails, r);
    let want = c.fails.unwrap_or(u64::MAX).min(c.len).min(there);
    if !fails {
        ensure!(sink.pos == want, "{} of {} bytes are written", sink.pos, want);
    }
    o.nontrivial(true);
    o.class_if(fails, "fails");
    o.class_if(c.len >= 1 << 32, "4 GiB and more");
    Ok(())
}

pub fn read_suite() -> Suite {
    suite(
        Opts { name: "huge", rule: "bodies of 1-5 GiB, around the powers of two, read or consumed after some reads, from sources with more or less than them; non-trivial: some reads first, or more or less", quick: 32, thorough: 2000, shards: 8, shrink: 20, pure: true },
        |_| reads(),
        read,
    )
}

pub fn write_suite() -> Suite {
    suite(
        Opts { name: "huge", rule: "messages with bodies of 1-5 GiB, around the powers of two, from sources with more or less than them, to sinks that fail or not; every one non-trivial", quick: 32, thorough: 2000, shards: 8, shrink: 20, pure: true },
        |_| writes(),
        write,
    )
}
