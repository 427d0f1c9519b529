//! An independent, strict reading of HTTP/1.x messages, used as the oracle.
use std::io::Read;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Msg {
    pub start: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    /// Bytes of the input that belong to the message.
    pub used: usize,
}

impl Msg {
    pub fn all(&self, name: &str) -> Vec<&str> {
        self.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(name)).map(|h| h.1.as_str()).collect()
    }
    pub fn status(&self) -> Option<u16> {
        let mut p = self.start.splitn(3, ' ');
        p.next()?;
        p.next()?.parse().ok()
    }
}

pub fn head_end(data: &[u8]) -> Option<usize> {
    data.windows(4).position(|w| w == b"\r\n\r\n").map(|p| p + 4)
}

pub fn parse_head(head: &[u8]) -> Result<(String, Vec<(String, String)>), String> {
    let text: String = head[..head.len() - 4].iter().map(|b| *b as char).collect();
    let mut lines = text.split("\r\n");
    let start = lines.next().unwrap_or("").to_string();
    let mut headers = Vec::new();
    for l in lines {
        let (n, v) = l.split_once(':').ok_or_else(|| format!("header line without colon: {:?}", l))?;
        if n.is_empty() || !n.bytes().all(is_tchar) {
            return Err(format!("bad header name {:?}", n));
        }
        if v.bytes().any(|b| (b < 0x20 && b != b'\t') || b == 0x7f) {
            return Err(format!("control character in header value {:?}", v));
        }
        headers.push((n.to_string(), v.trim_matches(|c| c == ' ' || c == '\t').to_string()));
    }
    Ok((start, headers))
}

pub fn content_length(headers: &[(String, String)]) -> Result<Option<u64>, String> {
    let v: Vec<&String> = headers.iter().filter(|h| h.0.eq_ignore_ascii_case("content-length")).map(|h| &h.1).collect();
    match v.len() {
        0 => Ok(None),
        1 => {
            if v[0].is_empty() || !v[0].bytes().all(|b| b.is_ascii_digit()) {
                return Err(format!("bad Content-Length {:?}", v[0]));
            }
            v[0].parse().map(Some).map_err(|_| format!("bad Content-Length {:?}", v[0]))
        }
        n => Err(format!("{} Content-Length headers: {:?}", n, v)),
    }
}

/// Parses one complete message whose end is given by Content-Length.
pub fn parse(data: &[u8]) -> Result<Msg, String> {
    let he = head_end(data).ok_or_else(|| format!("no end of the header block in {:?}", show(data)))?;
    let (start, headers) = parse_head(&data[..he])?;
    let cl = content_length(&headers)?.ok_or_else(|| format!("no Content-Length in {:?}", show(&data[..he])))? as usize;
    if data.len() - he < cl {
        return Err(format!("body has {} bytes, Content-Length says {}", data.len() - he, cl));
    }
    Ok(Msg { start, headers, body: data[he..he + cl].to_vec(), used: he + cl })
}

pub fn is_tchar(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}

/// First letter of each hyphen-separated part upper-case, the others lower-case.
pub fn canon(name: &str) -> String {
    let mut up = true;
    name.chars()
        .map(|c| {
            let r = if up { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            if c.is_ascii_alphanumeric() {
                up = false;
            }
            if c == '-' {
                up = true;
            }
            r
        })
        .collect()
}

pub fn show(d: &[u8]) -> String {
    let s: String = d.iter().take(300).map(|b| std::ascii::escape_default(*b).to_string()).collect();
    if d.len() > 300 {
        format!("{}… ({} bytes)", s, d.len())
    } else {
        s
    }
}

/// What happened while waiting for a message on a stream.
#[derive(Debug)]
pub enum Got {
    Msg(Msg),
    /// Closed with these bytes left over.
    Closed(Vec<u8>),
    Reset(Vec<u8>),
    Timeout(Vec<u8>),
    Bad(String),
}

/// Reads messages one after another from a stream with a read timeout set.
pub struct MsgReader {
    pub buf: Vec<u8>,
}
impl MsgReader {
    pub fn new() -> Self {
        MsgReader { buf: Vec::new() }
    }
    pub fn next(&mut self, s: &mut dyn Read) -> Got {
        self.next_until(s, None)
    }
    pub fn next_until(&mut self, s: &mut dyn Read, deadline: Option<std::time::Instant>) -> Got {
        let mut chunk = vec![0u8; 65536];
        let mut searched = 0usize;
        let mut head: Option<(usize, String, Vec<(String, String)>, usize)> = None;
        loop {
            if head.is_none() {
                let from = searched.saturating_sub(3);
                if let Some(p) = head_end(&self.buf[from..]) {
                    let he = from + p;
                    let (start, headers) = match parse_head(&self.buf[..he]) {
                        Ok(x) => x,
                        Err(e) => return Got::Bad(e),
                    };
                    let cl = match content_length(&headers) {
                        Ok(Some(n)) => n as usize,
                        Ok(None) => return Got::Bad(format!("no Content-Length in {:?}", show(&self.buf[..he]))),
                        Err(e) => return Got::Bad(e),
                    };
                    head = Some((he, start, headers, cl));
                }
                searched = self.buf.len();
            }
            if let Some((he, _, _, cl)) = &head {
                if self.buf.len() >= he + cl {
                    let (he, start, headers, cl) = head.unwrap();
                    let body = self.buf[he..he + cl].to_vec();
                    self.buf.drain(..he + cl);
                    return Got::Msg(Msg { start, headers, body, used: he + cl });
                }
            }
            if let Some(d) = deadline {
                if std::time::Instant::now() > d {
                    return Got::Timeout(std::mem::take(&mut self.buf));
                }
            }
            match s.read(&mut chunk) {
                Ok(0) => return Got::Closed(std::mem::take(&mut self.buf)),
                Ok(n) => self.buf.extend_from_slice(&chunk[..n]),
                Err(e) => match e.kind() {
                    std::io::ErrorKind::Interrupted => continue,
                    std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut => {
                        if deadline.is_some() {
                            continue;
                        }
                        return Got::Timeout(std::mem::take(&mut self.buf));
                    }
                    std::io::ErrorKind::UnexpectedEof => return Got::Closed(std::mem::take(&mut self.buf)),
                    _ => return Got::Reset(std::mem::take(&mut self.buf)),
                },
            }
        }
    }
}

/// Takes one complete message off the front of the buffer, if there is one.
pub fn try_take(buf: &mut Vec<u8>) -> Option<Result<Msg, String>> {
    let he = match head_end(buf) {
        Some(h) => h,
        None if buf.len() > (1 << 20) => return Some(Err("a megabyte without the end of a header block".into())),
        None => return None,
    };
    let (start, headers) = match parse_head(&buf[..he]) {
        Ok(x) => x,
        Err(e) => return Some(Err(e)),
    };
    let cl = match content_length(&headers) {
        Ok(Some(n)) => n as usize,
        Ok(None) => return Some(Err(format!("no Content-Length in {:?}", show(&buf[..he])))),
        Err(e) => return Some(Err(e)),
    };
    if buf.len() < he + cl {
        return None;
    }
    let rest = buf.split_off(he + cl);
    let body = buf.split_off(he);
    *buf = rest;
    Some(Ok(Msg { start, headers, body, used: he + cl }))
}
