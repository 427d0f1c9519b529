//! Shared generators.
use crate::io_mocks::{Blob, End};
use crate::refhttp::is_tchar;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

pub const METHODS: [&str; 9] = ["GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"];

pub fn method_of(i: usize) -> wruster::http::HttpMethod {
    use wruster::http::HttpMethod::*;
    [GET, HEAD, POST, PUT, DELETE, CONNECT, OPTIONS, TRACE, PATCH][i % 9]
}

pub fn tchars() -> Vec<char> {
    (0u8..128).filter(|b| is_tchar(*b)).map(|b| b as char).collect()
}

/// A header name that is not one the parser gives a meaning to.
pub fn header_name() -> BoxedStrategy<String> {
    let pool = select(vec!["X-A", "x-a", "X-a", "X-B", "Accept", "HOST", "host", "user-agent", "Set-Cookie", "set-COOKIE", "ETag", "X-a-1b-C2", "A"])
        .prop_map(|s| s.to_string());
    let letters = "[A-Za-z][A-Za-z0-9]{0,6}(-[A-Za-z0-9]{1,5}){0,3}";
    let any = vec(select(tchars()), 1..14).prop_map(|v| v.into_iter().collect::<String>());
    prop_oneof![4 => pool, 3 => letters, 2 => any]
        .prop_filter("framing names", |n| {
            let l = n.to_ascii_lowercase();
            l != "content-length" && l != "transfer-encoding" && l != "content-type" && l != "connection"
        })
        .boxed()
}

/// A header value as it is after trimming: visible ASCII with inner blanks.
pub fn header_value() -> BoxedStrategy<String> {
    let long = |n: usize| (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect::<String>();
    prop_oneof![
        180 => "[!-~]{1,12}",
        90 => "[!-~]([!-~ \t]{0,20}[!-~])?",
        30 => Just(String::new()),
        30 => "[!-~]{1,3}[ \t:,;=]{1,3}[!-~]{1,3}",
        28 => (7000usize..9000).prop_map(long),
        1 => (65_400usize..65_700).prop_map(long),
        1 => (9000usize..150_000).prop_map(long),
    ]
    .boxed()
}

pub fn ows() -> BoxedStrategy<String> {
    prop_oneof![3 => Just(String::new()), 3 => Just(" ".to_string()), 1 => "[ \t]{1,4}"].boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Hdr {
    pub name: String,
    pub value: String,
    pub pre: String,
    pub post: String,
}
impl Hdr {
    /// The header line; an empty value always has a blank before it ("Foo:" alone is a grey area).
    pub fn line(&self) -> String {
        let pre = if self.value.is_empty() && self.pre.is_empty() && self.post.is_empty() { " " } else { &self.pre };
        format!("{}:{}{}{}\r\n", self.name, pre, self.value, self.post)
    }
}

pub fn hdr() -> BoxedStrategy<Hdr> {
    (header_name(), header_value(), ows(), ows())
        .prop_map(|(name, value, pre, post)| Hdr { name, value, pre, post })
        .boxed()
}

pub fn hdrs(max: usize) -> BoxedStrategy<Vec<Hdr>> {
    if max < 6 {
        return vec(hdr(), 0..=max).boxed();
    }
    let small = ("[A-Z][a-z]{0,2}(-[A-Z][a-z]?)?", "[!-~]{0,3}").prop_map(|(name, value)| Hdr { name, value, pre: " ".into(), post: "".into() });
    let small = small.prop_filter("framing names", |h| h.name != "Te" && h.name != "Date");
    prop_oneof![150 => vec(hdr(), 0..=max), 1 => vec(small, 50..600)].boxed()
}

pub fn target() -> BoxedStrategy<String> {
    prop_oneof![
        100 => "/[a-zA-Z0-9._~!$&'()*+,;=:@%/?#-]{0,30}",
        20 => "[!-~]{1,20}",
        20 => Just("*".to_string()),
        20 => "http://[a-z]{1,8}(:[0-9]{1,4})?/[a-z/]{0,10}",
        20 => (8150usize..8250).prop_map(|n| format!("/{}", "p".repeat(n))),
        1 => (10_000usize..140_000).prop_map(|n| format!("/{}", "p".repeat(n))),
    ]
    .boxed()
}

/// Sizes with emphasis on the buffers in the code.
pub fn size(max: usize) -> BoxedStrategy<usize> {
    let edges: Vec<usize> = [0usize, 1, 2, 3, 4, 10, 100, 4096, 8191, 8192, 8193, 16383, 16384, 16385, 65535, 65536, 65537, 131072, (1 << 20), 2 * (1 << 20) - 1, 2 * (1 << 20), 2 * (1 << 20) + 1, 3 * (1 << 20) + 5]
        .into_iter()
        .filter(|n| *n <= max)
        .collect();
    let m1 = max.min(300);
    let m2 = max.min(20_000);
    prop_oneof![3 => select(edges), 5 => 0..=m1, 2 => 0..=m2, 1 => 0..=max].boxed()
}

pub fn blob(max: usize) -> BoxedStrategy<Blob> {
    (size(max), any::<u8>()).prop_map(|(len, seed)| Blob { len, seed }).boxed()
}

/// Chunk sizes, cycled; 0 means an interrupted call.
pub fn chunks() -> BoxedStrategy<Vec<u16>> {
    prop_oneof![
        1 => Just(vec![]),
        1 => Just(vec![1]),
        4 => vec(prop_oneof![1 => Just(0u16), 6 => 1u16..40, 1 => 40u16..4000, 1 => select(vec![8191u16, 8192, 8193])], 1..8)
            .prop_filter("progress", |v| v.iter().any(|n| *n > 0)),
    ]
    .boxed()
}

pub fn end() -> BoxedStrategy<End> {
    prop_oneof![4 => Just(End::Eof), 1 => Just(End::Reset), 1 => Just(End::TimedOut), 1 => Just(End::Other)].boxed()
}

/// Spells a name in one of several capitalisations.
pub fn respell(name: &str, how: u64) -> String {
    match how % 4 {
        0 => name.to_string(),
        1 => name.to_ascii_lowercase(),
        2 => name.to_ascii_uppercase(),
        _ => name
            .chars()
            .enumerate()
            .map(|(i, c)| if (how >> (i % 60 + 2)) & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
    }
}

pub fn mimes() -> BoxedStrategy<String> {
    select(vec!["text/plain", "application/octet-stream", "text/html; charset=utf-8", "image/png", "application/json"])
        .prop_map(|s| s.to_string())
        .boxed()
}

/// A well-formed message, to be rendered with any start line.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Wire {
    pub headers: Vec<Hdr>,
    pub ctype: Option<(String, u64)>,
    /// Content-Length present: position among the headers, spelling.
    pub clen: Option<(usize, u64)>,
    pub body: Blob,
    pub te_identity: bool,
}
impl Wire {
    pub fn has_body(&self) -> bool {
        self.clen.is_some() && self.body.len > 0
    }
    pub fn body_bytes(&self) -> Vec<u8> {
        if self.has_body() {
            self.body.bytes()
        } else {
            vec![]
        }
    }
    /// All the header fields in order: (name as sent, value).
    pub fn fields(&self) -> Vec<Hdr> {
        let mut v = self.headers.clone();
        if let Some((ct, how)) = &self.ctype {
            v.push(Hdr { name: respell("Content-Type", *how), value: ct.clone(), pre: " ".into(), post: "".into() });
        }
        if self.te_identity {
            v.push(Hdr { name: "Transfer-Encoding".into(), value: "identity".into(), pre: " ".into(), post: "".into() });
        }
        if let Some((pos, how)) = &self.clen {
            let p = pos % (v.len() + 1);
            v.insert(
                p,
                Hdr { name: respell("Content-Length", *how), value: self.body.len.to_string(), pre: " ".into(), post: if how % 7 == 3 { " ".into() } else { "".into() } },
            );
        }
        v
    }
    pub fn render(&self, start: &str) -> Vec<u8> {
        let mut out = format!("{}\r\n", start).into_bytes();
        for h in self.fields() {
            out.extend_from_slice(h.line().as_bytes());
        }
        out.extend_from_slice(b"\r\n");
        out.extend_from_slice(&self.body_bytes());
        out
    }
}

pub fn wire(max_body: usize) -> BoxedStrategy<Wire> {
    (
        hdrs(6),
        proptest::option::weighted(0.3, (mimes(), any::<u64>())),
        proptest::option::weighted(0.7, (0usize..8, any::<u64>())),
        blob(max_body),
        proptest::bool::weighted(0.05),
    )
        .prop_map(|(headers, ctype, clen, body, te_identity)| Wire { headers, ctype, clen, body, te_identity })
        .boxed()
}

pub fn version() -> BoxedStrategy<String> {
    prop_oneof![6 => Just("HTTP/1.1".to_string()), 2 => Just("HTTP/1.0".to_string())].boxed()
}

/// Compares a wruster header collection with a list of (name as sent, value).
pub fn same_headers(got: &wruster::http::headers::Headers, sent: &[(String, String)]) -> Result<(), String> {
    use std::collections::BTreeMap;
    let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (n, v) in sent {
        want.entry(n.to_ascii_lowercase()).or_default().push(v.clone());
    }
    let mut have: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (n, v) in got.iter() {
        if v.is_empty() {
            continue;
        }
        if have.insert(n.to_ascii_lowercase(), v.clone()).is_some() {
            return Err(format!("header {} is present under two spellings", n));
        }
    }
    if want != have {
        return Err(format!("headers differ: sent {:?}, reported {:?}", want, have));
    }
    Ok(())
}
