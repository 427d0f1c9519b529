//! C19 C23: TLS servers, key and certificate files.
use crate::conv::*;
use crate::fw::*;
use crate::srv::*;
use crate::{hard, soft};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::net::TcpStream;
use std::time::Duration;
use wruster::{Certificate, PrivateKey, Server};

// ---------------------------------------------------------------- C19

/// Key and certificate files a server may be given.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Bad {
    key: Mat,
    cert: Mat,
    /// What clients do to it: bytes sent in the clear.
    plain: Vec<u8>,
    cut: u16,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
pub enum Mat {
    Ec,
    Rsa,
    Sec1,
    Rsa1,
    /// The EC item with one byte changed.
    Flip(u16, u8),
    /// Bytes in a section of the right kind.
    Junk(Vec<u8>),
}

fn pem(label: &str, der: &[u8]) -> String {
    let mut s = format!("-----BEGIN {}-----\n", label);
    for l in base64(der).as_bytes().chunks(64) {
        s.push_str(std::str::from_utf8(l).unwrap());
        s.push('\n');
    }
    s + &format!("-----END {}-----\n", label)
}

const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn base64(d: &[u8]) -> String {
    let mut s = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(B64[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

/// The bytes of the first section of a PEM text of ours.
pub fn unpem(s: &str) -> Vec<u8> {
    let mut out = Vec::new();
    let (mut acc, mut bits) = (0u32, 0);
    for l in s.lines().skip(1).take_while(|l| !l.starts_with("-----")) {
        for c in l.bytes().filter(|c| *c != b'=') {
            let v = B64.iter().position(|b| *b == c).unwrap() as u32;
            acc = acc << 6 | v;
            bits += 6;
            if bits >= 8 {
                bits -= 8;
                out.push((acc >> bits) as u8);
                acc &= (1 << bits) - 1;
            }
        }
    }
    out
}

pub fn material(m: &Mat, key: bool) -> String {
    let label = if key { "PRIVATE KEY" } else { "CERTIFICATE" };
    match (m, key) {
        (Mat::Rsa, true) => RSA_KEY.into(),
        (Mat::Rsa, false) | (Mat::Rsa1, false) => RSA_CRT.into(),
        (Mat::Sec1, true) => SEC1_KEY.into(),
        (Mat::Rsa1, true) => RSA1_KEY.into(),
        (Mat::Ec, true) => EC_KEY.into(),
        (Mat::Ec, false) | (Mat::Sec1, false) => EC_CRT.into(),
        (Mat::Flip(at, x), _) => {
            let mut d = unpem(if key { EC_KEY } else { EC_CRT });
            let i = *at as usize * d.len() / 65536;
            d[i] ^= *x;
            pem(label, &d)
        }
        (Mat::Junk(b), _) => pem(label, b),
    }
}

fn bad() -> BoxedStrategy<Bad> {
    let mat = || {
        prop_oneof![
            2 => Just(Mat::Ec), 2 => Just(Mat::Rsa), 1 => Just(Mat::Sec1), 1 => Just(Mat::Rsa1),
            2 => (any::<u16>(), 1u8..=255).prop_map(|(a, b)| Mat::Flip(a, b)),
            2 => vec(any::<u8>(), 0..80).prop_map(Mat::Junk),
        ]
    };
    let plain = prop_oneof![
        1 => Just(b"GET /c0/r0 HTTP/1.1\r\n\r\n".to_vec()),
        1 => vec(any::<u8>(), 0..600),
        1 => vec(any::<u8>(), 0..600).prop_map(|v| { let mut h = vec![0x16, 3, 1, (v.len() >> 8) as u8, v.len() as u8]; h.extend(v); h }),
    ];
    (mat(), mat(), plain, any::<u16>()).prop_map(|(key, cert, plain, cut)| Bad { key, cert, plain, cut }).boxed()
}

/// Sends bytes in the clear and reads what comes back, for a short time.
pub fn plainly(addr: &str, data: &[u8]) -> Option<Vec<u8>> {
    let mut s = TcpStream::connect(addr).ok()?;
    s.set_read_timeout(Some(Duration::from_millis(300))).ok()?;
    let _ = s.write_all(data);
    let _ = s.shutdown(std::net::Shutdown::Write);
    let mut got = Vec::new();
    let mut buf = [0; 4096];
    while let Ok(n) = s.read(&mut buf) {
        if n == 0 {
            break;
        }
        got.extend_from_slice(&buf[..n]);
    }
    Some(got)
}

fn run_bad(ctx: &Ctx, b: &Bad, o: &mut Obs) -> R {
    let kf = write_file(ctx, "bad-key.pem", material(&b.key, true).as_bytes());
    let cf = write_file(ctx, "bad-cert.pem", material(&b.cert, false).as_bytes());
    let pair = |k: &Mat, c: &Mat| matches!((k, c), (Mat::Ec | Mat::Sec1, Mat::Ec | Mat::Sec1) | (Mat::Rsa | Mat::Rsa1, Mat::Rsa | Mat::Rsa1));
    let good = pair(&b.key, &b.cert);
    o.nontrivial(!good);
    let loaded = no_panic(|| (PrivateKey::read_from(&kf), Certificate::read_from(&cf)));
    let (key, cert) = match loaded {
        Err(p) => hard!("reading the files panics: {}", p),
        Ok((Ok(k), Ok(c))) => (k, c),
        Ok((Err(e), _)) if b.key != Mat::Junk(vec![]) => hard!("a private key section is refused: {}", e),
        Ok((_, Err(e))) if b.cert != Mat::Junk(vec![]) => hard!("a certificate section is refused: {}", e),
        Ok(_) => {
            o.class("file refused");
            return Ok(());
        }
    };
    let rqs = Rq { method: 0, v10: false, conn: None, headers: vec![], clen_spell: 0, body: None, consume: Consume::Nothing, rsp: Rsp::Str(50), spoil: 0 };
    let plan = Plan::new(vec![vec![rqs.clone()]]);
    let mut server = Server::from_timeouts(default_timeouts());
    let addr = free_addr(ctx);
    let routes = plan.routes();
    match no_panic(|| server.run_tls(&addr, routes, key, cert).map_err(|e| e.to_string())) {
        Err(p) => hard!("starting a TLS server with this key and certificate panics: {}", p),
        Ok(Err(e)) => {
            if good {
                hard!("a good key and certificate are refused: {}", e);
            }
            o.class("refused at the start");
            return Ok(());
        }
        Ok(Ok(())) => (),
    }
    let before = panics();
    for round in 0..2 {
        match plainly(&addr, &b.plain) {
            None => hard!("connection {} to the TLS server is refused", round),
            Some(got) if got.starts_with(b"HTTP") => hard!("the TLS server answers in the clear: {}", crate::refhttp::show(&got)),
            Some(_) => (),
        }
        // A client hello that ends early.
        let mut hello = Vec::new();
        let _ = crate::conn::tls_client(None, false).write_tls(&mut hello);
        if let Some(got) = plainly(&addr, &hello[..hello.len() * b.cut as usize / 65536]) {
            if got.starts_with(b"HTTP") {
                hard!("the TLS server answers in the clear");
            }
        }
        if good {
            let t = Talk { reqs: vec![(rqs.clone(), true)], tail: Tail::HalfClose, frag: vec![], gap_us: 0, read_size: 65536, read_gap_us: 0, tls12: round == 0, max_fragment: None, slow: None };
            let plan2 = plan.clone();
            plan2.seen.lock().unwrap().clear();
            let mut o2 = Obs::default();
            converse(&t, 0, &plan2, &addr, true, &mut o2)?;
            o.class("served");
        }
    }
    if !good {
        let mut c = match crate::conn::Conn::connect(&addr) {
            Ok(c) => c,
            Err(e) => hard!("a connection to the TLS server is refused: {}", e),
        }
        .with_tls(crate::conn::tls_client(None, false));
        c.send(&rqs.render(0, 0));
        c.until(long(), |c| !c.msgs.is_empty());
        o.class_if(!c.msgs.is_empty(), "altered, still served");
        o.class_if(c.msgs.is_empty(), "no handshake");
        if c.st == crate::conn::St::Open && c.msgs.is_empty() {
            soft!("a client's handshake with the server neither fails nor ends within {:?}", LONG);
        }
    }
    if panics() > before {
        hard!("{} panics in the server", panics() - before);
    }
    shutdown_within(server, LONG)
}

pub fn c19() -> Property {
    Property {
        id: "C19",
        assumptions: &[
            "the client side is rustls' own client, with every record and read under the test's control",
            "closing without a close_notify alert is not checked: HTTP messages are delimited by their length",
        ],
        suites: vec![
            suite(
                Opts { name: "conversations", rule: "C10's conversations over TLS 1.2 and 1.3 with EC and RSA keys, generated record sizes (32 B-16 KiB), ciphertext fragments, reading sizes and pauses, bodies up to 80 KB and responses up to 200 KB; non-trivial: at least two requests or fragmented", quick: 2_400, thorough: 60_000, shards: 8, shrink: 300, pure: false },
                |_| (talk(5, 80_000, 200_000, 1), any::<bool>()).boxed(),
                c19_talk,
            ),
            suite(
                Opts { name: "large", rule: "the same with bodies and responses up to 3 MiB", quick: 160, thorough: 4_000, shards: 8, shrink: 60, pure: false },
                |_| (talk(3, 3 * (1 << 20) + 5, 3 * (1 << 20) + 5, 1), any::<bool>()).boxed(),
                c19_talk,
            ),
            suite(
                Opts { name: "slow reader", rule: "1-3 requests with responses up to 3 MiB through small socket buffers to a client that for up to 60 ms reads nothing, at the start or when up to 200 KB are left; non-trivial: at least two requests or fragmented", quick: 400, thorough: 8_000, shards: 8, shrink: 30, pure: false },
                |_| (slow_talk(), any::<bool>()).boxed(),
                c19_talk,
            ),
            suite(
                Opts { name: "material", rule: "keys and certificates that match, don't, are altered in a byte or are junk; then bytes in the clear, cut handshakes and whole ones; non-trivial: the pair is not a good one", quick: 240, thorough: 6_000, shards: 8, shrink: 100, pure: false },
                |_| bad(),
                run_bad,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C23

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Sec {
    Cert(Vec<u8>),
    /// One of the four good keys.
    Key(u8),
    /// A section of another kind.
    Other(u8, Vec<u8>),
    Text(String),
    Malformed(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PemFile {
    secs: Vec<Sec>,
    /// Cuts the file in the last section.
    cut: Option<u16>,
    width: usize,
    eol: u8,
    trail: u8,
    final_eol: bool,
}

const OTHERS: [&str; 7] = ["EC PARAMETERS", "X509 CRL", "PUBLIC KEY", "DH PARAMETERS", "ENCRYPTED PRIVATE KEY", "TRUSTED CERTIFICATE", "RSA PUBLIC KEY"];

fn key_text(k: u8) -> (&'static str, &'static str) {
    match k % 4 {
        0 => (EC_KEY, "PRIVATE KEY"),
        1 => (RSA_KEY, "PRIVATE KEY"),
        2 => (SEC1_KEY, "EC PRIVATE KEY"),
        _ => (RSA1_KEY, "RSA PRIVATE KEY"),
    }
}

impl PemFile {
    fn put(&self, out: &mut String, l: &str) {
        out.push_str(l);
        for _ in 0..self.trail {
            out.push(' ');
        }
        out.push_str(["\n", "\r\n", "\r"][self.eol as usize % 3]);
    }
    fn section(&self, out: &mut String, label: &str, der: &[u8]) {
        self.put(out, &format!("-----BEGIN {}-----", label));
        for l in base64(der).as_bytes().chunks(self.width) {
            self.put(out, std::str::from_utf8(l).unwrap());
        }
        self.put(out, &format!("-----END {}-----", label));
    }
    fn render(&self) -> Vec<u8> {
        let mut s = String::new();
        let mut start = 0;
        for x in &self.secs {
            start = s.len();
            match x {
                Sec::Cert(d) => self.section(&mut s, "CERTIFICATE", d),
                Sec::Key(k) => {
                    let (t, label) = key_text(*k);
                    self.section(&mut s, label, &unpem(t));
                }
                Sec::Other(k, d) => self.section(&mut s, OTHERS[*k as usize % OTHERS.len()], d),
                Sec::Text(t) => self.put(&mut s, t),
                // Wrong in any section: characters that aren't base64, a bad length, a bad first line.
                Sec::Malformed(k) => {
                    let label = ["CERTIFICATE", "PRIVATE KEY"][(*k as usize / 4) % 2];
                    match k % 4 {
                        0 => {
                            self.put(&mut s, &format!("-----BEGIN {}-----", label));
                            self.put(&mut s, "MIIB!!!!");
                            self.put(&mut s, &format!("-----END {}-----", label));
                        }
                        1 => {
                            self.put(&mut s, &format!("-----BEGIN {}-----", label));
                            self.put(&mut s, "MIIBA");
                            self.put(&mut s, &format!("-----END {}-----", label));
                        }
                        2 => self.put(&mut s, &format!("-----BEGIN {}----", label)),
                        _ => {
                            self.put(&mut s, &format!("-----BEGIN {}-----", label));
                            self.put(&mut s, "Proc-Type: 4,ENCRYPTED");
                            self.put(&mut s, "MIIB");
                            self.put(&mut s, &format!("-----END {}-----", label));
                        }
                    }
                }
            }
        }
        if let Some(c) = self.cut {
            // Within the section: after its first line, before its last.
            let from = start + s[start..].find("-----BEGIN").unwrap() + 12;
            let to = start + s[start..].find("-----END").unwrap();
            let from = from + s[from..].find(['\n', '\r']).unwrap();
            s.truncate(from + (to - from) * c as usize / 65535);
        } else if !self.final_eol {
            while s.ends_with(['\n', '\r']) {
                s.pop();
            }
        }
        s.into_bytes()
    }
    /// What reading must give: the index of the first wanted section; None when
    /// it must fail.
    fn want(&self, wanted: impl Fn(&Sec) -> bool) -> Option<usize> {
        let n = self.secs.len();
        for (i, s) in self.secs.iter().enumerate() {
            let cut = self.cut.is_some() && i + 1 == n;
            if cut || matches!(s, Sec::Malformed(_)) {
                return None;
            }
            if wanted(s) {
                return Some(i);
            }
        }
        None
    }
    fn malformed(&self) -> bool {
        self.cut.is_some() || self.secs.iter().any(|s| matches!(s, Sec::Malformed(_)))
    }
}

fn pem_file() -> BoxedStrategy<PemFile> {
    let text = prop_oneof![
        1 => Just(String::new()),
        1 => "[ -~]{0,60}".prop_filter("no section", |s| !s.starts_with("-----BEGIN ")),
        1 => select(vec!["subject=CN = localhost", "# a comment", "Bag Attributes", "-----END CERTIFICATE-----", "-----END PRIVATE KEY-----", "----BEGIN CERTIFICATE-----", " -----BEGIN CERTIFICATE-----", "ñandú"]).prop_map(|s| s.to_string()),
    ];
    let der = || prop_oneof![2 => vec(any::<u8>(), 0..200), 1 => vec(any::<u8>(), 200..9000), 1 => Just(unpem(EC_CRT)), 1 => Just(unpem(RSA_CRT))];
    let sec = prop_oneof![
        4 => der().prop_map(Sec::Cert),
        4 => (0u8..4).prop_map(Sec::Key),
        3 => (any::<u8>(), der()).prop_map(|(k, d)| Sec::Other(k, d)),
        3 => text.prop_map(Sec::Text),
        1 => (0u8..8).prop_map(Sec::Malformed),
    ];
    (
        vec(sec, 0..7),
        proptest::option::weighted(0.15, any::<u16>()),
        prop_oneof![3 => Just(64usize), 1 => 1usize..200],
        prop_oneof![3 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)],
        prop_oneof![3 => Just(0u8), 1 => 1u8..4],
        proptest::bool::weighted(0.7),
    )
        .prop_map(|(secs, cut, width, eol, trail, final_eol)| {
            // Only a section can be cut.
            let cut = cut.filter(|_| matches!(secs.last(), Some(Sec::Cert(_) | Sec::Key(_) | Sec::Other(..))));
            PemFile { secs, cut, width, eol, trail, final_eol }
        })
        .boxed()
}

fn run_pem(ctx: &Ctx, f: &PemFile, o: &mut Obs) -> R {
    let path = write_file(ctx, "file.pem", &f.render());
    o.nontrivial(f.secs.len() >= 2);
    let cert = match no_panic(|| Certificate::read_from(&path)) {
        Ok(c) => c,
        Err(p) => hard!("reading a certificate file panics: {}", p),
    };
    match (f.want(|s| matches!(s, Sec::Cert(_))), cert) {
        (None, Ok(_)) => hard!("a certificate is read from a file without a certificate before its malformed section or end"),
        (None, Err(_)) => o.class("certificate refused"),
        (Some(i), Ok(c)) => {
            o.class("certificate read");
            let got: Vec<u8> = (&c).into();
            let again: Vec<u8> = (&c.clone()).into();
            if let Sec::Cert(want) = &f.secs[i] {
                if &got != want || again != got {
                    hard!("the certificate read has {} bytes, the first in the file has {} (or they differ)", got.len(), want.len());
                }
            }
        }
        // A malformed section after the first certificate may be an error too.
        (Some(_), Err(e)) => {
            if !f.malformed() {
                hard!("a file with a certificate is refused: {}", e);
            }
            o.class("certificate before a malformed section refused");
        }
    }
    let key = match no_panic(|| PrivateKey::read_from(&path)) {
        Ok(c) => c,
        Err(p) => hard!("reading a key file panics: {}", p),
    };
    match (f.want(|s| matches!(s, Sec::Key(_))), key) {
        (None, Ok(_)) => hard!("a key is read from a file without a key before its malformed section or end"),
        (None, Err(_)) => o.class("key refused"),
        (Some(_), Ok(_)) => o.class("key read"),
        (Some(_), Err(e)) => {
            if !f.malformed() {
                hard!("a file with a private key is refused: {}", e);
            }
            o.class("key before a malformed section refused");
        }
    }
    Ok(())
}

/// Whether a TLS handshake works with this key and the certificate.
fn handshake(ctx: &Ctx, key: PrivateKey, rsa: bool) -> Result<bool, Fail> {
    let (_, cert) = key_and_cert(ctx, rsa)?;
    let mut server = Server::from_timeouts(default_timeouts());
    let addr = free_addr(ctx);
    if server.run_tls(&addr, wruster::router::Router::new(), key, cert).is_err() {
        return Ok(false);
    }
    let r = (|| {
        let mut c = match crate::conn::Conn::connect(&addr) {
            Ok(c) => c,
            Err(e) => soft!("cannot connect: {}", e),
        }
        .with_tls(crate::conn::tls_client(None, false));
        c.send(b"GET / HTTP/1.1\r\n\r\n");
        if c.until(long(), |c| !c.msgs.is_empty()) {
            return Ok(true);
        }
        if c.st == crate::conn::St::Open {
            soft!("the handshake neither fails nor ends");
        }
        Ok(false)
    })();
    shutdown_within(server, LONG)?;
    r
}

/// A file with several keys of two pairs: the first must be the one used.
fn run_first_key(ctx: &Ctx, f: &PemFile, o: &mut Obs) -> R {
    let path = write_file(ctx, "file.pem", &f.render());
    let want = match f.want(|s| matches!(s, Sec::Key(_))) {
        Some(i) => i,
        None => return Ok(()),
    };
    let k = match &f.secs[want] {
        Sec::Key(k) => *k,
        _ => unreachable!(),
    };
    let key = match PrivateKey::read_from(&path) {
        Ok(k) => k,
        Err(e) if f.malformed() => {
            let _ = e;
            return Ok(());
        }
        Err(e) => hard!("a file with a private key is refused: {}", e),
    };
    let rsa = k % 2 == 1;
    o.nontrivial(f.secs.iter().any(|s| matches!(s, Sec::Key(x) if x % 2 != k % 2)));
    if !handshake(ctx, key.clone(), rsa)? {
        hard!("the key read is not the first in the file: no handshake with its certificate");
    }
    Ok(())
}

fn run_junk(ctx: &Ctx, case: &(PemFile, Vec<(u16, u8)>, Vec<u8>, bool), o: &mut Obs) -> R {
    let (f, edits, junk, only_junk) = case;
    let mut d = if *only_junk { junk.clone() } else { f.render() };
    let n = d.len();
    for (at, x) in edits {
        if n > 0 {
            d[*at as usize * n / 65536] = *x;
        }
    }
    o.nontrivial(!d.is_empty());
    let path = write_file(ctx, "junk.pem", &d);
    if let Err(p) = no_panic(|| {
        let _ = Certificate::read_from(&path);
        let _ = PrivateKey::read_from(&path);
    }) {
        hard!("reading the file panics: {}", p);
    }
    if !d.windows(11).any(|w| w == b"-----BEGIN ") {
        if Certificate::read_from(&path).is_ok() {
            hard!("a certificate is read from a file without any section");
        }
        if PrivateKey::read_from(&path).is_ok() {
            hard!("a key is read from a file without any section");
        }
    }
    Ok(())
}

fn run_missing(ctx: &Ctx, name: &String, o: &mut Obs) -> R {
    let dir = ctx.scratch.join("empty");
    let _ = std::fs::create_dir(&dir);
    o.nontrivial(true);
    for p in [dir.join(name).to_string_lossy().to_string(), dir.to_string_lossy().to_string(), name.clone()] {
        match no_panic(|| (Certificate::read_from(&p).is_ok(), PrivateKey::read_from(&p).is_ok())) {
            Err(e) => hard!("reading {:?} panics: {}", p, e),
            Ok((false, false)) => (),
            Ok(x) => hard!("reading {:?} succeeds: {:?}", p, x),
        }
    }
    Ok(())
}

pub fn c23() -> Property {
    Property {
        id: "C23",
        assumptions: &[
            "a file with a malformed section after the first wanted one may be refused or read",
            "a section that is never ended is only generated at the end of the file",
        ],
        suites: vec![
            suite(
                Opts { name: "files", rule: "0-6 sections (certificates, four kinds of keys, other kinds, free text, malformed ones), line widths 1-200, LF, CR LF or CR, trailing blanks, the last section possibly cut; non-trivial: at least two sections", quick: 30_000, thorough: 1_000_000, shards: 8, shrink: 2000, pure: true },
                |_| pem_file(),
                run_pem,
            ),
            suite(
                Opts { name: "first key", rule: "the same; the key read is used in a TLS server with the certificate of the first key; non-trivial: the file has keys of both pairs", quick: 320, thorough: 6_000, shards: 8, shrink: 100, pure: false },
                |_| pem_file(),
                run_first_key,
            ),
            suite(
                Opts { name: "junk", rule: "PEM files with bytes overwritten and arbitrary bytes: no panic; non-trivial: not empty", quick: 40_000, thorough: 2_000_000, shards: 8, shrink: 2000, pure: true },
                |_| (pem_file(), vec((any::<u16>(), prop_oneof![1 => any::<u8>(), 1 => select(b"-\n\r =BEGIN".to_vec())]), 0..6), vec(prop_oneof![1 => any::<u8>(), 3 => select(b"-----BEGIN CERT\n\r".to_vec())], 0..300), proptest::bool::weighted(0.3)).boxed(),
                run_junk,
            ),
            suite(
                Opts { name: "missing", rule: "names of no file, and a directory; non-trivial: all", quick: 400, thorough: 4_000, shards: 1, shrink: 100, pure: true },
                |_| "[a-zA-Z0-9./]{1,40}".prop_map(|s| format!("x{}", s)).boxed(),
                run_missing,
            ),
        ],
    }
}
