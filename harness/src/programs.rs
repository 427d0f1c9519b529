//! C26: what the programs make of their command lines.
use crate::conn::*;
use crate::fw::*;
use crate::handlers::Prog;
use crate::srv::*;
use crate::tls::{material, plainly, unpem, Mat};
use crate::{ensure, hard, soft};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::net::TcpListener;
use std::time::Instant;

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
enum Addr {
    Free,
    /// Another program listens there.
    Taken,
    Unusable(String),
}

/// A file given as key or certificate.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
enum Given {
    Section(Mat),
    /// The section after another one that is not of its kind, and text.
    After(Mat),
    NoSection(String),
    Missing,
    Directory,
    /// An empty value.
    Empty,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Line {
    dummy: bool,
    addr: Addr,
    key: Option<Given>,
    cert: Option<Given>,
    /// How options are spelt, and where they stand.
    spelling: u8,
    /// Something wrong with the arguments.
    fault: Option<u8>,
    level: Option<String>,
    tls12: bool,
}

fn file_of(ctx: &Ctx, g: &Given, key: bool) -> String {
    let name = if key { "p-key.pem" } else { "p-cert.pem" };
    match g {
        Given::Section(m) => write_file(ctx, name, material(m, key).as_bytes()),
        Given::After(m) => {
            let other = if key { material(m, false) } else { material(m, true) };
            write_file(ctx, name, format!("some text\n{}more of it\n{}", other, material(m, key)).as_bytes())
        }
        Given::NoSection(s) => write_file(ctx, name, s.as_bytes()),
        Given::Missing => ctx.scratch.join("there-is-no-such-file.pem").to_str().unwrap().into(),
        Given::Directory => ctx.scratch.to_str().unwrap().into(),
        Given::Empty => String::new(),
    }
}

fn mat(g: &Option<Given>) -> Option<&Mat> {
    match g {
        Some(Given::Section(m) | Given::After(m)) => Some(m),
        _ => None,
    }
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
enum Expect {
    Plain,
    Tls,
    /// Ends with an error, or at least serves nothing in the clear.
    NoContent,
    Error,
}

fn expected(l: &Line) -> Expect {
    if l.fault.is_some() || l.addr != Addr::Free {
        return Expect::Error;
    }
    if l.dummy || (l.key.is_none() && l.cert.is_none()) {
        return Expect::Plain;
    }
    // One of them without the other, or without its section.
    let (k, c) = match (mat(&l.key), mat(&l.cert)) {
        (Some(k), Some(c)) => (k, c),
        _ => return Expect::Error,
    };
    match (k, c) {
        (Mat::Ec | Mat::Sec1, Mat::Ec | Mat::Sec1) | (Mat::Rsa | Mat::Rsa1, Mat::Rsa | Mat::Rsa1) => Expect::Tls,
        _ => Expect::NoContent,
    }
}

const CONFIG: &str = "only:\n  path: /x.txt\n  method: GET\n  response:\n    status: 200\n    content: served\n    content_type: text/plain\n";

fn command_line(ctx: &Ctx, l: &Line, addr: &str) -> Vec<String> {
    let mut pos = vec![addr.to_string()];
    if l.dummy {
        pos.push(write_file(ctx, "routes.yaml", CONFIG.as_bytes()));
        match l.fault.map(|f| f % 4) {
            Some(0) => {
                pos.pop();
            }
            Some(1) => pos.clear(),
            Some(2) => pos.push("another".into()),
            Some(_) => pos[1] = ctx.scratch.join("there-is-no-such-file.yaml").to_str().unwrap().into(),
            None => (),
        }
        return pos;
    }
    let dir = ctx.scratch.join("served");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("x.txt"), "served").unwrap();
    pos.push(dir.to_str().unwrap().into());
    let mut opts: Vec<Vec<String>> = Vec::new();
    for (name, given, key) in [("--tls-private", &l.key, true), ("--tls-cert", &l.cert, false)] {
        if let Some(g) = given {
            let f = file_of(ctx, g, key);
            opts.push(if l.spelling & 1 == 0 { vec![name.into(), f] } else { vec![format!("{}={}", name, f)] });
        }
    }
    if l.spelling & 2 != 0 {
        opts.reverse();
    }
    match l.fault.map(|f| f % 5) {
        Some(0) => {
            pos.pop();
        }
        Some(1) => pos.clear(),
        Some(2) => pos.push("another".into()),
        Some(3) if !opts.is_empty() => opts.push(opts[0].clone()),
        Some(_) => opts.push(vec!["--tls-nothing".into()]),
        None => (),
    }
    let opts: Vec<String> = opts.concat();
    match l.spelling & 12 {
        0 => [opts, pos].concat(),
        4 => [pos, opts].concat(),
        _ if pos.is_empty() => opts,
        _ => [pos[..1].to_vec(), opts, pos[1..].to_vec()].concat(),
    }
}

fn line(ctx: &Ctx, l: &Line, o: &mut Obs) -> R {
    let mut owner = None;
    let addr = match &l.addr {
        Addr::Free => free_addr(ctx),
        Addr::Taken => {
            let s = TcpListener::bind((ctx.ip().as_str(), 0)).map_err(|e| Fail::Soft(format!("cannot listen: {}", e)))?;
            let a = s.local_addr().unwrap().to_string();
            s.set_nonblocking(true).unwrap();
            owner = Some(s);
            a
        }
        Addr::Unusable(s) => s.clone(),
    };
    let args = command_line(ctx, l, &addr);
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let name = if l.dummy { "wrusdummy" } else { "wrustatic" };
    let expect = expected(l);
    o.class(format!("{}: {:?}", name, expect));
    o.class_if(l.level.is_some(), "with a log");
    o.nontrivial(expect != Expect::Plain);
    let mut prog = Prog::start_logging(name, &args, l.level.as_deref())?;
    let until = long();
    let free = l.addr == Addr::Free;
    // It listens, or it ends.
    let ended = loop {
        if let Some(c) = prog.ended() {
            break Some(c);
        }
        if free && std::net::TcpStream::connect(&addr).is_ok() {
            break None;
        }
        if Instant::now() > until {
            soft!("{} {:?}: it neither listens nor ends within {:?}", name, args, LONG);
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    };
    match (expect, ended) {
        (Expect::Error | Expect::NoContent, Some(0)) => hard!("{} {:?} ends with success", name, args),
        // A panic's, and that of a signal.
        (Expect::Error | Expect::NoContent, Some(c)) if c == 101 || c < 0 => hard!("{} {:?} ends with {}", name, args, c),
        (Expect::Error | Expect::NoContent, Some(_)) => {
            if let Some(s) = owner {
                let mut c = std::net::TcpStream::connect(&addr);
                for _ in 0..1000 {
                    if s.accept().is_ok() {
                        return Ok(());
                    }
                    std::thread::sleep(std::time::Duration::from_millis(1));
                    c = c.or_else(|_| std::net::TcpStream::connect(&addr));
                }
                soft!("the owner of the address does not get a connection");
            }
            return Ok(());
        }
        (Expect::Error, None) => hard!("{} {:?} serves instead of ending with an error", name, args),
        (_, Some(c)) => hard!("{} {:?} ends with {} instead of serving", name, args, c),
        (_, None) => (),
    }
    let get = b"GET /x.txt HTTP/1.1\r\n\r\n";
    if expect == Expect::Plain {
        let mut c = Conn::connect(&addr).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)))?;
        for _ in 0..2 {
            let m = c.ask(get, LONG)?;
            ensure!(m.status() == Some(200) && m.body == b"served", "{} {:?} answers {:?}", name, args, m.start);
        }
        // Not over TLS.
        let mut c = Conn::connect(&addr).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)))?.with_tls(tls_client(None, l.tls12));
        c.until(long(), |c| c.st != St::Open || !c.tls.as_ref().unwrap().is_handshaking());
        ensure!(c.tls.as_ref().unwrap().is_handshaking(), "{} {:?} uses TLS", name, args);
    } else {
        if let Some(got) = plainly(&addr, get) {
            ensure!(!got.starts_with(b"HTTP"), "{} {:?} answers in the clear: {}", name, args, crate::refhttp::show(&got));
        }
        let mut c = Conn::connect(&addr).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)))?.with_tls(tls_client(None, l.tls12));
        c.send(get);
        c.until(long(), |c| !c.msgs.is_empty());
        if expect == Expect::Tls {
            if c.msgs.is_empty() {
                soft!("{} {:?} does not answer over TLS: {}", name, args, c.describe());
            }
            ensure!(c.msgs[0].status() == Some(200) && c.msgs[0].body == b"served", "{} {:?} answers {:?}", name, args, c.msgs[0].start);
            let want = unpem(&material(mat(&l.cert).unwrap(), false));
            let got = c.tls.as_ref().unwrap().peer_certificates().and_then(|c| c.first()).map(|c| c.0.clone());
            ensure!(got.as_deref() == Some(&want[..]), "{} {:?} shows another certificate than the one given", name, args);
        } else if c.msgs.is_empty() && c.st == St::Open {
            soft!("a client's handshake with {} {:?} neither fails nor ends", name, args);
        }
    }
    if let Some(c) = prog.ended() {
        hard!("{} {:?} ended by itself with {}", name, args, c);
    }
    Ok(())
}

pub fn c26() -> Property {
    let some_mat = || {
        prop_oneof![
            4 => Just(Mat::Ec), 4 => Just(Mat::Rsa), 2 => Just(Mat::Sec1), 2 => Just(Mat::Rsa1),
            1 => (any::<u16>(), 1u8..=255).prop_map(|(a, b)| Mat::Flip(a, b)),
            1 => proptest::collection::vec(any::<u8>(), 1..80).prop_map(Mat::Junk),
        ]
    };
    let given = move || {
        prop_oneof![
            8 => some_mat().prop_map(Given::Section),
            2 => some_mat().prop_map(Given::After),
            1 => select(vec!["", "no sections here\n", "-----BEGIN NOTHING-----\nQUJD\n-----END NOTHING-----\n"]).prop_map(|s| Given::NoSection(s.into())),
            1 => Just(Given::Missing),
            1 => Just(Given::Empty),
            1 => Just(Given::Directory),
        ]
    };
    let pair = move || {
        prop_oneof![
            3 => Just((None, None)),
            6 => select(vec![(Mat::Ec, Mat::Ec), (Mat::Sec1, Mat::Ec), (Mat::Rsa, Mat::Rsa), (Mat::Rsa1, Mat::Rsa)]).prop_flat_map(|(k, c)| {
                (prop_oneof![Just(Given::Section(k.clone())), Just(Given::After(k))], prop_oneof![Just(Given::Section(c.clone())), Just(Given::After(c))])
                    .prop_map(|(k, c)| (Some(k), Some(c)))
            }),
            5 => (given(), given()).prop_map(|(k, c)| (Some(k), Some(c))),
            1 => select(vec![(true, true), (true, false), (false, true)]).prop_map(|(k, c)| (Some(if k { Given::Empty } else { Given::Section(Mat::Ec) }), Some(if c { Given::Empty } else { Given::Section(Mat::Ec) }))),
            1 => given().prop_map(|k| (Some(k), None)),
            1 => given().prop_map(|c| (None, Some(c))),
        ]
    };
    let addr = || {
        prop_oneof![
            10 => Just(Addr::Free),
            1 => Just(Addr::Taken),
            1 => select(vec!["", ":", "127.0.0.1", "127.0.0.1:", "127.0.0.1:65536", "127.0.0.1:-1", "127.0.0.1:80:80", "127.0.0.1:http", "[::1", "192.0.2.7:8080"]).prop_map(|s| Addr::Unusable(s.into())),
        ]
    };
    let level = || proptest::option::of(select(vec!["error", "info", "debug", "trace"]).prop_map(|s| s.to_string()));
    Property {
        id: "C26",
        assumptions: &[
            "a key that does not belong to its certificate, or an unusable one, may be refused at the start or make every handshake fail",
            "addresses are numeric; names are not resolved in the sandbox",
        ],
        suites: vec![suite(
            Opts { name: "lines", rule: "command lines of wrustatic (with no, one or both TLS options in either spelling and any order; keys and certificates that match, don't, are altered, junk, missing, empty, behind other sections) and of wrusdummy; missing, surplus and repeated arguments; addresses free, taken, malformed; with and without a log; non-trivial: anything but plain serving is expected", quick: 8000, thorough: 200_000, shards: 8, shrink: 60, pure: false },
            move |_| {
                (proptest::bool::weighted(0.15), addr(), pair(), any::<u8>(), proptest::option::weighted(0.12, any::<u8>()), level(), any::<bool>())
                    .prop_map(|(dummy, addr, (key, cert), spelling, fault, level, tls12)| {
                        let (key, cert) = if dummy { (None, None) } else { (key, cert) };
                        Line { dummy, addr, key, cert, spelling, fault, level, tls12 }
                    })
                    .boxed()
            },
            line,
        )],
    }
}
