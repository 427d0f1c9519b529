//! C15 C21 C22: the static handler, the dummy program, the logging middleware.
use crate::conn::*;
use crate::conv;
use crate::fw::*;
use crate::gen::*;
use crate::io_mocks::*;
use crate::refhttp::{self, show, Msg};
use crate::srv::*;
use crate::{ensure, hard, skip, soft};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex, Once};
use std::time::{Duration, Instant};
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request, Response, StatusCode};
use wruster::router::{HttpHandler, Router};
use wruster_handlers::{log_middleware, serve_static};

// ------------------------------------------------------------- programs

/// A program of the workspace, ended with the harness and when dropped.
pub struct Prog(Child);

impl Prog {
    pub fn start(name: &str, args: &[&str]) -> Result<Prog, Fail> {
        Prog::start_logging(name, args, None)
    }
    pub fn start_logging(name: &str, args: &[&str], level: Option<&str>) -> Result<Prog, Fail> {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let mut c = Command::new(format!("{}/target/bins/release/{}", dir, name));
        c.args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).env_remove("RUST_LOG");
        if let Some(level) = level {
            c.env("RUST_LOG", level);
        }
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        c.spawn().map(Prog).map_err(|e| Fail::Skip(format!("cannot run {}: {}", name, e)))
    }
    pub fn ended(&mut self) -> Option<i32> {
        self.0.try_wait().ok().flatten().map(|s| s.code().unwrap_or(-1))
    }
    /// Waits until it accepts connections.
    pub fn ready(&mut self, addr: &str) -> R {
        let until = long();
        loop {
            if std::net::TcpStream::connect(addr).is_ok() {
                return Ok(());
            }
            if let Some(c) = self.ended() {
                return Err(Fail::Soft(format!("it ends with {} instead of serving", c)));
            }
            if Instant::now() > until {
                return Err(Fail::Soft(format!("it does not listen within {:?}", LONG)));
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
}

impl Drop for Prog {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

// ---------------------------------------------------------------- C15

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
enum Kind {
    File(Blob),
    Dir,
    Fifo,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Get {
    Exact(usize),
    /// With something put in front of a segment: "", ".", "x/..".
    Dotted(usize, Vec<String>),
    Below(usize, String),
    Above(usize, usize),
    /// Names a file outside the tree, in one of many ways.
    Escape(u8, u8),
    Any(String),
    /// Not a request: the tree changes.
    Edit(usize, Edit),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Edit {
    /// Other content, in place or of another file moved there.
    Content(Blob, bool),
    Delete,
    BecomesDir,
    /// The whole directory is removed, or made again.
    Gone,
    Back,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Tree {
    entries: Vec<(Vec<String>, Kind)>,
    gets: Vec<Get>,
    /// How the directory is given to the handler.
    dir: u8,
    /// Bytes appended between the handler's return and the writing.
    grow: u16,
    method: usize,
}

const CANARY: &str = "the canary outside the tree";

fn name() -> BoxedStrategy<String> {
    prop_oneof![
        6 => select(vec!["a", "b", "d", "a.txt", "index.html", "b.css", "c.json", "p.png", "q.jpg", "s.svg", "d.pdf", "x.TXT", "t.tar.gz", "noext", "odd.zzzz9", ".html", ".hidden", "...", "..a", "a..", "a%20b", "%2e%2e", "-", "~", "a;b", "a.txt.", "x.htm"]).prop_map(|s| s.to_string()),
        1 => select(vec!["é.txt", "a b.txt", "日本", "a\nb", "a\\b", "q?x=1", "c#d"]).prop_map(|s| s.to_string()),
        1 => "[a-z]{1,8}(\\.(txt|html|css|json|png|zzq))?",
        1 => (200usize..255).prop_map(|n| "n".repeat(n)),
    ]
    .boxed()
}

fn tree(max: usize, big: usize) -> BoxedStrategy<Tree> {
    let kind = prop_oneof![8 => blob(big).prop_map(Kind::File), 2 => Just(Kind::Dir), 1 => Just(Kind::Fifo)];
    let dots = vec(select(vec!["", "", ".", "/", "./", "x/../", "a/../", "a/b/../../"]), 1..6).prop_map(|v| v.into_iter().map(|s| s.to_string()).collect());
    let piece = prop_oneof![3 => name(), 1 => Just("..".to_string()), 1 => Just(".".to_string()), 1 => Just("".to_string())];
    let get = prop_oneof![
        4 => any::<usize>().prop_map(Get::Exact),
        2 => (any::<usize>(), dots).prop_map(|(i, d)| Get::Dotted(i, d)),
        2 => (any::<usize>(), prop_oneof![1 => name(), 1 => Just(String::new())]).prop_map(|(i, s)| Get::Below(i, s)),
        2 => (any::<usize>(), 1usize..4).prop_map(|(i, n)| Get::Above(i, n)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Get::Escape(a, b)),
        2 => vec(piece, 0..5).prop_map(|v| Get::Any(format!("/{}", v.join("/")))),
        1 => select(vec!["/", "", "a.txt", "//", "/.", "/..", "..", ".", "/../", "*", "/\0", "/a.txt\0", "/a/\0/../a"]).prop_map(|s| Get::Any(s.to_string())),
    ];
    let edit = prop_oneof![
        4 => (blob(4000), any::<bool>()).prop_map(|(b, m)| Edit::Content(b, m)),
        2 => Just(Edit::Delete),
        1 => Just(Edit::BecomesDir),
        1 => Just(Edit::Gone),
        1 => Just(Edit::Back),
    ];
    // What was changed is asked for afterwards.
    let get = prop_oneof![
        8 => get.prop_map(|g| vec![g]),
        1 => (any::<usize>(), edit, any::<bool>()).prop_map(|(i, e, before)| {
            let mut v = vec![Get::Edit(i, e), Get::Exact(i)];
            if before {
                v.insert(0, Get::Exact(i));
            }
            v
        }),
    ];
    let gets = vec(get, 1..10).prop_map(|v| v.concat());
    (vec((vec(name(), 1..4), kind), 0..=max), gets, any::<u8>(), prop_oneof![2 => Just(0u16), 1 => 1u16..3000], prop_oneof![4 => Just(0usize), 1 => 0usize..9])
        .prop_map(|(entries, gets, dir, grow, method)| Tree { entries, gets, dir, grow, method })
        .boxed()
}

struct Made {
    base: PathBuf,
    root: PathBuf,
    files: BTreeMap<Vec<String>, Vec<u8>>,
    all: Vec<Vec<String>>,
}

impl Drop for Made {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.base);
    }
}

impl Tree {
    fn make(&self, ctx: &Ctx) -> Made {
        let base = ctx.scratch.join("c15");
        let _ = std::fs::remove_dir_all(&base);
        let root = base.join("tree");
        std::fs::create_dir_all(base.join("tree-beside")).unwrap();
        std::fs::write(base.join("canary.txt"), CANARY).unwrap();
        std::fs::write(base.join("tree-beside/canary.txt"), CANARY).unwrap();
        let mut m = Made { base, root, files: BTreeMap::new(), all: vec![] };
        self.fill(&mut m);
        m
    }
    fn fill(&self, m: &mut Made) {
        std::fs::create_dir_all(&m.root).unwrap();
        m.files.clear();
        m.all.clear();
        for (p, k) in &self.entries {
            let full = m.root.join(p.join("/"));
            if full.exists() || std::fs::create_dir_all(full.parent().unwrap()).is_err() {
                continue;
            }
            let ok = match k {
                Kind::File(b) => {
                    let ok = std::fs::write(&full, b.bytes()).is_ok();
                    if ok {
                        m.files.insert(p.clone(), b.bytes());
                    }
                    ok
                }
                Kind::Dir => std::fs::create_dir(&full).is_ok(),
                Kind::Fifo => {
                    let c = std::ffi::CString::new(full.to_str().unwrap()).unwrap();
                    unsafe { libc::mkfifo(c.as_ptr(), 0o600) == 0 }
                }
            };
            if ok {
                m.all.push(p.clone());
            }
        }
    }
    fn edit(&self, i: usize, e: &Edit, m: &mut Made, o: &mut Obs) {
        // The same that `target` means.
        let p = if m.all.is_empty() { return } else { m.all[i % m.all.len()].clone() };
        let full = m.root.join(p.join("/"));
        match e {
            Edit::Content(b, moved) => {
                if !m.files.contains_key(&p) {
                    return;
                }
                if *moved {
                    let other = m.base.join("moved");
                    std::fs::write(&other, b.bytes()).unwrap();
                    std::fs::rename(&other, &full).unwrap();
                } else {
                    std::fs::write(&full, b.bytes()).unwrap();
                }
                m.files.insert(p, b.bytes());
                o.class("other content");
            }
            Edit::Delete | Edit::BecomesDir => {
                if m.files.remove(&p).is_none() {
                    return;
                }
                std::fs::remove_file(&full).unwrap();
                if matches!(e, Edit::BecomesDir) {
                    std::fs::create_dir(&full).unwrap();
                }
                o.class("file deleted");
            }
            Edit::Gone => {
                let _ = std::fs::remove_dir_all(&m.root);
                m.files.clear();
                o.class("directory gone");
            }
            Edit::Back => {
                let _ = std::fs::remove_dir_all(&m.root);
                self.fill(m);
            }
        }
    }
    fn dir_arg(&self, m: &Made) -> String {
        let r = m.root.to_str().unwrap();
        match self.dir % 5 {
            0 | 1 => r.to_string(),
            2 => format!("{}/", r),
            3 => format!("{}/../tree/.", r),
            _ => {
                let l = m.base.join("link");
                let _ = std::os::unix::fs::symlink(&m.root, &l);
                l.to_str().unwrap().to_string()
            }
        }
    }
    fn target(&self, g: &Get, m: &Made) -> String {
        let at = |i: &usize| if m.all.is_empty() { vec!["a.txt".to_string()] } else { m.all[i % m.all.len()].clone() };
        match g {
            Get::Exact(i) => format!("/{}", at(i).join("/")),
            Get::Dotted(i, d) => {
                let mut t = String::new();
                for (k, s) in at(i).iter().enumerate() {
                    t.push('/');
                    t.push_str(&d[k % d.len()]);
                    if !t.ends_with('/') {
                        t.push('/');
                    }
                    t.push_str(s);
                }
                t
            }
            Get::Below(i, s) => format!("/{}/{}", at(i).join("/"), s),
            Get::Above(i, n) => {
                let mut p = at(i);
                p.truncate(p.len().saturating_sub(*n));
                format!("/{}", p.join("/"))
            }
            Get::Escape(a, b) => {
                let abs = m.base.join(if b & 1 == 0 { "canary.txt" } else { "tree-beside/canary.txt" });
                let abs = abs.to_str().unwrap();
                let rel = if b & 1 == 0 { "canary.txt" } else { "tree-beside/canary.txt" };
                let up = "../".repeat((*b as usize >> 1) % 3 + 1);
                let first = m.all.first().map(|p| p.join("/")).unwrap_or_else(|| "a".into());
                match a % 12 {
                    0 => format!("/{}{}", up, rel),
                    1 => format!("/{}", abs),
                    2 => abs.to_string(),
                    3 => format!("{}{}", up, rel),
                    4 => format!("/{}/{}../{}", first, up, rel),
                    5 => format!("/.//{}{}", up, rel),
                    6 => format!("/..%2f{}", rel),
                    7 => format!("/%2e%2e/{}", rel),
                    8 => format!("//{}", abs),
                    9 => format!("/./{}", abs),
                    10 => format!("/../tree/../{}", rel),
                    _ => format!("/..\\{}", rel),
                }
            }
            Get::Any(s) => s.clone(),
            Get::Edit(..) => String::new(),
        }
    }
}

fn walk_model(t: &str) -> Option<Vec<String>> {
    let mut st: Vec<String> = Vec::new();
    for s in t.strip_prefix('/')?.split('/') {
        match s {
            "" | "." => (),
            ".." => {
                st.pop()?;
            }
            s => st.push(s.to_string()),
        }
    }
    Some(st)
}

/// The media type a file's name stands for; None where the table doesn't know.
fn media(name: &str) -> Option<&'static str> {
    let ext = match name.rsplit_once('.') {
        Some((stem, e)) if !stem.is_empty() => e.to_ascii_lowercase(),
        _ => return Some("application/octet-stream"),
    };
    Some(match ext.as_str() {
        "txt" => "text/plain",
        "html" | "htm" => "text/html",
        "css" => "text/css",
        "json" => "application/json",
        "png" => "image/png",
        "jpg" => "image/jpeg",
        "svg" => "image/svg+xml",
        "pdf" => "application/pdf",
        "zzzz9" | "zzq" | "" => "application/octet-stream",
        _ => return None,
    })
}

/// Compares a response with what the tree says; `strict` when the path was normalised.
fn check_get(t: &str, msg: &Msg, m: &Made, strict: bool, o: &mut Obs) -> R {
    let p = walk_model(t).or_else(|| if strict { None } else { walk_model(&format!("/{}", t)) });
    let file = p.as_ref().and_then(|p| m.files.get(p).map(|c| (p, c)));
    ensure!(!show(&msg.body).contains("canary"), "{:?} yields a file outside the directory: {:?} {:?}", t, msg.start, show(&msg.body));
    if let Some((p, want)) = file {
        if strict || msg.status() == Some(200) {
            ensure!(msg.status() == Some(200), "{:?} names a file of {} bytes, the answer is {:?}", t, want.len(), msg.start);
            ensure!(msg.body == *want, "{:?}: {} bytes {:?} instead of the file's {} {:?}", t, msg.body.len(), show(&msg.body), want.len(), show(want));
            let ct = msg.all("content-type");
            ensure!(ct.len() == 1, "{:?}: Content-Type {:?}", t, ct);
            if let Some(mt) = media(p.last().unwrap()) {
                ensure!(ct[0] == mt, "{:?}: media type {:?} instead of {:?}", t, ct[0], mt);
            }
            o.class("file served");
            return Ok(());
        }
    }
    ensure!(msg.status().is_some_and(|s| (400..600).contains(&s)), "{:?} names no file of the tree, the answer is {:?} with {} bytes {:?}", t, msg.start, msg.body.len(), show(&msg.body));
    o.class(if p.is_none() { "leaves the tree" } else { "no such file" });
    Ok(())
}

fn canonical(t: &str) -> bool {
    walk_model(t).is_some_and(|p| format!("/{}", p.join("/")) == t)
}

fn run_direct(ctx: &Ctx, t: &Tree, o: &mut Obs) -> R {
    let mut m = t.make(ctx);
    let dir = t.dir_arg(&m);
    for g in &t.gets {
        if let Get::Edit(i, e) = g {
            t.edit(*i, e, &mut m, o);
            continue;
        }
        let target = t.target(g, &m);
        let rq = Request { body: None, method: method_of(t.method), uri: target.clone(), version: "HTTP/1.1".into(), headers: Headers::new() };
        let mut resp = no_panic(|| serve_static(&dir, &rq)).map_err(|p| Fail::Hard(format!("a request for {:?} panics: {}", target, p)))?;
        let named = walk_model(&target).filter(|p| m.files.contains_key(p));
        if let (Some(p), true) = (&named, t.grow > 0) {
            let mut f = std::fs::OpenOptions::new().append(true).open(m.root.join(p.join("/"))).unwrap();
            f.write_all(&vec![b'G'; t.grow as usize]).unwrap();
            o.class("grows meanwhile");
        }
        let mut out = Vec::new();
        let w = resp.write(&mut out);
        if let Err(e) = w {
            hard!("the response to {:?} cannot be written: {}", target, e);
        }
        drop(resp);
        let msg = refhttp::parse(&out).map_err(|e| Fail::Hard(format!("the response to {:?} is no message: {}", target, e)))?;
        ensure!(msg.used == out.len(), "{:?}: {} bytes after the announced {}", target, out.len() - msg.used, msg.body.len());
        check_get(&target, &msg, &m, canonical(&target), o)?;
        if let (Some(p), true) = (&named, t.grow > 0) {
            m.files.get_mut(p).unwrap().extend(vec![b'G'; t.grow as usize]);
        }
        o.nontrivial(!m.files.is_empty());
        o.sub += 1;
    }
    Ok(())
}

fn sendable(t: &str) -> bool {
    !t.is_empty() && t.bytes().all(|b| (0x21..0x7f).contains(&b))
}

fn over_wire(t: &Tree, m: &mut Made, mut connect: impl FnMut() -> Result<Conn, Fail>, o: &mut Obs) -> R {
    let mut conn = connect()?;
    for g in &t.gets {
        if let Get::Edit(i, e) = g {
            t.edit(*i, e, m, o);
            continue;
        }
        let target = t.target(g, m);
        if !sendable(&target) {
            continue;
        }
        if conn.st != St::Open {
            conn = connect()?;
        }
        let msg = conn.ask(format!("GET {} HTTP/1.1\r\n\r\n", target).as_bytes(), LONG)?;
        check_get(&target, &msg, m, true, o)?;
        o.nontrivial(!m.files.is_empty());
        o.sub += 1;
    }
    Ok(())
}

fn run_server(ctx: &Ctx, t: &Tree, o: &mut Obs) -> R {
    let mut m = t.make(ctx);
    let dir = t.dir_arg(&m);
    let routes = Router::new();
    routes.add("/", HttpMethod::GET, Box::new(move |q: &mut Request| serve_static(&dir, q)));
    let srv = Srv::start(ctx, default_timeouts(), routes, None)?;
    over_wire(t, &mut m, || srv.connect(), o)?;
    srv.stop(LONG)
}

fn run_wrustatic(ctx: &Ctx, t: &(Tree, Option<bool>), o: &mut Obs) -> R {
    let (t, tls) = t;
    let mut m = t.make(ctx);
    let dir = t.dir_arg(&m);
    let addr = free_addr(ctx);
    let mut args = vec![addr.clone(), dir];
    if let Some(rsa) = tls {
        let (k, c) = if *rsa { (RSA_KEY, RSA_CRT) } else { (EC_KEY, EC_CRT) };
        args.extend(["--tls-private".into(), write_file(ctx, "key.pem", k.as_bytes()), "--tls-cert".into(), write_file(ctx, "cert.pem", c.as_bytes())]);
    }
    let mut prog = Prog::start("wrustatic", &args.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
    prog.ready(&addr)?;
    let connect = || {
        let c = Conn::connect(&addr).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)))?;
        Ok(if tls.is_some() { c.with_tls(tls_client(None, false)) } else { c })
    };
    over_wire(t, &mut m, connect, o)?;
    if let Some(c) = prog.ended() {
        hard!("wrustatic ended by itself with {}", c);
    }
    // Its only route is for GET.
    let mut c = connect()?;
    let msg = c.ask(b"POST /a.txt HTTP/1.1\r\n\r\n", LONG)?;
    ensure!(msg.status() == Some(404), "POST to wrustatic gets {:?}", msg.start);
    Ok(())
}

/// A file that grows while it is being sent.
fn run_growing(ctx: &Ctx, c: &(usize, Vec<u16>, u16), o: &mut Obs) -> R {
    let (len, steps, rcv) = c;
    let dir = ctx.scratch.join("grow");
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join("g.bin");
    let want = Blob { len: *len, seed: 7 }.bytes();
    std::fs::write(&f, &want).unwrap();
    let routes = Router::new();
    let d = dir.to_str().unwrap().to_string();
    routes.add("/", HttpMethod::GET, Box::new(move |q: &mut Request| serve_static(&d, q)));
    let srv = Srv::start(ctx, default_timeouts(), routes, None)?;
    let mut conn = Conn::connect_small(&srv.addr, *rcv as u32 + 2304).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)))?;
    if !conn.shrink_peer(4608) {
        soft!("the server does not accept the connection");
    }
    conn.send(b"GET /g.bin HTTP/1.1\r\n\r\n");
    let until = long();
    let mut grown = 0;
    for (i, s) in steps.iter().enumerate() {
        let at = (*len / (steps.len() + 1) * i) as u64;
        conn.until(until, |c| c.got_bytes > at);
        let mut f = std::fs::OpenOptions::new().append(true).open(&f).unwrap();
        f.write_all(&vec![b'G'; *s as usize]).unwrap();
        grown += (conn.got_bytes < *len as u64) as u64;
    }
    conn.widen();
    let msg = if conn.until(until, |c| !c.msgs.is_empty()) {
        conn.msgs.remove(0)
    } else if conn.st == St::Open && conn.bad.is_none() {
        soft!("no whole response within {:?}: {}", LONG, conn.describe());
    } else {
        hard!("no whole response: {}", conn.describe());
    };
    ensure!(msg.status() == Some(200) && msg.body == want, "{} bytes of {} arrive (as {:?}); or they differ", msg.body.len(), len, msg.start);
    // The connection is still good.
    std::fs::write(dir.join("h.txt"), b"next").unwrap();
    let msg = conn.ask(b"GET /h.txt HTTP/1.1\r\n\r\n", LONG)?;
    ensure!(msg.body == b"next", "the next response on the connection is {:?} {:?}", msg.start, show(&msg.body));
    o.nontrivial(grown > 0);
    srv.stop(LONG)
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        assumptions: &[
            "trees without symbolic links (the directory given may be one) and readable by the process",
            "targets are taken literally: no percent-decoding, no query part",
            "called with a path that is not in normal form but names a file, the handler may serve it or answer with an error",
        ],
        suites: vec![
            suite(
                Opts { name: "direct", rule: "trees of up to 8 entries (files up to 64 KiB, rarely to 5 MiB, directories, FIFOs) beside files outside, the directory given in five ways, 1-9 targets (exact, below, above, with '.', '..' and empty segments, escapes, NUL) passed to serve_static and written to memory, the file growing before the write in a third of them, files and the directory changed, deleted and made again between requests; non-trivial: a file exists", quick: 60_000, thorough: 2_000_000, shards: 8, shrink: 1000, pure: false },
                |_| prop_oneof![40 => tree(8, 65536), 1 => tree(2, 5 << 20)].boxed(),
                run_direct,
            ),
            suite(
                Opts { name: "server", rule: "the same trees and the targets that can be sent, through a real server", quick: 8000, thorough: 200_000, shards: 8, shrink: 300, pure: false },
                |_| prop_oneof![40 => tree(8, 200_000), 1 => tree(2, 12 << 20)].boxed(),
                run_server,
            ),
            suite(
                Opts { name: "growing", rule: "files of 64 KiB to 1 MiB appended to up to 6 times while a slow client takes them; non-trivial: it grew before the end", quick: 400, thorough: 8_000, shards: 8, shrink: 30, pure: false },
                |_| (65_536usize..1 << 20, vec(1u16..20_000, 1..6), 0u16..20_000).boxed(),
                run_growing,
            ),
            suite(
                Opts { name: "wrustatic", rule: "the same trees and targets through the wrustatic program, plain and TLS", quick: 800, thorough: 20_000, shards: 8, shrink: 100, pure: false },
                |_| (tree(8, 100_000), prop_oneof![2 => Just(None), 1 => any::<bool>().prop_map(Some)]).boxed(),
                run_wrustatic,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C21

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DRoute {
    path: Vec<String>,
    method: usize,
    status: u16,
    content: String,
    ctype: String,
    alias: bool,
    style: u8,
    #[serde(default)]
    spelling: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Dummy {
    routes: Vec<DRoute>,
    asks: Vec<(usize, u8, String, usize)>,
    json: bool,
}

fn quoted(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

impl DRoute {
    fn path(&self) -> String {
        crate::routing::spelt(&self.path, self.spelling)
    }
    fn yaml(&self, name: &str) -> String {
        let ct = if self.alias { "type" } else { "content_type" };
        // A literal block where the content allows one.
        let plain = self.content.ends_with('\n') && !self.content.ends_with("\n\n") && self.content.len() > 1
            && self.content.chars().all(|c| c == '\n' || (' '..='~').contains(&c)) && !self.content.starts_with([' ', '\n']);
        let content = if plain && self.style & 1 == 1 {
            let mut s = "|\n".to_string();
            for l in self.content.lines() {
                s.push_str("      ");
                s.push_str(l);
                s.push('\n');
            }
            s
        } else {
            quoted(&self.content) + "\n"
        };
        let m = METHODS[self.method];
        let m = if self.style & 2 == 2 { quoted(m) } else { m.to_string() };
        let (a, b, c) = (format!("    status: {}\n", self.status), format!("    content: {}", content), format!("    {}: {}\n", ct, quoted(&self.ctype)));
        let r = match self.style / 4 % 3 {
            0 => a + &b + &c,
            1 => c + &b + &a,
            _ => b + &a + &c,
        };
        format!("{}:\n  path: {}\n  method: {}\n  response:\n{}", quoted(name), quoted(&self.path()), m, r)
    }
    fn json(&self, name: &str) -> String {
        format!(
            "{}: {{\"path\": {}, \"method\": \"{}\", \"response\": {{\"status\": {}, \"content\": {}, \"{}\": {}}}}}",
            quoted(name), quoted(&self.path()), METHODS[self.method], self.status, quoted(&self.content), if self.alias { "type" } else { "content_type" }, quoted(&self.ctype)
        )
    }
}

impl Dummy {
    fn config(&self) -> String {
        if self.json {
            let v: Vec<String> = self.routes.iter().enumerate().map(|(i, r)| r.json(&format!("r{}", i))).collect();
            return format!("{{{}}}\n", v.join(", "));
        }
        let mut s = String::from("---\n# generated\n");
        for (i, r) in self.routes.iter().enumerate() {
            s.push_str(&r.yaml(&format!("route {}", i)));
        }
        if self.routes.is_empty() {
            s.push_str("{}\n");
        }
        s
    }
}

fn dtypes() -> BoxedStrategy<String> {
    select(vec!["text/plain", "text/html; charset=utf-8", "application/json", "image/svg+xml", "application/octet-stream", "application/vnd.api+json", "text/x-a; b=c; d=\"e f\""])
        .prop_map(|s| s.to_string())
        .boxed()
}

fn dummy() -> BoxedStrategy<Dummy> {
    let seg = || prop_oneof![4 => select(vec!["a", "b", "ab", "abc", "v1", "a.b", "x-y"]).prop_map(|s| s.to_string()), 1 => "[a-z0-9._~-]{1,8}".prop_filter("dots", |s| s != "." && s != "..")];
    let content = prop_oneof![
        2 => "[ -~]{0,60}",
        2 => "([!-~][ -~]{0,30}\n){1,4}",
        1 => any::<String>().prop_map(|s| s.chars().filter(|c| *c as u32 >= 0x20 && !matches!(*c as u32, 0x7f..=0x9f | 0xfeff | 0xfffe | 0xffff | 0x2028 | 0x2029) || *c == '\n').collect()),
        1 => select(vec!["{\"a\": [1, 2, null]}", "yes", "null", "~", "1", "", "\n", "\t x \r\n", "- a\n- b", "'", "\"", "# no comment", "é日本", "%s", "{{}}"]).prop_map(|s| s.to_string()),
        1 => (8000usize..40_000).prop_map(|n| "0123456789".repeat(n / 10)),
    ];
    let status = prop_oneof![3 => Just(200u16), 2 => select(vec![100u16, 201, 204, 301, 304, 400, 404, 418, 429, 500, 503, 599, 600, 999]), 1 => 100u16..1000];
    let route = (vec(seg(), 0..4), prop_oneof![2 => 0usize..4, 1 => 0usize..9], status, content, dtypes(), any::<bool>(), any::<u8>(), prop_oneof![1 => Just(0u8), 1 => any::<u8>()])
        .prop_map(|(path, method, status, content, ctype, alias, style, spelling)| DRoute { path, method, status, content, ctype, alias, style, spelling });
    let ask = (any::<usize>(), 0u8..6, seg(), prop_oneof![3 => Just(9usize), 1 => 0usize..9]);
    (vec(route, 0..8), vec(ask, 1..14), proptest::bool::weighted(0.3))
        .prop_map(|(routes, asks, json)| {
            let mut seen = std::collections::HashSet::new();
            let routes = routes.into_iter().filter(|r| seen.insert((r.path.clone(), r.method))).collect();
            Dummy { routes, asks, json }
        })
        .boxed()
}

/// Two media types with the same type, subtype and parameters.
fn same_mime(a: &str, b: &str) -> bool {
    a.parse::<mime::Mime>().ok() == b.parse::<mime::Mime>().ok()
}

fn run_dummy(ctx: &Ctx, d: &Dummy, o: &mut Obs) -> R {
    let cfg = write_file(ctx, "dummy.yaml", d.config().as_bytes());
    let addr = free_addr(ctx);
    let mut prog = Prog::start("wrusdummy", &[&addr, &cfg])?;
    prog.ready(&addr).map_err(|f| Fail::Soft(format!("wrusdummy with {:?}: {}", d.config(), f.msg())))?;
    let mut conn = Conn::connect(&addr).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)))?;
    let mut asks: Vec<(Vec<String>, usize)> = d.routes.iter().map(|r| (r.path.clone(), r.method)).collect();
    for (i, how, s, m) in &d.asks {
        let (mut p, mut method) = if d.routes.is_empty() { (vec![], 0) } else { let r = &d.routes[i % d.routes.len()]; (r.path.clone(), r.method) };
        if *m < 9 {
            method = *m;
        }
        match how {
            0 | 1 => p.push(s.clone()),
            2 => {
                p.pop();
            }
            3 => match p.last_mut() {
                Some(l) => l.push_str(s),
                None => p.push(s.clone()),
            },
            4 => p = vec![s.clone()],
            _ => p.extend([s.clone(), s.clone()]),
        }
        if !p.iter().any(|s| s == "." || s == "..") {
            asks.push((p, method));
        }
    }
    for (k, (p, m)) in asks.iter().enumerate() {
        let target = match d.routes.get(k) {
            Some(r) => r.path(),
            None => format!("/{}", p.join("/")),
        };
        let line = format!("{} {} HTTP/1.1\r\n\r\n", METHODS[*m], target);
        let msg = conn.ask(line.as_bytes(), LONG)?;
        let best = d.routes.iter().filter(|r| r.method == *m && r.path.len() <= p.len() && p[..r.path.len()] == r.path[..]).max_by_key(|r| r.path.len());
        match best {
            None => ensure!(msg.status() == Some(404), "{:?} is configured nowhere and gets {:?}; configuration {:?}", line, msg.start, d.config()),
            Some(r) => {
                ensure!(msg.status() == Some(r.status), "{:?} gets {:?}, configured is {}", line, msg.start, r.status);
                ensure!(msg.body == r.content.as_bytes(), "{:?} gets {:?}, configured is {:?}", line, show(&msg.body), r.content);
                let ct = msg.all("content-type");
                ensure!(ct.len() == 1 && same_mime(ct[0], &r.ctype), "{:?} gets media type {:?}, configured is {:?}", line, ct, r.ctype);
            }
        }
        o.class_if(best.is_none(), "not configured");
        o.sub += 1;
    }
    o.class_if(d.json, "JSON syntax");
    o.class_if(d.routes.iter().any(|r| r.spelling % 8 > 3), "paths in other forms");
    o.nontrivial(d.routes.len() >= 2);
    if let Some(c) = prog.ended() {
        hard!("wrusdummy ended by itself with {}", c);
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum BadCfg {
    Missing,
    Directory,
    Text(String),
    /// The good configuration with this part replaced.
    Replace(u8, u8),
    Args(Vec<String>),
    Bytes(Vec<u8>),
}

fn bad_cfg() -> BoxedStrategy<(Dummy, BadCfg)> {
    let b = prop_oneof![
        1 => Just(BadCfg::Missing),
        1 => Just(BadCfg::Directory),
        2 => select(vec!["- a\n", "a: b\n", "a: [\n", "a:\n  path: /\n", "just text", "42", "a: {path: /, method: GET}", "\tx: 1", "a: {path: [], method: GET, response: {status: 200, content: x, content_type: text/plain}}"]).prop_map(|s| BadCfg::Text(s.into())),
        6 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| BadCfg::Replace(a, b)),
        1 => select(vec![vec![], vec!["x".to_string()], vec!["127.0.0.1:0".into(), "a".into(), "b".into()], vec!["127.0.0.1:0".into()]]).prop_map(BadCfg::Args),
        1 => vec(128u8..=255, 1..50).prop_map(BadCfg::Bytes),
    ];
    (dummy(), b).boxed()
}

fn run_bad_cfg(ctx: &Ctx, c: &(Dummy, BadCfg), o: &mut Obs) -> R {
    let (d, b) = c;
    let addr = free_addr(ctx);
    let mut cfg = ctx.scratch.join("bad.yaml").to_str().unwrap().to_string();
    let _ = std::fs::remove_file(&cfg);
    let mut args = vec![addr.clone(), cfg.clone()];
    match b {
        BadCfg::Missing => o.class("missing"),
        BadCfg::Directory => {
            cfg = ctx.scratch.to_str().unwrap().to_string();
            args[1] = cfg;
        }
        BadCfg::Text(t) => {
            write_file(ctx, "bad.yaml", t.as_bytes());
        }
        BadCfg::Bytes(t) => {
            write_file(ctx, "bad.yaml", t);
        }
        BadCfg::Args(a) => args = a.clone(),
        BadCfg::Replace(what, how) => {
            let mut rs = d.routes.clone();
            if rs.is_empty() {
                rs.push(DRoute { path: vec!["a".into()], method: 0, status: 200, content: "x".into(), ctype: "text/plain".into(), alias: false, style: 0, spelling: 0 });
            }
            let i = *how as usize % rs.len();
            let good = rs[i].json("r");
            let m = format!("\"method\": \"{}\"", METHODS[rs[i].method]);
            let s = format!("\"status\": {}", rs[i].status);
            let ct = format!("\": {}}}}}", quoted(&rs[i].ctype));
            let pick = |v: &[&str]| v[(*how as usize / 8) % v.len()].to_string();
            let bad = match what % 6 {
                0 | 1 => good.replacen(&m, &pick(&["\"method\": \"FETCH\"", "\"method\": \"get\"", "\"method\": \"\"", "\"method\": \"Post\"", "\"method\": \"GET \"", "\"method\": \"GETT\""]), 1),
                2 | 3 => good.replacen(&ct, &pick(&["\": \"text\"}}", "\": \"\"}}", "\": \"/plain\"}}", "\": \"text/plain; x\"}}", "\": \"te xt/plain\"}}"]), 1),
                4 => good.replacen(&s, &pick(&["\"status\": \"x\"", "\"status\": -1", "\"status\": 70000", "\"status\": 1.5", "\"status\": null", "\"state\": 200"]), 1),
                _ => good.replacen(&m, &pick(&["\"verb\": \"GET\"", "\"method\": null", "\"method\": [\"GET\"]"]), 1),
            };
            if bad == good {
                skip!("not replaced");
            }
            let mut v: Vec<String> = rs.iter().enumerate().map(|(k, r)| r.json(&format!("r{}", k))).collect();
            v[i] = bad;
            write_file(ctx, "bad.yaml", format!("{{{}}}\n", v.join(", ")).as_bytes());
            o.class(["method", "method", "media type", "media type", "status", "shape"][*what as usize % 6]);
        }
    }
    let text = std::fs::read(&args.get(1).cloned().unwrap_or_default()).unwrap_or_default();
    let mut prog = Prog::start("wrusdummy", &args.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
    let until = long();
    loop {
        if let Some(code) = prog.ended() {
            ensure!(code != 0, "wrusdummy ends with success for {:?} {:?}", b, show(&text));
            break;
        }
        if std::net::TcpStream::connect(&addr).is_ok() {
            hard!("wrusdummy serves with {:?} {:?}", b, show(&text));
        }
        if Instant::now() > until {
            soft!("wrusdummy neither ends nor serves within {:?} with {:?} {:?}", LONG, b, show(&text));
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    o.nontrivial(true);
    Ok(())
}

pub fn c21() -> Property {
    Property {
        id: "C21",
        assumptions: &["routes with absolute paths, distinct once normalised, status codes of three digits", "contents without control characters other than tab, CR and LF"],
        suites: vec![
            suite(
                Opts { name: "serving", rule: "configurations of 0-7 distinct routes in YAML (quoted and literal scalars, keys in several orders, both names of the media type) or JSON syntax, the program run on them, and every route plus up to 13 paths below, above and beside asked; non-trivial: at least two routes", quick: 3_200, thorough: 60_000, shards: 8, shrink: 200, pure: false },
                |_| dummy(),
                run_dummy,
            ),
            suite(
                Opts { name: "refusing", rule: "missing files, directories, other texts, good configurations with one bad method, media type, status or key, wrong arguments; non-trivial: all", quick: 3_200, thorough: 60_000, shards: 8, shrink: 100, pure: false },
                |_| bad_cfg(),
                run_bad_cfg,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C22

struct Capture;
static LINES: Mutex<Vec<(log::Level, String, String)>> = Mutex::new(Vec::new());
static LOGGER: Once = Once::new();

impl log::Log for Capture {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.target().starts_with("wruster_handlers")
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            LINES.lock().unwrap().push((r.level(), r.target().to_string(), r.args().to_string()));
        }
    }
    fn flush(&self) {}
}

fn capture(on: bool) {
    LOGGER.call_once(|| {
        let _ = log::set_boxed_logger(Box::new(Capture));
    });
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    LINES.lock().unwrap().clear();
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Wrapped {
    method: usize,
    uri: String,
    version: String,
    headers: Vec<(String, String)>,
    body: Option<MBody>,
    /// What the handler does to the request.
    reads: Option<usize>,
    takes: bool,
    new_uri: Option<String>,
    adds: Option<(String, String)>,
    status: u16,
    rheaders: Vec<(String, String)>,
    rbody: Option<MBody>,
    echo: bool,
    panics: bool,
    nest: usize,
    level_on: bool,
    calls: usize,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct MBody {
    data: Blob,
    /// The declared length differs from the content's by this.
    off: i8,
    chunks: Vec<u16>,
    end: End,
    ctype: Option<String>,
    /// Text rather than pseudo-random bytes.
    text: bool,
}

impl MBody {
    fn bytes(&self) -> Vec<u8> {
        if self.text {
            self.data.bytes().iter().map(|b| b'a' + b % 26).collect()
        } else {
            self.data.bytes()
        }
    }
    fn make(&self) -> (Body, Arc<Mutex<ReadState>>) {
        let r = FragReader::new(self.bytes(), &self.chunks, self.end);
        let st = r.state.clone();
        let len = (self.data.len as i64 + self.off as i64).max(0) as u64;
        (Body::new(self.ctype.as_ref().map(|m| m.parse().unwrap()), len, Box::new(r)), st)
    }
}

fn mbody() -> BoxedStrategy<MBody> {
    (blob(70_000), prop_oneof![5 => Just(0i8), 1 => any::<i8>()], chunks(), end(), proptest::option::of(mimes()), any::<bool>())
        .prop_map(|(data, off, chunks, end, ctype, text)| MBody { data, off, chunks, end, ctype, text })
        .boxed()
}

fn wrapped() -> BoxedStrategy<Wrapped> {
    let h = || vec((header_name(), header_value()), 0..5);
    (
        (0usize..9, prop_oneof![2 => target(), 1 => "[ -~]{0,20}", 1 => any::<String>()], version(), h(), proptest::option::of(mbody())),
        (proptest::option::of(size(70_000)), proptest::bool::weighted(0.2), proptest::option::weighted(0.2, target()), proptest::option::weighted(0.3, (header_name(), header_value()))),
        (prop_oneof![3 => Just(200u16), 1 => 100u16..1000], h(), proptest::option::of(mbody()), proptest::bool::weighted(0.1), proptest::bool::weighted(0.05)),
        (prop_oneof![3 => Just(1usize), 1 => 2usize..6], proptest::bool::weighted(0.8), prop_oneof![3 => Just(1usize), 1 => 2usize..4]),
    )
        .prop_map(|((method, uri, version, headers, body), (reads, takes, new_uri, adds), (status, rheaders, rbody, echo, panics), (nest, level_on, calls))| Wrapped {
            method, uri, version, headers, body, reads, takes, new_uri, adds, status, rheaders, rbody, echo, panics, nest, level_on, calls,
        })
        .boxed()
}

type HList = BTreeMap<String, Vec<String>>;

fn hlist(h: &Headers) -> HList {
    h.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

fn mk_headers(v: &[(String, String)]) -> Headers {
    let mut h = Headers::new();
    for (n, x) in v {
        h.add(Header { name: n.clone(), value: x.clone() });
    }
    h
}

/// What is left of a body: declared type and length, bytes, and how reading it ends.
fn rest(b: &mut Option<Body>) -> Option<(Option<String>, u64, Vec<u8>, Option<std::io::ErrorKind>)> {
    b.as_mut().map(|b| {
        let mut v = Vec::new();
        let e = b.content.read_to_end(&mut v).err().map(|e| e.kind());
        (b.content_type.as_ref().map(|m| m.to_string()), b.content_length, v, e)
    })
}

type Rest = Option<(Option<String>, u64, Vec<u8>, Option<std::io::ErrorKind>)>;

/// Everything one call of a handler shows.
#[derive(Debug, PartialEq, Default)]
struct Shown {
    /// What the handler saw of the request, at each call of it.
    seen: Vec<(String, String, String, HList, Option<(Option<String>, u64)>, u64, Vec<u8>, Option<std::io::ErrorKind>)>,
    panicked: bool,
    /// The request after the call.
    after: Option<(String, String, String, HList)>,
    after_body: Rest,
    request_reads: Option<(usize, u64)>,
    /// The response.
    status: Option<String>,
    headers: HList,
    reads_at_return: Option<(usize, u64)>,
    body: Rest,
}

fn play(w: &Wrapped, nest: usize) -> Shown {
    let shown = Arc::new(Mutex::new(Shown::default()));
    let rstate: Arc<Mutex<Option<Arc<Mutex<ReadState>>>>> = Arc::new(Mutex::new(None));
    let qstate: Arc<Mutex<Option<Arc<Mutex<ReadState>>>>> = Arc::new(Mutex::new(None));
    let (w2, s2, r2, q2) = (w.clone(), shown.clone(), rstate.clone(), qstate.clone());
    let mut h: HttpHandler = Box::new(move |q: &mut Request| {
        let before = q2.lock().unwrap().as_ref().map(|s| s.lock().unwrap().reads).unwrap_or(0);
        let decl = q.body.as_ref().map(|b| (b.content_type.as_ref().map(|m| m.to_string()), b.content_length));
        let mut got = Vec::new();
        let mut err = None;
        if let (Some(n), Some(b)) = (w2.reads, q.body.as_mut()) {
            let mut part = (&mut b.content).take(n as u64);
            err = part.read_to_end(&mut got).err().map(|e| e.kind());
        }
        s2.lock().unwrap().seen.push((q.method.to_string(), q.uri.clone(), q.version.clone(), hlist(&q.headers), decl, before, got, err));
        if let Some(u) = &w2.new_uri {
            q.uri = u.clone();
        }
        if let Some((n, v)) = &w2.adds {
            q.headers.add(Header { name: n.clone(), value: v.clone() });
        }
        if w2.panics {
            panic!("the handler panics, as planned");
        }
        let taken = if w2.takes || w2.echo { q.body.take() } else { None };
        let body = if w2.echo { taken } else { w2.rbody.as_ref().map(|b| { let (b, st) = b.make(); *r2.lock().unwrap() = Some(st); b }) };
        Response { status: StatusCode::from(w2.status as usize), headers: mk_headers(&w2.rheaders), body }
    });
    for _ in 0..nest {
        h = log_middleware(h);
    }
    for _ in 0..w.calls {
        let body = w.body.as_ref().map(|b| { let (b, st) = b.make(); *qstate.lock().unwrap() = Some(st); b });
        let mut q = Request { method: method_of(w.method), uri: w.uri.clone(), version: w.version.clone(), headers: mk_headers(&w.headers), body };
        *rstate.lock().unwrap() = None;
        let r = no_panic(|| h(&mut q));
        let counts = |s: &Option<Arc<Mutex<ReadState>>>| s.as_ref().map(|s| { let s = s.lock().unwrap_or_else(|e| e.into_inner()); (s.pos, s.reads) });
        let mut s = shown.lock().unwrap_or_else(|e| e.into_inner());
        s.request_reads = counts(&qstate.lock().unwrap());
        s.reads_at_return = counts(&rstate.lock().unwrap());
        s.after = Some((q.method.to_string(), q.uri.clone(), q.version.clone(), hlist(&q.headers)));
        match r {
            Ok(mut resp) => {
                s.status = Some(format!("{} {:?}", resp.status, resp.status));
                s.headers = hlist(&resp.headers);
                s.body = rest(&mut resp.body);
            }
            Err(_) => s.panicked = true,
        }
        s.after_body = rest(&mut q.body);
    }
    let mut s = shown.lock().unwrap_or_else(|e| e.into_inner());
    std::mem::take(&mut *s)
}

fn run_wrapped(_: &Ctx, w: &Wrapped, o: &mut Obs) -> R {
    capture(w.level_on);
    let bare = play(w, 0);
    ensure!(LINES.lock().unwrap().is_empty(), "the harness itself logs");
    capture(w.level_on);
    let mid = play(w, w.nest);
    let lines = std::mem::take(&mut *LINES.lock().unwrap());
    ensure!(mid.seen.len() == bare.seen.len() && mid.seen.len() == w.calls, "{} calls through the middleware make {} calls of the handler", w.calls, mid.seen.len());
    ensure!(mid == bare, "with the middleware {} times around it: {}\nwithout: {}", w.nest, clip(&format!("{:?}", mid), 700), clip(&format!("{:?}", bare), 700));
    if !w.level_on {
        ensure!(lines.is_empty(), "logged at a level that is off");
    } else {
        let want = w.calls * w.nest * if w.panics { 1 } else { 2 };
        ensure!(lines.len() == want, "{} lines instead of {}: {:?}", lines.len(), want, lines.iter().map(|l| clip(&l.2, 80)).collect::<Vec<_>>());
        ensure!(lines.iter().all(|l| l.0 == log::Level::Info), "not at info level: {:?}", lines.iter().map(|l| l.0).collect::<Vec<_>>());
        ensure!(lines.iter().all(|l| !l.2.contains('\n')), "more than one line: {:?}", lines.iter().find(|l| l.2.contains('\n')));
    }
    o.class_if(w.nest > 1, "nested");
    o.class_if(w.body.is_some(), "request body");
    o.class_if(w.rbody.is_some(), "response body");
    o.class_if(w.panics, "panicking handler");
    o.class_if(!w.level_on, "log off");
    o.nontrivial(w.body.is_some() || w.rbody.is_some() || w.nest > 1);
    Ok(())
}

fn run_wire(ctx: &Ctx, t: &(conv::Talk, usize, bool), o: &mut Obs) -> R {
    capture(true);
    conv::one_with(ctx, &t.0, if t.2 { Some(false) } else { None }, |h| (0..t.1).fold(h, |h, _| log_middleware(h)), o)?;
    capture(true);
    Ok(())
}

pub fn c22() -> Property {
    Property {
        id: "C22",
        assumptions: &["the log is whatever the installed logger of the log crate receives from the crate wruster_handlers"],
        suites: vec![
            suite(
                Opts { name: "differential", rule: "generated requests (any text in the target, bodies read partly, in pieces or failing) and handlers that read, take, change, echo or panic, called bare and wrapped 1-5 times with the log on or off; everything observable compared, including how often the bodies were read; non-trivial: a body or nesting", quick: 100_000, thorough: 4_000_000, shards: 8, shrink: 2000, pure: true },
                |_| wrapped(),
                run_wrapped,
            ),
            suite(
                Opts { name: "conversations", rule: "the conversations of C10 and C19 with every handler wrapped 1-3 times; non-trivial: at least two requests or fragmented", quick: 2_400, thorough: 60_000, shards: 8, shrink: 200, pure: false },
                |_| (conv::talk(5, 20_000, 20_000, 1), 1usize..4, proptest::bool::weighted(0.3)).boxed(),
                run_wire,
            ),
        ],
    }
}
