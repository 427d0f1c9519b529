//! C08 C09: which handler a request goes to, and the path it sees.
use crate::conn::*;
use crate::fw::*;
use crate::gen::*;
use crate::refhttp::show;
use crate::srv::*;
use crate::{ensure, hard};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Request, Response, StatusCode};
use wruster::router::{HttpHandler, Router};

/// Answers with its number and the path it was given.
fn handler(id: usize, calls: Arc<AtomicUsize>, status: usize) -> HttpHandler {
    Box::new(move |q: &mut Request| {
        calls.fetch_add(1, Ordering::SeqCst);
        let mut headers = Headers::new();
        headers.add(Header { name: "X-Id".into(), value: id.to_string() });
        headers.add(Header { name: "X-Uri".into(), value: q.uri.clone() });
        headers.add(Header { name: "X-Method".into(), value: q.method.to_string() });
        Response { status: StatusCode::from(status), headers, body: None }
    })
}

type Path = Vec<String>;

fn text(p: &Path) -> String {
    format!("/{}", p.join("/"))
}

/// The path as whoever registers it may write it.
pub fn spelt(p: &[String], how: u8) -> String {
    let at = (how / 8) as usize % (p.len() + 1);
    let (before, after) = (p[..at].to_vec(), p[at..].to_vec());
    let with = |s: &str| {
        let mut v = before.clone();
        v.extend(s.split('/').map(|s| s.to_string()));
        v.extend(after.clone());
        format!("/{}", v.join("/"))
    };
    match how % 8 {
        4 => format!("/{}/", p.join("/")),
        5 => with(""),
        6 => with("."),
        7 => with("x/.."),
        _ => format!("/{}", p.join("/")),
    }
}

/// Segments that share beginnings, so that byte prefixes are not segment prefixes.
fn segment() -> BoxedStrategy<String> {
    prop_oneof![
        8 => select(vec!["a", "b", "ab", "abc", "aa", "A", "a.b", "...", ".a", "a..", "%2e%2e", "%2F", "a:b", "~", "-", "a#b", "\\", "+", "c0"]).prop_map(|s| s.to_string()),
        2 => "[a-c]{1,3}",
        1 => "[a-zA-Z0-9!$&'()*+,;=:@~%#_-]{1,12}",
    ]
    .boxed()
}

fn path(max: usize) -> BoxedStrategy<Path> {
    prop_oneof![
        20 => vec(segment(), 0..=max),
        1 => (segment(), 1500usize..2000).prop_map(|(s, n)| vec![s.repeat(n / s.len() + 1)]),
        1 => (select(vec!["a", "b"]), 200usize..1200).prop_map(|(s, n)| vec![s.to_string(); n]),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C08

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Table {
    /// Path, method; the position is the handler's number.
    routes: Vec<(Path, usize)>,
    /// Another order to register the same routes in: sort keys.
    order: Vec<u16>,
    asks: Vec<(Ask, usize)>,
    conns: usize,
    /// How the routes' paths are spelt when they are registered.
    #[serde(default)]
    spelling: Vec<u8>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Ask {
    /// A route's path with segments added.
    Below(usize, Path),
    /// A route's path with this added to its last segment.
    Longer(usize, String),
    /// A route's path with its last segments taken off.
    Above(usize, usize),
    /// A route's path with the last byte taken off.
    Shorter(usize),
    Query(usize, String),
    Any(Path),
}

impl Ask {
    /// The segments of the path, and the target to send.
    fn resolve(&self, routes: &[(Path, usize)]) -> (Path, String) {
        let base = |i: usize| if routes.is_empty() { vec![] } else { routes[i % routes.len()].0.clone() };
        let mut query = String::new();
        let p = match self {
            Ask::Below(i, more) => [base(*i), more.clone()].concat(),
            Ask::Longer(i, s) => {
                let mut p = base(*i);
                match p.last_mut() {
                    Some(l) => l.push_str(s),
                    None => p.push(s.clone()),
                }
                p
            }
            Ask::Above(i, n) => {
                let mut p = base(*i);
                p.truncate(p.len().saturating_sub(*n));
                p
            }
            Ask::Shorter(i) => {
                let mut p = base(*i);
                if let Some(l) = p.last_mut() {
                    l.pop();
                    if l.is_empty() || l == "." || l == ".." {
                        p.pop();
                    }
                }
                p
            }
            Ask::Query(i, q) => {
                query = format!("?{}", q);
                base(*i)
            }
            Ask::Any(p) => p.clone(),
        };
        // "a" + "." is fine, but a segment must not turn into ".." here.
        let p: Path = p.into_iter().filter(|s| s != "." && s != "..").collect();
        let t = text(&p) + &query;
        (p, t)
    }
}

fn table(max_routes: usize, max_asks: usize) -> BoxedStrategy<Table> {
    let routes = vec((path(4), prop_oneof![2 => 0usize..3, 1 => 0usize..9]), 0..=max_routes);
    let nested = (path(5), vec((0usize..6, 0usize..3, proptest::option::of(segment())), 1..=max_routes)).prop_map(|(p, v)| {
        v.into_iter()
            .map(|(n, m, extra)| {
                let mut q = p.clone();
                q.truncate(n.min(p.len()));
                q.extend(extra);
                (q, m)
            })
            .collect::<Vec<_>>()
    });
    let ask = prop_oneof![
        4 => (any::<usize>(), vec(segment(), 0..3)).prop_map(|(i, p)| Ask::Below(i, p)),
        3 => (any::<usize>(), "[a-c.~0]{1,2}").prop_map(|(i, s)| Ask::Longer(i, s)),
        2 => (any::<usize>(), 1usize..3).prop_map(|(i, n)| Ask::Above(i, n)),
        1 => any::<usize>().prop_map(Ask::Shorter),
        1 => (any::<usize>(), "[a-z]{0,3}=?[a-z0-9]{0,3}").prop_map(|(i, q)| Ask::Query(i, q)),
        2 => path(4).prop_map(Ask::Any),
    ];
    let method = prop_oneof![3 => 0usize..3, 1 => 0usize..9];
    (prop_oneof![1 => routes, 1 => nested], vec(any::<u16>(), max_routes), vec((ask, method), 1..=max_asks), prop_oneof![5 => Just(1usize), 1 => 2usize..9], prop_oneof![2 => Just(vec![]), 1 => vec(any::<u8>(), max_routes)])
        .prop_map(|(routes, order, asks, conns, spelling)| Table { routes, order, asks, conns, spelling })
        .boxed()
}

/// The number of the handler a request goes to.
fn model(routes: &[(Path, usize)], p: &Path, m: usize) -> Option<usize> {
    let mut best: Option<(usize, usize)> = None;
    for (i, (r, rm)) in routes.iter().enumerate() {
        if *rm == m && r.len() <= p.len() && p[..r.len()] == r[..] && best.is_none_or(|b| r.len() >= b.0) {
            best = Some((r.len(), i));
        }
    }
    best.map(|b| b.1)
}

fn check_table(ctx: &Ctx, t: &Table, o: &mut Obs) -> R {
    // The second time in another order, keeping the order among the same path and method.
    let mut perm: Vec<usize> = (0..t.routes.len()).collect();
    perm.sort_by_key(|i| t.order.get(*i).copied().unwrap_or(0));
    for i in 0..perm.len() {
        for j in i + 1..perm.len() {
            if t.routes[perm[i]] == t.routes[perm[j]] && perm[i] > perm[j] {
                perm.swap(i, j);
            }
        }
    }
    let asks: Vec<(Path, String, usize)> = t.asks.iter().map(|(a, m)| (a.resolve(&t.routes), *m)).map(|((p, s), m)| (p, s, m)).collect();
    let mut prefix_only = 0;
    for (round, order) in [(0..t.routes.len()).collect::<Vec<_>>(), perm].into_iter().enumerate() {
        let calls = Arc::new(AtomicUsize::new(0));
        let routes = Router::new();
        for i in order {
            let (p, m) = &t.routes[i];
            let how = t.spelling.get(i).copied().unwrap_or(0);
            routes.add(&spelt(p, how), method_of(*m), handler(i, calls.clone(), 299));
        }
        let srv = Srv::start(ctx, default_timeouts(), routes, None)?;
        let conns = if round == 0 { 1 } else { t.conns };
        let p0 = panics();
        let one = |addr: &str| -> R {
            let mut c = Conn::connect(addr).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)))?;
            let mut all = Vec::new();
            for (_, target, m) in &asks {
                all.extend(format!("{} {} HTTP/1.1\r\n\r\n", METHODS[*m], target).into_bytes());
            }
            c.send(&all);
            c.until(long(), |c| c.msgs.len() >= asks.len());
            for (k, (p, target, m)) in asks.iter().enumerate() {
                let got = match c.msgs.get(k) {
                    Some(g) => g,
                    None if c.st == St::Open => return Err(Fail::Soft(format!("no response to {} {:?}: {}", METHODS[*m], target, c.describe()))),
                    None => hard!("no response to {} {:?}: {}", METHODS[*m], target, c.describe()),
                };
                match model(&t.routes, p, *m) {
                    None => ensure!(
                        got.status() == Some(404) && got.all("x-id").is_empty(),
                        "{} {:?} has no handler but gets {:?} from handler {:?} (order {})", METHODS[*m], target, got.start, got.all("x-id"), round
                    ),
                    Some(i) => {
                        ensure!(
                            got.status() == Some(299) && got.all("x-id") == vec![i.to_string()],
                            "{} {:?} belongs to handler {} ({} {:?}) but gets {:?} from handler {:?} (order {})",
                            METHODS[*m], target, i, METHODS[t.routes[i].1], text(&t.routes[i].0), got.start, got.all("x-id"), round
                        );
                        ensure!(got.all("x-method") == vec![METHODS[*m]], "the handler of {} {:?} sees method {:?}", METHODS[*m], target, got.all("x-method"));
                        ensure!(got.all("x-uri") == vec![target.as_str()], "the handler of {} {:?} sees path {:?}", METHODS[*m], target, got.all("x-uri"));
                    }
                }
            }
            Ok(())
        };
        if conns == 1 {
            one(&srv.addr)?;
        } else {
            let rs: Vec<R> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..conns).map(|_| s.spawn(|| one(&srv.addr))).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::Skip("harness thread".into())))).collect()
            });
            for r in rs {
                r?;
            }
        }
        ensure!(panics() == p0, "a lookup panics: {}", last_panic());
        let want = asks.iter().filter(|a| model(&t.routes, &a.0, a.2).is_some()).count() * conns;
        ensure!(calls.load(Ordering::SeqCst) == want, "{} handler calls for {} requests that have a handler", calls.load(Ordering::SeqCst), want);
        srv.stop(LONG)?;
    }
    for (p, target, m) in &asks {
        let w = model(&t.routes, p, *m).map(|i| t.routes[i].0.len());
        prefix_only += t.routes.iter().filter(|(r, _)| r.len() > w.unwrap_or(0) && target.starts_with(&text(r))).count();
    }
    o.sub += asks.len() as u64;
    o.nontrivial(t.routes.len() >= 2);
    o.class_if(prefix_only > 0, "a longer route is a byte prefix, or has another method");
    o.class_if(t.conns > 1, "concurrent lookups");
    o.class_if(t.spelling.iter().take(t.routes.len()).any(|h| h % 8 > 3), "routes registered in other forms");
    o.class_if(asks.iter().any(|(p, _, m)| model(&t.routes, p, *m).is_none()), "no handler");
    o.class_if((0..t.routes.len()).any(|i| (0..i).any(|j| t.routes[i] == t.routes[j])), "registered twice");
    Ok(())
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        assumptions: &["route paths are absolute and do not climb above the root; request paths are normalised (C09 covers the others)", "a '?' ends the path of a target"],
        suites: vec![suite(
            Opts { name: "routes", rule: "0-12 routes over segments with common beginnings (nested or not, some registered twice, paths up to 2000 bytes or 1200 segments), registered in two orders in two real servers, then 1-20 pipelined requests at, below, above and beside the routes with any method, on 1-8 connections; non-trivial: at least two routes", quick: 2400, thorough: 80_000, shards: 8, shrink: 600, pure: false },
            |_| table(12, 20),
            check_table,
        )],
    }
}

// ---------------------------------------------------------------- C09

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Walk {
    targets: Vec<String>,
    routes: Vec<Path>,
    method: usize,
    conn_close: bool,
}

fn target_path() -> BoxedStrategy<String> {
    let piece = prop_oneof![
        4 => segment(), 3 => Just("..".to_string()), 2 => Just(".".to_string()), 2 => Just(String::new()), 1 => Just("...".to_string()),
    ];
    let joined = |v: Vec<String>| v.join("/");
    prop_oneof![
        12 => vec(piece.clone(), 0..10).prop_map(move |v| format!("/{}", joined(v))),
        2 => (vec(segment(), 0..6), 0usize..8, any::<bool>(), vec(segment(), 0..3)).prop_map(|(v, up, slash, w)| {
            let mut p = format!("/{}", v.join("/"));
            for _ in 0..up {
                p.push_str("/..");
            }
            for s in w {
                p.push('/');
                p.push_str(&s);
            }
            if slash {
                p.push('/');
            }
            p
        }),
        1 => (1usize..1500, 1usize..1500).prop_map(|(a, b)| format!("/{}{}", "a/".repeat(a), "../".repeat(b))),
        1 => (select(vec!["/", "./", "a/../", "//"]), 1usize..1500).prop_map(|(s, n)| format!("/{}", s.repeat(n))),
        2 => vec(piece, 1..6).prop_map(|v| v.join("/")).prop_filter("not empty", |s| !s.is_empty() && !s.starts_with('/')),
        1 => select(vec!["*", "http://localhost/a", "https://a/../b", "localhost:80", ".", "..", "../a", "a", "./", "~/a", "\\a", "C:\\a"]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}

fn walk() -> BoxedStrategy<Walk> {
    (vec(target_path(), 1..12), vec(path(3), 0..4), 0usize..9, proptest::bool::weighted(0.1))
        .prop_map(|(targets, routes, method, conn_close)| Walk { targets, routes, method, conn_close })
        .boxed()
}

/// The segments of a target's path, unless it is to be refused.
fn walk_model(t: &str) -> Option<Path> {
    let rest = t.strip_prefix('/')?;
    let mut st: Path = Vec::new();
    for s in rest.split('/') {
        match s {
            "" | "." => (),
            ".." => {
                st.pop()?;
            }
            s => st.push(s.to_string()),
        }
    }
    Some(st)
}

fn check_walk(ctx: &Ctx, w: &Walk, o: &mut Obs) -> R {
    let calls = Arc::new(AtomicUsize::new(0));
    let routes = Router::new();
    let mut all: Vec<(Path, usize)> = vec![(vec![], w.method)];
    all.extend(w.routes.iter().map(|p| (p.clone(), w.method)));
    for (i, (p, m)) in all.iter().enumerate() {
        routes.add(&text(p), method_of(*m), handler(i, calls.clone(), 299));
    }
    let srv = Srv::start(ctx, default_timeouts(), routes, None)?;
    let mut conn = srv.connect()?;
    let mut changed = 0;
    let p0 = panics();
    for t in &w.targets {
        let mut ask = |target: &str| -> Result<(crate::refhttp::Msg, usize), Fail> {
            if conn.st != St::Open || w.conn_close {
                conn = srv.connect()?;
            }
            let before = calls.load(Ordering::SeqCst);
            let close = if w.conn_close { "Connection: close\r\n" } else { "" };
            let m = conn.ask(format!("{} {} HTTP/1.1\r\n{}\r\n", METHODS[w.method], target, close).as_bytes(), LONG)?;
            if m.status() != Some(299) {
                // Whether the connection outlives the refusal is not this property's matter.
                conn.until(std::time::Instant::now() + std::time::Duration::from_millis(2), |_| false);
            }
            Ok((m, calls.load(Ordering::SeqCst) - before))
        };
        let (m, n) = ask(t)?;
        match walk_model(t) {
            None => {
                ensure!(n == 0, "a handler runs for {:?}, seeing {:?}", t, m.all("x-uri"));
                ensure!(m.status().is_some_and(|s| (400..600).contains(&s)), "{:?} is not refused with an error: {:?} {}", t, m.start, show(&m.body));
                o.class("refused");
            }
            Some(p) => {
                let norm = text(&p);
                ensure!(m.status() == Some(299) && n == 1, "the request for {:?} gets {:?} and {} handler calls", t, m.start, n);
                ensure!(m.all("x-uri") == vec![norm.as_str()], "the handler of {:?} sees {:?}, should be {:?}", t, m.all("x-uri"), norm);
                let (m2, n2) = ask(&norm)?;
                ensure!(
                    n2 == 1 && m2.all("x-uri") == m.all("x-uri") && m2.all("x-id") == m.all("x-id"),
                    "normalised again, {:?} becomes {:?} (handler {:?}, {} calls)", norm, m2.all("x-uri"), m2.all("x-id"), n2
                );
                changed += (norm != *t) as u64;
                o.class_if(norm != *t, "changed by normalising");
            }
        }
        o.sub += 1;
    }
    ensure!(panics() == p0, "normalising panics: {}", last_panic());
    o.nontrivial(changed > 0 || w.targets.iter().any(|t| walk_model(t).is_none()));
    srv.stop(LONG)
}

pub fn c09() -> Property {
    Property {
        id: "C09",
        assumptions: &["targets of visible ASCII without '?'", "percent-encodings are not decoded: %2e%2e is an ordinary segment"],
        suites: vec![suite(
            Opts { name: "targets", rule: "1-11 targets of generated segments, '.', '..', '...', empty segments, in any order, up to 1500 levels, and targets that are no absolute path, to a real server with 1-5 routes; then the normalised path again; non-trivial: a target that normalising changes or refuses", quick: 4000, thorough: 200_000, shards: 8, shrink: 600, pure: false },
            |_| walk(),
            check_walk,
        )],
    }
}
