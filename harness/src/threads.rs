//! C11: a server that cannot have as many threads as it would like. It runs in
//! a process of its own, as a user who may have only so many.
use crate::conn::*;
use crate::fw::*;
use crate::srv::*;
use crate::soft;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::str::FromStr;
use std::time::{Duration, Instant};
use wruster::http::{HttpMethod, Request, Response};
use wruster::router::Router;
use wruster::{Certificate, PrivateKey, Server};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Round {
    /// Clients more (or fewer) than there can be threads.
    more: i16,
    /// Clients that connect and send nothing, before them.
    mute: u8,
    requests: u8,
    reset: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Few {
    /// Threads there may be besides those the server would start with; fewer
    /// than that, when negative, but for the one that accepts (-1 is one less).
    threads: i16,
    /// Not even that one, at first.
    none: bool,
    tls: Option<bool>,
    rounds: Vec<Round>,
}

/// The program for the server: address, number of threads, user, key and certificate.
pub fn child(a: &[String]) -> i32 {
    let user: u32 = a[2].parse().unwrap();
    let more: isize = a[1].parse().unwrap();
    let none = a[3] == "true";
    let tls = match (a.get(4), a.get(5)) {
        (Some(k), Some(c)) => Some((PrivateKey::read_from(k).unwrap(), Certificate::read_from(c).unwrap())),
        _ => None,
    };
    std::panic::set_hook(Box::new(|_| ()));
    let limit = |n: usize| {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        unsafe { libc::getrlimit(libc::RLIMIT_NPROC, &mut l) };
        l.rlim_cur = l.rlim_max.min(n as u64);
        unsafe { libc::setrlimit(libc::RLIMIT_NPROC, &l) == 0 }
    };
    if unsafe { libc::setgid(user) != 0 || libc::setuid(user) != 0 } || !limit(2) {
        return 9;
    }
    // Does it work here?
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let first = std::thread::Builder::new().spawn(move || rx.recv());
    let second = std::thread::Builder::new().spawn(|| ());
    let works = first.is_ok() && second.is_err();
    drop(tx);
    if let Ok(f) = first {
        let _ = f.join();
    }
    if !works {
        return 9;
    }
    let units = std::thread::available_parallelism().map(usize::from).unwrap_or(2);
    // This one, the one that accepts, and the permanent workers.
    let routes = || {
        let routes = Router::new();
        routes.add("/x", HttpMethod::GET, Box::new(|q: &mut Request| Response::from_str(&q.uri).unwrap()));
        routes
    };
    let mut s = Server::from_timeouts(timeouts(Duration::from_secs(100), Duration::from_secs(100)));
    let mut run = || match &tls {
        None => s.run(&a[0], routes()).is_ok(),
        Some((k, c)) => s.run_tls(&a[0], routes(), k.clone(), c.clone()).is_ok(),
    };
    if none {
        limit(1);
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut run)) {
            Ok(false) => (),
            Ok(true) => return 6,
            Err(_) => return 5,
        }
    }
    limit((2 + units as isize + more).max(2) as usize);
    if !run() {
        return 8;
    }
    println!("{}", units);
    let _ = std::io::stdout().flush();
    let mut b = [0];
    let _ = std::io::stdin().read(&mut b);
    match s.shutdown() {
        Ok(()) => 0,
        Err(_) => 7,
    }
}

struct Proc(Child);
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

fn few(ctx: &Ctx, c: &Few, o: &mut Obs) -> R {
    let addr = free_addr(ctx);
    // Nobody else's.
    let user = 20_000 + std::process::id() % 40_000;
    let mut cmd = Command::new("/proc/self/exe");
    cmd.args(["limited", &addr, &c.threads.to_string(), &user.to_string(), &c.none.to_string()]);
    if let Some(rsa) = c.tls {
        let (k, cert) = if rsa { (RSA_KEY, RSA_CRT) } else { (EC_KEY, EC_CRT) };
        cmd.args([write_file(ctx, "key.pem", k.as_bytes()), write_file(ctx, "cert.pem", cert.as_bytes())]);
    }
    cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut p = Proc(cmd.spawn().map_err(|e| Fail::Skip(format!("cannot start the server's process: {}", e)))?);
    let mut line = String::new();
    let _ = BufReader::new(p.0.stdout.take().unwrap()).read_line(&mut line);
    let units: usize = match line.trim().parse() {
        Ok(u) => u,
        Err(_) => match p.0.wait().ok().and_then(|s| s.code()) {
            Some(9) => {
                o.class("the number of threads cannot be limited here");
                return Ok(());
            }
            Some(6) => return Err(Fail::Hard("run succeeds although there can be no further thread".into())),
            Some(5) => return Err(Fail::Hard("run panics when there can be no further thread".into())),
            x => soft!("the server does not start: {:?}", x),
        },
    };
    let cap = match (units as i64 + c.threads as i64).max(0) as usize {
        n if n < units => n,
        n => units.max(n.min(100)),
    };
    let connect = || -> Result<Conn, Fail> {
        let conn = Conn::connect(&addr).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)))?;
        Ok(if c.tls.is_some() { conn.with_tls(tls_client(None, false)) } else { conn })
    };
    let req = b"GET /x HTTP/1.1\r\nHost: h\r\n\r\n";
    for (k, r) in c.rounds.iter().enumerate() {
        let n = (cap as i64 + r.more as i64).max(1) as usize;
        let end = Instant::now() + LONG;
        loop {
            let mut all: Vec<Conn> = Vec::new();
            let mut mute: Vec<Conn> = Vec::new();
            for _ in 0..r.mute {
                mute.push(Conn::connect(&addr).map_err(|e| Fail::Soft(format!("cannot connect: {}", e)))?);
            }
            if r.mute > 0 {
                // Their places are taken, or refused, by now.
                std::thread::sleep(Duration::from_millis(20));
                if !r.reset {
                    mute.clear();
                }
            }
            for _ in 0..n {
                let mut x = connect()?;
                x.send(req);
                all.push(x);
            }
            let until = long();
            let mut good = 0;
            for x in all.iter_mut() {
                let answered = x.until(until, |x| !x.msgs.is_empty());
                if answered {
                    match x.msgs[0].status() {
                        Some(200) => good += 1,
                        Some(503) => (),
                        s => return Err(Fail::Hard(format!("round {}: a request is answered with {:?}", k, s))),
                    }
                } else if x.st == St::Open {
                    let ended = p.0.try_wait().ok().flatten();
                    soft!("round {}: of {} clients (there are {} threads), one is neither served nor turned away: {}; the server's process: {:?}", k, n, cap, x.describe(), ended);
                }
            }
            let held = mute.len();
            if good == n.min(cap - cap.min(held)) || held > 0 && good >= 1.min(cap.saturating_sub(held)) {
                // Those it has are served.
                for _ in 0..r.requests {
                    for x in all.iter_mut().filter(|x| x.msgs.first().and_then(|m| m.status()) == Some(200) && x.st == St::Open) {
                        let m = x.ask(req, LONG)?;
                        if m.status() != Some(200) {
                            return Err(Fail::Hard(format!("round {}: a later request is answered with {:?}", k, m.status())));
                        }
                        x.msgs.push(m);
                    }
                }
                if r.reset {
                    all.into_iter().chain(mute).for_each(|x| x.reset());
                }
                break;
            }
            // Places are given up in the meantime.
            if Instant::now() > end {
                soft!("round {}: of {} clients {} are served at once, there are {} threads", k, n, good, cap);
            }
            drop(all);
            std::thread::sleep(Duration::from_millis(30));
        }
        o.class_if(n > cap, "more clients than threads");
        o.sub += 1;
    }
    drop(p.0.stdin.take());
    let end = Instant::now() + LONG;
    let code = loop {
        match p.0.try_wait() {
            Ok(None) if Instant::now() < end => std::thread::sleep(Duration::from_millis(3)),
            x => break x.ok().flatten(),
        }
    };
    match code.map(|s| s.code()) {
        Some(Some(0)) => (),
        None => soft!("it does not shut down within {:?}", LONG),
        Some(c) => soft!("it does not shut down cleanly: {:?}", c),
    }
    o.class_if(c.tls.is_some(), "TLS");
    o.class_if(c.threads < 0, "fewer threads than workers");
    o.class_if(c.none, "no thread at first");
    o.nontrivial(cap < 100 && c.rounds.iter().any(|r| r.more > 0));
    Ok(())
}

pub fn few_suite() -> Suite {
    suite(
        Opts { name: "threads", rule: "a server in a process of a user who may have only so many threads, and rounds of more and fewer simultaneous clients; non-trivial: more clients than there can be threads", quick: 160, thorough: 3000, shards: 8, shrink: 30, pure: false },
        |_| {
            let round = (prop_oneof![2 => 1i16..30, 1 => -8i16..1], prop_oneof![3 => Just(0u8), 1 => 1u8..60], 0u8..3, any::<bool>())
                .prop_map(|(more, mute, requests, reset)| Round { more, mute, requests, reset });
            (prop_oneof![3 => 0i16..12, 2 => -9i16..0, 1 => 12i16..100, 1 => 100i16..130], proptest::bool::weighted(0.25), prop_oneof![3 => Just(None), 1 => Just(Some(false)), 1 => Just(Some(true))], vec(round, 1..5))
                .prop_map(|(threads, none, tls, rounds)| Few { threads, none, tls, rounds })
                .boxed()
        },
        few,
    )
}
