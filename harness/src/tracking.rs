//! C20: the list of tracked streams holds exactly those of which a handle is alive.
use crate::ensure;
use crate::fw::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use wruster::verif_hooks as vh;

type Handle = vh::ObservedStream<TcpStream>;
type List = vh::ObservedStreamList<TcpStream>;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Track,
    Clone { pick: u16 },
    Drop { pick: u16 },
    /// All handles of one stream.
    DropAll { pick: u16 },
    Drain { keep_upgraded: bool },
    /// The stream still carries data.
    Use { pick: u16 },
    /// Drops a handle while another thread drains or counts.
    DropMeanwhile { pick: u16, drain: bool },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Seq {
    ops: Vec<Op>,
    drop_list_first: bool,
}

struct Pair {
    peer: TcpStream,
}

fn pair(l: &TcpListener) -> Result<(TcpStream, TcpStream), Fail> {
    let a = TcpStream::connect(l.local_addr().unwrap()).map_err(|e| Fail::Skip(format!("connect: {}", e)))?;
    let (b, _) = l.accept().map_err(|e| Fail::Skip(format!("accept: {}", e)))?;
    Ok((a, b))
}

pub fn run(ctx: &Ctx, s: &Seq, o: &mut Obs) -> R {
    let l = TcpListener::bind((ctx.ip().as_str(), 0)).unwrap();
    let mut list = Some(List::new());
    let mut peers: HashMap<usize, Pair> = HashMap::new();
    let mut handles: Vec<(usize, Handle)> = Vec::new();
    // Streams that were drained are no longer listed.
    let mut listed: std::collections::HashSet<usize> = Default::default();
    let mut upgraded: Vec<(usize, Arc<_>)> = Vec::new();
    let mut next = 0;
    let mut most = 0;
    for (n, op) in s.ops.iter().enumerate() {
        let lst = list.as_ref().unwrap();
        let at = |p: u16, len: usize| p as usize % len;
        match op {
            Op::Track => {
                let (a, b) = pair(&l)?;
                let c = vh::CancellableStream::new(b).map_err(|e| Fail::Skip(format!("poller: {}", e)))?;
                let h = List::track(lst, c);
                handles.push((next, h));
                peers.insert(next, Pair { peer: a });
                listed.insert(next);
                next += 1;
            }
            Op::Clone { pick } if !handles.is_empty() => {
                let i = at(*pick, handles.len());
                let c = (handles[i].0, handles[i].1.clone());
                handles.push(c);
            }
            Op::Drop { pick } if !handles.is_empty() => {
                let i = at(*pick, handles.len());
                handles.swap_remove(i);
            }
            Op::DropAll { pick } if !handles.is_empty() => {
                let id = handles[at(*pick, handles.len())].0;
                handles.retain(|h| h.0 != id);
            }
            Op::DropMeanwhile { pick, drain } if !handles.is_empty() => {
                let i = at(*pick, handles.len());
                let h = handles.swap_remove(i);
                let seen = AtomicUsize::new(0);
                let l2 = lst.clone();
                std::thread::scope(|sc| {
                    let t = sc.spawn(|| {
                        if *drain {
                            let d = l2.drain();
                            seen.fetch_add(d.iter().filter(|w| w.upgrade().is_some()).count(), Ordering::SeqCst);
                        } else {
                            seen.fetch_add(l2.len(), Ordering::SeqCst);
                        }
                    });
                    drop(h);
                    let _ = t.join();
                });
                if *drain {
                    listed.clear();
                }
            }
            Op::Drain { keep_upgraded } => {
                let d = lst.drain();
                let alive: std::collections::HashSet<usize> = handles.iter().map(|h| h.0).chain(upgraded.iter().map(|u: &(usize, Arc<_>)| u.0)).collect();
                let want: Vec<usize> = listed.iter().copied().filter(|i| alive.contains(i)).collect();
                let up: Vec<_> = d.iter().filter_map(|w| w.upgrade()).collect();
                ensure!(up.len() == want.len(), "op {}: drain gives {} live streams, {} are tracked", n, up.len(), want.len());
                ensure!(d.len() == want.len(), "op {}: drain gives {} streams, {} are alive", n, d.len(), want.len());
                listed.clear();
                if *keep_upgraded {
                    // Which one it is: its peer gets what is written to it.
                    for u in up {
                        let mut s = &**u;
                        if s.write(b"?").is_err() {
                            continue;
                        }
                        let mut found = None;
                        for id in &want {
                            let p = &mut peers.get_mut(id).unwrap().peer;
                            p.set_nonblocking(true).unwrap();
                            let mut b = [0u8; 1];
                            if matches!(p.read(&mut b), Ok(1)) {
                                found = Some(*id);
                            }
                        }
                        if let Some(id) = found {
                            upgraded.push((id, u));
                        }
                    }
                }
            }
            Op::Use { pick } if !handles.is_empty() => {
                let i = at(*pick, handles.len());
                let (id, h) = (handles[i].0, handles[i].1.clone());
                let mut h = h;
                h.write_all(b"!").map_err(|e| Fail::Hard(format!("op {}: writing to a tracked stream fails: {}", n, e)))?;
                let p = &mut peers.get_mut(&id).unwrap().peer;
                p.set_nonblocking(false).unwrap();
                p.set_read_timeout(Some(std::time::Duration::from_secs(5))).unwrap();
                let mut b = [0u8; 1];
                p.read_exact(&mut b).map_err(|e| Fail::Hard(format!("op {}: what was written to a tracked stream does not arrive: {}", n, e)))?;
            }
            _ => (),
        }
        let alive: std::collections::HashSet<usize> = handles.iter().map(|h| h.0).chain(upgraded.iter().map(|u| u.0)).collect();
        listed.retain(|i| alive.contains(i));
        ensure!(list.as_ref().unwrap().len() == listed.len(), "op {} ({:?}): {} streams are listed, {} are alive", n, op, list.as_ref().unwrap().len(), listed.len());
        // A stream of which no handle is left is closed, the others are not.
        for (id, p) in peers.iter_mut() {
            p.peer.set_nonblocking(true).unwrap();
            let mut b = [0u8; 8];
            let closed = match p.peer.peek(&mut b) {
                Ok(0) => true,
                Ok(_) => false,
                Err(e) => e.kind() != std::io::ErrorKind::WouldBlock,
            };
            ensure!(closed != alive.contains(id), "op {} ({:?}): stream {} is closed: {}, a handle of it is alive: {}", n, op, id, closed, alive.contains(id));
        }
        peers.retain(|id, _| alive.contains(id));
        most = most.max(alive.len());
        o.sub += 1;
    }
    if s.drop_list_first {
        drop(list.take());
        o.class("list dropped first");
    }
    drop(handles);
    drop(upgraded);
    if let Some(l) = list {
        ensure!(l.len() == 0, "{} streams are listed when none is alive", l.len());
    }
    o.nontrivial(most > 1 && s.ops.len() > 4);
    Ok(())
}

pub fn strategy() -> impl Strategy<Value = Seq> {
    let op = prop_oneof![
        6 => Just(Op::Track),
        4 => any::<u16>().prop_map(|pick| Op::Clone { pick }),
        5 => any::<u16>().prop_map(|pick| Op::Drop { pick }),
        1 => any::<u16>().prop_map(|pick| Op::DropAll { pick }),
        1 => any::<bool>().prop_map(|keep_upgraded| Op::Drain { keep_upgraded }),
        2 => any::<u16>().prop_map(|pick| Op::Use { pick }),
        1 => (any::<u16>(), any::<bool>()).prop_map(|(pick, drain)| Op::DropMeanwhile { pick, drain }),
    ];
    (vec(op, 1..30), any::<bool>()).prop_map(|(ops, drop_list_first)| Seq { ops, drop_list_first })
}

/// Streams made, cloned and dropped by several threads at the very same time.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Crowd {
    /// For each thread, what it does with its streams: kept, dropped, cloned and dropped, replaced.
    threads: Vec<Vec<u8>>,
    rounds: u8,
    drains: bool,
}

pub fn crowd(ctx: &Ctx, c: &Crowd, o: &mut Obs) -> R {
    let l = TcpListener::bind((ctx.ip().as_str(), 0)).unwrap();
    let (_a, b) = pair(&l)?;
    let list = List::new();
    let make = || -> Result<Handle, Fail> {
        let s = b.try_clone().map_err(|e| Fail::Skip(format!("dup: {}", e)))?;
        let s = vh::CancellableStream::new(s).map_err(|e| Fail::Skip(format!("poller: {}", e)))?;
        Ok(List::track(&list, s))
    };
    let mut kept: Vec<Handle> = Vec::new();
    for round in 0..c.rounds {
        let mut sets: Vec<Vec<Handle>> = Vec::new();
        for t in &c.threads {
            sets.push(t.iter().map(|_| make()).collect::<Result<_, _>>()?);
        }
        let barrier = std::sync::Barrier::new(c.threads.len());
        let more: Vec<Result<Vec<Handle>, Fail>> = std::thread::scope(|sc| {
            let ts: Vec<_> = c
                .threads
                .iter()
                .zip(sets)
                .map(|(plan, set)| {
                    let (barrier, make) = (&barrier, &make);
                    sc.spawn(move || {
                        let mut keep = Vec::new();
                        barrier.wait();
                        for (what, h) in plan.iter().zip(set) {
                            match what % 4 {
                                0 => keep.push(h),
                                1 => drop(h),
                                2 => {
                                    let h2 = h.clone();
                                    drop(h);
                                    drop(h2);
                                }
                                _ => {
                                    drop(h);
                                    drop(make()?);
                                }
                            }
                        }
                        Ok(keep)
                    })
                })
                .collect();
            ts.into_iter().map(|t| t.join().unwrap_or_else(|_| Err(Fail::Hard(format!("tracking streams panics: {}", last_panic()))))).collect()
        });
        for m in more {
            kept.extend(m?);
        }
        ensure!(list.len() == kept.len(), "round {}: {} streams are listed, {} are alive", round, list.len(), kept.len());
        if kept.len() > 60 {
            kept.clear();
            ensure!(list.len() == 0, "round {}: {} streams are listed, none is alive", round, list.len());
        }
        o.sub += 1;
    }
    if c.drains {
        let (n, k) = (list.drain(), kept.len());
        let live = n.iter().filter(|w| w.upgrade().is_some()).count();
        ensure!(live == k && n.len() == k, "drain gives {} streams, {} of them alive, where {} are", n.len(), live, k);
    }
    drop(kept);
    ensure!(list.len() == 0, "{} streams are listed when none is alive", list.len());
    o.nontrivial(c.threads.len() > 1 && c.threads.iter().filter(|t| t.iter().any(|w| w % 4 != 0)).count() > 1);
    Ok(())
}

pub fn crowds() -> impl Strategy<Value = Crowd> {
    (vec(vec(any::<u8>(), 1..24), 1..7), 1u8..6, any::<bool>()).prop_map(|(threads, rounds, drains)| Crowd { threads, rounds, drains })
}
