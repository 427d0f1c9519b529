//! C07: status codes, methods and versions.
use crate::fw::*;
use crate::gen::METHODS;
use crate::{ensure, hard};
use proptest::prelude::*;
use proptest::sample::select;
use std::str::FromStr;
use wruster::http::{HttpMethod, StatusCode, Version};

use StatusCode::*;

/// RFC 2616 6.1.1, with the phrase RFC 7231 changed beside it.
pub fn codes() -> Vec<(usize, StatusCode, &'static [&'static str])> {
    vec![
        (100, Continue, &["Continue"]),
        (101, SwitchingProtocols, &["Switching Protocols"]),
        (200, OK, &["OK"]),
        (201, Created, &["Created"]),
        (202, Accepted, &["Accepted"]),
        (203, NonAuthoritativeInformation, &["Non-Authoritative Information"]),
        (204, NoContent, &["No Content"]),
        (205, ResetContent, &["Reset Content"]),
        (206, PartialContent, &["Partial Content"]),
        (300, MultipleChoices, &["Multiple Choices"]),
        (301, MovedPermanently, &["Moved Permanently"]),
        (302, Found, &["Found"]),
        (303, SeeOther, &["See Other"]),
        (304, NotModified, &["Not Modified"]),
        (305, UseProxy, &["Use Proxy"]),
        (307, TemporaryRedirect, &["Temporary Redirect"]),
        (400, BadRequest, &["Bad Request"]),
        (401, Unauthorized, &["Unauthorized"]),
        (402, PaymentRequired, &["Payment Required"]),
        (403, Forbidden, &["Forbidden"]),
        (404, NotFound, &["Not Found"]),
        (405, MethodNotAllowed, &["Method Not Allowed"]),
        (406, NotAcceptable, &["Not Acceptable"]),
        (407, ProxyAuthenticationRequired, &["Proxy Authentication Required"]),
        (408, RequestTimeOut, &["Request Time-out", "Request Timeout"]),
        (409, Conflict, &["Conflict"]),
        (410, Gone, &["Gone"]),
        (411, LengthRequired, &["Length Required"]),
        (412, PreconditionFailed, &["Precondition Failed"]),
        (413, RequestEntityTooLarge, &["Request Entity Too Large", "Payload Too Large"]),
        (414, RequestURITooLarge, &["Request-URI Too Large", "Request-URI Too Long", "URI Too Long"]),
        (415, UnsupportedMediaType, &["Unsupported Media Type"]),
        (416, RequestedRangeNotSatisfiable, &["Requested range not satisfiable", "Requested Range Not Satisfiable", "Range Not Satisfiable"]),
        (417, ExpectationFailed, &["Expectation Failed"]),
        (500, InternalServerError, &["Internal Server Error"]),
        (501, NotImplemented, &["Not Implemented"]),
        (502, BadGateway, &["Bad Gateway"]),
        (503, ServiceUnavailable, &["Service Unavailable"]),
        (504, GatewayTimeOut, &["Gateway Time-out", "Gateway Timeout"]),
        (505, HTTPVersionNotSupported, &["HTTP Version not supported", "HTTP Version Not Supported"]),
    ]
}

fn check_code(n: usize, o: &mut Obs) -> R {
    let s = StatusCode::from(n);
    let back: usize = (&s).into();
    ensure!(back == n, "{} converts to {:?} and back to {}", n, s, back);
    let cl = s.clone();
    ensure!(cl == s, "the clone of {:?} is {:?}", s, cl);
    let cl_n: usize = (&cl).into();
    ensure!(cl_n == n, "the clone of {:?} is {}", s, cl_n);
    match codes().into_iter().find(|c| c.0 == n) {
        Some((_, want, reasons)) => {
            ensure!(s == want, "{} maps to {:?}, not to {:?}", n, s, want);
            ensure!(reasons.contains(&s.reason()), "{} has the reason phrase {:?}", n, s.reason());
        }
        None => ensure!(s == ExtensionCode(n), "{} maps to {:?}", n, s),
    }
    let printed = s.to_string();
    ensure!(printed == format!("{} {}", n, s.reason()), "{} prints as {:?}", n, printed);
    let st: String = s.clone().into();
    ensure!(st == printed, "{} as a String is {:?}", n, st);
    // Only itself is equal.
    for (m, other, _) in codes() {
        ensure!((other == s) == (m == n), "{:?} == {:?} is {}", other, s, other == s);
    }
    o.sub += 1;
    Ok(())
}

fn case_variants(s: &str) -> Vec<String> {
    let mut v = vec![s.to_lowercase(), s.to_uppercase(), format!(" {}", s), format!("{} ", s), format!("{}\0", s), format!("{}{}", s, s), s[..s.len() - 1].to_string(), s[1..].to_string()];
    for i in 0..s.len() {
        let mut b: Vec<u8> = s.bytes().collect();
        b[i] = if b[i].is_ascii_uppercase() { b[i].to_ascii_lowercase() } else { b[i].to_ascii_uppercase() };
        v.push(String::from_utf8(b).unwrap());
        let mut b: Vec<u8> = s.bytes().collect();
        b.remove(i);
        v.push(String::from_utf8(b).unwrap());
    }
    v
}

fn check_string(s: &str) -> R {
    let m = no_panic(|| HttpMethod::from_str(s)).map_err(Fail::Hard)?;
    match m {
        Ok(m) => {
            ensure!(METHODS.contains(&s), "{:?} parses as the method {}", s, m);
            ensure!(m.to_string() == s, "{:?} parses as {}", s, m);
        }
        Err(_) => ensure!(!METHODS.contains(&s), "{:?} is refused as a method", s),
    }
    let vs = ["HTTP/1.0", "HTTP/1.1", "HTTP/2"];
    let v = no_panic(|| Version::from_str(s)).map_err(Fail::Hard)?;
    match v {
        Ok(v) => {
            ensure!(vs.contains(&s), "{:?} parses as the version {}", s, v);
            ensure!(v.to_string() == s, "{:?} parses as {}", s, v);
        }
        Err(_) => ensure!(!vs.contains(&s), "{:?} is refused as a version", s),
    }
    Ok(())
}

fn all(_: &Ctx, _: &u8, o: &mut Obs) -> R {
    for n in 0..70_000 {
        check_code(n, o)?;
    }
    let all = [HttpMethod::GET, HttpMethod::HEAD, HttpMethod::POST, HttpMethod::PUT, HttpMethod::DELETE, HttpMethod::CONNECT, HttpMethod::OPTIONS, HttpMethod::TRACE, HttpMethod::PATCH];
    for (i, a) in all.iter().enumerate() {
        ensure!(a.to_string() == METHODS[i], "{:?} prints as {}", a, a);
        for (j, b) in all.iter().enumerate() {
            ensure!((a == b) == (i == j), "{} == {} is {}", a, b, a == b);
        }
        match HttpMethod::from_str(METHODS[i]) {
            Ok(m) if m == *a => (),
            x => hard!("{} parses as {:?}", METHODS[i], x),
        }
        ensure!(*a as u16 <= HttpMethod::get_last() as u16, "{} is above get_last()", a);
    }
    for (v, s) in [(Version::HTTP1_0, "HTTP/1.0"), (Version::HTTP1_1, "HTTP/1.1"), (Version::HTTP2, "HTTP/2")] {
        ensure!(v.to_string() == s, "{:?} prints as {}", v, v);
        ensure!(Version::from_str(s).ok() == Some(v), "{} does not parse to itself", s);
    }
    for s in METHODS.iter().copied().chain(["HTTP/1.0", "HTTP/1.1", "HTTP/2"]) {
        check_string(s)?;
        for v in case_variants(s) {
            check_string(&v)?;
            o.sub += 1;
        }
    }
    o.nontrivial(true);
    Ok(())
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        assumptions: &["either the RFC 2616 or the RFC 7231 wording of a reason phrase counts as standard"],
        suites: vec![
            suite(
                Opts { name: "all", rule: "every number from 0 to 69999, every method and version with every near miss by case, blank, deletion", quick: 1, thorough: 1, shards: 1, shrink: 0, pure: true },
                |_| Just(0u8).boxed(),
                all,
            ),
            suite(
                Opts { name: "numbers", rule: "numbers of any size; non-trivial: above 69999", quick: 200_000, thorough: 3_000_000, shards: 8, shrink: 1000, pure: true },
                |_| {
                    prop_oneof![any::<u64>(), (0u32..64, 0u64..1000).prop_map(|(s, d)| (1u64 << s).wrapping_add(d)), (0u64..1000).prop_map(|d| u64::MAX - d), (0u64..700, 1u64..100000).prop_map(|(c, k)| c + k * 65536)]
                        .boxed()
                },
                |_, n: &u64, o| {
                    o.nontrivial(*n > 69_999);
                    check_code(*n as usize, o)
                },
            ),
            suite(
                Opts { name: "strings", rule: "strings near and far from the tokens; non-trivial: non-empty", quick: 400_000, thorough: 5_000_000, shards: 8, shrink: 1000, pure: true },
                |_| {
                    let tok = select(METHODS.iter().copied().chain(["HTTP/1.0", "HTTP/1.1", "HTTP/2", "HTTP/0.9", "HTTP/3", "HTTP/1.2", "HTTP/2.0"]).collect::<Vec<_>>());
                    let edit = (tok, any::<u8>(), any::<u8>(), 0u8..4).prop_map(|(t, p, b, k)| {
                        let mut v: Vec<char> = t.chars().collect();
                        let i = p as usize % v.len();
                        match k {
                            0 => v[i] = b as char,
                            1 => v.insert(i, b as char),
                            2 => {
                                v.remove(i);
                            }
                            _ => v.swap(i, b as usize % t.len()),
                        }
                        v.into_iter().collect::<String>()
                    });
                    prop_oneof![3 => edit, 1 => "[A-Z]{0,8}", 1 => ".{0,10}", 1 => "HTTP/[0-9]{1,2}(.[0-9]{1,2})?"].boxed()
                },
                |_, s: &String, o| {
                    o.nontrivial(!s.is_empty());
                    check_string(s)
                },
            ),
        ],
    }
}
