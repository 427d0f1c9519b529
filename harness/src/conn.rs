//! A client connection, plain or TLS, whose every byte is under the test's control.
use crate::fw::Fail;
use crate::refhttp::{self, Msg};
use rustls::client::{ServerCertVerified, ServerCertVerifier};
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::net::{Shutdown, TcpStream};
use std::os::unix::io::AsRawFd;
use std::sync::Arc;
use std::time::{Duration, Instant};

struct AnyCert;
impl ServerCertVerifier for AnyCert {
    fn verify_server_cert(
        &self, _: &rustls::Certificate, _: &[rustls::Certificate], _: &rustls::ServerName,
        _: &mut dyn Iterator<Item = &[u8]>, _: &[u8], _: std::time::SystemTime,
    ) -> Result<ServerCertVerified, rustls::Error> {
        Ok(ServerCertVerified::assertion())
    }
}

pub fn tls_client(max_fragment: Option<usize>, tls12: bool) -> rustls::ClientConnection {
    let versions: &[&rustls::SupportedProtocolVersion] =
        if tls12 { &[&rustls::version::TLS12] } else { &[&rustls::version::TLS13] };
    let mut c = rustls::ClientConfig::builder()
        .with_safe_default_cipher_suites()
        .with_safe_default_kx_groups()
        .with_protocol_versions(versions)
        .unwrap()
        .with_custom_certificate_verifier(Arc::new(AnyCert))
        .with_no_client_auth();
    c.max_fragment_size = max_fragment;
    rustls::ClientConnection::new(Arc::new(c), "localhost".try_into().unwrap()).unwrap()
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum St {
    Open,
    Closed,
    Reset,
    Tls,
}

/// How fast and in what pieces the client reads and writes.
#[derive(Debug, Clone)]
pub struct Pace {
    pub frag: Vec<u16>,
    pub gap_us: u64,
    pub read_size: usize,
    pub read_gap_us: u64,
}
impl Default for Pace {
    fn default() -> Self {
        Pace { frag: vec![], gap_us: 0, read_size: 65536, read_gap_us: 0 }
    }
}

pub struct Conn {
    pub sock: TcpStream,
    pub tls: Option<rustls::ClientConnection>,
    out: VecDeque<u8>,
    plain: Vec<u8>,
    pub inb: Vec<u8>,
    pub st: St,
    pub wbroken: bool,
    pub pace: Pace,
    nfrag: usize,
    rbuf: Vec<u8>,
    next_write: Instant,
    next_read: Instant,
    pub msgs: Vec<Msg>,
    pub bad: Option<String>,
    pub got_bytes: u64,
    pub sent_bytes: u64,
}

impl Conn {
    pub fn connect(addr: &str) -> io::Result<Conn> {
        let sock = TcpStream::connect(addr)?;
        Conn::from(sock)
    }
    /// A socket that is not connected.
    pub fn socket() -> io::Result<TcpStream> {
        use std::os::unix::io::FromRawFd;
        let fd = unsafe { libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0) };
        if fd < 0 {
            return Err(io::Error::last_os_error());
        }
        Ok(unsafe { TcpStream::from_raw_fd(fd) })
    }
    pub fn connect_sock(sock: TcpStream, addr: &str) -> io::Result<Conn> {
        let a: std::net::SocketAddrV4 = addr.parse().map_err(|_| io::Error::from(io::ErrorKind::InvalidInput))?;
        let sa = libc::sockaddr_in {
            sin_family: libc::AF_INET as u16,
            sin_port: a.port().to_be(),
            sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes(a.ip().octets()) },
            sin_zero: [0; 8],
        };
        let r = unsafe { libc::connect(sock.as_raw_fd(), &sa as *const _ as *const libc::sockaddr, std::mem::size_of::<libc::sockaddr_in>() as u32) };
        if r != 0 {
            return Err(io::Error::last_os_error());
        }
        Conn::from(sock)
    }
    /// Connects with a small receive buffer, for the server to find its own full.
    pub fn connect_small(addr: &str, rcvbuf: u32) -> io::Result<Conn> {
        let sock = Conn::socket()?;
        let v = rcvbuf as libc::c_int;
        unsafe { libc::setsockopt(sock.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &v as *const _ as *const libc::c_void, 4) };
        Conn::connect_sock(sock, addr)
    }
    /// Sets the send buffer of the server's end of the connection, a socket of
    /// this process. The loopback interface starts with so large a one that it
    /// is never full in the middle of a write, other networks don't.
    pub fn shrink_peer(&self, sndbuf: u32) -> bool {
        let want = match self.sock.local_addr() {
            Ok(std::net::SocketAddr::V4(a)) => a,
            _ => return false,
        };
        let until = Instant::now() + Duration::from_secs(5);
        while Instant::now() < until {
            for fd in 3..1024 {
                let mut sa: libc::sockaddr_in = unsafe { std::mem::zeroed() };
                let mut len = std::mem::size_of::<libc::sockaddr_in>() as u32;
                let r = unsafe { libc::getpeername(fd, &mut sa as *mut _ as *mut libc::sockaddr, &mut len) };
                if r == 0 && sa.sin_port == want.port().to_be() && sa.sin_addr.s_addr == u32::from_ne_bytes(want.ip().octets()) {
                    let v = sndbuf as libc::c_int;
                    unsafe { libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &v as *const _ as *const libc::c_void, 4) };
                    return true;
                }
            }
            std::thread::sleep(Duration::from_micros(200));
        }
        false
    }
    /// Makes the receive buffer large again.
    pub fn widen(&self) {
        let v: libc::c_int = 1 << 20;
        unsafe {
            libc::setsockopt(self.sock.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &v as *const _ as *const libc::c_void, 4);
        }
    }
    /// Does not read for a while.
    pub fn hold(&mut self, d: Duration) {
        self.next_read = Instant::now() + d;
    }
    pub fn from(sock: TcpStream) -> io::Result<Conn> {
        sock.set_nodelay(true)?;
        sock.set_nonblocking(true)?;
        Ok(Conn {
            sock,
            tls: None,
            out: VecDeque::new(),
            plain: Vec::new(),
            inb: Vec::new(),
            st: St::Open,
            wbroken: false,
            pace: Pace::default(),
            nfrag: 0,
            rbuf: vec![0; 65536],
            next_write: Instant::now(),
            next_read: Instant::now(),
            msgs: Vec::new(),
            bad: None,
            got_bytes: 0,
            sent_bytes: 0,
        })
    }
    pub fn with_tls(mut self, c: rustls::ClientConnection) -> Conn {
        self.tls = Some(c);
        self.tls_out();
        self
    }
    fn tls_out(&mut self) {
        if let Some(t) = self.tls.as_mut() {
            while t.wants_write() {
                let mut v = Vec::new();
                if t.write_tls(&mut v).is_err() {
                    break;
                }
                self.out.extend(v);
            }
        }
    }
    /// Queues bytes; `pump` sends them.
    pub fn send(&mut self, data: &[u8]) {
        if self.tls.as_ref().is_some_and(|t| t.is_handshaking()) {
            self.plain.extend_from_slice(data);
        } else if self.tls.is_some() {
            let mut d = data;
            while !d.is_empty() {
                let n = self.tls.as_mut().unwrap().writer().write(d).unwrap_or(0);
                self.tls_out();
                if n == 0 {
                    break;
                }
                d = &d[n..];
            }
        } else {
            self.out.extend(data);
        }
    }
    pub fn pending_out(&self) -> bool {
        !self.wbroken && (!self.out.is_empty() || !self.plain.is_empty())
    }
    /// Bypasses TLS.
    pub fn send_raw(&mut self, data: &[u8]) {
        self.out.extend(data);
    }
    pub fn finish_sending(&mut self) {
        if let Some(t) = self.tls.as_mut() {
            t.send_close_notify();
        }
        self.tls_out();
    }
    /// Sends bytes even if the other side has ended its sending.
    pub fn go_on(&mut self, data: &[u8]) {
        match self.tls.as_mut() {
            None => {
                let _ = (&self.sock).write(data);
            }
            Some(t) => {
                let _ = t.writer().write(data);
                let _ = t.write_tls(&mut &self.sock);
            }
        }
    }
    pub fn half_close(&self) {
        let _ = self.sock.shutdown(Shutdown::Write);
    }

    /// Waits up to `wait` for something to do, and does it.
    pub fn pump(&mut self, wait: Duration) {
        if self.st == St::Open && self.pace.read_gap_us == 0 {
            self.quick_ack();
        }
        if self.st != St::Open {
            std::thread::sleep(wait.min(Duration::from_millis(1)));
            return;
        }
        let now = Instant::now();
        let want_w = !self.out.is_empty() && !self.wbroken;
        let can_w = want_w && now >= self.next_write;
        let can_r = now >= self.next_read;
        let mut t = wait;
        if want_w && !can_w {
            t = t.min(self.next_write - now);
        }
        if !can_r {
            t = t.min(self.next_read - now);
        }
        let mut ev = 0;
        if can_w {
            ev |= libc::POLLOUT;
        }
        if can_r {
            ev |= libc::POLLIN;
        }
        let mut p = libc::pollfd { fd: self.sock.as_raw_fd(), events: ev, revents: 0 };
        let ts = libc::timespec { tv_sec: t.as_secs() as i64, tv_nsec: t.subsec_nanos() as i64 };
        if ev == 0 {
            std::thread::sleep(t);
            return;
        }
        unsafe { libc::ppoll(&mut p, 1, &ts, std::ptr::null()) };
        let hup = p.revents & (libc::POLLHUP | libc::POLLERR) != 0;
        if can_w && (p.revents & libc::POLLOUT != 0 || hup) {
            self.do_write();
        }
        if p.revents & libc::POLLIN != 0 || hup {
            self.do_read();
        }
    }
    fn do_write(&mut self) {
        let mut n = usize::MAX;
        if !self.pace.frag.is_empty() {
            n = self.pace.frag[self.nfrag % self.pace.frag.len()].max(1) as usize;
            self.nfrag += 1;
        }
        let (a, _) = self.out.as_slices();
        let n = n.min(a.len());
        match self.sock.write(&a[..n]) {
            Ok(k) => {
                self.out.drain(..k);
                self.sent_bytes += k as u64;
                if !self.pace.frag.is_empty() && self.pace.gap_us > 0 {
                    self.next_write = Instant::now() + Duration::from_micros(self.pace.gap_us);
                }
            }
            Err(e) if e.kind() == io::ErrorKind::WouldBlock || e.kind() == io::ErrorKind::Interrupted => (),
            Err(_) => {
                self.wbroken = true;
                self.out.clear();
            }
        }
    }
    fn do_read(&mut self) {
        let n = self.pace.read_size.min(self.rbuf.len());
        let mut buf = std::mem::take(&mut self.rbuf);
        let r = self.sock.read(&mut buf[..n]);
        match r {
            Ok(0) => self.st = St::Closed,
            Ok(k) => {
                self.got_bytes += k as u64;
                self.feed(&buf[..k]);
                if self.pace.read_gap_us > 0 {
                    self.next_read = Instant::now() + Duration::from_micros(self.pace.read_gap_us);
                }
            }
            Err(e) if e.kind() == io::ErrorKind::WouldBlock || e.kind() == io::ErrorKind::Interrupted => (),
            Err(_) => self.st = St::Reset,
        }
        self.rbuf = buf;
        self.quick_ack();
    }
    /// Acknowledges at once: a server that writes in pieces waits for it.
    fn quick_ack(&self) {
        let v: libc::c_int = 1;
        unsafe {
            libc::setsockopt(self.sock.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &v as *const _ as *const libc::c_void, 4);
        }
    }
    fn feed(&mut self, data: &[u8]) {
        match self.tls.as_mut() {
            None => self.inb.extend_from_slice(data),
            Some(t) => {
                let mut d = data;
                let mut plain = vec![0u8; 32768];
                while !d.is_empty() {
                    if t.read_tls(&mut d).is_err() {
                        self.st = St::Tls;
                        break;
                    }
                    if let Err(e) = t.process_new_packets() {
                        self.bad = Some(format!("TLS: {}", e));
                        self.st = St::Tls;
                        break;
                    }
                    loop {
                        match t.reader().read(&mut plain) {
                            Ok(0) => break,
                            Ok(n) => self.inb.extend_from_slice(&plain[..n]),
                            Err(_) => break,
                        }
                    }
                }
                self.tls_out();
                if !self.plain.is_empty() && !self.tls.as_ref().unwrap().is_handshaking() {
                    let p = std::mem::take(&mut self.plain);
                    self.send(&p);
                }
            }
        }
        self.parse();
    }
    fn parse(&mut self) {
        while self.bad.is_none() {
            match refhttp::try_take(&mut self.inb) {
                None => break,
                Some(Ok(m)) => self.msgs.push(m),
                Some(Err(e)) => self.bad = Some(e),
            }
        }
    }
    /// Pumps until `done`, an end of the connection, or the deadline; true if `done`.
    pub fn until(&mut self, deadline: Instant, mut done: impl FnMut(&Conn) -> bool) -> bool {
        loop {
            if done(self) {
                return true;
            }
            if self.st != St::Open || self.bad.is_some() || Instant::now() >= deadline {
                return false;
            }
            let left = deadline.saturating_duration_since(Instant::now());
            self.pump(left.min(Duration::from_millis(20)));
        }
    }
    /// Sends a request and waits for the next response.
    pub fn ask(&mut self, req: &[u8], wait: Duration) -> Result<Msg, Fail> {
        self.msgs.clear();
        self.send(req);
        if self.until(Instant::now() + wait, |c| !c.msgs.is_empty()) {
            return Ok(self.msgs.remove(0));
        }
        let what = format!("no response to {:?} within {:?}: {}", refhttp::show(req), wait, self.describe());
        if self.st == St::Open && self.bad.is_none() {
            Err(Fail::Soft(what))
        } else {
            Err(Fail::Hard(what))
        }
    }
    pub fn describe(&self) -> String {
        format!(
            "{} responses so far, connection {:?}{}{}, {} unparsed bytes {:?}",
            self.msgs.len(),
            self.st,
            if self.wbroken { ", writing refused" } else { "" },
            self.bad.as_ref().map(|b| format!(", {}", b)).unwrap_or_default(),
            self.inb.len(),
            refhttp::show(&self.inb)
        )
    }
    /// Ends the connection with a RST.
    pub fn reset(self) {
        abort(self.sock)
    }
}

/// Ends the connection with a RST.
pub fn abort(sock: TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(
            sock.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::linger>() as u32,
        );
    }
}
