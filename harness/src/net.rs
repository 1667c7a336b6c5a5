//! The real server process, and raw connections to it.
use crate::{common::*, rng::Rng, wire::*};
use std::{
    io::{Read, Write},
    net::{Shutdown, SocketAddr, TcpListener, TcpStream},
    os::unix::{io::AsRawFd, process::CommandExt},
    process::{Child, Command, Stdio},
    sync::Mutex,
    time::{Duration, Instant},
};

/// No byte for this long although one is due: the server is stuck.
pub const STUCK: Duration = Duration::from_secs(30);

pub struct Server {
    child: Mutex<Child>,
    pub addr: SocketAddr,
    pub log: std::path::PathBuf,
}

impl Server {
    /// Start the server; `nofile` limits how many files it may open, `mem` its address space.
    pub fn start(name: &str, nofile: Option<u64>, mem: Option<u64>) -> Server {
        let c = ctx();
        for attempt in 0..8 {
            let port = {
                let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
                l.local_addr().expect("addr").port()
            };
            let log = c.out.join(format!("server-{name}-{attempt}.log"));
            let mut cmd = Command::new(&c.server);
            cmd.env_clear()
                .env("HOST", "127.0.0.1")
                .env("PORT", port.to_string())
                .env("LD_PRELOAD", &c.shim)
                .env("RUST_BACKTRACE", "0")
                .current_dir(&c.out)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(std::fs::File::create(&log).expect("log"));
            unsafe {
                cmd.pre_exec(move || {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    if let Some(n) = nofile {
                        let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                    }
                    if let Some(n) = mem {
                        let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                        libc::setrlimit(libc::RLIMIT_AS, &l);
                    }
                    Ok(())
                });
            }
            let mut child = match cmd.spawn() {
                Ok(c) => c,
                Err(e) => inconclusive(&format!("can't start the server: {e}")),
            };
            let addr: SocketAddr = ([127, 0, 0, 1], port).into();
            let t = Instant::now();
            while t.elapsed() < Duration::from_secs(20) {
                if let Ok(Some(_)) = child.try_wait() {
                    break;
                }
                if let Ok(s) = TcpStream::connect_timeout(&addr, Duration::from_secs(2)) {
                    drop(s);
                    return Server { child: Mutex::new(child), addr, log };
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            child.kill().ok();
            child.wait().ok();
        }
        inconclusive("the server never came up");
    }
    pub fn pid(&self) -> u32 {
        self.child.lock().unwrap().id()
    }
    /// How the process ended, if it did.
    pub fn ended(&self) -> Option<String> {
        match self.child.lock().unwrap().try_wait() {
            Ok(Some(s)) => Some(format!("{s}; its output ends with: {}", self.output())),
            _ => None,
        }
    }
    pub fn output(&self) -> String {
        let b = std::fs::read(&self.log).unwrap_or_default();
        String::from_utf8_lossy(&b[b.len().saturating_sub(1500)..]).into_owned()
    }
    pub fn kill(&self) {
        let mut c = self.child.lock().unwrap();
        c.kill().ok();
        c.wait().ok();
    }
    pub fn rss_kb(&self) -> u64 {
        let s = std::fs::read_to_string(format!("/proc/{}/status", self.pid())).unwrap_or_default();
        s.lines().find_map(|l| l.strip_prefix("VmHWM:")).and_then(|l| l.split_whitespace().next()?.parse().ok()).unwrap_or(0)
    }
    pub fn connect(&self) -> std::io::Result<Conn> {
        Conn::to(self.addr)
    }
    /// A connection that has to be possible.
    pub fn must(&self, prop: &str) -> Conn {
        let t = Instant::now();
        loop {
            match self.connect() {
                Ok(c) => return c,
                Err(e) => {
                    if let Some(s) = self.ended() {
                        fail(&format!("{prop}: the server process ended"), s);
                    }
                    if t.elapsed() > STUCK {
                        fail(&format!("{prop}: the server takes no connections"), e.to_string());
                    }
                    std::thread::sleep(Duration::from_millis(5));
                }
            }
        }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.kill();
    }
}

#[derive(Debug)]
pub enum NetErr {
    Closed,
    Stuck,
    Bad(String),
    Io(String),
}

pub struct Conn {
    pub s: TcpStream,
    buf: Vec<u8>,
    pos: usize,
}

impl Conn {
    pub fn to(a: SocketAddr) -> std::io::Result<Conn> {
        Conn::within(a, Duration::from_secs(10))
    }
    pub fn within(a: SocketAddr, limit: Duration) -> std::io::Result<Conn> {
        let s = TcpStream::connect_timeout(&a, limit)?;
        s.set_nodelay(true)?;
        s.set_read_timeout(Some(Duration::from_millis(100)))?;
        s.set_write_timeout(Some(STUCK))?;
        Ok(Conn { s, buf: vec![], pos: 0 })
    }
    pub fn send(&mut self, b: &[u8]) -> Result<(), NetErr> {
        self.s.write_all(b).map_err(|e| NetErr::Io(e.to_string()))
    }
    fn fill(&mut self, limit: Duration) -> Result<usize, NetErr> {
        let t = Instant::now();
        let mut b = [0u8; 65536];
        if self.pos > 0 && self.pos == self.buf.len() {
            self.buf.clear();
            self.pos = 0;
        }
        loop {
            match self.s.read(&mut b) {
                Ok(0) => return Ok(0),
                Ok(n) => {
                    self.buf.extend_from_slice(&b[..n]);
                    return Ok(n);
                }
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                    if t.elapsed() > limit {
                        return Err(NetErr::Stuck);
                    }
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(NetErr::Io(e.to_string())),
            }
        }
    }
    /// The next reply; `Stuck` when no byte comes for `limit`.
    pub fn recv_in(&mut self, limit: Duration) -> Result<Reply, NetErr> {
        loop {
            match decode_reply(&self.buf[self.pos..]) {
                Err(e) => return Err(NetErr::Bad(e)),
                Ok(Some((r, n))) => {
                    self.pos += n;
                    return Ok(r);
                }
                Ok(None) => {
                    if self.fill(limit)? == 0 {
                        return if self.pos == self.buf.len() {
                            Err(NetErr::Closed)
                        } else {
                            Err(NetErr::Bad(format!("closed within a reply: {}", hex(&self.buf[self.pos..]))))
                        };
                    }
                }
            }
        }
    }
    pub fn recv(&mut self) -> Result<Reply, NetErr> {
        self.recv_in(STUCK)
    }
    pub fn ask(&mut self, r: &Req) -> Result<Reply, NetErr> {
        self.send(&r.encode())?;
        self.recv()
    }
    pub fn half_close(&mut self) {
        self.s.shutdown(Shutdown::Write).ok();
    }
    /// Close with a reset.
    pub fn reset(self) {
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(
                self.s.as_raw_fd(),
                libc::SOL_SOCKET,
                libc::SO_LINGER,
                &l as *const _ as *const libc::c_void,
                std::mem::size_of::<libc::linger>() as u32,
            );
        }
        drop(self);
    }
    pub fn unread(&self) -> &[u8] {
        &self.buf[self.pos..]
    }
}

/// How a byte stream is handed to the socket.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Split {
    Whole,
    Bytes,
    Random(usize),
    /// At these offsets around message boundaries.
    Boundary,
}

pub fn pick_split(r: &mut Rng) -> Split {
    match r.below(7) {
        0 | 1 => Split::Whole,
        2 => Split::Bytes,
        3 => Split::Boundary,
        _ => Split::Random(*r.pick(&[3usize, 10, 60, 500, 5000, 8192, 20_000])),
    }
}

/// Write `stream` in pieces, with pauses that let the server see them one by one.
pub fn trickle(s: &mut TcpStream, stream: &[u8], ends: &[usize], split: Split, pause: u64, r: &mut Rng) -> std::io::Result<usize> {
    let mut at = 0;
    let mut pieces = 0;
    let mut slept = 0u64;
    while at < stream.len() {
        let n = match split {
            Split::Whole => stream.len(),
            Split::Bytes => {
                if at < 400 || stream.len() - at < 40 {
                    1
                } else {
                    r.range(1, 4000)
                }
            }
            Split::Random(m) => r.range(1, m),
            Split::Boundary => {
                // Shortly before, at or after the end of a request.
                let e = ends.iter().find(|e| **e + 1 > at).copied().unwrap_or(stream.len());
                let t = (e + r.below(4)).saturating_sub(1);
                t.saturating_sub(at).max(1)
            }
        }
        .min(stream.len() - at);
        s.write_all(&stream[at..at + n])?;
        at += n;
        pieces += 1;
        if pause > 0 && slept < 400_000 && r.chance(1, 2) {
            let us = r.range(1, pause as usize) as u64;
            slept += us;
            std::thread::sleep(Duration::from_micros(us));
        }
    }
    Ok(pieces)
}
