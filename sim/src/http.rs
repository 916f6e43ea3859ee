//! A small HTTP/1.1 client of our own, so that the wire is seen as it is.
use crate::kern::k;
use crate::plan::NetOpts;
use std::io::{Read, Write};
use std::net::TcpStream;
use std::os::fd::AsRawFd;
use std::time::Duration;

pub struct Req {
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, String)>,
    pub body: Option<Vec<u8>>,
}
#[derive(Debug)]
pub struct Resp {
    pub status: u16,
    pub body: Vec<u8>,
    pub close: bool,
}
#[derive(Debug)]
pub enum Fail {
    Connect(String),
    ///the connection ended before the answer was complete
    Lost(String),
    Timeout,
    ///given up on purpose; false: the request was not complete
    Aborted(bool),
    ///not HTTP
    Bad(String),
}

pub fn encode(s: &str, all: bool) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if !all && (b.is_ascii_alphanumeric() || b"-_.~".contains(&b)) {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}
pub fn query(path: &str, q: &[(&str, &str)], all: bool) -> String {
    let mut o = path.to_string();
    for (i, (kx, v)) in q.iter().enumerate() {
        o.push(if i == 0 { '?' } else { '&' });
        o.push_str(kx);
        o.push('=');
        o.push_str(&encode(v, all));
    }
    o
}

pub struct Conn {
    pub s: TcpStream,
    buf: Vec<u8>,
}

///until shortly before the daemon does something by itself
pub fn meet(before: u64) {
    let (now, t) = (k().now, k().daemon_timer());
    nap(t.saturating_sub(before).saturating_sub(now));
}
pub fn nap(d: u64) {
    if d > 0 {
        std::thread::sleep(Duration::from_nanos(d));
    }
}

impl Conn {
    pub fn open(deadline: u64) -> Result<Conn, Fail> {
        let left = deadline.saturating_sub(k().now).max(1000);
        let a: std::net::SocketAddr = "127.0.0.1:7687".parse().unwrap();
        match TcpStream::connect_timeout(&a, Duration::from_nanos(left)) {
            Ok(s) => Ok(Conn { s, buf: vec![] }),
            Err(e) if e.kind() == std::io::ErrorKind::TimedOut => Err(Fail::Timeout),
            Err(e) => Err(Fail::Connect(e.to_string())),
        }
    }
    ///reads more; false at the end
    fn fill(&mut self, deadline: u64, slow: u64) -> Result<bool, Fail> {
        let left = deadline.saturating_sub(k().now);
        if left < 2000 {
            return Err(Fail::Timeout);
        }
        let _ = self.s.set_read_timeout(Some(Duration::from_nanos(left)));
        let mut tmp = [0u8; 16384];
        let n = if slow > 0 { 7 } else { tmp.len() };
        match self.s.read(&mut tmp[..n]) {
            Ok(0) => Ok(false),
            Ok(n) => {
                self.buf.extend_from_slice(&tmp[..n]);
                if slow > 0 {
                    nap(slow);
                }
                Ok(true)
            }
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Err(Fail::Timeout),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Ok(true),
            Err(e) => Err(Fail::Lost(e.to_string())),
        }
    }
    fn line(&mut self, deadline: u64, slow: u64) -> Result<String, Fail> {
        loop {
            if let Some(i) = self.buf.windows(2).position(|w| w == b"\r\n") {
                let l: Vec<u8> = self.buf.drain(..i + 2).collect();
                return String::from_utf8(l[..i].to_vec()).map_err(|_| Fail::Bad("header is not text".into()));
            }
            if self.buf.len() > 1 << 16 {
                return Err(Fail::Bad("endless header line".into()));
            }
            if !self.fill(deadline, slow)? {
                return Err(Fail::Lost("closed".into()));
            }
        }
    }
    fn take(&mut self, n: usize, deadline: u64, slow: u64) -> Result<Vec<u8>, Fail> {
        while self.buf.len() < n {
            if !self.fill(deadline, slow)? {
                return Err(Fail::Lost("closed within the body".into()));
            }
        }
        Ok(self.buf.drain(..n).collect())
    }
    pub fn write(&mut self, mut b: &[u8], deadline: u64) -> Result<(), Fail> {
        while !b.is_empty() {
            let left = deadline.saturating_sub(k().now);
            if left < 2000 {
                return Err(Fail::Timeout);
            }
            let _ = self.s.set_write_timeout(Some(Duration::from_nanos(left)));
            match self.s.write(b) {
                Ok(0) => return Err(Fail::Lost("cannot write".into())),
                Ok(n) => b = &b[n..],
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return Err(Fail::Timeout),
                Err(e) => return Err(Fail::Lost(e.to_string())),
            }
        }
        Ok(())
    }
    pub fn reset_on_close(&self) {
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(
                self.s.as_raw_fd(),
                libc::SOL_SOCKET,
                libc::SO_LINGER,
                (&l as *const libc::linger).cast(),
                std::mem::size_of::<libc::linger>() as u32,
            )
        };
    }

    pub fn response(&mut self, method: &str, deadline: u64, slow: u64) -> Result<Resp, Fail> {
        loop {
            let l = self.line(deadline, slow)?;
            let mut p = l.splitn(3, ' ');
            let (v, st) = (p.next().unwrap_or(""), p.next().unwrap_or(""));
            if !v.starts_with("HTTP/1.") {
                return Err(Fail::Bad(format!("status line {l:?}")));
            }
            let status: u16 = st.parse().map_err(|_| Fail::Bad(format!("status line {l:?}")))?;
            let mut len: Option<usize> = None;
            let mut chunked = false;
            let mut close = v == "HTTP/1.0";
            loop {
                let h = self.line(deadline, slow)?;
                if h.is_empty() {
                    break;
                }
                let Some((n, val)) = h.split_once(':') else { return Err(Fail::Bad(format!("header {h:?}"))) };
                let (n, val) = (n.to_ascii_lowercase(), val.trim());
                match n.as_str() {
                    "content-length" => len = Some(val.parse().map_err(|_| Fail::Bad("content-length".into()))?),
                    "transfer-encoding" => chunked = val.eq_ignore_ascii_case("chunked"),
                    "connection" => close |= val.eq_ignore_ascii_case("close"),
                    _ => {}
                }
            }
            if status == 100 {
                continue;
            }
            let body = if method == "HEAD" || status == 204 || status == 304 {
                vec![]
            } else if chunked {
                let mut b = vec![];
                loop {
                    let l = self.line(deadline, slow)?;
                    let n = usize::from_str_radix(l.split(';').next().unwrap_or("").trim(), 16)
                        .map_err(|_| Fail::Bad(format!("chunk {l:?}")))?;
                    if n == 0 {
                        loop {
                            if self.line(deadline, slow)?.is_empty() {
                                break;
                            }
                        }
                        break;
                    }
                    b.extend(self.take(n, deadline, slow)?);
                    self.line(deadline, slow)?;
                }
                b
            } else if let Some(n) = len {
                self.take(n, deadline, slow)?
            } else {
                close = true;
                while self.fill(deadline, slow)? {}
                std::mem::take(&mut self.buf)
            };
            return Ok(Resp { status, body, close });
        }
    }
}

pub fn bytes_of(r: &Req, o: &NetOpts) -> (Vec<u8>, usize) {
    let mut h = format!("{} {} HTTP/1.1\r\nhost: 127.0.0.1:7687\r\n", r.method, r.target);
    for (n, v) in &r.headers {
        h.push_str(&format!("{n}: {v}\r\n"));
    }
    if o.expect_continue {
        h.push_str("expect: 100-continue\r\n");
    }
    let mut b;
    let head;
    match &r.body {
        Some(body) if o.chunked => {
            h.push_str("transfer-encoding: chunked\r\n\r\n");
            b = h.into_bytes();
            head = b.len();
            let step = (body.len() / 3).max(1);
            for c in body.chunks(step) {
                b.extend(format!("{:x}\r\n", c.len()).bytes());
                b.extend_from_slice(c);
                b.extend(b"\r\n");
            }
            b.extend(b"0\r\n\r\n");
        }
        Some(body) => {
            h.push_str(&format!("content-length: {}\r\n\r\n", body.len()));
            b = h.into_bytes();
            head = b.len();
            b.extend_from_slice(body);
        }
        None => {
            h.push_str("\r\n");
            b = h.into_bytes();
            head = b.len();
        }
    }
    (b, head)
}
