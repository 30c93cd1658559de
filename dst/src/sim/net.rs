//! The simulated network: name lookup, TCP connections and an HTTP/1.1 origin.
//!
//! Bytes the client sends are parsed by the origin when a request is complete; its reply is
//! scheduled as segments with arrival times. What happens to each lookup, connection and
//! request (refusal, loss, reset, truncation, stall, error status, corruption, delay,
//! fragmentation) is a draw, or dictated by the scenario.

use super::choice::Choices;
use std::collections::VecDeque;

#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    Data(Vec<u8>),
    Fin,
    Rst,
}

#[derive(Clone, Debug, PartialEq)]
pub enum SockState {
    New,
    Connecting { at: u64, err: i32 },
    Connected,
    Failed(i32),
    Closed,
}

pub struct Sock {
    pub st: SockState,
    pub host: String,
    pub port: u16,
    pub nonblock: bool,
    pub rcv_timeout: Option<u64>,
    pub snd_timeout: Option<u64>,
    pub inbox: VecDeque<(u64, Seg)>,
    pub eof: bool,
    pub rst: bool,
    pub shut_wr: bool,
    pub so_error: i32,
    reqbuf: Vec<u8>,
    last_arrival: u64,
    pub served: u32,
    server_gone: bool,
}

#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    pub host: String,
    pub target: String,
    pub headers: Vec<(String, String)>,
}
impl Req {
    pub fn header(&self, n: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.as_str())
    }
    pub fn url(&self) -> String {
        format!("http://{}{}", self.host, self.target)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Framing {
    Length,
    Chunked,
    Close,
}

#[derive(Clone, Debug)]
pub struct Reply {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub framing: Framing,
    pub keep: bool,
    /// content-length to declare if it differs from the body (e.g. HEAD)
    pub declare: Option<usize>,
    /// names what was served, for the judge (0 = nothing in particular)
    pub tag: u64,
}
impl Reply {
    pub fn new(status: u16, body: &[u8]) -> Reply {
        Reply {
            status,
            headers: vec![],
            body: body.to_vec(),
            framing: Framing::Length,
            keep: true,
            declare: None,
            tag: 0,
        }
    }
    pub fn h(mut self, k: &str, v: &str) -> Reply {
        self.headers.push((k.into(), v.into()));
        self
    }
    pub fn header(&self, n: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.as_str())
    }
}

/// What the network / server does to one request.
#[derive(Clone, Debug, PartialEq)]
pub enum Fate {
    Ok,
    /// connection closed before any byte of the reply
    Drop { rst: bool },
    /// reply cut after this many bytes of the serialised reply (mod its length)
    Cut { at: usize, rst: bool },
    /// reply stops after this many bytes, and nothing more ever arrives
    Stall { at: usize },
    /// an error status instead of the reply
    Status(u16),
    /// one byte of the body changed
    Corrupt { at: usize },
}

#[derive(Clone, Debug, PartialEq)]
pub enum ConnFate {
    Ok,
    Refused,
    Blackhole,
    Unreachable,
}

#[derive(Clone, Debug)]
pub struct ReqLog {
    pub seq: u64,
    pub t: u64,
    pub pid: usize,
    pub req: Req,
    pub fate: Fate,
    pub status: u16,
    pub body_len: usize,
    pub reused_conn: bool,
    pub tag: u64,
    /// bytes of the serialised reply that were sent, headers included
    pub sent: usize,
    pub sent_body: usize,
    pub chunked_fin: bool,
}

#[derive(Clone, Debug)]
pub struct ConnLog {
    pub seq: u64,
    pub t: u64,
    pub pid: usize,
    pub host: String,
    pub what: &'static str,
}

pub trait Origin {
    /// `wall` is the current simulated wall clock in seconds.
    fn handle(&mut self, wall: i64, req: &Req, ch: &mut Choices) -> Reply;
}
impl<F: FnMut(i64, &Req, &mut Choices) -> Reply> Origin for F {
    fn handle(&mut self, wall: i64, req: &Req, ch: &mut Choices) -> Reply {
        self(wall, req, ch)
    }
}

#[derive(Clone, Debug)]
pub struct NetFaults {
    /// per mille per request
    pub req: u32,
    pub req_budget: u32,
    pub kinds: Vec<FateKind>,
    pub conn: u32,
    pub dns: u32,
    pub conn_budget: u32,
    pub blackhole: bool,
    pub frag: u32,
    pub delay: u32,
    pub idle_close: u32,
    /// let replies stall before their headers on reused connections too
    pub stall_reused: bool,
    /// cut chunked bodies by an orderly close too
    pub chunk_fin: bool,
    pub statuses: Vec<u16>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FateKind {
    Drop,
    Cut,
    Stall,
    Status,
    Corrupt,
}
impl Default for NetFaults {
    fn default() -> NetFaults {
        NetFaults {
            req: 0,
            req_budget: 1000,
            kinds: vec![FateKind::Drop, FateKind::Cut, FateKind::Stall, FateKind::Status],
            conn: 0,
            dns: 0,
            conn_budget: 1000,
            blackhole: true,
            frag: 0,
            delay: 0,
            idle_close: 0,
            stall_reused: false,
            chunk_fin: false,
            statuses: vec![500, 503, 520, 527, 502, 404, 403, 429],
        }
    }
}

pub enum Script {
    Dns(bool),
    Conn(ConnFate),
    Req(Fate),
}

pub struct Net {
    pub socks: Vec<Sock>,
    pub hosts: Vec<String>,
    pub origin: Option<Box<dyn Origin>>,
    pub f: NetFaults,
    pub reqs: Vec<ReqLog>,
    pub conns: Vec<ConnLog>,
    /// per-attempt outcomes dictated by the scenario, consumed in order
    pub script: Option<VecDeque<Vec<Script>>>,
    cur_script: Vec<Script>,
    pub latency: u64,
}

pub const MS: u64 = 1_000_000;

impl Net {
    pub fn new() -> Net {
        Net {
            socks: vec![],
            hosts: vec![],
            origin: None,
            f: NetFaults::default(),
            reqs: vec![],
            conns: vec![],
            script: None,
            cur_script: vec![],
            latency: 5 * MS,
        }
    }
    pub fn ip_of(&mut self, host: &str) -> Option<u32> {
        let i = self.hosts.iter().position(|h| h == host)?;
        Some(0x0a000001 + i as u32)
    }
    pub fn host_of(&self, ip: u32) -> Option<String> {
        self.hosts.get(ip.wrapping_sub(0x0a000001) as usize).cloned()
    }
    pub fn socket(&mut self) -> usize {
        self.socks.push(Sock {
            st: SockState::New,
            host: String::new(),
            port: 0,
            nonblock: false,
            rcv_timeout: None,
            snd_timeout: None,
            inbox: VecDeque::new(),
            eof: false,
            rst: false,
            shut_wr: false,
            so_error: 0,
            reqbuf: vec![],
            last_arrival: 0,
            served: 0,
            server_gone: false,
        });
        self.socks.len() - 1
    }
    /// All buffered data that has arrived by `now` is visible to the client.
    pub fn readable(&self, s: usize, now: u64) -> bool {
        let k = &self.socks[s];
        k.eof || k.rst || k.inbox.front().map_or(false, |(t, _)| *t <= now)
            || !matches!(k.st, SockState::Connected)
    }
    pub fn connect_done(&self, s: usize, now: u64) -> bool {
        match self.socks[s].st {
            SockState::Connecting { at, .. } => at <= now,
            _ => true,
        }
    }
    pub fn next_event(&self, s: usize) -> Option<u64> {
        match self.socks[s].st {
            SockState::Connecting { at, .. } => Some(at),
            _ => self.socks[s].inbox.front().map(|(t, _)| *t),
        }
    }
    pub fn client_close(&mut self, s: usize) {
        let k = &mut self.socks[s];
        k.st = SockState::Closed;
        k.inbox.clear();
    }
}

fn reason(s: u16) -> &'static str {
    match s {
        200 => "OK",
        206 => "Partial Content",
        301 => "Moved Permanently",
        302 => "Found",
        303 => "See Other",
        304 => "Not Modified",
        307 => "Temporary Redirect",
        308 => "Permanent Redirect",
        404 => "Not Found",
        416 => "Range Not Satisfiable",
        _ => "Status",
    }
}

impl super::world::World {
    pub fn dns(&mut self, pid: usize, host: &str) -> Result<u32, ()> {
        if let Some(q) = self.net.script.as_mut() {
            if self.net.cur_script.is_empty() {
                if let Some(s) = q.pop_front() {
                    self.net.cur_script = s;
                }
            }
            if let Some(Script::Dns(ok)) = self.net.cur_script.first() {
                let ok = *ok;
                self.net.cur_script.remove(0);
                if !ok {
                    self.stat("dns_failure");
                    self.conn_log(pid, host, "dns-fail");
                    return Err(());
                }
            }
        } else if self.net.f.conn_budget > 0 {
            let p = self.net.f.dns;
            if self.ch.chance(p) {
                self.net.f.conn_budget -= 1;
                self.stat("dns_failure");
                self.conn_log(pid, host, "dns-fail");
                self.faults_last_step = self.steps;
                return Err(());
            }
        }
        match self.net.ip_of(host) {
            Some(ip) => Ok(ip),
            None => {
                self.conn_log(pid, host, "dns-unknown");
                Err(())
            }
        }
    }
    fn conn_log(&mut self, pid: usize, host: &str, what: &'static str) {
        self.seq += 1;
        let c = ConnLog { seq: self.seq, t: self.now, pid, host: host.into(), what };
        self.net.conns.push(c);
    }
    pub fn net_connect(&mut self, pid: usize, s: usize, ip: u32, port: u16) {
        let host = self.net.host_of(ip).unwrap_or_else(|| "unknown".into());
        self.net.socks[s].host = host.clone();
        self.net.socks[s].port = port;
        let mut fate = ConnFate::Ok;
        if self.net.script.is_some() {
            if self.net.cur_script.is_empty() {
                if let Some(v) = self.net.script.as_mut().unwrap().pop_front() {
                    self.net.cur_script = v;
                }
            }
            if let Some(Script::Conn(f)) = self.net.cur_script.first() {
                fate = f.clone();
                self.net.cur_script.remove(0);
            }
        } else if self.net.f.conn_budget > 0 {
            let p = self.net.f.conn;
            if self.ch.chance(p) {
                self.net.f.conn_budget -= 1;
                fate = match self.ch.choose(if self.net.f.blackhole { 3 } else { 2 }) {
                    0 => ConnFate::Refused,
                    1 => ConnFate::Unreachable,
                    _ => ConnFate::Blackhole,
                };
            }
        }
        let lat = self.net.latency;
        let now = self.now;
        let (at, err, what) = match fate {
            ConnFate::Ok => (now + lat, 0, "ok"),
            ConnFate::Refused => (now + lat, libc::ECONNREFUSED, "refused"),
            ConnFate::Unreachable => (now + lat, libc::EHOSTUNREACH, "unreachable"),
            ConnFate::Blackhole => (now + 130_000 * MS, libc::ETIMEDOUT, "blackhole"),
        };
        if err != 0 {
            self.faults_last_step = self.steps;
            self.stat(match fate {
                ConnFate::Refused => "conn_refused",
                ConnFate::Unreachable => "conn_unreachable",
                _ => "conn_blackhole",
            });
        }
        self.conn_log(pid, &host, what);
        self.net.socks[s].st = SockState::Connecting { at, err };
    }

    /// Client bytes reach the server.
    pub fn net_send(&mut self, pid: usize, s: usize, data: &[u8]) -> Result<usize, i32> {
        match self.net.socks[s].st {
            SockState::Connected => (),
            _ => return Err(libc::ENOTCONN),
        }
        if self.net.socks[s].rst {
            return Err(libc::ECONNRESET);
        }
        if self.net.socks[s].shut_wr {
            return Err(libc::EPIPE);
        }
        if self.net.socks[s].server_gone {
            // the server has closed: it answers with a reset
            let t = self.now + self.net.latency;
            self.net.socks[s].inbox.push_back((t, Seg::Rst));
            return Ok(data.len());
        }
        self.net.socks[s].reqbuf.extend_from_slice(data);
        loop {
            let buf = &self.net.socks[s].reqbuf;
            let end = match buf.windows(4).position(|w| w == b"\r\n\r\n") {
                Some(e) => e + 4,
                None => break,
            };
            let head = String::from_utf8_lossy(&buf[..end]).into_owned();
            self.net.socks[s].reqbuf.drain(..end);
            self.serve(pid, s, &head);
        }
        Ok(data.len())
    }

    fn draw_fate(&mut self, s: usize) -> Fate {
        if self.net.script.is_some() {
            if self.net.cur_script.is_empty() {
                // a request on a kept connection starts a new attempt
                if self.net.socks[s].served > 0 {
                    if let Some(mut v) = self.net.script.as_mut().unwrap().pop_front() {
                        while !v.is_empty() {
                            if let Script::Req(f) = v.remove(0) {
                                return f;
                            }
                        }
                    }
                }
                return Fate::Ok;
            }
            if let Some(Script::Req(f)) = self.net.cur_script.first() {
                let f = f.clone();
                self.net.cur_script.remove(0);
                return f;
            }
            return Fate::Ok;
        }
        if self.net.f.req_budget == 0 || self.net.f.kinds.is_empty() {
            return Fate::Ok;
        }
        let p = self.net.f.req;
        if !self.ch.chance(p) {
            return Fate::Ok;
        }
        self.net.f.req_budget -= 1;
        let kinds = self.net.f.kinds.clone();
        match *self.ch.pick(&kinds) {
            FateKind::Drop => Fate::Drop { rst: self.ch.choose(2) == 1 },
            FateKind::Cut => {
                Fate::Cut { at: self.ch.choose(1 << 20), rst: self.ch.choose(2) == 1 }
            }
            FateKind::Stall => Fate::Stall { at: self.ch.choose(1 << 20) },
            FateKind::Status => {
                let st = self.net.f.statuses.clone();
                Fate::Status(*self.ch.pick(&st))
            }
            FateKind::Corrupt => Fate::Corrupt { at: self.ch.choose(1 << 20) },
        }
    }

    fn serve(&mut self, pid: usize, s: usize, head: &str) {
        let mut lines = head.split("\r\n");
        let mut first = lines.next().unwrap_or("").split(' ');
        let method = first.next().unwrap_or("").to_string();
        let target = first.next().unwrap_or("/").to_string();
        let headers: Vec<(String, String)> = lines
            .filter_map(|l| l.split_once(':').map(|(a, b)| (a.trim().into(), b.trim().into())))
            .collect();
        let host = self.net.socks[s].host.clone();
        let req = Req { method: method.clone(), host, target, headers };
        let fate = self.draw_fate(s);
        let reused = self.net.socks[s].served > 0;
        self.net.socks[s].served += 1;
        let wall = self.wall_ns() / 1_000_000_000;
        let mut reply = match &fate {
            Fate::Status(st) => {
                let r = Reply::new(*st, format!("error page {}", st).as_bytes());
                if *st == 503 { r.h("Retry-After", "1") } else { r }
            }
            _ => {
                let mut o = self.net.origin.take().expect("no origin configured");
                let r = o.handle(wall, &req, &mut self.ch);
                self.net.origin = Some(o);
                r
            }
        };
        if fate != Fate::Ok {
            self.faults_last_step = self.steps;
            self.stat(match &fate {
                Fate::Drop { .. } => "reply_dropped",
                Fate::Cut { .. } => "reply_cut",
                Fate::Stall { .. } => "reply_stalled",
                Fate::Status(_) => "error_status",
                Fate::Corrupt { .. } => "byte_corrupted",
                Fate::Ok => unreachable!(),
            });
        }
        if let Fate::Corrupt { at } = fate {
            if !reply.body.is_empty() {
                let i = at % reply.body.len();
                reply.body[i] ^= 1 + (at / 7 % 255) as u8;
            }
        }
        self.seq += 1;
        let entry = ReqLog {
            seq: self.seq,
            t: self.now,
            pid,
            req: req.clone(),
            fate: fate.clone(),
            status: reply.status,
            body_len: reply.body.len(),
            reused_conn: reused,
            tag: reply.tag,
            sent: 0,
            sent_body: 0,
            chunked_fin: false,
        };
        self.log(
            pid,
            "ORIGIN",
            &format!("{} {} {:?} body={} {:?} {:?}", req.method, req.url(), fate, reply.body.len(), reply.framing, reply.headers),
            reply.status as i64,
        );
        self.net.reqs.push(entry);

        // serialise
        let no_body = method == "HEAD" || reply.status == 304 || reply.status == 204;
        let mut out = format!("HTTP/1.1 {} {}\r\n", reply.status, reason(reply.status)).into_bytes();
        for (k, v) in &reply.headers {
            out.extend_from_slice(format!("{}: {}\r\n", k, v).as_bytes());
        }
        let mut close = !reply.keep;
        let framing = if no_body { Framing::Length } else { reply.framing.clone() };
        match framing {
            Framing::Length => {
                if reply.status != 304 && reply.status != 204 {
                    let n = reply.declare.unwrap_or(reply.body.len());
                    out.extend_from_slice(format!("Content-Length: {}\r\n", n).as_bytes());
                }
            }
            Framing::Chunked => out.extend_from_slice(b"Transfer-Encoding: chunked\r\n"),
            Framing::Close => close = true,
        }
        if close {
            out.extend_from_slice(b"Connection: close\r\n");
        }
        out.extend_from_slice(b"\r\n");
        if !no_body {
            match framing {
                Framing::Chunked => {
                    let mut i = 0;
                    while i < reply.body.len() {
                        let max = reply.body.len() - i;
                        let n = if self.ch.chance(500) { 1 + self.ch.choose(max) } else { max };
                        out.extend_from_slice(format!("{:x}\r\n", n).as_bytes());
                        out.extend_from_slice(&reply.body[i..i + n]);
                        out.extend_from_slice(b"\r\n");
                        i += n;
                    }
                    out.extend_from_slice(b"0\r\n\r\n");
                }
                _ => out.extend_from_slice(&reply.body),
            }
        }
        let stalled = matches!(fate, Fate::Stall { .. });
        let head_len = out.windows(4).position(|w| w == b"\r\n\r\n").map_or(0, |p| p + 4);
        let mut end: Option<Seg> = if close { Some(Seg::Fin) } else { None };
        match fate {
            Fate::Drop { rst } => {
                out.clear();
                end = Some(if rst { Seg::Rst } else { Seg::Fin });
            }
            Fate::Cut { at, rst } => {
                // strictly before the end, so that the framing can tell (except Close framing)
                let n = at % out.len();
                out.truncate(n);
                let hard = rst || framing == Framing::Close || (framing == Framing::Chunked && !self.net.f.chunk_fin);
                if framing == Framing::Chunked && !hard {
                    self.stat("chunked_body_cut_by_fin");
                }
                end = Some(if hard { Seg::Rst } else { Seg::Fin });
            }
            Fate::Stall { at } => {
                let mut n = at % out.len();
                if reused && !self.net.f.stall_reused && n < head_len {
                    n = head_len.min(out.len() - 1);
                    if n < head_len {
                        // nothing but headers: drop the connection instead
                        end = Some(Seg::Rst);
                    }
                }
                out.truncate(n);
                if end != Some(Seg::Rst) {
                    end = None;
                }
            }
            _ => (),
        }
        if let Some(e) = self.net.reqs.last_mut() {
            e.chunked_fin = framing == Framing::Chunked && end == Some(Seg::Fin);
            e.sent = out.len();
            e.sent_body = out.len().saturating_sub(head_len);
        }
        // deliver
        let mut t = (self.now + self.net.latency).max(self.net.socks[s].last_arrival);
        if self.net.f.delay > 0 && self.ch.chance(self.net.f.delay) {
            t += self.ch.choose(14_000) as u64 * MS;
            self.stat("reply_delayed");
        }
        let mut i = 0;
        while i < out.len() {
            let max = out.len() - i;
            let mut n = max;
            if self.net.f.frag > 0 && self.ch.chance(self.net.f.frag) {
                n = 1 + self.ch.choose(max.min(2000));
                self.stat("reply_fragmented");
            }
            self.net.socks[s].inbox.push_back((t, Seg::Data(out[i..i + n].to_vec())));
            i += n;
            if i < out.len() {
                t += if self.ch.chance(200) { self.ch.choose(3000) as u64 * MS } else { MS / 10 };
            }
        }
        if end.is_none() && !stalled && self.net.f.idle_close > 0 && self.ch.chance(self.net.f.idle_close) {
            // the server closes an idle kept-alive connection a little later
            self.stat("idle_close");
            let d = self.ch.choose(2000) as u64 * MS;
            self.net.socks[s].inbox.push_back((t + d, Seg::Fin));
            self.net.socks[s].server_gone = true;
        }
        if let Some(e) = end {
            self.net.socks[s].inbox.push_back((t, e));
            self.net.socks[s].server_gone = true;
        }
        self.net.socks[s].last_arrival = t;
    }

    /// Moves what has arrived; Ok(0) = end of stream, Err(EAGAIN) = nothing yet.
    pub fn net_recv(&mut self, s: usize, buf: &mut [u8], peek: bool) -> Result<usize, i32> {
        let now = self.now;
        let limit = buf.len();
        let want = if peek { limit } else { self.shorten(limit) };
        let k = &mut self.net.socks[s];
        if let SockState::Failed(e) = k.st {
            return Err(e);
        }
        if k.st != SockState::Connected {
            return Err(libc::ENOTCONN);
        }
        let mut n = 0;
        while n < want {
            match k.inbox.front_mut() {
                Some((t, seg)) if *t <= now => match seg {
                    Seg::Data(d) => {
                        let m = (want - n).min(d.len());
                        buf[n..n + m].copy_from_slice(&d[..m]);
                        n += m;
                        if peek {
                            return Ok(n);
                        }
                        d.drain(..m);
                        if d.is_empty() {
                            k.inbox.pop_front();
                        }
                        // one segment per read
                        return Ok(n);
                    }
                    Seg::Fin => {
                        if n > 0 {
                            return Ok(n);
                        }
                        k.eof = true;
                        if k.inbox.len() > 1 {
                            // something (a reset) follows
                            k.inbox.pop_front();
                            k.eof = false;
                            if let Some((t, Seg::Rst)) = k.inbox.front() {
                                if *t <= now {
                                    k.rst = true;
                                    return Err(libc::ECONNRESET);
                                }
                            }
                            k.eof = true;
                        }
                        return Ok(0);
                    }
                    Seg::Rst => {
                        if n > 0 {
                            return Ok(n);
                        }
                        k.rst = true;
                        return Err(libc::ECONNRESET);
                    }
                },
                _ => break,
            }
        }
        if n == 0 {
            if k.rst {
                return Err(libc::ECONNRESET);
            }
            if k.eof {
                return Ok(0);
            }
            return Err(libc::EAGAIN);
        }
        Ok(n)
    }
}
