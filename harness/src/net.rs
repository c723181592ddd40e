//! Serving one connection of a mocked network stream through the real server instance, and reading what came back.
#![allow(dead_code, static_mut_refs)]
use crate::util::leak;
use crate::vx::*;
use hyper::buffer::BufReader;
use hyper::header::{Connection, Headers as HyperHeaders};
use hyper::net::NetworkStream;
use hyper::server::{Handler as HyperHandler, Request, Response as HyperResponse};
use hyper::uri::RequestUri;
use rustful::handler::HandleRequest;
use rustful::server::ServerInstance;
use std::io::{self, Read, Write};
use std::net::SocketAddr;
use std::time::Duration;

/// What arrives on the connection: blocks as the network happens to deliver them.
pub struct Wire {
    pub blocks: Vec<Vec<u8>>,
    block: usize,
    pos: usize,
}
impl Wire {
    pub fn new(blocks: Vec<Vec<u8>>) -> Wire {
        Wire { blocks, block: 0, pos: 0 }
    }
}
impl Read for Wire {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        while self.block < self.blocks.len() && self.pos == self.blocks[self.block].len() {
            self.block += 1;
            self.pos = 0;
        }
        if self.block == self.blocks.len() {
            return Ok(0);
        }
        let b = &self.blocks[self.block][self.pos..];
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Wire {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl NetworkStream for Wire {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> {
        Ok(peer())
    }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
}
pub fn peer() -> SocketAddr {
    use std::net::{Ipv4Addr, SocketAddrV4};
    SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(10, 1, 2, 3), 4711))
}

/// What one request produced.
pub struct Served {
    /// the server could read the request at all
    pub parsed: bool,
    pub out: Vec<u8>,
    /// the response says the connection closes
    pub close: bool,
}

/// The steps of hyper's worker (hyper-0.10.16 src/server/mod.rs, keep_alive_loop) for each request on the connection,
/// with the given number of requests at most.
pub fn serve_all<R: HandleRequest + 'static>(server: &ServerInstance<R>, blocks: Vec<Vec<u8>>, keep_alive: bool, max: usize, uri: Option<RequestUri>) -> Vec<Served> {
    let mut wire = Wire::new(blocks);
    let stream: &mut dyn NetworkStream = &mut wire;
    let mut rdr = BufReader::new(stream);
    let mut all = vec![];
    for _ in 0..max {
        let mut out: Vec<u8> = vec![];
        let mut headers = HyperHeaders::new();
        let mut keep = keep_alive;
        {
            let mut req = match Request::new(&mut rdr, peer()) {
                Ok(r) => r,
                Err(_) => {
                    all.push(Served { parsed: false, out, close: true });
                    return all;
                }
            };
            if let Some(ref u) = uri {
                req.uri = u.clone();
            }
            let version = req.version;
            keep = keep && hyper::http::should_keep_alive(version, &req.headers);
            if !keep {
                headers.set(Connection::close());
            }
            let mut res = HyperResponse::new(&mut out, &mut headers);
            res.version = version;
            server.handle(req, res);
            if keep {
                keep = hyper::http::should_keep_alive(version, &headers);
            }
        }
        all.push(Served { parsed: true, out, close: !keep });
        if !keep {
            break;
        }
    }
    all
}
/// One request that is answered through the given writer.
pub fn serve_into<R: HandleRequest + 'static, W: Write>(server: &ServerInstance<R>, request: &[u8], out: &mut W) {
    let mut wire = Wire::new(vec![request.to_vec()]);
    let stream: &mut dyn NetworkStream = &mut wire;
    let mut rdr = BufReader::new(stream);
    let mut headers = HyperHeaders::new();
    match Request::new(&mut rdr, peer()) {
        Ok(req) => server.handle(req, HyperResponse::new(out, &mut headers)),
        Err(_) => check(false, "the request can be read"),
    }
}
/// A connection that breaks once so many bytes were taken.
pub struct Breaking {
    pub out: Vec<u8>,
    pub left: usize,
}
impl Write for Breaking {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.left);
        if n == 0 && !b.is_empty() {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        self.left -= n;
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub fn serve<R: HandleRequest + 'static>(server: &ServerInstance<R>, request: &[u8]) -> Served {
    serve_all(server, vec![request.to_vec()], true, 1, None).pop().unwrap()
}
pub fn serve_uri<R: HandleRequest + 'static>(server: &ServerInstance<R>, request: &[u8], uri: RequestUri) -> Served {
    serve_all(server, vec![request.to_vec()], true, 1, Some(uri)).pop().unwrap()
}

/// An HTTP/1.1 response as a client reads it.
pub struct Answer {
    pub status: u16,
    pub headers: Vec<(Vec<u8>, Vec<u8>)>,
    pub body: Vec<u8>,
    pub chunked: bool,
    pub length: Option<u64>,
    /// bytes after the message
    pub rest: Vec<u8>,
    /// the number of chunks before the last one
    pub chunks: usize,
}
impl Answer {
    pub fn header(&self, name: &str) -> Vec<&[u8]> {
        self.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(name.as_bytes())).map(|h| &h.1[..]).collect()
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    (0..(h.len() + 1).saturating_sub(n.len())).find(|i| &h[*i..*i + n.len()] == n)
}
fn number(b: &[u8], radix: u32) -> Option<u64> {
    if b.is_empty() {
        return None;
    }
    let mut v = 0u64;
    for x in b {
        v = v.checked_mul(radix as u64)?.checked_add((*x as char).to_digit(radix)? as u64)?;
    }
    Some(v)
}

/// Reads one response; None when it is malformed or cut short. `head`: the request was HEAD.
pub fn parse(out: &[u8], head: bool) -> Option<Answer> {
    let mut p = out;
    let mut line = |p: &mut &[u8]| -> Option<Vec<u8>> {
        let e = find(p, b"\r\n")?;
        let l = p[..e].to_vec();
        *p = &p[e + 2..];
        Some(l)
    };
    let first = line(&mut p)?;
    if first.len() < 12 || &first[..7] != b"HTTP/1." || first[8] != b' ' {
        return None;
    }
    let status = number(&first[9..12], 10)? as u16;
    let mut headers = vec![];
    loop {
        let l = line(&mut p)?;
        if l.is_empty() {
            break;
        }
        let c = find(&l, b":")?;
        let mut v = &l[c + 1..];
        while !v.is_empty() && v[0] == b' ' {
            v = &v[1..];
        }
        headers.push((l[..c].to_vec(), v.to_vec()));
    }
    let mut a = Answer { status, headers, body: vec![], chunked: false, length: None, rest: vec![], chunks: 0 };
    let te = a.header("transfer-encoding").len();
    a.chunked = te > 0 && a.header("transfer-encoding")[te - 1].ends_with(b"chunked");
    let cl: Vec<Vec<u8>> = a.header("content-length").iter().map(|v| v.to_vec()).collect();
    if cl.len() > 1 || (a.chunked && !cl.is_empty()) || te > 1 {
        return None;
    }
    if let Some(v) = cl.get(0) {
        a.length = Some(number(v, 10)?);
    }
    if head || status == 204 || status == 304 || status < 200 {
        a.rest = p.to_vec();
        return Some(a);
    }
    if a.chunked {
        loop {
            let l = line(&mut p)?;
            let n = number(&l, 16)? as usize;
            if p.len() < n + 2 || &p[n..n + 2] != b"\r\n" {
                return None;
            }
            a.body.extend_from_slice(&p[..n]);
            p = &p[n + 2..];
            if n == 0 {
                break;
            }
            a.chunks += 1;
        }
    } else {
        let n = a.length? as usize;
        if p.len() < n {
            return None;
        }
        a.body.extend_from_slice(&p[..n]);
        p = &p[n..];
    }
    a.rest = p.to_vec();
    Some(a)
}

pub fn leaked<R: HandleRequest + 'static>(mut s: rustful::Server<R>) -> &'static ServerInstance<R> {
    if s.keep_alive.is_none() && kind() % 3 != 0 {
        s.keep_alive = Some(rustful::server::KeepAlive { timeout: std::time::Duration::from_secs(3), free_threads: if kind() % 3 == 1 { 0 } else { !0 } });
    }
    leak(s.build())
}
/// What kind of request is made (0: just the one that was asked for). Only if parameter 14 says how many there are.
pub fn kind() -> usize {
    static mut KIND: Option<usize> = None;
    unsafe {
        if KIND.is_none() {
            KIND = Some(if param(14) > 0 { pick(param(14)) } else { 0 });
        }
        KIND.unwrap()
    }
}
/// The same request in another way: method, version and further headers that have nothing to do with its target and body.
fn vary(method: &str, body: bool) -> (&str, &'static [u8], &'static [u8]) {
    const MANY: &[u8] = b"Accept: text/plain, */*;q=0.1\r\nAccept-Encoding: gzip\r\nAccept-Language: sv\r\nAuthorization: Basic YTpi\r\nCookie: a=b\r\nIf-None-Match: *\r\nIf-Modified-Since: Tue, 14 Nov 2023 22:13:20 GMT\r\nRange: bytes=1-\r\nReferer: http://h/\r\nUser-Agent: u\r\nX-Forwarded-For: 1.2.3.4\r\nX-HTTP-Method-Override: PUT\r\nX-Requested-With: XMLHttpRequest\r\nTe: trailers\r\n";
    const CORS: &[u8] = b"Origin: http://o\r\nAccess-Control-Request-Method: PUT\r\nAccess-Control-Request-Headers: x-a\r\n";
    let (new, old): (&[u8], &[u8]) = (b"HTTP/1.1", b"HTTP/1.0");
    let k = kind();
    if k == 0 {
        return (method, new, b"");
    }
    cover("another kind of request");
    if body {
        // the ones that have a body
        return [(method, new, MANY), (method, old, CORS), ("PUT", new, b""), ("PATCH", old, b"Connection: keep-alive\r\n"), ("DELETE", new, b""), ("FOO", new, MANY), ("OPTIONS", new, CORS)][(k - 1) % 7];
    }
    [(method, new, MANY), (method, old, b""), ("HEAD", new, b""), ("OPTIONS", new, CORS), ("POST", new, b"Content-Length: 0\r\n"), ("PUT", old, MANY), ("DELETE", new, b"Connection: close\r\n"), ("TRACE", new, b""), ("PATCH", new, b"Content-Type: text/plain\r\n"), ("FOO", new, b""), ("HEAD", old, b"Connection: keep-alive\r\n"), (method, new, b"Upgrade: websocket\r\nConnection: upgrade\r\n"), (method, new, b"Content-Length: 0\r\nContent-Type: application/x-www-form-urlencoded\r\nExpect: x\r\n")][(k - 1) % 13]
}
/// The method a request without a body is made by.
pub fn sent_as(method: &str) -> &str {
    vary(method, false).0
}
pub fn request(method: &str, target: &[u8], headers: &[(&str, &[u8])], body: &[u8]) -> Vec<u8> {
    let (method, version, more) = vary(method, !body.is_empty());
    let mut r = method.as_bytes().to_vec();
    r.push(b' ');
    r.extend_from_slice(target);
    r.push(b' ');
    r.extend_from_slice(version);
    r.extend_from_slice(b"\r\n");
    r.extend_from_slice(more);
    for (k, v) in headers {
        r.extend_from_slice(k.as_bytes());
        r.extend_from_slice(b": ");
        r.extend_from_slice(v);
        r.extend_from_slice(b"\r\n");
    }
    r.extend_from_slice(b"\r\n");
    r.extend_from_slice(body);
    r
}
/// The answer to a request; an unreadable answer is a violation.
pub fn answer(s: &Served) -> Answer {
    match parse(&s.out, false) {
        Some(a) => {
            check(a.rest.is_empty(), "one response and nothing after it");
            a
        }
        None => {
            check(false, "the response is a well-formed message");
            std::process::abort()
        }
    }
}
/// A server with the number of threads given (the default asks the machine).
pub fn plain_server<R: HandleRequest + 'static>(handlers: R) -> rustful::Server<R> {
    let mut s = rustful::Server::new(handlers);
    s.threads = Some(8);
    s
}
