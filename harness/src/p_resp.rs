//! C11 sized, C12 chunked, C13 raw responses, C14 response filters.
use crate::net::*;
use crate::vx::*;
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::{Context, Handler, Response, Server, StatusCode};
use std::io::Write;

/// A handler made of a closure over plain data.
pub struct Act<F>(pub F);
unsafe impl<F> Sync for Act<F> {}
unsafe impl<F> Send for Act<F> {}
impl<F: Fn(Context, Response) + 'static> Handler for Act<F> {
    fn handle(&self, c: Context, r: Response) {
        (self.0)(c, r)
    }
}
pub static mut NOTE: Vec<u64> = Vec::new();
#[allow(static_mut_refs)]
pub fn note() -> &'static mut Vec<u64> {
    unsafe { &mut NOTE }
}

fn no_body(status: u16) -> bool {
    status == 204 || status == 304 || status < 200
}
fn pick_status() -> StatusCode {
    [StatusCode::Ok, StatusCode::NoContent, StatusCode::NotModified, StatusCode::InternalServerError, StatusCode::Unregistered(299)][pick(5)]
}
pub fn get() -> Vec<u8> {
    request("GET", b"/", &[("Host", b"h")], b"")
}
fn preset(r: &mut Response, k: usize) {
    match k {
        1 => r.headers_mut().set(hyper::header::ContentLength(77)),
        2 => r.headers_mut().set_raw("content-length", vec![b"5".to_vec()]),
        3 => r.headers_mut().set_raw("Content-Length", vec![b"not a number".to_vec()]),
        _ => {}
    }
}

/// A filter that changes nothing.
pub struct Pass;
impl ResponseFilter for Pass {
    fn begin(&self, _: FilterContext, status: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) {
        (status, ResponseAction::next(None::<Vec<u8>>))
    }
    fn write<'a>(&'a self, _: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        ResponseAction::next(content)
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        ResponseAction::next(None::<Vec<u8>>)
    }
}
pub fn passing<R: rustful::handler::HandleRequest>(mut server: Server<R>, n: usize) -> Server<R> {
    for _ in 0..n {
        server.response_filters.push(Box::new(Pass));
    }
    server
}
/// A body of n bytes of which only the outermost ones and one in the middle are arbitrary.
pub fn large(n: usize) -> Vec<u8> {
    if n < 4 {
        return bytes(n);
    }
    let mut b: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    b[0] = byte();
    b[n / 2] = byte();
    b[n - 1] = byte();
    b
}

/// A filter that decides the status.
struct Turns(StatusCode);
impl ResponseFilter for Turns {
    fn begin(&self, _: FilterContext, _: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) {
        (self.0, ResponseAction::next(None::<Vec<u8>>))
    }
    fn write<'a>(&'a self, _: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        ResponseAction::next(content)
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        ResponseAction::next(None::<Vec<u8>>)
    }
}

/// C11, C12, C13. Any status, which the client still has to be able to read. params: 0 send, 1 chunks, 2 declared
/// length, 3 nothing; filters that change nothing; lowest status; number of statuses; C14: 1 it is a filter that makes it so
#[no_mangle]
pub extern "C" fn vx_status() {
    let mode = param(0);
    let code = param(2) as u16 + (pick((param(3) + 99) / 100) * 100 + pick(100)) as u16;
    let status = StatusCode::from_u16(code);
    let body = bytes(1);
    let sent = body.clone();
    note().clear();
    let before = if param(4) == 1 { [StatusCode::Ok, StatusCode::NotModified, StatusCode::BadGateway][pick(3)] } else { status };
    let mut server = plain_server(Act(move |_: Context, mut r: Response| {
        r.set_status(before);
        note().push((r.status() == before) as u64);
        r.headers_mut().set_raw("X-Custom", vec![b"yes".to_vec()]);
        let ok = match mode {
            0 => r.try_send(&sent[..]).is_ok(),
            1 => {
                let mut c = r.into_chunked();
                c.try_send(&sent[..]).is_ok() && c.end().is_ok()
            }
            2 => {
                let mut c = unsafe { r.into_raw(1) };
                c.try_send(&sent[..]).is_ok() && c.end().is_ok()
            }
            _ => true,
        };
        note().push(ok as u64);
    }));
    if param(4) == 1 {
        cover("a filter turns a status into any other");
        server.response_filters.push(Box::new(Turns(status)));
    }
    let s = serve(leaked(passing(server, param(1))), &get());
    let a = answer(&s);
    out_n(1, a.status as u64);
    check(note()[0] == 1, "a status that was set is there");
    check(a.status == code, "the response has the status that was set");
    check(a.header("x-custom").len() == 1, "headers are sent as they were set");
    check(a.chunked == (mode == 1 && !no_body(code) || mode == 1 && !a.header("transfer-encoding").is_empty()), "only a stream is chunked");
    if no_body(code) {
        check(a.rest.is_empty(), "no body where there must not be one");
    } else {
        check(note()[1] == 1, "sending succeeds");
        check(same(&a.body, if mode == 3 { b"" } else { &body }), "the body is what was sent");
        check(mode == 1 || a.length == Some(if mode == 3 { 0 } else { 1 }), "the content length is the size of the body");
        cover("any status");
    }
}

/// C11. A body of arbitrary bytes, sent with one call. params: body length, filters that change nothing
#[no_mangle]
pub extern "C" fn vx_sized() {
    let body = large(param(0));
    let status = pick_status();
    let how = pick(7);
    let pre = pick(4);
    let value = byte();
    assume((value > 0x20) & (value < 0x7f));
    let sent = body.clone();
    note().clear();
    let server = leaked(passing(plain_server(Act(move |_: Context, mut r: Response| {
        r.set_status(status);
        r.headers_mut().set_raw("X-Custom", vec![vec![value]]);
        preset(&mut r, pre);
        let ok = match how {
            0 => r.try_send(&sent[..]).is_ok(),
            1 => r.try_send(sent.clone()).is_ok(),
            2 => r.try_send_data(sent.clone()).is_ok(),
            3 => {
                r.send(&sent[..]);
                true
            }
            6 => {
                r.send_data(&sent[..]);
                true
            }
            k => match String::from_utf8(sent.clone()) {
                Ok(s) => {
                    if k == 4 {
                        r.try_send(&s[..]).is_ok()
                    } else {
                        r.try_send(s).is_ok()
                    }
                }
                Err(_) => {
                    assume(false);
                    false
                }
            },
        };
        note().push(ok as u64);
    })), param(1)));
    let s = serve(server, &get());
    let a = answer(&s);
    out(1, &a.body);
    check(a.status == status.to_u16(), "the response has the status that was set");
    check(!a.chunked, "a response with a known size is not chunked");
    check(a.length == Some(body.len() as u64), "the content length is the size of the body");
    check(a.header("x-custom").len() == 1 && same(a.header("x-custom")[0], &[value]), "headers are sent as they were set");
    check(a.header("content-type").len() == 1 && a.header("server").len() == 1 && a.header("date").len() == 1, "the standard headers are there");
    if no_body(status.to_u16()) {
        cover("a status without a body");
        check(a.rest.is_empty(), "no body where there must not be one");
    } else {
        if pre == 3 {
            cover("a wrong content length is corrected");
        }
        check(same(&a.body, &body), "the body is what was sent");
        check(note()[0] == 1, "sending succeeds");
    }
}

/// C12. A sequence of writes of arbitrary bytes. params: number of chunks, filters that change nothing, bytes of the
/// first chunk (0: any up to 2)
#[no_mangle]
pub extern "C" fn vx_chunked() {
    let n = param(0);
    let chunks: Vec<Vec<u8>> = (0..n).map(|i| if i == 0 && param(2) > 0 { large(param(2)) } else { upto(2) }).collect();
    let hows: Vec<usize> = (0..n).map(|_| pick(5)).collect();
    let status = pick_status();
    let pre = pick(3);
    let end = flag();
    let sent = chunks.clone();
    note().clear();
    let server = leaked(passing(plain_server(Act(move |_: Context, mut r: Response| {
        r.set_status(status);
        preset(&mut r, pre);
        let mut c = r.into_chunked();
        for (b, h) in sent.iter().zip(&hows) {
            let ok = match h {
                0 => c.try_send(&b[..]).map(|k| k == b.len()).unwrap_or(false),
                1 => {
                    c.send(b.clone());
                    true
                }
                2 => c.write(b).map(|k| k == b.len()).unwrap_or(false),
                3 => c.write_all(b).is_ok(),
                _ => c.write_all(b).is_ok() && c.flush().is_ok(),
            };
            note().push(ok as u64);
        }
        if end {
            note().push(c.end().is_ok() as u64);
        }
    })), param(1)));
    let s = serve(server, &get());
    let a = answer(&s);
    let body = chunks.concat();
    out(1, &a.body);
    check(a.status == status.to_u16(), "the response has the status that was set");
    check(a.header("content-length").is_empty(), "a stream has no content length");
    if no_body(status.to_u16()) {
        check(a.rest.is_empty(), "no body where there must not be one");
    } else {
        check(a.chunked, "a stream is chunked");
        if chunks.iter().any(|c| c.is_empty()) && body.len() > 1 {
            cover("an empty chunk among others");
        }
        check(same(&a.body, &body), "the body is everything that was sent, in order");
        check(note().iter().all(|x| *x == 1), "sending succeeds and reports its length");
    }
}

/// C13. A stream of declared length. params: declared, number of writes, bytes of the first write (0: any up to 2)
#[no_mangle]
pub extern "C" fn vx_raw() {
    let len = param(0);
    let n = param(1);
    let chunks: Vec<Vec<u8>> = (0..n).map(|i| if i == 0 && param(2) > 0 { large(param(2)) } else { upto(2) }).collect();
    let hows: Vec<usize> = (0..n).map(|_| pick(4)).collect();
    let pre = pick(4);
    let end = flag();
    let close = flag();
    let sent = chunks.clone();
    let hows_seen = hows.clone();
    note().clear();
    let mut config = plain_server(Act(move |_: Context, mut r: Response| {
        preset(&mut r, pre);
        let mut c = unsafe { r.into_raw(len as u64) };
        for (b, h) in sent.iter().zip(&hows) {
            let ok = match h {
                0 => c.try_send(&b[..]).is_ok(),
                1 => {
                    c.send(b.clone());
                    true
                }
                2 => c.write(b).map(|k| k == b.len()).unwrap_or(false),
                _ => c.write_all(b).is_ok() && c.flush().is_ok(),
            };
            note().push(ok as u64);
        }
        if end {
            note().push(c.end().is_ok() as u64);
        }
    }));
    if close {
        config.keep_alive = Some(rustful::server::KeepAlive { timeout: std::time::Duration::from_secs(1), free_threads: 9 });
    }
    let server = leaked(config);
    let s = serve(server, &get());
    let data = chunks.concat();
    out(1, &s.out[s.out.len().min(400)..]);
    // the handler vouches for the length; the rest is up to the library
    let head = find_head(&s.out);
    let (head, body) = match head {
        Some(h) => (&s.out[..h], &s.out[h..]),
        None => return check(false, "the response has a head"),
    };
    let a = match parse(&[head, &vec![0u8; len]].concat(), false) {
        Some(a) => a,
        None => return check(false, "the head is well-formed"),
    };
    check(a.length == Some(len as u64) && !a.chunked, "the content length is the declared one");
    check(same(body, &data[..data.len().min(len)]), "the body is what was written, and never more than declared");
    check(s.close == close, "the connection closes exactly when asked to");
    let mut total = 0;
    for i in 0..n {
        total += chunks[i].len();
        if hows_seen[i] != 1 && (total <= len || !chunks[i].is_empty()) {
            check((note()[i] == 1) == (total <= len), "what exceeds the declared length is an error, and nothing else is");
        }
    }
    if data.len() == len {
        check(note().iter().all(|x| *x == 1), "writing the declared length succeeds");
        cover("the declared length is written");
    }
    if data.len() > len {
        cover("more than declared is written");
    }
}

/// C13. A declared length far beyond what is written. params: arbitrary bytes in the length, what is added to it (times 2^32)
#[no_mangle]
pub extern "C" fn vx_raw_far() {
    let len = (0..param(0)).fold(0u64, |n, _| (n << 8) | byte() as u64).wrapping_add((param(1) as u64) << 32);
    assume(len >= 3);
    let data = upto(3);
    let sent = data.clone();
    let how = pick(3);
    note().clear();
    let server = leaked(plain_server(Act(move |_: Context, r: Response| {
        let mut c = unsafe { r.into_raw(len) };
        let ok = match how {
            0 => c.try_send(&sent[..]).is_ok(),
            1 => c.write(&sent).map(|k| k == sent.len()).unwrap_or(false),
            _ => c.write_all(&sent).is_ok() && c.flush().is_ok(),
        };
        note().push(ok as u64);
    })));
    let s = serve(server, &get());
    let h = match find_head(&s.out) {
        Some(h) => h,
        None => return check(false, "the response has a head"),
    };
    let a = match parse(&s.out[..h], true) {
        Some(a) => a,
        None => return check(false, "the head is well-formed"),
    };
    let said = a.header("content-length");
    check(said.len() == 1, "one content length");
    let mut n = 0u64;
    for d in said[0] {
        check(d.is_ascii_digit() && n <= (u64::max_value() - (*d - b'0') as u64) / 10, "the content length is a number");
        n = n * 10 + (*d - b'0') as u64;
    }
    check(n == len, "the content length is the declared one, however large");
    check(same(&s.out[h..], &data), "the body is what was written");
    check(note()[0] == 1, "writing less than declared succeeds");
    cover("a length far beyond what is written");
}

/// C11, C12, C13, C21. The same response to every kind of request, and whatever is done about keeping the connection. params: 0 send, 1 chunks,
/// 2 declared length, 3 send data, 4 a file, 5 the same, opened; filters that change nothing; bytes
#[no_mangle]
pub extern "C" fn vx_any_request() {
    let (mode, n) = (param(0), param(2));
    let body = large(n);
    let sent = body.clone();
    if mode > 3 {
        crate::vx::file("/v/a.txt", &body, 0);
    }
    note().clear();
    let mut config = passing(plain_server(Act(move |_: Context, r: Response| {
        let (one, two) = sent.split_at(n / 2);
        let ok = match mode {
            0 => r.try_send(&sent[..]).is_ok(),
            1 => {
                let mut c = r.into_chunked();
                c.try_send(one).is_ok() && c.write_all(two).is_ok() && c.end().is_ok()
            }
            2 => {
                let mut c = unsafe { r.into_raw(n as u64) };
                c.try_send(one).is_ok() && c.write_all(two).is_ok() && c.end().is_ok()
            }
            3 => r.try_send_data(sent.clone()).is_ok(),
            4 => r.try_send(std::path::Path::new("/v/a.txt")).is_ok(),
            _ => match std::fs::File::open("/v/a.txt") {
                Ok(f) => r.try_send(f).is_ok(),
                Err(_) => return check(false, "the file is there"),
            },
        };
        note().push(ok as u64);
    })), param(1));
    let method: &[u8] = [&b"GET"[..], b"HEAD", b"POST", b"PUT", b"DELETE", b"OPTIONS", b"TRACE", b"PATCH", b"FOO"][pick(9)];
    let target: &[u8] = [&b"/"[..], b"/a/b?c=d#e", b"http://h/x"][pick(3)];
    let rest: &[u8] = [&b"\r\n"[..], b"Connection: close\r\nAccept: text/plain\r\nRange: bytes=1-\r\n\r\n", b"Content-Length: 2\r\nContent-Type: a/b\r\nIf-None-Match: *\r\n\r\nhi"][pick(3)];
    config.keep_alive = [None, Some(0), Some(!0)][pick(3)].map(|n| rustful::server::KeepAlive { timeout: std::time::Duration::from_secs(3), free_threads: n });
    let version: &[u8] = [&b" HTTP/1.1\r\nHost: h\r\n"[..], b" HTTP/1.0\r\n", b" HTTP/1.1\r\nHost: h\r\nOrigin: http://o\r\nCookie: a=b\r\nAccept-Encoding: gzip\r\nTE: trailers\r\n"][pick(3)];
    let s = serve(leaked(config), &[method, b" ", target, version, rest].concat());
    let h = match find_head(&s.out) {
        Some(h) => h,
        None => return check(false, "the response has a head"),
    };
    let head = method == b"HEAD";
    let a = match parse(&s.out, head) {
        Some(a) => a,
        None => return check(false, "the response is a well-formed message"),
    };
    out(1, &s.out[..h]);
    check(a.status == 200 && note()[0] == 1, "sending succeeds, whatever was asked for");
    check(mode > 3 && a.length.is_none() || a.length == if mode == 1 { None } else { Some(n as u64) }, "the length is the same, whatever was asked for");
    check(a.header("content-type").len() == 1 && a.header("server").len() == 1 && a.header("date").len() == 1, "the standard headers are there");
    if head {
        cover("only the head is asked for");
    } else {
        check(a.chunked == a.length.is_none() && a.rest.is_empty(), "one response and nothing after it");
        check(same(&a.body, &body), "the body is what was sent, whatever was asked for");
    }
}

/// C11, C12, C13. The connection breaks somewhere in a response. params: 0 send, 1 chunks, 2 declared length, 3 send data,
/// 4 a file, 5 the same, opened; filters that change nothing; bytes
#[no_mangle]
pub extern "C" fn vx_broken() {
    let (mode, n) = (param(0), param(2));
    let body = large(n);
    let buffered = mode > 3 || flag();
    let flushes = (mode == 1 || mode == 2) && flag();
    let sent = body.clone();
    if mode > 3 {
        crate::vx::file("/v/a.txt", &body, 0);
    }
    let server = leaked(passing(plain_server(Act(move |_: Context, r: Response| {
        let (one, two) = sent.split_at(n / 2);
        let ok = match mode {
            0 => r.try_send(&sent[..]).is_ok(),
            1 => {
                let mut c = r.into_chunked();
                let a = c.try_send(one).is_ok();
                let f = !flushes || c.flush().is_ok();
                note().push((a && f) as u64);
                let b = c.write_all(two).is_ok();
                let e = c.end().is_ok();
                a && f && b && e
            }
            2 => {
                let mut c = unsafe { r.into_raw(n as u64) };
                let a = c.try_send(one).is_ok();
                let f = !flushes || c.flush().is_ok();
                note().push((a && f) as u64);
                let b = c.write_all(two).is_ok();
                let e = c.end().is_ok();
                a && f && b && e
            }
            3 => r.try_send_data(sent.clone()).is_ok(),
            4 => r.try_send(std::path::Path::new("/v/a.txt")).is_ok(),
            _ => match std::fs::File::open("/v/a.txt") {
                Ok(f) => r.try_send(f).is_ok(),
                Err(_) => return check(false, "the file is there"),
            },
        };
        note().push(ok as u64);
    })), param(1)));
    let run = |left: usize| {
        note().clear();
        let mut sink = Breaking { out: vec![], left };
        if buffered {
            serve_into(server, &get(), &mut std::io::BufWriter::new(&mut sink));
        } else {
            serve_into(server, &get(), &mut sink);
        }
        (sink.out, note().clone())
    };
    let (all, notes) = run(1 << 30);
    check(notes.iter().all(|x| *x == 1), "sending succeeds while the connection stays");
    let left = if n < 100 {
        pick(all.len() + 1)
    } else {
        let (h, end) = (find_head(&all).unwrap(), all.len());
        [0, 1, h - 1, h, h + 1, h + n / 2 - 1, h + n / 2, h + n / 2 + 3, end - 6, end - 5, end - 2, end - 1, end][pick(13)]
    };
    let (out, notes) = run(left);
    out_n(1, *notes.last().unwrap());
    check(same(&out, &all[..left]), "what is sent before the connection breaks is the start of the response");
    check((*notes.last().unwrap() == 1) == (left == all.len()), "sending succeeds exactly when everything was sent");
    if left < all.len() {
        cover("the connection breaks");
    } else {
        cover("the connection stays");
    }
    if flushes && notes[0] == 1 {
        check(find_head(&out).map(|h| out.len() >= h + n / 2).unwrap_or(false), "what was flushed was sent");
    }
}
fn find_head(o: &[u8]) -> Option<usize> {
    (4..o.len() + 1).find(|i| &o[i - 4..*i] == b"\r\n\r\n")
}

// ---- C14

/// The decisions of the filters, taken when they are first needed.
static mut CHOICE: [[Option<u8>; 3]; 12] = [[None; 3]; 12];
static mut LIMIT: [usize; 3] = [4, 6, 4];
#[allow(static_mut_refs)]
fn choice(f: usize, what: usize) -> u8 {
    unsafe {
        if CHOICE[f][what].is_none() {
            CHOICE[f][what] = Some(pick(LIMIT[what]) as u8);
        }
        CHOICE[f][what].unwrap()
    }
}
fn known(f: usize, what: usize) -> Option<u8> {
    unsafe { CHOICE[f][what] }
}
#[derive(Default)]
struct Count(u64);
#[derive(Default)]
struct Greeting(u8);

/// How often each filter was given content, and what it did each time, if it changes its mind.
static mut TIMES: [usize; 12] = [0; 12];
static mut MINDS: [[Option<u8>; 32]; 12] = [[None; 32]; 12];
static mut FICKLE: bool = false;
#[allow(static_mut_refs)]
fn mind(f: usize) -> u8 {
    unsafe {
        if !FICKLE {
            return choice(f, 1);
        }
        let k = TIMES[f];
        TIMES[f] += 1;
        if MINDS[f][k].is_none() {
            MINDS[f][k] = Some(pick(LIMIT[1]) as u8);
        }
        if k > 0 && MINDS[f][k] != MINDS[f][0] {
            cover("a filter changes its mind");
        }
        MINDS[f][k].unwrap()
    }
}

struct F(usize);
fn do_write(f: usize, c: Option<Vec<u8>>) -> Act4 {
    let id = b'0' + f as u8;
    match mind(f) {
        0 => Act4::Next(c),
        1 => Act4::Next(c.map(|mut b| {
            b.push(id);
            b
        })),
        2 => Act4::Next(None),
        3 => Act4::Silent,
        4 => Act4::Abort,
        _ => Act4::Next(Some(c.unwrap_or(vec![id]))),
    }
}
#[derive(Clone)]
enum Act4 {
    Next(Option<Vec<u8>>),
    Silent,
    Abort,
}
fn act<'a>(a: Act4) -> ResponseAction<'a> {
    match a {
        Act4::Next(d) => ResponseAction::next(d),
        Act4::Silent => ResponseAction::silent_abort(),
        Act4::Abort => ResponseAction::abort("no".to_string()),
    }
}
fn edge(f: usize, what: usize) -> Act4 {
    let c = [b'a', b'n'][what / 2] + f as u8;
    match choice(f, what) {
        0 => Act4::Next(None),
        1 => Act4::Next(Some(vec![c])),
        2 => Act4::Silent,
        _ => Act4::Abort,
    }
}
impl ResponseFilter for F {
    fn begin(&self, ctx: FilterContext, status: StatusCode, headers: &mut Headers) -> (StatusCode, ResponseAction) {
        ctx.storage.entry::<Count>().or_insert_with(Count::default).0 += 1;
        if ctx.storage.get::<Greeting>().map(|g| g.0) == Some(7) {
            headers.set_raw(format!("X-{}", self.0), vec![status.to_u16().to_string().into_bytes()]);
        }
        (StatusCode::from_u16(status.to_u16() + 1), act(edge(self.0, 0)))
    }
    fn write<'a>(&'a self, _: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        act(do_write(self.0, content.map(|c| c.into_bytes())))
    }
    fn end(&self, ctx: FilterContext) -> ResponseAction {
        note().push(100 + ctx.storage.get::<Count>().map(|c| c.0).unwrap_or(0));
        act(edge(self.0, 2))
    }
}

/// Ok(body) or the response is aborted
struct Model {
    status: u16,
    seen: Vec<u16>,
    begin: Result<Vec<u8>, ()>,
    content: Vec<Result<Vec<u8>, ()>>,
    end: Result<Vec<u8>, ()>,
}
fn through(fs: std::ops::Range<usize>, c: Option<Vec<u8>>) -> Act4 {
    let mut a = Act4::Next(c);
    for f in fs {
        a = match a {
            Act4::Next(c) => do_write(f, c),
            x => return x,
        };
    }
    a
}
fn gather(parts: Vec<Act4>) -> Result<Vec<u8>, ()> {
    let mut out = vec![];
    for p in parts {
        match p {
            Act4::Next(Some(b)) => out.extend_from_slice(&b),
            Act4::Abort => return Err(()),
            _ => {}
        }
    }
    Ok(out)
}
/// What n filters make of a response.
fn model(n: usize, status: u16, contents: &[Vec<u8>]) -> Model {
    let mut m = Model { status, seen: vec![], begin: Ok(vec![]), content: vec![], end: Ok(vec![]) };
    // every filter may add to the start of the body; what it adds runs through the filters behind it. A filter that
    // aborts silently keeps those behind it from starting.
    let mut parts = vec![Act4::Next(None)];
    for f in 0..n {
        m.seen.push(m.status);
        m.status += 1;
        let a = edge(f, 0);
        if let Act4::Abort = a {
            m.begin = Err(());
            return m;
        }
        parts = parts.into_iter().map(|p| match p {
            Act4::Next(c) => do_write(f, c),
            x => x,
        }).collect();
        if parts.iter().any(|p| if let Act4::Abort = p { true } else { false }) {
            m.begin = Err(());
            return m;
        }
        parts.push(a.clone());
        if let Act4::Silent = a {
            break;
        }
    }
    m.begin = gather(parts);
    if m.begin.is_err() {
        return m;
    }
    m.content = contents.iter().map(|c| gather(vec![through(0..n, Some(c.clone()))])).collect();
    let mut parts = vec![];
    for f in (0..n).rev() {
        match edge(f, 2) {
            Act4::Next(c) => parts.push(through(f + 1..n, c)),
            a => {
                parts.push(a);
                break;
            }
        }
    }
    m.end = gather(parts);
    m
}

/// params: number of filters, 0 one send / 1 chunked / 2 dropped without sending / 3 chunked, not ended, how many choices of begin, write
/// and end are open; 1: what a filter does with content may be different each time; 1: only one filter has a choice
#[no_mangle]
pub extern "C" fn vx_filters() {
    let n = param(0);
    let mode = param(1);
    unsafe {
        CHOICE = [[None; 3]; 12];
        TIMES = [0; 12];
        MINDS = [[None; 32]; 12];
        FICKLE = param(5) == 1;
        LIMIT = [param(2), param(3), param(4)];
        if param(6) == 1 {
            // a long chain in which only one filter does as it likes
            let free = pick(n);
            for f in (0..n).filter(|f| *f != free) {
                CHOICE[f] = [Some(1); 3];
            }
            cover("a long chain of filters");
        }
    }
    let body = bytes(1);
    let second = bytes(1);
    let (b, b2) = (body.clone(), second.clone());
    note().clear();
    let mut config: Server<_> = plain_server(Act(move |_: Context, mut r: Response| {
        // far from statuses that go without a body
        r.set_status(StatusCode::Unregistered(450));
        r.filter_storage_mut().insert(Greeting(7));
        match mode {
            0 => {
                let e = r.try_send(&b[..]);
                note().push(e.is_ok() as u64);
            }
            1 | 3 | 4 => {
                let mut c = r.into_chunked();
                let e = c.try_send(&b[..]);
                note().push(e.is_ok() as u64);
                if e.is_err() && mode == 4 {
                    cover("a handler goes on after an abort");
                    match pick(4) {
                        0 => note().push(c.try_send(&b2[..]).is_ok() as u64),
                        1 => note().push(c.write_all(&b2[..]).is_ok() as u64),
                        2 => note().push(c.flush().is_ok() as u64),
                        _ => {}
                    }
                    let _ = c.end();
                } else if e.is_ok() && mode == 1 {
                    let e = c.write(&b2[..]);
                    note().push(e.as_ref().map(|k| *k == b2.len()).unwrap_or(false) as u64);
                    if e.is_ok() {
                        let e = c.end();
                        note().push(e.is_ok() as u64);
                    }
                }
            }
            _ => drop(r),
        }
    }));
    for i in 0..n {
        config.response_filters.push(Box::new(F(i)));
    }
    let server = leaked(config);
    let s = serve(server, &get());
    let a = answer(&s);
    out(1, &a.body);
    let contents = match mode {
        0 | 3 | 4 => vec![body],
        1 => vec![body, second],
        _ => vec![vec![]],
    };
    unsafe { TIMES = [0; 12] }
    let m = model(n, 450, &contents);
    let ends = note().iter().filter(|x| **x >= 100).count();
    let started = m.seen.len() as u64;
    check(note().iter().filter(|x| **x >= 100).all(|x| *x == 100 + started), "filters share their storage");
    let results: Vec<u64> = note().iter().filter(|x| **x < 100).cloned().collect();
    if m.begin.is_err() {
        cover("a filter aborts at the start");
        check(ends == 0, "an aborted response is not continued");
        check(mode == 2 || (results.len() > 0 && results.iter().all(|r| *r == 0)), "an aborted response is an error");
        if mode == 0 {
            check(a.body.is_empty(), "an aborted response has no content");
        }
        return;
    }
    if mode == 4 {
        // what a handler that doesn't give up sends after an abort is up to it
        return;
    }
    check(a.status == m.status, "every filter can change the status");
    for (f, st) in m.seen.iter().enumerate() {
        let h = a.header(&format!("x-{}", f));
        check(h.len() == 1 && same(h[0], st.to_string().as_bytes()), "filters set headers and see the status of those before them");
    }
    if let Some(k) = m.content.iter().position(|c| c.is_err()) {
        cover("a filter aborts on content");
        check(mode == 2 || (results.len() == k + 1 && results[k] == 0), "aborted content is an error");
        if mode == 0 {
            check(a.body.is_empty(), "an aborted response has no content");
        }
        return;
    }
    if m.end.is_err() {
        cover("a filter aborts at the end");
        check(mode == 2 || results.last() == Some(&((mode == 3) as u64)), "an aborted end is an error");
        if mode == 0 {
            check(a.body.is_empty(), "an aborted response has no content");
        }
        return;
    }
    check(mode == 2 || results.iter().all(|x| *x == 1), "sending succeeds");
    let mut want = m.begin.unwrap();
    for c in m.content {
        want.extend_from_slice(&c.unwrap());
    }
    want.extend_from_slice(&m.end.unwrap());
    if n > 1 && known(0, 2) == Some(1) && known(1, 1) == Some(1) {
        cover("an end runs through the filters behind it");
    }
    if known(0, 1) == Some(3) {
        cover("content is dropped silently");
    }
    check(same(&a.body, &want), "the body is what the filters make of it");
}

/// C14. A piece of content as bytes, as text and as both by value. params: length, constructor
#[no_mangle]
pub extern "C" fn vx_data() {
    let b = bytes(param(0));
    let text = std::str::from_utf8(&b).is_ok();
    let (d, e): (Data, Data) = match param(1) {
        0 => ((&b[..]).into(), (&b[..]).into()),
        1 => (b.clone().into(), b.clone().into()),
        _ => {
            assume(text);
            match std::str::from_utf8(&b) {
                Ok(t) if param(1) == 2 => (t.into(), t.into()),
                Ok(t) => (t.to_string().into(), t.to_string().into()),
                Err(_) => return,
            }
        }
    };
    out(1, &[text as u8]);
    cover(if text { "content that is text" } else { "content that is not text" });
    check(same(d.as_bytes(), &b), "content is read as the bytes it is");
    match d.as_string() {
        Ok(t) => check(text && same(t.as_bytes(), &b), "content is text exactly when it is UTF-8"),
        Err(_) => check(!text, "content is text exactly when it is UTF-8"),
    }
    let c = d.clone();
    check(same(&d.into_bytes(), &b), "content is taken as the bytes it is");
    match e.into_string() {
        Ok(t) => check(text && same(t.as_bytes(), &b), "content is taken as text exactly when it is UTF-8"),
        Err(_) => check(!text, "content is taken as text exactly when it is UTF-8"),
    }
    check(same(c.as_bytes(), &b), "a copy of content is the content");
}
