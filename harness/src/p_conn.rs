//! C15 connections, C16 context filters, C17 keep-alive, C24 request bodies, C26 what a handler is told.
use crate::net::*;
use crate::p_resp::{note, Act};
use crate::util::leak;
use crate::vx::*;
use hyper::server::Handler as HyperHandler;
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseAction, ResponseFilter};
use rustful::handler::{MethodRouter, OrElse, TreeRouter};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::server::{KeepAlive, ServerInstance};
use rustful::{Context, DefaultRouter, Method, Response, StatusCode};
use std::io::{Read, Write};

fn letter() -> u8 {
    let b = byte();
    assume((b >= b'a') & (b <= b'z'));
    b
}

/// One request of a connection: its text, and what its answer has to contain.
struct Req {
    text: Vec<u8>,
    echo: Vec<u8>,
    last: bool,
}
/// body: 0 none, 1 with a length, 2 chunked
fn make(body: usize, last: bool) -> Req {
    let name = letter();
    let target = [b'/', name];
    let close: &[u8] = if last { b"close" } else { b"keep-alive" };
    let mut echo = vec![name];
    let text = match body {
        0 => request("GET", &target, &[("Host", b"h"), ("Connection", close)], b""),
        1 => {
            let b = bytes(2);
            echo.extend_from_slice(&b);
            request("POST", &target, &[("Host", b"h"), ("Connection", close), ("Content-Length", b"2")], &b)
        }
        _ => {
            let b = bytes(3);
            echo.extend_from_slice(&b);
            let t = [b"2\r\n", &b[..2], b"\r\n1\r\n", &b[2..], b"\r\n0\r\n\r\n"].concat();
            request("POST", &target, &[("Host", b"h"), ("Connection", close), ("Transfer-Encoding", b"chunked")], &t)
        }
    };
    Req { text, echo, last }
}

/// How the handler answers.
static mut WAYS: [u8; 10] = [0; 10];
fn echoing(mut c: Context, r: Response) {
    let i = note().len();
    note().push(1);
    let mut b = c.uri_path.as_path().map(|p| p.as_bytes()[1..].to_vec()).unwrap_or(vec![]);
    if c.body.read_to_end(&mut b).is_err() {
        note()[i] = 2;
    }
    match unsafe { WAYS[i % 10] } {
        0 => r.send(b),
        1 => drop(r),
        2 => {
            let mut k = r.into_chunked();
            k.send(&b[..1]);
            k.send(&b[1..]);
            if k.end().is_err() {
                note()[i] = 3;
            }
        }
        3 => {
            let mut k = r.into_chunked();
            k.send(b);
        }
        4 => drop(r.into_chunked()),
        5 => {
            let n = b.len() as u64;
            let mut k = unsafe { r.into_raw(n) };
            k.send(b);
        }
        6 => {
            r.send(None::<&str>);
        }
        _ => {
            let mut r = r;
            r.set_status(StatusCode::NoContent);
            r.send(b)
        }
    }
}

/// A connection with several requests. params: number of requests, how the bytes arrive (0 at once, 1 request by
/// request, 2 one cut anywhere in a window of `params[2]` bytes from `params[3]`), how many of the eight ways of
/// answering (0: all), how bodies and ways of answering take turns (0: any of them)
#[no_mangle]
pub extern "C" fn vx_connection() {
    let n = param(0);
    let mut reqs: Vec<Req> = vec![];
    for i in 0..n {
        // long connections: one way of each, in turn
        let turn = param(5);
        let body = if turn > 0 { (i + turn) % 3 } else { pick(3) };
        unsafe { WAYS[i] = if turn > 0 { (i * turn) % 8 } else { pick(if param(1) < 2 || param(4) == 0 { 8 } else { param(4) }) } as u8 }
        let last = if i + 1 < n { flag() } else { false };
        reqs.push(make(body, last));
        if last {
            break;
        }
    }
    // what follows a request that asked to close is not looked at
    let stream: Vec<u8> = reqs.iter().flat_map(|r| r.text.clone()).chain(if reqs.last().unwrap().last { b"GET /".to_vec() } else { vec![] }).collect();
    let blocks = match param(1) {
        0 => vec![stream.clone()],
        1 => reqs.iter().map(|r| r.text.clone()).collect(),
        _ => {
            let k = param(3) + pick(param(2));
            if k >= stream.len() {
                return;
            }
            vec![stream[..k].to_vec(), stream[k..].to_vec()]
        }
    };
    note().clear();
    let server = leaked(plain_server(echoing as fn(Context, Response)));
    let all = serve_all(server, blocks, true, reqs.len() + 1, None);
    // after the last request the connection is either closed or found at its end
    let closing = reqs.last().unwrap().last;
    check(all.len() == reqs.len() + if closing { 0 } else { 1 }, "every request is answered, and nothing else");
    check(note().len() == reqs.len() && note().iter().all(|x| *x == 1), "every request reaches the handler once");
    for (i, r) in reqs.iter().enumerate() {
        let s = &all[i];
        check(s.parsed, "requests are read one after the other");
        let a = answer(s);
        out(1, &a.body);
        check(s.close == r.last, "the connection is kept exactly when the client asks for it");
        match unsafe { WAYS[i] } {
            1 | 4 => check(a.status == 200 && a.body.is_empty(), "a response that is dropped is empty"),
            6 => check(a.status == 404 && a.body.is_empty(), "nothing is not found"),
            7 => check(a.status == 204 && a.body.is_empty(), "no content is empty"),
            _ => {
                check(a.status == 200 && same(&a.body, &r.echo), "the answer belongs to its request");
                if i == 1 && r.echo.len() > 2 {
                    cover("a second request with a body is answered");
                }
            }
        }
        if i == 1 {
            cover("a second request is served");
        }
        if r.last && i + 1 == reqs.len() {
            cover("the client closes the connection");
        }
    }
    if !closing {
        check(!all[reqs.len()].parsed && all[reqs.len()].out.is_empty(), "nothing is answered after the last request");
    }
}

/// The handler leaves the body alone; the next request is answered for itself all the same. params: 0 no body,
/// 1 with a length, 2 chunked
#[no_mangle]
pub extern "C" fn vx_unread() {
    fn lazy(c: Context, r: Response) {
        note().push(1);
        let b = c.uri_path.as_path().map(|p| p.as_bytes()[1..].to_vec()).unwrap_or(vec![]);
        r.send(b);
    }
    let (a, b) = (make(param(0), false), make(0, false));
    note().clear();
    let server = leaked(plain_server(lazy as fn(Context, Response)));
    let all = serve_all(server, vec![a.text.clone(), b.text.clone()], true, 2, None);
    check(same(&answer(&all[0]).body, &a.echo[..1]), "the first request is answered");
    cover("the first request is answered");
    check(all.len() == 2 && all[1].parsed && same(&answer(&all[1]).body, &b.echo), "what the handler leaves of a body is not taken for the next request");
}

// ---- C16

#[derive(Default)]
struct Trail(Vec<u8>);
struct CF(usize, u8, u8, u16);
impl ContextFilter for CF {
    fn modify(&self, f: FilterContext, c: &mut Context) -> ContextAction {
        note().push(10 + self.0 as u64);
        f.storage.entry::<Trail>().or_insert_with(Trail::default).0.push(self.2);
        match self.1 {
            0 => ContextAction::next(),
            1 => ContextAction::abort(StatusCode::from_u16(self.3)),
            2 => {
                c.uri_path = rustful::context::UriPath::Path(vec![b'/', self.2].into());
                ContextAction::next()
            }
            3 => {
                c.method = Method::Post;
                ContextAction::next()
            }
            _ => {
                c.query.insert("k", vec![self.2]);
                ContextAction::next()
            }
        }
    }
}
struct Echo;
impl ResponseFilter for Echo {
    fn begin(&self, f: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) {
        if let Some(t) = f.storage.get::<Trail>() {
            h.set_raw("X-Trail", vec![t.0.clone()]);
        }
        note().push(99);
        (s, ResponseAction::next(None::<Data>))
    }
    fn write<'a>(&'a self, _: FilterContext, c: Option<Data<'a>>) -> ResponseAction {
        ResponseAction::next(c)
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        ResponseAction::next(None::<Data>)
    }
}

/// params: number of filters
#[no_mangle]
pub extern "C" fn vx_context_filters() {
    let n = param(0);
    let mut acts = vec![];
    let mut tags = vec![];
    for _ in 0..n {
        acts.push(pick(5) as u8);
        tags.push(letter());
    }
    let code = u16::from_le_bytes([byte(), byte()]);
    assume((code >= 200) & (code < 200 + param(1) as u16) & (code != 204) & (code != 304));
    note().clear();
    fn h(c: Context, r: Response) {
        note().push(1);
        let mut b = c.uri_path.as_path().unwrap().as_bytes().to_vec();
        b.push(if c.method == Method::Post { b'P' } else { b'G' });
        if let Some(v) = c.query.get_raw("k") {
            b.extend_from_slice(v.as_bytes());
        }
        if let Some(v) = c.variables.get_raw("v") {
            b.extend_from_slice(v.as_bytes());
        }
        r.send(b);
    }
    let mut router = DefaultRouter::<fn(Context, Response)>::new();
    router.build().path("/:v").then().on(Method::Get, h as fn(Context, Response));
    router.build().path("/:v").then().on(Method::Post, h as fn(Context, Response));
    for m in ["HEAD", "OPTIONS", "PUT", "DELETE", "TRACE", "PATCH", "FOO"] {
        router.build().path("/:v").then().on(m.parse().unwrap(), h as fn(Context, Response));
    }
    let mut config = plain_server(router);
    for i in 0..n {
        config.context_filters.push(Box::new(CF(i, acts[i], tags[i], code)));
    }
    config.response_filters.push(Box::new(Echo));
    let s = serve(leaked(config), &request("GET", b"/-", &[("Host", b"h")], b""));
    let a = answer(&s);
    out(1, &a.body);
    let stop = acts.iter().position(|x| *x == 1);
    let ran = stop.map(|i| i + 1).unwrap_or(n);
    let mut order: Vec<u64> = (0..ran).map(|i| 10 + i as u64).collect();
    if stop.is_none() {
        order.push(1);
    }
    order.push(99);
    check(*note() == order, "filters run in order up to the one that aborts, then the handler, then the response filters");
    let trail = a.header("x-trail");
    if ran > 0 {
        check(trail.len() == 1 && same(trail[0], &tags[..ran]), "filters and response filters share their storage");
    } else {
        check(trail.is_empty(), "no filter, no trail");
    }
    match stop {
        Some(_) => {
            cover("a context filter aborts");
            check(a.status == code && a.body.is_empty(), "the aborting filter chooses the status");
        }
        None => {
            cover("all context filters pass");
            let mut name = b'-';
            let mut m = if sent_as("GET") == "POST" { b'P' } else { b'G' };
            let mut k = None;
            for i in 0..n {
                match acts[i] {
                    2 => name = tags[i],
                    3 => m = b'P',
                    4 => k = Some(tags[i]),
                    _ => {}
                }
            }
            let mut want = vec![b'/', name, m];
            want.extend(k);
            want.push(name);
            check(a.status == 200 && same(&a.body, &want), "the handler and the router see what the filters made of the request");
        }
    }
}

/// Filters see every request that can be read, and may give it a path or take it away. params: 0 a path / 1 '*'
#[no_mangle]
pub extern "C" fn vx_filter_star() {
    struct Give(u8, u8);
    impl ContextFilter for Give {
        fn modify(&self, f: FilterContext, c: &mut Context) -> ContextAction {
            note().push(if c.uri_path.is_asterisk() { 11 } else { 10 });
            check(c.uri_path.is_asterisk() != c.uri_path.is_path(), "a target is a path or '*'");
            check(f.global.get::<u16>() == Some(&77) && c.global.get::<u16>() == Some(&77), "filters have the global data");
            match self.0 {
                0 => {}
                1 => c.uri_path = rustful::context::UriPath::Path(vec![b'/', self.1].into()),
                _ => c.uri_path = rustful::context::UriPath::Asterisk,
            }
            ContextAction::next()
        }
    }
    struct Global;
    impl ResponseFilter for Global {
        fn begin(&self, f: FilterContext, s: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) {
            check(f.global.get::<u16>() == Some(&77), "response filters have the global data");
            note().push(20);
            (s, ResponseAction::next(None::<Data>))
        }
        fn write<'a>(&'a self, f: FilterContext, c: Option<Data<'a>>) -> ResponseAction {
            check(f.global.get::<u16>() == Some(&77), "response filters have the global data");
            ResponseAction::next(c)
        }
        fn end(&self, f: FilterContext) -> ResponseAction {
            check(f.global.get::<u16>() == Some(&77), "response filters have the global data");
            ResponseAction::next(None::<Data>)
        }
    }
    fn h(c: Context, r: Response) {
        note().push(1);
        check(c.global.get::<u16>() == Some(&77), "handlers have the global data");
        r.send(c.uri_path.as_path().unwrap().as_bytes().to_vec());
    }
    let how = pick(3) as u8;
    let to = letter();
    let m = ["OPTIONS", "GET", "PROPFIND"][pick(3)];
    let star = param(0) == 1;
    note().clear();
    let mut config = plain_server(Some(h as fn(Context, Response)));
    config.global = Box::new(77u16).into();
    config.context_filters.push(Box::new(Give(how, to)));
    config.response_filters.push(Box::new(Global));
    let s = serve(leaked(config), &request(m, if star { b"*" } else { b"/" }, &[("Host", b"h")], b""));
    let a = answer(&s);
    out(1, &a.body);
    let path: Option<Vec<u8>> = match how {
        0 if star => None,
        0 => Some(b"/".to_vec()),
        1 => Some(vec![b'/', to]),
        _ => None,
    };
    let mut want = vec![if star { 11 } else { 10 }];
    if path.is_some() {
        want.push(1);
    }
    want.push(20);
    check(*note() == want, "filters see the request, and a handler runs when it has a path");
    match path {
        Some(p) => {
            if star {
                cover("a filter gives '*' a path");
            }
            check(a.status == 200 && same(&a.body, &p), "the handler sees the path the filter gave")
        }
        None => {
            cover("a request without a path");
            check(a.body.is_empty(), "nothing was sent")
        }
    }
}

// ---- C17

struct Open(&'static ServerInstance<Act<fn(Context, Response)>>);

fn usize_sym() -> usize {
    u64sym() as usize
}
/// Connections come and go, then a request is served. params: number of events
#[no_mangle]
pub extern "C" fn vx_keep_alive() {
    let free = usize_sym();
    let threads = usize_sym();
    let mode = pick(6);
    let conf = flag();
    let preset = pick(3);
    fn h(_: Context, mut r: Response) {
        match unsafe { WAYS[1] } {
            0 => {}
            1 => r.headers_mut().set(hyper::header::Connection::keep_alive()),
            _ => r.headers_mut().set(hyper::header::Connection::close()),
        }
        match unsafe { WAYS[0] } {
            0 => r.send("x"),
            1 => drop(r),
            2 => drop(r.into_chunked()),
            3 => {
                unsafe { r.into_raw(0) };
            }
            4 => r.send(None::<&str>),
            _ => {
                let mut c = r.into_chunked();
                c.send("x");
            }
        }
    }
    unsafe {
        WAYS[0] = mode as u8;
        WAYS[1] = preset as u8;
    }
    let mut config = plain_server(Act(h as fn(Context, Response)));
    config.threads = Some(threads);
    if conf {
        config.keep_alive = Some(KeepAlive { timeout: std::time::Duration::from_secs(5), free_threads: free });
    }
    if flag() {
        config.response_filters.push(Box::new(Echo));
    }
    let o = Open(leaked(config));
    let mut open = 0usize;
    for _ in 0..param(0) {
        if open > 0 && flag() {
            o.0.on_connection_end();
            open -= 1;
        } else {
            o.0.on_connection_start();
            open += 1;
        }
    }
    let s = serve(o.0, &request("GET", b"/", &[("Host", b"h")], b""));
    let a = answer(&s);
    let busy = conf && (open as u128 + free as u128 > threads as u128);
    out(1, &[busy as u8]);
    if busy {
        cover("a connection is closed to free its thread");
    } else if conf {
        cover("a connection is kept");
    }
    check(s.close == (busy | (preset == 2)), "the connection closes exactly when too few threads would be free, or the handler says so");
    let h = a.header("connection");
    if s.close {
        check(h.len() == 1 && h[0].eq_ignore_ascii_case(b"close"), "the client is told that the connection closes");
    } else {
        check(h.len() == preset && (preset == 0 || h[0].eq_ignore_ascii_case(b"keep-alive")), "the client is not told that the connection closes");
    }
}

/// Two connections at once. params: 0 start and start / 1 start and end / 2 end and start / 3 end and end / 4 a request and a
/// start / 5 a request and an end, connections that are open before, atomic accesses at most
#[no_mangle]
pub extern "C" fn vx_schedules() {
    let (kind, before, max) = (param(0), param(1), param(2));
    fn h(_: Context, r: Response) {
        r.send("x")
    }
    let free = usize_sym();
    let threads = usize_sym();
    let mut config = plain_server(Act(h as fn(Context, Response)));
    config.threads = Some(threads);
    config.keep_alive = Some(KeepAlive { timeout: std::time::Duration::from_secs(5), free_threads: free });
    let o = leaked(config);
    for _ in 0..before {
        o.on_connection_start();
    }
    let mut served = None;
    let text = request("GET", b"/", &[("Host", b"h")], b"");
    match kind {
        0 => race(max, o, || o.on_connection_start(), || o.on_connection_start()),
        1 => race(max, o, || o.on_connection_start(), || o.on_connection_end()),
        2 => race(max, o, || o.on_connection_end(), || o.on_connection_start()),
        3 => race(max, o, || o.on_connection_end(), || o.on_connection_end()),
        4 => race(max, o, || served = Some(serve(o, &text)), || o.on_connection_start()),
        _ => race(max, o, || served = Some(serve(o, &text)), || o.on_connection_end()),
    }
    let after = [before + 2, before, before, before.wrapping_sub(2), before + 1, before.wrapping_sub(1)][kind];
    let busy = |open: usize| open as u128 + free as u128 > threads as u128;
    let told = |s: &Served| {
        let a = answer(s);
        let h = a.header("connection");
        check(a.status == 200 && same(&a.body, b"x"), "the request is answered");
        check(if s.close { h.len() == 1 && h[0].eq_ignore_ascii_case(b"close") } else { h.is_empty() }, "the client is told exactly that the connection closes");
        out(1, &[busy(after) as u8]);
        s.close
    };
    if let Some(s) = served {
        cover("a connection comes or goes while a request is served");
        let c = told(&s);
        check((c == busy(before)) | (c == busy(after)), "the connection closes exactly when too few threads would be free");
    } else {
        cover("two connections come or go at once");
    }
    let c = told(&serve(o, &text));
    check(c == busy(after), "afterwards every connection is counted");
}

/// Two requests at once. params: 0 through routers, 1 through filters too, 2 that stop the first; atomic accesses at most
#[no_mangle]
pub extern "C" fn vx_two_requests() {
    struct Add;
    impl ResponseFilter for Add {
        fn begin(&self, mut c: FilterContext, status: StatusCode, headers: &mut Headers) -> (StatusCode, ResponseAction) {
            let v = c.storage.get::<Vec<u8>>().cloned().unwrap_or(vec![]);
            c.storage.insert(v.len());
            headers.set_raw("X-Saw", vec![v.clone()]);
            (status, ResponseAction::next(Some(v)))
        }
        fn write<'a>(&'a self, _: FilterContext, d: Option<Data<'a>>) -> ResponseAction<'a> {
            ResponseAction::next(d)
        }
        fn end(&self, c: FilterContext) -> ResponseAction<'_> {
            ResponseAction::next(c.storage.get::<usize>().map(|n| n.to_string()))
        }
    }
    struct Put(bool);
    impl ContextFilter for Put {
        fn modify(&self, c: FilterContext, context: &mut Context) -> ContextAction {
            let v = context.query.get_raw("q").map(|v| v.as_ref().to_vec()).unwrap_or(vec![]);
            let stop = self.0 && v.len() == 1;
            c.storage.insert(v);
            if stop {
                return ContextAction::Abort(StatusCode::Forbidden);
            }
            ContextAction::Next
        }
    }
    fn h(mut c: Context, r: Response) {
        let mut b = c.variables.get_raw("v").map(|v| v.as_ref().to_vec()).unwrap_or(vec![]);
        b.extend_from_slice(c.query.get_raw("q").map(|v| v.as_ref()).unwrap_or(b""));
        c.body.read_to_end(&mut b).unwrap();
        b.push(b'0' + c.hyperlinks.len() as u8);
        r.send(b);
    }
    type F = fn(Context, Response);
    let mut router = DefaultRouter::<F>::new();
    router.find_hyperlinks = true;
    router.build().many(|b| {
        b.path("a/:v").then().on(Method::Post, h as F);
        b.path("a/:v").then().on(Method::Get, h as F);
        b.path("a/:v/b").then().on(Method::Post, h as F);
        b.path("*v").then().on(Method::Put, h as F);
    });
    let mode = param(0);
    let mut config = plain_server(router);
    config.keep_alive = Some(KeepAlive { timeout: std::time::Duration::from_secs(5), free_threads: 1 });
    config.threads = Some(2);
    if mode > 0 {
        config.context_filters.push(Box::new(Put(mode == 2)));
        config.response_filters.push(Box::new(Add));
    }
    let o = leaked(config);
    let low = |n: usize| {
        let v = bytes(n);
        for b in &v {
            assume((*b >= b'a') & (*b <= b'z'));
        }
        v
    };
    let (v, q, b) = (low(2), low(3), low(3));
    let m = [["POST", "PUT"], ["PUT", "POST"], ["POST", "POST"]][pick(3)];
    let text = |m: &str, v: &[u8], q: &[u8], b: &[u8]| {
        let l = b.len().to_string();
        request(m, &[&b"/a/"[..], v, b"?q=", q].concat(), &[("Host", b"h"), ("Content-Length", l.as_bytes())], b)
    };
    let (x, y) = (text(m[0], &v[..1], &q[..1], &b[..1]), text(m[1], &v[1..], &q[1..], &b[1..]));
    let (mut s, mut t) = (None, None);
    race(param(1), o, || s = Some(serve(o, &x)), || t = Some(serve(o, &y)));
    cover("two requests at once");
    let judge = |s: Option<Served>, m: &str, v: &[u8], q: &[u8], b: &[u8]| {
        let s = s.unwrap();
        let a = answer(&s);
        out(1, &a.body);
        let stopped = mode == 2 && q.len() == 1;
        let put = m == "PUT";
        let mut want = vec![];
        if mode > 0 {
            want.extend_from_slice(q);
        }
        if !stopped {
            want.extend_from_slice(if put { b"a/" } else { b"" });
            want.extend_from_slice(v);
            want.extend_from_slice(q);
            want.extend_from_slice(b);
            want.push(b'3');
        }
        if mode > 0 {
            want.push(b'0' + q.len() as u8);
        }
        check(a.status == if stopped { 403 } else { 200 }, "each request has its own status");
        check(same(&a.body, &want), "each request has its own answer");
        check(mode == 0 || (a.header("x-saw").len() == 1 && same(a.header("x-saw")[0], q)), "what filters share belongs to one request");
        check(!s.close, "the connection is kept");
    };
    judge(s, m[0], &v[..1], &q[..1], &b[..1]);
    judge(t, m[1], &v[1..], &q[1..], &b[1..]);
}

// ---- C24

/// What a handler reads is what was sent. params: 0 with a length / 1 chunked, bytes in two parts, size of the reads
#[no_mangle]
pub extern "C" fn vx_body() {
    let (x, y) = (crate::p_resp::large(param(1)), crate::p_resp::large(param(2)));
    static mut GOT: Vec<u8> = Vec::new();
    static mut STEP: usize = 0;
    unsafe {
        GOT = vec![];
        STEP = param(3);
    }
    #[allow(static_mut_refs)]
    fn h(mut c: Context, r: Response) {
        let mut buf = vec![0u8; unsafe { STEP }];
        loop {
            match c.body.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => unsafe { GOT.extend_from_slice(&buf[..n]) },
                Err(_) => {
                    note().push(7);
                    break;
                }
            }
        }
        // the end stays the end
        if c.body.read(&mut buf).map(|n| n != 0).unwrap_or(true) {
            note().push(8);
        }
        note().push(1);
        r.send("");
    }
    let body = [&x[..], &y[..]].concat();
    let text = if param(0) == 0 {
        let l = body.len().to_string();
        request("POST", b"/", &[("Host", b"h"), ("Content-Length", l.as_bytes())], &body)
    } else {
        let mut t = vec![];
        for p in &[&x, &y] {
            if !p.is_empty() {
                t.extend_from_slice(format!("{:x}", p.len()).as_bytes());
                t.extend_from_slice(b"\r\n");
                t.extend_from_slice(p);
                t.extend_from_slice(b"\r\n");
            }
        }
        t.extend_from_slice(b"0\r\n\r\n");
        request("POST", b"/", &[("Host", b"h"), ("Transfer-Encoding", b"chunked")], &t)
    };
    // the rest of the message may arrive in two pieces
    let start = text.len() - if param(0) == 0 { body.len() } else { 5 };
    let cut = pick(start.min(6) + 1);
    let k = text.len() - cut;
    note().clear();
    let server = leaked(plain_server(h as fn(Context, Response)));
    let s = serve_all(server, vec![text[..k].to_vec(), text[k..].to_vec()], true, 1, None).pop().unwrap();
    let a = answer(&s);
    check(a.status == 200, "the request is answered");
    check(*note() == vec![1], "the body is read to its end without an error");
    #[allow(static_mut_refs)]
    let got = unsafe { GOT.clone() };
    out(1, &got);
    if cut > 0 && body.len() > 1 {
        cover("a body in several pieces");
    }
    check(same(&got, &body), "the body is what was sent");
}

/// A body that ends too early is an error, not a shorter body. params: missing bytes, bytes that are there
#[no_mangle]
pub extern "C" fn vx_body_short() {
    let b = bytes(param(1));
    let l = (param(0) + param(1)).to_string();
    let text = request("POST", b"/", &[("Host", b"h"), ("Content-Length", l.as_bytes())], &b);
    fn h(mut c: Context, r: Response) {
        match pick(2) {
            0 => note().push(c.body.read_query_body().is_err() as u64),
            _ => {
                let mut b = vec![];
                note().push(c.body.read_to_end(&mut b).is_err() as u64)
            }
        }
        r.send("");
    }
    note().clear();
    let server = leaked(plain_server(h as fn(Context, Response)));
    let s = serve(server, &text);
    answer(&s);
    cover("a body ends early");
    check(*note() == vec![1], "a body that ends early is an error");
}

/// Which requests have a multipart body. params: case
#[no_mangle]
pub extern "C" fn vx_multipart() {
    static mut FOUND: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    #[allow(static_mut_refs)]
    fn h(mut c: Context, r: Response) {
        let mut n = 0;
        if let Some(mut m) = c.body.as_multipart() {
            note().push(1);
            while let Ok(Some(mut f)) = m.read_entry() {
                let mut d = vec![];
                if f.data.read_to_end(&mut d).is_err() {
                    note().push(9);
                }
                unsafe { FOUND.push((f.headers.name.as_bytes().to_vec(), d)) }
                n += 1;
                if n > 3 {
                    break;
                }
            }
        } else {
            note().push(0);
        }
        r.send("");
    }
    let b = bytes(param(2));
    for x in &b {
        assume(((*x >= b'a') & (*x <= b'z')) | ((*x >= b'A') & (*x <= b'Z')) | ((*x >= b'0') & (*x <= b'9')) | (*x == b'-'));
    }
    if param(3) == 1 {
        // around the words that mean something to the parser of media types
        for i in 0..5 {
            assume(one_of(b[i], &[b"utf-8"[i], b"UTF-8"[i], b'x']));
        }
    }
    let data = bytes(param(1));
    let kind = param(0);
    let ty: Vec<u8> = match kind {
        0 => [&b"multipart/form-data; boundary="[..], &b].concat(),
        1 => [&b"multipart/form-data; charset=utf-8; boundary=\""[..], &b, b"\""].concat(),
        2 => b"multipart/form-data".to_vec(),
        3 => [&b"multipart/mixed; boundary="[..], &b].concat(),
        4 => [&b"text/plain; boundary="[..], &b].concat(),
        _ => b.clone(),
    };
    let text = [&b"--"[..], &b, b"\r\nContent-Disposition: form-data; name=\"f\"\r\n\r\n", &data, b"\r\n--", &b, b"\r\nContent-Disposition: form-data; name=\"g\"\r\n\r\nz\r\n--", &b, b"--\r\n"].concat();
    let l = text.len().to_string();
    note().clear();
    #[allow(static_mut_refs)]
    unsafe {
        FOUND.clear()
    }
    let server = leaked(plain_server(h as fn(Context, Response)));
    let s = serve(server, &request("POST", b"/", &[("Host", b"h"), ("Content-Type", &ty), ("Content-Length", l.as_bytes())], &text));
    let a = answer(&s);
    check(a.status == 200, "the request is answered");
    if kind < 2 {
        check(*note() == vec![1], "a form with a boundary is multipart");
        #[allow(static_mut_refs)]
        let f = unsafe { &FOUND };
        out_n(1, f.len() as u64);
        cover("a multipart form is read");
        check(f.len() == 2 && same(&f[0].0, b"f") && same(&f[1].0, b"g"), "every field is found");
        check(same(&f[0].1, &data) && same(&f[1].1, b"z"), "every field has its data");
    } else {
        cover("a body that is not a multipart form");
        check(*note() == vec![0], "only forms with a boundary are multipart");
    }
}

// ---- C26

/// params: 0 method, 1 header, 2 version, host and address, 3 a target in absolute form; its length; what stands between
/// server and handler (0 nothing, 1 a router that searches links, 2 a default router behind another, 3 a router that tries
/// several ways)
#[no_mangle]
pub extern "C" fn vx_told() {
    #[derive(Default)]
    struct Told {
        method: String,
        raw: Vec<Vec<u8>>,
        host: Option<(String, Option<u16>)>,
        version: u8,
        peer: bool,
        count: usize,
        rest: Vec<Vec<u8>>,
    }
    static mut TOLD: Option<Told> = None;
    fn h(mut c: Context, mut r: Response) {
        // a fallback starts from the status of the one before
        r.set_status(StatusCode::Ok);
        let mut t = Told::default();
        let mut body = vec![];
        c.body.read_to_end(&mut body).unwrap();
        t.rest = vec![c.uri_path.as_path().map(|p| p.as_bytes().to_vec()).unwrap_or(vec![]), c.query.get_raw("q").map(|v| v.as_ref().to_vec()).unwrap_or(vec![]), body];
        t.method = c.method.as_ref().to_string();
        t.raw = c.headers.get_raw("X-Value").map(|v| v.iter().map(|x| x.to_vec()).collect()).unwrap_or(vec![]);
        t.host = c.headers.get::<hyper::header::Host>().map(|h| (h.hostname.clone(), h.port));
        t.version = match c.http_version {
            rustful::HttpVersion::Http10 => 10,
            rustful::HttpVersion::Http11 => 11,
            _ => 0,
        };
        t.peer = c.address == peer();
        t.count = c.headers.len();
        unsafe { TOLD = Some(t) }
        r.send("");
    }
    let mut method = b"GET".to_vec();
    let mut value = b"v".to_vec();
    let mut version = 11;
    let mut port = vec![];
    let mut absolute = vec![];
    match param(0) {
        0 => {
            method = bytes(param(1));
            for b in &method {
                assume((*b >= b'A') & (*b <= b'Z'));
            }
        }
        1 => {
            value = bytes(param(1));
            for (i, b) in value.iter().enumerate() {
                assume((*b >= 0x20) & (*b != 0x7f) & ((*b != b' ') | ((i > 0) & (i + 1 < param(1)))));
            }
        }
        3 | 4 => {
            absolute = bytes(param(1));
            for b in &absolute {
                assume((*b >= b'a') & (*b <= b'z'));
            }
            if flag() {
                port = b"81".to_vec();
            }
        }
        _ => {
            version = if flag() { 10 } else { 11 };
            port = bytes(param(1));
            for b in &port {
                assume((*b >= b'1') & (*b <= b'9'));
            }
        }
    }
    let mut host = b"h".to_vec();
    if !port.is_empty() {
        host.push(b':');
        host.extend_from_slice(&port);
    }
    let mut at = vec![];
    if param(0) == 3 {
        // the authority of the target replaces the Host header
        at = [b"http://", &absolute[..], &host[1..]].concat();
        host = [&b"other"[..], b"other:9", b""][pick(3)].to_vec();
    }
    if param(0) == 4 {
        // a target without an authority leaves it
        at = if absolute.is_empty() { [&b"file://"[..], b"file:", b"file://localhost"][pick(3)].to_vec() } else { [&absolute[..], b":"].concat() };
        cover("a target without an authority");
    }
    let mut text = [&method[..], b" ", &at, b"/p?q=1 HTTP/1.", &[if version == 10 { b'0' } else { b'1' }], if host.is_empty() { b"" } else { b"\r\nHost: " }, &host, b"\r\nX-Value: ", &value, b"\r\nContent-Length: 1\r\n\r\n"].concat();
    let body = byte();
    text.push(body);
    type F = fn(Context, Response);
    let h = h as F;
    let known: Method = std::str::from_utf8(&method).unwrap().parse().unwrap();
    let s = match param(2) {
        1 => {
            let mut r = TreeRouter::<Option<F>>::new();
            r.find_hyperlinks = true;
            r.build().on_path("p", h);
            r.build().on_path("p/q", h);
            serve(leaked(plain_server(r)), &text)
        }
        2 => {
            let mut r = rustful::DefaultRouter::<F>::new();
            r.build().path("p").then().on(known, h);
            serve(leaked(plain_server(OrElse { primary: TreeRouter::<Option<F>>::new(), secondary: r })), &text)
        }
        3 => {
            let mut r = TreeRouter::<MethodRouter<Option<F>>>::new();
            r.find_hyperlinks = flag();
            r.build().path("p").then().on(Method::Extension("another".into()), h);
            r.build().path(":v").then().on(Method::Extension("yet another".into()), h);
            r.build().path("*v").then().on(known, h);
            serve(leaked(plain_server(r)), &text)
        }
        _ => serve(leaked(plain_server(h)), &text),
    };
    #[allow(static_mut_refs)]
    let t = unsafe { TOLD.take() };
    check(s.parsed, "a valid request is read");
    let a = answer(&s);
    check(a.status == 200, "the request is answered");
    match t {
        Some(t) => {
            cover("a handler is told about its request");
            out(1, t.method.as_bytes());
            check(same(t.method.as_bytes(), &method), "the method is the one that was sent");
            check(t.raw.len() == 1 && same(&t.raw[0], &value), "headers have the values that were sent");
            check(t.count == 3, "there are the headers that were sent");
            check(same(&t.rest[0], b"/p") && same(&t.rest[1], b"1"), "path and query are the ones that were sent");
            check(same(&t.rest[2], &[body]), "the body is the one that was sent");
            check(t.version == version, "the version is the one that was sent");
            check(t.peer, "the address is the client's");
            let p = std::str::from_utf8(&port).unwrap().parse::<u16>().ok();
            let name = if param(0) == 3 { &absolute[..] } else { b"h" };
            check(t.host.map_or(false, |(h, q)| same(h.as_bytes(), name) && q == p), "the host is the one that was sent");
        }
        None => check(false, "the handler is reached"),
    }
    check(s.close == (version == 10), "old clients do not expect to keep the connection");
}

/// Silences the unused import when a feature is off.
#[allow(dead_code)]
fn unused(w: &mut dyn Write) {
    let _ = w.flush();
    let _: &() = leak(());
}
