//! C28: responses start from the server's configuration; content types say what was written.
use crate::net::*;
use crate::p_resp::{get, note, passing, Act};
use crate::vx::*;
use hyper::header::ContentType;
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::mime::{Attr, Mime, SubLevel, TopLevel, Value};
use rustful::response::Data;
use rustful::server::{Global, Host, ServerInstance};
use rustful::{content_type, Context, Response, Server, StatusCode};
use std::net::SocketAddr;

const DATE: &[u8] = b"Tue, 14 Nov 2023 22:13:20 GMT";

/// `n` ASCII characters, visible ones on the outside.
fn visible(n: usize) -> Vec<u8> {
    let b = bytes(n);
    for (i, x) in b.iter().enumerate() {
        assume((*x >= 0x20) & (*x < 0x7f) & ((*x != b' ') | ((i > 0) & (i + 1 < n))));
    }
    b
}
fn text(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap()
}
fn mark(g: &Global) -> u64 {
    g.get::<u16>().map_or(1 << 32, |x| *x as u64)
}
/// Notes the global data it sees.
struct Looks;
impl ResponseFilter for Looks {
    fn begin(&self, c: FilterContext, s: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) {
        note().push(mark(c.global));
        (s, ResponseAction::next(None::<Vec<u8>>))
    }
    fn write<'a>(&'a self, _: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        ResponseAction::next(content)
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        ResponseAction::next(None::<Vec<u8>>)
    }
}

/// A configured server, and what its handler leaves of it. params: bytes of the server's name, of the subtype of the
/// default media type, how the response is sent (0 at once, 1 chunks, 2 declared length, 3 not at all), filters, 1: any
/// kind of request, with and without keep-alive
#[no_mangle]
pub extern "C" fn vx_configured() {
    let name = visible(param(0));
    let sub = visible(param(1));
    for b in &sub {
        // what a media type is made of, in the case it is written in
        assume((*b >= b'a') & (*b <= b'z') | (*b >= b'0') & (*b <= b'9'));
    }
    let own = byte();
    assume((own > 0x20) & (own < 0x7f));
    let mode = param(2);
    // what the handler does: 0 nothing, 1 sets both, 2 removes both, 3 the other way in, 4 changes what is there
    let what = pick(5);
    let data = u16::from_le_bytes([byte(), byte()]);
    let how = if param(4) == 1 { 1 } else { pick(3) };
    note().clear();
    let handler = Act(move |c: Context, mut r: Response| {
        note().push(mark(c.global));
        match what {
            1 => {
                r.headers_mut().set(ContentType(Mime(TopLevel::Image, SubLevel::Png, vec![])));
                r.headers_mut().set(hyper::header::Server((own as char).to_string()));
            }
            2 => {
                r.headers_mut().remove::<ContentType>();
                r.headers_mut().remove_raw("sErVeR");
            }
            3 => {
                r.headers_mut().set_raw("content-TYPE", vec![vec![own]]);
                r.headers_mut().set_raw("server", vec![vec![own]]);
            }
            4 => {
                if let Some(t) = r.headers_mut().get_mut::<ContentType>() {
                    (t.0).2.push((Attr::Boundary, Value::Ext("b".into())));
                }
            }
            _ => {}
        }
        match mode {
            0 => r.send("x"),
            1 => {
                r.into_chunked().send("x");
            }
            2 => {
                unsafe { r.into_raw(1) }.send("x");
            }
            _ => {}
        }
    });
    let mut server = Server { server: text(&name), content_type: Mime(TopLevel::Application, SubLevel::Ext(text(&sub)), vec![(Attr::Charset, Value::Utf8)]), global: Box::new(data).into(), threads: Some(3), ..Server::new(handler) };
    for _ in 0..param(3) {
        server.response_filters.push(Box::new(Looks));
    }
    let mut request = get();
    let mut head = false;
    if param(4) == 1 {
        let method: &[u8] = [&b"GET"[..], b"HEAD", b"POST", b"DELETE", b"FOO"][pick(5)];
        let target: &[u8] = [&b"/"[..], b"/a/b?c=d#e", b"http://h/x"][pick(3)];
        let rest: &[u8] = [&b"\r\n"[..], b"Connection: close\r\nAccept: text/plain\r\n\r\n", b"Content-Length: 2\r\nContent-Type: a/b\r\n\r\nhi"][pick(3)];
        request = [method, b" ", target, b" HTTP/1.1\r\nHost: h\r\n", rest].concat();
        head = method == b"HEAD";
        server.keep_alive = [None, Some(0), Some(!0)][pick(3)].map(|n| rustful::server::KeepAlive { timeout: std::time::Duration::from_secs(3), free_threads: n });
        if head {
            cover("a request for a head");
        }
    }
    let server: &'static ServerInstance<_> = crate::util::leak(if how == 0 { server.build() } else { ServerInstance::new(server) });
    let s = serve(server, &request);
    // whether a body follows a head is not the matter here
    let a = if head { parse(&s.out, true).unwrap() } else { answer(&s) };
    for n in note().iter() {
        check(*n == data as u64, "handlers and filters see the server's data");
    }
    check(note().len() == 1 + if mode == 2 { 0 } else { param(3) }, "handlers and filters see the server's data");
    check(head || same(&a.body, if mode == 3 { b"" } else { b"x" }), "the body is what was sent");
    let default = [b"application/", &sub[..], b"; charset=utf-8"].concat();
    let (t, n) = (a.header("content-type"), a.header("server"));
    out_n(1, (t.len() * 2 + n.len()) as u64);
    let one = |h: &[&[u8]], v: &[u8]| h.len() == 1 && same(h[0], v);
    check(one(&a.header("date"), DATE), "the date is the one of the response");
    match what {
        1 => {
            cover("a handler replaces a default");
            check(one(&t, b"image/png") && one(&n, &[own]), "a header the handler set is sent as it was set");
        }
        2 => {
            cover("a handler removes a default");
            check(t.is_empty() && n.is_empty(), "a header the handler removed is not sent");
        }
        3 => check(one(&t, &[own]) && one(&n, &[own]), "a header the handler set is sent as it was set"),
        4 => {
            check(one(&t, &[&default[..], b"; boundary=b"].concat()), "a header the handler changed is sent as it is now");
            check(one(&n, &name), "the server is called what it was told");
        }
        _ => {
            cover("a handler leaves the defaults");
            check(one(&t, &default), "the default media type is the configured one");
            check(one(&n, &name), "the server is called what it was told");
        }
    }
}

/// The documented defaults, through both constructors, and a server name that tries to be more than a header. params: 0,
/// or the bytes of the name
#[no_mangle]
pub extern "C" fn vx_defaults() {
    #[derive(Default)]
    struct D;
    impl rustful::Handler for D {
        fn handle(&self, _: Context, r: Response) {
            r.send("x");
        }
    }
    let mut s: Server<D> = if flag() { Server::default() } else { Server::new(D) };
    let addr: SocketAddr = s.host.into();
    check(s.host == Host::any_v4(80) && addr.port() == 80 && addr.ip().is_unspecified(), "the default address is 0.0.0.0:80");
    check(s.threads.is_none() && s.keep_alive.is_none(), "threads and keep-alive are left open");
    check(s.context_filters.is_empty() && s.response_filters.is_empty() && s.global.get::<u16>().is_none(), "a new server has neither filters nor data");
    s.threads = Some(2);
    let n = param(0);
    let name = bytes(n);
    if n > 0 {
        for b in &name {
            assume((*b < 0x80) & (*b != b' '));
        }
        s.server = text(&name);
    }
    let a = answer(&serve(leaked(passing(s, 0)), &get()));
    check(a.status == 200 && same(&a.body, b"x"), "the body is what was sent");
    let t = a.header("content-type");
    check(t.len() == 1 && same(t[0], b"text/html; charset=utf-8"), "the default media type is HTML in UTF-8");
    let h = a.header("server");
    check(a.headers.len() == 4, "nothing but the standard headers");
    if n == 0 {
        cover("all defaults");
        check(h.len() == 1 && same(h[0], b"rustful"), "the default name is rustful");
    } else {
        let mut odd = false;
        for b in &name {
            odd |= one_of(*b, b"\r\n");
        }
        if odd {
            cover("a name that tries to be several headers");
        } else {
            check(h.len() == 1 && same(h[0], &name), "the server is called what it was told");
        }
        check(h.len() == 1, "a name is one header");
    }
    out_n(1, a.headers.len() as u64);
}

/// Media types made from text, at whatever place. params: bytes of the top level, the subtype, the attribute, the value
#[no_mangle]
pub extern "C" fn vx_content_type() {
    let token = |n: usize| {
        let b = bytes(n);
        for x in &b {
            assume((*x >= b'a') & (*x <= b'z') | (*x >= b'A') & (*x <= b'Z') | one_of(*x, b"-*08"));
        }
        text(&b)
    };
    let (top, sub, attr, value) = (token(param(0)), token(param(1)), token(param(2)), token(param(3)));
    let (t, s, a, v) = (&top[..], &sub[..], &attr[..], &value[..]);
    let plain: Mime = content_type!(t / s);
    let with: Mime = content_type!(t / s; a = v);
    let two: Mime = content_type!(Text / s; Charset = Utf8; a = "w");
    let known: Mime = content_type!(Image / "png"; "charset" = v);
    check(same(plain.to_string().as_bytes(), [t, "/", s].concat().as_bytes()), "a media type says what it was made of");
    check(same(with.to_string().as_bytes(), [t, "/", s, "; ", a, "=", v].concat().as_bytes()), "a parameter says what it was made of");
    check(same(two.to_string().as_bytes(), ["text/", s, "; charset=utf-8; ", a, "=w"].concat().as_bytes()), "parameters are in order");
    check(known.0 == TopLevel::Image && known.1 == SubLevel::Png, "known names are known");
    check(known.2.len() == 1 && (known.2[0].0) == Attr::Charset && same(known.2[0].1.as_str().as_bytes(), v.as_bytes()), "known names are known");
    check((plain.0 == TopLevel::Text) == (t == "text") && (plain.1 == SubLevel::Xml) == (s == "xml"), "known names are known");
    if plain.0 == TopLevel::Text {
        cover("a known name in text");
    }
    if with.2[0].1 == Value::Utf8 {
        cover("a known value in text");
    }
    out(1, with.to_string().as_bytes());
}

struct Stops(u16);
impl rustful::filter::ContextFilter for Stops {
    fn modify(&self, _: FilterContext, _: &mut Context) -> rustful::filter::ContextAction {
        if self.0 == 0 {
            rustful::filter::ContextAction::Next
        } else {
            rustful::filter::ContextAction::abort(StatusCode::from_u16(self.0))
        }
    }
}

/// Responses that no handler made. params: bytes of the server's name, filters
#[no_mangle]
pub extern "C" fn vx_unreached() {
    let name = visible(param(0));
    let stop = if flag() { 403 } else { 0 };
    let (line, status, plain): (&[u8], u16, bool) = [(&b"GET /x"[..], 404, true), (b"OPTIONS *", 200, true), (b"CONNECT h:1", 400, false), (b"GET http://h/x", 404, true), (b"GET x", 400, false)][pick(5)];
    let mut server = Server { server: text(&name), content_type: Mime(TopLevel::Image, SubLevel::Gif, vec![]), global: Box::new(7u16).into(), threads: Some(3), ..Server::new(rustful::DefaultRouter::<fn(Context, Response)>::new()) };
    server.context_filters.push(Box::new(Stops(stop)));
    for _ in 0..param(1) {
        server.response_filters.push(Box::new(Looks));
    }
    note().clear();
    let s = serve(leaked(server), &[line, b" HTTP/1.1\r\nHost: h\r\n\r\n"].concat());
    out(1, &[s.parsed as u8]);
    if !s.parsed {
        check(!plain, "a valid request is read");
        return;
    }
    let a = answer(&s);
    out_n(2, a.status as u64);
    check(!plain || a.status == if stop > 0 { stop } else { status } || (stop == 0 && a.status == 405), "the response says what happened");
    check(plain || (a.status >= 400 && a.status < 500), "a target that cannot be served is the client's mistake");
    check(a.body.is_empty() && a.length == Some(0), "a response that nobody made is empty");
    let (t, n) = (a.header("content-type"), a.header("server"));
    check(t.len() == 1 && same(t[0], b"image/gif"), "the default media type is the configured one");
    check(n.len() == 1 && same(n[0], &name), "the server is called what it was told");
    check(a.header("date").len() == 1 && same(a.header("date")[0], DATE), "the date is the one of the response");
    check(note().len() == param(1) && note().iter().all(|n| *n == 7), "handlers and filters see the server's data");
    cover("a response that no handler made");
}

struct Refuses(u16);
impl rustful::handler::HandleRequest for Refuses {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut e: rustful::handler::Environment<'a, 'b, 'l, 'g>) -> Result<(), rustful::handler::Environment<'a, 'b, 'l, 'g>> {
        e.response.set_status(StatusCode::from_u16(self.0));
        e.response.headers_mut().set_raw("X-Left", vec![b"behind".to_vec()]);
        Err(e)
    }
    fn hyperlinks<'a>(&'a self, _: rustful::context::hypermedia::Link<'a>) -> Vec<rustful::context::hypermedia::Link<'a>> {
        vec![]
    }
}

/// C05. A request that nobody takes is answered with what was left behind, or as not found. params: 0 a router that leaves
/// any status behind, 1 nothing, 2 a router by method, 3 a router by status, 4 an either-or router; lowest status
#[no_mangle]
pub extern "C" fn vx_unanswered() {
    use rustful::handler::{MethodRouter, OrElse};
    type F = fn(Context, Response);
    fn never(_: Context, _: Response) {
        check(false, "a request that is refused reaches no handler");
    }
    let any = param(1) as u16 + pick(100) as u16;
    let (s, left) = match param(0) {
        0 => (serve(leaked(plain_server(Refuses(any))), &get()), any),
        1 => (serve(leaked(plain_server(None::<F>)), &get()), 404),
        2 => {
            let mut r = MethodRouter::<F>::new();
            r.insert("NEVER".parse().unwrap(), never);
            (serve(leaked(plain_server(r)), &get()), 405)
        }
        3 => {
            let mut r = rustful::StatusRouter::<F>::new();
            assume(any != 200);
            r.insert(StatusCode::from_u16(any), never);
            (serve(leaked(plain_server(r)), &get()), 200)
        }
        _ => {
            // the second one has the last word (an absent handler says: not found)
            let first = Refuses(any);
            let last = pick(2);
            let s = if last == 0 { serve(leaked(plain_server(OrElse { primary: first, secondary: None::<F> })), &get()) } else { serve(leaked(plain_server(OrElse { primary: first, secondary: Refuses(409) })), &get()) };
            (s, if last == 0 { 404 } else { 409 })
        }
    };
    let a = answer(&s);
    out_n(1, a.status as u64);
    if left == 200 {
        cover("nobody says anything about a request");
        check(a.status == 404, "a request that nobody takes is not found");
    } else {
        cover("a request is refused with a status");
        check(a.status == left, "a request that nobody takes is answered with the status left behind");
    }
    if param(0) == 0 {
        check(a.header("x-left").len() == 1, "the response is the one that was left behind");
    }
}
