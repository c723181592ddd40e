//! C18 path checks, C19 global data, C20 host addresses, C21 files and their types, C22 what can be sent, C25 links.
use crate::net::*;
use crate::p_resp::{get, note, Act};
use crate::vx::*;
use rustful::context::MaybeUtf8Owned;
use rustful::context::hypermedia::{Link, LinkSegment, SegmentType};
use rustful::file::{check_path, ext_to_mime};
use rustful::response::FileError;
use rustful::server::{Global, Host};
use rustful::{Context, CreateContent, Method, Response, SendResponse, StatusCode};
use std::cmp::Ordering;
use std::ffi::OsStr;
use std::io::{self, Write};
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::os::unix::ffi::OsStrExt;
use std::path::{Component, Path, PathBuf};

// ---- C18

/// The pieces between slashes.
fn pieces(p: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut cur = vec![];
    for b in p {
        if *b == b'/' {
            out.push(cur);
            cur = vec![];
        } else {
            cur.push(*b);
        }
    }
    out.push(cur);
    out
}

/// params: length, 0 any byte / 1 only '.', '/' and one letter
#[no_mangle]
pub extern "C" fn vx_check_path() {
    let p = bytes(param(0));
    if param(1) == 1 {
        for b in &p {
            assume(one_of(*b, b"./a"));
        }
    }
    let path = Path::new(OsStr::from_bytes(&p));
    let got = check_path(path);
    let ps = pieces(&p);
    let rooted = !p.is_empty() && p[0] == b'/';
    let up = ps.iter().any(|x| same(x, b".."));
    out(1, &[rooted as u8, up as u8]);
    match got {
        Ok(()) => {
            check(!rooted && !up, "an accepted path stays below its directory");
            // walking the path never leaves the directory it starts in
            let mut depth = 0usize;
            for x in &ps {
                if same(x, b"..") {
                    check(depth > 0, "an accepted path never climbs out");
                    depth -= 1;
                } else if !x.is_empty() && !same(x, b".") {
                    depth += 1;
                }
            }
            if depth > 1 {
                cover("a nested path is accepted");
            }
        }
        Err(Component::RootDir) => {
            cover("an absolute path is rejected");
            check(rooted, "only absolute paths are rejected for their root");
        }
        Err(Component::ParentDir) => {
            cover("a parent directory is rejected");
            check(!rooted && up, "only parent directories are rejected as such");
        }
        Err(_) => check(false, "nothing else is rejected"),
    }
}

/// One arbitrary component among others. params: number of components, bytes of the arbitrary one
#[no_mangle]
pub extern "C" fn vx_check_long_path() {
    let n = param(0);
    let at = pick(n);
    let mut p = vec![];
    let w = bytes(param(1));
    for i in 0..n {
        if i > 0 {
            p.push(b'/');
        }
        if i == at {
            p.extend_from_slice(&w);
        } else {
            p.extend_from_slice([&b"a"[..], b"bc", b"."][i % 3]);
        }
    }
    let got = check_path(Path::new(OsStr::from_bytes(&p)));
    let rooted = !p.is_empty() && p[0] == b'/';
    let up = pieces(&p).iter().any(|x| same(x, b".."));
    out(1, &[rooted as u8, up as u8]);
    if up && at + 1 == n && n > 3 {
        cover("a parent directory at the end of a long path");
    }
    match got {
        Ok(()) => check(!rooted && !up, "an accepted path stays below its directory"),
        Err(c) => check(
            match c {
                Component::RootDir => rooted,
                Component::ParentDir => up && !rooted,
                _ => false,
            },
            "a path is rejected for what is wrong with it",
        ),
    }
}

// ---- C19

#[derive(PartialEq, Clone)]
struct A(u8);
#[derive(PartialEq, Clone)]
struct B(u64);
#[derive(PartialEq, Clone)]
struct C(Vec<u8>);
#[derive(PartialEq, Clone)]
struct D;
#[derive(PartialEq, Clone)]
struct A2(u8);

/// params: number of operations
#[no_mangle]
pub extern "C" fn vx_global() {
    let (a, b, c) = (A(byte()), B(u64sym()), C(bytes(2)));
    let (mut ma, mut mb, mut mc, mut md, mut mu) = (None, None, None, None, None);
    let mut g: Global = match pick(11) {
        0 => ().into(),
        1 => Global::default(),
        2 => {
            ma = Some(a.clone());
            Box::new(a).into()
        }
        3 => {
            mb = Some(b.clone());
            (b,).into()
        }
        4 => {
            ma = Some(a.clone());
            mc = Some(c.clone());
            (a, c).into()
        }
        5 => {
            ma = Some(a.clone());
            mb = Some(b.clone());
            mc = Some(c.clone());
            (c, a, b).into()
        }
        6 => {
            mb = Some(b.clone());
            md = Some(D);
            (b, D).into()
        }
        8 => {
            mu = Some(());
            Box::new(()).into()
        }
        9 => {
            // as many as there can be
            ma = Some(a.clone());
            mb = Some(b.clone());
            mc = Some(c.clone());
            md = Some(D);
            (1i8, a, 2i16, b, 3i32, c, 4i64, D, 5u32, "6", 7u8, A2(8)).into()
        }
        7 => {
            // the last one of a type counts
            ma = Some(A(9));
            (a, A(9)).into()
        }
        _ => {
            md = Some(D);
            Box::new(D).into()
        }
    };
    for _ in 0..param(0) {
        match pick(5) {
            0 => {
                let v = A(byte());
                let old = g.insert(v.clone());
                if old.is_some() {
                    cover("a value is replaced");
                }
                check(old == ma, "inserting returns the old value of the type");
                ma = Some(v);
            }
            1 => {
                let v = B(u64sym());
                check(g.insert(v.clone()) == mb, "inserting returns the old value of the type");
                mb = Some(v);
            }
            2 => {
                let v = C(bytes(2));
                check(g.insert(v.clone()) == mc, "inserting returns the old value of the type");
                mc = Some(v);
            }
            3 => {
                check(g.insert(()) == mu, "inserting returns the old value of the type");
                mu = Some(());
            }
            _ => {
                check(g.insert(D) == md, "inserting returns the old value of the type");
                md = Some(D);
            }
        }
    }
    let n = ma.is_some() as u64 + mb.is_some() as u64 + mc.is_some() as u64 + md.is_some() as u64;
    out_n(1, n);
    if n > 2 {
        cover("several values");
    }
    check(g.get::<A>() == ma.as_ref(), "a value is found by its type");
    check(g.get::<B>() == mb.as_ref(), "a value is found by its type");
    check(g.get::<C>() == mc.as_ref(), "a value is found by its type");
    check(g.get::<D>() == md.as_ref(), "a value is found by its type");
    check(g.get::<()>() == mu.as_ref(), "a value is found by its type");
    check(g.get::<u128>().is_none(), "a type that was not inserted is not found");
}

// ---- C20

#[no_mangle]
pub extern "C" fn vx_host() {
    let p = u16::from_le_bytes([byte(), byte()]);
    let q = u16::from_le_bytes([byte(), byte()]);
    let ip = bytes(4);
    let v4 = Ipv4Addr::new(ip[0], ip[1], ip[2], ip[3]);
    let s: Vec<u16> = (0..8).map(|_| u16::from_le_bytes([byte(), byte()])).collect();
    let v6 = Ipv6Addr::new(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    let (flow, scope) = (u64sym() as u32, u64sym() as u32);
    let a4 = SocketAddrV4::new(v4, p);
    let a6 = SocketAddrV6::new(v6, p, flow, scope);
    let (mut h, want): (Host, SocketAddr) = match pick(8) {
        0 => (Host::any_v4(p), SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(0, 0, 0, 0), p))),
        1 => (p.into(), SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(0, 0, 0, 0), p))),
        2 => (SocketAddr::V4(a4).into(), SocketAddr::V4(a4)),
        3 => (SocketAddr::V6(a6).into(), SocketAddr::V6(a6)),
        4 => (a4.into(), SocketAddr::V4(a4)),
        5 => (a6.into(), SocketAddr::V6(a6)),
        6 => ((v4, p).into(), SocketAddr::V4(a4)),
        _ => {
            let d = bytes(2);
            assume((d[0] >= b'1') & (d[0] <= b'9') & (d[1] >= b'0') & (d[1] <= b'9'));
            let n = (d[0] - b'0') as u16 * 10 + (d[1] - b'0') as u16;
            let t = format!("127.0.0.1:{}{}", d[0] as char, d[1] as char);
            match t.parse::<Host>() {
                Ok(h) => (h, SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(127, 0, 0, 1), n))),
                Err(_) => return check(false, "an address can be parsed"),
            }
        }
    };
    let got: SocketAddr = h.into();
    check(got == want, "a host is the address it was made from");
    h.port(q);
    let got: SocketAddr = h.into();
    out_n(1, got.port() as u64);
    let mut moved = want;
    moved.set_port(q);
    if let (SocketAddr::V6(_), true) = (want, p != q) {
        cover("the port of a version 6 address is changed");
    }
    check(got == moved, "changing the port changes nothing else");
    let back: Host = got.into();
    check(back == h, "a host can be made from its address again");
}

/// Text is a host exactly when it is a socket address. params: length
#[no_mangle]
pub extern "C" fn vx_host_text() {
    let b = bytes(param(0));
    for x in &b {
        assume(one_of(*x, b"0179.: \n+["));
    }
    // the arbitrary characters behind, before or inside an address
    let t = match param(1) {
        0 => [&b"1.2.3.4"[..], &b].concat(),
        1 => [&b[..], b"1.2.3.4:80"].concat(),
        2 => [&b"1.2.3.4:80"[..], &b].concat(),
        _ => [&b"[::1]"[..], &b, b"8"].concat(),
    };
    let t = std::str::from_utf8(&t).unwrap();
    let got: Result<Host, _> = t.parse();
    let want: Result<SocketAddr, _> = t.parse();
    out(1, &[got.is_ok() as u8]);
    if got.is_ok() {
        cover("a text is an address");
    }
    check(got.map(|h| h.into()).ok() == want.ok(), "a text is a host exactly when it is an address");
}

// ---- C21

static TABLE: &str = include_str!("/repo/build/apache/mime.types");
fn table() -> Vec<(&'static [u8], &'static [u8])> {
    let mut out = vec![];
    for line in TABLE.as_bytes().split(|b| *b == b'\n') {
        if line.is_empty() || line[0] == b'#' {
            continue;
        }
        let mut f = line.split(|b| *b == b'\t').filter(|x| !x.is_empty());
        if let (Some(ty), Some(exts)) = (f.next(), f.next()) {
            for e in exts.split(|b| *b == b' ') {
                out.push((e, ty));
            }
        }
    }
    out
}

/// Any short extension has the type the table gives it, or none. params: length
#[no_mangle]
pub extern "C" fn vx_mime() {
    let e = bytes(param(0));
    for b in &e {
        assume((*b < 0x80) & if param(1) == 1 { (*b >= b'a') & (*b <= b'z') } else { true });
    }
    let text = std::str::from_utf8(&e).unwrap();
    let table: Vec<_> = table().into_iter().filter(|x| x.0.len() == e.len()).collect();
    let got = ext_to_mime(text).map(|m| m.to_string());
    let mut known = false;
    let mut right = false; // an extension may stand in several lines
    for (ext, ty) in table {
        let hit = same(ext, &e);
        known |= hit;
        right |= hit & got.as_ref().map(|g| g.as_bytes() == ty).unwrap_or(false);
    }
    out(1, got.as_ref().map(|g| g.as_bytes()).unwrap_or(b""));
    if got.is_some() {
        cover("a known extension");
    } else {
        cover("an unknown extension");
    }
    check(known == got.is_some(), "an extension is known exactly when the table has it");
    check(right | !known, "an extension has the type of the table");
}

/// Files as responses. params: 0 a path / 1 an owned path / 2 an opened file / 3 with a type chosen by the handler,
/// length of the file, index of the name
#[no_mangle]
pub extern "C" fn vx_file_response() {
    static NAMES: [(&str, &str); 8] = [
        ("/v/a.txt", "text/plain"),
        ("/v/a.mp4", "video/mp4"),
        ("/v/a.tar.gz", "application/octet-stream"),
        ("/v/a", "application/octet-stream"),
        ("/v/a.unknown", "application/octet-stream"),
        ("/v/.html", "application/octet-stream"),
        ("/v.css/a.js", "application/javascript"),
        ("/v/a.png", "image/png"),
    ];
    let how = param(0);
    let (name, ty) = NAMES[param(2)];
    let data = if param(1) > 8 { crate::p_resp::large(param(1)) } else { bytes(param(1)) };
    let state = pick(5); // there, missing, forbidden, another failure, a directory
    let ending = pick(5);
    if state != 1 {
        file(name, &data, [0, 0, 13, 5, 0x100][state]);
    }
    let status = [StatusCode::Ok, StatusCode::Accepted][pick(2)];
    note().clear();
    fn finish(r: Result<(), FileError>, ending: usize) {
        match ending {
            0 => note().push(r.is_ok() as u64),
            1 => note().push(r.or_else(|e| e.send_not_found("gone")).is_ok() as u64),
            2 => {
                let x = r.or_else(|e| e.send_not_found("gone")).or_else(|e| e.ignore_send_error());
                note().push(x.is_ok() as u64);
                if let Err((_, mut r)) = x {
                    r.set_status(StatusCode::Forbidden);
                }
            }
            _ => match r {
                Ok(()) => note().push(1),
                Err(e) => {
                    note().push(0);
                    if let Ok(mut r) = e.recover_response() {
                        r.set_status(StatusCode::BadGateway);
                        r.send("sorry");
                    }
                }
            },
        }
    }
    let server = leaked(plain_server(Act(move |_: Context, mut r: Response| {
        r.set_status(status);
        match how {
            0 if ending == 4 => {
                r.send(Path::new(name));
                note().push(2);
            }
            1 if ending == 4 => {
                r.send(PathBuf::from(name));
                note().push(2);
            }
            0 => finish(r.try_send(Path::new(name)), ending),
            1 => finish(r.try_send(PathBuf::from(name)), ending),
            2 => match std::fs::File::open(name) {
                Ok(f) => finish(r.try_send(f), ending),
                Err(_) => note().push(3),
            },
            _ => finish(r.send_file_with_mime(name, |e| if e == "txt" { Some("a/b".parse().unwrap()) } else { ext_to_mime(e) }), ending),
        }
    })));
    let s = serve(server, &get());
    let a = answer(&s);
    out(1, &a.body);
    out_n(2, a.status as u64);
    let sent = a.header("content-type");
    check(sent.len() == 1, "there is one content type");
    if state == 0 {
        cover("a file is sent");
        check(note()[0] == 1 || note()[0] == 2, "sending a file succeeds");
        check(a.status == status.to_u16(), "a file is sent with the status that was set");
        check(a.length == Some(data.len() as u64) && same(&a.body, &data), "a file is sent as it is");
        let want = if how == 3 && param(2) == 0 { "a/b" } else { ty };
        if how != 2 {
            check(sent[0] == want.as_bytes(), "a file has the type of its extension");
        }
        return;
    }
    if how == 2 && state != 4 {
        return;
    }
    cover(if state == 4 { "a directory is no file" } else { "a file cannot be opened" });
    let st = status.to_u16();
    let want: (u16, &[u8], u64) = match (ending, state) {
        (0, _) => (st, b"", 0),
        (1, 1) | (2, 1) => (404, b"gone", 1),
        (1, _) => (st, b"", 0),
        (2, _) => (403, b"", 0),
        (3, _) => (502, b"sorry", 0),
        (_, 1) if how < 2 => (404, b"", 2),
        (_, _) if how < 2 => (500, b"", 2),
        _ => (502, b"sorry", 0),
    };
    check(note()[0] == want.2, "a failure is reported");
    check(sent[0] == b"text/html; charset=utf-8", "a response that is no file has the server's content type");
    check(a.status == want.0 && same(&a.body, want.1), "the response can be recovered when a file cannot be opened");
}

/// C21. Something goes wrong once a file is open. params: 0 a path / 2 an opened file / 3 with a type chosen by the handler,
/// length of the file, fault: 0 reading fails / 1 it is longer or shorter than it said; C15: the next request on the connection
#[no_mangle]
pub extern "C" fn vx_file_faults() {
    let how = param(0);
    let n = param(1);
    let data = bytes(n);
    let at = pick(n + 3);
    let (code, said, there) = if param(2) == 0 {
        assume(at < n);
        (0x200, n, at)
    } else {
        (0x400, at, n.min(at))
    };
    file("/v/a.txt", &data, code | (at as i32) << 16);
    note().clear();
    let server = leaked(plain_server(Act(move |c: Context, r: Response| {
        if c.uri_path.as_path().map(|p| p.as_bytes() == b"/b").unwrap_or(false) {
            return r.send("next");
        }
        let ok = match how {
            0 => r.try_send(Path::new("/v/a.txt")).is_ok(),
            2 => match std::fs::File::open("/v/a.txt") {
                Ok(f) => r.try_send(f).is_ok(),
                Err(_) => return check(false, "the file is there"),
            },
            _ => r.send_file_with_mime("/v/a.txt", ext_to_mime).is_ok(),
        };
        note().push(ok as u64);
    })));
    let mut second = get();
    second.splice(4..5, b"/b".iter().cloned());
    let all = serve_all(server, vec![get(), second], true, 2, None);
    let head = (4..all[0].out.len() + 1).find(|i| &all[0].out[i - 4..*i] == b"\r\n\r\n");
    let (head, body) = match head {
        Some(h) => (&all[0].out[..h], &all[0].out[h..]),
        None => return check(false, "the response has a head"),
    };
    let a = match parse(&[head, &vec![0u8; said]].concat(), false) {
        Some(a) => a,
        None => return check(false, "the head is well-formed"),
    };
    out_n(1, note()[0]);
    check(a.status == 200 && a.length == Some(said as u64), "the length is what the file said it is");
    check(same(body, &data[..there]), "what can be read of the file is sent, and never more than announced");
    check((note()[0] == 1) == (there == n && there == said), "a file that is not sent as it is, is an error");
    if there < said {
        cover("a file ends too early");
        check(all.len() == 1 && all[0].close, "nothing follows an incomplete file on its connection");
    } else {
        check(all.len() == 2 && all[1].parsed && same(&answer(&all[1]).body, b"next"), "the next request is answered");
        if n > said {
            cover("a file is longer than it said");
        }
    }
}

// ---- C22

fn kinds() -> [(io::ErrorKind, u16); 3] {
    [(io::ErrorKind::NotFound, 404), (io::ErrorKind::PermissionDenied, 0), (io::ErrorKind::Other, 0)]
}
fn send_as<T>(make: impl Fn() -> T + 'static, status: u16, want_status: u16, want_body: &[u8])
where
    T: for<'a, 'b> SendResponse<'a, 'b> + 'static,
{
    let make = std::rc::Rc::new(make);
    let tried = flag();
    let m = make.clone();
    let server = leaked(plain_server(Act(move |_: Context, mut r: Response| {
        r.set_status(StatusCode::from_u16(status));
        if tried {
            if r.try_send(m()).is_err() {
                note().push(9);
            }
        } else {
            r.send(m());
        }
    })));
    note().clear();
    let s = serve(server, &get());
    let a = answer(&s);
    out(1, &a.body);
    check(note().is_empty(), "sending succeeds");
    check(a.status == want_status, "the status says what was sent");
    check(same(&a.body, want_body), "the body is what was sent");
}

/// params: kind
#[no_mangle]
pub extern "C" fn vx_send_as() {
    let b = bytes(2);
    let e = bytes(1);
    assume((e[0] >= 0x20) & (e[0] < 0x7f));
    let es = String::from_utf8(e.clone()).unwrap();
    let st = [200u16, 202, 403][pick(3)];
    let (k, ks) = kinds()[pick(3)];
    let desc = es.clone();
    let err = move || io::Error::new(k, desc.clone());
    let or = |d: u16| if ks == 0 { d } else { ks };
    let c = b.clone();
    match param(0) {
        0 => send_as(move || Some(c.clone()), st, st, &b),
        1 => send_as(move || None::<Vec<u8>>, st, 404, b""),
        2 => {
            cover("a success is sent");
            send_as(move || Ok::<_, String>(c.clone()), st, 200, &b)
        }
        3 => {
            cover("an error is sent");
            send_as(move || Err::<Vec<u8>, _>(es.clone()), st, 500, &e)
        }
        4 => send_as(move || err(), st, or(st), &e),
        5 => {
            if ks == 404 {
                cover("an error that means not found is sent");
            }
            send_as(move || Err::<Vec<u8>, _>(err()), st, or(500), &e)
        }
        6 => send_as(move || Ok::<_, io::Error>(Some(c.clone())), st, 200, &b),
        7 => send_as(move || Ok::<_, io::Error>(None::<Vec<u8>>), st, 404, b""),
        8 => send_as(move || Some(Err::<Vec<u8>, _>(err())), st, or(500), &e),
        9 => send_as(move || Some(Some(c.clone())), st, st, &b),
        10 => send_as(move || Some(None::<Vec<u8>>), st, 404, b""),
        11 => send_as(move || Err::<Vec<u8>, _>(None::<String>), st, 404, b""),
        _ => send_as(move || Ok::<Result<Vec<u8>, String>, String>(Err(es.clone())), st, 500, &e),
    }
}

/// Handlers made of functions, shared and boxed handlers, and content factories all behave like the handler.
/// params: kind
#[no_mangle]
pub extern "C" fn vx_handlers() {
    use rustful::handler::HandleRequest;
    use rustful::{ContentFactory, Handler, OrElse};
    use std::sync::Arc;
    use rustful::handler::Environment;
    /// Sets a status before the handler is asked.
    struct Before<R>(StatusCode, R);
    impl<R: HandleRequest> HandleRequest for Before<R> {
        fn handle_request<'a, 'b, 'l, 'g>(&self, mut e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
            e.response.set_status(self.0);
            self.1.handle_request(e)
        }
        fn hyperlinks<'a>(&'a self, base: rustful::context::hypermedia::Link<'a>) -> Vec<rustful::context::hypermedia::Link<'a>> {
            self.1.hyperlinks(base)
        }
    }
    static mut BEFORE: u16 = 200;
    fn ask<R: HandleRequest + 'static>(r: R, v: u8) -> (u16, Vec<u8>) {
        let r = Before(StatusCode::from_u16(unsafe { BEFORE }), r);
        let s = serve(leaked(plain_server(r)), &request("GET", &[b'/', v], &[("Host", b"h")], b""));
        let a = answer(&s);
        (a.status, a.body)
    }
    struct Fac(u8);
    impl CreateContent for Fac {
        type Output = Result<Vec<u8>, String>;
        fn create_content(&self, c: Context) -> Self::Output {
            let mut b = c.uri_path.as_path().unwrap().as_bytes().to_vec();
            b.push(self.0);
            if b[1] < b'm' {
                Ok(b)
            } else {
                Err("bad".to_string())
            }
        }
    }
    fn h(c: Context, r: Response) {
        let mut b = c.uri_path.as_path().unwrap().as_bytes().to_vec();
        b.push(b'!');
        r.send(b)
    }
    fn content(c: Context) -> Vec<u8> {
        let mut b = c.uri_path.as_path().unwrap().as_bytes().to_vec();
        b.push(b'!');
        b
    }
    let before = [200, 201, 404, 405, 503][pick(5)];
    unsafe { BEFORE = before }
    let v = byte();
    assume((v >= b'a') & (v <= b'z'));
    let f: fn(Context, Response) = h;
    let (st, body) = match param(0) {
        0 => ask(f, v),
        1 => ask(Arc::new(f), v),
        2 => ask(Box::new(f) as Box<dyn Handler>, v),
        3 => ask(Some(f), v),
        4 => ask(None::<fn(Context, Response)>, v),
        5 => ask(ContentFactory(Fac(b'!')), v),
        6 => {
            let mut r = rustful::handler::TreeRouter::<Option<ContentFactory<Fac>>>::new();
            r.build().on_path("/:x", Fac(b'!'));
            ask(r, v)
        }
        7 => ask(Arc::new(Arc::new(f)), v),
        8 => ask(ContentFactory(content as fn(Context) -> Vec<u8>), v),
        9 => ask(OrElse::new(ContentFactory(Fac(b'!')), Some(f)), v),
        10 => ask(OrElse::new(None::<fn(Context, Response)>, ContentFactory(content as fn(Context) -> Vec<u8>)), v),
        11 => ask(OrElse::new(None::<fn(Context, Response)>, ContentFactory(Fac(b'!'))), v),
        12 | 13 => {
            let mut r = rustful::DefaultRouter::<ContentFactory<Fac>>::new();
            r.build().path("/:x").then().on_get(Fac(if param(0) == 12 { b'!' } else { b'?' }));
            if param(0) == 13 {
                let mut other = rustful::DefaultRouter::<ContentFactory<Fac>>::new();
                other.build().path("/:y").then().on_get(Fac(b'!'));
                r.build().merge(other);
            }
            ask(r, v)
        }
        14 => {
            use rustful::handler::{StatusRouter, TreeRouter};
            let mut r = TreeRouter::<TreeRouter<Option<ContentFactory<Fac>>>>::new();
            r.build().on_path("/:x", Fac(b'!'));
            let errors = StatusRouter::<ContentFactory<Fac>>::new();
            ask(OrElse::new(r, errors), v)
        }
        15 => {
            let all: rustful::DefaultRouter<ContentFactory<Fac>> = vec![(rustful::Method::Get, "/:x", Fac(b'!')), (rustful::Method::Post, "/:x", Fac(b'?'))].into_iter().collect();
            ask(all, v)
        }
        _ => {
            // a router of factories lists them
            struct Linked;
            impl CreateContent for Linked {
                type Output = Vec<u8>;
                fn create_content(&self, c: Context) -> Self::Output {
                    let mut b = c.uri_path.as_path().unwrap().as_bytes().to_vec();
                    for l in &c.hyperlinks {
                        let mut p: Vec<u8> = vec![];
                        for s in &l.path {
                            p.extend_from_slice(s.label.as_bytes());
                        }
                        if l.handler.is_none() && p == b"z" {
                            b.push(b'!');
                        }
                    }
                    b
                }
            }
            let mut r = rustful::DefaultRouter::<ContentFactory<Linked>>::new();
            r.find_hyperlinks = true;
            r.build().path("/:x").then().on_get(Linked);
            r.build().path("/:x/z").then().on_put(Linked);
            ask(r, v)
        }
    };
    out(1, &body);
    match param(0) {
        4 => check(st == 404 && body.is_empty(), "no handler is not found"),
        5 | 6 | 9 | 11..=15 if v >= b'm' => {
            cover("a factory fails");
            check(st == 500 && same(&body, b"bad"), "what a factory creates is sent")
        }
        _ => {
            cover("a handler answers");
            let want = if [5, 6, 9, 11, 12, 13, 14, 15].contains(&param(0)) {
                200
            } else if param(0) == 10 {
                // a fallback is told what went wrong before
                404
            } else {
                before
            };
            check(st == want && same(&body, &[b'/', v, b'!']), "the handler answers")
        }
    }
}

/// Mocked responses accept what real ones accept. params: body length
#[no_mangle]
pub extern "C" fn vx_mock() {
    let g: &'static Global = crate::util::leak(Global::default());
    let b = bytes(param(0));
    let mut r = Response::mock(g);
    check(r.status().to_u16() == 200, "a mock starts as a success");
    r.set_status(StatusCode::Accepted);
    check(r.status().to_u16() == 202, "a mock keeps its status");
    let ok = match pick(5) {
        0 => r.try_send(&b[..]).is_ok(),
        1 => {
            let mut c = r.into_chunked();
            let x = c.try_send(&b[..]).map(|n| n == b.len()).unwrap_or(false);
            x && c.flush().is_ok() && c.end().is_ok()
        }
        2 => {
            let mut c = r.into_chunked();
            c.write_all(&b).is_ok() && c.end().is_ok()
        }
        3 => {
            let mut c = unsafe { r.into_raw(b.len() as u64) };
            c.try_send(&b[..]).is_ok() && c.end().is_ok()
        }
        _ => {
            drop(r);
            true
        }
    };
    cover("a mock accepts its content");
    out(1, &[ok as u8]);
    check(ok, "a mock accepts what a response accepts");
}

// ---- C25

/// `n` segments with labels of `len` bytes
fn link(n: usize, len: usize, form: usize) -> Link<'static> {
    let letters = |n: usize| {
        let b = bytes(n);
        for x in &b {
            assume(((*x | 0x20) >= b'a') & ((*x | 0x20) <= b'z'));
        }
        String::from_utf8(b).unwrap()
    };
    let method = match if form > 0 { form + 1 } else { pick(3) } {
        0 => None,
        3 => Some(Method::Extension(letters(6))),
        4 => Some(Method::Extension(letters(3))),
        5 => Some([Method::Delete, Method::Get, Method::Put, Method::Patch][pick(4)].clone()),
        1 => Some(letters(3).parse::<Method>().unwrap()),
        _ => Some(Method::Delete),
    };
    let path = (0..n)
        .map(|_| {
            let owned: &'static MaybeUtf8Owned = Box::leak(Box::new(MaybeUtf8Owned::from(bytes(len))));
            let label = owned.as_slice();
            let ty = match pick(3) {
                0 => SegmentType::Static,
                1 => SegmentType::VariableSegment,
                _ => SegmentType::VariableSequence,
            };
            LinkSegment { label, ty }
        })
        .collect();
    Link { method, path, handler: None }
}
fn handled(l: &Link<'static>) -> Link<'static> {
    static H: crate::util::H = crate::util::H(1);
    let mut l = l.clone();
    l.handler = Some(&H);
    l
}

/// params: segments of three links (9: only two), what labels are longer by, forms of methods
#[no_mangle]
pub extern "C" fn vx_links() {
    let (a, b) = (link(param(0), 1 + param(3) / 4, param(5)), link(param(1), 1 + param(3) % 4, param(6)));
    let o = a.cmp(&b);
    check(a.partial_cmp(&b) == Some(o), "the partial order is the order");
    check(b.cmp(&a) == o.reverse(), "the order is antisymmetric");
    check((a == b) == (o == Ordering::Equal), "links are equal exactly when neither comes first");
    check(a.cmp(&a) == Ordering::Equal && a == a, "a link equals itself");
    let h = handled(&a);
    check(h == a && h.cmp(&b) == o, "the handler does not matter");
    if a == b {
        cover("two links are equal");
    }
    match (&a.method, &b.method) {
        (None, Some(_)) => check(o == Ordering::Less, "links without a method come first"),
        (Some(x), Some(y)) if !same(x.as_ref().as_bytes(), y.as_ref().as_bytes()) => check(o == x.as_ref().cmp(y.as_ref()), "links are ordered by method first"),
        (Some(_), None) => check(o == Ordering::Greater, "links without a method come first"),
        _ => {
            cover("links are ordered by their paths");
            let key = |l: &Link| l.path.iter().map(|s| (s.label.as_bytes().to_vec(), s.ty.clone())).collect::<Vec<_>>();
            check(o == key(&a).cmp(&key(&b)), "links with one method are ordered by their paths")
        }
    }
    if param(2) < 9 {
        let c = link(param(2), 1 + param(4), 0);
        if o != Ordering::Greater && b.cmp(&c) != Ordering::Greater {
            cover("three links in order");
            check(a.cmp(&c) != Ordering::Greater, "the order is transitive");
        }
    }
}
