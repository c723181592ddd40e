//! C07 request targets, C08 form data.
use crate::net::*;
use crate::util::leak;
use crate::vx::*;
use hyper::uri::RequestUri;
use rustful::context::{Parameters, UriPath};
use rustful::{Context, Response};

fn hex(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}
pub fn decode(s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'%' && i + 2 < s.len() {
            if let (Some(a), Some(b)) = (hex(s[i + 1]), hex(s[i + 2])) {
                out.push(a * 16 + b);
                i += 3;
                continue;
            }
        }
        out.push(s[i]);
        i += 1;
    }
    out
}
fn at(s: &[u8], c: u8) -> Option<usize> {
    s.iter().position(|b| *b == c)
}
fn cut(s: &[u8], c: u8) -> (Vec<u8>, Option<Vec<u8>>) {
    match at(s, c) {
        Some(i) => (s[..i].to_vec(), Some(s[i + 1..].to_vec())),
        None => (s.to_vec(), None),
    }
}
/// Form data: the last value of a name counts. Components without any character are ignored.
pub fn form(s: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut out: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut rest = Some(s.to_vec());
    while let Some(r) = rest {
        let (part, tail) = cut(&r, b'&');
        rest = tail;
        if part.is_empty() {
            continue;
        }
        let part: Vec<u8> = part.iter().map(|b| if *b == b'+' { b' ' } else { *b }).collect();
        let (name, value) = cut(&part, b'=');
        // everything after a second '=' is dropped (src/utils.rs, parsing_strange_parameters)
        let value = cut(&value.unwrap_or(vec![]), b'=').0;
        let (name, value) = (decode(&name), decode(&value));
        if let Some(p) = out.iter().position(|o| same(&o.0, &name)) {
            out[p].1 = value;
        } else {
            out.push((name, value));
        }
    }
    out
}
/// Compares parsed parameters with form data. A nameless parameter may stand for empty components.
pub fn check_params(p: &Parameters, want: &[(Vec<u8>, Vec<u8>)], empty: bool, id: &str) {
    let nameless = want.iter().any(|w| w.0.is_empty());
    if empty {
        for (k, v) in want {
            if !k.is_empty() {
                check(p.get_raw(&k[..]).map(|x| same(x.as_bytes(), v)).unwrap_or(false), id);
            }
        }
        let extra = if p.contains_key("") && !nameless { 1 } else { 0 };
        check(p.len() == want.len() + extra, id);
    } else {
        check(p.len() == want.len(), id);
        for (k, v) in want {
            check(p.get_raw(&k[..]).map(|x| same(x.as_bytes(), v)).unwrap_or(false), id);
        }
    }
}
pub fn has_empty(s: &[u8]) -> bool {
    let mut prev = b'&';
    for b in s {
        if *b == b'&' && prev == b'&' {
            return true;
        }
        prev = *b;
    }
    prev == b'&'
}

#[derive(Default)]
pub struct Seen {
    pub calls: usize,
    pub path: Option<Vec<u8>>,
    pub star: bool,
    pub query: Option<Parameters>,
    pub fragment: Option<Vec<u8>>,
    pub host: Option<(String, Option<u16>)>,
    pub utf8_ok: bool,
}
pub static mut SEEN: Option<Seen> = None;
fn look(context: Context, response: Response) {
    let mut s = Seen::default();
    s.calls = 1;
    s.utf8_ok = true;
    match context.uri_path {
        UriPath::Path(ref p) => {
            s.utf8_ok &= p.is_utf8() == std::str::from_utf8(p.as_bytes()).is_ok();
            s.path = Some(p.as_bytes().to_vec())
        }
        UriPath::Asterisk => s.star = true,
    }
    let p = &context.uri_path;
    s.utf8_ok &= p.is_path() != s.star && p.is_asterisk() == s.star;
    s.utf8_ok &= p.as_path().is_some() != s.star && p.as_utf8_path_lossy().is_some() != s.star;
    if let Some(ref b) = s.path {
        s.utf8_ok &= same(p.as_path().unwrap().as_bytes(), b);
        match std::str::from_utf8(b) {
            Ok(t) => {
                s.utf8_ok &= p.as_utf8_path().map(|u| same(u.as_bytes(), b)).unwrap_or(false);
                s.utf8_ok &= same(p.as_utf8_path_lossy().unwrap().as_bytes(), b);
                s.utf8_ok &= same(p.to_string().as_bytes(), t.as_bytes());
            }
            Err(_) => {
                s.utf8_ok &= p.as_utf8_path().is_none();
                let lossy = String::from_utf8_lossy(b);
                s.utf8_ok &= same(p.as_utf8_path_lossy().unwrap().as_bytes(), lossy.as_bytes());
                s.utf8_ok &= same(p.to_string().as_bytes(), lossy.as_bytes());
            }
        }
    }
    for (k, v) in context.query.iter() {
        s.utf8_ok &= k.is_utf8() == std::str::from_utf8(k.as_bytes()).is_ok();
        s.utf8_ok &= v.is_utf8() == std::str::from_utf8(v.as_bytes()).is_ok();
    }
    s.query = Some(context.query.clone());
    s.fragment = context.fragment.as_ref().map(|f| f.as_bytes().to_vec());
    s.host = context.headers.get::<hyper::header::Host>().map(|h| (h.hostname.clone(), h.port));
    unsafe { SEEN = Some(s) }
    response.send("seen");
}
#[allow(static_mut_refs)]
fn seen() -> Seen {
    unsafe { SEEN.take().unwrap_or_default() }
}

fn check_target(t: &[u8]) {
    let s = seen();
    check(s.calls == 1, "the handler sees the request");
    let (head, fragment) = cut(t, b'#');
    let (path, query) = cut(&head, b'?');
    let mut path = decode(&path);
    if path.is_empty() {
        path.push(b'/');
    }
    let fragment = fragment.map(|f| decode(&f));
    out(1, &path);
    check(s.path.map(|p| same(&p, &path)).unwrap_or(false), "the path is the decoded text before '?' and '#'");
    check(
        match (&s.fragment, &fragment) {
            (Some(a), Some(b)) => same(a, b),
            (None, None) => true,
            _ => false,
        },
        "the fragment is the decoded text after '#'",
    );
    check(s.utf8_ok, "text is marked as UTF-8 exactly when it is");
    let q = s.query.unwrap();
    match query {
        Some(text) => {
            check_params(&q, &form(&text), has_empty(&text), "the query holds the decoded parameters");
            if fragment.is_some() && q.len() > 1 {
                cover("path, parameters and fragment");
            }
        }
        None => check(q.len() == 0, "no query, no parameters"),
    }
    if path.len() < t.len() && !path.is_ascii() {
        cover("an encoded byte that is not ASCII");
    }
}

/// The target of a request as a string of `n` arbitrary ASCII characters after the slash. params: n, classes
#[no_mangle]
pub extern "C" fn vx_target() {
    let n = param(0);
    let mut t = vec![b'/'];
    t.extend_from_slice(&bytes(n));
    // an ordinary text of some length around it
    let fill = param(2);
    if fill > 0 {
        cover("a long target");
    }
    for (i, b) in t.iter().enumerate() {
        assume(*b < 0x80);
        if i > 0 && param(1) == 1 {
            // keeps '%' out of the way of longer texts
            assume(*b != b'%');
        }
        if i > 0 && param(1) == 2 {
            assume(one_of(*b, b"%2fF?#"));
        }
    }
    let server = leaked(plain_server(look as fn(Context, Response)));
    let t = [&t[..1], &vec![b'a'; fill], &t[1..], &vec![b'b'; fill]].concat();
    let text = String::from_utf8(t.clone()).unwrap();
    let s = serve_uri(server, &request("GET", b"/", &[("Host", b"h")], b""), RequestUri::AbsolutePath(text));
    let a = answer(&s);
    check(a.status == 200, "a readable request is answered by the handler");
    check_target(&t);
}

/// The whole way from the bytes of the request line. params: n
#[no_mangle]
pub extern "C" fn vx_request_line() {
    let n = param(0);
    let mut t = vec![b'/'];
    t.extend_from_slice(&bytes(n));
    for b in &t {
        // what may stand in a request line
        assume((*b > 0x20) & (*b < 0x7f));
    }
    let server = leaked(plain_server(look as fn(Context, Response)));
    let s = serve(server, &request("GET", &t, &[("Host", b"h")], b""));
    if !s.parsed {
        cover("the HTTP library refuses the target");
        check(s.out.is_empty(), "nothing is answered to an unreadable request");
        return;
    }
    let a = answer(&s);
    check(a.status == 200, "a readable request is answered by the handler");
    check_target(&t);
}

/// Targets in absolute form: scheme and authority, then path, query and fragment. params: n
#[no_mangle]
pub extern "C" fn vx_absolute() {
    let n = param(0);
    let tail = bytes(n);
    for b in &tail {
        assume(one_of(*b, b"a%/?#=&+4") );
    }
    let lead: &[u8] = [&b"/"[..], b"/#", b"/?", b"/%", b"/?a=%"][param(1)];
    let tail = [lead, &tail].concat();
    let mut t = b"http://x.y:81".to_vec();
    t.extend_from_slice(&tail);
    let server = leaked(plain_server(look as fn(Context, Response)));
    let s = serve(server, &request("GET", &t, &[("Host", b"other")], b""));
    let a = answer(&s);
    check(a.status == 200, "a readable request is answered by the handler");
    let host = unsafe { SEEN.as_ref().unwrap().host.clone() };
    check(host == Some(("x.y".to_string(), Some(81))), "the authority of the target is the host");
    cover("an absolute target");
    check_target(&tail);
}

/// Targets without a path. params: 0 '*', 1 authority form
#[no_mangle]
pub extern "C" fn vx_other_targets() {
    let server = leaked(plain_server(look as fn(Context, Response)));
    let m = ["OPTIONS", "GET", "CONNECT"][pick(3)];
    let t: &[u8] = if param(0) == 0 { b"*" } else { b"a.b:1" };
    let s = serve(server, &request(m, t, &[("Host", b"h")], b""));
    let a = answer(&s);
    out_n(1, a.status as u64);
    let seen = seen();
    check(seen.calls == 0, "no route is taken without a path");
    if param(0) == 1 {
        cover("authority form");
        check(a.status == 400, "an authority is a bad request");
    }
    check(a.body.is_empty(), "nothing was sent");
}

// ---- C08

pub fn bodied(t: &'static [u8]) -> Option<Parameters> {
    static mut GOT: Option<Parameters> = None;
    fn h(mut context: Context, response: Response) {
        let p = context.body.read_query_body();
        unsafe { GOT = p.ok() };
        response.send("");
    }
    let server = leaked(plain_server(h as fn(Context, Response)));
    let len = t.len().to_string();
    let r = request("POST", b"/", &[("Host", b"h"), ("Content-Length", len.as_bytes())], t);
    serve(server, &r);
    #[allow(static_mut_refs)]
    unsafe {
        GOT.take()
    }
}
pub fn queried(t: &[u8]) -> Option<Parameters> {
    let server = leaked(plain_server(look as fn(Context, Response)));
    let mut u = String::from("/?");
    u.push_str(&String::from_utf8(t.to_vec()).unwrap());
    serve_uri(server, &request("GET", b"/", &[], b""), RequestUri::AbsolutePath(u));
    seen().query
}

/// Any body is decoded as form data. params: n, classes
#[no_mangle]
pub extern "C" fn vx_form() {
    let t = bytes(param(0));
    if param(1) == 1 {
        for b in &t {
            assume(*b != b'%');
        }
    }
    if param(1) == 2 {
        for b in &t {
            assume(one_of(*b, b"%cC3=&+"));
        }
    }
    let mut t = t;
    if param(2) > 0 {
        cover("a long body");
        let fill = param(2);
        t = [&vec![b'a'; fill][..], &t, &vec![b'b'; fill]].concat();
    }
    match bodied(leak(t.clone())) {
        Some(p) => {
            out_n(1, p.len() as u64);
            check_params(&p, &form(&t), has_empty(&t), "a body is decoded like a query");
            if p.len() == 2 && !p.contains_key("") {
                cover("two parameters");
            }
            for (k, v) in p.iter() {
                check(k.is_utf8() == std::str::from_utf8(k.as_bytes()).is_ok(), "names are marked as UTF-8 exactly when they are");
                check(v.is_utf8() == std::str::from_utf8(v.as_bytes()).is_ok(), "values are marked as UTF-8 exactly when they are");
                if !v.is_utf8() {
                    cover("a value that is not UTF-8");
                }
            }
        }
        None => check(false, "the body can be read"),
    }
}

/// Whatever is encoded comes back. params: length of two names and two values, 0 query / 1 body
#[no_mangle]
pub extern "C" fn vx_form_roundtrip() {
    let names = [bytes(param(0)), bytes(param(2))];
    let values = [bytes(param(1)), bytes(param(3))];
    let mut t = vec![];
    let digits = b"0123456789ABCDEF";
    let mut enc = |b: u8, t: &mut Vec<u8>| {
        // spaces as '+', everything else encoded, except one class left as it is
        if b == b' ' {
            t.push(b'+');
        } else if (b >= b'a') & (b <= b'z') {
            t.push(b);
        } else {
            t.push(b'%');
            let (h, l) = (b >> 4, b & 15);
            t.push(if h < 10 { b'0' + h } else { b'A' + h - 10 });
            t.push(if l < 10 { b'0' + l } else { b'A' + l - 10 });
        }
    };
    let _ = digits;
    for i in 0..2 {
        if i == 1 {
            t.push(b'&');
        }
        for b in &names[i] {
            enc(*b, &mut t);
        }
        t.push(b'=');
        for b in &values[i] {
            enc(*b, &mut t);
        }
    }
    let got = if param(4) == 0 { queried(&t) } else { bodied(leak(t)) };
    match got {
        Some(p) => {
            let twice = same(&names[0], &names[1]);
            if twice {
                cover("the same name twice");
            }
            out_n(1, p.len() as u64);
            check(p.len() == if twice { 1 } else { 2 }, "every parameter comes back");
            check(p.get_raw(&names[1][..]).map(|v| same(v.as_bytes(), &values[1])).unwrap_or(false), "values come back");
            if !twice {
                check(p.get_raw(&names[0][..]).map(|v| same(v.as_bytes(), &values[0])).unwrap_or(false), "values come back");
            }
        }
        None => check(false, "the text can be read"),
    }
}
