//! C23: whatever a client sends, the server answers and does not panic (a panic ends any symbolic run as a violation).
#![allow(static_mut_refs)]
use crate::net::*;
use crate::p_resp::Act;
use crate::vx::*;
use rustful::{Context, DefaultRouter, Handler, Method, Response};
use std::io::Read;

/// Looks at everything a request has.
fn nosy(mut c: Context, r: Response, how: usize) {
    let mut seen = vec![];
    seen.extend_from_slice(c.uri_path.as_path().map(|p| p.as_ref().len()).unwrap_or(0).to_string().as_bytes());
    seen.push(b' ');
    if let Some(p) = c.uri_path.as_utf8_path() {
        seen.extend_from_slice(p.as_bytes());
    }
    seen.extend_from_slice(c.uri_path.as_utf8_path_lossy().map(|p| p.len()).unwrap_or(0).to_string().as_bytes());
    if let Some(ref f) = c.fragment {
        seen.extend_from_slice(f.as_utf8_lossy().as_bytes());
    }
    for (k, v) in c.query.iter().chain(c.variables.iter()) {
        seen.extend_from_slice(k.as_utf8_lossy().as_bytes());
        seen.extend_from_slice(v.as_ref());
    }
    let _: u8 = c.query.parse_or("a", 1);
    let _: Result<u8, _> = c.variables.parse("x");
    let _ = c.headers.get::<rustful::header::ContentLength>().is_some();
    let _ = c.headers.get::<rustful::header::Host>().is_some();
    for l in &c.hyperlinks {
        seen.extend_from_slice(l.path.len().to_string().as_bytes());
    }
    match how {
        0 => {}
        1 => match c.body.read_query_body() {
            Ok(q) => {
                for (k, v) in &*q {
                    seen.extend_from_slice(k.as_ref());
                    seen.extend_from_slice(v.as_ref());
                }
            }
            Err(_) => seen.push(b'!'),
        },
        2 => {
            if let Some(mut m) = c.body.as_multipart() {
                let mut n = 0;
                while let Ok(Some(mut f)) = m.read_entry() {
                    let mut d = vec![];
                    let _ = f.data.read_to_end(&mut d);
                    seen.extend_from_slice(&d);
                    n += 1;
                    if n == 4 {
                        break;
                    }
                }
            }
        }
        _ => {
            let mut d = vec![];
            if c.body.read_to_end(&mut d).is_err() {
                seen.push(b'!');
            }
            seen.extend_from_slice(&d);
        }
    }
    r.send(seen);
}

/// params: where the arbitrary bytes stand, how many, what the handler reads (0 nothing, 1 a form, 2 multipart, 3 bytes),
/// 0 any byte / 1 printable ones
#[no_mangle]
pub extern "C" fn vx_any() {
    let (place, how) = (param(0), param(2));
    let w = bytes(param(1));
    for b in &w {
        // hyper 0.10 itself gives up on lengths that are not numbers, before the server is asked
        assume((place != 3) | ((*b >= b'0') & (*b <= b'9')));
        assume((param(3) == 0) | ((*b > 0x20) & (*b < 0x7f)));
    }
    let mut router = DefaultRouter::<Box<dyn Handler>>::new();
    router.find_hyperlinks = flag();
    router.build().many(|b| {
        for p in &["/", ":x", "a/*", ":x/b", "*y/c"] {
            let h: Box<dyn Handler> = Box::new(Act(move |c: Context, r: Response| nosy(c, r, how)));
            b.path(p).then().on(if *p == ":x/b" { Method::Post } else { Method::Get }, h);
        }
        let h: Box<dyn Handler> = Box::new(Act(move |c: Context, r: Response| nosy(c, r, how)));
        b.path("a").then().on(Method::Post, h);
    });
    let post = |headers: &[(&str, &[u8])], body: &[u8]| request("POST", b"/a", headers, body);
    let text = match place {
        0 => request("GET", &[&b"/"[..], &w].concat(), &[("Host", b"h")], b""),
        1 => request("GET", &w, &[("Host", b"h")], b""),
        2 => post(&[("Host", b"h"), ("Content-Type", &w), ("Content-Length", b"2")], b"ab"),
        3 => post(&[("Host", b"h"), ("Content-Length", &w)], b"ab"),
        4 => post(&[("Host", b"h"), ("Transfer-Encoding", &w)], b"1\r\na\r\n0\r\n\r\n"),
        5 => post(&[("Host", &w), ("Content-Length", b"0")], b""),
        6 => {
            let l = w.len().to_string();
            post(&[("Host", b"h"), ("Content-Length", l.as_bytes())], &w)
        }
        7 => {
            let body = [&b"--x"[..], &w, b"\r\nContent-Disposition: form-data; name=\"f\"\r\n\r\nd\r\n--x--\r\n"].concat();
            let l = body.len().to_string();
            post(&[("Host", b"h"), ("Content-Type", b"multipart/form-data; boundary=x"), ("Content-Length", l.as_bytes())], &body)
        }
        8 => {
            let body = [&b"--x\r\nContent-Disposition: form-data; name="[..], &w, b"\r\n\r\nd\r\n--x--\r\n"].concat();
            let l = body.len().to_string();
            post(&[("Host", b"h"), ("Content-Type", b"multipart/form-data; boundary=x"), ("Content-Length", l.as_bytes())], &body)
        }
        9 => post(&[("Host", b"h"), ("Transfer-Encoding", b"chunked")], &[&w[..], b"\r\na\r\n0\r\n\r\n"].concat()),
        10 => [&w[..], b" /a HTTP/1.1\r\nHost: h\r\n\r\n"].concat(),
        11 => [&b"GET /a HTTP/1.1\r\nHost: h\r\n"[..], &w, b"\r\n\r\n"].concat(),
        12 => [&b"GET /a HTTP/1.1\r\nHost: h\r\nConnection: "[..], &w, b"\r\n\r\n"].concat(),
        13 => request("GET", &[&b"http://"[..], &w].concat(), &[("Host", b"h")], b""),
        14 => request("GET", &[&b"http://h/"[..], &w].concat(), &[("Host", b"h")], b""),
        15 => [&b"GET /a "[..], &w, b"\r\nHost: h\r\n\r\n"].concat(),
        16 => post(&[("Host", b"h"), ("Content-Type", &[&b"multipart/form-data; boundary="[..], &w].concat()), ("Content-Length", b"2")], b"ab"),
        17 => {
            let body = [&b"--x\r\nContent-Disposition: form-data; name=\"f\"\r\n\r\nd"[..], &w, b"\r\n--x--\r\n"].concat();
            let l = body.len().to_string();
            post(&[("Host", b"h"), ("Content-Type", b"multipart/form-data; boundary=x"), ("Content-Length", l.as_bytes())], &body)
        }
        18 => post(&[("Host", b"h"), ("Content-Type", &[&b"multipart/form-data"[..], &w].concat()), ("Content-Length", b"2")], b"ab"),
        20 => request("GET", &[&b"/a?a=%ff&"[..], &w, b"=%"].concat(), &[("Host", b"h")], b""),
        21 => {
            for b in &w {
                assume(one_of(*b, b"0fFgC%#"));
            }
            let lead: &[u8] = [&b"/a#%"[..], b"/a#%f", b"/%", b"/?%", b"http://h/%", b"http://h/?%", b"http://h/#%"][pick(7)];
            request("GET", &[lead, &w].concat(), &[("Host", b"h")], b"")
        }
        22 => {
            for b in &w {
                assume((*b >= b'a') & (*b <= b'z'));
            }
            let known: &[u8] = if w.is_empty() { [&b"https"[..], b"ftp", b"ws", b"file", b"data", b"gopher", b"HTTP"][pick(7)] } else { b"" };
            request("GET", &[known, &w[..], [&b"://h/a"[..], b"://h:80/a", b":a", b"://[::1]/", b":///a", b":/a", b":", b"://"][pick(8)]].concat(), &[("Host", b"h")], b"")
        }
        23 => request("GET", &[&b"http://h:"[..], &w, b"/a"].concat(), &[("Host", b"h")], b""),
        24 => {
            for b in &w {
                assume(one_of(*b, b":1fg.]["));
            }
            request("GET", &[&b"http://["[..], &w, b"]/a"].concat(), &[("Host", b"h")], b"")
        }
        _ => w.clone(),
    };
    let server = leaked(plain_server(router));
    let s = serve(server, &text);
    out(1, &[s.parsed as u8]);
    if s.parsed {
        cover("a request is answered");
        let a = answer(&s);
        out_n(2, a.status as u64);
        check(a.status == 200 || a.status == 404 || a.status == 405 || a.status == 400, "the answer is one of the server's");
    } else {
        cover("a request is not one");
        check(s.out.is_empty(), "nothing is written for what is not a request");
    }
}

/// Forms whose boundary never comes (again). params: 0 it never comes, 1 it does not come again
#[no_mangle]
pub extern "C" fn vx_open_form() {
    let b = byte();
    assume((b >= b'a') & (b <= b'w'));
    let body = if param(0) == 0 { vec![b; 8] } else { [&b"--x\r\nContent-Disposition: form-data; name=\"f\"\r\n\r\n"[..], &[b; 12]].concat() };
    let l = body.len().to_string();
    let text = request("POST", b"/a", &[("Host", b"h"), ("Content-Type", b"multipart/form-data; boundary=x"), ("Content-Length", l.as_bytes())], &body);
    let server = leaked(plain_server(Act(|c: Context, r: Response| nosy(c, r, 2))));
    answer(&serve(server, &text));
}
