//! Shapes far larger than what the other entries use, with few arbitrary bytes at places that matter.
use crate::net::*;
use crate::p_resp::*;
use crate::p_route::*;
use crate::p_uri::{bodied, check_params, form, has_empty, queried};
use crate::util::*;
use crate::vx::*;
use rustful::handler::{TreeRouter, Variables};
use rustful::context::Parameters;
use rustful::{Context, DefaultRouter, Method, Response};
use std::io::Write;

fn lit(l: &[u8]) -> Seg {
    Seg { kind: 0, label: l.to_vec() }
}
fn var(kind: u8, l: &[u8]) -> Seg {
    Seg { kind, label: l.to_vec() }
}
fn word(i: usize) -> Vec<u8> {
    let mut w = vec![b'a' + (i / 20 % 20) as u8, b'a' + (i % 20) as u8];
    if i >= 400 {
        w.push(b'a' + (i / 400) as u8);
    }
    w
}
fn ascii() -> u8 {
    let b = byte();
    assume((b != b'/') & (b < 0x80));
    b
}
/// Registers routes in one of four ways.
fn register(routes: &[Pat], way: usize) -> DefaultRouter<H> {
    let mut router = DefaultRouter::<H>::new();
    match way {
        0 => {
            for r in routes {
                router.build().path(&text(&r.segs)[..]).then().on(r.method.clone(), H(r.id));
            }
        }
        1 => {
            // two routers merged
            for half in 0..2 {
                let mut sub = DefaultRouter::<H>::new();
                for r in routes.iter().filter(|r| r.id % 2 == half) {
                    sub.build().path(&text(&r.segs)[..]).then().on(r.method.clone(), H(r.id));
                }
                router.build().merge(sub);
            }
        }
        2 => return routes.iter().map(|r| (r.method.clone(), text(&r.segs), H(r.id))).collect(),
        _ => {
            // every route is merged below its parent
            for r in routes {
                let last = r.segs.len().max(1) - 1;
                let mut sub = DefaultRouter::<H>::new();
                sub.build().path(&text(&r.segs[last..])[..]).then().on(r.method.clone(), H(r.id));
                router.build().path(&text(&r.segs[..last])[..]).merge(sub);
            }
        }
    }
    router
}

/// Long paths. params: shape, segments, links, way of registering
#[no_mangle]
pub extern "C" fn vx_deep() {
    let d = param(1);
    let at = |n: usize| [0, 1, n / 2, n - 2, n - 1][pick(5)];
    let mut req: Vec<Vec<u8>> = (0..d).map(|_| b"k".to_vec()).collect();
    let mut routes: Vec<Vec<Seg>> = vec![];
    // the route that is expected and what its variables hold
    let want: Option<(usize, Vec<(Vec<u8>, Vec<u8>)>)>;
    match param(0) {
        0 => {
            // literals all the way, or variables all the way
            let p = at(d);
            req[p] = vec![ascii()];
            routes.push((0..d).map(|_| lit(b"k")).collect());
            routes.push((0..d).map(|i| var(1, &word(i))).collect());
            routes.push((0..d + 1).map(|_| lit(b"k")).collect());
            want = if req[p][0] == b'k' {
                cover("a long literal path");
                Some((0, vec![]))
            } else {
                cover("many variables");
                Some((1, (0..d).map(|i| (word(i), req[i].clone())).collect()))
            };
        }
        1 => {
            // a long sequence with two segments behind it
            let p = at(d);
            req[p] = vec![ascii()];
            req[d - 2] = vec![if p == d - 2 { req[p][0] } else { b'b' }];
            routes.push(vec![var(2, b"x"), lit(b"b"), var(1, b"y")]);
            want = if req[d - 2][0] == b'b' {
                cover("a long sequence");
                let x = join(&req[..d - 2])[1..].to_vec();
                Some((0, vec![(b"x".to_vec(), x), (b"y".to_vec(), req[d - 1].clone())]))
            } else {
                None
            };
        }
        2 => {
            // two sequences around the first 'm' there is
            for r in &mut req {
                *r = vec![ascii()];
            }
            routes.push(vec![var(2, b"x"), lit(b"m"), var(2, b"y")]);
            let mut first = None;
            for i in 1..d - 1 {
                if first.is_none() && req[i][0] == b'm' {
                    first = Some(i);
                }
            }
            want = first.map(|i| {
                if i == d - 2 {
                    cover("the last place a literal can be");
                }
                (0, vec![(b"x".to_vec(), join(&req[..i])[1..].to_vec()), (b"y".to_vec(), join(&req[i + 1..])[1..].to_vec())])
            });
        }
        4 => {
            // three ways part somewhere and come to their ends at the last segment
            let p = [0, 1, d / 2, d - 3, d - 2][pick(5)];
            let vars = flag();
            let start = |i: usize| if vars { var(1, &word(i)) } else { lit(b"k") };
            let (c, last) = (ascii(), ascii());
            req[p] = vec![c];
            req[d - 1] = vec![last];
            for (way, end) in vec![(lit(b"a"), b"z"), (var(1, b"v"), b"y"), (var(2, b"s"), b"w")] {
                let rest = if way.kind == 2 { 0 } else { d - p - 2 };
                routes.push((0..p).map(|i| start(i)).chain(Some(way)).chain((0..rest).map(|_| lit(b"k"))).chain(Some(lit(end))).collect());
            }
            let mut held: Vec<(Vec<u8>, Vec<u8>)> = if vars { (0..p).map(|i| (word(i), b"k".to_vec())).collect() } else { vec![] };
            want = if (c == b'a') & (last == b'z') {
                Some((0, held))
            } else if last == b'y' {
                cover("from a literal back to a variable");
                held.push((b"v".to_vec(), vec![c]));
                Some((1, held))
            } else if last == b'w' {
                cover("from a variable back to a sequence");
                held.push((b"s".to_vec(), join(&req[p..d - 1])[1..].to_vec()));
                Some((2, held))
            } else {
                None
            };
        }
        _ => {
            // the way along the literals ends only at the last segment
            let last = ascii();
            req[d - 1] = vec![last];
            let mut a: Vec<Seg> = (0..d - 1).map(|_| lit(b"k")).collect();
            a.push(lit(b"z"));
            routes.push(a);
            routes.push(vec![var(1, b"v"), var(2, b"s")]);
            routes.push(vec![lit(b"k"), var(1, b"w"), var(2, b"t"), lit(b"y")]);
            want = Some(if last == b'z' {
                (0, vec![])
            } else if last == b'y' {
                cover("a variable after a long literal path");
                (2, vec![(b"w".to_vec(), b"k".to_vec()), (b"t".to_vec(), join(&req[2..d - 1])[1..].to_vec())])
            } else {
                cover("back to the first segment");
                (1, vec![(b"v".to_vec(), b"k".to_vec()), (b"s".to_vec(), join(&req[1..])[1..].to_vec())])
            });
        }
    }
    let routes: Vec<Pat> = routes.into_iter().enumerate().map(|(id, segs)| Pat { segs, id, method: Method::Get }).collect();
    let mut router = register(&routes, param(3));
    router.find_hyperlinks = param(2) == 1;
    match (route(&router, Method::Get, &join(&req)), want) {
        (Outcome::Ran(id), Some((i, vars))) => {
            out_n(1, id as u64);
            check(id == i, "the preferred route is selected");
            let got = &rec().vars;
            check(got.len() == vars.len(), "variables hold the matched segments");
            for (k, v) in &vars {
                check(got.iter().any(|g| g.0 == *k && same(&g.1, v)), "variables hold the matched segments");
            }
        }
        (Outcome::Refused(s), None) => check(s == 404 || s == 405, "an unknown path is a client error"),
        (Outcome::Ran(_), None) => check(false, "a handler runs only for a matching route"),
        (Outcome::Refused(_), Some(_)) => check(false, "a matching route is found"),
    }
}

/// Many routes next to each other. params: literals, way of registering, links
#[no_mangle]
pub extern "C" fn vx_wide() {
    let n = param(0);
    let mut routes: Vec<Vec<Seg>> = (0..n).map(|i| vec![lit(&word(i))]).collect();
    routes.push(vec![var(1, b"v")]);
    routes.push(vec![var(2, b"s"), lit(b"z")]);
    routes.push(vec![]);
    routes.push(vec![lit(&word(n / 2)), lit(b"q")]);
    let routes: Vec<Pat> = routes.into_iter().enumerate().map(|(id, segs)| Pat { segs, id, method: Method::Get }).collect();
    let mut router = register(&routes, param(1));
    router.find_hyperlinks = param(2) == 1;
    let deep = flag();
    let two = vec![ascii(), ascii()];
    let mut hit = None;
    for i in 0..n {
        if same(&word(i), &two) {
            hit = Some(i);
        }
    }
    let mut req = vec![two.clone()];
    let mut last = 0;
    if deep {
        last = ascii();
        req.push(vec![last]);
    }
    let want: Option<(usize, Vec<(Vec<u8>, Vec<u8>)>)> = if !deep {
        Some(match hit {
            Some(i) => {
                cover("one of many literals");
                (i, vec![])
            }
            None => {
                cover("none of many literals");
                (n, vec![(b"v".to_vec(), two)])
            }
        })
    } else if last == b'q' && hit == Some(n / 2) {
        Some((n + 3, vec![]))
    } else if last == b'z' {
        cover("behind one of many literals there is nothing");
        Some((n + 1, vec![(b"s".to_vec(), two)]))
    } else {
        None
    };
    match (route(&router, Method::Get, &join(&req)), want) {
        (Outcome::Ran(id), Some((i, vars))) => {
            out_n(1, id as u64);
            check(id == i, "the preferred route is selected");
            check_map(&rec().vars, &vars, "variables hold the matched segments");
        }
        (Outcome::Refused(s), None) => check(s == 404 || s == 405, "an unknown path is a client error"),
        (Outcome::Ran(_), None) => check(false, "a handler runs only for a matching route"),
        (Outcome::Refused(_), Some(_)) => check(false, "a matching route is found"),
    }
    if param(2) == 1 && !deep {
        match route(&router, Method::Get, b"/") {
            Outcome::Ran(id) => {
                check(id == n + 2, "the preferred route is selected");
                let links = &rec().links;
                check(links.len() == n + 2, "as many hyperlinks as reachable neighbours, each listed once");
                for r in &routes[..n + 2] {
                    let s = &r.segs[0];
                    let there = links.iter().any(|l| l.method.is_none() && l.path.len() == 1 && l.path[0].0 == s.kind && (s.kind != 0 || same(&l.path[0].1, &s.label)));
                    check(there, "every reachable neighbour is listed");
                }
                cover("many hyperlinks");
            }
            Outcome::Refused(_) => check(false, "a matching route is found"),
        }
    }
}

/// Many methods at one place. params: methods beyond the usual ones, way of registering, links
#[no_mangle]
pub extern "C" fn vx_many_methods() {
    let n = param(0);
    let mut methods: Vec<Method> = methods().iter().cloned().collect();
    methods.push(Method::Trace);
    for i in 0..n {
        methods.push(Method::Extension(String::from_utf8(word(i)).unwrap()));
    }
    let depth = pick(2);
    let segs: Vec<Seg> = (0..depth).map(|_| lit(b"k")).collect();
    let routes: Vec<Pat> = methods.iter().enumerate().map(|(id, m)| Pat { segs: segs.clone(), id, method: m.clone() }).collect();
    let mut router = register(&routes, param(1));
    router.find_hyperlinks = param(2) == 1;
    let (asked, want) = if flag() {
        let i = pick(9);
        (methods[i].clone(), Some(i))
    } else {
        let name = bytes(2);
        for b in &name {
            assume((*b >= b'a') & (*b <= b'z'));
        }
        let mut hit = None;
        for i in 0..n {
            if same(&word(i), &name) {
                hit = Some(9 + i);
            }
        }
        (Method::Extension(String::from_utf8(name).unwrap()), hit)
    };
    let path = join(&segs.iter().map(|s| s.label.clone()).collect::<Vec<_>>());
    match (route(&router, asked, &path), want) {
        (Outcome::Ran(id), Some(i)) => {
            cover("one of many methods");
            check(id == i, "the handler for the method runs");
            if param(2) == 1 {
                let links = &rec().links;
                check(links.len() == methods.len() - 1, "as many hyperlinks as reachable neighbours, each listed once");
                for (o, m) in methods.iter().enumerate().filter(|o| o.0 != i) {
                    check(links.iter().any(|l| l.method.as_ref().map(|l| l == m.as_ref()).unwrap_or(false) && l.who == Some(o)), "every method is listed with its handler");
                }
            }
        }
        (Outcome::Refused(s), None) => {
            cover("none of many methods");
            check(s == 405, "a path with other methods is 405");
        }
        (Outcome::Ran(_), None) => check(false, "a handler runs only for its method"),
        (Outcome::Refused(_), Some(_)) => check(false, "a matching route is found"),
    }
}

/// The same for trees of optional handlers, built from inside out. params: segments, links
#[no_mangle]
pub extern "C" fn vx_nested_trees() {
    let d = param(0);
    let mut names = vec![];
    let mut tree = TreeRouter::<Option<Variables<H>>>::new();
    tree.build().handler(H(d));
    for i in (0..d).rev() {
        let mut outer = TreeRouter::<Option<Variables<H>>>::new();
        let named = i % 3 == 1;
        let seg = if named { let mut s = b"/:".to_vec(); s.extend(word(i)); names.push(i); s } else { b"/k".to_vec() };
        outer.build().path(&seg[..]).handler(H(100 + i));
        outer.build().path(&seg[..]).merge(tree);
        tree = outer;
    }
    tree.find_hyperlinks = param(1) == 1;
    let p = pick(d);
    let mut req: Vec<Vec<u8>> = (0..d).map(|_| b"k".to_vec()).collect();
    req[p] = vec![ascii()];
    let ok = names.contains(&p) || req[p][0] == b'k';
    let n = pick(d) + 1;
    match route(&tree, Method::Get, &join(&req[..n])) {
        Outcome::Ran(id) => {
            check(ok || n <= p, "a handler runs only for a matching route");
            check(id == if n == d { d } else { 100 + n - 1 }, "the preferred route is selected");
            if n == d {
                cover("the innermost of many trees");
            }
            let want: Vec<(Vec<u8>, Vec<u8>)> = names.iter().filter(|i| **i < n).map(|i| (word(*i), req[*i].clone())).collect();
            check_map(&rec().vars, &want, "variables hold the matched segments");
        }
        Outcome::Refused(s) => {
            check(!ok && n > p, "a matching route is found");
            check(s == 404, "an unknown path is 404");
        }
    }
}

/// Many parameters in one query or body, between them a few arbitrary bytes. params: pairs, arbitrary bytes, 0 query / 1 body
#[no_mangle]
pub extern "C" fn vx_many_pairs() {
    let n = param(0);
    let odd = bytes(param(1));
    for b in &odd {
        assume(one_of(*b, b"=&+aA%2"));
    }
    let at = [0, n / 2, n][pick(3)];
    let mut t = vec![];
    for i in 0..n {
        if i == at {
            t.extend_from_slice(&odd);
        }
        t.push(b'&');
        t.extend(word(i));
        t.push(b'=');
        t.extend(word(i + 7));
    }
    if at == n {
        t.push(b'&');
        t.extend_from_slice(&odd);
    }
    let want = form(&t);
    if want.len() > n {
        cover("a parameter among many");
    }
    let got = if param(2) == 0 { queried(&t) } else { bodied(leak(t.clone())) };
    match got {
        Some(p) => {
            out_n(1, p.len() as u64);
            check_params(&p, &want, has_empty(&t), "many parameters are decoded like few");
        }
        None => check(false, "the text can be read"),
    }
}

/// A map with many parameters. params: parameters, history (0 inserted, 1 collected, 2 extended), removed before
#[no_mangle]
pub extern "C" fn vx_many_parameters() {
    let n = param(0);
    let pairs = || (0..n).map(|i| (word(i), word(i + 3)));
    let mut p = Parameters::new();
    match param(1) {
        0 => {
            for (k, v) in pairs() {
                check(p.insert(k, v).is_none(), "a new name has no old value");
            }
        }
        1 => p = pairs().collect(),
        _ => {
            p.insert(word(0), "old");
            p.extend(pairs());
        }
    }
    for i in 0..param(2) {
        check(p.remove(&word(i * 2)[..]).map(|v| v.as_bytes() == &word(i * 2 + 3)[..]).unwrap_or(false), "removing returns the value");
    }
    let there = |i: usize| i % 2 == 1 || i / 2 >= param(2);
    let k = bytes(2);
    let mut hit = None;
    for i in 0..n {
        if there(i) && same(&word(i), &k) {
            hit = Some(i);
        }
    }
    out_n(1, hit.unwrap_or(9999) as u64);
    check(p.len() == n - param(2), "there are as many parameters as names");
    match hit {
        Some(i) => {
            cover("one of many parameters");
            check(p.contains_key(&k[..]) && p.get_raw(&k[..]).map(|v| v.as_bytes() == &word(i + 3)[..]).unwrap_or(false), "every parameter has its last value");
            check(p.insert(k.clone(), "new").map(|v| v.as_bytes() == &word(i + 3)[..]).unwrap_or(false), "inserting returns the old value");
            check(p.len() == n - param(2), "there are as many parameters as names");
        }
        None => {
            cover("none of many parameters");
            check(!p.contains_key(&k[..]) && p.get_raw(&k[..]).is_none() && p.remove(&k[..]).is_none(), "a name is known exactly when it was given");
            check(p.insert(k.clone(), "new").is_none(), "a new name has no old value");
            check(p.len() == n - param(2) + 1, "there are as many parameters as names");
        }
    }
    check(p.get(&k[..]).map(|v| v == "new").unwrap_or(false), "every parameter has its last value");
    for i in (0..n).filter(|i| there(*i) && Some(*i) != hit) {
        check(p.get_raw(&word(i)[..]).map(|v| v.as_bytes() == &word(i + 3)[..]).unwrap_or(false), "every parameter has its last value");
    }
}

/// A body written in many small pieces. params: pieces, 0 chunked / 1 declared length, filters that change nothing
#[no_mangle]
pub extern "C" fn vx_many_pieces() {
    let n = param(0);
    let raw = param(1) == 1;
    let first = pick(5);
    let at = [0, 1, n / 2, n - 1][pick(4)];
    let pieces: Vec<Vec<u8>> = (0..n)
        .map(|i| {
            if i == at {
                upto(3)
            } else {
                let size = [1, 17, 0, 255, 16, 2, 256, 15][i % 8];
                (0..size).map(|k| b'a' + ((i + k) % 26) as u8).collect()
            }
        })
        .collect();
    let body = pieces.concat();
    // one too few and one too many as well
    let declared = if raw { body.len() + pick(3) } else { 0 };
    let declared = declared.max(1) - 1;
    let end = flag();
    note().clear();
    let server = leaked(passing(plain_server(Act(move |_: Context, r: Response| {
        macro_rules! write {
            ($c: ident) => {
                for (i, b) in pieces.iter().enumerate() {
                    let ok = match (i + first) % 5 {
                        0 => $c.try_send(&b[..]).is_ok(),
                        1 => $c.try_send(b.clone()).is_ok(),
                        2 => $c.write(b).map(|k| k == b.len()).unwrap_or(false),
                        3 => $c.write_all(b).is_ok(),
                        _ => $c.write_all(b).is_ok() && $c.flush().is_ok(),
                    };
                    note().push(ok as u64);
                }
                if end {
                    note().push($c.end().is_ok() as u64);
                }
            };
        }
        if raw {
            let mut c = unsafe { r.into_raw(declared as u64) };
            write!(c);
        } else {
            let mut c = r.into_chunked();
            write!(c);
        }
    })), if raw { 0 } else { param(2) }));
    let s = serve(server, &get());
    out(1, &s.out[s.out.len().min(400)..]);
    if raw {
        let head = (4..s.out.len() + 1).find(|i| &s.out[i - 4..*i] == b"\r\n\r\n");
        let (head, got) = match head {
            Some(h) => (&s.out[..h], &s.out[h..]),
            None => return check(false, "the response has a head"),
        };
        let length = format!("Content-Length: {}\r\n", declared).into_bytes();
        check(head.windows(length.len()).filter(|w| *w == &length[..]).count() == 1, "the content length is the declared one");
        check(same(got, &body[..body.len().min(declared)]), "the body is what was written, and never more than declared");
        if declared == body.len() {
            cover("the declared length is written in many pieces");
            check(note().iter().all(|x| *x == 1), "writing the declared length succeeds");
        }
        if declared < body.len() {
            check(note()[..n].iter().any(|x| *x == 0), "what exceeds the declared length is an error, and nothing else is");
        }
    } else {
        cover("many chunks");
        let a = answer(&s);
        check(a.chunked && a.header("content-length").is_empty(), "a stream is chunked");
        check(same(&a.body, &body), "the body is everything that was sent, in order");
        check(note().iter().all(|x| *x == 1), "sending succeeds and reports its length");
    }
}

/// Many headers, asked for and answered with, between them an arbitrary value. params: headers
#[no_mangle]
pub extern "C" fn vx_many_headers() {
    let n = param(0);
    let value = bytes(2);
    for b in &value {
        assume((*b > 0x20) & (*b < 0x7f));
    }
    let at = [0, n / 2, n - 1][pick(3)];
    let names: Vec<String> = (0..n).map(|i| format!("X-H{}", i)).collect();
    let values: Vec<Vec<u8>> = (0..n).map(|i| if i == at { value.clone() } else { word(i) }).collect();
    let (ns, vs) = (names.clone(), values.clone());
    note().clear();
    let server = leaked(plain_server(Act(move |c: Context, mut r: Response| {
        for (i, k) in ns.iter().enumerate() {
            let got = c.headers.get_raw(k).map(|v| v.len() == 1 && same(&v[0], &vs[i])).unwrap_or(false);
            note().push(got as u64);
            r.headers_mut().set_raw(k.clone(), vec![vs[i].clone()]);
        }
        r.send("x");
    })));
    let mut heads: Vec<(&str, &[u8])> = vec![("Host", b"h")];
    for (k, v) in names.iter().zip(&values) {
        heads.push((k, v));
    }
    let s = serve(server, &request("GET", b"/", &heads, b""));
    let a = answer(&s);
    out_n(1, note().len() as u64);
    check(a.status == 200 && note().len() == n, "the handler runs");
    check(note().iter().all(|x| *x == 1), "the handler sees every header of the request");
    for (k, v) in names.iter().zip(&values) {
        let h = a.header(&k.to_lowercase());
        check(h.len() == 1 && same(h[0], v), "headers are sent as they were set");
    }
    cover("many headers");
}

/// Some methods at one place and any method asked for. params: methods there, way of registering, links
#[no_mangle]
pub extern "C" fn vx_some_methods() {
    let mut all: Vec<Method> = methods().iter().cloned().collect();
    all.push(Method::Trace);
    all.push("FOO".parse().unwrap());
    all.push("get".parse().unwrap());
    let picked: Vec<usize> = (0..param(0)).map(|_| pick(all.len())).collect();
    for i in 1..picked.len() {
        assume(picked[i - 1] < picked[i]);
    }
    let segs: Vec<Seg> = match pick(3) {
        0 => vec![],
        1 => vec![lit(b"k")],
        _ => vec![lit(b"k"), Seg { kind: 1, label: b"v".to_vec() }],
    };
    let routes: Vec<Pat> = picked.iter().enumerate().map(|(id, m)| Pat { segs: segs.clone(), id, method: all[*m].clone() }).collect();
    let mut router = register(&routes, param(1));
    router.find_hyperlinks = param(2) == 1;
    let asked = pick(all.len());
    let path = join(&segs.iter().map(|s| s.label.clone()).collect::<Vec<_>>());
    match (route(&router, all[asked].clone(), &path), picked.iter().position(|p| *p == asked)) {
        (Outcome::Ran(id), Some(i)) => check(id == i, "the handler for the method runs"),
        (Outcome::Refused(s), None) => {
            cover("a method that is not there");
            check(s == 405, "a path with other methods is 405");
        }
        (Outcome::Ran(_), None) => check(false, "a handler runs only for its method"),
        (Outcome::Refused(_), Some(_)) => check(false, "a matching route is found"),
    }
}
