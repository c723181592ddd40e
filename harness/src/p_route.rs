//! C01, C02: which handler a path selects and what its variables hold.
use crate::util::*;
use crate::vx::*;
use rustful::handler::{TreeRouter, Variables};
use rustful::{DefaultRouter, Method};

#[derive(Clone)]
pub struct Seg {
    /// 0 literal, 1 variable, 2 sequence
    pub kind: u8,
    pub label: Vec<u8>,
}
#[derive(Clone)]
pub struct Pat {
    pub segs: Vec<Seg>,
    pub id: usize,
    pub method: Method,
}

pub fn plain(b: u8) -> bool {
    !(one_of(b, b"/:*"))
}
/// One route segment: a literal with an arbitrary ASCII byte as label, a variable or a sequence named `name`.
pub fn ascii_seg(name: u8) -> Seg {
    let kind = pick(3) as u8;
    let label = if kind == 0 { bytes(1) } else { vec![name] };
    if kind == 0 {
        assume(plain(label[0]) & (label[0] < 0x80));
    }
    Seg { kind, label }
}
/// One route segment: any literal, variable or sequence with a label of `n` arbitrary bytes.
pub fn any_seg(n: usize) -> Seg {
    let kind = pick(3) as u8;
    let label = bytes(n);
    for (i, b) in label.iter().enumerate() {
        // ':' and '*' are only special in front
        assume(if kind == 0 && i == 0 { plain(*b) } else { *b != b'/' });
    }
    Seg { kind, label }
}
pub fn text(segs: &[Seg]) -> Vec<u8> {
    let mut t = vec![];
    for s in segs {
        t.push(b'/');
        match s.kind {
            1 => t.push(b':'),
            2 => t.push(b'*'),
            _ => {}
        }
        t.extend_from_slice(&s.label);
    }
    t
}
pub fn join(segs: &[Vec<u8>]) -> Vec<u8> {
    let mut t = vec![];
    for s in segs {
        t.push(b'/');
        t.extend_from_slice(s);
    }
    t
}

/// The same node of the route tree: literals by label, variables and sequences regardless of name.
pub fn same_shape(a: &[Seg], b: &[Seg]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.kind == y.kind && (x.kind != 0 || same(&x.label, &y.label)))
}

/// Every way `segs` can consume `req`; for each, per request segment: 0 literal, 1 variable, 2 a sequence starts,
/// 3 a sequence continues. Smaller (lexicographically) is preferred.
pub fn alignments(segs: &[Seg], req: &[Vec<u8>]) -> Vec<Vec<u8>> {
    fn go(segs: &[Seg], req: &[Vec<u8>], cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if segs.is_empty() {
            if req.is_empty() {
                out.push(cur.clone());
            }
            return;
        }
        if req.len() < segs.len() {
            return;
        }
        match segs[0].kind {
            0 => {
                if same(&segs[0].label, &req[0]) {
                    cur.push(0);
                    go(&segs[1..], &req[1..], cur, out);
                    cur.pop();
                }
            }
            1 => {
                cur.push(1);
                go(&segs[1..], &req[1..], cur, out);
                cur.pop();
            }
            _ => {
                for n in 1..=req.len() {
                    cur.push(2);
                    for _ in 1..n {
                        cur.push(3);
                    }
                    go(&segs[1..], &req[n..], cur, out);
                    for _ in 0..n {
                        cur.pop();
                    }
                }
            }
        }
    }
    let mut out = vec![];
    go(segs, req, &mut vec![], &mut out);
    out
}

/// The routes that match, best first, each with its preferred alignment. A later registration of the same shape
/// replaces an earlier one.
pub fn expected(routes: &[Pat], req: &[Vec<u8>], method: &Method) -> Option<(usize, Vec<u8>)> {
    let mut best: Option<(Vec<u8>, usize)> = None;
    for (i, r) in routes.iter().enumerate() {
        if r.method != *method {
            continue;
        }
        if routes[i + 1..].iter().any(|o| o.method == r.method && same_shape(&o.segs, &r.segs)) {
            continue;
        }
        for a in alignments(&r.segs, req) {
            if best.as_ref().map(|b| a < b.0).unwrap_or(true) {
                best = Some((a, i));
            }
        }
    }
    best.map(|(a, i)| (i, a))
}

/// What the named variables of `segs` hold under an alignment. Empty labels are discarded; a repeated label keeps the
/// last value.
pub fn captures(segs: &[Seg], req: &[Vec<u8>], al: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut out: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut i = 0;
    for s in segs {
        let mut v = req[i].clone();
        i += 1;
        if s.kind == 2 {
            while i < al.len() && al[i] == 3 {
                v.push(b'/');
                v.extend_from_slice(&req[i]);
                i += 1;
            }
        }
        if s.kind != 0 && !s.label.is_empty() {
            if let Some(p) = out.iter().position(|o| same(&o.0, &s.label)) {
                out[p].1 = v;
            } else {
                out.push((s.label.clone(), v));
            }
        }
    }
    out
}

pub fn any_pattern(len: usize, label: usize, id: usize, method: Method) -> Pat {
    Pat { segs: (0..len).map(|_| any_seg(label)).collect(), id, method }
}
pub fn ascii_pattern(len: usize, id: usize, method: Method) -> Pat {
    Pat { segs: (0..len).map(|i| ascii_seg(b'a' + (id * 8 + i) as u8)).collect(), id, method }
}
pub fn ascii_request(n: usize) -> Vec<Vec<u8>> {
    (0..n)
        .map(|_| {
            let b = bytes(1);
            assume((b[0] != b'/') & (b[0] < 0x80));
            b
        })
        .collect()
}
pub fn any_request(n: usize, len: usize) -> Vec<Vec<u8>> {
    (0..n)
        .map(|_| {
            let b = bytes(len);
            for x in &b {
                assume(*x != b'/');
            }
            b
        })
        .collect()
}

fn witness(routes: &[Pat], e: &Option<(usize, Vec<u8>)>) {
    match e {
        None => cover("no route matches"),
        Some((i, a)) => {
            if a.contains(&3) {
                cover("a sequence takes several segments");
            }
            if *i == 1 && a.contains(&1) {
                cover("a variable wins");
            }
            if *i == 0 && !a.is_empty() && a.iter().all(|x| *x == 0) && routes.len() > 1 {
                cover("a literal wins");
            }
        }
    }
}

/// params: request segments, links on/off, then the number of segments of each route
#[no_mangle]
pub extern "C" fn vx_route_option() {
    let n = param(0);
    let links = param(1) == 1;
    let k = param(2);
    let routes: Vec<Pat> = (0..k).map(|i| ascii_pattern(param(3 + i), i, Method::Get)).collect();
    let req = ascii_request(n);
    let mut router = TreeRouter::<Option<Variables<H>>>::new();
    router.find_hyperlinks = links;
    for r in &routes {
        router.build().on_path(&text(&r.segs)[..], H(r.id));
    }
    let want = expected(&routes, &req, &Method::Get);
    witness(&routes, &want);
    match (route(&router, Method::Get, &join(&req)), want) {
        (Outcome::Ran(id), Some((i, al))) => {
            out_n(1, id as u64);
            check(id == routes[i].id, "the preferred route is selected");
            check(rec().status == 200, "the handler starts from an untouched status");
            check_map(&rec().vars, &captures(&routes[i].segs, &req, &al), "variables hold the matched segments");
        }
        (Outcome::Refused(s), None) => {
            out_n(2, s as u64);
            check(s == 404, "an unknown path is 404");
        }
        (Outcome::Ran(_), None) => check(false, "a handler runs only for a matching route"),
        (Outcome::Refused(_), Some(_)) => check(false, "a matching route is found"),
    }
}

/// The default router: routes with methods. params as above
#[no_mangle]
pub extern "C" fn vx_route_default() {
    let n = param(0);
    let links = param(1) == 1;
    let k = param(2);
    let ms = [Method::Get, Method::Post];
    let routes: Vec<Pat> = (0..k).map(|i| ascii_pattern(param(3 + i), i, ms[pick(2)].clone())).collect();
    let req = ascii_request(n);
    let mut router = DefaultRouter::<H>::new();
    router.find_hyperlinks = links;
    for r in &routes {
        router.build().path(&text(&r.segs)[..]).then().on(r.method.clone(), H(r.id));
    }
    let want = expected(&routes, &req, &Method::Get);
    witness(&routes, &want);
    match (route(&router, Method::Get, &join(&req)), want) {
        (Outcome::Ran(id), Some((i, al))) => {
            out_n(1, id as u64);
            check(id == routes[i].id, "the preferred route is selected");
            check(rec().status == 200, "the handler starts from an untouched status");
            check_map(&rec().vars, &captures(&routes[i].segs, &req, &al), "variables hold the matched segments");
        }
        (Outcome::Refused(s), None) => {
            out_n(2, s as u64);
            let hit = routes.iter().any(|r| !alignments(&r.segs, &req).is_empty());
            if hit {
                cover("only another method matches");
                check(s == 405, "a path with other methods is 405");
            } else {
                check(s == 404 || s == 405, "an unknown path is a client error");
            }
        }
        (Outcome::Ran(_), None) => check(false, "a handler runs only for a matching route"),
        (Outcome::Refused(_), Some(_)) => check(false, "a matching route is found"),
    }
}

/// Requests to one router while it grows: what it was asked before makes no difference.
/// params: links, 1: all routes are there from the start, segments of the requests, then the number of segments of each route
#[no_mangle]
pub extern "C" fn vx_again() {
    let k = param(3);
    let ms = [Method::Get, Method::Post];
    let routes: Vec<Pat> = (0..k).map(|i| ascii_pattern(param(4 + i), i, ms[pick(2)].clone())).collect();
    let mut router = DefaultRouter::<H>::new();
    router.find_hyperlinks = param(0) == 1;
    let add = |router: &mut DefaultRouter<H>, r: &Pat| {
        router.build().path(&text(&r.segs)[..]).then().on(r.method.clone(), H(r.id));
    };
    let ask = |router: &DefaultRouter<H>, there: &[Pat], req: &[Vec<u8>], m: &Method| match (route(router, m.clone(), &join(req)), expected(there, req, m)) {
        (Outcome::Ran(id), Some((i, al))) => {
            out_n(1, id as u64);
            check(id == there[i].id, "what was asked before makes no difference to the route");
            check_map(&rec().vars, &captures(&there[i].segs, req, &al), "what was asked before makes no difference to the variables");
            true
        }
        (Outcome::Refused(s), None) => {
            out_n(2, s as u64);
            let hit = there.iter().any(|r| !alignments(&r.segs, req).is_empty());
            check(if hit { s == 405 } else { s == 404 || s == 405 }, "what was asked before makes no difference to the status");
            false
        }
        _ => {
            check(false, "what was asked before makes no difference to what is found");
            false
        }
    };
    let first = ascii_request(param(2));
    let mut found = vec![];
    for (i, r) in routes.iter().enumerate() {
        add(&mut router, r);
        if param(1) == 0 || i + 1 == k {
            found.push(ask(&router, &routes[..i + 1], &first, &Method::Get));
        }
    }
    if param(1) == 1 {
        let second = ascii_request(param(2));
        let again = ask(&router, &routes, &second, &Method::Get);
        if found[0] && !again {
            cover("one request is answered and another is not");
        }
        if !found[0] && again {
            cover("a request is answered after one that was not");
        }
    }
    let other = ask(&router, &routes, &first, &Method::Post);
    if found[found.len() - 1] && !other {
        cover("only one of two methods is answered");
    }
    if found.len() > 1 && !found[0] && found[1] {
        cover("a route is there when it was registered");
    }
    let last = ask(&router, &routes, &first, &Method::Get);
    check(last == found[found.len() - 1], "the same request has the same answer");
}

/// Literals and request segments of different lengths (0..=2 bytes), so that prefixes and empty segments are covered.
/// params: request segments, links, segments of route 0, segments of route 1
#[no_mangle]
pub extern "C" fn vx_route_lengths() {
    let n = param(0);
    let seg = |_: usize| {
        let b = upto(2);
        for (i, x) in b.iter().enumerate() {
            assume((*x < 0x80) & (*x != b'/') & (i > 0 || plain(*x)));
        }
        b
    };
    let routes: Vec<Pat> = (0..2)
        .map(|i| Pat {
            segs: (0..param(2 + i))
                .map(|j| match pick(3) {
                    0 => {
                        let l = seg(j);
                        // an empty label inside a path is written "//"; at the ends it would be a different spelling
                        assume(!l.is_empty() || (j > 0 && j + 1 < param(2 + i)));
                        Seg { kind: 0, label: l }
                    }
                    k => Seg { kind: k as u8, label: vec![b'v'] },
                })
                .collect(),
            id: i,
            method: Method::Get,
        })
        .collect();
    let req: Vec<Vec<u8>> = (0..n)
        .map(|j| {
            let l = seg(j);
            assume(!l.is_empty() || (j > 0 && j + 1 < n));
            l
        })
        .collect();
    let mut router = TreeRouter::<Option<H>>::new();
    router.find_hyperlinks = param(1) == 1;
    for r in &routes {
        router.build().on_path(&text(&r.segs)[..], H(r.id));
    }
    let want = expected(&routes, &req, &Method::Get);
    match (route(&router, Method::Get, &join(&req)), want) {
        (Outcome::Ran(id), Some((i, al))) => {
            out_n(1, id as u64);
            check(id == routes[i].id, "the preferred route is selected");
            if al.contains(&1) && req.iter().any(|s| s.is_empty()) {
                cover("an empty segment is captured");
            }
            if al.len() == 3 && al.iter().all(|x| *x == 0) {
                cover("three literals match");
            }
        }
        (Outcome::Refused(s), None) => check(s == 404, "an unknown path is 404"),
        (Outcome::Ran(_), None) => check(false, "a handler runs only for a matching route"),
        (Outcome::Refused(_), Some(_)) => check(false, "a matching route is found"),
    }
}

/// C02. Arbitrary names and values. params: request segments, links, route segments, index of the segment whose value
/// and the segment whose name are up to two arbitrary bytes; or, with a sixth and seventh, exactly that many ASCII bytes;
/// with an eighth no other value is empty
#[no_mangle]
pub extern "C" fn vx_capture() {
    let n = param(0);
    let d = param(2);
    let (wv, wn) = (param(3), param(4));
    let (lv, ln) = (param(5), param(6));
    let segs: Vec<Seg> = (0..d)
        .map(|j| {
            let kind = pick(3) as u8;
            if kind == 0 {
                return Seg { kind, label: b"k".to_vec() };
            }
            let label = if j == wn && ln > 0 {
                let b = bytes(ln);
                for x in &b {
                    assume((*x != b'/') & (*x < 0x80));
                }
                b
            } else if j == wn {
                let b = upto(2);
                for x in &b {
                    assume(*x != b'/');
                }
                b
            } else {
                let b = bytes(1);
                assume((b[0] < 0x80) & (b[0] != b'/'));
                b
            };
            Seg { kind, label }
        })
        .collect();
    let req: Vec<Vec<u8>> = (0..n)
        .map(|j| {
            let most = if j == wv { 2 } else { 1 };
            if j == wv && lv > 0 {
                cover("a long value");
                let b = bytes(lv);
                for x in &b {
                    assume((*x != b'/') & (*x < 0x80));
                }
                return b;
            }
            // an empty segment at either end would be a different spelling
            let b = if j > 0 && j + 1 < n && param(7) == 0 { upto(most) } else { bytes(most) };
            for x in &b {
                assume((*x != b'/') & (j == wv || *x < 0x80));
            }
            b
        })
        .collect();
    let mut router = DefaultRouter::<H>::new();
    router.find_hyperlinks = param(1) == 1;
    router.build().path(&text(&segs)[..]).then().on(Method::Get, H(7));
    let als = alignments(&segs, &req);
    let best = als.iter().min().cloned();
    match (route(&router, Method::Get, &join(&req)), best) {
        (Outcome::Ran(_), Some(al)) => {
            let want = captures(&segs, &req, &al);
            check_map(&rec().vars, &want, "variables hold the matched segments");
            let named = segs.iter().filter(|s| s.kind != 0 && !s.label.is_empty()).count();
            if want.len() < named {
                cover("a name is used twice");
            }
            if segs.iter().any(|s| s.kind != 0 && s.label.is_empty()) {
                cover("a value without a name is discarded");
            }
            if want.len() > 1 && want.iter().any(|(_, v)| v.is_empty()) {
                cover("a value is empty");
            }
            if want.iter().any(|(_, v)| std::str::from_utf8(v).is_err()) {
                cover("a value is not UTF-8");
            }
            if al.contains(&3) {
                cover("a sequence takes several segments");
            }
            out_n(1, want.len() as u64);
        }
        (Outcome::Refused(_), None) => out(2, b""),
        _ => check(false, "the route matches exactly when its pattern does"),
    }
}

/// Literals are compared byte by byte, whatever the bytes: one route with a literal of two arbitrary bytes next to a
/// variable. params: links, or a length other than two (ASCII then) and the length of the segment
#[no_mangle]
pub extern "C" fn vx_route_bytes() {
    let n = param(1);
    let lit = bytes(if n > 0 { n } else { 2 });
    assume(plain(lit[0]));
    let seg = bytes(if n > 0 { param(2) } else { 2 });
    for x in lit.iter().chain(&seg) {
        assume((*x != b'/') & ((n == 0) | (*x < 0x80)));
    }
    let mut router = DefaultRouter::<H>::new();
    router.find_hyperlinks = param(0) == 1;
    let mut t = vec![b'/'];
    t.extend_from_slice(&lit);
    router.build().path(&t[..]).then().on_get(H(0));
    router.build().path("/:v").then().on_get(H(1));
    let mut r = vec![b'/'];
    r.extend_from_slice(&seg);
    match route(&router, Method::Get, &r) {
        Outcome::Ran(id) => {
            out_n(1, id as u64);
            if same(&lit, &seg) {
                if lit[0] >= 0x80 {
                    cover("a literal is not ASCII");
                }
                check(id == 0, "an equal literal wins");
                check(rec().vars.is_empty(), "a literal captures nothing");
            } else {
                check(id == 1, "a different segment goes to the variable");
                check_map(&rec().vars, &[(b"v".to_vec(), seg)], "the variable holds the segment");
            }
        }
        Outcome::Refused(_) => check(false, "a matching route is found"),
    }
}

/// C02. The position and the variables a router works with, driven directly: any history of skipping, keeping and
/// fusing segments, and of going back to earlier positions, that ends at the end of the path. What is named depends only
/// on the way that was finally taken. params: segments, operations, choices for names (0 distinct, 1 equal, 2 one empty)
#[no_mangle]
pub extern "C" fn vx_route_state() {
    let n = param(0);
    let steps = param(1);
    let req: Vec<Vec<u8>> = ascii_request(n);
    let path = join(&req);
    let mut state: rustful::handler::routing::RouteState = path[..].into();
    // per segment: 0 skipped, or 1 + the number of its variable
    let mut way: Vec<usize> = vec![];
    let mut var = 0;
    let mut saved: Vec<((usize, usize), usize, usize)> = vec![];
    let mut back = false;
    let mut done = 0;
    while done < steps && !(way.len() == n && (saved.is_empty() || flag())) {
        done += 1;
        check(state.is_empty() == (way.len() == n), "the path ends after its last segment");
        check(state.get().map(|s| s.to_vec()) == req.get(way.len()).cloned(), "the current segment is the next one");
        if way.len() == n {
            // only going back remains
            let (s, l, v) = saved.pop().unwrap();
            state.go_to(s);
            way.truncate(l);
            var = v;
            back = true;
            continue;
        }
        match pick(5) {
            0 => {
                state.skip();
                way.push(0);
            }
            1 => {
                state.keep();
                way.push(1 + var);
                var += 1;
            }
            2 => {
                state.fuse();
                way.push(1 + var);
            }
            3 => {
                assume(saved.last().map(|s| s.1 != way.len()).unwrap_or(true));
                saved.push((state.snapshot(), way.len(), var));
            }
            _ => {
                assume(!saved.is_empty());
                let (s, l, v) = saved.pop().unwrap();
                state.go_to(s);
                way.truncate(l);
                var = v;
                back = true;
            }
        }
    }
    assume(way.len() == n);
    check(state.is_empty(), "the path ends after its last segment");
    check(state.get().is_none(), "nothing follows the last segment");
    let names: Vec<Vec<u8>> = (0..=n)
        .map(|i| match param(2) {
            1 => b"v".to_vec(),
            2 if i == 0 => vec![],
            _ => vec![b'a' + i as u8],
        })
        .collect();
    let mut want: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut i = 0;
    // the variables in order; the segments of one are joined
    let mut seen: Vec<(usize, Vec<u8>)> = vec![];
    while i < n {
        if way[i] > 0 {
            let v = way[i] - 1;
            if let Some(p) = seen.iter().position(|s| s.0 == v) {
                seen[p].1.push(b'/');
                seen[p].1.extend_from_slice(&req[i]);
                cover("a variable is extended");
            } else {
                seen.push((v, req[i].clone()));
            }
        }
        i += 1;
    }
    for (v, value) in seen {
        if names[v].is_empty() {
            continue;
        }
        if let Some(p) = want.iter().position(|w| w.0 == names[v]) {
            want[p].1 = value;
        } else {
            want.push((names[v].clone(), value));
        }
    }
    if back && !want.is_empty() {
        cover("variables after going back");
    }
    let given: Vec<rustful::context::MaybeUtf8Owned> = names.iter().map(|n| n.clone().into()).collect();
    let got: Vec<(Vec<u8>, Vec<u8>)> = state.clone().variables(&given).into_iter().map(|(k, v)| (k.into(), v.into())).collect();
    check_map(&got, &want, "variables hold what was kept on the way taken");
    out_n(1, want.len() as u64);
}
