//! C03 registration, C04 hyperlinks, C05 composed routers, C06 path segments.
use crate::p_route::*;
use crate::util::*;
use crate::vx::*;
use rustful::handler::routing::Route;
use rustful::context::hypermedia::Link;
use rustful::handler::{Environment, HandleRequest, MethodRouter, OrElse, StatusRouter, TreeRouter, Variables};
use rustful::{DefaultRouter, Method, StatusCode};

fn reg_default(router: &mut DefaultRouter<H>, r: &Pat, strategy: usize, split: usize) {
    let split = split.min(r.segs.len());
    let (pre, rest) = (text(&r.segs[..split]), text(&r.segs[split..]));
    let (m, h) = (r.method.clone(), H(r.id));
    match strategy {
        0 => router.build().path(&text(&r.segs)[..]).then().on(m, h),
        1 => router.build().path(&pre[..]).path(&rest[..]).then().on(m, h),
        2 => {
            router.build().path(&pre[..]).many(|n| n.path(&rest[..]).then().on(m, h));
        }
        3 => {
            router.build().path(&pre[..]);
            let mut b = router.build();
            let mut b = match b.get_path(&pre[..]) {
                Some(b) => b,
                None => return check(false, "a registered path can be found again"),
            };
            b.path(&rest[..]).then().many(|b| b.on(m.clone(), h.clone()));
        }
        4 => {
            let mut sub = DefaultRouter::<H>::new();
            sub.build().path(&rest[..]).then().on(m, h);
            router.build().path(&pre[..]).merge(sub);
        }
        5 => {
            let sub: DefaultRouter<H> = vec![(m, text(&r.segs), h)].into_iter().collect();
            router.build().merge(sub);
        }
        6 => {
            let mut sub = MethodRouter::<Variables<H>>::new();
            sub.build().on(m, h);
            router.build().path(&pre[..]).path(&rest[..]).then().merge(sub);
        }
        _ => {
            // a merge inside a merged router
            let mut inner = DefaultRouter::<H>::new();
            inner.build().path(&rest[..]).then().on(m, h);
            let mut sub = DefaultRouter::<H>::new();
            sub.build().path(&pre[..]).merge(inner);
            router.build().merge(sub);
        }
    }
}

fn judge(out: Outcome, routes: &[Pat], req: &[Vec<u8>]) {
    let want = expected(routes, req, &Method::Get);
    match (out, want) {
        (Outcome::Ran(id), Some((i, al))) => {
            out_n(1, id as u64);
            let vars = captures(&routes[i].segs, req, &al);
            if vars.len() > 1 {
                cover("several variables");
            }
            if routes[..i].iter().any(|o| o.method == routes[i].method && same_shape(&o.segs, &routes[i].segs)) {
                cover("a route is registered again");
            }
            check(id == routes[i].id, "the registered handler is selected");
            check_map(&rec().vars, &vars, "variables have their registered names");
        }
        (Outcome::Refused(s), None) => {
            out_n(2, s as u64);
            cover("no route matches");
            check(s == 404 || s == 405, "a path that was not registered is refused");
        }
        (Outcome::Ran(_), None) => check(false, "only registered routes run"),
        (Outcome::Refused(_), Some(_)) => check(false, "a registered route is found"),
    }
}

/// params: request segments, strategy, split, number of routes, segments per route. The first route is registered
/// with the plain call, the others with the strategy.
#[no_mangle]
pub extern "C" fn vx_register() {
    let n = param(0);
    let k = param(3);
    let ms = [Method::Get, Method::Post];
    let routes: Vec<Pat> = (0..k).map(|i| ascii_pattern(param(4 + i), i, ms[pick(2)].clone())).collect();
    let req = ascii_request(n);
    let mut router = DefaultRouter::<H>::new();
    for (i, r) in routes.iter().enumerate() {
        reg_default(&mut router, r, if i == 0 { 0 } else { param(1) }, param(2));
    }
    judge(route(&router, Method::Get, &join(&req)), &routes, &req);
}

/// As above, but every route goes into one router that is merged behind a prefix of `split` segments.
#[no_mangle]
pub extern "C" fn vx_register_merge() {
    let n = param(0);
    let (pre, k) = (param(2), param(3));
    let ms = [Method::Get, Method::Post];
    let prefix = ascii_pattern(pre, 3, Method::Get);
    let mut routes: Vec<Pat> = (0..k).map(|i| ascii_pattern(param(4 + i), i, ms[pick(2)].clone())).collect();
    let req = ascii_request(n);
    let mut router = DefaultRouter::<H>::new();
    match param(1) {
        0 => {
            let sub: DefaultRouter<H> = routes.iter().map(|r| (r.method.clone(), text(&r.segs), H(r.id))).collect();
            router.build().path(&text(&prefix.segs)[..]).merge(sub);
        }
        1 => {
            // two routers merged one after the other
            for r in &routes {
                let mut sub = DefaultRouter::<H>::new();
                sub.build().path(&text(&r.segs)[..]).then().on(r.method.clone(), H(r.id));
                router.build().path(&text(&prefix.segs)[..]).merge(sub);
            }
        }
        _ => {
            router.build().path(&text(&prefix.segs)[..]).many(|n| {
                for r in &routes {
                    n.path(&text(&r.segs)[..]).many(|n| n.then().on(r.method.clone(), H(r.id)));
                }
            });
        }
    }
    for r in &mut routes {
        let mut s = prefix.segs.clone();
        s.append(&mut r.segs);
        r.segs = s;
    }
    judge(route(&router, Method::Get, &join(&req)), &routes, &req);
}

/// Two routers with some routes of their own and some that both have. params: literals, where the second is merged: 0 root /
/// 1 behind a literal / 2 behind a variable
#[no_mangle]
pub extern "C" fn vx_merge_overlap() {
    let names: Vec<Vec<u8>> = (0..param(0)).map(|i| vec![b'a' + i as u8]).chain(vec![b":v".to_vec(), b"*w".to_vec()]).collect();
    let at = [&b""[..], b"p/", b":q/"][param(1)];
    let places: Vec<usize> = names.iter().map(|_| pick(4)).collect();
    let m = if flag() { Method::Get } else { Method::Post };
    let (mut old, mut new) = (DefaultRouter::<H>::new(), DefaultRouter::<H>::new());
    for (i, n) in names.iter().enumerate() {
        if places[i] & 1 == 1 {
            old.build().path(&[at, n].concat()[..]).then().on_get(H(i));
        }
        if places[i] & 2 == 2 {
            new.build().path(&n[..]).then().on(m.clone(), H(10 + i));
        }
    }
    if param(1) == 0 {
        old.build().merge(new);
    } else {
        old.build().path(at).merge(new);
    }
    let c = byte();
    assume((c >= b'a') & (c <= b'z'));
    let prefix: &[u8] = if param(1) == 0 { b"/" } else { b"/p/" };
    let out = route(&old, Method::Get, &[prefix, &[c]].concat());
    let want = names.iter().enumerate().filter_map(|(i, n)| {
        let there = if places[i] & 2 == 2 && m == Method::Get { Some(10 + i) } else if places[i] & 1 == 1 { Some(i) } else { None };
        if i < param(0) && n[0] != c { None } else { there }
    }).next();
    match out {
        Outcome::Ran(id) => {
            cover("a merged route runs");
            out_n(1, id as u64);
            check(want == Some(id), "what was merged in wins, and nothing else is lost");
        }
        Outcome::Refused(_) => check(want.is_none(), "every route of both routers is there"),
    }
}

/// Routers whose nodes hold at most one handler. params as for vx_register
#[no_mangle]
pub extern "C" fn vx_register_option() {
    let n = param(0);
    let (strategy, k) = (param(1), param(3));
    let routes: Vec<Pat> = (0..k).map(|i| ascii_pattern(param(4 + i), i, Method::Get)).collect();
    let req = ascii_request(n);
    let mut router = TreeRouter::<Option<Variables<H>>>::new();
    for r in &routes {
        let split = param(2).min(r.segs.len());
        let (pre, rest) = (text(&r.segs[..split]), text(&r.segs[split..]));
        let h = H(r.id);
        match strategy {
            0 => {
                router.build().on_path(&text(&r.segs)[..], h);
            }
            1 => {
                router.build().path(&pre[..]).on_path(&rest[..], h);
            }
            2 => {
                router.build().path(&text(&r.segs)[..]).handler(h);
            }
            3 => {
                let last = r.segs.len().max(1) - 1;
                router.build().path(&text(&r.segs[..last])[..]).on_route(&text(&r.segs[last..])[..], h);
            }
            4 => {
                let mut sub = TreeRouter::<Option<Variables<H>>>::new();
                sub.build().on_path(&rest[..], h);
                router.build().path(&pre[..]).merge(sub);
            }
            6 | 7 => {
                // built on from a handler that was just registered
                let before = H(r.id + 40);
                let mut b = router.build();
                if strategy == 6 {
                    b.on_path(&pre[..], before).on_path(&rest[..], h);
                } else {
                    b.path(&pre[..]).handler(before).path(&rest[..]).handler(h);
                }
            }
            8 => {
                let before = H(r.id + 40);
                let last = split.max(1).min(r.segs.len()) - 1;
                let (a, b) = (text(&r.segs[..last]), text(&r.segs[last..split]));
                router.build().path(&a[..]).on_route(&b[..], before).on_path(&rest[..], h);
            }
            _ => {
                router.build().path(&pre[..]);
                match router.build().get_path(&pre[..]) {
                    Some(mut b) => {
                        b.path(&rest[..]).handler(h);
                    }
                    None => check(false, "a registered path can be found again"),
                }
            }
        }
    }
    if strategy >= 6 && strategy < 9 {
        let mut all = vec![];
        for r in routes {
            let split = param(2).min(r.segs.len());
            all.push(Pat { segs: r.segs[..split].to_vec(), id: r.id + 40, method: Method::Get });
            all.push(r);
        }
        return judge(route(&router, Method::Get, &join(&req)), &all, &req);
    }
    judge(route(&router, Method::Get, &join(&req)), &routes, &req);
}

/// `get_path` finds exactly the nodes that exist. params: segments of the route, segments looked up
#[no_mangle]
pub extern "C" fn vx_get_path() {
    let r = ascii_pattern(param(0), 0, Method::Get);
    let q = ascii_pattern(param(1), 1, Method::Get);
    let mut router = DefaultRouter::<H>::new();
    router.build().path(&text(&r.segs)[..]).then().on(Method::Get, H(0));
    let there = q.segs.len() <= r.segs.len() && same_shape(&r.segs[..q.segs.len()], &q.segs);
    let got = router.build().get_path(&text(&q.segs)[..]).is_some();
    if there {
        cover("an existing node is found");
    }
    out(1, &[got as u8]);
    check(got == there, "get_path finds the nodes that exist and no others");
}

// ---- C04

fn node_links(routes: &[Pat], req: &[Vec<u8>], method: &Method) -> Vec<LinkRec> {
    let mut out: Vec<LinkRec> = vec![];
    let mut add = |l: LinkRec| {
        if !out.iter().any(|o| o.method == l.method && o.path.len() == l.path.len() && o.path.iter().zip(&l.path).all(|(a, b)| a.0 == b.0 && same(&a.1, &b.1))) {
            out.push(l)
        }
    };
    for r in routes {
        for d in 0..=r.segs.len() {
            if alignments(&r.segs[..d], req).is_empty() {
                continue;
            }
            if d == r.segs.len() {
                if r.method != *method {
                    add(LinkRec { method: Some(r.method.as_ref().to_string()), path: vec![], handler: true, who: None });
                }
            } else {
                let s = &r.segs[d];
                add(LinkRec { method: None, path: vec![(s.kind, if s.kind == 0 { s.label.clone() } else { vec![] })], handler: false, who: None });
            }
        }
    }
    out
}

/// params: request segments, links on/off, number of routes, segments per route
#[no_mangle]
pub extern "C" fn vx_hyperlinks() {
    let n = param(0);
    let k = param(2);
    let ms = [Method::Get, Method::Post];
    let routes: Vec<Pat> = (0..k).map(|i| ascii_pattern(param(3 + i), i, ms[if i == 0 { 0 } else { pick(2) }].clone())).collect();
    let req = ascii_request(n);
    let mut router = DefaultRouter::<H>::new();
    router.find_hyperlinks = param(1) == 1;
    for r in &routes {
        router.build().path(&text(&r.segs)[..]).then().on(r.method.clone(), H(r.id));
    }
    if let Outcome::Ran(id) = route(&router, Method::Get, &join(&req)) {
        out_n(1, id as u64);
        let got = rec().links.clone();
        if param(1) == 0 {
            check(got.is_empty(), "no hyperlinks unless asked for");
            return;
        }
        let want = node_links(&routes, &req, &Method::Get);
        out_n(2, want.len() as u64);
        check(got.len() == want.len(), "as many hyperlinks as reachable neighbours, each listed once");
        for w in &want {
            let mut hit = false;
            for g in &got {
                hit |= g.method == w.method && g.path.len() == w.path.len() && g.handler == w.handler && g.path.iter().zip(&w.path).all(|(a, b)| a.0 == b.0 && (a.0 != 0 || same(&a.1, &b.1)));
            }
            check(hit, "every reachable neighbour is listed");
        }
        for g in got.iter().filter(|g| g.method.is_some()) {
            let m: Method = g.method.as_ref().unwrap().parse().unwrap();
            if let Outcome::Ran(there) = route(&router, m, &join(&req)) {
                cover("another method is listed");
                check(g.who == Some(there), "a link has the handler that will answer");
            } else {
                check(false, "somebody answers at a link");
            }
        }
        if want.iter().any(|w| w.method.is_none() && w.path[0].0 == 0) {
            cover("a literal child is listed");
        }
        if want.iter().any(|w| w.method.is_none() && w.path[0].0 == 2) {
            cover("a sequence child is listed");
        }
    }
}

fn same_link(a: &LinkRec, b: &LinkRec) -> bool {
    a.method == b.method && a.handler == b.handler && a.path.len() == b.path.len() && a.path.iter().zip(&b.path).all(|(x, y)| x.0 == y.0 && (x.0 != 0 || same(&x.1, &y.1)))
}
fn compare_links(got: &[LinkRec], want: &[LinkRec]) {
    out_n(2, want.len() as u64);
    check(got.len() == want.len(), "as many hyperlinks as there are endpoints and children");
    for w in want {
        let (a, b) = (got.iter().filter(|g| same_link(g, w)).count(), want.iter().filter(|g| same_link(g, w)).count());
        check(a == b, "every endpoint and child is listed, as often as it can be reached");
        if w.who.is_some() && b == 1 {
            cover("the handler of a link is known");
            check(got.iter().all(|g| !same_link(g, w) || g.who == w.who), "a link has the handler that will answer");
        }
    }
}
fn with_method(base: &LinkRec, m: &Method) -> LinkRec {
    LinkRec { method: Some(m.as_ref().to_string()), path: base.path.clone(), handler: base.handler, who: base.who }
}
fn handled(base: &LinkRec) -> LinkRec {
    LinkRec { method: base.method.clone(), path: base.path.clone(), handler: true, who: None }
}
/// What the root of a tree with these routes tells about itself
fn root_links(routes: &[Pat], base: &LinkRec) -> Vec<LinkRec> {
    let mut out: Vec<LinkRec> = vec![];
    for r in routes {
        let l = match r.segs.first() {
            None => handled(&with_method(base, &r.method)),
            Some(s) => {
                let mut l = LinkRec { method: base.method.clone(), path: base.path.clone(), handler: base.handler, who: base.who };
                l.path.push((s.kind, if s.kind == 0 { s.label.clone() } else { vec![] }));
                l
            }
        };
        if !out.iter().any(|o| same_link(o, &l)) {
            out.push(l)
        }
    }
    out
}

/// Links told by compositions of routers. params: shape, base method given, segments in the base path, routes and
/// their lengths
#[no_mangle]
pub extern "C" fn vx_nested_links() {
    use rustful::context::hypermedia::{Link, LinkSegment, SegmentType};
    let k = param(3);
    let ms = [Method::Get, Method::Post, Method::Delete];
    let routes: Vec<Pat> = (0..k).map(|i| ascii_pattern(param(4 + i), i, ms[pick(2)].clone())).collect();
    let mut tree = DefaultRouter::<H>::new();
    for r in &routes {
        tree.build().path(&text(&r.segs)[..]).then().on(r.method.clone(), H(r.id));
    }
    let label = vec![b'l', b'0' + pick(2) as u8];
    let word = std::str::from_utf8(&label).unwrap_or("");
    let kinds: Vec<usize> = (0..param(2)).map(|_| pick(3)).collect();
    let base = Link {
        method: if param(1) == 1 { Some(Method::Patch) } else { None },
        path: kinds
            .iter()
            .map(|k| LinkSegment { label: word.into(), ty: [SegmentType::Static, SegmentType::VariableSegment, SegmentType::VariableSequence][*k].clone() })
            .collect(),
        handler: None,
    };
    let b = LinkRec { method: base.method.as_ref().map(|m| m.as_ref().to_string()), path: kinds.iter().map(|k| (*k as u8, label.clone())).collect(), handler: false, who: None };
    let seen = |l: Vec<Link>| -> Vec<LinkRec> { l.iter().map(link_rec).collect() };
    match param(0) {
        0 => compare_links(&seen(tree.hyperlinks(base)), &root_links(&routes, &b)),
        1 => {
            let (m, spec) = method_router(3, 10);
            let mut want = root_links(&routes, &b);
            want.extend(method_links(&spec, &b));
            let both = OrElse::new(tree, m);
            compare_links(&seen(both.hyperlinks(base)), &want)
        }
        2 => {
            let mut r = StatusRouter::new();
            r.insert(StatusCode::NotFound, Some(tree));
            r.insert(StatusCode::Forbidden, None);
            compare_links(&seen(r.hyperlinks(base)), &root_links(&routes, &b))
        }
        3 => {
            let m = method_of(pick(8));
            let mut r = MethodRouter::new();
            r.insert(m.clone(), Some(tree));
            compare_links(&seen(r.hyperlinks(base)), &root_links(&routes, &with_method(&b, &m)))
        }
        _ => {
            tree.find_hyperlinks = flag();
            let inner = tree.find_hyperlinks;
            let plain = LinkRec { method: None, path: vec![], handler: false, who: None };
            let own = root_links(&routes, &plain);
            if param(0) == 4 {
                in_tree(tree, inner, own.clone(), own)
            } else {
                let mut m = MethodRouter::new();
                m.insert(Method::Get, Some(tree));
                in_tree(m, inner, own, root_links(&routes, &with_method(&plain, &Method::Get)))
            }
        }
    }
    cover("the neighbours are compared");
}
/// A router with a tree in it, and what to do when it has no answer, in a tree that searches for hyperlinks.
/// `own` is what the handlers of the inner tree are told, `want` what the outer tree is told about it.
fn in_tree<R: HandleRequest + rustful::handler::ApplyContext + Default>(r: R, inner: bool, own: Vec<LinkRec>, mut want: Vec<LinkRec>) {
    let (m, spec) = method_router(2, 10);
    let mut outer = TreeRouter::with_handler(OrElse::new(r, m));
    outer.find_hyperlinks = true;
    outer.build().path("c");
    let plain = LinkRec { method: None, path: vec![], handler: false, who: None };
    if let Outcome::Ran(id) = route(&outer, Method::Get, b"/") {
        out_n(1, id as u64);
        if id < 10 {
            cover("the nested handler is told about its neighbours");
            want = if inner { own } else { vec![] };
        } else {
            cover("a fallback is told about its neighbours");
            want.push(LinkRec { method: None, path: vec![(0, b"c".to_vec())], handler: false, who: None });
            want.extend(method_links(&spec, &plain));
        }
        let mut once: Vec<LinkRec> = vec![];
        for l in want {
            if (!l.path.is_empty() || l.method != Some("GET".to_string())) && !once.iter().any(|o| same_link(o, &l)) {
                once.push(l)
            }
        }
        compare_links(&rec().links, &once)
    }
}
fn method_links(s: &Spec, base: &LinkRec) -> Vec<LinkRec> {
    let mut out: Vec<LinkRec> = vec![];
    if let Methods(v) = s {
        for (m, _) in v {
            let mut l = handled(&with_method(base, m));
            l.who = v.iter().rev().find(|(n, _)| n == m).and_then(|(_, s)| if let Handler(i) = s { Some(*i) } else { None });
            if !out.iter().any(|o| same_link(o, &l)) {
                out.push(l)
            }
        }
    }
    out
}

// ---- C05

fn any_status() -> StatusCode {
    let b = bytes(2);
    let v = u16::from_le_bytes([b[0], b[1]]);
    assume((v >= 100) & (v < 600));
    StatusCode::from_u16(v)
}

enum Spec {
    Handler(usize),
    Missing,
    Methods(Vec<(Method, Spec)>),
    Statuses(Vec<(StatusCode, Spec)>),
    Else(Box<Spec>, Box<Spec>),
}
use self::Spec::*;

/// What a composition of routers does: Ok(handler, status it starts with) or Err(status left behind)
fn run(s: &Spec, m: &Method, st: StatusCode) -> Result<(usize, StatusCode), StatusCode> {
    match s {
        Handler(i) => Ok((*i, st)),
        Missing => Err(StatusCode::NotFound),
        Methods(v) => match v.iter().rev().find(|x| x.0 == *m) {
            Some(x) => run(&x.1, m, st),
            None => Err(StatusCode::MethodNotAllowed),
        },
        Statuses(v) => match v.iter().rev().find(|x| x.0.to_u16() == st.to_u16()) {
            Some(x) => run(&x.1, m, st),
            None => Err(st),
        },
        Else(a, b) => run(a, m, st).or_else(|st| run(b, m, st)),
    }
}

fn method_of(i: usize) -> Method {
    methods()[i].clone()
}

fn method_router(n: usize, base: usize) -> (MethodRouter<H>, Spec) {
    let mut r = MethodRouter::new();
    let mut v = vec![];
    for i in 0..n {
        let m = method_of(pick(4));
        r.insert(m.clone(), H(base + i));
        v.push((m, Handler(base + i)));
    }
    (r, Methods(v))
}
fn status_router(n: usize, base: usize) -> (StatusRouter<H>, Spec) {
    let mut r = StatusRouter::new();
    let mut v = vec![];
    for i in 0..n {
        let st = [StatusCode::NotFound, StatusCode::MethodNotAllowed, StatusCode::Ok, StatusCode::Unregistered(299)][pick(4)];
        if flag() {
            r.insert(st, H(base + i));
        } else {
            r.build().on(st, H(base + i));
        }
        v.push((st, Handler(base + i)));
    }
    (r, Statuses(v))
}

fn settle<R: HandleRequest>(router: R, spec: Spec, path: &[u8]) {
    let m = method_of(pick(3));
    let st = [StatusCode::Ok, StatusCode::NotFound, StatusCode::Unregistered(299), StatusCode::Forbidden][pick(4)];
    let want = run(&spec, &m, st);
    match (route_from(&router, m, path, st), want) {
        (Outcome::Ran(i), Ok((j, s))) => {
            out_n(1, i as u64);
            if s.to_u16() == 404 || s.to_u16() == 405 {
                cover("a handler answers an error");
            }
            if s.to_u16() == 200 {
                cover("a handler answers a request");
            }
            check(i == j, "the composition selects the handler");
            check(rec().status == s.to_u16(), "the handler sees the status it is selected for");
        }
        (Outcome::Refused(s), Err(w)) => {
            out_n(2, s as u64);
            cover("nobody answers");
            check(s == w.to_u16(), "a refused request carries the status");
        }
        (Outcome::Ran(_), Err(_)) => check(false, "no handler runs unless selected"),
        (Outcome::Refused(_), Ok(_)) => check(false, "a selected handler runs"),
    }
}

/// params: shape of the composition
#[no_mangle]
pub extern "C" fn vx_compose() {
    match param(0) {
        0 => {
            let ((a, x), (b, y)) = (method_router(2, 0), status_router(2, 10));
            settle(OrElse::new(a, b), Else(Box::new(x), Box::new(y)), b"/")
        }
        1 => {
            let (b, y) = status_router(1, 10);
            let (a, x) = if flag() { (Some(H(1)), Handler(1)) } else { (None, Missing) };
            settle(OrElse::new(OrElse::new(MethodRouter::<H>::new(), a), b), Else(Box::new(Else(Box::new(Methods(vec![])), Box::new(x))), Box::new(y)), b"/")
        }
        2 => {
            // handlers per method that fall back on handlers per status
            let (b, y) = status_router(1, 10);
            let (a, x) = if flag() { (Some(H(1)), Handler(1)) } else { (None, Missing) };
            let mut r = MethodRouter::new();
            let m = method_of(pick(3));
            r.insert(m.clone(), OrElse::new(a, b));
            settle(r, Methods(vec![(m, Else(Box::new(x), Box::new(y)))]), b"/")
        }
        3 => {
            // a tree with one route, in front of handlers per status
            let (b, y) = status_router(2, 10);
            let mut t = TreeRouter::<MethodRouter<H>>::new();
            let hit = flag();
            let (a, x) = method_router(1, 0);
            t.build().path("a").then().merge(a);
            let x = if hit { x } else { Missing };
            settle(OrElse::new(t, b), Else(Box::new(x), Box::new(y)), if hit { b"/a" } else { b"/b" })
        }
        4 => {
            // handlers per status below every node of a tree
            let (b, y) = status_router(1, 10);
            let (a, x) = method_router(1, 0);
            let mut both = OrElse::with_primary(a);
            both.secondary = b;
            let t = TreeRouter::with_handler(both);
            settle(t, Else(Box::new(x), Box::new(y)), b"/")
        }
        5 => {
            let (a, x) = status_router(1, 0);
            let (b, y) = status_router(1, 10);
            let mut both = OrElse::with_secondary(b);
            both.primary = a;
            settle(both, Else(Box::new(x), Box::new(y)), b"/")
        }
        _ => {
            // a tree in front of another tree
            let (a, x) = if flag() { (Some(H(1)), Handler(1)) } else { (None, Missing) };
            let (b, y) = if flag() { (Some(H(2)), Handler(2)) } else { (None, Missing) };
            let (s, z) = status_router(1, 10);
            let (mut t, mut u) = (TreeRouter::with_handler(a), TreeRouter::with_handler(b));
            t.find_hyperlinks = flag();
            u.find_hyperlinks = flag();
            settle(OrElse::new(OrElse::new(t, u), s), Else(Box::new(Else(Box::new(x), Box::new(y))), Box::new(z)), b"/")
        }
    }
}

/// A router by path in front of another one. params: request segments, segments of the route of the second,
/// number of routes of the first, their segments
#[no_mangle]
pub extern "C" fn vx_second_tree() {
    let n = param(0);
    let ms = [Method::Get, Method::Post];
    let first: Vec<Pat> = (0..param(2)).map(|i| ascii_pattern(param(3 + i), i + 2, ms[pick(2)].clone())).collect();
    let second = vec![ascii_pattern(param(1), 1, Method::Get)];
    let req = ascii_request(n);
    let (mut t, mut u) = (DefaultRouter::<H>::new(), DefaultRouter::<H>::new());
    t.find_hyperlinks = flag();
    u.find_hyperlinks = flag();
    for (r, routes) in vec![(&mut t, &first), (&mut u, &second)] {
        for p in routes {
            r.build().path(&text(&p.segs)[..]).then().on(p.method.clone(), H(p.id));
        }
    }
    let answered = expected(&first, &req, &Method::Get).is_some();
    let out = match pick(3) {
        0 => route(&OrElse::new(t, u), Method::Get, &join(&req)),
        1 => {
            let mut by_status = StatusRouter::new();
            by_status.insert(StatusCode::NotFound, u.clone());
            by_status.insert(StatusCode::MethodNotAllowed, u);
            route(&OrElse::new(t, by_status), Method::Get, &join(&req))
        }
        _ => {
            let mut by_status = StatusRouter::<Variables<H>>::new();
            by_status.build().on(StatusCode::NotFound, H(1));
            by_status.build().on(StatusCode::MethodNotAllowed, H(1));
            let out = route(&OrElse::new(t, by_status), Method::Get, &join(&req));
            if !answered {
                cover("behind a tree there is only a handler");
                check(if let Outcome::Ran(1) = out { true } else { false }, "the handler of the status answers");
                check(rec().vars.is_empty(), "there are no variables without a path");
                return;
            }
            out
        }
    };
    let routes = if answered {
        first
    } else {
        cover("the first tree has no answer");
        second
    };
    judge(out, &routes, &req);
}

fn any_method(n: usize) -> Method {
    let b = bytes(n);
    for x in &b {
        assume((*x >= b'A') & (*x <= b'Z'));
    }
    std::str::from_utf8(&b).unwrap().parse().unwrap()
}

/// Arbitrary statuses and methods. params: composition, letters of the methods
#[no_mangle]
pub extern "C" fn vx_compose_any() {
    let st = any_status();
    match param(0) {
        0 => {
            let s = any_status();
            let mut r = StatusRouter::new();
            r.insert(s, H(1));
            let o = route_from(&r, Method::Get, b"/", st);
            let hit = s.to_u16() == st.to_u16();
            match o {
                Outcome::Ran(_) => {
                    cover("a handler is selected by an arbitrary status");
                    check(hit, "a handler of another status does not run");
                    check(rec().status == st.to_u16(), "the handler sees the status it is selected for");
                }
                Outcome::Refused(x) => {
                    check(!hit, "the handler of the status runs");
                    check(x == st.to_u16(), "a status router leaves the status alone");
                }
            }
        }
        1 => {
            let (a, m) = (any_method(param(1)), any_method(param(1)));
            let mut r = MethodRouter::new();
            r.insert(a.clone(), H(1));
            match route_from(&r, m.clone(), b"/", st) {
                Outcome::Ran(_) => {
                    cover("a handler is selected by an arbitrary method");
                    check(a.as_ref() == m.as_ref(), "a handler of another method does not run");
                    check(rec().status == st.to_u16(), "selecting by method does not touch the status");
                }
                Outcome::Refused(x) => {
                    check(a.as_ref() != m.as_ref(), "the handler of the method runs");
                    check(x == 405, "an unknown method is reported");
                }
            }
        }
        2 => {
            // the first router leaves a status behind, the second answers it
            let (a, m) = (any_method(param(1)), Method::Get);
            let s = any_status();
            let (mut r, mut e) = (MethodRouter::new(), StatusRouter::new());
            r.insert(a.clone(), H(1));
            e.insert(s, H(2));
            let refused = a.as_ref() != "GET";
            match route_from(&OrElse::new(r, e), m, b"/", st) {
                Outcome::Ran(1) => check(!refused, "a handler of another method does not run"),
                Outcome::Ran(_) => {
                    cover("a fallback answers what was left behind");
                    check(refused & (s.to_u16() == 405), "the fallback answers the status left behind only")
                }
                Outcome::Refused(x) => check(refused & (s.to_u16() != 405) & (x == 405), "what nobody answers is refused"),
            }
        }
        _ => {
            // merging keeps what both have, the newcomer wins
            let (s, t) = (any_status(), any_status());
            if param(1) == 1 {
                assume((s.to_u16() >= 400) & (s.to_u16() < 412) & (t.to_u16() >= 404) & (t.to_u16() < 500));
            }
            let (mut r, mut q) = (StatusRouter::new(), StatusRouter::new());
            r.insert(s, H(1));
            q.insert(t, H(2));
            rustful::handler::Merge::merge(&mut r, q);
            let (x, y) = (s.to_u16() == st.to_u16(), t.to_u16() == st.to_u16());
            match route_from(&r, Method::Get, b"/", st) {
                Outcome::Ran(1) => check(x & !y, "the handler that was there runs unless it is replaced"),
                Outcome::Ran(_) => {
                    cover("a merged handler runs");
                    check(y, "the merged handler runs");
                }
                Outcome::Refused(_) => check(!x & !y, "a handler of the status runs"),
            }
        }
    }
}

type Node = OrElse<MethodRouter<Variables<H>>, StatusRouter<Variables<H>>>;

/// Variables reach handlers behind any composition. params: way of registering, length of the names, of the values
#[no_mangle]
pub extern "C" fn vx_compose_vars() {
    let (n, w) = (param(1), param(2));
    let names: Vec<Vec<u8>> = (0..2)
        .map(|_| {
            let b = bytes(n);
            for x in &b {
                assume((*x != b'/') & (*x < 0x80));
            }
            b
        })
        .collect();
    if n > 0 {
        assume(!same(&names[0], &names[1]));
    }
    let values: Vec<Vec<u8>> = (0..2)
        .map(|_| {
            let b = bytes(w);
            for x in &b {
                assume((*x != b'/') & (*x < 0x80));
            }
            b
        })
        .collect();
    let kind = [b':', b'*'][pick(2)];
    let (one, two) = ([&b":"[..], &names[0]].concat(), [&[kind][..], &names[1]].concat());
    let path = [&one[..], b"/", &two].concat();
    let mut t = TreeRouter::<Node>::new();
    t.find_hyperlinks = flag();
    let st = any_status_of(&[StatusCode::MethodNotAllowed, StatusCode::NotFound]);
    match param(0) {
        0 => {
            t.build().path(&path[..]).then().primary().on_get(H(1));
            t.build().path(&path[..]).then().secondary().on(st, H(2));
        }
        1 => {
            let mut u = TreeRouter::<Node>::new();
            u.build().path(&two[..]).then().many(|b| {
                b.primary().on_get(H(1));
            });
            u.build().path(&two[..]).then().many(|b| b.secondary().on(st, H(2)));
            t.build().path(&one[..]).merge(u);
        }
        2 => {
            let mut a = MethodRouter::new();
            a.build().on_get(H(1));
            let mut b = StatusRouter::new();
            b.build().on(st, H(2));
            let mut at = t.build();
            let mut at = at.path(&path[..]);
            at.then().primary().merge(a);
            at.then().secondary().merge(b);
        }
        3 => {
            // registered on an outer router whose node is found again
            t.build().path(&one[..]);
            let mut b = t.build();
            let mut b = b.get_path(&one[..]).unwrap();
            let mut b = b.path(&two[..]);
            b.then().primary().on_get(H(1));
            b.then().secondary().on(st, H(2));
        }
        _ => {
            // a status router of method routers instead
            let mut t = TreeRouter::<StatusRouter<MethodRouter<Variables<H>>>>::new();
            if flag() {
                t.build().path(&path[..]).then().status(StatusCode::Ok).on_get(H(1));
            } else {
                let mut u = TreeRouter::<StatusRouter<MethodRouter<Variables<H>>>>::new();
                u.build().path(&two[..]).then().status(StatusCode::Ok).on_get(H(1));
                t.build().path(&one[..]).merge(u);
            }
            let req = [&b"/"[..], &values[0], b"/", &values[1]].concat();
            if let Outcome::Ran(1) = route(&t, Method::Get, &req) {
                if w > 0 {
                    vars_are(&names, &values);
                }
            } else {
                check(w == 0, "the handler of the method runs");
            }
            return;
        }
    }
    let req = [&b"/"[..], &values[0], b"/", &values[1]].concat();
    let m = if flag() { Method::Get } else { Method::Post };
    match route(&t, m.clone(), &req) {
        Outcome::Ran(i) => {
            out_n(1, i as u64);
            check(if m == Method::Get { i == 1 } else { (i == 2) & (st == StatusCode::MethodNotAllowed) }, "the composition selects the handler");
            if i == 2 {
                cover("a fallback has variables");
            }
            if w > 0 {
                vars_are(&names, &values);
            }
        }
        Outcome::Refused(s) => {
            check((w == 0) | ((m == Method::Post) & (st != StatusCode::MethodNotAllowed)), "a selected handler runs");
            out_n(2, s as u64);
        }
    }
}
fn any_status_of(s: &[StatusCode]) -> StatusCode {
    s[pick(s.len())]
}
fn vars_are(names: &[Vec<u8>], values: &[Vec<u8>]) {
    cover("variables behind a composition");
    // names without a letter name nothing
    if names[0].is_empty() {
        return check(rec().vars.is_empty(), "variables without a name are not captured");
    }
    let want: Vec<_> = names.iter().cloned().zip(values.iter().cloned()).collect();
    check_map(&rec().vars, &want, "variables reach the handler of a composition");
}

/// Two compositions merged: where both have a handler the newcomer's runs, otherwise the one there is. params: shape
#[no_mangle]
pub extern "C" fn vx_merged() {
    use rustful::handler::Merge;
    type E = OrElse<MethodRouter<H>, StatusRouter<H>>;
    // four places, each with or without a handler in each of the two
    let places: Vec<(bool, bool)> = (0..4).map(|_| (flag(), flag())).collect();
    let who = |i: usize| -> Option<usize> {
        match places[i] {
            (_, true) => Some(10 + i),
            (true, _) => Some(i),
            _ => None,
        }
    };
    let fill = |e: &mut E, second: bool| {
        for (i, p) in places.iter().enumerate() {
            if if second { p.1 } else { p.0 } {
                let h = H(if second { 10 + i } else { i });
                match i {
                    0 => e.primary.insert(Method::Get, h),
                    1 => e.primary.insert(Method::Post, h),
                    2 => e.secondary.insert(StatusCode::MethodNotAllowed, h),
                    _ => e.secondary.insert(StatusCode::NotFound, h),
                }
            }
        }
    };
    let (mut a, mut b) = (E::default(), E::default());
    fill(&mut a, false);
    fill(&mut b, true);
    let k = pick(3);
    let m = [Method::Get, Method::Post, Method::Delete][k].clone();
    let mut want = if k < 2 { who(k) } else { None }.or(who(2));
    let got = match param(0) {
        0 => {
            a.merge(b);
            route(&a, m, b"/")
        }
        1 => {
            let (mut t, u) = (TreeRouter::with_handler(a), TreeRouter::with_handler(b));
            t.merge(u);
            route(&t, m, b"/")
        }
        2 => {
            let (mut t, u) = (TreeRouter::with_handler(Some(a)), TreeRouter::with_handler(Some(b)));
            let mut top = TreeRouter::new();
            if flag() {
                top.build().path("x").merge(t).merge(u);
            } else {
                t.build().merge(u);
                top.build().path("x").merge(t);
            }
            route(&top, m, b"/x")
        }
        3 => {
            // optional handlers
            let mut a = OrElse::new(if places[0].0 { Some(H(0)) } else { None }, if places[1].0 { Some(H(1)) } else { None });
            let b = OrElse::new(if places[0].1 { Some(H(10)) } else { None }, if places[1].1 { Some(H(11)) } else { None });
            a.merge(b);
            want = who(0).or(who(1));
            route(&a, m, b"/")
        }
        _ => {
            // children of every kind
            let path = ["s", ":v", "s/:v", "*w"];
            let mut a = TreeRouter::<Option<Variables<H>>>::new();
            let mut b = TreeRouter::<Option<Variables<H>>>::new();
            for (i, p) in places.iter().enumerate() {
                if p.0 {
                    a.build().on_path(path[i], H(i));
                }
                if p.1 {
                    b.build().on_path(path[i], H(10 + i));
                }
            }
            a.merge(b);
            let req = [&b"s"[..], b"q", b"s/q", b"q/r"][if k == 2 { 2 + pick(2) } else { k }];
            want = match (k, req) {
                (0, _) => who(0).or(who(1)).or(who(3)),
                (1, _) => who(1).or(who(3)),
                (_, b"s/q") => who(2).or(who(3)),
                _ => who(3),
            };
            route(&a, Method::Get, req)
        }
    };
    match got {
        Outcome::Ran(i) => {
            out_n(1, i as u64);
            if i >= 10 {
                cover("the newcomer runs");
            } else {
                cover("what was there before the merge runs");
            }
            check(Some(i) == want, "the merged handler runs, or else the one that was there");
        }
        Outcome::Refused(_) => check(want.is_none(), "the handlers of both routers are there"),
    }
}

/// Shorthands for methods: each of them means the method it is named after. params: way of registering
#[no_mangle]
pub extern "C" fn vx_shorthands() {
    let k = pick(8);
    let m = methods()[k].clone();
    let asked = methods()[pick(8)].clone();
    macro_rules! on {
        ($b:expr) => {{
            let b = $b;
            match k {
                0 => b.on_get(H(1)),
                1 => b.on_post(H(1)),
                2 => b.on_patch(H(1)),
                3 => b.on_put(H(1)),
                4 => b.on_delete(H(1)),
                5 => b.on_options(H(1)),
                6 => b.on_head(H(1)),
                _ => b.on_connect(H(1)),
            }
        }};
    }
    let out = match param(0) {
        0 => {
            let mut r = MethodRouter::<H>::new();
            on!(&mut r.build());
            route(&r, asked.clone(), b"/")
        }
        1 => {
            let mut r = DefaultRouter::<H>::new();
            let mut b = r.build();
            let mut b = b.path("a");
            on!(&mut b.then());
            route(&r, asked.clone(), b"/a")
        }
        _ => {
            let mut r = MethodRouter::<TreeRouter<Option<H>>>::new();
            {
                let mut b = r.build();
                match k {
                    0 => drop(b.get::<H>().handler(H(1))),
                    1 => drop(b.post::<H>().handler(H(1))),
                    2 => drop(b.patch::<H>().handler(H(1))),
                    3 => drop(b.put::<H>().handler(H(1))),
                    4 => drop(b.delete::<H>().handler(H(1))),
                    5 => drop(b.options::<H>().handler(H(1))),
                    6 => drop(b.head::<H>().handler(H(1))),
                    _ => drop(b.connect::<H>().handler(H(1))),
                }
            }
            route(&r, asked.clone(), b"/")
        }
    };
    match out {
        Outcome::Ran(_) => {
            cover("a shorthand names its method");
            check(asked == m, "a handler of another method does not run")
        }
        Outcome::Refused(s) => {
            check(asked != m, "the handler of the method runs");
            check(s == 405, "an unknown method is reported");
        }
    }
}

// ---- C06

/// The segments a path denotes: one leading and one trailing slash mean nothing, everything else does.
pub fn denotes(p: &[u8]) -> Vec<Vec<u8>> {
    let mut p = p;
    if !p.is_empty() && p[0] == b'/' {
        p = &p[1..];
    }
    if !p.is_empty() && p[p.len() - 1] == b'/' {
        p = &p[..p.len() - 1];
    }
    let mut out = vec![];
    if p.is_empty() {
        return out;
    }
    let mut cur = vec![];
    for b in p {
        if *b == b'/' {
            out.push(cur);
            cur = vec![];
        } else {
            cur.push(*b);
        }
    }
    out.push(cur);
    out
}

fn same_segs(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}

/// `segments` on arbitrary bytes. params: length
#[no_mangle]
pub extern "C" fn vx_segments() {
    let p = bytes(param(0));
    let got: Vec<Vec<u8>> = p[..].segments().map(|s| s.to_vec()).collect();
    let want = denotes(&p);
    out_n(1, got.len() as u64);
    if want.iter().any(|s| s.is_empty()) {
        cover("an empty segment inside a path");
    }
    if want.is_empty() && p.len() == 2 {
        cover("two slashes are the root");
    }
    check(same_segs(&got, &want), "a path splits into its segments");
    let (lo, hi) = p[..].segments().size_hint();
    check(lo <= want.len() && hi.map_or(true, |h| h >= want.len()), "the number of segments is within the announced bounds");
}

/// The same through slices of paths and strings. params: length of the two parts
#[no_mangle]
pub extern "C" fn vx_segments_list() {
    let (a, b) = (bytes(param(0)), bytes(param(1)));
    for x in a.iter().chain(&b) {
        assume(*x < 0x80);
    }
    let (a, b) = (String::from_utf8(a).unwrap(), String::from_utf8(b).unwrap());
    let mut want = denotes(a.as_bytes());
    want.append(&mut denotes(b.as_bytes()));
    let list = [&a[..], &b[..]];
    let got: Vec<Vec<u8>> = list.segments().map(|s| s.to_vec()).collect();
    out_n(1, got.len() as u64);
    check(same_segs(&got, &want), "a list of paths splits into the segments of its parts");
}

/// Two arbitrary spellings meet exactly when they denote the same segments. params: lengths of route and request
#[no_mangle]
pub extern "C" fn vx_spelling() {
    let (a, b) = (bytes(param(0)), bytes(param(1)));
    for x in a.iter().chain(&b) {
        assume(!one_of(*x, b":*") & (*x < 0x80));
    }
    let mut router = TreeRouter::<Option<H>>::new();
    if param(2) == 0 {
        router.build().on_path(&a[..], H(1));
    } else {
        router.build().path(&a[..]).handler(H(1));
    }
    let want = same_segs(&denotes(&a), &denotes(&b));
    let got = match route(&router, Method::Get, &b) {
        Outcome::Ran(_) => true,
        Outcome::Refused(_) => false,
    };
    out(1, &[got as u8]);
    if want && a.len() != b.len() {
        cover("different spellings of one path");
    }
    check(got == want, "spellings are the same path exactly when their segments are");
}

/// A router of the user's that takes nothing and leaves a status behind.
struct Leave(u16);
impl HandleRequest for Leave {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        e.response.set_status(StatusCode::from_u16(self.0));
        Err(e)
    }
    fn hyperlinks<'a>(&'a self, _: Link<'a>) -> Vec<Link<'a>> {
        vec![]
    }
}

/// C05. The status a router leaves behind is the answer, and 404 if it leaves a success. params: 0 alone / 1 behind a router by status / 2 in a tree
#[no_mangle]
pub extern "C" fn vx_left_behind() {
    let code = u16::from_le_bytes([byte(), byte()]);
    assume((code >= 200) & (code < 600));
    let text = crate::net::request("GET", b"/", &[("Host", b"h")], b"");
    let s = match param(0) {
        0 => crate::net::serve(crate::net::leaked(crate::net::plain_server(Leave(code))), &text),
        1 => {
            let by_status = StatusRouter::<H>::new();
            crate::net::serve(crate::net::leaked(crate::net::plain_server(OrElse::new(Leave(code), by_status))), &text)
        }
        _ => {
            let mut t = TreeRouter::with_handler(Leave(code));
            t.find_hyperlinks = flag();
            crate::net::serve(crate::net::leaked(crate::net::plain_server(t)), &text)
        }
    };
    let a = crate::net::answer(&s);
    out_n(1, a.status as u64);
    if code == 200 {
        cover("nobody answers and nobody complains");
    }
    check(a.status == if code == 200 { 404 } else { code }, "the status left behind is the answer");
    check(a.body.is_empty(), "nothing was sent");
}
