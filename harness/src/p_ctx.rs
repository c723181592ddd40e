//! C27: what a builder context says reaches every handler it is meant for.
use crate::util::*;
use crate::vx::*;
use rustful::context::hypermedia::Link;
use rustful::handler::{ApplyContext, Build, BuilderContext, Environment, FromHandler, HandleRequest, Merge, MethodRouter, OrElse, StatusRouter, TreeRouter, VariableNames, Variables};
use rustful::{Method, StatusCode};

/// Something of the user's own in a context.
#[derive(Clone)]
struct Tag(u8);

/// A handler that keeps what contexts tell it.
#[derive(Clone, Default)]
struct N {
    id: usize,
    tags: Vec<u8>,
    names: Vec<Vec<u8>>,
}
fn n(id: usize) -> N {
    N { id, tags: vec![], names: vec![] }
}
fn names_in(c: &mut BuilderContext) -> Option<Vec<Vec<u8>>> {
    c.remove::<VariableNames>().map(|v| v.0.iter().map(|x| x.as_ref().to_vec()).collect())
}
impl ApplyContext for N {
    fn apply_context(&mut self, mut c: BuilderContext) {
        if let Some(Tag(t)) = c.remove() {
            self.tags = vec![t];
        }
        if let Some(v) = names_in(&mut c) {
            self.names = v;
        }
    }
    fn prepend_context(&mut self, mut c: BuilderContext) {
        if let Some(Tag(t)) = c.remove() {
            self.tags.insert(0, t);
        }
        if let Some(mut v) = names_in(&mut c) {
            v.extend(self.names.drain(..));
            self.names = v;
        }
    }
}
impl FromHandler<usize> for N {
    fn from_handler(c: BuilderContext, id: usize) -> N {
        let mut x = n(id);
        x.apply_context(c);
        x
    }
}
impl Merge for N {
    fn merge(&mut self, other: N) {
        *self = other
    }
}
impl<'a> Build<'a> for N {
    type Builder = &'a mut N;
    fn get_builder(&'a mut self, mut c: BuilderContext) -> &'a mut N {
        if let Some(Tag(t)) = c.remove() {
            self.tags.push(t);
        }
        self
    }
}
impl HandleRequest for N {
    fn handle_request<'a, 'b, 'l, 'g>(&self, _: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        let r = rec();
        r.calls.push(self.id);
        r.vars = vec![(self.tags.clone(), vec![])];
        r.vars.extend(self.names.iter().map(|n| (vec![], n.clone())));
        Ok(())
    }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        vec![base]
    }
}

fn context(tag: Option<u8>, names: &Option<Vec<Vec<u8>>>) -> BuilderContext {
    let mut c = BuilderContext::new();
    if let Some(t) = tag {
        c.insert(Tag(t));
    }
    if let Some(ref v) = *names {
        c.insert(VariableNames(v.iter().map(|x| x.clone().into()).collect()));
    }
    c
}

/// How to get to a handler: method, path, status, id; and the names it has to begin with
struct Way(Method, &'static [u8], StatusCode, usize, Vec<Vec<u8>>);
fn way(path: &'static [u8], id: usize, names: &[&[u8]]) -> Way {
    Way(Method::Get, path, StatusCode::Ok, id, names.iter().map(|x| x.to_vec()).collect())
}

/// `tree`: the names end up in front of those collected by a tree. `named`: names reach the handlers.
fn contexts<R: HandleRequest + ApplyContext>(mut r: R, ways: Vec<Way>, tree: bool, named: bool) {
    let prepend = flag();
    let mut tags: Vec<u8> = vec![];
    let mut front: Option<Vec<Vec<u8>>> = None;
    let mut replaced = false;
    for _ in 0..param(1) {
        let tag = if flag() { Some(byte()) } else { None };
        let names: Option<Vec<Vec<u8>>> = match pick(3) {
            0 => None,
            k => Some((0..k).map(|_| bytes(1)).collect()),
        };
        let c = context(tag, &names);
        if prepend {
            r.prepend_context(c);
        } else {
            r.apply_context(c);
        }
        if let Some(t) = tag {
            if !prepend {
                tags.clear();
            }
            tags.insert(0, t);
        }
        if let (Some(mut v), true) = (names, named) {
            if prepend || tree {
                v.extend(front.take().unwrap_or_default());
            } else {
                replaced = true;
            }
            front = Some(v);
        }
    }
    let w = &ways[pick(ways.len())];
    match route_from(&r, w.0.clone(), w.1, w.2) {
        Outcome::Ran(i) => {
            out_n(1, i as u64);
            check(i == w.3, "the composition selects the handler");
        }
        Outcome::Refused(_) => check(false, "a selected handler runs"),
    }
    let got = &rec().vars;
    check(same(&got[0].0, &tags), "a context reaches every handler");
    if named {
        let mut want = front.unwrap_or_default();
        if !replaced {
            want.extend(w.4.iter().cloned());
        }
        check(got.len() == want.len() + 1, "variable names reach every handler");
        for (a, b) in got[1..].iter().zip(&want) {
            check(same(&a.1, b), "variable names reach every handler");
        }
    }
    cover(if prepend { "a context is prepended" } else { "a context is applied" });
}

type T = TreeRouter<Option<N>>;
fn tree() -> (T, Vec<Way>) {
    let mut t = T::new();
    t.build().handler(0);
    t.build().on_path("s", 1);
    t.build().on_path(":v", 2);
    t.build().on_path("a/:v/x", 3);
    t.build().on_path("b/*w", 4);
    t.build().on_path("b/*w/:u", 5);
    (t, vec![way(b"/", 0, &[]), way(b"/s", 1, &[]), way(b"/q", 2, &[b"v"]), way(b"/a/q/x", 3, &[b"v"]), way(b"/b/q", 4, &[b"w"]), way(b"/b/q/r", 5, &[b"w", b"u"])])
}
fn methods_of(base: usize) -> (MethodRouter<N>, Vec<Way>) {
    let mut r = MethodRouter::new();
    r.insert(Method::Get, n(base));
    r.insert(Method::Post, n(base + 1));
    (r, vec![way(b"/", base, &[]), Way(Method::Post, b"/", StatusCode::Ok, base + 1, vec![])])
}
fn statuses_of(base: usize) -> (StatusRouter<N>, Vec<Way>) {
    let mut r = StatusRouter::new();
    r.insert(StatusCode::NotFound, n(base));
    r.insert(StatusCode::Forbidden, n(base + 1));
    (r, vec![Way(Method::Get, b"/", StatusCode::NotFound, base, vec![]), Way(Method::Get, b"/", StatusCode::Forbidden, base + 1, vec![])])
}

/// A context is applied to, or prepended to, a composition of routers. params: shape, times
#[no_mangle]
pub extern "C" fn vx_context() {
    match param(0) {
        0 => {
            let (r, w) = methods_of(1);
            contexts(r, w, false, true)
        }
        1 => {
            let (r, w) = statuses_of(1);
            contexts(r, w, false, true)
        }
        2 => {
            let (p, mut w) = methods_of(1);
            w.push(Way(Method::Delete, b"/", StatusCode::Ok, 9, vec![]));
            contexts(OrElse::new(p, Some(n(9))), w, false, true)
        }
        3 => {
            let (r, w) = tree();
            contexts(r, w, true, true)
        }
        4 => {
            let (t, w) = tree();
            let mut r = MethodRouter::new();
            r.insert(Method::Get, t);
            contexts(r, w, true, true)
        }
        5 => {
            let (t, w) = tree();
            let mut s = StatusRouter::new();
            s.insert(StatusCode::Ok, Some(t));
            contexts(s, w, true, true)
        }
        6 => {
            let (m, mut w) = methods_of(1);
            let mut t = TreeRouter::with_handler(m);
            t.build().path("a").then().on(Method::Get, 5);
            w.push(way(b"/a", 5, &[]));
            contexts(t, w, true, true)
        }
        7 => {
            // the names apply to a tree of its own and to what stands in for it
            let (t, w) = tree();
            contexts(OrElse::new(t, n(9)), w, true, true)
        }
        8 => {
            let (t, mut w) = tree();
            w.truncate(1);
            contexts(TreeRouter::with_handler(t), w, true, true)
        }
        9 => contexts(Variables::<N>::from_handler(BuilderContext::new(), 3), vec![way(b"/", 3, &[])], false, false),
        10 => {
            let mut t = TreeRouter::<OrElse<MethodRouter<Variables<N>>, StatusRouter<Option<N>>>>::new();
            t.build().path("a").then().primary().on(Method::Get, 1);
            t.build().path("a").then().secondary().on(StatusCode::MethodNotAllowed, 2);
            contexts(t, vec![way(b"/a", 1, &[]), Way(Method::Post, b"/a", StatusCode::Ok, 2, vec![])], true, false)
        }
        _ => {
            let (t, w) = tree();
            contexts(OrElse::new(None::<N>, t), w, true, true)
        }
    }
}

/// A context given to a builder. params: shape
#[no_mangle]
pub extern "C" fn vx_context_build() {
    let t = byte();
    let c = context(Some(t), &None);
    let (id, tags) = match param(0) {
        0 => {
            let mut r = MethodRouter::<N>::new();
            let m = methods()[pick(8)].clone();
            match pick(3) {
                0 => r.get_builder(c).on(m.clone(), 1),
                1 => {
                    r.get_builder(c).many(|b| b.on(m.clone(), 1));
                }
                _ => {
                    let mut o = MethodRouter::<N>::new();
                    o.insert(m.clone(), n(1));
                    r.get_builder(c).merge(o);
                }
            }
            seen(&r, m, b"/", StatusCode::Ok)
        }
        1 => {
            let mut r = StatusRouter::<N>::new();
            let b = bytes(2);
            let v = u16::from_le_bytes([b[0], b[1]]);
            assume((v >= 100) & (v < 600));
            let st = StatusCode::from_u16(v);
            match pick(3) {
                0 => r.get_builder(c).on(st, 1),
                1 => {
                    r.get_builder(c).many(|b| b.on(st, 1));
                }
                _ => {
                    let mut o = StatusRouter::<N>::new();
                    o.insert(st, n(1));
                    r.get_builder(c).merge(o);
                }
            }
            seen(&r, Method::Get, b"/", st)
        }
        2 => {
            let mut r = OrElse::<MethodRouter<N>, MethodRouter<N>>::default();
            let mut o = MethodRouter::<N>::new();
            o.insert(Method::Get, n(1));
            match pick(5) {
                0 => r.get_builder(c).primary().on(Method::Get, 1),
                1 => r.get_builder(c).secondary().on(Method::Get, 1),
                2 => {
                    r.get_builder(c).many(|b| b.secondary().on(Method::Get, 1));
                }
                3 => {
                    r.get_builder(c).primary().merge(o);
                }
                _ => {
                    r.get_builder(c).secondary().merge(o);
                }
            }
            seen(&r, Method::Get, b"/", StatusCode::Ok)
        }
        3 => {
            let mut r = T::new();
            match pick(9) {
                0 => {
                    r.get_builder(c).on_path("a/b", 1);
                }
                1 => {
                    r.get_builder(c).path("a").path("b").handler(1);
                }
                2 => {
                    r.get_builder(c).path("a").on_route("b", 1);
                }
                3 => {
                    r.get_builder(c).path("a").many(|b| {
                        b.many(|b| {
                            b.on_path("b", 1);
                        });
                    });
                }
                4 => {
                    r.build().path("a");
                    if let Some(mut b) = r.get_builder(c).get_path("a") {
                        b.on_path("b", 1);
                    }
                }
                5 => {
                    let mut o = T::new();
                    o.build().on_path("b", 1);
                    r.get_builder(c).path("a").merge(o);
                }
                6 => {
                    let mut o = T::new();
                    o.build().on_path("a/b", 1);
                    r.get_builder(c).merge(o);
                }
                7 => {
                    let mut o = T::new();
                    o.build().on_path(":x/b", 1);
                    r.get_builder(c).merge(o);
                }
                _ => {
                    let mut o = T::new();
                    o.build().on_path("*x", 1);
                    r.get_builder(c).merge(o);
                }
            }
            seen(&r, Method::Get, b"/a/b", StatusCode::Ok)
        }
        4 => {
            let mut r = TreeRouter::<MethodRouter<N>>::new();
            let mut o = MethodRouter::<N>::new();
            o.insert(Method::Get, n(1));
            match pick(3) {
                0 => r.get_builder(c).path("a").then().on(Method::Get, 1),
                1 => {
                    r.get_builder(c).path("a").then().merge(o);
                }
                _ => {
                    let mut s = TreeRouter::<MethodRouter<N>>::new();
                    s.build().path("a").then().merge(o);
                    r.get_builder(c).merge(s);
                }
            }
            seen(&r, Method::Get, b"/a", StatusCode::Ok)
        }
        5 => {
            // a tree that is only made when it is asked for
            let mut r = MethodRouter::<TreeRouter<N>>::new();
            let path = &b"/a/b"[..if flag() { 4 } else { 0 }];
            if path.len() == 4 && flag() {
                r.build().method::<usize>(Method::Get).path("x");
                cover("a context is handed to the builder of what is there already");
            }
            r.get_builder(c).method::<usize>(Method::Get).path(path);
            seen(&r, Method::Get, path, StatusCode::Ok)
        }
        6 => {
            let mut r = StatusRouter::<N>::new();
            let there = flag();
            if there {
                r.build().status(StatusCode::Ok).id = 0;
            }
            r.get_builder(c).status(StatusCode::Ok).id = 0;
            let (_, tags) = seen(&r, Method::Get, b"/", StatusCode::Ok);
            check(tags.len() == if there { 1 } else { 2 }, "a handler made for a builder has its context");
            (1, vec![tags[0]])
        }
        _ => {
            let mut r = StatusRouter::<MethodRouter<Variables<N>>>::new();
            if flag() {
                r.build().status(StatusCode::Ok).on(Method::Post, 7);
            }
            r.get_builder(c).status(StatusCode::Ok).on(Method::Get, 1);
            seen(&r, Method::Get, b"/", StatusCode::Ok)
        }
    };
    out(1, &tags);
    check(id < 2, "the registered handler is selected");
    check(same(&tags, &[t]), "a builder's context reaches what it builds");
    cover("a context is handed to a builder");
}
fn seen<R: HandleRequest>(r: &R, m: Method, path: &[u8], st: StatusCode) -> (usize, Vec<u8>) {
    match route_from(r, m, path, st) {
        Outcome::Ran(i) => (i, rec().vars[0].0.clone()),
        Outcome::Refused(_) => {
            check(false, "a selected handler runs");
            (99, vec![])
        }
    }
}
