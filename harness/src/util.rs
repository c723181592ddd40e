//! Shared pieces: a recording handler, mock environments, small reference helpers.
#![allow(dead_code, static_mut_refs)]
use crate::vx::*;
use rustful::context::Context;
use rustful::handler::{Environment, HandleRequest};
use rustful::header::Headers;
use rustful::response::Response;
use rustful::server::Global;
use rustful::{Handler, Method, StatusCode};

#[derive(Default)]
pub struct Rec {
    pub calls: Vec<usize>,
    pub vars: Vec<(Vec<u8>, Vec<u8>)>,
    pub status: u16,
    pub links: Vec<LinkRec>,
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct LinkRec {
    pub method: Option<String>,
    /// kind 0 static, 1 variable, 2 sequence
    pub path: Vec<(u8, Vec<u8>)>,
    pub handler: bool,
    /// which handler, where it is known
    pub who: Option<usize>,
}
static mut REC: Option<Rec> = None;
pub fn rec() -> &'static mut Rec {
    unsafe {
        if REC.is_none() {
            REC = Some(Rec::default());
        }
        REC.as_mut().unwrap()
    }
}
pub fn reset() {
    unsafe { REC = Some(Rec::default()) }
}
pub fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

/// Records that it ran, with which variables, status and hyperlinks.
#[derive(Clone)]
pub struct H(pub usize);
impl Handler for H {
    fn handle(&self, context: Context, response: Response) {
        let r = rec();
        r.calls.push(self.0);
        r.vars = context.variables.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect();
        r.status = response.status().to_u16();
        r.links = context.hyperlinks.iter().map(link_rec).collect();
    }
}

/// What a hyperlink says.
pub fn link_rec(l: &rustful::context::hypermedia::Link) -> LinkRec {
    use rustful::context::hypermedia::SegmentType;
    LinkRec {
        method: l.method.as_ref().map(|m| m.as_ref().to_string()),
        path: l
            .path
            .iter()
            .map(|s| {
                (
                    match s.ty {
                        SegmentType::Static => 0,
                        SegmentType::VariableSegment => 1,
                        SegmentType::VariableSequence => 2,
                    },
                    s.label.as_ref().to_vec(),
                )
            })
            .collect(),
        handler: l.handler.is_some(),
        // every handler that ends up in a link is an H
        who: l.handler.map(|h| unsafe { (*(h as *const Handler as *const H)).0 }),
    }
}

pub enum Outcome {
    /// the handler that ran
    Ran(usize),
    /// nobody took the request; the status left behind
    Refused(u16),
}

/// Sends one mocked request through a router. Checks that exactly one handler ran when the router reports success and
/// none otherwise.
pub fn route<R: HandleRequest>(router: &R, method: Method, path: &[u8]) -> Outcome {
    route_from(router, method, path, StatusCode::Ok)
}
pub fn route_from<R: HandleRequest>(router: &R, method: Method, path: &[u8], status: StatusCode) -> Outcome {
    reset();
    let global: &'static Global = leak(Global::default());
    let path: &'static Vec<u8> = leak(path.to_vec());
    let context = Context::mock(method, "/", Headers::new(), global);
    let mut response = Response::mock(global);
    response.set_status(status);
    let result = router.handle_request(Environment { context, response, route_state: (&path[..]).into() });
    match result {
        Ok(()) => {
            check(rec().calls.len() == 1, "exactly one handler runs");
            Outcome::Ran(rec().calls[0])
        }
        Err(e) => {
            check(rec().calls.is_empty(), "a refused request ran no handler");
            Outcome::Refused(e.response.status().to_u16())
        }
    }
}

pub fn methods() -> [Method; 8] {
    [Method::Get, Method::Post, Method::Patch, Method::Put, Method::Delete, Method::Options, Method::Head, Method::Connect]
}

/// Order-insensitive comparison of variable maps.
pub fn check_map(got: &[(Vec<u8>, Vec<u8>)], want: &[(Vec<u8>, Vec<u8>)], id: &str) {
    check(got.len() == want.len(), id);
    for (k, v) in want {
        let mut hit = false;
        for (a, b) in got {
            hit |= same(a, k) & same(b, v);
        }
        check(hit, id);
    }
}
