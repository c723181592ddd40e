#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json
P = []


def p(pid, title, statement, over, text, why, files, mech):
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


T = "src/handler/tree_router.rs"
p("C01", "Routing selects the best matching registered route",
  "For every set of registered routes and every request, the handler that runs belongs to a route whose pattern matches the whole request path and whose method is the request's; among several, a literal segment wins over a variable, and a variable over a sequence, compared from the left. When no route matches nothing runs, and the answer is 405 if only the method is missing and 404 otherwise. Whether hyperlinks are searched makes no difference, nor what the router was asked before.",
  ["programs", "inputs", "configurations", "histories"], "all route sets and request paths within the bounds (segments, their kinds, their bytes), with and without hyperlinks",
  "The unit tests route a dozen fixed paths over fixed trees; precedence and backtracking depend on how arbitrary routes overlap on arbitrary paths.",
  [T, "src/handler/method_router.rs", "src/handler/routing.rs"], [("tree search with precedence and backtracking", T), ("selection by method", "src/handler/method_router.rs")])
p("C02", "Route variables capture exactly their part of the path",
  "When a handler runs, its variables are exactly those its route names, each with the bytes of the segment it stands for, or of all segments of a sequence joined by '/'. A repeated name has the last value, an empty name captures nothing. Whatever a router tries before (skipping, keeping, fusing and going back), only the way it finally took decides.",
  ["inputs", "programs"], "all routes, names and values of arbitrary bytes within the bounds",
  "Tests capture a few ASCII words; names and values can be any bytes, and the captured positions depend on which alternative of the search won.",
  [T, "src/handler/routing.rs", "src/handler/variables.rs"], [("variable positions recorded during the search", "src/handler/routing.rs"), ("names paired with values", "src/handler/variables.rs")])
p("C03", "Registering routes piecewise is the same as registering them whole",
  "However a route is registered (as one path, nested, through a found path, merged from another router, from a list, or on an existing node) the router treats requests as if it had been registered as one path. Later registrations replace the same route and disturb no other.",
  ["programs", "histories"], "all ways of registering all pairs and triples of routes within the bounds",
  "Each builder method has one or two examples; that they compose is a statement about all registrations and all requests.",
  [T, "src/handler/mod.rs", "src/handler/method_router.rs"], [("builders and merge", T), ("builder contexts applied to merged nodes", "src/handler/mod.rs")])
p("C04", "Hyperlinks list exactly what is reachable next",
  "With hyperlink search enabled, a handler is given exactly the links of its node: every other method and every direct child, once, with the right kind, label and method, and with the handler that a request there would reach. Without it there are none.",
  ["inputs", "programs", "configurations"], "all route sets and requests within the bounds",
  "Tests compare the links of a handful of fixed trees.",
  [T, "src/context/hypermedia.rs"], [("collection of links during the search", T)])
p("C05", "Composed routers select by status and method and fall back in order",
  "A router by status runs the handler of exactly the current status and changes nothing otherwise; a router by method runs the handler of exactly the request's method and leaves 405 otherwise; an either-or router tries the second with the status the first left behind, and on the same path. Any composition of these with path routers behaves as the composition of their rules, and variables reach handlers behind it. A request that every handler hands back is answered with the status it was left with, and 404 where that is 200.",
  ["programs", "inputs"], "arbitrary statuses and methods, and seven shapes of compositions, trees in front of trees",
  "Compositions are tested by doc examples only; statuses and methods are open sets.",
  ["src/handler/or_else.rs", "src/handler/status_router.rs", "src/handler/method_router.rs", T], [("or_else on the returned environment", "src/handler/or_else.rs"), ("lookup by status", "src/handler/status_router.rs")])
p("C06", "Spellings of a path mean the same exactly when their segments do",
  "One leading and one trailing slash are insignificant, every other slash separates segments, empty ones included; registered paths and requested paths are read by the same rule. No registered path makes registration panic.",
  ["inputs"], "all byte strings within the bounds, as route and as request",
  "Tests use a few well-formed paths.",
  ["src/handler/routing.rs", T], [("segments", "src/handler/routing.rs")])
p("C07", "Every request target is split and decoded into path, query and fragment",
  "For every request target in any of its forms, the handler sees the percent-decoded path, the decoded parameters of the query and the decoded fragment, where a fragment starts at the first '#' and a query at the first '?' before it. Invalid escapes stay as they are. A path taken as text, bytes or for display is those same bytes.",
  ["inputs"], "all targets within the bounds, through the whole server",
  "Tests parse five fixed targets.",
  ["src/server/instance.rs", "src/utils.rs"], [("parse_url and parse_path", "src/server/instance.rs"), ("parse_parameters", "src/utils.rs")])
p("C08", "Form decoding is total, lossless and inverts encoding",
  "Every byte string decodes as a form: pairs split at '&', names from values at the first '=', '+' is a space, valid escapes are bytes and anything else stands for itself. Encoding any parameters and decoding them again yields the same parameters, in queries and in bodies alike.",
  ["inputs"], "all forms within the bounds, and all pairs of parameters encoded in two ways",
  "Tests decode a few well-formed strings.",
  ["src/utils.rs", "src/context/body.rs"], [("parse_parameters", "src/utils.rs"), ("read_query_body", "src/context/body.rs")])
p("C09", "Possibly-UTF-8 strings never lose or change bytes",
  "Whatever bytes, strings and characters are pushed or truncated in whatever order, the result holds exactly the bytes that were given, and is marked as UTF-8 exactly when they are. Conversions keep the bytes, and are lossy only when asked.",
  ["inputs", "histories"], "all histories and bytes within the bounds",
  "Tests push two or three fixed strings; a string can stop and start being UTF-8 at any point of a history.",
  ["src/context/maybe_utf8.rs"], [("push_bytes, push_char and as_buffer", "src/context/maybe_utf8.rs")])
p("C10", "Possibly-UTF-8 strings compare and hash as their bytes; maps follow",
  "Equality, order and hash depend only on the bytes, also against str, String, Cow and byte slices from either side. A parameter map finds, replaces and removes by bytes, and parses values exactly when they are valid.",
  ["inputs", "histories"], "all pairs of strings and histories of map operations within the bounds",
  "Tests compare a few equal strings.",
  ["src/context/maybe_utf8.rs", "src/context/parameters.rs"], [("PartialEq, Ord, Hash, Borrow", "src/context/maybe_utf8.rs"), ("Parameters", "src/context/parameters.rs")])
R = "src/response.rs"
p("C11", "Sized responses are complete and correctly framed",
  "A response sent at once reaches the client as one message with its status, its headers, a content length equal to the body and the body unchanged, whatever length was declared before. Statuses without a body carry none. On a connection that breaks, sending succeeds exactly when all of it was sent, and what was sent is the start of it.",
  ["inputs", "configurations"], "all bodies, ways of sending, statuses and earlier content lengths within the bounds",
  "The unit tests never look at the bytes on the wire.",
  [R], [("send and try_send", R)])
p("C12", "Chunked responses carry exactly what was written",
  "The chunks of a streamed response, however and in whatever sizes it is written, decode to exactly the bytes written, in order, and the message is terminated whether the response is ended or dropped. An empty write does not end it. On a connection that breaks, the stream succeeds exactly when all of it was sent, what was flushed was sent, and what was sent is the start of it.",
  ["inputs", "histories"], "all pieces and ways of writing within the bounds",
  "The unit tests never look at the bytes on the wire.",
  [R], [("Chunked and its Drop", R)])
p("C13", "Raw responses never exceed the length they declare",
  "A response with a declared length carries that length and at most that many bytes, in the order they were written; what exceeds it is reported as an error and not sent. On a connection that breaks, the response succeeds exactly when all of it was sent, what was flushed was sent, and what was sent is the start of it.",
  ["inputs", "histories"], "all declared lengths and writes within the bounds",
  "The unit tests never look at the bytes on the wire.",
  [R], [("Raw", R)])
p("C14", "Response filters see and change everything in order, once",
  "Every response passes every filter: begin in order over status and headers, each piece of content through all filters in order, then the ends, each ending's output through the filters behind it. Dropped content disappears alone, added content appears where it was added, aborts stop the response and are reported, and the client sees exactly the result, correctly framed. What is sent after an abort at the beginning is an error. What filters share belongs to one response, and is kept as it was put there.",
  ["programs", "inputs", "fault_sequences"], "all combinations of filter actions and contents within the bounds",
  "Two doc examples use pass-through filters.",
  [R, "src/filter.rs"], [("filter_headers, write and end of Chunked", R)])
p("C15", "On a kept connection every request gets exactly one response, its own",
  "For every sequence of requests on one connection, however its bytes arrive, each request reaches the handler once and is answered by exactly one well-formed response belonging to it, in order, whether the handler sends, streams, drops or ignores the response. The connection is kept exactly when the client asks for it. Requests on other connections at the same time make no difference.",
  ["inputs", "histories", "schedules"], "sequences of requests with and without bodies, 8 ways of answering, all arrival cuts within the bounds",
  "Tests never send two requests on one connection.",
  ["src/server/instance.rs", R, "src/context/body.rs"], [("handling of a request", "src/server/instance.rs"), ("Drop of responses", R)])
p("C16", "Context filters run in order and can redirect or stop a request",
  "Context filters run in order before routing; routers and handlers see what they made of the request. The first that aborts determines the status, nothing behind it and no handler runs, response filters still do, and all filters of a request share one storage.",
  ["programs", "inputs"], "all combinations of actions, statuses and changes within the bounds",
  "One doc example.",
  ["src/server/instance.rs", "src/filter.rs"], [("modify_context", "src/server/instance.rs")])
p("C17", "Connections are kept alive only while enough threads stay free",
  "With keep-alive configured, a response closes its connection exactly when the open connections and the threads to be kept free exceed the number of threads, for every history of connections and every configuration, and tells the client so. Connections that come and go at the same time are each counted. Without it connections are never closed for that reason.",
  ["histories", "configurations", "schedules"], "arbitrary 64-bit settings, histories and interleavings of two threads within the bounds",
  "Not tested at all.",
  ["src/server/instance.rs", R], [("count of open connections, force_close", "src/server/instance.rs")])
p("C18", "Accepted paths never leave their directory",
  "A path is accepted exactly when it is not absolute and no component of it is a parent directory, for every byte string; an accepted path joined to a directory therefore stays below it.",
  ["inputs"], "all paths within the bounds",
  "Tests check six fixed paths.",
  ["src/file.rs"], [("check_path", "src/file.rs")])
p("C19", "Global data is stored by type and retrieved unchanged",
  "The value found for a type is the last one stored for it, other types are unaffected, whatever way the store was made and in whatever order values were added.",
  ["histories", "inputs"], "all histories within the bounds",
  "Tests store two or three values in fixed order.",
  ["src/server/mod.rs", "src/server/config.rs"], [("Global", "src/server/mod.rs")])
p("C20", "Host addresses keep what they were given",
  "Changing the port of a host changes the port alone, making a host from an address and back is the identity, and a text is a host exactly when it is a socket address.",
  ["inputs"], "all addresses and ports, texts within the bounds",
  "Tests use no addresses.",
  ["src/server/config.rs"], [("Host", "src/server/config.rs")])
p("C21", "Files are sent complete, with the type of their extension",
  "Every extension has exactly the type the Apache table gives it, or none. A file is sent with the status that was set, its whole content and its type; when it cannot be opened the response can be recovered, missing files are distinguished from other failures, and nothing of a failed attempt remains. A directory is not sent as a file. When a file cannot be read to the length it had when it was opened, that is an error and the incomplete response is the last on its connection. When the connection breaks, sending succeeds exactly when all of it was sent.",
  ["inputs", "fault_sequences"], "all extensions, contents and failures within the bounds",
  "Tests look up two extensions and never send a file.",
  ["src/file.rs", R, "build/mime.rs"], [("ext_to_mime", "src/file.rs"), ("send_file and FileError", R), ("generated table", "build/mime.rs")])
p("C22", "Whatever can be sent arrives as itself, with the status it implies",
  "Every kind of sendable value (strings, bytes, options, results, I/O errors, boxes, files) produces its own content and the status its meaning implies, the same for every way of sending; every kind of handler and content factory answers its request; a mocked response accepts what a real one would.",
  ["inputs", "programs"], "all kinds of values and handlers with arbitrary bytes",
  "Doc examples only.",
  [R, "src/handler/mod.rs"], [("SendResponse implementations", R), ("Handler and ContentFactory implementations", "src/handler/mod.rs")])
p("C23", "No request makes the server fail",
  "Whatever bytes a client sends, as target, method, version, header or body, a request that the HTTP layer accepts is answered by exactly one well-formed response, without a panic and in finite time, also when the handler reads everything it is given.",
  ["inputs"], "windows of arbitrary bytes in every part of a request",
  "Tests send no malformed request.",
  ["src/server/instance.rs", "src/utils.rs", "src/context/body.rs", T], [("parsing", "src/utils.rs"), ("request handling", "src/server/instance.rs")])
p("C24", "Handlers read exactly the body that was sent",
  "A handler reads exactly the bytes of the body, however they are framed, cut by the network and read, and then the end; a body that ends early is an error. A body is multipart exactly when it is a form with a boundary, and then its fields are those that were sent.",
  ["inputs", "schedules"], "bodies, boundaries, framings and cuts within the bounds",
  "Tests use mocked, empty bodies.",
  ["src/context/body.rs"], [("BodyReader", "src/context/body.rs")])
p("C25", "Hyperlinks are totally ordered, by method and path",
  "Comparing links is reflexive, antisymmetric, transitive and consistent with equality; links without a method come first, then methods alphabetically, then paths; handlers do not matter.",
  ["inputs"], "all pairs and triples of links within the bounds",
  "Tests sort one list.",
  ["src/context/hypermedia.rs"], [("Ord for Link", "src/context/hypermedia.rs")])
p("C26", "Handlers are told exactly what the client sent",
  "Method, header names and values, HTTP version, host and client address in the context are those of the request, for every method and header value.",
  ["inputs"], "methods, values and ports of arbitrary bytes within the bounds",
  "Tests mock contexts instead.",
  ["src/server/instance.rs", "src/context/mod.rs"], [("construction of the context", "src/server/instance.rs")])
p("C27", "A builder context reaches every handler it is meant for",
  "What is put in a builder context, or applied or prepended to a router, reaches every handler registered, made or merged through it and all handlers in the router, wherever they sit, once and in order.",
  ["inputs", "programs"], "all contexts and compositions within the bounds",
  "Tests only follow variable names through a few fixed routers.",
  ["src/handler/mod.rs", "src/handler/tree_router.rs", "src/handler/method_router.rs", "src/handler/status_router.rs", "src/handler/or_else.rs", "src/handler/variables.rs"], [("contexts of builders and routers", "src/handler/mod.rs")])
p("C28", "Responses start from the configuration of the server, and handlers can change it",
  "Every response carries the date, the server's configured name and its configured default media type, unless the handler replaces, changes or removes them; handlers and filters see the configured global data. A server that is not configured has the documented defaults. A name is one header, whatever it contains, and a media type made by the macro says what was written.",
  ["configurations", "inputs"], "all names, media types and data within the bounds, ways of responding, and ways of changing the defaults",
  "Nothing in the test suite looks at the headers of a response; the macro has three fixed examples.",
  ["src/server/mod.rs", "src/server/instance.rs", "src/macros.rs", "src/response.rs"], [("default headers", "src/server/instance.rs"), ("defaults", "src/server/mod.rs"), ("content_type!", "src/macros.rs")])

TECH = "symbolic execution of the LLVM IR of /repo (own executor, regenerated every run) with z3 deciding every assertion for all inputs within the bounds; counterexamples are replayed natively"
NOT = {}
if __name__ == "__main__":
    import checks
    with open("properties.jsonl", "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NOT.items()]}
    for x in P:
        i = x["id"]
        if i in NOT:
            continue
        b = checks.CHECKS[i]["bounds"]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "technique": TECH,
                            "level": "model_checking", "level_note": "bounded: " + (b if isinstance(b, str) else b["quick"])})
    with open("MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
