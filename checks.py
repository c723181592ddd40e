"""What each property's check runs: entries, bounds, required witnesses."""
COMMON = [
    "the LLVM IR of harness + /repo + dependencies + std is executed as rustc 1.99.1 emits it (opt-level 1, overflow checks on, httparse without SIMD)",
    "allocation never fails; the clock stands at 2023-11-14 22:13:20 UTC; randomness is constant; std's DefaultHasher is replaced by a hash of the lengths written",
]
CHECKS = {}


def check(pid, jobs, bounds, covers, assumptions=()):
    CHECKS[pid] = dict(jobs=jobs, bounds=bounds, covers=covers, assumptions=list(assumptions))


def j(entry, *params, split=(), **kw):
    return dict(entry=entry, params=list(params), split=list(split), **kw)


def va(entry, *params, kinds=14, **kw):
    # the same entry for every kind of request: method, version, further headers, keep-alive
    return j(entry, *(list(params) + [0] * (14 - len(params)) + [kinds]), **kw)


def both(quick, more):
    return lambda tier: quick + (more if tier == "thorough" else [])


# C01 ------------------------------------------------------------------------------------------------------------
def ro(n, links, *lens, split=True):
    # the first picks are the kinds of the segments of the routes
    total = sum(lens)
    return j("vx_route_option", n, links, len(lens), *lens, split=[3] * min(total, 2) if split else [])


def rd(n, links, *lens):
    s = []
    for l in lens:
        s += [2] + [3] * l  # method, kinds (arguments are evaluated in that order)
    return j("vx_route_default", n, links, len(lens), *lens, split=[None])


C01Q = [ro(n, links, *l) for links in (0, 1) for n, l in [(1, (1, 1)), (2, (1, 2)), (2, (2, 2)), (2, (2, 1)), (3, (2, 2)), (3, (3, 2)), (3, (2, 3)), (2, (1, 1, 2)), (2, (2, 2, 1)), (1, (2, 0)), (0, (1, 0))]]
C01Q += [ro(3, 0, 3, 3), ro(4, 1, 3, 2), ro(4, 0, 2, 3)]
C01Q += [rd(n, links, *l) for links in (0, 1) for n, l in [(0, (0, 1)), (1, (1, 1)), (2, (2, 2)), (2, (1, 2)), (3, (3, 2))]]
C01Q += [j("vx_route_lengths", 2, links, 2, 2, split=[3, None]) for links in (0, 1)] + [j("vx_route_lengths", 3, 0, 3, 1, split=[3]), j("vx_route_bytes", 0), j("vx_route_bytes", 1)]
C01T = [ro(4, links, *l) for links in (0, 1) for l in [(3, 3), (4, 2), (2, 2, 2), (3, 2, 1)]] + [ro(3, links, 2, 2, 2) for links in (0, 1)] + [ro(3, 1, 3, 3), ro(5, 0, 3, 3), ro(5, 1, 3, 2)]
C01T += [rd(2, 1, 1, 2, 2), rd(2, 0, 1, 2, 1), rd(3, 1, 3, 3), rd(4, 0, 3, 2), rd(4, 1, 3, 2)] + [j("vx_route_lengths", 3, links, 3, 2, split=[3]) for links in (0, 1)]
C01Q += [j("vx_deep", f, d, l, w) for f, d, l, w in [(0, 120, 0, 0), (1, 300, 0, 0), (2, 60, 0, 0), (3, 200, 0, 0), (0, 40, 1, 2), (1, 40, 1, 2), (2, 9, 1, 0), (3, 40, 1, 2), (4, 30, 0, 1), (4, 30, 1, 0), (4, 200, 0, 0)]] + [j("vx_wide", 60, 0, 0), j("vx_wide", 30, 2, 1)]
C01Q += [j("vx_some_methods", n, 0, l) for n, l in [(1, 0), (2, 1)]] + [j("vx_again", *l) for l in [(0, 1, 1, 2, 1, 1), (1, 1, 1, 2, 1, 1), (0, 1, 2, 2, 2, 1), (1, 0, 2, 2, 1, 2), (0, 0, 2, 2, 2, 2), (1, 0, 1, 3, 1, 1, 1)]] + [j("vx_again", 0, 1, 2, 2, 2, 2, split=[2, 3])]
C01T += [j("vx_again", *l, split=[2, 3, None]) for l in [(1, 1, 2, 2, 2, 2), (0, 0, 2, 3, 2, 2, 1), (1, 0, 2, 3, 2, 1, 2), (0, 1, 3, 2, 3, 2)]]
C01T += [j("vx_wide", 300, 2, 0), j("vx_deep", 0, 300, 0, 0)]
check("C01", both(C01Q, C01T), {
    "quick": "up to 3 routes of up to 3 segments (kinds literal/variable/sequence, method one of two), requests of up to 4 segments; labels and request segments one arbitrary ASCII byte each, or 0..2 bytes (two routes of 2+2 and 3+1 segments), or two arbitrary bytes (one literal next to a variable); with and without find_hyperlinks; one arbitrary byte at five places of paths of up to 300 segments against literals, variables and sequences of that length, and every byte of 60 segments against two sequences; two arbitrary bytes against 60 literals next to each other; three routes of up to 200 segments that part at five places, against a path with two arbitrary segments; three or four requests, two of them of different arbitrary segments, to one router of up to three routes, some registered in between; up to 2 of eleven methods at one place, each asked for",
    "thorough": "as quick, and three routes of 2 segments, two routes of 3+3 and 4+2 segments, requests of up to 5 segments",
}, ["a method that is not there", "one request is answered and another is not", "a request is answered after one that was not", "only one of two methods is answered", "a route is there when it was registered", "from a literal back to a variable", "from a variable back to a sequence", "a long literal path", "many variables", "a long sequence", "the last place a literal can be", "back to the first segment", "one of many literals", "no route matches", "a sequence takes several segments", "a variable wins", "a literal wins", "only another method matches", "an empty segment is captured", "three literals match", "a literal is not ASCII"],
    ["the reference is the declarative rule of the README: among all ways the routes can consume the path, the lexicographically smallest under literal < variable < sequence < continued sequence is chosen"])


# C02 ------------------------------------------------------------------------------------------------------------
def cap(n, links, d, wv, wn):
    return j("vx_capture", n, links, d, wv, wn, split=[3])


C02Q = [cap(4, 0, 3, 0, 0), cap(4, 1, 2, 2, 0)] + [cap(n, links, d, wv, wn) for links in (0, 1) for n, d in [(1, 1), (2, 2)] for wv in range(n) for wn in range(d)] + [cap(3, 0, 2, 1, 0), cap(3, 1, 2, 2, 1), cap(3, 0, 3, 1, 1), cap(3, 1, 3, 2, 2)]
C02Q += [j("vx_capture", n, links, d, wv, wn, lv, ln, 1, split=[3]) for n, links, d, wv, wn, lv, ln in [(2, 0, 2, 0, 1, 3, 3), (3, 1, 2, 1, 0, 6, 4), (3, 0, 1, 2, 0, 9, 1), (2, 1, 2, 1, 1, 20, 17), (3, 0, 3, 0, 2, 40, 33), (4, 1, 3, 2, 2, 5, 9), (8, 0, 2, 0, 1, 3, 2), (8, 1, 2, 7, 0, 7, 2), (16, 0, 1, 5, 0, 3, 2), (7, 1, 3, 1, 1, 5, 3)]]
C02Q += [j("vx_route_bytes", links, n, m) for links, n, m in [(0, 3, 3), (1, 7, 7), (0, 20, 20), (1, 20, 19), (0, 9, 12), (1, 64, 64)]]
C02Q += [j("vx_route_state", n, k, names) for n, k in [(1, 4), (2, 5), (3, 6)] for names in range(3)]
C02T = [j("vx_route_state", 3, 8, names, split=[5]) for names in range(3)] + [j("vx_route_state", 4, 7, 0, split=[5])] + [j("vx_capture", 12, 0, 3, 5, 1, 3, 2, 1, split=[3])] + [cap(3, links, d, wv, wn) for links in (0, 1) for d in (2, 3) for wv in range(3) for wn in range(d)] + [cap(4, 1, 3, 1, 1), cap(4, 0, 2, 3, 1)]
C02Q += [j("vx_deep", f, d, l, w) for f, d, l, w in [(4, 100, 1, 1), (0, 70, 0, 3), (1, 150, 1, 3), (2, 80, 0, 1), (3, 70, 1, 1)]] + [j("vx_nested_trees", 12, 0)]
check("C02", both(C02Q, C02T), {
    "quick": "one route of up to 3 segments, requests of up to 4 segments, those inside possibly empty; in turn one value of two arbitrary bytes and one name of 0..2 arbitrary bytes, the others one ASCII byte; values of up to 40 and names of up to 33 ASCII bytes, requests of up to 16 segments; one literal of up to 64 bytes next to a variable; histories of up to 6 operations on the state of a routing over up to 3 segments; up to 70 variables, sequences of up to 150 segments, variables of 12 trees inside each other",
    "thorough": "as quick, histories of up to 8 operations, for every position of the long name and value, and requests of 4 segments",
}, ["the innermost of many trees", "a name is used twice", "a value without a name is discarded", "a value is not UTF-8", "a value is empty", "a sequence takes several segments", "a long value", "a variable is extended", "variables after going back"])

# C03 ------------------------------------------------------------------------------------------------------------
C03Q = [j("vx_register", n, s, split, 2, *l) for s in range(8) for n, split, l in [(2, 1, (2, 2)), (1, 0, (1, 1)), (2, 2, (1, 2))]]
C03Q += [j("vx_register_merge", n, m, pre, len(l), *l) for m in range(3) for n, pre, l in [(2, 1, (1, 1)), (1, 0, (1, 1)), (2, 0, (2, 1)), (3, 2, (1, 1)), (2, 1, (1, 0))]]
C03Q += [j("vx_register_option", n, s, split, len(l), *l) for s in range(6) for n, split, l in [(2, 1, (2, 2)), (1, 0, (1, 1)), (2, 1, (1, 2)), (0, 0, (0, 0))]]
C03Q += [j("vx_register_option", n, s, split, len(l), *l) for s in (6, 7, 8) for n, split, l in [(2, 1, (2,)), (1, 1, (2,)), (2, 1, (2, 2)), (3, 2, (3,))]]
C03Q += [j("vx_get_path", a, b) for a in range(4) for b in range(4)]
C03Q += [j("vx_shorthands", k) for k in range(3)]
C03Q += [j("vx_merge_overlap", 3, 0, split=[4]), j("vx_merge_overlap", 2, 1), j("vx_merge_overlap", 2, 2)]
C03T = [j("vx_register", 3, s, split, 2, 3, 2, split=[2, 3, 3]) for s in range(8) for split in (1, 2)] + [j("vx_register", 2, s, 1, 3, 1, 2, 2, split=[2, 3]) for s in range(8)] + [j("vx_register_merge", 3, m, 1, 2, 2, 2, split=[3]) for m in range(3)] + [j("vx_register_option", 3, s, split, 2, 3, 3, split=[3, 3]) for s in range(6) for split in (1, 2)]
C03Q += [j("vx_deep", f, d, l, w) for f, d, l in [(0, 30, 0), (3, 60, 1), (1, 60, 0)] for w in range(4)] + [j("vx_wide", 25, w, l) for w, l in [(0, 1), (1, 1), (2, 0), (3, 1)]] + [j("vx_nested_trees", 16, 1), j("vx_nested_trees", 20, 0)] + [j("vx_many_methods", 12, w, 0) for w in range(4)]
check("C03", both(C03Q, C03T), {
    "quick": "two routes of up to 2 segments over two methods, requests of up to 3 segments, 8 ways of registering on the default router (path/many/get_path/merge/from_iter, nested), 3 ways of merging behind a prefix of up to 2 segments, 9 ways on a router with optional handlers, among them building on from a handler just registered; the shorthands of the eight methods on routers and builders; routes of up to 60 segments, 25 routes and 21 methods side by side, registered in four ways, and up to 20 trees merged into each other; every two routers with a variable, a sequence and up to 3 literals in either or both, one merged into the other at the root or behind a prefix",
    "thorough": "as quick, and routes of 3 segments and three routes",
}, ["a merged route runs", "one of many methods", "the innermost of many trees", "no route matches", "several variables", "a route is registered again", "an existing node is found", "a shorthand names its method"])

# C04 ------------------------------------------------------------------------------------------------------------
C04Q = [j("vx_hyperlinks", n, links, len(l), *l) for links in (1,) for n, l in [(0, (0, 1)), (1, (1, 2)), (1, (1, 1)), (2, (2, 2)), (2, (2, 3)), (1, (1, 2, 1)), (1, (1, 1, 1)), (2, (1, 2)), (1, (1, 2, 2))]] + [j("vx_hyperlinks", 2, 0, 2, 2, 2)]
C04Q += [j("vx_nested_links", k, b, p, len(l), *l) for k, b, p, l in [(0, 0, 0, (1, 0)), (0, 1, 1, (1, 1, 0)), (0, 1, 2, (1, 0)), (1, 0, 1, (1, 0)), (1, 1, 0, (1, 1)), (2, 1, 1, (2, 0)), (3, 0, 1, (1, 0)), (3, 1, 0, (1, 1)), (4, 0, 0, (0,)), (4, 0, 0, (1, 0)), (5, 0, 0, (1, 0)), (5, 0, 0, (1,))]]
C04T = [j("vx_nested_links", k, b, p, len(l), *l, split=[2, 3]) for k, b, p, l in [(0, 1, 1, (2, 1, 1, 0)), (1, 1, 1, (1, 1, 0)), (2, 0, 2, (1, 1, 0)), (3, 0, 2, (1, 1, 0)), (4, 0, 0, (2, 1, 0)), (4, 0, 0, (1, 1, 1)), (5, 0, 0, (2, 1, 0))]]
C04T += [j("vx_hyperlinks", n, 1, len(l), *l, split=[3, 3]) for n, l in [(3, (3, 2)), (3, (2, 3)), (2, (2, 2, 2)), (2, (1, 2, 3))]]
C04Q += [j("vx_wide", 40, w, 1) for w in range(4)] + [j("vx_many_methods", 20, w, 1) for w in range(4)] + [j("vx_deep", 2, 8, 1, 0)]
check("C04", both(C04Q, C04T), {
    "quick": "two or three routes of up to 3 segments over two methods, requests of up to 2 segments; links told by trees alone and nested in either-or, status and method routers and other trees, from every base link with a path of up to 2 segments; 40 children and 29 methods of one node",
    "thorough": "as quick, and requests of 3 segments, three routes of up to 3 segments",
}, ["many hyperlinks", "the handler of a link is known", "another method is listed", "a literal child is listed", "a sequence child is listed", "a fallback is told about its neighbours", "the nested handler is told about its neighbours", "the neighbours are compared"],
    ["a method listed for several matching nodes counts once, as the router documents links by what they lead to"])

# C05 ------------------------------------------------------------------------------------------------------------
C05Q = [j("vx_compose_any", 0, 0), j("vx_compose_any", 2, 3), j("vx_compose_any", 2, 4)] + [j("vx_compose_any", 1, n) for n in (3, 4, 5, 6, 7)] + [j("vx_compose_any", 3, 1)]
C05Q += [j("vx_compose_vars", k, n, w) for k in range(5) for n, w in [(0, 1), (1, 1), (2, 1), (1, 2)]] + [j("vx_compose", s) for s in range(7)]
C05Q += [j("vx_merged", k) for k in range(5)]
C05Q += [j("vx_left_behind", k, split=[None]) for k in range(3)]
C05Q += [j("vx_unanswered", k, lo) for k, lo in [(0, 100), (0, 200), (0, 300), (0, 400), (0, 500), (1, 0), (2, 0), (3, 200), (3, 400), (4, 200), (4, 400)]]
C05Q += [va("vx_unanswered", *l, split=[None]) for l in [(1, 0), (2, 0), (3, 400), (4, 200)]]
C05Q += [j("vx_second_tree", n, m, 1, l) for n in range(4) for m in range(3) for l in range(3)] + [j("vx_second_tree", n, 1, 2, 1, 1) for n in (1, 2)]
C05T = [j("vx_compose_any", 3, 0, max_secs=1500)] + [j("vx_compose_any", 2, n) for n in (5, 6, 7)] + [j("vx_compose_vars", k, n, w) for k in range(5) for n, w in [(2, 2), (3, 1), (1, 3), (3, 3)]]
C05T += [j("vx_second_tree", n, 2, 2, 1, 2) for n in (1, 2, 3)] + [j("vx_second_tree", n, 3, 1, l) for n in (3, 4) for l in (2, 3)]
C05Q += [j("vx_some_methods", n, w, l) for n, w, l in [(1, 0, 0), (1, 2, 1), (2, 0, 1), (2, 1, 0), (2, 2, 0), (3, 1, 1)]]
C05Q += [j("vx_many_methods", 60, w, l) for w, l in [(0, 0), (2, 1)]]
check("C05", both(C05Q, C05T), {
    "quick": "routers by status and by method, alone, one behind the other and merged, for arbitrary statuses 100..599 and methods of 3..7 arbitrary letters; variables with names of 0..2 and values of 1..2 arbitrary ASCII bytes behind five compositions of tree, method, status and either-or routers; seven shapes of compositions over three methods and four statuses; merges of either-or, tree, optional and status routers with every combination of handlers at four places; a router of the user's that leaves any status 200..599 behind, through a server; a request that every handler hands back, with every status left behind from 100 to 599, answered through a server; 69 methods on one router; a tree with one route of up to 2 segments, or two of one, in front of another tree with one route of up to 2, or of a single handler, for requests of up to 3 segments; where requests are short, 14 kinds of them (method, version, headers that are none of the matter, keep-alive); up to 3 of eleven methods at one place, each asked for",
    "thorough": "as quick, with names and values of up to 3 bytes, two routes of up to 2 segments in the first tree, routes of 3 segments",
}, ["a method that is not there", "another kind of request", "none of many methods", "a request is refused with a status", "nobody says anything about a request", "a handler answers an error", "a handler answers a request", "nobody answers", "a handler is selected by an arbitrary status", "a handler is selected by an arbitrary method", "a fallback answers what was left behind", "a merged handler runs", "a fallback has variables", "the first tree has no answer", "behind a tree there is only a handler", "variables behind a composition", "the newcomer runs", "what was there before the merge runs", "nobody answers and nobody complains", "nobody says anything about a request", "a request is refused with a status"])

# C06 ------------------------------------------------------------------------------------------------------------
C06Q = [j("vx_segments", n) for n in range(7)] + [j("vx_segments_list", a, b) for a in range(3) for b in range(3)] + [j("vx_spelling", a, b, m) for a in range(4) for b in range(4) for m in (0, 1)]
C06T = [j("vx_segments", n) for n in range(7, 11)] + [j("vx_segments_list", a, b) for a in range(5) for b in range(5)] + [j("vx_spelling", a, b, m) for a in range(6) for b in range(6) for m in (0, 1)]
check("C06", both(C06Q, C06T), {
    "quick": "splitting: all byte strings up to 6 bytes, lists of two strings up to 2 bytes; spellings of literal routes against requests: all pairs of ASCII texts up to 3 bytes",
    "thorough": "splitting: up to 10 bytes, lists of two strings up to 4 bytes; spellings: pairs up to 5 bytes",
}, ["an empty segment inside a path", "two slashes are the root", "different spellings of one path"])

# C07 ------------------------------------------------------------------------------------------------------------
C07Q = [j("vx_target", n, 0) for n in range(4)] + [j("vx_target", 4, 1), j("vx_target", 5, 1), j("vx_target", 4, 2), j("vx_target", 5, 2)] + [j("vx_request_line", n) for n in range(4)] + [j("vx_absolute", n, 0) for n in range(4)] + [j("vx_absolute", n, k) for k in (1, 2, 4) for n in (1, 2, 3)] + [j("vx_absolute", 2, 3)] + [j("vx_other_targets", m) for m in (0, 1)]
C07Q += [j("vx_target", n, 0, fill) for n, fill in [(1, 300), (2, 20), (2, 33), (3, 5)]]
C07Q += [va("vx_target", 1, 0), va("vx_target", 2, 0), va("vx_request_line", 1), va("vx_absolute", 1, 0), va("vx_other_targets", 0), va("vx_other_targets", 1)]
C07T = [j("vx_target", 4, 0, max_secs=1500), j("vx_target", 6, 1, max_secs=1500), j("vx_target", 6, 2, max_secs=1500), j("vx_absolute", 4, 0), j("vx_absolute", 5, 0, max_secs=1500)]
check("C07", both(C07Q, C07T), {
    "quick": "targets '/' followed by up to 3 arbitrary ASCII characters, up to 5 without '%', up to 5 over '%2fF?#'; whole request lines with up to 3 printable characters; absolute targets with up to 3 characters of 'a%/?#=&+4', also behind '#', '?', '?a=%' and '%'; '*' and authority forms; one to three arbitrary ASCII characters inside up to 600 ordinary ones; where requests are short, 14 kinds of them (method, version, headers that are none of the matter, keep-alive)",
    "thorough": "as quick, with 4, 6, 6 and 5 characters",
}, ["another kind of request", "path, parameters and fragment", "an encoded byte that is not ASCII", "an absolute target", "authority form", "a long target"],
    ["a parameter without any name may stand for empty components of the query; after a second '=' a value ends, as the unit tests pin"])

# C08 ------------------------------------------------------------------------------------------------------------
C08Q = [j("vx_form", n, 0) for n in range(4)] + [j("vx_form", 4, 1), j("vx_form", 5, 1), j("vx_form", 4, 2), j("vx_form", 5, 2)] + [j("vx_form_roundtrip", *l, m) for m in (0, 1) for l in [(1, 1, 1, 1), (1, 2, 1, 0), (2, 1, 1, 1)]]
C08Q += [j("vx_form", n, c, fill) for n, c, fill in [(1, 0, 40000), (2, 0, 20), (2, 0, 300), (3, 2, 9)]]
C08Q += [va("vx_form", n, 0, kinds=14) for n in (1, 2)]
C08T = [j("vx_form", 6, 1, max_secs=1500), j("vx_form", 6, 2, max_secs=1500), j("vx_form", 7, 2, max_secs=1500)] + [j("vx_form_roundtrip", *l, m, max_secs=1500) for m in (0, 1) for l in [(2, 2, 1, 1), (1, 3, 1, 1), (2, 1, 2, 1)]]
C08Q += [j("vx_many_pairs", 40, k, m) for k, m in [(2, 0), (3, 1)]]
C08Q += [j("vx_many_pairs", 1100, 1, m, split=[3], max_instrs=300000000) for m in (0, 1)]
C08T += [j("vx_many_pairs", 150, 4, m, split=[3]) for m in (0, 1)]
check("C08", both(C08Q, C08T), {
    "quick": "bodies of up to 3 arbitrary bytes, up to 5 without '%', up to 5 over '%cC3=&+'; bodies of 1..3 bytes behind and before up to 40000 others; two parameters with names of 1..2 and values of 0..2 arbitrary bytes, encoded, as query and as body; 2..3 bytes over '=&+aA%2' before, between and behind 40 other parameters, and one such byte next to 1100; where requests are short, 14 kinds of them (method, version, headers that are none of the matter, keep-alive)",
    "thorough": "as quick, with up to 7 bytes and values of 3 bytes",
}, ["another kind of request", "a parameter among many", "two parameters", "a value that is not UTF-8", "the same name twice", "a long body"],
    ["a parameter without any name may stand for empty components; after a second '=' a value ends, as the unit tests pin"])

# C09 ------------------------------------------------------------------------------------------------------------
C09Q = [j("vx_utf8_history", 0, 1, 9), j("vx_utf8_history", 1, 1, 8), j("vx_utf8_history", 0, 2, 8, 0)] + [j("vx_utf8_history", f, 1, a) for f in (0, 1, 2, 3) for a in range(8)] + [j("vx_utf8_history", f, 2, a, b) for f in (0, 1) for a in range(8) for b in (0, 2, 3, 7)] + [j("vx_utf8_history", 1, 3, 0, 0, a) for a in range(8)] + [j("vx_utf8_convert", n) for n in range(4)]
C09T = [j("vx_utf8_history", f, 2, a, b) for f in (2, 3) for a in range(8) for b in range(8)] + [j("vx_utf8_history", 1, 3, a, b, c) for a in range(8) for b in range(8) for c in (0, 3, 6, 7)] + [j("vx_utf8_convert", 4), j("vx_utf8_convert", 5, max_secs=1500)]
check("C09", both(C09Q, C09T), {
    "quick": "strings of up to 3 arbitrary bytes, then up to 3 pushes of bytes (1, 2, 4 or 5 at once), strings, any Unicode character or truncations (up to 12 bytes in all); conversions of up to 3 bytes",
    "thorough": "as quick, with every pair of steps from 2 and 3 bytes and every triple from 1 byte; conversions of 5 bytes",
}, ["the bytes are UTF-8", "the bytes are not UTF-8", "a string becomes UTF-8 again", "a string stops being UTF-8"])

# C10 ------------------------------------------------------------------------------------------------------------
C10Q = [j("vx_utf8_order", a, b) for a in range(4) for b in range(4)] + [j("vx_parameters", 2, k, split=[None]) for k in (1, 2)] + [j("vx_parameters", 3, 1, split=[6])] + [j("vx_parse", n) for n in range(4)]
C10T = [j("vx_utf8_order", a, b, split=[2, 2], max_secs=1500) for a, b in [(4, 3), (3, 4), (4, 4)]] + [j("vx_parameters", 3, 2, split=[6, 6]), j("vx_parameters", 4, 1, split=[6, 6])] + [j("vx_parse", 4)]
C10Q += [j("vx_many_parameters", 40, h, r) for h in range(3) for r in (0, 13)]
C10T += [j("vx_many_parameters", 300, 0, 100)]
check("C10", both(C10Q, C10T), {
    "quick": "pairs of strings of up to 3 arbitrary bytes in either representation; histories of 3 operations on the map with one-byte names and 2 operations with two-byte names; values of up to 3 bytes parsed as a number; any two bytes against a map of 40 names, 13 of them removed again",
    "thorough": "as quick, with strings of 4 bytes, histories of 4 operations, and of 3 with two-byte names",
}, ["one of many parameters", "equal in different representations", "ordered against a string", "a parameter is replaced", "a number is parsed"],
    ["std's hash map is executed with a hasher that makes strings of equal length collide", "a value is not text"])

# C11 ------------------------------------------------------------------------------------------------------------
C11Q = [j("vx_sized", n, f, split=[None]) for n in range(4) for f in (0, 1)] + [j("vx_sized", n, f, split=[None]) for n, f in [(300, 0), (9000, 0), (9000, 2), (70000, 1)]] + [j("vx_status", m, f, 100, 500, split=[None]) for m, f in [(0, 0), (0, 1), (3, 0), (3, 2)]]
C11T = [j("vx_sized", 4, 0, split=[None]), j("vx_sized", 3, 3, split=[None])]
C11Q += [j("vx_many_headers", n) for n in (9, 40)]
C11Q += [j("vx_any_request", m, f, n) for m, f, n in [(0, 0, 0), (0, 1, 3), (3, 0, 3), (0, 0, 300), (3, 2, 9000)]]
C11Q += [va("vx_sized", 1, f, split=[None]) for f in (0, 2)]
C11Q += [j("vx_broken", m, f, n) for m in (0, 3) for f, n in [(0, 0), (1, 2), (0, 3), (0, 9000), (1, 9000)]]
C11T += [j("vx_broken", m, f, n) for m in (0, 3) for f, n in [(2, 3), (0, 40), (1, 300), (0, 70000)]]
check("C11", both(C11Q, C11T), {
    "quick": "bodies of up to 3 arbitrary bytes, and of 300, 9000 and 70000 bytes of which three are arbitrary, 6 ways of sending, 5 statuses (every status 100..599 for one byte), 4 earlier content lengths, one header with an arbitrary visible byte, with and without filters that change nothing; 40 headers, one of any value; responses of up to 3 bytes on a connection that breaks behind any byte, and of 9000 bytes at 12 places, with and without a buffer; 243 kinds of request (nine methods, three targets, nine sets of headers, in HTTP/1.0 and 1.1) under three settings of keep-alive; where requests are short, 14 kinds of them (method, version, headers that are none of the matter, keep-alive)",
    "thorough": "bodies of up to 4 bytes, broken responses of up to 40 and of 70000 bytes",
}, ["another kind of request", "only the head is asked for", "many headers", "the connection breaks", "the connection stays", "a status without a body", "a wrong content length is corrected", "any status"])

# C12 ------------------------------------------------------------------------------------------------------------
check("C12", lambda tier: [j("vx_any_request", 1, f, n) for f, n in [(0, 0), (1, 3), (0, 9000)]] + [j("vx_chunked", 0, f) for f in (0, 2)] + [j("vx_chunked", 1, f) for f in (0, 1)] + [j("vx_chunked", 2, f, split=[3, 3]) for f in (0, 1)] + [j("vx_many_pieces", n, 0, f) for n, f in [(16, 0), (40, 0), (24, 1)]] + [j("vx_chunked", k, f, n, split=[None]) for k, f, n in [(1, 0, 9000), (1, 1, 300), (2, 1, 9000), (2, 0, 70000)]] + [j("vx_status", 1, f, 100, 500, split=[None]) for f in (0, 1)] + [j("vx_broken", 1, f, n) for f, n in [(0, 0), (0, 1), (1, 3), (0, 9000), (1, 300)]] + ([j("vx_broken", 1, f, n) for f, n in [(2, 3), (0, 40), (0, 70000)]] + [j("vx_chunked", 3, split=[3, 3, 3], max_secs=1500)] if tier == "thorough" else []), {
    "quick": "up to 2 pieces of 0..2 arbitrary bytes each, or a first one of 300, 9000 or 70000 bytes of which three are arbitrary, 5 ways of writing each, 5 statuses (every status 100..599 for one piece), 3 earlier content lengths, ended or dropped, with and without filters that change nothing; 40 pieces of 0 to 256 bytes, one of them arbitrary, the ways of writing in turn; two pieces of together up to 3 bytes on a connection that breaks behind any byte, or of 300 or 9000 at 12 places, with and without a buffer and flushing between them; 243 kinds of request (nine methods, three targets, nine sets of headers, in HTTP/1.0 and 1.1) under three settings of keep-alive",
    "thorough": "as quick, and 3 pieces, broken ones of up to 40 and of 70000 bytes",
}, ["only the head is asked for", "many chunks", "the connection breaks", "the connection stays", "an empty chunk among others"])

# C13 ------------------------------------------------------------------------------------------------------------
check("C13", lambda tier: [j("vx_any_request", 2, f, n) for f, n in [(0, 0), (1, 3), (0, 9000)]] + [j("vx_many_pieces", n, 1) for n in (8, 24, 40)] + [j("vx_raw", d, 2, split=[3, 3]) for d in range(5)] + [j("vx_raw", d, 2, n, split=[3]) for d, n in [(9000, 9000), (9001, 9000), (70000, 9000), (400, 9000)]] + [j("vx_status", 2, f, 100, 500, split=[None]) for f in (0, 1)] + [j("vx_broken", 2, f, n) for f, n in [(0, 0), (0, 1), (1, 3), (0, 9000), (1, 300)]] + [j("vx_raw_far", 1, n) for n in (0, 1, 1000, 4294967295)] + ([j("vx_broken", 2, f, n) for f, n in [(2, 3), (0, 40), (0, 70000)]] + [j("vx_raw", d, 3, split=[3, 3, 3]) for d in (0, 2, 4, 6)] if tier == "thorough" else []), {
    "quick": "two writes of together up to 3 bytes on a connection that breaks behind any byte, or of 300 or 9000 at 12 places, with and without a buffer and flushing between them; declared lengths 0..4, 2 writes of 0..2 arbitrary bytes in 4 ways, or a first one of 9000 bytes of which three are arbitrary, 4 earlier content lengths, ended or dropped, with and without a forced close; an error exactly for what exceeds the length; 40 writes of 0 to 256 bytes and a declared length that is exact or one off; up to 3 written where 256 lengths up to 2^64 - 1 are declared; 243 kinds of request (nine methods, three targets, nine sets of headers, in HTTP/1.0 and 1.1) under three settings of keep-alive",
    "thorough": "as quick, and 3 writes, declared lengths up to 6",
}, ["only the head is asked for", "a length far beyond what is written", "the connection breaks", "the connection stays", "the declared length is written in many pieces", "the declared length is written", "more than declared is written"])

# C14 ------------------------------------------------------------------------------------------------------------
C14Q = [j("vx_filters", n, m, 4, 6, 4, split=[4]) for n in (1, 2) for m in (0, 1, 2)] + [j("vx_filters", 3, 2, 4, 2, 1), j("vx_filters", 3, 1, 1, 4, 2, split=[None, 4]), j("vx_filters", 3, 2, 3, 3, 2, split=[3]), j("vx_filters", 3, 0, 2, 3, 2, split=[2])]
C14Q += [j("vx_filters", n, 3, 4, 6, 4, split=[4]) for n in (1, 2)] + [j("vx_filters", 1, m, 4, 6, 4, 1) for m in range(4)] + [j("vx_filters", 2, 0, 1, 5, 2, 1), j("vx_filters", 2, 1, 1, 3, 1, 1, split=[None, 3]), j("vx_filters", 2, 2, 2, 3, 2, 1, split=[2]), j("vx_filters", 2, 3, 2, 3, 2, 1, split=[2])]
C14Q += [j("vx_filters", 3, 0, 1, 2, 4), j("vx_filters", 3, 1, 1, 2, 3), j("vx_filters", 3, 3, 1, 2, 3), j("vx_filters", 3, 0, 4, 2, 1)]
C14Q += [j("vx_status", m, f, 100, 500, 1, split=[5]) for m, f in ((0, 0), (1, 0), (1, 1), (3, 0))]
C14Q += [j("vx_filters", 1, 4, 4, 6, 4), j("vx_filters", 2, 4, 4, 6, 2, split=[4])]
C14Q += [va("vx_filters", 1, m, 4, 6, 4) for m in range(5)]
C14Q += [j("vx_data", n, c) for n in range(5) for c in range(4)]
C14T = [j("vx_filters", 2, 1, 1, 4, 1, 1, split=[None, 4]), j("vx_filters", 2, 0, 2, 5, 2, 1, split=[2, 5])] + [j("vx_filters", 3, m, 4, 6, 4, split=[4, 6, 4], max_secs=1500) for m in (0, 1)]
C14Q += [j("vx_filters", n, m, 4, 6, 4, 0, 1) for n, m in [(6, 0), (10, 1), (7, 2), (5, 3)]]
check("C14", both(C14Q, C14T), {
    "quick": "one or two filters with every choice of begin (4), write (6) and end (4) and a body of arbitrary bytes, sent at once, as two chunks, as one and not ended, or dropped; three filters with restricted choices; one filter that does any of the six with content each time, two that do any of three to five; a filter that turns one of three statuses into any of 100..599; pieces of content of up to 4 arbitrary bytes, as bytes and as text; up to ten filters of which any one has every choice; handlers that go on with a stream after an abort; where requests are short, 14 kinds of them (method, version, headers that are none of the matter, keep-alive)",
    "thorough": "as quick, and three filters with every choice",
}, ["another kind of request", "a handler goes on after an abort", "a long chain of filters", "a filter aborts at the start", "a filter aborts on content", "a filter aborts at the end", "an end runs through the filters behind it", "content is dropped silently", "content that is text", "content that is not text", "a filter changes its mind", "a filter turns a status into any other"],
    ["two and more filters that behave differently each time they are given content have fewer choices"])

# C15 ------------------------------------------------------------------------------------------------------------
C15Q = [j("vx_connection", 1, 0), j("vx_connection", 1, 1), j("vx_connection", 2, 0), j("vx_connection", 2, 1), j("vx_connection", 2, 2, 125, 0, 3, split=[3]), j("vx_connection", 2, 2, 125, 125, 3, split=[3])] + [j("vx_unread", k) for k in (0, 1, 2)]
C15Q += [j("vx_connection", n, how, 0, 0, 0, turn) for n, how, turn in [(5, 0, 1), (8, 0, 3), (6, 1, 5), (9, 1, 7), (4, 0, 2)]]
C15Q += [j("vx_two_requests", k, n) for k, n in [(0, 240), (1, 254), (2, 254)]]
C15T = [j("vx_connection", 3, 0, split=[3, 8]), j("vx_connection", 3, 1, split=[3, 8]), j("vx_connection", 1, 2, 250, 0, 0), j("vx_connection", 2, 2, 250, 0, 0, split=[3, 8], max_secs=1500)]
check("C15", both(C15Q, C15T), {
    "quick": "connections of up to 2 requests, each without a body, with a length or chunked (arbitrary bytes), answered in 8 ways, closing or not; all bytes at once, request by request, or with one cut at any of the first 250 positions (three ways of answering); of up to 9 requests with bodies and ways of answering in turn; two requests on two connections of one server, through routers and filters, one as a whole in front of any atomic access of the other (bytes arbitrary)",
    "thorough": "as quick, three requests, cuts with all ways of answering",
}, ["a second request with a body is answered", "a second request is served", "the client closes the connection", "the first request is answered", "two requests at once"],
    ["threads take turns at atomic accesses, which are sequentially consistent; one of two runs as a whole", "the loop around the server's handler is hyper 0.10.16's (transcribed from src/server/mod.rs): one request after the other on one thread, as its worker does"])

# C16 ------------------------------------------------------------------------------------------------------------
C16Q = [j("vx_context_filters", 0, 400), j("vx_context_filters", 1, 400), j("vx_context_filters", 2, 40), j("vx_context_filters", 3, 8)]
C16Q += [j("vx_filter_star", 0), j("vx_filter_star", 1)]
C16Q += [va("vx_context_filters", n, k) for n, k in [(0, 100), (1, 40), (2, 4), (3, 2)]] + [va("vx_filter_star", k) for k in (0, 1)]
C16T = [j("vx_context_filters", 2, 400, max_secs=1500), j("vx_context_filters", 3, 40, split=[5], max_secs=1500), j("vx_context_filters", 4, 4, split=[5], max_secs=1500)]
check("C16", both(C16Q, C16T), {
    "quick": "up to 3 filters, each passing, aborting with an arbitrary status (200..599, fewer for more filters), or changing path, method or query to an arbitrary letter; requests for a path and for '*' by three methods, given or taken a path by a filter; where requests are short, 14 kinds of them (method, version, headers that are none of the matter, keep-alive)",
    "thorough": "as quick, 4 filters, all statuses for two",
}, ["another kind of request", "a context filter aborts", "all context filters pass", "a filter gives '*' a path", "a request without a path"])

# C17 ------------------------------------------------------------------------------------------------------------
C17Q = [j("vx_schedules", k, n, 40) for k, n in [(0, 0), (0, 2), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (3, 3)]] + [j("vx_schedules", k, n, 250) for k, n in [(4, 0), (4, 1), (5, 1), (5, 2)]]
check("C17", lambda tier: C17Q + [j("vx_keep_alive", n) for n in range(5 if tier == "quick" else 8)], {
    "quick": "arbitrary numbers of threads and of threads to keep free (64 bits each), histories of up to 4 connections coming and going, 6 ways of answering, the handler saying nothing about the connection, keep-alive or close, with and without response filters and keep-alive settings; two connections that come or go at once, or while a request is served, one as a whole in front of any atomic access of the other",
    "thorough": "histories of up to 7 events",
}, ["a connection is closed to free its thread", "a connection is kept", "two connections come or go at once", "a connection comes or goes while a request is served"],
    ["threads take turns at atomic accesses, which are sequentially consistent; one of two runs as a whole"])

# C18 ------------------------------------------------------------------------------------------------------------
C18Q = [j("vx_check_path", n, 0) for n in range(9)] + [j("vx_check_path", 9, 1)]
C18Q += [j("vx_check_long_path", n, w) for n in (2, 4, 7, 12, 40) for w in (2, 3)]
C18T = [j("vx_check_path", 9, 0), j("vx_check_path", 10, 0), j("vx_check_path", 11, 1), j("vx_check_path", 12, 1)]
check("C18", both(C18Q, C18T), {
    "quick": "every path of up to 8 arbitrary bytes, of 9 bytes over '.', '/' and a letter; of up to 40 components of which any one has 2 or 3 arbitrary bytes",
    "thorough": "up to 10 arbitrary bytes, up to 12 over '.', '/' and a letter",
}, ["an absolute path is rejected", "a parent directory is rejected", "a nested path is accepted", "a parent directory at the end of a long path"], ["Unix paths (Windows prefixes are outside)"])

# C19 ------------------------------------------------------------------------------------------------------------
check("C19", lambda tier: [j("vx_global", n) for n in range(1, 5 if tier == "quick" else 7)], {
    "quick": "histories of up to 4 operations on values of several types with arbitrary contents",
    "thorough": "histories of up to 6 operations",
}, ["a value is replaced", "several values"])

# C20 ------------------------------------------------------------------------------------------------------------
check("C20", lambda tier: [j("vx_host", 0)] + [j("vx_host_text", n, 0) for n in range(5 if tier == "quick" else 7)] + [j("vx_host_text", n, k) for k in (1, 2, 3) for n in range(4 if tier == "quick" else 6)], {
    "quick": "arbitrary IPv4 and IPv6 addresses (flow label and scope included) and ports; texts '1.2.3.4' followed by up to 4 characters of '0179.: \\n+[', and up to 3 of them before, behind and inside other addresses",
    "thorough": "texts of up to 6 more characters",
}, ["the port of a version 6 address is changed", "a text is an address"])

# C21 ------------------------------------------------------------------------------------------------------------
C21Q = [va("vx_file_response", how, 2, k) for how in range(4) for k in (1, 5)] + [j("vx_mime", n, 0) for n in range(13)] + [j("vx_file_response", how, n, k) for how in range(4) for n, k in [(0, 0), (1, 1), (2, 2), (3, 3), (1, 4), (1, 5), (1, 6), (1, 7), (4096, 0), (9000, 1), (70000, 4)]] + [j("vx_file_faults", how, n, f) for how in (0, 2, 3) for n in range(4) for f in (0, 1) if n + f] + [j("vx_broken", m, f, n) for m in (4, 5) for f, n in [(0, 0), (1, 2), (0, 3), (0, 9000)]] + [j("vx_any_request", m, f, n) for m, f, n in [(4, 1, 3), (5, 0, 300)]]
C21T = [j("vx_file_response", how, n, k) for how in range(4) for n in (0, 2, 4, 6) for k in range(8)] + [j("vx_file_faults", how, n, f) for how in (0, 2, 3) for n in (6, 9) for f in (0, 1)] + [j("vx_broken", m, f, n) for m in (4, 5) for f, n in [(0, 40), (2, 70000)]]
check("C21", both(C21Q, C21T), {
    "quick": "every extension of up to 12 ASCII characters, against the table in build/apache; files of up to 3 arbitrary bytes, and of 4096, 9000 and 70000 bytes of which three are arbitrary, that exist, are missing, forbidden, fail otherwise or are a directory, sent in four ways, with five ways of handling the failure; files of up to 3 arbitrary bytes that cannot be read from any byte on, or that end anywhere before or up to two bytes behind the length they have when opened, with a second request on the connection; files of up to 3 bytes on a connection that breaks behind any byte, and of 9000 at 12 places; 243 kinds of request (nine methods, three targets, nine sets of headers, in HTTP/1.0 and 1.1) under three settings of keep-alive; where requests are short, 14 kinds of them (method, version, headers that are none of the matter, keep-alive)",
    "thorough": "files of up to 6 bytes under eight names",
}, ["another kind of request", "only the head is asked for", "the connection breaks", "the connection stays", "a known extension", "an unknown extension", "a file is sent", "a file cannot be opened", "a directory is no file", "a file ends too early", "a file is longer than it said"],
    ["files are those of a virtual file system; a symbolic extension is looked up by the contract of phf's map (the entry with an equal key, or none), a concrete one by its code", "of several types for one extension, any is accepted"])

# C22 ------------------------------------------------------------------------------------------------------------
check("C22", lambda tier: [va("vx_send_as", k) for k in range(13)] + [va("vx_handlers", k) for k in range(17) if k not in (12, 13, 15, 16)] + [j("vx_send_as", k) for k in range(13)] + [j("vx_handlers", k) for k in range(17)] + [j("vx_mock", n) for n in range(4 if tier == "quick" else 7)], {
    "quick": "13 kinds of values that can be sent, each with three statuses and through three calls, with arbitrary bytes; 17 kinds of handlers and routers of content factories behind 5 statuses; mocked responses of up to 3 bytes; where requests are short, 14 kinds of them (method, version, headers that are none of the matter, keep-alive)",
    "thorough": "mocked responses of up to 6 bytes",
}, ["another kind of request", "a success is sent", "an error is sent", "an error that means not found is sent", "a handler answers", "a factory fails", "a mock accepts its content"])

# C23 ------------------------------------------------------------------------------------------------------------
def an(place, lens, how, ascii=0, **kw):
    return [j("vx_any", place, n, how, ascii, **kw) for n in lens]


C23Q = an(0, (0, 1, 2, 3), 0) + an(1, (1,), 0) + an(13, (0, 1), 0) + an(5, (0, 1), 0) + an(14, (0, 1), 0) + an(14, (2, 3), 0, 1) + an(12, (0, 1, 2), 0) + an(12, (3,), 0, 1) + an(10, (0, 1, 2, 3, 4), 0) + an(15, (0, 4, 8), 0) + an(11, (1, 2, 3, 4), 0) + an(19, (0, 1, 2, 3, 4), 0)
C23Q += an(2, (0, 1, 2, 3), 1) + an(16, (1, 2, 3), 1) + an(3, (1, 2), 3) + an(3, (3,), 1) + an(4, (0, 1, 2), 3) + an(6, (0, 1, 2, 3), 1) + an(7, (0, 1, 2, 3), 2) + an(8, (0, 1, 2, 3), 2) + an(17, (0, 1, 2, 3), 2) + an(18, (1, 2), 2) + an(9, (1, 2), 3)
C23Q += an(20, (1, 2), 0) + an(21, (0, 1, 2), 0) + an(22, (0, 1), 0) + an(23, (1, 2), 0, 1) + an(24, (2, 3, 4, 5), 0)
C23Q += [j("vx_open_form", k) for k in (0, 1)]
C23Q += [va("vx_any", p, n, h, a, kinds=k) for p, n, h, a, k in [(0, 1, 0, 0, 14), (1, 1, 0, 0, 14), (14, 1, 0, 0, 14), (5, 1, 0, 0, 8), (2, 1, 1, 0, 8), (7, 1, 2, 0, 8)]]
C23T = an(20, (3,), 0) + an(21, (3, 4), 0) + an(24, (6, 7), 0) + an(0, (4,), 0, max_secs=1500) + an(14, (4,), 0, 1, max_secs=1500) + an(11, (5, 6), 0, max_secs=1500) + an(10, (5,), 0) + an(2, (4,), 1, max_secs=1500) + an(16, (4,), 1, max_secs=1500) + an(6, (4,), 1, max_secs=1500) + an(7, (4, 5), 2, max_secs=1500) + an(8, (4,), 2, max_secs=1500) + an(17, (4, 5, 6), 2, max_secs=1500) + an(9, (3,), 3, 1, max_secs=1500) + an(4, (3,), 3, max_secs=1500) + an(18, (3,), 2, max_secs=1500)
check("C23", both(C23Q, C23T), {
    "quick": "requests with a window of 1..4 arbitrary bytes in the target, absolute target, method, version, a header line, the values of Host, Connection, Content-Type, Content-Length (digits), Transfer-Encoding, in a form body, a multipart boundary parameter, three places of a multipart body, and a chunk size, and in escapes, schemes, ports and IPv6 addresses of targets; the handler looks at everything it is given and reads the body as a form, as multipart or as bytes; where requests are short, 14 kinds of them (method, version, headers that are none of the matter, keep-alive)",
    "thorough": "windows of up to 6 bytes",
}, ["another kind of request", "a request is answered", "a request is not one"],
    ["Content-Length values that are not numbers are outside: hyper 0.10 gives up on them before rustful is called"])

# C24 ------------------------------------------------------------------------------------------------------------
C24Q = [j("vx_body", m, x, y, s) for m in (0, 1) for x, y, s in [(0, 0, 1), (1, 0, 1), (1, 1, 1), (2, 1, 2), (2, 2, 3), (3, 0, 8)]] + [j("vx_body_short", m, n) for m in (1, 2) for n in (0, 1, 2)]
C24Q += [j("vx_multipart", 0, 2, 2, 0), j("vx_multipart", 0, 1, 5, 1), j("vx_multipart", 1, 1, 5, 1), j("vx_multipart", 1, 1, 2, 0)] + [j("vx_multipart", k, 1, n, 0) for k in (2, 3, 4, 5) for n in (1, 3)]
C24Q += [j("vx_body", m, x, y, s) for m, x, y, s in [(0, 70000, 3, 9000), (1, 70000, 300, 4096), (0, 300, 9000, 1000), (1, 2, 9000, 777)]]
C24Q += [va("vx_body", m, 1, 1, 1, kinds=8) for m in (0, 1)] + [va("vx_body_short", m, 2, kinds=8) for m in (1, 2)] + [va("vx_multipart", 0, 1, 1, 0, kinds=8), va("vx_multipart", 4, 1, 1, 0, kinds=8)]
C24T = [j("vx_body", m, x, y, s) for m in (0, 1) for x in range(5) for y in range(4) for s in (1, 3, 8)] + [j("vx_multipart", 0, 3, 1, 0, max_secs=1500), j("vx_multipart", 0, 1, 3, 0, max_secs=1500)]
check("C24", both(C24Q, C24T), {
    "quick": "bodies of up to 4 arbitrary bytes, sent with a length or in chunks, in two pieces, read in steps of 1..8 bytes, and of up to 70000 bytes of which six are arbitrary; bodies that end up to 2 bytes early; forms with one arbitrary field of up to 2 bytes and boundaries of 1..2 arbitrary letters, digits or '-', and of 5 around the names of charsets; five other media types; where requests are short, 8 kinds of them (method, version, headers that are none of the matter, keep-alive)",
    "thorough": "bodies of up to 7 bytes, fields of 3 bytes, boundaries of 3",
}, ["another kind of request", "a body in several pieces", "a body ends early", "a multipart form is read", "a body that is not a multipart form"])

# C25 ------------------------------------------------------------------------------------------------------------
C25Q = [j("vx_links", a, b, 9) for a, b in [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1)]] + [j("vx_links", 0, 0, 0), j("vx_links", 1, 1, 1)]
C25Q += [j("vx_links", 1, 1, 9, k) for k in (1, 4, 2, 8)] + [j("vx_links", a, b, 9, 0, 0, x, y) for a, b in [(0, 0), (1, 0), (1, 1)] for x, y in [(2, 4), (3, 4), (4, 3), (2, 2), (3, 2)]]
C25T = [j("vx_links", 2, 2, 9, split=[3, 3, 3], max_secs=1500), j("vx_links", 1, 1, 2, split=[3, 3], max_secs=1500), j("vx_links", 1, 1, 9, 6, split=[3]), j("vx_links", 2, 1, 9, 1, split=[3])]
check("C25", both(C25Q, C25T), {
    "quick": "pairs of links of up to 1 and 2 segments, triples of up to 1 segment; labels of one arbitrary byte, for one segment up to three; methods none, DELETE, three arbitrary letters, extensions of three and six arbitrary letters",
    "thorough": "as quick, pairs of 2 segments",
}, ["two links are equal", "links are ordered by their paths", "three links in order"])

# C26 ------------------------------------------------------------------------------------------------------------
C26Q = [j("vx_told", k, n, r) for r in (1, 2, 3) for k, n in [(0, 3), (0, 4), (1, 2), (2, 0), (2, 2), (3, 1)]] + [j("vx_told", 3, 1), j("vx_told", 4, 0), j("vx_told", 4, 1)] + [j("vx_told", 0, n) for n in (1, 2, 3, 4)] + [j("vx_told", 1, n) for n in (1, 2, 3)] + [j("vx_told", 2, n) for n in (0, 1, 2, 3)]
C26T = [j("vx_told", 0, n) for n in (5, 6, 7)] + [j("vx_told", 1, n) for n in (4, 5)] + [j("vx_told", 2, 4)]
C26Q += [j("vx_many_headers", n) for n in (20, 90)]
check("C26", both(C26Q, C26T), {
    "quick": "methods of up to 4 arbitrary letters, header values of up to 3 arbitrary bytes, ports of up to 3 digits, hosts of absolute targets of one letter, absolute targets without a host, both versions, with a body of one byte; a handler on its own and behind three compositions of routers; 90 headers, one of any value",
    "thorough": "methods of 7 letters, values of 5 bytes, ports of 4 digits",
}, ["many headers", "a handler is told about its request", "a target without an authority"])

# C27 ------------------------------------------------------------------------------------------------------------
C27Q = [j("vx_context", k, 1) for k in range(12)] + [j("vx_context", k, 2) for k in (0, 1, 2, 9)] + [j("vx_context_build", k) for k in range(8)]
C27T = [j("vx_context", k, 2, split=[2, 2]) for k in (3, 4, 5, 6, 7, 8, 10, 11)]
check("C27", both(C27Q, C27T), {
    "quick": "a context with an arbitrary item of the user's and up to two variable names of one arbitrary byte, applied or prepended once to twelve compositions of tree, method, status, either-or and variables routers (twice to four of them), observed at every handler in them; given to the builders of eight compositions and observed at what they register, make on demand or merge, for every status 100..599 and eight methods",
    "thorough": "as quick, and every composition twice",
}, ["a context is applied", "a context is prepended", "a context is handed to a builder", "a context is handed to the builder of what is there already"])

# C28 ------------------------------------------------------------------------------------------------------------
C28Q = [j("vx_configured", n, m, mode, f) for n, m, f in [(1, 1, 0), (3, 2, 1), (2, 3, 3), (16, 9, 2)] for mode in range(4)] + [j("vx_defaults", n) for n in (0, 1, 2, 3, 5)]
C28Q += [j("vx_configured", 1, 1, mode, f, 1) for mode, f in [(0, 0), (1, 1), (2, 0), (3, 2)]]
C28Q += [va("vx_configured", 1, 1, mode, 1) for mode in range(4)]
C28Q += [j("vx_content_type", *l) for l in [(4, 3, 1, 5), (1, 4, 7, 1), (2, 2, 2, 2), (5, 3, 8, 3), (4, 1, 3, 5), (11, 10, 8, 5), (0, 0, 0, 0)]]
C28Q += [j("vx_unreached", n, f) for n in (1, 4) for f in (0, 1, 2)]
C28T = [j("vx_configured", 40, 20, mode, f) for f in range(5) for mode in range(4)] + [j("vx_defaults", 8)] + [j("vx_content_type", a, b, c, d) for a in (1, 4, 5, 7) for b in (3, 4, 5) for c in (7, 8) for d in (3, 5)]
check("C28", both(C28Q, C28T), {
    "quick": "server names of up to 16 visible characters, spaces among them, and media types with a subtype of up to 9, arbitrary global data of two bytes, four ways of responding, five things a handler can do with the defaults, up to 3 filters; documented defaults through both constructors; names of up to 5 arbitrary ASCII bytes; media types made from text, each part of up to 11 characters; five requests that no handler answers, stopped by a filter or not; 45 requests of five methods under three settings of keep-alive; where requests are short, 14 kinds of them (method, version, headers that are none of the matter, keep-alive)",
    "thorough": "names of 40 characters, media types with parts of every combination of lengths around those of the known names",
}, ["another kind of request", "a handler replaces a default", "a handler removes a default", "a handler leaves the defaults", "all defaults", "a name that tries to be several headers", "a known name in text", "a known value in text", "a response that no handler made", "a request for a head"])
