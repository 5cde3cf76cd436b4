"""Acceptance rules: which conditions every accepting path crosses, and which rejections each condition explains."""
import re
from .extra import fact_edges, fact, lin, range_edges
from .maps import headers, reach_of, step_ok


def keys(C, *names):
    """call keys of the named workspace functions, to be left as opaque calls"""
    s = set(names)
    return tuple(sorted(f["key"] for f in C.F.fns.values() if f["name"] in s and f.get("kind") != "Closure"))


def oks(a):
    """returns that may report success"""
    rs = a.rets()
    if any(r.variant in ("Ok", "Err") for r in rs):
        return [r for r in rs if r.variant != "Err"]
    return rs


def errs(a):
    return [r for r in a.rets() if r.variant == "Err"]


def edges(a, *alts):
    """edges satisfying one of the alternatives: exact rendering, compiled regex, linear fact, or an edge set"""
    out = set()
    strs = {x for x in alts if isinstance(x, str)}
    rxs = [x for x in alts if hasattr(x, "search")]
    if strs or rxs:
        out |= a.edges_matching(lambda s: s in strs or any(r.search(s) for r in rxs))
    for x in alts:
        if isinstance(x, (set, frozenset)):
            out |= x
        elif isinstance(x, tuple) and len(x) == 3 and isinstance(x[1], frozenset):
            out |= fact_edges(a, x)
        elif callable(x) and not hasattr(x, "search"):
            out |= a.edges_matching(x)
    facts = [x for x in alts if isinstance(x, tuple) and len(x) == 3 and isinstance(x[1], frozenset)]
    if facts:
        out |= range_edges(a, facts)
    return out


def need(C, a, rule, inst, targets, *alts, cut_nodes=(), what=None):
    """every path to TARGETS crosses a condition satisfying one of ALTS (or passes CUT_NODES)"""
    t = {x if isinstance(x, int) else x.pid for x in targets}
    ce = edges(a, *alts)
    p = a.paths_avoiding(t, cut_nodes=[x if isinstance(x, int) else x.pid for x in cut_nodes], cut_edges=ce)
    d = what or f"required: {[getattr(x, 'pattern', x) for x in alts if not isinstance(x, (set, frozenset))]}"
    return C.ob(rule, inst, p is None and bool(t), d + ("" if t else " (nothing to reach)"), a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)


def reasons(C, a, rule, inst, targets, *alts, what="rejects only for a stated reason"):
    """no target is reached unless one of ALTS holds on the way (no over-rejection)"""
    t = {x if isinstance(x, int) else x.pid for x in targets}
    p = a.paths_avoiding(t, cut_edges=edges(a, *alts)) if t else None
    return C.ob(rule, inst, p is None, what, a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)


def err_edges(a, *calls):
    """edges on which one of the named calls is seen to have failed"""
    vs = set()
    for c in a.calls():
        if c.f["name"] in calls:
            vs.add(a.s(c.value))
    return a.edges_matching(lambda s: any(s in (f"{v} is Err", f"{v} is None") for v in vs))


def must_call(C, a, rule, inst, calls, targets, what, within=None):
    """a call among CALLS succeeded on every path to TARGETS"""
    vs = {a.s(c.value) for c in calls}
    C.ob(rule, inst, bool(calls), what + f" ({len(calls)} calls)", calls[0].where if calls else a.fn["span"])
    if not calls:
        return False
    return need(C, a, rule, inst, targets, *({f"{v} is Ok" for v in vs}), what=what)


def alts(a, v, depth=12, seen=None):
    """the non-joined alternatives of a value, joins expanded through projections being left alone"""
    seen = seen if seen is not None else set()
    v = a.n.peel(v)
    if v in seen or depth < 0:
        return []
    seen.add(v)
    t = a.v.t(v)
    if t[0] == "phi":
        out = []
        for o in a.n.phi_ops(v):
            out += alts(a, o, depth - 1, seen)
        return out
    return [v]


def lins(a, v):
    """set of linear forms a value may take"""
    return {frozenset(lin(a, x).items()) for x in alts(a, v)}


def form(d):
    return frozenset((k, c) for k, c in d.items() if c)


def loop_all(C, a, rule, inst, colls, steps, skips, ends, what):
    from .maps import each
    return each(C, a, rule, inst, colls, steps, skips, ends, what)


def elements(a, coll_rx):
    """rendered loop sources matching the regex: {source: headers}"""
    out = {}
    for i, l, y, ss in a.edges():
        for s in ss:
            m = re.match(r"^next\((.*)\) is (Some|None)$", s)
            if m and re.search(coll_rx, m.group(1)):
                out.setdefault(m.group(1), None)
    return sorted(out)


SUMS = ("finish_sum", "finish_count", "consume_sum", "consume_count", "consume_start")


def accum(a, v):
    """looks like a running total: a join, a literal or itself a sum"""
    t = a.v.t(a.n.peel(v))
    if t[0] == "proj" and a.s(v).startswith("checked_add("):
        return True
    if t[0] == "call" and t[1].split("::")[-1] in SUMS:
        return True
    return t[0] in ("phi", "const") or t[0] == "bin" and t[1] == "Add" or t[0] == "call" and t[1].split("::")[-1] in ("saturating_add", "wrapping_add", "add", "checked_add")


def may_skip(a, v):
    """a running total that an iteration of its loop can pass on without adding to it: joins in a cycle no addition is part of"""
    g, full, work, seen = {}, {}, [v], set()
    while work:
        x = a.v.strip(work.pop())
        if x in seen:
            continue
        seen.add(x)
        t = a.v.t(x)
        if t[0] == "phi":
            g[x] = full[x] = {a.v.strip(o) for o in a.v.phis[x]}
        elif t[0] == "bin" and t[1] == "Add":
            full[x] = {a.v.strip(o) for o in t[2:4] if accum(a, o)}
        elif t[0] == "call" and t[1].split("::")[-1] in ("saturating_add", "wrapping_add", "add", "checked_add"):
            full[x] = {a.v.strip(o) for o in t[2][:2] if accum(a, o)}
        elif t[0] == "proj":
            full[x] = {a.v.strip(t[1])}
        work += full.get(x, ())

    def reach(x, g):
        out, w = set(), [x]
        while w:
            for o in g.get(w.pop(), ()):
                if o not in out:
                    out.add(o)
                    w.append(o)
        return out
    rs = {x: reach(x, g) for x in g}
    for x in g:
        k = {y for y in rs[x] if y in g and x in rs[y]}
        if k and len({o for y in k for o in g[y]} - k) > 1:
            return True
    # the start value enters the loop at one join alone (it is not put back on the way round)
    rf = {x: reach(x, full) for x in full}
    for x in g:
        k = {y for y in rf[x] if y in g and x in rf.get(y, ())}
        if len({y for y in k if any(o not in full or o in full and not rf[o] for o in full[y])}) > 1:
            return True
    return False


def sum_forms(a, v, seed=("0",)):
    """accumulator: (start values, added terms) of a value that is START + sum of TERMS over a loop, checked or not;
    each added term is paired with the operation used"""
    start, added = set(), set()
    work, seen = [v], set()
    while work:
        v = a.n.peel(work.pop())
        if v in seen:
            continue
        seen.add(v)
        t = a.v.t(v)
        if t[0] == "phi":
            work += list(a.n.phi_ops(v))
            continue
        if t[0] == "call" and t[1].split("::")[-1] in SUMS:
            # an iterator consumed by `sum` or `count`
            k = t[1].split("::")[-1]
            if k == "consume_start":
                start.add("0")
            else:
                work.append(t[2][0])
                if k == "consume_sum":
                    added.add(("Add", a.s(t[2][1])))
                elif k == "consume_count":
                    added.add(("Add", "1"))
            continue
        x, y = t, v
        if t[0] == "proj" and a.s(v).endswith((".Some.0", ".Ok.0")):
            while x[0] == "proj":
                y = a.v.strip(x[1])
                x = a.v.t(y)
            if x[0] == "call" and x[1].split("::")[-1] in ("checked_add",):
                l, r = x[2][0], x[2][1]
                if not accum(a, l) and accum(a, r):
                    l, r = r, l
                work.append(l)
                added.add(("checked_add", a.s(r)))
                continue
            x = t
        if t[0] == "bin" and t[1] == "Add" or t[0] == "call" and t[1].split("::")[-1] in ("saturating_add", "wrapping_add", "add") and len(t[2]) == 2:
            l, r = (t[2], t[3]) if t[0] == "bin" else (t[2][0], t[2][1])
            nm = "Add" if t[0] == "bin" else t[1].split("::")[-1]
            if not accum(a, l) and accum(a, r):
                l, r = r, l
            work.append(l)
            added.add((nm, a.s(r)))
            continue
        if t[0] == "mut" and a.n.opassign(t):
            work.append(t[3])
            added.add((a.n.opassign(t), a.s(a.v.arg(t[1], 1))))
            continue
        start.add(a.s(v))
    return start, added


def payload(a, r, variant="Ok", path=()):
    """the value carried by a returned Ok (fields of a tuple by index in PATH)"""
    return a.v.projv(r.value, (("v", variant), ("f", 0)) + tuple(("f", i) for i in path))


def field(a, v, *path):
    return a.v.projv(v, tuple(("f", i) for i in path))


def tests(a, s):
    """edges on which the rendered result S is seen: (success edges, failure edges)"""
    ok = a.edges_matching(lambda x: x in (f"{s} is Ok", f"{s} is Some"))
    bad = a.edges_matching(lambda x: x in (f"{s} is Err", f"{s} is None"))
    return ok, bad


def calls_to(a, name, *want):
    """call sites to a function of that name whose arguments match (None: anything, str: equal, regex: search)"""
    out = []
    for c in a.calls():
        if c.f["name"] != name:
            continue
        if all(w is None or (w.search(c.arg(i)) if hasattr(w, "search") else callable(w) and w(c.arg(i)) or w == c.arg(i)) for i, w in enumerate(want)):
            out.append(c)
    return out


def checked(C, a, rule, inst, name, want, targets=None, ok=True):
    """a call NAME(want) happens and succeeds on every path to TARGETS (success returns by default)"""
    cs = calls_to(a, name, *want)
    seen = [c for c in a.calls() if c.f["name"] == name]
    C.ob(rule, f"{inst}: {name} is called with the right arguments", bool(cs), f"wanted {[getattr(w, 'pattern', w) for w in want]}; calls seen {[c.args for c in seen][:3]}", (cs or seen)[0].where if cs or seen else a.fn["span"])
    if not cs:
        return None
    t = [r.pid for r in oks(a)] if targets is None else targets
    es = set()
    for c in cs:
        es |= tests(a, a.s(c.value))[0]
    if ok:
        # a success return may hand the result itself on
        direct = {a.s(c.value) for c in cs}
        t = [p for p in t if not (p in {r.pid for r in a.rets()} and {a.s(v) for v in a.alternatives([r for r in a.rets() if r.pid == p][0].value)} <= direct)]
        if t:
            need(C, a, rule, f"{inst}: {name} succeeded", t, es, what=f"{name} must succeed before")
    else:
        C.must_pass(a, rule, f"{inst}: {name} happens", cs, t, f"{name} on every path")
    return cs[0]


VERSIONS = ["V1_7", "V1_8", "V2_0", "V2_1"]


def ver(assumed, subject):
    """conditions impossible when the protocol version SUBJECT is ASSUMED (one name or several)"""
    have = [VERSIONS.index(x) for x in ([assumed] if isinstance(assumed, str) else assumed)]
    rs = subject if hasattr(subject, "search") else re.compile("^" + re.escape(subject) + "$")

    def contra(s):
        m = re.match(r"^(.*) is ([\w/]+)$", s)
        if m and rs.search(m.group(1)) and all(x in VERSIONS for x in m.group(2).split("/")):
            return not any(VERSIONS[h] in m.group(2).split("/") for h in have)
        m = re.match(r"^(?:ProtocolVersion::)(V\d_\d)\{\} (lt|le|gt|ge|eq|ne) (.*)$", s)
        if not m or not rs.search(m.group(3)):
            return False
        k = VERSIONS.index(m.group(1))
        f = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}[m.group(2)]
        return not any(f(k, h) for h in have)
    return contra


def both(*cs):
    return lambda s: any(c(s) for c in cs)


IMPOSSIBLE = re.compile(r"^(0|!1|Option::None\{\} is Some|Option::Some\{.*\} is None|Option::None\{\} eq Option::Some\{.*|Option::Some\{.*\} eq Option::None\{\})$")


def plain(a):
    """the analysis without branches whose condition is impossible on its face"""
    return a.under(lambda s: bool(IMPOSSIBLE.match(s)))


def per_element(C, a, rule, inst, colls, ends, what, cut=(), nodes=(), floor=True):
    """a loop over one of COLLS runs to its end before every END, and each of its iterations crosses CUT or passes NODES"""
    colls = [colls] if isinstance(colls, str) else colls
    ends = {e if isinstance(e, int) else e.pid for e in ends}
    ns = {x if isinstance(x, int) else x.pid for x in nodes}
    good, why, n = set(), None, 0
    for c in colls:
        for hid, h in headers(a, c).items():
            n += 1
            p = step_ok(a, hid, h, ns, set(cut), ends)
            if p is None:
                good |= h["done"]
            else:
                why = p
    if not good:
        return C.ob(rule, inst, False, what + f" ({n} loops over {colls} seen)", a.where(why[-1]) if why else a.fn["span"], a.describe(why) if why else None)
    p = a.paths_avoiding(ends, cut_edges=good)
    return C.ob(rule, inst, p is None and bool(ends), what if p is None else what + " (a way to the end without it)", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)


def per_nested(C, a, rule, inst, outer, inner, ends, what, cut=()):
    """each iteration of a loop over OUTER runs a loop over INNER to its end, whose iterations all cross CUT"""
    ends = {e if isinstance(e, int) else e.pid for e in ends}
    good = set()
    for c in [inner] if isinstance(inner, str) else inner:
        for hid, h in headers(a, c).items():
            if step_ok(a, hid, h, set(), set(cut), ends) is None:
                good |= h["done"]
    return per_element(C, a, rule, inst, outer, ends, what, cut=good)


def fresh(a, key):
    """edges on which KEY was newly inserted in a set (or found absent from it), and the opposite edges"""
    K = re.escape(key)
    ins = re.compile(rf"^insert\((.*), {K}\)$")
    yes, no = set(), set()
    for i, l, y, ss in a.edges():
        for s in ss:
            if ins.match(s):
                yes.add((i, l))
            elif s.startswith("!") and ins.match(s[1:]):
                no.add((i, l))
    return yes, no


def insertions(a, key):
    return [e for e in a.effects() if e.op == "insert" and e.args and e.args[0] == key]


def obj(a, pid, i):
    """the object handed by reference as argument I of call PID: a canonical location (None when passed by value)"""
    n = a.p.nodes[pid].n
    if i >= len(n.args) or n.args[i][0] != "p":
        return None
    v = a.v.operand(n.args[i], pid)
    t = a.v.t(a.v.strip_phi(v))
    loc = t[2] if t[0] == "ref" else a.v.deref(a.v.strip_phi(v))
    r, acc = a.n.container(loc)
    return a.n.locstr(r)


def calls_within(a, v, name, depth=25):
    """call sites of NAME whose result flows into the value (through aggregates, conversions and joins)"""
    out, seen, work = set(), set(), [(v, depth)]
    while work:
        v, d = work.pop()
        if v in seen or d < 0:
            continue
        seen.add(v)
        t = a.v.t(v)
        k = t[0]
        if k == "phi":
            work += [(o, d - 1) for o in a.n.phi_ops(v)]
        elif k == "call":
            f, args, deep, p = a.v.callinfo[v] if v in a.v.callinfo else ({}, t[2], (), None)
            if f.get("name") == name:
                out.add(p)
            else:
                work += [(x, d - 1) for x in t[2]]
        elif k == "agg":
            work += [(x, d - 1) for x in t[4]]
        elif k in ("proj", "cast", "un"):
            work.append((t[2] if k != "proj" else t[1], d - 1))
        elif k == "bin":
            work += [(t[2], d - 1), (t[3], d - 1)]
        elif k == "upd":
            work += [(t[1], d - 1), (t[3], d - 1)]
    return out


def compared(a, op, pred):
    """(edge, other side value) of comparisons X op Y where pred(rendering of Y)"""
    rev = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}
    out = []
    for i, l, y, ss in a.edges():
        at = a.fl.atom(i, l)
        if at[0] != "cmp":
            continue
        if at[1] == op and pred(a.s(at[3])):
            out.append(((i, l), at[2]))
        if rev[at[1]] == op and pred(a.s(at[2])):
            out.append(((i, l), at[3]))
    return out


def succeeded(a, cs, good=("Ok", "Some")):
    """edges on which the result of one of the calls is seen to be a success"""
    pids = {c.pid for c in cs}
    out = set()
    for i, l, y, ss in a.edges():
        at = a.fl.atom(i, l)
        if at[0] == "is" and len(at[2]) == 1 and at[2][0] in good:
            vs = [a.n.peel(v) for v in a.alternatives(a.n.peel(at[1]))]
            if vs and all(a.v.t(v)[0] == "call" and v in a.v.callinfo and a.v.callinfo[v][3] in pids for v in vs):
                out.add((i, l))
    return out


def named(C, ty, name):
    """projection to the named field of a struct"""
    for k, ad in C.F.adts.items():
        if k.split("::")[-1] == ty:
            for i, f in enumerate(ad["variants"][0]["fields"]):
                if f["name"] == name:
                    return ("f", i, name)
    raise KeyError(f"field {ty}.{name}")


def closures(C, fn):
    """bodies of the closures written in a function"""
    return [f for f in C.F.fns.values() if f.get("kind") == "Closure" and "blocks" in f and f["path"].startswith(fn["path"] + "::{closure")]


def first_match(C, a, rule, inst, colls, skip, hit, ends):
    """a loop over one of COLLS goes on only across SKIP; what comes after is reached only from its end or across HIT"""
    colls = [colls] if isinstance(colls, str) else colls
    for c in colls:
        for hid, h in headers(a, c).items():
            heads = {i for i, l in h["more"] | h["done"]}
            starts = [y for i, l in h["more"] for ll, y in a.p.nodes[i].succ if ll == l]
            p = next((q for q in (a.paths_avoiding(heads, cut_edges=skip, start=y) for y in starts) if q), None)
            ends_ = {e if isinstance(e, int) else e.pid for e in ends}
            r = next((q for q in (a.paths_avoiding(ends_, cut_edges=set(hit) | h["done"], start=y) for y in starts) if q), None)
            e = a.paths_avoiding(ends_, cut_edges=h["done"] | h["more"])
            if p is None and r is None and e is None:
                return C.ob(rule, inst, True, "first element that satisfies the condition")
            why = p or r or e
            return C.ob(rule, inst, False, "goes on past a match, stops without one, or is not always reached", a.where(why[-1]), a.describe(why))
    return C.ob(rule, inst, False, f"no loop over {colls}", a.fn["span"])


def iterations(a, colls):
    """two analyses: the loops over COLLS do not run at all, and run at least once"""
    more, done = set(), set()
    for c in [colls] if isinstance(colls, str) else colls:
        for h in headers(a, c).values():
            more |= h["more"]
            done |= h["done"]
    inside = a.reach([y for i, l in more for ll, y in a.p.nodes[i].succ if ll == l])
    return a.prune(more), a.prune({(i, l) for i, l in done if i not in inside})


def gathered(a, v):
    """the calls that put an element into the collection V"""
    x = a.v.strip(v)
    return [c for c in a.calls() if c.f["name"] in ("collect_push", "push") and a.v.strip(c.val(0)) == x]
