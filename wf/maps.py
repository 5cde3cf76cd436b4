"""Updates of keyed containers, read off the analysed control flow independently of how they are spelled."""
import re


def split_call(s):
    """'name(a, b).rest' -> (name, [a, b], rest); None when S has another shape"""
    m = re.match(r"^([\w:]+)\(", s)
    if not m:
        return None
    depth, i, start, args = 0, m.end() - 1, m.end(), []
    q = None
    while i < len(s):
        c = s[i]
        if q:
            if c == q and s[i - 1] != "\\":
                q = None
        elif c in "\"'" and (c == '"' or re.match(r"'(\\.|[^'])*'", s[i:])):
            q = c
        elif c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
            if depth == 0:
                if s[start:i].strip():
                    args.append(s[start:i].strip())
                return m.group(1), args, s[i + 1:]
        elif c == "," and depth == 1:
            args.append(s[start:i].strip())
            start = i + 1
        i += 1
    return None


def slot(s):
    """(container, key) of the map slot that expression S denotes, or None"""
    c = split_call(s)
    if not c:
        return None
    nm, args, rest = c
    nm = nm.split("::")[-1]
    if nm in ("or_default", "or_insert", "or_insert_with", "or_insert_with_key", "get_mut", "into_mut", "get") and args and rest in ("", ".Some.0") and args[0].startswith("entry("):
        e = split_call(args[0])
        if e and e[0] == "entry" and len(e[1]) == 2 and e[2] in ("", ".Occupied.0", ".Occupied.0.0", ".Vacant.0"):
            return e[1][0], e[1][1]
    if nm in ("get_mut", "get") and len(args) == 2 and rest == ".Some.0":
        return args[0], args[1]
    if nm in ("index", "index_mut") and len(args) == 2 and rest == "":
        return args[0], args[1]
    if nm == "entry" and len(args) == 2 and rest in (".Occupied.0", ".Vacant.0", ""):
        return args[0], args[1]
    return None


class Op:
    __slots__ = ("kind", "m", "k", "v", "pid", "e")

    def __init__(self, kind, m, k, v, e):
        self.kind, self.m, self.k, self.v, self.pid, self.e = kind, m, k, v, e.pid, e

    @property
    def where(self):
        return self.e.where

    def __repr__(self):
        return f"{self.kind} {self.m}[{self.k}] {self.v or ''} @{self.where}"


def binop(s):
    c = split_call(s)
    if c and c[0] in ("Add", "Sub", "WrappingAdd", "WrappingSub", "add", "sub", "saturating_add", "saturating_sub", "wrapping_add", "wrapping_sub") and len(c[1]) == 2 and c[2] == "":
        return c[0], c[1][0], c[1][1]
    return None


def flip(b, sl):
    """the stored value first, where the operation commutes"""
    if b and slot(b[1]) != sl and slot(b[2]) == sl and b[0].lower().endswith("add"):
        return b[0], b[2], b[1]
    return b


ZEROS = ("0", "Default::default()", None, "")


def ops(a):
    """keyed updates with stores into a slot known to be absent read as additions to nothing"""
    if not hasattr(a, "_ops"):
        out = []
        # a local container lent anew in each step of a loop, by its content
        lent = {}
        for c in a.calls():
            if c.nargs and c.f["name"] in ("entry", "get_mut", "insert", "index_mut", "remove"):
                w, g = a.s(a.v.arg(c.pid, 0)), c.arg(0)
                if w != g and re.fullmatch(r"\w+", w):
                    lent.setdefault(w, set()).add(g)
        for o in raw_ops(a):
            if len(lent.get(o.m, ())) == 1:
                o.m = next(iter(lent[o.m]))
            if o.kind == "new":
                o.kind = "add"
            elif o.kind == "set":
                rx = re.compile("^" + slot_absent(o.m, o.k) + "$")
                if any(rx.search(s) for s in a.must([o.pid])):
                    o.kind = "add"
            elif o.kind == "touch" and o.v not in ZEROS:
                ms = a.must([o.pid])
                rx = re.compile("^" + slot_absent(o.m, o.k) + "$")
                px = re.compile("^" + slot_present(o.m, o.k).replace("^", "") + "$")
                if any(px.search(s) for s in ms):
                    o.v = None
                else:
                    o.kind = "add" if any(rx.search(s) for s in ms) else "init"
            out.append(o)
        a._ops = out
    return list(a._ops)


def raw_ops(a):
    """every update of a keyed container: kind in add, sub, set, new (insert into a vacant slot), remove, clear, other"""
    out = []
    for e in a.effects():
        o = e.op
        sl = slot(e.loc)
        if o in ("add_assign", "sub_assign") and sl:
            out.append(Op(o[:3], sl[0], sl[1], e.args[0] if e.args else "", e))
        elif o == "clone_from" and sl and e.idx == 0 and len(e.args) == 1:
            out.append(Op("set", sl[0], sl[1], e.args[0], e))
        elif o == "assign" and sl:
            b = flip(binop(e.args[0]), sl)
            if b and slot(b[1]) == sl:
                out.append(Op({"Add": "add", "Sub": "sub"}.get(b[0], "set"), sl[0], sl[1], b[2], e))
            else:
                out.append(Op("set", sl[0], sl[1], e.args[0], e))
        elif o == "insert" and len(e.args) == 2:
            b = flip(binop(e.args[1]), (e.loc, e.args[0]))
            if b and slot(b[1]) == (e.loc, e.args[0]):
                out.append(Op({"Add": "add", "Sub": "sub"}.get(b[0], "set"), e.loc, e.args[0], b[2], e))
            else:
                out.append(Op("set", e.loc, e.args[0], e.args[1], e))
        elif o in ("Entry::or_insert",) and sl:
            c = a.p.nodes[e.pid]
            out.append(Op("touch", sl[0], sl[1], e.args[0] if e.args else "", e))
        elif o in ("Entry::or_default", "Entry::or_insert_with", "Entry::or_insert_with_key") and sl:
            out.append(Op("touch", sl[0], sl[1], None, e))
        elif o in ("Entry::insert", "Entry::insert_entry") and sl:
            out.append(Op("new" if e.loc.endswith("Vacant.0") else "set", sl[0], sl[1], e.args[0] if e.args else "", e))
        elif o in ("Entry::remove", "Entry::remove_entry") and sl:
            out.append(Op("remove", sl[0], sl[1], None, e))
        elif o in ("remove", "remove_entry") and len(e.args) == 1:
            out.append(Op("remove", e.loc, e.args[0], None, e))
        elif o == "retain_drop" and e.idx == 0:
            out.append(Op("remove", e.loc, e.args[0] if e.args else "", None, e))
        elif o == "clear":
            out.append(Op("clear", e.loc, None, None, e))
    return out


def cur(m, k):
    """regex source: the value currently stored in M under K"""
    M, K = re.escape(m), re.escape(k)
    e = rf"entry\({M}, {K}\)\.Occupied\.0"
    return rf"(?:get(?:_mut)?\({e}\)|get(?:_mut)?\({M}, {K}\)\.Some\.0|index(?:_mut)?\({M}, {K}\)|into_mut\({e}\))"


def slot_absent(m, k):
    M, K = re.escape(m), re.escape(k)
    return rf"(?:entry\({M}, {K}\) is Vacant|get(?:_mut)?\({M}, {K}\) is None|!contains_key\({M}, {K}\))"


def slot_present(m, k):
    M, K = re.escape(m), re.escape(k)
    return rf"(?:entry\({M}, {K}\) is Occupied|get(?:_mut)?\({M}, {K}\) is Some|^contains_key\({M}, {K}\))"


def headers(a, coll):
    """loops over COLL: {cfg node id: {'more': edges, 'done': edges}}"""
    out = {}
    for i, l, y, ss in a.edges():
        for s in ss:
            for sub in ("", ".0", ".1"):
                for k, lab in ((f"next({coll}){sub} is Some", "more"), (f"next({coll}){sub} is None", "done")):
                    if s != k:
                        continue
                    out.setdefault(a.p.nodes[i].n.id, {"more": set(), "done": set()})[lab].add((i, l))
    return out


def step_ok(a, hid, h, steps, skips, ends=()):
    """every iteration passes a STEPS node or a SKIPS edge before the next iteration or a return; None or a path"""
    heads = {i for i, l in h["more"]} | {i for i, l in h["done"]}
    for (i, l) in h["more"]:
        for ll, y in a.p.nodes[i].succ:
            if ll != l:
                continue
            tgt = heads | (set(ends) or {n.id for n in a.p.nodes if n.n.k == "ret"})
            p = a.paths_avoiding(tgt, cut_nodes=steps, cut_edges=skips, start=y)
            if p is not None:
                return p
    return None


def each(C, a, rule, inst, colls, steps, skips, ends, what):
    """every return in ENDS comes after a loop over one of COLLS, run to its end, whose every iteration passes STEPS or SKIPS"""
    colls = [colls] if isinstance(colls, str) else colls
    steps = {s if isinstance(s, int) else s.pid for s in steps}
    ends = {e if isinstance(e, int) else e.pid for e in ends}
    good, why = set(), None
    n = 0
    for c in colls:
        for hid, h in headers(a, c).items():
            n += 1
            p = step_ok(a, hid, h, steps, skips, ends)
            if p is None and steps & reach_of(a, h):
                good |= h["done"]
            else:
                why = p or why
    if not good:
        return C.ob(rule, inst, False, what + (f" ({n} loops over {colls} seen)"), a.where(why[-1]) if why else a.fn["span"], a.describe(why) if why else None)
    p = a.paths_avoiding(ends, cut_edges=good)
    return C.ob(rule, inst, p is None, what if p is None else what + " (a way to the end without it)", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)


def reach_of(a, h):
    return a.reach([y for (i, l) in h["more"] for ll, y in a.p.nodes[i].succ if ll == l])


def to_the_end(C, a, rule, inst, colls, ends=None, other=()):
    """a loop over COLLS is left for one of ENDS (default: any return) only when nothing is left, or by an edge of OTHER"""
    colls = [colls] if isinstance(colls, str) else colls
    ends = {r.pid for r in a.rets()} if ends is None else {e if isinstance(e, int) else e.pid for e in ends}
    more, done = set(), set()
    for c in colls:
        for h in headers(a, c).values():
            more |= h["more"]
            done |= h["done"]
    p = next((p for (i, l) in more for ll, y in a.p.nodes[i].succ if ll == l for p in [a.paths_avoiding(ends, cut_edges=done | set(other), start=y)] if p), None)
    return C.ob(rule, inst, p is None, "the walk can end before the last element", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)


def once(C, a, rule, inst, colls, steps, what):
    """no two of STEPS within one iteration of a loop over COLLS (or at all, outside loops)"""
    colls = [colls] if isinstance(colls, str) else colls
    steps = {s if isinstance(s, int) else s.pid for s in steps}
    heads = set()
    for c in colls:
        for hid, h in headers(a, c).items():
            heads |= {i for i, l in h["more"]}
    for s in steps:
        r = a.reach([y for _, y in a.p.nodes[s].succ], avoid_node=lambda n: n.id in heads)
        hit = r & steps
        if hit:
            return C.ob(rule, inst, False, what, a.where(min(hit)))
    return C.ob(rule, inst, True, what)


def terms(a, v, sign=1, out=None, depth=30, seen=None):
    """signed additive components of a value, over all alternatives: {(sign, rendering)}"""
    out = set() if out is None else out
    seen = seen if seen is not None else set()
    v = a.n.peel(v)
    if (v, sign) in seen or depth < 0:
        return out
    seen.add((v, sign))
    t = a.v.t(v)
    if t[0] == "phi":
        for o in a.n.phi_ops(v):
            terms(a, o, sign, out, depth - 1, seen)
        return out
    kid = None
    if t[0] == "mut" and a.n.opassign(t):
        kid = (a.n.opassign(t), t[3], a.v.arg(t[1], 1))
    elif t[0] == "bin" and t[1] in ("Add", "Sub"):
        kid = (t[1], t[2], t[3])
    elif t[0] == "call" and t[1] in ("Add::add", "Sub::sub") and len(t[2]) == 2:
        kid = (t[1].split("::")[0], t[2][0], t[2][1])
    if kid and kid[0] in ("Add", "Sub"):
        terms(a, kid[1], sign, out, depth - 1, seen)
        terms(a, kid[2], sign if kid[0] == "Add" else -sign, out, depth - 1, seen)
        return out
    out.add((sign, a.s(v)))
    return out
