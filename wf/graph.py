"""Expanded control-flow graphs: local callees and closures inlined, std combinators unfolded.

Places are (ctx, local, proj); proj elements:
  '*'                      deref
  ('f', idx, name, adt)    field
  ('v', variant)           downcast
  ('i', place)             index by local
  ('ci', n, from_end)      constant index
  ('s', a, b, from_end)    subslice
Operands: ('p', place, moved) | ('k', const)
"""
import re
from .facts import CLOSURE_RE, ty_head

OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"

F0 = ("f", 0, "0", None)


class Node:
    __slots__ = ("id", "k", "ctx", "d", "v", "f", "args", "op", "succ", "span", "aux")

    def __init__(self, id, k, ctx, span=None):
        self.id = id
        self.k = k
        self.ctx = ctx
        self.d = None
        self.v = None
        self.f = None
        self.args = None
        self.op = None
        self.succ = []  # [(label, id)]
        self.span = span
        self.aux = None

    def __repr__(self):
        return f"<{self.id} {self.k} d={self.d} v={self.v} f={self.f and self.f.get('fn')} {self.succ}>"


class Ctx:
    __slots__ = ("id", "fn", "parent", "site", "depth", "key")

    def __init__(self, id, fn, parent, site, depth):
        self.id = id
        self.fn = fn
        self.parent = parent
        self.site = site
        self.depth = depth
        self.key = fn["key"]


class TooBig(Exception):
    pass


def short(f):
    """callee name for rules: Type::method (or Trait::method)."""
    return f.get("short") or _short(f)


def _short(f):
    p = f["fn"]
    p = strip_generics(p)
    seg = [x for x in p.split("::") if x]
    s = "::".join(seg[-2:]) if len(seg) >= 2 else p
    f["short"] = s
    return s


def strip_generics(p):
    out = []
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            # leading '<' of a qualified path is kept as its self type's head
            d += 1
        elif c == ">":
            if not (i > 0 and p[i - 1] in "-="):
                d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    if not s or s.startswith("::"):
        # <X as Trait>::m  or <impl Trait for X>::m
        m = re.match(r"^<(.*)>::(\w+)$", p)
        if m:
            inner = m.group(1)
            m2 = re.match(r"^(.*) as (.*)$", inner)
            if m2:
                return strip_generics(m2.group(2)) + "::" + m.group(2)
            return ty_head(inner) + "::" + m.group(2)
    return s


STAGES = {"map", "filter", "filter_map", "take_while", "skip_while", "map_while", "inspect", "flat_map"}
OPTIONS = re.compile(r"^(?:std::iter::(?:Rev|Skip|Take|Fuse|Chain)<)*(?:std|core|alloc)::(?:slice::Iter|slice::IterMut|vec::IntoIter|collections::vec_deque::Iter)<(?:'[^,]*, )?(?:std|core)::option::Option<")
PASS_STAGES = {"enumerate", "rev", "skip", "take", "cloned", "copied", "peekable", "zip", "step_by", "fuse", "by_ref", "into_iter", "chain"}
CONSUMERS = {"for_each", "try_for_each", "fold", "try_fold", "any", "all", "find", "find_map", "position", "count",
             "reduce", "sum", "product", "collect", "last", "next", "max", "min", "max_by_key", "min_by_key", "unzip", "partition"}


class Graph:
    def __init__(self, facts, root, inline=True, max_depth=7, max_nodes=60000, no_inline=()):
        self.F = facts
        self.nodes = []
        self.ctxs = []
        self.max_depth = max_depth
        self.max_nodes = max_nodes
        self.inline_pred = inline if callable(inline) else (lambda fn: inline)
        self.no_inline = no_inline
        self.tmp = 0
        self.tmpty = {}
        self.inlined = set()
        self.root = root
        self.root_exit = self.node("ret", None, None)
        c = self.newctx(root, None, None, 0)
        self.entry = self.expand(c, self.root_exit.id)
        self.root_exit.ctx = c.id
        self.rootctx = c

    # -- primitives -------------------------------------------------------
    def node(self, k, ctx, span):
        if len(self.nodes) > self.max_nodes:
            raise TooBig(self.root["path"])
        n = Node(len(self.nodes), k, ctx, span)
        self.nodes.append(n)
        return n

    def newctx(self, fn, parent, site, depth):
        c = Ctx(len(self.ctxs), fn, parent, site, depth)
        self.ctxs.append(c)
        self.inlined.add(fn["key"])
        return c

    def fresh(self, ty=None):
        self.tmp -= 1
        if ty:
            self.tmpty[self.tmp] = ty
        return (-1, self.tmp, ())

    def asg(self, d, v, nxt, ctx, span):
        n = self.node("asg", ctx, span)
        n.d, n.v = d, v
        n.succ = [(None, nxt)]
        return n.id

    def nop(self, ctx, span, nxt=None):
        n = self.node("nop", ctx, span)
        if nxt is not None:
            n.succ = [(None, nxt)]
        return n

    def sw_variant(self, place, adt, edges, ctx, span):
        """switch on the variant of PLACE: edges {variant: nid}"""
        t = self.fresh("isize")
        s = self.node("sw", ctx, span)
        s.op = ("p", t, True)
        adtj = self.F.adts.get(adt) or {"variants": [{"name": "None", "discr": 0}, {"name": "Some", "discr": 1}] if adt == OPT else [{"name": "Ok", "discr": 0}, {"name": "Err", "discr": 1}] if adt == RES else [{"name": "Continue", "discr": 0}, {"name": "Break", "discr": 1}]}
        dis = {v["name"]: v["discr"] for v in adtj["variants"]}
        if adt.endswith("_map::Entry"):
            dis = {"Occupied": 0, "Vacant": 1} if "hash_map" in adt else {"Vacant": 0, "Occupied": 1}
        s.succ = [(str(dis[v]), n) for v, n in edges.items()]
        s.aux = "isize"
        return self.asg(t, ("discr", place, adt), s.id, ctx, span)

    def sw_bool(self, place, t, f, ctx, span):
        s = self.node("sw", ctx, span)
        s.op = ("p", place, True)
        s.succ = [("0", f), ("else", t)]
        s.aux = "bool"
        return s.id

    # -- tagging ----------------------------------------------------------
    def place(self, ctx, p):
        pr = []
        for e in p.get("p", ()):
            if e == "*":
                pr.append("*")
            elif e == "?":
                pr.append("?")
            elif "f" in e:
                pr.append(("f", e["f"], e["n"], e["adt"]))
            elif "idx" in e:
                pr.append(("i", (ctx, e["idx"], ())))
            elif "ci" in e:
                pr.append(("ci", e["ci"], e["end"]))
            elif "sub" in e:
                pr.append(("s", e["sub"][0], e["sub"][1], e["end"]))
            elif "dc" in e:
                pr.append(("v", e["n"]))
        return (ctx, p["l"], tuple(pr))

    def operand(self, ctx, o):
        if "c" in o:
            return ("p", self.place(ctx, o["c"]), False)
        if "m" in o:
            return ("p", self.place(ctx, o["m"]), True)
        if "k" in o:
            return ("k", o["k"], ctx)
        return ("k", {"ty": "?", "val": str(o)}, ctx)

    def rvalue(self, ctx, r):
        t = r["r"]
        if t == "use":
            return ("use", self.operand(ctx, r["a"]))
        if t == "ref":
            return ("ref", r["mut"], self.place(ctx, r["pl"]))
        if t == "rawptr":
            return ("ref", True, self.place(ctx, r["pl"]))
        if t == "bin":
            return ("bin", r["op"], self.operand(ctx, r["a"]), self.operand(ctx, r["b"]), r["ty"])
        if t == "un":
            return ("un", r["op"], self.operand(ctx, r["a"]))
        if t == "cast" and r["kind"] == "BoxDerefTransmute" and "MaybeUninit" not in r["from"]:
            # *box: the content of the box itself
            op = self.operand(ctx, r["a"])
            if op[0] == "p" and op[1][2] and op[1][2][-1][0] == "f":
                c, l, pr = op[1]
                return ("ref", False, (c, l, pr[:-1]))
        if t == "cast":
            return ("cast", r["kind"], self.operand(ctx, r["a"]), r["from"], r["ty"])
        if t == "discr":
            return ("discr", self.place(ctx, r["pl"]), r["adt"])
        if t == "agg":
            ops = tuple(self.operand(ctx, a) for a in r["a"])
            if r["kind"] == "adt":
                return ("agg", "adt", r["adt"], r["variant"], tuple(r["fields"]), ops)
            if r["kind"] == "closure":
                return ("agg", "closure", r["closure"], None, tuple(str(i) for i in range(len(ops))), ops)
            return ("agg", r["kind"], r["kind"], None, tuple(str(i) for i in range(len(ops))), ops)
        if t == "repeat":
            return ("repeat", self.operand(ctx, r["a"]), r["n"])
        return ("other", r.get("dbg", "?"))

    # -- expansion --------------------------------------------------------
    def ancestors(self, ctx):
        c = self.ctxs[ctx]
        while c is not None:
            yield c
            c = self.ctxs[c.parent] if c.parent is not None else None

    def expand(self, c, exit_id):
        fn = c.fn
        blocks = fn["blocks"]
        entry = {}
        for i, b in enumerate(blocks):
            if not b.get("cleanup"):
                entry[i] = self.nop(c.id, b["t"].get("s")).id
        for i, b in enumerate(blocks):
            if b.get("cleanup"):
                continue
            cur = self.nodes[entry[i]]

            def link(n):
                cur.succ = [(None, n)]

            for s in b["st"]:
                if "d" in s:
                    n = self.node("asg", c.id, s["s"])
                    n.d = self.place(c.id, s["d"])
                    n.v = self.rvalue(c.id, s["v"])
                elif "setd" in s:
                    n = self.node("setd", c.id, s["s"])
                    n.d = self.place(c.id, s["setd"])
                    n.v = s["var"]
                elif "dead" in s:
                    n = self.node("dead", c.id, None)
                    n.d = (c.id, s["dead"], ())
                else:
                    continue
                cur.succ = [(None, n.id)]
                cur = n
            t = b["t"]
            k = t["k"]
            sp = t["s"]
            if k == "goto":
                cur.succ = [(None, entry[t["t"]])]
            elif k == "switch":
                n = self.node("sw", c.id, sp)
                n.op = self.operand(c.id, t["a"])
                n.aux = t["ty"]
                n.succ = [(v, entry[x]) for v, x in t["v"]]
                if t["o"] in entry:
                    n.succ.append(("else", entry[t["o"]]))
                cur.succ = [(None, n.id)]
            elif k == "return":
                cur.succ = [(None, exit_id)]
            elif k == "drop":
                n = self.node("drop", c.id, sp)
                n.d = self.place(c.id, t["pl"])
                n.aux = t["ty"]
                n.succ = [(None, entry[t["t"]])]
                cur.succ = [(None, n.id)]
            elif k == "assert":
                n = self.node("assert", c.id, sp)
                n.op = self.operand(c.id, t["a"])
                n.aux = t["msg"]
                n.args = [self.operand(c.id, a) for a in t["mo"]]
                n.v = t["exp"]
                n.succ = [(None, entry[t["t"]])]
                cur.succ = [(None, n.id)]
            elif k == "call":
                args = [self.operand(c.id, a) for a in t["a"]]
                d = self.place(c.id, t["d"])
                nxt = entry[t["t"]] if t["t"] is not None else None
                f = t.get("f")
                if f is None:
                    n = self.call_indirect(self.operand(c.id, t["ind"]), args, d, nxt, c.id, sp)
                    cur.succ = [(None, n)]
                else:
                    cur.succ = [(None, self.call(f, args, d, nxt, c.id, sp))]
            elif k == "yield":
                n = self.node("yield", c.id, sp)
                n.op = self.operand(c.id, t["a"])
                n.d = self.place(c.id, t["d"])
                n.succ = [(None, entry[t["t"]])] if t["t"] in entry else []
                cur.succ = [(None, n.id)]
            elif k == "unreachable":
                n = self.node("unreachable", c.id, sp)
                cur.succ = [(None, n.id)]
            else:
                n = self.node("diverge", c.id, sp)
                cur.succ = [(None, n.id)]
        return entry[0]

    def opaque(self, f, args, d, nxt, ctx, span):
        n = self.node("call", ctx, span)
        n.f = f
        n.args = args
        n.d = d
        n.succ = [(None, nxt)] if nxt is not None else []
        return n.id

    def call_indirect(self, fop, args, d, nxt, ctx, span):
        # calling a local fn pointer / closure value
        if fop[0] == "k" and "fndef" in fop[1]:
            return self.call(fop[1]["fndef"], args, d, nxt, ctx, span)
        f = {"fn": "<indirect>", "key": "<indirect>", "name": "<indirect>", "ga": [], "local": False, "krate": "", "ind": fop}
        return self.opaque(f, args, d, nxt, ctx, span)

    def optype(self, o):
        """type string of an operand, when it is a bare local"""
        if o[0] == "k":
            return o[1].get("ty", "")
        ctx, l, pr = o[1]
        if l < 0 or ctx < 0:
            t = self.tmpty.get(l, "")
        else:
            t = self.ctxs[ctx].fn["locals"][l]["ty"]
        for e in pr:
            if e == "*":
                t = re.sub(r"^&('\w+ )?(mut )?", "", t)
            else:
                return ""
        return t

    def local_target(self, f):
        """the local function a call resolves to, if its body is known."""
        for k in ("reskey", "key"):
            if k in f:
                fn = self.F.fns.get(f[k])
                if fn is not None and "blocks" in fn and fn["crate"] not in self.F.stubs:
                    if k == "key" and "in_trait" in fn and "reskey" not in f and not f.get("_dflt"):
                        # unresolved trait method with a default body: not a definite target
                        continue
                    return fn
                if k == "reskey":
                    break
        # Into::into through a blanket impl: look for the From impl
        if f["name"] in ("into", "try_into") and f.get("trait", "").split("::")[-1] in ("Into", "TryInto") and len(f["ga"]) >= 2:
            want = ("From", "from") if f["name"] == "into" else ("TryFrom", "try_from")
            return self.from_impl(want, f["ga"][0], f["ga"][1]) or (None if same_ty(*f["ga"][:2]) else self.from_any(want, f["ga"][1]))
        return None

    def from_impl(self, want, src, dst):
        tr, m = want
        for im in self.F.impls:
            if im["trait"].split("::")[-1] != tr:
                continue
            if not same_ty(im["self"], dst):
                continue
            mm = re.search(r"as (?:[\w:]+::)?%s<(.*)>>?$" % tr, im["ref"])
            if mm and same_ty(mm.group(1), src):
                for k in im["items"]:
                    fn = self.F.fns.get(k)
                    if fn and fn["name"] == m and "blocks" in fn:
                        return fn
        return None

    def from_any(self, want, dst):
        """the impl of From for DST whose source is any type that satisfies its bounds"""
        tr, m = want
        for im in self.F.impls:
            if im["trait"].split("::")[-1] != tr or not same_ty(im["self"], dst):
                continue
            mm = re.search(r"as (?:[\w:]+::)?%s<([A-Z]\w?)>>?$" % tr, im["ref"])
            if mm:
                for k in im["items"]:
                    fn = self.F.fns.get(k)
                    if fn and fn["name"] == m and "blocks" in fn:
                        return fn
        return None

    def closure_target(self, op):
        """(fn, kind) for a callable operand: local closure body or fndef"""
        if op[0] == "k":
            if "fndef" in op[1]:
                return ("fndef", op[1]["fndef"])
            if "closure" in op[1]:
                fn = self.F.fns.get(op[1]["closure"])
                return ("closure", fn) if fn else None
            k = self.F.closure_of_type(op[1].get("ty", ""))
            if k:
                return ("closure", self.F.fns[k])
            t = op[1].get("ty", "")
            return None
        t = self.optype(op)
        t2 = re.sub(r"^&('\w+ )?(mut )?", "", t)
        if t2.startswith("{"):
            k = self.F.closure_of_type(t2)
            if k:
                return ("closure", self.F.fns[k])
        m = re.match(r"^fn\(.*\{(.*)\}$", t2)
        if m:
            name = m.group(1)
            for p, fs in self.F.by_path.items():
                if p == name or p.endswith("::" + name):
                    return ("fn", fs[0])
        return None

    def call_closure(self, op, args, d, nxt, ctx, span):
        """invoke callable OP with operand list ARGS, result to D."""
        t = self.closure_target(op)
        if t is None:
            return self.call_indirect(op, args, d, nxt, ctx, span)
        if t[0] == "fndef":
            return self.call(t[1], args, d, nxt, ctx, span)
        if t[0] == "fn":
            return self.inline_fn(t[1], args, d, nxt, ctx, span)
        fn = t[1]
        c = self.ctxs[ctx]
        if c.depth >= self.max_depth + 4 or any(a.key == fn["key"] for a in self.ancestors(ctx)):
            return self.call_indirect(op, args, d, nxt, ctx, span)
        nc = self.newctx(fn, ctx, None, c.depth + 1)
        ret = self.asg(d, ("use", ("p", (nc.id, 0, ()), True)), nxt, ctx, span) if nxt is not None else self.node("diverge", ctx, span).id
        body = self.expand(nc, ret)
        cur = body
        na = fn["args"]
        rest = args
        if na - 1 != len(args):
            # arguments arrive as one tuple
            rest = None
        if rest is not None:
            for i in range(na - 1, 0, -1):
                cur = self.asg((nc.id, i + 1, ()), ("use", args[i - 1]), cur, ctx, span)
        selfty = fn["locals"][1]["ty"]
        opp = op
        if op[0] == "p":
            ot = self.optype(op)
            if selfty.startswith("&") and not ot.startswith("&"):
                cur = self.asg((nc.id, 1, ()), ("ref", "mut " in selfty.split("{")[0], op[1]), cur, ctx, span)
            elif ot.startswith("&") and not selfty.startswith("&"):
                cur = self.asg((nc.id, 1, ()), ("use", ("p", (op[1][0], op[1][1], op[1][2] + ("*",)), False)), cur, ctx, span)
            else:
                cur = self.asg((nc.id, 1, ()), ("use", op), cur, ctx, span)
        else:
            # constant closure (captures nothing)
            pass
        return cur

    def inline_fn(self, fn, args, d, nxt, ctx, span):
        c = self.ctxs[ctx]
        nc = self.newctx(fn, ctx, None, c.depth + 1)
        if nxt is not None:
            ret = self.asg(d, ("use", ("p", (nc.id, 0, ()), True)), nxt, ctx, span)
        else:
            ret = self.node("diverge", ctx, span).id
        cur = self.expand(nc, ret)
        for i in range(len(args), 0, -1):
            cur = self.asg((nc.id, i, ()), ("use", args[i - 1]), cur, ctx, span)
        return cur

    def call(self, f, args, d, nxt, ctx, span):
        c = self.ctxs[ctx]
        if f.get("ctor"):
            v = f["fn"].split("::")[-1]
            adt = "::".join(f["fn"].split("::")[:-1])
            adt = strip_generics(adt)
            if adt not in self.F.adts and strip_generics(f["fn"]) in self.F.adts:
                adt = strip_generics(f["fn"])
            return self.asg(d, ("agg", "adt", adt, v, tuple(str(i) for i in range(len(args))), tuple(args)), nxt, ctx, span)
        m = self.model(f, args, d, nxt, ctx, span)
        if m is not None:
            return m
        fn = self.local_target(f)
        if (
            fn is not None
            and c.depth < self.max_depth
            and fn["args"] == len(args)
            and fn["key"] not in self.no_inline
            and fn["path"] not in self.no_inline
            and not fn.get("derived")
            and self.inline_pred(fn)
            and not any(a.key == fn["key"] for a in self.ancestors(ctx))
        ):
            return self.inline_fn(fn, args, d, nxt, ctx, span)
        # opaque call; closures passed to it may run any number of times
        cl = [(i, a) for i, a in enumerate(args) if self.closure_target(a) and self.closure_target(a)[0] == "closure"]
        if cl:
            head = self.nop(ctx, span)
            callid = self.opaque(f, args, d, nxt, ctx, span)
            sw = self.node("sw", ctx, span)
            sw.op = ("k", {"ty": "u8", "val": "nondet"}, ctx)
            sw.aux = "nondet"
            sw.succ = [("else", callid)]
            for j, (i, a) in enumerate(cl):
                t = self.closure_target(a)
                cargs = []
                for q in range(t[1]["args"] - 1):
                    tmp = self.fresh()
                    cargs.append((tmp, q))
                r = self.fresh("bool") if f["name"] in ("retain", "retain_mut") else self.fresh()
                cont = head.id
                if f["name"] in ("retain", "retain_mut") and i == 1:
                    # the element leaves the collection exactly when the callback says no
                    dr = self.opaque(self.mkf("std::collections::retain_drop"), [args[0]] + [("p", x, True) for x, _ in cargs], self.fresh(), head.id, ctx, span)
                    cont = self.sw_bool(r, head.id, dr, ctx, span)
                body = self.call_closure(a, [("p", x, True) for x, _ in cargs], r, cont, ctx, span)
                cur = body
                for x, q in cargs:
                    n = self.node("asg", ctx, span)
                    n.d = x
                    n.v = ("cbarg", short(f), i, q, tuple(args))
                    n.succ = [(None, cur)]
                    cur = n.id
                sw.succ.append((str(j), cur))
            head.succ = [(None, sw.id)]
            return head.id
        return self.opaque(f, args, d, nxt, ctx, span)

    # -- models of std combinators -----------------------------------------
    def model(self, f, args, d, nxt, ctx, span):
        if nxt is None or f.get("krate") not in ("core", "std", "alloc"):
            return None
        nm = f["name"]
        s = _short(f)
        head = s.split("::")[0] if "::" in s else ""
        tr = f.get("trait", "").split("::")[-1]
        if tr == "Iterator" or (tr == "IntoIterator" and False):
            return self.model_iter(f, nm, args, d, nxt, ctx, span)
        if tr in ("Try", "FromResidual"):
            return self.model_try(f, nm, args, d, nxt, ctx, span)
        if tr in ("FnOnce", "FnMut", "Fn") and nm in ("call", "call_mut", "call_once"):
            return self.model_fncall(f, args, d, nxt, ctx, span)
        if head == "Option":
            return self.model_optres(OPT, "Some", "None", nm, f, args, d, nxt, ctx, span)
        if head == "Result":
            return self.model_optres(RES, "Ok", "Err", nm, f, args, d, nxt, ctx, span)
        if nm == "then_with" and head == "Ordering" and len(args) == 2:
            pre, pl = self.topl(args[0], ctx)
            sw = self.node("sw", ctx, span)
            t = self.fresh("i8")
            sw.op, sw.aux = ("p", t, True), "i8"
            sw.succ = [("0", self.call_closure(args[1], [], d, nxt, ctx, span)), ("else", self.asg(d, ("use", ("p", pl, True)), nxt, ctx, span))]
            return self.pre(pre, self.asg(t, ("discr", pl, "std::cmp::Ordering"), sw.id, ctx, span), ctx, span)
        if nm in ("is_eq", "is_ne", "is_lt", "is_gt", "is_le", "is_ge") and head == "Ordering" and len(args) == 1:
            pre, pl = self.topl(args[0], ctx)
            pl = self.copied_from(pl)
            sw = self.node("sw", ctx, span)
            t = self.fresh("i8")
            sw.op, sw.aux = ("p", t, True), "i8"
            kb = lambda v: self.asg(d, ("use", ("k", {"ty": "bool", "int": v, "val": "true" if v else "false"}, ctx)), nxt, ctx, span)
            hold = {"eq": ("0",), "ne": ("255", "1"), "lt": ("255",), "ge": ("0", "1"), "gt": ("1",), "le": ("255", "0")}[nm[3:]]
            sw.succ = [(l, kb(int(l in hold))) for l in ("255", "0", "1")]
            return self.pre(pre, self.asg(t, ("discr", pl, "std::cmp::Ordering"), sw.id, ctx, span), ctx, span)
        if nm == "and_modify" and head == "Entry" and len(args) == 2:
            adt = "std::collections::%s_map::Entry" % ("btree" if "btree" in f["fn"] else "hash")
            pre, pl = self.topl(args[0], ctx)
            fin = self.asg(d, ("use", ("p", pl, True)), nxt, ctx, span)
            rf, r, x = self.fresh(), self.fresh(), self.fresh()
            body = self.call_closure(args[1], [("p", r, True)], x, fin, ctx, span)
            get = self.opaque(self.mkf("std::collections::OccupiedEntry::get_mut"), [("p", rf, True)], r, body, ctx, span)
            occ = self.asg(rf, ("ref", True, self.payload(pl, "Occupied")), get, ctx, span)
            return self.pre(pre, self.sw_variant(pl, adt, {"Occupied": occ, "Vacant": fin}, ctx, span), ctx, span)
        if nm in ("or_insert_with", "or_insert") and head == "Entry" and len(args) == 2 and self.made_by(args[0], "and_modify"):
            # entry(..).and_modify(..).or_insert(..): the second only for a key that was absent
            adt = "std::collections::%s_map::Entry" % ("btree" if "btree" in f["fn"] else "hash")
            pre, pl = self.topl(args[0], ctx)
            v = self.fresh()
            put = args[1] if nm == "or_insert" else ("p", v, True)
            ins = self.opaque(self.mkf("std::collections::%s_map::VacantEntry::insert" % ("btree" if "btree" in f["fn"] else "hash")), [("p", self.payload(pl, "Vacant"), True), put], d, nxt, ctx, span)
            have = self.opaque(self.mkf("std::collections::OccupiedEntry::into_mut"), [("p", self.payload(pl, "Occupied"), True)], d, nxt, ctx, span)
            return self.pre(pre, self.sw_variant(pl, adt, {"Occupied": have, "Vacant": ins if nm == "or_insert" else self.call_closure(args[1], [], v, ins, ctx, span)}, ctx, span), ctx, span)
        if nm in ("then", "then_some") and "bool" in f["fn"]:
            b = self.topl(args[0], ctx)
            pre, bp = b
            if nm == "then":
                r = self.fresh()
                yes = self.call_closure(args[1], [], r, self.asg(d, self.some(("p", r, True)), nxt, ctx, span), ctx, span)
            else:
                yes = self.asg(d, self.some(args[1]), nxt, ctx, span)
            no = self.asg(d, self.none(), nxt, ctx, span)
            sw = self.sw_bool(bp, yes, no, ctx, span)
            return self.pre(pre, sw, ctx, span)
        if tr == "Extend" and nm == "extend":
            return self.model_extend(f, args, d, nxt, ctx, span)
        return None

    def some(self, op):
        return ("agg", "adt", OPT, "Some", ("0",), (op,))

    def none(self):
        return ("agg", "adt", OPT, "None", (), ())

    def mk(self, adt, variant, *ops):
        return ("agg", "adt", adt, variant, tuple(str(i) for i in range(len(ops))), tuple(ops))

    def topl(self, op, ctx):
        """operand as a place; returns (pre-assign or None, place)"""
        if op[0] == "p":
            return (None, op[1])
        t = self.fresh(op[1].get("ty"))
        return ((t, ("use", op)), t)

    def made_by(self, op, name):
        """operand OP is the result of a call of NAME in the same body"""
        if op[0] != "p" or op[1][2] or not 0 <= op[1][0] < len(self.ctxs):
            return False
        return any(b["t"].get("k") == "call" and b["t"].get("f", {}).get("name") == name and (b["t"].get("d") or {}).get("l") == op[1][1] for b in self.ctxs[op[1][0]].fn["blocks"])

    def copied_from(self, pl):
        """the local that the temporary PL is a plain copy of, when both are written once: what is learned of one holds for the other"""
        c, l, pr = pl
        if pr or not 0 <= c < len(self.ctxs):
            return pl
        fn = self.ctxs[c].fn
        defs = {}
        for b in fn["blocks"]:
            for x in b["st"]:
                if isinstance(x.get("d"), dict):
                    defs.setdefault(x["d"]["l"], []).append(x)
            if isinstance(b["t"].get("d"), dict):
                defs.setdefault(b["t"]["d"]["l"], []).append(b["t"])
        x = defs.get(l, ())
        if len(x) != 1 or "p" in x[0]["d"] or x[0].get("v", {}).get("r") != "use":
            return pl
        src = x[0]["v"]["a"].get("c")
        if not src or "p" in src or len(defs.get(src["l"], ())) > 1 or "p" in (defs.get(src["l"]) or [{"d": {}}])[0]["d"]:
            return pl
        return (c, src["l"], ())

    def pre(self, pre, nid, ctx, span):
        if pre is None:
            return nid
        return self.asg(pre[0], pre[1], nid, ctx, span)

    def model_fncall(self, f, args, d, nxt, ctx, span):
        t = self.closure_target(args[0])
        if t is None:
            return None
        if args[1][0] != "p":
            if args[1][1].get("ty") == "()":
                ops = []
            else:
                return None
        else:
            ctx2, l, pr = args[1][1]
            n = t[1]["args"] - (1 if t[0] == "closure" else 0) if t[0] != "fndef" else None
            if n is None:
                ty = self.optype(args[1])
                n = len(split_tuple(ty))
            ops = [("p", (ctx2, l, pr + (("f", i, str(i), None),)), True) for i in range(n)]
        return self.call_closure(args[0], ops, d, nxt, ctx, span)

    def payload(self, pl, variant):
        return (pl[0], pl[1], pl[2] + (("v", variant), F0))

    def model_try(self, f, nm, args, d, nxt, ctx, span):
        ty = f["ga"][0] if f["ga"] else ""
        h = ty_head(ty)
        if nm == "branch" and h in ("Option", "Result", "ControlFlow"):
            pre, pl = self.topl(args[0], ctx)
            if h == "Result":
                a = self.asg(d, self.mk(CF, "Continue", ("p", self.payload(pl, "Ok"), True)), nxt, ctx, span)
                r = self.fresh()
                b = self.asg(r, self.mk(RES, "Err", ("p", self.payload(pl, "Err"), True)),
                             self.asg(d, self.mk(CF, "Break", ("p", r, True)), nxt, ctx, span), ctx, span)
                e = {"Ok": a, "Err": b}
                return self.pre(pre, self.sw_variant(pl, RES, e, ctx, span), ctx, span)
            if h == "Option":
                a = self.asg(d, self.mk(CF, "Continue", ("p", self.payload(pl, "Some"), True)), nxt, ctx, span)
                r = self.fresh()
                b = self.asg(r, self.none(), self.asg(d, self.mk(CF, "Break", ("p", r, True)), nxt, ctx, span), ctx, span)
                return self.pre(pre, self.sw_variant(pl, OPT, {"Some": a, "None": b}, ctx, span), ctx, span)
            return None
        if nm == "from_residual" and h in ("Option", "Result"):
            if h == "Option":
                return self.asg(d, self.none(), nxt, ctx, span)
            pre, pl = self.topl(args[0], ctx)
            # error conversion
            src = dst = None
            if len(f["ga"]) >= 2:
                dst = generic_arg(ty, 1)
                src = generic_arg(f["ga"][1], 1)
            ev = ("p", self.payload(pl, "Err"), True)
            if src and dst and not same_ty(src, dst):
                r = self.fresh()
                fin = self.asg(d, self.mk(RES, "Err", ("p", r, True)), nxt, ctx, span)
                fn = self.from_impl(("From", "from"), src, dst)
                ff = {"fn": "std::convert::From::from", "key": "core::convert::From::from", "name": "from", "ga": [dst, src],
                      "trait": "std::convert::From", "local": False, "krate": "core"}
                if fn is not None and self.ctxs[ctx].depth < self.max_depth and not fn.get("derived"):
                    b = self.inline_fn(fn, [ev], r, fin, ctx, span)
                else:
                    b = self.opaque(ff, [ev], r, fin, ctx, span)
                return self.pre(pre, b, ctx, span)
            return self.pre(pre, self.asg(d, self.mk(RES, "Err", ev), nxt, ctx, span), ctx, span)
        if nm == "from_output":
            if h == "Result":
                return self.asg(d, self.mk(RES, "Ok", args[0]), nxt, ctx, span)
            if h == "Option":
                return self.asg(d, self.mk(OPT, "Some", args[0]), nxt, ctx, span)
        return None

    def model_optres(self, adt, good, bad, nm, f, args, d, nxt, ctx, span):
        P = lambda pl, v: ("p", self.payload(pl, v), True)
        A = lambda dd, v, n: self.asg(dd, v, n, ctx, span)
        isopt = adt == OPT

        def badv(pl):
            return self.none() if isopt else self.mk(RES, "Err", P(pl, "Err"))

        def sw(pl, g, b):
            return self.sw_variant(pl, adt, {good: g, bad: b}, ctx, span)

        def fin(pre, n):
            return self.pre(pre, n, ctx, span)

        panic = lambda: self.panic(f, args, ctx, span)
        kb = lambda v: ("use", ("k", {"ty": "bool", "int": v, "val": "true" if v else "false"}, ctx))
        if nm in ("is_some", "is_none", "is_ok", "is_err"):
            pre, pl = self.topl(args[0], ctx)
            pl = (pl[0], pl[1], pl[2] + ("*",))
            pos = nm in ("is_some", "is_ok")
            return fin(pre, sw(pl, A(d, kb(1 if pos else 0), nxt), A(d, kb(0 if pos else 1), nxt)))
        if nm in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
            pre, pl = self.topl(args[0], ctx)
            pl = (pl[0], pl[1], pl[2] + ("*",))
            mut = "mut" in nm
            r = self.fresh()
            if "deref" in nm:
                r2 = self.fresh()
                ff = {"fn": "std::ops::Deref::deref", "key": "core::ops::deref::Deref::deref", "name": "deref", "ga": [], "trait": "std::ops::Deref", "local": False, "krate": "core"}
                g = A(r, ("ref", mut, self.payload(pl, good)), self.opaque(ff, [("p", r, True)], r2, A(d, self.mk(adt, good, ("p", r2, True)), nxt), ctx, span))
            else:
                g = A(r, ("ref", mut, self.payload(pl, good)), A(d, self.mk(adt, good, ("p", r, True)), nxt))
            if isopt:
                b = A(d, self.none(), nxt)
            else:
                r3 = self.fresh()
                b = A(r3, ("ref", mut, self.payload(pl, bad)), A(d, self.mk(adt, bad, ("p", r3, True)), nxt))
            return fin(pre, sw(pl, g, b))
        if nm in ("cloned", "copied") :
            pre, pl = self.topl(args[0], ctx)
            x = self.payload(pl, good)
            xd = (x[0], x[1], x[2] + ("*",))
            if nm == "cloned":
                r = self.fresh()
                ff = {"fn": "std::clone::Clone::clone", "key": "core::clone::Clone::clone", "name": "clone", "ga": [], "trait": "std::clone::Clone", "local": False, "krate": "core"}
                g = self.opaque(ff, [("p", x, False)], r, A(d, self.mk(adt, good, ("p", r, True)), nxt), ctx, span)
            else:
                g = A(d, self.mk(adt, good, ("p", xd, False)), nxt)
            return fin(pre, sw(pl, g, A(d, badv(pl), nxt)))
        if nm in ("unwrap", "expect", "unwrap_err", "expect_err"):
            pre, pl = self.topl(args[0], ctx)
            if nm.endswith("_err"):
                return fin(pre, sw(pl, panic(), A(d, ("use", P(pl, bad)), nxt)))
            return fin(pre, sw(pl, A(d, ("use", P(pl, good)), nxt), panic()))
        if nm == "unwrap_or":
            pre, pl = self.topl(args[0], ctx)
            return fin(pre, sw(pl, A(d, ("use", P(pl, good)), nxt), A(d, ("use", args[1]), nxt)))
        if nm == "unwrap_or_default":
            pre, pl = self.topl(args[0], ctx)
            ff = {"fn": "std::default::Default::default", "key": "core::default::Default::default", "name": "default", "ga": f["ga"][:1], "trait": "std::default::Default", "local": False, "krate": "core"}
            return fin(pre, sw(pl, A(d, ("use", P(pl, good)), nxt), self.opaque(ff, [], d, nxt, ctx, span)))
        if nm == "unwrap_or_else":
            pre, pl = self.topl(args[0], ctx)
            b = self.call_closure(args[1], [] if isopt else [P(pl, bad)], d, nxt, ctx, span)
            return fin(pre, sw(pl, A(d, ("use", P(pl, good)), nxt), b))
        if nm == "map":
            pre, pl = self.topl(args[0], ctx)
            r = self.fresh()
            g = self.call_closure(args[1], [P(pl, good)], r, A(d, self.mk(adt, good, ("p", r, True)), nxt), ctx, span)
            return fin(pre, sw(pl, g, A(d, badv(pl), nxt)))
        if nm == "map_err" and not isopt:
            pre, pl = self.topl(args[0], ctx)
            r = self.fresh()
            b = self.call_closure(args[1], [P(pl, bad)], r, A(d, self.mk(adt, bad, ("p", r, True)), nxt), ctx, span)
            return fin(pre, sw(pl, A(d, self.mk(adt, good, P(pl, good)), nxt), b))
        if nm == "and_then":
            pre, pl = self.topl(args[0], ctx)
            g = self.call_closure(args[1], [P(pl, good)], d, nxt, ctx, span)
            return fin(pre, sw(pl, g, A(d, badv(pl), nxt)))
        if nm == "and":
            pre, pl = self.topl(args[0], ctx)
            return fin(pre, sw(pl, A(d, ("use", args[1]), nxt), A(d, badv(pl), nxt)))
        if nm == "or":
            pre, pl = self.topl(args[0], ctx)
            return fin(pre, sw(pl, A(d, self.mk(adt, good, P(pl, good)), nxt), A(d, ("use", args[1]), nxt)))
        if nm == "or_else":
            pre, pl = self.topl(args[0], ctx)
            b = self.call_closure(args[1], [] if isopt else [P(pl, bad)], d, nxt, ctx, span)
            return fin(pre, sw(pl, A(d, self.mk(adt, good, P(pl, good)), nxt), b))
        if nm == "ok_or" and isopt:
            pre, pl = self.topl(args[0], ctx)
            return fin(pre, sw(pl, A(d, self.mk(RES, "Ok", P(pl, good)), nxt), A(d, self.mk(RES, "Err", args[1]), nxt)))
        if nm == "ok_or_else" and isopt:
            pre, pl = self.topl(args[0], ctx)
            r = self.fresh()
            b = self.call_closure(args[1], [], r, A(d, self.mk(RES, "Err", ("p", r, True)), nxt), ctx, span)
            return fin(pre, sw(pl, A(d, self.mk(RES, "Ok", P(pl, good)), nxt), b))
        if nm == "ok" and not isopt:
            pre, pl = self.topl(args[0], ctx)
            return fin(pre, sw(pl, A(d, self.some(P(pl, good)), nxt), A(d, self.none(), nxt)))
        if nm == "err" and not isopt:
            pre, pl = self.topl(args[0], ctx)
            return fin(pre, sw(pl, A(d, self.none(), nxt), A(d, self.some(P(pl, bad)), nxt)))
        if nm in ("map_or", "map_or_else"):
            pre, pl = self.topl(args[0], ctx)
            g = self.call_closure(args[2], [P(pl, good)], d, nxt, ctx, span)
            if nm == "map_or":
                b = A(d, ("use", args[1]), nxt)
            else:
                b = self.call_closure(args[1], [] if isopt else [P(pl, bad)], d, nxt, ctx, span)
            return fin(pre, sw(pl, g, b))
        if nm in ("is_some_and", "is_ok_and", "is_none_or"):
            pre, pl = self.topl(args[0], ctx)
            g = self.call_closure(args[1], [P(pl, good)], d, nxt, ctx, span)
            return fin(pre, sw(pl, g, A(d, kb(1 if nm == "is_none_or" else 0), nxt)))
        if nm == "filter" and isopt:
            pre, pl = self.topl(args[0], ctx)
            r, b = self.fresh(), self.fresh("bool")
            swb = self.sw_bool(b, A(d, self.some(P(pl, good)), nxt), A(d, self.none(), nxt), ctx, span)
            g = A(r, ("ref", False, self.payload(pl, good)), self.call_closure(args[1], [("p", r, False)], b, swb, ctx, span))
            return fin(pre, sw(pl, g, A(d, self.none(), nxt)))
        if nm in ("inspect", "inspect_err"):
            pre, pl = self.topl(args[0], ctx)
            r, u = self.fresh(), self.fresh()
            which = good if nm == "inspect" else bad
            done = A(d, ("use", ("p", pl, True)), nxt)
            g = A(r, ("ref", False, self.payload(pl, which)), self.call_closure(args[1], [("p", r, False)], u, done, ctx, span))
            o = A(d, ("use", ("p", pl, True)), nxt)
            return fin(pre, sw(pl, g if which == good else o, o if which == good else g))
        if nm == "take" and isopt:
            pre, pl = self.topl(args[0], ctx)
            pl = (pl[0], pl[1], pl[2] + ("*",))
            g = A(d, self.mk(adt, "Some", P(pl, "Some")), A(pl, self.none(), nxt))
            b = A(d, self.none(), nxt)
            return fin(pre, sw(pl, g, b))
        if nm == "flatten":
            pre, pl = self.topl(args[0], ctx)
            return fin(pre, sw(pl, A(d, ("use", P(pl, good)), nxt), A(d, badv(pl), nxt)))
        return None

    def panic(self, f, args, ctx, span):
        n = self.node("panic", ctx, span)
        n.f = f
        n.args = args
        return n.id

    # iterators ------------------------------------------------------------
    def def_call(self, op, ctx):
        """the unique call that defines a bare local operand: (finfo, args, ctx) or None"""
        for _ in range(12):
            if op[0] != "p":
                return None
            c, l, pr = op[1]
            if pr or c < 0:
                return None
            fn = self.ctxs[c].fn
            defs = []
            for b in fn["blocks"]:
                if b.get("cleanup"):
                    continue
                for s in b["st"]:
                    if "d" in s and s["d"]["l"] == l and not s["d"].get("p"):
                        defs.append(("s", s["v"]))
                t = b["t"]
                if t["k"] == "call" and t["d"]["l"] == l and not t["d"].get("p"):
                    defs.append(("c", t))
            if len(defs) != 1:
                return None
            if defs[0][0] == "c":
                t = defs[0][1]
                if "f" not in t:
                    return None
                f = t["f"]
                return (f, [self.operand(c, a) for a in t["a"]], c)
            v = defs[0][1]
            if v["r"] == "use" and ("c" in v["a"] or "m" in v["a"]):
                op = self.operand(c, v["a"])
                continue
            return None
        return None

    def chain(self, op, ctx):
        """decompose a lazy iterator operand into (base operand, [stages]); stage = (name, finfo, extra args)"""
        stages = []
        cur = op
        while True:
            dc = self.def_call(cur, ctx)
            if dc is None:
                break
            f, args, c = dc
            tr = f.get("trait", "").split("::")[-1]
            if tr == "Iterator" and (f["name"] in STAGES | PASS_STAGES - {"into_iter"} or f["name"] == "flatten" and f["ga"] and OPTIONS.match(f["ga"][0])) or (tr == "IntoIterator" and f["name"] == "into_iter" and "std::iter::" in (f["ga"][0] if f["ga"] else "")):
                stages.append((f["name"], f, args[1:]))
                cur = args[0]
                continue
            break
        stages.reverse()
        return cur, stages

    def model_iter(self, f, nm, args, d, nxt, ctx, span):
        if nm in STAGES:
            # lazily evaluated: value only (closures run at the consumer)
            return self.opaque(f, args, d, nxt, ctx, span)
        if nm not in CONSUMERS:
            return None
        it = args[0]
        byref = False
        if nm in ("next", "any", "all", "find", "find_map", "position", "try_fold", "try_for_each"):
            # receives &mut iter: find the iterator local
            byref = True
            t = it
            for _ in range(6):
                if t[0] != "p":
                    break
                v = self.single_def(t)
                if v is None:
                    break
                if v["r"] == "ref":
                    pl = self.place(t[1][0], v["pl"])
                    if pl[2] == ("*",):
                        t = ("p", (pl[0], pl[1], ()), True)
                        continue
                    t = ("p", pl, False)
                    byref = False
                    break
                if v["r"] == "use" and ("c" in v["a"] or "m" in v["a"]):
                    t = self.operand(t[1][0], v["a"])
                    continue
                break
            if byref:
                base, stages = it, []
                itbase = it
            else:
                base, stages = self.chain(t, ctx)
        else:
            base, stages = self.chain(it, ctx)
        has_closure = any(s[0] in STAGES for s in stages)
        # trailing pass-through stages belong to the base when nothing after them has closures
        lead = []
        while stages and stages[0][0] in PASS_STAGES:
            lead.append(stages.pop(0))
        if lead:
            # the base is the result of the last leading pass-through call: find its local again
            base = self.stage_result(base, lead, it, args, ctx) or base
        if not stages and nm in ("next", "collect", "count", "sum", "product", "last", "max", "min", "unzip"):
            return None
        return self.expand_consumer(f, nm, base, stages, args, d, nxt, ctx, span, byref)

    def stage_result(self, base, lead, it, args, ctx):
        """operand holding the iterator after the leading pass-through stages"""
        # walk the chain again, remembering the operand before each stage
        cur = it
        if cur[0] == "p":
            # strip &mut for by-ref consumers
            for _ in range(6):
                v = self.single_def(cur)
                if v is None:
                    break
                if v["r"] == "ref":
                    pl = self.place(cur[1][0], v["pl"])
                    cur = ("p", (pl[0], pl[1], ()), True)
                    continue
                if v["r"] == "use" and ("c" in v["a"] or "m" in v["a"]):
                    cur = self.operand(cur[1][0], v["a"])
                    continue
                break
        seq = [cur]
        while True:
            dc = self.def_call(cur, ctx)
            if dc is None:
                break
            f, a, c = dc
            tr = f.get("trait", "").split("::")[-1]
            if tr == "Iterator" and (f["name"] in STAGES | PASS_STAGES - {"into_iter"} or f["name"] == "flatten" and f["ga"] and OPTIONS.match(f["ga"][0])) or (tr == "IntoIterator" and f["name"] == "into_iter" and "std::iter::" in (f["ga"][0] if f["ga"] else "")):
                cur = a[0]
                seq.append(cur)
                continue
            break
        seq.reverse()  # seq[0]=base, seq[i]=after i stages
        i = len(lead)
        return seq[i] if i < len(seq) else None

    def single_def(self, op):
        if op[0] != "p" or op[1][2] or op[1][0] < 0:
            return None
        c, l, _ = op[1]
        fn = self.ctxs[c].fn
        defs = []
        for b in fn["blocks"]:
            if b.get("cleanup"):
                continue
            for s in b["st"]:
                if "d" in s and s["d"]["l"] == l and not s["d"].get("p"):
                    defs.append(s["v"])
            t = b["t"]
            if t["k"] == "call" and t["d"]["l"] == l and not t["d"].get("p"):
                defs.append(None)
        return defs[0] if len(defs) == 1 else None

    def mkf(self, path, ga=()):
        tr = "::".join(path.split("::")[:-1])
        return {"fn": path, "key": path, "name": path.split("::")[-1], "ga": list(ga), "trait": tr, "local": False, "krate": "core", "synth": True}

    def expand_consumer(self, f, nm, base, stages, args, d, nxt, ctx, span, byref):
        A = lambda dd, v, n: self.asg(dd, v, n, ctx, span)
        kb = lambda v: ("use", ("k", {"ty": "bool", "int": v, "val": "true" if v else "false"}, ctx))
        head = self.nop(ctx, span)  # loop head
        elem = self.fresh()
        nx = self.fresh()
        rf = self.fresh()
        # ---- what happens with an element that survived all stages
        ga0 = f["ga"]
        done = None

        if nm == "next":
            sink = lambda e: A(d, self.some(("p", e, True)), nxt)
            done = A(d, self.none(), nxt)
        elif nm == "for_each":
            def sink(e):
                u = self.fresh()
                return self.call_closure(args[1], [("p", e, True)], u, head.id, ctx, span)
            done = A(d, ("use", ("k", {"ty": "()", "val": "()"}, ctx)), nxt)
        elif nm in ("any", "all"):
            def sink(e):
                b = self.fresh("bool")
                stop = A(d, kb(1 if nm == "any" else 0), nxt)
                s = self.sw_bool(b, stop if nm == "any" else head.id, head.id if nm == "any" else stop, ctx, span)
                return self.call_closure(args[1], [("p", e, True)], b, s, ctx, span)
            done = A(d, kb(0 if nm == "any" else 1), nxt)
        elif nm in ("find", "partition"):
            def sink(e):
                b = self.fresh("bool")
                r = self.fresh()
                if nm == "partition":
                    s = head.id
                else:
                    s = self.sw_bool(b, A(d, self.some(("p", e, True)), nxt), head.id, ctx, span)
                return A(r, ("ref", False, e), self.call_closure(args[1], [("p", r, False)], b, s, ctx, span))
            if nm == "partition":
                done = self.opaque(f, args, d, nxt, ctx, span)
            else:
                done = A(d, self.none(), nxt)
        elif nm == "find_map":
            def sink(e):
                o = self.fresh()
                s = self.sw_variant(o, OPT, {"Some": A(d, ("use", ("p", o, True)), nxt), "None": head.id}, ctx, span)
                return self.call_closure(args[1], [("p", e, True)], o, s, ctx, span)
            done = A(d, self.none(), nxt)
        elif nm == "position":
            def sink(e):
                b = self.fresh("bool")
                pos = self.fresh("usize")
                s = self.sw_bool(b, self.opaque(self.mkf("std::iter::Iterator::position_index"), [base], pos, A(d, self.some(("p", pos, True)), nxt), ctx, span), head.id, ctx, span)
                return self.call_closure(args[1], [("p", e, True)], b, s, ctx, span)
            done = A(d, self.none(), nxt)
        elif nm in ("fold", "try_fold"):
            acc = self.fresh()
            def sink(e):
                r = self.fresh()
                if nm == "fold":
                    return self.call_closure(args[2], [("p", acc, True), ("p", e, True)], acc, head.id, ctx, span)
                h = ty_head(ga0[-1]) if ga0 else ""
                adt, g, b = (OPT, "Some", "None") if h == "Option" else (RES, "Ok", "Err")
                s = self.sw_variant(r, adt, {g: A(acc, ("use", ("p", self.payload(r, g), True)), head.id), b: A(d, ("use", ("p", r, True)), nxt)}, ctx, span)
                return self.call_closure(args[2], [("p", acc, True), ("p", e, True)], r, s, ctx, span)
            if nm == "fold":
                done = A(d, ("use", ("p", acc, True)), nxt)
            else:
                h = ty_head(ga0[-1]) if ga0 else ""
                done = A(d, self.mk(OPT, "Some", ("p", acc, True)) if h == "Option" else self.mk(RES, "Ok", ("p", acc, True)), nxt)
        elif nm == "reduce":
            acc = self.fresh()
            def sink(e):
                r = self.fresh()
                x = self.fresh()
                more = self.call_closure(args[1], [("p", x, True), ("p", e, True)], r, A(acc, self.some(("p", r, True)), head.id), ctx, span)
                return self.sw_variant(acc, OPT, {"None": A(acc, self.some(("p", e, True)), head.id), "Some": A(x, ("use", ("p", self.payload(acc, "Some"), True)), more)}, ctx, span)
            done = A(d, ("use", ("p", acc, True)), nxt)
        elif nm == "try_for_each":
            h = ty_head(ga0[-1]) if ga0 else ""
            adt, g, b = (OPT, "Some", "None") if h == "Option" else (RES, "Ok", "Err")
            def sink(e):
                r = self.fresh()
                s = self.sw_variant(r, adt, {g: head.id, b: A(d, ("use", ("p", r, True)), nxt)}, ctx, span)
                return self.call_closure(args[1], [("p", e, True)], r, s, ctx, span)
            unit = ("k", {"ty": "()", "val": "()"}, ctx)
            done = A(d, self.mk(adt, g, unit), nxt)
        elif nm == "collect":
            acc = self.fresh("collected")
            target = ga0[-1] if ga0 else ""
            h = ty_head(target)
            cpush = self.mkf("std::iter::collect_push", ga0)
            def sink(e):
                r = self.fresh()
                u = self.fresh()
                if h in ("Result", "Option"):
                    adt, g, b = (OPT, "Some", "None") if h == "Option" else (RES, "Ok", "Err")
                    push = A(r, ("ref", True, acc), self.opaque(cpush, [("p", r, True), ("p", self.payload(e, g), True)], u, head.id, ctx, span))
                    bad = A(d, self.none() if h == "Option" else self.mk(RES, "Err", ("p", self.payload(e, b), True)), nxt)
                    return self.sw_variant(e, adt, {g: push, b: bad}, ctx, span)
                return A(r, ("ref", True, acc), self.opaque(cpush, [("p", r, True), ("p", e, True)], u, head.id, ctx, span))
            if h == "Result":
                done = A(d, self.mk(RES, "Ok", ("p", acc, True)), nxt)
            elif h == "Option":
                done = A(d, self.mk(OPT, "Some", ("p", acc, True)), nxt)
            else:
                done = A(d, ("use", ("p", acc, True)), nxt)
        else:  # count, sum, last, max, min...: opaque accumulation
            acc = self.fresh()
            step = self.mkf("std::iter::consume_" + nm, ga0)
            extra = args[1:]
            def sink(e):
                u = self.fresh()
                if nm in ("max_by_key", "min_by_key") and extra:
                    r = self.fresh()
                    kk = self.fresh()
                    return A(r, ("ref", False, e), self.call_closure(extra[0], [("p", r, False)], kk, self.opaque(step, [("p", acc, True), ("p", e, True), ("p", kk, True)], acc, head.id, ctx, span), ctx, span))
                return self.opaque(step, [("p", acc, True), ("p", e, True)], acc, head.id, ctx, span)
            fin = self.mkf("std::iter::finish_" + nm, ga0)
            done = self.opaque(fin, [("p", acc, True)], d, nxt, ctx, span)

        def split(stages):
            """position of a chained iterator that is walked as a loop of its own"""
            if byref or nm in ("next", "position"):
                return None
            cut = next((i for i, x in enumerate(stages) if x[0] == "chain"), None)
            return None if cut is None or any(x[0] in ("enumerate", "zip") for x in stages[cut + 1 :]) else cut

        cut = split(stages)
        join = self.nop(ctx, span) if cut is not None else None

        def end(i):
            return join.id if cut is not None and i <= cut else done

        # ---- stages, built from the last to the first
        def build(i, e):
            """entry node for element place e at stage i"""
            if i == len(stages):
                return sink(e)
            name, sf, sargs = stages[i]
            if name == "map":
                r = self.fresh()
                return self.call_closure(sargs[0], [("p", e, True)], r, build(i + 1, r), ctx, span)
            if name in ("filter", "take_while", "skip_while"):
                b = self.fresh("bool")
                r = self.fresh()
                k = build(i + 1, e)
                if name == "filter":
                    s = self.sw_bool(b, k, head.id, ctx, span)
                elif name == "take_while":
                    s = self.sw_bool(b, k, end(i), ctx, span)
                else:
                    s = self.sw_bool(b, head.id, k, ctx, span)
                return A(r, ("ref", False, e), self.call_closure(sargs[0], [("p", r, False)], b, s, ctx, span))
            if name in ("filter_map", "map_while"):
                o = self.fresh()
                x = self.fresh()
                k = A(x, ("use", ("p", self.payload(o, "Some"), True)), build(i + 1, x))
                s = self.sw_variant(o, OPT, {"Some": k, "None": head.id if name == "filter_map" else end(i)}, ctx, span)
                return self.call_closure(sargs[0], [("p", e, True)], o, s, ctx, span)
            if name == "flatten":
                # a sequence of options, its values or references to them
                byv = "vec::IntoIter<" in sf["ga"][0]
                o = e if byv else (e[0], e[1], e[2] + ("*",))
                x = self.fresh()
                pl = self.payload(o, "Some")
                return self.sw_variant(o, OPT, {"Some": A(x, ("use", ("p", pl, True)) if byv else ("ref", False, pl), build(i + 1, x)), "None": head.id}, ctx, span)
            if name == "inspect":
                r = self.fresh()
                u = self.fresh()
                return A(r, ("ref", False, e), self.call_closure(sargs[0], [("p", r, False)], u, build(i + 1, e), ctx, span))
            if name == "flat_map":
                o = self.fresh()
                x = self.fresh()
                nx2 = self.fresh()
                rf2 = self.fresh()
                h2 = self.nop(ctx, span)
                inner = A(x, ("use", ("p", self.payload(nx2, "Some"), True)), self.rehead(build, i + 1, x, h2))
                s = self.sw_variant(nx2, OPT, {"Some": inner, "None": head.id}, ctx, span)
                h2.succ = [(None, A(rf2, ("ref", True, o), self.opaque(self.mkf("std::iter::Iterator::next"), [("p", rf2, True)], nx2, s, ctx, span)))]
                return self.call_closure(sargs[0], [("p", e, True)], o, h2.id, ctx, span)
            if name == "enumerate":
                x = self.fresh()
                ix = self.fresh()
                return self.opaque(self.mkf("std::iter::enumerate_index"), [base], ix, A(x, ("agg", "tuple", "tuple", None, ("0", "1"), (("p", ix, True), ("p", e, True))), build(i + 1, x)), ctx, span)
            if name == "zip":
                x = self.fresh()
                ix = self.fresh()
                return self.opaque(self.mkf("std::iter::zip_next"), [sargs[0]], ix, A(x, ("agg", "tuple", "tuple", None, ("0", "1"), (("p", e, True), ("p", ix, True))), build(i + 1, x)), ctx, span)
            if name in ("cloned", "copied"):
                x = self.fresh()
                return self.opaque(self.mkf("std::clone::Clone::clone"), [("p", e, False)], x, build(i + 1, x), ctx, span)
            if name == "chain" and i == cut:
                return build(i + 1, e)
            if name in ("skip", "take", "step_by", "chain"):
                # may drop elements / stop early
                k = build(i + 1, e)
                s = self.node("sw", ctx, span)
                s.op = ("k", {"ty": "u8", "val": "nondet"}, ctx)
                s.aux = "nondet"
                s.succ = [("else", k), ("0", end(i) if name == "take" else head.id)]
                return s.id
            return build(i + 1, e)

        def walk():
            """the loop over the base, handing each element to the stages"""
            first = build(0, elem)
            got = A(elem, ("use", ("p", self.payload(nx, "Some"), True)), first)
            s = self.sw_variant(nx, OPT, {"Some": got, "None": end(0)}, ctx, span)
            nf = self.mkf("std::iter::Iterator::next")
            if byref:
                head.succ = [(None, self.opaque(nf, [base], nx, s, ctx, span))]
                return head.id
            bpre, bpl = self.topl(base, ctx)
            head.succ = [(None, A(rf, ("ref", True, bpl), self.opaque(nf, [("p", rf, True)], nx, s, ctx, span)))]
            return self.pre(bpre, head.id, ctx, span)

        start = walk()
        while cut is not None:
            # the chained iterator follows, its elements go through what comes after
            here, second, tail = join, stages[cut][2][0], stages[cut + 1 :]
            base, stages = self.chain(second, ctx)
            lead = []
            while stages and stages[0][0] in PASS_STAGES:
                lead.append(stages.pop(0))
            if lead:
                base = self.stage_result(base, lead, second, args, ctx) or base
            stages = stages + tail
            cut = split(stages)
            join = self.nop(ctx, span) if cut is not None else None
            head, elem, nx, rf = self.nop(ctx, span), self.fresh(), self.fresh(), self.fresh()
            here.succ = [(None, walk())]
        if nm in ("fold", "try_fold"):
            start = A(acc, ("use", args[1]), start)
        elif nm == "reduce":
            start = A(acc, self.none(), start)
        elif nm == "collect":
            start = self.opaque(self.mkf("std::iter::collect_new", ga0), [], acc, start, ctx, span)
        elif done is not None and nm in ("count", "sum", "last", "max", "min", "product", "max_by_key", "min_by_key", "unzip"):
            start = self.opaque(self.mkf("std::iter::consume_start"), [], acc, start, ctx, span)
        return start

    def rehead(self, build, i, x, h2):
        # elements of an inner (flat_map) iterator: the outer `head` is over-approximated as the continuation
        return build(i, x)

    def model_extend(self, f, args, d, nxt, ctx, span):
        base, stages = self.chain(args[1], ctx)
        if not any(s[0] in STAGES for s in stages):
            return None
        # extend(vec, chain): loop pushing each element
        push = self.mkf("std::iter::collect_push", f["ga"])
        recv = args[0]
        g = {"fn": "std::iter::Iterator::for_each", "name": "for_each", "ga": f["ga"]}
        lead = []
        while stages and stages[0][0] in PASS_STAGES:
            lead.append(stages.pop(0))
        if lead:
            base = self.stage_result(base, lead, args[1], args, ctx) or base
        # reuse expand_consumer with a custom sink through a tiny trick: treat as fold with opaque push
        acc = self.fresh()
        saved = self.call_closure

        def fake(op, a, dd, n, c, s):
            if op is fake:
                return self.opaque(push, [recv, a[0]], dd, n, c, s)
            return saved(op, a, dd, n, c, s)

        self.call_closure = fake
        try:
            return self.expand_consumer(g, "for_each", base, stages, [args[1], fake], d, nxt, ctx, span, False)
        finally:
            self.call_closure = saved


def split_tuple(ty):
    ty = ty.strip()
    if ty == "()":
        return []
    if ty.startswith("(") and ty.endswith(")"):
        return split_args(ty[1:-1])
    return [ty]


def split_args(s):
    out, d, cur = [], 0, ""
    i = 0
    while i < len(s):
        c = s[i]
        if c in "<([{":
            d += 1
        elif c in ")]}":
            d -= 1
        elif c == ">" and not (i > 0 and s[i - 1] in "-="):
            d -= 1
        if c == "," and d == 0:
            if cur.strip():
                out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def generic_arg(ty, i):
    m = re.match(r"^[^<]*<(.*)>$", ty.strip())
    if not m:
        return None
    a = split_args(m.group(1))
    return a[i] if i < len(a) else None


def same_ty(a, b):
    def n(t):
        t = re.sub(r"'\w+ ?", "", t)
        t = re.sub(r"\b(?:\w+::)+", "", t)
        return t.replace(" ", "")
    return n(a) == n(b)
