"""Constant/variant-sensitive product of an expanded CFG, and demand-driven value numbering over it."""
import re
import sys
from collections import deque
from .graph import Graph, TooBig, short, strip_generics, OPT, RES, CF
from .facts import ty_head

sys.setrecursionlimit(20000)

STD_DISCR = {
    OPT: {"None": 0, "Some": 1},
    RES: {"Ok": 0, "Err": 1},
    CF: {"Continue": 0, "Break": 1},
    "std::collections::hash_map::Entry": {"Occupied": 0, "Vacant": 1},
    "std::collections::btree_map::Entry": {"Vacant": 0, "Occupied": 1},
}
ORDERING = "std::cmp::Ordering"


def variants(F, adt):
    if adt in STD_DISCR:
        return STD_DISCR[adt]
    j = F.adts.get(adt)
    if not j:
        return None
    return {v["name"]: v["discr"] for v in j["variants"]}


INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}


class PNode:
    __slots__ = ("id", "n", "env", "succ", "pred")

    def __init__(self, id, n, env):
        self.id, self.n, self.env = id, n, env
        self.succ = []  # (label, pid)
        self.pred = []


def proj_key(pr):
    """projection usable as a fact key (no deref / index)"""
    for e in pr:
        if e == "*" or e == "?" or e[0] in ("i", "s", "ci"):
            return False
    return True


def strip_adt(pr):
    return tuple(e if e[0] != "f" else ("f", e[1]) for e in pr)


class Product:
    """explores (node, facts about small constants and enum variants of locals)"""

    def __init__(self, g, max_states=200000):
        self.g = g
        self.F = g.F
        self.nodes = []
        self.max_states = max_states
        self.mutb = self.mut_borrowed()
        self.live = self.liveness()
        self.build()

    # liveness of whole locals over the expanded graph -----------------------
    def uses(self, n):
        """locals read (or borrowed) by the node, and the local fully overwritten (or None)"""
        use, kill = set(), None

        def pl(p, write=False):
            c, l, pr = p
            for e in pr:
                if isinstance(e, tuple) and e[0] == "i":
                    use.add(e[1][:2])
            if write and not pr:
                return
            use.add((c, l))

        def op(o):
            if o and o[0] == "p":
                pl(o[1])

        v = n.v
        if n.k == "asg":
            if v[0] == "use":
                op(v[1])
            elif v[0] in ("ref",):
                pl(v[2])
            elif v[0] == "discr":
                pl(v[1])
            elif v[0] == "bin":
                op(v[2])
                op(v[3])
            elif v[0] in ("un", "cast"):
                op(v[2])
            elif v[0] == "agg":
                for a in v[5]:
                    op(a)
            elif v[0] == "repeat":
                op(v[1])
            elif v[0] == "cbarg":
                for a in v[4]:
                    op(a)
        if n.op:
            op(n.op)
        if n.args:
            for a in n.args:
                op(a)
        if n.f and "ind" in n.f:
            op(n.f["ind"])
        if n.d is not None:
            if n.k == "drop":
                pass
            elif n.k == "dead":
                kill = n.d[:2]
            else:
                pl(n.d, True)
                if not n.d[2]:
                    kill = n.d[:2]
        return use, kill

    def mut_borrowed(self):
        s = set()
        self.whole = set()  # borrowed otherwise than by the content of one variant, which leaves the variant as it is
        for n in self.g.nodes:
            if n.k == "asg" and n.v and n.v[0] == "ref" and n.v[1]:
                s.add(n.v[2][:2])
                pr = n.v[2][2]
                if not (pr and isinstance(pr[0], tuple) and pr[0][0] == "v"):
                    self.whole.add(n.v[2][:2])
        return s

    def liveness(self):
        N = len(self.g.nodes)
        live_in = [frozenset()] * N
        preds = [[] for _ in range(N)]
        for n in self.g.nodes:
            for _, s in n.succ:
                preds[s].append(n.id)
        uk = [self.uses(n) for n in self.g.nodes]
        # a local that is borrowed is treated as live wherever the reference may be: approximate by
        # "borrowed anywhere => live from then on unless StorageDead"
        borrowed = set()
        for n in self.g.nodes:
            if n.k == "asg" and n.v and n.v[0] == "ref" and "*" not in n.v[2][2]:
                borrowed.add(n.v[2][:2])
        self.borrowed = borrowed
        work = deque(range(N - 1, -1, -1))
        inw = [True] * N
        # root return value is live at exit
        while work:
            i = work.popleft()
            inw[i] = False
            n = self.g.nodes[i]
            out = set()
            for _, s in n.succ:
                out |= live_in[s]
            use, kill = uk[i]
            if n.k == "ret":
                use = use | {(self.g.rootctx.id, 0)}
            if kill:
                out.discard(kill)
            out |= use
            out = frozenset(out)
            if out != live_in[i]:
                live_in[i] = out
                for p in preds[i]:
                    if not inw[p]:
                        inw[p] = True
                        work.append(p)
        return live_in

    # facts --------------------------------------------------------------
    def counters(self):
        """locals that hold results of additions, subtractions, multiplications or left shifts: their constants are not told apart (loops stay rolled)"""
        if not hasattr(self, "_counters"):
            sums, out = set(), set()
            asg = [n for n in self.g.nodes if n.k == "asg"]
            for n in asg:
                if n.v[0] in ("bin", "ovf") and str(n.v[1]).startswith(("Add", "Sub", "Mul", "Shl")):
                    sums.add((n.d[0], n.d[1]))
                    out.add((n.d[0], n.d[1]))
            for n in asg:
                if n.v[0] == "use" and n.v[1][0] == "p" and n.v[1][1][:2] in sums and not n.d[2]:
                    out.add((n.d[0], n.d[1]))
            self._counters = out
        return self._counters

    def build(self):
        self.index = {}
        self.bynode = {}
        start = self.get(self.g.entry, frozenset())
        self.entry = start.id
        work = [start]
        seen = {start.id}
        while work:
            p = work.pop()
            for label, nid, env in self.step(p):
                q = self.get(nid, env)
                p.succ.append((label, q.id))
                q.pred.append((label, p.id))
                if q.id not in seen:
                    seen.add(q.id)
                    work.append(q)
            if len(self.nodes) > self.max_states:
                raise TooBig("product of " + self.g.root["path"])

    def get(self, nid, env):
        live = self.live[nid]
        if env:
            b = self.borrowed
            env = frozenset(f for f in env if (f[0][:2] in live) or (f[0][:2] in b))
        k = (nid, env)
        p = self.index.get(k)
        if p is None:
            p = PNode(len(self.nodes), self.g.nodes[nid], env)
            self.nodes.append(p)
            self.index[k] = p
            self.bynode.setdefault(nid, []).append(p.id)
        return p

    def res(self, env, place):
        """resolve derefs through reference facts; returns a fact key or None"""
        c, l, pr = place
        base = (c, l, ())
        for e in pr:
            if e == "*":
                t = env.get(base)
                if t and t[0] == "r":
                    base = t[1]
                else:
                    return None
            elif e == "?" or e[0] in ("i", "s", "ci"):
                return None
            else:
                base = (base[0], base[1], base[2] + ((e[0], e[1]),))
        return base

    @staticmethod
    def kill(env, key):
        """forget everything about key and its extensions, and references into it"""
        c, l, pr = key
        n = len(pr)
        for k in [k for k in env if k[0] == c and k[1] == l and (k[2][:n] == pr or pr[: len(k[2])] == k[2] and env[k][0] == "v" and len(k[2]) > n)]:
            del env[k]
        for k in [k for k, v in env.items() if v[0] in ("d", "n") and v[1][:2] == (c, l) and (v[1][2][:n] == pr or pr[: len(v[1][2])] == v[1][2])]:
            del env[k]

    def touched(self, env, l):
        """the local of L may have been written through a reference: its variant stays when only the content of one was borrowed"""
        b = (l[0], l[1], ())
        keep = env.get(b) if l[:2] not in self.whole else None
        self.kill(env, b)
        if keep and keep[0] == "v":
            env[b] = keep

    def copyfacts(self, env, src, dst):
        n = len(src[2])
        new = {}
        for k, v in env.items():
            if k[0] == src[0] and k[1] == src[1] and k[2][:n] == src[2]:
                new[(dst[0], dst[1], dst[2] + k[2][n:])] = v
        return new

    def step(self, p):
        n = p.n
        env = None

        def E():
            return dict(p.env)

        if n.k in ("nop",):
            return [(l, s, p.env) for l, s in n.succ]
        if n.k == "sw":
            return self.step_switch(p)
        if n.k in ("drop", "assert", "panic", "ret", "diverge", "unreachable"):
            return [(l, s, p.env) for l, s in n.succ]
        if n.k == "dead":
            env = E()
            self.kill(env, (n.d[0], n.d[1], ()))
            e = frozenset(env.items())
            return [(l, s, e) for l, s in n.succ]
        env = E()
        if n.k == "asg":
            self.assign(env, n.d, n.v)
        elif n.k == "setd":
            k = self.res(env, n.d)
            if k:
                self.kill(env, k)
        elif n.k in ("call", "yield"):
            # memory reachable through mutable borrows may change
            if any(a[0] == "p" for a in (n.args or [])):
                for l in [k for k in env if k[:2] in self.mutb]:
                    if l in env and env[l][0] != "r":
                        self.touched(env, l)
            if n.d is not None:
                k = self.res(env, n.d)
                if k:
                    self.kill(env, k)
        e = frozenset(env.items())
        return [(l, s, e) for l, s in n.succ]

    def assign(self, env, d, v):
        key = self.res(env, d)
        new = {}
        t = v[0]
        if key is not None:
            if t == "use":
                new = self.opfacts(env, v[1], key)
            elif t == "ref":
                src = self.res(env, v[2])
                if src is not None:
                    new[key] = ("r", src)
                    if v[1]:
                        pass
            elif t == "agg":
                if v[1] == "adt" and v[3] is not None:
                    vs = variants(self.F, v[2])
                    if vs and len(vs) > 1 or v[2] in STD_DISCR:
                        new[key] = ("v", v[3])
                        sub = (("v", v[3]),)
                    else:
                        sub = ()
                else:
                    sub = ()
                for i, o in enumerate(v[5]):
                    kk = (key[0], key[1], key[2] + sub + (("f", i),))
                    new.update(self.opfacts(env, o, kk))
            elif t == "discr":
                src = self.res(env, v[1])
                if src is not None:
                    f = env.get(src)
                    if f and f[0] == "v":
                        vs = variants(self.F, v[2])
                        if vs and f[1] in vs:
                            new[key] = ("c", vs[f[1]])
                    if key not in new:
                        new[key] = ("d", src, v[2])
            elif t == "un" and v[1] == "Not" and v[2][0] == "p":
                src = self.res(env, v[2][1])
                if src is not None:
                    f = env.get(src)
                    if f and f[0] == "c":
                        new[key] = ("c", 0 if f[1] else 1)
                    else:
                        new[key] = ("n", src)
            elif t == "bin" and v[1] in ("Eq", "Ne", "BitAnd", "BitOr", "Lt", "Le", "Gt", "Ge"):
                a, b = self.cval(env, v[2]), self.cval(env, v[3])
                if a is not None and b is not None:
                    r = {"Eq": a == b, "Ne": a != b, "BitAnd": a & b, "BitOr": a | b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[v[1]]
                    new[key] = ("c", int(r))
                elif v[1] in ("Ge", "Lt") and b == 0 and str(v[4]).startswith("u") or v[1] in ("Le", "Gt") and a == 0 and str(v[4]).startswith("u"):
                    new[key] = ("c", int(v[1] in ("Ge", "Le")))
                elif v[4] == "bool" and v[1] == "BitAnd" and (a == 0 or b == 0):
                    new[key] = ("c", 0)
                elif v[4] == "bool" and v[1] == "BitOr" and (a == 1 or b == 1):
                    new[key] = ("c", 1)
            if new.get(key, ("",))[0] == "c" and key[:2] in self.counters():
                del new[key]
            # drop self-referential facts
            for k in [k for k, x in new.items() if x[0] in ("d", "n", "r") and x[1][:2] == key[:2] and x[1][2][: len(key[2])] == key[2]]:
                del new[k]
            self.kill(env, key)
            # a ref fact about something now overwritten stays valid (it is a location)
            env.update(new)
        else:
            # write through an unknown reference
            for l in [k for k in env if k[:2] in self.mutb and env[k][0] != "r"]:
                if l in env:
                    self.touched(env, l)
        if t == "ref" and v[1]:
            pass

    def cval(self, env, o):
        if o[0] == "k":
            return o[1].get("int")
        k = self.res(env, o[1])
        if k is None:
            return None
        f = env.get(k)
        return f[1] if f and f[0] == "c" else None

    def opfacts(self, env, o, key):
        if o[0] == "k":
            k = o[1]
            if "int" in k:
                return {key: ("c", k["int"])}
            m = None
            val = k.get("val")
            if val:
                h = strip_generics(k["ty"]) if not k["ty"].startswith("&") else None
                if h in STD_DISCR or (h and h in self.F.adts and self.F.adts[h]["enum"]):
                    m = re.match(r"^(?:[\w:]*::)?(?:<.*>::)?(\w+)", strip_generics(val.replace("::<", "<")))
                    if m:
                        vn = m.group(1).split("::")[-1]
                        vs = variants(self.F, h)
                        if vs and vn in vs:
                            return {key: ("v", vn)}
            return {}
        src = self.res(env, o[1])
        if src is None:
            return {}
        return self.copyfacts(env, src, key)

    def step_switch(self, p):
        n = p.n
        env = dict(p.env)
        if n.aux == "nondet":
            return [(("nd", l), s, p.env) for l, s in n.succ]
        known = self.cval(env, n.op)
        key = self.res(env, n.op[1]) if n.op[0] == "p" else None
        listed = [l for l, _ in n.succ if l != "else"]
        out = []
        width = 1 << 128
        for l, s in n.succ:
            if known is not None:
                kv = known
                if l == "else":
                    if any(self.lab_eq(x, kv, n.aux) for x in listed):
                        continue
                elif not self.lab_eq(l, kv, n.aux):
                    continue
            e = dict(env)
            if key is not None:
                f = env.get(key)
                val = None
                if l != "else":
                    val = int(l)
                elif n.aux == "bool" and len(listed) == 1:
                    val = 1 - int(listed[0])
                if f and f[0] == "d":
                    vs = variants(self.F, f[2])
                    if vs:
                        if val is not None:
                            nm = [k for k, d in vs.items() if self.lab_eq(str(val), d, n.aux)]
                        else:
                            nm = [k for k, d in vs.items() if not any(self.lab_eq(x, d, n.aux) for x in listed)]
                        known_v = e.get(f[1])
                        if not nm:
                            continue  # no such variant: infeasible edge
                        if len(nm) == 1:
                            if known_v and known_v[0] == "v" and known_v[1] != nm[0]:
                                continue
                            e[f[1]] = ("v", nm[0])
                elif f and f[0] == "n" and val is not None:
                    e[f[1]] = ("c", 0 if val else 1)
                if val is not None and n.aux == "bool":
                    if f is None or f[0] != "d":
                        e[key] = ("c", val)
                elif val is not None and (f is None):
                    e[key] = ("c", val)
            lab = l
            if l == "else":
                lab = ("not",) + tuple(listed)
            out.append((lab, s, frozenset(e.items())))
        return out

    @staticmethod
    def lab_eq(label, val, ty):
        a = int(label)
        if a == val:
            return True
        for w in (8, 16, 32, 64, 128):
            if a == (val % (1 << w)) and val < 0:
                return True
        return False


IDENT = {
    "clone", "borrow", "borrow_mut", "deref", "deref_mut", "as_ref", "as_mut", "to_vec", "to_owned", "as_slice", "as_mut_slice",
    "into_boxed_slice", "into_vec", "cloned", "copied", "as_bytes", "as_str", "into_iter_id", "into_owned", "as_deref",
}


class Values:
    """demand-driven SSA over a Product.  Values are hash-consed ints."""

    def __init__(self, prod):
        self.P = prod
        self.g = prod.g
        self.F = prod.F
        self.tab = []
        self.idx = {}
        self.memo = {}
        self.open = False
        self.dirty = None
        self.cyclic = set()
        self.part = {}
        self.guesses = []
        self.locmemo = {}
        self.phis = {}
        self.callinfo = {}
        self.rmemo = {}
        self.single = self.single_defs()

    def single_defs(self):
        """locals written by exactly one executed node, never partially, never borrowed mutably:
        {(ctx, local): product node}"""
        d = {}
        bad = set()
        for p in self.P.nodes:
            n = p.n
            if n.k in ("asg", "setd", "call", "yield") and n.d is not None:
                if "*" in n.d[2]:
                    continue
                k = n.d[:2]
                if n.d[2] or n.k == "setd" or k in d:
                    bad.add(k)
                d[k] = p.id
        g = self.g
        self.captured = {}
        for k, p in d.items():
            v = self.P.nodes[p].n.v if self.P.nodes[p].n.k == "asg" else None
            if k in bad or k not in self.P.mutb or not v or v[0] != "agg" or v[1] != "closure":
                continue
            # a closure called through a mutable reference: what it captured by reference (an unnamed reference made
            # for the capture) stays the same reference
            by_ref = {i for i, o in enumerate(v[5]) if o[0] == "p" and not o[1][2] and o[1][0] in range(len(g.ctxs)) and o[1][:2] in d
                      and "n" not in g.ctxs[o[1][0]].fn["locals"][o[1][1]]
                      and self.P.nodes[d[o[1][:2]]].n.k == "asg" and self.P.nodes[d[o[1][:2]]].n.v[0] == "ref"}
            if by_ref:
                self.captured[k] = (p, by_ref)
        return {k: p for k, p in d.items() if k not in bad and k not in self.P.mutb
                and not (k[0] == g.rootctx.id and k[1] <= g.root["args"])}

    def never_written(self, root):
        k = (root[1], root[2])
        if not hasattr(self, "_written"):
            self._written = {p.n.d[:2] for p in self.P.nodes if p.n.d is not None and "*" not in p.n.d[2] and p.n.k in ("asg", "setd", "call", "yield")} | self.P.mutb
        return k not in self._written

    # hash-consing
    def mk(self, *t):
        i = self.idx.get(t)
        if i is None:
            i = len(self.tab)
            self.tab.append(t)
            self.idx[t] = i
        return i

    def t(self, v):
        return self.tab[v]

    # locations: (root, path) with root ('L',ctx,local) or ('M',value)
    def loc(self, place, pid):
        k = (place, pid)
        if k in self.locmemo:
            return self.locmemo[k]
        c, l, pr = place
        root, path = ("L", c, l), ()
        for e in pr:
            if e == "*":
                v = self.content(root, path, pid)
                root, path = self.deref(v, k)
            elif e == "?":
                path = path + (("?",),)
            elif e[0] == "f":
                path = path + (("f", e[1], e[2]),)
            elif e[0] == "v":
                path = path + (("v", e[1]),)
            elif e[0] == "i":
                iv = self.operand(("p", e[1], False), pid)
                path = path + (("i", iv),)
            else:
                path = path + (e,)
        self.locmemo[k] = (root, path)
        return root, path

    def deref(self, v, at=None):
        t = self.tab[v]
        if t[0] == "ref":
            return t[2]
        if t[0] == "phi":
            seen, work, refs, guess = set(), [v], set(), False
            while work:
                o = work.pop()
                if o in seen:
                    continue
                seen.add(o)
                k = self.tab[o]
                if k[0] == "phi":
                    if not self.phis[o]:
                        # still being worked out: go by the operands known so far, checked once all are
                        if at is None or at in self.cyclic or not self.part.get(o):
                            if self.open and at is not None and (self.dirty is None or self.dirty in self.cyclic):
                                self.dirty = at
                            refs.clear()
                            break
                        guess = True
                        work.extend(self.part[o])
                        continue
                    work.extend(self.phis[o])
                elif k[0] == "ref":
                    refs.add(k[2])
                elif k[0] != "undef":
                    refs.clear()
                    break
            if len(refs) == 1:
                r = refs.pop()
                if guess:
                    self.guesses.append((at, v, r))
                return r
            if guess and not refs:
                self.guesses.append((at, v, (("M", v), ())))
        if t[0] == "cast":
            # unsizing of references keeps the location
            inner = self.tab[t[2]]
            if inner[0] == "ref":
                return inner[2]
        return (("M", v), ())

    def strip_phi(self, v):
        for _ in range(20):
            t = self.tab[v]
            if t[0] != "phi":
                return v
            ops = set(self.phis.get(v, ())) - {v}
            if len(ops) == 1:
                v = ops.pop()
            else:
                return v
        return v

    def content(self, root, path, pid):
        """value stored at location just before executing product node pid"""
        if self.open:
            return self._content(root, path, pid)
        while True:
            sizes = len(self.memo), len(self.locmemo), len(self.rmemo)
            self.dirty = None
            self.guesses = []
            self.open = True
            try:
                m = self._content(root, path, pid)
            finally:
                self.open = False
            k = self.dirty
            self.dirty = None
            wrong = {at for at, v, r in self.guesses if self.deref(v) != r} - self.cyclic
            if not wrong and (k is None or k in self.cyclic):
                return m
            # a pointer was followed while its own value was still being worked out: settle that pointer first
            self.cyclic |= wrong
            if k is not None:
                self.cyclic.add(k)
            for d, n in zip((self.memo, self.locmemo, self.rmemo), sizes):
                while len(d) > n:
                    d.popitem()
            if k is not None:
                self.loc(*k)

    def _content(self, root, path, pid):
        key0 = (root, path, pid)
        m = self.memo.get(key0)
        if m is not None:
            return m
        if root[0] == "L":
            sd = self.single.get((root[1], root[2]))
            if sd is not None and sd != pid:
                m = self.effect(root, path, sd)
                if m is not None:
                    self.memo[key0] = m
                    return m
            elif path and path[0][0] == "f" and root[1:] in self.captured and path[0][1] in self.captured[root[1:]][1] and self.captured[root[1:]][0] != pid:
                m = self.effect(root, path, self.captured[root[1:]][0])
                if m is not None:
                    self.memo[key0] = m
                    return m
            elif root[1] == self.g.rootctx.id and 1 <= root[2] <= self.g.root["args"] and self.g.root["locals"][root[2]]["ty"].startswith("&") and self.never_written(root):
                m = self.initial(root, path)
                self.memo[key0] = m
                return m
        nodes = self.P.nodes
        cur = pid
        trail = []
        while True:
            key = (root, path, cur)
            m = self.memo.get(key)
            if m is not None:
                break
            preds = nodes[cur].pred
            if not preds or cur == self.P.entry and not preds:
                m = self.initial(root, path)
                break
            if cur == self.P.entry:
                m = self.initial(root, path)
                break
            if len(preds) > 1:
                ph = self.mk("phi", len(self.phis), cur)
                self.phis[ph] = ()
                self.memo[key] = ph
                ops = []
                for _, p in sorted(preds, key=lambda x: x[1]):
                    o = self.out(root, path, p)
                    if o not in ops:
                        ops.append(o)
                        self.part[ph] = tuple(x for x in ops if x != ph)
                self.phis[ph] = tuple(ops)
                real = [o for o in ops if o != ph]
                m = ph
                if len(real) == 1:
                    m = real[0]
                self.memo[key] = m
                break
            p = preds[0][1]
            r = self.effect(root, path, p)
            if r is not None:
                m = r
                trail.append(key)
                break
            trail.append(key)
            cur = p
        for k in trail:
            self.memo[k] = m
        self.memo[key0] = m
        return m

    def out(self, root, path, p):
        """value after executing p"""
        r = self.effect(root, path, p)
        if r is not None:
            return r
        return self.content(root, path, p)

    def initial(self, root, path):
        if root[0] == "L":
            _, c, l = root
            if c == self.g.rootctx.id and 1 <= l <= self.g.root["args"]:
                loc = self.g.root["locals"][l]
                nm = loc.get("n", f"arg{l}")
                ty = loc["ty"]
                pv = self.mk("param", l, nm)
                if not path:
                    if ty.startswith("&"):
                        return self.mk("ref", bool(re.match(r"^&('\w+ )?mut ", ty)), (("M", pv), ()))
                    return pv
                return self.mk("init", ("M", pv), path)
            return self.mk("undef", root[1], root[2])
        if not path:
            return self.mk("init", root, ())
        return self.mk("init", root, path)

    def effect(self, root, path, p):
        """new value of location if node p (an executed predecessor) defines it, else None"""
        n = self.P.nodes[p].n
        k = n.k
        if k in ("nop", "sw", "assert", "drop", "dead"):
            return None
        if root[0] == "M":
            # memory named by the result of an access made at p: a fresh name every time p executes
            rt = self.tab[root[1]]
            while rt[0] == "proj":
                rt = self.tab[rt[1]]
            if rt[0] == "call" and rt[3] == p or rt[0] == "cbarg" and rt[5] == p:
                return self.initial(root, path)
        if k == "asg" or k == "setd":
            d = n.d
            if root[0] == "L" and "*" not in d[2] and (d[0], d[1]) != (root[1], root[2]):
                return None
            droot, dpath = self.loc(d, p)
            if droot != root:
                return None
            rel = self.relate(dpath, path)
            if rel is None:
                return None
            if k == "setd":
                return self.mk("setd", p)
            if rel[0] == "pre":  # dest is a prefix of (or equal to) our path
                return self.project_rv(n.v, rel[1], p)
            return self.mk("upd", self.content(root, path, p), rel[1], self.rvalue(n.v, p))
        if k in ("call", "yield"):
            d = n.d
            if d is not None:
                if not (root[0] == "L" and "*" not in d[2] and (d[0], d[1]) != (root[1], root[2])):
                    droot, dpath = self.loc(d, p)
                    if droot == root:
                        rel = self.relate(dpath, path)
                        if rel is not None:
                            cv = self.callval(p) if k == "call" else self.mk("yield", p)
                            if rel[0] == "pre":
                                return self.projv(cv, rel[1])
                            return self.mk("upd", self.content(root, path, p), rel[1], cv)
            if k == "call":
                for i, a in enumerate(n.args):
                    if a[0] != "p":
                        continue
                    # only references can mutate
                    v = self.operand(a, p)
                    t = self.tab[self.strip_phi(v)]
                    if t[0] == "ref" and t[1]:
                        droot, dpath = t[2]
                        if droot == root:
                            rel = self.relate(dpath, path)
                            if rel is not None:
                                if rel[0] == "pre":
                                    old = self.content(droot, dpath, p)
                                    return self.projv(self.mk("mut", p, i, old), rel[1])
                                old = self.content(root, path, p)
                                return self.mk("upd", old, rel[1], self.mk("mut", p, i, self.content(droot, dpath, p)))
            return None
        return None

    @staticmethod
    def relate(dpath, path):
        """('pre', rest) when dpath is a prefix of path; ('ext', rest) when it extends it; None if disjoint"""
        n = min(len(dpath), len(path))
        for i in range(n):
            a, b = dpath[i], path[i]
            if a == b:
                continue
            if a[0] == "f" and b[0] == "f":
                if a[1] != b[1]:
                    return None
                continue
            if a[0] == "i" and b[0] == "i":
                continue  # may alias
            if a[0] == "v" and b[0] == "v":
                return None
            if a[0] == "ci" and b[0] == "ci" and a[2] == b[2]:
                return None
        if len(dpath) <= len(path):
            return ("pre", path[len(dpath):])
        return ("ext", dpath[len(path):])

    # rvalues ----------------------------------------------------------------
    def operand(self, o, pid):
        if o[0] == "k":
            return self.const(o[1], o[2])
        r, p = self.loc(o[1], pid)
        return self.content(r, p, pid)

    def const(self, k, ctx):
        if "fndef" in k:
            return self.mk("fn", k["fndef"]["fn"])
        if "closure" in k:
            return self.mk("closure", k["closure"])
        if "int" in k:
            return self.mk("const", k["int"], k["ty"])
        if "str" in k:
            return self.mk("const", k["str"], "str")
        if "bytes" in k:
            return self.mk("const", tuple(k["bytes"]), "bytes")
        if "promoted" in k:
            fn = self.g.ctxs[ctx].fn if ctx is not None and ctx >= 0 else None
            ps = (fn or {}).get("promoted") or []
            if fn and k["promoted"] < len(ps) and k.get("uneval") == fn["path"]:
                v = self.static_body(ps[k["promoted"]])
                if v is not None:
                    return v
            if "val" in k:
                return self.mk("const", k["val"], k["ty"])
        if "static" in k:
            return self.mk("static", k["static"])
        if "val" in k:
            return self.mk("const", k["val"], k["ty"])
        if "uneval" in k:
            for fn in self.F.by_path.get(k["uneval"], ()):
                if "cbody" in fn and len(self.F.by_path[k["uneval"]]) == 1:
                    v = self.static_body(fn["cbody"])
                    if v is not None:
                        return v
            return self.mk("constitem", k["uneval"], k["ty"])
        return self.mk("const", "?" + k["ty"], k["ty"])

    def static_body(self, body, depth=0):
        """value of a straight-line constant body (promoted constant or const item); None when it is not one"""
        if depth > 6 or not body.get("blocks"):
            return None
        env = {}

        def op(o):
            if "k" in o:
                k = o["k"]
                if "uneval" in k and "int" not in k and "str" not in k and "bytes" not in k and "promoted" not in k:
                    for fn in self.F.by_path.get(k["uneval"], ()):
                        if "cbody" in fn:
                            return self.static_body(fn["cbody"], depth + 1)
                if "promoted" in k and "int" not in k and "str" not in k and "bytes" not in k:
                    return None
                return self.const(k, None)
            pl = o.get("c") or o.get("m")
            return place(pl) if pl else None

        def place(pl):
            v = env.get(pl["l"])
            for e in pl.get("p", ()):
                if v is None:
                    return None
                if e == "*":
                    continue
                if "f" in e:
                    v = self.projv(v, (("f", e["f"], e["n"]),))
                elif "dc" in e:
                    v = self.projv(v, (("v", e["n"]),))
                else:
                    return None
            return v

        b, seen = 0, set()
        while b not in seen:
            seen.add(b)
            blk = body["blocks"][b]
            for s in blk["st"]:
                if "d" not in s:
                    continue
                if s["d"].get("p"):
                    return None
                r = s["v"]
                t = r["r"]
                v = None
                if t == "use":
                    v = op(r["a"])
                elif t == "ref":
                    v = place(r["pl"])
                elif t == "cast":
                    v = op(r["a"])
                    if v is not None and not r["kind"].startswith("PointerCoercion"):
                        v = self.mk("cast", r["ty"], v, r["from"])
                elif t == "agg":
                    vs = tuple(op(a) for a in r["a"])
                    if None not in vs:
                        if r["kind"] == "adt":
                            v = self.mk("agg", r["adt"], r["variant"], tuple(r["fields"]), vs)
                        elif r["kind"] != "closure":
                            v = self.mk("agg", r["kind"], None, tuple(str(i) for i in range(len(vs))), vs)
                elif t == "repeat":
                    x = op(r["a"])
                    v = None if x is None else self.mk("repeat", x, r["n"])
                elif t == "bin":
                    x, y = op(r["a"]), op(r["b"])
                    if None not in (x, y):
                        v = self.binv(r["op"], x, y)
                elif t == "un":
                    x = op(r["a"])
                    v = None if x is None else self.mk("un", r["op"], x)
                env[s["d"]["l"]] = v
            t = blk["t"]
            if t["k"] == "return":
                return env.get(0)
            if t["k"] in ("goto", "drop", "assert"):
                b = t["t"]
            elif t["k"] == "call" and t.get("f") and t["t"] is not None and not t["d"].get("p"):
                a = [op(x) for x in t["a"]]
                nm = short(t["f"])
                if nm == "RangeInclusive::new" and None not in a:
                    env[t["d"]["l"]] = self.mk("agg", "RangeInclusive", None, ("start", "end"), tuple(a))
                b = t["t"]
            else:
                return None
        return None

    def rvalue(self, v, pid):
        return self.project_rv(v, (), pid)

    def project_rv(self, v, rest, pid):
        t = v[0]
        if t == "use":
            o = v[1]
            if o[0] == "k":
                return self.projv(self.const(o[1], o[2]), rest)
            r, p = self.loc(o[1], pid)
            return self.content(r, p + rest, pid)
        if t == "agg":
            return self.proj_agg(v, rest, pid)
        if t == "ref":
            return self.projv(self.mk("ref", v[1], self.loc(v[2], pid)), rest)
        if t == "bin":
            a, b = self.operand(v[2], pid), self.operand(v[3], pid)
            if rest and rest[0][0] == "f" and v[1].endswith("WithOverflow"):
                if rest[0][1] == 0:
                    return self.projv(self.binv(v[1][: -len("WithOverflow")], a, b), rest[1:])
                return self.mk("ovf", v[1], a, b)
            return self.projv(self.binv(v[1], a, b), rest)
        if t == "un":
            return self.projv(self.mk("un", v[1], self.operand(v[2], pid)), rest)
        if t == "cast":
            a = self.operand(v[2], pid)
            if v[1].startswith("PointerCoercion") or v[1] in ("PtrToPtr", "Transmute") and False:
                return self.projv(a, rest)
            return self.projv(self.mk("cast", v[4], a, v[3]), rest)
        if t == "discr":
            r, p = self.loc(v[1], pid)
            return self.projv(self.mk("discr", self.content(r, p, pid), v[2]), rest)
        if t == "repeat":
            return self.projv(self.mk("repeat", self.operand(v[1], pid), v[2]), rest)
        if t == "cbarg":
            return self.projv(self.mk("cbarg", v[1], v[2], v[3], tuple(self.operand(a, pid) for a in v[4]), pid), rest)
        return self.projv(self.mk("other", str(v), pid), rest)

    def binv(self, op, a, b):
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor", "Eq", "Ne") and b < a:
            a, b = b, a
        return self.mk("bin", op, a, b)

    def proj_agg(self, v, rest, pid):
        _, kind, name, variant, fields, ops = v
        r = rest
        if r and r[0][0] == "v":
            if variant is not None and r[0][1] != variant:
                return self.mk("undef", "variant", r[0][1])
            r = r[1:]
        if r and r[0][0] == "f":
            i = r[0][1]
            nm = r[0][2] if len(r[0]) > 2 else str(i)
            if kind == "adt" and nm in fields and len(fields) == len(ops):
                i = fields.index(nm)
            if i < len(ops):
                o = ops[i]
                if o[0] == "k":
                    return self.projv(self.const(o[1], o[2]), r[1:])
                rt, p = self.loc(o[1], pid)
                return self.content(rt, p + r[1:], pid)
        if r and r[0][0] == "ci" and not r[0][2] and r[0][1] < len(ops):
            o = ops[r[0][1]]
            if o[0] == "k":
                return self.projv(self.const(o[1], o[2]), r[1:])
            rt, p = self.loc(o[1], pid)
            return self.content(rt, p + r[1:], pid)
        vals = tuple(self.operand(o, pid) for o in ops)
        return self.projv(self.mk("agg", name, variant, fields, vals), r)

    def projv(self, v, rest):
        for e in rest:
            t = self.tab[v]
            if t[0] == "agg":
                if e[0] == "v":
                    if t[2] is not None and t[2] != e[1]:
                        return self.mk("undef", "variant", e[1])
                    continue
                if e[0] == "f":
                    nm = e[2] if len(e) > 2 else str(e[1])
                    if nm in t[3]:
                        v = t[4][t[3].index(nm)]
                        continue
            if t[0] == "upd":
                rel = self.relate(t[2], (e,))
                if rel is None:
                    v = self.projv(t[1], (e,))
                    continue
                if rel[0] == "pre":
                    v = self.projv(t[3], rel[1])
                    continue
            if t[0] == "init":
                v = self.mk("init", t[1], t[2] + (e,))
                continue
            v = self.mk("proj", v, e)
        return v

    # calls --------------------------------------------------------------------
    def callval(self, p):
        k = ("call", p)
        if k in self.memo:
            return self.memo[k]
        n = self.P.nodes[p].n
        f = n.f
        name = short(f)
        if f["name"] == "<indirect>" and f.get("ind"):
            name = "apply"
        elif name == "TryInto::try_into" and len(f["ga"]) >= 2 and f["ga"][0] in INTS and f["ga"][1] in INTS:
            name = "TryFrom::try_from"
        # one value per call, known before its arguments: around a loop they can depend on it
        v = self.mk("call", name, (), p)
        self.callinfo[v] = (f, (), (), p)
        self.memo[k] = v
        args = tuple(self.operand(a, p) for a in n.args)
        deep = tuple(self.deep(a, p) for a in args)
        if name == "apply" and f.get("ind"):
            deep = (self.deep(self.operand(f["ind"], p), p),) + deep
        self.tab[v] = ("call", name, deep, p)
        self.callinfo[v] = (f, args, deep, p)
        return v

    def deep(self, v, pid, limit=4):
        """follow references to the contents they denote at pid"""
        for _ in range(limit):
            t = self.tab[self.strip_phi(v)]
            if t[0] == "ref":
                v = self.content(t[2][0], t[2][1], pid)
            else:
                break
        return v

    def arg(self, pid, i):
        """deep value of argument i of the call at pid"""
        n = self.P.nodes[pid].n
        return self.deep(self.operand(n.args[i], pid), pid)

    def rawarg(self, pid, i):
        n = self.P.nodes[pid].n
        return self.operand(n.args[i], pid)

    # normal form ----------------------------------------------------------------
    def strip(self, v):
        """peel identity-like wrappers"""
        for _ in range(40):
            v = self.strip_phi(v)
            t = self.tab[v]
            if t[0] == "call":
                nm = t[1].split("::")[-1]
                if nm in IDENT and len(t[2]) >= 1:
                    v = t[2][0]
                    continue
                if nm in ("into", "from") and len(t[2]) == 1 and self.ident_conv(v):
                    v = t[2][0]
                    continue
            if t[0] == "init" and t[1][0] == "M" and not t[2]:
                v = t[1][1]
                continue
            return v
        return v

    def ident_conv(self, v):
        f = self.callinfo[v][0]
        return True if f.get("krate") in ("core", "alloc", "std") else False

    def show(self, v, depth=12, seen=()):
        """canonical rendering (identity-like wrappers removed)"""
        v = self.strip(v)
        if depth <= 0:
            return "…"
        if v in seen:
            return "μ"
        key = (v, depth, seen)
        if key in self.rmemo:
            return self.rmemo[key]
        r = self._show(v, depth, seen + ((v,) if self.tab[v][0] == "phi" else ()))
        if len(r) > 6000:
            r = r[:6000] + "…"
        self.rmemo[key] = r
        return r

    def _show(self, v, depth, seen):
        t = self.tab[v]
        S = lambda x: self.show(x, depth - 1, seen)
        k = t[0]
        if k == "param":
            return t[2]
        if k == "init":
            return self.showloc((t[1], t[2]), depth, seen)
        if k == "const":
            x = t[1]
            if isinstance(x, tuple):
                try:
                    return "b" + repr(bytes(x).decode("ascii"))
                except Exception:
                    return "b" + repr(list(x))
            return repr(x) if t[2] == "str" else str(x)
        if k == "constitem":
            return "const " + t[1]
        if k == "static":
            return "static " + t[1]
        if k in ("fn", "closure"):
            return k + ":" + t[1]
        if k == "call":
            return t[1] + "(" + ", ".join(S(a) for a in t[2]) + ")"
        if k == "mut":
            n = self.P.nodes[t[1]].n
            others = [self.show(self.arg(t[1], i), depth - 1, seen) for i in range(len(n.args)) if i != t[2]]
            return S(t[3]) + "~" + short(n.f).split("::")[-1] + "(" + ", ".join(others) + ")"
        if k == "proj":
            return S(t[1]) + self.showelem(t[2], depth, seen)
        if k == "upd":
            return S(t[1]) + "[" + "".join(self.showelem(e, depth, seen) for e in t[2]) + ":=" + S(t[3]) + "]"
        if k == "bin":
            return f"{t[1]}({S(t[2])}, {S(t[3])})"
        if k == "ovf":
            return f"ovf({t[1]},{S(t[2])}, {S(t[3])})"
        if k == "un":
            return f"{t[1]}({S(t[2])})"
        if k == "cast":
            return f"({S(t[2])} as {t[1]})"
        if k == "discr":
            return f"discr({S(t[1])})"
        if k == "agg":
            n = t[1].split("::")[-1] if t[2] is None or True else t[1]
            if t[2]:
                n = t[2] if t[2] == n else n + "::" + t[2]
            return n + "{" + ", ".join(f"{f}: {S(a)}" for f, a in zip(t[3], t[4])) + "}"
        if k == "ref":
            return "&" + self.showloc(t[2], depth, seen)
        if k == "phi":
            ops = sorted({self.show(o, depth - 1, seen) for o in self.phis[v]})
            ops = [o for o in ops if o != "μ"] if len(ops) > 1 else ops
            if len(ops) == 1:
                return ops[0]
            return "{" + " | ".join(ops) + "}"
        if k == "repeat":
            return f"[{S(t[1])}; {t[2]}]"
        if k == "cbarg":
            return f"cb:{t[1]}#{t[3]}({', '.join(S(a) for a in t[4])})"
        if k == "undef":
            return "undef"
        return str(t[:2])

    def showelem(self, e, depth, seen):
        if e[0] == "f":
            return "." + str(e[2] if len(e) > 2 else e[1])
        if e[0] == "v":
            return "." + e[1]
        if e[0] == "i":
            return "[" + self.show(e[1], depth - 1, seen) + "]"
        if e[0] == "ci":
            return f"[{'-' if e[2] else ''}{e[1]}]"
        if e[0] == "s":
            return f"[{e[1]}..{'-' if e[3] else ''}{e[2]}]"
        return str(e)

    def showloc(self, loc, depth=8, seen=()):
        root, path = loc
        if root[0] == "L":
            c, l = root[1], root[2]
            nm = f"_{c}.{l}"
            if c >= 0:
                nm = self.g.ctxs[c].fn["locals"][l].get("n", nm)
            s = nm
        else:
            s = self.show(root[1], depth - 1, seen)
        return s + "".join(self.showelem(e, depth, seen) for e in path)


# ----------------------------------------------------------------------------
class Flow:
    """an analysed root function: expanded graph + product + values, with rule-level queries."""

    def __init__(self, facts, fn, **kw):
        self.F = facts
        self.fn = fn
        self.g = Graph(facts, fn, **kw)
        self.p = Product(self.g)
        self.v = Values(self.p)
        self._atoms = {}

    def nodes(self, k=None):
        for n in self.p.nodes:
            if k is None or n.n.k == k:
                yield n

    def calls(self, *names):
        """product nodes calling any of NAMES: 'Type::method', or '::method' for any type"""
        for n in self.p.nodes:
            if n.n.k == "call":
                if not names or callee_is(n.n.f, *names):
                    yield n

    def where(self, pn):
        n = pn.n
        c = self.g.ctxs[n.ctx] if n.ctx is not None else self.g.rootctx
        return f"{n.span or c.fn['span']} in {c.fn['path']}"

    # conditions ----------------------------------------------------------
    def atom(self, pid, label):
        """normalised condition established by leaving switch pid over LABEL"""
        k = (pid, label)
        if k in self._atoms:
            return self._atoms[k]
        n = self.p.nodes[pid].n
        if n.aux == "nondet":
            a = ("nondet",)
        else:
            a = self._atom(self.v.operand(n.op, pid), label, n.aux)
        self._atoms[k] = a
        return a

    def _atom(self, v, label, ty):
        V = self.v
        v = V.strip(v)
        t = V.t(v)
        if ty == "bool":
            if label in ("0",):
                val = False
            elif label == "1":
                val = True
            elif isinstance(label, tuple) and label[0] == "not":
                val = label[1:] == ("0",)
            else:
                val = True
            return self.bool_atom(v, val)
        if t[0] == "discr":
            inner = V.strip(t[1])
            it = V.t(inner)
            vs = variants(self.F, t[2])
            if vs:
                names = lambda l: [k for k, d in vs.items() if Product.lab_eq(l, d, ty)]
                if isinstance(label, tuple):
                    ex = set()
                    for l in label[1:]:
                        ex.update(names(l))
                    rest = tuple(sorted(k for k in vs if k not in ex))
                else:
                    rest = tuple(names(label))
                if t[2] == ORDERING and it[0] == "call" and it[1].split("::")[-1] in ("cmp", "partial_cmp"):
                    m = {("Less",): "lt", ("Equal",): "eq", ("Greater",): "gt", ("Equal", "Less"): "le", ("Equal", "Greater"): "ge", ("Greater", "Less"): "ne"}
                    o = m.get(tuple(sorted(rest)))
                    if o:
                        return self.cmp(o, it[2][0], it[2][1])
                return ("is", inner, rest)
            return ("discr", inner, label)
        if ty in INTS:
            ls = label[1:] if isinstance(label, tuple) else (label,)
            if len(ls) == 1 and str(ls[0]).isdigit() and int(ls[0]) < 128:
                return self.cmp("ne" if isinstance(label, tuple) else "eq", v, V.mk("const", int(ls[0]), ty))
        if isinstance(label, tuple):
            return ("ne", v, label[1:])
        return ("eqc", v, label)

    NEG = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}
    SWAP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}

    def cmp(self, op, a, b):
        V = self.v
        a, b = V.strip(a), V.strip(b)
        sa, sb = V.show(a), V.show(b)
        if sb < sa:
            a, b = b, a
            op = self.SWAP[op]
        return ("cmp", op, a, b)

    def bool_atom(self, v, val):
        V = self.v
        t = V.t(v)
        if t[0] == "un" and t[1] == "Not":
            return self.bool_atom(V.strip(t[2]), not val)
        if t[0] == "bin" and t[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            op = t[1].lower()
            a, b = t[2], t[3]
            # comparisons of a bool with a constant
            return self.cmp(op if val else self.NEG[op], a, b)
        if t[0] == "call":
            nm = t[1].split("::")[-1]
            if nm in ("lt", "le", "gt", "ge", "eq", "ne") and len(t[2]) == 2:
                return self.cmp(nm if val else self.NEG[nm], t[2][0], t[2][1])
        if t[0] == "ovf":
            return ("ovf", v, val)
        return ("bool", v, val)

    def show_atom(self, a):
        V = self.v
        if a[0] == "cmp":
            return f"{V.show(a[2])} {a[1]} {V.show(a[3])}"
        if a[0] == "is":
            return f"{V.show(a[1])} is {'/'.join(a[2])}"
        if a[0] == "bool":
            return ("" if a[2] else "!") + V.show(a[1])
        if a[0] in ("eqc", "ne", "discr"):
            return f"{V.show(a[1])} {a[0]} {a[2]}"
        return str(a)

    # reachability -----------------------------------------------------------
    def reach(self, srcs, avoid_node=None, avoid_edge=None, rev=False):
        seen = set()
        work = []
        for s in srcs:
            if avoid_node and avoid_node(self.p.nodes[s]):
                continue
            seen.add(s)
            work.append(s)
        while work:
            x = work.pop()
            n = self.p.nodes[x]
            for l, y in (n.pred if rev else n.succ):
                if y in seen:
                    continue
                if avoid_edge and (avoid_edge(self.p.nodes[y], l, x) if rev else avoid_edge(n, l, y)):
                    continue
                if avoid_node and avoid_node(self.p.nodes[y]):
                    continue
                seen.add(y)
                work.append(y)
        return seen

    def rets(self):
        return [n for n in self.p.nodes if n.n.k == "ret"]

    def ret_value(self, pn):
        return self.v.content(("L", self.g.rootctx.id, 0), (), pn.id)

    def ret_variant(self, pn):
        """variant of the returned enum at this exit when known from facts"""
        for k, f in pn.env:
            if k == (self.g.rootctx.id, 0, ()) and f[0] == "v":
                return f[1]
        return None

    def ret_const(self, pn):
        for k, f in pn.env:
            if k == (self.g.rootctx.id, 0, ()) and f[0] == "c":
                return f[1]
        return None

    def exits(self, variant):
        """exits that may return VARIANT (unknown variants count)"""
        return [r for r in self.rets() if self.ret_variant(r) in (variant, None)]

    def must_atoms(self, target_ids):
        """conditions (rendered) crossed on every path from entry to any of the targets"""
        targets = set(target_ids)
        base = self.reach([self.p.entry])
        cand = {}
        for n in self.p.nodes:
            if n.n.k == "sw" and n.id in base:
                for l, y in n.succ:
                    a = self.atom(n.id, l)
                    cand.setdefault(self.show_atom(a), []).append((n.id, l, a))
        out = {}
        for s, es in cand.items():
            cut = {(i, l) for i, l, _ in es}
            r = self.reach([self.p.entry], avoid_edge=lambda n, l, y: (n.id, l) in cut)
            if not (r & targets):
                out[s] = es[0][2]
        return out

    def trace(self, src, dst, avoid_node=None, avoid_edge=None):
        """a shortest path src..dst (product ids), for reports"""
        prev = {src: None}
        dq = deque([src])
        while dq:
            x = dq.popleft()
            if x == dst or (callable(dst) and dst(self.p.nodes[x])):
                out = []
                while x is not None:
                    out.append(x)
                    x = prev[x]
                return out[::-1]
            n = self.p.nodes[x]
            for l, y in n.succ:
                if y in prev:
                    continue
                if avoid_edge and avoid_edge(n, l, y):
                    continue
                if avoid_node and avoid_node(self.p.nodes[y]):
                    continue
                prev[y] = x
                dq.append(y)
        return None

    def describe(self, path):
        """readable lines for a path"""
        out = []
        last = None
        for i, x in enumerate(path or []):
            n = self.p.nodes[x]
            if n.n.k == "call":
                s = f"{n.n.span}: call {short(n.n.f)}"
            elif n.n.k == "sw":
                lab = None
                if i + 1 < len(path):
                    for l, y in n.succ:
                        if y == path[i + 1]:
                            lab = l
                s = f"{n.n.span}: when {self.show_atom(self.atom(x, lab))[:160]}" if lab is not None else None
            elif n.n.k == "ret":
                s = "return"
            else:
                s = None
            if s and s != last:
                out.append(s)
                last = s
        return out


def callee_is(f, *names):
    s = short(f)
    nm = f["name"]
    tr = f.get("trait", "").split("::")[-1]
    cands = {s, "::" + nm}
    if tr:
        cands.add(tr + "::" + nm)
    if "res" in f:
        cands.add(strip_generics(f["res"]).split("::")[-2] + "::" + nm if "::" in strip_generics(f["res"]) else nm)
    if "impl_self" in f:
        cands.add(ty_head(f["impl_self"]) + "::" + nm)
    if "res_self" in f:
        cands.add(ty_head(f["res_self"]) + "::" + nm)
    for x in names:
        if x in cands or x == f["fn"]:
            return True
    return False
