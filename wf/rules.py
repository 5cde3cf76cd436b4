"""Rule-level view of one analysed root function."""
import copy
import re
from .flow import Flow, PNode, Values, callee_is, ORDERING
from .graph import short, TooBig
from .norm import Norm, ACCESS
from .facts import ty_head


class Call:
    __slots__ = ("A", "pid", "n", "name", "f", "_s")

    def __init__(self, A, pid):
        self.A, self.pid = A, pid
        self.n = A.p.nodes[pid].n
        self.f = self.n.f
        self.name = short(self.f)
        self._s = {}

    @property
    def nargs(self):
        return len(self.n.args)

    def val(self, i):
        V = self.A.v
        v = V.arg(self.pid, i)
        if V.t(v)[0] == "phi":
            # one local variable, lent anew in each step of a loop
            x = self.A.n.peel(v)
            t = V.t(x)
            if t[0] == "ref" and t[2][0][0] == "L":
                return V.deep(x, self.pid)
        return v

    def arg(self, i):
        if i >= len(self.n.args):
            return ""
        if i not in self._s:
            self._s[i] = self.A.s(self.val(i))
        return self._s[i]

    @property
    def args(self):
        return [self.arg(i) for i in range(self.nargs)]

    @property
    def value(self):
        return self.A.v.callval(self.pid)

    @property
    def where(self):
        return self.A.where(self.pid)

    def is_(self, *names):
        return callee_is(self.f, *names)

    def __repr__(self):
        return f"{self.name}({', '.join(self.args)}) @{self.where}"


class Effect:
    """a write to memory: op 'assign' or the name of the call given a mutable reference"""
    __slots__ = ("A", "pid", "op", "loc", "root", "acc", "idx", "val", "rloc")

    def __init__(self, A, pid, op, loc, idx=None, val=None):
        self.A, self.pid, self.op, self.idx, self.val = A, pid, op, idx, val
        self.rloc = loc
        self.loc = A.n.locstr(loc)
        r, self.acc = A.n.container(loc)
        self.root = A.n.locstr(r)

    @property
    def call(self):
        return Call(self.A, self.pid)

    @property
    def args(self):
        """other arguments (rendered) for calls; assigned value for assignments"""
        n = self.A.p.nodes[self.pid].n
        if n.k == "call" and self.idx is not None:
            c = self.call
            return [c.arg(i) for i in range(c.nargs) if i != self.idx]
        return [self.A.s(self.val)]

    @property
    def where(self):
        return self.A.where(self.pid)

    def __repr__(self):
        return f"{self.op} {self.loc} (in {self.root}) {self.args} @{self.where}"


class Ret:
    __slots__ = ("A", "pid", "variant", "_v")

    def __init__(self, A, pn):
        self.A = A
        self.pid = pn.id
        self.variant = A.fl.ret_variant(pn)
        self._v = None

    @property
    def value(self):
        if self._v is None:
            self._v = self.A.fl.ret_value(self.A.p.nodes[self.pid])
        return self._v

    @property
    def s(self):
        return self.A.s(self.value)

    @property
    def const(self):
        return self.A.fl.ret_const(self.A.p.nodes[self.pid])


def swap(op):
    return {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}[op]


def falsum(a, n, l):
    """a comparison of two constants that does not hold"""
    if a.p.nodes[n].n.aux == "nondet":
        return False
    at = a.fl.atom(n, l)
    if at[0] != "cmp":
        return False
    x, y = a.v.t(a.v.strip(at[2])), a.v.t(a.v.strip(at[3]))
    if x[0] != "const" or y[0] != "const" or not isinstance(x[1], int) or not isinstance(y[1], int):
        return False
    x, y = x[1], y[1]
    return not {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[at[1]]


ORD = {"gt": {"gt"}, "ge": {"gt", "eq"}, "eq": {"eq"}, "le": {"eq", "lt"}, "lt": {"lt"}, "ne": {"gt", "lt"}}


class A:
    def __init__(self, F, fn, **kw):
        self.F = F
        self.fn = fn
        self.fl = Flow(F, fn, **kw)
        self.g, self.p, self.v = self.fl.g, self.fl.p, self.fl.v
        self.n = Norm(self.v)
        self.n.bound = self.bound
        self._eff = None
        self._atoms = {}

    def under(self, contra, rounds=4):
        """the same function analysed under an assumption: edges whose condition satisfies CONTRA are impossible"""
        cur = self
        for i in range(rounds):
            cut = {(n, l) for n, l, y, ss in cur.edges() if any(contra(s) for s in ss) or falsum(cur, n, l)}
            if i and not cut:
                break
            cur = cur.prune(cut)
        return cur

    def call(self, names):
        """short names for the values rendered like the keys (texts, already using the names of their parts, or compiled patterns)"""
        self.n.names = {**self.n.names, **{k: v for k, v in names.items() if isinstance(k, str)}} or {"": ""}
        self.n.name_rx = tuple(self.n.name_rx) + tuple((k, v) for k, v in names.items() if hasattr(k, "fullmatch"))
        self.n.names.setdefault("", "")
        self.n.memo.clear()
        self._atoms = {}
        return self

    def prune(self, cut):
        old = self.p.nodes
        keep, work = {self.p.entry: 0}, [self.p.entry]
        order = [self.p.entry]
        while work:
            x = work.pop()
            for l, y in old[x].succ:
                if (x, l) in cut or y in keep:
                    continue
                keep[y] = len(order)
                order.append(y)
                work.append(y)
        P = copy.copy(self.p)
        P.nodes = [PNode(keep[x], old[x].n, old[x].env) for x in order]
        P.bynode = {}
        for x in order:
            q = P.nodes[keep[x]]
            P.bynode.setdefault(q.n.id, []).append(q.id)
            for l, y in old[x].succ:
                if (x, l) not in cut:
                    q.succ.append((l, keep[y]))
                    P.nodes[keep[y]].pred.append((l, q.id))
        P.entry = 0
        fl = copy.copy(self.fl)
        fl.p, fl.v, fl._atoms = P, Values(P), {}
        B = copy.copy(self)
        B.fl, B.p, B.v = fl, P, fl.v
        B.n = Norm(B.v)
        B.n.names, B.n.name_rx = self.n.names, self.n.name_rx
        B.n.bound, B._bounds = B.bound, None
        B._eff, B._atoms = None, {}
        for k in ("_ops",):
            B.__dict__.pop(k, None)
        return B

    # rendering
    def s(self, v):
        return self.n.s(v)

    def where(self, pid):
        n = self.p.nodes[pid].n
        c = self.g.ctxs[n.ctx] if n.ctx is not None else self.g.rootctx
        sp = n.span or c.fn["span"]
        return f"{sp.rstrip('!')} in {c.fn['path']}"

    @property
    def name(self):
        return self.fn["path"]

    def stats(self):
        return {"function": self.fn["path"], "inlined": len(self.g.inlined) - 1, "cfg_nodes": len(self.g.nodes), "path_states": len(self.p.nodes)}

    # enumeration
    def calls(self, *names):
        out = []
        for n in self.p.nodes:
            if n.n.k == "call" and (not names or callee_is(n.n.f, *names)):
                out.append(Call(self, n.id))
        return out

    def nodes_dropping(self, tyname):
        """nodes that drop a value whose type mentions TYNAME, or hand it to mem::drop"""
        out = []
        for n in self.p.nodes:
            if n.n.k == "drop" and n.n.aux and tyname in n.n.aux:
                out.append(n.id)
            elif n.n.k == "call" and n.n.f["name"] == "drop" and n.n.args and tyname in (self.g.optype(n.n.args[0]) or ""):
                out.append(n.id)
        return out

    def panics(self):
        """places where the thread is aborted: failed unwraps, calls that do not return (panic!, assert!)"""
        return [n for n in self.p.nodes if n.n.k == "panic" or n.n.k == "call" and not n.n.succ]

    def rets(self, variant=None):
        out = []
        for pn in self.fl.rets():
            r = Ret(self, pn)
            if variant is None or r.variant in (variant, None):
                out.append(r)
        return out

    def ret_values(self, variant=None):
        """distinct renderings of the values returned"""
        out = {}
        for r in self.rets(variant):
            for v in self.alternatives(r.value):
                out.setdefault(self.s(v), r)
        return out

    def alternatives(self, v):
        """non-phi alternatives of a value"""
        t = self.v.t(self.v.strip(v))
        if t[0] == "phi":
            return sorted(self.n.phi_ops(v))
        return [v]

    # effects
    def effects(self):
        if self._eff is not None:
            return self._eff
        out = []
        V = self.v
        for pn in self.p.nodes:
            n = pn.n
            if n.k == "asg" and "*" in n.d[2]:
                loc = V.loc(n.d, pn.id)
                if loc[0][0] == "M":
                    out.append(Effect(self, pn.id, "assign", loc, None, V.rvalue(n.v, pn.id)))
            elif n.k == "call":
                if n.d is not None and "*" in n.d[2]:
                    loc = V.loc(n.d, pn.id)
                    if loc[0][0] == "M":
                        out.append(Effect(self, pn.id, "assign", loc, None, V.callval(pn.id)))
                nm = n.f["name"]
                for i, a in enumerate(n.args):
                    if a[0] != "p":
                        continue
                    v = V.operand(a, pn.id)
                    t = V.t(V.strip_phi(v))
                    isref = t[0] == "ref" and t[1]
                    loc = t[2] if isref else None
                    if not isref:
                        ty = self.g.optype(a)
                        if re.match(r"^&('\w+ )?mut ", ty or ""):
                            loc = V.deref(V.strip_phi(v))
                            isref = True
                    if not isref:
                        continue
                    if nm in ACCESS and nm not in ("or_default", "or_insert", "or_insert_with") and i == 0:
                        continue
                    if nm in ("fmt", "hash"):
                        continue
                    out.append(Effect(self, pn.id, nm, loc, i))
                # consuming an entry / guard by value: VacantEntry::insert, OccupiedEntry::remove ...
                if nm in ("insert", "remove", "remove_entry", "insert_entry", "or_default", "or_insert", "or_insert_with", "and_modify", "or_insert_with_key") and n.args and n.args[0][0] == "p" and "ntry" in short(n.f):
                    v = V.deep(V.operand(n.args[0], pn.id), pn.id)
                    out.append(Effect(self, pn.id, "Entry::" + nm, (("M", self.n.peel(v)), ()), 0))
        # keep only memory that outlives the function: rooted at a parameter
        self._eff = out
        return out

    def param_effects(self, param=None):
        """effects on memory reachable from parameters (rendered root starts with a parameter name)"""
        names = [l.get("n", f"arg{i}") for i, l in enumerate(self.fn["locals"]) if 1 <= i <= self.fn["args"]]
        if param:
            names = [param]
        return [e for e in self.effects() if re.match(r"^(%s)\b" % "|".join(map(re.escape, names)), e.root)]

    # conditions -----------------------------------------------------------
    def atom_strs(self, pid, label):
        """renderings of the condition of an edge, in every equivalent orientation"""
        k = (pid, label)
        if k in self._atoms:
            return self._atoms[k]
        a = self.fl.atom(pid, label)
        r = self._atom_strs(a)
        self._atoms[k] = r
        return r

    def _atom_strs(self, a):
        s = self.s
        if a[0] == "cmp":
            x, y = s(a[2]), s(a[3])
            out = [f"{x} {a[1]} {y}", f"{y} {swap(a[1])} {x}"]
            for l, o, k in ((x, a[1], y), (y, swap(a[1]), x)):
                m = re.fullmatch(r"len\((.*)\)", l)
                if m and (o, k) in (("eq", "0"), ("lt", "1"), ("le", "0"), ("ne", "0"), ("gt", "0"), ("ge", "1")):
                    out += [e for e in self.empty_strs(m.group(1), o in ("eq", "lt", "le") and (o, k) != ("le", "1")) if e not in out]
            for l, o, k in ((a[2], a[1], y), (a[3], swap(a[1]), x)):
                c = self.n.counter(l)
                if not c:
                    continue
                st = s(c[0])
                if c[1] == 1 and o in ("lt", "ne", "ge", "eq"):
                    out.append(f"next({self.n.rng_of(st, k)}) is {'Some' if o in ('lt', 'ne') else 'None'}")
                elif c[1] == -1 and (o, k) in (("gt", "0"), ("ne", "0"), ("ge", "1"), ("le", "0"), ("eq", "0"), ("lt", "1")):
                    out.append(f"next({self.n.rng_of('0', st, True)}) is {'Some' if o in ('gt', 'ne', 'ge') else 'None'}")
            return tuple(out)
        if a[0] == "is":
            out = [f"{s(a[1])} is {'/'.join(a[2])}"]
            t = self.v.t(self.n.peel(a[1]))
            q = self.n.seq_access(t) or (t[0] == "call" and t[1].split("::")[-1] in ("last", "last_mut", "back", "back_mut") and len(t[2]) == 1 and (t[2][0], None))
            if q and tuple(a[2]) in (("Some",), ("None",)):
                b, yes = s(q[0]), a[2][0] == "Some"
                if q[1] is None:
                    out += self.empty_strs(b, not yes)
                else:
                    i = s(q[1])
                    out += [f"{i} lt len({b})", f"len({b}) gt {i}"] if yes else [f"{i} ge len({b})", f"len({b}) le {i}"]
                    if i == "0":
                        out += self.empty_strs(b, not yes)
            return tuple(out)
        if a[0] == "bool":
            r = s(a[1])
            if r.startswith("is_empty("):
                return tuple(dict.fromkeys([("" if a[2] else "!") + r] + self.empty_strs(r[9:-1], a[2])))
            return (("" if a[2] else "!") + r,)
        if a[0] in ("eqc", "ne", "discr"):
            return (f"{s(a[1])} {a[0]} {a[2]}",)
        return (str(a),)

    def bound(self, v):
        """values a loop counter is compared with (less / not less)"""
        if self._bounds is None:
            self._bounds = {}
            for n in self.p.nodes:
                if n.n.k == "sw":
                    for l, y in n.succ:
                        at = self.fl.atom(n.id, l)
                        if at[0] == "cmp":
                            for x, o, e in ((at[2], at[1], at[3]), (at[3], swap(at[1]), at[2])):
                                if o in ("lt", "ge", "ne", "eq"):
                                    self._bounds.setdefault(self.v.strip(x), set()).add(e)
        return self._bounds.get(v, ())

    _bounds = None

    @staticmethod
    def empty_strs(b, yes):
        if yes:
            return [f"is_empty({b})", f"len({b}) eq 0", f"0 eq len({b})", f"len({b}) lt 1", f"len({b}) le 0"]
        return [f"!is_empty({b})", f"len({b}) ne 0", f"0 ne len({b})", f"len({b}) gt 0", f"0 lt len({b})", f"len({b}) ge 1"]

    def edges(self):
        for n in self.p.nodes:
            if n.n.k == "sw":
                for l, y in n.succ:
                    yield n.id, l, y, self.atom_strs(n.id, l)

    def must(self, targets):
        """every condition crossed on all paths from the entry to any of the target nodes"""
        targets = {t if isinstance(t, int) else t.pid for t in (targets if isinstance(targets, (list, set, tuple)) else [targets])}
        cand = {}
        for i, l, y, ss in self.edges():
            cand.setdefault(ss[0], (set(), ss))[0].add((i, l))
        out = set()
        for s0, (cut, ss) in cand.items():
            r = self.fl.reach([self.p.entry], avoid_edge=lambda n, l, y: (n.id, l) in cut)
            if not (r & targets):
                out.update(ss)
        return out

    def reach(self, srcs, **kw):
        return self.fl.reach(srcs, **kw)

    def edges_matching(self, pred):
        """edges one of whose renderings satisfies PRED (callable or regex)"""
        if isinstance(pred, str):
            rx = re.compile(pred)
            pred = lambda s: rx.search(s)
        out = set()
        for i, l, y, ss in self.edges():
            if any(pred(s) for s in ss):
                out.add((i, l))
        return out

    def forced(self, pids, pred, within=()):
        """every way to PIDS crosses an edge satisfying PRED; inside a loop over one of WITHIN, also in the iteration at hand"""
        pids = [p if isinstance(p, int) else p.pid for p in (pids if isinstance(pids, (list, set, tuple)) else [pids])]
        cut = self.edges_matching(pred)
        if self.paths_avoiding(pids, cut_edges=cut) is not None:
            return False
        more = {(i, l) for i, l, y, ss in self.edges() if any(s in (f"next({c}) is Some",) for c in within for s in ss)}
        for i, l in more:
            for ll, y in self.p.nodes[i].succ:
                if ll == l and self.paths_avoiding(pids, cut_edges=cut | more, start=y) is not None:
                    return False
        return True

    def orders(self, x, y, resets=()):
        """possible orders of the values matching regexes X and Y at each node: {node: set of frozensets}; crossing RESETS (edges or nodes) forgets"""
        rx = re.compile(rf"^{x} (?P<o>gt|ge|eq|le|lt|ne) {y}$")
        full = frozenset(("gt", "eq", "lt"))
        lab = {}
        for i, l, t, ss in self.edges():
            ks = [ORD[m.group("o")] for s in ss for m in [rx.match(s)] if m]
            if ks:
                lab[(i, l)] = frozenset(full.intersection(*ks))
        seen = {self.p.entry: {full}}
        work = [(self.p.entry, full)]
        while work:
            n, st = work.pop()
            for l, t in self.p.nodes[n].succ:
                z = full if (n, l) in resets or n in resets else st & lab.get((n, l), full)
                if z and z not in seen.setdefault(t, set()):
                    seen[t].add(z)
                    work.append((t, z))
        return seen

    def only_when(self, pid, x, y, rels, resets=()):
        """PID is reached only when the order of X and Y (regex sources) is one of RELS"""
        return all(z <= set(rels) for z in self.orders(x, y, resets).get(pid, ()))

    def paths_avoiding(self, target_pids, cut_nodes=(), cut_edges=(), start=None):
        """a path from entry to a target that avoids the nodes and edges, or None"""
        cn, ce, tp = set(cut_nodes), set(cut_edges), set(target_pids)
        st = self.p.entry if start is None else start
        r = self.fl.trace(st, lambda n: n.id in tp, avoid_node=(lambda n: n.id in cn) if cn else None, avoid_edge=(lambda n, l, y: (n.id, l) in ce) if ce else None)
        return r

    def describe(self, path):
        return self.fl.describe(path)

    def ordered_before(self, a, b):
        """no path from b to a (a always happens first, when both happen)"""
        return a not in self.reach([b]) or a == b

    def in_loop(self, pid):
        succ = [y for _, y in self.p.nodes[pid].succ]
        return pid in self.reach(succ)


# --- whole-crate helpers -------------------------------------------------
def fn_by_ty(F, crate, head, name, trait=None):
    return F.method(crate, head, name, trait)


def all_bodies(F, crate, closures=True):
    for f in F.fns.values():
        if f["crate"] == crate and "blocks" in f and (closures or f["kind"] != "Closure"):
            yield f


def call_sites(F, crate, *names):
    """(fn, callee info, term) for every call site in the crate whose resolved callee matches"""
    for f in all_bodies(F, crate):
        for b in f["blocks"]:
            if b.get("cleanup"):
                continue
            t = b["t"]
            if t["k"] == "call" and "f" in t and (not names or callee_is(t["f"], *names)):
                yield f, t["f"], t
