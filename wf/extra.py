"""Further views of an analysed root: byte streams built up by appending, value ranges, abort sites."""
import re
from .graph import short
from .facts import ty_head

APPEND = {"input", "update", "extend", "extend_from_slice", "push", "write_all", "append", "chain_update", "push_str", "put_slice", "put_u8", "write_u8", "write_u16", "write_u32", "write_u64", "push_back"}
FRESH = {"Vec::new", "Vec::with_capacity", "vec::from_elem", "String::new", "String::with_capacity", "Sha256::new", "Default::default", "VecDeque::new", "Digest::new", "BytesMut::new", "BytesMut::with_capacity"}
INTS = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1), "u128": (0, 2**128 - 1),
        "i8": (-(2**7), 2**7 - 1), "i16": (-(2**15), 2**15 - 1), "i32": (-(2**31), 2**31 - 1), "i64": (-(2**63), 2**63 - 1), "isize": (-(2**63), 2**63 - 1), "i128": (-(2**127), 2**127 - 1), "bool": (0, 1), "char": (0, 0x10FFFF)}


def item_str(s):
    if s.startswith("vec["):
        s = s[3:]
    if s.startswith("b'") or s.startswith('b"'):
        try:
            return "[" + ", ".join(str(x) for x in eval(s)) + "]"
        except Exception:
            return s
    return s


def split_top(s):
    """comma-separated parts outside any bracket"""
    out, depth, start = [], 0, 0
    for i, ch in enumerate(s):
        depth += (ch in "([{") - (ch in ")]}")
        if ch == "," and not depth:
            out.append(s[start:i].strip())
            start = i + 1
    return out + ([s[start:].strip()] if s[start:].strip() else [])


class Bytes:
    """what is appended, in order, to one container or hasher before a given point"""

    def __init__(self, A):
        self.A = A
        self._app = None

    def bases(self, v):
        A = self.A
        v = A.n.peel(v)
        if A.v.t(v)[0] == "phi":
            return {self.unref(o) for o in A.n.phi_ops(v)}
        return {self.unref(v)}

    def unref(self, v):
        """a reference to the memory some pointer denotes is that pointer"""
        A = self.A
        for _ in range(8):
            t = A.v.t(v)
            if t[0] in ("ref", "init"):
                loc = t[2] if t[0] == "ref" else (t[1], t[2])
                if loc[0][0] == "M" and loc[1] == ():
                    w = A.n.peel(loc[0][1])
                    if w != v:
                        v = w
                        continue
            # a cursor over borrowed memory writes into that memory
            if t[0] == "call" and t[1] in ("Cursor::new", "BufWriter::new") and len(t[2]) == 1 and "&mut" in "".join(A.v.callinfo[v][0].get("ga", [])):
                v = A.n.peel(t[2][0])
                continue
            break
        return v

    def all_appends(self):
        if self._app is None:
            out = []
            for c in self.A.calls():
                if c.f["name"] in APPEND and c.nargs >= 2:
                    out.append((c, self.bases(c.val(0))))
            self._app = out
        return self._app

    def appends(self, base):
        return [c for c, bs in self.all_appends() if base in bs]

    def language(self, v, target, depth=4):
        """set of tuples of strings: the byte strings v may hold at TARGET, as sequences of components"""
        A = self.A
        out = set()
        for b in self.bases(v):
            fixed = self.fixed(b, target, depth)
            if fixed is not None:
                out.add(fixed)
                continue
            for pre in self.base_items(b, target, depth):
                app = self.appends(b)
                for seq in self.sequences(app, target, depth, self.origin(b)):
                    out.add(simplify(pre + self.unroll(seq, app, target)))
        return out

    def unroll(self, seq, app, target):
        """a completed loop over a list written out in the source, appending each of its parts, is those parts in order"""
        A = self.A
        out = ()
        for x in seq:
            m = re.fullmatch(r"(to_[bl]e_bytes)\((elem\(.*\))\)\*", x)
            wrap, y_ = (m.group(1), m.group(2) + "*") if m else ("", x)
            m = re.fullmatch(r"elem\(((?:array|vec)?\[(.*)\])\)\*", y_)
            if m:
                more = A.edges_matching(lambda s: s == f"next({m.group(1)}) is Some")
                done = A.edges_matching(lambda s: s == f"next({m.group(1)}) is None")
                ids = {c.pid for c in app}
                heads = {i for i, l in more}
                full = bool(more)
                for i, l in more:
                    for ll, y in A.p.nodes[i].succ:
                        if ll == l and (A.paths_avoiding(heads | {target}, cut_nodes=ids, start=y) is not None or A.paths_avoiding([target], cut_edges=done, start=y) is not None):
                            full = False
                if full:
                    out += tuple(f"{wrap}({item_str(p)})" if wrap else item_str(p) for p in split_top(m.group(2)))
                    continue
            m = re.fullmatch(r"\[elem\((.*)\)\]\*", x)
            if m and seq.count(x) == 1:
                more = A.edges_matching(lambda s: s == f"next({m.group(1)}) is Some")
                done = A.edges_matching(lambda s: s == f"next({m.group(1)}) is None")
                heads = {i for i, l in more}
                ids = {c.pid for c in app if c.pid in A.reach([y for i, l in more for ll, y in A.p.nodes[i].succ if ll == l]) and heads & set(A.reach([c.pid]))}
                full = bool(more)
                for i, l in more:
                    for ll, y in A.p.nodes[i].succ:
                        if ll == l and (A.paths_avoiding(heads | {target}, cut_nodes=ids, start=y) is not None or A.paths_avoiding([target], cut_edges=done, start=y) is not None):
                            full = False
                for c in ids:
                    for ll, y in A.p.nodes[c].succ:
                        if A.paths_avoiding(ids, cut_edges=more, start=y) is not None:
                            full = False
                if full:
                    out += (m.group(1),)
                    continue
            out += (x,)
        return out

    def fixed(self, b, target, depth):
        """content of a constant-size buffer filled by copies into adjacent constant ranges"""
        A = self.A
        t = A.v.t(b)
        if t[0] == "repeat":
            size = re.match(r"^(\d+)", str(t[2]))
            size = int(size.group(1)) if size else None
        elif t[0] == "call" and t[1].split("::")[-1] == "from_elem" and len(t[2]) == 2:
            c = A.v.t(A.v.strip(t[2][1]))
            size = c[1] if c[0] == "const" and isinstance(c[1], int) else None
        else:
            return None
        if not size:
            return None
        nm = A.s(b)
        parts, roots = {}, set()
        for e in A.effects():
            if e.op not in ("copy_from_slice", "clone_from_slice") or e.idx != 0:
                continue
            c = e.call
            m = re.fullmatch(re.escape(nm) + r"(?:\[(?:RangeTo\{end: (\d+)\}|RangeFrom\{start: (\d+)\}|Range\{start: (\d+), end: (\d+)\}|RangeFull.*)\])?", c.arg(0))
            m2 = re.fullmatch(r"split_at_mut\(" + re.escape(nm) + r", (\d+)\)\.([01])", c.arg(0))
            if m:
                lo = int(m.group(2) or m.group(3) or 0)
                hi = int(m.group(1) or m.group(4) or size)
            elif m2:
                k = int(m2.group(1))
                lo, hi = (0, k) if m2.group(2) == "0" else (k, size)
            elif nm in c.arg(0):
                return None
            else:
                continue
            if lo in parts or A.in_loop(c.pid):
                return None
            if A.paths_avoiding([target], cut_nodes=[c.pid]) is not None:
                return None
            parts[lo] = (hi, c)
            roots.add(e.root)
        if not parts or len(roots) != 1:
            return None
        at, out = 0, ()
        fill = A.v.t(A.v.strip(t[1] if t[0] == "repeat" else t[2][0]))
        while at < size:
            if at not in parts:
                if fill[:2] != ("const", 0):
                    return None
                out += ("[0]",)  # never written: still what the buffer was made of
                at += 1
                continue
            hi, c = parts.pop(at)
            out += self.item(c, depth - 1) if depth > 0 else (A.s(c.val(1)),)
            at = hi
        return out if at == size and not parts else None

    def origin(self, b):
        """the call that creates the container B, when it is one"""
        A = self.A
        if A.v.t(b)[0] == "call":
            p = A.v.callinfo.get(b, (0, 0, 0, None))[3]
            return p
        return None

    def base_items(self, b, target, depth):
        A = self.A
        t = A.v.t(b)
        if t[0] == "call":
            nm = t[1].split("::")[-1]
            if t[1] in FRESH or nm in ("new", "with_capacity", "from_elem", "new_varkey", "default"):
                return [()]
            if nm == "concat" and t[2]:
                x = A.v.t(A.n.peel(t[2][0]))
                if x[0] == "agg" and x[1] == "array":
                    return [tuple(item_str(A.s(e)) for e in x[4])]
            if nm in ("collect", "from_iter") and t[2]:
                x = A.v.t(A.n.peel(t[2][0]))
                if x[0] == "call" and x[1].split("::")[-1] == "chain":
                    return self.base_items(A.n.peel(t[2][0]), target, depth)
            if nm == "chain" and len(t[2]) == 2:
                r = []
                for p in self.language(t[2][0], target, depth - 1):
                    for q in self.language(t[2][1], target, depth - 1):
                        r.append(p + q)
                return r
        if t[0] == "proj":
            # Ok payload of a fallible constructor
            x = t
            while x[0] == "proj":
                y = A.n.peel(x[1])
                x = A.v.t(y)
            if x[0] == "call" and x[1].split("::")[-1] in ("new_varkey", "new_from_slice", "new"):
                return [()]
        if t[0] == "agg" and t[1] == "array" and not t[4]:
            return [()]
        s = item_str(A.s(b))
        return [()] if s in ("vec[]", "[]", "b''") else [(s,)]

    def item(self, c, depth):
        A = self.A
        v = c.val(1)
        nm = c.f["name"]
        s = item_str(A.s(v))
        if nm in ("write_u16", "write_u32", "write_u64"):
            ga = " ".join(c.f.get("ga", []))
            return (("to_be_bytes(" if "BigEndian" in ga else "to_le_bytes(") + s + ")",)
        if nm in ("push", "put_u8", "write_u8", "push_back"):
            s = f"[{s}]"
        elif depth > 0:
            L = self.language(v, c.pid, depth - 1)
            if len(L) == 1:
                return next(iter(L))
        return (s,)

    def sequences(self, app, target, depth, origin=None):
        """orders in which the append calls APP may run before TARGET (loops starred); ORIGIN is the
        call creating the container: another run of it makes another container"""
        A = self.A
        if not app:
            return [()]
        ids = {c.pid: c for c in app}
        # merge product copies of one source call
        item = {p: self.item(c, depth) for p, c in ids.items()}
        succ = {}

        def nxt(p):
            if p not in succ:
                first = p if p is not None else origin
                start = [y for _, y in A.p.nodes[first].succ] if first is not None else [A.p.entry]
                seen = A.reach(start, avoid_node=lambda n: n.id in ids or n.id == origin)
                # reach() excludes avoided nodes: find those adjacent
                r = set()
                for q in start:
                    if q in ids:
                        r.add(q)
                for x in seen:
                    for _, y in A.p.nodes[x].succ:
                        if y in ids:
                            r.add(y)
                succ[p] = (r, target in seen or target in start)
            return succ[p]

        if origin is None:
            cyc = {p for p in ids if A.in_loop(p)}
        else:
            cyc = {p for p in ids if p in A.reach([y for _, y in A.p.nodes[p].succ], avoid_node=lambda n: n.id == origin)}
        res = set()
        count = [0]

        def dfs(p, used, seq):
            count[0] += 1
            if count[0] > 20000:
                return
            r, t = nxt(p)
            if t:
                res.add(seq)
            for q in r:
                if q in used:
                    continue
                it = item[q]
                if q in cyc:
                    it = tuple(x + "*" if isinstance(x, str) else x + ("*",) for x in it)  # Reads has tuple items
                dfs(q, used | {q}, seq + it)

        dfs(None, frozenset(), ())
        # a loop may run zero times: drop sequences that are another one minus its starred items
        out = set(res)
        for s in res:
            for o in res:
                if s != o and len(s) < len(o) and sub_star(s, o):
                    out.discard(s)
        return sorted(out)


def sub_star(s, o):
    i = 0
    for x in o:
        if i < len(s) and s[i] == x:
            i += 1
        elif not (x.endswith("*") if isinstance(x, str) else x[-1] == "*"):
            return False
    return i == len(s)


def simplify(seq):
    out = []
    for x in seq:
        if x in ("[]", "vec[]"):
            continue
        out.append(x)
    return tuple(out)


# --- value ranges -------------------------------------------------------------
def rng(A, v, depth=12):
    """(lo, hi) of an integer term, or None"""
    V = A.v
    if depth <= 0:
        return None
    v = V.strip(v)
    t = V.t(v)
    k = t[0]
    if k == "const":
        return (t[1], t[1]) if isinstance(t[1], int) else None
    if k == "cast":
        r = rng(A, t[2], depth - 1)
        to = INTS.get(t[1])
        fr = INTS.get(t[3]) if len(t) > 3 else None
        if r is None:
            r = fr
        elif fr:
            r = (max(r[0], fr[0]), min(r[1], fr[1]))
        if r is None:
            return to
        if to and to[0] <= r[0] and r[1] <= to[1]:
            return r
        return to
    if k == "bin":
        a, b = rng(A, t[2], depth - 1), rng(A, t[3], depth - 1)
        if t[1] == "BitAnd":
            c = [x for x in (a, b) if x and x[0] >= 0]
            return (0, min(x[1] for x in c)) if c else None
        if t[1] == "Rem" and b and b[0] > 0:
            return (0, b[1] - 1)
        if a is None or b is None:
            return None
        if t[1] == "Add":
            return (a[0] + b[0], a[1] + b[1])
        if t[1] == "Sub":
            return (a[0] - b[1], a[1] - b[0])
        if t[1] == "Mul":
            c = [x * y for x in a for y in b]
            return (min(c), max(c))
        if t[1] == "Shr" and a[0] >= 0 and b[0] >= 0:
            return (a[0] >> min(b[1], 200), a[1] >> b[0])
        if t[1] == "Div" and a[0] >= 0 and b[0] > 0:
            return (a[0] // b[1], a[1] // b[0])
        return None
    if k == "call":
        nm = t[1].split("::")[-1]
        if nm in ("len", "depth"):
            return (0, 2**63 - 1)
        if nm in ("min",) and len(t[2]) == 2:
            a, b = rng(A, t[2][0], depth - 1), rng(A, t[2][1], depth - 1)
            his = [x[1] for x in (a, b) if x]
            return (min(x[0] for x in (a, b)) if a and b else 0, min(his)) if his else None
        f, args, deep, p = V.callinfo.get(v, ({}, (), (), None))
        if nm in ("from", "into") and len(t[2]) == 1:
            ty = " ".join(f.get("ga", []))
            r = rng(A, t[2][0], depth - 1)
            if r is None:
                m = [INTS[x] for x in re.findall(r"\b[ui](?:8|16|32|64|128|size)\b", ty)]
                return min(m, key=lambda x: x[1] - x[0]) if m else None
            return r
        if nm == "read_u8":
            return (0, 255)
    if k == "proj":
        # payload of a fallible call
        y, x = None, t
        while x[0] == "proj":
            y = V.strip(x[1])
            x = V.t(y)
        if x[0] == "call":
            nm = x[1].split("::")[-1]
            if nm == "read_u8":
                return (0, 255)
            if nm == "try_from":
                f = V.callinfo[y][0]
                to = INTS.get(f.get("ga", [""])[1 if f["name"] == "try_into" and len(f["ga"]) > 1 else 0])
                r = rng(A, x[2][0], depth - 1)
                if to and r:
                    return (max(to[0], r[0]), min(to[1], r[1]))
                return to or r
    if k == "phi":
        rs = []
        for o in A.n.phi_ops(v):
            r = rng(A, o, depth - 4)
            if r is None:
                return None
            rs.append(r)
        return (min(r[0] for r in rs), max(r[1] for r in rs)) if rs else None
    return None


PANICKY = {"split_at", "split_at_mut", "copy_from_slice", "clone_from_slice", "split_off", "swap_remove", "chunks", "chunks_exact", "windows", "step_by", "swap", "copy_within", "rotate_left", "rotate_right"}


def contradictory(ms):
    """conditions that cannot hold together: a key both present and absent"""
    for s in ms:
        m = re.match(r"^(?:get(?:_mut)?|remove)\((.*)\) is None$", s)
        if m and f"contains_key({m.group(1)})" in ms:
            return True
    return False


def refined(A, v, pid, r):
    """range R of value V narrowed by the comparisons with constants that hold whenever PID runs"""
    lo, hi = r
    x = A.s(v)
    for s in A.must([pid]):
        for m, flip in ((re.fullmatch(re.escape(x) + r" (lt|le|gt|ge|eq) (\d+)", s), False), (re.fullmatch(r"(\d+) (lt|le|gt|ge|eq) " + re.escape(x), s), True)):
            if not m:
                continue
            op, c = (m.group(1), int(m.group(2))) if not flip else ({"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq"}[m.group(2)], int(m.group(1)))
            if op in ("lt", "le"):
                hi = min(hi, c - (op == "lt"))
            elif op in ("gt", "ge"):
                lo = max(lo, c + (op == "gt"))
            else:
                lo, hi = max(lo, c), min(hi, c)
    return (lo, hi)


def counter(A, v):
    """a number that starts at small constants and only ever grows by small constants"""
    work, seen, grew = [v], set(), False
    small = lambda t: t[0] == "const" and isinstance(t[1], int) and not isinstance(t[1], bool) and 0 <= t[1] <= 1 << 32
    while work:
        v = A.n.peel(work.pop())
        if v in seen:
            continue
        seen.add(v)
        t = A.v.t(v)
        if t[0] == "phi":
            work += list(A.n.phi_ops(v))
        elif t[0] == "bin" and t[1] == "Add" and small(A.v.t(A.n.peel(t[3]))):
            work.append(t[2])
        elif not small(t):
            return False
    return True


SHRINKS = {"clear", "truncate", "pop", "pop_back", "pop_front", "remove", "swap_remove", "drain", "retain", "retain_mut", "split_off", "resize", "assign", "take", "replace", "set_len", "dedup"}


def least_len(ms, b):
    """least length of sequence B under conditions MS"""
    L, n = re.escape(f"len({b})"), 0
    for s in ms:
        if s in (f"!is_empty({b})", f"first({b}) is Some", f"last({b}) is Some") or re.fullmatch(r"(ends|starts)_with\(" + re.escape(b) + r", (\d+|'.+')\)", s):
            n = max(n, 1)
        m = re.fullmatch(L + r" (eq|ge|gt|ne) (\d+)", s) or re.fullmatch(r"(\d+) (eq|le|lt|ne) " + L, s)
        if m:
            op, c = (m.group(1), m.group(2)) if m.group(2).isdigit() else (m.group(2), m.group(1))
            c = int(c)
            n = max(n, c + 1 if op in ("gt", "lt") else c if op != "ne" else int(c == 0))
    odd = [s for s in ms if s in (f"BitAnd(1, len({b})) ne 1", f"1 ne BitAnd(1, len({b}))", f"BitAnd(1, len({b})) eq 0", f"0 eq BitAnd(1, len({b}))", f"Rem(len({b}), 2) eq 0")]
    return 2 if n == 1 and odd else n


def in_bounds(A, pid, b, i):
    """index I of sequence B is known to exist: a walk over the positions of B, or a comparison with its length on every path"""
    si = A.s(i)
    if any(e.op in SHRINKS and e.loc == b for e in A.effects()):
        return False
    if si in (f"idx({b})", f"ridx({b})") and A.n.counter(i) is None:
        return True
    ms = A.must([pid])
    if f"{si} lt len({b})" in ms:
        return True
    t = A.v.t(A.n.peel(i))
    n = least_len(ms, b)
    if t[0] == "const" and isinstance(t[1], int) and 0 <= t[1] < n:
        return True
    if n >= 1 and si in (f"Shr(len({b}), 1)", f"Div(len({b}), 2)"):
        return True
    if si in (f"Sub(Shr(len({b}), 1), 1)", f"Sub(Div(len({b}), 2), 1)", f"Sub(len({b}), 1)") and n >= 1:
        return True
    c = A.n.counted(b, i)
    return c == "down" and any(s.endswith(" is Some") and s.startswith(f"next(rev({b}))") for s in ms)


RNG = re.compile(r"^(.*)\[(?:RangeTo\{end: (\d+)\}|RangeFrom\{start: (\d+)\}|Range\{start: (\d+), end: (\d+)\}|RangeFull.*)\]$")


def fixed_len(A, s):
    """length of the bytes S stands for, when its construction or its type fixes it"""
    m = re.fullmatch(r"from_elem\(\d+, (\d+)\)|repeat\(\d+, (\d+)\)", s)
    if m:
        return int(m.group(1) or m.group(2))
    m = RNG.match(s)
    if m:
        n = fixed_len(A, m.group(1))
        lo, hi = int(m.group(3) or m.group(4) or 0), int(m.group(2) or m.group(5) or (n or 0))
        return hi - lo if n is not None and lo <= hi <= n else None
    m = re.fullmatch(r"self\.(\w+)", s)
    if m:
        ty = A.fn["locals"][1]["ty"].lstrip("&").replace("mut ", "").split("<")[0].split("::")[-1] if A.fn["args"] else ""
        tys = {x["ty"] for k, d in A.g.F.adts.items() if k.split("::")[-1] == ty and k.split("::")[0] == A.fn["path"].split("::")[0] for x in d["variants"][0]["fields"] if x["name"] == m.group(1)}
        if len(tys) == 1:
            ty = tys.pop()
            m = re.fullmatch(r"\[u8; (\d+)\]", ty)
            return int(m.group(1)) if m else 32 if ty.split("::")[-1] == "SecretKey" else None
    return None


def abort_sites(A):
    """[(pid, kind, text, proven)] every place where the analysed code may abort the thread"""
    out = []
    for n in A.p.nodes:
        g = n.n
        if g.k == "panic":
            out.append((n.id, "panic", str(g.aux or "unwrap/expect"), contradictory(A.must([n.id]))))
        elif g.k == "call" and not g.succ and g.f["name"] not in ("exit", "abort"):
            out.append((n.id, "panic", short(g.f), False))
        elif g.k == "assert":
            m = g.aux
            ok = False
            txt = m
            if m.startswith("overflow:"):
                vals = [A.v.operand(a, n.id) for a in g.args]
                tys = [A.g.optype(a) for a in g.args]
                ty = next((t for t in tys if t in INTS), None)
                rs = []
                for v, t in zip(vals, tys):
                    r = rng(A, v)
                    b = INTS.get(t)
                    if r is None:
                        r = b
                    elif b:
                        r = (max(r[0], b[0]), min(r[1], b[1]))
                    rs.append(refined(A, v, n.id, r) if r else r)
                txt = m[9:] + "(" + ", ".join(A.s(v) for v in vals) + ")" + f": {ty}"
                op = m[9:]
                if op == "Add" and ty in ("usize", "u64", "i64", "u128", "i128"):
                    # counting up from a small number by small steps cannot reach the end of 64 bits
                    cs = [A.v.t(A.n.peel(v)) for v in vals]
                    for v, c in ((vals[0], cs[1]), (vals[1], cs[0])):
                        if c[0] == "const" and isinstance(c[1], int) and 0 <= c[1] <= 1024 and counter(A, v):
                            ok = True
                if op == "Sub" and not ok:
                    x, y = A.s(vals[0]), A.v.t(A.n.peel(vals[1]))
                    m = re.fullmatch(r"(Shr\(|Div\(|)len\((.*?)\)(, 1\)|, 2\)|)", x)
                    if m and (m.group(1), m.group(3)) in (("", ""), ("Shr(", ", 1)"), ("Div(", ", 2)")) and y[:1] == ("const",) and isinstance(y[1], int):
                        k = least_len(A.must([n.id]), m.group(2))
                        ok = y[1] <= (k if not m.group(1) else k // 2)
                if not ok and ty and None not in rs:
                    lo, hi = INTS[ty]
                    if op == "Add":
                        ok = rs[0][1] + rs[1][1] <= hi and rs[0][0] + rs[1][0] >= lo
                    elif op == "Sub":
                        ok = rs[0][0] - rs[1][1] >= lo and rs[0][1] - rs[1][0] <= hi
                    elif op == "Mul":
                        c = [x * y for x in rs[0] for y in rs[1]]
                        ok = min(c) >= lo and max(c) <= hi
                    elif op in ("Shl", "Shr"):
                        w = hi.bit_length() + (1 if lo < 0 else 0)
                        ok = rs[1][0] >= 0 and rs[1][1] < w
            elif m in ("div0", "rem0"):
                # the divisor is the operand the assert compares with zero
                t = A.v.t(A.n.peel(A.v.operand(g.op, n.id)))
                if t[0] == "const":
                    ok = not t[1]
                elif t[0] == "bin" and t[1] == "Eq":
                    d = next((x for x, y in ((t[2], t[3]), (t[3], t[2])) if A.v.t(A.n.peel(y)) == ("const", 0) or A.v.t(A.n.peel(y))[:2] == ("const", 0)), None)
                    r = d is not None and rng(A, d)
                    r = r and refined(A, d, n.id, r)
                    ok = bool(r) and (r[0] > 0 or r[1] < 0)
            elif m == "bounds":
                vals = [A.v.operand(a, n.id) for a in g.args]
                txt = "index " + A.s(vals[1]) + " of " + A.s(vals[0])
                L, I = rng(A, vals[0]), rng(A, vals[1])
                ok = bool(L and I and I[1] < L[0])
                m = re.fullmatch(r"len\((.*)\)", A.s(vals[0]))
                if not ok and m:
                    ok = in_bounds(A, n.id, m.group(1), vals[1])
            out.append((n.id, "assert", txt, ok))
        elif g.k == "call":
            nm = g.f["name"]
            if nm in ("index", "index_mut") and "HashMap" not in str(g.f.get("ga")):
                i = A.v.t(A.v.strip(A.v.arg(n.id, 1))) if len(g.args) == 2 else ("",)
                if not (i[0] == "agg" and i[1].endswith("RangeFull") or "RangeFull" in str(i)):
                    b, r = A.s(A.v.arg(n.id, 0)), A.s(A.v.arg(n.id, 1))
                    out.append((n.id, "index", f"{short(g.f)} {b}[{r}]", len(g.args) == 2 and (in_bounds(A, n.id, b, A.v.arg(n.id, 1)) or fixed_len(A, f"{b}[{r}]") is not None)))
            elif nm in PANICKY and g.f.get("krate") in ("core", "alloc", "std"):
                out.append((n.id, "call", short(g.f) + "(" + ", ".join(A.s(A.v.arg(n.id, i)) for i in range(len(g.args))) + ")", nm in ("copy_from_slice", "clone_from_slice") and same_len(A, n.id)))
    return out


def same_len(A, pid):
    x, y = (fixed_len(A, A.s(A.v.arg(pid, i))) for i in (0, 1))
    return x is not None and x == y


# --- value sets ------------------------------------------------------------------
def inter(a, lo, hi):
    return [(max(x, lo), min(y, hi)) for x, y in a if max(x, lo) <= min(y, hi)]


def union(a, b):
    xs = sorted(a + b)
    out = []
    for x, y in xs:
        if out and x <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], y))
        else:
            out.append((x, y))
    return out


def constrain(A, atom, is_expr, dom):
    """DOM restricted by a condition about the expression recognised by is_expr"""
    k = atom[0]
    V = A.v

    def num(v):
        r = rng(A, v)
        return r[0] if r and r[0] == r[1] else None

    if k == "cmp":
        op, x, y = atom[1], atom[2], atom[3]
        if is_expr(y) and num(x) is not None:
            x, y = y, x
            op = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}[op]
        if not is_expr(x) or num(y) is None:
            return dom
        c = num(y)
        B = 2**130
        return {"lt": lambda: inter(dom, -B, c - 1), "le": lambda: inter(dom, -B, c), "gt": lambda: inter(dom, c + 1, B), "ge": lambda: inter(dom, c, B), "eq": lambda: inter(dom, c, c),
                "ne": lambda: inter(dom, -B, c - 1) + inter(dom, c + 1, B)}[op]()
    if k == "bool":
        t = V.t(V.strip(atom[1]))
        if t[0] == "call" and t[1].split("::")[-1] == "contains" and len(t[2]) == 2 and is_expr(t[2][1]):
            r = V.t(A.n.peel(t[2][0]))
            if r[0] == "agg" and r[1].split("::")[-1] in ("RangeInclusive", "Range", "RangeFrom", "RangeTo", "RangeToInclusive"):
                f = dict(zip(r[3], r[4]))
                lo = num(f["start"]) if "start" in f else -(2**130)
                hi = num(f["end"]) if "end" in f else 2**130
                if lo is None or hi is None:
                    return dom
                if r[1].split("::")[-1] in ("Range", "RangeTo"):
                    hi -= 1
                return inter(dom, lo, hi) if atom[2] else inter(dom, -(2**130), lo - 1) + inter(dom, hi + 1, 2**130)
        if t[0] == "call" and t[1].split("::")[-1] == "is_empty" and is_expr(None, t[2][0]):
            return inter(dom, 0, 0) if atom[2] else inter(dom, 1, 2**130)
    if k == "eqc" and is_expr(atom[1]):
        try:
            c = int(atom[2])
            return inter(dom, c, c)
        except Exception:
            return dom
    if k == "ne" and is_expr(atom[1]):
        try:
            for c in map(int, atom[2]):
                dom = inter(dom, -(2**130), c - 1) + inter(dom, c + 1, 2**130)
        except Exception:
            pass
    return dom


def domain(A, expr, targets, full, avoid=(), start=None):
    """values of the integer expression (rendered EXPR) with which a target can be reached: union of intervals"""
    targets = {t if isinstance(t, int) else t.pid for t in targets}

    def is_expr(v, of=None):
        if v is None:
            return f"len({A.s(of)})" == expr
        return A.s(v) == expr

    avoid = {t if isinstance(t, int) else t.pid for t in avoid}
    start = [A.p.entry] if start is None else list(start)
    st = {i: ([full] if not isinstance(full, list) else full) for i in start}
    work = list(start)
    while work:
        i = work.pop()
        n = A.p.nodes[i]
        for l, y in n.succ:
            if y in avoid:
                continue
            d = st[i]
            if n.n.k == "sw":
                d = constrain(A, A.fl.atom(i, l), is_expr, d)
            if not d:
                continue
            old = st.get(y, [])
            new = union(old, d)
            if new != old:
                st[y] = new
                work.append(y)
    out = []
    for t in targets:
        out = union(out, st.get(t, []))
    return out


# --- readers ---------------------------------------------------------------------
READ = {"read_u8", "read_u16", "read_u32", "read_u64", "read_u32_into", "read_u16_into", "read_u64_into", "read_exact", "read_to_end", "read", "set_position", "seek", "consume", "get_u8", "get_u32", "read_to_string"}


class Reads(Bytes):
    """what is read, in order, from one cursor before a given point: tuples of (operation, endianness, destination base)"""

    def all_appends(self):
        if self._app is None:
            self._app = [(c, self.bases(c.val(0))) for c in self.A.calls() if c.f["name"] in READ and c.nargs >= 1]
        return self._app

    def item(self, c, depth):
        ga = " ".join(c.f.get("ga", []))
        end = "be" if "BigEndian" in ga else "le" if "LittleEndian" in ga else ""
        dst = self.A.s(c.val(1)) if c.nargs > 1 else ""
        return ((c.f["name"], end, dst, c.pid),)

    def order(self, base, target):
        out = set()
        for s in self.sequences(self.appends(base), target, 3):
            out.add(s)
        return out


def lin(A, v, depth=12):
    """linear form of an integer term: {rendering of an opaque term or 1: coefficient}"""
    V = A.v
    v = V.strip(v)
    t = V.t(v)
    if t[0] == "const" and isinstance(t[1], int):
        return {1: t[1]}
    if empty_sum(V, v):
        return {}
    if t[0] == "cast":
        to, fr = INTS.get(t[1]), INTS.get(t[3]) if len(t) > 3 else None
        r = rng(A, t[2])
        if not to or fr and to[0] <= fr[0] and fr[1] <= to[1] or r and to[0] <= r[0] and r[1] <= to[1]:
            return lin(A, t[2], depth - 1)
        return {A.s(v): 1}
    if t[0] == "call" and t[1].split("::")[-1] in ("from", "into") and len(t[2]) == 1:
        return lin(A, t[2][0], depth - 1)
    if t[0] == "proj":
        # an integer conversion that succeeded keeps the value
        x, y = t, v
        while x[0] == "proj":
            y = V.strip(x[1])
            x = V.t(y)
        nm = x[1].split("::")[-1] if x[0] == "call" else ""
        if nm in ("try_from", "try_into") and len(x[2]) == 1 and re.search(r"\.Ok\.0$", A.s(v)):
            return lin(A, x[2][0], depth - 1)
        # a checked operation that succeeded has the exact result
        if nm in ("checked_add", "checked_sub") and len(x[2]) == 2 and depth > 0 and A.s(v) == A.s(y) + ".Some.0":
            a, b = lin(A, x[2][0], depth - 1), lin(A, x[2][1], depth - 1)
            r = dict(a)
            for q, c in b.items():
                r[q] = r.get(q, 0) + (c if nm == "checked_add" else -c)
            return {q: c for q, c in r.items() if c}
    if depth > 0 and t[0] == "call" and len(t[2]) == 2 and t[1].split("::")[-1] in ("saturating_add", "wrapping_add", "saturating_sub", "wrapping_sub"):
        a, b = ({q: c for q, c in lin(A, x, depth - 1).items() if c} for x in t[2])
        if not b:
            return a
        if not a and t[1].endswith("_add"):
            return b
    if depth > 0 and t[0] == "bin" and t[1] in ("Add", "Sub", "Mul"):
        a, b = lin(A, t[2], depth - 1), lin(A, t[3], depth - 1)
        if t[1] == "Mul":
            if set(b) <= {1}:
                a, b = b, a
            if set(a) <= {1}:
                k = a.get(1, 0)
                return {x: k * c for x, c in b.items() if k * c}
        else:
            s = 1 if t[1] == "Add" else -1
            r = dict(a)
            for x, c in b.items():
                r[x] = r.get(x, 0) + s * c
            return {x: c for x, c in r.items() if c}
    return {A.s(v): 1}


def lin_atom(A, pid, label):
    """canonical linear facts of an edge: list of (op, frozenset of (term, coefficient), constant): sum + constant op 0, op in ge, eq, ne"""
    at = A.fl.atom(pid, label)
    if at[0] == "bool" and at[2]:
        return [f for c in range_test(A, at) for f in lin_cmp(A, *c)]
    return lin_cmp(A, at[1], at[2], at[3]) if at[0] == "cmp" else []


def range_test(A, at):
    """the comparisons whose conjunction is the membership of a value in a literal range"""
    V = A.v
    t = V.t(V.strip(at[1]))
    if t[0] != "call" or t[1].split("::")[-1] != "contains" or len(t[2]) != 2:
        return []
    r = V.t(A.n.peel(t[2][0]))
    k = r[1].split("::")[-1] if r[0] == "agg" else ""
    if k not in ("RangeInclusive", "Range", "RangeFrom", "RangeTo", "RangeToInclusive"):
        return []
    f, x = dict(zip(r[3], r[4])), A.n.peel(t[2][1])
    out = [("ge", x, A.n.peel(f["start"]))] if "start" in f else []
    return out + ([("le" if "Inclusive" in k else "lt", x, A.n.peel(f["end"]))] if "end" in f else [])


def lin_cmp(A, op, x, y):
    try:
        l, r = lin(A, x), lin(A, y)
    except RecursionError:
        return []
    d = dict(l)
    for t, c in r.items():
        d[t] = d.get(t, 0) - c
    d = {t: c for t, c in d.items() if c}

    def mk(o, s, k):
        q = {t: c * s for t, c in d.items() if t != 1}
        return (o, frozenset(q.items()), d.get(1, 0) * s + k)
    if op == "ge":
        return [mk("ge", 1, 0)]
    if op == "gt":
        return [mk("ge", 1, -1)]
    if op == "le":
        return [mk("ge", -1, 0)]
    if op == "lt":
        return [mk("ge", -1, -1)]
    if op == "eq":
        return [mk("eq", 1, 0), mk("eq", -1, 0), mk("ge", 1, 0), mk("ge", -1, 0)]
    if op == "ne":
        return [mk("ne", 1, 0), mk("ne", -1, 0)]
    return []


def fact(op, terms, const=0):
    """a wanted fact: sum(terms) + const OP 0"""
    t = {k: c for k, c in terms.items() if c}
    if op == "gt":
        op, const = "ge", const - 1
    elif op == "le":
        op, t, const = "ge", {k: -c for k, c in t.items()}, -const
    elif op == "lt":
        op, t, const = "ge", {k: -c for k, c in t.items()}, -const - 1
    return (op, frozenset(t.items()), const)


def poly(A, v, depth=30, wide=False):
    """polynomial over opaque terms: {sorted tuple of terms: coefficient}; widening casts and conversions are transparent"""
    V = A.v
    v = A.n.peel(v)
    t = V.t(v)
    if t[0] == "const" and isinstance(t[1], int) and not isinstance(t[1], bool):
        return {(): t[1]} if t[1] else {}
    if A.s(v) in A.n.names.values():
        return {(A.s(v),): 1}
    if empty_sum(V, v):
        return {}
    nm = A.opaque(A, v) if getattr(A, "opaque", None) else None
    if nm:
        return {(nm,): 1}
    if depth > 0:
        if t[0] == "cast" and t[1] in INTS:
            return poly(A, t[2], depth - 1)
        if t[0] == "call" and len(t[2]) == 1 and t[1].split("::")[-1] in ("from", "into"):
            return poly(A, t[2][0], depth - 1)
        x, y, w = t, v, A.s(v)
        while x[0] == "proj":
            y = V.strip(x[1])
            x = V.t(y)
        if x is not t and x[0] == "call" and len(x[2]) == 1 and x[1].split("::")[-1] in ("try_from", "try_into") and w == A.s(y) + ".Ok.0":
            return poly(A, x[2][0], depth - 1)
        op = l = r = None
        if t[0] == "bin" and t[1] in ("Add", "Sub", "Mul"):
            op, l, r = t[1], t[2], t[3]
        elif x is not t and x[0] == "call" and len(x[2]) == 2 and x[1].split("::")[-1] in ("checked_add", "checked_sub", "checked_mul") and w == A.s(y) + ".Some.0":
            op, l, r = x[1].split("_")[-1].capitalize(), x[2][0], x[2][1]
        elif t[0] == "call" and len(t[2]) == 2 and t[1].split("::")[-1] in ("add", "sub", "mul"):
            op, l, r = t[1].split("::")[-1].capitalize(), t[2][0], t[2][1]
        if op:
            a, b = poly(A, l, depth - 1), poly(A, r, depth - 1)
            out = dict(a) if op != "Mul" else {}
            if op == "Mul":
                for m, c in a.items():
                    for n, d in b.items():
                        k = tuple(sorted(m + n))
                        out[k] = out.get(k, 0) + c * d
            else:
                for n, d in b.items():
                    out[n] = out.get(n, 0) + (d if op == "Add" else -d)
            return {k: c for k, c in out.items() if c}
    return {(A.s(v),): 1}


def empty_sum(V, v):
    t = V.t(v)
    if t[0] == "call" and t[1].split("::")[-1] in ("finish_sum", "finish_count"):
        t = V.t(V.strip(t[2][0]))
        return t[0] == "call" and t[1].split("::")[-1] == "consume_start"
    return False


def polys(A, v):
    """the polynomials a value may be, joins expanded"""
    from .valid import alts
    return {frozenset(poly(A, x).items()) for x in alts(A, v)}


def pol(*terms):
    """the polynomial that is the sum of the given products: (coefficient, name, name…)"""
    out = {}
    for t in terms:
        k = tuple(sorted(t[1:]))
        out[k] = out.get(k, 0) + t[0]
    return frozenset((k, c) for k, c in out.items() if c)


def poly_edges(A, op, want):
    """edges on which WANT op 0 is established (exactly, up to sign)"""
    out = set()
    neg = frozenset((k, -c) for k, c in want)
    sw = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}
    for n in A.p.nodes:
        if n.n.k != "sw":
            continue
        for l, y in n.succ:
            at = A.fl.atom(n.id, l)
            if at[0] != "cmp":
                continue
            a, b = poly(A, at[2]), poly(A, at[3])
            d = dict(a)
            for k, c in b.items():
                d[k] = d.get(k, 0) - c
            d = frozenset((k, c) for k, c in d.items() if c)
            if at[1] == op and d == want or sw[at[1]] == op and d == neg:
                out.add((n.id, l))
    return out


NOT = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}


def range_edges(A, wants):
    """edges on which a value is outside a range, each way of being outside implying one of the wanted facts"""
    out = set()
    for n in A.p.nodes:
        if n.n.k != "sw":
            continue
        for l, y in n.succ:
            at = A.fl.atom(n.id, l)
            if at[0] == "bool" and not at[2]:
                rt = range_test(A, at)
                if rt and all(any(implies(f, w) for f in lin_cmp(A, NOT[o], x, z) for w in wants) for o, x, z in rt):
                    out.add((n.id, l))
    return out


def implies(f, want):
    (o, tt, kk), (op, t, k) = f, want
    return tt == t and (o == op and (kk == k or op == "ge" and kk < k) or op == "ne" and o == "ge" and kk < k)


def fact_edges(A, want, weaker=False):
    """edges whose condition implies WANT (or, with WEAKER, is exactly WANT)"""
    out = set()
    op, t, k = want
    for n in A.p.nodes:
        if n.n.k != "sw":
            continue
        for l, y in n.succ:
            for o, tt, kk in lin_atom(A, n.id, l):
                if tt != t:
                    continue
                if o == op and (kk == k or op == "ge" and kk < k and not weaker):
                    out.add((n.id, l))
                if op == "ne" and o == "ge" and kk < k and not weaker:
                    out.add((n.id, l))
    return out


def implied(A, pid, want):
    """every path from the entry to PID crosses a condition implying WANT"""
    pid = pid if isinstance(pid, int) else pid.pid
    return A.paths_avoiding([pid], cut_edges=fact_edges(A, want)) is None


# --- text -------------------------------------------------------------------
class Text(Bytes):
    """what is written, in order, to one formatter or string before a given point; literals are quoted"""
    APP = {"push_str", "push", "write_str", "write_char", "write_fmt", "add_assign", "extend"}
    ID = {"to_string", "to_owned", "from", "into", "must_use", "as_str", "as_ref", "clone", "deref", "borrow", "to_lowercase_", "as_mut"}

    def all_appends(self):
        if self._app is None:
            self._app = [(c, self.bases(c.val(0))) for c in self.A.calls() if c.f["name"] in self.APP and c.nargs >= 2]
        return self._app

    def language(self, v, target, depth=12):
        return {merge_lits(x) for x in super().language(v, target, depth)}

    def fixed(self, b, target, depth):
        return None

    def origin(self, b):
        A = self.A
        t = A.v.t(b)
        if t[0] == "call" and t[1].split("::")[-1] not in self.ID | {"format"}:
            return super().origin(b)
        return super().origin(b)

    def base_items(self, b, target, depth):
        A = self.A
        t = A.v.t(b)
        if t[0] == "call":
            nm = t[1].split("::")[-1]
            if t[1] in FRESH or nm in ("with_capacity",) or t[1] == "String::new":
                return [()]
            if nm == "format" and t[1].startswith("fmt") and depth > 0:
                return [self.parts(t[2][0], target, depth - 1)]
            if t[1] == "Add::add" and len(t[2]) == 2 and depth > 0:
                p = A.v.callinfo.get(b, (0, 0, 0, None))[3]
                tl = self.value(t[2][1], p if p is not None else target, depth - 1)
                return sorted(x + tl for x in self.language(t[2][0], target, depth - 1))
            if nm in self.ID and t[2] and depth > 0:
                return sorted(self.language(t[2][0], target, depth - 1))
        if t[0] == "const" and t[2] == "str":
            return [(repr(t[1]),)] if t[1] else [()]
        if t[0] in ("param",) and str(t[2]) in ("f", "fmt", "formatter", "_f"):
            return [()]
        if t[0] == "param" and "Formatter" in str(A.fn["locals"][t[1] if isinstance(t[1], int) else 2].get("ty", "")):
            return [()]
        s = A.s(b)
        return [("''",)] if s == "''" else [(s,)]

    def item(self, c, depth):
        A = self.A
        if c.f["name"] == "write_fmt":
            return self.parts(c.val(1), c.pid, depth)
        return self.value(c.val(1), c.pid, depth)

    def value(self, v, pid, depth):
        A = self.A
        t = A.v.t(A.n.peel(v))
        if t[0] == "const" and t[2] == "char":
            x = t[1]
            return (repr(chr(x)) if isinstance(x, int) else repr(x),)
        if depth > 0:
            L = self.language(v, pid, depth - 1)
            if len(L) == 1:
                return next(iter(L))
        return (A.s(v),)

    def parts(self, v, pid, depth):
        A = self.A
        t = A.v.t(A.n.peel(v))
        if t[0] != "call":
            return (A.s(v),)
        if len(t[2]) == 1:
            return self.value(t[2][0], pid, depth)
        k = A.v.t(A.n.peel(t[2][0]))
        args = A.v.t(A.n.peel(t[2][1]))
        raw = k[1] if k[0] == "const" else None
        if isinstance(raw, str) and raw.startswith(("b'", 'b"')):
            raw = eval(raw)
        if not isinstance(raw, (tuple, bytes)) or args[0] != "agg":
            return (A.s(v),)
        out, b, i, n = [], bytes(raw), 0, 0
        while i < len(b):
            x = b[i]
            i += 1
            if x == 0:
                break
            if x < 0x80:
                out.append(repr(b[i:i + x].decode("utf8", "replace")))
                i += x
            elif x == 0x80:
                ln = b[i] | b[i + 1] << 8
                i += 2
                out.append(repr(b[i:i + ln].decode("utf8", "replace")))
                i += ln
            elif x == 0xC0 and n < len(args[4]):
                a = A.v.t(A.n.peel(args[4][n]))
                n += 1
                if a[0] == "call" and a[1].split("::")[-1] == "new_display" and depth > 0:
                    out.extend(self.value(a[2][0], pid, depth - 1))
                else:
                    out.append(A.s(args[4][n - 1]))
            else:
                return (A.s(v),)
        return tuple(out)


def merge_lits(seq):
    out = []
    for x in seq:
        if out and re.match(r"^'.*'$|^\".*\"$", x) and re.match(r"^'.*'$|^\".*\"$", out[-1]) and x[-1] != "*":
            out[-1] = repr(eval(out[-1]) + eval(x))
        elif x not in ("''",):
            out.append(x)
    return tuple(out)
