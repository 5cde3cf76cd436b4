"""History-free canonical rendering of values, and the effects of a function on memory it was given.

s(v) names *where a value comes from*: clones, borrows, conversions between owned/borrowed forms,
iterator adaptors that only walk a collection, and the mutation history of a container are removed, so that
`for x in v.iter()`, `for i in 0..v.len() { v[i] }`, `v.into_iter().for_each(|x| ..)` all render the element
as `elem(v)`.
"""
import re
from .graph import short
from .flow import Values, IDENT

ITER_ID = {"iter", "iter_mut", "into_iter", "by_ref", "peekable", "fuse", "drain", "cloned", "copied", "into_values_iter", "inspect"}
KEYS = {"keys", "into_keys"}
VALS = {"values", "values_mut", "into_values"}

# accessors that only expose the bytes a value consists of
BYTES_ID = {"SecretKey::secret_bytes", "SecretKey::as_ref", "GenericArray::as_slice"}

# compound assignments through a reference: the result is an arithmetic value, not a container with history
OPASSIGN = {"add_assign": "Add", "sub_assign": "Sub", "mul_assign": "Mul", "div_assign": "Div", "rem_assign": "Rem", "bitor_assign": "BitOr",
            "bitand_assign": "BitAnd", "bitxor_assign": "BitXor", "shl_assign": "Shl", "shr_assign": "Shr"}

# calls that only hand out (mutable) access to part of their receiver
ACCESS = {
    "entry", "or_default", "or_insert", "or_insert_with", "or_insert_with_key", "back_mut", "front_mut", "iter_mut", "get_mut", "last_mut", "first_mut",
    "as_mut", "deref_mut", "borrow_mut", "into_mut", "index_mut", "values_mut", "as_mut_slice", "write", "lock",
    "get", "iter", "index", "first", "last", "front", "back", "deref", "as_ref", "borrow", "unwrap", "expect", "split_at_mut", "chunks_mut",
    "by_ref", "next", "rev", "into_iter", "next_back", "peek", "peek_mut", "as_deref_mut", "keys", "values", "drain", "filter", "enumerate", "zip", "skip", "take",
    "unwrap_or_else", "read", "chunks", "chunks_exact", "last_entry", "first_entry", "or_insert_entry", "key",
}


SEQ_GET = {"slice::get", "slice::get_mut", "slice::get_unchecked", "Vec::get", "Vec::get_mut", "VecDeque::get", "VecDeque::get_mut", "array::get"}
SEQ_FIRST = {"slice::first", "slice::first_mut", "Vec::first", "VecDeque::front", "VecDeque::front_mut"}
FRESH_EMPTY = re.compile(r"^(Vec::new\(\)|Vec::with_capacity\(.*\)|with_capacity\(.*\)|vec\[\]|Vec::default\(\)|Default::default\(\))$")

UBITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}

FILLERS = set("""push extend_from_slice extend_from_within push_str insert extend append entry next next_back nth by_ref put delete get_mut iter_mut index_mut deref_mut as_mut values_mut input update
    fill_bytes try_fill_bytes read_exact read read_to_end write_all write write_str write_fmt write_char set_span parse to_tokens copy_from_slice clone_from_slice collect_push
    or_default or_insert or_insert_with retain_drop retain remove remove_entry pop pop_front pop_back reserve borrow_mut as_mut_slice flush chain set_position derive
    replace take into_iter""".split())


ZERO_TO_LEN = re.compile(r"(rev\()?Range\{start: 0, end: len\(((?:[^(){}]|\((?:[^()]|\([^()]*\))*\))*)\)\}\)?")
STRING_TY = re.compile(r"^&?(mut )?(\w+::)*String$")
MAP_TY = re.compile(r"^&?(mut )?(\w+::)*(Hash|BTree|Index)Map<")

class Norm:
    def __init__(self, V):
        self.V = V
        self.memo = {}

    names, name_rx = {}, ()
    bound = None

    def s(self, v, depth=16):
        return self._s(v, depth, ())

    def _s(self, v, depth, seen):
        V = self.V
        v = self.peel(v)
        t = V.t(v)
        if depth <= 0:
            return "…"
        if t[0] == "phi" and v in seen:
            return "μ"
        key = (v, depth, seen)
        r = self.memo.get(key)
        if r is None:
            r = self._render(v, t, depth, seen)
            if self.names:
                r = self.names.get(r) or next((n for x, n in self.name_rx if x.fullmatch(r)), r)
            if len(r) > 3000:
                r = r[:3000] + "…"
            self.memo[key] = r
        return r

    def peel(self, v):
        """strip identity-like wrappers and mutation history"""
        V = self.V
        for _ in range(200):
            v = V.strip(v)
            t = V.t(v)
            if t[0] == "mut":
                if self.opassign(t) or not self.filler(t):
                    return v
                v = t[3]
                continue
            if t[0] == "upd" and self.same_upd(t):
                v = t[1]
                continue
            if t[0] == "phi":
                ops = self.phi_ops(v)
                if len(ops) == 1:
                    v = next(iter(ops))
                    continue
            if t[0] == "call":
                if t[1] in BYTES_ID and t[2]:
                    v = t[2][0]
                    continue
                if t[1] in ("Index::index", "IndexMut::index_mut") and len(t[2]) == 2:
                    i = V.t(V.strip(t[2][1]))
                    if i[0] == "agg" and i[1].endswith("RangeFull") or i[0] == "const" and "RangeFull" in str(i[2]):
                        v = t[2][0]
                        continue
            return v
        return v

    def opassign(self, t):
        """(op) when a 'mut' value is the result of a compound assignment to its location"""
        n = self.V.P.nodes[t[1]].n
        if n.k == "call" and t[2] == 0 and len(n.args) == 2:
            if n.f["name"] == "add_assign" and STRING_TY.match(str(n.f.get("impl_self") or (list(n.f.get("ga", ())) + [""])[0])):
                return None
            return OPASSIGN.get(n.f["name"])
        return None

    def same_upd(self, t):
        """the stored part is what was there before (filled in place)"""
        k = ("same", t)
        if k not in self.memo:
            self.memo[k] = False
            try:
                self.memo[k] = self._s(t[3], 8, ()) == self._s(self.V.projv(t[1], t[2]), 8, ())
            except RecursionError:
                pass
        return self.memo[k]

    def filler(self, t):
        """the mutating call adds to, reads from or walks a container: rules follow such calls themselves"""
        n = self.V.P.nodes[t[1]].n
        if n.k != "call":
            return True
        nm = n.f["name"]
        if nm == "add_assign" and t[2] == 0:
            return True
        if nm in FILLERS or nm.startswith(("read_", "write_", "push_", "put_")) or nm.endswith("_mut"):
            return True
        return n.f.get("krate") in self.V.P.F.crates

    def phi_ops(self, v):
        """distinct history-free operands of a phi, itself excluded"""
        V = self.V
        out = []
        seen = set()
        work = [v]
        while work:
            x = work.pop()
            x = V.strip(x)
            t = V.t(x)
            while t[0] in ("mut", "upd"):
                if t[0] == "mut":
                    if self.opassign(t) or not self.filler(t):
                        break
                    x = V.strip(t[3])
                elif self.same_upd(t):
                    x = V.strip(t[1])
                else:
                    break
                t = V.t(x)
            if x in seen:
                continue
            seen.add(x)
            if t[0] == "phi":
                work.extend(V.phis[x])
            else:
                out.append(x)
        return set(out)

    def iter_base(self, v):
        """(base value, tags) of an iterator value"""
        V = self.V
        tags = []
        for _ in range(60):
            v = self.peel(v)
            t = V.t(v)
            if t[0] == "call" and t[2]:
                nm = t[1].split("::")[-1]
                if nm in ITER_ID:
                    if nm == "drain" and len(t[2]) > 1 and "RangeFull" not in self.s(t[2][1], 4):
                        break
                    v = t[2][0]
                    continue
                if nm in ("rev", "enumerate", "zip", "skip", "take", "chain", "step_by", "chunks", "windows", "chunks_exact") or nm in KEYS | VALS:
                    tags.append((nm, t[2][1:]))
                    v = t[2][0]
                    continue
            if t[0] == "ref":
                # iterator held behind a reference
                break
            break
        return v, tags

    def elem(self, it, path, depth, seen, back=False):
        """rendering of `next(it)` (BACK: `next_back(it)`) followed by PATH (after .Some.0); returns (string, remaining path)"""
        base, tags = self.iter_base(it)
        wrap = ["rev"] if back else []
        path = list(path)
        for j, (nm, extra) in enumerate(tags):  # outermost first
            if nm == "enumerate":
                if path and path[0][0] == "f":
                    e = path.pop(0)
                    if e[1] == 0:
                        b = self._s(base, depth - 1, seen)
                        for w, x in reversed(tags[j + 1:]):
                            if w in ("rev", "skip", "take", "step_by", "chain", "chunks", "windows", "chunks_exact"):
                                b = f"{w}({', '.join([b] + [self._s(y, depth - 1, seen) for y in x])})"
                        return ("ridx(" if wrap.count("rev") % 2 else "idx(") + b + ")", path
                    continue
                wrap.append("enumerate")
                continue
            if nm == "zip":
                if path and path[0][0] == "f":
                    e = path.pop(0)
                    if e[1] == 1:
                        s, path = self.elem(extra[0], path, depth - 1, seen)
                        return s, path
                    continue
                wrap.append("zip")
                continue
            if nm in KEYS:
                return self._wrap(wrap, "elem(" + self._s(base, depth - 1, seen) + ").0"), path
            if nm in VALS:
                return self._wrap(wrap, "elem(" + self._s(base, depth - 1, seen) + ").1"), path
            if nm == "rev":
                wrap.append("rev")
                continue
            a = ", ".join(self._s(x, depth - 1, seen) for x in extra)
            wrap.append((nm, a))
        b = self._s(base, depth - 1, seen)
        for w in reversed(wrap):
            if isinstance(w, tuple):
                b = f"{w[0]}({b}, {w[1]})" if w[1] else f"{w[0]}({b})"
            else:
                b = f"{w}({b})"
        if b.startswith("rev(rev(") and b.endswith("))"):
            b = b[8:-2]
        m = ZERO_TO_LEN.fullmatch(b)
        if m and not path:
            return f"ridx({m.group(2)})" if m.group(1) else f"idx({m.group(2)})", path
        return "elem(" + b + ")", path

    def _wrap(self, wrap, s):
        for w in wrap:
            w0 = w if isinstance(w, str) else w[0]
            s = f"{w0}:{s}"
        return s

    def path_str(self, path, depth, seen):
        return "".join(self.pe(e, depth, seen) for e in path)

    def pe(self, e, depth, seen):
        if e[0] == "f":
            return "." + str(e[2] if len(e) > 2 else e[1])
        if e[0] == "v":
            return "." + e[1]
        if e[0] == "i":
            return "[" + self._s(e[1], depth - 1, seen) + "]"
        if e[0] == "ci":
            return f"[{'-' if e[2] else ''}{e[1]}]"
        if e[0] == "s":
            return f"[{e[1]}..{'-' if e[3] else ''}{e[2]}]"
        return str(e)

    def next_of(self, v):
        """if v is a call to Iterator::next (or next_back) return (iterator value, reversed)"""
        t = self.V.t(v)
        if t[0] == "call" and t[1] in ("Iterator::next", "DoubleEndedIterator::next_back") and t[2]:
            return t[2][0]
        return None

    def from_back(self, v):
        return self.V.t(v)[1] == "DoubleEndedIterator::next_back"

    def with_path(self, v, path, depth, seen):
        """render v followed by path, resolving next(..).Some.0"""
        V = self.V
        path = tuple(path)
        # fold nested proj
        while True:
            v = self.peel(v)
            t = V.t(v)
            if t[0] == "proj":
                path = (t[2],) + path
                v = t[1]
                continue
            if t[0] == "init" and t[1][0] == "M":
                path = t[2] + path
                v = t[1][1]
                continue
            if t[0] == "agg" and path:
                w = V.projv(v, path[:1])
                if V.t(w)[0] != "proj":
                    v, path = w, path[1:]
                    continue
            break
        it = self.next_of(v)
        if it is not None and len(path) >= 2 and path[0] == ("v", "Some") and path[1][0] == "f":
            s, rest = self.elem(it, path[2:], depth, seen, self.from_back(v))
            return s + self.path_str(rest, depth, seen)
        if path and path[0][0] == "i":
            b = self.base(v, depth, seen)
            i = self._s(path[0][1], depth - 1, seen)
            return self.idx(b, i, path[0][1]) + self.path_str(path[1:], depth, seen)
        if len(path) >= 2 and path[0] == ("v", "Some") and path[1][0] == "f":
            a = self.seq_access(t)
            if a and not (a[1] is not None and "Range" in self._s(a[1], 4, ())):
                return self.idx(self._s(a[0], depth - 1, seen), "0" if a[1] is None else self._s(a[1], depth - 1, seen), a[1]) + self.path_str(path[2:], depth, seen)
        return self.base(v, depth, seen) + self.path_str(path, depth, seen)

    def base(self, v, depth, seen):
        return self._s(v, depth, seen)

    def counter(self, v):
        """(start value, step) of a loop counter: a phi of one start value and itself plus or minus one"""
        V = self.V
        v = V.strip(v)
        if V.t(v)[0] != "phi":
            return None
        k = ("counter", v)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        start, step = set(), set()
        for o in V.phis[v]:
            o = V.strip(o)
            t = V.t(o)
            kid = None
            if t[0] == "bin" and t[1] in ("Add", "Sub"):
                kid = (t[1], t[2], t[3])
            elif t[0] == "mut" and self.opassign(t) in ("Add", "Sub"):
                kid = (self.opassign(t), t[3], V.arg(t[1], 1))
            if kid:
                x, y = V.strip(kid[1]), V.strip(kid[2])
                if x == v and V.t(y)[0] == "const" and V.t(y)[1] == 1:
                    step.add(1 if kid[0] == "Add" else -1)
                    continue
                if kid[0] == "Add" and y == v and V.t(x)[0] == "const" and V.t(x)[1] == 1:
                    step.add(1)
                    continue
            start.add(o)
        if len(start) == 1 and len(step) == 1:
            self.memo[k] = (next(iter(start)), next(iter(step)))
        return self.memo[k]

    def counted(self, b, v):
        """'up' when V counts from zero upwards, 'down' when it counts from the length of B to zero"""
        if v is None:
            return None
        c = self.counter(v)
        if c and c[1] == 1 and self.s(c[0]) == "0":
            return "up"
        t = self.V.t(self.V.strip(v))
        if t[0] == "bin" and t[1] == "Sub" and self.V.t(self.V.strip(t[3]))[0] == "const" and self.V.t(self.V.strip(t[3]))[1] == 1:
            c = self.counter(t[2])
            if c and c[1] == -1 and self.s(c[0]) == f"len({b})":
                return "down"
        return None

    @staticmethod
    def rng_of(lo, hi, down=False):
        """rendering of the sequence a counter from LO up to HI (exclusive) walks"""
        m = re.fullmatch(r"len\((.*)\)", hi)
        r = m.group(1) if m and lo == "0" else f"Range{{start: {lo}, end: {hi}}}"
        return f"rev({r})" if down else r

    def idx(self, b, i, v=None):
        """rendering of element I of sequence B"""
        if i == f"idx({b})":
            return f"elem({b})"
        if i == f"ridx({b})":
            return f"elem(rev({b}))"
        c = self.counted(b, v)
        if c:
            return f"elem({b})" if c == "up" else f"elem(rev({b}))"
        if i == f"Sub(len({b}), 1)":
            return f"last({b}).Some.0"
        return f"{b}[{i}]"

    def seq_access(self, t):
        """(sequence, index) when T is a checked access to one element of a sequence: get, first"""
        if t[0] == "call" and t[1] in SEQ_GET and len(t[2]) == 2:
            f = self.V.callinfo
            return t[2]
        if t[0] == "call" and t[1] in SEQ_FIRST and len(t[2]) == 1:
            return (t[2][0], None)
        return None

    def locstr(self, loc, depth=16, seen=()):
        root, path = loc
        if root[0] == "M":
            return self.with_path(root[1], path, depth, seen)
        c, l = root[1], root[2]
        nm = f"_{c}.{l}"
        g = self.V.g
        if c >= 0:
            nm = g.ctxs[c].fn["locals"][l].get("n", nm)
        return nm + self.path_str(path, depth, seen)

    def _render(self, v, t, depth, seen):
        V = self.V
        k = t[0]
        S = lambda x: self._s(x, depth - 1, seen)
        if k == "param":
            return t[2]
        if k == "proj":
            return self.with_path(t[1], (t[2],), depth, seen)
        if k == "init":
            return self.locstr((t[1], t[2]), depth, seen)
        if k == "ref":
            return self.locstr(t[2], depth, seen)
        if k == "const":
            x = t[1]
            if isinstance(x, tuple):
                try:
                    return "b" + repr(bytes(x).decode("ascii"))
                except Exception:
                    return "b" + repr(list(x))
            return repr(x) if t[2] == "str" else str(x)
        if k == "constitem":
            return "const " + t[1]
        if k == "static":
            return "static " + t[1]
        if k in ("fn", "closure"):
            return k + ":" + t[1]
        if k == "call":
            nm = t[1].split("::")[-1]
            args = t[2]
            if nm in ITER_ID and args:
                b, tags = self.iter_base(v)
                if b != v and not tags:
                    return S(b)
            if nm in ("next", "next_back") and t[1] in ("Iterator::next", "DoubleEndedIterator::next_back"):
                s, _ = self.elem(args[0], (), depth, seen, nm == "next_back")
                m = re.fullmatch(r"(r?)idx\((.*)\)", s)
                if m:
                    s = f"elem(rev({m.group(2)}))" if m.group(1) else f"elem({m.group(2)})"
                return "next" + s[4:] if s.startswith("elem") else "next(" + s + ")"
            if t[1] == "RangeInclusive::new":
                return f"RangeInclusive{{start: {S(args[0])}, end: {S(args[1])}}}"
            if nm in ("len",):
                return "len(" + S(args[0]) + ")"
            if nm in ("index", "index_mut") and len(args) == 2:
                fi = V.callinfo[v][0] if v in V.callinfo else {}
                if any(MAP_TY.match(str(x)) for x in [fi.get("impl_self")] + list(fi.get("ga", ()))[:1]):
                    return f"get({S(args[0])}, {S(args[1])}).Some.0"
                return self.idx(S(args[0]), S(args[1]), args[1])
            OPS = {"add": "Add", "sub": "Sub", "mul": "Mul", "not": "Not"}
            if nm in OPS and t[1].split("::")[0] in ("Add", "Sub", "Mul", "Not"):
                return OPS[nm] + "(" + ", ".join(S(a) for a in args) + ")"
            if nm in ("collect", "from_iter") and len(args) == 1:
                # collect(repeat(x).take(n)): n copies of x
                k2 = V.t(self.peel(args[0]))
                if k2[0] == "call" and k2[1].split("::")[-1] == "take" and len(k2[2]) == 2:
                    k3 = V.t(self.peel(k2[2][0]))
                    if k3[0] == "call" and k3[1].split("::")[-1] == "repeat":
                        return "from_elem(" + S(k3[2][0]) + ", " + S(k2[2][1]) + ")"
                if k2[0] == "call" and k2[1].split("::")[-1] == "repeat_n" and len(k2[2]) == 2:
                    return "from_elem(" + S(k2[2][0]) + ", " + S(k2[2][1]) + ")"
            if nm == "box_assume_init_into_vec_unsafe":
                w = self.boxed_content(args[0])
                if w is not None:
                    return "vec" + S(w)
            # the public key of a secret key, however the curve context is passed
            if t[1].endswith("PublicKey::from_secret_key") and len(args) == 2:
                return "PublicKey::from_secret_key_global(" + S(args[1]) + ")"
            if t[1].endswith("SecretKey::public_key") and len(args) == 2:
                return "PublicKey::from_secret_key_global(" + S(args[0]) + ")"
            if t[1] == "slice::from_ref" and len(args) == 1:
                return "[" + S(args[0]) + "]"
            if nm == "is_empty":
                return "is_empty(" + S(args[0]) + ")"
            f = V.callinfo[v][0] if v in V.callinfo else {}
            if nm == "first" and t[1].split("::")[0] in ("slice", "Vec") and len(args) == 1:
                return "first(" + S(args[0]) + ")"
            head = nm if args and f.get("krate") in ("core", "alloc", "std") else t[1]
            return head + "(" + ", ".join(S(a) for a in args) + ")"
        if k == "bin":
            a, b = S(t[2]), S(t[3])
            op, c = t[1], V.t(V.strip(t[3]))
            if op in ("Rem", "Div") and c[0] == "const" and isinstance(c[1], int) and c[1] > 1 and c[1] & (c[1] - 1) == 0 and not str(c[2]).startswith("i"):
                op, b = ("BitAnd", str(c[1] - 1)) if op == "Rem" else ("Shr", str(c[1].bit_length() - 1))
            if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and b < a:
                a, b = b, a
            return f"{op}({a}, {b})"
        if k == "ovf":
            return f"ovf({t[1]},{S(t[2])}, {S(t[3])})"
        if k == "un" and t[1] == "PtrMetadata":
            return "len(" + S(t[2]) + ")"
        if k == "un":
            c = V.t(V.strip(t[2]))
            if t[1] == "Not" and c[0] == "const" and isinstance(c[1], int) and not isinstance(c[1], bool) and str(c[2]) in UBITS:
                return str(~c[1] & ((1 << UBITS[str(c[2])]) - 1))
            return f"{t[1]}({S(t[2])})"
        if k == "cast":
            c = V.t(V.strip(t[2]))
            if c[0] == "const" and isinstance(c[1], int) and not isinstance(c[1], bool) and t[1] in UBITS and 0 <= c[1] < 1 << UBITS[t[1]]:
                return str(c[1])
            return f"({S(t[2])} as {t[1]})"
        if k == "other" and False:
            return "?"
        if k == "discr":
            return f"discr({S(t[1])})"
        if k == "agg":
            n = t[1].split("::")[-1]
            if n == "array":
                return "[" + ", ".join(S(a) for a in t[4]) + "]"
            if t[2]:
                n = t[2] if t[2] == n else n + "::" + t[2]
            vs = [S(a) for a in t[4]]
            if len(vs) > 1 and "::" not in n and not str(t[3][0]).isdigit() and n != "tuple":
                # a record rebuilt from every field of one value is that value
                b = vs[0][: -len(t[3][0]) - 1]
                if b and all(x == f"{b}.{f}" for f, x in zip(t[3], vs)):
                    return b
            return n + "{" + ", ".join(f"{f}: {x}" for f, x in zip(t[3], vs)) + "}"
        if k == "upd":
            if self.same_upd(t):
                return S(t[1])
            return self._s(t[1], depth - 1, seen) + "[" + self.path_str(t[2], depth, seen) + ":=" + S(t[3]) + "]"
        if k == "phi":
            c = self.counter(v)
            if c and c[1] == 1 and self.bound is not None and self.s(c[0], 4) == "0":
                m = {re.fullmatch(r"len\((.*)\)", self._s(x, depth - 1, seen + (v,))) for x in self.bound(v)}
                if len(m) == 1 and None not in m:
                    return f"idx({m.pop().group(1)})"
            ops = sorted({self._s(o, depth - 1, seen + (v,)) for o in self.phi_ops(v)})
            ops2 = [o for o in ops if o != "μ"]
            if len(ops2) == 1:
                return ops2[0]
            return "{" + " | ".join(ops2) + "}"
        if k == "repeat":
            return f"[{S(t[1])}; {t[2]}]"
        if k == "mut":
            op = self.opassign(t)
            if op is None:
                n = self.V.P.nodes[t[1]].n
                if n.k == "call" and n.f["name"] == "resize" and len(n.args) == 3 and FRESH_EMPTY.match(S(t[3])):
                    return f"from_elem({self._s(V.arg(t[1], 2), depth - 1, seen)}, {self._s(V.arg(t[1], 1), depth - 1, seen)})"
                return f"{S(t[3])}~{n.f['name'] if n.k == 'call' else n.k}"
            a, b = S(t[3]), self._s(V.arg(t[1], 1), depth - 1, seen)
            if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and b < a:
                a, b = b, a
            return f"{op}({a}, {b})"
        if k == "cbarg":
            c = self.cb_elem(t, depth, seen)
            if c:
                return c
            return f"cb:{t[1]}#{t[3]}({', '.join(S(a) for a in t[4])})"
        if k == "undef":
            return "undef"
        return str(t[:2])

    def cb_elem(self, t, depth, seen):
        """the element a collection method hands to its callback, when it is an element of the receiver"""
        nm = t[1].split("::")
        if nm[-1] in ("retain", "retain_mut", "extract_if") and t[2] == 1:
            b = "elem(" + self._s(t[4][0], depth - 1, seen) + ")"
            return b + f".{t[3]}" if "Map" in nm[0] else b
        return None

    def boxed_content(self, box):
        """value stored into a freshly allocated box (the vec![..] idiom)"""
        V = self.V
        b = self.peel(box)
        for pn in V.P.nodes:
            n = pn.n
            if n.k == "asg" and "*" in n.d[2]:
                loc = V.loc(n.d, pn.id)
                if loc[0][0] == "M":
                    x = loc[0][1]
                    for _ in range(8):
                        t = V.t(x)
                        if t[0] in ("cast",):
                            x = t[2]
                        elif t[0] == "proj":
                            x = t[1]
                        else:
                            break
                    if self.peel(x) == b:
                        return V.rvalue(n.v, pn.id)
        return None

    # -- provenance -----------------------------------------------------------
    def leaves(self, v, limit=4000):
        """all leaf values (params, initial memory, constants, argument-less calls) v may be computed from"""
        V = self.V
        out = set()
        seen = set()
        work = [v]
        while work:
            x = work.pop()
            x = V.strip_phi(x)
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > limit:
                out.add("…")
                break
            t = V.t(x)
            k = t[0]
            if k in ("call",):
                if not t[2]:
                    out.add(t[1] + "()")
                work.extend(t[2])
            elif k == "mut":
                work.append(t[3])
                n = V.P.nodes[t[1]].n
                for i in range(len(n.args)):
                    if i != t[2]:
                        work.append(V.arg(t[1], i))
            elif k == "phi":
                work.extend(V.phis[x])
            elif k == "proj":
                s = self.with_path(t[1], (t[2],), 10, ())
                b = t[1]
                work.append(b)
            elif k in ("bin",):
                work.extend(t[2:4])
            elif k == "ovf":
                work.extend(t[2:4])
            elif k in ("un", "cast"):
                work.append(t[2])
            elif k == "discr":
                work.append(t[1])
            elif k == "agg":
                work.extend(t[4])
            elif k == "upd":
                work.append(t[1])
                work.append(t[3])
            elif k == "ref":
                r = t[2][0]
                if r[0] == "M":
                    work.append(r[1])
                    if t[2][1]:
                        out.add(self.locstr(t[2]))
                else:
                    out.add(self.locstr(t[2]))
            elif k == "init":
                if t[1][0] == "M":
                    out.add(self.locstr((t[1], t[2])))
                    work.append(t[1][1])
                else:
                    out.add(self.locstr((t[1], t[2])))
            elif k == "repeat":
                work.append(t[1])
            elif k == "cbarg":
                work.extend(t[4])
            elif k == "param":
                out.add(t[2])
            else:
                out.add(self.s(x, 4))
        return out

    def subterms(self, v, limit=5000):
        """all values reachable inside v (including v)"""
        V = self.V
        seen = set()
        work = [v]
        while work and len(seen) < limit:
            x = V.strip_phi(work.pop())
            if x in seen:
                continue
            seen.add(x)
            t = V.t(x)
            k = t[0]
            if k == "call":
                work.extend(t[2])
            elif k == "mut":
                work.append(t[3])
                n = V.P.nodes[t[1]].n
                work.extend(V.arg(t[1], i) for i in range(len(n.args)) if i != t[2])
            elif k == "phi":
                work.extend(V.phis[x])
            elif k == "proj":
                work.append(t[1])
            elif k in ("bin", "ovf"):
                work.extend(t[2:4])
            elif k in ("un", "cast"):
                work.append(t[2])
            elif k == "discr":
                work.append(t[1])
            elif k == "agg":
                work.extend(t[4])
            elif k == "upd":
                work.extend((t[1], t[3]))
            elif k == "ref" and t[2][0][0] == "M":
                work.append(t[2][0][1])
            elif k == "init" and t[1][0] == "M":
                work.append(t[1][1])
            elif k == "repeat":
                work.append(t[1])
            elif k == "cbarg":
                work.extend(t[4])
        return seen

    # -- containers ---------------------------------------------------------------
    def container(self, loc):
        """the outermost named memory a location belongs to: follows accessor calls back to their receiver.
        Returns (rendered root location, list of accessor names)"""
        V = self.V
        acc = []
        root, path = loc
        for _ in range(60):
            if root[0] != "M":
                break
            v = self.peel(root[1])
            t = V.t(v)
            while t[0] == "proj":
                v = self.peel(t[1])
                t = V.t(v)
            if t[0] == "call":
                f, args, deep, p = V.callinfo[v]
                nm = f["name"]
                if nm in ACCESS and args:
                    acc.append(nm)
                    a = V.strip_phi(args[0])
                    ta = V.t(a)
                    if ta[0] == "ref":
                        root, path = ta[2]
                        # an iterator/guard local: continue from its value
                        if root[0] == "L":
                            c = self.peel(V.content(root, path, p))
                            root, path = ("M", c), ()
                        continue
                    root, path = ("M", self.peel(deep[0])), ()
                    continue
                break
            if t[0] == "ref":
                root, path = t[2][0], t[2][1] + path
                if root[0] == "L":
                    break
                continue
            if t[0] == "cbarg" and self.cb_elem(t, 4, ()):
                acc.append("elem")
                x = V.strip_phi(t[4][0])
                tx = V.t(x)
                root, path = tx[2] if tx[0] == "ref" else (("M", self.peel(x)), ())
                continue
            if t[0] == "init" and t[1][0] == "M":
                return (t[1], t[2] + path), acc
            break
        return (root, path), acc
