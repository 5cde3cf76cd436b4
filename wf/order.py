"""Deciding comparison functions: the outcome in every combination of orderings of the compared components.

The components are pairs of opaque values (X of the first, Y of the second) and yes/no conditions. For each combination,
branches that contradict it are removed and what is left to return is evaluated; nothing is executed."""
import itertools
import re

from wf.rules import falsum

OPS = {"lt": lambda c: c < 0, "le": lambda c: c <= 0, "gt": lambda c: c > 0, "ge": lambda c: c >= 0, "eq": lambda c: c == 0, "ne": lambda c: c != 0}
NAMES = {"Less": -1, "Equal": 0, "Greater": 1}


class Order:
    def __init__(self, pairs, flags=()):
        """pairs: [(name, X, Y)]; flags: [(name, strings true, strings false, term renderings)]"""
        self.pairs, self.flags = list(pairs), list(flags)
        self.xy = {}
        for n, x, y in self.pairs:
            self.xy[(x, y)] = (n, 1)
            self.xy[(y, x)] = (n, -1)

    def envs(self):
        for cs in itertools.product((-1, 0, 1), repeat=len(self.pairs)):
            for fs in itertools.product((False, True), repeat=len(self.flags)):
                yield {**{p[0]: c for p, c in zip(self.pairs, cs)}, **{f[0]: v for f, v in zip(self.flags, fs)}}

    def false(self, env, s):
        """the atom S cannot hold in ENV"""
        neg = s.startswith("!")
        m = re.match(r"^(.*) (lt|le|gt|ge|eq|ne) (.*)$", s)
        if m and (m.group(1), m.group(3)) in self.xy:
            n, sg = self.xy[(m.group(1), m.group(3))]
            return not OPS[m.group(2)](env[n] * sg)
        m = re.match(r"^(?:\w+::)?(?:partial_)?cmp\((.*)\) is ([\w/]+)$", s)
        if m:
            for (x, y), (n, sg) in self.xy.items():
                if m.group(1) == f"{x}, {y}":
                    return not any(NAMES.get(k) == env[n] * sg for k in m.group(2).split("/"))
        for n, t, f, _ in self.flags:
            if s in t:
                return not env[n]
            if s in f:
                return env[n]
            if s[1:] in t and neg:
                return env[n]
        return False

    def value(self, b, v, env, depth=30):
        """possible outcomes (-1, 0, 1 or '?') of an Ordering-valued term"""
        v = b.n.peel(v)
        t = b.v.t(v)
        if depth < 0:
            return {"?"}
        if t[0] == "phi":
            return set().union(*[self.value(b, x, env, depth - 1) for x in b.n.phi_ops(v)])
        s = b.s(v)
        m = re.match(r"^Ordering::(Less|Equal|Greater)(?:\{\})?$", s)
        if m:
            return {NAMES[m.group(1)]}
        if t[0] == "call":
            nm, args = t[1].split("::")[-1], t[2]
            if nm in ("cmp", "partial_cmp") and len(args) == 2:
                x, y = b.s(args[0]), b.s(args[1])
                if (x, y) in self.xy:
                    n, sg = self.xy[(x, y)]
                    return {env[n] * sg}
                fx, fy = self.flag(x, env), self.flag(y, env)
                if fx is not None and fy is not None:
                    return {(fx > fy) - (fx < fy)}
                if x == y:
                    return {0}
                p, q = b.v.t(b.n.peel(args[0])), b.v.t(b.n.peel(args[1]))
                if p[0] == q[0] == "agg" and p[1] == q[1] == "tuple" and len(p[-1]) == len(q[-1]):
                    for x, y in zip(p[-1], q[-1]):
                        r = self.pair(b, x, y, env)
                        if r != 0:
                            return {r}
                    return {0}
                return {"?"}
            if nm == "reverse" and len(args) == 1:
                return {-x if x != "?" else x for x in self.value(b, args[0], env, depth - 1)}
            if nm == "then" and len(args) == 2:
                out = set()
                for x in self.value(b, args[0], env, depth - 1):
                    out |= self.value(b, args[1], env, depth - 1) if x == 0 else {x}
                return out
            if nm in ("unwrap", "expect", "unwrap_or") and args:
                return self.value(b, args[0], env, depth - 1)
        if t[0] == "agg" and s.startswith("Option::Some{"):
            return self.value(b, t[3][0], env, depth - 1) if len(t) > 3 else {"?"}
        return {"?"}

    def pair(self, b, x, y, env):
        x, y = b.s(x), b.s(y)
        if (x, y) in self.xy:
            n, sg = self.xy[(x, y)]
            return env[n] * sg
        fx, fy = self.flag(x, env), self.flag(y, env)
        if fx is not None and fy is not None:
            return (fx > fy) - (fx < fy)
        return 0 if x == y else "?"

    def flag(self, s, env):
        for n, t, f, r in self.flags:
            if s in r:
                return int(env[n])
        return None

    def outcomes(self, a, env):
        b = a
        for i in range(6):
            cut = set()
            for n, l, y, ss in b.edges():
                at = b.fl.atom(n, l)
                if any(self.false(env, s) for s in ss) or falsum(b, n, l):
                    cut.add((n, l))
                elif at[0] == "is" and set(at[2]) <= set(NAMES):
                    got = self.value(b, at[1], env)
                    if "?" not in got and not got & {NAMES[k] for k in at[2]}:
                        cut.add((n, l))
            if not cut:
                break
            b = b.prune(cut)
        out = set()
        for r in b.rets():
            out |= self.value(b, r.value, env)
        return out

    def decide(self, C, a, rule, inst, expected):
        """EXPECTED(env) is the outcome in every combination"""
        bad, n = [], 0
        for env in self.envs():
            n += 1
            got = self.outcomes(a, env)
            if got != {expected(env)}:
                bad.append((env, got, expected(env)))
        C.ob(rule, f"{inst} ({n} combinations)", not bad, f"{len(bad)} combinations differ; first: {bad[0] if bad else ''}"[:400], a.fn["span"])


def lexi(*names):
    """lexicographic: names of pairs, '-' in front for a reversed one; 'x/y' for a flag of each side (set is greater)"""
    def f(env):
        for n in names:
            if "/" in n:
                x, y = n.split("/")
                c = int(env[x]) - int(env[y])
            else:
                c = env[n.lstrip("-")] * (-1 if n.startswith("-") else 1)
            if c:
                return c
        return 0
    return f
