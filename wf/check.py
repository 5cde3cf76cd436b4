"""Obligation collector: each property module states obligations; failed ones are violations."""
import json
import os
import re
import time
from .facts import Facts
from .graph import TooBig
from .rules import A, Call, Effect, call_sites, all_bodies
from . import refresh as R

VERIF = R.VERIF


class Anchor(Exception):
    """an entry point the property is about cannot be found"""


class Checker:
    def __init__(self, pid, facts):
        self.pid = pid
        self.F = facts
        self.obs = []
        self.analysed = {}
        self.notes = []
        self.counts = {}
        self._cache = {}

    # -- analysis -------------------------------------------------------------
    def an(self, fn, **kw):
        k = (fn["key"], tuple(sorted((a, repr(b)) for a, b in kw.items())))
        if k not in self._cache:
            self._cache[k] = A(self.F, fn, **kw)
        a = self._cache[k]
        self.analysed[fn["path"]] = a.stats()
        return a

    def method(self, crate, ty, name, trait=None, what=None):
        r = [f for f in self.F.method(crate, ty, name, trait) if "blocks" in f]
        if not r:
            raise Anchor(f"{what or ''}no {'impl of ' + trait + ' with ' if trait else ''}method {ty}::{name} in {crate}")
        return r[0]

    def func(self, crate, name, module=None):
        r = [f for f in self.F.func(crate, name, module) if "blocks" in f]
        if not r:
            raise Anchor(f"no function {name} in {crate}")
        return r[0]

    def ctor(self, *a, **k):
        return self.an(self.method(*a, **k))

    def A(self, crate, ty, name, trait=None, **kw):
        return self.an(self.method(crate, ty, name, trait), **kw)

    def fnA(self, crate, name, module=None, **kw):
        return self.an(self.func(crate, name, module), **kw)

    # -- obligations ------------------------------------------------------------
    def ob(self, rule, instance, ok, detail="", where="", path=None):
        self.obs.append({"rule": rule, "instance": instance, "ok": bool(ok), "detail": detail, "where": where, "path": path or []})
        return bool(ok)

    def floor(self, what, n, least):
        self.counts[what] = n
        self.ob("floor", what, n >= least, f"{n} instances found, at least {least} expected")

    def note(self, s):
        self.notes.append(s)

    # -- common rules --------------------------------------------------------------
    def returns_only(self, a, rule, inst, allowed, variant=None, what="return value"):
        """every value returned (of VARIANT) renders as one of ALLOWED (strings, or compiled regexes)"""
        vals = a.ret_values(variant)
        ok = True
        for s, r in vals.items():
            good = any((x.search(s) if hasattr(x, "search") else x == s) for x in allowed)
            ok &= self.ob(rule, f"{inst}", good, f"{what}: `{s[:300]}`, expected {[getattr(x, 'pattern', x) for x in allowed]}" if not good else s[:200], a.where(r.pid))
        if not vals:
            self.ob(rule, inst, False, f"{a.name} has no {variant or ''} return")
        return ok

    def must_pass(self, a, rule, inst, pids, targets, what, cut_edges=()):
        """every path from entry to a target passes one of PIDS"""
        pids = [p if isinstance(p, int) else p.pid for p in pids]
        targets = [t if isinstance(t, int) else t.pid for t in targets]
        path = a.paths_avoiding(targets, cut_nodes=pids, cut_edges=cut_edges)
        return self.ob(rule, inst, path is None, what, a.where(path[-1]) if path else (a.where(pids[0]) if pids else ""), a.describe(path) if path else None)

    def never_after(self, a, rule, inst, first, second, what):
        """no path from a FIRST node to a SECOND node"""
        first = [p if isinstance(p, int) else p.pid for p in first]
        second = {p if isinstance(p, int) else p.pid for p in second}
        for f in first:
            succ = [y for _, y in a.p.nodes[f].succ]
            hit = a.reach(succ) & second
            if hit:
                h = min(hit)
                path = a.paths_avoiding([h], start=succ[0]) if succ else None
                return self.ob(rule, inst, False, what, a.where(f), a.describe(path))
        return self.ob(rule, inst, True, what)

    def requires(self, a, rule, inst, pid, conds, what=None):
        """reaching PID implies one of the alternatives in each element of CONDS (str, regex, or tuple of alternatives)"""
        ms = a.must([pid])
        ok = True
        for c in conds:
            alts = c if isinstance(c, tuple) else (c,)
            good = any((x.search(s) if hasattr(x, "search") else x == s) for x in alts for s in ms) or a.forced(pid, lambda s: any((x.search(s) if hasattr(x, "search") else x == s) for x in alts))
            d = f"{what or 'reached only when'} {[getattr(x, 'pattern', x) for x in alts]}"
            ok &= self.ob(rule, inst, good, d if good else d + f"; conditions on every path: {sorted(ms)[:12]}", a.where(pid if isinstance(pid, int) else pid.pid))
        return ok

    def loop_steps(self, a, rule, inst, some_edges, step_pids, what, skips=()):
        """from each edge in SOME_EDGES (start of an iteration), every path to the next iteration or any exit passes STEP_PIDS or an edge of SKIPS"""
        step = set(p if isinstance(p, int) else p.pid for p in step_pids)
        ok = True
        for (i, l) in some_edges:
            for ll, y in a.p.nodes[i].succ:
                if ll != l:
                    continue
                seen = a.reach([y], avoid_node=lambda n: n.id in step, avoid_edge=lambda n, l, y: (n.id, l) in skips)
                bad = [x for x in seen if a.p.nodes[x].n.k == "ret" or x == i]
                if bad:
                    ok = False
                    path = a.paths_avoiding([bad[0]], cut_nodes=step, cut_edges=skips, start=y)
                    self.ob(rule, inst, False, what, a.where(i), a.describe(path))
        if ok:
            self.ob(rule, inst, bool(some_edges), what if some_edges else what + " (no iteration found)")
        return ok


    def propagates(self, a, rule, inst, call, ok_variant="Ok"):
        """once CALL (returning a Result) fails, no success return is reachable; its result is examined or returned"""
        v = a.s(call.value)
        bad = a.edges_matching(lambda s: s == f"{v} is Err")
        oks = {r.pid for r in a.rets(ok_variant)}
        returned = any(v in s for s in a.ret_values())
        self.ob(rule, inst, bool(bad) or returned, f"the result of {call.name} is examined", call.where)
        tgt = [y for (i, l) in bad for ll, y in a.p.nodes[i].succ if ll == l]
        hit = a.reach(tgt) & {p for p in oks if a.fl.ret_variant(a.p.nodes[p]) == ok_variant} if tgt else set()
        return self.ob(rule, inst, not hit, f"after {call.name} failed, a success return is reachable" if hit else f"a failure of {call.name} never ends in success", call.where)

    def no_abort(self, a, rule, inst, allowed=(), what="no reachable abort"):
        """every place that may abort is proven impossible or matches ALLOWED (regex on kind:text)"""
        from .extra import abort_sites
        bad = [(p, k, t) for p, k, t, ok in abort_sites(a) if not ok and not any(re.search(x, f"{k}:{t}") for x in allowed)]
        for p, k, t in bad:
            self.ob(rule, inst, False, f"may abort: {k} {t[:200]}", a.where(p))
        if not bad:
            self.ob(rule, inst, True, what, a.fn["span"])
        return not bad

    def guarded_return(self, a, rule, inst, alternatives):
        """every return value renders as one of ALTERNATIVES (value -> conditions all required on the way)"""
        seen = set()
        for r in a.rets():
            for v in a.alternatives(r.value):
                s = a.s(v)
                seen.add(s)
                self.ob(rule, inst, s in alternatives, f"returns `{s[:300]}`; expected one of {list(alternatives)}", a.where(r.pid))
        for s in alternatives:
            self.ob(rule, inst, s in seen, f"`{s}` is returned in its case", a.fn["span"])


def params(a):
    """names of the parameters, receiver included"""
    fn = a.fn if hasattr(a, "fn") else a
    return [l.get("n", f"_{i+1}") for i, l in enumerate(fn["locals"][1 : fn["args"] + 1])]


def gnodes(xs):
    """distinct source-level sites among product nodes"""
    return {(x.n.id if hasattr(x, "n") and hasattr(x.n, "id") else x.A.p.nodes[x.pid].n.id) for x in xs}


def sites(a, pids):
    return {a.p.nodes[p if isinstance(p, int) else p.pid].n.id for p in pids}


REGISTRY = {}


def prop(pid, crates, technique, note):
    def deco(f):
        REGISTRY[pid] = {"fn": f, "crates": crates, "technique": technique, "note": note}
        return f
    return deco


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def run(pid, tier, seed):
    t0 = time.time()
    reg = REGISTRY[pid]
    lines = []

    def out(s):
        print(s)
        lines.append(s)

    files = R.refresh(reg["crates"], out)
    F = Facts(files)
    C = Checker(pid, F)
    C.tier = tier
    try:
        reg["fn"](C)
    except Anchor as e:
        C.ob("anchor", str(e), False, "an entry point the property is stated on is gone or has no analysable body")
    except TooBig as e:
        C.ob("analysable", str(e), False, "control flow too large to analyse exhaustively")
    except Exception as e:
        import traceback
        tb = traceback.format_exc()
        print(tb)
        C.ob("analysable", f"{type(e).__name__}: {e}"[:160], False, "the code has a form the analysis of this property cannot decide:\n" + tb[-600:])
    if not C.obs:
        C.ob("nonvacuous", "obligations", False, "no obligation was generated")
    kf = {k["key"]: k for k in known_findings() if k["property"] == pid and k.get("status", "open") == "open"}
    bad, known = [], []
    for o in C.obs:
        if o["ok"]:
            continue
        key = f"{o['rule']}|{o['instance']}"
        o["key"] = key
        (known if key in kf else bad).append(o)
    rules = {}
    for o in C.obs:
        r = rules.setdefault(o["rule"], [0, 0])
        r[0] += 1
        r[1] += o["ok"]
    out(f"property {pid}: {len(C.obs)} obligations over {len(C.analysed)} analysed entry functions, "
        f"{sum(a['path_states'] for a in C.analysed.values())} path states, {sum(a['inlined'] for a in C.analysed.values())} inlined bodies")
    for p, a in sorted(C.analysed.items()):
        out(f"  analysed {p}: {a['cfg_nodes']} nodes, {a['path_states']} states, {a['inlined']} callee bodies inlined")
    for r, (n, ok) in rules.items():
        out(f"  rule {r}: {ok}/{n} hold")
    for n in C.notes:
        out("  note: " + n)
    seen = set()
    for o in known:
        if o["key"] not in seen:
            seen.add(o["key"])
            out(f"KNOWN-FINDING: property={pid} {kf[o['key']]['what']}")
    replay = os.path.join(VERIF, "evidence", f"{pid}.violation.txt")
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if bad:
        for o in bad:
            out(f"  violated [{o['rule']}] {o['instance']}")
            out(f"     at {o['where']}")
            out(f"     {o['detail']}")
            for s in o["path"][-25:]:
                out(f"       | {s}")
        out(f"VIOLATION property={pid} replay={replay}")
        with open(replay, "w") as fh:
            fh.write("\n".join(lines) + "\n")
    elif os.path.exists(replay):
        os.remove(replay)
    n_dis = sum(1 for o in C.obs if o["ok"])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": reg["note"],
            "rule": reg["technique"],
            "obligations": len(C.obs), "discharged": n_dis,
            "rules": {r: {"instances": n, "hold": ok} for r, (n, ok) in rules.items()},
            "functions": sorted(C.analysed.values(), key=lambda x: x["function"]),
            "crates": {c: v for c, v in F.crates.items()},
            "counts": C.counts,
            "samples": [{k: o[k] for k in ("rule", "instance", "detail", "where")} for o in C.obs[:: max(1, len(C.obs) // 12)]][:14],
            "known_findings": sorted(seen),
        },
        "assumptions": ["MIR produced by the nightly compiler for the analysed sources is faithful", "models of std combinators, collections and iterator adaptors in wf/graph.py and wf/norm.py",
                        "third-party crates behave as documented"],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(bad),
    }
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    return 1 if bad else 0
