"""Storage backends: batches, point operations, prefix scans, error discipline."""
import re
from wf.check import prop, Anchor, sites
from wf.rules import Call
from wf.facts import ty_head
from wf.maps import raw_ops, slot_absent

CR = "witnet_storage"


def backends(C):
    """{kind: {method: fn}} for every impl of the Storage trait, by what the implementing type is"""
    out = {}
    for f in C.F.fns.values():
        if f["crate"] == CR and f.get("impl_trait_path", "").split("::")[-1] == "Storage" and "blocks" in f:
            st = f["impl_self"]
            k = "rocksdb" if "rocksdb" in st else "memory" if "HashMap" in st else "none" if "nobackend" in st else st
            out.setdefault(k, {})[f["name"]] = f
    for k in ("rocksdb", "memory", "none"):
        if k not in out:
            raise Anchor(f"Storage implementation of the {k} backend")
    return out


def items_field(C):
    """name of the field of WriteBatch that holds the operations"""
    for k, a in C.F.adts.items():
        if k.split("::")[-1] == "WriteBatch" and k.startswith(CR):
            for x in a["variants"][0]["fields"]:
                if re.search(r"Vec|Deque", x["ty"]):
                    return x["name"]
    raise Anchor("the batch type's operation list")


def producers(C, rule):
    """how the batch type records a put / a delete: {'put': (variant, {role: field}), 'delete': ...}"""
    res = {}
    for m, roles in (("put", ("key", "value")), ("delete", ("key",))):
        a = C.A(CR, "WriteBatch", m)
        params = [l.get("n") for l in a.fn["locals"][2 : 2 + len(roles)]]
        eff = a.param_effects("self")
        pushes, one_of = [], {}
        for e in eff:
            if e.op in ("push", "push_back"):
                pushes.append(e)
            elif e.op == "extend":
                one = a.v.t(a.n.peel(e.call.val(1)))
                if one[0] == "call" and one[1].split("::")[-1] in ("once", "Some") and one[2] or one[0] == "agg" and len(one[4]) == 1:
                    one_of[e.pid] = one[2][0] if one[0] == "call" else one[4][0]
                    pushes.append(e)
        C.ob(rule, f"batch {m}: appended at the end of the list, nothing else changed", len(eff) == len(pushes) and len(sites(a, pushes)) == 1 and pushes, f"writes to the batch: {eff}", pushes[0].where if pushes else a.fn["span"])
        if not pushes:
            continue
        C.must_pass(a, rule, f"batch {m}: recorded on every path", pushes, a.rets(), "every call records its operation")
        C.ob(rule, f"batch {m}: recorded once", not any(a.in_loop(e.pid) for e in pushes), "the append is not inside a loop", pushes[0].where)
        item = one_of.get(pushes[0].pid)
        item = pushes[0].call.val(1) if item is None else item
        v = a.s(item)
        mm = re.match(r"^[\w:]*?(\w+)\{(.*)\}$", v)
        if not C.ob(rule, f"batch {m}: item form", mm, f"appended value `{v}`", pushes[0].where):
            continue
        # variant name and which field carries which parameter
        val = a.v.t(a.n.peel(item))
        fields = {}
        for fn_, x in zip(val[3], val[4]):
            fields[a.s(x)] = fn_
        ok = set(fields) == set(params) and len(val[3]) == len(params)
        C.ob(rule, f"batch {m}: carries exactly its own arguments", ok, f"item `{v}` for parameters {params}", pushes[0].where)
        if ok:
            res[m] = (val[2], [fields[p] for p in params])
    if len(res) == 2:
        C.ob(rule, "batch: put and delete are recorded as different kinds", res["put"][0] != res["delete"][0], str(res))
    return res


class Store:
    """one place where a key of the map gets a value, however it is written"""

    def __init__(self, o):
        self.args = [o.m, o.k] + ([] if o.kind == "remove" else [o.v])
        self.pid, self.where, self.name, self.f, self.nargs = o.pid, o.where, f"{o.kind} in {o.m}", {"name": o.kind}, len(self.args)

    def arg(self, i):
        return self.args[i]


def keyed_stores(a, m):
    """places where a key of the map gets a value (m = put) or loses it (m = delete)"""
    out = []
    for o in raw_ops(a):
        if m == "delete":
            if o.kind == "remove" and o.e.op != "retain_drop":
                out.append(Store(o))
        elif o.kind in ("set", "new") or o.kind == "touch" and any(re.search("^" + slot_absent(o.m, o.k) + "$", s) for s in a.must([o.pid])):
            out.append(Store(o))
    return out


def overwritten(a, cs, ends):
    """other changes of the slots of CS (made absent, given a first content) that one of CS always replaces before any of ENDS"""
    out = set()
    slots, through = {(c.args[0], c.args[1]) for c in cs}, set(pids_of(cs))
    for o in raw_ops(a):
        if o.pid not in through and (o.m, o.k) in slots and o.kind in ("touch", "remove"):
            if all(a.paths_avoiding(ends, cut_nodes=through, start=y) is None for _, y in a.p.nodes[o.pid].succ):
                out.add(o.pid)
    return out


def nothing_there(a, m, M, K):
    """edges on which there is nothing to delete"""
    rx = re.compile("^" + slot_absent(M, K) + "$")
    return a.edges_matching(lambda s: bool(rx.match(s))) if m == "delete" else set()


def pids_of(cs):
    return [c.pid for c in cs]


@prop("S01", [CR],
      "MIR path analysis: guard acquisition sites, loop exhaustion, per-variant must-pass effects with argument provenance, no partial-commit exit",
      "For both persistent backends every path through the batch commit is enumerated (callees and closures inlined): the operation list is consumed in order to exhaustion, each operation kind maps to the one effect carrying its own key/value, the in-memory backend holds one exclusive guard over the whole loop, and the on-disk backend issues exactly one native batch commit after the loop. Decides the code's structure; atomicity of RocksDB's native batch itself is trusted.")
def s01(C):
    f = items_field(C)
    P = producers(C, "batch-record")
    for fn in C.F.fns.values():
        # nobody else rewrites the recorded operations
        if fn["crate"] != CR or "blocks" not in fn or fn["kind"] == "Closure" or fn.get("derived"):
            continue
        if fn.get("impl_self") and ty_head(fn["impl_self"]) == "WriteBatch" and fn["name"] not in ("put", "delete"):
            a = C.an(fn)
            # (adding a further operation at the end, as a helper of the two recorders does, leaves the recorded ones alone)
            e = [x for x in a.param_effects() if x.root.endswith("." + f) and not (x.op == "push" and x.idx == 0 and len(x.args) == 1)]
            C.ob("batch-immutable", f"WriteBatch::{fn['name']}", not e, f"changes recorded operations: {e}", fn["span"])
    if len(P) < 2:
        return
    B = backends(C)
    for kind in ("memory", "rocksdb"):
        a = C.an(B[kind]["write"])
        batch = a.fn["locals"][2].get("n")
        L = f"{batch}.{f}"
        E = f"elem({L})"
        oks = a.rets("Ok")
        more = a.edges_matching(lambda s: s == f"next({L}) is Some")
        done = a.edges_matching(lambda s: s == f"next({L}) is None")
        C.ob("batch-order", f"{kind}: walks the operation list in recorded order", bool(more and done), f"loop over `{L}` not found among {[s[0] for _,_,_,s in a.edges()][:8]}", a.fn["span"])
        if not (more and done):
            continue
        C.ob("batch-complete", f"{kind}: success only after the last operation", a.paths_avoiding([r.pid for r in oks], cut_edges=done) is None,
             "a success return is reachable before the list is exhausted", a.fn["span"], a.describe(a.paths_avoiding([r.pid for r in oks], cut_edges=done)))
        eff, loose, skips_all = {}, set(), set()
        for m, names in (("put", ("insert",) if kind == "memory" else ("put",)), ("delete", ("remove",) if kind == "memory" else ("delete",))):
            var, fl = P[m]
            want = [f"{E}.{var}.{x}" for x in fl]
            if kind == "memory":
                cs = [c for c in keyed_stores(a, m) if c.pid not in loose]
                if m == "put":
                    loose |= overwritten(a, cs, {i for i, l in more | done} | {r.pid for r in a.rets()})
                    cs = [c for c in cs if c.pid not in loose]
                skips = nothing_there(a, m, "write(self).Ok.0", want[0])
            else:
                cs = [c for c in a.calls() if c.f["name"] in names and c.is_("WriteBatch::" + c.f["name"])]
                skips = set()
            skips_all |= skips
            good = [c for c in cs if c.args[1:] == want]
            eff[m] = good
            for c in cs:
                C.ob("batch-args", f"{kind}: {m} applied with its own key/value", c.args[1:] == want, f"{c.name} gets {c.args[1:]}, recorded operation carries {want}", c.where)
                C.requires(a, "batch-dispatch", f"{kind}: {m} effect only for a recorded {m}", c.pid, [f"{E} is {var}"])
            edges = a.edges_matching(lambda s: s == f"{E} is {var}")
            C.loop_steps(a, "batch-apply", f"{kind}: every recorded {m} is applied", edges, good, f"each recorded {m} reaches its effect before the next operation or any return", skips)
            once = len(sites(a, good)) == 1 or good and not any(set(pids_of(good)) & a.reach([y for _, y in a.p.nodes[c.pid].succ], avoid_edge=lambda n, l, y: (n.id, l) in more) for c in good)
            C.ob("batch-apply", f"{kind}: a recorded {m} is applied once", once, f"{len(sites(a, good))} effect sites", good[0].where if good else a.fn["span"])
        alle = eff["put"] + eff["delete"]
        C.loop_steps(a, "batch-apply", f"{kind}: no recorded operation is passed over", more, alle, "each recorded operation reaches its effect before the next one or any return", skips_all)
        if kind == "memory":
            g = [c for c in a.calls("RwLock::write", "RwLock::read", "RwLock::try_write", "RwLock::try_read", "RwLock::get_mut", "Mutex::lock")]
            C.ob("batch-exclusive", "memory: one exclusive guard for the whole batch", len(sites(a, g)) == 1 and all(c.f["name"] == "write" and c.arg(0) == "self" and not a.in_loop(c.pid) for c in g),
                 f"guard acquisitions: {g}", g[0].where if g else a.fn["span"])
            for c in alle:
                C.ob("batch-exclusive", "memory: effects go through that guard", c.arg(0) in ("write(self).Ok.0",), f"effect on `{c.arg(0)}`", c.where)
            # the guard is not released between effects
            drops = [n for n in a.nodes_dropping("RwLockWriteGuard")]
            bad = [d for d in drops if any(c.pid in a.reach([d]) for c in alle)]
            C.ob("batch-exclusive", "memory: guard kept until the last operation", not bad, "the guard can be released before a later operation is applied", a.where(bad[0]) if bad else "")
            errs = [r for r in a.rets("Err")] + a.panics()
            errs = [r for r in errs if not hasattr(r, "variant") or r.variant == "Err"]
            pids = [r.pid if hasattr(r, "pid") else r.id for r in errs]
            C.never_after(a, "batch-all-or-nothing", "memory: no failure exit after an operation was applied", alle, pids, "an error exit is reachable after part of the batch was applied")
            other = [e for e in a.param_effects("self") if e.pid not in {c.pid for c in alle} | loose]
            C.ob("batch-all-or-nothing", "memory: nothing else is written", not other, f"{other}", other[0].where if other else "")
        else:
            w = [c for c in a.calls() if c.is_("DB::write", "DB::write_opt")]
            muts = [c for c in a.calls() if c.arg(0) == "self" and c.f["name"] in ("put", "delete", "merge", "put_opt", "delete_opt", "put_cf", "delete_cf", "delete_range", "write_without_wal", "write", "write_opt", "flush")]
            C.ob("batch-atomic", "rocksdb: exactly one native batch commit, no direct writes", len(sites(a, w)) == 1 and sites(a, muts) == sites(a, w) and not any(a.in_loop(c.pid) for c in w), f"{muts}", w[0].where if w else a.fn["span"])
            C.must_pass(a, "batch-atomic", "rocksdb: success only after the commit", w, oks, "every success return follows the native commit")
            for c in w:
                tgt = {x.arg(0) for x in alle}
                C.ob("batch-atomic", "rocksdb: the committed batch is the one that was filled", tgt == {c.arg(1)}, f"filled {tgt}, committed {c.arg(1)}", c.where)
                C.ob("batch-atomic", "rocksdb: committed after the last operation was recorded", not any(x.pid in a.reach([c.pid]) for x in alle), "operations can be recorded after the commit", c.where)
                bad = a.edges_matching(lambda s: s == f"{a.s(c.value)} is Err")
                C.ob("batch-atomic", "rocksdb: a failed commit is reported", bad and not any(r.pid in a.reach([y for (i, l) in bad for ll, y in a.p.nodes[i].succ if ll == l]) for r in oks), "a failed commit can return success", c.where)
    C.floor("batch effects analysed", len([o for o in C.obs if o["rule"] == "batch-args"]), 4)


@prop("S02", [CR],
      "MIR provenance: key/value arguments of the backend primitive on every success path, result derived only from that primitive",
      "For every backend that stores data: the primitive reached on every success path receives exactly the caller's key (and value), nothing else in the store is written, and a read returns exactly what the primitive returned for that key. Decides argument and result provenance on all paths; the hash map and RocksDB primitives are trusted.")
def s02(C):
    B = backends(C)
    n = 0
    for kind in ("memory", "rocksdb"):
        G = {"memory": {"get": ("HashMap::get", "read(self).Ok.0"), "put": ("HashMap::insert", "write(self).Ok.0"), "delete": ("HashMap::remove", "write(self).Ok.0")},
             "rocksdb": {"get": ("DB::get", "self"), "put": ("DB::put", "self"), "delete": ("DB::delete", "self")}}[kind]
        alt = {"HashMap::get": ("HashMap::get", "HashMap::get_key_value"), "DB::get": ("DB::get", "DB::get_pinned"), "DB::put": ("DB::put", "DB::put_opt"), "DB::delete": ("DB::delete", "DB::delete_opt"),
               "HashMap::remove": ("HashMap::remove", "HashMap::remove_entry")}
        for m in ("get", "put", "delete"):
            a = C.an(B[kind][m])
            prim, recv = G[m]
            params = [l.get("n") for l in a.fn["locals"][2 : a.fn["args"] + 1]]
            cs = [c for c in a.calls(*alt.get(prim, (prim,)))]
            I = f"{kind} {m}"
            if m == "get" and not cs and kind == "memory":
                # presence test and indexing instead of one lookup
                cs = [c for c in a.calls("HashMap::contains_key")]
                if len(sites(a, cs)) == 1:
                    prim = "HashMap::contains_key"
            split, skips, loose = False, set(), set()
            if m != "get" and kind == "memory":
                # (one store for a key that is there, another for a key that is not)
                cs = keyed_stores(a, m)
                if m == "put":
                    loose = overwritten(a, cs, {r.pid for r in a.rets()})
                split = len(cs) > 1 and not any(set(pids_of(cs)) & a.reach([y for _, y in a.p.nodes[c.pid].succ]) for c in cs)
                skips = nothing_there(a, m, recv, params[0])
            n += len(cs)
            C.ob("point-op", f"{I}: one primitive", len(sites(a, cs)) == 1 or split, f"{cs}", cs[0].where if cs else a.fn["span"])
            if not cs:
                continue
            for c in cs:
                C.ob("point-args", f"{I}: exactly the caller's arguments", c.args[1 : 1 + len(params)] == params, f"{c.name} gets {c.args[1:]}, caller passed {params}", c.where)
                C.ob("point-op", f"{I}: on this store", c.arg(0) in (recv, recv.replace("read(", "write(")), f"receiver `{c.arg(0)}`", c.where)
            oks = a.rets("Ok")
            C.must_pass(a, "point-op", f"{I}: success only after the primitive", cs, oks, "every success return performs the operation", skips)
            if kind == "memory":
                other = [e for e in a.param_effects("self") if e.pid not in {c.pid for c in cs} | loose]
                C.ob("point-op", f"{I}: nothing else is written", not other, f"{other}", other[0].where if other else "")
                if m == "get":
                    C.ob("point-op", f"{I}: reading does not write", not a.param_effects("self"), str(a.param_effects("self")))
            else:
                other = [c for c in a.calls() if c.arg(0) == "self" and c.nargs and c.pid not in {x.pid for x in cs}]
                C.ob("point-op", f"{I}: no other database operation", not other, f"{other}", other[0].where if other else "")
            if m == "get":
                base = f"get({recv}, {params[0]})" if kind == "memory" else f"DB::get(self, {params[0]}).Ok.0"
                some, none = f"Result::Ok{{0: Option::Some{{0: {base}.Some.0}}}}", "Result::Ok{0: Option::None{}}"
                C.returns_only(a, "point-result", f"{I}: the stored value, unchanged", [some, none, f"Result::Ok{{0: {base}}}"], "Ok")
                for r in oks:
                    if r.s == none:
                        C.requires(a, "point-result", f"{I}: absent only when the store has no entry", r.pid, [(f"{base} is None", f"!contains_key({recv}, {params[0]})")])
    C.floor("primitive calls", n, 6)


@prop("S03", [CR],
      "MIR loop and provenance analysis of the prefix scans: filter predicate, pairing of key and value, cursor advance on every element",
      "Both prefix scans are analysed on all paths: an element is yielded only under `key starts with the requested prefix`, the yielded pair is key and value of one and the same entry, non-matching entries are skipped rather than ending an unordered scan, and the in-memory cursor advances exactly once per visited entry and is saved before yielding. Iteration order and content of the underlying containers are trusted.")
def s03(C):
    B = backends(C)
    # in-memory: cursor struct with Iterator impl
    a = C.an(B["memory"]["prefix_iterator"])
    pfx = a.fn["locals"][2].get("n")
    vals = list(a.ret_values("Ok"))
    mm = None
    for v in vals:
        mm = re.match(r"^Result::Ok\{0: new\((\w+)\{(.*)\}\)\}$", v)
        C.ob("scan-open", "memory: scan holds a read guard of this store and the caller's prefix", bool(mm) and "read(self).Ok.0" in v and re.search(r": %s\b" % pfx, v), v, a.fn["span"])
    if not mm:
        raise Anchor("in-memory prefix scan cursor")
    ty = mm.group(1)
    flds = dict(x.split(": ", 1) for x in re.split(r", (?=\w+: )", mm.group(2)))
    data = [k for k, v in flds.items() if "read(self)" in v]
    pf = [k for k, v in flds.items() if v == pfx]
    cur = [k for k, v in flds.items() if k not in data + pf]
    C.ob("scan-open", "memory: cursor starts at the first entry", all(flds[k] == "0" for k in cur), str(flds), a.fn["span"])
    if not (data and pf):
        return
    it = C.A(CR, ty, "next", "Iterator")
    D, PF = f"self.{data[0]}", f"self.{pf[0]}"
    elem = None
    somes = [r for r in it.rets("Some") if r.variant == "Some"]
    C.floor("memory scan yields", len(somes), 1)
    for r in somes:
        for v in it.alternatives(r.value):
            s = it.s(v)
            m2 = re.match(r"^Option::Some\{0: tuple\{0: (elem\(.*\)|nth\(.*\)\.Some\.0)\.0, 1: (elem\(.*\)|nth\(.*\)\.Some\.0)\.1\}\}$", s)
            C.ob("scan-pair", "memory: yields key and value of the same entry", m2 and m2.group(1) == m2.group(2), s, it.where(r.pid))
            if m2:
                elem = m2.group(1)
    if not elem:
        return
    curs = [c for c in cur]
    src = elem[5:-1]
    step = f"next({src})"
    okform = src == D or any(src == f"skip({D}, self.{c})" for c in curs)
    if elem.startswith("nth("):
        # random access by the cursor itself
        step = elem[: -len(".Some.0")]
        for c in curs:
            x = re.escape(f"self.{c}")
            if re.fullmatch(rf"nth\({re.escape(D)}, (\{{(Add\(1, μ\) \| {x}|{x} \| Add\(1, μ\))\}}|{x})\)", step):
                okform, src = True, f"skip({D}, self.{c})"
    C.ob("scan-source", "memory: visits this store's entries from the cursor on", okform, f"iterates `{src}`", it.fn["span"])
    match = it.edges_matching(lambda s: s == f"starts_with({elem}.0, {PF})")
    nomatch = it.edges_matching(lambda s: s == f"!starts_with({elem}.0, {PF})")
    C.ob("scan-filter", "memory: entries are tested against the requested prefix", match and nomatch, f"expected a test starts_with({elem}.0, {PF}); conditions: {[s[0] for _,_,_,s in it.edges()][:10]}", it.fn["span"])
    for r in somes:
        p = it.paths_avoiding([r.pid], cut_edges=match)
        C.ob("scan-filter", "memory: only matching entries are yielded", p is None, "a yield is reachable without the prefix test succeeding", it.where(r.pid), it.describe(p))
    nones = it.rets("None")
    end = it.edges_matching(lambda s: s.startswith(("next(", "nth(")) and s.endswith(" is None"))
    C.ob("scan-complete", "memory: the scan ends only when the entries are exhausted", it.paths_avoiding([r.pid for r in nones if r.variant == "None"], cut_edges=end) is None, "end of scan reachable with entries left", it.fn["span"])
    # after a match, the entry is yielded
    for (i, l) in match:
        y = [t for ll, t in it.p.nodes[i].succ if ll == l]
        nx = {c.pid for c in it.calls("Iterator::next")}
        seen = it.reach(y, avoid_node=lambda n: n.id in {r.pid for r in somes})
        C.ob("scan-complete", "memory: every matching entry is yielded", not (seen & (nx | {r.pid for r in nones if r.variant == "None"})), "a matching entry can be skipped", it.where(i))
    if src != D:
        c0 = [c for c in curs if src == f"skip({D}, self.{c})"][0]
        CUR = f"self.{c0}"
        # cursor: saved on every yielding path, value = previous + number of entries visited
        asg = [e for e in it.effects() if e.loc == CUR and e.op == "assign"] + [e for e in it.effects() if e.loc == CUR and e.op == "add_assign"]
        C.must_pass(it, "scan-cursor", "memory: the cursor is saved before yielding", asg, somes, "every yield stores the advanced cursor")
        good = {f"Add(1, {{Add(1, μ) | {CUR}}})", f"{{Add(1, μ) | {CUR}}}", f"Add(1, {CUR})", f"{{Add(1, {{Add(1, μ) | {CUR}}}) | Add(1, μ) | {CUR}}}", f"{{Add(1, {CUR}) | Add(1, μ)}}"}
        places = [e for e in asg if "idx(" in e.args[0] or e.args[0] == f"len({D})"]
        for e in places:
            # the cursor is set to the position after the entry, or to the end
            ok = e.args[0] == f"Add(1, idx({D}))" or e.args[0] == f"len({D})" and not any(r.pid in it.reach([e.pid]) for r in somes)
            C.ob("scan-cursor", "memory: cursor advances by the number of visited entries", ok, f"cursor set to `{e.args[0]}`", e.where)
        if places:
            C.ob("scan-cursor", "memory: every visited entry advances the cursor", len(places) == len(asg), f"{asg}", it.fn["span"])
            C.must_pass(it, "scan-cursor", "memory: a yield leaves the cursor after the entry", [e for e in places if e.args[0] == f"Add(1, idx({D}))"], somes, "every yield stores the position after its entry")
        for e in [x for x in asg if x not in places]:
            cnt = r"(Add\(1, )*\{(0 \| Add\(1, μ\)|Add\(1, μ\) \| 0)\}\)*"
            cu = re.escape(CUR)
            ok = e.args[0] in good or re.fullmatch(rf"Add\(({cu}, {cnt}|{cnt}, {cu})\)", e.args[0]) or e.op == "add_assign" and re.fullmatch(cnt, e.args[0]) or re.fullmatch(r"[\{\}\|Add\(1,\) μ]*%s[\{\}\|Add\(1,\) μ]*" % re.escape(CUR), e.args[0])
            C.ob("scan-cursor", "memory: cursor advances by the number of visited entries", ok, f"cursor set to `{e.args[0]}`", e.where)
        # one increment per visited entry
        inc = increments(it) if not places else []
        some_e = it.edges_matching(lambda s: s == f"{step} is Some")
        if not places:
            C.loop_steps(it, "scan-cursor", "memory: every visited entry advances the cursor", some_e, inc, "each visited entry increments the cursor before the next one or a yield")
        twice = [x for x in inc if any(z in it.reach([y for _, y in it.p.nodes[x].succ], avoid_node=lambda n: n.n.k == "call" and n.n.f["name"] in ("next", "nth")) for z in inc)]
        C.ob("scan-cursor", "memory: no visited entry advances the cursor twice", not twice, "two increments for one entry", it.where(twice[0]) if twice else "")
    # rocksdb: lazy adaptor chain
    a = C.an(B["rocksdb"]["prefix_iterator"])
    pfx = a.fn["locals"][2].get("n")
    cs = [c for c in a.calls() if c.is_("DB::prefix_iterator", "DB::iterator", "DB::iterator_opt", "DB::prefix_iterator_cf")]
    C.ob("scan-source", "rocksdb: positioned at the requested prefix", len(cs) == 1 and any(pfx == x or re.search(r"\b%s\b" % pfx, x) for x in cs[0].args[1:]), f"{cs}", cs[0].where if cs else a.fn["span"])
    chain = [c for c in a.calls() if c.f.get("trait", "").endswith("Iterator") and c.f["name"] in ("filter", "take_while", "filter_map", "map", "map_while", "skip", "skip_while", "take", "step_by")]
    preds = 0
    for c in chain:
        if c.f["name"] in ("skip", "take", "step_by", "skip_while"):
            C.ob("scan-complete", f"rocksdb: adaptor {c.f['name']}", False, "drops entries regardless of their key", c.where)
            continue
        t = a.g.closure_target(c.n.args[1])
        if not t or t[0] != "closure":
            continue
        k = C.an(t[1])
        sw = [x for x in k.calls("slice::starts_with", "::starts_with")]
        for x in sw:
            up = x.arg(1)
            src = a.v.t(a.n.peel(c.val(1)))
            captured = {a.s(v) for v in src[4]} if src[0] == "agg" else set()
            C.ob("scan-filter", "rocksdb: entries are tested against the requested prefix", pfx in captured and re.match(r"^(self|_1|arg1|1)?\.?.*", up) and up != x.arg(0), f"{x}; captured {captured}", x.where)
            okret = {s for s in k.ret_values()}
            if c.f["name"] in ("filter", "take_while"):
                C.ob("scan-filter", "rocksdb: the test decides", okret == {k.s(x.value)}, f"{okret}", x.where)
                preds += 1
                key = k.s(x.val(0))
                C.ob("scan-filter", "rocksdb: the key is tested", key.endswith(".0"), f"tests `{key}`", x.where)
        if c.f["name"] in ("filter_map", "map"):
            for s, r in k.ret_values().items():
                if s in ("Option::None{}",):
                    continue
                if re.fullmatch(r"(Option::Some\{0: )?\w+\.Ok\.0\}?", s):
                    continue  # the whole entry, unchanged
                m2 = re.search(r"tuple\{0: (.*)\.0, 1: (.*)\.1\}", s)
                C.ob("scan-pair", "rocksdb: yields key and value of the same entry", (m2 and m2.group(1) == m2.group(2)), s, k.where(r.pid))
    C.floor("rocksdb prefix tests", preds, 1)


def increments(a):
    """nodes adding exactly one to something"""
    out = []
    for n in a.p.nodes:
        if n.n.k == "asg" and n.n.v and n.n.v[0] == "bin" and n.n.v[1].startswith("Add"):
            for o in (n.n.v[2], n.n.v[3]):
                if o[0] == "k" and o[1].get("int") == 1:
                    out.append(n.id)
    return out


@prop("S04", [CR],
      "MIR error-flow analysis: no path on which a backend failure was observed reaches a success return; no dropped Result of a fallible backend call",
      "Every call in a storage backend whose result can carry a failure is followed to all exits with callees and closures inlined: once the failure branch is taken only an error return or an abort is reachable, and no such result is discarded unexamined. The stub backend has no success return at all.")
def s04(C):
    B = backends(C)
    n = 0
    for kind, ms in sorted(B.items()):
        for m, f in sorted(ms.items()):
            a = C.an(f)
            I = f"{kind} {m}"
            if kind == "none":
                C.ob("no-backend", f"{I} never succeeds", all(r.variant == "Err" for r in a.rets()) and a.rets(), f"{[r.s for r in a.rets()]}", f["span"])
                n += 1
                continue
            oks = {r.pid for r in a.rets("Ok")}
            roots = [a]
            for c in a.calls():
                ret = result_ty(a, c)
                if ret is None:
                    continue
                n += 1
                v = a.s(c.value)
                bad = a.edges_matching(lambda s: s == f"{v} is Err")
                tgt = [y for (i, l) in bad for ll, y in a.p.nodes[i].succ if ll == l]
                C.ob("error-examined", f"{I}: {c.name}", bad or v in "".join(a.ret_values()), f"the result of {c.name} is never examined", c.where)
                hit = a.reach(tgt) & oks if tgt else set()
                C.ob("error-propagated", f"{I}: {c.name}", not hit, f"after {c.name} failed a success return is reachable", c.where, a.describe(a.paths_avoiding(hit, start=tgt[0])) if hit else None)
            # closures run lazily by a returned iterator: their failures have nowhere to go
            for c in a.calls():
                if c.f.get("trait", "").endswith("Iterator") and c.f["name"] in ("filter_map", "map", "flat_map", "map_while", "filter", "take_while"):
                    t = a.g.closure_target(c.n.args[1])
                    if t and t[0] == "closure":
                        k = C.an(t[1])
                        p = [l for l in t[1]["locals"][2 : t[1]["args"] + 1]]
                        for l in p:
                            if ty_head(l["ty"]) == "Result":
                                n += 1
                                nm = l.get("n", "")
                                bad = k.edges_matching(lambda s: s == f"{nm} is Err")
                                tgt = [y for (i, ll) in bad for l2, y in k.p.nodes[i].succ if l2 == ll]
                                hit = k.reach(tgt) & {r.pid for r in k.rets() if r.variant in ("None", "Ok", None)}
                                C.ob("error-propagated", f"{I}: entry of the native scan", not hit, "a failed read of an entry is silently dropped from the scan", c.where)
    C.floor("fallible backend results", n, 14)


def result_ty(a, c):
    """destination type when a call to a foreign function returns a Result"""
    if c.f.get("local") and "synth" not in c.f:
        pass
    d = c.n.d
    if d is None:
        return None
    ctx, l, pr = d
    if pr or ctx < 0 or l < 0:
        return None
    ty = a.g.ctxs[ctx].fn["locals"][l]["ty"]
    if ty_head(ty) == "Result" and c.f["name"] not in ("map_err", "from_residual", "branch"):
        return ty
    return None
