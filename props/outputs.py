"""Unspent outputs: the pending changes, the pool over the database, and what a transaction does to them."""
import re
from wf.check import prop, sites, params
from wf.extra import Bytes, fact
from wf.maps import headers
from wf.valid import *
from props.stakes import shape, same

DS = "witnet_data_structures"
VA = "witnet_validations"


def answers(C, a, rule, inst, contra, want):
    """with the atoms CONTRA impossible, everything returned renders as one of WANT"""
    b = a.under(lambda s: s in contra)
    got = sorted({b.s(x) for r in b.rets() for x in (alts(b, r.value) if r.s not in want else [r.value])})
    C.ob(rule, inst, bool(got) and set(got) <= set(want), f"answers {got}, expected {want}"[:500], a.fn["span"])


def opt(v):
    return f"Option::Some{{0: {v}}}"


NONE = "Option::None{}"


class Src:
    """atoms of one source of outputs"""

    def __init__(s, name, yes, no, val):
        s.name, s.yes, s.no, s.val = name, set(yes), set(no), val


def member(coll, k):
    return Src(coll, [f"contains({coll}, {k})", f"contains_key({coll}, {k})"], [f"!contains({coll}, {k})", f"!contains_key({coll}, {k})"], None)


def entry(coll, k):
    g = f"get({coll}, {k})"
    return Src(coll, [f"{g} is Some", f"contains_key({coll}, {k})"], [f"{g} is None", f"!contains_key({coll}, {k})"], f"{g}.Some.0")


def pool_rows(me, k):
    """rows of what the pool itself holds: (text, contradicted atoms, value or None)"""
    rm, add = member(f"{me}.diff.utxos_to_remove", k), entry(f"{me}.diff.utxos_to_add", k)
    g = f"UtxoDb::get_utxo({me}.db.Some.0, {k}).Ok.0"
    db = Src("db", [f"{g} is Some"], [f"{g} is None"], f"{g}.Some.0")
    nodb = {f"{me}.db is Some"}
    hasdb = {f"{me}.db is None"}
    return [("removed and not yet persisted", rm.no, None, None),
            ("pending", rm.yes | add.no, add.val, None),
            ("in the database", rm.yes | add.yes | db.no | hasdb, db.val, g),
            ("nowhere", rm.yes | add.yes | db.yes | hasdb, None, g),
            ("nowhere, without database", rm.yes | add.yes | nodb, None, None)]


def done_for(C, a, rule, inst, coll, calls, ends, what, cut=()):
    per_element(C, a, rule, inst, coll, ends, what, nodes=calls, cut=cut)


@prop("D01", [DS],
      "decision table of every query over removed/pending/stored (contradicting branches removed); per-element coverage of applying, persisting and visiting; exact effects of every change",
      "UnspentOutputsPool, Diff, UtxoDiff, the UTXO database wrapper and its index by owner are analysed on all paths. Every query is decided in every combination of removed, pending and stored. Applying and persisting are shown to treat every pending output and removal exactly once, with the output and block number held. Visits are shown to offer every pending output that is not removed, and to draw on the database's own iterator. Keys of the database are compared as byte strings, values by the serialization calls. Inserting an output that is pending, or removing one already removed, aborts by design; a failing database write aborts too (so the index by owner being updated first is not observable).")
def d01(C):
    P = "UnspentOutputsPool"
    # queries
    for nm, out in (("get_map", lambda v, g: [opt(v)] + ([g] if g else [])), ("get", lambda v, g: [opt(v + ".0")]), ("included_in_block_number", lambda v, g: [opt(v + ".1")]), ("contains_key", lambda v, g: ["1"])):
        fs = C.F.method(DS, P, nm)
        if nm == "get_map" and not fs:
            continue
        a = C.A(DS, P, nm)
        me, k = params(a)
        for inst, contra, v, g in pool_rows(me, k):
            none = [NONE] if nm != "contains_key" else ["0"]
            want = out(v, g) if v else none + ([g] if g and nm == "get_map" else [])
            answers(C, a, "query", f"pool.{nm}: {inst}", contra, want)
    a = C.A(DS, "UtxoDiff", "get")
    me, k = params(a)
    rm, add = member(f"{me}.diff.utxos_to_remove", k), entry(f"{me}.diff.utxos_to_add", k)
    for inst, contra, v, g in pool_rows(f"{me}.utxo_set", k):
        answers(C, a, "query", f"diff.get: spent in the diff, in the pool {inst}", contra | rm.no, [NONE])
        answers(C, a, "query", f"diff.get: not in the diff, in the pool {inst}", contra | rm.yes | add.yes, [opt(v + ".0")] if v else [NONE])
        if not v:
            answers(C, a, "query", f"diff.get: created in the diff, in the pool {inst}", contra | rm.yes | add.no, [opt(add.val + ".0")])
    a = C.A(DS, "UtxoDiff", "included_in_block_number")
    me, k = params(a)
    rm, add = member(f"{me}.diff.utxos_to_remove", k), entry(f"{me}.diff.utxos_to_add", k)
    for inst, contra, v, g in pool_rows(f"{me}.utxo_set", k):
        answers(C, a, "query", f"diff.included_in_block_number: spent in the diff, in the pool {inst}", contra | rm.no, [NONE])
        answers(C, a, "query", f"diff.included_in_block_number: not in the diff, in the pool {inst}", contra | rm.yes | add.yes, [opt(v + ".1")] if v else [NONE])
        if not v:
            answers(C, a, "query", f"diff.included_in_block_number: created in the diff, in the pool {inst}", contra | rm.yes | add.no, [NONE, opt(add.val + ".1")])
    # changes
    a = C.A(DS, P, "insert")
    me, k, v, n = params(a)
    es = [e for e in a.effects() if e.root.startswith(me)]
    for e in es:
        C.ob("change", "pool.insert: files the output and its block under its pointer", e.op == "insert" and e.root == f"{me}.diff.utxos_to_add" and e.args == [k, f"tuple{{0: {v}, 1: {n}}}"], f"{e.op} {e.root} {e.args}"[:200], a.where(e.pid))
    C.must_pass(a, "change", "pool.insert: always files", es, a.rets(), "returns without")
    old = f"insert({me}.diff.utxos_to_add, {k}, tuple{{0: {v}, 1: {n}}}) is None"
    need(C, a, "change", "pool.insert: never silently replaces a pending output", a.rets(), old, f"!contains_key({me}.diff.utxos_to_add, {k})", f"get({me}.diff.utxos_to_add, {k}) is None")
    a = C.A(DS, P, "remove")
    me, k = params(a)
    es = [e for e in a.effects() if e.root.startswith(me)]
    for e in es:
        C.ob("change", "pool.remove: marks the pointer as removed", e.op == "insert" and e.root == f"{me}.diff.utxos_to_remove" and e.args == [k], f"{e.op} {e.root} {e.args}"[:200], a.where(e.pid))
    C.must_pass(a, "change", "pool.remove: always marks", es, a.rets(), "returns without")
    need(C, a, "change", "pool.remove: never silently removes twice", a.rets(), f"insert({me}.diff.utxos_to_remove, {k})", f"!contains({me}.diff.utxos_to_remove, {k})")
    a = C.A(DS, "UtxoDiff", "insert_utxo")
    me, p, o, bn = params(a)
    for some, bad, w in ((True, f"{bn} is None", f"{bn}.Some.0"), (False, f"{bn} is Some", f"{me}.block_number")):
        b = a.under(lambda s: s == bad)
        es = [c for c in b.calls() if c.f["name"] == "insert"]
        ok = [c for c in es if c.arg(0) == f"{me}.diff.utxos_to_add" and c.arg(1) == p and c.arg(2) in (f"tuple{{0: {o}, 1: {w}}}", f"tuple{{0: {o}, 1: unwrap_or({bn}, {me}.block_number)}}")]
        C.ob("change", f"diff.insert_utxo: the output with {'the given' if some else 'its own'} block number", es and len(ok) == len(es), str([c.args for c in es])[:300], a.fn["span"])
        C.must_pass(b, "change", f"diff.insert_utxo: always recorded ({'given' if some else 'own'} block)", es, b.rets(), "returns without")
    a = C.A(DS, "UtxoDiff", "remove_utxo")
    me, p = params(a)
    R = f"remove({me}.diff.utxos_to_add, {p})"
    own = {f"{R} is Some", f"contains_key({me}.diff.utxos_to_add, {p})", f"get({me}.diff.utxos_to_add, {p}) is Some"}
    foreign = {f"{R} is None", f"!contains_key({me}.diff.utxos_to_add, {p})", f"get({me}.diff.utxos_to_add, {p}) is None"}
    for e in a.effects():
        if e.root.startswith(me):
            C.ob("change", "diff.remove_utxo: touches only that pointer", e.args == [p] and ((e.op, e.root) in (("remove", f"{me}.diff.utxos_to_add"), ("insert", f"{me}.diff.utxos_to_remove"))), f"{e.op} {e.root} {e.args}"[:200], a.where(e.pid))
    b = a.under(lambda s: s in foreign)
    rm = [e for e in b.effects() if e.op == "remove" and e.root.endswith("utxos_to_add")]
    mk = [e for e in b.effects() if e.op == "insert" and e.root.endswith("utxos_to_remove")]
    C.must_pass(b, "change", "diff.remove_utxo: an output created in the diff disappears", rm, b.rets(), "it stays")
    C.ob("change", "diff.remove_utxo: an output created in the diff is not marked as spent from the pool", not mk, "marked", a.fn["span"])
    b = a.under(lambda s: s in own)
    mk = [e for e in b.effects() if e.op == "insert" and e.root.endswith("utxos_to_remove")]
    C.must_pass(b, "change", "diff.remove_utxo: another output is marked as spent", mk, b.rets(), "it is not")
    a = C.A(DS, "UtxoDiff", "take_diff")
    C.ob("change", "diff.take_diff: everything collected", all(r.s == f"{params(a)[0]}.diff" for r in a.rets()), str([r.s for r in a.rets()])[:200], a.fn["span"])
    # the diff onto the pool
    M = tuple(sorted({f["key"] for n in ("insert", "remove", "db_insert", "db_remove", "get_map") for f in C.F.method(DS, P, n)}))
    a = C.A(DS, "Diff", "apply", no_inline=M)
    me, pool = params(a)
    A_, R_ = f"{me}.utxos_to_add", f"{me}.utxos_to_remove"
    ins = [c for c in a.calls() if c.f["name"] == "insert" and c.arg(0) == pool]
    rem = [c for c in a.calls() if c.f["name"] == "remove" and c.arg(0) == pool]
    for c in ins:
        C.ob("apply", "Diff::apply: each created output with its block", c.args[1:4] == [f"elem({A_}).0", f"elem({A_}).1.0", f"elem({A_}).1.1"], str(c.args)[:300], c.where)
    for c in rem:
        C.ob("apply", "Diff::apply: each spent output", c.arg(1) in (f"elem({R_})", f"&elem({R_})"), str(c.args)[:300], c.where)
    done_for(C, a, "apply", "Diff::apply: every created output is added", A_, ins, a.rets(), "added")
    done_for(C, a, "apply", "Diff::apply: every spent output is removed", R_, rem, a.rets(), "removed")
    a = C.A(DS, "Diff", "visit")
    me, args, fa, fr = params(a)
    for coll, fn, tail in ((f"{me}.utxos_to_add", fa, ["elem(%s).0", "elem(%s).1.0"]), (f"{me}.utxos_to_remove", fr, ["elem(%s)"])):
        cs = [c for c in a.calls() if c.f["name"] in ("call_mut", "call", "call_once") and c.arg(0) == fn]
        want = "tuple{" + ", ".join(f"{i}: {x}" for i, x in enumerate([args] + [t % coll for t in tail])) + "}"
        for c in cs:
            C.ob("apply", f"Diff::visit: {fn} is given the element", c.arg(1) == want, c.arg(1)[:300], c.where)
        done_for(C, a, "apply", f"Diff::visit: every element is offered to {fn}", coll, cs, a.rets(), "offered")
    # persistence
    a = C.A(DS, P, "persist_add_to_batch", no_inline=tuple(k for k in M if k not in {f["key"] for n in ("db_insert", "db_remove") for f in C.F.method(DS, P, n)}))
    me, batch = params(a)
    D = f"take({me}.diff)"
    A_, R_ = f"{D}.utxos_to_add", f"{D}.utxos_to_remove"
    gone = f"remove({R_}, elem({A_}).0)"
    put = [c for c in a.calls() if c.f["name"] in ("push", "put") and c.arg(1).startswith("UtxoWriteBatchItem::Put{")]
    dele = [c for c in a.calls() if c.f["name"] in ("push", "delete") and c.arg(1).startswith("UtxoWriteBatchItem::Delete{")]
    known = {a_text(c) for c in put + dele}
    other = [c for c in a.calls() if c.f["name"] == "push" and c.arg(0) == f"{batch}.v" and a_text(c) not in known]
    C.ob("persist", "only outputs and removals are written", not other, str([c.args for c in other])[:200], a.fn["span"])
    E_ = f"elem({A_})"
    for c in put:
        C.ob("persist", "an output is written with its own content and block, under its pointer", c.arg(0) == f"{batch}.v" and c.arg(1) in (f"UtxoWriteBatchItem::Put{{0: {E_}.0, 1: tuple{{0: {E_}.1.0, 1: {E_}.1.1}}}}", f"UtxoWriteBatchItem::Put{{0: {E_}.0, 1: {E_}.1}}"), str(c.args)[:400], c.where)
    for c in dele:
        C.ob("persist", "a removal is written for its pointer", c.arg(0) == f"{batch}.v" and c.arg(1) == f"UtxoWriteBatchItem::Delete{{0: elem({R_})}}", str(c.args)[:300], c.where)
    need(C, a, "persist", "an output created and spent before persisting is not written", put, "!" + gone)
    done_for(C, a, "persist", "every other pending output is written", A_, put, a.rets(), "written", cut=edges(a, gone))
    done_for(C, a, "persist", "every remaining removal is written", R_, dele, a.rets(), "written")
    C.never_after(a, "persist", "removals are written after those of unwritten outputs are discarded", dele, [c for c in a.calls() if a.s(c.value) == gone], "discarded too late")
    a = C.A(DS, P, "persist", no_inline=tuple(f["key"] for f in C.F.method(DS, P, "persist_add_to_batch")))
    me = params(a)[0]
    add = [c for c in a.calls() if c.f["name"] == "persist_add_to_batch" and c.arg(0) == me]
    wr = [c for c in a.calls() if c.f["name"] == "write" and c.arg(0) == f"{me}.db.Some.0"]
    C.must_pass(a, "persist", "persist: the pending changes are put in the batch before it is written", add, wr, "written without")
    need(C, a, "persist", "persist: returns only when written", a.rets(), *[a.s(c.value) + " is Ok" for c in wr]) if wr else C.ob("persist", "persist: writes the batch", False, "never", a.fn["span"])
    for c in wr:
        C.ob("persist", "persist: the batch written is the one filled", "Default::default()" in c.arg(1) or "default" in c.arg(1), c.arg(1)[:200], c.where)
    a = C.A(DS, P, "remove_persisted_from_memory")
    me, d = params(a)
    for coll, k, root in ((f"{d}.utxos_to_add", f"elem({d}.utxos_to_add).0", "utxos_to_add"), (f"{d}.utxos_to_remove", f"elem({d}.utxos_to_remove)", "utxos_to_remove")):
        es = [e for e in a.effects() if e.root == f"{me}.diff.{root}"]
        for e in es:
            C.ob("persist", f"what was persisted leaves {root}", e.op in ("remove", "remove_entry", "take") and e.args == [k], f"{e.op} {e.args}"[:200], a.where(e.pid))
        done_for(C, a, "persist", f"all that was persisted leaves {root}", coll, es, a.rets(), "forgotten")
    others = [e for e in a.effects() if e.root.startswith(me) and not e.root.endswith(("utxos_to_add", "utxos_to_remove"))]
    C.ob("persist", "nothing else is forgotten", not others, str([(e.op, e.root) for e in others])[:200], a.fn["span"])
    # clearing and migrating
    a = C.A(DS, P, "delete_all_from_db_batch", no_inline=tuple(f["key"] for f in C.F.method(DS, P, "db_iter")))
    me, batch = params(a)
    SRC = f"UnspentOutputsPool::db_iter({me})"
    de = [c for c in a.calls() if c.f["name"] in ("push", "delete") and c.arg(1).startswith("UtxoWriteBatchItem::Delete{")]
    for c in de:
        C.ob("clear", "deletes what is stored", c.arg(0) == f"{batch}.v" and c.arg(1) == f"UtxoWriteBatchItem::Delete{{0: elem({SRC}).0}}", str(c.args)[:300], c.where)
    done_for(C, a, "clear", "every stored output is deleted", SRC, de, a.rets(), "deleted")
    a = C.A(DS, P, "db_iter")
    me = params(a)[0]
    C.ob("clear", "the stored outputs are the database's own", all(re.search(rf"UtxoDb::utxo_iterator\({me}\.db\.Some\.0\)", r.s) and "diff" not in r.s for r in a.rets()), str([r.s for r in a.rets()])[:300], a.fn["span"])
    a = C.A(DS, P, "migrate_old_unspent_outputs_pool_to_db", no_inline=tuple(f["key"] for f in C.F.method(DS, P, "get_map")))
    me, old, pr = params(a)
    pu = [c for c in a.calls() if c.f["name"] in ("push", "put") and "UtxoWriteBatchItem::Put{" in c.arg(1)]
    E_ = f"elem({old}.map)"
    for c in pu:
        C.ob("migrate", "each old output keeps its content and block", c.arg(1) in (f"UtxoWriteBatchItem::Put{{0: {E_}.0, 1: tuple{{0: {E_}.1.0, 1: {E_}.1.1}}}}", f"UtxoWriteBatchItem::Put{{0: {E_}.0, 1: {E_}.1}}"), c.arg(1)[:300], c.where)
    done_for(C, a, "migrate", "every old output is written", [f"{old}.map", f"enumerate({old}.map)"], pu, a.rets(), "written")
    wr = [c for c in a.calls() if c.f["name"] == "write" and c.arg(0) == f"{me}.db.Some.0"]
    C.must_pass(a, "migrate", "and stored", wr, a.rets(), "not stored")
    # visits
    for nm, it in (("visit", "utxo_iterator"), ("visit_with_pkh", "utxo_iterator_by_pkh")):
        a = C.A(DS, P, nm)
        ps = params(a)
        me, fn = ps[0], ps[-1]
        A_ = f"{me}.diff.utxos_to_add"
        cs = [c for c in a.calls() if c.f["name"] in ("call_mut", "call") and c.arg(0) == fn]
        skip = [f"contains({me}.diff.utxos_to_remove, elem({A_}).0)"]
        if nm == "visit_with_pkh":
            skip += [f"elem({A_}).1.0.pkh ne {ps[1]}", f"{ps[1]} ne elem({A_}).1.0.pkh"]
        done_for(C, a, "visit", f"{nm}: every pending output that is not spent is offered", A_, cs, a.rets(), "offered", cut=edges(a, *skip))
        b = a.under(lambda s: s in {"!" + skip[0]})
        hs = headers(b, A_)
        more = [y for h in hs.values() for k, l in h["more"] for ll, y in b.p.nodes[k].succ if ll == l]
        nxt = set(hs)
        C.ob("visit", f"{nm}: spent outputs are told apart", bool(edges(a, skip[0])) and bool(edges(a, "!" + skip[0])), "never", a.fn["span"])
        src = [c for c in a.calls() if c.f["name"] == it and c.arg(0) == f"{me}.db.Some.0"]
        dbs = [x for x in elements(a, rf"UtxoDb::{it}\({me}\.db\.Some\.0")]
        per_element(C, a, "visit", f"{nm}: every stored output that is not spent is offered too", dbs or ["the database's outputs"], a.rets(), "offered", nodes=cs, cut=edges(a, *[f"contains({me}.diff.utxos_to_remove, elem({x}).0)" for x in dbs]))
        for x in dbs:
            C.ob("visit", f"{nm}: spent outputs are told apart among the stored ones", bool(edges(a, f"!contains({me}.diff.utxos_to_remove, elem({x}).0)")), "never", a.fn["span"])
        C.ob("visit", f"{nm}: the database's outputs are drawn on", bool(src), "not drawn on", a.fn["span"])
        for c in src[:1]:
            if nm == "visit_with_pkh":
                C.ob("visit", f"{nm}: those of that owner", c.arg(1) == ps[1], c.arg(1)[:100], c.where)
        conf = ps[-2]
        insp = [c for c in a.calls() if c.f["name"] == "inspect" and c.arg(1) == conf]
        expl = [c for c in a.calls() if c.f["name"] in ("call_mut", "call") and c.arg(0) == conf]
        C.ob("visit", f"{nm}: stored outputs, and only those, are confirmed", bool(insp or expl) and all(re.fullmatch(rf"UtxoDb::{it}\({re.escape(me)}\.db\.Some\.0(, {ps[1]})?\)\.Ok\.0|UnspentOutputsPool::db_iter\({me}\)|flatten\(.*UtxoDb::{it}\(.*", c.arg(0)) and "utxos_to_add" not in c.arg(0) for c in insp) and all("utxos_to_add" not in c.arg(1) for c in expl), str([c.args for c in insp + expl])[:300], a.fn["span"])
    a = C.A(DS, P, "iter", no_inline=tuple(f["key"] for f in C.F.method(DS, P, "db_iter")))
    me = params(a)[0]
    got = [r.s for r in a.rets()]
    R_ = f"{me}.diff.utxos_to_remove"
    cl = {}
    for f in closures(C, a.fn):
        x = C.an(f)
        hit = [e for e in x.edges_matching(lambda s: re.match(r"!?contains\(.*utxos_to_remove, ", s))]
        out = {v for v in x.ret_values()}
        n = re.search(r"(\{closure#\d+\})$", f["path"]).group(1)
        if any(re.fullmatch(r"(!|Not\()contains\(.*utxos_to_remove, \w+(\.0)?\)+", v) for v in out) and len(out) == 1:
            cl[n] = True
        elif hit:
            yes, no = x.under(lambda s: re.match(r"!contains\(.*utxos_to_remove, ", s) is not None), x.under(lambda s: re.match(r"contains\(.*utxos_to_remove, ", s) is not None)
            y, z = set(yes.ret_values()), set(no.ret_values())
            cl[n] = y <= {NONE, "0", "false"} and bool(z) and not z & {NONE, "0", "false"}
    srcs = lambda t: "utxos_to_add" in t and "db_iter(" in t
    for g in got:
        m = re.fullmatch(r"(?:filter|filter_map)\(chain\((.*)\), (\{closure#\d+\})\{.*\}\)", g)
        m2 = re.fullmatch(r"chain\((?:filter|filter_map)\(.*, (\{closure#\d+\})\{.*\}\), (?:filter|filter_map)\(.*, (\{closure#\d+\})\{.*\}\)\)", g)
        ok = (m and srcs(m.group(1)) and cl.get(m.group(2))) or (m2 and srcs(g) and cl.get(m2.group(1)) and cl.get(m2.group(2)))
        C.ob("visit", "iter: goes over pending and stored outputs, leaving out those spent", bool(ok), f"{g}; closures {cl}"[:400], a.fn["span"])
    C.floor("iter: what it returns", len(got), 1)
    # database
    a = C.A(DS, "UtxoDbWrapStorage", "get_utxo", "UtxoDb")
    me, k = params(a)
    gs = [c for c in a.calls() if c.f["name"] == "get" and c.arg(0) == f"{me}.0"]
    C.floor("database reads", len(sites(a, gs)), 1)
    for c in gs:
        C.ob("database", "get_utxo: reads the key of that pointer", key_of(a, c.val(1), c.pid, k), a.s(c.val(1))[:300], c.where)
    a = C.A(DS, "UtxoDbWrapStorage", "write", "UtxoDb", no_inline=())
    me, b_ = params(a)
    ws = [c for c in a.calls() if c.f["name"] == "write" and c.arg(0) == f"{me}.0"]
    C.ob("database", "write: the batch is handed to the storage", ws and all(r.s == f"Storage::write({me}.0, {a.s(c.val(1))})" for r in a.rets() for c in ws), str([r.s for r in a.rets()])[:300], a.fn["span"])
    # index by owner
    a = C.A(DS, "CacheUtxosByPkh", "write", "UtxoDb")
    me, b_ = params(a)
    V = f"{b_}.v"
    G = f"write({me}.cache).Ok.0"
    own = f"UtxoDb::get_utxo({me}.db, elem({V}).Delete.0).Ok.0.Some.0.0.pkh"
    ins = [c for c in a.calls() if c.f["name"] == "insert" and c.arg(1) == f"elem({V}).Put.0" and c.arg(0) in (f"or_default(entry({G}, elem({V}).Put.1.0.pkh))",)]
    rem = [c for c in a.calls() if c.f["name"] == "remove" and c.arg(0) == f"get_mut({G}, {own}).Some.0" and c.arg(1) == f"elem({V}).Delete.0"]
    drop = [c for c in a.calls() if c.f["name"] == "remove" and c.arg(0) == G]
    wr = [c for c in a.calls() if c.f["name"] == "write" and c.arg(0) == f"{me}.db"]
    others = [c for c in a.calls() if c.f["name"] in ("insert", "remove", "clear", "retain", "entry") and G in c.arg(0) and a_text(c) not in {a_text(x) for x in ins + rem + drop} and c.f["name"] != "entry"]
    C.ob("index", "nothing else enters or leaves the index", not others, str([c.args for c in others])[:300], a.fn["span"])
    kind = lambda k: (lambda s: s.startswith(f"elem({V}) is ") and k not in s.split(" is ")[1].split("/"))
    for k, es, what in (("Put", ins, "an output written is listed under its owner"), ("Delete", rem, "an output deleted leaves the list of its owner")):
        b = a.under(kind(k))
        pids = [c for c in b.calls() if a_text(c) in {a_text(x) for x in es}]
        done_for(C, b, "index", what, V, pids, oks(b) or b.rets(), what)
    for c in drop:
        C.ob("index", "only an empty list is dropped", c.arg(1) == own, c.arg(1)[:200], c.where)
    if drop:
        L = f"get_mut({G}, {own}).Some.0"
        need(C, a, "index", "only an empty list is dropped", drop, f"is_empty({L})", f"len({L}) eq 0", f"0 eq len({L})")
    ends = [r for r in a.rets() if r.variant != "Err"]
    C.must_pass(a, "index", "the batch is written to the database", wr, ends, "returns without")
    for c in wr:
        C.ob("index", "the batch written is the one indexed", c.arg(1) == b_, c.arg(1)[:200], c.where)
    a = C.A(DS, "CacheUtxosByPkh", "new_with_progress")
    db = params(a)[0]
    IT = f"UtxoDb::utxo_iterator({db}).Ok.0"
    ins = [c for c in a.calls() if c.f["name"] == "insert" and c.arg(1) == f"elem({IT}).0" and re.fullmatch(rf"or_default\(entry\([\w:()]+, elem\({re.escape(IT)}\)\.1\.0\.pkh\)\)", c.arg(0))]
    done_for(C, a, "index", "the index starts with every stored output under its owner", [IT, f"enumerate({IT})"], ins, oks(a), "listed")


def a_text(c):
    return (c.f["name"], tuple(c.args))


def key_of(a, v, pid, k):
    """V is the text "UTXO-" followed by the printed pointer K"""
    s = a.s(v)
    return bool(re.search(r'UTXO-', s)) and f"new_display({k})" in s and s.count("new_display") == 1


@prop("V13", [VA],
      "per-element coverage of inputs and outputs; normal form of what is inserted per protocol version; path search between differing owners and a kept block number",
      "update_utxo_diff is analysed on all paths: every input is removed, every output is inserted at its own position, its time lock counted from the epoch exactly when relative and from stake on. The block number of the inputs is shown to be kept only for outputs to the one owner of all inputs, and to cover every input. Known finding: an input created in the same block counts as created in block 0.")
def v13(C):
    NI = tuple(f["key"] for n in ("get", "included_in_block_number", "insert_utxo", "remove_utxo") for f in C.F.method(DS, "UtxoDiff", n)) + keys(C, "get_protocol_version", "epoch_timestamp")
    a = plain(C.fnA(VA, "update_utxo_diff", no_inline=NI))
    diff, ins, outs, tx, ep, ec, cz = params(a)
    E, O = f"elem({ins}).output_pointer", f"elem({outs})"
    rs = a.rets()
    rem = [c for c in a.calls() if c.f["name"] == "remove_utxo"]
    for c in rem:
        C.ob("spent", "only its own inputs are spent", c.arg(0) == diff and c.arg(1) == E, str(c.args)[:200], c.where)
    per_element(C, a, "spent", "every input is spent", ins, rs, "removed", nodes=rem)
    put = [c for c in a.calls() if c.f["name"] == "insert_utxo"]
    src = sorted({x for x in elements(a, rf"\b{re.escape(outs)}\b")} | {outs, f"enumerate({outs})"})
    per_element(C, a, "created", "every output is created", src, rs, "inserted", nodes=put)
    for c in put:
        C.ob("created", "under the transaction's hash and the output's position", c.arg(0) == diff and re.fullmatch(rf"OutputPointer\{{transaction_id: {tx}, output_index: (try_from\(idx\({outs}\)\)\.Ok\.0|\(idx\({outs}\) as u32\)|try_into\(idx\({outs}\)\)\.Ok\.0|idx\({outs}\))\}}", c.arg(1)), c.arg(1)[:200], c.where)
    # time locks
    PV = f"witnet_data_structures::get_protocol_version({opt(ep)})"
    V2 = "ProtocolVersion::V2_0{}"
    old = {f"{V2} gt {PV}", f"{PV} lt {V2}"}
    new = {f"{V2} le {PV}", f"{PV} ge {V2}"}
    Z = [f"try_into({cz}).Ok.0", f"({cz} as u64)", f"try_from({cz}).Ok.0"]
    rel = {x for z in Z for x in (f"{O}.time_lock lt {z}", f"{z} gt {O}.time_lock")}
    ab = {x for z in Z for x in (f"{O}.time_lock ge {z}", f"{z} le {O}.time_lock")}
    TS = f"EpochConstants::epoch_timestamp({ec}, {ep}).Ok.0.0"
    moved = [f"ValueTransferOutput{{pkh: {O}.pkh, value: {O}.value, time_lock: Add(({TS} as u64), {O}.time_lock)}}", f"{O}[.time_lock:=Add(({TS} as u64), {O}.time_lock)]"]
    kept = [O, f"ValueTransferOutput{{pkh: {O}.pkh, value: {O}.value, time_lock: {O}.time_lock}}"]
    for inst, contra, want in (("before stake, as stated", new, kept), ("from stake on, an absolute time lock as stated", old | rel, kept), ("from stake on, a relative time lock counts from the epoch", old | ab, moved)):
        b = a.under(lambda s: s in contra)
        ps = [c for c in b.calls() if c.f["name"] == "insert_utxo"]
        got = sorted({b.s(x) for c in ps for x in alts(b, c.val(2))})
        C.ob("lock", inst, bool(got) and all(any(same(g, w) for w in want) for g in got), str(got)[:400], a.fn["span"])
    # block numbers
    own = f"UtxoDiff::get({diff}, {E}).Some.0.pkh"
    N = f"UtxoDiff::included_in_block_number({diff}, {E})"
    mine = [x for y in (opt(f"{O}.pkh"), f"{O}.pkh") for w in (opt(own), own, f"map(UtxoDiff::get({diff}, {E}))") for x in (f"{y} eq {w}", f"{w} eq {y}")]
    notmine = [x for y in (opt(f"{O}.pkh"), f"{O}.pkh") for w in (opt(own), own, NONE) for x in (f"{y} ne {w}", f"{w} ne {y}")]
    keep = [c for c in put if any(not a.s(x).startswith(NONE) for x in alts(a, c.val(3)))]
    reset = [c for c in put if any(a.s(x).startswith(NONE) for x in alts(a, c.val(3)))]
    C.floor("outputs that keep a block number", len(sites(a, keep)), 1)
    need(C, a, "age", "kept only for outputs to the owner of the inputs", keep, *mine)
    several = [f"{NONE} is None", f"{own} ne {own}", f"{opt(own)} ne {opt(own)}", f"UtxoDiff::get({diff}, {E}) is None"]
    p = None
    for y in [y for h in headers(a, ins).values() for k, l in h["more"] for ll, y in a.p.nodes[k].succ if ll == l]:
        p = p or a.paths_avoiding({c.pid for c in reset}, start=y, cut_edges=edges(a, *notmine, *several))
    C.ob("age", "reset only for outputs to somebody else", p is None, "the block number is reset only when the owner differs", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)
    # between the inputs: nothing is kept unless they all have one owner
    more = [y for h in headers(a, ins).values() for k, l in h["more"] for ll, y in a.p.nodes[k].succ if ll == l]
    after = a.reach([c.pid for c in rem])
    second = [y for y in more if y in after]
    eq = edges(a, *[x for w in (opt(own), own) for x in (f"{w} eq {w}",)])
    p = None
    for y in second:
        p = p or a.paths_avoiding({c.pid for c in keep}, start=y, cut_edges=eq)
    C.ob("age", "kept only when every further input belongs to the same owner", bool(second) and p is None, "an input of another owner is passed over", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)
    mx = [c for c in a.calls() if c.f["name"] == "max" and any(f"{N}.Some.0" in x for x in c.args)]
    cmp_ = edges(a, re.compile(rf"{re.escape(N)}\.Some\.0 (gt|ge|lt|le) |(gt|ge|lt|le) {re.escape(N)}\.Some\.0"))
    b = a.prune(edges(a, f"{N} is None"))
    q = None
    more = [y for h in headers(b, ins).values() for k, l in h["more"] for ll, y in b.p.nodes[k].succ if ll == l]
    mb = {c.pid for c in b.calls() if c.f["name"] == "max" and any(f"{N}.Some.0" in x for x in c.args)}
    kb = {c.pid for c in b.calls() if c.f["name"] == "insert_utxo" and any(not b.s(x).startswith(NONE) for x in alts(b, c.val(3)))}
    for y in more:
        q = q or b.paths_avoiding(kb, start=y, cut_nodes=mb, cut_edges=edges(b, re.compile(rf"{re.escape(N)}\.Some\.0 (gt|ge|lt|le) |(gt|ge|lt|le) {re.escape(N)}\.Some\.0")))
    C.ob("age", "what is kept covers every input", bool(more) and q is None, "an input's block number is passed over", b.where(q[-1]) if q else a.fn["span"], b.describe(q) if q else None)
    for c in keep:
        s = c.arg(3)
        fs = set(re.findall(r"\b([a-z_]\w*)\(", s.replace(N, "N"))) - {"N"}
        C.ob("age", "the most recent one", fs <= {"max"} and (N in s or len(keep) > 1 and s == "Option::Some{0: 0}"), s[:300], c.where)
    C.ob("age", "what is kept comes from the inputs", any(N in c.arg(3) for c in keep), "from elsewhere", a.fn["span"])
    plain_ = [c for c in keep if N in c.arg(3) and "max(" not in c.arg(3)]
    if plain_:
        X = rf"{re.escape(N)}\.Some\.0"
        need(C, a, "age", "a number replaces another only when it is more recent", plain_, re.compile(rf"{X} (gt|ge) .*|.* (lt|le) {X}"))
    # an input of the same block has no number of its own
    b = a.under(lambda s: s == f"{N} is Some")
    zero = [c for c in b.calls() if c.f["name"] == "insert_utxo" and any(b.s(x).startswith("Option::Some") for x in alts(b, c.val(3)))]
    C.ob("age", "an input created in the same block is as recent as it, not created in block 0", not zero, f"{zero[0].arg(3)[:100] if zero else ''}: counted as block 0", zero[0].where if zero else a.fn["span"])
    # each input is looked up before it is spent
    look = {c.pid for c in a.calls() if c.f["name"] in ("get", "included_in_block_number") and c.arg(0) == diff and c.arg(1) == E}
    heads = {i for h in headers(a, ins).values() for i, l in h["more"] | h["done"]}
    p = None
    for c in rem:
        for l, y in a.p.nodes[c.pid].succ:
            p = p or a.paths_avoiding(look, start=y, cut_nodes=heads)
    C.ob("age", "an input is looked up before it is spent", p is None, "looked up after", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)
