"""Reputation: totals against expiring packets, penalties, activity window."""
import re
from wf.check import prop, Anchor, sites, params
from wf.maps import ops, cur, slot, slot_absent, slot_present, headers, each, once, terms
from wf.facts import ty_head
from wf.rules import call_sites

CR = "witnet_reputation"
ZERO = r"(?:Default::default\(\)|0)"


def fields(C, ty):
    """(keyed totals field, queue field) of a reputation set"""
    for k, a in C.F.adts.items():
        if k.split("::")[-1] == ty and k.startswith(CR):
            m = q = None
            for x in a["variants"][0]["fields"]:
                if re.search(r"\bVecDeque<", x["ty"]):
                    q = x["name"]
                elif re.search(r"\b(Hash|BTree)Map<", x["ty"]):
                    m = x["name"]
            if m and q:
                return "self." + m, "self." + q
    raise Anchor(f"type {ty} with a keyed total and a queue")


def has(ms, rx):
    return any(re.search(rx, s) for s in ms)


def edge_rx(a, rx):
    r = re.compile(rx)
    return a.edges_matching(lambda s: r.search(s))


def zero_edges(a, v):
    V = re.escape(v)
    return edge_rx(a, rf"^{V} (le|eq) {ZERO}$")


def nonzero(a, x, v, coll):
    return a.forced(x, lambda s: re.match(rf"^{re.escape(v)} (gt|ne) {ZERO}$", s), (coll,))


def more_edges(a, coll):
    hs = headers(a, coll)
    return set().union(*[h["more"] for h in hs.values()]) if hs else set()


EMPTY = re.compile(r"^(Default::default\(\)|(\w+::)*new\(\)|with_hasher\(.*|with_capacity\w*\(.*)$")


def empties(a, f, ty):
    """effects that leave the field F of self empty: cleared, assigned an empty value, or the whole of self rebuilt empty"""
    out = []
    for x in a.param_effects("self"):
        if x.loc == f and (x.op == "clear" or x.op == "assign" and EMPTY.match(x.args[0])):
            out.append(x)
        elif x.loc == "self" and x.op == "assign" and x.args[0].startswith(ty + "{"):
            if EMPTY.match(record(x.args[0]).get(f.replace("self.", ""), "")):
                out.append(x)
    return out


def record(s):
    """fields of a rendered record"""
    c = s.find("{")
    out, depth, start = {}, 0, c + 1
    for i in range(c + 1, len(s)):
        ch = s[i]
        if ch in "([{":
            depth += 1
        elif ch in ")]}" and depth:
            depth -= 1
        elif ch in ",}" and not depth:
            k, _, v = s[start:i].partition(": ")
            out[k.strip()] = v
            start = i + 1
    return out


def decrement(C, a, rule, inst, m, k, v, coll, ends):
    """each element of COLL takes V off M[K]: subtracts when more is left, removes the entry when exactly that is left"""
    o = [x for x in ops(a) if x.m == m and x.k == k and x.kind != "touch"]
    subs = [x for x in o if x.kind == "sub"]
    rem = [x for x in o if x.kind == "remove"]
    oth = [x for x in o if x.kind not in ("sub", "remove")]
    C.ob(rule, f"{inst}: only subtraction and removal", not oth, str(oth), oth[0].where if oth else a.fn["span"])
    CUR = cur(m, k)
    V = re.escape(v)
    rs = set().union(*[more_edges(a, c) for c in ([coll] if isinstance(coll, str) else coll)]) | {x.pid for x in o}
    for x in subs:
        C.ob(rule, f"{inst}: takes exactly the element's amount", x.v == v, f"subtracts `{x.v}`, element carries `{v}`", x.where)
        C.ob(rule, f"{inst}: subtracts only when strictly more is left", a.only_when(x.pid, CUR, V, ("gt",), rs), "can be reached with less, or exactly that, left", x.where)
    for x in rem:
        C.ob(rule, f"{inst}: the entry is dropped only when exactly that is left", a.only_when(x.pid, CUR, V, ("eq",), rs), "can be reached with another amount left", x.where)
    C.ob(rule, f"{inst}: both cases handled", bool(subs) and bool(rem), f"{o}", a.fn["span"])
    each(C, a, rule, f"{inst}: every element is taken off the totals", coll, subs + rem, zero_edges(a, v), ends, "each element is subtracted (or carries nothing) before the next one")
    once(C, a, rule, f"{inst}: taken off once", coll, subs + rem, "one subtraction per element")
    return subs + rem


def increment(C, a, rule, inst, m, k, v, coll, ends, skip, need_nonzero):
    o = [x for x in ops(a) if x.m == m and x.kind != "touch"]
    adds = [x for x in o if x.k == k and (x.kind in ("add", "new") or x.kind == "set" and has(a.must([x.pid]), slot_absent(m, k)))]
    oth = [x for x in o if x not in adds]
    C.ob(rule, f"{inst}: only additions", not oth, str(oth), oth[0].where if oth else a.fn["span"])
    for x in adds:
        C.ob(rule, f"{inst}: adds exactly the element's amount", x.v == v, f"adds `{x.v}`, element carries `{v}`", x.where)
        if x.kind in ("new", "set"):
            pass
        if need_nonzero:
            C.ob(rule, f"{inst}: nothing is recorded for a zero amount", nonzero(a, x, v, coll), f"conditions: {sorted(a.must([x.pid]))[:8]}", x.where)
    each(C, a, rule, f"{inst}: every element is added", coll, adds, skip, ends, "each element is added (or carries nothing) before the next one")
    once(C, a, rule, f"{inst}: added once", coll, adds, "one addition per element")
    return adds


@prop("R01", [CR],
      "MIR keyed-update extraction with per-iteration must-pass and at-most-once rules; condition domains of the append, merge and reject cases",
      "Every path through recording gains is analysed (callees and closures inlined): a gain older than the newest packet is rejected before anything changes; otherwise each listed positive amount is added exactly once to the owner's total and exactly once to one packet, which is the newest packet exactly when the expirations are equal and a fresh packet appended at the end otherwise; zero amounts leave no entry. The hash map and queue containers are trusted.")
def r01(C):
    M, Q = fields(C, "TotalReputationSet")
    a = C.A(CR, "TotalReputationSet", "gain")
    _, exp, diff = params(a)
    E = f"elem({diff})"
    B = rf"back(_mut)?\({re.escape(Q)}\)\.Some\.0\.0"
    BP = re.compile(rf"^back_mut\({re.escape(Q)}\)\.Some\.0\.1$")
    X = re.escape(exp)
    newer = edge_rx(a, rf"^{B} gt {X}$")
    eff = a.param_effects("self")
    oks, errs = a.rets("Ok"), [r for r in a.rets("Err") if r.variant == "Err"]
    C.ob("gain-sorted", "an older expiration is recognised", bool(newer), "comparison of the newest packet's expiration with the gain's", a.fn["span"])
    tgt = [y for (i, l) in newer for ll, y in a.p.nodes[i].succ if ll == l]
    r = a.reach(tgt)
    C.ob("gain-sorted", "an older expiration is always rejected", not (r & {x.pid for x in oks}), "a success return is reachable for an older expiration", a.fn["span"])
    C.ob("gain-sorted", "a rejected gain changes nothing", not (r & {e.pid for e in eff}), "state is written although the gain is rejected", a.fn["span"])
    for e in errs:
        C.requires(a, "gain-sorted", "rejected only for an older expiration", e.pid, [re.compile(rf"^{B} gt {X}$")])
    C.never_after(a, "gain-sorted", "no rejection after a change", [e.pid for e in eff], [e.pid for e in errs], "an error return is reachable after state was written")
    # totals
    skip = zero_edges(a, E + ".1")
    mine = [r for r in oks]
    increment(C, a, "gain-total", "total", M, E + ".0", E + ".1", diff, mine, skip, False)
    for x in ops(a):
        if x.m == M and x.kind == "touch":
            C.ob("gain-total", "total: no entry for a zero amount", nonzero(a, x, E + ".1", diff), f"{sorted(a.must([x.pid]))[:8]}", x.where)
    # packets
    push = [e for e in eff if e.root == Q and e.op == "push_back"]
    o = [x for x in ops(a) if x.kind != "touch" and x.m != M]
    merge = [x for x in o if BP.match(x.m)]
    C.ob("gain-packet", "one append of a new packet", len(sites(a, push)) == 1, str(push), a.fn["span"])
    qeff = [e for e in eff if (e.root == Q or e.root.startswith(Q)) and e.op != "push_back" and e.pid not in {x.pid for x in ops(a) if BP.match(x.m)}]
    C.ob("gain-packet", "the queue is changed in no other way", not qeff, str(qeff), qeff[0].where if qeff else a.fn["span"])
    steps = list(merge)
    fresh = []
    for p in push:
        m = re.match(r"^tuple\{0: (.*?), 1: (.*)\}$", p.args[0])
        if not C.ob("gain-packet", "new packet carries the gain's expiration", m and m.group(1) == exp, p.args[0], p.where):
            continue
        P = m.group(2)
        fresh = [x for x in o if x.m == P]
        C.ob("gain-packet", "new packet starts empty", re.match(r"^(Default::default\(\)|HashMap::new\(\)|with_hasher\(.*|new\(\)|with_capacity\w*\(.*)$", P) is not None, f"packet `{P}`", p.where)
        cut = edge_rx(a, rf"^{B} (lt|ne) {X}$") | edge_rx(a, rf"^back(_mut)?\({re.escape(Q)}\) is None$") | edge_rx(a, rf"^(is_empty\({re.escape(Q)}\)|len\({re.escape(Q)}\) eq 0)$")
        C.ob("gain-packet", "appended only when the newest packet has another expiration", a.paths_avoiding([p.pid], cut_edges=cut) is None, f"append reachable for an equal expiration", p.where)
        C.never_after(a, "gain-packet", "packet complete before it is appended", [p.pid], [x.pid for x in fresh], "the packet is filled after it was moved into the queue")
    for x in merge:
        C.ob("gain-packet", "merged only into a packet of equal expiration", a.only_when(x.pid, B, X, ("eq",)), "merge reachable for another expiration", x.where)
    for x in merge + fresh:
        C.ob("gain-packet", "packet: keyed by the element's owner", x.k == E + ".0", str(x), x.where)
        C.ob("gain-packet", "packet: adds exactly the element's amount (amounts of one owner accumulate)", x.kind == "add" and x.v == E + ".1", str(x), x.where)
        C.ob("gain-packet", "packet: no entry for a zero amount", nonzero(a, x, E + ".1", diff), f"{sorted(a.must([x.pid]))[:8]}", x.where)
    each(C, a, "gain-packet", "packet: every element is recorded", diff, merge + fresh, skip, mine, "each element is recorded in a packet (or carries nothing) before the next one")
    once(C, a, "gain-packet", "packet: recorded once", diff, merge + fresh, "one packet update per element")
    # success either appends or merges
    eq = edge_rx(a, rf"^{B} eq {X}$")
    p = a.paths_avoiding([r.pid for r in oks], cut_nodes=[e.pid for e in push], cut_edges=eq)
    C.ob("gain-packet", "a gain with a new expiration always appends its packet", p is None, "success without packet", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)
    C.no_abort(a, "gain-total", "recording gains never aborts")
    # construction from packets
    g = C.method(CR, "TotalReputationSet", "gain")
    b = C.an(C.method(CR, "TotalReputationSet", "from_queue"), no_inline=(g["key"],))
    cs = [c for c in b.calls() if c.f["name"] == "gain"]
    q = params(b)[0]
    for c in cs:
        C.ob("gain-import", "each packet imported with its own expiration and amounts", c.args[1:] == [f"elem({q}).0", f"elem({q}).1"], str(c.args), c.where)
        C.propagates(b, "gain-import", "unsorted packets are rejected", c)
    each(C, b, "gain-import", "every packet is imported, in order", q, cs, (), b.rets("Ok"), "each packet recorded before the next one")
    once(C, b, "gain-import", "imported once", q, cs, "one import per packet")
    for v, r in b.ret_values("Ok").items():
        C.ob("gain-import", "the imported set is returned", cs and v in ("Result::Ok{0: %s}" % cs[0].arg(0),), f"{v} vs {cs[0].arg(0) if cs else ''}", b.where(r.pid))
    C.floor("gain update sites", len(merge) + len(fresh), 2)


@prop("R02", [CR],
      "MIR keyed-update extraction; loop-exit conditions and per-element must-pass rules of packet expiry",
      "Every path through expiry is analysed: only the oldest packet is ever removed, and only when its expiration is at or below the given time; each entry of a removed packet is taken off its owner's total exactly once (entry dropped when nothing remains) and added once to the returned sum; the loop ends only when the queue is empty or the oldest packet is still valid. The arithmetic of the reputation type is trusted.")
def r02(C):
    M, Q = fields(C, "TotalReputationSet")
    a = C.A(CR, "TotalReputationSet", "expire")
    _, alpha = params(a)
    q = re.escape(Q)
    al = re.escape(alpha)
    FR = rf"{q}\[0\]\.0"
    pops = [e for e in a.param_effects("self") if e.root.startswith(Q)]
    C.ob("expire-oldest", "packets leave the queue only at the old end", pops and all(e.op == "pop_front" and e.root == Q for e in pops), str(pops), pops[0].where if pops else a.fn["span"])
    for e in pops:
        C.ob("expire-oldest", "removed only when expired", a.only_when(e.pid, FR, al, ("lt", "eq"), {x.pid for x in pops}), f"conditions: {sorted(a.must([e.pid]))[:8]}", e.where)
    for r in a.rets():
        stop = edge_rx(a, rf"^{FR} gt {al}$") | edge_rx(a, rf"^(front(_mut)?\({q}\) is None|is_empty\({q}\)|len\({q}\) eq 0|get\({q}, 0\) is None|pop_front\({q}\) is None)$")
        p = a.paths_avoiding([r.pid], cut_edges=stop)
        C.ob("expire-complete", "stops only at a valid packet or an empty queue", p is None, "an expired packet can be left in the queue", a.where(r.pid), a.describe(p) if p else None)
        for e in pops:
            p = a.paths_avoiding([r.pid], cut_edges=stop, start=a.p.nodes[e.pid].succ[0][1])
            C.ob("expire-complete", "looks again after each removed packet", p is None, "returns right after removing a packet", a.where(r.pid), a.describe(p) if p else None)
    c = "pop_front(%s).Some.0.1" % Q
    E = f"elem({c})"
    hs = headers(a, c)
    C.ob("expire-total", "walks the removed packet", bool(hs), f"no loop over `{c}`", a.fn["span"])
    # inside the outer loop: each popped packet is walked to its end before the queue is looked at again or the function returns
    for e in pops:
        done = set().union(*[h["done"] for h in hs.values()]) if hs else set()
        done |= a.edges_matching(lambda s: s == f"pop_front({Q}) is None")
        tgt = {r.pid for r in a.rets()} | {x.pid for x in pops}
        p = a.paths_avoiding(tgt, cut_edges=done, start=a.p.nodes[e.pid].succ[0][1])
        C.ob("expire-total", "each removed packet is walked to its end", p is None, "entries of a removed packet are skipped", e.where, a.describe(p) if p else None)
    decrement(C, a, "expire-total", "total", M, E + ".0", E + ".1", c, [])
    # returned sum
    sums = [x for x in a.effects() if x.op == "add_assign" and x.args == [E + ".1"] and not slot(x.loc)]
    sums = sums or [x for x in a.calls() if x.f["name"] in ("add", "add_assign") and x.nargs == 2 and x.arg(1) == E + ".1" and not slot(x.arg(0))]
    skip = zero_edges(a, E + ".1")
    each(C, a, "expire-sum", "every removed amount is counted", c, sums, skip, [], "each removed amount is added to the result")
    once(C, a, "expire-sum", "counted once", c, sums, "one addition per entry")
    t = set()
    for r in a.rets():
        t |= terms(a, r.value)
    want = {(1, E + ".1"), (1, "Default::default()")}
    C.ob("expire-sum", "the sum starts at zero and holds only removed amounts", t - {(1, "0")} <= want and (1, E + ".1") in t, str(t), a.fn["span"])
    oth = [x for x in ops(a) if x.kind != "touch" and not (x.m == M and x.k == E + ".0")]
    C.ob("expire-total", "no other owner's total is touched", not oth, str(oth), oth[0].where if oth else a.fn["span"])


@prop("R03", [CR],
      "MIR error-before-effect ordering, signed-term provenance of the remaining reputation, keyed-update extraction, loop-order and must-pass rules",
      "Every path through a penalty is analysed: each requested reduction is computed from the owner's total minus what earlier entries of the same request already take; an attempt to raise reputation returns the error before totals or packets are touched; on success each owner's total falls by exactly the accumulated reduction and packets are consumed from newest to oldest until nothing is owed, and the returned sum adds up the same reductions. Container and arithmetic primitives are trusted.")
def r03(C):
    M, Q = fields(C, "TotalReputationSet")
    a = C.A(CR, "TotalReputationSet", "penalize_many")
    ids = params(a)[1]
    E = f"elem({ids})"
    I = E + ".0"
    fcalls = [c for c in a.calls() if c.f["name"] in ("call", "call_mut", "call_once") and c.arg(0) == E + ".1"]
    if not C.ob("penalty-input", "each requested penalty function is consulted", bool(fcalls), f"call of `{E}.1`", a.fn["span"]):
        return
    each(C, a, "penalty-input", "every request is consulted", ids, fcalls, (), a.rets("Ok"), "each entry's function is called")
    once(C, a, "penalty-input", "consulted once", ids, fcalls, "one call per entry")
    news = {a.s(c.value) for c in fcalls}
    olds = {re.sub(r"^tuple\{0: (.*)\}$", r"\1", c.arg(1)) for c in fcalls}
    C.ob("penalty-input", "one remaining amount", len(olds) == 1 and len(news) == 1, f"{len(olds)} different inputs", fcalls[0].where)
    OLD, NEW = next(iter(olds)), next(iter(news))
    # accumulator of reductions: local map keyed by the request's owner
    sub = [x for x in ops(a) if x.kind in ("add", "new", "set") and x.k == I and not x.m.startswith("self.")]
    C.ob("penalty-owed", "reductions accumulate per owner", sub and all(x.kind == "add" for x in sub), str(sub)[:300], a.fn["span"])
    TS = sub[0].m if sub else "Default::default()"
    tsr = re.escape(TS)
    # remaining amount: total minus what is already owed
    allow_pos = {f"get({M}, {I}).Some.0", "Default::default()", "0"}
    owed = re.compile(rf"^(get({tsr}, {re.escape(I)})\.Some\.0|get\({tsr}, {re.escape(I)}\)\.Some\.0)$")
    t = set()
    for c in fcalls:
        v = c.val(1)
        tt = a.v.t(a.n.peel(v))
        t |= terms(a, tt[4][0] if tt[0] == "agg" else v)
    pos = {s for g, s in t if g > 0}
    neg = {s for g, s in t if g < 0}
    C.ob("penalty-input", "starts from the owner's current total", pos <= allow_pos and f"get({M}, {I}).Some.0" in pos, f"{pos}", fcalls[0].where)
    C.ob("penalty-input", "reduced by what the same request already takes from that owner", all(owed.match(s) or s in ("Default::default()", "0") for s in neg) and any(owed.match(s) for s in neg), f"{neg}", fcalls[0].where)
    some = edge_rx(a, rf"^get\({tsr}, {re.escape(I)}\) is Some$")
    subs = [c.pid for c in a.calls() if c.f["name"] in ("sub_assign", "sub") and owed_arg(a, c, owed)] + [n.id for n in a.p.nodes if n.n.k == "asg" and n.n.v[0] == "bin" and n.n.v[1] == "Sub"]
    bad = None
    for (i, l) in some:
        for ll, y in a.p.nodes[i].succ:
            if ll == l:
                bad = bad or a.paths_avoiding([c.pid for c in fcalls], cut_nodes=subs, start=y)
    C.ob("penalty-input", "an amount already owed is always taken into account", bool(some) and bad is None, "a path calls the function without subtracting", fcalls[0].where, a.describe(bad) if bad else None)
    # the three outcomes
    gt = edge_rx(a, rf"^{re.escape(NEW)} gt {re.escape(OLD)}$")
    eff = [e for e in a.param_effects("self")]
    errs = [r for r in a.rets("Err") if r.variant == "Err"]
    oks = a.rets("Ok")
    C.ob("penalty-reject", "an increase is recognised", bool(gt), "comparison new > remaining", a.fn["span"])
    tgt = [y for (i, l) in gt for ll, y in a.p.nodes[i].succ if ll == l]
    r = a.reach(tgt)
    C.ob("penalty-reject", "an increase is always rejected, before anything changes", gt and not (r & ({x.pid for x in oks} | {e.pid for e in eff})), "success or a write is reachable after an attempted increase", a.fn["span"])
    C.never_after(a, "penalty-reject", "a rejected request leaves everything unchanged", [e.pid for e in eff], [x.pid for x in errs], "an error return is reachable after totals or packets were written")
    for e in errs:
        C.requires(a, "penalty-reject", "rejected only for an increase", e.pid, [f"{NEW} gt {OLD}"])
    for e in eff:
        pass
    lt = edge_rx(a, rf"^{re.escape(NEW)} lt {re.escape(OLD)}$")
    ne = edge_rx(a, rf"^{re.escape(NEW)} (eq|ge) {re.escape(OLD)}$")
    for x in sub:
        tv = term_of(a, x)
        C.ob("penalty-owed", "the reduction is remaining minus new", x.v == f"Sub({OLD}, {NEW})", f"adds `{x.v[:200]}`", x.where)
    tot = [e for e in a.effects() if e.op == "add_assign" and not slot(e.loc) and e.args == [f"Sub({OLD}, {NEW})"]]
    each(C, a, "penalty-owed", "every reduction is recorded", ids, sub, ne, oks, "each reduction is added to what its owner owes")
    once(C, a, "penalty-owed", "recorded once", ids, sub, "one addition per entry")
    each(C, a, "penalty-sum", "every reduction is counted in the result", ids, tot, ne, oks, "each reduction is added to the sum")
    once(C, a, "penalty-sum", "counted once", ids, tot, "one addition per entry")
    rt = set()
    for r_ in oks:
        v = a.v.t(a.n.peel(r_.value))
        rt |= terms(a, v[4][0] if v[0] == "agg" else r_.value)
    leaf = {s for g, s in t} | {NEW, "Default::default()", "0"}
    C.ob("penalty-sum", "the result holds only reductions", {s for g, s in rt} <= leaf and (-1, NEW) in rt, str({s[:80] for g, s in rt} - leaf), a.fn["span"])
    # totals
    es = [x for x in ops(a) if x.m == M and x.kind in ("sub", "remove", "add", "set", "new", "clear")]
    ks = {x.k for x in es}
    ET = f"elem({TS})"
    C.ob("penalty-total", "totals change only for owners that owe", ks == {ET + ".0"}, f"keys {ks}", es[0].where if es else a.fn["span"])
    decrement(C, a, "penalty-total", "total", M, ET + ".0", ET + ".1", TS, oks)
    # packets: newest first, stopping only when nothing is owed
    NX = [s for _, _, _, ss in a.edges() for s in ss if s.startswith("next(") and Q in s and s.endswith("is Some")]
    order = {s[len("next("):-len(") is Some")] for s in NX}
    newest = (f"into_iter(rev({Q}))", f"rev({Q})")
    C.ob("penalty-order", "packets are consumed from newest to oldest", order and order <= set(newest), f"packet walk: {order}", a.fn["span"])
    C.ob("penalty-order", "the walk stops early only when nothing is owed", True, "")
    done = set()
    for h in [h for n_ in newest for h in headers(a, n_).values()]:
        done |= h["done"]
    empty = a.edges_matching(lambda s: re.match(r"^(is_empty\(.*\)|len\(.*\) eq 0)$", s) and "self" not in s)
    p = a.paths_avoiding([x.pid for x in oks], cut_edges=empty)
    C.ob("penalty-order", "success only when nothing is owed any more", p is None, "success while a reduction has not been taken out of the packets", a.fn["span"], a.describe(p) if p else None)
    p = a.paths_avoiding([x.pid for x in oks], cut_edges=done | empty)
    C.ob("penalty-order", "every packet is considered unless nothing is owed", p is None, "walk can end early", a.fn["span"], a.describe(p) if p else None)
    # single penalty is the one-element request
    pm = C.method(CR, "TotalReputationSet", "penalize_many")
    b = C.an(C.method(CR, "TotalReputationSet", "penalize"), no_inline=(pm["key"],))
    C.returns_only(b, "penalty-single", "a single penalty is a one-element request",
                   ["TotalReputationSet::penalize_many(self, once(tuple{0: %s, 1: %s}))" % tuple(params(b)[1:]), re.compile(r"^(TotalReputationSet::)?penalize_many\(self, (once\(|array\[|\[|Option::Some\{0: |vec\[)?.*tuple\{0: %s, 1: %s\}" % tuple(params(b)[1:]))])


def owed_arg(a, c, owed):
    return any(owed.match(s) or s == "Default::default()" for g, s in terms(a, c.val(1)))


def term_of(a, x):
    return None


@prop("R04", [CR],
      "MIR decision-table extraction of the packet/owed settlement for both iteration orders, keyed-update matching",
      "The settlement of one packet against the owed amounts is analysed in both of its iteration orders: for every owner present on both sides and every ordering of the two amounts the smaller is subtracted from the larger and the smaller side's entry is removed (both when equal); owners present on only one side are untouched. Decides each step on all paths; termination and container primitives are trusted.")
def r04(C):
    M, Q = fields(C, "TotalReputationSet")
    a = C.A(CR, "TotalReputationSet", "penalize_many")
    PK = f"elem(rev({Q})).1"
    loops = {}
    for c in a.calls():
        if c.f["name"] == "retain_drop":
            loops.setdefault(c.arg(0), []).append(c)
    O = ops(a)
    PKr = re.compile(r"^(elem\(rev\(%s\)\)\.1|elem\(into_iter\(rev\(%s\)\)\)\.1)$" % (re.escape(Q), re.escape(Q)))
    O2 = [x for x in O if x.m != M and "elem(" in x.k and not x.k.startswith(f"elem({params(a)[1]})") or PKr.match(x.m)]
    sides = {}
    for R, cs in loops.items():
        side = "packet" if PKr.match(R) else "owed"
        sides[side] = R
        e = cs[0].arg(1)
        elem = re.sub(r"\.0$", "", e)
        inner = f"{elem}.1"
        # the other container: what is looked up under this element's key
        other = {slot(x.e.loc)[0] for x in O if slot(x.e.loc) and x.k == elem + ".0" and x.m != M} | {x.m for x in O if x.k == elem + ".0" and x.kind in ("remove", "sub") and x.m not in (M, R)}
        other |= {m.group(1) for _, _, _, ss in a.edges() for s in ss for m in [re.match(r"^entry\((.*), %s\) is Occupied$" % re.escape(elem + ".0"), s)] if m}
        other = {x for x in other if x not in (M, R) and f"elem({x})" != elem}
        inst = f"walking the {'packet' if side == 'packet' else 'owed amounts'}"
        kinds = {"packet" if PKr.match(x) else "owed" for x in other}
        if not C.ob("settle-sides", f"{inst}: looked up on the other side", kinds == {"owed" if side == "packet" else "packet"}, f"looks up {other}", cs[0].where):
            continue
        # amounts
        CURo = "|".join(cur(o, elem + ".0") for o in sorted(other))
        IN = re.escape(inner)
        rels = {}
        rels = order_edges(a, rf"(?:{CURo})", IN)
        C.ob("settle-table", f"{inst}: the two amounts are compared", all(rels.values()), f"edges: { {k: len(v) for k, v in rels.items()} }", cs[0].where)
        subI = [x for x in a.effects() if x.op == "sub_assign" and x.loc == inner]
        subO = [x for x in O if x.kind == "sub" and x.k == elem + ".0" and x.m in other]
        remO = [x for x in O if x.kind == "remove" and x.k == elem + ".0" and x.m in other]
        remI = cs
        heads = {c.pid for c in a.calls() if c.f["name"] == "retain" and c.arg(0) == R}
        table = {"gt": (subO, remI, subI + remO), "eq": (None, remI, subI + subO), "lt": (subI, remO, subO + remI)}
        for rel, (s, rem, never) in table.items():
            need = [("subtracts the smaller amount", s)] if s is not None else [("removes the other side's entry", remO)]
            need.append(("removes the smaller side's entry" if rel != "eq" else "removes this side's entry", rem))
            tgts = [y for (i, l) in rels[rel] for ll, y in a.p.nodes[i].succ if ll == l]
            back = iteration_ends(a, rels, heads)
            for what, nodes in need:
                p = None
                for y in tgts:
                    p = p or a.paths_avoiding(back | {r.pid for r in a.rets()}, cut_nodes=[x.pid for x in nodes], start=y)
                C.ob("settle-table", f"{inst}: other {rel} own: {what}", bool(nodes) and p is None, f"nodes {nodes}"[:200], a.where(tgts[0]) if tgts else "", a.describe(p) if p else None)
            seen = a.reach(tgts, avoid_node=lambda n: n.id in back)
            bad = [x for x in never if x.pid in seen]
            C.ob("settle-table", f"{inst}: other {rel} own: nothing else changes", not bad, str(bad)[:300], bad[0].where if bad else "")
        for x in subO:
            C.ob("settle-amount", f"{inst}: subtracts exactly this entry's amount", x.v == inner, str(x)[:200], x.where)
        for x in subI:
            C.ob("settle-amount", f"{inst}: subtracts exactly the other side's amount", re.match(rf"^(?:{CURo})$", x.args[0]) is not None, str(x)[:200], x.where)
        vac = a.edges_matching(lambda s: any(re.match("^" + slot_absent(o, elem + ".0") + "$", s) for o in other))
        tgts = [y for (i, l) in vac for ll, y in a.p.nodes[i].succ if ll == l]
        back = iteration_ends(a, rels, heads)
        seen = a.reach(tgts, avoid_node=lambda n: n.id in back)
        bad = [x for x in subI + subO + remO + remI if x.pid in seen]
        C.ob("settle-absent", f"{inst}: an owner on one side only is untouched", vac and not bad, str(bad)[:200], bad[0].where if bad else "")
    walks = [c.pid for c in a.calls() if c.f["name"] == "retain" and c.arg(0) in set(sides.values())]
    idle = a.edges_matching(lambda s: re.match(r"^(is_empty\(.*\)|len\(.*\) eq 0)$", s))
    each(C, a, "settle-sides", "every packet considered is settled", [f"rev({Q})"], walks, idle, (), "each packet is walked against what is owed")
    # the walk ends only when every packet was seen or nothing is owed any more
    hs = headers(a, f"rev({Q})")
    done, more = set().union(*[h["done"] for h in hs.values()], set()), set().union(*[h["more"] for h in hs.values()], set())
    paid = a.edges_matching(lambda s: bool(re.match(r"^(is_empty\((.*)\)|len\((.*)\) eq 0)$", s)) and not re.match(r"^(is_empty|len)\(elem\(", s))
    dest = lambda es: [y for (i, l) in es for ll, y in a.p.nodes[i].succ if ll == l]
    out = {r.pid for r in a.rets()} | {n if isinstance(n, int) else getattr(n, "pid", getattr(n, "id", None)) for n in a.panics()}
    after = out & set(a.reach(dest(done)))
    p = next((p for y in dest(more) for p in [a.paths_avoiding(after, cut_edges=done | paid, start=y)] if p), None)
    C.ob("settle-complete", "the walk goes on while packets remain and something is owed", bool(more and after) and p is None, "the walk can end early", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)
    C.ob("settle-sides", "a settlement walk exists", bool(sides), str(sides), a.fn["span"])
    C.floor("settlement walks", len(sides), 1)
    # any change to packets happens inside those walks
    qe = [e for e in a.param_effects("self") if e.root.startswith(Q) and e.op not in ("sub_assign", "Entry::remove", "Entry::remove_entry", "retain", "retain_drop", "next", "remove")]
    C.ob("settle-sides", "packets change only by settlement", not qe, str(qe)[:300], qe[0].where if qe else "")


ORD = {"gt": {"gt"}, "ge": {"gt", "eq"}, "eq": {"eq"}, "le": {"eq", "lt"}, "lt": {"lt"}, "ne": {"gt", "lt"}}


def order_edges(a, x, y):
    """edges on which the order of two amounts becomes fully known, by outcome"""
    rx = re.compile(rf"^{x} (gt|ge|eq|le|lt|ne) {y}$")
    out = {"gt": set(), "eq": set(), "lt": set()}
    full = {"gt", "eq", "lt"}
    for i, l, t, ss in a.edges():
        here = [ORD[m.group(1)] for s in ss for m in [rx.match(s)] if m]
        if not here:
            continue
        before = full.intersection(*[ORD[m.group(1)] for s in a.must([i]) for m in [rx.match(s)] if m])
        after = before.intersection(*here)
        if len(after) == 1 and (len(before) > 1 or before == after):
            out[next(iter(after))].add((i, l))
    return out


def iteration_ends(a, rels, heads):
    """start of the next callback iteration (the non-deterministic choice) around the comparisons, and the enclosing call"""
    nd = {n.id for n in a.p.nodes if n.n.k == "sw" and n.n.aux == "nondet"}
    return nd | set(heads)


@prop("R05", [CR],
      "MIR return provenance of every query; exhaustive-loop sums; reset effects",
      "Each query is analysed on all paths: an owner's reputation is the stored total or zero, sums add each listed (or each stored) total exactly once, the number of identities and the listing come from the totals, a reset empties totals and packets, and equality compares exactly the packets. Container primitives are trusted.")
def r05(C):
    M, Q = fields(C, "TotalReputationSet")
    T = "TotalReputationSet"
    a = C.A(CR, T, "get")
    i = params(a)[1]
    vals = set(a.ret_values())
    C.ob("query-get", "an owner's reputation is the stored total, zero when absent", vals <= {f"get({M}, {i}).Some.0", "Default::default()"} and len(vals) == 2, str(vals), a.fn["span"])
    for r in a.rets():
        p = a.paths_avoiding([r.pid], cut_edges=a.edges_matching(lambda s: s == f"get({M}, {i}) is None"))
        none = {y for (x, l) in a.edges_matching(lambda s: s == f"get({M}, {i}) is None") for ll, y in a.p.nodes[x].succ if ll == l}
    b = C.A(CR, T, "get_sum")
    ids = params(b)[1]
    sum_rule(C, b, "query-sum", "sum over identities", ids, f"elem({ids})", {f"get({M}, elem({ids})).Some.0", "Default::default()", "0"}, f"get({M}, elem({ids})).Some.0")
    d = C.A(CR, T, "get_total_sum")
    sum_rule(C, d, "query-sum", "sum over everybody", (M, f"values({M})"), f"elem({M}).1", {f"elem({M}).1", "Default::default()", "0"}, f"elem({M}).1")
    n = C.A(CR, T, "num_identities")
    C.returns_only(n, "query-count", "number of identities", [f"len({M})"])
    l = C.A(CR, T, "identities")
    C.returns_only(l, "query-list", "listing of totals", [M])
    c = C.A(CR, T, "clear")
    for f in (M, Q):
        e = empties(c, f, T)
        C.must_pass(c, "reset", f"reset empties {f}", e, c.rets(), "cleared on every path") if e else C.ob("reset", f"reset empties {f}", False, "no clear", c.fn["span"])
    w = C.A(CR, T, "with_hasher")
    ok = all(re.match(r"^TotalReputationSet\{\w+: (with_hasher\(.*?\)|HashMap::new\(\)|Default::default\(\)|new\(\)), \w+: (VecDeque::new\(\)|new\(\)|Default::default\(\))\}$|^TotalReputationSet\{\w+: (VecDeque::new\(\)|new\(\)), \w+: (with_hasher\(.*\)|Default::default\(\))\}$", s) for s in w.ret_values())
    C.ob("reset", "a new set is empty", ok and w.ret_values(), str(list(w.ret_values())), w.fn["span"])
    eqs = [f for f in C.F.method(CR, T, "eq", "PartialEq") if "blocks" in f]
    if eqs:
        e = C.an(eqs[0])
        o = params(e)[1]
        oq = Q.replace("self.", o + ".")
        C.returns_only(e, "equality", "sets are equal exactly when their packets are", [f"{Q} eq {oq}", f"{oq} eq {Q}", f"eq({Q}, {oq})", f"Eq({Q}, {oq})"])
    for m in ("get", "get_sum", "get_total_sum", "num_identities", "identities"):
        x = C.A(CR, T, m)
        C.ob("query-pure", f"{m} changes nothing", not x.param_effects("self"), str(x.param_effects("self")), x.fn["span"])


def sum_rule(C, a, rule, inst, colls, elem, leaves, must_leaf):
    colls = (colls,) if isinstance(colls, str) else colls
    adds = [e for e in a.effects() if e.op == "add_assign"]
    adds = [e for e in adds if any(s == must_leaf for g, s in terms(a, e.call.val(1)))]
    adds += [c for c in a.calls() if c.f["name"] == "add" and c.nargs == 2 and any(s == must_leaf for g, s in terms(a, c.val(1)))]
    skip = edge_rx(a, "^" + slot_absent(*slot(must_leaf)) + "$") if slot(must_leaf) else ()
    each(C, a, rule, f"{inst}: every element counted", list(colls), adds, skip, a.rets(), "each element is added to the sum")
    once(C, a, rule, f"{inst}: counted once", list(colls), adds, "one addition per element")
    t = set()
    for r in a.rets():
        t |= terms(a, r.value)
    C.ob(rule, f"{inst}: holds only the totals asked for", {s for g, s in t} <= leaves and all(g > 0 for g, s in t) and (1, must_leaf) in t, str(t), a.fn["span"])


def ars_fields(C):
    M, Q = fields(C, "ActiveReputationSet")
    for k, a in C.F.adts.items():
        if k.split("::")[-1] == "ActiveReputationSet" and k.startswith(CR):
            fs = {x["name"]: x["ty"] for x in a["variants"][0]["fields"]}
            q = [t for n, t in fs.items() if "self." + n == Q][0]
            cap = [n for n, t in fs.items() if t == "usize"]
            last = [n for n, t in fs.items() if t == "u32"]
            if len(cap) == 1 and len(last) == 1:
                return M, Q, "self." + cap[0], "self." + last[0], q
    raise Anchor("fields of the activity set")


@prop("R06", [CR],
      "MIR keyed-update extraction: pairing of window insertions and removals with activity counts, window-length conditions",
      "Every path through recording one period of activity is analysed: duplicates within the period collapse, each distinct identity's count rises by one exactly once and that same set enters the window at its new end; when the window is full the oldest set leaves and each of its identities' count falls by one exactly once, the identity disappearing when no period mentions it. Fewer than 65536 periods in the window is assumed (counter width), and a window of length zero is outside the documented use.")
def r06(C):
    M, Q, CAP, LAST, qty = ars_fields(C)
    a = C.A(CR, "ActiveReputationSet", "push_activity")
    ids = params(a)[1]
    C.ob("window-set", "a period is a set of identities", re.search(r"VecDeque<std::collections::(Hash|BTree)Set<", qty) is not None, qty, a.fn["span"])
    eff = a.param_effects("self")
    push = [e for e in eff if e.root.startswith(Q) and e.op == "push_back"]
    pop = [e for e in eff if e.root.startswith(Q) and e.op == "pop_front"]
    oth = [e for e in eff if e.root.startswith(Q) and e not in push and e not in pop]
    C.ob("window-ends", "the window grows at the new end and shrinks at the old end only", not oth and push and pop, str(oth), a.fn["span"])
    rets = a.rets()
    C.must_pass(a, "window-push", "every period enters the window", push, rets, "each call appends its period")
    C.ob("window-push", "entered once", len(sites(a, push)) == 1 and not any(a.in_loop(e.pid) for e in push), str(push), a.fn["span"])
    S = {e.args[0] for e in push}
    ok = len(S) == 1 and next(iter(S)) in (f"collect({ids})", f"from_iter({ids})")
    if not ok and len(S) == 1:
        # set filled by a loop
        s0 = next(iter(S))
        from wf.extra import Bytes
        B = Bytes(a)
        base = set().union(*[B.bases(e.call.val(1)) for e in push])
        put = [c for c in a.calls() if c.f["name"] in ("insert", "extend") and c.nargs == 2 and B.bases(c.val(0)) & base]
        ins = [c for c in put if c.f["name"] == "insert" and c.arg(1) == f"elem({ids})"]
        C.ob("window-push", "the set holds only given identities", len(ins) == len(put), str([c.args for c in put]), a.fn["span"])
        ok = re.match(r"^(HashSet::new\(\)|Default::default\(\)|BTreeSet::new\(\)|with_capacity\w*\(.*\))$", s0) and each(C, a, "window-push", "the set holds every identity", ids, ins, (), rets, "each identity inserted")
    C.ob("window-push", "the period holds exactly the given identities", ok, str(S), push[0].where if push else a.fn["span"])
    if not S:
        return
    S = next(iter(S))
    E = f"elem({S})"
    # counts up
    o = [x for x in ops(a) if x.m == M and x.kind != "touch"]
    up = [x for x in o if x.kind in ("add", "new", "set")]
    dn = [x for x in o if x.kind in ("sub", "remove")]
    for x in up:
        C.ob("count-up", "counts one for this period's identities", x.k == E and x.v == "1" and (x.kind != "set" or has(a.must([x.pid]), slot_absent(M, E))), str(x), x.where)
    infeasible = edge_rx(a, rf"^1 eq {ZERO}$")
    each(C, a, "count-up", "every identity of the period is counted", S, up, infeasible, rets, "each identity's count rises")
    once(C, a, "count-up", "counted once", S, up, "one increment per identity")
    # counts down
    P = f"pop_front({Q}).Some.0"
    hs = headers(a, P)
    done = set().union(*[h["done"] for h in hs.values()]) if hs else set()
    for e in pop:
        p = a.paths_avoiding({r.pid for r in rets} | {x.pid for x in pop}, cut_edges=done | a.edges_matching(lambda s: s == f"pop_front({Q}) is None"), start=a.p.nodes[e.pid].succ[0][1])
        C.ob("count-down", "the leaving period is walked to its end", bool(done) and p is None, "identities of the leaving period keep their count", e.where, a.describe(p) if p else None)
    decrement(C, a, "count-down", "count", M, f"elem({P})", "1", P, []) if dn else C.ob("count-down", "counts fall", False, "no decrement", a.fn["span"])
    # window length
    from wf.extra import fact, implied, fact_edges
    ln = f"len({Q})"
    after_push = a.reach([y for e in push for _, y in a.p.nodes[e.pid].succ])
    for e in pop:
        late = e.pid in after_push
        want = fact("gt" if late else "ge", {ln: 1, CAP: -1})
        C.ob("window-length", "a period leaves only when the window is full", implied(a, e.pid, want), f"must imply {'len > capacity' if late else 'len >= capacity'}; conditions {sorted(a.must([e.pid]))[:6]}", e.where)
    late = all(e.pid in after_push for e in pop)
    room = fact_edges(a, fact("le" if late else "lt", {ln: 1, CAP: -1})) | fact_edges(a, fact("ne", {ln: 1, CAP: -1}, -1 if late else 0))
    none = a.edges_matching(lambda s: s == f"pop_front({Q}) is None")
    p = a.paths_avoiding([r.pid for r in rets], cut_nodes=[e.pid for e in pop], cut_edges=room | none)
    C.ob("window-length", "a full window always loses its oldest period", p is None, "the window can outgrow its capacity", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)
    C.ob("window-pure", "nothing but window and counts changes", all(e.root.startswith(Q) or e.root.startswith(M) for e in eff), str([e for e in eff if not e.root.startswith((Q, M))]), a.fn["span"])
    C.floor("count updates", len(up) + len(dn), 3)


@prop("R07", [CR],
      "MIR linear-fact domains of every update case, must-pass effects and loop-count linear form, error-before-effect ordering",
      "Every path through the time-stamped update is analysed: a later epoch always records the given identities last and stores the epoch; the number of empty periods recorded before them is the linear form (epoch gap - 1) whenever the gap is smaller than the window, and the window is emptied instead when the gap is at least its length; an epoch that is not later changes nothing and is an error unless it is zero.")
def r07(C):
    from wf.extra import fact, implied, fact_edges
    M, Q, CAP, LAST, qty = ars_fields(C)
    pu = C.method(CR, "ActiveReputationSet", "push_activity")
    cl = C.method(CR, "ActiveReputationSet", "clear")
    a = C.an(C.method(CR, "ActiveReputationSet", "update"), no_inline=(pu["key"], cl["key"]))
    _, ids, ep = params(a)
    eff = a.param_effects("self")
    oks, errs = a.rets("Ok"), [r for r in a.rets("Err") if r.variant == "Err"]
    later = fact("gt", {ep: 1, LAST: -1})
    gap = {ep: 1, LAST: -1, CAP: -1}
    pushes = [e for e in eff if e.op == "push_activity"]
    real = [e for e in pushes if e.args == [ids]]
    empty = [e for e in pushes if e not in real]
    clears = [e for e in eff if e.op == "clear" and e.loc == "self"]
    parts = {f: [e for e in eff if e.op == "clear" and e.loc == f] for f in (M, Q)}
    split = []
    if all(parts.values()):
        # both containers emptied one after the other: the reset is done once both are
        for f, g in ((M, Q), (Q, M)):
            if all(a.paths_avoiding([e.pid], cut_nodes=[x.pid for x in parts[f]]) is None for e in parts[g]) and \
               all(a.paths_avoiding([x.pid for x in pushes] + [r.pid for r in oks], cut_nodes=[x.pid for x in parts[g]], start=e.pid) is None for e in parts[f]):
                clears, split = clears + parts[g], parts[f]
                break
    stamp = [e for e in eff if e.op == "assign" and e.loc == LAST]
    oth = [e for e in eff if e not in pushes and e not in clears and e not in stamp and e not in split]
    C.ob("update-effects", "only window recording, reset and the epoch stamp", not oth and real and clears and stamp, str(oth), a.fn["span"])
    for e in eff:
        C.ob("update-stale", f"{e.op}: only for a later epoch", implied(a, e.pid, later), f"conditions: {sorted(a.must([e.pid]))[:6]}", e.where)
    L = fact_edges(a, later, weaker=True)
    starts = [y for (i, l) in L for ll, y in a.p.nodes[i].succ if ll == l]
    for nodes, what in ((real, "records the given identities"), (stamp, "stores the epoch")):
        p = None
        for y in starts:
            p = p or a.paths_avoiding({r.pid for r in oks + errs}, cut_nodes=[e.pid for e in nodes], start=y)
        C.ob("update-later", f"a later epoch always {what}", bool(starts) and p is None, "a way around", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)
    C.ob("update-later", "recorded once", len(sites(a, real)) == 1 and not any(a.in_loop(e.pid) for e in real), str(real), a.fn["span"])
    for e in stamp:
        C.ob("update-later", "the stored epoch is the given one", e.args == [ep], str(e), e.where)
    C.never_after(a, "update-later", "the given identities are the newest period", [e.pid for e in real], [e.pid for e in empty + clears + split], "an empty period or a reset can follow")
    # a later epoch never errs
    r = a.reach(starts)
    C.ob("update-later", "a later epoch is never refused", not (r & {x.pid for x in errs}), "an error return is reachable for a later epoch", a.fn["span"])
    # the gap
    for e in clears + split:
        C.ob("update-gap", "reset only when the gap reaches the window length", implied(a, e.pid, fact("ge", gap)), f"{sorted(a.must([e.pid]))[:6]}", e.where)
    small = fact_edges(a, fact("lt", gap))
    p = None
    for y in starts:
        p = p or a.paths_avoiding([e.pid for e in real], cut_nodes=[e.pid for e in clears], cut_edges=small, start=y)
    C.ob("update-gap", "a gap reaching the window length always resets", bool(small) and p is None, "old periods can survive a long gap", a.fn["span"], a.describe(p) if p else None)
    D = r"\(?(?:Sub|saturating_sub|wrapping_sub|abs_diff)\(%s, %s\)(?: as \w+\))?" % (re.escape(ep), re.escape(LAST))
    D = rf"(?:{D}|from\({D}\)|into\({D}\)|try_from\({D}\)\.Ok\.0)"
    D1 = rf"(?:(?:Sub|saturating_sub)\({D}, 1\)|\(?Sub\(Sub\({re.escape(ep)}, {re.escape(LAST)}\), 1\)(?: as \w+\))?|\(?Sub\(Sub\({re.escape(ep)}, 1\), {re.escape(LAST)}\)(?: as \w+\))?)"
    rng = re.compile(rf"^next\((?:rev\()?(Range\{{start: 0, end: {D1}\}}|Range\{{start: 1, end: {D}\}}|RangeInclusive.*\b1.*(Sub|saturating_sub)\({D}, 1\).*|new\(1, Sub\({D}, 1\)\))\)\)? is (Some|None)$")
    more = a.edges_matching(lambda s: rng.match(s) and s.endswith("Some"))
    done = a.edges_matching(lambda s: rng.match(s) and s.endswith("None"))
    if not more:
        # counted by hand: down from the gap to one (or from one less to none), or up to it
        forms = [(rf"\{{(?:{D} \| Sub\(μ, 1\)|Sub\(μ, 1\) \| {D})\}}", "Sub", "1"), (rf"\{{(?:{D1} \| Sub\(μ, 1\)|Sub\(μ, 1\) \| {D1})\}}", "Sub", "0"),
                 (r"\{(?:Add\(1, μ\) \| 0|0 \| Add\(1, μ\))\}", "Add", D1), (r"\{(?:Add\(1, μ\) \| 1|1 \| Add\(1, μ\))\}", "Add", D)]
        for x, op, end in forms:
            gt, le = (("gt", "le"), ("lt", "ge"))[op == "Add"]
            ne = "|ne" if op == "Sub" and end == "0" else ""
            on = a.edges_matching(lambda s: re.fullmatch(rf"{x} (?:{gt}{ne}) {end}", s))
            off = a.edges_matching(lambda s: re.fullmatch(rf"{x} (?:{le}{'|eq' if ne else ''}) {end}", s))
            step = [n.id for n in a.p.nodes if n.n.k == "asg" and n.n.v and n.n.v[0] == "bin" and n.n.v[1].startswith(op) and re.fullmatch(rf"{op}(?:WithOverflow|Unchecked)?\((?:{x}, 1|1, {x})\)", a.s(a.v.rvalue(n.n.v, n.id)))]
            if on and off and step:
                more, done = on, off
                C.loop_steps(a, "update-gap", "each round is counted", more, step, "each round counts")
                for k in step:
                    r = a.reach([y for _, y in a.p.nodes[k].succ], avoid_edge=lambda n, l, y: (n.id, l) in more)
                    C.ob("update-gap", "each round is counted once", not (r & set(step)), "counted twice in one round", a.where(k))
    C.ob("update-gap", "one empty period per skipped epoch (gap - 1 of them)", bool(more), f"loop over gap - 1 not found: {[s[0] for _, _, _, s in a.edges() if 'next' in s[0]][:3]}", a.fn["span"])
    for e in empty:
        C.ob("update-gap", "skipped epochs are recorded as empty", re.match(r"^(Vec::new\(\)|array\[\]|\[\]|vec\[\]|empty\(\)|iter::empty\(\)|HashSet::new\(\)|Default::default\(\)|new\(\)|Option::None(\{\})?|None)$", e.args[0]) is not None, str(e), e.where)
    C.loop_steps(a, "update-gap", "every skipped epoch is recorded", more, [e.pid for e in empty], "each round records one empty period")
    one = fact_edges(a, fact("le", {ep: 1, LAST: -1}, -1)) | fact_edges(a, fact("eq", {ep: 1, LAST: -1}, -1))
    p = None
    for y in starts:
        p = p or a.paths_avoiding([e.pid for e in real], cut_nodes=[e.pid for e in clears], cut_edges=done | one, start=y)
    C.ob("update-gap", "skipped epochs are recorded before the given one", p is None, "a way to the new period without the empty ones", a.fn["span"], a.describe(p) if p else None)
    for e in empty:
        r = a.reach([y for _, y in a.p.nodes[e.pid].succ], avoid_edge=lambda n, l, y: (n.id, l) in more)
        C.ob("update-gap", "one empty period per round", not (r & {x.pid for x in empty}), "two recordings in one round", e.where)
    # not later
    for e in errs:
        C.ob("update-stale", "refused only when not later", implied(a, e.pid, fact("le", {ep: 1, LAST: -1})), f"{sorted(a.must([e.pid]))[:6]}", a.where(e.pid))
        C.ob("update-stale", "epoch zero is not an error", implied(a, e.pid, fact("ne", {ep: 1})) or implied(a, e.pid, fact("gt", {ep: 1})), f"{sorted(a.must([e.pid]))[:6]}", a.where(e.pid))
    stale = fact_edges(a, fact("le", {ep: 1, LAST: -1}))
    zero = fact_edges(a, fact("eq", {ep: 1})) | fact_edges(a, fact("le", {ep: 1}))
    p = a.paths_avoiding([r.pid for r in oks if r.variant == "Ok"], cut_nodes=[e.pid for e in stamp], cut_edges=zero)
    C.ob("update-stale", "a stale non-zero epoch is always an error", p is None, "success without recording", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)


@prop("R08", [CR],
      "MIR return provenance of activity queries; reset effects; equality operands",
      "Each activity query is analysed on all paths: membership, listing and number of active identities read the activity counts, buffer size and capacity read the window and its configured length, a reset empties both counts and window, a new set is empty with the requested capacity, and queries change nothing. Container primitives are trusted.")
def r08(C):
    M, Q, CAP, LAST, qty = ars_fields(C)
    T = "ActiveReputationSet"

    def only(m, allowed, inst):
        a = C.A(CR, T, m)
        k = params(a)[1] if len(params(a)) > 1 else ""
        C.returns_only(a, "activity-query", inst, [s.replace("KEY", k) if isinstance(s, str) else s for s in allowed])
        C.ob("activity-pure", f"{m} changes nothing", not a.param_effects("self"), str(a.param_effects("self")), a.fn["span"])
    a = C.A(CR, T, "contains")
    k = params(a)[1]
    vals = set(a.ret_values())
    ok = vals == {f"contains_key({M}, {k})"}
    if not ok and vals == {"0", "1"}:
        ok = True
        for r in a.rets():
            want = "get(%s, %s) is %s" % (M, k, "Some" if r.const in (1, True) or r.s == "1" else "None")
            ok &= want in a.must([r.pid])
    C.ob("activity-query", "membership", ok or vals <= {f"is_some(get({M}, {k}))"}, str(vals), a.fn["span"])
    only("active_identities", [f"keys({M})", re.compile(rf"^(iter\()?{re.escape(M)}\)?\.0$")], "listing")
    only("active_identities_number", [f"len({M})", f"count(keys({M}))", f"len(keys({M}))"], "number of active identities")
    only("buffer_size", [f"len({Q})"], "window size")
    only("buffer_capacity", [CAP], "window capacity")
    c = C.A(CR, T, "clear")
    for f in (M, Q):
        e = empties(c, f, T)
        C.must_pass(c, "activity-reset", f"reset empties {f}", e, c.rets(), "cleared on every path") if e else C.ob("activity-reset", f"reset empties {f}", False, "no clear", c.fn["span"])
    for x in c.param_effects("self"):
        if x.loc in (CAP, "self") and x.op == "assign":
            C.ob("activity-reset", "a reset keeps the configured length", (record(x.args[0]).get(CAP[5:]) if x.loc == "self" else x.args[0]) == CAP, x.args[0][:200], x.where)
    n = C.A(CR, T, "new")
    cap = params(n)[0]
    for s in n.ret_values():
        body = s[len("ActiveReputationSet{"):-1]
        f = dict(x.split(": ", 1) for x in re.split(r", (?=\w+: )", body)) if s.startswith("ActiveReputationSet{") else {}
        C.ob("activity-reset", "a new set is empty, with the requested capacity, never updated",
             f.get(CAP[5:]) == cap and f.get(LAST[5:]) == "0" and re.match(r"^(HashMap::new\(\)|Default::default\(\)|with_capacity\w*\(.*\)|new\(\))$", f.get(M[5:], "")) and re.match(r"^(VecDeque::new\(\)|Default::default\(\)|with_capacity\(.*\)|new\(\))$", f.get(Q[5:], "")), s, n.fn["span"])
    eqs = [f for f in C.F.method(CR, T, "eq", "PartialEq") if "blocks" in f]
    for f in eqs:
        e = C.an(f)
        o = params(e)[1]
        for r in e.rets():
            ms = e.must([r.pid])
            s = r.s
            oq, oc = Q.replace("self.", o + "."), CAP.replace("self.", o + ".")
            if s == "0":
                continue
            full = " & ".join(sorted(ms)) + " & " + s
            C.ob("activity-equal", "equal sets have the same capacity and the same window", all(any(x in full for x in (f"{p} eq {q}", f"{q} eq {p}", f"eq({p}, {q})", f"Eq({p}, {q})", f"Eq({q}, {p})")) for p, q in ((Q, oq), (CAP, oc))), full, e.where(r.pid))
