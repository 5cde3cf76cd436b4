"""Data requests: who is paid, who is punished, and how a request moves through its stages."""
import re
from wf.check import prop, sites, params
from wf.extra import Bytes, pol, poly_edges, polys
from wf.maps import headers
from wf.valid import *
from props.stakes import shape, same

DS = "witnet_data_structures"


def positive(a, P):
    """(analysis where the polynomial P of counts is above zero, analysis where it is zero); None when nothing tests it"""
    P1 = frozenset((dict(P) | {(): dict(P).get((), 0) - 1}).items())
    yes = poly_edges(a, "gt", P) | poly_edges(a, "ne", P) | poly_edges(a, "ge", P1)
    no = poly_edges(a, "le", P) | poly_edges(a, "eq", P) | poly_edges(a, "lt", P1)
    if not yes or not no:
        return None
    return a.prune(no), a.prune(yes)


def every(C, a, rule, inst, v, want, where):
    got = [a.s(x) for x in alts(a, v)]
    C.ob(rule, inst, got and all(any(same(g, w) for w in want) for g in got), f"{got}"[:400], where)


def pair(C, a, rule, inst, want):
    """every return is the pair WANT (texts), components compared in commutative normal form"""
    rs = a.rets()
    C.ob(rule, inst, bool(rs), "no return", a.fn["span"])
    for r in rs:
        for i, w in enumerate(want):
            every(C, a, rule, inst, field(a, r.value, i), w if isinstance(w, (list, tuple)) else [w], a.where(r.pid))


def count_of(C, a, rule, inst, i, yes, colls):
    """component I of what is returned is the number of iterations of a loop over COLLS (yes), or zero"""
    more = [y for c in colls for h in headers(a, c).values() for k, l in h["more"] for ll, y in a.p.nodes[k].succ if ll == l]
    after = a.reach(more)
    n = 0
    for r in a.rets():
        v = field(a, r.value, i)
        st, ad = sum_forms(a, v)
        one = bool(ad) and all((x[1] if isinstance(x, tuple) else x) == "1" for x in ad) and not may_skip(a, v)
        n += one
        ok = st <= {"0"} and (not ad if not yes else one or not ad and r.pid not in after)
        C.ob(rule, inst, ok, f"start {st}, added {ad}"[:300], a.where(r.pid))
    C.ob(rule, inst, bool(more) and bool(n) == yes, f"{n} counts, {len(more)} loops", a.fn["span"])


@prop("D05", [DS],
      "normal form of the reward and change formulas per era; decision table of create_tally over honest/era/out-of-consensus/error with the contradicting branches removed; required conditions",
      "The formulas of the witness reward and of the change are compared in normal form, per era. create_tally is analysed once per combination of era, presence of honest reveals, and the two marks of a reveal: in each combination exactly the stated payments, marks and removals are made for every reveal (every committer when none is honest), and the change goes to the requester exactly when there is any. That the marks themselves follow from the reveals is the tally script's business; sums are taken not to overflow (values of accepted requests are bounded).")
def d05(C):
    # rewards
    for nm, second in (("calculate_witness_reward", True), ("calculate_witness_reward_before_second_hard_fork", False)):
        a = C.fnA(DS, nm)
        ps = params(a)
        if second:
            com, li, er, rew, col, w23 = ps
            hon = pol((1, com), (-1, li), (-1, er))
        else:
            com, rev, li, er, rew, col = ps
        H = f"Sub(Sub({com}, {li}), {er})"
        sl, rest = f"Div(Mul({col}, {li}), {H})", f"Rem(Mul({col}, {li}), {H})"
        sh = [f"Add(Add({rew}, {col}), {sl})"]
        c = positive(a, pol((1, com)))
        if not C.ob("reward", f"{nm}: whether there are commitments is told apart", c is not None, "not tested", a.fn["span"]):
            continue
        some, none = c
        pair(C, none, "reward", f"{nm}: nothing without commitments", ["0", "0"])
        h = positive(some, hon if second else pol((1, rev)))
        if not C.ob("reward", f"{nm}: whether anyone is to be paid is told apart", h is not None, "not tested", a.fn["span"]):
            continue
        paid, back = h
        pair(C, back, "reward", f"{nm}: the collateral alone when nobody is in consensus", [col, "0"])
        if second:
            old = paid.under(lambda s: s == w23)
            new = paid.under(lambda s: s == "!" + w23)
            pair(C, new, "reward", f"{nm}: reward and collateral, nothing of what was slashed, from WIP-0023 on", [[f"Add({rew}, {col})"], "0"])
            pair(C, old, "reward", f"{nm}: reward, collateral and an equal share of what was slashed; the rest is left over", [sh, rest])
        else:
            pair(C, paid, "reward", f"{nm}: reward, collateral and an equal share of what was slashed; the rest is left over", [sh, rest])
    a = C.fnA(DS, "calculate_tally_change")
    com, rev, hon, dr = params(a)
    W, R, F = f"{dr}.witnesses", f"{dr}.witness_reward", f"{dr}.commit_and_reveal_fee"
    for r in a.rets():
        C.ob("change", "the rewards not earned and the commit and reveal fees not spent", polys(a, r.value) == {pol((1, R, W), (-1, R, hon), (2, F, W), (-1, F, rev), (-1, F, com))}, r.s[:300], a.where(r.pid))
    # marks
    a = C.fnA(DS, "calculate_errors_and_liars_count")
    er, li = params(a)
    for l in (True, False):
        for e in (True, False):
            L, E_ = f"elem({li})", f"elem({er})"
            b = a.under(lambda s: s == ("!" if l else "") + L or s == ("!" if e else "") + E_)
            src = sorted({c for c in elements(b, rf"\b({re.escape(li)}|{re.escape(er)})\b")})
            count_of(C, b, "marks", f"out of consensus {l}, error {e}: counted as a lie {l and not e}", 0, l and not e, src)
            count_of(C, b, "marks", f"out of consensus {l}, error {e}: counted as an error {l and e}", 1, l and e, src)
    # the tally
    a = C.fnA(DS, "create_tally", no_inline=keys(C, "calculate_errors_and_liars_count", "calculate_witness_reward", "calculate_witness_reward_before_second_hard_fork", "calculate_tally_change", "wips_0009_0011_0012", "wip0023"))
    drp, dr, pkh, rep, revs, coms, cmin, enc, w, ver_ = params(a)
    T = f"{rep}.context.stage.Tally.0"
    CNT = f"data_request::calculate_errors_and_liars_count({T}.errors, {T}.liars)"
    NC, NR = f"len({coms})", f"len({revs})"
    CN2 = "data_request::calculate_errors_and_liars_count(ERRORS, LIARS)"
    names = {f"{CN2}.0": "NL", f"{CN2}.1": "NE", f"{CNT}.0": "NL", f"{CNT}.1": "NE", NC: "NC", NR: "NR", f"{T}.liars": "LIARS", f"{T}.errors": "ERRORS"}
    HF = f"ActiveWips::wips_0009_0011_0012({w})"
    V2 = {f"ProtocolVersion::V2_0{{}} le {ver_}", f"{ver_} ge ProtocolVersion::V2_0{{}}"}
    V1 = {f"ProtocolVersion::V2_0{{}} gt {ver_}", f"{ver_} lt ProtocolVersion::V2_0{{}}"}
    names_rx = {}
    COL = [f"{{{cmin} | {dr}.collateral}}", f"{{{dr}.collateral | {cmin}}}", "COL"]
    dep = f"{dr}.collateral"
    z = a.under(lambda s: s in (f"0 ne {dep}", f"{dep} ne 0", f"{dep} gt 0"))
    nz = a.under(lambda s: s in (f"0 eq {dep}", f"{dep} eq 0", f"{dep} le 0"))
    for b, want, inst in ((z, cmin, "the minimum when the request states none"), (nz, dep, "the one the request states")):
        for c in b.calls():
            if c.f["name"].startswith("calculate_witness_reward"):
                C.ob("tally", f"collateral: {inst}", c.arg(c.nargs - 1 if "before" in c.f["name"] else 4) == want, c.arg(4)[:200], c.where)
    names[COL[0]] = names[COL[1]] = "COL"
    LI, ER, RV, CM = "elem(LIARS)", "elem(ERRORS)", f"elem({revs})", f"elem({coms})"
    rew = {True: f"data_request::calculate_witness_reward(NC, {{}}, NE, {dr}.witness_reward, COL, ActiveWips::wip0023({w})).0",
           False: f"data_request::calculate_witness_reward_before_second_hard_fork(NC, NR, {{}}, NE, {dr}.witness_reward, COL).0"}
    lied = "Add(NL, Sub(NC, NR))"
    change = f"data_request::calculate_tally_change(NC, NR, Sub(Sub(NR, NL), NE), {dr})"

    def vto(p, v):
        return f"ValueTransferOutput{{pkh: {p}, value: {v}, time_lock: 0}}"

    def fresh_(b):
        b.call(names)
        return b

    def case(v2, hf):
        b = a.under(lambda s: s in (V1 if v2 else V2) or s == ("!" if hf else "") + HF)
        return fresh_(b)

    def marks(b, l, e):
        F_ = f"elem({T}."
        return fresh_(b.under(lambda s: s in (("!" if l else "") + LI, ("!" if e else "") + ER, ("!" if l else "") + F_ + "liars)", ("!" if e else "") + F_ + "errors)")))

    def judge(b, inst, pays=None, error=False, removed=False, of=revs, outs=()):
        """what is done for each element of OF in this case"""
        rule = "tally"
        push = [c for c in b.calls() if c.f["name"] in ("push", "collect_push", "insert", "extend_one")]
        el = f"elem({of})"
        errp = [c for c in push if c.arg(1) in (RV, CM)]
        payp = [c for c in push if c.arg(1).startswith("ValueTransferOutput{") or c.arg(1).startswith("{ValueTransferOutput")]
        chg = [c for c in payp if f"pkh: {pkh}," in c.arg(1)]
        payp = [c for c in payp if c not in chg]
        rm = [c for c in b.calls() if c.f["name"] in ("remove", "take") and c.nargs == 2 and c.arg(1) in (RV, CM)]
        ends = b.rets()
        C.ob(rule, inst + ": a tally is made", bool(ends), "no return", b.fn["span"])

        def exact(cs, want, what):
            bad = [c for c in cs if c.arg(1) not in want]
            if bad or not want:
                C.ob(rule, f"{inst}: {what}", not cs or not bad and bool(want), (bad or cs)[0].arg(1)[:200] if (bad or cs) else "none", (bad or cs)[0].where if (bad or cs) else b.fn["span"])
            if want:
                cs = [c for c in cs if c.arg(1) in want]
                ext = extended(b, of, coms)
                if ext and not cs and "error" in what:
                    return C.must_pass(b, rule, f"{inst}: {what}", ext, ends, "each is marked")
                src = {zs for zs in elements(b, re.escape(of)) if re.sub(r"\b(zip|enumerate|rev)\(", "", zs).startswith(of)} | {of}
                if not cs:
                    C.ob(rule, f"{inst}: {what}", False, "never done", b.fn["span"])
                    return
                per_element(C, b, rule, f"{inst}: {what}", sorted(src), ends, what, nodes=cs)
        exact(errp, {el} if error else set(), "marked as an error" if error else "not marked as an error")
        exact(rm, {el} if removed else set(), "no longer out of consensus" if removed else "left out of consensus")
        if pays is None:
            C.ob(rule, f"{inst}: not paid", not payp, str([c.arg(1) for c in payp])[:300], payp[0].where if payp else b.fn["span"])
        else:
            norm = [(c, c.arg(1)) for c in payp]
            ok = payp and all(same_vto(x, el, pays) for c, x in norm)
            C.ob(rule, f"{inst}: paid what is due", ok, str([x for c, x in norm])[:400], payp[0].where if payp else b.fn["span"])
            src = {zs for zs in elements(b, re.escape(of)) if re.sub(r"\b(zip|enumerate|rev)\(", "", zs).startswith(of)} | {of}
            per_element(C, b, rule, f"{inst}: everyone is paid", sorted(src), ends, "each is paid", nodes=payp)
        C.floor("places where change is given", len(sites(b, chg)), 1)
        cc = [c for c in b.calls() if c.f["name"] == "calculate_tally_change"]
        hon = pol((1, "NR"), (-1, "NL"), (-1, "NE"))
        for c in cc:
            C.ob("change", "the change follows from commits, reveals, honest reveals and the request", c.arg(0) == "NC" and c.arg(1) == "NR" and polys(b, c.val(2)) == {hon} and c.arg(3) == dr, str(c.args)[:300], c.where)
        for c in chg:
            m = re.fullmatch(r"ValueTransferOutput\{pkh: (\w+), value: (.*), time_lock: 0\}", c.arg(1))
            C.ob("change", "the change goes to the requester", m and any(m.group(2) == b.s(x.value) for x in cc), c.arg(1)[:300], c.where)
        need(C, b, "change", "given only when there is any", chg, re.compile(r"^(0 lt|0 ne) data_request::calculate_tally_change\(|^data_request::calculate_tally_change\(.*\) (gt|ne) 0$"))
        C.must_pass(b, "change", "given whenever there is any", chg, ends, "a tally is made without its change", cut_edges=edges(b, re.compile(r"^(0 ge|0 eq) data_request::calculate_tally_change\(|^data_request::calculate_tally_change\(.*\) (le|eq) 0$")))

    def same_vto(x, p, v):
        m = re.fullmatch(r"ValueTransferOutput\{pkh: (.*?), value: (.*), time_lock: 0\}", x)
        return bool(m) and m.group(1) == p and any(same(m.group(2), y) for y in v)
    for v2, hf in ((True, True), (False, True), (False, False)):
        era = "stake era" if v2 else ("after" if hf else "before") + " the second hard fork"
        b = case(v2, hf)
        R_ = [rew[hf].format(lied)]
        h = positive(b, pol((1, "NR"), (-1, "NL"), (-1, "NE")) if hf else pol((1, "NR")))
        if not C.ob("tally", f"{era}: whether anyone is to be paid is told apart", h is not None, "not tested", b.fn["span"]):
            continue
        some, none = (fresh_(x) for x in h)
        for l in (True, False):
            for e in (True, False):
                judge(marks(some, l, e), f"{era}, out of consensus {l}, error {e}", pays=None if v2 or l and not e else (["COL"] + [cmin] * 0 if l else R_), error=e, removed=not l)
        if v2:
            judge(none, f"{era}, nobody in consensus", error=True)
        else:
            judge_none(C, none, f"{era}, nobody in consensus", hf, revs, coms, RV, CM, vto, names, pkh)
        for r in b.rets():
            C.ob("tally", f"{era}: of that request", all(b.s(x).startswith(f"TallyTransaction{{dr_pointer: {drp}, ") for x in alts(b, r.value)), r.s[:100], b.where(r.pid))
            for x in alts(b, r.value):
                m = re.search(r", outputs: (.*), out_of_consensus: (.*), error_committers: (.*), hash: ", b.s(x))
                C.ob("tally", f"{era}: those out of consensus are what is left of the committers, errors are listed apart", m and coms in m.group(2) and coms not in m.group(3) and coms not in m.group(1), b.s(x)[:300], b.where(r.pid))
    # lists of different lengths never make a tally
    for k in ("liars", "errors"):
        need(C, a, "tally", f"a mark for every reveal ({k})", a.rets(), f"len({T}.{k}) eq {NR}", f"{NR} eq len({T}.{k})")


def extended(b, of, not_into):
    """calls that put all of OF into a list other than NOT_INTO"""
    return [c for c in b.calls() if c.f["name"] == "extend" and c.arg(1) == of and not_into not in c.arg(0)]


def judge_none(C, b, inst, hf, revs, coms, RV, CM, vto, names, pkh):
    rule = "tally"
    push = [c for c in b.calls() if c.f["name"] in ("push", "collect_push", "insert")]
    errp = [c for c in push if c.arg(1) in (RV, CM)]
    payp = [c for c in push if c.arg(1).startswith("ValueTransferOutput{") and f"pkh: {pkh}," not in c.arg(1)]
    ends = b.rets()
    C.ob(rule, f"{inst}: every committer gets its collateral back", payp and all(c.arg(1) == vto(CM, "COL") for c in payp), str([c.arg(1) for c in payp])[:300], b.fn["span"])
    per_element(C, b, rule, f"{inst}: every committer gets its collateral back", [coms], ends, "each committer is paid", nodes=payp)
    ext = extended(b, revs, coms)
    if hf and ext and not errp:
        C.must_pass(b, rule, f"{inst}: the reveals are marked as errors", ext, ends, "each revealer is marked")
    elif hf:
        C.ob(rule, f"{inst}: the reveals are marked as errors", errp and all(c.arg(1) == RV for c in errp), str([c.arg(1) for c in errp])[:200], b.fn["span"])
        per_element(C, b, rule, f"{inst}: the reveals are marked as errors", [revs], ends, "each revealer is marked", nodes=errp)
    else:
        C.ob(rule, f"{inst}: nobody is marked as an error", not errp and not ext, str([c.arg(1) for c in errp])[:200], b.fn["span"])
    rm = [c for c in b.calls() if c.f["name"] == "remove" and c.nargs == 2]
    C.ob(rule, f"{inst}: everyone stays out of consensus", not rm, str([c.args for c in rm])[:200], b.fn["span"])




@prop("D10", [DS],
      "decision table of the stage machine (contradicting branches removed); required conditions and effects of every change to the pool; per-element coverage of the stage update",
      "DataRequestState and DataRequestPool are analysed on all paths. The stage function is decided in every combination of stage, presence of commitments, number of reveals, rounds left and too many witnesses. Commitments, reveals and tallies are accepted exactly in their own stage and recorded under the signer; a refusal changes nothing. Every request of the pool is advanced by every update, and one that is no longer open to commitments leaves the index of open requests, when the update that advanced it ends its commit stage. Requests are filed under their versioned hash in the pool and, by epoch, in the index. A tally removes its request from the pool before its stage is examined; block validation accepts tallies only in tally stage, so that is not counted against it.")
def d10(C):
    st = lambda me, n: re.compile(rf"^{me}\.stage is {n}$")
    # recording
    for nm, stage, coll in (("add_commit", "COMMIT", "commits"), ("add_reveal", "REVEAL", "reveals")):
        a = C.A(DS, "DataRequestState", nm)
        me, pkh, tx = params(a)
        ins = [e for e in a.effects() if e.root.startswith(me)]
        for e in ins:
            C.ob("recorded", f"{nm}: only the transaction, under its sender", e.op == "insert" and e.root == f"{me}.info.{coll}" and e.args == [pkh, tx], f"{e.op} {e.root} {e.args}"[:200], a.where(e.pid))
        need(C, a, "stage", f"{nm}: accepted only in its stage", oks(a), st(me, stage))
        C.ob("stage", f"{nm}: accepted at all", bool(oks(a)), "never", a.fn["span"])
        need(C, a, "stage", f"{nm}: recorded only in its stage", ins, st(me, stage))
        reasons(C, a, "stage", f"{nm}: refused only in another stage", errs(a), re.compile(rf"^{me}\.stage is (?!{stage}$)"))
        C.must_pass(a, "recorded", f"{nm}: recorded whenever accepted", ins, oks(a), "accepted without being recorded")
    a = C.A(DS, "DataRequestState", "add_tally")
    me, tx, bh = params(a)
    need(C, a, "stage", "add_tally: accepted only in its stage", oks(a), st(me, "TALLY"))
    reasons(C, a, "stage", "add_tally: refused only in another stage", errs(a), re.compile(rf"^{me}\.stage is (?!TALLY$)"))
    for r in oks(a):
        v = a.v.projv(r.value, (("v", "Ok"), ("f", 0)))
        s = a.s(v)
        ok = s.startswith(f"{me}.info[") and all(x in s for x in (f"[.tally:=Option::Some{{0: {tx}}}]", f"[.block_hash_tally_tx:=Option::Some{{0: {bh}}}]", "[.current_stage:=Option::None{}]")) and s.count(":=") == 3
        full = re.match(r"^DataRequestInfo\{(.*)\}$", s)
        if full:
            ok = all(x in s for x in (f"tally: Option::Some{{0: {tx}}}", f"block_hash_tally_tx: Option::Some{{0: {bh}}}", "current_stage: Option::None{}", f"commits: {me}.info.commits", f"reveals: {me}.info.reveals"))
        C.ob("recorded", "add_tally: the report is the request's own, completed by the tally and its block", ok, s[:300], a.where(r.pid))
    # the stage machine
    a = C.A(DS, "DataRequestState", "update_stage")
    me, more, many = params(a)
    I = f"{me}.info"
    CR, RR, NREV, W = f"{I}.current_commit_round", f"{I}.current_reveal_round", f"len({I}.reveals)", f"({me}.data_request.witnesses as usize)"
    none = {f"is_empty({I}.commits)", f"len({I}.commits) eq 0"}
    some = {f"!is_empty({I}.commits)", f"len({I}.commits) ne 0"}

    def cmps(x, y, op):
        f = {"le": "ge", "gt": "lt", "lt": "gt", "ge": "le"}
        return {f"{x} {op} {y}", f"{y} {f[op]} {x}"}
    WS = (W, f"{me}.data_request.witnesses")
    fewer = set().union(*(cmps(NREV, w, "lt") for w in WS))
    enough = set().union(*(cmps(NREV, w, "ge") for w in WS))

    def state(stage, **k):
        no = set()
        if "commits" in k:
            no |= none if k["commits"] else some
        if "many" in k:
            no.add(("!" if k["many"] else "") + many)
        for r, key in ((CR, "cround"), (RR, "rround")):
            if key in k:
                no |= cmps(r, more, "gt") if k[key] else cmps(r, more, "le")
        if "fewer" in k:
            no |= enough if k["fewer"] else fewer
        return a.under(lambda s: s in no or (s.startswith(f"{me}.stage is ") and stage not in s.split(" is ")[1].split("/")))
    table = [("no commitments, too many witnesses", state("COMMIT", commits=False, many=True), "TALLY", {}),
             ("no commitments, rounds left", state("COMMIT", commits=False, many=False, cround=True), "COMMIT", {CR: [f"Add(1, {CR})"]}),
             ("no commitments, no rounds left", state("COMMIT", commits=False, many=False, cround=False), "TALLY", {}),
             ("commitments", state("COMMIT", commits=True), "REVEAL", {RR: ["1"]}),
             ("reveals missing, rounds left", state("REVEAL", fewer=True, rround=True), "REVEAL", {RR: [f"Add(1, {RR})"]}),
             ("reveals missing, no rounds left", state("REVEAL", fewer=True, rround=False), "TALLY", {}),
             ("all revealed", state("REVEAL", fewer=False), "TALLY", {}),
             ("tally awaited", state("TALLY"), "TALLY", {})]
    for inst, b, to, upd in table:
        ends = b.rets()
        C.ob("machine", f"{inst}: goes on", bool(ends), "no return", a.fn["span"])
        asg = [e for e in b.effects() if e.op == "assign" and e.root == f"{me}.stage"]
        bad = [e for e in asg if e.args != [f"DataRequestStage::{to}{{}}"]]
        for e in bad[:1]:
            C.ob("machine", f"{inst}: becomes {to}", False, str(e.args)[:200], b.where(e.pid))
        if not bad:
            stays = inst == "tally awaited" or "rounds left" in inst and "no rounds" not in inst
            if stays and not asg:
                C.ob("machine", f"{inst}: stays {to}", True)
            else:
                C.must_pass(b, "machine", f"{inst}: becomes {to}", asg, ends, "the stage is left as it was")
        cur = [e for e in b.effects() if e.op == "assign" and e.root == f"{I}.current_stage"]
        C.ob("machine", f"{inst}: the stage reported is the new one", cur and all(e.args == [f"Option::Some{{0: DataRequestStage::{to}{{}}}}"] or e.args == [f"Option::Some{{0: {me}.stage}}"] for e in cur), str([e.args for e in cur])[:200], a.fn["span"])
        C.must_pass(b, "machine", f"{inst}: the stage reported is updated", cur, ends, "the reported stage is left as it was")
        for k in (CR, RR):
            es = [e for e in b.effects() if e.op in ("assign", "add_assign") and e.root == k]
            want = upd.get(k)
            if want is None:
                C.ob("machine", f"{inst}: {k.split('.')[-1]} kept", not es, str([e.args for e in es])[:100], a.fn["span"])
            else:
                C.ob("machine", f"{inst}: {k.split('.')[-1]} counted", es and all(e.args == want for e in es), str([e.args for e in es])[:100], a.fn["span"])
                C.must_pass(b, "machine", f"{inst}: {k.split('.')[-1]} always counted", es, ends, "the round is not counted")
    others = [e for e in a.effects() if e.root.startswith(me) and e.root not in (f"{me}.stage", f"{I}.current_stage", CR, RR)]
    C.ob("machine", "nothing else of the request changes", not others, str([(e.op, e.root) for e in others])[:200], a.fn["span"])
    a = C.fnA(DS, "calculate_backup_witnesses")
    w, rnd = params(a)
    B = f"saturating_mul({w}, saturating_pow(2, saturating_sub({rnd}, 1)))"
    for r in a.rets():
        C.ob("rounds", "backup witnesses: half the witnesses, doubled every further round", same(r.s, f"Shr({B}, 1)", f"Div({B}, 2)"), r.s[:200], a.where(r.pid))
    a = C.A(DS, "DataRequestState", "backup_witnesses", no_inline=keys(C, "calculate_backup_witnesses"))
    me = params(a)[0]
    for r in a.rets():
        C.ob("rounds", "backup witnesses of the request in its commit round", r.s == f"chain::calculate_backup_witnesses({me}.data_request.witnesses, {me}.info.current_commit_round)", r.s[:200], a.where(r.pid))
    a = C.fnA(DS, "data_request_has_too_many_witnesses", no_inline=keys(C, "from_epoch_opt", "get_environment"))
    dr, n, ep = params(a)
    PV = f"ProtocolVersion::from_epoch_opt({ep})"
    V2 = "ProtocolVersion::V2_0{}"
    legacy = a.under(lambda s: s in cmps(PV, V2, "ge"))
    for r in legacy.rets():
        C.ob("rounds", "too many witnesses: never before stake", r.s == "0", r.s[:100], a.where(r.pid))
    stake = a.under(lambda s: s in cmps(PV, V2, "lt"))
    for net, main in (("mainnet", True), ("other networks", False)):
        b = stake.under(lambda s: " is " in s and "get_environment()" in s and ("Mainnet" in s.split(" is ")[1].split("/")) != main)
        d = "4" if main else "2"
        sh = "2" if main else "1"
        q = [f"Shr({n}, {sh})", f"Div({n}, {d})"]
        yes = edges(b, *[x for y in q for z in (f"{dr}.witnesses", f"({dr}.witnesses as usize)") for x in cmps(z, y, "gt")])
        for r in b.rets():
            if r.s in ("0", "1"):
                C.ob("rounds", f"too many witnesses: more than the share of validators, {net}", bool(yes), "no such comparison", b.where(r.pid))
                if r.s == "1":
                    need(C, b, "rounds", f"too many witnesses: more than the share of validators, {net}", [r], yes)
                else:
                    need(C, b, "rounds", f"enough validators, {net}", [r], *[x for y in q for z in (f"{dr}.witnesses", f"({dr}.witnesses as usize)") for x in cmps(z, y, "le")])
            else:
                C.ob("rounds", f"too many witnesses: more than the share of validators, {net}", same(r.s, *[f"Gt({dr}.witnesses, {y})" for y in q], *[f"Lt({y}, {dr}.witnesses)" for y in q]), r.s[:200], b.where(r.pid))
    # the pool
    M = lambda *xs: tuple(sorted({k for x in xs for k in (keys(C, x) if "::" not in x else tuple(f["key"] for f in C.F.method(DS, *x.split("::"))))}))
    NI = M("DataRequestState::add_commit", "DataRequestState::add_reveal", "DataRequestState::add_tally", "DataRequestState::update_stage", "DataRequestState::new", "data_request_has_too_many_witnesses", "versioned_hash", "from_epoch", "from_public_key", "concatenate_and_hash", "wip0019", "hash", "get_protocol_version_activation_epoch")
    for nm, add in (("process_commit", "add_commit"), ("process_reveal", "add_reveal")):
        a = C.A(DS, "DataRequestPool", nm, no_inline=NI)
        me, tx, ep, bh = params(a)
        S = f"get_mut({me}.data_request_pool, {tx}.body.dr_pointer)"
        ADD = f"DataRequestState::{add}({S}.Some.0, PublicKeyHash::from_public_key({tx}.signatures[0].public_key), {tx})"
        cs = [c for c in a.calls() if c.f["name"] == add and "DataRequestState" in a.s(c.value)]
        C.floor(f"{nm}: recorded", len(sites(a, cs)), 1)
        for c in cs:
            C.ob("pool", f"{nm}: recorded for its request, under its signer", a.s(c.value) == ADD, a.s(c.value)[:300], c.where)
        for r in a.rets():
            if r.s != ADD and r.variant != "Err":
                need(C, a, "pool", f"{nm}: succeeds only when recorded", [r], f"{ADD} is Ok")
        reasons(C, a, "pool", f"{nm}: refused only for an unknown request or by it", errs(a), f"{S} is None", f"{ADD} is Err")
        ef = [e for e in a.effects() if e.root.startswith(me) and not e.op.endswith(add)]
        C.ob("pool", f"{nm}: nothing else changes", not ef, str([(e.op, e.root) for e in ef])[:200], a.fn["span"])
    a = C.A(DS, "DataRequestPool", "add_data_request", no_inline=NI)
    me, ep, tx, bh = params(a)
    H = f"VersionedHashable::versioned_hash({tx}, ProtocolVersion::from_epoch({ep}))"
    NEW = f"DataRequestState::new({tx}.body.dr_output, PublicKeyHash::from_public_key({tx}.signatures[0].public_key), {ep}, {bh})"
    pool = [e for e in a.effects() if e.op == "insert" and e.root == f"{me}.data_request_pool"]
    idx = [e for e in a.effects() if e.op == "insert" and e.root == f"{me}.data_requests_by_epoch"]
    for e in pool:
        C.ob("pool", "a new request is filed under its versioned hash, with its output, owner, epoch and block", e.args == [H, NEW], str(e.args)[:300], a.where(e.pid))
    for e in idx:
        C.ob("pool", "a new request is listed as open", e.args[0] == H, str(e.args)[:200], a.where(e.pid))
    for c in a.calls():
        if c.f["name"] in ("entry", "insert") and c.arg(0) == f"{me}.data_requests_by_epoch":
            C.ob("pool", "listed under its epoch", c.arg(1) == ep, c.arg(1)[:100], c.where)
    for es in (pool, idx):
        C.must_pass(a, "pool", "a new request is filed and listed", es, oks(a), "accepted without it")
    emp = re.compile(rf"^is_empty\({tx}\.signatures\)$|^len\({tx}\.signatures\) eq 0$")
    reasons(C, a, "pool", "a request is refused only without signature", errs(a), emp)
    for e in pool + idx:
        p = a.paths_avoiding([r.pid for r in errs(a)], start=e.pid) if errs(a) else None
        C.ob("pool", "a refused request is not filed", p is None, "filed and then refused", a.where(e.pid))
    a = C.A(DS, "DataRequestState", "new")
    dr, pkh, ep, bh = params(a)
    for r in a.rets():
        s = r.s
        ok = s.startswith(f"DataRequestState{{data_request: {dr}, pkh: {pkh}, info: ") and s.endswith(f", stage: DataRequestStage::COMMIT{{}}, epoch: {ep}}}") and "current_stage: Option::Some{0: DataRequestStage::COMMIT{}}" in s and (f"block_hash_dr_tx:={bh}]" in s or f"block_hash_dr_tx: {bh}" in s) and s.count(":=") <= 2
        C.ob("pool", "a new request expects commitments and has none", ok and "current_commit_round: 0" in s and "current_reveal_round: 0" in s, s[:500], a.where(r.pid))
    a = C.A(DS, "DataRequestPool", "process_tally", no_inline=NI)
    me, tx, bh = params(a)
    RM = f"remove({me}.data_request_pool, {tx}.dr_pointer)"
    OUT = f"DataRequestState::add_tally({RM}.Some.0, {tx}, {bh})"
    done = [c for c in a.calls() if c.f["name"] == "push" and c.arg(0) == f"{me}.to_be_stored"]
    for c in done:
        C.ob("pool", "process_tally: the report of its own request is kept for storage", c.arg(1) == OUT + ".Ok.0", c.arg(1)[:300], c.where)
    need(C, a, "pool", "process_tally: succeeds only when the request accepts the tally", oks(a), f"{OUT} is Ok")
    C.must_pass(a, "pool", "process_tally: the report is kept for storage", done, oks(a), "the report is lost")
    reasons(C, a, "pool", "process_tally: refused only for an unknown request or by it", errs(a), f"{RM} is None", f"{OUT} is Err")
    # the update
    a = C.A(DS, "DataRequestPool", "update_data_request_stages", no_inline=NI)
    me, vc, ep = params(a)
    EL = f"elem({me}.data_request_pool)"
    many = lambda v: f"data_request::data_request_has_too_many_witnesses({EL}.1.data_request, {v}, {ep})"
    ups = [c for c in a.calls() if c.f["name"] == "update_stage"]
    C.floor("stage updates", len(sites(a, ups)), 1)
    known = {many(f"{vc}.Some.0"), many("1000"), many(f"{{1000 | {vc}.Some.0}}"), many(f"unwrap_or({vc}, 1000)")}
    for c in ups:
        C.ob("update", "every request moves by the pool's rounds and its own witnesses", c.arg(0) == f"{EL}.1" and c.arg(1) == f"{me}.extra_rounds" and c.arg(2) in known, str(c.args)[:300], c.where)
    per_element(C, a, "update", "every request is advanced", [f"{me}.data_request_pool"], a.rets(), "its stage is updated", nodes=ups)
    STG = f"{EL}.1.stage"
    full = C.A(DS, "DataRequestPool", "update_data_request_stages", no_inline=tuple(k for k in NI if k not in {f["key"] for f in C.F.method(DS, "DataRequestState", "update_stage")}))
    early = [i for i, l in edges(full, re.compile(rf"^{re.escape(STG)} is ")) if "update_stage" not in full.where(i)]
    C.ob("update", "what follows goes by the updated stage", not early, "the stage examined is the one before the update", full.where(early[0]) if early else a.fn["span"])
    SET = f"get_mut({me}.data_requests_by_epoch, {EL}.1.epoch)"
    opened = [c for c in a.calls() if c.f["name"] == "remove" and c.arg(0) == SET + ".Some.0"]
    for c in opened:
        C.ob("update", "what is no longer open is that request", c.arg(1) == f"{EL}.0", c.arg(1)[:200], c.where)
    drop = [c for c in a.calls() if c.f["name"] == "remove" and c.arg(0) == f"{me}.data_requests_by_epoch"]
    for c in drop:
        C.ob("update", "an epoch is dropped from the index only when it has no open requests", c.arg(1) == f"{EL}.1.epoch", c.arg(1)[:200], c.where)
    need(C, a, "update", "an epoch is dropped from the index only when it has no open requests", drop, re.compile(rf"^is_empty\({re.escape(SET)}\.Some\.0\)$|^len\({re.escape(SET)}\.Some\.0\) eq 0$")) if drop else None
    R1 = {f"1 ne {EL}.1.info.current_reveal_round", f"{EL}.1.info.current_reveal_round ne 1", f"{EL}.1.info.current_reveal_round gt 1"}
    for inst, stage, no in (("entering its reveal stage", "REVEAL", R1), ("in tally stage", "TALLY", set())):
        b = a.under(lambda s: s in no or (s.startswith(STG + " is ") and stage not in s.split(" is ")[1].split("/")))
        op = [c for c in b.calls() if c.f["name"] == "remove" and c.arg(0) == SET + ".Some.0"]
        gone = edges(b, f"{SET} is None")
        per_element(C, b, "update", f"a request {inst} is no longer open to commitments", [f"{me}.data_request_pool"], b.rets(), "it leaves the index", nodes=op, cut=gone)
    b = a.under(lambda s: s.startswith(STG + " is ") and "COMMIT" not in s.split(" is ")[1].split("/"))
    bad = [c for c in b.calls() if c.f["name"] in ("remove", "clear", "retain") and c.arg(0) in (SET + ".Some.0", f"{me}.data_requests_by_epoch", f"{me}.waiting_for_reveal")]
    C.ob("update", "a request in commit stage stays open", not bad, str([c.args for c in bad])[:200], a.fn["span"])
    WR = f"get({me}.waiting_for_reveal, {EL}.0)"
    PK = f"PublicKeyHash::from_public_key({WR}.Some.0.signatures[0].public_key)"
    out = [c for c in a.calls() if c.f["name"] in ("collect_push", "push") and c.arg(1) == f"{WR}.Some.0"]
    allp = [c for c in a.calls() if c.f["name"] in ("collect_push", "push")]
    C.ob("update", "what is to be sent are own reveals waiting", out and len(out) == len(allp), str([c.args for c in allp])[:300], a.fn["span"])
    need(C, a, "update", "a reveal is sent only in reveal stage", out, re.compile(rf"^{re.escape(STG)} is REVEAL$"))
    need(C, a, "update", "a reveal is sent only for an accepted commitment", out, f"contains_key({EL}.1.info.commits, {PK})")
    need(C, a, "update", "a reveal already accepted is not sent again", out, f"!contains_key({EL}.1.info.reveals, {PK})")
    b = a.under(lambda s: s in (f"!contains_key({EL}.1.info.commits, {PK})", f"contains_key({EL}.1.info.reveals, {PK})", f"{WR} is None") or (s.startswith(STG + " is ") and "REVEAL" not in s.split(" is ")[1].split("/")))
    o2 = [c for c in b.calls() if c.f["name"] in ("collect_push", "push") and c.arg(1) == f"{WR}.Some.0"]
    per_element(C, b, "update", "a waiting reveal of an accepted commitment is sent", [f"{me}.data_request_pool"], b.rets(), "it is sent", nodes=o2)
    gone = [c for c in a.calls() if c.f["name"] == "remove" and c.arg(0) == f"{me}.waiting_for_reveal"]
    need(C, a, "update", "waiting reveals are dropped only in tally stage", gone, re.compile(rf"^{re.escape(STG)} is TALLY$")) if gone else None
    for c in gone:
        C.ob("update", "the waiting reveal of that request is dropped", c.arg(1) == f"{EL}.0", c.arg(1)[:200], c.where)
    # tally order
    for nm in ("get_reveals", "get_all_reveals"):
        a = C.A(DS, "DataRequestPool", nm, no_inline=NI)
        ps = params(a)
        me = ps[0]
        ptr = f"elem({me}.data_request_pool).0" if nm == "get_all_reveals" else ps[1]
        st_ = f"elem({me}.data_request_pool).1" if nm == "get_all_reveals" else f"get({me}.data_request_pool, {ps[1]}).Some.0"
        aw = ps[1] if nm == "get_all_reveals" else ps[2]
        W19 = f"ActiveWips::wip0019({aw})"
        L = f"collect(values({st_}.info.reveals))"
        for on in (True, False):
            b = a.under(lambda s: s == ("!" if on else "") + W19)
            srt = [c for c in b.calls() if c.f["name"].startswith("sort") and L in c.arg(0)]
            C.floor(f"{nm}: reveals put in order", len(srt), 1)
            keyed = [c for c in b.calls() if c.f["name"] == "concatenate_and_hash"]
            inst = f"{nm}: " + ("by the hash of witness and request, from WIP-0019 on" if on else "by witness")
            if on:
                C.ob("order", inst, keyed and all(re.fullmatch(r"cb:.*#0\(.*\)\.body\.pkh\.hash", c.arg(0)) and c.arg(1) in (ptr, f"{ptr}.SHA256.0") for c in keyed), str([c.args for c in keyed])[:300], a.fn["span"])
            else:
                C.ob("order", inst, not keyed, "hashed", a.fn["span"])
                for c in srt:
                    k = re.match(r"(\{closure#\d+\})", c.arg(1))
                    fs = [C.an(f) for f in closures(C, a.fn) if k and f["path"].endswith("::" + k.group(1))]
                    got = {v for x in fs for v in x.ret_values()}
                    C.ob("order", inst, any(re.fullmatch(r"\w+\.body\.pkh|(cmp|partial_cmp)\((\w+)\.body\.pkh, (?!\2)\w+\.body\.pkh\)", g) for g in got) or (not k and "body.pkh" in c.arg(1)), f"{c.arg(1)[:60]} gives {sorted(got)}"[:300], c.where)
            use = [c for c in b.calls() if c.f["name"] in ("collect_push", "push") and L in c.arg(1)] if nm == "get_all_reveals" else [r for r in b.rets() if L in r.s]
            C.must_pass(b, "order", f"{nm}: always ordered", srt, use, "reveals handed out in no fixed order")
        if nm == "get_all_reveals":
            use = [c for c in a.calls() if c.f["name"] in ("collect_push", "push", "insert") and L in a.s(c.value) + c.arg(1)]
            need(C, a, "order", "get_all_reveals: only requests in tally stage", use, re.compile(rf"^{re.escape(st_)}\.stage is TALLY$"))
            for c in use:
                C.ob("order", "get_all_reveals: each under its own request", c.arg(1).startswith(f"tuple{{0: {ptr}, 1: {L}"), c.arg(1)[:200], c.where)
            V20 = "witnet_data_structures::get_protocol_version_activation_epoch(ProtocolVersion::V2_0{})"
            many_ = [c for c in a.calls() if c.f["name"] == "data_request_has_too_many_witnesses"]
            C.floor("get_all_reveals: looks at the number of witnesses", len(many_), 1)
            W = re.compile(r"(!?)[\w:]*data_request_has_too_many_witnesses\(")
            E20 = f"{st_}.epoch"
            for inst, o, tm, listed in (("a request older than wit/2 is always listed", "lt", True, True), ("one with too many witnesses is left out from the first epoch of wit/2 on", "eq", True, False), ("one with too many witnesses is left out under wit/2", "gt", True, False), ("one with enough validators is listed", "gt", False, True)):
                no = {"lt": ("ge", "gt", "eq"), "eq": ("lt", "gt", "ne"), "gt": ("le", "lt", "eq")}[o]
                sw = {"ge": "le", "gt": "lt", "le": "ge", "lt": "gt", "eq": "eq", "ne": "ne"}
                imp = {f"{E20} {x} {V20}" for x in no} | {f"{V20} {sw[x]} {E20}" for x in no}
                b = a.under(lambda s: s in imp or (W.match(s) and bool(W.match(s).group(1)) == tm) or (s.startswith(st_ + ".stage is ") and "TALLY" not in s.split(" is ")[1].split("/")))
                use = [c for c in b.calls() if c.f["name"] in ("collect_push", "push", "insert") and L in b.s(c.value) + c.arg(1)]
                if listed:
                    per_element(C, b, "order", f"get_all_reveals: {inst}", [f"{me}.data_request_pool"], b.rets(), "listed", nodes=use)
                else:
                    C.ob("order", f"get_all_reveals: {inst}", not use, "listed", use[0].where if use else a.fn["span"])
    a = C.fnA(DS, "concatenate_and_hash", no_inline=keys(C, "calculate_sha256"))
    x, y = params(a)
    for c in a.calls():
        if c.f["name"] == "calculate_sha256":
            Lg = Bytes(a).language(c.val(0), c.pid)
            C.ob("order", "the hash covers both, one after the other", Lg == {(x, y)}, str(sorted(Lg))[:200], c.where)
    a = C.A(DS, "DataRequestPool", "get_tally_ready_drs", no_inline=NI)
    me = params(a)[0]
    E1 = f"elem({me}.data_request_pool)"
    use = [c for c in a.calls() if c.f["name"] in ("collect_push", "push", "insert")]
    C.ob("order", "ready for tally: the requests themselves", use and all(c.arg(1) == f"{E1}.0" for c in use), str([c.args for c in use])[:200], a.fn["span"])
    need(C, a, "order", "ready for tally: only those in tally stage", use, f"{E1}.1.stage is TALLY")
    per_element(C, a, "order", "ready for tally: all of them", [f"{me}.data_request_pool"], a.rets(), "listed", nodes=use, cut=edges(a, re.compile(rf"^{re.escape(E1)}\.1\.stage is (?!.*TALLY)")))
