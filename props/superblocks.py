"""Superblocks: who may vote, how votes are counted, what a superblock contains."""
import re
from wf.check import prop, sites, params
from wf.extra import Bytes, pol, polys
from wf.maps import slot_absent, slot_present, headers
from wf.valid import *
from props.outputs import answers, opt, NONE

DS = "witnet_data_structures"
MP, ST = "SuperBlockVotesMempool", "SuperBlockState"


def ks(C, *names):
    out = []
    for n in names:
        if "::" in n:
            t, m = n.split("::")
            out += [f["key"] for f in C.F.method(DS, t, m)]
        else:
            out += list(keys(C, n))
    return tuple(sorted(set(out)))


def eqs(x, y, *ops):
    sw = {"eq": "eq", "ne": "ne", "lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}
    return {f"{x} {o} {y}" for o in ops} | {f"{y} {sw[o]} {x}" for o in ops}


def untouched(C, a, rule, inst, me, allowed=()):
    es = [e for e in a.effects() if e.root.startswith(me) and e.root not in allowed]
    C.ob(rule, inst, not es, str([(e.op, e.root) for e in es])[:300], a.where(es[0].pid) if es else a.fn["span"])


@prop("D04", [DS],
      "decision tables of every question asked about a vote (contradicting branches removed); must-pass and effect analysis of what a vote changes; normal form of the counts compared",
      "SuperBlockState and SuperBlockVotesMempool are analysed on all paths: which votes are counted (index, committee, once per identity, never after a contradicting one), what each kind of vote changes, that the list by superblock and the list by identity are changed together (so neither can outgrow the other), and how the counts decide. Two thirds is the committee's size times two thirds rounded down, as the repository's tests fix it. Signatures are checked by the caller, outside the crates analysed.")
def d04(C):
    # is the vote one to count?
    a = C.A(DS, ST, "is_valid", no_inline=ks(C, "PublicKey::pkh"))
    me, v, i = params(a)
    J, PK = f"{v}.superblock_index", f"PublicKey::pkh({v}.secp256k1_signature.public_key)"
    IN = f"contains({me}.signing_committee, {PK})"
    N = f"saturating_add({i}, 1)"
    answers(C, a, "valid", "for the current index: exactly the votes of the committee", eqs(i, J, "ne"), [opt(IN)])
    answers(C, a, "valid", "for the next index: not known yet", eqs(i, J, "eq") | eqs(N, J, "ne"), [NONE])
    answers(C, a, "valid", "for any other index: never", eqs(i, J, "eq") | eqs(N, J, "eq"), [opt("0")])
    # a vote arrives
    a = plain(C.A(DS, ST, "add_vote", no_inline=ks(C, f"{ST}::is_valid", f"{ST}::insert_vote")))
    me, v, i = params(a)
    RV = f"{me}.votes_mempool.received_votes"
    seen, new = {f"contains({RV}, {v})", f"!insert({RV}, {v})"}, {f"!contains({RV}, {v})", f"insert({RV}, {v})"}
    OK = f"{ST}::is_valid({me}, {v}, {i})"
    INS = f"{ST}::insert_vote({me}, {v})"
    b = a.under(lambda s: s in new)
    answers(C, a, "arrival", "one seen before changes nothing", new, ["AddSuperBlockVote::AlreadySeen{}"])
    C.ob("arrival", "one seen before changes nothing", not [c for c in b.calls() if c.f["name"] == "insert_vote"], "counted again", a.fn["span"])
    untouched(C, b, "arrival", "one seen before changes nothing", me, (RV,))
    b = a.under(lambda s: s in seen)
    rec = [e for e in b.effects() if e.root == RV and e.op == "insert" and e.args == [v]]
    C.must_pass(b, "arrival", "a new one is remembered", rec, b.rets(), "forgotten")
    others = [e for e in a.effects() if e.root.startswith(me) and not (e.root == RV and e.op == "insert" and e.args == [v]) and e.op != "insert_vote"]
    C.ob("arrival", "nothing else is changed", not others, str([(e.op, e.root) for e in others])[:200], a.fn["span"])
    cnt = [c for c in a.calls() if c.f["name"] == "insert_vote"]
    for c in cnt:
        C.ob("arrival", "the vote counted is the one received", c.arg(0) == me and c.arg(1) == v, str(c.args)[:200], c.where)
    need(C, a, "arrival", "only a valid vote is counted", cnt, f"{OK}.Some.0", f"{OK} eq {opt('1')}", f"{opt('1')} eq {OK}")
    yes = {f"!{OK}.Some.0", f"{OK} is None"} | eqs(opt("1"), OK, "ne")
    no = {f"{OK}.Some.0", f"{OK} is None"} | eqs(opt("1"), OK, "eq")
    unk = {f"{OK} is Some"} | eqs(opt("1"), OK, "eq")
    J = f"{v}.superblock_index"
    E = [f"is_empty({me}.ars_previous_identities.identities)", f"len({me}.ars_previous_identities.identities) eq 0", f"0 eq len({me}.ars_previous_identities.identities)"]
    NE = [f"!{E[0]}", f"len({me}.ars_previous_identities.identities) ne 0", f"0 ne len({me}.ars_previous_identities.identities)", f"len({me}.ars_previous_identities.identities) gt 0", f"0 lt len({me}.ars_previous_identities.identities)"]
    A_ = "AddSuperBlockVote::"
    answers(C, a, "arrival", "a valid one is answered as counted", seen | yes, [INS])
    answers(C, a, "arrival", "an invalid one of the current index is not from the committee", seen | no | eqs(i, J, "ne"), [A_ + "NotInSigningCommittee{}"])
    answers(C, a, "arrival", "an invalid one while there is no previous reputation set is not from the committee", seen | no | set(NE), [A_ + "NotInSigningCommittee{}"])
    answers(C, a, "arrival", "an invalid one of another index", seen | no | set(E) | eqs(i, J, "eq"), [A_ + "InvalidIndex{}"])
    answers(C, a, "arrival", "one of the next index may be valid", seen | unk, [A_ + "MaybeValid{}"])
    # does it contradict an earlier one?
    a = C.A(DS, MP, "check_double_vote")
    me, k, v = params(a)
    P = f"contains({me}.penalized_identities, {k})"
    G = f"get({me}.votes_of_each_identity, {k})"
    had, hadnt = {f"{G} is Some"}, {f"{G} is None"}
    X, Y = (f"{G}.Some.0.superblock_index", f"{v}.superblock_index"), (f"{G}.Some.0.superblock_hash", f"{v}.superblock_hash")
    ne = [f"ne({Y[0]}, {Y[1]})", f"ne({Y[1]}, {Y[0]})"]
    eq = [f"eq({X[0]}, {X[1]})", f"eq({X[1]}, {X[0]})"]
    answers(C, a, "double", "an identity that contradicted itself stays refused", {"!" + P}, ["1"])
    answers(C, a, "double", "a first vote does not contradict", {P} | had, ["0"])
    answers(C, a, "double", "another superblock with the same index contradicts", {P} | hadnt | eqs(*X, "ne") | eqs(*Y, "eq"), ["1"] + ne + eq)
    answers(C, a, "double", "the same superblock does not contradict", {P} | hadnt | eqs(*X, "ne") | eqs(*Y, "ne"), ["0"] + ne)
    answers(C, a, "double", "another index does not contradict", {P} | hadnt | eqs(*X, "eq"), ["0"] + eq)
    # counting it
    a = plain(C.A(DS, ST, "insert_vote", no_inline=ks(C, "PublicKey::pkh", f"{MP}::check_double_vote", f"{MP}::override_vote", f"{MP}::insert_vote")))
    me, v = params(a)
    M, PK = f"{me}.votes_mempool", f"PublicKey::pkh({v}.secp256k1_signature.public_key)"
    D = f"{MP}::check_double_vote({M}, {PK}, {v})"
    C.ob("count", "asks whether it contradicts an earlier one", bool(edges(a, D)), "never asked", a.fn["span"])
    b = a.under(lambda s: s == "!" + D)
    over = [c for c in b.calls() if c.f["name"] == "override_vote" and c.args == [M, PK]]
    answers(C, a, "count", "a contradicting vote is reported", {"!" + D}, [A_ + "DoubleVote{}"])
    C.must_pass(b, "count", "a contradicting vote cancels the votes of its identity", over, b.rets(), "they stay")
    C.ob("count", "a contradicting vote is not counted", not [c for c in b.calls() if c.f["name"] == "insert_vote"], "counted", a.fn["span"])
    b = a.under(lambda s: s == D)
    put = [c for c in b.calls() if c.f["name"] == "insert_vote" and c.args == [M, v]]
    C.must_pass(b, "count", "another vote is counted", put, b.rets(), "not counted")
    C.ob("count", "another vote cancels nothing", not [c for c in b.calls() if c.f["name"] == "override_vote"], "cancelled", a.fn["span"])
    H = (f"{v}.superblock_hash", f"{me}.current_superblock_beacon.hash_prev_block")
    answers(C, a, "count", "a vote for our superblock", {D} | eqs(*H, "ne"), [A_ + "ValidWithSameHash{}"])
    answers(C, a, "count", "a vote for another superblock", {D} | eqs(*H, "eq"), [A_ + "ValidButDifferentHash{}"])
    es = [e for e in a.effects() if e.root.startswith(me) and e.op not in ("insert_vote", "override_vote")]
    C.ob("count", "nothing else is changed", not es, str([(e.op, e.root) for e in es])[:200], a.fn["span"])
    # the two lists
    a = C.A(DS, MP, "insert_vote", no_inline=ks(C, "PublicKey::pkh"))
    me, v = params(a)
    PK = f"PublicKey::pkh({v}.secp256k1_signature.public_key)"
    I, S = f"{me}.votes_of_each_identity", f"{me}.votes_on_each_superblock"
    ab, pr = re.compile(slot_absent(I, PK)), re.compile(slot_present(I, PK))
    b = a.under(lambda s: bool(ab.search(s)))
    untouched(C, b, "lists", "a second vote of an identity changes neither list", me)
    b = a.under(lambda s: bool(pr.search(s)))
    e1 = [e for e in b.effects() if e.root == I]
    e2 = [e for e in b.effects() if e.root == S and e.op in ("push", "Entry::or_insert", "insert") and v in e.args]
    for e in e1:
        C.ob("lists", "the first vote of an identity is listed under the identity", e.op in ("insert", "Entry::insert", "Entry::or_insert", "Entry::or_insert_with", "insert_entry") and v in e.args and (e.op != "insert" or e.args[0] == PK), f"{e.op} {e.args}"[:200], b.where(e.pid))
    C.must_pass(b, "lists", "the first vote of an identity is listed under the identity", e1, b.rets(), "not listed")
    C.must_pass(b, "lists", "the first vote of an identity is listed under its superblock", e2, b.rets(), "not listed")
    for c in b.calls():
        if c.f["name"] == "push":
            C.ob("lists", "the first vote of an identity is listed under its superblock", c.arg(0) in (f"or_default(entry({S}, {v}.superblock_hash))", f"or_insert_with(entry({S}, {v}.superblock_hash), {{fn}})", f"or_insert(entry({S}, {v}.superblock_hash), Vec::new())") or re.match(rf"or_insert\w*\(entry\({re.escape(S)}, {v}\.superblock_hash\)", c.arg(0)) is not None, c.arg(0)[:200], c.where)
    untouched(C, b, "lists", "nothing else is changed", me, (I, S))
    a = C.A(DS, MP, "override_vote")
    me, k = params(a)
    I, S, P = f"{me}.votes_of_each_identity", f"{me}.votes_on_each_superblock", f"{me}.penalized_identities"
    O = f"remove({I}, {k})"
    L = f"get_mut({S}, {O}.Some.0.superblock_hash)"
    pen = [e for e in a.effects() if e.root == P and e.op == "insert" and e.args == [k]]
    C.must_pass(a, "lists", "an identity that contradicted itself is refused from then on", pen, a.rets(), "not recorded")
    out = [e for e in a.effects() if e.root == I and e.op == "remove" and e.args == [k]]
    C.must_pass(a, "lists", "its vote leaves the list by identity", out, a.rets(), "it stays")
    b = a.under(lambda s: s in (f"{O} is None", f"{L} is None"))
    off = [c for c in b.calls() if c.f["name"] in ("swap_remove", "remove") and c.arg(0) == f"{L}.Some.0" and c.arg(1) == f"position_index({L}.Some.0)"] + [c for c in b.calls() if c.f["name"] == "retain" and c.arg(0) == f"{L}.Some.0"]
    C.must_pass(b, "lists", "its vote leaves the list by superblock", off, b.rets(), "it stays")
    posn = [c for c in b.calls() if c.f["name"] in ("swap_remove", "remove") and c.arg(0) == f"{L}.Some.0"]
    for i_ in posn:
        need(C, b, "lists", "what leaves the list by superblock is that very vote", [i_], *eqs(f"{O}.Some.0", f"elem({L}.Some.0)", "eq"))
    empt = re.compile(rf"is_empty\({re.escape(L)}\.Some\.0(~\w+)?\)")
    nemp = re.compile(rf"^(!is_empty\({re.escape(L)}\.Some\.0(~\w+)?\)|len\({re.escape(L)}\.Some\.0(~\w+)?\) (ne|gt) 0)$")
    emp = re.compile(rf"^(is_empty\({re.escape(L)}\.Some\.0(~\w+)?\)|len\({re.escape(L)}\.Some\.0(~\w+)?\) eq 0)$")
    b2 = b.under(lambda s: bool(nemp.match(s)))
    dr = [c for c in b2.calls() if c.f["name"] == "remove" and c.arg(0) == S and c.arg(1) == f"{O}.Some.0.superblock_hash"]
    C.must_pass(b2, "lists", "a superblock without votes is no longer a candidate", dr, b2.rets(), "it stays")
    dr = [c for c in a.calls() if c.f["name"] == "remove" and c.arg(0) == S]
    need(C, a, "lists", "a superblock with votes stays a candidate", dr, emp) if dr else None
    untouched(C, a, "lists", "overriding changes nothing else", me, (I, S, P))
    a = C.A(DS, MP, "clear_and_remove_votes")
    me = params(a)[0]
    for f in ("votes_of_each_identity", "votes_on_each_superblock", "penalized_identities", "received_votes"):
        es = [e.pid for e in a.effects() if e.root == f"{me}.{f}" and e.op in ("clear", "drain", "assign")] + [c.pid for c in a.calls() if c.f["name"] in ("drain", "take") and c.arg(0) == f"{me}.{f}"]
        C.must_pass(a, "lists", f"starting over empties {f}", es, a.rets(), "it stays")
    C.ob("lists", "starting over hands back what was received", all(re.fullmatch(rf"collect\((take\()?{me}\.received_votes\)?\)", r.s) for r in a.rets()), str([r.s for r in a.rets()])[:200], a.fn["span"])
    # counts
    for nm, f in (("valid_votes_counter", "votes_of_each_identity"), ("invalid_votes_counter", "penalized_identities")):
        a = C.A(DS, MP, nm)
        C.ob("counts", nm, [r.s for r in a.rets()] == [f"len({params(a)[0]}.{f})"], str([r.s for r in a.rets()])[:200], a.fn["span"])
    a = C.A(DS, MP, "votes_counter_from_superblock")
    me, h = params(a)
    G = f"get({me}.votes_on_each_superblock, {h})"
    answers(C, a, "counts", "votes of a superblock", {f"{G} is None"}, [f"len({G}.Some.0)"])
    answers(C, a, "counts", "votes of a superblock nobody voted for", {f"{G} is Some"}, ["len(Vec::new())", "0"])
    a = C.A(DS, MP, "most_voted_superblock")
    S = f"{params(a)[0]}.votes_on_each_superblock"
    item = f"tuple{{0: elem({S}).0, 1: len(elem({S}).1)}}"
    for r in a.rets():
        m = re.fullmatch(r"finish_max_by_key\(\{consume_max_by_key\(μ, (.*), (.*)\) \| iter::consume_start\(\)\}\)", r.s)
        m2 = re.fullmatch(r"finish_max_by\(\{consume_max_by\(μ, (.*)\) \| iter::consume_start\(\)\}\)", r.s)
        C.ob("counts", "the superblock with most votes, and their number", bool(m and m.group(1) == item and m.group(2) in (f"len(elem({S}).1)", f"tuple{{0: {item}}}.1")), r.s[:300], a.fn["span"])
    # verdict
    a = plain(C.A(DS, ST, "has_consensus", no_inline=ks(C, "two_thirds_consensus", f"{MP}::most_voted_superblock", f"{MP}::get_valid_votes_pretty", f"{ST}::signing_committee_pretty")))
    me = params(a)[0]
    MV = f"{MP}::most_voted_superblock({me}.votes_mempool)"
    n = f"len({me}.signing_committee)"
    E = [f"is_empty({me}.signing_committee)", f"{n} eq 0", f"0 eq {n}"]
    NE = [f"!is_empty({me}.signing_committee)", f"{n} ne 0", f"0 ne {n}", f"{n} gt 0", f"0 lt {n}"]
    one, two, bad = set(), set(), []
    most = f"{MV}.Some.0.1"
    for c in a.calls():
        if c.f["name"] == "two_thirds_consensus":
            p = polys(a, c.val(0))
            t = a.s(c.value)
            if p == {pol((1, most))}:
                one.add(t)
            elif p == {pol((1, most), (1, n), (-1, f"len({me}.votes_mempool.votes_of_each_identity)"), (-1, f"len({me}.votes_mempool.penalized_identities)"))}:
                two.add(t)
            else:
                bad.append(c.arg(0))
            C.ob("verdict", "votes are weighed against the whole committee", c.arg(1) == n, c.arg(1)[:200], c.where)
    C.ob("verdict", "what is weighed: the votes of the most voted, and with those still missing", bool(one) and bool(two) and not bad, str(bad)[:400], a.fn["span"])
    R = "SuperBlockConsensus::"
    HS = (f"{MV}.Some.0.0", f"{me}.current_superblock_beacon.hash_prev_block")
    T = lambda s, v: {("" if v else "!") + x for x in s}
    answers(C, a, "verdict", "without a committee", set(NE), [R + "SameAsLocal{}"])
    answers(C, a, "verdict", "without votes", set(E) | {f"{MV} is Some"}, [R + "Unknown{}"])
    base = set(E) | {f"{MV} is None"}
    answers(C, a, "verdict", "two thirds agree with us", base | T(one, False) | eqs(*HS, "ne"), [R + "SameAsLocal{}"])
    answers(C, a, "verdict", "two thirds agree on another", base | T(one, False) | eqs(*HS, "eq"), [R + f"Different{{0: {MV}.Some.0.0}}"])
    answers(C, a, "verdict", "two thirds can still be reached", base | T(one, True) | T(two, False), [R + "Unknown{}"])
    answers(C, a, "verdict", "two thirds can no longer be reached", base | T(one, True) | T(two, True), [R + "NoConsensus{}"])
    a = C.fnA(DS, "two_thirds_consensus")
    v, n = params(a)
    q = f"Div(Mul(2, {n}), 3)"
    C.ob("verdict", "two thirds of the committee, rounded down", [r.s for r in a.rets()] in ([f"Ge({v}, {q})"], [f"Le({q}, {v})"], [f"Not(Lt({v}, {q}))"], [f"Lt({q}, Add(1, {v}))"]), str([r.s for r in a.rets()])[:200], a.fn["span"])


@prop("D11", [DS],
      "data-flow from the parts of a superblock to what they are taken from, on every path and per environment; per-element coverage of the leaves; decision table of the committee's selection",
      "build_superblock, mining_build_superblock, the committee's selection and the helpers are analysed on all paths. The committee is shown to be chosen from the previous reputation set with the former beacon, or the fixed or emergency one where it applies; the superblock to state the size of that same committee and the roots of all its blocks; the beacon to be that of the superblock returned, before old votes are weighed again against the new committee. Positions selected are compared in normal form. The fixed committees' members are not compared with anything.")
def d11(C):
    NI = ks(C, "calculate_superblock_signing_committee", "mining_build_superblock", "versioned_hash", "in_emergency_period", "get_environment", "ProtocolVersion::from_epoch", "hash_key_leaves", "get_rep_ordered_bn256_list", f"{MP}::clear_and_remove_votes", f"{ST}::is_valid", f"{ST}::insert_vote", "hash")
    a = plain(C.A(DS, ST, "build_superblock", no_inline=NI))
    me, hdrs, ars, size, idx, lastp, alt, sync, ep = params(a)
    PREV = [f"take({me}.ars_current_identities)", f"{me}.ars_current_identities"]
    es = a.effects()
    for f, want in (("ars_previous_identities", PREV), ("ars_current_identities", [ars])):
        got = [e for e in es if e.root == f"{me}.{f}" and e.op == "assign"]
        for e in got:
            C.ob("sets", f"{f} moves on", e.args[0] in want, e.args[0][:200], a.where(e.pid))
        C.must_pass(a, "sets", f"{f} always moves on", got, a.rets(), "it stays")
    # committee
    BE = f"{me}.current_superblock_beacon.hash_prev_block"
    cal = [c for c in a.calls() if c.f["name"] == "calculate_superblock_signing_committee"]
    C.floor("committee selections", len(sites(a, cal)), 1)
    calc = {}
    for inst, contra, want in (("our own size", {f"{sync} is Some"}, [size]), ("the size the superblock states while synchronizing", {f"{sync} is None"}, [f"{sync}.Some.0.signing_committee_length"])):
        b = a.under(lambda s: s in contra)
        cs = [c for c in b.calls() if c.f["name"] == "calculate_superblock_signing_committee"]
        for c in cs:
            C.ob("committee", f"selected from the previous set, with {inst} and the former beacon", c.arg(0) in PREV and b.alternatives(c.val(1)) and {b.s(x) for x in alts(b, c.val(1))} <= set(want) and c.args[2:] == [idx, BE, ep], str(c.args)[:400], c.where)
        calc[inst] = {b.s(c.value) for c in cs}
    ENV = "witnet_data_structures::get_environment()"
    EM = f"tapi::in_emergency_period({idx}, {ENV})"
    FIX = 304896
    old, new = eqs(str(FIX), idx, "lt"), eqs(str(FIX), idx, "ge")
    KL = f"superblock::hash_key_leaves(ARSIdentities::get_rep_ordered_bn256_list({ars}, {alt}))"
    PVS = f"ProtocolVersion::from_epoch({ep})"
    env = lambda e: (lambda s: s.startswith(ENV + " is ") and e not in s.split(" is ")[1].split("/"))
    emer = lambda on: {f"{EM} is {'None' if on else 'Some'}"}
    for syncing in (False, True):
        sc = {f"{sync} is {'None' if syncing else 'Some'}"}
        cc = calc["the size the superblock states while synchronizing" if syncing else "our own size"]
        for inst, e, extra, kind in (("on mainnet, before wit/2, in ordinary times", "Mainnet", old | emer(False), "calc"), ("on mainnet, before wit/2, in an emergency period", "Mainnet", old | emer(True), "emer"), ("on mainnet, since wit/2", "Mainnet", new, "fixed"), ("on testnet", "Testnet", set(), "fixed"), ("elsewhere, in ordinary times", "Development", emer(False), "calc"), ("elsewhere, in an emergency period", "Development", emer(True), "emer")):
            b = a.under(lambda s: env(e)(s) or s in sc or s in extra)
            ass = [x for x in b.effects() if x.root == f"{me}.signing_committee" and x.op == "assign"]
            got = {x.args[0] for x in ass}
            want = {"calc": lambda t: t in cc, "emer": lambda t: t == f"collect({EM}.Some.0)", "fixed": lambda t: t in ("iter::collect_new()",) or t.startswith("collect(")}[kind]
            t = f"{inst}{', synchronizing' if syncing else ''}"
            C.ob("committee", f"{t}: {dict(calc='the selected one', emer='that of the emergency', fixed='the fixed one')[kind]}", bool(got) and all(want(x) for x in got), str(sorted(got))[:300], b.where(ass[0].pid) if ass else a.fn["span"])
            C.must_pass(b, "committee", f"{t}: always renewed", ass, b.rets(), "it stays")
            if kind == "fixed":
                for c in b.calls():
                    if c.f["name"] == "collect_push":
                        C.ob("committee", f"{t}: {dict(fixed='the fixed one')[kind]}", re.fullmatch(r"parse\(elem\(\[('\w+'(, )?)+\]\)\)\.Ok\.0", c.arg(1)) is not None, c.arg(1)[:200], c.where)
            # the superblock
            sb = [c for c in b.calls() if c.f["name"] == "mining_build_superblock"]
            if syncing:
                ret = {f"{sync}.Some.0"}
            else:
                ret = {b.s(c.value) for c in sb}
                for c in sb:
                    C.ob("content", f"{t}: built from these blocks, the keys of the new set, and the size of its committee", c.args[:4] == [hdrs, KL, idx, lastp] and c.arg(4) in {f"(len({x}) as u32)" for x in got} and c.arg(5) == PVS, str(c.args[4:])[:400], c.where)
            rr = {b.s(x) for r in b.rets() for x in alts(b, r.value)}
            C.ob("content", f"{t}: what is returned is the superblock {'received' if syncing else 'built'}", bool(rr) and rr <= ret, str(sorted(rr))[:300], a.fn["span"])
            be = [x for x in b.effects() if x.root == f"{me}.current_superblock_beacon" and x.op == "assign"]
            wb = {f"CheckpointBeacon{{checkpoint: {idx}, hash_prev_block: Hashable::hash({x})}}" for x in ret} | {f"CheckpointBeacon{{checkpoint: {idx}, hash_prev_block: SuperBlock::hash({x})}}" for x in ret}
            C.ob("content", f"{t}: the beacon is the superblock's", bool(be) and all(x.args[0] in wb for x in be), str([x.args for x in be])[:300], a.fn["span"])
            C.must_pass(b, "content", f"{t}: the beacon always moves on", be, b.rets(), "it stays")
    # votes received before
    OLD = f"{MP}::clear_and_remove_votes({me}.votes_mempool)"
    V = re.compile(rf"{ST}::is_valid\((.*), elem\({re.escape(OLD)}\), {idx}\)")
    yes = re.compile(rf"^{opt('1')} eq {ST}::is_valid\(.*elem\({re.escape(OLD)}\), {idx}\)$|^{ST}::is_valid\(.*elem\({re.escape(OLD)}\), {idx}\)\.Some\.0$".replace("{0: ", r"\{0: ").replace("1} eq", r"1\} eq"))
    ins = [c for c in a.calls() if c.f["name"] == "insert_vote"]
    need(C, a, "votes", "of the votes received before only valid ones are counted", ins, yes)
    for c in ins:
        C.ob("votes", "the votes received before are the ones counted", c.arg(1) == f"elem({OLD})", c.arg(1)[:200], c.where)
    q = [c for c in a.calls() if c.f["name"] == "is_valid"]
    C.floor("votes weighed again", len(sites(a, q)), 1)
    for c in q + ins:
        s = c.arg(0)
        C.ob("votes", "they are weighed with the new committee and beacon", all(f"[.{f}:=" in s for f in ("signing_committee", "current_superblock_beacon")) or s == me, s[:200], c.where)
    ass = [e.pid for e in es if e.root in (f"{me}.signing_committee", f"{me}.current_superblock_beacon") and e.op == "assign"]
    C.never_after(a, "votes", "they are weighed with the new committee and beacon", q + ins, ass, "the committee or the beacon changes after")
    no = a.edges_matching(lambda s: (" ne " in s and s.startswith(opt("1")) and "is_valid(" in s) or (s.startswith("!") and s.endswith(".Some.0") and "is_valid(" in s) or (s.endswith(" is None") and "is_valid(" in s))
    per_element(C, a, "votes", "every valid one of the votes received before is counted again", [OLD], a.rets(), "counted", nodes=ins, cut=no)
    # content
    a = C.fnA(DS, "mining_build_superblock", no_inline=ks(C, "versioned_hash", "SuperBlock::new") + tuple(k for k in keys(C, "hash_merkle_tree_root") if k.startswith(DS) or True))
    hdrs, leaves, idx, lastp, n, pv = params(a)
    LB = f"last({hdrs})"
    H = lambda x: f"superblock::hash_merkle_tree_root({x})"
    Z = ("Hash::SHA256{0: [0; 32]}", "Default::default()", "Hash::default()")
    for inst, contra in (("without blocks", {f"{LB} is Some", f"!is_empty({hdrs})"}), ("with blocks", {f"{LB} is None", f"is_empty({hdrs})"})):
        b = a.under(lambda s: s in contra)
        cs = [c for c in b.calls() if c.f["name"] == "new" and c.nargs == 7 and c.args[0] == n]
        rr = {b.s(x) for r in b.rets() for x in alts(b, r.value)}
        C.ob("content", f"{inst}: returns what is put together", bool(cs) and rr <= {b.s(c.value) for c in cs}, str(sorted(rr))[:300], a.fn["span"])
        for c in cs:
            C.ob("content", f"{inst}: size, keys' root, index and the previous superblock's last block", [c.arg(0), c.arg(1), c.arg(3), c.arg(5)] == [n, H(leaves), idx, lastp], str(c.args)[:400], c.where)
            if inst == "without blocks":
                C.ob("content", f"{inst}: nothing new", c.arg(2) in Z and c.arg(6) in Z and c.arg(4) == lastp, str(c.args)[:400], c.where)
            else:
                C.ob("content", f"{inst}: the last block is the last of them", re.fullmatch(rf"[\w:]*versioned_hash\({re.escape(LB)}\.Some\.0, {pv}\)", c.arg(4)) is not None, c.arg(4)[:200], c.where)
                for i, f in ((2, "dr_hash_merkle_root"), (6, "tally_hash_merkle_root")):
                    m = [x for x in b.calls() if x.f["name"] == "hash_merkle_tree_root" and b.v.strip(x.value) == b.v.strip(c.val(i))]
                    g = [x for y in m for x in gathered(b, y.val(0))]
                    C.ob("content", f"{inst}: {f} is the root of that of its blocks", bool(m) and bool(g) and all(x.arg(1) == f"elem({hdrs}).merkle_roots.{f}" for x in g), str([x.args for x in g] or c.arg(i))[:300], c.where)
                    per_element(C, b, "content", f"{inst}: {f} of every block is a leaf", [hdrs], [c], "a leaf", nodes=g, floor=bool(g))
    a = C.A(DS, "SuperBlock", "new")
    fs = ["signing_committee_length", "ars_root", "data_request_root", "index", "last_block", "last_block_in_previous_superblock", "tally_root"]
    f = [g for g in C.F.method(DS, "SuperBlock", "new") if "chain" in g["path"] and "schema" not in g["path"]]
    for g in f:
        x = C.an(g)
        ps = params(x)
        want = ", ".join(f"{k}: {p}" for k, p in zip(fs, ps))
        C.ob("content", "a superblock holds what it is made of", len(ps) == 7 and all(r.s.startswith("SuperBlock{" + want) for r in x.rets()), str([r.s for r in x.rets()])[:300], g["span"])
    C.floor("superblock constructor", len(f), 1)
    # leaves and roots
    for fn, inst, lf in (("hash_merkle_tree_root", "every hash is a leaf", lambda h: (f"Sha256{{0: elem({h}).SHA256.0}}",)), ("hash_key_leaves", "every key's hash is a leaf", lambda h: (f"Hashable::hash(elem({h}))", f"Bn256PublicKey::hash(elem({h}))"))):
        g = [x for x in C.F.func(DS, fn) if "superblock" in x["path"]][0]
        a = C.an(g, no_inline=ks(C, "merkle_tree_root", "hash"))
        h = params(a)[0]
        cs = [c for c in a.calls() if c.f["name"] in ("collect_push", "push")]
        for c in cs:
            C.ob("leaves", f"{fn}: {inst}", c.arg(1) in lf(h), c.arg(1)[:200], c.where)
        per_element(C, a, "leaves", f"{fn}: {inst}", [h], a.rets(), "a leaf", nodes=cs)
        for r in a.rets():
            if fn == "hash_key_leaves":
                C.ob("leaves", f"{fn}: in order", bool(cs) and a.v.strip(cs[0].val(0)) == a.v.strip(r.value), r.s[:200], a.fn["span"])
            else:
                m = [c for c in a.calls() if c.f["name"] == "merkle_tree_root"]
                C.ob("leaves", f"{fn}: their root", bool(m) and all(a.v.strip(c.val(0)) == a.v.strip(x.val(0)) for c in m for x in cs) and r.s == f"Hash::SHA256{{0: {a.s(m[0].value)}.0}}", r.s[:200], a.fn["span"])
    a = C.A(DS, "ARSIdentities", "get_rep_ordered_bn256_list")
    me, alt = params(a)
    O = f"{me}.ordered_identities"
    G = f"get({alt}.bn256, elem({O}))"
    cs = [c for c in a.calls() if c.f["name"] in ("collect_push", "push")]
    for c in cs:
        C.ob("leaves", "the key of each identity of the set", c.arg(1) == f"{G}.Some.0", c.arg(1)[:200], c.where)
    per_element(C, a, "leaves", "every identity that has a key, in order", [O], a.rets(), "listed", nodes=cs, cut=edges(a, f"{G} is None"))
    a = C.A(DS, "ARSIdentities", "new")
    o = params(a)[0]
    C.ob("sets", "a set holds all identities, in order", all(re.fullmatch(rf"ARSIdentities\{{identities: (collect\({o}\)|iter::collect_new\(\)), ordered_identities: {o}\}}", r.s) for r in a.rets()), str([r.s for r in a.rets()])[:200], a.fn["span"])
    # selection of the committee
    a = plain(C.fnA(DS, "calculate_superblock_signing_committee", no_inline=ks(C, "magic_partition", "magic_partition_2", "calculate_sha256", "after_second_hard_fork", "get_environment", "Hash::div_mod")))
    s, k, idx, h, ep = params(a)
    n = f"len({s}.identities)"
    K = [f"try_from({k}).Ok.0", f"({k} as usize)", f"try_into({k}).Ok.0"]
    zero, nz = eqs("0", k, "ne", "lt") , eqs("0", k, "eq", "ge")
    less = set().union(*[eqs(n, x, "ge", "gt", "eq") for x in K])
    more = set().union(*[eqs(n, x, "lt", "le") for x in K])
    HF = f"tapi::after_second_hard_fork({ep}, {ENV})"
    answers(C, a, "selection", "a committee of none", zero, ["HashSet::new()", "Default::default()"])
    answers(C, a, "selection", "fewer identities than seats: all of them", nz | less, [f"{s}.identities"])
    b = a.under(lambda t: t in nz or t in more or t == "!" + HF)
    for c in b.calls():
        if c.f["name"].startswith("magic_partition"):
            sh = [x for x in b.calls() if x.f["name"] == "calculate_sha256"]
            L = [Bytes(b).language(x.val(0), x.pid) for x in sh]
            D = b.s(sh[0].value) if sh else "?"
            C.ob("selection", "later: seats by the hash of the former superblock and the index", len(sh) == 1 and sh[0].arg(0) == f"concat([{h}.SHA256.0, to_be_bytes({idx})])" and c.f["name"] == "magic_partition_2" and c.arg(0) == f"{s}.ordered_identities" and c.arg(1) == f"(Hash::div_mod(Hash::SHA256{{0: {D}.0}}, ({n} as u64)).1 as usize)" and c.arg(2) in K and c.arg(3) == f"{D}.0", str(c.args)[:500], c.where)
    rr = {b.s(x) for r in b.rets() for x in alts(b, r.value)}
    C.ob("selection", "later: the identities drawn", bool(rr) and all(x.startswith("collect(superblock::magic_partition_2(") for x in rr), str(sorted(rr))[:300], a.fn["span"])
    b = a.under(lambda t: t in nz or t in more or t == HF)
    fi = f"Rem(Add(hash::calculate_sha256(to_be_bytes({idx})).0[0], {h}.SHA256.0[0]), ({n} as u32))"
    for c in b.calls():
        if c.f["name"].startswith("magic_partition"):
            C.ob("selection", "before the second hard fork: seats by the first bytes of both hashes", c.f["name"] == "magic_partition" and c.arg(0) == f"{s}.ordered_identities" and c.arg(1) in (f"try_into({fi}).Ok.0", f"({fi} as usize)", f"try_from({fi}).Ok.0") and c.arg(2) in K, str(c.args)[:500], c.where)
    rr = {b.s(x) for r in b.rets() for x in alts(b, r.value)}
    C.ob("selection", "before the second hard fork: the identities drawn", bool(rr) and all(x.startswith("collect(superblock::magic_partition(") for x in rr), str(sorted(rr))[:300], a.fn["span"])
    for c in a.calls():
        if c.f["name"] in ("magic_partition", "magic_partition_2", "div_mod"):
            need(C, a, "selection", "identities are drawn only for a committee that has seats, from enough identities", [c], *eqs("0", k, "ne", "lt"))
            need(C, a, "selection", "identities are drawn only for a committee that has seats, from enough identities", [c], *more_yes(n, K))
    a = C.fnA(DS, "magic_partition")
    v, f, n = params(a)
    l = f"len({v})"
    g = [c for c in a.calls() if c.f["name"] == "push"]
    step = f"Div({l}, {n})"
    ok = f"{v}[{{Rem(Add({step}, {f}), {l}) | Rem(Add({step}, μ), {l})}}]"
    for c in g:
        C.ob("selection", "seats are a fixed step apart, starting with the first", c.arg(1) == ok and c.arg(0) == f"vec[{v}[{f}]]", str(c.args)[:300], c.where)
    C.floor("selection: seats", len(g), 1)
    need(C, a, "selection", "as many as there are seats", [r for r in a.rets()], *eqs(f"len(vec[{v}[{f}]])", n, "ge", "eq"), *eqs(f, l, "ge"))
    a = C.fnA(DS, "magic_partition_2")
    v, f, n, rd = params(a)
    l = f"len({v})"
    I = f"Range{{start: 0, end: {n}}}"
    step = f"Div({l}, {n})"
    off = f"Rem({rd}[Rem(elem({I}), len({rd}))], {step})"
    g = [c for c in a.calls() if c.f["name"] in ("push", "collect_push")]
    for c in g:
        m = re.fullmatch(rf"{v}\[Rem\((.*), {re.escape(l)}\)\]", c.arg(1))
        C.ob("selection", "each seat is drawn from its own stretch", bool(m) and m.group(1) == f"Add(Add(Mul({step}, elem({I})), {f}), {off})", c.arg(1)[:300], c.where)
    b = a.under(lambda s: s in eqs(f, l, "ge"))
    per_element(C, b, "selection", "one for each seat", [I], b.rets(), "drawn", nodes=[c for c in b.calls() if c.f["name"] in ("push", "collect_push")])


def more_yes(n, K):
    out = set()
    for x in K:
        out |= eqs(n, x, "ge", "gt", "eq")
    return out
