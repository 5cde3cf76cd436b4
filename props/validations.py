"""Transaction and block validation."""
import re
from wf.check import prop, Anchor, sites, params
from wf.extra import abort_sites, fact, implied, lin
from wf.maps import headers, each, once, ops, slot
from wf.valid import *

VA, DS = "witnet_validations", "witnet_data_structures"
SUMS = ("transaction_inputs_sum", "transaction_outputs_sum", "checked_total_value")


def short_call(c):
    return c.A.s(c.value)


def spent(C, fn, out_of, cases):
    """fee of a spending transaction: everything spent minus everything created, never negative"""
    a = C.fnA(VA, fn, no_inline=keys(C, *SUMS))
    tx, diff, ep, ec = params(a)[:4]
    ins = checked(C, a, "fee-inputs", fn, "transaction_inputs_sum", (f"{tx}.body.inputs", diff, ep, ec))
    if ins is None:
        return
    I = short_call(ins) + ".Ok.0"
    for label, contra, outs in cases(a, tx):
        b = a.under(contra) if contra else a
        terms, fails = {I: 1}, [short_call(ins)]
        for o in outs:
            if isinstance(o, tuple):
                c = checked(C, b, "fee-outputs", f"{fn}{label}", o[0], (o[1],))
                if c is None:
                    return
                fails.append(short_call(c))
                terms[short_call(c) + ".Ok.0"] = -1
            else:
                terms[o] = -1
        want = form(terms)
        rs = oks(b)
        vals = [(r, v) for r in rs for v in b.alternatives(payload(b, r))]
        for r, v in vals:
            got = form(lin(b, v))
            C.ob("fee-value", f"{fn}{label}: the fee is what goes in minus all that comes out", got == want, f"{b.s(v)[:300]}", b.where(r.pid))
        C.ob("fee-value", f"{fn}{label}: a fee is returned", bool(vals), "", a.fn["span"])
        if vals:
            cs = checked_sub_edges(b, want)
            need(C, b, "fee-nonnegative", f"{fn}{label}: creating more than is spent is rejected", rs, fact("ge", dict(want)), cs, what="inputs cover outputs on every accepting path")
        neg = fact("lt", dict(want))
        reasons(C, b, "fee-reasons", f"{fn}{label}: rejected only for missing inputs, overflow or a negative fee", errs(b), neg, failing(b), checked_fail(b), what="no other rejection")
    no_raw(C, a, fn, tx)


def failing(a):
    return a.edges_matching(lambda s: re.search(r" is Err$", s) and not s.startswith("Result::") and "(" in s)


def checked_fail(a):
    return a.edges_matching(lambda s: re.search(r"^\{?checked_(add|sub|mul)\(.*\)\}? is None$", s))


def checked_sub_edges(a, want):
    """success edges of a checked subtraction with exactly that linear result"""
    out = set()
    for c in a.calls():
        if c.f["name"] == "checked_sub":
            x, y = lin(a, c.val(0)), lin(a, c.val(1))
            d = dict(x)
            for k, n in y.items():
                d[k] = d.get(k, 0) - n
            if form(d) == want:
                out |= tests(a, a.s(c.value))[0]
    return out


def no_raw(C, a, fn, tx):
    """no unchecked addition or multiplication on amounts"""
    for n in a.p.nodes:
        if n.n.k == "asg" and n.n.v[0] == "bin" and n.n.v[1] in ("Add", "Mul", "AddWithOverflow", "MulWithOverflow", "AddUnchecked", "WrappingAdd"):
            s = a.s(a.v.rvalue(n.n.v, n.id))
            C.ob("fee-checked", f"{fn}: sums of amounts are checked for overflow", not re.search(rf"\.(value|fee)\b|_sum\(", s), s[:200], a.where(n.id))


@prop("V01", [VA],
      "MIR linear-form extraction of the returned fee per case, dominance of the covering comparison, success of the input and output sums on every accepting path",
      "The four fee functions are analysed on all paths: the fee equals the sum of the spent outputs minus everything the transaction creates (outputs, data request total, stake and change; for unstaking the declared fee, with withdrawal plus fee covered by the staked amount), every sum is overflow-checked, a transaction creating more than it spends is rejected, and nothing else is. The sums over inputs and outputs themselves are V02's.")
def v01(C):
    spent(C, "vt_transaction_fee", None, lambda a, tx: [("", None, [("transaction_outputs_sum", f"{tx}.body.outputs")])])
    spent(C, "dr_transaction_fee", None, lambda a, tx: [("", None, [("transaction_outputs_sum", f"{tx}.body.outputs"), ("checked_total_value", f"{tx}.body.dr_output")])])
    spent(C, "st_transaction_fee", None, lambda a, tx: [
        (" without change", lambda s: s == f"{tx}.body.change is Some", [f"{tx}.body.output.value"]),
        (" with change", lambda s: s == f"{tx}.body.change is None", [f"{tx}.body.output.value", f"{tx}.body.change.Some.0.value"])])
    a = C.fnA(VA, "ut_transaction_fee")
    tx, st = params(a)
    W, F = f"{tx}.body.withdrawal.value", f"{tx}.body.fee"
    rs = oks(a)
    for r in rs:
        for v in a.alternatives(payload(a, r)):
            C.ob("fee-value", "ut_transaction_fee: the declared fee is the fee", a.s(v) == F, a.s(v), a.where(r.pid))
    want = form({st: 1, W: -1, F: -1})
    need(C, a, "fee-nonnegative", "ut_transaction_fee: withdrawal plus fee is covered by the stake", rs, fact("ge", dict(want)), checked_sub_edges(a, want), what="staked amount covers withdrawal plus fee")
    reasons(C, a, "fee-reasons", "ut_transaction_fee: rejected only for overflow or an uncovered withdrawal", errs(a), fact("lt", dict(want)), checked_fail(a))
    no_raw(C, a, "ut_transaction_fee", tx)
    # the total of a data request
    a = C.A(DS, "DataRequestOutput", "checked_total_value")
    rs = oks(a)
    C.ob("fee-outputs", "data request total: reported through checked arithmetic only", not [n for n in a.p.nodes if n.n.k == "asg" and n.n.v[0] == "bin" and n.n.v[1] in ("Add", "Mul", "Sub", "AddWithOverflow", "MulWithOverflow", "SubWithOverflow")], "", a.fn["span"])
    for r in rs:
        v = payload(a, r)
        got = poly(a, v)
        w, rw, fe = "self.witnesses", "self.witness_reward", "self.commit_and_reveal_fee"
        want = {tuple(sorted((w, rw))): 1, tuple(sorted((w, fe))): 2}
        C.ob("fee-outputs", "data request total: witnesses times (reward + commit fee + reveal fee)", got == want, f"{got}", a.where(r.pid))


def poly(a, v, depth=20):
    """polynomial of a value built by checked or plain arithmetic: {sorted tuple of atoms: coefficient}"""
    if depth < 0:
        return {("?",): 1}
    v = a.n.peel(v)
    t = a.v.t(v)
    if t[0] == "const" and isinstance(t[1], int):
        return {(): t[1]} if t[1] else {}
    x = t
    if t[0] == "proj":
        y = v
        while x[0] == "proj":
            y = a.v.strip(x[1])
            x = a.v.t(y)
        if not (x[0] == "call" and a.s(v) in (a.s(y) + ".Some.0", a.s(y) + ".Ok.0")):
            x = t
    nm = x[1].split("::")[-1] if x[0] == "call" else ""
    if x[0] == "call" and len(x[2]) == 1 and nm in ("from", "into", "try_from", "try_into"):
        return poly(a, x[2][0], depth - 1)
    if x[0] == "cast":
        return poly(a, x[2], depth - 1)
    op = {"checked_add": "Add", "checked_mul": "Mul", "checked_sub": "Sub", "add": "Add", "mul": "Mul", "sub": "Sub"}.get(nm)
    if op and len(x[2]) == 2:
        l, r = x[2]
    elif x[0] == "bin" and x[1] in ("Add", "Mul", "Sub"):
        op, l, r = x[1], x[2], x[3]
    else:
        return {(a.s(v),): 1}
    p, q = poly(a, l, depth - 1), poly(a, r, depth - 1)
    out = {}
    if op == "Mul":
        for k, c in p.items():
            for j, d in q.items():
                m = tuple(sorted(k + j))
                out[m] = out.get(m, 0) + c * d
    else:
        out = dict(p)
        for j, d in q.items():
            out[j] = out.get(j, 0) + (d if op == "Add" else -d)
    return {k: c for k, c in out.items() if c}


IN = ("get", "epoch_timestamp", "query_stakes", "transaction_outputs_sum", "visit_with_pkh", "pkh", "included_in_block_number")


def input_checks(C, a, what, coll, diff, ep, ec, ends, distinct=True):
    """every input of COLL: found among the unspent outputs, unlocked, listed once; returns the rendering of the output"""
    K = f"elem({coll}).output_pointer"
    G = f"UtxoDiff::get({diff}, {K})"
    O = f"{G}.Some.0"
    T = f"EpochConstants::epoch_timestamp({ec}, {ep})"
    per_element(C, a, "input-exists", f"{what}: every input is an unspent output", coll, ends, "each input is looked up and found", cut=tests(a, G)[0])
    lock = fact("ge", {f"{T}.Ok.0.0": 1, f"{O}.time_lock": -1})
    per_element(C, a, "input-unlocked", f"{what}: no input is spent before its time lock", coll, ends, "each input's time lock has expired", cut=edges(a, lock))
    yes, no = fresh(a, K)
    per_element(C, a, "input-distinct", f"{what}: no input is listed twice", coll, ends, "each input is new to the set of inputs seen", cut=yes)
    sets = {e.root for e in insertions(a, K)}
    C.ob("input-distinct", f"{what}: one set remembers the inputs seen", len(sets) == 1, str(sets), a.fn["span"])
    for c in a.calls():
        # the set must outlive the iterations
        if c.f["name"] in ("new", "with_capacity", "default") and any(s.startswith("insert(" + a.s(c.value) + ",") for i, l, y, ss in a.edges() for s in ss):
            C.ob("input-distinct", f"{what}: the set is created once, before the loop", not a.in_loop(c.pid), "recreated for every input", c.where)
    bad = edges(a, fact("lt", {f"{T}.Ok.0.0": 1, f"{O}.time_lock": -1})) | no | tests(a, G)[1]
    return O, bad


@prop("V02", [VA],
      "MIR per-iteration dominance: every input of the loop passes lookup, lock, set-insertion and checked addition; accumulator term extraction",
      "The sum over inputs (shared by value transfers, data requests and stakes) and the collateral check are analysed on all paths: each input is found among the unspent outputs, its time lock has expired at the epoch, it was not listed before, and exactly its value is added with overflow reported; collateral inputs must in addition belong to the committer and be old enough. The sum over outputs adds every output's value, checked.")
def v02(C):
    a = C.fnA(DS, "transaction_inputs_sum", no_inline=keys(C, *IN))
    ins, diff, ep, ec = params(a)
    rs = oks(a)
    O, bad = input_checks(C, a, "inputs", ins, diff, ep, ec, rs)
    summed(C, a, "inputs", ins, f"{O}.value", [payload(a, r) for r in rs], rs)
    reasons(C, a, "input-reasons", "inputs: rejected only when missing, locked, repeated or overflowing", errs(a), bad, failing(a), checked_fail(a))
    b = C.fnA(DS, "transaction_outputs_sum")
    outs = params(b)[0]
    rs = oks(b)
    summed(C, b, "outputs", outs, f"elem({outs}).value", [payload(b, r) for r in rs], rs)
    reasons(C, b, "input-reasons", "outputs: rejected only on overflow", errs(b), checked_fail(b))
    # collateral
    a = C.fnA(VA, "validate_commit_collateral", no_inline=keys(C, *IN))
    co, diff, ep, ec, req, bn, age = params(a)[:7]
    rs = oks(a)
    coll = f"{co}.body.collateral"
    O, bad = input_checks(C, a, "collateral", coll, diff, ep, ec, rs)
    P = f"VrfProof::pkh({co}.body.proof.proof)"
    per_element(C, a, "collateral-owner", "collateral: every input belongs to the committer", coll, rs, "output owner is the signer of the commitment", cut=edges(a, f"{O}.pkh eq {P}"))
    N = f"UtxoDiff::included_in_block_number({diff}, elem({coll}).output_pointer).Some.0"
    lim = f"saturating_sub({bn}, {age})"
    I = N[: -len(".Some.0")]
    young = [f"{{{N} | {bn}}}", f"{{{bn} | {N}}}", f"unwrap_or({I}, {bn})", bn]
    per_element(C, a, "collateral-age", "collateral: every input is old enough, and as recent as this block when created by it", coll, rs, "the input's block is not newer than the limit", cut=edges(a, fact("ge", {lim: 1, N: -1}), *[fact("ge", {lim: 1, y: -1}) for y in young]))
    # an output of this very block has no block number yet
    hit = [(p, k, t) for p, k, t, ok in abort_sites(a) if not ok and f"{I} is None" in a.must([p])]
    C.ob("collateral-abort", "collateral: an output of the same block does not abort the node", not hit, str([x[1:] for x in hit])[:200], a.where(hit[0][0]) if hit else a.fn["span"])
    C.ob("collateral-abort", "collateral: an output of the same block is told apart", bool(edges(a, f"{I} is None")), "never", a.fn["span"])
    O2 = f"transaction_factory::transaction_outputs_sum({co}.body.outputs)"
    need(C, a, "collateral-value", "collateral: the outputs are summed, overflow rejected", rs, tests(a, O2)[0])
    vers = [("before wit/2", ("V1_7", "V1_8")), ("in wit/2", ("V2_0",))]
    for label, vs in vers:
        b = a.under(ver(vs, params(a)[8]))
        ob = oks(b)
        S = f"{O2}.Ok.0"
        diffs = set()
        for i, l, y, ss in b.edges():
            at = b.fl.atom(i, l)
            if at[0] == "cmp" and at[1] in ("eq",):
                for x, z in ((at[2], at[3]), (at[3], at[2])):
                    if b.s(z) == req or label == "in wit/2" and b.s(z) == "0":
                        for form_ in subs(b, x):
                            if form_ and form_[1] == S and in_sum(b, form_[0], f"{O}.value"):
                                diffs.add((i, l))
        need(C, b, "collateral-value", f"collateral {label}: inputs minus outputs is the required amount", ob, diffs)
    b = a.under(ver(("V2_0",), params(a)[8]))
    Q = rf"Stakes::query_stakes\({params(a)[9]}, QueryStakesKey::Validator\{{0: {re.escape(P)}\}}\)"
    enough = set()
    for i, l, y, ss in b.edges():
        for s in ss:
            if re.match(rf"^saturating_add\(({params(a)[10]}, {req}|{req}, {params(a)[10]})\) le .*{Q}.*coins$", s):
                enough.add((i, l))
    need(C, b, "collateral-stake", "collateral in wit/2: the stake covers the minimum stake plus the collateral", oks(b), enough)


def subs(a, v):
    """(minuend value, rendered subtrahend) of the alternatives of a difference"""
    out = []
    for x in a.alternatives(v):
        t = a.v.t(a.n.peel(x))
        if t[0] == "bin" and t[1] == "Sub":
            out.append((t[2], a.s(t[3])))
        elif t[0] == "proj" and a.s(x).startswith("checked_sub(") and a.s(x).endswith(".Some.0"):
            y = t
            while y[0] == "proj":
                y = a.v.t(a.v.strip(y[1]))
            out.append((y[2][0], a.s(y[2][1])))
        else:
            return []
    return out


def in_sum(a, v, term):
    start, added = sum_forms(a, v)
    return start <= {"0"} and all(t == term for o, t in added)


def summed(C, a, what, coll, term, vals, ends):
    """the value is the checked sum of TERM over the whole of COLL"""
    C.ob("sum", f"{what}: a sum is returned", bool(vals), "", a.fn["span"])
    for v in vals:
        st, add = sum_forms(a, v)
        C.ob("sum", f"{what}: starts from zero", st == {"0"}, str(st)[:200], a.fn["span"])
        C.ob("sum", f"{what}: adds exactly each element's value", {t for o, t in add} <= {term}, str(add)[:300], a.fn["span"])
        C.ob("sum", f"{what}: overflow is noticed", all(o == "checked_add" for o, t in add), str({o for o, t in add}), a.fn["span"])
    adds = [c for c in a.calls() if c.f["name"] == "checked_add" and c.arg(1) == term]
    C.ob("sum", f"{what}: the addition is found", bool(adds), "", a.fn["span"])
    each(C, a, "sum", f"{what}: every element is added", coll, adds, (), ends, "each element is added before the next one")
    once(C, a, "sum", f"{what}: added once", coll, adds, "one addition per element")
    bad = checked_fail(a)
    tgt = [y for (i, l) in bad for ll, y in a.p.nodes[i].succ if ll == l]
    ok = {e if isinstance(e, int) else e.pid for e in ends}
    C.ob("sum", f"{what}: an overflow is an error", bool(bad) and not (a.reach(tgt) & ok), "a success return is reachable after an overflow", a.fn["span"])


OPQ = ("get", "try_into", "try_from", "hash", "versioned_hash", "from_public_key", "pkh", "verify", "verify_v1", "verify_v2", "get_protocol_version", "secp256k1_signature_message", "calculate_sha256", "from_epoch")


def PKH(x):
    return rf"(?:PublicKeyHash::from_public_key|PublicKey::pkh)\({re.escape(x)}\)"


def CONV(x):
    return rf"(?:TryInto::|TryFrom::)?(?:try_into|try_from|PublicKey::from_slice|Signature::from_der)\({re.escape(x)}\)\.Ok\.0"


def same(x, y):
    """equality of two renderings given as regex sources, either way round"""
    return re.compile(rf"^(?:{x} eq {y}|{y} eq {x})$")


def differ(x, y):
    return re.compile(rf"^(?:{x} ne {y}|{y} ne {x})$")


def queued(a, kind, pk, data, sig, param):
    """pushes of a signature to be checked with exactly that key, message and signature"""
    out = []
    for e in a.effects():
        if e.op == "push" and e.root == param and e.args:
            m = re.match(rf"^SignaturesToVerify::{kind}\{{public_key: (.*), data: (.*), signature: (.*)\}}$", e.args[0])
            if m and re.fullmatch(pk, m.group(1)) and re.fullmatch(data, m.group(2)) and re.fullmatch(sig, m.group(3)):
                out.append(e)
    return out


def vcalls(s):
    """success of a call to the signature check with that rendering (regex source)"""
    return re.compile(rf"^(?:signature::)?verify\({s}\) is Ok$")


@prop("V03", [VA],
      "MIR per-iteration and per-variant dominance of verification success; provenance of key, message and signature at every queueing site; reachable-abort scan",
      "Checking is analysed per kind of queued item: each item of the queue is verified with its own key, message and signature (eligibility proofs also against their target), nothing is skipped and a failure is returned. Queueing is analysed at every site: one signature per input in order, made by the key the spent output is locked to, over the transaction's own hash; commits, reveals, unstakes and blocks likewise, with the block's signer being the prover of eligibility. Keys or signatures that do not parse end in an error, never in an abort. The curve and VRF libraries are trusted.")
def v03(C):
    nk = keys(C, *OPQ)
    # checking the queue
    a = C.fnA(VA, "verify_signatures", no_inline=keys(C, "verify", "verify_v1", "verify_v2", "get_protocol_version", "secp256k1_signature_message", "calculate_sha256", "try_into", "try_from"))
    q, vrf = params(a)[:2]
    E = f"elem({q})"
    kinds = variants_of(C, "SignaturesToVerify")
    C.ob("queue", "kinds of queued signatures", {"VrfDr", "VrfBlock", "SecpTx", "SecpBlock", "SuperBlockVote"} <= set(kinds), str(kinds), a.fn["span"])
    for k in kinds:
        b = a.under(lambda s, k=k: bool(m := re.match(rf"^{re.escape(E)} is ([\w/]+)$", s)) and k not in m.group(1).split("/"))
        f = f"{E}.{k}"
        rs = oks(b)
        if k in ("SecpTx", "SecpBlock"):
            per_element(C, b, "queue-checked", f"{k}: verified with its own key, message and signature", q, rs, "signature verification succeeded", cut=edges(b, vcalls(re.escape(f"{f}.public_key, {f}.data, {f}.signature"))))
        elif k == "VrfBlock":
            V = f"BlockEligibilityClaim::verify({f}.proof, {vrf}, {f}.vrf_input)"
            per_element(C, b, "queue-checked", f"{k}: the proof is verified", q, rs, "proof verification succeeded", cut=tests(b, V)[0])
            per_element(C, b, "queue-checked", f"{k}: the proof's hash meets the target", q, rs, "hash not above the target", cut=edges(b, fact("ge", {f"{f}.target_hash": 1, f"{V}.Ok.0": -1}), f"{V}.Ok.0 le {f}.target_hash"))
        elif k == "VrfDr":
            V2 = f"DataRequestEligibilityClaim::verify_v2({f}.proof, {vrf}, {f}.vrf_input, {f}.dr_hash, {f}.withdrawer)"
            V1 = f"DataRequestEligibilityClaim::verify_v1({f}.proof, {vrf}, {f}.vrf_input, {f}.dr_hash)"
            pv = re.compile(rf"get_protocol_version\({re.escape(f)}\.inclusion_epoch\)$|from_epoch")
            for label, vs, V in (("before wit/2", ("V1_7", "V1_8"), V1), ("from wit/2 on", ("V2_0", "V2_1"), V2)):
                c = b.under(ver(vs, pv))
                per_element(C, c, "queue-checked", f"{k} {label}: the proof is verified", q, oks(c), "proof verification succeeded", cut=tests(c, V)[0])
                per_element(C, c, "queue-checked", f"{k} {label}: the proof's hash meets the target", q, oks(c), "hash not above the target", cut=edges(c, f"{V}.Ok.0 le {f}.target_hash"))
        elif k == "SuperBlockVote":
            v = f"{f}.superblock_vote"
            m = rf"(?:hash::)?calculate_sha256\(SuperBlockVote::secp256k1_signature_message\({re.escape(v)}\)\)(?:\.0)?"
            per_element(C, b, "queue-checked", f"{k}: the vote's signature is verified over the vote", q, rs, "signature verification succeeded", cut=edges(b, vcalls(rf"{CONV(v + '.secp256k1_signature.public_key')}, {m}, {CONV(v + '.secp256k1_signature.signature')}")))
        else:
            C.ob("queue-checked", f"{k}: a kind of signature nobody checks", False, "unknown kind", a.fn["span"])
    C.no_abort(a, "queue-abort", "no queued item can abort verification", allowed=[r"copy_from_slice", r"TryInto|TryFrom.*never"])
    # one signature per input
    a = C.fnA(VA, "validate_transaction_signature", no_inline=nk)
    sg, ins, h, utxo, out = params(a)
    rs = oks(a)
    need(C, a, "sign-count", "as many signatures as inputs", rs, f"len({ins}) eq len({sg})", f"len({sg}) eq len({ins})")
    IE, SE = pair(a, ins, sg)
    colls = [ins, sg, f"zip({ins})", f"zip({ins}, {sg})", f"zip({sg})", f"zip({sg}, {ins})"]
    G = f"UtxoDiff::get({utxo}, {IE}.output_pointer)"
    own = edges(a, same(PKH(f"{SE}.public_key"), re.escape(f"{G}.Some.0.pkh"))) | tests(a, G)[1]
    hs = [c for c in colls if headers(a, c)]
    C.ob("sign-owner", "inputs and signatures are walked together", bool(hs), f"{elements(a, '.')}", a.fn["span"])
    per_element(C, a, "sign-owner", "each input is signed by the key its output is locked to", hs, rs, "hash of the signing key equals the output's owner (or the output is unknown)", cut=own)
    need_pair = queued(a, "SecpTx", CONV(f"{SE}.public_key"), re.escape(f"{h}.SHA256.0"), CONV(f"{SE}.signature"), out)
    per_element(C, a, "sign-queued", "each signature is queued with its key over the transaction hash", hs, rs, "queued before the next input", nodes=need_pair)
    C.no_abort(a, "sign-abort", "malformed signatures end in an error")
    # commit and reveal
    a = C.fnA(VA, "validate_commit_reveal_signature", no_inline=nk)
    h, sg, out = params(a)
    rs = oks(a)
    need(C, a, "sign-count", "commit/reveal: exactly one signature", rs, f"len({sg}) eq 1", f"1 eq len({sg})")
    C.must_pass(a, "sign-queued", "commit/reveal: the signature is queued over the transaction hash", queued(a, "SecpTx", CONV(f"{sg}[0].public_key"), re.escape(f"{h}.SHA256.0"), CONV(f"{sg}[0].signature"), out), rs, "queued before success")
    for r in rs:
        C.ob("sign-queued", "commit/reveal: the signature returned is the one queued", a.s(payload(a, r)) == f"{sg}[0]", a.s(payload(a, r)), a.where(r.pid))
    C.no_abort(a, "sign-abort", "commit/reveal: malformed signatures end in an error")
    # unstake
    a = C.fnA(VA, "validate_unstake_signature", no_inline=nk)
    tx = params(a)[0]
    rs = oks(a)
    need(C, a, "sign-owner", "unstake: signed by the withdrawal address", rs, same(PKH(f"{tx}.signature.public_key"), re.escape(f"{tx}.body.withdrawal.pkh")))
    need(C, a, "sign-verified", "unstake: the signature is verified over the transaction hash", rs, vcalls(rf"{CONV(tx + '.signature.public_key')}, Hashable::hash\({tx}\)\.SHA256\.0, {CONV(tx + '.signature.signature')}"))
    C.no_abort(a, "sign-abort", "unstake: malformed signatures end in an error", allowed=[r"copy_from_slice"])
    # blocks
    a = C.fnA(VA, "validate_block_signature", no_inline=nk)
    bl, out = params(a)
    rs = oks(a)
    need(C, a, "sign-owner", "block: signed by the key that proves eligibility", rs, same(PKH(f"{bl}.block_sig.public_key"), rf"VrfProof::pkh\({bl}\.block_header\.proof\.proof\)"))
    msg = rf"(?:VersionedHashable::versioned_hash\({bl}, .*get_protocol_version\(Option::Some\{{0: {bl}\.block_header\.beacon\.checkpoint\}}\)\)|VersionedHashable::versioned_hash\({bl}, ProtocolVersion::from_epoch\({bl}\.block_header\.beacon\.checkpoint\)\))\.SHA256\.0"
    C.must_pass(a, "sign-queued", "block: the signature is queued over the block's own hash", queued(a, "SecpBlock", CONV(f"{bl}.block_sig.public_key"), msg, CONV(f"{bl}.block_sig.signature"), out), rs, "queued before success")
    C.no_abort(a, "sign-abort", "block: malformed signatures end in an error")
    # every spending transaction is signed over its own hash
    nk2 = keys(C, "validate_transaction_signature", "vt_transaction_fee", "dr_transaction_fee", "st_transaction_fee", "weight", "validate_data_request_output", "validate_rad_request", "get", "hash", "versioned_hash", "query_stakes", "check_validator_withdrawer", "get_protocol_version")
    for fn in ("validate_vt_transaction", "validate_dr_transaction", "validate_stake_transaction"):
        a = C.fnA(VA, fn, no_inline=nk2)
        ps = params(a)
        tx, diff, out = ps[0], ps[1], ps[4]
        hx = re.compile(rf"^(?:VersionedHashable::versioned_hash\({tx}, .*\)|Hashable::hash\({tx}\))$")
        checked(C, a, "sign-applied", fn, "validate_transaction_signature", (f"{tx}.signatures", f"{tx}.body.inputs", hx, diff, out))
        need(C, a, "sign-applied", f"{fn}: at least one input", oks(a), f"!is_empty({tx}.body.inputs)", f"len({tx}.body.inputs) ge 1")
    # adders store what they are given
    for fn, kind, fs in (("add_dr_vrf_signature_to_verify", "VrfDr", ("proof", "vrf_input", "dr_hash", "target_hash", "withdrawer", "inclusion_epoch")), ("add_block_vrf_signature_to_verify", "VrfBlock", ("proof", "vrf_input", "target_hash"))):
        a = C.fnA(VA, fn)
        ps = params(a)
        want = {f"{f}: {p}" for f, p in zip(fs, ps[1:])}
        es = [e for e in a.effects() if e.op == "push" and e.root == ps[0]]
        good = [e for e in es if (m := re.match(rf"^SignaturesToVerify::{kind}\{{(.*)\}}$", e.args[0])) and set(m.group(1).split(", ")) == want]
        C.must_pass(a, "sign-queued", f"{fn}: the proof is queued with what it is checked against", good, a.rets(), f"{[e.args for e in es]}")


def variants_of(C, ty):
    for k, a in C.F.adts.items():
        if k.split("::")[-1] == ty and len(a["variants"]) > 1:
            return [v["name"] for v in a["variants"]]
    raise Anchor(f"enum {ty}")


def pair(a, x, y):
    return f"elem({x})", f"elem({y})"


BLK = ("validate_genesis_vt_transaction", "validate_vt_transaction", "validate_commit_transaction", "validate_reveal_transaction", "validate_dr_transaction", "validate_tally_transaction", "validate_stake_transaction", "validate_unstake_transaction", "validate_mint_transaction", "update_utxo_diff", "versioned_hash", "get_protocol_version", "from_epoch", "root", "push", "sha256", "data_request_has_too_many_witnesses", "process_data_request", "weight", "extra_weight", "get_dr_output", "get_dr_output_pointers_by_epoch", "get_tally_ready_drs", "tally_bytes_on_encode_error", "get_collateral_age", "get_validator_min_stake_nanowits", "get_validator_max_stake_nanowits", "get_unstaking_delay_seconds", "get_maximum_stake_block_weight", "get_maximum_unstake_block_weight", "take_diff", "is_genesis", "total_block_reward", "data_request_state", "data_request_state_mutable", "update_stage", "set_stage", "pkh", "wips_0009_0011_0012", "wip_0008", "validator_count", "hash")
EPO = "block.block_header.beacon.checkpoint"


def PV(e):
    e = re.escape(e)
    return rf"(?:[\w:]*get_protocol_version\(Option::Some\{{0: {e}\}}\)|ProtocolVersion::from_epoch\({e}\))"


class Kind:
    def __init__(self, txs, fn, ins, outs, fee, root, weight=None, limit=None, dup=None, dup_of=None):
        self.txs, self.fn, self.ins, self.outs, self.fee, self.root, self.weight, self.limit, self.dup = txs, fn, ins, outs, fee, root, weight, limit, dup


KINDS = [
    Kind("value_transfer_txns", "validate_vt_transaction", "R.Ok.0.0", "R.Ok.0.1", "R.Ok.0.2", "vt_hash_merkle_root", r"VTTransaction::weight\(E\)", "max_vt_weight"),
    Kind("commit_txns", "validate_commit_transaction", "E.body.collateral", "E.body.outputs", "R.Ok.0.2", "commit_hash_merkle_root", dup=r"tuple\{0: (?:R\.Ok\.0\.0|E\.body\.dr_pointer), 1: VrfProof::pkh\(E\.body\.proof\.proof\)\}"),
    Kind("reveal_txns", "validate_reveal_transaction", None, None, "R.Ok.0", "reveal_hash_merkle_root", dup=r"tuple\{0: E\.body\.dr_pointer, 1: E\.body\.pkh\}"),
    Kind("data_request_txns", "validate_dr_transaction", "R.Ok.0.0", "R.Ok.0.1", "R.Ok.0.2", "dr_hash_merkle_root", r"DRTransaction::weight\(E\)", "max_dr_weight"),
    Kind("tally_txns", "validate_tally_transaction", "Vec::new()", "R.Ok.0.0", "R.Ok.0.1", "tally_hash_merkle_root", dup=r"E\.dr_pointer"),
    Kind("stake_txns", "validate_stake_transaction", "R.Ok.0.0", "R.Ok.0.4", "R.Ok.0.2", "stake_hash_merkle_root", r"(?:R\.Ok\.0\.3|StakeTransaction::weight\(E\))", "get_maximum_stake_block_weight", dup=r"E\.body\.output\.authorization\.public_key"),
    Kind("unstake_txns", "validate_unstake_transaction", "Vec::new()", "R.Ok.0.2", "R.Ok.0.0", "unstake_hash_merkle_root", r"(?:R\.Ok\.0\.1|UnstakeTransaction::weight\(E\))", "get_maximum_unstake_block_weight", dup=r"E\.body\.operator"),
]


def unwrapped(s):
    m = re.match(r"^(?:Itertools::collect_vec|collect|from_iter|Vec::from_iter)\((.*)\)$", s)
    return m.group(1) if m else s


@prop("V04", [VA],
      "MIR per-iteration dominance over the seven transaction loops, object identity of the state threaded through them, provenance of each Merkle root and of the total fee",
      "validate_block_transactions is analysed on all paths, per protocol version and for genesis: every listed transaction of every kind is validated against the running ledger state (one object, updated in place after each transaction with that transaction's own inputs, outputs and hash), its fee is added to the total handed to mint validation, its hash enters exactly its kind's tree, repeated commits, reveals, tallies and staking operators are rejected, weights stay within the limits, every request ready for tally is tallied, and the header's roots equal the computed ones. The individual validators are other properties' (V01-V03, V05-V09).")
def v04(C):
    a0 = C.fnA(VA, "validate_block_transactions", no_inline=keys(C, *BLK))
    pv = re.compile(PV(EPO) + "$")
    gen = re.compile(r"^Block::is_genesis\(")
    live = a0.under(both(lambda s: bool(gen.match(s)), ver(("V2_0", "V2_1"), pv)))
    threaded(C, live, KINDS, "from wit/2 on")
    # older versions: no staking transactions of a kind that does not exist yet
    for vs, label, kinds, banned in ((("V1_7",), "before staking", KINDS[:5], ("stake_txns", "unstake_txns")), (("V1_8",), "before wit/2", KINDS[:6], ("unstake_txns",))):
        b = a0.under(both(lambda s: bool(gen.match(s)), ver(vs, pv)))
        threaded(C, b, kinds, label, brief=True)
        for x in banned:
            need(C, b, "version-gate", f"{label}: no {x}", oks(b), f"is_empty(block.txns.{x})", f"len(block.txns.{x}) eq 0", what="list is empty on every accepting path")
    g = a0.under(lambda s: s.startswith("!") and bool(gen.match(s[1:])))
    ends = oks(g)
    cs = [c for c in g.calls() if c.f["name"] == "validate_genesis_vt_transaction"]
    E = "elem(block.txns.value_transfer_txns)"
    good = [c for c in cs if c.arg(0) == E]
    R = {g.s(c.value) for c in good}
    per_element(C, g, "validated", "genesis: every value transfer is validated", "block.txns.value_transfer_txns", ends, "genesis validation succeeded", cut=set().union(*[tests(g, r)[0] for r in R]) if R else set())
    lim = set()
    for i, l, y, ss in g.edges():
        for s in ss:
            if s.startswith("checked_sub(") and s.endswith("is Some") and any(s[:-8].endswith(f", {r}.Ok.0.1)") for r in R):
                lim.add((i, l))
    subs = [(c.pid, c.val(0)) for c in g.calls() if c.f["name"] == "checked_sub" and c.arg(1) in {f"{r}.Ok.0.1" for r in R}]
    raw = [(n.id, g.v.operand(n.n.v[2], n.id)) for n in g.p.nodes if n.n.k == "asg" and n.n.v[0] == "bin" and n.n.v[1].startswith("Sub") and g.s(g.v.operand(n.n.v[3], n.id)) in {f"{r}.Ok.0.1" for r in R}]
    if raw:
        have = {g.s(v) for _, v in raw}
        for r in R:
            lim |= {e for e, x in compared(g, "le", lambda s: s in have) if g.s(x) == f"{r}.Ok.0.1"}
        per_element(C, g, "genesis-supply", "genesis: every transaction's value is deducted", "block.txns.value_transfer_txns", ends, "subtracted from what is left", nodes=[p for p, _ in raw])
    per_element(C, g, "genesis-supply", "genesis: the value created is deducted from what may be created", "block.txns.value_transfer_txns", ends, "checked deduction of each transaction's value", cut=lim)
    starts = {g.s(x) for _, v in subs + raw for x in alts(g, v)}
    same = compared(g, "eq", lambda s: s == "block.block_header.merkle_roots")
    need(C, g, "roots", "genesis: the header's Merkle roots equal the computed ones", ends, {e for e, _ in same}, what="equality of all roots on every accepting path")
    C.ob("validated", "genesis: no mint is taken into account", not [c for c in g.calls() if c.f["name"] == "update_utxo_diff" and "mint" in c.arg(2)], "mint outputs enter the state", g.fn["span"])
    up = [c for c in g.calls() if c.f["name"] == "update_utxo_diff" and c.arg(1) == "Vec::new()" and unwrapped(c.arg(2)) in {f"{r}.Ok.0.0" for r in R} and re.fullmatch(rf"(?:VersionedHashable::versioned_hash\({re.escape(E)}, {PV(EPO)}\)|Hashable::hash\({re.escape(E)}\))", c.arg(3))]
    per_element(C, g, "state-updated", "genesis: the outputs of every value transfer enter the state", "block.txns.value_transfer_txns", ends, "updated with the transaction's own outputs and hash", nodes=up)
    C.ob("genesis-supply", "genesis: what may be created leaves room for all block rewards", any(re.match(r"^Sub\(18446744073709551615, .*total_block_reward\(consensus_constants\.initial_block_reward, consensus_constants\.halving_period\)\)$", s) for s in starts), str(starts)[:300], g.fn["span"])
    # the pool of data requests is the caller's
    pool_untouched(C, a0)


def pool_untouched(C, a):
    """validation is a question: the caller's pool of data requests is as before whatever the answer"""
    for e in a.effects():
        if e.root == "dr_pool" and e.op in ("process_data_request", "add_data_request", "process_commit", "process_reveal", "process_tally", "add_commit", "add_reveal", "add_tally", "insert", "remove", "clear"):
            undo = [x for x in a.effects() if x.root.startswith("dr_pool") and x.op in ("remove", "clone_from", "remove_data_request")]
            rest = a.paths_avoiding([r.pid for r in a.rets()], cut_nodes=[x.pid for x in undo], start=[y for _, y in a.p.nodes[e.pid].succ][0]) if undo else True
            C.ob("state-untouched", f"validation leaves the caller's pool of data requests as it was: {e.op}", rest is None, f"{e.op} on {e.root} without being undone on every way out", e.where)


def threaded(C, b, kinds, label, brief=False):
    ends = oks(b)
    diffs = {obj(b, c.pid, 0) for c in b.calls() if c.f["name"] == "update_utxo_diff"}
    C.ob("state-threaded", f"{label}: one ledger state is updated throughout", len(diffs) == 1, str(diffs), b.fn["span"])
    diff = sorted(diffs)[0] if diffs else "?"
    total = [c for c in b.calls() if c.f["name"] == "validate_mint_transaction" and c.arg(0) == "block.txns.mint"]
    roots = {}
    for e, other in compared(b, "eq", lambda s: s == "block.block_header.merkle_roots"):
        roots.setdefault("edges", set()).add(e)
        roots.setdefault("vals", []).append(other)
    need(C, b, "roots", f"{label}: the header's Merkle roots equal the computed ones", ends, roots.get("edges", set()), what="equality of all roots on every accepting path")
    C.ob("fee-total", f"{label}: mint is validated against a total", bool(total), "", b.fn["span"])
    fees, start = set(), set()
    for c in total:
        s, t = sum_forms(b, c.val(1))
        C.ob("fee-total", f"{label}: no transaction's fee is left out", not may_skip(b, c.val(1)), "an iteration passes the total on without adding to it", c.where)
        start |= s
        fees |= {x for o, x in t}
    C.ob("fee-total", f"{label}: the total of fees starts from zero", start == {"0"}, str(start)[:200], b.fn["span"])
    known = set()
    flds = []
    for k in KINDS:
        txs = f"block.txns.{k.txs}"
        E = f"elem({txs})"
        if k not in kinds:
            for v in roots.get("vals", []):
                for x in b.alternatives(v):
                    f = b.v.projv(x, (named(C, "BlockMerkleRoots", k.root),))
                    C.ob("roots", f"{label}: {k.root} is the null hash", not calls_within(b, f, "root"), b.s(f)[:200], b.fn["span"])
            continue
        cs = [c for c in b.calls() if c.f["name"] == k.fn and c.arg(0) == E]
        C.ob("validated", f"{label}: {k.txs} are validated", bool(cs), "", b.fn["span"])
        if not cs:
            continue
        R = b.s(cs[0].value)
        sub = lambda s: s.replace("R.", R + ".").replace("E.", E + ".") if not s.startswith("Vec") else s
        per_element(C, b, "validated", f"{label}: every one of {k.txs} is validated", txs, ends, f"{k.fn} succeeded", cut=set().union(*[tests(b, b.s(c.value))[0] for c in cs]))
        args = [a_ for c in cs for a_ in c.args]
        # the state seen by the validator
        for c in cs:
            seen = [obj(b, c.pid, i) for i in range(c.nargs) if "UtxoDiff" in (b.g.optype(b.p.nodes[c.pid].n.args[i]) or "")]
            if k.fn not in ("validate_reveal_transaction", "validate_tally_transaction", "validate_unstake_transaction"):
                C.ob("state-threaded", f"{label}: {k.txs} are validated against the running state", seen == [diff], f"{seen} instead of {diff}", c.where)
            if k.fn not in ("validate_reveal_transaction", "validate_tally_transaction"):
                C.ob("validated", f"{label}: {k.txs} are validated at the block's epoch", EPO in c.args, str(c.args)[:200], c.where)
            if k.fn in ("validate_vt_transaction", "validate_dr_transaction", "validate_commit_transaction", "validate_reveal_transaction", "validate_stake_transaction"):
                sg = [obj(b, c.pid, i) for i in range(c.nargs) if "SignaturesToVerify" in (b.g.optype(b.p.nodes[c.pid].n.args[i]) or "")]
                C.ob("validated", f"{label}: signatures of {k.txs} reach the caller's queue", sg == ["signatures_to_verify"], str(sg), c.where)
        known.add(sub(k.fee))
        C.ob("fee-total", f"{label}: fees of {k.txs} count", sub(k.fee) in fees, "not part of the total", cs[0].where)
        adds = [n.id for n in b.p.nodes if n.n.k == "asg" and n.n.v[0] == "bin" and n.n.v[1].startswith("Add") and b.s(b.v.operand(n.n.v[3], n.id)) == sub(k.fee) or n.n.k == "asg" and n.n.v[0] == "bin" and n.n.v[1].startswith("Add") and b.s(b.v.operand(n.n.v[2], n.id)) == sub(k.fee)]
        adds += [c.pid for c in b.calls() if c.f["name"] in ("checked_add", "saturating_add", "add_assign", "add") and sub(k.fee) in c.args]
        per_element(C, b, "fee-total", f"{label}: the fee of every one of {k.txs} is added", txs, ends, "each fee is added", nodes=adds)
        once(C, b, "fee-total", f"{label}: the fee of each of {k.txs} is added once", txs, adds, "once per transaction")
        H = rf"(?:VersionedHashable::versioned_hash\({re.escape(E)}, {PV(EPO)}\)|Hashable::hash\({re.escape(E)}\))"
        # the state after the transaction
        if k.outs:
            up = []
            for c in b.calls():
                if c.f["name"] == "update_utxo_diff" and c.nargs == 7 and unwrapped(c.arg(2)) == sub(k.outs):
                    if unwrapped(c.arg(1)) == sub(k.ins) and re.fullmatch(H, c.arg(3)) and c.arg(4) == EPO and c.arg(6) == "consensus_constants.checkpoint_zero_timestamp":
                        up.append(c)
            per_element(C, b, "state-updated", f"{label}: the state is updated after every one of {k.txs}", txs, ends, "updated with the transaction's own inputs, outputs and hash", nodes=up)
            once(C, b, "state-updated", f"{label}: the state is updated once per {k.txs}", txs, up, "once per transaction")
        # the tree
        pushes = [e for e in b.effects() if e.op == "push" and e.args and re.fullmatch(rf"(?:Sha256\{{0: {H}\.SHA256\.0\}}|{H}|(?:into|from)\({H}\))", e.args[0])]
        trees = {e.root for e in pushes}
        per_element(C, b, "roots", f"{label}: the hash of every one of {k.txs} enters a tree", txs, ends, "pushed before the next one", nodes=pushes)
        once(C, b, "roots", f"{label}: the hash of each of {k.txs} enters once", txs, pushes, "once per transaction")
        got = set()
        for v in roots.get("vals", []):
            for x in b.alternatives(v):
                f = b.v.projv(x, (named(C, "BlockMerkleRoots", k.root),))
                got |= {obj(b, p, 0) for p in calls_within(b, f, "root")}
        C.ob("roots", f"{label}: {k.root} is the root of the tree of {k.txs}", got == trees and len(trees) == 1, f"root of {got}, hashes pushed to {trees}", b.fn["span"])
        others = [e for e in b.effects() if e.op == "push" and e.root in trees and e not in pushes]
        C.ob("roots", f"{label}: nothing else enters the tree of {k.txs}", not others, str([e.args[0][:80] for e in others]), b.fn["span"])
        if k.dup:
            D = re.compile("^" + k.dup.replace(r"R\.", re.escape(R) + r"\.").replace(r"E\.", re.escape(E) + r"\.") + "$")
            ks = {e.args[0] for e in b.effects() if e.op == "insert" and e.args and D.match(e.args[0])}
            cut = set().union(*[fresh(b, x)[0] for x in ks]) if ks else set()
            absent = b.edges_matching(lambda s: any(re.match(rf"^!contains\(.*, {re.escape(x)}\)$", s) for x in ks))
            uniq = b.edges_matching(lambda s: s.startswith("next(Itertools::duplicates(") and txs in s and s.endswith(" is None") or s.startswith("Itertools::all_unique(") and txs in s)
            if uniq and not ks:
                need(C, b, "no-repeats", f"{label}: no repetition among {k.txs}", ends, uniq, what="no duplicate on every accepting path")
                key = dup_keys(C, b, txs)
                C.ob("no-repeats", f"{label}: repetition among {k.txs} is by the right key", len(key) == 1 and bool(re.match("^" + k.dup + "$", key[0])), str(key)[:200], b.fn["span"])
            else:
                per_element(C, b, "no-repeats", f"{label}: no repetition among {k.txs}", txs, ends, "each key is new", cut=cut | absent)
                if absent:
                    per_element(C, b, "no-repeats", f"{label}: every key of {k.txs} is remembered", txs, ends, "key inserted", nodes=[e.pid for x in ks for e in insertions(b, x)])
        if k.limit:
            W = re.compile("^" + k.weight.replace(r"R\.", re.escape(R) + r"\.").replace("E)", re.escape(E) + ")").replace(r"(E\)", r"(" + re.escape(E) + r"\)") + "$")
            cut = set()
            for e, v in compared(b, "le", lambda s: s == f"consensus_constants.{k.limit}" or s == f"ConsensusConstantsWit2::{k.limit}(consensus_constants_wit2, {EPO})"):
                st, ad = sum_forms(b, v)
                if (k.txs == "data_request_txns" or not may_skip(b, v)) and any(W.match(t) for o, t in ad) and st == {"0"} and all(o in ("saturating_add", "checked_add") for o, t in ad):
                    cut.add(e)
            cut |= b.edges_matching(lambda s: bool(re.match(rf"^contains\(.*, {H}\)$", s))) if k.txs == "data_request_txns" else set()
            per_element(C, b, "weight", f"{label}: the weight of {k.txs} stays within the limit", txs, ends, "accumulated weight compared with the limit for each transaction", cut=cut)
    C.ob("fee-total", f"{label}: nothing else counts as fees", fees <= known, str(sorted(fees - known))[:300], b.fn["span"])
    # mint
    need(C, b, "mint", f"{label}: the mint transaction is valid for the fees collected", ends, succeeded(b, total), what="mint validation succeeded")
    for c in total:
        C.ob("mint", f"{label}: the mint is validated with the block's epoch and the reward constants", c.args[2:] == [EPO, "consensus_constants.initial_block_reward", "consensus_constants.halving_period"], str(c.args[2:]), c.where)
    ups = [c for c in b.calls() if c.f["name"] == "update_utxo_diff" and c.arg(2) == "block.txns.mint.outputs" and c.arg(1) == "Vec::new()" and re.fullmatch(rf"VersionedHashable::versioned_hash\(block\.txns\.mint, {PV(EPO)}\)", c.arg(3))]
    C.must_pass(b, "mint", f"{label}: the mint's outputs enter the state", ups, ends, "updated with the mint's outputs and hash")
    for v in roots.get("vals", []):
        for x in b.alternatives(v):
            f = b.v.projv(x, (named(C, "BlockMerkleRoots", "mint_hash"),))
            C.ob("roots", f"{label}: mint_hash is the hash of the block's mint", bool(re.fullmatch(rf"VersionedHashable::versioned_hash\(block\.txns\.mint, {PV(EPO)}\)", b.s(f))), b.s(f)[:200], b.fn["span"])
    made = {n.n.id for n in b.p.nodes if n.n.k == "asg" and n.n.v[0] == "agg" and str(n.n.v[2]).endswith("UtxoDiff")}
    C.ob("state-threaded", f"{label}: no second ledger state is made", len(made) == 1, f"{len(made)} made", b.fn["span"])
    for r in ends:
        C.ob("state-threaded", f"{label}: the difference returned is the one built up", bool(re.match(r"^Result::Ok\{0: (?:UtxoDiff::take_diff\()?UtxoDiff\{", r.s)), r.s[:200], b.where(r.pid))
    # commits come in full, tallies are complete
    cnt = b.edges_matching(lambda s: bool(re.match(r"^(elem\(.*\)(?:\.1)?)\.current eq \1\.target$|^(elem\(.*\)(?:\.1)?)\.target eq \2\.current$", s)))
    need(C, b, "commit-count", f"{label}: every request with commitments has exactly as many as asked", ends, loop_done(b, cnt, {r.pid for r in ends}), what="count compared with the target for each request")
    ready = b.edges_matching(lambda s: bool(re.match(r"^is_empty\(DataRequestPool::get_tally_ready_drs\(dr_pool\)\)$|^len\(DataRequestPool::get_tally_ready_drs\(dr_pool\)\) eq 0$", s)))
    need(C, b, "tally-complete", f"{label}: every request ready for tally is tallied in the block", ends, ready, what="no request is left over")
    rem = [e for e in b.effects() if e.op == "remove" and "expected" in e.root or e.op == "remove" and "tally_ready" in b.s(e.call.val(0))]
    for e in b.effects():
        if e.root in {x.root for x in rem} and e not in rem:
            C.ob("tally-complete", f"{label}: nothing else changes which requests must be tallied", False, f"{e.op}{tuple(e.args)}"[:200], e.where)
    for e in rem:
        C.ob("tally-complete", f"{label}: a request counts as tallied through its own tally only", e.args == ["elem(block.txns.tally_txns).dr_pointer"], str(e.args), e.where)


def loop_done(a, cut, ends):
    """exits of loops each of whose iterations crosses CUT"""
    out = set()
    seen = {}
    for i, l, y, ss in a.edges():
        for s in ss:
            m = re.match(r"^next\((.*)\)(\.\d)? is (Some|None)$", s)
            if m:
                seen.setdefault(a.p.nodes[i].n.id, {"more": set(), "done": set()})["more" if m.group(3) == "Some" else "done"].add((i, l))
    from wf.maps import step_ok
    for hid, h in seen.items():
        if h["more"] and reach_of(a, h) & {i for i, l in cut} and step_ok(a, hid, h, set(), set(cut), ends) is None:
            out |= h["done"]
    return out


def dup_keys(C, a, txs):
    """what the elements of TXS are compared by when duplicates are looked for, with E for the element"""
    from wf.rules import A as An
    out = set()
    for c in a.calls():
        if c.f["name"] in ("duplicates", "all_unique") and txs in c.arg(0):
            t = a.v.t(a.n.peel(c.val(0)))
            k = a.v.t(a.n.peel(t[2][1])) if t[0] == "call" and t[1].split("::")[-1] == "map" and len(t[2]) == 2 else ("",)
            for f in closures(C, a.fn):
                if k[0] in ("agg", "closure") and f["path"].endswith(k[1].split("::")[-1]):
                    b = An(C.F, f)
                    nm = f["locals"][2].get("n", "arg2")
                    out |= {"E" + x[len(nm):] if x.startswith(nm) else x for x in b.ret_values()}
        elif c.f["name"] == "duplicates_by":
            out.add("?")
    return sorted(out)


CARRY = ("get_dr_output", "get_dr_output_pointers_by_epoch", "data_request_has_too_many_witnesses", "extra_weight", "validator_count", "data_request_state_mutable", "update_stage")


@prop("V14", [VA],
      "MIR per-iteration dominance over the carried requests and the block's requests, provenance of the accumulated weight, object identity of the two sets of oversized requests",
      "validate_block_transactions is analysed on all paths of a post-genesis block from wip-0008 on: the requests waiting for commitments at the block's epoch, minus those the block commits to, are all visited and both their weights enter the accumulator compared with the limit; the block's own requests add their weight unless their own hash is in the set of oversized carried requests; an oversized request of the block is entered into the pool, moved to tally unless already there, and its hash put into the very set the tallies are validated with. The pool's queries are trusted by name.")
def v14(C):
    a0 = C.fnA(VA, "validate_block_transactions", no_inline=tuple(keys(C, *BLK)) + tuple(k for k in keys(C, *CARRY) if k not in keys(C, *BLK)))
    pv = re.compile(PV(EPO) + "$")
    gen = re.compile(r"^Block::is_genesis\(")
    b = a0.under(both(lambda s: bool(gen.match(s)), ver(("V2_0", "V2_1"), pv)))
    b = b.under(lambda s: s == "!ActiveWips::wip_0008(active_wips)")
    ends = oks(b)
    calls = b.calls()
    src = f"DataRequestPool::get_dr_output_pointers_by_epoch(dr_pool, {EPO})"
    colls = [src, f"collect({src})", f"into_iter({src})"]
    hs = {x for x in colls if headers(b, x)}
    C.ob("carried", "the requests waiting at the block's epoch are gone through", len(hs) == 1, f"loops over {sorted(hs)}", b.fn["span"])
    P = sorted(hs)[0] if hs else colls[1]
    E = f"elem({P})"
    G = f"DataRequestPool::get_dr_output(dr_pool, {E})"
    D = f"{G}.Some.0"
    # those that did get commitments are left out
    gone = [c for c in calls if c.f["name"] == "remove" and c.nargs == 2 and c.arg(0) == P]
    keyed = {m.group(1) for c in gone for m in [re.fullmatch(r"elem\((.*)\)\.0", c.arg(1))] if m}
    committed = b.edges_matching(lambda s: re.match(rf"^(contains_key\(.*, {re.escape(E)}\)|get\(.*, {re.escape(E)}\) is Some)$", s) is not None)
    C.ob("carried", "requests that got commitments in the block are left out", bool(gone) and len(keyed) == 1 and all(re.fullmatch(r"elem\(.*\)\.0", c.arg(1)) for c in gone) or bool(committed), f"removed: {sorted({c.arg(1) for c in gone})}", b.fn["span"])
    com = [c for c in calls if c.f["name"] == "validate_commit_transaction"]
    C.floor("commitments are validated", len(com), 1)
    for m in keyed:
        per_element(C, b, "carried", "every request that got commitments is left out", m, ends, "its pointer is removed", nodes=gone)
    shrunk = [e for e in b.effects() if e.op in ("clear", "retain", "retain_drop", "drain", "pop", "truncate", "take") and any(e.loc == x for x in colls)]
    C.ob("carried", "no other request is left out", not shrunk, str(shrunk)[:200], shrunk[0].where if shrunk else "")
    none = edges(b, f"{G} is None")
    lim = [(e, v) for e, v in compared(b, "le", lambda s: s == "consensus_constants.max_dr_weight") if calls_within(b, v, "weight") or calls_within(b, v, "saturating_add") or calls_within(b, v, "checked_add")]
    C.ob("carried-weight", "the accumulated weight is compared with the limit", bool(lim), "", b.fn["span"])
    ADD = ("saturating_add", "checked_add", "add", "add_assign")
    for nm, what in (("weight", "weight"), ("extra_weight", "extra weight")):
        W = f"DataRequestOutput::{nm}({D})"
        adds = [c.pid for c in calls if c.f["name"] in ADD and any(x == W or W in x and x.startswith(("saturating_add(", "Add(", "checked_add(")) for x in c.args)]
        adds += [n.id for n in b.p.nodes if n.n.k == "asg" and n.n.v[0] == "bin" and n.n.v[1].startswith("Add") and any(b.s(b.v.operand(o, n.id)) == W for o in n.n.v[2:4])]
        per_element(C, b, "carried-weight", f"the {what} of every carried request is added", P, ends, "added unless the request is unknown", nodes=adds, cut=none | committed)
        ws = {c.pid for c in calls if c.f["name"] == nm and c.arg(0) == D}
        used = set().union(*[set(calls_within(b, v, nm, 60)) for e, v in lim]) if lim else set()
        C.ob("carried-weight", f"the {what} of carried requests is part of what is compared with the limit", bool(ws & used), "the accumulator compared with the limit does not contain it", b.fn["span"])
    # oversized requests
    TM = lambda x: re.compile(rf"^(?:\w+::)*data_request_has_too_many_witnesses\({re.escape(x)}, Stakes::validator_count\(stakes\), {re.escape("Option::Some{0: " + EPO + "}")}\)$")
    NTM = lambda x: re.compile("^!" + TM(x).pattern[1:])
    mark = [c for c in calls if c.f["name"] == "insert" and c.nargs == 2 and c.arg(1) == E]
    need(C, b, "carried-oversized", "a carried request is set apart only when it asks for too many witnesses", mark, TM(D))
    per_element(C, b, "carried-oversized", "every carried request that asks for too many witnesses is set apart", P, ends, "its pointer is remembered", nodes=mark, cut=none | committed | edges(b, NTM(D)))
    big = {obj(b, c.pid, 0) for c in mark}
    # the requests of the block
    TX = "block.txns.data_request_txns"
    T = f"elem({TX})"
    H = re.compile(rf"^(?:VersionedHashable::versioned_hash\({re.escape(T)}, {PV(EPO)}\)|Hashable::hash\({re.escape(T)}\))$")
    W = f"DRTransaction::weight({T})"
    adds = [c.pid for c in calls if c.f["name"] in ADD and W in c.args]
    adds += [n.id for n in b.p.nodes if n.n.k == "asg" and n.n.v[0] == "bin" and n.n.v[1].startswith("Add") and any(b.s(b.v.operand(o, n.id)) == W for o in n.n.v[2:4])]
    known = [c for c in calls if c.f["name"] in ("contains", "get") and c.nargs == 2 and H.match(c.arg(1)) and obj(b, c.pid, 0) in big]
    counted = b.edges_matching(lambda s: any(s == b.s(c.value) or s == f"{b.s(c.value)} is Some" for c in known))
    per_element(C, b, "own-weight", "the weight of every request of the block is added, unless it is a carried oversized one", TX, ends, "added or already counted", nodes=adds, cut=counted)
    # oversized requests of the block are tallied at once
    small = edges(b, NTM(f"{T}.body.dr_output"))
    per_element(C, b, "oversized", "every request of the block is checked for too many witnesses", TX, ends, "checked", cut=small | edges(b, TM(f"{T}.body.dr_output")))
    reg = [c for c in calls if c.f["name"] == "process_data_request" and c.arg(1) == T]
    C.ob("oversized", "an oversized request is entered as of the block's epoch", bool(reg) and all(c.arg(0) == "dr_pool" and c.arg(2) == EPO for c in reg), str([c.args[:3] for c in reg])[:200], b.fn["span"])
    tal = [c for c in calls if c.f["name"] == "validate_tally_transaction"]
    C.floor("tallies are validated", len(tal), 1)
    sets = {obj(b, c.pid, i) for c in tal for i in range(c.nargs) if "HashSet" in (b.g.optype(b.p.nodes[c.pid].n.args[i]) or "")}
    put = [c for c in calls if c.f["name"] == "insert" and c.nargs == 2 and H.match(c.arg(1)) and obj(b, c.pid, 0) in sets]
    for nodes, what in ((reg, "is entered into the pool"), (put, "is known to the validation of tallies")):
        need(C, b, "oversized", f"a request {what} only when it is oversized", nodes, TM(f"{T}.body.dr_output"))
        per_element(C, b, "oversized", f"every oversized request {what}", TX, ends, what, nodes=nodes, cut=small)
    other = [e for e in b.effects() if e.op in ("insert", "extend") and e.root in sets and e.pid not in {c.pid for c in put}]
    C.ob("oversized", "no other request is taken as oversized", not other, str(other)[:200], other[0].where if other else "")
    up = [c for c in calls if c.f["name"] == "update_stage"]
    already = b.edges_matching(lambda s: "data_request_state_mutable(" in s and "DataRequestStage::TALLY" in s and " eq " in s or "data_request_state_mutable(" in s and s.endswith(".stage is TALLY"))
    per_element(C, b, "oversized", "every oversized request is moved to its tally", TX, ends, "moved unless there already", nodes=up, cut=small | already)
    early = [c for c in put + reg + up if any(c.pid in b.reach([y for _, y in b.p.nodes[t.pid].succ]) for t in tal)]
    C.ob("oversized", "known before the first tally is validated", not early, str(early)[:200], early[0].where if early else "")
