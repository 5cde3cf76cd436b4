"""Crypto: ciphers, randomness, hashing, signatures, Merkle trees, HD keys, mnemonics."""
import hashlib
import re
from wf.check import prop, Anchor, sites, params
from wf.maps import to_the_end
from wf.extra import Bytes, domain, rng, fact, fact_edges
from wf.rules import call_sites
from wf.facts import ty_head

CR = "witnet_crypto"
CSPRNG = re.compile(r"^(OsRng(\{\})?|rand::thread_rng\(\)|thread_rng\(\)|rngs::thread::thread_rng\(\)|ring::rand::SystemRandom.*|StdRng::from_entropy\(\)|ChaCha\d*Rng::from_entropy\(\))$")


@prop("K01", [CR],
      "MIR argument and return provenance of both cipher directions, generic-instance equality, error-flow, abort-site enumeration",
      "Both directions are analysed on all paths: they construct the same cipher instance (algorithm, mode and padding types are compared), from the caller's key and IV in the same roles, process exactly the caller's data, return exactly the primitive's output, turn every failure into an error and contain no reachable abort. The AES and padding primitives are trusted.")
def k01(C):
    inst = {}
    for fname, prim in (("encrypt_aes_cbc", "encrypt_vec"), ("decrypt_aes_cbc", "decrypt_vec")):
        a = C.fnA(CR, fname)
        sec, data, iv = params(a)
        news = [c for c in a.calls() if c.f.get("trait", "").endswith("BlockMode") and c.f["name"].startswith("new")]
        C.ob("cipher-instance", f"{fname}: one cipher instance", len(sites(a, news)) == 1, f"{news}", a.fn["span"])
        for c in news:
            C.ob("cipher-args", f"{fname}: key and iv in their roles", c.args[:2] == [sec, iv], f"cipher built from {c.args}, caller passed key `{sec}` iv `{iv}`", c.where)
            inst[fname] = [x for x in c.f.get("ga", [])][:1]
            ty = inst[fname][0] if inst[fname] else ""
            C.ob("cipher-instance", f"{fname}: AES-256, CBC chaining, PKCS#7 padding", all(x in ty for x in ("Aes256", "Cbc<", "Pkcs7")), ty, c.where)
            C.propagates(a, "cipher-error", f"{fname}: wrong key or iv length", c)
        work = [c for c in a.calls() if c.f.get("trait", "").endswith("BlockMode") and not c.f["name"].startswith("new")]
        C.ob("cipher-op", f"{fname}: exactly the {prim.split('_')[0]} direction", work and all(c.f["name"] == prim for c in work), f"{work}", work[0].where if work else a.fn["span"])
        for c in work:
            if c.f["name"] == prim:
                C.ob("cipher-args", f"{fname}: processes the caller's data", c.arg(1) == data, f"data `{c.arg(1)}`", c.where)
        base = f"BlockMode::new_from_slices({sec}, {iv}).Ok.0"
        want = f"BlockMode::{prim}({base}, {data})" + ("" if prim == "encrypt_vec" else ".Ok.0")
        C.returns_only(a, "cipher-result", f"{fname}: returns the primitive's output unchanged", [f"Result::Ok{{0: {want}}}"], "Ok")
        if prim == "decrypt_vec":
            for c in work:
                C.propagates(a, "cipher-error", f"{fname}: malformed ciphertext", c)
        C.no_abort(a, "cipher-total", fname)
    C.ob("cipher-agree", "both directions use the same cipher", len({str(v) for v in inst.values()}) == 1 and len(inst) == 2, str(inst))


def fills(a, size, rule, inst, C, fallible):
    """the buffers of length SIZE that are wholly filled from a CSPRNG"""
    out = []
    for c in a.calls():
        if c.f["name"] in ("try_fill_bytes", "fill_bytes", "try_fill", "fill", "getrandom"):
            recv, buf = (c.arg(0), c.arg(1)) if c.nargs == 2 else ("getrandom", c.arg(0))
            C.ob(rule, f"{inst}: source is a cryptographic generator", CSPRNG.match(recv) or recv == "getrandom", f"filled from `{recv}`", c.where)
            C.ob(rule, f"{inst}: the whole buffer is filled", size(buf), f"fills `{buf}`", c.where)
            if c.f["name"] in ("try_fill_bytes", "try_fill", "getrandom") and fallible:
                C.propagates(a, rule, f"{inst}: generator failure is reported", c)
            out.append(c)
    C.ob(rule, f"{inst}: randomness is drawn", bool(out), "calls to a generator", a.fn["span"])
    return out


@prop("K02", [CR],
      "MIR taint of randomness: generator type, full-buffer fill, must-pass before every success return, no later overwrite; crate-wide census of generators",
      "Every path that returns random material is shown to pass one fill of the whole freshly allocated buffer of the requested length by an operating-system or thread CSPRNG, with failures propagated and no write to the buffer afterwards; the crate is scanned for any other generator. Quality of the platform generator is trusted.")
def k02(C):
    a = C.fnA(CR, "generate_random")
    sz = params(a)[0]
    want = f"from_elem(0, {sz})"
    fs = fills(a, lambda b: b == want, "random-fill", "generate_random", C, True)
    C.must_pass(a, "random-fill", "generate_random: every success is preceded by the fill", fs, [r for r in a.rets("Ok")], "a success return is reachable without drawing randomness")
    C.returns_only(a, "random-result", "generate_random: returns the filled buffer, of the requested length", [f"Result::Ok{{0: {want}}}"], "Ok")
    untouched(C, a, "random-fill", "generate_random: not modified after the fill", fs)
    g = C.A(CR, "MnemonicGenerator", "generate")
    ok = re.compile(r"^from_elem\(0, (Div\((.*)entropy_bits\((.*)\), 8\)|Shr\(.*entropy_bits\(.*\), 3\)|\d+)\)$")
    fs = fills(g, lambda b: ok.match(b), "random-fill", "mnemonic generation", C, False)
    uses = [c for c in g.calls() if c.f["name"] == "from_entropy"]
    C.ob("random-fill", "mnemonic generation: phrase is built from entropy", bool(uses), str(uses), g.fn["span"])
    C.must_pass(g, "random-fill", "mnemonic generation: entropy drawn before the phrase is built", fs, uses, "a phrase is built from a buffer that was not filled")
    for u in uses:
        C.ob("random-result", "mnemonic generation: phrase built from the filled buffer", any(u.arg(0) == f.arg(1) for f in fs), f"{u.arg(0)} vs {[f.arg(1) for f in fs]}", u.where)
    untouched(C, g, "random-fill", "mnemonic generation: not modified after the fill", fs)
    # census
    n = 0
    for f, callee, t in call_sites(C.F, CR):
        if "test" in f["path"].split("::"):
            continue
        k, nm = callee.get("fn", ""), callee["name"]
        if re.search(r"\b(rand|rand_core|rand_chacha|fastrand|oorandom)\b", callee.get("krate", "")) or "Rng" in str(callee.get("trait", "")):
            n += 1
            weak = nm in ("seed_from_u64", "from_seed", "from_rng") or re.search(r"SmallRng|Pcg|XorShift|StepRng|mock", k + str(callee.get("ga")))
            C.ob("random-census", f"{f['path']} uses {nm}", not weak, f"{k} {callee.get('ga')}", t.get("sp") or f["span"])
    C.floor("generator call sites", n, 3)


def untouched(C, a, rule, inst, fills_):
    pids = {c.pid for c in fills_}
    roots = set()
    for e in a.effects():
        if e.pid in pids and e.op in ("try_fill_bytes", "fill_bytes", "try_fill", "fill", "getrandom") and e.idx == (1 if a.p.nodes[e.pid].n.f["name"] != "getrandom" else 0):
            roots.add(e.root)
    later = [e for e in a.effects() if e.pid not in pids and e.root in roots and any(e.pid in a.reach([y for _, y in a.p.nodes[p].succ]) for p in pids) and e.op not in ("deref_mut", "as_mut", "index_mut")]
    C.ob(rule, inst, not later, f"{later}" if later else "no later write", later[0].where if later else a.fn["span"])


# --- Merkle ---------------------------------------------------------------------
def splits(n):
    """spellings of the largest power of two below n (n > 2)"""
    return {f"next_power_of_two(div_ceil({n}, 2))", f"Div(next_power_of_two({n}), 2)", f"Shr(next_power_of_two({n}), 1)", f"next_power_of_two(Div(Add({n}, 1), 2))", f"next_power_of_two(Div(Add(1, {n}), 2))",
            f"next_power_of_two(Sub({n}, Div({n}, 2)))", f"next_power_of_two(Shr(Add(1, {n}), 1))", f"Shl(1, ilog2(Sub({n}, 1)))", f"pow(2, ilog2(Sub({n}, 1)))", f"next_power_of_two(Add(Div({n}, 2), Rem({n}, 2)))", f"next_power_of_two(Add(BitAnd(1, {n}), Shr({n}, 1)))", f"Shr(next_power_of_two({n}), 1)",
            f"next_power_of_two(Sub({n}, Shr({n}, 1)))"}


def doubled(a, pt, n):
    """PT starts at one and is doubled exactly while its double is below N"""
    m = re.match(r"^\{1 \| (Mul\(2, μ\)|Shl\(μ, 1\)|Add\(μ, μ\))\}$", pt)
    if not m:
        return False
    d = m.group(1).replace("μ", pt)
    if len([1 for _ in a.edges_matching(lambda s: s == f"{d} lt {n}" or s == f"{n} gt {d}")]) != 1:
        return False
    for i, l in a.edges_matching(lambda s: s == f"{d} lt {n}" or s == f"{n} gt {d}"):
        go = [y for ll, y in a.p.nodes[i].succ if ll == l]
        out = [y for ll, y in a.p.nodes[i].succ if ll != l]
        return i in a.reach(go) and i not in a.reach(out)


def check_empty_const(C):
    d = list(hashlib.sha256(b"").digest())
    n = 0
    for f in C.F.fns.values():
        if f["crate"] == CR and f["path"].endswith("EMPTY_SHA256") and "cbody" in f:
            a = C.fnA(CR, "sha256_concat")
            s = a.s(a.v.static_body(f["cbody"]))
            n += 1
            C.ob("merkle-empty", "the root of no leaves is the hash of the empty string", [int(x) for x in re.findall(r"\d+", s.split("{", 1)[-1].split(":", 1)[-1])] == d, s, f.get("span", ""))
    C.floor("definitions of the empty root", n, 1)


def two(a):
    """calls combining two hashes"""
    return [c for c in a.calls() if c.f["name"] == "<indirect>" or c.is_("::sha256_concat")]


def callee_of(a, c):
    return a.s(a.v.operand(c.f["ind"], c.pid)) if c.f["name"] == "<indirect>" else "fn:" + c.f["fn"]


def f0(s):
    return re.sub(r"first\(((?:[^()]|\([^()]*\))*)\)\.Some\.0", r"\1[0]", s)


def merkle_recursive(C, fn, inst, leaves, hfn, empty):
    """FN computes the tree root of its slice LEAVES by recursion"""
    a = C.an(fn, no_inline=tuple(k for k, f in C.F.fns.items() if f["path"].endswith("::sha256_concat")))
    L = f"len({leaves})"
    full = (0, 2**63)
    pairs = two(a)
    recs = [c for c in a.calls() if c.f.get("local") and c.f["name"] != "<indirect>" and not c.is_("::sha256_concat") and any(leaves in x for x in c.args)]
    keys = {c.f["key"] for c in recs}
    C.ob("merkle-shape", f"{inst}: subtrees are computed by one function", len(keys) == 1, f"{recs}", fn["span"])
    sp = splits(L)
    rv = {}
    for c in recs:
        s = [x for x in c.args if x.startswith("split_at(") or "RangeTo" in x or "RangeFrom" in x]
        m = re.match(r"^split_at\(%s, (.*)\)\.([01])$" % re.escape(leaves), s[0]) if s else None
        m2 = re.match(r"^%s\[(?:RangeTo\{end: (.*)\}|RangeFrom\{start: (.*)\}|Range\{start: (.*), end: (.*)\})\]$" % re.escape(leaves), s[0]) if s and not m else None
        side = pt = None
        if m:
            pt, side = m.group(1), int(m.group(2))
        elif m2:
            if m2.group(1):
                pt, side = m2.group(1), 0
            elif m2.group(2):
                pt, side = m2.group(2), 1
            elif m2.group(3) == "0":
                pt, side = m2.group(4), 0
            elif m2.group(4) == L:
                pt, side = m2.group(3), 1
        C.ob("merkle-split", f"{inst}: leaves are split at the largest power of two below their number", pt in sp or pt and doubled(a, pt, L), f"subtree over `{s}`", c.where)
        C.ob("merkle-split", f"{inst}: subtrees use the same hashing function", len(c.args) == 1 or any(x == hfn for x in c.args), str(c.args), c.where)
        rv[a.s(c.value)] = side
        d = domain(a, L, [c], full)
        C.ob("merkle-split", f"{inst}: splitting needs at least two leaves", d and d[0][0] >= 2, str(d), c.where)
    C.ob("merkle-split", f"{inst}: both halves", set(rv.values()) == {0, 1}, str(rv), fn["span"])
    okpair = 0
    for c in pairs:
        x, y = f0(c.arg(0)), f0(c.arg(1))
        C.ob("merkle-hash", f"{inst}: combines with the given hashing function", callee_of(a, c) == hfn, callee_of(a, c), c.where)
        if (x, y) == (f"{leaves}[0]", f"{leaves}[1]"):
            d = domain(a, L, [c], full)
            C.ob("merkle-order", f"{inst}: two leaves are combined only when there are two", d == [(2, 2)], str(d), c.where)
            okpair += 1
            continue
        good = rv.get(c.arg(0)) == 0 and rv.get(c.arg(1)) == 1
        C.ob("merkle-order", f"{inst}: left subtree before right subtree", good, f"combines ({x[:120]}, {y[:120]})", c.where)
        okpair += good
    C.floor(f"{inst}: combinations", okpair, 1)
    pv = {a.s(c.value) for c in pairs}
    rets = a.rets()
    for r in rets:
        for v in a.alternatives(r.value):
            s = f0(a.s(v))
            C.ob("merkle-result", f"{inst}: result", a.s(v) in pv or s == f"{leaves}[0]" or (empty and "EMPTY_SHA256" in s), f"returns `{s[:200]}`", a.where(r.pid))
    # which numbers of leaves avoid combining
    d = domain(a, L, rets, full, avoid=[c.pid for c in pairs])
    C.ob("merkle-result", f"{inst}: two or more leaves are always combined", all(hi <= 1 for _, hi in d), f"returns without combining for {d} leaves", fn["span"])
    if empty:
        C.ob("merkle-result", f"{inst}: every number of leaves has a root", d == [(0, 1)], f"{d}", fn["span"])
        st = [n.id for n in a.p.nodes if n.n.k == "asg" and "EMPTY_SHA256" in a.s(a.v.rvalue(n.n.v, n.id))]
        d0 = domain(a, L, rets, full, avoid=[c.pid for c in pairs] + st)
        C.ob("merkle-result", f"{inst}: no leaves give the empty root", d0 == [(1, 1)] and st, f"{d0}", fn["span"])
    return [C.F.fns[k] for k in keys if k in C.F.fns]


@prop("K03", [CR],
      "MIR structural induction: per-function decomposition (split point, argument order, base cases with interval domains of the leaf count), constant evaluation of the empty root",
      "The three ways to compute a Merkle root are each decomposed on all paths: which leaf counts reach which case (interval domains), the split point against the closed list of spellings of the largest power of two below n, left-before-right order of every hash combination, carry/slot pairing of the incremental tree, pairwise layering of the full tree, and the empty-root constant. Together these are the induction steps from which the agreement of the three follows for every number of leaves; the arithmetic identity between the three decompositions is argued in DESIGN.md.")
def k03(C):
    check_empty_const(C)
    # the hash of an inner node
    a = C.fnA(CR, "sha256_concat")
    x, y = params(a)
    B = Bytes(a)
    fin = [c for c in a.calls("Digest::result", "Digest::finalize", "::finalize", "::result", "::digest")]
    C.ob("merkle-node", "inner node: one digest", len(sites(a, fin)) == 1, str(fin), a.fn["span"])
    for c in fin:
        flat = B.language(c.val(0), c.pid)
        C.ob("merkle-node", "inner node: hash of left then right, nothing else", flat == {(f"{x}.0", f"{y}.0")} or flat == {(x, y)}, str(flat), c.where)
    # recursive root
    f = C.func(CR, "merkle_tree_root")
    leaves = params(f)[0]
    H = "fn:witnet_crypto::merkle::sha256_concat"
    for g in merkle_recursive(C, f, "root", leaves, H, True):
        if g["key"] == f["key"]:
            continue
        ps = params(g)
        lp = [p for p, l in zip(ps, g["locals"][1:]) if "[" in l["ty"]]
        hp = [p for p in ps if p not in lp]
        merkle_recursive(C, g, "subtree root", lp[0] if lp else "?", hp[0] if hp else H, False)
    incremental(C)
    layered(C)


def fld(C, ty, pred):
    for k, a in C.F.adts.items():
        if k.startswith(CR) and k.split("::")[-1] == ty:
            for x in a["variants"][0]["fields"]:
                if pred(x["ty"]):
                    return x["name"]
    raise Anchor(f"a field of {ty}")


def incremental(C):
    T = "ProgressiveMerkleTree"
    lv, hf, em = fld(C, T, lambda t: "Option<" in t), fld(C, T, lambda t: "fn(" in t), fld(C, T, lambda t: t.startswith("&"))
    a = C.A(CR, T, "push")
    new = params(a)[1]
    SL, HF = f"self.{lv}", f"self.{hf}"
    E = f"elem(rev({SL}))"
    I = "incremental push"
    ps = two(a)
    C.floor(f"{I}: combinations", len(ps), 1)
    C.ob("incr-walk", f"{I}: slots are visited from the newest level up", a.edges_matching(lambda s: s == f"next(rev({SL})) is Some"), f"expected a walk over rev({SL})", a.fn["span"])
    carry = set()
    for c in ps:
        C.ob("incr-order", f"{I}: older subtree is the left operand", c.arg(0) == f"{E}.Some.0", f"left operand `{c.arg(0)}`", c.where)
        C.ob("merkle-hash", f"{I}: combines with the tree's hashing function", callee_of(a, c) == HF, callee_of(a, c), c.where)
        C.requires(a, "incr-order", f"{I}: only an occupied slot is combined", c.pid, [f"{E} is Some"])
        carry.add(c.arg(1))
    okc = all(re.fullmatch(r"\{apply\(%s, %s\.Some\.0, μ\) \| %s\}" % (re.escape(HF), re.escape(E), re.escape(new)), x) for x in carry) and len(carry) == 1
    C.ob("incr-carry", f"{I}: the carry starts as the new leaf and becomes each combination", okc, str(carry), ps[0].where if ps else a.fn["span"])
    cv = next(iter(carry)) if carry else "?"
    eff = a.param_effects("self")
    want = {"store": [], "clear": [], "grow": [], "top": []}
    for e in eff:
        if e.op == "assign" and e.loc == E and e.args == [f"Option::Some{{0: {cv}}}"]:
            want["store"].append(e)
            C.requires(a, "incr-slot", f"{I}: the carry is stored in a free slot", e.pid, [f"{E} is None"])
        elif (e.op == "assign" and e.loc == E and e.args == ["Option::None{}"]) or (e.op == "take" and e.loc == E):
            want["clear"].append(e)
        elif e.op == "push" and e.loc == SL and e.args == ["Option::None{}"]:
            want["grow"].append(e)
        elif e.op == "assign" and e.loc == f"{SL}[0]" and e.args == [f"Option::Some{{0: {cv}}}"]:
            want["top"].append(e)
        elif e.op == "insert" and e.loc == SL and e.args == ["0", f"Option::Some{{0: {cv}}}"]:
            want["top"].append(e)
            want["grow"].append(e)
        elif e.op == "push" and e.loc == SL and e.args == [f"Option::Some{{0: {cv}}}"] and a.forced(e.pid, lambda s: s == f"is_empty({SL})"):
            want["top"].append(e)
            want["grow"].append(e)
        else:
            C.ob("incr-slot", f"{I}: no other change to the tree", False, str(e), e.where)
    C.ob("incr-slot", f"{I}: stores, clears, grows", all(want.values()), str({k: len(v) for k, v in want.items()}), a.fn["span"])
    occ = a.edges_matching(lambda s: s == f"{E} is Some")
    free = a.edges_matching(lambda s: s == f"{E} is None")
    C.loop_steps(a, "incr-slot", f"{I}: an occupied slot is combined", occ, ps, "an occupied slot is combined into the carry before moving on")
    # taken slots: each combination goes with a cleared slot
    for c in ps:
        p = a.paths_avoiding([c.pid], cut_nodes=[e.pid for e in want["clear"]])
        after = a.reach([y for _, y in a.p.nodes[c.pid].succ], avoid_node=lambda n: n.id in {e.pid for e in want["clear"]})
        ends = [n for n in after if a.p.nodes[n].n.k == "ret"]
        C.ob("incr-slot", f"{I}: a combined slot is emptied", p is None or not ends, "a slot can stay occupied after its subtree was merged upwards", c.where)
    C.loop_steps(a, "incr-slot", f"{I}: a free slot takes the carry", free, want["store"], "a free slot takes the carry")
    for (i, l) in free:
        ys = [y for ll, y in a.p.nodes[i].succ if ll == l]
        seen = a.reach(ys)
        C.ob("incr-stop", f"{I}: a stored carry ends the walk", not seen & ({c.pid for c in ps} | {e.pid for e in want["grow"] + want["top"]}), "after the carry was stored, the walk continues", a.where(i))
    done = a.edges_matching(lambda s: s == f"next(rev({SL})) is None")
    for k in ("grow", "top"):
        for (i, l) in done:
            ys = [y for ll, y in a.p.nodes[i].succ if ll == l]
            pids = {e.pid for e in want[k]}
            # unless the carry was stored, the tree grows
            seen = a.reach(ys, avoid_node=lambda n: n.id in pids)
            bad = [n for n in seen if a.p.nodes[n].n.k == "ret"]
            C.ob("incr-grow", f"{I}: a carry left over becomes the new top ({k})", not bad, "the leftover carry can be lost", a.where(i))
    if want["grow"] and want["top"] and any(e.op == "push" and e not in want["top"] for e in want["grow"]):
        C.never_after(a, "incr-grow", f"{I}: the new level is added below the top", want["top"], want["grow"], "grow precedes writing the top")
    r = C.A(CR, T, "root")
    E = f"elem(rev({SL}))"
    ps = two(r)
    acc = f"{{apply({HF}, {E}.Some.0, μ) | {E}.Some.0}}"
    C.floor("incremental root: combinations", len(ps), 1)
    for c in ps:
        C.ob("incr-root", "incremental root: older subtree is the left operand", c.arg(0) == f"{E}.Some.0" and c.arg(1) in (acc, f"{{apply({HF}, {E}.Some.0, μ) | {E}.Some.0 | undef}}"), f"{c.args}", c.where)
    C.returns_only(r, "incr-root", "incremental root: combination of all slots, or the empty root", [f"self.{em}", f"{E}.Some.0", re.compile(r"^apply\(%s, %s\.Some\.0, " % (re.escape(HF), re.escape(E)))])
    C.must_pass(r, "incr-root", "incremental root: all slots are visited", [y for (i, l) in r.edges_matching(lambda s: s == f"next(rev({SL})) is None") for ll, y in r.p.nodes[i].succ if ll == l], r.rets(), "a root is returned before all slots were visited")
    s = C.A(CR, T, "sha256")
    C.returns_only(s, "merkle-ctor", "incremental tree starts empty with the standard hash", [re.compile(r"^%s\{(?=.*\b%s: (Vec::new\(\)|vec\[\]))(?=.*\b%s: fn:witnet_crypto::merkle::sha256_concat)(?=.*\b%s: static .*EMPTY_SHA256)" % (T, lv, hf, em))])


def layered_carried(C, a, I, cur, lv, cp):
    """the current layer is a variable: stored before the one above takes its place, and the top one before the end"""
    store = [c for c in a.calls("Vec::push") if c.arg(1) == cur and c.pid not in cp]
    C.floor(f"{I}: stored layers", len(store), 1)
    base = {c.arg(0) for c in store}
    C.ob("layer-build", f"{I}: layers are appended in order", len(base) == 1 and re.match(r"Vec::(new|with_capacity)\(", next(iter(base))) and all(c.pid in {x.pid for x in store} | cp or c.arg(0) not in base for c in a.calls("Vec::push")), str(store), a.fn["span"])
    L = re.escape(f"len({cur})")
    more = a.edges_matching(lambda s: re.fullmatch(r"%s (gt 1|ge 2)|(1 lt|2 le) %s" % (L, L), s))
    one = a.edges_matching(lambda s: re.fullmatch(r"%s (le 1|lt 2|eq 1)|(1 ge|2 gt|1 eq) %s" % (L, L), s))
    C.loop_steps(a, "layer-build", f"{I}: a layer is stored before the one above is taken up", more, [c.pid for c in store], "each layer with one above it is stored")
    C.must_pass(a, "layer-build", f"{I}: the top layer is stored", [c.pid for c in store if not a.in_loop(c.pid)] + [y for i, l in a.edges_matching(lambda s: s in (f"is_empty({lv})", f"len({lv}) eq 0", f"0 eq len({lv})")) for ll, y in a.p.nodes[i].succ if ll == l], a.rets(), "the top layer can be missing")
    for c in store:
        again = a.reach([y for _, y in a.p.nodes[c.pid].succ], avoid_node=lambda n: n.id in {i for i, l in more | one})
        C.ob("layer-build", f"{I}: a layer is stored once", not again & {x.pid for x in store}, "stored twice", c.where)


def layered(C):
    T = "FullMerkleTree"
    nd, hf, em = fld(C, T, lambda t: "Vec<" in t), fld(C, T, lambda t: "fn(" in t), fld(C, T, lambda t: t.startswith("&"))
    a = C.A(CR, T, "new")
    p = params(a)
    lv, HF = p[0], p[1]
    LAST = f"last(vec[{lv}]).Some.0"
    # the layer may also be carried in a variable and stored once the one above it is built
    carried = sorted({m.group(1) for _, _, _, ss in a.edges() for s in ss for m in [re.fullmatch(r"next\(chunks\((\{(?:iter::collect_new\(\)|Vec::new\(\)|Vec::with_capacity\([^{}|]*\)) \| %s\}), 2\)\) is Some" % re.escape(lv), s)] if m})
    if len(carried) == 1:
        LAST = carried[0]
    CH = f"elem(chunks({LAST}, 2))"
    ps = two(a)
    C.floor("full tree: combinations", len(ps), 1)
    I = "full tree"
    for c in ps:
        C.ob("layer-order", f"{I}: neighbours are combined left to right", (c.arg(0), c.arg(1)) == (f"{CH}[0]", f"{CH}[1]"), f"combines {c.args}", c.where)
        C.ob("merkle-hash", f"{I}: combines with the given hashing function", callee_of(a, c) == HF, callee_of(a, c), c.where)
    app = f"apply({HF}, {CH}[0], {CH}[1])"
    cp = a.calls("iter::collect_push") + [c for c in a.calls("Vec::push") if CH in c.arg(1)]
    C.floor(f"{I}: layer elements", len(cp), 1)
    alone = []
    for c in cp:
        for v in a.alternatives(c.val(1)):
            s = a.s(v)
            C.ob("layer-elem", f"{I}: a layer holds combinations and a leftover", s in (app, f"{CH}[0]"), f"`{s}`", c.where)
        d = domain(a, f"len({CH})", [c], (1, 2), avoid=[x.pid for x in ps])
        C.ob("layer-elem", f"{I}: only a node without neighbour is passed up unchanged", all(hi <= 1 for _, hi in d), f"passed up unchanged for chunks of {d}", c.where)
    some = a.edges_matching(lambda s: s == f"next(chunks({LAST}, 2)) is Some")
    C.loop_steps(a, "layer-elem", f"{I}: every pair gives a parent", [(i, l) for i, l in some], cp + [n.id for n in a.p.nodes if n.n.k == "panic" or (n.n.k == "call" and not n.n.succ)], "each chunk of the previous layer contributes to the next one")
    if carried:
        layered_carried(C, a, I, LAST, lv, {c.pid for c in cp})
    push = [c for c in a.calls("Vec::push") if c.arg(0) == f"vec[{lv}]"]
    C.ob("layer-build", f"{I}: layers are appended in order", carried or push and all(c.arg(1).startswith("iter::collect_new") or "Vec::new" in c.arg(1) or "with_capacity" in c.arg(1) for c in push), str(push), a.fn["span"])
    rets = a.rets()
    d = domain(a, f"len({LAST})", [c.pid for c in push] or [i for i, l in some], (0, 2**63))
    C.ob("layer-build", f"{I}: a layer above is built exactly while more than one node is left", d == [(2, 2**63)], str(d), push[0].where if push else a.fn["span"])
    one = a.edges_matching(lambda s: re.fullmatch(r"(1 ge len\(%s\)|len\(%s\) le 1|2 gt len\(%s\)|len\(%s\) lt 2|len\(%s\) eq 1|1 eq len\(%s\))" % ((re.escape(LAST),) * 6), s))
    none = a.edges_matching(lambda s: s in (f"is_empty({lv})", f"len({lv}) eq 0", f"0 eq len({lv})", f"len({lv}) eqc 0", f"last(vec[{lv}]) is None"))
    C.must_pass(a, "layer-build", f"{I}: building stops at a single node", [y for (i, l) in one | none for ll, y in a.p.nodes[i].succ if ll == l], rets, "building can stop with more than one top node")
    C.returns_only(a, "layer-build", f"{I}: fields", [re.compile(r"^%s\{(?=.*\b%s: \{Vec::new\(\) \| vec\[%s\]\}|.*\b%s: vec\[%s\]%s)(?=.*\b%s: %s\b)(?=.*\b%s: %s\b)" % (T, nd, lv, nd, lv, r"|.*\b%s: (Vec::new\(\)|Vec::with_capacity\([^()]*\)|\{Vec::new\(\)( \| Vec::new\(\))*\})[,}]" % nd if carried else "", hf, HF, em, p[2]))])
    r = C.A(CR, T, "root")
    C.returns_only(r, "layer-root", "full tree root: the only node of the last layer, or the empty root", [f"last(self.{nd}).Some.0[0]", f"first(last(self.{nd}).Some.0).Some.0", f"self.{em}"])
    s = C.A(CR, T, "sha256", no_inline=())
    C.returns_only(s, "merkle-ctor", "full tree uses the standard hash", [re.compile(r"^%s\{(?=.*\b%s: fn:witnet_crypto::merkle::sha256_concat)(?=.*\b%s: static .*EMPTY_SHA256)" % (T, hf, em))])
    ls = params(s)[0]
    C.ob("merkle-ctor", "full tree is built over the given leaves", any(f"vec[{ls}]" in x for x in s.ret_values()) or carried and any(c.arg(1) == f"{{iter::collect_new() | {ls}}}" for c in s.calls("Vec::push")), str(list(s.ret_values())), s.fn["span"])


def collapse_shift(s, leaf):
    """fold the unrolled states of `i >>= 1` starting at LEAF into I"""
    prev = None
    while prev != s:
        prev = s
        s = re.sub(r"\{(?:(?:Shr\()*(?:μ|I|%s)(?:, 1\))*)(?: \| (?:Shr\()*(?:μ|I|%s)(?:, 1\))*)*\}" % ((re.escape(leaf),) * 2), "I", s)
        s = s.replace("Shr(I, 1)", "I")
        s = re.sub(r"\{([^{}|]*)(?: \| \1)+\}", r"\1", s)
    return re.sub(r"\b%s\b" % re.escape(leaf), "I", s)


class Position:
    """renders the position on the way up a tree as I: LEAF shifted right by the level, directly or step by step"""

    def __init__(self, a, leaf, level):
        self.a, self.leaf = a, leaf
        self.direct = f"Shr({leaf}, {level})"

    def __call__(self, s):
        return collapse_shift(s.replace(self.direct, "I"), self.leaf)

    def halved(self, C, rule, nxt, nexts, uses):
        """when the position is kept in a variable: halved exactly once per level, after its use"""
        a = self.a
        raw = lambda n: a.s(a.v.rvalue(n.n.v, n.id))
        halves = [n.id for n in a.p.nodes if n.n.k == "asg" and n.n.v and n.n.v[0] == "bin" and n.n.v[1].startswith(("Shr", "Div")) and raw(n) != self.direct and re.fullmatch(r"Shr\(.*, 1\)", raw(n)) and self(raw(n)) == "I"]
        use = {i for i, l, y, ss in a.edges() if uses(i, l, y, ss)}
        stepwise = {i for i in use for l, y in a.p.nodes[i].succ if any("μ" in s and self.direct not in s for s in a.atom_strs(i, l))}
        if not halves and not stepwise:
            C.ob(rule, "the position of each level is the leaf's, shifted by the level", use and any(self.direct in s or "checked_shr" in s for i in use for l, y in a.p.nodes[i].succ for s in a.atom_strs(i, l)), "the position of a level is not derived from the index", a.fn["span"])
            return
        C.loop_steps(a, rule, "the position is halved on every level", nxt, halves, "every level halves the position")
        for h in halves:
            again = a.reach([y for _, y in a.p.nodes[h].succ], avoid_node=lambda n: n.id in nexts)
            C.ob(rule, "the position is halved once per level, after its use", not (again & (set(halves) | use)), "halved twice, or before its use", a.where(h))
        first = a.reach([a.p.entry], avoid_node=lambda n: n.id in halves)
        C.ob(rule, "the first level uses the index itself", first & use, "the position is changed before the first level", a.fn["span"])


def len_calls(a, v, vec):
    """where the lengths of VEC that enter the value V (through arithmetic alone) were taken"""
    out, work, seen = set(), [v], set()
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        t = a.v.t(a.n.peel(v))
        if t[0] == "bin":
            work += list(t[2:4])
        elif t[0] == "phi":
            continue
        elif t[0] == "cast" or t[0] == "proj":
            work += [x for x in t[1:] if isinstance(x, int)]
        elif t[0] == "call" and t[1].split("::")[-1] == "len" and a.s(a.n.peel(v)) == f"len({vec})":
            out.add(a.v.callinfo[a.n.peel(v)][3])
        elif t[0] == "call":
            work += list(t[2])
    return out


@prop("K04", [CR],
      "MIR writer/reader agreement: bit and sibling extraction per layer against the bit test and operand order of the verifier; interval domain of the index; abort-site enumeration",
      "The proof builder is shown to visit every layer in order, look up the sibling of the current position, record exactly the position's lowest bit at the next free bit when a sibling exists, and halve the position on every layer; the verifier is shown to walk the siblings in order and put the sibling on the left exactly when the same bit is set, to return the value so computed and to compare it with the claimed root; out-of-range indices give no proof and no proof makes the verifier abort.")
def k04(C):
    T, P = "FullMerkleTree", "InclusionProof"
    nd = fld(C, T, lambda t: "Vec<" in t)
    thf = fld(C, T, lambda t: "fn(" in t)
    ix, lm, hf = fld(C, P, lambda t: t == "usize"), fld(C, P, lambda t: "Vec<" in t), fld(C, P, lambda t: "fn(" in t)
    a = C.A(CR, T, "inclusion_proof")
    idx = params(a)[1]
    NODES = f"self.{nd}"
    some = [r for r in a.rets("Some") if r.variant == "Some"]
    none = [r for r in a.rets("None") if r.variant == "None"]
    # bounds
    out = a.edges_matching(lambda s: s in (f"len({NODES}[0]) gt {idx}", f"{idx} lt len({NODES}[0])", f"get({NODES}[0], {idx}) is Some"))
    C.ob("proof-bounds", "a proof exists only for an index of a leaf", out and a.paths_avoiding([r.pid for r in some], cut_edges=out) is None, "a proof can be produced for an index past the last leaf", a.fn["span"])
    okn = a.edges_matching(lambda s: s in (f"len({NODES}[0]) le {idx}", f"{idx} ge len({NODES}[0])", f"is_empty({NODES})", f"get({NODES}[0], {idx}) is None", f"first({NODES}) is None", f"len({NODES}) eq 0", f"get({NODES}, 0) is None"))
    C.ob("proof-bounds", "every leaf has a proof", none and a.paths_avoiding([r.pid for r in none], cut_edges=okn) is None, "no proof although the index denotes a leaf", a.fn["span"])
    LAY = f"elem({NODES})"
    pos = Position(a, idx, f"idx({NODES})")
    nxt = a.edges_matching(lambda s: s in (f"next({NODES}) is Some", f"next(enumerate({NODES})) is Some"))
    C.ob("proof-layers", "layers are visited from the leaves up", bool(nxt), f"expected a walk over {NODES}", a.fn["span"])
    nexts = {c.pid for c in a.calls("Iterator::next")}
    par = lambda b: (lambda s: any(pos(s) == z for z in ((f"{b} ne BitAnd(1, I)", f"{1 - b} eq BitAnd(1, I)") + (f"BitAnd(1, I) eqc {1 - b}", f"BitAnd(1, I) ne ('{b}',)"))))
    uses = set()
    VECS = set()
    for b, what in ((1, "right-hand position"), (0, "left-hand position")):
        w = a.under(par(b))
        sibs = {"BitXor(1, I)"} | ({"Sub(I, 1)", "BitAnd(18446744073709551614, I)"} if b else {"Add(1, I)", "BitOr(1, I)"})
        look, have, odd = set(), set(), []
        for i, l, y, ss in w.edges():
            for s in ss:
                m = re.fullmatch(r"(.*) (lt|ge) len\(%s\)" % re.escape(LAY), s)
                if m:
                    if pos(m.group(1)) in sibs:
                        look.add(i)
                        if m.group(2) == "lt":
                            have.add((i, l))
                    elif "Add(1, " + m.group(1) + ")" != s and m.group(1) != idx:
                        odd.append(m.group(1)[:160])
        C.ob("proof-sibling", f"the sibling of the current position is looked up ({what})", look and not odd, f"no lookup of the sibling in its layer; found {odd}", w.fn["span"])
        wn = w.edges_matching(lambda s: s in (f"next({NODES}) is Some", f"next(enumerate({NODES})) is Some"))
        C.loop_steps(w, "proof-layers", f"every layer is consulted ({what})", wn, look, "each layer is consulted for a sibling")
        push = [c for c in w.calls("Vec::push")]
        C.floor(f"recorded siblings ({what})", len(push), 1)
        for c in push:
            C.ob("proof-record", f"the sibling found is recorded ({what})", all(pos(w.s(v)) in {f"{LAY}[{x}]" for x in sibs} for v in w.alternatives(c.val(1))), c.arg(1)[:200], c.where)
        C.loop_steps(w, "proof-record", f"every sibling found is recorded ({what})", have, push, "each sibling found is recorded")
        VECS |= {c.arg(0) for c in push}
        VEC = push[0].arg(0) if push else "?"
        wnx = {c.pid for c in w.calls("Iterator::next")}
        ors = [n.id for n in w.p.nodes if n.n.k == "asg" and n.n.v and n.n.v[0] == "bin" and n.n.v[1] in ("BitOr", "Add", "AddWithOverflow", "BitXor") and "Shl" in w.s(w.v.rvalue(n.n.v, n.id))]
        ors += [n.id for n in w.p.nodes if n.n.k == "call" and n.n.f["name"] in ("bitor_assign", "add_assign", "bitxor_assign") and "Shl" in w.s(w.v.arg(n.id, 1))]
        if b or ors:
            C.loop_steps(w, "proof-bit", f"every recorded sibling has its side bit ({what})", have, ors, "each recorded sibling sets its side bit")
        for o in ors:
            nn = w.p.nodes[o].n
            s = pos(w.s(w.v.rvalue(nn.v, o) if nn.k == "asg" else w.v.arg(o, 1)))
            good = re.search(r"Shl\(%s, len\(%s\)\)" % (r"(BitAnd\(1, I\)|1)" if b else r"(BitAnd\(1, I\)|0)", re.escape(VEC)), s)
            C.ob("proof-bit", f"the bit is the position's lowest, at the sibling's place ({what})", good, f"`{s[:220]}`", w.where(o))
            placed = len_calls(w, w.v.rvalue(nn.v, o) if nn.k == "asg" else w.v.arg(o, 1), VEC) or {o}
            before = [c for c in push if placed & w.reach([y for _, y in w.p.nodes[c.pid].succ], avoid_node=lambda n: n.id in wnx)]
            C.ob("proof-bit", "the bit is placed before its sibling is appended", not before, "the place of the bit is computed after appending", w.where(o))
        if b == 1:
            uses = look
    VEC = next(iter(VECS)) if len(VECS) == 1 else "?"
    pos.halved(C, "proof-layers", nxt, nexts, lambda i, l, y, ss: any(re.fullmatch(r".* (lt|ge) len\(%s\)" % re.escape(LAY), s) for s in ss) or any("BitAnd(1, I)" in pos(s) for s in ss))
    ors = [n.id for n in a.p.nodes if n.n.k == "asg" and n.n.v and n.n.v[0] == "bin" and n.n.v[1] in ("BitOr", "Add", "AddWithOverflow", "BitXor") and "Shl" in a.s(a.v.rvalue(n.n.v, n.id))]
    done = a.edges_matching(lambda s: s in (f"next({NODES}) is None", f"next(enumerate({NODES})) is None") or re.fullmatch(r"len\(%s\) (le|eq) 1" % re.escape(LAY), s) is not None)
    p = a.paths_avoiding([r.pid for r in some], cut_edges=done)
    C.ob("proof-layers", "a proof is given only after the last layer", bool(done) and p is None, "a proof is returned with layers left", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)
    for r in some:
        s = a.s(r.value)
        C.ob("proof-result", "the proof carries bits, siblings and hashing function", re.match(r"^Option::Some\{0: %s\{(?=.*\b%s: %s[,}])(?=.*\b%s: self\.%s\b)" % (P, lm, re.escape(VEC), hf, thf), s), s[:200], a.where(r.pid))
        alt = [re.sub(r"len\(.*?\)", "n", x) for x in [s]]
        t = a.v.t(a.n.peel(r.value))
        agg = a.v.t(a.n.peel(t[4][0])) if t[0] == "agg" and t[4] else None
        if agg and agg[0] == "agg":
            iv = dict(zip(agg[3], agg[4])).get(ix)
            oks = {a.s(a.v.rvalue(a.p.nodes[o].n.v, o)) for o in ors} | {"0"}
            C.ob("proof-result", "the proof's index is the collected bits", iv is not None and all(a.s(x) in oks or a.s(x).startswith(("BitOr(", "Add(", "BitXor(")) for x in a.alternatives(iv)), a.s(iv)[:200] if iv is not None else "?", a.where(r.pid))
    # verifier
    r = C.A(CR, P, "root")
    el = params(r)[1]
    E, X = f"elem(self.{lm})", f"idx(self.{lm})"
    ps = two(r)
    C.floor("verifier combinations", len(ps), 1)
    rp = Position(r, f"self.{ix}", X)

    def bit(s):
        s = re.sub(r"checked_shr\(([^()]*), ((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)\.Some\.0", r"Shr(\1, \2)", s)
        s = rp(re.sub(r"(?:try_from|try_into)\((idx\([^()]*\))\)\.(?:Ok|Some)\.0", r"\1", s).replace(f"({X} as u32)", X))
        return re.sub(r"\{0 \| (BitAnd\(1, I\))\}", r"\1", s)
    one = {"BitAnd(1, I) ne ('0',)", "1 eq BitAnd(1, I)", "0 ne BitAnd(1, I)", "BitAnd(1, I) eqc 1", "BitAnd(1, I)", f"0 ne BitAnd(Shl(1, {X}), self.{ix})", f"0 ne BitAnd(self.{ix}, Shl(1, {X}))", f"0 lt BitAnd(1, I)"}
    zero = {"1 ne BitAnd(1, I)", "0 eq BitAnd(1, I)", "BitAnd(1, I) eqc 0", "!BitAnd(1, I)", "BitAnd(1, I) ne ('1',)", f"0 eq BitAnd(Shl(1, {X}), self.{ix})", f"0 eq BitAnd(self.{ix}, Shl(1, {X}))"}
    past = lambda s: re.fullmatch(r"checked_shr\(self\.%s, .*\) is None|try_(from|into)\(%s\) is Err|64 le %s|%s gt 63" % (ix, re.escape(X), re.escape(X), re.escape(X)), s)
    acc = f"{{apply(self.{hf}, {E}, μ) | apply(self.{hf}, μ, {E}) | {el}}}"
    accs = (acc, f"{{apply(self.{hf}, {E}, μ) | {el}}}", f"{{apply(self.{hf}, μ, {E}) | {el}}}")
    C.ob("merkle-hash", "proof: combines with the proof's hashing function", all(callee_of(r, c) == f"self.{hf}" for c in ps), str([callee_of(r, c) for c in ps]))
    nx = {c.pid for c in r.calls("Iterator::next")} | {i for i, l in r.edges_matching(lambda s: s in (f"next(enumerate(self.{lm})) is Some", f"next(self.{lm}) is Some"))}
    for side, contra in (("left", lambda s: bit(s) in zero or past(s)), ("right", lambda s: bit(s) in one)):
        w = r.under(contra)
        ws = two(w)
        C.floor(f"combinations with the sibling on the {side}", len(ws), 1)
        C.returns_only(w, "proof-walk", "the value after the last sibling is the result", [el, re.compile(r"^apply\(self\.%s, (%s, .*|.*, %s)\)$" % (hf, re.escape(E), re.escape(E)))])
        for c in ws:
            x, y = (c.arg(0), c.arg(1)) if side == "left" else (c.arg(1), c.arg(0))
            C.ob("proof-side", f"a sibling {'with its bit set' if side == 'left' else 'whose bit is not set'} is put on the {side} of the value so far", x == E and y in accs, f"combines {c.args}; conditions {[s[0][:90] for _,_,_,s in w.edges()][:8]}", c.where)
    rp.halved(C, "proof-side", r.edges_matching(lambda s: s in (f"next(enumerate(self.{lm})) is Some", f"next(self.{lm}) is Some")), nx, lambda i, l, y, ss: any("BitAnd(1, I)" in bit(s) for s in ss))
    nxe = r.edges_matching(lambda s: s in (f"next(enumerate(self.{lm})) is Some", f"next(self.{lm}) is Some"))
    C.loop_steps(r, "proof-walk", "every sibling is combined", nxe, ps, "each sibling is combined")
    done = r.edges_matching(lambda s: re.match(r"^next\(.*self\.%s.*\) is None$" % re.escape(lm), s) is not None)
    early = next((q for (i, l) in nxe for ll, y in r.p.nodes[i].succ if ll == l for q in [r.paths_avoiding({x.pid for x in r.rets()}, cut_edges=done, start=y)] if q), None)
    C.ob("proof-walk", "every sibling is taken", early is None, "the walk can end before the last sibling", r.where(early[-1]) if early else r.fn["span"], r.describe(early) if early else None)
    for c in ps:
        again = r.reach([y for _, y in r.p.nodes[c.pid].succ], avoid_node=lambda n: n.id in nx)
        C.ob("proof-walk", "every sibling is combined once", not again & {x.pid for x in ps}, "combined twice", c.where)
    C.no_abort(r, "proof-total", "verification ends for every proof", [])
    v = C.A(CR, P, "verify")
    e2, rt = params(v)[1:3]
    vs = list(v.ret_values())
    core = r"(apply\(self\..*|\{apply\(self\.%s, .*\| %s\})" % (hf, re.escape(e2))
    C.returns_only(v, "proof-verify", "accepts exactly when the recomputed root equals the claimed one", [re.compile(r"^(PartialEq::)?eq\(\{apply\(self\.%s, .*%s\}, %s\)$" % (hf, re.escape(e2), re.escape(rt))), re.compile(r"^(PartialEq::)?eq\(%s, \{apply\(self\.%s, .*\}\)$" % (re.escape(rt), hf))])
    for name, want in (("lemma", f"self.{lm}"), ("proof_index", f"self.{ix}")):
        g = C.A(CR, P, name)
        C.returns_only(g, "proof-access", f"accessor {name}", [want])
    n = C.A(CR, P, "new")
    p = params(n)
    for s in n.ret_values():
        C.ob("proof-access", "a proof keeps what it is built from", all(re.search(r"\b%s: %s\b" % (f, q), s) for f, q in zip((ix, lm, hf), p)), s, n.fn["span"])
    s = C.A(CR, P, "sha256")
    p = params(s)
    C.returns_only(s, "merkle-ctor", "proof with the standard hash", [re.compile(r"^%s\{(?=.*\b%s: %s\b)(?=.*\b%s: %s\b)(?=.*\b%s: fn:witnet_crypto::merkle::sha256_concat)" % (P, ix, p[0], lm, p[1], hf))])


@prop("K05", [CR],
      "MIR argument and return provenance of signing and verification, error-flow analysis",
      "Signing and verification are analysed on all paths: both reduce the caller's bytes to a message the same way, the signature is the primitive's result for the caller's key and that message, verification returns exactly the primitive's verdict for the given signature, message and key, and a failed reduction can only produce an error. The ECDSA primitive is trusted.")
def k05(C):
    a = C.fnA(CR, "sign")
    sk, data = params(a)
    b = C.fnA(CR, "verify", "signature") if C.F.func(CR, "verify", "signature") else C.fnA(CR, "verify")
    pk, vdata, sig = params(b)
    msgs = {}
    for nm, x, d in (("sign", a, data), ("verify", b, vdata)):
        ms = [c for c in x.calls() if c.name.startswith("Message::")]
        C.ob("message", f"{nm}: one message, from exactly the caller's bytes", len(sites(x, ms)) == 1 and all(c.args == [d] for c in ms), str(ms), x.fn["span"])
        msgs[nm] = {c.name for c in ms}
        for c in ms:
            if c.name == "Message::from_digest_slice":
                C.propagates(x, "message", f"{nm}: malformed digests are refused", c)
        C.no_abort(x, "sig-total", nm)
    C.ob("message", "signing and verification reduce the bytes the same way", msgs["sign"] == msgs["verify"], str(msgs))
    mk = f"Message::from_digest_slice({data}).Ok.0"
    C.returns_only(a, "sign", "the primitive's signature for this key and message", [re.compile(r"^Result::Ok\{0: (SecretKey::sign_ecdsa\(%s, %s\)|Secp256k1::sign_ecdsa\([^,]*, %s, %s\))\}$" % (re.escape(sk), re.escape(mk), re.escape(mk), re.escape(sk)))], "Ok")
    mk = f"Message::from_digest_slice({vdata}).Ok.0"
    base = f"Signature::verify({sig}, {mk}, {pk})"
    prim = [c for c in b.calls("Signature::verify", "Secp256k1::verify_ecdsa")]
    C.ob("verify", "one verdict, for this signature, message and key", len(sites(b, prim)) == 1 and all(c.args == [sig, mk, pk] or c.args[1:] == [mk, sig, pk] for c in prim), str(prim), b.fn["span"])
    val = {b.s(c.value) for c in prim}
    for r in b.rets():
        s = r.s
        if r.variant == "Err":
            continue
        for v in b.alternatives(r.value):
            s = b.s(v)
            if s in val:
                continue
            if s.startswith("Result::Err"):
                continue
            ok = False
            if s == "Result::Ok{0: ()}":
                e = b.edges_matching(lambda z: any(z == f"{x} is Ok" for x in val))
                ok = b.paths_avoiding([r.pid], cut_edges=e) is None
            C.ob("verify", "accepted only on the primitive's verdict", ok, f"returns `{s}`", b.where(r.pid))
    for c in prim:
        C.propagates(b, "verify", "a rejected signature is an error", c)
        C.must_pass(b, "verify", "no acceptance without the verdict", prim, [r for r in b.rets() if r.variant != "Err"], "acceptance is reachable without checking the signature")


def ext_sk(s):
    return s


HM = re.compile(r"^Mac::new_varkey\((.*)\)\.Ok\.0$")


def hmac_split(C, a, rule, inst, key, lang_want):
    """checks the single MAC in A: its key, its exact input, and returns the rendering of the two halves"""
    news = [c for c in a.calls() if c.f["name"].startswith("new") and ("Mac" in c.name or "Hmac" in str(c.f.get("ga")))]
    C.ob(rule, f"{inst}: one MAC, keyed by {key}", len(sites(a, news)) == 1 and all(c.arg(0) == key for c in news), str(news), a.fn["span"])
    for c in news:
        C.ob(rule, f"{inst}: MAC is HMAC-SHA512", "Sha512" in str(c.f.get("ga")) + str(c.f.get("fn")), str(c.f.get("ga")), c.where)
    fin = [c for c in a.calls("Mac::result", "Mac::finalize", "Mac::result_reset")]
    C.ob(rule, f"{inst}: one MAC result", len(sites(a, fin)) == 1, str(fin), a.fn["span"])
    for c in fin:
        L = Bytes(a).language(c.val(0), c.pid)
        C.ob(rule, f"{inst}: exact MAC input", L == lang_want, f"MAC input {sorted(L)}, expected {sorted(lang_want)}", c.where)
    if not fin:
        return None
    code = f"MacResult::code({a.s(fin[0].value)})"
    alts = {("L", f"split_at({code}, 32).0"), ("R", f"split_at({code}, 32).1"), ("L", f"{code}[RangeTo{{end: 32}}]"), ("R", f"{code}[RangeFrom{{start: 32}}]"), ("L", f"{code}[Range{{start: 0, end: 32}}]"), ("R", f"{code}[Range{{start: 32, end: 64}}]")}
    return {s: k for k, s in alts}


def canon_halves(s, H):
    for k in sorted(H, key=len, reverse=True):
        s = s.replace(k, "IL" if H[k] == "L" else "IR")
    return s


@prop("K06", [CR],
      "MIR byte-stream language of the MAC input on every path, split provenance, error-flow; loop analysis of path derivation",
      "For every path through single-step derivation the exact sequence of components fed to the MAC is computed (with the branch condition that selects it), the MAC key, the halves of its output and the final scalar addition are traced to the returned key and chain code, and each failing primitive is shown to end in an error; multi-step derivation is shown to apply one step per path element in order, starting from the key itself. HMAC and curve arithmetic are trusted.")
def k06(C):
    a = C.A(CR, "ExtendedSK", "child")
    ix = params(a)[1]
    sk, cc = "self.secret_key", "self.chain_code.0"
    if not any("self.secret_key" in c.arg(i) for c in a.calls() for i in range(c.nargs)):
        raise Anchor("the secret key field of the extended key")
    hard = (("[0]", sk, f"to_be_bytes({ix}.0)"))
    soft = ((f"PublicKey::serialize(PublicKey::from_secret_key_global({sk}))", f"to_be_bytes({ix}.0)"))
    H = hmac_split(C, a, "derive-mac", "derivation step", cc, {hard, soft})
    isH = lambda s: s in (f"2147483648 eq BitAnd(2147483648, {ix}.0)", f"0 ne BitAnd(2147483648, {ix}.0)", f"2147483648 le {ix}.0", f"{ix}.0 gt 2147483647", f"2147483647 lt {ix}.0")
    isS = lambda s: s in (f"2147483648 ne BitAnd(2147483648, {ix}.0)", f"0 eq BitAnd(2147483648, {ix}.0)", f"2147483648 gt {ix}.0", f"{ix}.0 le 2147483647", f"2147483647 ge {ix}.0")
    he, se = a.edges_matching(isH), a.edges_matching(isS)
    C.ob("derive-kind", "the form of the step is decided by the index's hardened bit", he and se, f"conditions {[s[0][:80] for _,_,_,s in a.edges()][:6]}", a.fn["span"])
    for what, contra, want in (("hardened steps use the secret key", isS, {hard}), ("normal steps use the public key", isH, {soft})):
        w = a.under(contra)
        fin = [c for c in w.calls("Mac::result", "Mac::finalize", "Mac::result_reset")]
        Ls = [Bytes(w).language(c.val(0), c.pid) for c in fin]
        C.ob("derive-kind", what, fin and all(L == want for L in Ls), f"MAC input {[sorted(L) for L in Ls]}", a.fn["span"])
    if H:
        for s, r in a.ret_values("Ok").items():
            t = canon_halves(s, H)
            good = re.match(r"^Result::Ok\{0: ExtendedSK\{secret_key: SecretKey::add_tweak\(SecretKey::from_slice\(IL\)\.Ok\.0, Scalar::from_be_bytes\(self\.secret_key\)\.Ok\.0\)\.Ok\.0, chain_code: Protected\{0: IR\}\}\}$", t) \
                or re.match(r"^Result::Ok\{0: ExtendedSK\{secret_key: SecretKey::add_tweak\(self\.secret_key, (Scalar::from_be_bytes|SecretKey::from_slice)\(IL\)\.Ok\.0\)\.Ok\.0, chain_code: Protected\{0: IR\}\}\}$", t)
            C.ob("derive-result", "child key = parent + left half, chain code = right half", good, t[:400], a.where(r.pid))
    for c in a.calls("SecretKey::from_slice", "Scalar::from_be_bytes", "SecretKey::add_tweak", "Mac::new_varkey"):
        C.propagates(a, "derive-error", f"derivation step: {c.name}", c)
    C.no_abort(a, "derive-total", "derivation step", [r"call:slice::split_at", r"index:Index::index MacResult::code\(.*\)\[(RangeTo\{end: 32\}|RangeFrom\{start: 32\}|Range\{start: 0, end: 32\}|Range\{start: 32, end: 64\})\]$"])
    # whole path
    kid = C.method(CR, "ExtendedSK", "child")
    d = C.A(CR, "ExtendedSK", "derive", no_inline=(kid["key"],))
    p = params(d)[1]
    steps = [c for c in d.calls("ExtendedSK::child")]
    pf = "path"
    for k, x in C.F.adts.items():
        if k.startswith(CR) and k.split("::")[-1] == "KeyPath":
            pf = x["variants"][0]["fields"][0]["name"]
    E = f"elem({p}.{pf})"
    for c in steps:
        C.ob("derive-path", "each step starts from the previous key", all(d.s(v) in ("self",) or d.s(v).startswith("ExtendedSK::child(") and d.s(v).endswith(".Ok.0") for v in d.alternatives(c.val(0))), c.arg(0), c.where)
        C.ob("derive-path", "each step uses its own path element", c.arg(1) == E, c.arg(1), c.where)
        C.propagates(d, "derive-error", "a failed step fails the derivation", c)
    C.ob("derive-path", "one step per path element", len(sites(d, steps)) == 1, str(steps), d.fn["span"])
    C.loop_steps(d, "derive-path", "every path element is applied in order", d.edges_matching(lambda s: s == f"next({p}.{pf}) is Some"), steps, "each path element derives one step")
    C.returns_only(d, "derive-path", "the last key derived is returned", [re.compile(r"^Result::Ok\{0: (\{ExtendedSK::child\(.*\)\.Ok\.0 \| self\}|self|ExtendedSK::child\(.*\)\.Ok\.0)\}$")], "Ok")
    done = d.edges_matching(lambda s: s == f"next({p}.{pf}) is None")
    C.must_pass(d, "derive-path", "no element of the path is left out", [y for i, l in done for ll, y in d.p.nodes[i].succ if ll == l], [r for r in d.rets("Ok") if r.variant == "Ok"], "success before the end of the path")
    e = C.A(CR, "ExtendedPK", "from_secret_key")
    k = params(e)[0]
    C.returns_only(e, "derive-public", "extended public key belongs to the secret key", [f"ExtendedPK{{key: PublicKey::from_secret_key_global({k}.secret_key), chain_code: {k}.chain_code}}"])


@prop("K09", [CR],
      "MIR interval domain of the seed length, byte-stream language and key of the MAC, split provenance, error-flow",
      "Master key generation is analysed on all paths: the exact set of seed lengths that reach key generation is computed (16 to 64 bytes), any other length returns the seed-length error, the MAC is keyed with the configured key (standard key by default) over exactly the seed, and the two halves of its output become secret key and chain code. A MAC half outside the curve order aborts (probability 2^-127); that expect is accepted.")
def k09(C):
    a = C.A(CR, "MasterKeyGen", "generate")
    flds = {}
    for k, x in C.F.adts.items():
        if k.startswith(CR) and k.split("::")[-1] == "MasterKeyGen":
            for f in x["variants"][0]["fields"]:
                flds["key" if "[u8]" in f["ty"] else "seed"] = f["name"]
    S, K = f"self.{flds['seed']}", f"self.{flds['key']}"
    H = hmac_split(C, a, "master-mac", "master key", K, {(S,)})
    d = domain(a, f"len({S})", [r.pid for r in a.rets("Ok") if r.variant == "Ok"], (0, 2**63))
    C.ob("master-seed", "seeds of 16 to 64 bytes are accepted and no others", d == [(16, 64)], f"accepted lengths {d}", a.fn["span"])
    bad = [r for r in a.rets("Err") if "InvalidSeedLength" in r.s]
    d = domain(a, f"len({S})", bad, (0, 2**63))
    C.ob("master-seed", "every other length is refused as a bad seed length", d == [(0, 15), (65, 2**63)], f"refused lengths {d}", a.fn["span"])
    if H:
        for s, r in a.ret_values("Ok").items():
            t = canon_halves(s, H)
            C.ob("master-result", "left half is the secret key, right half the chain code", t == "Result::Ok{0: ExtendedSK{secret_key: SecretKey::from_slice(IL).Ok.0, chain_code: Protected{0: IR}}}", t[:300], a.where(r.pid))
    for c in a.calls("Mac::new_varkey"):
        C.propagates(a, "master-error", "bad MAC key", c)
    n = C.A(CR, "MasterKeyGen", "new")
    p = params(n)[0]
    C.returns_only(n, "master-key", "default MAC key is the standard one", [re.compile(r"^MasterKeyGen\{(?=.*\b%s: %s\b)(?=.*\b%s: b[\"']Bitcoin seed[\"'])" % (flds["seed"], p, flds["key"]))])
    w = C.A(CR, "MasterKeyGen", "with_key")
    kp = params(w)[1]
    eff = [e for e in w.effects() if e.op == "assign"]
    asg = []
    for pn in w.p.nodes:
        if pn.n.k == "asg" and pn.n.d and any(x == ("f", flds["key"]) or flds["key"] in str(x) for x in pn.n.d[2]):
            asg.append(w.s(w.v.rvalue(pn.n.v, pn.id)))
    vs = list(w.ret_values())
    C.ob("master-key", "a custom MAC key replaces the default", kp in asg or any(re.search(r"\b%s: %s\b" % (flds["key"], kp), s) for s in vs), f"{asg} {vs}", w.fn["span"])


@prop("K07", [CR],
      "MIR byte-stream language of the encoder against the ordered read operations of the decoder; linear-form check of the buffer size",
      "The exact sequence of components written by the key encoder on every successful path is computed and compared position by position with the sequence of reads of the decoder (operation, width, byte order, destination) and with where each destination ends up in the decoded key and path; the encoder's buffer size and the decoder's expected length are compared as linear forms. Bech32 itself is trusted to be invertible.")
def k07(C):
    a = C.A(CR, "ExtendedSK", "to_slip32")
    p = params(a)[1]
    pf = next((x["variants"][0]["fields"][0]["name"] for k, x in C.F.adts.items() if k.startswith(CR) and k.split("::")[-1] == "KeyPath"), "path")
    D = f"try_from(len({p}.{pf})).Ok.0"
    # the same byte written as a plain cast, where a length that does not fit was refused before
    D_ = f"(len({p}.{pf}) as u8)"
    long = fact_edges(a, fact("ge", {f"len({p}.{pf})": 1}, -256))
    short_ = fact_edges(a, fact("ge", {f"len({p}.{pf})": -1}, 255))
    b32 = [c for c in a.calls("ToBase32::to_base32")]
    C.ob("slip-encode", "one payload is encoded", len(sites(a, b32)) == 1, str(b32), a.fn["span"])
    for c in b32:
        L = Bytes(a).language(c.val(0), c.pid)
        if short_ and a.paths_avoiding([c.pid], cut_edges=short_) is None:
            L = {tuple(x.replace(D_, D) for x in q) for q in L}
        want = {(f"[{D}]", f"to_be_bytes(elem({p}.{pf}).0)*", "self.chain_code.0", "[0]", "self.secret_key")}
        C.ob("slip-encode", "payload is depth, path, chain code, zero, secret key", L == want, f"{sorted(L)}", c.where)
        loop = a.edges_matching(lambda s: s == f"next({p}.{pf}) is Some")
        ws = [x for x in a.calls("Write::write_all", "WriteBytesExt::write_u32", "Vec::extend_from_slice", "Extend::extend") if f"elem({p}.{pf})" in x.arg(1)]
        C.loop_steps(a, "slip-encode", "every path element is written", loop, ws, "each path element is written")
        to_the_end(C, a, "slip-encode", "writing goes on to the last path element", f"{p}.{pf}", a.rets("Ok"))
        # size of the buffer written into
        for b in Bytes(a).bases(c.val(0)):
            t = a.v.t(b)
            if t[0] == "call" and t[1].endswith("from_elem"):
                l = lin_of(a, t[2][1])
                C.ob("slip-encode", "buffer is exactly as long as the payload", l in ({1: 66, D: 4}, {1: 66, f"len({p}.{pf})": 4}) or l == {1: 66, D_: 4} and bool(short_) and a.paths_avoiding([c.pid], cut_edges=short_) is None, f"capacity {l}", c.where)
                C.ob("slip-encode", "buffer is overwritten from its start", all(x.f["name"] in ("write_all", "write_u8", "write_u32", "copy_from_slice") for x in Bytes(a).appends(b)), "payload appended after zeros", c.where)
    for c in a.calls("Write::write_all", "WriteBytesExt::write_u8", "WriteBytesExt::write_u32", "bech32::encode", "::encode"):
        C.propagates(a, "slip-encode-error", f"encoder: {c.name} of {c.arg(1)[:60]}", c)
    enc = [c for c in a.calls("bech32::encode", "::encode")]
    hrp = {c.arg(0) for c in enc}
    C.ob("slip-hrp", "encoder prefix", hrp == {"'xprv'"} and all(any(x.arg(0) in c.arg(1) for x in b32) for c in enc), str(enc), enc[0].where if enc else a.fn["span"])
    C.returns_only(a, "slip-encode", "the encoded text is returned", [f"Result::Ok{{0: {a.s(c.value)}.Ok.0}}" for c in enc], "Ok")
    C.no_abort(a, "slip-encode-total", "encoding never aborts")
    d = [r for r in a.rets("Err") if "Serialization" in r.s]
    C.ob("slip-depth", "paths longer than the depth byte can say are refused", a.edges_matching(lambda s: s == f"try_from(len({p}.{pf})) is Err") or long and all(a.paths_avoiding([c.pid], cut_edges=short_) is None for c in b32), "depth is converted with a check", a.fn["span"])
    prim = {a.s(c.value) for c in a.calls("Write::write_all", "Write::write", "WriteBytesExt::write_u8", "WriteBytesExt::write_u32", "bech32::encode", "::encode")} | {f"try_from(len({p}.{pf}))"}
    fail = a.edges_matching(lambda m: m.endswith(" is Err") and any(m.startswith(x) for x in prim)) | long
    for r in a.rets("Err"):
        C.ob("slip-depth", "only paths too long for the depth byte are refused", a.paths_avoiding([r.pid], cut_edges=fail) is None, r.s[:200], a.where(r.pid), path=a.paths_avoiding([r.pid], cut_edges=fail))
    # decoder
    b = C.A(CR, "ExtendedSK", "from_slip32", no_inline=tuple(k for k, f in C.F.fns.items() if f["name"] == "from" and re.match(r"^<(?:\w+::)*KeyPath as (?:\w+::)*From<", f["path"])))
    R = Reads_(b)
    oks = [r for r in b.rets("Ok") if r.variant == "Ok"]
    rs = [c for c, _ in R.all_appends()]
    if not rs:
        raise Anchor("reads of the decoder")
    base = next(iter(R.bases(rs[0].val(0))))
    for r in oks:
        for seq in R.order(base, r.pid):
            ops = [(x[0], x[1]) for x in seq]
            want = [("read_u8", ""), ("read_u32_into", "be"), ("read_exact", ""), ("read_u8", ""), ("read_exact", "")]
            single = ops[1:2] == [("read_u32", "be")]
            if single:
                want[1] = ops[1]
            ok = C.ob("slip-decode", "reads depth, path, chain code, one byte, secret key in this order", ops == want, f"{ops}", b.where(r.pid))
            if not ok:
                continue
            depth, pathr, ccr, pre, skr = [next(c for c in rs if c.pid == x[3]) for x in seq]
            dv = f"{b.s(depth.value)}.Ok.0"
            B = Bytes(b)
            cb, sb = (B.bases(x.val(1)) for x in (ccr, skr))
            if single:
                # one element per step of a loop of DEPTH steps, each appended to the path
                steps = b.edges_matching(lambda s: s in (f"next(Range{{start: 0, end: {dv}}}) is Some", f"next(Range{{start: 0, end: ({dv} as usize)}}) is Some"))
                app = [c for c in b.calls() if c.f["name"] in ("push", "collect_push") and c.arg(1) == f"{b.s(pathr.value)}.Ok.0"]
                pb = set().union(*[B.bases(c.val(0)) for c in app]) if app else set()
                C.ob("slip-decode", "path is read whole", bool(steps) and bool(app), f"{len(steps)} loops over the depth, {len(app)} appended elements", pathr.where)
                C.loop_steps(b, "slip-decode", "every path element is read", steps, [pathr], "each step reads an element")
                C.loop_steps(b, "slip-decode", "every path element is kept", b.edges_matching(lambda s: s == f"{b.s(pathr.value)} is Ok"), app, "each element read is appended")
                C.ob("slip-decode", "path is read whole", not any(other.pid not in {x.pid for x in app} and B.bases(other.val(0)) & pb for other in b.calls() if other.f["name"] in ("push", "collect_push", "extend", "insert", "extend_from_slice") and other.nargs), "something else is put into the path", pathr.where)
            else:
                pb = B.bases(pathr.val(1))
            for nm, c, want_len in ((() if single else (("path", pathr, {dv: 1}),)) + (("chain code", ccr, {1: 32}), ("secret key", skr, {1: 32}))):
                for x in B.bases(c.val(1)):
                    t = b.v.t(x)
                    C.ob("slip-decode", f"{nm} is read whole", t[0] == "call" and t[1].endswith("from_elem") and lin_of(b, t[2][1]) == want_len, b.s(x)[:200], c.where)
            v = b.v.t(b.n.peel(r.value))
            tup = b.v.t(b.n.peel(v[4][0]))
            key = b.v.t(b.n.peel(tup[4][0])) if tup[0] == "agg" else None
            okk = key and key[0] == "agg" and key[1].split("::")[-1] == "ExtendedSK"
            if C.ob("slip-decode", "returns an extended key and a path", okk, b.s(r.value)[:200], b.where(r.pid)):
                fl = dict(zip(key[3], key[4]))
                cc = b.v.t(b.n.peel(fl["chain_code"]))
                ccv = cc[4][0] if cc[0] == "agg" else fl["chain_code"]
                C.ob("slip-decode", "chain code comes from its bytes", B.bases(ccv) == cb and cb != sb, b.s(fl["chain_code"]), b.where(r.pid))
                fs = [c for c in b.calls("SecretKey::from_slice")]
                C.ob("slip-decode", "secret key comes from its bytes", len(sites(b, fs)) == 1 and all(B.bases(c.val(0)) == sb for c in fs) and b.s(fl["secret_key"]) in {b.s(c.value) + ".Ok.0" for c in fs}, b.s(fl["secret_key"]), b.where(r.pid))
                C.ob("slip-decode", "path comes from its bytes", B.bases(tup[4][1]) == pb, b.s(tup[4][1])[:200], b.where(r.pid))
    # nothing that the encoder writes is refused
    good = slip_checks(b)
    for kind, what in (("hrp", "prefix"), ("len", "length"), ("pad", "padding byte")):
        C.ob("slip-accept", f"the decoder's {what} check is the format's", good[kind], f"no {what} check found", b.fn["span"])
    bad = {(i, l) for es in good.values() for i, g in es for l, _ in b.p.nodes[i].succ if (i, l) not in es}
    prim = {b.s(c.value) for c in b.calls("bech32::decode", "::decode", "FromBase32::from_base32", "ReadBytesExt::read_u8", "ReadBytesExt::read_u32_into", "ReadBytesExt::read_u32", "Read::read_exact", "SecretKey::from_slice")}
    fail = b.edges_matching(lambda m: m.endswith(" is Err") and any(m.startswith(x) for x in prim))
    for r in b.rets("Err"):
        C.ob("slip-accept", "a text is refused only for a wrong prefix, length or padding or a failed primitive", b.paths_avoiding([r.pid], cut_edges=bad | fail) is None, r.s[:200], b.where(r.pid), path=b.paths_avoiding([r.pid], cut_edges=bad | fail))
    dec = [c for c in b.calls("bech32::decode", "::decode")]
    C.ob("slip-hrp", "decoder reads the given text", len(sites(b, dec)) == 1 and all(c.arg(0) == params(b)[0] for c in dec), str(dec), b.fn["span"])
    f = C.A(CR, "KeyPath", "from", "From")
    fp = params(f)[0]
    cp = [c for c in f.calls("iter::collect_push", "Vec::push")]
    C.ob("slip-path", "path elements are kept in order", cp and all(c.arg(1) == f"KeyPathIndex{{0: elem({fp})}}" for c in cp), str(cp), f.fn["span"])
    C.loop_steps(f, "slip-path", "every path element is kept", f.edges_matching(lambda s: s == f"next({fp}) is Some"), cp, "each element is kept")


def lin_of(a, v):
    from wf.extra import lin
    return lin(a, v)


def Reads_(a):
    from wf.extra import Reads
    return Reads(a)


def slip_checks(b):
    """edges of the key decoder taken exactly when the prefix, the payload length or the padding byte is as the format says"""
    out = {"hrp": set(), "len": set(), "pad": set()}
    dec = [c for c in b.calls("bech32::decode", "::decode")]
    hrps = {f"{b.s(c.value)}.Ok.0.0" for c in dec}
    rs = [c for c, _ in Reads_(b).all_appends()]
    ru8 = [c for c in rs if c.f["name"] == "read_u8"]
    pre = [c for c in ru8 if any(c.pid in b.reach([y for _, y in b.p.nodes[x.pid].succ]) for x in ru8 if x is not c)]
    for i, l, y, ss in b.edges():
        at = b.fl.atom(i, l)
        if any(m in (f"!{f}({x}, {z})", f"!PartialEq::{f}({x}, {z})") for h in hrps for x, z in ((h, "'xprv'"), ("'xprv'", h)) for f in ("ne",) for m in ss) or \
           any(m in (f"eq({x}, {z})", f"PartialEq::eq({x}, {z})", f"{x} eq {z}") for h in hrps for x, z in ((h, "'xprv'"), ("'xprv'", h)) for m in ss):
            out["hrp"].add((i, l))
        if at[0] == "cmp" and at[1] == "eq":
            x, z = lin_of(b, at[2]), lin_of(b, at[3])
            diff = dict(x)
            for k, c in z.items():
                diff[k] = diff.get(k, 0) - c
            diff = {k: c for k, c in diff.items() if c}
            n = [k for k in diff if isinstance(k, str) and k.startswith("len(") and "from_base32" in k]
            dd = [k for k in diff if isinstance(k, str) and k.startswith("ReadBytesExt::read_u8") and k.endswith(".Ok.0")]
            if len(n) == 1 and len(dd) == 1 and len(diff) == 3:
                sg = -diff[n[0]]
                if (diff.get(1), diff[dd[0]]) == (66 * sg, 4 * sg) and abs(sg) == 1:
                    out["len"].add((i, l))
            vs = [b.v.strip(at[2]), b.v.strip(at[3])]
            zero = any(b.v.t(v)[0] == "const" and b.v.t(v)[1] == 0 for v in vs)
        elif at[0] == "eqc" and str(at[2]) == "0":
            vs, zero = [b.v.strip(at[1])], True
        else:
            continue
        for v in vs:
            t = b.v.t(v)
            while t[0] == "proj":
                v = b.v.strip(t[1])
                t = b.v.t(v)
            if zero and t[0] == "call" and any(t[3] == c.pid for c in pre):
                out["pad"].add((i, l))
    return out


@prop("K08", [CR],
      "MIR must-conditions of every success return, linear-form length check, abort-site enumeration with interval proofs, error-flow of every read",
      "Every success path of the key decoder is shown to cross: a matching human-readable prefix, a payload length equal to the linear form 66 + 4 x depth, a zero byte before the key, and success of every read and of secret-key validation; every place in the decoder that may abort the thread is enumerated and discharged by intervals, so no input text can make it panic.")
def k08(C):
    b = C.A(CR, "ExtendedSK", "from_slip32", no_inline=tuple(k for k, f in C.F.fns.items() if f["name"] == "from" and re.match(r"^<(?:\w+::)*KeyPath as (?:\w+::)*From<", f["path"])))
    oks = [r for r in b.rets("Ok") if r.variant == "Ok"]
    C.floor("success returns", len(oks), 1)
    good = slip_checks(b)
    for r in oks:
        for kind, what, why in (("hrp", "texts with another prefix are refused", "no check of the prefix dominates success"),
                                ("len", "payloads whose length does not fit their depth are refused", "no check that length = 66 + 4 x depth dominates success"),
                                ("pad", "payloads without the zero byte before the key are refused", "no check of the key prefix dominates success")):
            C.ob("slip-reject", what, good[kind] and b.paths_avoiding([r.pid], cut_edges=good[kind]) is None, why, b.where(r.pid))
    for c in b.calls("bech32::decode", "FromBase32::from_base32", "ReadBytesExt::read_u8", "ReadBytesExt::read_u32_into", "Read::read_exact", "SecretKey::from_slice"):
        C.propagates(b, "slip-error", f"decoder: {c.name}", c)
    C.no_abort(b, "slip-total", "no input text makes the decoder abort")


@prop("K10", [CR],
      "MIR case-table extraction (per-variant reachability), argument provenance of phrase, language and passphrase",
      "The mapping from requested length to word count is extracted per variant and shown one-to-one, the phrase and seed functions are shown to pass exactly the caller's phrase, language and passphrase to the BIP39 primitive and to return its result, and the plain and protected entry points are shown to coincide. The BIP39 library (checksum, wordlist, key stretching) is trusted.")
def k10(C):
    g = C.A(CR, "MnemonicGenerator", "generate")
    flds = {}
    for k, x in C.F.adts.items():
        if k.startswith(CR) and k.split("::")[-1] == "MnemonicGenerator":
            for f in x["variants"][0]["fields"]:
                flds[ty_head(f["ty"])] = f["name"]
    L, G = f"self.{flds['Length']}", f"self.{flds['Lang']}"
    lens = next(x for k, x in C.F.adts.items() if k.startswith(CR) and k.split("::")[-1] == "Length")
    uses = [c for c in g.calls() if c.f["name"] == "from_entropy"]
    C.floor("phrases built", len(uses), 1)
    n = 0
    for v in lens["variants"]:
        nm = v["name"]
        es = g.edges_matching(lambda s: s == f"{L} is {nm}")
        ys = [y for i, l in es for ll, y in g.p.nodes[i].succ if ll == l]
        seen = g.reach(ys)
        eb = [c for c in g.calls() if c.f["name"] == "entropy_bits" and c.pid in seen]
        # restrict to calls whose receiver can be this variant: cut other variants' edges
        other = g.edges_matching(lambda s: re.fullmatch(r"%s is \w+" % re.escape(L), s) and s != f"{L} is {nm}")
        reach = g.fl.reach([g.p.entry], avoid_edge=lambda a, l, y: (a.id, l) in other)
        alts = set()
        for c in eb:
            if c.pid in reach:
                for x in feasible(g, c.val(0), reach):
                    alts.add(g.s(x))
        fixed = {c.arg(1) for c in uses}
        n += 1
        C.ob("words", f"{nm}: phrase of that many words", es and alts == {f"MnemonicType::{nm}{{}}"}, f"{nm} gives {alts}", g.fn["span"])
    C.floor("lengths", n, 5)
    for c in uses:
        buf = c.arg(0)
        C.ob("words", "entropy has the size the word count needs", re.match(r"^from_elem\(0, (Div\(MnemonicType::entropy_bits\(.*\), 8\)|Shr\(MnemonicType::entropy_bits\(.*\), 3\))\)$", buf), buf, c.where)
        C.ob("lang", "generated in the requested language", all(g.s(x) in (f"{G}", "Language::English{}", "Lang::English{}") for x in g.alternatives(c.val(1))), c.arg(1), c.where)
    C.returns_only(g, "words", "the generated phrase is returned", [f"Mnemonic{{0: {g.s(c.value)}.Ok.0}}" for c in uses])
    for m, setter in (("with_len", "Length"), ("with_lang", "Lang")):
        w = C.A(CR, "MnemonicGenerator", m)
        p = params(w)[1]
        asg = [w.s(w.v.rvalue(x.n.v, x.id)) for x in w.p.nodes if x.n.k == "asg" and x.n.d and flds[setter] in str(x.n.d[2])]
        C.ob("words", f"{m} sets what it says", p in asg or any(f"{flds[setter]}: {p}" in s for s in w.ret_values()), f"{asg} {list(w.ret_values())}", w.fn["span"])
    i = C.A(CR, "MnemonicGenerator", "new")
    C.returns_only(i, "words", "default is twelve English words", [re.compile(r"^MnemonicGenerator\{(?=.*: Length::Words12\{\})(?=.*: Lang::English\{\})")])
    lang = {}
    conv = [f for f in C.F.fns.values() if f["crate"] == CR and f["name"] == "from" and "Lang" in f.get("impl_trait", "") + f["path"] and "bip39::Language" in f["path"] + str(f.get("impl_self")) and "blocks" in f]
    for f in conv:
        a = C.an(f)
        C.returns_only(a, "lang", "language names map to themselves", ["Language::English{}", "Lang::English{}", params(a)[0]])
    for m, prot, hasl in (("from_phrase", True, False), ("from_phrase_ref", False, False), ("from_phrase_lang", True, True), ("from_phrase_lang_ref", False, True)):
        a = C.A(CR, "Mnemonic", m)
        p = params(a)
        ph = f"from_utf8({p[0]}.0.0).Ok.0" if prot else p[0]
        lg = p[1] if hasl else "Lang::English{}"
        cs = [c for c in a.calls("Mnemonic::from_phrase", "Mnemonic::validate", "Mnemonic::from_entropy") if c.f.get("krate") != CR]
        C.ob("phrase", f"{m}: exactly the caller's phrase and language", len(sites(a, cs)) == 1 and all(c.name == "Mnemonic::from_phrase" and c.args == [ph, lg] or c.args == [ph, "Language::English{}"] and not hasl for c in cs), str(cs), a.fn["span"])
        for c in cs:
            C.propagates(a, "phrase", f"{m}: an invalid phrase is an error", c)
        C.returns_only(a, "phrase", f"{m}: the parsed phrase", [f"Result::Ok{{0: Mnemonic{{0: {a.s(c.value)}.Ok.0}}}}" for c in cs], "Ok")
    for m, prot in (("seed", True), ("seed_ref", False)):
        a = C.A(CR, "Mnemonic", m)
        p = params(a)[1]
        pp = f"from_utf8({p}.0.0).Ok.0" if prot else p
        C.returns_only(a, "seed", f"{m}: seed of this phrase with this passphrase", [f"Seed{{0: Seed::new(self.0, {pp})}}"])
    a = C.A(CR, "Mnemonic", "words")
    C.returns_only(a, "phrase", "words are the phrase's", ["Mnemonic::phrase(self.0)", "self.0"])
    a = C.A(CR, "Seed", "as_bytes")
    C.returns_only(a, "seed", "seed bytes are the seed's", ["self.0", "Seed::as_bytes(self.0)"])


def feasible(g, v, reach):
    """alternatives of V that flow in through reachable nodes"""
    out, seen, work = [], set(), [v]
    while work:
        x = g.v.strip(work.pop())
        if x in seen:
            continue
        seen.add(x)
        t = g.v.t(x)
        if t[0] == "phi":
            node = t[2]
            pr = g.p.nodes[node].pred
            ops = g.v.phis.get(x, ())
            # recompute the operands coming in over reachable predecessors
            got = False
            for _, p in pr:
                if p in reach:
                    o = phi_in(g, x, p)
                    if o is not None:
                        work.append(o)
                        got = True
            if not got:
                work.extend(ops)
        else:
            out.append(x)
    return out


def phi_in(g, ph, p):
    for key, m in g.v.memo.items():
        if m == ph and len(key) == 3 and key[2] == g.v.t(ph)[2]:
            root, path, _ = key
            return g.v.out(root, path, p)
    return None


def written(a):
    """everything a Display implementation may write before it returns success"""
    from wf.extra import Text
    T = Text(a)
    fs = [l.get("n") for i, l in enumerate(a.fn["locals"]) if 1 <= i <= a.fn["args"] and "Formatter" in l["ty"]]
    base = {b for _, bs in T.all_appends() for b in bs if a.s(b) in fs}
    out = set()
    for r in a.rets():
        if r.variant == "Err":
            continue
        for b in base:
            out |= T.language(b, r.pid)
    return out


@prop("K11", [CR],
      "MIR interval domains and provenance of path construction; format-template extraction of the textual form",
      "Path construction is analysed on all paths: the exact range of numbers accepted as normal or hardened elements, the value stored for each, that elements are only appended, what the hardened test reads, and what each branch of the textual form prints (value and template); the constructor from raw numbers keeps every number unchanged.")
def k11(C):
    pf = next((x["variants"][0]["fields"][0]["name"] for k, x in C.F.adts.items() if k.startswith(CR) and k.split("::")[-1] == "KeyPath"), "path")
    full = (0, 2**32 - 1)
    for m, want in (("hardened", [(0, 2**31 - 1)]), ("index", [(0, 2**31 - 1)])):
        a = C.A(CR, "KeyPath", m)
        p = params(a)[1]
        push = [c for c in a.calls("Vec::push")]
        C.ob("path-append", f"{m}: appended once, at the end", len(sites(a, push)) == 1 and all(c.arg(0) == f"self.{pf}" and not a.in_loop(c.pid) for c in push), str(push), a.fn["span"])
        C.must_pass(a, "path-append", f"{m}: always appended", push, a.rets(), "the element is not appended")
        ok = [f"KeyPathIndex{{0: checked_add(2147483648, {p}).Some.0}}", f"KeyPathIndex{{0: checked_add({p}, 2147483648).Some.0}}", f"KeyPathIndex{{0: Add(2147483648, {p})}}", f"KeyPathIndex{{0: BitOr(2147483648, {p})}}"] if m == "hardened" else [f"KeyPathIndex{{0: {p}}}"]
        for c in push:
            C.ob("path-value", f"{m}: element value", c.arg(1) in ok, f"appends `{c.arg(1)}`", c.where)
            d = domain(a, p, [c], full)
            checked = "checked_add(" in c.arg(1)
            if checked:
                C.requires(a, "path-range", f"{m}: numbers with the hardened bit are refused", c.pid, [re.compile(r"^checked_add\(.*2147483648.* is Some$")])
            else:
                C.ob("path-range", f"{m}: numbers with the hardened bit are refused", d == want, f"accepts {d}", c.where)
        C.returns_only(a, "path-append", f"{m}: the path is returned", ["self"])
        other = [e for e in a.effects() if e.root.startswith("self") and e.pid not in {c.pid for c in push}]
        C.ob("path-append", f"{m}: nothing else changes", not other, str(other), a.fn["span"])
    a = C.A(CR, "KeyPathIndex", "is_hardened")
    C.returns_only(a, "path-hardened", "the hardened test reads the top bit", ["Eq(2147483648, BitAnd(2147483648, self.0))", "Eq(BitAnd(2147483648, self.0), 2147483648)", "Ne(BitAnd(2147483648, self.0), 0)", "Ne(0, BitAnd(2147483648, self.0))", "Ge(self.0, 2147483648)", "Le(2147483648, self.0)", "Gt(self.0, 2147483647)", "Lt(2147483647, self.0)"])
    a = C.A(CR, "KeyPathIndex", "as_ref", "AsRef")
    C.returns_only(a, "path-value", "raw value of an element", ["self.0"])
    f = C.A(CR, "KeyPathIndex", "fmt", "Display")
    top = {"1 eq Shr(self.0, 31)", "2147483648 eq BitAnd(2147483648, self.0)", "0 ne BitAnd(2147483648, self.0)", "self.0 ge 2147483648", "self.0 gt 2147483647", "checked_sub(self.0, 2147483648) is Some"}
    low = {"1 ne Shr(self.0, 31)", "0 eq Shr(self.0, 31)", "2147483648 ne BitAnd(2147483648, self.0)", "0 eq BitAnd(2147483648, self.0)", "self.0 lt 2147483648", "self.0 le 2147483647", "checked_sub(self.0, 2147483648) is None"}
    masked = {"Sub(self.0, 2147483648)", "checked_sub(self.0, 2147483648).Some.0", "BitAnd(2147483647, self.0)", "BitXor(2147483648, self.0)"}
    for what, contra, want in (("hardened", low, {(m, '"\'"') for m in masked}), ("normal", top, {(m,) for m in masked | {"self.0"} - {"Sub(self.0, 2147483648)", "checked_sub(self.0, 2147483648).Some.0"}})):
        w = f.under(lambda s: s in contra)
        T = written(w)
        C.ob("path-text", f"{what} elements are shown as their number{' and an apostrophe' if what == 'hardened' else ''}", T and T <= want and len(T) == 1, f"{what} elements are shown as {sorted(T)}", f.fn["span"])
    k = C.A(CR, "KeyPath", "fmt", "Display")
    E = f"elem(self.{pf})"
    T = written(k)
    C.ob("path-text", "the text is m and every element after a slash", T == {("'m'", "'/'*", f"{E}*")}, f"{sorted(T)}", k.fn["span"])
    app = [c for c in k.calls("String::push_str", "fmt::format", "Formatter::write_fmt", "Write::write_fmt", "Formatter::write_str", "Display::fmt", "::fmt", "add_assign", "::add_assign", "Add::add", "Write::write_str") if E in " ".join(c.args)]
    C.loop_steps(k, "path-text", "every element is shown", k.edges_matching(lambda s: s == f"next(self.{pf}) is Some"), app, "each element is shown")
    d = C.A(CR, "KeyPath", "depth")
    C.returns_only(d, "path-depth", "depth is the number of elements", [f"len(self.{pf})"])
    m = C.A(CR, "KeyPath", "is_master")
    C.returns_only(m, "path-depth", "the master path is the empty one", [f"Eq(len(self.{pf}), 0)", f"Eq(0, len(self.{pf}))", f"is_empty(self.{pf})", f"Lt(len(self.{pf}), 1)"])
    i = C.A(CR, "KeyPath", "iter")
    C.returns_only(i, "path-order", "elements are visited in order", [f"self.{pf}"])


@prop("K12", [CR],
      "MIR provenance of digest and key-stretching inputs and outputs, static algorithm identity, full-buffer write",
      "Hashing is shown to feed exactly the caller's bytes to one SHA-256 instance and return its complete output; password stretching is shown to run PBKDF2-HMAC-SHA256 with the caller's password, salt and iteration count in their roles over the whole 32-byte buffer it returns. The primitives are trusted; a zero iteration count aborts (documented precondition).")
def k12(C):
    a = C.fnA(CR, "calculate_sha256")
    p = params(a)[0]
    fin = [c for c in a.calls("Digest::result", "Digest::finalize", "::digest")]
    C.ob("hash-input", "one digest", len(sites(a, fin)) == 1, str(fin), a.fn["span"])
    for c in fin:
        if c.f["name"] == "digest":
            C.ob("hash-input", "exactly the caller's bytes are hashed", c.args == [p], str(c.args), c.where)
        else:
            L = Bytes(a).language(c.val(0), c.pid)
            C.ob("hash-input", "exactly the caller's bytes are hashed", L == {(p,)}, str(L), c.where)
        ga = str(c.f.get("ga")) + str(c.f.get("fn"))
        C.ob("hash-algorithm", "the digest is SHA-256", "Sha256" in ga and "Sha256Trunc" not in ga, ga, c.where)
    out = [c for c in a.calls("slice::copy_from_slice", "slice::clone_from_slice")]
    vals = list(a.ret_values())
    fv = {a.s(c.value) for c in fin}
    if vals == ["Sha256{0: [0; 32]}"]:
        C.ob("hash-output", "the whole digest is returned", len(sites(a, out)) == 1 and all(c.arg(0) == "[0; 32]" and c.arg(1) in fv for c in out), str(out), a.fn["span"])
        C.must_pass(a, "hash-output", "the digest is always written", out, a.rets(), "returns without the digest")
    else:
        C.ob("hash-output", "the whole digest is returned", all(any(re.fullmatch(r"Sha256\{0: %s(\.Ok\.0)?\}" % re.escape(f), s) for f in fv) for s in vals), str(vals), a.fn["span"])
    b = C.fnA(CR, "pbkdf2_sha256")
    pw, salt, n = params(b)
    ds = [c for c in b.calls("pbkdf2::derive")]
    C.ob("stretch-args", "one derivation", len(sites(b, ds)) == 1, str(ds), b.fn["span"])
    for c in ds:
        C.ob("stretch-args", "algorithm, iterations, salt and password in their roles", re.fullmatch(r"static ring::pbkdf2::PBKDF2_HMAC_SHA256", c.arg(0)) and c.arg(1) == f"new({n}).Some.0" and c.arg(2) == salt and c.arg(3) == pw, str(c.args), c.where)
        C.ob("stretch-output", "the whole 32-byte buffer is derived", c.arg(4) == "from_elem(0, 32)", c.arg(4), c.where)
    C.must_pass(b, "stretch-output", "the derivation always runs", ds, b.rets(), "returns without deriving")
    C.returns_only(b, "stretch-output", "the derived buffer is returned", ["Protected{0: from_elem(0, 32)}"])
    untouched(C, b, "stretch-output", "not modified afterwards", ds)


SKB = (r"(?:SecretKey::)?secret_bytes\({}\)", r"{}", r"(?:SecretKey::)?as_ref\({}\)")
PUB = (r"PublicKey::from_secret_key_global\({}\)", r"PublicKey::from_secret_key\([^()]*(?:\(\))?, {}\)", r"SecretKey::public_key\({}, [^()]*(?:\(\))?\)", r"PublicKey::from\({}\)")


def spelled(s, pats, x):
    return any(re.fullmatch(p.format(re.escape(x)), s) for p in pats)


@prop("K13", [CR],
      "MIR provenance of every returned component, concatenation language of the exported bytes",
      "The accessors that hand out a key's material are shown, on every path, to return exactly the material asked for: the byte language of `concat` is the secret key followed by the whole chain code, `secret` and `chain_code` are the bytes held, the public half is computed from that very secret by the curve library and keeps its chain code, and converting to a plain key returns the key held. The curve multiplication itself is trusted.")
def k13(C):
    a = C.A(CR, "ExtendedSK", "concat")
    me = params(a)[0]
    B = Bytes(a)

    def payload(x, r):
        t = x.v.t(x.n.peel(r.value))
        return [t[4][0]] if t[0] == "agg" and t[1].split("::")[-1] == "Protected" else [r.value]

    C.floor("returns of concat", len(list(a.rets())), 1)
    for r in a.rets():
        for w in payload(a, r):
            L = B.language(w, r.pid)
            ok = L and all(len(x) == 2 and spelled(x[0], SKB, f"{me}.secret_key") and x[1] in (f"{me}.chain_code", f"{me}.chain_code.0") for x in L)
            C.ob("export", "secret key, then the whole chain code, nothing else", ok, str(L), a.where(r.pid))
    b = C.A(CR, "ExtendedSK", "secret")
    me = params(b)[0]
    C.floor("returns of secret", len(list(b.rets())), 1)
    for r in b.rets():
        for w in payload(b, r):
            L = Bytes(b).language(w, r.pid)
            C.ob("export", "the secret is the key's bytes", L and all(len(x) == 1 and spelled(x[0], SKB, f"{me}.secret_key") for x in L), str(L), b.where(r.pid))
    c = C.A(CR, "ExtendedSK", "chain_code")
    me = params(c)[0]
    cc = (f"{me}.chain_code", f"Protected{{0: {me}.chain_code.0}}")
    vals = list(c.ret_values())
    C.ob("export", "the chain code is the one held", vals and set(vals) <= set(cc), str(vals), c.fn["span"])
    d = C.A(CR, "ExtendedPK", "from_secret_key")
    k = params(d)[0]
    C.floor("returns of from_secret_key", len(list(d.rets())), 1)
    for r in d.rets():
        t = d.v.t(d.n.peel(r.value))
        if not C.ob("export", "an extended public key is built", t[0] == "agg" and t[1].split("::")[-1] == "ExtendedPK", d.s(r.value)[:200], d.where(r.pid)):
            continue
        fl = {n: d.s(v) for n, v in zip(t[3], t[4])}
        C.ob("export", "the public key belongs to the secret key", spelled(fl["key"], PUB, f"{k}.secret_key"), fl["key"], d.where(r.pid))
        C.ob("export", "the chain code is kept", fl["chain_code"] in (f"{k}.chain_code", f"Protected{{0: {k}.chain_code.0}}"), fl["chain_code"], d.where(r.pid))
    e = C.A(CR, "ExtendedSK", "new")
    s, h = params(e)
    C.returns_only(e, "export", "a key is built from the parts given", [f"ExtendedSK{{secret_key: {s}, chain_code: {h}}}"])
    n = 0
    for f in C.F.fns.values():
        if f["crate"] == CR and f["name"] == "from" and "blocks" in f:
            m = re.search(r"From<(?:\w+::)*(ExtendedSK|ExtendedPK)> for", f["path"])
            if m:
                n += 1
                x = C.an(f)
                p = params(x)[0]
                C.returns_only(x, "export", f"converting {m.group(1)} gives the key held", [f"{p}.{'secret_key' if m.group(1) == 'ExtendedSK' else 'key'}"])
    C.floor("conversions to plain keys", len(list(range(n))), 2)
