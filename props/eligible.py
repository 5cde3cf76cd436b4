"""Who may mine and who may witness."""
import re
from wf.check import prop, sites, params
from wf.extra import fact, Bytes
from wf.valid import *
from wf.order import Order
from props.stakes import shape, same

VA = "witnet_validations"


def impl(C, name, **kw):
    fs = [f for f in C.F.fns.values() if f["name"] == name and f.get("crate") == VA and f["path"].startswith("<") and "Stakes<" in f["path"] and "Eligibility" in f["path"]]
    C.floor(f"implementations of {name}", len(fs), 1)
    return C.an(fs[0], **kw)


def top(a, v):
    """the alternatives of a value, as texts"""
    out = []
    for x in alts(a, v):
        out.append(a.s(x))
    return out


@prop("E01", [VA],
      "required conditions on eligibility over all paths; provenance of the rank, cap and threshold compared; normal form of the target formula",
      "mining_eligibility and witnessing_eligibility for the stakes tracker, and their yes/no forms, are analysed on all paths: mining eligibility holds exactly when the validator is among the first entries of the mining rank, as many as the smaller of the replication factor and two thirds of the entries; witnessing eligibility implies a power above zero and above that of the entry at the threshold position of the witnessing rank, and the target is the stated formula. What the rank is belongs to D07; the witnessing round is taken to be at least one and the number of witnesses at least one (validated elsewhere).")
def e01(C):
    ni = keys(C, "by_rank", "query_power", "with_first_u32", "stakes_count")
    a = impl(C, "mining_eligibility", no_inline=ni)
    me, val, ep, rf = params(a)
    R = f"Stakes::by_rank({me}, Capability::Mining{{}}, {ep})"
    a.call({R: "RANK"})
    tk = [c for c in a.calls() if c.f["name"] == "take"]
    C.floor("cut of the mining rank", len(sites(a, tk)), 1)
    N = set()
    for c in tk:
        v = c.val(1)
        C.ob("mining", "the rank of mining at that epoch", c.arg(0) == "RANK", c.arg(0)[:200], c.where)
        # the smaller of the replication factor and two thirds of the number of entries
        cnt = ("len(%s.by_key)" % me, f"Stakes::stakes_count({me})")
        third = [f"Div(Mul(2, {x}), 3)" for x in cnt]
        caps = {f"try_from({t}).Ok.0" for t in third} | {"65535"} | {f"unwrap_or(try_from({t}), 65535)" for t in third}
        wide = {f"min({x}, {rf})" for x in caps} | {f"min({rf}, {x})" for x in caps} | {f"min({y}, {t})" for t in third for y in (rf, f"({rf} as usize)")}
        got = set()
        for s in top(a, v):
            m = re.fullmatch(r"\(\{(.*)\} as \w+\)", s) or re.fullmatch(r"\{(.*)\}", s)
            got |= set(m.group(1).split(" | ")) if m else {s}
        ok = all(any(same(g, w) for w in wide) for g in got)
        C.ob("mining", "as many as the replication factor, capped at two thirds of the entries", ok and any("Div" in g for g in got), str(sorted(got))[:300], c.where)
        N.add(a.s(c.value))
    for c in tk:
        lim = a.edges_matching(lambda s: s == "try_from(Div(Mul(2, len(%s.by_key)), 3)) is Err" % me)
        if lim:
            b = a.under(lambda s: s.endswith("is Err") and s.startswith("try_from(Div("))
            b.call({R: "RANK"})
            for x in b.calls():
                if x.f["name"] == "take":
                    C.ob("mining", "the cap is dropped only when it cannot be represented", "65535" not in x.arg(1), x.arg(1)[:200], x.where)
    hit = edges(a, *[x for n in N for x in (f"elem({n}).0.validator eq {val}", f"{val} eq elem({n}).0.validator")])
    miss = edges(a, *[x for n in N for x in (f"elem({n}).0.validator ne {val}", f"{val} ne elem({n}).0.validator")])
    yes = [r for r in a.rets() if "Yes" in r.s]
    no = [r for r in a.rets() if "Yes" not in r.s]
    C.floor("eligible answers", len(yes), 1)
    for r in yes + no:
        C.ob("mining", "the answer is one of the two", r.variant == "Ok" and ("Yes" in r.s) != ("Insufficient" in r.s), r.s[:200], a.where(r.pid))
    need(C, a, "mining", "eligible only when found within that part of the rank", yes, hit)
    ends = {i for i, l in hit}
    p = a.paths_avoiding([r.pid for r in no], start=a.p.entry)
    for i, l in hit:
        for ll, y in a.p.nodes[i].succ:
            if ll == l:
                C.ob("mining", "whoever is found there is eligible", not (a.reach([y]) & {r.pid for r in no}), "a refusal is reachable after the validator was found", a.where(i))
    per_element(C, a, "mining", "all of that part is searched before refusing", list(N), no, "each entry is compared", cut=hit | miss)
    # witnessing
    a = impl(C, "witnessing_eligibility", no_inline=ni)
    me, key, ep, wit, rnd, most = params(a)
    R = f"Stakes::by_rank({me}, Capability::Witnessing{{}}, {ep})"
    P = f"Stakes::query_power({me}, {key}, Capability::Witnessing{{}}, {ep})"
    a.call({P: "PW", R: "RANK"})
    nth = [c for c in a.calls() if c.f["name"] == "nth"]
    nxt = [c for c in a.calls() if c.f["name"] == "next" and c.arg(0) == "RANK"]
    C.floor("positions of the witnessing rank", len(sites(a, nth)), 1)
    for c in nth:
        RF = f"Mul({wit}, pow(2, {rnd}))"
        after = c.pid in a.reach([x.pid for x in nxt]) if nxt else False
        off = "2" if nxt else "1"
        C.ob("witnessing", "the threshold is the entry at position witnesses * 2^round of the witnessing rank", c.arg(0) == "RANK" and same(c.arg(1), f"Sub({RF}, {off})"), f"{c.args}"[:300], c.where)
        if nxt:
            C.must_pass(a, "witnessing", "positions are counted from the first entry", nxt, [c], "the threshold is taken without the first entry")
            C.never_after(a, "witnessing", "the first entry is taken once", nxt, nxt, "taken twice")
    q = {c.pid: c for c in a.calls() if c.f["name"] in ("query_power",)}
    C.ob("witnessing", "the power compared is the validator's witnessing power", q and all(a.s(c.value) == "PW" for c in q.values()), str([c.args for c in q.values()])[:300], a.fn["span"])
    NTH = "nth(RANK, %s)" % (nth[0].arg(1) if nth else "?")
    DEF = r"(Default::default\(\)\.1|0)"
    a.call({re.compile(rf"\{{{DEF} \| {re.escape(NTH)}\.Some\.0\.1\}}"): "THR", re.compile(rf"\{{{DEF} \| (elem|next)\(RANK\)(\.Some\.0)?\.1\}}"): "MAXP",
            re.compile(rf"unwrap_or_default\({re.escape(NTH)}\)\.1"): "THR", re.compile(r"unwrap_or_default\(next\(RANK\)\)\.1"): "MAXP"})
    pw = "PW.Ok.0"
    yes = [r for r in oks(a) if "Eligible::Yes" in a.s(r.value)]
    rest = [r for r in a.rets() if r.pid not in {x.pid for x in yes}]
    C.floor("eligible answers", len(yes), 1)
    pos = edges(a, f"{pw} ne 0", f"0 ne {pw}", f"{pw} gt 0", f"0 lt {pw}")
    zero = edges(a, f"{pw} eq 0", f"0 eq {pw}", f"{pw} le 0", f"{pw} lt 1")
    over = edges(a, f"{pw} gt THR", f"THR lt {pw}")
    under = edges(a, f"{pw} le THR", f"THR ge {pw}")
    need(C, a, "witnessing", "eligible only with a power", yes, pos | over, what="power above zero")
    need(C, a, "witnessing", "eligible only above the threshold entry", yes, over)
    reasons(C, a, "witnessing", "refused only without stake, without power, or not above the threshold", rest, zero | under | edges(a, "PW is Err"))
    for i, l in edges(a, "PW is Err"):
        for ll, y in a.p.nodes[i].succ:
            if ll == l:
                C.ob("witnessing", "without stake nobody is eligible", not (a.reach([y]) & {r.pid for r in yes}), "eligible without stake", a.where(i))
    b = a.under(lambda s: s == "PW is Ok")
    b.call({P: "PW"})
    for r in b.rets():
        for s in top(b, r.value):
            C.ob("witnessing", "an error other than an unknown validator is passed on", "NotStaking" in s and s.startswith("Result::Ok") or s == "Result::Err{0: PW.Err.0}", s[:200], b.where(r.pid))
    d = a.under(lambda s: s == "PW is Ok" or re.match(r"^PW\.Err\.0 is (.*/)?ValidatorNotFound\b", s))
    d.call({P: "PW"})
    for r in d.rets():
        for s in top(d, r.value):
            C.ob("witnessing", "an error other than an unknown validator is passed on", s == "Result::Err{0: PW.Err.0}", s[:200], d.where(r.pid))
    for r in errs(b):
        need(C, b, "witnessing", "an unknown validator is not an error", [r], re.compile(r"^PW\.Err\.0 is (?!.*\bValidatorNotFound\b)"))
    for r in yes:
        v = a.v.projv(r.value, (("v", "Ok"), ("f", 0)))
        hs = top(a, field(a, v, 1))
        bits = lambda x: f"Sub(64, leading_zeros({x}))"
        DD = f"Mul({most}, {bits(pw)})"
        DV = f"saturating_add(saturating_mul({rnd}, {bits('THR')}), saturating_mul({bits('MAXP')}, Sub({most}, {rnd})))"
        T = f"Shr(saturating_mul(Div(18446744073709551615, {DV}), {DD}), 32)"
        fine = [f"try_into({T}).Ok.0", f"try_from({T}).Ok.0", f"({T} as u32)"]
        for h in hs:
            m = re.fullmatch(r"Hash::with_first_u32\((.*)\)", h)
            t = m.group(1) if m else ""
            C.ob("target", "the target is the largest hash or the stated share of it", t == "4294967295" or same(t, *fine), h[:400], a.where(r.pid))
        C.ob("target", "the share is computed", any("Shr" in h for h in hs), str(hs)[:300], a.where(r.pid))
        free = a.under(lambda s: False)
        dz = [x for x in sum(([s] for i, l, y, ss in a.edges() for s in ss), []) if re.match(r"^(0 ne saturating_add|saturating_add\(.*\) (ne|gt) 0)", x)]
        bb = a.under(lambda s: re.match(r"^(0 eq saturating_add\(|saturating_add\(.*\) (eq|le) 0$)", s) is not None)
        bb.call({P: "PW", R: "RANK"})
        for rr in bb.rets():
            if "Eligible::Yes" in bb.s(rr.value):
                hh = top(bb, field(bb, bb.v.projv(rr.value, (("v", "Ok"), ("f", 0))), 1))
                C.ob("target", "the largest target is only for an undefined share", dz and all("4294967295)" not in h for h in hh), str(hh)[:200], bb.where(rr.pid))
    # yes/no forms
    for n in ("mining", "witnessing"):
        f = [f for f in C.F.fns.values() if f["name"] == f"{n}_eligibility_bool" and f.get("crate") == VA and "blocks" in f][0]
        b = C.an(f)
        ps = params(b)
        E = f"Eligibility::{n}_eligibility({', '.join(ps)})"
        Y = E + (".Ok.0" if n == "mining" else ".Ok.0.0")
        for r in b.rets():
            if r.s == "1":
                need(C, b, "yes-no", f"{n}: true only when eligible", [r], f"{Y} is Yes")
            elif r.s == "0":
                reasons(C, b, "yes-no", f"{n}: false only when not eligible", [r], f"{Y} is No", f"{E} is Err")
            else:
                C.ob("yes-no", f"{n}: a plain answer", False, r.s[:200], b.where(r.pid))




def target_of(a, v):
    """the share behind a target hash: the terms T of with_first_u32(T >> 32)"""
    out = set()
    for s in top(a, v):
        m = re.fullmatch(r"Hash::with_first_u32\((.*)\)", s)
        t = m.group(1) if m else s
        m = re.fullmatch(r"(?:try_from|try_into)\(Shr\((.*), 32\)\)\.Ok\.0", t) or re.fullmatch(r"\(Shr\((.*), 32\) as \w+\)", t)
        t = m.group(1) if m else "? " + t
        out |= set(t[1:-1].split(" | ")) if t.startswith("{") and t.endswith("}") else {t}
    return out


MAX = "18446744073709551615"


@prop("E02", [VA],
      "normal form of the target formulas, with the branches of each era pruned; provenance of the slot targets",
      "calculate_randpoe_threshold and calculate_reppoe_threshold are analysed once per era (the branches of the other eras are removed): the target hash handed out is the stated share of all hashes, and nothing else. VrfSlots::from_rf is analysed on all paths: one target for every replication factor of the inclusive range, in order, with the arguments passed through. The floating-point probability reported beside the target is not checked. The minimum difficulty is taken to be positive in the third era of reppoe, as the consensus constants have it.")
def e02(C):
    ni = keys(C, "wips_0009_0011_0012", "wip0016", "third_hard_fork", "total_active_reputation", "get_eligibility", "threshold_factor", "with_first_u32", "calculate_randpoe_threshold", "calculate_reppoe_threshold")

    def era(a, rule, inst, false, want):
        b = a.under(lambda s: any(f(s) for f in false))
        rs = b.rets()
        C.ob(rule, inst + ": a target is handed out", bool(rs), "no return", a.fn["span"])
        for r in rs:
            T = target_of(b, field(b, r.value, 0))
            C.ob(rule, inst, T and all(same(t, *want) for t in T), f"{sorted(T)}"[:400], b.where(r.pid))

    def is_(*xs):
        return lambda s: s in xs
    a = C.fnA(VA, "calculate_randpoe_threshold", no_inline=ni)
    ids, rf, ep, md, few, w = params(a)
    W = f"ActiveWips::wips_0009_0011_0012({w})"
    early, late = is_(f"{ep} le {few}", f"{few} ge {ep}"), is_(f"{ep} gt {few}", f"{few} lt {ep}")
    M = f"max(1, {md})"
    era(a, "randpoe", "in the first epochs the minimum difficulty alone counts", [late], [f"Div({MAX}, {M})"])
    era(a, "randpoe", "from the first improvements on, identities but at least the minimum difficulty", [early, is_("!" + W)],
        [f"saturating_mul(Div({MAX}, max({ids}, {M})), {rf})"])
    era(a, "randpoe", "before, the number of identities", [early, is_(W)], [f"saturating_mul(Div({MAX}, max(1, {ids})), {rf})"])
    a = C.fnA(VA, "calculate_reppoe_threshold", no_inline=ni)
    re_, pkh, wit, md, w = params(a)
    TOT = f"max(ReputationEngine::total_active_reputation({re_}), 1)"
    ME = f"Add(1, ReputationEngine::get_eligibility({re_}, {pkh}))"
    TF = f"ReputationEngine::threshold_factor({re_}, {wit})"
    A6, A3 = f"ActiveWips::wip0016({w})", f"ActiveWips::third_hard_fork({w})"
    era(a, "reppoe", "last era: own share of the reputation, at least the minimum difficulty, times witnesses", [is_("!" + A6)],
        [f"saturating_mul(saturating_mul(Div({MAX}, max({TOT}, {md})), {ME}), {wit})", f"saturating_mul(saturating_mul(Div({MAX}, max(max(ReputationEngine::total_active_reputation({re_}), {md}), 1)), {ME}), {wit})"])
    era(a, "reppoe", "third hard fork: own share capped by the minimum difficulty, times the threshold factor", [is_(A6), is_("!" + A3)],
        [f"saturating_mul(min(Div({MAX}, {md}), saturating_mul(Div({MAX}, {TOT}), {ME})), {TF})"])
    era(a, "reppoe", "before: own share times the threshold factor", [is_(A6), is_(A3)],
        [f"saturating_mul(saturating_mul(Div({MAX}, {TOT}), {ME}), {TF})"])
    a = C.A(VA, "VrfSlots", "from_rf", no_inline=ni)
    ids, rf, bf, ep, md, few, w = params(a)
    RG = (f"RangeInclusive{{start: {rf}, end: {bf}}}",)
    ps = [c for c in a.calls() if c.f["name"] in ("collect_push", "push")]
    C.floor("targets collected", len(sites(a, ps)), 1)
    for c in ps:
        ok = any(c.arg(1) == f"legacy::calculate_randpoe_threshold({ids}, elem({g}), {ep}, {md}, {few}, {w}).0" for g in RG)
        C.ob("slots", "one target per replication factor of the range, by the same rules", ok, c.arg(1)[:300], c.where)
    for r in a.rets():
        C.ob("slots", "the targets collected are the slots", re.fullmatch(r"VrfSlots\{target_hashes: (iter::collect_new\(\)|Vec::new\(\)|\[\])\}|VrfSlots\{target_hashes: .*(with_capacity|new)\(.*\)\}", r.s) is not None, r.s[:200], a.where(r.pid))
    per_element(C, a, "slots", "no replication factor is left out", list(RG), a.rets(), "its target is collected", nodes={c.pid for c in ps})


DS = "witnet_data_structures"


def cell(s):
    """a value behind a RefCell, whatever way it is reached"""
    return re.sub(r"\b(?:deref_mut|deref|borrow_mut|borrow|RefCell::get_mut|get_mut)\(([^()]*)\)", r"\1", s)


@prop("D08", [DS],
      "typestate of the derived-reputation cache (source written => invalidated on every path; read => valid or rebuilt); normal form of what it holds; decision table of the order",
      "Every function of the module that can write the reputation, the active set or the alpha clock of a ReputationEngine, or hand out a mutable reference to them, is enumerated from the compiled program (the fields are private); on every path through each of them the cache is invalidated. Every reader of the cache uses it only when valid or just rebuilt from the engine's own data, all parts at once. The order of identities is decided in every combination of orderings of reputation, hash and key. The trapezoid itself is floating-point and is not checked.")
def d08(C):
    crate = DS
    src = ("trs", "ars", "current_alpha")
    CA = "self.threshold_cache"
    n = 0
    # writers: every method of the engine, and any other function that touches those fields for writing
    fs = [f for f in C.F.fns.values() if f.get("crate") == crate and "blocks" in f and f.get("kind") != "Closure" and re.search(r"ReputationEngine::\w+$", f["path"])]
    C.floor("methods of the reputation engine", len(fs), 10)
    for f in fs:
        a = C.an(f)
        ps = params(a)
        me = ps[0] if ps else "self"
        inv = [e for e in a.effects() if e.op == "assign" and e.root == f"{me}.threshold_cache.valid" and e.args == ["0"]]
        inv += [e for e in a.effects() if e.op in ("assign", "replace", "replaced") and e.root in (f"{me}.threshold_cache",)]
        pids = {e.pid for e in inv}
        wr = [e for e in a.effects() if any(e.root == f"{me}.{k}" or e.root.startswith(f"{me}.{k}.") for k in src)]
        ret = f.get("sig", {}) if isinstance(f.get("sig"), dict) else {}
        out = [r for r in a.rets() if any(r.s == f"{me}.{k}" or r.s.startswith(f"{me}.{k}.") for k in src)]
        mut = f["name"].endswith("_mut") or bool(re.search(r"&(?:'\w+ )?mut ", f.get("ret", "") or ""))
        if wr or (out and mut):
            n += 1
        same_ = {(i, l) for i, l, y, ss in a.edges() for s in ss if re.fullmatch(rf"(\w+) eq {me}\.current_alpha|{me}\.current_alpha eq (\w+)", s)}
        for e in wr:
            p = a.paths_avoiding([e.pid], cut_nodes=pids, cut_edges=same_ if ".current_alpha" in e.root else set())
            q = any(a.paths_avoiding([r.pid for r in a.rets()], cut_nodes=pids, start=e.pid) for _ in [0])
            C.ob("invalidated", f"{f['name']}: changing {e.root.split('.')[1]} invalidates what is derived from it", not (p and q), "a path changes it and leaves the cache valid", a.where(e.pid))
        if mut:
            for r in out:
                p = a.paths_avoiding([r.pid], cut_nodes=pids)
                C.ob("invalidated", f"{f['name']}: handing out a mutable reference invalidates what is derived from it", p is None, "the cache stays valid", a.where(r.pid))
    C.floor("functions that can change the sources", n, 2)
    # nobody else can: no other function of the crate writes these fields
    # readers
    TR = keys(C, "internal_threshold_factor", "calculate_active_rep")
    GEN = r"(?:ReputationEngine::calculate_active_rep\(self\)|call\(\{closure#\d+\}\{0: self\}, tuple\{\}\))"
    parts = {"total_active_rep": 0, "sorted_active_rep": 1, "trapezoid_rep": 2, "sorted_identities": 3}
    for name in ("threshold_factor", "total_active_reputation", "get_eligibility", "get_rep_ordered_ars_list"):
        a = C.A(crate, "ReputationEngine", name, no_inline=TR)
        me = params(a)[0]
        valid = edges(a, f"{CA}.valid", f"{CA}.valid eq 1")
        gens = [c for c in a.calls() if re.fullmatch(GEN, a.s(c.value))]
        C.floor(f"{name}: rebuilds", len(sites(a, gens)), 1)
        asg = {}
        for e in a.effects():
            if e.op == "assign" and e.root.startswith(CA + "."):
                asg.setdefault(e.root[len(CA) + 1:], []).append(e)
        for k, i in parts.items():
            es = asg.get(k, [])
            C.ob("rebuilt", f"{name}: {k} is rebuilt", bool(es), "never assigned", a.fn["span"])
            for e in es:
                C.ob("rebuilt", f"{name}: {k} comes from the engine's own data", re.fullmatch(GEN + rf"\.{i}", e.args[0]) is not None, e.args[0][:200], a.where(e.pid))
        sets = [e for e in asg.get("valid", []) if e.args == ["1"]]
        clr = [e for e in a.effects() if e.root == CA + ".threshold" and (e.op == "clear" or e.op == "assign")]
        C.ob("rebuilt", f"{name}: the cache is marked valid only once rebuilt", bool(sets), "never marked", a.fn["span"])
        for k, es in list({k: asg.get(k, []) for k in parts}.items()) + [("threshold", clr)]:
            p = a.paths_avoiding([r.pid for r in a.rets()], cut_nodes={e.pid for e in es}, cut_edges=valid)
            C.ob("fresh", f"{name}: an answer uses {k} only when valid or just rebuilt", p is None, "a path answers from a stale cache", a.where(a.rets()[0].pid), a.describe(p) if p else None)
        if name == "threshold_factor":
            for r in a.rets():
                m = re.fullmatch(r"or_insert_with\(entry\((.*), (\w+)\), .*\)", r.s)
                m2 = re.search(r"internal_threshold_factor", r.s)
                C.ob("answers", "threshold_factor: the entry of that number of witnesses", bool(m and m.group(2) == params(a)[1]) or bool(m2), r.s[:200], a.where(r.pid))
            for c in a.calls():
                if c.f["name"] == "internal_threshold_factor":
                    o = [re.sub(GEN + r"\.(\d)", r"GEN.\1", x) for x in c.args]
                    C.ob("answers", "threshold_factor: computed from that number, the total and the sorted reputation", o[0] in (params(a)[1],) and set(o[1].strip("{}").split(" | ")) <= {"GEN.0", CA + ".total_active_rep"} and set(o[2].strip("{}").split(" | ")) <= {"GEN.1", CA + ".sorted_active_rep"}, str(o)[:300], c.where)
        else:
            one = {"total_active_reputation": ("GEN.0", CA + ".total_active_rep"), "get_eligibility": ("GEN.2", CA + ".trapezoid_rep"), "get_rep_ordered_ars_list": ("GEN.3", CA + ".sorted_identities")}[name]
            for r in a.rets():
                for o in top(a, r.value):
                    o = re.sub(GEN + r"\.(\d)", r"GEN.\1", o)
                    o = o.replace("{%s | %s}" % one, "IT").replace("{%s | %s}" % one[::-1], "IT").replace(one[0], "IT").replace(one[1], "IT")
                    pk = params(a)[1] if len(params(a)) > 1 else ""
                    ok = {f"get(IT, {pk}).Some.0", "0", "{0 | get(IT, %s).Some.0}" % pk, f"unwrap_or(get(IT, {pk}), 0)"} if pk else {"IT", "{IT | IT}"}
                    C.ob("answers", f"{name}: what was derived", o in ok, o[:300], a.where(r.pid))
    # what is derived
    a = C.A(crate, "ReputationEngine", "calculate_active_rep", no_inline=keys(C, "compare_reputed_pkh", "trapezoidal_eligibility", "calculate_rep_ordered_ars_list"))
    me = params(a)[0]
    L = f"ReputationEngine::calculate_rep_ordered_ars_list({me})"
    TZ = f"chain::trapezoidal_eligibility({L}, {me}.trs)"
    for r in a.rets():
        C.ob("derived", "total: the redistributed reputation and one per active identity", same(a.s(field(a, r.value, 0)), f"Add(len({L}), {TZ}.1)"), a.s(field(a, r.value, 0))[:200], a.where(r.pid))
        C.ob("derived", "the redistribution itself", a.s(field(a, r.value, 2)) == TZ + ".0", a.s(field(a, r.value, 2))[:200], a.where(r.pid))
        C.ob("derived", "the order itself", a.s(field(a, r.value, 3)) == L, a.s(field(a, r.value, 3))[:200], a.where(r.pid))
    ps = [c for c in a.calls() if c.f["name"] in ("collect_push", "push")]
    for c in ps:
        C.ob("derived", "sorted reputation: one above the redistributed one", same(c.arg(1).replace("Default::default()", "0"), "Add(1, {0 | get(%s.0, elem(%s)).Some.0})" % (TZ, L), f"Add(1, unwrap_or(get({TZ}.0, elem({L})), 0))"), c.arg(1)[:300], c.where)
    per_element(C, a, "derived", "one for each active identity", [L], a.rets(), "its reputation is listed", nodes={c.pid for c in ps})
    a = C.A(crate, "ReputationEngine", "calculate_rep_ordered_ars_list", no_inline=keys(C, "compare_reputed_pkh", "TotalReputationSet::get"))
    srt = [c for c in a.calls() if re.match(r"sort(_unstable)?_by$", c.f["name"])]
    cmp_ = [c for c in a.calls() if c.f["name"] == "compare_reputed_pkh"]
    C.must_pass(a, "order", "the active identities are sorted", srt, a.rets(), "returned unsorted")
    for c in cmp_:
        C.ob("order", "by the comparison of reputed identities under the current alpha", re.match(r"cb:.*#0\(", c.arg(0)) and re.match(r"cb:.*#1\(", c.arg(1)) and c.arg(2) == f"{me}.current_alpha", str(c.args)[:300], c.where)
    pushes = [c for c in a.calls() if c.f["name"] in ("collect_push", "push")]
    EL = f"elem({me}.ars.map).0"
    first = [c for c in pushes if c.arg(1).startswith("tuple{")]
    C.floor("identities listed", len(sites(a, first)), 1)
    for c in first:
        x = c.arg(1)
        C.ob("order", "each active identity with its own reputation", x.startswith("tuple{0: " + EL + ", 1: ") and f"get({me}.trs" in x and x.count(EL) >= 2, x[:300], c.where)
    b = C.fnA(crate, "compare_reputed_pkh", no_inline=keys(C, "pkh_alpha_hash"))
    x, y, al = params(b)
    for c in b.calls():
        if c.f["name"] == "set":
            k = c.arg(0).split(".")[0]
            C.ob("order", "a cached hash is that identity's own", c.arg(1) == f"Option::Some{{0: chain::pkh_alpha_hash({k}.0, {al})}}", str(c.args)[:200], c.where)
    H = lambda k: (f"chain::pkh_alpha_hash({k}.0, {al})", f"get({k}.2).Some.0")
    nm = {}
    for k, t in ((x, "HX"), (y, "HY")):
        for u, w in (H(k), (t, H(k)[1])):
            nm["{%s | %s}" % (u, w)] = nm["{%s | %s}" % (w, u)] = t
        nm[H(k)[0]] = t
    b.call(nm)
    Z = "Reputation{0: 0}"
    pos = {f"{k}.1 gt {Z}" for k in (x, y)} | {f"{Z} lt {k}.1" for k in (x, y)} | {f"{k}.1.0 gt 0" for k in (x, y)} | {f"{k}.1 ne {Z}" for k in (x, y)}
    neg = {f"{k}.1 le {Z}" for k in (x, y)} | {f"{Z} ge {k}.1" for k in (x, y)} | {f"{k}.1.0 le 0" for k in (x, y)} | {f"{k}.1 eq {Z}" for k in (x, y)} | {f"{k}.1.0 eq 0" for k in (x, y)}

    def want(env):
        if env["rep"]:
            return -env["rep"]
        return -(env["hash"] if env["some"] else env["key"])
    Order([("rep", f"{x}.1", f"{y}.1"), ("hash", "HX", "HY"), ("key", f"{x}.0", f"{y}.0")], [("some", pos, neg, set())]).decide(C, b, "order", "more reputation first; ties by the hash of key and alpha when there is any, by key when there is none", want)
    h = C.fnA(crate, "pkh_alpha_hash", no_inline=keys(C, "calculate_sha256"))
    k, al = params(h)
    hs = [c for c in h.calls() if c.f["name"] == "calculate_sha256"]
    C.floor("tie hash", len(sites(h, hs)), 1)
    for c in hs:
        L = Bytes(h).language(c.val(0), c.pid)
        C.ob("order", "the tie hash covers the key, then the alpha", {tuple(re.sub(r"^to_be_bytes\((.*)\)$", r"be(\1)", x) for x in w) for w in L} == {(f"{k}.hash", f"be({al}.0)")}, str(sorted(L))[:200], c.where)
    # issuance
    a = C.fnA(crate, "reputation_issuance")
    per, stop, old, new = params(a)
    over = edges(a, f"{old} ge {stop}", f"{stop} le {old}")
    on = edges(a, f"{old} lt {stop}", f"{stop} gt {old}")
    for r in a.rets():
        s = a.s(field(a, r.value, 0))
        if s == "0":
            need(C, a, "issuance", "nothing is issued only after the last issuing act", [r], over)
        else:
            C.ob("issuance", "reputation per act for the acts since, up to the last issuing one", same(s, f"Mul(Sub(min({stop}.0, {new}.0), {old}.0), {per}.0)"), s[:200], a.where(r.pid))
            need(C, a, "issuance", "only before the last issuing act", [r], on)
