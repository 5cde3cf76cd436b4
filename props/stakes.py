"""The stakes tracker: balances, ages, nonces, indexes, ranking."""
import re
from wf.check import prop, Anchor, sites, params
from wf.extra import lin
from wf.maps import split_call
from wf.order import Order
from wf.valid import *

DS = "witnet_data_structures"


def mkeys(C, *names):
    """keys of methods given as Type::name, to be left as calls"""
    out = set()
    for n in names:
        ty, m = n.split("::")
        out |= {f["key"] for f in C.F.method(DS, ty, m)}
    return tuple(sorted(out))


def canon(s):
    """a rendered arithmetic expression with sums and products as unordered collections"""
    s = s.strip()
    m = re.fullmatch(r"\((.*) as \w+\)", s)
    if m and split_call(m.group(1)) and split_call(m.group(1))[2] == "":
        return canon(m.group(1))
    c = split_call(s)
    if c and c[2] == "" and c[0] in ("Add", "Mul"):
        out = []
        for x in c[1]:
            y = canon(x)
            out += list(y[1]) if isinstance(y, tuple) and y[0] == c[0] else [y]
        return (c[0], tuple(sorted(out, key=repr)))
    if c and c[2] == "" and c[0] in ("Div", "Sub"):
        return (c[0],) + tuple(canon(x) for x in c[1])
    return s


ZERO = r"(0|Zero::zero\(\)|Default::default\(\))"


def zeros(x):
    """renderings of the statement that X is zero / is not"""
    e = re.escape(x)
    return re.compile(rf"^(Zero::is_zero\({e}\)|is_zero\({e}\)|{e} (eq|le) {ZERO}|{ZERO} (eq|ge) {e})$"), re.compile(rf"^(!(Zero::)?is_zero\({e}\)|{e} (ne|gt) {ZERO}|{ZERO} (ne|lt) {e})$")


def nonce_rule(C, a, me, pol, fn):
    """the nonce is set to the policy's epoch when there is one and left alone otherwise"""
    asg = [e for e in a.effects() if e.loc == f"{me}.nonce"]
    for e in asg:
        C.ob("nonce", f"{fn}: the nonce becomes the epoch given", e.op == "assign" and e.args[0] == f"{pol}.SetFromEpoch.0", str(e.args), e.where)
    C.floor(f"{fn} nonce updates", len(asg), 1)
    need(C, a, "nonce", f"{fn}: the nonce is kept unless told otherwise", asg, f"{pol} is SetFromEpoch")
    b = a.under(lambda s: s == f"{pol} is KeepAsIs")
    C.must_pass(b, "nonce", f"{fn}: the nonce is always updated when told to", [e for e in b.effects() if e.loc == f"{me}.nonce"], oks(b), "a success without the nonce update is reachable")


def no_change_on_error(C, a, me, fn):
    ch = [e for e in a.effects() if e.root == me or e.root.startswith(me + ".") or str(e.loc).startswith(me + ".")]
    C.never_after(a, "rejected", f"{fn}: a rejected change alters nothing", ch, [r for r in errs(a)], "the entry is changed before the rejection")


def stake_level(C):
    cap = mkeys(C, "CapabilityMap::get", "CapabilityMap::update")
    # adding
    a = C.A(DS, "Stake", "add_stake", no_inline=cap)
    me, coins, epoch, pol, low = params(a)
    after = ("Add", tuple(sorted([f"{me}.coins", coins], key=repr)))
    bal = [e for e in a.effects() if e.loc == f"{me}.coins"]
    C.floor("balance updates when adding", len(bal), 1)
    for e in bal:
        C.ob("balance", "add: old balance plus the amount", e.op == "assign" and canon(e.args[0]) == after or e.op == "add_assign" and e.args[0] == coins, str(e.args), e.where)
    C.never_after(a, "balance", "add: once", bal, bal, "the balance is increased twice")
    C.must_pass(a, "balance", "add: always", bal, oks(a), "success without adding the amount")
    for r in oks(a):
        s = a.s(payload(a, r))
        C.ob("balance", "add: reports the new balance", canon(s) == after or s == f"{me}.coins", s, a.where(r.pid))
    low_ok, low_no = re.compile(rf"^{coins} ge {low}$"), re.compile(rf"^{coins} lt {low}$")
    need(C, a, "limits", "add: not less than the minimum", oks(a), low_ok)
    reasons(C, a, "limits", "add: rejected only below the minimum", errs(a), low_no)
    no_change_on_error(C, a, me, "add")
    nonce_rule(C, a, me, pol, "add")
    # ages
    ups = []
    for c in a.calls():
        if c.f["name"] == "update" and c.nargs == 3 and "CapabilityMap" in str(c.f.get("key")) + c.name:
            ups.append((c.arg(1), c.arg(2), c))
    for e in a.effects():
        m = re.fullmatch(rf"{me}\.epochs\.(\w+)", str(e.loc))
        if m and e.op == "assign":
            ups.append((m.group(1), e.args[0], e))
    C.floor("age updates", len(ups), 1)
    P = lambda x: f"PrecisionLoss::lose_precision({x}, ?u8)"
    for k, v, e in ups:
        olds = {f"CapabilityMap::get({me}.epochs, {k})"} | {f"{me}.epochs.{k}"}
        wants = [("Div", ("Add", tuple(sorted([("Mul", tuple(sorted([P(f"{me}.coins"), o], key=repr))), ("Mul", tuple(sorted([P(coins), epoch], key=repr)))], key=repr))), P(t)) for o in olds for t in (f"Add({me}.coins, {coins})", f"Add({coins}, {me}.coins)")]
        C.ob("age", "each age becomes the average weighted by the coins", canon(v) in wants, f"{k}: {v}", e.where)
    loops = {k[5:-1] for k, v, e in ups if k.startswith("elem(")}
    both_caps = lambda s: s.count("Capability::Mining") == 1 and s.count("Capability::Witnessing") == 1
    if loops:
        for L in loops:
            C.ob("age", "every capability is covered", both_caps(L), L, a.fn["span"])
        per_element(C, a, "age", "every capability is updated", list(loops), oks(a), "the loop over the capabilities runs to its end", nodes=[e for k, v, e in ups])
    else:
        for n in ("mining", "witnessing"):
            C.must_pass(a, "age", f"{n} age is updated", [e for k, v, e in ups if n in k.lower()], oks(a), "success without the update")
    # removing
    b = C.A(DS, "Stake", "remove_stake", no_inline=cap)
    me, coins, pol, low = params(b)
    left = f"Sub({me}.coins, {coins})"
    bal = [e for e in b.effects() if e.loc == f"{me}.coins"]
    C.floor("balance updates when removing", len(bal), 1)
    for e in bal:
        C.ob("balance", "remove: old balance minus the amount", e.op == "assign" and e.args[0] == left or e.op == "sub_assign" and e.args[0] == coins, str(e.args), e.where)
    C.never_after(b, "balance", "remove: once", bal, bal, "the balance is decreased twice")
    C.must_pass(b, "balance", "remove: always", bal, oks(b), "success without removing the amount")
    for r in oks(b):
        s = b.s(payload(b, r))
        C.ob("balance", "remove: reports the new balance", s in (left, f"{me}.coins"), s, b.where(r.pid))
    need(C, b, "limits", "remove: no more than is staked", bal, re.compile(rf"^{me}\.coins ge {coins}$"))
    z, nz = zeros(left)
    eq = re.compile(rf"^({me}\.coins eq {coins}|{coins} eq {me}\.coins)$")
    need(C, b, "limits", "remove: nothing or at least the minimum remains", bal, z, eq, re.compile(rf"^{re.escape(left)} ge {low}$"))
    reasons(C, b, "limits", "remove: rejected only for these reasons", errs(b), re.compile(rf"^({me}\.coins lt {coins}|{re.escape(left)} lt {low})$"))
    short = b.under(lambda s: s == f"{me}.coins lt {coins}" or s == f"{coins} gt {me}.coins")
    reasons(C, short, "limits", "remove: everything may be removed", errs(short), nz, re.compile(rf"^({me}\.coins ne {coins}|{coins} ne {me}\.coins|{me}\.coins gt {coins})$"))
    no_change_on_error(C, b, me, "remove")
    nonce_rule(C, b, me, pol, "remove")
    aged = [e for e in b.effects() if ".epochs" in str(e.loc) or e.root.endswith(".epochs")]
    C.ob("age", "removing leaves the ages alone", not aged, str(aged), aged[0].where if aged else b.fn["span"])
    # power and resets
    c = C.A(DS, "Stake", "power", no_inline=cap)
    me, kind, now = params(c)
    base = ("CapabilityMap::get(%s.epochs, %s)" % (me, kind))
    want = ("Mul", tuple(sorted([P(f"{me}.coins"), f"Saturating::saturating_sub({now}, {base})"], key=repr)))
    for s in c.ret_values():
        C.ob("power", "coins times the age since the last use of that capability, never negative", canon(s) == want, s, c.fn["span"])
    d = C.A(DS, "Stake", "reset_age", no_inline=cap)
    me, kind, at = params(d)
    up = [x for x in d.calls() if x.f["name"] == "update"]
    C.ob("age", "resetting sets the age of that capability", len(sites(d, up)) == 1 and all(x.args[1:] == [kind, at] for x in up), str(up), d.fn["span"])
    C.must_pass(d, "age", "resetting always happens", up, d.rets(), "returns without the reset")
    ch = [e for e in d.param_effects(me) if e.op != "update"]
    C.ob("age", "resetting changes nothing else", not ch, str(ch), d.fn["span"])
    # the map of ages
    g = C.A(DS, "CapabilityMap", "get")
    me, k = params(g)
    for v, o in (("Mining", "Witnessing"), ("Witnessing", "Mining")):
        h = g.under(lambda s: s == f"{k} is {o}")
        C.returns_only(h, "ages", f"get: {v}", [f"{me}.{v.lower()}"])
    u = C.A(DS, "CapabilityMap", "update")
    me, k, val = params(u)
    for v, o in (("Mining", "Witnessing"), ("Witnessing", "Mining")):
        h = u.under(lambda s: s == f"{k} is {o}")
        ef = [e for e in h.effects()]
        C.ob("ages", f"update: {v} alone", ef and all(e.loc == f"{me}.{v.lower()}" and e.args == [val] for e in ef), str(ef), u.fn["span"])
        C.must_pass(h, "ages", f"update: {v} always", ef, h.rets(), "returns without the update")


def held(s, me, key):
    """S is the value guarded inside the entry of ME.by_key under KEY"""
    m = re.fullmatch(r"write\((.*)\.value\)\.Ok\.0", s)
    if not m:
        return None
    from wf.maps import slot
    k = slot(m.group(1))
    if k is None and re.fullmatch(rf"(insert|insert_entry|into_mut|get_mut|get)\(entry\({me}\.by_key, {key}\)\.(Vacant|Occupied)\.0.*\)", m.group(1)):
        k = (f"{me}.by_key", key)
    return m.group(1) if k == (f"{me}.by_key", key) else None


def present(me, key):
    k = re.escape(key)
    return (re.compile(rf"^(contains_key\({me}\.by_key, {k}\)|get(_mut)?\({me}\.by_key, {k}\) is Some|entry\({me}\.by_key, {k}\) is Occupied)$"),
            re.compile(rf"^(!contains_key\({me}\.by_key, {k}\)|get(_mut)?\({me}\.by_key, {k}\) is None|entry\({me}\.by_key, {k}\) is Vacant)$"))


def poisoned(a):
    return a.edges_matching(lambda s: re.match(r"^(write|read)\(.*\) is Err$", s))


def policies(C, a, calls, i, flag, epoch, fn):
    for contra, want in ((f"!{flag}", f"NoncePolicy::SetFromEpoch{{0: {epoch}}}"), (flag, "NoncePolicy::KeepAsIs{}")):
        b = a.under(lambda s: s == contra)
        for c in b.calls():
            if c.f["name"] == calls:
                C.ob("forward", f"{fn}: the nonce is set exactly when asked", c.arg(i) == want, f"under not ({contra}): {c.arg(i)}", c.where)


def accepted(C, a, fn, calls):
    """a success is returned only after the entry's own success"""
    rs = [r for r in oks(a) if r.variant == "Ok"]
    need(C, a, "forward", f"{fn}: succeeds only when the entry accepted", rs, succeeded(a, calls), what="a success without the entry's own success is reachable")


def ok_payload(a, r):
    s = a.s(payload(a, r))
    m = re.fullmatch(r"Result::Ok\{0: (.*)\}(\.Ok\.0)?", s)
    return m.group(1) if m else s


def tracker_add(C):
    ni = mkeys(C, "Stake::add_stake", "SyncStakeEntry::read_value") + keys(C, "index_addresses")
    a = C.A(DS, "Stakes", "add_stake", no_inline=ni)
    me, key, coins, epoch, flag, low = params(a)
    adds = [c for c in a.calls() if c.f["name"] == "add_stake"]
    C.floor("balance changes when adding", len(sites(a, adds)), 1)
    for c in adds:
        C.ob("forward", "add: to the entry of that key", held(c.arg(0), me, key), c.arg(0)[:200], c.where)
        C.ob("forward", "add: amount, epoch and minimum as given", (c.arg(1), c.arg(2), c.arg(4)) == (coins, epoch, low), str(c.args[1:]), c.where)
    policies(C, a, "add_stake", 3, flag, epoch, "add")
    accepted(C, a, "add", adds)
    C.never_after(a, "forward", "add: once", adds, adds, "added twice")
    # a new entry is indexed or dropped again; an old one is left where it is
    yes, no = present(me, key)
    bad = poisoned(a)
    new = a.under(lambda s: yes.search(s))
    made = [e for e in new.effects() if e.root == f"{me}.by_key" and ("insert" in e.op)]
    gone = [e for e in new.effects() if e.root == f"{me}.by_key" and "remove" in e.op and e.args[:1] in ([key], [])]
    idx = [c for c in new.calls() if c.f["name"] == "index_addresses"]
    C.floor("entries created", len(made), 1)
    for c in idx:
        ent = [x for x in c.args[3:4]]
        ok = c.args[:3] == [f"{me}.by_validator", f"{me}.by_withdrawer", key]
        C.ob("index", "a new entry is indexed under its own key", ok and ent and any(held(f"write({x}.value).Ok.0", me, key) or x.startswith("SyncStakeEntry{") for x in ent), str(c.args)[:300], c.where)
    okr = {r.pid for r in oks(new) if r.variant == "Ok"}
    C.must_pass(new, "index", "a new entry is indexed before success", idx, okr, "a success without indexing the new entry")
    for e in made:
        p = None
        for _, y in new.p.nodes[e.pid].succ:
            p = p or new.paths_avoiding([r.pid for r in new.rets()], cut_nodes=[x.pid for x in idx + gone], cut_edges=poisoned(new), start=y)
        C.ob("index", "a new entry is indexed or dropped again", p is None, "a return leaves a new entry out of the other indexes", e.where, new.describe(p) if p else None)
    C.never_after(new, "index", "an indexed entry stays", idx, gone, "dropped after indexing")
    C.never_after(new, "index", "indexed once", idx, idx, "indexed twice")
    er = [r for r in new.rets() if r.variant == "Err"]
    refused = succeeded(new, [c for c in new.calls() if c.f["name"] == "add_stake"], ("Err",))
    for i, l in refused:
        for ll, y in new.p.nodes[i].succ:
            if ll == l:
                C.ob("index", "a refused first stake is not indexed", not (new.reach([y]) & {x.pid for x in idx}), "indexing is reachable after the refusal", new.where(i))
    C.ob("index", "a refused first stake is seen", bool(refused), "the entry's refusal is not examined", a.fn["span"])
    old = a.under(lambda s: no.search(s))
    o1 = [c for c in old.calls() if c.f["name"] == "index_addresses"]
    o2 = [e for e in old.effects() if e.root == f"{me}.by_key" and ("remove" in e.op)]
    C.ob("index", "an existing entry is neither indexed again nor dropped", not o1 and not o2, f"{o1}{o2}", o1[0].where if o1 else o2[0].where if o2 else a.fn["span"])
    o3 = [e for e in old.effects() if e.root == f"{me}.by_key" and e.op == "insert" and old.reach([e.pid])]
    C.ob("index", "an existing entry is not replaced", not o3, str(o3)[:200], o3[0].where if o3 else a.fn["span"])
    # what a new entry holds
    for c in new.calls():
        if c.f["name"] == "new" and "RwLock" in c.name:
            s = c.arg(0)
            if s.startswith("Stake{"):
                C.ob("fresh", "a new entry starts without coins", re.search(rf"\bcoins: ({ZERO}|Default::default\(\)\.coins)(,|}})", s), s[:200], c.where)
            else:
                C.ob("fresh", "a new entry carries its key", s == key or s == f"StakeKey{{validator: {key}.validator, withdrawer: {key}.withdrawer}}", s[:200], c.where)
    for e in new.effects():
        m = re.search(r"\.key\)\.Ok\.0\.(validator|withdrawer)$", str(e.loc))
        if m:
            C.ob("fresh", "a new entry carries its key", e.args == [f"{key}.{m.group(1)}"], str(e.args), e.where)
    for r in oks(a):
        if r.variant == "Ok":
            s = ok_payload(a, r)
            C.ob("forward", "add: reports the entry", re.match(r"^(read|write)\(.*\.value\)\.Ok\.0$|^SyncStakeEntry::read_value\(", s), s[:200], a.where(r.pid))


def tracker_remove(C):
    ni = mkeys(C, "Stake::remove_stake", "SyncStakeEntry::read_value") + keys(C, "index_addresses")
    a = C.A(DS, "Stakes", "remove_stake", no_inline=ni)
    me, key, coins, epoch, flag, low = params(a)
    rem = [c for c in a.calls() if c.f["name"] == "remove_stake"]
    C.floor("balance changes when removing", len(sites(a, rem)), 1)
    for c in rem:
        C.ob("forward", "remove: from the entry of that key", held(c.arg(0), me, key), c.arg(0)[:200], c.where)
        C.ob("forward", "remove: amount and minimum as given", (c.arg(1), c.arg(3)) == (coins, low), str(c.args[1:]), c.where)
    policies(C, a, "remove_stake", 2, flag, epoch, "remove")
    okr = [r for r in oks(a) if r.variant == "Ok"]
    accepted(C, a, "remove", rem)
    C.never_after(a, "forward", "remove: once", rem, rem, "removed twice")
    lefts = {a.s(c.value) + ".Ok.0" for c in rem}
    joined = set()
    for r in okr:
        s = a.s(payload(a, r))
        joined.add(s)
        parts = {a.s(x) for x in alts(a, payload(a, r))}
        C.ob("forward", "remove: reports what remains", parts <= lefts or all(any(l in p for l in lefts) for p in parts) or held(s[: -len(".coins")], me, key), s[:200], a.where(r.pid))
    L = lefts | joined | {a.s(c.val(0)) + ".coins" for c in rem}
    empt = [zeros(x) for x in L]
    isz = lambda s: any(z.search(s) for z, n in empt)
    notz = lambda s: any(n.search(s) for z, n in empt)
    C.ob("index", "whether anything remains is tested", bool(a.edges_matching(isz)), f"no test that the remainder is zero", a.fn["span"])
    maps_ = [(f"{me}.by_validator", f"{key}.validator"), (f"{me}.by_withdrawer", f"{key}.withdrawer")]
    # something remains: every index stays as it is
    some = a.under(isz)
    ch = [e for e in some.effects() if e.root in (f"{me}.by_key",) + tuple(m for m, k in maps_) and re.search(r"remove|insert|push|retain|clear|pop|truncate|drain", e.op)]
    C.ob("index", "an entry with coins left stays in every index", not ch, str(ch)[:300], ch[0].where if ch else a.fn["span"])
    # nothing remains: dropped from every index
    none = a.under(notz)
    ends = [r for r in oks(none) if r.variant == "Ok"]
    drop = [e for e in none.effects() if e.root == f"{me}.by_key" and "remove" in e.op and e.args[:1] in ([key], [])]
    C.must_pass(none, "index", "an empty entry is dropped by key", drop, ends, "a success keeps an entry without coins")
    for m, k in maps_:
        lst = re.compile(rf"^get_mut\({re.escape(m)}, {re.escape(k)}\)\.Some\.0$|^(get_mut|into_mut)\(entry\({re.escape(m)}, {re.escape(k)}\)\.Occupied\.0.*\)$")
        take = [e for e in none.effects() if e.op in ("remove", "swap_remove", "retain") and e.root == m and e.call and lst.search(e.call.arg(0))]
        name = m.split(".")[-1]
        C.floor(f"{name} removals", len(take), 1)
        absent = re.compile(rf"^(get_mut|get)\({re.escape(m)}, {re.escape(k)}\) is None$|^entry\({re.escape(m)}, {re.escape(k)}\) is Vacant$|^!contains_key\({re.escape(m)}, {re.escape(k)}\)$")
        need(C, none, "index", f"an empty entry is dropped from {name}", ends, absent, cut_nodes=take, what="a success keeps an empty entry in the index")
        for e in take:
            L0 = e.call.arg(0)
            if e.op != "retain":
                C.ob("index", f"{name}: the place dropped was found in that list", e.args[0].startswith("position_index(") and L0 in e.args[0], e.args[0][:200], e.where)
                q = re.escape(f"elem({L0})")
                # (by its coins is not enough: an entry emptied by a collateral stays, and may come first)
                itself = re.compile(rf"^(.*{q}.*key.* eq .*{re.escape(key)}.*|.*{re.escape(key)}.* eq .*{q}.*key.*|.*ptr_eq\(.*{q}.*\))$")
                C.ob("index", f"{name}: the place dropped is the empty entry's", none.forced([e.pid], lambda s: bool(itself.search(s))), "the removed element is not tested to be the empty one", e.where)
        outer = [e for e in none.effects() if e.op in ("remove", "Entry::remove", "remove_entry") and e.root == m and e not in take]
        emp = none.edges_matching(lambda s: bool(re.match(r"^is_empty\(", s)) and lst.search(s[9:-1]) is not None)
        full = none.edges_matching(lambda s: bool(re.match(r"^!is_empty\(", s)) and lst.search(s[10:-1]) is not None)
        C.ob("index", f"{name}: a list left empty is dropped", bool(emp) and bool(outer), "no test whether the list is empty", a.fn["span"])
        for e in outer:
            C.ob("index", f"{name}: only that list is dropped", e.args[:1] in ([k], []), str(e.args), e.where)
            C.ob("index", f"{name}: only an empty list is dropped", none.paths_avoiding([e.pid], cut_edges=emp) is None, "a list with other entries can be dropped", e.where)
        for i, l in emp:
            for ll, y in none.p.nodes[i].succ:
                if ll == l:
                    C.ob("index", f"{name}: a list left empty is always dropped", none.paths_avoiding([r.pid for r in ends], cut_nodes=[e.pid for e in outer], start=y) is None, "an empty list can stay", none.where(i))
    yes, no = present(me, key)
    gone = a.under(lambda s: yes.search(s))
    C.ob("rejected", "remove: an unknown key is reported", gone.rets() and all(r.variant == "Err" for r in gone.rets()), str([r.s for r in gone.rets()])[:200], a.fn["span"])
    C.ob("rejected", "remove: an unknown key changes nothing", not [e for e in gone.param_effects(me)], str(gone.param_effects(me))[:200], a.fn["span"])


def indexing(C):
    a = C.fnA(DS, "index_addresses")
    bv, bw, key, stake = params(a)
    for m, k in ((bv, f"{key}.validator"), (bw, f"{key}.withdrawer")):
        put = []
        for e in a.effects():
            if e.root != m or not e.call:
                continue
            if e.op == "push":
                c0 = e.call.arg(0)
                okk = c0 in (f"get_mut({m}, {k}).Some.0", f"or_default(entry({m}, {k}))") or re.fullmatch(rf"(or_insert|or_insert_with|or_insert_with_key)\(entry\({re.escape(m)}, {re.escape(k)}\), .*\)|(get_mut|into_mut)\(entry\({re.escape(m)}, {re.escape(k)}\)\.Occupied\.0\)", c0)
                put.append((e, okk and e.args == [stake]))
            elif e.op == "insert":
                first = e.call.arg(0) == m and e.args == [k, f"vec[{stake}]"] or e.args == [f"vec[{stake}]"]
                put.append((e, first))
                need(C, a, "index", "a list is started only where there is none", [e], f"get_mut({m}, {k}) is None", f"get({m}, {k}) is None", f"!contains_key({m}, {k})", f"entry({m}, {k}) is Vacant")
            elif e.op in ("Entry::or_insert", "or_insert", "Entry::or_insert_with", "or_default", "Entry::or_default", "or_insert_with"):
                C.ob("index", "a list is started empty", not e.args or e.args[0] in ("vec[]", "Vec::new()") or e.op.endswith("with") or e.op.endswith("default"), str(e.args)[:100], e.where)
            else:
                put.append((e, e.op in ("get_mut", "entry", "deref_mut")))
        for e, good in put:
            C.ob("index", f"the entry is listed under its {k.split('.')[1]}", good, f"{e}"[:300], e.where)
        ok = [e for e, good in put if good and e.op in ("push", "insert")]
        C.must_pass(a, "index", f"the entry is always listed under its {k.split('.')[1]}", ok, a.rets(), "returns without listing the entry")
        C.never_after(a, "index", f"the entry is listed under its {k.split('.')[1]} once", ok, ok, "listed twice")
    b = C.A(DS, "Stakes", "reindex", no_inline=keys(C, "index_addresses"))
    me = params(b)[0]
    cl = {n: [e for e in b.effects() if e.root == f"{me}.{n}" and (e.op in ("clear", "assign") or str(e.loc) == f"{me}.{n}" and e.op == "assign")] for n in ("by_validator", "by_withdrawer")}
    idx = [c for c in b.calls() if c.f["name"] == "index_addresses"]
    for n, e in cl.items():
        C.must_pass(b, "index", f"rebuilding starts from an empty {n}", e, idx, "entries are added to the old index")
        C.must_pass(b, "index", f"rebuilding always empties {n}", e, b.rets(), "returns without emptying the index")
        C.never_after(b, "index", f"rebuilding does not lose {n}", idx, e, "the index is emptied after entries were added")
    E = f"elem({me}.by_key)"
    for c in idx:
        C.ob("index", "rebuilding lists every entry under its own key", c.args[2:] == [f"{E}.0", f"{E}.1"] and c.arg(0).startswith(f"{me}.by_validator") and c.arg(1).startswith(f"{me}.by_withdrawer"), str(c.args), c.where)
    per_element(C, b, "index", "rebuilding covers every entry", [f"{me}.by_key"], b.rets(), "the loop over the entries runs to its end", nodes=idx)


def transactions(C):
    ni = mkeys(C, "Stakes::add_stake", "Stakes::remove_stake", "PublicKeyHash::bech32") + keys(C, "get_environment", "wits_and_nanowits")
    for fn, op, kind in (("process_stake_transaction", "add_stake", "stake"), ("process_unstake_transaction", "remove_stake", "unstake")):
        a = C.fnA(DS, fn, no_inline=ni)
        st, tx, epoch, low = params(a)
        cs = [c for c in a.calls() if c.f["name"] == op]
        C.floor(f"{kind} transactions applied", len(sites(a, cs)), 1)
        for c in cs:
            b = f"{tx}.body"
            if kind == "stake":
                k = (f"{b}.output.key", f"StakeKey{{validator: {b}.output.key.validator, withdrawer: {b}.output.key.withdrawer}}")
                amt = (("Wit", f"{b}.output.value"),)
            else:
                k = (f"StakeKey{{validator: {b}.operator, withdrawer: {b}.withdrawal.pkh}}",)
            m = re.fullmatch(r"Wit\{0: (.*)\}", c.arg(2))
            want = {f"{b}.output.value": 1} if kind == "stake" else {f"{b}.withdrawal.value": 1, f"{b}.fee": 1}
            t = a.v.t(a.n.peel(c.val(2)))
            got = form(lin(a, t[4][0])) if t[0] == "agg" else None
            C.ob("transaction", f"{kind}: the transaction's own key", c.arg(1) in k, c.arg(1), c.where)
            C.ob("transaction", f"{kind}: the transaction's own amount", m and got == form(want), c.arg(2), c.where)
            C.ob("transaction", f"{kind}: epoch, nonce and minimum", c.arg(0) == st and c.args[3:] in ([epoch, "1", low], [epoch, "1", f"Wit{{0: {low}}}"]), str(c.args[3:]), c.where)
            C.propagates(a, "transaction", f"{kind}: a refusal is reported", c)
        must_call(C, a, "transaction", f"{kind}: always applied", cs, oks(a), "success without applying the transaction")
        C.never_after(a, "transaction", f"{kind}: applied once", cs, cs, "applied twice")
        b = C.fnA(DS, fn + "s", no_inline=keys(C, fn))
        st, txs, epoch, low = params(b)
        cs = [c for c in b.calls() if c.f["name"] == fn]
        for c in cs:
            C.ob("transaction", f"{kind}s: each against the same state", c.args == [st, f"elem({txs})", epoch, low], str(c.args), c.where)
        per_element(C, b, "transaction", f"{kind}s: all of them, in order", [txs], oks(b), "every transaction is applied", cut=edges(b, *[f"{b.s(c.value)} is Ok" for c in cs]))


def through_validator(C):
    for fn, op, args in (("add_reward", "add_stake", ("coins", "epoch", "NoncePolicy::KeepAsIs{}", "0")), ("reserve_collateral", "remove_stake", ("coins", "NoncePolicy::KeepAsIs{}", "low"))):
        a = C.A(DS, "Stakes", fn, no_inline=mkeys(C, "Stake::add_stake", "Stake::remove_stake"))
        ps = params(a)
        me, val, coins, last = ps
        want = [{"coins": coins, "epoch": last, "low": last}.get(x, x) for x in args]
        cs = [c for c in a.calls() if c.f["name"] == op]
        C.floor(f"{fn} changes", len(sites(a, cs)), 1)
        for c in cs:
            ok = re.fullmatch(rf"write\(get(_mut)?\({me}\.by_validator, {val}\)\.Some\.0(\[0\]|\.0)?\.value\)\.Ok\.0|write\(first(_mut)?\(get(_mut)?\({me}\.by_validator, {val}\)\.Some\.0\)\.Some\.0\.value\)\.Ok\.0", c.arg(0))
            C.ob("validator", f"{fn}: an entry of that validator", ok, c.arg(0), c.where)
            C.ob("validator", f"{fn}: amount and rules as given", c.args[1:] == want, str(c.args[1:]), c.where)
            if fn == "reserve_collateral":
                C.propagates(a, "validator", f"{fn}: a refusal is reported", c)
        C.must_pass(a, "validator", f"{fn}: always applied", cs, oks(a), "success without the change")
        C.never_after(a, "validator", f"{fn}: applied once", cs, cs, "applied twice")


@prop("D03", [DS],
      "MIR effect and provenance analysis of the stakes tracker: exact balance updates, guards, index typestate over all paths, argument provenance",
      "Every function that changes a stake is analysed on all paths: which value is written to balance, age and nonce (unordered arithmetic normal forms), under which guards, that nothing is written before a rejection, that a new entry is indexed or dropped again and an emptied one leaves every index, and that stake and unstake transactions hand over exactly their own key and amount. Arithmetic of the generic coin and epoch types is trusted; a poisoned lock is not considered.")
def d03(C):
    stake_level(C)
    tracker_add(C)
    tracker_remove(C)
    indexing(C)
    transactions(C)
    through_validator(C)


COMM = {"Add", "Mul", "saturating_add", "saturating_mul", "min", "max", "add", "mul", "wrapping_add"}


def shape(s):
    """a rendered term as nested tuples: casts dropped, arguments of commutative operations unordered"""
    s = s.strip()
    while True:
        m = re.fullmatch(r"\((.*) as \w+\)", s)
        if not m:
            break
        s = m.group(1)
    c = split_call(s)
    if c and c[2]:
        return (c[2], shape(s[: -len(c[2])]))
    if c:
        n = c[0].split("::")[-1]
        n = {"div": "Div", "sub": "Sub", "add": "Add", "mul": "Mul"}.get(n, n)
        xs = [shape(x) for x in c[1]]
        if n in COMM and len(xs) == 2:
            out = []
            for x in xs:
                out += list(x[1]) if isinstance(x, tuple) and x[0] == n and n in ("Add", "Mul") else [x]
            return (n, tuple(sorted(out, key=repr)))
        return (n,) + tuple(xs)
    return s


def same(s, *wants):
    return shape(s) in [shape(w) for w in wants]


def entries(a, s, src):
    """S is the list of READ of every element of SRC (a collected map): returns the pushed terms"""
    return [c for c in a.calls() if c.f["name"] == "collect_push" and c.arg(0) == s]


def ranking(C):
    a = C.A(DS, "Stakes", "by_rank", no_inline=mkeys(C, "Stake::power", "SyncStakeEntry::read_value"))
    me, cap, now = params(a)
    # the comparison
    body = None
    for f in closures(C, a.fn):
        b = C.an(f, no_inline=mkeys(C, "Stake::power", "SyncStakeEntry::read_value"))
        if f.get("args") == 3 and any("cmp" in r.s or "Ordering" in r.s for r in b.rets()):
            body = b
    src = None
    for r in a.rets():
        s, turns, rest = r.s, 0, None
        while True:
            c = split_call(s)
            n = c[0].split("::")[-1] if c else ""
            if n == "rev" and len(c[1]) == 1:
                turns, s = turns + 1, c[1][0]
            elif n in ("into_iter", "iter", "cloned", "Box::new") and len(c[1]) == 1:
                s = c[1][0]
            elif n in ("sorted_by", "sorted_unstable_by") and len(c[1]) == 2 and rest is None:
                rest, s = "sorted", c[1][0]
            else:
                break
        ef = [e for e in a.effects() if e.op.split("::")[-1] in ("sort_by", "sort_unstable_by", "reverse")]
        if rest is None and any("sort" in e.op for e in ef):
            rest = "sorted"
            turns += sum(1 for e in ef if e.op.endswith("reverse"))
        C.ob("rank", "the entries are ordered by the comparison", rest == "sorted" and body is not None, r.s[:200], a.where(r.pid))
        src = (s, turns)
        m = split_call(s)
        listed = m and m[0].split("::")[-1] == "map" and m[1][0] in (f"{me}.by_key", f"iter({me}.by_key)") or s == "iter::collect_new()"
        C.ob("rank", "every entry is ranked, none left out", listed, s[:200], a.where(r.pid))
    if body is None or src is None:
        return
    sign = -1 if src[1] % 2 == 0 else 1
    X, Y = "arg2", "arg3"
    pairs = [("power", f"{X}.1", f"{Y}.1"), ("validator", f"{X}.0.validator", f"{Y}.0.validator"), ("withdrawer", f"{X}.0.withdrawer", f"{Y}.0.withdrawer")]

    def want(env):
        for k in ("power", "validator", "withdrawer"):
            if env[k]:
                return env[k] * sign
        return 0
    Order(pairs).decide(C, body, "rank", "more power first, then the greater validator, then the greater withdrawer", want)
    # the power compared is the entry's own
    P = lambda e: f"Stake::power(SyncStakeEntry::read_value({e}.1), {{}}, {{}})"
    good = False
    for f in closures(C, a.fn):
        b = C.an(f, no_inline=mkeys(C, "Stake::power", "SyncStakeEntry::read_value"))
        for r in b.rets():
            if r.s.startswith("tuple{"):
                good = r.s == "tuple{0: arg2.0, 1: " + P("arg2").format("arg1.0", "arg1.1") + "}"
                C.ob("rank", "each entry is ranked by its own power in that capability at that epoch", good, r.s[:300], b.where(r.pid))
    up = [c for c in a.calls() if c.f["name"] == "collect_push"]
    for c in up:
        E = f"elem({me}.by_key)"
        good = c.arg(1) == "tuple{0: " + E + ".0, 1: " + P(E).format(cap, now) + "}"
        C.ob("rank", "each entry is ranked by its own power in that capability at that epoch", good, c.arg(1)[:300], c.where)
    C.ob("rank", "the power of each entry is found", good, "", a.fn["span"])


def queries(C):
    ni = mkeys(C, "Stake::power", "SyncStakeEntry::read_value", "SyncStakeEntry::read_entry", "CapabilityMap::get", "CapabilityMap::update", "Stakes::by_rank", "Stakes::query_stakes", "Stakes::query_by_key", "Stakes::query_by_validator", "Stakes::query_by_withdrawer", "Stakes::query_all")
    A = lambda n: C.A(DS, "Stakes", n, no_inline=ni)

    def known(a, fn, tab, key, err):
        """answers only for a known key, and reports an unknown one"""
        yes, no = (re.compile(rf"^get(_mut)?\({re.escape(tab)}, {re.escape(key)}\) is Some$|^contains_key\({re.escape(tab)}, {re.escape(key)}\)$"),
                   re.compile(rf"^get(_mut)?\({re.escape(tab)}, {re.escape(key)}\) is None$|^!contains_key\({re.escape(tab)}, {re.escape(key)}\)$"))
        need(C, a, "query", f"{fn}: answers for a known key only", oks(a), yes)
        reasons(C, a, "query", f"{fn}: a known key is answered", errs(a), no, re.compile(r"is Err$"))
        for r in errs(a):
            C.ob("query", f"{fn}: the error names what is unknown", err in r.s, r.s[:200], a.where(r.pid))

    def listed(a, fn, coll, term, ends):
        """the answer is the list of TERM for every element of COLL, in order"""
        for r in ends:
            s = ok_payload(a, r) if r.variant == "Ok" else r.s
            C.ob("query", f"{fn}: answers a list", s == "iter::collect_new()", s[:200], a.where(r.pid))
        push = [c for c in a.calls() if c.f["name"] == "collect_push"]
        for c in push:
            C.ob("query", f"{fn}: lists each entry as it is", c.arg(1) in term, c.arg(1)[:300], c.where)
        per_element(C, a, "query", f"{fn}: lists every entry", coll, ends, "each entry is listed", nodes=push)
    a = A("query_power")
    me, val, cap, now = params(a)
    L = f"get({me}.by_validator, {val}).Some.0"
    known(a, "power", f"{me}.by_validator", val, "ValidatorNotFound")
    T = {f"Stake::power(SyncStakeEntry::read_value(elem({L})), {cap}, {now})", f"Stake::power(read(elem({L}).value).Ok.0, {cap}, {now})"}
    pw = [c for c in a.calls() if c.f["name"] == "power"]
    C.ob("query", "power: of the validator's entries", bool(pw) and {a.s(c.value) for c in pw} <= T, str([c.args for c in pw])[:300], a.fn["span"])
    push = [c for c in a.calls() if c.f["name"] == "collect_push"]
    for r in oks(a):
        tops = [a.s(v) for v in alts(a, a.v.projv(r.value, (("v", "Ok"), ("f", 0))))]
        tops = [re.sub(r"^Result::Ok\{0: (.*)\}\.Ok\.0$", r"\1", t) for t in tops]
        if len(tops) == 1 and tops[0].startswith("{"):
            tops = tops[0][1:-1].split(" | ")
        tops = [t for t in tops if t not in ("Default::default()", "0", "Power::from(0)")]
        tops = [re.sub(r"^finish_max\(\{(?:iter::)?consume_max\(μ, (.*)\) \| (?:iter::)?consume_start\(\)\}\)\.Some\.0$", lambda m: "max(iter::collect_new()).Some.0" if m.group(1) in T else m.group(1), t) for t in tops]
        okm = all(re.fullmatch(r"(unwrap_or_default\()?max\((iter::collect_new\(\)|map\(.*\))\)(\.Some\.0)?\)?", t) for t in tops) and tops
        C.ob("query", "power: the greatest of them", okm, str(tops)[:300], a.where(r.pid))
    if push:
        for c in push:
            C.ob("query", "power: each entry's own", c.arg(1) in T, c.arg(1)[:200], c.where)
        per_element(C, a, "query", "power: every entry counts", L, oks(a), "each entry is considered", nodes=push)
    a = A("query_nonce")
    me, key = params(a)
    known(a, "nonce", f"{me}.by_key", key, "EntryNotFound")
    for r in oks(a):
        C.ob("query", "nonce: the entry's own", ok_payload(a, r) in (f"SyncStakeEntry::read_value(get({me}.by_key, {key}).Some.0).nonce", f"read(get({me}.by_key, {key}).Some.0.value).Ok.0.nonce"), ok_payload(a, r)[:200], a.where(r.pid))
    a = A("query_by_key")
    me, key = params(a)
    known(a, "by key", f"{me}.by_key", key, "EntryNotFound")
    for r in oks(a):
        C.ob("query", "by key: the entry's own", ok_payload(a, r) == f"SyncStakeEntry::read_entry(get({me}.by_key, {key}).Some.0)", ok_payload(a, r)[:200], a.where(r.pid))
    for n in ("validator", "withdrawer"):
        a = A(f"query_by_{n}")
        me, key = params(a)
        known(a, f"by {n}", f"{me}.by_{n}", key, f"{n.capitalize()}NotFound")
        L = f"get({me}.by_{n}, {key}).Some.0"
        listed(a, f"by {n}", L, {f"SyncStakeEntry::read_entry(elem({L}))"}, oks(a))
    a = A("query_all")
    me = params(a)[0]
    listed(a, "all", [f"{me}.by_key", f"values({me}.by_key)"], {f"SyncStakeEntry::read_entry(elem({me}.by_key).1)"}, oks(a))
    a = A("query_stakes")
    me, q = params(a)
    Q = f"try_into({q}).Ok.0"
    vars_ = ("Key", "Validator", "Withdrawer", "All")
    for v in vars_:
        b = a.under(lambda s: s == f"try_into({q}) is Err" or (m := re.match(rf"^{re.escape(Q)} is ([\w/]+)$", s)) is not None and v not in m.group(1).split("/"))
        cs = [c for c in b.calls() if c.f["name"].startswith("query_")]
        want = ("query_all", [me]) if v == "All" else (f"query_by_{v.lower()}", [me, f"{Q}.{v}.0"])
        C.ob("query", f"{v}: answered by its own index", cs and all((c.f["name"], c.args) == want for c in cs), str([(c.f["name"], c.args) for c in cs])[:200], a.fn["span"])
        C.must_pass(b, "query", f"{v}: always answered from the tracker", cs, b.rets(), "an answer without consulting the tracker")
    a = A("total_staked")
    me = params(a)[0]
    E = f"elem({me}.by_key).1"
    T = {f"read({E}.value).Ok.0.coins", f"SyncStakeEntry::read_value({E}).coins"}
    push = [c for c in a.calls() if c.f["name"] == "collect_push"]
    for r in a.rets():
        if push:
            okv = r.s == "sum(iter::collect_new())"
        else:
            st, ad = sum_forms(a, r.value)
            okv = st <= {"0", "Zero::zero()", "Default::default()"} and {t for o, t in ad} <= T and ad and not may_skip(a, r.value)
        C.ob("total", "the total is a sum over the entries", okv, r.s[:200], a.where(r.pid))
    for c in push:
        C.ob("total", "each entry counts with its own coins", c.arg(1) in T, c.arg(1)[:200], c.where)
    if push:
        per_element(C, a, "total", "every entry counts", [f"{me}.by_key", f"values({me}.by_key)"], a.rets(), "each entry is added", nodes=push)
    a = C.fnA(DS, "totalize_stakes")
    it = params(a)[0]
    for r in oks(a):
        v = a.v.projv(r.value, (("v", "Ok"), ("f", 0)))
        st, ad = sum_forms(a, v)
        C.ob("total", "stakes are totalled from zero, coin by coin", st <= {"0", "Zero::zero()", "Default::default()"} and {t for o, t in ad} == {f"elem({it}).coins"} and not may_skip(a, v), f"{st} {ad}"[:300], a.where(r.pid))
    a = A("check_validator_withdrawer")
    me, val, wit = params(a)
    here = re.compile(rf"^contains_key\({me}\.by_validator, {val}\)$|^get\({me}\.by_validator, {val}\) is Some$")
    none = re.compile(rf"^!contains_key\({me}\.by_validator, {val}\)$|^get\({me}\.by_validator, {val}\) is None$")
    K = re.escape(f"StakeKey{{validator: {val}, withdrawer: {wit}}}")
    pair = re.compile(rf"^contains_key\({me}\.by_key, {K}\)$|^get\({me}\.by_key, {K}\) is Some$")
    nopair = re.compile(rf"^!contains_key\({me}\.by_key, {K}\)$|^get\({me}\.by_key, {K}\) is None$")
    need(C, a, "withdrawer", "a validator accepts only its own withdrawer", oks(a), none, pair)
    need(C, a, "withdrawer", "only a known validator refuses", errs(a), here)
    need(C, a, "withdrawer", "only another withdrawer is refused", errs(a), nopair)
    C.floor("refusals of another withdrawer", len(errs(a)), 1)


def ages(C):
    ni = mkeys(C, "Stake::reset_age", "CapabilityMap::get", "CapabilityMap::update", "Stakes::by_rank")
    a = C.A(DS, "Stakes", "reset_age", no_inline=ni)
    me, val, cap, now, fac = params(a)
    L = f"get_mut({me}.by_validator, {val}).Some.0"
    E = f"elem({L})"
    need(C, a, "age-reset", "a known validator only", oks(a), f"get_mut({me}.by_validator, {val}) is Some")
    reasons(C, a, "age-reset", "a known validator is never refused", errs(a), f"get_mut({me}.by_validator, {val}) is None")
    ups = [c for c in a.calls() if c.f["name"] == "update"]
    C.floor("age resets", len(ups), 1)
    OLD = [f"CapabilityMap::get({g}({E}.value).Ok.0.epochs, {cap})" for g in ("read", "write")]
    for c in ups:
        C.ob("age-reset", "of that capability alone", c.arg(0) == f"write({E}.value).Ok.0.epochs" and c.arg(1) == cap, str(c.args[:2]), c.where)
        C.ob("age-reset", "moves by its share of the age", same(c.arg(2), *[f"Add({o}, div(Sub({now}, {o}), {fac}))" for o in OLD], *[f"Add({o}, Div(Sub({now}, {o}), {fac}))" for o in OLD]), c.arg(2)[:300], c.where)
    per_element(C, a, "age-reset", "every entry of the validator", L, oks(a), "each entry is reset", nodes=ups)
    # after mining
    a = C.A(DS, "Stakes", "reset_mining_age", no_inline=ni)
    me, val, now = params(a)
    R = f"Stakes::by_rank({me}, Capability::Mining{{}}, {now})"
    rs = [c for c in a.calls() if c.f["name"] == "by_rank"]
    C.ob("age-penalty", "the rank is the mining rank at that epoch", rs and all(a.s(c.value) == R for c in rs), str([c.args for c in rs]), a.fn["span"])
    a.call({f"position_index({R})": "WIN"})
    found = edges(a, re.compile(rf"^elem\({re.escape(R)}\)\.0\.validator eq {val}$|^{val} eq elem\({re.escape(R)}\)\.0\.validator$"))
    C.ob("age-penalty", "the winner is the first entry of that validator", bool(found), "the validator is not searched in the rank", a.fn["span"])
    rst = [c for c in a.calls() if c.f["name"] == "reset_age"]
    upd = [c for c in a.calls() if c.f["name"] == "update"]
    C.floor("mining age penalties", len(rst + upd), 1)
    takes = [c for c in a.calls() if c.f["name"] == "take"]
    for c in takes:
        C.ob("age-penalty", "the winner and all those ranked above it", c.arg(0) == R and same(c.arg(1), "Add(1, WIN)"), str(c.args)[:200], c.where)
    C.floor("selection of the penalized", len(takes), 1)
    LST = "iter::collect_new()"
    for c in rst + upd:
        C.ob("age-penalty", "each of their entries, in mining", re.search(rf"get(_mut)?\({me}\.by_key, elem\(.*\)(\.0)?\)\.Some\.0\.value", c.arg(0)) and c.arg(1) == "Capability::Mining{}", str(c.args[:2])[:300], c.where)
        ok = same(c.arg(2), f"Add({now}, try_from(Sub(Add(1, WIN), idx({LST}))).Ok.0)", f"Add({now}, try_from(Add(1, Sub(WIN, idx({LST})))).Ok.0)") or same(c.arg(2), f"Add({now}, Sub(Add(1, WIN), idx({LST})))") or re.fullmatch(rf"Add\({now}, try_from\(Sub\(Add\(1, WIN\), idx\(.*\)\)\)\.Ok\.0\)", c.arg(2))
        C.ob("age-penalty", "the better the rank, the longer the penalty: one epoch for the winner, one more for each rank above", ok, c.arg(2)[:300], c.where)
    # once the winner is found
    b = a.under(lambda s: s in (f"next({R}) is None", "WIN is None", f"position({R}) is None"))
    b.call({f"position_index({R})": "WIN"})
    push = [c for c in b.calls() if c.f["name"] == "collect_push"]
    gone = edges(b, re.compile(rf"^get(_mut)?\({me}\.by_key, elem\(.*\)\) is None$"))
    rst = [c for c in b.calls() if c.f["name"] in ("reset_age", "update")]
    SEL = f"take({R}, Add(1, WIN))"
    for c in push:
        C.ob("age-penalty", "the penalized are named by their keys", c.arg(1) == f"elem({SEL}).0", c.arg(1)[:200], c.where)
    if push:
        per_element(C, b, "age-penalty", "all of them are listed", SEL, oks(b), "each is listed", nodes=push)
    per_element(C, b, "age-penalty", "all of them are penalized", [LST, f"enumerate({LST})"] if push else [SEL, f"enumerate({SEL})"], oks(b), "each is reset", nodes=rst, cut=gone)


def censuses(C):
    a = C.A(DS, "Stakes", "census", no_inline=mkeys(C, "Stakes::by_rank"))
    me, cap, now, how = params(a)
    R = f"Stakes::by_rank({me}, {cap}, {now})"
    for v in ("All", "StepBy", "Take", "Evenly"):
        b = a.under(lambda s: (m := re.match(rf"^{how} is ([\w/]+)$", s)) is not None and v not in m.group(1).split("/"))
        src = {f"map({R}, {x})" for x in ("{closure#0}{}",)} | {"iter::collect_new()", R}
        for r in b.rets():
            s = r.s
            m = split_call(s)
            if m and m[0].split("::")[-1] == "new" and len(m[1]) == 1:
                s = m[1][0]
            n = f"{how}.{v}.0"
            if v == "All":
                ok = s in src
            elif v == "StepBy":
                ok = s in {f"step_by({x}, {n})" for x in src}
            elif v == "Take":
                ok = s in {f"take({x}, {n})" for x in src}
            else:
                ln = {"len(iter::collect_new())", f"len({me}.by_key)", f"Stakes::stakes_count({me})"}
                st = [f"max(1, Div({x}, max(1, {n})))" for x in ln]
                ok = any(same(s, f"take(step_by({x}, {k}), {n})") for x in src for k in st)
            C.ob("census", f"{v}: the requested part of the rank", ok, s[:300], b.where(r.pid))
    for f in closures(C, a.fn):
        b = C.an(f)
        C.returns_only(b, "census", "only the key is kept", ["arg2.0"])
    for c in a.calls():
        if c.f["name"] == "collect_push":
            C.ob("census", "only the key is kept", c.arg(1) == f"elem({R}).0", c.arg(1)[:200], c.where)
    # the step and the divisor are at least one (above); a step given by the caller is the caller's
    C.no_abort(a, "census", "a census never aborts", allowed=[r"step_by", r"div0"])


@prop("D07", [DS],
      "decision table of the rank comparison over all orderings of its components; provenance and completeness of every query over the tracker",
      "The comparison of by_rank is decided for all 27 combinations of orderings of power, validator and withdrawer, together with the direction the list is handed out in. Every query (power, nonce, entries by key, validator or withdrawer, totals, census) is shown to answer from the right index, for each element of the whole collection, and to refuse exactly unknown keys; the age resets to write exactly the capability, the entries and the epoch required. Sorting and Ord of the generic types are trusted.")
def d07(C):
    ranking(C)
    queries(C)
    ages(C)
    censuses(C)
