"""What travels and what is hashed: hash preimages, merkle roots, protocol buffers and their legacy forms."""
import re
from wf.check import prop, sites, params
from wf.extra import Bytes, abort_sites
from wf.maps import split_call
from wf.valid import *
from wf.valid import ver as at_version
from props.superblocks import ks

DS = "witnet_data_structures"
V = "ProtocolVersion::"


def split(s):
    """top-level parts of a comma separated text"""
    out, d, q, cur = [], 0, None, ""
    for i, c in enumerate(s):
        if q:
            q = None if c == q and s[i - 1] != "\\" else q
        elif c == "'":
            q = c
        elif c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        if c == "," and d == 0 and not q:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + ([cur.strip()] if cur.strip() else [])


def flat(L):
    """alternatives of appended parts, with concatenations taken apart"""
    out = set()
    for seq in L:
        r = []
        for x in seq:
            while True:
                m = re.fullmatch(r"(?:concat|deref|to_vec|as_ref)\((.*)\)", x)
                if not m:
                    break
                x = m.group(1)
            m = re.fullmatch(r"\[(.*)\]", x)
            r += [y for z in split(m.group(1)) for y in (flat({(z,)}).pop() if z.startswith("concat(") else (z,))] if m else [x]
        out.add(tuple(r))
    return out


def parts(a, v, pid):
    return flat(Bytes(a).language(v, pid))


def own(x):
    return re.sub(r"RangeFull\{\}|\[RangeFull\{\}\]", "", x)


def is_preimage(C, a, rule, inst, want, digest=True):
    """what is returned is the digest of exactly WANT (alternatives of part tuples); or WANT itself"""
    if digest:
        cs = [c for c in a.calls() if c.f["name"] in ("calculate_sha256",)]
        C.ob(rule, f"{inst}: one digest", len(sites(a, cs)) == 1, str([c.args for c in cs])[:200], a.fn["span"])
        got = set()
        for c in cs:
            got |= parts(a, c.val(0), c.pid)
        vals = {a.s(c.value) for c in cs}
        for r in a.rets():
            for x in alts(a, r.value):
                C.ob(rule, f"{inst}: the digest is what is returned", re.sub(r"^Hash::SHA256\{0: (.*)\.0\}$", r"\1", a.s(x)) in vals, a.s(x)[:300], a.where(r.pid))
    else:
        got = set()
        for r in a.rets():
            for x in alts(a, r.value):
                got |= parts(a, x, r.pid)
    got = {tuple(own(y) for y in g) for g in got}
    C.ob(rule, f"{inst}: of exactly the content", bool(got) and got <= set(want), f"{sorted(got)}"[:500], a.fn["span"])


def returns(C, a, rule, inst, want, what="returns something else"):
    got = {a.s(x) for r in a.rets() for x in alts(a, r.value)}
    C.ob(rule, inst, bool(got) and got <= set(want), f"{what}: {sorted(got)}"[:500], a.fn["span"])


def impls_of(C, trait, *methods):
    """[(type, {method: fn})] of the implementations of a trait in the crate"""
    out = {}
    for f in C.F.fns.values():
        m = re.search(rf"<(?P<t>.*) as (?:[\w:]*::)?{trait}>::\w+$", f["path"]) or re.search(rf"<impl (?:[\w:]*::)?{trait} for (?P<t>.*)>::\w+$", f["path"])
        if m and f["name"] in methods and "blocks" in f:
            out.setdefault(m.group("t"), {})[f["name"]] = f
    return out


def kfn(C, *names):
    return tuple(f["key"] for f in C.F.fns.values() if f["name"] in names)


STOP = ("to_pb", "from_pb", "to_pb_bytes", "from_pb_bytes", "write_to_bytes", "merge_from_bytes", "calculate_sha256", "hash", "versioned_hash", "to_versioned_pb_bytes", "to_versioned_pb", "data_poi_hash", "rest_poi_hash", "merkle_tree_root", "memoized_hash", "hashable_bytes", "get_protocol_version", "guess", "to_uncompressed")


def fa(C, f, *but, **kw):
    stop = tuple(k for k in kfn(C, *(n for n in STOP if n not in but)) if k != f["key"])
    return C.an(f, no_inline=stop, **kw)


PB = "ProtobufConvert::to_pb_bytes(self).Ok.0"
TXS = ("ValueTransfer", "DataRequest", "Commit", "Reveal", "Tally", "Mint", "Stake", "Unstake")


@prop("D02", [DS],
      "preimage languages: the exact sequence of parts given to every digest, compared with the stated one; completeness of serialized fields over the type-checked structures; decision table of the merkle roots by version",
      "Every hash of a block, transaction, superblock, vote, key or claim is analysed on all paths: what exactly is digested, in which order, that the digest is what is returned or remembered, and that what is serialized for it contains every field of the structure but remembered values. The protocol-buffer encoder and SHA-256 themselves are taken as given, as are the conversions of protobuf-convert, of which the analysis sees a stand-in written the same way.")
def d02(C):
    H = impls_of(C, "chain::Hashable", "hash")
    # the remembered hash
    f = [v["hash"] for k, v in H.items() if k == "T"]
    C.floor("the hash of what remembers it", len(f), 1)
    for g in f:
        a = fa(C, g)
        want = "hash::calculate_sha256(MemoizedHashable::hashable_bytes(self))"
        memo = "MemoizedHashable::memoized_hash(self)"
        got = {a.s(x) for r in a.rets() for x in alts(a, r.value)}
        C.ob("memo", "the hash is the digest of the content, or the one remembered", got <= {want, f"Hash::SHA256{{0: {want}.0}}", f"read({memo}.hash).Ok.0.Some.0", f"Memoized::get({memo}).Some.0"} and len(got) == 2, str(sorted(got))[:400], a.fn["span"])
        st = [a.s(x) for c in a.calls() if c.f["name"] == "set" for x in alts(a, c.val(1))]
        C.ob("memo", "nothing but the digest is remembered", all(x in (f"Option::Some{{0: {want}}}", f"Option::Some{{0: Hash::SHA256{{0: {want}.0}}}}") for x in st), str(st)[:300], a.fn["span"])
    for nm in ("get", "set"):
        for g in C.F.method(DS, "Memoized", nm):
            a = C.an(g)
            me = params(a)[0]
            if nm == "get":
                returns(C, a, "memo", "what is remembered is what was set", {f"read({me}.hash).Ok.0"})
            else:
                v = params(a)[1]
                ws = [e for e in a.effects() if "write" in e.root or "hash" in e.root]
                C.ob("memo", "set: the value given is kept", any(v in [str(x) for x in e.args] or a.s(getattr(e, 'value', None) or 0) == v for e in ws) or any(v == x for e in ws for x in e.args), str([(e.op, e.root, e.args) for e in ws])[:300], a.fn["span"])
    MH = impls_of(C, "transaction::MemoizedHashable", "hashable_bytes", "memoized_hash")
    C.floor("structures that remember their hash", len(MH), 10)
    for t, m in sorted(MH.items()):
        a = fa(C, m["memoized_hash"])
        me = params(a)[0]
        returns(C, a, "memo", f"{t}: remembers its own hash", {f"{me}.hash"})
        a = C.an(m["memoized_hash"], no_inline=ks(C, "Memoized::set"))
        ss = [c for c in a.calls() if c.f["name"] == "set"]
        C.ob("memo", f"{t}: nothing but the digest is remembered", all(c.arg(1) == "Option::None{}" for c in ss) and all(e.op == "set" for e in a.effects()), str([c.args for c in ss] + [e.op for e in a.effects()])[:200], a.fn["span"])
        a = fa(C, m["hashable_bytes"])
        want = {(PB,)}
        if t == "chain::Block":
            want = {(f"Versioned::to_versioned_pb_bytes(self.block_header, {V}guess()).Ok.0",)}
        elif t == "chain::SuperBlock":
            want = {("to_be_bytes(self.signing_committee_length)", "self.ars_root.SHA256.0", "self.data_request_root.SHA256.0", "to_be_bytes(self.index)", "self.last_block.SHA256.0", "self.last_block_in_previous_superblock.SHA256.0", "self.tally_root.SHA256.0")}
        elif t == "transaction::DRTransactionBody":
            want = {(f"DRTransactionBody::data_poi_hash(self, {V}V1_7{{}}).SHA256.0", f"DRTransactionBody::rest_poi_hash(self, {V}V1_7{{}}).SHA256.0")}
        elif t == "transaction::TallyTransaction":
            want = {("TallyTransaction::data_poi_hash(self).SHA256.0", f"TallyTransaction::rest_poi_hash(self, {x}).SHA256.0") for x in ("Default::default()", f"{V}V1_7{{}}")}
        is_preimage(C, a, "preimage", t, want, digest=False)
    # the other hashes
    for t, m in sorted(H.items()):
        a = fa(C, m["hash"])
        short = t.split("::")[-1]
        if t == "T":
            continue
        if short == "Transaction":
            kinds(C, a, "preimage", "Transaction", "Hashable::hash(self.{}.0)")
        elif short.endswith("Transaction"):
            returns(C, a, "preimage", f"{t}: that of its body", {"Hashable::hash(self.body)"})
        elif short == "PublicKey":
            is_preimage(C, a, "preimage", t, {("self.compressed", "self.bytes"), ("[self.compressed]", "self.bytes"), ("PublicKey::to_bytes(self)",)})
        elif short == "Signature":
            is_preimage(C, a, "preimage", t, {("self.Secp256k1.0.der",)})
        elif short == "Bn256PublicKey":
            is_preimage(C, a, "preimage", t, {("Bn256PublicKey::to_uncompressed(self).Ok.0",)})
        elif short == "Bn256Signature":
            is_preimage(C, a, "preimage", t, {("self.signature",)})
        else:
            is_preimage(C, a, "preimage", t, {(PB,)})
    C.floor("hashes", len(H), 12)
    VH = impls_of(C, "versioning::VersionedHashable", "versioned_hash")
    C.floor("versioned hashes", len(VH), 10)
    for t, m in sorted(VH.items()):
        a = fa(C, m["versioned_hash"])
        me, v = params(a)
        short = t.split("::")[-1]
        if t == "T":
            is_preimage(C, a, "preimage", "versioned", {(f"Versioned::to_versioned_pb_bytes({me}, {v}).Ok.0",)})
        elif short == "Transaction":
            kinds(C, a, "preimage", "Transaction, versioned", f"VersionedHashable::versioned_hash({me}.{{}}.0, {v})")
        elif short == "DRTransactionBody":
            is_preimage(C, a, "preimage", f"{t}, versioned", {(f"DRTransactionBody::data_poi_hash({me}, {v}).SHA256.0", f"DRTransactionBody::rest_poi_hash({me}, {v}).SHA256.0")})
        elif short == "TallyTransaction":
            is_preimage(C, a, "preimage", f"{t}, versioned", {(f"TallyTransaction::data_poi_hash({me}).SHA256.0", f"TallyTransaction::rest_poi_hash({me}, {v}).SHA256.0")})
        else:
            part = "block_header" if short == "Block" else "body"
            returns(C, a, "preimage", f"{t}, versioned: that of its {part}", {f"VersionedHashable::versioned_hash({me}.{part}, {v})"})
    for t in ("DRTransactionBody", "TallyTransaction"):
        for g in C.F.method(DS, t, "rest_poi_hash"):
            a = fa(C, g)
            me, v = params(a)
            is_preimage(C, a, "preimage", f"{t}: the rest of it", {(f"Versioned::to_versioned_pb_bytes({me}, {v}).Ok.0",)})
        for g in C.F.method(DS, t, "data_poi_hash"):
            a = fa(C, g)
            ps = params(a)
            if t == "DRTransactionBody":
                returns(C, a, "preimage", f"{t}: its data", {f"VersionedHashable::versioned_hash({ps[0]}.dr_output, {ps[1]})"})
            else:
                is_preimage(C, a, "preimage", f"{t}: its data", {(x, f"{ps[0]}.tally") for x in (f"{ps[0]}.dr_pointer.SHA256.0", "dr_pointer_bytes")})
    # signed messages, network magic, addresses
    vote = ("to_be_bytes(self.superblock_index)", "self.superblock_hash.SHA256.0")
    a = C.A(DS, "SuperBlockVote", "bn256_signature_message")
    is_preimage(C, a, "message", "a vote's BLS message", {vote}, digest=False)
    a = C.A(DS, "SuperBlockVote", "secp256k1_signature_message")
    is_preimage(C, a, "message", "a vote's message", {vote + ("self.bn256_signature.signature",)}, digest=False)
    for g in C.F.method(DS, "ConsensusConstants", "get_magic"):
        a = fa(C, g)
        D = f"hash::calculate_sha256({PB}).0"
        returns(C, a, "message", "the magic number is the first two bytes of the digest of all constants", {f"BitOr(Shl({D}[0], 8), {D}[1])", f"from_be_bytes([{D}[0], {D}[1]])", f"BitOr({D}[1], Shl({D}[0], 8))"})
    for g in C.F.method(DS, "PublicKeyHash", "from_public_key"):
        a = C.an(g, no_inline=ks(C, "calculate_sha256", "PublicKey::to_bytes"))
        pk = params(a)[0]
        cs = [c for c in a.calls() if c.f["name"] == "calculate_sha256"]
        got = set()
        for c in cs:
            got |= parts(a, c.val(0), c.pid)
        C.ob("address", "an address is the digest of the public key", len(sites(a, cs)) == 1 and got <= {(f"PublicKey::to_bytes({pk})",), (f"{pk}.compressed", f"{pk}.bytes")} and bool(got), str(got)[:200], a.fn["span"])
        cp = [c for c in a.calls() if c.f["name"] in ("copy_from_slice", "clone_from_slice")]
        D = a.s(cs[0].value) if cs else "?"
        s = {a.s(x) for r in a.rets() for x in alts(a, r.value)}
        ok = all(re.search(rf"^{re.escape(D)}(\.0|\.SHA256\.0)?\[(RangeTo\{{end: 20\}}|Range\{{start: 0, end: 20\}}|RangeTo\{{end: len\(\[0; 20\]\)\}}|RangeTo\{{end: len\(.*\)\}})\]$", c.arg(1)) for c in cp)
        C.ob("address", "its first twenty bytes", ok and (bool(cp) or all(D in x and "20" in x for x in s)), f"{[c.args for c in cp]} {s}"[:300], a.fn["span"])
    # merkle roots
    for g in [f for f in C.F.fns.values() if f["path"].endswith(f"{DS}::chain::merkle_tree_root") and "blocks" in f]:
        a = C.an(g, no_inline=tuple(k for k in kfn(C, "versioned_hash", "calculate_sha256", "merkle_tree_root") if k != g["key"]))
        t, v = params(a)
        E_ = f"VersionedHashable::versioned_hash(elem({t}), {v})"
        push = [c for c in a.calls() if c.f["name"] in ("collect_push", "push", "extend")]
        for c in push:
            C.ob("roots", "the leaves are the hashes at the version", c.arg(1) in (f"Sha256{{0: {E_}.SHA256.0}}", f"{E_}.SHA256.0"), c.arg(1)[:200], c.where)
        root = [c for c in a.calls() if c.f["name"] == "merkle_tree_root"]
        per_element(C, a, "roots", "every transaction is a leaf", [t, f"enumerate({t})"], [c.pid for c in root], "left out", nodes=push)
        C.ob("roots", "one root, of them all", len(sites(a, root)) == 1 and all(s in (f"Hash::SHA256{{0: {a.s(c.value)}.0}}", a.s(c.value)) for c in root for r in a.rets() for s in [a.s(x) for x in alts(a, r.value)]), str([r.s for r in a.rets()])[:200], a.fn["span"])
    for g in C.F.method(DS, "BlockMerkleRoots", "from_transactions"):
        a = fa(C, g)
        t, v = params(a)
        rows = {"mint_hash": {f"VersionedHashable::versioned_hash({t}.mint, {v})"}}
        for n, c in (("vt", "value_transfer"), ("dr", "data_request"), ("commit",) * 2, ("reveal",) * 2, ("tally",) * 2, ("stake",) * 2, ("unstake",) * 2):
            rows[f"{n}_hash_merkle_root"] = {f"chain::merkle_tree_root({t}.{c}_txns, {v})"}
        Z = "Hash::SHA256{0: [0; 32]}"
        b4, ge = ver(v, "lt"), ver(v, "ge")
        for inst, contra, zero in (("before wit/1.8", ge("V1_8") | ge("V2_0"), ("stake", "unstake")), ("between", b4("V1_8") | ge("V2_0"), ("unstake",)), ("from wit/2 on", b4("V1_8") | b4("V2_0"), ())):
            b = a.under(lambda s: s in contra)
            for r in b.rets():
                for x in alts(b, r.value):
                    got, _ = table(b, x)
                    for k, w in rows.items():
                        want = {Z} if k.split("_")[0] in zero else w
                        C.ob("roots", f"{inst}: {k}", got.get(k) in want, f"{got.get(k)}"[:200], b.where(r.pid))
                    C.ob("roots", f"{inst}: nothing else", set(got) == set(rows), str(sorted(set(got) ^ set(rows)))[:200], b.where(r.pid))
    # what is serialized is complete
    complete(C, "complete")


def ver(v, op):
    """texts of 'version OP name'"""
    sw = {"lt": ("lt", "gt"), "ge": ("ge", "le")}[op]
    return lambda n: {f"{v} {sw[0]} {V}{n}{{}}", f"{V}{n}{{}} {sw[1]} {v}"}


def table(a, v):
    """(fields of a structure as built and updated, what it was built from)"""
    out = {}
    for _ in range(400):
        v = a.n.peel(v)
        t = a.v.t(v)
        if t[0] == "upd":
            k = a.n.path_str(t[2], 16, ()).lstrip(".")
            out.setdefault(k, a.s(t[3]))
            v = t[1]
            continue
        if t[0] == "agg":
            for f, x in zip(t[3], t[4]):
                out.setdefault(str(f), a.s(x))
            return out, t[2] or t[1].split("::")[-1]
        return out, a.s(v)


def kinds(C, a, rule, inst, form):
    """each kind of transaction is answered by its own"""
    got = {a.s(x) for r in a.rets() for x in alts(a, r.value)}
    want = {form.format(k) for k in TXS}
    C.ob(rule, f"{inst}: each kind by its own content", got == want, str(sorted(got ^ want))[:300], a.fn["span"])
    for k in TXS:
        b = a.under(lambda s: re.fullmatch(r"self is (?!.*\b" + k + r"\b).*", s) is not None)
        g = {b.s(x) for r in b.rets() for x in alts(b, r.value)}
        C.ob(rule, f"{inst}: {k}", g == {form.format(k)}, str(sorted(g))[:200], a.fn["span"])


def carries(x, root):
    """X is ROOT wrapped in conversions that keep the content"""
    for _ in range(12):
        if x == root:
            return True
        m = re.fullmatch(r"(?:ProtobufConvert::(?:to|from)_pb|SingularPtrField::(?:some|from|from_option)|RepeatedField::(?:from_vec|from)|from_vec|into|from|clone|some|to_owned|Some)\((.*)\)(\.Ok\.0)?", x) or re.fullmatch(r"Option::Some\{0: (.*)\}", x)
        if m:
            x = m.group(1)
            continue
        if x in ("{%s.Some.0 | protobuf::default_of()}" % root, "{protobuf::default_of() | %s.Some.0}" % root, f"take({root})", f"{root}.Some.0"):
            return True
        return False
    return False


def adt(C, t):
    return C.F.adts.get(f"{DS}::{t}")


def converted(C):
    """(type, methods, description) of the structures and enumerations with derived conversions"""
    for t, m in sorted(impls_of(C, "proto::ProtobufConvert", "to_pb", "from_pb").items()):
        d = adt(C, t)
        if d and len(m) == 2 and t not in HAND:
            yield t, m, d


HAND = ("chain::RADType", "chain::PublicKey", "types::Address")


def memo(f):
    return "Memoized<" in f["ty"]


def complete(C, rule):
    n = 0
    for t, m, d in converted(C):
        a = fa(C, m["to_pb"])
        me = params(a)[0]
        if d["enum"]:
            names = [v["name"] for v in d["variants"]]
            for k in names:
                b = a.under(lambda s: re.fullmatch(rf"{me} is (?!.*\b{k}\b).*", s) is not None)
                for r in b.rets():
                    for x in alts(b, r.value):
                        w = table(b, x)[0].get("kind", "")
                        q = re.fullmatch(r"Option::Some\{0: \w+::(\w+)\{0: (.*)\}\}", w)
                        C.ob(rule, f"{t}::{k}: serialized as such", bool(q) and q.group(1) == k and carries(q.group(2), f"{me}.{k}.0"), b.s(x)[:250], b.where(r.pid))
            n += 1
            continue
        fs = [f for f in d["variants"][0]["fields"]]
        for r in a.rets():
            for x in alts(a, r.value):
                got, _ = table(a, x)
                for f in fs:
                    if memo(f):
                        C.ob(rule, f"{t}.{f['name']}: remembered values are not serialized", f["name"] not in got, got.get(f["name"], "")[:100], a.where(r.pid))
                        continue
                    C.ob(rule, f"{t}.{f['name']}: serialized", carries(got.get(f["name"], ""), f"{me}.{f['name']}"), f"{got.get(f['name'])}"[:250], a.where(r.pid))
        n += 1
    C.floor("structures serialized", n, 40)


@prop("D12", [DS],
      "field-by-field provenance of every conversion, both ways, over the type-checked structures and their protocol buffers; decision tables by version; reachable-abort analysis of decoding",
      "Every conversion between a structure and its protocol buffer, and between current and legacy messages, is analysed: each field and kind goes to, and comes back from, the field or kind of the same name, by conversions that keep the content; malformed lengths, numbers and missing kinds are refused; no received bytes reach an abort. The protocol-buffer library itself and protobuf-convert are taken as given (the analysis sees stand-ins); a present value equal to the default comes back absent, as the format cannot tell them apart.")
def d12(C):
    complete(C, "encode")
    n = 0
    for t, m, d in converted(C):
        a = fa(C, m["from_pb"])
        pb = params(a)[0]
        C.no_abort(a, "total", f"{t}: decoding never aborts")
        if d["enum"]:
            names = [v["name"] for v in d["variants"]]
            K = f"{pb}.kind.Some.0"
            seen = set()
            for r in oks(a):
                for x in alts(a, r.value):
                    q = re.fullmatch(r"Result::Ok\{0: \w+::(\w+)\{0: (.*)\}\}", a.s(x))
                    ok = bool(q) and carries(q.group(2), f"{K}.{q.group(1)}.0") and "from_pb" in q.group(2)
                    seen |= {q.group(1)} if ok else set()
                    C.ob("decode", f"{t}: each kind is read back as itself", ok, a.s(x)[:300], a.where(r.pid))
            C.ob("decode", f"{t}: every kind is read", seen == set(names), str(sorted(set(names) ^ seen)), a.fn["span"])
            n += 1
            continue
        for r in oks(a):
            for x in alts(a, payload(a, r)):
                got, base = table(a, x)
                for f in d["variants"][0]["fields"]:
                    if memo(f):
                        C.ob("decode", f"{t}.{f['name']}: nothing is remembered yet", "default" in got.get(f["name"], "") or "new" in got.get(f["name"], ""), f"{got.get(f['name'])}"[:100], a.where(r.pid))
                        continue
                    s = got.get(f["name"], "")
                    C.ob("decode", f"{t}.{f['name']}: read back from the field of that name", carries(s, f"{pb}.{f['name']}") and "from_pb" in s, s[:300], a.where(r.pid))
        n += 1
    C.floor("structures decoded", n, 40)
    hand(C)
    legacy(C)
    received(C)


def hand(C):
    I = impls_of(C, "proto::ProtobufConvert", "to_pb", "from_pb")
    # kinds of retrieval
    d = adt(C, "chain::RADType")
    for k in [v["name"] for v in d["variants"]]:
        for nm in ("to_pb", "from_pb"):
            a = fa(C, I["chain::RADType"][nm])
            x = params(a)[0]
            b = a.under(lambda s: re.fullmatch(rf"{x} is (?!.*\b{k}\b).*", s) is not None)
            g = {b.s(y) for r in b.rets() for y in alts(b, r.value)}
            C.ob("decode" if nm == "from_pb" else "encode", f"retrieval kind {k}", bool(g) and all(re.fullmatch(rf"(Result::Ok\{{0: )?\w+::{k}\{{\}}\}}?", s) for s in g), str(sorted(g))[:200], a.fn["span"])
    # public keys
    a = fa(C, I["chain::PublicKey"]["to_pb"])
    for r in a.rets():
        for x in alts(a, r.value):
            v = value_of(a, x, "public_key")
            g = parts(a, v, r.pid) if v else set()
            C.ob("encode", "a public key: its parity byte, then its coordinate", g <= {("self.compressed", "self.bytes"), ("[self.compressed]", "self.bytes"), ("PublicKey::to_bytes(self)",)} and bool(g), str(g)[:200], a.where(r.pid))
    a = fa(C, I["chain::PublicKey"]["from_pb"])
    pb = params(a)[0]
    L = rf"len\((?:take\()?{pb}\.public_key\)?\)"
    need(C, a, "decode", "a public key has 33 bytes", oks(a), re.compile(rf"!(?:__private::)?not\(Eq\({L}, 33\)\)|{L} eq 33|33 eq {L}"))
    C.no_abort(a, "total", "public key: decoding never aborts", allowed=[r"index", r"copy_from_slice"])
    for r in oks(a):
        got, _ = table(a, payload(a, r))
        src = rf"(?:take\({pb}\.public_key\)|{pb}\.public_key)"
        cp = {c.arg(1) for c in a.calls() if c.f["name"] in ("copy_from_slice", "clone_from_slice")}
        C.ob("decode", "a public key: parity from the first byte", re.fullmatch(src + r"\[0\]", got.get("compressed", "")) is not None, str(got)[:200], a.where(r.pid))
        C.ob("decode", "a public key: coordinate from the rest", any(re.fullmatch(src + r"\[(RangeFrom\{start: 1\}|Range\{start: 1, end: 33\})\]", x) for x in cp | {got.get("bytes", "")}), f"{cp} {got}"[:300], a.where(r.pid))
    # arrays
    for t, n in (("[u8; 20]", 20), ("[u8; 32]", 32)):
        a = fa(C, I[t]["to_pb"])
        returns(C, a, "encode", f"{t}: its bytes", {"self", "to_vec(self)"})
        a = fa(C, I[t]["from_pb"])
        pb = params(a)[0]
        need(C, a, "decode", f"{t}: of that length only", oks(a), re.compile(rf"!(?:__private::)?not\(Eq\(len\({pb}\), {n}\)\)|len\({pb}\) eq {n}|{n} eq len\({pb}\)|(try_into|try_from)\({pb}\) is Ok"))
        cp = [c for c in a.calls() if c.f["name"] in ("copy_from_slice", "clone_from_slice")]
        C.ob("decode", f"{t}: exactly the bytes received", all(c.arg(1) in (pb, f"{pb}[RangeFull{{}}]") for c in cp) and (bool(cp) or all(pb in r.s for r in oks(a))), str([c.args for c in cp])[:200], a.fn["span"])
        C.no_abort(a, "total", f"{t}: decoding never aborts", allowed=[r"copy_from_slice"])
    # integers of other widths
    for t in ("i8", "u16", "i16"):
        a = fa(C, I[t]["to_pb"])
        returns(C, a, "encode", f"{t}: its value", {"self", "(self as u32)", "(self as i32)", "from(self)"})
        a = fa(C, I[t]["from_pb"])
        pb = params(a)[0]
        returns_ok = {a.s(x) for r in oks(a) for x in alts(a, payload(a, r))}
        C.ob("decode", f"{t}: its value", returns_ok <= {f"try_from({pb}).Ok.0", f"try_into({pb}).Ok.0"} and bool(returns_ok), str(returns_ok)[:200], a.fn["span"])
        C.no_abort(a, "total", f"{t}: decoding never aborts")
    for t in ("bool", "u32", "u64", "i32", "i64", "f32", "f64", "std::string::String", "std::vec::Vec<u8>"):
        if t not in I:
            C.ob("encode", f"{t}: converted", False, "no conversion", "")
            continue
        a = fa(C, I[t]["to_pb"])
        returns(C, a, "encode", f"{t}: its value", {"self"})
        a = fa(C, I[t]["from_pb"])
        returns(C, a, "decode", f"{t}: its value", {f"Result::Ok{{0: {params(a)[0]}}}"})
    # sequences and absent values
    t = "std::vec::Vec<T>"
    for nm, root in (("to_pb", "self"), ("from_pb", None)):
        a = fa(C, I[t][nm])
        x = params(a)[0]
        push = [c for c in a.calls() if c.f["name"] in ("collect_push", "push")]
        w = f"ProtobufConvert::{nm}(elem({x}))" + (".Ok.0" if nm == "from_pb" else "")
        for c in push:
            C.ob("encode" if nm == "to_pb" else "decode", f"sequences, {nm}: each element converted", c.arg(1) == w, c.arg(1)[:200], c.where)
        ends = a.rets() if nm == "to_pb" else oks(a)
        per_element(C, a, "encode" if nm == "to_pb" else "decode", f"sequences, {nm}: all of them, in order", [x], ends, "left out", nodes=push)
    t = "std::option::Option<T>"
    a = fa(C, I[t]["to_pb"])
    answers_(C, a, "encode", "a present value is written", {"self is None"}, {"ProtobufConvert::to_pb(self.Some.0)"})
    answers_(C, a, "encode", "an absent one as the default", {"self is Some"}, {"ProtobufConvert::to_pb(Default::default())"})
    a = fa(C, I[t]["from_pb"])
    pb = params(a)[0]
    X = f"ProtobufConvert::from_pb({pb}).Ok.0"
    eq = {f"{X} eq Default::default()", f"Default::default() eq {X}"}
    ne = {s.replace(" eq ", " ne ") for s in eq}
    for inst, contra, want in (("the default is an absent value", ne, "Result::Ok{0: Option::None{}}"), ("any other is read back", eq, f"Result::Ok{{0: Option::Some{{0: {X}}}}}")):
        b = a.under(lambda s: s in contra)
        g = {b.s(y) for r in oks(b) for y in alts(b, r.value)}
        C.ob("decode", inst, g == {want}, str(sorted(g))[:200], a.fn["span"])
    # addresses
    a = fa(C, I["types::Address"]["to_pb"])
    for k, other, w in (("Ipv4", "Ipv6", ("ip",)), ("Ipv6", "Ipv4", ("ip0", "ip1", "ip2", "ip3"))):
        b = a.under(lambda s: s == f"self.ip is {other}")
        for r in b.rets():
            for x in alts(b, r.value):
                v = value_of(b, x, "address")
                g = parts(b, v, r.pid) if v else set()
                want = tuple(f"to_be_bytes(self.ip.{k}.{f})" for f in w) + ("to_be_bytes(self.port)",)
                C.ob("encode", f"an {k} address: its numbers, big endian, then its port", g == {want}, str(g)[:300], b.where(r.pid))
    a = fa(C, I["types::Address"]["from_pb"])
    pb = params(a)[0]
    L = f"len({pb}.address)"
    C.no_abort(a, "total", "address: decoding never aborts")
    for k, n, w in (("Ipv4", 6, ("ip",)), ("Ipv6", 18, ("ip0", "ip1", "ip2", "ip3"))):
        rs = [r for r in oks(a) if k in r.s]
        need(C, a, "decode", f"an {k} address has {n} bytes", rs, f"{n} eq {L}", f"{L} eq {n}")
        for r in rs:
            rd = [c for c in a.calls() if c.f["name"] in ("read_u32", "read_u16")]
            got, _ = table(a, payload(a, r))
            order = [numbered(a, payload(a, r), ("ip", f)) for f in w] + [numbered(a, payload(a, r), ("port",))]
            seq = all(p is not None for p in order) and len(set(order)) == len(order) and all(a.paths_avoiding([q], cut_nodes=[p]) is None for p, q in zip(order, order[1:]))
            C.ob("decode", f"an {k} address: read in the order written", seq, str(order), a.where(r.pid))
            C.ob("decode", f"an {k} address: big endian", bool(rd) and all("byteorder::BigEndian" in c.f.get("ga", []) for c in rd), str([c.f.get("ga") for c in rd])[:200], a.where(r.pid))
            C.ob("decode", f"an {k} address: its numbers, then its port", got.get("ip") == f"IpAddress::{k}{{" + ", ".join(f"{f}: ReadBytesExt::read_u32({pb}.address).Ok.0" for f in w) + "}" and got.get("port") == f"ReadBytesExt::read_u16({pb}.address).Ok.0", f"{got}"[:300], a.where(r.pid))
    C.floor("addresses decoded", len(oks(a)), 2)
    # pairs
    a = fa(C, I["(std::string::String, std::string::String)"]["to_pb"])
    for r in a.rets():
        for x in alts(a, r.value):
            got, _ = table(a, x)
            C.ob("encode", "a pair: left and right", got == {"left": "self.0", "right": "self.1"}, str(got)[:200], a.where(r.pid))
    a = fa(C, I["(std::string::String, std::string::String)"]["from_pb"])
    pb = params(a)[0]
    returns(C, a, "decode", "a pair: left and right", {f"Result::Ok{{0: tuple{{0: {f}{pb}.left{g}, 1: {f}{pb}.right{g}}}}}" for f, g in (("", ""), ("to_string(", ")"), ("take(", ")"))})


def numbered(a, v, path):
    """the call whose result is the field at PATH of a structure as built"""
    for n in path:
        v = value_of(a, v, n)
        if v is None:
            return None
    for _ in range(12):
        v = a.n.peel(v)
        t = a.v.t(v)
        if t[0] == "call" and t[1].split("::")[-1] in ("read_u32", "read_u16"):
            return a.v.callinfo[v][3]
        if t[0] == "proj":
            v = t[1]
        elif t[0] == "call" and t[2]:
            v = t[2][0]
        else:
            return None
    return None


def answers_(C, a, rule, inst, contra, want):
    b = a.under(lambda s: s in contra)
    g = {b.s(y) for r in b.rets() for y in alts(b, r.value)}
    C.ob(rule, inst, bool(g) and g <= want, str(sorted(g))[:300], a.fn["span"])


def value_of(a, v, name):
    for _ in range(400):
        v = a.n.peel(v)
        t = a.v.t(v)
        if t[0] == "upd":
            if a.n.path_str(t[2], 16, ()).lstrip(".") == name:
                return t[3]
            v = t[1]
            continue
        if t[0] == "agg":
            return dict(zip(map(str, t[3]), t[4])).get(name)
        return None


SCH = f"{DS}::proto::schema::witnet::"
NIL = ("unknown_fields", "cached_size")


def legacy(C):
    """current <-> legacy messages"""
    n = 0
    for f in C.F.fns.values():
        m = re.search(r"<impl std::convert::From<proto::schema::witnet::(\w+)> for proto::schema::witnet::(\w+)>::from$", f["path"])
        if not m or "blocks" not in f:
            continue
        src, dst = m.groups()
        if "Legacy" not in src + dst:
            continue
        n += 1
        a = C.an(f, no_inline=kfn(C, "to_pb"))
        x = params(a)[0]
        if src.endswith("_oneof_kind"):
            names = {v["name"] for v in C.F.adts[SCH + dst]["variants"]}
            seen = set()
            for r in a.rets():
                for y in alts(a, r.value):
                    q = re.fullmatch(r"\w+::(\w+)\{0: (.*)\}", a.s(y))
                    ok = bool(q) and q.group(2) in (f"{x}.{q.group(1)}.0", f"into({x}.{q.group(1)}.0)", f"arg1.{q.group(1)}.0")
                    seen |= {q.group(1)} if ok else set()
                    C.ob("legacy", f"{src} to {dst}: each kind stays itself", ok, a.s(y)[:250], a.where(r.pid))
            C.ob("legacy", f"{src} to {dst}: every kind", seen == names, str(sorted(seen ^ names)), a.fn["span"])
            continue
        have = {g["name"] for g in C.F.adts[SCH + src]["variants"][0]["fields"]} - set(NIL)
        want = {g["name"] for g in C.F.adts[SCH + dst]["variants"][0]["fields"]} - set(NIL)
        for r in a.rets():
            for y in alts(a, r.value):
                got, base = table(a, y)
                for k in sorted(want):
                    s = got.get(k, f"{base}.{k}" if base in (x, "arg1") else "")
                    if k in have and re.search(r"\bOption::(None|Some)\{", s):
                        # an optional field: absent as absent, present as itself
                        for z, w, o in (("None", "Some", "absent"), ("Some", "None", "present")):
                            b = a.under(lambda q: any(q == f"{u}.{k} is {w}" for u in (x, "arg1")))
                            for q in b.rets():
                                for y2 in alts(b, q.value):
                                    t = value_of(b, y2, k)
                                    t = b.s(t) if t is not None else "-"
                                    ok = t == "Option::None{}" if z == "None" else any(t in (f"Option::Some{{0: {u}.{k}.Some.0}}", f"Option::Some{{0: into({u}.{k}.Some.0)}}", f"Option::Some{{0: from({u}.{k}.Some.0)}}") for u in (x, "arg1"))
                                    C.ob("legacy", f"{src} to {dst}: {k}, {o}, stays itself", ok, t[:250], b.where(q.pid))
                    elif k in have:
                        ok = any(carries(mapped(C, a, s), f"{z}.{k}") for z in (x, "arg1"))
                        C.ob("legacy", f"{src} to {dst}: {k} stays itself", ok, s[:250], a.where(r.pid))
                    else:
                        C.ob("legacy", f"{src} to {dst}: {k}, unknown there, is empty", not re.search(rf"\b({x}|arg1)\b", s), s[:250], a.where(r.pid))
    C.floor("conversions to and from legacy messages", n, 12)
    # which form is sent
    for t, fields in (("chain::BlockHeader", None), ("types::Message", None), ("chain::BlockMerkleRoots", "mint_hash")):
        fs = impls_of(C, "versioning::Versioned", "to_versioned_pb").get(t, {})
        for g in fs.values():
            a = C.an(g, no_inline=tuple(k for k in kfn(C, "to_pb")))
            me, v = params(a)
            own_ = f"ProtobufConvert::to_pb({me})"
            names = {z["name"] for z in C.F.adts[f"{DS}::{t}"]["variants"][0]["fields"]}
            for vs, inst in ((("V1_7",), "before wit/1.8: the legacy form"), (("V1_8",), "wit/1.8: as it is"), (("V2_0",), "wit/2: as it is"), (("V2_1",), "wit/2.1: as it is")):
                k = vs[0]
                b = a.under(at_version(k, v))
                for r in oks(b):
                    for y in alts(b, payload(b, r)):
                        s = re.sub(r"^(?:new|from|Box::new)\((.*)\)$", r"\1", b.s(y))
                        if k == "V1_7":
                            ok = s.startswith("Default::default()[.") or s.startswith("LegacyBlock")
                        elif fields and k.startswith("V2"):
                            ok = re.fullmatch(rf"{re.escape(own_)}\[\.mint_hash:=SingularPtrField::(some\(Default::default\(\)\)|none\(\))\]", s) is not None
                        else:
                            ok = s == own_
                        C.ob("version", f"{t}, {inst}" + (" but for the mint hash" if fields and k.startswith("V2") else ""), ok, s[:250], b.where(r.pid))
                C.ob("version", f"{t}: always has a form at {k}", bool(oks(b)), "none", a.fn["span"])


def mapped(C, a, s):
    """'map(x, conversion)' is x converted"""
    m = re.fullmatch(r"SingularPtrField::map\((.*), (fn:[\w:<> ]*(?:Into::into|From::from|From<.*>>::from))\)", s)
    if m:
        return m.group(1)
    m = re.fullmatch(r"SingularPtrField::map\((.*), \{closure#(\d+)\}(?:\{\})?\)", s)
    if m:
        for f in closures(C, a.fn):
            if f["path"].endswith("{closure#%s}" % m.group(2)):
                x = C.an(f)
                if all(v == f"arg{i}" or v in params(x) for v in x.ret_values() for i in (1, 2)) or set(x.ret_values()) <= {"arg2", "arg1", *params(x)}:
                    return m.group(1)
    return s


def received(C):
    """bytes from a peer"""
    V_ = {f["name"]: f for f in C.F.fns.values() if re.search(r"versioning::Versioned::\w+$", f["path"]) and "blocks" in f}
    MV = impls_of(C, "versioning::Versioned", "from_versioned_pb_bytes", "from_versioned_pb").get("types::Message", {})
    g = MV.get("from_versioned_pb_bytes") or V_["from_versioned_pb_bytes"]
    one = MV.get("from_versioned_pb") or V_["from_versioned_pb"]
    a = C.an(g, no_inline=kfn(C, "from_pb", "merge_from_bytes", "from_versioned_pb"))
    C.no_abort(a, "total", "reading a message never aborts")
    bytes_ = params(a)[0]
    got = {a.s(x) for r in a.rets() for x in alts(a, r.value)}
    cur, mg = "ProtobufConvert::from_pb(Message::new())", f"Message::merge_from_bytes(Message::new(), {bytes_})"
    whole = f"ProtobufConvert::from_pb_bytes({bytes_})"
    direct = [r for r in a.rets() if cur in r.s or whole in r.s]
    C.ob("received", "a message in the current form is read as such", bool(direct), str(sorted(got))[:300], a.fn["span"])
    leg = [r for r in a.rets() if "from_versioned_pb(" in r.s or "legacy" in r.s.lower()]
    C.ob("received", "one in the legacy form as that", bool(leg), str(sorted(got))[:300], a.fn["span"])
    mgs = [c for c in a.calls() if c.f["name"] in ("merge_from_bytes", "from_pb_bytes")]
    C.ob("received", "both are read from the bytes received", len(sites(a, mgs)) == 2 and all(c.args[-1] == bytes_ for c in mgs), str([c.args for c in mgs])[:200], a.fn["span"])
    if leg:
        need(C, a, "received", "the legacy form only when the current one fails", leg, f"{mg} is Err", f"{cur} is Err", re.compile(r".* is Err"))
    for f in C.F.fns.values():
        if f["path"].endswith("proto::ProtobufConvert::from_pb_bytes") and "blocks" in f:
            b = C.an(f, no_inline=kfn(C, "from_pb", "merge_from_bytes"))
            p = params(b)[0]
            got = {b.s(x) for r in b.rets() for x in alts(b, r.value)}
            ms = [c for c in b.calls() if c.f["name"] == "merge_from_bytes"]
            C.ob("received", "the current form: of all the bytes", all(c.arg(1) == p for c in ms) and bool(ms), str([c.args for c in ms])[:200], b.fn["span"])
            C.ob("received", "the current form: what was merged is what is converted", all("merge_from_bytes" in x and ".Err.0" in x or re.fullmatch(r"ProtobufConvert::from_pb\((Message::new\(\))\)", x) for x in got), str(got)[:300], b.fn["span"])
            C.no_abort(b, "total", "reading the current form never aborts")
        if f["path"].endswith("proto::ProtobufConvert::to_pb_bytes") and "blocks" in f:
            b = C.an(f, no_inline=kfn(C, "to_pb", "write_to_bytes"))
            got = {b.s(x) for r in b.rets() for x in alts(b, r.value)}
            C.ob("encode", "to bytes: the conversion, written out", any("write_to_bytes(ProtobufConvert::to_pb(self))" in x for x in got) and all("write_to_bytes(ProtobufConvert::to_pb(self))" in x for x in got), str(got)[:300], b.fn["span"])
    # the conversion used for legacy messages cannot abort
    bad = []
    conv = [f for f in C.F.fns.values() if re.search(r"<impl std::convert::From<proto::schema::witnet::LegacyMessage> for types::Message>::from$", f["path"]) and "blocks" in f]
    aborting = [f for f in conv if [1 for p, k, t, ok in abort_sites(fa(C, f)) if not ok]]
    for h in (g, one):
        b = C.an(h, no_inline=kfn(C, "from_pb", "merge_from_bytes", "from_versioned_pb", *(() if h is one else ("from",))))
        if h is one:
            C.no_abort(b, "total", "converting a legacy message never aborts")
        P = params(b)[0]
        for c in raw_calls(C, h):
            to_self = c["ret"] in ("Self", "types::Message") if c.get("ret") else False
            if aborting and c["name"] in ("from", "into") and ("Self as" in c["path"] or "types::Message" in c["path"] and "Legacy" in c["path"] and "for types::Message" in c["path"]):
                bad.append((h["path"], c["path"]))
    C.ob("total", "a legacy message is not converted by what aborts", not bad, str(bad)[:300], g["span"])
    n = 0
    for f in C.F.fns.values():
        if re.search(r"<impl std::convert::From<proto::schema::witnet::\w+> for proto::schema::witnet::\w+>::from$", f["path"]) and "blocks" in f and "Legacy" in f["path"]:
            C.no_abort(C.an(f, no_inline=kfn(C, "to_pb")), "total", "legacy conversions never abort")
            n += 1


def raw_calls(C, fn):
    """calls as written in a body: resolved path and name"""
    out = []
    for b in fn["blocks"]:
        t = b.get("t") or b.get("term") or {}
        f = t.get("f") if isinstance(t, dict) else None
        if isinstance(f, dict):
            out.append({"name": f.get("name", ""), "path": f.get("path", "") + " " + str(f.get("ga", f.get("args", ""))), "ret": None})
    return out
