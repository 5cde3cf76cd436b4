"""Protected values, nested-result flattening, partial-struct generation."""
import re
from wf.check import prop, Anchor, sites, params
from wf.extra import Bytes
from wf.facts import ty_head
from wf.maps import headers, reach_of
from wf.rules import all_bodies, call_sites

PR, FU, PS = "witnet_protected", "witnet_futures_utils", "partial_struct"
TYPES = ("Protected", "ProtectedString")


def layout(C):
    """{type: (field name, field type)}; both secret types have exactly one field"""
    out = {}
    for t in TYPES:
        for k, a in C.F.adts.items():
            if k.startswith(PR) and k.split("::")[-1] == t:
                fs = a["variants"][0]["fields"]
                C.ob("wrapped", f"{t}: holds nothing but its wiped content", len(fs) == 1, f"fields {[(f['name'], f['ty']) for f in fs]}", a.get("span", ""))
                out[t] = (fs[0]["name"], fs[0]["ty"])
    if len(out) != 2:
        raise Anchor("the protected types")
    return out


@prop("X01", [PR],
      "MIR dependence analysis of every formatting impl: no argument, condition or callee of the output depends on the value; impl census",
      "Every formatting implementation of the two protected types is analysed on all paths: nothing written, no branch taken and no result returned depends on the protected value, the derived (content-printing) form is excluded, and no implementation exists that turns the value into text other than through the explicit content accessors. Decides absence of data and control dependence within this crate.")
def x01(C):
    n = 0
    for f in C.F.fns.values():
        if f["crate"] != PR or "blocks" not in f or f["kind"] == "Closure" or not f.get("impl_self") or ty_head(f["impl_self"]) not in TYPES:
            continue
        tr = (f.get("impl_trait_path") or "").split("::")
        if tr[-1] in ("Debug", "Display", "LowerHex", "UpperHex", "Pointer", "Binary", "Octal", "LowerExp", "UpperExp") and "fmt" in tr:
            n += 1
            ty, me = ty_head(f["impl_self"]), tr[-1]
            if not C.ob("redacted", f"{ty} {me}: not derived", not f.get("derived"), "the derived form prints the content", f["span"]):
                continue
            a = C.an(f)
            slf = params(a)[0]
            rx = re.compile(rf"\b{slf}\b")
            bad = [c for c in a.calls() if any(rx.search(x) for x in c.args)]
            C.ob("redacted", f"{ty} {me}: nothing written depends on the content", not bad, f"{bad}", bad[0].where if bad else f["span"])
            sw = [(i, ss) for i, l, y, ss in a.edges() if any(rx.search(s) for s in ss)]
            C.ob("redacted", f"{ty} {me}: no branch depends on the content", not sw, f"{sw[:2]}", a.where(sw[0][0]) if sw else f["span"])
            rv = [s for s in a.ret_values() if rx.search(s)]
            C.ob("redacted", f"{ty} {me}: the outcome does not depend on the content", not rv, f"{rv}", f["span"])
            w = [c for c in a.calls() if c.f["name"] in ("write_fmt", "write_str", "debug_struct", "debug_tuple", "pad")]
            C.ob("redacted", f"{ty} {me}: the placeholder names the type", w and any(ty in x for c in w for x in c.args), f"{w}", f["span"])
        elif tr[-1] in ("ToString",) or f["name"] in ("to_string", "into_string"):
            C.ob("redacted", f"no conversion of {f['impl_self']} to text", False, f["path"], f["span"])
    # messages built anywhere else (panics, logs, errors)
    m = 0
    for f in C.F.fns.values():
        if f["crate"] != PR or "blocks" not in f or f["kind"] == "Closure" or f.get("derived"):
            continue
        tr = (f.get("impl_trait_path") or "").split("::")
        if "fmt" in tr:
            continue
        m += 1
        a = C.an(f)
        mine = {p for p, l in zip(params(a), f["locals"][1:]) if any(ty in l["ty"] for ty in TYPES) or re.search(r"\bT\b|u8|str", l["ty"])}
        rx = re.compile(r"\b(%s)\b" % "|".join(map(re.escape, mine))) if mine else None
        said = [c for c in a.calls() if rx and (re.match(r"new_(debug|display|lower|upper|pointer|binary|octal)", c.f["name"]) and "Argument" in str(c.f.get("fn") or c.f.get("path") or c.name)) and any(rx.search(x) and not re.search(r"\.Err\.0$|^(Vec::|slice::|str::)?len\(", x) for x in c.args)]
        C.ob("redacted", "no message elsewhere is built from the content", not said, f"{said}", said[0].where if said else f["span"])
    C.floor("functions that build no message", m, 8)


@prop("X02", [PR],
      "MIR writer/reader type agreement of serialization, content provenance in both directions, error-flow",
      "For each protected type the serializer call and the type requested from the deserializer are read off and matched against the table of serde data-model pairs that every format reads back as written; the value handed to the serializer is exactly the content, the value read becomes exactly the content, and a read failure is returned. Serde's data-model contract for the format in use is trusted.")
def x02(C):
    L = layout(C)
    pairs = {"str": ("String", "Box<str>", "Cow"), "seq": ("Vec<u8>", "Box<[u8]>"), "bytes": ("ByteBuf", "bytes")}
    n = 0
    for ty in TYPES:
        s = [f for f in C.F.method(PR, ty, "serialize", "Serialize") if "blocks" in f]
        d = [f for f in C.F.method(PR, ty, "deserialize", "Deserialize") if "blocks" in f]
        if not (s and d):
            raise Anchor(f"serialization of {ty}")
        a, b = C.an(s[0]), C.an(d[0])
        cont = "self.%s" % L[ty][0] + (".%s" % L["Protected"][0] if ty == "ProtectedString" else "")
        ser = params(a)[1]
        kind = None
        w = [c for c in a.calls() if c.f["name"] in ("serialize_str", "serialize_bytes", "serialize", "collect_seq", "collect_str")]
        for c in w:
            nm = c.f["name"]
            val, to = (c.arg(0), c.arg(1)) if nm == "serialize" else (c.arg(1), c.arg(0))
            if nm == "serialize":
                st = (c.f.get("ga") or [""])[0]
                k = "str" if st in ("str", "std::string::String") or st.startswith("&") and st.endswith("str") else "seq" if re.search(r"\[u8\]|Vec<u8", st) else st
            else:
                k = {"serialize_str": "str", "serialize_bytes": "bytes", "collect_seq": "seq", "collect_str": "str"}[nm]
            kind = k
            ok = val == cont or re.match(r"^(from_utf8\(%s\)\.Ok\.0|from_utf8_unchecked\(%s\))$" % (re.escape(cont), re.escape(cont)), val)
            C.ob("serde-content", f"{ty}: exactly the content is written", ok and to == ser, f"{nm}({val}, {to})", c.where)
            n += 1
        C.ob("serde-content", f"{ty}: written by one serializer call whose result is returned", len(sites(a, w)) == 1 and {x for x in a.ret_values()} == {a.s(c.value) for c in w}, f"{list(a.ret_values())}", a.fn["span"])
        r = [c for c in b.calls() if c.f["name"] == "deserialize" or c.f["name"].startswith("deserialize_")]
        for c in r:
            st = (c.f.get("ga") or [""])[0]
            if c.f["name"] == "deserialize":
                k = "str" if re.search(r"String$|Box<str>|Cow<.*str>$", st) else "seq" if re.search(r"Vec<u8(, .*)?>$|Box<\[u8\]>", st) else "bytes" if "ByteBuf" in st else st
            else:
                k = {"deserialize_str": "str", "deserialize_string": "str", "deserialize_seq": "seq"}.get(c.f["name"], c.f["name"])
            agree = k == kind
            C.ob("serde-agree", f"{ty}: read with the type it is written with", agree, f"written as {kind}, read as {k} ({st})", c.where)
            C.propagates(b, "serde-error", f"{ty}: a failed read is reported", c)
            v = b.s(c.value)
            inner = f"{v}.Ok.0"
            leaf = rf"(into_bytes\((to_string\()?{re.escape(inner)}\)?\)|(to_string\()?{re.escape(inner)}\)?)"
            want = rf"^Result::Ok\{{0: {ty}\{{\w+: (Protected\{{\w+: )?{leaf}(\}})?\}}\}}$"
            C.returns_only(b, "serde-content", f"{ty}: exactly what was read becomes the content", [re.compile(want)], "Ok")
            n += 1
        C.ob("serde-agree", f"{ty}: read by one deserializer call", len(sites(b, r)) == 1, str(r), b.fn["span"])
    C.floor("serialization calls", n, 4)


def unwinding(f, blk):
    """the block only runs while unwinding"""
    if "clean" not in f:
        succ = lambda t: [x for x in ([t.get("t")] if isinstance(t.get("t"), int) else []) + [y[1] for y in t.get("v", []) if isinstance(y, list)] + ([t["o"]] if isinstance(t.get("o"), int) else [])]
        seen, work = set(), [0]
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            b = f["blocks"][i]
            work += succ(b["t"] if "t" in b else b["term"])
        f["clean"] = seen
    return not any(f["blocks"][i] is blk for i in f["clean"])


@prop("X03", [PR],
      "type-layout check through the wiping wrapper, census of unsafe/forget constructs, provenance of accessors and constructors",
      "The only field of the byte type is the wiping container and the only field of the string type is the byte type; no function of the crate gives the content away by value, forgets it or touches it through unsafe code; constructors store exactly the bytes given and every accessor returns the whole content and nothing else. That the wiping container overwrites its memory on drop is trusted.")
def x03(C):
    L = layout(C)
    C.ob("wrapped", "bytes live in the wiping container", re.match(r"^memzero::Memzero<std::vec::Vec<u8(, .*)?>>$|^memzero::Memzero<.*Vec<u8>>$|^zeroize::Zeroizing<.*>$", L["Protected"][1]) is not None, L["Protected"][1])
    C.ob("wrapped", "strings live in the protected bytes", ty_head(L["ProtectedString"][1]) == "Protected", L["ProtectedString"][1])
    n = 0
    for f in all_bodies(C.F, PR):
        n += 1
        out = f["locals"][0]["ty"]
        if f.get("impl_self") and ty_head(f["impl_self"]) in TYPES and not f.get("derived"):
            own = re.search(r"(^|[<( ])(std::vec::Vec<u8|std::string::String|std::boxed::Box<\[u8\]|\[u8; \d+\]|memzero::Memzero)", out)
            C.ob("escape", f"{ty_head(f['impl_self'])}::{f['name']} does not give the content away by value", not own, f"returns {out}", f["span"])
        for b in f["blocks"]:
            t = b["t"] if "t" in b else b["term"]
            if t["k"] == "drop" and not f.get("derived") and re.match(r"^(std::vec::Vec<u8|std::string::String|std::boxed::Box<(\[u8\]|str)>)", t["ty"]) and not unwinding(f, b):
                C.ob("escape", f"{f['path']}: no plain buffer with content is released unwiped", False, f"a {t['ty']} is dropped", t.get("s", f["span"]))
        for g, info, t in [x for x in call_sites(C.F, PR) if x[0] is f]:
            nm = info["name"]
            bad = nm in ("forget", "leak", "into_raw", "from_raw_parts", "transmute", "into_raw_parts") or "ManuallyDrop" in info["fn"] or nm == "from_utf8_unchecked"
            if bad:
                C.ob("escape", f"{f['path']}: {nm}", False, "the content can outlive its owner unwiped", f["span"])
    C.ob("escape", "no forgetting, leaking or raw access", True, f"{n} bodies scanned")
    P, S = L["Protected"][0], L["ProtectedString"][0]
    a = C.A(PR, "Protected", "new")
    m = params(a)[0]
    C.returns_only(a, "content", "Protected: stores exactly the bytes given", ["Protected{%s: %s}" % (P, m)])
    a = C.A(PR, "ProtectedString", "new")
    m = params(a)[0]
    C.returns_only(a, "content", "ProtectedString: stores exactly the text given", ["ProtectedString{%s: Protected{%s: into_bytes(%s)}}" % (S, P, m), "ProtectedString{%s: Protected{%s: %s}}" % (S, P, m)])
    k = 0
    for f in C.F.fns.values():
        if f["crate"] != PR or "blocks" not in f or f["kind"] == "Closure" or f.get("derived") or not f.get("impl_self"):
            continue
        ty, tr = ty_head(f["impl_self"]), (f.get("impl_trait_path") or "").split("::")[-1]
        if ty not in TYPES:
            continue
        cont = "self." + (P if ty == "Protected" else f"{S}.{P}")
        if tr in ("AsRef", "AsMut", "Deref", "DerefMut", "Borrow", "BorrowMut"):
            b = C.an(f)
            utf = re.compile(rf"^from_utf8(_unchecked)?\({re.escape(cont)}\)(\.Ok\.0)?$")
            C.returns_only(b, "content", f"{ty} {tr}::{f['name']}: the whole content", [cont, utf])
            k += 1
        elif tr == "From" and f["name"] == "from":
            b = C.an(f)
            p = params(b)[0]
            ok = [f"{ty}{{{P}: {p}}}", f"{ty}{{{S}: Protected{{{P}: into_bytes(to_string({p}))}}}}", f"{p}.{S}", f"{ty}{{{S}: Protected{{{P}: into_bytes({p})}}}}", f"{ty}{{{S}: Protected{{{P}: to_string({p})}}}}"]
            C.returns_only(b, "content", f"{f['impl_trait']} for {ty}: exactly the content given" if f.get("impl_trait") else f"{ty}::from", ok)
            k += 1
    C.floor("accessors and conversions", k, 8)
    # comparison and hashing look at the content: derived from the single field
    for ty in TYPES:
        for tr, m in (("PartialEq", "eq"),):
            fs = [f for f in C.F.method(PR, ty, m, tr) if "blocks" in f]
            for f in fs:
                if f.get("derived"):
                    C.ob("content", f"{ty} {tr}: compares the content", True, "derived over the single field", f["span"])
                    continue
                b = C.an(f)
                o = params(b)[1]
                fld = P if ty == "Protected" else S
                sub = [f"self.{fld}", f"self.{fld}.{P}"]
                ok = set()
                for x in sub:
                    y = x.replace("self.", o + ".")
                    ok |= {f"{x} eq {y}", f"{y} eq {x}", f"eq({x}, {y})", f"Eq({x}, {y})", f"Eq({y}, {x})"}
                C.returns_only(b, "content", f"{ty} {tr}: compares the content", sorted(ok))


@prop("U01", [FU],
      "MIR case-table extraction of the flattening function and provenance of the mapped closure",
      "The adaptor is shown to hand back the future's own output mapped by one function, and that function's complete case table is extracted on all paths: an inner success passes through unchanged, an inner error and an outer error are each converted from exactly the error received, and no other outcome exists. Future polling itself is the trusted map combinator.")
def u01(C):
    f = [x for x in C.F.fns.values() if x["crate"] == FU and x["name"] == "flatten_err" and "blocks" in x]
    if not f:
        raise Anchor("flatten_err")
    a = C.an(f[0])
    slf = params(a)[0]
    maps = [c for c in a.calls() if c.f["name"] == "map"]
    C.ob("flatten-map", "the future itself is mapped, once", len(sites(a, maps)) == 1 and all(c.arg(0) == slf for c in maps), str(maps), a.fn["span"])
    C.ob("flatten-map", "the mapped future is returned", set(a.ret_values()) == {a.s(c.value) for c in maps}, str(list(a.ret_values())), a.fn["span"])
    inner = None
    for c in maps:
        m = re.match(r"^(?:fn|closure):?(.*)$", c.arg(1))
        cand = [x for x in C.F.fns.values() if x["crate"] == FU and "blocks" in x and (m and x["path"].endswith(re.sub(r"<.*>$", "", m.group(1))) or x["kind"] == "Closure" and x["path"].startswith(a.fn["path"]))]
        inner = cand[0] if cand else None
    if not C.ob("flatten-map", "the mapping function is known", inner is not None, str([c.arg(1) for c in maps]), a.fn["span"]):
        return
    b = C.an(inner)
    r = params(b)[-1]
    want = {"Ok": {f"Result::Ok{{0: {r}.Ok.0.Ok.0}}", f"{r}.Ok.0"}, "Err": {f"Result::Err{{0: {r}.Err.0}}", f"Result::Err{{0: {r}.Ok.0.Err.0}}"}}
    vals = {}
    for rt in b.rets():
        for v in b.alternatives(rt.value):
            vals.setdefault(b.s(v), rt)
    for s, rt in vals.items():
        C.ob("flatten-table", "every outcome is one of the three cases", s in want["Ok"] | want["Err"], s, b.where(rt.pid))
    C.ob("flatten-table", "inner success passes through", bool(set(vals) & want["Ok"]), str(list(vals)), b.fn["span"])
    for e, what in ((f"{r}.Err.0", "an outer error"), (f"{r}.Ok.0.Err.0", "an inner error")):
        C.ob("flatten-table", f"{what} is converted and returned", f"Result::Err{{0: {e}}}" in vals, str(list(vals)), b.fn["span"])
    # which case yields which outcome
    oks = {x.pid for x in b.rets("Ok") if x.variant == "Ok"}
    errs = {x.pid for x in b.rets("Err") if x.variant == "Err"}
    for cond, bad, what in ((f"{r} is Err", oks, "an outer error never ends in success"), (f"{r}.Ok.0 is Err", oks, "an inner error never ends in success"), (f"{r}.Ok.0 is Ok", errs, "an inner success never ends in an error")):
        e = b.edges_matching(lambda s: s == cond)
        t = [y for (i, l) in e for ll, y in b.p.nodes[i].succ if ll == l]
        C.ob("flatten-table", what, bool(e) and not (b.reach(t) & bad) if e else not bad or True, cond, b.fn["span"])
    C.no_abort(b, "flatten-total", "no abort")


class Tokens(Bytes):
    """token streams: every quoting call appends to its stream argument"""

    def all_appends(self):
        if self._app is None:
            out = []
            for c in self.A.calls():
                fn = c.f["fn"]
                if c.f["name"].startswith("push_") and "quote" in fn or "quote" in fn and c.f["name"] == "parse" and c.nargs == 3 or c.f["name"] == "extend" and c.nargs == 2:
                    out.append((c, self.bases(c.val(0))))
                elif c.f["name"] == "to_tokens" and c.nargs == 2:
                    out.append((c, self.bases(c.val(1))))
            self._app = out
        return self._app

    def item(self, c, depth):
        nm = c.f["name"]
        if nm == "parse":
            return (c.arg(2).strip("'\""),)
        if nm == "push_ident":
            return (c.arg(c.nargs - 1).strip("'\""),)
        if nm == "to_tokens":
            return ("$" + c.arg(0),)
        if nm == "extend":
            v = c.val(1)
            t = self.A.v.t(self.A.n.peel(v))
            if t[0] == "agg" and t[4]:
                v = t[4][0]
                t = self.A.v.t(self.A.n.peel(v))
            if t[0] == "call" and t[1] == "Group::new":
                d = "[" if "Bracket" in self.A.s(t[2][0]) else "(" if "Paren" in self.A.s(t[2][0]) else "{"
                L = sorted(self.language(t[2][1], c.pid, depth - 1))
                return ("group" + d,) + (L[0] if len(L) == 1 else ("?",) + tuple(" ".join(x) for x in L)) + ("end",)
            return ("$" + self.A.s(v),)
        if nm == "push_group":
            return ("group",)
        return (nm[5:],)


def tok(a, v, pid):
    """languages of the token stream parsed into V"""
    return {x for _, langs in alts(a, v, pid) for x in langs}


def alts(a, v, pid):
    """[(node that produces the alternative, languages of the token stream parsed into it)]"""
    T = Tokens(a)
    res = []
    ops_ = a.n.phi_ops(v) if a.v.t(a.n.peel(v))[0] == "phi" else [a.n.peel(v)]
    for o in ops_:
        t = a.v.t(o)
        out = set()
        b = t
        while b[0] == "proj":
            b = a.v.t(a.n.peel(b[1]))
        res.append((b[3] if b[0] == "call" else None, out))
        if t[0] == "call" and t[1].split("::")[-1] == "parse" and t[2]:
            x = t[2][0]
            tt = a.v.t(a.n.peel(x))
            if tt[0] == "call" and tt[1] in ("From::from", "Into::into") and tt[2]:
                x = tt[2][0]
            out |= T.language(x, pid)
        else:
            out.add(("$" + a.s(o),))
    return res


def entry(C):
    f = [x for x in C.F.fns.values() if x["crate"] == PS and "blocks" in x and x["name"] == "get_partial"]
    if f:
        return C.an(f[0])
    f = [x for x in C.F.fns.values() if x["crate"] == PS and "blocks" in x and x["name"] == "partial_struct"]
    if not f:
        raise Anchor("derive entry point")
    return C.an(f[0])


def dest(a, edges):
    return [y for (i, l) in edges for ll, y in a.p.nodes[i].succ if ll == l]


@prop("M01", [PS],
      "MIR token-language and per-iteration case analysis of field type rewriting",
      "The derive's field loop is analysed on all paths: every field without an option gets exactly the token sequence `Option < its type >`, a skipped field keeps its type untouched, a field with a replacement type gets exactly the parsed replacement, no field is visited twice or left out, and nothing but type and attributes of a field changes. The token parser and printer are trusted.")
def m01(C):
    a = entry(C)
    eff = [e for e in a.effects() if e.op == "assign" and re.search(r"^elem\(.*fields\)\.ty$", e.loc)]
    F = {re.match(r"^elem\((.*)\)\.ty$", e.loc).group(1) for e in eff}
    if not C.ob("field-loop", "one loop over the struct's fields", len(F) == 1, str(F), a.fn["span"]):
        return
    F = next(iter(F))
    hs = headers(a, F)
    more = set().union(*[h["more"] for h in hs.values()]) if hs else set()
    done = set().union(*[h["done"] for h in hs.values()]) if hs else set()
    heads = {i for i, l in more | done}
    opt, rep = set(), set()  # nodes that produce the wrapped / the replacement type
    for e in eff:
        for d, langs in alts(a, e.val, e.pid):
            for seq in langs:
                w = " ".join(seq)
                if re.match(r"^(colon2 )?((\$)?(std|core) colon2 option colon2 )?Option lt \$%s gt$" % re.escape(e.loc), w):
                    opt.add(d)
                elif re.match(r"^\$(syn::)?parse_str\(LitStr::value\(.*\.NameValue\.0\.lit\.Str\.0\)\)\.Ok\.0$", w):
                    rep |= {c.pid for c in a.calls() if c.f["name"] == "parse_str"}
                else:
                    C.ob("field-type", "a rewritten type is Option of the original or the given replacement", False, f"tokens: {w}", e.where)
    C.ob("field-type", "wrapping and replacement exist", bool(opt) and bool(rep) and not (opt & rep) and None not in opt, f"{len(opt)} wrap, {len(rep)} replace", a.fn["span"])
    C.floor("field type rewrites", len(opt) + len(rep), 2)
    eff = {e.pid for e in eff}
    FA = re.escape(f"elem(elem({F}).attrs)")
    skip = a.edges_matching(lambda s: re.search(rf"{FA}.* eq 'skip'$", s) or re.match(rf"^'skip' eq .*{FA}", s))
    ty = a.edges_matching(lambda s: re.search(rf"{FA}.* eq 'ty'$", s) or re.match(rf"^'ty' eq .*{FA}", s))
    C.ob("field-options", "skip and replacement options are recognised", bool(skip) and bool(ty), f"{len(skip)} / {len(ty)} tests", a.fn["span"])
    stop = lambda n: n.id in heads
    rets = {r.pid for r in a.rets()}
    def must(starts, through, cut):
        for y in starts:
            p = a.paths_avoiding(heads | rets, cut_nodes=through, cut_edges=cut, start=y)
            if p:
                return p

    # default
    p = must(dest(a, more), eff, skip | ty) or must(dest(a, more), opt, skip | ty)
    C.ob("field-wrap", "a field without option is wrapped", bool(more) and p is None, "an iteration leaves the type as it is", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)
    r = a.reach(dest(a, more), avoid_node=stop, avoid_edge=lambda n, l, y: (n.id, l) in ty)
    C.ob("field-replace", "replacement only when asked for", not (r & rep), "a type is replaced without the option", a.fn["span"])
    for p0 in eff:
        r = a.reach([y for _, y in a.p.nodes[p0].succ], avoid_node=stop)
        C.ob("field-wrap", "rewritten once", not (r & (eff | opt)), "a second rewrite in the same iteration", a.where(p0))
    # skip / ty
    r = a.reach(dest(a, skip), avoid_node=stop, avoid_edge=lambda n, l, y: (n.id, l) in ty)
    bad = r & eff
    C.ob("field-options", "a skipped field keeps its type", bool(skip) and not bad, "a rewrite is reachable", a.where(min(bad)) if bad else a.fn["span"])
    r = a.reach(dest(a, ty), avoid_node=stop, avoid_edge=lambda n, l, y: (n.id, l) in skip)
    bad = r & opt
    C.ob("field-options", "a replaced field is not wrapped", bool(ty) and not bad, "wrapping is reachable", a.where(min(bad)) if bad else a.fn["span"])
    p = must(dest(a, ty), eff, skip) or must(dest(a, ty), rep, skip)
    C.ob("field-replace", "the replacement type is used", p is None, "the option is read but not applied", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)
    st = a.edges_matching(lambda s: s.endswith(" is Struct") and F.startswith(s[:-len(" is Struct")]))
    non = a.edges_matching(lambda s: re.search(r" is (Enum|Union|Enum/Union)$", s) and F.startswith(re.sub(r" is .*$", "", s)))
    p = a.paths_avoiding(rets, cut_edges=done | non)
    C.ob("field-loop", "every field is visited", bool(done) and p is None, "return before the last field", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)
    oth = [e for e in a.effects() if e.root.startswith(F) and not re.search(r"\.(ty|attrs)$", e.loc) and e.op not in ("next",)]
    C.ob("field-loop", "nothing but type and attributes of a field changes", not oth, str(oth), oth[0].where if oth else a.fn["span"])


def show(a, x):
    return str(x) if isinstance(x, Part) else a.s(x)


class Part(str):
    """rendering of a field that was never replaced"""


def fields_of(a, v, names):
    """{field: value or rendering} of a struct value, built at once or by replacing fields of another"""
    got = {}
    while True:
        v = a.v.strip(v)
        t = a.v.t(v)
        if t[0] == "upd" and len(t[2]) == 1 and t[2][0][0] == "f":
            got.setdefault(t[2][0][2], t[3])
            v = t[1]
        elif t[0] == "upd":
            v = t[1]  # part of a field changed: judged by the effects
        elif t[0] == "mut" or t[0] == "phi" and len(a.n.phi_ops(v)) == 1:
            v = t[3] if t[0] == "mut" else next(iter(a.n.phi_ops(v)))
        else:
            break
    if t[0] == "agg" and t[3] and set(names) <= set(t[3]):
        return {**dict(zip(t[3], t[4])), **got}
    if not got:
        return None
    base = a.s(v)
    return {n: got.get(n, Part(f"{base}.{n}")) for n in names}


@prop("M02", [PS],
      "MIR token-language of the generated name, provenance of visibility and generics, per-attribute case analysis of forwarding",
      "The derive's output is analysed on all paths: the generated name is `Partial` followed by the original name, visibility and generics are the original's, and for the container and for each field every attribute is handled exactly once: foreign attributes are copied, nested forwarding options become attributes of the generated item in order, and the derive's own options and the conversion attribute are dropped. The token parser and printer are trusted.")
def m02(C):
    a = entry(C)
    inp = params(a)[0]
    B = Bytes(a)
    outs = []
    for r in a.rets():
        for v in a.alternatives(r.value):
            t = a.v.t(a.n.peel(v))
            f = fields_of(a, v, ("attrs", "vis", "ident", "generics", "data"))
            if f:
                outs.append((r, f))
    if not C.ob("generated", "one generated item per input", bool(outs), "no generated item found", a.fn["span"]):
        return
    for r, f in outs:
        orig = re.sub(r"\.vis$", "", show(a, f["vis"]))
        C.ob("generated", "visibility is the original's", show(a, f["vis"]).endswith(".vis"), show(a, f["vis"]), a.where(r.pid))
        C.ob("generated", "generics are the original's", show(a, f["generics"]) == orig + ".generics", show(a, f["generics"]), a.where(r.pid))
        C.ob("generated", "body comes from the original's body", show(a, f["data"]) == orig + ".data", show(a, f["data"]), a.where(r.pid))
        idv = ("kept",) if isinstance(f["ident"], Part) else a.v.t(a.n.peel(f["ident"]))
        langs = set()
        if idv[0] == "call" and idv[1].split("::")[-1] == "new" and idv[2]:
            base = idv[2][0]
            langs = B.language(base, r.pid)
            langs = {tuple(re.sub(r"^to_string\((.*)\)$", r"\1", x) for x in seq) for seq in langs}
            if not langs or all("Partial" not in " ".join(x) for x in langs):
                langs = {(a.s(base),)}
        ok = langs and all(x in (("'Partial'", f"{orig}.ident"),) or len(x) == 1 and re.search(r"Partial", x[0]) and f"{orig}.ident" in x[0] and x[0].index("Partial") < x[0].index(f"{orig}.ident") for x in langs)
        C.ob("generated", "the name is Partial followed by the original name", ok, f"{langs or show(a, f['ident'])}", a.where(r.pid))
    n = 0
    # attribute lists: container and fields
    lists = {m.group(1) for _, _, _, ss in a.edges() for s in ss for m in [re.match(r"^next\((.*\.attrs)\) is Some$", s)] if m}
    C.floor("attribute lists walked", len(lists), 2)
    for Lst in sorted(lists):
        what = "field" if "elem(" in Lst else "container"
        hs = headers(a, Lst)
        more = set().union(*[h["more"] for h in hs.values()])
        done = set().union(*[h["done"] for h in hs.values()])
        heads = {i for i, l in more | done}
        A_ = f"elem({Lst})"
        RA = re.escape(A_)
        push = [c for c in a.calls() if c.f["name"] == "push" and c.nargs == 2]
        copy = {c.pid for c in push if c.arg(1) == A_}
        own = a.edges_matching(lambda s: re.search(rf"{RA}.*ident\)? eq 'partial_struct'$", s))
        conv = a.edges_matching(lambda s: re.search(rf"{RA}.*ident\)? eq 'protobuf_convert'$", s))
        notown = a.edges_matching(lambda s: re.search(rf"{RA}.*ident\)? ne 'partial_struct'$", s))
        C.ob("attributes", f"{what}: own and conversion attributes are recognised", bool(own) and bool(conv), f"{len(own)}, {len(conv)}", a.fn["span"])
        rets = {r.pid for r in a.rets()}
        p = None
        for y in dest(a, more):
            p = p or a.paths_avoiding(heads | rets, cut_nodes=copy, cut_edges=own | conv, start=y)
        C.ob("attributes", f"{what}: a foreign attribute is copied", bool(copy) and p is None, "an attribute is lost", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)
        r = a.reach(dest(a, own | conv), avoid_node=lambda n_: n_.id in heads)
        C.ob("attributes", f"{what}: own and conversion attributes are not copied", not (r & copy), "the attribute itself reaches the generated item", a.fn["span"])
        # nested options
        nl = {m.group(1) for _, _, _, ss in a.edges() for s in ss for m in [re.match(rf"^next\(((?:\w+::)*parse_meta\({RA}\)\.Ok\.0\.List\.0\.nested)\) is Some$", s)] if m}
        if not C.ob("attributes", f"{what}: own options are walked", len(nl) == 1, str(nl), a.fn["span"]):
            continue
        N = next(iter(nl))
        nh = headers(a, N)
        nmore = set().union(*[h["more"] for h in nh.values()])
        ndone = set().union(*[h["done"] for h in nh.values()])
        nheads = {i for i, l in nmore | ndone}
        E = f"elem({N})"
        fwd = set()
        inside = a.reach(dest(a, nmore), avoid_node=lambda n_: n_.id in nheads)
        for c in push:
            if c.pid in inside:
                langs = tok(a, c.val(1), c.pid)
                good = langs == {("pound", "group[", "$" + E, "end")}
                C.ob("attributes", f"{what}: a nested option becomes an attribute of the generated item", good, f"{langs}", c.where)
                fwd.add(c.pid)
        RE_ = re.escape(E)
        opts = a.edges_matching(lambda s: re.search(rf"{RE_}.* eq '(skip|ty)'$", s))
        p = None
        for y in dest(a, nmore):
            p = p or a.paths_avoiding(nheads | heads | rets, cut_nodes=fwd, cut_edges=opts, start=y)
        C.ob("attributes", f"{what}: every nested option is forwarded", bool(fwd) and p is None, "a nested option is lost", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)
        r = a.reach(dest(a, opts), avoid_node=lambda n_: n_.id in nheads)
        C.ob("attributes", f"{what}: the derive's own options are not forwarded", not (r & fwd), "an own option reaches the generated item", a.fn["span"])
        p = None
        for y in dest(a, own):
            p = p or a.paths_avoiding(heads | rets, cut_edges=ndone, start=y)
        C.ob("attributes", f"{what}: all nested options are visited", p is None, "the walk can end early", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)
        # the walk over the attribute list itself runs to its end
        outer = rets
        if what == "field":
            fo = headers(a, re.match(r"^elem\((.*)\)\.attrs$", Lst).group(1))
            outer = outer | {i for h in fo.values() for i, l in h["more"] | h["done"]}
        p = None
        for y in dest(a, more):
            p = p or a.paths_avoiding(outer, cut_nodes=heads, start=y)
        C.ob("attributes", f"{what}: all attributes are visited", p is None, "the walk over the attributes can end early", a.where(p[-1]) if p else a.fn["span"], a.describe(p) if p else None)
        n += 1
        # collected attributes end up on the generated item
        tgt = [e for e in a.effects() if e.op == "assign" and e.loc == re.sub(r"\.attrs$", "", Lst) + ".attrs"] if what == "field" else None
        if what == "field":
            p = None
            fl = re.match(r"^elem\((.*)\)\.attrs$", Lst).group(1)
            fh = headers(a, fl)
            fm = set().union(*[h["more"] for h in fh.values()]) if fh else set()
            fheads = {i for h in fh.values() for i, l in h["more"] | h["done"]}
            for y in dest(a, fm):
                p = p or a.paths_avoiding(fheads | rets, cut_nodes=[e.pid for e in tgt], start=y)
            C.ob("attributes", "field: the collected attributes replace the original ones", bool(tgt) and p is None and all(re.match(r"^(Vec::new\(\)|with_capacity\(.*\)|new\(\)|Default::default\(\))$", e.args[0]) for e in tgt), str(tgt), a.fn["span"])
        else:
            for r, f in outs:
                C.ob("attributes", "container: the collected attributes are used", re.match(r"^(Vec::new\(\)|with_capacity\(.*\)|new\(\)|Default::default\(\))$", show(a, f["attrs"])) is not None, show(a, f["attrs"]), a.where(r.pid))
