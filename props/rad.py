"""The oracle's virtual machine: scripts, reducers, filters, tally clauses."""
import re
from wf.check import prop, sites, params
from wf.extra import abort_sites, PANICKY
from wf.rules import A as Analysis
from wf.graph import TooBig
from wf.maps import headers, step_ok
from wf.valid import *

RAD = "/repo/rad/src/"
REPORT = ("/repo/data_structures/src/radon_report.rs", "/repo/data_structures/src/radon_error.rs")
HOM = r"RadonArray::is_homogeneous\("


def parsed(t):
    """(function, arguments) of a rendered call, casts removed"""
    while m := re.fullmatch(r"\((.*) as \w+\)", t):
        t = m[1]
    m = re.fullmatch(r"([\w:]+)\((.*)\)", t)
    return (m[1].split("::")[-1], top_args(m[2]), t) if m else (None, [], t)


def upto(t, n):
    """the rendered number T is N at most: N, or a minimum, maximum, clamping or difference that shows it"""
    f, xs, t = parsed(t)
    return t in (n, f"try_from({n}).Ok.0", "0") or f == "min" and any(upto(x, n) for x in xs) or f == "max" and all(upto(x, n) for x in xs) or f == "clamp" and upto(xs[2], n) or f == "saturating_sub" and upto(xs[0], n)


def positive_(t, n):
    f, xs, t = parsed(t)
    return t in (n, f"try_from({n}).Ok.0", "0") or f == "max" and any(positive_(x, n) for x in xs) or f == "min" and all(positive_(x, n) for x in xs) or f == "clamp" and positive_(xs[1], n) or f == "saturating_sub"


def clamped(t, v):
    """the rendered cut of V (or of what a clamped cut of V leaves, by the difference) is inside it"""
    n, (f, xs, _) = f"len({v})", parsed(t)
    if f != "split_at":
        return False
    ok = upto(xs[1], n) and positive_(xs[1], n)
    if xs[0] == v:
        return ok
    f, ys, _ = parsed(re.sub(r"\.1$", "", xs[0]))
    d = parsed(xs[1])
    return ok and f == "split_at" and ys[0] == v and clamped(f"split_at({v}, {ys[1]})", v) and d[0] == "saturating_sub" and d[1][1] == ys[1]


# where an abort is written but cannot happen: function -> (what it looks like, conditions known there, why)
ALLOW = {
    "TryFrom<serde_json::Value>>::try_from": [("panic:unwrap", [], "as_i64/as_u64/as_f64 after is_i64/is_u64, and any other number is a float")],
    "Counter::increment": [("index:", [], "one category per kind of value: see counter below"), ("assert:Add", [], "one count per reveal")],
    "evaluate_tally_postcondition_clause": [("panic:panicking::panic_fmt", [], "the tally evaluates clauses on a tally stage report")],
    "evaluate_tally_precondition_clause": [("panic:unwrap", [], "counts of reveals and commits fit in 32 bits"), ("panic:panicking::panic_fmt", [], "what is counted are no errors")],
    "RadError::try_into_cbor_array": [("panic:panicking::panic_fmt", [], "error arguments are serialized as tuples")],
    "filters::deviation::boolean_standard_filter": [("panic:panicking::unreachable", [HOM], "items of one type; a transposed array holds arrays")],
    "filters::deviation::keep_rows": [("panic:panicking::panic_fmt", [r"elem\("], "keep is what boolean_standard_filter returned: booleans, in arrays at most")],
    "filters::deviation::standard_filter": [("panic:panicking::panic_fmt", [r"boolean_standard_filter\(.* is Ok"], "booleans, as returned by boolean_standard_filter")],
    "operators::array::filter": [("call:slice::split_at", [r"first\(args\) is Some|len\(args\) g[et] |!is_empty\(args\)"], "there is a first argument")],
    "operators::array::get_numeric_string": [(r"call:slice::split_at\(args, min\(.*len\(args\)", [], "split_at(min(len, 1))")],
    "operators::map::get_numeric_string": [(r"call:slice::split_at\(args, min\(.*len\(args\)", [], "split_at(min(len, 1))")],
    "operators::array::inner_get": [("panic:unwrap", [r"^try_from\(try_from\(.* is Err$"], "an index converted from i32 converts back")],
    "operators::array::partial_results_extract": [("panic:unwrap", [], "a script that ran has at least one partial result")],
    "operators::array::sort": [("panic:panicking::unreachable", [r"^" + HOM + r"array::map\(.*\.Ok\.0\.Array\.0\)$|^array::map\(.*\)\.Ok\.0 is (?!.*(Array|RadonError))"], "mapped items of one type; map returns an array or an intercepted error")],
    "operators::array::transpose": [("index:", [r"len\(.*\) eq len\("], "rows of one length")],
    "operators::bytes::slice": [(lambda t: clamped(t, "RadonType::value(input)"), [], "bounds clamped to the length")],
    "operators::bytes::to_integer": [("(index|call):", [r"len\(RadonType::value\(input\)\) le 16"], "at most sixteen bytes")],
    "operators::string::add_children": [("panic:unwrap", [r"len\(.*\) eq 1"], "one element")],
    "operators::string::parse_element_map": [("panic:unwrap", [r"len\(.*\) eq 1"], "one element")],
    "operators::string::into_radon_types": [("panic:unwrap", [r"Number::as_(f64|i128)"], "a number that is no float is an integer")],
    "operators::string::radon_trim": [("index:", [r"ends_with\(RadonType::value\(input\), 10\)"], "what ends with a line feed has one to cut")],
    "operators::string::string_match": [("panic:panicking::unreachable", [r"try_from\(args\[1\]\) is Ok"], "a value read from an argument is never an error")],
    "reducers::average::mean": [("panic:panicking::unreachable", [r"array::transpose\(input\) is Ok"], "a transposed array holds arrays")],
    "reducers::deviation::standard": [("panic:panicking::unreachable", [r"(array::transpose\(input\)|average::mean\(input, MeanReturnPolicy::ReturnFloat\{\}\)) is Ok"], "a transposed array holds arrays; a mean without rounding is a float")],
    "reducers::hash_concatenate::hash_concatenate": [("assert:Mul\\(32, len", [], "no list fills the memory"), ("panic:unwrap", [r"bytes::hash\(.*SHA2_256"], "that hash function is supported"), ("index:.*RangeTo\\{end: min\\(len", [], "cut at the length at most")],
    "reducers::median::median": [("panic:panicking::unreachable", [r"array::sort\(.* is Ok|\[0\] is Integer"], "a sorted array is an array")],
    "reducers::mode::mode": [("assert:Add\\(.*: usize", [], "one count per item"), ("panic:unwrap", [r"max\(values\(.*is Some|!is_empty|is Some"], "some item has the highest count")],
    "try_data_request": [("panic:unwrap", [], "a lock nobody holds while panicking"), ("panic:panicking::assert_failed", [], "the caller gives one response per source")],
    "http_response::{closure#0}": [("panic:panicking::panic_fmt", [], "called for web sources only: see run below")],
    "try_from_serde_cbor_value_for_cbor_value": [("panic:unwrap", [], "what was built from a script or a decoded error encodes and decodes")],
    "RadonTypes::as_operable": [("panic:panicking::panic_fmt", [], "no operator gives an error as its value")],
    "UserAgent::random": [("assert:index Rng::gen_range\\(rand::thread_rng\\(\\), 0, len\\(", [], "drawn below the length")],
    "RadonReport::<RT>::from_partial_results": [("panic:unwrap", [], "the input itself is the first partial result")],
    "TallyMetaData::<RT>::update_liars": [("panic:", [r"liars"], "one flag per value that was not yet a liar")],
}


def rad_fns(C):
    out = []
    aw = {f["path"] for f in C.F.fns.values() if f.get("async")}
    for f in C.F.fns.values():
        sp, p = f.get("span") or "", f["path"]
        if "blocks" not in f or not sp.startswith((RAD,) + REPORT) or "::tests::" in p:
            continue
        if "{closure" in p and not (p.endswith("::{closure#0}") and p[:-13] in aw):
            continue
        out.append(f)
    return sorted(out, key=lambda f: f["path"])


def cut_keys(C, fns):
    return {f["key"] for f in fns} | {k for k, g in C.F.fns.items() if (g.get("span") or "").startswith("/repo/crypto/src/") and "{closure" not in g["path"]} | {k for k, g in C.F.fns.items() if g["path"].endswith("::{closure#0}") and any(h["path"] == g["path"][:-13] and h.get("async") for h in C.F.fns.values())}


def allowed(fn):
    p = fn["path"]
    return next((v for k, v in ALLOW.items() if p.endswith(k)), [])


def residual(a, fn):
    """[(pid, kind, text)] places of A that may abort and are not accounted for, and how many there are in all"""
    bad, n = [], 0
    for p, k, t, ok in abort_sites(a):
        n += 1
        if ok or t.startswith("other:Resumed"):
            continue
        for rx, needs, _ in allowed(fn):
            if rx(t) if callable(rx) else re.match(rx, f"{k}:{t}"):
                ms = a.must([p])
                if all(any(re.search(x, m) for m in ms) for x in needs):
                    break
        else:
            bad.append((p, k, t))
    return bad, n


def written_aborts(C, f):
    """[text] places of F and its closures, as written, that could abort"""
    out = []
    for g in C.F.fns.values():
        if "blocks" not in g or not (g is f or g["path"].startswith(f["path"] + "::{closure")):
            continue
        for b in g["blocks"]:
            t = b["t"]
            if t["k"] == "assert" and "Resumed" not in t["msg"]:
                out.append(t["msg"])
            elif t["k"] == "call":
                h = t.get("f") or {}
                if t.get("t") is None or h.get("name") in PANICKY | {"index", "index_mut", "unwrap", "expect", "unwrap_err", "expect_err"} and h.get("krate") in ("core", "alloc", "std"):
                    out.append(h.get("name"))
    return out


@prop("A01", ["witnet_rad"], "abort-freedom analysis of every function of the virtual machine: each panic, index, slice, arithmetic or division site is proven unreachable from the conditions on the way to it",
      "Bounds: recursion depth (nested documents and scripts), memory and third-party decoders are outside; see the listed sites whose argument is about values, not paths.")
def a01(C):
    fns = rad_fns(C)
    keys = cut_keys(C, fns)
    sites_n, done, open_ = 0, 0, {}
    callers = {}
    for f in fns:
        try:
            a = C.an(f, no_inline=tuple(keys - {f["key"]}))
        except TooBig:
            # what only hands over to others has nothing of its own that could abort
            bad = written_aborts(C, f)
            sites_n += len(bad)
            done += 1
            C.ob("A01.abort", f["path"], not bad, f"too large for an analysis of its paths, and may abort: {bad[:3]}" if bad else "no place of its own that could abort", f["span"])
            continue
        done += 1
        bad, n = residual(a, f)
        sites_n += n
        for c in a.calls():
            callers.setdefault(c.f.get("key") or "", set()).add(f["key"])
        if bad:
            open_[f["key"]] = (f, a, bad)
        else:
            C.ob("A01.abort", f["path"], True, f"{n} places that could abort, none that does", f["span"])
    # a private helper is judged where it is called, with what its callers know
    for k, (f, a, bad) in list(open_.items()):
        ups = [C.F.fns[x] for x in callers.get(k, ()) if x != k and x in C.F.fns]
        if f.get("pub") or not ups or allowed(f):
            continue
        left = []
        for u in ups:
            au = C.an(u, no_inline=tuple(keys - {u["key"], k}))
            left += residual(au, u)[0]
        if not left:
            C.ob("A01.abort", f["path"], True, f"cannot abort where its {len(ups)} callers call it", f["span"])
            del open_[k]
    for f, a, bad in open_.values():
        for p, k, t in bad:
            C.ob("A01.abort", f["path"], False, f"may abort: {k} {t[:160]}", a.where(p))
    # one category per kind of value
    v = C.F.adts["witnet_rad::types::RadonTypesDiscriminant"]["variants"]
    n = C.an(next(f for f in fns if f["path"].endswith("RadonTypes::num_types")))
    top = max(x["discr"] for x in v)
    vals = n.ret_values()
    C.ob("A01.kinds", "RadonTypes::num_types", all(str(x).isdigit() and int(x) > top for x in vals), f"{vals} categories for kinds numbered to {top}", n.fn["span"])
    for f in fns:
        if f["path"].endswith("evaluate_tally_precondition_clause"):
            a = C.an(f, no_inline=tuple(keys - {f["key"]}))
            for c in a.calls("Counter::increment"):
                C.ob("A01.kinds", "categories", "Counter::new(RadonTypes::num_types())" in c.args[0], f"counts in {c.args[0][:120]}", a.where(c.pid))
    C.floor("functions of the virtual machine", done, 250)
    C.floor("places that could abort", sites_n, 60)


# --- reducers and filters --------------------------------------------------------
PARTS = {"mean", "standard", "mode", "transpose", "boolean_standard_filter", "is_homogeneous", "value", "round", "hash", "sort", "update_liars", "radon_type_name",
         "median", "hash_concatenate", "standard_filter", "mode_filter", "reduce", "filter", "try_from", "from"}
IN = "RadonType::value(input)"
PAIRED = [IN, f"zip({IN})"]
MEAN = "average::mean(input, MeanReturnPolicy::ReturnFloat{})"


def rfn(C, end, *open_):
    """the analysis of the function whose path ends so, with helpers inlined and the other parts of the machine opaque"""
    fs = [f for f in rad_fns(C) if f["path"].endswith(end)]
    C.ob("found", end, len(fs) == 1, f"{len(fs)} functions {end}", fs[0]["span"] if fs else "")
    if len(fs) != 1:
        return None
    f = fs[0]
    cut = {k for k, g in C.F.fns.items() if (g.get("span") or "").startswith((RAD,) + REPORT) and g["name"] in PARTS - set(open_) and k != f["key"]}
    cut |= {k for k, g in C.F.fns.items() if re.fullmatch(r"wip\d+", g["name"])}
    return C.an(f, no_inline=tuple(cut))


def nrm(s):
    s = re.sub(r"\bdiv\(", "Div(", s)
    s = re.sub(r"\b(mul|add|sub)\(", lambda m: m.group(1).title() + "(", s)
    return re.sub(r"RadonType::value\(try_from\((elem\(RadonType::value\(input\)\))\)\.Ok\.0\)", r"RadonType::value(\1.Float.0)", s)


def item(T):
    return f"RadonType::value(elem({IN}).{T}.0)" if T == "Float" else f"(RadonType::value(elem({IN}).{T}.0) as f64)"


def first_is(T):
    return lambda lit: lit == f"{IN}[0] is {T}" or lit == f"first({IN}).Some.0 is {T}"


def kind(a, T):
    """the analysis for inputs whose first item is of kind T"""
    def contra(l):
        m = re.match(re.escape(IN) + r"\[0\] is (\S+)$|first\(" + re.escape(IN) + r"\)\.Some\.0 is (\S+)$", l)
        return bool(m) and T not in (m.group(1) or m.group(2)).split("/") or l in (f"first({IN}) is None", f"is_empty({IN})", f"len({IN}) eq 0", f"0 eq len({IN})")
    return a.under(contra)


def sums(a, T):
    """what is done with the sum over items of kind T"""
    return [c for c in a.calls() if any(item(T) in nrm(x) and ", μ)" in nrm(x) for x in c.args)] or oks(a)


def ok_vals(a):
    """[(pid, text)] what is answered, joined values taken apart"""
    out = []
    for r in oks(a):
        for v in alts(a, r.value):
            out.append((r.pid, nrm(a.s(v))))
    return out


def column_wise(C, a, rule, inst, call, want):
    """an array of arrays is worked column by column: CALL is made for each row of the transposed input and its answers collected in order"""
    a = kind(a, "Array")
    cs = [c for c in a.calls() if c.f["name"] == call and c.args[:1] == [want[0]]]
    C.ob(rule, inst, bool(cs) and all(c.args == want for c in cs), f"applies itself to each column: {[c.args for c in cs][:2]}", a.where(cs[0].pid) if cs else a.fn["span"])
    res = re.compile(re.escape(f"{call}({', '.join(want)})") + r"\.Ok\.0")
    ps = [c for c in a.calls() if c.f["name"] in ("push", "collect_push") and res.search(c.args[1])]
    C.ob(rule, inst, bool(ps) and all(re.fullmatch(r"(\w+::)*" + res.pattern, c.args[1]) for c in ps), "and collects each answer", a.where(ps[0].pid) if ps else a.fn["span"])
    if ps:
        per_element(C, a, rule, inst, ["RadonType::value(array::transpose(input).Ok.0)"], [r.pid for r in oks(a)], "no column is left out", nodes=ps)


def no_other(C, a, rule, inst, vals, want):
    """nothing but WANT (text -> kind of the first item, or None) is answered, each in its case"""
    seen = set()
    for p, s in vals:
        k = next((w for w in want if s == w), None)
        C.ob(rule, inst, k is not None, f"answers `{s[:220]}`", a.where(p))
        if k is None:
            continue
        seen.add(k)
        if want[k]:
            need(C, a, rule, inst, [p], first_is(want[k]), what=f"`{s[:60]}…` is answered for {want[k]} items only") if sum(1 for q, t in vals if q == p) == 1 else None
    for w in want:
        C.ob(rule, inst, w in seen, f"`{w[:220]}` is answered in its case", a.fn["span"])


def hom(a):
    return lambda lit: lit == "RadonArray::is_homogeneous(input)" or lit in (f"is_empty({IN})", f"len({IN}) eq 0", f"0 eq len({IN})")


@prop("A02", ["witnet_rad"], "value-flow analysis of the reducers and filters: each answer as a closed expression over the items, the conditions under which it is given, and loops that reach every item",
      "Floating point arithmetic is taken as written; that the expressions are the mean, the deviation, the median and the mode is by their form.")
def a02(C):
    # mean
    a = rfn(C, "reducers::average::mean")
    if a:
        d = lambda T: f"Result::Ok{{0: Div({{0f64 | Add({item(T)}, μ)}}, (len({IN}) as f64))}}"
        got, rnd = [], False
        for p, s in ok_vals(a):
            m = re.fullmatch(r"Result::Ok\{0: \{(.*) \| float::round\((.*)\)\}\}", s)
            if m:
                C.ob("A02.mean", "integers", m.group(1) == m.group(2), "the same mean is rounded or not", a.where(p))
                rnd, s = True, f"Result::Ok{{0: {m.group(1)}}}"
            m = re.fullmatch(r"Result::Ok\{0: float::round\((.*)\)\}", s)
            if m:
                rnd, s = True, f"Result::Ok{{0: {m.group(1)}}}"
            got.append((p, s))
        no_other(C, a, "A02.mean", "answers", got, {d("Float"): "Float", d("Integer"): "Integer", "Result::Ok{0: Vec::new()}": "Array", "Result::Ok{0: NaN_f64}": None})
        C.ob("A02.mean", "integers", rnd, "means of integers can be rounded", a.fn["span"])
        R = a.calls("float::round")
        yes = ("return_policy eq MeanReturnPolicy::RoundToInteger{}", "MeanReturnPolicy::RoundToInteger{} eq return_policy", "return_policy is RoundToInteger", "eq(return_policy, MeanReturnPolicy::RoundToInteger{})")
        need(C, a, "A02.mean", "rounding", R, lambda l: l in yes, what="rounds only when told to")
        need(C, a, "A02.mean", "rounding", R, first_is("Integer"), what="rounds integers only")
        ai = kind(a, "Integer")
        no = edges(ai, lambda l: re.search(r"return_policy", l) and (" ne " in l or l.startswith("!") or "is ReturnFloat" in l))
        ints = [r.pid for r in oks(ai)]
        p = ai.paths_avoiding(ints, cut_nodes=[c.pid for c in ai.calls("float::round")], cut_edges=no)
        C.ob("A02.mean", "rounding", p is None and bool(ints), "every mean of integers is rounded when told to", ai.where(p[-1]) if p else a.fn["span"])
        for T in ("Float", "Integer"):
            per_sum(C, kind(a, T), "A02.mean", T)
        column_wise(C, a, "A02.mean", "arrays", "mean", ["elem(RadonType::value(array::transpose(input).Ok.0)).Array.0", "return_policy"])
    # standard deviation
    a = rfn(C, "reducers::deviation::standard")
    if a:
        def d(T):
            x = f"Sub({item(T)}, RadonType::value({MEAN}.Ok.0.Float.0))"
            return f"Result::Ok{{0: sqrt(Div({{0f64 | Add(Mul({x}, {x}), μ)}}, (len({IN}) as f64)))}}"
        got = [(p, re.sub(r"powi\((Sub\(.*?Float\.0\)\)), 2\)", r"Mul(\1, \1)", s)) for p, s in ok_vals(a)]
        no_other(C, a, "A02.deviation", "answers", got, {d("Float"): "Float", d("Integer"): "Integer", "Result::Ok{0: Vec::new()}": "Array", "Result::Ok{0: NaN_f64}": None})
        for T in ("Float", "Integer"):
            per_sum(C, kind(a, T), "A02.deviation", T)
        column_wise(C, a, "A02.deviation", "arrays", "standard", ["elem(RadonType::value(array::transpose(input).Ok.0)).Array.0"])
    # mode
    a = rfn(C, "reducers::mode::mode")
    if a:
        cell = r"(or_insert|or_default)\(entry\((?P<m>HashMap::\w+\(.*?\)|Default::default\(\)), elem\(RadonType::value\(input\)\)\)(, 0)?\)"
        E = [e for e in a.effects() if e.op == "assign" and re.fullmatch(cell, e.loc)]
        C.ob("A02.mode", "count", bool(E) and all(e.args in ([f"Add(1, {e.loc})"], [f"Add({e.loc}, 1)"]) for e in E), f"each item adds one to the count of its value: {[str(e.args)[:80] for e in E]}", a.fn["span"])
        tops = [c for c in a.calls("iter::max", "Iterator::max", "max") if "values(" in c.args[0] or ".1" in c.args[0]]
        per_element(C, a, "A02.mode", "count", [IN], tops or [r.pid for r in oks(a)], "every item is counted before the highest count is taken", nodes=[e.pid for e in E])
        ps = [c for c in a.calls() if c.f["name"] in ("collect_push", "push") and re.fullmatch(r"elem\(.*\)\.0", c.args[1])]
        C.ob("A02.mode", "most frequent", bool(ps), "collects values by their count", a.fn["span"])
        mx = re.compile(r"(elem\(.*\)\.1 eq max\(values\(.*\)\)\.Some\.0|max\(values\(.*\)\)\.Some\.0 eq elem\(.*\)\.1|eq\(elem\(.*\)\.1, max\(values\(.*\)\)\.Some\.0\))")
        need(C, a, "A02.mode", "most frequent", ps, mx, what="only values with the highest count are collected")
        out = oks(a)
        C.ob("A02.mode", "answer", {nrm(a.s(r.value)) for r in out} <= {"Result::Ok{0: elem(iter::collect_new())}", "Result::Ok{0: iter::collect_new()[0]}", "Result::Ok{0: remove(iter::collect_new(), 0)}", "Result::Ok{0: elem(Vec::new())}", "Result::Ok{0: Vec::new()[0]}"}, f"answers one of the values collected: {[a.s(r.value)[:90] for r in out]}", a.fn["span"])
        one = re.compile(r"(len\(.*\) le 1|1 ge len\(.*\)|len\(.*\) eq 1|1 eq len\(.*\)|len\(.*\) lt 2|2 gt len\(.*\))")
        need(C, a, "A02.mode", "tie", out, one, what="answers only if one value is the most frequent")
        tie = [r for r in errs(a) if "ModeTie" in a.s(r.value)]
        many = re.compile(r"(len\(.*\) gt 1|1 lt len\(.*\)|len\(.*\) ne 1|1 ne len\(.*\)|len\(.*\) ge 2|2 le len\(.*\))")
        need(C, a, "A02.mode", "tie", tie, many, what="a tie is reported only between several values")
        # each value with the highest count is collected
        for c in ps:
            cut = edges(a, re.compile(r"elem\(.*\)\.1 (ne|lt) |.* (ne|gt) elem\(.*\)\.1$|!eq\("))
            src = re.fullmatch(r"elem\((.*)\)\.0", c.args[1]).group(1)
            per_element(C, a, "A02.mode", "most frequent", [src], [r.pid for r in out], "every value with the highest count is collected", cut=cut, nodes=ps)
            break
    # median
    a = rfn(C, "reducers::median::median")
    if a:
        medians(C, a)
    a = rfn(C, "reducers::hash_concatenate::hash_concatenate")
    if a:
        concat(C, a)
    for end, rows in (("reducers::reduce", {"average::mean": ("AverageMean", None, ["input", "MeanReturnPolicy::RoundToInteger{}"]), "mode::mode": ("Mode", None, ["input"]), "deviation::standard": ("DeviationStandard", None, ["input"]), "median::median": ("AverageMedian", "wip0017", ["input"]), "hash_concatenate::hash_concatenate": ("HashConcatenate", "wip0019", ["input"])}),
                      ("filters::filter", {"deviation::standard_filter": ("DeviationStandard", None, ["input", "extra_args", "context"]), "mode::mode_filter": ("Mode", None, ["input", "context"])})):
        a = rfn(C, end)
        if a:
            dispatch(C, a, end, rows)
    a = rfn(C, "deviation::boolean_standard_filter")
    if a:
        within(C, a)
    a = rfn(C, "deviation::standard_filter")
    if a:
        kept(C, a)
    a = rfn(C, "filters::mode::mode_filter")
    if a:
        eqm = lambda l: "mode::mode(input).Ok.0" in l and f"elem({IN})" in l and (" eq " in l or l.startswith("eq("))
        nem = lambda l: "mode::mode(input).Ok.0" in l and f"elem({IN})" in l and (" ne " in l or l.startswith("!eq("))
        keep_rule(C, a, "A02.mode-filter", eqm, nem, [f"Not(eq(elem({IN}), mode::mode(input).Ok.0))", f"ne(elem({IN}), mode::mode(input).Ok.0)", f"Ne(elem({IN}), mode::mode(input).Ok.0)", f"Not(Eq(elem({IN}), mode::mode(input).Ok.0))"])
    liars(C)


def per_sum(C, a, rule, T):
    """every item goes into the sum"""
    ends = [x.pid for x in sums(a, T)]
    C.ob(rule, f"{T} items", bool(ends), f"{T} items are answered", a.fn["span"])
    if ends:
        per_element(C, a, rule, f"{T} items", [IN], ends, "no item is left out of the sum", nodes=[c for c in a.calls("RadonType::value") if c.args[0] == f"elem({IN}).{T}.0"])


def medians(C, a):
    srt = re.compile(r"array::sort\(input, \[\], (Default::default\(\)|ReportContext\{.*?\}|context)\)\.Ok\.0\.Array\.0")
    fl = re.compile(r"NotNan::into_inner\((Vec::with_capacity\(.*?\)\)|with_capacity\(len\(RadonType::value\(input\)\)\)|Vec::new\(\)|iter::collect_new\(\))\[")
    shapes = {}
    for r in a.rets():
        for v in alts(a, r.value):
            s = nrm(srt.sub("SORTED", a.s(v)))
            s = re.sub(r"RadonType::value\(SORTED\)", "S", s)
            s = re.sub(r"with_capacity\(len\(RadonType::value\(input\)\)\)|iter::collect_new\(\)|Vec::new\(\)", "S", s)
            s = re.sub(r"RadonTypes::Float\{0: NotNan::into_inner\((S\[.*?)\)\}", lambda m: m.group(1), s)
            s = s.replace("Div(len(S), 2)", "Shr(len(S), 1)")
            if "Err{" in s.split("(")[0]:
                continue
            shapes.setdefault(s, set()).add(r.pid)
    odd = "Result::Ok{0: S[Shr(len(S), 1)]}"
    even = {"average::mean(vec[S[Sub(Shr(len(S), 1), 1)], S[Shr(len(S), 1)]], MeanReturnPolicy::RoundToInteger{})", "average::mean(vec[S[Shr(len(S), 1)], S[Sub(Shr(len(S), 1), 1)]], MeanReturnPolicy::RoundToInteger{})"}
    for s, ps in shapes.items():
        C.ob("A02.median", "answers", s == odd or s in even, f"answers `{s[:200]}`", a.where(min(ps)))
        par = re.compile(r"(BitAnd\(1, len\(.*\)\)|Rem\(len\(.*\), 2\)) (eq 1|ne 0)|(1 eq|0 ne) (BitAnd\(1, len|Rem\(len)") if s == odd else re.compile(r"(BitAnd\(1, len\(.*\)\)|Rem\(len\(.*\), 2\)) (ne 1|eq 0)|(1 ne|0 eq) (BitAnd\(1, len|Rem\(len)")
        need(C, a, "A02.median", "middle", ps, par, what="the middle of an odd number, the mean of the two middles of an even one")
    C.ob("A02.median", "answers", odd in shapes and bool(even & set(shapes)), "both cases are answered", a.fn["span"])
    fs = [r.pid for r in a.rets() if "Err{" not in a.s(r.value).split("(")[0] and any(first_is("Float")(l) for l in a.must([r.pid]))]
    ss = [e for e in a.effects() if e.op in ("sort", "sort_unstable", "sort_by", "sort_unstable_by") and "input" not in e.args[:1]]
    p = a.paths_avoiding(fs, cut_nodes=[e.pid for e in ss])
    C.ob("A02.median", "sorted", p is None and bool(fs), "floats are sorted before the middle is taken", a.where(p[-1]) if p else a.fn["span"])
    pu = [c for c in a.calls() if c.f["name"] in ("push", "collect_push") and "NotNan" in c.args[1]]
    C.ob("A02.median", "items", bool(pu) and all(nrm(c.args[1]) == f"NotNan::new({item('Float')}).Ok.0" for c in pu), f"the numbers themselves: {[c.args[1][:120] for c in pu]}", a.fn["span"])
    cut = edges(a, re.compile(r"NotNan::new\(.*\) is Err|is_nan\("))
    per_element(C, a, "A02.median", "items", [IN], fs, "every number takes part", cut=cut, nodes=pu)


def concat(C, a):
    x = f"RadonType::value(elem({IN}).Bytes.0)"
    k = {f"min({', '.join(o)})" for o in ((f"len({x})", "32"), ("32", f"len({x})"))}
    ex = [c for c in a.calls() if c.f["name"] in ("extend_from_slice", "extend")]
    want = {f"{x}[RangeTo{{end: {m}}}]" for m in k} | {f"{x}[Range{{start: 0, end: {m}}}]" for m in k} | {f"take({x}, 32)"}
    fill = {f"take(repeat(0), Sub(32, {m}))" for m in k} | {f"repeat_n(0, Sub(32, {m}))" for m in k} | {f"take(repeat(0), saturating_sub(32, {n}))" for n in k | {f"len({x})"}}
    bulk = [c for c in ex if c.args[1] in fill]
    ex = [c for c in ex if c not in bulk]
    C.ob("A02.hash", "content", bool(ex) and all(c.args[1] in want for c in ex), f"up to 32 bytes of each item: {[c.args[1][:90] for c in ex]}", a.fn["span"])
    pads = [c for c in a.calls() if c.f["name"] in ("push", "resize")]
    zero = [c for c in pads if c.args[1] in ("0", "0u8") and c.f["name"] == "push"]
    C.ob("A02.hash", "padding", bool(zero or bulk) and zero == pads, "padded with zeros", a.fn["span"])
    hs = a.calls("bytes::hash")
    hs = [h for h in hs if "SHA2_256" in h.args[1] or True]
    C.ob("A02.hash", "digest", bool(hs) and all("SHA2_256" in h.args[1] for h in hs), f"hashed with SHA-256: {[h.args[1][:80] for h in hs]}", a.fn["span"])
    per_element(C, a, "A02.hash", "items", [IN], hs, "every item is appended before hashing", nodes=ex)
    # the padding comes first and fills up to 32
    rng = [f"Range{{start: {m}, end: 32}}" for m in k]
    hd = {hid: h for c in rng for hid, h in headers(a, c).items()}
    C.ob("A02.hash", "padding", bool(hd or bulk), "one zero for each byte missing up to 32", a.fn["span"])
    done = set().union(*[h["done"] for h in hd.values()]) if hd else set()
    hs_ = {i for h in headers(a, IN).values() for e in h.values() for i, _ in e}
    ps = [a.paths_avoiding([e.pid for e in ex], cut_edges=done, cut_nodes=hs_ | {c.pid for c in bulk}, start=y) for h in headers(a, IN).values() for y in past(a, h["more"])]
    p = next((p for p in ps if p), None)
    C.ob("A02.hash", "padding", p is None and bool(ps), "the zeros precede the bytes", a.where(p[-1]) if p else a.fn["span"])
    for hid, h in hd.items():
        p = step_ok(a, hid, h, {c.pid for c in zero}, set(), set())
        C.ob("A02.hash", "padding", p is None, "each missing byte is filled", a.where(p[-1]) if p else a.fn["span"])
    out = [s for p, s in ok_vals(kind(a, "Bytes"))]
    C.ob("A02.hash", "answer", all(re.fullmatch(r"Result::Ok\{0: bytes::hash\(.*\)\.Ok\.0\}", s) for s in out) and bool(out), f"answers the digest: {[s[:80] for s in out]}", a.fn["span"])


def dispatch(C, a, end, rows):
    code = "reducer_code" if end.endswith("reduce") else "filter_code"
    for fn, (k, wip, args) in rows.items():
        cs = a.calls(fn)
        C.ob("A02.dispatch", k, bool(cs), f"{fn} serves {k}", a.fn["span"])
        C.ob("A02.dispatch", k, all(c.args == args for c in cs), f"{fn} is given {args}: {[c.args for c in cs][:1]}", a.fn["span"])
        need(C, a, "A02.dispatch", k, cs, re.compile(rf"{code} (is|eq) (\w+::)*{k}(\{{\}})?$"), what=f"{fn} serves {k} only")
        need(C, a, "A02.dispatch", k, cs, hom(a), what="items are of one type, or none")
        if wip:
            need(C, a, "A02.dispatch", k, cs, re.compile(rf"(ActiveWips|.*)::{wip}\("), what=f"only once {wip} is active")
        # given whenever asked for
        other = edges(a, re.compile(rf"{code} (is|ne) "), lambda l: False)
        tgt = [r.pid for r in a.rets()]
        skip = edges(a, lambda l: re.match(rf"{code} is ", l) and k not in re.sub(rf"^{code} is ", "", l).split("/"), lambda l: l == "!RadonArray::is_homogeneous(input)", *( [lambda l: wip in l and l.startswith("!"), re.compile(r"context\.active_wips is None")] if wip else []))
        p = a.paths_avoiding(tgt, cut_nodes=[c.pid for c in cs], cut_edges=skip)
        C.ob("A02.dispatch", k, p is None, f"{k} is always served so", a.where(p[-1]) if p else a.fn["span"])


def within(C, a):
    m, s = f"RadonType::value(try_from({MEAN}.Ok.0).Ok.0)", "RadonType::value(try_from(deviation::standard(input).Ok.0).Ok.0)"
    w = {f"Mul(sigmas_float, {s})", f"Mul({s}, sigmas_float)"}
    lo, hi = {f"Sub({m}, {x})" for x in w}, {f"Add({m}, {x})" for x in w} | {f"Add({x}, {m})" for x in w}
    ps = [c for c in a.calls() if c.f["name"] in ("push", "collect_push") and "RadonTypes::Boolean" in c.args[1]]
    for T in ("Float", "Integer"):
        x = item(T)
        up = {f"Le({x}, {h})" for h in hi} | {f"Ge({h}, {x})" for h in hi}
        dn = {f"Ge({x}, {l})" for l in lo} | {f"Le({l}, {x})" for l in lo}
        mine = [c for c in ps if x in nrm(c.args[1])]
        C.ob("A02.sigmas", T, bool(mine), f"a verdict for each of the {T} items", a.fn["span"])
        for c in mine:
            t = nrm(c.args[1])
            b = re.fullmatch(r"RadonTypes::Boolean\{0: \{0 \| (.*)\}\}", t)
            good = False
            if b:
                e, other = (b.group(1), dn) if b.group(1) in up else (b.group(1), up)
                good = e in up | dn
                # the other bound decides on the way
                as_lit = lambda z: {f"{p} {o} {q}" for o, (p, q) in [(t2, g) for t2, g in lits(z)]}
                lits_ = set().union(*[as_lit(z) for z in other])
                one = edges(a, lambda l: nrm(l) in lits_)
                good = good and bool(one)
            else:
                b = re.fullmatch(r"RadonTypes::Boolean\{0: BitAnd\((.*)\)\}", t)
                good = bool(b) and any(b.group(1) in (f"{u}, {d}", f"{d}, {u}") for u in up for d in dn)
            C.ob("A02.sigmas", T, good, f"kept if and only if within mean ± sigmas × deviation, bounds included: `{t[:260]}`", a.where(c.pid))
        at = kind(a, T)
        per_element(C, at, "A02.sigmas", T, [IN], [r.pid for r in oks(at)], "no item is left out", nodes=[c for c in at.calls() if c.f["name"] in ("push", "collect_push") and x in nrm(c.args[1])])
    need(C, a, "A02.sigmas", "types", ps, hom(a), what="items of one type")
    column_wise(C, a, "A02.sigmas", "arrays", "boolean_standard_filter", ["elem(RadonType::value(array::transpose(input).Ok.0)).Array.0", "sigmas_float"])
    C.ob("A02.sigmas", "arrays", any(re.fullmatch(r"Result::Ok\{0: array::transpose\(.*\)\.Ok\.0\}", s) for _, s in ok_vals(a)), "verdicts are turned back into rows", a.fn["span"])


def lits(z):
    """comparison text -> [(op, (left, right))] the literals it can appear as"""
    m = re.fullmatch(r"(Le|Ge|Lt|Gt)\((.*)\)", z)
    p = top_args(m.group(2))
    o = m.group(1).lower()
    f = {"le": "ge", "ge": "le", "lt": "gt", "gt": "lt"}[o]
    return [(o, (p[0], p[1])), (f, (p[1], p[0]))]


def top_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        d += ch in "([{"
        d -= ch in ")]}"
        if ch == "," and not d:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


def keep_rule(C, a, rule, yes, no, flags):
    """an item is kept if and only if YES; one flag per item says whether it was not kept; in a tally the flags become the liars"""
    ps = [c for c in a.calls() if c.f["name"] in ("push", "collect_push") and c.args[1] == f"elem({IN})"]
    need(C, a, rule, "kept", ps, yes, what="only items that pass are kept")
    out = [r.pid for r in oks(a) if r.pid in a.reach([p.pid for p in ps])]
    per_element(C, a, rule, "kept", PAIRED, out, "every item that passes is kept", cut=edges(a, no), nodes=ps)
    fs = [c for c in a.calls() if c.f["name"] in ("push", "collect_push") and c.pid not in {p.pid for p in ps}]
    one = [c for c in fs if nrm(c.args[1]) in flags or c.args[1] in ("1", "0", "Not(1)", "Not(0)")]
    C.ob(rule, "liars", bool(one) and len(one) == len(fs), f"a flag is the opposite of the verdict: {[c.args[1][:90] for c in fs]}", a.fn["span"])
    for c in one:
        if c.args[1] in ("1", "Not(0)"):
            need(C, a, rule, "liars", [c], no, what="flagged only if not kept")
        elif c.args[1] in ("0", "Not(1)"):
            need(C, a, rule, "liars", [c], yes, what="not flagged only if kept")
    per_element(C, a, rule, "liars", PAIRED + sorted({x for c in fs for x in re.findall(r"elem\((RadonType::value\(deviation::boolean.*?\.Ok\.0\))\)", c.args[1])}), out, "one flag per item", nodes=one)
    us = [c for c in a.calls() if c.f["name"] == "update_liars"]
    need(C, a, rule, "liars", us, re.compile(r"context\.stage is Tally"), what="liars are a matter of tallies")
    p = a.paths_avoiding(out, cut_nodes=[u.pid for u in us], cut_edges=edges(a, lambda l: l.startswith("context.stage is ") and "Tally" not in l))
    C.ob(rule, "liars", p is None and bool(us), "in a tally the flags become the liars", a.where(p[-1]) if p else a.fn["span"])
    fl = {c.args[0] for c in one}
    C.ob(rule, "liars", all(u.args[-1] in fl for u in us), f"the flags themselves: {[u.args[-1][:60] for u in us]}", a.fn["span"])


def kept(C, a):
    sg = "{(extra_args[0].Integer.0 as f64) | extra_args[0].Float.0}"
    cs = a.calls("deviation::boolean_standard_filter")
    C.ob("A02.filter", "verdicts", bool(cs) and all(c.args[0] == "input" and set(top_args(c.args[1].strip("{}").replace(" | ", ", "))) == {"(extra_args[0].Integer.0 as f64)", "extra_args[0].Float.0"} for c in cs), f"verdicts by the number of sigmas given: {[c.args for c in cs][:1]}", a.fn["span"])
    need(C, a, "A02.filter", "verdicts", cs, re.compile(r"len\(extra_args\) eq 1|1 eq len\(extra_args\)"), what="exactly one argument")
    one = re.compile(r"RadonType::value\(elem\(RadonType::value\(deviation::boolean_standard_filter\(input, .*\)\.Ok\.0\)\)\.Boolean\.0\)")
    for T in ("Float", "Integer"):
        b = kind(a, T)
        fs = [c for c in b.calls() if c.f["name"] in ("push", "collect_push") and c.args[1].startswith("Not(") and one.fullmatch(c.args[1][4:-1])]
        fl = {c.args[0] for c in fs}
        keep_rule(C, b, "A02.filter",
                  lambda l: bool(one.fullmatch(l)) or l in {f"!elem({x})" for x in fl},
                  lambda l: l[:1] == "!" and bool(one.fullmatch(l[1:])) or l in {f"elem({x})" for x in fl},
                  {c.args[1] for c in fs})
    rows(C, kind(a, "Array"))
    v = r"RadonType::value\(deviation::boolean_standard_filter\(input, .*\)\.Ok\.0\)"
    for c in a.calls():
        if c.f["name"] == "zip":
            C.ob("A02.filter", "pairs", c.args[0] == IN and (bool(re.fullmatch(v, c.args[1])) or c.args[1] in {x.args[0] for x in a.calls() if x.f["name"] in ("push", "collect_push") and x.args[1].startswith("Not(")}), f"items are paired with their verdicts: {[x[:90] for x in c.args]}", a.where(c.pid))


def rows(C, a):
    """a row is kept if and only if all its verdicts are positive"""
    b = a
    ks = {m.group(1) for *_, ss in b.edges() for l in ss for m in [re.fullmatch(r"!?RadonType::value\(elem\(RadonType::value\(elem\(RadonType::value\((.*)\)\)\.Array\.0\)\)\.Boolean\.0\)", l)] if m}
    C.ob("A02.filter", "rows", len(ks) == 1 and all(k.startswith("deviation::boolean_standard_filter(input, ") for k in ks), f"verdicts of a row: {sorted(ks)}", b.fn["span"])
    if len(ks) != 1:
        return
    k = ks.pop()
    inner = f"RadonType::value(elem(RadonType::value({k})).Array.0)"
    v = f"RadonType::value(elem({inner}).Boolean.0)"
    no, yes = edges(b, lambda l: l == "!" + v), edges(b, lambda l: l == v)
    ps = [c for c in b.calls() if c.f["name"] in ("push", "collect_push") and c.args[1] == f"elem({IN})"]
    out = [r.pid for r in b.rets() if r.pid in b.reach([p.pid for p in ps])]
    H = [h for c in PAIRED for h in headers(b, c).values()]
    heads = {i for h in H for e in h.values() for i, _ in e}
    done = set()
    for h in headers(b, inner).values():
        if step_ok(b, None, h, heads, yes, [p.pid for p in ps]) is None:
            done |= h["done"]

    def within_row(frm, to, cut):
        for i, l in frm:
            for ll, y in b.p.nodes[i].succ:
                if ll == l and y not in heads:
                    p = b.paths_avoiding(to, cut_nodes=heads, cut_edges=cut, start=y)
                    if p is not None:
                        return p

    def says(frm, to, cut, what):
        p = within_row(frm, to, cut)
        C.ob("A02.filter", "rows", p is None and bool(to), what, b.where(p[-1]) if p else b.fn["span"])

    more = set().union(*[h["more"] for h in H]) if H else set()
    P = [p.pid for p in ps]
    says(more, P, done, "a row is kept only after all its verdicts were found positive")
    says(no, P, set(), "a row with a negative verdict is not kept")
    per_element(C, b, "A02.filter", "rows", PAIRED, out, "every row with positive verdicts only is kept", cut=no, nodes=P)
    fs = [c for c in b.calls() if c.f["name"] in ("push", "collect_push") and c.args[1] in ("0", "1", "Not(0)", "Not(1)")]
    neg, pos = [c.pid for c in fs if c.args[1] in ("1", "Not(0)")], [c.pid for c in fs if c.args[1] in ("0", "Not(1)")]
    says(more, neg, no, "a row is flagged only if it has a negative verdict")
    says(no, pos, set(), "a row with a negative verdict is flagged")
    per_element(C, b, "A02.filter", "rows", PAIRED, out, "one flag per row", nodes=fs)
    us = [c for c in b.calls() if c.f["name"] == "update_liars"]
    need(C, b, "A02.filter", "rows", us, re.compile(r"context\.stage is Tally"), what="liars are a matter of tallies")
    p = b.paths_avoiding(out, cut_nodes=[u.pid for u in us], cut_edges=edges(b, lambda l: l.startswith("context.stage is ") and "Tally" not in l))
    C.ob("A02.filter", "rows", p is None and bool(us), "in a tally the flags become the liars", b.where(p[-1]) if p else b.fn["span"])
    names = {e.loc for e in b.effects() if e.op in ("push", "collect_push") and e.args[-1] in ("0", "1", "Not(0)", "Not(1)")}
    C.ob("A02.filter", "rows", len(names) == 1, f"one list of flags: {sorted(names)}", b.fn["span"])


def liars(C):
    fs = [f for f in rad_fns(C) if f["path"].endswith("TallyMetaData::<RT>::update_liars")]
    for f in fs:
        a = C.an(f)
        st = [e for e in a.effects() if e.op == "assign" and e.loc == "elem(self.liars)"]
        C.ob("A02.liars", "flags", bool(st) and all(e.args == ["elem(new_liars)"] for e in st), f"flags are taken over one by one: {[e.args for e in st]}", f["span"])
        need(C, a, "A02.liars", "flags", st, re.compile(r"^!elem\(self\.liars\)$|elem\(self\.liars\) (eq 0|ne 1)"), what="who was found a liar stays one")
        wh = [e for e in a.effects() if e.op == "assign" and e.loc == "self.liars"]
        C.ob("A02.liars", "first", bool(wh) and all(e.args == ["new_liars"] for e in wh), "the first flags are taken as they are", f["span"])
        need(C, a, "A02.liars", "first", wh, re.compile(r"^is_empty\(self\.liars\)|len\(self\.liars\) eq 0|0 eq len\(self\.liars\)"), what="only if there were none")
    C.floor("update_liars", len(fs), 1)


TALLY = {"increment", "discriminant", "num_types", "into_inner", "default", "from_result", "from_stage", "radon_report_from_error", "mode_filter", "mode", "value", "try_from", "run_tally_report", "all_but_partial_results"}


FORK = "ActiveWips::wips_0009_0011_0012(active_wips)"


def tfn(C, end, *cut):
    """the analysis of a function of the tally clauses"""
    fs = [f for f in rad_fns(C) if f["path"].endswith(end)]
    C.ob("found", end, len(fs) == 1, f"{len(fs)} functions {end}", fs[0]["span"] if fs else "")
    if len(fs) != 1:
        return None
    f = fs[0]
    ks = {k for k, g in C.F.fns.items() if (g.get("span") or "").startswith((RAD,) + REPORT) and (g["name"] in TALLY | set(cut) or g["path"].endswith("Counter::new") or (g.get("span") or "").startswith(RAD + "types/array.rs")) and k != f["key"]}
    ks |= {k for k, g in C.F.fns.items() if g["path"].endswith("ActiveWips::wips_0009_0011_0012")}
    return C.an(f, no_inline=tuple(ks))


def order_lit(l, hi, lo, strict=False):
    """the literal says HI >= LO (or HI > LO), HI and LO given as patterns"""
    m = re.fullmatch(r"(.*) (ge|gt|le|lt) (.*)", l)
    if not m:
        return False
    x, o, y = m.groups()
    if o in ("le", "lt"):
        x, y, o = y, x, {"le": "ge", "lt": "gt"}[o]
    return bool(re.fullmatch(hi, x) and re.fullmatch(lo, y)) and (o == "gt" if strict else o == "ge")


@prop("A03", ["witnet_rad"], "value-flow and path analysis of the tally clauses: under which conditions each outcome is answered, with which counts, thresholds and flags",
      "The result of the tally script itself is subject of A01, A02 and A04; counts are compared as the code computes them, in floating point.")
def a03(C):
    before(C)
    counter(C)
    after(C)
    outcome(C)


def dz(s):
    """a discriminant stands for its value, whatever the type of number"""
    while (i := s.find("(discr(")) >= 0:
        d, j = 0, i + 6
        while True:
            d += (s[j] == "(") - (s[j] == ")")
            j += 1
            if not d:
                break
        m = re.match(r" as \w+\)", s[j:])
        s = s[:i] + s[i + 7:j - 1] + (s[j + m.end():] if m else s[j:])
    return s


def past(a, es):
    """the nodes edges ES lead to"""
    return [y for i, l in es for ll, y in a.p.nodes[i].succ if ll == l]


def says_(a, rx):
    return any(re.match(rx, a.s(v)) for r in a.rets() for v in a.alternatives(r.value))


def before(C):
    a = tfn(C, "conditions::evaluate_tally_precondition_clause")
    if not a:
        return
    cn = r"Counter::new\(.*?\)"
    DISC = "RadonTypes::discriminant(elem(reveals).result)"
    incs = a.calls("Counter::increment")
    C.ob("A03.types", "count", bool(incs) and all(dz(c.args[1]) == DISC for c in incs), f"each reveal counts for the type of its result: {[c.args[1:] for c in incs]}", a.fn["span"])
    C.ob("A03.types", "count", {c.args[0] for c in a.calls("Counter::new")} <= {"RadonTypes::num_types()"} and bool(a.calls("Counter::new")), "one category for each type", a.fn["span"])
    rs = a.rets()

    def of(*names):
        return [(r, v) for r in rs for v in [a.s(x) for x in a.alternatives(r.value)] if any(n in v[:70] for n in names)]

    few, none, many = of("InsufficientCommits"), of("NoReveals"), of("TooManyWitnesses")
    rest = [(r, v) for r in rs for v in [a.s(x) for x in a.alternatives(r.value)] if not any(n in v[:70] for n in ("InsufficientCommits", "NoReveals", "TooManyWitnesses"))]
    zero = {"num_commits eq 0", "0 eq num_commits", "num_commits lt 1", "num_commits le 0"}
    some = {"num_commits ne 0", "0 ne num_commits", "num_commits ge 1", "num_commits gt 0"}
    empty = {"is_empty(reveals)", "len(reveals) eq 0", "0 eq len(reveals)"}
    full = {"!is_empty(reveals)", "len(reveals) ne 0", "0 ne len(reveals)", "len(reveals) gt 0"}
    for rows, what, yes in ((many, "too many witnesses", [{"too_many_witnesses"}]), (few, "no commits", [{"!too_many_witnesses"}, zero]), (none, "no reveals", [{"!too_many_witnesses"}, some, empty]), (rest, "anything else", [{"!too_many_witnesses"}, some, full])):
        C.ob("A03.first", what, bool(rows), f"{what} has an outcome", a.fn["span"])
        for y in yes:
            need(C, a, "A03.first", what, [r.pid for r, _ in rows], lambda l: l in y, what=f"{what}: only with {sorted(y)[0]}")
    mx = cn + r"\.max_val"
    com = r"try_from\(num_commits\)\.Ok\.0|\(num_commits as f64\)|try_from\(len\(reveals\)\)\.Ok\.0|\(len\(reveals\) as f64\)"
    frac = rf"Div\(\(?{mx}(?: as f64\))?, (?:{com.split('|try_from(len')[0].split('|try_from' + chr(92) + '(len')[0]})\)"
    enough = lambda l: order_lit(l, frac, "minimum_consensus")
    short = lambda l: order_lit(l, "minimum_consensus", frac, True)
    ans = [(r, v) for r, v in rest if not re.match(r"Result::Err\{0: RadError::InsufficientConsensus\{achieved: " + frac, v)]
    poor = [(r, v) for r, v in rest if (r, v) not in ans]
    C.ob("A03.consensus", "types", bool(ans) and bool(poor), "there are outcomes with and without consensus on a type", a.fn["span"])
    # merged returns: what can be answered where consensus on a type is excluded, and where it is given
    b = a.under(enough)
    got = {v[:60] for r in b.rets() for v in [b.s(x) for x in b.alternatives(r.value)]}
    C.ob("A03.consensus", "types", all(any(n in g for n in ("TooManyWitnesses", "InsufficientCommits", "NoReveals", "InsufficientConsensus")) for g in got) and bool(edges(a, enough)), f"without the minimum consensus on a type nothing else is answered: {sorted(got)}", a.fn["span"])
    b = a.under(short)
    C.ob("A03.consensus", "types", bool(edges(a, short)) and not any(re.match(r"Result::Err\{0: RadError::InsufficientConsensus\{achieved: " + frac, b.s(x)) for r in b.rets() for x in b.alternatives(r.value)), "with the minimum consensus on a type it is not reported as missing", a.fn["span"])
    per_element(C, a, "A03.types", "count", ["reveals"], [i for i, _ in edges(a, enough)], "all reveals are counted before the consensus is measured", nodes=incs)
    # the type: none in a tie, errors, values
    pos = cn + r"\.max_pos"
    z = lambda f: lambda l: bool(f(dz(l)))
    tied, won = re.compile(pos + r" is None$"), re.compile(pos + r" is Some$")
    iserr = z(lambda l: bool(re.fullmatch(rf"{pos}\.Some\.0 eq RadonTypesDiscriminant::Error\{{\}}|RadonTypesDiscriminant::Error\{{\}} eq {pos}\.Some\.0", l)))
    noerr = z(lambda l: bool(re.fullmatch(rf"{pos}\.Some\.0 ne RadonTypesDiscriminant::Error\{{\}}|RadonTypesDiscriminant::Error\{{\}} ne {pos}\.Some\.0", l)))
    vals = [r.pid for r, v in rest if "MajorityOfValues" in v[:70]]
    errs_ = [r.pid for r, v in rest if "MajorityOfErrors" in v[:70]]
    need(C, a, "A03.majority", "values", vals, won, what="values have a majority only if one type is the most frequent")
    need(C, a, "A03.majority", "values", vals, noerr, what="values have a majority only if errors have not")
    need(C, a, "A03.majority", "errors", errs_, iserr, what="errors have a majority only if they are the most frequent type")
    tie = [r.pid for r, v in rest if re.match(r"Result::Err\{0: RadError::ModeTie\{values: (iter::collect_new|Vec::new)\(", v)]
    C.ob("A03.majority", "tie", bool(tie), "a tie of types is reported", a.fn["span"])
    T1 = r"Result::Err\{0: RadError::ModeTie\{values: (iter::collect_new|Vec::new)\("
    C.ob("A03.majority", "tie", bool(edges(a, tied)) and not says_(a.under(lambda l: bool(tied.match(l))), T1), "only if no type is the most frequent", a.fn["span"])
    # errors: the most common of them, by the same minimum
    pushes = [c for c in a.calls() if c.f["name"] in ("collect_push", "push")]
    ms = a.calls("mode::mode_filter")
    col = [c for c in pushes if c.args[1] == "RadonReport::into_inner(elem(reveals))"]
    need(C, a, "A03.errors", "filter", ms, iserr, what="errors are compared if they are the majority")
    ie = re.compile(r"RadonReport::into_inner\(elem\(reveals\)\) is RadonError")
    lone = [c for c in col if c.pid in a.reach(past(a, edges(a, iserr)))]
    need(C, a, "A03.errors", "collected", lone, ie, what="only errors are compared")
    if lone:
        per_element(C, a, "A03.errors", "collected", ["reveals"], ms, "all errors are compared", cut=edges(a, lambda l: l.startswith("RadonReport::into_inner(elem(reveals)) is ") and "RadonError" not in l), nodes=lone)
    len_ = r"Div\(\(len\(RadonType::value\(mode::mode_filter\(.*\)\.Ok\.0\.Array\.0\)\) as f64\), .*\)"
    need(C, a, "A03.errors", "consensus", errs_, lambda l: order_lit(l, len_, "minimum_consensus"), what="an error is agreed on only by the minimum consensus")
    C.ob("A03.errors", "consensus", all(re.fullmatch(r"Result::Ok\{0: TallyPreconditionClauseResult::MajorityOfErrors\{errors_mode: mode::mode\((?:iter::collect_new|Vec::new)\(\)\)\.Ok\.0\.RadonError\.0\}\}", v) for r, v in rest if "MajorityOfErrors" in v[:70]), "the error agreed on is the most common one", a.fn["span"])
    cnt = r"Div\(mode::mode_filter\(.*\)\.Err\.0\.ModeTie\.max_count, .*\)"
    tie2 = [r.pid for r, v in rest if re.match(r"Result::Err\{0: RadError::ModeTie\{values: mode::mode_filter", v)]
    ok_tie = lambda l: order_lit(l, cnt, "minimum_consensus")
    C.ob("A03.errors", "tie", bool(tie2) and bool(edges(a, ok_tie)) and not says_(a.under(ok_tie), r"Result::Err\{0: RadError::ModeTie\{values: mode::mode_filter"), "a tie of errors is reported only if each has the minimum consensus", a.fn["span"])
    # which count of commits: all commits since the second hard fork
    divs = {x for *_, ss in a.edges() for l in ss for x in re.findall(r"Div\(.*\)", l)}
    C.ob("A03.errors", "share", all(re.fullmatch(rf"Div\(.*, (?:{com}|\{{try_from\(len\(reveals\)\)\.Ok\.0 \| try_from\(num_commits\)\.Ok\.0\}})\)", d) for d in divs) and bool(divs), "shares are shares of the commits (of the reveals, before the second hard fork)", a.fn["span"])
    for after, rx in ((True, r"try_from\(num_commits\)\.Ok\.0|\(num_commits as f64\)"), (False, r"try_from\(len\(reveals\)\)\.Ok\.0|\(len\(reveals\) as f64\)")):
        b = a.under(lambda l: l == ("!" if after else "") + FORK)
        divs = {x for *_, ss in b.edges() for l in ss for x in re.findall(r"Div\(.*\)", l) if "mode_filter" in x}
        C.ob("A03.errors", "share", bool(divs) and all(re.fullmatch(rf"Div\(.*, (?:{rx})\)", d) for d in divs) and bool(edges(a, lambda l: FORK in l)), f"errors need their share of {'the commits' if after else 'the reveals, before the second hard fork'}", a.fn["span"])
    # flags
    fe = [c for c in a.calls() if c.f["name"] == "push" and dz(c.args[1]) in ("0", "1", f"Eq({DISC}, RadonTypesDiscriminant::Error{{}})", f"eq({DISC}, RadonTypesDiscriminant::Error{{}})")]
    one = {c.pid for c in fe}
    EQ = z(re.compile(rf"^(eq\()?{re.escape(DISC)}(,| eq) RadonTypesDiscriminant::Error\{{\}}\)?$|^RadonTypesDiscriminant::Error\{{\}} eq {re.escape(DISC)}$").search)
    NE = z(re.compile(rf"^!eq\({re.escape(DISC)}, |^{re.escape(DISC)} ne RadonTypesDiscriminant::Error|^RadonTypesDiscriminant::Error\{{\}} ne {re.escape(DISC)}$").search)
    C.ob("A03.flags", "errors", bool(fe), "reveals are flagged as errors or not", a.fn["span"])
    need(C, a, "A03.flags", "errors", [c for c in fe if c.args[1] == "1"], EQ, what="flagged as error only if it is one") if any(c.args[1] == "1" for c in fe) else None
    need(C, a, "A03.flags", "errors", [c for c in fe if c.args[1] == "0"], NE, what="flagged as no error only if it is none") if any(c.args[1] == "0" for c in fe) else None
    per_element(C, a, "A03.flags", "errors", ["reveals"], vals, "one flag per reveal", nodes=fe)
    IN_ = "RadonReport::into_inner(elem(reveals))"
    alike = rf"Eq\({pos}\.Some\.0, RadonTypes::discriminant\({re.escape(IN_)}\)\)|Eq\(RadonTypes::discriminant\({re.escape(IN_)}\), {pos}\.Some\.0\)"
    fl = [c for c in a.calls() if c.f["name"] == "push" and c.pid not in one and c.args[1] != IN_]
    C.ob("A03.flags", "liars", bool(fl) and all(re.fullmatch(rf"Not\((?:{alike})\)|" + alike.replace("Eq", "Ne"), dz(c.args[1])) for c in fl), f"a liar revealed something of another type: {[c.args[1][:80] for c in fl]}", a.fn["span"])
    per_element(C, a, "A03.flags", "liars", ["reveals"], vals, "one flag per reveal", nodes=fl)
    same = z(lambda l: bool(re.fullmatch(rf"{pos}\.Some\.0 eq RadonTypes::discriminant\({re.escape(IN_)}\)|RadonTypes::discriminant\({re.escape(IN_)}\) eq {pos}\.Some\.0", l) or re.fullmatch(alike, l)))
    diff = z(lambda l: bool(re.fullmatch(rf"{pos}\.Some\.0 ne RadonTypes::discriminant\({re.escape(IN_)}\)|RadonTypes::discriminant\({re.escape(IN_)}\) ne {pos}\.Some\.0", l)) or l[:1] == "!" and bool(re.fullmatch(alike, l[1:])))
    kept_ = [c for c in pushes if c.args[1] == IN_ and c.pid in a.reach(past(a, edges(a, noerr)))]
    need(C, a, "A03.flags", "values", kept_, same, what="only reveals of the majority's type are tallied")
    per_element(C, a, "A03.flags", "values", ["reveals"], vals, "all reveals of the majority's type are tallied", cut=edges(a, diff), nodes=kept_)
    locs = {v: re.search(r"MajorityOfValues\{values: (.*?), liars: (.*?), errors: (.*?)\}\}", v) for r, v in rest if "MajorityOfValues" in v[:70]}
    C.ob("A03.flags", "answer", all(m and set(m.groups()) <= {"iter::collect_new()", "Vec::new()"} for m in locs.values()), "values, liars and errors are answered", a.fn["span"])


def counter(C):
    fs = [f for f in rad_fns(C) if f["path"].endswith("Counter::increment")]
    C.floor("Counter::increment", len(fs), 1)
    for f in fs:
        a = C.an(f)
        X, M = "self.categories[category_id]", "self.max_val"
        W = [(e.op, e.loc, e.args) for e in a.effects()]
        ws = {(l, x[0]) for o, l, x in W if o == "assign"}
        C.ob("A03.counter", "effects", all(o == "assign" for o, *_ in W) and ws <= {(X, f"Add(1, {X})"), (X, f"Add({X}, 1)"), (M, X), ("self.max_pos", "Option::None{}"), ("self.max_pos", "Option::Some{0: category_id}")}, f"changes: {sorted(ws)}", f["span"])
        ends = [r.pid for r in a.rets()]
        add = [e.pid for e in a.effects() if e.loc == X]
        C.ob("A03.counter", "one more", bool(add) and a.paths_avoiding(ends, cut_nodes=add) is None and not any(a.in_loop(p) or set(add) & set(a.reach([y for _, y in a.p.nodes[p].succ])) for p in add), "the category counts one more, once", f["span"])
        gt = lambda l: order_lit(l, re.escape(X), re.escape(M), True) or bool(re.fullmatch(rf"cmp\({re.escape(X)}, {re.escape(M)}\) is Greater|cmp\({re.escape(M)}, {re.escape(X)}\) is Less", l))
        eq = lambda l: l in (f"{X} eq {M}", f"{M} eq {X}", f"cmp({X}, {M}) is Equal", f"cmp({M}, {X}) is Equal")
        for loc, val, lit, what in ((M, X, gt, "the highest count grows only past the former"), ("self.max_pos", "Option::Some{0: category_id}", gt, "the most frequent changes only past the former"), ("self.max_pos", "Option::None{}", eq, "a tie is a count that equals the highest")):
            es = [e.pid for e in a.effects() if e.loc == loc and e.args == [val]]
            need(C, a, "A03.counter", what, es, lit, what=what)
            on = edges(a, lit)
            starts = [y for i, l in on for ll, y in a.p.nodes[i].succ if ll == l]
            C.ob("A03.counter", what, bool(starts) and all(a.paths_avoiding(ends, cut_nodes=es, start=s) is None for s in starts), what + ", and then always", f["span"])
    fs = [f for f in rad_fns(C) if f["path"].endswith("Counter::new")]
    for f in fs:
        got = set(C.an(f).ret_values())
        C.ob("A03.counter", "new", got and all("max_pos: Option::None{}" in g and "max_val: 0" in g and "from_elem(0, n)" in g for g in got), f"starts at zero: {got}", f["span"])


def after(C):
    a = tfn(C, "conditions::evaluate_tally_postcondition_clause")
    if not a:
        return
    L = "report.context.stage.Tally.0.liars"
    ach = r"Div\(\{0f64 \| Add\((1f64, μ|μ, 1f64)\)\}, \(commits_count as f64\)\)"
    ERR = "RadonTypesDiscriminant::Error{}"
    iserr = {f"RadonTypes::discriminant(report.result) eq {ERR}", f"{ERR} eq RadonTypes::discriminant(report.result)", f"eq(RadonTypes::discriminant(report.result), {ERR})", "report.result is RadonError"}
    over = lambda l: order_lit(l, ach, "minimum_consensus", True)
    keep = lambda l: l in iserr or over(l)
    vals = {re.sub(ach, "A", v) for r in a.rets() for v in [a.s(x) for x in a.alternatives(r.value)]}
    C.ob("A03.after", "outcomes", vals == {"report", f"conditions::radon_report_from_error(RadError::InsufficientConsensus{{achieved: A, required: minimum_consensus}}, len({L}))"}, f"the report, or insufficient consensus for all who revealed: {sorted(vals)}", a.fn["span"])
    b = a.under(keep)
    C.ob("A03.after", "kept", not any(b.s(v) == "report" for r in b.rets() for v in b.alternatives(r.value)), "the report stands only if it is an error or enough agree", a.fn["span"])
    cs = a.calls("conditions::radon_report_from_error")
    need(C, a, "A03.after", "dropped", cs, lambda l: order_lit(l, "minimum_consensus", ach), what="replaced only without enough agreement")
    b = a.under(lambda l: l in {f"RadonTypes::discriminant(report.result) ne {ERR}", f"{ERR} ne RadonTypes::discriminant(report.result)", f"!eq(RadonTypes::discriminant(report.result), {ERR})"} or l.startswith("report.result is ") and "RadonError" not in l)
    C.ob("A03.after", "errors", {b.s(x) for r in b.rets() for x in b.alternatives(r.value)} == {"report"}, "an error stands", a.fn["span"])
    both = [edges(a, lambda l: l == f"!elem({L})"), edges(a, lambda l: l == f"elem({L})")]
    C.ob("A03.after", "count", all(both), "liars are told apart", a.fn["span"])
    b = a.under(lambda l: l == f"!elem({L})")
    C.ob("A03.after", "count", any("Div(0f64, (commits_count as f64))" in l for *_, ss in b.edges() for l in ss), "liars do not count", a.fn["span"])
    b = a.under(lambda l: l == f"elem({L})")
    sk = [may_skip(b, x) for r in b.rets() for v in b.alternatives(r.value) for x in [v]]
    C.ob("A03.after", "count", any(re.search(ach, l) for *_, ss in b.edges() for l in ss), "everybody else counts as one", a.fn["span"])
    H = list(headers(a, L).values())
    done = set().union(*[h["done"] for h in H]) if H else set()
    p = a.paths_avoiding([i for i, _ in edges(a, over)], cut_edges=done)
    C.ob("A03.after", "count", bool(done) and p is None, "all flags are counted before the share is compared", a.where(p[-1]) if p else a.fn["span"])


def outcome(C):
    a = tfn(C, "conditions::construct_report_from_clause_result", "update_liars")
    if a:
        R = "witnet_rad::run_tally_report(clause_result.Ok.0.MajorityOfValues.values, script, Option::Some{0: clause_result.Ok.0.MajorityOfValues.liars}, Option::Some{0: clause_result.Ok.0.MajorityOfValues.errors}, RadonScriptExecutionSettings::all_but_partial_results(), active_wips).0"
        md = "ReportContext::from_stage(Stage::Tally{0: Default::default()[.errors:=from_elem(1, reports_len)]})"
        te = f"RadError::TallyExecution{{inner: Option::Some{{0: new({R}.Err.0)}}, message: Option::None{{}}}}"
        want = {f"{R}.Ok.0": "the tally's result", f"conditions::radon_report_from_error({te}, reports_len)": "a failed tally",
                f"RadonReport::from_result(Result::Err{{0: {te}}}, ReportContext::from_stage(Stage::Tally{{0: Default::default()}}))": "a failed tally, before the second hard fork",
                f"RadonReport::from_result(Result::Ok{{0: RadonTypes::RadonError{{0: clause_result.Ok.0.MajorityOfErrors.errors_mode}}}}, {md})": "an agreed error",
                "conditions::radon_report_from_error(clause_result.Err.0, reports_len)": "no consensus",
                f"RadonReport::from_result(Result::Err{{0: clause_result.Err.0}}, {md})": "no consensus, before the second hard fork"}
        got = {a.s(v): r for r in a.rets() for v in a.alternatives(r.value)}
        for s, r in got.items():
            C.ob("A03.outcome", "answers", s in want, f"answers `{s[:300]}`", a.where(r.pid))
        for s, n in want.items():
            C.ob("A03.outcome", n, s in got, f"{n}: `{s[:160]}`", a.fn["span"])
        us = [c for c in a.calls() if c.f["name"] == "update_liars"]
        C.ob("A03.outcome", "liars", bool(us) and all(c.args[1] == "from_elem(0, reports_len)" for c in us), "an agreed error makes nobody a liar", a.fn["span"])
        old = a.under(lambda l: l == FORK)
        new = a.under(lambda l: l == "!" + FORK)
        C.ob("A03.outcome", "fork", bool(edges(a, lambda l: FORK in l)) and not any("before" in want.get(new.s(v), "") for r in new.rets() for v in new.alternatives(r.value)) and not any(old.s(v).startswith("conditions::radon_report_from_error(") for r in old.rets() for v in old.alternatives(r.value)), "the second hard fork decides who is marked", a.fn["span"])
    a = tfn(C, "conditions::radon_report_from_error")
    if a:
        got = set(a.ret_values())
        C.ob("A03.outcome", "from error", len(got) == 1 and all(re.fullmatch(r"RadonReport::from_result\(Result::Err\{0: rad_error\}, ReportContext::from_stage\(Stage::Tally\{0: (TallyMetaData\{.*errors: from_elem\(1, num_reveals\), liars: from_elem\(1, num_reveals\),.*\}|Default::default\(\)\[.*errors:=from_elem\(1, num_reveals\).*\])\}\)\)", g) for g in got), f"everybody is flagged as error and liar: {[g[:200] for g in got]}", a.fn["span"])
