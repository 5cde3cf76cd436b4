"""Pretty-printer for the MIR facts (debugging aid)."""
import json
import sys


def place(p):
    s = f"_{p['l']}"
    for e in p.get("p", []):
        if e == "*":
            s = f"(*{s})"
        elif e == "?":
            s += ".?"
        elif "f" in e:
            s += f".{e['n']}"
        elif "idx" in e:
            s += f"[_{e['idx']}]"
        elif "ci" in e:
            s += f"[{'-' if e['end'] else ''}{e['ci']}]"
        elif "sub" in e:
            s += f"[{e['sub'][0]}..{'-' if e['end'] else ''}{e['sub'][1]}]"
        elif "dc" in e:
            s += f" as {e['n']}"
    return s


def op(o):
    if "c" in o:
        return place(o["c"])
    if "m" in o:
        return "move " + place(o["m"])
    if "k" in o:
        k = o["k"]
        if "fndef" in k:
            return "fn:" + k["fndef"]["fn"]
        if "closure" in k:
            return "closure:" + k["closure"]
        for f in ("int", "str", "val", "uneval"):
            if f in k:
                return f"{k[f]!r}:{k['ty']}" + (f"<{k['uneval']}{'#p%d' % k['promoted'] if 'promoted' in k else ''}>" if "uneval" in k else "")
        return "const:" + k["ty"]
    return str(o)


def rv(r):
    t = r["r"]
    if t == "use":
        return op(r["a"])
    if t == "ref":
        return ("&mut " if r["mut"] else "&") + place(r["pl"])
    if t == "rawptr":
        return "&raw " + place(r["pl"])
    if t == "bin":
        return f"{r['op']}({op(r['a'])}, {op(r['b'])})"
    if t == "un":
        return f"{r['op']}({op(r['a'])})"
    if t == "cast":
        return f"{op(r['a'])} as {r['ty']} [{r['kind']}]"
    if t == "discr":
        return f"discr({place(r['pl'])})"
    if t == "agg":
        n = r.get("adt", r.get("closure", r["kind"]))
        if "variant" in r:
            n += "::" + r["variant"]
            return n + "{" + ", ".join(f"{f}: {op(a)}" for f, a in zip(r["fields"], r["a"])) + "}"
        return n + "(" + ", ".join(op(a) for a in r["a"]) + ")"
    if t == "repeat":
        return f"[{op(r['a'])}; {r['n']}]"
    return str(r)


def show(fn, out=sys.stdout, cleanup=False):
    w = out.write
    w(f"fn {fn['path']}  [{fn['key']}] args={fn.get('args')} {fn['span']} {fn.get('upvars','')}\n")
    for i, l in enumerate(fn.get("locals", [])):
        w(f"  let _{i}: {l['ty']}" + (f"  // {l['n']}" if "n" in l else "") + "\n")
    for d in fn.get("dbg", []):
        w(f"  debug {d['name']} = {place(d['pl'])}\n")
    for i, b in enumerate(fn.get("blocks", [])):
        if b.get("cleanup") and not cleanup:
            continue
        w(f" bb{i}:\n")
        for s in b["st"]:
            if "d" in s:
                w(f"    {place(s['d'])} = {rv(s['v'])}\n")
            elif "setd" in s:
                w(f"    setdiscr {place(s['setd'])} {s['var']}\n")
            elif "intr" in s:
                w(f"    {s['intr']}\n")
        t = b["t"]
        k = t["k"]
        if k == "call":
            f = t.get("f")
            n = f"{f['fn']}<{', '.join(f['ga'])}>" + (f" => {f['res']}" if "res" in f else "") if f else "IND " + op(t["ind"])
            w(f"    {place(t['d'])} = {n}({', '.join(op(a) for a in t['a'])}) -> {t['t']}  // {t['s']}\n")
        elif k == "switch":
            w(f"    switch {op(t['a'])} {t['v']} else {t['o']}\n")
        elif k == "drop":
            w(f"    drop {place(t['pl'])} -> {t['t']}\n")
        elif k == "assert":
            w(f"    assert {op(t['a'])}=={t['exp']} {t['msg']} -> {t['t']}\n")
        elif k in ("goto",):
            w(f"    goto {t['t']}\n")
        else:
            w(f"    {k} {t.get('t','')}\n")


if __name__ == "__main__":
    j = json.load(open(sys.argv[1]))
    for f in j["fns"]:
        if len(sys.argv) < 3 or any(a in f["path"] for a in sys.argv[2:]):
            show(f)
