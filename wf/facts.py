"""Loads the JSON facts written by the wfacts driver and indexes them."""
import json
import os
import re

CLOSURE_RE = re.compile(r"\{(?:async )?(?:closure|block|fn body)[^{}]*\}|\{async[^{}]*\}|\{closure@[^{}]*\}")


class Facts:
    def __init__(self, files):
        self.fns = {}          # key -> fn
        self.by_path = {}      # path -> [fn]
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.closure_ty = {}   # closure type string -> key
        self.crates = {}
        self.stubs = set()     # crates standing in for dependencies that are not available: never looked into
        for f in files:
            with open(f, encoding="utf-8") as fh:
                j = json.load(fh)
            c = j["crate"]
            self.crates[c] = {"fns": 0, "bodies": 0, "blocks": 0, "calls": 0}
            if j["fns"] and not any((fn.get("span") or "").startswith("/repo/") for fn in j["fns"]):
                self.stubs.add(c)
            for fn in j["fns"]:
                fn["crate"] = c
                self.fns[fn["key"]] = fn
                self.by_path.setdefault(fn["path"], []).append(fn)
                self.crates[c]["fns"] += 1
                if "blocks" in fn:
                    self.crates[c]["bodies"] += 1
                    self.crates[c]["blocks"] += len(fn["blocks"])
                    self.crates[c]["calls"] += sum(1 for b in fn["blocks"] if b["t"]["k"] == "call")
                if fn["kind"] == "Closure" and "locals" in fn and len(fn["locals"]) > 1:
                    t = fn["locals"][1]["ty"]
                    m = CLOSURE_RE.search(t)
                    if m:
                        self.closure_ty[m.group(0)] = fn["key"]
            for k, v in j["adts"].items():
                # local ADT paths as seen from inside the crate lack the crate prefix only for locals; path() adds it
                self.adts.setdefault(k, v)
            for im in j["impls"]:
                im["crate"] = c
                self.impls.append(im)
            for t in j["traits"]:
                self.traits[t["path"]] = t

    # -- lookup helpers -------------------------------------------------
    def find(self, pred):
        return [f for f in self.fns.values() if pred(f)]

    def method(self, crate, self_ty, name, trait=None):
        """functions NAME in impls whose self type's head is SELF_TY (last path segment), in crate."""
        out = []
        for f in self.fns.values():
            if f["crate"] != crate or f["name"] != name or f["kind"] not in ("AssocFn",):
                continue
            if "impl_self" not in f:
                continue
            if ty_head(f["impl_self"]) != self_ty:
                continue
            it = f.get("impl_trait_path")
            if trait is None:
                if it is None:
                    out.append(f)
            elif it is not None and it.split("::")[-1] == trait:
                out.append(f)
        return out

    def func(self, crate, name, module=None):
        out = []
        for f in self.fns.values():
            if f["crate"] == crate and f["name"] == name and f["kind"] == "Fn":
                if module is None or ("::" + module + "::") in f["path"]:
                    out.append(f)
        return out

    def closures_of(self, key):
        return [f for f in self.fns.values() if f.get("parent") == key]

    def closure_of_type(self, ty):
        for m in CLOSURE_RE.finditer(ty):
            k = self.closure_ty.get(m.group(0))
            if k:
                return k
        return None


def ty_head(t):
    """Last path segment of a type's constructor: `&mut a::b::C<D>` -> `C`."""
    t = t.strip()
    while True:
        m = re.match(r"^(&('[\w]+ )?(mut )?|\*const |\*mut |dyn )", t)
        if not m:
            break
        t = t[m.end():].strip()
    t = re.split(r"[<(\[{]", t, maxsplit=1)[0] or t
    return t.split("::")[-1].strip()
