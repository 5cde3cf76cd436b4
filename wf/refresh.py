"""Brings the facts of the crates a check needs up to date with /repo's working tree.

Setup records, for every crate of the world workspace, the exact compiler command line cargo used
(.build/cmds).  A check hashes the *content* of each crate's sources; when a crate (or one it depends
on) differs from what its facts were computed from, the recorded commands are replayed with the driver
in place of rustc, in dependency order.
"""
import fcntl
import glob
import hashlib
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
FACTS = os.path.join(BUILD, "facts")
CMDS = os.path.join(BUILD, "cmds")
DRIVER = os.path.join(BUILD, "wfacts")


class RefreshError(Exception):
    pass


def sysroot_lib():
    p = os.path.join(BUILD, "sysroot.txt")
    if os.path.exists(p):
        return open(p).read().strip() + "/lib"
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()
    return r + "/lib"


def tree_hash(root):
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(root)):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".proto", ".toml", ".json")):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                h.update(b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def load_cmds():
    out = {}
    for f in glob.glob(os.path.join(CMDS, "*.cmd.json")):
        j = json.load(open(f))
        argv = j["argv"]
        if "build_script_build" in argv or "--test" in argv:
            continue
        name = argv[argv.index("--crate-name") + 1]
        src = next(a for a in argv if a.endswith(".rs"))
        if not os.path.isabs(src):
            src = os.path.join(j["cwd"], src)
        deps = []
        for i, a in enumerate(argv):
            if a == "--extern":
                deps.append(argv[i + 1].split(":")[-1].split("=")[0])
        out[name] = {"argv": argv, "cwd": j["cwd"], "env": j["env"], "src": src, "deps": deps, "name": name}
    return out


def crate_root(src):
    """directory whose content decides the crate"""
    d = os.path.dirname(src)
    if os.path.basename(d) == "src":
        return os.path.dirname(d)
    return d


# sources outside the crate's own directory that a crate is built from
ALSO = {"witnet_data_structures": ["/repo/schemas"], "witnet_net": ["/repo/net/src"]}


def closure_order(crates, cmds):
    order, seen = [], set()

    def visit(c):
        if c in seen or c not in cmds:
            return
        seen.add(c)
        for d in cmds[c]["deps"]:
            visit(d)
        order.append(c)

    for c in crates:
        visit(c)
    return order


def crate_hashes(order, cmds):
    hashes = {}
    for c in order:
        local = hashlib.sha256(tree_hash(crate_root(cmds[c]["src"])).encode())
        for d in ALSO.get(c, []):
            local.update(tree_hash(d).encode())
        local.update(json.dumps(cmds[c]["argv"]).encode())
        for d in sorted(cmds[c]["deps"]):
            if d in hashes:
                local.update(hashes[d].encode())
        hashes[c] = local.hexdigest()
    return hashes


def mark_current(crates):
    cmds = load_cmds()
    order = closure_order(crates, cmds)
    for c, h in crate_hashes(order, cmds).items():
        if os.path.exists(os.path.join(FACTS, c + ".json")):
            with open(os.path.join(FACTS, c + ".hash"), "w") as fh:
                fh.write(h)


def refresh(crates, log=lambda s: None):
    """facts files for CRATES (and what they depend on), current with /repo"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cmds = load_cmds()
        missing = [c for c in crates if c not in cmds]
        if missing or not os.path.exists(DRIVER):
            raise RefreshError(f"no recorded build for {missing}; run setup")
        order = closure_order(crates, cmds)
        hashes = crate_hashes(order, cmds)
        stale = set()
        for c in order:
            hp = os.path.join(FACTS, c + ".hash")
            fp = os.path.join(FACTS, c + ".json")
            if not (os.path.exists(fp) and os.path.exists(hp) and open(hp).read() == hashes[c]):
                stale.add(c)
        ran = []
        for c in order:
            if c not in stale:
                continue
            j = cmds[c]
            env = dict(os.environ)
            env.update(j["env"])
            env.pop("WFACTS_LOG", None)
            env["WFACTS_OUT"] = FACTS
            env["LD_LIBRARY_PATH"] = sysroot_lib() + ":" + env.get("LD_LIBRARY_PATH", "")
            argv = [DRIVER] + j["argv"]
            r = subprocess.run(argv, cwd=j["cwd"], env=env, capture_output=True, text=True)
            if r.returncode != 0:
                raise RefreshError(f"compiling {c} failed:\n" + r.stderr[-4000:])
            with open(os.path.join(FACTS, c + ".hash"), "w") as fh:
                fh.write(hashes[c])
            ran.append(c)
        log(f"facts: {len(order)} crates, recompiled {ran or 'none'}")
        return [os.path.join(FACTS, c + ".json") for c in order]
