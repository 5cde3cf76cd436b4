#!/usr/bin/env python3
"""check.py <property>: decide one property from /repo's current source."""
import importlib
import os
import pkgutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from wf import check as K  # noqa: E402
import props  # noqa: E402


def load():
    for m in pkgutil.iter_modules(props.__path__):
        importlib.import_module("props." + m.name)


def main():
    load()
    ids = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if ids == ["--list"]:
        print("\n".join(sorted(K.REGISTRY)))
        return 0
    if ids == ["all"]:
        rc = 0
        for i in sorted(K.REGISTRY):
            r = K.run(i, tier, seed)
            rc = max(rc, r)
        return rc
    rc = 0
    for i in ids:
        rc = max(rc, K.run(i, tier, seed))
    return rc


if __name__ == "__main__":
    sys.exit(main())
