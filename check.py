#!/usr/bin/env python3
"""check.py PROPERTY [TIER]: decides one property for the current tree of /repo.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Exit 2: no verdict."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import importlib
import common

MODS = {"C06": "chain", "C07": "chain", **{f"C0{i}": "parse" for i in range(1, 6)},
        "C08": "topo", "C09": "topo", "C10": "topo",
        "C11": "path", "C12": "path", "C13": "path",
        **{f"C{i}": "small" for i in (19, 20, 21, 22, 25, 26, 27)},
        "C28": "call", "C29": "call", "C30": "mark",
        "C17": "pat", "C18": "pat", "C23": "syn", "C24": "syn", "C31": "syn",
        "C14": "text", "C15": "text", "C16": "text"}

if __name__ == "__main__":
    prop = sys.argv[1]
    mod = importlib.import_module(MODS[prop])
    level = getattr(mod, "LEVEL", "model_checking")
    sys.exit(common.main(prop, level, mod.check))
