"""Prints a property's group table as JSON."""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core  # noqa: E402

prop, tier = sys.argv[1:3]
try:
    m = importlib.import_module("props." + prop)
    print(json.dumps(dict(
        assumptions=getattr(m, "ASSUMPTIONS", []),
        groups=[dict(name=g.name, variants=len(g.variants[tier]),
                     env=g.env, weight=g.weight, rule=g.rule,
                     require=list(g.require))
                for g in core.GROUPS[prop].values()])))
except BaseException:
    print(json.dumps(dict(error=traceback.format_exc()[-4000:])))
