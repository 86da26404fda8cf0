"""C01 - an interrupted tracking run continues exactly after a restart."""
import os

import numpy as np

from .. import cases, lab
from ..ctx import track, violation
from . import hist

BUDGET = {"quick": (160, 110), "thorough": (4000, 800)}
RULE = ("A case is a seeded experiment (direction, calendar, grid, forcing regime, tagging, frequencies) with a seeded "
        "history of segments; each segment is killed at a seeded file operation (before, after or inside it) and the next one "
        "restarts from the last complete output, or extends a finished run. Non-trivial: at least one segment was killed "
        "or extended after its first output and a restart really ran; distinct by the order of all gated operations.")
REAL = hist.REAL
STUB = hist.STUB
MUST_REACH = ["killed", "restarted", "torn", "extended", "chain2"]


def gen(r, tier, i):
    case = cases.gen_case(r, min_steps=4, max_steps=12 if tier == "quick" else 24,
                          outs=["30min", "1h", "1h", "2h", "3h", "6h", "90min"])
    return {"case": case, "history": hist.gen_history(r, case, extend_p=0.35)}


def nontrivial(p, r):
    return bool(r["probes"].get("restarted"))


def execute(plan, c):
    case = plan["case"]
    ref = c.world()
    base = hist.straight(c, ref, case)
    if isinstance(base, dict) and "kind" in base:
        return base
    w, outs, v = hist.play(c, plan, ref)
    if v:
        return v
    return hist.agree(c, case, base, outs)


def shrink(plan):
    yield from hist.shrink(plan)
