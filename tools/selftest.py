#!/usr/bin/env python3
"""How sharp are the judges?  Runs the plan of a property on the real code, but alters one thing in the recorded
observations of some of the cases (a number by one, a dropped, doubled or swapped item) before they are judged.
Reports which share of the altered runs was refused.  Runs whose alteration is outside of what the property speaks
about are accepted rightly, so that the share is not 1 for every property; it may never be 0.

    tools/selftest.py C01 C02 ..."""
import copy
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mbv import core, props


def leaves(o, path=()):
    if isinstance(o, dict):
        for k, v in o.items():
            if k not in ("d", "n"):
                yield from leaves(v, path + (k,))
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from leaves(v, path + (i,))
    elif isinstance(o, bool):
        yield path
    elif isinstance(o, (int, str)):
        yield path


NOTE = [None]


def alter(rnd, out):
    out = copy.deepcopy(out)
    NOTE[0] = "dropped or doubled"
    k = rnd.randrange(4) if isinstance(out, list) else 3
    if k == 0 and len(out) > 1:
        i = rnd.randrange(len(out) - 1)
        del out[i]
        return out
    if k == 1 and len(out) > 1:
        i = rnd.randrange(len(out) - 1)
        out.insert(i, copy.deepcopy(out[i]))
        return out
    ps = list(leaves(out))
    if not ps:
        return None
    p = rnd.choice(ps)
    o = out
    for x in p[:-1]:
        o = o[x]
    v = o[p[-1]]
    if isinstance(v, bool):
        o[p[-1]] = not v
    elif isinstance(v, str):
        o[p[-1]] = v + "x" if rnd.random() < .5 or not v else v[:-1]
    else:
        o[p[-1]] = v + rnd.choice([1, -1]) if v > 0 else v + 1
    NOTE[0] = (p, v, o[p[-1]])
    return out


class Ctx(core.Ctx):
    share = .05

    def run_cases(self, cases, limit=20):
        res = super().run_cases(cases, limit)
        rnd = random.Random(5)
        self.changed = getattr(self, "changed", 0)
        self.log = getattr(self, "log", [])
        for r in res:
            if rnd.random() < self.share:
                o = alter(rnd, r["out"])
                if o is not None and o != r["out"]:
                    was = r["out"]
                    r["out"] = o
                    self.changed += 1
                    self.log.append((r["id"], r.get("fam"), NOTE[0], was))
        return res


def main(pid):
    ctx = Ctx(pid)
    try:
        props.PLANS[pid](ctx)
        n = len(ctx.violations)
        if os.environ.get("SHOW"):
            bad = {c["id"] for c, _ in ctx.violations}
            for i, f, note, was in ctx.log:
                if i not in bad:
                    print("  accepted", i, note, str(was)[:int(os.environ["SHOW"])])
        print(f"{pid}: {n} of {ctx.changed} altered runs refused ({100 * n // max(1, ctx.changed)} %)", flush=True)
    except core.ToolError as e:
        print(f"{pid}: {str(e)[:300]}", flush=True)
    finally:
        import shutil
        if ctx._build is not None:
            ctx._build.join()
        shutil.rmtree(ctx.dir, ignore_errors=True)


for p in sys.argv[1:]:
    main(p)
