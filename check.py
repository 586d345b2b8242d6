#!/usr/bin/env python3
"""Decide one property of /repo from its source.

    python3 check.py P04 [--tier quick|thorough] [--repo /repo] [--replay evidence/replay/....json]

Exit status: 0 held on everything analysed, 1 violated, 2 the analysis itself is broken.
"""

import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import monitors  # noqa: E402
from sa.harness import run_ob  # noqa: E402
from sa.lib import set_class_hierarchy  # noqa: E402
from sa.program import AnchorMissing, Program  # noqa: E402
from sa.registry import MODULES, PROPERTIES  # noqa: E402
from sa.rules import RULES, run_rule, self_test  # noqa: E402


def known_findings():
    """id -> property of the listed findings."""
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line.split()[1:3])
                out[d["property"], d["id"]] = line.split("--", 1)[1].strip()
    return out


def obligations(pid, tier):
    mine, others = [], []
    for m in MODULES:
        mod = importlib.import_module("sa." + m)
        obs = list(mod.obligations())
        if tier == "thorough" and hasattr(mod, "thorough"):
            obs += mod.thorough()
        for o in obs:
            (mine if pid in o.props else others).append(o)
    return mine, others


class TimeUp(BaseException):
    """The analysis of one obligation takes too long: its facts are undecided."""


def _time_up(*args):
    raise TimeUp


# Seconds for one obligation, and for all.
LIMITS = {"quick": (20, 500), "thorough": (120, 5000)}


class Run:
    def __init__(self, pid, tier, repo):
        self.pid, self.tier, self.repo = pid, tier, repo
        self.t0 = time.time()
        self.ok = self.undecided = self.known = 0
        self.violations = []  # dicts
        self.open = []  # undecided
        self.found = []  # known findings
        self.obs = 0
        self.units = set()
        self.scenarios = 0
        self.samples = []
        self.rules = {}
        self.crashed = []

    def add(self, kind, id, facet, verdict, detail, where, actual=None, expected=None):
        if verdict == "ok":
            self.ok += 1
            if len(self.samples) < 4 and (self.ok % 23 == 1):
                self.samples.append({"obligation": id, "facet": facet, "verdict": "ok", "where": where})
        elif verdict == "known":
            self.known += 1
            self.found.append((detail, f"{id}: {facet} at {where}"))
        elif verdict == "undecided":
            self.undecided += 1
            self.open.append({"obligation": id, "facet": facet, "reason": str(detail)[:300], "where": where})
        else:
            self.violations.append(
                {"kind": kind, "obligation": id, "facet": facet, "construct": where, "detail": str(detail)[:4000]}
            )

    def analyse(self, only=None):
        prog = Program(self.repo)
        set_class_hierarchy(prog)
        mons = monitors.MONITORS.get(self.pid, [])
        mine, others = obligations(self.pid, self.tier)
        # What an operation does to its operands, and entries that outlive their keys, matter to
        # every property of the operation.
        own = mons + [m for m in monitors.GENERAL if m not in mons]
        for ob in mine:
            if only is None or (only["kind"] == "obligation" and only["obligation"] == ob.id):
                self.one(prog, ob, own, True)
        if mons:
            for ob in others:
                if only is None or (only["kind"] == "obligation" and only["obligation"] == ob.id):
                    self.one(prog, ob, mons, False)
        for rule in RULES:
            if self.pid not in rule.props or (only is not None and only["obligation"] != rule.id):
                continue
            if not self_test(rule):
                raise AnchorMissing(f"rule {rule.id} does not find what it has to find in its example")
            f = run_rule(prog, rule)
            if len(f.instances) < rule.minimum:
                raise AnchorMissing(f"rule {rule.id} applies to {len(f.instances)} places, fewer than {rule.minimum}")
            self.rules[rule.id] = {"rule": rule.text, "instances": len(f.instances), "findings": len(f.findings)}
            self.units |= {w.split(":")[0] for _, w in f.instances}
            bad = len(f.findings)
            self.ok += len(f.instances) - bad
            for c, msg, where in f.findings:
                self.add("rule", rule.id, c, "violation", msg, where)
            for c, msg, where in f.undecided:
                self.add("rule", rule.id, c, "undecided", msg, where)

    def one(self, prog, ob, mons, facets):
        each, total = LIMITS[self.tier]
        each = min(each, self.t0 + total - time.time())
        if each <= 0:
            self.add("obligation", ob.id, "-", "undecided", "out of time", "")
            return
        try:
            signal.signal(signal.SIGALRM, _time_up)
            signal.setitimer(signal.ITIMER_REAL, each)
            try:
                rs = run_ob(prog, ob, mons, facets)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except TimeUp:
            self.add("obligation", ob.id, "-", "undecided", f"not analysed within {each:.0f} s", "")
            return
        except AnchorMissing as e:
            self.crashed.append(f"{ob.id}: {e}")
            self.add("obligation", ob.id, "-", "undecided", f"cannot be set up: {e}", ob.where or "")
            return
        except RecursionError:
            self.crashed.append(ob.id)
            self.add("obligation", ob.id, "-", "undecided", "too deep", "")
            return
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.crashed.append(f"{ob.id}: {type(e).__name__}: {e}")
            self.add("obligation", ob.id, "-", "undecided",
                     f"analysis error {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})", "")
            return
        self.scenarios += 1
        if facets:
            self.obs += 1
        for f in getattr(ob, "visited", ()):
            self.units.add(f"{f.module.relpath}:{f.qual}")
        for r in rs:
            self.add("obligation", ob.id, r.facet, r.verdict, r.detail, r.where)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    pid = a.property
    if pid not in PROPERTIES:
        print(f"{pid} is not a claimed property")
        return 2
    only = None
    if a.replay:
        with open(a.replay) as f:
            only = json.load(f)
    run = Run(pid, a.tier, a.repo)
    try:
        run.analyse(only)
    except (AnchorMissing, SyntaxError, OSError) as e:
        print(f"ANALYSIS BROKEN property={pid}: {e}")
        return 2
    known = known_findings()
    listed = {}
    for fid, what in run.found:
        if (pid, fid) in known:
            listed.setdefault(fid, []).append(what)
        else:
            run.violations.append({"kind": "obligation", "obligation": what.split(":")[0], "facet": "", "construct": what,
                                   "detail": f"finding {fid}, which is not listed for {pid}"})
    for fid, what in listed.items():
        print(f"KNOWN-FINDING: property={pid} {fid}: {known[pid, fid]} [{'; '.join(what)}]")
    decided = run.ok + run.known + len(run.violations)
    spec = PROPERTIES[pid]
    ev = {
        "property": pid,
        "tier": a.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": spec["explanation"],
            "obligations": run.obs,
            "scenarios_analysed": run.scenarios,
            "discharged": run.ok,
            "undecided": run.undecided,
            "known_findings": run.known,
            "functions_analysed": len(run.units),
            "units": sorted(run.units),
            "rules": run.rules,
            "rule": spec["rule"],
            "samples": run.samples,
            "undecided_items": run.open[:50],
        },
        "assumptions": spec["assumptions"],
        "wall_s": round(time.time() - run.t0, 2),
        "violations": len(run.violations),
    }
    if only is None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid}: {run.obs} obligations, {run.scenarios} scenarios, {run.ok} facts established, {run.undecided} undecided, "
          f"{run.known} known, {len(run.violations)} violations, {len(run.units)} functions or files, {ev['wall_s']} s")
    for o in run.open[: None if a.v else 5]:
        print(f"  undecided: {o['obligation']} {o['facet']}: {o['reason'][:200]}")
    if run.violations:
        seen = set()
        shown = 0
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        first = None
        for i, v in enumerate(run.violations):
            if first is None:
                first = os.path.join(rd, f"{pid}.json")
                with open(first, "w") as f:
                    json.dump(dict(v, property=pid), f, indent=1)
            k = (v["construct"], v["facet"])
            if k in seen and not a.v:
                continue
            seen.add(k)
            shown += 1
            if shown <= 12 or a.v:
                print(f"  {v['construct']}: [{v['obligation']}] {v['facet']}: {v['detail'][:500]}")
        print(f"VIOLATION property={pid} replay={first}")
        return 1
    if only is None and decided < spec["minimum"]:
        print(f"ANALYSIS BROKEN property={pid}: {decided} facts decided, fewer than {spec['minimum']}")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
