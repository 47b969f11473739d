"""Shared plumbing of the checks: findings, known findings, evidence, exit status."""
from __future__ import annotations
import importlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.json")


class AnalysisError(Exception):
    """The analysis cannot give an answer (anchor vanished, source unparsable)."""


class Finding:
    def __init__(self, rule, where, what, loc="", path=None):
        """rule: rule id; where: qualified construct; what: stable description of the offending fact"""
        self.rule, self.where, self.what, self.loc, self.path = rule, where, what, loc, path or []

    @property
    def key(self):
        return f"{self.rule} | {self.where} | {self.what}"

    def as_dict(self):
        return {"rule": self.rule, "construct": self.where, "what": self.what, "location": self.loc, "path": self.path, "key": self.key}


class Result:
    def __init__(self):
        self.findings = []
        self.obligations = 0
        self.samples = []
        self.info = {}
        self.rules = []
        self.assumptions = []
        self.functions = set()

    def ob(self, n=1):
        self.obligations += n

    def add(self, *a, **k):
        self.findings.append(Finding(*a, **k))

    def sample(self, x, limit=12):
        if len(self.samples) < limit:
            self.samples.append(x)


def load_known():
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return d["findings"]


def require(prog, *quals):
    """anchors: the public constructs the property is stated over must still be found"""
    for q in quals:
        if prog.find(q) is None:
            raise AnalysisError(f"anchor {q} not found in the current source")


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from .program import Program
    mod = importlib.import_module(f"sa.props.{pid.lower()}")
    evdir = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evp = os.path.join(evdir, f"{pid}.json")
    vp = os.path.join(evdir, f"{pid}.violations.json")
    for p in (evp, vp):
        if os.path.exists(p):
            os.unlink(p)
    prog = Program(REPO)
    if prog.errors:
        for rel, e in prog.errors:
            print(f"ERROR cannot parse {rel}: {e}")
        return 2
    try:
        res = mod.run(prog, tier)
    except AnalysisError as e:
        print(f"ERROR property={pid} {e}")
        return 2
    except Exception as e:  # a defect of the check is not a verdict on the code
        import traceback
        traceback.print_exc()
        print(f"ERROR property={pid} the analysis failed: {type(e).__name__} {e}")
        return 2
    known = {k["key"]: k for k in load_known() if k["property"] == pid}
    seen, viol, kn = set(), [], []
    for f in res.findings:
        if f.key in seen:
            continue
        seen.add(f.key)
        (kn if f.key in known else viol).append(f)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": mod.EXPLANATION,
            "files_parsed": prog.nfiles,
            "functions_analysed": len(res.functions) if res.functions else res.info.get("functions", 0),
            "obligations": res.obligations,
            "discharged": res.obligations - len(viol) - len(kn),
            "rules": res.rules or getattr(mod, "RULES", []),
            "samples": res.samples,
            "known_findings_seen": [f.key for f in kn],
            "known_findings_not_seen": sorted(set(known) - seen),
            **res.info,
        },
        "assumptions": res.assumptions or getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1)
    for f in kn:
        print(f"KNOWN-FINDING: property={pid} {known[f.key]['what']} [{f.key}]")
    if res.obligations == 0:
        print(f"ERROR property={pid} no obligation was generated")
        return 2
    if viol:
        with open(vp, "w") as f:
            json.dump([x.as_dict() for x in viol], f, indent=1)
        for x in viol[:20]:
            print(f"  {x.loc}: {x.key}")
            for p in x.path[:12]:
                print(f"      {p}")
        print(f"VIOLATION property={pid} replay={vp}")
        return 1
    print(f"OK property={pid} tier={tier} obligations={res.obligations} known={len(kn)} wall={time.time()-t0:.1f}s")
    return 0


def selfcheck():
    """setup: the parser is available and the whole package parses"""
    from .program import Program
    p = Program(REPO)
    for rel, e in p.errors:
        print("cannot parse", rel, e)
    print(f"parsed {p.nfiles} files, {sum(1 for _ in p.functions())} functions")
    return 1 if p.errors else 0
