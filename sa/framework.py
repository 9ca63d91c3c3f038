"""Runner: evidence, known findings, exit codes."""

import importlib
import json
import os
import sys
import time
import traceback
from collections import Counter, OrderedDict

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = OrderedDict()  # key -> message
        self.counts = Counter()
        self.samples = []
        self.rules = OrderedDict()
        self.assumptions = []
        self.notes = []
        self.floors = []
        self.open_items = []
        self.thorough = tier == "thorough"

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, n=1):
        self.counts[rule] += n

    def sample(self, s, cap=40):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, rule, construct, msg):
        """key is rule + construct: stable under line-number changes"""
        key = f"{rule}|{construct}"
        if key not in self.violations:
            self.violations[key] = msg

    def require(self, cond, msg):
        """The analysis must have found its anchor; otherwise it gives no answer."""
        if not cond:
            from .absint import AnalysisError

            raise AnalysisError(msg)

    def undecided(self, label, why):
        """a sub-instance the analysis could not decide: reported, never counted as holding"""
        self.open_items.append(f"{label}: {why}"[:400])

    def attempt(self, label, fn, *a, **k):
        """Decide one part independently of the others: a part the analysis cannot follow is
        recorded as undecided and does not take the other parts' answers with it."""
        try:
            return fn(*a, **k)
        except Exception as e:  # noqa: BLE001  (AnalysisError, Und, parser errors, ...)
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided(label, f"{type(e).__name__}: {e} [{os.path.basename(tb.filename)}:{tb.lineno}]")
            return None

    def floor(self, rule, n):
        """Minimum number of instances of a rule for the run to mean anything."""
        self.floors.append((rule, n))


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.setrecursionlimit(6000)
    ctx = Ctx(prop, tier, seed)
    from .absint import AnalysisError, Program

    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
        mod.run(ctx)
        if not ctx.violations:
            for rule, n in ctx.floors:
                if ctx.counts[rule] < n:
                    ctx.undecided(rule, f"only {ctx.counts[rule]} instances of this rule found, expected at least {n}")
    except AnalysisError as e:
        ctx.undecided("analysis stopped early", str(e))
    except Exception as e:  # noqa: BLE001
        traceback.print_exc()
        ctx.undecided("analysis stopped early", f"internal error {type(e).__name__}: {e}")
    if not ctx.violations and not sum(ctx.counts.values()):
        # nothing at all was decided: no answer
        print(f"ANALYSIS-BROKEN property={prop}: {ctx.open_items[:3]}")
        _evidence(ctx, t0, error="; ".join(ctx.open_items)[-2000:] or "no instances")
        return 2
    for o in ctx.open_items[:20]:
        print(f"UNDECIDED property={prop} {o}")
    known = {k["key"]: k for k in load_known() if k["property"] == prop and k.get("status") != "fixed"}
    new = OrderedDict()
    for k, m in ctx.violations.items():
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
        else:
            new[k] = m
    rp = os.path.join(ROOT, "evidence", f"{prop}.violations.txt")
    os.makedirs(os.path.dirname(rp), exist_ok=True)
    if new:
        with open(rp, "w") as f:
            for k, m in new.items():
                f.write(f"{k}\n    {m}\n")
    elif os.path.exists(rp):
        os.remove(rp)
    _evidence(ctx, t0, new=len(new), known=len(ctx.violations) - len(new))
    if new:
        for k, m in list(new.items())[:25]:
            print(f"  {k}\n      {m}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"OK property={prop} " + " ".join(f"{k}={v}" for k, v in ctx.counts.items()) + f" ({time.time()-t0:.1f}s)")
    return 0


def _evidence(ctx, t0, new=0, known=0, error=None):
    ev = dict(
        property=ctx.prop,
        tier=ctx.tier,
        seed=ctx.seed,
        level="other",
        coverage=dict(
            explanation="Static analysis of /repo's current source (no execution): every instance of each rule found in the source was decided. Counts are instances decided on this run, per rule.",
            rules={k: v for k, v in ctx.rules.items()},
            instances={k: v for k, v in ctx.counts.items()},
            obligations=sum(ctx.counts.values()),
            discharged=sum(ctx.counts.values()) - len(ctx.violations) if sum(ctx.counts.values()) >= len(ctx.violations) else 0,
            samples=ctx.samples or ["(none)"],
            notes=ctx.notes,
            undecided=ctx.open_items,
        ),
        assumptions=ctx.assumptions
        or [
            "the abstract interpreter's transfer functions model Python/C semantics for the constructs used",
            "values of opaque holes (symbolic-algebra output) are well-formed expressions or statement blocks",
        ],
        wall_s=round(time.time() - t0, 2),
        violations=new,
    )
    if known:
        ev["coverage"]["known_findings"] = known
    if error:
        ev["coverage"]["analysis_error"] = error[-2000:]
    p = os.path.join(ROOT, "evidence", f"{ctx.prop}.json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        json.dump(ev, f, indent=1, default=str)
