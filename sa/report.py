"""Obligations, verdicts, evidence and known findings.

A rule states obligations.  Each is decided `ok`, `violation` or `undecided` (the construct is outside of
what the analysis resolves; it is listed in the evidence and raises no alarm).  A vanished public anchor, or a
rule set in which nothing could be decided, is an error of the check (exit 2), not a pass."""
import json
import os
import sys
import time
import traceback

from .front import AnchorMissing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Ctx:
    def __init__(self, pid, tier, repo):
        self.pid, self.tier, self.repo = pid, tier, repo
        self.oks, self.undec, self.viol = [], [], []
        self.rules = {}
        self.functions = set()
        self.notes = []
        self.counts = {}
        self.missing = []

    # ------------------------------------------------------------------ verdicts
    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rule, construct, detail=""):
        self.oks.append((rule, construct, str(detail)[:300]))

    def undecided(self, rule, construct, why=""):
        self.undec.append((rule, construct, str(why)[:300]))

    def violation(self, rule, construct, msg, file=None, line=None):
        self.viol.append((rule, construct, str(msg), file, line))

    def decide(self, rule, construct, verdict, msg="", file=None, line=None):
        """verdict: True / False / None"""
        if verdict is True:
            self.ok(rule, construct, msg)
        elif verdict is False:
            self.violation(rule, construct, msg, file, line)
        else:
            self.undecided(rule, construct, msg)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def used(self, I):
        self.functions |= set(I.analysed)

    def part(self, name, f, *args):
        """run one group of obligations; a failure of the analysis itself leaves them undecided"""
        try:
            f(*args)
        except AnchorMissing as e:
            self.missing.append("%s: %s" % (name, e))
        except RecursionError:
            self.undecided("analysis", name, "recursion limit")
        except Exception as e:
            self.undecided("analysis", name, "%s: %s @ %s" % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3].strip()))
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()


def known():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: "):
                parts = dict(x.split("=", 1) for x in l[len("finding: "):].split(" ", 2)[:2])
                out.setdefault(parts["property"], []).append((parts["key"], l.split(" ", 3)[3]))
    return out


def finish(ctx, t0):
    kf = dict(known().get(ctx.pid, []))
    fresh, old = [], []
    seen = set()
    for v in ctx.viol:
        k = "%s|%s" % (v[0], v[1])
        k = k.replace(" ", "_")
        if (k, v[2]) in seen:
            continue
        seen.add((k, v[2]))
        (old if k in kf else fresh).append((k, v))
    ev = {
        "property": ctx.pid, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source of /repo: every obligation below is decided from the syntax "
                           "trees by the named rule; nothing is executed.",
            "rules": ctx.rules,
            "obligations": len(ctx.oks) + len(ctx.undec) + len(ctx.viol),
            "discharged": len(ctx.oks),
            "undecided": [list(x) for x in ctx.undec],
            "counts": ctx.counts,
            "functions_analysed": sorted(ctx.functions),
            "discharged_obligations": [list(x) for x in ctx.oks][:400],
            "tree": ctx.repo.tree_hash(),
        },
        "assumptions": ctx.notes,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    ed = os.environ.get("SA_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(ed, exist_ok=True)
    json.dump(ev, open(os.path.join(ed, ctx.pid + ".json"), "w"), indent=1)
    print("%s [%s]: %d obligations, %d discharged, %d undecided, %d violated; %d functions analysed" % (
        ctx.pid, ctx.tier, ev["coverage"]["obligations"], len(ctx.oks), len(ctx.undec), len(ctx.viol), len(ctx.functions)))
    for r, c, w in ctx.undec:
        print("  undecided: %s: %s (%s)" % (r, c, w))
    for k, v in old:
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, kf[k]))
    if fresh:
        rp = os.path.join(ed, ctx.pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, (rule, con, msg, file, line) in fresh:
                t = "%s:%s: rule %s (%s): %s: %s" % (file or "?", line or "?", rule, ctx.rules.get(rule, ""), con, msg)
                f.write(t + "\n")
                print("  " + t)
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        return 1
    if ctx.missing:
        for m in ctx.missing:
            print("ANCHOR MISSING " + m)
        return 2
    if not ctx.oks:
        print("nothing decided: the analysis is broken")
        return 2
    return 0
