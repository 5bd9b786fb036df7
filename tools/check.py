#!/usr/bin/env python3
"""check.py <property id> -- decides one property on the current tree of /repo (see DESIGN.md)."""
import fcntl
import importlib
import json
import os
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *  # noqa


class Report:
    """an observer's objection after which it goes on watching"""

    def __init__(self, what, then):
        self.what, self.then = what, then


def literals(roots, features):
    """The literals of the model programs that stand for any string: when writing, all of them; when reading,
    those that are not looked up among the registered names. Where fields are named like the tag and almost like
    it, or what was written is read, the names are the given ones."""
    if features:
        return [(roots, "")]
    groups = {}
    for r in roots:
        s = "A" if r.endswith("collide_any") else "" if r.endswith("collide") or re.match(r"(spec_)?(late|loop|early)", r) else "A,Tr,type,data" if re.match(r"(spec_)?m?ser", r) else "Tr,type,data"
        groups.setdefault(s, []).append(r)
    return [(p, s) for s, p in groups.items()]


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.violations = []  # (key, text)
        self.cov = {"graphs": {}, "rules": [], "obligations": 0, "discharged": 0, "samples": []}
        self.functions = set()
        self.assumptions = []

    # -- inputs
    def graphs(self, roots, features=None):
        want = sorted(set(roots))
        n = 300000 if self.tier == "quick" else 2000000
        try:
            d = {"by_root": {}}
            for part, symbols in literals(want, features):
                x = analyse(part, n, features, symbols)
                self.statics = x["statics"]
                d["by_root"].update(x["by_root"])
        except CompileFailure as e:
            if features is None:
                raise
            # without the programs of that feature everything compiles: one of them is refused
            analyse(["none"], n)
            self.violation(features + ":refused", "a program that has to be accepted is refused\n" + str(e)[-6000:])
            return None
        for r, g in d["by_root"].items():
            self.cov["graphs"][r] = {"states": g.n, "transitions": len(g.edges), "mir_calls": g.calls, "events": g.visible()}
            for f in g.funs:
                if "verif_harness" not in f:
                    self.functions.add(f)
            if g.error:
                self.leave_open(r, "the analysis does not reach a fixpoint: " + g.error)
            for l in g.labels:
                if l.startswith("UNMODELLED"):
                    self.leave_open(r, l)
        for r in want:
            if not any(x == r or (r.endswith("*") and x.startswith(r[:-1])) for x in d["by_root"]):
                raise Broken("no analysis root " + r)
        return d["by_root"]

    # -- outcomes
    def violation(self, key, text):
        if not any(k == key for k, _ in self.violations):
            self.violations.append((key, text))

    def leave_open(self, root, why):
        self.cov.setdefault("undecided", [])
        if (root, why) not in self.cov["undecided"]:
            self.cov["undecided"].append((root, why))
            print("UNDECIDED: property=%s %s: %s" % (self.pid, root, why))

    def rule(self, text):
        self.cov["rules"].append(text)

    def obligation(self, ok):
        self.cov["obligations"] += 1
        if ok:
            self.cov["discharged"] += 1

    # -- decision procedures
    def equal(self, impl, spec, name, canon=lambda l: l, both=True, excuse=None):
        """every event sequence of the code is one of the reference's, and the reverse"""
        a, b = impl.relabel(canon), spec.relabel(canon)
        if spec.error or any(BAD.match(l) for l in spec.labels):
            raise Broken("reference %s: %s" % (spec.root, spec.error or [l for l in spec.labels if BAD.match(l)]))
        cx, st = inclusion(a, b)
        if st.get("cut"):
            self.leave_open(impl.root, "the comparison with the reference was not completed")
        self.cov["graphs"].setdefault(name, {})["inclusion_pairs"] = st["pairs"]
        self.obligation(cx is None)
        if cx is not None:
            self.violation(
                "%s:%s" % (name, cx["event"]),
                "%s does something the property does not allow\n  at %s\n  event: %s\n  allowed here: %s\n  after:\n%s"
                % (name, cx["site"], cx["event"], "; ".join(cx["allowed"][:12]), show_path(cx)),
            )
            return False
        if both and not impl.error:
            cx, st = inclusion(b, a, excuse=excuse)
            if st.get("cut"):
                self.leave_open(impl.root, "the comparison with the reference was not completed")
            self.obligation(cx is None)
            if cx is not None:
                self.violation(
                    "%s:missing:%s" % (name, cx["event"]),
                    "%s cannot do what the property requires\n  required event: %s\n  the code instead: %s\n  after:\n%s"
                    % (name, cx["event"], "; ".join(cx["allowed"][:12]) or "nothing (diverges or stops)", show_path(cx)),
                )
                return False
        if len(self.cov["samples"]) < 3:
            p = path_to(a, lambda l: l.startswith("return"))
            if p:
                self.cov["samples"].append({"graph": name, "events": [l for l, _ in p["events"]]})
        return True

    def observe(self, g, name, init, step, what):
        """product with a typestate observer; every reachable violating step is reported"""
        parent = {(0, init): None}
        q = deque([(0, init)])
        bad = {}
        while q:
            n, o = q.popleft()
            for l, t, s in g.succ[n]:
                if l == "":
                    o2 = o
                elif l.startswith("UNMODELLED"):
                    continue
                else:
                    o2 = step(o, l)
                    if isinstance(o2, Report):
                        if o2.what not in bad:
                            bad[o2.what] = ((n, o), l, s)
                        o2 = o2.then
                    if isinstance(o2, str):
                        if o2 not in bad:
                            bad[o2] = ((n, o), l, s)
                        continue
                    if o2 is None:
                        continue
                k = (t, o2)
                if k not in parent:
                    if len(parent) > 3000000:
                        self.leave_open(g.root, "the product with the observer was not completed")
                        q.clear()
                        break
                    parent[k] = ((n, o), l, s)
                    q.append(k)
        self.cov["graphs"].setdefault(name, {})["observer_pairs"] = len(parent)
        self.obligation(not bad)
        for msg, (p, l, s) in bad.items():
            cx = trace(parent, p, g, (l, s), [])
            self.violation("%s:%s" % (name, msg), "%s: %s\n  at %s\n  after:\n%s" % (what, msg, cx["site"], show_path(cx)))
        return not bad


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    # the checks share their build directories
    os.makedirs(BUILD, exist_ok=True)
    alone = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(alone, fcntl.LOCK_EX)
    ctx = Ctx(pid, tier)
    import props
    props.Report = Report
    fn, technique = props.CHECKS[pid]
    try:
        fn(ctx)
    except (Broken, subprocess.TimeoutExpired) as e:
        print("ERROR: nothing decided for %s: %s" % (pid, e))
        sys.exit(2)
    known = {}
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        for k in json.load(open(kf))["findings"]:
            if k["property"] == pid and k["status"] == "known":
                known[k["key"]] = k
    new = []
    seen_known = []
    for key, text in ctx.violations:
        if key in known:
            seen_known.append(key)
            print("KNOWN-FINDING: property=%s %s" % (pid, known[key]["what"]))
        else:
            new.append((key, text))
    ctx.cov["functions_analysed"] = len(ctx.functions)
    repo_funs = sorted(f for f in ctx.functions if "typetag" in f)
    ctx.cov["functions_of_typetag"] = len(repo_funs)
    ctx.cov["functions_sample"] = repo_funs[:40]
    ctx.cov["explanation"] = technique
    ctx.cov["known_findings_seen"] = seen_known
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": ctx.cov,
        "assumptions": ctx.assumptions + props.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        os.makedirs(OUT, exist_ok=True)
        rp = os.path.join(OUT, "%s.txt" % pid)
        with open(rp, "w") as f:
            for key, text in new:
                f.write("[%s]\n%s\n\n" % (key, text))
        for key, text in new[:5]:
            print("[%s] %s\n" % (key, text[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    print("OK property=%s obligations=%d functions=%d (%.1fs)" % (pid, ctx.cov["obligations"], len(ctx.functions), time.time() - t0))


if __name__ == "__main__":
    main()
