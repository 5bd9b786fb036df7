"""Building the analyser, running it on /repo's current source, and the decision procedures on the
event graphs it extracts (see DESIGN.md)."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time
from collections import deque

START = time.time()

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
OUT = os.path.join(BUILD, "out")


class Broken(Exception):
    """The analysed tree or the machinery is in a state in which nothing can be decided."""


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def env(extra=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.update(extra or {})
    return e


def sh(cmd, cwd, e, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def build_driver():
    d = os.path.join(VERIF, "driver")
    td = os.path.join(BUILD, "driver")
    rc, out = sh(["cargo", "+nightly", "build", "--offline", "--locked"], d, env({"CARGO_TARGET_DIR": td}))
    if rc != 0:
        raise Broken("driver does not build:\n" + out[-3000:])
    return os.path.join(td, "debug", "tt-driver")


def forget(td, names):
    """make cargo recompile these crates whatever the timestamps say"""
    for n in names:
        for f in glob.glob(os.path.join(td, "*", ".fingerprint", n + "-*")) + glob.glob(os.path.join(td, "*", "build", n, "*", "fingerprint")):
            shutil.rmtree(f, ignore_errors=True)


REPO_CRATES = ["typetag", "typetag-impl", "verif_harness"]


class CompileFailure(Broken):
    pass


def analyse(roots, max_nodes=300000, features=None, symbols=""):
    """event graphs of the given roots, extracted from the current /repo"""
    drv = build_driver()
    os.makedirs(OUT, exist_ok=True)
    td = os.path.join(BUILD, "harness")
    forget(td, REPO_CRATES)
    out = os.path.join(OUT, "graphs-%d.json" % os.getpid())
    if os.path.exists(out):
        os.unlink(out)
    e = env({
        "CARGO_TARGET_DIR": td,
        "RUSTC_WORKSPACE_WRAPPER": drv,
        "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints allow",
        "VERIF_ROOTS": ",".join(roots),
        "VERIF_OUT": out,
        "VERIF_MAX_NODES": str(max_nodes),
        "VERIF_SYM": symbols,
        "VERIF_SECONDS": str(max(10, int(480 - (time.time() - START)))),
    })
    rc, log = sh(["cargo", "+nightly", "check", "--offline"] + (["--features", features] if features else []), os.path.join(VERIF, "harness"), e)
    if rc != 0 or not os.path.exists(out):
        raise CompileFailure("the model environment does not compile against /repo:\n" + log[-6000:])
    with open(out) as f:
        d = json.load(f)
    os.unlink(out)
    d["by_root"] = {g["root"].replace("root_", "", 1): Graph(g, d["sites"]) for g in d["graphs"]}
    return d


def safety(features="macros"):
    """what is unsafe in typetag, in its macros, and in the expansions in the harness: {crate: (examined, [finding])}"""
    drv = build_driver()
    td = os.path.join(BUILD, "safety")
    out = os.path.join(OUT, "safety-%d" % os.getpid())
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    forget(td, REPO_CRATES)
    e = env({"CARGO_TARGET_DIR": td, "RUSTC_WRAPPER": drv, "RUSTFLAGS": "--cap-lints allow", "VERIF_SAFETY": out})
    rc, log = sh(["cargo", "+nightly", "check", "--offline", "--features", features], os.path.join(VERIF, "harness"), e)
    if rc != 0:
        raise CompileFailure("typetag or the programs using it do not compile:\n" + log[-6000:])
    r = {}
    for k in ("typetag", "typetag_impl", "verif_harness"):
        try:
            lines = open(os.path.join(out, k)).read().splitlines()
        except FileNotFoundError:
            raise Broken("no report on crate " + k)
        r[k] = (lines[0], [l.split("\t") for l in lines[1:]])
    shutil.rmtree(out)
    return r


class Graph:
    def __init__(self, g, sites):
        self.root = g["root"]
        self.n = g["nodes"]
        self.steps = g["steps"]
        self.calls = g["calls"]
        self.error = g["error"]
        self.funs = g["funs"]
        self.obs = g["obs"]
        self.labels = g["labels"]
        self.sites = sites
        self.edges = g["edges"]
        self.succ = [[] for _ in range(self.n)]
        for f, t, l, s in self.edges:
            self.succ[f].append((self.labels[l], t, s))

    def relabel(self, fn):
        """fn: label -> label, "" to hide, None to cut the path"""
        g = Graph.__new__(Graph)
        g.__dict__.update(self.__dict__)
        cache = {}
        g.succ = []
        for out in self.succ:
            o = []
            for l, t, s in out:
                if l == "":
                    o.append((l, t, s))
                    continue
                if l not in cache:
                    cache[l] = UNKNOWN if l.startswith("UNMODELLED") else fn(l)
                if cache[l] is not None:
                    o.append((cache[l], t, s))
            g.succ.append(o)
        return g

    def closure(self, nodes):
        seen = set(nodes)
        q = list(nodes)
        while q:
            n = q.pop()
            for l, t, _ in self.succ[n]:
                if l == "" and t not in seen:
                    seen.add(t)
                    q.append(t)
        return frozenset(seen)

    def visible(self):
        return sum(1 for o in self.succ for l, _, _ in o if l)


UNKNOWN = "?"


def inclusion(a, b, limit=4000000, excuse=None):
    """Is every event sequence of `a` one of `b`? Returns (None, stats) or (counterexample, stats).
    `b` is determinised on the fly. Where the analysis of either side stopped (an edge labelled UNKNOWN)
    nothing is concluded about what follows."""
    ids = {}
    trans = []
    open_ended = []

    def intern(fs):
        if fs not in ids:
            ids[fs] = len(trans)
            t = {}
            unknown = False
            for n in fs:
                for l, d, _ in b.succ[n]:
                    if l == UNKNOWN:
                        unknown = True
                    elif l:
                        t.setdefault(l, set()).add(d)
            trans.append(t)
            open_ended.append(unknown)
        return ids[fs]

    memo = {}

    def step(si, l):
        k = (si, l)
        if k not in memo:
            t = trans[si].get(l)
            memo[k] = None if t is None else intern(b.closure(t))
        return memo[k]

    start = (0, intern(b.closure([0])))
    parent = {start: None}
    excused = 0
    q = deque([start])
    while q:
        p = q.popleft()
        n, si = p
        if open_ended[si]:
            continue
        for l, t, s in a.succ[n]:
            if l == UNKNOWN:
                continue
            if l == "":
                nx = (t, si)
            else:
                d = step(si, l)
                if d is None and excuse and excuse(l, trans[si]):
                    excused += 1
                    continue
                if d is None:
                    return trace(parent, p, a, (l, s), sorted(trans[si])), {"pairs": len(parent), "spec_sets": len(trans)}
                nx = (t, d)
            if nx not in parent:
                parent[nx] = (p, l, s)
                q.append(nx)
        if len(parent) > limit or time.time() - START > 780:
            return None, {"pairs": len(parent), "spec_sets": len(trans), "cut": True}
    return None, {"pairs": len(parent), "spec_sets": len(trans), "excused": excused}


def trace(parent, p, g, last, allowed):
    path = []
    while parent[p] is not None:
        q, l, s = parent[p]
        if l:
            path.append((l, g.sites[s]))
        p = q
    path.reverse()
    path.append((last[0], g.sites[last[1]]))
    return {"events": path, "event": last[0], "site": g.sites[last[1]], "allowed": allowed}


def path_to(g, want):
    """shortest event path to an edge whose label satisfies `want`"""
    parent = {0: None}
    q = deque([0])
    while q:
        n = q.popleft()
        for l, t, s in g.succ[n]:
            if l and want(l):
                path = [(l, g.sites[s])]
                c = n
                while parent[c] is not None:
                    c, ll, ss = parent[c]
                    if ll:
                        path.append((ll, g.sites[ss]))
                path.reverse()
                return {"events": path, "event": l, "site": g.sites[s]}
            if t not in parent:
                parent[t] = (n, l, s)
                q.append(t)
    return None


def show_path(cx, n=14):
    ev = cx["events"]
    out = []
    if len(ev) > n:
        out.append("  ... %d earlier events" % (len(ev) - n))
        ev = ev[-n:]
    for l, s in ev:
        out.append("  %-50s %s" % (l, s.replace(REPO + "/", "")[:110]))
    return "\n".join(out)


BAD = re.compile(r"^(UNMODELLED|PANIC|PROTOCOL)")
