"""Witness programs: the compiler decides, for programs that use the macros, whether they are accepted.
Nothing is executed and nothing is generated: rustc stops after analysis."""
import concurrent.futures
import json
import os
import subprocess
from vlib import *  # noqa


def externs():
    """typetag as it is in /repo now, and serde, compiled once"""
    td = os.path.join(BUILD, "witness")
    forget(td, ["typetag", "typetag-impl", "verif_witness"])
    src = os.path.join(VERIF, "witness")
    p = subprocess.run(["cargo", "+nightly", "check", "--offline", "--locked", "--message-format=json"], cwd=src, text=True,
                       env=env({"CARGO_TARGET_DIR": td}), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    ex = {}
    dirs = set()
    errors = []
    for l in p.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact":
            dirs.update(os.path.dirname(f) for f in m["filenames"])
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] in ("typetag", "serde"):
            ex[m["target"]["name"]] = [f for f in m["filenames"] if f.endswith(".rmeta")][0]
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            errors.append(m["message"]["rendered"])
    if p.returncode != 0 or set(ex) != {"typetag", "serde"}:
        raise CompileFailure("typetag does not compile:\n" + "\n".join(errors)[-4000:] + p.stderr[-2000:])
    return ex, sorted(dirs)


def compile_one(job):
    name, text, edition, flags, ex, deps, libs = job
    d = os.path.join(OUT, "w-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, name + ".rs")
    with open(f, "w") as o:
        o.write(text)
    cmd = ["rustc", "+nightly", "--crate-type", "lib", "--crate-name", "w_" + name.replace("-", "_"), "--edition", edition,
           "--emit", "metadata=" + f + "meta", "--error-format=json"] + [a for d in deps for a in ("-L", "dependency=" + d)] + [
           "--extern", "typetag=" + ex["typetag"], "--extern", "serde=" + ex["serde"]] + [a for ln, unique in libs for a in ("--extern", "%s=%s" % (ln, os.path.join(d, "lib" + unique + ".rmeta")))] + flags + [f]
    p = subprocess.run(cmd, cwd=d, env=env(), text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    errs = []
    for l in p.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            errs.append({"code": None, "lines": [], "text": l, "rendered": l})
            continue
        if m.get("level") != "error" or not (m.get("spans") or m.get("code")):
            continue
        errs.append({
            "code": (m.get("code") or {}).get("code"),
            "lines": sorted({n for s in m["spans"] if s["is_primary"] and s["file_name"] == f for n in range(s["line_start"], s["line_end"] + 1)}),
            "text": m["message"],
            "rendered": m.get("rendered") or m["message"],
        })
    for x in (f, f + "meta"):
        if os.path.exists(x):
            os.unlink(x)
    return name, p.returncode, errs


def compile_all(progs):
    """progs: {name: (text, edition, flags, other crates)} -> {name: (rc, errors)}"""
    ex, deps = externs()
    # the other crates, each text once
    made = {}
    for n, (t, e, fl, libs) in progs.items():
        for ln, text in libs.items():
            made.setdefault((ln, text), "%s_%d" % (ln, len(made)))
    d = os.path.join(OUT, "w-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    failed = {}

    def make(item):
        (ln, text), unique = item
        f = os.path.join(d, unique + ".rs")
        with open(f, "w") as o:
            o.write(text)
        p = subprocess.run(["rustc", "+nightly", "--crate-type", "lib", "--crate-name", ln, "-C", "metadata=" + unique, "-C", "extra-filename=-" + unique, "--edition", "2021", "--cap-lints", "allow",
                            "--emit", "metadata=" + os.path.join(d, "lib" + unique + ".rmeta")] + [a for x in deps for a in ("-L", "dependency=" + x)] + [
                            "--extern", "typetag=" + ex["typetag"], "--extern", "serde=" + ex["serde"], f], env=env(), text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        if p.returncode != 0:
            failed[unique] = p.stderr
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        list(pool.map(make, made.items()))
    jobs = [(n, t, e, fl, ex, deps, [(ln, made[ln, text]) for ln, text in libs.items()]) for n, (t, e, fl, libs) in progs.items() if not any(made[x] in failed for x in libs.items())]
    broken = {n: (1, [{"code": None, "lines": [], "text": "", "rendered": failed[made[x]]} for x in libs.items() if made[x] in failed]) for n, (t, e, fl, libs) in progs.items() if any(made[x] in failed for x in libs.items())}
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        r = {n: (rc, errs) for n, rc, errs in pool.map(compile_one, jobs)}
    shutil.rmtree(d, ignore_errors=True)
    r.update(broken)
    return r


class Witness:
    """`good` has to be accepted; each of `bad` has to be refused, with an error at the line marked `//~`
    (`//~macro`: one issued by the macro itself, `//~error` and `//~lint`: any)."""

    def __init__(self, name, good=None, bad=(), edition="2021", flags=(), libs=None, strict=False, bare=False):
        """libs: other crates, by name; strict: no warning in the accepted program; bare: without the prelude"""
        self.name, self.good, self.edition, self.flags, self.libs, self.bare = name, good, edition, list(flags), libs or {}, bare or strict
        self.strict = strict
        self.bad = [bad] if isinstance(bad, str) else list(bad)


def decide(c, ws, prelude=""):
    progs = {}
    for w in ws:
        p = "" if w.bare else prelude
        if w.good is not None:
            progs[w.name] = (("#![deny(warnings)]\n#![allow(dead_code)]\n" if w.strict else p) + w.good, w.edition, w.flags, w.libs)
        for i, b in enumerate(w.bad):
            progs["%s-%d" % (w.name, i + 1)] = (p + b, w.edition, w.flags, w.libs)
    try:
        res = compile_all(progs)
    except CompileFailure as e:
        raise Broken(str(e))
    c.cov["programs"] = len(progs)
    c.cov.setdefault("witnesses", {})
    for w in ws:
        if w.good is not None:
            rc, errs = res[w.name]
            c.obligation(rc == 0)
            c.cov["witnesses"][w.name] = "accepted" if rc == 0 else "refused"
            if rc != 0:
                text = progs[w.name][0]
                c.violation("%s:refused" % w.name, "a program that has to be accepted is refused\n%s\n  program:\n%s" % (
                    "\n".join(e["rendered"] for e in errs[:3]), numbered(text)))
                continue
        for i, b in enumerate(w.bad):
            n = "%s-%d" % (w.name, i + 1)
            rc, errs = res[n]
            lines = progs[n][0].split("\n")
            marks = {k + 1: l.split("//~")[1].strip() for k, l in enumerate(lines) if "//~" in l}
            assert marks, n

            def hit(e):
                return any(k in marks and (marks[k] in ("error", "lint") or e["code"] is None) for k in e["lines"])
            ok = rc != 0 and any(hit(e) for e in errs)
            c.obligation(ok)
            c.cov["witnesses"][n] = "refused at the marked line" if ok else "accepted" if rc == 0 else "refused elsewhere"
            if not ok:
                c.violation("%s:%s" % (n, "accepted" if rc == 0 else "refused elsewhere"),
                            "a program that has to be refused %s\n%s\n  program:\n%s" % (
                                "is accepted" if rc == 0 else "is refused only by other errors than one at the marked line",
                                "\n".join(e["rendered"] for e in errs[:2]), numbered(progs[n][0])))


def numbered(t):
    return "\n".join("  %3d %s" % (i + 1, l) for i, l in enumerate(t.strip("\n").split("\n")))
