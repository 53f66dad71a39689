#!/usr/bin/env python3
"""Runs the analyser on variants of the source: behaviour-preserving ones must stay quiet, broken ones must be reported.

usage: run.py [quiet|loud] [name-pattern]
Variants are edits (file, old text, new text); they are applied to scratch copies under /tmp which are removed.
"""
import concurrent.futures, fnmatch, importlib, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
ENV = dict(os.environ, GOFLAGS="", GOPROXY="off")

def apply(d, edits):
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        n = s.count(old)
        if n == 0:
            raise Exception("text to replace not found in %s: %r" % (f, old[:60]))
        if n > 1:
            raise Exception("text to replace found %d times in %s: %r" % (n, f, old[:60]))
        s = s.replace(old, new)
        open(p, "w").write(s)

def run(kind, name, edits, props, sel="-"):
    d = tempfile.mkdtemp(prefix="variant-")
    try:
        w = os.path.join(d, "repo")
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git"))
        try:
            apply(w, edits)
        except Exception as e:
            return name, "BROKEN VARIANT " + str(e)
        files = [f for f, _, _ in edits]
        if "asn1.y" in files and "y.go" not in files:
            subprocess.run(["/opt/vp/bin/goyacc", "-o", "y.go", "-v", d + "/y.output", "asn1.y"], cwd=w, capture_output=True)
        b = subprocess.run(["go", "vet", "."], cwd=w, env=ENV, capture_output=True, text=True, errors="replace")
        b = subprocess.run(["go", "build", "./..."], cwd=w, env=ENV, capture_output=True, text=True, errors="replace")
        if b.returncode:
            return name, "DOES NOT BUILD " + b.stderr[:500]
        t = subprocess.run(["go", "test", "./..."], cwd=w, env=ENV, capture_output=True, text=True, errors="replace")
        note = ""
        if t.returncode:
            note = " (FAILS TESTS: %s)" % [l for l in t.stdout.split("\n") if "--- FAIL" in l][:3]
        try:
            v = subprocess.run([os.path.join(here, "../engine/bin/verif"), "all"] + sel.split(), cwd=d, env=dict(ENV, VERIF_REPO=w, VERIF_SKIP="" if "lex" in name.split(":")[0] else "lexer"), capture_output=True, text=True, errors="replace", timeout=900)
        except subprocess.TimeoutExpired:
            return name, "TIMEOUT"
        out = v.stdout.split("\n")
        bad = set()
        for l in out:
            p = l.split(": ")
            if len(p) == 2 and " obligations, " in l and not " 0 violated" in l:
                bad.add(p[0])
        if v.returncode and not bad or "obligations" not in v.stdout:
            bad.add("CRASH")
            out += v.stderr.split("\n")[:20]
        if kind == "quiet":
            if bad:
                return name, "ALARM %s%s\n      %s" % (sorted(bad), note, "\n      ".join(l[:2600] for l in out if l and " 0 violated" not in l)[:9000])
            return name, "ok" + note
        want = set(props.split())
        if want == {"-"}: # equivalent, or no property speaks of it: either will do
            return name, "ok, reported by %s%s" % (sorted(bad), note)
        if bad & want:
            return name, "caught by %s%s" % (sorted(bad), note)
        return name, "MISSED (wanted %s, got %s)%s" % (sorted(want), sorted(bad), note)
    finally:
        shutil.rmtree(d)

def main():
    kinds = sys.argv[1:2] or ["quiet", "loud"]
    pat = sys.argv[2] if len(sys.argv) > 2 else "*"
    jobs = []
    for m in sorted(f[:-3] for f in os.listdir(here) if f.startswith("v_") and f.endswith(".py")):
        mod = importlib.import_module(m)
        for kind in kinds:
            for v in getattr(mod, kind.upper(), []):
                name = m[2:] + ":" + v[0]
                if fnmatch.fnmatch(name, "*" + pat + "*"):
                    jobs.append((kind, name, v[1], v[2] if len(v) > 2 else "", getattr(mod, "PROPS", "-")))
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for (kind, *_), (name, res) in zip(jobs, ex.map(lambda j: run(*j), jobs)):
            ok = res.startswith("ok") or res.startswith("caught")
            bad += not ok
            print(kind, name, res, flush=True)
    print(len(jobs), "variants,", bad, "not as wanted")

if __name__ == "__main__":
    main()
