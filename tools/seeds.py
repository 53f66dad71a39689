#!/usr/bin/env python3
"""Makes and verifies the planted bugs of /verif/seeded from seeds_data.py.

    seeds.py make [pattern]    writes patch.diff, demo.sh, demo_test.go and meta.json of each bug,
                               after checking in a scratch copy of /repo that the change builds, passes
                               the stable tests, and that the demo passes without it and fails with it
    seeds.py check [pattern]   runs the property's check against each planted bug in a scratch copy
"""
import json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
REPO = "/repo"

DEMO = """#!/bin/bash
# Runs the demonstration as an in-package test of the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
echo "{\\"Replace\\": {\\"$PWD/%(pkg)szz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$scratch/overlay.json"
TMPDIR=$scratch timeout 250 go test %(flags)s-vet=off -count=1 -overlay "$scratch/overlay.json" -run '^TestDemo$' ./%(pkg)s
"""


def sh(cmd, cwd, timeout=600):
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off")
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def copy():
    d = tempfile.mkdtemp(prefix="seed")
    shutil.rmtree(d)
    shutil.copytree(REPO, d, symlinks=True)
    return d


def base_lines(path):
    """Lines of the file as it is in the original repository."""
    base = subprocess.check_output("git rev-list --max-parents=0 HEAD", shell=True, cwd=REPO, text=True).split()[-1]
    p = subprocess.run(["git", "show", base + ":" + path], cwd=REPO, stdout=subprocess.PIPE, text=True)
    return set(p.stdout.splitlines())


def stable(d):
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    code, out = sh("go generate ./... ; go test -json -vet=off -count=1 -timeout 10m ./...", d)
    ok, bad = set(), set()
    for line in out.splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get("Test") and e.get("Action") in ("pass", "fail"):
            for name in (e["Package"] + "::" + e["Test"], e["Package"] + "/" + e["Test"], e["Package"] + "." + e["Test"], e["Test"]):
                (ok if e["Action"] == "pass" else bad).add(name)
    missing = [w for w in want if w not in ok or w in bad]
    return missing


def regenerate(d):
    sh("/opt/vp/bin/goyacc -o y.go -v %s/y.output asn1.y" % tempfile.gettempdir(), d)


def make(seed):
    d = copy()
    try:
        out = os.path.join(VERIF, "seeded", seed["id"])
        touched = set()
        for path, old, new in seed["edits"]:
            p = os.path.join(d, path)
            text = open(p).read()
            if text.count(old) != 1:
                return "edit matches %d times in %s: %r" % (text.count(old), path, old[:60])
            open(p, "w").write(text.replace(old, new))
            touched.add(path)
        if "asn1.y" in touched:
            regenerate(d)
            sh("git checkout -- asn1.y", d)  # a planted bug may not change it: what is built is y.go
        code, diff = sh("git diff", d)
        if not diff.strip():
            return "no change"
        # removed lines belong to the original repository
        cur, orig, removed = None, set(), 0
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
                orig = base_lines(cur)
            elif line.startswith("-") and not line.startswith("---"):
                if line[1:] in orig:
                    removed += 1
                elif cur != "y.go":
                    print("   note: removed line is not of the original:", line[:100])
        if not removed:
            return "changes no line of the original repository"
        code, o = sh("go build ./...", d)
        if code:
            return "does not build: " + o[:600]
        missing = stable(d)
        if missing:
            return "stable tests fail: %s" % missing[:6]
        tmp = tempfile.mkdtemp(prefix="demo")
        open(tmp + "/demo_test.go", "w").write(seed["demo"])
        open(tmp + "/demo.sh", "w").write(DEMO % {"pkg": seed.get("pkg", ""), "flags": seed.get("flags", "")})
        os.chmod(tmp + "/demo.sh", 0o755)
        code, o = sh("bash %s/demo.sh" % tmp, d)
        if code == 0:
            return "demo passes with the change"
        if "FAIL" not in o or "build failed" in o:
            return "demo breaks rather than fails: " + o[-1500:]
        failure = o
        sh("git checkout -- .", d)
        code, o = sh("bash %s/demo.sh" % tmp, d)
        if code != 0:
            return "demo fails on the unchanged tree: " + o[-1500:]
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(tmp):
            shutil.copy(os.path.join(tmp, f), out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": seed["property"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        shutil.rmtree(tmp)
        m = re.search(r"zz_demo_test.go:\d+: (.*)", failure)
        return "ok   (%s)" % (m.group(1)[:150] if m else failure[-200:].strip())
    finally:
        shutil.rmtree(d)


def check(name):
    d = copy()
    try:
        folder = os.path.join(VERIF, "seeded", name)
        code, o = sh("git apply %s/patch.diff" % folder, d)
        if code:
            return "patch does not apply: " + o
        prop = json.load(open(folder + "/meta.json"))["property"]
        code, o = sh("VERIF_REPO=%s %s/engine/bin/verif all %s" % (d, VERIF, prop), VERIF, 900)
        lines = [l for l in o.splitlines() if l.startswith(prop + ": ") or not l.startswith("C")]
        m = re.search(r"^%s: \d+ obligations, (\d+) violated" % prop, o, re.M)
        caught = m and int(m.group(1)) > 0
        return ("CAUGHT " if caught else "missed ") + prop + " " + (" | ".join(lines)[:300])
    finally:
        shutil.rmtree(d)


def main():
    what = sys.argv[1]
    pattern = sys.argv[2] if len(sys.argv) > 2 else ""
    if what == "make":
        import seeds_data
        for seed in seeds_data.SEEDS:
            if re.search(pattern, seed["id"]):
                print(seed["id"], "->", make(seed), flush=True)
    else:
        for name in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
            if re.search(pattern, name):
                print(name, "->", check(name), flush=True)


main()
