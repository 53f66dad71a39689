#!/usr/bin/env python3
"""Runs the analyser on small syntactic changes (mutants) of /repo that build and pass the tests.

usage: run.py OUT.jsonl [lexer] FILE...   (files relative to /repo; without `lexer` the lexer group is left out)
"""
import collections, json, os, queue, random, shutil, subprocess, sys, tempfile, threading
here = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, GOFLAGS="", GOPROXY="off", GO111MODULE="on")
out, files = sys.argv[1], sys.argv[2:]
lexer = "lexer" in files
files = [f for f in files if f != "lexer"]
part = os.environ.get("PART")  # i/n
binary = tempfile.mkdtemp(prefix="mutbin-")
subprocess.run(["go", "build", "-o", binary + "/mutate", "main.go"], cwd=here, check=True, env=dict(ENV, GO111MODULE="off"))
shutil.copy(here + "/../../engine/bin/verif", binary + "/verif")
ms = [json.loads(l) for l in subprocess.run([binary + "/mutate", "/repo"] + files, capture_output=True, text=True, check=True).stdout.splitlines()]
seen, uniq = set(), []
for m in ms:
    k = (m["File"], m["From"], m["To"], m["New"])
    if k not in seen:
        seen.add(k)
        uniq.append(m)
if os.environ.get("ONLY"):
    uniq = [m for m in uniq if eval(os.environ["ONLY"], {}, m)]
random.Random(1).shuffle(uniq)
if os.environ.get("MAX"):
    uniq = uniq[: int(os.environ["MAX"])]
q = queue.Queue()
for m in uniq:
    q.put(m)
lock, stat, o = threading.Lock(), collections.Counter(), open(out, "w")

def run(w, m):
    p = os.path.join(w, m["File"])
    src = open("/repo/" + m["File"], "rb").read()
    open(p, "wb").write(src[: m["From"]] + m["New"].encode() + src[m["To"] :])
    try:
        try:
            if subprocess.run(["go", "build", "./..."], cwd=w, env=ENV, capture_output=True, timeout=300).returncode:
                return "does not build", []
            if subprocess.run(["go", "test", "-vet=off", "-timeout", "20s", "./..."], cwd=w, env=ENV, capture_output=True, timeout=120).returncode:
                return "fails tests", []
        except subprocess.TimeoutExpired:
            return "fails tests", []
        try:
            v = subprocess.run([binary + "/verif", "all", "-"], cwd=w, env=dict(ENV, VERIF_REPO=w, VERIF_SKIP="" if lexer else "lexer"), capture_output=True, text=True, timeout=880)
        except subprocess.TimeoutExpired:
            return "timeout", []
        bad = [l.split(":")[0] for l in v.stdout.split("\n") if " obligations, " in l and " 0 violated" not in l]
        if v.returncode and not bad:
            bad = ["CRASH"]
        return ("caught" if bad else "missed"), bad
    finally:
        open(p, "wb").write(src)

def worker():
    d = tempfile.mkdtemp(prefix="mutant-")
    w = d + "/repo"
    shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git"))
    try:
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            r, bad = run(w, m)
            with lock:
                stat[r] += 1
                if r not in ("does not build", "fails tests"):
                    o.write(json.dumps(dict(m, result=r, by=bad)) + "\n")
                    o.flush()
    finally:
        shutil.rmtree(d)

ts = [threading.Thread(target=worker) for _ in range(int(os.environ.get("JOBS", "7")))]
for t in ts: t.start()
for t in ts: t.join()
shutil.rmtree(binary)
print(dict(stat))
