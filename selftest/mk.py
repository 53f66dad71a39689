"""mk.py <module> <name> <dir>: writes the variant into a copy of the repository."""
import sys, shutil, importlib, os, run
m = importlib.import_module(sys.argv[1])
for k in ("QUIET", "LOUD"):
    for v in getattr(m, k, []):
        if v[0] == sys.argv[2]:
            shutil.rmtree(sys.argv[3], ignore_errors=True)
            shutil.copytree("/repo", sys.argv[3], ignore=shutil.ignore_patterns(".git"))
            run.apply(sys.argv[3], v[1])
