#!/usr/bin/env python3
"""Development aid: runs checks against planted bugs in scratch worktrees. try_seeds.py [--all-checks] [ID...]"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
extra = []
if "--checks" in args:
    k = args.index("--checks"); extra = args[k + 1].split(","); del args[k:k + 2]
ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))
wt = "/tmp/trywt"
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
for i in ids:
    d = os.path.join(HERE, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    sh("git -C /repo worktree remove --force %s; rm -rf %s; git -C /repo worktree prune; git -C /repo worktree add -q --detach %s HEAD" % (wt, wt, wt))
    r = sh("git -C %s apply %s/patch.diff" % (wt, d))
    if r.returncode: print(i, "DOES NOT APPLY"); continue
    for p in extra or [prop]:
        t = time.time()
        r = subprocess.run(["python3", os.path.join(HERE, "check.py"), p, "quick"], env=dict(os.environ, VERIF_REPO=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        print("%-24s %s %s (%.0f s) %s" % (i, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode), time.time() - t, r.stdout.strip().split("\n")[0][:160]), flush=True)
sh("git -C /repo worktree remove --force %s; rm -rf %s; git -C /repo worktree prune" % (wt, wt))
