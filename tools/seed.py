#!/usr/bin/env python3
"""Development aid: validates planted bugs. seed.py SPEC.py [ID...] makes /verif/seeded/<id> from a spec (dict SEEDS), checking in a
scratch worktree that the change compiles, passes the repository's tests, and that its demonstration separates the trees."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; run with the repository as working directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 %s -DPERSISTENCE_BOOST_DESCRIBE -Iinclude "$D/demo.cpp" -o "$T/demo" || exit 2
timeout 60 "$T/demo"
'''
PRE = '''#include <persistence/persistence.hpp>
#include <persistence/write_all.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/schema_utility.hpp>
#include <persistence/enum_utility.hpp>
#include <persistence/utility.hpp>
#include <cstdio>
#include <string>
using namespace persistence;
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "failed: %s\\n", #c); return 1; } } while (0)
'''
def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def make(sid, s, slot):
    wt = "/tmp/seedwt%d" % slot
    sh("git -C /repo worktree remove --force %s; rm -rf %s; git -C /repo worktree prune" % (wt, wt))
    r = sh("git -C /repo worktree add -q --detach %s HEAD" % wt)
    out = os.path.join(HERE, "seeded", sid)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(wt, "include/persistence", f)
            t = open(p).read()
            if t.count(old) != s.get("times", 1):
                return "edit matches %d times in %s" % (t.count(old), f)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", wt).stdout
        d = "/tmp/seedout%d" % slot
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO % s.get("flags", ""))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.cpp", "w").write(PRE + s["demo"].lstrip("\n"))
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        a = sh("bash %s/demo.sh" % d, "/repo")
        if a.returncode: return "demo fails on the unchanged tree: " + a.stdout[-600:]
        b = sh("bash %s/demo.sh" % d, wt)
        if b.returncode in (0, 2): return "demo does not fail with the patch (%d): %s" % (b.returncode, b.stdout[-600:])
        t = sh('CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_STANDARD=20 -DCMAKE_CXX_COMPILE_OBJECT="<CMAKE_CXX_COMPILER> <DEFINES> <INCLUDES> <FLAGS> -Wno-error -o <OBJECT> -c <SOURCE>" -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest -DFETCHCONTENT_FULLY_DISCONNECTED=ON && ninja -C _build && ctest --test-dir _build -j8 --timeout 300', wt)
        if t.returncode or "100% tests passed" not in t.stdout: return "tests: " + t.stdout[-900:]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        shutil.rmtree(d)
        return "kept; demo says: " + b.stdout.strip()[-150:]
    finally:
        sh("git -C /repo worktree remove --force %s; rm -rf %s; git -C /repo worktree prune" % (wt, wt))

if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:] or list(ns["SEEDS"])
    for k, i in enumerate(ids):
        print(i, make(i, ns["SEEDS"][i], k % 8), flush=True)
