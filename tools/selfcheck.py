#!/usr/bin/env python3
"""setup_cmd: the tools the checks need are there, and a program using the library compiles and runs."""
import os, shutil, subprocess, sys, tempfile
REPO = os.environ.get("VERIF_REPO", "/repo")
for t in ("g++", "python3"):
    if not shutil.which(t):
        sys.exit("missing: " + t)
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    src = os.path.join(d, "a.cpp")
    with open(src, "w") as f:
        f.write('#include "persistence/write.hpp"\n#include "persistence/write_all.hpp"\n#include <vector>\n'
                'int main() { std::string s; return persistence::write_to_string(std::vector<int>{1, 2}, s) && s == "[1,2]" ? 0 : 1; }\n')
    for flags in ([], ["-fsanitize=address,undefined"], ["-fsanitize=thread"]):
        subprocess.run(["g++", "-std=c++20", "-I" + REPO + "/include"] + flags + [src, "-o", d + "/a"], check=True)
        subprocess.run([d + "/a"], check=True)
finally:
    shutil.rmtree(d, ignore_errors=True)
print("ready")
