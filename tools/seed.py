#!/usr/bin/env python3
"""Plants the bugs of a spec file (a Python file defining BUGS) into /verif/seeded.

usage: seed.py SPEC.py [ID...]

For every bug: applies the edits to a scratch copy of /repo, checks that only original lines
change, builds it and runs the stable tests, runs the demonstration on both trees and the check of
the property on the changed one. The bug is kept if everything but the check's verdict is as
wanted; the verdict goes to stdout. With SEED_TRY set nothing is kept.
"""
import json, os, re, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
REPO, OUT = "/repo", "/verif/seeded"
BASE = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], text=True,
                      capture_output=True).stdout.strip()
TRY = os.environ.get("SEED_TRY")        # only report, also for changes that merely add lines
PRELUDE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <Zycore/Zycore.h>
#include <Zycore/Allocator.h>
#include <Zycore/Vector.h>
#include <Zycore/List.h>
#include <Zycore/String.h>
#include <Zycore/Format.h>
#include <Zycore/Bitset.h>
#include <Zycore/ArgParse.h>
#include <Zycore/Comparison.h>
#include <Zycore/LibC.h>
#include <Zycore/Atomic.h>
#ifndef ZYAN_NO_LIBC
#include <Zycore/API/Memory.h>
#include <Zycore/API/Process.h>
#include <Zycore/API/Synchronization.h>
#include <Zycore/API/Terminal.h>
#include <Zycore/API/Thread.h>
#endif
#define EXPECT(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
'''
DEMO = r'''#!/bin/bash
# cwd: the repository. Exit 0: the property holds in the demonstrated situation.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
%s -std=gnu11 -w -g -D_GNU_SOURCE -DZYCORE_STATIC_BUILD %s -Iinclude -Isrc "$d/demo.c" src/*.c src/API/*.c \
    -lpthread -o "$t/demo" || exit 99
timeout 120 "$t/demo"
'''

def run(cmd, **kw):
    return subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def one(b):
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        run(["git", "clone", "-q", REPO, d + "/r"])
        c = d + "/r"
        for f, old, new in b["edits"]:
            p = os.path.join(c, f)
            s = open(p, newline="").read()
            if s.count(old) < 1:
                return b, "EDIT NOT FOUND in %s: %r" % (f, old[:60])
            if s.count(old) > 1 and not b.get("first"):
                return b, "EDIT AMBIGUOUS in %s: %r" % (f, old[:60])
            open(p, "w", newline="").write(s.replace(old, new, 1))
        diff = run(["git", "-C", c, "diff"]).stdout
        # removed lines must be original ones
        n = 0
        f = None
        for line in diff.splitlines():
            m = re.match(r"--- a/(.*)", line)
            if m:
                f = m.group(1)
                bl = run(["git", "-C", c, "blame", "-s", "-l", "--root", "HEAD", "--", f]).stdout.splitlines()
                continue
            m = re.match(r"@@ -(\d+)", line)
            if m:
                ln = int(m.group(1)) - 1
                continue
            if f is None or line.startswith("+"):
                continue
            if line.startswith("-"):
                n += 1
                if not bl[ln].lstrip("^").startswith(BASE[:39]) and line[1:].strip():
                    return b, "CHANGES A FIX LINE: " + line
            ln += 1
        if not n and not TRY:
            return b, "CHANGES NO ORIGINAL LINE"
        env = dict(os.environ, CC="gcc", CXX="g++")
        r = run(["cmake", "-S", c, "-B", c + "/_build", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
                 "-DZYCORE_BUILD_TESTS=ON", "-DZYCORE_BUILD_EXAMPLES=ON",
                 "-DCMAKE_REQUIRE_FIND_PACKAGE_GTest=ON", "-DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON"], env=env)
        r2 = run(["ninja", "-C", c + "/_build"], env=env)
        if r.returncode or r2.returncode:
            return b, "BUILD FAILED " + r2.stdout[-1500:]
        rep = d + "/rep"
        run(["/usr/bin/python3", "/opt/vp/run_gtests.py", c + "/_build", rep])
        run(["/usr/bin/python3", "/opt/vp/results.py", d + "/o.json", "lines:" + rep])
        ok = set(json.load(open(d + "/o.json"))["passed"])
        miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - ok
        if miss:
            return b, "TESTS FAIL: %s" % sorted(miss)[:5]
        o = d + "/s"
        os.mkdir(o)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.c", "w").write("" if b.get("noprelude") else PRELUDE)
        open(o + "/demo.c", "a").write(b["demo"] or "")
        open(o + "/demo.sh", "w").write(b.get("sh") or DEMO % (b.get("cc", "gcc"), b.get("flags", "")))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]},
                  open(o + "/meta.json", "w"), indent=1)
        a = run(["bash", o + "/demo.sh"], cwd=REPO)
        if a.returncode:
            return b, "DEMO FAILS UNCHANGED rc=%d %s" % (a.returncode, a.stdout[-1500:])
        m = run(["bash", o + "/demo.sh"], cwd=c)
        if not m.returncode or m.returncode == 99:
            return b, "DEMO DOES NOT FAIL rc=%d %s" % (m.returncode, m.stdout[-800:])
        k = os.path.join(OUT, b["id"])
        if n and not TRY:
            shutil.rmtree(k, ignore_errors=True)
            shutil.copytree(o, k)
        caught = []
        for q in b.get("also", []) + [b["property"]]:
            v = run([sys.executable, "/verif/check.py", "--property", q],
                    env=dict(os.environ, ZYCORE_REPO=c, VERIF_SEED="1", VERIF_TIER="quick"))
            if v.returncode == 1 and "VIOLATION property=" + q in v.stdout:
                caught.append(q)
            elif v.returncode not in (0, 1):
                return b, "CHECK BROKE rc=%d %s" % (v.returncode, v.stdout[-800:])
        return b, ("caught " if b["property"] in caught else "MISSED ") + ",".join(caught)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = set(sys.argv[2:])
    bugs = [b for b in bugs if not want or b["id"] in want]
    with ThreadPoolExecutor(3) as ex:
        for b, r in ex.map(one, bugs):
            print("%-34s %s %s" % (b["id"], b["property"], r), flush=True)

main()
