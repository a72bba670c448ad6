#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's current working tree.

  check.py --property C01 [--thorough]       verdict: exit 0 / exit 1 + VIOLATION line / exit 2 (error of the check)
  check.py --replay replay/C01-....json      re-executes the recorded case with its full trace
"""
import argparse, array, glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ZYCORE_REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

CLANG, CLANGXX = "clang", "clang++"
JOBS = min(8, os.cpu_count() or 8)
NO_VERDICT = "cases without a verdict (memory)"
BUDGET_S = 480         # quick: no new case is started after that many seconds (a slowed-down library still gets its verdict)
HANG_S = 60            # no progress for that long -> suspected hang
BASE = ["-g", "-fno-omit-frame-pointer", "-D_GNU_SOURCE", "-DZYCORE_STATIC_BUILD",
        f"-I{REPO}/include", f"-I{REPO}/src"]
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    # accesses to volatile objects go to the callbacks in harness/vh_main.cpp: a retry loop that starts from a plain read of a volatile
    # cell is judged by what it computes, not reported as a race
    "tsan": ["-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile=1"],
    "none": [],
}
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3000:exitcode=66:"
                       "abort_on_error=0:detect_stack_use_after_return=1:handle_segv=1:"
                       "max_allocation_size_mb=1024:strict_memcmp=1:intercept_strlen=1")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=66:halt_on_error=1"
ENV["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:history_size=4:detect_deadlocks=0"
for k in ("LD_PRELOAD", "GLIBC_TUNABLES", "MALLOC_ARENA_MAX"):
    ENV.pop(k, None)
LIBC_LOCALE = {"LC_ALL": "C", "TZ": "UTC"}
ENV.update(LIBC_LOCALE)


class CheckError(Exception):
    pass


def run_cmd(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return p.returncode, p.stdout


def repo_sources():
    s = sorted(glob.glob(f"{REPO}/src/**/*.c", recursive=True))
    if not s:
        raise CheckError("no sources in " + REPO)
    return s


_m32 = {}


def m32(tmp):
    """Flags for 32-bit x86 programs, or None if this machine cannot build or run them. Only the shared 32-bit libraries are
    installed, so the start-up code is ours and the headers are those of the 64-bit system plus an empty stubs-32.h."""
    if "v" in _m32:
        return _m32["v"]
    _m32["v"] = None
    d = os.path.join(tmp, "m32")
    os.makedirs(os.path.join(d, "inc", "gnu"), exist_ok=True)
    open(os.path.join(d, "inc", "gnu", "stubs-32.h"), "w").close()
    rc, res = run_cmd([CLANG, "-print-resource-dir"])
    rt = os.path.join(res.strip(), "lib", "linux")
    start = os.path.join(d, "start.o")
    inc = ["-m32", "-fno-pic", "-msse2", "-mfpmath=sse", f"-I{d}/inc", "-idirafter", "/usr/include/x86_64-linux-gnu"]
    cxxinc = ["-nostdinc++", "-isystem", "/usr/include/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu/c++/13",
              "-isystem", "/usr/include/c++/13/backward"]
    link = ["-m32", "-no-pie", "-nostdlib", "-nostartfiles"]
    libs = [start] + ["/usr/lib32/" + x for x in ("libstdc++.so.6", "libm.so.6", "libc.so.6", "libgcc_s.so.1", "ld-linux.so.2")] + [
        os.path.join(rt, "libclang_rt.builtins-i386.a"), "-Wl,-dynamic-linker,/lib/ld-linux.so.2"]
    asan = ["-Wl,--whole-archive", os.path.join(rt, "libclang_rt.asan-i386.a"), os.path.join(rt, "libclang_rt.asan_cxx-i386.a"),
            "-Wl,--no-whole-archive", "-Wl,--export-dynamic"]
    v = dict(inc=inc, cxxinc=cxxinc, link=link, libs=libs, asan=asan)
    rc, _ = run_cmd([CLANG, "-m32", "-fno-pic", "-O1", "-c", os.path.join(HERE, "harness", "start32.c"), "-o", start])
    if rc:
        return None
    t = os.path.join(d, "t.cpp")
    with open(t, "w") as f:
        f.write("#include <string>\n#include <cstdio>\n#include <map>\nint main() { std::map<std::string, unsigned long long> m; m[\"a\"] = 1;"
                " std::printf(\"%zu%zu\\n\", sizeof(void*), m.size()); }\n")
    rc, _ = run_cmd([CLANGXX, *inc, *cxxinc, *SAN["asan"], "-c", t, "-o", t + ".o"])
    if rc == 0:
        rc, _ = run_cmd([CLANGXX, *link, t + ".o", *asan, *libs, "-o", t + ".exe"])
    if rc == 0:
        rc, out = run_cmd([t + ".exe"], env=ENV)
        if rc == 0 and out.strip() == "41":
            _m32["v"] = v
    return _m32["v"]


def locales(tmp):
    """Builds the foreign locales the harness runs a part of the cases in (none, if this machine cannot); see vh_main.cpp."""
    d = os.path.join(tmp, "locales")
    os.makedirs(d, exist_ok=True)
    for name, charset in (("tr_TR", "ISO-8859-9"), ("de_DE", "ISO-8859-1")):
        try:
            run_cmd(["localedef", "-i", name, "-f", charset, os.path.join(d, f"{name}.{charset}")])
        except OSError:
            pass
    ENV["LOCPATH"] = d


def compile_variant(var, tmp):
    """Compiles one variant (library sources + harness) in parallel; returns the binary."""
    d = os.path.join(tmp, var["name"])
    os.makedirs(d, exist_ok=True)
    san = SAN[var.get("san", "asan")]
    opt = var.get("opt", "-O1")
    jobs = []
    objs = []
    cc = var.get("cc", CLANG)
    cxx = var.get("cxx", CLANGXX)
    lib_flags = var.get("lib_flags", [])
    a32 = m32(tmp) if var.get("arch") == "m32" else None
    arch = a32["inc"] if a32 else []
    if not var.get("no_lib"):
        for s in repo_sources():
            o = os.path.join(d, "lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
            jobs.append([cc, "-std=gnu99", opt, *arch, *BASE, *san, *lib_flags, "-w", "-c", s, "-o", o])
            objs.append(o)
    for s in var["src"]:
        sp = os.path.join(HERE, "harness", s)
        o = os.path.join(d, "h_" + s.replace("/", "_") + ".o")
        c = [cxx, "-std=gnu++17"] if s.endswith(".cpp") else [cc, "-std=gnu11"]
        if a32:
            c += (a32["cxxinc"] if s.endswith(".cpp") else []) + arch
        hsan = san if var.get("harness_san", var.get("san") == "tsan") else []
        jobs.append([*c, var.get("hopt", "-O1"), *BASE, f"-I{HERE}/harness", *hsan, "-Wall", "-Wno-unused-function",
                     *var.get("flags", []), "-c", sp, "-o", o])
        objs.append(o)
    with ThreadPoolExecutor(JOBS) as ex:
        for cmd, (rc, out) in zip(jobs, ex.map(run_cmd, jobs)):
            if rc:
                raise CheckError("compilation failed: " + " ".join(cmd) + "\n" + out[-3000:])
    exe = os.path.join(d, "prog")
    if a32:
        cmd = [cxx, *a32["link"], *objs, *(a32["asan"] if san else []), *a32["libs"], "-o", exe, *var.get("ldflags", [])]
    else:
        cmd = [cxx, *san, *objs, "-o", exe, "-lpthread", *var.get("ldflags", [])]
    rc, out = run_cmd(cmd)
    if rc:
        raise CheckError("link failed: " + " ".join(cmd) + "\n" + out[-3000:])
    return exe


class TraceFile:
    """The mapping the harness writes its current case to."""
    def __init__(self, path):
        self.path = path

    def head(self):
        try:
            with open(self.path, "rb") as f:
                b = f.read(32)
            return struct.unpack("<QQQQ", b) if len(b) == 32 else (0, 0, 0, 0)
        except OSError:
            return (0, 0, 0, 0)

    def text(self):
        try:
            with open(self.path, "rb") as f:
                b = f.read()
            n = struct.unpack("<Q", b[16:24])[0]
            return b[32:32 + n].decode("latin-1")
        except (OSError, struct.error):
            return ""


def classify(rc, err):
    """-> (kind, key, case, message)"""
    if rc == 2:
        return ("error", None, None, err[-3000:])
    m = re.search(r"@@VIOLATION key=(\S+) case=(\d+) msg=(.*)", err, re.S)
    if m:
        return ("violation", m.group(1), int(m.group(2)), m.group(3).strip()[:3000])
    m = re.search(r"SUMMARY: (\w+): (\S+)(.*)", err)
    if m:
        where = m.group(3).strip()
        fm = re.search(r"\bin (\w+)", where)
        key = "sanitizer:" + m.group(2) + ":" + (fm.group(1) if fm else "?")
        return ("violation", key, None, m.group(0))
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return ("violation", "sanitizer:ub", None, m.group(0))
    return ("violation", f"crash:{rc}", None, "terminated with status %d: %s" % (rc, err[-1500:]))


class Shard:
    def __init__(self, exe, prop, var, i, n, seed, cases, thorough, tmp, start=0, only=None, limit=None, until=None):
        self.exe, self.prop, self.var, self.i, self.n = exe, prop, var, i, n
        self.base = os.path.join(tmp, f"{var['name']}.{i}.{start}")
        self.tr = TraceFile(self.base + ".trace")
        self.out = self.base + ".json"
        self.errp = self.base + ".err"
        cmd = [exe, "--seed", str(seed), "--cases", str(cases), "--out", self.out, "--trace", self.tr.path]
        if only is not None:
            cmd += ["--only", str(only)]
        else:
            cmd += ["--from", str(start if start else i), "--stride", str(n)]
        if until:
            cmd += ["--deadline", str(max(1, round(until - time.time())))]
        if thorough:
            cmd.append("--thorough")
        cmd += var.get("args", [])
        self.cmd = cmd
        env = dict(ENV)
        env.update(var.get("env", {}))
        self.ef = open(self.errp, "wb")
        wd = os.path.join(tmp, f"wd.{var['name']}.{i}")
        os.makedirs(wd, exist_ok=True)
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=self.ef, stderr=self.ef, env=env, cwd=wd,
                                  start_new_session=True)
        self.last = None
        self.last_t = time.time()
        self.limit = limit

    def poll(self):
        rc = self.p.poll()
        if rc is not None:
            return rc
        h = self.tr.head()
        sig = (h[0], h[3])
        now = time.time()
        if sig != self.last:
            self.last, self.last_t = sig, now
        if now - self.last_t > (self.limit or HANG_S):
            self.kill()
            return "hang"
        return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def stderr(self):
        self.ef.flush()
        with open(self.errp, "rb") as f:
            b = f.read()
        if len(b) > 60000:
            b = b[:40000] + b"\n...\n" + b[-20000:]
        return b.decode("latin-1")


def load_known(prop):
    """known: property=<id> key=<key> [case-text] -> keys that are listed findings of the unchanged tree."""
    res = {}
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+)\s*(.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return res


def run_variant(prop, var, exe, seed, cases, thorough, tmp, known, result, until=None):
    n = min(var.get("shards", JOBS), JOBS, max(1, cases))
    active = [Shard(exe, prop, var, i, n, seed, cases, thorough, tmp, until=until) for i in range(n)]
    done = []
    starved = 0
    violation = None
    try:
        while active and violation is None:
            time.sleep(0.02)
            for s in list(active):
                rc = s.poll()
                if rc is None:
                    continue
                active.remove(s)
                if rc == 0:
                    done.append(s)
                    continue
                case = s.tr.head()[0]
                if rc == "hang":
                    # confirm on an otherwise idle machine: only this case, alone
                    for o in active:
                        os.killpg(o.p.pid, signal.SIGSTOP)
                    c = Shard(exe, prop, var, 900 + s.i, 1, seed, cases, thorough, tmp, only=case, limit=HANG_S)
                    r2 = None
                    while r2 is None:
                        time.sleep(0.05)
                        r2 = c.poll()
                    for o in active:
                        os.killpg(o.p.pid, signal.SIGCONT)
                        o.last_t = time.time()
                    if r2 == 0:
                        raise CheckError(f"case {case} made no progress for {HANG_S} s but finished when repeated")
                    if r2 == "hang":
                        violation = dict(key="hang", case=case, msg=f"no progress for {HANG_S} s, twice", err=s.stderr(), trace=c.tr.text())
                        break
                    s, rc = c, r2
                if rc in (77, -signal.SIGKILL) or "hard rss limit exhausted" in s.stderr()[-4000:]:
                    # memory ran out (77: the harness noticed it first): this case has no verdict
                    starved += 1
                    result["counters"][NO_VERDICT] = result["counters"].get(NO_VERDICT, 0) + 1
                    if case + n < cases and starved <= 12:
                        active.append(Shard(exe, prop, var, s.i, n, seed, cases, thorough, tmp, start=case + n, until=until))
                    continue
                kind, key, vcase, msg = classify(rc, s.stderr())
                if kind == "error":
                    raise CheckError(msg)
                case = vcase if vcase is not None else s.tr.head()[0]
                if key in known:
                    result["known_hit"].add(key)
                    if case + n < cases:
                        active.append(Shard(exe, prop, var, s.i, n, seed, cases, thorough, tmp, start=case + n, until=until))
                    continue
                violation = dict(key=key, case=case, msg=msg, err=s.stderr(), trace=s.tr.text())
                break
    finally:
        for s in active:
            s.kill()
    for s in done:
        with open(s.out) as f:
            j = json.load(f)
        result["evals"] += j["evals"]
        for k, v in j["counters"].items():
            result["counters"][k] = (max if k.startswith("max:") else int.__add__)(result["counters"].get(k, 0), v)
        result["samples"] += [f"[{var['name']}] " + x for x in j["samples"]][:2]
        for ext, dst in ((".distinct", "distinct"), (".states", "states")):
            a = array.array("Q")
            with open(s.out + ext, "rb") as f:
                a.frombytes(f.read())
            if ext == ".distinct":
                vt = hash(var["name"]) & 0xFFFFFFFF
                result[dst].update(x ^ vt for x in a)
            else:
                result[dst].update(a)
        for p in (s.out, s.out + ".distinct", s.out + ".states", s.tr.path, s.errp):
            try:
                os.unlink(p)
            except OSError:
                pass
    if violation:
        violation["variant"] = var["name"]
    return violation


def write_replay(prop, tier, seed, v):
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    key = re.sub(r"[^A-Za-z0-9_.-]", "_", v["key"])[:60]
    path = os.path.join(d, f"{prop}-{key}-{seed}-{v.get('case')}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, cases=v.get("cases"), variant=v.get("variant"), case=v.get("case"),
                       key=v["key"], message=v["msg"], trace=v.get("trace", "").splitlines()[-400:],
                       output=v.get("err", "").splitlines()[-120:],
                       how=f"python3 check.py --replay {os.path.relpath(path, HERE)}"), f, indent=1)
    return os.path.relpath(path, HERE)


def custom_ctx(prop, tmp, seed, thorough, result, known):
    return dict(prop=prop, tmp=tmp, seed=seed, thorough=thorough, result=result, known=known, repo=REPO, here=HERE, env=ENV,
                run_cmd=run_cmd, jobs=JOBS, sources=repo_sources, m32=m32, CheckError=CheckError)


def check(prop, thorough, seed):
    t0 = time.time()
    spec = PROPS[prop]
    tier = "thorough" if thorough else "quick"
    known = load_known(prop)
    result = dict(evals=0, counters={}, samples=[], distinct=set(), states=set(), known_hit=set())
    tmp = tempfile.mkdtemp(prefix=f"zyv_{prop}_")
    violation = None
    timing = {}
    built = {}
    pool = ThreadPoolExecutor(8)
    try:
        # all variants are compiled at the same time, then run one after another
        m32(tmp) if any(v.get("arch") == "m32" for v in spec.get("variants", [])) else None
        foreign = pool.submit(locales, tmp)
        todo = [v for v in spec.get("variants", []) if v["thorough" if thorough else "quick"] and (v.get("arch") != "m32" or m32(tmp))]
        for var in todo:
            built[var["name"]] = pool.submit(compile_variant, var, tmp)
        foreign.result()
        for var in spec.get("variants", []):
            if var.get("arch") == "m32" and not m32(tmp):
                result["counters"][f"variant {var['name']} skipped: no 32-bit programs here"] = 1
                continue
            cases = var["thorough" if thorough else "quick"]
            if not cases:
                continue
            t1 = time.time()
            exe = built[var["name"]].result()
            t2 = time.time()
            violation = run_variant(prop, var, exe, seed, cases, thorough, tmp, known, result,
                                    None if thorough else max(t2 + 5, t0 + BUDGET_S))
            timing[var["name"]] = [round(t2 - t1, 2), round(time.time() - t2, 2)]
            result["counters"][f"cases[{var['name']}]"] = cases
            if violation:
                violation["cases"] = cases
                break
        if not violation and spec.get("custom"):
            violation = spec["custom"](custom_ctx(prop, tmp, seed, thorough, result, known))
    finally:
        pool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(tmp, ignore_errors=True)
    cov = dict(evaluations=result["evals"], distinct_nontrivial=len(result["distinct"]), rule=spec["rule"],
               samples=result["samples"][:6] or ["(no sample: run ended early)"],
               observed=dict(sorted(result["counters"].items())), build_run_seconds=timing)
    if result["states"]:
        cov["distinct_states_observed"] = len(result["states"])
    if spec.get("exhaustive"):
        cov["exhaustive_part"] = spec["exhaustive"]
    # vacuity guard: the monitors must have seen what the check is about
    missing = [k for k in spec.get("must_observe", []) if not result["counters"].get(k)
               and not (result["counters"].get(NO_VERDICT) and k == "cases beyond 4 GiB")
               and not result["counters"].get("shards stopped by their time limit")]
    ev = dict(property=prop, tier=tier, seed=seed, level=spec["level"], coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2),
              violations=1 if violation else 0)
    if violation:
        ev["violation"] = dict(key=violation["key"], case=violation.get("case"), message=violation["msg"][:2000])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(result["known_hit"]):
        print(f"KNOWN-FINDING: property={prop} {known[k] or k}")
    if violation:
        path = write_replay(prop, tier, seed, violation)
        print(f"{prop}: {violation['key']}: {violation['msg'][:600]}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    if missing:
        raise CheckError(f"vacuous run: never observed {missing}")
    print(f"{prop}: held on {result['evals']} executions ({len(result['distinct'])} distinct non-trivial, "
          f"{len(result['states'])} distinct states), {time.time() - t0:.1f} s {timing}")
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    spec = PROPS[r["property"]]
    print(json.dumps({k: r[k] for k in ("property", "variant", "case", "key", "message")}, indent=1))
    tmp = tempfile.mkdtemp(prefix="zyv_replay_")
    try:
        for var in spec.get("variants", []):
            if var["name"] == r["variant"]:
                locales(tmp)
                exe = compile_variant(var, tmp)
                cmd = [exe, "--seed", str(r["seed"]), "--cases", str(r["cases"]), "--only", str(r["case"]), "--verbose",
                       "--trace", os.path.join(tmp, "trace")]
                if r["tier"] == "thorough":
                    cmd.append("--thorough")
                rc = subprocess.run(cmd + var.get("args", []), env=dict(ENV, **var.get("env", {})), cwd=tmp).returncode
                print("exit status", rc)
                return 1 if rc else 0
        if spec.get("custom"):      # repeated as a whole
            res = dict(evals=0, counters={}, samples=[], distinct=set(), states=set(), known_hit=set())
            v = spec["custom"](custom_ctx(r["property"], tmp, r["seed"], r["tier"] == "thorough", res, {}))
            print(f"{v['key']}: {v['msg']}\n{v['trace']}\n{v['err']}" if v else "no violation")
            return 1 if v else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("\n".join(r["trace"]))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.replay:
            return replay(a.replay)
        thorough = a.thorough or os.environ.get("VERIF_TIER") == "thorough"
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
        return check(a.property, thorough, seed)
    except CheckError as e:
        print("CHECK-ERROR:", e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
