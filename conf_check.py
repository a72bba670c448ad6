"""C24: the same programs under many build configurations; digests of all observations must agree."""
import os, signal, struct, subprocess, time
from concurrent.futures import ThreadPoolExecutor

KINDS = ("vector operations", "string operations", "number appends", "list operations", "bitset operations",
         "parsed command lines", "C-library helper rounds")
NL = "-DZYAN_NO_LIBC"


def configs(a32, thorough):
    """(name, compiler, flags for library and program, link flags, m32 kind)"""
    al = ["-fno-sanitize=alignment"]
    asan = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    c = [("clang-O0", "clang", ["-O0"], [], None),
         ("gcc-O3-ndebug", "gcc", ["-O3", "-DNDEBUG"], [], None),
         ("clang-O2-nolibc", "clang", ["-O2", NL], [], None),
         ("gcc-O2-nolibc-ndebug-uchar", "gcc", ["-O2", NL, "-DNDEBUG", "-funsigned-char"], [], None),
         ("gcc-Os-lto-gnu17", "gcc", ["-Os", "-flto", "-std=gnu17"], ["-flto", "-Os"], None),
         ("clang-O3-ndebug-c11", "clang", ["-O3", "-DNDEBUG", "-std=c11"], [], None),
         ("clang-asan", "clang", ["-O1", *asan], asan, None),
         ("clang-asan-nolibc", "clang", ["-O1", "-fno-builtin", NL, *asan], asan, None),
         ("clang-msan", "clang", ["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins=2"], ["-fsanitize=memory"], None),
         ("gcc-asan", "gcc", ["-O2", *asan], asan, None),
         ("gcc-O2-shared", "gcc", ["-O2", "-fPIC", "-DZYAN_RELEASE", "-D_FORTIFY_SOURCE=2"], [], "shared")]
    if a32:
        c += [("clang-m32-O2", "clang", ["-O2"], [], "plain"),
              ("gcc-m32-O2-ndebug", "gcc", ["-O2", "-DNDEBUG"], [], "plain"),
              ("clang-m32-asan", "clang", ["-O1", *asan], [], "asan"),
              ("clang-m32-nolibc", "clang", ["-O3", NL], [], "plain")]
    if thorough:
        c += [("gcc-O0", "gcc", ["-O0"], [], None), ("gcc-O1-nolibc", "gcc", ["-O1", NL], [], None),
              ("clang-Oz", "clang", ["-Oz"], [], None), ("clang-O3-nolibc-msan", "clang", ["-O3", NL, "-fsanitize=memory"], ["-fsanitize=memory"], None),
              ("gcc-O3-native-pack", "gcc", ["-O3", "-fwrapv", "-fno-strict-aliasing"], [], None),
              ("clang-O1-uchar", "clang", ["-O1", "-funsigned-char", "-DNDEBUG"], [], None)]
        if a32:
            c += [("gcc-m32-O0", "gcc", ["-O0"], [], "plain"), ("clang-m32-nolibc-asan", "clang", ["-O1", "-fno-builtin", NL, *asan], [], "asan")]
    return c


def run(ctx, a32):
    here, repo, tmp, run_cmd, CheckError = ctx["here"], ctx["repo"], ctx["tmp"], ctx["run_cmd"], ctx["CheckError"]
    res, seed = ctx["result"], ctx["seed"]
    cases = 200000 if ctx["thorough"] else 12000
    shards = 16 if ctx["thorough"] else 4
    step = -(-cases // shards)
    base = ["-g", "-fno-omit-frame-pointer", "-DZYCORE_STATIC_BUILD", f"-I{repo}/include", f"-I{repo}/src", f"-I{here}/harness", "-w"]
    srcs = [s for s in ctx["sources"]() if os.path.dirname(s) == os.path.join(repo, "src")]
    cfgs = configs(a32, ctx["thorough"])

    def build(i):
        name, cc, fl, ld, m = cfgs[i]
        d = os.path.join(tmp, "cfg." + name)
        os.makedirs(d, exist_ok=True)
        arch = a32["inc"] if m in ("plain", "asan") else []
        std = [] if any(f.startswith("-std=") for f in fl) else ["-std=gnu99"]
        objs = []
        for s in srcs + [os.path.join(here, "harness", "conf_prog.c")]:
            o = os.path.join(d, os.path.basename(s) + ".o")
            kind = [] if m != "shared" else ["-UZYCORE_STATIC_BUILD"] + (["-DZYCORE_SHOULD_EXPORT"] if s in srcs else [])
            rc, out = run_cmd([cc, *std, *arch, *base, *fl, *kind, "-c", s, "-o", o])
            if rc:
                return ("compile", os.path.basename(s), out[-2500:])
            objs.append(o)
        san = [f for f in fl if f.startswith("-fsanitize=memory")]
        o = os.path.join(d, "conf_main.o")
        rc, out = run_cmd([cc, "-std=gnu11", "-O2", *arch, *[b for b in base if b != "-w"], *san, f"-DJUNK={(i * 67 + 0x5B) & 0xFF}",
                           "-c", os.path.join(here, "harness", "conf_main.c"), "-o", o])
        if rc:
            raise CheckError("conf_main.c: " + out[-2000:])
        objs.append(o)
        exe = os.path.join(d, "prog")
        if m == "shared":    # the library as a shared object
            lib = os.path.join(d, "libzycore-shared.so")
            rc, out = run_cmd([cc, "-shared", *objs[:len(srcs)], "-o", lib])
            if not rc:
                rc, out = run_cmd([cc, *objs[len(srcs):], lib, "-Wl,-rpath," + d, "-o", exe])
        elif m:
            rc, out = run_cmd(["clang", *a32["link"], *objs, *(a32["asan"] if m == "asan" else []), *a32["libs"], "-o", exe])
        else:
            rc, out = run_cmd([cc, *ld, *objs, "-o", exe])
        if rc:
            return ("link", "program", out[-2500:])
        return ("ok", exe, "")

    with ThreadPoolExecutor(ctx["jobs"]) as ex:
        built = list(ex.map(build, range(len(cfgs))))
    bad = [i for i, b in enumerate(built) if b[0] != "ok"]
    if len(bad) == len(cfgs) or 0 in bad:
        raise CheckError("reference configuration does not build: " + built[bad[0]][2])
    if bad:
        i = bad[0]
        return dict(key=f"build:{cfgs[i][0]}", case=0, variant=cfgs[i][0], err=built[i][2], trace="",
                    msg=f"configuration {cfgs[i][0]} no longer builds ({built[i][1]}), others do")

    def execute(job):
        i, k = job
        name, exe = cfgs[i][0], built[i][1]
        out = os.path.join(tmp, f"cfg.{name}.{k}.dig")
        lo, hi = k * step, min(cases, (k + 1) * step)
        errf = out + ".err"
        with open(errf, "wb") as ef:
            p = subprocess.Popen([exe, str(seed), str(lo), str(hi), out], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=ef,
                                 env=ctx["env"], cwd=tmp, start_new_session=True)
            # no progress of the digest file for a minute: hang
            last, t = -1, time.time()
            while p.poll() is None:
                time.sleep(0.02)
                n = os.path.getsize(out) if os.path.exists(out) else 0
                if n != last:
                    last, t = n, time.time()
                if time.time() - t > 120:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    return (i, k, "hang", "", lo)
            so = p.stdout.read().decode("latin-1")
        with open(errf, "rb") as f:
            err = f.read()[-20000:].decode("latin-1")
        if p.returncode == 2:
            raise CheckError(f"{name}: {err}")
        return (i, k, p.returncode, so + err, lo)

    with ThreadPoolExecutor(ctx["jobs"]) as ex:
        done = list(ex.map(execute, [(i, k) for i in range(len(cfgs)) for k in range(shards)]))

    def lines(i, case):
        try:
            p = subprocess.run([built[i][1], str(seed), str(case)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                               env=ctx["env"], cwd=tmp, timeout=60)
            return p.stdout.decode("latin-1").splitlines(), p.stderr.decode("latin-1"), p.returncode
        except subprocess.TimeoutExpired as e:
            return (e.stdout or b"").decode("latin-1").splitlines(), "", "hang"

    for i, k, rc, out, lo in done:
        if rc == 0:
            continue
        # which case: digests are flushed every 64 cases; repeat from there
        p = os.path.join(tmp, f"cfg.{cfgs[i][0]}.{k}.dig")
        n = os.path.getsize(p) // 8 if os.path.exists(p) else 0
        for case in range(lo + n, min(lo + n + 65, cases)):
            l, err, r = lines(i, case)
            if r:
                import re
                m = re.search(r"SUMMARY: .*|runtime error: .*", err)
                return dict(key=f"fault:{cfgs[i][0]}", case=case, variant=cfgs[i][0], trace="\n".join(l), err=err,
                            msg=f"configuration {cfgs[i][0]} ends with {r} in program {case}: {m.group(0) if m else err[-300:]}")
        if rc == "hang":
            raise CheckError(f"{cfgs[i][0]} made no progress but no single program does")
        return dict(key=f"fault:{cfgs[i][0]}", case=lo, variant=cfgs[i][0], trace="", err=out,
                    msg=f"configuration {cfgs[i][0]} ends with {rc}: {out[-600:]}")

    def digests(i):
        b = b""
        for k in range(shards):
            with open(os.path.join(tmp, f"cfg.{cfgs[i][0]}.{k}.dig"), "rb") as f:
                b += f.read()
        return struct.unpack(f"<{len(b) // 8}Q", b)

    ref = digests(0)
    if len(ref) != cases:
        raise CheckError(f"reference wrote {len(ref)} digests")
    for i in range(len(cfgs)):
        d = digests(i)
        diff = [c for c in range(cases) if c >= len(d) or d[c] != ref[c]]
        if diff:
            c = diff[0]
            la, _, _ = lines(0, c)
            lb, _, _ = lines(i, c)
            j = next((j for j in range(max(len(la), len(lb))) if la[j:j + 1] != lb[j:j + 1]), 0)
            return dict(key=f"differs:{cfgs[i][0]}", case=c, variant=cfgs[i][0], trace="\n".join(lb[max(0, j - 60):j + 1]), err="",
                        msg=f"program {c} (and {len(diff) - 1} more) differs between {cfgs[0][0]} and {cfgs[i][0]} at observation {j}: "
                            f"{(la[j:j + 1] or ['(end)'])[0][:200]!r} against {(lb[j:j + 1] or ['(end)'])[0][:200]!r}")
        res["counters"][f"cases[{cfgs[i][0]}]"] = cases
    for i, k, rc, out, lo in done:
        n = [int(x) for x in out.split()[1:9]]
        res["counters"]["observations compared"] = res["counters"].get("observations compared", 0) + n[0]
        for name, v in zip(KINDS, n[1:]):
            res["counters"][name] = res["counters"].get(name, 0) + v
    res["counters"]["configurations"] = len(cfgs)
    res["counters"]["32-bit configurations"] = sum(1 for c in cfgs if c[4] in ("plain", "asan"))
    res["evals"] += cases * len(cfgs)
    res["distinct"].update(ref)
    l, _, _ = lines(0, 4)
    res["samples"].append("program 4: " + "; ".join(l[:14])[:600])
    return None
