#!/usr/bin/env python3
"""Systematic mutation of one source file: which small changes does no check notice?

usage: mutate.py FILE(relative to the repository) PROP,PROP,... [--cases N] [--lines A-B] [--full] [--narrow|--swap|--rename] [--refine]

A development aid (no check uses it). Every mutant is compiled into the harnesses of the listed properties (first variant of each,
one shard, N cases per property); with --full the complete quick check runs instead (needed for headers). Survivors are listed.
"""
import os, re, sys, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check, props
REPO = check.REPO

def mutants(text):
    """(offset, length, replacement)"""
    clean = re.sub(r"/\*.*?\*/|//[^\n]*|\"(?:\\.|[^\"\\\n])*\"", lambda m: re.sub(r"[^\n]", " ", m.group(0)), text, flags=re.S)
    res = []
    depth_line = 0
    pos = 0
    macro = False
    for line in clean.split("\n"):
        st = line.strip()
        skip = (st.startswith("#") and not st.startswith("#define")) or not line.startswith((" ", "\t")) or st.startswith("ZYAN_ASSERT")
        if not skip:
            def add(a, b, r):
                res.append((pos + a, b - a, r))
            for m in re.finditer(r"(?<![<>=!+\-*/&|^%-])(<=|>=|==|!=|<|>)(?![<>=])", line):
                if line[m.start() - 1:m.start()] == "-" or not (line[m.start()-1:m.start()] == " "):
                    continue
                op = m.group(1)
                for r in {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="]}[op]:
                    add(m.start(1), m.end(1), r)
            for m in re.finditer(r" (\+|-|&&|\|\||&|\||<<|>>|%|/|\*) (?=\S)", line):
                for r in {"+": ["-"], "-": ["+"], "&&": ["||"], "||": ["&&"], "&": ["|"], "|": ["&"], "<<": [">>"], ">>": ["<<"], "%": ["/"], "/": ["*"], "*": ["+"]}[m.group(1)]:
                    add(m.start(1), m.end(1), r)
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", line):
                v = int(m.group(1))
                for r in ([1] if v == 0 else [v - 1, v + 1]):
                    add(m.start(1), m.end(1), str(r))
            for m in re.finditer(r"\+\+|--", line):
                add(m.start(), m.end(), "--" if m.group(0) == "++" else "++")
            for m in re.finditer(r"(?:\+|-|&|\||\^)=(?!=)", line):
                add(m.start(), m.end(), {"+=": "-=", "-=": "+=", "&=": "|=", "|=": "&=", "^=": "|="}[m.group(0)])
            for m in re.finditer(r"!(?=[\w(])", line):
                add(m.start(), m.end(), "")
            m = re.match(r"(\s*)(if|while) \((.*)\)\s*$", line)
            if m and m.group(3).count("(") == m.group(3).count(")"):
                add(m.start(3), m.end(3), "0")
                if m.group(2) == "if":
                    add(m.start(3), m.end(3), "1")
            if re.match(r"\s+[\w>*().\-\[\]& +]*(=|\+=|-=|\()[^;]*;\s*$", line) and not re.match(r"\s*(return|const|Zyan\w+\*?\s+\w|char|static|goto|for|typedef|struct)", line) or re.match(r"\s*(\+\+|--)?[\w>.\-]+(\+\+|--)?;\s*$", line) and not re.match(r"\s*(return|break|continue|goto|\}|else)", line):
                a = len(line) - len(line.lstrip())
                add(a, len(line), ";")
            m = re.match(r"\s*(break|continue);\s*$", line)
            if m:
                add(m.start(1), m.end(1) + 1, ";")
            m = re.match(r"\s*return (.*);\s*$", line)
            if m and "ZYAN_STATUS_SUCCESS" in m.group(1):
                add(m.start(1), m.end(1), "ZYAN_STATUS_FAILED")
            elif m and m.group(1).startswith("ZYAN_STATUS_"):
                add(m.start(1), m.end(1), "ZYAN_STATUS_SUCCESS")
        pos += len(line) + 1
    seen = set()
    out = []
    for t in res:
        if t not in seen:
            seen.add(t)
            out.append(t)
    return out

def narrow(text, ids="size|count|index|capacity|len|length|i|n|mid|h|l|k|pos|width|padding_length|length_number|length_total|remaining"):
    """(offset, length, replacement): every rvalue use of a number-like name truncated to 8, 16 and 32 bits"""
    clean = re.sub(r"/\*.*?\*/|//[^\n]*|\"(?:\\.|[^\"\\\n])*\"", lambda m: re.sub(r"[^\n]", " ", m.group(0)), text, flags=re.S)
    res = []
    pos = 0
    for line in clean.split("\n"):
        if line.startswith((" ", "\t")) and "ZYAN_ASSERT" not in line and not line.strip().startswith("#"):
            for m in re.finditer(r"(?<![\w.>&*+])(?<!-)((?:\w+(?:->|\.))*(?:%s))\b(?!\s*(?:[-+*/|&^]?=(?!=)|\+\+|--|->|\.|\(|\[))" % ids, line):
                if re.search(r"(?:Zyan\w+|char|int|const|void)\*?\s*(?:const )?$", line[:m.start()]):
                    continue
                for t in ("ZyanU8", "ZyanU16", "ZyanU32"):
                    res.append((pos + m.start(), m.end() - m.start(), "(%s)%s" % (t, m.group(1))))
        pos += len(line) + 1
    return res

GROUPS = ["index count", "source_index index", "size capacity", "head tail", "prev next", "first last", "haystack needle", "s1 s2", "v1 v2", "growth_factor shrink_threshold",
          "element_size size", "element_size capacity", "source destination", "source_index count", "index_first index_second", "len i", "len_h len_n", "l h", "h mid", "l mid", "cap len", "original_size size", "bits size", "prefix suffix",
          "allocate reallocate", "argc i", "min_unnamed_args max_unnamed_args", "capacity count", "len count", "next head", "prev tail", "left right", "node next", "node prev", "destination_size source_size", "min_size s_size", "s_dst s_src", "key value"]
def rename(text):
    """one use of a name replaced by a related one (what does not compile is dropped)"""
    clean = re.sub(r"/\*.*?\*/|//[^\n]*|\"(?:\\.|[^\"\\\n])*\"", lambda m: re.sub(r"[^\n]", " ", m.group(0)), text, flags=re.S)
    other = {}
    for g in GROUPS:
        a, b = g.split()
        other.setdefault(a, set()).add(b)
        other.setdefault(b, set()).add(a)
    res = []
    pos = 0
    for line in clean.split("\n"):
        if line.startswith((" ", "\t")) and "ZYAN_ASSERT" not in line and not line.strip().startswith("#include"):
            for m in re.finditer(r"\b\w+\b", line):
                for o in sorted(other.get(m.group(0), ())):
                    res.append((pos + m.start(), m.end() - m.start(), o))
        pos += len(line) + 1
    return res

def swap(text):
    """two neighbouring statements exchanged (statements found by their indentation)"""
    lines = text.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    units = []
    i = 0
    while i < len(lines):
        l = lines[i].rstrip()
        ind = len(l) - len(l.lstrip())
        if not l.strip() or not ind or l.lstrip().startswith(("#", "}", "{", "else", "//", "/*", "*", "case", "default")):
            i += 1
            continue
        j = i
        while j < len(lines):
            t = lines[j].rstrip()
            k = len(t) - len(t.lstrip())
            if t.strip() and k < ind:
                break
            nxt = next((x for x in lines[j + 1:j + 2]), "").rstrip()
            if k == ind and t.endswith("}") and not nxt.strip().startswith("else"):
                units.append((ind, i, j))
                break
            if t.endswith(";") and not t.lstrip().startswith("for (") and (k == ind or k == ind + 4) and lines[i].rstrip()[-1:] != ")" and "{" not in "".join(lines[i:j + 1]):
                units.append((ind, i, j))
                break
            if t.endswith(";") and k == ind:
                units.append((ind, i, j))
                break
            j += 1
        i += 1
    res = []
    by = {(u[0], u[1]): u for u in units}
    for ind, a, b in units:
        c = b + 1
        while c < len(lines) and (not lines[c].strip() or lines[c].strip().startswith("//")):
            c += 1
        n = by.get((ind, c))
        if n and "ZYAN_ASSERT" not in lines[a] and "ZYAN_ASSERT" not in lines[c]:
            first, mid, second = "\n".join(lines[a:b + 1]), "\n".join(lines[b + 1:c]), "\n".join(lines[c:n[2] + 1])
            res.append((off[a], off[n[2]] + len(lines[n[2]]) - off[a], second + "\n" + mid + ("\n" if c > b + 1 else "") + first))
    return res

def main():
    args = sys.argv[1:]
    opt = {}
    pos = []
    while args:
        a = args.pop(0)
        if a in ("--full", "--narrow", "--refine", "--swap", "--rename", "--list"):
            opt[a[2:]] = True
        elif a.startswith("--"):
            opt[a[2:]] = args.pop(0)
        else:
            pos.append(a)
    rel, plist = pos[0], pos[1].split(",")
    cases = {}
    text = open(os.path.join(REPO, rel), newline="").read()
    ms = [m for m in narrow(text) if "widths" not in opt or m[2].split(")")[0].strip("(") in opt["widths"].split(",")] if opt.get("narrow") else swap(text) if opt.get("swap") else rename(text) if opt.get("rename") else mutants(text)
    if "lines" in opt:
        a, b = map(int, opt["lines"].split("-"))
        ms = [m for m in ms if a <= text.count("\n", 0, m[0]) + 1 <= b]
    if "every" in opt:
        ms = ms[::int(opt["every"])]
    if opt.get("list"):
        for o, l, r in ms:
            print("%d: [%s] -> [%s]" % (text.count("\n", 0, o) + 1, text[o:o + l], r))
        return
    tmp = tempfile.mkdtemp(prefix="mt_", dir="/tmp")
    try:
        vs = {}
        if not opt.get("full"):
            def prep(p):
                vv = props.PROPS[p]["variants"]
                w = opt.get("variant", "0")
                var = dict(vv[int(w)] if w.isdigit() else next((v for v in vv if v["name"] == w), vv[0]))
                d = os.path.join(tmp, p)
                os.makedirs(d)
                check.compile_variant(var, d)
                n = int(var["quick"] / float(opt.get("scale", 20)))
                if p == "C06":
                    n = max(n, 3000)
                vs[p] = (var, os.path.join(d, var["name"]), n)
            for p in plist:
                prep(p)
        print("%s: %d mutants" % (rel, len(ms)), flush=True)
        def full(k):
            o, l, r = ms[k]
            d = os.path.join(tmp, "f%d" % k)
            subprocess.run(["cp", "-a", REPO, d])
            open(os.path.join(d, rel), "w", newline="").write(text[:o] + r + text[o + l:])
            try:
                for p in plist:
                    q = subprocess.run([sys.executable, os.path.join(check.HERE, "check.py"), "--property", p], env=dict(os.environ, ZYCORE_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if q.returncode == 1:
                        return k, p
                    if q.returncode == 2:
                        return k, "build" if "compilation failed" in q.stdout or "link failed" in q.stdout else "error"
                return k, None
            finally:
                shutil.rmtree(d, ignore_errors=True)
        def one(k):
            o, l, r = ms[k]
            d = os.path.join(tmp, "m%d" % k)
            os.makedirs(d)
            try:
                src = os.path.join(d, "x.c")
                open(src, "w", newline="").write(text[:o] + r + text[o + l:])
                objs = {}
                for p in plist:
                    var, bd, n = vs[p]
                    san = check.SAN[var.get("san", "asan")]
                    fl = (var.get("opt", "-O1"), *san) + tuple(var.get("lib_flags", [])) + tuple(var.get("flags", []) if var.get("no_lib") else [])
                    if fl not in objs:
                        ob = os.path.join(d, "o%d.o" % len(objs))
                        q = subprocess.run([check.CLANG, "-std=gnu99", var.get("opt", "-O1"), *check.BASE, *san, *var.get("lib_flags", []), "-w", "-I" + os.path.dirname(os.path.join(REPO, rel)), "-c", src, "-o", ob], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                        if q.returncode:
                            return k, "build"
                        objs[fl] = ob
                    own = "lib_" + rel.replace("/", "_") + ".o"
                    os_ = [os.path.join(bd, f) for f in os.listdir(bd) if f.endswith(".o") and f != own] + [objs[fl]]
                    exe = os.path.join(d, p)
                    q = subprocess.run([check.CLANGXX, *san, *os_, "-o", exe, "-lpthread", *var.get("ldflags", [])], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    if q.returncode:
                        return k, "link"
                    try:
                        q = subprocess.run([exe, "--seed", "1", "--cases", str(n), "--out", os.path.join(d, "out")], env=check.ENV, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                        if q.returncode:
                            return k, p
                    except subprocess.TimeoutExpired:
                        return k, p + "(hang)"
                    os.unlink(exe)
                return k, None
            finally:
                shutil.rmtree(d, ignore_errors=True)
        stat = {}
        rng = list(range(len(ms)))
        if opt.get("refine"):        # what the fast pass does not notice goes through the complete quick checks
            with ThreadPoolExecutor(8) as ex:
                rng = []
                for k, res in ex.map(one, range(len(ms))):
                    if res is None:
                        rng.append(k)
                    else:
                        stat[res] = stat.get(res, 0) + 1
            print("fast pass leaves %d of %d" % (len(rng), len(ms)), flush=True)
            opt["full"] = True
        with ThreadPoolExecutor(2 if opt.get("full") else 8) as ex:
            for k, res in ex.map(full if opt.get("full") else one, rng):
                stat[res] = stat.get(res, 0) + 1
                if res is None or res in ("error", "link"):
                    o, l, r = ms[k]
                    ln = text.count("\n", 0, o) + 1
                    s = text.rfind("\n", 0, o) + 1
                    e = text.find("\n", o)
                    print("%s %s:%d: %s[[%s -> %s]]%s" % ("SURVIVED" if res is None else res, rel, ln, text[s:o].strip(), text[o:o + l], r, text[o + l:max(e, o + l)]), flush=True)
        print(stat, flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
main()
