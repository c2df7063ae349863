#!/usr/bin/env python3
"""How sensitive are the checks? Makes small random changes to a copy of the sources, one at a time, and runs a share of
every check's quick tier against each. Prints what noticed the change, or SURVIVED.

usage: mutate.py REPO WORKDIR [-n COUNT] [-s SEED] [-f FILE-SUBSTRING,...] [-d DIVISOR] [-j JOBS]
"""
import argparse, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS

SKIP = ("test/", "cjson", "cJSON", "util/base64", "util/md5", "util/sha", "util/rbt", "util/aes", "util/hex", "socks5_")


def candidates(path, text):
    out, depth = [], 0
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.split("///")[0].strip()
        if not s or s.startswith(("#", "//", "*", "/*")) or l[:1] not in (" ", "\t"):
            continue
        if re.match(r"(err|dbg|info|ahead_dbg|access)\(", s):
            continue
        def add(new, what):
            if new != l:
                out.append((i, new, what))
        m = re.match(r"(\s*)(?!return|break|continue|case|default|static|struct|int |char |unsigned|long|uint|void|const|ssize|size_t|meta_t|con_t|queue_t|ev_t|enum|\})([^=;]*(\(|=[^=]|\+\+|--)[^;]*;)\s*$", l)
        if m and l.count("(") == l.count(")") and "{" not in l:
            add(m.group(1) + ";", "delete")
        m = re.search(r"\bif ?\((.*)\)( *\{?.*)$", l)
        if m and l.count("(") == l.count(")") and "err(" not in m.group(2):
            k = l.index("if")
            body = l[k:]
            d, e = 0, None
            for j, ch in enumerate(body):
                if ch == "(":
                    d += 1
                elif ch == ")":
                    d -= 1
                    if d == 0:
                        e = j
                        break
            if e:
                o = body.index("(")
                add(l[:k] + "if (!(" + body[o + 1:e] + "))" + body[e + 1:], "negate")
                add(l[:k] + "if (0 && (" + body[o + 1:e] + "))" + body[e + 1:], "never")
        for a, b in (("<=", "<"), (">=", ">"), (" < ", " <= "), (" > ", " >= "), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("+=", "="), ("return -11", "return -1"),
                     ("return -1;", "return 0;"), ("return 0;", "return -1;"), ("continue;", "break;"), ("break;", "continue;"), ("= NULL", "= (void*)0x10"), (" = 1;", " = 0;"), (" = 0;", " = 1;"),
                     ("+ 1", "+ 2"), ("- 1", "- 2"), ("++", "--"), ("EV_R | EV_W", "EV_R"), ("EV_R|EV_W", "EV_R"), ("| EV_W", ""), ("* 1000", "* 100"), ("*1000", "*10"), ("sizeof(", "1+sizeof(")):
            if a in s and "schk(fd" not in s and not (a in (" = 0;", " = 1;") and re.match(r"(int|char|long|unsigned|ssize_t|status) ", s)):
                if a == "= NULL" and re.match(r"\w+ ?\*", s):
                    continue
                add(l.replace(a, b, 1), "%s -> %s" % (a.strip(), b.strip()))
        for m in re.finditer(r"(?<![\w.])(\d{2,})(?!\w)", l):
            add(l[:m.start()] + str(int(m.group(1)) // 2) + l[m.end():], "halve")
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("repo"); ap.add_argument("work")
    ap.add_argument("-n", type=int, default=50); ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-f", default=""); ap.add_argument("-d", type=int, default=8); ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    os.makedirs(a.work, exist_ok=True)
    for f in ("asan", "pool"):
        r = sh(f"REPO={a.repo} bash {HERE}/sim/build.sh {f} {a.work}/base.{f}")
        if r.returncode:
            sys.exit(r.stdout)
    cands = []
    for root, _, files in os.walk(a.repo + "/src"):
        for fn in files:
            p = os.path.join(root, fn)
            rel = os.path.relpath(p, a.repo)
            if fn.endswith(".c") and any(x in rel for x in a.f.split(",")) and not any(s in rel for s in SKIP):
                t = open(p, newline="", errors="surrogateescape").read()
                cands += [(rel, i, new, what) for i, new, what in candidates(rel, t)]
    cands.sort()
    rnd = random.Random(a.s)
    rnd.shuffle(cands)
    print(len(cands), "possible changes", flush=True)
    cands = cands[:a.n]
    out = open(f"{a.work}/result.{a.s}.{a.f.replace('/', '_')[:60]}.txt", "w")

    def one(k):
        rel, i, new, what = cands[k]
        w = f"{a.work}/m{k}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        lines = open(a.repo + "/" + rel, newline="", errors="surrogateescape").read().split("\n")
        old = lines[i]
        cr = "\r" if old.endswith("\r") and not new.endswith("\r") else ""
        lines[i] = new + cr
        head = f"{rel}:{i + 1} [{what}] {old.strip()}"
        src = os.path.join(w, os.path.basename(rel))
        open(src, "w", newline="", errors="surrogateescape").write("\n".join(lines))
        o = rel[4:].replace("/", "_")[:-2] + ".o"
        res = None
        try:
            for f in ("asan", "pool"):
                b, d = f"{a.work}/base.{f}", f"{w}/{f}"
                os.makedirs(d)
                cmd = [c for c in open(b + "/cmds") if c.split()[-1].endswith("/o/" + o)][0].split()
                cmd[-1], cmd[-3] = f"{d}/{o}", src
                inc = f"-I{a.repo}/src/{os.path.dirname(rel[4:])}"
                r = sh(" ".join(cmd[:2] + [inc] + cmd[2:]), cwd=a.repo + "/src")
                if r.returncode:
                    return f"NOBUILD  {head}"
                objs = [c.split()[-1] for c in open(b + "/cmds") if "/o/" in c.split()[-1]]
                objs = [f"{d}/{o}" if x.endswith("/o/" + o) else x for x in objs]
                link = "-fsanitize=address,undefined" if f == "asan" else ""
                script = f"""set -e; cd {d}; ld -r -o node.o {' '.join(objs)}
for n in C S; do objcopy --keep-global-symbol=main node.o k$n.o
objcopy --redefine-syms={b}/redef$n --rename-section .data=node${{n}}_data --rename-section .bss=node${{n}}_bss,alloc,load,data,contents k$n.o node$n.o; done
gcc -no-pie {link} -o sim {b}/s/*.o nodeC.o nodeS.o -lssl -lcrypto -lpthread -lm -ldl -Wl,--export-dynamic-symbol=fopen -Wl,--export-dynamic-symbol=fopen64 -Wl,--export-dynamic-symbol=time"""
                r = subprocess.run(["bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    return f"NOLINK   {head} {r.stdout[-300:]}"
            parts = [(p, *x) for p, c in CHECKS.items() for x in c["runs"]]
            random.Random(k).shuffle(parts)
            for frac in (8 * a.d, a.d):
                for p, scn, f, n in parts:
                    n = max(4, n // frac)
                    try:
                        subprocess.run([f"{w}/{f}/sim", "--scenario", scn, "--prop", p, "--seed", "1", "--count", str(n), "--limit", "400", "--maxviol", "1", "--out", f"{w}/o.json"],
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                        d = json.load(open(f"{w}/o.json"))
                        os.unlink(f"{w}/o.json")
                    except Exception as e:
                        return f"ERROR    {head} {p} {scn}/{f} {type(e).__name__}"
                    if d["error"]:
                        return f"ERROR    {head} {p} {scn}/{f} {d['error'][:100]}"
                    if d["violations"]:
                        v = d["violations"][0]
                        return f"caught   {head} by {p} ({scn}/{f} run {v['index']}: {v['kind']} {v['message'][:80]})"
            return f"SURVIVED {head}"
        finally:
            shutil.rmtree(w, ignore_errors=True)

    tally = {}
    with ThreadPoolExecutor(a.j) as ex:
        for fu in as_completed([ex.submit(one, k) for k in range(len(cands))]):
            r = fu.result()
            tally[r.split()[0]] = tally.get(r.split()[0], 0) + 1
            print(r, flush=True)
            out.write(r + "\n")
            out.flush()
    print(tally)


if __name__ == "__main__":
    main()
