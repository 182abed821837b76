#!/usr/bin/env python3
"""Turns zoo/*.zoo (annotated headers with alternatives) into harness/e_zoo_<property>.cpp.

Not run by any check: the tables it writes are the reviewed specification.  They are produced by running the
tool once per alternative and were checked by hand against the documented rules before being committed.

  //! id C12.q.zoo            identifies the sub-check
  //! args --foo              extra tool arguments
  GENPYBIND(@0.name: a | b | -)   site "name" of group 0 with alternatives; first = default; "-" = no annotation
"""
import collections, sys, re, os, subprocess, tempfile, difflib, glob, importlib.machinery, importlib.util, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
ld = importlib.machinery.SourceFileLoader("gpv", f"{V}/gpv"); sp = importlib.util.spec_from_loader("gpv", ld); gpv = importlib.util.module_from_spec(sp); ld.exec_module(gpv)
RE = re.compile(r"GENPYBIND\(@(\d)\.(\w+):((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)")
def cstr(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
def parse(f):
    t = open(f).read(); meta = dict(re.findall(r"^//! (\w+) (.*)$", t, re.M)); t = re.sub(r"^//!.*\n", "", t, flags=re.M)
    sites = {}
    def sub(m):
        n = m.group(2)
        if n not in sites: sites[n] = (int(m.group(1)), [None if a.strip() == "-" else a.strip() for a in m.group(3).split("|")])
        return f"GENPYBIND(__sel_{n})"
    return meta, "#pragma once\n#include <genpybind/genpybind.h>\n" + RE.sub(sub, t), sites
def inst(t, sites, ch):
    for n, (g, alts) in sites.items():
        a = alts[ch.get(n, 0)]
        t = t.replace(f"GENPYBIND(__sel_{n})", f"GENPYBIND({a})" if a is not None else "")
    return t
def dump(plain, text, args):
    with tempfile.TemporaryDirectory() as d:
        h = f"{d}/in.txt"; open(h, "w").write(text)
        r = subprocess.run([plain, "@dump", d, h] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        L = [l[6:] for l in r.stdout.splitlines() if l.startswith("DUMP |")]
        if "DUMP error" in r.stdout: return None, re.findall(r"REPLAY error: (.*)", r.stdout)
        if "DUMP bad" in r.stdout or "REPLAY done" not in r.stdout: sys.exit("bad dump\n" + r.stdout)
        return L, re.findall(r"^WARN (.*)", r.stdout, re.M)
def delta(base, new):
    rem, add = [], []
    for op, a, b, c, d in difflib.SequenceMatcher(None, base, new, autojunk=False).get_opcodes():
        if op in ("replace", "delete"): rem += list(range(a, b))
        if op in ("replace", "insert"): add += [(a, x) for x in new[c:d]]
    return rem, add
def main():
    plain = gpv.Build("C99").binaries(("plain",))["plain"]
    files = sorted(sys.argv[1:] or glob.glob(f"{V}/zoo/*.zoo")); byprop = {}
    for f in sorted(glob.glob(f"{V}/zoo/*.zoo")):
        p = parse(f)[0]["id"].split(".")[0]; byprop.setdefault(p, []).append(f)
    props = {parse(f)[0]["id"].split(".")[0] for f in files}
    verbose = True
    for p in sorted(props):
        o = ["// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.", '#include "e_lib.h"', "namespace {"]
        for k, f in enumerate(byprop[p]):
            meta, text, sites = parse(f); args = meta.get("args", "").split(); mod = meta.get("modname", "")
            show = f in files or os.path.abspath(f) in map(os.path.abspath, files)
            base, err = dump(plain, inst(text, sites, {}), args)
            if base is None: sys.exit(f"{f}: default instance fails: {err}")
            if show: print(f"== {meta['id']}"); print("\n".join("   " + x for x in base)); [print("   WARN", w) for w in err]
            jobs = [(n, i) for n, (g, alts) in sites.items() for i in range(1, len(alts))]
            with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda j: dump(plain, inst(text, sites, {j[0]: j[1]}), args), jobs))
            ds = {}
            for (n, i), (new, e) in zip(jobs, res):
                if new is None: ds[n, i] = (True, [], [])
                else: ds[n, i] = (False,) + delta(base, new)
                if show:
                    print(f"-- {n}: {sites[n][1][i]}" + (f"  ERROR {e}" if new is None else ""))
                    A, B = [base[x] for x in ds[n, i][1]], [x[1] for x in ds[n, i][2]]
                    common = collections.Counter(A) & collections.Counter(B)  # order only
                    for L in (A, B):
                        c = common.copy()
                        for x in list(L):
                            if c[x] > 0: c[x] -= 1; L.remove(x)
                    pre = lambda x: x.split("|")[0]
                    if len(A) > 6 and A and all(pre(x) == pre(A[0]) or pre(x).startswith(pre(A[0])) for x in A) and sorted(x.split("|", 1)[1] for x in A)[3:] == sorted(x.split("|", 1)[1] for x in B)[3:]:
                        print("   ~ moved", len(A), "entries from", sorted(set(map(pre, A))), "to", sorted(set(map(pre, B))))
                    elif len(A) > 4 and not B: print("   - removed", [a[:50] for a in A])
                    else:
                        for x in A: print("   -", x[:50])
                        for x in B: print("   +", x)
                    if new is not None:
                        for w in e: print("   WARN", w)
            # alternatives of different groups must be independent
            pairs = [(a, b) for a in jobs for b in jobs if sites[a[0]][0] < sites[b[0]][0]]
            if pairs and show:
                with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda q: dump(plain, inst(text, sites, dict(q)), args), pairs))
                for (a, b), (new, e) in zip(pairs, res):
                    if ds[a][0] or ds[b][0]:
                        if new is not None: sys.exit(f"{a} {b}: not independent (error)")
                        continue
                    if new is None: sys.exit(f"{a} {b}: not independent: {e}")
                    gone = set(ds[a][1]) | set(ds[b][1]); want = [x for i, x in enumerate(base) if i not in gone] + [x[1] for x in ds[a][2]] + [x[1] for x in ds[b][2]]
                    if sorted(want) != sorted(new): sys.exit(f"{a} {b}: not independent:\n" + "\n".join(difflib.unified_diff(sorted(want), sorted(new), lineterm="", n=0)))
            o.append(f'const char *const H{k} = R"zoo({text})zoo";')
            o.append(f"const Zoo Z{k}{{{{\n  " + ",\n  ".join(cstr(x) for x in base) + "\n}, {")
            for n, (g, alts) in sites.items():
                al = ", ".join("nullptr" if a is None else cstr(a) for a in alts)
                dd = ["{false, {}, {}}"] + ["{%s, {%s}, {%s}}" % ("true" if e else "false", ", ".join(map(str, r)), ", ".join("{%d, %s}" % (x[0], cstr(x[1])) for x in a)) for e, r, a in (ds[n, i] for i in range(1, len(alts)))]
                o.append(f"  {{{cstr(n)}, {g}, {{{al}}}, {{\n    " + ",\n    ".join(dd) + "}},")
            o.append("}};")
            al = ", ".join(cstr(a) for a in args); extra = "if (!r.exit_code) setUpOrder(model(r)); " if p in ("C08", "C09") else ""
            o.append(f'RegE R{k}({{"{meta["id"]}", H{k}, {{{al}}}, [](Env &e) {{ zooSetup(e, Z{k}); }}, [](Env &e, const Result &r) {{ zooOracle(e, r, Z{k}); {extra}}}}});')
        o.append("} // namespace")
        open(f"{V}/harness/e_zoo_{p}.cpp", "w").write("\n".join(o) + "\n")
main()
