#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough : decides one property on /repo's current tree."""
import os, sys, json, time, subprocess, hashlib, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vc
from props import PROPS

ROOT, REPO, BUILD = vc.ROOT, vc.REPO, vc.BUILD
CXX = shutil.which("g++-11") or "g++"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


# ------------------------------------------------------------------ proofs
def unit_closure(units):
    out = []

    def add(n):
        if n in out:
            return
        s = vc.load_vc(n)
        for m in s["imports"]:
            add(m)
        if not s.get("assumed"):
            out.append(n)
    for n in units:
        add(n)
    return out


FORBIDDEN = re.compile(r"\b(assume|admit)\s*\(|external_body")


def prove(name, timeout, gendir):
    """-> dict describing the outcome of one unit"""
    r = {"unit": name, "edges": {}, "ids": [], "per_fn": {}, "lemmas": 0, "problems": [], "failed": [], "status": "ok", "functions": [], "obligations": 0, "time": 0.0, "verified": 0, "assumed": [], "stubs": []}
    t0 = time.time()
    try:
        u = vc.Unit(name)
        text = u.generate()
    except Exception as ex:
        r["problems"].append((name, "extraction", "%s: %s" % (type(ex).__name__, ex)))
        r["status"] = "undecided"
        return r
    r["problems"] += u.problems
    r["gen"] = time.time() - t0
    if u.spec.get("native"):
        r["assumed"].append(("the native type %s is read as the mathematical integers: no overflow" % u.spec["native"], name))
    path = os.path.join(gendir, name.replace("@", "_") + ".rs")
    open(path, "w").write(text)
    r["path"] = path
    lines = text.split("\n")
    marks = [re.search(r"// @(.*)$", l) for l in lines]
    r["edges"] = {k: sorted(v) for k, v in u.edges.items()}
    r["ids"] = [c.id for c in u.contracts]
    r["per_fn"] = {}
    for i, m in enumerate(marks):
        k = u.linemap.get(i + 1, ("",))
        if m and not m.group(1).startswith(("assume", "call")) and k[0] == "fn":
            r["per_fn"][k[2]] = r["per_fn"].get(k[2], 0) + 1
    r["lemmas"] = sum(1 for i, l in enumerate(lines) if re.match(r"\s*(pub )?(broadcast )?proof fn ", l) and u.linemap.get(i + 1, ("",))[0] == "lib" and "external_body" not in lines[i - 1])
    r["functions"] = [{"function": c.key or c.name, "name": c.name, "id": c.id, "clauses": len(c.requires) + len(c.ensures) + len(c.exc) + (1 if c.pure is not None else 0), "loops": len(c.loops)} for c, _ in u.chunks]
    r["stubs"] = [l.strip() for l in lines if "// contract proved in unit" in l or "// assumed" in l]
    for i, l in enumerate(lines):
        if "// contract assumed in" in l:
            n = re.search(r"fn (\w+)", lines[i + 1])
            r["assumed"].append(("the contract of %s (%s)" % (n.group(1) if n else "?", l.split("assumed in ")[1]), name))
        kind = u.linemap.get(i + 1, ("",))
        if kind[0] == "lib" and FORBIDDEN.search(l) and "// lemma proved in unit" not in l:
            nxt = lines[i + 1] if "external_body" in l and i + 1 < len(lines) and "fn " not in l else l
            r["assumed"].append((nxt.strip()[:160], "library " + kind[1]))
        m = marks[i]
        if m and m.group(1).startswith("assume"):
            r["assumed"].append((m.group(1), kind[1] if len(kind) > 1 else ""))
    r["obligations"] = r["lemmas"] + sum(r["per_fn"].values())
    r["inlined"] = sorted(u.inlined)
    v = vc.run_verus(path, timeout=timeout)
    r["time"] = v["time"]
    r["verified"] = v.get("verified", 0)
    r["solver"] = smt_time(v)
    if v["status"] in ("timeout", "compile-error"):
        r["status"] = "undecided"
        r["problems"].append((name, v["status"], v["stderr"][-1500:]))
        return r
    if v["status"] == "failed":
        errs = vc.parse_errors(v["stderr"], text, u.linemap)
        for e in errs:
            if "Resource limit" in e["message"] or "rlimit" in e["message"]:
                r["problems"].append((str(e["fn"]), "resource limit", e["excerpt"][:300]))
            elif e["fn"] and e["fn"][0] == "fn":
                r["failed"].append(e)
            else:
                r["problems"].append((str(e["fn"]), "lemma", e["excerpt"][:600]))
        r["status"] = "failed" if r["failed"] else "undecided"
        if not errs:
            r["problems"].append((name, "unparsed failure", v["stderr"][-1500:]))
    if r["problems"] and r["status"] == "ok":
        r["status"] = "undecided"
    if r["status"] == "ok" and (r["obligations"] == 0 or r["verified"] == 0):
        r["status"] = "undecided"
        r["problems"].append((name, "vacuous", "no obligations"))
    if r["status"] == "ok":
        r["probes"] = probe(u, text, name, gendir, timeout)
        if r["probes"]["reachable"] != r["probes"]["contracts"]:
            r["status"] = "undecided"
            r["problems"].append((name, "vacuous precondition", str(r["probes"])))
    return r


def smt_time(v):
    try:
        t = v["json"]["times-ms"]
        return (t.get("smt", {}).get("total", 0) or t.get("verification", {}).get("total", 0)) / 1000.0
    except (KeyError, TypeError, AttributeError):
        return None


def probe(u, text, name, gendir, timeout):
    """every precondition must be satisfiable: `requires P ensures false` has to be rejected"""
    head = text.split("// ---- probes")[0].rsplit("fn main() {}", 1)[0]
    # drop the function bodies: keep libraries and structs only
    keep = []
    for i, l in enumerate(head.split("\n")):
        if u.linemap.get(i + 1, ("",))[0] not in ("fn", "stub"):
            keep.append(l)
    n = 0
    out = []
    seen = set()        # instantiations of one template differ only in a size: one probe each
    for c, t in u.chunks:
        hd = t[t.index("fn " + c.vname):t.index("\n{\n")]
        if "  requires" not in hd:
            continue
        req = hd[hd.index("  requires"):]
        if "  ensures" in req:
            req = req[:req.index("  ensures")]
        shape = re.sub(r"\d+", "0", req)
        if (c.name, shape) in seen:
            continue
        seen.add((c.name, shape))
        sig = hd[:hd.index(")> -> (") if ")> -> (" in hd else hd.index(") -> (")]
        out.append("fn probe_%d%s)\n%s  ensures false\n{}" % (n, sig[len("fn " + c.vname):], req))
        n += 1
    if not n:
        return {"contracts": 0, "reachable": 0}
    # lemmas are already verified with the unit: keep only their declarations out of the probe run
    p = os.path.join(gendir, name.replace("@", "_") + "_probe.rs")
    open(p, "w").write("\n".join(keep) + "\n// ---- probes\nmod probes { use super::*;\n verus! {\n" .replace(" verus! {\n", "") + "\n".join(out) + "\n}\nfn main() {}\n}")
    v = vc.run_verus(p, ["--verify-only-module", "probes"], timeout=timeout)
    if v["status"] in ("timeout", "compile-error"):
        return {"contracts": n, "reachable": -1, "why": v["stderr"][-800:]}
    return {"contracts": n, "reachable": v.get("nerr", 0)}


def needed(cfg, results):
    """the functions the property rests on: its root functions and, through the call edges between contracts, their callees"""
    edges = {}
    for r in results:
        for k, v in r["edges"].items():
            edges.setdefault(k, set()).update(v)
    roots = []
    for r in results:
        if r["unit"] in cfg["units"]:
            roots += [i for i in r["ids"] if not cfg.get("roots") or re.search(cfg["roots"], i)]
    if not roots and cfg["units"] and not any(r["problems"] for r in results):
        raise RuntimeError("no root functions for the property")
    out = set()
    todo = list(roots)
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo += list(edges.get(x, ()))
    return out


# ------------------------------------------------------------------ counterexample search
def compile_driver(pid, cfg, work, tsan=False):
    """-> (executable or None, message)"""
    if tsan:
        work = os.path.join(work, "tsan")
        os.makedirs(work)
    src = os.path.join(ROOT, "drivers", cfg["driver"])
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-DDRV_SAN"] if cfg.get("san", True) else []
    if cfg.get("nosan"):
        san = ["-DNOSAN", "-D_GLIBCXX_ASSERTIONS"]
    if tsan:
        san = ["-fsanitize=thread"]
    base = [CXX, "-O1", "-g", "-w", "-DNDEBUG", "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(ROOT, "drivers"), "-pthread"] + san
    exe = os.path.join(work, "driver")

    def one(s, std):
        o = os.path.join(work, os.path.basename(s) + ".o")
        r = subprocess.run(base + ["-std=" + std, "-c", s, "-o", o], capture_output=True, text=True)
        return o, r
    def build(srcs):
        with ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(one, src, "c++17")] + [ex.submit(one, s, "c++11") for s in srcs]
            res = [f.result() for f in fs]
        bad = [r for _, r in res if r.returncode != 0]
        if bad:
            return False, bad[0].stderr[-2000:]
        r = subprocess.run([CXX] + san + ["-pthread", "-o", exe] + [o for o, _ in res], capture_output=True, text=True)
        return r.returncode == 0, r.stderr[-2000:]
    srcs = [os.path.join(REPO, "src", s) for s in cfg["srcs"]]
    ok, msg = (build(srcs) if all(os.path.exists(s) for s in srcs) else (False, "missing source"))
    if not ok:
        allsrc = sorted(os.path.join(REPO, "src", s) for s in os.listdir(os.path.join(REPO, "src")) if s.endswith(".cpp") and s != "main.cpp" and s not in cfg.get("exclude", []))
        ok, msg = build(allsrc)
    return (exe if ok else None), msg


def search(exe, seconds, seed):
    env = dict(os.environ, UBSAN_OPTIONS="print_stacktrace=1")
    try:
        r = subprocess.run([exe, str(seconds), str(seed)], capture_output=True, text=True, timeout=seconds * 3 + 120, env=env, errors="replace", cwd=os.path.dirname(exe))
    except subprocess.TimeoutExpired:
        return {"status": "timeout", "out": "", "evaluations": 0, "distinct": 0, "samples": []}
    o = r.stdout
    m = re.search(r"DONE evaluations=(\d+) distinct=(\d+)", o)
    res = {"out": o, "err": r.stderr[-4000:], "rc": r.returncode, "evaluations": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0,
           "samples": re.findall(r"^SAMPLE (.*)$", o, re.M)}
    if "\nFAIL " in "\n" + o:
        res["status"] = "fail"
        res["what"] = o[o.index("FAIL "):].strip()
    elif m:
        res["status"] = "ok"
    else:
        res["status"] = "broken"
    return res


# ------------------------------------------------------------------ known findings
def known():
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^KNOWN-FINDING: property=(\w+) (.*)$", l.strip())
            if m:
                out.append((m.group(1), m.group(2)))
    return out


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    cfg = PROPS[pid]
    t0 = time.time()
    vc.extractor()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    gendir = os.path.join(BUILD, "gen", pid)
    os.makedirs(gendir, exist_ok=True)
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    try:
        units = unit_closure(cfg["units"])
        with ThreadPoolExecutor(4) as ex:
            drv = ex.submit(compile_driver, pid, cfg, work) if cfg.get("driver") else None
            drv2 = ex.submit(compile_driver, pid, cfg, work, True) if cfg.get("tsan") else None
            futs = [ex.submit(prove, n, 500, gendir) for n in units]
            results = [f.result() for f in futs]
            exe, msg = drv.result() if drv else (None, "no driver")
            exe2, msg2 = drv2.result() if drv2 else (None, "")
        need = needed(cfg, results)
        for r in results:
            r["needed"] = [i for i in r["ids"] if i in need]
            r["obligations"] = r["lemmas"] + sum(v for k, v in r["per_fn"].items() if k in need)
        other = [(r["unit"], e) for r in results for e in r["failed"] if e["fn"][2] not in need]
        failed = [(r["unit"], e) for r in results for e in r["failed"] if e["fn"][2] in need]
        undecided = [p for r in results for p in r["problems"] if p[1] not in ("attach", "unsupported") or any(i.split(" ")[0] == p[0].split(" ")[0] or i == p[0] for i in need)]
        for r in results:
            if r["status"] == "failed" and not any(u == r["unit"] for u, _ in failed):
                r["status"] = "ok for the functions needed"
        budget = cfg.get("seconds", 10) * (6 if tier == "thorough" else 1)
        if failed or undecided:
            budget = max(budget, cfg.get("deep", 60))
        sr = {"status": "none", "evaluations": 0, "distinct": 0, "samples": []}
        if exe and exe2:        # once with the address sanitizer, once with the thread sanitizer
            with ThreadPoolExecutor(2) as ex:
                a, b = ex.submit(search, exe, budget, SEED), ex.submit(search, exe2, budget, SEED + 1)
                sr, sr2 = a.result(), b.result()
            if sr2["status"] == "fail" and sr["status"] != "fail":
                sr, sr2 = sr2, sr
            sr["evaluations"] += sr2["evaluations"]
            sr["distinct"] += sr2["distinct"]
        elif exe:
            sr = search(exe, budget, SEED)
        replay = os.path.join(rdir, pid + ".txt")
        rc = 0
        print("property %s: %d units, %d obligations, status %s" % (pid, len(units), sum(r["obligations"] for r in results), {r["unit"]: r["status"] for r in results}))
        for p in undecided:
            print("  undecided:", p[0], p[1], str(p[2])[:600].replace("\n", "\n    "))
        for un, e in other:
            print("  failed obligation of a function this property does not rest on:", un, e["fn"][1], "|", e["label"])
        for un, e in failed:
            print("  failed obligation:", un, e["fn"][1] if e["fn"] else "", "|", e["label"], "|", e["message"])
        print("  search: %s %s (%d inputs, %.0f s)" % (sr["status"], "" if exe else msg[-600:], sr["evaluations"], budget))
        if sr["status"] == "fail":
            with open(replay, "w") as f:
                f.write("property %s\n%s\n\nfailed obligations:\n" % (pid, sr["what"]))
                for un, e in failed:
                    f.write("  unit %s function %s: %s (%s)\n" % (un, e["fn"], e["label"], e["message"]))
                f.write("\nsanitizer/stderr:\n%s\n\nreproduce: python3 tool/check.py %s %s with VERIF_SEED=%d (driver drivers/%s)\n" % (sr["err"], pid, tier, SEED, cfg["driver"]))
            print("  " + sr["what"].replace("\n", "\n  "))
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            rc = 1
        elif failed:
            with open(replay, "w") as f:
                f.write("property %s\nfailed obligations (they are discharged on the unchanged tree):\n" % pid)
                for un, e in failed:
                    f.write("== unit %s function %s: %s\n%s\n" % (un, e["fn"], e["label"], e["excerpt"]))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
            rc = 1
        for p, what in known():
            if p == pid and rc == 0:
                print("KNOWN-FINDING: property=%s %s" % (p, what))
        evidence(pid, tier, cfg, results, sr, budget, rc, time.time() - t0, failed, undecided)
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


TRUST = [
    "Verus 0.2026.09 and Z3 as shipped with it",
    "clang 18's parse of the translation unit (flags -std=c++11 -DNDEBUG) and the translation tool/cxx2ir.cpp + tool/ir2verus.py",
    "the readings of the C++ library operations in tool/stdmodel.py (vector, iterator and algorithm semantics of the standard)",
    "containers never exceed 2^47 elements (the address space); allocation failure is not modelled",
]


def evidence(pid, tier, cfg, results, sr, budget, rc, wall, failed, undecided):
    nob = sum(r["obligations"] for r in results)
    bad = len({(u, e["line"], e["label"]) for u, e in failed})
    done = sum(r["obligations"] for r in results if r["status"] != "undecided") - bad
    groups = {}
    for r in results:
        for a, where in r["assumed"]:
            groups.setdefault(a, set()).add(where)
    assumed = ["%s (%s)" % (a, ", ".join(sorted(w)) if len(w) < 4 else "%d functions" % len(w)) for a, w in sorted(groups.items())]
    cov = {
        "obligations": nob, "discharged": max(done, 0), "checker_cmd": "verus build/gen/%s/<unit>.rs --output-json" % pid,
        "trusted_base": TRUST + cfg.get("trust", []) + ["assumed in the proof text: " + a for a in assumed],
        "units": [{"unit": r["unit"], "status": r["status"], "obligations": r["obligations"], "verus_items_verified": r["verified"], "wall_s": round(r["time"], 2), "solver_s": r.get("solver"),
                   "functions_under_contract": [f for f in r["functions"] if f["id"] in r["needed"]], "lemmas": r["lemmas"], "inlined_functions": r.get("inlined", []), "precondition_probes": r.get("probes"),
                   "contracts_imported": r["stubs"], "undecided": [list(map(str, p))[:3] for p in r["problems"]]} for r in results],
        "backend": "Verus (Z3)",
        "search": {"role": "counterexample search on the compiled code against an independent oracle; bounded, not part of the proof", "driver": cfg.get("driver"), "status": sr["status"], "seconds": budget, "samples": sr["samples"]},
        "functions_total": sum(len([f for f in r["functions"] if f["id"] in r["needed"]]) for r in results),
        "evaluations": sr["evaluations"], "distinct_nontrivial": sr["distinct"], "rule": cfg.get("rule", "random and boundary inputs; distinct by printed input"),
    }
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": "exploration" if undecided else cfg.get("level", "proof"), "coverage": cov, "wall_s": round(wall, 2), "result": "violation" if rc else ("held (bounded: the proof could not be redone)" if undecided else "held")}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as ex:     # the machinery itself failed: nothing was decided
        import traceback
        traceback.print_exc()
        print("undecided: internal error")
        sys.exit(0)
