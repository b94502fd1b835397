#!/usr/bin/env python3
"""check.py ID            decide property ID (tier from VERIF_TIER, default quick)
check.py --build       build engine and harness only
check.py --replay F    replay a recorded violation natively
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
B = os.path.join(V, "build")
ENGINE = os.path.join(V, "engine/target/release/symex")
TARGET = os.path.join(B, "target")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
sys.path.insert(0, V)
from props import PROPS  # noqa: E402


def die(msg, code=2):
    print("CHECK-ERROR " + msg, flush=True)
    sys.exit(code)


def tree_hash(root, keep):
    h = hashlib.sha256()
    fs = []
    for d, ds, f in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "tests", "benches", "fuzz", "examples", "docs"))
        for x in f:
            p = os.path.join(d, x)
            if keep(p):
                fs.append(p)
    for p in sorted(fs):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build():
    """engine and harness, from the current sources; under a lock"""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        eh = tree_hash(os.path.join(V, "engine"), lambda p: p.endswith((".rs", ".toml", ".lock")))
        sf = os.path.join(B, "engine.stamp")
        if not os.path.exists(ENGINE) or not os.path.exists(sf) or open(sf).read() != eh:
            r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "engine"), env=ENV, capture_output=True, text=True)
            if r.returncode:
                die("engine build failed\n" + r.stderr[-3000:])
            open(sf, "w").write(eh)
        rh = tree_hash(REPO, lambda p: p.endswith((".rs", ".toml", ".lock", ".html", ".md", ".txt", ".css")) or "/src/" in p)
        hh = tree_hash(os.path.join(V, "harness"), lambda p: p.endswith((".rs", ".toml", ".lock", ".c")))
        key = rh + hh
        sf = os.path.join(B, "harness.stamp")
        old = open(sf).read() if os.path.exists(sf) else ""
        if old != key or not artifacts_ok():
            if os.path.exists(sf):
                os.remove(sf)
            if old[:64] != rh:
                fp = os.path.join(TARGET, "release/.fingerprint")
                if os.path.isdir(fp):
                    for x in os.listdir(fp):
                        if x.startswith("text-document"):
                            shutil.rmtree(os.path.join(fp, x))
            hp = os.path.join(TARGET, "release/deps")
            if os.path.isdir(hp):
                for x in os.listdir(hp):
                    if x.startswith("sxh"):
                        os.remove(os.path.join(hp, x))
                fp = os.path.join(TARGET, "release/.fingerprint")
                for x in os.listdir(fp):
                    if x.startswith("sxh"):
                        shutil.rmtree(os.path.join(fp, x))
            r = subprocess.run(["sh", os.path.join(V, "build.sh")], env=ENV, capture_output=True, text=True)
            if r.returncode:
                die("harness build failed\n" + r.stderr[-4000:])
            open(sf, "w").write(key)
        return time.time() - t0


def artifacts():
    d = os.path.join(TARGET, "release/deps")
    lls = [x for x in os.listdir(d) if x.startswith("sxh-") and x.endswith(".ll")] if os.path.isdir(d) else []
    if len(lls) != 1:
        return None, None
    return os.path.join(d, lls[0]), os.path.join(d, lls[0][:-3])


def artifacts_ok():
    a, b = artifacts()
    return bool(a and os.path.exists(b))


def native(binp, idx, inputs, timeout=60):
    try:
        r = subprocess.run([binp, "replay", str(idx)] + [str(x) for x in inputs], capture_output=True, text=True, timeout=timeout, env=ENV, errors="replace")
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", ""


def native_verdict(rc, out):
    """(violated?, message)"""
    m = re.search(r"REPLAY-VIOLATION (.*)", out)
    if m:
        return True, m.group(1).strip()
    if rc == "timeout":
        return True, "does not terminate"
    if rc == 0 or "REPLAY-DIVERGED" in out or "REPLAY-ASSUME-FALSE" in out:
        return False, out.strip()[-200:]
    m = re.search(r"panicked at ([^\n]*)\n([^\n]*)", out)
    return True, "panic: " + (m.group(1) + " " + m.group(2) if m else "exit %s" % rc)


def known_list(pid):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                d = json.loads(l[9:])
                if d["property"] == pid:
                    out.append(d)
    return out


def known_match(known, harness, v):
    """a listed finding that this violation is an instance of"""
    for d in known:
        hs = d["harness"]
        if harness not in (hs if isinstance(hs, list) else [hs]):
            continue
        if "msg" in d and d["msg"] != v["msg"]:
            continue
        if "at" in d and d["at"] not in v["at"]:
            continue
        ok = True
        for k, allowed in d.get("inputs", {}).items():
            i = int(k)
            if i >= len(v["inputs"]) or v["inputs"][i] not in allowed:
                ok = False
        if ok:
            return d
    return None


def xcheck(dirp, n):
    """second opinion on a sample of the discharged queries"""
    fs = sorted(os.path.join(dirp, x) for x in os.listdir(dirp) if x.endswith(".smt2"))
    agree = tot = 0
    dis = []
    for f in fs:
        txt = open(f).read()
        parts = re.split(r"(?m)^; verdict (sat|unsat)$", txt)
        # parts: [pre, exp, body, exp, body ...]
        for i in range(1, len(parts) - 1, 2):
            if tot >= n:
                return tot, agree, dis
            exp, body = parts[i], parts[i + 1]
            if "; end" not in body:
                continue
            body = body.split("; end")[0]
            p = os.path.join(dirp, "q.tmp")
            open(p, "w").write(body)
            for tool in (["cvc5", "--tlimit=20000", "-q", "--lang", "smt2", p], ["z3-new", "-T:20", p]):
                r = subprocess.run(tool, capture_output=True, text=True)
                a = r.stdout.strip().split("\n")[0]
                if a in ("sat", "unsat"):
                    tot += 1
                    if a == exp:
                        agree += 1
                    else:
                        dis.append((tool[0], exp, a, f))
    return tot, agree, dis


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    if sys.argv[1] == "--build":
        print("build %.1fs" % build())
        return
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        build()
        _, binp = artifacts()
        names = harness_index(binp)
        rc, out = native(binp, names[d["harness"]], d["inputs"])
        print(out)
        bad, msg = native_verdict(rc, out)
        print("violated:", bad, msg)
        sys.exit(1 if bad else 0)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    t0 = time.time()
    bt = build()
    ll, binp = artifacts()
    names = harness_index(binp)
    hs = list(P["quick"])
    if tier == "thorough":
        hs += P.get("thorough", [])
    limit = P.get("time", {}).get(tier, 240 if tier == "quick" else 650)
    limit = max(30, min(limit, 860 - (time.time() - t0)))
    rd = os.path.join(B, "run", pid)
    shutil.rmtree(rd, ignore_errors=True)
    os.makedirs(rd)
    out = os.path.join(rd, "out.json")
    cmd = [ENGINE, ll, "--harness", ",".join(str(names[h]) for h in hs), "--jobs", str(os.cpu_count() or 8), "--time", "%.0f" % limit,
           "--out", out, "--dir", rd, "--samples", "12", "--budget", str(P.get("budget", 60_000_000)), "--maxviol", str(P.get("maxviol", 6)), "--dump", "40" if tier == "quick" else "200"]
    r = subprocess.run(cmd, env=ENV, capture_output=True, text=True)
    if not os.path.exists(out):
        die("engine ended with %s\n%s" % (r.returncode, r.stderr[-2000:]))
    o = json.load(open(out))
    known = known_list(pid)
    viols, fknown, unrep, errors = [], {}, [], []
    cov = []
    tot = {}
    samples = []
    validated = mism = 0
    rdir = os.path.join(B, "replays")
    os.makedirs(rdir, exist_ok=True)
    pool = cf.ThreadPoolExecutor(8)
    for h, res in zip(hs, o["harnesses"]):
        s = res["stats"]
        for k, x in s.items():
            if k.startswith("max") or k == "vars":
                tot[k] = max(tot.get(k, 0), x)
            else:
                tot[k] = tot.get(k, 0) + x
        idx = names[h]
        # ---- violations: group by message and place, replay one of each group
        groups = {}
        for v in res["violations"]:
            k = known_match(known, h, v)
            if k:
                fknown.setdefault(k["id"], []).append((h, v))
                continue
            groups.setdefault((v["msg"], v["at"].split(";")[0]), []).append(v)
        for b in res["over_budget"]:
            inp = [int(x) for x in b.split()] if isinstance(b, str) else b
            groups.setdefault(("instruction budget exceeded", ""), []).append({"inputs": inp, "msg": "instruction budget exceeded", "at": ""})
        for (msg, at), vs in groups.items():
            hit = False
            for v in vs[:4]:
                rc, txt = native(binp, idx, v["inputs"], 20)
                bad, m = native_verdict(rc, txt)
                if bad:
                    p = os.path.join(rdir, "%s-%s-%d.json" % (pid, h, len(viols)))
                    json.dump({"property": pid, "harness": h, "inputs": v["inputs"], "engine": msg, "native": m, "at": v["at"]}, open(p, "w"), indent=1)
                    viols.append((p, h, m, v["inputs"]))
                    hit = True
                    break
            if not hit and msg != "instruction budget exceeded":
                unrep.append((h, msg, vs[0]["inputs"], vs[0]["at"][:300]))
            elif not hit:
                errors.append((h, msg, str(vs[0]["inputs"])))
        for e in res["errors"]:
            errors.append((h, e[:300], ""))
        # ---- validate the engine on a sample of its paths
        smp = res["samples"][: (24 if tier == "quick" else 80)]
        for sm, (rc, txt) in zip(smp, pool.map(lambda sm: native(binp, idx, sm["inputs"]), smp)):
            m = re.search(r"REPLAY-OK ([0-9a-f]+)", txt)
            if m and m.group(1) == sm["digest"]:
                validated += 1
            else:
                mism += 1
                errors.append((h, "engine path does not replay: rc=%s %s" % (rc, txt[-200:]), str(sm["inputs"])))
        missing = [l for l in P.get("labels", {}).get(h, []) if str(l) not in res["labels"]]
        if missing and not res["violations"]:
            errors.append((h, "vacuity: labels %s not reached" % missing, ""))
        if s.get("paths", 0) == 0:
            errors.append((h, "no path completed", ""))
        samples += [{"harness": h, "inputs": x["inputs"], "digest": x["digest"]} for x in res["samples"][:3]]
        cov.append({"harness": h, "paths": s.get("paths", 0), "instructions": s.get("instrs", 0), "checks": s.get("checks_sym", 0) + s.get("checks_conc", 0),
                    "symbolic_checks": s.get("checks_sym", 0), "solver_queries": s.get("queries", 0), "unsat": s.get("unsat", 0), "incomplete": s.get("incomplete", 0), "labels": res["labels"]})
    xt, xa, xd = xcheck(rd, 6 if tier == "quick" else 60)
    for d in xd:
        errors.append(("xcheck", str(d), ""))
    funcs = [f for f in o["functions"] if "text_document" in f or f.startswith("_") is False and "sxh" not in f]
    repo_funcs = sorted(set(f for f in o["functions"] if f.startswith("text_document")))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0),
            "transitions": tot.get("forks", 0) + tot.get("checks_sym", 0) + tot.get("checks_conc", 0),
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "exhaustive": not tot.get("incomplete", 0) and not errors and not viols,
            "explanation": "states = symbolic paths completed; transitions = path splits plus assertions decided; every infeasible branch, exhausted value set and symbolic assertion is an UNSAT verdict of Z3 (queries below, after caching of equal queries); samples of paths were replayed against the natively compiled code and their digests compared",
            "harnesses": cov,
            "bounds": P["bounds"],
            "solver_queries": tot.get("queries", 0), "query_cache_hits": tot.get("cache_hits", 0), "unsat": tot.get("unsat", 0), "sat": tot.get("sat", 0), "solver_unknown": tot.get("unknown", 0),
            "solver_s": round(tot.get("solver_ns", 0) / 1e9, 2),
            "domain_decided_unsat_confirmed": tot.get("dom_unsat", 0),
            "instructions": tot.get("instrs", 0),
            "incomplete_paths": tot.get("incomplete", 0),
            "second_solver_checked": xt, "second_solver_agreed": xa,
            "functions_encoded": len(o["functions"]), "repo_functions_encoded": repo_funcs[:400],
            "known_findings_seen": {k: len(x) for k, x in fknown.items()},
            "errors": [list(e) for e in errors[:20]],
            "build_s": round(bt, 1), "engine_s": o["wall_s"],
        },
        "assumptions": ASSUME + P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for x in os.listdir(rd):
        if x != "out.json":
            os.remove(os.path.join(rd, x))
    print("%s %s: %d harnesses, %d paths, %d queries (%.1fs solver), %d validated, build %.0fs, engine %.0fs" % (pid, tier, len(hs), tot.get("paths", 0), tot.get("queries", 0), tot.get("solver_ns", 0) / 1e9, validated, bt, o["wall_s"]))
    for k in known:
        w = k.get("witness")
        if k["id"] not in fknown and w:
            # not explored in this tier: replay the recorded history against the real code
            bad, m = native_verdict(*native(binp, names[w["harness"]], w["inputs"]))
            if bad and m == k.get("msg", m):
                fknown[k["id"]] = []
        if k["id"] in fknown:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, k["what"], k["id"]))
        else:
            print("note: known finding %s did not show in this run" % k["id"])
    if tot.get("incomplete"):
        print("note: %d paths left unexplored (time limit or enough violations)" % tot["incomplete"])
    for e in errors[:10]:
        print("note: path error:", e)
    for u in unrep[:10]:
        print("note: engine-only violation (not reproduced natively):", u)
    if viols:
        for p, h, m, inp in viols:
            print("violation in %s: %s inputs=%s" % (h, m, inp))
        print("VIOLATION property=%s replay=%s" % (pid, viols[0][0]), flush=True)
        sys.exit(1)
    if unrep:
        die("violations that do not reproduce natively")
    if o["crashed"]:
        die("engine worker crashed: " + r.stderr[-500:])
    fatal = [e for e in errors if e[0] == "xcheck" or "vacuity" in e[1] or "no path completed" in e[1] or "does not replay" in e[1]]
    if fatal:
        die("; ".join(str(e) for e in fatal[:3]))
    if errors and len(errors) * 20 > tot.get("paths", 0):
        die("too many paths ended in an engine error")
    sys.exit(0)


ASSUME = [
    "the LLVM IR that rustc emits (release profile, fat LTO, panic=abort, overflow checks and debug assertions on in the repository crates) is executed, so rustc's lowering is trusted; the symbolic engine is validated by native replay of sampled paths",
    "malloc never fails; the clock is a deterministic stub advanced by the harness; getrandom returns fixed bytes (hash seeds); threads are scheduled cooperatively unless the property explores schedules",
    "values outside the stated bounds are not covered",
]


def harness_index(binp):
    r = subprocess.run([binp, "list"], capture_output=True, text=True)
    return {l.split()[1]: int(l.split()[0]) for l in r.stdout.splitlines() if len(l.split()) == 2}


main()
