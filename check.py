#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current working tree.

Compiles /repo's sources and the property's harnesses to LLVM IR, executes them
symbolically (build/symx, Z3 decides every branch and assertion), replays every
counterexample against a native build, and writes evidence/PROPERTY.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
"""
import concurrent.futures as cf
import json, os, resource, shutil, signal, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vk import build as B
from vk import spec

ASAN_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1",
                UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=78")


def run_native(exe, infile, scratch, tmo=30, asan=False):
    """-> (outcome, text); outcome: ok, fail, crash, hang"""
    wd = tempfile.mkdtemp(dir=scratch)

    def lim():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
        if not asan:
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))

    p = subprocess.Popen([exe, infile], cwd=wd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, preexec_fn=lim, env=ASAN_ENV)
    try:
        _, err = p.communicate(timeout=tmo)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        shutil.rmtree(wd, ignore_errors=True)
        return "hang", "still running after %d s" % tmo
    shutil.rmtree(wd, ignore_errors=True)
    t = err.decode(errors="replace")
    if p.returncode == 0:
        return "ok", t
    if p.returncode == 77:
        return "fail", t
    return "crash", "exit status %d\n" % p.returncode + t


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier != "thorough":
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = int(os.environ.get("VK_JOBS", "0")) or min(8, os.cpu_count() or 8)
    P = spec.PROPS[prop]
    t0 = time.time()
    budget = spec.BUDGET[tier]
    B.engine()
    d = tempfile.mkdtemp(prefix="vk-%s-" % prop)
    replays = os.path.join(B.BUILD, "replay")
    os.makedirs(replays, exist_ok=True)
    rc = 0
    try:
        rc = decide(prop, P, tier, seed, jobs, d, replays, t0, budget)
    finally:
        if not os.environ.get("VK_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)


def decide(prop, P, tier, seed, jobs, d, replays, t0, budget):
    hs = [h for h in P["harnesses"] if tier in h["tiers"]]
    ex = cf.ThreadPoolExecutor(8)
    fr = ex.submit(B.ir_repo, d)
    fh = {}
    for n, h in enumerate(hs):
        h["name"] = "%s%d" % (os.path.splitext(os.path.basename(h["src"]))[0], n)
        fh[n] = ex.submit(B.ir_harness, d, os.path.join(B.VERIF, "harness", h["src"]), h["defs"], h["name"])
    fa = {a: ex.submit(B.ir_app, d, a) for a in sorted({a for h in hs for a in h["apps"]})}
    bcs = fr.result()
    abc = {a: f.result() for a, f in fa.items()}
    hbc = {n: f.result() for n, f in fh.items()}
    # native build in the background, for the replays
    fnat = {n: None for n in hbc}
    natlib = ex.submit(B.native_lib, d, "plain")

    tot = {}
    fns, covers, inc, unconf, viols, known, samples, mism = {}, {}, [], [], [], [], [], []
    pathrec = []
    hinfo = []
    missing = []
    for n, h in enumerate(hs):
        left = budget - (time.time() - t0)
        if left < 20:
            inc.append({"harness": h["name"], "why": "not run: time budget of the tier used up"})
            hinfo.append({"harness": h["src"], "defs": h["defs"], "complete": False, "why": "time budget"})
            continue
        tl = min(h["t"], left)
        out = os.path.join(d, h["name"] + ".jsonl")
        open(out, "w").close()
        cmd = [B.SYMX, hbc[n]] + [abc[a] for a in h["apps"]] + bcs + ["-o", out, "-j", str(jobs), "-t", str(int(tl)), "-v", "24"]
        if h.get("steps"):
            cmd += ["-s", str(h["steps"])]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
        try:
            _, err = p.communicate(timeout=tl + 90)
            erc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            _, err = p.communicate()
            erc = -1
        hc, st, done, hv = set(), {}, None, []
        hinc = 0
        for l in open(out, errors="replace"):
            try:
                x = json.loads(l)
            except ValueError:
                continue
            ty = x["type"]
            if ty == "violation":
                hv.append(x)
            elif ty == "cover":
                hc.add(x["msg"])
            elif ty == "incomplete":
                hinc += 1
                if len(inc) < 40:
                    inc.append({"harness": h["name"], "why": x["msg"], "at": x.get("loc", "")[:200]})
            elif ty == "path":
                pathrec.append((n, x))
            elif ty == "stats":
                for k, v in x.items():
                    if k != "type":
                        st[k] = st.get(k, 0) + v
            elif ty == "fn":
                if "/repo/" in x["file"] or x["file"].startswith(B.REPO):
                    fns[x["name"]] = fns.get(x["name"], 0) + x["calls"]
            elif ty == "done":
                done = x
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
        for c in hc:
            covers[c] = covers.get(c, 0) + 1
        complete = done is not None and not done["stop"] and not hinc and erc == 0 and not st.get("ended_incomplete") \
            and not st.get("unknown") and not st.get("approx")
        if done is None:
            inc.append({"harness": h["name"], "why": "the engine ended early (status %s): %s" % (erc, err.decode(errors="replace")[-300:])})
        hinfo.append({"harness": h["src"], "defs": h["defs"], "bounds": h["bounds"], "complete": complete,
                      "paths": st.get("paths", 0), "queries": st.get("queries", 0),
                      "assertions_checked": st.get("asserts", 0),
                      "solver_s": round(st.get("solver_s", 0), 2), "wall_s": round(done["wall"], 2) if done else None,
                      "covers": sorted(hc), "expected_finding": h.get("known")})
        # --- replay
        seen = {}
        for x in hv:
            key = (x["kind"], x["msg"])
            if seen.get(key) == "done" or seen.get(key, 0) == 3:
                continue
            seen[key] = seen.get(key, 0) + 1
            num = len(viols) + len(unconf) + len(known)
            f = os.path.join(replays, "%s-%s-%d.in" % (prop, h["name"], num))
            with open(f, "w") as o:
                for nm, v in x.get("inputs", []):
                    o.write("%s %s\n" % (nm.replace(" ", "_"), v))
            src = os.path.join(B.VERIF, "harness", h["src"])
            text, how = "", None
            try:
                natlib.result()
                exe = B.native(d, src, h["defs"], h["name"], "plain", h["apps"])
                r, text = run_native(exe, f, d)
                if r in ("fail", "crash") or (r == "hang" and x["kind"] in ("nontermination", "resource")):
                    how = "plain build: " + r
                elif h.get("asan", True):
                    exe = B.native(d, src, h["defs"], h["name"], "asan", h["apps"])
                    r2, t2 = run_native(exe, f, d, 60, True)
                    if r2 in ("fail", "crash"):
                        how, text = "sanitizer build: " + r2, t2
            except B.BuildError as e:
                text = str(e)
            rec = {"harness": h["src"], "defs": h["defs"], "kind": x["kind"], "msg": x["msg"], "loc": x["loc"],
                   "inputs": x.get("inputs", []), "reproduced": how, "replay_output": text[-1500:]}
            with open(f, "a") as o:
                o.write("# harness %s %s\n# %s: %s\n# at %s\n# %s\n" % (
                    h["src"], " ".join("-D" + z for z in h["defs"]), x["kind"], x["msg"], x["loc"], how or "not reproduced natively"))
            rec["replay"] = f
            if how:
                seen[key] = "done"
                if h.get("known"):
                    known.append(rec)
                else:
                    viols.append(rec)
            else:
                unconf.append(rec)
        if h.get("known"):
            if any(k["defs"] == h["defs"] and k["harness"] == h["src"] for k in known):
                print("KNOWN-FINDING: property=%s %s" % (prop, h["known"]))
        elif not viols:
            for c in h["covers"]:
                if c not in hc:
                    missing.append("%s: %s" % (h["name"], c))
        if len(viols) >= 3:
            break

    # --- a sample of finished paths against the native build
    validated = 0
    if pathrec and not viols:
        byh = {}
        for n, x in pathrec:
            byh.setdefault(n, []).append(x)
        for n, xs in byh.items():
            if hs[n].get("known") or time.time() - t0 > budget + 60:
                continue
            try:
                natlib.result()
                exe = B.native(d, os.path.join(B.VERIF, "harness", hs[n]["src"]), hs[n]["defs"], hs[n]["name"], "plain", hs[n]["apps"])
            except B.BuildError as e:
                mism.append(str(e)[-500:])
                continue
            step = max(1, len(xs) // 8)
            for x in xs[::step][:10]:
                f = os.path.join(d, "path.in")
                with open(f, "w") as o:
                    for nm, v in x.get("inputs", []):
                        o.write("%s %s\n" % (nm.replace(" ", "_"), v))
                r, text = run_native(exe, f, d)
                if r == "ok" and "SX-ASSUME" not in text:
                    validated += 1
                    if len(samples) < 6:
                        samples.append({"harness": hs[n]["src"], "inputs": x["inputs"][:40], "native": "all assertions held"})
                else:
                    mism.append({"harness": hs[n]["name"], "inputs": x["inputs"][:60], "native": r, "text": text[-300:]})
    for v in viols:
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        print("  %s: %s\n  at %s\n  inputs: %s\n  %s" % (v["kind"], v["msg"], v["loc"],
              " ".join("%s=%s" % (a, b) for a, b in v["inputs"][:40]), v["reproduced"]))
    cov = {
        "states": int(tot.get("forks", 0) + len(hinfo)),
        "transitions": int(tot.get("steps", 0)),
        "traces_validated_against_impl": validated + sum(1 for v in viols + known),
        "samples": samples or [v for v in (viols + known)[:3]] or [{"note": "no finished path"}],
        "exhaustive": all(h.get("complete") for h in hinfo),
        "explanation": "states: symbolic states forked; transitions: IR instructions executed symbolically; "
                       "traces_validated: solver models of finished paths (and counterexamples) re-run on a native build of /repo. "
                       "exhaustive: every path within the stated bounds finished and every query was answered.",
        "functions_encoded": sorted(fns),
        "paths_finished": int(tot.get("paths", 0)),
        "paths_cut_by_assumption": int(tot.get("ended_assume", 0)),
        "solver_queries": int(tot.get("queries", 0)),
        "assertions_checked": int(tot.get("asserts", 0)),
        "assertion_queries": int(tot.get("assert_queries", 0)),
        "solver_unknown": int(tot.get("unknown", 0)),
        "concretisations": int(tot.get("approx", 0)),
        "solver_s": round(tot.get("solver_s", 0), 2),
        "harnesses": hinfo,
        "covers": covers,
        "incomplete": inc[:40],
        "unreproduced_counterexamples": unconf[:20],
        "engine_native_mismatches": mism[:10],
        "known_findings": known,
        "violations_found": viols[:10],
        "missing_witnesses": missing,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": P.get("assumptions", []) + spec.COMMON,
          "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(os.path.join(B.VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(B.VERIF, "evidence", "." + prop + ".tmp")
    with open(tmp, "w") as o:
        json.dump(ev, o, indent=1)
    os.replace(tmp, os.path.join(B.VERIF, "evidence", prop + ".json"))
    print("%s %s: %d paths, %d queries (%.1f s solver), %d assertions, %d traces replayed, %d violations, %d unreproduced, %s, %.1f s" % (
        prop, tier, tot.get("paths", 0), tot.get("queries", 0), tot.get("solver_s", 0), tot.get("asserts", 0), validated,
        len(viols), len(unconf), "complete within bounds" if cov["exhaustive"] else "NOT complete", time.time() - t0))
    if viols:
        return 1
    if missing:
        print("check error: witnesses not reached: " + "; ".join(missing), file=sys.stderr)
        for i in inc[:10]:
            print("  ", i, file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    try:
        main()
    except Exception as e:  # no answer, neither 0 nor 1
        print("check error: %s" % e, file=sys.stderr)
        sys.exit(2)
