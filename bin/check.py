#!/usr/bin/env python3
"""Decide one property: check.py C01 [--tier quick|thorough] [--replay FILE]

1. builds the harness against /repo's current working tree,
2. model-checks the TLA+ design modules the property rests on (TLC),
3. lets TLC generate behaviours (one per transition of the bounded state
   graph) and replays them into the code under test,
4. records further histories of the code under test,
5. lets TLC accept or reject every recorded history against the specification.

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
Anything else: the check itself failed.
"""
import sys, os, json, re, subprocess, time, shutil, tempfile, threading, fcntl, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
import plan

SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def build(profile="debug"):
    """debug: with overflow checks and assertions; release: without."""
    os.makedirs(TARGET, exist_ok=True)
    # cargo trusts mtimes; a copied tree may not, so never reuse these crates
    for pat in ("embedded-audio-tools-*", "eat-harness-*"):
        for d in glob.glob(os.path.join(TARGET, profile, ".fingerprint", pat)):
            shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"] + ["--release"] * (profile == "release"),
                       cwd=os.path.join(VERIF, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-4000:])
    return os.path.join(TARGET, profile, "eat-harness")


def tlc(module, cfg, work, env=None, workers=4, timeout=800, extra=(), heap="6g"):
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + work, "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def counts(out):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def model_check(name, work, workers=4):
    """name = module or (module, cfg)."""
    mod, cfg = name if isinstance(name, tuple) else (name, name)
    rc, out = tlc(mod + ".tla", cfg + ".cfg", work, workers=workers)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("design check %s failed (rc %d):\n%s" % (cfg, rc, out[-3000:]))
    g, d = counts(out)
    return {"module": cfg, "states": d, "transitions": g}


def model_refute(name, work):
    """A deliberately wrong design: TLC must find the counterexample."""
    mod, cfg = name
    rc, out = tlc(mod + ".tla", cfg + ".cfg", work, workers=2)
    if "is violated" not in out:
        raise ToolError("wrong design %s was not refuted (rc %d):\n%s" % (cfg, rc, out[-3000:]))
    g, d = counts(out)
    return {"module": cfg + " (wrong design, refuted)", "states": d, "transitions": g}


def prove(mod, work):
    """Inductive invariants and laws over unbounded integers, by Apalache."""
    d = os.path.join(work, "apa")
    os.makedirs(d, exist_ok=True)
    for f in ["apa/%s.tla" % mod, "Limb.tla", "Arith.tla"]:
        shutil.copy(os.path.join(VERIF, "spec", f), d)
    res = []
    for (init, nxt, inv, length, holds) in plan.PROOFS[mod]:
        cmd = ["apalache-mc", "check", "--init=" + init, "--next=" + nxt, "--inv=" + inv,
               "--length=%d" % length, "--out-dir=" + os.path.join(d, "out")]
        if "CInit" in plan.PROOFS_CINIT.get(mod, ""):
            cmd.append("--cinit=" + ("CInitLoud" if init == "IndInitLoud" else "CInit"))
            cmd[2] = "--init=" + init.replace("Loud", "")
        env = dict(os.environ, JVM_ARGS="-Xmx3g", HOME=d)
        try:
            p = subprocess.run(cmd + [mod + ".tla"], cwd=d, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=800)
        except subprocess.TimeoutExpired:
            raise ToolError("Apalache timed out on %s %s" % (mod, inv))
        want = "EXITCODE: OK" if holds else "EXITCODE: ERROR (12)"
        if want not in p.stdout:
            raise ToolError("proof %s %s/%s/%s: expected %s:\n%s" % (mod, init, nxt, inv, want, p.stdout[-2000:]))
        res.append({"module": "%s: %s, %s, %s" % (mod, init, nxt, inv) + ("" if holds else " (wrong design, refuted)"),
                    "states": 0, "transitions": 0})
    return res


def generate(gen, work, path):
    """Run TLC on a generator module; collect the op scripts it prints."""
    mod, cfg = gen
    rc, out = tlc(mod + ".tla", cfg + ".cfg", work, workers=1)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("generator %s failed (rc %d):\n%s" % (cfg, rc, out[-3000:]))
    scripts = sorted({line[5:-1] for line in out.splitlines() if line.startswith('"OPS ')})
    n = len(scripts)
    with open(path, "a") as f:
        f.writelines(x + "\n" for x in scripts)
    if n == 0:
        raise ToolError("generator %s produced nothing" % cfg)
    g, d = counts(out)
    return {"module": cfg, "states": d, "transitions": g, "behaviours": n}


def harness(exe, args, out, timeout):
    try:
        p = subprocess.run([exe] + args + ["--out", out], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("harness timed out: %s" % args)
    crash = out + ".crash"
    if p.returncode == 77:
        lines = open(crash).read().splitlines()
        return None, lines[-1] if lines else "[]"
    if p.returncode != 0:
        raise ToolError("harness failed (%d): %s %s" % (p.returncode, args, p.stderr[-2000:]))
    return json.loads(p.stdout.strip().splitlines()[-1]), None


class Rejected(Exception):
    def __init__(self, h, l, state):
        self.h, self.l, self.state = h, l, state


def validate(trace_mod, path, work, cfg=None, workers=8):
    """TLC accepts every history in path, or Rejected(index, event, state)."""
    rc, out = tlc(trace_mod + ".tla", (cfg or trace_mod) + ".cfg", work, env={"TRACE": path},
                  workers=workers)
    if rc == 0 and "No error has been found" in out:
        return counts(out)
    if "Deadlock reached" in out:
        i = out.rindex("\nState ")
        st = out[i:]
        h = int(re.search(r"^/\\ h = (\d+)", st, re.M).group(1))
        l = int(re.search(r"^/\\ l = (\d+)", st, re.M).group(1))
        st = st.split("\n\n")[0]
        raise Rejected(h, l, st.strip()[:4000])
    raise ToolError("TLC failed on %s (rc %d):\n%s" % (trace_mod, rc, out[-3500:]))


def known_for(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p))["findings"]:
            if k["property"] == prop and k.get("status") == "known":
                res.append(k)
    return res


def matches(k, hist):
    """A known finding is identified by the exact failing call: the history's
    last event has all listed field values and the argument lies in range."""
    e = hist[-1]
    m = k["match"]
    for f, v in m.get("equal", {}).items():
        if e.get(f) != v:
            return False
    for f, (lo, hi) in m.get("range", {}).items():
        x = e.get(f)
        if isinstance(x, list):
            x = x[0]
        if not isinstance(x, int) or not (lo <= x <= hi):
            return False
    return True


def main():
    t0 = time.time()
    prop = sys.argv[1]
    a = sys.argv[2:]
    opt = lambda k, d=None: a[a.index(k) + 1] if k in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    P = plan.PLAN[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
    lock = open(os.path.join(BUILD, "lock"), "w")
    rc = 2
    try:
        fcntl.flock(lock, fcntl.LOCK_EX)
        exe0 = build()
        exe = os.path.join(work, "harness")
        shutil.copy(exe0, exe)
        if P.get("release") or (P.get("release_thorough") and tier == "thorough"):
            shutil.copy(build("release"), exe + ".release")
        fcntl.flock(lock, fcntl.LOCK_UN)
        rc = run(prop, P, tier, seed, exe, work, t0, opt("--replay"))
    except ToolError as e:
        log("ERROR", e)
        rc = 2
    finally:
        if "--keep" in a:
            log("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def report(prop, P, exe, work, script, hist, l, state, why, build_of="debug"):
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s.json" % prop)
    ev = hist[l - 1] if hist and l and l <= len(hist) else None
    json.dump({"property": prop, "domain": P["domain"], "build": build_of, "script": script, "why": why,
               "rejected_event_index": l, "rejected_event": ev, "spec_state": state,
               "history": hist}, open(path, "w"), indent=1)
    log("rejected: %s" % json.dumps(ev)[:600])
    if state:
        log("specification state before it:\n%s" % state[:1500])
    log("VIOLATION property=%s replay=%s" % (prop, path))


def run(prop, P, tier, seed, exe, work, t0, replay):
    thorough = tier == "thorough"
    mod = P["trace"]
    cfg = P.get("cfg")

    # ------------------------------------------------------------ replay only
    if replay:
        r = json.load(open(replay))
        src = os.path.join(work, "in")
        open(src, "w").write(r["script"] + "\n")
        out = os.path.join(work, "replay.nd")
        x = exe
        if r.get("build") == "release":
            x = exe + ".release"
            if not os.path.exists(x):
                shutil.copy(build("release"), x)
        st, crash = harness(x, ["replay", r["domain"], "--in", src], out, 120)
        if crash:
            log("crash:", crash)
            log("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        try:
            validate(mod, out, work, cfg)
        except Rejected as e:
            hist = json.loads(open(out).read().splitlines()[e.h - 1])
            log("rejected:", json.dumps(hist[e.l - 1]))
            log(e.state)
            log("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        log("replay accepted")
        return 0

    # ------------------------------------- design model, in the background
    mcs = list(P.get("mc", [])) + (list(P.get("mc_thorough", [])) if thorough else [])
    mc_res, mc_err = [], []

    def bg():
        try:
            for m in mcs:
                mc_res.append(model_check(m, work, workers=3))
            for m in P.get("mc_neg", []):
                mc_res.append(model_refute(m, work))
            for m in P.get("apa", []) if thorough else []:
                mc_res.extend(prove(m, work))
        except Exception as e:
            mc_err.append(e)

    th = threading.Thread(target=bg)
    th.start()
    stats = {"generated": None, "recorded": None}
    viol = None
    known_hits = []
    batches = []
    gens = list(P.get("gen", [])) + (list(P.get("gen_thorough", [])) if thorough else [])
    gen_res = []
    try:
        if gens:
            src = os.path.join(work, "gen.ops")
            for g in gens:
                gen_res.append(generate(g, work, src))
            out = os.path.join(work, "gen.nd")
            st, crash = harness(exe, ["replay", P["domain"], "--in", src], out, 300)
            batches.append(("generated", out, st, crash))
        out = os.path.join(work, "rec.nd")
        st, crash = harness(exe, ["record", prop, "--seed", str(seed), "--tier", tier], out,
                            700 if not thorough else 3000)
        batches.append(("recorded", out, st, crash))
        # the same without overflow checks and assertions, as on a device
        if os.path.exists(exe + ".release"):
            if gens:
                out = os.path.join(work, "genw.nd")
                st, crash = harness(exe + ".release", ["replay", P["domain"], "--in", src], out, 300)
                batches.append(("generated-release", out, st, crash))
            out = os.path.join(work, "recw.nd")
            st, crash = harness(exe + ".release", ["record", prop, "--seed", str(seed), "--tier", tier], out,
                                700 if not thorough else 3000)
            batches.append(("recorded-release", out, st, crash))

        tstates = tdist = nh = nev = 0
        kinds = {}
        samples = []
        for (name, out, st, crash) in batches:
            if crash:
                viol = (crash, None, None, None, "the code under test crashed or hung")
                hist = json.loads(crash)
                script = open(out + ".cur").read() if os.path.exists(out + ".cur") else ""
                log("crash in %s: %s" % (name, json.dumps(hist[-1])[:400]))
                report(prop, P, exe, work, script, hist, len(hist), None,
                       "the code under test crashed or hung", "release" if name.endswith("-release") else "debug")
                return finish(prop, P, tier, seed, t0, th, mc_res, mc_err, gen_res, batches, 0, 0,
                              {}, [], 1, known_hits)
            stats[name] = st
            lines = open(out).read().splitlines()
            scripts = open(out + ".ops").read().splitlines()
            ks = known_for(prop)
            keepl, keeps, knl, kns = [], [], [], []
            for ln, sc in zip(lines, scripts):
                if "HARNESS" in ln and '"k":"panic"' in ln:
                    raise ToolError("harness bug: " + ln[-400:])
                if ks and '"panic"' in ln:
                    hst = json.loads(ln)
                    hit = [k for k in ks if matches(k, hst)]
                    if hit:
                        knl.append((ln, sc, hit[0]))
                        continue
                keepl.append(ln)
                keeps.append(sc)
            # listed findings: TLC must still be the one to reject them
            seen = set()
            for (ln, sc, k) in knl:
                if k["id"] in seen:
                    continue
                seen.add(k["id"])
                f = os.path.join(work, "known.nd")
                open(f, "w").write(ln + "\n")
                try:
                    validate(mod, f, work, cfg, workers=1)
                except Rejected:
                    known_hits.append(k)
                    log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            chunk = 12000
            for c0 in range(0, len(keepl), chunk):
                part = keepl[c0:c0 + chunk]
                f = os.path.join(work, "part.nd")
                open(f, "w").write("\n".join(part) + "\n")
                try:
                    g, d = validate(mod, f, work, cfg)
                except Rejected as e:
                    hist = json.loads(part[e.h - 1])
                    script = keeps[c0 + e.h - 1]
                    if not P.get("nondet"):
                        # confirm by executing the script again
                        src = os.path.join(work, "again.ops")
                        open(src, "w").write(script + "\n")
                        o2 = os.path.join(work, "again.nd")
                        x = exe + ".release" if name.endswith("-release") else exe
                        _, cr = harness(x, ["replay", P["domain"], "--in", src], o2, 120)
                        if not cr:
                            try:
                                validate(mod, o2, work, cfg, workers=1)
                                # accepted in a fresh process: the library takes no
                                # input but its arguments, so either state leaks from
                                # one history into the next (the whole batch run again
                                # fails at the same place), or this check is wrong
                                args = (["replay", P["domain"], "--in", os.path.join(work, "gen.ops")]
                                        if name.startswith("generated") else
                                        ["record", prop, "--seed", str(seed), "--tier", tier])
                                harness(x, args, o2, 3000)
                                again = open(o2).read().splitlines()
                                ks2 = open(o2 + ".ops").read().splitlines()
                                idx = lines.index(part[e.h - 1])
                                if idx >= len(again) or ks2[idx] != script or again[idx] != part[e.h - 1]:
                                    raise ToolError("rejection did not reproduce: " + script[:2000])
                                log("(rejected only after the histories before it in the same process)")
                            except Rejected:
                                pass
                    report(prop, P, exe, work, script, hist, e.l, e.state,
                           "TLC rejects the history: no action of the specification explains this event",
                           "release" if name.endswith("-release") else "debug")
                    return finish(prop, P, tier, seed, t0, th, mc_res, mc_err, gen_res, batches,
                                  tstates, nh, kinds, samples, 1, known_hits)
                tstates += g
                tdist += d
            nh += len(keepl)
            for ln in keepl:
                for m in re.finditer(r'\{"o":"(\w+)"[^{}]*?"k":"(\w+)"', ln):
                    kk = m.group(1) + ":" + m.group(2)
                    kinds[kk] = kinds.get(kk, 0) + 1
            for i in (0, len(keepl) // 2):
                if keepl:
                    samples.append({"batch": name, "script": keeps[i][:300],
                                    "events": keepl[i][:400]})
        return finish(prop, P, tier, seed, t0, th, mc_res, mc_err, gen_res, batches, tstates, nh,
                      kinds, samples, 0, known_hits)
    finally:
        th.join()


def finish(prop, P, tier, seed, t0, th, mc_res, mc_err, gen_res, batches, tstates, nh, kinds,
           samples, viol, known_hits):
    th.join()
    if mc_err and not viol:
        raise ToolError(str(mc_err[0]))
    st = {b[0]: b[2] for b in batches if b[2]}
    cov = {
        "states": sum(m["states"] for m in mc_res) + sum(m["states"] for m in gen_res),
        "transitions": sum(m["transitions"] for m in mc_res) + sum(m["transitions"] for m in gen_res),
        "traces_validated_against_impl": nh,
        "trace_states": tstates,
        "design_models": mc_res,
        "generators": gen_res,
        "harness": st,
        "events_by_kind": kinds,
        "known_findings_hit": [k["id"] for k in known_hits],
        "samples": samples[:4] or [{"note": "stopped at the first rejection"}],
        "bounds": P.get("bounds", ""),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": viol,
          "assumptions": P.get("assumptions", [])}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if not viol:
        log("OK %s: %d design states, %d histories accepted (%d trace states), %.1fs" % (
            prop, cov["states"], nh, tstates, time.time() - t0))
    return viol


if __name__ == "__main__":
    main()
