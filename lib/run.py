"""Runs one property's check: model checking of the specification, conformance of the real code, evidence, verdict."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time
import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 8


class CheckError(Exception):
    """The check itself could not be carried out: neither held nor violated."""


def tlc(module, cfg, workers, env=None, timeout=600, heap="3g", extra=()):
    meta = tempfile.mkdtemp(prefix="tlc_", dir=tmp())
    gc = "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC"
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", gc, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg, "-metadir", meta, *extra, module]
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return -1, o.decode() if isinstance(o, bytes) else o
    finally:
        shutil.rmtree(meta, ignore_errors=True)


_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="verif_")
    return _tmp


def model_check(module, cfg, timeout, workers):
    t0 = time.time()
    rc, out = tlc(module, os.path.join(SPEC, cfg), workers, timeout=timeout, heap="6g")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    if m is None:   # timed out: last progress line
        ms = re.findall(r"([\d,]+) states generated .*?, ([\d,]+) distinct states found", out)
        gen, dist = (int(x.replace(",", "")) for x in ms[-1]) if ms else (0, 0)
        if rc != -1:
            raise CheckError(f"TLC failed on {module} {cfg}:\n{out[-3000:]}")
        complete = False
    else:
        gen, dist, complete = int(m.group(1)), int(m.group(2)), True
    bad = "Error:" in out and not (rc == -1)
    return dict(module=module, cfg=cfg, transitions=gen, states=dist, complete=complete, wall_s=round(time.time() - t0, 1), error=out[-6000:] if bad else None)


def trace_cfg(enforced, constants, diag):
    f = tempfile.NamedTemporaryFile("w", suffix=".cfg", dir=tmp(), delete=False)
    f.write("CONSTANT Enforced = {%s}\nCONSTANT Diag = %s\n%sSPECIFICATION TraceSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n" % (
        ",".join(f'"{e}"' for e in enforced), "TRUE" if diag else "FALSE", "".join(f"CONSTANT {k} = {v}\n" for k, v in constants.items())))
    f.close()
    return f.name


def validate(spec, trace, enforced, constants=None, diag=False):
    """(accepted lines, total lines, rule text)"""
    cfg = trace_cfg(enforced, constants or {}, diag)
    rc, out = tlc(spec, cfg, 1, env={"TRACE": trace}, timeout=500)
    m = re.search(r'<<"TRACE", (\d+), (\d+)>>', out)
    if m is None:
        raise CheckError(f"TLC failed on trace {trace} with {spec}:\n{out[-4000:]}")
    rules = "; ".join(re.findall(r'<<"RULE", .*>>', out)[-3:])
    if re.search(r"^Error: (?!Postcondition)", out, re.M) and int(m.group(1)) == int(m.group(2)):
        raise CheckError(f"TLC failed on trace {trace} with {spec}:\n{out[-4000:]}")
    return int(m.group(1)), int(m.group(2)), rules


def generate(exe, job, outfile):
    cmd = [exe, "--mode", job["mode"], "--seed", str(job["seed"]), "--first", str(job["first"]), "--runs", str(job["runs"]),
           "--group", str(job.get("group", 50)), "--out", outfile, "--max-lines", str(job.get("max_lines", 50000)), "--seconds", str(job.get("seconds", 120))]
    if job.get("arg"):
        cmd += ["--arg", job["arg"]]
    env = dict(os.environ)
    root = tempfile.mkdtemp(prefix="root_", dir=tmp())
    os.makedirs(os.path.join(root, "dev/shm"), exist_ok=True)
    os.makedirs(os.path.join(root, "tmp"), exist_ok=True)
    env["VSHIM_ROOT"] = root
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("harness did not end: " + " ".join(cmd))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if p.returncode != 0:
        raise CheckError(f"harness failed ({p.returncode}): {' '.join(cmd)}\n{p.stderr[-3000:]}")
    m = re.search(r"runs=(\d+) lines=(\d+)", p.stdout)
    if not m:
        raise CheckError(f"harness gave no summary: {' '.join(cmd)}\n{p.stdout[-500:]}{p.stderr[-1000:]}")
    return cmd, int(m.group(1)), p.stderr[-3000:]


def extract_run(trace, accepted):
    """The run (from its Begin line) that contains the first rejected line."""
    lines = open(trace).read().splitlines()
    k = min(accepted, len(lines) - 1)
    s = k
    while s > 0 and '"e":"Begin"' not in lines[s]:
        s -= 1
    return lines[s:k + 1]


def fingerprint(lines):
    return json.loads(lines[-1]) if lines else {}


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main(prop, registry, tier, seed):
    t0 = time.time()
    c = registry[prop]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=c.get("level", "model_checking"), violations=0)
    cov = {}
    models, violations, samples = [], [], []
    traces = runs = lines = 0
    per_mode = {}
    try:
        jobs = []
        harnesses = sorted({t["harness"] for t in c["traces"]})
        with cf.ThreadPoolExecutor(NCPU) as ex:
            mfut = []
            nm = max(1, len(c["models"]))
            for m in c["models"]:
                if m.get("tier", "quick") == "thorough" and tier != "thorough":
                    continue
                mfut.append(ex.submit(model_check, m["module"], m["cfg"], m.get("timeout", 300 if tier == "quick" else 3000), max(1, NCPU // nm)))
            exes = {h: B.build(h) for h in harnesses}
            models = [f.result() for f in mfut]
        for m in models:
            if m["error"]:
                raise CheckError("the specification itself violates its properties:\n" + m["error"])
        for ti, t in enumerate(c["traces"]):
            n = t.get(tier, t["quick"])
            for k in range(n[0]):
                j = dict(t, ti=ti, seed=seed * 7919 + ti * 101 + t.get("seed0", 0), first=k * n[1], runs=n[1])
                if tier == "quick":
                    j["seconds"] = t.get("seconds_quick", 25)
                jobs.append(j)

        def one(j):
            out = os.path.join(tmp(), f"t{j['ti']}_{j['first']}.ndjson")
            cmd, n, err = generate(exes[j["harness"]], j, out)
            if os.path.getsize(out) == 0:
                raise CheckError("empty trace: " + " ".join(cmd))
            enforced = j.get("enforced", [prop])
            a, tot, _ = validate(j["spec"], out, enforced, j.get("constants"))
            res = dict(job=j, cmd=cmd, runs=n, accepted=a, total=tot, out=out, err=err)
            if a < tot:
                # does it repeat?
                out2 = out + ".again"
                _, _, err2 = generate(exes[j["harness"]], j, out2)
                a2, _, rules = validate(j["spec"], out2, enforced, j.get("constants"), diag=True)
                r1, r2 = extract_run(out, a), extract_run(out2, a2)
                res.update(repeats=a2 < sum(1 for _ in open(out2)), rules=rules, run=r2, err=err2)
            else:
                first = open(out).read(4000).splitlines()[:14]
                res["sample"] = first
                os.unlink(out)
            return res

        with cf.ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(one, jobs))
        known = [k for k in load_known() if k.get("property") == prop and k.get("status", "open") == "open"]
        seen_known = set()
        for r in results:
            runs += r["runs"]
            lines += r["accepted"]
            d = per_mode.setdefault(r["job"]["harness"] + "/" + r["job"]["mode"], dict(files=0, executions=0, lines=0))
            d["files"] += 1
            d["executions"] += r["runs"]
            d["lines"] += r["accepted"]
            if "sample" in r:
                traces += r["runs"]
                if len(samples) < 3 and not any(s["mode"] == r["job"]["mode"] for s in samples):
                    samples.append(dict(mode=r["job"]["mode"], cmd=" ".join(r["cmd"][1:9]), head=r["sample"]))
                continue
            if not r["repeats"]:
                print(f"note: a rejected trace did not repeat and is not reported: {' '.join(r['cmd'])}", file=sys.stderr)
                continue
            k = match_known(known, r)
            if k is not None:
                if k["id"] not in seen_known:
                    print(f"KNOWN-FINDING: property={prop} {k['what']}")
                seen_known.add(k["id"])
                continue
            violations.append(r)
    finally:
        if _tmp and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(_tmp, ignore_errors=True) if not violations else None
    replay = None
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        v = violations[0]
        replay = os.path.join(VERIF, "replays", f"{prop}_{v['job']['harness']}_{v['job']['mode']}_{seed}.ndjson")
        with open(replay, "w") as f:
            f.write("\n".join(v["run"]) + "\n")
        with open(replay + ".txt", "w") as f:
            f.write("The last line of the trace is not a step that %s allows for property %s.\nFailing rule: %s\nProduced by: %s\nstderr of the harness:\n%s\n" % (
                v["job"]["spec"], prop, v["rules"] or "(structure of the step)", " ".join(v["cmd"]), v["err"]))
        if _tmp and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(_tmp, ignore_errors=True)
        for v in violations[:5]:
            print(f"rejected: {v['job']['harness']}/{v['job']['mode']}: {v['run'][-1][:300]}  {v['rules']}")
    cov = dict(states=sum(m["states"] for m in models), transitions=sum(m["transitions"] for m in models),
               traces_validated_against_impl=traces, trace_steps_validated=lines, executions_by_harness_mode=per_mode,
               models=[{k: m[k] for k in ("module", "cfg", "states", "transitions", "complete", "wall_s")} for m in models],
               samples=samples or [dict(rejected=v["run"][-20:]) for v in violations[:1]] or ["none"])
    ev.update(coverage=cov, assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(violations))
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violations:
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    print(f"OK property={prop} tier={tier} states={cov['states']} executions={traces} steps={lines} wall={ev['wall_s']}s")
    return 0


def match_known(known, r):
    last = r["run"][-1]
    for k in known:
        m = k["match"]
        if m.get("mode") and m["mode"] != r["job"]["mode"]:
            continue
        if m.get("harness") and m["harness"] != r["job"]["harness"]:
            continue
        if all(re.search(p, last) for p in m.get("last", [])) and all(any(re.search(p, l) for l in r["run"]) for p in m.get("run", [])):
            return k
    return None
