#!/usr/bin/env python3
"""Decides one property.

  checks/check.py C05 [--tier quick|thorough] [--seed N]      (defaults: VERIF_TIER, VERIF_SEED)
  checks/check.py C05 --replay FILE                           judge the case of a replay file again

 1. TLC explores the bounded models of the property (spec/MC*.tla): their invariants must hold, and
    they write out cases, one per transition.
 2. Those cases, a sample if there are many, and random ones (gen.py) are executed by the real code
    (harness/, built from /repo's working tree); every execution is recorded.
 3. TLC validates the recorded executions against the specification (spec/Trace.tla).

Exit 0: the property held on everything explored. Exit 1 and a line "VIOLATION property=<id>
replay=<path>": some recorded execution contradicts the specification. Exit 2: tool error.
"""
import argparse, fcntl, hashlib, json, os, random, re, resource, shutil, subprocess, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
OUT = os.path.join(ROOT, "out")
TLA = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"
HARNESS = os.path.join(TARGET, "debug", "fuelspec-harness")
TWIN = os.path.join(TARGET, "twin", "debug", "fuelspec-twin")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import gen, models

NCPU = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    pass


def note(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------------ building
def cargo(crate, target):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, crate), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError(f"building {crate} failed\n{r.stdout[-4000:]}")


def build_code(prop, work):
    """the binaries of this run, copied so that a concurrent build cannot replace them"""
    global HARNESS, TWIN
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        cargo("harness", TARGET)
        HARNESS = shutil.copy(HARNESS, os.path.join(work, "harness"))
        if prop == "C27":
            cargo("twin", os.path.join(TARGET, "twin"))
            TWIN = shutil.copy(TWIN, os.path.join(work, "twin"))


def build_java():
    cls = os.path.join(TARGET, "tlc")
    os.makedirs(cls, exist_ok=True)
    with open(os.path.join(cls, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        src, dst = os.path.join(SPEC, "Prim.java"), os.path.join(cls, "Prim.class")
        if os.path.exists(dst) and os.path.getmtime(dst) > os.path.getmtime(src):
            return
        r = subprocess.run(["javac", "-nowarn", "-d", cls, "-cp", f"{TLA}:{COMM}", src], capture_output=True, text=True)
        if r.returncode:
            raise ToolError("javac failed\n" + r.stdout + r.stderr)


# ------------------------------------------------------------------------------------ TLC
def tlc(module, cfg, work, name, heap, workers, limit, extra=()):
    path = os.path.join(work, name + ".cfg")
    open(path, "w").write(cfg)
    meta = os.path.join(work, name + ".meta")
    cmd = ["java", f"-Xmx{heap}", "-Xss256m", "-XX:+UseParallelGC", "-cp", f"{os.path.join(TARGET, 'tlc')}:{TLA}:{COMM}", "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", path, *extra, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        raise ToolError(f"TLC on {module} ran for more than {limit} s")
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    gen_, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return rc, out, gen_, dist


def run_model(m, work, tier, k):
    """one bounded model: (info, cases)"""
    casefile = os.path.join(work, f"model{k}.cases")
    cfg = models.cfg(m, tier, casefile)
    t0 = time.time()
    rc, out, g, d = tlc(m["module"], cfg, work, f"model{k}", "3g" if tier == "quick" else "6g", 4 if tier == "quick" else NCPU, 600 if tier == "quick" else 5400)
    if rc != 0 or "Model checking completed. No error has been found" not in out:
        raise ToolError(f"the model {m['module']} ({m.get('name', '')}) does not satisfy its own properties or cannot be evaluated\n" + out[-6000:])
    cases = sorted(set(open(casefile).read().splitlines())) if os.path.exists(casefile) else []
    if m.get("op"):
        # the same case, executed in another way
        extra = {"op": m["op"], **({"ty": "tx"} if m["op"] == "relate" else {})}
        cases = [json.dumps({**c, **extra}) for c in map(json.loads, cases) if c.get("tx", {}).get("k") in m.get("kinds", [c.get("tx", {}).get("k")])]
    consts = models.constants(m, tier)
    note(f"model {m['module']} {consts}: {d} states, {g} transitions, {len(cases)} cases, {time.time() - t0:.1f} s")
    return dict(module=m["module"], constants=consts, invariants=m.get("inv", []) + m.get("prop", []), states=d, transitions=g, cases=len(cases), wall_s=round(time.time() - t0, 1)), cases


# ------------------------------------------------------------------------------------ executing
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


STALL = 60
gave_up = [0]


def count_lines(path):
    try:
        with open(path, "rb") as f:
            return sum(b.count(b"\n") for b in iter(lambda: f.read(1 << 20), b""))
    except FileNotFoundError:
        return 0


def execute(cases, work, name):
    """records of the real code; a case that kills the process or hangs gets a synthetic record"""
    cf, tf = os.path.join(work, name + ".cases"), os.path.join(work, name + ".trace")
    with open(cf, "w") as f:
        f.writelines(c + "\n" for c in cases)
    open(tf, "w").close()
    while True:
        done = count_lines(tf)
        if done >= len(cases):
            break
        p = subprocess.Popen([HARNESS, "exec", cf, tf, str(done)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limits)
        err = []
        t = threading.Thread(target=lambda: err.append(p.stderr.read().decode("utf8", "replace")))
        t.start()
        last, since, why = (os.path.getsize(tf)), time.time(), None
        while p.poll() is None:
            time.sleep(0.02)
            size = os.path.getsize(tf)
            if size != last:
                last, since = size, time.time()
            elif time.time() - since > STALL:
                p.kill()
                why = "no answer"
        p.wait()
        t.join()
        if p.returncode == 0 and why is None:
            if count_lines(tf) < len(cases):
                raise ToolError("the harness stopped early")
            break
        if p.returncode == 2 and why is None:
            raise ToolError("harness: " + "".join(err)[-3000:])
        # the case that was being executed; a partial line is not counted and is cut off
        data = open(tf, "rb").read()
        cut = data.rfind(b"\n") + 1
        n = data.count(b"\n")
        case = json.loads(cases[n])
        case["obs"] = {"panic": why or f"abort: the process died ({p.returncode}) {''.join(err)[-200:]}"}
        with open(tf, "wb") as f:
            f.write(data[:cut] + (json.dumps(case) + "\n").encode())
        gave_up[0] += 1
        if gave_up[0] >= 4:
            # enough to report; the rest of this chunk stays unexecuted
            break
    return open(tf).read().splitlines()


def run_cases(prop, cases, work):
    nchunk = 1 if len(cases) < 200 else NCPU
    chunks = [cases[k::nchunk] for k in range(nchunk)]
    with ThreadPoolExecutor(nchunk) as ex:
        res = list(ex.map(lambda kc: execute(kc[1], work, f"run{kc[0]}"), enumerate(chunks)))
    recs = [r for rs in res for r in rs]
    if prop == "C27":
        a, b = os.path.join(work, "twin.in"), os.path.join(work, "twin.out")
        open(a, "w").writelines(r + "\n" for r in recs)
        r = subprocess.run([TWIN, a, b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=limits, timeout=800)
        if r.returncode == 2:
            raise ToolError("twin: " + r.stdout[-3000:])
        recs = open(b).read().splitlines()[:len(recs)] + recs[count_lines(b):]
    return recs


# ------------------------------------------------------------------------------------ judging
def steps_of(rec):
    o = rec["obs"]
    return len(o["tr"]) if rec["op"] == "life" and isinstance(o, dict) and "tr" in o else 1


def judge(prop, lines, work, name="trace"):
    """validate recorded executions: ({index: [messages]}, states, transitions)"""
    fails, states, trans = {}, 0, 0
    CH = 12000
    for base in range(0, len(lines), CH):
        idx = list(range(base, min(base + CH, len(lines))))
        for attempt in range(12):
            tf, ff = os.path.join(work, f"{name}.ndjson"), os.path.join(work, f"{name}.fails")
            open(tf, "w").writelines(lines[k] + "\n" for k in idx)
            if os.path.exists(ff):
                os.remove(ff)
            cfg = (f'CONSTANTS Prop = "{prop}" TraceFile = "{tf}" FailFile = "{ff}" Lanes = 64\n'
                   "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
            rc, out, g, d = tlc("Trace", cfg, work, name, "8g", NCPU, 3000)
            if rc == 0:
                break
            # an observation of a shape that the specification has no meaning for
            m = re.findall(r"^(?:/\\ )?i = (\d+)", out, re.M)
            if not m:
                raise ToolError("TLC cannot validate the recorded executions\n" + out[-6000:])
            bad = idx.pop(int(m[-1]) - 1)
            fails[bad] = ["outside the specification: " + (re.findall(r"(?:Error: |The error.*:\n)(.*)", out) or [""])[0][:200]]
        else:
            # more of them than it pays to separate
            note(f"{len(idx)} recorded executions were not validated")
            continue
        want = sum(steps_of(json.loads(lines[k])) + 1 for k in idx)
        if d != want:
            raise ToolError(f"trace validation visited {d} states instead of {want}\n" + out[-2000:])
        states, trans = states + d, trans + g
        if os.path.exists(ff):
            for l in open(ff, errors="replace"):
                # (a panic message may continue on further lines)
                m = re.match(r"(\d+)\t(.*)", l)
                if m:
                    fails.setdefault(idx[int(m.group(1)) - 1], []).append(m.group(2))
        os.remove(tf)
    return fails, states, trans


def count_verdicts(o, acc):
    """how often the code succeeded, and with which errors it failed"""
    if isinstance(o, dict):
        r = o.get("r")
        if "panic" in o:
            acc["panic"] = acc.get("panic", 0) + 1
        elif r in ("ok", "err", "none"):
            e = o.get("err")
            n = e["e"] if isinstance(e, dict) and "e" in e else r
            acc[n] = acc.get(n, 0) + 1
        for v in o.values():
            count_verdicts(v, acc)
    elif isinstance(o, list):
        for v in o:
            count_verdicts(v, acc)


def case_key(rec):
    return hashlib.sha256(json.dumps({k: v for k, v in rec.items() if k != "obs"}, sort_keys=True).encode()).hexdigest()[:16]


def known(prop):
    """open findings: lines "open: property=<id> case=<key> <what fails>" of known-findings.txt"""
    r = {}
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"open: property=(\S+) case=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


# ------------------------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--scale", type=float)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough") or a.prop not in models.CHECKS:
        ap.error("unknown tier or property")
    t0 = time.time()
    work = os.path.join(OUT, f"{a.prop}.{os.getpid()}")
    os.makedirs(work)
    try:
        rc = decide(a, work, t0)
    except ToolError as e:
        note("TOOL ERROR:", e)
        rc = 2
    except subprocess.TimeoutExpired as e:
        note("TOOL ERROR: timeout", e)
        rc = 2
    except Exception:
        note("TOOL ERROR:", traceback.format_exc())
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(a, work, t0):
    prop, chk = a.prop, models.CHECKS[a.prop]
    thorough = a.tier == "thorough"
    build_java()
    infos, emitted = [], []
    with ThreadPoolExecutor(4) as ex:
        code = ex.submit(build_code, prop, work)
        if not a.replay:
            if thorough:
                results = [run_model(m, work, a.tier, k) for k, m in enumerate(chk["models"])]
            else:
                results = list(ex.map(lambda km: run_model(km[1], work, a.tier, km[0]), enumerate(chk["models"])))
            for info, cs in results:
                infos.append(info)
                emitted.append(cs)
        code.result()
    note(f"built and explored after {time.time() - t0:.1f} s")

    if a.replay:
        rp = json.load(open(a.replay))
        cases = [json.dumps({k: v for k, v in rp["case"].items() if k != "obs"})]
        nmodel = 0
    else:
        rnd = random.Random(f"sample:{prop}:{a.seed}")
        cap = chk["cap"][1 if thorough else 0]
        cases = []
        for m, cs in zip(chk["models"], emitted):
            k = max(1, int(cap * (m.get("share") or 1.0 / len(chk["models"]))))
            cases += cs if len(cs) <= k else rnd.sample(cs, k)
        nmodel = len(cases)
        scale = a.scale if a.scale is not None else chk["scale"][1 if thorough else 0]
        cases += [json.dumps(c) for c in gen.cases(prop, a.seed, scale)]
        if thorough:
            cases += [json.dumps(c) for c in gen.deep(prop, a.seed)]
    lines = run_cases(prop, cases, work)
    note(f"executed {len(lines)} of {len(cases)} cases ({nmodel} from the models) after {time.time() - t0:.1f} s")
    fails, states, trans = judge(prop, lines, work)
    note(f"validated {len(lines)} recorded executions ({states} states) after {time.time() - t0:.1f} s")

    # findings
    kn, shown, viol = known(prop), {}, []
    for k in sorted(fails):
        rec = json.loads(lines[k])
        key = case_key(rec)
        if key in kn:
            shown[key] = kn[key]
        else:
            viol.append((rec, fails[k], key))
    for k, what in shown.items():
        note(f"KNOWN-FINDING: property={prop} {what}")

    ops, samples, verdicts = {}, [], {}
    for l in lines:
        rec = json.loads(l)
        ops[rec["op"]] = ops.get(rec["op"], 0) + 1
        count_verdicts(rec["obs"], verdicts)
    rnd = random.Random(f"show:{prop}:{a.seed}")
    short = sorted((l for l in lines if len(l) < 6000), key=len)
    for l in (rnd.sample(short, min(3, len(short))) or [l[:3000] for l in lines[:1]]):
        samples.append(json.loads(l) if l.endswith("}") else l)
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level="model_checking",
              coverage=dict(states=sum(i["states"] for i in infos) + states,
                            transitions=sum(i["transitions"] for i in infos) + trans,
                            traces_validated_against_impl=len(lines), samples=samples,
                            models=infos, executions_by_operation=ops,
                            results=dict(sorted(verdicts.items(), key=lambda x: -x[1])), cases_from_models=nmodel, cases_random=len(cases) - nmodel,
                            trace_states=states, unexecuted=len(cases) - len(lines)),
              assumptions=chk["assumptions"], wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not a.replay:
        p = os.path.join(ROOT, "evidence", prop + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)
    if not viol:
        note(f"{prop}: held on everything explored ({time.time() - t0:.1f} s)")
        return 0
    viol.sort(key=lambda v: len(json.dumps(v[0])))
    rdir = os.path.join(OUT, "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{prop}.json")
    json.dump(dict(property=prop, seed=a.seed, tier=a.tier, violations=len(viol), messages=viol[0][1], key=viol[0][2], case=viol[0][0],
                   others=[dict(messages=m, key=k, case=c) for c, m, k in viol[1:10]]), open(path, "w"), indent=1)
    for c, m, k in viol[:5]:
        note(f"  {c['op']} {k}: {'; '.join(m)[:300]}")
    note(f"{len(viol)} of {len(lines)} recorded executions contradict the specification")
    note(f"VIOLATION property={prop} replay={path}")
    return 1


if __name__ == "__main__":
    main()
