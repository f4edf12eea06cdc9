#!/usr/bin/env python3
"""check.py Cxx -- decide one property of /repo's working tree.

1. TLC model-checks the design (exhaustive, small constants).
2. TLC enumerates the transitions of a bounded instance of the sequential specification; they are
   joined into walks (every transition at least once).
3. The harness, built from /repo's working tree, executes these walks and its own random, fault,
   adversarial and concurrent drivers on the real code, and records what happened.
4. TLC judges every recorded execution against the trace specification.

Exit 0: nothing found. Exit 1 and "VIOLATION property=.. replay=..": broken. Exit 2: no answer.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, os.path.join(VERIF, "bin"))
import suites  # noqa: E402

TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class NoAnswer(Exception):
    pass


def goenv():
    e = dict(os.environ)
    env = "/opt/vp/env.sh"
    if os.path.exists(env):
        out = subprocess.run(["bash", "-c", f". {env} && env -0"], capture_output=True).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                e[k.decode()] = v.decode(errors="replace")
    e["GOFLAGS"] = "-mod=readonly"
    e["GOWORK"] = "off"
    e.pop("TRACE", None)
    return e


def run(cmd, timeout, **kw):
    """run a command in its own process group; kill the group on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -9, out.decode(errors="replace") + "\n[timed out]"


def sync_hook(work, src):
    """a module file with a copy of bbolt that tells the harness of every fdatasync; None if bbolt is not as expected"""
    rc, o = run(["go", "list", "-m", "-f", "{{.Dir}}", "go.etcd.io/bbolt"], 60, cwd=src, env=goenv())
    old = o.strip()
    body = "func fdatasync(db *DB) error {\n\treturn syscall.Fdatasync(int(db.file.Fd()))\n}"
    path = os.path.join(old, "bolt_linux.go")
    if rc != 0 or not os.path.exists(path) or body not in open(path).read():
        return None
    new = os.path.join(work, "bbolt")
    shutil.copytree(old, new, ignore=shutil.ignore_patterns("*_test.go", "cmd"))
    for d, _, fs in os.walk(new):
        for f in [d] + [os.path.join(d, f) for f in fs]:
            os.chmod(f, 0o755)
    path = os.path.join(new, "bolt_linux.go")
    text = open(path).read()
    with open(path, "w") as f:
        f.write(text.replace(body, """// VerifSync is told of every sync of a file, before it and after it.
var VerifSync = func(path string, done bool) {}

func fdatasync(db *DB) error {
	VerifSync(db.path, false)
	err := syscall.Fdatasync(int(db.file.Fd()))
	VerifSync(db.path, true)
	return err
}"""))
    mod = os.path.join(work, "hooked.mod")
    with open(mod, "w") as f:
        f.write(open(os.path.join(src, "go.mod")).read() + f"\nreplace go.etcd.io/bbolt => {new}\n")
    shutil.copy(os.path.join(src, "go.sum"), os.path.join(work, "hooked.sum"))
    return mod


def build(work, race=False, hooked=False):
    out = os.path.join(work, "race.test" if race else "h.test")
    src = os.path.join(work, "harness")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(VERIF, "harness"), src)
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else [])
    mod = sync_hook(work, src) if hooked else None
    if mod:
        cmd += ["-tags", "boltsync", "-modfile", mod]
    cmd.append(".")
    rc, o = run(cmd, 600, cwd=src, env=goenv())
    if rc != 0 or not os.path.exists(out):
        raise NoAnswer("building the harness failed:\n" + o[-4000:])
    return out


def tlc(work, module, cfg, workers=8, timeout=600, env=None, heap=None, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC"] + ([f"-Xmx{heap}"] if heap else ["-Xmx9g"]) + [
        "-cp", TLA_CP, "tlc2.TLC", "-deadlock", "-workers", str(workers), "-metadir", meta,
        "-config", cfg, *extra, module + ".tla"]
    rc, out = run(cmd, timeout, cwd=SPEC, env=e)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


def model_check(work, mc):
    module, cfg = mc["module"], mc["cfg"]
    t0 = time.time()
    rc, out = tlc(work, module, cfg, workers=mc.get("workers", 8), timeout=mc.get("timeout", 600), heap=mc.get("heap"))
    d, g = counts(out)
    if "Model checking completed. No error has been found." not in out:
        raise NoAnswer(f"model {module}/{cfg} did not pass:\n" + out[-3000:])
    if d < mc.get("min", 1):
        raise NoAnswer(f"model {module}/{cfg} is vacuous ({d} states)")
    return {"model": module, "config": cfg, "distinct_states": d, "transitions": g, "seconds": round(time.time() - t0, 1)}


def canon(x):
    """a canonical name for a state (TLC does not fix the order of record fields and sets)"""
    def norm(y):
        if isinstance(y, dict):
            return {k: norm(v) for k, v in sorted(y.items())}
        if isinstance(y, list):
            y = [norm(v) for v in y]
            return sorted(y) if y and all(isinstance(v, str) for v in y) else y
        return y
    return json.dumps(norm(x), sort_keys=True)


def edges(work, gen):
    rc, out = tlc(work, gen["module"], gen["cfg"], workers=1, timeout=gen.get("timeout", 300))
    if "Model checking completed. No error has been found." not in out:
        raise NoAnswer(f"generator {gen['module']} failed:\n" + out[-3000:])
    es = []
    for line in out.splitlines():
        if line.startswith('"@E '):
            e = json.loads(json.loads(line)[3:])
            es.append({"f": canon(e["f"]), "t": canon(e["t"]), "l": e["l"]})
    d, g = counts(out)
    return es, d, g


def tours(es, maxlen, seed):
    """walks from the initial state that together use every edge"""
    import random
    rnd = random.Random(seed)
    init = es[0]["f"]
    adj = {}
    for i, e in enumerate(es):
        adj.setdefault(e["f"], []).append(i)
    for v in adj.values():
        rnd.shuffle(v)
    left = {k: list(v) for k, v in adj.items()}
    todo = len(es)
    # distance-to-work search over the state graph
    succ = {k: list({es[i]["t"]: i for i in v}.items()) for k, v in adj.items()}
    walks = []
    while todo:
        cur, w = init, []
        while len(w) < maxlen:
            if left.get(cur):
                # prefer self-loops first, they cost nothing
                i = left[cur].pop()
                w.append(i)
                cur = es[i]["t"]
                todo -= 1
                continue
            # bfs to nearest state with uncovered edges
            prev, queue, goal = {cur: None}, [cur], None
            for q in queue:
                if left.get(q):
                    goal = q
                    break
                for nt, ei in succ.get(q, ()):
                    if nt not in prev:
                        prev[nt] = (q, ei)
                        queue.append(nt)
            if goal is None:
                break
            path = []
            while prev[goal] is not None:
                goal, ei = prev[goal]
                path.append(ei)
            path.reverse()
            w += path
            cur = es[path[-1]]["t"] if path else cur
        if not w:
            break
        walks.append([es[i]["l"] for i in w])
    return walks


def drive(work, binary, test, tag, env=None, timeout=600, args=()):
    outp = os.path.join(work, tag + ".nd")
    e = goenv()
    e.update({"VERIF_OUT": outp, "VERIF_SEED": str(SEED), "VERIF_TIER": TIER,
              "VERIF_SCRATCH": work, "VERIF_HARNESS": binary,
              "VERIF_OLD": os.path.join(VERIF, "old")})
    e.update(env or {})
    rc, out = run([binary, "-test.run", "^" + test + "$", "-test.timeout", "0", *args], timeout, cwd=work, env=e)
    return rc, out, outp


def race_in_library(out):
    """The first race report with an access made by (or on behalf of) the library, if any. Races of the harness with itself do not count."""
    for part in out.split("WARNING: DATA RACE")[1:]:
        part = part.split("==================")[0]
        accesses = [q for q in re.split(r"\n\s*\n", part) if re.match(r"\s*(Previous |Atomic |Previous atomic )?(read|write)", q, re.I)]
        inner = [next((f for f in re.findall(r"^  (\S.*)\(", q, re.M) if not f.startswith("runtime.")), "") for q in accesses]
        if all(f.startswith("verifharness.") for f in inner):
            continue
        if any("cybercryptio/d1-lib" in q or "/repo/" in q for q in accesses):
            return part[:6000]
    return None


def died_in_library(out):
    """does the crash report of a Go process blame a frame of d1-lib?"""
    m = re.search(r"^(fatal error: |panic: )(.*)$", out, re.M)
    if not m or "harness: " in m.group(2):
        return False
    g = out.find("\ngoroutine ", m.start())
    for line in out[g:].splitlines()[2:80]:
        if line.startswith("\t") or not line.strip():
            continue
        if "verifharness" in line:
            return False
        if "cybercryptio/d1-lib" in line:
            return True
    return False


def load_known():
    known, path = [], os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) sig="([^"]*)" (.*)', line.strip())
            if m:
                known.append(m.groups())
    return known


def chunks(files, work, limit_events):
    """renumber traces of several files into numbered chunk files; returns [(path, n)] and an index"""
    res, index, gid = [], {}, 0
    cur = None
    n = ev = 0
    for f in files:
        with open(f) as fh:
            for line in fh:
                m = re.match(r'\{"id":\d+,', line)
                if not m:
                    raise NoAnswer("malformed trace line in " + f)
                gid += 1
                if cur is None:
                    path = os.path.join(work, f"chunk{len(res)}.nd")
                    cur = open(path, "w")
                    n = ev = 0
                line = '{"id":%d,' % gid + line[m.end():]
                cur.write(line)
                n += 1
                ev += len(line)
                if ev > limit_events:
                    cur.close()
                    res.append((path, n))
                    cur = None
    if cur is not None:
        cur.close()
        res.append((path, n))
    return res


def validate(work, spec, files, limit=24_000_000):
    """judge all traces; returns (n traces, n events judged, rejections, findings, chunk list)"""
    rej, fnd, total, events = [], [], 0, 0
    dones = set()
    parts = chunks(files, work, limit)
    for path, n in parts:
        rc, out = tlc(work, spec, spec + ".cfg", workers=8, timeout=800, env={"TRACE": path})
        d = 0
        for line in out.splitlines():
            if line.startswith('"@'):
                kind = line[2]
                r = json.loads(json.loads(line)[3:])
                r["chunk"] = path
                if kind == "D":
                    d += 1
                    dones.add(r["trace"])
                elif kind == "R":
                    d += 1
                    rej.append(r)
                elif kind == "F":
                    fnd.append(r)
        if "Model checking completed. No error has been found." not in out or d != n:
            raise NoAnswer(f"trace validation by {spec} failed ({d} of {n} traces judged):\n" + out[-3000:])
        total += n
        events += max(0, counts(out)[1] - n)
    return total, events, rej, fnd, parts, dones


def get_trace(chunk, tid):
    with open(chunk) as f:
        for line in f:
            if line.startswith('{"id":%d,' % tid):
                return json.loads(line)
    return None


def save_replay(prop, k, trace, extra):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{TIER}-{SEED}-{k}.json")
    with open(p, "w") as f:
        json.dump({"property": prop, "tier": TIER, "seed": SEED, **extra, "trace": trace}, f, indent=1)
    return p


def shorten(tr, n=6):
    t = dict(tr)
    t["ev"] = tr["ev"][:n]
    t["events_in_full"] = len(tr["ev"])
    return t


def main():
    prop = sys.argv[1]
    suite = suites.CHECKS[prop]
    t0 = time.time()
    base = os.environ.get("VERIF_TMP") or tempfile.gettempdir()
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=base)
    deep = TIER == "thorough"
    violations = []
    sel = lambda x: x["thorough"] if isinstance(x, dict) and deep and "thorough" in x else (x["quick"] if isinstance(x, dict) and "quick" in x else x)  # noqa: E731
    try:
        mcs = sel(suite.get("mc", []))
        gens = sel(suite.get("gen", []))
        drivers = sel(suite["drivers"])
        models, genstats, counted = [], [], {}
        with cf.ThreadPoolExecutor(8) as pool:
            fb = pool.submit(build, work, hooked=any(d.get("hooked") for d in drivers))
            fr = pool.submit(build_after, fb, work) if any(d.get("race") for d in drivers) else None
            fgen = [pool.submit(edges, work, g) for g in gens]
            walkfiles = {}
            binary = fb.result()
            for g, f in zip(gens, fgen):
                es, d, n = f.result()
                ws = tours(es, g.get("maxlen", 150), SEED)
                wf = os.path.join(work, g["name"] + ".walks.json")
                json.dump(ws, open(wf, "w"))
                walkfiles[g["name"]] = wf
                genstats.append({"generator": g["cfg"], "states": d, "edges": len(es), "walks": len(ws), "steps": sum(map(len, ws))})
            fdr = []
            for i, d in enumerate(drivers):
                env = dict(d.get("env", {}))
                env["VERIF_PROP"] = prop
                if "walks" in d:
                    env["VERIF_IN"] = walkfiles[d["walks"]]
                b = fr.result() if d.get("race") else binary
                fdr.append((d, pool.submit(drive, work, b, d["test"], f"d{i}", env, d.get("timeout", 700))))
            byspec = {}
            for d, f in fdr:
                rc, out, path = f.result()
                if "VERIF-HANG" in out:
                    rp = save_replay(prop, len(violations), [], {"driver": d["test"], "output": out[-6000:], "why": "a call of the library never returned"})
                    violations.append((rp, f"a call of the library never returned ({d['test']})"))
                    continue
                if d.get("race") and "DATA RACE" in out:
                    rep = race_in_library(out)
                    if rep:
                        rp = save_replay(prop, len(violations), [], {"driver": d["test"], "output": rep, "why": "data race"})
                        violations.append((rp, "data race inside the library"))
                        continue
                if rc != 0 and died_in_library(out):
                    rp = save_replay(prop, len(violations), [], {"driver": d["test"], "output": out[-6000:], "why": "the process died inside the library"})
                    violations.append((rp, f"the process died inside the library ({d['test']})"))
                    continue
                m = re.search(r"DRIVER traces=(\d+) events=(\d+)", out)
                if rc != 0 or not m or (int(m.group(1)) == 0 and not d.get("may_be_empty")):
                    raise NoAnswer(f"driver {d['test']} failed (rc {rc}):\n" + out[-4000:])
                byspec.setdefault(d["spec"], []).append(path)
                for line in re.findall(r"^COUNT (.*)", out, re.M):
                    for k, v in re.findall(r"(\w+)=(\d+)", line):
                        counted[k] = counted.get(k, 0) + int(v)
            fmc = []
            # the models run after the drivers so that neither disturbs the other's timing
            for mc in mcs:
                fmc.append(pool.submit(model_check, work, mc))
                models.append(fmc[-1].result())
            total = events = 0
            findings, samples, other = {}, [], {}
            known = load_known()
            for spec, files in byspec.items():
                n, ev, rej, fnd, parts, dones = validate(work, spec, files)
                total += n
                events += ev
                for r in rej:
                    tr = None
                    if prop in r["blame"]:
                        sig = r.get("why", {}).get("sig", "") if isinstance(r.get("why"), dict) else ""
                        if sig and any(k[0] == prop and k[1] == sig for k in known):
                            findings.setdefault(sig, r)
                            continue
                        if len(violations) < 5:
                            tr = get_trace(r["chunk"], r["trace"])
                            at = r["at"]
                            rp = save_replay(prop, len(violations), {**tr, "ev": tr["ev"][:at]},
                                             {"spec": spec, "at": at, "rejected_event": tr["ev"][at - 1], "why": r["why"], "blame": r["blame"]})
                        violations.append((rp, json.dumps(r["why"])[:400]))
                    else:
                        key = ",".join(sorted(r["blame"]))
                        other[key] = other.get(key, 0) + 1
                for f in fnd:
                    if f["find"]["prop"] != prop:
                        continue
                    sig = f["find"]["sig"]
                    if any(k[0] == prop and k[1] == sig for k in known):
                        findings.setdefault(sig, f)
                    else:
                        tr = get_trace(f["chunk"], f["trace"])
                        rp = save_replay(prop, len(violations), {**tr, "ev": tr["ev"][:f["at"]]}, {"spec": spec, "at": f["at"], "why": sig})
                        violations.append((rp, sig))
                for path, _ in parts[:1]:
                    with open(path) as fh:
                        for i, line in enumerate(fh):
                            tr = json.loads(line)
                            if tr["id"] in dones and len(samples) < 3:
                                samples.append(shorten(tr))
                            if i > 50:
                                break
        for k, v in sorted(other.items()):
            print(f"note: {v} traces end early with behaviour that breaks {k} (not {prop})")
        for sig in sorted(findings):
            desc = next(k[2] for k in known if k[0] == prop and k[1] == sig)
            print(f"KNOWN-FINDING: property={prop} {sig}: {desc}")
        cov = {
            "states": sum(m["distinct_states"] for m in models) + sum(g["states"] for g in genstats),
            "transitions": sum(m["transitions"] for m in models) + sum(g["edges"] for g in genstats),
            "traces_validated_against_impl": total,
            "events_validated_against_impl": events,
            "models": models, "generators": genstats,
            "drivers": [d["test"] for d in drivers], "counted": counted,
            "known_findings_seen": sorted(findings),
            "traces_ended_early_for_other_properties": other,
            "samples": samples or ["all traces were rejected"],
        }
        level = suite.get("level", "model_checking")
        if level in ("exploration", "fault_enumeration"):
            cov["evaluations"] = events
            cov["distinct_nontrivial"] = total
            cov["rule"] = suite["rule"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
                       "assumptions": suite.get("assumptions", []), "wall_s": round(time.time() - t0, 1),
                       "violations": len(violations)}, f, indent=1)
        for rp, why in violations[:5]:
            print("broken:", why)
            print(f"VIOLATION property={prop} replay={rp}")
        print(f"{prop}: {total} executions ({events} events) judged, {cov['states']} model states, {len(violations)} violations, {time.time() - t0:.1f} s")
        return 1 if violations else 0
    except NoAnswer as e:
        for rp, why in violations[:5]:
            print("broken:", why)
            print(f"VIOLATION property={prop} replay={rp}")
        print(f"{prop}: no answer: {e}")
        return 1 if violations else 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def build_after(fb, work):
    fb.result()
    return build(work, race=True)


if __name__ == "__main__":
    sys.exit(main())
