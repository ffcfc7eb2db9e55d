"""Check runner: drives the real code, lets TLC decide the recorded traces.

usage: python3 check.py <PROPERTY> [quick|thorough]
"""
import fnmatch
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KV_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class Machinery(Exception):
    pass


def run_tlc(module, cfg, workdir, env=None, workers=8, timeout=800, heap="10g", extra=()):
    """Run TLC; returns (stdout, returncode)."""
    meta = tempfile.mkdtemp(prefix="meta", dir=workdir)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-DTLA-Library={SPEC}",
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-deadlock", "-noGenerateSpecTE",
           "-metadir", meta, "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or ""
        if isinstance(out, bytes):
            out = out.decode("utf8", "replace")
        return out + "\nKV|TIMEOUT", -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.stdout, p.returncode


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc_counts(out):
    m = None
    for m in STATES.finditer(out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1)), int(m.group(2))


def model_check(name, workdir, timeout=600):
    """Exhaustive check of a design specification.

    name is MODULE or MODULE@CFG.  Behaviours the specification prints (KV|GEN|json)
    are returned too: the driver replays them on the real code."""
    module, _, cfg = name.partition("@")
    out, rc = run_tlc(module + ".tla", (cfg or module) + ".cfg", workdir, timeout=timeout, workers=4)
    gen, dist = tlc_counts(out)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise Machinery(f"model checking {name} failed (rc={rc})\n" + out[-4000:])
    gens = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"KV|GEN|'):
            gens.append(json.loads(line[1:-1].replace('\\"', '"').replace('\\\\', '\\')[7:]))
    gens.sort(key=json.dumps)
    return {"model": name, "states": dist, "transitions": gen, "behaviours_generated": len(gens)}, gens


def validate(spec, sessions, workdir, timeout=800):
    """Validate sessions against trace spec. Returns (rejects, generated, distinct).

    rejects: list of (session index, event index (1-based), clause text)."""
    todo = list(range(len(sessions)))
    rejects = []
    gen_t = dist_t = 0
    rounds = 0
    deadline = time.time() + timeout
    while todo:
        rounds += 1
        path = os.path.join(workdir, f"trace-{spec}.ndjson")
        with open(path, "w") as f:
            for k in todo:
                f.write(json.dumps(sessions[k], separators=(",", ":")) + "\n")
        out, rc = run_tlc(spec + ".tla", "Trace.cfg", workdir, env={"KV_TRACE": path},
                          timeout=max(30, deadline - time.time()))
        gen, dist = tlc_counts(out)
        gen_t += gen
        dist_t += dist
        done, rej = set(), {}
        for line in out.splitlines():
            line = line.strip().strip('"')
            if line.startswith("KV|DONE|"):
                done.add(int(line.split("|")[2]))
            elif line.startswith("KV|REJECT|"):
                _, _, c, i, cl = line.split("|", 4)
                rej.setdefault((int(c), int(i)), cl.replace('\\"', '"'))
        os.unlink(path)
        bad_case = None
        if "KV|TIMEOUT" in out:
            raise Machinery(f"TLC timeout validating {spec}")
        if rc != 0 or len(done) != len(todo):
            # an evaluation error inside one session: that session cannot be interpreted
            m = re.findall(r"/\\ c = (\d+)", out)
            if not m:
                raise Machinery(f"TLC failed validating {spec} (rc={rc}, {len(done)}/{len(todo)} verdicts)\n" + out[-6000:])
            bad_case = int(m[-1])
            mi = re.findall(r"/\\ i = (\d+)", out)
            err = re.search(r"Error:(.*?)(?:\n\n|Error: The|$)", out, re.S)
            msg = " ".join((err.group(1) if err else "").split())[:200]
            if rounds > 12:
                raise Machinery(f"too many uninterpretable sessions in {spec}\n" + out[-6000:])
        for (c, i), cl in rej.items():
            if c in done or c == bad_case:
                rejects.append((todo[c - 1], i, cl))
        if bad_case is None:
            todo = []
        else:
            rejects.append((todo[bad_case - 1], (int(mi[-1]) if mi else 0) + 1,
                            '{"uninterpretable-trace"} ' + msg))
            nxt = [k for n, k in enumerate(todo, 1) if n not in done and n != bad_case]
            todo = nxt
    return sorted(set(rejects)), gen_t, dist_t


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                m = re.match(r"known: property=(\S+) case=(\S+) clause=(\S+) (.*)", line)
                if m:
                    known.append(m.groups())
    return known


def run_driver(prop, tier, seed, workdir, timeout, gens):
    gpath = os.path.join(workdir, "gens.json")
    with open(gpath, "w") as f:
        json.dump(gens, f)
    out = os.path.join(workdir, "sessions.ndjson")
    env = dict(os.environ)
    env.update({"PYTHONPATH": f"{REPO}/src:{VERIF}", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
                "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "VERIF_SEED": str(seed),
                "VERIF_TIER": tier, "KV_GEN": gpath, "TQDM_DISABLE": "1", "PYTHONWARNINGS": "ignore"})
    p = subprocess.run([PY, "-m", "harness.drive", prop, out], cwd=VERIF, env=env, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise Machinery(f"driver for {prop} failed (rc={p.returncode})\n" + p.stdout[-4000:])
    return [json.loads(l) for l in open(out)]


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from harness.registry import REG
    reg = REG[prop]
    t0 = time.time()
    workdir = tempfile.mkdtemp(prefix=f"kv-{prop}-")
    try:
        mc, gens = [], {}
        names = reg["models"] + (reg.get("models_thorough", []) if tier == "thorough" else [])
        with ThreadPoolExecutor(3) as ex:
            for m, g in ex.map(lambda m: model_check(m, workdir, 600 if tier == "quick" else 5000), names):
                mc.append(m)
                gens[m["model"]] = g
                print(f"[{prop}] model {m['model']}: {m['states']} states, {m['transitions']} transitions, {len(g)} behaviours for replay ({time.time()-t0:.1f}s)", flush=True)
        sessions = run_driver(prop, tier, seed, workdir, 600 if tier == "quick" else 3000, gens)
        print(f"[{prop}] {len(sessions)} sessions recorded from {REPO} ({time.time()-t0:.1f}s)", flush=True)
        by_spec = {}
        for s in sessions:
            by_spec.setdefault(s.get("spec", reg["trace"]), []).append(s)
        viol, states, trans, events, tstates = [], 0, 0, 0, {}
        for spec, ss in by_spec.items():
            rej, gen, dist = validate(spec, ss, workdir, timeout=700 if tier == "quick" else 7000)
            states += dist
            trans += gen
            tstates[spec] = {"sessions": len(ss), "events": sum(len(s["ev"]) for s in ss), "distinct_states": dist}
            events += sum(len(s["ev"]) for s in ss)
            print(f"[{prop}] trace spec {spec}: {len(ss)} sessions, {dist} states, {len(rej)} rejections ({time.time()-t0:.1f}s)", flush=True)
            for k, i, cl in rej:
                viol.append((ss[k], i, cl))
        known = [k for k in load_known() if k[0] == prop]
        real, seen_known = [], set()
        for s, i, cl in viol:
            clauses = re.findall(r'"([^"]+)"', cl) or [cl]
            left = []
            for c in clauses:
                for k in known:
                    if fnmatch.fnmatchcase(s["id"], k[1]) and fnmatch.fnmatchcase(c, k[2]):
                        seen_known.add(k)
                        break
                else:
                    left.append(c)
            if left:
                real.append((s, i, left, cl))
        for k in sorted(seen_known):
            print(f"KNOWN-FINDING: property={prop} {k[3]}")
        kinds = {}
        for s in sessions:
            kinds[s["id"].split("/")[0]] = kinds.get(s["id"].split("/")[0], 0) + 1
        samples = [clip(s) for s in (sessions[:1] + sessions[len(sessions) // 2:len(sessions) // 2 + 1] + sessions[-1:])]
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": states + sum(m["states"] for m in mc),
                           "transitions": trans + sum(m["transitions"] for m in mc),
                           "traces_validated_against_impl": len(sessions),
                           "events_validated": events, "design_models": mc, "trace_specs": tstates,
                           "session_kinds": kinds, "samples": samples},
              "assumptions": reg.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
              "violations": len(real)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if real:
            d = os.path.join(VERIF, "replays", prop)
            os.makedirs(d, exist_ok=True)
            for n, (s, i, left, cl) in enumerate(real[:20]):
                path = os.path.join(d, re.sub(r"[^A-Za-z0-9_.-]", "_", s["id"])[:100] + f"-{i}.json")
                with open(path, "w") as f:
                    json.dump({"property": prop, "session": s, "event": i, "clauses": left,
                               "how": f"TLC rejected event {i} of this recorded session; rerun: python3 check.py {prop} {tier} (VERIF_SEED={seed})"}, f)
                evt = s["ev"][i - 1] if 0 < i <= len(s["ev"]) else {}
                print(f"  {s['id']} event {i} {cl}: {json.dumps(clip(evt))[:400]}")
                print(f"VIOLATION property={prop} replay={path}")
            if len(real) > 20:
                print(f"  ... {len(real) - 20} further rejections")
            return 1
        print(f"[{prop}] held: {len(sessions)} sessions / {events} events explained by the specification ({time.time()-t0:.1f}s)")
        return 0
    except Machinery as e:
        print(f"[{prop}] MACHINERY ERROR: {e}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def clip(x, n=24, depth=0):
    if isinstance(x, list):
        r = [clip(v, n, depth + 1) for v in x[: (n if depth < 4 else 8)]]
        return r + ([f"... {len(x) - n} more"] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: clip(v, n, depth + 1) for k, v in x.items()}
    if isinstance(x, str) and len(x) > 200:
        return x[:200] + "..."
    return x
