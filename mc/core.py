"""Bounded exhaustive exploration of the real jVMC code: parent process / explorer.

A check module (checks/<id>.py) provides

    PROPERTY, LEVEL, ASSUMPTIONS, RULE
    def groups(tier)      -> list of JSON-able dicts, each with a unique "name"
                             (together they enumerate the whole bounded space)
    def run(group, ctx)   -> executes every case of the group on the real code

The parent spreads the groups over worker processes.  A case is the smallest
replayable unit: an operation history, an input, a configuration or a schedule.
"""
import argparse
import hashlib
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
if not os.path.exists(PY):
    PY = sys.executable


def worker_env(ndev):
    env = dict(os.environ)
    env.update({
        "JAX_PLATFORMS": "cpu",
        "XLA_FLAGS": "--xla_force_host_platform_device_count=%d --xla_cpu_multi_thread_eigen=false "
                     "intra_op_parallelism_threads=1" % ndev,
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
        "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
        "MPLBACKEND": "Agg", "TF_CPP_MIN_LOG_LEVEL": "3", "JAX_ENABLE_X64": "1",
        # VP_REPO: only for experiments on scratch copies; checks run against /repo
        "PYTHONPATH": VERIF + os.pathsep + os.environ.get("VP_REPO", "/repo"),
    })
    return env


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


class Worker:
    def __init__(self, pid, tier, ndev, events):
        self.events = events
        self.errf = open(os.path.join(VERIF, "evidence", ".%s.worker.%d.%d.err" % (pid, os.getpid(), id(self))), "w+")
        self.p = subprocess.Popen([PY, "-W", "ignore", "-m", "mc.worker", pid, tier],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  env=worker_env(ndev), cwd=VERIF, text=True, bufsize=1, start_new_session=True)
        self.group = None
        self.last_case = None
        threading.Thread(target=self._reader, daemon=True).start()

    def _reader(self):
        for line in self.p.stdout:
            if line.startswith("@@"):
                self.events.put((self, json.loads(line[2:])))
        self.p.wait()
        self.events.put((self, {"t": "dead", "rc": self.p.returncode}))

    def send(self, g):
        self.group = g
        try:
            self.p.stdin.write(json.dumps(g) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except Exception:
            pass

    def stderr_tail(self):
        try:
            self.errf.flush()
            self.errf.seek(0)
            return self.errf.read()[-3000:]
        except Exception:
            return ""

    def cleanup(self):
        try:
            self.errf.close()
            os.unlink(self.errf.name)
        except Exception:
            pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--group", help="only groups whose name contains this (debugging)")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    mod = importlib.import_module("checks." + a.pid.lower())
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    deadline = t0 + (780 if a.tier == "quick" else 24 * 3600)

    if a.replay:
        rep = json.load(open(a.replay))
        gs = [dict(rep["group"], only=rep.get("case"))]
    else:
        gs = mod.groups(a.tier)
        names = [g["name"] for g in gs]
        assert len(set(names)) == len(names), "duplicate group names"
        if a.group:
            gs = [g for g in gs if a.group in g["name"]]
    # heavy groups first
    gs.sort(key=lambda g: -g.get("cost", 1))
    known = [k for k in load_known() if k.get("property") == a.pid and k.get("kind") == "known"]
    nworkers = a.workers or min(len(gs), getattr(mod, "WORKERS", 8))
    ndev = getattr(mod, "NDEV", 1)
    events = queue.Queue()
    todo = list(gs)
    workers = []
    agg = {"states": set(), "transitions": 0, "traces": 0, "cases": 0, "outcomes": set(), "samples": [], "extra": {}}
    violations, known_hit, errors, times = [], {}, [], []

    def spawn():
        w = Worker(a.pid, a.tier, ndev, events)
        workers.append(w)
        return w

    for _ in range(nworkers):
        spawn()
    live = set(workers)
    stop_at = None
    done_groups = 0
    while live:
        tmo = (stop_at or deadline) - time.time()
        try:
            w, ev = events.get(timeout=max(0.05, tmo))
        except queue.Empty:
            if stop_at is None:
                errors.append("time limit of the check reached before the space was covered")
            for x in live:
                x.kill()
            break
        if ev["t"] == "ready":
            if todo and stop_at is None:
                g = todo.pop(0)
                w.t0 = time.time()
                w.send(g)
            else:
                w.group = None
                w.close()
        elif ev["t"] == "case":
            w.last_case = ev["case"]
        elif ev["t"] == "fail":
            rec = {"group": w.group, "case": ev["case"], "msg": ev["msg"], "sig": ev["sig"]}
            k = next((k for k in known if ev["sig"] in k["sigs"]), None)
            if k is not None:
                known_hit.setdefault(k["what"], []).append(ev["sig"])
            else:
                violations.append(rec)
                if stop_at is None and not a.v:
                    stop_at = time.time() + 10
        elif ev["t"] == "done":
            done_groups += 1
            times.append((round(time.time() - w.t0, 1), w.group["name"]))
            agg["states"].update(ev["states"])
            agg["outcomes"].update(ev["outcomes"])
            agg["transitions"] += ev["transitions"]
            agg["traces"] += ev["traces"]
            agg["cases"] += ev["cases"]
            for k2, v2 in ev.get("extra", {}).items():
                agg["extra"][k2] = agg["extra"].get(k2, 0) + v2
            if len(agg["samples"]) < 4 and ev.get("sample") is not None:
                agg["samples"].append({"group": w.group["name"], "case": ev["sample"]})
            w.group = None
        elif ev["t"] == "dead":
            live.discard(w)
            if w.group is not None and stop_at is None:
                # the interpreter running the code under test died or hung in this group
                msg = "worker process ended with code %s while running this group (crash or hang)\n%s" % (ev["rc"], w.stderr_tail())
                if ev["rc"] == 97:
                    violations.append({"group": w.group, "case": w.last_case, "msg": "execution does not terminate (watchdog)", "sig": "hang"})
                    stop_at = time.time() + 10
                elif w.group.get("_retried"):
                    violations.append({"group": w.group, "case": w.last_case, "msg": msg, "sig": "crash"})
                    stop_at = time.time() + 10
                else:
                    g = dict(w.group, _retried=True)
                    todo.insert(0, g)
                    live.add(spawn())
    for w in workers:
        w.kill()
        w.cleanup()
    wall = time.time() - t0
    exhaustive = (not errors) and done_groups == len(gs) and not violations and not a.replay and not a.group
    if not a.replay and not a.group:
        ev = {
            "property": a.pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
            "level": getattr(mod, "LEVEL", "model_checking"),
            "coverage": {
                "states": len(agg["states"]), "transitions": agg["transitions"],
                "traces_validated_against_impl": agg["traces"],
                "cases": agg["cases"], "distinct_outcomes": len(agg["outcomes"]),
                "groups": done_groups, "rule": mod.RULE, "samples": agg["samples"], "exhaustive": exhaustive,
                **agg["extra"],
            },
            "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
            "wall_s": round(wall, 2), "violations": len(violations),
        }
        with open(os.path.join(VERIF, "evidence", a.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if a.v:
        for t in sorted(times, reverse=True)[:15]:
            print("  %6.1fs %s" % t)
    print("%s tier=%s cases=%d states=%d transitions=%d traces=%d outcomes=%d groups=%d/%d wall=%.1fs" % (
        a.pid, a.tier, agg["cases"], len(agg["states"]), agg["transitions"], agg["traces"], len(agg["outcomes"]), done_groups, len(gs), wall))
    for what, sigs in known_hit.items():
        print("KNOWN-FINDING: property=%s %s (%d listed cases)" % (a.pid, what, len(set(sigs))))
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v["case"])) if v["case"] is not None else 0)
        v = violations[0]
        h = hashlib.sha1(json.dumps([v["group"]["name"], v["case"]], sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (a.pid, h))
        g = {k: x for k, x in v["group"].items() if not k.startswith("_") and k != "only"}
        with open(path, "w") as f:
            json.dump({"property": a.pid, "group": g, "case": v["case"], "msg": v["msg"], "sig": v["sig"],
                       "how": "bash /verif/check.sh %s --replay %s" % (a.pid, path)}, f, indent=1)
        for v in violations[:8 if a.v else 3]:
            print("  violated in group %s case %s: %s" % (v["group"]["name"], json.dumps(v["case"]), v["msg"][-(400 if a.v else 1500):]))
            if a.v:
                print("  SIG", json.dumps(v["sig"]))
        print("VIOLATION property=%s replay=%s" % (a.pid, path))
        sys.stdout.flush()
        os._exit(1)
    if errors:
        print("ERROR: " + "; ".join(errors))
        sys.stdout.flush()
        os._exit(2)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
