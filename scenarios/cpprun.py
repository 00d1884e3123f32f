"""Client of a cppsim server process (one forked child per simulated run)."""
import atexit
import json
import os
import subprocess
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent


class BuildFailed(Exception):
    pass


def build(script, outdir):
    p = subprocess.run(["bash", str(VERIF / "cppsim" / script), str(outdir)], capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildFailed(p.stdout[-2000:] + p.stderr[-6000:])


class Server:
    def __init__(self, exe):
        self.exe = str(exe)
        self.p = None
        self.pid = None

    def request(self, line):
        if self.p is None or self.pid != os.getpid() or self.p.poll() is not None:
            self.pid = os.getpid()
            self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
            atexit.register(self.close)
        self.p.stdin.write(line + "\n")
        self.p.stdin.flush()
        out = self.p.stdout.readline()
        if not out:
            raise RuntimeError(f"{self.exe} died")
        return json.loads(out)

    def close(self):
        if self.p is not None and self.pid == os.getpid():
            self.p.kill()
            self.p.wait()
            self.p = None


def run(server, rs, cfg, active, trace, keep_log, workload_tokens):
    tr = sorted((trace or {}).items())
    head = [rs, 1 if trace is not None else 0, 1 if keep_log else 0, cfg["p_switch"], cfg["p_sync"], 0,
            1 if cfg.get("races", True) else 0, 1 if cfg.get("fine", True) else 0, cfg.get("max_steps", 3000000),
            ",".join(sorted(active)) or "-", len(tr)]
    for i, v in tr:
        head += [i, v]
    r = server.request(" ".join(str(x) for x in head + workload_tokens))
    if r["status"] == 3:
        raise RuntimeError("simulator error: " + r["msg"])
    viol = None
    if r["status"] == 2:
        viol = {"class": r["class"], "msg": r["msg"]}
    return {"violation": viol, "digest": r["digest"], "sched": r["sched"], "steps": r["steps"], "faults": r["faults"],
            "probes": r["probes"], "sim_s": 0.0, "choices": {int(k): v for k, v in r["choices"].items()},
            "switches": r["switches"], "log": r["log"].splitlines(), "hang": bool(viol and viol["class"] == "hang"),
            "extra": {"memory_accesses": r["accesses"], "allocations": r["allocs"]}}
