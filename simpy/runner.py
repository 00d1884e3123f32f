"""Batch driver: seeds -> simulated runs -> evidence, minimised replay files.

Exit status: 0 property held on everything explored; 1 with a VIOLATION line
(and a replay file that reproduced in a fresh process); 2 anything else.
"""

from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import subprocess
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
HANG_S = 60


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def run_seed_of(seed, prop_salt, i):
    h = hashlib.blake2b(f"{seed}/{prop_salt}/{i}".encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big") >> 1


def guarded(scn, rs, cfg, active, trace=None, keep_log=False, prop=None):
    """scn.execute with a real-time guard against code that never yields."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG_S)
    try:
        return scn.execute(rs, cfg, active, trace, keep_log)
    except Hang:
        return {"violation": {"class": "hang", "msg": f"run did not return within {HANG_S} s of real time"},
                "digest": "hang", "sched": "hang", "steps": 0, "faults": {}, "probes": {}, "sim_s": 0.0,
                "choices": {}, "switches": 0, "log": [], "hang": True}
    finally:
        signal.alarm(0)


def _worker(scn_name, active, seed, salt, w, W, n, deadline, stop, conn, prop):
    try:
        scn = importlib.import_module("scenarios." + scn_name)
        if hasattr(scn, "setup"):
            scn.setup(prop)
        agg = {"runs": 0, "sim_s": 0.0, "steps": 0, "switches": 0, "faults": {}, "probes": {},
               "digests": [], "scheds": [], "nontrivial": [], "fault_runs": 0, "samples": [],
               "other": {}, "extra": {}}
        found = []
        for i in range(w, n, W):
            if stop.is_set() or time.time() > deadline:
                break
            rs = run_seed_of(seed, salt, i)
            cfg = scn.gen_config(rs) if not hasattr(scn, "gen_config_for") else scn.gen_config_for(rs, prop)
            res = guarded(scn, rs, cfg, active)
            agg["runs"] += 1
            agg["sim_s"] += res["sim_s"]
            agg["steps"] += res["steps"]
            agg["switches"] += res["switches"]
            for k in ("faults", "probes"):
                for a, b in res[k].items():
                    agg[k][a] = agg[k].get(a, 0) + b
            for a, b in res.get("extra", {}).items():
                agg["extra"][a] = agg["extra"].get(a, 0) + b
            if res["faults"]:
                agg["fault_runs"] += 1
            if res.get("other"):
                agg["other"][res["other"]] = agg["other"].get(res["other"], 0) + 1
            agg["digests"].append(res["digest"])
            agg["scheds"].append(res["sched"])
            if scn.nontrivial(cfg, res):
                agg["nontrivial"].append(res["digest"])
                if len(agg["samples"]) < 2:
                    agg["samples"].append({"run": i, "run_seed": rs, "config": cfg, "steps": res["steps"],
                                           "faults": res["faults"], "digest": res["digest"]})
            if res["violation"]:
                found.append({"i": i, "rs": rs, "cfg": cfg, "class": res["violation"]["class"],
                              "msg": res["violation"]["msg"], "digest": res["digest"],
                              "choices": res["choices"], "hang": bool(res.get("hang"))})
                if len(found) >= 3 or res.get("hang"):
                    stop.set()
                    break
        conn.send(("ok", agg, found))
    except BaseException:
        conn.send(("error", traceback.format_exc(), None))
    finally:
        conn.close()
        os._exit(0)


def _child_run(payload):
    """Execute one run in a fresh interpreter; returns its result dict."""
    env = dict(os.environ, PYTHONHASHSEED=str(payload.pop("hashseed", 0)))
    p = subprocess.run([sys.executable, str(VERIF / "run_check.py"), "--child"], input=json.dumps(payload),
                       capture_output=True, text=True, env=env, cwd=str(VERIF))
    for line in p.stdout.splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    raise RuntimeError("child run failed: " + p.stdout[-2000:] + p.stderr[-4000:])


def child_main():
    q = json.loads(sys.stdin.read())
    scn = importlib.import_module("scenarios." + q["scenario"])
    if hasattr(scn, "setup"):
        scn.setup(q.get("prop"))
    active = set(q["active"])
    if q["mode"] == "run":
        out = []
        for item in q["items"]:
            trace = None
            if item.get("choices") is not None:
                trace = {int(k): v for k, v in item["choices"].items()}
            r = guarded(scn, item["rs"], item["cfg"], active, trace, q.get("log", False))
            r["choices"] = {str(k): v for k, v in r["choices"].items()}
            out.append(r)
        print("RESULT " + json.dumps(out, default=str))
    else:
        print("RESULT " + json.dumps(minimise(scn, q["item"], active, q["budget"]), default=str))
    sys.stdout.flush()
    os._exit(0)


def minimise(scn, item, active, budget):
    """Shrink configuration, then zero decisions, keeping the violation class."""
    end = time.time() + budget
    klass = item["class"]
    tried = 0

    def attempt(cfg, trace):
        nonlocal tried
        tried += 1
        r = guarded(scn, item["rs"], cfg, active, trace)
        if r["violation"] and r["violation"]["class"] == klass:
            return r
        return None
    cfg = item["cfg"]
    best = attempt(cfg, {int(k): v for k, v in item["choices"].items()})
    if best is None:
        return {"ok": False}
    # 1. smaller configurations, explored afresh under a few schedules
    progress = True
    while progress and time.time() < end:
        progress = False
        for c in scn.shrink_config(cfg):
            if time.time() > end:
                break
            r = attempt(c, dict(best["choices"])) or attempt(c, None)
            if r is not None and len(json.dumps(c)) <= len(json.dumps(cfg)) + 8:
                cfg, best, progress = c, r, True
                break
    # 2. zero decisions in halves, then singly
    ch = dict(best["choices"])
    size = max(1, len(ch) // 2)
    while ch and time.time() < end:
        keys = sorted(ch)
        i, any_ok = 0, False
        while i < len(keys) and time.time() < end:
            drop = set(keys[i:i + size])
            t = {k: v for k, v in ch.items() if k not in drop}
            r = attempt(cfg, t)
            if r is not None:
                new = {k: v for k, v in r["choices"].items()}
                if len(new) < len(ch):
                    ch, best, any_ok = new, r, True
                    keys = sorted(ch)
                    continue
            i += size
        if size == 1 and not any_ok:
            break
        size = max(1, size // 2) if not any_ok or size > 1 else 1
    final = guarded(scn, item["rs"], cfg, active, dict(ch), True)
    if not final["violation"] or final["violation"]["class"] != klass:
        return {"ok": False}
    return {"ok": True, "cfg": cfg, "choices": {str(k): v for k, v in ch.items()}, "class": klass,
            "msg": final["violation"]["msg"], "digest": final["digest"], "log": final["log"], "tried": tried,
            "steps": final["steps"], "faults": final["faults"]}


def known_findings(prop):
    out = []
    f = VERIF / "known-findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append({"class": m.group(2), "match": m.group(3), "text": m.group(4)})
    return out


def write_replay(prop, scenario, active, item, m):
    d = VERIF / "replays"
    d.mkdir(exist_ok=True)
    name = f"{prop}-{item['class']}-{item['rs']}.json"
    path = d / name
    path.write_text(json.dumps({
        "property": prop, "scenario": scenario, "active": sorted(active), "rs": item["rs"], "cfg": m["cfg"],
        "choices": m["choices"], "class": m["class"], "msg": m["msg"], "digest": m["digest"],
        "faults": m["faults"], "trace": m["log"],
    }, indent=1))
    return path


def replay_main(path):
    q = json.loads(Path(path).read_text())
    scn = importlib.import_module("scenarios." + q["scenario"])
    if hasattr(scn, "prepare"):
        scn.prepare(q["property"])
    r = _child_run({"mode": "run", "scenario": q["scenario"], "active": q["active"], "log": True, "prop": q["property"],
                    "items": [{"rs": q["rs"], "cfg": q["cfg"], "choices": q["choices"]}]})[0]
    for line in r["log"]:
        print(line)
    if r["violation"] and r["violation"]["class"] == q["class"]:
        same = r["digest"] == q["digest"]
        print(f"reproduced {q['class']}: {r['violation']['msg']} (event log {'identical' if same else 'DIFFERS'})")
        print(f"VIOLATION property={q['property']} replay={path}")
        return 1
    print("not reproduced")
    return 0


def run_property(spec, tier, seed):
    prop, scn_name = spec["property"], spec["scenario"]
    t0 = time.time()
    scn = importlib.import_module("scenarios." + scn_name)
    active = set(spec.get("classes") or scn.CLASSES[prop])
    n = spec["runs"][tier]
    cap = spec["cap_s"][tier]
    W = int(os.environ.get("VERIF_WORKERS", "8"))
    salt = spec.get("salt", scn_name)
    ctx = mp.get_context("fork")
    if hasattr(scn, "prepare"):
        try:
            scn.prepare(prop)
        except Exception:
            traceback.print_exc()
            print(f"ERROR property={prop}: preparation failed")
            return 2
    stop = ctx.Event()
    deadline = time.time() + cap
    parts = []
    for w in range(W):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(scn_name, active, seed, salt, w, W, n, deadline, stop, b, prop))
        p.start()
        b.close()
        parts.append((p, a))
    aggs, found, errors = [], [], []
    for p, a in parts:
        try:
            kind, x, f = a.recv()
        except EOFError:
            kind, x, f = "error", f"worker died (exit {p.exitcode})", None
        if kind == "ok":
            aggs.append(x)
            found += f
        else:
            errors.append(x)
        p.join()
    explored_s = time.time() - t0

    def tot(k):
        return sum(a[k] for a in aggs)

    def mrg(k):
        out = {}
        for a in aggs:
            for x, y in a[k].items():
                out[x] = out.get(x, 0) + y
        return dict(sorted(out.items()))
    runs = tot("runs")
    digests = set().union(*[set(a["digests"]) for a in aggs]) if aggs else set()
    scheds = set().union(*[set(a["scheds"]) for a in aggs]) if aggs else set()
    nontriv = set().union(*[set(a["nontrivial"]) for a in aggs]) if aggs else set()
    samples = [s for a in aggs for s in a["samples"]][:3]

    rc, nviol, notes = 0, 0, []
    kf = known_findings(prop)
    found.sort(key=lambda f: f["i"])
    seen_known = set()
    fresh = []
    for f in found:
        k = next((x for x in kf if x["class"] == f["class"] and re.search(x["match"], f["msg"])), None)
        if k:
            seen_known.add(k["text"])
        else:
            fresh.append(f)
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k['text']}")
    reported = set()
    unconfirmed = []
    for f in fresh:
        if f["class"] in reported or len(reported) >= 1:
            continue
        base = {"scenario": scn_name, "active": sorted(active), "prop": prop}
        try:
            it = {"rs": f["rs"], "cfg": f["cfg"]}
            two = [_child_run(dict(base, mode="run", items=[it], hashseed=h))[0] for h in (0, 77)]
            if any(not r["violation"] or r["violation"]["class"] != f["class"] or r["digest"] != f["digest"] for r in two):
                unconfirmed.append(f"{f['class']} seed {f['rs']}: a second run of the same seed differs")
                continue
            if f["hang"]:
                m = {"ok": True, "cfg": f["cfg"], "choices": {}, "class": f["class"], "msg": f["msg"],
                     "digest": "hang", "log": [], "faults": {}}
            else:
                m = _child_run(dict(base, mode="min", item=dict(f, choices={str(k): v for k, v in f["choices"].items()}),
                                    budget=spec.get("min_s", 40)))
            if not m["ok"]:
                m = dict(two[0], ok=True, cfg=f["cfg"], **{"class": f["class"]}, msg=f["msg"])
                m["choices"] = two[0]["choices"]
            path = write_replay(prop, scn_name, active, f, m)
            if not f["hang"]:
                r = _child_run(dict(base, mode="run", items=[{"rs": f["rs"], "cfg": m["cfg"], "choices": m["choices"]}], hashseed=5))[0]
                if not r["violation"] or r["violation"]["class"] != f["class"] or r["digest"] != m["digest"]:
                    unconfirmed.append(f"{f['class']} seed {f['rs']}: the replay file does not reproduce it")
                    continue
        except Exception as e:      # noqa: BLE001
            unconfirmed.append(f"{f['class']} seed {f['rs']}: {e}")
            continue
        reported.add(f["class"])
        nviol += 1
        print(f"{prop}: {f['class']}: {m['msg']}")
        print(f"  seed {seed} run {f['i']} (run seed {f['rs']}), minimised to {len(m['choices'])} decisions, faults {m['faults']}")
        for line in m["log"][-25:]:
            print("  | " + line)
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        rc = 1
    if rc == 0 and unconfirmed:
        for u in unconfirmed:
            print("ERROR unconfirmed violation: " + u)
        rc = 2
    if errors and rc == 0:
        print("ERROR " + errors[0])
        rc = 2
    # determinism: a sample of this batch again, elsewhere, other hash seed
    det = {"rerun": 0, "mismatch": 0}
    if rc == 0 and runs:
        k = spec.get("determinism", {}).get(tier, 24 if tier == "quick" else 200)
        ids = sorted({(j * max(1, runs // k)) for j in range(k) if j * max(1, runs // k) < runs})
        items, want = [], {}
        have = {}
        for w, a in enumerate(aggs):
            for j, dg in enumerate(a["digests"]):
                have[w + j * W] = dg
        for i in ids:
            if i in have:
                rs = run_seed_of(seed, salt, i)
                cfg = scn.gen_config(rs) if not hasattr(scn, "gen_config_for") else scn.gen_config_for(rs, prop)
                items.append({"rs": rs, "cfg": cfg})
                want[len(items) - 1] = have[i]
        try:
            rr = _child_run({"mode": "run", "scenario": scn_name, "active": sorted(active), "items": items,
                             "hashseed": 4242, "prop": prop})
            det["rerun"] = len(rr)
            det["mismatch"] = sum(1 for j, r in enumerate(rr) if r["digest"] != want[j])
        except Exception as e:      # noqa: BLE001
            det["error"] = str(e)[-500:]
    wall = time.time() - t0
    level = spec.get("level", "exploration")
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(nontriv),
        "rule": spec["rule"],
        "samples": samples,
        "runs_per_hour": int(runs / max(explored_s, 1e-3) * 3600),
        "seeds": {"VERIF_SEED": seed, "run_seeds": runs},
        "simulated_seconds": round(tot("sim_s"), 3) if aggs else 0,
        "scheduler_steps": tot("steps") if aggs else 0,
        "task_switches": tot("switches") if aggs else 0,
        "faults_injected": mrg("faults"),
        "runs_with_faults": tot("fault_runs") if aggs else 0,
        "probes": mrg("probes"),
        "distinct_event_logs": len(digests),
        "distinct_schedules": len(scheds),
        "components": scn.COMPONENTS if not callable(scn.COMPONENTS) else scn.COMPONENTS(prop),
        "determinism_sample": det,
        "extra": mrg("extra"),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{prop}: {runs} runs ({len(nontriv)} distinct non-trivial, {len(scheds)} schedules) in {wall:.1f} s, "
          f"faults {mrg('faults')}, determinism {det}" + (f", other {mrg('other')}" if aggs and mrg('other') else ""))
    return rc
