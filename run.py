"""Entry: run.py Cxx [--tier quick|thorough] [--replay FILE] [--jobs N]"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


def child_env(extra=None):
  env = dict(os.environ)
  env.update(
      JAX_PLATFORMS="cpu",
      PYTHONDONTWRITEBYTECODE="1",
      PYTHONHASHSEED="0",
      TF_CPP_MIN_LOG_LEVEL="3",
      OMP_NUM_THREADS="1",
  )
  flags = ["--xla_cpu_multi_thread_eigen=false", "intra_op_parallelism_threads=1"]
  env["XLA_FLAGS"] = " ".join((extra or {}).pop("XLA_FLAGS", "").split() + flags)
  env.update(extra or {})
  return env


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
  ap.add_argument("--replay")
  ap.add_argument("--shard")
  ap.add_argument("--out")
  ap.add_argument("--jobs", type=int, default=0)
  a = ap.parse_args()
  tier = a.tier if a.tier in ("quick", "thorough") else "quick"
  modname = "checks." + a.prop.lower()

  if os.environ.get("NNXMON_CHILD") != "1" and not a.shard:
    mod_meta = read_meta(modname)
    if a.replay:
      env = child_env(dict(mod_meta.get("ENV", {})))
      env["NNXMON_CHILD"] = "1"
      return subprocess.call(
          [sys.executable, os.path.abspath(__file__), a.prop, "--replay", a.replay],
          env=env,
      )
    return parent(a, tier, modname, mod_meta)

  sys.path.insert(0, os.environ.get("NNX_REPO", "/repo"))
  sys.setrecursionlimit(3000)
  from nnxmon import core

  mod = importlib.import_module(modname)
  if a.replay:
    return core.replay(mod, a.prop, a.replay)
  shard, n = map(int, a.shard.split("/"))
  budget = float(os.environ.get("NNXMON_BUDGET_S", "600"))
  core.shard_main(mod, a.prop, a.seed, tier, shard, n, a.out, budget)
  return 0


def read_meta(modname):
  """ENV / JOBS literals of a check, read without importing jax in the parent."""
  import ast

  path = os.path.join(ROOT, *modname.split(".")) + ".py"
  meta = {}
  for node in ast.parse(open(path).read()).body:
    if isinstance(node, ast.Assign) and node.targets[0].id in ("ENV", "JOBS", "RULE",
                                                               "ASSUMPTIONS", "NEED"):
      meta[node.targets[0].id] = ast.literal_eval(node.value)
  return meta


def parent(a, tier, modname, meta):
  start = time.monotonic()
  jobs = a.jobs or meta.get("JOBS", 8)
  budget = 420 if tier == "quick" else 780
  env = child_env(dict(meta.get("ENV", {})))
  env.update(NNXMON_CHILD="1", NNXMON_BUDGET_S=str(budget))
  if tier == "thorough":
    env["NNXMON_BUDGET_S"] = os.environ.get("NNXMON_BUDGET_S", "660")
  tmp = tempfile.mkdtemp(prefix="nnxmon-")
  procs, outs, errs = [], [], []
  try:
    for i in range(jobs):
      out = os.path.join(tmp, f"{i}.json")
      err = open(os.path.join(tmp, f"{i}.err"), "w+")
      cmd = [sys.executable, os.path.abspath(__file__), a.prop, "--tier", tier,
             "--seed", str(a.seed), "--shard", f"{i}/{jobs}", "--out", out]
      procs.append(subprocess.Popen(cmd, env=env, stdout=err, stderr=err, cwd=tmp))
      outs.append(out)
      errs.append(err)
    deadline = time.monotonic() + 850
    broken = []
    pending = set(range(jobs))
    stop = False
    while pending and not stop:
      for i in sorted(pending):
        rc = procs[i].poll()
        if rc is not None:
          pending.discard(i)
          if rc != 0 or not os.path.exists(outs[i]):
            errs[i].seek(0)
            broken.append(f"shard {i} rc={rc}: {errs[i].read()[-3000:]}")
          else:
            with open(outs[i]) as f:
              if json.load(f)["violation"]:
                stop = True  # one witness decides
      if time.monotonic() > deadline:
        broken.append(f"watchdog: shards {sorted(pending)} still running")
        break
      time.sleep(0.05)
    for p in procs:
      if p.poll() is None:
        p.kill()
      p.wait()
    reports = []
    for o in outs:
      if os.path.exists(o):
        with open(o) as f:
          reports.append(json.load(f))
  finally:
    for e in errs:
      e.close()
    subprocess.call(["rm", "-rf", tmp])
  return conclude(a, tier, meta, reports, broken, time.monotonic() - start)


def conclude(a, tier, meta, reports, broken, wall):
  events, cases, sigs, samples, findings, unfinished = {}, {}, set(), [], {}, {}
  asserts = 0
  violation = None
  for r in reports:
    for k, v in r["rec"]["events"].items():
      events[k] = events.get(k, 0) + v
    for k, v in r["rec"]["cases"].items():
      cases[k] = cases.get(k, 0) + v
    for k, v in r["unfinished"].items():
      unfinished[k] = unfinished.get(k, 0) + v
    sigs.update(r["rec"]["sigs"])
    asserts += r["rec"]["asserts"]
    for s in r["rec"]["samples"]:
      if sum(1 for x in samples if x["family"] == s["family"]) < 1:
        samples.append(s)
    findings.update(r["rec"]["findings"])
    violation = violation or r["violation"]
  ev = {
      "property": a.prop,
      "tier": tier,
      "seed": a.seed,
      "level": "exploration",
      "coverage": {
          "evaluations": sum(cases.values()),
          "distinct_nontrivial": len(sigs),
          "rule": meta.get("RULE", ""),
          "samples": samples,
          "oracle_assertions": asserts,
          "cases_per_family": cases,
          "monitor_events": events,
          "cases_cut_by_time_budget": unfinished,
          "shards": len(reports),
      },
      "assumptions": meta.get("ASSUMPTIONS", []),
      "wall_s": round(wall, 2),
      "violations": [],
  }
  rc = 0
  if violation:
    rel = f"out/{a.prop}-{violation['family']}-{violation['index']}-s{a.seed}.json"
    path = os.path.join(ROOT, rel)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
      json.dump(dict(property=a.prop, tier=tier, seed=a.seed, **violation), f, indent=1)
    ev["violations"] = [{"replay": rel, "text": violation["text"][:2000]}]
    print(violation["text"])
    print(f"VIOLATION property={a.prop} replay={rel}")
    rc = 1
  else:
    for key, what in sorted(findings.items()):
      print(f"KNOWN-FINDING: property={a.prop} {key}: {what}")
    missing = [k for k, n in meta.get("NEED", {}).items() if events.get(k, 0) < n]
    if broken:
      print("INCONCLUSIVE:", "\n".join(broken))
      rc = 2
    elif missing:
      print("INCONCLUSIVE: monitors saw too little:",
            {k: events.get(k, 0) for k in missing})
      rc = 2
    elif not sigs:
      print("INCONCLUSIVE: no non-trivial case")
      rc = 2
    elif tier == "quick" and unfinished:
      print("INCONCLUSIVE: time budget cut the run:", unfinished)
      rc = 2
  os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
  with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
    json.dump(ev, f, indent=1)
  print(f"{a.prop} {tier} seed={a.seed}: {sum(cases.values())} cases, "
        f"{len(sigs)} distinct, {asserts} oracle assertions, {wall:.1f} s, exit {rc}")
  return rc


if __name__ == "__main__":
  sys.exit(main())
