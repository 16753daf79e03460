"""C14: RNG streams never repeat a key, are deterministic and independent."""
import hashlib
import json
import os
import subprocess
import sys

import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnxmon import gen

RULE = (
    "Random histories over a growing family of contexts (draws, forks by "
    "partition/merge, copies, nested 1-6 deep and in chains up to 30 deep, counts from 0 to thousands, several "
    "streams, int/array/typed-key/RngStream seeds, flags) are recorded; an offline "
    "monitor checks that no key repeats, that a replay (also in another process with "
    "another hash seed) gives the same keys, that draws of other streams and inside "
    "forks change nothing; non-trivial = distinct history."
)
NEED = {"key": 20000, "fork": 1200, "replayed": 350, "unknown": 300, "process": 2,
        "shared_stream": 40}

STREAMS = ["params", "dropout", "noise", "a", "1", "11", "b", "c", "é"]
FLAGS = ["train", "debug", "x", "use_running_average", "deterministic", "f", "g"]


def kd(key):
  if jax.dtypes.issubdtype(key.dtype, jax.dtypes.prng_key):
    key = jax.random.key_data(key)
  return np.asarray(key).tobytes()


def make(seeds, how=None, flags=None):
  kw = {}
  for name, s in seeds.items():
    h = (how or {}).get(name, "int")
    kw[name] = (s if h == "int" else jax.random.PRNGKey(s) if h == "key" else
                nnx_stream(jax.random.PRNGKey(s)) if h == "stream" else s)
  return nnx.context(flags=flags, **kw)


def nnx_stream(key):
  from nnx.contextlib import RngStream
  return RngStream(key)


def rand_history(rng, n, streams, p_draw=0.7, burst=1):
  """List of actions over contexts 0.. (0 is the root)."""
  h, k = [], 1
  depth = {0: 0}
  for _ in range(n):
    c = rng.randrange(k) if rng.random() < 0.6 else k - 1
    r = rng.random()
    if rng.random() < 0.03 and depth[c] < 6:
      # two deep chains that differ only at their outer end
      d = rng.randint(2, 24)
      for _ in range(2):
        at = c
        for _ in range(d):
          h.append(("fork", at))
          depth[k] = depth[at] + 1
          at, k = k, k + 1
        h.append(("draw", at, rng.choice(streams), rng.randint(1, burst + 1)))
    elif r < p_draw:
      h.append(("draw", c, rng.choice(streams), rng.randint(1, burst)))
    elif r < p_draw + (1 - p_draw) * 0.8 and depth[c] < 6:
      h.append(("fork", c))
      depth[k] = depth[c] + 1
      k += 1
    else:
      h.append(("copy", c))
      depth[k] = depth[c]
      k += 1
  return h


def execute(root, history, only=None):
  """[(index of the action, stream, key bytes)]"""
  ctxs, out = [root], []
  for i, act in enumerate(history):
    if act[0] == "draw":
      if only is None or act[2] == only:
        for _ in range(act[3]):
          out.append((i, act[2], kd(ctxs[act[1]].make_rng(act[2]))))
    elif act[0] == "fork":
      ctxs.append(ctxs[act[1]].partition().merge())
    else:
      ctxs.append(ctxs[act[1]].copy())
  return out


def shifted(seeds, k):
  root = make(seeds)
  for _ in range(k):
    root = root.partition().merge()
  return root


def check_unique(case, seeds, history, log, what):
  """A repeated key is a violation unless it is a one-off coincidence of the 32 bit
  fold: a genuine reuse also happens when the same history starts from a fork."""
  if len({k for _, _, k in log}) == len(log):
    return
  first = {}
  pairs = []
  for pos, (i, name, k) in enumerate(log):
    if k in first:
      pairs.append((log[first[k]][:2], (i, name)))
    else:
      first[k] = pos
  again = 0
  for shift in (1, 2, 3):
    other = execute(shifted(seeds, shift), history)
    again += len({k for _, _, k in other}) != len(other)
  if again or len(pairs) > 2:
    case.fail(f"{what}: a key was handed out twice", pairs=pairs[:5],
              actions=[(history[a[0]], history[b[0]]) for a, b in pairs[:3]],
              replays_with_repeats=again, keys=len(log))
  case.event("coincidence")


def histories(case):
  rng = case.rng
  streams = rng.sample(STREAMS, rng.choice([1, 2, 3, 4, 8]))
  base = rng.randint(0, 1 << 20)
  seeds = {name: base + 7 * j for j, name in enumerate(streams)}
  how = {name: rng.choice(["int", "key", "stream"]) for name in streams}
  flags = {f: rng.random() < 0.5 for f in rng.sample(FLAGS, rng.choice([0, 1, 2, 6]))}
  h = rand_history(rng, rng.randint(8, 40), streams)
  case.note(seeds, how)
  case.note(h)
  case.sample((seeds, how, h[:12]))
  root = make(seeds, how, flags or None)
  log = execute(root, h)
  case.event("key", len(log))
  case.event("fork", sum(1 for a in h if a[0] == "fork"))
  check_unique(case, seeds, h, log, "history")
  base_keys = {kd(jax.random.PRNGKey(s)) for s in seeds.values()}
  case.check(not base_keys & {k for _, _, k in log}, "a base key was handed out")
  # determinism: the same seeds and history, given another way
  case.eq(execute(make(seeds), h), log, "replay with integer seeds")
  case.event("replayed")
  # streams do not influence each other
  name = rng.choice(streams)
  case.eq(execute(make(seeds), h, only=name), [e for e in log if e[1] == name],
          f"stream {name} without the draws of the others")
  # another seed: other keys
  other = dict(seeds, **{name: seeds[name] + 1000003})
  log2 = execute(make(other), h)
  case.eq([e for e in log2 if e[1] != name], [e for e in log if e[1] != name],
          "other streams under a different seed of one")
  case.check(not {k for i, s, k in log if s == name} & {k for i, s, k in log2 if s == name},
             "keys shared by different seeds")
  # what happens inside a fork stays there
  forks = [i for i, a in enumerate(h) if a[0] == "fork"]
  if forks:
    i = rng.choice(forks)
    c = 1 + sum(1 for a in h[:i] if a[0] in ("fork", "copy"))
    fam = {c}
    k = c + 1
    for a in h[i + 1:]:
      if a[0] in ("fork", "copy"):
        if a[1] in fam:
          fam.add(k)
        k += 1
    keep = [j for j, a in enumerate(h) if not (a[0] == "draw" and a[1] in fam)]
    quiet = [a if j in set(keep) else ("draw", a[1], a[2], 0) for j, a in enumerate(h)]
    case.eq(execute(make(seeds), quiet), [e for e in log if e[0] in set(keep)],
            "the rest of the history without the draws inside a fork")
  case.sig(streams, h)


def long_runs(case):
  """Long streams and forks taken at high counts."""
  rng = case.rng
  base = rng.randint(0, 1 << 20)
  kind = "flat" if case.index == 0 else rng.choice(["flat", "forks", "nested"])
  seeds = {"params": base}
  if kind == "flat":
    # (index 0: a stream of a long training run)
    h = [("draw", 0, "params", 9000 if case.index == 0 else rng.randint(600, 1100))]
  elif kind == "forks":
    # many forks of the root, each drawn from
    h, k = [], 0
    for _ in range(rng.randint(20, 40)):
      h.append(("fork", 0))
      k += 1
      h.append(("draw", k, "params", rng.randint(10, 26)))
      if rng.random() < 0.5:
        h.append(("draw", 0, "params", rng.randint(1, 3)))
  else:
    h, c, k = [], 0, 0
    for _ in range(rng.randint(4, 6)):
      h.append(("draw", c, "params", rng.choice([1, 9, 10, 11, 12, 23, 99, 110])))
      h.append(("fork", c))
      k += 1
      h.append(("draw", c, "params", rng.randint(1, 13)))
      if rng.random() < 0.4:
        h.append(("fork", c))
        k += 1
        h.append(("draw", k - 1, "params", rng.randint(1, 13)))
      c = k
      h.append(("draw", c, "params", rng.randint(1, 25)))
  log = execute(make(seeds), h)
  case.note(kind, base, h[:30])
  case.event("key", len(log))
  case.event("fork", sum(1 for a in h if a[0] == "fork"))
  check_unique(case, seeds, h, log, kind)
  case.eq(execute(make(seeds), h[: len(h) // 2]),
          [e for e in log if e[0] < len(h) // 2], "prefix of the history")
  case.event("replayed")
  case.sig(kind, h)


def interface(case):
  """Unknown streams, flags, has_rng, kinds of seed, pure contexts."""
  rng = case.rng
  streams = rng.sample(STREAMS, rng.randint(0, 4))
  seed = rng.randint(0, 1000)
  flags = {f: rng.choice([True, False, True, False, None, 0, 3, "mode"])
           for f in rng.sample(["train", "debug", "x"], rng.randint(0, 3))}
  kw = {s: seed + i for i, s in enumerate(streams)}
  case.note(streams, flags, seed)
  ctx = nnx.context(flags=dict(flags), **kw)
  cs = [ctx]
  for _ in range(rng.randint(0, 3)):
    cs.append(cs[-1].partition().merge() if rng.random() < 0.7 else cs[-1].copy())
  for c in cs:
    for s in STREAMS + ["other", ""]:
      case.check(c.has_rng(s) is (s in streams), f"has_rng({s!r})")
      if s not in streams:
        case.raises(ValueError, lambda: c.make_rng(s), f"unknown stream {s!r}")
        case.event("unknown")
    for f in ["train", "debug", "x", "zzz"]:
      case.check(c.has_flag(f) is (f in flags), f"has_flag({f})")
      case.check(c.get_flag(f) is flags.get(f), f"get_flag({f})")
  for s in streams:
    a = nnx.context(**{s: seed}).make_rng(s)
    b = nnx.context(**{s: jax.random.PRNGKey(seed)}).make_rng(s)
    c = nnx.context(**{s: nnx_stream(jax.random.PRNGKey(seed))}).make_rng(s)
    case.check(kd(a) == kd(b) == kd(c), "the seed's form does not matter")
    case.check(a.shape == (2,) and a.dtype == jnp.uint32, "a usable key")
    t = nnx.context(**{s: jax.random.key(seed)}).make_rng(s)
    case.check(jax.dtypes.issubdtype(t.dtype, jax.dtypes.prng_key), "typed keys stay typed")
    case.check(kd(t) == kd(a), "typed key")
    # the stream's name is not part of the key, its history is
    p = nnx.context(seed).make_rng("params")
    case.check(kd(p) == kd(a), "positional params seed")
    case.event("key", 5)
  # a stream object given to several contexts, or under several names, is one stream
  stream = nnx_stream(jax.random.PRNGKey(seed))
  uses = []
  for _ in range(rng.randint(2, 3)):
    names = rng.sample(STREAMS, rng.randint(1, 2))
    uses += [(nnx.context(**{n: stream for n in names}), n) for n in names]
  alone = nnx.context(a=seed)
  order = [rng.choice(uses) for _ in range(6)] + uses
  got = [kd(c.make_rng(n)) for c, n in order]
  case.eq(got, [kd(alone.make_rng("a")) for _ in got], "keys drawn from a shared stream")
  case.event("shared_stream")
  case.event("key", len(got))
  if streams:
    s = streams[0]
    c = nnx.context(**kw)
    pure = c.partition()
    k1 = [kd(pure.merge().make_rng(s)) for _ in range(2)]
    case.check(k1[0] == k1[1], "merging the same pure context twice gives the same keys")
    leaves, treedef = jax.tree_util.tree_flatten(pure)
    case.eq(len(leaves), len(streams), "the leaves of a pure context are its keys")
    k2 = jax.tree_util.tree_unflatten(treedef, leaves).merge().make_rng(s)
    case.check(kd(k2) == k1[0], "a rebuilt pure context")
    case.check(kd(c.make_rng(s)) not in k1, "the original continues elsewhere")
    pure2 = c.partition()
    case.check(pure2.contextdef != pure.contextdef, "two forks have different definitions")
    case.event("replayed")
  case.sig(streams, sorted(flags.items()), len(cs))


PROG = """
import sys, json, hashlib
sys.path.insert(0, {root!r}); sys.path.insert(0, {repo!r})
import jax
from checks import c14
h = json.loads(sys.stdin.read())
log = c14.execute(c14.make(h["seeds"]), [tuple(a) for a in h["history"]])
print("KEYS", hashlib.sha256(b"".join(k for _, _, k in log)).hexdigest(), len(log))
"""


def processes(case):
  """Another process, with another hash seed, hands out the same keys."""
  rng = case.rng
  streams = rng.sample(STREAMS, 3)
  seeds = {name: rng.randint(0, 9999) for name in streams}
  h = rand_history(rng, 60, streams, burst=3)
  log = execute(make(seeds), h)
  want = hashlib.sha256(b"".join(k for _, _, k in log)).hexdigest()
  root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  for hs in (str(rng.randint(1, 1000)), "random"):
    env = dict(os.environ, PYTHONHASHSEED=hs)
    p = subprocess.run(
        [sys.executable, "-c", PROG.format(root=root, repo=os.environ.get("NNX_REPO", "/repo"))],
        input=json.dumps(dict(seeds=seeds, history=h)), capture_output=True, text=True,
        env=env)
    line = [l for l in p.stdout.splitlines() if l.startswith("KEYS")]
    if p.returncode or not line:
      raise RuntimeError("helper process failed: " + p.stderr[-1500:])
    case.eq(line[0].split()[1:], [want, str(len(log))], f"keys under PYTHONHASHSEED={hs}")
    case.event("process")
  case.sig(streams, h)


FAMILIES = {
    "histories": dict(fn=histories, quick=330),
    "long": dict(fn=long_runs, quick=60),
    "interface": dict(fn=interface, quick=160),
    "processes": dict(fn=processes, quick=2, thorough=12),
}
