"""C15: lifted transforms split or broadcast RNG streams as asked and never reuse keys."""
import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnx.contextlib import to_rng_predicate
from nnxmon import gen

RULE = (
    "Contexts with random streams go through nnx.jit / remat / scan / Scan / Remat (call "
    "and constructor) and nestings of them, between draws and forks by the caller; every "
    "key seen inside is returned and recorded; the offline monitor checks split streams "
    "differ per step, others agree per step, no key repeats across calls, streams and "
    "the caller, and the whole history is reproducible; non-trivial = distinct history."
)
NEED = {"inner_key": 1500, "split": 100, "broadcast": 70, "predicate": 1500, "init": 40,
        "transform": 200, "flags": 300,
        "grow": 30}

STREAMS = ["params", "dropout", "noise", "a"]


def rand_rng_filter(rng, depth=0):
  """(filter, reference predicate on the stream name)."""
  r = rng.random()
  if r < 0.12:
    return None, lambda n: False
  if r < 0.24:
    return ..., lambda n: True
  if r < 0.52 or depth >= 2:
    s = rng.choice(STREAMS + ["other"])
    return s, lambda n: n == s
  if r < 0.64:
    k = rng.choice(["a", "o", "p"])
    return (lambda n: k in n), (lambda n: k in n)
  if r < 0.84:
    subs = [rand_rng_filter(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    t = rng.choice([tuple, list])
    return t(f for f, _ in subs), lambda n: any(g(n) for _, g in subs)
  items = {}
  for _ in range(rng.randint(0, 3)):
    k = rng.choice(STREAMS + ["other", None, ...])
    items[k] = rng.random() < 0.6
  def pred(n):
    for k, inc in items.items():
      if inc and (k is ... or (k is not None and k == n)):
        return True
    return False
  return items, pred


def predicates(case):
  rng = case.rng
  for _ in range(12):
    f, g = rand_rng_filter(rng)
    p = to_rng_predicate(f)
    for n in STREAMS + ["other", "", "params2"]:
      case.check(bool(p(n)) is bool(g(n)), "rng predicate", filter=f, name=n)
      case.event("predicate")
    case.sig(str(f)[:80])
  for bad in (1, 2.5, object(), True):
    if not callable(bad):
      case.raises(TypeError, lambda: to_rng_predicate(bad), "invalid rng filter")


def kd(k):
  return np.asarray(jax.random.key_data(k) if jax.dtypes.issubdtype(
      k.dtype, jax.dtypes.prng_key) else k)


BODIES = []  # one entry per context seen by draw_all
FLAG_NAMES = ["deterministic", "use_running_average", "train", "f"]


def draw_all(ctx, streams, n):
  """{stream: (n, 2) key data}"""
  BODIES.append({f: ctx.get_flag(f) for f in FLAG_NAMES if ctx.has_flag(f)})
  return {s: jnp.stack([ctx.make_rng(s) for _ in range(n)]) for s in streams
          if ctx.has_rng(s)}


class Body(nnx.Module):
  """Returns the keys it was given."""

  def __init__(self, streams, n, *, ctx=None):
    self.streams = tuple(streams)
    self.n = n
    self.seen = nnx.Param(jnp.zeros((1,)))
    if ctx is not None:
      self.seen = {s: v for s, v in draw_all(ctx, streams, n).items()}

  def __call__(self, c, x, *, ctx):
    return c, draw_all(ctx, self.streams, self.n)

  def grow(self, c, x, *, ctx):
    """The first call makes variables."""
    if not hasattr(self, "made"):
      self.made = nnx.Cache(jnp.zeros(()))
      self.shared = nnx.BatchStat(jnp.zeros(()))
    out = draw_all(ctx, self.streams, self.n)
    self.made = self.made + 1
    return c, out

  def one(self, x, *, ctx):
    return draw_all(ctx, self.streams, self.n)

  def nested(self, x, *, ctx):
    a = draw_all(ctx, self.streams, 1)
    b = nnx.remat(lambda m, x, *, ctx: m.one(x, ctx=ctx))(self, x, ctx=ctx)
    c = nnx.jit(lambda m, x, *, ctx: m.one(x, ctx=ctx))(self, x, ctx=ctx)
    d = draw_all(ctx, self.streams, 1)
    return {s: jnp.concatenate([a[s], b[s], c[s], d[s]]) for s in a}


class Monitor:
  """All keys of a history; every one new unless its stream was broadcast."""

  def __init__(self, case):
    self.case = case
    self.seen = {}
    self.log = []

  def once(self, arr, what):
    a = np.asarray(arr).reshape(-1, 2)
    for row in a:
      k = row.tobytes()
      if k in self.seen:
        self.case.fail("a key was handed out twice", first=self.seen[k], second=what)
      self.seen[k] = what
    self.log.append(a.tobytes())
    self.case.event("inner_key", len(a))


def run_history(case, seeds, plan, mon, flags):
  streams = sorted(seeds)
  ctx = nnx.context(**seeds, flags=flags or None)
  m = Body(streams, 1)
  for j, (kind, n, L, f, pred, opts) in enumerate(plan):
    what = (j, kind)
    BODIES.clear()
    case.note(*what, n, L, f)
    m.n = n
    if kind == "draw":
      for s, v in draw_all(ctx, streams, n).items():
        mon.once(v, what + (s,))
    elif kind == "fork":
      for s, v in draw_all(ctx.partition().merge(), streams, n).items():
        mon.once(v, what + (s,))
    elif kind in ("jit", "remat", "nested_jit", "nested_remat", "Remat"):
      if kind == "jit":
        out = nnx.jit(lambda m, x, *, ctx: m.one(x, ctx=ctx))(m, 1.0, ctx=ctx)
      elif kind == "remat":
        out = nnx.remat(lambda m, x, *, ctx: m.one(x, ctx=ctx))(m, 1.0, ctx=ctx)
      elif kind == "Remat":
        out = nnx.Remat(Body)(streams, n).call.one(1.0, ctx=ctx)
      elif kind == "nested_jit":
        out = nnx.jit(lambda m, x, *, ctx: m.nested(x, ctx=ctx))(m, 1.0, ctx=ctx)
      else:
        out = nnx.remat(lambda m, x, *, ctx: m.nested(x, ctx=ctx))(m, 1.0, ctx=ctx)
      case.eq(sorted(out), streams, "streams available inside")
      for s, v in out.items():
        mon.once(v, what + (s,))
      case.event("transform")
    elif kind in ("scan", "Scan", "jit_scan", "scan_remat", "scan_scan"):
      inner = m
      step = lambda m, c, x, *, ctx: m(c, x, ctx=ctx)
      reps = 1
      opts = dict(opts)
      grow = opts.pop("grow", False)
      if grow:
        inner, step = Body(streams, n), lambda m, c, x, *, ctx: m.grow(c, x, ctx=ctx)
        case.event("grow")
      if kind == "scan_remat":
        step = nnx.remat(step)
      if kind == "scan_scan":
        base, reps = step, 2
        def step(m, c, x, *, ctx):
          c, out = nnx.scan(base, length=2, split_rngs=...)(m, c, None, ctx=ctx)
          return c, {s: v.reshape(-1, 2) for s, v in out.items()}
      kw = dict(split_rngs=f, **opts)
      xs = jnp.zeros((L,))
      if kind == "Scan":
        scanned = nnx.Scan(Body, **kw)(streams, n)
        _, out = (scanned.call.grow if grow else scanned)(0.0, xs, ctx=ctx)
      elif kind == "jit_scan":
        g = nnx.scan(step, **kw)
        _, out = nnx.jit(lambda m, xs, *, ctx: g(m, 0.0, xs, ctx=ctx))(inner, xs, ctx=ctx)
      else:
        _, out = nnx.scan(step, **kw)(inner, 0.0, xs, ctx=ctx)
      case.eq(sorted(out), streams, "streams available inside")
      for s, v in out.items():
        v = np.asarray(v)
        case.eq(v.shape, (L, n * reps, 2), "keys per step")
        if pred(s):
          mon.once(v, what + (s, "split"))
          case.event("split")
        else:
          case.check((v == v[:1]).all(), f"stream {s} is not split but differs per step")
          mon.once(v[0], what + (s, "broadcast"))
          case.event("broadcast")
      case.event("transform")
    elif kind == "init":
      kw = dict(split_rngs=f, variable_axes={nnx.Param: 0}, length=L)
      if opts.get("deco"):
        class Deco(Body):
          __init__ = nnx.scan(Body.__init__, **kw)
        out = Deco(streams, n, ctx=ctx).seen
      else:
        out = nnx.Scan(Body, **kw)(streams, n, ctx=ctx).scan_module.seen
      for s, v in out.items():
        v = np.asarray(v)
        case.eq(v.shape, (L, n, 2), "stacked parameters")
        if pred(s):
          mon.once(v, what + (s, "split"))
          case.event("split")
        else:
          case.check((v == v[:1]).all(), f"stream {s} is not split but differs per layer")
          mon.once(v[0], what + (s, "broadcast"))
          case.event("broadcast")
      case.event("init")
      case.event("transform")
    for seen in BODIES:
      case.eq(seen, flags, "flags inside the body are the caller's", step=what)
      case.event("flags")
  for s, v in draw_all(ctx, streams, 2).items():
    mon.once(v, ("end", s))


KINDS = ["draw", "fork", "jit", "remat", "scan", "scan", "Scan", "init", "init", "Remat",
         "jit_scan", "scan_remat", "scan_scan", "nested_jit", "nested_remat"]


def histories(case):
  rng = case.rng
  streams = rng.sample(STREAMS, rng.randint(1, 3))
  base = rng.randint(0, 1 << 20)
  seeds = {s: base + 13 * i for i, s in enumerate(streams)}
  plan = []
  for _ in range(rng.randint(2, 4)):
    kind = rng.choice(KINDS)
    f, g = rand_rng_filter(rng)
    opts = {}
    if kind in ("scan", "Scan", "jit_scan", "scan_remat", "scan_scan"):
      if rng.random() < 0.3:
        opts["reverse"] = True
      if rng.random() < 0.4 and kind != "scan_scan":
        opts["grow"] = True
        if rng.random() < 0.5:
          opts["variable_broadcast"] = nnx.BatchStat
    elif kind == "init":
      opts = {"deco": rng.random() < 0.4}
    L = rng.choice([1, 2, 3, 4, 1, 2, 3, 4, 9, 18])
    if kind == "Scan":
      opts["length"] = L
    plan.append((kind, rng.randint(1, 2), L, f, g, opts))
  case.note(seeds)
  case.sample((seeds, [(p[0], p[1], p[2], str(p[3])) for p in plan]))
  flags = {f: rng.random() < 0.5 for f in rng.sample(FLAG_NAMES, rng.randint(1, 3))} \
      if rng.random() < 0.5 else {}
  case.note(flags)
  mon = Monitor(case)
  run_history(case, seeds, plan, mon, flags)
  if rng.random() < 0.5:
    again = Monitor(case)
    run_history(case, seeds, plan, again, flags)
    case.eq(again.log, mon.log, "the same history gives the same keys")
  case.sig(streams, [(p[0], p[1], p[2], str(p[3])[:40], sorted(p[5])) for p in plan])


def layers(case):
  """Real layers: scanned initialization and dropout follow the split."""
  rng = case.rng
  L, n = rng.randint(2, 4), rng.randint(2, 4)
  split = rng.choice([None, "params", ..., ("params", "dropout"), {"params": True}])
  pred = {"params": split is not None,
          "dropout": split is ... or isinstance(split, tuple)}
  seed = rng.randint(0, 999)
  case.note(L, n, split, seed)

  class Block(nnx.Module):

    def __init__(self, *, ctx):
      self.dense = nnx.Linear(n, n, ctx=ctx)
      self.drop = nnx.Dropout(0.5)

    def __call__(self, c, x, *, ctx):
      return c, (self.drop(jnp.ones((64,)), deterministic=False, ctx=ctx), self.dense(x))

  scan = nnx.Scan(Block, variable_axes={nnx.Param: 0}, length=L, split_rngs=split)
  m = scan(ctx=nnx.context(seed))
  k = np.asarray(m.scan_module.dense.kernel)
  case.eq(k.shape, (L, n, n), "stacked kernel")
  same = all((k[0] == k[i]).all() for i in range(1, L))
  distinct = len({k[i].tobytes() for i in range(L)}) == L
  case.check(distinct if pred["params"] else same, "kernels per layer follow split_rngs")
  ctx = nnx.context(dropout=seed)
  masks = []
  for call in range(2):
    _, (d, y) = m(0.0, jnp.ones((L, n)), ctx=ctx)
    d = np.asarray(d) > 0
    masks.append(d)
    same = all((d[0] == d[i]).all() for i in range(1, L))
    distinct = len({d[i].tobytes() for i in range(L)}) == L
    case.check(distinct if pred["dropout"] else same, "dropout masks per layer follow split_rngs")
    case.close(y, np.einsum("i,lio->lo", np.ones(n), k), "each layer uses its own kernel",
               rtol=1e-4)
  case.check((masks[0] != masks[1]).any(), "a second call uses new masks")
  case.event("init")
  case.event("transform", 2)
  case.sig(L, n, str(split), seed)


FAMILIES = {
    "predicates": dict(fn=predicates, quick=40),
    "histories": dict(fn=histories, quick=130),
    "layers": dict(fn=layers, quick=30),
}
