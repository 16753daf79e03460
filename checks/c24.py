"""C24: nnx.Dict is a mapping of attributes and nnx.Sequence composes its layers."""
import collections
import functools
import inspect

import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnxmon import gen

RULE = (
    "Random Dicts go through random histories of item and attribute operations against a "
    "plain dict, and random Sequences of functions and modules with every signature kind "
    "(ctx, keyword, var-keyword) and output kind (tuple, named tuple, dict, list, None, "
    "scalar) are called against an explicit fold with a call log, before and after partition/"
    "merge; non-trivial = distinct (content, history) or (signatures, outputs)."
)
NEED = {"dict_op": 700, "dict_refused": 400, "seq_call": 350, "layer_call": 1100,
        "ctx_passed": 150, "ctx_withheld": 400, "seq_refused": 400, "long_sequence": 30,
        "merged": 200}

KEYS = ["a", "b", "c", "x1", "x10", "x2", "é", "a b", "a.b", "0", "10", "kernel", "_p", "Z",
        "_module", "_moduledef"]


def box(rng, depth=0):
  """(what is assigned, what reading gives, container type or None)."""
  r = rng.random()
  if r < 0.4:
    v = gen.rand_array(rng)
    t = rng.choice(gen.VAR_TYPES)
    return t(v, tag=gen.fresh()), v, t
  if r < 0.55:
    v = gen.rand_array(rng)
    return v, v, None
  if r < 0.7:
    v = f"s{gen.fresh()}"
    return v, v, None
  if r < 0.8:
    v = gen.fresh()
    return nnx.Static(v), v, nnx.Static
  if r < 0.9 or depth:
    m = gen.M0()
    m.w = nnx.Param(gen.rand_array(rng))
    return m, m, None
  sub = {k: box(rng, 1) for k in rng.sample(KEYS, 2)}
  d = nnx.Dict({k: b[0] for k, b in sub.items()})
  return d, d, None


def same(a, b):
  return a is b or gen.fp(a) == gen.fp(b)


def agree(case, d, model, what, order=True):
  keys = list(d)
  if order:
    case.eq(keys, list(model), f"{what}: keys in insertion order")
  else:
    case.eq(sorted(keys), sorted(model), f"{what}: keys")
  case.eq(len(d), len(model), f"{what}: len")
  case.eq(list(d.keys()), keys, f"{what}: keys()")
  for k in model:
    case.check(k in d, f"{what}: {k} in d")
    case.check(same(d[k], model[k][0]), f"{what}: d[{k!r}]")
    case.check(same(getattr(d, k), model[k][0]), f"{what}: attribute {k}")
    case.check(same(d.get(k, "missing"), model[k][0]), f"{what}: get({k!r})")
    t = model[k][1]
    raw = vars(d)[k]
    case.check((type(raw) is t) if t else not isinstance(raw, nnx.Container),
               f"{what}: container of {k}", got=type(raw), want=t)
  items = list(d.items())
  case.eq([k for k, _ in items], keys, f"{what}: items() keys")
  vals = list(d.values())
  for (k, v), w in zip(items, vals):
    case.check(same(v, model[k][0]) and same(w, model[k][0]), f"{what}: items/values of {k}")


def dict_history(case):
  rng = case.rng
  start = {k: box(rng) for k in rng.sample(KEYS, rng.randint(0, 4))}
  given = {k: b[0] for k, b in start.items()}
  how = rng.choice(["mapping", "pairs", "kwargs", "both", "iterator"])
  ident = {k: v for k, v in given.items() if k.isidentifier()}
  if how == "kwargs":
    start = {k: start[k] for k in ident}
    d = nnx.Dict(**ident)
  elif how == "both":
    rest = {k: v for k, v in given.items() if k not in ident}
    d = nnx.Dict(rest, **ident)
    start = {k: start[k] for k in list(rest) + list(ident)}
  elif how == "pairs":
    d = nnx.Dict(list(given.items()))
  elif how == "iterator":
    d = nnx.Dict(iter(given.items()))
  else:
    d = nnx.Dict(given)
  model = {k: (b[1], b[2]) for k, b in start.items()}
  case.note(how, list(model))
  agree(case, d, model, "created")
  hist = [how]
  for _ in range(rng.randint(3, 9)):
    op = rng.choice(["set", "set", "setattr", "del", "missing", "get", "update", "merge"])
    k = rng.choice(KEYS)
    hist.append((op, k in model))
    case.note(op, k, "present" if k in model else "absent")
    if op in ("set", "setattr"):
      new, read, t = box(rng)
      if k in model and model[k][1] is not None and model[k][1] is not nnx.Static:
        # an occupied Variable slot keeps its container, a plain value goes inside
        val = gen.rand_array(rng)
        new, read, t = val, val, model[k][1]
      elif k in model and model[k][1] is nnx.Static:
        new = read = f"v{gen.fresh()}"
        t = nnx.Static
      if op == "set":
        d[k] = new
      else:
        setattr(d, k, new)
      model[k] = (read, t)
    elif op == "del":
      if k in model:
        delattr(d, k)
        del model[k]
      else:
        case.raises(AttributeError, lambda: delattr(d, k), "deleting a missing key")
        case.event("dict_refused")
    elif op == "missing":
      for bad in [x for x in KEYS if x not in model][:3] + ["_module__state", "nope"] + rng.sample(
          ["items", "keys", "values", "get", "init", "apply", "partition", "clone",
           "__class__", "__dict__", "__len__", "_setattr"], 3):
        case.raises(KeyError, lambda: d[bad], f"missing key {bad}")
        case.check(bad not in d, f"{bad} not in d")
        case.check(d.get(bad, 7) == 7, "get with a default")
        case.event("dict_refused")
      case.raises(AttributeError, lambda: d.nope, "missing attribute")
    elif op == "get":
      case.check(d.get("nope") is None, "get without a default")
    elif op == "update":
      k2 = rng.choice(KEYS)
      for kk in {k, k2} - set(model):
        new, read, t = box(rng)
        d[kk] = new
        model[kk] = (read, t)
      for kk in model:  # iterating while reading
        pass
    else:
      m = d.partition().merge()
      case.check(type(m) is nnx.Dict, "merged type")
      case.check(m is not d, "merged is new")
      want = {kk: v for kk, v in model.items()}
      keys = sorted(m)
      case.eq(keys, sorted(want), "merged keys")
      for kk, (v, t) in want.items():
        if isinstance(v, nnx.Module):
          case.eq(gen.describe(m[kk]), gen.describe(v), "merged submodule")
        else:
          case.check(same(m[kk], v), f"merged value of {kk}")
        if t:
          case.check(type(vars(m)[kk]) is t, f"merged container of {kk}")
      case.event("merged")
    agree(case, d, model, f"after {op}")
    case.event("dict_op")
  case.sig(hist, sorted(model))


def dict_slash(case):
  """Probe of a recorded defect: paths join the attribute names with '/'."""
  d = nnx.Dict({"a/b": nnx.Param(jnp.ones(())), "c": nnx.Param(jnp.zeros(()))})
  ok = False
  try:
    m = d.partition().merge()
    ok = sorted(m) == ["a/b", "c"]
  except Exception:  # pylint: disable=broad-except
    pass
  case.finding("dict-key-with-slash", ok, "nnx.Dict key containing '/' survives merge")
  case.sig("slash")


# ---------------------------------------------------------------- Sequence

Pair = collections.namedtuple("Pair", ["x", "y"])


class Layer(nnx.Module):
  """Affine layer which logs its call and counts it in a variable."""

  def __init__(self, out):
    self.k = nnx.Param(jnp.float32(gen.fresh() % 7 + 1))
    self.n = nnx.Cache(jnp.int32(0))
    self.out = out


LOG = []


def compute(tag, scale, out, x, y, ctx):
  LOG.append((tag, None if ctx is None else id(ctx)))
  x, y = (0.0 if v is None else sum(v) + 5 * len(v) if isinstance(v, list) else v
          for v in (x, y))
  s = x * scale + 2 * y + 1
  return {
      "scalar": lambda: s, "tuple2": lambda: (s, s + 1), "tuple1": lambda: (s,),
      "pair": lambda: Pair(s, s - 1), "dict": lambda: {"x": s, "y": s + 2},
      "dict1": lambda: {"x": s}, "odict": lambda: collections.OrderedDict(x=s),
      "none": lambda: None, "list1": lambda: [s], "list2": lambda: [s, s + 1],
  }[out]()


OUTS = ["scalar", "scalar", "tuple2", "tuple1", "pair", "dict", "dict1", "odict", "none",
        "list1", "list2"]
SIGS = ["plain", "kwonly_ctx", "pos_ctx", "varkw", "module", "module_ctx", "lambda", "partial",
        "partial_ctx", "bound", "bound_ctx", "varpos_ctx"]


class NoCtx(Layer):

  def __call__(self, x=None, y=None):
    self.n = self.n + 1
    return compute(("m", float(self.k)), self.k, self.out, x, y, None)


class WithCtx(Layer):

  def __call__(self, x=None, y=None, *, ctx=None):
    self.n = self.n + 1
    return compute(("m", float(self.k)), self.k, self.out, x, y, ctx)


class Bound:

  def __init__(self, *what):
    self.what = what

  def without(self, x=None, y=None):
    return compute(*self.what, x, y, None)

  def with_ctx(self, x=None, y=None, ctx=None):
    return compute(*self.what, x, y, ctx)


def make_layer(rng, sig, out):
  s = float(gen.fresh() % 5 + 1)
  tag = ("f", gen.fresh())
  if sig == "plain":
    def f(x=None, y=None):
      return compute(tag, s, out, x, y, None)
  elif sig == "kwonly_ctx":
    def f(x=None, y=None, *, ctx=None):
      return compute(tag, s, out, x, y, ctx)
  elif sig == "pos_ctx":
    def f(x=None, y=None, ctx=None):
      return compute(tag, s, out, x, y, ctx)
  elif sig == "varkw":
    def f(x=None, y=None, **kw):
      return compute(tag, s, out, x, y, kw.get("ctx"))
  elif sig == "lambda":
    f = lambda x=None, y=None: compute(tag, s, out, x, y, None)
  elif sig == "partial":
    f = functools.partial(lambda o, x=None, y=None: compute(tag, s, o, x, y, None), out)
  elif sig == "partial_ctx":
    f = functools.partial(
        lambda o, x=None, y=None, *, ctx=None: compute(tag, s, o, x, y, ctx), out)
  elif sig == "bound":
    f = Bound(tag, s, out).without
  elif sig == "bound_ctx":
    f = Bound(tag, s, out).with_ctx
  elif sig == "module":
    f = NoCtx(out)
  elif sig == "varpos_ctx":
    def f(x=None, y=None, *ctx):
      return compute(tag, s, out, x, y, ctx[0] if ctx else None)
  else:
    f = WithCtx(out)
  return f


TAKES_CTX = {"kwonly_ctx", "pos_ctx", "module_ctx", "partial_ctx", "bound_ctx"}


def fold(layers, sigs, args, kwargs, ctx):
  out = None
  for i, (f, s) in enumerate(zip(layers, sigs)):
    if i:
      if isinstance(out, tuple):
        args, kwargs = tuple(out), {}
      elif isinstance(out, dict):
        args, kwargs = (), dict(out)
      else:
        args, kwargs = (out,), {}
    kw = dict(kwargs)
    if ctx is not None and s in TAKES_CTX:
      kw["ctx"] = ctx
    out = f(*args, **kw)
  return out


def describe_out(o):
  return (type(o).__name__, [(str(k), float(v)) for k, v in
                             (o.items() if isinstance(o, dict) else enumerate(
                                 o if isinstance(o, (tuple, list)) else
                                 ([] if o is None else [o])))])


def kept_results(case):
  """Calling a Sequence changes neither what a layer returned nor the arguments."""
  rng = case.rng
  kept = rng.choice([dict, collections.OrderedDict])(x=jnp.float32(1), y=jnp.float32(2))
  first = lambda x=None, y=None: kept
  sink = rng.choice(["kwonly_ctx", "pos_ctx", "module_ctx"])
  layers = [first, make_layer(rng, sink, "scalar")]
  if rng.random() < 0.5:
    layers.append(first)
    layers.append(make_layer(rng, sink, "dict"))
  seq, ctx = nnx.Sequence(layers), nnx.context(0)
  mine = {"x": jnp.float32(3)}
  for _ in range(2):
    seq(ctx=ctx, **mine)
    case.eq(sorted(kept), ["x", "y"], "the dict a layer returned and keeps")
    case.eq(sorted(mine), ["x"], "the caller's keyword arguments")
  case.event("kept_result")
  LOG.clear()


def sequence(case):
  rng = case.rng
  n = rng.choice([1, 2, 3, 4, 6, 11, 13])
  sigs = [rng.choice(SIGS) for _ in range(n)]
  outs = [rng.choice(OUTS) for _ in range(n)]
  layers = [make_layer(rng, s, o) for s, o in zip(sigs, outs)]
  if n > 2 and rng.random() < 0.4:  # the same layer twice
    layers[n - 1], sigs[n - 1], outs[n - 1] = layers[0], sigs[0], outs[0]
  case.note(list(zip(sigs, outs)))
  case.sample(list(zip(sigs, outs)))
  src = rng.choice([list, tuple, iter, lambda l: (f for f in l)])
  seq = nnx.Sequence(src(layers))
  case.eq(len(seq), n, "len")
  for i, f in enumerate(layers):
    case.check(seq[i] is f, f"item {i}")
  case.check([a is b for a, b in zip(seq, layers)] == [True] * n, "iteration order")
  case.eq(len(list(seq)), n, "number of iterated items")
  for bad in (n, n + 1, n + 10):
    case.raises(IndexError, lambda: seq[bad], "index out of range")
    case.event("seq_refused")
  ctx = nnx.context(0) if rng.random() < 0.6 else None
  x = jnp.float32(rng.choice([0.5, 1.0, -2.0]))
  args, kwargs = rng.choice([((x,), {}), ((x, x), {}), ((), {"x": x}), ((x,), {"y": x}), ((), {})])

  def run(target):
    LOG.clear()
    out = target(*args, **({**kwargs, "ctx": ctx} if ctx is not None else kwargs))
    return describe_out(out), list(LOG)

  mods = [f for f in layers if isinstance(f, nnx.Module)]
  counts = [int(f.n) for f in mods]
  LOG.clear()
  want = describe_out(fold(layers, sigs, args, kwargs, ctx)), list(LOG)
  mid = [int(f.n) for f in mods]
  got = run(seq)
  case.eq(got, want, "output and calls")
  case.eq(len(want[1]), n, "every layer is called once")
  after = [int(f.n) for f in mods]
  case.eq([b - a for a, b in zip(counts, mid)], [b - a for a, b in zip(mid, after)],
          "variables of the layers")
  case.event("seq_call")
  case.event("layer_call", n)
  took = sum(1 for _, c in want[1] if c is not None)
  case.event("ctx_passed", took)
  case.event("ctx_withheld", n - took)
  if n > 10:
    case.event("long_sequence")
  kept_results(case)
  # through partition / merge / apply
  pure = seq.partition()
  back = pure.merge()
  case.check(type(back) is nnx.Sequence and len(back) == n, "merged Sequence")
  # the scale and tag of modules are unchanged, counters start from the same values
  case.eq(run(back)[0], want[0], "merged: output")
  case.eq([t for t, _ in LOG], [t for t, _ in want[1]], "merged: calls")
  case.event("merged")
  LOG.clear()
  out, pure2 = pure.apply(*args, **({**kwargs, "ctx": ctx} if ctx is not None else kwargs))
  case.eq(describe_out(out), want[0], "apply: output")
  case.eq(gen.describe(pure2.merge()), gen.describe(back), "apply: resulting Sequence")
  case.event("seq_call", 2)
  case.sig(sigs, outs, len(args), sorted(kwargs), ctx is None)


def sequence_refused(case):
  rng = case.rng
  case.check(nnx.Sequence([])(1, 2) is None, "an empty Sequence returns None")
  case.eq(len(nnx.Sequence([])), 0, "empty length")
  case.eq(list(nnx.Sequence(())), [], "empty iteration")
  case.raises(IndexError, lambda: nnx.Sequence([])[0], "index into an empty Sequence")
  # items that are variables read as their values
  held = [nnx.Param(gen.rand_array(rng)), gen.fresh(), nnx.Static("s"), gen.M0(),
          nnx.Cache(gen.rand_array(rng)), gen.rand_array(rng)]
  rng.shuffle(held)
  seq = nnx.Sequence(held)
  want = [v.value if isinstance(v, nnx.Container) else v for v in held]
  for back, exact in ((seq, True), (seq.clone(), False)):
    got, by_index = list(back), [back[i] for i in range(len(back))]
    case.check(all(a is b for a, b in zip(got, by_index)) and len(got) == len(held),
               "iteration and items agree")
    if exact:
      case.check(all(a is b for a, b in zip(got, want)), "values of the items", got=got)
    else:
      case.eq([gen.fp(v) for v in got if not isinstance(v, nnx.Module)],
              [gen.fp(v) for v in want if not isinstance(v, nnx.Module)], "values of a clone")
  n = rng.randint(1, 5)
  at = rng.randrange(n)
  layers = [make_layer(rng, rng.choice(SIGS), rng.choice(OUTS)) for _ in range(n)]
  bad = rng.choice([3, "s", None, nnx.Param(jnp.ones(2)), gen.M0()])
  layers[at] = bad
  seq = nnx.Sequence(layers)
  LOG.clear()
  case.note(n, at, type(bad).__name__)
  case.raises(TypeError, lambda: seq(jnp.float32(1.0)), "a layer is not callable",
              match=str(at))
  case.eq(len(LOG), at, "the layers before it ran, the ones after did not")

  class Boom(RuntimeError):
    pass

  def explode(*a, **k):
    raise Boom("x")

  layers[at] = explode
  seq = nnx.Sequence(layers)
  LOG.clear()
  case.raises(Boom, lambda: seq(jnp.float32(1.0)), "the layer's own error")
  case.eq(len(LOG), at, "the layers before the failing one ran, the ones after did not")
  case.event("seq_refused", 3)
  # a layer that needs ctx without a default fails loudly when it is not given
  def needs(x, *, ctx):
    return x
  case.raises(TypeError, lambda: nnx.Sequence([needs])(1.0), "required ctx is missing")
  ctx = nnx.context(0)
  case.eq(nnx.Sequence([needs, needs])(1.0, ctx=ctx), 1.0, "required ctx is given")
  case.event("seq_refused")
  case.sig(n, at, type(bad).__name__)


def network(case):
  """Real layers in a Sequence: the numerical composition, eagerly and jitted."""
  rng = case.rng
  dims = [rng.randint(1, 4) for _ in range(rng.choice([2, 3, 5, 12]))]
  ctx = nnx.context(gen.fresh())
  layers, ref = [], []
  for a, b in zip(dims, dims[1:]):
    lin = nnx.Linear(a, b, ctx=ctx)
    layers.append(lin)
    ref.append(lambda h, lin=lin: h @ np.asarray(lin.kernel, np.float64) + np.asarray(lin.bias))
    if rng.random() < 0.5:
      layers.append(jax.nn.relu)
      ref.append(lambda h: np.maximum(h, 0))
    if rng.random() < 0.3:
      layers.append(nnx.Dropout(0.5))
      ref.append(lambda h: h)
  seq = nnx.Sequence(layers)
  x = case.np.normal(size=(2, dims[0]))
  want = x
  for f in ref:
    want = f(want)
  c = lambda: nnx.context(dropout=1, flags={"deterministic": True})
  xs = jnp.asarray(x, jnp.float32)
  case.close(np.asarray(seq(xs, ctx=c()), np.float64), want, "network", rtol=1e-3, atol=1e-4)
  case.close(np.asarray(seq.partition().merge()(xs, ctx=c()), np.float64), want,
             "merged network", rtol=1e-3, atol=1e-4)
  f = nnx.jit(lambda s, v: s(v, ctx=c()))
  case.close(np.asarray(f(seq, xs), np.float64), want, "jitted network", rtol=1e-3, atol=1e-4)
  state = seq.filter(nnx.Param)
  want_paths = [f"{i}/{p}" for i, l in enumerate(layers) if isinstance(l, nnx.Linear)
                for p in ("bias", "kernel")]
  case.eq(sorted(state), sorted(want_paths), "parameter paths are the positions")
  case.event("seq_call", 3)
  case.event("layer_call", 3 * len(layers))
  case.event("merged")
  if len(layers) > 10:
    case.event("long_sequence")
  case.sig(dims, len(layers))


FAMILIES = {
    "dict_history": dict(fn=dict_history, quick=250),
    "dict_slash": dict(fn=dict_slash, quick=1, thorough=1),
    "sequence": dict(fn=sequence, quick=220),
    "sequence_refused": dict(fn=sequence_refused, quick=50),
    "network": dict(fn=network, quick=40),
}
