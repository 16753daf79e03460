"""C31: every style of writing a training program trains the same model."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
import optax

import nnx
from nnxmon import gen

RULE = (
    "Random networks (linear, norms, dropout, activations, counters, moving averages, sown "
    "values, residual, Dict and Sequence branches, shared layers, scanned and "
    "rematerialized blocks) are trained for a few steps in random styles - lifted eager, "
    "nnx.jit, functional with jax.jit, pure modules, TrainState, lax.scan over steps, vmapped "
    "ensembles, remat - and every loss, parameter, other variable and sown value is compared "
    "after every step with a plain jax program of the same network (or, where keys are split "
    "by a lifted layer, with the eager run); non-trivial = distinct (network, style)."
)
NEED = {"style": 110, "step": 260, "plain": 45, "sown": 40, "shared": 16, "ensemble": 6,
        "scan_layer": 3, "remat_layer": 5, "moved": 180}


class EMA(nnx.Variable):
  pass


class Count(nnx.Variable):
  pass


ACTS = {"tanh": jnp.tanh, "gelu": jax.nn.gelu, "silu": jax.nn.silu, "sigmoid": jax.nn.sigmoid}


# ---------------------------------------------------------------- the real network


class Act(nnx.Module):

  def __init__(self, name):
    self.name = name

  def __call__(self, x):
    return getattr(nnx, self.name, None)(x)


class Ema(nnx.Module):

  def __init__(self, d):
    self.ema = EMA(jnp.zeros((d,), jnp.float32))

  def __call__(self, x):
    self.ema = 0.8 * self.ema + 0.2 * jnp.mean(x, axis=0)
    return x + 0.3 * self.ema


class Counter(nnx.Module):

  def __init__(self):
    self.n = Count(jnp.zeros((), jnp.float32))

  def __call__(self, x):
    self.n += 1.0
    return x * (1.0 + 0.1 * self.n)


class Sow(nnx.Module):

  def __init__(self, scale):
    self.scale = scale

  def __call__(self, x):
    self.sow(nnx.Intermediate, "h", jnp.mean(x) * self.scale)
    return x


class Res(nnx.Module):

  def __init__(self, inner):
    self.inner = inner

  def __call__(self, x, *, ctx):
    return x + self.inner(x, ctx=ctx)


class Branches(nnx.Module):

  def __init__(self, **branches):
    self.items_ = nnx.Dict(branches)

  def __call__(self, x, *, ctx):
    out = 0.0
    for k in sorted(self.items_):
      out = out + self.items_[k](x, ctx=ctx)
    return out


class Block(nnx.Module):

  def __init__(self, d, rate, *, ctx):
    self.lin = nnx.Linear(d, d, ctx=ctx)
    self.drop = nnx.Dropout(rate)

  def __call__(self, x, _=None, *, ctx=None):
    return jnp.tanh(self.drop(self.lin(x), ctx=ctx)), None


class RBlock(Block):

  def __call__(self, x, *, ctx=None):
    return jnp.tanh(self.drop(self.lin(x), ctx=ctx))


class Deep(nnx.Module):

  def __init__(self, d, n, rate, *, ctx):
    split = ["params"] + (["dropout"] if rate else [])
    self.scan = nnx.Scan(Block, variable_axes={nnx.Param: 0}, length=n, split_rngs=split)(
        d, rate, ctx=ctx)

  def __call__(self, x, *, ctx):
    return self.scan(x, None, ctx=ctx)[0]


def make(spec, ctx, pool):
  """The layer of a spec; `pool` maps spec ids to layers already made (sharing)."""
  kind = spec["kind"]
  if kind == "ref":
    return pool[spec["to"]]
  d = spec["d"]
  if kind == "linear":
    out = nnx.Linear(d, spec["dout"], use_bias=spec["bias"], ctx=ctx)
  elif kind == "ln":
    out = nnx.LayerNorm(d, use_bias=spec["bias"], ctx=ctx)
  elif kind == "bn":
    out = nnx.BatchNorm(d, momentum=spec["momentum"], ctx=ctx)
  elif kind == "drop":
    out = nnx.Dropout(spec["rate"])
  elif kind == "act":
    out = Act(spec["name"])
  elif kind == "ema":
    out = Ema(d)
  elif kind == "count":
    out = Counter()
  elif kind == "sow":
    out = Sow(spec["scale"])
  elif kind == "seq":
    out = nnx.Sequence([make(s, ctx, pool) for s in spec["layers"]])
  elif kind == "res":
    out = Res(nnx.Sequence([make(s, ctx, pool) for s in spec["layers"]]))
  elif kind == "dict":
    out = Branches(**{k: nnx.Sequence([make(s, ctx, pool) for s in v])
                      for k, v in spec["branches"].items()})
  elif kind == "deep":
    out = Deep(d, spec["n"], spec["rate"], ctx=ctx)
  elif kind == "remat":
    out = nnx.Remat(RBlock)(d, spec["rate"], ctx=ctx)
  pool[spec["id"]] = out
  return out


class Net(nnx.Module):

  def __init__(self, specs, *, ctx):
    pool = {}
    self.body = nnx.Sequence([make(s, ctx, pool) for s in specs])

  def __call__(self, x, *, ctx):
    return self.body(x, ctx=ctx)


# ---------------------------------------------------------------- random networks


def rand_net(rng):
  ids = [0]
  made = []  # (spec, d) usable as a shared layer

  def layer(d, depth):
    kinds = ["act", "act", "linear", "ln", "ema", "count", "sow", "drop"]
    if depth == 0:
      kinds += ["bn", "deep", "remat", "res", "dict", "seq", "res", "dict"]
    usable = [s for s in made if s["d"] == d and s.get("dout", d) == d]
    if usable:
      kinds += ["ref"] * 3
    kind = rng.choice(kinds)
    if kind == "ref":
      return {"kind": "ref", "to": rng.choice(usable)["id"], "d": d}
    s = {"kind": kind, "d": d, "id": ids[0]}
    ids[0] += 1
    if kind == "linear":
      s.update(dout=d, bias=rng.random() < 0.7)
    elif kind == "ln":
      s.update(bias=rng.random() < 0.7)
    elif kind == "bn":
      s.update(momentum=rng.choice([0.9, 0.5]))
    elif kind == "drop":
      s.update(rate=rng.choice([0.0, 0.25, 0.5]))
    elif kind == "act":
      s.update(name=rng.choice(["tanh", "gelu", "silu", "sigmoid"]))
    elif kind == "sow":
      s.update(scale=float(rng.choice([1, 2])))
    elif kind in ("seq", "res"):
      s.update(layers=[layer(d, depth + 1) for _ in range(rng.randint(1, 3))])
    elif kind == "dict":
      names = rng.sample(["left", "right", "aux"], rng.randint(1, 3))
      s.update(branches={k: [layer(d, depth + 1) for _ in range(rng.randint(1, 2))]
                         for k in names})
    elif kind in ("deep", "remat"):
      s.update(n=rng.choice([1, 2, 3]), rate=rng.choice([0.0, 0.0, 0.0, 0.25]))
    if kind in ("linear", "ln", "ema", "count", "act", "sow"):
      made.append(s)
    return s

  din, d, dout = rng.randint(1, 3), rng.choice([2, 3, 4]), rng.randint(1, 2)
  first = {"kind": "linear", "d": din, "dout": d, "bias": True, "id": -1}
  last = {"kind": "linear", "d": d, "dout": dout, "bias": rng.random() < 0.5, "id": -2}
  return [first] + [layer(d, 0) for _ in range(rng.randint(2, 6))] + [last], din, dout


def walk(specs):
  for s in specs:
    yield s
    for sub in [s.get("layers", [])] + list(s.get("branches", {}).values()):
      yield from walk(sub)


# ---------------------------------------------------------------- the plain program


def gather(net, specs):
  """{(spec id, name): value} read from the module objects; and the sown values."""
  out, sown = {}, {}

  def take(key, layer, *names):
    for n in names:
      v = getattr(layer, n)
      if v is not None:
        out[key, n] = v

  def one(s, layer):
    kind = s["kind"]
    if kind == "ref":
      return
    key = s["id"]
    if kind == "linear":
      take(key, layer, "kernel", "bias")
    elif kind == "ln":
      take(key, layer, "scale", "bias")
    elif kind == "bn":
      take(key, layer, "scale", "bias", "mean", "var")
    elif kind == "ema":
      take(key, layer, "ema")
    elif kind == "count":
      take(key, layer, "n")
    elif kind == "sow":
      sown[key] = list(getattr(layer, "h", ()))
    elif kind == "seq":
      many(s["layers"], layer)
    elif kind == "res":
      many(s["layers"], layer.inner)
    elif kind == "dict":
      for k, v in s["branches"].items():
        many(v, layer.items_[k])
    elif kind == "deep":
      lin = layer.scan.scan_module.lin
      take(key, lin, "kernel", "bias")
    elif kind == "remat":
      take(key, layer.remat_module.lin, "kernel", "bias")

  def many(ss, seq):
    for i, s in enumerate(ss):
      one(s, seq[i])

  many(specs, net.body)
  return out, sown


PARAM_NAMES = ("kernel", "bias", "scale")


def plain_forward(specs, variables, x, keys):
  """The network in plain jax. `keys`: dropout keys in call order."""
  v = dict(variables)
  sown = {}
  byid = {s["id"]: s for s in walk(specs) if s["kind"] != "ref"}
  keys = iter(keys)

  def lin(k, x):
    y = x @ v[k, "kernel"]
    return y + v[k, "bias"] if (k, "bias") in v else y

  def one(s, x):
    if s["kind"] == "ref":
      s = byid[s["to"]]
    kind, k = s["kind"], s["id"]
    if kind == "linear":
      return lin(k, x)
    if kind in ("ln", "bn"):
      ax = -1 if kind == "ln" else 0
      m = x.mean(ax, keepdims=True)
      var = (x * x).mean(ax, keepdims=True) - m * m  # the layers' (fast) formula
      y = (x - m) / jnp.sqrt(var + (1e-6 if kind == "ln" else 1e-5)) * v[k, "scale"]
      if kind == "bn":
        mo = s["momentum"]
        v[k, "mean"] = mo * v[k, "mean"] + (1 - mo) * m[0]
        v[k, "var"] = mo * v[k, "var"] + (1 - mo) * var[0]
      return y + v[k, "bias"] if (k, "bias") in v else y
    if kind == "drop":
      if s["rate"] == 0.0:
        return x
      mask = jax.random.bernoulli(next(keys), 1.0 - s["rate"], x.shape)
      return jnp.where(mask, x / (1.0 - s["rate"]), 0.0)
    if kind == "act":
      return ACTS[s["name"]](x)
    if kind == "ema":
      v[k, "ema"] = 0.8 * v[k, "ema"] + 0.2 * x.mean(0)
      return x + 0.3 * v[k, "ema"]
    if kind == "count":
      v[k, "n"] = v[k, "n"] + 1
      return x * (1.0 + 0.1 * v[k, "n"])
    if kind == "sow":
      sown.setdefault(k, []).append(x.mean() * s["scale"])
      return x
    if kind == "seq":
      return many(s["layers"], x)
    if kind == "res":
      return x + many(s["layers"], x)
    if kind == "dict":
      return sum(many(s["branches"][b], x) for b in sorted(s["branches"]))
    if kind == "deep":
      for i in range(s["n"]):
        x = jnp.tanh(x @ v[k, "kernel"][i] + v[k, "bias"][i])
      return x
    if kind == "remat":
      return jnp.tanh(lin(k, x))
    raise AssertionError(kind)

  def many(ss, x):
    for s in ss:
      x = one(s, x)
    return x

  return many(specs, x), v, sown


def plain_step(specs, variables, opt_state, tx, x, y, keys):
  params = {k: v for k, v in variables.items() if k[1] in PARAM_NAMES}
  rest = {k: v for k, v in variables.items() if k not in params}

  def loss_fn(params):
    out, new, sown = plain_forward(specs, {**rest, **params}, x, keys)
    return jnp.mean((out - y) ** 2), (new, sown)

  (loss, (new, sown)), grads = jax.value_and_grad(loss_fn, has_aux=True)(params)
  return loss, new, sown, grads, params


# ---------------------------------------------------------------- styles


def new_ctx(key):
  return nnx.context(dropout=key, flags=dict(use_running_average=False, deterministic=False))


def forward_loss(net, x, y, key):
  out = net(x, ctx=new_ctx(key))
  return jnp.mean((out - y) ** 2)


def lifted(case, start, specs, tx, data, *, jit=False, remat=False, method=False):
  """nnx.grad on the module; optionally the whole step under nnx.jit."""
  net = start.clone()
  opt_state = tx.init(net.filter(nnx.Param))

  def loss_fn(net, x, y, key):
    loss = forward_loss(net, x, y, key)
    return loss, loss

  lf = loss_fn
  if remat:
    def lf(net, x, y, key):  # noqa
      loss = nnx.remat(forward_loss)(net, x, y, key)
      return loss, loss

  def step(net, opt_state, x, y, key):
    grads, loss = nnx.grad(lf, has_aux=True)(net, x, y, key)
    params = net.filter(nnx.Param)
    upd, opt_state = tx.update(grads, opt_state, params)
    net.update_state(optax.apply_updates(params, upd))
    return opt_state, loss

  run = nnx.jit(step) if jit else step
  hist = []
  for x, y, key in data:
    opt_state, loss = run(net, opt_state, x, y, key)
    values, sown = gather(net, specs)
    net.pop_state(nnx.Intermediate)
    hist.append((loss, values, sown))
  return hist


def functional(case, start, specs, tx, data, *, jit=True, groups=2, through="apply"):
  """States in, states out."""
  filters = {2: (nnx.Param, ...), 3: (nnx.Param, nnx.BatchStat, ...),
             4: (nnx.Param, EMA, Count, ...)}[groups]
  parts, moduledef = start.clone().partition(*filters)
  params, rest = parts[0], tuple(parts[1:])
  opt_state = tx.init(params)

  def step(params, rest, opt_state, x, y, key):

    def loss_fn(params):
      if through == "apply":
        out, pure = moduledef.apply(params, *rest)(x, ctx=new_ctx(key))
      elif through == "pure":
        pure = moduledef.merge(*rest, params).partition()
        out, pure = pure.update_state(params).apply(x, ctx=new_ctx(key))
      else:
        net = moduledef.merge(params, *rest)
        out = net(x, ctx=new_ctx(key))
        pure = net.partition()
      state = pure.get_state() if hasattr(pure, "get_state") else pure[0]
      return jnp.mean((out - y) ** 2), state

    (loss, state), grads = jax.value_and_grad(loss_fn, has_aux=True)(params)
    inter, *rest = state.partition(nnx.Intermediate, *filters)
    rest = tuple(rest[1:])
    upd, opt_state = tx.update(grads, opt_state, params)
    return optax.apply_updates(params, upd), rest, opt_state, loss, inter

  run = jax.jit(step) if jit else step
  hist = []
  for x, y, key in data:
    params, rest, opt_state, loss, inter = run(params, rest, opt_state, x, y, key)
    values, sown = gather(moduledef.merge(params, *rest, inter), specs)
    hist.append((loss, values, sown))
  return hist


def pure_step_fn(tx):

  def step(pure, opt_state, x, y, key):
    net = pure.merge()

    def loss_fn(net):
      loss = forward_loss(net, x, y, key)
      return loss, loss

    grads, loss = nnx.grad(loss_fn, has_aux=True)(net)
    inter = net.pop_state(nnx.Intermediate)
    params = net.filter(nnx.Param)
    upd, opt_state = tx.update(grads, opt_state, params)
    net.update_state(optax.apply_updates(params, upd))
    return net.partition(), opt_state, loss, inter

  return step


def with_sown(pure, inter, specs):
  net = pure.merge()
  net.update_state(inter)
  return gather(net, specs)


def pure_style(case, start, specs, tx, data, *, mode="jit"):
  pure = start.clone().partition()
  opt_state = tx.init(pure.filter(nnx.Param))
  step = pure_step_fn(tx)
  hist = []
  if mode == "scan":
    xs, ys, keys = (jnp.stack([d[i] for d in data]) for i in range(3))

    def body(carry, d):
      pure, opt_state = carry
      pure, opt_state, loss, inter = step(pure, opt_state, *d)
      return (pure, opt_state), (loss, pure.get_state(), inter)

    (pure, _), (losses, states, inters) = jax.lax.scan(body, (pure, opt_state), (xs, ys, keys))
    for i in range(len(data)):
      at = lambda t, i=i: jax.tree_util.tree_map(lambda v: v[i], t)
      values, sown = with_sown(pure.update_state(at(states)), at(inters), specs)
      hist.append((losses[i], values, sown))
    final, _ = gather(pure.merge(), specs)
    case.close(sort(final), sort(hist[-1][1]), "the final carry is the last step's state")
    return hist
  run = jax.jit(step) if mode == "jit" else step
  for x, y, key in data:
    pure, opt_state, loss, inter = run(pure, opt_state, x, y, key)
    hist.append((loss, *with_sown(pure, inter, specs)))
  return hist


def train_state(case, start, specs, tx, data, *, jit=True):
  (params, rest), moduledef = start.clone().partition(nnx.Param, ...)
  ts = nnx.TrainState(moduledef, params=params, tx=tx, rest=rest)

  def step(ts, x, y, key):

    def loss_fn(params):
      out, pure = ts.apply(params, "rest")(x, ctx=new_ctx(key))
      return jnp.mean((out - y) ** 2), pure.get_state()

    (loss, state), grads = jax.value_and_grad(loss_fn, has_aux=True)(ts.params)
    inter, _, rest = state.partition(nnx.Intermediate, nnx.Param, ...)
    return ts.apply_gradients(grads, rest=rest), loss, inter

  run = jax.jit(step) if jit else step
  hist = []
  for i, (x, y, key) in enumerate(data):
    ts, loss, inter = run(ts, x, y, key)
    case.eq(int(ts.step), i + 1, "TrainState.step")
    values, sown = gather(moduledef.merge(ts.params, ts.rest, inter), specs)
    hist.append((loss, values, sown))
  return hist


def ensemble(case, start, specs, tx, data, *, jit, other):
  """Two members in one vmapped step; the first has the start's parameters."""
  pures = [start.clone().partition(), other.clone().partition()]
  pure = jax.tree_util.tree_map(lambda a, b: jnp.stack([a, b]), *pures)
  opts = [tx.init(p.filter(nnx.Param)) for p in pures]
  opt_state = jax.tree_util.tree_map(lambda a, b: jnp.stack([a, b]), *opts)
  step = jax.vmap(pure_step_fn(tx), in_axes=(0, 0, None, None, None))
  if jit:
    step = jax.jit(step)
  hists = ([], [])
  for x, y, key in data:
    pure, opt_state, loss, inter = step(pure, opt_state, x, y, key)
    for j in (0, 1):
      at = lambda t, j=j: jax.tree_util.tree_map(lambda v: v[j], t)
      hists[j].append((loss[j], *with_sown(at(pure), at(inter), specs)))
  return hists


STYLES = {
    "nnx.jit": functools.partial(lifted, jit=True),
    "nnx.remat": functools.partial(lifted, remat=True),
    "nnx.jit(remat)": functools.partial(lifted, jit=True, remat=True),
    "functional": functional,
    "functional-eager": functools.partial(functional, jit=False),
    "functional-3": functools.partial(functional, groups=3, through="pure"),
    "functional-4": functools.partial(functional, groups=4, through="merge"),
    "pure-jit": pure_style,
    "pure-eager": functools.partial(pure_style, mode="eager"),
    "pure-scan": functools.partial(pure_style, mode="scan"),
    "train_state": train_state,
    "train_state-eager": functools.partial(train_state, jit=False),
}


def sort(d):
  return {str(k): v for k, v in sorted(d.items(), key=lambda kv: str(kv[0]))}


def moved(case, what, start, got, want):
  """The distance every variable has moved from the start, also where steps are tiny."""
  for k, p0 in start.items():
    p0, a, b = (np.asarray(v, np.float64) for v in (p0, got[k], want[k]))
    if p0.shape != b.shape:
      continue
    tol = 0.06 * np.abs(b - p0).max(initial=0) + 4e-6 * max(np.abs(b).max(initial=0), 0.5)
    case.check(np.abs(a - b).max(initial=0) <= tol, f"{what}: movement of {k}",
               start=p0, got=a, want=b)


def same(case, style, got, want, start=None):
  for i, (g, w) in enumerate(zip(got, want)):
    what = f"{style}, step {i}"
    case.close(g[0], w[0], f"{what}: loss", rtol=3e-3, atol=3e-4)
    case.eq(sorted(map(str, g[1])), sorted(map(str, w[1])), f"{what}: variables")
    case.close(sort(g[1]), sort(w[1]), f"{what}: variables", rtol=5e-3, atol=5e-4)
    if start is not None:
      moved(case, what, start, g[1], w[1])
      case.event("moved")
    case.eq({k: len(v) for k, v in g[2].items()}, {k: len(v) for k, v in w[2].items()},
            f"{what}: number of sown values")
    case.close(sort(g[2]), sort(w[2]), f"{what}: sown values", rtol=5e-3, atol=5e-4)
    case.event("step")
    if any(g[2].values()):
      case.event("sown")


def plain_history(specs, flat, values, tx, data, noise=0.0):
  params = {k: v for k, v in values.items() if k[1] in PARAM_NAMES}
  opt_state = tx.init(sort(params))
  hist = []
  ndrop = sum(1 for s in flat if s["kind"] == "drop" and s["rate"])
  for i, (x, y, key) in enumerate(data):
    if noise:
      x = x * (1.0 + noise * jax.random.normal(jax.random.PRNGKey(i), x.shape))
      values = {k: v * (1.0 + noise * jax.random.normal(jax.random.PRNGKey(i + 9), v.shape))
                for k, v in values.items()}
    ctx = new_ctx(key)
    keys = [ctx.make_rng("dropout") for _ in range(ndrop)]
    loss, values, sown, grads, params = plain_step(specs, values, opt_state, tx, x, y, keys)
    upd, opt_state = tx.update(sort(grads), opt_state, sort(params))
    new = optax.apply_updates(sort(params), upd)
    values = {k: (new[str(k)] if k in params else v) for k, v in values.items()}
    hist.append((loss, values, {s["id"]: sown.get(s["id"], []) for s in flat
                                if s["kind"] == "sow"}))
  return hist


def conditioned(a, b):
  """Two runs with inputs that differ by some ulps agree far within the tolerance."""
  la, lb = (jax.tree_util.tree_leaves([(h[0], sort(h[1]), sort(h[2])) for h in x])
            for x in (a, b))
  return all(np.all(np.isfinite(u)) and np.allclose(u, v, rtol=1e-3, atol=1e-4)
             and np.abs(u).max(initial=0) < 50 for u, v in zip(map(np.asarray, la), lb))


def styles(case):
  rng = case.rng
  n = rng.randint(2, 3)
  tx = rng.choice([lambda: optax.sgd(0.05), lambda: optax.sgd(0.03, momentum=0.9),
                   lambda: optax.sgd(rng.choice([1e-3, 1e-4])),
                   lambda: optax.sgd(1e-4, momentum=0.9),
                   lambda: optax.chain(optax.clip(0.5), optax.sgd(0.05))])()
  for _ in range(8):
    specs, din, dout = rand_net(rng)
    flat = list(walk(specs))
    seed = gen.fresh() + rng.randint(0, 10**6)
    start = Net(specs, ctx=nnx.context(seed))
    data = [(jnp.asarray(case.np.normal(size=(8, din)), jnp.float32),
             jnp.asarray(case.np.normal(size=(8, dout)), jnp.float32),
             jax.random.PRNGKey(rng.randint(0, 10**6))) for _ in range(n)]
    values, _ = gather(start, specs)
    plain = plain_history(specs, flat, values, tx, data)
    if conditioned(plain, plain_history(specs, flat, values, tx, data, noise=1e-5)):
      break
    case.event("ill-conditioned")
  else:
    return
  kinds = [s["kind"] for s in flat]
  # lifted layers fork the context: then the keys of later draws are not the plain sequence
  lifts = [s for s in flat if s["kind"] in ("deep", "remat")]
  opaque = any(s["rate"] for s in lifts) or (
      bool(lifts) and any(s["kind"] == "drop" and s["rate"] for s in flat))
  case.note("net", [(s["kind"], s.get("to"), s.get("rate")) for s in flat])
  case.sample([(s["kind"], s.get("to")) for s in flat])
  before = gen.describe(start)
  eager = lifted(case, start, specs, tx, data)
  case.event("style")
  if not opaque:
    case.event("plain", n)
    same(case, "eager lifted vs plain jax", eager, plain, values)
  names = rng.sample(sorted(STYLES), 3)
  for name in names:
    case.note("style", name)
    hist = STYLES[name](case, start, specs, tx, data)
    same(case, name, hist, eager, values)
    case.event("style")
  if rng.random() < 0.3:
    other = Net(specs, ctx=nnx.context(seed + 1))
    jit = rng.random() < 0.5
    case.note("ensemble jit", jit)
    h0, h1 = ensemble(case, start, specs, tx, data, jit=jit, other=other)
    same(case, "ensemble member 0", h0, eager, values)
    same(case, "ensemble member 1", h1, lifted(case, other, specs, tx, data))
    case.event("ensemble")
    case.event("style")
  case.eq(gen.describe(start), before, "the start module is unchanged")
  if "ref" in kinds:
    case.event("shared")
  if "deep" in kinds:
    case.event("scan_layer")
  if "remat" in kinds:
    case.event("remat_layer")
  case.sig(kinds, [s.get("to") for s in flat], names)


FAMILIES = {
    "styles": dict(fn=styles, quick=48, thorough=500),
}
