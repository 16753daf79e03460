"""C20: TrainState steps are optax steps on the parameters, and nothing else changes."""
import jax
import jax.numpy as jnp
import numpy as np
import optax

import nnx
from nnxmon import gen

RULE = (
    "TrainStates over random parameter States and over real models are driven through "
    "random histories of apply_gradients, replace, flatten/unflatten, jit and scan with "
    "random optax transformations (low and mixed precision included); after every step parameters, optimizer state, step and "
    "extra fields are compared with optax run on a plain dict of the same arrays and with a "
    "plain-jax training loop; non-trivial = distinct (parameter set, optimizer, history)."
)
NEED = {"step": 350, "optimizer_state": 350, "unchanged": 350, "apply": 130, "train_step": 70,
        "scan_step": 20, "refused": 230, "low_precision": 120, "emptied": 20}


def sched(step):
  return 0.1 / (1.0 + 0.5 * step)


OPTS = {
    "sgd": lambda: optax.sgd(0.1),
    "momentum": lambda: optax.sgd(0.05, momentum=0.9),
    "nesterov": lambda: optax.sgd(0.05, momentum=0.9, nesterov=True),
    "adam": lambda: optax.adam(1e-2),
    "adamw": lambda: optax.adamw(1e-2, weight_decay=0.1),
    "rmsprop": lambda: optax.rmsprop(1e-2, momentum=0.5),
    "adagrad": lambda: optax.adagrad(0.1),
    "lion": lambda: optax.lion(1e-2) if hasattr(optax, "lion") else optax.sgd(0.2),
    "clip_adam": lambda: optax.chain(optax.clip_by_global_norm(0.5), optax.adam(1e-2)),
    "schedule": lambda: optax.sgd(sched),
    "decay": lambda: optax.chain(optax.add_decayed_weights(0.05), optax.sgd(0.1)),
    "ema": lambda: optax.chain(optax.trace(0.8), optax.scale(-0.1)),
    "multisteps": lambda: optax.MultiSteps(optax.adam(1e-2), 2),
}


def plain(state):
  return {k: v.value for k, v in state.items()}


def arrays(t):
  return jax.tree_util.tree_map(np.asarray, jax.tree_util.tree_leaves(t))


def rand_params(rng):
  out = {}
  low = rng.random() < 0.35
  for i in range(rng.randint(1, 5)):
    path = "/".join(rng.choice(["a", "b", "layer", "10", "2"]) for _ in range(rng.randint(0, 2)))
    name = (path + "/" if path else "") + rng.choice(["kernel", "bias", "w"]) + str(i)
    md = gen.rand_metadata(rng) if rng.random() < 0.4 else {}
    shape = rng.choice([(), (3,), (2, 3), (1, 2, 2)])
    dtype = rng.choice([jnp.bfloat16, jnp.float16, jnp.float32]) if low else jnp.float32
    out[name] = rng.choice([nnx.Param, gen.SubParam, nnx.Variable])(
        jnp.asarray(np.random.default_rng(gen.fresh()).normal(size=shape), dtype), **md)
  return nnx.State(out)


def rand_grads(case, params, dtypes=None):
  """Gradients of the parameters' dtypes, or of the given one."""
  return jax.tree_util.tree_map(
      lambda x: jnp.asarray(case.np.normal(size=x.shape), dtypes or x.dtype), params)


def frame(ts):
  """Everything of the TrainState: names, containers, leaves."""
  return gen.fp({k: v for k, v in vars(ts).items()
                 if not k.startswith("_pytree__") and k not in ("tx", "moduledef")})


def history(case):
  rng = case.rng
  params = rand_params(rng)
  dtypes = {k: str(v.value.dtype) for k, v in params.items()}
  low = set(dtypes.values()) != {"float32"}
  # lion takes the sign of a rounded number
  opts = set(OPTS) - ({"lion", "multisteps"} if low else set())
  if "float16" in dtypes.values():  # second moments underflow
    opts = {"sgd", "momentum", "nesterov", "schedule", "decay", "ema"}
  opt = rng.choice(sorted(opts))
  tx = OPTS[opt]()
  # mixed precision: parameters of low precision, gradients (and updates) of float32
  gdtype = jnp.float32 if low and rng.random() < 0.5 else None
  # (lion takes the sign of a rounded number, MultiSteps needs stable dtypes)
  # under jit XLA keeps intermediate results in float32
  tight, loose = dict(rtol=1e-5, atol=1e-6), dict(rtol=5e-2, atol=3e-2)
  module = nnx.Dict(w=nnx.Param(1.0))
  moduledef = module.partition()[1]
  extra = {
      "batch_stats": nnx.State({"m": nnx.BatchStat(jnp.float32(gen.fresh()))}),
      "arr": jnp.arange(3.0),
      "node": nnx.Node(jnp.float32(7)),
      "cache": nnx.Cache({"k": jnp.ones(2)}, tag="q"),
      "epoch": 5,
      "best": None,
      "label": nnx.Static("lbl"),
  }
  extra = {k: extra[k] for k in rng.sample(sorted(extra), rng.randint(0, 6))}
  step0 = rng.choice([0, 3, None, 63, 126, 254, 32766, 10 ** 6])
  kw = {} if step0 is None else {"step": step0}
  ts = nnx.TrainState(moduledef, params=params, tx=tx, **kw, **extra)
  case.note("opt", opt, "params", list(params), "extra", sorted(extra), "step", step0)
  case.sample((opt, list(params), sorted(extra)))
  want_p = plain(params)
  want_o = tx.init(want_p)
  want_step = step0 or 0
  want_extra = {k: gen.fp(v.value if isinstance(v, nnx.Container) else v) for k, v in extra.items()}
  raw_extra = {k: (type(vars(ts)[k])) for k in extra}
  p_struct = jax.tree_util.tree_structure(params)

  def verify(ts, what):
    tol = loose if low and what.endswith("'jit']") else tight
    case.check(type(ts) is nnx.TrainState, f"{what}: type")
    case.check(isinstance(ts.params, nnx.State), f"{what}: params is a State")
    case.check(jax.tree_util.tree_structure(ts.params) == p_struct,
               f"{what}: paths, containers and metadata of the parameters")
    case.eq({k: str(v.dtype) for k, v in plain(ts.params).items()}, dtypes,
            f"{what}: dtypes of the parameters")
    case.close(plain(ts.params), want_p, f"{what}: params", **tol)
    case.event("step")
    if low:
      case.event("low_precision")
    got_o = arrays(ts.opt_state)
    case.eq([str(v.dtype) for v in got_o], [str(v.dtype) for v in arrays(want_o)],
            f"{what}: dtypes of the optimizer state")
    case.close(got_o, arrays_sorted(want_o), f"{what}: optimizer state", **tol)
    case.event("optimizer_state")
    case.eq(int(ts.step), want_step, f"{what}: step")
    case.check(isinstance(ts.step, jax.Array) and ts.step.shape == (), f"{what}: step is an array")
    for k in extra:
      case.eq(gen.fp(getattr(ts, k)), want_extra[k], f"{what}: field {k}")
      case.check(type(vars(ts)[k]) is raw_extra[k], f"{what}: container of {k}")
    case.check(ts.tx is tx, f"{what}: tx")
    case.check(ts.moduledef == moduledef, f"{what}: moduledef")

  def arrays_sorted(t):
    return arrays(t)

  verify(ts, "created")
  struct = jax.tree_util.tree_structure(ts)
  jitted = jax.jit(lambda s, g: s.apply_gradients(g))
  steps = []
  for i in range(rng.randint(2, 6)):
    op = rng.choice(["eager", "eager", "jit", "rebuild", "replace", "kwargs"])
    if not extra and op in ("replace", "kwargs"):
      op = "eager"
    steps.append(op)
    before = frame(ts)
    old = ts
    grads = rand_grads(case, params, gdtype)
    gfp = gen.fp(grads)
    kwargs = {}
    if op in ("replace", "kwargs"):
      k = rng.choice(sorted(extra))
      new = {"batch_stats": lambda: nnx.State({"m": nnx.BatchStat(jnp.float32(gen.fresh()))}),
             "arr": lambda: jnp.arange(3.0) + gen.fresh(),
             "node": lambda: jnp.float32(gen.fresh()),
             "cache": lambda: {"k": jnp.ones(2) * gen.fresh()},
             "epoch": gen.fresh, "best": lambda: f"b{gen.fresh()}", "label": lambda: f"l{gen.fresh()}"}[k]()
      if rng.random() < 0.25:
        new = None  # a field may be emptied
        case.event("emptied")
      kwargs[k] = new
      want_extra[k] = gen.fp(new)
    if op == "replace":
      ts = ts.replace(**kwargs)
    else:
      upd, want_o = tx.update(plain(grads), want_o, want_p)
      want_p = optax.apply_updates(want_p, upd)
      want_step += 1
      if op == "jit":
        ts = jitted(ts, grads)
      elif op == "rebuild":
        leaves, td = jax.tree_util.tree_flatten(ts)
        ts = jax.tree_util.tree_unflatten(td, leaves).apply_gradients(grads)
      else:
        ts = ts.apply_gradients(grads, **kwargs)
    case.note(op, sorted(kwargs))
    for k, new in kwargs.items():
      if new is None or raw_extra[k] is type(None):
        raw_extra[k] = type(vars(ts)[k])
    verify(ts, f"after {steps}")
    case.check(ts is not old, "a new TrainState")
    case.eq(frame(old), before, "the previous TrainState is unchanged")
    case.eq(gen.fp(grads), gfp, "the gradients are unchanged")
    case.event("unchanged")
    if low and op != "replace":
      # errors must not accumulate: go on with the real values
      want_p = plain(ts.params)
      want_o = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(want_o),
                                            jax.tree_util.tree_leaves(ts.opt_state))
    if not kwargs:
      case.check(jax.tree_util.tree_structure(ts) == jax.tree_util.tree_structure(old),
                 "a step keeps the tree structure")
  for name in ("params", "step", "opt_state", "tx"):
    case.raises(AttributeError, lambda: setattr(ts, name, getattr(ts, name)), "immutable")
  case.raises(ValueError, lambda: ts.replace(not_a_field=1), "unknown field")
  case.raises((ValueError, AttributeError),
              lambda: ts.apply_gradients(rand_grads(case, params), not_a_field=1),
              "unknown field in apply_gradients")
  case.event("refused", 2)
  case.sig(opt, list(params), sorted(extra), steps)
  del struct


class Net(nnx.Module):

  def __init__(self, din, dh, dout, bn, drop, *, ctx):
    self.l1 = nnx.Linear(din, dh, ctx=ctx)
    self.bn = nnx.BatchNorm(dh, momentum=0.8, ctx=ctx) if bn else None
    self.drop = nnx.Dropout(drop) if drop else None
    self.l2 = nnx.Linear(dh, dout, ctx=ctx)
    self.calls = nnx.Cache(jnp.zeros((), jnp.int32))

  def __call__(self, x, *, train=True, ctx=None):
    x = self.l1(x)
    if self.bn is not None:
      x = self.bn(x, use_running_average=not train)
    x = jax.nn.tanh(x)
    if self.drop is not None:
      x = self.drop(x, deterministic=not train, ctx=ctx)
    self.calls = self.calls + 1
    return self.l2(x)

  def features(self, x):
    return self.l1(x) * 2.0


def ref_forward(p, bs, x, mask_key, rate, train):
  """Plain jax version of Net."""
  h = x @ p["l1/kernel"] + p["l1/bias"]
  new = dict(bs)
  if "bn/mean" in bs:
    if train:
      mean, var = h.mean(0), (h**2).mean(0) - h.mean(0) ** 2
      new["bn/mean"] = 0.8 * bs["bn/mean"] + (1 - 0.8) * mean
      new["bn/var"] = 0.8 * bs["bn/var"] + (1 - 0.8) * var
    else:
      mean, var = bs["bn/mean"], bs["bn/var"]
    h = (h - mean) / jnp.sqrt(var + 1e-5) * p["bn/scale"] + p["bn/bias"]
  h = jnp.tanh(h)
  if rate and train:
    mask = jax.random.bernoulli(mask_key, 1.0 - rate, h.shape)
    h = jnp.where(mask, h / (1.0 - rate), 0.0)
  return h @ p["l2/kernel"] + p["l2/bias"], new


def train(case):
  """A realistic loop: eager, jitted or scanned train steps against plain jax + optax."""
  rng = case.rng
  din, dh, dout = rng.randint(1, 3), rng.randint(2, 4), rng.randint(1, 2)
  bn, drop = rng.random() < 0.6, rng.choice([0.0, 0.25, 0.5])
  opt = rng.choice(["sgd", "momentum", "adam", "clip_adam", "schedule", "adamw"])
  mode = rng.choice(["eager", "jit", "scan"])
  tx = OPTS[opt]()
  net = Net(din, dh, dout, bn, drop, ctx=nnx.context(gen.fresh()))
  (params, stats, cache), moduledef = net.partition(nnx.Param, nnx.BatchStat, nnx.Cache)
  ts = nnx.TrainState(moduledef, params=params, tx=tx, batch_stats=stats, cache=cache)
  n = rng.randint(2, 4)
  xs = case.np.normal(size=(n, 6, din)).astype(np.float32)
  ys = case.np.normal(size=(n, 6, dout)).astype(np.float32)
  keys = jax.random.split(jax.random.PRNGKey(gen.fresh()), n)
  case.note(dict(din=din, dh=dh, bn=bn, drop=drop, opt=opt, mode=mode, n=n))
  case.sample(dict(bn=bn, drop=drop, opt=opt, mode=mode, n=n))
  traces = []

  def train_step(state, batch):
    traces.append(1)
    x, y, key = batch
    ctx = nnx.context(dropout=key)

    def loss_fn(params):
      out, pure = state.apply(params, "batch_stats", "cache")(x, train=True, ctx=ctx)
      loss = jnp.mean((out - y) ** 2)
      return loss, pure

    grads, pure = jax.grad(loss_fn, has_aux=True)(state.params)
    new_stats, new_cache, _ = pure.get_state().partition(nnx.BatchStat, nnx.Cache, ...)
    state = state.apply_gradients(grads, batch_stats=new_stats, cache=new_cache)
    return state, grads

  p, bs = plain(params), plain(stats)
  o = tx.init(p)
  # keys which Context.make_rng derives are the subject of C14; take them from the library
  mask_keys = [nnx.context(dropout=k).make_rng("dropout") for k in keys]

  def ref_step(p, bs, o, i, got_g):
    def loss(p):
      out, new = ref_forward(p, bs, xs[i], mask_keys[i], drop, True)
      return jnp.mean((out - ys[i]) ** 2), new

    g, new = jax.grad(loss, has_aux=True)(p)
    case.close(got_g, g, f"gradients of step {i}", rtol=5e-3, atol=5e-4)
    # adam turns a rounding error of a zero gradient into a step: go on with the real ones
    upd, o = tx.update(got_g, o, p)
    return optax.apply_updates(p, upd), new, o

  def verify(ts, p, bs, o, i, what):
    case.close(plain(ts.params), p, f"{what}: params", rtol=2e-3, atol=2e-4)
    case.close(plain(ts.batch_stats), bs, f"{what}: batch stats", rtol=2e-3, atol=2e-4)
    case.eq(int(ts.step), i, f"{what}: step")
    case.eq(int(ts.cache["calls"].value), i, f"{what}: calls")

  if mode == "scan":
    ts2, all_grads = jax.lax.scan(train_step, ts, (xs, ys, keys))
    for i in range(n):
      g = plain(jax.tree_util.tree_map(lambda v: v[i], all_grads))
      p, bs, o = ref_step(p, bs, o, i, g)
      case.event("scan_step")
    verify(ts2, p, bs, o, n, "scanned")
    ts = ts2
  else:
    step = jax.jit(train_step) if mode == "jit" else train_step
    for i in range(n):
      before = frame(ts)
      old = ts
      ts, grads = step(ts, (xs[i], ys[i], keys[i]))
      p, bs, o = ref_step(p, bs, o, i, plain(grads))
      verify(ts, p, bs, o, i + 1, f"step {i} ({mode})")
      case.eq(frame(old), before, "the previous TrainState is unchanged")
      case.event("train_step")
      # restart the reference from the real values: errors must not accumulate
      p, bs = plain(ts.params), plain(ts.batch_stats)
      o = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(o),
                                       jax.tree_util.tree_leaves(ts.opt_state))
    if mode == "jit":
      case.eq(len(traces), 1, "a jitted train step is traced once")
  # evaluation through the trained state
  x = xs[0]
  got, _ = ts.apply("params", "batch_stats", "cache")(x, train=False)
  want, _ = ref_forward(plain(ts.params), plain(ts.batch_stats), x, None, 0.0, False)
  case.close(got, want, "evaluation", rtol=2e-3, atol=2e-4)
  case.event("apply")
  case.sig(bn, drop, opt, mode, n, din, dh, dout)


def apply(case):
  """state.apply(names or States) is moduledef.apply on the same States, in order."""
  rng = case.rng
  net = Net(2, 3, 1, True, 0.0, ctx=nnx.context(gen.fresh()))
  (params, stats, cache), moduledef = net.partition(nnx.Param, nnx.BatchStat, nnx.Cache)
  ema = jax.tree_util.tree_map(lambda v: v * 0.5 + 1, params)  # of the same paths
  ts = nnx.TrainState(moduledef, params=params, tx=optax.sgd(0.1), batch_stats=stats,
                      cache=nnx.TreeNode(cache) if rng.random() < 0.5 else cache,
                      ema=nnx.TreeNode(ema))
  x = case.np.normal(size=(4, 2)).astype(np.float32)
  byname = {"params": params, "batch_stats": stats, "cache": cache}
  names = list(byname)
  rng.shuffle(names)
  before = frame(ts)
  args, states = [], []
  for n in names:
    r = rng.random()
    if r < 0.6:
      args.append(n)
      states.append(byname[n])
    elif r < 0.8:
      args.append(byname[n])
      states.append(byname[n])
    else:
      alt = jax.tree_util.tree_map(lambda v: v * 2 + 1, byname[n])
      args.append(alt)
      states.append(alt)
  if rng.random() < 0.5:  # names only, some of them again
    args = list(names) + rng.choices(["params", "ema", "batch_stats"], k=rng.randint(1, 4))
    states = [{**byname, "ema": ema}[n] for n in args]
  for _ in range(rng.choice([0, 0, 1, 2, 4])):  # a later state overrides an earlier one
    n = rng.choice(names)
    over = jax.tree_util.tree_map(lambda v: v + gen.fresh(), byname[n])
    over, arg = rng.choice([(over, over), (byname[n], n), (byname[n], byname[n])])
    at = rng.randint(0, len(args))
    args.insert(at, arg)
    states.insert(at, over)
  case.note([a if isinstance(a, str) else "State" for a in args])
  train = rng.random() < 0.5
  got, pure = ts.apply(*args)(x, train=train)
  want, pure2 = moduledef.apply(*states)(x, train=train)
  ref = moduledef.merge(*states)
  direct = ref(x, train=train)
  case.eq(gen.fp(got), gen.fp(want), "output vs moduledef.apply")
  case.close(got, direct, "output vs the merged module", rtol=1e-5)
  case.eq(gen.fp(pure.get_state()), gen.fp(pure2.get_state()), "resulting state")
  case.eq(gen.fp(pure.get_state()), gen.fp(ref.get_state()), "resulting state vs module")
  case.event("apply")
  f1, pf = ts.apply(*args).features(x)
  case.close(f1, moduledef.merge(*states).features(x), "method through apply", rtol=1e-5)
  case.eq(gen.fp(pf.get_state()), gen.fp(moduledef.merge(*states).get_state()), "method state")
  f2, _ = ts.apply(*args).l2(jnp.ones((2, 3)))
  case.close(f2, moduledef.merge(*states).l2(jnp.ones((2, 3))), "submodule through apply",
             rtol=1e-5)
  case.event("apply", 2)
  case.eq(frame(ts), before, "apply leaves the TrainState unchanged")
  case.raises(AttributeError, lambda: ts.apply("params", "no_such_states")(x), "unknown name")
  case.raises(Exception, lambda: ts.apply("params")(x), "states missing")
  case.event("refused", 2)
  case.event("unchanged")
  case.sig([a if isinstance(a, str) else "S" for a in args], train)


FAMILIES = {
    "history": dict(fn=history, quick=140),
    "train": dict(fn=train, quick=70),
    "apply": dict(fn=apply, quick=80),
}
