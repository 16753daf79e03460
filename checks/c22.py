"""C22: BatchNorm and LayerNorm normalize with the statistics their definition says."""
import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnxmon import gen
from checks.c21 import Recording, attrs_check, close, low_precision, params_ok

RULE = (
    "Random normalization layers (axes, momentum, epsilon, dtypes, scale/bias, axis names and "
    "groups) go through random histories of training and evaluation calls, chosen by argument, "
    "attribute or ctx flag, eagerly, with nnx.jit, functionally and across a mapped axis; inputs without variance and large"
    "half-precision ones; "
    "outputs and running statistics after every call are compared with a float64 numpy fold "
    "and with flax.linen; non-trivial = distinct (configuration, history)."
)
NEED = {"bn_train": 110, "bn_eval": 90, "ln": 65, "linen_oracle": 270, "mapped": 24,
        "flag_choice": 200, "grads": 25, "refused": 8, "degenerate": 60, "wide": 20, "complex": 10,
        "defaults": 30, "attributes": 130, "integers": 30, "offset": 40}

DTYPES = [None, None, jnp.float32, jnp.bfloat16, jnp.float16]


def np_stats(x, axes):
  x = np.asarray(x, np.float64)
  mean = x.mean(axes)
  return mean, np.maximum((x * x).mean(axes) - mean * mean, 0)


def np_norm(x, mean, var, axes, eps, scale, bias, fshape):
  x = np.asarray(x, np.float64)
  mean, var = (np.expand_dims(v, tuple(a % x.ndim for a in axes)) for v in (mean, var))
  y = (x - mean) / np.sqrt(var + eps)
  if scale is not None:
    y = y * np.asarray(scale, np.float64).reshape(fshape)
  if bias is not None:
    y = y + np.asarray(bias, np.float64).reshape(fshape)
  return y


def conditioned(mu, v, eps, tol):
  """The tolerance for 1/sqrt(var + eps) where var = E[x^2] - E[x]^2 is rounded; None when
  the result is dominated by rounding."""
  ratio = float(np.max((np.abs(mu) ** 2 + v) / (v + eps), initial=0.0))
  return tol if ratio < 60 else "bfloat16" if ratio < 1e4 else None


def out_dtype(args, dtype):
  if dtype is not None:
    return jnp.dtype(dtype)
  return jnp.result_type(*[a for a in args if a is not None])


def rand_x(case, shape, dtype=None):
  a = case.np.normal(size=shape) * case.rng.choice([0.5, 1.0, 2.0]) + case.rng.choice([0, 0, 1.0])
  dt = dtype or case.rng.choice([jnp.float32, jnp.float32, jnp.float32, jnp.bfloat16,
                                 jnp.float16])
  return jnp.asarray(a, dt)


class Net(nnx.Module):
  """The layer inside a module, for ctx propagation through nnx.Sequence."""

  def __init__(self, bn):
    self.seq = nnx.Sequence([bn])

  def __call__(self, x, ctx=None):
    return self.seq(x, ctx=ctx)


def batchnorm(case):
  rng = case.rng
  ndim = rng.randint(2, 4)
  axis = rng.choice([-1, -1, rng.randrange(ndim), rng.randrange(ndim) - ndim])
  f = rng.randint(1, 4)
  shape = [rng.randint(2, 4) for _ in range(ndim)]
  shape[axis] = f
  shape = tuple(shape)
  faxis = axis % ndim
  raxes = tuple(i for i in range(ndim) if i != faxis)
  fshape = [1] * ndim
  fshape[faxis] = f
  dtype, pdtype = rng.choice(DTYPES), rng.choice([jnp.float32, jnp.float32, jnp.bfloat16])
  mom = rng.choice([0.99, 0.9, 0.5, 0.0, 1.0])
  eps = rng.choice([1e-5, 1e-3, 0.1])
  us, ub = rng.random() < 0.75, rng.random() < 0.75
  si, bi = Recording(rng), Recording(rng)
  attr = rng.choice([None, None, True, False])
  m = nnx.BatchNorm(f, use_running_average=attr, axis=axis, momentum=mom, epsilon=eps,
                    dtype=dtype, param_dtype=pdtype, use_bias=ub, use_scale=us, bias_init=bi,
                    scale_init=si, ctx=nnx.context(gen.fresh()))
  case.note(dict(shape=shape, axis=axis, dtype=dtype, pdtype=pdtype, mom=mom, eps=eps, us=us,
                 ub=ub, attr=attr))
  case.sample((shape, axis, str(dtype), mom, us, ub, attr))
  attrs_check(case, m, dict(num_features=f, use_running_average=attr, axis=axis, momentum=mom,
                            epsilon=eps, dtype=dtype, param_dtype=pdtype, use_bias=ub,
                            use_scale=us, bias_init=bi, scale_init=si, axis_name=None,
                            axis_index_groups=None))
  for n, v in (("mean", 0.0), ("var", 1.0)):
    box = vars(m)[n]
    case.check(type(box) is nnx.BatchStat, f"{n} is a BatchStat")
    case.eq(gen.fp(box.value), gen.fp(jnp.full((f,), v, jnp.float32)), f"initial {n}")
  state = m.filter(nnx.Param)
  case.eq(sorted(state), ["bias", "scale"], "parameters")
  for n, init, used in (("scale", si, us), ("bias", bi, ub)):
    case.eq(len(init.calls), int(used), f"initializer of {n}")
    if used:
      _, shp, dt, out = init.calls[0]
      case.eq((shp, dt), ((f,), jnp.dtype(pdtype)), f"initializer call of {n}")
      case.eq(gen.fp(state[n].value), gen.fp(out), f"value of {n}")
    else:
      case.check(state[n].value is None, f"{n} unused")
  mean, var = np.zeros(f), np.ones(f)
  hist = []
  for step in range(rng.randint(2, 6)):
    x = rand_x(case, shape)
    arg = rng.choice([None, True, False])
    flag = rng.choice([None, True, False])
    if arg is None and attr is None and flag is None:
      if step % 2 == 0:
        flag = rng.random() < 0.5
      else:
        before = gen.describe(m)
        case.raises(ValueError, lambda: m(x), "no choice of statistics")
        case.raises(ValueError, lambda: m(x, ctx=nnx.context(0, flags={"other": True})),
                    "no choice of statistics in the flags")
        case.event("refused", 2)
        case.eq(gen.describe(m), before, "a refused call leaves the layer unchanged")
        continue
    use = next(v for v in (arg, attr, flag) if v is not None)
    how = rng.choice(["eager", "eager", "jit", "pure", "nested"])
    if flag is not None and how in ("eager", "pure"):
      ctx = nnx.context(flags={"use_running_average": flag})
    elif how == "nested" and flag is not None and arg is None:
      ctx = nnx.context(flags={"use_running_average": flag})
    else:
      ctx = None
      if arg is None and attr is None:
        arg = use
      else:
        use = next(v for v in (arg, attr) if v is not None)
    hist.append((how, arg, flag if ctx is not None else None))
    case.note("step", step, how, "arg", arg, "flag", flag, "ctx", ctx is not None, x.dtype)
    if how == "nested" and arg is not None:
      how = "eager"
    old = {k: gen.fp(v) for k, v in m.get_state().items()}
    stats_before = (m.mean, m.var)
    if how == "eager":
      y = m(x, arg, ctx=ctx) if rng.random() < 0.5 else m(x, use_running_average=arg, ctx=ctx)
    elif how == "jit":
      y = nnx.jit(lambda mm, v: mm(v, use_running_average=arg))(m, x)
    elif how == "nested":
      y = Net(m)(x, ctx=ctx)
    else:
      pure = m.partition()
      fpure = gen.fp(pure.get_state())
      y, pure2 = pure.apply(x, use_running_average=arg, ctx=ctx)
      case.eq(gen.fp(pure.get_state()), fpure, "apply leaves the input state unchanged")
      case.eq({k: gen.fp(v) for k, v in m.get_state().items()}, old, "and the module")
      m.update_state(pure2.get_state())
    case.event("flag_choice")
    tol = low_precision(dtype, pdtype, x.dtype, y.dtype)
    stol = low_precision(x.dtype if dtype is None else dtype)
    if use:
      mu, v = mean, var
      case.event("bn_eval")
      case.eq({k: gen.fp(v) for k, v in m.get_state().items()}, old,
              "evaluation leaves the layer unchanged")
    else:
      xs = x if dtype is None or jnp.dtype(dtype).itemsize >= 4 else x
      mu, v = np_stats(xs, raxes)
      mean = mom * mean + (1 - mom) * mu
      var = mom * var + (1 - mom) * v
      case.event("bn_train")
    case.eq(y.shape, x.shape, "shape")
    case.eq(y.dtype, out_dtype([x, m.scale, m.bias], dtype), "dtype")
    want = np_norm(x, mu, v, raxes, eps, m.scale, m.bias, fshape)
    tol = tol if use else conditioned(mu, v, eps, tol)
    if tol is not None:
      close(case, y, want, f"output of step {step} (running average: {use})", tol)
    for n, w in (("mean", mean), ("var", var)):
      box = vars(m)[n]
      case.check(type(box) is nnx.BatchStat, f"{n} stays a BatchStat")
      case.eq((box.value.shape, str(box.value.dtype)), ((f,), "float32"), f"running {n}")
      close(case, box.value, w, f"running {n} after step {step}", stol)
    new = {k: gen.fp(v) for k, v in m.get_state().items()}
    for n in ("scale", "bias"):
      case.eq(new[n], old[n], f"{n} is not touched by a call")
    # flax.linen, started from the same variables
    layer = nn.BatchNorm(use_running_average=use, axis=axis, momentum=mom, epsilon=eps,
                         dtype=dtype, param_dtype=pdtype, use_bias=ub, use_scale=us)
    p = {k: v.value for k, v in m.filter(nnx.Param).items() if v.value is not None}
    ly, upd = layer.apply({"params": p, "batch_stats": {"mean": stats_before[0],
                                                        "var": stats_before[1]}},
                          x, mutable=["batch_stats"])
    case.eq(str(ly.dtype), str(y.dtype), "dtype vs linen")
    if tol is not None:
      close(case, y, ly, "output vs linen", tol)
    close(case, m.mean, upd["batch_stats"]["mean"], "running mean vs linen")
    close(case, m.var, upd["batch_stats"]["var"], "running var vs linen")
    case.event("linen_oracle")
    # the reference continues from the real statistics, errors must not accumulate
    mean, var = np.asarray(m.mean, np.float64), np.asarray(m.var, np.float64)
  if rng.random() < 0.4:
    grads(case, m, x, layer, p, bn=True)
  case.sig(shape, axis, str(dtype), mom, us, ub, attr, hist)


def grads(case, m, x, layer, p, bn):
  (params, rest), moduledef = m.partition(nnx.Param, ...)
  w = jnp.asarray(case.np.normal(size=x.shape), jnp.float32)

  def loss(params, x):
    args = (False,) if bn else ()
    y, _ = moduledef.apply(params, rest)(x, *args)
    return jnp.sum(y.astype(jnp.float32) * w)

  def ref(p, x):
    if bn:
      l2 = layer.clone(use_running_average=False)
      y, _ = l2.apply({"params": p, "batch_stats": {"mean": m.mean, "var": m.var}}, x,
                      mutable=["batch_stats"])
    else:
      y = layer.apply({"params": p}, x)
    return jnp.sum(y.astype(jnp.float32) * w)

  g, gx = jax.grad(loss, argnums=(0, 1))(params, x)
  r, rx = jax.grad(ref, argnums=(0, 1))(p, x)
  for k in p:
    close(case, g[k].value, r[k], f"gradient of {k}", "bfloat16")
  close(case, gx, rx, "gradient of the input", "bfloat16")
  case.event("grads")


def layernorm(case):
  rng = case.rng
  ndim = rng.randint(1, 4)
  shape = tuple(rng.randint(2, 4) for _ in range(ndim))
  axis = rng.choice([-1, rng.randrange(ndim), rng.randrange(ndim) - ndim])
  if rng.random() < 0.5:
    red = rng.choice([-1, rng.randrange(ndim), rng.randrange(ndim) - ndim])
    raxes = (red,)
  else:
    k = rng.sample(range(ndim), rng.randint(1, ndim))
    red = tuple(a if rng.random() < 0.5 else a - ndim for a in k)
    if rng.random() < 0.3:
      red = list(red)
    raxes = tuple(red)
  f = shape[axis]
  fshape = [1] * ndim
  fshape[axis] = f
  dtype, pdtype = rng.choice(DTYPES), rng.choice([jnp.float32, jnp.float32, jnp.bfloat16])
  eps = rng.choice([1e-6, 1e-3, 0.1])
  us, ub = rng.random() < 0.75, rng.random() < 0.75
  si, bi = Recording(rng), Recording(rng)
  kw = {} if (axis, red) == (-1, -1) and rng.random() < 0.7 else dict(
      reduction_axes=red if isinstance(red, int) else tuple(red), feature_axes=axis)
  m = nnx.LayerNorm(f, epsilon=eps, dtype=dtype, param_dtype=pdtype, use_bias=ub, use_scale=us,
                    bias_init=bi, scale_init=si, ctx=nnx.context(gen.fresh()), **kw)
  params_ok(case, m, ["scale", "bias"], [si, bi],
            [(f,) if us else None, (f,) if ub else None], pdtype)
  x = rand_x(case, shape)
  case.note(dict(shape=shape, axis=axis, red=red, dtype=dtype, pdtype=pdtype, eps=eps, us=us,
                 ub=ub, x=x.dtype))
  case.sample((shape, axis, red, str(dtype), us, ub))
  attrs_check(case, m, dict(num_features=f, epsilon=eps, dtype=dtype, param_dtype=pdtype,
                            use_bias=ub, use_scale=us, bias_init=bi, scale_init=si,
                            axis_name=None, axis_index_groups=None, **kw))
  before = gen.describe(m)
  y = m(x)
  mu, v = np_stats(x, tuple(a % ndim for a in raxes))
  want = np_norm(x, mu, v, raxes, eps, m.scale, m.bias, fshape)
  tol = low_precision(dtype, pdtype, x.dtype, y.dtype)
  case.eq(y.shape, x.shape, "shape")
  case.eq(y.dtype, out_dtype([x, m.scale, m.bias], dtype), "dtype")
  # 1/sqrt(var + eps) amplifies rounding when the reduced axes are constant
  amp = float(np.max(1.0 / np.sqrt(v + eps), initial=1.0))
  if amp < 50:
    close(case, y, want, "LayerNorm vs numpy", tol if amp < 8 else "bfloat16")
  layer = nn.LayerNorm(epsilon=eps, dtype=dtype, param_dtype=pdtype, use_bias=ub, use_scale=us,
                       **({k: v for k, v in kw.items()}))
  p = {k: v.value for k, v in m.get_state().items() if v.value is not None}
  ly = layer.apply({"params": p}, x)
  case.eq(str(ly.dtype), str(y.dtype), "dtype vs linen")
  close(case, y, ly, "LayerNorm vs linen")
  case.event("linen_oracle")
  close(case, nnx.jit(lambda mm, a: mm(a))(m, x), y, "LayerNorm jitted", tol if amp < 8 else
        "bfloat16")
  case.eq(gen.describe(m), before, "a call leaves the layer unchanged")
  if rng.random() < 0.3 and ndim > 1 and amp < 8:
    grads(case, m, x, layer, p, bn=False)
  case.event("ln")
  case.sig(shape, axis, red, str(dtype), us, ub, str(x.dtype))


def mapped(case):
  """axis_name: the statistics of the whole mapped axis (or of the groups)."""
  rng = case.rng
  ndev = rng.choice([2, 4])
  f = rng.randint(1, 3)
  batch = rng.randint(2, 3)
  groups = None
  if rng.random() < 0.4:
    idx = list(range(ndev))
    rng.shuffle(idx)
    groups = [idx[: ndev // 2], idx[ndev // 2:]]
  pmapped = groups is not None or rng.random() < 0.3
  x = jnp.asarray(case.np.normal(size=(ndev, batch, f)) + np.arange(ndev)[:, None, None],
                  jnp.float32)
  wrap = (lambda fn: jax.pmap(fn, axis_name="dev")) if pmapped else (
      lambda fn: jax.vmap(fn, axis_name="dev"))
  case.note(dict(ndev=ndev, f=f, batch=batch, groups=groups, pmap=pmapped))
  sets = groups or [list(range(ndev))]
  if rng.random() < 0.6:
    mom = rng.choice([0.9, 0.5])
    m = nnx.BatchNorm(f, momentum=mom, axis_name="dev", axis_index_groups=groups,
                      scale_init=Recording(rng), bias_init=Recording(rng),
                      ctx=nnx.context(gen.fresh()))
    state, moduledef = m.partition()

    def step(v):
      y, pure = moduledef.apply(state)(v, False)
      return y, pure.get_state()

    y, new = wrap(step)(x)
    for g in sets:
      mu, v = np_stats(np.asarray(x)[g], (0, 1))
      for d in g:
        want = np_norm(x[d], mu, v, (0,), 1e-5, m.scale, m.bias, (1, f))
        if (tol := conditioned(mu, v, 1e-5, "float32")) is not None:
          close(case, y[d], want, f"device {d}: output", tol)
        close(case, new["mean"].value[d], (1 - mom) * mu, f"device {d}: running mean")
        close(case, new["var"].value[d], mom + (1 - mom) * v, f"device {d}: running var")
    # evaluation needs no communication: the axis may be missing
    ev = m(x[0], True)
    close(case, ev, np_norm(x[0], np.zeros(f), np.ones(f), (0,), 1e-5, m.scale, m.bias, (1, f)),
          "evaluation outside the mapped axis")
  else:
    m = nnx.LayerNorm(f, axis_name="dev", axis_index_groups=groups, scale_init=Recording(rng),
                      bias_init=Recording(rng), ctx=nnx.context(gen.fresh()))
    state, moduledef = m.partition()
    y = wrap(lambda v: moduledef.apply(state)(v)[0])(x)
    for g in sets:
      mu, v = np_stats(np.asarray(x)[g], (0, 2))
      for d in g:
        want = np_norm(x[d], mu, v, (1,), 1e-6, m.scale, m.bias, (1, f))
        if (tol := conditioned(mu, v, 1e-6, "float32")) is not None:
          close(case, y[d], want, f"device {d}: output", tol)
    # one statistic per device: a single example, or all axes reduced
    single = rng.random() < 0.5
    m = nnx.LayerNorm(f, axis_name="dev", axis_index_groups=groups,
                      reduction_axes=-1 if single else (-2, -1), scale_init=Recording(rng),
                      bias_init=Recording(rng), ctx=nnx.context(gen.fresh()))
    state, moduledef = m.partition()
    xs = x[:, 0] if single else x
    y = wrap(lambda v: moduledef.apply(state)(v)[0])(xs)
    for g in sets:
      mu, v = np_stats(np.asarray(xs)[g], tuple(range(xs.ndim)))
      for d in g:
        want = np_norm(xs[d], mu, v, tuple(range(xs.ndim - 1)), 1e-6, m.scale, m.bias,
                       (f,) if single else (1, f))
        if (tol := conditioned(mu, v, 1e-6, "float32")) is not None:
          close(case, y[d], want, f"device {d}: one statistic", tol)
    case.event("mapped_scalar")
  case.event("mapped")
  case.sig(ndev, f, batch, groups, pmapped)


def degenerate(case):
  """Inputs with (almost) no variance, or of one element: finite, and bounded by epsilon."""
  rng = case.rng
  ndim = rng.randint(2, 3)
  shape = tuple(rng.choice([1, 2, 7, 16]) for _ in range(ndim))
  level = rng.choice([0.0, 1.0, -30.0, 1000.0, 12345.0])
  noise = rng.choice([0.0, 0.0, 1e-3, 1e-2])
  xdt = rng.choice([jnp.float32, jnp.float32, jnp.bfloat16, jnp.float16])
  offsets = case.np.normal(size=shape[-1:]) * rng.choice([0.0, abs(level)])
  x = jnp.asarray(level + noise * case.np.normal(size=shape), xdt)
  bn = rng.random() < 0.5
  if bn:
    x = jnp.asarray(np.asarray(x, np.float64) + offsets, xdt)
  eps = rng.choice([1e-5, 1e-6, 1e-3])
  f = shape[-1]
  kw = dict(epsilon=eps, scale_init=Recording(rng), bias_init=Recording(rng),
            ctx=nnx.context(gen.fresh()))
  m = nnx.BatchNorm(f, momentum=0.5, **kw) if bn else nnx.LayerNorm(f, **kw)
  case.note(dict(shape=shape, level=level, noise=noise, dtype=str(xdt), bn=bn, eps=eps))
  axes = tuple(range(ndim - 1)) if bn else (-1,)
  x64 = np.asarray(x, np.float64)
  dev = np.abs(x64 - x64.mean(axes, keepdims=True))
  slack = np.abs(x64).max() * 3e-6  # rounding of the mean
  bound = (dev + slack) / np.sqrt(eps) * np.abs(np.asarray(m.scale, np.float64)) + np.abs(
      np.asarray(m.bias, np.float64))
  for name, call in (("eager", lambda q: q(x, False) if bn else q(x)),
                     ("jit", lambda q: nnx.jit(lambda r, v: r(v, False) if bn else r(v))(q, x))):
    y = np.asarray(call(m), np.float64)
    case.check(np.isfinite(y).all(), f"{name}: finite output", got=y, x=x64)
    case.check((np.abs(y) <= bound * 1.02 + 1e-3).all(), f"{name}: output bounded by epsilon",
               got=y, bound=bound)
    if bn:
      case.check(np.isfinite(np.asarray(m.var)).all() and (np.asarray(m.var) >= 0).all(),
                 f"{name}: running variance is not negative", got=m.var)
      case.check(np.isfinite(np.asarray(m(x, True), np.float64)).all(), f"{name}: evaluation")
  g = nnx.grad(lambda q, v: jnp.sum((q(v, False) if bn else q(v)).astype(jnp.float32)))(m, x)
  for k, v in g.items():
    case.check(np.isfinite(np.asarray(v.value, np.float64)).all(), f"gradient of {k} is finite")
  case.event("degenerate")
  case.sig(shape, level, noise, str(xdt), bn, eps)


def wide(case):
  """Large inputs of half precision: the statistics are those of float32 arithmetic."""
  rng = case.rng
  shape = (rng.randint(2, 6), rng.choice([4, 16, 64]))
  xdt = rng.choice([jnp.float16, jnp.float16, jnp.bfloat16])
  x = jnp.asarray(case.np.normal(size=shape) * rng.choice([300.0, 3000.0, 1e4]), xdt)
  x64 = np.asarray(x, np.float64)
  bn = rng.random() < 0.5
  kw = dict(scale_init=Recording(rng), bias_init=Recording(rng), ctx=nnx.context(gen.fresh()),
            dtype=rng.choice([None, None, jnp.float32, xdt]))
  f = shape[-1]
  m = nnx.BatchNorm(f, momentum=0.25, **kw) if bn else nnx.LayerNorm(f, **kw)
  case.note(dict(shape=shape, xdt=str(xdt), dtype=str(kw["dtype"]), bn=bn))
  axes = (0,) if bn else (1,)
  mu, v = np_stats(x64, axes)
  if (v < 1e-2 * (x64 ** 2).max()).any():
    case.sig("skipped")
    return
  y = m(x, False) if bn else m(x)
  close(case, y, np_norm(x64, mu, v, axes, m.epsilon, m.scale, m.bias, (1, f)),
        "output of a large half-precision input", "bfloat16" if xdt is jnp.bfloat16 else "float16")
  if bn:
    close(case, m.mean, 0.75 * mu, "running mean", None)
    close(case, m.var, 0.25 + 0.75 * v, "running var", None)
  case.event("wide")
  case.sig(shape, str(xdt), str(kw["dtype"]), bn)


def offset(case):
  """Inputs far from zero with a half-precision `dtype`: only the result is rounded to it."""
  rng = case.rng
  f, n = rng.randint(2, 5), rng.randint(16, 64)
  dtype = rng.choice([jnp.bfloat16, jnp.float16])
  level = rng.choice([-1, 1]) * rng.choice([12.0, 20.0, 30.0])
  bn, run = rng.random() < 0.6, rng.random() < 0.5
  us, ub = rng.choice([(True, True), (False, False), (True, False), (False, True)])
  shape = (n, f) if bn else (f, n)
  x64 = level + case.np.normal(size=shape)
  x = jnp.asarray(x64, jnp.float32)
  x64 = np.asarray(x, np.float64)
  feats = f if bn else n
  kw = dict(epsilon=1e-3, dtype=dtype, use_scale=us, use_bias=ub, scale_init=Recording(rng),
            bias_init=Recording(rng), ctx=nnx.context(gen.fresh()))
  m = nnx.BatchNorm(f, momentum=0.5, **kw) if bn else nnx.LayerNorm(n, **kw)
  axes = (0,) if bn else (1,)
  mu, v = np_stats(x64, axes)
  case.note(dict(shape=shape, dtype=str(dtype), level=level, bn=bn, run=run, us=us, ub=ub))
  half = 2.0 ** -8 if dtype is jnp.bfloat16 else 2.0 ** -11
  calls = {"eager": lambda q: q(x, False) if bn else q(x),
           "jit": lambda q: nnx.jit(lambda r, a: r(a, False) if bn else r(a))(q, x)}
  if bn and run:
    m.mean, m.var = jnp.asarray(mu + 0.25, jnp.float32), jnp.asarray(v * 1.5, jnp.float32)
    mu, v = np.asarray(m.mean, np.float64), np.asarray(m.var, np.float64)
    calls = {"eager": lambda q: q(x, True),
             "jit": lambda q: nnx.jit(lambda r, a: r(a, True))(q, x)}
  want = np_norm(x64, mu, v, axes, 1e-3, m.scale, m.bias, (1, feats))
  for name, call in calls.items():
    y = call(m)
    case.eq(y.dtype, jnp.dtype(dtype), f"{name}: dtype")
    size = 1.0 + np.abs(np.asarray(1.0 if m.scale is None else m.scale, np.float64)).max()
    case.close(np.asarray(y, np.float64), want, f"{name}: far from zero, rounded once",
               rtol=2 * half, atol=(half + 1e-3) * size)
    case.event("offset")
  case.sig(shape, str(dtype), level, bn, run, us, ub)


def defaults(case):
  """Arguments that are left out have the documented defaults."""
  rng = case.rng
  f, bn = rng.randint(1, 4), rng.random() < 0.5
  full = dict(epsilon=1e-5 if bn else 1e-6, dtype=None, param_dtype=jnp.float32, use_bias=True,
              use_scale=True, axis_name=None, axis_index_groups=None,
              bias_init=jax.nn.initializers.zeros, scale_init=jax.nn.initializers.ones)
  if bn:
    full.update(use_running_average=None, axis=-1, momentum=0.99)
  else:
    full.update(reduction_axes=-1, feature_axes=-1)
  given = {k: full[k] for k in rng.sample(sorted(full), rng.randint(0, len(full) // 2))}
  case.note("bn" if bn else "ln", f, sorted(given))
  m = (nnx.BatchNorm if bn else nnx.LayerNorm)(f, ctx=nnx.context(gen.fresh()), **given)
  case.eq(gen.fp(m.scale), gen.fp(jnp.ones((f,))), "default scale")
  case.eq(gen.fp(m.bias), gen.fp(jnp.zeros((f,))), "default bias")
  attrs_check(case, m, {k: v for k, v in full.items() if not k.endswith("_init")},
              num_features=f)
  m.scale, m.bias = (jnp.asarray(case.np.normal(size=(f,)), jnp.float32) for _ in range(2))
  # small enough that epsilon shows
  x = jnp.asarray(case.np.normal(size=(5, f)) * rng.choice([1.0, 1e-2, 1e-3]), jnp.float32)
  p = {"scale": m.scale, "bias": m.bias}
  if bn:
    layer = nn.BatchNorm()
    stats = {"mean": jnp.zeros((f,)), "var": jnp.ones((f,))}
    for use in (False, True):
      y = m(x, use)
      want, upd = layer.apply({"params": p, "batch_stats": stats}, x, use_running_average=use,
                              mutable=["batch_stats"])
      stats = upd["batch_stats"]
      close(case, y, want, "BatchNorm with defaults vs linen")
      for n in stats:
        # relative to how far the statistics have moved
        case.close(getattr(m, n), stats[n], f"running {n}", rtol=1e-6, atol=1e-7)
  else:
    close(case, m(x), nn.LayerNorm().apply({"params": p}, x), "LayerNorm with defaults vs linen")
  case.event("linen_oracle")
  case.event("defaults")
  case.sig(f, bn, sorted(given), float(x[0, 0]))


def complex_inputs(case):
  """Complex inputs: the variance is that of the absolute values."""
  rng = case.rng
  shape = (rng.randint(2, 5), rng.randint(2, 5))
  z = case.np.normal(size=shape) + 1j * case.np.normal(size=shape) * rng.choice([0.3, 1.0, 3.0])
  x = jnp.asarray(z + rng.choice([0, 1 + 1j]), jnp.complex64)
  m = nnx.LayerNorm(shape[-1], scale_init=Recording(rng), bias_init=Recording(rng),
                    ctx=nnx.context(gen.fresh()))
  y = np.asarray(m(x))
  z = np.asarray(x, np.complex128)
  mu = z.mean(-1, keepdims=True)
  var = (np.abs(z) ** 2).mean(-1, keepdims=True) - np.abs(mu) ** 2
  if var.min() < 0.05:
    return
  want = (z - mu) / np.sqrt(var + 1e-6) * np.asarray(m.scale) + np.asarray(m.bias)
  case.check(np.allclose(y, want, rtol=2e-3, atol=2e-3), "LayerNorm of complex inputs",
             got=y, want=want)
  layer = nn.LayerNorm()
  ly = np.asarray(layer.apply({"params": {"scale": m.scale, "bias": m.bias}}, x))
  case.check(np.allclose(y, ly, rtol=1e-4, atol=1e-4), "complex LayerNorm vs linen",
             got=y, want=ly)
  case.event("complex")
  case.sig(shape, gen.fp(x))


def integers(case):
  """Integer and boolean inputs are normalized as the numbers they are, in floating point."""
  rng = case.rng
  idt = rng.choice(["int8", "uint8", "int16", "int32", "uint16", "bool"])
  lo, hi = dict(int8=(-128, 128), uint8=(0, 256), bool=(0, 2), uint16=(0, 4000)).get(
      idt, (-3000, 3000))
  f = rng.randint(2, 5)
  shape = tuple(rng.randint(2, 6) for _ in range(rng.randint(1, 2))) + (f,)
  x = jnp.asarray(case.np.integers(lo, hi, size=shape), idt)
  dtype = rng.choice([None, None, None, jnp.float32])
  us, ub = rng.choice([(True, True), (False, False), (True, False), (False, True)])
  kw = dict(dtype=dtype, use_scale=us, use_bias=ub, ctx=nnx.context(gen.fresh()))
  x64 = np.asarray(x, np.float64)
  bn = rng.random() < 0.6
  case.note(idt, shape, dtype, us, ub, bn)
  if bn:
    m = nnx.BatchNorm(f, momentum=0.9, epsilon=1e-3, **kw)
    axes = tuple(range(x.ndim - 1))
  else:
    m = nnx.LayerNorm(f, epsilon=1e-3, **kw)
    axes = (x.ndim - 1,)
  if us:
    m.scale = jnp.asarray(case.np.normal(size=(f,)), jnp.float32)
  if ub:
    m.bias = jnp.asarray(case.np.normal(size=(f,)), jnp.float32)
  mu, v = np_stats(x64, axes)
  fshape = (1,) * (x.ndim - 1) + (f,)
  y = m(x, False) if bn else m(x)
  case.eq(str(y.dtype), "float32", "dtype of the output for an integer input")
  want = np_norm(x64, mu, v, axes, 1e-3, m.scale, m.bias, fshape)
  # E[x^2] - E[x]^2 cancels when the mean dominates: that is what the definition computes
  if np.all((mu ** 2 < 1e3 * (v + 1e-3)) & (v + 1e-3 > 0.05)):
    close(case, y, want, "integer input vs numpy", "bfloat16" if idt != "bool" else None)
  if bn:
    close(case, m.mean, 0.1 * mu.reshape(f), "running mean of integer inputs")
    close(case, m.var, 0.9 + 0.1 * v.reshape(f), "running variance of integer inputs", "bfloat16")
    m.mean, m.var = jnp.asarray(mu.reshape(f), jnp.float32), jnp.asarray(v.reshape(f) + 1,
                                                                         jnp.float32)
    yr = m(x, True)
    case.eq(str(yr.dtype), "float32", "dtype with the running average")
    close(case, yr, np_norm(x64, mu, v + 1, axes, 1e-3, m.scale, m.bias, fshape),
          "integer input with the running average")
  case.event("integers")
  case.sig(idt, gen.fp(x), us, ub, bn)


ENV = {"XLA_FLAGS": "--xla_force_host_platform_device_count=4"}

FAMILIES = {
    "batchnorm": dict(fn=batchnorm, quick=115),
    "layernorm": dict(fn=layernorm, quick=140),
    "defaults": dict(fn=defaults, quick=60),
    "complex": dict(fn=complex_inputs, quick=24),
    "integers": dict(fn=integers, quick=50),
    "mapped": dict(fn=mapped, quick=50),
    "degenerate": dict(fn=degenerate, quick=120),
    "wide": dict(fn=wide, quick=60),
    "offset": dict(fn=offset, quick=35),
}
