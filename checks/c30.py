"""C30: the activations and initializers that nnx exports do what their names say."""
import math

import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnx import initializers as I

RULE = (
    "Every exported activation is evaluated and differentiated, eagerly and under jit, vmap "
    "and grad, on random, extreme and special inputs of every float dtype and compared with "
    "a float64 definition written from the mathematics; every initializer is drawn for "
    "random shapes, axes, dtypes and keys and compared with its fans, bounds, moments and "
    "orthogonality; non-trivial = distinct (function, parameters, shape, dtype)."
)
NEED = {"activation": 120, "derivative": 180, "special": 120, "axis": 200, "draw": 120,
        "moments": 30, "bounds": 45, "orthogonal": 16, "key": 120, "in-layer": 20}

f64 = np.float64
sigm = lambda x: np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))),
                          np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))
sp = lambda x: np.maximum(x, 0) + np.log1p(np.exp(-np.abs(x)))
erf = np.vectorize(math.erf, otypes=[f64])


def times(a, b):
  """x * g(x) where g vanishes fast enough: 0 at infinity."""
  with np.errstate(all="ignore"):
    return np.where(b == 0, 0.0 * np.where(np.isinf(a), 0, a), a * b)


A_SELU = 1.6732632423543772
S_SELU = 1.0507009873554805

# name -> (definition in float64, keyword sampler)
POINTWISE = {
    "relu": (lambda x: np.maximum(x, 0), None),
    "relu6": (lambda x: np.clip(x, 0, 6), None),
    "sigmoid": (sigm, None),
    "log_sigmoid": (lambda x: -sp(-x), None),
    "softplus": (sp, None),
    "soft_sign": (lambda x: x / (1 + np.abs(x)), None),
    "silu": (lambda x: times(x, sigm(x)), None),
    "swish": (lambda x: times(x, sigm(x)), None),
    "tanh": (np.tanh, None),
    "hard_tanh": (lambda x: np.clip(x, -1, 1), None),
    "hard_sigmoid": (lambda x: np.clip(x + 3, 0, 6) / 6, None),
    "hard_silu": (lambda x: times(x, np.clip(x + 3, 0, 6) / 6), None),
    "hard_swish": (lambda x: times(x, np.clip(x + 3, 0, 6) / 6), None),
    "selu": (lambda x: S_SELU * np.where(x > 0, x, A_SELU * np.expm1(np.minimum(x, 0))), None),
    "elu": (lambda x, alpha=1.0: np.where(x > 0, x, alpha * np.expm1(np.minimum(x, 0))),
            lambda r: {"alpha": r.choice([0.5, 1.0, 2.0])}),
    "celu": (lambda x, alpha=1.0: np.where(x > 0, x, alpha * np.expm1(np.minimum(x, 0) / alpha)),
             lambda r: {"alpha": r.choice([0.5, 1.0, 2.0])}),
    "leaky_relu": (lambda x, negative_slope=0.01: np.where(x >= 0, x, negative_slope * x),
                   lambda r: {"negative_slope": r.choice([0.01, 0.2, 0.5])}),
    "gelu": (lambda x, approximate=True: times(
        x, 0.5 * (1 + np.tanh(math.sqrt(2 / math.pi) * (x + 0.044715 * x ** 3))) if approximate
        else 0.5 * (1 + erf(x / math.sqrt(2)))),
        lambda r: {"approximate": r.choice([True, False])}),
}
KINKS = [0.0, 6.0, -3.0, 3.0, 1.0, -1.0]
TOL = {"float32": (2e-5, 2e-6), "bfloat16": (3e-2, 2e-2), "float16": (6e-3, 3e-3)}


def as64(x):
  return np.asarray(jnp.asarray(x).astype(jnp.float32)).astype(f64)


def close(case, got, want, dtype, what, **kw):
  rtol, atol = TOL[str(jnp.dtype(dtype))]
  g = as64(got)
  with np.errstate(all="ignore"):
    top = float(jnp.finfo(dtype).max)
    want = np.where(np.abs(want) > top, np.sign(want) * np.inf, want)
    ok = np.isclose(g, want, rtol=rtol, atol=atol, equal_nan=True)
  case.rec.asserts += 1
  if not np.all(ok):
    i = np.argwhere(~np.atleast_1d(ok))[0]
    case.fail(what, at=i, got=np.atleast_1d(g)[tuple(i)], want=np.atleast_1d(want)[tuple(i)], **kw)


def sample_input(case, dtype):
  rng = case.rng
  shape = rng.choice([(), (3,), (2, 4)] if case.tier == "quick" else
                     [(), (1,), (3,), (2, 4), (1, 3), (2, 1, 3)])
  scale = rng.choice([0.1, 1.0, 5.0, 20.0])
  x = case.np.standard_normal(shape) * scale
  return jnp.asarray(x).astype(dtype)


def family_pointwise(case):
  rng = case.rng
  names = sorted(POINTWISE)
  name = names[case.index % len(names)]
  ref, kws = POINTWISE[name]
  fn = getattr(nnx, name)
  case.note(name)
  for dtype in (jnp.float32, rng.choice([jnp.bfloat16, jnp.float16])):
    x = sample_input(case, dtype)
    kw = kws(rng) if kws and rng.random() < 0.7 else {}
    case.sig(name, sorted(kw.items()), x.shape, str(dtype))
    with np.errstate(all="ignore"):
      want = ref(as64(x), **kw)
    y = fn(x, **kw)
    case.eq(y.dtype, jnp.dtype(dtype), f"{name}: dtype")
    case.eq(y.shape, x.shape, f"{name}: shape")
    close(case, y, want, dtype, f"{name}: value", x=x, kw=kw)
    close(case, jax.jit(lambda a: fn(a, **kw))(x), want, dtype, f"{name}: value under jit")
    if x.ndim:
      close(case, jax.vmap(lambda a: fn(a, **kw))(x), want, dtype, f"{name}: value under vmap")
    case.event("activation")
    # extreme and special inputs
    big = float(jnp.finfo(dtype).max)
    tiny = float(jnp.finfo(dtype).tiny)
    sx = jnp.asarray([0.0, -0.0, tiny, -tiny, 50.0, -50.0, 1e4, -1e4, big / 2, -big / 2,
                      np.nan, np.inf] + ([-np.inf] if name != "gelu" and "silu" not in name
                                         and "swish" not in name else [])).astype(dtype)
    if name in ("soft_sign",):
      sx = sx[:-2]  # inf / inf
    if name == "gelu" or name.startswith("hard_s"):
      sx = sx[:8]  # x**3 and x*(x+3) may overflow before the division
    with np.errstate(all="ignore"):
      swant = ref(as64(sx), **kw)
    close(case, fn(sx, **kw), swant, dtype, f"{name}: special value", x=sx, kw=kw)
    case.event("special")
  # derivatives, away from the kinks
  x = np.asarray(case.np.standard_normal(24) * rng.choice([0.5, 2.0, 4.0]))
  x = x[np.min(np.abs(x[:, None] - np.asarray(KINKS)), axis=1) > 0.02]
  x = np.asarray(jnp.asarray(x, jnp.float32)).astype(f64)
  kw = kws(rng) if kws and rng.random() < 0.7 else {}
  h = 1e-5
  want = (ref(x + h, **kw) - ref(x - h, **kw)) / (2 * h)
  g = jax.vmap(jax.grad(lambda a: fn(a, **kw)))(jnp.asarray(x, jnp.float32))
  case.close(np.asarray(g), want, f"{name}: derivative", rtol=2e-3, atol=2e-4, x=x, kw=kw)
  far = jnp.asarray([60.0, -60.0, 1e4, -1e4], jnp.float32)
  if name == "gelu":
    far = far[:2]
  g = jax.vmap(jax.grad(lambda a: fn(a, **kw)))(far)
  case.check(bool(jnp.all(jnp.isfinite(g))), f"{name}: derivative far out is finite", got=g)
  x64 = as64(far)
  hh = 1e-3
  case.close(np.asarray(g), (ref(x64 + hh, **kw) - ref(x64 - hh, **kw)) / (2 * hh),
             f"{name}: derivative far out", rtol=1e-3, atol=1e-4)
  t = jax.jvp(lambda a: fn(a, **kw), (jnp.asarray(x, jnp.float32),),
              (jnp.ones(x.shape, jnp.float32),))[1]
  case.close(np.asarray(t), want, f"{name}: forward derivative", rtol=2e-3, atol=2e-4)
  # at a kink: one of the two one-sided slopes (relu documents 0)
  at = np.asarray(KINKS)
  left = (ref(at, **kw) - ref(at - 1e-6, **kw)) / 1e-6
  right = (ref(at + 1e-6, **kw) - ref(at, **kw)) / 1e-6
  for how, g in (("grad", jax.vmap(jax.grad(lambda a: fn(a, **kw)))(jnp.asarray(at, jnp.float32))),
                 ("jvp", jax.jvp(lambda a: fn(a, **kw), (jnp.asarray(at, jnp.float32),),
                                 (jnp.ones(at.shape, jnp.float32),))[1])):
    g = as64(g)
    ok = np.isclose(g, left, atol=2e-3) | np.isclose(g, right, atol=2e-3)
    case.check(bool(ok.all()), f"{name}: {how} at a kink is a one-sided slope", at=at, got=g,
               left=left, right=right)
    if name == "relu":
      case.eq(float(g[0]), 0.0, "relu: the derivative at 0")
  case.event("derivative", 3)


def ref_lse(x, axis, keepdims=False, b=None):
  with np.errstate(all="ignore"):
    m = np.max(x, axis=axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0)
    e = np.exp(x - m) * (1 if b is None else b)
    out = np.log(np.sum(e, axis=axis, keepdims=True)) + m
    return out if keepdims else np.squeeze(out, axis=axis)


def family_reducing(case):
  rng = case.rng
  shape = rng.choice([(5,), (3, 4), (2, 3, 4), (4, 1), (1, 6)])
  ndim = len(shape)
  axis = rng.randrange(-ndim, ndim)
  x = case.np.standard_normal(shape) * rng.choice([0.5, 3.0, 40.0])
  if rng.random() < 0.3:
    x = x + rng.choice([-1e4, 1e4])
  xj = jnp.asarray(x, jnp.float32)
  x = as64(xj)
  case.note(shape, axis)
  case.sig(shape, axis)
  big = float(np.max(np.abs(x)))
  atol = 1e-5 * max(1.0, big)
  lse = ref_lse(x, axis, True)

  def same(got, want, what, rtol=1e-4, at=None):
    case.close(np.asarray(got), want, what, rtol=rtol, atol=at or 1e-5, x=x, axis=axis)
    case.event("axis")

  sm = np.exp(x - lse)
  same(nnx.softmax(xj, axis=axis), sm, "softmax", at=1e-5)
  same(np.asarray(nnx.softmax(xj, axis=axis)).sum(axis=axis), np.ones(lse.squeeze(axis).shape),
       "softmax sums to one")
  same(nnx.log_softmax(xj, axis=axis), x - lse, "log_softmax", at=atol)
  if axis in (-1, ndim - 1):
    same(nnx.softmax(xj), sm, "softmax, default axis")
    same(nnx.log_softmax(xj), x - lse, "log_softmax, default axis", at=atol)
  same(nnx.logsumexp(xj, axis=axis), lse.squeeze(axis), "logsumexp", at=atol)
  same(nnx.logsumexp(xj, axis=axis, keepdims=True), lse, "logsumexp keepdims", at=atol)
  same(nnx.logsumexp(xj), ref_lse(x.reshape(-1), 0), "logsumexp over all axes", at=atol)
  b = np.abs(case.np.standard_normal(shape)) + 0.1
  same(nnx.logsumexp(xj, axis=axis, b=jnp.asarray(b, jnp.float32)),
       ref_lse(x, axis, b=b), "weighted logsumexp", at=atol)
  mean = x.mean(axis=axis, keepdims=True)
  var = x.var(axis=axis, keepdims=True)
  if big < 1e3:
    norm = (x - mean) / np.sqrt(var + 1e-5)
    tol = 1e-3 if shape[axis] > 1 else 2e-2
    same(nnx.standardize(xj, axis=axis), norm, "standardize", rtol=1e-3, at=tol)
    same(nnx.normalize(xj, axis=axis), norm, "normalize", rtol=1e-3, at=tol)
    eps = 0.1
    same(nnx.standardize(xj, axis=axis, epsilon=eps), (x - mean) / np.sqrt(var + eps),
         "standardize epsilon", rtol=1e-3, at=1e-3)
    same(nnx.standardize(xj, axis=axis, mean=jnp.zeros(()), variance=jnp.ones(())),
         x / np.sqrt(1 + 1e-5), "standardize with given moments", rtol=1e-3, at=1e-3)
  # a shift changes nothing
  same(nnx.softmax(xj + 1.0, axis=axis), sm, "softmax of a shifted input", at=2e-3 if big > 1e3 else 1e-4)
  # derivatives
  g = jax.grad(lambda a: nnx.logsumexp(a, axis=axis).sum())(xj)
  same(g, sm, "derivative of logsumexp", at=2e-3 if big > 1e3 else 1e-4)
  w = case.np.standard_normal(shape)
  g = jax.grad(lambda a: (nnx.softmax(a, axis=axis) * w).sum())(xj)
  same(g, sm * (w - (w * sm).sum(axis=axis, keepdims=True)), "derivative of softmax", at=1e-3)
  g = jax.grad(lambda a: (nnx.log_softmax(a, axis=axis) * w).sum())(xj)
  same(g, w - sm * w.sum(axis=axis, keepdims=True), "derivative of log_softmax", at=1e-3)
  # masked
  mask = case.np.random(shape) < 0.7
  mask = mask | ~mask.any(axis=axis, keepdims=True)
  xm = np.where(mask, x, -np.inf)
  smm = np.where(mask, np.exp(xm - ref_lse(xm, axis, True)), 0)
  same(nnx.softmax(xj, axis=axis, where=jnp.asarray(mask), initial=-jnp.inf), smm,
       "masked softmax", at=1e-4)
  # infinities
  xi = xj.at[tuple([0] * ndim)].set(-jnp.inf)
  got = np.asarray(nnx.softmax(xi, axis=axis))
  if shape[axis] > 1:
    case.check(bool(np.all(np.isfinite(got))) and got[tuple([0] * ndim)] == 0,
               "softmax with -inf", got=got)
  # glu and one_hot
  gshape = list(shape)
  gshape[axis] = 2 * rng.randint(1, 3)
  y = case.np.standard_normal(gshape) * 2
  h = gshape[axis] // 2
  p, q = np.take(y, range(h), axis), np.take(y, range(h, 2 * h), axis)
  same(nnx.glu(jnp.asarray(y, jnp.float32), axis=axis), p * sigm(q), "glu")
  if axis in (-1, ndim - 1):
    same(nnx.glu(jnp.asarray(y, jnp.float32)), p * sigm(q), "glu, default axis")
  if gshape[axis] > 0:
    odd = list(gshape)
    odd[axis] = 3
    case.raises((AssertionError, ValueError, TypeError),
                lambda: nnx.glu(jnp.ones(odd), axis=axis), "glu of an odd axis")
  n = rng.randint(1, 5)
  ids = case.np.integers(-1, n + 1, size=shape)
  want = (ids[..., None] == np.arange(n)).astype(f64)
  for kw in ({}, {"dtype": jnp.int32}, {"dtype": jnp.bfloat16}):
    got = nnx.one_hot(jnp.asarray(ids), n, **kw)
    same(np.asarray(got.astype(jnp.float32)), want, "one_hot")
    case.eq(got.dtype, jnp.dtype(kw.get("dtype", jnp.float32)), "one_hot: dtype")
  at = rng.randrange(-ndim - 1, ndim + 1)
  same(nnx.one_hot(jnp.asarray(ids), n, axis=at), np.moveaxis(want, -1, at), "one_hot axis")
  dt = rng.choice([jnp.bfloat16, jnp.float16])
  for f in (nnx.softmax, nnx.log_softmax):
    case.eq(f(xj.astype(dt), axis=axis).dtype, jnp.dtype(dt), "dtype of a reduction")


# ------------------------------------------------------------ initializers

TRUNC = 0.87962566103423978
FAN = {
    "glorot": (1.0, "fan_avg"), "xavier": (1.0, "fan_avg"), "lecun": (1.0, "fan_in"),
    "he": (2.0, "fan_in"), "kaiming": (2.0, "fan_in"),
}


def fans(shape, in_axis, out_axis, batch_axis):
  get = lambda ax: [ax] if isinstance(ax, int) else list(ax)
  size = lambda ax: math.prod(shape[a] for a in get(ax))
  i, o, b = size(in_axis), size(out_axis), size(batch_axis)
  field = math.prod(shape) / (i * o * b)
  return i * field, o * field


def draws(case, init, shape, dtype, what):
  """Common laws of an initializer; returns the values in float64."""
  rng = case.rng
  key = jax.random.PRNGKey(rng.randint(0, 2 ** 31 - 1))
  x = init(key, shape, dtype)
  case.event("draw")
  case.eq(x.shape, tuple(shape), f"{what}: shape")
  case.eq(x.dtype, jnp.dtype(dtype), f"{what}: dtype")
  case.check(bool(jnp.all(jnp.isfinite(x))), f"{what}: finite")
  again = init(key, shape, dtype)
  case.check(bool(jnp.all(x == again)), f"{what}: the key decides")
  jitted = jax.jit(lambda k: init(k, shape, dtype))(key)
  case.check(bool(jnp.allclose(x.astype(jnp.float32), jitted.astype(jnp.float32), rtol=1e-4
                               if dtype == jnp.float32 else 2e-2, atol=1e-5)), f"{what}: under jit")
  if dtype == jnp.float32:
    case.check(bool(jnp.all(init(key, shape) == x)), f"{what}: float32 by default")
  case.event("key")
  return np.asarray(x.astype(jnp.float32)).astype(f64), key


def moments(case, x, std, what, kurt):
  """Mean and variance of n independent draws, within six standard errors."""
  n = x.size
  if n < 400:
    return
  case.check(abs(x.mean()) <= 6 * std / math.sqrt(n), f"{what}: mean", got=x.mean(), std=std, n=n)
  se = math.sqrt((kurt - 1) / n)
  case.check(abs(x.var() / std ** 2 - 1) <= 6 * se + 0.01, f"{what}: variance",
             got=x.var(), want=std ** 2, n=n)
  case.event("moments")


def check_scaled(case, init, shape, dtype, scale, mode, dist, axes, what):
  fi, fo = fans(shape, *axes)
  denom = {"fan_in": fi, "fan_out": fo, "fan_avg": (fi + fo) / 2}[mode]
  std = math.sqrt(scale / max(1.0, denom)) if denom else 0
  x, key = draws(case, init, shape, dtype, what)
  slack = 1.02 if dtype != jnp.float32 else 1.0001
  if dist == "uniform":
    case.check(np.max(np.abs(x), initial=0) <= math.sqrt(3) * std * slack, f"{what}: bounds",
               got=np.max(np.abs(x)), want=math.sqrt(3) * std)
    case.event("bounds")
    moments(case, x, std, what, 1.8)
  elif dist == "truncated_normal":
    case.check(np.max(np.abs(x), initial=0) <= 2 * std / TRUNC * slack, f"{what}: bounds",
               got=np.max(np.abs(x)), want=2 * std / TRUNC)
    case.event("bounds")
    moments(case, x, std, what, 2.37)
  else:
    moments(case, x, std, what, 3.0)
    if x.size >= 3000:
      case.check(np.max(np.abs(x)) > 2.6 * std, f"{what}: normal tails",
                 got=np.max(np.abs(x)) / std)
  other = np.asarray(init(jax.random.split(key)[0], shape, dtype).astype(jnp.float32))
  if x.size:
    case.check(not np.array_equal(x, other.astype(f64)), f"{what}: another key, other values")
  return x


def rand_shape(rng):
  r = rng.random()
  if r < 0.35:
    return (rng.randint(20, 60), rng.randint(20, 60))
  if r < 0.6:
    return (rng.randint(1, 3), rng.randint(1, 3), rng.randint(8, 20), rng.randint(8, 24))
  if r < 0.8:
    return (rng.randint(2, 5), rng.randint(10, 20), rng.randint(10, 20))
  return (rng.randint(1, 4), rng.randint(1, 4))


def family_fans(case):
  rng = case.rng
  base = sorted(FAN)[case.index % len(FAN)]
  dist = rng.choice(["normal", "uniform"])
  name = f"{base}_{dist}"
  shape = rand_shape(rng)
  dtype = rng.choice([jnp.float32, jnp.float32, jnp.bfloat16])
  axes = (-2, -1, ())
  kw = {}
  if rng.random() < 0.5:
    nd = len(shape)
    i, o = rng.sample(range(nd), 2)
    i, o = (a if rng.random() < 0.5 else a - nd for a in (i, o))
    rest = [a for a in range(nd) if a % nd not in (i % nd, o % nd)]
    b = tuple(rng.sample(rest, rng.randint(0, len(rest)))) if rng.random() < 0.5 else ()
    kw = dict(in_axis=i, out_axis=o, batch_axis=b)
    axes = (i, o, b)
  case.note(name, shape, kw)
  case.sig(name, shape, sorted(kw.items()), str(dtype))
  init = getattr(I, name)(**kw)
  scale, mode = FAN[base]
  check_scaled(case, init, shape, dtype, scale, mode,
               "truncated_normal" if dist == "normal" else "uniform", axes, name)
  # the general one
  mode = rng.choice(["fan_in", "fan_out", "fan_avg"])
  d = rng.choice(["normal", "uniform", "truncated_normal"])
  scale = rng.choice([0.5, 1.0, 3.0])
  check_scaled(case, I.variance_scaling(scale, mode, d, **kw), shape, dtype, scale, mode, d,
               axes, f"variance_scaling({scale},{mode},{d})")


def family_plain(case):
  rng = case.rng
  dtype = rng.choice([jnp.float32, jnp.float32, jnp.bfloat16, jnp.float16])
  shape = rng.choice([(), (3,), (0, 2), rand_shape(rng), rand_shape(rng)])
  case.sig(shape, str(dtype))
  case.note(shape, dtype)
  for make, value in ((I.zeros, 0.0), (I.ones, 1.0)):
    for dt in (dtype, jnp.int32, jnp.complex64):
      x = make()(jax.random.PRNGKey(0), shape, dt)
      case.check(x.shape == tuple(shape) and x.dtype == jnp.dtype(dt)
                 and bool(jnp.all(x == value)), f"{make.__name__}", got=x)
    draws(case, make(), shape, dtype, make.__name__)
  c = rng.choice([0.25, -3.0, 7.0])
  x, _ = draws(case, I.constant(c), shape, dtype, "constant")
  case.check(bool(np.all(x == c)), "constant: value")
  s = rng.choice([0.01, 1.0, 3.0])
  if shape != () and 0 not in shape:
    x, key = draws(case, I.normal(s), shape, dtype, "normal")
    moments(case, x, s, "normal", 3.0)
    x, _ = draws(case, I.normal(), shape, dtype, "normal, default")
    moments(case, x, 0.01, "normal, default", 3.0)
    x, _ = draws(case, I.uniform(s), shape, dtype, "uniform")
    case.check(x.min() >= 0 and x.max() <= s, "uniform: bounds", got=(x.min(), x.max()))
    case.event("bounds")
    moments(case, x - s / 2, s / math.sqrt(12), "uniform", 1.8)
    x, _ = draws(case, I.uniform(), shape, dtype, "uniform, default")
    case.check(x.min() >= 0 and x.max() <= 0.0101, "uniform: default bounds")


def family_orthogonal(case):
  rng = case.rng
  nd = rng.randint(2, 4)
  shape = tuple(rng.randint(1, 7) for _ in range(nd))
  s = rng.choice([1.0, 0.5, 2.0])
  col = rng.randrange(-nd, nd)
  case.note(shape, s, col)
  case.sig(shape, s, col)
  x, key = draws(case, I.orthogonal(s, column_axis=col), shape, jnp.float32, "orthogonal")
  m = np.moveaxis(x, col, -1).reshape(-1, shape[col])
  gram = m.T @ m if m.shape[0] >= m.shape[1] else m @ m.T
  case.close(gram, s * s * np.eye(len(gram)), "orthogonal: gram matrix", atol=1e-4)
  case.event("orthogonal")
  x, _ = draws(case, I.orthogonal(), shape, jnp.float32, "orthogonal, default")
  m = x.reshape(-1, shape[-1])
  gram = m.T @ m if m.shape[0] >= m.shape[1] else m @ m.T
  case.close(gram, np.eye(len(gram)), "orthogonal: default", atol=1e-4)
  i = rng.randint(1, 4)
  o = rng.randint(i, 6)
  k = rng.randint(1, 3)
  dshape = tuple(rng.choice([1, 2, 3, 5]) for _ in range(k)) + (i, o)
  x, _ = draws(case, I.delta_orthogonal(s), dshape, jnp.float32, "delta_orthogonal")
  centre = tuple((d - 1) // 2 for d in dshape[:k])
  mid = x[centre]
  case.close(mid @ mid.T, s * s * np.eye(i), "delta_orthogonal: the centre", atol=1e-4)
  rest = x.copy()
  rest[centre] = 0
  case.check(not rest.any(), "delta_orthogonal: zero elsewhere")
  case.event("orthogonal")


def family_layer(case):
  """The initializers as layers use them: the kernel of a layer is the draw for its key."""
  rng = case.rng
  name = rng.choice(["glorot_uniform", "he_normal", "lecun_normal", "normal", "uniform",
                     "xavier_normal", "kaiming_uniform", "orthogonal", "zeros", "ones"])
  init = getattr(I, name)()
  seed = rng.randint(0, 999)
  din, dout = rng.randint(1, 6), rng.randint(1, 6)
  case.sig(name, din, dout)
  m = nnx.Linear(din, dout, kernel_init=init, bias_init=I.ones(), ctx=nnx.context(seed))
  ctx = nnx.context(seed)
  case.close(np.asarray(m.kernel), np.asarray(init(ctx.make_rng("params"), (din, dout), jnp.float32)),
             f"kernel by {name}", rtol=1e-6)
  case.check(bool(jnp.all(m.bias == 1)), "bias by ones()")
  d = nnx.Linear(din, dout, ctx=nnx.context(seed))
  case.check(bool(jnp.all(d.bias == 0)), "default bias")
  lim = 2 / TRUNC / math.sqrt(din)
  case.check(float(jnp.max(jnp.abs(d.kernel))) <= lim * 1.0001, "default kernel: lecun bounds")
  e = nnx.Embed(din, dout, embedding_init=init, ctx=nnx.context(seed))
  case.eq(e.embedding.shape, (din, dout), "embedding")
  case.close(np.asarray(e.embedding), np.asarray(
      init(nnx.context(seed).make_rng("params"), (din, dout), jnp.float32)), f"embedding by {name}")
  act = rng.choice(sorted(POINTWISE))
  s = nnx.Sequence([m, getattr(nnx, act), d.clone() if din == dout else (lambda x: x * 2)])
  x = jnp.asarray(case.np.standard_normal((2, din)), jnp.float32)
  h = np.asarray(x).astype(f64) @ np.asarray(m.kernel).astype(f64) + 1
  with np.errstate(all="ignore"):
    h = POINTWISE[act][0](h)
  want = h @ np.asarray(d.kernel).astype(f64) if din == dout else h * 2
  case.close(np.asarray(s(x)), want, f"a Sequence with {act}", rtol=1e-3, atol=1e-4)
  case.event("in-layer")


def family_names(case):
  """What is exported, under which names."""
  import nnx.nn.activations as acts
  for n in list(POINTWISE) + ["softmax", "log_softmax", "logsumexp", "standardize", "normalize",
                              "glu", "one_hot"]:
    case.check(callable(getattr(nnx, n)) and callable(getattr(acts, n)), f"nnx.{n} is exported")
    case.check(n in acts.__all__, f"{n} is listed")
    x = jnp.asarray([[0.5, -2.0, 1.5, 4.0]])
    args = (jnp.asarray([1, 2]), 3) if n == "one_hot" else (x,)
    case.check(bool(jnp.array_equal(getattr(nnx, n)(*args), getattr(acts, n)(*args))),
               f"{n}: both names give the same")
    twin = jnp.tanh if n == "tanh" else getattr(jax.nn, n)
    case.check(bool(jnp.array_equal(getattr(nnx, n)(*args), twin(*args))), f"{n} is jax's")
  case.sig("names")


FAMILIES = {
    "names": dict(fn=family_names, quick=1, thorough=1),
    "pointwise": dict(fn=family_pointwise, quick=18 * 7, thorough=18 * 150),
    "reducing": dict(fn=family_reducing, quick=20, thorough=500),
    "fans": dict(fn=family_fans, quick=48, thorough=700),
    "plain": dict(fn=family_plain, quick=20, thorough=500),
    "orthogonal": dict(fn=family_orthogonal, quick=16, thorough=400),
    "layer": dict(fn=family_layer, quick=40, thorough=900),
}
