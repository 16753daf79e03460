"""C21: Linear, Conv and Embed compute what their definition says."""
import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
from jax import lax

import nnx
from nnxmon import gen

RULE = (
    "Random layer configurations (features, kernel sizes, strides, padding of every form, "
    "dilations, groups, masks, bias, dtypes, batch ranks, initializers) are built and called "
    "on random inputs eagerly, jitted and differentiated; outputs are compared with a float64 "
    "numpy definition and with flax.linen given the same parameters, parameters with the "
    "recorded initializer calls; non-trivial = distinct configuration."
)
NEED = {"linear": 80, "conv": 55, "embed": 50, "numpy_oracle": 200, "linen_oracle": 280,
        "params_checked": 180, "refused": 200, "grads": 90, "defaults": 45, "attributes": 200}

DTYPES = [None, jnp.float32, jnp.bfloat16, jnp.float16]
TOL = {"float32": (1e-4, 1e-4), "float64": (1e-4, 1e-4), "bfloat16": (6e-2, 6e-2),
       "float16": (1e-2, 1e-2), "complex64": (1e-4, 1e-4)}


class Recording:
  """An initializer which records how it was called."""

  def __init__(self, rng, zero=False):
    self.calls = []
    self.seed = gen.fresh()

  def __call__(self, key, shape, dtype=jnp.float32):
    a = np.random.default_rng(self.seed * 1000 + len(self.calls)).normal(size=shape)
    out = jnp.asarray(a, dtype)
    self.calls.append((np.asarray(key).tobytes(), tuple(shape), jnp.dtype(dtype), out))
    return out


def close(case, got, want, msg, dtype=None):
  dtype = jnp.dtype(dtype or got.dtype)
  rtol, atol = TOL.get(dtype.name, (0, 0))
  case.eq(got.shape, want.shape, msg + ": shape")
  a, b = np.asarray(got, np.float64), np.asarray(want, np.float64)
  scale = max(1.0, float(np.max(np.abs(b), initial=0.0)))
  case.check(np.allclose(a, b, rtol=rtol, atol=atol * scale, equal_nan=True), msg,
             got=a.ravel()[:8], want=b.ravel()[:8], dtype=dtype)


def params_ok(case, m, names, inits, shapes, param_dtype):
  """Each parameter is the value of exactly one call of its own initializer."""
  keys = []
  for n, init, shape in zip(names, inits, shapes):
    v = vars(m)[n]
    case.check(type(v) is nnx.Param, f"{n} is a Param")
    if shape is None:
      case.check(v.value is None, f"{n} is None without use_bias")
      case.eq(len(init.calls), 0, f"calls of the initializer of {n}")
      continue
    case.eq(len(init.calls), 1, f"calls of the initializer of {n}")
    key, got_shape, dtype, out = init.calls[0]
    keys.append(key)
    case.eq(got_shape, tuple(shape), f"shape of {n}")
    case.eq(dtype, jnp.dtype(param_dtype), f"param_dtype of {n}")
    case.check(v.value is out or gen.fp(v.value) == gen.fp(out), f"value of {n}")
  case.eq(len(set(keys)), len(keys), "parameters got distinct keys")
  got = sorted(k for k, v in m.get_state().items())
  case.eq(got, sorted(names), "variables of the layer")
  case.event("params_checked")


def linen_check(case, layer, variables, x, got, msg, method=None):
  kw = {"method": method} if method else {}
  want = layer.apply({"params": variables}, x, **kw)
  case.eq(str(got.dtype), str(want.dtype), msg + ": dtype vs linen")
  close(case, got, want, msg + " vs linen")
  case.event("linen_oracle")


def grads_check(case, m, layer, x, cast, msg):
  """Gradients with respect to parameters and inputs against linen."""
  if not jnp.issubdtype(x.dtype, jnp.inexact):
    return
  state, moduledef = m.partition()
  weights = case.np.normal(size=1)

  def loss(state, x):
    y, _ = moduledef.apply(state)(x)
    return jnp.sum(jnp.tanh(y.astype(jnp.float32))) * float(weights[0])

  def ref(p, x):
    return jnp.sum(jnp.tanh(layer.apply({"params": p}, x).astype(jnp.float32))
                   ) * float(weights[0])

  p = {k: v.value for k, v in state.items() if v.value is not None}
  g, gx = jax.grad(loss, argnums=(0, 1))(state, x)
  r, rx = jax.grad(ref, argnums=(0, 1))(p, x)
  for k in p:
    close(case, g[k].value, r[k], f"{msg}: gradient of {k}", cast)
  close(case, gx, rx, f"{msg}: gradient of the input", cast)
  case.event("grads")


def attrs_check(case, m, kw, **more):
  """The documented attributes are what the layer was built with."""
  for k, v in {**kw, **more}.items():
    got = getattr(m, k)
    case.check(got is v or got == v, f"attribute {k}", got=got, want=v)
  case.event("attributes")


def defaults(case):
  """Arguments that are left out have the documented defaults."""
  rng = case.rng
  seed = gen.fresh()
  kind = rng.choice(["Linear", "Conv", "Embed"])
  init_k, init_b = nn.linear.default_kernel_init, jax.nn.initializers.zeros
  nd = rng.choice([1, 2])
  if kind == "Embed":
    args = (rng.randint(2, 6), rng.randint(1, 5))
    full = dict(dtype=None, param_dtype=jnp.float32, embedding_init=None)
    names, shapes = ["embedding"], [args]
    inits = [jax.nn.initializers.variance_scaling(1.0, "fan_in", "normal", out_axis=0)]
  else:
    args = (rng.randint(1, 5), rng.randint(1, 5))
    full = dict(use_bias=True, dtype=None, param_dtype=jnp.float32, precision=None,
                kernel_init=init_k, bias_init=init_b)
    kshape = args
    if kind == "Conv":
      ks = tuple(rng.randint(1, 3) for _ in range(nd))
      kshape = ks + args
      args += (ks,)
      full.update(strides=1, padding="SAME", input_dilation=1, kernel_dilation=1,
                  feature_group_count=1, mask_fn=None)
    names, shapes, inits = ["kernel", "bias"], [kshape, (args[1],)], [init_k, init_b]
  given = {k: full[k] for k in rng.sample(sorted(full), rng.randint(0, len(full) // 2))}
  if kind == "Embed" and "embedding_init" in given:
    given["embedding_init"] = inits[0]
  case.note(kind, args, sorted(given))
  m = getattr(nnx, kind)(*args, ctx=nnx.context(seed), **given)
  keys = nnx.context(seed)
  keys = [keys.make_rng("params") for _ in names]
  used = set()
  for n, shape, init in zip(names, shapes, inits):
    v = getattr(m, n)
    case.eq((v.shape, str(v.dtype)), (shape, "float32"), f"default shape and dtype of {n}")
    hit = [i for i, k in enumerate(keys) if i not in used
           and np.allclose(v, init(k, shape, jnp.float32), rtol=1e-5, atol=1e-6)]
    case.check(hit, f"{n} comes from the default initializer and a key of the stream", got=v)
    if n != "bias":
      used.add(hit[0])
  p = {n: getattr(m, n) for n in names}
  if kind == "Linear":
    x, layer = case.np.normal(size=(3, args[0])), nn.Dense(args[1])
  elif kind == "Conv":
    x, layer = case.np.normal(size=(2,) + (5,) * nd + args[:1]), nn.Conv(args[1], args[2])
  else:
    x, layer = None, nn.Embed(*args)
  x = jnp.asarray([0, args[0] - 1, 1]) if x is None else jnp.asarray(x, jnp.float32)
  linen_check(case, layer, p, x, m(x), f"{kind} with defaults")
  if kind != "Embed":
    attrs_check(case, m, {k: v for k, v in full.items() if k not in ("kernel_init", "bias_init")},
                in_features=args[0], out_features=args[1])
  else:
    attrs_check(case, m, {}, num_embeddings=args[0], features=args[1], param_dtype=jnp.float32)
  case.event("defaults")
  case.sig(kind, args, sorted(given))


def expected_dtype(args, dtype):
  if dtype is not None:
    return jnp.dtype(dtype)
  d = jnp.result_type(*[a for a in args if a is not None])
  return d if jnp.issubdtype(d, jnp.inexact) else jnp.promote_types(jnp.float32, d)


def rand_input(case, shape, rng):
  kind = rng.choice(["f32", "f32", "f32", "bf16", "f16", "int", "np"])
  a = case.np.normal(size=shape)
  if kind == "int":
    return jnp.asarray(case.np.integers(-3, 4, size=shape), jnp.int32)
  if kind == "np":
    return np.asarray(a, np.float32)
  return jnp.asarray(a, {"f32": jnp.float32, "bf16": jnp.bfloat16, "f16": jnp.float16}[kind])


def low_precision(*dts):
  order = ["bfloat16", "float16", "float32", "complex64"]
  names = [jnp.dtype(d).name for d in dts if d is not None]
  names = [n for n in names if n in order]
  return min(names, key=order.index) if names else "float32"


def linear(case):
  rng = case.rng
  din, dout = rng.randint(1, 5), rng.randint(1, 5)
  dtype, pdtype = rng.choice(DTYPES), rng.choice([jnp.float32, jnp.float32, jnp.bfloat16,
                                                  jnp.float16])
  bias = rng.random() < 0.7
  ki, bi = Recording(rng), Recording(rng)
  ctx = nnx.context(gen.fresh())
  kw = dict(use_bias=bias, dtype=dtype, param_dtype=pdtype, kernel_init=ki, bias_init=bi)
  if rng.random() < 0.2:
    kw["precision"] = rng.choice(["highest", "default", lax.Precision.HIGHEST])
  seen = []
  if rng.random() < 0.3:
    def dg(a, b, dims, precision=None, **k):
      seen.append(precision)
      return lax.dot_general(a, b, dims, precision=precision, **k) * 2
    kw["dot_general"] = dg
  m = nnx.Linear(din, dout, ctx=ctx, **kw)
  params_ok(case, m, ["kernel", "bias"], [ki, bi], [(din, dout), (dout,) if bias else None],
            pdtype)
  attrs_check(case, m, kw, in_features=din, out_features=dout)
  shape = tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 3))) + (din,)
  if rng.random() < 0.05:
    shape = (0, din)
  x = rand_input(case, shape, rng)
  case.note(dict(din=din, dout=dout, x=(x.dtype, shape),
                 **{k: str(v)[:30] for k, v in kw.items()}))
  case.sample((din, dout, str(x.dtype), shape, str(dtype), str(pdtype), bias))
  before = gen.describe(m)
  y = m(x)
  case.check(isinstance(y, jax.Array), "a jax array")
  case.eq(y.dtype, expected_dtype([x, m.kernel, m.bias], dtype), "output dtype")
  if "dot_general" in kw:
    case.eq(seen, [kw.get("precision")], "dot_general is called with the precision")
  tol = low_precision(dtype, pdtype, x.dtype, y.dtype)
  f = 2 if "dot_general" in kw else 1
  want = f * np.asarray(x, np.float64) @ np.asarray(m.kernel, np.float64)
  if bias:
    want = want + np.asarray(m.bias, np.float64)
  close(case, y, want, "Linear vs numpy", tol)
  case.event("numpy_oracle")
  p = {"kernel": m.kernel}
  if bias:
    p["bias"] = m.bias
  layer = nn.Dense(dout, use_bias=bias, dtype=dtype, param_dtype=pdtype,
                   precision=kw.get("precision"),
                   dot_general=kw.get("dot_general", lax.dot_general))
  linen_check(case, layer, p, x, y, "Linear")
  close(case, jax.jit(lambda v: m(v))(x), y, "Linear jitted", tol)
  if y.size:
    grads_check(case, m, layer, x, tol, "Linear")
  case.eq(gen.describe(m), before, "a call leaves the layer unchanged")
  bad = jnp.ones(shape[:-1] + (din + 1,))
  case.raises(Exception, lambda: m(bad), "wrong number of input features")
  m.dtype = rng.choice([jnp.int32, jnp.uint8, bool])
  case.raises(ValueError, lambda: m(x), "a computation dtype which is not inexact")
  case.event("refused", 2)
  case.event("linear")
  case.sig(din, dout, str(dtype), str(pdtype), bias, str(x.dtype), shape)


def rand_padding(rng, nd):
  r = rng.randint(0, 6 if nd == 1 else 5)
  if r == 0:
    return "SAME"
  if r == 1:
    return "VALID"
  if r == 2:
    return "CIRCULAR"
  if r == 3:
    return rng.randint(0, 2)
  if r == 4:
    return [rng.randint(0, 2) for _ in range(nd)]
  if r == 5:
    return [(rng.randint(0, 2), rng.randint(0, 2)) if rng.random() < 0.8 else rng.randint(0, 2)
            for _ in range(nd)]
  return "CAUSAL"


def np_conv(x, k, strides, padding, idil, kdil, groups):
  """x (b, *spatial, c), k (*ks, c/groups, f), float64; the definition, by loops."""
  nd = k.ndim - 2
  b, c, f = x.shape[0], x.shape[-1], k.shape[-1]
  # input dilation
  sp = [(s - 1) * d + 1 if s else 0 for s, d in zip(x.shape[1:-1], idil)]
  z = np.zeros((b, *sp, c))
  z[(slice(None),) + tuple(slice(None, None, d) for d in idil)] = x
  ks = [(s - 1) * d + 1 for s, d in zip(k.shape[:nd], kdil)]
  mode = "constant"
  if padding == "CIRCULAR":
    # the wrap happens on the undilated input
    z = x
    pads = [((s - 1) // 2, s // 2) for s in ks]
    z = np.pad(z, [(0, 0)] + pads + [(0, 0)], mode="wrap")
    sp = [(s - 1) * d + 1 for s, d in zip(z.shape[1:-1], idil)]
    zz = np.zeros((b, *sp, c))
    zz[(slice(None),) + tuple(slice(None, None, d) for d in idil)] = z
    z, pads = zz, [(0, 0)] * nd
  elif padding == "CAUSAL":
    zz = np.pad(x, [(0, 0), (kdil[0] * (k.shape[0] - 1), 0), (0, 0)])
    z = np.zeros((b, (zz.shape[1] - 1) * idil[0] + 1, c))
    z[:, ::idil[0]] = zz
    pads = [(0, 0)]
  elif padding == "VALID":
    pads = [(0, 0)] * nd
  elif padding == "SAME":
    pads = []
    for s, w, st in zip(sp, ks, strides):
      out = -(-s // st)
      total = max((out - 1) * st + w - s, 0)
      pads.append((total // 2, total - total // 2))
  elif isinstance(padding, int):
    pads = [(padding, padding)] * nd
  else:
    pads = [(p, p) if isinstance(p, int) else p for p in padding]
  z = np.pad(z, [(0, 0)] + pads + [(0, 0)], mode=mode)
  outs = [max((s - w) // st + 1, 0) for s, w, st in zip(z.shape[1:-1], ks, strides)]
  y = np.zeros((b, *outs, f))
  cg, fg = c // groups, f // groups
  for o in np.ndindex(*outs):
    for t in np.ndindex(*k.shape[:nd]):
      at = tuple(oi * st + ti * d for oi, st, ti, d in zip(o, strides, t, kdil))
      v = z[(slice(None),) + at]
      for g in range(groups):
        y[(slice(None),) + o + (slice(g * fg, (g + 1) * fg),)] += (
            v[:, g * cg:(g + 1) * cg] @ k[t][:, g * fg:(g + 1) * fg])
  return y


def bcast(v, nd):
  if v is None:
    return (1,) * nd
  return (v,) * nd if isinstance(v, int) else tuple(v)


def conv(case):
  rng = case.rng
  nd = rng.choice([1, 1, 2, 2, 3])
  groups = rng.choice([1, 1, 2, 3])
  cin, cout = groups * rng.randint(1, 2), groups * rng.randint(1, 2)
  ks = tuple(rng.randint(1, 3) for _ in range(nd))
  if nd == 1 and rng.random() < 0.3:
    ks = (rng.randint(4, 7),)
  ks = list(ks) if rng.random() < 0.2 else ks
  per = lambda lo, hi: rng.choice([None, 1, 1, rng.randint(lo, hi),
                                   tuple(rng.randint(lo, hi) for _ in range(nd))])
  strides, idil, kdil = per(1, 3), per(1, 2), per(1, 2)
  padding = rand_padding(rng, nd)
  if max(ks) > 3 and rng.random() < 0.4:
    padding = "CIRCULAR"
  if isinstance(padding, str):  # refused by jax together with an input dilation
    idil = 1
  if padding in ("CIRCULAR", "SAME"):
    sizes = tuple(rng.randint(4, 6) + 2 * max(k - 3, 0) for k in ks)
  else:
    sizes = tuple((rng.randint(5, 7) if nd < 3 else 5) + 2 * max(k - 3, 0) for k in ks)
  batch = rng.choice([(), (2,), (1,), (2, 2), (3, 1, 1), (2,), (2, 2), (0,), (2, 0)])
  dtype, pdtype = rng.choice(DTYPES), rng.choice([jnp.float32, jnp.float32, jnp.bfloat16])
  bias = rng.random() < 0.7
  ki, bi = Recording(rng), Recording(rng)
  kw = dict(padding=padding, input_dilation=idil, kernel_dilation=kdil,
            feature_group_count=groups, use_bias=bias, dtype=dtype, param_dtype=pdtype,
            kernel_init=ki, bias_init=bi)
  mask = None
  kshape = tuple(ks) + (cin // groups, cout)
  if rng.random() < 0.25:
    mask = jnp.asarray(case.np.integers(0, 2, size=kshape), jnp.float32)
    masked = []

    def mask_fn(k):
      masked.append((k.shape, k.dtype))
      return k * mask.astype(k.dtype)

    kw["mask_fn"] = mask_fn
  seen, precision = [], rng.choice([None, None, "highest", lax.Precision.HIGH])
  if precision is not None:
    def cgd(*args, precision=None, **k):
      seen.append(precision)
      return lax.conv_general_dilated(*args, precision=precision, **k)
    kw.update(precision=precision, conv_general_dilated=cgd)
  m = nnx.Conv(cin, cout, ks, strides, ctx=nnx.context(gen.fresh()), **kw)
  attrs_check(case, m, kw, in_features=cin, out_features=cout, kernel_size=tuple(ks),
              strides=strides)
  params_ok(case, m, ["kernel", "bias"], [ki, bi], [kshape, (cout,) if bias else None], pdtype)
  x = rand_input(case, batch + sizes + (cin,), rng)
  case.note(dict(nd=nd, ks=ks, strides=strides, idil=idil, kdil=kdil, padding=padding,
                 groups=groups, cin=cin, cout=cout, x=(x.dtype, x.shape), dtype=dtype,
                 pdtype=pdtype, bias=bias, mask=mask is not None))
  case.sample((ks, strides, idil, kdil, padding, groups, x.shape))
  before = gen.describe(m)
  y = m(x)
  case.eq(seen, [] if precision is None else [precision], "convolution calls and precision")
  if mask is not None:
    case.eq(masked, [(kshape, m.kernel.dtype)], "the mask applies to the stored kernel, once")
  case.eq(y.dtype, expected_dtype([x, m.kernel, m.bias], dtype), "output dtype")
  tol = low_precision(dtype, pdtype, x.dtype, y.dtype)
  k64 = np.asarray(m.kernel, np.float64)
  if mask is not None:
    k64 = k64 * np.asarray(mask, np.float64)
  x64 = np.asarray(x, np.float64).reshape((int(np.prod(batch)),) + sizes + (cin,))
  want = np_conv(x64, k64, bcast(strides, nd), padding, bcast(idil, nd), bcast(kdil, nd), groups)
  if bias:
    want = want + np.asarray(m.bias, np.float64)
  want = want.reshape(batch + want.shape[1:])
  close(case, y, want, "Conv vs numpy", tol)
  case.event("numpy_oracle")
  p = {"kernel": m.kernel}
  if bias:
    p["bias"] = m.bias
  lmask = None if mask is None else mask.astype(m.kernel.dtype)
  layer = nn.Conv(cout, tuple(ks), strides=strides, padding=padding, input_dilation=idil,
                  kernel_dilation=kdil, feature_group_count=groups, use_bias=bias, mask=lmask,
                  dtype=dtype, param_dtype=pdtype)
  linen_check(case, layer, p, x, y, "Conv")
  if rng.random() < 0.4:
    close(case, jax.jit(lambda v: m(v))(x), y, "Conv jitted", tol)
    grads_check(case, m, layer, x, tol, "Conv")
  case.eq(gen.describe(m), before, "a call leaves the layer unchanged")
  case.event("conv")
  case.sig(ks, strides, idil, kdil, padding, groups, cin, cout, x.shape, bias, str(dtype))


def conv_refused(case):
  rng = case.rng
  nd = rng.choice([1, 2, 3])
  ctx = nnx.context(gen.fresh())
  ks = tuple(rng.randint(1, 3) for _ in range(nd))
  case.raises(TypeError, lambda: nnx.Conv(2, 2, 3, ctx=ctx), "integer kernel_size")
  x = jnp.ones((1,) + (5,) * nd + (2,))
  bad = [(1.5,) * nd, [(1, 2, 3)] * nd, [1] * (nd + 1), None, [("a", 1)][:1] * (nd + 2)]
  for padding in bad:
    case.note("padding", padding)
    case.raises(ValueError, lambda: nnx.Conv(2, 2, ks, padding=padding, ctx=ctx)(x),
                "invalid padding", match="padding")
    case.event("refused")
  if nd > 1:
    case.raises(ValueError, lambda: nnx.Conv(2, 2, ks, padding="CAUSAL", ctx=ctx)(x),
                "causal padding in more than one dimension", match="ausal")
    case.event("refused")
  case.raises(Exception, lambda: nnx.Conv(3, 2, ks, feature_group_count=2, ctx=ctx)(
      jnp.ones((1,) + (5,) * nd + (3,))), "in_features not divisible by the groups")
  case.raises(Exception, lambda: nnx.Conv(2, 2, ks, ctx=ctx)(
      jnp.ones((1,) + (5,) * nd + (3,))), "wrong number of input features")
  case.event("refused", 2)
  case.sig(nd, ks)


def embed(case):
  rng = case.rng
  n, f = rng.choice([rng.randint(1, 6)] * 3 + [rng.randint(130, 400)]), rng.randint(1, 5)
  dtype, pdtype = rng.choice(DTYPES), rng.choice([jnp.float32, jnp.bfloat16, jnp.float16,
                                                  jnp.int32])
  if pdtype is jnp.int32:
    dtype = rng.choice([None, jnp.int32])
  init = Recording(rng)
  m = nnx.Embed(n, f, dtype=dtype, param_dtype=pdtype, embedding_init=init,
                ctx=nnx.context(gen.fresh()))
  params_ok(case, m, ["embedding"], [init], [(n, f)], pdtype)
  attrs_check(case, m, dict(num_embeddings=n, features=f, param_dtype=pdtype,
                            embedding_init=init))
  shape = tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 3)))
  idt = rng.choice([jnp.int32, jnp.uint8, jnp.int8, jnp.uint32] if n < 100 else
                   [jnp.int32, jnp.uint16, jnp.int16, jnp.uint32])
  x = jnp.asarray(case.np.integers(0, n, size=shape), idt)
  case.note(dict(n=n, f=f, dtype=dtype, pdtype=pdtype, x=(x.dtype, shape)))
  case.sample((n, f, str(dtype), str(pdtype), str(idt), shape))
  before = gen.describe(m)
  y = m(x)
  case.eq(y.dtype, jnp.dtype(dtype or pdtype), "dtype of the vectors")
  case.eq(y.shape, shape + (f,), "shape of the vectors")
  table = np.asarray(m.embedding.astype(dtype or pdtype), np.float64)
  case.eq(gen.fp(np.asarray(y, np.float64)), gen.fp(np.asarray(table[np.asarray(x)])),
          "vectors are rows of the table")
  case.event("numpy_oracle")
  layer = nn.Embed(n, f, dtype=dtype, param_dtype=pdtype,
                   embedding_init=jax.nn.initializers.zeros)
  linen_check(case, layer, {"embedding": m.embedding}, x, y, "Embed")
  oob = jnp.asarray(case.np.integers(-n - 1, 2 * n, size=(4,)), jnp.int32)
  linen_check(case, layer, {"embedding": m.embedding}, oob, m(oob), "Embed out of range")
  close(case, jax.jit(lambda v: m(v))(x), y, "Embed jitted", "float32")
  if pdtype is not jnp.int32:
    q = jnp.asarray(case.np.normal(size=shape + (f,)), rng.choice([jnp.float32, jnp.bfloat16]))
    a = m.attend(q)
    # documented default: the dtype of the embedding
    case.eq(a.dtype, jnp.dtype(dtype or pdtype), "attend: dtype")
    tol = low_precision(dtype, pdtype, q.dtype)
    close(case, a, np.asarray(q, np.float64) @ np.asarray(m.embedding, np.float64).T,
          "attend vs numpy", tol)
    case.event("numpy_oracle")
    if dtype is not None:
      linen_check(case, layer, {"embedding": m.embedding}, q, a, "attend", method="attend")
    else:
      case.event("linen_oracle")
    # gradient of the looked up rows: one per occurrence
    state, moduledef = m.partition()
    g = jax.grad(lambda s: jnp.sum(moduledef.apply(s)(x)[0].astype(jnp.float32)))(state)
    want = np.zeros((n, f))
    for i in np.asarray(x).ravel():
      want[i] += 1
    close(case, g["embedding"].value, want, "gradient of the table")
    case.event("grads")
  for bad in (jnp.ones(shape), jnp.ones(shape, bool), np.ones(shape, np.float32)):
    case.raises(ValueError, lambda: m(bad), "indices must be integers")
    case.event("refused")
  case.eq(gen.describe(m), before, "a call leaves the layer unchanged")
  case.event("embed")
  case.sig(n, f, str(dtype), str(pdtype), str(idt), shape)


FAMILIES = {
    "linear": dict(fn=linear, quick=170),
    "conv": dict(fn=conv, quick=120),
    "defaults": dict(fn=defaults, quick=90),
    "conv_refused": dict(fn=conv_refused, quick=16),
    "embed": dict(fn=embed, quick=110),
}
