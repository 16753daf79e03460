"""C23: Dropout scales kept inputs, zeroes the rest, and draws its mask only when it must."""
import math

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnxmon import gen
from checks.c21 import close

RULE = (
    "Random Dropout layers (rates with 0 and 1, broadcast dims, stream names, attribute, "
    "argument and ctx-flag choices) go through random call histories, eagerly, jitted, under "
    "grad, inside Sequence and scan; every output is decomposed into (zero | input/keep), the "
    "mask is compared along broadcast dims, with linen for the same key and with the binomial "
    "law, and the position of every rng stream is checked after each call; non-trivial = "
    "distinct (configuration, history)."
)
NEED = {"masked": 100, "identity": 180, "zeroed": 8, "no_rng_used": 200, "rate_sampled": 36,
        "refused": 200, "distinct_masks": 25}


def streams_at(seeds, used):
  """A fresh context whose streams have already given `used[name]` keys."""
  ctx = nnx.context(**seeds)
  for name, n in used.items():
    for _ in range(n):
      ctx.make_rng(name)
  return ctx


def positions_ok(case, ctx, seeds, used, what):
  """The streams of ctx have given exactly `used` keys: their next keys agree with a twin."""
  twin = streams_at(seeds, used)
  for name in seeds:
    a, b = ctx.make_rng(name), twin.make_rng(name)
    used[name] += 1
    case.check(np.array_equal(np.asarray(a), np.asarray(b)),
               f"{what}: stream {name} is at another position", used=dict(used))


def check_mask(case, x, y, rate, bdims, key, what):
  x64, y64 = np.asarray(x, np.float64), np.asarray(y, np.float64)
  case.eq(y.shape, x.shape, f"{what}: shape")
  case.eq(str(y.dtype), str(x.dtype), f"{what}: dtype")
  zero = y64 == 0
  tol = {"float32": 1e-5, "bfloat16": 2e-2, "float16": 2e-3}[str(x.dtype)]
  keep = np.isclose(y64, x64 / (1 - rate), rtol=tol, atol=tol)
  case.check(bool(np.all(zero | keep)), f"{what}: an output is neither 0 nor input/keep_prob",
             rate=rate)
  # inputs are non-zero, so the mask is visible
  mask = ~zero
  for d in bdims:
    m0 = np.take(mask, [0], axis=d)
    case.check(bool(np.all(mask == m0)), f"{what}: the mask varies along broadcast dim {d}")
  want = nn.Dropout(rate, broadcast_dims=bdims).apply({}, x, deterministic=False, rng=key)
  case.check(np.array_equal(np.asarray(want) == 0, zero),
             f"{what}: mask differs from linen's for the same key")
  close(case, y, want, f"{what}: vs linen")
  case.event("masked")
  return mask


def nonzero(case, shape, dtype=jnp.float32):
  a = case.np.uniform(0.5, 2.0, size=shape) * case.np.choice([-1.0, 1.0], size=shape)
  return jnp.asarray(a, dtype)


def history(case):
  rng = case.rng
  rate = rng.choice([0.0, 0.1, 0.25, 0.5, 0.5, 0.9, 1.0])
  coll = rng.choice(["dropout", "dropout", "noise", "params"])
  attr = rng.choice([None, None, True, False])
  ndim = rng.randint(1, 5)
  shape = tuple(rng.randint(3, 6 if ndim < 4 else 4) for _ in range(ndim))
  bdims = tuple(rng.choice([d, d - ndim]) for d in rng.sample(range(ndim),
                                                              rng.randint(0, ndim - 1)))
  kw = {}
  if bdims or rng.random() < 0.3:
    kw["broadcast_dims"] = list(bdims) if rng.random() < 0.3 else bdims
  if attr is not None:
    kw["deterministic"] = attr
  if coll != "dropout" or rng.random() < 0.3:
    kw["rng_collection"] = coll
  m = nnx.Dropout(rate, **kw)
  seeds = {n: gen.fresh() for n in {"dropout", "noise", coll}}
  case.note(dict(rate=rate, coll=coll, attr=attr, shape=shape, bdims=bdims))
  case.sample((rate, coll, attr, shape, bdims))
  flag = rng.choice([None, None, True, False])
  flags = {} if flag is None else {"deterministic": flag}
  ctx = nnx.context(flags=flags, **seeds)
  used = {n: 0 for n in seeds}
  before = gen.describe(m)
  hist, masks = [], []
  for step in range(rng.randint(2, 6)):
    x = nonzero(case, shape, rng.choice([jnp.float32, jnp.float32, jnp.bfloat16, jnp.float16]))
    arg = rng.choice([None, True, False])
    det = next((v for v in (arg, attr, flag) if v is not None), None)
    hist.append((arg, det))
    case.note("step", step, "arg", arg, "det", det)
    xfp = gen.fp(x)
    if det is None:
      case.raises(ValueError, lambda: m(x, ctx=ctx), "deterministic was not chosen")
      case.event("refused")
      positions_ok(case, ctx, seeds, used, "refused call")
      case.event("no_rng_used")
      continue
    if det or rate == 0.0:
      y = m(x, deterministic=arg, ctx=ctx)
      case.eq(gen.fp(y), xfp, "deterministic or rate 0: the inputs as they are")
      case.event("identity")
      if flag is None:
        case.eq(gen.fp(m(x, deterministic=det)), xfp, "no ctx needed")
      positions_ok(case, ctx, seeds, used, "identity call")
      case.event("no_rng_used")
    elif rate == 1.0:
      y = m(x, deterministic=arg, ctx=ctx)
      case.eq(gen.fp(y), gen.fp(jnp.zeros_like(x)), "rate 1: zeros")
      case.event("zeroed")
      g = jax.grad(lambda v: jnp.sum(m(v, deterministic=False).astype(jnp.float32)))(x)
      case.eq(gen.fp(g), gen.fp(jnp.zeros_like(x)), "rate 1: gradient")
      positions_ok(case, ctx, seeds, used, "rate 1")
      case.event("no_rng_used")
    else:
      key = streams_at(seeds, used).make_rng(coll)
      y = m(x, deterministic=arg, ctx=ctx)
      used[coll] += 1
      mask = check_mask(case, x, y, rate, bdims, key, f"step {step}")
      masks.append(mask)
      case.eq(gen.fp(x), xfp, "the input is unchanged")
      positions_ok(case, ctx, seeds, used, "masked call")
      case.raises(ValueError, lambda: m(x, deterministic=False), "no ctx")
      other = nnx.context(unrelated=3)
      case.raises(ValueError, lambda: m(x, deterministic=False, ctx=other), "no such stream")
      case.event("refused", 2)
      # a mask is a function of the stream's key and of nothing else
      again = m(nonzero(case, shape), deterministic=False,
                ctx=streams_at(seeds, {**used, coll: used[coll] - 2}))
      case.check(np.array_equal(np.asarray(again) != 0, mask), "same key, same mask")
      # gradient: 1/keep where kept
      def f(v, key):
        return jnp.sum(m(v, deterministic=False, ctx=nnx.context(**{coll: key})))
      x32 = x.astype(jnp.float32)
      g = jax.grad(f)(x32, key)
      y2 = m(x32, deterministic=False, ctx=nnx.context(**{coll: key}))
      close(case, g, jnp.where(y2 != 0, 1 / (1 - rate), 0.0), "gradient is the scaled mask")
  case.eq(gen.describe(m), before, "calls leave the layer unchanged")
  size = np.prod([1 if d in [b % ndim for b in bdims] else s for d, s in enumerate(shape)])
  if len(masks) > 1 and 0.2 < rate < 0.8 and size >= 60:
    for a in range(len(masks)):
      for b in range(a):
        case.check(not np.array_equal(masks[a], masks[b]), "two calls drew the same mask")
        case.event("distinct_masks")
  case.sig(rate, coll, attr, shape, bdims, flag, hist)


def law(case):
  """The kept fraction follows the binomial law; masks of calls are independent."""
  rng = case.rng
  rate = rng.choice([0.05, 0.2, 0.5, 0.7, 0.95])
  n = 6000
  m = nnx.Dropout(rate, deterministic=False)
  ctx = nnx.context(dropout=gen.fresh() + 1000 * case.index)
  x = nonzero(case, (n,))
  sd = math.sqrt(n * rate * (1 - rate))
  masks = []
  for _ in range(3):
    y = np.asarray(m(x, ctx=ctx))
    masks.append(y != 0)
    kept = int(masks[-1].sum())
    case.check(abs(kept - n * (1 - rate)) < 6.5 * sd, "kept fraction", kept=kept, rate=rate)
    # unbiased
    case.check(abs(float((y / np.asarray(x)).mean()) - 1) < 6.5 * sd / n / (1 - rate),
               "the mean is preserved", rate=rate)
    case.event("rate_sampled")
  p = (1 - rate) ** 2
  both = int((masks[0] & masks[1]).sum())
  case.check(abs(both - n * p) < 6.5 * math.sqrt(n * p * (1 - p)) + 5, "independent masks",
             both=both)
  case.event("distinct_masks")
  case.note(rate, both)
  case.sig(rate, both)


class Block(nnx.Module):

  def __init__(self, rate, *, ctx):
    self.lin = nnx.Linear(4, 4, ctx=ctx)
    self.drop = nnx.Dropout(rate)
    self.seq = nnx.Sequence([nnx.Dropout(rate), jnp.tanh, nnx.Dropout(rate)])

  def __call__(self, x, *, ctx):
    x = x + self.drop(self.lin(x), ctx=ctx)
    return self.seq(x, ctx=ctx)


def nested(case):
  """Dropout inside modules, Sequence and jit behaves as linen given the same keys."""
  rng = case.rng
  rate = rng.choice([0.25, 0.5])
  blk = Block(rate, ctx=nnx.context(gen.fresh()))
  x = nonzero(case, (5, 4))
  seed = gen.fresh()
  for det in (True, False):
    flags = {"deterministic": det}
    y = blk(x, ctx=nnx.context(dropout=seed, flags=flags))
    ref = nnx.context(dropout=seed)
    h = blk.lin(x)
    drop = lambda v: v if det else nn.Dropout(rate).apply({}, v, deterministic=False,
                                                         rng=ref.make_rng("dropout"))
    want = drop(jnp.tanh(drop(x + drop(h))))
    close(case, y, want, f"block, deterministic={det}")
    case.event("masked" if not det else "identity")
    (state), moduledef = blk.partition()
    y2, _ = moduledef.apply(state)(x, ctx=nnx.context(dropout=seed, flags=flags))
    close(case, y2, y, "functional call")
    # through jit the context is forked once: same seed, same result, new call, new mask
    f = jax.jit(lambda s, v, pc: moduledef.apply(s)(v, ctx=pc.merge())[0])
    c = nnx.context(dropout=seed, flags=flags)
    a, b = f(state, x, c.partition()), f(state, x, c.partition())
    c2 = nnx.context(dropout=seed, flags=flags)
    case.eq(gen.fp(f(state, x, c2.partition())), gen.fp(a), "jitted: reproducible")
    if det:
      close(case, a, y, "jitted deterministic")
      case.eq(gen.fp(a), gen.fp(b), "jitted deterministic twice")
    else:
      case.check(not np.array_equal(np.asarray(a), np.asarray(b)), "jitted: two calls agree")
      case.event("distinct_masks")
  case.sig(rate, seed)


FAMILIES = {
    "history": dict(fn=history, quick=170),
    "law": dict(fn=law, quick=24),
    "nested": dict(fn=nested, quick=30),
}
