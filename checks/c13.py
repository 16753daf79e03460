"""C13: nnx.remat / nnx.Remat change nothing but memory: values, gradients, state."""
import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnxmon import gen, scripts

RULE = (
    "Scripted modules (shared submodules, cycles, new variables, sow) run through "
    "nnx.remat functions, decorated methods, constructors and the Remat class (call, "
    ".call, .call.method), with policies, static arguments, ctx, inside jit, grad and "
    "scan, next to the plain call on a twin: outputs, gradients, module graphs and RNG "
    "positions must agree, and the operations in the jaxpr of the gradient are those of "
    "jax.checkpoint on the plain function with the same options; non-trivial = distinct (graph, script, options)."
)
NEED = {"remat": 400, "grad": 100, "ctx": 80, "class": 80, "recompute": 40}

POLICIES = [None, jax.checkpoint_policies.everything_saveable,
            jax.checkpoint_policies.nothing_saveable,
            jax.checkpoint_policies.dots_saveable]


def rand_options(rng):
  kw = {}
  if rng.random() < 0.4:
    kw["prevent_cse"] = rng.random() < 0.5
  p = rng.choice(POLICIES)
  if p is not None or rng.random() < 0.2:
    kw["policy"] = p
  return kw


class Body(scripts.Scripted):

  def smooth(self, x):
    """A differentiable function of everything reachable."""
    tot = jnp.zeros(())
    for q in gen.all_modules(self):
      for name, v in sorted(gen.user_vars(q).items()):
        if isinstance(v, nnx.Variable):
          for l in jax.tree_util.tree_leaves(v):
            tot = tot + jnp.sum(jnp.sin(l / 10 + x))
    return tot


def values(case):
  rng = case.rng
  recipe = scripts.rand_scripted(rng, 4, classes=(Body,))
  if rng.random() < 0.4:
    recipe[-1]["attrs"]["cyc"] = ("sub", rng.randrange(len(recipe)))
  m, twin = gen.build(recipe, rng)[0], gen.build(recipe, rng)[0]
  ids = [id(q) for q in gen.all_modules(m)]
  script = scripts.rand_script(rng, recipe, rng.randint(1, 7), structural=False, delete=False)
  kw = rand_options(rng)
  case.note(gen.recipe_str(recipe))
  case.note(script, kw)
  case.sample((gen.recipe_str(recipe), script, str(kw)))

  shape = rng.choice(["plain", "plain", "none", "triple", "dict", "list", "nested"])
  wrap = dict(plain=lambda v, x: v, none=lambda v, x: None,
              triple=lambda v, x: (v, x * 2, x + 1), dict=lambda v, x: {"v": v, "x": x},
              list=lambda v, x: [x, v, x, v], nested=lambda v, x: ((v,), {"a": [x, None]}))[shape]

  def body(m, x, extra=None):
    out = wrap(m.run(script, x), x)
    return out if extra is None else (out, extra["k"] * 2)

  how = rng.choice(["plain", "plain", "jit", "twice"])
  f = nnx.remat(scripts.disguise(rng, body), **kw)
  if how == "jit":
    f = (lambda g: nnx.jit(lambda m, *a: g(m, *a)))(f)
  elif how == "twice":
    f = (lambda g: nnx.remat(lambda m, *a: g(m, *a)))(f)
  for call in range(rng.randint(1, 2)):
    x = jnp.float32(rng.randint(1, 5))
    extra = ({"k": jnp.ones((2,))},) if rng.random() < 0.3 else ()
    got, want = f(m, x, *extra), body(twin, x, *extra)
    case.eq(gen.fp_np(got), gen.fp_np(want), "output")
    case.eq(gen.describe(m), gen.describe(twin), "module after the call")
    case.event("remat")
  case.eq([id(q) for q in gen.all_modules(m)], ids, "the caller's modules were replaced")
  m.usable = 1
  case.sig(gen.recipe_sig(recipe), [s[:3] for s in script], how, sorted(kw), shape)


def gradients(case):
  rng = case.rng
  recipe = scripts.rand_scripted(rng, 3, classes=(Body,))
  m, twin = gen.build(recipe, rng)[0], gen.build(recipe, rng)[0]
  script = scripts.rand_script(rng, recipe, rng.randint(1, 4), structural=False, delete=False)
  kw = rand_options(rng)
  wrt = rng.choice([nnx.Param, ..., (nnx.Param, nnx.Cache)])

  def body(m, x):
    m.run(script, x)
    return m.smooth(x)

  rem = nnx.remat(scripts.disguise(rng, body), **kw)
  loss = lambda g: lambda m, x: jnp.tanh(g(m, x)) + m.smooth(x) * 0.1
  x = jnp.float32(rng.randint(1, 5))
  case.note(gen.recipe_str(recipe))
  case.note(script, kw, wrt)
  if rng.random() < 0.3:
    jf = nnx.jit(lambda m, x: nnx.grad(loss(rem), wrt=wrt)(m, x))
    got = jf(m, x)
  else:
    got = nnx.grad(loss(rem), wrt=wrt)(m, x)
  want = nnx.grad(loss(body), wrt=wrt)(twin, x)
  case.eq(sorted(got), sorted(want), "paths")
  case.close([got[p].value for p in sorted(got)], [want[p].value for p in sorted(want)],
             "gradients", rtol=1e-3)
  case.close([l for l in jax.tree_util.tree_leaves(m.get_state())],
             [l for l in jax.tree_util.tree_leaves(twin.get_state())], "state")
  case.eq(sorted(m.get_state()), sorted(twin.get_state()), "state paths")
  case.event("grad")
  case.sig(gen.recipe_sig(recipe), [s[:3] for s in script], sorted(kw), str(wrt))


class Noisy(nnx.Module):

  def __init__(self, n, *, ctx=None):
    shape = (n, n)
    self.w = nnx.Param(jnp.ones(shape) if ctx is None else
                       jax.random.normal(ctx.make_rng("params"), shape))
    self.count = nnx.BatchStat(jnp.zeros(()))
    self.cfg = n

  def __call__(self, x, *, ctx=None):
    self.count = self.count + 1
    y = jnp.sin(x @ self.w)
    if ctx is not None:
      if ctx.has_rng("dropout"):
        y = y * jax.random.bernoulli(ctx.make_rng("dropout"), 0.5, y.shape)
      else:
        self.count = self.count + 100
      if ctx.get_flag("train"):
        self.count = self.count + 10
      if ctx.has_rng("noise"):
        y = y + jax.random.normal(ctx.make_rng("noise"), y.shape)
    return y

  def other(self, x, k, *, ctx=None):
    return self(x, ctx=ctx) * k

  fast = nnx.remat(__call__)


def klass(case):
  rng = case.rng
  n = rng.randint(1, 3)
  kw = rand_options(rng)
  how = rng.choice(["call", "dot", "other", "method", "function"])
  seed = rng.randint(0, 99)
  m = nnx.Remat(Noisy, **kw)(n, ctx=nnx.context(seed))
  twin = Noisy(n, ctx=nnx.context(seed))
  inner = m.remat_module
  case.eq(gen.describe(inner), gen.describe(twin), "construction through Remat")
  with_ctx = rng.random() < 0.6
  noise, train = rng.random() < 0.5, rng.choice([None, True, False])
  streams = rng.random() < 0.8

  def mk():
    if not with_ctx:
      return None
    return nnx.context(**({"dropout": seed} if streams else {}),
                       **({"noise": 1} if noise and streams else {}),
                       flags={"train": train} if train is not None else None)

  ctx, ref = mk(), mk()
  fork = lambda c: c.partition().merge() if c is not None else None
  case.note(how, kw, "ctx", with_ctx, noise, train)
  log = []
  for step in range(rng.randint(1, 3)):
    x = jnp.asarray(case.np.normal(size=(2, n)).astype(np.float32))
    k = jnp.float32(2)
    if how == "call":
      got = m(x, ctx=ctx)
    elif how == "dot":
      got = m.call(x, ctx=ctx)
    elif how == "other":
      got = m.call.other(x, k, ctx=ctx)
    elif how == "method":
      got = inner.fast(x, ctx=ctx)
    else:
      got = nnx.remat(lambda m, x, *, ctx=None: m(x, ctx=ctx), **kw)(inner, x, ctx=ctx)
    want = twin.other(x, k, ctx=fork(ref)) if how == "other" else twin(x, ctx=fork(ref))
    case.close(got, want, "output", rtol=1e-5)
    case.eq(gen.describe(inner), gen.describe(twin), "module after the call")
    case.check(m.remat_module is inner, "the lifted module object")
    if with_ctx:
      case.event("ctx")
      if streams and rng.random() < 0.5:
        case.eq(gen.fp(ctx.make_rng("dropout")), gen.fp(ref.make_rng("dropout")),
                "stream position of the caller")
        log.append("draw")
    case.event("class")
  # gradients with the same keys in the forward and the recomputed pass
  if how in ("call", "other", "method"):
    x = jnp.asarray(case.np.normal(size=(2, n)).astype(np.float32))
    g1 = nnx.grad(lambda q: jnp.sum(nnx.remat(Noisy.__call__, **kw)(q, x, ctx=_new(mk)) ** 2))(
        inner)
    g2 = nnx.grad(lambda q: jnp.sum(Noisy.__call__(q, x, ctx=fork(_new(mk))) ** 2))(twin)
    case.close(g1["w"].value, g2["w"].value, "gradient", rtol=1e-4)
    case.eq(gen.describe(inner), gen.describe(twin), "module after the gradient")
    case.event("grad")
  case.sig(how, n, with_ctx, noise, train, sorted(kw), log)


def _new(mk):
  return mk()


def statics(case):
  """static_argnums, and constructors under remat."""
  rng = case.rng

  class C(nnx.Module):

    def __init__(self, n, *, ctx=None):
      self.w = nnx.Param(jnp.full((n,), 2.0))

    __init__ = nnx.remat(__init__)

    def __call__(self, x, mode, flag):
      case.check(isinstance(mode, str) and isinstance(flag, bool), "static arguments")
      return x * self.w if flag else x + self.w + len(mode)

  n = rng.randint(1, 4)
  which = rng.choice(["tuple", "call"])
  m = C(n)
  case.eq(m.w.shape, (n,), "constructor under remat")
  x = jnp.ones((n,))
  mode, flag = rng.choice(["a", "bb"]), rng.random() < 0.5
  if which == "tuple":
    nums = rng.choice([(1, 2), (-2, -1), (1, -1), (2, 1)])
    got = nnx.remat(C.__call__, static_argnums=nums)(m, x, mode, flag)
  else:
    nums = rng.choice([(1, 2), (-2, -1), (1, -1), (2, 1)])
    got = nnx.Remat(C, static_argnums=nums)(n).call(x, mode, flag)
  one = nnx.remat(lambda m, k, x: m.w * x * (3 if k == "yes" else 1), static_argnums=0)
  case.close(one(m, "yes", x), 6 * x, "a single static argument")
  case.close(got, 2 * x if flag else x + 2.0 + len(mode), "output with static arguments")
  case.event("remat")
  case.sig(n, which, mode, flag)


def inside_scan(case):
  """remat of the body of a scan."""
  rng = case.rng
  L, n = rng.randint(1, 4), rng.randint(1, 3)
  m, twin = Noisy(n), Noisy(n)
  for q in (m, twin):
    q.w = jnp.arange(float(L * n * n)).reshape(L, n, n) / 10

  def step(m, c, x, *, ctx=None):
    y = m(c, ctx=ctx)
    return y, jnp.sum(y) * x

  kw = dict(variable_axes={nnx.Param: 0}, reverse=rng.random() < 0.3)
  plain = nnx.scan(step, **kw)
  rem = nnx.scan(nnx.remat(step, **rand_options(rng)), **kw)
  c, xs = jnp.ones((2, n)), jnp.arange(float(L))
  with_ctx = rng.random() < 0.5
  mk = lambda: dict(ctx=nnx.context(dropout=3)) if with_ctx else {}
  if not with_ctx:
    case.close(rem(m, c, xs), plain(twin, c, xs), "scan of a remat body", rtol=1e-4)
    case.eq(float(m.count), float(twin.count), "carried state")
    g1 = nnx.grad(lambda m: jnp.sum(rem(m, c, xs)[0]))(m)
    g2 = nnx.grad(lambda m: jnp.sum(plain(m, c, xs)[0]))(twin)
    case.close(g1["w"].value, g2["w"].value, "gradient of the scan", rtol=1e-3)
    case.event("grad")
  else:
    out = rem(m, c, xs, **mk())
    again = rem(twin, c, xs, **mk())
    case.close(out, again, "the same keys again")
  case.event("remat")
  case.sig(L, n, with_ctx, kw["reverse"])


def primitives(jaxpr, name=None, out=None):
  """How often each primitive occurs, and the prevent_cse flags of checkpoints."""
  out = {} if out is None else out
  for eqn in jaxpr.eqns:
    k = eqn.primitive.name
    if k in ("sin", "cos", "tanh", "dot_general", "exp"):
      out[k] = out.get(k, 0) + 1
    if "prevent_cse" in eqn.params:
      k = ("checkpoint", bool(eqn.params["prevent_cse"]))
      out[k] = out.get(k, 0) + 1
    for v in eqn.params.values():
      for j in v if isinstance(v, (tuple, list)) else (v,):
        if hasattr(j, "eqns"):
          primitives(j, None, out)
        elif hasattr(j, "jaxpr"):
          primitives(j.jaxpr, None, out)
  return out


class Deep(nnx.Module):

  def __init__(self, n, depth, *, ctx=None):
    self.n, self.depth = n, depth
    self.w = nnx.Param(jnp.eye(n) * 0.5)
    self.b = nnx.Param(jnp.ones((n,)))

  @staticmethod
  def formula(depth, w, b, x):
    for i in range(depth):
      x = jnp.sin(x @ w + b) if i % 2 == 0 else jnp.tanh(jnp.exp(x @ w))
    return x

  def __call__(self, x, *, ctx=None):
    return self.formula(self.depth, self.w, self.b, x)

  def other(self, x, *, ctx=None):
    return self.formula(self.depth, self.w, self.b, x)


def recompute(case):
  """What the backward pass recomputes is what the policy and prevent_cse say."""
  rng = case.rng
  n, depth = rng.randint(2, 4), rng.randint(1, 4)
  kw = {}
  pcse = rng.choice([None, True, False])
  if pcse is not None:
    kw["prevent_cse"] = pcse
  pol = rng.choice(POLICIES)
  if pol is not None:
    kw["policy"] = pol
  how = rng.choice(["function", "method", "call", "dot", "other"])
  x = jnp.ones((2, n))
  flags = rng.choice([None, None, {}, {"train": True}])
  ctx = (lambda: {}) if flags is None else lambda: {"ctx": nnx.context(flags=flags)}

  def ours(w, b, x):
    if how in ("call", "dot", "other"):
      outer = nnx.Remat(Deep, **kw)(n, depth)
      m = outer.remat_module
      f = {"call": lambda m, x, **k: m(x, **k), "dot": lambda m, x, **k: m.call(x, **k),
           "other": lambda m, x, **k: m.call.other(x, **k)}[how]
    else:
      outer = m = Deep(n, depth)
      f = nnx.remat(Deep.__call__ if how == "method" else
                    lambda m, x, *, ctx=None: m(x, ctx=ctx), **kw)
    m.w, m.b = w, b
    g = nnx.grad(lambda m: jnp.sum(f(m, x, **ctx())))(outer)
    g = {p.split("/")[-1]: v.value for p, v in g.items()}
    return g["w"], g["b"]

  def ref(w, b, x):
    f = jax.checkpoint(lambda w, b, x: Deep.formula(depth, w, b, x), **kw)
    return jax.grad(lambda w, b: jnp.sum(f(w, b, x)), argnums=(0, 1))(w, b)

  args = jnp.eye(n) * 0.5, jnp.ones((n,)), x
  case.note(how, n, depth, pcse, getattr(pol, "__name__", pol), flags)
  got = primitives(jax.make_jaxpr(ours)(*args).jaxpr)
  want = primitives(jax.make_jaxpr(ref)(*args).jaxpr)
  case.eq(sorted(got.items(), key=str), sorted(want.items(), key=str),
          "operations of the forward and backward pass")
  case.close(ours(*args), ref(*args), "gradients", rtol=1e-5)
  case.event("recompute")
  case.sig(how, n, depth, pcse, getattr(pol, "__name__", str(pol)), str(flags))


FAMILIES = {
    "values": dict(fn=values, quick=300),
    "grads": dict(fn=gradients, quick=90),
    "class": dict(fn=klass, quick=100),
    "statics": dict(fn=statics, quick=30),
    "scan": dict(fn=inside_scan, quick=40),
    "recompute": dict(fn=recompute, quick=60),
}
