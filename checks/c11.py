"""C11: nnx.grad is the gradient of the functional loss, plus the state updates."""
import jax
import jax.numpy as jnp
import numpy as np
from jax.experimental.maps import xmap

import nnx
from nnxmon import gen, scripts

RULE = (
    "Random module graphs (shared modules, cycles, several variable types, pytree "
    "variables) with random polynomial losses that also update variables are "
    "differentiated with nnx.grad (wrt filters of every kind, aux, stateful on/off, "
    "extra arguments, under jit, several calls in a row) and compared with jax.grad of "
    "an independent functional model keyed by the variables; non-trivial = distinct "
    "(graph, loss, wrt)."
)
NEED = {"grad": 500, "aux": 100, "stateless": 80, "alias": 60, "empty_wrt": 20,
        "under_jit": 50}

TYPES = [nnx.Param, nnx.BatchStat, nnx.Cache, gen.Extra, gen.SubParam]


def rand_loss(rng, entries, aliases):
  """Steps over variables; each is named by an access path (possibly an alias)."""
  steps = []
  for _ in range(rng.randint(2, 7)):
    op = rng.choice(["term", "term", "term", "cross", "update", "mix"])
    a, b = rng.choice(aliases), rng.choice(aliases)
    steps.append((op, a, b, float(rng.randint(1, 4)) / 2))
  steps.append(("term", rng.choice(aliases), None, 1.0))
  return steps


def run_loss(steps, get, put, x):
  """The loss, over abstract access to the variables."""
  loss = jnp.zeros(())
  for op, a, b, c in steps:
    if op == "term":
      loss = loss + c * jnp.sum(get(a) ** 2)
    elif op == "cross":
      loss = loss + c * jnp.sum(get(a)) * jnp.sum(get(b))
    elif op == "update":
      put(a, get(a) * 0.5 + c)
    elif op == "mix":
      put(a, get(a) + c * jnp.sum(get(b)) * x)
  return loss * x


def graph(case):
  rng = case.rng
  n = rng.randint(1, 4)
  recipe = [{"cls": rng.choice([gen.M0, gen.M2, nnx.Dict]), "attrs": {}} for _ in range(n)]
  for node in recipe:
    for name in rng.sample(["w", "b", "k", "x1", "x10"], rng.randint(1, 3)):
      shape = rng.choice([(), (2,), (2, 2)])
      val = jnp.asarray(case.np.integers(-4, 5, shape).astype(np.float32) / 2)
      if rng.random() < 0.85:
        node["attrs"][name] = ("var", rng.choice(TYPES), val, gen.rand_metadata(rng))
      else:
        node["attrs"][name] = ("arr", val)
    if rng.random() < 0.3:
      node["attrs"]["cfg"] = ("static", gen.fresh())
  for j in range(1, n):
    recipe[rng.randrange(j)]["attrs"][f"s{j}"] = ("sub", j)
  for q in range(rng.randint(0, 2)):
    recipe[rng.randrange(n)]["attrs"][rng.choice(["a", "z"]) + str(q)] = (
        "sub", rng.randrange(n))
  return recipe


def access_paths(recipe):
  out = []
  for path, i in scripts.module_paths(recipe):
    for name, s in sorted(recipe[i]["attrs"].items()):
      if s[0] in ("var", "arr"):
        out.append((path, i, name))
  return out


def grads(case):
  rng = case.rng
  recipe = graph(case)
  m = gen.build(recipe, rng)[0]
  entries, first = gen.expected_layout(recipe)
  aliases = access_paths(recipe)
  where = {(i, name): path for path, i, name, _ in entries}
  raw = {path: vars(scripts.at(m, p))[name]
         for p, i, name in aliases for path in [where[(i, name)]]}
  steps = rand_loss(rng, entries, aliases)
  if any("/".join((*p, name)) != where[(i, name)] for s in steps
         for a in s[1:3] if a for p, i, name in [a]):
    case.event("alias")
  has_aux = rng.random() < 0.4
  stateful = rng.random() < 0.75
  kind = rng.choice(["default", "type", "type", "filter", "all"])
  if kind == "default":
    wrt, pred = None, lambda p, v: isinstance(v, nnx.Param)
  elif kind == "type":
    t = rng.choice(TYPES)
    wrt, pred = t, lambda p, v: isinstance(v, t)
  elif kind == "all":
    wrt, pred = ..., lambda p, v: True
  else:
    wrt, pred = gen.rand_filter(rng)
  args = {} if kind == "default" else {"wrt": wrt}
  if not stateful:
    args["stateful"] = False
  if has_aux:
    args["has_aux"] = True
  case.note(gen.recipe_str(recipe))
  case.note(steps)
  case.note("wrt", kind, wrt, "aux", has_aux, "stateful", stateful)
  case.sample((gen.recipe_str(recipe), steps, str(wrt)))

  def loss_fn(m, x, extra=None):
    get = lambda a: getattr(scripts.at(m, a[0]), a[2])
    put = lambda a, v: setattr(scripts.at(m, a[0]), a[2], v)
    loss = run_loss(steps, get, put, x)
    if extra is not None:
      loss = loss * extra["k"]
    return (loss, {"aux": loss * 2, "x": x}) if has_aux else loss

  def functional(diff, rest, x, extra=None):
    env = {**diff, **rest}
    key = lambda a: where[(a[1], a[2])]
    loss = run_loss(steps, lambda a: env[key(a)],
                    lambda a, v: env.__setitem__(key(a), v), x)
    if extra is not None:
      loss = loss * extra["k"]
    return loss, env

  arr = lambda v: v.value if isinstance(v, nnx.Container) else v
  env = {p: arr(v) for p, v in raw.items()}
  wanted = {p for p in env if pred(p, raw[p])}
  if not wanted:
    case.event("empty_wrt")
  gf = nnx.grad(scripts.disguise(rng, loss_fn), **args)
  under_jit = rng.random() < 0.15
  for call in range(rng.randint(1, 2)):
    x = jnp.float32(rng.randint(1, 3))
    extra = ({"k": jnp.float32(2)},) if rng.random() < 0.3 else ()
    before = gen.describe(m)
    if under_jit:
      out = nnx.jit(lambda m, x, *e: gf(m, x, *e))(m, x, *extra)
      case.event("under_jit")
    else:
      out = gf(m, x, *extra)
    diff = {p: v for p, v in env.items() if p in wanted}
    rest = {p: v for p, v in env.items() if p not in wanted}
    (loss, new_env) = functional(diff, rest, x, *extra)
    want = jax.grad(lambda d: functional(d, rest, x, *extra)[0])(diff)
    if has_aux:
      case.check(isinstance(out, tuple) and len(out) == 2, "has_aux returns (grads, aux)")
      out, aux = out
      case.close(aux["aux"], loss * 2, "aux")
      case.close(aux["x"], x, "aux passthrough")
      case.event("aux")
    case.check(isinstance(out, nnx.State), "gradients are a State", got=type(out))
    case.eq(set(out.keys()), wanted, "paths with a gradient")
    for p in wanted:
      rawg = out[p]
      if isinstance(raw[p], nnx.Container):
        case.check(type(rawg) is type(raw[p]), "the gradient keeps the variable type")
        md = lambda c: {k: v for k, v in vars(c).items() if k != "value"}
        case.eq(md(rawg), md(raw[p]), "the gradient keeps the metadata")
      case.close(arr(rawg), want[p], f"gradient of {p}", rtol=1e-4, atol=1e-4)
    if stateful:
      env = new_env
      case.event("grad")
    else:
      case.eq(gen.describe(m), before, "stateful=False changed the module")
      case.event("stateless")
      case.event("grad")
    for p, i, name in aliases:
      case.close(getattr(scripts.at(m, p), name), env[where[(i, name)]],
                 f"value of {p} {name} after the call")
    for q in gen.all_modules(m):
      for name, v in gen.user_vars(q).items():
        for leaf in jax.tree_util.tree_leaves(v):
          case.check(not isinstance(leaf, jax.core.Tracer), f"tracer left in {name}")
    case.eq([(t, [a[:2] for a in at]) for t, at in gen.describe(m, False)],
            [(t, [a[:2] for a in at]) for t, at in gen.describe(gen.build(recipe)[0], False)],
            "structure of the module")
    m.usable = 1
    del m.usable
  case.sig(gen.recipe_sig(recipe), steps, str(wrt), has_aux, stateful)


class Inner(nnx.Module):

  def __init__(self, v):
    self.w = nnx.Param(jnp.asarray(v))
    self.count = nnx.BatchStat(jnp.zeros((), jnp.int32))

  def __call__(self, x):
    self.count = self.count + 1
    return jnp.tanh(self.w * x)


def specials(case):
  """Integer and new variables, argument errors, nested gradients, scalar checks."""
  rng = case.rng
  v = float(rng.randint(1, 5)) / 4
  x = jnp.float32(rng.randint(1, 4)) / 4
  kind = rng.choice(["int", "new", "errors", "second", "int_wrt", "holo", "pytree", "axes",
                     "others"])
  m = Inner(v)
  m.sub = Inner(v / 2)
  case.note(kind, v, x)
  if kind == "int":
    g = nnx.grad(lambda m, x: m(x) * m.sub(x))(m, x)
    case.eq(sorted(g), ["sub/w", "w"], "wrt default")
    want = jax.grad(lambda p: jnp.tanh(p[0] * x) * jnp.tanh(p[1] * x))((v, v / 2))
    case.close((g["w"].value, g["sub/w"].value), want, "gradient")
    case.check(int(m.count) == 1 and int(m.sub.count) == 1 and
               m.count.dtype == jnp.int32, "integer state is updated once")
  elif kind == "new":
    def loss(m, x):
      m.seen = nnx.Cache(x * 2, tag="n")
      m.sub.sow(nnx.Intermediate, "hist", x)
      return m(x)
    for k in range(1, 3):
      nnx.grad(loss)(m, x)
      case.check(float(m.seen) == float(x) * 2 and vars(m)["seen"].tag == "n", "new variable")
      case.eq(len(m.sub.hist), k, "sown values")
  elif kind == "errors":
    for bad in (1, None, {"w": 1.0}, m.partition(), Inner):
      case.raises(TypeError, lambda: nnx.grad(lambda m: 1.0)(bad), "not a Module")
    case.raises(TypeError, lambda: nnx.grad(lambda m: m.w * jnp.ones((2,)))(m),
                "non-scalar loss")
    case.raises(TypeError, lambda: nnx.grad(lambda m: m.w, wrt=3.5), "invalid filter")
    before = gen.describe(m)
    for bad in (lambda m: (m.w, 1, 2), lambda m: m.w, lambda m: (m.w,)):
      case.raises(Exception, lambda: nnx.grad(bad, has_aux=True)(m),
                  "has_aux needs a (loss, aux) pair")
    case.raises(TypeError, lambda: nnx.grad(lambda m: (m.w, 1))(m), "a pair without has_aux")
    case.eq(gen.describe(m), before, "a refused loss changed the module")
    m.w = m.w + 1  # still usable
  elif kind == "int_wrt":
    case.raises(TypeError, lambda: nnx.grad(lambda m: m.w, wrt=nnx.BatchStat)(m),
                "integer gradient without allow_int")
    g = nnx.grad(lambda m: m.w * 2.0, wrt=..., allow_int=True)(m)
    case.close(g["w"].value, 2.0, "allow_int")
    case.check(g["count"].value.dtype == jax.dtypes.float0, "float0 gradient of an integer")
  elif kind == "second":
    # the gradient of a gradient
    def inner(m, x):
      g = nnx.grad(lambda m, x: jnp.tanh(m.w * x))(m, x)
      return jnp.sum(g["w"].value) ** 2
    g = nnx.grad(inner)(m, x)
    f = lambda w: jax.grad(lambda w: jnp.tanh(w * x))(w) ** 2
    case.close(g["w"].value, jax.grad(f)(v), "second order", rtol=1e-3)
    case.close(g["sub/w"].value, 0.0, "unused parameter")
  elif kind == "axes":
    axes = rng.choice([(), ("b",)])
    xs = jnp.asarray(case.np.normal(size=(3,)), jnp.float32)

    def ours(w, x):
      m = nnx.Dict(w=nnx.Param(w))
      return nnx.grad(lambda m, x: jax.lax.pmean(m.w * x, "b"), reduce_axes=axes)(m, x)["w"].value

    plain = jax.grad(lambda w, x: jax.lax.pmean(w * x, "b"), reduce_axes=axes)
    got, want = (xmap(f, in_axes=({}, {0: "b"}), out_axes={} if axes else {0: "b"})(
        jnp.float32(v), xs) for f in (ours, plain))
    case.close(got, want, "gradient reduced over a named axis", rtol=1e-5)
  elif kind == "others":
    # the other arguments are not differentiated: the function gets the very objects
    others = [Inner(v / 3), "text", len, None, object(), [1, "x"], {"a": Inner(v)},
              nnx.context(0), (m,), m]
    rng.shuffle(others)
    pos, got = others[:rng.randint(1, len(others))], []

    def loss(m, x, *a):
      got.append(a)
      return m(x)

    g = nnx.grad(loss)(m, x, *pos)
    case.eq(sorted(g), ["sub/w", "w"], "paths with a gradient")
    a, = got
    case.check(len(a) == len(pos) and all(p is q for p, q in zip(a, pos)),
               "positional arguments", got=a)
    case.close(g["w"].value, jax.grad(lambda p: jnp.tanh(p * x))(v), "gradient", rtol=1e-4)
    case.event("others")
  elif kind == "holo":
    m.w = jnp.asarray(v + 1j)
    m.sub.w = jnp.asarray(1j)
    g = nnx.grad(lambda m: m.w ** 2 * m.sub.w, holomorphic=True)(m)
    case.close(g["w"].value, 2 * (v + 1j) * 1j, "holomorphic")
  else:
    m.tree = nnx.Param({"a": jnp.asarray(v), "b": (jnp.ones((2,)) * 3,)})
    g = nnx.grad(lambda m: m.tree["a"] * jnp.sum(m.tree["b"][0] ** 2))(m)
    case.close(g["tree"].value, {"a": 18.0, "b": (np.full((2,), 6 * v, np.float32),)},
               "gradient of a pytree variable")
  case.event("grad")
  case.sig(kind, v, float(x))


FAMILIES = {
    "grads": dict(fn=grads, quick=420),
    "specials": dict(fn=specials, quick=90),
}
