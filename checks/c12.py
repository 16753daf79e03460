"""C12: nnx.scan / nnx.Scan equal the Python loop over the steps."""
import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnxmon import gen, scripts

RULE = (
    "Random module graphs with stacked (any axis), broadcast and carry variables are "
    "scanned (decorator, method, Scan class, constructor, under jit and grad) with "
    "random bodies that read, update and create variables, random in/out axes, carry "
    "pytrees, length, reverse and unroll, and compared with an explicit Python loop "
    "over plain arrays; non-trivial = distinct (graph, body, options)."
)
NEED = {"scan": 150, "reverse": 40, "new_carry": 20, "new_broadcast": 8, "new_axes": 15,
        "class": 40, "grad": 25, "rejected": 50, "init": 50, "reused_call": 60}

AX = [nnx.Param, nnx.BatchStat]
BC = [gen.Extra]
CA = [nnx.Cache, nnx.Intermediate]


def tot(v):
  """A sum that depends on the position of every element and on the leaf order."""
  out = jnp.zeros(())
  for j, l in enumerate(jax.tree_util.tree_leaves(v)):
    l = jnp.asarray(l)
    w = np.cos(np.arange(l.size) + j).reshape(l.shape).astype(np.float32)
    out = out + jnp.sum(l * w)
  return out


def role(t):
  if t in AX:
    return "axes"
  return "broadcast" if t in BC else "carry"


class Scenario:
  """Graph, body script and options, all drawn at once."""

  def __init__(self, case, differentiable=False):
    rng = case.rng
    self.L = rng.choice([1, 2, 3, 3, 4])
    self.axes = {t: rng.choice([0, 0, 1, -1, 2, -2]) for t in AX}
    n = rng.randint(1, 3)
    self.recipe = [{"cls": rng.choice([scripts.Scripted, scripts.ScriptedSub]), "attrs": {}}
                   for _ in range(n)]
    self.env = {}
    self.types = {}
    for i, node in enumerate(self.recipe):
      for name in rng.sample(["w", "b", "k", "x1", "x10"], rng.randint(1, 3)):
        t = rng.choice(AX + AX + BC + CA)
        tree = rng.random() < 0.15
        shape = rng.choice([(), (2,), (2, 3), (3, 3), (2, 3, 2)])
        if role(t) == "axes":
          ax = self.axes[t]
          low = ax if ax >= 0 else -ax - 1
          if len(shape) < low:
            shape = rng.choice([(2,), (2, 3)] if low == 1 else [(2, 3), (3, 3)])
          full = list(shape)
          full.insert(ax if ax >= 0 else len(shape) + 1 + ax, self.L)
          shape = tuple(full)
        mk = lambda: jnp.asarray(case.np.integers(-4, 5, shape).astype(np.float32) / 4)
        val = {"p": mk(), "q": (mk(),)} if tree else mk()
        md = {"tag": rng.choice(["x", 1])} if rng.random() < 0.3 else {}
        node["attrs"][name] = ("var", t, val, md)
        self.env[(i, name)] = val
        self.types[(i, name)] = t
      if rng.random() < 0.3:
        node["attrs"]["cfg"] = ("static", gen.fresh())
    for j in range(1, n):
      self.recipe[rng.randrange(j)]["attrs"][f"s{j}"] = ("sub", j)
    if rng.random() < 0.4:
      self.recipe[rng.randrange(n)]["attrs"]["z"] = ("sub", rng.randrange(n))
    aliases = []
    for path, i in scripts.module_paths(self.recipe):
      for name, s in sorted(self.recipe[i]["attrs"].items()):
        if s[0] == "var":
          aliases.append((path, i, name))
    self.body = []
    mods = scripts.module_paths(self.recipe)
    self.created = set()
    for _ in range(rng.randint(2, 6)):
      a = rng.choice(aliases)
      op = rng.choice(["read", "read", "upd", "upd", "updx", "new", "out"])
      if op in ("upd", "updx") and role(self.types[a[1:]]) == "broadcast":
        op = "read"
      if op == "new":
        path, i = rng.choice(mods)
        t = rng.choice(AX + BC + CA)
        name = f"n{rng.randint(0, 3)}"
        if (i, name) in self.types and self.types[(i, name)] is not t:
          continue
        self.types[(i, name)] = t
        self.created.add((i, name))
        self.body.append((op, (path, i, name), t, rng.randint(1, 4) / 2))
      else:
        self.body.append((op, a, None, rng.randint(1, 4) / 2))
    self.body.append(("out", rng.choice(aliases), None, 1.0))
    # arguments
    self.xs, self.in_axes = self.rand_xs(case)
    self.out_tree = rng.choice(["leaf", "tree"])
    self.out_axes = rng.choice([0, 0, 0, 1, 2, -1, -2]) if self.out_tree == "leaf" else rng.choice(
        [0, {"a": 0, "b": 1}, {"a": 2, "b": 0}, {"a": -1, "b": -2}])
    self.carry = rng.choice([
        jnp.zeros(()), {"c": jnp.ones(()), "d": (jnp.zeros((2,)),)}])
    self.reverse = rng.random() < 0.35
    self.unroll = rng.choice([1, 1, 1, 2, 3])
    self.bargs = rng.choice([(), (), (jnp.float32(2),)])
    self.bkw = rng.choice([{}, {}, {"scale": jnp.float32(0.5)}])
    self.bfilter = rng.choice([BC[0], (BC[0],), lambda p, v: isinstance(v, BC[0])])
    has_axes_var = any(role(t) == "axes" and k in self.env for k, t in self.types.items())
    need = not jax.tree_util.tree_leaves(self.xs) and not has_axes_var
    self.length = self.L if need or rng.random() < 0.4 else None

  def rand_xs(self, case):
    rng = case.rng
    def arr(ax):
      low = ax if ax >= 0 else -ax - 1
      shape = [2, 3, 2][: max(low, rng.randint(1, 3))]
      shape.insert(ax if ax >= 0 else len(shape) + 1 + ax, self.L)
      return jnp.asarray(case.np.integers(-4, 5, shape).astype(np.float32) / 4)
    r = rng.random()
    if r < 0.4:
      return arr(0), 0
    if r < 0.55:
      ax = rng.choice([1, -1, 2, -2])
      return arr(ax), ax
    if r < 0.8:
      a, b = rng.choice([0, 1, 2]), rng.choice([0, -1])
      return {"p": arr(a), "q": (arr(b), arr(b))}, {"p": a, "q": b}
    return rng.choice([(), {}, None]), 0

  def options(self):
    kw = dict(variable_axes=dict(self.axes), variable_broadcast=self.bfilter)
    if self.in_axes != 0:
      kw["in_axes"] = self.in_axes
    if self.out_axes != 0:
      kw["out_axes"] = self.out_axes
    if self.length is not None:
      kw["length"] = self.length
    if self.reverse:
      kw["reverse"] = True
    if self.unroll != 1:
      kw["unroll"] = self.unroll
    return kw

  def step(self, get, put, has, new, carry, x, *bargs, scale=1.0):
    """One step over abstract access to the variables."""
    tmap = jax.tree_util.tree_map
    xt = tot(x) * scale
    for b in bargs:
      xt = xt + b
    acc, outs = jnp.zeros(()), jnp.asarray(np.arange(6, dtype=np.float32).reshape(2, 3))
    for op, a, t, c in self.body:
      if op == "read":
        acc = acc + c * jnp.tanh(tot(get(a)))
      elif op == "upd":
        put(a, tmap(lambda v: v * 0.5 + c, get(a)))
      elif op == "updx":
        put(a, tmap(lambda v: v + 0.25 * xt + 0.1 * jnp.tanh(tot(carry)), get(a)))
      elif op == "new":
        if not has(a):
          new(a, t, c * np.arange(6, dtype=np.float32).reshape(2, 3) + xt)
        elif role(t) != "broadcast":
          put(a, get(a) * 0.5 + xt)
        else:
          acc = acc + c * jnp.tanh(tot(get(a)))
      elif op == "out":
        outs = outs + tot(get(a)) * c
    carry = tmap(lambda v: 0.5 * v + acc + 0.1 * xt, carry)
    y = outs + tot(carry)
    return carry, (y if self.out_tree == "leaf" else {"a": y * 2, "b": (y + x_first(x),)})

  def module_fn(self):
    def f(m, carry, x, *bargs, **bkw):
      bkw.pop("ctx", None)
      get = lambda a: getattr(scripts.at(m, a[0]), a[2])
      put = lambda a, v: setattr(scripts.at(m, a[0]), a[2], v)
      has = lambda a: a[2] in vars(scripts.at(m, a[0]))
      new = lambda a, t, v: setattr(scripts.at(m, a[0]), a[2], t(v))
      return self.step(get, put, has, new, carry, x, *bargs, **bkw)
    return f

  def reference(self, env, carry, xs):
    """The Python loop. Returns (carry, outs, new env)."""
    take = lambda v, t, ax: jax.tree_util.tree_map(lambda l: jnp.take(l, t, axis=ax), v)
    stack = lambda vs, ax: jax.tree_util.tree_map(lambda *l: jnp.stack(l, axis=ax), *vs)
    axes = {k: v for k, v in env.items() if role(self.types[k]) == "axes"}
    other = {k: v for k, v in env.items() if role(self.types[k]) != "axes"}
    got, ys = {}, {}
    order = range(self.L - 1, -1, -1) if self.reverse else range(self.L)
    for t in order:
      now = {k: take(v, t, self.axes[self.types[k]]) for k, v in axes.items()}
      now.update(other)
      x = upto(lambda ax, v: take(v, t, ax), self.in_axes, xs)
      key = lambda a: (a[1], a[2])
      carry, y = self.step(
          lambda a: now[key(a)], lambda a, v: now.__setitem__(key(a), v),
          lambda a: key(a) in now, lambda a, ty, v: now.__setitem__(key(a), v),
          carry, x, *self.bargs, **self.bkw)
      ys[t] = y
      for k, v in now.items():
        if role(self.types[k]) == "axes":
          got.setdefault(k, {})[t] = v
        else:
          other[k] = v
    env = dict(other)
    for k, per in got.items():
      env[k] = stack([per[t] for t in range(self.L)], self.axes[self.types[k]])
    outs = upto(lambda ax, *l: stack(l, ax), self.out_axes, *[ys[t] for t in range(self.L)])
    return carry, outs, env

  def check_module(self, case, m, env):
    for path, i in scripts.module_paths(self.recipe):
      mod = scripts.at(m, path)
      for (j, name), want in env.items():
        if j != i:
          continue
        case.check(name in vars(mod), f"variable {path} {name} is missing")
        c = vars(mod)[name]
        case.check(type(c) is self.types[(i, name)], "variable type", got=type(c))
        case.close(c.value, want, f"variable {path} {name}", rtol=1e-3, atol=1e-4)
        spec = self.recipe[i]["attrs"].get(name)
        if spec is not None:
          md = {k: v for k, v in vars(c).items() if k not in ("value", "sharding")}
          case.eq(md, spec[3], "metadata")
          case.check(c.sharding is None, "sharding")
      have = {k for k, v in gen.user_vars(mod).items() if isinstance(v, nnx.Variable)}
      case.eq(have, {nm for (j, nm) in env if j == i}, f"variables of {path}")

  def events(self, case):
    case.event("scan")
    if self.reverse:
      case.event("reverse")
    for k in self.created:
      if k not in self.env:
        case.event("new_" + role(self.types[k]))

  def sig(self):
    return (gen.recipe_sig(self.recipe), [(b[0], b[1]) for b in self.body],
            sorted((k.__name__, v) for k, v in self.axes.items()), str(self.in_axes),
            str(self.out_axes), self.L, self.length, self.reverse, self.unroll)


def x_first(x):
  ls = jax.tree_util.tree_leaves(x)
  return tot(ls[0]) if ls else jnp.zeros(())


def upto(f, prefix, *trees):
  """Map f(axis, *subtrees) over a prefix tree of axes."""
  if isinstance(prefix, dict):
    return {k: upto(f, p, *[t[k] for t in trees]) for k, p in prefix.items()}
  return f(prefix, *trees)


def fresh_module(sc):
  return gen.build(sc.recipe)[0]


def compare(case, sc, run, target, label):
  """Run twice in a row: the second starts from the state the first left."""
  env, carry = sc.env, sc.carry
  n = 1 if sc.created - set(sc.env) else 2
  for k in range(n):
    got_carry, got_out = run(carry, sc.xs)
    want_carry, want_out, env = sc.reference(env, carry, sc.xs)
    case.close(got_carry, want_carry, f"{label}: carry", rtol=1e-3, atol=1e-4)
    case.close(got_out, want_out, f"{label}: stacked outputs", rtol=1e-3, atol=1e-4)
    sc.check_module(case, target, env)
    carry = want_carry
  target.usable = 1
  del target.usable
  sc.events(case)


def decorator(case):
  sc = Scenario(case)
  m = fresh_module(sc)
  case.note(gen.recipe_str(sc.recipe))
  case.note(sc.body)
  case.note(sc.options(), "L", sc.L)
  case.sample((gen.recipe_str(sc.recipe), sc.body, sc.options()))
  f = nnx.scan(scripts.disguise(case.rng, sc.module_fn()), **sc.options())
  ids = [id(q) for q in gen.all_modules(m)]
  jit = case.rng.random() < 0.25
  if jit:
    run = lambda c, xs: nnx.jit(lambda m, c, xs: f(m, c, xs, *sc.bargs, **sc.bkw))(m, c, xs)
  else:
    run = lambda c, xs: f(m, c, xs, *sc.bargs, **sc.bkw)
  compare(case, sc, run, m, "scan")
  case.eq([id(q) for q in gen.all_modules(m)], ids, "the caller's modules were replaced")
  case.sig(sc.sig(), jit)


def klass(case):
  """The Scan class: __call__, .call and .call.<method>."""
  rng = case.rng
  sc = Scenario(case)
  fn = sc.module_fn()

  class Body(nnx.Module):

    def __init__(self, keep):
      # per step values; the stacked ones are set below
      mods = {0: self}
      for i, node in enumerate(sc.recipe):
        mods.setdefault(i, node["cls"]())
      for i, node in enumerate(sc.recipe):
        for name, s in node["attrs"].items():
          if s[0] == "sub":
            setattr(mods[i], name, mods[s[1]])
          elif s[0] == "static":
            setattr(mods[i], name, s[1])
          else:
            v = s[2]
            if role(s[1]) == "axes":
              v = jax.tree_util.tree_map(
                  lambda l: jnp.take(l, 0, axis=sc.axes[s[1]]), v)
            setattr(mods[i], name, s[1](v, **s[3]))
      self.kept = keep

    def __call__(self, c, x, *b, **k):
      return fn(self, c, x, *b, **k)

    def other(self, c, x, *b, **k):
      return fn(self, c, x, *b, **k)

  kw = sc.options()
  kw["length"] = sc.L
  scan = nnx.Scan(Body, **kw)("kept")
  m = scan.scan_module
  case.check(m.kept == "kept", "constructor arguments")
  case.eq(gen.describe(m, False)[0][0], Body, "the lifted module")
  # the constructor's variables, stacked `length` times along their axis
  init = {}
  for (i, name), v in sc.env.items():
    ax = sc.axes.get(sc.types[(i, name)])
    if role(sc.types[(i, name)]) == "axes":
      v = jax.tree_util.tree_map(
          lambda l: jnp.stack([jnp.take(l, 0, axis=ax)] * sc.L, axis=ax), v)
    init[(i, name)] = v
  sc.check_module(case, m, init)
  case.event("init")
  for path, i in scripts.module_paths(sc.recipe):
    for name, s in sc.recipe[i]["attrs"].items():
      if s[0] == "var":
        setattr(scripts.at(m, path), name, s[2])
  how = rng.choice(["call", "dot", "other"])
  case.note(gen.recipe_str(sc.recipe))
  case.note(sc.body, how)
  case.note(kw, "L", sc.L)
  target = dict(call=lambda: scan, dot=lambda: scan.call, other=lambda: scan.call.other)
  run = lambda c, xs: target[how]()(c, xs, *sc.bargs, **sc.bkw)
  compare(case, sc, run, m, "Scan." + how)
  case.check(scan.scan_module is m, "the lifted module object")
  case.event("class")
  case.sig(sc.sig(), how)


def gradients(case):
  """Gradients through the scan equal those through the loop."""
  rng = case.rng
  sc = Scenario(case)
  while not any(sc.types[k] is nnx.Param for k in sc.env):
    sc = Scenario(case)
  m = fresh_module(sc)
  case.note(gen.recipe_str(sc.recipe))
  case.note(sc.body)
  case.note(sc.options(), "L", sc.L)
  f = nnx.scan(scripts.disguise(case.rng, sc.module_fn()), **sc.options())
  total = lambda t: sum(jnp.sum(jnp.sin(l)) for l in jax.tree_util.tree_leaves(t))

  def loss(m, carry, xs):
    return total(f(m, carry, xs, *sc.bargs, **sc.bkw))

  g = nnx.grad(loss)(m, sc.carry, sc.xs)
  diff = {k: v for k, v in sc.env.items() if sc.types[k] is nnx.Param}
  rest = {k: v for k, v in sc.env.items() if k not in diff}
  want = jax.grad(lambda d: total(sc.reference({**rest, **d}, sc.carry, sc.xs)[:2]))(diff)
  entries, _ = gen.expected_layout(sc.recipe)
  where = {(i, n): p for p, i, n, _ in entries}
  case.eq(set(g), {where[k] for k in diff}, "paths")
  for k, v in want.items():
    case.close(g[where[k]].value, v, f"gradient of {where[k]}", rtol=2e-3, atol=1e-3)
  sc.check_module(case, m, sc.reference(sc.env, sc.carry, sc.xs)[2])
  case.event("grad")
  case.sig(sc.sig())


class Layer(nnx.Module):

  def __init__(self, n, *, ctx=None):
    self.w = nnx.Param(jnp.arange(n, dtype=jnp.float32))
    self.s = nnx.BatchStat(jnp.zeros((n,)))
    self.c = nnx.Cache(jnp.zeros((), jnp.int32))

  def __call__(self, c, x, *, ctx=None):
    self.c = self.c + 1
    return c + jnp.sum(self.w), x


def rejected(case):
  """Lengths that cannot agree are refused and leave the module as it was."""
  rng = case.rng
  L, n = rng.randint(2, 5), rng.randint(1, 3)
  kind = rng.choice(["x mismatch", "length mismatch", "no length", "ctx", "init length",
                     "init ctx", "split no length"])
  case.note(kind, L, n)
  step = lambda m, c, x: (c + jnp.sum(m.w), x)
  mk = lambda: gen.M0()
  m = mk()
  m.w = nnx.Param(jnp.ones((L, n)))
  m.c = nnx.Cache(jnp.zeros(()))
  before = gen.describe(m)
  ax = {nnx.Param: 0}
  xs = jnp.zeros((L,))
  if kind == "x mismatch":
    bad = rng.choice([jnp.zeros((L + 1,)), (xs, jnp.zeros((L - 1,)))])
    case.raises(ValueError, lambda: nnx.scan(step, variable_axes=ax)(m, 0.0, bad),
                "x length against variables")
  elif kind == "length mismatch":
    case.raises(ValueError, lambda: nnx.scan(step, variable_axes=ax, length=L + 1)(m, 0.0, xs),
                "length option against the data")
    case.raises(ValueError, lambda: nnx.scan(step, length=L - 1)(m, 0.0, xs),
                "length option against x")
  elif kind == "no length":
    case.raises(ValueError, lambda: nnx.scan(step)(m, 0.0, ()), "no length at all")
    m2 = mk()
    m2.w = nnx.Cache(jnp.ones((n,)))
    case.raises(ValueError, lambda: nnx.scan(step, variable_axes=ax)(m2, 0.0, None), "no length")
  elif kind == "ctx":
    bad = rng.choice([1, {"params": jax.random.PRNGKey(0)}, nnx.context(0).partition()])
    f = nnx.scan(lambda m, c, x, *, ctx: (c, x), variable_axes=ax)
    case.raises(TypeError, lambda: f(m, 0.0, xs, ctx=bad), "ctx of another type")
  elif kind == "init length":
    case.raises(ValueError, lambda: nnx.Scan(Layer, variable_axes=ax)(n),
                "variable_axes without length")
  elif kind == "init ctx":
    case.raises(TypeError, lambda: nnx.Scan(Layer, variable_axes=ax, length=L)(n, ctx=3),
                "ctx of another type in the constructor")
  else:
    case.raises(ValueError, lambda: nnx.Scan(Layer, split_rngs=...)(n, ctx=nnx.context(0)),
                "split rngs without a length")
  case.eq(gen.describe(m), before, "a refused scan changed the module")
  c, y = nnx.scan(step, variable_axes=ax)(m, jnp.zeros(()), xs)  # still usable
  case.close(c, float(L * n), "scan after the refusal")
  case.event("rejected")
  case.sig(kind, L, n)


def methods(case):
  """scan on methods and constructors of a class."""
  rng = case.rng
  L, n, ax = rng.randint(1, 5), rng.randint(1, 3), rng.choice([0, 1, -1])
  fixed = rng.random() < 0.5

  class Block(nnx.Module):

    def __init__(self, n, *, fill):
      self.w = nnx.Param(jnp.full((n,), fill), tag="t")
      self.c = nnx.Cache(jnp.zeros(()))
      self.sub = Layer(n)
      self.sub2 = self.sub
      self.cfg = ("block", n)

    def __call__(self, c, x, k=1.0):
      self.c = self.c + 1
      self.sub.s = self.sub2.s + x
      return c * 0.5 + jnp.sum(self.w) * k, x + c

    kw = dict(variable_axes={nnx.Param: ax, nnx.BatchStat: 0})
    __init__ = nnx.scan(__init__, length=L, **kw)
    __call__ = nnx.scan(__call__, **({"length": L} if fixed else {}), **kw)

  fill = float(rng.randint(1, 4))
  m = Block(n, fill=fill)
  case.eq(m.w.shape, (L, n) if ax == 0 else (n, L), "stacked parameter")
  case.close(m.w, np.full(m.w.shape, fill), "stacked value")
  case.check(vars(m)["w"].tag == "t" and m.cfg == ("block", n), "metadata, statics")
  case.check(m.sub is m.sub2 and m.sub.s.shape == (L, n) and m.sub.c.shape == (),
             "shared submodule, stacked and carried variables")
  m.w = m.w * jnp.expand_dims(jnp.arange(1, L + 1.0), 1 if ax == 0 else 0)
  xs = jnp.arange(float(L))
  ref_c = 1.0
  for call in range(2):
    c, ys = m(jnp.asarray(ref_c, jnp.float32), xs, *((2.0,) if call else ()))
    want = []
    k = 2.0 if call else 1.0
    for t in range(L):
      want.append(float(t) + ref_c)
      ref_c = ref_c * 0.5 + n * fill * (t + 1) * k
    case.close(ys, np.asarray(want, np.float32), "outputs")
    case.close(c, ref_c, "carry")
    case.check(float(m.c) == (call + 1) * L, "carried count")
    case.close(m.sub.s, np.broadcast_to((call + 1) * np.arange(float(L))[:, None], (L, n)),
               "stacked statistics through the alias")
    case.check(m.sub is m.sub2, "sharing is kept")
  case.event("scan")
  case.event("init")
  case.sig(L, n, ax, fixed, fill)


def reused(case):
  """One scanned function over a history of modules, lengths, arguments and flags."""
  rng = case.rng
  rev = rng.random() < 0.3

  def body(m, c, x, scale=1.0, *, log=False, ctx=None):
    m.n = m.n + 1
    if "w" in vars(m):
      c = c + jnp.sum(m.w)
    if ctx is not None and ctx.get_flag("twice"):
      c = c * 2
    if log:
      if "last" not in vars(m):
        m.last = nnx.Intermediate(c)
      m.hist = nnx.BatchStat(c) if "hist" not in vars(m) else c
      m.count = nnx.Cache(jnp.int32(1)) if "count" not in vars(m) else m.count + 1
    return c + scale * tot(x), out(c * 3)

  # what a step returns besides the carry
  kind = rng.choice(["scalar", "scalar", "none", "empty", "part", "high"])
  axis = rng.choice([0, 1, 2, 3, -1, -2]) if kind == "high" else 0
  grid = np.arange(12, dtype=np.float32).reshape(2, 3, 2)
  out = dict(scalar=lambda v: v, none=lambda v: None, empty=lambda v: {},
             part=lambda v: {"a": v, "b": None, "c": ()},
             high=lambda v: v * grid)[kind]
  case.note(kind, axis)

  opts = dict(out_axes=axis, variable_axes={nnx.Param: 0, nnx.BatchStat: 0},
              variable_broadcast=nnx.Intermediate, reverse=rev)

  class R(nnx.Module):
    step = nnx.scan(body, **opts)

  free = nnx.scan(body, **opts)
  mods = []
  for _ in range(rng.randint(1, 3)):
    m = R()
    m.n = nnx.Cache(jnp.int32(0))
    ref = {"n": 0}
    L = None
    if rng.random() < 0.4:
      L = rng.randint(1, 4)
      ref["w"] = np.asarray(case.np.integers(-3, 4, (L, 2)), np.float32)
      m.w = nnx.Param(jnp.asarray(ref["w"]))
    mods.append([m, ref, L])
  hist = []
  for call in range(rng.randint(3, 6)):
    item = rng.choice(mods)
    m, ref, L = item
    if rng.random() < 0.25 and "last" in ref:
      what = rng.choice([("last", nnx.Intermediate), ("hist", nnx.BatchStat)])
      if what[0] in ref:
        m.pop_state(what[1])
        del ref[what[0]]
    if "hist" in ref or "w" in ref:
      n = len(ref["hist"] if "hist" in ref else ref["w"])
    else:
      n = rng.randint(1, 5)
    shape = rng.choice([(), (2,)])
    xs = np.asarray(case.np.integers(-3, 4, (n, *shape)), np.float32)
    xs = {"a": xs} if rng.random() < 0.3 else xs
    log = rng.random() < 0.5
    twice = rng.random() < 0.5
    ctx = nnx.context(flags={"twice": twice}) if rng.random() < 0.6 else None
    args = (rng.choice([0.5, 2.0]),) if rng.random() < 0.4 else ()
    via = rng.choice(["method", "function"])
    hist.append((mods.index(item), n, shape, isinstance(xs, dict), log, twice, via))
    case.note(hist[-1])
    fn = m.step if via == "method" else (lambda *a, m=m, **k: free(m, *a, **k))
    c, ys = fn(jnp.float32(1), jax.tree_map(jnp.asarray, xs), *args, log=log, ctx=ctx)
    rc, rys, rh = 1.0, [None] * n, [None] * n
    for t in (range(n - 1, -1, -1) if rev else range(n)):
      x = jax.tree_map(lambda v: v[t], xs)
      ref["n"] += 1
      if "w" in ref:
        rc += float(ref["w"][t].sum())
      if ctx is not None and twice:
        rc *= 2
      if log:
        ref.setdefault("last", rc)
        rh[t] = rc
        ref["count"] = ref.get("count", 0) + 1
      rys[t] = rc * 3
      rc += (args[0] if args else 1.0) * float(tot(x))
    if log:
      ref["hist"] = np.asarray(rh, np.float32)
    case.close(c, rc, "carry", rtol=1e-3, atol=1e-3)
    rys = [out(np.float32(v)) for v in rys]
    if kind in ("none", "empty"):
      case.check(type(ys) is type(rys[0]) and not ys, "no outputs", got=ys)
    else:
      want = jax.tree_map(lambda *v: np.stack(v, axis), *rys)
      case.eq(jax.tree_util.tree_structure(ys), jax.tree_util.tree_structure(want),
              "structure of the outputs")
      case.close(ys, want, "outputs", rtol=1e-3, atol=1e-3)
    for q, want, _ in mods:
      case.eq(set(gen.user_vars(q)), set(want), "variables of the module")
      for k, v in want.items():
        case.close(jnp.asarray(getattr(q, k), jnp.float32), np.asarray(v, np.float32),
                   f"variable {k}", rtol=1e-3, atol=1e-3)
    case.event("scan")
    case.event("reused_call")
  case.sig(hist, rev, kind, axis)


FAMILIES = {
    "decorator": dict(fn=decorator, quick=170),
    "class": dict(fn=klass, quick=70),
    "grads": dict(fn=gradients, quick=40),
    "rejected": dict(fn=rejected, quick=80),
    "methods": dict(fn=methods, quick=36),
    "reused": dict(fn=reused, quick=40),
}
