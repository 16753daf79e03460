"""C10: nnx.jit gives the same results and state as the eager call."""
import functools

import jax
import jax.numpy as jnp
import numpy as np

from jax.sharding import Mesh, NamedSharding
from jax.sharding import PartitionSpec as P

import nnx
from nnxmon import gen, scripts

ENV = {"XLA_FLAGS": "--xla_force_host_platform_device_count=4"}
RULE = (
    "Histories of eager and nnx.jit calls of scripted methods (reads, writes, new "
    "variables, sow, on shared submodules and cycles; with array, pytree and static "
    "arguments, ctx, stateful on/off, methods decorated in a class, nested jits, "
    "donation; variables whose value changes its structure, to nothing at all too) are run next to an all-eager twin; outputs, module graphs, object "
    "identity and RNG state are compared after every step; non-trivial = distinct "
    "(graph, history)."
)
NEED = {"jit_call": 420, "ctx_call": 90, "stateless": 60, "reused": 200, "nested": 60,
        "structure_change": 250, "lower": 50, "lower_ctx": 20,
        "sharded": 20, "placed": 90, "passed_on": 40}


def history(case):
  rng = case.rng
  recipe = scripts.rand_scripted(rng, 4)
  if rng.random() < 0.4:  # a cycle
    recipe[-1]["attrs"]["cyc"] = ("sub", rng.randrange(len(recipe)))
  m = gen.build(recipe, rng)[0]
  twin = gen.build(recipe, rng)[0]
  objects = gen.all_modules(m)
  jits = []
  for k in range(rng.randint(1, 2)):
    script = scripts.rand_script(rng, recipe, rng.randint(1, 6), structural=False,
                                 delete=False, prefix=f"n{k}_")
    stateful = rng.random() < 0.8
    body = functools.partial(lambda script, m, x, *rest: (m.run(script, x), rest), script)
    body.__name__ = "body"
    kw = {} if stateful else {"stateful": False}
    jits.append((script, stateful, body, nnx.jit(scripts.disguise(rng, body), **kw)))
  log = []
  for step in range(rng.randint(3, 5)):
    script, stateful, body, jitted = rng.choice(jits)
    x = jnp.float32(rng.randint(1, 9))
    if rng.random() < 0.7:
      before = gen.describe(m)
      extra = rng.choice([(), ({"p": jnp.ones((2,)), "q": (jnp.int32(3),)},)])
      case.note(step, "jit", stateful, script)
      got = jitted(m, x, *extra)
      if stateful:
        want = body(twin, x, *extra)
      else:
        want = body(twin.clone(), x, *extra)
        case.eq(gen.describe(m), before, "stateful=False changed the module")
        case.event("stateless")
      case.event("jit_call")
      log.append(("jit", len(script), stateful))
    else:
      case.note(step, "eager", script)
      got = body(m, x)
      want = body(twin, x)
      log.append(("eager", len(script)))
    case.eq(gen.fp_np(got), gen.fp_np(want), "output")
    case.eq(gen.describe(m), gen.describe(twin), "module after the call")
    now = gen.all_modules(m)
    case.check(all(any(o is q for q in now) for o in objects),
               "the caller's submodules were replaced")
    for q in gen.all_modules(m):
      for name, v in gen.user_vars(q).items():
        for leaf in jax.tree_util.tree_leaves(v):
          case.check(not isinstance(leaf, jax.core.Tracer), f"tracer left in {name}")
    m.check_mutable = 1  # the module still belongs to the caller
    del m.check_mutable
    case.event("reused")
  case.sample(log)
  case.sig(gen.recipe_sig(recipe), log, [[s[:3] for s in j[0]] for j in jits])


class Drop(nnx.Module):
  """Uses rngs and flags."""

  def __init__(self, n):
    self.n = nnx.Cache(jnp.zeros(()))
    self.scale = nnx.Param(jnp.ones((n,)))

  def __call__(self, x, *, ctx, steps=1, extra=None):
    for _ in range(steps):
      x = x + jax.random.randint(ctx.make_rng("dropout"), x.shape, 0, 1000)
    if ctx.has_rng("noise"):
      x = x + jax.random.randint(ctx.make_rng("noise"), x.shape, 0, 1000)
    if ctx.get_flag("train"):
      self.n = self.n + 1
    if extra is not None:
      x = x + extra
    return x * self.scale, jax.random.key_data(ctx.make_rng("dropout"))

  jitted = nnx.jit(__call__, static_argnames=("steps",))


def with_ctx(case):
  rng = case.rng
  n = rng.randint(1, 3)
  m, twin = Drop(n), Drop(n)

  def mk():
    kw = dict(dropout=seed)
    if noise:
      kw["noise"] = seed + 1
    return nnx.context(flags=dict(train=train) if train is not None else None, **kw)

  seed, noise = rng.randint(0, 99), rng.random() < 0.5
  train = rng.choice([True, False, None])
  ctx, ref_ctx = mk(), mk()
  kind = rng.choice(["method", "function"])
  if kind == "method":
    run = lambda m, x, **kw: m.jitted(x, **kw)
  else:
    jf = nnx.jit(lambda m, x, steps, *, ctx, extra=None: m(x, ctx=ctx, steps=steps, extra=extra),
                 static_argnums=2)
    run = lambda m, x, ctx, steps, extra=None: jf(m, x, steps, ctx=ctx, extra=extra)
  log = []
  for step in range(rng.randint(2, 4)):
    x = jnp.arange(n, dtype=jnp.float32) + rng.randint(0, 5)
    steps = rng.randint(1, 2)
    extra = jnp.ones((n,)) if rng.random() < 0.5 else None
    act = rng.choice(["jit", "jit", "eager", "draw", "fork"])
    case.note(step, act, steps)
    if act == "jit":
      got = run(m, x, ctx=ctx, steps=steps, extra=extra)
      want = twin(x, ctx=ref_ctx.partition().merge(), steps=steps, extra=extra)
      case.eq(gen.fp_np(got), gen.fp_np(want), "output with ctx")
      case.event("ctx_call")
    elif act == "eager":
      got = m(x, ctx=ctx, steps=steps)
      want = twin(x, ctx=ref_ctx, steps=steps)
      case.eq(gen.fp_np(got), gen.fp_np(want), "eager output with ctx")
    elif act == "draw":
      case.eq(gen.fp(ctx.make_rng("dropout")), gen.fp(ref_ctx.make_rng("dropout")),
              "the caller's stream position")
    else:
      a, b = ctx.partition().merge(), ref_ctx.partition().merge()
      case.eq(gen.fp(a.make_rng("dropout")), gen.fp(b.make_rng("dropout")), "fork")
    log.append(act)
    case.eq(gen.describe(m), gen.describe(twin), "module after the call with ctx")
  case.eq(gen.fp(ctx.make_rng("dropout")), gen.fp(ref_ctx.make_rng("dropout")),
          "the caller's stream position at the end")
  case.sig(kind, n, seed, noise, train, log)


class Inner(nnx.Module):

  def __init__(self, v):
    self.v = nnx.BatchStat(jnp.asarray(v, jnp.float32))

  def plain(self, x):
    self.v = self.v + x
    return self.v * 2

  jitted = nnx.jit(plain)


class Outer(nnx.Module):

  def __init__(self, rng):
    self.a = Inner(rng.randint(0, 5))
    self.b = self.a if rng.random() < 0.4 else Inner(rng.randint(0, 5))
    self.w = nnx.Param(jnp.asarray(2.0))

  def go(self, x, plan, jit):
    out = []
    for name in plan:
      child = vars(self)[name]
      out.append(child.jitted(x) if jit else child.plain(x))
      if len(out) % 2:
        self.w = self.w + out[-1]
    return out

  def __call__(self, x):
    return self.w * x


# a jitted function bound as a method goes through the descriptor or the class
def _bind():
  for cls, name in ((Inner, "jitted"), (Drop, "jitted")):
    fn = vars(cls)[name]
    if not hasattr(type(fn), "__get__"):
      setattr(cls, name, (lambda fn: lambda self, *a, **k: fn(self, *a, **k))(fn))


_bind()


def nested(case):
  """jit inside jit: the inner updates reach the outer module."""
  import random
  rng = case.rng
  seed = rng.random()
  m, twin = Outer(random.Random(seed)), Outer(random.Random(seed))
  plan = [rng.choice("ab") for _ in range(rng.randint(1, 4))]
  inner_jit, outer_jit = rng.random() < 0.8, rng.random() < 0.8
  f = lambda m, x: m.go(x, plan, inner_jit)
  f = nnx.jit(f) if outer_jit else f
  case.note(plan, inner_jit, outer_jit)
  for step in range(2):
    x = jnp.float32(rng.randint(1, 5))
    got, want = f(m, x), twin.go(x, plan, False)
    case.eq(gen.fp_np(got), gen.fp_np(want), "output of nested jits")
    case.eq(gen.describe(m), gen.describe(twin), "module after nested jits")
    case.event("nested")
  case.sig(plan, inner_jit, outer_jit, m.a is m.b)


def options(case):
  """Arguments of jit: static positions and names, donation, wrong types, metadata."""
  rng = case.rng
  m = gen.M0()
  val = rng.randint(1, 9)
  m.w = nnx.Param(jnp.full((2,), val, jnp.float32), sharding=(None,), tag="t")
  m.c = nnx.Cache({"k": jnp.zeros(()), "t": (jnp.ones((2,)),)})
  m.raw = jnp.zeros((3,))
  m.cfg = "static"
  calls = []

  def f(m, x, op, *, mode="a", y=None):
    calls.append((op, mode))
    case.check(isinstance(op, str) and isinstance(mode, str), "static arguments")
    m.w = m.w * x if op == "mul" else m.w + x
    m.c = {"k": m.c["k"] + 1, "t": m.c["t"]}
    m.raw = m.raw - 1
    m.fresh = nnx.Cache(m.w[0], tag="new")
    return {"w": m.w, "mode": jnp.float32(len(mode)), "y": y, "cfg": jnp.float32(len(m.cfg))}

  donate = rng.random() < 0.3
  kw = dict(static_argnums=2, static_argnames=rng.choice(["mode", ("mode",), ["mode"]]))
  if donate:
    kw["donate_argnums"] = 0
  jf = nnx.jit(f, **kw)
  case.eq(getattr(jf, "__name__", "f"), "f", "wraps keeps the name")
  w = np.full((2,), val, np.float32)
  k = 0
  for step in range(rng.randint(2, 4)):
    op, mode = rng.choice(["mul", "add"]), rng.choice(["a", "bb"])
    x = rng.randint(1, 3)
    y = rng.choice([None, (jnp.ones(()), {"q": jnp.zeros((2,))})])
    out = jf(m, jnp.float32(x), op, mode=mode, y=y)
    w = w * x if op == "mul" else w + x
    k += 1
    case.note(step, op, mode, x)
    case.eq(gen.fp_np(out["w"]), gen.fp_np(jnp.asarray(w)), "output")
    case.eq(float(out["mode"]), float(len(mode)), "static keyword")
    case.eq(gen.fp_np(out["y"]), gen.fp_np(y), "pytree argument")
    v = vars(m)
    case.check(type(v["w"]) is nnx.Param and v["w"].sharding == (None,)
               and v["w"].tag == "t", "container and metadata of an updated variable")
    case.eq(gen.fp_np(m.w), gen.fp_np(jnp.asarray(w)), "updated variable")
    case.eq(float(m.c["k"]), float(k), "updated pytree variable")
    case.eq(gen.fp_np(m.raw), gen.fp_np(jnp.full((3,), -k, jnp.float32)), "updated array")
    case.check(type(v["fresh"]) is nnx.Cache and v["fresh"].tag == "new"
               and float(m.fresh) == w[0], "variable created inside")
    case.check(m.cfg == "static", "static attribute")
    case.event("jit_call")
  # lowering takes the same arguments and changes nothing
  before = gen.describe(m)
  low = jf.lower(m, jnp.float32(2), "mul", mode="a")
  case.eq(gen.describe(m), before, "lower changed the module")
  state, got = low.compile()(m.partition(), jnp.float32(2))
  case.eq(gen.fp_np(got["w"]), gen.fp_np(jnp.asarray(w) * 2), "lowered and compiled function")
  m2 = m.clone() if donate else m
  m2.update_state(state)
  case.eq(gen.fp_np(m2.w), gen.fp_np(jnp.asarray(w) * 2), "state of the compiled function")
  if donate:
    m.update_state(state)
  case.event("lower")
  n = len(calls)
  jf(m, jnp.float32(1), *calls[-1][:1], mode=calls[-1][1])
  for bad in (1, None, {"a": 1}, m.partition(), gen.M0):
    case.raises(TypeError, lambda: jf(bad, jnp.float32(1), "mul"), "not a Module")
  case.sig(calls, donate, n, val)


def sharded(case):
  """in_shardings and out_shardings place what jax.jit would place; values are the eager ones."""
  rng = case.rng
  mesh = Mesh(np.array(jax.devices()[:4]).reshape(2, 2), ("x", "y"))
  specs = [P(), P("x"), P("y"), P(("x", "y"))]
  m = nnx.Dict(w=nnx.Param(jnp.asarray(case.np.normal(size=(4,)), jnp.float32)),
               n=nnx.BatchStat(jnp.zeros((4,)), sharding=("x",)))
  sw, sn, sx, sy = (NamedSharding(mesh, rng.choice(specs)) for _ in range(4))
  x = jnp.asarray(case.np.normal(size=(8, 4)), jnp.float32)

  def f(m, x):
    m.n = m.n + m.w
    return x * m.w + m.n

  state, moduledef = m.partition()
  prefix = rng.choice(["one", "tree", "none"])
  tree = nnx.State({"n": sn, "w": sw}) if prefix == "tree" else sw
  kw = {}
  if rng.random() < 0.7:
    kw["in_shardings"] = (nnx.Pure.new(tree, moduledef) if prefix == "tree" else tree, sx)
  if rng.random() < 0.7 or not kw:
    out_state = jax.tree_util.tree_map(lambda v: 0, state)
    if prefix == "tree":
      out_state = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(state), [sn, sw])
    else:
      out_state = sw
    kw["out_shardings"] = (out_state, sy)
  if prefix == "tree" and "in_shardings" in kw:
    kw["in_shardings"] = (
        jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(m.partition()), [sn, sw]), sx)
  case.note(prefix, sorted(kw), sw.spec, sn.spec, sx.spec, sy.spec)
  ref = m.clone()
  jf = nnx.jit(f, **kw)
  for step in range(2):
    want = f(ref, x)
    # the inputs are those the shardings ask for
    if "in_shardings" in kw:
      low = jf.lower(m, x).compile()
      got_in = jax.tree_util.tree_leaves(low.input_shardings[0])
      if len(got_in) == 3:
        for got, exp, nd in zip(got_in, [sn if prefix == "tree" else sw, sw, sx], (1, 1, 2)):
          case.check(got.is_equivalent_to(exp, nd), "compiled input sharding", got=got, want=exp)
          case.event("placed")
    y = jf(m, x)
    case.close(y, want, "output of the sharded call", rtol=1e-5)
    case.close(m.n, ref.n, "state of the sharded call", rtol=1e-5)
    case.check(type(vars(m)["n"]) is nnx.BatchStat and vars(m)["n"].sharding == ("x",),
               "container of the updated variable")
    if "out_shardings" in kw:
      for got, exp, name in ((y, sy, "output"), (m.w, sw, "w"),
                             (m.n, sn if prefix == "tree" else sw, "n")):
        case.check(got.sharding.is_equivalent_to(exp, got.ndim), f"placement of {name}",
                   got=got.sharding, want=exp)
        case.event("placed")
    # committed now: the next call needs the inputs where in_shardings says
    m.update_state(jax.tree_util.tree_map(lambda v: jnp.asarray(np.asarray(v)), m.get_state()))
  case.event("sharded")
  case.sig(prefix, sorted(kw), sw.spec, sn.spec, sx.spec, sy.spec)


def count_eqns(jaxpr, name):
  n = 0
  for eqn in jaxpr.eqns:
    n += eqn.primitive.name == name
    for v in eqn.params.values():
      for j in v if isinstance(v, (tuple, list)) else (v,):
        j = getattr(j, "jaxpr", j)
        n += count_eqns(j, name) if hasattr(j, "eqns") else 0
  return n


def passed_on(case):
  """device, backend, inline, keep_unused and donate_argnums mean what they mean to jax.jit."""
  rng = case.rng
  w = case.np.normal(size=(3,)).astype(np.float32)
  x = jnp.asarray(case.np.normal(size=(3,)), jnp.float32)
  stateful = rng.random() < 0.6
  kind = ["device", "backend", "inline", "keep_unused", "donate"][case.index % 5]
  on = rng.random() < 0.6

  def build():
    return nnx.Dict(w=nnx.Param(jnp.asarray(w)), n=nnx.BatchStat(jnp.zeros(())),
                    unused=nnx.Cache(jnp.ones((2,))))

  def f(m, x, extra=None):
    m.n = m.n + 1
    return jnp.sin(x) * m.w

  m = build()
  case.note(kind, on, stateful)
  if kind == "device":
    dev = rng.choice(jax.devices())
    jf = nnx.jit(f, device=dev, stateful=stateful)
    y = jf(m, x)
    case.eq(y.devices(), {dev}, "device of the output")
    if stateful:
      case.eq(m.n.devices(), {dev}, "device of an updated variable")
  elif kind == "backend":
    if on:
      jf = nnx.jit(f, backend="cpu", stateful=stateful)
      jf(m, x)
    else:
      case.raises(RuntimeError, lambda: nnx.jit(f, backend="no such backend")(m, x),
                  "unknown backend")
      case.eq(float(m.n), 0.0, "nothing ran")
      stateful = False
  elif kind == "inline":
    jf = nnx.jit(f, inline=on, stateful=stateful)

    def whole(x):
      m = build()
      return jf(m, x), m.n

    got = count_eqns(jax.make_jaxpr(whole)(x).jaxpr, "pjit")
    base = count_eqns(jax.make_jaxpr(lambda x: f(build(), x))(x).jaxpr, "pjit")
    case.eq(got - base, 0 if on else 1, "calls left in the enclosing program")
    jf(m, x)
  elif kind == "keep_unused":
    jf = nnx.jit(f, keep_unused=on, stateful=stateful)
    rf = jax.jit(lambda p, x, extra=None: _pure(f, p, x, extra, stateful), keep_unused=on)
    e = jnp.ones((5,))
    kept = [c.lower(q, x, e).as_text().split("func.func public @main(")[1]
            .split(") -> ")[0].count("%arg")
            for c, q in ((jf, m), (rf, m.partition()))]
    case.eq(kept[0], kept[1], "arguments of the compiled program")
    jf(m, x, e)
  else:
    nums = rng.choice([0, 1, (0, 1), (1,)])
    jf = nnx.jit(lambda m, x: (f(m, x), jnp.cos(x) + 1)[0] + 0 * m.w, donate_argnums=nums,
                 stateful=stateful)
    xd, wd = jnp.array(x), vars(m)["w"].value
    jf(m, xd)
    rx, rm = jnp.array(x), build()
    rw = vars(rm)["w"].value
    jax.jit(lambda p, x: _pure(lambda m, x: (f(m, x), jnp.cos(x) + 1)[0] + 0 * m.w, p, x, None,
                               stateful), donate_argnums=nums)(rm.partition(), rx)
    case.eq((xd.is_deleted(), wd.is_deleted()), (rx.is_deleted(), rw.is_deleted()),
            "donated buffers")
    case.event("passed_on")
    case.sig(kind, nums, stateful, gen.fp(w))
    return
  if kind != "backend" or on:
    case.eq(float(m.n), 1.0 if stateful else 0.0, "the state of the call")
    ref = build()
    case.close(jf(m, x), f(ref, x), "output", rtol=1e-5)
  case.event("passed_on")
  case.sig(kind, on, stateful, gen.fp(w))


def _pure(f, pure, x, extra, stateful):
  m = pure.merge()
  out = f(m, x) if extra is None else f(m, x, extra)
  return (m.get_state(), out) if stateful else out


def lowered_ctx(case):
  """lower takes a context like the call does, and compiles the same computation."""
  rng = case.rng
  seed = gen.fresh()
  flags = {"deterministic": rng.random() < 0.5}
  m = nnx.Dict(w=nnx.Param(jnp.asarray(case.np.normal(size=(3,)), jnp.float32)))

  def f(m, x, *, ctx):
    noise = jax.random.normal(ctx.make_rng("noise"), (3,))
    m.w = m.w + noise
    return x + noise * (2 if ctx.get_flag("deterministic") else 1)

  stateful = rng.random() < 0.6
  jf = nnx.jit(f, stateful=stateful)
  a, b = (nnx.context(noise=seed, flags=flags) for _ in range(2))
  for _ in range(rng.randint(0, 2)):
    a.make_rng("noise"), b.make_rng("noise")
  before = gen.describe(m)
  low = jf.lower(m, jnp.float32(1), ctx=a)
  case.eq(gen.describe(m), before, "lower changed the module")
  keys = b.partition()
  case.eq(gen.fp(a.make_rng("noise")), gen.fp(b.make_rng("noise")),
          "lower forks the context once, as a call does")
  out = low.compile()(m.partition(), jnp.float32(1), ctx=keys)
  ref = m.clone()
  want = f(ref, jnp.float32(1), ctx=keys.merge())
  if stateful:
    state, out = out
    case.close(state["w"].value, ref.w, "state of the compiled function", rtol=1e-5)
  case.close(out, want, "output of the compiled function", rtol=1e-5)
  case.event("lower")
  case.event("lower_ctx")
  case.sig(seed, flags, stateful)


class Store(nnx.Module):
  """Variables (of several modules) that hold anything from nothing to nested pytrees."""

  def __init__(self, names):
    for n in names:
      setattr(self, n, nnx.Cache(None))

  def put(self, plan, x):
    out = []
    for path, name, kind in plan:
      m = scripts.at(self, path)
      old = getattr(m, name)
      leaves = jax.tree_util.tree_leaves(old)
      out.append(sum((jnp.sum(v) for v in leaves), jnp.zeros(())))
      setattr(m, name, {
          "none": lambda: None, "empty": lambda: (), "nodict": lambda: {"a": {}},
          "array": lambda: x * 2, "dict": lambda: {"k": x, "t": (x + 1, None)},
          "old": lambda: {"old": old}, "zero": lambda: jnp.zeros((0, 2)),
      }[kind]())
    return out


def containers(case):
  """The values of variables change their structure (to nothing at all, too) in the call."""
  rng = case.rng
  names = ["a", "b", "c"][:rng.randint(1, 3)]
  m, twin = (Store(names) for _ in range(2))
  paths = [()]
  if rng.random() < 0.5:
    for q in (m, twin):
      q.sub = Store(names[:1])
    paths.append(("sub",))
  slots = [((), n) for n in names] + [(p, names[0]) for p in paths[1:]]
  kinds = ["none", "none", "empty", "nodict", "array", "dict", "zero", "old"]
  bodies = {}
  hist = []
  for step in range(rng.randint(3, 6)):
    if rng.random() < 0.3:  # everything becomes empty
      plan = tuple((p, n, rng.choice(["none", "empty", "nodict"])) for p, n in slots)
    else:
      plan = tuple((p, n, rng.choice(kinds)) for p, n in
                   rng.sample(slots, rng.randint(1, len(slots))))
    if plan not in bodies:
      bodies[plan] = nnx.jit(functools.wraps(Store.put)(
          functools.partial(lambda plan, m, x: m.put(plan, x), plan)))
    x = jnp.float32(rng.randint(1, 9))
    hist.append(plan)
    case.note(step, plan)
    got = bodies[plan](m, x)
    want = twin.put(plan, x)
    case.eq(gen.fp_np(got), gen.fp_np(want), "output")
    case.eq(gen.describe(m), gen.describe(twin), "module after the call")
    case.event("structure_change")
  case.sig(hist)


FAMILIES = {
    "history": dict(fn=history, quick=170),
    "ctx": dict(fn=with_ctx, quick=110),
    "nested": dict(fn=nested, quick=60),
    "options": dict(fn=options, quick=60),
    "containers": dict(fn=containers, quick=110),
    "sharded": dict(fn=sharded, quick=40),
    "lowered_ctx": dict(fn=lowered_ctx, quick=40),
    "passed_on": dict(fn=passed_on, quick=60),
}
