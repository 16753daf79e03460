"""C25: threads working on their own modules do not influence each other."""
import os
import random

import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnx import spmd
from nnxmon import gen, sched, scripts

RULE = (
    "2-4 real threads run random jobs (graph surgery, transforms, rules contexts, printing, "
    "init, Pytrees, rng contexts) on their own objects, or read-only jobs on a shared one, "
    "under a seeded scheduler which preempts at source lines or bytecodes of the library; "
    "each report is compared with the same job run alone, and modules created in different "
    "threads must stay distinct when combined; non-trivial = distinct interleavings."
)
NEED = {"thread": 220, "switches": 40000, "opcode_switches": 20000, "distinct_locations": 5000,
        "ids": 700, "rules_seen": 300,
        "common_use": 250}

PREFIX = os.path.dirname(os.path.abspath(nnx.__file__)) + os.sep


class Shouter(nnx.Module):
  """Records is_initializing of the whole tree."""

  def __init__(self, depth):
    self.w = nnx.Param(jnp.float32(depth))
    if depth:
      self.sub = Shouter(depth - 1)

  def see(self, log):
    log.append(self.is_initializing)
    if hasattr(self, "sub"):
      self.sub.see(log)
    return len(log)


# -- jobs: functions of no argument which build everything they touch and report plain data


def job_graph(rng):
  recipe = gen.rand_recipe(rng, max_modules=6)
  seed = rng.random()
  filters, _ = gen.rand_exhaustive(rng)

  def run():
    r = random.Random(seed)
    m = gen.build(recipe, r)[0]
    out = [gen.describe(m)]
    pure = m.partition(*filters)
    out.append(gen.fp(pure.get_state()))
    c = pure.merge()
    out.append(gen.describe(c))
    out.append(gen.describe(c.clone()))
    c.update_state(m.get_state())
    popped = c.pop_state(nnx.Param)
    out.append((gen.fp(popped), gen.describe(c)))
    c.update_state(popped)
    out.append(gen.describe(c))
    out.append(hash(pure.moduledef) == hash(c.partition().moduledef)
               if not any(s[0] in ("static", "staticc") for n in recipe
                          for s in n["attrs"].values()) else None)
    return out

  return run


def job_script(rng):
  recipe = scripts.rand_scripted(rng, 4)
  script = scripts.rand_script(rng, recipe, 8)

  def run():
    m = gen.build(recipe)[0]
    p = m.partition()
    out, new = m.apply(script, 2.0)
    res = m(script, 2.0)
    out2, p2 = p.apply(script, 2.0)
    return [gen.fp(out), gen.describe(new), gen.fp(res), gen.describe(m), gen.fp(out2),
            gen.describe(p2.merge())]

  return run


def job_transform(rng):
  k = rng.randint(1, 3)
  x0 = float(rng.randint(1, 5))

  def run():
    ctx = nnx.context(k, dropout=k + 1)
    lin = nnx.Linear(2, 2, ctx=ctx)
    lin.count = nnx.Cache(jnp.float32(0))
    log = []

    def f(m, x):
      m.count = m.count + 1
      inner = nnx.Dict(a=nnx.Param(jnp.float32(1)))
      inner.a = inner.a + 1
      return jnp.sum(m(x)) + inner.a

    jf = nnx.jit(f)
    g = nnx.grad(f, wrt=nnx.Param)
    for i in range(k):
      x = jnp.ones((1, 2)) * (x0 + i)
      log.append(np.asarray(jf(lin, x)))
      lin.count = lin.count * 2
      log.append(np.asarray(g(lin, x)["kernel"].value))
      lin.count = lin.count + 3

    # a module of this thread still cannot be mutated from inside a transform
    def bad(m):
      lin.count = lin.count + 1
      return m.count

    err = None
    try:
      nnx.jit(bad)(lin.clone())
    except nnx.TraceContextError as e:
      err = "TraceContextError"
    lin.count = lin.count + 1
    log.append(float(lin.count))
    log.append(np.asarray(jax.random.key_data(ctx.make_rng("dropout"))))
    return [[gen.fp(a) for a in log], err, gen.describe(lin)]

  return run


def rand_rules(rng):
  return tuple((rng.choice("abcd"), rng.choice(["X", "Y", None])) for _ in range(rng.randint(1, 4)))


def job_rules(rng, case):
  plan = [rand_rules(rng) for _ in range(rng.randint(2, 5))]
  names = tuple(rng.choice("abcd") for _ in range(2))
  names = names if names[0] != names[1] else names[:1]

  def look():
    return tuple(spmd.logical_to_mesh_axes(names))

  def run():
    out = [spmd.get_logical_axis_rules(), look()]

    def nest(i):
      if i == len(plan):
        return
      with nnx.logical_axis_rules(plan[i]):
        out.append((spmd.get_logical_axis_rules(), look()))
        init = nnx.with_logical_partitioning(lambda: jnp.ones((2,) * len(names)), names)
        out.append(type(init()).__name__)
        nest(i + 1)
        out.append((spmd.get_logical_axis_rules(), look()))
        if i == 1:
          try:
            with nnx.logical_axis_rules(()):
              raise KeyError("x")
          except KeyError:
            pass
          out.append(spmd.get_logical_axis_rules())
      out.append(spmd.get_logical_axis_rules())

    nest(0)
    case.event("rules_seen", len(out))
    return out

  return run


def job_repr(rng):
  recipe = gen.rand_recipe(rng, max_modules=6, share=0.8, cycle=0.6,
                           names=["a", "b", "layers", "kernel", "x1", "x2", "w"])
  recipe = [{"cls": n["cls"], "attrs": {k: s for k, s in n["attrs"].items()
                                        if s[0] in ("sub", "static", "staticc", "var")}}
            for n in recipe]

  def run():
    m = gen.build(recipe)[0]
    pure = m.partition()
    out = []
    for _ in range(3):
      out.append([repr(m), repr(pure.get_state()), repr(pure.moduledef)])
    return out

  return run


def job_init(rng):
  depth = rng.randint(1, 3)

  def run():
    m = Shouter(depth)
    log, out = [], []
    out.append(m.init.see(log))
    m.see(log)
    try:
      m.init.nothing(log)
    except AttributeError:
      out.append("AttributeError")
    m.see(log)
    m.sub.init.see(log)
    return [log, out, m.partition().moduledef.module_state]

  return run


class PTX(nnx.Pytree):

  def __init__(self, a, s):
    self.a = nnx.Param(a)
    self.s = s


def job_pytree(rng):
  v, s = rng.randint(1, 9), f"s{rng.randint(1, 9)}"

  def run():
    out = []
    for i in range(3):
      p = PTX(jnp.float32(v + i), s)
      q = p.replace(a=p.a + 1)
      r = jax.tree_util.tree_map(lambda x: x * 2, q)
      try:
        p.a = 3
        out.append("assigned")
      except AttributeError:
        out.append("refused")
      try:
        q.new = 3
        out.append("added")
      except AttributeError:
        out.append("refused")
      out += [gen.fp(p), gen.fp(q), gen.fp(r), repr(r)]
    return out

  return run


def job_context(rng):
  seeds = {n: rng.randint(0, 99) for n in ("params", "dropout")}

  def run():
    ctx = nnx.context(flags={"train": True}, **seeds)
    out = []
    for i in range(3):
      out.append(gen.fp(ctx.make_rng("params")))
      pc = ctx.partition()
      c2 = pc.merge()
      out.append(gen.fp(c2.make_rng("dropout")))
      out.append(gen.fp(jax.jit(lambda pc: pc.merge().make_rng("params"))(ctx.partition())))
      out.append(c2.get_flag("train"))
    return out

  return run


def make_job(case, rng, only=None):
  kind = only or rng.choice(["graph", "script", "transform", "rules", "repr", "init", "pytree",
                             "context"])
  job = {"graph": job_graph, "script": job_script, "transform": job_transform,
         "repr": job_repr, "init": job_init, "pytree": job_pytree, "context": job_context,
         "rules": lambda r: job_rules(r, case)}[kind](rng)
  return kind, job


def concurrently(case, jobs, prob, opcodes, what):
  results, errors, s, stuck = sched.run(jobs, case.rng.random(), PREFIX, prob, opcodes)
  case.check(not stuck, f"{what}: threads {stuck} did not finish")
  case.event("thread", len(jobs))
  case.event("steps", s.steps)
  case.event("switches", s.switches)
  if opcodes:
    case.event("opcode_switches", s.switches)
  case.event("lost_tokens", s.steals)
  case.event("distinct_locations", len(s.where))
  case.sig(s.history.hexdigest())
  for i, e in enumerate(errors):
    if e is not None:
      case.fail(f"{what}: thread {i} failed with {type(e).__name__}: {e}"[:900],
                switches=s.switches)
  return results


def own(case, only=None):
  rng = case.rng
  n = rng.choice([2, 2, 3, 4])
  kinds = rng.random() < 0.5
  pick = rng.choice(["repr", "rules", "transform", "graph"]) if kinds else None
  made = [make_job(case, rng, pick) for _ in range(n)]
  case.note([k for k, _ in made])
  case.sample([k for k, _ in made])
  want = [sched.alone(job) for _, job in made]
  opcodes = rng.random() < 0.3
  prob = rng.choice([0.01, 0.05, 0.2]) if not opcodes else rng.choice([0.002, 0.01, 0.05])
  got = concurrently(case, [job for _, job in made], prob, opcodes, "own objects")
  for (k, _), g, w in zip(made, got, want):
    case.eq(g, w, f"the report of a {k} job run beside others")
  case.sig([k for k, _ in made])


def shared(case):
  """Read-only use of one module from several threads."""
  rng = case.rng
  recipe = scripts.rand_scripted(rng, 4)
  script = scripts.rand_script(rng, recipe, 6)
  m = gen.build(recipe)[0]
  pure = m.partition()
  before = gen.describe(m)
  jf = nnx.jit(lambda mm, x: mm.apply([], x)[0] and x)
  del jf

  def job():
    c = m.partition().merge()
    out, p = pure.apply(script, 1.0)
    return [gen.describe(c), repr(m), repr(pure), gen.fp(m.get_state()),
            gen.fp(m.filter(nnx.Param)), gen.fp(out), gen.describe(p.merge()),
            gen.describe(m.clone()), gen.fp(m.apply(script, 1.0)[0]),
            m.partition().moduledef == pure.moduledef]

  want = sched.alone(job)
  n = rng.choice([2, 3, 4])
  opcodes = rng.random() < 0.3
  got = concurrently(case, [job] * n, 0.02 if opcodes else 0.1, opcodes, "shared module")
  for g in got:
    case.eq(g, want, "reading a shared module beside other readers")
  case.eq(gen.describe(m), before, "the shared module is unchanged")


def ids(case):
  """Modules created in different threads are different modules."""
  rng = case.rng
  n, per = rng.choice([2, 3, 4]), rng.randint(8, 20)

  def job():
    out = []
    for i in range(per):
      m = gen.M0()
      m.w = nnx.Param(jnp.float32(i))
      out.append(m)
      if i % 4 == 0:
        out.append(m.clone())
    return out

  got = concurrently(case, [job] * n, rng.choice([0.05, 0.3, 0.6]), True, "creation")
  mods = [m for ms in got for m in ms]
  case.eq(len({hash(m) for m in mods}), len(mods), "hashes of distinct modules")
  case.eq(len(set(mods)), len(mods), "a set of distinct modules")
  # combined in one graph no module is taken for another
  both = nnx.Dict({f"m{i}": m for i, m in enumerate(mods)})
  state = both.get_state()
  case.eq(sorted(state), sorted(f"m{i}/w" for i in range(len(mods))), "paths of the union")
  back = both.clone()
  case.eq(gen.describe(back), gen.describe(both), "clone of the union")
  case.event("ids", len(mods))


def workers(case):
  """A long-lived thread's own trace state survives another thread's transforms."""
  rng = case.rng
  k = rng.randint(3, 6)

  def mutator():
    m = gen.M0()
    m.c = nnx.Cache(jnp.float32(0))
    for i in range(6 * k):
      m.c = m.c + 1
      if i % 3 == 0:
        m.new = nnx.Param(jnp.float32(i))
        del m.new
      p = m.partition()
      m.update_state(p.get_state())
    ctx = nnx.context(0)
    return [float(m.c), gen.fp(ctx.make_rng("params"))]

  def tracer():
    m = gen.M0()
    m.c = nnx.Cache(jnp.float32(0))

    @nnx.jit
    def f(m, x):
      sub = gen.M0()
      for j in range(4):
        sub.v = nnx.Param(jnp.float32(j))
        m.c = m.c + sub.v
        m.partition().merge()
      return x + m.c

    def body(c, _):
      return c + 1, c

    out = []
    for i in range(k):
      out.append(float(f(m, jnp.ones((i + 1,)))[0]))
    return [out, float(m.c)]

  jobs = [mutator, tracer] + ([mutator] if rng.random() < 0.5 else []) + (
      [tracer] if rng.random() < 0.3 else [])
  rng.shuffle(jobs)
  want = [sched.alone(j) for j in jobs]
  got = concurrently(case, jobs, rng.choice([0.02, 0.1]), False, "mutator beside tracer")
  case.eq(got, want, "reports")


class Layer(nnx.Module):
  """Its methods are transformed once, for all threads."""

  def __init__(self, k=1.0, *, ctx=None):
    self.w = nnx.Param(jnp.asarray([k, k + 1.0]))
    self.n = nnx.Cache(jnp.zeros(()))
    if ctx is not None:
      self.w = self.w + jax.random.uniform(ctx.make_rng("params"), (2,))

  def __call__(self, c, x=0.0, *, ctx=None):
    self.n = self.n + 1
    self.seen = nnx.Intermediate(c * self.w[0])
    noise = 0.0 if ctx is None else jax.random.uniform(ctx.make_rng("dropout"))
    return c * self.w.sum() + (0.0 if x is None else jnp.sum(x)) + noise, self.n

  def plain(self, x, *, ctx=None):
    self.n = self.n + 1
    tmp = nnx.Dict(v=nnx.Param(jnp.ones(())))
    tmp.v = tmp.v + self.n
    return (self.w * tmp.v).sum() * jnp.sum(x)


def tools():
  """Functions and constructors that threads have in common; they keep no state."""
  base = Layer(2.0)
  pure = base.partition()
  return dict(
      jitted=nnx.jit(Layer.plain), rematted=nnx.remat(Layer.plain),
      gradient=nnx.grad(Layer.plain),
      gradient_aux=nnx.grad(lambda m, x: (m.plain(x), m.n), has_aux=True),
      gradient_pure=nnx.grad(Layer.plain, stateful=False),
      both=nnx.jit(nnx.remat(Layer.plain)),
      jit_of_grad=nnx.jit(lambda m, x: nnx.grad(Layer.plain)(m, x)),
      grad_of_jit=nnx.grad(nnx.jit(Layer.plain)),
      scanned=nnx.scan(Layer.__call__),
      with_ctx=nnx.scan(Layer.__call__, split_rngs="dropout"),
      scan=nnx.Scan(Layer, variable_axes={nnx.Param: 0}, split_rngs="params", length=3),
      remat=nnx.Remat(Layer), pure_apply=pure.apply, module_apply=base.apply,
      def_apply=pure.moduledef.apply(pure.states), pure_call=pure.call, pure=pure,
      init=nnx.with_logical_partitioning(lambda: jnp.ones((2, 2)), ("a", "b")),
      seq=nnx.Sequence([lambda x: x + 1, lambda x, ctx=None: (x, ctx is None)]),
      filters=(nnx.Not(nnx.Cache), ...))


METHODS = ["jitted", "rematted", "gradient", "gradient_aux", "gradient_pure", "both",
           "grad_of_jit", "jit_of_grad"]
TOOLS = METHODS + ["scanned", "with_ctx", "scan", "remat", "pure_apply", "module_apply",
                   "def_apply", "pure_call", "init", "seq", "filters"]


def tool_job(case, rng, box, i, uses):
  k = float(rng.randint(1, 6) + 10 * i)
  rules = rand_rules(rng)
  shape = (i + 2,)

  def run():
    t = box[0]
    m = Layer(k)
    x = jnp.full(shape, k)
    out = []
    for use in uses:
      if use in METHODS:
        r = t[use](m, x)
      elif use == "scanned":
        r = t[use](m, jnp.asarray(k), x)
      elif use == "with_ctx":
        r = t[use](m, jnp.asarray(k), x, ctx=nnx.context(dropout=i))
      elif use == "scan":
        q = t["scan"](k, ctx=nnx.context(i))
        r = [q.call(jnp.asarray(k), None), gen.describe(vars(q)["scan_module"])]
      elif use == "remat":
        q = t["remat"](k)
        r = [q.call(jnp.asarray(k)), gen.describe(vars(q)["remat_module"])]
      elif use in ("pure_apply", "module_apply", "def_apply"):
        v, new = t[use].plain(x)
        new = new if isinstance(new, nnx.Module) else new.merge()
        r = [v, gen.describe(new)]
      elif use == "pure_call":
        r = t[use].plain(x)
      elif use == "init":
        with nnx.logical_axis_rules(rules):
          p = nnx.Param(t[use]())
          r = [p.sharding, tuple(spmd.logical_to_mesh_axes(("a",)))]
      elif use == "seq":
        r = [t[use](x), t[use](x, ctx=nnx.context(i))]
      else:
        (a, b), d = m.partition(*t["filters"])
        r = [a, b, gen.describe(d.merge(a, b))]
      out.append((use, gen.fp(jax.tree_util.tree_map(
          lambda l: np.asarray(l) if isinstance(l, jax.Array) else l, r))))
      out.append(gen.describe(m))
      m.w = m.w + 1.0
    case.event("common_use", len(uses))
    return out

  return run


def common(case):
  """Transformed functions, constructors and proxies used by several threads at once."""
  rng = case.rng
  n = rng.choice([2, 2, 3, 4])
  same_uses = rng.random() < 0.6
  pool = [rng.choice(TOOLS) for _ in range(rng.randint(1, 3))]
  box = [None]
  jobs = []
  for i in range(n):
    uses = pool if same_uses else [rng.choice(TOOLS) for _ in range(rng.randint(1, 3))]
    case.note(uses)
    jobs.append(tool_job(case, rng, box, i, uses))
  case.sample(pool)
  want = []
  for job in jobs:
    box[0] = tools()
    want.append(sched.alone(job))
  box[0] = tools()
  opcodes = rng.random() < 0.2
  prob = rng.choice([0.005, 0.02]) if opcodes else rng.choice([0.02, 0.1, 0.3])
  got = concurrently(case, jobs, prob, opcodes, "common tools")
  for i, (g, w) in enumerate(zip(got, want)):
    case.eq(g, w, f"the report of thread {i} with tools in common")
  case.sig(pool, n)


FAMILIES = {
    "common": dict(fn=common, quick=48),
    "own": dict(fn=own, quick=80),
    "shared": dict(fn=shared, quick=32),
    "ids": dict(fn=ids, quick=32),
    "workers": dict(fn=workers, quick=24),
}
