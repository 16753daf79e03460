"""C27: a failing transform leaves modules and trace levels as they were."""
import functools
import random

import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnx import tracers
from nnxmon import gen, scripts

RULE = (
    "Scripted modules (shared, cyclic graphs; reads, writes, new variables, sow) run under "
    "random nestings of nnx.jit, grad, remat and scan (depth 1-3, stateful or not, with ctx); "
    "an exception of several kinds is injected at every step of the script and before and "
    "after every inner transform, and outputs that the transform must refuse are returned; "
    "after each fault the module, its object identities, the captured modules, the trace "
    "levels and the leaves are inspected and the call is repeated without the fault; "
    "non-trivial = distinct (graph, script, nesting, fault point)."
)
NEED = {"fault": 450, "retried": 48, "late": 100, "refused_output": 120, "captured": 500,
        "ctx": 60, "constructor": 60, "mutated_after": 500, "nested_fault": 200}


class Odd(Exception):
  pass


def kinds(rng):
  return rng.choice([scripts.Boom("b"), Odd("o"), ValueError("v"), KeyError("k"),
                     KeyboardInterrupt("i"), SystemExit(3), StopIteration("s"),
                     nnx.TraceContextError("t"), AssertionError("a"), RecursionError("r"),
                     GeneratorExit("g")])


def scalar(out, m):
  tot = jnp.zeros(())
  for l in jax.tree_util.tree_leaves(out):
    tot = tot + jnp.sum(jnp.sin(l))
  for q in gen.all_modules(m):
    for name, v in sorted(gen.user_vars(q).items()):
      if isinstance(v, nnx.Param):
        tot = tot + jnp.sum(jnp.sin(v.value))
  return tot


def wrap(rng, kind, f, outermost=False, donate=True):
  """A transform of f(m, x) with the same calling convention."""
  stateful = rng.random() < 0.8
  if kind == "jit":
    opts = {}
    if stateful and outermost and rng.random() < 0.4:  # the module gets its new values back
      opts["donate_argnums"] = rng.choice([0, (0,)]) if donate else ()
    if rng.random() < 0.2:
      opts[rng.choice(["keep_unused", "inline"])] = True
    return nnx.jit(f, stateful=stateful, **opts)
  if kind == "grad":
    return nnx.grad(lambda m, x: scalar(f(m, x), m), nnx.Param, stateful=stateful)
  if kind == "grad_aux":
    def loss(m, x):
      out = f(m, x)
      return scalar(out, m), out
    return nnx.grad(loss, nnx.Param, has_aux=True, stateful=stateful)
  if kind == "remat":
    return nnx.remat(f, prevent_cse=rng.random() < 0.6,
                     policy=rng.choice([None, jax.checkpoint_policies.everything_saveable]))
  if kind == "scan":
    opts = rng.choice([{}, {}, {"reverse": True}, {"unroll": 2}, {"length": 2}])
    return lambda m, x: nnx.scan(lambda m, c, y: (c + 1.0, f(m, y)), **opts)(
        m, jnp.zeros(()), jnp.stack([x, x + 1]))
  raise AssertionError(kind)


def level():
  """The nnx trace level, where the library shows it; `usable` observes its effects."""
  get = getattr(tracers, "current_nnx_trace", None)
  stack = getattr(getattr(tracers, "TRACE_CONTEXT", None), "nnx_trace_stack", ())
  return (get() if get else None, len(stack))


KINDS = ["jit", "grad", "grad_aux", "remat", "scan"]


class Probe:
  """The state that a fault must not touch."""

  def __init__(self, case, m, captured):
    self.case, self.m, self.captured = case, m, captured
    self.mods = gen.all_modules(m)
    self.before = gen.describe(m)
    self.cap_before = gen.describe(captured)
    self.raw = {(i, k): v for i, q in enumerate(self.mods)
                for k, v in gen.user_vars(q).items()}
    self.level = level()

  def unchanged(self, where):
    case = self.case
    case.eq(gen.describe(self.m), self.before, f"{where}: the module changed")
    mods = gen.all_modules(self.m)
    case.check(len(mods) == len(self.mods) and all(a is b for a, b in zip(mods, self.mods)),
               f"{where}: the modules were replaced")
    for i, q in enumerate(mods):
      for k, v in gen.user_vars(q).items():
        case.check(v is self.raw[(i, k)], f"{where}: attribute {k} was replaced")
        for l in jax.tree_util.tree_leaves(v) if not isinstance(v, nnx.Module) else []:
          case.check(not isinstance(l, jax.core.Tracer), f"{where}: a tracer was left in {k}")
    case.eq(gen.describe(self.captured), self.cap_before, f"{where}: captured module changed")
    case.event("captured")
    case.check(level() == self.level, f"{where}: the trace level was not restored")

  def usable(self, where):
    """Mutable at this level, as is a new module; then put back."""
    for q in self.mods + [self.captured, scripts.Scripted()]:
      q._tmp_probe = 1
      del q._tmp_probe
      q.tmp_probe = nnx.Cache(jnp.zeros(()))
      q.tmp_probe = jnp.ones(())
      popped = q.pop_state(lambda p, v: p.split("/")[-1] == "tmp_probe")
      self.case.check(len(popped) >= 1, f"{where}: pop after the fault")
    nnx.context(0).make_rng("params")
    self.case.event("mutated_after")


def faults(case):
  rng = case.rng
  recipe = scripts.rand_scripted(rng, 3)
  if rng.random() < 0.3:
    recipe[-1]["attrs"]["cyc"] = ("sub", 0)
  depth = rng.choice([1, 1, 2, 2, 3])
  nest = [rng.choice(KINDS) for _ in range(depth)]
  # with a scan the gradients of a step are one of its outputs: the same at every step
  new = not ("scan" in nest and any(k.startswith("grad") for k in nest))
  script = scripts.rand_script(rng, recipe, rng.randint(1, 5), structural=False, delete=False,
                               new=new)
  if "scan" in nest:
    script = [s for s in script if s[0] != "sow"]
  build_seed = rng.randrange(10**6)
  m = gen.build(recipe, random.Random(build_seed))[0]
  twin = gen.build(recipe, random.Random(build_seed))[0]
  for q in (m, twin):  # every array once: a buffer can be donated only once
    q.update_state(jax.tree_util.tree_map(
        lambda l: jnp.array(l, copy=True) if isinstance(l, jax.Array) else l, q.get_state()))
  captured = scripts.Scripted()
  captured.c = nnx.Cache(jnp.asarray(2.0))
  case.note(gen.recipe_str(recipe))
  case.note(nest, script)
  case.sample((gen.recipe_str(recipe), nest, script))

  plan = {"at": None, "exc": None}

  def hook(point):
    if plan["at"] == point:
      raise plan["exc"]

  def make(seed, donate=True):
    r = random.Random(seed)
    def body(m, x):
      out = []
      for i, step in enumerate(script):
        hook(("step", i))
        out += scripts.interpret(m, [step], x)
      hook(("step", len(script)))
      return out + [captured.c * 1.0, x * 1.0]
    f = body
    for lvl, kind in enumerate(nest):
      inner = wrap(r, kind, f, lvl + 1 == len(nest), donate)
      if lvl + 1 < len(nest):
        def f(m, x, inner=inner, lvl=lvl):
          hook(("before", lvl))
          out = inner(m, x)
          hook(("after", lvl))
          return out
      else:
        f = inner
    return f

  wrap_seed = rng.randrange(10**6)
  call, ref = make(wrap_seed), make(wrap_seed, donate=False)
  x = jnp.float32(rng.randint(1, 4))
  points = [("step", i) for i in range(len(script) + 1)]
  points += [(w, l) for l in range(depth - 1) for w in ("before", "after")]
  probe = Probe(case, m, captured)
  for p in points:
    exc = kinds(rng)
    plan.update(at=p, exc=exc)
    case.note("fault", p, type(exc).__name__)
    try:
      call(m, x)
      case.fail(f"the exception injected at {p} was swallowed")
    except BaseException as e:  # pylint: disable=broad-except
      if e is not exc:
        raise
      case.check(True, "same exception object")
    plan.update(at=None)
    case.event("fault")
    if depth > 1:
      case.event("nested_fault")
    if p[0] == "after" or p == ("step", len(script)):
      case.event("late")
    probe.unchanged(f"after {type(exc).__name__} at {p} under {nest}")
    probe.usable(f"after {type(exc).__name__} at {p} under {nest}")
  # the same call without a fault
  want = ref(twin, x)  # first: both were built from the same arrays
  got = call(m, x)
  case.eq(gen.fp_np(got), gen.fp_np(want), "result after the faults")
  case.eq(gen.describe(m), gen.describe(twin), "module after the faults")
  case.event("retried")
  # and a fault after a success (cached traces, other shapes)
  probe = Probe(case, m, captured)
  plan.update(at=("step", 0), exc=Odd("again"))
  try:
    call(m, jnp.stack([x, x]))
    failed = False
  except BaseException as e:  # pylint: disable=broad-except
    failed = True
    if "scan" not in nest and not any(k.startswith("grad") for k in nest):
      case.check(e is plan["exc"], "fault with another shape", got=repr(e)[:300])
  plan.update(at=None)
  if failed:
    probe.unchanged("fault after a success")
  case.check(failed, "fault in a new trace was swallowed")
  case.event("fault")
  case.sig(gen.recipe_sig(recipe), [s[:3] for s in script], nest)


class Small(nnx.Module):

  def __init__(self, k=1.0, *, ctx=None, fail=None):
    self.fail = None
    self.w = nnx.Param(jnp.asarray([k, 2.0]))
    self.n = nnx.Cache(jnp.zeros(()))
    if fail is not None:
      raise fail

  def touch(self, x):
    self.n = self.n + x
    self.w = self.w * 2.0
    self.fresh = nnx.Cache(x * 3.0)

  def __call__(self, c, x, *, ctx=None):
    self.touch(x)
    if self.fail:
      raise self.fail
    return c, x


def bad_outputs(case):
  """The body finishes; the transform has to refuse what it returned."""
  rng = case.rng
  m, captured = Small(float(rng.randint(1, 9))), Small()
  x = jnp.float32(rng.randint(1, 5))
  how = rng.choice(["jit_str", "jit_obj", "grad_vector", "grad_tuple", "grad_int", "grad_aux",
                    "remat_str", "scan_carry_shape", "scan_carry_dtype", "scan_arity",
                    "scan_lengths", "scan_carry_state", "grad_badarg", "jit_static",
                    "scan_out_axes", "jit_module"])
  probe = Probe(case, m, captured)
  xs = jnp.stack([x, x, x])

  def act(ret):
    def f(m, *a, **k):
      m.touch(x)
      return ret(m, *a)
    return f

  scan = lambda ret, **kw: nnx.scan(act(ret), **kw)(m, jnp.zeros(()), xs)
  table = {
      "jit_str": lambda: nnx.jit(act(lambda m, x: "text"))(m, x),
      "jit_obj": lambda: nnx.jit(act(lambda m, x: {"a": x, "b": object()}))(m, x),
      "grad_vector": lambda: nnx.grad(act(lambda m, x: m.w))(m, x),
      "grad_tuple": lambda: nnx.grad(act(lambda m, x: (m.w.sum(), 1)))(m, x),
      "grad_int": lambda: nnx.grad(act(lambda m, x: jnp.int32(1)))(m, x),
      "grad_aux": lambda: nnx.grad(act(lambda m, x: m.w.sum()), has_aux=True)(m, x),
      "remat_str": lambda: nnx.remat(act(lambda m, x: "text"))(m, x),
      "scan_carry_shape": lambda: scan(lambda m, c, x: (jnp.stack([c, c]), x)),
      "scan_carry_dtype": lambda: scan(lambda m, c, x: (jnp.int32(1), x)),
      "scan_arity": lambda: scan(lambda m, c, x: c),
      "scan_lengths": lambda: scan(lambda m, c, x: (c, x), length=7),
      "scan_carry_state": lambda: scan(lambda m, c, x: (setattr(m, "w", m.w[:1]), (c, x))[1]),
      "grad_badarg": lambda: nnx.grad(act(lambda m, x, y: x))(m, x),
      "jit_static": lambda: nnx.jit(act(lambda m, x, y: x), static_argnums=2)(m, x, [1]),
      "scan_out_axes": lambda: scan(lambda m, c, x: (c, x), out_axes=4),
      "jit_module": lambda: nnx.jit(act(lambda m, x: m))(m, x),
  }
  case.note(how)
  case.sample(how)
  try:
    table[how]()
    case.fail(f"{how}: nothing was raised")
  except (TypeError, ValueError, IndexError, AssertionError) as e:
    case.note(type(e).__name__, str(e)[:100])
  case.event("refused_output")
  probe.unchanged(how)
  probe.usable(how)
  nnx.jit(act(lambda m, x: x))(m, x)
  case.close(m.n, x, "the next call works")
  case.sig(how, float(x), float(m.w[0]))


def with_ctx(case):
  """A ctx passed to a failing call stays usable at its level and repeats no key."""
  rng = case.rng
  m, captured = Small(), Small()
  ctx = nnx.context(rng.randrange(100), dropout=rng.randrange(100), flags={"train": True})
  seen = []
  fresh = lambda c=ctx: seen.append(np.asarray(c.make_rng("dropout")).tobytes())
  x = jnp.float32(1.0)
  fail = {"exc": None}

  def f(m, x, *, ctx):
    m.touch(x)
    k = ctx.make_rng("dropout")
    if fail["exc"]:
      raise fail["exc"]
    return k

  calls = {
      "jit": lambda: nnx.jit(f)(m, x, ctx=ctx),
      "remat": lambda: nnx.remat(f)(m, x, ctx=ctx),
      "scan": lambda: nnx.scan(lambda m, c, x, *, ctx: (c, f(m, x, ctx=ctx)),
                               split_rngs="dropout")(
                                   m, jnp.zeros(()), jnp.stack([x, x]), ctx=ctx),
  }
  kinds_used = []
  for _ in range(rng.randint(2, 5)):
    k = rng.choice(list(calls))
    kinds_used.append(k)
    if rng.random() < 0.5:
      fresh()
    probe = Probe(case, m, captured)
    fail["exc"] = kinds(rng)
    try:
      calls[k]()
      case.fail("the exception was swallowed")
    except BaseException as e:  # pylint: disable=broad-except
      if e is not fail["exc"]:
        raise
    fail["exc"] = None
    case.event("fault")
    probe.unchanged(f"{k} with ctx")
    probe.usable(f"{k} with ctx")
    fresh()
    case.check(ctx.get_flag("train") is True and ctx.has_rng("params"), "ctx reads")
    out = calls[k]()
    out = np.asarray(out[1] if isinstance(out, tuple) else out)
    seen += [r.tobytes() for r in out.reshape(-1, out.shape[-1])]
    fork = ctx.partition().merge()
    fresh(fork)
    case.event("ctx")
  case.check(len(set(seen)) == len(seen), "a key was repeated after a failed call",
             kinds=kinds_used)
  case.sig(kinds_used, len(seen))


def constructors(case):
  """A constructor that raises under Scan, Remat, jit: nothing is left behind."""
  rng = case.rng
  exc = kinds(rng)
  ctx = nnx.context(1, dropout=2)
  captured = Small()
  holder = nnx.Dict(a=Small())
  probe = Probe(case, holder, captured)
  how = rng.choice(["scan_class", "remat_class", "scan_init", "jit_ctor", "scan_method",
                    "scan_class_call", "remat_class_call"])

  class Lifted(Small):

    @functools.partial(nnx.scan, variable_axes={nnx.Param: 0}, length=3)
    def __init__(self, *, ctx=None, fail=None):
      self.w = nnx.Param(jnp.ones((2,)))
      if fail is not None:
        raise fail

  def scan_call():
    s = nnx.Scan(Small, variable_axes={nnx.Param: 0}, length=3)(1.0)
    inner = vars(s)["scan_module"]
    inner.fail = exc
    p = Probe(case, s, captured)
    try:
      s(jnp.zeros(()), jnp.ones((3,)))
    finally:
      p.unchanged("Scan.__call__")

  def remat_call():
    s = nnx.Remat(Small)(1.0)
    vars(s)["remat_module"].fail = exc
    p = Probe(case, s, captured)
    try:
      s(jnp.zeros(()), jnp.ones(()))
    finally:
      p.unchanged("Remat.__call__")

  table = {
      "scan_class": lambda: nnx.Scan(Small, variable_axes={nnx.Param: 0}, length=3)(
          1.0, ctx=ctx, fail=exc),
      "remat_class": lambda: nnx.Remat(Small)(1.0, fail=exc),
      "scan_init": lambda: Lifted(ctx=ctx, fail=exc),
      "jit_ctor": lambda: nnx.jit(lambda m, x: Small(fail=exc))(holder, jnp.ones(())),
      "scan_method": lambda: setattr(holder, "b", Lifted(fail=exc)),
      "scan_class_call": scan_call,
      "remat_class_call": remat_call,
  }
  case.note(how, type(exc).__name__)
  case.sample((how, type(exc).__name__))
  try:
    table[how]()
    case.fail("the exception was swallowed")
  except BaseException as e:  # pylint: disable=broad-except
    if e is not exc:
      raise
  case.event("constructor")
  probe.unchanged(how)
  probe.usable(how)
  ctx.make_rng("params")
  ok = Lifted(ctx=ctx)
  case.eq(ok.w.shape, (3, 2), "construction after the failure")
  ok.w = ok.w + 1
  case.sig(how, type(exc).__name__)


FAMILIES = {
    "faults": dict(fn=faults, quick=96),
    "bad_outputs": dict(fn=bad_outputs, quick=200),
    "ctx": dict(fn=with_ctx, quick=50),
    "constructors": dict(fn=constructors, quick=120),
}
