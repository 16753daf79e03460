"""C08: modules and contexts can only be mutated at the trace level that created them."""
import copy

import jax
import jax.numpy as jnp
from jax import lax

import nnx
from nnxmon import gen

RULE = (
    "Nested trace contexts (jit, eval_shape, make_jaxpr, scan, while, cond, fori, "
    "checkpoint, nnx.jit/grad/scan/remat; depth 1-4, random order) are entered; inside, "
    "every mutating operation on modules and contexts of every outer or inner level is "
    "tried and must raise exactly when the level differs; non-trivial = distinct "
    "(context stack, operation, level)."
)
NEED = {"denied": 1500, "mixed": 50, "allowed": 600, "leaked": 150, "ctx_denied": 200, "sibling": 250,
        "attached": 800}


class Host(nnx.Module):
  """A carrier module for nnx transforms."""

  def __init__(self):
    self.w = nnx.Param(jnp.ones(()))
    self.c = nnx.Cache(jnp.zeros(()))


def in_jit(f):
  jax.jit(lambda x: (f(), x)[1])(jnp.ones(()))


def in_eval_shape(f):
  jax.eval_shape(lambda x: (f(), x)[1], jnp.ones(()))


def in_make_jaxpr(f):
  jax.make_jaxpr(lambda x: (f(), x)[1])(jnp.ones(()))


def in_scan(f):
  lax.scan(lambda c, x: (f(), (c, x))[1], jnp.ones(()), jnp.ones((2,)))


def in_while(f):
  lax.while_loop(lambda c: c < 1, lambda c: (f(), c + 1)[1], 0)


def in_cond(f):
  lax.cond(jnp.asarray(True), lambda x: (f(), x)[1], lambda x: x, jnp.ones(()))


def in_fori(f):
  lax.fori_loop(0, 2, lambda i, c: (f(), c)[1], jnp.ones(()))


def in_checkpoint(f):
  jax.checkpoint(lambda x: (f(), x)[1])(jnp.ones(()))


def in_nnx_jit(f):
  nnx.jit(lambda m, x: (f(), x * m.w)[1])(Host(), jnp.ones(()))


def in_nnx_jit_stateless(f):
  nnx.jit(lambda m, x: (f(), x)[1], stateful=False)(Host(), jnp.ones(()))


def in_nnx_grad(f):
  nnx.grad(lambda m, x: (f(), x * m.w)[1])(Host(), jnp.ones(()))


def in_nnx_scan(f):
  nnx.scan(lambda m, c, x: (f(), (c + m.w, x))[1])(Host(), jnp.ones(()), jnp.ones((2,)))


def in_nnx_remat(f):
  nnx.remat(lambda m, x: (f(), x * m.w)[1])(Host(), jnp.ones(()))


def in_scan_class(f):

  class Body(Host):

    def __call__(self, c, x, *, ctx=None):
      f()
      return c + self.w, x

  nnx.Scan(Body)()(jnp.ones(()), jnp.ones((2,)))


def in_remat_class(f):

  class Body(Host):

    def __call__(self, x):
      f()
      return x * self.w

  nnx.Remat(Body)()(jnp.ones(()))


LEVELS = [in_jit, in_eval_shape, in_make_jaxpr, in_scan, in_while, in_cond, in_fori,
          in_checkpoint, in_nnx_jit, in_nnx_jit_stateless, in_nnx_grad, in_nnx_scan,
          in_nnx_remat, in_scan_class, in_remat_class]

# these do not start a level of their own (plain jax.vmap / jax.grad / python frames)
NEUTRAL = [
    lambda f: jax.vmap(lambda x: (f(), x)[1])(jnp.ones((2,))),
    lambda f: jax.grad(lambda x: (f(), x)[1])(1.0),
    lambda f: f(),
]


def make(rng):
  sub = nnx.Dict(a=nnx.Param(jnp.asarray(1.0)), raw=jnp.asarray(2.0))
  m = gen.M0()
  m.sub = sub
  m.again = sub
  m.w = nnx.Param(jnp.asarray(3.0), tag="t")
  m.n = jnp.asarray(4.0)
  m.s = "static"
  m.t = nnx.Cache((jnp.asarray(1.0),))
  m.me = m
  return m


def ops_on(m):
  sub = vars(m)["sub"]
  leaves = m.mutable_state_dict()
  return {
      "set var": lambda: setattr(m, "w", jnp.asarray(9.0)),
      "set container": lambda: setattr(m, "w", nnx.Param(jnp.asarray(9.0), tag="t")),
      "set array": lambda: setattr(m, "n", jnp.asarray(9.0)),
      "set static": lambda: setattr(m, "s", "other"),
      "new static": lambda: setattr(m, "fresh", 1),
      "new var": lambda: setattr(m, "fresh", nnx.Param(1)),
      "new module": lambda: setattr(m, "fresh", sub),
      "same value": lambda: setattr(m, "s", m.s),
      "del var": lambda: delattr(m, "w"),
      "del static": lambda: delattr(m, "s"),
      "del sub": lambda: delattr(sub, "raw"),
      "sub attr": lambda: setattr(sub, "a", jnp.asarray(9.0)),
      "sub item": lambda: sub.__setitem__("a", jnp.asarray(9.0)),
      "sow new": lambda: m.sow(nnx.Intermediate, "sown", jnp.asarray(1.0)),
      "sow old": lambda: m.sow(nnx.Cache, "t", jnp.asarray(1.0)),
      "leaf": lambda: setattr(leaves["w"], "value", jnp.asarray(9.0)),
      "leaf variable": lambda: setattr(leaves["w"], "value", vars(m)["w"].copy()),
      "leaf sub": lambda: setattr(leaves["again/a"], "value", jnp.asarray(9.0)),
      "update_state": lambda: m.update_state(nnx.State({"again/a": jnp.asarray(9.0)})),
      "update_state pure": lambda: m.update_state(m.partition()),
      "pop": lambda: m.pop_state(nnx.Param),
      "pop sub": lambda: sub.pop_state(nnx.Param),
  }


def reads(case, m):
  """Reading and functional use is allowed at every level."""
  _ = m.w, m.n, m.s, m.sub.a, m.sub["a"]
  m.get_state()
  m.partition(nnx.Param, ...)
  m.filter(nnx.Param)
  m.get_module_def()
  c = m.clone()  # a clone belongs to the level that made it
  c.w = jnp.asarray(7.0)
  del c.n
  c.sub.a = jnp.asarray(8.0)
  case.event("allowed", 3)


@nnx.dataclass
class Holder(nnx.Module):
  item: object
  w: object = nnx.param_field(default=1.0)


def attach(rng, m):
  """A module of this level that holds `m`, and the path of `m` in it."""
  k = rng.randrange(5)
  if k == 0:
    h = make(rng)
    h.item = m
    return h, "item"
  if k == 1:
    return nnx.Dict(item=m), "item"
  if k == 2:
    return nnx.Sequence([m]), "0"
  if k == 3:
    return Holder(m), "item"
  h = nnx.Dict()
  h["item"] = nnx.Dict(deep=m)
  return h, "item/deep"


def attached(case, m, what):
  """Being part of a module of this level does not make a module one of this level."""
  h, path = attach(case.rng, m)
  for q in (h, copy.copy(h)):
    part = q
    for name in path.split("/"):
      part = vars(part)[name]
    case.check(part is m, f"{what}: an attached module is another object")
    for name, f in {
        "set": lambda: setattr(part, "w", jnp.asarray(9.0)),
        "new": lambda: setattr(part, "fresh", 1),
        "del": lambda: delattr(part, "s"),
        "update": lambda: q.update_state(nnx.State({path + "/w": jnp.asarray(9.0)})),
        "leaf": lambda: setattr(q.mutable_state_dict()[path + "/w"], "value", 9.0),
        "pop": lambda: q.pop_state(lambda p, v: p == path + "/w"),
    }.items():
      case.raises(nnx.TraceContextError, f, f"{name} on an attached {what}")
      case.event("attached")
  h.fresh = 1  # its holder can be changed


def levels(case):
  rng = case.rng
  depth = rng.choice([1, 1, 2, 2, 3, 4])
  stack = [rng.choice(LEVELS) for _ in range(depth)]
  neutral = [rng.choice(NEUTRAL) if rng.random() < 0.3 else None for _ in range(depth)]
  case.note([f.__name__ for f in stack])
  case.sample([f.__name__ for f in stack])
  made = [make(rng)]
  ctxs = [nnx.context(0, dropout=1)]
  leaked = []
  touched = []
  ops_names = list(ops_on(made[0]))
  reached = []

  def probe(level):
    """Called inside `level` contexts; made[k] was created at level k."""
    for k, m in enumerate(made):
      if k == level:
        continue
      table = ops_on(m)
      before = gen.describe(m) if k == 0 else None
      for name in rng.sample(ops_names, 7 if depth < 3 else 4):
        case.note("level", level, "object of level", k, name)
        case.raises(nnx.TraceContextError, table[name],
                    f"{name} on a module of level {k} from level {level}")
        case.event("denied")
        touched.append((level, k, name))
      if k == 0:
        case.eq(gen.describe(m), before, "a refused mutation changed the module")
      if rng.random() < 0.5:
        attached(case, m, f"module of level {k} at level {level}")
        if k == 0:
          case.eq(gen.describe(m), before, "a refused mutation of an attached module")
      reads(case, m)
    for k, c in enumerate(ctxs):
      if k == level:
        continue
      for name, f in (("make_rng", lambda: c.make_rng("params")),
                      ("make_rng 2", lambda: c.make_rng("dropout")),
                      ("partition", lambda: c.partition()),
                      ("copy", lambda: c.copy().make_rng("params")),
                      ("copy 2", lambda: c.copy().partition()),
                      ("copied by copy", lambda: copy.copy(c).make_rng("dropout"))):
        case.raises(nnx.TraceContextError, f,
                    f"Context.{name} of level {k} from level {level}")
        case.event("ctx_denied")
      case.check(c.has_rng("params") and not c.has_rng("zzz"), "has_rng reads anywhere")
    # own level: everything is allowed
    m = made[level]
    for name in rng.sample(ops_names, 3):
      fresh = make(rng)
      case.note("level", level, "own", name)
      ops_on(fresh)[name]()
      case.event("allowed")
    ctxs[level].make_rng("params")
    ctxs[level].partition().merge().make_rng("dropout")
    ctxs[level].copy().make_rng("params")
    case.event("allowed", 3)

  def enter(level):
    if level >= depth:
      return

    def body():
      reached.append(level)
      made.append(make(rng))
      ctxs.append(nnx.context(level + 10, dropout=2))
      probe(level + 1)
      enter(level + 1)
      # back from the deeper contexts: their objects are not ours
      probe_leaks(level + 1)
      if level + 1 > 0:
        leaked.append((made.pop(), ctxs.pop()))

    f = body
    if neutral[level] is not None:
      inner = f
      f = lambda: neutral[level](once(inner))
    stack[level](once(f))

  def probe_leaks(level):
    for m, c in leaked:
      table = ops_on_leaked(m)
      for name, f in table.items():
        case.raises(nnx.TraceContextError, f, f"{name} on a module leaked to level {level}")
        case.event("leaked")
      if rng.random() < 0.3:
        attached(case, m, f"leaked module at level {level}")
      case.raises(nnx.TraceContextError, lambda: c.make_rng("params"),
                  "make_rng of a leaked context")
      case.raises(nnx.TraceContextError, lambda: c.copy().make_rng("params"),
                  "make_rng of a copy of a leaked context")

  probe_neutral = rng.choice(NEUTRAL)
  probe_neutral(once(lambda: (setattr(made[0], "extra", 1), delattr(made[0], "extra"))))
  enter(0)
  case.check(bool(reached), "harness: the body ran")
  case.check(len(made) == 1, "harness: levels unwound")
  probe_leaks(0)
  # inside other traces, as deep as the ones that were left and deeper
  again = stack + [rng.choice(LEVELS)] if rng.random() < 0.5 else [
      rng.choice(LEVELS) for _ in range(depth + 1)]

  def reenter(level):
    if level > 0:
      probe_leaks(level)
      case.event("sibling")
    if level < len(again):
      again[level](once(lambda: reenter(level + 1)))

  reenter(0)
  # outside again: the outermost module works as before
  for name in rng.sample(ops_names, 4):
    fresh = make(rng)
    ops_on(fresh)[name]()
  made[0].w = jnp.asarray(11.0)
  case.check(float(made[0].w) == 11.0, "mutation after the contexts were left")
  ctxs[0].make_rng("params")
  case.sig([f.__name__ for f in stack], touched)


def ops_on_leaked(m):
  return {
      "set static": lambda: setattr(m, "s", "other"),
      "new": lambda: setattr(m, "fresh", 1),
      "del": lambda: delattr(m, "s"),
      "sub": lambda: setattr(vars(m)["sub"], "zz", 1),
  }


def once(f):
  """Some contexts trace their body more than once; probe on the first."""
  done = []

  def g():
    if not done:
      done.append(1)
      f()

  return g


def rejected_then_fine(case):
  """A transform whose body illegally mutates raises, and leaves both levels usable."""
  rng = case.rng
  outer = make(rng)
  before = gen.describe(outer)
  enter = rng.choice(LEVELS)
  name = rng.choice(list(ops_on(outer)))
  case.note(enter.__name__, name)
  case.raises(nnx.TraceContextError, lambda: enter(lambda: ops_on(outer)[name]()),
              f"{name} inside {enter.__name__}")
  case.event("denied")
  case.eq(gen.describe(outer), before, "the module changed")
  ops_on(outer)[name]()  # at its own level
  case.event("allowed")
  inside = make(rng)
  case.raises(nnx.TraceContextError, lambda: enter(lambda: ops_on(inside)[name]()),
              f"{name} inside {enter.__name__}, again")
  case.sig(enter.__name__, name)


def mixed(case):
  """Modules of this level that hold a module of another level."""
  rng = case.rng
  foreign = make(rng)
  before = gen.describe(foreign)
  enter = rng.choice(LEVELS)
  place = rng.choice(["a", "m", "zz"])  # before, between, after the own attributes
  case.note(enter.__name__, place)

  def body():
    holder = make(rng)
    holder.own = nnx.Dict(v=nnx.Param(jnp.asarray(5.0)))
    setattr(holder, place, foreign)
    if rng.random() < 0.5:
      setattr(holder.own, place, foreign)
    path = place if place == "a" or place not in vars(holder.own) else (
        place if place < "own" else "own/" + place)
    order = list(vars(holder))
    mine = gen.describe(holder)
    ops = {
        "update": lambda: holder.update_state(nnx.State({
            "again/a": jnp.asarray(8.0), "w": jnp.asarray(8.0), "b": nnx.Param(1.0),
            path + "/w": jnp.asarray(8.0), "zzz": nnx.Param(1.0)})),
        "updates": lambda: holder.update_state((
            nnx.State({"w": jnp.asarray(8.0)}), nnx.State({path + "/w": jnp.asarray(8.0)}))),
        "update whole": lambda: holder.update_state(holder.partition()),
        "pop": lambda: holder.pop_state(nnx.Param),
        "pop all": lambda: holder.pop_state(...),
    }
    for name, f in ops.items():
      case.raises(nnx.TraceContextError, f, f"{name} of a graph with a foreign module")
      case.eq(gen.describe(holder), mine, f"a refused {name} changed the own part")
      case.eq(list(vars(holder)), order, f"attribute order after a refused {name}")
      case.event("denied")
    # what touches the own part only is allowed
    v = [jnp.asarray(float(k)) for k in range(4)]
    holder.update_state(nnx.State({"again/a": v[1], "w": v[0]}))
    holder.update_state((nnx.State({"own/v": v[2]}), nnx.State({"new": nnx.Param(v[3])})))
    case.check(holder.w is v[0] and holder.sub.a is v[1] and holder.own.v is v[2]
               and holder.new is v[3], "updates of the own part")
    popped = holder.pop_state(lambda p, v: p in ("w", "own/v"))
    case.eq(sorted(popped), ["own/v", "w"], "pop of the own part")
    case.check("w" not in vars(holder) and "v" not in vars(holder.own), "popped")
    case.event("allowed", 4)
    case.event("mixed")

  enter(once(body))
  case.eq(gen.describe(foreign), before, "the foreign module")
  case.sig(enter.__name__, place)


FAMILIES = {
    "mixed": dict(fn=mixed, quick=70),
    "levels": dict(fn=levels, quick=170),
    "rejected": dict(fn=rejected_then_fine, quick=200),
}
