"""C26: a module is initializing exactly during its init calls."""
import copy

import jax.numpy as jnp

import nnx
from nnxmon import gen

RULE = (
    "Random module graphs (shared, cyclic) run random nestings of init calls (direct, by "
    "method, through attribute and item chains) whose bodies observe every known module, "
    "start inner init calls, detach, attach, create, clone and copy modules, enter nnx.jit "
    "and scan, and end normally or by an exception; the flag of every module is compared "
    "with a reference after every action, inside and after the calls; non-trivial = "
    "distinct (graph, history)."
)
NEED = {"init": 3000, "nested": 1200, "raised": 1000, "observed": 100000, "detached": 400,
        "attached": 500, "copied": 1200, "jit": 500, "definition": 600, "chain": 1000}


class Boom(Exception):
  pass


class Ini(nnx.Module):

  def run(self, fn, *args, **kwargs):
    return fn(self, *args, **kwargs)

  def __call__(self, fn, *args, **kwargs):
    return fn(self, *args, **kwargs)


class Ini2(Ini):
  pass


class Bag(nnx.Dict):

  def run(self, fn, *args, **kwargs):
    return fn(self, *args, **kwargs)

  def __call__(self, fn, *args, **kwargs):
    return fn(self, *args, **kwargs)


def subs(m):
  return [(k, v) for k, v in sorted(gen.user_vars(m).items()) if isinstance(v, nnx.Module)]


class World:
  """The real modules, and what each one's flag must be."""

  def __init__(self, case):
    self.case = case
    self.flag = {}  # id -> bool
    self.mods = []
    self.frames = []  # sets of ids that active init calls entered
    self.history = []
    self.fn = nnx.jit(lambda m: jnp.asarray([q.is_initializing for q in gen.all_modules(m)]),
                      stateful=False)

  def add(self, m, flag):
    self.mods.append(m)
    self.flag[id(m)] = flag

  def observe(self, where):
    for i, m in enumerate(self.mods):
      want = self.flag[id(m)]
      self.case.check(m.is_initializing is want,
                      f"{where}: module {i} is_initializing={m.is_initializing}, want {want}",
                      history=self.history[-12:])
    self.case.event("observed", len(self.mods))

  def may_attach(self, m):
    """Not into the middle of another init: see DESIGN (scoped out)."""
    for q in gen.all_modules(m):
      in_any = any(id(q) in f for f in self.frames)
      if in_any and not all(id(q) in f for f in self.frames):
        return False
    return True

  # -- the init call
  def init(self, m, chain, body, ends):
    """Run m.init<chain>(body) next to the reference."""
    case = self.case
    entered = gen.all_modules(m)
    before = {id(q): self.flag[id(q)] for q in entered}
    nested = self.flag[id(m)]
    proxy, target = m.init, m
    for kind, k in chain:
      proxy = getattr(proxy, k) if kind == "attr" else proxy[k]
      target = vars(target)[k]
      case.event("chain")
    if case.rng.random() < 0.6:
      proxy = proxy.run
    case.event("init")
    if nested or self.frames:
      case.event("nested")

    def inside(me, tag, *, key):
      case.check(me is target, "the method runs on the module itself")
      case.eq((tag, key), ("tag", 5), "arguments")
      for q in entered:
        self.flag[id(q)] = True
      self.frames.append({id(q) for q in entered})
      try:
        self.observe("at entry")
        body()
        self.observe("before exit")
        if ends == "raise":
          raise Boom("x")
      finally:
        self.frames.pop()
      return ("out", key)

    if ends == "raise":
      try:
        proxy(inside, "tag", key=5)
        case.fail("the exception of the body was swallowed")
      except Boom:
        case.event("raised")
    else:
      case.eq(proxy(inside, "tag", key=5), ("out", 5), "result of init")
    # the reference
    for q in entered:
      self.flag[id(q)] = before[id(q)]
    if not nested:
      for q in gen.all_modules(m):
        if id(q) not in before:
          self.flag[id(q)] = False
    self.history.append(("end", ends))
    self.observe("after init")


def rand_chain(rng, m):
  """Random attribute / item steps from m to a submodule."""
  chain = []
  while rng.random() < 0.4:
    s = [(k, v) for k, v in subs(m)]
    if not s:
      break
    k, v = rng.choice(s)
    chain.append(("item" if isinstance(m, nnx.Dict) and rng.random() < 0.7 else "attr", k))
    m = v
  return chain


def build_world(case):
  rng = case.rng
  w = World(case)
  n = rng.randint(1, 6) if rng.random() < 0.9 else rng.randint(8, 16)
  mods = []
  for _ in range(n):
    m = rng.choice([Ini, Ini, Ini2, Bag])()
    m.w = nnx.Param(jnp.zeros(()))
    m.cfg = gen.fresh()
    mods.append(m)
    w.add(m, False)
  for j in range(1, n):
    setattr(mods[rng.randrange(j)], f"s{j}", mods[j])
  for q in range(rng.randint(0, 3)):
    setattr(rng.choice(mods), f"z{q}", rng.choice(mods))
  return w


def history(case):
  rng = case.rng
  w = build_world(case)
  w.observe("new")
  budget = [rng.randint(4, 14)]

  def actions(depth):
    for _ in range(rng.randint(0, 4) if depth else budget[0]):
      if budget[0] <= 0:
        return
      budget[0] -= 1
      act(depth)

  def act(depth):
    op = rng.choice(["init"] * 5 + ["detach", "attach", "create", "clone", "copy", "definition",
                                   "jit", "unknown", "write", "apply", "pop"])
    m = rng.choice(w.mods)
    i = next(j for j, q in enumerate(w.mods) if q is m)
    w.history.append((depth, op, i))
    case.note(depth, op, i)
    if op == "init":
      if depth < 4:
        chain = rand_chain(rng, m)
        ends = rng.choice(["ok", "ok", "raise"])
        w.history.append(("chain", chain, ends))
        w.init(m, chain, lambda: actions(depth + 1), ends)
    elif op == "detach":
      s = subs(m)
      if s:
        delattr(m, rng.choice(s)[0])
        case.event("detached")
    elif op == "attach":
      other = rng.choice(w.mods)
      if w.may_attach(other):
        setattr(m, f"a{gen.fresh()}", other)
        case.event("attached")
    elif op == "create":
      new = rng.choice([Ini, Bag])()
      new.w = nnx.Param(jnp.ones(()))
      w.add(new, False)
      if rng.random() < 0.7:
        setattr(m, f"c{gen.fresh()}", new)
    elif op in ("clone", "copy"):
      if len(w.mods) > 14:
        return
      how = rng.choice(["clone", "pure", "deepcopy"]) if op == "clone" else "copy"
      if how == "copy":
        c = copy.copy(m)
        pairs = [(m, c)]
      else:
        c = (m.clone() if how == "clone" else m.partition(nnx.Param, ...).merge()
             if how == "pure" else copy.deepcopy(m))
        pairs = list(zip(gen.all_modules(m), gen.all_modules(c)))
        case.check(all(a is not b for a, b in pairs), "copies are new modules")
      for a, b in pairs:
        w.add(b, w.flag[id(a)])
      case.event("copied")
    elif op == "definition":
      d, d2 = m.get_module_def(), m.partition().moduledef
      want = [w.flag[id(q)] for q in gen.all_modules(m)]
      got = [q.is_initializing for q in gen.all_modules(d.merge(m.get_state()))]
      case.eq(got, want, "flags of a module rebuilt from the definition")
      case.check(d == d2 and hash(d) == hash(d2), "definitions of the same flags")
      if any(want) != all(want) or rng.random() < 0.3:
        other = [q for q in gen.all_modules(d.merge(m.get_state()))]
        k = rng.randrange(len(other))
        twin = other[0]
        if not want[k]:
          seen = []
          other[k].init.run(lambda me: seen.append(twin.get_module_def()))
          case.check(seen[0] != d, "definitions with different flags are equal")
      case.event("definition")
    elif op == "jit":
      got = [bool(x) for x in w.fn(m)]
      case.eq(got, [w.flag[id(q)] for q in gen.all_modules(m)], "flags seen inside nnx.jit")
      case.event("jit")
    elif op == "unknown":
      before = m.get_state()
      case.raises(AttributeError, lambda: m.init.no_such_method(1), "unknown method")
      case.raises(TypeError, lambda: m.init.run(), "wrong arguments")
      case.eq(list(before), list(m.get_state()), "state after a failing init")
    elif op == "write":
      m.w = jnp.ones(())
    elif op == "apply":
      out, new = m.apply.run(lambda me: [q.is_initializing for q in gen.all_modules(me)])
      case.eq(out, [w.flag[id(q)] for q in gen.all_modules(m)], "flags inside apply")
      case.eq([q.is_initializing for q in gen.all_modules(new)], out, "flags after apply")
    elif op == "pop":
      m.pop_state(nnx.Cache)
    w.observe(op)

  actions(0)
  # after everything: only copies made during a call may still carry the flag
  case.check(not w.frames, "harness: frames unwound")
  w.observe("end")
  case.sample(w.history)
  case.sig([type(m).__name__ for m in w.mods], w.history)


class Counter(nnx.Module):
  """The documented use: state is made only while initializing."""

  def __init__(self, n):
    self.w = nnx.Param(jnp.arange(float(n)))

  def __call__(self, x, *, ctx=None):
    if self.is_initializing:
      self.offset = nnx.Cache(jnp.zeros(()))
      return x
    self.offset = self.offset + jnp.sum(self.w)
    return x + self.offset


class Net(nnx.Module):

  def __init__(self, n, k):
    self.k = k
    self.a = Counter(n)
    self.b = nnx.Sequence([Counter(n + i) for i in range(k)])
    self.c = self.a

  def __call__(self, x, *, ctx=None):
    x = self.a(x)
    x = self.b(x)
    return self.c(x)

  def fails(self, x):
    self.a(x)
    raise Boom("late")


def usage(case):
  """Lazy initialization through init, then ordinary and transformed calls."""
  rng = case.rng
  n, k = rng.randint(1, 4), rng.randint(1, 3)
  m = Net(n, k)
  if rng.random() < 0.4:
    case.raises(Boom, lambda: m.init.fails(jnp.zeros(())), "failing init")
    case.check(not any(q.is_initializing for q in gen.all_modules(m)), "flags after failure")
    case.event("raised")
  how = rng.choice(["call", "method", "jit", "remat"])
  x = jnp.asarray(float(rng.randint(1, 5)))
  if how == "jit":
    out = m.init.__call__(x) if rng.random() < 0.5 else m.init(x)
  elif how == "remat":
    out = m.init(x)
  else:
    out = m.init(x)
  case.event("init")
  case.close(out, x, "init returns its input")
  case.check(not any(q.is_initializing for q in gen.all_modules(m)), "flags after init")
  off = {id(q): 0.0 for q in gen.all_modules(m)}
  f = {"call": lambda m, x: m(x), "method": Net.__call__, "jit": nnx.jit(lambda m, x: m(x)),
       "remat": nnx.remat(lambda m, x: m(x))}[how]
  order = [m.a] + [vars(m.b)[str(i)] for i in range(k)] + [m.a]
  for _ in range(rng.randint(1, 3)):
    want = float(x)
    for q in order:
      off[id(q)] += float(q.w.sum())
      want += off[id(q)]
    case.close(f(m, x), jnp.asarray(want), f"call {how} after init")
    for q in order:
      case.close(q.offset, jnp.asarray(off[id(q)]), "offset made by init")
    case.event("usage")
  m2 = m.clone()
  m2.init(x)
  case.close(m2.a.offset, jnp.zeros(()), "second init starts over")
  case.close(m.a.offset, jnp.asarray(off[id(m.a)]), "the original is untouched")
  case.sig("usage", n, k, how)


FAMILIES = {
    "history": dict(fn=history, quick=2400),
    "usage": dict(fn=usage, quick=100),
}
