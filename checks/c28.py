"""C28: printing is total, faithful and free of side effects."""
import copy
import re
import threading

import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnxmon import gen

RULE = (
    "Random module graphs (shared, cyclic, deep, diamond chains, modules inside lists and "
    "dicts, parts whose __repr__ runs a callback or fails at the k-th call) and everything "
    "derived from them (State, definition, pure module, variables, Pytrees, mutable leaves) "
    "are printed; the text, without whitespace, is compared with an independent rendering "
    "and exactly with earlier printings; non-trivial = distinct (graph, printed text)."
)
NEED = {"printed": 6000, "faulted": 700, "reentrant": 300, "threaded": 300, "traced": 70,
        "shared": 60, "twin": 500, "unchanged": 1700}


class Part:
  """A static whose repr is observable, interruptible and otherwise constant."""
  hook = None

  def __init__(self, tag):
    self.tag = tag

  def __repr__(self):
    h = Part.hook
    if h is not None:
      h(self)
    return f"<part {self.tag}>"

  def __eq__(self, other):
    return isinstance(other, Part) and self.tag == other.tag

  def __hash__(self):
    return hash(self.tag)


class hooked:

  def __init__(self, fn):
    self.fn = fn

  def __enter__(self):
    Part.hook = staticmethod(self.fn)

  def __exit__(self, *a):
    Part.hook = None


def squash(text):
  """Whitespace is layout; the rest is content. Internal fields of a Pytree are not."""
  text = re.sub(r"_pytree__\w+=\[[^\]]*\],\s*", "", text)
  text = re.sub(r",?\s*_pytree__\w+=\[[^\]]*\]", "", text)
  return re.sub(r"\s+", "", text)


# ------------------------------------------------------------ the reference


def ref(v, seen=None, active=()):
  """What printing `v` must show, up to whitespace. `seen`: the modules shown so far by
  the outermost module being printed; `active`: the builtin containers being printed."""

  def sub(a):
    return ref(a, seen, active)

  if isinstance(v, nnx.Module):
    name = type(v).__name__
    seen = set() if seen is None else seen
    if id(v) in seen:
      return f"{name}(...)"
    seen.add(id(v))
    return f"{name}(" + ",".join(
        f"{k}={a if isinstance(a, str) else sub(a)}" for k, a in vars(v).items()
        if isinstance(a, nnx.Module) or not (is_node(a) or k.startswith("_"))) + ")"
  if isinstance(v, nnx.Container):
    return f"{type(v).__name__}(" + ",".join(
        f"{k}={sub(a)}" for k, a in vars(v).items()) + ")"
  if isinstance(v, nnx.State):
    return "State({" + ",".join(
        f"{k!r}:{a if isinstance(a, str) else sub(a)}" for k, a in v.items()) + "})"
  if isinstance(v, nnx.ModuleDef):
    subs = ",".join(f"({k!r},{sub(s)})" for k, s in v.submodules)
    return (f"ModuleDef(type={v.type.__name__},index={v.index},submodules=({subs}),"
            f"static_fields={sub(v.static_fields)})")
  if isinstance(v, nnx.Pytree):
    return f"{type(v).__name__}(" + ",".join(
        f"{k}={sub(a)}" for k, a in vars(v).items() if not k.startswith("_pytree__")) + ")"
  if isinstance(v, tuple) and hasattr(v, "_fields"):
    return f"{type(v).__name__}(" + ",".join(
        f"{k}={sub(a)}" for k, a in zip(v._fields, v)) + ")"
  if isinstance(v, nnx.Pure) or type(v) in (tuple, list, dict):
    o, c = "()" if isinstance(v, tuple) else "[]" if isinstance(v, list) else "{}"
    if id(v) in active:  # Python's own abbreviation of recursive builtins
      return f"{o}...{c}"
    active = active + (id(v),)
    if isinstance(v, dict):
      inner = ",".join(f"{ref(k, seen, active)}:{ref(a, seen, active)}"
                       for k, a in v.items())
    else:
      inner = ",".join(ref(a, seen, active) for a in v)
    if isinstance(v, tuple) and len(v) == 1:
      inner += ","
    return o + inner + c
  return repr(v)


def snapshot(root):
  """Every attribute object of every module, by identity, and the contents of the nodes."""
  return [(id(m), type(m), [(k, id(v), gen.fp(v) if is_node(v) else None)
                            for k, v in vars(m).items()]) for m in gen.all_modules(root)]


def is_node(a):
  if isinstance(a, (jax.Array, np.ndarray, nnx.State, nnx.Pytree, gen.CustomNode)):
    return True
  return isinstance(a, nnx.Container) and not isinstance(a, nnx.Static)


def show(case, v, where):
  """Print `v` and compare with the reference; returns the exact text."""
  text = repr(v)
  case.event("printed")
  case.check(isinstance(text, str), f"{where}: repr is a string")
  got, want = squash(text), re.sub(r"\s+", "", ref(v))
  case.check(got == want, f"{where}: the text is not what the object says",
             text=text[:900], got=got[:700], want=want[:700])
  if type(v).__module__.split(".")[0] not in ("jaxlib", "jax", "numpy"):
    case.eq(str(v), text, f"{where}: str and repr")
    case.eq(f"{v}", text, f"{where}: format")
  return text


# ------------------------------------------------------------ subjects


def rand_graph(case):
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=8, max_attrs=5)
  mods = gen.build(recipe, rng)
  for m in mods:
    for _ in range(rng.randint(0, 2)):
      setattr(m, f"part{gen.fresh()}", Part(gen.fresh()))
    r = rng.random()
    if r < 0.12:
      setattr(m, f"many{gen.fresh()}", [rng.choice(mods) for _ in range(rng.randint(0, 3))])
    elif r < 0.2:
      setattr(m, f"many{gen.fresh()}", {"k": rng.choice(mods), 2: Part(gen.fresh())})
    elif r < 0.28:
      setattr(m, f"many{gen.fresh()}", (rng.choice(mods), "text", None))
    elif r < 0.34:
      setattr(m, f"held{gen.fresh()}", nnx.Static(Part(gen.fresh())))
    elif r < 0.40:
      setattr(m, f"text{gen.fresh()}", rng.choice(["", "two\nlines", "a=b, (c)", "..."]))
  return recipe, mods


def derived(case, root):
  """Everything that printing is promised for, with a label."""
  rng = case.rng
  out = [("module", root), ("state", root.get_state()), ("definition", root.get_module_def()),
         ("pure", root.partition()), ("pure2", root.partition(nnx.Param, ...)),
         ("filtered", root.filter(nnx.Variable))]
  for m in gen.all_modules(root):
    for k, a in gen.user_vars(m).items():
      if is_node(a) or isinstance(a, nnx.Static):
        out.append((f"attribute {k}", a))
  head, tail = out[:6], out[6:]
  rng.shuffle(tail)
  return head + tail[:6]


def family_text(case):
  """The text of a graph and of all it gives, printing twice, nothing changes."""
  recipe, mods = rand_graph(case)
  root = case.rng.choice(mods)
  mods = gen.all_modules(root)
  case.note(gen.recipe_str(recipe))
  before = snapshot(root)
  hashes = [hash(m) for m in mods]
  texts = []
  subjects = derived(case, root)
  for label, v in subjects:
    texts.append(show(case, v, label))
  case.sig(texts[0])
  for (label, v), t in zip(subjects, texts):
    case.eq(repr(v), t, f"{label}: printed again")
  case.check(snapshot(root) == before, "printing changed the module")
  case.eq([hash(m) for m in mods], hashes, "identities after printing")
  case.event("unchanged", len(subjects))
  # every module is shown in full exactly once, the others as `Type(...)`
  edges = sum(1 for m in mods for a in gen.user_vars(m).values() if isinstance(a, nnx.Module))
  if edges > len(mods) - 1:
    case.event("shared")
  # mutable leaves
  for path, leaf in root.mutable_state_dict().items():
    t = repr(leaf)
    case.event("printed")
    case.check(path.split("/")[-1] in t, "a mutable leaf names its attribute", text=t)
    case.check(squash(repr(leaf.value)) in squash(t), "a mutable leaf shows its value", text=t)
  case.check(snapshot(root) == before, "printing leaves changed the module")


def family_twin(case):
  """The same structure prints the same text: copies, clones, rebuilt definitions."""
  rng = case.rng
  recipe, mods = rand_graph(case)
  root = mods[0]
  case.note(gen.recipe_str(recipe))
  t = show(case, root, "module")
  shallow = copy.copy(root)
  pure = root.partition()
  twins = [("clone", root.clone()), ("merge", pure.merge())]
  for label, v in twins:
    show(case, v, label)
    case.eq(sorted(re.findall(r"\w+", repr(v))),
            sorted(re.findall(r"\w+", repr(root.clone()))), f"{label}: words")
    case.event("twin")
  again = root.clone()
  case.eq(repr(again), repr(twins[0][1]), "two clones print the same")
  edges = [v for m in gen.all_modules(root) for v in gen.user_vars(m).values()]
  if "many" not in t and not any(v is root for v in edges):
    case.eq(repr(shallow), t, "a shallow copy prints the same")
  # definitions and states of equal modules print the same
  case.eq(repr(twins[0][1].get_module_def()), repr(pure.moduledef), "definition of the clone")
  case.eq(repr(twins[0][1].get_state()), repr(pure.states), "state of the clone")
  leaves, treedef = jax.tree_util.tree_flatten(pure)
  back = jax.tree_util.tree_unflatten(treedef, leaves)
  show(case, back, "pure module through flatten/unflatten")
  case.sig(t)
  if rng.random() < 0.5:
    # an edit shows
    mods[0].zz_new = Part("edit")
    case.check("<part edit>" in repr(root), "a new attribute is printed")
    show(case, root, "edited")
    del mods[0].zz_new
    case.eq(repr(root), t, "after the edit was undone")


class Boom(Exception):
  pass


class Abort(BaseException):
  pass


def family_fault(case):
  """A part fails to print: the same exception comes out and later printing is right,
  also while the exception is being handled."""
  rng = case.rng
  recipe, mods = rand_graph(case)
  root = mods[0]
  if not any(isinstance(a, Part) for m in mods for a in gen.user_vars(m).values()):
    rng.choice(mods).part = Part(gen.fresh())
  case.note(gen.recipe_str(recipe))
  subjects = [("module", root), ("definition", root.get_module_def()),
              ("pure", root.partition()), ("submodule", rng.choice(mods))]
  good = {label: show(case, v, label) for label, v in subjects}
  other = [("state", root.get_state()), ("param", nnx.Param(jnp.ones(2), tag=Part("m"))),
           ("pytree", gen.PT(1.0, jnp.zeros(2), Part("s")))]
  good.update({label: show(case, v, label) for label, v in other})
  case.sig(good["module"])

  calls = [0]

  def count(_):
    calls[0] += 1

  for label, v in subjects + other[1:]:
    calls[0] = 0
    with hooked(count):
      case.eq(repr(v), good[label], "with a counting hook")
    total = calls[0]
    for k in sorted(rng.sample(range(total), min(total, 4))):
      exc = rng.choice([Boom("x"), KeyError("k"), StopIteration(), Abort("stop"),
                        RecursionError("r"), ValueError()])
      left = [k]

      def fail(_):
        if left[0] == 0:
          left[0] -= 1
          raise exc
        left[0] -= 1

      case.note("fault in", label, "at", k, type(exc).__name__)
      alive = None
      try:
        with hooked(fail):
          repr(v)
        case.fail("the exception of a part was swallowed", label=label)
      except BaseException as e:  # pylint: disable=broad-except
        if isinstance(e, (KeyboardInterrupt, SystemExit)) or type(e).__name__ in (
            "Violation", "CaseTimeout"):
          raise
        case.event("faulted")
        if isinstance(exc, StopIteration) and isinstance(e, RuntimeError):
          case.event("stop-iteration")
        else:
          case.check(e is exc, f"{label}: a different exception came out", got=repr(e)[:200])
        alive = e
        for lab, w in subjects + other:
          case.eq(repr(w), good[lab], f"{lab} printed while the failure of {label} is handled")
          case.event("printed")
      for lab, w in subjects + other:
        case.eq(repr(w), good[lab], f"{lab} printed after the failure of {label}")
      del alive


def family_reentrant(case):
  """Printing from inside printing (same thread: terminates; other thread: unaffected)."""
  rng = case.rng
  recipe, mods = rand_graph(case)
  root = mods[0]
  rng.choice(mods).part = Part(gen.fresh())
  case.note(gen.recipe_str(recipe))
  subjects = [("module", root), ("definition", root.get_module_def()),
              ("submodule", rng.choice(mods)), ("param", nnx.Param(jnp.ones(2)))]
  good = {label: show(case, v, label) for label, v in subjects}
  case.sig(good["module"])
  inner = [0]
  got = []

  def other_thread(_):
    if inner[0]:
      return
    inner[0] = 1

    def work():
      inner_texts = []
      for label, v in subjects:
        inner_texts.append((label, repr(v)))
      got.append(inner_texts)

    t = threading.Thread(target=work)
    t.start()
    t.join()
    inner[0] = 0

  for label, v in subjects:
    del got[:]
    with hooked(other_thread):
      text = repr(v)
    case.eq(text, good[label], f"{label}: printed while another thread printed")
    for texts in got:
      for lab, t in texts:
        case.eq(t, good[lab], f"{lab}: printed by another thread in the middle")
        case.event("threaded")

  # same thread: whatever the inner text abbreviates, it ends, and the outer and all
  # later texts are complete
  outside = [gen.M0()]
  outside[0].tag = "outer"

  def same_thread(_):
    if inner[0]:
      return
    inner[0] = 1
    case.check("outer" in repr(outside[0]) or "..." in repr(outside[0]), "nested printing")
    if related[0]:
      repr(subjects[1][1])
    case.event("reentrant")
    inner[0] = 0

  related = [False]
  for label, v in subjects:
    for related[0] in (False, True):
      with hooked(same_thread):
        text = repr(v)
      # a nested printing of the same modules counts as a visit: only its end is promised
      if not related[0]:
        case.eq(text, good[label], f"{label}: printed around a nested printing")
      case.eq(repr(v), good[label], f"{label}: after a nested printing")


def family_traced(case):
  """Inside transforms: modules and definitions print the same, states show tracers."""
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=5, max_attrs=4, hashable_static=True,
                           jax_only=True)
  mods = gen.build(recipe, rng)
  root = mods[0]
  root.part = Part(gen.fresh())
  case.note(gen.recipe_str(recipe))
  pure = root.partition()
  want_def = repr(pure.moduledef)
  want = repr(pure.merge())
  case.sig(want)
  seen = []

  def body(state, x):
    m = pure.moduledef.merge(state)
    seen.append((repr(m), repr(m.get_module_def())))
    text = repr(state)
    for path in state:
      case.check(repr(path) in text, "a traced state names its paths", text=text[:500])
    repr(m.partition())
    for leaf in m.mutable_state_dict().values():
      repr(leaf)
    return state, x + 1

  kind = rng.choice(["jit", "vmap", "scan", "grad"])
  state = jax.tree_util.tree_map(jnp.asarray, pure.states)
  if kind == "jit":
    jax.jit(body)(state, 1.0)
  elif kind == "vmap":
    jax.vmap(body, in_axes=(None, 0), out_axes=(None, 0))(state, jnp.ones(2))
  elif kind == "scan":
    jax.lax.scan(body, state, jnp.ones(3))
  else:
    jax.grad(lambda x: body(state, x)[1])(1.0)
  case.check(len(seen) >= 1, "the body ran")
  for m, d in seen:
    case.eq(m, want, f"module printed inside {kind}")
    case.eq(d, want_def, f"definition printed inside {kind}")
    case.event("traced")
  case.eq(repr(pure.merge()), want, "afterwards")
  case.eq(repr(pure.moduledef), want_def, "afterwards")
  if rng.random() < 0.4:
    # the library's own transforms
    got = []

    @nnx.jit
    def step(m):
      got.append(repr(m))
      return 0

    step(root)
    case.eq(squash(got[0]), squash(repr(root.clone())), "inside nnx.jit")
    show(case, root, "after nnx.jit")


def family_shapes(case):
  """Deep chains, diamonds (exponentially many paths), wide modules, the library's own."""
  rng = case.rng
  r = case.index % 5
  if r == 0:
    depth = rng.randint(20, 60)
    root = m = gen.M0()
    for i in range(depth):
      m.next = rng.choice(gen.MODULE_CLASSES)()
      m.n = i
      m = m.next
    if rng.random() < 0.5:
      m.back = root
  elif r == 1:
    depth = rng.randint(20, 40)
    root = m = gen.M0()
    for _ in range(depth):
      nxt = gen.M2()
      m.left, m.right = gen.M1(), gen.M1()
      m.left.to = m.right.to = nxt
      m = nxt
    m.part = Part("end")
  elif r == 2:
    root = gen.M0()
    for i in range(rng.randint(30, 80)):
      setattr(root, f"a{i}", make_any(case, rng, root))
  elif r == 3:
    ctx = nnx.context(rng.randint(0, 9))
    root = nnx.Sequence([
        nnx.Linear(2, 3, ctx=ctx), nnx.BatchNorm(3, ctx=ctx),
        nnx.Sequence([nnx.Embed(3, 2, ctx=ctx), nnx.Sequence([])]),
        nnx.Dict(a=nnx.Param(jnp.ones(1)), b=nnx.Linear(1, 1, ctx=ctx)),
        nnx.LayerNorm(3, ctx=ctx) if hasattr(nnx, "LayerNorm") else nnx.Dict(),
    ])
  else:
    n = rng.randint(2, 6)
    mods = [rng.choice(gen.MODULE_CLASSES)() for _ in range(n)]
    for m in mods:
      for j, o in enumerate(mods):
        setattr(m, f"to{j}", o)  # the complete graph, self loops included
    root = rng.choice(mods)
  before = snapshot(root)
  for label, v in derived(case, root):
    t = show(case, v, label)
  case.sig(repr(root))
  # each module is printed in full exactly once
  text = repr(root)
  case.check(text.count("(...)") == sum(
      isinstance(a, nnx.Module) for m in gen.all_modules(root)
      for a in gen.user_vars(m).values()) - (len(gen.all_modules(root)) - 1),
      "abbreviated exactly the repeated visits", text=text[:600])
  case.event("shared")
  case.check(snapshot(root) == before, "printing changed the module")
  case.event("unchanged")
  del t


def make_any(case, rng, root):
  r = rng.randint(0, 5)
  if r == 0:
    return gen.make_value(gen.rand_attr(rng))
  if r == 1:
    return Part(gen.fresh())
  if r == 2:
    return gen.M2()
  if r == 3:
    return root
  return gen.rand_static(rng)


def family_misc(case):
  """Containers with random metadata, Pytrees, states with odd values, contexts,
  filters, transforms and proxies: printing ends, names the parts, changes nothing."""
  rng = case.rng
  for _ in range(4):
    md = gen.rand_metadata(rng)
    md["extra"] = rng.choice([Part(gen.fresh()), "text", None, nnx.Static(3), {"a": 1}])
    v = rng.choice(gen.VAR_TYPES)(gen.rand_value(rng), **md)
    fpv = gen.fp(v)
    t = show(case, v, "variable")
    case.check(all(k in t for k in md), "metadata keys", text=t)
    case.check(gen.fp(v) == fpv, "printing changed a variable")
    case.eq(repr(v.copy()), t, "copy of a variable")
    case.event("twin")
    case.sig(t)
    w = v.replace(value=gen.rand_value(rng))
    show(case, w, "replaced variable")
  p = rng.choice([
      lambda: gen.PT(gen.rand_array(rng), gen.rand_array(rng, kind="f1"), "s"),
      lambda: gen.PTM(gen.rand_array(rng), Part(gen.fresh())),
      lambda: gen.PT({"k": 1.0}, gen.rand_array(rng, kind="f1"), gen.PT(1, 2., None)),
  ])()
  t = show(case, p, "pytree")
  leaves, td = jax.tree_util.tree_flatten(p)
  case.eq(squash(repr(jax.tree_util.tree_unflatten(td, leaves))), squash(t),
          "pytree through flatten/unflatten")
  s = nnx.State({k: rng.choice([gen.rand_value(rng), "text", Part(1), p])
                 for k in rng.sample(gen.NAMES, 4)})
  show(case, s, "state")
  show(case, jax.tree_util.tree_map(lambda x: x, s), "mapped state")

  # objects that only promise to end, say something and change nothing
  seeds = dict(params=rng.randint(0, 99), dropout=rng.randint(0, 99))
  ctx, twin = (nnx.context(**seeds, flags=dict(train=True)) for _ in range(2))
  m = gen.M2()
  things = [ctx, twin.partition(), ctx.partition(), m.apply, m.init, m.partition().call,
            nnx.jit(lambda m: m), nnx.grad(lambda m: m), nnx.All(nnx.Param, ...),
            nnx.Not(nnx.Param)]
  for k, v in vars(m).items():  # what the library keeps in a module
    if k not in gen.user_vars(m):
      things += [v] + [getattr(v, a) for a in ("trace_state", "id") if hasattr(v, a)]
  for o in things:
    case.check(len(repr(o)) > 0, "something is printed")
    case.eq(repr(o), repr(o), "printing is repeatable")
    case.event("printed")
  for name in ("params", "dropout"):
    a, b = ctx.make_rng(name), twin.make_rng(name)
    case.check(bool(np.array_equal(np.asarray(a), np.asarray(b))),
               "printing a context advanced a stream")
  case.event("unchanged")


FAMILIES = {
    "text": dict(fn=family_text, quick=260),
    "twin": dict(fn=family_twin, quick=160),
    "fault": dict(fn=family_fault, quick=80),
    "reentrant": dict(fn=family_reentrant, quick=80),
    "traced": dict(fn=family_traced, quick=140),
    "shapes": dict(fn=family_shapes, quick=60),
    "misc": dict(fn=family_misc, quick=100),
}
