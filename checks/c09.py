"""C09: ModuleDef equality/hash is exactly structural equality; jit caching is sound."""
import copy

import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnxmon import gen, scripts

RULE = (
    "Random module graphs (sharing, cycles, statics) are compared with a rebuilt twin "
    "(other values, other attribute order) and with one-step variants (class, static "
    "value, static name, edge target, edge name, added/removed submodule, initializing "
    "flag, node attributes): ModuleDef ==, != and hash against a canonical form of the "
    "recipe; jitted functions of (pure) modules are called on sequences of variants, "
    "their results compared with eager ones and their traces counted; non-trivial = "
    "distinct (graph, variant)."
)
NEED = {"equal": 600, "different": 600, "variant": 1500, "cache_hit": 200,
        "cache_miss": 120, "flag": 100}


def canon(recipe, initializing=()):
  """What a ModuleDef must distinguish: classes, statics, edges with sharing."""
  index = {}

  def visit(i):
    if i in index:
      return ("ref", index[i])
    index[i] = len(index)
    attrs = []
    for name in sorted(recipe[i]["attrs"]):
      s = recipe[i]["attrs"][name]
      if s[0] == "sub":
        attrs.append((name, visit(s[1])))
      elif s[0] in ("static", "staticc"):
        attrs.append((name, (s[0], s[1])))
    return (recipe[i]["cls"], tuple(attrs), i in initializing)

  return visit(0)


def namesake(cls):
  """Another class of the same name, qualified name and module."""
  if cls not in _NAMESAKES:
    _NAMESAKES[cls] = type(cls)(cls.__name__, (cls,), {
        "__module__": cls.__module__, "__qualname__": cls.__qualname__})
  return _NAMESAKES[cls]


_NAMESAKES = {}


class Cfg:
  """A static value that prints and hashes like others it is not equal to."""

  def __init__(self, v):
    self.v = v

  def __repr__(self):
    return "Cfg()"

  def __hash__(self):
    return 7

  def __eq__(self, other):
    return isinstance(other, Cfg) and self.v == other.v


def reachable(recipe):
  _, first = gen.expected_layout(recipe)
  return sorted(first)


def variant(rng, recipe):
  """A copy of the recipe after one random change (possibly without effect)."""
  r = [{"cls": n["cls"], "attrs": dict(n["attrs"])} for n in recipe]
  i = rng.choice(reachable(r))
  attrs = r[i]["attrs"]
  statics = [k for k, s in attrs.items() if s[0] in ("static", "staticc")]
  subs = [k for k, s in attrs.items() if s[0] == "sub"]
  nodes_ = [k for k, s in attrs.items() if gen.is_node_spec(s)]
  kind = rng.choice(["class", "static value", "static name", "static add", "static del",
                     "edge retarget", "edge name", "edge add", "edge del", "node add",
                     "node del", "node value", "static kind", "copy node", "swap"])
  if kind == "class":
    r[i]["cls"] = rng.choice([*gen.MODULE_CLASSES, namesake(recipe[i]["cls"]),
                              namesake(recipe[i]["cls"])])
  elif kind == "static value" and statics:
    k = rng.choice(statics)
    attrs[k] = (attrs[k][0], sibling(rng, attrs[k][1]))
  elif kind == "static kind" and statics:
    k = rng.choice(statics)
    attrs[k] = ("staticc" if attrs[k][0] == "static" else "static", attrs[k][1])
  elif kind == "static name" and statics:
    attrs[f"other{gen.fresh()}"] = attrs.pop(rng.choice(statics))
  elif kind == "static add":
    attrs[f"other{gen.fresh()}"] = ("static", hashable_static(rng))
  elif kind == "static del" and statics:
    del attrs[rng.choice(statics)]
  elif kind == "edge retarget" and subs:
    attrs[rng.choice(subs)] = ("sub", rng.randrange(len(r)))
  elif kind == "edge name" and subs:
    attrs[f"other{gen.fresh()}"] = attrs.pop(rng.choice(subs))
  elif kind == "edge add":
    attrs[f"other{gen.fresh()}"] = ("sub", rng.randrange(len(r)))
  elif kind == "edge del" and subs:
    del attrs[rng.choice(subs)]
  elif kind == "node add":
    attrs[f"other{gen.fresh()}"] = ("arr", gen.rand_array(rng))
  elif kind == "node del" and nodes_:
    del attrs[rng.choice(nodes_)]
  elif kind == "node value" and nodes_:
    attrs[rng.choice(nodes_)] = ("arr", gen.rand_array(rng))
  elif kind == "copy node" and subs:
    # a shared module becomes a private twin: the same tree, another sharing
    k = rng.choice(subs)
    j = attrs[k][1]
    r.append({"cls": r[j]["cls"], "attrs": dict(r[j]["attrs"])})
    attrs[k] = ("sub", len(r) - 1)
  elif kind == "swap" and len(subs) > 1:
    a, b = rng.sample(subs, 2)
    attrs[a], attrs[b] = attrs[b], attrs[a]
  return kind, r


def closure(k, kind=0):
  if kind == 0:
    return lambda x: x + k
  def f(x, k=k):
    return x + k
  return f


# functions of one source over different values are different statics
CLOSURES = [closure(1), closure(2), closure(3, 1), closure(4, 1), closure(1)]


def sibling(rng, value):
  """Another value, often one that only looks like the old one."""
  if callable(value) and rng.random() < 0.7:
    return rng.choice(CLOSURES)
  if "Cfg()" in repr(value) and rng.random() < 0.7:
    return (Cfg(rng.choice([1, 2])),) if isinstance(value, tuple) else Cfg(rng.choice([1, 2]))
  return hashable_static(rng)


def hashable_static(rng):
  if rng.random() < 0.12:
    return rng.choice([*CLOSURES, (CLOSURES[0],), (CLOSURES[1],)])
  if rng.random() < 0.25:
    return rng.choice([-1, -2, Cfg(1), Cfg(2), (Cfg(1), -1), (Cfg(2), -2)])
  while True:
    v = gen.rand_static(rng)
    try:
      hash(v)
    except TypeError:
      continue
    return v


def compare(case, m1, m2, same, what, hashable=True):
  for f in (lambda m: m.get_module_def(), lambda m: m.partition().moduledef,
            lambda m: m.partition(nnx.Param, ...).moduledef):
    d1, d2 = f(m1), f(m2)
    case.check((d1 == d2) is same and (d2 == d1) is same,
               f"{what}: == is {d1 == d2}, structures equal: {same}")
    case.check((d1 != d2) is (not same), f"{what}: != disagrees with ==")
    if same:
      case.check(hash(d1) == hash(d2), f"{what}: equal definitions, different hashes")
    t1 = jax.tree_util.tree_structure(d1)
    t2 = jax.tree_util.tree_structure(d2)
    if same:
      case.check(t1 == t2, f"{what}: tree structures of equal definitions differ")
  case.event("equal" if same else "different")
  case.check(len({d1, d2}) == (1 if same else 2), f"{what}: as set members")


def equality(case):
  rng = case.rng
  recipe = gen.rand_recipe(rng, hashable_static=True, share=0.5, cycle=0.4)
  if rng.random() < 0.4:
    recipe[0]["attrs"]["fn"] = ("static", rng.choice(CLOSURES))
  if rng.random() < 0.4:
    recipe[0]["attrs"]["cfg"] = ("static", rng.choice([Cfg(1), (Cfg(2),)]))
  case.note(gen.recipe_str(recipe))
  m = gen.build(recipe, rng)[0]
  twin_recipe = [
      {"cls": n["cls"], "attrs": {
          k: (("arr", gen.rand_array(rng)) if gen.is_node_spec(s) and rng.random() < 0.5
              else s) for k, s in n["attrs"].items()}} for n in recipe]
  twin = gen.build(twin_recipe, rng)[0]
  compare(case, m, twin, True, "twin with other values")
  compare(case, m, m.clone(), True, "clone")
  compare(case, m, copy.deepcopy(m), True, "deepcopy")
  d = m.get_module_def()
  case.check(d == d and not d == None and not d == 1 and d != "x",  # noqa
             "comparison with other types")
  case.check(d == m.partition().moduledef, "the definition is stable")
  base = canon(recipe)
  kinds = []
  for _ in range(6):
    r = recipe
    for _ in range(rng.choice([1, 1, 1, 2])):
      kind, r = variant(rng, r)
      kinds.append(kind)
    case.note("variant", kind, gen.recipe_str(r))
    v = gen.build(r, rng)[0]
    compare(case, m, v, canon(r) == base, f"variant {kind}")
    case.event("variant")
  case.sample((gen.recipe_str(recipe), kinds))
  case.sig(gen.recipe_sig(recipe), kinds)


class Flagged(scripts.Scripted):
  seen = None

  def record(self, fn):
    return fn(self)


def flags(case):
  """The definition records which modules are initializing."""
  rng = case.rng
  recipe = scripts.rand_scripted(rng, 4, classes=(Flagged,))
  m = gen.build(recipe, rng)[0]
  other = gen.build(recipe, rng)[0]
  plain = m.get_module_def()
  mods = gen.all_modules(m)
  target = rng.choice(mods)
  inside = []

  def look(_):
    inside.append(m.get_module_def())
    pure = m.partition()
    inside.append(pure.merge().get_module_def())
    inside.append([q.is_initializing for q in gen.all_modules(pure.merge())])
    inside.append([q.is_initializing for q in mods])

  target.init.record(look)
  sub = {id(q) for q in gen.all_modules(target)}
  want = [id(q) in sub for q in mods]
  case.eq(inside[3], want, "initializing modules")
  case.eq(inside[2], want, "initializing modules of the merged copy")
  case.check(inside[0] != plain and plain != inside[0],
             "a definition taken during init equals one taken outside")
  case.check(inside[0] == inside[1] and hash(inside[0]) == hash(inside[1]),
             "definition of the merged copy")
  case.check(m.get_module_def() == plain, "the definition after init")
  inside2 = []
  target2 = gen.all_modules(other)[mods.index(target)]
  target2.init.record(lambda _: inside2.append(other.get_module_def()))
  case.check(inside2[0] == inside[0] and hash(inside2[0]) == hash(inside[0]),
             "twins initializing at the same place")
  case.event("flag")
  case.sig(gen.recipe_sig(recipe), mods.index(target))


class Net(nnx.Module):
  """Result depends on statics, on values and on sharing."""

  def __init__(self, cfg, val):
    self.cfg = cfg
    self.w = nnx.Param(jnp.asarray(val, jnp.float32))

  def __call__(self, x):
    if callable(self.cfg):
      return self.call(x, self.cfg(self.w * x))
    return self.call(x, self.w * x + float(len(repr(self.cfg))))

  def call(self, x, y):
    if isinstance(self.cfg, (int, float)):
      y = y + self.cfg
    elif isinstance(self.cfg, Cfg):
      y = y + self.cfg.v
    for name in sorted(vars(self)):
      v = vars(self)[name]
      if isinstance(v, Net) and name.startswith("s"):
        y = y + 3.0 * v(x)
      if name.startswith("h") and isinstance(v, Net):
        v.w = v.w + 1.0  # visible through every alias
    for name in sorted(vars(self)):
      v = vars(self)[name]
      if isinstance(v, Net):
        y = y + v.w
    if self.is_initializing:
      y = y + 1000.0
    return y


class Net2(Net):

  def __call__(self, x):
    return super().__call__(x) * 2.0


Double = Net2


class Net2(Net):  # pylint: disable=function-redefined

  def __call__(self, x):
    return super().__call__(x) * 5.0


CFGS = [1, 2, -1, -2, 2.5, "a", "abc", None, (1, 2), Cfg(3), Cfg(4), *CLOSURES[:3]]  # no two of them are ==


def rand_net(rng):
  """(key, build): nets with equal keys have the same structure."""
  n = rng.randint(1, 4)
  spec = [(rng.choice([Net, Net, Net2, Double]), rng.choice(CFGS)) for _ in range(n)]
  edges = [(rng.randrange(j), f"s{j}", j) for j in range(1, n)]
  for q in range(rng.randint(0, 2)):
    edges.append((rng.randrange(n), f"h{q}", rng.randrange(n)))
  shapes = [rng.choice([(), (2,)]) for _ in range(n)]
  key = (tuple(spec), tuple(sorted(edges)), tuple(shapes))

  def build():
    nets = [c(cfg, np.full(s, rng.randint(1, 9), np.float32))
            for (c, cfg), s in zip(spec, shapes)]
    order = list(edges)
    rng.shuffle(order)
    for i, name, j in order:
      setattr(nets[i], name, nets[j])
    return nets[0]

  return key, build


def one_change(rng, key):
  spec, edges, shapes = map(list, key)
  kind = rng.choice(["cfg", "cls", "edge", "shape", "rename"])
  i = rng.randrange(len(spec))
  if kind == "cfg":
    spec[i] = (spec[i][0], rng.choice(CLOSURES[:3] if callable(spec[i][1]) and rng.random() < 0.7
                                        else CFGS))
  elif kind == "cls":
    spec[i] = (rng.choice([Net, Net2, Double]), spec[i][1])
  elif kind == "shape":
    shapes[i] = rng.choice([(), (2,)])
  elif kind == "edge":
    edges = [e for e in edges if not e[1].startswith("h")]
    edges.append((rng.randrange(len(spec)), "h0", rng.randrange(len(spec))))
  else:
    edges = [(a, n.replace("h", "hh"), b) for a, n, b in edges]
  key = (tuple(spec), tuple(sorted(edges)), tuple(shapes))

  def build():
    nets = [c(cfg, np.full(s, rng.randint(1, 9), np.float32))
            for (c, cfg), s in zip(spec, shapes)]
    for a, name, b in edges:
      setattr(nets[a], name, nets[b])
    return nets[0]

  return key, build


def net_canon(key):
  """Structure from the description: numbering by first visit."""
  spec, edges, shapes = key
  out, index = [], {}

  def visit(i):
    if i in index:
      return index[i]
    index[i] = len(index)
    kids = tuple((n, visit(b)) for a, n, b in sorted(edges, key=lambda e: e[1]) if a == i)
    out.append((index[i], spec[i], shapes[i], kids))
    return index[i]

  visit(0)
  return tuple(sorted(out, key=lambda t: t[0]))


def caching(case):
  """One jitted function over a history of modules: right results, no stale traces, no
  needless retraces."""
  rng = case.rng
  kind = rng.choice(["jax.jit", "nnx.jit", "static"])
  traces = []

  def f(m, x):
    traces.append(1)
    return m(x)

  if kind == "jax.jit":
    jf = jax.jit(lambda pure, x: f(pure.merge(), x))
    run = lambda m, x: jf(m.partition(), x)
  elif kind == "nnx.jit":
    jf = nnx.jit(f, stateful=rng.random() < 0.5)
    run = lambda m, x: jf(m, x)
  else:
    jf = jax.jit(lambda state, moduledef, x: f(moduledef.merge(state), x),
                 static_argnums=1)
    run = lambda m, x: jf(*m.partition(), x)
  pool = [rand_net(rng)]
  pool.append(one_change(rng, pool[0][0]))
  pool.append(one_change(rng, pool[0][0]))
  if rng.random() < 0.5:
    pool.append(one_change(rng, pool[1][0]))
  seen = []
  for step in range(rng.randint(5, 8)):
    key, build = rng.choice(pool)
    m = build()
    x = jnp.asarray(float(rng.randint(1, 5)), jnp.float32)
    ref = m.clone()
    want = ref(x)
    n = len(traces)
    case.note(step, kind, key)
    got = run(m, x)
    case.close(got, want, "result of the jitted module")
    c = net_canon(key)
    if c in seen:
      case.check(len(traces) == n, "the same structure was traced again")
      case.event("cache_hit")
    else:
      case.check(len(traces) == n + 1, "a new structure was not traced")
      case.event("cache_miss")
      seen.append(c)
  case.sig(kind, [p[0] for p in pool])


FAMILIES = {
    "equality": dict(fn=equality, quick=600),
    "flags": dict(fn=flags, quick=200),
    "caching": dict(fn=caching, quick=120),
}
