"""Abstract module graphs ("recipes"), their construction through the public API, and
what the library must report about them, computed from the recipe alone.

A recipe is a list of module nodes; node 0 is the root:
   {"cls": <key in CLASSES>, "attrs": {name: spec}}
   spec = ("sub", j)                      edge to module j (sharing, cycles, self loops)
        | ("var", Type, value, metadata)  a Variable / Node container
        | ("arr", array)                  raw jax / numpy array
        | ("ptree", kind, payload)        Pytree instance / State / TreeNode / custom node
        | ("static", value)               plain static attribute
        | ("staticc", value)              nnx.Static container
"""
import collections
import typing as tp

import jax
import jax.numpy as jnp
import numpy as np

import nnx

# ---------------------------------------------------------------- classes


class M0(nnx.Module):
  pass


class M1(nnx.Module):

  def __init__(self, *args):
    self.created_by_init = len(args)
    del self.created_by_init


class M2(M0):
  class_level = "constant"

  def __call__(self, x):
    return x


class M3(nnx.Module):
  """A module with a property and a method, to catch code that calls them."""

  @property
  def boom(self):
    raise AssertionError("a property of the user's class was evaluated")


class M4(nnx.Module):
  """A class with defaults for attributes that its modules may set."""
  a = None
  w = 0
  b = False
  kernel = ("default",)
  x1 = 1.0


CLASS_DEFAULTS = {n: v for n, v in vars(M4).items() if n in ("a", "w", "b", "kernel", "x1")}

MODULE_CLASSES = [M0, M1, M2, M3, M4, nnx.Dict]


class Extra(nnx.Variable):
  pass


class SubParam(nnx.Param):
  pass


class MyNode(nnx.Node):
  pass


VAR_TYPES = [
    nnx.Param, nnx.BatchStat, nnx.Cache, nnx.Intermediate, nnx.Variable, Extra,
    SubParam,
]
PLAIN_NODES = [nnx.Node, MyNode]


class PT(nnx.Pytree):

  def __init__(self, a, b, s):
    self.a = nnx.TreeNode(a)
    self.b = jnp.asarray(b)
    self.s = s


class PTM(nnx.Pytree, mutable=True):

  def __init__(self, a, s):
    self.a = nnx.Param(a)
    self.s = s


class CustomNode:
  """Registered with nnx.register_node_type; not a jax pytree."""

  def __init__(self, payload):
    self.payload = payload

  def __eq__(self, other):
    return isinstance(other, CustomNode) and self.payload == other.payload

  def __hash__(self):
    return hash(self.payload)


nnx.register_node_type(CustomNode)

NT = collections.namedtuple("NT", ["u", "v"])


def _fn_static(x):
  return x


# ---------------------------------------------------------------- values

_COUNTER = [0]


def fresh():
  """A number no other value of the process has."""
  _COUNTER[0] += 1
  return _COUNTER[0]


def reset_fresh():
  _COUNTER[0] = 0


def rand_array(rng, *, kind=None):
  u = fresh()
  kind = kind or rng.choice(["f0", "f1", "f2", "i0", "i1", "np", "b1", "e"])
  if kind == "f0":
    return jnp.asarray(np.float32(u + 0.5))
  if kind == "f1":
    return jnp.asarray(np.arange(3, dtype=np.float32) + u)
  if kind == "f2":
    return jnp.asarray(np.arange(6, dtype=np.float32).reshape(2, 3) + u)
  if kind == "i0":
    return jnp.asarray(np.int32(u))
  if kind == "i1":
    return jnp.asarray(np.arange(2, dtype=np.int32) + u)
  if kind == "np":
    return np.arange(4, dtype=np.float32) + u
  if kind == "b1":
    return jnp.asarray(np.array([u % 2 == 0, True, u % 3 == 0]))
  if kind == "e":
    return jnp.zeros((0, 2), jnp.float32)
  raise ValueError(kind)


def rand_value(rng, depth=0):
  """A value a container may hold: an array or a pytree of arrays."""
  r = rng.random()
  if depth >= 2 or r < 0.6:
    return rand_array(rng)
  if r < 0.68:
    return {k: rand_value(rng, depth + 1) for k in rng.sample("pqrs", rng.randint(1, 3))}
  if r < 0.74:
    return tuple(rand_value(rng, depth + 1) for _ in range(rng.randint(0, 3)))
  if r < 0.80:
    return [rand_value(rng, depth + 1) for _ in range(rng.randint(1, 2))]
  if r < 0.85:
    return NT(rand_value(rng, depth + 1), rand_array(rng))
  if r < 0.90:
    return None
  if r < 0.95:
    return fresh()
  return float(fresh()) + 0.25


def rand_static(rng, numpy=False):
  # numpy scalars compare with tuples element by element
  r = rng.randint(0, 13 if numpy else 11)
  u = fresh()
  return [
      u, f"s{u}", None, (u, "t"), u % 2 == 0, _fn_static, jnp.float32, float(u),
      frozenset([u]), [u, 2], {"k": u}, ("nested", (u, None)),
      np.float32(u), np.int32(u),
  ][r]


META_KEYS = ["trainable", "tag", "group", "scale"]


def an_init(key, shape, dtype):
  """A function that variables carry as metadata."""


def rand_metadata(rng, variable=True):
  md = {}
  if variable and rng.random() < 0.4:
    md["sharding"] = tuple(
        rng.choice([None, "data", "model", "embed"]) for _ in range(rng.randint(0, 2))
    )
  for k in META_KEYS:
    if rng.random() < 0.2:
      md[k] = rng.choice([1, "x", None, ("p", 2), False, an_init, int])
  return md


NAMES = [
    "a", "b", "c", "w", "bias", "kernel", "x1", "x10", "x2", "A", "_p", "_m", "z",
    "layer", "layers", "layer_0", "ab", "0", "1", "10", "2", "é", "a-b", "a.b", "a b",
    "Z_", "moduledef", "states", "value", "_module", "_state", "module__state", "index",
    "a_rather_long_attribute_name_" * 3,
]


def rand_attr(rng, static_ok=True, hashable_static=False):
  r = rng.random()
  if r < 0.42:
    return ("var", rng.choice(VAR_TYPES), rand_value(rng), rand_metadata(rng))
  if r < 0.50:
    return ("var", rng.choice(PLAIN_NODES), rand_value(rng), rand_metadata(rng, False))
  if r < 0.62:
    return ("arr", rand_array(rng))
  if r < 0.72:
    return rand_ptree(rng)
  if not static_ok:
    return ("arr", rand_array(rng))
  while True:
    v = rand_static(rng, not hashable_static)
    if hashable_static:
      try:
        hash(v)
      except TypeError:
        continue
    break
  return ("staticc", v) if rng.random() < 0.2 else ("static", v)


def rand_ptree(rng):
  kind = rng.choice(["PT", "PTM", "State", "TreeNode", "Custom"])
  if kind == "PT":
    return ("ptree", kind, (rand_array(rng), rand_array(rng, kind="f1"), f"s{fresh()}"))
  if kind == "PTM":
    return ("ptree", kind, (rand_array(rng), fresh()))
  if kind == "State":
    return ("ptree", kind, {k: rand_array(rng) for k in rng.sample("klm", 2)})
  if kind == "TreeNode":
    return ("ptree", kind, rand_value(rng))
  return ("ptree", kind, fresh())


def rand_recipe(rng, max_modules=7, max_attrs=5, share=0.35, cycle=0.2, static_ok=True,
                hashable_static=False, jax_only=False, cls=None, names=None,
                dict_ok=True):
  """Random graph; every module is reachable from node 0."""
  names = names or NAMES
  n = rng.randint(1, max_modules)
  deep = max_modules >= 30 and rng.random() < 0.4
  if deep:
    n = rng.randint(max_modules // 2, max_modules + 15)
  chain = deep and rng.random() < 0.3
  if chain:  # every module below the one before
    n = rng.randint(max_modules, max_modules + 40)
  classes = cls or (MODULE_CLASSES if dict_ok else MODULE_CLASSES[:-1])
  recipe = [{"cls": rng.choice(classes), "attrs": {}} for _ in range(n)]
  for node in recipe:
    for name in rng.sample(names, rng.randint(0, min(max_attrs, len(names)))):
      spec = rand_attr(rng, static_ok, hashable_static)
      if jax_only:
        while not jax_only_spec(spec):
          spec = rand_attr(rng, static_ok, hashable_static)
      node["attrs"][name] = spec
  if rng.random() < 0.5:
    _coincide(rng, recipe, static_ok)
  for j in range(1, n):  # spanning tree
    # some large graphs are deep rather than bushy
    up = 1 if chain else rng.randint(1, 2)
    _add_edge(rng, recipe, max(0, j - up) if deep else rng.randrange(j), j, names)
  for _ in range(n):
    if rng.random() < share:
      i, j = rng.randrange(n), rng.randrange(n)
      if i < j or rng.random() < cycle:
        _add_edge(rng, recipe, i, j, names)
  return recipe


def _coincide(rng, recipe, static_ok):
  """Give some attributes the value of another one: the same object or an equal one."""
  slots = [(i, n) for i, node in enumerate(recipe) for n in node["attrs"]]
  for i, n in slots:  # or that of the class
    if recipe[i]["cls"] is M4 and n in CLASS_DEFAULTS and static_ok and rng.random() < 0.7:
      recipe[i]["attrs"][n] = ("static", CLASS_DEFAULTS[n])
  for _ in range(rng.randint(1, 3)):
    if len(slots) < 2:
      return
    (i, n), (j, m) = rng.sample(slots, 2)
    spec = recipe[i]["attrs"][n]
    if spec[0] == "arr" and rng.random() < 0.4:
      v = spec[1]
      spec = ("arr", v.copy() if isinstance(v, np.ndarray) else jnp.array(v, copy=True))
    elif spec[0] == "var" and rng.random() < 0.4:
      spec = ("var", rng.choice(VAR_TYPES), spec[2], spec[3])
    recipe[j]["attrs"][m] = spec


def jax_only_spec(spec):
  """True when every leaf of the node is a jax-compatible array."""
  if spec[0] == "ptree" and spec[1] == "Custom":
    return False
  return True


def _add_edge(rng, recipe, i, j, names):
  free = [x for x in names if x not in recipe[i]["attrs"]]
  name = rng.choice(free) if free else f"edge{len(recipe[i]['attrs'])}"
  recipe[i]["attrs"][name] = ("sub", j)


# ---------------------------------------------------------------- construction


def make_value(spec):
  kind = spec[0]
  if kind == "var":
    return spec[1](spec[2], **spec[3])
  if kind == "arr":
    return spec[1]
  if kind == "ptree":
    p = spec[2]
    if spec[1] == "PT":
      return PT(*p)
    if spec[1] == "PTM":
      return PTM(*p)
    if spec[1] == "State":
      return nnx.State(p)
    if spec[1] == "TreeNode":
      return nnx.TreeNode(p)
    return CustomNode(p)
  if kind == "static":
    return spec[1]
  if kind == "staticc":
    return nnx.Static(spec[1])
  raise ValueError(kind)


def build(recipe, rng=None):
  """Real modules of the recipe; attributes set in an order drawn from `rng`."""
  mods = [node["cls"]() for node in recipe]
  todo = [(i, name) for i, node in enumerate(recipe) for name in node["attrs"]]
  if rng is not None:
    rng.shuffle(todo)
  for i, name in todo:
    spec = recipe[i]["attrs"][name]
    setattr(mods[i], name, mods[spec[1]] if spec[0] == "sub" else make_value(spec))
  return mods


# ---------------------------------------------------------------- expectations


def is_node_spec(spec):
  return spec[0] in ("var", "arr", "ptree")


def expected_layout(recipe, root=0):
  """Sorted depth-first walk. Returns (entries, modules):
  entries: list of (path, module index, attribute name, spec) of the node attributes
  modules: dict module index -> path of its first visit
  """
  entries, first = [], {}

  def visit(i, prefix):
    if i in first:
      return
    first[i] = prefix
    for name in sorted(recipe[i]["attrs"]):
      spec = recipe[i]["attrs"][name]
      if spec[0] == "sub":
        visit(spec[1], prefix + (name,))
      elif is_node_spec(spec):
        entries.append(("/".join(prefix + (name,)), i, name, spec))

  visit(root, ())
  return entries, first


# ---------------------------------------------------------------- fingerprints


def fp(x):
  """Structural fingerprint of any value: equal iff the values are the same."""
  if isinstance(x, nnx.Container):
    md = {k: v for k, v in vars(x).items() if k != "value"}
    return ("C", type(x), fp(md), fp(vars(x)["value"]))
  if isinstance(x, jax.Array):
    if isinstance(x, jax.core.Tracer):
      return ("tracer", id(x))
    if jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key):
      return ("key", np.asarray(jax.random.key_data(x)).tobytes())
    a = np.asarray(x)
    return ("J", str(a.dtype), a.shape, a.tobytes())
  if isinstance(x, np.ndarray):
    return ("N", str(x.dtype), x.shape, x.tobytes())
  if isinstance(x, np.generic):
    return ("G", str(x.dtype), x.tobytes())
  if isinstance(x, nnx.State):
    return ("State", tuple((k, fp(v)) for k, v in x.items()))
  if isinstance(x, nnx.Pytree):
    return ("PT", type(x), tuple(
        (k, fp(v)) for k, v in sorted(vars(x).items()) if not k.startswith("_pytree__")))
  if isinstance(x, nnx.Module):
    return ("M", describe(x))
  if isinstance(x, dict):
    return ("d", tuple(sorted(((k, fp(v)) for k, v in x.items()), key=lambda t: str(t[0]))))
  if isinstance(x, tuple) and hasattr(x, "_fields"):
    return ("nt", type(x), tuple(fp(v) for v in x))
  if isinstance(x, (list, tuple)):
    return (type(x).__name__, tuple(fp(v) for v in x))
  if isinstance(x, (bool, int, float, complex, str, bytes, type(None))):
    return (type(x).__name__, repr(x))
  if isinstance(x, frozenset):
    return ("fs", tuple(sorted(map(repr, x))))
  if isinstance(x, CustomNode):
    return ("custom", x.payload)
  return ("o", type(x), id(x))


def fp_np(x):
  """Like fp, but numpy and jax arrays of equal content agree."""
  f = fp(x)

  def norm(t):
    if isinstance(t, tuple):
      if t and t[0] in ("J", "N", "G"):
        return ("A",) + t[1:]
      return tuple(norm(i) for i in t)
    return t

  return norm(f)


INTERNAL = "_module__"


def user_vars(module):
  return {k: v for k, v in vars(module).items() if not k.startswith(INTERNAL)}


def describe(module, values=True):
  """Canonical form of a module graph: modules numbered by first visit of the sorted
  depth-first walk, each with its type and attributes."""
  index, out = {}, []

  def visit(m):
    if id(m) in index:
      return index[id(m)]
    i = index[id(m)] = len(index)
    slot = [type(m), None]
    out.append(slot)
    attrs = []
    for name, v in sorted(user_vars(m).items()):
      if isinstance(v, nnx.Module):
        attrs.append((name, "sub", visit(v)))
      else:
        attrs.append((name, "val", fp(v) if values else fp_shape(v)))
    slot[1] = tuple(attrs)
    return i

  visit(module)
  return tuple((t, a) for t, a in out)


def fp_shape(v):
  if isinstance(v, nnx.Container) and not isinstance(v, nnx.Static):
    return ("C", type(v))
  if isinstance(v, (jax.Array, np.ndarray)):
    return ("arr",)
  return fp(v)


def describe_recipe(recipe, root=0):
  """`describe` of what `build(recipe)` must give, from the recipe alone."""
  index, out = {}, []

  def visit(i):
    if i in index:
      return index[i]
    k = index[i] = len(index)
    slot = [recipe[i]["cls"], None]
    out.append(slot)
    attrs = []
    for name in sorted(recipe[i]["attrs"]):
      spec = recipe[i]["attrs"][name]
      if spec[0] == "sub":
        attrs.append((name, "sub", visit(spec[1])))
      else:
        attrs.append((name, "val", spec_fp(spec)))
    slot[1] = tuple(attrs)
    return k

  visit(root)
  return tuple((t, a) for t, a in out)


def spec_fp(spec):
  """Fingerprint of an attribute, from the spec (containers written by hand)."""
  kind = spec[0]
  if kind == "var":
    md = dict(spec[3])
    if issubclass(spec[1], nnx.Variable):
      md.setdefault("sharding", None)
    return ("C", spec[1], fp(md), fp(spec[2]))
  if kind == "arr":
    return fp(spec[1])
  if kind == "ptree":
    p = spec[2]
    if spec[1] == "PT":
      return ("PT", PT, (("a", ("C", nnx.TreeNode, fp({}), fp(p[0]))), ("b", fp(p[1])),
                         ("s", fp(p[2]))))
    if spec[1] == "PTM":
      return ("PT", PTM, (("a", ("C", nnx.Param, fp({"sharding": None}), fp(p[0]))),
                          ("s", fp(p[1]))))
    if spec[1] == "State":
      return ("State", tuple((k, fp(v)) for k, v in sorted(p.items())))
    if spec[1] == "TreeNode":
      return ("C", nnx.TreeNode, fp({}), fp(p))
    return ("custom", p)
  if kind == "static":
    return fp(spec[1])
  if kind == "staticc":
    return ("C", nnx.Static, fp({}), fp(spec[1]))
  raise ValueError(kind)


def all_modules(module):
  """Every module object reachable, by first visit."""
  seen, out = set(), []

  def visit(m):
    if id(m) in seen:
      return
    seen.add(id(m))
    out.append(m)
    for _, v in sorted(user_vars(m).items()):
      if isinstance(v, nnx.Module):
        visit(v)

  visit(module)
  return out


def recipe_sig(recipe):
  """What makes two recipes different as cases (values ignored)."""
  return tuple(
      (node["cls"].__name__, tuple(
          (k, s[0], s[1] if s[0] in ("sub",) else getattr(s[1], "__name__", type(s[1]).__name__))
          for k, s in sorted(node["attrs"].items())))
      for node in recipe
  )


def recipe_str(recipe):
  return "; ".join(
      f"#{i} {node['cls'].__name__}(" + ", ".join(
          f"{k}={'#%d' % s[1] if s[0] == 'sub' else s[0] + ':' + getattr(s[1], '__name__', type(s[1]).__name__)}"
          for k, s in node["attrs"].items()) + ")"
      for i, node in enumerate(recipe)
  )


# ---------------------------------------------------------------- filters


class PathPred:

  def __init__(self, kind, arg):
    self.kind, self.arg = kind, arg

  def __call__(self, path, value):
    if self.kind == "suffix":
      return path.endswith(self.arg)
    if self.kind == "contains":
      return self.arg in path
    if self.kind == "deep":
      return path.count("/") >= self.arg
    if self.kind == "meta":
      return getattr(value, "vars", None) is None and bool(
          isinstance(value, nnx.Variable) and vars(value).get("trainable"))
    if self.kind == "hash":
      return (sum(map(ord, path)) % 3) == self.arg
    raise ValueError

  def __repr__(self):
    return f"Pred({self.kind},{self.arg})"


def rand_filter(rng, depth=0):
  """(filter object, reference predicate over (path, raw value))."""
  r = rng.random()
  if depth < 3 and r < 0.12:
    subs = [rand_filter(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    return tuple(f for f, _ in subs), lambda p, v: any(g(p, v) for _, g in subs)
  if depth < 3 and r < 0.22:
    subs = [rand_filter(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    return nnx.All(*[f for f, _ in subs]), lambda p, v: all(g(p, v) for _, g in subs)
  if depth < 3 and r < 0.32:
    f, g = rand_filter(rng, depth + 1)
    return nnx.Not(f), lambda p, v: not g(p, v)
  if r < 0.37:
    return None, lambda p, v: False
  if r < 0.42 and depth > 0:
    return ..., lambda p, v: True
  if r < 0.50:
    return nnx.buffers, lambda p, v: isinstance(v, (jax.Array, np.ndarray))
  if r < 0.80:
    t = rng.choice(VAR_TYPES + PLAIN_NODES + [nnx.Pytree, nnx.State, nnx.TreeNode,
                                              np.ndarray, jax.Array, nnx.Container])
    return t, lambda p, v: isinstance(v, t)
  pred = rng.choice([
      lambda: PathPred("suffix", rng.choice(["a", "kernel", "w", "0"])),
      lambda: PathPred("contains", rng.choice(["layer", "/", "x1", "b"])),
      lambda: PathPred("deep", rng.randint(1, 2)),
      lambda: PathPred("meta", 0),
      lambda: PathPred("hash", rng.randint(0, 2)),
  ])()
  if rng.random() < 0.4:
    return Truthy(pred, rng.choice(sorted(TRUTHS))), pred
  return pred, pred


TRUTHS = {
    "numpy": (np.bool_(True), np.bool_(False)), "int": (2, 0), "str": ("yes", ""),
    "object": (object(), None), "list": ([0], []), "float": (0.5, 0.0),
}


class Truthy:
  """The predicate with results that are true or false but no bools."""

  def __init__(self, pred, kind):
    self.pred, self.kind = pred, kind

  def __call__(self, path, value):
    return TRUTHS[self.kind][0 if self.pred(path, value) else 1]

  def __repr__(self):
    return f"Truthy({self.pred!r}, {self.kind})"


def rand_exhaustive(rng, kmax=4):
  """1..kmax filters with a final `...`, and the reference predicates."""
  pairs = [rand_filter(rng) for _ in range(rng.randint(0, kmax - 1))]
  pairs.append((..., lambda p, v: True))
  return [f for f, _ in pairs], [g for _, g in pairs]


def first_match(entries, preds):
  """Reference partition of [(path, value)]: group index per path (None: rest)."""
  out = {}
  for path, value in entries:
    out[path] = next((i for i, g in enumerate(preds) if g(path, value)), None)
  return out
