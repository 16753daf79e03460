"""C18: Pytree classes are immutable jax pytrees with fixed fields and exact replace."""
import copy
import dataclasses
import pickle

import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnxmon import gen, ptgen

RULE = (
    "Random Pytree classes (containers of every kind, arrays, nested pytrees, states, "
    "statics; immutable, mutable, inherited, dataclass with every field specifier) are "
    "flattened, mapped, jitted, copied, replaced and attacked with assignments; leaves, "
    "key paths, statics, tree structures and every attribute are compared with the field "
    "description; non-trivial = distinct (fields, operations)."
)
NEED = {"refilled": 200, "transformed": 500, "flatten": 300, "denied": 800, "replaced": 500, "assigned": 150, "structure": 300,
        "dataclass": 120, "inherit": 100, "boxed": 70}


def expect_same(case, p, cls, fields, what):
  case.check(type(p) is cls, f"{what}: type")
  case.eq(ptgen.obj_fp(p), ptgen.fields_fp(fields), f"{what}: attributes")


def denied(case, p, cls, fields, mutable, what):
  rng = case.rng
  case.raises(AttributeError, lambda: setattr(p, "brand_new", 1), f"{what}: new field")
  case.raises(AttributeError, lambda: setattr(p, "brand_new", nnx.Param(1)), f"{what}: new field")
  case.event("denied", 2)
  if not mutable:
    for name in rng.sample(sorted(fields), min(3, len(fields))):
      old = vars(p)[name]
      for new in (jnp.zeros(()), old, getattr(p, name)):
        case.raises(AttributeError, lambda: setattr(p, name, new),
                    f"{what}: assignment to {name}")
        case.event("denied")
  for name in rng.sample(sorted(fields), min(2, len(fields))):
    if mutable:
      # the fields of a mutable class may go, but never leave a broken object behind
      c = copy.copy(p)
      try:
        delattr(c, name)
      except AttributeError:
        expect_same(case, c, cls, fields, f"{what}: refused deletion of {name}")
        case.event("denied")
        continue
      case.check(name not in vars(c), f"{what}: {name} after its deletion")
      try:
        jax.tree_util.tree_flatten(c)
      except Exception as e:
        case.check(False, f"{what}: flattening after the deletion of {name}: {e!r}")
    else:
      case.raises(AttributeError, lambda: delattr(p, name), f"{what}: deletion of {name}")
      case.event("denied")
  case.raises(AttributeError, lambda: delattr(p, "brand_new"), f"{what}: deletion of no field")
  expect_same(case, p, cls, fields, f"{what}: after refused assignments")


def flatten(case, p, fields, what):
  want = ptgen.leaves(fields)
  leaves, treedef = jax.tree_util.tree_flatten(p)
  case.eq(len(leaves), len(want), f"{what}: number of leaves")
  for l, (path, w) in zip(leaves, want):
    case.check(l is w or gen.fp(l) == gen.fp(w), f"{what}: leaf of {path}")
  kp, treedef2 = jax.tree_util.tree_flatten_with_path(p)
  case.check(treedef == treedef2, f"{what}: tree structure with and without paths")
  for (keys, l), (path, w) in zip(kp, want):
    names = [getattr(k, "name", getattr(k, "key", None)) for k in keys]
    names = [n for n in names if n != "value"]
    case.eq(tuple(names[: len(path)]), path, f"{what}: key path")
    case.check(gen.fp(l) == gen.fp(w), f"{what}: leaf with path")
  case.event("flatten")
  return leaves, treedef


def scaled(fields):
  """The description after x -> x + 1 on every leaf."""
  out = {}
  inc = lambda v: jax.tree_util.tree_map(lambda x: x + 1, v)
  for k, s in fields.items():
    if not ptgen.is_node(s):
      out[k] = s
    elif s[0] == "pytree":
      out[k] = (s[0], s[1], scaled(s[2]))
    elif s[0] in ("var", "node"):
      out[k] = (s[0], s[1], inc(s[2]), s[3])
    else:
      out[k] = (s[0], inc(s[1]))
  return out



def contract(case):
  rng = case.rng
  fields = ptgen.rand_fields(rng)
  mutable = rng.random() < 0.3
  cls = ptgen.make_class(rng, fields, mutable)
  p = ptgen.instance(cls, fields)
  case.note({k: s[0] for k, s in fields.items()}, "mutable", mutable)
  case.sample({k: s[0] for k, s in fields.items()})
  expect_same(case, p, cls, fields, "constructed")
  for k, s in fields.items():
    if s[0] != "pytree":
      v = ptgen.value(s)
      case.check(getattr(p, k) is v or gen.fp(getattr(p, k)) == gen.fp(v), f"reading {k}")
  leaves, treedef = flatten(case, p, fields, "constructed")
  q = jax.tree_util.tree_unflatten(treedef, leaves)
  expect_same(case, q, cls, fields, "rebuilt")
  case.check(q is not p, "rebuilding makes a new object")
  denied(case, p, cls, fields, mutable, "constructed")
  denied(case, q, cls, fields, mutable, "rebuilt")
  # tree_map: statics stay, leaves change
  inc = scaled(fields)
  r = jax.tree_util.tree_map(lambda x: x + 1, p)
  expect_same(case, r, cls, inc, "mapped")
  denied(case, r, cls, inc, mutable, "mapped")
  expect_same(case, p, cls, fields, "original after tree_map")
  j = jax.jit(lambda t: jax.tree_util.tree_map(lambda x: x + 1, t))(p)
  case.check(type(j) is cls, "jitted: type")
  case.eq(gen.fp_np(jax.tree_util.tree_leaves(j)), gen.fp_np(jax.tree_util.tree_leaves(r)),
          "jitted: leaves")
  case.check(jax.tree_util.tree_structure(j) == treedef, "jitted: structure")
  # structure: equal iff statics, types, metadata agree
  twin = ptgen.instance(cls, inc)
  case.check(jax.tree_util.tree_structure(twin) == treedef, "same statics, other values")
  case.event("structure")
  for name, s in fields.items():
    alt = None
    if s[0] in ("static", "staticc"):
      alt = (s[0], ("another", gen.fresh()))
    elif s[0] in ("var",):
      alt = (s[0], s[1], s[2], {**s[3], "tag": ("another", gen.fresh())})
    elif s[0] == "param":
      alt = ("var", nnx.Cache, s[1], {})
    if alt is not None:
      t2 = jax.tree_util.tree_structure(ptgen.instance(cls, {**fields, name: alt}))
      case.check(t2 != treedef, f"structure ignores the change of {name}")
      case.event("structure")
  # copies
  for f in (copy.copy, copy.deepcopy):
    c = f(p)
    if not any(s[0] == "static" and callable(s[1]) and f is copy.deepcopy for s in fields.values()):
      expect_same(case, c, cls, fields, f.__name__)
    denied(case, c, cls, fields, mutable, f.__name__)
  case.sig(sorted((k, s[0]) for k, s in fields.items()), mutable)


def new_value(rng, s):
  """(value given to replace / setattr, the resulting spec)"""
  v = jnp.asarray(float(gen.fresh()))
  k = s[0]
  if k in ("static",):
    u = ("st", gen.fresh())
    return u, ("static", u)
  if k == "staticc":
    u = ("st", gen.fresh())
    return (u, ("staticc", u)) if rng.random() < 0.5 else (nnx.Static(u), ("staticc", u))
  if k in ("arr", "np"):
    return v, ("arr", v)
  if k == "tree":
    return (v if rng.random() < 0.5 else nnx.TreeNode(v)), ("tree", v)
  if k == "param":
    return (v if rng.random() < 0.5 else nnx.Param(v)), ("param", v)
  if k in ("var", "node"):
    return (v if rng.random() < 0.5 else s[1](v, **s[3])), (k, s[1], v, s[3])
  if k == "state":
    st = nnx.State({"z": nnx.Param(v)})
    return st, ("state", st)
  sub = {n: x for n, x in s[2].items()}
  return ptgen.instance(s[1], sub), ("pytree", s[1], sub)


def replacing(case):
  rng = case.rng
  fields = ptgen.rand_fields(rng, **(dict(n=rng.randint(7, 9)) if rng.random() < 0.1 else {}))
  mutable = rng.random() < 0.5
  cls = ptgen.make_class(rng, fields, mutable)
  p = ptgen.instance(cls, fields)
  case.note({k: s[0] for k, s in fields.items()}, "mutable", mutable)
  log = []
  for step in range(rng.randint(2, 5)):
    most = len(fields) if rng.random() < 0.3 else min(3, len(fields))
    names = rng.sample(sorted(fields), rng.randint(0, most))
    kw, new = {}, dict(fields)
    for n in names:
      kw[n], new[n] = new_value(rng, fields[n])
    case.note(step, names)
    op = rng.choice(["replace", "replace", "set"]) if mutable else "replace"
    if op == "replace":
      q = p.replace(**kw)
      expect_same(case, q, cls, new, "replaced")
      expect_same(case, p, cls, fields, "original after replace")
      case.check(q is not p, "replace returns a new object")
      flatten(case, q, new, "replaced")
      denied(case, q, cls, new, mutable, "replaced")
      denied(case, p, cls, fields, mutable, "original")
      case.event("replaced")
      p = q
    else:
      old = jax.tree_util.tree_map(lambda x: x, p)
      for n in names:
        setattr(p, n, kw[n])
        case.event("assigned")
      expect_same(case, p, cls, new, "assigned")
      expect_same(case, old, cls, fields, "an earlier copy")
      flatten(case, p, new, "assigned")
    fields = new
    log.append((op, names))
    # refused: unknown names, wrong containers
    case.raises((ValueError, AttributeError, TypeError), lambda: p.replace(unknown=1),
                "replace of an unknown field")
    for n, s in fields.items():
      if s[0] in ("param", "tree", "var", "staticc"):
        wrong = nnx.BatchStat(jnp.zeros(()), odd=1)
        case.raises(ValueError, lambda: p.replace(**{n: wrong}), "replace by another container")
        if mutable:
          case.raises(ValueError, lambda: setattr(p, n, wrong), "assign another container")
        case.event("denied")
        break
    expect_same(case, p, cls, fields, "after refused changes")
  case.sig(sorted((k, s[0]) for k, s in fields.items()), mutable, log)


def namesakes(case):
  """Objects of one class may have different fields, and as many of them."""
  rng = case.rng
  pool = rng.sample(ptgen.NAMES, 5)
  n = rng.randint(1, 3)

  def __init__(self, values):
    for k in values:
      setattr(self, k, values[k])

  cls = type(nnx.Pytree)(f"PT{gen.fresh()}", (nnx.Pytree,), {"__init__": __init__})
  made = []
  for _ in range(4):
    fields = ptgen.rand_fields(rng, n=n, names=pool)
    p = ptgen.instance(cls, fields)
    made.append((p, fields))
    for q, fs in made:
      flatten(case, q, fs, "one of many")
      expect_same(case, q, cls, fs, "one of many")
    name = rng.choice(sorted(fields))
    v, s = new_value(rng, fields[name])
    q = p.replace(**{name: v})
    flatten(case, q, {**fields, name: s}, "one of many, replaced")
    denied(case, p, cls, fields, False, "one of many")
  case.note([sorted(f) for _, f in made])
  case.event("namesakes")
  case.sig([sorted((k, s[0]) for k, s in f.items()) for _, f in made])


def inheritance(case):
  rng = case.rng
  f1 = ptgen.rand_fields(rng, names=["a", "b", "c", "x1"], n=rng.randint(1, 3))
  f2 = ptgen.rand_fields(rng, names=["A", "d", "x10", "z"], n=rng.randint(1, 3))
  m1, m2 = rng.random() < 0.5, rng.random() < 0.5
  base = ptgen.make_class(rng, f1, m1)
  binit = base.__init__

  def __init__(self, values):
    if first:
      binit(self, values)
    for k in f2:
      setattr(self, k, values[k])
    if not first:
      binit(self, values)

  first = rng.random() < 0.5
  cls = type(base)("Sub", (base,), {"__init__": __init__}, **({"mutable": True} if m2 else {}))
  fields = {**f1, **f2}
  case.note({k: s[0] for k, s in fields.items()}, m1, m2)
  p, b = ptgen.instance(cls, fields), ptgen.instance(base, f1)
  expect_same(case, p, cls, fields, "subclass")
  expect_same(case, b, base, f1, "base class")
  flatten(case, p, fields, "subclass")
  flatten(case, b, f1, "base class")
  denied(case, p, cls, fields, m2, "subclass")
  denied(case, b, base, f1, m1, "base class")
  for obj, flds, mut in ((p, fields, m2), (b, f1, m1)):
    n = rng.choice(sorted(flds))
    v, s = new_value(rng, flds[n])
    if mut:
      setattr(obj, n, v)
      case.eq(ptgen.obj_fp(obj), ptgen.fields_fp({**flds, n: s}), "mutable class")
      case.event("assigned")
    else:
      case.raises(AttributeError, lambda: setattr(obj, n, v), "immutable class")
      case.event("denied")
  case.check(jax.tree_util.tree_structure(p) != jax.tree_util.tree_structure(b),
             "subclass and base have different structures")
  # a constructor that raises leaves nothing behind
  kept = []

  def bad(self, values):
    kept.append(self)
    binit(self, values)
    raise RuntimeError("stop")

  cls2 = type(base)("Bad", (base,), {"__init__": bad}, **({"mutable": True} if m1 else {}))
  case.raises(RuntimeError, lambda: ptgen.instance(cls2, f1), "constructor raises")
  case.raises(AttributeError, lambda: setattr(kept[0], "brand_new", 1),
              "half constructed object accepts new fields")
  if not m1:
    n = rng.choice(sorted(f1))
    case.raises(AttributeError, lambda: setattr(kept[0], n, 1),
                "half constructed object accepts assignments")
  case.event("inherit")
  case.sig(sorted((k, s[0]) for k, s in fields.items()), m1, m2, first)


class UserVar(nnx.Variable):
  pass


FIELD_KINDS = ["plain", "node", "static", "var", "param", "field"]


def dataclass_pytree(case):
  """Field specifiers on Pytree and Module dataclasses."""
  rng = case.rng
  host = rng.choice([nnx.Pytree, nnx.Module])
  names = rng.sample(["a", "b", "w", "x1", "x10", "Z"], rng.randint(1, 5))
  kinds = {n: rng.choice(FIELD_KINDS) for n in names}
  ns, ann, want, defaults = {}, {}, {}, {}
  seen_default = False
  for n in names:
    k = kinds[n]
    how = rng.choice(["none", "default", "factory"]) if not seen_default else rng.choice(
        ["default", "factory"])
    kw = {}
    if how != "none":
      seen_default = True
      dv = (("d", gen.fresh()) if k in ("static", "plain", "field") else float(gen.fresh()))
      defaults[n] = dv
      if how == "factory":
        kw["default_factory"] = (lambda dv: lambda: dv)(dv)
      else:
        kw["default"] = dv
    if k == "plain":
      if how == "default":
        ns[n] = dv
      elif how == "factory":
        ns[n] = dataclasses.field(**kw)
      c = None
    elif k == "field":
      ns[n] = nnx.field(**kw)
      c = None
    elif k == "node":
      ns[n] = nnx.node_field(metadata={"doc": 1} if rng.random() < 0.3 else None, **kw)
      c = nnx.Node
    elif k == "static":
      ns[n] = nnx.static_field(**kw)
      c = nnx.Static
    elif k == "var":
      t = rng.choice([nnx.BatchStat, UserVar, nnx.Cache])
      sh = rng.choice([None, ("x",), (None, "y")])
      ns[n] = nnx.var_field(t, sharding=sh, **kw)
      c = (t, sh)
    else:
      ns[n] = nnx.param_field(**kw)
      c = (nnx.Param, None)
    want[n] = c
    ann[n] = object
  ns["__annotations__"] = ann
  cls = type(host)("DC", (host,), dict(ns))
  cls = nnx.dataclass(cls) if rng.random() < 0.7 else dataclasses.dataclass(cls)
  given = {}
  for n in names:
    if n not in defaults or rng.random() < 0.6:
      k = kinds[n]
      given[n] = (("s", gen.fresh()) if k == "static" else
                  rng.choice([jnp.asarray(float(gen.fresh())), f"s{gen.fresh()}"])
                  if k in ("plain", "field") else jnp.asarray(float(gen.fresh())))
  case.note(host.__name__, kinds, defaults, given)
  if rng.random() < 0.4:
    pos = []
    for n in names:
      if n not in given:
        break
      pos.append(n)
    p = cls(*[given[n] for n in pos], **{n: v for n, v in given.items() if n not in pos})
  else:
    p = cls(**given)
  value = {**defaults, **given}

  def verify(p, value, what):
    for n in names:
      raw, c = vars(p)[n], want[n]
      case.eq(gen.fp(getattr(p, n)), gen.fp(value[n]), f"{what}: reading {n}")
      if c is None:
        case.check(not isinstance(raw, nnx.Container), f"{what}: plain field {n}")
      elif isinstance(c, tuple):
        case.check(type(raw) is c[0] and raw.sharding == c[1], f"{what}: container of {n}",
                   got=raw)
      else:
        case.check(type(raw) is c, f"{what}: container of {n}", got=raw)

  verify(p, value, "constructed")
  isleaf = lambda n: (want[n] in (nnx.Node,) or isinstance(want[n], tuple)
                      or (want[n] is None and isinstance(value[n], jax.Array)))
  nodes = sorted(n for n in names if isleaf(n))
  if host is nnx.Pytree:
    case.eq(gen.fp(jax.tree_util.tree_leaves(p)), gen.fp([value[n] for n in nodes]), "leaves")
    r = jax.tree_util.tree_map(lambda x: x * 2, p)
    v2 = {**value, **{n: value[n] * 2 for n in nodes}}
    verify(r, v2, "mapped")
    for n in names:
      case.raises(AttributeError, lambda: setattr(p, n, value[n]), "assignment")
      case.event("denied")
    ch = rng.sample(names, rng.randint(0, len(names)))
    kw = {n: (("new", gen.fresh()) if want[n] in (nnx.Static,) else jnp.asarray(float(gen.fresh())))
          for n in ch}
    q = p.replace(**kw)
    verify(q, {**value, **kw}, "replaced")
    verify(p, value, "original after replace")
    case.event("replaced")
    case.raises((TypeError, ValueError, AttributeError), lambda: p.replace(unknown=1),
                "unknown field")
  else:
    st = p.get_state()
    case.eq(sorted(st), nodes, "state of the dataclass module")
    m = p.partition().merge()
    verify(m, value, "merged")
    for n in nodes:
      setattr(p, n, jnp.asarray(7.0))
    verify(p, {**value, **{n: jnp.asarray(7.0) for n in nodes}}, "assigned")
  for spec in (nnx.node_field, nnx.static_field, lambda **k: nnx.var_field(nnx.Param, **k),
               nnx.param_field):
    case.raises(ValueError, lambda: spec(metadata={"nnx_container_fn": 1}), "reserved metadata")
  case.event("dataclass")
  case.sig(host.__name__, sorted(kinds.items()), sorted(defaults), sorted(given))


def boxed(case):
  """Dataclass pytrees whose ordinary fields are given containers: the container decides."""
  rng = case.rng
  names = rng.sample(["a", "b", "w", "x1", "x10", "Z"], rng.randint(2, 5))
  mutable = rng.random() < 0.3
  boxes = {}
  makers = [lambda v: nnx.Param(v), lambda v: nnx.BatchStat(v), lambda v: nnx.TreeNode(v),
            lambda v: UserVar(v, tag=("t", 1)), lambda v: nnx.Param(v, sharding=("x",)),
            lambda v: nnx.Static(("s", float(v))), lambda v: nnx.Node(v), lambda v: v]
  num = lambda: jnp.asarray(float(gen.fresh()))
  ann, ns, post = {}, {}, {}
  for n in names:
    boxes[n] = rng.choice(makers)
    ann[n] = object
    how = rng.random()
    if how < 0.3:
      ns[n] = nnx.field() if rng.random() < 0.5 else nnx.field(metadata={"doc": 1})
  late = rng.random() < 0.5
  if late:
    # a field made by __post_init__ from the others
    ann["zz"] = object
    ns["zz"] = dataclasses.field(init=False)
    mk = rng.choice(makers)
    first = names[0]

    def __post_init__(self):
      v = getattr(self, first)
      self.zz = mk(jnp.asarray(v[1] if isinstance(v, tuple) else v) + 0.5)
    ns["__post_init__"] = __post_init__
  ns["__annotations__"] = ann
  cls = type(nnx.Pytree)("Boxed", (nnx.Pytree,), ns, **({"mutable": True} if mutable else {}))
  cls = nnx.dataclass(cls) if rng.random() < 0.6 else dataclasses.dataclass(cls)
  value = {n: num() for n in names}
  given = {n: boxes[n](value[n]) for n in names}

  def describe(b):
    """(class, metadata, value) of a field; statics by their content."""
    if isinstance(b, nnx.Container):
      meta = ({k: v for k, v in vars(b).items() if k not in ("value", "_value")}
              if isinstance(b, nnx.Variable) else {})
      return type(b), sorted(meta.items(), key=lambda kv: kv[0]), gen.fp(b.value)
    return "bare", gen.fp(b)

  def expect(p, given, what):
    want = dict(given)
    if late:
      b = want[names[0]]
      v = b.value if isinstance(b, nnx.Container) else b
      want["zz"] = mk(jnp.asarray(v[1] if isinstance(v, tuple) else v) + 0.5)
    for n, b in want.items():
      case.eq(describe(vars(p)[n]), describe(b), f"{what}: field {n}")
      case.eq(gen.fp(getattr(p, n)), gen.fp(b.value if isinstance(b, nnx.Container) else b),
              f"{what}: reading {n}")
    nodes = [(n, b) for n, b in sorted(want.items()) if not isinstance(b, nnx.Static)]
    case.eq(gen.fp(jax.tree_util.tree_leaves(p)),
            gen.fp([b.value if isinstance(b, nnx.Container) else b for n, b in nodes]),
            f"{what}: leaves")

  case.note({n: type(b).__name__ for n, b in given.items()}, mutable, late)
  p = cls(**given)
  expect(p, given, "constructed")
  log = []
  for step in range(rng.randint(1, 3)):
    ch = rng.sample(names, rng.randint(0, len(names)))
    kw, new = {}, dict(given)
    for n in ch:
      v = num()
      new[n] = boxes[n](v)
      bare = isinstance(new[n], nnx.Container) and rng.random() < 0.6
      kw[n] = new[n].value if bare else new[n]
    q = p.replace(**kw)
    case.check(type(q) is cls and q is not p, "replace makes a new object of the class")
    expect(q, new, f"replaced {sorted(ch)}")
    expect(p, given, "original after replace")
    if late:
      case.raises((ValueError, TypeError), lambda: p.replace(zz=num()),
                  "replace of a field that is not a constructor argument")
    r = jax.tree_util.tree_unflatten(*jax.tree_util.tree_flatten(q)[::-1])
    expect(r, new, "rebuilt")
    case.check(jax.tree_util.tree_structure(r) == jax.tree_util.tree_structure(q),
               "structure of the rebuilt object")
    # nothing but the given fields changes the structure
    same_static = all(not isinstance(new[n], nnx.Static) for n in ch)
    case.eq(jax.tree_util.tree_structure(q) == jax.tree_util.tree_structure(p),
            same_static and not (late and names[0] in ch and isinstance(mk(num()), nnx.Static)),
            "structure after replace")
    case.event("boxed")
    p, given = q, new
    log.append(sorted(ch))
  case.sig(names, [str(type(b)) for b in given.values()], mutable, late, log)


class Mark:
  """Not an array, a number or a container: what JAX fills a pytree with."""


def filled(case):
  """The structure does not depend on what fills it; JAX transformations agree with the
  same function over the plain list of the arrays."""
  rng = case.rng
  fields = ptgen.rand_fields(rng, n=rng.randint(1, 4))
  cls = ptgen.make_class(rng, fields, rng.random() < 0.3)
  p = ptgen.instance(cls, fields)
  case.note({k: s[0] for k, s in fields.items()})
  case.sig(sorted((k, s[0]) for k, s in fields.items()))
  leaves, treedef = flatten(case, p, fields, "constructed")
  paths = [jax.tree_util.keystr(k) for k, _ in jax.tree_util.tree_flatten_with_path(p)[0]]
  for make in (Mark, lambda: rng.choice(["s", 1, 2.5, True, len, jnp.float32]),
               lambda: rng.choice([Mark(), jnp.ones(2), np.ones(1), 3.0]),
               lambda: jax.ShapeDtypeStruct((2,), jnp.float32)):
    fill = [make() for _ in leaves]
    q = jax.tree_util.tree_unflatten(treedef, fill)
    again, td = jax.tree_util.tree_flatten(q)
    case.check(len(again) == len(fill) and all(a is b for a, b in zip(again, fill)),
               "the leaves of a refilled pytree", got=again, want=fill)
    case.check(td == treedef, "the structure of a refilled pytree", got=td, want=treedef)
    case.eq([jax.tree_util.keystr(k) for k, _ in jax.tree_util.tree_flatten_with_path(q)[0]],
            paths, "key paths of a refilled pytree")
    for f in (copy.copy,):
      case.check(jax.tree_util.tree_structure(f(q)) == treedef, "copy of a refilled pytree")
    case.check(jax.tree_util.tree_structure(jax.tree_util.tree_map(lambda x: x, q)) == treedef,
               "mapped refilled pytree")
    back = jax.tree_util.tree_unflatten(td, leaves)
    expect_same(case, back, cls, fields, "filled back")
    case.event("refilled")
  # so does one whose other fields change
  for k, s in fields.items():
    if s[0] in ("staticc", "static") and hasattr(p, "replace"):
      v = ("changed", k)
      q = jax.tree_util.tree_unflatten(treedef, [Mark() for _ in leaves]).replace(**{k: v})
      case.check(jax.tree_util.tree_structure(q) ==
                 jax.tree_util.tree_structure(p.replace(**{k: v})),
                 "structure of a refilled pytree with a new static field")
      case.event("refilled")
  # a raw field that is given a plain value afterwards is static, as after construction
  raw = [k for k, s in fields.items() if s[0] in ("arr", "np")]
  if raw and hasattr(p, "replace"):
    k = rng.choice(raw)
    q = jax.tree_util.tree_unflatten(treedef, [Mark() for _ in leaves])
    q = q.replace(**{k: "plain"})
    want = jax.tree_util.tree_structure(p.replace(**{k: "plain"}))
    case.check(jax.tree_util.tree_structure(q) == want, "replaced by a plain value")
    q = q.replace(**{k: jnp.ones(3)})
    case.check(jax.tree_util.tree_structure(q) == treedef, "and by an array again")
  if not leaves:
    return
  # transformations
  add = lambda t, c: jax.tree_util.tree_map(lambda x: x * 2 + c, t)
  batch = lambda t: jax.tree_util.tree_map(
      lambda x: jnp.stack([jnp.asarray(x), jnp.asarray(x) * 3, jnp.asarray(x) - 1]), t)

  def same(got, want, what):
    gl, gt = jax.tree_util.tree_flatten(got)
    case.check(gt == jax.tree_util.tree_structure(p), f"{what}: structure", got=gt,
               want=treedef)
    case.close(gl, want, what)
    case.event("transformed")

  bp = batch(p)
  bl = jax.tree_util.tree_leaves(bp)
  same(jax.vmap(add, in_axes=(0, None))(bp, 1), jax.vmap(add, in_axes=(0, None))(bl, 1), "vmap")
  same(jax.vmap(add)(bp, jnp.arange(3)), jax.vmap(add)(bl, jnp.arange(3)), "vmap, one axis")
  ax = rng.choice([0, -1])
  same(jax.vmap(add, in_axes=(None, 0), out_axes=ax)(p, jnp.arange(3)),
       jax.vmap(add, in_axes=(None, 0), out_axes=ax)(leaves, jnp.arange(3)), "vmap, unmapped")
  axes = jax.tree_util.tree_map(lambda _: 0, bp)
  same(jax.vmap(add, in_axes=(axes, None))(bp, 1),
       jax.vmap(add, in_axes=(0, None))(bl, 1), "vmap, a tree of axes")
  case.check(jax.tree_util.tree_structure(jax.eval_shape(add, p, 1)) == treedef, "eval_shape")
  same(jax.lax.scan(lambda c, x: (c, add(c, x)), batch(p), jnp.arange(2))[0], bl, "scan carry")
  same(jax.lax.scan(lambda c, t: (c, add(t, 1)), 0, bp)[1],
       jax.vmap(add, in_axes=(0, None))(bl, 1), "scan over")
  same(jax.lax.cond(True, lambda t: t, lambda t: t, p), leaves, "cond")
  inexact = [jnp.issubdtype(jnp.asarray(l).dtype, jnp.floating) for l in leaves]
  if all(inexact):
    loss = lambda t: sum((jnp.sum(x ** 2) for x in jax.tree_util.tree_leaves(t)))
    g = jax.grad(loss)(p)
    same(g, [2 * jnp.asarray(l) for l in leaves], "grad")
    if sum(np.size(l) for l in leaves) < 30:
      same(jax.jacfwd(loss)(p), [2 * jnp.asarray(l) for l in leaves], "jacfwd")
    out, vjp = jax.vjp(add, p, 1.0)
    same(vjp(out)[0], [2 * (2 * jnp.asarray(l) + 1) for l in leaves], "vjp")
  outer = jax.tree_util.tree_structure([0, 0])
  tr = jax.tree_util.tree_transpose(treedef, outer, jax.tree_util.tree_map(lambda x: [x, x], p))
  same(tr[0], leaves, "transposed")
  same(jax.device_put(p), leaves, "device_put")


FAMILIES = {
    "filled": dict(fn=filled, quick=130),
    "contract": dict(fn=contract, quick=240),
    "replace": dict(fn=replacing, quick=240),
    "namesakes": dict(fn=namesakes, quick=50),
    "inherit": dict(fn=inheritance, quick=160),
    "dataclass": dict(fn=dataclass_pytree, quick=240),
    "boxed": dict(fn=boxed, quick=110),
}
