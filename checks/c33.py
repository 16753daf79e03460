"""C33: nnx dataclasses are the standard dataclasses, with their variables wrapped."""
import copy
import dataclasses
import inspect
import typing as tp

import jax
import jax.numpy as jnp

import nnx
from nnxmon import gen

RULE = (
    "Random dataclasses (random field functions, options of every field and of the decorator, "
    "defaults, factories, InitVar, ClassVar, __post_init__, up to three levels of inheritance "
    "with overridden fields) are written twice: with nnx.dataclass and its field functions on "
    "a Module or Pytree, and with the standard library on a plain class; signatures, field "
    "descriptions, accepted and refused calls, values, comparison, order, hashes and printing "
    "are compared between the two, and the container of every attribute with its declaration; "
    "non-trivial = distinct (declaration, call)."
)
NEED = {"built": 700, "refused": 250, "fields": 400, "wrapped": 800, "compared": 500,
        "ordered": 150, "hashed": 60, "printed": 200, "inherited": 120, "roundtrip": 250,
        "factory": 150}


class UserVar(nnx.Variable):
  pass


NAMES = ["a", "b", "w", "x1", "x10", "Z", "value", "rate", "name"]
KINDS = ["plain", "field", "node", "static", "var", "param"]


def nothing_given():
  raise AssertionError("a factory ran although the argument was given")


def rand_value(rng, kind):
  n = gen.fresh()
  if rng.random() < 0.1:
    return None
  if kind in ("plain", "field", "static"):
    return rng.choice([n, f"s{n}", ("t", n), float(n)])
  return rng.choice([n, float(n)])


def declare(rng, names, parent_names, want_default):
  """[(name, kind, variable type, options of the field)]"""
  out = []
  for n in names:
    kind = rng.choice(KINDS)
    opts = {}
    default = rng.choice(["none", "none", "default", "factory"])
    if want_default and default == "none":
      default = rng.choice(["default", "factory"])
    if default == "default":
      opts["default"] = rand_value(rng, kind)
    elif default == "factory":
      v = rand_value(rng, kind)
      opts["default_factory"] = Factory(v)
    if kind == "plain" and default == "factory":
      kind = "field"
    if kind != "plain":
      if rng.random() < 0.25:
        opts["repr"] = False
      if rng.random() < 0.25:
        opts["compare"] = False
      if rng.random() < 0.2:
        opts["hash"] = rng.choice([True, False])
      if rng.random() < (0.2 if default != "none" else 0.1):
        opts["init"] = False
      if rng.random() < 0.3:
        opts["metadata"] = {"doc": n, "k": gen.fresh()}
      if rng.random() < 0.2:  # the defaults spelled out
        for k, v in dict(repr=True, compare=True, hash=None, init=True).items():
          opts.setdefault(k, v)
    if default != "none" and opts.get("init", True):
      want_default = True
    extra = {}
    if kind == "var":
      extra["type"] = rng.choice([nnx.BatchStat, nnx.Cache, nnx.Param, UserVar])
      if rng.random() < 0.5:
        extra["sharding"] = rng.choice([("x",), (None, "y"), None, ()])
    out.append((n, kind, extra, opts))
  return out, want_default


class Factory:

  def __init__(self, value):
    self.value = value
    self.calls = 0

  def __call__(self):
    self.calls += 1
    return self.value


SPECS = {"field": nnx.field, "node": nnx.node_field, "static": nnx.static_field,
         "param": nnx.param_field}


def namespaces(decl, more):
  """(class body for nnx, class body for the twin, factories per side)"""
  real, twin = {"__annotations__": {}}, {"__annotations__": {}}
  for n, kind, extra, opts in decl:
    for ns in (real, twin):
      if n == more.get("kw_only"):
        ns["__annotations__"]["_"] = dataclasses.KW_ONLY
      ns["__annotations__"][n] = tp.Any
    if kind == "plain":
      if "default" in opts:
        real[n] = twin[n] = opts["default"]
      continue
    ropts = dict(opts)
    topts = dict(opts)
    if "default_factory" in opts:
      ropts["default_factory"] = Factory(opts["default_factory"].value)
      topts["default_factory"] = Factory(opts["default_factory"].value)
    twin[n] = dataclasses.field(**topts)
    if kind == "var":
      kw = {"sharding": extra["sharding"]} if "sharding" in extra else {}
      real[n] = nnx.var_field(extra["type"], **kw, **ropts)
    else:
      real[n] = SPECS[kind](**ropts)
  for ns in (real, twin):
    ns["__annotations__"].update(more.get("annotations", {}))
    ns.update(more.get("body", {}))
  return real, twin


def container_of(kind, extra):
  if kind in ("plain", "field"):
    return None
  if kind == "node":
    return (nnx.Node, {})
  if kind == "static":
    return (nnx.Static, {})
  if kind == "param":
    return (nnx.Param, {"sharding": None})
  return (extra["type"], {"sharding": extra.get("sharding")})


def outcome(f):
  try:
    return ("ok", f())
  except (TypeError, AttributeError, ValueError) as e:
    return (type(e).__name__, None)


def sig_of(cls):
  out = []
  for p in list(inspect.signature(cls.__init__).parameters.values())[1:]:
    d = p.default
    if isinstance(d, Factory) or type(d).__name__ == "_HAS_DEFAULT_FACTORY_CLASS":
      d = "factory"
    out.append((p.name, p.kind, d))
  return out


def family(case):
  rng = case.rng
  host = rng.choice(["Module", "Pytree", "Mutable"])
  levels = rng.choice([1, 1, 2, 3])
  opts = {}
  for k, p in (("eq", 0.15), ("repr", 0.25)):
    if rng.random() < p:
      opts[k] = False
  if opts.get("eq", True) and rng.random() < 0.4:
    opts["order"] = True
  if rng.random() < 0.3:
    opts["unsafe_hash"] = True
  if rng.random() < 0.2:  # spelled out defaults
    opts = {**dict(init=True, repr=True, eq=True, order=False, unsafe_hash=False,
                   frozen=False), **opts}
  real_base = {"Module": nnx.Module, "Pytree": nnx.Pytree, "Mutable": nnx.Pytree}[host]
  ckw = {"mutable": True} if host == "Mutable" else {}
  twin_base = object
  decls, order, want_default = {}, [], False
  posts = []
  for level in range(levels):
    pool = [n for n in NAMES if n not in order]
    names = rng.sample(pool, rng.randint(1, min(3, len(pool))))
    decl, want_default = declare(rng, names, order, want_default)
    if order and rng.random() < 0.5:  # override a field of the parent, with a default
      n = rng.choice(order)
      over, _ = declare(rng, [n], order, True)
      if over[0][3].get("init", True):
        decl = over + decl if rng.random() < 0.5 else decl + over
        # a default may not be followed by fields without one
        for i, (m, kind, extra, o) in enumerate(decl):
          if "default" not in o and "default_factory" not in o:
            o["default"] = rand_value(rng, kind)
        want_default = True
    more = {"annotations": {}, "body": {}}
    if rng.random() < 0.3:
      more["annotations"]["shared"] = tp.ClassVar[int]
      more["body"]["shared"] = gen.fresh()
    initvar = level == levels - 1 and rng.random() < 0.25
    if initvar:
      more["annotations"]["seed"] = dataclasses.InitVar[int]
      more["body"]["seed"] = 3
      want_default = True
    if level == levels - 1 and (initvar or rng.random() < 0.3):
      target = rng.choice([d[0] for d in decl])
      bump = gen.fresh()

      def __post_init__(self, *seed, target=target, bump=bump):
        posts.append((type(self).__name__, tuple(seed)))
        setattr(self, target, ("post", getattr(self, target), bump, seed)
                if post_any else bump + sum(seed))

      kinds = {d[0]: d[1] for d in decl}
      post_any = kinds[target] in ("plain", "field", "static")
      more["body"]["__post_init__"] = __post_init__
    if rng.random() < 0.2:
      more["kw_only"] = rng.choice(decl)[0]
    rns, tns = namespaces(decl, more)
    rcls = type(real_base)(f"D{level}", (real_base,), rns, **ckw)
    tcls = type(f"D{level}", (twin_base,), tns)
    for c in (rcls, tcls):
      c.__qualname__ = f"D{level}"
    lopts = dict(opts)
    deco = rng.random() < 0.8
    bare = not lopts and rng.random() < 0.5
    d = nnx.dataclass if deco else dataclasses.dataclass
    rdone = outcome(lambda: d(rcls) if bare else d(**lopts)(rcls))
    tdone = outcome(lambda: dataclasses.dataclass(**lopts)(tcls))
    case.eq(rdone[0], tdone[0], "class accepted or refused like the standard dataclass",
            decl=decl)
    if tdone[0] != "ok":
      case.event("refused")
      case.sig("class", host, decl)
      return
    rcls, tcls = rdone[1], tdone[1]
    real_base, twin_base = rcls, tcls
    for n, kind, extra, o in decl:
      if n not in order:
        order.append(n)
      decls[n] = (kind, extra, o)
    if level:
      case.event("inherited")
  cls, tcls = real_base, twin_base
  case.note(host, opts, [(n, decls[n][0], sorted(decls[n][2])) for n in order], levels)
  case.sample((host, opts, [(n, decls[n][0]) for n in order]))

  # the description of the fields
  case.eq([f.name for f in dataclasses.fields(cls)], [f.name for f in dataclasses.fields(tcls)],
          "names of the fields")
  for f, g in zip(dataclasses.fields(cls), dataclasses.fields(tcls)):
    for k in ("default", "init", "repr", "hash", "compare", "kw_only", "type"):
      case.eq(getattr(f, k), getattr(g, k), f"{k} of field {f.name}")
    case.eq(isinstance(f.default_factory, Factory), isinstance(g.default_factory, Factory),
            f"factory of field {f.name}")
    md = {k: v for k, v in f.metadata.items() if k != "nnx_container_fn"}
    case.eq(md, dict(g.metadata), f"metadata of field {f.name}")
    case.event("fields")
  for n, (kind, extra, o) in decls.items():
    if "metadata" in o:
      case.eq(sorted(o["metadata"]), ["doc", "k"], "the given metadata is not modified")
  case.eq(sig_of(cls), sig_of(tcls), "signature of the constructor")
  case.eq(cls.__match_args__, tcls.__match_args__, "match arguments")

  # calls
  params = list(inspect.signature(tcls).parameters)
  keyword = {p.name for p in inspect.signature(tcls).parameters.values()
             if p.kind is p.KEYWORD_ONLY}
  pairs = []
  for attempt in range(rng.randint(3, 5)):
    give = [p for p in params if p not in decls or rng.random() < 0.75
            or not ("default" in decls[p][2] or "default_factory" in decls[p][2])]
    if rng.random() < 0.25 and give:  # maybe not acceptable
      give.remove(rng.choice(give))
    values = {p: (rand_value(rng, decls[p][0]) if p in decls else gen.fresh()) for p in give}
    npos = 0
    while npos < len(give) and npos < len(params) and give[npos] == params[npos] \
        and params[npos] not in keyword:
      npos += 1
    npos = rng.randint(0, npos)
    args = [values[p] for p in params[:npos]]
    kw = {p: values[p] for p in give if p not in params[:npos]}
    if rng.random() < 0.15:
      kw[rng.choice(["unknown", "shared", "nnx"])] = 1
    if rng.random() < 0.1:
      args = args + [1] * (len(params) + 1)
    kw = dict(rng.sample(list(kw.items()), len(kw)))
    posts.clear()
    t = outcome(lambda: tcls(*args, **kw))
    tposts = list(posts)
    posts.clear()
    r = outcome(lambda: cls(*args, **kw))
    case.eq(r[0], t[0], "accepted or refused like the standard dataclass", args=args, kw=kw)
    case.eq(posts, tposts, "__post_init__ calls")
    if t[0] != "ok":
      case.event("refused")
      continue
    case.event("built")
    r, t = r[1], t[1]
    check_instance(case, r, t, decls, host)
    pairs.append((r, t))
  for f in dataclasses.fields(cls):
    if isinstance(f.default_factory, Factory):
      other = next(g for g in dataclasses.fields(tcls) if g.name == f.name)
      case.eq(f.default_factory.calls, other.default_factory.calls, "calls of the factory")
      case.event("factory")

  # comparisons, order, hashes, printing
  for r, t in list(pairs):
    if rng.random() < 0.6 and opts.get("eq", True):  # an equal one, or one that differs once
      r2, t2 = dup(rng, cls, tcls, r, t, decls, params)
      if r2 is not None:
        pairs.append((r2, t2))
  for r, t in pairs:
    for r2, t2 in pairs:
      case.eq(outcome(lambda: r == r2), outcome(lambda: t == t2), "comparison")
      case.event("compared")
      for op in ("__lt__", "__le__", "__gt__", "__ge__"):
        has = [hasattr(c, op) and getattr(c, op) is not getattr(object, op, None)
               for c in (cls, tcls)]
        case.eq(has[0], has[1], f"defines {op}")
        if opts.get("order"):
          a, b = outcome(lambda: getattr(r, op)(r2)), outcome(lambda: getattr(t, op)(t2))
          case.eq(a, b, f"order by {op}")
          case.event("ordered")
    case.eq(r == object(), t == object(), "comparison with something else")
    if opts.get("unsafe_hash"):
      case.eq(outcome(lambda: hash(r)), outcome(lambda: hash(t)), "hash")
      case.event("hashed")
    if opts.get("repr", True):
      case.eq(outcome(lambda: repr(r)), outcome(lambda: repr(t)), "printing")
      case.event("printed")
    else:
      case.check(isinstance(repr(r), str), "printing")
  if opts.get("eq", True) and not opts.get("unsafe_hash"):
    case.check(cls.__hash__ is None, "an unhashable class, as of the standard library")
  case.eq(getattr(cls, "shared", None), getattr(tcls, "shared", None), "class variable")

  for r, t in pairs[:2]:
    roundtrips(case, r, t, decls, host, cls)
  case.sig(host, sorted(opts.items()), [(n, decls[n][0], sorted(decls[n][2])) for n in order],
           len(pairs))


def dup(rng, cls, tcls, r, t, decls, params):
  values = {}
  for p in params:
    if p in decls:
      values[p] = getattr(t, p)
    else:
      values[p] = 5
  if rng.random() < 0.5:
    n = rng.choice([p for p in params if p in decls] or [None])
    if n is not None:
      values[n] = rand_value(rng, decls[n][0])
  a, b = outcome(lambda: cls(**values)), outcome(lambda: tcls(**values))
  if a[0] != "ok" or b[0] != "ok":
    return None, None
  return a[1], b[1]


def check_instance(case, r, t, decls, host, what="constructed"):
  for n, (kind, extra, o) in decls.items():
    has = hasattr(t, n)
    case.eq(n in vars(r) or hasattr(r, n), has, f"{what}: has {n}")
    if not has:
      continue
    got, want = getattr(r, n), getattr(t, n)
    case.check(got is want or (type(got) is type(want) and got == want), f"{what}: value of {n}",
               got=got, want=want)
    if n not in vars(r):
      continue
    raw, c = vars(r)[n], container_of(kind, extra)
    if c is None:
      case.check(not isinstance(raw, nnx.Container), f"{what}: {n} is a plain attribute", got=raw)
    else:
      case.check(type(raw) is c[0], f"{what}: container of {n}", got=type(raw), want=c[0])
      case.eq({k: v for k, v in vars(raw).items() if k != "value"}, c[1],
              f"{what}: metadata of {n}")
    case.event("wrapped")


def roundtrips(case, r, t, decls, host, cls):
  """Copies, rebuilt objects and standard functions keep the values and the containers."""
  nodes = [n for n, (k, e, o) in decls.items()
           if k in ("node", "var", "param") and hasattr(t, n)]
  if host == "Module":
    case.eq(sorted(r.get_state()), sorted(nodes), "state")
    m = r.partition().merge()
    check_instance(case, m, t, decls, host, "merged")
    check_instance(case, r.clone(), t, decls, host, "cloned")
    t2 = copy.copy(t)
    for n in nodes:
      setattr(r, n, 77)
      setattr(t2, n, 77)
    check_instance(case, r, t2, decls, host, "assigned")
    case.event("roundtrip", 3)
    replaced(case, r, t2, decls, host, cls)
    return
  leaves, treedef = jax.tree_util.tree_flatten(r)
  want = [getattr(t, n) for n in sorted(nodes) if getattr(t, n) is not None]
  case.eq(leaves, want, "leaves are the node fields")
  check_instance(case, jax.tree_util.tree_unflatten(treedef, leaves), t, decls, host, "rebuilt")
  t2 = copy.copy(t)
  for n in nodes:
    if getattr(t, n) is not None:
      setattr(t2, n, getattr(t, n) + 1)
  check_instance(case, jax.tree_util.tree_map(lambda v: v + 1, r), t2, decls, host, "mapped")
  case.event("roundtrip", 2)
  replaced(case, r, t, decls, host, cls)


def replaced(case, r, t, decls, host, cls):
  fields = [f for f in dataclasses.fields(cls) if f.init]
  if "__post_init__" in dir(cls) or any(not f.init for f in dataclasses.fields(cls)):
    return
  ch = {f.name: rand_value(case.rng, decls[f.name][0])
        for f in case.rng.sample(fields, case.rng.randint(0, len(fields)))}
  t3 = dataclasses.replace(t, **ch)
  before = gen.fp(r) if host != "Module" else None
  new = dataclasses.replace(r, **ch)
  check_instance(case, new, t3, decls, host, "dataclasses.replace")
  case.eq(dataclasses.astuple(new), dataclasses.astuple(t3), "astuple")
  case.eq(dataclasses.asdict(new), dataclasses.asdict(t3), "asdict")
  check_instance(case, r, t, decls, host, "original after replace")
  if host != "Module":
    check_instance(case, r.replace(**ch), t3, decls, host, "replaced")
    case.eq(gen.fp(r), before, "replace leaves the original")
  case.event("roundtrip", 2)


def frozen(case):
  """frozen=True: assignment and deletion are refused as in the standard library."""
  rng = case.rng
  host = rng.choice([nnx.Pytree, nnx.Pytree])
  kind = rng.choice(["plain", "node", "param", "static"])
  opts = {"frozen": True}
  if rng.random() < 0.7:
    opts["eq"] = rng.random() < 0.6
  decl = [("a", kind, {}, {})]
  rns, tns = namespaces(decl, {})
  cls = nnx.dataclass(**opts)(type(host)("F", (host,), rns))
  tcls = dataclasses.dataclass(**opts)(type("F", (), tns))
  v = rand_value(rng, kind)
  r, t = cls(v), tcls(v)
  check_instance(case, r, t, {"a": decl[0][1:]}, "Pytree")
  case.raises(AttributeError, lambda: setattr(r, "a", 1), "assignment to a frozen object")
  case.raises(AttributeError, lambda: delattr(r, "a"), "deletion from a frozen object")
  if opts.get("eq", True):
    case.eq(hash(r), hash(t), "frozen objects hash by value")
  else:
    case.check(cls.__hash__ is host.__hash__ and r != cls(v), "eq=False keeps the identity")
  w = rand_value(rng, kind)
  check_instance(case, r.replace(a=w), tcls(w), {"a": decl[0][1:]}, "Pytree", "replaced")
  check_instance(case, r, t, {"a": decl[0][1:]}, "Pytree", "after replace")
  case.event("built")
  case.sig(kind, sorted(opts), v)


def no_init(case):
  """init=False: the class keeps its own constructor; declared variables are wrapped after it."""
  rng = case.rng
  host = rng.choice([nnx.Pytree, nnx.Module])
  kind = rng.choice(["node", "param", "static", "field"])
  c = container_of(kind, {})

  def __init__(self, p):
    self.a = p * 2

  ns = {"__annotations__": {"a": tp.Any}, "a": SPECS[kind](), "__init__": __init__}
  cls = nnx.dataclass(init=False)(type(host)("N", (host,), ns))
  case.check(cls.__init__ is __init__, "init=False keeps the constructor")
  r = cls(4)
  case.eq(r.a, 8, "value of the constructor")
  raw = vars(r)["a"]
  case.check(type(raw) is c[0] if c else not isinstance(raw, nnx.Container), "container", got=raw)
  case.event("built")
  case.event("wrapped")
  case.sig(host.__name__, kind)


def boxed(case):
  """A field that is given a variable: an equivalent one is taken, another one refused."""
  rng = case.rng
  host = rng.choice([nnx.Pytree, nnx.Module])
  kind = rng.choice(["node", "static", "param", "var", "var"])
  extra = {}
  if kind == "var":
    extra["type"] = rng.choice([nnx.BatchStat, nnx.Cache, nnx.Param, UserVar])
    extra["sharding"] = rng.choice([("x",), (None, "y"), None])
  rns, _ = namespaces([("a", kind, extra, {}), ("z", "field", {}, {})], {})
  cls = nnx.dataclass(type(host)("X", (host,), rns))
  t, md = container_of(kind, extra)
  inner = rand_value(rng, kind)
  good = t(inner, **md)
  r = cls(good, 1)
  got = vars(r)["a"]
  case.check(type(got) is t and got is not good, "container of an equivalent argument", got=got)
  case.eq({k: v for k, v in vars(got).items() if k != "value"}, md, "its metadata")
  case.check(r.a is inner, "its value", got=r.a, want=inner)
  case.event("wrapped")
  other = rng.choice([q for q in (nnx.Param, nnx.Cache, nnx.Node, nnx.Static) if q is not t])
  bads = [other(inner)]
  if issubclass(t, nnx.Variable):
    bads += [t(inner, **{**md, "tag": 1}), t(inner, **{**md, "sharding": ("other",)})]
  for bad in bads:
    case.raises(ValueError, lambda: cls(bad, 1), "a container that is not the declared one")
    case.event("boxed_refused")
  case.sig(host.__name__, kind, str(extra))


FAMILIES = {
    "boxed": dict(fn=boxed, quick=60),
    "classes": dict(fn=family, quick=420),
    "frozen": dict(fn=frozen, quick=60),
    "no_init": dict(fn=no_init, quick=30),
}
