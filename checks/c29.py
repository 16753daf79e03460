"""C29: States, definitions, pure modules, variables and pure contexts are lawful pytrees."""
import copy

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np

import nnx
from nnxmon import gen

RULE = (
    "Random variables, States, pure modules (one to three states), definitions and pure "
    "contexts are flattened (with and without key paths), rebuilt, refilled with arbitrary "
    "objects, mapped, copied, compared with twins and with variants that differ in one "
    "type, path, metadata entry, static, edge or flag, and passed through jit, vmap, scan, "
    "cond, eval_shape, grad and tree_transpose next to the plain list of their arrays; "
    "non-trivial = distinct (structure, operation)."
)
NEED = {"flatten": 1200, "refilled": 1200, "equal": 400, "different": 700, "mapped": 500,
        "transformed": 600, "traced-once": 60, "retraced": 30, "algebra": 250}


class Mark:
  pass


def ref_paths(v, prefix=()):
  """[(key path, leaf)] of a value, from its contents."""
  if isinstance(v, nnx.NodeBase if hasattr(nnx, "NodeBase") else (nnx.Node, nnx.TreeNode)):
    return ref_paths(vars(v)["value"], prefix + (jtu.GetAttrKey("value"),))
  if isinstance(v, nnx.State):
    out = []
    for k in sorted(v):
      out += ref_paths(v[k], prefix + (jtu.DictKey(k),))
    return out
  if isinstance(v, nnx.Pytree):
    out = []
    for k in sorted(vars(v)):
      a = vars(v)[k]
      if isinstance(a, (jax.Array, np.ndarray, nnx.Pytree, nnx.State)) or (
          isinstance(a, nnx.Container) and not isinstance(a, nnx.Static)):
        out += ref_paths(a, prefix + (jtu.GetAttrKey(k),))
    return out
  if isinstance(v, (nnx.Static, nnx.ModuleDef)) or v is None:
    return []
  if isinstance(v, dict):
    return [x for k in sorted(v) for x in ref_paths(v[k], prefix + (jtu.DictKey(k),))]
  if isinstance(v, tuple) and hasattr(v, "_fields"):
    return [x for k, a in zip(v._fields, v) for x in ref_paths(a, prefix + (jtu.GetAttrKey(k),))]
  if isinstance(v, (tuple, list)):
    return [x for i, a in enumerate(v) for x in ref_paths(a, prefix + (jtu.SequenceKey(i),))]
  return [(prefix, v)]


def laws(case, obj, what, expected=None, fp=gen.fp):
  """The pytree laws of one object; `expected`: [(key path or None, leaf)]."""
  expected = ref_paths(obj) if expected is None else expected
  leaves, treedef = jtu.tree_flatten(obj)
  case.event("flatten")
  case.check(len(leaves) == len(expected) and all(
      a is b for a, (_, b) in zip(leaves, expected)),
      f"{what}: leaves", got=leaves, want=[b for _, b in expected])
  keyed, treedef2 = jtu.tree_flatten_with_path(obj)
  case.check(treedef2 == treedef, f"{what}: the structure does not depend on the key paths")
  case.check(all(a is b for (_, a), b in zip(keyed, leaves)), f"{what}: leaves with paths")
  if expected and expected[0][0] is not None:
    case.eq([tuple(k) for k, _ in keyed], [tuple(k) for k, _ in expected], f"{what}: key paths")
  case.eq(len({jtu.keystr(k) for k, _ in keyed}), len(leaves), f"{what}: paths are distinct")
  case.eq(treedef.num_leaves, len(leaves), f"{what}: number of leaves")
  hash(treedef)
  want = fp(obj)
  r1, r2 = jtu.tree_unflatten(treedef, leaves), jtu.tree_unflatten(treedef, leaves)
  for r in (r1, r2):
    case.check(type(r) is type(obj), f"{what}: type of the rebuilt object")
    case.check(fp(r) == want, f"{what}: rebuilt object", got=fp(r), want=want)
    case.check(jtu.tree_structure(r) == treedef, f"{what}: structure of the rebuilt object")
  case.check(fp(obj) == want, f"{what}: flattening changed the object")
  if hasattr(r1, "__dict__"):
    case.check(vars(r1) is not vars(r2) and vars(r1) is not vars(obj), f"{what}: shared state")
  # whatever fills it
  rng = case.rng
  for fill in ([Mark() for _ in leaves],
               [rng.choice([1, 2.5, "s", True, jnp.ones(1), len]) for _ in leaves],
               [jax.ShapeDtypeStruct((1,), jnp.float32) for _ in leaves]):
    q = jtu.tree_unflatten(treedef, fill)
    again, td = jtu.tree_flatten(q)
    case.check(len(again) == len(fill) and all(a is b for a, b in zip(again, fill)),
               f"{what}: refilled leaves", got=again, want=fill)
    case.check(td == treedef, f"{what}: refilled structure", got=td, want=treedef)
    case.check(fp(jtu.tree_unflatten(td, leaves)) == want, f"{what}: filled back")
    case.event("refilled")
  # maps
  seen = []
  m = jtu.tree_map(lambda x: (seen.append(x), x)[1], obj)
  case.check(len(seen) == len(leaves) and all(a is b for a, b in zip(seen, leaves)),
             f"{what}: tree_map visits the leaves in order")
  case.check(fp(m) == want, f"{what}: identity map")
  z = jtu.tree_map(lambda a, b: (a, b), obj, r1)
  case.check(all(a is b for a, b in jtu.tree_leaves(z, is_leaf=lambda x: isinstance(x, tuple)
                                                    and len(x) == 2 and x[0] is x[1])),
             f"{what}: two-tree map")
  case.check(jtu.tree_structure(copy.copy(obj)) == treedef, f"{what}: structure of a copy")
  case.event("mapped")
  return leaves, treedef


def differ(case, a, b, what):
  case.check(a != b, f"structures that differ in {what} are taken for equal", a=a, b=b)
  case.check(not (a == b), f"== and != disagree ({what})")
  case.event("different")


def same(case, a, b, what):
  case.check(a == b and not a != b, f"{what}: equal structures are taken for different", a=a, b=b)
  case.check(hash(a) == hash(b), f"{what}: hashes of equal structures")
  case.event("equal")


def bump(v):
  return jtu.tree_map(lambda x: x + 1 if not isinstance(x, (bool,)) else x, v)


# ------------------------------------------------------------ variables


def family_variable(case):
  rng = case.rng
  cls = rng.choice(gen.VAR_TYPES + gen.PLAIN_NODES + [nnx.TreeNode])
  is_var = issubclass(cls, nnx.Variable)
  md = gen.rand_metadata(rng, is_var)
  value = gen.rand_value(rng)
  v = cls(value, **md)
  case.note(cls.__name__, md)
  leaves, td = laws(case, v, cls.__name__,
                    [((jtu.GetAttrKey("value"),) + k, x) for k, x in ref_paths(value)])
  case.sig(cls.__name__, sorted(md), str(jtu.tree_structure(value)))
  same(case, td, jtu.tree_structure(cls(bump(value), **md)), "other values")
  shuffled = list(md.items())
  rng.shuffle(shuffled)
  same(case, td, jtu.tree_structure(cls(value, **dict(shuffled))), "metadata order")
  # one difference at a time
  other = rng.choice([c for c in gen.VAR_TYPES + gen.PLAIN_NODES + [nnx.TreeNode]
                      if c is not cls and issubclass(c, nnx.Variable) == is_var]
                     or [nnx.Param])
  differ(case, td, jtu.tree_structure(other(value, **md)), "the type")
  differ(case, td, jtu.tree_structure(cls(value, **{**md, "tag": ("other", gen.fresh())})),
         "a metadata value")
  differ(case, td, jtu.tree_structure(cls(value, **md, new_key=None)), "a metadata key")
  if md:
    k = rng.choice(sorted(md))
    if not (k == "sharding" and md[k] is None):
      less = {a: b for a, b in md.items() if a != k}
      differ(case, td, jtu.tree_structure(cls(value, **less)), "a missing metadata key")
  if is_var:
    differ(case, td, jtu.tree_structure(cls(value, **{**md, "sharding": ("other", "x", None)})),
           "the sharding")
  differ(case, td, jtu.tree_structure(cls([value, value], **md)), "the value's structure")
  differ(case, td, jtu.tree_structure(value), "being wrapped")
  # statics hold no leaves
  s = gen.rand_static(rng)
  st = nnx.Static(s)
  laws(case, st, "Static", [])
  differ(case, jtu.tree_structure(st), jtu.tree_structure(nnx.Static(("o", gen.fresh()))),
         "a static value")


# ------------------------------------------------------------ states


def rand_state_dict(case, n=None):
  rng = case.rng
  out = {}
  for _ in range(rng.randint(0, 6) if n is None else n):
    path = "/".join(rng.sample(gen.NAMES, rng.randint(1, 3)))
    spec = gen.rand_attr(rng, static_ok=False)
    while not gen.is_node_spec(spec):
      spec = gen.rand_attr(rng, static_ok=False)
    out[path] = gen.make_value(spec)
  return out


def family_state(case):
  rng = case.rng
  d = rand_state_dict(case)
  s = nnx.State(d)
  case.note(sorted(d))
  case.sig([(k, type(v).__name__) for k, v in sorted(d.items())])
  want = [x for k in sorted(d) for x in ref_paths(d[k], (jtu.DictKey(k),))]
  leaves, td = laws(case, s, "State", want)
  items = list(d.items())
  rng.shuffle(items)
  twin = nnx.State(dict(items)) if rng.random() < 0.5 else nnx.State(iter(items))
  same(case, td, jtu.tree_structure(twin), "insertion order")
  case.check(gen.fp(twin) == gen.fp(s), "insertion order")
  case.eq(list(twin), sorted(d), "sorted paths")
  # differences
  if d:
    k = rng.choice(sorted(d))
    renamed = {(a if a != k else a + "_r"): b for a, b in d.items()}
    differ(case, td, jtu.tree_structure(nnx.State(renamed)), "a path")
    differ(case, td, jtu.tree_structure(nnx.State({a: b for a, b in d.items() if a != k})),
           "a missing path")
    differ(case, td, jtu.tree_structure(nnx.State({**d, k: nnx.Extra2(d[k])
                                                   if hasattr(nnx, "Extra2") else [d[k], d[k]]})),
           "a value")
    same(case, td, jtu.tree_structure(nnx.State({**d, k: d[k]})), "the same value")
  differ(case, td, jtu.tree_structure(nnx.State({**d, "zzz": jnp.ones(1)})), "an extra path")
  # what States are made into is lawful too, with the same leaf objects
  fs, preds = gen.rand_exhaustive(rng, 3)
  parts = s.partition(*fs)
  parts = parts if isinstance(parts, tuple) else (parts,)
  for p in parts:
    laws(case, p, "part")
    case.event("algebra")
  joined = nnx.State.merge(*parts)
  laws(case, joined, "merged", want)
  same(case, jtu.tree_structure(joined), td, "partition and merge")
  e = nnx.State(rand_state_dict(case, 2))
  union = s | e
  laws(case, union, "union", [x for k in sorted({**d, **dict(e)})
                              for x in ref_paths({**d, **dict(e)}[k], (jtu.DictKey(k),))])
  diff = union - e
  laws(case, diff, "difference", [x for k in sorted(set(d) - set(e))
                                  for x in ref_paths(d[k], (jtu.DictKey(k),))])
  mapped = jtu.tree_map(lambda x: x, union)
  case.eq(list(mapped), sorted({**d, **dict(e)}), "mapped union keeps the order")
  laws(case, nnx.State(mapped), "State of a State")
  case.event("algebra", 3)
  # at the granularity of entries
  got = jtu.tree_leaves(s, is_leaf=lambda x: not isinstance(x, nnx.State) or x is not s)
  case.check(len(got) == len(d) and all(a is d[k] for a, k in zip(got, sorted(d))),
             "the children of a State are its entries")


# ------------------------------------------------------------ modules


def family_pure(case):
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=5, max_attrs=4, hashable_static=True)
  root = gen.build(recipe, rng)[0]
  case.note(gen.recipe_str(recipe))
  case.sig(gen.recipe_sig(recipe))
  fs, _ = gen.rand_exhaustive(rng, 3)
  pure = root.partition(*fs) if rng.random() < 0.7 else root.partition()
  states = pure.states if isinstance(pure.states, tuple) else (pure.states,)
  want = [(None, x) for s in states for _, x in ref_paths(s)]

  def fp(p):
    ss = p.states if isinstance(p.states, tuple) else (p.states,)
    return (type(p).__name__, type(p.states).__name__, tuple(gen.fp(s) for s in ss),
            def_fp(p.moduledef))

  leaves, td = laws(case, pure, "Pure", want, fp=fp)
  d = pure.moduledef
  laws(case, d, "ModuleDef", [], fp=def_fp)
  # twins
  twin = gen.build(recipe, rng)[0]
  tpure = twin.partition(*fs) if isinstance(pure.states, tuple) or len(fs) == 1 else twin.partition()
  same(case, jtu.tree_structure(tpure.moduledef), jtu.tree_structure(d), "twin definition")
  same(case, tpure.moduledef, d, "twin definition")
  if isinstance(tpure.states, tuple) == isinstance(pure.states, tuple):
    same(case, jtu.tree_structure(tpure), td, "twin")
  # merging what was rebuilt gives the module back
  back = jtu.tree_unflatten(td, leaves).merge()
  case.check(gen.describe(back) == gen.describe(root), "merge of the rebuilt pure module")
  # one difference at a time
  variants = []
  i = rng.randrange(len(recipe))
  variant = lambda f: [dict(cls=n["cls"], attrs=dict(n["attrs"])) for n in recipe]
  v = variant(0)
  v[i]["cls"] = rng.choice([c for c in gen.MODULE_CLASSES if c is not v[i]["cls"]])
  variants.append(("a class", v))
  v = variant(0)
  v[i]["attrs"]["zz_static"] = ("static", gen.fresh())
  variants.append(("an extra static", v))
  statics = [(j, k) for j, n in enumerate(recipe) for k, s in n["attrs"].items()
             if s[0] in ("static", "staticc")]
  if statics:
    j, k = rng.choice(statics)
    v = variant(0)
    v[j]["attrs"][k] = (v[j]["attrs"][k][0], ("changed", gen.fresh()))
    variants.append(("a static value", v))
    v = variant(0)
    v[j]["attrs"][k + "_renamed"] = v[j]["attrs"].pop(k)
    variants.append(("a static name", v))
    v = variant(0)
    kind, val = v[j]["attrs"][k]
    v[j]["attrs"][k] = ("staticc" if kind == "static" else "static", val)
    variants.append(("a boxed static", v))
  v = variant(0)
  v.append({"cls": gen.M0, "attrs": {}})
  v[i]["attrs"]["zz_sub"] = ("sub", len(v) - 1)
  variants.append(("an extra submodule", v))
  v = [dict(cls=n["cls"], attrs=dict(n["attrs"])) for n in v]
  v[i]["attrs"]["zz_sub2"] = ("sub", len(v) - 1)
  variants.append(("a second edge", v))
  w = [dict(cls=n["cls"], attrs=dict(n["attrs"])) for n in v]
  w.append({"cls": gen.M0, "attrs": {}})
  w[i]["attrs"]["zz_sub2"] = ("sub", len(w) - 1)
  pair = (v, w)  # one shared submodule against two equal ones
  for what, r in variants:
    o = gen.build(r)[0].get_module_def()
    differ(case, o, d, what)
    differ(case, jtu.tree_structure(o), jtu.tree_structure(d), what)
  a, b = (gen.build(r)[0].get_module_def() for r in pair)
  differ(case, a, b, "sharing")
  differ(case, jtu.tree_structure(a), jtu.tree_structure(b), "sharing")
  # the definition as a jit key
  if rng.random() < 0.5:
    traces = []

    def f(p, x):
      traces.append(1)
      return x + 1

    g = jax.jit(f)
    g(d, 1.0)
    g(twin.get_module_def(), 1.0)
    case.eq(len(traces), 1, "equal definitions share a trace")
    case.event("traced-once")
    g(gen.build(variants[-1][1])[0].get_module_def(), 1.0)
    case.eq(len(traces), 2, "different definitions do not share a trace")
    h = jax.jit(f, static_argnums=0)
    h(d, 1.0)
    n = len(traces)
    h(twin.get_module_def(), 1.0)
    case.eq(len(traces), n, "as a static argument")
    case.event("retraced")


def def_fp(d):
  return (d.type, d.index, tuple((k, def_fp(s) if isinstance(s, nnx.ModuleDef) else s)
                                 for k, s in d.submodules),
          gen.fp(dict(d.static_fields)), d.module_state)


# ------------------------------------------------------------ contexts


def rand_ctx(case):
  rng = case.rng
  names = rng.sample(["params", "dropout", "noise", "a", "Z", "x10", "x2", "é"],
                     rng.choice([0, 1, 2, 3, 4, 7]))
  seeds = {n: rng.randint(0, 99) for n in names}
  # mostly booleans; any hashable value is accepted (-1 and -2 have the same hash)
  flags = {n: rng.choice([True, False, True, False, -1, -2, 2, "eval", None, (1, -1)])
           for n in rng.sample(["train", "debug", "f", "g", "h", "i", "j"], rng.choice([0, 1, 2, 2, 7]))}
  uses = [(rng.choice(names), rng.randint(0, 1)) for _ in range(rng.randint(0, 5))] if names else []
  return seeds, flags, uses


def make_ctx(seeds, flags, uses):
  ctx = nnx.context(**seeds, flags=flags)
  for n, k in uses:
    if k:
      ctx.partition()
    else:
      ctx.make_rng(n)
  return ctx


def family_context(case):
  rng = case.rng
  seeds, flags, uses = rand_ctx(case)
  case.note(seeds, flags, uses)
  case.sig(sorted(seeds), sorted(flags.items()), uses)
  pure = make_ctx(seeds, flags, uses).partition()
  keys = dict(pure.keys)
  case.eq(sorted(keys), sorted(seeds), "one key per stream")

  def fp(p):
    return (type(p), gen.fp(dict(p.keys)), p.contextdef, hash(p.contextdef))

  leaves, td = laws(case, pure, "PureContext", [(None, keys[n]) for n in sorted(keys)], fp=fp)
  laws(case, pure.contextdef, "ContextDef", [], fp=lambda c: (type(c), c, hash(c)))
  for other in (3, None, "x", (), pure, keys, object()):
    case.check(not (pure.contextdef == other) and not (other == pure.contextdef)
               and pure.contextdef != other, "a definition equals something else", got=other)
  twin = make_ctx(seeds, flags, uses).partition()
  same(case, jtu.tree_structure(twin), td, "twin")
  same(case, twin.contextdef, pure.contextdef, "twin definition")
  other_seed = make_ctx({k: v + 1 for k, v in seeds.items()}, flags, uses).partition()
  same(case, jtu.tree_structure(other_seed), td, "other seeds")
  # the rebuilt context continues exactly as the original does
  def draw(p):
    c = p.merge()
    out = []
    for n in sorted(seeds):
      out += [np.asarray(c.make_rng(n)).tolist() for _ in range(2)]
    inner = c.partition().merge()
    out += [np.asarray(inner.make_rng(n)).tolist() for n in sorted(seeds)]
    return out, {f: c.get_flag(f) for f in flags}, [c.has_rng(n) for n in ("params", "nope")]

  want = draw(pure)
  case.eq(draw(jtu.tree_unflatten(td, leaves)), want, "rebuilt context")
  case.eq(draw(jtu.tree_map(lambda x: x, pure)), want, "mapped context")
  case.eq(draw(jax.jit(lambda p: p)(pure)), want, "context through jit")
  case.eq(want[1], flags, "flags")
  got = jax.jit(lambda p: [p.merge().make_rng(n) for n in sorted(seeds)])(pure)
  ref = [pure.merge().make_rng(n) for n in sorted(seeds)]
  case.eq([np.asarray(a).tolist() for a in got], [np.asarray(a).tolist() for a in ref],
          "keys drawn inside jit")
  # one difference at a time
  def differs(seeds, flags, uses, what):
    o = make_ctx(seeds, flags, uses).partition()
    differ(case, td, jtu.tree_structure(o), what)
    differ(case, pure.contextdef, o.contextdef, what)

  if flags:
    f = rng.choice(sorted(flags))
    other = {-1: -2, -2: -1, (1, -1): (1, -2)}.get(flags[f], not flags[f])
    differs(seeds, {**flags, f: other}, uses, "a flag")
    differs(seeds, {k: v for k, v in flags.items() if k != f}, uses, "a missing flag")
  differs(seeds, {**flags, "other": True}, uses, "an extra flag")
  differs({**seeds, "other": 1}, flags, uses, "an extra stream")
  if seeds:
    n = rng.choice(sorted(seeds))
    differs(seeds, flags, uses + [(n, 0)], "a stream position")
    differs({k: v for k, v in seeds.items() if k != n}, flags,
            [u for u in uses if u[0] != n], "a missing stream")
    # batched keys: one context per slice
    k = 3
    batched = jtu.tree_map(lambda x: jax.random.split(x, k), pure)
    got = jax.vmap(lambda p: [p.merge().make_rng(n) for n in sorted(seeds)])(batched)
    for i in range(k):
      one = jtu.tree_map(lambda x: x[i], batched)
      ref = [one.merge().make_rng(n) for n in sorted(seeds)]
      case.eq([np.asarray(a[i]).tolist() for a in got], [np.asarray(a).tolist() for a in ref],
              "vmap over contexts")
    case.event("transformed")


# ------------------------------------------------------------ transformations


def family_transform(case):
  """jit, vmap, scan, cond, eval_shape, grad treat each object as its list of arrays."""
  rng = case.rng
  kind = rng.choice(["variable", "state", "pure", "tuple"])
  if kind == "variable":
    v = rng.choice(gen.VAR_TYPES)
    p = v(gen.rand_value(rng), **gen.rand_metadata(rng))
  elif kind == "state":
    p = nnx.State(rand_state_dict(case))
  else:
    recipe = gen.rand_recipe(rng, max_modules=4, max_attrs=4, hashable_static=True,
                             jax_only=True)
    root = gen.build(recipe, rng)[0]
    p = root.partition()
    if kind == "tuple":
      p = (root.partition(nnx.Param, nnx.Variable, ...), {"more": root.get_state()})
  p = jtu.tree_map(lambda x: jnp.asarray(0.0 if isinstance(x, gen.CustomNode) else x), p)
  leaves, td = jtu.tree_flatten(p)
  case.note(kind, td)
  case.sig(kind, str(td))
  if not leaves:
    return
  add = lambda t, c: jtu.tree_map(lambda x: x * 2 + c, t)

  def agree(got, want, what):
    gl, gt = jtu.tree_flatten(got)
    case.check(gt == td, f"{what}: structure", got=gt, want=td)
    case.close(gl, want, what)
    case.event("transformed")

  batch = lambda t: jtu.tree_map(lambda x: jnp.stack([x, x * 3, x - 1]
                                                     if x.dtype != bool else [x, ~x, x]), t)
  bp, bl = batch(p), batch(leaves)
  traces = []

  def counted(t, c):
    traces.append(1)
    return add(t, c)

  f = jax.jit(counted)
  agree(f(p, 1), add(leaves, 1), "jit")
  f(jtu.tree_unflatten(td, leaves), 2)
  f(jtu.tree_map(lambda x: x, p), 3)
  case.eq(len(traces), 1, "rebuilt objects retrace jit")
  case.event("traced-once")
  agree(jax.vmap(add, in_axes=(0, None))(bp, 1), jax.vmap(add, in_axes=(0, None))(bl, 1), "vmap")
  agree(jax.vmap(add, in_axes=(None, 0), out_axes=-1)(p, jnp.arange(3)),
        jax.vmap(add, in_axes=(None, 0), out_axes=-1)(leaves, jnp.arange(3)), "vmap, unmapped")
  axes = jtu.tree_map(lambda _: 0, bp)
  agree(jax.vmap(add, in_axes=(axes, 0))(bp, jnp.arange(3)),
        jax.vmap(add, in_axes=(0, 0))(bl, jnp.arange(3)), "vmap, a tree of axes")
  agree(jax.lax.scan(lambda c, x: (jtu.tree_map(lambda a: -a if a.dtype != bool else ~a, c), x),
                     p, jnp.arange(3))[0],
        [-a if a.dtype != bool else ~a for a in leaves], "scan carry")
  agree(jax.lax.scan(lambda c, t: (c, add(t, 1)), 0, bp)[1],
        jax.vmap(add, in_axes=(0, None))(bl, 1), "scan over")
  agree(jax.lax.cond(rng.random() < 0.5, lambda t: t, lambda t: t, p), leaves, "cond")
  agree(jax.lax.while_loop(lambda c: c[0] < 3, lambda c: (c[0] + 1, c[1]), (0, p))[1], leaves,
        "while")
  case.check(jtu.tree_structure(jax.eval_shape(lambda t: t, p)) == td, "eval_shape")
  agree(jax.checkpoint(add)(p, 1), add(leaves, 1), "checkpoint")
  tr = jtu.tree_transpose(td, jtu.tree_structure((0, 0)), jtu.tree_map(lambda x: (x, x), p))
  agree(tr[1], leaves, "transpose")
  agree(jax.device_put(p), leaves, "device_put")
  if all(jnp.issubdtype(l.dtype, jnp.floating) for l in leaves):
    loss = lambda t: sum(jnp.sum(x ** 2) for x in jtu.tree_leaves(t))
    agree(jax.grad(loss)(p), [2 * l for l in leaves], "grad")
    agree(jax.jacfwd(loss)(p), [2 * l for l in leaves], "jacfwd")
  # another structure is refused where the two must match
  q = (p, jnp.ones(1))
  case.raises((TypeError, ValueError), lambda: jtu.tree_map(lambda a, b: a, p, q),
              "mapping over two structures")


FAMILIES = {
    "variable": dict(fn=family_variable, quick=160),
    "state": dict(fn=family_state, quick=140),
    "pure": dict(fn=family_pure, quick=140),
    "context": dict(fn=family_context, quick=60),
    "transform": dict(fn=family_transform, quick=110),
}
