"""C32: models built in a trace, stacked, restored or composed are the models built directly."""
import io
import os
import pickle
import shutil
import tempfile

import jax
import jax.numpy as jnp
import numpy as np
from flax import serialization

import nnx
from checks import c31
from nnxmon import gen

RULE = (
    "Random module graphs and real networks are built directly and, by the same code, under "
    "eval_shape, jit, vmap, scan, cond, checkpoint and nestings; they are saved (pickle, npz, "
    "msgpack, orbax; whole or by filter groups) and restored into definitions, abstract or "
    "freshly built models; stacked models are compared slice by slice and run by hand-written "
    "scans and vmaps; pretrained parts are composed, swapped and partly trained; non-trivial = "
    "distinct (graph, route)."
)
NEED = {"built": 340, "abstract": 80, "mutable_after": 450, "restored": 280, "partial": 110,
        "orbax": 20, "stacked_member": 26, "stacked_run": 11, "composed": 340, "swapped": 80}


def leaves_equal(case, got, want, what, exact=True):
  """Same tree structure (paths, containers, metadata) and the same leaves."""
  gl, gt = jax.tree_util.tree_flatten(got)
  wl, wt = jax.tree_util.tree_flatten(want)
  case.check(gt == wt, f"{what}: structure", got=gt, want=wt)
  for i, (a, b) in enumerate(zip(gl, wl)):
    a, b = np.asarray(a), np.asarray(b)
    case.eq(a.shape, b.shape, f"{what}: shape of leaf {i}")
    if exact:
      case.check(np.array_equal(a, b), f"{what}: leaf {i}", got=a, want=b)
    else:
      case.check(np.allclose(a, b, rtol=1e-5, atol=1e-6), f"{what}: leaf {i}", got=a, want=b)


def same_module(case, got, want, what, exact=True):
  gs, gd = got.partition()
  ws, wd = want.partition()
  case.check(gd == wd, f"{what}: definition", got=gd, want=wd)
  leaves_equal(case, gs, ws, what, exact)
  case.eq(len(gen.all_modules(got)), len(gen.all_modules(want)), f"{what}: distinct modules")
  ids = set(map(id, gen.all_modules(got))) & set(map(id, gen.all_modules(want)))
  case.check(not ids, f"{what}: new module objects")


def mutable(case, m, what):
  """The model can be changed here, at the top level."""
  for i, mod in enumerate(gen.all_modules(m)):
    mod.zz_probe = nnx.Param(jnp.float32(i))
    mod.zz_probe = jnp.float32(i + 1)
    del mod.zz_probe
  case.event("mutable_after")


# ---------------------------------------------------------------- building inside transforms


def routes(rng, build):
  """name -> function giving (pure, kind); kind: how the leaves are laid out."""

  def scan():
    return jax.lax.scan(lambda c, _: (c, build()), 0, None, length=2)[1]

  return {
      "direct": (build, None),
      "jit": (lambda: jax.jit(build)(), None),
      "jit-twice": (lambda: jax.jit(lambda: jax.jit(build)())(), None),
      "checkpoint": (lambda: jax.checkpoint(lambda: build())(), None),
      "cond": (lambda: jax.lax.cond(rng.random() < 0.5, build, build), None),
      "jit-cond": (lambda: jax.jit(lambda p: jax.lax.cond(p, build, build))(True), None),
      "vmap": (lambda: jax.vmap(lambda _: build())(jnp.arange(3)), 0),
      "scan": (scan, 0),
      "jit-vmap": (lambda: jax.jit(jax.vmap(lambda _: build()))(jnp.arange(2)), 0),
      "eval_shape": (lambda: jax.eval_shape(build), "abstract"),
      "eval_shape-jit": (lambda: jax.eval_shape(jax.jit(build)), "abstract"),
      "eval_shape-vmap": (lambda: jax.eval_shape(jax.vmap(lambda _: build()), jnp.arange(3)),
                          "abstract3"),
  }


def abstract(case):
  rng = case.rng
  if rng.random() < 0.75:
    recipe = gen.rand_recipe(rng, max_modules=6, jax_only=True, hashable_static=True)
    order = rng.randint(0, 10**9)
    import random

    make = lambda: gen.build(recipe, random.Random(order))[0]
    case.note(gen.recipe_str(recipe))
    case.sample(gen.recipe_str(recipe))
    sig = gen.recipe_sig(recipe)
    exact = True
  else:
    specs, _, _ = c31.rand_net(rng)
    seed = gen.fresh()
    make = lambda: c31.Net(specs, ctx=nnx.context(seed))
    sig = [s["kind"] for s in c31.walk(specs)]
    case.note(sig)
    exact = False
  nfilters = rng.randint(0, 2)
  filters = [(), (nnx.Param, ...), (nnx.BatchStat, nnx.Param, ...)][nfilters]

  def build():
    return make().partition(*filters)

  want_m = make()
  before = gen.describe(want_m)
  want = want_m.partition(*filters)
  want_leaves = jax.tree_util.tree_leaves(want)
  rs = routes(rng, build)
  names = rng.sample(sorted(rs), 4)
  if not exact:
    names = names[:2]
  for name in names:
    case.note("route", name)
    run, layout = rs[name]
    got = run()
    case.check(type(got) is type(want), f"{name}: type", got=type(got), want=type(want))
    gt, wt = map(jax.tree_util.tree_structure, (got, want))
    case.check(gt == wt, f"{name}: structure", got=gt, want=wt)
    gl = jax.tree_util.tree_leaves(got)
    if layout in ("abstract", "abstract3"):
      for i, (g, w) in enumerate(zip(gl, want_leaves)):
        w = jnp.asarray(w)
        lead = (3,) if layout == "abstract3" else ()
        case.check(isinstance(g, jax.ShapeDtypeStruct), f"{name}: leaf {i} is abstract")
        case.eq((g.shape, g.dtype), (lead + w.shape, w.dtype), f"{name}: leaf {i}")
      case.event("abstract")
      # an abstract model is a module whose leaves are shapes
      shell = got.merge()
      case.eq(len(gen.all_modules(shell)), len(gen.all_modules(want_m)), f"{name}: shell")
      leaves = want_leaves
    elif layout == 0:
      for i, (g, w) in enumerate(zip(gl, want_leaves)):
        w = np.asarray(w)
        case.eq(g.shape[1:], w.shape, f"{name}: leaf {i}")
      leaves = [g[1] for g in gl]
    else:
      leaves = gl
    filled = jax.tree_util.tree_unflatten(gt, leaves)
    if rng.random() < 0.5:
      parts = filled[0] if isinstance(filled[0], tuple) else (filled[0],)
      moduledef = filled[1]
      parts = list(parts)
      rng.shuffle(parts)
      m = moduledef.merge(*parts)
    else:
      m = filled.merge()
    same_module(case, m, want_m, name, exact)
    mutable(case, m, name)
    case.event("built")
  case.eq(gen.describe(want_m), before, "the direct model is unchanged")
  case.sig(sig, names, nfilters)


# ---------------------------------------------------------------- saving and restoring


def save_load(case, kind, state):
  """state -> another State object with the same content, through bytes."""
  leaves, treedef = jax.tree_util.tree_flatten(state)
  if kind == "pickle":
    return pickle.loads(pickle.dumps(state))
  if kind == "pickle-leaves":
    return jax.tree_util.tree_unflatten(treedef, pickle.loads(pickle.dumps(
        [np.asarray(x) for x in leaves])))
  if kind == "npz":
    f = io.BytesIO()
    flat = jax.tree_util.tree_flatten_with_path(state)[0]
    keys = [jax.tree_util.keystr(p) for p, _ in flat]
    case.eq(len(set(keys)), len(keys), "key paths name the leaves uniquely")
    np.savez(f, **{f"k{i}": np.asarray(v) for i, (_, v) in enumerate(flat)})
    f.seek(0)
    data = np.load(f)
    byname = {k: data[f"k{i}"] for i, k in enumerate(keys)}
    return jax.tree_util.tree_map_with_path(lambda p, _: byname[jax.tree_util.keystr(p)], state)
  if kind == "msgpack":
    data = serialization.msgpack_serialize([np.asarray(x) for x in leaves])
    return jax.tree_util.tree_unflatten(treedef, serialization.msgpack_restore(data))
  if kind == "items":
    # path -> variable, as a user would write it
    return nnx.State({k: (v.replace(value=jax.tree_util.tree_map(np.array, v.value))
                          if isinstance(v, nnx.Container) else v) for k, v in state.items()})
  if kind == "orbax":
    import orbax.checkpoint as orbax

    tmp = tempfile.mkdtemp(prefix="nnxmon-orbax-")
    try:
      path = os.path.join(tmp, "state")
      ckpt = orbax.PyTreeCheckpointer()
      ckpt.save(path, state)
      item = jax.tree_util.tree_map(
          lambda x: jax.ShapeDtypeStruct(np.shape(x), jnp.asarray(x).dtype), state)
      out = ckpt.restore(path, item=item)
      case.event("orbax")
      return out
    finally:
      shutil.rmtree(tmp)
  raise AssertionError(kind)


def bump(state):
  """The same State with other values."""
  return jax.tree_util.tree_map(
      lambda x: np.asarray(~np.asarray(x) if np.asarray(x).dtype == bool else np.asarray(x) + 1),
      state)


def checkpoint(case):
  rng = case.rng
  real = rng.random() < 0.2
  if real:
    specs, _, _ = c31.rand_net(rng)
    seed = gen.fresh()
    make = lambda s: c31.Net(specs, ctx=nnx.context(s))
    model, fresh = make(seed), make(seed + 1)
    sig = [s["kind"] for s in c31.walk(specs)]
    case.note(sig)
  else:
    recipe = gen.rand_recipe(rng, max_modules=6, jax_only=True, hashable_static=True)
    model = gen.build(recipe, rng)[0]
    fresh = model.clone()
    fresh.update_state(bump(fresh.get_state()))
    sig = gen.recipe_sig(recipe)
    case.note(gen.recipe_str(recipe))
    case.sample(gen.recipe_str(recipe))
  before = gen.describe(model)
  kinds = ["pickle", "pickle-leaves", "npz", "msgpack", "items"]
  if real or case.index % 24 == 0:
    kinds = ["orbax"]
  kind = rng.choice(kinds)
  case.note("format", kind)
  state, moduledef = model.partition()
  if kind == "orbax" and not jax.tree_util.tree_leaves(state):
    kind = "pickle"
  restored = save_load(case, kind, state)
  leaves_equal(case, restored, state, f"{kind}: restored State")
  # into the definition, in any number of groups
  if rng.random() < 0.5:
    groups = restored.partition(*rng.choice([(nnx.Param, ...), (nnx.BatchStat, nnx.Param, ...)]))
    m = moduledef.merge(*groups)
  else:
    m = moduledef.merge(restored)
  same_module(case, m, model, f"{kind}: merged")
  mutable(case, m, "restored")
  case.event("restored")
  # into a freshly built model: its objects stay, its values become those saved
  objs = gen.all_modules(fresh)
  fresh_state = jax.tree_util.tree_map(np.asarray, fresh.get_state())
  fresh.update_state(restored)
  same_module(case, fresh, model, f"{kind}: updated in place")
  case.check([id(a) for a in gen.all_modules(fresh)] == [id(a) for a in objs],
             "the modules of the fresh model are kept")
  case.event("restored")
  # only a part of the entries
  flt = gen.rand_filter(rng)
  part = restored.filter(flt) if rng.random() < 0.5 else save_load(
      case, rng.choice(["pickle", "npz", "msgpack"]), state.filter(flt))
  fresh.update_state(fresh_state)
  fresh.update_state(part)
  want = {k: (state[k] if k in part else fresh_state[k]) for k in state}
  leaves_equal(case, fresh.get_state(), nnx.State(want), "partly restored")
  case.event("partial")
  # whole pure modules and modules through pickle (statics here are picklable)
  if not real and rng.random() < 0.5:
    pure = pickle.loads(pickle.dumps(model.partition()))
    case.check(pure[1] == moduledef, "pickled definition")
    same_module(case, pure.merge(), model, "pickled pure module")
    case.event("restored")
  case.eq(gen.describe(model), before, "the saved model is unchanged")
  case.sig(sig, kind)


# ---------------------------------------------------------------- stacked models


def stacked(case):
  rng = case.rng
  specs, din, dout = c31.rand_net(rng)
  d = specs[0]["dout"]
  specs[0]["d"] = d  # d -> d, so that layers can follow each other
  specs[-1]["dout"] = d
  flat = list(c31.walk(specs))
  n = rng.randint(2, 3)
  case.note("net", [(s["kind"], s.get("to")) for s in flat], "n", n)
  how = rng.choice(["context(key)", "ctxdef"])
  root = nnx.context(rng.randint(0, 10**6))
  if how == "context(key)":
    keys = jax.random.split(root.make_rng("params"), n)
    build = lambda k: c31.Net(specs, ctx=nnx.context(k)).partition()
    one = lambda i: c31.Net(specs, ctx=nnx.context(keys[i]))
  else:
    parts, ctxdef = root.partition()
    keys = jax.random.split(parts["params"], n)
    build = lambda k: c31.Net(specs, ctx=ctxdef.merge({"params": k})).partition()
    one = lambda i: c31.Net(specs, ctx=ctxdef.merge({"params": keys[i]}))
  vb = jax.vmap(build)
  if rng.random() < 0.5:
    vb = jax.jit(vb)
  model = vb(keys).merge()
  members = [one(i) for i in range(n)]
  state, moduledef = model.partition()
  for i, m in enumerate(members):
    s_i = jax.tree_util.tree_map(lambda v: v[i], state)
    leaves_equal(case, s_i, m.get_state(), f"member {i}", exact=False)
    same_module(case, moduledef.merge(s_i), m, f"member {i}", exact=False)
    case.event("stacked_member")
  mutable(case, model, "stacked")
  # use: vmapped, sliced, and scanned by hand, with the new states written back
  x = jnp.asarray(case.np.normal(size=(8, d)), jnp.float32)
  flags = dict(use_running_average=False, deterministic=True)
  for m in members:
    m.body  # members are used below, each in place
  if rng.random() < 0.5:
    outs = [m(x, ctx=nnx.context(0, flags=flags)) for m in members]
    y, pure = jax.vmap(
        lambda p: p.apply(x, ctx=nnx.context(0, flags=flags)))(model.partition())
    case.close(y, jnp.stack(outs), "vmapped call", rtol=5e-3, atol=5e-4)
    new_state = pure.get_state()
    how2 = "vmap"
  else:
    out = x
    for m in members:
      out = m(out, ctx=nnx.context(0, flags=flags))

    def body(c, s):
      net = moduledef.merge(s)
      c = net(c, ctx=nnx.context(0, flags=flags))
      return c, net.get_state()

    y, new_state = jax.lax.scan(body, x, state)
    case.close(y, out, "scanned by hand", rtol=1e-2, atol=1e-3)
    how2 = "scan"
  model.update_state(new_state)
  got = model.get_state()
  for i, m in enumerate(members):
    want = m.get_state()
    case.check(list(want) == list(got), f"member {i}: entries after the call")
    s_i = jax.tree_util.tree_map(lambda v: v[i], got)
    case.check(jax.tree_util.tree_structure(s_i) == jax.tree_util.tree_structure(want),
               f"member {i}: structure after the call")
    case.close(s_i, want, f"member {i}: state after the call", rtol=1e-2, atol=1e-3)
  case.event("stacked_run")
  case.sig([s["kind"] for s in flat], n, how, how2)


# ---------------------------------------------------------------- surgery


class Composite(nnx.Module):
  pass


def surgery(case):
  rng = case.rng
  nparts = rng.randint(1, 3)
  parts = []
  for _ in range(nparts):
    recipe = gen.rand_recipe(rng, max_modules=4, jax_only=True, hashable_static=True)
    parts.append(gen.build(recipe, rng)[0])
    case.note(gen.recipe_str(recipe))
  comp = Composite()
  uses = {}  # attribute -> part index
  for name in rng.sample(["backbone", "head", "encoder", "back", "z"], rng.randint(nparts, 4)):
    uses[name] = rng.randrange(nparts)
    setattr(comp, name, parts[uses[name]])

  def expected():
    """{path: entry} of the composite from the states of its parts."""
    out, seen = {}, set()
    for name in sorted(uses):
      p = uses[name]
      if p in seen:
        continue
      seen.add(p)
      for k, v in parts[p].get_state().items():
        out[f"{name}/{k}"] = v
    return out

  def verify(what):
    want = nnx.State(expected())
    got = comp.get_state()
    case.eq(list(got), list(want), f"{what}: paths")
    leaves_equal(case, got, want, what)
    for name, p in uses.items():
      case.check(getattr(comp, name) is parts[p], f"{what}: {name} is the part itself")
    case.event("composed")

  verify("composed")
  for step in range(rng.randint(1, 3)):
    op = rng.choice(["train", "train", "swap", "swap", "drop"])
    case.note(op)
    if op == "train":
      prefix = rng.choice(sorted(uses)) if uses else "none"
      typ = rng.choice([nnx.Param, nnx.Variable, ...])
      flt = nnx.All(typ, lambda path, v: path.startswith(prefix)) if typ is not ... else (
          lambda path, v: path.startswith(prefix))
      (train, frozen), moduledef = comp.partition(flt, ...)
      want = expected()
      chosen = [k for k in want if k.startswith(prefix)
                and (typ is ... or isinstance(want[k], typ))]
      case.eq(sorted(train), sorted(chosen), "trainable paths")
      new = bump(train)
      comp.update_state(new)
      after = expected()
      for k in want:
        w = new[k] if k in chosen else want[k]
        case.eq(gen.fp_np(after[k]), gen.fp_np(w), f"{k} after training {prefix}")
      leaves_equal(case, moduledef.merge(train, frozen).get_state(), nnx.State(want),
                   "merged back")
    elif op == "swap" and uses:
      name = rng.choice(sorted(uses))
      recipe = gen.rand_recipe(rng, max_modules=3, jax_only=True, hashable_static=True)
      parts.append(gen.build(recipe, rng)[0])
      old = parts[uses[name]]
      before = gen.describe(old)
      uses[name] = len(parts) - 1
      setattr(comp, name, parts[-1])
      case.eq(gen.describe(old), before, "the replaced part is unchanged")
      case.event("swapped")
    elif op == "drop" and uses:
      name = rng.choice(sorted(uses))
      del uses[name]
      delattr(comp, name)
    verify(f"after {op}")
    # a copy of the composite holds copies of the parts
    c = comp.clone()
    same_module(case, c, comp, "clone of the composite")
    for a in uses:
      for b in uses:
        case.eq(getattr(c, a) is getattr(c, b), getattr(comp, a) is getattr(comp, b),
                "sharing of parts in the clone")
  case.sig(sorted(uses.items()), len(parts), [gen.describe(p, values=False) for p in parts][:0])


FAMILIES = {
    "abstract": dict(fn=abstract, quick=200),
    "checkpoint": dict(fn=checkpoint, quick=240),
    "stacked": dict(fn=stacked, quick=24),
    "surgery": dict(fn=surgery, quick=240),
}
