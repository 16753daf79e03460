"""C19: flax serialization of Pytrees is an exact round trip into a target."""
import copy
import typing as tp

import jax
import jax.numpy as jnp
import numpy as np
from flax import serialization

import nnx
from nnxmon import gen, ptgen

RULE = (
    "Random Pytree classes (nested, containers of every kind, dicts/lists/tuples of arrays, "
    "dataclass fields, statics) are converted to flax state dicts and bytes and restored "
    "into targets with other values, statics and metadata; the dict is compared with the one "
    "derived from the field description, the result with (source values, target statics); "
    "dicts with a field missing or added at a random depth must be refused and leave the "
    "target untouched; non-trivial = distinct (fields, mutation)."
)
NEED = {"state_dict": 250, "restored": 400, "bytes": 120, "refused": 250, "dataclass": 60,
        "statics_kept": 120}


def bump(rng, v):
  k = gen.fresh() * 16
  return jax.tree_util.tree_map(
      lambda x: (~x if x.dtype == bool else x + np.asarray(k, x.dtype)), v)


def revalue(rng, fields):
  """Same structure: other values, statics and metadata."""
  out = {}
  for k, s in fields.items():
    if s[0] == "pytree":
      out[k] = (s[0], s[1], revalue(rng, s[2]))
    elif s[0] in ptgen.STATIC_KINDS:
      out[k] = (s[0], ("target", gen.fresh()))
    elif s[0] == "var":
      md = dict(s[3])
      md["tag"] = ("target", gen.fresh())
      out[k] = (s[0], rng.choice(gen.VAR_TYPES), bump(rng, s[2]), md)
    elif s[0] == "node":
      out[k] = (s[0], s[1], bump(rng, s[2]), {"tag": gen.fresh()})
    else:
      out[k] = (s[0], bump(rng, s[1]))
  return out


def restored(target, src):
  """Values of `src`, everything else of `target`."""
  out = {}
  for k, s in target.items():
    if s[0] in ptgen.STATIC_KINDS:
      out[k] = s
    elif s[0] == "pytree":
      out[k] = (s[0], s[1], restored(s[2], src[k][2]))
    elif s[0] in ("var", "node"):
      out[k] = (s[0], s[1], src[k][2], s[3])
    else:
      out[k] = (s[0], src[k][1])
  return out


def plain(v):
  """flax's state dict of a value without Pytrees."""
  if isinstance(v, dict):
    return {k: plain(x) for k, x in v.items()}
  if isinstance(v, (list, tuple)):
    return {str(i): plain(x) for i, x in enumerate(v)}
  return v


def expected_dict(fields):
  out = {}
  for k, s in fields.items():
    if ptgen.is_node(s):
      out[k] = expected_dict(s[2]) if s[0] == "pytree" else plain(ptgen.value(s))
  return out


def same_tree(case, got, want, what):
  """Nested dicts with array leaves."""
  if isinstance(want, dict):
    case.check(isinstance(got, dict), f"{what}: a dict is expected, got {type(got).__name__}")
    case.eq(sorted(got), sorted(want), f"{what}: keys")
    for k in want:
      same_tree(case, got[k], want[k], f"{what}.{k}")
  else:
    case.eq(gen.fp_np(got), gen.fp_np(want), what)


fp_obj_np = gen.fp_np

KINDS = ["tree", "param", "var", "node", "arr", "np", "pytree", "static", "staticc"]


def rand_case(case, depth=0):
  rng = case.rng
  while True:
    fields = ptgen.rand_fields(rng, kinds=KINDS)
    for k, s in fields.items():  # an optional field that is not there
      if s[0] in ("tree", "param") and rng.random() < 0.15:
        fields[k] = (s[0], None)
    if expected_dict(fields):
      return fields


def check_same(case, p, before, what):
  case.eq(ptgen.obj_fp(p), before, what)


def roundtrip(case):
  rng = case.rng
  fields = rand_case(case)
  is_mutable = rng.random() < 0.3
  cls = ptgen.make_class(rng, fields, is_mutable)
  src = ptgen.instance(cls, fields)
  tfields = revalue(rng, fields)
  target = ptgen.instance(cls, tfields)
  case.note({k: s[0] for k, s in fields.items()})
  case.sample({k: s[0] for k, s in fields.items()})
  src_fp, target_fp = ptgen.obj_fp(src), ptgen.obj_fp(target)
  d = serialization.to_state_dict(src)
  same_tree(case, d, expected_dict(fields), "state dict")
  case.event("state_dict")
  d_fp = gen.fp_np(jax.tree_util.tree_leaves(d)), repr(jax.tree_util.tree_structure(d))
  out = serialization.from_state_dict(target, d)
  want = restored(tfields, fields)
  ref = ptgen.instance(cls, want)
  case.check(type(out) is cls, "restored: type")
  case.check(out is not target, "restored: a new object")
  case.eq(fp_obj_np(out), fp_obj_np(ref), "restored")
  case.check(jax.tree_util.tree_structure(out) == jax.tree_util.tree_structure(ref),
             "restored: tree structure of the target with the source's values")
  case.event("restored")
  if any(s[0] in ptgen.STATIC_KINDS for s in fields.values()):
    case.event("statics_kept")
  check_same(case, src, src_fp, "the source is unchanged")
  check_same(case, target, target_fp, "the target is unchanged")
  case.eq((gen.fp_np(jax.tree_util.tree_leaves(d)), repr(jax.tree_util.tree_structure(d))),
          d_fp, "the state dict is unchanged")
  # again, from the restored object: a fixed point
  same_tree(case, serialization.to_state_dict(out), expected_dict(fields), "second dict")
  again = serialization.from_state_dict(out, d)
  case.eq(fp_obj_np(again), fp_obj_np(ref), "restoring twice")
  case.event("restored")
  # key order of the dict does not matter
  keys = list(d)
  rng.shuffle(keys)
  shuffled = serialization.from_state_dict(target, {k: d[k] for k in keys})
  case.eq(fp_obj_np(shuffled), fp_obj_np(ref), "restored from a reordered dict")
  # the restored object still is an immutable pytree
  if not is_mutable:
    name = rng.choice(sorted(fields))
    case.raises(AttributeError, lambda: setattr(out, name, 1), "restored object is immutable")
  case.raises(AttributeError, lambda: setattr(out, "brand_new", 1), "fields stay fixed")
  case.sig(ptgen.fields_fp(fields))
  if rng.random() < 0.5:
    blob = serialization.to_bytes(src)
    case.check(isinstance(blob, bytes), "bytes")
    raw = serialization.msgpack_restore(blob)
    same_tree(case, raw, expected_dict(fields), "msgpack content")
    back = serialization.from_bytes(target, blob)
    case.eq(fp_obj_np(back), fp_obj_np(ref), "restored from bytes")
    check_same(case, target, target_fp, "the target is unchanged by from_bytes")
    case.eq(serialization.to_bytes(back), serialization.to_bytes(out), "bytes are a fixed point")
    case.event("bytes")


def pt_paths(fields, prefix=()):
  """(path of a Pytree inside the state dict, its node fields)."""
  out = [(prefix, [k for k, s in fields.items() if ptgen.is_node(s)],
          [k for k, s in fields.items() if not ptgen.is_node(s)])]
  for k, s in fields.items():
    if s[0] == "pytree":
      out += pt_paths(s[2], prefix + (k,))
  return out


def refuse(case):
  rng = case.rng
  fields = rand_case(case)
  cls = ptgen.make_class(rng, fields, rng.random() < 0.3)
  src = ptgen.instance(cls, fields)
  target = ptgen.instance(cls, revalue(rng, fields))
  target_fp = ptgen.obj_fp(target)
  case.note({k: s[0] for k, s in fields.items()})
  for path, nodes, statics in pt_paths(fields):
    muts = [("drop", k) for k in nodes]
    muts += [("add", rng.choice(["unknown_field", "_pytree__sorted_fields", "0", "value"]))]
    muts += [("add", k) for k in statics]
    for kind, k in muts:
      d = serialization.to_state_dict(src)
      at = d
      for step in path:
        at = at[step]
      if kind == "drop":
        del at[k]
      else:
        at[k] = rng.choice([jnp.zeros(()), None, {}, [], (), 0, "", np.zeros((0,)), {"a": {}}])
      before = repr(jax.tree_util.tree_structure(d))
      case.note(kind, k, "at", path)
      e = case.raises(ValueError, lambda: serialization.from_state_dict(target, d),
                      f"{kind} {k} at {path} {at.get(k, '')!r:.40}")
      case.check(k in str(e), "the error names the field", got=str(e))
      case.event("refused")
      case.eq(repr(jax.tree_util.tree_structure(d)), before, "the refused dict is unchanged")
      case.eq(ptgen.obj_fp(target), target_fp, "the target of a refused restore is unchanged")
      case.sig(ptgen.fields_fp(fields), kind, path, k)
  # and the untouched dict is still accepted afterwards
  out = serialization.from_state_dict(target, serialization.to_state_dict(src))
  case.eq(gen.fp_np(jax.tree_util.tree_leaves(out)), gen.fp_np(jax.tree_util.tree_leaves(src)),
          "restored after refusals")
  case.event("restored")


def dataclass_(case):
  rng = case.rng
  kinds = {}
  specs = {"node": nnx.node_field, "param": nnx.param_field, "var": nnx.var_field,
           "static": nnx.static_field}
  ns, ann = {}, {}
  names = rng.sample(ptgen.NAMES, rng.randint(1, 5))
  for n in names:
    k = rng.choice(list(specs))
    kinds[n] = k
    ann[n] = tp.Any
    if k == "var":
      ns[n] = specs[k](rng.choice([nnx.Cache, nnx.Param, nnx.BatchStat]))
    else:
      ns[n] = specs[k]()
  if not any(k != "static" for k in kinds.values()):
    kinds["p"] = "param"
    ann["p"] = tp.Any
    ns["p"] = nnx.param_field()
  ns["__annotations__"] = ann
  cls = nnx.dataclass(type(nnx.Pytree)(f"DC{gen.fresh()}", (nnx.Pytree,), ns))

  def vals():
    return {n: (f"s{gen.fresh()}" if k == "static" else gen.rand_array(rng, kind="f1"))
            for n, k in kinds.items()}

  v1, v2 = vals(), vals()
  src, target = cls(**v1), cls(**v2)
  case.note(kinds)
  before = ptgen.obj_fp(target)
  d = serialization.to_state_dict(src)
  same_tree(case, d, {n: v1[n] for n, k in kinds.items() if k != "static"}, "state dict")
  for blob in (False, True):
    if blob:
      out = serialization.from_bytes(target, serialization.to_bytes(src))
    else:
      out = serialization.from_state_dict(target, d)
    ref = cls(**{n: (v2[n] if k == "static" else v1[n]) for n, k in kinds.items()})
    case.eq(fp_obj_np(out), fp_obj_np(ref), "restored dataclass")
    case.check(jax.tree_util.tree_structure(out) == jax.tree_util.tree_structure(ref),
               "restored dataclass: structure")
    case.eq(ptgen.obj_fp(target), before, "target unchanged")
    case.event("dataclass")
    case.event("restored")
  n = rng.choice([n for n, k in kinds.items() if k != "static"])
  bad = {k: v for k, v in d.items() if k != n}
  case.raises(ValueError, lambda: serialization.from_state_dict(target, bad), "missing field",
              match=n)
  case.raises(ValueError, lambda: serialization.from_state_dict(target, {**d, "zz_extra": 1}),
              "unknown field", match="zz_extra")
  case.event("refused", 2)
  case.sig(sorted(kinds.items()))


def nested_in(case):
  """Pytrees inside dicts, lists and container fields of other Pytrees."""
  rng = case.rng
  f1, f2 = rand_case(case), rand_case(case)
  c1, c2 = ptgen.make_class(rng, f1, False), ptgen.make_class(rng, f2, False)

  class Outer(nnx.Pytree):

    def __init__(self, a, b, s):
      self.a = nnx.TreeNode({"x": a, "ys": [b, a]})
      self.b = nnx.Param((b,))
      self.c = a
      self.s = s

  g1, g2 = revalue(rng, f1), revalue(rng, f2)
  src = Outer(ptgen.instance(c1, f1), ptgen.instance(c2, f2), "src")
  target = Outer(ptgen.instance(c1, g1), ptgen.instance(c2, g2), "target")
  before = repr(jax.tree_util.tree_structure(target)), gen.fp_np(
      jax.tree_util.tree_leaves(target))
  d = serialization.to_state_dict(src)
  e1, e2 = expected_dict(f1), expected_dict(f2)
  same_tree(case, d, {"a": {"x": e1, "ys": {"0": e2, "1": e1}}, "b": {"0": e2}, "c": e1},
            "nested dict")
  case.event("state_dict")
  for blob in (False, True):
    out = (serialization.from_bytes(target, serialization.to_bytes(src)) if blob
           else serialization.from_state_dict(target, d))
    case.eq(out.s, "target", "statics of the target")
    w1, w2 = ptgen.instance(c1, restored(g1, f1)), ptgen.instance(c2, restored(g2, f2))
    for got, want, where in ((out.a["x"], w1, "a.x"), (out.a["ys"][0], w2, "a.ys.0"),
                             (out.a["ys"][1], w1, "a.ys.1"), (out.b[0], w2, "b.0"),
                             (out.c, w1, "c")):
      case.check(type(got) is type(want), f"{where}: type")
      case.eq(fp_obj_np(got), fp_obj_np(want), f"restored {where}")
    case.check(type(vars(out)["b"]) is nnx.Param, "container of b")
    case.check(type(vars(out)["a"]) is nnx.TreeNode, "container of a")
    case.event("restored")
    if blob:
      case.event("bytes")
  case.eq((repr(jax.tree_util.tree_structure(target)),
           gen.fp_np(jax.tree_util.tree_leaves(target))), before, "target unchanged")
  case.sig(ptgen.fields_fp(f1), ptgen.fields_fp(f2))


FAMILIES = {
    "roundtrip": dict(fn=roundtrip, quick=400),
    "refuse": dict(fn=refuse, quick=300),
    "dataclass": dict(fn=dataclass_, quick=80),
    "nested_in": dict(fn=nested_in, quick=60),
}
