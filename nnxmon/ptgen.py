"""Random Pytree classes and instances, with their expected leaves."""
import dataclasses

import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnxmon import gen

NAMES = ["a", "b", "w", "x1", "x10", "x2", "Z", "_p", "kernel", "é", "mu", "count"]
NODE_KINDS = ["tree", "param", "var", "node", "arr", "np", "pytree", "state"]
STATIC_KINDS = ["static", "staticc"]


def rand_val(rng, kind, depth=0, leafy=False):
  if kind in ("arr", "np"):
    a = gen.rand_array(rng, kind="np" if kind == "np" else rng.choice(["f0", "f1", "i0", "f2"]))
    return a
  if kind == "state":
    return nnx.State({k: nnx.Param(gen.rand_array(rng, kind="f1")) for k in rng.sample("klm", 2)})
  if kind in STATIC_KINDS:
    return rng.choice([gen.fresh(), f"s{gen.fresh()}", None, (1, gen.fresh()), len])
  r = rng.random()
  if leafy or r < 0.5:
    return gen.rand_array(rng, kind=rng.choice(["f0", "f1", "i1"]))
  if r < 0.7:
    return {k: gen.rand_array(rng, kind="f1") for k in rng.sample("pqr", rng.randint(1, 3))}
  if r < 0.85:
    return tuple(gen.rand_array(rng, kind="f0") for _ in range(rng.randint(1, 3)))
  return [gen.rand_array(rng, kind="f0"), {"d": gen.rand_array(rng, kind="i0")}]


def rand_fields(rng, depth=0, kinds=None, n=None, names=None):
  out = {}
  for name in rng.sample(names or NAMES, n or rng.randint(1, 5)):
    ks = kinds or (NODE_KINDS + STATIC_KINDS)
    k = rng.choice([x for x in ks if depth < 2 or x != "pytree"])
    if k == "pytree":
      sub = rand_fields(rng, depth + 1, kinds)
      cls = make_class(rng, sub, rng.random() < 0.3)
      out[name] = (k, cls, sub)
    elif k == "var":
      out[name] = (k, rng.choice(gen.VAR_TYPES), rand_val(rng, k), gen.rand_metadata(rng))
    elif k == "node":
      out[name] = (k, rng.choice(gen.PLAIN_NODES), rand_val(rng, k), gen.rand_metadata(rng, False))
    else:
      out[name] = (k, rand_val(rng, k))
  return out


def make_class(rng, fields, mutable, base=nnx.Pytree, name=None):
  """A class whose constructor takes the attribute values in a random order."""
  order = list(fields)
  rng.shuffle(order)

  def __init__(self, values):
    for k in order:
      setattr(self, k, values[k])

  return type(base)(name or f"PT{gen.fresh()}", (base,), {"__init__": __init__},
                    **({"mutable": True} if mutable else {}))


def attr(spec):
  """What is assigned to the attribute."""
  k = spec[0]
  if k == "tree":
    return nnx.TreeNode(spec[1])
  if k == "param":
    return nnx.Param(spec[1])
  if k in ("var", "node"):
    return spec[1](spec[2], **spec[3])
  if k == "pytree":
    return instance(spec[1], spec[2])
  if k == "staticc":
    return nnx.Static(spec[1])
  return spec[1]


def instance(cls, fields):
  return cls({k: attr(s) for k, s in fields.items()})


def is_node(spec):
  return spec[0] in NODE_KINDS


def value(spec):
  """What reading the attribute gives."""
  if spec[0] in ("var", "node"):
    return spec[2]
  if spec[0] == "pytree":
    return None
  return spec[1]


def leaves(fields):
  """[(path tuple, array)] in flattening order."""
  out = []
  for name in sorted(fields):
    s = fields[name]
    if not is_node(s):
      continue
    if s[0] == "pytree":
      out += [((name,) + p, v) for p, v in leaves(s[2])]
    elif s[0] == "state":
      out += [((name, k), v.value) for k, v in sorted(s[1].items())]
    else:
      for l in jax.tree_util.tree_leaves(value(s)):
        out.append(((name,), l))
  return out


def fields_fp(fields):
  return tuple(sorted((k, spec_fp(s)) for k, s in fields.items()))


def spec_fp(s):
  k = s[0]
  if k == "pytree":
    return ("PT", s[1], fields_fp(s[2]))
  if k == "tree":
    return ("C", nnx.TreeNode, gen.fp({}), gen.fp(s[1]))
  if k == "param":
    return ("C", nnx.Param, gen.fp({"sharding": None}), gen.fp(s[1]))
  if k in ("var", "node"):
    md = dict(s[3])
    if k == "var":
      md.setdefault("sharding", None)
    return ("C", s[1], gen.fp(md), gen.fp(s[2]))
  if k == "staticc":
    return ("C", nnx.Static, gen.fp({}), gen.fp(s[1]))
  return gen.fp(s[1])


def obj_fp(p):
  return tuple(sorted((k, gen.fp(v) if not isinstance(v, nnx.Pytree)
                       else ("PT", type(v), obj_fp(v)))
                      for k, v in vars(p).items() if not k.startswith("_pytree__")))
