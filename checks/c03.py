"""C03: filters follow their algebra; partition is first-match, disjoint, exhaustive."""
import jax
import numpy as np

import nnx
from nnx import partitioning
from nnxmon import gen

RULE = (
    "Random filter terms (types, callables, tuples, All/Not/Any, None, ..., nesting to "
    "depth 3) are evaluated on random module states by a reference evaluator over the "
    "raw containers; partition/filter/pop results of Module, State and Pure are compared "
    "with first-match; non-trivial = distinct (state paths, group assignment)."
)
NEED = {"partition": 400, "filter": 400, "rejection": 300, "entry_matched": 1500,
        "nonexhaustive": 60}


def _entries(root):
  return [(p, v) for p, v in root.get_state().items()]


def _group(entries, preds, i):
  return [p for p, v in entries if gen.first_match([(p, v)], preds)[p] == i]


def check_states(case, states, entries, assign, n, what):
  case.eq(len(states), n, f"{what}: number of states")
  for i, s in enumerate(states):
    case.check(isinstance(s, nnx.State), f"{what}: result {i} is a State")
    want = [p for p, _ in entries if assign[p] == i]
    case.eq(list(s.keys()), sorted(want), f"{what}: paths of group {i}")
    for p, v in entries:
      if assign[p] == i:
        case.check(s[p] is v, f"{what}: entry {p} was replaced")
  case.event("entry_matched", len(entries))


def partitions(case):
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=rng.choice([2, 5, 8]), max_attrs=7)
  case.note(gen.recipe_str(recipe))
  root = gen.build(recipe, rng)[0]
  state, moduledef = root.partition()
  # entries as raw objects: the same objects must come back
  entries = [(p, v) for p, v in state.items()]
  k = rng.randint(1, 5)
  pairs = [gen.rand_filter(rng) for _ in range(k)]
  if rng.random() < 0.6:
    pairs.append((..., lambda p, v: True))
  filters, preds = [f for f, _ in pairs], [g for _, g in pairs]
  case.note("filters", filters)
  case.sample(f"{sorted(dict(entries))} by {filters}")
  assign = gen.first_match(entries, preds)
  exhaustive = all(i is not None for i in assign.values())
  case.sig(sorted(assign.items(), key=str))
  n = len(filters)

  def tup(x):
    return x if isinstance(x, tuple) else (x,)

  sources = {"Module": root, "State": state, "Pure": nnx.Pure.new(state, moduledef)}
  if len(entries) > 1:
    half = rng.randint(0, len(entries))
    perm = list(entries)
    rng.shuffle(perm)
    sources["Pure2"] = nnx.Pure.new(
        (nnx.State(dict(perm[:half])), nnx.State(dict(perm[half:]))), moduledef)
    # states that overlap: the entries of earlier ones are not those of the module
    stale = lambda: rng.choice([v for _, v in entries] + [
        nnx.Param(0), nnx.BatchStat(1), nnx.Variable(2), gen.Extra(3), np.zeros(2)])
    old = [{p: stale() for p, _ in rng.sample(perm[half:], rng.randint(0, len(perm) - half))}
           for _ in range(2)]
    sources["Pure3"] = nnx.Pure.new(
        (nnx.State(old[0]), nnx.State({**old[1], **dict(perm[:half])}),
         nnx.State(dict(perm[half:]))), moduledef)
  for name, src in sources.items():
    # filter: leftovers are dropped
    out = src.filter(*filters)
    case.eq(isinstance(out, tuple), n > 1, f"{name}.filter: tuple iff several filters")
    check_states(case, tup(out), entries, assign, n, f"{name}.filter")
    case.event("filter")
    # partition: leftovers are an error
    if exhaustive:
      out = src.partition(*filters)
      if name == "State":
        states = tup(out)
      else:
        states, d = out
        case.check(isinstance(out, nnx.Pure), f"{name}.partition gives a Pure")
        case.eq(d, moduledef, f"{name}.partition: definition")
        case.eq(isinstance(states, tuple), n > 1, f"{name}.partition: tuple or State")
        states = tup(states)
      check_states(case, states, entries, assign, n, f"{name}.partition")
      case.event("partition")
    else:
      e = case.raises(ValueError, lambda: src.partition(*filters),
                      f"{name}.partition with unmatched entries")
      for p, i in assign.items():
        if i is None:
          case.check(repr(p) in str(e), f"{name}: error names the unmatched path {p}")
      case.event("nonexhaustive")
  case.eq(gen.fp(root.get_state()), gen.fp(state), "partitioning changed the module")


def ellipsis_position(case):
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=3)
  root = gen.build(recipe, rng)[0]
  state, moduledef = root.partition()
  k = rng.randint(2, 5)
  filters = [gen.rand_filter(rng)[0] for _ in range(k)]
  filters = [nnx.Not(None) if f is ... else f for f in filters]
  pos = rng.randrange(k - 1)
  filters[pos] = ...
  srcs = dict(Module=root, State=state, Pure=nnx.Pure.new(state, moduledef))
  before = gen.describe(root)
  for name, src in srcs.items():
    for op in ("partition", "filter"):
      case.raises(ValueError, lambda: getattr(src, op)(*filters),
                  f"{name}.{op} with `...` before the last filter", match=str(pos))
  case.eq(gen.describe(root), before, "the module changed")
  case.sig(pos, k, len(state))


def algebra(case):
  """to_predicate on every kind of literal, and the identities between them."""
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=4, max_attrs=7)
  entries = _entries(gen.build(recipe, rng)[0])
  f, g = gen.rand_filter(rng)
  f2, g2 = gen.rand_filter(rng)
  more = [gen.rand_filter(rng) for _ in range(rng.randint(4, 9))]
  terms = {
      "any of many": (partitioning.Any(*[a for a, _ in more]),
                      lambda p, v: any(b(p, v) for _, b in more)),
      "tuple of many": (tuple(a for a, _ in more), lambda p, v: any(b(p, v) for _, b in more)),
      "all of many": (nnx.All(*[a if i % 2 else nnx.Not(a) for i, (a, _) in enumerate(more)]),
                      lambda p, v: all(bool(b(p, v)) == bool(i % 2) for i, (_, b) in enumerate(more))),
      "f": (f, g),
      "not not": (nnx.Not(nnx.Not(f)), g),
      "de morgan": (nnx.Not((f, f2)), lambda p, v: not g(p, v) and not g2(p, v)),
      "all": (nnx.All(f, f2), lambda p, v: g(p, v) and g2(p, v)),
      "tuple": ((f, f2), lambda p, v: g(p, v) or g2(p, v)),
      "any": (partitioning.Any(f, f2), lambda p, v: g(p, v) or g2(p, v)),
      "all()": (nnx.All(), lambda p, v: True),
      "()": ((), lambda p, v: False),
      "none": (None, lambda p, v: False),
      "...": (..., lambda p, v: True),
      "(...,)": ((...,), lambda p, v: True),
      "not none": (nnx.Not(None), lambda p, v: True),
      "all of tuples": (nnx.All((f, f2), nnx.Not(f)),
                        lambda p, v: g2(p, v) and not g(p, v)),
  }
  for name, (term, ref) in terms.items():
    pred = partitioning.to_predicate(term)
    for p, v in entries:
      case.eq(bool(pred(p, v)), bool(ref(p, v)), f"predicate {name} at {p}", filter=term)
      case.event("predicate_eval")
  for bad in ("params", 3, 2.5, [nnx.Param], {nnx.Param}, object()):
    case.raises(TypeError, lambda: partitioning.to_predicate(bad), f"filter {bad!r}")
    case.raises(TypeError, lambda: nnx.State({}).filter(bad), f"State.filter({bad!r})")
  case.raises(TypeError, lambda: nnx.All(nnx.Param, "x"), "All with a string")
  case.raises(TypeError, lambda: nnx.Not("x"), "Not of a string")
  case.sig(repr(f)[:60], repr(f2)[:60])


def callable_args(case):
  """A callable filter is given the full path and the stored container itself."""
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=5)
  root = gen.build(recipe, rng)[0]
  state = root.get_state()
  entries, _ = gen.expected_layout(recipe)
  want = {p: gen.spec_fp(s) for p, _, _, s in entries}
  seen = {}
  pick = gen.PathPred("hash", rng.randint(0, 2))

  def f1(path, value):
    seen[path] = value
    return pick(path, value)

  for src, op in ((root, "filter"), (root, "partition"), (state, "filter"),
                  (root.partition(), "filter"), (root, "pop_state")):
    seen.clear()
    s1, s2 = tuple(getattr(src, op)(f1, ...))[0:2] if op != "partition" else (
        src.partition(f1, ...).states)
    case.eq(sorted(seen), sorted(want), f"paths given to a callable by {op}")
    for p, v in seen.items():
      case.eq(gen.fp(v), want[p], f"value given to a callable for {p} by {op}")
    case.eq(sorted(s1), sorted(p for p in want if pick(p, None)), f"{op}: matched")
    case.eq(sorted(s2), sorted(p for p in want if not pick(p, None)), f"{op}: others")
    case.event("callable_arg", len(seen))
  case.sig(gen.recipe_sig(recipe))


FAMILIES = {
    "partitions": dict(fn=partitions, quick=1000),
    "ellipsis": dict(fn=ellipsis_position, quick=200),
    "algebra": dict(fn=algebra, quick=250),
    "callable_args": dict(fn=callable_args, quick=200),
}
