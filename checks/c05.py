"""C05: pop_state moves exactly the matching nodes out of a module."""
import nnx
from nnxmon import gen

RULE = (
    "Random (shared, cyclic) module graphs are popped with random filter lists, several "
    "times in a row; the returned states and what is left are compared with first-match "
    "over the abstract graph; non-trivial = distinct (graph, groups)."
)
NEED = {"popped": 800, "left": 800, "cycle": 30, "put_back": 200, "pure_pop": 200,
        "failed_pop": 100}


def pop(case):
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=rng.choice([2, 5, 8]), max_attrs=6, share=0.6,
                           cycle=0.5)
  case.note(gen.recipe_str(recipe))
  case.sample(gen.recipe_str(recipe))
  mods = gen.build(recipe, rng)
  root_i = 0 if rng.random() < 0.7 else rng.randrange(len(mods))
  root = mods[root_i]
  if any(s[0] == "sub" and s[1] <= i for i, n in enumerate(recipe)
         for s in n["attrs"].values()):
    case.event("cycle")
  for round_ in range(rng.randint(1, 3)):
    entries, first = gen.expected_layout(recipe, root_i)
    raw = {p: gen.user_vars(mods[i])[n] for p, i, n, _ in entries}
    pairs = [gen.rand_filter(rng) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.25:
      pairs.append((..., lambda p, v: True))
    filters, preds = [f for f, _ in pairs], [g for _, g in pairs]
    case.note("pop", filters)
    assign = gen.first_match(list(raw.items()), preds)
    outside = {i: gen.describe(mods[i]) for i in range(len(mods)) if i not in first}
    out = root.pop_state(*filters)
    case.eq(isinstance(out, tuple), len(filters) > 1, "tuple iff several filters")
    states = out if isinstance(out, tuple) else (out,)
    case.eq(len(states), len(filters), "number of states")
    for k, s in enumerate(states):
      want = sorted(p for p in raw if assign[p] == k)
      case.check(isinstance(s, nnx.State), "a State is returned")
      case.eq(list(s), want, f"paths popped by filter {k}")
      for p in want:
        case.eq(gen.fp(s[p]), gen.fp(raw[p]), f"value popped at {p}")
      case.event("popped", len(want))
    # what is left, from the recipe
    for p, i, n, _ in entries:
      if assign[p] is not None:
        del recipe[i]["attrs"][n]
        case.check(n not in vars(mods[i]), f"popped attribute {p} is still there")
      else:
        case.event("left")
    case.eq(gen.describe(root), gen.describe_recipe(recipe, root_i), "what is left")
    for i, m in enumerate(mods):
      if i in outside:
        pass
    case.sig(gen.recipe_sig(recipe), sorted(assign.items(), key=str))
    # popped + left = before, and it can be put back
    rest = root.get_state()
    case.eq(sorted([*rest, *(p for s in states for p in s)]), sorted(raw),
            "conservation: every node is either popped or left, once")
    if rng.random() < 0.5:
      root.update_state(tuple(states))
      for p, i, n, spec in entries:
        recipe[i]["attrs"][n] = spec
      case.eq(gen.describe(root), gen.describe_recipe(recipe, root_i),
              "putting the popped states back restores the module")
      case.event("put_back")


def pure_pop(case):
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=6, max_attrs=6)
  root = gen.build(recipe, rng)[0]
  fs, _ = gen.rand_exhaustive(rng, 3)
  pure = root.partition(*fs) if rng.random() < 0.5 else root.partition()
  entries = list(root.get_state().items())
  pairs = [gen.rand_filter(rng) for _ in range(rng.randint(1, 4))]
  if rng.random() < 0.25:
    # everything else, as the last filter or the only one
    pairs = rng.choice([pairs, pairs[:1], []]) + [(..., lambda p, v: True)]
  filters, preds = [f for f, _ in pairs], [g for _, g in pairs]
  assign = gen.first_match(entries, preds)
  before = gen.fp(pure.get_state())
  out, rest = pure.pop_state(*filters)
  case.eq(isinstance(out, tuple), len(filters) > 1, "tuple iff several filters")
  states = out if isinstance(out, tuple) else (out,)
  for k, s in enumerate(states):
    case.eq({p: gen.fp(v) for p, v in s.items()},
            {p: gen.fp(v) for p, v in entries if assign[p] == k}, f"Pure.pop group {k}")
    case.event("popped", len(s))
  case.check(isinstance(rest, nnx.Pure), "second result is a Pure")
  case.eq({p: gen.fp(v) for p, v in rest.get_state().items()},
          {p: gen.fp(v) for p, v in entries if assign[p] is None}, "Pure.pop rest")
  case.eq(rest.moduledef, pure.moduledef, "definition")
  case.eq(gen.fp(pure.get_state()), before, "the receiver changed")
  # the same pop on the module gives the same states
  m = root.clone()
  mout = m.pop_state(*filters)
  mout = mout if isinstance(mout, tuple) else (mout,)
  case.eq([gen.fp(s) for s in mout], [gen.fp(s) for s in states], "Module vs Pure pop")
  case.eq(gen.fp(m.get_state()), gen.fp(rest.get_state()), "Module vs Pure rest")
  case.event("pure_pop")
  case.event("left", len(rest.get_state()))
  case.sig(gen.recipe_sig(recipe), sorted(assign.items(), key=str))


def sown(case):
  """The documented use: take out intermediates between calls."""
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=5, share=0.7, cycle=0.4)
  mods = gen.build(recipe, rng)
  live = gen.all_modules(mods[0])
  want_other = gen.fp(mods[0].filter(nnx.Not(nnx.Intermediate)))
  mods[0].pop_state(nnx.Intermediate)
  case.eq(len(mods[0].filter(nnx.Intermediate)), 0, "intermediates left after pop")
  log = {}
  for _ in range(rng.randint(1, 8)):
    m = rng.choice(live)
    n = rng.choice(["sown_y", "sown_z"])
    v = gen.rand_array(rng)
    m.sow(nnx.Intermediate, n, v)
    log.setdefault((id(m), n), []).append(v)
  state = mods[0].pop_state(nnx.Intermediate)
  got = sorted([tuple(map(id, v.value)) for v in state.values()])
  case.eq(got, sorted(tuple(map(id, v)) for v in log.values()), "popped intermediates")
  case.eq(gen.fp(mods[0].filter(nnx.Not(nnx.Intermediate))), want_other, "other nodes")
  case.eq(len(mods[0].pop_state(nnx.Intermediate)), 0, "second pop finds nothing")
  case.raises(ValueError, lambda: mods[0].pop_state(), "pop_state without filters")
  case.event("popped", len(state))
  case.sig(gen.recipe_sig(recipe), len(log))


class Boom(Exception):
  pass


def failing(case):
  """A filter that raises at some entry: nothing has been removed."""
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=5, share=0.5, cycle=0.3)
  mods = gen.build(recipe, rng)
  n = len(mods[0].get_state())
  before = gen.describe(mods[0])
  order = [list(gen.user_vars(q)) for q in gen.all_modules(mods[0])]
  if n == 0:
    return
  at, seen = rng.randrange(n), []

  def predicate(path, value):
    seen.append(path)
    if len(seen) > at:
      raise Boom(path)
    return take

  take = rng.random() < 0.8
  filters = rng.choice([(predicate,), (predicate, ...), (predicate, nnx.Param),
                        (nnx.partitioning.Any(predicate, nnx.Param),)])
  case.raises(Boom, lambda: mods[0].pop_state(*filters), "the filter's exception")
  case.eq(gen.describe(mods[0]), before, "a failed pop_state removed entries")
  case.eq([list(gen.user_vars(q)) for q in gen.all_modules(mods[0])], order, "order")
  state = mods[0].pop_state(lambda p, v: True)
  case.eq(len(state), n, "everything can still be popped")
  case.event("failed_pop")
  case.sig(gen.recipe_sig(recipe), at, take)


FAMILIES = {
    "failing": dict(fn=failing, quick=200),
    "pop": dict(fn=pop, quick=1200),
    "pure_pop": dict(fn=pure_pop, quick=500),
    "sown": dict(fn=sown, quick=300),
}
