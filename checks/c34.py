"""C34: recurrent, generative and multi-model programs equal their plain jax twins."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
import optax

import nnx
from nnxmon import gen

RULE = (
    "Random programs of the kinds the guide shows - decoders with key/value caches driven "
    "eagerly, jitted, functionally, scanned, in while loops and vmapped; recurrent networks with "
    "hidden-state variables; VAEs with captured losses and noise streams; adversarial, "
    "distilled, averaged and low-rank-adapted models; higher-order derivatives and custom "
    "optimizers over States; hand-lifted stacks - are run next to a plain jax program of the "
    "same mathematics that uses no nnx; non-trivial = distinct (program, driver)."
)
NEED = {"decoded": 60, "prefill": 20, "generated": 12, "recurrent": 60, "bptt": 20, "vae": 14,
        "duo": 40, "derivative": 70, "lifted": 20, "guide": 20}


class Hidden(nnx.Variable):
  pass


class Loss(nnx.Variable):
  pass


class LoRA(nnx.Param):
  pass


class Count(nnx.Variable):
  pass


def normal(case, *shape, scale=0.6):
  return jnp.asarray(case.np.normal(size=shape) * scale, jnp.float32)


def gather(module, typ=nnx.Variable):
  """{path: value} read through the module objects, not through nnx states."""
  out, seen = {}, set()

  def visit(m, prefix):
    if id(m) in seen:
      return
    seen.add(id(m))
    for k, v in sorted(gen.user_vars(m).items()):
      if isinstance(v, nnx.Module):
        visit(v, prefix + (k,))
      elif isinstance(v, typ) and v.value is not None:
        out[prefix + (k,)] = v.value

  visit(module, ())
  return out


def same(case, got, want, what, rtol=1e-4, atol=1e-5):
  case.close(got, want, what, rtol=rtol, atol=atol)


# ---------------------------------------------------------------- decoders


class Attention(nnx.Module):

  def __init__(self, cfg, *, ctx):
    d, h, n = cfg["embed"], cfg["heads"], cfg["depth"]
    self.q = nnx.Linear(d, h * n, use_bias=False, ctx=ctx)
    self.k = nnx.Linear(d, h * n, use_bias=False, ctx=ctx)
    self.v = nnx.Linear(d, h * n, ctx=ctx)
    self.o = nnx.Linear(h * n, d, ctx=ctx)
    self.index = nnx.Cache(jnp.zeros((), jnp.int32))
    shape = (cfg["batch"], cfg["length"], h, n)
    self.keys = nnx.Cache(jnp.zeros(shape), sharding=("data", None, "heads", None))
    self.values = nnx.Cache(jnp.zeros(shape), sharding=("data", None, "heads", None))

  def __call__(self, cfg, x, decode):
    h, n = cfg["heads"], cfg["depth"]
    split = lambda t: t.reshape(t.shape[:-1] + (h, n))
    q, k, v = split(self.q(x)), split(self.k(x)), split(self.v(x))
    t = x.shape[1]
    if decode:
      at = self.index
      self.keys = jax.lax.dynamic_update_slice_in_dim(self.keys, k, at, 1)
      self.values = jax.lax.dynamic_update_slice_in_dim(self.values, v, at, 1)
      self.index += t
      k, v = self.keys, self.values
      mask = jnp.arange(cfg["length"])[None, :] <= (at + jnp.arange(t))[:, None]
    else:
      mask = jnp.tril(jnp.ones((t, t), bool))
    logits = jnp.einsum("bsnh,btnh->bnst", q, k) / np.sqrt(n)
    a = jax.nn.softmax(jnp.where(mask, logits, -1e10))
    out = jnp.einsum("bnst,btnh->bsnh", a, v)
    return self.o(out.reshape(out.shape[:2] + (h * n,)))


class DecoderBlock(nnx.Module):

  def __init__(self, cfg, *, ctx):
    self.attn = Attention(cfg, ctx=ctx)
    self.ln = nnx.LayerNorm(cfg["embed"], ctx=ctx)
    self.up = nnx.Linear(cfg["embed"], 5, ctx=ctx)
    self.down = nnx.Linear(5, cfg["embed"], ctx=ctx)
    self.cfg = nnx.Static(tuple(sorted(cfg.items())))

  def __call__(self, x, decode):
    cfg = dict(self.cfg.value if isinstance(self.cfg, nnx.Static) else self.cfg)
    x = x + self.attn(cfg, self.ln(x), decode)
    return x + self.down(nnx.gelu(self.up(x)))


class ScanBlock(DecoderBlock):

  def __call__(self, x, _, decode):
    return super().__call__(x, decode), None


class Decoder(nnx.Module):

  def __init__(self, cfg, style, *, ctx):
    self.style, self.nlayers = style, cfg["layers"]
    self.embed = nnx.Embed(cfg["vocab"], cfg["embed"], ctx=ctx)
    if style == "sequence":
      self.layers = nnx.Sequence(DecoderBlock(cfg, ctx=ctx) for _ in range(cfg["layers"]))
    elif style == "dict":
      self.layers = nnx.Dict({f"l{i}": DecoderBlock(cfg, ctx=ctx) for i in range(cfg["layers"])})
    elif style == "vmap":
      self.layers = jax.vmap(
          lambda key: DecoderBlock(cfg, ctx=nnx.context(params=key)).partition()
      )(jax.random.split(ctx.make_rng("params"), cfg["layers"])).merge()
    else:
      self.layers = nnx.Scan(
          ScanBlock, variable_axes={nnx.Param: 0, nnx.Cache: 0}, length=cfg["layers"],
          split_rngs=["params"])(cfg, ctx=ctx)

  def __call__(self, tokens, decode=False):
    x = self.embed(tokens)
    if self.style == "sequence":
      for layer in self.layers:
        x = layer(x, decode)
    elif self.style == "dict":
      for k in sorted(self.layers):
        x = self.layers[k](x, decode)
    elif self.style == "vmap":
      state, moduledef = self.layers.partition()

      def body(x, state):
        y, (state, _) = moduledef.apply(state)(x, decode)
        return y, state

      x, state = jax.lax.scan(body, x, state)
      self.layers.update_state(state)
    else:
      x, _ = self.layers(x, None, decode)
    return self.embed.attend(x)


def layer_vars(model, i):
  """{path: array} of one layer of a decoder."""
  if model.style == "sequence":
    return gather(model.layers[i])
  if model.style == "dict":
    return gather(model.layers[f"l{i}"])
  src = model.layers if model.style == "vmap" else model.layers.scan_module
  return {k: v[i] for k, v in gather(src).items()}


def plain_decoder(cfg, emb, layers, tokens):
  """Logits of the full causal forward, in plain jax."""
  h, n = cfg["heads"], cfg["depth"]
  x = emb[tokens]
  t = tokens.shape[1]
  for v in layers:
    m = x.mean(-1, keepdims=True)
    var = ((x - m) ** 2).mean(-1, keepdims=True)
    y = (x - m) / jnp.sqrt(var + 1e-6) * v["ln", "scale"] + v["ln", "bias"]
    split = lambda a: a.reshape(a.shape[:-1] + (h, n))
    q, k = split(y @ v["attn", "q", "kernel"]), split(y @ v["attn", "k", "kernel"])
    w = split(y @ v["attn", "v", "kernel"] + v["attn", "v", "bias"])
    out = []
    for s in range(t):
      l = jnp.einsum("bnh,btnh->bnt", q[:, s], k[:, :s + 1]) / np.sqrt(n)
      out.append(jnp.einsum("bnt,btnh->bnh", jax.nn.softmax(l), w[:, :s + 1]))
    out = jnp.stack(out, 1).reshape(x.shape[:2] + (h * n,))
    x = x + out @ v["attn", "o", "kernel"] + v["attn", "o", "bias"]
    up = jax.nn.gelu(x @ v["up", "kernel"] + v["up", "bias"])
    x = x + up @ v["down", "kernel"] + v["down", "bias"]
  return x @ emb.T


def rand_cfg(rng):
  return dict(batch=rng.randint(1, 2), layers=rng.randint(1, 3), heads=rng.randint(1, 2),
              depth=rng.choice([2, 3]), embed=rng.choice([3, 4]), vocab=rng.randint(4, 7),
              length=rng.randint(3, 6))


DRIVERS = ["eager", "nnx.jit", "method jit", "apply", "pure", "scan", "vmap"]


def drive(driver, model, tokens, chunks):
  """Logits of decoding `tokens` chunk by chunk; the model's caches after it, or None."""
  outs = []
  if driver in ("eager", "nnx.jit", "method jit"):
    f = {"eager": lambda m, t: m(t, True),
         "nnx.jit": nnx.jit(lambda m, t: m(t, True)),
         "method jit": nnx.jit(type(model).__call__, static_argnums=(2,))}[driver]
    at = 0
    for c in chunks:
      args = (True,) if driver == "method jit" else ()
      outs.append(f(model, tokens[:, at:at + c], *args))
      at += c
    return jnp.concatenate(outs, 1), gather(model, nnx.Cache)
  if driver == "apply":
    (params, cache), moduledef = model.partition(nnx.Param, ...)

    @jax.jit
    def step(params, cache, t):
      y, (state, _) = moduledef.apply(params, cache)(t, True)
      return y, state.filter(nnx.Not(nnx.Param))

    at = 0
    for c in chunks:
      y, cache = step(params, cache, tokens[:, at:at + c])
      outs.append(y)
      at += c
    return jnp.concatenate(outs, 1), gather(moduledef.merge(cache, params), nnx.Cache)
  if driver == "pure":
    pure = model.partition()
    step = jax.jit(lambda pure, t: pure.apply(t, True))
    at = 0
    for c in chunks:
      y, pure = step(pure, tokens[:, at:at + c])
      outs.append(y)
      at += c
    return jnp.concatenate(outs, 1), gather(pure.merge(), nnx.Cache)
  if driver == "scan":  # token by token, the pure module as the carry

    def body(pure, t):
      y, pure = pure.apply(t[:, None], True)
      return pure, y[:, 0]

    pure, ys = jax.lax.scan(body, model.partition(), tokens.T)
    return jnp.moveaxis(ys, 0, 1), gather(pure.merge(), nnx.Cache)
  # vmap: the rows of the batch as members of an ensemble of caches
  (params, cache), moduledef = model.partition(nnx.Param, nnx.Cache)
  caches = jax.tree_map(
      lambda v: jnp.stack([v] * tokens.shape[0]), cache)

  def member(cache, t):
    y, (state, _) = moduledef.apply(params, cache)(
        jnp.broadcast_to(t[None], (moduledef_batch(cache), 1)), True)
    return y[0], state.filter(nnx.Cache)

  for i in range(tokens.shape[1]):
    y, caches = jax.vmap(member)(caches, tokens[:, i:i + 1])
    outs.append(y)
  return jnp.concatenate(outs, 1), None


def moduledef_batch(cache):
  return next(v.shape[-4] for v in jax.tree_util.tree_leaves(cache) if v.ndim >= 4)


def decode(case):
  rng = case.rng
  cfg = rand_cfg(rng)
  style = rng.choice(["sequence", "dict", "vmap", "scan"])
  model = Decoder(cfg, style, ctx=nnx.context(rng.randint(0, 99)))
  tokens = jnp.asarray(case.np.integers(0, cfg["vocab"], (cfg["batch"], cfg["length"])))
  case.note(style, cfg)
  case.sample((style, cfg))
  layers = [layer_vars(model, i) for i in range(cfg["layers"])]
  emb = model.embed.embedding
  want = plain_decoder(cfg, emb, layers, tokens)
  before = gen.describe(model)
  same(case, model(tokens), want, "the full causal forward")
  if style in ("sequence", "dict"):
    case.eq(gen.describe(model), before, "a forward without decoding changed the model")
  start = model.clone()
  caches = gather(model, nnx.Cache)
  for driver in rng.sample(DRIVERS, 3):
    if driver == "scan" or driver == "vmap" or rng.random() < 0.4:
      chunks = [1] * cfg["length"]
    else:
      chunks, left = [], cfg["length"]
      while left:
        chunks.append(rng.randint(1, left))
        left -= chunks[-1]
      case.event("prefill")
    case.note(driver, chunks)
    m = start.clone()
    got, after = drive(driver, m, tokens, chunks)
    same(case, got, want, f"decoding, {driver}")
    if after is not None:
      for k, v in after.items():
        if k[-1] == "index":
          same(case, v, jnp.full(v.shape, cfg["length"], jnp.int32), f"{k} after {driver}")
        else:
          case.eq(v.shape, caches[k].shape, f"{k} shape after {driver}")
    if driver in ("eager", "nnx.jit", "method jit"):
      for path, v in m.filter(nnx.Cache).items():
        if path.endswith(("keys", "values")):
          case.eq(v.sharding[-4:], ("data", None, "heads", None), f"{path} metadata")
      # reset, and the same again
      m.update_state(start.filter(nnx.Cache))
      again, _ = drive(driver, m, tokens, chunks)
      same(case, again, got, "decoding after a reset of the caches", 0, 0)
    else:
      case.eq(gen.describe(m), gen.describe(start), f"{driver} changed the model it started from")
    case.event("decoded")
    case.sig(style, sorted(cfg.items()), driver, chunks)
  if rng.random() < 0.6:
    generate(case, cfg, start, emb, layers, tokens)


def generate(case, cfg, start, emb, layers, tokens):
  """Greedy generation in a while loop against full forwards."""
  first = tokens[:, :1]
  seq = first
  for _ in range(cfg["length"] - 1):
    nxt = plain_decoder(cfg, emb, layers, seq)[:, -1].argmax(-1)
    seq = jnp.concatenate([seq, nxt[:, None].astype(seq.dtype)], 1)
  logits = plain_decoder(cfg, emb, layers, seq)
  top = jnp.sort(logits, -1)
  if float((top[..., -1] - top[..., -2]).min()) < 1e-4:
    return  # a tie: the order of the sums decides
  pure0 = start.partition()

  def body(s):
    i, pure, out = s
    t = jax.lax.dynamic_slice_in_dim(out, i, 1, 1)
    y, pure = pure.apply(t, True)
    out = jax.lax.dynamic_update_slice_in_dim(
        out, y.argmax(-1).astype(out.dtype), i + 1, 1)
    return i + 1, pure, out

  out = jnp.zeros_like(tokens).at[:, :1].set(first)
  run = lambda: jax.lax.while_loop(lambda s: s[0] < cfg["length"] - 1, body, (0, pure0, out))
  i, pure, out = run() if case.rng.random() < 0.5 else jax.jit(run)()
  case.eq(np.asarray(out).tolist(), np.asarray(seq).tolist(), "greedily generated tokens")
  for k, v in gather(pure.merge(), nnx.Cache).items():
    if k[-1] == "index":
      same(case, v, jnp.full(v.shape, cfg["length"] - 1, jnp.int32), f"{k} after generating")
  case.event("generated")


# ---------------------------------------------------------------- recurrent networks


class Cell(nnx.Module):
  """A cell that keeps its hidden state in variables of its own."""

  def __init__(self, kind, din, d, batch, *, ctx):
    self.kind = kind
    gates = {"rnn": 1, "gru": 3, "lstm": 4}[kind]
    self.x = nnx.Linear(din, gates * d, ctx=ctx)
    self.h = nnx.Linear(d, gates * d, use_bias=False, ctx=ctx)
    self.hidden = Hidden(jnp.zeros((batch, d)), sharding=("data", None))
    if kind == "lstm":
      self.cell = Hidden(jnp.zeros((batch, d)))

  def __call__(self, x):
    a, b = self.x(x), self.h(self.hidden)
    if self.kind == "rnn":
      self.hidden = jnp.tanh(a + b)
    elif self.kind == "gru":
      (r, z, n), (rh, zh, nh) = jnp.split(a, 3, -1), jnp.split(b, 3, -1)
      z = nnx.sigmoid(z + zh)
      self.hidden = (1 - z) * nnx.tanh(n + nnx.sigmoid(r + rh) * nh) + z * self.hidden
    else:
      i, f, g, o = jnp.split(a + b, 4, -1)
      self.cell = nnx.sigmoid(f + 1) * self.cell + nnx.sigmoid(i) * nnx.tanh(g)
      self.hidden = nnx.sigmoid(o) * nnx.tanh(self.cell)
    return self.hidden


def plain_cell(kind, v, s, x):
  wx, bx, wh = v["x", "kernel"], v["x", "bias"], v["h", "kernel"]
  a, b = x @ wx + bx, s["hidden"] @ wh
  if kind == "rnn":
    return {"hidden": jnp.tanh(a + b)}
  if kind == "gru":
    (r, z, n), (rh, zh, nh) = jnp.split(a, 3, -1), jnp.split(b, 3, -1)
    z = jax.nn.sigmoid(z + zh)
    return {"hidden": (1 - z) * jnp.tanh(n + jax.nn.sigmoid(r + rh) * nh) + z * s["hidden"]}
  i, f, g, o = jnp.split(a + b, 4, -1)
  c = jax.nn.sigmoid(f + 1) * s["cell"] + jax.nn.sigmoid(i) * jnp.tanh(g)
  return {"cell": c, "hidden": jax.nn.sigmoid(o) * jnp.tanh(c)}


class RNN(nnx.Module):

  def __init__(self, kinds, din, d, dout, batch, *, tied, ctx):
    cells, last = [], din
    for k in kinds:
      cells.append(Cell(k, last, d, batch, ctx=ctx))
      last = d
    self.cells = nnx.Sequence(cells)
    self.readout = nnx.Linear(d, dout, ctx=ctx)
    self.tied = self.cells[len(kinds) - 1] if tied else None  # a second name of the last cell

  def __call__(self, x):
    return self.readout(self.cells(x))


def rnn_parts(model, n):
  params = [gather(model.cells[i], nnx.Param) for i in range(n)]
  hidden = [{k[0]: v for k, v in gather(model.cells[i], Hidden).items()} for i in range(n)]
  return {"cells": params, "out": gather(model.readout, nnx.Param)}, hidden


def plain_rnn(kinds, p, hidden, xs):
  hidden, outs = list(hidden), []
  for x in xs:
    for i, k in enumerate(kinds):
      hidden[i] = plain_cell(k, p["cells"][i], hidden[i], x)
      x = hidden[i]["hidden"]
    outs.append(x @ p["out"][("kernel",)] + p["out"][("bias",)])
  return jnp.stack(outs), hidden


def recurrent(case):
  rng = case.rng
  n = rng.randint(1, 3)
  kinds = [rng.choice(["rnn", "gru", "lstm"]) for _ in range(n)]
  din, d, dout = rng.randint(1, 3), rng.randint(2, 3), rng.randint(1, 2)
  batch, t = rng.randint(1, 3), rng.randint(1, 6)
  start = RNN(kinds, din, d, dout, batch, tied=rng.random() < 0.4,
              ctx=nnx.context(rng.randint(0, 99)))
  # a random initial hidden state, put there in one of the ways there are
  init = [{k: normal(case, batch, d) for k in (("hidden", "cell") if kd == "lstm"
                                               else ("hidden",))} for kd in kinds]
  way = rng.choice(["assign", "update", "tree_map"])
  if way == "assign":
    for i, h in enumerate(init):
      for k, v in h.items():
        setattr(start.cells[i], k, v)
  else:
    st = start.filter(Hidden)
    flat, tree = jax.tree_util.tree_flatten(st)
    case.eq(len(flat), sum(map(len, init)), "number of hidden states")
    new = []
    for path in st:
      i, k = int(path.split("/")[1]), path.split("/")[2]
      new.append(init[i][k])
    if way == "update":
      start.update_state(jax.tree_util.tree_unflatten(tree, new))
    else:
      z = iter(new)
      start.update_state(jax.tree_map(lambda v: v * 0 + next(z), st))
  params, hidden = rnn_parts(start, n)
  same(case, hidden, init, f"hidden states after {way}")
  xs = normal(case, t, batch, din)
  case.note(kinds, (din, d, dout, batch, t), way)
  case.sample((kinds, (din, d, dout, batch, t), way))
  want, whidden = plain_rnn(kinds, params, init, xs)
  for driver in rng.sample(["loop", "jit", "nnx.scan", "lax.scan", "fori", "apply", "chunks"], 3):
    m = start.clone()
    if driver in ("loop", "jit"):
      f = (lambda m, x: m(x)) if driver == "loop" else nnx.jit(lambda m, x: m(x))
      got = jnp.stack([f(m, x) for x in xs])
    elif driver == "nnx.scan":

      def step(m, c, x):
        y = m(x)
        return c + jnp.sum(y), y

      kw = rng.choice([{}, dict(variable_broadcast=nnx.Param),
                       dict(variable_broadcast=nnx.Param, variable_carry=...)])
      c, got = nnx.scan(step, **kw)(m, jnp.zeros(()), xs)
      same(case, c, jnp.sum(want), "carry of the scan over time")
    elif driver == "lax.scan":
      (p, h), moduledef = m.partition(nnx.Param, Hidden)

      def body(h, x):
        y, (new, _) = moduledef.apply(p, h)(x)
        return new.filter(Hidden), y

      h, got = jax.lax.scan(body, h, xs)
      m = moduledef.merge(p, h)
    elif driver == "fori":
      pure = m.partition()

      def fbody(i, s):
        pure, out = s
        y, pure = pure.apply(xs[i])
        return pure, out.at[i].set(y)

      pure, got = jax.lax.fori_loop(0, t, fbody, (pure, jnp.zeros((t, batch, dout))))
      m = pure.merge()
    elif driver == "apply":
      state, moduledef = m.partition()
      got = []
      for x in xs:
        y, (state, moduledef) = moduledef.apply(state)(x)
        got.append(y)
      got = jnp.stack(got)
      m = moduledef.merge(state)
    else:  # two jitted chunks with different lengths
      cut = rng.randint(0, t)

      @nnx.jit
      def chunk(m, xs):
        return [m(x) for x in xs]

      got = jnp.stack(list(chunk(m, list(xs[:cut]))) + list(chunk(m, list(xs[cut:]))))
    same(case, got, want, f"outputs over time, {driver}")
    p2, h2 = rnn_parts(m, n)
    same(case, h2, whidden, f"hidden states after {driver}")
    same(case, p2, params, f"parameters after {driver}", 0, 0)
    if m.tied is not None:
      case.check(m.tied is m.cells[n - 1], f"the tied cell after {driver}")
    v = vars(m.cells[0])["hidden"]
    case.check(type(v) is Hidden and v.sharding == ("data", None), f"metadata after {driver}")
    case.event("recurrent")
    case.sig(kinds, driver, batch, t)

  # gradients through time, whole or truncated
  cut = rng.randint(0, t) if rng.random() < 0.5 else None

  def plain_loss(params):
    if cut is None:
      return jnp.sum(jnp.sin(plain_rnn(kinds, params, init, xs)[0]))
    a, h = plain_rnn(kinds, params, init, xs[:cut]) if cut else (jnp.zeros(()), init)
    h = jax.tree_map(jax.lax.stop_gradient, h)
    b, _ = plain_rnn(kinds, params, h, xs[cut:]) if cut < t else (jnp.zeros(()), h)
    return jnp.sum(jnp.sin(a)) + jnp.sum(jnp.sin(b))

  wl, wg = jax.value_and_grad(plain_loss)(params)

  def loss(m):
    total = 0.0
    for i, x in enumerate(xs):
      if i == cut:
        m.update_state(jax.tree_map(jax.lax.stop_gradient, m.filter(Hidden)))
      total = total + jnp.sum(jnp.sin(m(x)))
    return total, total

  m = start.clone()
  style = rng.choice(["nnx.grad", "jit", "functional"])
  if style == "functional":
    (p, h), moduledef = m.partition(nnx.Param, ...)

    def floss(p):
      mod = moduledef.merge(p, h)
      l, _ = loss(mod)
      return l, mod.filter(Hidden)

    (gl, newh), g = jax.value_and_grad(floss, has_aux=True)(p)
    m.update_state(newh)
  else:
    gf = nnx.grad(loss, has_aux=True)
    g, gl = nnx.jit(lambda m: gf(m))(m) if style == "jit" else gf(m)
  same(case, gl, wl, f"loss through time, {style}")
  holder = start.clone()
  holder.update_state(g)
  same(case, rnn_parts(holder, n)[0], wg, f"gradients through time, {style}, cut {cut}", 1e-3, 1e-5)
  same(case, rnn_parts(m, n)[1], whidden, f"hidden states after the gradient, {style}")
  case.event("bptt")


# ---------------------------------------------------------------- variational autoencoders


class Encoder(nnx.Module):

  def __init__(self, din, dmid, dout, *, ctx):
    self.lin = nnx.Linear(din, dmid, ctx=ctx)
    self.mean = nnx.Linear(dmid, dout, ctx=ctx)
    self.std = nnx.Linear(dmid, dout, ctx=ctx)

  def __call__(self, x, *, ctx):
    x = nnx.relu(self.lin(x))
    mean, std = self.mean(x), jnp.exp(self.std(x))
    self.kl_loss = Loss(jnp.mean(0.5 * jnp.mean(
        -jnp.log(std**2) - 1.0 + std**2 + mean**2, axis=-1)))
    return mean + std * jax.random.normal(ctx.make_rng("noise"), mean.shape)


class VAE(nnx.Module):

  def __init__(self, dims, n, *, ctx):
    din, dmid, dlat = dims
    self.encoders = nnx.Dict(
        {f"e{i}": Encoder(din if i == 0 else dlat, dmid, dlat, ctx=ctx) for i in range(n)})
    self.dec1 = nnx.Linear(dlat, dmid, ctx=ctx)
    self.dec2 = nnx.Linear(dmid, din, ctx=ctx)

  def decoder(self, z):
    return self.dec2(nnx.relu(self.dec1(z)))

  def __call__(self, x, *, ctx):
    for k in sorted(self.encoders):
      x = self.encoders[k](x, ctx=ctx)
    return self.decoder(x)

  def generate(self, z):
    return nnx.sigmoid(self.decoder(z))


def plain_vae(p, n, x, keys):
  lin = lambda name, x: x @ p[name + ("kernel",)] + p[name + ("bias",)]
  kl, noise = 0.0, []
  for i in range(n):
    e = ("encoders", f"e{i}")
    h = jax.nn.relu(lin(e + ("lin",), x))
    mean, std = lin(e + ("mean",), h), jnp.exp(lin(e + ("std",), h))
    kl = kl + jnp.mean(0.5 * (-jnp.log(std**2) - 1 + std**2 + mean**2))
    x = mean + std * jax.random.normal(keys[i], mean.shape)
  return lin(("dec2",), jax.nn.relu(lin(("dec1",), x))), kl


def vae(case):
  rng = case.rng
  dims, n = (rng.randint(2, 4), rng.randint(2, 4), rng.randint(1, 3)), rng.randint(1, 2)
  start = VAE(dims, n, ctx=nnx.context(rng.randint(0, 99)))
  steps, batch = rng.randint(1, 4), rng.randint(1, 3)
  data = [jnp.asarray(case.np.integers(0, 2, (batch, dims[0])), jnp.float32)
          for _ in range(steps)]
  key = jax.random.PRNGKey(rng.randint(0, 999))
  tx = rng.choice([lambda: optax.adam(1e-2), lambda: optax.sgd(0.1, momentum=0.9)])()
  style = rng.choice(["trainstate", "trainstate", "lifted", "pure", "lax.scan"])
  case.note(dims, n, steps, batch, style)
  case.sample((dims, n, steps, style))

  def noise_keys(i):  # the keys of the stream, drawn without any model
    c = nnx.context(noise=jax.random.fold_in(key, i))
    return [c.make_rng("noise") for _ in range(n)]

  bce = lambda l, x: jnp.mean(optax.sigmoid_binary_cross_entropy(l, x))
  # the plain program
  p = gather(start, nnx.Param)
  opt, wlosses = tx.init(p), []
  for i, x in enumerate(data):
    ks = noise_keys(i)

    def plain_loss(p):
      logits, kl = plain_vae(p, n, x, ks)
      return bce(logits, x) + 0.1 * kl

    l, g = jax.value_and_grad(plain_loss)(p)
    wlosses.append(l)
    upd, opt = tx.update(g, opt, p)
    p = optax.apply_updates(p, upd)

  before = gen.describe(start)
  losses = []

  def loss_of(logits, updates, x):
    found = updates.filter(Loss)
    return bce(logits, x) + 0.1 * sum(jax.tree_util.tree_leaves(found), 0.0)

  if style in ("trainstate", "lax.scan"):
    params, moduledef = start.partition(nnx.Param)
    state = nnx.TrainState(moduledef, params=params, tx=tx)

    def train_step(state, x):
      def loss_fn(params):
        ctx = nnx.context(noise=jax.random.fold_in(key, state.step))
        logits, (updates, _) = state.apply(params)(x, ctx=ctx)
        loss = loss_of(logits, updates, x)
        return loss, loss

      g, loss = jax.grad(loss_fn, has_aux=True)(state.params)
      return state.apply_gradients(grads=g), loss

    if style == "lax.scan":
      state, ls = jax.lax.scan(train_step, state, jnp.stack(data))
      losses = list(ls)
    else:
      jitted = jax.jit(train_step)
      for x in data:
        out = jitted(state, x)
        state, l = out
        losses.append(l)
    model = state.moduledef.merge(state.params)
    case.eq(int(state.step), steps, "steps counted")
    z = normal(case, 2, dims[2])
    gen_y = state.apply("params").generate(z)[0]
    same(case, gen_y, model.generate(z), "generate through the training state")
  elif style == "lifted":
    model = start.clone()
    opt = tx.init(model.filter(nnx.Param))

    def loss_fn(m, x, k):
      logits = m(x, ctx=nnx.context(noise=k))
      loss = loss_of(logits, m.get_state(), x)
      return loss, loss

    @nnx.jit
    def step(m, opt, x, k):
      g, loss = nnx.grad(loss_fn, has_aux=True)(m, x, k)
      ps = m.filter(nnx.Param)
      upd, opt = tx.update(g, opt, ps)
      m.update_state(optax.apply_updates(ps, upd))
      return opt, loss

    for i, x in enumerate(data):
      opt, l = step(model, opt, x, jax.random.fold_in(key, i))
      losses.append(l)
      popped = model.pop_state(Loss)
      case.eq(sorted(popped), [f"encoders/e{j}/kl_loss" for j in range(n)], "captured losses")
  else:
    pure = start.partition()
    opt = tx.init(pure.filter(nnx.Param))

    @jax.jit
    def pstep(pure, opt, x, k):
      def loss_fn(ps):
        logits, new = pure.update_state(ps).apply(x, ctx=nnx.context(noise=k))
        loss = loss_of(logits, new, x)
        _, new = new.pop_state(Loss)
        return loss, new

      ps = pure.filter(nnx.Param)
      (loss, new), g = jax.value_and_grad(loss_fn, has_aux=True)(ps)
      upd, opt = tx.update(g, opt, ps)
      return new.update_state(optax.apply_updates(ps, upd)), opt, loss

    for i, x in enumerate(data):
      pure, opt, l = pstep(pure, opt, x, jax.random.fold_in(key, i))
      losses.append(l)
    model = pure.merge()
  same(case, losses, wlosses, f"losses, {style}")
  same(case, gather(model, nnx.Param), p, f"parameters, {style}", 1e-3, 1e-4)
  case.eq(gen.describe(start), before, "the model the run started from")
  z = normal(case, 2, dims[2])
  lin = lambda name, x: x @ p[name, "kernel"] + p[name, "bias"]
  same(case, model.generate(z), jax.nn.sigmoid(lin("dec2", jax.nn.relu(lin("dec1", z)))),
       "generated samples", 1e-3, 1e-4)
  case.event("vae")
  case.sig(dims, n, style, steps)


# ---------------------------------------------------------------- several models


class MLP(nnx.Module):

  def __init__(self, *dims, ctx):
    self.n = len(dims) - 1
    for i in range(self.n):
      setattr(self, f"lin{i}", nnx.Linear(dims[i], dims[i + 1], ctx=ctx))
    self.calls = Count(jnp.zeros(()))

  def __call__(self, x):
    self.calls += 1
    for i in range(self.n):
      x = getattr(self, f"lin{i}")(x)
      x = jnp.tanh(x) if i + 1 < self.n else x
    return x


def plain_mlp(p, x):
  n = len(p) // 2
  for i in range(n):
    x = x @ p[f"lin{i}", "kernel"] + p[f"lin{i}", "bias"]
    x = jnp.tanh(x) if i + 1 < n else x
  return x


def mlp(case, *dims):
  m = MLP(*dims, ctx=nnx.context(case.rng.randint(0, 999)))
  return m, gather(m, nnx.Param)


def sgd(m, g, lr):
  m.update_state(jax.tree_map(lambda w, d: w - lr * d, m.filter(nnx.Param), g))


def gan(case, jit):
  rng = case.rng
  dz, dx = rng.randint(1, 3), rng.randint(1, 3)
  gm, gp = mlp(case, dz, 3, dx)
  dm, dp = mlp(case, dx, 3, 1)
  sq = lambda t: jnp.mean(t ** 2)

  steps = rng.randint(1, 3)

  def run(gm, dm, z, x):
    fake = gm(z)
    dg = nnx.grad(lambda dm: sq(dm(x) - 1) + sq(dm(fake)))(dm)
    sgd(dm, dg, 0.1)
    state, moduledef = dm.partition()
    gg = nnx.grad(lambda gm: sq(moduledef.apply(state)(gm(z))[0] - 1))(gm)
    sgd(gm, gg, 0.1)

  if jit:
    @jax.jit
    def jrun(pg, pd, z, x):
      gm, dm = pg.merge(), pd.merge()
      run(gm, dm, z, x)
      return gm.partition(), dm.partition()

  for _ in range(steps):
    z, x = normal(case, 4, dz), normal(case, 4, dx)
    if jit:
      pg, pd = jrun(gm.partition(), dm.partition(), z, x)
      gm.update_state(pg)
      dm.update_state(pd)
    else:
      run(gm, dm, z, x)
    fake = plain_mlp(gp, z)
    g = jax.grad(lambda d: sq(plain_mlp(d, x) - 1) + sq(plain_mlp(d, fake)))(dp)
    dp = jax.tree_map(lambda w, d: w - 0.1 * d, dp, g)
    g = jax.grad(lambda gp: sq(plain_mlp(dp, plain_mlp(gp, z)) - 1))(gp)
    gp = jax.tree_map(lambda w, d: w - 0.1 * d, gp, g)
  same(case, gather(gm, nnx.Param), gp, "generator")
  same(case, gather(dm, nnx.Param), dp, "discriminator")
  case.eq((float(gm.calls), float(dm.calls)), (2.0 * steps, 2.0 * steps), "calls counted")


def teacher(case, jit):
  """Distillation, an averaged copy of the student, and the frozen teacher."""
  rng = case.rng
  d = rng.randint(1, 3)
  student, sp = mlp(case, d, 3, 2)
  tm, tp_ = mlp(case, d, 4, 2)
  ema = student.clone()
  ep, decay = dict(sp), rng.choice([0.5, 0.9])
  frozen = gen.describe(tm)
  target = student.clone()
  tgt = dict(sp)

  def step(student, ema, x, t):
    g = nnx.grad(lambda s: jnp.mean((s(x) - t) ** 2))(student)
    sgd(student, g, 0.2)
    ema.update_state(jax.tree_map(
        lambda a, b: decay * a + (1 - decay) * b, ema.filter(nnx.Param),
        student.filter(nnx.Param)))

  for i in range(rng.randint(1, 4)):
    x = normal(case, 3, d)
    t, _ = tm.partition()[1].apply(tm.get_state())(x)
    if jit:
      pair = nnx.Dict(student=student, ema=ema)
      nnx.jit(lambda pair, x, t: step(pair["student"], pair["ema"], x, t))(pair, x, t)
    else:
      step(student, ema, x, t)
    wt = plain_mlp(tp_, x)
    same(case, t, wt, "teacher's output")
    g = jax.grad(lambda p: jnp.mean((plain_mlp(p, x) - wt) ** 2))(sp)
    sp = jax.tree_map(lambda w, d: w - 0.2 * d, sp, g)
    ep = jax.tree_map(lambda a, b: decay * a + (1 - decay) * b, ep, sp)
    if i % 2 == 1:  # the target network is overwritten now and then
      target.update_state(student.filter(nnx.Param))
      tgt = dict(sp)
    same(case, gather(student, nnx.Param), sp, "student")
    same(case, gather(ema, nnx.Param), ep, "averaged copy")
    same(case, gather(target, nnx.Param), tgt, "target network")
  case.eq(gen.describe(tm), frozen, "the teacher")
  case.eq(float(ema.calls), 0.0, "calls of the averaged copy")


class LoRALinear(nnx.Module):

  def __init__(self, base, rank, a, b):
    self.base, self.a, self.b = base, LoRA(a), LoRA(b)
    self.rank = rank

  @property
  def kernel(self):
    return self.base.kernel + self.a @ self.b

  def __call__(self, x):
    return x @ self.kernel + self.base.bias


def lora(case, jit):
  """Adapters in place of layers of a trained model; only they are trained."""
  rng = case.rng
  d, r = rng.randint(1, 3), rng.randint(1, 2)
  model, p = mlp(case, d, 3, 2)
  which = rng.sample([0, 1], rng.randint(1, 2))
  ad = {}
  for i in which:
    base = getattr(model, f"lin{i}")
    ad[i] = (normal(case, base.kernel.shape[0], r), normal(case, r, base.kernel.shape[1]))
    setattr(model, f"lin{i}", LoRALinear(base, r, *ad[i]))
  lr = 0.2
  wd = rng.choice([0.0, 0.1])

  def plain_loss(ad, x):
    q = dict(p)
    for i, (a, b) in ad.items():
      q[f"lin{i}", "kernel"] = q[f"lin{i}", "kernel"] + a @ b
    return jnp.mean(plain_mlp(q, x) ** 2)

  def step(m, x):
    g = nnx.grad(lambda m: jnp.mean(m(x) ** 2), wrt=LoRA)(m)
    m.update_state(jax.tree_map(lambda w, d: w - lr * (d + wd * w), m.filter(LoRA), g))
    return g

  f = nnx.jit(step) if jit else step
  for _ in range(rng.randint(1, 3)):
    x = normal(case, 3, d)
    g = f(model, x)
    case.eq(sorted(g), sorted(f"lin{i}/{k}" for i in which for k in "ab"), "adapted paths")
    wg = jax.grad(plain_loss)(ad, x)
    ad = jax.tree_map(lambda w, d: w - lr * (d + wd * w), ad, wg)
  for i, (a, b) in ad.items():
    same(case, (getattr(model, f"lin{i}").a, getattr(model, f"lin{i}").b), (a, b), f"adapter {i}")
    same(case, getattr(model, f"lin{i}").base.kernel, p[f"lin{i}", "kernel"], "base", 0, 0)
    # merged back into the plain layer
    layer = getattr(model, f"lin{i}")
    base = layer.base
    base.kernel = layer.kernel
    setattr(model, f"lin{i}", base)
    p[f"lin{i}", "kernel"] = p[f"lin{i}", "kernel"] + a @ b
  same(case, gather(model, nnx.Param), p, "the model with its adapters merged")
  case.check(not model.filter(LoRA), "no adapter is left")


def groups(case, jit):
  """Optimizers per group of parameters, labelled over the State."""
  rng = case.rng
  d = rng.randint(1, 3)
  model, p = mlp(case, d, 3, 3, 2)
  fast = rng.sample(["lin0", "lin1", "lin2"], rng.randint(1, 2))
  frozen = rng.choice([None, "bias"])
  txs = {"fast": optax.sgd(0.5), "slow": optax.adam(0.01), "none": optax.set_to_zero()}

  def label(path):
    if frozen and path.endswith(frozen):
      return "none"
    return "fast" if path.split("/")[0] in fast else "slow"

  st = model.filter(nnx.Param)
  labels = nnx.State({k: v.replace(value=label(k)) for k, v in st.items()})
  tx = optax.multi_transform(txs, labels)
  opt = tx.init(st)
  plabels = {k: label("/".join(k)) for k in p}
  ptx = optax.multi_transform(txs, plabels)
  popt = ptx.init(p)

  def step(m, opt, x):
    g = nnx.grad(lambda m: jnp.mean(m(x) ** 2))(m)
    ps = m.filter(nnx.Param)
    upd, opt = tx.update(g, opt, ps)
    m.update_state(optax.apply_updates(ps, upd))
    return opt

  f = nnx.jit(step) if jit else step
  for _ in range(rng.randint(1, 3)):
    x = normal(case, 3, d)
    opt = f(model, opt, x)
    g = jax.grad(lambda p: jnp.mean(plain_mlp(p, x) ** 2))(p)
    upd, popt = ptx.update(g, popt, p)
    p = optax.apply_updates(p, upd)
    same(case, gather(model, nnx.Param), p, "parameters by group")


def accumulate(case, jit):
  """Gradient accumulation, mixed precision and clipping over States."""
  rng = case.rng
  d = rng.randint(1, 3)
  model, p = mlp(case, d, 3, 2)
  n, half = rng.randint(1, 3), rng.random() < 0.5
  xs = [normal(case, 2, d) for _ in range(n)]
  low = (lambda t: jax.tree_map(lambda v: v.astype(jnp.bfloat16).astype(v.dtype), t)) if half \
      else (lambda t: t)
  params, rest = model.filter(nnx.Param, ...)
  moduledef = model.get_module_def()

  def gradf(params, x):
    def loss(ps):
      y, (new, _) = moduledef.apply(low(ps), rest)(x)
      return jnp.mean(y ** 2)
    return jax.grad(loss)(params)

  gradf = jax.jit(gradf) if jit else gradf
  acc = jax.tree_map(jnp.zeros_like, params)
  for x in xs:
    acc = jax.tree_map(jnp.add, acc, gradf(params, x))
  norm = optax.global_norm(acc)
  acc = jax.tree_map(lambda g: g / jnp.maximum(1.0, norm), acc)
  wl = jax.tree_map(jnp.zeros_like, p)
  for x in xs:
    g = jax.grad(lambda p: jnp.mean(plain_mlp(low(p), x) ** 2))(p)
    wl = jax.tree_map(jnp.add, wl, g)
  wn = optax.global_norm(wl)
  wl = jax.tree_map(lambda g: g / jnp.maximum(1.0, wn), wl)
  same(case, norm, wn, "norm of the accumulated gradient", 1e-3, 1e-4)
  model.update_state(jax.tree_map(lambda w, g: w - g, params, acc))
  same(case, gather(model, nnx.Param), jax.tree_map(lambda w, g: w - g, p, wl),
       "parameters after the accumulated step", 1e-3, 1e-4)
  case.eq(float(model.calls), 0.0, "functional calls do not count on the model")


DUOS = {"gan": gan, "teacher": teacher, "lora": lora, "groups": groups, "accumulate": accumulate}


def duo(case):
  kind, jit = case.rng.choice(sorted(DUOS)), case.rng.random() < 0.5
  case.note(kind, "jit" if jit else "eager")
  case.sample((kind, jit))
  DUOS[kind](case, jit)
  case.event("duo")
  case.sig(kind, jit, case.index)


# ---------------------------------------------------------------- derivatives over States


def derivative(case):
  rng = case.rng
  d = rng.randint(1, 3)
  model, p = mlp(case, d, 2, 1)
  (params, rest), moduledef = model.partition(nnx.Param, ...)
  x = normal(case, 3, d)
  f = lambda ps, x=x: moduledef.apply(ps, rest)(x)[0]
  pf = lambda p, x=x: plain_mlp(p, x)
  loss = lambda ps, x=x: jnp.mean(f(ps, x) ** 2)
  ploss = lambda p, x=x: jnp.mean(pf(p, x) ** 2)
  paths = ["/".join(k) for k in p]
  to_state = lambda t: nnx.State(
      {"/".join(k): vars(getattr(model, k[0]))[k[1]].replace(value=v) for k, v in t.items()})

  def check(got, want, what, **kw):
    """A State against a plain dictionary."""
    case.check(isinstance(got, nnx.State), f"{what} is a State", got=type(got))
    case.eq(sorted(got), sorted(paths), f"{what}: paths")
    for k, v in want.items():
      e = got["/".join(k)]
      case.check(isinstance(e, nnx.Param), f"{what}: {k} is a Param", got=e)
      case.close(e.value, v, f"{what}: {k}", rtol=1e-3, atol=1e-5)

  same(case, jax.tree_util.tree_leaves(to_state(p)), jax.tree_util.tree_leaves(params), "leaves",
       0, 0)
  tan = {k: normal(case, *v.shape) for k, v in p.items()}
  before = gen.describe(model)
  for kind in rng.sample(["jvp", "vjp", "linearize", "hvp", "hessian", "per-example", "maml",
                          "custom_vjp", "checkpoint", "jacfwd", "linsolve", "ravel", "ntk",
                          "nnx-in-grad", "nested"], 4):
    case.note(kind)
    if kind == "jvp":
      y, dy = jax.jvp(f, (params,), (to_state(tan),))
      wy, wdy = jax.jvp(pf, (p,), (tan,))
      same(case, (y, dy), (wy, wdy), kind)
    elif kind == "vjp":
      y, back = jax.vjp(f, params)
      ct = normal(case, *y.shape)
      check(back(ct)[0], jax.vjp(pf, p)[1](ct)[0], kind)
    elif kind == "linearize":
      y, lin = jax.linearize(f, params)
      same(case, (y, lin(to_state(tan))), jax.jvp(pf, (p,), (tan,)), kind)
    elif kind == "hvp":
      got = jax.jvp(jax.grad(loss), (params,), (to_state(tan),))[1]
      check(got, jax.jvp(jax.grad(ploss), (p,), (tan,))[1], kind)
    elif kind == "hessian":
      h = jax.hessian(loss)(params)
      w = jax.hessian(ploss)(p)
      for a in p:
        for b in p:
          inner = h["/".join(a)].value["/".join(b)].value
          case.close(inner, w[a][b], f"hessian {a} {b}", rtol=1e-3, atol=1e-5)
    elif kind == "per-example":
      g = jax.vmap(jax.grad(lambda ps, x: loss(ps, x[None])), in_axes=(None, 0))(params, x)
      check(g, jax.vmap(jax.grad(lambda p, x: ploss(p, x[None])), in_axes=(None, 0))(p, x), kind)
    elif kind == "maml":
      x2 = normal(case, 2, d)

      def outer(ps):
        g = jax.grad(loss)(ps)
        return loss(jax.tree_map(lambda w, d: w - 0.3 * d, ps, g), x2)

      def pouter(p):
        g = jax.grad(ploss)(p)
        return ploss(jax.tree_map(lambda w, d: w - 0.3 * d, p, g), x2)

      check(jax.grad(outer)(params), jax.grad(pouter)(p), kind)
    elif kind == "custom_vjp":

      @jax.custom_vjp
      def g(ps):
        return loss(ps)

      g.defvjp(lambda ps: (loss(ps), ps), lambda ps, ct: (jax.tree_map(lambda v: ct * v, ps),))
      check(jax.grad(lambda ps: 2 * g(ps))(params), {k: 2 * v for k, v in p.items()}, kind)
    elif kind == "checkpoint":
      check(jax.grad(jax.checkpoint(loss))(params), jax.grad(ploss)(p), kind)
    elif kind == "jacfwd":
      j = jax.jacfwd(f)(params)
      w = jax.jacfwd(pf)(p)
      check(j, w, kind)
    elif kind == "linsolve":  # conjugate gradients on (H + I) v = b, all States
      A = lambda v: jax.tree_map(
          jnp.add, v, jax.tree_map(lambda t: t * 0.1, jax.jvp(
              jax.grad(loss), (params,), (v,))[1]))
      pA = lambda v: jax.tree_map(
          jnp.add, v, jax.tree_map(lambda t: t * 0.1, jax.jvp(jax.grad(ploss), (p,), (v,))[1]))
      got, _ = jax.scipy.sparse.linalg.cg(A, to_state(tan), maxiter=3)
      want, _ = jax.scipy.sparse.linalg.cg(pA, tan, maxiter=3)
      check(got, want, kind)
    elif kind == "ravel":
      from jax.flatten_util import ravel_pytree
      flat, unravel = ravel_pytree(params)
      case.eq(flat.shape, (sum(v.size for v in p.values()),), "raveled size")
      check(unravel(flat * 2), {k: v * 2 for k, v in p.items()}, kind)
    elif kind == "ntk":
      x2 = normal(case, 2, d)
      j1, j2 = jax.jacobian(f)(params), jax.jacobian(lambda ps: f(ps, x2))(params)
      k = sum(jax.tree_util.tree_leaves(jax.tree_map(
          lambda a, b: jnp.einsum("aik,bik->ab", a.reshape(a.shape[:2] + (-1,)),
                                  b.reshape(b.shape[:2] + (-1,))), j1, j2)))
      w1, w2 = jax.jacobian(pf)(p), jax.jacobian(lambda q: pf(q, x2))(p)
      w = sum(jnp.einsum("aik,bik->ab", w1[q].reshape(w1[q].shape[:2] + (-1,)),
                         w2[q].reshape(w2[q].shape[:2] + (-1,))) for q in p)
      same(case, k, w, kind, 1e-3, 1e-4)
    elif kind == "nnx-in-grad":  # nnx.grad in a function that jax differentiates

      def gnorm(scale):
        m = moduledef.merge(jax.tree_map(lambda v: v * scale, params), rest)
        g = nnx.grad(lambda m: jnp.mean(m(x) ** 2))(m)
        return sum(jnp.sum(l ** 2) for l in jax.tree_util.tree_leaves(g))

      def pgnorm(scale):
        g = jax.grad(ploss)(jax.tree_map(lambda v: v * scale, p))
        return sum(jnp.sum(l ** 2) for l in jax.tree_util.tree_leaves(g))

      same(case, jax.grad(gnorm)(1.5), jax.grad(pgnorm)(1.5), kind, 1e-3, 1e-4)
    else:  # nnx.grad of a loss with an nnx.grad of another module inside
      m2, p2 = mlp(case, 1, 2, 1)

      def inner_norm(m2, t):
        g = nnx.grad(lambda m: jnp.mean(m(t) ** 2))(m2.clone())
        return sum(jnp.sum(l ** 2) for l in jax.tree_util.tree_leaves(g))

      def pinner(p, t):
        g = jax.grad(lambda p: jnp.mean(plain_mlp(p, t) ** 2))(p)
        return sum(jnp.sum(l ** 2) for l in jax.tree_util.tree_leaves(g))

      m = model.clone()
      g = nnx.grad(lambda m: inner_norm(moduledef2.merge(state2), m(x)))
      state2, moduledef2 = m2.partition()
      check(g(m), jax.grad(lambda p: pinner(p2, pf(p)))(p), kind)
      case.eq(float(m.calls), 1.0, "calls counted in the outer loss")
    case.event("derivative")
    case.sig(kind, d)
  case.eq(gen.describe(model), before, "derivatives of functional calls changed the model")


# ---------------------------------------------------------------- hand-lifted stacks


class Block(nnx.Module):

  def __init__(self, dim, rate, *, ctx):
    self.linear = nnx.Linear(dim, dim, ctx=ctx)
    self.bn = nnx.BatchNorm(dim, ctx=ctx)
    self.dropout = nnx.Dropout(rate)

  def __call__(self, x, *, ctx):
    x = self.bn(self.linear(x), ctx=ctx)
    return jax.nn.gelu(self.dropout(x, ctx=ctx))


class ScanMLP(nnx.Module):

  def __init__(self, dim, rate, *, n_layers, ctx):
    self.n_layers = n_layers
    keys, ctxdef = ctx.partition()
    params_key = jax.random.split(keys["params"], n_layers)

    def create(key):
      return Block(dim, rate, ctx=ctxdef.merge({"params": key})).partition()

    self.layers = jax.vmap(create)(params_key).merge()

  def __call__(self, x, *, ctx):
    keys, ctxdef = ctx.partition()
    dropout_key = jax.random.split(keys["dropout"], self.n_layers)
    (params, stats), moduledef = self.layers.partition(nnx.Param, nnx.BatchStat)

    def scan_fn(x, inputs):
      params, stats, key = inputs
      ctx = ctxdef.merge({"dropout": key})
      module = moduledef.merge(params, stats)
      x = module(x, ctx=ctx)
      (params, stats), _ = module.partition(nnx.Param, nnx.BatchStat)
      return x, (params, stats)

    x, (params, stats) = jax.lax.scan(scan_fn, x, (params, stats, dropout_key))
    self.layers.update_state((params, stats))
    return x


def lifted(case):
  """Layers stacked by hand with vmap and scan, next to a loop over single layers."""
  rng = case.rng
  dim, n, rate = rng.randint(1, 4), rng.randint(1, 4), rng.choice([0.0, 0.3])
  seed = rng.randint(0, 99)
  stack = ScanMLP(dim, rate, n_layers=n, ctx=nnx.context(seed))
  # the single layers: same keys, no vmap
  keys, ctxdef = nnx.context(seed).partition()
  single = [Block(dim, rate, ctx=ctxdef.merge({"params": k}))
            for k in jax.random.split(keys["params"], n)]
  case.note(dim, n, rate)
  case.sample((dim, n, rate))
  for k, v in gather(stack.layers).items():
    same(case, v, jnp.stack([gather(s)[k] for s in single]), f"stacked {k}")
  flags = dict(deterministic=False, use_running_average=rng.random() < 0.5)
  run = rng.choice(["eager", "jit", "apply"])
  x = normal(case, 4, dim)
  for call in range(rng.randint(1, 3)):
    dk = jax.random.PRNGKey(call)
    mk = lambda: nnx.context(dropout=dk, flags=flags)
    if run == "eager":
      y = stack(x, ctx=mk())
    elif run == "jit":
      y = nnx.jit(lambda m, x, k: m(x, ctx=nnx.context(dropout=k, flags=flags)))(stack, x, dk)
    else:
      y, (state, _) = stack.partition().apply(x, ctx=mk())
      stack.update_state(state)
    keys, ctxdef = mk().partition()
    z = x
    for s, k in zip(single, jax.random.split(keys["dropout"], n)):
      z = s(z, ctx=ctxdef.merge({"dropout": k}))
    same(case, y, z, f"output of call {call}, {run}")
    for k, v in gather(stack.layers).items():
      same(case, v, jnp.stack([gather(s)[k] for s in single]), f"{k} after call {call}")
    x = y
  case.event("lifted")
  case.sig(dim, n, rate, run)


# ---------------------------------------------------------------- the guide's programs


class Linear(nnx.Module):

  def __init__(self, din, dout, *, ctx):
    self.w = nnx.Param(jax.random.uniform(ctx.make_rng("params"), (din, dout)))
    self.b = nnx.Param(jnp.zeros((dout,)))
    self.count = Count(0)

  def __call__(self, x):
    self.count += 1
    y = x @ self.w + self.b
    if self.__dict__.get("capture"):
      self.y = nnx.Intermediate(y)
    return y


class SharedBlock(nnx.Module):

  def __init__(self, linear, d, *, ctx):
    self.linear = linear
    self.bn = nnx.BatchNorm(d, ctx=ctx)

  def __call__(self, x, *, ctx):
    return nnx.relu(self.bn(self.linear(x), ctx=ctx))


class SharedModel(nnx.Module):

  def __init__(self, d, *, ctx):
    shared = nnx.Linear(d, d, ctx=ctx)
    self.block1 = SharedBlock(shared, d, ctx=ctx)
    self.block2 = SharedBlock(shared, d, ctx=ctx)

  def __call__(self, x, *, ctx):
    return self.block2(self.block1(x, ctx=ctx), ctx=ctx)


def guide(case):
  rng = case.rng
  din, dout, n = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3)
  x, y = normal(case, n, din), normal(case, n, dout)
  kind = rng.choice(["functional", "lifted", "capture", "shared", "foo"])
  case.note(kind, din, dout, n)
  case.sample((kind, din, dout, n))
  if kind in ("functional", "lifted"):
    model = Linear(din, dout, ctx=nnx.context(rng.randint(0, 9)))
    w, b = model.w, model.b
    calls = rng.randint(0, 2)
    for _ in range(calls):
      same(case, model(x), x @ w + b, "forward")
    case.eq(model.count, calls, "calls")
    steps = rng.randint(1, 3)
    if kind == "functional":
      (params, counts), moduledef = model.partition(nnx.Param, Count)

      @jax.jit
      def train_step(params, counts, x, y):
        def loss_fn(params):
          y_pred, (updates, _) = moduledef.apply(params, counts)(x)
          return jnp.mean((y_pred - y) ** 2), updates.filter(Count)

        grads, counts = jax.grad(loss_fn, has_aux=True)(params)
        return jax.tree_map(lambda w, g: w - 0.1 * g, params, grads), counts

      for _ in range(steps):
        params, counts = train_step(params, counts, x, y)
      case.eq(model.count, calls, "the model itself was not called")
      model = moduledef.merge(params, counts)
    else:

      @nnx.jit
      def lifted_step(model, x, y):
        def loss_fn(model):
          return jnp.mean((model(x) - y) ** 2)

        grads = nnx.grad(loss_fn, wrt=nnx.Param)(model)
        model.update_state(
            jax.tree_map(lambda w, g: w - 0.1 * g, model.filter(nnx.Param), grads))

      for _ in range(steps):
        case.check(lifted_step(model, x, y) is None, "no return")
    p = (w, b)
    for _ in range(steps):
      g = jax.grad(lambda p: jnp.mean((x @ p[0] + p[1] - y) ** 2))(p)
      p = jax.tree_map(lambda w, g: w - 0.1 * g, p, g)
    same(case, (model.w, model.b), p, "parameters")
    case.eq(int(model.count), calls + steps, "calls counted")
  elif kind == "capture":
    model = Linear(din, dout, ctx=nnx.context(0))
    model.capture = True
    want = x @ model.w + model.b
    how = rng.choice(["eager", "functional", "jit"])
    if how == "functional":
      state, moduledef = model.partition()
      out, (state, moduledef) = moduledef.apply(state)(x)
      inter, state = state.partition(nnx.Intermediate, ...)
      case.check(not hasattr(model, "y"), "the model itself was not called")
      case.eq(sorted(state), ["b", "count", "w"], "what is left")
    else:
      out = model(x) if how == "eager" else nnx.jit(lambda m, x: m(x))(model, x)
      inter = model.pop_state(nnx.Intermediate)
      case.check(not hasattr(model, "y"), "popped")
    case.eq(list(inter), ["y"], "captured paths")
    same(case, (out, inter["y"].value), (want, want), "captured output")
    case.check(type(inter["y"]) is nnx.Intermediate, "captured type")
  elif kind == "shared":
    model = SharedModel(din, ctx=nnx.context(rng.randint(0, 9)))
    vals = {k: normal(case, *v.shape) for k, v in gather(model).items() if k[-1] == "mean"}
    model.block1.bn.mean = vals["block1", "bn", "mean"]
    model.block2.bn.mean = vals["block2", "bn", "mean"]
    lk = model.block1.linear
    case.check(lk is model.block2.linear, "one linear")
    yd = normal(case, n, din)

    def plain(p):
      h = x
      for i in (1, 2):
        h = h @ p["k"] + p["b"]
        h = (h - vals[f"block{i}", "bn", "mean"]) / jnp.sqrt(1 + 1e-5)
        h = jax.nn.relu(h * p[f"s{i}"] + p[f"o{i}"])
      return jnp.mean((yd - h) ** 2)

    def loss_fn(model):
      ctx = nnx.context(flags=dict(use_running_average=True))
      return jnp.mean((yd - model(x, ctx=ctx)) ** 2)

    p = {"k": lk.kernel, "b": lk.bias, "s1": model.block1.bn.scale, "o1": model.block1.bn.bias,
         "s2": model.block2.bn.scale, "o2": model.block2.bn.bias}
    same(case, loss_fn(model), plain(p), "loss")
    g = nnx.grad(loss_fn)(model)
    wg = jax.grad(plain)(p)
    where = {"k": "block1/linear/kernel", "b": "block1/linear/bias", "s1": "block1/bn/scale",
             "o1": "block1/bn/bias", "s2": "block2/bn/scale", "o2": "block2/bn/bias"}
    case.eq(sorted(g), sorted(where.values()), "gradient paths")
    for k, path in where.items():
      same(case, g[path].value, wg[k], path, 1e-3, 1e-5)
    sgd(model, g, 0.5)
    same(case, model.block2.linear.kernel, p["k"] - 0.5 * wg["k"], "seen through the other block")
  else:  # node and static attributes

    class Foo(nnx.Module):

      def __init__(self, *, ctx):
        self.variable = nnx.Param(jnp.array(1))
        self.np_buffer = np.array(2)
        self.jax_buffer = jnp.array(3)
        self.node = nnx.Node([4, 5])
        self.submodule = nnx.Linear(din, dout, ctx=ctx)
        self.int = 1
        self.float = 2.0
        self.str = "hello"
        self.list = [1, 2, 3]

    model = Foo(ctx=nnx.context(0))
    state, moduledef = model.partition()
    case.eq(sorted(state), ["jax_buffer", "node", "np_buffer", "submodule/bias",
                            "submodule/kernel", "variable"], "nodes")
    again = moduledef.merge(state)
    case.eq((again.int, again.float, again.str, again.list), (1, 2.0, "hello", [1, 2, 3]),
            "statics")
    yy, (state, moduledef) = moduledef.apply(state).submodule(x)
    same(case, yy, x @ model.submodule.kernel + model.submodule.bias, "apply on a submodule")
    (params, rest), moduledef = model.partition(nnx.Param, ...)
    case.eq(sorted(params), ["submodule/bias", "submodule/kernel", "variable"], "params")
    case.raises(ValueError, lambda: model.partition(nnx.Param), "nodes are left")
    case.eq(sorted(model.filter(nnx.buffers)), ["jax_buffer", "np_buffer"], "buffers")
    case.eq(sorted(model.filter(nnx.Not(nnx.Param))), ["jax_buffer", "node", "np_buffer"],
            "everything else")
    model.update_state(jax.tree_map(lambda v: v + 1, model.get_state()))
    case.eq((int(model.variable), int(model.np_buffer), int(model.jax_buffer), model.node),
            (2, 3, 4, [5, 6]), "updated nodes")
  case.event("guide")
  case.sig(kind, din, dout, n)


FAMILIES = {
    "decode": dict(fn=decode, quick=30),
    "recurrent": dict(fn=recurrent, quick=30),
    "vae": dict(fn=vae, quick=24),
    "duo": dict(fn=duo, quick=60),
    "derivative": dict(fn=derivative, quick=30),
    "lifted": dict(fn=lifted, quick=32),
    "guide": dict(fn=guide, quick=40),
}
