import jax, jax.numpy as jnp, numpy as np, nnx
class M(nnx.Module):
  def __call__(self, c, x, *, ctx):
    if not hasattr(self, "n"):
      self.n = nnx.Cache(jnp.zeros(()))
    return c, ctx.make_rng("dropout")
_, keys = nnx.scan(M.__call__, split_rngs="dropout", reverse=True)(M(), 0., jnp.zeros(4), ctx=nnx.context(dropout=0))
assert len({k.tobytes() for k in np.asarray(keys)}) == 4, keys
