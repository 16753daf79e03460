import jax, jax.numpy as jnp
import nnx

class M(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(jnp.ones(()))

m = M()

@jax.jit
def f(x):
  try:
    m.pop_state(nnx.Param)
  except nnx.TraceContextError:
    return x
  raise AssertionError("popped at another trace level")
f(1.0)
assert float(m.w) == 1.0
