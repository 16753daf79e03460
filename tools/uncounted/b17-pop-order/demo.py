import jax.numpy as jnp
import nnx

class Block(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(jnp.ones(()))

class M(nnx.Module):
  def __init__(self):
    self.b = Block()
    self.a = self.b

m = M()
paths = list(m.get_state())
popped = list(m.pop_state(nnx.Param))
assert paths == popped, (paths, popped)
