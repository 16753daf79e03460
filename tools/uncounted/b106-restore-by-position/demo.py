import jax.numpy as jnp
from flax import serialization
import nnx
class P(nnx.Pytree):
  def __init__(self): self.a = nnx.TreeNode((None, ())); self.x = jnp.ones(2)
p = P()
d = serialization.to_state_dict(p)
q = serialization.from_state_dict(P(), d)
assert q.a == (None, ()), q.a
