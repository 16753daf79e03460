import jax.numpy as jnp, nnx
from nnx import spmd
s = nnx.State({"w": nnx.Param(jnp.zeros((2, 3, 4)), sharding=("layers", "embed", "layers"))})
out = spmd.remove_axis(s, 2, {spmd.PARTITION_NAME: "layers"})
assert out["w"].sharding == ("layers", "embed"), out["w"].sharding
