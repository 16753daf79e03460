import jax.numpy as jnp, nnx
from nnx import spmd
v = nnx.Param(jnp.ones((2, 3)), sharding=("layers", "mlp"))
s = nnx.State({"w": v})
p = {nnx.PARTITION_NAME: "layers"}
t = spmd.remove_axis(spmd.add_axis(s, 2, p), 2, p)
assert t["w"].sharding == ("layers", "mlp"), t["w"].sharding
