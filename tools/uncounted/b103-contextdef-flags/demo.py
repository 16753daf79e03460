import nnx
a = nnx.context(0, flags={"depth": -1}).partition().contextdef
b = nnx.context(0, flags={"depth": -2}).partition().contextdef
assert a != b
