import nnx
def a(x, scale=1.0): return {"x": x}
def b(x, scale=1.0): return x * scale
assert nnx.Sequence([a, b])(2.0, scale=3.0) == 2.0
