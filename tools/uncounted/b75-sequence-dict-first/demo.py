import nnx
seen = []
def first(x, scale=1): return {"y": x * scale}
def second(y, scale=1):
  seen.append((y, scale)); return y * scale
out = nnx.Sequence([first, second])(3, scale=2)
assert out == 6 and seen == [(6, 1)], (out, seen)
