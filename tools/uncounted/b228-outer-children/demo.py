import nnx
class M(nnx.Module):
  def run(self, f): return f()
a, b, c = M(), M(), M()
a.sub = b; b.sub = c
other = M(); other.part = a
seen = []
def inner():
  other.init.run(lambda: None)
  seen.append((a.is_initializing, b.is_initializing, c.is_initializing))
a.init.run(inner)
assert seen == [(True, True, True)], seen
