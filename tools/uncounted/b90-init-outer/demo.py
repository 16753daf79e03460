import nnx
log = []
class Leaf(nnx.Module):
  def setup(self, parent): log.append(parent.wrap())
class Parent(nnx.Module):
  def __init__(self, leaf): self.leaf = leaf
  def wrap(self):
    self.init.noop()
    return self.leaf.is_initializing
  def noop(self): pass
leaf = Leaf()
parent = Parent(leaf)
leaf.init.setup(parent)
assert log == [True], log
