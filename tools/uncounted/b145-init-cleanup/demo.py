import nnx
class Leaf(nnx.Module):
  def setup(self, parent): parent.init.grow()
class Parent(nnx.Module):
  def __init__(self, leaf): self.leaf = leaf
  def grow(self): self.twin = self.leaf.clone()
leaf = Leaf()
parent = Parent(leaf)
leaf.init.setup(parent)
assert not leaf.is_initializing and not parent.is_initializing
assert not parent.twin.is_initializing
