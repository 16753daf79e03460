import nnx
d = nnx.Dict(a=1)
assert "items" not in d
assert d.get("keys", None) is None
try: d["values"]
except KeyError: pass
else: raise AssertionError
