import nnx
d = nnx.Dict({"_hidden": 1, "a": 2})
assert set(d) == {"_hidden", "a"} and d["_hidden"] == 1 and dict(d) == {"_hidden": 1, "a": 2}
