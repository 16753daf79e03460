"""Regenerates section 2 and the table of section 5 of DESIGN.md from the metadata."""
import ast
import glob
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import build_meta  # noqa: E402


def literals(path):
  tree = ast.parse(open(path).read())
  rule, fams = "", []
  for node in tree.body:
    if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
      if node.targets[0].id == "RULE":
        rule = ast.literal_eval(node.value)
      if node.targets[0].id == "FAMILIES":
        fams = [k.value for k in node.value.keys]
  return rule, fams


def section2():
  out = []
  for p in build_meta.PROPS:
    path = os.path.join(ROOT, "checks", p["pid"].lower() + ".py")
    if not os.path.exists(path):
      continue
    rule, fams = literals(path)
    rule = re.sub(r"; non-trivial = .*", "", rule)
    out.append(f"**{p['pid']} {p['title']}.** {rule}. *Oracle:* {p['note']} "
               f"*Beyond the tests:* {p['tests']} *Over:* {p['quant']}. "
               f"Families: {', '.join(fams)}.")
  return "\n\n".join(out)


def section5():
  catches = json.load(open(os.path.join(ROOT, "tools", "catches.json")))
  rows = ["| change | property | what it needs | caught by |", "|---|---|---|---|"]
  for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))
                  + glob.glob(os.path.join(ROOT, "tools", "uncounted", "*"))):
    meta = json.load(open(os.path.join(d, "meta.json")))
    name = os.path.basename(d)
    rows.append(f"| {name} | {meta['property']} | {meta['needs']} | "
                f"{catches.get(name, '?')} |")
  return "\n".join(rows)


def main():
  path = os.path.join(ROOT, "DESIGN.md")
  s = open(path).read()
  start = s.index("**C01 ")
  end = s.index("## 3. Defects")
  s = s[:start] + section2() + "\n\n" + s[end:]
  if "| change | property |" in s:
    a = s.index("| change | property |")
    b = s.find("\n\n", a)
    s = s[:a] + section5() + (s[b:] if b >= 0 else "\n")
  open(path, "w").write(s)


if __name__ == "__main__":
  main()
