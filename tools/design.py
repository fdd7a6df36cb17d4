"""Writes the per-property part of DESIGN.md, from the checks and the properties."""
import ast
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools.props import P

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    out = {"doc": ""}
    tree = ast.parse(open(path).read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "MIN", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    lines = []
    for p in P:
        c = consts(f"{ROOT}/checks/{p['id']}.py")
        lines.append(f"### {p['id']} {p['title']}\n")
        lines.append(f"*Workload.* {c['RULE'][0].upper() + c['RULE'][1:]}.\n")
        lines.append(f"*Oracle.* {p['note'][0].upper() + p['note'][1:]}.\n")
        if c["ASSUMPTIONS"]:
            lines.append(f"*Bounds and assumptions.* {'; '.join(c['ASSUMPTIONS'])}.\n")
        lines.append("*Must have observed (quick).* " + ", ".join(
            f"{k} {v}" for k, v in c["MIN"].items()) + ".\n")
        lines.append(f"*Beyond the tests.* {p['why']} Here: {p['qtext']}.\n")
    text = open(f"{ROOT}/DESIGN.md").read()
    a, b = "<!-- properties -->\n", "<!-- /properties -->"
    i, j = text.index(a) + len(a), text.index(b)
    open(f"{ROOT}/DESIGN.md", "w").write(text[:i] + "\n".join(lines) + text[j:])


main()
