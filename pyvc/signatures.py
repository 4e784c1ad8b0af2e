"""The parameters of the repository's functions which the contracts were written for.

A unit calls functions, and contracts stand in for functions, by these parameters. Where they have changed (a parameter renamed,
reordered or added without a default) the unit has no answer: that is no violation.
`python -m pyvc.signatures` writes signatures.json from the source tree.
"""
import ast
import json
import os

HERE = os.path.join(os.path.dirname(__file__), "signatures.json")
try:
    with open(HERE) as _f:
        KNOWN = json.load(_f)
except FileNotFoundError:
    KNOWN = {}


def of(node):
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    kw = [(x.arg, d is not None) for x, d in zip(a.kwonlyargs, a.kw_defaults)]
    return [pos, nd, sorted(k for k, d in kw if not d), sorted(k for k, d in kw if d), a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None]


def compatible(f):
    """Every call that fits the recorded parameters means the same now."""
    old = KNOWN.get(f.qual)
    if old is None:
        return True
    new = of(f.node)
    if old == new:
        return True
    n = len(old[0])
    need = len(new[0]) - new[1]
    return (new[0][:n] == old[0] and need <= n - old[1] and set(new[2]) <= set(old[2]) and set(old[2] + old[3]) <= set(new[2] + new[3])
            and new[4:] == old[4:])


def main():
    from . import interp

    out = {}
    root = interp.REPO_SRC

    def visit(body, prefix):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                out[f"{prefix}.{n.name}"] = of(n)
            elif isinstance(n, ast.ClassDef):
                visit(n.body, f"{prefix}.{n.name}")

    for d, _, files in os.walk(os.path.join(root, "uberjob")):
        for f in sorted(files):
            if f.endswith(".py"):
                path = os.path.join(d, f)
                mod = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                mod = mod[:-9] if mod.endswith(".__init__") else mod
                visit(ast.parse(open(path).read()).body, mod)
    with open(HERE, "w") as f:
        json.dump(out, f, indent=0, sort_keys=True)
        f.write("\n")


if __name__ == "__main__":
    main()
