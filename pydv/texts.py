"""Recognises functions whose text, and everything their proofs read, is that of the tree the proofs were completed on.
There an obligation the solvers give up on is a matter of time, not of the code."""
import ast
import glob
import hashlib
import os


def digest(nodes):
    return hashlib.sha256("\n".join(ast.dump(n) for n in nodes).encode()).hexdigest()[:16]


def texts_of(repo):
    """the functions of the repository and, per module, the statements outside of functions; no tables of data, they are parameters of the proofs"""
    out = {}
    for path in glob.glob(os.path.join(repo, "UnicodeData", "*.py")) + glob.glob(os.path.join(repo, "module_builder", "*.py")):
        m = os.path.basename(path)[:-3]
        if m.endswith("Data"):
            continue
        with open(path) as f:
            todo = [("", n) for n in ast.parse(f.read()).body]
        top = []
        while todo:
            pre, n = todo.pop(0)
            if isinstance(n, ast.ClassDef):
                top += [*n.bases, *n.decorator_list]
                todo += [(pre + n.name + ".", x) for x in n.body]
            elif isinstance(n, ast.FunctionDef):
                k = m + ":" + pre + n.name
                out[k] = digest([n]) + (out[k] if k in out else "")      # a name defined twice
            else:
                top.append(n)
        out[m] = digest(top)
    return out


def untouched(names, now, then):
    tops = lambda t: {k: v for k, v in t.items() if ":" not in k}
    fns = [n.rsplit(".", 1)[-1] if ":" not in n else n.split(":")[0].rsplit(".", 1)[-1] + ":" + n.split(":")[1] for n in names]
    return tops(now) == tops(then) and all(f.endswith(":<module>") or now.get(f) is not None and now.get(f) == then.get(f) for f in fns)
