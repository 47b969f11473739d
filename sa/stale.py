"""Stale loop indices: a subscript uses the variable of a range loop that has already run to its end (no break)."""
import ast


def stale_indices(f):
    loops = {}
    others = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name):
            rng = isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ("range", "prange")
            brk = any(isinstance(x, (ast.Break, ast.Return)) for s in n.body for x in ast.walk(s))
            if rng and not brk:
                loops.setdefault(n.target.id, []).append(n)
            else:
                others.add(n.target.id)
        elif isinstance(n, ast.For):
            others |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.NamedExpr)) or isinstance(n, ast.AnnAssign) and n.value is not None:
            tg = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in tg:
                others |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        elif isinstance(n, (ast.With,)):
            others |= {x.id for i in n.items if i.optional_vars is not None for x in ast.walk(i.optional_vars) if isinstance(x, ast.Name)}
        elif isinstance(n, ast.comprehension):
            others |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f.node:
            others |= {x.arg for x in n.args.args}
        elif isinstance(n, (ast.Nonlocal, ast.Global)):
            others |= set(n.names)
    others |= set(f.params)
    cand = {k: v for k, v in loops.items() if k not in others}
    out = []
    if not cand:
        return out

    def walk(n, live):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not f.node:
            return
        if isinstance(n, ast.For):
            walk(n.iter, live)
            l2 = live | ({n.target.id} if isinstance(n.target, ast.Name) else set())
            for s in n.body:
                walk(s, l2)
            for s in n.orelse:
                walk(s, live)
            return
        if isinstance(n, ast.Subscript):
            for x in ast.walk(n.slice):
                if isinstance(x, ast.Name) and x.id in cand and x.id not in live:
                    out.append((x.id, n.lineno, ast.unparse(n)))
        for c in ast.iter_child_nodes(n):
            walk(c, live)
    for s in f.node.body:
        walk(s, set())
    return out
