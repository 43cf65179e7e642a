"""Shrinks a failing source while the implementation and the reference disagree. Development aid."""
import copy
import ref, syntax, runner, judge


def verdict(units, drv, opts):
    """units: list of asts evaluated in sequence."""
    m = ref.Machine()
    exp = []
    for a in units:
        t = len(m.trace)
        try:
            r = ref.run_program(a, m)
            if r[0] == 'V': r = ('V', ref.show(r[1]))
        except Exception:
            return None
        exp.append((r, m.trace[t:]))
    if any(e[0][0] == 'E' for e in exp) and not verdict.errors: return None
    c = runner.Case([('L', syntax.text(a)) for a in units], opts, exp)
    r = runner.run_batch(drv, [c], retry=False)[0]
    if r.status == 'timeout': return None
    return judge.units(c, r)
verdict.errors = False


def paths(p, path=()):
    yield path
    if isinstance(p, list):
        for i, x in enumerate(p): yield from paths(x, path + (i,))


def get(p, path):
    for i in path: p = p[i]
    return p


def replaced(p, path, v):
    p = copy.deepcopy(p)
    q = p
    for i in path[:-1]: q = q[i]
    if v is None: del q[path[-1]]
    else: q[path[-1]] = v
    return p


def reduce(units, drv, opts, kind=None, limit=4000):
    b = verdict(units, drv, opts)
    if not b: return units, None
    kind = kind or b[:25]
    n, changed = 0, True
    while changed and n < limit:
        changed = False
        for path in sorted(paths(units), key=len):
            if not path: continue
            try: node = get(units, path)
            except Exception: continue
            cands = [None]
            if isinstance(node, list): cands += list(node) + [1, []]
            for c in cands:
                if len(path) == 1 and c is not None and not isinstance(c, list): continue
                try: q = replaced(units, path, c)
                except Exception: continue
                n += 1
                bb = verdict(q, drv, opts)
                if bb and kind in bb:
                    units, b, changed = q, bb, True
                    break
            if changed: break
    return units, b
