"""The session: selections of design codes and materials made."""
import json
import math
import types

from kit import HarnessError, fork_map, tlc

BASE = dict(__title__='A code of mine', __year__='2026')


def module(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


def real(a):
    """The real argument that an argument of the specification stands for."""
    import structuralcodes as sc

    if a == 'nil':
        return None
    if a.startswith('number:'):
        return int(a[7:])
    if a.startswith('list:'):
        return [a[5:]]
    if a.startswith('module:'):
        n = a[7:]
        if n == 'user':
            return module('user', __materials__=('concrete', 'reinforcement'), **BASE)
        if n == 'onlyc':
            return module('onlyc', __materials__=('concrete',), **BASE)
        if n == 'nomat':
            return module('nomat', __materials__=(), **BASE)
        if n == 'incomplete':
            return module('incomplete', **BASE)
        if n == 'math':
            return math
        return getattr(sc.codes, n)
    return a


def values(m):
    return [float(getattr(m, k)) for k in ('fck', 'fcm', 'fctm', 'Ecm', 'eps_cu1', 'fyk', 'epsyk', 'ftk') if hasattr(m, k)]


def outcome(f, *a, **k):
    try:
        r = f(*a, **k)
    except Exception as ex:
        return type(ex).__name__, None
    return ('none' if r is None else type(r).__name__), r


def make(kind, a):
    from structuralcodes.materials.concrete import create_concrete
    from structuralcodes.materials.reinforcement import create_reinforcement

    k = {} if a == '-' else {'design_code': real(a)}
    if kind == 'concrete':
        return outcome(create_concrete, 30, **k)
    return outcome(create_reinforcement, 500, 200000, 540, 0.05, **k)


def observe():
    import structuralcodes.codes as codes

    annex = getattr(codes, '_NATIONAL_ANNEX', '?')
    return {'concrete': make('concrete', '-')[0], 'steel': make('steel', '-')[0], 'annex': 'none' if annex is None else str(annex)}


def run_history(ops):
    """Execute the operations in this (fresh) process and record them."""
    import structuralcodes as sc

    objs, steps = [], []
    quiet = ops[:1] == ['quiet']   # the state is looked at in the end only
    ops = ops[1:] if quiet else ops
    for pos, (op, a) in enumerate(ops):
        if op == 'set':
            r = outcome(sc.set_design_code, *([] if a == '-' else [real(a)]))[0]
            r = 'ok' if r == 'none' else r
        elif op == 'annex':
            r = outcome(sc.set_national_annex, a)[0]
            r = 'ok' if r == 'none' else r
        elif op == 'list':
            k, v = outcome(sc.get_design_codes)
            r = list(v) if isinstance(v, (list, tuple)) else [k]
            if isinstance(v, list):   # the list belongs to the caller
                v.reverse()
                v[1:] = ['mine']
        elif op == 'read':
            m, v = objs[a - 1] if a <= len(objs) else (None, None)
            r = type(m).__name__ if m is not None and values(m) == v else 'changed'
        else:
            r, m = make(op, a)
            if m is not None:
                objs.append((m, values(m)))
        steps.append({'op': [op, a], 'r': r, 'state': {'none': True} if quiet and pos < len(ops) - 1 else observe()})
    return {'op': 'history', 'steps': steps}


def path_to(s):
    """Operations that lead to a state of the model."""
    ops = []
    for o in s['objs']:
        kind = 'concrete' if o.startswith('Concrete') else 'steel'
        ops.append([kind, {'MC2010': 'mc2010', 'C2_2004': 'ec2_2004', 'C2_2023': 'ec2_2023'}[o[-6:] if o.endswith('MC2010') else o[-7:]]])
    if s['annex'] != 'none':
        ops.append(['annex', {'fi': 'FI', 'no': 'No', 'de': 'DE'}[s['annex']]])
    if s['code'] != 'none':
        ops.append(['set', s['code'] if '_' in s['code'] or s['code'][:2] == 'mc' else 'module:' + s['code']])
    return ops


def run_edges(group):
    """All given operations from one state: each in a fork of its own start."""
    return [run_history(ops) for ops in group]


def p_session(c):
    import structuralcodes  # noqa: F401  the children inherit the import
    import structuralcodes.materials.concrete  # noqa: F401

    r = tlc('MC_Session', workers=4)
    c.add_tlc(r)
    if not r.ok:
        raise HarnessError(r.text[-4000:])
    edges = []
    for line in r.text.splitlines():
        line = line.strip().strip('"')
        if line.startswith('@EDGE|'):
            edges.append(json.loads(line[6:].replace('\\"', '"')))
    c.cov['model'] = {'states': r.distinct, 'transitions': len(edges)}
    rng = c.rng
    # every transition of the model, chained so that few histories cover many
    todo, by = [], {}
    for e in edges:
        by.setdefault(json.dumps(e['from'], sort_keys=True), (e['from'], []))[1].append(e['op'])
    for s, ops in by.values():
        rng.shuffle(ops)
        back = [['set', '-']] if s['code'] == 'none' else path_to({'code': s['code'], 'annex': 'none', 'objs': []})
        keep = ('list', 'read', 'concrete', 'steel')
        stay = [o for o in ops if o[0] in keep]
        if s['code'] == 'none' or rng.random() < 0.3 or c.thorough:
            todo.append(path_to(s) + stay)
        else:
            todo.append(path_to(s) + rng.sample(stay, min(len(stay), 25)))
        h = path_to(s)
        for o in ops:
            if o[0] == 'set':
                h = h + [o] + back
        todo.append(h)
        for o in ops:
            if o[0] == 'annex':
                todo.append(path_to(s) + [o])
    names = sorted({o[1] for e in edges if e['op'][0] == 'set' for o in [e['op']]})
    annex = ['fi', 'FI', 'No', 'nO', 'DE']
    good = [n for n in names if n.lower() in ('mc2010', 'ec2_2004', 'ec2_2023')]
    for _ in range(c.n(300, 3000)):
        h, n = [], 0
        for _ in range(rng.randint(3, c.n(14, 30))):
            u = rng.random()
            if u < 0.3:
                h.append(['set', rng.choice(names if rng.random() < 0.5 else good)])
            elif u < 0.4:
                h.append(['annex', rng.choice(annex)])
            elif u < 0.45:
                h.append(['list', '-'])
            elif u < 0.85 or not n:
                a = rng.choice(['-', '-', '-', rng.choice(names), rng.choice(good), rng.choice(good)])
                h.append([rng.choice(['concrete', 'steel']), a])
                if a in good:
                    n += 1
            else:
                h.append(['read', rng.randint(1, n)])
        todo.append((['quiet'] if rng.random() < 0.4 else []) + h)
    events = fork_map(run_history, todo)
    c.judge('Trace_Session', events)
    c.cov['steps'] = sum(len(e['steps']) for e in events)
    c.assumptions.append('the selection in force is observed through materials made without naming a code; the annex through the module global, if there is one')
