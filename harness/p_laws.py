"""Constitutive laws: random laws, and what they answer."""
import copy
import math

import numpy as np

from kit import HarnessError, arg, capture, enc, fork_map, num


def build(l):
    """The real law of a law of the specification."""
    from structuralcodes.materials import constitutive_laws as cl

    t = l['t']
    if t == 'elastic':
        return cl.Elastic(l['E'], **({} if l['eps_u'] is None else {'eps_u': rng(l)}))
    if t == 'ep':
        return cl.ElasticPlastic(l['E'], l['fy'], l['Eh'], l['su'])
    if t == 'pr':
        return cl.ParabolaRectangle(l['fc'], l['e0'], l['eu'], l['n'])
    if t == 'bl':
        return cl.BilinearCompression(l['fc'], l['ec'], l['ecu'])
    if t == 'sargin':
        return cl.Sargin(l['fc'], l['e1'], l['eu'], l['k'])
    if t == 'pop':
        return cl.Popovics(l['fc'], l['ec'], l['ecu'], l['Ec'])
    if t == 'user':
        conv = {'list': list, 'array': np.array, 'tuple': tuple}[l.get('as', 'list')]
        return cl.UserDefined(conv(l['x']), conv(l['y']), flag=l['flag'], eps_u=None if l['eps_u'] is None else rng(l))
    if t == 'init':
        return cl.InitialStrain(build(l['law']), l['e'], l['compat'])
    if t == 'par':
        return cl.Parallel([build(x) for x in l['laws']], l['w'])
    if t == 'bad':
        return cl.Parallel([build(l['law']), 'steel']) if l['how'] == 'par' else cl.InitialStrain(3.0, 0.001)
    raise HarnessError(t)


def rng(l):
    return tuple(l['eps_u']) if l.get('tuple', True) else float(abs(l['eps_u'][0]))


def sig(r, x, n=3):
    return float(f'{x:.{n}g}') if r.random() < 0.7 else x


def eps_u(r, hi=0.1, bad=0.0):
    a, b = sig(r, r.uniform(1e-3, hi)), sig(r, r.uniform(1e-3, hi))
    u = r.random()
    if u < bad:
        return {'eps_u': r.choice([[-a], [a, b], [-a, -b]]), 'tuple': True}
    if u < 0.4:
        return {'eps_u': None}
    if u < 0.6:
        return {'eps_u': [-a, a], 'tuple': False}
    return {'eps_u': [b, -a] if r.random() < 0.3 else [-a, b], 'tuple': True}


def basic(r, t=None, bad=0.0):
    """A random basic law."""
    t = t or r.choice(['elastic', 'ep', 'ep', 'pr', 'pr', 'bl', 'bl', 'sargin', 'pop', 'user', 'user'])
    s = lambda: r.choice([1, -1])  # noqa: E731
    if t == 'elastic':
        E = sig(r, r.uniform(1e3, 2.2e5))
        return {'t': t, 'E': r.choice([0, -E]) if r.random() < bad else E, **eps_u(r, bad=bad)}
    if t == 'ep':
        E = sig(r, r.choice([200000, 195000, 210000, r.uniform(5e4, 2.2e5)]))
        fy = sig(r, r.uniform(100, 1900))
        Eh = r.choice([0, 0.0, sig(r, r.uniform(10, 5000)), sig(r, -r.uniform(1, 500)), sig(r, r.uniform(0.01, 0.2) * E)])
        su = r.choice([None, sig(r, fy / E * r.uniform(1.05, 1.5)), sig(r, fy / E + r.uniform(1e-3, 0.1)), sig(r, r.uniform(0.01, 0.1) + fy / E)])
        if Eh < 0 and su is None:  # softening without end would leave the model
            su = 0.05
        return {'t': t, 'E': r.choice([0, -E]) if r.random() < bad else E, 'fy': fy, 'Eh': Eh, 'su': su}
    fc = sig(r, r.uniform(5, 90))
    if t == 'pr':
        e0 = sig(r, r.uniform(1.5e-3, 3e-3))
        eu = r.choice([e0, sig(r, e0 * r.uniform(1.0001, 2)), max(e0, 3.5e-3), sig(r, e0 * r.uniform(1.01, 8))])
        eu = max(eu, e0) if r.random() < 0.9 else sig(r, e0 * r.uniform(0.3, 1))
        n = r.choice([2, 2, 2.0, 2.0, 1.0, sig(r, r.uniform(1.05, 2)), sig(r, r.uniform(2.01, 3)), 1.999, 2.001])
        if n != 2:  # approximated by ten linear pieces between 0 and eu
            eu = min(eu, 2.2 * e0)
        return {'t': t, 'fc': s() * fc, 'e0': s() * e0, 'eu': s() * eu, 'n': n}
    if t == 'bl':
        ec = sig(r, r.uniform(0.5e-3, 3e-3))
        ecu = r.choice([ec, sig(r, ec * r.uniform(1.01, 3)), max(ec, 3.5e-3)])
        return {'t': t, 'fc': s() * fc, 'ec': s() * ec, 'ecu': s() * (max(ec, ecu) if r.random() < 0.9 else sig(r, ec * r.uniform(0.3, 1)))}
    if t == 'sargin':
        e1 = sig(r, r.uniform(1.5e-3, 3e-3))
        k = sig(r, r.uniform(1.45, 3.5))
        eu = sig(r, e1 * r.uniform(1.0, min(1.7, 0.9 * k)))
        return {'t': t, 'fc': s() * fc, 'e1': s() * e1, 'eu': s() * max(eu, e1), 'k': r.choice([0, -k]) if r.random() < bad else k}
    if t == 'pop':
        ec = sig(r, r.uniform(1.5e-3, 3e-3))
        ecu = sig(r, ec * r.uniform(1.0, 2))
        Ec = None if r.random() < 0.3 and 5000 * math.sqrt(fc) > 1.15 * fc / ec else sig(r, fc / ec * r.uniform(1.15, 4))
        if r.random() < bad:
            Ec = r.choice([0, -2e4])
        return {'t': t, 'fc': s() * fc, 'ec': s() * ec, 'ecu': s() * max(ec, ecu), 'Ec': Ec}
    n = r.randint(2, 6)
    both = r.random() < 0.5
    if both:
        neg = sorted(-sig(r, r.uniform(2e-4, 0.03)) for _ in range(r.randint(1, 3)))
        pos = sorted(sig(r, r.uniform(2e-4, 0.03)) for _ in range(r.randint(1, 3)))
        x = [*neg, 0.0, *pos]
        y = [0.0 if v == 0 else sig(r, math.copysign(r.uniform(5, 600), v)) for v in x]
    else:
        x = [0.0, *sorted(sig(r, r.uniform(2e-4, 0.05)) for _ in range(n - 1))]
        y = [0.0, *(sig(r, r.uniform(-50 if r.random() < 0.2 else 5, 600)) for _ in range(n - 1))]
    x = [v for i, v in enumerate(x) if i == 0 or v > x[i - 1] + 1e-5]
    y = y[:len(x)]
    if len(x) < 2:
        x, y = [0.0, 0.002, 0.05], [0.0, 400.0, 450.0]
    if r.random() < 0.25:
        y = [int(v) for v in y]
    flag = r.randint(0, 3)
    if r.random() < bad:
        if r.random() < 0.5:
            y = y + [1.0]
        else:
            flag = r.choice([4, -1, 7])
    e = eps_u(r, 0.06, bad) if r.random() < 0.35 else {'eps_u': None}
    return {'t': 'user', 'x': x, 'y': y, 'flag': flag, 'as': r.choice(['list', 'array', 'tuple']), **e}


def composed(r, depth=2, bad=0.0):
    u = r.random()
    if depth == 0:
        return basic(r, bad=bad)
    if u < 0.5:
        base = composed(r, depth - 1) if r.random() < 0.4 else basic(r)
        return {'t': 'init', 'law': base, 'e': r.choice([0.0, 1e-3, -1e-3, 5e-3, sig(r, r.uniform(-4e-3, 8e-3)), sig(r, r.uniform(-0.02, 0.02))]), 'compat': r.random() < 0.75}
    k = r.choice([1, 2, 2, 2, 3])
    laws = [composed(r, depth - 1) if r.random() < 0.3 else basic(r) for _ in range(k)]
    w = r.choice([None, [sig(r, r.uniform(0.05, 1.5)) for _ in laws], [r.choice([1, 2, 0, 0.5]) for _ in laws]])
    if w and r.random() < 0.2:   # displaced material
        w[r.randrange(k)] *= -1
    if bad and r.random() < bad:
        w = [1.0] * (k + 1)
    return {'t': 'par', 'laws': laws, 'w': w}


def lims(l):
    """Break points of a law (only used to choose interesting strains)."""
    t = l['t']
    if t == 'elastic':
        return list(l['eps_u'] or []) + [0.0]
    if t == 'ep':
        y = l['fy'] / l['E'] if l['E'] else 1
        return [y, -y, *( [l['su'], -l['su']] if l['su'] else [2 * y, -2 * y])]
    if t == 'pr':
        return [0.0, -abs(l['e0']), -abs(l['eu'])]
    if t in ('bl', 'pop'):
        return [0.0, -abs(l['ec']), -abs(l['ecu'])]
    if t == 'sargin':
        return [0.0, -abs(l['e1']), -abs(l['eu'])]
    if t == 'user':
        return list(l['x']) + [-v for v in l['x']] + list(l['eps_u'] or [])
    if t == 'init':
        return [v - l['e'] for v in lims(l['law'])] + [0.0]
    if t == 'par':
        return [v for x in l['laws'] for v in lims(x)]
    return [0.0, 0.001]


def strains(r, l, n, exact=True):
    pts = sorted(lims(l))
    lo, hi = pts[0], pts[-1]
    span = max(hi - lo, 1e-3)
    out = []
    for _ in range(n):
        u = r.random()
        if u < 0.3 and exact:
            out.append(r.choice(pts))
        elif u < 0.5:
            v = r.choice(pts)
            out.append(v + r.choice([-1, 1]) * 10 ** r.uniform(-8.5, -4))
        elif u < 0.6:
            out.append(r.choice([0.0, 1e-12, -1e-12, 1e-6, -1e-6, -1e-4, 1e-4]))
        elif u < 0.93:
            i = r.randrange(max(1, len(pts) - 1))
            out.append(r.uniform(pts[i], pts[min(i + 1, len(pts) - 1)]))
        else:
            out.append(r.choice([lo - span * r.uniform(0.01, 1), hi + span * r.uniform(0.01, 1), 0.5, -0.5, 2.0, -1.0]))
    return out


def ask(f, eps, r, ints=False):
    """Answers for an array and for each strain; was any argument changed?"""
    kind = r.choice(['array', 'array', 'list', 'tuple'])
    if ints:
        eps = [int(e) for e in eps]
    a = {'array': np.array, 'list': list, 'tuple': tuple}[kind](eps)
    b = copy.deepcopy(a)
    vec, _, _ = capture(f, a)
    same = type(a) is type(b) and (np.array_equal(a, b) if kind == 'array' else a == b)
    conv = r.choice([lambda v: v, np.float64]) if not ints else (lambda v: v)
    sc = [capture(f, conv(e))[0] for e in eps]
    return vec, sc, bool(same)


def pieces(law, l, r, n):
    out = []
    for _ in range(n):
        b = r.choice([0.0, 0.0, sig(r, 10 ** r.uniform(-7, -4)), sig(r, -(10 ** r.uniform(-7, -4))), 1.0])
        es = strains(r, l, 14)
        if b == 0:
            a = r.choice(es)
            es = [a]
        else:
            a = r.choice([0.0, sig(r, r.uniform(-5e-3, 5e-3)), r.choice(es)])
        p = {'a': num(a), 'b': num(b), 'es': [num(e) for e in es]}
        for k, name in (('st', '__marin__'), ('tn', '__marin_tangent__')):
            try:
                rg, co = getattr(law, name)(strain=(a, b))
                p[k] = {'k': 'ok', 'all': rg is None, 'ranges': [] if rg is None else [[num(x), num(y)] for x, y in rg], 'coeffs': [[num(c) for c in cs] for cs in co]}
            except Exception as ex:
                p[k] = {'k': 'err', 'v': type(ex).__name__}
        out.append(p)
    return out


def event(l, r, what, n=24):
    ev = {'op': l['t'], 'law': enclaw(l), 'same': True}
    out, _, law = capture(build, l)
    ev['made'] = out['v'] if out['k'] == 'err' else 'ok'
    if ev['made'] != 'ok':
        return ev
    ints = r.random() < 0.08
    eps = [float(r.choice([-2, -1, 0, 0, 1, 2])) for _ in range(3)] if ints else strains(r, l, r.choice([1, n, n]))
    ev['eps'] = [num(e) for e in eps]
    for k, f in (('stress', 'get_stress'), ('tangent', 'get_tangent'), ('secant', 'get_secant')):
        if k in what:
            ev[k + '_vec'], ev[k + '_sc'], s = ask(getattr(law, f), eps, r, ints)
            ev['same'] = ev['same'] and s
    if 'lim' in what:
        ev['lim'] = capture(law.get_ultimate_strain)[0]
        ev['limy'] = capture(law.get_ultimate_strain, yielding=True)[0]
    if 'pieces' in what:
        ev['pieces'] = pieces(law, l, r, 4)
    return ev


def enclaw(l):
    o = {}
    for k, v in l.items():
        if k in ('t', 'as', 'how', 'tuple', 'compat', 'flag'):
            o[k] = v
        elif v is None and k in ('eps_u', 'w'):
            o[k] = []
        elif k == 'law':
            o[k] = enclaw(v)
        elif k == 'laws':
            o[k] = [enclaw(x) for x in v]
        else:
            o[k] = arg(v)
    return o


def every(r, n, bad):
    for t in ('elastic', 'ep', 'pr', 'bl', 'sargin', 'pop', 'user'):
        for _ in range(n):
            yield basic(r, t, bad)


def p_stress(c):
    r = c.rng
    c.judge('Trace_Laws', [event(l, r, ('stress',)) for l in every(r, c.n(500, 5000), 0.06)])


def p_tangent(c):
    r = c.rng
    ev = [event(l, r, ('tangent', 'secant', 'lim')) for l in every(r, c.n(300, 4000), 0)]
    ev += [event(composed(r, 1), r, ('tangent', 'secant', 'lim')) for _ in range(c.n(900, 12000))]
    c.judge('Trace_Laws', ev)


def p_pieces(c):
    r = c.rng
    ev = [event(l, r, ('pieces',)) for l in every(r, c.n(130, 3000), 0)]
    ev += [event(composed(r, 2), r, ('pieces',)) for _ in range(c.n(500, 12000))]
    c.judge('Trace_Laws', ev)


def p_composed(c):
    r = c.rng
    ev = [event(composed(r, c.n(2, 3), 0.03), r, ('stress', 'tangent', 'secant', 'lim', 'pieces')) for _ in range(c.n(600, 10000))]
    ev += [event({'t': 'bad', 'law': basic(r, 'ep'), 'how': h}, r, ()) for h in ('par', 'init')]
    c.judge('Trace_Laws', ev)
