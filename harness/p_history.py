"""Histories of calculations on sections that share geometry and materials."""
import json
import math
import random

import numpy as np
from shapely import LineString

from kit import HarnessError, fork_map, num, tlc
from p_laws import build
from p_sections import GROSS, axial_force, brittle, concrete, gensec, section, steel

FUSE = {'left': None, 'burnt': False, 'count': 0}


class Fault(Exception):
    """Raised by a law of the user in the middle of a calculation."""


def fused(law):
    """The same law, which can be made to fail at its n-th question."""
    cls = type(law)

    def wrap(name):
        def f(self, *a, **k):
            FUSE['count'] += 1
            if FUSE['left'] is not None:
                FUSE['left'] -= 1
                if FUSE['left'] <= 0:
                    FUSE['left'], FUSE['burnt'] = None, True
                    raise Fault
            return getattr(super(new, self), name)(*a, **k)
        return f

    new = type(cls.__name__, (cls,), {n: wrap(n) for n in ('get_stress', 'get_tangent', '__marin__', '__marin_tangent__', 'get_ultimate_strain') if hasattr(cls, n)})
    law.__class__ = new
    return law


def world(seed):
    """Four sections: A, B on one geometry, C with other fibres, D on a moved copy."""
    from structuralcodes.geometry import CompoundGeometry, SurfaceGeometry
    from structuralcodes.materials.basic import GenericMaterial

    r = random.Random(seed)
    fam = r.random()
    laws = brittle(r)
    if fam < 0.6:
        laws['c'] = laws['d'] = concrete(r, ('pr', 'pr', 'prn', 'bl', 'sargin'))
        laws['s'] = laws['t'] = steel(r, ('ep',))
    kind = r.choice(['rect', 'rect', 'tee', 'box', 'ell', 'free', 'layers', 'composite', 'steel', 'circle'])
    desc, g = section(r, laws, kind, si=0)
    for m in desc['mats'].values():
        fused(m.constitutive_law)
    s1, s2 = r.choice([(0.05, 0.03), (0.03, 0.05), (0.02, 0.04)])
    u = r.random()
    if u < 0.3:
        h = g.rotate(r.choice([0.5, math.pi / 2, -1.0]))
    elif u < 0.6:
        h = g.translate(r.uniform(-50, 50), r.uniform(-50, 50))
    elif u < 0.7:   # the same outlines of another material
        m = GenericMaterial(density=2000.0, constitutive_law=fused(build(concrete(r, ('pr', 'bl')))))
        h = CompoundGeometry([SurfaceGeometry(x.polygon, m, concrete=x.concrete) for x in getattr(g, 'geometries', [g])] + list(getattr(g, 'point_geometries', [])))
    else:   # upside down, with the same extents
        x0, x1, y0, y1 = g.calculate_extents()
        mid = ((x0 + x1) / 2, (y0 + y1) / 2)
        h = g.rotate(math.pi, mid) if u < 0.85 else g.mirror(LineString([mid, (mid[0] + 1, mid[1])]))
    return {'A': gensec(g, True, s1), 'B': gensec(g, False), 'C': gensec(g, True, s2), 'D': gensec(h, True, s1)}, {'g': g, 'h': h, **desc['mats']}, r


def arguments(seed):
    """Arguments of the questions, the same for every history."""
    secs, _, r = world(seed)
    a = {}
    th = r.choice([0.7, math.pi / 2, -0.4, math.pi, 2.5, math.pi / 4])
    for w, s in secs.items():
        c = s.section_calculator
        try:
            lo, hi = c.calculate_limit_axial_load()
            x0, x1, y0, y1 = s.geometry.calculate_extents()
        except Exception as ex:
            raise HarnessError(f'no limits of the axial force: {ex!r}')
        lo, hi = float(lo), float(hi)
        size = max(x1 - x0, y1 - y0)
        k = 2e-3 / size
        far = max(abs(v) for v in (x0, x1, y0, y1, size))
        a[w] = {'th': th, 'n': 0.3 * (lo if abs(lo) > abs(hi) else hi), 'nx': 1.2 * lo - abs(hi) - 1000, 'pl': [-2e-4 - k * 0.6 * (y0 + y1) / 2, k * 0.6, -k * 0.3],
                'chi': [-k * 0.2, -k], 'cap': max(abs(lo), abs(hi)), 'L': far, 'lo': lo, 'hi': hi}
    return a


def ask(sec, q, a):
    c = sec.section_calculator
    th, n = a['th'], a['n']
    nm = {'num_1': 1, 'num_2': 1, 'num_3': 2, 'num_4': 2, 'num_5': 2, 'num_6': 2}
    few = {'num_pre_yield': 2, 'num_post_yield': 1}
    if q == 'gross':
        return sec.gross_properties
    if q == 'cracked':
        from structuralcodes.sections import calculate_elastic_cracked_properties

        return calculate_elastic_cracked_properties(sec, th)
    if q == 'range':
        return (c.n_min, c.n_max)
    if q == 'low':
        return (c.n_min,)
    if q == 'top':
        return (c.n_max,)
    if q == 'limit':
        return c.calculate_limit_axial_load()
    if q == 'stress':
        return c.integrate_strain_profile(a['pl'])
    if q == 'modulus':
        return c.integrate_strain_profile(a['pl'], 'modulus')
    if q == 'bend':
        return c.calculate_bending_strength(th)
    if q == 'bendn':
        return c.calculate_bending_strength(theta=0, n=n)
    if q == 'bendx':
        return c.calculate_bending_strength(th, a['nx'])
    if q == 'curve':
        return c.calculate_moment_curvature(th, **few)
    if q == 'curven':
        return c.calculate_moment_curvature(0, n, **few)
    if q == 'curvex':
        return c.calculate_moment_curvature(th, a['nx'], **few)
    if q == 'own':
        return c.calculate_moment_curvature(th, 0, chi=a['chi'])
    if q == 'nm':
        return c.calculate_nm_interaction_domain(th, **nm)
    if q == 'nmx':
        return c.calculate_nm_interaction_domain(th, type_1='cubic', **nm)
    if q == 'nmm':
        return c.calculate_nmm_interaction_domain(3, **nm)
    if q == 'mm':
        return c.calculate_mm_interaction_domain(n, 3)
    if q == 'mmx':
        return c.calculate_mm_interaction_domain(a['nx'], 3)
    if q == 'plan':
        return c.calculate_strain_profile(*a['loads'], max_iter=50)
    return c.calculate_strain_profile(3 * a['nx'], 0, 0)


def flat(x):
    return [float(v) for v in np.ravel(np.asarray(x, dtype=float))]


def answer(v, a):
    """Groups of numbers of one size, each with its unit of measure last."""
    if isinstance(v, BaseException):
        return {'k': type(v).__name__, 'g': []}
    if v is None:
        return {'k': 'none', 'g': []}
    cap, L = a['cap'], a['L']
    try:
        if hasattr(v, 'e_iyy'):
            o = {n: float(getattr(v, n)) for n in GROSS}
            ea = abs(o['ea']) or 1.0
            unit = {**{n: o['area'] * L for n in ('sy', 'sz')}, **{n: ea * L for n in ('e_sy', 'e_sz')}, 'cy': L, 'cz': L}
            unit.update({n: (ea if n[:2] == 'e_' else o['area']) * L * L for n in GROSS if 'i' in n and n != 'perimeter'})
            g = [[o[n], unit.get(n, abs(o[n]))] for n in GROSS]
        elif hasattr(v, 'forces'):
            f, s = np.asarray(v.forces, dtype=float), np.asarray(v.strains, dtype=float)
            g = [flat(f[:, 0]) + [cap], flat(f[:, 1:]) + [cap * L], flat(s[:, 0]) + flat(s[:, 1:] * L) + [1e-3]]
            for n in ('theta', 'num_theta', 'field_num'):
                if getattr(v, n, None) is not None:
                    g.append(flat(getattr(v, n)) + [1])
        elif hasattr(v, 'eps_axial'):
            g = [flat(v.theta) + [1], flat(v.n) + [cap], flat(v.m_y) + flat(v.m_z) + [cap * L],
                 flat(v.eps_axial) + flat(np.asarray(v.chi_y) * L) + flat(np.asarray(v.chi_z) * L) + [1e-3]]
        elif hasattr(v, 'eps_a'):
            g = [flat(v.theta) + [1], flat(v.n) + [cap], flat(v.m_y) + flat(v.m_z) + [cap * L], [float(v.eps_a), float(v.chi_y) * L, float(v.chi_z) * L, 1e-3]]
        else:
            x = np.asarray(v, dtype=float)
            if x.shape == (3, 3):
                g = [[float(x[0, 0]), cap * 1e3], flat(x[0, 1:]) + flat(x[1:, 0]) + [cap * 1e3 * L], flat(x[1:, 1:]) + [cap * 1e3 * L * L]]
            elif x.shape == (3,) and max(abs(x)) < 1:
                g = [[float(x[0]), float(x[1]) * L, float(x[2]) * L, 1e-3]]
            elif x.shape == (3,):
                g = [[float(x[0]), cap], [float(x[1]), float(x[2]), cap * L]]
            else:
                g = [flat(x) + [cap]]
        return {'k': type(v).__name__, 'g': [[num(y) for y in z] for z in g]}
    except Exception as ex:
        return {'k': f'other {type(v).__name__} {type(ex).__name__}', 'g': []}


PROBE = [-0.1, -0.0036, -0.0031, -0.002, -0.0015, -1e-4, 0.0, 1e-4, 0.0019, 0.004, 0.03, 0.2]


def look(obj):
    """What can be seen of an object."""
    FUSE['left'] = None
    if hasattr(obj, 'constitutive_law'):
        l = obj.constitutive_law
        return repr([obj.density, obj.name, id(l), l.name, np.asarray(l.get_stress(np.array(PROBE))).tolist(), l.get_ultimate_strain()])
    surfs = getattr(obj, 'geometries', None) or [obj]
    bars = getattr(obj, 'point_geometries', [])
    return repr([[s.polygon.wkb_hex, s.name, s.group_label, s.concrete, s.density, id(s.material)] for s in surfs]
                + [[p.x, p.y, p.diameter, p.area, p.name, p.group_label, p.density, id(p.material)] for p in bars])


def run(job):
    """One history on new objects: (variant, arguments, [[who, question, fuse share]])."""
    seed, args, ops = job
    secs, objs, _ = world(seed)
    before = {k: look(v) for k, v in objs.items()}
    given = json.dumps(args)
    steps, out = [], []
    for w, q, share in ops:
        a = args[w]
        FUSE.update(left=share, burnt=False, count=0)
        try:
            v = ask(secs[w], q, a)
        except (Exception, StopIteration) as ex:
            v = ex
        FUSE['left'] = None
        steps.append({'w': w, 'q': q, 'k': 0 if share is None else 1, 'fuse': FUSE['burnt'], 'count': FUSE['count'], 'v': answer(v, a)})
        out.append(v)
    for s, v in zip(steps, out):
        s['kept'] = answer(v, args[s['w']]) == s['v']
    changed = [k for k, v in objs.items() if look(v) != before[k]]
    if json.dumps(args) != given:
        changed.append('arguments')
    for w, x in (('A', 'g'), ('B', 'g'), ('C', 'g'), ('D', 'h')):
        if secs[w].geometry is not objs[x]:
            changed.append('geometry of ' + w)
    return {'op': 'history', 'variant': seed, 'steps': steps, 'changed': changed}


def loads(job):
    seed, args = job
    secs, _, _ = world(seed)
    for w in args:
        try:
            args[w]['loads'] = flat(secs[w].section_calculator.integrate_strain_profile([0.3 * x for x in args[w]['pl']]))
        except Exception:
            args[w]['loads'] = [0.0, 0.0, 0.0]
    return args


def edges(cfg=None):
    r = tlc('MC_Calculator', cfg=cfg, workers=1)
    if not r.ok:
        raise HarnessError(r.text[-4000:])
    out = []
    for line in r.text.splitlines():
        line = line.strip().strip('"')
        if line.startswith('@EDGE|'):
            out.append(json.loads(line[6:].replace('\\"', '"')))
    return r, out


def p_calculator(c):
    import scipy.linalg  # noqa: F401  the children inherit the imports
    import shapely  # noqa: F401
    import triangle  # noqa: F401

    import structuralcodes.geometry  # noqa: F401
    import structuralcodes.sections  # noqa: F401

    rng = c.rng
    r, es = edges()
    c.add_tlc(r)
    c.cov['model'] = {'states': r.distinct, 'transitions': len(es)}
    # a shortest way to every state
    key = lambda s: json.dumps(s, sort_keys=True)  # noqa: E731
    start = next(e['from'] for e in es if all(not v['range'] and not v['gross'] and v['mesh']['made'] == -1 for v in e['from'].values()))
    way, todo = {key(start): []}, [start]
    by = {}
    for e in es:
        by.setdefault(key(e['from']), []).append(e)
    while todo:
        s = todo.pop(0)
        for e in rng.sample(by.get(key(s), []), len(by.get(key(s), []))):
            if e['op'][2] == 0 and key(e['to']) not in way:
                way[key(e['to'])] = way[key(s)] + [e['op']]
                todo.append(e['to'])
    questions = sorted({e['op'][1] for e in es})
    variants = [f'{c.rng.random()}' for _ in range(c.n(3, 24))]
    args = fork_map(loads, list(zip(variants, fork_map(arguments, variants))))
    fresh = fork_map(run, [(v, a, [[w, q, None]]) for v, a in zip(variants, args) for w in 'ABCD' for q in questions])
    ref = {}
    for e in fresh:
        s = e['steps'][0]
        ref[e['variant'], s['w'], s['q']] = s
    jobs = []

    def op(v, w, q, k):
        """k: which action of the question is broken off, by its share of the calls of laws."""
        n = ref[v, w, q]['count']
        return [w, q, None if not k or not n else rng.choice([1, 2, 3, n, rng.randint(1, n), rng.randint(1, n), rng.randint(max(1, n // 2), n)])]

    for v, a in zip(variants, args):
        # every transition of the model, followed by some question
        for e in es:
            if key(e['from']) not in way or rng.random() > c.n(0.12, 1):
                continue
            h = [op(v, *o) for o in way[key(e['from'])]] + [op(v, *e['op'])]
            for _ in range(2):
                h.append(op(v, e['op'][0] if rng.random() < 0.7 else rng.choice('ABCD'), rng.choice(questions), 0))
            jobs.append((v, a, h))
        # every question after every question of the same section
        for q in questions:
            for p in questions:
                if rng.random() < c.n(0.25, 1):
                    w = rng.choice('AABCD')
                    jobs.append((v, a, [op(v, w, q, rng.choice([0, 0, 1])), op(v, w, p, 0)]))
        for _ in range(c.n(15, 150)):
            jobs.append((v, a, [op(v, rng.choice('ABCD'), rng.choice(questions), rng.random() < 0.2) for _ in range(rng.randint(4, c.n(10, 25)))]))
    events = fork_map(run, jobs)
    for e in events:
        e['fresh'] = {}
        for s in e['steps']:
            e['fresh'][s['w'] + '.' + s['q']] = ref[e['variant'], s['w'], s['q']]['v']
    c.judge('Trace_Calculator', events)
    c.cov['steps'] = sum(len(e['steps']) for e in events)
    c.cov['steps_broken_off'] = sum(s['fuse'] for e in events for s in e['steps'])
