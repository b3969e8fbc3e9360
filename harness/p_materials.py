"""Material objects: random given values, and what the objects answer."""
import warnings

from kit import arg, capture, enc, num
from p_laws import basic, build, composed, enclaw, eps_u, lims, rng, sig, strains
from p_sections import pascals

CODES = ['EC2_2004', 'EC2_2023', 'MC2010']
MAKE = {'EC2_2004': ('ec2_2004', '2004'), 'EC2_2023': ('ec2_2023', '2023'), 'MC2010': ('mc2010', 'MC2010')}
CNAMES = ['elastic', 'Elastic', 'parabolarectangle', 'PARABOLARECTANGLE', 'ParabolaRectangle', 'bilinearcompression', 'BilinearCompression',
          'sargin', 'Sargin', 'SARGIN', 'popovics', 'Popovics', 'POPOVICS', 'elasticplastic', 'initialstrain', 'userdefined', 'nonsense']
SNAMES = ['elastic', 'ELASTIC', 'elasticplastic', 'ElasticPlastic', 'ELASTICPLASTIC', 'elasticperfectlyplastic', 'ElasticPerfectlyPlastic',
          'parabolarectangle', 'sargin', 'initialstrain', 'nope']


def cls(code, what):
    import structuralcodes.materials.concrete as mc
    import structuralcodes.materials.reinforcement as mr

    return getattr(mc, f'Concrete{code}') if what == 'concrete' else getattr(mr, f'Reinforcement{code}')


def initial(r, a, fmax, comp):
    u = r.random()
    if u < 0.5:
        return
    if u < 0.72:
        e = r.choice([0.0, sig(r, r.uniform(-3e-3, 3e-3)), sig(r, r.uniform(-0.01, 0.02))])
        a['initial_strain'] = e
    if u < 0.03 + 0.5 or u > 0.72:
        s = sig(r, r.uniform(0, 1.3) * fmax)
        s = r.choice([s, 0.5 * s, 0.0]) if r.random() < 0.9 else -s
        a['initial_stress'] = -s if comp and r.random() < 0.85 else s
    if r.random() < 0.5:
        a['strain_compatibility'] = r.random() < 0.5


def concrete(r):
    code = r.choice(CODES)
    fck = r.choice([12, 20, 25, 30, 35, 40, 50, 55, 60, 90, 100, sig(r, r.uniform(12, 110)), sig(r, r.uniform(5, 130)), sig(r, r.uniform(45, 55))])
    a = {'fck': -fck if r.random() < 0.1 else fck}
    p = r.choice([0, 0.08, 0.3, 0.7])
    mag = lambda v: -v if r.random() < 0.12 else v  # noqa: E731
    big = lambda lo, hi: r.choice([0.1, 0.1, 0.0999, 0.1002, 0.102, 0.3, 2.0]) if r.random() < 0.1 else sig(r, r.uniform(lo, hi))  # noqa: E731
    opt = {
        'fcm': lambda: mag(r.choice([fck, sig(r, fck * r.uniform(0.9, 1))]) if r.random() < 0.1 else sig(r, fck + r.uniform(0.1, 20))),
        'fctm': lambda: mag(r.choice([0.5 * fck, 0.6 * fck]) if r.random() < 0.1 else sig(r, r.uniform(0.5, 5))),
        'eps_c1': lambda: mag(big(1.5e-3, 3e-3)),
        'eps_cu1': lambda: mag(big(3e-3, 4.5e-3)),
        'k_sargin': lambda: -1.0 if r.random() < 0.05 else sig(r, r.uniform(1.8, 3.5)),
        'eps_c2': lambda: mag(big(1.5e-3, 2.5e-3)),
        'eps_cu2': lambda: mag(big(2.6e-3, 5e-3)),
        'n_parabolic_rectangular': lambda: r.choice([-1.0, -0.1, 0, 5, 5.5, 4.99]) if r.random() < 0.12 else r.choice([1, 2, 1.5, sig(r, r.uniform(1.05, 2.5))]),
    }
    if code == 'MC2010':
        opt['Eci'] = lambda: mag(r.choice([9999.0, 1e4, 1e5, 1.01e5, 5e3]) if r.random() < 0.2 else sig(r, r.uniform(2e4, 5e4)))
        opt['Gf'] = lambda: mag(sig(r, r.uniform(50, 300)))
        opt['fctkmin'] = opt['fctkmax'] = lambda: mag(sig(r, r.uniform(0.5, 6)))
    else:
        opt['Ecm'] = lambda: mag(sig(r, r.uniform(2e4, 5e4)))
        opt['fctk_5'] = opt['fctk_95'] = lambda: mag(sig(r, r.uniform(0.5, 6)))
    if code != 'EC2_2023':
        opt['eps_c3'] = lambda: mag(big(1.2e-3, 2.4e-3))
        opt['eps_cu3'] = lambda: mag(big(2.5e-3, 5e-3))
        opt['alpha_cc'] = lambda: r.choice([0.85, 1, 0.8, sig(r, r.uniform(0.7, 1))])
    for k, f in opt.items():
        if r.random() < p:
            a[k] = f()
    if r.random() < 0.4:
        a['gamma_c'] = r.choice([1.5, 1.2, 1, 1.0, sig(r, r.uniform(1, 2))]) if r.random() < 0.9 else r.choice([0, 0.9, -1.5])
    if code == 'EC2_2023':
        if r.random() < 0.5:
            a['strength_dev_class'] = r.choice(['CS', 'cs', ' CS', 'slow', 'SLOW', 'slow ', 'Slow', 'CN', 'cn', 'CN ', 'normal', 'NORMAL', ' normal', 'Normal', 'CR', 'cr', ' cr', 'rapid', 'RAPID', 'rapid ', 'Rapid', 'fast', 'C', ''])
        if r.random() < 0.4:
            a['kE'] = r.choice([5000, 9500, 13000, 4999, 13001, sig(r, r.uniform(5000, 13000))])
    if r.random() < 0.3:
        a['density'] = r.choice([2400, 2500.0, -2300, 0, sig(r, r.uniform(1800, 3000))])
    if r.random() < 0.3:
        a['name'] = r.choice(['beam', 'C30', 'x y'])
    initial(r, a, fck / 1.5, True)
    if a.get('n_parabolic_rectangular') == 0:  # no strain has such a stress: the law jumps
        a.pop('initial_stress', None)
    return 'concrete', code, a, given(r, CNAMES)


def given(r, names):
    u = r.random()
    if u < 0.35:
        return None
    if u < 0.85:
        return r.choice(names)
    return composed(r, 1) if r.random() < 0.4 else basic(r)


def steel(r):
    code = r.choice(CODES)
    fyk = r.choice([400, 500, 550, 1600, sig(r, r.uniform(220, 1700)), 499.6])
    a = {'fyk': fyk, 'Es': r.choice([200000, 195000, 210000.0, sig(r, r.uniform(1.8e5, 2.2e5))]),
         'ftk': sig(r, fyk * r.choice([1, 1.05, 1.08, r.uniform(1, 1.3)])),
         'epsuk': r.choice([0.025, 0.05, 0.075, sig(r, r.uniform(0.02, 0.12))])}
    for k in ('fyk', 'Es', 'ftk', 'epsuk'):
        if r.random() < 0.06:
            a[k] = -a[k]
    if r.random() < 0.5:
        a['gamma_s'] = r.choice([1.15, 1, 1.0, 1.2, sig(r, r.uniform(1, 1.4))]) if r.random() < 0.9 else r.choice([0.99, 0, -1.15])
    if code != 'EC2_2023' and r.random() < 0.5:
        a['gamma_eps'] = r.choice([0.9, 1, 1.0, sig(r, r.uniform(0.7, 1))]) if r.random() < 0.9 else r.choice([1.01, 0])
    if r.random() < 0.3:
        a['density'] = r.choice([7850, 7800.0, -7850, 0])
    if r.random() < 0.3:
        a['name'] = r.choice(['bar', 'B500B'])
    initial(r, a, fyk / 1.15, False)
    return 'steel', code, a, given(r, SNAMES)


def simple(r):
    op = r.choice(['elastic', 'ep', 'generic'])
    a = {'density': r.choice([7850, 2500.0, sig(r, r.uniform(500, 8000)), -1000])}
    l = basic(r, op) if op != 'generic' else (composed(r, 1) if r.random() < 0.4 else basic(r))
    if op == 'elastic':
        a['E'] = l['E']
    if op == 'ep':
        a.update({'E': l['E'], 'fy': l['fy'], 'Eh': l['Eh'], 'eps_su': l['su']})
    if r.random() < 0.3:
        a['name'] = r.choice(['mine', 'Z'])
    initial(r, a, {'elastic': 300, 'ep': l.get('fy', 0)}.get(op, 200), l['t'] in ('pr', 'bl', 'sargin', 'pop'))
    if r.random() < 0.25 and l['t'] in ('elastic', 'ep', 'pr', 'bl', 'sargin'):   # in pascals
        l = pascals(l)
        a.update({k: a[k] * 1e6 for k in ('E', 'fy', 'Eh', 'initial_stress') if a.get(k)})
    return op, '', a, l


def guess(op, code, a, g):
    """Break points for the choice of strains (the law may turn out another)."""
    if isinstance(g, dict):
        l = g
    elif op == 'concrete':
        l = {'t': 'user', 'x': [-5e-3, -3.5e-3, -3e-3, -2.3e-3, -2e-3, -1.75e-3, 0.0, 1e-3], 'eps_u': None}
    else:
        ey, eu = abs(a['fyk'] / a['Es']) / (a.get('gamma_s') or 1.15), abs(a['epsuk'])
        l = {'t': 'user', 'x': [-eu, -0.9 * eu, -eu / (a.get('gamma_s') or 1.15), -ey, 0.0, ey, 0.9 * eu, eu], 'eps_u': None}
    return l


def make(op, code, a, g, r):
    kw = {k: v for k, v in a.items()}
    if op in ('concrete', 'steel'):
        law = build(g) if isinstance(g, dict) else g
        if law is not None:
            kw['constitutive_law'] = law
        if r.random() < 0.5:
            return cls(code, op)(**kw)
        if op == 'concrete':
            from structuralcodes.materials.concrete import create_concrete as f
        else:
            from structuralcodes.materials.reinforcement import create_reinforcement as f
        return f(design_code=MAKE[code][0], **kw)
    from structuralcodes.materials import basic as b

    if op == 'elastic':
        if g['eps_u'] is not None:
            kw['ultimate_strain'] = rng(g)
        return b.ElasticMaterial(**kw)
    if op == 'ep':
        if kw['Eh'] == 0 and r.random() < 0.5:
            del kw['Eh']
        return b.ElasticPlasticMaterial(**kw)
    return b.GenericMaterial(constitutive_law=build(g), **kw)


CONC = ['fck', 'gamma_c', 'density', 'fcm', 'fctm', 'eps_c1', 'eps_cu1', 'k_sargin', 'eps_c2', 'eps_cu2', 'n_parabolic_rectangular']
MORE = {'EC2_2004': ['Ecm', 'fctk_5', 'fctk_95', 'eps_c3', 'eps_cu3', 'alpha_cc'], 'EC2_2023': ['Ecm', 'fctk_5', 'fctk_95'],
        'MC2010': ['Eci', 'fctkmin', 'fctkmax', 'eps_c3', 'eps_cu3', 'alpha_cc', 'Gf']}
STEEL = ['fyk', 'Es', 'ftk', 'epsuk', 'epsyk', 'gamma_s', 'epsyd', 'density']


def read(m, names, r):
    names = list(names)
    r.shuffle(names)
    return {n: capture(lambda: getattr(m, n))[0] for n in names}


def sibling(op, code, a, g, r):
    """Another material of (nearly) the same parameters: they are none of its business."""
    b = dict(a)
    for k in [k for k in b if b[k] is not None and k != 'name'][:]:
        if r.random() < 1.5 / len(b):
            if isinstance(b[k], str) or (r.random() < 0.4 and k not in ('fck', 'fyk', 'Es', 'ftk', 'epsuk', 'E', 'fy', 'Eh', 'density')):
                del b[k]
            elif not isinstance(b[k], bool):
                b[k] = b[k] * 1.1
    m = capture(make, op, code, b, g, r)[2]
    if op == 'steel' and not isinstance(m, Exception) and r.random() < 0.5:
        m.epsuk = 0.0123
    return m


def event(op, code, a, g, r):
    ev = {'op': op, 'code': code, 'a': {k: arg(v) for k, v in a.items() if v is not None}}
    ev['given'] = {'k': 'none'} if g is None else {'k': 'name', 's': g} if isinstance(g, str) else {'k': 'law', 'law': enclaw(g)}
    kept = [sibling(op, code, a, g, r)] if r.random() < 0.3 else []
    out, ev['warned'], m = capture(make, op, code, a, g, r)
    if r.random() < 0.2:
        kept.append(sibling(op, code, a, g, r))
    if op == 'ep':
        ev['a']['Eh'] = arg(a['Eh'])
    ev['made'] = out['v'] if out['k'] == 'err' else 'ok'
    if ev['made'] != 'ok':
        return ev
    if op == 'concrete':
        ev['p'] = read(m, CONC + MORE[code], r)
        ev['p']['fcd'] = capture(m.fcd)[0]
        if code == 'EC2_2023':
            ev['fcd23'] = []
            for _ in range(4):
                q = {'t_ref': r.choice([28, 29, 56, 57, 27.9, -1 if r.random() < 0.2 else 10]), 't0': r.choice([90, 91, 90.5, 28, 365]), 'fck_ref': r.choice([40, 30, 50.0, 0 if r.random() < 0.2 else 35])}
                fcd, fctd = capture(m.fcd, **q)[0], capture(m.fctd, t_ref=q['t_ref'])[0]
                ev['fcd23'].append({**{k: num(v) for k, v in q.items()}, 'fcd': fcd, 'fctd': fctd})
    elif op == 'steel':
        ev['p'] = read(m, STEEL + ([] if code == 'EC2_2023' else ['gamma_eps']), r)
        for n in ('fyd', 'ftd', 'epsud'):
            ev['p'][n] = capture(getattr(m, n))[0]
    else:
        ev['p'] = read(m, {'elastic': ['E', 'density'], 'ep': ['E', 'fy', 'Eh', 'eps_su', 'density'], 'generic': ['density']}[op], r)
        if 'eps_su' in ev['p'] and a['eps_su'] is None:
            del ev['p']['eps_su']
    ev['name'] = m.name
    p = read(m, ['initial_strain', 'initial_stress', 'strain_compatibility'], r)
    ev['e0'], ev['s0'], ev['compat'] = p['initial_strain'], p['initial_stress'], p['strain_compatibility']
    e0 = float(ev['e0']['v']) if ev['e0']['k'] == 'num' else 0.0
    law = m.constitutive_law
    eps = [e - (e0 if r.random() < 0.8 else 0) for e in strains(r, guess(op, code, a, g), 14)]
    lim = capture(law.get_ultimate_strain)[2]
    if isinstance(lim, tuple):
        eps += [v for v in lim] + [v * 1.001 for v in lim] + [v * 0.999 for v in lim]
    if a.get('n_parabolic_rectangular') == 0:  # the law jumps at the peak (0^0)
        peak = [float(v['v']) for n, v in ev['p'].items() if n in ('eps_c2', 'eps_cu2') and v['k'] == 'num']
        eps = [e for e in eps if all(abs(abs(e) - abs(v)) > 1e-9 for v in peak)] or [0.0]
    ev['eps'] = [num(e) for e in eps]
    ev['stress'] = capture(law.get_stress, eps)[0]
    ev['tangent'] = capture(law.get_tangent, eps)[0]
    ev['lim'] = capture(law.get_ultimate_strain)[0]
    ev['limy'] = capture(law.get_ultimate_strain, yielding=True)[0]
    if r.random() < 0.3:
        from structuralcodes.materials.basic import ElasticMaterial

        o, _, w = capture(ElasticMaterial.from_material, m)
        ev['twin'] = o if o['k'] == 'err' else {'k': 'rec', 'v': {'E': num(w.E), 'density': num(w.density)}}
        ev['twinname'] = '' if o['k'] == 'err' else w.name
    if op == 'steel' and r.random() < 0.3:
        v = r.choice([0.03, -0.04, sig(r, r.uniform(0.02, 0.1))])
        m.epsuk = v
        q = read(m, ['epsuk', 'epsyk'], r)
        q.update({n: capture(getattr(m, n))[0] for n in ('fyd', 'epsud')})
        ev['set'] = {'v': num(v), 'p': q}
    return ev


def p_concrete(c):
    r = c.rng
    c.judge('Trace_Materials', [event(*concrete(r), r) for _ in range(c.n(2500, 40000))])


def p_steel(c):
    r = c.rng
    c.judge('Trace_Materials', [event(*(steel if i % 3 else simple)(r), r) for i in range(c.n(2500, 40000))])
