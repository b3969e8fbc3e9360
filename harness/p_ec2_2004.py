"""EN 1992-1-1:2004: calls of all functions."""
import math

from formulas import call_event, run_table
from gen import Arr, Choice, Dom, Opt, draw

FCK = Dom(8, 100, [12, 20, 25, 30, 35, 40, 45, 50, 55, 60, 70, 80, 90], extra=[-30, -60])
FCM = Dom(12, 110, [20, 28, 33, 35, 38, 43, 48, 58, 63, 78, 88, 98, 100])
CEM = Choice('R', 'N', 'S', 'r', 'n', 's', 'X', 'RS')
CEMS = Choice('R', 'N', 'S', 'r', 'n', 's', ' R', 'n ', 's ', 'X', 'RS', '')
T = Dom(0.5, 20000, [1, 3, 7, 14, 27, 28, 29, 56, 90, 365], log=True)
H0 = Dom(30, 1500, [50, 100, 150, 200, 250, 300, 400, 500, 600], log=True)
POS = Dom(1e-3, 1e3, log=True)
THETA = Dom(15, 60, [20, 21.7, 21.8, 22, 30, 40, 45, 45.1, 45.2, 45.5, 46, 50])
ALPHA = Opt(Dom(30, 90, [45, 60, 90]), 0.4)
FORCE = Dom(-5e6, 5e6, [0.0, 1e5, -1e5, 1e6])
AC = Dom(1e4, 1e6, [9e4, 1.5e5], log=True)
FCD = Dom(5, 60, [16.67, 20, 26.67])
D_ = Dom(50, 2500, [199, 200, 201, 500], log=True)


def neg(d, p=0.06):
    return lambda r: -abs(d(r)) if r.random() < p else d(r)


def neg0(d, p=0.06, zero=True):
    """Like neg, with zero and values far below the usual ones as well."""
    def f(r):
        u = r.random()
        if u < p:
            return -abs(d(r))
        if u < 0.1 + p:
            return r.choice([0.0] * 2 * zero + [r.uniform(1e-3, 1), -r.uniform(1e-3, 1)])
        return d(r)
    return f


MATERIALS = {
    'fcm': {'fck': FCK, 'delta_f': Opt(Dom(2, 12, [8, -8]))},
    'fctm': {'fck': FCK},
    'fctk_5': {'fctm': Dom(0.5, 6, extra=[-2.5])},
    'fctk_95': {'fctm': Dom(0.5, 6, extra=[-2.5])},
    'Ecm': {'fcm': Dom(10, 110, [20, 28, 38], extra=[-33])},
    'eps_c1': {'fcm': Dom(10, 110, [86, 87, 88, 89, 90], extra=[-33])},
    'eps_cu1': {'fck': FCK},
    'k_sargin': {'Ecm': Dom(2e4, 5e4), 'fcm': FCM, 'eps_c1': Dom(0.0015, 0.003, extra=[-0.0022])},
    'eps_c2': {'fck': FCK},
    'eps_cu2': {'fck': FCK},
    'n_parabolic_rectangular': {'fck': FCK},
    'eps_c3': {'fck': FCK},
    'eps_cu3': {'fck': FCK},
    'fcd': {'fck': FCK, 'alpha_cc': Dom(0.7, 1, [0.85, 1, -0.85]), 'gamma_c': Dom(1, 2, [1.5, 1.2, -1.5])},
    'beta_cc': {'t': Arr(T), 's': Choice(0.2, 0.25, 0.38)},
    'beta_ct': ({'t': Arr(T), 's': Choice(0.2, 0.25, 0.38)}, 2),
    'beta_E': {'t': Arr(T), 's': Choice(0.2, 0.25, 0.38)},
    's_time_development': {'cement_class': CEMS},
    'fcm_time': {'fcm': FCM, 'beta_cc': Arr(Dom(0.1, 1.5))},
    'fctm_time': {'fctm': Dom(1, 5), 'beta_cc': Arr(Dom(0.1, 1.5)), 'alpha': Choice(1, 2 / 3, 0.5)},
    'Ecm_time': {'fcm': FCM, 'fcm_time': Arr(FCM), 'Ecm': Dom(2e4, 5e4)},
    'fyd': {'fyk': Dom(0, 700, [0, 500, -1]), 'gamma_s': Dom(0.9, 1.4, [1, 1.15])},
    'epsud': {'epsuk': Dom(0, 0.1, [0, 0.025, 0.05, -0.01]), 'gamma_eps': Opt(Dom(0.5, 1.1, [0.9, 1]))},
    'reinforcement_duct_props': {'fyk': Dom(200, 700, [500]), 'ductility_class': Choice('A', 'B', 'C', 'a', 'b', 'c', 'D', '')},
}
RHF = Dom(20, 100, [40, 50, 65, 80, 99, 100])
CREEP = {
    'eps_cs': {'eps_cd': Arr(Dom(0, 1e-3)), 'eps_ca': Arr(Dom(0, 1e-3))},
    'eps_cd': {'beta_ds': Arr(Dom(0, 1)), 'k_h': Dom(0.7, 1), 'eps_cd_0': Dom(1e-5, 1e-3)},
    'beta_ds': ({'t': Arr(T), 't_s': Choice(1, 3, 7, 28, 90), 'h_0': H0}, 2),
    'k_h': ({'h_0': H0}, 2),
    'eps_cd_0': {'alpha_ds1': Choice(3, 4, 6), 'alpha_ds2': Choice(0.11, 0.12, 0.13), 'fcm': FCM,
                 'beta_RH': Dom(-0.1, 1.55), 'fcm_0': Opt(Dom(5, 15, [10]))},
    'alpha_ds1': {'cement_class': CEMS},
    'alpha_ds2': {'cement_class': CEMS},
    'beta_RH': {'RH': RHF, 'RH_0': Opt(Dom(90, 110, [100]))},
    'eps_ca': {'beta_as': Arr(Dom(0, 1)), 'eps_ca_inf': Dom(1e-6, 3e-4)},
    'eps_ca_inf': {'fck': Dom(10, 90, [10, 12, 30])},
    'beta_as': {'t': Arr(T)},
    'phi': {'phi_0': Dom(0.5, 6), 'beta_c': Arr(Dom(0, 1.2))},
    'phi_0': {'phi_RH': Dom(0.5, 3), 'beta_fcm': Dom(1, 4), 'beta_t0': Dom(0.1, 1)},
    'phi_RH': ({'h_0': H0, 'fcm': FCM, 'RH': RHF, 'alpha_1': Dom(0.4, 1.2), 'alpha_2': Dom(0.4, 1.2)}, 2),
    'beta_fcm': {'fcm': FCM},
    'beta_t0': {'t0': T},
    'h_0': {'Ac': AC, 'u': Dom(300, 8000)},
    'beta_c': ({'t0': Choice(1, 7, 28, 90), 't': Arr(T), 'beta_H': Dom(250, 1500)}, 2),
    'beta_H': ({'h_0': H0, 'fcm': FCM, 'RH': RHF, 'alpha_3': Dom(0.5, 1.2)}, 3),
    'alpha_1': {'fcm': FCM}, 'alpha_2': {'fcm': FCM}, 'alpha_3': {'fcm': FCM},
    't0_adj': {'t0': Dom(0.05, 400, [0.5, 1, 7, 28], log=True), 'alpha_cement': Choice(-1, 0, 1)},
    'alpha_cement': {'cement_class': CEM},
    'eps_sm_eps_cm_restraint_end': {'alpha_e': Dom(4, 20), 'rho_p_eff': Dom(0.001, 0.2, log=True), 'kc': Dom(0, 1),
                                    'k': Dom(0.65, 1), 'fct_eff': Dom(1, 5), 'Es': Choice(2e5, 1.95e5)},
}
AXIAL = {'NEd': Dom(-2e6, 2e7, [0.0], p=0.2), 'Ac': AC, 'fcd': FCD}


def fix_axial(kw, r):
    """Put the concrete stress at and around the limits of the clauses."""
    u = r.random()
    if u < 0.75:
        q = r.choice([0.1, 0.2, 0.25, 0.3, 0.5, 0.6, 0.9, 0.99, 1.0, 1.1, -0.1])
        if q in (0.1, 0.3, 0.6, 0.9):
            q *= r.uniform(0.9, 1.1)
        elif r.random() < 0.8:
            q *= 1 + r.choice([-1, 1]) * 10 ** r.uniform(-6, -2)
        else:  # exactly representable
            kw['Ac'], kw['fcd'] = 65536.0, 16.0
        kw['NEd'] = q * kw['fcd'] * kw['Ac']
    return kw


SHEAR = {
    'VRdc': ({'fck': Dom(12, 90, [30, 60]), 'd': D_, 'Asl': Dom(0, 12000, [0, 1000]), 'bw': Dom(80, 1500),
              **AXIAL, 'k1': Opt(Dom(0.1, 0.2, [0.15])), 'gamma_c': Opt(Dom(1, 2, [1.5])),
              'CRdc': Opt(Dom(0.05, 0.2), 0.3), '_fix': fix_axial}, 4),
    'VRdc_prin_stress': ({'Iy': Dom(1e8, 1e11, log=True), 'bw': Dom(80, 600), 'S': Dom(1e5, 1e8, log=True), 'fctd': Dom(0.5, 3),
                         'NEd': Dom(0, 2e6, [0]), 'Ac': AC, 'L_x': Opt(Dom(50, 2000), 0.6), 'L_pt2': Opt(Dom(200, 1500), 0.6)}, 3),
    'VEdmax_unreinf': {'bw': Dom(80, 1500), 'd': D_, 'fck': Dom(12, 90), 'fcd': FCD},
    'VRds': ({'Asw': Dom(20, 1000), 's': Dom(50, 400), 'z': Dom(100, 2000), 'theta': THETA, 'fyk': Dom(250, 600, [500]),
              'alpha': ALPHA, 'gamma_s': Opt(Dom(1, 1.3, [1.15]))}, 3),
    'Asw_s_required': ({'Ved': Dom(1e4, 1e7, log=True), 'z': Dom(100, 2000), 'theta': THETA, 'fywd': Dom(200, 600), 'alpha': ALPHA}, 2),
    'VRdmax': ({'bw': Dom(80, 1500), 'z': Dom(100, 2000), 'fck': Dom(12, 100, [50, 59, 60, 61, 80, 90]), 'theta': THETA, **AXIAL,
                'alpha': ALPHA, 'limit_fyd': Opt(Choice(True, False), 0.7), '_fix': fix_axial}, 6),
    'Asw_max': ({'fcd': FCD, 'fck': Dom(12, 90), 'bw': Dom(80, 1500), 's': Dom(50, 400), 'fywd': Dom(200, 600), 'NEd': AXIAL['NEd'],
                 'Ac': AC, 'alpha': ALPHA, '_fix': fix_axial}, 4),
}
KF = Dom(0.6, 1.05, [0.65, 1.0, 0.8])
KC = Dom(-0.05, 1.05, [0, 0.4, 1])
XI = Dom(0.1, 0.85, [0.15, 0.5, 0.8])
H = Dom(50, 2000, [300, 500, 800, 1000], extra=[-1, 0.0])


def fix_le(kw, r):
    """Depths that are sometimes equal to, or more than, the height."""
    for n in ('d', 'x'):
        if n in kw and r.random() < 0.9:
            kw[n] = kw['h'] * r.choice([0, 0.1, 0.3, 0.5, 0.8, 0.85, 0.9, 0.95, 1.0, 1.01, -0.01])
    return kw


def fix_kt(kw, r):
    return kw


CRACK = {
    'w_max': ({'exposure_class': Choice('X0', 'XC1', 'XC2', 'XC3', 'XC4', 'XD1', 'XD2', 'XS1', 'XS2', 'XS3', 'xc1', ' X0 ', 'xd1', 'dummy', 'XC5'),
               'load_combination': Choice('f', 'qp', 'F', 'QP', ' f', 'Qp ', 'x', '')}, 3),
    'As_min': ({'A_ct': Dom(1e3, 1e6, [0, -1], p=0.1, log=True), 'sigma_s': Dom(10, 500, [-1], p=0.1), 'fct_eff': Dom(1, 5, extra=[-2.9]), 'k': KF, 'kc': KC}, 2),
    'k': ({'h': Dom(0, 1500, [0, 299, 300, 301, 550, 799, 800, 801, -1])}, 3),
    'kc_tension': {},
    'kc_rect_area': ({'h': neg0(Dom(50, 3000, [300, 999, 1000, 1001, -5]), 0.03, zero=False), 'b': neg0(Dom(50, 2000, extra=[-5]), 0.03, zero=False), 'fct_eff': Dom(1, 5), 'N_ed': Dom(-3000, 3000, [0])}, 3),
    'kc_flanges_area': {'f_cr': Dom(-2000, 2000), 'A_ct': Dom(1e3, 1e6, extra=[-1.0], log=True), 'fct_eff': Dom(1, 5)},
    'xi1': ({'xi': XI, 'phi_p': Dom(1, 60, [0, -1], p=0.1), 'phi_s': Dom(1, 40, [0, -1], p=0.2)}, 2),
    'hc_eff': ({'h': H, 'd': Dom(1, 10), 'x': Dom(1, 10), '_fix': fix_le}, 3),
    'As_min_p': ({'A_ct': Dom(1e3, 1e6, [0], p=0.05, log=True), 'sigma_s': Dom(10, 500, [-1], p=0.05), 'fct_eff': Dom(1, 5, extra=[-2.9]), 'k': KF, 'kc': KC,
                  'Ap': Dom(0, 3000, [0, -1], p=0.1), 'phi_s': Dom(1, 40, [0, -1], p=0.1), 'phi_p': Dom(1, 60, [0], p=0.05), 'xi': XI,
                  'delta_s': Dom(0, 300, [0, -1], p=0.1)}, 3),
    'alpha_e': {'Es': neg0(Dom(1.8e5, 2.1e5)), 'Ecm': neg(Dom(2e4, 5e4))},
    'rho_p_eff': ({'As': neg0(Dom(0, 5000)), 'xi1': neg0(Dom(0, 1)), 'Ap': neg0(Dom(0, 3000, [0.0])), 'Ac_eff': neg(Dom(1e3, 1e5))}, 2),
    'kt': {'load_type': Choice('short', 'long', 'SHORT', 'Long', ' short', 'long ', 'x', '')},
    'eps_sm_eps_cm': ({'sigma_s': neg0(Dom(0, 500)), 'alpha_e': neg0(Dom(4, 20)), 'rho_p_eff': neg(Dom(0.001, 0.2, log=True)),
                       'kt': Choice(0.4, 0.6, 0.4, 0.6, 0.5), 'fct_eff': neg0(Dom(1, 5)), 'Es': neg(Choice(2e5, 1.95e5))}, 4),
    'w_spacing': {'c': neg0(Dom(0, 80)), 'phi': neg0(Dom(5, 40))},
    'phi_eq': ({'n1': lambda r: r.choice([0, 1, 2, 3, 8, -1]), 'n2': lambda r: r.choice([1, 2, 3, 8, -1]), 'phi1': neg(Dom(5, 40)), 'phi2': neg(Dom(5, 40))}, 2),
    'k1': {'bond_type': Choice('bond', 'plain', 'BOND', 'Plain', ' bond', 'plain ', 'x', '')},
    'k2': {'eps_r': Dom(-0.1, 1.1, [0, 0.5, 1])},
    'k3': {}, 'k4': {},
    'sr_max_close': ({'c': neg0(Dom(0, 80)), 'phi': neg0(Dom(5, 40)), 'rho_p_eff': neg(Dom(0.001, 0.2, log=True)), 'k1': Choice(0.8, 1.6, 0.8, 1.6, 1.0),
                      'k2': Dom(0.45, 1.05, [0.5, 1.0]), 'k3': Opt(neg(Dom(1, 5))), 'k4': Opt(neg(Dom(0.2, 1)))}, 3),
    'sr_max_far': ({'h': H, 'x': Dom(1, 10), '_fix': fix_le}, 2),
    'sr_max_theta': ({'sr_max_y': neg0(Dom(50, 600), zero=False), 'sr_max_z': neg0(Dom(50, 600), zero=False), 'theta': Dom(-0.1, 1.7, [0, math.pi / 2, math.pi / 4])}, 2),
    'wk': {'sr_max': neg0(Dom(0, 800)), 'eps_sm_eps_cm': neg0(Dom(0, 3e-3))},
}


def as_min_2(mod, n, r):
    out = []
    for _ in range(n):
        s = Dom(100, 500, [160, 200, 240, 280, 320, 360, 400, 450])(r)
        kw = {'wk': neg(Dom(0.15, 0.45, [0.2, 0.3, 0.4]), 0.03)(r), 'fct_eff': neg(Dom(1.5, 5, [2.9]), 0.03)(r),
              'h_cr': neg0(Dom(50, 800), 0.03)(r), 'h': neg0(Dom(200, 1000), 0.03, zero=False)(r)}
        kw['d'] = abs(kw['h']) * r.choice([0.8, 0.85, 0.9, -0.1 if r.random() < 0.2 else 0.7])
        kw['sigma_s'] = s
        if r.random() < 0.5:
            kw['delta_s'] = r.choice([0, 50, 80, 100.0, 300, 600])
            if r.random() < 0.7:
                kw['sigma_s'] = s + kw['delta_s'] if kw['delta_s'] < 300 else s
        if r.random() < 0.5:
            kw['kc'] = KC(r)
        out.append(call_event(mod, 'As_min_2', kw, False, 'ec2_2004', r))
    return out


def phi_eq(mod, n, r):
    """Numbers of bars that are not integers, and the refusals of names that are not names."""
    out = []
    for _ in range(n):
        kw = {'n1': r.choice([1, 2, 3]), 'n2': r.choice([1, 2, 4]), 'phi1': Dom(5, 40)(r), 'phi2': Dom(5, 40)(r)}
        k = r.choice(['n1', 'n2'])
        kw[k] = r.choice([1.5, 2.0, 3.0, 0.5, 1.0])
        out.append(call_event(mod, 'phi_eq', kw, False, 'ec2_2004', r, notint=True))
        out.append(call_event(mod, 'k1', {'bond_type': r.choice([None, 1, 0.8])}, False, 'ec2_2004', r, notint=True))
        out.append(call_event(mod, 'kt', {'load_type': r.choice([None, 1, 0.6])}, False, 'ec2_2004', r, notint=True))
    return out


def t_t(mod, n, r):
    out = []
    for _ in range(n):
        u = r.random()
        k = r.choice([1, 2, 4])
        temp, dt = Dom(-10, 60, [20, 0]), Dom(0.1, 100, [1, 7, 28])
        if u < 0.4:
            kw, vec, mix = {'T': temp(r), 'dt': dt(r)}, False, False
        elif u < 0.75:
            kw, vec, mix = {'T': [temp(r) for _ in range(k)], 'dt': [dt(r) for _ in range(k)]}, True, False
        elif u < 0.85:
            kw, vec, mix = {'T': [temp(r) for _ in range(k)], 'dt': [dt(r) for _ in range(k + 1)]}, True, False
        else:
            a, b = [temp(r) for _ in range(k)], dt(r)
            kw, vec, mix = ({'T': a, 'dt': b} if r.random() < 0.5 else {'T': b, 'dt': a}), True, True
        out.append(call_event(mod, 't_T', kw, vec, 'ec2_2004', r, mix=mix))
    return out


def p_materials(c):
    import structuralcodes.codes.ec2_2004 as mod

    ev = run_table(c, mod, 'ec2_2004', MATERIALS, c.n(400, 8000), c.rng)
    c.judge('Trace_EC2_2004', ev)


def p_creep(c):
    import structuralcodes.codes.ec2_2004 as mod

    ev = run_table(c, mod, 'ec2_2004', CREEP, c.n(400, 8000), c.rng)
    ev += t_t(mod, c.n(500, 9000), c.rng)
    c.judge('Trace_EC2_2004', ev)


def p_shear(c):
    import structuralcodes.codes.ec2_2004 as mod

    ev = run_table(c, mod, 'ec2_2004', SHEAR, c.n(800, 15000), c.rng)
    c.judge('Trace_EC2_2004', ev)


def p_crack(c):
    import structuralcodes.codes.ec2_2004 as mod

    ev = run_table(c, mod, 'ec2_2004', CRACK, c.n(400, 8000), c.rng)
    ev += as_min_2(mod, c.n(1500, 30000), c.rng)
    ev += phi_eq(mod, c.n(40, 400), c.rng)
    c.judge('Trace_EC2_2004', ev)
