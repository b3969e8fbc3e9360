"""EN 1992-1-1:2023: calls of all functions."""
from formulas import run_table
from gen import Choice, Dom, Opt

FCK = Dom(8, 110, [12, 20, 35, 40, 50, 80, 100], extra=[-30, -60])
FCM = Dom(12, 110, [20, 28, 58, 63, 64, 88, 90])
DEV = Choice('CS', 'CN', 'CR', 'slow', 'normal', 'rapid', 'cs', 'cr', 'SLOW', 'NORMAL', 'RAPID', 'slow ', ' normal', 'CN ', 'X', 'C', 'CS', 'CN', 'CR')
ATM = Choice('dry', 'humid', 'dry', 'humid', 'DRY', 'Humid', ' dry', 'humid ', 'wet', '')
HN = Dom(80, 1100, [100, 200, 500, 1000], log=True)
T0 = Dom(0.5, 400, [0, 1, 3, 7, 10, 23, 28, 32, 91, 365], log=True, extra=[-1.0])
TREF = Dom(0, 120, [0, 28, 56], extra=[-1.0])
GAM = Dom(0.9, 1.6, [1, 1.15, 1.5])
PCL = ['Y1560', 'Y1570', 'Y1670', 'Y1770', 'Y1860', 'Y1960', 'Y2060', 'Y1030', 'Y1050', 'Y1100', 'Y1230']


def fix_steel(kw, r):
    u = r.random()
    E = kw.get('Es', kw.get('Ep', 200000 if 'fy' in kw else 190000))
    f = kw.get('fy', kw.get('fpy'))
    eu = kw.get('eps_u', 0.035)
    if u < 0.3 and E > 0:
        kw['eps'] = f / E * r.choice([1, 1 + 1e-6, 1 - 1e-6, 0.5, 1.5])
    elif u < 0.6:
        kw['eps'] = eu * r.choice([1, 1 + 1e-6, 1 - 1e-6, 0.9, 0.5])
    if 'fpu' in kw:
        kw['fpu'] = kw['fpy'] * r.choice([1, 1.1, 1.13, 0.99, 1.05])
    if E > 0 and eu > 0 and abs(eu - f / E) < 1e-6:
        return None
    return kw


def fix_psteel(kw, r):
    kw['prestress_class'] = r.choice(PCL)
    return kw


MATERIALS = {
    'fcm': {'fck': FCK, 'delta_f': Opt(Dom(2, 12, [8, -8]))},
    'fctm': ({'fck': FCK}, 2),
    'fctk_5': {'fctm': Dom(0.5, 6, extra=[-2.5])},
    'fctk_95': {'fctm': Dom(0.5, 6, extra=[-2.5])},
    'Ecm': ({'fcm': Dom(0, 110, [0, 20, 28], extra=[-1.0]), 'kE': Opt(Dom(4000, 14000, [5000, 9500, 13000]), 0.7)}, 2),
    'hn': {'Ac': Dom(0, 1e6, [0], extra=[-1.0]), 'u': Dom(100, 8000, extra=[-1.0])},
    'A_phi_correction_exp': ({'hn': HN, 'atm_conditions': ATM}, 3),
    'phi_correction_factor': ({'fck': Dom(10, 110, [12, 35, 100]), 'A_exponent': Dom(0.6, 0.85, [0.64, 0.82, 0.72])}, 2),
    'phi_50y_t0': ({'t0': T0, 'atm_conditions': ATM, 'hn': HN, 'strength_dev_class': DEV}, 10),
    'eps_cs_50y': ({'fck_28': Dom(15, 90, [20, 35, 50, 80]), 'atm_conditions': ATM, 'hn': HN, 'strength_dev_class': DEV}, 10),
    'eta_cc': ({'fck': Dom(10, 100, [12, 40]), 'fck_ref': Opt(Dom(-5, 60, [0, 40]))}, 2),
    'k_tc': ({'t_ref': TREF, 't0': Dom(0, 200, [0, 28, 56, 90, 91], extra=[-1.0]), 'strength_dev_class': DEV}, 6),
    'fcd': ({'fck': Dom(10, 100, [12]), 'eta_cc': Dom(-0.05, 1.05, [0, 1]), 'k_tc': Choice(0.85, 1), 'gamma_c': GAM}, 2),
    'k_tt': ({'t_ref': TREF, 'strength_dev_class': DEV}, 4),
    'fctd': ({'fctk_5': Dom(-0.5, 4, [0, 2]), 'k_tt': Choice(0.7, 0.8), 'gamma_c': GAM}, 2),
    'eps_c1': ({'fcm': FCM}, 2),
    'eps_cu1': ({'fcm': FCM}, 2),
    'k_sargin': {'Ecm': Dom(2e4, 5e4, extra=[0, -1.0]), 'fcm': FCM, 'eps_c1': Dom(0.0015, 0.003, extra=[0, -0.0022])},
    'eps_c2': {}, 'eps_cu2': {}, 'n_parabolic_rectangular': {}, 'alpha_c_th': {}, 'alpha_s_th': {}, 'Es': {}, 'weight_s': {},
    'weight_c': {'concrete_type': Choice('nc', 'npc', 'NC', 'NPC', ' nc', 'Npc ', 'x', '')},
    'fyd': {'fyk': Dom(-50, 700, [0, 500]), 'gamma_s': GAM},
    'eps_ud': {'eps_uk': Dom(-0.01, 0.1, [0, 0.025, 0.05]), 'gamma_s': GAM},
    'sigma_s': ({'eps': Dom(-0.001, 0.08, [0]), 'fy': Dom(200, 700, [500], extra=[0, -1.0]), 'k': Dom(0.9, 1.35, [1, 1.05, 1.08, 1.15], extra=[-1.0]),
                 'eps_u': Dom(0.02, 0.08, [0.025, 0.05], extra=[0, -0.01]), 'Es': Opt(Choice(200000, 195000, 210000.0, 0, -1.0)), '_fix': fix_steel}, 5),
    'sigma_p': ({'eps': Dom(-0.001, 0.05, [0]), 'fpy': Dom(1000, 1700, [1640], extra=[0, -1.0]), 'fpu': Choice(1), 'eps_u': Opt(Dom(0.02, 0.05, [0.035, 0.02], extra=[0, -0.01])),
                 'Ep': Opt(Choice(190000, 195000, 205000.0, 0, -1.0)), '_fix': fix_steel}, 5),
    'fpd': {'fp01k': Dom(-100, 1700, [0]), 'gamma_P': GAM},
    'reinforcement_duct_props': {'fyk': Dom(200, 700, [500]), 'ductility_class': Choice('A', 'B', 'C', 'a', 'b', 'c', 'D', '')},
}
M_ = Dom(0.05, 2.0, [0.3, 0.5, 0.8])
RHO = Dom(0.003, 0.2, log=True)


def fix_wk(kw, r):
    h = kw['h']
    kw['x'] = h * r.uniform(0, 0.6)
    if 'xg' in kw:
        kw['xg'] = h * r.uniform(0.3, 0.7)
    for n in ('hc_eff', 'hceff'):
        if n in kw:
            kw[n] = (h - kw['xg']) * r.choice([1, 1 - 1e-6, 1 + 1e-6, 0.2, 0.5, 1.2, r.uniform(0, 1.3)])
    if 'ay' in kw:
        kw['ay'] = h * r.uniform(0, 0.3)
    if 'hceff' in kw:
        kw.pop('x')
    return kw


def fix_delta(kw, r):
    kw['d'] = kw['h'] * r.uniform(0.8, 0.95)
    f = kw['fck1']
    fctm = 0.3 * f ** (2 / 3) if f <= 50 else 1.1 * f ** (1 / 3)
    mcr = fctm * 1000 * kw['b1'] * kw['h'] ** 2 / 6
    kw['Mk'] = mcr * r.choice([0.5, 0.99, 1 - 1e-6, 1 + 1e-6, 1.01, 1.5, 2, 5])
    kw['As1'] = kw['b1'] * kw['d'] * 1e4 * r.uniform(0.002, 0.03)
    return kw


SLS = {
    'alpha_c': {'fcm_28': Dom(10, 120, [87, 88, 89])},
    'Ec_eff': ({'fcm': Dom(12, 110, [28, 88]), 'phi': Dom(0, 5, [0, 2]), 'kE': Opt(Dom(5000, 13000, [9500]))}, 2),
    'As_min_y': ({'NEd': Dom(-3000, 6000, [0]), 'b': M_, 'h': M_, 'fct_eff': Dom(1, 5), 'fyk': Dom(300, 700, [500])}, 8),
    'kh': ({'b': M_, 'h': M_}, 2),
    'wk_cal2': {'kw': Dom(1, 2, [1.3, 1.7]), 'k_1_r': Dom(1, 2), 'srm_cal': Dom(50, 400), 'epssm_epscm': Dom(0, 3e-3)},
    'k_1_r': {'h': M_, 'x': M_, 'ay': M_, '_fix': fix_wk},
    'epssm_epscm': ({'sigma_s': Dom(0, 500), 'kt': Choice(0.4, 0.6), 'fct_eff': Dom(1, 5), 'rho_eff': RHO, 'alphae': Dom(4, 20), 'Es': Choice(2e5, 1.95e5)}, 3),
    'kfl': ({'h': M_, 'xg': M_, 'hceff': M_, 'x': M_, '_fix': fix_wk}, 2),
    'srm_cal': ({'c': Dom(0.01, 0.1), 'kfl_': Dom(0.5, 1), 'kb': Choice(0.9, 1.2), 'phi': Dom(0.006, 0.04), 'rho_eff': RHO, 'kw': Dom(1, 2, [1.3]),
                 'h': M_, 'x': M_, '_fix': fix_wk}, 3),
    'wk_cal': ({'kw': Dom(1, 2, [1.3]), 'h': Dom(0.2, 2), 'xg': M_, 'hc_eff': M_, 'c': Dom(0.01, 0.05), 'kb': Choice(0.9, 1.2), 'phi': Dom(0.006, 0.03),
                'rho_eff': RHO, 'x': M_, 'sigma_s': Dom(0, 500), 'kt': Choice(0.4, 0.6), 'fct_eff': Dom(1, 5), 'alphae': Dom(4, 20), 'Es': Choice(2e5, 1.95e5),
                '_fix': fix_wk}, 5),
    'delta_simpl': ({'delta_loads': Dom(0, 50), 'delta_shr': Dom(0, 20), 'fck1': Dom(12, 100, [30, 50, 51]), 'phi1': Dom(0, 4), 'b1': Dom(0.2, 1.5), 'h': Dom(0.1, 1.5),
                     '_fix': fix_delta}, 6),
}


def events(c, table, n):
    import structuralcodes.codes.ec2_2023 as mod

    return run_table(c, mod, 'ec2_2023', table, n, c.rng)


def p_materials(c):
    import structuralcodes.codes.ec2_2023 as mod
    from formulas import call_event

    ev = events(c, MATERIALS, c.n(350, 8000))
    r = c.rng
    for _ in range(c.n(1200, 12000)):
        cl = r.choice(PCL)
        kw = {'prestress_class': r.choice([cl, cl, cl.lower(), ' ' + cl, cl + ' ', 'Y1', '']), 'element': r.choice(['W', 'S', 'B', 'w', 's', 'b', ' w', 'S ', ' B ', 'X', ''])}
        e = call_event(mod, 'p_steel_stress_params', kw, False, 'ec2_2023', r)
        e['a']['CLASS'] = kw['prestress_class'].strip().upper()
        ev.append(e)
    c.judge('Trace_EC2_2023', ev)


def p_sls(c):
    c.judge('Trace_EC2_2023', events(c, SLS, c.n(500, 12000)))
