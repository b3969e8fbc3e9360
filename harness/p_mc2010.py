"""fib Model Code 2010: calls of all functions."""
import math

from formulas import call_event, run_table
from gen import Arr, Choice, Dom, Opt

FCK = Dom(8, 125, [12, 16, 20, 25, 30, 35, 40, 45, 50, 55, 60, 64, 70, 80, 90, 100, 110, 120], extra=[-30, -60])
FCKP = Dom(12, 110, [30, 50, 64, 70], p=0.3)
FCM = Dom(12, 130, [20, 28, 35, 58, 60, 98], p=0.3)
CEM = Choice('32.5 N', '32.5 R', '42.5 N', '42.5 R', '52.5 N', '52.5 R')
CEML = Choice('32.5 N', '32.5 R', '42.5 N', '42.5 R', '52.5 N', '52.5 R', '32.5 n', '32.5 r', '42.5 n', '42.5 r', '52.5 n', '52.5 r')
T = Dom(0.5, 20000, [1, 3, 7, 14, 28, 90, 365], log=True)
H0 = Dom(30, 1500, [100, 200, 500, 833, 834], log=True)
T0A = Dom(0.5, 100, [0.5, 7, 28], log=True)
GC = Opt(Dom(1, 1.8, [1.5, 1.2]))
MATERIALS = {
    'fcm': {'fck': FCK, 'delta_f': Opt(Dom(2, 12, [8, -8]))},
    'fctm': ({'fck': FCK}, 2), 'fctkmin': {'fctm': Dom(0.5, 6)}, 'fctkmax': {'fctm': Dom(0.5, 6)},
    'Gf': {'fck': FCK},
    'Eci': ({'fcm': FCM, 'agg_type': Opt(Choice('basalt', 'quartzite', 'limestone', 'sandstone', 'Basalt', 'BASALT', 'Quartzite', 'Limestone', 'SANDSTONE'), 0.8),
             'EC0': Opt(Dom(15000, 25000, [21500]))}, 3),
    'beta_cc': ({'time': Arr(T), 'fcm': FCM, 'cem_class': CEML}, 4),
    'beta_e': {'beta_cc': Arr(Dom(0.1, 1.5))},
    'Eci_t': {'beta_e': Arr(Dom(0.1, 1.5)), 'Eci': Dom(2e4, 5e4)},
    'fcd': ({'fck': FCK, 'alpha_cc': Opt(Dom(0.7, 1, [0.85, 1, -0.85])), 'gamma_c': Opt(Dom(1, 2, [1.5, -1.5]))}, 2),
    'eps_c1': ({'fck': FCK}, 4), 'eps_cu1': ({'fck': FCK}, 4), 'k_sargin': ({'fck': FCK}, 4),
    'eps_c2': ({'fck': FCK}, 2), 'eps_cu2': ({'fck': FCK}, 2), 'n_parabolic_rectangular': ({'fck': FCK}, 2), 'eps_c3': ({'fck': FCK}, 2), 'eps_cu3': ({'fck': FCK}, 2),
    'fyd': {'fyk': Dom(-50, 700, [0, 500]), 'gamma_s': Opt(Dom(0.9, 1.4, [1, 1.15]))},
    'epsud': {'epsuk': Dom(-0.01, 0.1, [0, 0.025, 0.05]), 'gamma_eps': Opt(Dom(0.5, 1.1, [0.9, 1]))},
    'reinforcement_duct_props': {'fyk': Dom(200, 700, [500]), 'ductility_class': Choice('A', 'B', 'C', 'D', 'a', 'b', 'c', 'd', 'E', '')},
}
RH = Choice


def rh(r):
    u = r.random()
    v = r.choice([0.4, 0.5, 0.65, 0.8, 0.9, 0.95, 0.99, 1.0, r.uniform(0.3, 1.1)])
    if r.random() < 0.3:
        v *= 1 + r.choice([-1, 1]) * 10 ** r.uniform(-7, -3)
    return v * 100 if u < 0.5 else v


def fix_rh(kw, r):
    if r.random() < 0.5:
        v = 0.99 * kw['beta_s1'] * r.choice([1 + 1e-6, 1 - 1e-6, 1.01, 0.99])
        kw['rh'] = v * 100 if r.random() < 0.5 else v
    return kw


def fix_sig(kw, r):
    s = r.choice([0.2, 0.4, 0.5, 0.6, 0.3]) * r.choice([1, 1 + 1e-6, 1 - 1e-6, 1.05, 0.95])
    kw['sigma'] = s * kw['fcm'] * r.choice([1, -1])
    q = abs(kw['sigma']) / kw['fcm']
    if abs(q - 0.4) < 1e-12 or abs(q - 0.6) < 1e-12:
        kw['fcm'], kw['sigma'] = 50.0, math.copysign(20.0 if abs(q - 0.4) < 1e-12 else 30.0, kw['sigma'])
    return kw


def fix_time(kw, r):
    t = kw['time']
    kw['time'] = [kw['t0'] + x for x in t] if isinstance(t, list) else kw['t0'] + t
    return kw


PH = Arr(Dom(0, 4))
CREEP = {
    't0_adj': ({'t_T': Dom(0.1, 400, [0.5, 1, 7, 28], log=True), 'cem_class': CEM}, 3),
    'eps_cds0': ({'fcm': FCM, 'cem_class': CEM}, 2),
    'beta_ds': ({'time': Arr(T), 'ts': Choice(1, 3, 7, 28, 90), 'notional_size': H0}, 2),
    'beta_s1': ({'fcm': FCM}, 2),
    'beta_RH': ({'rh': rh, 'beta_s1': Dom(0.85, 1, [1]), '_fix': fix_rh}, 5),
    'eps_cds': {'eps_cds0': Dom(1e-4, 1e-3), 'beta_ds': Arr(Dom(0, 1)), 'beta_rh': Dom(-1.55, 0.25)},
    'eps_cbs0': ({'fcm': FCM, 'cem_class': CEM}, 2),
    'beta_bs': {'time': Arr(T)},
    'eps_cbs': {'eps_cbs0': Dom(-1e-3, 0), 'beta_bs': Arr(Dom(0, 1))},
    'beta_bc_fcm': {'fcm': FCM},
    'beta_bc_t': ({'time': Arr(T), 't0': Choice(1, 7, 28, 90.5), 't0_adj': T0A, '_fix': fix_time}, 2),
    'phi_bc': {'beta_bc_fcm': Dom(0.05, 0.3), 'beta_bc_t': Arr(Dom(0, 15))},
    'beta_dc_fcm': {'fcm': FCM},
    'beta_dc_RH': ({'rh': rh, 'notional_size': H0}, 3),
    'beta_dc_t0': {'t0_adj': T0A}, 'alpha_fcm': {'fcm': FCM},
    'beta_h': ({'notional_size': H0, 'alpha_fcm': Dom(0.5, 1.4, [1])}, 2),
    'gamma_t0': {'t0_adj': T0A},
    'beta_dc_t': ({'time': Arr(T), 't0': Choice(1, 7, 28, 90.5), 'beta_h': Dom(200, 1500), 'gamma_t0': Dom(0.1, 0.4), '_fix': fix_time}, 2),
    'phi_dc': {'beta_dc_fcm': Dom(0.5, 5), 'beta_dc_RH': Dom(0, 1), 'beta_dc_t0': Dom(0.2, 1), 'beta_dc_t': Arr(Dom(0, 1))},
    'k_sigma': ({'sigma': 1, 'fcm': FCM, '_fix': fix_sig}, 3),
    'phi': ({'phi_bc': PH, 'phi_dc': PH, 'sigma': 1, 'fcm': FCM, '_fix': fix_sig}, 5),
    'calc_J': {'E_ci_t0': Dom(1e4, 5e4), 'phi': Arr(Dom(0, 5)), 'E_ci': Dom(1e4, 5e4)},
}


def t_t(mod, n, r):
    out = []
    for _ in range(n):
        u = r.random()
        k = r.choice([1, 2, 4])
        temp, dt = Dom(-10, 60, [20, 0]), Dom(0.1, 100, [1, 7, 28])
        if u < 0.4:
            kw, vec, mix = {'T_cur': temp(r), 'dt': dt(r)}, False, False
        elif u < 0.75:
            kw, vec, mix = {'T_cur': [temp(r) for _ in range(k)], 'dt': [dt(r) for _ in range(k)]}, True, False
        elif u < 0.85:
            kw, vec, mix = {'T_cur': [temp(r) for _ in range(k)], 'dt': [dt(r) for _ in range(k + 1)]}, True, False
        else:
            a, b = [temp(r) for _ in range(k)], dt(r)
            kw, vec, mix = ({'T_cur': a, 'dt': b} if r.random() < 0.5 else {'T_cur': b, 'dt': a}), True, True
        out.append(call_event(mod, 't_T', kw, vec, 'mc2010', r, mix=mix))
    return out


def loads(r):
    return {'Med': r.choice([0, 1, -1, 1]) * float(f'{10 ** r.uniform(6, 9):.4g}'), 'Ved': float(f'{10 ** r.uniform(3, 6):.4g}'),
            'Ned': r.choice([0.0, 1, -1, -3, 1, 10]) * float(f'{10 ** r.uniform(3, 6):.4g}'), 'delta_e': r.choice([0.0, 0.0, 50, -30, 100.5])}


LV = Choice(1, 2, 3, 1, 2, 3, 1, 2, 3, 4, 0)
THETA = Dom(15, 60, [20, 21.8, 30, 40, 45])
ALPHA = Opt(Dom(45, 90, [45, 60, 90]), 0.4)
DG = Dom(0, 64, [0, 8, 16, 26.6666, 32])
BASE = {'fck': FCKP, 'z': Dom(80, 2000, [200]), 'bw': Dom(50, 1500)}
ST = {'E_s': Choice(200000, 195000.0), 'As': Dom(100, 20000, log=True), 'loads': loads}
SW = {'asw': Dom(20, 2000, log=True), 'sw': Dom(50, 400), 'f_ywk': Dom(250, 600, [500])}


def fix_ct(kw, r):
    return kw


def fix_ult(kw, r):
    """Strut angles of level III that stay below 90 degrees."""
    ld, z = kw['loads'], kw['z']
    ex = max((abs(ld['Med']) / z + abs(ld['Ved']) + ld['Ned'] * (0.5 + ld['delta_e'] / z)) / (2 * kw['E_s'] * kw['As']), 0)
    if 20 + 1e4 * ex > 80:
        kw['As'] = kw['As'] * ex / 6e-3 * r.uniform(1.1, 10)
    return kw


CT = {'f_ctd': Dom(0.8, 3), 'i_c': Dom(1e8, 1e11, log=True), 's_c': Dom(1e6, 1e8, log=True), 'b_w': Dom(50, 500), 'sigma_cp': Dom(0, 15),
      'l_x': Dom(50, 2000), 'l_bd0': Dom(200, 1500), 'S_cy': Dom(1e6, 1e8, log=True), 'b_wy': Dom(50, 500), 'y': Dom(0, 300), 'y_c': Dom(300, 600),
      'A_c': Dom(1e5, 1e6), 'A_cy': Dom(1e4, 1e5), 'y_pt': Dom(0, 300), 'f_p_lx': Dom(1e5, 3e6), 'f_p_lx_dx': Dom(0, 1e3)}


def sub(d, *names):
    return {k: d[k] for k in names}


SHEAR = {
    'epsilon_x': ({'z': BASE['z'], **ST}, 2),
    'eta_fc': {'fck': FCKP},
    'create_load_dict': {'Med': Dom(-1e8, 1e8), 'Ved': Dom(0, 1e6), 'Ned': Dom(-1e6, 1e6), 'delta_e': Dom(-50, 50)},
    'v_rdc': ({'approx_lvl': LV, **BASE, 'dg': DG, **ST, 'alpha': ALPHA, 'gamma_c': GC, '_fix': fix_ult}, 4),
    'v_rdc_approx1': ({**BASE, 'gamma_c': GC}, 1),
    'v_rdc_approx2': ({**BASE, 'dg': DG, **ST, 'gamma_c': GC}, 2),
    'v_rdc_approx3': ({'approx_lvl': 3, **BASE, **ST, 'alpha': ALPHA, 'gamma_c': GC, '_fix': fix_ult}, 2),
    'v_rds': ({**SW, 'z': BASE['z'], 'theta': Opt(THETA, 0.8), 'alpha': ALPHA, 'gamma_s': Opt(Dom(1, 1.3, [1.15]))}, 2),
    'v_rd_max': ({'approx_lvl': LV, **BASE, 'theta': THETA, **ST, 'alpha': ALPHA, 'gamma_c': GC, '_fix': fix_ult}, 4),
    'v_rd_max_approx1': {**BASE, 'theta': THETA, 'alpha': ALPHA, 'gamma_c': GC},
    'v_rd_max_approx2': ({**BASE, 'theta': THETA, **ST, 'alpha': ALPHA, 'gamma_c': GC}, 2),
    'v_rd_max_approx3': {**BASE, **ST, 'alpha': ALPHA, 'gamma_c': GC, '_fix': fix_ult},
    'v_rd': ({'approx_lvl': LV, 'with_shear_reinforcment': Choice(True, True, False), **BASE, 'dg': DG, **ST, **SW, 'theta': THETA,
              'alpha': ALPHA, 'gamma_c': GC, 'gamma_s': Opt(Dom(1, 1.3, [1.15])), '_fix': fix_ult}, 12),
    'v_rd_ct': ({'approx_lvl_h': Choice(1, 2, 1, 2, 1, 2, 3), **CT}, 2),
    'v_rd_ct_approx1': sub(CT, 'f_ctd', 'i_c', 's_c', 'b_w', 'sigma_cp', 'l_x', 'l_bd0'),
    'v_rd_ct_approx2': {k: v for k, v in CT.items() if k not in ('s_c', 'b_w', 'sigma_cp')},
}


def fix_trd(kw, r):
    kw = fix_ult(kw, r)
    return kw


def one_of(kw, r):
    """Mostly one place of the column, sometimes none."""
    ks = ['inner', 'edge_par', 'edge_per', 'corner']
    p = r.choice(ks + [None])
    for k in ks:
        kw[k] = k == p
    if p in ('edge_par', 'corner'):
        kw['e_u'] = abs(kw['e_u'])
    return kw


TF = Choice(True, False)
OTHER = {
    'v_ed_ti': {'t_ed': Dom(1e5, 1e9, log=True), 'a_k': Dom(1e4, 1e6), 'z_i': Dom(100, 1500)},
    't_rd_max': ({'f_ck': FCKP, 'd_k': Dom(100, 1000), 'a_k': Dom(1e4, 1e6), 'theta': THETA, 'approx_lvl': Choice(1, 2, 3), 'z': BASE['z'], **ST,
                  'gamma_c': GC, '_fix': fix_ult}, 3),
    't_rd': ({'t_ed': Dom(1e6, 1e9, log=True), 'approx_lvl': Choice(1, 2, 3), **BASE, 'theta': THETA, **ST, 'd_k': Dom(100, 1000), 'a_k': Dom(1e4, 1e6),
              'alpha': ALPHA, 'gamma_c': GC, '_fix': fix_trd}, 6),
    'b_0': {'v_ed': Dom(1e4, 1e6), 'v_prep_d_max': Dom(10, 1e4)},
    'b_s': ({'l_x': Dom(1e3, 2e4), 'l_y': Dom(500, 2e4)}, 2),
    'm_ed': ({'v_ed': Dom(1e4, 1e6), 'e_u': Dom(-500, 1500, [0]), 'b_s': Dom(500, 4000), 'inner': 0, 'edge_par': 0, 'edge_per': 0, 'corner': 0, '_fix': one_of}, 4),
    'b_sr': {'l_x': Dom(1e3, 2e4), 'l_y': Dom(1e3, 2e4)},
    'r_s': ({'l_x': Dom(1e3, 2e4), 'l_y': Dom(1e3, 2e4), 'x_direction': TF, 'is_level_three_approximation': Opt(TF, 0.7), 'column_edge_or_corner': Opt(TF, 0.7),
             'b_sr': Opt(Dom(100, 8000), 0.7)}, 4),
    'psi_punching_level_one': {'l_x': Dom(1e3, 2e4), 'l_y': Dom(1e3, 2e4), 'f_yd': Dom(200, 600), 'd_eff': Dom(80, 1000), 'e_s': Choice(200000, 1.95e5)},
    'psi_punching_level_two': ({'r_s': Dom(200, 4000), 'f_yd': Dom(200, 600), 'd_eff': Dom(80, 1000), 'e_s': Choice(200000, 1.95e5), 'm_ed': Dom(100, 200),
                                'm_rd': Dom(100, 300), 'm_Pd': Opt(Dom(0, 50))}, 2),
    'psi_punching_level_three': ({'psi_punching_level_two': Dom(0, 0.05), 'is_uncracked_model': Opt(TF, 0.8), 'is_moment_from_uncracked_model': Opt(TF, 0.8)}, 2),
    'psi_punching': ({'psi_punching_level_one': Dom(0, 0.05), 'psi_punching_level_two': Dom(0, 0.05), 'psi_punching_level_three': Dom(0, 0.05), 'approx_lvl_p': LV}, 2),
    'k_dg': ({'d_g': DG}, 1),
    'k_psi': ({'k_dg': Dom(0.75, 2), 'd_eff': Dom(80, 1000), 'psi_punching': Dom(1e-5, 0.05, log=True)}, 2),
    'v_rdc_punching': {'k_psi_val': Dom(0, 0.6), 'b_0': Dom(500, 5000), 'd_v': Dom(80, 1000), 'f_ck': FCKP, 'gamma_c': GC},
    'sigma_swd': ({'e_s': Choice(200000, 1.95e5), 'psi_punching': Dom(1e-5, 0.03, log=True), 'alpha': Dom(45, 90, [45, 90]), 'f_bd': Dom(1, 5), 'd_eff': Dom(80, 1000),
                   'f_ywd': Dom(200, 500), 'phi_w': Dom(6, 20)}, 3),
    'v_rds_punching': ({'f_ywd': Dom(200, 500), 'e_u': Dom(0, 500, [0]), 'b_u': Dom(500, 4000), 'alpha': Dom(45, 90, [45, 90]), 'sigma_swd': Dom(50, 500), 'a_sw': Dom(100, 5000, log=True),
                        'v_ed': Dom(1e4, 1e6, log=True)}, 3),
    'v_rd_max_punching': ({'d_v': Dom(80, 1000), 'f_ck': FCKP, 'd_head': TF, 'stirrups_compression': TF, 'b0_val': Dom(500, 5000), 'k_psi_val': Dom(0.01, 0.6), 'gamma_c': GC}, 3),
    'v_rd_punching': ({'v_rd_c': Dom(0, 1e6), 'v_rd_s': Dom(0, 1e6), 'v_rd_max': Dom(0, 2e6)}, 1),
    'tau_edi': {'beta': Dom(0.1, 1), 'v_ed': Dom(1e3, 1e6), 'z': Dom(100, 1000), 'b_i': Dom(100, 1000)},
    'tau_rdi_without_reinforcement': ({'c_a': Dom(0.02, 0.5), 'f_ctd': Dom(0.5, 3), 'mu': Dom(0.5, 1.4), 'sigma_n': Dom(0, 20, [0]), 'f_ck': FCKP, 'f_cd': Dom(8, 60)}, 4),
    'tau_rdi_with_reinforcement': ({'c_r': Dom(0, 0.2), 'k1': Dom(0, 0.5), 'k2': Dom(0, 1.5), 'mu': Dom(0.5, 1.4), 'ro': Dom(0, 0.05), 'sigma_n': Dom(0, 10, [0]),
                                    'alpha': Dom(45, 135, [45, 90]), 'beta_c': Dom(0.3, 0.5), 'f_ck': FCKP, 'f_yd': Dom(200, 600), 'f_cd': Dom(8, 60)}, 5),
    'eta_2': {'bond': Choice('good', 'other', 'Good', 'OTHER', 'GOOD', 'Other', 'bad', '')},
    'tau_bu_split': ({'eta_2': Choice(1, 0.7), 'f_cm': Dom(15, 110), 'phi': Dom(6, 40), 'c_min': Dom(10, 80), 'c_max': Dom(20, 200), 'k_m': Choice(0, 6, 12), 'K_tr': Dom(0, 0.05)}, 2),
    'K_tr': ({'n_t': Choice(1, 2, 4), 'A_st': Dom(20, 400), 'n_b': Choice(1, 2, 4), 'phi': Dom(6, 40), 's_t': Dom(50, 300)}, 2),
    'tau_bmax': {'bond': Choice('good', 'other', 'Good', 'OTHER', 'bad'), 'f_cm': Dom(15, 110)},
    's_1': {'bond': Choice('good', 'other', 'Good', 'OTHER', 'bad')}, 's_2': {'bond': Choice('good', 'other', 'Good', 'OTHER', 'bad')},
    's_3': ({'failmod': Choice('PO', 'SP', 'po', 'Sp', 'sp', 'x'), 'bond': Choice('good', 'other', 'Good', 'bad'), 'confinement': Choice('unconfined', 'stirrups', 'Unconfined', 'STIRRUPS', 'unconfined', 'stirrups', 'x', None),
             'c_clear': Dom(5, 20), 's_1': Dom(0.5, 2)}, 4),
    's_tau_bu_split': {'tau_bmax': Dom(5, 30), 'tau_bu_split': Dom(3, 30), 'alpha': Dom(0.2, 1, [0.4]), 's_1': Choice(1, 1.8)},
    'f_stm': ({'f_cm': Dom(10, 120, [15, 110]), 'phi': Dom(6, 40, [16]), 'l_b': Dom(50, 2000), 'c_min': Dom(4, 100, [8, 56]), 'c_max': Dom(8, 300), 'k_m': Choice(0, 6, 12),
               'K_tr': Dom(0, 0.06, [0.05])}, 5),
    'tau_yield': {'f_y': Dom(200, 700), 'l_b': Dom(50, 2000), 'phi': Dom(6, 40)},
}


def fix_fstm(kw, r):
    if r.random() < 0.7:
        kw['phi'] = r.choice([8, 16, 20.0, 32])
        kw['c_min'] = kw['phi'] * r.choice([0.5, 3.5, 1, 2, 0.499, 3.501])
        kw['c_max'] = kw['c_min'] * r.choice([1, 5, 2, 0.999, 5.001])
        kw['f_cm'] = r.choice([15, 110, 28, 38.5])
    return kw


OTHER['f_stm'][0]['_fix'] = fix_fstm


def events(c, table, n):
    import structuralcodes.codes.mc2010 as mod

    return run_table(c, mod, 'mc2010', table, n, c.rng)


def p_materials(c):
    c.judge('Trace_MC2010', events(c, MATERIALS, c.n(400, 9000)))


def p_creep(c):
    import structuralcodes.codes.mc2010 as mod

    c.judge('Trace_MC2010', events(c, CREEP, c.n(400, 9000)) + t_t(mod, c.n(600, 9000), c.rng))


def p_resist(c):
    c.judge('Trace_MC2010', events(c, SHEAR, c.n(400, 9000)) + events(c, OTHER, c.n(350, 8000)))
