from .common import *
import numpy as np
import itertools
import re

check = Check('F02', assumptions=[
    'Euler angle / exponential map / matrix conversions and beam-vector conversions enter through their contracts (decided in R01, R04, D01)',
    'lmfit.Parameters is a mapping of names to objects with value, vary, min, max, expr (external)'])
H = 'hexrd.core.fitting.calibration.lmfit_param_handling:'
RC = 'hexrd.core.fitting.calibration.relative_constraints:'
AG = 'hexrd.core.fitting.calibration.abstract_grain:AbstractGrainCalibrator'
HI = 'hexrd.core.instrument.hedm_instrument:HEDMInstrument'
R_ = 'hexrd.core.rotations:'
CONVENTIONS = (None, ('xyz', True), ('zxz', False), {'axes_order': 'xyz', 'extrinsic': True}, {'axes_order': 'zxz', 'extrinsic': False})
SUFFIX = {None: ('expmap_x', 'expmap_y', 'expmap_z'), ('xyz', True): ('euler_x', 'euler_y', 'euler_z'), ('zxz', False): ('euler_z', 'euler_xp', 'euler_zpp')}


def norm(c):
    return (c['axes_order'], c['extrinsic']) if isinstance(c, dict) else c


class Par:
    def __init__(self, value, vary=True, mn=None, mx=None):
        self.value, self.vary, self.min, self.max, self.expr = value, vary, mn, mx, None

    def __symbolic__(self):
        return self.value


class Params(dict):
    def add(self, name, value=None, vary=True, min=None, max=None, expr=None):
        self[name] = Par(value, vary, min, max)


class Lmfit:
    Parameters = Params
    Parameter = Par


class Pose:
    """an orientation that the code moves around but never looks into: stands for tilt values of that matrix"""

    def __init__(self, m):
        self.m = m

    def __setitem__(self, k, w):
        assert k == slice(None)
        self.m = w.m


def qmat(q):
    w, x, y, z = q
    return [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]


def arr(m):
    return snp.asarray([list(r) for r in m]) if isinstance(m[0], (list, tuple)) else snp.asarray(list(m))


def mv(m, x):
    return [dot(r, x) for r in m]


class Stub:
    """panel whose tilt is known by the matrix it stands for"""

    def __init__(self, R, t):
        self.rmat, self.tvec = R, t

    @property
    def tilt(self):
        return Pose(self.rmat)

    @tilt.setter
    def tilt(self, p):
        self.rmat = p.m


def rig(v, n, centred):
    """n panels as left by any earlier history of updates: initial poses moved by the accumulated rotation about a centre and then the accumulated translation"""
    q, p = list(v.reals('q', (4,)).a), list(v.reals('p', (4,)).a)
    Rc, Rn = qmat(q), qmat(p)
    T, Tn = list(v.reals('T', (3,)).a), list(v.reals('N', (3,)).a)
    R0 = [v.reals(f'R{k}', (3, 3)).a.tolist() for k in range(n)]
    t0 = [list(v.reals(f't{k}', (3,)).a) for k in range(n)]
    if centred:
        c = [sum_([t[j] for t in t0]) / num(n) for j in range(3)]
    else:
        c = [num(0, 'R')] * 3
    Rs = [matmul(Rc, R) for R in R0]
    ts = [[a + b + d for a, b, d in zip(mv(Rc, [x - y for x, y in zip(t, c)]), c, T)] for t in t0]
    return dict(q=q, p=p, Rc=Rc, Rn=Rn, T=T, Tn=Tn, R0=R0, t0=t0, c=c, Rs=Rs, ts=ts, rel=unit_rel(q) + unit_rel(p), hyp=[unit_hyp(q), unit_hyp(p)])


@check.obligations('one constrained update: panels end at the pose given by the new parameter values alone, whatever the history; nothing else moves', [H + '_update_constrained_detector_parameters'])
def _(v):
    n = 2
    for conv in CONVENTIONS:
        for varies in ((0, 0), (1, 0), (0, 1), (1, 1)):
            for centred in (True, False):
                if (centred is False or conv is not CONVENTIONS[3]) and conv not in (None, ('xyz', True)) and varies != (1, 1):
                    continue
                g = rig(v, n, centred)
                seen = []

                def to_rmat(tilt, ec, g=g, conv=conv, seen=seen):
                    if isinstance(tilt, Pose):
                        assert ec is None
                        return arr(tilt.m)
                    assert ec == conv, ec
                    seen.append(tilt)
                    return arr(g['Rn'])
                f = v.lift(H + '_update_constrained_detector_parameters', contracts={H + '_tilt_to_rmat': to_rmat, H + '_rmat_to_tilt': lambda m: Pose(m)}, new=True)
                names = SUFFIX[norm(conv)]
                A = v.reals('a', (3,))
                for which in (0, 1, 2):
                    par = Params({f'pre_{s}': Par(A.a[k], bool(varies[0]) and k == which) for k, s in enumerate(names)})
                    par.update({f'pre_tvec_{s}': Par(g['Tn'][k], bool(varies[1]) and k == which) for k, s in enumerate('xyz')})

                    def go():
                        panels = [Stub(arr(R), arr(t)) for R, t in zip(g['Rs'], g['ts'])]
                        cp = {'translation': arr(g['T']), 'tilt': Pose(arr(g['Rc']))}
                        seen.clear()
                        f(panels, par, arr([x + y for x, y in zip(g['c'], g['T'])]), conv, 'pre', cp)
                        return panels, cp, list(seen)
                    for o in v.run(go):
                        panels, cp, se = o.value
                        nm = f'{norm(conv)} {"dict" if isinstance(conv, dict) else ""} varies {varies} entry {which} centred {centred}'
                        Rw = g['Rn'] if varies[0] else g['Rc']
                        Tw = g['Tn'] if varies[1] else g['T']
                        h = g['hyp'] + o.pc
                        for s in se:
                            v.eq_arrays(nm + ' tilt angles in the order of the convention', h, s, A)
                        v.eq_arrays(nm + ' stored tilt', h, arr(cp['tilt'].m), arr(Rw), relations=g['rel'])
                        v.eq_arrays(nm + ' stored translation', h, cp['translation'], arr(Tw), relations=g['rel'])
                        for k in range(n):
                            v.eq_arrays(nm + f' orientation {k}', h, panels[k].rmat, arr(matmul(Rw, g['R0'][k])), relations=g['rel'])
                            w = [a + b + d for a, b, d in zip(mv(Rw, [x - y for x, y in zip(g['t0'][k], g['c'])]), g['c'], Tw)]
                            v.eq_arrays(nm + f' position {k}', h, panels[k].tvec, arr(w), relations=g['rel'])
                        if which:
                            break
                    if not any(varies) or conv is not None or not centred:
                        break


class Inst:
    def __init__(self, **k):
        self.__dict__.update(k)


@check.obligations('centre handed to the constrained update: the mean of the panels concerned, or the lab origin carried by the accumulated translation', [
    H + 'update_system_constrained_detector_parameters', H + 'update_group_constrained_detector_parameters',
    RC + 'RelativeConstraintsSystem.center_of_rotation', RC + 'RelativeConstraintsGroup.center_of_rotation', HI + '.mean_detector_center', HI + '.mean_group_center'])
def _(v):
    from hexrd.core.fitting.calibration.relative_constraints import RotationCenter
    calls = []
    c = {H + '_update_constrained_detector_parameters': lambda *a: calls.append(a)}
    lf = v.lift(H + 'update_system_constrained_detector_parameters', contracts=c, new=True)
    lg = v.lift(H + 'update_group_constrained_detector_parameters', contracts=c, new=True)
    S, G, I = v.lift(RC + 'RelativeConstraintsSystem'), v.lift(RC + 'RelativeConstraintsGroup'), v.lift(HI)
    g = rig(v, 3, True)
    t = [list(v.reals(f'u{k}', (3,)).a) for k in range(5)]
    T = v.reals('T', (3,))
    par = object()

    def instr(groups, pos):
        i = object.__new__(I)
        i._detectors = {f'd{k}': Inst(tvec=arr(p), group=gr) for k, (p, gr) in enumerate(zip(pos, groups))}
        return i

    def mean(ps):
        return [sum_([p[j] for p in ps]) / num(len(ps)) for j in range(3)]
    for center in (RotationCenter.instrument_mean_center, RotationCenter.lab_origin):
        def go():
            calls.clear()
            i, s = instr([None] * 5, t), S()
            s._params = {'translation': T, 'tilt': Pose(None)}
            s.rotation_center = center
            lf(i, par, ('xyz', True), s)
            return i, s, list(calls)
        for o in v.run(go):
            i, s, cs = o.value
            v.require(f'system {center.value} one call', len(cs) == 1, str(len(cs)))
            det, pp, ctr, conv, prefix, cp = cs[0]
            v.require(f'system {center.value} arguments', det == list(i._detectors.values()) and pp is par and conv == ('xyz', True) and prefix == 'system' and cp is s.params, '')
            v.eq_arrays(f'system {center.value} centre', o.pc, ctr, arr(mean(t)) if center == RotationCenter.instrument_mean_center else T)
    groups = ['g-1', 'h', 'g-1', None, 'h']
    U = v.reals('U', (3,))
    for center in (RotationCenter.group_mean_center, RotationCenter.lab_origin):
        def go():
            calls.clear()
            i = instr(groups, t)
            s = G(i)
            s.group_params['g-1']['translation'] = T
            s.group_params['h']['translation'] = U
            s.rotation_center = center
            lg(i, par, None, s)
            return i, s, list(calls)
        for o in v.run(go):
            i, s, cs = o.value
            v.require(f'group {center.value}: one call per group', [x[4] for x in cs] == ['g_1', 'h'], str([x[4] for x in cs]))
            for x, name, own in zip(cs, ('g-1', 'h'), ((0, 2), (1, 4))):
                v.require(f'group {center.value} {name} arguments', x[0] == [i._detectors[f'd{k}'] for k in own] and x[1] is par and x[3] is None and x[5] is s.params[name], '')
                v.eq_arrays(f'group {center.value} {name} centre', o.pc, x[2], arr(mean([t[k] for k in own])) if center == RotationCenter.group_mean_center else (T if name == 'g-1' else U))
    # the mean of panels left by any history is the initial mean plus the accumulated translation (closes the induction)
    for o in v.run(lambda: instr(['g'] * 3, g['ts']).mean_detector_center):
        v.eq_arrays('mean of the panels follows the accumulated translation', g['hyp'] + o.pc, o.value, arr([a + b for a, b in zip(g['c'], g['T'])]), relations=g['rel'])
    for o in v.run(lambda: instr(['g'] * 3, g['ts']).mean_group_center('g')):
        v.eq_arrays('mean of a group follows the accumulated translation', g['hyp'] + o.pc, o.value, arr([a + b for a, b in zip(g['c'], g['T'])]), relations=g['rel'])
    for o in v.run(lambda: (S(), G(instr(groups, t)))):
        s, q = o.value
        for name, d in [('system', s.params)] + list(q.params.items()):
            for k in ('translation', 'tilt'):
                v.eq_arrays(f'constraints start at zero: {name} {k}', o.pc, d[k], arr([num(0, 'R')] * 3))


class Panel:
    def __init__(self, v, name, n_dist, cyl):
        self.tilt, self.tvec, self.rmat = v.reals(name + 'tilt', (3,)), v.reals(name + 't', (3,)), ('rmat', name)
        self.detector_type = 'Cylindrical' if cyl else 'planar'
        self.group = None
        if cyl:
            self.radius = v.reals(name + 'rad')
        self.distortion = Inst(params=v.reals(name + 'dp', (n_dist,))) if n_dist else None


def instrument(v, multi, corr):
    names = ['XRS1', 'X-2'] if multi else ['XRS1']
    beams = {}
    for k, b in enumerate(names):
        beams[b] = {'energy': v.reals(b + 'E'), 'vector': ('vector', b), 'distance': 7, 'energy_correction': {'axis': 'x', 'intercept': v.reals(b + 'ic'), 'slope': v.reals(b + 'sl')} if corr[k] else None}
    dets = {'A': Panel(v, 'A', 12, False), 'B-A': Panel(v, 'BA', 6, True), 'C_': Panel(v, 'C', 0, True), 'IMAGE-PLATE-2': Panel(v, 'I', 0, False)}
    log = []
    return Inst(beam_dict=beams, has_multi_beam=multi, chi=v.reals('chi'), tvec=v.reals('s', (3,)), detectors=dets, log=log, beam_dict_modified=lambda: log.append({k: dict(b) for k, b in beams.items()}))


def euler_contracts(v, conv):
    """conversions by contract: each orientation has its angles, and these give the orientation back"""
    made = {}

    class Rme:
        def __init__(self, angles, axes_order=None, extrinsic=None, units='radians'):
            assert (axes_order, extrinsic) == norm(conv) and units == 'radians', (axes_order, extrinsic)

        @property
        def rmat(self):
            return ('made', id(self._a))

        @rmat.setter
        def rmat(self, r):
            self.r = r
            made[r] = v.reals(f'ang_{r[1]}', (3,))

        @property
        def angles(self):
            return made[self.r]
    return Rme, made


def azim(vec, beams=None):
    return (sym('az_' + vec[1]), sym('po_' + vec[1]))


def make_euler(log, conv):
    def f(angles, axes_order=None, extrinsic=None):
        assert (axes_order, extrinsic) == norm(conv), (axes_order, extrinsic)
        log.append(angles)
        return ('matrix', len(log) - 1)
    return f


DEG = num(180, 'R') / PI


@check.obligations('instrument parameters: every quantity under its own name with its own value and bounds around it', [
    H + 'create_instr_params', H + 'add_unconstrained_detector_parameters', H + 'create_beam_param_names', H + 'detector_angles_euler', H + 'param_names_euler_convention', H + 'normalize_euler_convention'])
def _(v):
    for conv, (multi, corr) in itertools.product(CONVENTIONS, ((False, (False,)), (False, (True,)), (True, (True, False)), (True, (False, True)))):
        Rme, made = euler_contracts(v, conv)
        f = v.lift(H + 'create_instr_params', contracts={'hexrd.core.rotations:RotMatEuler': Rme, 'hexrd.core.instrument.hedm_instrument:calc_angles_from_beam_vec': azim}, overrides={(H[:-1], 'RotMatEuler'): Rme, (H[:-1], 'calc_angles_from_beam_vec'): azim}, new=True)
        nm = f'{norm(conv)} {"dict" if isinstance(conv, dict) else ""} beams {corr} '
        for o in v.run(lambda: (lambda i: (i, f(i, conv)))(instrument(v, multi, corr))):
            i, ps = o.value
            want = {}
            for b, beam in i.beam_dict.items():
                pre = b.replace('-', '_') + '_' if multi else ''
                want[pre + 'beam_polar'] = (sym('po_' + b), 1)
                want[pre + 'beam_azimuth'] = (sym('az_' + b), 1)
                want[pre + 'beam_energy'] = (beam['energy'], tm.Fraction(1, 5))
                if beam['energy_correction']:
                    want[pre + 'beam_energy_correction_intercept'] = (beam['energy_correction']['intercept'], None)
                    want[pre + 'beam_energy_correction_slope'] = (beam['energy_correction']['slope'], None)
            want['instr_chi'] = (i.chi * DEG, 1)
            for k, s in enumerate('xyz'):
                want['instr_tvec_' + s] = (i.tvec.a[k], None)
            for d, p in i.detectors.items():
                dn = d.replace('-', '_')
                ang = [x for x in p.tilt.a] if conv is None else [x * DEG for x in v.reals(f'ang_{p.rmat[1]}', (3,)).a]
                for s, x in zip(SUFFIX[norm(conv)], ang):
                    want[f'{dn}_{s}'] = (x, 2)
                for k, (s, w) in enumerate((('x', 1), ('y', tm.Fraction(1, 2)), ('z', 1))):
                    want[f'{dn}_tvec_{s}'] = (p.tvec.a[k], w)
                if p.distortion is not None:
                    for k, x in enumerate(p.distortion.params.a):
                        want[f'{dn}_distortion_param_{k}'] = (x, None)
                if p.detector_type == 'Cylindrical':
                    want[f'{dn}_radius'] = (p.radius, None)
            v.require(nm + 'names', sorted(p[0] for p in ps) == sorted(want), str(set(p[0] for p in ps) ^ set(want)))
            for p in ps:
                if p[0] not in want:
                    continue
                x, w = want[p[0]]
                v.prove(nm + p[0], o.pc, eq(p[1], x))
                if w is None:
                    v.require(nm + p[0] + ' unbounded', p[3] == -np.inf and p[4] == np.inf, str(p[3:]))
                else:
                    v.prove(nm + p[0] + ' inside its bounds', o.pc, and_(lt(p[3], p[1]), lt(p[1], p[4])))


@check.obligations('instrument update: every named value lands in its own field and nowhere else', [
    H + 'update_instrument_from_params', H + 'update_unconstrained_detector_parameters', H + 'set_detector_angles_euler'])
def _(v):
    for conv, (multi, corr) in itertools.product(CONVENTIONS, ((False, (False,)), (False, (True,)), (True, (True, False)), (True, (False, True)))):
        log = []
        me = make_euler(log, conv)
        bv = lambda az, po: ('vec', az, po)
        ov = {(H[:-1], 'lmfit'): Lmfit, (H[:-1], 'make_rmat_euler'): me, (H[:-1], 'calc_beam_vec'): bv, (H[:-1], 'quatOfRotMat'): lambda r: ('q', r), (H[:-1], 'expMapOfQuat'): lambda q: ('e', q)}
        f = v.lift(H + 'update_instrument_from_params', overrides=ov, new=True)
        nm = f'{norm(conv)} {"dict" if isinstance(conv, dict) else ""} beams {corr} '
        names = []
        i0 = instrument(v, multi, corr)
        for b, beam in i0.beam_dict.items():
            pre = b.replace('-', '_') + '_' if multi else ''
            names += [pre + 'beam_polar', pre + 'beam_azimuth', pre + 'beam_energy']
            if beam['energy_correction']:
                names += [pre + 'beam_energy_correction_intercept', pre + 'beam_energy_correction_slope']
        names += ['instr_chi'] + ['instr_tvec_' + s for s in 'xyz']
        for d, p in i0.detectors.items():
            dn = d.replace('-', '_')
            names += [f'{dn}_{s}' for s in SUFFIX[norm(conv)]] + [f'{dn}_tvec_{s}' for s in 'xyz']
            if p.distortion is not None:
                names += [f'{dn}_distortion_param_{k}' for k in range(len(p.distortion.params.a))]
            if p.detector_type == 'Cylindrical':
                names += [f'{dn}_radius']
        N = {n: sym('new_' + n) for n in names}
        for rev in (False, True):
            par = Params({n: Par(N[n]) for n in (reversed(names) if rev else names)})

            def go():
                log.clear()
                i = instrument(v, multi, corr)
                f(i, par, conv)
                return i, list(log)
            for o in v.run(go):
                i, lg = o.value
                for b, beam in i.beam_dict.items():
                    pre = b.replace('-', '_') + '_' if multi else ''
                    v.prove(nm + b + ' energy', o.pc, eq(beam['energy'], N[pre + 'beam_energy']))
                    v.require(nm + b + ' vector', beam['vector'][0] == 'vec', str(beam['vector']))
                    v.prove(nm + b + ' vector', o.pc, and_(eq(beam['vector'][1], N[pre + 'beam_azimuth']), eq(beam['vector'][2], N[pre + 'beam_polar'])))
                    v.require(nm + b + ' distance untouched', beam['distance'] == 7, '')
                    if i0.beam_dict[b]['energy_correction']:
                        v.prove(nm + b + ' energy correction', o.pc, and_(eq(beam['energy_correction']['intercept'], N[pre + 'beam_energy_correction_intercept']), eq(beam['energy_correction']['slope'], N[pre + 'beam_energy_correction_slope'])))
                        v.require(nm + b + ' energy correction axis untouched', beam['energy_correction']['axis'] == 'x', '')
                    else:
                        v.require(nm + b + ' no energy correction', beam['energy_correction'] is None, '')
                ok = len(i.log) >= 1 and all(i.log[-1][b][k] is i.beam_dict[b][k] for b in i.beam_dict for k in ('energy', 'vector', 'energy_correction'))
                v.require(nm + 'beam change announced after it is made', ok, str(len(i.log)))
                v.prove(nm + 'chi', o.pc, eq(i.chi * DEG, N['instr_chi']))
                v.eq_arrays(nm + 'stage', o.pc, i.tvec, arr([N['instr_tvec_' + s] for s in 'xyz']))
                for d, p in i.detectors.items():
                    dn = d.replace('-', '_')
                    ang = arr([N[f'{dn}_{s}'] for s in SUFFIX[norm(conv)]])
                    if conv is None:
                        v.eq_arrays(nm + d + ' tilt', o.pc, p.tilt, ang)
                    else:
                        ok = isinstance(p.tilt, tuple) and p.tilt[0] == 'e' and p.tilt[1][0] == 'q' and p.tilt[1][1][0] == 'matrix'
                        v.require(nm + d + ' tilt through the matrix', ok, str(p.tilt)[:80])
                        v.eq_arrays(nm + d + ' euler angles', o.pc, lg[p.tilt[1][1][1]], arr([x / DEG for x in ang.a]))
                    v.eq_arrays(nm + d + ' position', o.pc, p.tvec, arr([N[f'{dn}_tvec_{s}'] for s in 'xyz']))
                    if p.distortion is not None:
                        n = len(i0.detectors[d].distortion.params.a)
                        v.require(nm + d + ' distortion length', snp.asarray(p.distortion.params).shape == (n,), '')
                        v.eq_arrays(nm + d + ' distortion', o.pc, p.distortion.params, arr([N[f'{dn}_distortion_param_{k}'] for k in range(n)]))
                    if p.detector_type == 'Cylindrical':
                        v.prove(nm + d + ' radius', o.pc, eq(p.radius, N[f'{dn}_radius']))


LATTICES = {'triclinic': 'abcABC', 'monoclinic': 'abcB', 'orthorhombic': 'abc', 'tetragonal': 'ac', 'trigonal': 'ac', 'hexagonal': 'ac', 'cubic': 'a'}
LP = {'a': ('a', 0), 'b': ('b', 1), 'c': ('c', 2), 'A': ('alpha', 3), 'B': ('beta', 4), 'C': ('gamma', 5)}


@check.obligations('material parameters: the independent lattice parameters in angstrom and degrees, and back', [H + 'create_material_params', H + 'update_material_from_params', 'hexrd.core.material.unitcell:unitcell.is_editable'])
def _(v):
    U = v.lift('hexrd.core.material.unitcell:unitcell')
    cr, up = v.lift(H + 'create_material_params'), v.lift(H + 'update_material_from_params')
    for lat, free in LATTICES.items():
        def mat():
            class C(U):
                latticeType = lat
            return Inst(name='My-mat', lparms=v.reals('lp', (6,)), unitcell=object.__new__(C), planeData=Inst(wavelength=v.reals('lam')))
        for refs in (None, [bool(k % 2) for k in range(len(free))]):
            for o in v.run(lambda: (lambda m: (m, cr(m, refs)))(mat())):
                m, ps = o.value
                lp = v.reals('lp', (6,)).a
                v.require(f'{lat} names', [p[0] for p in ps] == ['My_mat_' + LP[k][0] for k in free], str([p[0] for p in ps]))
                for k, p in zip(free, ps):
                    v.prove(f'{lat} {k} value', o.pc, eq(p[1], lp[LP[k][1]] * (10 if LP[k][1] < 3 else 1)))
                    v.prove(f'{lat} {k} inside its bounds', o.pc, and_(lt(p[3], p[1]), lt(p[1], p[4])))
                v.require(f'{lat} refinement flags', [p[2] for p in ps] == (refs or [True] * len(free)), str([p[2] for p in ps]))
        N = {k: sym('new_' + LP[k][0]) for k in free}
        for E in (False, True):
            par = Params({'My_mat_' + LP[k][0]: Par(x) for k, x in N.items()})
            par['other_a'] = Par(sym('other'))
            if E:
                par['beam_energy'] = Par(sym('E'))
            for o in v.run(lambda: (lambda m: (m, up(par, m)))(mat())):
                m = o.value[0]
                got = snp.asarray(m.lparms)
                lp = v.reals('lp', (6,)).a
                for k, (name, j) in LP.items():
                    v.prove(f'{lat} update {k}', o.pc, eq(got.a[j], (N[k] / (10 if j < 3 else 1)) if k in N else lp[j]))
                v.prove(f'{lat} energy', o.pc, eq(m.planeData.wavelength, sym('E') if E else v.reals('lam')))


@check.obligations('grain parameters: twelve named values, written back in the same order', [
    H + 'create_grain_params', H + 'grain_param_names', AG + '.create_lmfit_params', AG + '.update_from_lmfit_params', AG + '.grain_params_euler'])
def _(v):
    class Rme:
        def __init__(self, a, axes_order=None, extrinsic=None):
            self.c = (axes_order, extrinsic)

    for conv in CONVENTIONS:
        class Rm(Rme):
            def __init__(self, a, axes_order=None, extrinsic=None, conv=conv):
                assert (axes_order, extrinsic) == norm(conv), (axes_order, extrinsic)

            @property
            def rmat(self):
                return ('of', self.angles)

            @rmat.setter
            def rmat(self, r):
                # the angles of the matrix of this exponential map
                self.angles = arr([tm.app('euler', *[L(x) for x in r[1].a], num(k)) for k in range(3)])

        class Xf:
            make_rmat_of_expmap = staticmethod(lambda e: ('exp', snp.asarray(e).copy()))
        ax = lambda r: (tm.app('phi', *[L(x) for x in r[1].a]), arr([[tm.app('axis', *[L(x) for x in r[1].a], num(k))] for k in range(3)]))
        mod = AG.split(':')[0]
        C = v.lift(AG, overrides={(mod, 'RotMatEuler'): Rm, (mod, 'xfcapi'): Xf, (mod, 'angleAxisOfRotMat'): ax}, new=True)

        class D(C):
            name = 'grain-1'
            type = 'g'

            def autopick_points(self):
                pass

            def residual(self):
                pass

            def model(self):
                pass
        g = v.reals('g', (12,))
        new = v.reals('n', (12,))
        refs = [bool(k % 3) for k in range(12)]

        def go(taken=()):
            d = D(Inst(detectors={}), None, g.copy(), default_refinements=refs, **({} if conv == ('zxz', False) else {'euler_convention': conv}))
            ps = d.create_lmfit_params([(n, 0) for n in taken])
            par = Params({p[0]: Par(x) for p, x in zip(ps, new.a)})
            d.update_from_lmfit_params(par)
            return d, ps
        for taken in ((), ('grain_1_grain_param_0', 'grain_1_grain_param_7')):
            nm = f'{norm(conv)} {"dict" if isinstance(conv, dict) else ""}{" taken" if taken else ""} '
            for o in v.run(lambda: go(taken)):
                d, ps = o.value
                v.require(nm + 'twelve different free names', len(ps) == 12 and len({p[0] for p in ps} | set(taken)) == 12 + len(taken), str([p[0] for p in ps]))
                v.require(nm + 'flags', [p[2] for p in ps] == refs, '')
                for k, p in enumerate(ps):
                    w = g.a[k] if conv is None or k > 2 else tm.app('euler', *g.a[:3], num(k)) * DEG
                    v.prove(nm + f'value {k}', o.pc, eq(p[1], w))
                    v.prove(nm + f'bounds {k}', o.pc, and_(lt(p[3], p[1]), lt(p[1], p[4])))
                got = snp.asarray(d.grain_params)
                v.require(nm + 'shape', got.shape == (12,), str(got.shape))
                rad = [x / DEG for x in new.a[:3]]
                for k in range(12):
                    w = new.a[k] if conv is None or k > 2 else tm.app('phi', *rad) * tm.app('axis', *rad, num(k))
                    v.prove(nm + f'written back {k}', o.pc, eq(got.a[k], w))


@check.obligations('grain constraints: strain to identity, position to the origin, y to zero: exactly these are set, inside their bounds, and held', [
    AG + '.fix_strain_to_identity', AG + '.fix_translation_to_origin', AG + '.fix_y_to_zero', 'hexrd.core.fitting.calibration.abstract_grain:force_param_value'])
def _(v):
    mod = AG.split(':')[0]
    lo, hi, val, w = v.reals('lo'), v.reals('hi'), v.reals('val'), v.reals('want')
    f = v.lift(mod + ':force_param_value')

    def one():
        p = Par(val, True, lo, hi)
        f(p, w)
        return p
    for o in v.run(one, [lt(lo, hi)]):
        p, h = o.value, o.pc + [lt(lo, hi)]
        v.prove('forced value set inside its bounds', h, and_(eq(p.value, w), le(p.min, w), le(w, p.max), lt(p.min, p.max), le(p.min, lo), le(hi, p.max)))
    calls = []

    def force(p, x):
        calls.append((p, x))
        p.value = x
    C = v.lift(AG, contracts={mod + ':force_param_value': force}, new=True)
    for what, own in (('fix_strain_to_identity', dict(zip(range(6, 12), (1, 1, 1, 0, 0, 0)))), ('fix_translation_to_origin', {3: 0, 4: 0, 5: 0}), ('fix_y_to_zero', {4: 0})):
        def go2():
            calls.clear()
            d = Inst(param_names=[f'n{k}' for k in range(12)])
            for n in ('orientation_param_names', 'translation_param_names', 'strain_param_names'):
                setattr(d, n, getattr(C, n).fget(d))
            ps = [Par(sym(f'v{k}')) for k in range(12)]
            getattr(C, what)(d, Params({f'n{k}': p for k, p in enumerate(ps)}))
            return ps, list(calls)
        for o in v.run(go2):
            ps, cs = o.value
            for k, p in enumerate(ps):
                if k in own:
                    v.prove(f'{what} {k}', o.pc, eq(p.value, own[k]))
                    v.require(f'{what} {k} held, bounds made to fit', p.vary is False and any(c[0] is p for c in cs), '')
                else:
                    v.require(f'{what} leaves {k}', p.value is sym(f'v{k}') and p.vary is True, '')


@check.obligations('TARDIS constraint: opposite plates end with an allowed distance, moved symmetrically, tied by the distance', [H + 'add_engineering_constraints'])
def _(v):
    f = v.lift(H + 'add_engineering_constraints')
    a, b = v.reals('y2'), v.reals('y4')
    lo, hi = num(tm.Fraction(2283, 100)), num(tm.Fraction(2343, 100))
    hy = [lt(a, num(0)), lt(num(0), b)]

    def go(c):
        p = Params({'IMAGE_PLATE_2_tvec_y': Par(a), 'IMAGE_PLATE_4_tvec_y': Par(b)})
        f(p, c)
        return p
    for o in v.run(lambda: go('TARDIS'), hy):
        p = o.value
        A, B, D = (p[n] for n in ('IMAGE_PLATE_2_tvec_y', 'IMAGE_PLATE_4_tvec_y', 'tardis_distance_between_plates'))
        h = hy + o.pc
        v.require('tied', B.expr is not None and A.expr is None and re.sub(r'\s', '', B.expr) == 'tardis_distance_between_plates-abs(IMAGE_PLATE_2_tvec_y)', str(B.expr))
        v.prove('bounds', h, and_(eq(D.min, lo), eq(D.max, hi)))
        v.prove('distance allowed', h, and_(le(lo, D.value), le(D.value, hi)))
        v.prove('distance of the plates', h, eq(L(B.value) - L(A.value), D.value))
        v.prove('moved symmetrically', h, eq(L(A.value) + L(B.value), a + b))
        v.prove('allowed distances are kept', h + [le(lo, b - a), le(b - a, hi)], and_(eq(A.value, a), eq(B.value, b)))
    for c in (None, 'None'):
        for o in v.run(lambda: go(c), hy):
            p = o.value
            v.require(f'{c}: nothing constrained', len(p) == 2 and p['IMAGE_PLATE_2_tvec_y'].value is a and p['IMAGE_PLATE_4_tvec_y'].value is b and p['IMAGE_PLATE_4_tvec_y'].expr is None, '')


@check.runtime('TARDIS constraint on lmfit parameters', [H + 'add_engineering_constraints'], n=60)
def _(t):
    import lmfit
    from hexrd.core.fitting.calibration.lmfit_param_handling import add_engineering_constraints
    for k in t.cases():
        c, w = float(t.rng.uniform(-1, 1)), [float(t.rng.uniform(15, 22.8)), float(t.rng.uniform(22.83, 23.43)), float(t.rng.uniform(23.5, 30)), 22.83, 23.43][k % 5]
        a, b = c - w / 2, c + w / 2
        for con in ('TARDIS', None, 'None'):
            p = lmfit.Parameters()
            p.add('IMAGE_PLATE_2_tvec_y', value=a)
            p.add('IMAGE_PLATE_4_tvec_y', value=b)
            add_engineering_constraints(p, con)
            A, B = p['IMAGE_PLATE_2_tvec_y'].value, p['IMAGE_PLATE_4_tvec_y'].value
            data = dict(plates=(a, b), got=(A, B), constraints=con)
            if con != 'TARDIS':
                t.close([A, B], [a, b], 'nothing constrained', **data)
                t.expect(len(p) == 2, 'nothing added', **data)
                continue
            W = min(max(w, 22.83), 23.43)
            t.close([A, B], [c - W / 2, c + W / 2], 'plates end with an allowed distance, moved symmetrically', atol=1e-9, **data)
            p['tardis_distance_between_plates'].value = 23.1
            t.close(p['IMAGE_PLATE_4_tvec_y'].value, 23.1 - abs(A), 'plates tied by their distance', **data)
            p['tardis_distance_between_plates'].value = 30.
            t.close(p['tardis_distance_between_plates'].value, 23.43, 'distance limited', **data)


def params_of(lst):
    import lmfit
    p = lmfit.Parameters()
    p.add_many(*lst)
    return p


@check.runtime('real instruments: creating and applying the parameters changes nothing; changed values reappear', [H + 'create_instr_params', H + 'update_instrument_from_params', HI], n=40, thorough=250)
def _(t):
    from hexrd.core.instrument import HEDMInstrument
    from hexrd.core.fitting.calibration import lmfit_param_handling as lph
    from .inst import rand_config, state, same
    import copy
    for it in t.cases():
        cfg = rand_config(t.rng, ints=it % 5 == 0)
        conv = CONVENTIONS[it % 5]
        i = HEDMInstrument(copy.deepcopy(cfg))
        before = state(i)
        ps = lph.create_instr_params(i, conv)
        lph.validate_params_list(ps)
        P = params_of(ps)
        lph.update_instrument_from_params(i, P, conv)
        # angles of the stage and panels go through degrees and, by convention, Euler angles
        same(t, state(i), before, 'round trip', 3e-8, config=cfg, convention=str(conv))
        for n in P:
            v = P[n].value
            P[n].set(min=-np.inf, max=np.inf)
            P[n].value = v + t.rng.normal() * .01 * (1 if 'distortion' not in n else .01)
        j = HEDMInstrument(copy.deepcopy(cfg))
        lph.update_instrument_from_params(j, P, conv)
        Q = params_of(lph.create_instr_params(j, conv))
        if not all(abs(abs(float(np.dot(b['vector'], [0, 1, 0]))) - 1) > 1e-6 for b in j.beam_dict.values()):
            continue
        k = HEDMInstrument(copy.deepcopy(cfg))
        lph.update_instrument_from_params(k, Q, conv)
        same(t, state(k), state(j), 'values written are the values read', 3e-7, config=cfg, convention=str(conv))
        for n in P:
            if not any(s in n for s in ('euler', 'expmap', 'azimuth', 'polar')):
                t.close(Q[n].value, P[n].value, f'{n} reappears', rtol=1e-10, atol=1e-10, config=cfg, convention=str(conv))
        # again: same state
        lph.update_instrument_from_params(k, Q, conv)
        same(t, state(k), state(j), 'applying twice', 3e-7, config=cfg, convention=str(conv))
        # beam changes reach every panel
        for d in j.detectors.values():
            t.close(d.bvec, j.beam_vector, 'panels use the beam of the instrument', rtol=1e-12, atol=1e-12)


@check.runtime('real instruments under relative constraints: poses depend on the parameter values, not on the updates before', [H + 'update_system_constrained_detector_parameters', H + 'update_group_constrained_detector_parameters'], n=40, thorough=250)
def _(t):
    from hexrd.core.instrument import HEDMInstrument
    from hexrd.core.fitting.calibration import lmfit_param_handling as lph
    from hexrd.core.fitting.calibration import relative_constraints as rc
    from .inst import rand_config, state, same
    import copy
    C = rc.RotationCenter
    modes = [(rc.RelativeConstraintsType.system, C.instrument_mean_center), (rc.RelativeConstraintsType.system, C.lab_origin), (rc.RelativeConstraintsType.group, C.group_mean_center), (rc.RelativeConstraintsType.group, C.lab_origin), (rc.RelativeConstraintsType.group, C.instrument_mean_center)]
    for it in t.cases():
        typ, center = modes[it % 5]
        conv = CONVENTIONS[(it // 5) % 5]
        cfg = rand_config(t.rng, n=3, ints=it % 4 == 0, groups=('g-1', 'h', None) if it % 5 < 4 else (('g-1',), ('g-1', 'h'))[it % 2])

        def fresh():
            i = HEDMInstrument(copy.deepcopy(cfg))
            c = rc.create_relative_constraints(typ, i)
            c.rotation_center = center
            return i, c
        i, c = fresh()
        start = state(i)
        P = params_of(lph.create_instr_params(i, conv, c))
        lph.update_instrument_from_params(i, P, conv, c)
        same(t, state(i), start, 'nothing moves at the initial values', 1e-7, config=cfg)

        def draw():
            Q = params_of(lph.create_instr_params(fresh()[0], conv, fresh()[1]))
            for n in Q:
                if any(n.startswith(x) for x in ('system', 'g_1', 'h_')):
                    Q[n].set(min=-np.inf, max=np.inf, vary=True)
                    Q[n].value = t.rng.normal() * (5 if 'tvec' in n else (.3 if conv is None else 20))
            return Q
        Q = [draw() for _ in range(3)]
        for q in Q:
            lph.update_instrument_from_params(i, q, conv, c)
        j, d = fresh()
        lph.update_instrument_from_params(j, Q[-1], conv, d)
        # expected poses from the definition
        par = Q[-1]
        det = list(j.detectors.items())
        mean = np.mean([start[n + ' tvec'] for n, _ in det], axis=0)
        for n, p in det:
            if typ == rc.RelativeConstraintsType.system:
                pre, own = 'system', [m for m, _ in det]
            elif p.group is None:
                pre = None
            else:
                pre, own = p.group.replace('-', '_'), [m for m, x in det if x.group == p.group]
            if pre is None:
                R, T, c0 = np.eye(3), np.zeros(3), np.zeros(3)
            else:
                a = [par[f'{pre}_{s}'].value for s in SUFFIX[norm(conv)]]
                R = euler_matrix(a, norm(conv))
                T = np.array([par[f'{pre}_tvec_{s}'].value for s in 'xyz'])
                c0 = np.zeros(3) if center == C.lab_origin else np.mean([start[m + ' tvec'] for m in own], axis=0)
            if center != C.instrument_mean_center or typ == rc.RelativeConstraintsType.system:
                for inst, what in ((j, 'one update'), (i, 'after other updates')):
                    q = inst.detectors[n]
                    t.close(q.rmat, R @ start[n + ' rmat'], f'{what}: orientation of the panel', rtol=0, atol=1e-7, panel=n, config=cfg, mode=str((typ, center)), convention=str(conv))
                    t.close(q.tvec, R @ (start[n + ' tvec'] - c0) + c0 + T, f'{what}: position of the panel', rtol=0, atol=1e-4, panel=n, config=cfg, mode=str((typ, center)), convention=str(conv))
            elif len({p.group for _, p in det if p.group}) == 1 and all(p.group for _, p in det):
                t.close(i.detectors[n].tvec, R @ (start[n + ' tvec'] - mean) + mean + T, 'one group about the instrument mean', rtol=0, atol=1e-4, panel=n, config=cfg)
        for n, p in det:
            t.close(i.detectors[n].tvec, p.tvec, 'history does not matter', rtol=0, atol=1e-4, finding='group-constraints-instrument-mean' if center == C.instrument_mean_center and typ == rc.RelativeConstraintsType.group else None, panel=n, config=cfg, mode=str((typ, center)))
        # held values leave the panels where they are
        k, e = fresh()
        q = draw()
        for n in q:
            q[n].vary = False
        lph.update_instrument_from_params(k, q, conv, e)
        for n, _ in det:
            t.close(k.detectors[n].tvec, start[n + ' tvec'], 'values that are held are not applied', rtol=0, atol=1e-9, panel=n)


def euler_matrix(a, conv):
    def ax(k, x):
        c, s = np.cos(x), np.sin(x)
        i, j = (k + 1) % 3, (k + 2) % 3
        m = np.eye(3)
        m[i, i] = m[j, j] = c
        m[i, j], m[j, i] = -s, s
        return m
    if conv is None:
        a = np.asarray(a)
        w = np.linalg.norm(a)
        if w == 0:
            return np.eye(3)
        k = a / w
        K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
        return np.eye(3) + np.sin(w) * K + (1 - np.cos(w)) * K @ K
    r = [ax('xyz'.index(s), np.radians(x)) for s, x in zip(conv[0], a)]
    return r[2] @ r[1] @ r[0] if conv[1] else r[0] @ r[1] @ r[2]


@check.runtime('real materials: dependent lattice parameters follow; the energy reaches the planes', [H + 'create_material_params', H + 'update_material_from_params'], n=12, thorough=60)
def _(t):
    from hexrd.core.material import Material
    from hexrd.core.fitting.calibration import lmfit_param_handling as lph
    groups = ((225, 1), (139, 2), (194, 2), (62, 3), (14, 4), (167, 2), (2, 6))
    for it in t.cases():
        sg, n = groups[it % len(groups)]
        m = Material('my-mat')
        m.sgnum = sg
        lp = {1: [3.6], 2: [3.1, 5.], 3: [3., 4., 5.], 4: [3., 4., 5., 101.], 6: [3., 4., 5., 80., 95., 100.]}[n]
        m.latticeParameters = lp
        was = m.lparms.copy()
        ps = lph.create_material_params(m)
        t.expect(len(ps) == n, 'one parameter per independent lattice parameter', names=str([p[0] for p in ps]))
        P = params_of(ps)
        lph.update_material_from_params(P, m)
        t.close(m.lparms, was, 'round trip of the lattice parameters', rtol=1e-12, atol=1e-12, sg=sg)
        for q in P:
            P[q].value += t.rng.uniform(-.09, .09)
        P.add('beam_energy', value=t.rng.uniform(20, 90))
        lph.update_material_from_params(P, m)
        red = [P[q].value for q in P if q != 'beam_energy']
        t.close(m.planeData.lparms, red, 'reflections follow the parameters', rtol=1e-10, atol=1e-10, sg=sg)
        full = {1: lambda a: [a[0]] * 3 + [90] * 3, 2: lambda a: [a[0], a[0], a[1], 90, 90, 120 if sg in (194, 167) else 90], 3: lambda a: a + [90] * 3, 4: lambda a: a[:3] + [90, a[3], 90], 6: list}[n](red)
        t.close(m.unitcell.lparms, np.array(full) * [.1, .1, .1, 1, 1, 1], 'unit cell follows the parameters', rtol=1e-10, atol=1e-10, sg=sg)
        t.close(m.lparms, np.array(full) * [.1, .1, .1, 1, 1, 1], 'material follows the parameters', rtol=1e-10, atol=1e-10, sg=sg)
        t.close(m.planeData.wavelength, 12.398419843320026 / P['beam_energy'].value, 'wavelength of the beam energy', rtol=1e-6, atol=0)


@check.runtime('names: no collisions, duplicates reported, reflections named and parsed back', [H + 'rename_to_avoid_collision', H + 'validate_params_list', 'hexrd.core.utils.hkl:hkl_to_str', 'hexrd.core.utils.hkl:str_to_hkl', AG + '.calibration_picks'], n=150, thorough=1500)
def _(t):
    from hexrd.core.fitting.calibration import lmfit_param_handling as lph
    from hexrd.core.utils.hkl import hkl_to_str, str_to_hkl
    from hexrd.core.fitting.calibration.instrument import InstrumentCalibrator
    pool = ['a', 'b', '1_a', '2_a', '1_1_a', '1_b', 'c']
    for it in t.cases():
        old = [(str(x), k) for k, x in enumerate(dict.fromkeys(t.rng.choice(pool, t.rng.integers(0, 6))))]
        new = [(str(x), k, True, -1) for k, x in enumerate(dict.fromkeys(t.rng.choice(pool, t.rng.integers(0, 6))))]
        ps, mp = lph.rename_to_avoid_collision(new, old)
        names = [p[0] for p in ps] + [o[0] for o in old]
        t.expect(len(set(names)) == len(names), 'names stay different', old=str(old), new=str(new), got=str(ps))
        t.expect([p[1:] for p in ps] == [p[1:] for p in new], 'values keep their order', old=str(old), new=str(new))
        t.expect(mp == {p[0]: q[0] for p, q in zip(new, ps)}, 'mapping from old to new names', got=str(mp))
        taken = {o[0] for o in old}
        t.expect(not new or new[0][0] in taken or ps[0][0] == new[0][0], 'a free name is kept', old=str(old), new=str(new), got=str(ps))
        dup = [(str(x), 0) for x in t.rng.choice(pool, t.rng.integers(1, 6))]
        bad = len({d[0] for d in dup}) < len(dup)
        if bad:
            t.raises(lph.LmfitValidationException, lambda: lph.validate_params_list(dup), 'duplicate names are reported', names=str(dup))
        else:
            lph.validate_params_list(dup)
        h = [int(x) for x in t.rng.integers(-30, 30, 3)]
        t.expect(list(str_to_hkl(hkl_to_str(h))) == h and list(str_to_hkl(hkl_to_str(np.array(h)))) == h, 'reflection names parse back', hkl=h, text=hkl_to_str(h))
        if it == 0:
            ic = object.__new__(InstrumentCalibrator)
            ic._engineering_constraints = None
            try:
                ic.engineering_constraints = 'nonsense'
                t.expect(False, 'unknown engineering constraints are refused')
            except Exception as e:
                t.expect('TARDIS' in str(e) and 'nonsense' in str(e), 'unknown engineering constraints are refused with the valid ones', got=repr(e))


@check.runtime('real grains: Euler angles and back give the same orientation', [AG + '.grain_params_euler'], n=60, thorough=600)
def _(t):
    from hexrd.core.fitting.calibration.abstract_grain import AbstractGrainCalibrator
    from hexrd.core import rotations as rot

    class G(AbstractGrainCalibrator):
        name = 'g-1'
        type = 'g'

        def autopick_points(self):
            pass

        def residual(self):
            pass

        def model(self):
            pass
    for it in t.cases():
        conv = CONVENTIONS[it % 5]
        g = t.rng.normal(size=12) * .5
        ax = g[:3] / np.linalg.norm(g[:3])
        g[:3] = ax * t.rng.choice([1e-6, .3, 2., np.pi - 1e-3])
        c = G(type('I', (), {'detectors': {}})(), None, g.copy(), euler_convention=conv)
        P = params_of(c.create_lmfit_params([]))
        c.update_from_lmfit_params(P)
        t.close(c.grain_params[3:], g[3:], 'position and strain', rtol=1e-14, atol=0)
        t.close(rot.rotMatOfExpMap(c.grain_params[:3]), rot.rotMatOfExpMap(g[:3]), 'orientation', rtol=0, atol=3e-8, convention=str(conv), grain=g)
        ang = [P[n].value for n in c.param_names[:3]]
        if conv is not None:
            t.close(euler_matrix(ang, norm(conv)), rot.rotMatOfExpMap(g[:3]), 'angles are of the stated convention', rtol=0, atol=3e-8, convention=str(conv), grain=g)
        # picks keyed by reflection
        picks = {'d1': {'1 -2 3': [1., 2.], '0 0 4': [np.nan, np.nan], '-1 -1 0': [5., 6.]}, 'd2': {}}
        c.instr.detectors = {'d1': 0, 'd2': 0}
        c.calibration_picks = picks
        got = c.calibration_picks
        t.expect(list(got) == ['d1', 'd2'] and list(got['d1']) == list(picks['d1']) and all(np.array_equal(got['d1'][k], picks['d1'][k], equal_nan=True) for k in picks['d1']) and got['d2'] == {}, 'picks come back as given', got=str(got))
