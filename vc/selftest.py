#!/opt/venv/bin/python
"""selftest.py: the symbolic array library against numpy, and the C front end against the compiled module, on random
inputs.  Every expression is executed symbolically once; the terms of the path whose condition holds are evaluated in
floats and compared with the real thing."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B, V, W = (3, 4), (3, 4), (4,), (4, 2)

NUMPY = '''
a + b | a - b * 2 | a / (b * b + 1) | -a | a ** 2 | abs(a) | a * v | v - a | a @ w | a.T | a.T @ b | a[1] | a[:, 1] | a[::-1] | a[1:, :2] | a[..., -1] | a[[2, 0]] | a[:, [1, 1, 3]]
a[np.array([True, False, True])] | a[None].shape | a.reshape(4, 3) | a.reshape(-1) | a.ravel() | a.flatten() | a.transpose() | np.transpose(a) | np.atleast_2d(v) | np.r_[v, v] | np.c_[v, v]
np.sum(a) | np.sum(a, axis=0) | a.sum(axis=1) | a.sum(-1) | np.prod(v) | np.mean(a, axis=1) | a.max() | a.min(axis=0) | np.max(a, axis=1) | np.argmax(v) | np.argmin(a, axis=1) | np.cumsum(v)
np.dot(a, w) | np.dot(v, v) | np.inner(v, v) | np.outer(v, v) | np.cross(a[:, :3], b[:, :3]) | np.einsum('ij,ij->i', a, b) | np.einsum('ij,kj->ik', a, b) | np.trace(a[:, :3]) | np.diag(v) | np.diag(a[:, :3])
np.vstack([a, b]) | np.hstack([a, b]) | np.stack([a, b]) | np.concatenate([a, b], axis=1) | np.column_stack([v, v]) | np.tile(v, (2, 1)) | np.tile(v, 3) | np.repeat(v, 2) | np.repeat(a, 2, axis=0)
np.sin(a) | np.cos(a) | np.arctan2(a, b) | np.sqrt(a * a) | np.exp(v) | np.tan(v / 9) | np.arcsin(v / 100) | np.arccos(v / 100) | np.hypot(a, b) | np.degrees(v) | np.radians(v) | np.sign(v) | np.floor(v) | np.ceil(v)
np.mod(v, 3) | v % 2 | v // 2 | np.where(a > b, a, b) | np.maximum(a, b) | np.minimum(a, v) | np.clip(v, -1, 1) | np.abs(v) | (a > b).any(axis=0) | (a < 100).all() | np.any(a > 0, axis=1) | np.isnan(v).any()
np.linalg.norm(a) | np.linalg.norm(a, axis=1) | np.linalg.norm(v) | np.linalg.det(a[:, :3]) | np.linalg.inv(a[:, :3]) | np.swapaxes(a, 0, 1) | np.moveaxis(a[None], 0, 2) | np.squeeze(a[None]) | np.expand_dims(v, 0)
np.flip(v) | np.fliplr(a) | np.flipud(a) | np.rot90(a) | np.rot90(a, 2) | np.roll(v, 1) | np.diff(v) | np.diff(a, axis=0) | np.linspace(0, 1, 5) | np.arange(4.) * v | np.eye(3) | np.zeros((2, 3)) | np.ones_like(a) | np.full(3, 2.5)
np.full_like(v, 7) | np.append(v, 3.) | np.delete(v, 1) | np.insert(v, 1, 9.) | np.meshgrid(v, v[:2])[0] | np.meshgrid(v, v[:2], indexing='ij')[1] | np.broadcast_to(v, (3, 4)) | np.array([v[0], 2., v[1]])
np.asarray([[v[0], v[1]], [v[2], v[3]]]) | np.nansum(a) | np.trapezoid(v) | np.average(a, axis=0) | np.take(v, [2, 1]) | np.indices((2, 2))[0] * v[0] | np.isclose(v, v) | np.array_equal(a, a) | np.count_nonzero(a > b)
'''
C = {
    'make_detector_rmat': [(3,)], 'make_beam_rmat': [(3,), (3,)], 'unit_vector': [(4, 3)], 'rotate_vecs_about_axis': [(), (3,), (3, 5)],
    'gvec_to_xy': [(3, 3), (3, 3), (3, 3), (3, 3), (3,), (3,), (3,)], 'xy_to_gvec': [(3, 2), (3, 3), (3, 3), (3,), (3,), (3,)], 'quat_distance': [(4,), (4,), (4, 3)],
    'oscill_angles_of_hkls': [(3, 3), (), (3, 3), (3, 3), ()],
}


def flat(x):
    import numpy as np
    from vc import snp
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat(y)]
    if isinstance(x, snp.ndarray):
        return [x.el(tuple(i)) for i in np.ndindex(*x.shape)]
    if isinstance(x, np.ndarray):
        return list(x.ravel())
    return [x]


def value(t, env):
    from vc import terms as tm
    t = tm.L(t) if not isinstance(t, tm.T) else t
    return tm.evalf(t, env)


def holds(pc, env):
    return all(bool(value(c, env)) for c in pc)


def main():
    import numpy as np
    from vc import explore, snp, contract, terms as tm
    from vc.terms import Unsupported
    from props import common
    rng = np.random.default_rng(int(os.environ.get('VERIF_SEED', '1')))
    chk = contract.Check('SELF')
    run = contract.Run(chk, 'quick', 1)
    done = skipped = 0
    bad = []

    def inputs(shapes, scale=3.):
        v = contract.Verifier(chk, 'self', run)
        xs = [v.reals(f'x{k}', s) for k, s in enumerate(shapes)]
        env, vals = {}, []
        for k, s in enumerate(shapes):
            z = rng.normal(size=s) * scale
            vals.append(z if s else float(z))
            for i in np.ndindex(*s):
                env[f'x{k}' + ''.join(f'_{q}' for q in i)] = float(z[i]) if s else float(z)
        return v, xs, env, vals

    def compare(name, thunk, want, env):
        nonlocal done, skipped
        try:
            outs = explore.run(thunk, [], 2000, 300)
            hit = [o for o in outs if holds(o.pc, env)]
            if not hit:
                bad.append((name, 'no path holds'))
                return
            if hit[0].exc is not None:
                if isinstance(hit[0].exc, (AttributeError, TypeError, NotImplementedError)):
                    raise Unsupported(repr(hit[0].exc))
                raise hit[0].exc
            got = [value(t, env) for t in flat(hit[0].value)]
        except (Unsupported, KeyError, explore.PathLimit) as e:
            skipped += 1
            print(f'  not modelled: {name}: {str(e)[:80]}')
            return
        want = [float(x) for x in flat(want)]
        got = [float(x) if x is not None else np.nan for x in got]
        done += 1
        if len(got) != len(want) or not np.allclose(got, want, rtol=1e-8, atol=1e-8, equal_nan=True):
            bad.append((name, got[:6], want[:6]))
    for e in [x.strip() for l in NUMPY.strip().splitlines() for x in l.split('|')]:
        for rep in range(3):
            v, (a, b, vv, w), env, vals = inputs([A, B, V, W])
            code = compile(e, e, 'eval')
            want = eval(code, dict(np=np, a=vals[0], b=vals[1], v=vals[2], w=vals[3]))
            compare(e, lambda: eval(code, dict(np=snp, a=a, b=b, v=vv, w=w)), want, env)
    from hexrd.core.transforms import xfcapi
    from props.geo import nrot
    for f, shapes in C.items():
        for rep in range(4):
            v, xs, env, vals = inputs(shapes, 1.)
            for k, s in enumerate(shapes):
                if s == (3, 3) and not (k == 0):          # rotations
                    vals[k] = nrot(rng.normal(size=3))
                    for i in np.ndindex(3, 3):
                        env[f'x{k}_{i[0]}_{i[1]}'] = float(vals[k][i])
            if f == 'oscill_angles_of_hkls':
                vals[4] = env['x4'] = .3
            lf, = common.clift(v, f)
            compare(f, lambda: lf(*xs), getattr(xfcapi, f)(*vals), env)
    print(f'selftest: {done} comparisons, {skipped} constructs outside the library, {len(bad)} differences')
    for b in bad:
        print('DIFFERENT', b)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    import check
    check.setup_env()
    sys.path.insert(0, '/repo')
    import warnings
    warnings.simplefilter('ignore')
    import vc  # noqa
    from vc import nojit, build  # noqa
    build.use_current()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
