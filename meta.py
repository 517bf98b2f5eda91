#!/opt/venv/bin/python
"""Property list -> properties.jsonl and MANIFEST.json. A property is claimed when props/<id>.py exists."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
TECH = ('contract-based deductive verification: verification conditions generated from the compiled code objects of /repo '
        'by symbolic execution against per-function contracts, discharged by polynomial normalisation, linear abstraction and z3; '
        'executable contracts as bounded stand-in and replay')


def p(id, title, statement, over, text, why, files, mech, note, level='proof', technique=TECH):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  note=note, level=level, technique=technique))


I = ['inputs']
IC = ['inputs', 'configurations']
IH = ['inputs', 'histories']
ROT = 'hexrd/core/rotations.py'
SG = 'hexrd/core/material/spacegroup.py'
SY = 'hexrd/core/material/symmetry.py'
UCF = 'hexrd/core/material/unitcell.py'
XT = 'hexrd/core/material/crystallography.py'
DET = 'hexrd/core/instrument/detector.py'

p('R01', 'Rotation parametrisations convert into each other without changing the rotation',
  'Converting an orientation between quaternions, rotation matrices, exponential-map vectors, angle-axis pairs and Euler angles (every axis order, extrinsic or intrinsic) gives the same rotation in the new form, for half-turns and the identity too. Rotation matrices produced are orthonormal with determinant one, quaternions are unit with non-negative scalar part, and converting there and back returns the same rotation.',
  I, 'every rotation, axis convention and number of columns', 'tests sample a few random rotations and Euler conventions; half-turns and axis-aligned cases hide in a measure-zero set',
  [ROT, 'hexrd/core/transforms/xfcapi.py', 'hexrd/core/transforms/new_capi/transforms_task.c'],
  [('quaternion / matrix / exponential map conversions', ROT), ('Euler angle conversions', ROT + ' RotMatEuler, make_rmat_euler, angles_from_rmat_xyz, angles_from_rmat_zxz'), ('compiled conversions', 'hexrd/core/transforms/new_capi')],
  'python conversions discharged for all inputs; compiled (C) counterparts by bounded executable contracts')
p('R02', 'Quaternion products, misorientation and fundamental-zone reduction are exact',
  'Quaternion product and inverse compose and invert the rotations they represent, and the misorientation between two orientations is the smallest rotation angle over all symmetrically equivalent pairs, attained by the returned quaternion. Reduction to the fundamental zone returns a symmetrically equivalent unit quaternion with the largest possible scalar part, and averages and fibre distances of orientations respect the same group action.',
  I, 'all unit quaternions, all symmetry groups given as operator lists', 'tests check identities on a few quaternions; minimality over the orbit must hold for every pair and every group',
  [ROT], [('quaternion algebra', ROT + ' quatProduct, quatProductMatrix, invertQuat, fixQuat'), ('misorientation', ROT + ' misorientation'), ('fundamental region', ROT + ' toFundamentalRegion'), ('fibres', ROT + ' discreteFiber, distanceToFiber')],
  'scipy Rotation enters through an assumed contract')
p('R03', 'Every tabulated space group generates exactly its symmetry operations',
  'For each of the 230 space groups (and second origin settings) the generated operations are exactly those of its Hall symbol, each listed once, with matching point group, Laue group, inversion and symmorphic flags; all 32 point groups are generated completely. The lattice type, required parameters and completed cell leave the metric invariant under those operations, the orientation-space Laue operators form the rotation group of the same class, and symbol tables invert each other.',
  IC, 'all 230 groups, both settings, all 32 point groups, all 11 Laue classes, all cell parameters', 'tests look at a handful of groups; an error in one table row is invisible elsewhere',
  [SY, SG, 'hexrd/core/constants.py', ROT], [('generator strings and closure', SY + ' GenerateSGSym, GeneratePGSYM'), ('space-group object', SG + ' SpaceGroup'), ('Laue quaternions', ROT + ' quatOfLaueGroup'), ('symbol tables', 'hexrd/core/material/symbols.py')],
  'finite tables: decided by ground evaluation of the real code on every entry against an independent Hall-symbol parser; metric invariance proved for all cell parameters')
p('X02', 'Reflection conditions equal the systematic absences of the space group',
  'A reflection is kept for a space group exactly when no symmetry operation of the group makes it systematically absent, for every integer triple of indices, and the surviving indices are passed through unchanged and in order. The reflection list of a unit cell contains one representative of each allowed Laue family with spacing above the cutoff, no absent family, sorted by spacing.',
  IC, 'all 230 groups and all integer hkl; unit cells of every lattice type', 'tests use a few materials; an extinction rule of one group is exercised only by that group',
  [SG, UCF], [('centring and translational absences', SG + ' Allowed_HKLs, omitscrewaxisabsences, omitglideplaneabsences'), ('list generation', UCF + ' getHKLs, ChooseSymmetric, SortHKL')],
  'extinction rules proved for all integers per group; list generation by bounded executable contract')

exec(open(os.path.join(HERE, 'meta_more.py')).read()) if os.path.exists(os.path.join(HERE, 'meta_more.py')) else None

NA = [
]


def main():
    claimed, na = [], []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for e in P:
            f.write(json.dumps({k: e[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
            assert len(e['title']) <= 80, e['title']
            if os.path.exists(os.path.join(HERE, 'props', e['id'] + '.py')):
                c = f'/opt/venv/bin/python check.py {e["id"]} --tier '
                claimed.append(dict(property=e['id'], quick_cmd=c + 'quick', thorough_cmd=c + 'thorough', technique=e['technique'],
                                    level=e['level'], level_note=e['note']))
            else:
                na.append(dict(property=e['id'], reason=e.get('na') or 'no contract built for it'))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python vc/build.py', checks=claimed, not_applicable=na,
             notes='see DESIGN.md; /repo carries only fix: commits, no hooks')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
    print(len(claimed), 'claimed;', len(na), 'not applicable')


if __name__ == '__main__':
    main()
