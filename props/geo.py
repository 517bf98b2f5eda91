"""numeric oracle for the diffraction geometry (written from the definitions, independent of the code)"""
import numpy as np
from .common import nrot, rand_rot, rand_unit


def rx_(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def ry_(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def rz_(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def beam_frame(b, e):
    """columns x, y, z of the beam frame: z = -beam, y along e x b"""
    b = np.asarray(b, float) / np.linalg.norm(b)
    y = np.cross(e, b)
    y = y / np.linalg.norm(y)
    return np.array([np.cross(b, y), y, -b]).T


def sample(chi, ome):
    return rx_(chi) @ ry_(ome)


def dvec(tth, eta, RB):
    return RB @ np.array([np.sin(tth) * np.cos(eta), np.sin(tth) * np.sin(eta), -np.cos(tth)])


def gvec(tth, eta, RB):
    return RB @ np.array([np.cos(tth / 2) * np.cos(eta), np.cos(tth / 2) * np.sin(eta), np.sin(tth / 2)])


def hit(origin, d, Rd, td):
    """intersection of the ray origin + t d (t > 0) with the detector plane, nan without one"""
    n = Rd[:, 2]
    den = n @ d
    num = n @ (td - origin)
    if den == 0:
        return np.array([np.nan, np.nan])
    t = num / den
    if not t > 0:
        return np.array([np.nan, np.nan])
    p = origin + t * d - td
    return np.array([Rd[:, 0] @ p, Rd[:, 1] @ p])


def angles_of(d, RB):
    u = RB.T @ (d / np.linalg.norm(d))
    return np.arctan2(np.hypot(u[0], u[1]), -u[2]), np.arctan2(u[1], u[0])


def wrapped(a, b, per=2 * np.pi):
    return np.abs((np.asarray(a) - np.asarray(b) + per / 2) % per - per / 2)


def rand_beam(rng):
    k = rng.integers(0, 4)
    b = np.array([0., 0, -1]) if k < 2 else (np.array([0, 0, -1.]) + rng.normal(size=3) * (.05 if k == 2 else .6))
    e = np.array([1., 0, 0]) if k == 0 else (np.array([1., 0, 0]) + rng.normal(size=3) * (.3 if k < 3 else .8))
    b /= np.linalg.norm(b)
    while np.linalg.norm(np.cross(b, e)) < .2:
        e = rng.normal(size=3)
    return b, e / np.linalg.norm(e)


def rand_detector(rng):
    k = rng.integers(0, 3)
    tilt = np.zeros(3) if k == 0 else rng.normal(size=3) * (.05 if k == 1 else .5)
    R = rz_(tilt[2]) @ ry_(tilt[1]) @ rx_(tilt[0])
    return R, np.array([rng.normal() * 50, rng.normal() * 50, -rng.uniform(200, 1500)]), tilt


def turn_round(d):
    """the same panel and beam turned half a turn about y: a beam along +z"""
    M = np.diag([-1., 1., -1.])
    a = d.tilt
    R = rz_(a[2]) @ ry_(a[1]) @ rx_(a[0])
    d.bvec, d.evec, d.tvec = M @ d.bvec, M @ d.evec, M @ d.tvec
    Q = M @ R
    # xyz extrinsic angles of Q = Rz Ry Rx
    d.tilt = np.array([np.arctan2(Q[2, 1], Q[2, 2]), -np.arcsin(np.clip(Q[2, 0], -1, 1)), np.arctan2(Q[1, 0], Q[0, 0])])
    return d
