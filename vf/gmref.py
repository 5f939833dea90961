"""Gaussian mixtures straight from their definition (numpy, no ngmix)."""
import numpy as np


def evaluate(comps, v, u, area=1.0, fast=False):
    """surface brightness times area of [(p, row, col, irr, irc, icc)]"""
    v = np.asarray(v, dtype='f8')
    u = np.asarray(u, dtype='f8')
    out = np.zeros(np.broadcast(v, u).shape)
    for p, row, col, irr, irc, icc in comps:
        det = irr * icc - irc ** 2
        dv, du = v - row, u - col
        chi2 = (icc * dv ** 2 + irr * du ** 2 - 2 * irc * dv * du) / det
        val = p / (2 * np.pi * np.sqrt(det)) * np.exp(-0.5 * chi2)
        if fast:
            val = np.where((chi2 < 25.0) & (chi2 >= 0), val, 0.0)
        out = out + val
    return out * area


def edge(comps, v, u, eps=1e-6):
    """pixels too close to the cutoff of some component to tell"""
    bad = np.zeros(np.broadcast(v, u).shape, dtype=bool)
    for p, row, col, irr, irc, icc in comps:
        det = irr * icc - irc ** 2
        dv, du = v - row, u - col
        chi2 = (icc * dv ** 2 + irr * du ** 2 - 2 * irc * dv * du) / det
        bad |= abs(chi2 - 25.0) < eps
    return bad


def scale(comps, v, u, area=1.0):
    """sum of |components|: what rounding and fast exponentials scale with"""
    return sum(np.abs(evaluate([c], v, u, area)) for c in comps)


def close(got, want, comps, v, u, area=1.0, fast=False, rel=None):
    """
    per-pixel agreement: exact to rounding, or to the documented accuracy of
    the fast exponential (4e-5)
    """
    rel = rel or (6e-5 if fast else 1e-9)
    tol = rel * scale(comps, v, u, area) + 1e-13 * np.max(
        scale(comps, v, u, area) + 1e-300)
    ok = np.abs(got - want) <= tol
    if fast:
        ok |= edge(comps, v, u)
    return bool(np.all(ok))
