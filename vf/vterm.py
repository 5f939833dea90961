"""
Run the programs of a specification: definitions and tests over named
quantities, which may be one number per pixel.
"""
import numba
import numpy as np
import scipy.special
from ngmix.fastexp_nb import fexp


@numba.njit
def _gauss(x, out):
    for i in range(x.size):
        if x[i] >= 0 and x[i] < 25:
            out[i] = fexp(-0.5 * x[i])


def gauss(x):
    """exp(-x/2) as the fast evaluation has it, nothing outside of [0, 25)"""
    x = np.asarray(x, dtype='f8')
    out = np.zeros_like(x)
    _gauss(x.ravel(), out.reshape(-1))
    # the approximation is itself compared with the exponential
    inside = (x >= 0) & (x < 25)
    assert np.all(abs(out - np.exp(-0.5 * x))[inside]
                  <= 1e-4 * out[inside] + 1e-12)
    return out


def val(t, env):
    if isinstance(t, (int, float)):
        return float(t)
    op = t[0]
    if isinstance(op, int):
        return t[0] / t[1]
    a = t[1:]
    if op == 'lit':
        return a[0][0] / a[0][1]
    if op == 'var':
        return env[a[0]]
    if op == 'pi':
        return np.pi
    if op in ('nan', 'inf', '-inf'):
        return float(op)
    if op == 'ones':
        return np.ones_like(val(a[0], env))
    if op == 'sum':
        r = 0.0
        for x in a[0]:
            r = r + val(x, env)
        return r
    x = [val(y, env) for y in a]
    if op == 'add':
        return x[0] + x[1]
    if op == 'sub':
        return x[0] - x[1]
    if op == 'mul':
        return x[0] * x[1]
    if op == 'div':
        return x[0] / x[1]
    if op == 'neg':
        return -x[0]
    if op == 'abs':
        return np.abs(x[0])
    if op == 'sqrt':
        return np.sqrt(x[0])
    if op == 'exp':
        return np.exp(x[0])
    if op == 'sin':
        return np.sin(x[0])
    if op == 'sinh':
        return np.sinh(x[0])
    if op == 'erf':
        return scipy.special.erf(x[0])
    if op == 'asin':
        return np.arcsin(x[0])
    if op == 'log':
        return np.log(x[0])
    if op == 'pow':
        return x[0] ** x[1]
    if op == 'max':
        return np.maximum(x[0], x[1])
    if op == 'min':
        return np.minimum(x[0], x[1])
    if op == 'total':
        return float(np.sum(x[0]))
    if op == 'gauss':
        return gauss(x[0])
    raise ValueError('unknown term %r' % (t,))


class Unsure(Exception):
    """a comparison too close to call in floating point"""


def holds(c, env, slack=1e-7):
    """truth of a condition; Unsure when rounding could decide it"""
    op = c[0]
    if op == 'and':
        r = [tri(x, env, slack) for x in c[1:]]
        if False in r:
            return False
        if None in r:
            raise Unsure()
        return True
    if op == 'or':
        r = [tri(x, env, slack) for x in c[1:]]
        if True in r:
            return True
        if None in r:
            raise Unsure()
        return False
    r = tri(c, env, slack)
    if r is None:
        raise Unsure()
    return r


def tri(c, env, slack):
    if c[0] in ('and', 'or'):
        try:
            return holds(c, env, slack)
        except Unsure:
            return None
    a, b = float(val(c[1], env)), float(val(c[2], env))
    if np.isnan(a) or np.isnan(b):
        return False
    scale = env.get('scale:' + c[0], 0) + abs(a) + abs(b)
    if a != b and abs(a - b) <= slack * scale:
        return None
    return a < b if c[0] == 'lt' else a <= b
