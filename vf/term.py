"""
Evaluate the terms the specifications prescribe.

A rational is <<n, d>> in TLA+, i.e. [n, d].  A term is [op, args...]:
the specification fixes the expression, only the arithmetic of real
numbers is done here.
"""
import math
from fractions import Fraction


def q(r):
    return Fraction(r[0], r[1])


def qf(r):
    return float(Fraction(r[0], r[1]))


REFS = []


def val(t):
    """term -> float"""
    if isinstance(t, (int, float)):
        return float(t)
    if isinstance(t, str):
        return {'nan': math.nan, 'inf': math.inf, '-inf': -math.inf,
                'pi': math.pi}.get(t) if t in (
                    'nan', 'inf', '-inf', 'pi') else float(t)
    op = t[0]
    if isinstance(op, int):
        return qf(t)
    a = t[1:]
    if op == 'q':
        return a[0] / a[1]
    if op == 'ref':
        # a quantity the case defines once and uses often
        return REFS[a[0] - 1]
    if op == 'lit':
        return float(a[0])
    if op == 'add':
        return math.fsum(val(x) for x in a)
    if op == 'sum':
        return math.fsum(val(x) for x in a[0])
    if op == 'mul':
        p = 1.0
        for x in a:
            p *= val(x)
        return p
    if op == 'sub':
        return val(a[0]) - val(a[1])
    if op == 'neg':
        return -val(a[0])
    if op == 'div':
        return val(a[0]) / val(a[1])
    if op == 'sqrt':
        return math.sqrt(val(a[0]))
    if op == 'exp':
        return math.exp(val(a[0]))
    if op == 'log':
        return math.log(val(a[0]))
    if op == 'erf':
        return math.erf(val(a[0]))
    if op == 'sinh':
        return math.sinh(val(a[0]))
    if op == 'tanh':
        return math.tanh(val(a[0]))
    if op == 'atanh':
        return math.atanh(val(a[0]))
    if op == 'pow':
        return val(a[0]) ** val(a[1])
    if op == 'max':
        return max(val(a[0]), val(a[1]))
    if op == 'pi':
        return math.pi
    if op in ('nan', 'inf', '-inf'):
        return float(op)
    raise ValueError('unknown term %r' % (t,))


def close(x, y, rtol=1e-9, atol=1e-11):
    """numeric agreement, nan and inf included"""
    try:
        x = float(x)
        y = float(y)
    except (TypeError, ValueError):
        return False
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= atol + rtol * max(abs(x), abs(y))


def set_refs(refs):
    REFS[:] = [val(x) for x in refs]
