"""Degree and minute semantics."""
from levels import number
from f15 import *
from sx.api import H

OUTSIDE = 'texts that are not digits; longer numbers than stated'
ASSUMPTIONS = []
MAXES = (90, 180, 360)


def same(c, got, want, label):
    if c.true(want):
        c.check(got is True, label + ' is accepted')
        c.reach('accepted')
    else:
        c.check(got is False, label + ' is rejected')
        c.reach('rejected')


def degrees(c, n, most):
    s = c.text('s', tm('#' * n))
    if most is None:
        most = c.int('max', 0, 400)
    same(c, Utils.is_degree_semantics(s, most), number(c, s) <= most, 'a whole angle')


def minutes(c, n, most):
    """ddmm or dddmm: minutes below 60 and the whole angle within the maximum."""
    s = c.text('s', tm('#' * (n + 2)))
    if most is None:
        most = c.int('max', 0, 400)
    d, m = number(c, s[0:n]), number(c, s[n:])
    ok = c.both(m <= 59, d * 60 + m <= most * 60)
    same(c, Utils.is_degree_minute_semantics(s, most, n), ok, 'an angle in degrees and minutes')


def harnesses(tier):
    hs = []
    for n in (1, 2, 3, 4):
        for m in MAXES + (None,):
            say = 'up to %s' % ('any maximum 0..400' if m is None else m)
            hs.append(H('%d digits %s' % (n, say), degrees, 'every digit free', n=n, most=m))
            if n > 1:
                hs.append(H('%d digits and minutes %s' % (n, say), minutes, 'every digit free', n=n, most=m))
    return hs
