"""Latitude/longitude points and their range checks."""
from geo15 import *

OUTSIDE = 'positions in field 15 other than the ones listed; accuracy finer than 1e-9 degrees'
ASSUMPTIONS = ['double rounding is bounded by an accumulated error term added to ideal real arithmetic']


def unknown(c, r, label):
    c.check(r.is_lat_long_valid() is False, label + ' has no coordinates')
    c.check(r.get_latitude() == 0, label + ' has no latitude')
    c.check(r.get_longitude() == 0, label + ' has no longitude')


def coords(c, where, shape, minutes):
    """Every in-range latitude/longitude."""
    before, after, at = place(where)
    p = c.text('p', tm(shape))
    ers, res = run_words(c, before + [p] + after)
    if where in PLACES:
        c.check(res is True, 'the field is accepted')
    if at is None:
        at = 1
        if ers.get_number_of_elements() == 3:
            return
    for i in range(ers.get_number_of_elements()):
        r = ers.get_element_at(i)
        if i == at:
            c.check(r.get_name() == p, 'the point is recorded')
            c.check(r.is_lat_long_valid() is True, 'the point has coordinates')
            lat, lon = decode(c, p, minutes)
            near(c, r.get_latitude(), lat, 1e-9, 'latitude of the point')
            near(c, r.get_longitude(), lon, 1e-9, 'longitude of the point')
        else:
            unknown(c, r, 'any other record')
    c.reach('decoded')


def ranges(c, where, kind):
    """Exactly the angles out of range are reported."""
    before, after, at = place(where)
    p = c.text('p', tm(DEGS[kind]))
    minutes = kind[:3] == 'min'
    la, ns, lo, ew, rest = split(p, minutes)
    ers, res = run_words(c, before + [p] + after)
    want = []
    if c.true(too_big(c, la, 2, 90)):
        want.append(43 if minutes else 42)
    if c.true(too_big(c, lo, 3, 180)):
        want.append(45 if minutes else 44)
    if len(rest) and c.true(number(c, rest[:3]) > 360):
        want.append(46)
    errors_are(c, ers, res, p, want)
    if len(rest) == 0:
        # what is out of range is kept as it was given
        n = 0
        for r in ers.get_all_elements():
            if r.get_name() is p:
                n = n + 1
                lat, lon = decode(c, p, minutes)
                near(c, r.get_latitude(), lat, 1e-9, 'latitude of the point')
                near(c, r.get_longitude(), lon, 1e-9, 'longitude of the point')
        c.check(n == 1, 'the point is recorded once')


def errors_are(c, ers, res, p, want):
    errs = ers.get_all_errors()
    c.check(len(errs) == len(want), 'number of errors')
    for i in range(len(errs)):
        c.check(errs[i].get_name() == p, 'the point is named')
        c.check(errs[i].get_error_text() == message(want[i], p), 'message of error %d' % i)
    c.check(res is (len(want) == 0), 'the verdict follows the range check')
    c.reach('out of range' if want else 'in range')


def bearings(c, where, shape):
    """POINT + bearing/distance: the bearing is range checked, the position stays unknown."""
    before, after, at = place(where)
    p = c.text('p', tm(shape))
    ers, res = run_words(c, before + [p] + after)
    want = [46] if c.true(number(c, p[-6:-3]) > 360) else []
    errors_are(c, ers, res, p, want)
    for i in range(ers.get_number_of_elements()):
        unknown(c, ers.get_element_at(i), 'a record')


def two(c, kinds):
    """Two coordinate points: neither changes the other; both range checked in order."""
    a = c.text('a', tm(DEGS[kinds[0]]))
    b = c.text('b', tm(GOOD[kinds[1]][0]))
    ers, res = run_words(c, [FIRST, a, 'DCT', b, 'DCT', 'PNT'])
    la, ns, lo, ew, rest = split(a, kinds[0] == 'min')
    for i, p, k in ((1, a, kinds[0]), (3, b, kinds[1])):
        r = ers.get_element_at(i)
        lat, lon = decode(c, p, k == 'min')
        if i == 3 or not c.true(c.any(too_big(c, la, 2, 90), too_big(c, lo, 3, 180))):
            near(c, r.get_latitude(), lat, 1e-9, 'latitude of point %d' % i)
            near(c, r.get_longitude(), lon, 1e-9, 'longitude of point %d' % i)


def harnesses(tier):
    hs = []
    for w in list(PLACES) + ['after an unknown element', 'after an unexpected slash', 'after a route']:
        for k in ('deg', 'min'):
            for j, s in enumerate(GOOD[k]):
                hs.append(H('%s %s %d' % (k, w, j), coords, 'every lat/long %s' % s, where=w, shape=s,
                            minutes=k == 'min'))
    for w in PLACES:
        for k in DEGS:
            hs.append(H('range %s %s' % (k, w), ranges, 'every lat/long %s' % DEGS[k], where=w, kind=k))
        for n in (1, 2, 3, 5):
            hs.append(H('bearing %d %s' % (n, w), bearings, 'every point of %d letters, bearing and distance' % n,
                        where=w, shape='[P-R]' + '@' * (n - 1) + '######'))
    for a in ('deg', 'min'):
        for b in ('deg', 'min'):
            hs.append(H('two %s %s' % (a, b), two, 'every pair of lat/longs', kinds=(a, b)))
    return rotate(hs)
