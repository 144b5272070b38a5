"""Points given as lat/long + bearing/distance."""
from geo15 import *

OUTSIDE = 'the geodesic library itself; out of range angles'
ASSUMPTIONS = ['the geodesic library is an uninterpreted function of its arguments']


def projected(c, where, shape, minutes):
    before, after, at = place(where)
    p = c.text('p', tm(shape))
    ers, res = run_words(c, before + [p] + after)
    if where in PLACES:
        c.check(res is True, 'the field is accepted')
    r = ers.get_element_at(at)
    c.check(r.get_name() == p, 'the point is recorded')
    c.check(r.is_lat_long_valid() is True, 'the point has coordinates')
    lat, lon = position(c, p, minutes)
    near(c, r.get_latitude(), lat, 1e-9, 'projected latitude')
    near(c, r.get_longitude(), lon, 1e-9, 'projected longitude')


def direct(c):
    """The projection helper passes its arguments through unchanged."""
    a = [c.int(n, -90, 360) * 0.5 for n in ('lat', 'lon', 'brg')] + [c.int('dist', 0, 4000000) * 0.5]
    got = Utils().get_bearing_distance_projected_point(*a)
    want = c.geo('Direct', *a)
    c.check(len(got) == 2, 'two numbers')
    near(c, got[0], want['lat2'], 1e-9, 'latitude')
    near(c, got[1], want['lon2'], 1e-9, 'longitude')


def shapes():
    for k in GOOD:
        for s in GOOD[k]:
            for b in BRG:
                yield k, s + b


def harnesses(tier):
    hs = [H('helper', direct, 'half-degree arguments')]
    for w in list(PLACES) + ['after an unknown element', 'after an unexpected slash', 'after a route']:
        for k, s in shapes():
            hs.append(H('%s %s' % (s, w), projected, 'every %s' % s, where=w, shape=s, minutes=k == 'min'))
    return rotate(hs)
