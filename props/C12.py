"""Bearing and distance between consecutive coordinate points."""
from geo15 import *

OUTSIDE = ('the geodesic library itself; out of range angles; two or more connecting records between the points '
           '(the route grammar has none)')
ASSUMPTIONS = ['the geodesic library is an uninterpreted function of its arguments']
CONNECT = {'nothing': [], 'DCT': ['DCT'], 'route': ['UL613'], 'level': ['/', 'M082F330'],
           'level DCT': ['/', 'M082F330', 'DCT'], 'STAY': ['STAY1', '/', '0130'],
           'STAY DCT': ['STAY1', '/', '0130', 'DCT'],
           'VFR': ['VFR', 'TXT', 'IFR'], 'OAT': ['OAT', 'TXT', 'GAT'], 'IFPS': ['IFPSTOP', 'TXT', 'IFPSTART'],
           'SPEED/VFR': ['/', 'N0100VFR', 'TXT', 'IFR']}
UNKNOWN = {'a point': ['PNT'], 'a point DCT': ['DCT', 'PNT'], 'DCT a point': ['PNT', 'DCT'],
           'a bearing/distance point': ['PNT090010'], 'an aerodrome': ['EGLL', 'DCT'],
           'cruise climb point': ['C', '/', 'QNT', '/', 'M082F290F350'], 'C': ['C']}
SHAPE = {'deg': '[0-8]#[NS]1[0-7]#[EW]', 'min': '[0-8]#[0-5]#[NS]0##[0-5]#[EW]',
         'deg edge': '[09]0[NS][01][08]0[EW]', 'min edge': '[09]000[NS][01][08]000[EW]',
         'deg+bd': '[0-8]#[NS]0##[EW][0-2]#####', 'min+bd': '[0-8]#[0-5]#[NS]1[0-7]#[0-5]#[EW][0-2]#####'}


def leg(c, r, a, b, label):
    w = c.geo('Inverse', a[0], a[1], b[0], b[1])
    near(c, r.get_bearing(), w['azi1'], 1e-6, 'bearing ' + label)
    near(c, r.get_distance(), w['s12'], 1e-3, 'distance ' + label)


def no_leg(c, r, label):
    c.check(r.get_bearing() == 0, 'no bearing ' + label)
    c.check(r.get_distance() == 0, 'no distance ' + label)


def points(c, kinds):
    texts = [c.text('p%d' % i, tm(SHAPE[k])) for i, k in enumerate(kinds)]
    return texts, [position(c, t, k[:3] == 'min') for t, k in zip(texts, kinds)]


def index_of(ers, text):
    for i in range(ers.get_number_of_elements()):
        if ers.get_element_at(i).get_name() is text:
            return i
    return None


def record_of(c, ers, n):
    """index of the n-th record that has coordinates"""
    at = [i for i in range(ers.get_number_of_elements()) if ers.get_element_at(i).is_lat_long_valid() is True]
    c.check(len(at) > n, 'every coordinate point is recorded with coordinates')
    return at[n]


def consecutive(c, kinds, connectors):
    texts, pos = points(c, kinds)
    f = [FIRST, 'PNT']
    for i, t in enumerate(texts):
        f.append(t)
        if i < len(connectors):
            f.extend(CONNECT[connectors[i]])
    vfr = [x for x in connectors if x in ('VFR', 'SPEED/VFR')]
    if vfr:
        f.extend(['/', FIRST])
    ers, res = run_words(c, f + ['QNT'])
    at = [record_of(c, ers, n) for n in range(len(texts))]
    for i in range(ers.get_number_of_elements()):
        r = ers.get_element_at(i)
        if i in at[:-1]:
            n = at.index(i)
            c.check(r.get_name() == texts[n], 'point %d' % n)
            leg(c, r, pos[n], pos[n + 1], 'from point %d' % n)
        else:
            no_leg(c, r, 'on record %d' % i)


def interrupted(c, kinds, between):
    """A point of unknown position between: no leg is claimed."""
    texts, pos = points(c, kinds)
    ers, res = run_words(c, [FIRST, texts[0]] + UNKNOWN[between] + [texts[1], 'DCT', texts[2]])
    at = [record_of(c, ers, n) for n in range(3)]
    for i in range(ers.get_number_of_elements()):
        r = ers.get_element_at(i)
        if i == at[1]:
            leg(c, r, pos[1], pos[2], 'after the interruption')
        else:
            no_leg(c, r, 'on record %d' % i)


def climbing(c, kinds):
    """A cruise climb at the second point."""
    texts, pos = points(c, kinds)
    ers, res = run_words(c, [FIRST, texts[0], 'DCT', 'C', '/', texts[1], '/', 'M082F290F350', texts[2]])
    at = [record_of(c, ers, n) for n in range(3)]
    for n in (0, 1):
        leg(c, ers.get_element_at(at[n]), pos[n], pos[n + 1], 'from point %d' % n)
    no_leg(c, ers.get_element_at(at[2]), 'from the last point')


def helper(c):
    a = [c.int(n, -w, w) * 0.5 for n, w in (('a', 180), ('b', 360), ('c', 180), ('d', 360))]
    got = Utils().get_bearing_distance_between_points(*a)
    want = c.geo('Inverse', *a)
    c.check(len(got) == 2, 'two numbers')
    near(c, got[0], want['azi1'], 1e-6, 'bearing')
    near(c, got[1], want['s12'], 1e-3, 'distance')


def harnesses(tier):
    hs = [H('helper', helper, 'half-degree arguments')]
    ks = list(SHAPE)
    for a in ks:
        for b in ks:
            if 'edge' in a + b:
                # the poles, the equator, the meridian and the antimeridian
                hs.append(H('%s - %s' % (a, b), consecutive, 'every pair of positions, of which one or both at an edge',
                            kinds=(a, b), connectors=(list(CONNECT)[len(hs) % len(CONNECT)],)))
                continue
            for w in CONNECT:
                hs.append(H('%s - %s over %s' % (a, b, w), consecutive, 'every in-range pair of positions',
                            kinds=(a, b), connectors=(w,)))
            for w in UNKNOWN:
                hs.append(H('%s - %s interrupted by %s' % (a, b, w), interrupted, 'every in-range position',
                            kinds=(a, b, 'deg'), between=w))
            hs.append(H('%s - %s climbing' % (a, b), climbing, 'every in-range position', kinds=(a, b, 'deg')))
    three = ['nothing', 'DCT', 'level', 'STAY DCT'] + (['OAT', 'IFPS', 'level DCT', 'STAY'] if tier != 'quick' else [])
    for x in three:
        for y in three:
            for k in (('deg', 'deg', 'deg'), ('min', 'deg+bd', 'min')):
                hs.append(H('%s over %s, %s' % ('/'.join(k), x, y), consecutive, 'every in-range position', kinds=k,
                            connectors=(x, y)))
    if tier != 'quick':
        for x in three:
            hs.append(H('five points over %s' % x, consecutive, 'every in-range position',
                        kinds=('deg', 'min', 'deg+bd', 'min+bd', 'deg'), connectors=(x, 'DCT', x, 'nothing')))
    return rotate(hs)
