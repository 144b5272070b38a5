"""STAY."""
import fstruct as fs
from fstruct import *
from levels import run, number

STAY = ['after a point', 'after a lat/long', 'after STAY', 'after STAY slash', 'after STAY time', 'lat/long STAY time',
        'first level', 'after a route', 'after DCT', 'after level change', 'in recovery', 'in recovery at start',
        'recovery slash', 'recovery then point', 'VFR to IFR done', 'after cruise climb', 'after SID', 'after T']
POINTS = ['PNT', 'EGLL', 'PNTAA', '50N020W', '5130S01015E', 'PNT045010', '10N010E090060']


def stay(c, shape, after):
    """The time of a STAY, all hours and minutes."""
    p = POINTS[c.choose('point', len(POINTS))]
    d = c.text('d', tm('STAY#'))
    t = c.text('t', tm(shape))
    ers, res = run(c, ['N0450F350', 'PNT', p, d, '/', t] + after)
    c.check(res is True, 'a STAY is accepted')
    want = number(c, t[0:2]) * 60 + number(c, t[2:4])
    for i in range(ers.get_number_of_elements()):
        r = ers.get_element_at(i)
        c.check(r.get_stay_time() == (want if i == 2 else 0), 'stay time of record %d' % i)
    c.check(ers.get_element_at(2).get_name() == p, 'the STAY belongs to the point before it')


def two(c):
    a = c.text('a', tm('0[0-9][0-5]#'))
    b = c.text('b', tm('2[0-3][0-5]#'))
    ers, res = run(c, ['N0450F350', 'PNT', 'STAY1', '/', a, 'QNT', 'DCT', 'RNT', 'STAY2', '/', b, 'SNT'])
    c.check(res is True, 'two STAYs are accepted')
    want = {1: a, 4: b}
    for i in range(ers.get_number_of_elements()):
        w = want.get(i)
        c.check(ers.get_element_at(i).get_stay_time() == (0 if w is None else
                                                         number(c, w[0:2]) * 60 + number(c, w[2:4])),
                'stay time of record %d' % i)


def not_a_time(c):
    """Four digits that are not a time of day."""
    t = c.text('t', tm('####'))
    c.assume(c.any(number(c, t[0:2]) > 23, number(c, t[2:4]) > 59))
    ers, res = run(c, ['N0450F350', 'PNT', 'STAY1', '/', t, 'QNT'])
    c.check(res is False, 'a time above 2359 is rejected')
    c.check(ers.get_number_of_errors() == 1, 'one error')
    c.check(ers.get_element_at(1).get_stay_time() == 0, 'no stay time is recorded')
    c.check(ers.get_all_errors()[0].get_name() == t, 'the time is named')


def harnesses(tier):
    hs = []
    for shape in ('0#[0-5]#', '1#[0-5]#', '2[0-3][0-5]#'):
        for after in ([], ['QNT'], ['A1', 'QNT'] if False else ['DCT', 'QNT'], ['VFR', 'X']):
            hs.append(H('time %s then %s' % (shape, after[:1] or 'end'), stay,
                        'every time %s, every STAY digit, %d kinds of point' % (shape, len(POINTS)), shape=shape,
                        after=after))
    hs.append(H('two stays', two, 'every pair of times'))
    hs.append(H('no time of day', not_a_time, 'every four digits above 2359'))
    return hs + structural(tier, ['stay', 'name', 'result', 'errors'], only=STAY, deep=STAY[:12])
