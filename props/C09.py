"""SI conversion of speeds and levels."""
from levels import *

OUTSIDE = 'accuracy finer than the stated tolerances; elements in positions other than the ones listed'
ASSUMPTIONS = ['double rounding is bounded by an accumulated error term added to ideal real arithmetic',
               'square roots are bounded by exact tangent/chord facts']


def check_rec(c, rec, sp, lv, where):
    c.check(rec.get_speed() == sp, 'speed text ' + where)
    c.check(rec.get_altitude() == lv, 'level text ' + where)
    level_ok(c, rec.get_altitude_si(), lv, 'SI level ' + where)
    speed_ok(c, rec.get_speed_si(), sp, rec.get_altitude_si(), 'SI speed ' + where)


MACHS = ['M000', 'M001', 'M050', 'M078', 'M082', 'M100', 'M217', 'M999']
LEVELS = {'F': ['F000', 'F001', 'F050', 'F290', 'F355', 'F360', 'F361', 'F400', 'F999'],
          'A': ['A000', 'A001', 'A045', 'A360', 'A361', 'A999'],
          'S': ['S0000', 'S0001', 'S0600', 'S1099', 'S1100', 'S1101', 'S9999'],
          'M': ['M0000', 'M0001', 'M0840', 'M1099', 'M1100', 'M1101', 'M9999']}


def speed_level(c, sp, lv, more, fix):
    """The element; for Mach numbers either the speed or the level runs through a list while the digits of the
    other are all free (the product of two free numbers is out of reach of the solver)."""
    if fix == 'speed':
        sp = MACHS[c.choose('mach', len(MACHS))]
    if fix == 'level':
        ls = LEVELS[lv[0]]
        lv = ls[c.choose('level', len(ls))]
    return element(c, 'e', sp + lv + more)


def first(c, s, l, fix=None):
    """SPEED/LEVEL at the start of the field, carried by the following point."""
    e = speed_level(c, SPEED[s], LEVEL[l], '', fix)
    n = len(SPEED[s])
    ers, res = run_words(c, [e, 'PNT'])
    check_rec(c, ers.get_element_at(0), e[0:n], e[n:], 'of the ADEP')
    check_rec(c, ers.get_element_at(1), e[0:n], e[n:], 'of the next point')


def change(c, s, l, fix=None):
    """SPEED/LEVEL change at a point."""
    e = speed_level(c, SPEED[s], LEVEL[l], '', fix)
    n = len(SPEED[s])
    ers, res = run_words(c, ['N0450F350', 'PNT', '/', e, 'DCT', 'QNT'])
    check_rec(c, ers.get_element_at(1), e[0:n], e[n:], 'of the point of change')
    check_rec(c, ers.get_element_at(3), e[0:n], e[n:], 'of the point after the change')
    w = word('N0450F350')
    k = 4 if w[0] == 'M' else 5
    check_rec(c, ers.get_element_at(0), w[:k], w[k:], 'before the change')


def late(c, s, l, fix=None):
    """SPEED/LEVEL change far into the route, after other changes and rules."""
    e = speed_level(c, SPEED[s], LEVEL[l], '', fix)
    n = len(SPEED[s])
    ers, res = run_words(c, ['N0450F350', 'PNT', 'VFR', 'TXT', 'IFR', 'PNT', '/', 'M082S1130'] + ['PNT', 'DCT'] * 12 +
                   ['PNT', '/', e, 'QNT'])
    check_rec(c, ers.get_element_at(28), e[0:n], e[n:], 'of a late point of change')
    check_rec(c, ers.get_element_at(29), e[0:n], e[n:], 'of the point after a late change')


def to_ifr(c, s, l, fix=None):
    e = speed_level(c, SPEED[s], LEVEL[l], '', fix)
    n = len(SPEED[s])
    ers, res = run_words(c, ['N0100VFR', 'AAA', 'IFR', 'PNT', '/', e, 'QNT'])
    check_rec(c, ers.get_element_at(2), e[0:n], e[n:], 'of the point of change to IFR')
    check_rec(c, ers.get_element_at(3), e[0:n], e[n:], 'of the point after the change')


def vfr(c, s, first_element):
    e = element(c, 'e', SPEED[s] + 'VFR')
    n = len(SPEED[s])
    ers, res = run_words(c, [e, 'PNT'] if first_element else ['N0450F350', 'PNT', '/', e, 'TXT'])
    for i in (0, 1) if first_element else (1, 2):
        r = ers.get_element_at(i)
        c.check(r.get_speed() == e[0:n], 'speed text of the VFR section')
        c.check(r.get_altitude() == 'F050', 'level text of the VFR section')
        c.check(r.get_altitude_si() == 1524, 'SI level of the VFR section')
        speed_ok(c, r.get_speed_si(), e[0:n], r.get_altitude_si(), 'SI speed of the VFR section')


def climb(c, s, l, m, fix=None):
    e = speed_level(c, SPEED[s], LEVEL[l], LEVEL[m] if m != '+' else 'PLUS', fix)
    n = len(SPEED[s])
    k = n + len(LEVEL[l])
    ers, res = run_words(c, ['N0450F350', 'PNT', 'C', '/', 'QNT', '/', e, 'RNT'])
    check_rec(c, ers.get_element_at(2), e[0:n], e[n:k], 'of the cruise climb point')
    check_rec(c, ers.get_element_at(3), e[0:n], e[n:k], 'of the point after the cruise climb')


def harnesses(tier):
    hs = []
    for s in SPEED:
        for fix in (['speed', 'level'] if s == 'M' else [None]):
            if fix == 'speed':
                say = 'Mach out of %d values, every other digit free' % len(MACHS)
            elif fix == 'level':
                say = 'level out of 6 to 9 values, every other digit free'
            else:
                say = 'every digit free'
            for l in LEVEL:
                for f in (first, change, to_ifr, late):
                    hs.append(H('%s %s%s %s' % (f.__name__, s, l, fix or ''), f,
                                '%s%s, %s' % (SPEED[s], LEVEL[l], say), s=s, l=l, fix=fix))
                for m in list(LEVEL) + ['+']:
                    hs.append(H('climb %s%s%s %s' % (s, l, m, fix or ''), climb, say, s=s, l=l, m=m, fix=fix))
        for fe in (True, False):
            hs.append(H('vfr %s %s' % (s, 'first' if fe else 'later'), vfr, 'every digit of %sVFR free' % SPEED[s],
                        s=s, first_element=fe))
    return rotate(hs)
