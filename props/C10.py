"""Cruise climb."""
import fstruct as fs
from fstruct import structural
from levels import *

OUTSIDE = fs.OUTSIDE
ASSUMPTIONS = fs.ASSUMPTIONS
CLIMB = ['after a point', 'after a lat/long', 'after DCT', 'after C', 'after C slash', 'after C point',
         'after C point slash', 'after cruise climb', 'after STAY time', 'in recovery', 'recovery slash',
         'first level', 'VFR to IFR done', 'after level change', 'long route']


def climb(c, s, l, m, before, after):
    """Every digit of SPEED/LEVEL/LEVEL free."""
    e = element(c, 'e', SPEED[s] + LEVEL[l] + (LEVEL[m] if m != '+' else 'PLUS'))
    n = len(SPEED[s])
    k = n + len(LEVEL[l])
    ers, res = run_words(c, ['N0450F350'] + before + ['C', '/', 'QNT', '/', e] + after)
    at = 1 + len([x for x in before if x != '/' and x[1:].isalpha()])
    r = ers.get_element_at(at)
    c.check(r is not None and r.get_name() == word('QNT'), 'the cruise climb point is recorded')
    c.check(r.get_flight_rules() == 'IFR', 'a cruise climb is flown IFR')
    c.check(r.get_speed() == e[0:n], 'speed of the cruise climb')
    c.check(r.get_altitude() == e[n:k], 'lower level of the cruise climb')
    c.check(r.get_altitude_cruise_to() == e[k:], 'upper level of the cruise climb')
    level_ok(c, r.get_altitude_si(), e[n:k], 'SI lower level of the cruise climb')
    if m == '+':
        c.check(r.get_altitude_cruise_to_si() == 0, 'PLUS has no SI level')
    else:
        level_ok(c, r.get_altitude_cruise_to_si(), e[k:], 'SI upper level of the cruise climb')
    bad = 0
    if l == 'F':
        bad = bad + c.ite(number(c, e[n + 1:k]) % 5 != 0, 1, 0)
    if m == 'F':
        bad = bad + c.ite(number(c, e[k + 1:]) % 5 != 0, 1, 0)
    c.check(ers.get_number_of_errors() == bad, 'only flight levels off the 5 grid are reported')
    for x in ers.get_all_errors():
        c.check(x.get_name() == e, 'the element with the bad flight level is named')
        c.check(x.get_error_text() == 'The flight level \'' + e + '\' must end in a zero or 5', 'flight level message')
    for i in range(ers.get_number_of_elements()):
        if i != at:
            o = ers.get_element_at(i)
            c.check(o.get_altitude_cruise_to() == '', 'no other record has a cruise climb level')
            c.check(o.get_altitude_cruise_to_si() == 0, 'no other record has a cruise climb level')


def harnesses(tier):
    hs = []
    for s in SPEED:
        for l in LEVEL:
            for m in list(LEVEL) + ['+']:
                hs.append(H('climb %s%s%s' % (s, l, m), climb, 'every digit free', s=s, l=l, m=m, before=['PNT'],
                            after=['RNT']))
                hs.append(H('last %s%s%s' % (s, l, m), climb, 'every digit free', s=s, l=l, m=m,
                            before=['PNT', '/', 'N0400F200', 'DCT'], after=[]))
    return rotate(hs) + structural(tier, ['cruise', 'name', 'level', 'result'], only=CLIMB, deep=CLIMB[:11])
