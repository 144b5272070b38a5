"""Speed of sound and Mach conversion utilities."""
from levels import *

OUTSIDE = 'altitudes beyond 40 km; fractions of a quarter metre; the product of two free numbers'
ASSUMPTIONS = ['double rounding is bounded by an accumulated error term added to ideal real arithmetic',
               'square roots are bounded by exact tangent/chord facts']
HEIGHTS = [1, 300, 999.5, 3048, 10668, 10999, 11000, 11001, 20000, 40000]
MACHS = [1, 40, 78, 82, 99.5, 100, 101, 217, 999]
TOP = 160000


def height(c, name, lo=0):
    return c.int(name, lo, TOP) * 0.25


def exact(c):
    """331.15 m/s times the root of the absolute temperature over 273.15 K, 6.45 K colder per kilometre up to
    11 km and no colder above."""
    h = height(c, 'h')
    c.check(c.abs_le(Utils.speed_of_sound_at_altitude(h) - sound(c, h), 1e-6), 'speed of sound at altitude')


def bounded(c):
    h = height(c, 'h')
    v = Utils.speed_of_sound_at_altitude(h)
    c.check(v >= 294, 'speed of sound is at least that of the tropopause')
    c.check(v <= 341, 'speed of sound is at most that of the ground')


def constant_above(c):
    a, b = height(c, 'a', 44000), height(c, 'b', 44000)
    d = Utils.speed_of_sound_at_altitude(a) - Utils.speed_of_sound_at_altitude(b)
    c.check(c.abs_le(d, 1e-6), 'no change above 11,000 m')


def falling(c):
    """Never faster further up; a kilometre up below the tropopause always costs three to five m/s."""
    a = c.int('a', 0, 40000) * 0.25
    d = Utils.speed_of_sound_at_altitude(a) - Utils.speed_of_sound_at_altitude(a + 1000)
    c.check(d >= 3, 'the speed of sound falls with altitude')
    c.check(d <= 5, 'the speed of sound falls by at most 5 m/s per kilometre')


def whole(c):
    """Integer altitudes, as the parser passes them."""
    h = c.int('h', 0, 99990)
    c.check(c.abs_le(Utils.speed_of_sound_at_altitude(h) - sound(c, h), 1e-6), 'speed of sound at altitude')


def mach_free(c, h):
    m = c.int('m', 0, 3996) * 0.25
    c.check(c.abs_le(Utils.mach_to_ms_speed(m, h) - m * sound(c, h) * 0.01, 1e-5), 'Mach number at altitude')


def mach_ground(c, zero):
    m = c.int('m', 0, 3996) * 0.25
    c.check(c.abs_le(Utils.mach_to_ms_speed(m, zero) - m * 3.43, 1e-6), 'Mach number at level 0')


def height_free(c, m):
    h = height(c, 'h', 1)
    c.check(c.abs_le(Utils.mach_to_ms_speed(m, h) - sound(c, h) * (m * 0.01), 1e-5), 'Mach number at altitude')


def no_mach(c):
    h = height(c, 'h')
    c.check(c.abs_le(Utils.mach_to_ms_speed(0, h), 1e-9), 'Mach 0 is standstill')


def harnesses(tier):
    hs = [H('exact', exact, '0..40 km in steps of 0.25 m'), H('whole metres', whole, '0..99990 m'),
          H('bounded', bounded, '0..40 km in steps of 0.25 m'),
          H('constant above', constant_above, 'two altitudes in 11..40 km'),
          H('falling', falling, '0..10 km in steps of 0.25 m'),
          H('Mach 0', no_mach, '0..40 km in steps of 0.25 m')]
    for h in HEIGHTS:
        hs.append(H('Mach at %s m' % h, mach_free, 'Mach 0..9.99 in steps of 0.0025', h=h))
    for z in (0, 0.0):
        hs.append(H('Mach at %s' % z, mach_ground, 'Mach 0..9.99 in steps of 0.0025', zero=z))
    for m in MACHS:
        hs.append(H('Mach %s' % m, height_free, '0.25 m..40 km in steps of 0.25 m', m=m))
    return hs
