"""Shared by the speed / level properties: elements with free digits and their independent evaluation."""
from f15 import *
from sx.api import H

SPEED = {'M': 'M###', 'N': 'N####', 'K': 'K####'}
LEVEL = {'F': 'F###', 'S': 'S####', 'A': 'A###', 'M': 'M####'}


def number(c, s):
    """Value of a string of digits, digit by digit."""
    v = 0
    for i in range(len(s)):
        v = v * 10 + (ord(s[i]) - 48)
    return v


def level_ok(c, got, text, label):
    """SI level of a level text: nearest metre."""
    v = number(c, text[1:])
    if text[0] in 'FA':
        c.check(c.abs_le(got - v * 30.48, 0.5001), label)
    else:
        c.check(got == v * 10, label)


def sound(c, h):
    """Speed of sound in the standard atmosphere, h metres."""
    hh = c.clamp(h, 0, 11000)
    return c.sqrt((288.15 - 0.00645 * hh) / 273.15) * 331.15


def speed_ok(c, got, text, level_si, label):
    v = number(c, text[1:])
    if text[0] == 'N':
        c.check(c.abs_le(got - v * 1852.0 / 3600.0, 0.505), label)
    elif text[0] == 'K':
        c.check(c.abs_le(got - v / 3.6, 0.5005), label)
    else:
        mach_ok(c, got, v, level_si, label)


def mach_ok(c, got, v, h, label):
    a = sound(c, h)
    at_ground = c.abs_le(got - v * 3.43, 0.5001)
    aloft = c.abs_le(got - v * a * 0.01, 0.5001)
    c.check(c.implies(h == 0, at_ground), label + ' (level 0)')
    c.check(c.implies(h != 0, aloft), label)


def split_level(c, text, at, letter):
    n = len(LEVEL[letter])
    return text[at:at + n]


def element(c, name, spec):
    return c.text(name, tm(spec))


def fields(texts):
    ts = Tokens()
    at = 0
    for t in texts:
        ts.create_append_token(t, at, at + len(t))
        at = at + len(t) + 1
    return ts


# what stands for the fixed elements of a field, by palette
WORDS = {
    'N0450F350': ('M082A095', 'K0830S1190', 'N0250M0840', 'M079S0950', 'K0333A045', 'N0490F410', 'M090M0700'),
    'M082F330': ('K0701A110', 'N0311S0610', 'M077M1010', 'N0480F250', 'K0888M0040', 'M081A015', 'K0605F200'),
    'M082S1130': ('N0222A130', 'K0702F310', 'M066M0930', 'N0333S0410', 'M083F390', 'K0444A021', 'N0512M1200'),
    'N0400F200': ('K0444S0730', 'M075F275', 'N0390A080', 'M080M0820', 'K0512F095', 'N0401S0444', 'M061A125'),
    'M082F290F350': ('N0310A050S0400', 'K0600S0900F330', 'M080M0800M0900', 'N0400F100F200', 'K0505A040F090',
                     'M079S0840M0900', 'N0222A030A060'),
    'N0310F290PLUS': ('K0444S0800PLUS', 'M080A080PLUS', 'N0220M0500PLUS', 'K0610F270PLUS', 'M083M0960PLUS',
                      'N0299S0720PLUS', 'M084F410PLUS'),
    'N0100VFR': ('K0201VFR', 'M049VFR', 'N0088VFR', 'K0190VFR', 'M051VFR', 'N0120VFR', 'K0222VFR'),
    'N0110VFR': ('M050VFR', 'N0099VFR', 'K0185VFR', 'M055VFR', 'N0130VFR', 'K0175VFR', 'M044VFR'),
    'PNT': ('LONDO', 'XY', 'B', 'TRENT', 'EGLL', 'ZZZ', 'KP'),
    'QNT': ('TIVLA', 'WZ', 'LFPG', 'KODAP', 'Y', 'NTM', 'EDDF'),
    'RNT': ('Z', 'DVR', 'PITES', 'LIRF', 'OX', 'RKN', 'BUSTA'),
    'TXT': ('1234', 'DCT', 'UL9', 'F350', 'STAY1', 'A/B', 'N0450'),
    'AAA': ('DCT', 'K9', 'TEXT', 'STAR', '0130', 'XXXXX', '1'),
    'UL613': ('M40', 'UT5', 'B902', 'N1', 'UM999', 'Z7', 'UA12'),
    'STAY1': ('STAY9', 'STAY3', 'STAY2', 'STAY8', 'STAY5', 'STAY4', 'STAY6'),
    '0130': ('0001', '2359', '1000', '0045', '0900', '1259', '2001'),
}


def word(w):
    """The element of the present palette that stands where w is written."""
    n = PALETTE[0]
    return WORDS[w][n - 1] if n and isinstance(w, str) and w in WORDS else w


def run_words(c, texts):
    """run() with the fixed elements of the present palette."""
    return run(c, [t if c.made(t) else word(t) for t in texts])


def run(c, texts):
    ers = ExtractedRouteSequence()
    res = ParseF15().parse_f15(ers, fields(texts))
    return ers, res
