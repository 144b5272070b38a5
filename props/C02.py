"""Element classification: every text is given the one type ICAO Doc 4444 gives it."""
from f15 import *
from sx.api import H

OUTSIDE = 'elements longer than 30 characters (the length rule is also decided for 60)'
ASSUMPTIONS = ['the classification table of this file states the element syntax']

U = ((65, 90),)
N = ((48, 57),)

# element syntax, in order of precedence: (shape, base type, subtype); # digit, @ letter
SPEED = {'M': 'M###', 'N': 'N####', 'K': 'K####'}
LEVEL = {'F': 'F###', 'S': 'S####', 'A': 'A###', 'M': 'M####'}
TABLE = [('/', 'SLASH', 'SLASH'), ('VFR', 'BREAK_START', 'VFR'), ('OAT', 'BREAK_START', 'OAT'),
         ('IFPSTOP', 'BREAK_START', 'IFPSTOP'), ('IFR', 'BREAK_END', 'IFR'), ('GAT', 'BREAK_END', 'GAT'),
         ('IFPSTART', 'BREAK_END', 'IFPSTART'), ('DCT', 'DCT', 'DCT'), ('STAY#', 'STAY', 'STAY'),
         ('T', 'TRUNCATE', 'TRUNCATE'), ('C', 'C', 'C'), ('SID', 'SID', 'SID_LITERAL'),
         ('STAR', 'STAR', 'STAR_LITERAL'),
         ('[0-1]#[0-5]#', 'STAY_TIME', 'STAY_TIME'), ('2[0-3][0-5]#', 'STAY_TIME', 'STAY_TIME'),
         ('NAT@', 'ROUTE', 'NAT'), ('NAT@#', 'ROUTE', 'NAT'), ('PTS#', 'ROUTE', 'PTS'), ('PTS@', 'ROUTE', 'PTS'),
         ('@@@@', 'POINT', 'PRP_AERO'), ('@@@@@', 'POINT', 'PRP')]
TABLE += [('@' * n, 'POINT', 'PRP') for n in (1, 2, 3)]
TABLE += [('@' * n + '######', 'POINT', 'PRP_BD') for n in range(1, 6)]
TABLE += [('##[NS]###[EW]', 'POINT', 'LL_DEG'), ('####[NS]#####[EW]', 'POINT', 'LL_MIN'),
          ('##[NS]###[EW]######', 'POINT', 'LLBD_DEG'), ('####[NS]#####[EW]######', 'POINT', 'LLBD_MIN')]
TABLE += [(x, 'ROUTE', 'ATS') for x in ('@#', '@@#', '@##', '@###', '@#@', '@##@', '@###@', '@@#@', '@@##', '@@###',
                                        '@@##@', '@@###@')]
TABLE += [('@@@###', 'ROUTE', 'ATS_TURK'), ('@@@#', 'ROUTE', 'ATS_OLD'), ('@@@##', 'ROUTE', 'ATS_OLD'),
          ('@@@@#', 'ROUTE', 'ATS_RUS'), ('@@@@##', 'ROUTE', 'ATS_RUS')]
TABLE += [(x, 'SID_STAR', 'STAR') for x in ('@@@#@', '@@@##@', '@@@@#@', '@@@@@#', '@@@@@##', '@@@@@#@', '@@@@@##@',
                                            '@@@@@@#@')]
for s_ in SPEED:
    TABLE.append((SPEED[s_] + 'VFR', 'SPEED_VFR', 'SPEED_ALTITUDE_' + s_ + 'V'))
    for l_ in LEVEL:
        TABLE.append((SPEED[s_] + LEVEL[l_], 'SPEED_ALTITUDE', 'SPEED_ALTITUDE_' + s_ + l_))
        TABLE.append((SPEED[s_] + LEVEL[l_] + 'PLUS', 'SPEED_ALTITUDE_PLUS', 'SPEED_ALTITUDE_' + s_ + l_ + '_P'))
        for m_ in LEVEL:
            TABLE.append((SPEED[s_] + LEVEL[l_] + LEVEL[m_], 'SPEED_ALTITUDE_ALTITUDE',
                          'SPEED_ALTITUDE_' + s_ + l_ + m_))
SHAPES = {}
for spec_, b_, s_ in TABLE:
    t_ = tm(spec_)
    SHAPES.setdefault(len(t_), []).append((t_, bt(b_), st(s_)))

ANYCHAR = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def char_is(c, ch, cell):
    if isinstance(cell, str):
        return ch == cell
    return c.any(*[c.both(ch >= chr(a), ch <= chr(b)) for a, b in cell])


def shape_is(c, text, n, template):
    return c.both(*[char_is(c, text[i:i + 1], template[i]) for i in range(n)])


def classify(c, text, n, prop):
    """Run the parser on this single element and compare the type it gives it."""
    ts = Tokens()
    ts.create_append_token(text, 3, 3 + n)
    ParseF15().parse_f15(ExtractedRouteSequence(), ts)
    tok = ts.get_token_at(0)
    b, s = tok.get_token_base_type(), tok.get_token_sub_type()
    if n > 25:
        c.check(b == bt('TOO_LONG'), 'an element of more than 25 characters is too long')
        c.reach('too long')
        return
    seen = False
    for template, wb, ws in SHAPES.get(n, []):
        hit = c.both(shape_is(c, text, n, template), c.no(seen))
        c.check(c.implies(hit, b == wb), 'base type of %s' % show_shape(template))
        c.check(c.implies(hit, s == ws), 'subtype of %s' % show_shape(template))
        seen = c.any(seen, hit)
    c.check(c.implies(c.no(seen), b == bt('UNKNOWN')), 'any other text is unknown')
    c.check(c.implies(c.no(seen), s == st('UNKNOWN')), 'any other text is unknown')
    c.reach('type %d' % int(b))


def show_shape(t):
    return ''.join([x if isinstance(x, str) else '#' if x == N else '@' if x == U else '?' for x in t])


def arbitrary(c, n):
    classify(c, c.text('e', (ANYCHAR,) * n), n, None)


def shaped(c, shapes):
    """Elements of known shape with one character replaced by an arbitrary one."""
    text, k = c.kind('e', shapes)
    n = len(text)
    classify(c, text, n, None)


def in_field(c, n):
    """The type does not depend on where the element stands."""
    text = c.text('e', (ANYCHAR,) * n)
    one, two = Tokens(), Tokens()
    one.create_append_token(text, 0, n)
    for t in ('N0450F350', 'PNT', text, text, 'A1', 'PNT'):
        two.create_append_token(t, 0, n)
    ParseF15().parse_f15(ExtractedRouteSequence(), one)
    ParseF15().parse_f15(ExtractedRouteSequence(), two)
    a = one.get_token_at(0)
    for i in (2, 3):
        b = two.get_token_at(i)
        c.check(a.get_token_base_type() == b.get_token_base_type(), 'base type independent of the place')
        c.check(a.get_token_sub_type() == b.get_token_sub_type(), 'subtype independent of the place')


def lookup(c, n):
    """The syntax definition itself, asked directly."""
    text = c.text('e', (ANYCHAR,) * n)
    r = F15TokenSyntaxDefinition().get_token_type(text)
    b = r[F15TokenSyntaxDefinition.TOKEN_BASE_IDENTIFIER_IDX]
    s = r[F15TokenSyntaxDefinition.TOKEN_SUBTYPE_IDENTIFIER_IDX]
    seen = False
    for template, wb, ws in SHAPES.get(n, []):
        hit = c.both(shape_is(c, text, n, template), c.no(seen))
        c.check(c.implies(hit, c.both(b == wb, s == ws)), 'definition of %s' % show_shape(template))
        seen = c.any(seen, hit)
    c.check(c.implies(c.no(seen), b == bt('UNKNOWN')), 'any other text is unknown')


def harnesses(tier):
    hs = []
    for n in list(range(0, 31)) + [60]:
        hs.append(H('any %d characters' % n, arbitrary, 'every string of %d Unicode characters' % n,
                    summary=False, n=n))
    for n in range(0, 20):
        hs.append(H('definition of %d characters' % n, lookup, 'every string of %d Unicode characters' % n,
                    summary=False, n=n))
    for n in (1, 2, 3, 4, 5, 7) if tier == 'quick' else range(1, 26):
        hs.append(H('%d characters anywhere' % n, in_field, 'every string of %d Unicode characters' % n,
                    summary=False, n=n))
    return hs
