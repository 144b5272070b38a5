"""Everything the field 15 grammar generates is accepted, and extracted as generated."""
from geo15 import *

OUTSIDE = ('fields with more segments than stated; route elements of other shapes than the templates; grammar '
           'productions not listed in props/C16.py')
ASSUMPTIONS = ['the productions in props/C16.py are legal field 15 according to ICAO Doc 4444']

NAMED = ['[QR]', '[QR]@', '[QR]@@', '[QR]@@@', '[QR]@@@@', '[QR]@@1##045', '[QR]@2##045']
PLAIN = ['[QR]', '[QR]@', '[QR]@@', '[QR]@@@', '[QR]@@@@']
LATLONG = ['[0-8]#[NS]0##[EW]', '[0-8]#[NS]1[0-7]#[EW]', '[0-8]#[0-5]#[NS]0##[0-5]#[EW]',
           '[0-8]#[NS]0##[EW][0-2]#####', '[0-8]#[0-5]#[NS]1[0-7]#[0-5]#[EW]3[0-5]####']
ROUTES = ['@#', 'U@##', '@###', '@@#', '@@##', '@@###', '@@@#', '@@@##', '@@@###', 'U@@@#', '@#@', '@##@', '@###@',
          '@@#@', 'NAT@', 'NAT@#', 'PTS#', 'PTS@']
LVL = ['F##0', 'F##5', 'S####', 'A###', 'M####']
SLS = [s + l for s in ('M###', 'N####', 'K####') for l in LVL]
SVS = ['M###VFR', 'N####VFR', 'K####VFR']
SAAS = [s + l + m for s in ('M###', 'N####', 'K####') for l in ('F##0', 'A###', 'S####', 'M####')
        for m in ('F##5', 'A###', 'S####', 'M####', 'PLUS')]
TIMES = ['0#[0-5]#', '1#[0-5]#', '2[0-3][0-5]#']
TEXTS = ['[QR]@@', 'N####F###', '/', 'DCT', '@##', 'a[b-z]!', 'STAY1', 'T', 'OAT']
SIDS = ['@@@#@', '@@@##@', '@@@@@#@', '@@@@@##', '@@@@@#', 'SID']
STARS = ['@@@#@', '@@@##@', '@@@@@#@', '@@@@@##', '@@@@@#', 'STAR']
ALPHA = {}


def alphabet(name):
    a = ALPHA.get(name)
    if a is None:
        a = ALPHA[name] = [tm(x) for x in globals()[name]]
    return a


# one shape per element kind (and base type), for the parts of a field whose structure varies rather than their shapes
NARROW = {'NAMED': ['[QR]@@1##045'], 'PLAIN': ['[QR]@@'], 'LATLONG': ['[0-8]#S0##W'], 'ROUTES': ['U@##'],
          'SLS': ['N####A###'], 'SVS': ['N####VFR'], 'SAAS': ['K####A###A###'], 'TIMES': ['1#[0-5]#'],
          'TEXTS': ['[QR]@@'], 'SIDS': ['@@@#@', 'SID'], 'STARS': ['@@@@@#@', 'STAR'], 'STAYS': ['STAY#']}


def narrow(name):
    """The shape is another one in every harness."""
    n = PALETTE[0]
    if n == 0 or name == 'STAYS':
        return [tm(x) for x in NARROW[name]]
    a = alphabet(name)
    some = a[(5 * n + len(name)) % len(a)]
    if name in ('SLS', 'SVS', 'SAAS', 'LATLONG'):
        some = tuple([x if isinstance(x, str) else thin(x, n + i) for i, x in enumerate(some)])
    return [some] + [tm(x) for x in NARROW[name][1:]]


def thin(ranges, n):
    """One character out of a class."""
    cs = [chr(k) for lo, hi in ranges for k in range(lo, hi + 1)]
    return cs[n % len(cs)]


class Field:
    """A field 15 under construction: element texts and the records they stand for."""

    def __init__(self, c):
        self.c = c
        self.wide = False
        self.texts = []
        self.names = ['ADEP']
        self.latlong = False
        self.after = ''

    def free(self, name):
        if self.wide:
            return self.c.kind('t%d' % len(self.texts), alphabet(name))[0]
        return self.c.kind('t%d' % len(self.texts), narrow(name))[0]

    def put(self, text, record=True):
        self.after = ''
        self.texts.append(text)
        if record:
            self.names.append(text)

    def mod(self, text):
        self.put(text, False)

    def pnt(self):
        self.put(self.free('NAMED'))
        self.latlong = True

    def plain(self):
        self.put(self.free('PLAIN'))
        self.latlong = False

    def ll(self):
        self.put(self.free('LATLONG'))
        self.latlong = True

    def rte(self):
        self.put(self.free('ROUTES'))

    def level(self):
        self.mod('/')
        self.mod(self.free('SLS'))
        self.after = 'level'

    def vfr_level(self):
        self.mod('/')
        self.mod(self.free('SVS'))
        self.names.append('VFR')


def seg_point(f):
    f.pnt()


def seg_latlong(f):
    f.ll()


def seg_dct(f):
    f.put('DCT')
    f.plain()


def seg_dct_latlong(f):
    f.put('DCT')
    f.ll()


def seg_route(f):
    f.rte()
    f.plain()


def seg_level(f):
    f.level()
    f.plain()


def seg_level_dct_latlong(f):
    f.level()
    f.put('DCT')
    f.ll()


def seg_level_route(f):
    f.level()
    f.rte()
    f.plain()


def stay(f):
    f.mod(f.free('STAYS'))
    f.mod('/')
    f.mod(f.free('TIMES'))
    f.after = 'stay'


STAYS = ['STAY#']


def seg_stay(f):
    stay(f)
    f.put('DCT')
    f.plain()


def seg_stay_point(f):
    stay(f)
    f.pnt()


def seg_stay_route(f):
    stay(f)
    f.rte()
    f.plain()


def climb(f):
    f.mod('C')
    f.mod('/')
    f.ll()
    f.mod('/')
    f.mod(f.free('SAAS'))


def seg_climb(f):
    climb(f)
    f.plain()


def seg_climb_plain(f):
    f.mod('C')
    f.mod('/')
    f.plain()
    f.mod('/')
    f.mod(f.free('SAAS'))


def seg_dct_climb(f):
    f.put('DCT')
    f.mod('C')
    f.mod('/')
    f.plain()
    f.mod('/')
    f.mod(f.free('SAAS'))
    f.wide = False
    f.rte()
    f.plain()


def seg_vfr(f):
    f.put('VFR')
    f.mod(f.free('TEXTS'))
    f.mod('IFR')
    f.plain()
    f.level()


def seg_vfr_latlong(f):
    f.put('VFR')
    f.mod('IFR')
    f.ll()
    f.level()


def seg_vfr_level(f):
    f.vfr_level()
    f.mod(f.free('TEXTS'))
    f.mod('IFR')
    f.plain()
    f.level()


def seg_oat(f):
    f.put('OAT')
    f.mod(f.free('TEXTS'))
    f.mod('GAT')
    f.plain()


def seg_oat_latlong(f):
    f.put('OAT')
    f.mod('GAT')
    f.ll()


def seg_ifp(f):
    f.put('IFPSTOP')
    f.mod(f.free('TEXTS'))
    f.mod('IFPSTART')
    f.plain()


# what may not follow, apart from what needs a named point before it
NOT_AFTER = {'': ()}
ANYWHERE = [stay, climb, Field.level, seg_climb_plain, seg_point, seg_latlong, seg_dct, seg_dct_latlong, seg_level, seg_level_dct_latlong, seg_stay,
            seg_stay_point, seg_climb, seg_dct_climb, seg_vfr, seg_vfr_latlong, seg_vfr_level, seg_oat, seg_oat_latlong,
            seg_ifp]
NAMED_ONLY = [seg_route, seg_level_route, seg_stay_route]


def start_point(f):
    f.plain()


def start_latlong(f):
    f.ll()


def start_dct(f):
    f.put('DCT')
    f.plain()


def start_sid(f):
    f.put(f.free('SIDS'))
    f.plain()


def start_sid_route(f):
    f.put(f.free('SIDS'))
    f.rte()
    f.plain()


def start_vfr(f):
    f.names.append('VFR')
    f.mod(f.free('TEXTS'))
    f.mod('IFR')
    f.plain()
    f.level()


STARTS = [start_point, start_latlong, start_dct, start_sid, start_sid_route, start_vfr]


def end_nothing(f):
    pass


def end_t(f):
    f.mod('T')


def end_star(f):
    f.put(f.free('STARS'))


def end_dct_t(f):
    f.put('DCT')
    f.mod('T')


def end_dct(f):
    f.put('DCT')


def end_route_t(f):
    f.rte()
    f.mod('T')


def end_route(f):
    f.rte()


def end_stay(f):
    stay(f)


def end_level(f):
    f.level()


def end_level_t(f):
    f.level()
    f.mod('T')


def end_level_star(f):
    f.level()
    f.put(f.free('STARS'))


def end_climb(f):
    climb(f)


def end_vfr(f):
    f.put('VFR')
    f.mod(f.free('TEXTS'))


def end_vfr_level(f):
    f.vfr_level()
    f.mod(f.free('TEXTS'))


def end_oat(f):
    f.put('OAT')


ENDS = [end_nothing, end_t, end_star, end_dct_t, end_dct, end_stay, end_level, end_level_t, end_level_star, end_climb,
        end_vfr, end_vfr_level, end_oat]
NAMED_ENDS = [end_route_t, end_route]


NOT_AFTER['level'] = (Field.level, seg_level, seg_level_dct_latlong, seg_level_route, seg_vfr_level, end_level,
                      end_level_t, end_level_star, end_vfr_level)
NOT_AFTER['stay'] = NOT_AFTER['level'] + (stay, seg_stay, seg_stay_point, seg_stay_route, end_stay)


def some(f, name, anywhere, named):
    ps = [p for p in (anywhere if f.latlong else anywhere + named) if p not in NOT_AFTER[f.after]]
    p = ps[f.c.choose(name, len(ps))]
    p(f)


def accepted(c, start, K, ends):
    """The structure varies: every start, up to K segments and every ending; one shape per element."""
    f = Field(c)
    f.mod(f.free('SVS' if start is start_vfr else 'SLS'))
    start(f)
    for i in range(c.choose('n', K + 1)):
        some(f, 's%d' % i, ANYWHERE, NAMED_ONLY)
    if ends == 'all':
        some(f, 'end', ENDS, NAMED_ENDS)
    else:
        some(f, 'end', [end_nothing, end_dct_t, end_star], [])
    f.names.append('ADES')
    judge(c, f)


def shapes(c, part, kind):
    """The shapes vary: every shape of every element of one production, in a field of fixed structure."""
    f = Field(c)
    f.wide = kind == 'start'
    if kind == 'level' or part is start_vfr:
        f.wide = True
        f.mod(f.free('SVS' if part is start_vfr else 'SLS'))
        f.wide = kind == 'start'
    else:
        f.mod(f.free('SLS') if kind != 'start' else f.c.kind('t0', [tm('N####F##0')])[0])
    if kind == 'start':
        part(f)
    else:
        f.plain()
    f.wide = kind != 'start' and kind != 'level'
    if kind != 'start' and kind != 'level':
        part(f)
    f.wide = False
    if kind != 'end':
        seg_dct(f)
    f.names.append('ADES')
    judge(c, f)


def judge(c, f):
    if not c.symbolic:
        c.note('field 15: ' + ' '.join(f.texts))
    ers, res = run(c, f.texts)
    c.check(ers.get_number_of_errors() == 0, 'a legal field 15 gives no errors')
    c.check(res is True, 'a legal field 15 is accepted')
    c.check(ers.get_number_of_elements() == len(f.names), 'every route element is extracted once')
    for i in range(len(f.names)):
        c.check(ers.get_element_at(i).get_name() == f.names[i], 'record %d is the element generated' % i)


def repeated(c, seg, n, start):
    """One production many times over."""
    f = Field(c)
    f.mod(f.free('SLS'))
    f.plain()
    for i in range(n):
        if seg in NAMED_ONLY and f.latlong or seg in NOT_AFTER[f.after]:
            f.put('DCT')
            f.plain()
        seg(f)
    f.names.append('ADES')
    judge(c, f)


def harnesses(tier):
    hs = []
    thorough = tier == 'thorough'
    for s in STARTS:
        hs.append(H(s.__name__, accepted, '%s, up to %d of %d segment productions, %d endings; characters free' % (
            s.__name__, 2 if thorough else 1, len(ANYWHERE + NAMED_ONLY), len(ENDS + NAMED_ENDS)),
            start=s, K=2 if thorough else 1, ends='all'))
    for s in STARTS if thorough else STARTS[:2]:
        hs.append(H('segments after ' + s.__name__, accepted, '%s, up to %d of %d segment productions, 3 endings; '
                    'characters free' % (s.__name__, 3 if thorough else 2, len(ANYWHERE + NAMED_ONLY)),
                    start=s, K=3 if thorough else 2, ends='few'))
    hs.append(H('shapes of level', shapes, 'every shape of speed and level', part=None, kind='level'))
    for k, ps in (('start', STARTS), ('segment', ANYWHERE + NAMED_ONLY), ('end', ENDS + NAMED_ENDS)):
        for s in ps:
            hs.append(H('shapes of ' + s.__name__, shapes, 'every shape of the elements of the production, characters '
                        'free', part=s, kind=k))
    for s in ANYWHERE + NAMED_ONLY:
        hs.append(H('many ' + s.__name__, repeated, '6 times the production', seg=s, n=6, start=None))
    return rotate(hs)
