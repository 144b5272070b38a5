"""Shared by the property harnesses: access to the code under test, token alphabets, and an independent
reference model of the ICAO field 15 grammar, its diagnostics and its error recovery."""
from F15_Parser.F15Parse import ParseF15
from F15_Parser.ExtractedRouteSequence import ExtractedRouteSequence
from F15_Parser.ExtractedRouteRecord import ExtractedRouteRecord
from F15_Parser.F15TokenSyntaxDescriptions import TokenBaseType, TokenSubType, F15TokenSyntaxDefinition
from F15_Parser.ErrorMessageDefinitions import ErrorMessages
from Tokenizer.Tokens import Tokens
from Tokenizer.Token import Token
from Tokenizer.Tokenize import Tokenize
from Utilities.Utils import Utils
from sx.api import H

D = ((48, 57),)
AZ = ((65, 90),)


def tm(spec):
    """Template from a compact notation: '9' any digit, '@' any letter A-Z, '\\x' the character x itself,
    '[a-c]' a class, anything else itself."""
    out = []
    i = 0
    while i < len(spec):
        ch = spec[i]
        if ch == '\\':
            out.append(spec[i + 1])
            i += 2
            continue
        if ch == '#':
            out.append(D)
        elif ch == '@':
            out.append(AZ)
        elif ch == '[':
            j = spec.index(']', i)
            body = spec[i + 1:j]
            rs = []
            k = 0
            while k < len(body):
                if k + 2 < len(body) and body[k + 1] == '-':
                    rs.append((ord(body[k]), ord(body[k + 2])))
                    k += 3
                else:
                    rs.append((ord(body[k]), ord(body[k])))
                    k += 1
            rs.sort()
            out.append(tuple(rs))
            i = j
        else:
            out.append(ch)
        i += 1
    return tuple(out)


class Kind:
    def __init__(self, spec, base, sub, speed=None, level=None, cruise=None, minutes=None):
        self.spec, self.base, self.sub = spec, base, sub
        self.template = tm(spec)
        self.speed, self.level, self.cruise = speed, level, cruise
        self.bad = off_level(level)
        self.bad_cruise = off_level(cruise)
        self.minutes = minutes
        self.bt, self.st = bt(base), st(sub)


def bt(name):
    return TokenBaseType['F15_' + name]


def st(name):
    return TokenSubType['F15_SB_' + name]


def off_level(level):
    return bool(level) and level[0] == 'F' and level[1:].isdigit() and int(level[1:]) % 5 != 0


def sa(speed, level):
    return Kind(speed + level, 'SPEED_ALTITUDE', 'SPEED_ALTITUDE_' + speed[0] + level[0], speed, level)


def saa(speed, level, cruise):
    return Kind(speed + level + cruise, 'SPEED_ALTITUDE_ALTITUDE',
                'SPEED_ALTITUDE_' + speed[0] + level[0] + cruise[0], speed, level, cruise)


def plus(speed, level):
    return Kind(speed + level + 'PLUS', 'SPEED_ALTITUDE_PLUS', 'SPEED_ALTITUDE_' + speed[0] + level[0] + '_P',
                speed, level, 'PLUS')


def svfr(speed):
    return Kind(speed + 'VFR', 'SPEED_VFR', 'SPEED_ALTITUDE_' + speed[0] + 'V', speed)


def pt(spec, sub='PRP'):
    return Kind(spec, 'POINT', sub)


KINDS = {
    '/': Kind('/', 'SLASH', 'SLASH'),
    'VFR': Kind('VFR', 'BREAK_START', 'VFR'),
    'OAT': Kind('OAT', 'BREAK_START', 'OAT'),
    'IFPSTOP': Kind('IFPSTOP', 'BREAK_START', 'IFPSTOP'),
    'IFR': Kind('IFR', 'BREAK_END', 'IFR'),
    'GAT': Kind('GAT', 'BREAK_END', 'GAT'),
    'IFPSTART': Kind('IFPSTART', 'BREAK_END', 'IFPSTART'),
    'DCT': Kind('DCT', 'DCT', 'DCT'),
    'STAY': Kind('STAY#', 'STAY', 'STAY'),
    'TIME': Kind('01[0-5]#', 'STAY_TIME', 'STAY_TIME'),
    'TIME0': Kind('0130', 'STAY_TIME', 'STAY_TIME'),
    'T': Kind('T', 'TRUNCATE', 'TRUNCATE'),
    'C': Kind('C', 'C', 'C'),
    'SID': Kind('SID', 'SID', 'SID_LITERAL'),
    'STAR': Kind('STAR', 'STAR', 'STAR_LITERAL'),
    'PNT': pt('[A-CEFHJ-NP-RTUW-Z]@@'),
    'PNT1': pt('[D-H]'),
    'PNT5': pt('[A-HJ-RT-Z]@@@@'),
    'AERO': pt('[A-M]@@@', 'PRP_AERO'),
    'BD': pt('[A-Z]@@1##045', 'PRP_BD'),
    'LLD': pt('50N020W', 'LL_DEG'),
    'LLM': pt('5130S01015E', 'LL_MIN'),
    'LLDBD': pt('10N010E090060', 'LLBD_DEG'),
    'LLMBD': pt('1030N01030E180030', 'LLBD_MIN'),
    'RTE': Kind('[A-L]#', 'ROUTE', 'ATS'),
    'RTE3': Kind('U[A-L]##', 'ROUTE', 'ATS'),
    'NAT': Kind('NAT@', 'ROUTE', 'NAT'),
    'SS': Kind('@@@#@', 'SID_STAR', 'STAR'),
    'SA': sa('N0450', 'F350'),
    'SAM': sa('M082', 'F330'),
    'SAK': sa('K0800', 'S1130'),
    'SAX': sa('N0250', 'F012'),
    'SV': svfr('N0100'),
    'SVM': svfr('M050'),
    'SAA': saa('N0300', 'F100', 'F200'),
    'SAA2': saa('M080', 'M0990', 'A150'),
    'PLUS': plus('N0310', 'F110'),
    'UNK': Kind('[A-Z]#[A-Z]#', 'UNKNOWN', 'UNKNOWN'),
    'LOW': Kind('[a-z][a-z]', 'UNKNOWN', 'UNKNOWN'),
    'LONG': Kind('A' * 26, 'TOO_LONG', 'UNKNOWN'),
    'LONGER': Kind('Z9' * 150, 'TOO_LONG', 'UNKNOWN'),
}
# Other elements of the same kinds: palette n takes the n-th of a list (counted around). They differ in unit, sign,
# length and value, so that what depends on those is met in every state of the grammar. In some of them two elements
# have the same speed, level or both.
OTHER = {
    'SA': [sa('K0830', 'S1130'), sa('M082', 'F330'), sa('N0095', 'A045'), sa('M078', 'M0840'), sa('K0620', 'F295'),
           sa('N0480', 'M0990'), sa('M084', 'S1190')],
    'SAM': [sa('K0830', 'F310'), sa('M082', 'M0700'), sa('M079', 'A045'), sa('N0455', 'M0840'), sa('M081', 'A090'),
            sa('K0334', 'F065'), sa('M084', 'S1190')],
    'SAK': [sa('M085', 'M1010'), sa('N0460', 'F390'), sa('K0700', 'A120'), sa('N0111', 'S0300'), sa('M080', 'F400'),
            sa('K0415', 'M0610'), sa('N0500', 'A009')],
    'SAX': [sa('K0250', 'F033'), sa('M080', 'F351'), sa('N0251', 'F004'), sa('K0777', 'F999'), sa('N0010', 'F001'),
            sa('M079', 'F328'), sa('N0250', 'F107')],
    'SV': [svfr('K0190'), svfr('M050'), svfr('N0120'), svfr('K0222'), svfr('K0620'), svfr('M061'), svfr('M084')],
    'SVM': [svfr('N0130'), svfr('K0230'), svfr('M055'), svfr('N0105'), svfr('M045'), svfr('N0480'), svfr('N0095')],
    'SAA': [saa('K0600', 'S0900', 'F330'), saa('N0310', 'A050', 'S0400'), saa('N0095', 'A045', 'A090'),
            saa('K0555', 'M0300', 'A100'), saa('N0444', 'S0600', 'S0700'), saa('M079', 'S0840', 'M0900'),
            saa('N0301', 'M0610', 'F250')],
    'SAA2': [saa('M081', 'A090', 'F110'), saa('K0606', 'F300', 'M1010'), saa('N0222', 'A030', 'A060'),
             saa('M078', 'S1010', 'F340'), saa('K0505', 'A040', 'F090'), saa('N0333', 'F150', 'A170'),
             saa('M080', 'M0850', 'S0900')],
    'PLUS': [plus('K0444', 'S0800'), plus('M080', 'A080'), plus('N0220', 'M0500'), plus('K0610', 'F270'),
             plus('M083', 'M0960'), plus('N0299', 'S0720'), plus('M084', 'F410')],
    'PNT': [pt('[M-NP-R]@@'), pt('[XY]@'), pt('[TUW]@@@@'), pt('[ZX]@@'), pt('[QR]'), pt('[EF]@'), pt('[KL]@@@@')],
    'PNT5': [pt('[RTU]@@'), pt('[J-L]@@@@'), pt('[YZ]'), pt('[EF]@@@@'), pt('[U-W]@'), pt('[PQ]@@'), pt('[Z]@@@@')],
    'LLD': [pt(x, 'LL_DEG') for x in ('33S070W', '05N151E', '89S179E', '00N000E', '45S001W', '90N180W', '08N009E')],
    'LLM': [pt(x, 'LL_MIN') for x in ('0001N00001W', '8959S17959W', '3025N09945E', '0030S00030E', '4500N18000W',
                                      '9000S00000E', '1207N01159W')],
    'LLDBD': [pt(x, 'LLBD_DEG') for x in ('60S120W360999', '00N179E000010', '45N005W271333', '05S005E135001',
                                          '70N170W001500', '33S151E225045', '20N030W090000')],
    'LLMBD': [pt(x, 'LLBD_MIN') for x in ('6001S12059W359999', '0000N17959E000010', '4530N00530W271333')],
    'BD': [pt('[A-Z]045090', 'PRP_BD'), pt('@@@@@34#500', 'PRP_BD'), pt('@@@000###', 'PRP_BD')],
    'RTE': [Kind('U[A-L]###', 'ROUTE', 'ATS'), Kind('[M-R]##', 'ROUTE', 'ATS'), Kind('[T-Z]###', 'ROUTE', 'ATS')],
    'TIME': [Kind('2[0-3][0-5]#', 'STAY_TIME', 'STAY_TIME'), Kind('00[0-5]#', 'STAY_TIME', 'STAY_TIME'),
             Kind('1#[0-5]#', 'STAY_TIME', 'STAY_TIME')],
    'TIME0': [Kind('2359', 'STAY_TIME', 'STAY_TIME'), Kind('0001', 'STAY_TIME', 'STAY_TIME'),
              Kind('1000', 'STAY_TIME', 'STAY_TIME')],
    'UNK': [Kind('#@@@@@', 'UNKNOWN', 'UNKNOWN'), Kind('[A-H]@@@@@@@', 'UNKNOWN', 'UNKNOWN'),
            Kind('[!-.]@', 'UNKNOWN', 'UNKNOWN')],
    'LONG': [Kind('Z' * 27, 'TOO_LONG', 'UNKNOWN'), Kind('1' * 40, 'TOO_LONG', 'UNKNOWN')],
}
PALETTES = 8
PALETTE = [0]
OFFSETS = ((7000, 100), (0, 12), (3, 45), (52000, 31))


def palette(n):
    """Choose the elements that stand for the kinds from now on."""
    PALETTE[0] = n


H.reset.append(lambda: palette(0))


def rotate(hs, shift=0):
    """Let the harnesses take the palettes in turn."""
    for i, h in enumerate([h for h in hs if 'pal' not in h.params]):
        n = (i + shift) % PALETTES
        h.setup = lambda n=n: palette(n)
        h.bounds += ', elements of palette %d' % n
    return hs


def kind_of(name):
    if not isinstance(name, str):
        return name
    n = PALETTE[0]
    if n and name in OTHER:
        o = OTHER[name]
        return o[(n - 1) % len(o)]
    return KINDS[name]


LL = ('PRP_BD', 'LL_DEG', 'LL_MIN', 'LLBD_DEG', 'LLBD_MIN')

CORE = ['/', 'VFR', 'OAT', 'IFPSTOP', 'IFR', 'GAT', 'IFPSTART', 'DCT', 'STAY', 'TIME', 'T', 'C', 'SID', 'STAR',
        'PNT', 'BD', 'RTE', 'SS', 'SA', 'SV', 'SAA', 'PLUS', 'UNK', 'LONG']
RICH = CORE + ['PNT5', 'AERO', 'LLD', 'LLM', 'LLDBD', 'NAT', 'SAM', 'SAX', 'SVM', 'SAA2', 'LOW', 'LONGER']
SMALL = ['/', 'VFR', 'IFR', 'DCT', 'STAY', 'TIME', 'T', 'C', 'PNT', 'LLD', 'RTE', 'SS', 'SA', 'SV', 'SAA', 'UNK']


class Tok:
    """One field 15 element as the harness sees it."""

    def __init__(self, text, start, end, field):
        self.text, self.start, self.end = text, start, end
        self.base, self.sub = field('base'), field('sub')
        self.speed, self.level, self.cruise = field('speed'), field('level'), field('cruise')
        self.bad, self.bad_cruise = field('bad'), field('bad_cruise')
        self.minutes = field('minutes')
        self.bt, self.st = field('bt'), field('st')


_alpha_cache = {}


def free_token(c, name, names):
    """A token of unknown kind."""
    key = (PALETTE[0], tuple(names))
    ks = _alpha_cache.get(key)
    if ks is None:
        kinds = [kind_of(n) for n in names]
        ks = (kinds, [k.template for k in kinds], {})
        _alpha_cache[key] = ks
    kinds, templates, tables = ks
    text, k = c.kind(name, templates)

    def field(f):
        vals = tables.get(f)
        if vals is None:
            vals = tables[f] = [getattr(x, f) for x in kinds]
        return c.table(k, vals)
    return Tok(text, c.int(name + '.s', 0, 100000), c.int(name + '.e', 0, 100000), field)


def fixed_token(c, i, kname):
    """A token of known kind with fixed text (templates with free characters take the first one)."""
    k = kind_of(kname)
    text = ''.join([x if isinstance(x, str) else chr(x[0][0]) for x in k.template])
    a, b = OFFSETS[PALETTE[0] % len(OFFSETS)]
    return Tok(text, a + b * i, a + b * i + 1 + len(text), lambda f: getattr(k, f))


def sym_token(c, name, kname):
    """A token of known kind whose free characters stay symbolic."""
    k = kind_of(kname)
    text = c.text(name, k.template)
    return Tok(text, c.int(name + '.s', 0, 100000), c.int(name + '.e', 0, 100000), lambda f: getattr(k, f))


# elements with all digits free: parts of an element, its type and subtype.  One factor of Mach times speed of sound is
# given.
NUMBERS = {}


def _numbers():
    for s in ('N####', 'K####', 'M082', 'M###'):
        for l in ('F###', 'A###', 'S####', 'M####') if s != 'M###' else ('F330', 'S1130'):
            NUMBERS[s + l] = (s, l, None, 'SPEED_ALTITUDE', 'SPEED_ALTITUDE_' + s[0] + l[0])
        if s != 'M082':
            NUMBERS[s + 'VFR'] = (s, 'VFR', None, 'SPEED_VFR', 'SPEED_ALTITUDE_%sV' % s[0])
    for s, l, m in (('N####', 'F###', 'F###'), ('K####', 'S####', 'A###'), ('M079', 'M####', 'S####'),
                    ('N####', 'A###', 'M####'), ('K####', 'F###', 'S####'), ('M###', 'F290', 'F###')):
        NUMBERS[s + l + m] = (s, l, m, 'SPEED_ALTITUDE_ALTITUDE', 'SPEED_ALTITUDE_' + s[0] + l[0] + m[0])
    for s, l in (('N####', 'F###'), ('K####', 'M####'), ('M080', 'S####')):
        NUMBERS[s + l + 'PLUS'] = (s, l, 'PLUS', 'SPEED_ALTITUDE_PLUS', 'SPEED_ALTITUDE_' + s[0] + l[0] + '_P')
    for p, s in (('[0-8]#[NS]0##[EW]', 'LL_DEG'), ('[0-8]#[0-5]#N1[0-7]#[0-5]#W', 'LL_MIN'),
                 ('[0-8]#S1[0-7]#[EW][0-2]#####', 'LLBD_DEG'), ('[0-8]#[0-5]#[NS]0##[0-5]#W3[0-5]####', 'LLBD_MIN'),
                 ('@@@[0-2]#####', 'PRP_BD')):
        NUMBERS[p] = (p, '', None, 'POINT', s)


_numbers()


def number_token(c, name, what):
    a, b, d, base, sub = what
    texts = [c.text(name + str(i), tm(x)) if '#' in x else x for i, x in enumerate((a, b, d or ''))]
    f = dict(base=base, sub=sub, bt=bt(base), st=st(sub), speed='', level='', cruise='', bad=False, bad_cruise=False,
             minutes=None)
    if base != 'POINT':
        f['speed'] = texts[0]
        if base != 'SPEED_VFR':
            f['level'] = texts[1]
            f['bad'] = off_grid(c, texts[1])
        if d:
            f['cruise'] = texts[2]
            f['bad_cruise'] = d != 'PLUS' and off_grid(c, texts[2])
    return Tok(texts[0] + texts[1] + texts[2], c.int(name + '.s', 0, 100000), c.int(name + '.e', 0, 100000),
               lambda x: f[x])


def off_grid(c, level):
    return level[0] == 'F' and (ord(level[3]) - 48) % 5 != 0


def make(c, toks):
    """Feed the tokens to the code under test through its public containers."""
    ts = Tokens()
    for t in toks:
        ts.create_append_token(t.text, t.start, t.end)
    return ts


def parse(c, toks):
    ers = ExtractedRouteSequence()
    ts = make(c, toks)
    res = ParseF15().parse_f15(ers, ts)
    return ers, res, ts


# ----------------------------------------------------------------------------------------
# reference model
# ----------------------------------------------------------------------------------------
class Rec:
    """What the model expects of one ERS record."""

    def __init__(self, tok, name, base, sub):
        self.tok, self.name, self.base, self.sub = tok, name, base, sub
        self.start = tok.start if tok is not None else 0
        self.end = tok.end if tok is not None else 0
        self.rules = ''
        self.speed = self.level = self.cruise = ''
        self.speed_src = self.level_src = self.cruise_src = ''
        self.stay = None
        self.brk = []


class Err:
    def __init__(self, tok, num, name=None):
        self.tok, self.num = tok, num
        self.name = tok.text if tok is not None else name


class Model:
    """Field 15 as ICAO Doc 4444 defines it and as the error catalogue of the package words it: which elements
    may follow which, what is recorded, which diagnostic is given, and where reading continues after it."""

    def __init__(self, c, toks):
        self.c = c
        self.toks = toks
        self.i = -1
        self.recs = [Rec(None, 'ADEP', 'POINT', 'PRP_AERO')]
        self.errs = []
        self.derived = ''
        self.result = None
        self.visited = []
        self.run()

    # -- plumbing
    def nxt(self):
        self.i += 1
        return self.toks[self.i] if self.i < len(self.toks) else None

    def peek(self, n):
        j = self.i + n
        return self.toks[j] if j < len(self.toks) else None

    def err(self, tok, num):
        self.errs.append(Err(tok, num))

    def rec(self, tok, name=None):
        last = self.recs[-1]
        r = Rec(tok, tok.text if name is None else name, tok.base, tok.sub)
        r.rules, r.speed, r.level = last.rules, last.speed, last.level
        r.speed_src, r.level_src = last.speed_src, last.level_src
        self.recs.append(r)
        return r

    def flevel(self, tok, bad):
        """error 40: a flight level that does not end in 0 or 5"""
        if bad:
            self.err(tok, 40)

    def run(self):
        if len(self.toks) == 0:
            self.errs.append(Err(None, 41, 'NULL'))
            self.recs.append(Rec(None, 'ADES', 'POINT', 'PRP_AERO'))
            self.result = False
            return
        tok = self.nxt()
        vfr_first = False
        if tok.base == 'SPEED_VFR':
            vfr_first = True
            step = (self.speed_vfr, tok)
        elif tok.base == 'SPEED_ALTITUDE':
            if len(self.toks) == 1:
                self.speed_level(tok)
                self.err(tok, 49)
                step = None
            else:
                step = (self.speed_alt, tok)
        else:
            self.err(tok, 1)
            step = (self.resync, None)
        while step is not None:
            step = step[0](step[1])
        if vfr_first:
            self.recs[0].rules = 'VFR'
        ades = Rec(None, 'ADES', 'POINT', 'PRP_AERO')
        ades.rules = self.recs[-1].rules
        self.recs.append(ades)
        rules = [r.rules for r in self.recs]
        if rules[0] == 'VFR':
            self.derived = 'Z' if 'IFR' in rules else 'V'
        else:
            self.derived = 'Y' if 'VFR' in rules else 'I'
        self.result = len(self.errs) == 0

    def bad(self, tok, num):
        self.err(tok, num)
        return (self.resync, None)

    # -- speed / level elements
    def speed_level(self, tok):
        r = self.recs[-1]
        r.speed, r.level = tok.speed, tok.level
        r.speed_src, r.level_src = tok.speed, tok.level
        self.flevel(tok, tok.bad)
        r.rules = 'IFR'

    def speed_alt(self, tok):
        self.speed_level(tok)
        t = self.nxt()
        if t is None:
            return None
        return (self.adep if len(self.recs) == 1 else self.post_point, t)

    def speed_alt_alt(self, tok):
        r = self.recs[-1]
        self.speed_level(tok)
        r.cruise = tok.cruise
        self.flevel(tok, tok.bad_cruise)
        t = self.nxt()
        return None if t is None else (self.post_point, t)

    def speed_alt_plus(self, tok):
        self.speed_level(tok)
        self.recs[-1].cruise = 'PLUS'
        t = self.nxt()
        return None if t is None else (self.post_point, t)

    def speed_vfr(self, tok):
        before = self.recs[-1]
        r = self.rec(tok, 'VFR')
        r.speed = before.speed = tok.speed
        r.level = before.level = 'F050'
        r.speed_src = before.speed_src = tok.speed
        r.level_src = before.level_src = 'F050'
        r.rules = 'VFR'
        t = self.nxt()
        return None if t is None else (self.break_text, t)

    # -- broken sections
    def break_start(self, tok):
        r = self.rec(tok)
        r.rules = 'OAT' if tok.sub == 'OAT' else 'VFR' if tok.sub == 'VFR' else 'IFPS'
        t = self.nxt()
        return None if t is None else (self.break_text, t)

    def break_text(self, tok):
        if tok.base == 'TOO_LONG':
            self.err(tok, 4)
        r = self.recs[-1]
        r.brk.append(tok.text)
        ender = {'VFR': 'IFR', 'OAT': 'GAT', 'IFPS': 'IFPSTART'}[r.rules]
        if tok.base == 'BREAK_END' and tok.sub == ender:
            s = self.break_end(tok)
            if s is not None:
                return s
        t = self.nxt()
        return None if t is None else (self.break_text, t)

    def break_end(self, tok):
        p = self.peek(1)
        if p is None or p.base != 'POINT':
            return None
        if tok.sub != 'IFR':
            return (self.point, self.nxt())
        s = self.peek(2)
        if s is None:
            return self.bad(p, 22)
        if s.base != 'SLASH':
            return None
        v = self.peek(3)
        if v is None or (v.base != 'SPEED_ALTITUDE' and v.base != 'SPEED_VFR'):
            return self.bad(p, 22)
        self.nxt()
        r = self.rec(p)
        r.rules = 'IFR'
        self.visited.append(r)
        self.nxt()
        self.nxt()
        if v.base == 'SPEED_ALTITUDE':
            return (self.speed_alt, v)
        return (self.speed_vfr, v)

    def stray_end(self, tok):
        return self.bad(tok, 6 if tok.sub == 'IFR' else 7 if tok.sub == 'GAT' else 8)

    # -- states
    def resync(self, _):
        t = self.nxt()
        if t is None:
            return None
        b = t.base
        if b == 'UNKNOWN':
            return self.bad(t, 3)
        if b == 'SLASH':
            n = self.nxt()
            if n is None:
                return self.bad(t, 25)
            nb = n.base
            if nb == 'SPEED_VFR':
                return (self.speed_vfr, n)
            if nb == 'POINT':
                return (self.point, n)
            if nb == 'SPEED_ALTITUDE':
                return (self.speed_alt, n)
            if nb == 'SPEED_ALTITUDE_ALTITUDE':
                return (self.speed_alt_alt, n)
            if nb == 'SPEED_ALTITUDE_PLUS':
                return (self.speed_alt_plus, n)
            return self.bad(n, 11)
        if b == 'BREAK_END':
            s = self.break_end(t)
            return (self.resync, None) if s is None else s
        if b == 'TOO_LONG':
            return self.bad(t, 4)
        if b == 'STAY_TIME':
            return self.bad(t, 10)
        if b == 'SPEED_VFR':
            return (self.speed_vfr, t)
        if b == 'SPEED_ALTITUDE':
            return (self.speed_alt, t)
        if b == 'SPEED_ALTITUDE_ALTITUDE':
            return (self.speed_alt_alt, t)
        if b == 'SPEED_ALTITUDE_PLUS':
            return (self.speed_alt_plus, t)
        return self.element(t)

    def element(self, t):
        """elements that mean the same wherever they are accepted"""
        b = t.base
        if b == 'BREAK_START':
            return (self.break_start, t)
        if b == 'DCT':
            return (self.dct, t)
        if b == 'STAY':
            return (self.stay, t)
        if b == 'TRUNCATE':
            return (self.truncate, None)
        if b == 'C':
            return (self.cruise, t)
        if b == 'POINT':
            return (self.point, t)
        if b == 'ROUTE':
            return (self.route, t)
        if b == 'SID_STAR':
            return (self.sid_star, t)
        if b == 'SID':
            return (self.sid, t)
        if b == 'STAR':
            return (self.star, t)
        return None

    def adep(self, t):
        b = t.base
        if b == 'UNKNOWN':
            return self.bad(t, 3)
        if b == 'ROUTE':
            return self.bad(t, 24)
        if b == 'SPEED_ALTITUDE_ALTITUDE' or b == 'SPEED_ALTITUDE_PLUS':
            return self.bad(t, 9)
        if b == 'TOO_LONG':
            return self.bad(t, 4)
        if b == 'STAY_TIME':
            return self.bad(t, 10)
        if b == 'DCT' or b == 'TRUNCATE' or b == 'POINT' or b == 'SID_STAR' or b == 'SID' or b == 'STAR':
            return self.element(t)
        return self.bad(t, 23)

    def post_point(self, t):
        b = t.base
        if b == 'UNKNOWN':
            return self.bad(t, 3)
        if b == 'SLASH':
            return (self.slash, t)
        if b == 'SPEED_VFR' or b == 'SPEED_ALTITUDE':
            return self.bad(t, 5)
        if b == 'BREAK_END':
            return self.stray_end(t)
        if b == 'SPEED_ALTITUDE_ALTITUDE' or b == 'SPEED_ALTITUDE_PLUS':
            return self.bad(t, 9)
        if b == 'TOO_LONG':
            return self.bad(t, 4)
        if b == 'STAY_TIME':
            return self.bad(t, 10)
        if b == 'ROUTE':
            sub = self.recs[-1].sub
            if sub in LL:
                return self.bad(t, 47)
        return self.element(t)

    def slash(self, t):
        n = self.nxt()
        if n is None:
            return self.bad(t, 20)
        b = n.base
        if b == 'UNKNOWN':
            return self.bad(n, 3)
        if b == 'SLASH':
            return self.bad(n, 16)
        if b == 'SPEED_VFR':
            return (self.speed_vfr, n)
        if b == 'SPEED_ALTITUDE':
            return (self.speed_alt, n)
        if b == 'TOO_LONG':
            return self.bad(n, 4)
        return self.bad(n, 50)

    def point(self, t):
        r = self.rec(t)
        r.rules = 'IFR'
        n = self.nxt()
        return None if n is None else (self.post_point, n)

    def dct(self, t):
        self.rec(t)
        n = self.nxt()
        if n is None:
            return None
        if n.base == 'TRUNCATE' or n.base == 'POINT' or n.base == 'C':
            return self.element(n)
        return self.bad(n, 21)

    def route(self, t):
        r = self.rec(t)
        r.rules = 'IFR'
        n = self.nxt()
        if n is None:
            return None
        b = n.base
        if b == 'UNKNOWN':
            return self.bad(n, 3)
        if b == 'SLASH':
            return self.bad(n, 12)
        if b == 'BREAK_START' or b == 'SPEED_VFR':
            return self.bad(n, 13)
        if b == 'SPEED_ALTITUDE':
            return self.bad(n, 55)
        if b == 'BREAK_END':
            return self.stray_end(n)
        if b == 'DCT':
            return self.bad(n, 14)
        if b == 'STAY':
            return self.bad(n, 15)
        if b == 'ROUTE':
            return self.bad(n, 53)
        if b == 'SID_STAR' or b == 'STAR':
            return self.bad(n, 54)
        if b == 'SPEED_ALTITUDE_ALTITUDE' or b == 'SPEED_ALTITUDE_PLUS':
            return self.bad(n, 9)
        if b == 'TOO_LONG':
            return self.bad(n, 4)
        if b == 'STAY_TIME':
            return self.bad(n, 10)
        if b == 'SID':
            return self.bad(n, 30)
        if b == 'POINT' and n.sub in LL:
            self.err(n, 48)
        return self.element(n)

    def post_sid(self, _):
        n = self.nxt()
        if n is None:
            return None
        b = n.base
        if b == 'TOO_LONG':
            return self.bad(n, 4)
        if b == 'SID':
            return self.bad(n, 32)
        if b == 'TRUNCATE' or b == 'POINT' or b == 'ROUTE' or b == 'SID_STAR' or b == 'STAR':
            return self.element(n)
        return self.bad(n, 31)

    def sid(self, t):
        r = self.rec(t)
        if len(self.recs) == 2:
            return (self.post_sid, None)
        return self.bad(t, 30)

    def sid_star(self, t):
        r = self.rec(t)
        if len(self.recs) == 2:
            r.base, r.sub = 'SID', 'SID'
            return (self.post_sid, None)
        n = self.peek(1)
        if n is None:
            r.base, r.sub = 'STAR', 'STAR'
            return None
        return self.bad(n, 34)

    def star(self, t):
        self.rec(t)
        n = self.peek(1)
        if n is None:
            return None
        return self.bad(n, 34)

    def truncate(self, _):
        n = self.nxt()
        return None if n is None else self.bad(n, 19)

    def stay(self, t):
        n = self.nxt()
        if n is None:
            return self.bad(t, 35)
        if n.base != 'SLASH':
            return self.bad(n, 36)
        m = self.nxt()
        if m is None:
            return self.bad(n, 37)
        if m.base != 'STAY_TIME':
            return self.bad(m, 38)
        if len(self.recs) > 1 and self.recs[-1].base in ('POINT', 'C'):
            self.recs[-1].stay = m
        n = self.nxt()
        if n is None:
            return None
        b = n.base
        if b == 'UNKNOWN':
            return self.bad(n, 3)
        if b == 'BREAK_END':
            return self.stray_end(n)
        if b == 'TOO_LONG':
            return self.bad(n, 4)
        if b == 'STAY':
            return self.bad(n, 39)
        if b == 'ROUTE' and self.recs[-1].sub in LL:
            return self.bad(n, 47)
        s = self.element(n)
        return self.bad(n, 39) if s is None else s

    def cruise(self, t):
        n = self.nxt()
        if n is None:
            self.rec(t)
            return None
        b = n.base
        if b == 'UNKNOWN':
            return self.bad(n, 3)
        if b == 'SLASH':
            p = self.nxt()
            if p is None:
                self.rec(t)
                return self.bad(n, 52)
            if p.base != 'POINT' and p.base != 'C':
                return self.bad(p, 17)
            return (self.cruise_point, p)
        if b == 'SPEED_VFR' or b == 'SPEED_ALTITUDE':
            return self.bad(n, 5)
        if b == 'BREAK_END':
            return self.stray_end(n)
        if b == 'SPEED_ALTITUDE_ALTITUDE' or b == 'SPEED_ALTITUDE_PLUS':
            return self.bad(n, 9)
        if b == 'TOO_LONG':
            return self.bad(n, 4)
        if b == 'STAY_TIME':
            return self.bad(n, 10)
        self.rec(t)
        return self.element(n)

    def cruise_point(self, t):
        self.rec(t)
        n = self.nxt()
        if n is None:
            return self.bad(t, 27)
        if n.base != 'SLASH':
            return self.bad(n, 26)
        m = self.nxt()
        if m is None:
            return self.bad(t, 28)
        if m.base == 'SPEED_ALTITUDE_ALTITUDE':
            return (self.speed_alt_alt, m)
        if m.base == 'SPEED_ALTITUDE_PLUS':
            return (self.speed_alt_plus, m)
        return self.bad(m, 29)
