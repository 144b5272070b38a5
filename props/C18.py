"""XML output: well formed, and it says what the ERS says."""
from fstruct import *
from levels import run
import history

OUTSIDE = ('characters XML 1.0 cannot carry and white space other than a blank inside elements; longer texts than '
           'stated; digits of bearings, distances and coordinates that are not whole hundredths')
ASSUMPTIONS = ['xml.sax.saxutils.escape is executed symbolically as it is installed']
LEGAL = ((0x21, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF))
SPECIAL = ((34, 34), (38, 39), (60, 60), (62, 62))
NAMED = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}


class Reader:
    """A small XML reader that works character by character."""

    def __init__(self, c, s):
        self.c, self.s, self.i = c, s, 0

    def eof(self):
        return self.i >= len(self.s)

    def at(self, t):
        return self.s[self.i:self.i + len(t)] == t

    def want(self, t):
        self.c.check(self.at(t), 'XML is well formed')
        self.i += len(t)

    def blank(self):
        n = self.i
        while not self.eof() and (self.s[self.i] == ' ' or self.s[self.i] == '\n'):
            self.i += 1
        return self.i > n

    def name(self):
        n = self.i
        while not self.eof() and (self.s[self.i].isalpha() or self.s[self.i] == '_'):
            self.i += 1
        self.c.check(self.i > n, 'XML is well formed')
        return self.s[n:self.i]

    def text(self, stop):
        """Character data up to the character stop, entities decoded."""
        out = []
        while True:
            self.c.check(not self.eof(), 'XML is well formed')
            ch = self.s[self.i]
            if ch == stop:
                return out
            self.c.check(ch != '<', 'XML is well formed')
            if ch == '&':
                self.i += 1
                for n in NAMED:
                    if self.at(n + ';'):
                        out.append(NAMED[n])
                        self.i += len(n) + 1
                        break
                else:
                    self.c.check(self.at('#'), 'XML is well formed')
                    self.i += 1
                    v = 0
                    while self.s[self.i] != ';':
                        v = v * 10 + int(self.s[self.i])
                        self.i += 1
                    self.i += 1
                    out.append(chr(v))
            else:
                out.append(ch)
                self.i += 1

    def element(self):
        """(name, attributes, text, children)"""
        self.want('<')
        name = self.name()
        attrs = {}
        while self.blank():
            if self.at('>') or self.at('/'):
                break
            n = self.name()
            self.c.check(n not in attrs, 'XML is well formed: attribute repeated')
            self.want('=')
            q = self.s[self.i]
            self.c.check(q == '"' or q == "'", 'XML is well formed')
            self.i += 1
            attrs[n] = self.text(q)
            self.i += 1
        kids = []
        text = []
        if self.at('/'):
            self.want('/>')
            return name, attrs, text, kids
        self.want('>')
        while True:
            text.extend(self.text('<'))
            if self.at('</'):
                self.want('</')
                self.want(name)
                self.blank()
                self.want('>')
                return name, attrs, text, kids
            kids.append(self.element())


def same(c, chars, s, label):
    c.check(len(chars) == len(s), label)
    for i in range(len(chars)):
        c.check(chars[i] == s[i], label)


def number_is(c, chars, v, label):
    """The decimal number in the characters is v up to half a hundredth."""
    neg = chars[0] == '-'
    n, k, dot = 0, 0, False
    for ch in chars[1 if neg else 0:]:
        if ch == '.':
            dot = True
        else:
            n = n * 10 + int(ch)
            k += 1 if dot else 0
    got = n / (10 ** k) * (-1 if neg else 1)
    c.check(c.abs_le(got - v, 0.00501), label)


TEXTS = (('speed', 'get_speed'), ('altitude', 'get_altitude'), ('flight_rules', 'get_flight_rules'),
         ('altitude_cruise_to', 'get_altitude_cruise_to'))
NUMBERS = (('start_index', 'get_start_index'), ('end_index', 'get_end_index'), ('base_type', 'get_base_type'),
           ('sub_type', 'get_sub_type'), ('speed_si', 'get_speed_si'), ('altitude_si', 'get_altitude_si'),
           ('bearing', 'get_bearing'), ('distance', 'get_distance'), ('stay_time', 'get_stay_time'),
           ('altitude_cruise_to_si', 'get_altitude_cruise_to_si'), ('latitude', 'get_latitude'),
           ('longitude', 'get_longitude'))


def record_is(c, el, r, error, numbers=True):
    name, attrs, text, kids = el
    c.check(name == ('error_record' if error else 'ers_record'), 'the kind of record')
    c.check(len(kids) == 0, 'a record has no children')
    same(c, text, r.get_name(), 'name of the record')
    for a, g in TEXTS:
        c.check(a in attrs, 'attribute ' + a)
        same(c, attrs[a], getattr(r, g)(), 'attribute ' + a)
    if numbers:
        for a, g in NUMBERS:
            c.check(a in attrs, 'attribute ' + a)
            number_is(c, attrs[a], getattr(r, g)(), 'attribute ' + a)
    a = 'error_text' if error else 'break_text'
    c.check(a in attrs, 'attribute ' + a)
    same(c, attrs[a], r.get_error_text() if error else r.get_break_text(), 'attribute ' + a)


def document(c, xml):
    r = Reader(c, xml)
    r.blank()
    el = r.element()
    r.blank()
    c.check(r.eof(), 'XML is well formed: one root element')
    return el


def ers_is(c, ers, numbers=True):
    name, attrs, text, kids = document(c, ers.as_xml())
    c.check(name == 'ers', 'the root element')
    c.check(kids[0][0] == 'derived_flight_rules', 'derived flight rules first')
    same(c, kids[0][2], ers.get_derived_flight_rules(), 'derived flight rules')
    recs = [k for k in kids if k[0] == 'ers_record']
    c.check(len(recs) == ers.get_number_of_elements(), 'one element per ERS record')
    for k, r in zip(recs, ers.get_all_elements()):
        record_is(c, k, r, False, numbers)
    errs = [k for k in kids if k[0] == 'ers_errors']
    n = ers.get_number_of_errors()
    c.check(len(errs) == (1 if n else 0), 'an error section if there are errors')
    c.check(len(kids) == 1 + len(recs) + len(errs), 'nothing else')
    if n:
        c.check(len(errs[0][3]) == n, 'one element per error')
        for k, r in zip(errs[0][3], ers.get_all_errors()):
            record_is(c, k, r, True, numbers)


def one_record(c, n, m, where, error):
    """A record whose name and texts are arbitrary."""
    s = c.text('s', (LEGAL,) * n)
    t = c.text('t', (SPECIAL,) * m)
    r = ExtractedRouteRecord(s if where == 'name' else 'X' + t, 3, 12, bt('POINT'), st('PRP'))
    if where == 'text':
        r.append_break_text(s)
        r.append_error_text(s)
    else:
        r.append_break_text('a' + t)
        r.append_error_text('a' + t)
    record_is(c, document(c, r.as_xml(error)), r, error)


def numbers(c, error):
    """Numbers of a record are written as they are."""
    r = ExtractedRouteRecord('X', c.int('start', 0, 999), c.int('end', 0, 999), bt('POINT'), st('PRP'))
    r.set_stay_time(c.text('stay', tm('[0-2]#[0-5]#')))
    r.set_speed_si(c.int('speed', 0, 9999))
    r.set_altitude_si(c.int('level', 0, 99999))
    r.set_altitude_cruise_to_si(c.int('cruise', 0, 99999))
    record_is(c, document(c, r.as_xml(error)), r, error)


def odd(c, before, after, n, alphabet):
    """A field 15 with an element of arbitrary characters."""
    s = c.text('s', (alphabet,) * n)
    ers, res = run(c, before + [s] + after)
    ers_is(c, ers, False)


def fields(c, ctx, alphabet, ending):
    toks = tokens_of(c, ctx, 1, alphabet, ending)
    for i, t in enumerate(toks):
        t.start, t.end = 97 * i, 97 * i + 13
    show(c, toks)
    ers, res, ts = parse(c, toks)
    ers_is(c, ers)


def fixed(c, texts):
    """Numbers of the record of a real field."""
    ers, res = run(c, texts)
    ers_is(c, ers)


PLACES = {'first': ([], ['PNT']), 'route': (['N0450F350', 'PNT', 'DCT'], ['PNT']),
          'after error': (['N0450F350', 'PNT', 'Q1X9'], []),
          'VFR text': (['N0450F350', 'PNT', 'VFR'], ['TXT', 'IFR', 'PNT', '/', 'N0450F350']),
          'OAT text': (['N0450F350', 'PNT', 'OAT', 'TXT'], []),
          'after slash': (['N0450F350', 'PNT', '/'], ['PNT'])}
FIXED = [['N0450F350', '50N020W', 'DCT', '5130S01015E', '/', 'M082F330', '10N010E090060', 'C', '/', '00N000E', '/',
          'M082F290F350', 'QNT', 'STAY1', '/', '0130', 'DCT', 'T'],
         ['N0450F012', 'PNT', 'PNT', '/', '<&">', 'VFR', '"', '&lt;', '<'], [], ['N0450VFR', ']]>', '<!--'],
         ['K0800S1130', 'A' * 40, 'B>'], ['90S180W', '9001N18001E']]


FEWER = ['PNT', 'RTE', 'UNK', '/', 'VFR', 'LLD', 'STAY', 'T']
MORE = CORE + ['LONGER', 'LLM', 'SAA2']


def harnesses(tier):
    hs = []
    t = tier == 'thorough'
    for e in (False, True):
        for w in ('name', 'text'):
            for n in range(0, 5 if t else 4):
                hs.append(H('record, %s of %d%s' % (w, n, ', error' if e else ''), one_record,
                            'every %s of %d characters' % (w, n), n=n, m=1, where=w, error=e))
        hs.append(H('special characters%s' % (', error' if e else ''), one_record,
                    'every sequence of markup characters', n=0, m=4 if t else 3, where='name', error=e))
        hs.append(H('numbers%s' % (', error' if e else ''), numbers, 'every whole number of up to 5 digits', error=e))
    for p, (b, a) in PLACES.items():
        for n in range(1, 4 if t else 3):
            hs.append(H('field: %s, %d characters' % (p, n), odd, 'an element of %d arbitrary characters' % n,
                        before=b, after=a, n=n, alphabet=LEGAL))
        hs.append(H('field: %s, markup' % p, odd, 'an element of 3 markup characters', before=b, after=a, n=3,
                    alphabet=SPECIAL))
    for ctx in CONTEXTS:
        hs.append(H('after: ' + ctx, fields, 'opening "%s" + 1 free element out of %d kinds' % (ctx, len(MORE)),
                    ctx=ctx, alphabet=MORE, ending='nothing'))
        if t:
            hs.append(H('after: %s, then on' % ctx, fields, 'opening "%s" + 1 free element of %d kinds + "level and '
                        'point"' % (ctx, len(RICH)), ctx=ctx, alphabet=RICH, ending='level and point'))
    for ctx in HUGE:
        hs.append(H('after: ' + ctx, fields, 'opening "%s" + 1 free element out of %d kinds' % (ctx, len(FEWER)),
                    ctx=ctx, alphabet=FEWER, ending='nothing'))
    for i, f in enumerate(FIXED):
        hs.append(H('fixed %d' % i, fixed, 'one field', texts=f))
    for n in (1, 2) if t else (1,):
        hs.append(H('changed %d time%s' % (n, 's' * (n - 1)), history.changed, 'a sequence whose records are changed '
                    'between outputs: %d of 26 changes' % n, shown=ers_is, n=n))
    return rotate(hs, 18)
