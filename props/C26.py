"""Console output: printing never raises and shows every record, error and token, in order."""
from fstruct import *
import history

OUTSIDE = 'the column layout itself; line breaks inside elements; digits of the numeric columns other than offsets'
ASSUMPTIONS = ['print is replaced by a recorder of its arguments']
PRINTABLE = ((33, 126), (160, 0xD7FF), (0xE000, 0x10FFFF))


def printed(c, f):
    """What f prints, as lines."""
    if c.symbolic:
        n = len(c.stdout())
        f()
        text = ''.join(c.stdout()[n:])
    else:
        import contextlib
        import io
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            f()
        text = out.getvalue()
    return text.split('\n')


def shows(c, line, r, error, what):
    name = r.get_name()
    c.check(line[0:len(name)] == name, what + ' begins with its name')
    rest = line[len(name):]
    text = r.get_error_text() if error else r.get_break_text()
    if len(text):
        c.check(rest.rstrip(' ').endswith(text.rstrip(' ')), what + ' ends with its text')
        rest = rest[0:len(rest.rstrip(' ')) - len(text.rstrip(' '))]
    for t in (str(r.get_start_index()), str(r.get_end_index()), r.get_speed(), r.get_altitude(),
              r.get_flight_rules(), r.get_altitude_cruise_to()):
        c.check(t in rest, what + ' shows its offsets, speed, level and flight rules')


def ers_shown(c, ers):
    lines = printed(c, ers.print_ers)
    recs, errs = ers.get_all_elements(), ers.get_all_errors()
    c.check(lines[0].endswith(' ' + str(len(recs))), 'the number of records')
    at = None
    for i in range(1, len(lines)):
        if lines[i].startswith('ADEP'):
            at = i
            break
    c.check(at is not None, 'the records are printed')
    for i, r in enumerate(recs):
        shows(c, lines[at + i], r, False, 'record %d' % i)
        same(c, r, False, 'record %d' % i)
        c.check(lines[at + i] == r.to_string(False), 'line of record %d' % i)
    at += len(recs)
    while at < len(lines) and lines[at] == '':
        at += 1
    c.check(lines[at].endswith(' ' + str(len(errs))), 'the number of errors')
    rest = lines[at + 1:]
    while rest and rest[-1] == '':
        rest = rest[:-1]
    if errs:
        c.check(len(rest) >= len(errs), 'the errors are printed')
        rest = rest[len(rest) - len(errs):]
        for i, r in enumerate(errs):
            shows(c, rest[i], r, True, 'error %d' % i)
            same(c, r, True, 'error %d' % i)
    else:
        c.check(len(rest) == 0, 'nothing after the number of errors')


def same(c, r, error, what):
    lines = printed(c, lambda: r.print_record(error))
    c.check(len(lines) == 2, what + ' is one line')
    c.check(lines[0] == r.to_string(error), what + ' is its line')
    w = [r.get_name(), r.get_flight_rules(), r.get_speed(), r.get_altitude(), r.get_break_text(), r.get_error_text()]
    c.check(r.unit_test_only() == ' '.join(w).rstrip(' '), what + ' in short')


def tokens_shown(c, ts):
    lines = printed(c, ts.print_tokens)
    while lines and lines[-1] == '':
        lines = lines[:-1]
    n = ts.get_number_of_tokens()
    c.check(lines[0].endswith(' ' + str(n)), 'the number of tokens')
    c.check(len(lines) >= n + 1, 'the tokens are printed')
    lines = lines[len(lines) - n:]
    for i in range(n):
        t = ts.get_token_at(i)
        line = lines[i].lstrip(' ')
        s = t.get_token_string()
        c.check(line[0:len(s)] == s, 'token %d begins with its text' % i)
        rest = line[len(s):]
        for v in (t.get_token_start_index(), t.get_token_end_index()):
            c.check(str(v) in rest, 'token %d shows its offsets' % i)


def fields(c, ctx, alphabet, ending, n=1):
    toks = tokens_of(c, ctx, n, alphabet, ending, 0 if n == 1 else n)
    for i, t in enumerate(toks):
        t.start, t.end = 97 * i + 11, 97 * i + 24
    show(c, toks)
    ts = make(c, toks)
    tokens_shown(c, ts)
    ers = ExtractedRouteSequence()
    ParseF15().parse_f15(ers, ts)
    ers_shown(c, ers)
    tokens_shown(c, ts)


def raw(c, n, before, after):
    s = c.text('s', (PRINTABLE,) * n)
    ts = Tokens()
    for i, x in enumerate(before + [s] + after):
        ts.create_append_token(x, 97 * i + 11, 97 * i + 24)
    ers = ExtractedRouteSequence()
    ParseF15().parse_f15(ers, ts)
    tokens_shown(c, ts)
    ers_shown(c, ers)


CRUISE = [tm(x) for x in ('F###', 'S####', 'PLUS')]


def any_record(c, n, error):
    """A record set up by hand."""
    top = (99999, 9999) if n == 0 else (9999, 999)
    low = (0, 0) if n == 0 else (1000, 100)
    r = ExtractedRouteRecord(c.text('s', (PRINTABLE,) * n), c.int('a', low[0], top[0]), c.int('b', low[0], top[0]),
                             bt('POINT'), st('PRP'))
    r.set_altitude(c.text('l', tm('F###')))
    r.set_altitude_si(c.int('lsi', low[0], top[0]))
    r.set_speed(c.text('v', tm('N####')))
    r.set_speed_si(c.int('vsi', low[1], top[1]))
    if n:
        r.set_altitude_cruise_to(c.kind('u', CRUISE)[0])
        r.set_altitude_cruise_to_si(11278)
    r.set_stay_time(c.text('t', tm('[0-2]#[0-5]#')))
    r.append_break_text(c.text('x', (PRINTABLE,)))
    r.append_error_text(c.text('y', (PRINTABLE,)))
    shows(c, r.to_string(error), r, error, 'a record')
    same(c, r, error, 'a record')


CLIMBS = [('N045#F35#', 'N04#5F35#F37#'), ('K081#S1#00', 'K08#1S11#0S1#10'), ('M08#M10#0', 'M07#M11#0M1#30'),
          ('N04#0A09#', 'M08#A09#A1#5'), ('K#840VFR', 'N044#F3#0PLUS'), ('M08#S09#0', 'K07#8S09#5PLUS')]


def climbs(c, error):
    """A climb from one level to another, in every notation."""
    sla, saa = CLIMBS[c.choose('climb', len(CLIMBS))]
    sla, saa = c.text('a', tm(sla)), c.text('b', tm(saa))
    texts = [sla, 'PNT'] + ['DCT', 'C', '/', 'PNB', '/', saa] + (['/'] if error else ['PNC', '/', sla, 'PND'])
    ts = Tokens()
    for i, x in enumerate(texts):
        ts.create_append_token(x, 97 * i + 11, 97 * i + 24)
    ers = ExtractedRouteSequence()
    ParseF15().parse_f15(ers, ts)
    ers_shown(c, ers)


def empty(c):
    tokens_shown(c, Tokens())
    ers = ExtractedRouteSequence()
    ers_shown(c, ers)
    ParseF15().parse_f15(ers, Tokens())
    ers_shown(c, ers)


def tokens_changed(c, n):
    ts = Tokens()
    for i, x in enumerate(('AB', 'CD', 'EF')):
        ts.create_append_token(x, 10 * i + 100, 10 * i + 102)
    tokens_shown(c, ts)
    for i in range(n):
        t = ts.get_token_at(c.choose('token %d' % i, 3))
        todo = [lambda: t.set_token_string('XYZ'), lambda: t.set_token_start_index(4711),
                lambda: t.set_token_end_index(4713), lambda: ts.create_append_token('GH', 200, 202),
                lambda: ts.insert_token(Token('IJ', 300, 302), 1), lambda: ts.append_token(Token('KL', 4, 5)),
                lambda: t.set_token_string('')]
        todo[c.choose('change %d' % i, len(todo))]()
        tokens_shown(c, ts)


PLACES = {'first': ([], ['PNT']), 'route': (['N0450F350', 'PNT', 'DCT'], ['PNT']),
          'after error': (['N0450F350', 'PNT', 'Q1X9'], []),
          'VFR text': (['N0450F350', 'PNT', 'VFR'], ['TXT', 'IFR', 'PNT', '/', 'N0450F350'])}


def harnesses(tier):
    hs = [H('nothing', empty, 'empty lists')]
    for ctx in CONTEXTS:
        hs.append(H('after: ' + ctx, fields, 'opening "%s" + 0..1 free element out of %d kinds' % (ctx, len(RICH)),
                    ctx=ctx, alphabet=RICH, ending='nothing'))
        hs.append(H('after: %s, then on' % ctx, fields, 'opening "%s" + 0..1 free element of %d kinds + "level and '
                    'point"' % (ctx, len(RICH)), ctx=ctx, alphabet=RICH, ending='level and point'))
        if tier == 'thorough':
            hs.append(H('two after: %s' % ctx, fields, 'opening "%s" + 2 free elements of %d kinds' % (
                ctx, len(SMALL)), ctx=ctx, alphabet=SMALL, ending='nothing', n=2))
    for ctx in HUGE:
        hs.append(H('after: ' + ctx, fields, 'opening "%s" + 0..1 free element out of %d kinds' % (ctx, len(SMALL)),
                    ctx=ctx, alphabet=SMALL, ending='nothing'))
    for e in (False, True):
        for n in range(0, 4):
            hs.append(H('record, name of %d%s' % (n, ', error' if e else ''), any_record,
                        'every name of %d characters' % n, n=n, error=e))
    for e in (False, True):
        hs.append(H('climb' + (', error' if e else ''), climbs, 'a climb, speeds and levels in every notation',
                    error=e))
    for p, (b, a) in PLACES.items():
        for n in range(1, 5 if tier == 'thorough' else 3):
            hs.append(H('%s, text of %d' % (p, n), raw, 'an element of %d characters' % n, before=b, after=a, n=n,
                        summary=False))
    hs.append(H('tokens changed', tokens_changed, 'a token list changed between outputs: 2 of 7 changes', n=2))
    for n in (1, 2):
        hs.append(H('changed %d time%s' % (n, 's' * (n - 1)), history.changed, 'a sequence whose records are changed '
                    'between outputs: %d of 26 changes' % n, shown=ers_shown, n=n))
    return rotate(hs, 26)
