"""Parsing is a function of the field: no history of earlier parses, reused instances or other sequences matters."""
from fstruct import *

OUTSIDE = ('longer histories than two or three parses; concurrent threads (the parser keeps no state between calls, '
           'which is what the histories decide)')
ASSUMPTIONS = ['results are compared attribute by attribute, numbers to 1e-9']
ANYCHAR = ((32, 126),)
WS = ((9, 10), (13, 13), (32, 32), (47, 47), (65, 90))
TEXTS = ['get_name', 'get_base_type', 'get_sub_type', 'get_start_index', 'get_end_index', 'get_flight_rules',
         'get_speed', 'get_altitude', 'get_altitude_cruise_to', 'get_break_text', 'get_error_text',
         'get_stay_time', 'is_lat_long_valid']
NUMS = ['get_speed_si', 'get_altitude_si', 'get_altitude_cruise_to_si', 'get_latitude', 'get_longitude',
        'get_bearing', 'get_distance']


def snap(ers):
    def row(r):
        return [getattr(r, g)() for g in TEXTS] + [getattr(r, g)() for g in NUMS]
    return ([row(r) for r in ers.get_all_elements()], [row(r) for r in ers.get_all_errors()],
            ers.get_derived_flight_rules())


def same(c, a, b, why):
    for k, what in ((0, 'records'), (1, 'errors')):
        c.check(len(a[k]) == len(b[k]), '%s: number of %s' % (why, what))
        for i in range(len(a[k])):
            x, y = a[k][i], b[k][i]
            for j, g in enumerate(TEXTS):
                c.check(x[j] == y[j], '%s: %s of %s %d' % (why, g[4:], what, i))
            for j, g in enumerate(NUMS):
                u, v = x[len(TEXTS) + j], y[len(TEXTS) + j]
                if u is v:
                    continue
                c.check(c.abs_le(u - v, 1e-9), '%s: %s of %s %d' % (why, g[4:], what, i))
    c.check(a[2] == b[2], '%s: derived flight rules' % why)


def field(c, name, ctx, alphabet, ending, n=1):
    toks = [fixed_token(c, i, k) for i, k in enumerate(opening(ctx))]
    if alphabet:
        for i in range(n):
            toks.append(free_token(c, name + str(i), alphabet))
    for k in ENDINGS[ending]:
        toks.append(fixed_token(c, len(toks), k))
    show(c, toks)
    return toks


def fresh(c, toks):
    ers, res, ts = parse(c, toks)
    return ers, res


def reused(c, first, alphabet, second, ending, n=1):
    """One parser instance parses an unknown field, then a second one; a fresh parser parses the second."""
    a = field(c, 'a', first, alphabet, 'nothing', n)
    b = field(c, 'b', second, None, ending)
    e0, r0 = fresh(c, b)
    p = ParseF15()
    ea, eb = ExtractedRouteSequence(), ExtractedRouteSequence()
    ra = p.parse_f15(ea, make(c, a))
    sa_ = snap(ea)
    rb = p.parse_f15(eb, make(c, b))
    same(c, snap(eb), snap(e0), 'second parse by the same parser')
    same(c, snap(ea), sa_, 'earlier result after a later parse')
    c.check(rb == r0, 'verdict of the second parse')
    e2, r2 = fresh(c, a)
    same(c, snap(e2), sa_, 'the first field again')
    c.check(r2 == ra, 'verdict on the first field again')


def other_first(c, first, ending, second, alphabet):
    """A known field is parsed before an unknown one; the unknown one is parsed again in between."""
    a = field(c, 'a', first, None, ending)
    b = field(c, 'b', second, alphabet, 'nothing')
    p = ParseF15()
    e1 = ExtractedRouteSequence()
    r1 = p.parse_f15(e1, make(c, b))
    s1 = snap(e1)
    e2 = ExtractedRouteSequence()
    p.parse_f15(e2, make(c, a))
    e3 = ExtractedRouteSequence()
    r3 = p.parse_f15(e3, make(c, b))
    same(c, snap(e3), s1, 'the same field after another one')
    same(c, snap(e1), s1, 'earlier result after later parses')
    c.check(r1 == r3, 'verdict after another field')


def again(c, ctx, alphabet, ending, walked, n=1):
    """The same token list is parsed twice (wherever its cursor was left)."""
    toks = field(c, 'a', ctx, alphabet, ending, n)
    e0, r0 = fresh(c, toks)
    ts = make(c, toks)
    if walked:
        ts.get_first_token()
        for _ in range(c.choose('walk', 3)):
            ts.get_next_token()
    e1 = ExtractedRouteSequence()
    r1 = ParseF15().parse_f15(e1, ts)
    same(c, snap(e1), snap(e0), 'parse of a list whose cursor was moved')
    c.check(r1 == r0, 'verdict of a list whose cursor was moved')
    n = ts.get_number_of_tokens()
    c.check(n == len(toks), 'parsing keeps the tokens')
    for i in range(n):
        t = ts.get_token_at(i)
        c.check(t.get_token_string() == toks[i].text, 'parsing keeps the text of token %d' % i)
        c.check(t.get_token_start_index() == toks[i].start, 'parsing keeps the start of token %d' % i)
        c.check(t.get_token_end_index() == toks[i].end, 'parsing keeps the end of token %d' % i)


def texts_of(toks):
    return [(t.text, t.start, t.end) for t in toks]


def listed(rows):
    ts = Tokens()
    for r in rows:
        ts.create_append_token(*r)
    return ts


def edited(c, ctx, alphabet, ending):
    """A token list that was parsed is edited and parsed again; the tokens had types set by hand before."""
    rows = texts_of(field(c, 'a', ctx, alphabet, ending))
    ts = listed(rows)
    if c.choose('typed before', 2):
        for i in range(ts.get_number_of_tokens()):
            ts.get_token_at(i).set_token_base_type(bt('POINT'))
            ts.get_token_at(i).set_token_sub_type(st('PRP'))
    e0, e1 = ExtractedRouteSequence(), ExtractedRouteSequence()
    r0 = ParseF15().parse_f15(e0, listed(rows))
    r1 = ParseF15().parse_f15(e1, ts)
    s0 = snap(e0)
    same(c, snap(e1), s0, 'first parse of the list')
    c.check(r1 == r0, 'verdict of the first parse of the list')
    how = c.choose('edit', 4)
    k = len(rows) - 1 - len(ENDINGS[ending])
    new, _ = c.kind('new', EDITS)
    if how == 1:
        ts.get_token_at(k).set_token_string(new)
        rows[k] = (new,) + rows[k][1:]
    elif how == 2:
        ts.create_append_token(new, 9001, 9009)
        rows.append((new, 9001, 9009))
    elif how == 3:
        ts.insert_token(Token(new, 9011, 9019), k)
        rows.insert(k, (new, 9011, 9019))
    e2, e3 = ExtractedRouteSequence(), ExtractedRouteSequence()
    r2 = ParseF15().parse_f15(e2, listed(rows))
    r3 = ParseF15().parse_f15(e3, ts)
    same(c, snap(e3), snap(e2), 'parse of the edited list')
    c.check(r3 == r2, 'verdict on the edited list')
    same(c, snap(e1), s0, 'earlier result after the edited list')


FEW = ['PNT', 'RTE', 'UNK', '/', 'VFR', 'SA', 'STAY']
EDITS = [tm(x) for x in ('PNT', 'RTE1', 'N0440F330', '?', '/', 'VFR', 'STAY', 'T', '5040N01030E')]


def raw(c, n, before, after):
    """Texts, not templates: the classification itself must not depend on history."""
    s = c.text('s', (ANYCHAR,) * n)
    texts = before + [s] + after
    other = c.text('o', (ANYCHAR,) * n)

    def go(p, xs):
        ts = Tokens()
        for i, x in enumerate(xs):
            ts.create_append_token(x, 10 * i, 10 * i + 9)
        e = ExtractedRouteSequence()
        return e, p.parse_f15(e, ts)
    p = ParseF15()
    e1, r1 = go(p, texts)
    s1 = snap(e1)
    go(p, before + [other] + after)
    e2, r2 = go(ParseF15(), texts)
    same(c, snap(e2), s1, 'the same texts')
    same(c, snap(e1), s1, 'earlier result after later parses')
    c.check(r1 == r2, 'verdict on the same texts')


def tokens_now(tk):
    ts = tk.get_tokens()
    out = []
    for i in range(ts.get_number_of_tokens()):
        t = ts.get_token_at(i)
        out.append((t.get_token_string(), t.get_token_start_index(), t.get_token_end_index()))
    return out


def same_tokens(c, a, b, why):
    c.check(len(a) == len(b), why + ': number')
    for i in range(len(a)):
        for j in range(3):
            c.check(a[i][j] == b[i][j], '%s: token %d' % (why, i))


def tokenizer(c, n, m, parsed):
    """One tokenizer on two strings; another tokenizer in between."""
    s1, s2 = c.text('s1', (WS,) * n), c.text('s2', (WS,) * m)

    def once(tk, s):
        tk.set_string_to_tokenize(s)
        tk.set_whitespace(' \n\t\r/')
        tk.tokenize()
        return tk
    f1, f2 = tokens_now(once(Tokenize(), s1)), tokens_now(once(Tokenize(), s2))
    tk, other = Tokenize(), Tokenize()
    once(tk, s1)
    kept = tk.get_tokens()
    k1 = tokens_now(tk)
    same_tokens(c, k1, f1, 'first string')
    if parsed:
        ParseF15().parse_f15(ExtractedRouteSequence(), kept)
    once(other, s2)
    same_tokens(c, tokens_now(tk), f1, 'tokens after another tokenizer worked')
    once(tk, s2)
    same_tokens(c, tokens_now(tk), f2, 'second string by the same tokenizer')
    c.check(kept.get_number_of_tokens() == len(f1), 'the first token list is kept')
    for i in range(len(f1)):
        c.check(kept.get_token_at(i).get_token_string() == f1[i][0], 'the first token list is kept')
    tk.tokenize()
    same_tokens(c, tokens_now(tk), f2, 'tokenized twice')


SECOND = [('after a route', 'point'), ('in VFR section, text', 'IFR and level'), ('after STAY time', 'point'),
          ('in recovery', 'level and point'), ('after C point slash', 'nothing'), ('in OAT section', 'nothing')]


def harnesses(tier):
    hs = []
    for ctx in CONTEXTS:
        for s, e in ([SECOND[len(hs) % len(SECOND)]] if tier == 'quick' else SECOND):
            hs.append(H('%s, then: %s' % (ctx, s), reused,
                        'a field of opening "%s" + 1 free element of %d kinds, then "%s ... %s"'
                        % (ctx, len(RICH), s, e), first=ctx, alphabet=RICH, second=s, ending=e))
            hs.append(H('%s and 2, then: %s' % (ctx, s), reused,
                        'a field of opening "%s" + 2 free elements of %d kinds, then "%s ... %s"'
                        % (ctx, len(SMALL), s, e), first=ctx, alphabet=SMALL, second=s, ending=e, n=2))
    for s, e in SECOND:
        for ctx in (DEEP if tier == 'quick' else CONTEXTS):
            hs.append(H('%s around: %s' % (s, ctx), other_first,
                        'opening "%s" + 1 free element of %d kinds, before and after "%s"' % (ctx, len(RICH), s),
                        first=s, ending=e, second=ctx, alphabet=RICH))
    for ctx in CONTEXTS:
        for w in (False, True):
            hs.append(H('again%s: %s' % (', moved' if w else '', ctx), again,
                        'opening "%s" + 1 free element of %d kinds%s' % (ctx, len(RICH),
                                                                         ', cursor anywhere' if w else ''),
                        ctx=ctx, alphabet=SMALL if w else RICH, ending='nothing', walked=w))
        hs.append(H('again and 2: %s' % ctx, again, 'opening "%s" + 2 free elements of %d kinds' % (ctx, len(SMALL)),
                    ctx=ctx, alphabet=SMALL, ending='point', walked=False, n=2))
    for ctx in CONTEXTS:
        hs.append(H('edited: %s' % ctx, edited, 'opening "%s" + 1 free element of %d kinds, parsed, edited, parsed' % (
            ctx, len(FEW)), ctx=ctx, alphabet=FEW, ending='nothing' if len(hs) % 2 else 'point'))
    for ctx in HUGE:
        hs.append(H('again: %s' % ctx, again, 'opening "%s" + 1 free element of %d kinds' % (ctx, len(SMALL)), ctx=ctx,
                    alphabet=SMALL, ending='point', walked=True))
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5):
        hs.append(H('texts of %d' % n, raw, 'two elements of %d arbitrary printable characters' % n,
                    n=n, before=['N0450F350', 'AAA'], after=['BBB'], summary=False))
    hs.append(H('first texts', raw, 'two first elements of 3 printable characters', n=3, before=[],
                after=['AAA'], summary=False))
    for n in range(0, 4):
        for m in range(0, 4 if tier == 'quick' else 5):
            hs.append(H('tokenizer %d %d' % (n, m), tokenizer, 'strings of %d and %d characters' % (n, m),
                        n=n, m=m, parsed=n == 2))
    return rotate(hs, 19)
