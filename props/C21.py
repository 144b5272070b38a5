"""ExtractedRouteSequence and ExtractedRouteRecord: access to what was stored."""
from f15 import *
from sx.api import H

OUTSIDE = 'more operations or longer texts than stated'
ASSUMPTIONS = ['the reference is a pair of Python lists']
ANY = ((32, 0xD7FF),)


def consistent(c, ers, recs, errs):
    n = len(recs)
    c.check(ers.get_number_of_elements() == n, 'number of records')
    c.check(ers.get_number_of_errors() == len(errs), 'number of errors')
    els = ers.get_all_elements()
    c.check(len(els) == n, 'all records')
    for i in range(n):
        c.check(els[i] is recs[i], 'record %d' % i)
        c.check(ers.get_element_at(i) is recs[i], 'record at %d' % i)
    c.check(ers.get_element_at(-1) is None, 'no record before the first')
    c.check(ers.get_element_at(n) is None, 'no record after the last')
    c.check(ers.get_first_element() is recs[0], 'the first record')
    c.check(ers.get_last_element() is recs[n - 1], 'the last record')
    p = ers.get_previous_to_last_element()
    if n < 2:
        c.check(p is None, 'no previous to last record')
    else:
        c.check(p is recs[n - 2], 'the previous to last record')
    es = ers.get_all_errors()
    c.check(len(es) == len(errs), 'all errors')
    for i in range(len(errs)):
        s, a, b, m = errs[i]
        c.check(es[i].get_name() == s, 'name of error %d' % i)
        c.check(es[i].get_start_index() == a, 'start of error %d' % i)
        c.check(es[i].get_end_index() == b, 'end of error %d' % i)
        c.check(es[i].get_base_type() == bt('POINT'), 'type of error %d' % i)
        c.check(es[i].get_sub_type() == st('PRP'), 'subtype of error %d' % i)
        c.check(es[i].get_error_text() == m, 'text of error %d' % i)
    i = c.int('at', -1000000, 1000000)
    got = ers.get_element_at(i)
    if c.true(c.any(i < 0, i >= n)):
        c.check(got is None, 'no record outside the sequence')
    else:
        for k in range(n):
            if c.true(i == k):
                c.check(got is recs[k], 'the record at any index')


OPS = ['append', 'create', 'error', 'ades', 'rules']


def step(c, ers, recs, errs, rules, op, i):
    if op == 'append':
        r = ExtractedRouteRecord('R%d' % i, i, i + 1, bt('ROUTE'), st('ATS'))
        c.check(ers.append_element(r) is r, 'append gives back the record')
        recs.append(r)
    elif op == 'create':
        s = c.text('s%d' % i, (ANY, ANY))
        a, b = c.int('a%d' % i, 0, 9999), c.int('b%d' % i, 0, 9999)
        r = ers.create_append_element(s, a, b, bt('ROUTE'), st('NAT'))
        c.check(r is ers.get_last_element(), 'create gives back the record')
        c.check(r.get_name() == s, 'name of the new record')
        c.check(r.get_start_index() == a, 'start of the new record')
        c.check(r.get_end_index() == b, 'end of the new record')
        c.check(r.get_base_type() == bt('ROUTE'), 'type of the new record')
        c.check(r.get_sub_type() == st('NAT'), 'subtype of the new record')
        pristine(c, r)
        recs.append(r)
    elif op == 'error':
        s = c.text('e%d' % i, (ANY, ANY))
        a, b = c.int('a%d' % i, 0, 9999), c.int('b%d' % i, 0, 9999)
        ers.add_error(s, a, b, bt('POINT'), st('PRP'), 'The \'!\' is wrong %d' % i)
        errs.append((s, a, b, 'The \'' + s + '\' is wrong %d' % i))
    elif op == 'ades':
        r = ers.add_dummy_ades()
        c.check(r is ers.get_last_element(), 'ADES is last')
        c.check(r.get_name() == 'ADES', 'ADES')
        recs.append(r)
    elif op == 'rules':
        ers.set_derived_flight_rules('Y%d' % i)
        rules[0] = 'Y%d' % i


def pristine(c, r):
    """A new record carries nothing of any other."""
    for g in ('get_altitude', 'get_speed', 'get_break_text', 'get_error_text', 'get_flight_rules',
              'get_altitude_cruise_to'):
        c.check(getattr(r, g)() == '', 'a new record is empty: ' + g)
    for g in ('get_altitude_si', 'get_speed_si', 'get_altitude_cruise_to_si', 'get_stay_time', 'get_latitude',
              'get_longitude', 'get_bearing', 'get_distance'):
        c.check(getattr(r, g)() == 0, 'a new record is empty: ' + g)
    c.check(r.is_lat_long_valid() is False, 'a new record has no position')


def history(c, n, m=0):
    """n operations on one of two sequences."""
    ers, other = ExtractedRouteSequence(), ExtractedRouteSequence()
    for e in (ers, other):
        c.check(e.get_number_of_elements() == 1, 'a new sequence has the ADEP')
        r = e.get_element_at(0)
        c.check(r.get_name() == 'ADEP', 'a new sequence has the ADEP')
        c.check(r.get_base_type() == bt('POINT'), 'ADEP is a point')
        c.check(r.get_sub_type() == st('PRP_AERO'), 'ADEP is an aerodrome')
        pristine(c, r)
    recs, errs, rules = [ers.get_element_at(0)], [], ['']
    for i in range(m):
        step(c, ers, recs, errs, rules, ('append', 'error')[i % 2], i)
    for i in range(m, m + n):
        step(c, ers, recs, errs, rules, OPS[c.choose('op%d' % i, len(OPS))], i)
    consistent(c, ers, recs, errs)
    c.check(ers.get_derived_flight_rules() == rules[0], 'derived flight rules')
    c.check(other.get_number_of_elements() == 1, 'another sequence is not touched')
    c.check(other.get_number_of_errors() == 0, 'another sequence is not touched')
    c.check(other.get_derived_flight_rules() == '', 'another sequence is not touched')
    pristine(c, other.get_element_at(0))


TEXT = [('altitude', 'get_altitude'), ('speed', 'get_speed'), ('flight_rules', 'get_flight_rules'),
        ('altitude_cruise_to', 'get_altitude_cruise_to'), ('name', 'get_name'), ('break_text', 'get_break_text'),
        ('error_text', 'get_error_text')]
NUM = [('altitude_si', 'get_altitude_si'), ('speed_si', 'get_speed_si'),
       ('altitude_cruise_to_si', 'get_altitude_cruise_to_si'), ('bearing', 'get_bearing'),
       ('distance', 'get_distance'), ('latitude', 'get_latitude'), ('longitude', 'get_longitude'),
       ('start_index', 'get_start_index'), ('end_index', 'get_end_index')]


def record(c, twice):
    """Every setter is seen by its getter and by no other; other records are not touched."""
    r, o = ExtractedRouteRecord('N', 1, 2, bt('POINT'), st('PRP')), ExtractedRouteRecord()
    names = TEXT + NUM
    want = {g: getattr(r, g)() for _, g in names}
    for k in range(2 if twice else 1):
        i = c.choose('which%d' % k, len(names))
        n, g = names[i]
        v = c.text('v%d' % k, (ANY,) * c.choose('len%d' % k, 3)) if i < len(TEXT) else c.int('n%d' % k, -100000, 100000)
        getattr(r, 'set_' + n)(v)
        want[g] = v
    for _, g in names:
        c.check(getattr(r, g)() == want[g], g)
    c.check(r.get_base_type() == bt('POINT'), 'type')
    c.check(r.get_sub_type() == st('PRP'), 'subtype')
    c.check(r.get_stay_time() == 0, 'stay time')
    c.check(r.is_lat_long_valid() is False, 'validity of the position')
    pristine(c, o)
    c.check(o.get_name() == '', 'another record is not touched')


TOKEN = ['token_string', 'token_start_index', 'token_end_index', 'token_base_type', 'token_sub_type']


def token(c, n):
    """n setters of a token, in any order, with any values: each is seen by its getter and by no other."""
    want = [c.text('s', (ANY, ANY)), c.int('a', -100000, 100000), c.int('b', -100000, 100000),
            bt('UNKNOWN'), st('UNKNOWN')]
    t, o = Token(want[0], want[1], want[2]), Token()
    for k in range(n):
        i = c.choose('which%d' % k, len(TOKEN))
        if i == 0:
            v = c.text('v%d' % k, (ANY,) * c.choose('len%d' % k, 3))
        elif i < 3:
            v = c.int('n%d' % k, -100000, 100000)
        else:
            v = [(bt('UNKNOWN'), bt('POINT'), bt('STAR')), (st('UNKNOWN'), st('IFR'), st('SLASH'))][i - 3][
                c.choose('type%d' % k, 3)]
        getattr(t, 'set_' + TOKEN[i])(v)
        want[i] = v
    for i in range(len(TOKEN)):
        c.check(getattr(t, 'get_' + TOKEN[i])() == want[i], 'get_' + TOKEN[i])
    c.check(o.get_token_string() == '', 'another token is not touched')
    c.check(o.get_token_start_index() == 0, 'another token is not touched')
    c.check(o.get_token_end_index() == 0, 'another token is not touched')
    c.check(o.get_token_base_type() == bt('UNKNOWN'), 'another token is not touched')
    c.check(o.get_token_sub_type() == st('UNKNOWN'), 'another token is not touched')


def types(c, n):
    """Types and validity of a record."""
    r = ExtractedRouteRecord('N', 1, 2, bt('POINT'), st('PRP'))
    want = [bt('POINT'), st('PRP'), False]
    for k in range(n):
        i = c.choose('which%d' % k, 3)
        want[i] = [(bt('UNKNOWN'), bt('ROUTE'), bt('STAR')), (st('UNKNOWN'), st('IFR'), st('SLASH')),
                   (False, True)][i][c.choose('value%d' % k, 3 if i < 2 else 2)]
        (r.set_base_type, r.set_sub_type, r.set_lat_long_valid)[i](want[i])
    c.check(r.get_base_type() == want[0], 'base type')
    c.check(r.get_sub_type() == want[1], 'subtype')
    c.check(r.is_lat_long_valid() == want[2], 'validity of the position')
    c.check(r.get_name() == 'N', 'name')


def appended(c, error, n):
    """Texts are joined by single blanks, in order."""
    r = ExtractedRouteRecord()
    parts = []
    for i in range(n):
        p = c.text('p%d' % i, (((33, 0xD7FF),),) * 2)
        parts.append(p)
        if error:
            r.append_error_text(p)
        else:
            r.append_break_text(p)
    got, other = r.get_break_text(), r.get_error_text()
    if error:
        got, other = other, got
    c.check(got == ' '.join(parts), 'texts joined by blanks')
    c.check(other == '', 'the other text is not touched')


def stay(c):
    t = c.text('t', ((((48, 57),),) * 4))
    r = ExtractedRouteRecord()
    r.set_stay_time(t)
    v = [ord(t[i]) - 48 for i in range(4)]
    c.check(r.get_stay_time() == (v[0] * 10 + v[1]) * 60 + v[2] * 10 + v[3], 'minutes of hhmm')


def quoted(c, n):
    """The message quotes the element wherever it says '!', whatever the element contains."""
    s = c.text('s', (((33, 126),),) * n)
    ers = ExtractedRouteSequence()
    ers.add_error(s, 1, 2, bt('POINT'), st('PRP'), "a '!' b")
    c.check(ers.get_all_errors()[0].get_error_text() == "a '" + s + "' b", 'the element is quoted')
    c.check(ers.get_all_errors()[0].get_name() == s, 'the element is named')


def harnesses(tier):
    t = tier == 'thorough'
    hs = [H('history', history, '%d of %d operations, every text of 2 characters' % (5 if t else 4, len(OPS)),
            n=5 if t else 4),
          H('history on many', history, '60 records and errors, then 2 of %d operations' % len(OPS), n=2, m=60),
          H('record', record, 'one setter, any value', twice=False),
          H('record twice', record, 'two setters in any order, any values', twice=True),
          H('token', token, '%d setters of a token, any values' % (3 if t else 2), n=3 if t else 2),
          H('types', types, '3 setters of the types of a record', n=3),
          H('stay time', stay, 'every four digits')]
    for e in (False, True):
        for n in range(0, 4):
            hs.append(H('%s of %d parts' % ('error text' if e else 'break text', n), appended,
                        'every text of 2 characters each', error=e, n=n))
    for n in range(1, 5 if t else 4):
        hs.append(H('quoted %d' % n, quoted, 'every element of %d printable characters' % n, n=n))
    return hs
