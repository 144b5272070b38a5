"""Structural harness: a field 15 made of a fixed opening, up to K elements of unknown kind (with symbolic
characters) and a fixed ending is parsed by the real code and compared, attribute by attribute, with the
reference model."""
from f15 import *
from sx.api import H
import levels as lv

MESSAGES = {
    1: "The first Field 15 element must be a SPEED/LEVEL and not '!'",
    3: "The element '!' is an unrecognised Field 15 element",
    4: "Element '!' is too long for a Field 15 Element",
    5: "Expecting '/' before '!'",
    6: "No VFR section preceding this '!' rule change indicator",
    7: "No OAT section preceding this '!' rule change indicator",
    8: "No IFPSTART preceding this '!' indicator",
    9: "Expecting 'C/POINT/' before '!'",
    10: "Expecting the keyword 'STAY' before '!'",
    11: "'/' not expected preceding '!'",
    12: "Expecting a PRP after an ATS route instead of '!'",
    13: "Rule change '!' cannot occur following an ATS route element",
    14: "Cannot go direct ('!') from an ATS route element, must be preceded by a point",
    15: "'!' must be preceded by a point",
    16: "'!' cannot follow a '/'",
    17: "Expecting SPEED/LEVEL, SPEED/VFR or cruise climb point name after '/' instead of '!'",
    19: "Expecting end of field 15 after truncation indicator 'T' instead od '!'",
    20: "Field 15 is incomplete, expecting additional data after the final '!'",
    21: "A 'DCT' must be followed by a point instead of '!'",
    22: "Expecting '/SPEED/LEVEL' following '!' to complete rule change to IFR",
    23: "The first SPEED/LEVEL cannot be followed by the element '!'",
    24: "Expecting SID or DPF after first SPEED/LEVEL element instead of '!'",
    25: "Field 15 cannot end with the '!' element",
    26: "Expecting '/' after cruise / climb 'C/POINT' instead of '!'",
    27: "Expecting point / speed / altitude / altitude after start of Cruise/Climb indicator 'C/!'",
    28: "Expecting speed / altitude / altitude after start of Cruise/Climb indicator 'C/!/'",
    29: "Expecting Cruise/Climb 'SPEED/ALTITUDE/ALTITUDE' or 'SPEED/ALTITUDE/PLUS' instead of '!'",
    30: "SID '!' must follow the first SPEED/ALTITUDE and cannot appear anywhere else in field 15",
    31: "The SID must be followed by a point or STAR, cannot be followed with '!'",
    32: "The SID cannot be followed by another SID '!'",
    34: "A STAR must be the last element in field 15 and cannot be followed with '!'",
    35: "Expecting STAY time as '/HHMM' after '!'",
    36: "Expecting forward slash '/' after STAY instead of '!'",
    37: "Time value as HHMM token missing after '!'",
    38: "Expecting HHMM token following STAYx/ element",
    39: "'!' Cannot follow a STAY/HHMM' element",
    40: "The flight level '!' must end in a zero or 5",
    41: "Field 15 is empty",
    42: "Latitude degree value must be 0 to 90 instead of '!'",
    43: "Latitude degree/minute value must be 0 to 9000 with minutes < 60 instead of '!'",
    44: "Longitude degree value must be 0 to 180 instead of '!'",
    45: "Longitude degree/minute value must be 0 to 18000 with minutes < 60 instead of '!'",
    46: "Bearing degree value must be 0 to 360 instead of '!'",
    47: "ATS route '!' cannot follow a Lat/Long point",
    48: "Lat/Long '!' cannot follow an ATS route",
    49: "Field 15 contains no route description",
    50: "Expecting SPEED/LEVEL or SPEED/VFR after '/' instead of '!'",
    52: "Expecting point / speed / altitude / altitude after start of Cruise/Climb indicator 'C!'",
    53: "Add crossing point between previous ATS route and '!'",
    54: "Add APF between previous ATS route and STAR '!'",
    55: "The SPEED/LEVEL '!' cannot follow an ATS route",
}


def message(num, name):
    a = MESSAGES[num].split('!')
    return a[0] if len(a) == 1 else a[0] + name + a[1]


# openings, one per state of the grammar (and a few long or two-phase ones)
CONTEXTS = {
    'start': [],
    'first level': ['SA'],
    'first VFR level': ['SV'],
    'after a point': ['SA', 'PNT'],
    'after two points': ['SA', 'PNT', 'PNT5'],
    'after a lat/long': ['SA', 'LLD'],
    'after a route': ['SA', 'PNT', 'RTE'],
    'after route and point': ['SA', 'PNT', 'RTE', 'PNT'],
    'after DCT': ['SA', 'PNT', 'DCT'],
    'after point slash': ['SA', 'PNT', '/'],
    'after level change': ['SA', 'PNT', '/', 'SAM'],
    'after SID': ['SA', 'SS'],
    'after SID literal': ['SA', 'SID'],
    'in VFR section': ['SA', 'PNT', 'VFR'],
    'in VFR section, text': ['SA', 'PNT', 'VFR', 'PNT'],
    'in VFR section by level': ['SA', 'PNT', '/', 'SV'],
    'in OAT section': ['SA', 'PNT', 'OAT', 'PNT'],
    'in IFPSTOP section': ['SA', 'PNT', 'IFPSTOP', 'PNT'],
    'VFR then IFR': ['SA', 'PNT', 'VFR', 'IFR'],
    'VFR then IFR point': ['SV', 'PNT', 'IFR', 'PNT'],
    'VFR then IFR point slash': ['SV', 'IFR', 'PNT', '/'],
    'OAT then GAT': ['SA', 'PNT', 'OAT', 'GAT'],
    'IFPSTOP then IFPSTART': ['SA', 'PNT', 'IFPSTOP', 'IFPSTART'],
    'VFR to IFR done': ['SV', 'IFR', 'PNT', '/', 'SA'],
    'VFR to IFR to VFR': ['SV', 'IFR', 'PNT', '/', 'SVM'],
    'two sections': ['SA', 'PNT', 'VFR', 'PNT', 'IFR', 'PNT5', '/', 'SAM', 'PNT', 'OAT', 'PNT', 'GAT', 'PNT5'],
    'after STAY': ['SA', 'PNT', 'STAY'],
    'after STAY slash': ['SA', 'PNT', 'STAY', '/'],
    'after STAY time': ['SA', 'PNT', 'STAY', '/', 'TIME0'],
    'lat/long STAY time': ['SA', 'LLD', 'STAY', '/', 'TIME0'],
    'after C': ['SA', 'PNT', 'C'],
    'after C slash': ['SA', 'PNT', 'C', '/'],
    'after C point': ['SA', 'PNT', 'C', '/', 'PNT'],
    'after C point slash': ['SA', 'PNT', 'C', '/', 'PNT', '/'],
    'after cruise climb': ['SA', 'PNT', 'C', '/', 'PNT', '/', 'SAA', 'PNT'],
    'after T': ['SA', 'PNT', 'T'],
    'in recovery': ['SA', 'PNT', 'UNK'],
    'in recovery at start': ['UNK'],
    'recovery slash': ['SA', 'PNT', 'UNK', '/'],
    'recovery then point': ['SA', 'PNT', 'UNK', 'PNT'],
    'two errors': ['SA', 'PNT', 'SA', 'SA', 'PNT'],
    'long route': ['SA', 'PNT', 'RTE', 'PNT', 'DCT', 'PNT5', 'RTE', 'PNT', '/', 'SAM', 'RTE', 'PNT', 'DCT', 'AERO'],
}
CONTEXTS['recovery at the first level'] = ['SA', 'RTE']
CONTEXTS['recovery, cruise climb at once'] = ['SA', 'RTE', 'SAA', '/']
CONTEXTS['recovery, cruise climb at a point'] = ['SA', 'PNT', 'RTE', 'RTE', 'PNT', '/', 'SAA']
CONTEXTS['very long route'] = ['SA'] + ['PNT', 'RTE', 'PNT', 'DCT', 'PNT5', '/', 'SAM'] * 6 + ['PNT']
CONTEXTS['many sections'] = ['SA', 'PNT'] + ['VFR', 'PNT', 'IFR', 'PNT', '/', 'SA', 'OAT', 'PNT', 'GAT', 'PNT'] * 3
CONTEXTS['many errors'] = ['SA', 'PNT'] + ['UNK', 'PNT', 'RTE', 'RTE', 'PNT', 'TIME0', 'PNT', 'IFR', 'PNT', 'SA', 'PNT'] * 3
CONTEXTS['long VFR text'] = ['SA', 'PNT', 'VFR'] + ['PNT5', 'RTE', 'LLD', 'T'] * 8
# met with one free element only
HUGE = {
    'a hundred elements': ['SA'] + ['PNT', 'RTE', 'PNT', 'DCT', 'PNT5', '/', 'SAM', 'PNT5', 'DCT'] * 11 + ['PNT'],
    'twenty sections': ['SA', 'PNT'] + ['VFR', 'PNT', 'IFR', 'PNT', '/', 'SA', 'OAT', 'PNT', 'GAT', 'PNT'] * 10,
    'a hundred elements of VFR text': ['SA', 'PNT', 'VFR'] + ['PNT5', 'RTE', 'LLD', 'T'] * 25,
    'a hundred errors': ['SA', 'PNT'] + ['UNK', 'TIME0', 'UNK'] * 35 + ['PNT'],
    'thirty errors': ['SA', 'PNT'] + ['UNK', 'PNT', 'RTE', 'RTE', 'PNT', 'TIME0', 'PNT', 'IFR', 'PNT'] * 8 + ['PNT'],
}
ENDINGS = {
    'nothing': [],
    'point': ['PNT'],
    'route and point': ['RTE', 'PNT', 'DCT', 'PNT5'],
    'level and point': ['/', 'SAK', 'PNT'],
    'IFR and level': ['IFR', 'PNT', '/', 'SA', 'PNT'],
}


def slice_count(c, ers, res, m):
    els = ers.get_all_elements()
    c.check(len(els) == len(m.recs), 'number of ERS records')


def slice_frame(c, ers, res, m):
    """ADEP first, ADES last, placed at offset 0, everything between cut out of the field in reading order"""
    els = ers.get_all_elements()
    c.check(len(els) >= 2, 'the ERS has at least ADEP and ADES')
    for i, n in ((0, 'ADEP'), (len(els) - 1, 'ADES')):
        c.check(els[i].get_name() == n, 'the ERS begins with ADEP and ends with ADES')
        c.check(els[i].get_base_type() == bt('POINT'), 'ADEP and ADES are points')
        c.check(els[i].get_sub_type() == st('PRP_AERO'), 'ADEP and ADES are aerodromes')
        c.check(els[i].get_start_index() == 0, 'ADEP and ADES have no position')
        c.check(els[i].get_end_index() == 0, 'ADEP and ADES have no position')


def slice_kept(c, ers, res, m):
    """Same elements in the same order (their texts)"""
    els = ers.get_all_elements()
    for i in range(min(len(els), len(m.recs))):
        c.check(els[i].get_name() == m.recs[i].name, 'element %d of the route' % i)


def slice_errown(c, ers, res, m):
    """An error record never carries the text of another element, and its message quotes it"""
    for e in ers.get_all_errors():
        c.check(e.get_error_text() != '', 'an error has a message')


def slice_name(c, ers, res, m):
    els = ers.get_all_elements()
    c.check(len(els) == len(m.recs), 'number of ERS records')
    for i in range(len(els)):
        c.check(els[i].get_name() == m.recs[i].name, 'name of ERS record %d' % i)


def slice_index(c, ers, res, m):
    els = ers.get_all_elements()
    for i in range(min(len(els), len(m.recs))):
        c.check(els[i].get_start_index() == m.recs[i].start, 'start index of ERS record %d' % i)
        c.check(els[i].get_end_index() == m.recs[i].end, 'end index of ERS record %d' % i)


def want_type(r):
    if r.tok is not None and r.base is r.tok.base and r.sub is r.tok.sub:
        return r.tok.bt, r.tok.st
    return bt(r.base), st(r.sub)


def slice_type(c, ers, res, m):
    els = ers.get_all_elements()
    for i in range(min(len(els), len(m.recs))):
        b, s = want_type(m.recs[i])
        c.check(els[i].get_base_type() == b, 'base type of ERS record %d' % i)
        c.check(els[i].get_sub_type() == s, 'subtype of ERS record %d' % i)


def slice_rules(c, ers, res, m):
    els = ers.get_all_elements()
    c.check(len(els) == len(m.recs), 'number of ERS records')
    for i in range(len(els)):
        c.check(els[i].get_flight_rules() == m.recs[i].rules, 'flight rules of ERS record %d' % i)
    c.check(ers.get_derived_flight_rules() == m.derived, 'derived flight rules')


def slice_level(c, ers, res, m):
    els = ers.get_all_elements()
    c.check(len(els) == len(m.recs), 'number of ERS records')
    for i in range(len(els)):
        c.check(els[i].get_speed() == m.recs[i].speed, 'speed of ERS record %d' % i)
        c.check(els[i].get_altitude() == m.recs[i].level, 'level of ERS record %d' % i)


def si_value(v):
    """The value of a level (m) or a speed (m/s, not Mach), to the nearest unit, in whole numbers."""
    if v == 'PLUS':
        return 0
    n = int(v[1:])
    if len(v) == 5 and v[0] == 'N':
        a, b = n * 514444, 1000000
    elif v[0] == 'K':
        a, b = n * 1000, 3600
    elif v[0] in 'AF':
        a, b = n * 3048, 100
    else:
        a, b = n * 10, 1
    return (2 * a + b) // (2 * b)


SI = {v: si_value(v) for k in list(KINDS.values()) + [o for v in OTHER.values() for o in v]
      for v in (k.speed, k.level, k.cruise) if v and not (v == k.speed and v[0] == 'M')}
SI.update({'': 0, 'F050': 1524})
SI.update({v: si_value(v) for v in ('F290', 'F330', 'S1130')})


def si_of(v):
    return SI[v]


def digits_free(c, v):
    """Whether this speed or level is none of the ones the kinds have."""
    return c.unknown_text(v) if c.symbolic else v not in SI


def si_level(c, got, v, label):
    if digits_free(c, v):
        lv.level_ok(c, got, v, label)
    else:
        c.check(c.abs_le(got - si_of(v), 0.001), label)


def si_speed(c, got, v, level, label):
    if v[0:1] == 'M' or digits_free(c, v):
        lv.speed_ok(c, got, v, level, label)
    else:
        c.check(c.abs_le(got - si_of(v), 0.001), label)


def slice_si(c, ers, res, m):
    els = ers.get_all_elements()
    c.check(len(els) == len(m.recs), 'number of ERS records')
    first = {}
    for i in range(len(els)):
        r = m.recs[i]
        a, v = els[i].get_altitude_si(), els[i].get_speed_si()
        if digits_free(c, r.level) or digits_free(c, r.speed):
            # the record that has them first is compared with the element, the others with that record
            key = (id(r.level), id(r.speed))
            if key in first:
                for x, y, w in zip((a, v), first[key], ('level', 'speed')):
                    if x is not y:
                        c.check(c.abs_le(x - y, 0.001), 'SI %s carried to ERS record %d' % (w, i))
                continue
            first[key] = (a, v)
        si_level(c, a, r.level, 'SI level of ERS record %d' % i)
        si_speed(c, v, r.speed, a, 'SI speed of ERS record %d' % i)


def slice_cruise(c, ers, res, m):
    els = ers.get_all_elements()
    c.check(len(els) == len(m.recs), 'number of ERS records')
    for i in range(len(els)):
        c.check(els[i].get_altitude_cruise_to() == m.recs[i].cruise, 'cruise climb level of ERS record %d' % i)
        si_level(c, els[i].get_altitude_cruise_to_si(), m.recs[i].cruise, 'SI cruise climb level of ERS record %d' % i)


def slice_stay(c, ers, res, m):
    els = ers.get_all_elements()
    c.check(len(els) == len(m.recs), 'number of ERS records')
    for i in range(len(els)):
        t = m.recs[i].stay
        if t is None:
            want = 0
        else:
            want = int(t.text[0:2]) * 60 + int(t.text[2:4])
        c.check(els[i].get_stay_time() == want, 'stay time of ERS record %d' % i)
        if i == 0 or els[i].get_base_type() not in (bt('POINT'), bt('C')):
            c.check(els[i].get_stay_time() == 0, 'only a point of the route has a stay time')


def slice_break(c, ers, res, m):
    els = ers.get_all_elements()
    c.check(len(els) == len(m.recs), 'number of ERS records')
    for i in range(len(els)):
        c.check(els[i].get_break_text() == ' '.join(m.recs[i].brk), 'break text of ERS record %d' % i)


def slice_errcount(c, ers, res, m):
    c.check(len(ers.get_all_errors()) == len(m.errs), 'number of errors')
    c.check(ers.get_number_of_errors() == len(m.errs), 'number of errors reported')


def slice_errors(c, ers, res, m):
    errs = ers.get_all_errors()
    c.check(len(errs) == len(m.errs), 'number of errors')
    for i in range(len(errs)):
        e = m.errs[i]
        c.check(errs[i].get_name() == e.name, 'element named by error %d' % i)
        c.check(errs[i].get_error_text() == message(e.num, e.name), 'text of error %d' % i)


def slice_errtok(c, ers, res, m):
    errs = ers.get_all_errors()
    for i in range(min(len(errs), len(m.errs))):
        t = m.errs[i].tok
        if t is None:
            continue
        c.check(errs[i].get_start_index() == t.start, 'start index of error %d' % i)
        c.check(errs[i].get_end_index() == t.end, 'end index of error %d' % i)
        c.check(errs[i].get_base_type() == t.bt, 'base type of error %d' % i)
        c.check(errs[i].get_sub_type() == t.st, 'subtype of error %d' % i)


def slice_result(c, ers, res, m):
    c.check(res is True or res is False, 'parse_f15 returns a truth value')
    c.check(res == (ers.get_number_of_errors() == 0), 'parse_f15 returns whether there were no errors')
    c.check(res == m.result, 'verdict on the field 15')


SLICES = {f[6:]: g for f, g in globals().items() if f.startswith('slice_')}


def opening(ctx):
    return HUGE[ctx] if ctx in HUGE else CONTEXTS[ctx]


def tokens_of(c, ctx, K, alphabet, ending, least=0):
    toks = []
    for k in opening(ctx):
        toks.append(fixed_token(c, len(toks), k))
    n = c.choose('n', K + 1 - least) + least if K > least else K
    for i in range(n):
        toks.append(free_token(c, 't%d' % i, alphabet))
    for k in ENDINGS[ending]:
        toks.append(fixed_token(c, len(toks), k))
    return toks


def structure(c, ctx, K, alphabet, slices, ending='nothing', least=0, pal=0):
    palette(pal)
    toks = tokens_of(c, ctx, K, alphabet, ending, least)
    show(c, toks)
    ers, res, ts = parse(c, toks)
    m = Model(c, toks)
    for s in slices:
        SLICES[s](c, ers, res, m)
    c.reach('an error is diagnosed' if len(m.errs) else 'accepted without errors')


def numbers(c, ctx, names, slices, ending, pal=0):
    """An element with all digits free."""
    palette(pal)
    toks = [fixed_token(c, i, k) for i, k in enumerate(opening(ctx))]
    toks.append(number_token(c, 't', NUMBERS[names[c.choose('what', len(names))]]))
    for k in ENDINGS[ending]:
        toks.append(fixed_token(c, len(toks), k))
    show(c, toks)
    ers, res, ts = parse(c, toks)
    m = Model(c, toks)
    for s in slices:
        SLICES[s](c, ers, res, m)
    c.reach('an error is diagnosed' if len(m.errs) else 'accepted without errors')


# what comes in groups, so that a few choices reach deep into a field
GROUPS = ['STAY / TIME', '/ SAM', '/ SVM', 'C / PNT / SAA2', 'C / LLD / PLUS', 'VFR PNT5 IFR PNT / SA', 'IFR PNT / SAK',
          'OAT PNT GAT LLD', 'GAT PNT5', 'DCT PNT5', 'RTE PNT', 'LLM', 'UNK', 'SS', 'T', 'STAY /', 'VFR']
FEW = ['STAY / TIME', '/ SAM', '/ SVM', 'C / PNT / SAA2', 'IFR PNT / SAK', 'OAT', 'GAT PNT5', 'RTE PNT', 'UNK']
GROUPED = ['start', 'first level', 'first VFR level', 'after a point', 'in recovery', 'VFR then IFR point slash']


def groups(c, ctx, K, names, slices, pal=0):
    palette(pal)
    toks = [fixed_token(c, i, k) for i, k in enumerate(opening(ctx))]
    for i in range(K):
        for k in names[c.choose('g%d' % i, len(names))].split(' '):
            toks.append(sym_token(c, 't%d' % len(toks), k))
    show(c, toks)
    ers, res, ts = parse(c, toks)
    m = Model(c, toks)
    for s in slices:
        SLICES[s](c, ers, res, m)
    c.reach('an error is diagnosed' if len(m.errs) else 'accepted without errors')


def show(c, toks):
    if not c.symbolic:
        c.note('field 15: ' + ' '.join([t.text for t in toks]))


OUTSIDE = ('fields with more elements than an opening, K free elements and an ending together; element texts that '
           'the alphabet templates do not produce (classification of arbitrary texts is decided separately)')
ASSUMPTIONS = ['the reference model of the field 15 grammar in props/f15.py states what ICAO Doc 4444 and the '
               'error catalogue of the package require',
               'on symbolic token texts geodesic results are uninterpreted functions of their arguments']
DEEP = ['start', 'first level', 'first VFR level', 'after a point', 'after a lat/long', 'in VFR section',
        'VFR then IFR', 'in OAT section', 'after STAY time', 'after C', 'in recovery', 'recovery slash']


def structural(tier, slices, only=None, deep=DEEP, alphabet=None, endings=True):
    """The harness list of a structural property."""
    hs = []
    ctxs = [x for x in CONTEXTS if only is None or x in only]
    two = alphabet or CORE
    shift = sum(len(x) for x in slices)

    def add(name, func, bounds, ctx, **k):
        """Harnesses take the palettes in turn."""
        k['pal'] = (len(hs) + shift) % PALETTES if k.get('pal') is None else k['pal']
        hs.append(H(name, func, bounds + ', elements of palette %d' % k['pal'], ctx=ctx, slices=slices, **k))

    for i, ctx in enumerate(ctxs):
        base = (i + shift) % PALETTES
        add('after: ' + ctx, structure, 'opening "%s" (%d elements) + 0..2 free elements out of %d kinds' % (
            ctx, len(CONTEXTS[ctx]), len(two)), ctx, K=2, alphabet=two, pal=base)
        ends = [e for e in ENDINGS if e != 'nothing'] if endings else []
        for p in range(1, PALETTES):
            e = ends[p - 1] if p <= len(ends) else 'nothing'
            add('after: %s, before: %s, palette +%d' % (ctx, e, p), structure,
                'opening "%s" + 0..1 free element out of %d kinds + ending "%s"' % (ctx, len(RICH), e),
                ctx, K=1, alphabet=RICH, ending=e, pal=(base + p) % PALETTES)
    for i, ctx in enumerate(ctxs):
        e = ('nothing', 'point', 'level and point', 'route and point')[(i + shift) % 4] if endings else 'nothing'
        add('numbers after: %s, before: %s' % (ctx, e), numbers, 'opening "%s" + an element of %d kinds with every digit '
            'free + ending "%s"' % (ctx, len(NUMBERS), e), ctx, names=sorted(NUMBERS), ending=e)
    for i, ctx in enumerate(HUGE):
        for j, (e, n) in enumerate((('nothing', 0), ('IFR and level', 3))):
            add('after: %s, before: %s' % (ctx, e), structure, 'opening "%s" (%d elements) + 0..1 free element out of '
                '%d kinds + ending "%s"' % (ctx, len(HUGE[ctx]), len(SMALL), e), ctx, K=1, alphabet=SMALL, ending=e,
                pal=(shift + i + n) % PALETTES)
    for ctx in ctxs:
        if ctx in deep:
            add('deep after: ' + ctx, structure, 'opening "%s" + 3 free elements out of %d kinds' % (ctx, len(SMALL)),
                ctx, K=3, alphabet=SMALL, least=3)
    for ctx in GROUPED:
        add('groups after: ' + ctx, groups, 'opening "%s" + 2 of %d groups of elements' % (ctx, len(GROUPS)), ctx,
            K=2, names=GROUPS)
        for k in (3, 4) if tier == 'thorough' else (3,) if ctx in GROUPED[2:4] else ():
            add('%d groups after: %s' % (k, ctx), groups, 'opening "%s" + %d of %d groups of elements' % (
                ctx, k, len(FEW)), ctx, K=k, names=FEW)
    if tier == 'thorough':
        for ctx in ctxs:
            if ctx not in deep:
                add('deep after: ' + ctx, structure, 'opening "%s" + 3 free elements out of %d kinds' % (
                    ctx, len(SMALL)), ctx, K=3, alphabet=SMALL, least=3)
        for ctx in ctxs:
            add('rich after: ' + ctx, structure, 'opening "%s" + 3 free elements out of %d kinds' % (ctx, len(RICH)),
                ctx, K=3, alphabet=RICH, least=3)
        for ctx in deep[:4]:
            add('deepest after: ' + ctx, structure, 'opening "%s" + 4 free elements out of %d kinds' % (
                ctx, len(SMALL)), ctx, K=4, alphabet=SMALL, least=4)
    return hs
