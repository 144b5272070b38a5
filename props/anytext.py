"""Elements of arbitrary characters in every place: what an element says must not change how it is carried over."""
from fstruct import *

ANYCHAR = ((0, 0xD7FF), (0xE000, 0x10FFFF))
LENGTHS = (0, 1, 2, 3, 5, 26)
PLACES = ['start', 'first level', 'after a point', 'after a route', 'after DCT', 'after point slash', 'after SID',
          'after STAY', 'after STAY slash', 'after STAY time', 'after C', 'after C slash', 'after C point',
          'after C point slash', 'after T', 'in VFR section', 'in recovery', 'recovery slash']


def field(c, ctx, lengths, ending):
    """Fixed tokens with elements of arbitrary characters between them."""
    ts = Tokens()
    texts = [fixed_token(c, 0, k).text for k in CONTEXTS[ctx]]
    for j, n in enumerate(lengths):
        texts.append(c.text('t%d' % j, (ANYCHAR,) * n))
    texts += [fixed_token(c, 0, k).text for k in ENDINGS[ending]]
    at = 0
    for t in texts:
        ts.create_append_token(t, at, at + 3)
        at += 10
    if not c.symbolic:
        c.note('elements: ' + ' '.join([repr(t) for t in texts]))
    ers = ExtractedRouteSequence()
    res = ParseF15().parse_f15(ers, ts)
    return ts.get_tokens(), texts, ers, res


def identity(c, ctx, lengths, ending):
    """Every record between ADEP and ADES is one of the elements, in reading order, with its text and offsets."""
    toks, texts, ers, res = field(c, ctx, lengths, ending)
    els = ers.get_all_elements()
    c.check(els[0].get_name() == 'ADEP', 'the ERS begins with ADEP')
    c.check(els[len(els) - 1].get_name() == 'ADES', 'the ERS ends with ADES')
    at = -1
    for r in els[1:-1]:
        s = r.get_start_index()
        i = s // 10
        c.check(i * 10 == s and at < s and i < len(texts), 'records are elements in reading order')
        at = s
        c.check(r.get_end_index() == s + 3, 'end offset of a record')
        b, q = toks[i].get_token_base_type(), toks[i].get_token_sub_type()
        if b == bt('SPEED_VFR'):
            c.check(r.get_name() == 'VFR', 'text of a VFR section')
        else:
            c.check(r.get_name() == texts[i], 'text of a record')
        if b == bt('SID_STAR'):
            c.check(r.get_base_type() in (b, bt('SID'), bt('STAR')), 'base type of a record')
        else:
            c.check(r.get_base_type() == b, 'base type of a record')
            if b not in (bt('SID'), bt('STAR')):
                c.check(r.get_sub_type() == q, 'subtype of a record')


def quoting(c, ctx, lengths, ending):
    """Every error is about one of the elements and quotes it as it was written."""
    toks, texts, ers, res = field(c, ctx, lengths, ending)
    at = 0
    for e in ers.get_all_errors():
        s = e.get_start_index()
        i = s // 10
        c.check(i * 10 == s and i < len(texts), 'an error is about an element')
        c.check(e.get_end_index() == s + 3, 'end offset of an error')
        c.check(e.get_base_type() == toks[i].get_token_base_type(), 'base type of an error')
        c.check(e.get_sub_type() == toks[i].get_token_sub_type(), 'subtype of an error')
        c.check(e.get_name() == texts[i], 'text of an error')
        got = e.get_error_text()
        c.check(c.any(*[got == message(n, texts[i]) for n in MESSAGES]), 'the message quotes the element')
    c.check(res == (ers.get_number_of_errors() == 0), 'the verdict says whether there are errors')


def section(c, opening, closing, lengths, ending):
    """All elements of a broken section are kept, whatever they are, in order, with single blanks between them."""
    ts = Tokens()
    parts = [c.text('t%d' % j, (ANYCHAR,) * n) for j, n in enumerate(lengths)]
    texts = ['N0450F350', 'PNT', opening] + parts + ending
    at = 0
    for t in texts:
        ts.create_append_token(t, at, at + 3)
        at += 10
    if not c.symbolic:
        c.note('elements: ' + ' '.join([repr(t) for t in texts]))
    for p in parts:
        if p == closing:
            c.reach('closed early')
            return
    ers = ExtractedRouteSequence()
    ParseF15().parse_f15(ers, ts)
    r = ers.get_element_at(2)
    want = ''
    for p in parts + (ending[:1] if ending else []):
        want = p if want == '' else want + ' ' + p
    c.check(r.get_break_text() == want, 'the text of the section')
    for i in range(ers.get_number_of_elements()):
        if i != 2:
            c.check(ers.get_element_at(i).get_break_text() == '', 'no other record has a text')


def anytext(func, tier, places=PLACES):
    hs = []
    for ctx in places:
        for n in LENGTHS:
            for ending in ('nothing', 'point') if n in (1, 3) or tier == 'thorough' else ('point',):
                hs.append(H('any %d characters after: %s, then %s' % (n, ctx, ending), func,
                            'opening "%s" + an element of %d arbitrary Unicode characters + %s' % (ctx, n, ending),
                            ctx=ctx, lengths=(n,), ending=ending, summary=False))
        for ns in ((1, 2), (3, 1)) if tier == 'thorough' else ():
            hs.append(H('any %s characters after: %s' % (ns, ctx), func,
                        'opening "%s" + elements of %s arbitrary Unicode characters + point' % (ctx, ns),
                        ctx=ctx, lengths=ns, ending='point', summary=False))
    return rotate(hs)


def sections(tier):
    hs = []
    for a, b, end in (('VFR', 'IFR', ['IFR', 'QNT', '/', 'N0400F300']), ('OAT', 'GAT', ['GAT', 'QNT']),
                      ('IFPSTOP', 'IFPSTART', ['IFPSTART', 'QNT'])):
        for ns in ((1,), (3,), (1, 2), (2, 3), (26, 1), (1, 1, 1)) + (((3, 3, 3), (4, 4)) if tier == 'thorough' else ()):
            for e in ([], end):
                hs.append(H('%s section of %s characters%s' % (a, ns, ', closed' if e else ''), section,
                            'elements of %s arbitrary Unicode characters in a section' % (ns,),
                            opening=a, closing=b, lengths=ns, ending=e, summary=False))
    return rotate(hs)
