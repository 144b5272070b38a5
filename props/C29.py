"""Interleavings: a parser, which is documented as stateless, serves two callers at once; separate tokenizers and
separate sequences do not disturb each other."""
from C19 import *

OUTSIDE = ('more than one preemption of the first caller; preemption in the middle of a function (the schedule point is '
           'the entry of any function of the package); fields longer than stated')
ASSUMPTIONS = ['the interrupting caller runs to its end before the interrupted one continues',
               'numbers are compared to 1e-9']


def parsers(c, first, alphabet, ending, second, other):
    """A parse of a field with a free element, interrupted anywhere by a whole parse with the same parser."""
    a = field(c, 'a', first, alphabet, ending)
    b = field(c, 'b', second, None, other)
    ea, ra = fresh(c, a)
    eb, rb = fresh(c, b)
    p = ParseF15()
    ta, tb = make(c, a), make(c, b)
    xa, xb = ExtractedRouteSequence(), ExtractedRouteSequence()
    got = {}

    def one():
        got['a'] = p.parse_f15(xa, ta)

    def two():
        got['b'] = p.parse_f15(xb, tb)
    ts, xs = make(c, a), ExtractedRouteSequence()
    n = c.entries(lambda: p.parse_f15(xs, ts))
    c.interleave(one, two, c.place('at', n))
    same(c, snap(xa), snap(ea), 'interrupted parse')
    same(c, snap(xb), snap(eb), 'interrupting parse')
    c.check(got['a'] == ra, 'verdict of the interrupted parse')
    c.check(got['b'] == rb, 'verdict of the interrupting parse')


def prepared(s, ws):
    tk = Tokenize()
    tk.set_string_to_tokenize(s)
    tk.set_whitespace(ws)
    return tk


def tokenizers(c, n, m):
    """Two tokenizers, one working while the other is in the middle."""
    s1, s2 = c.text('s1', (WS,) * n), c.text('s2', (WS,) * m)
    t1, t2 = prepared(s1, ' \n\t\r/'), prepared(s2, ' /')
    t1.tokenize()
    t2.tokenize()
    f1, f2 = tokens_now(t1), tokens_now(t2)
    got = {}

    def one():
        tk = prepared(s1, ' \n\t\r/')
        tk.tokenize()
        got['a'] = tokens_now(tk)

    def two():
        tk = prepared(s2, ' /')
        tk.tokenize()
        got['b'] = tokens_now(tk)
    k = c.entries(one)
    got.clear()
    c.interleave(one, two, c.place('at', k))
    same_tokens(c, got['a'], f1, 'interrupted tokenizer')
    same_tokens(c, got['b'], f2, 'interrupting tokenizer')


def outputs(c, first, alphabet, second):
    """XML of one sequence while the XML of another one is built, and while another field is parsed."""
    a = field(c, 'a', first, alphabet, 'nothing')
    b = field(c, 'b', second, None, 'point')
    ea, ra = fresh(c, a)
    eb, rb = fresh(c, b)
    wa, wb = ea.as_xml(), eb.as_xml()
    got = {}

    def one():
        got['a'] = ea.as_xml()

    def two():
        got['b'] = eb.as_xml()
        ParseF15().parse_f15(ExtractedRouteSequence(), make(c, b))
    n = c.entries(one)
    got.clear()
    c.interleave(one, two, c.place('at', n))
    c.check(got['a'] == wa, 'interrupted XML')
    c.check(got['b'] == wb, 'interrupting XML')


FEWER = ['/', 'VFR', 'STAY', 'C', 'PNT', 'LLD', 'RTE', 'SS', 'SAA', 'UNK']


def harnesses(tier):
    deep = tier == 'thorough'
    kinds = SMALL if deep else FEWER
    hs = []
    for k, ctx in enumerate(CONTEXTS if deep else DEEP):
        if len(CONTEXTS[ctx]) > 14:
            continue
        for j, (s, e) in enumerate(SECOND):
            if j != k % len(SECOND) and not (deep and ctx in DEEP[3:6]):
                continue
            hs.append(H('%s, interrupted by %s' % (ctx, s), parsers,
                        'opening "%s" + 1 free element of %d kinds, interrupted at any function entry by a parse of '
                        '"%s ... %s"' % (ctx, len(kinds), s, e), summary=False, first=ctx, alphabet=kinds,
                        ending='nothing', second=s, other=e))
    for n in range(1, 5 if deep else 4):
        hs.append(H('tokenizers %d' % n, tokenizers, 'strings of %d and 2 characters, interrupted at any function entry'
                    % n, n=n, m=2))
    for ctx in CONTEXTS if deep else DEEP[:4]:
        if len(CONTEXTS[ctx]) > 14:
            continue
        hs.append(H('XML: %s' % ctx, outputs, 'opening "%s" + 1 free element of %d kinds, interrupted at any function '
                    'entry' % (ctx, len(kinds)), first=ctx, alphabet=kinds, second='in VFR section, text'))
    return rotate(hs, 29)
