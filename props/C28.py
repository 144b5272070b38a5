"""The layout of the field - which white space stands between elements and how much of it - carries no meaning."""
from C19 import *

OUTSIDE = 'gaps longer than three characters; fields with more free elements than stated'
ASSUMPTIONS = ['the elements of the field are handed to the parser directly, in order, to get the result to compare with']
BLANKS = ((9, 10), (13, 13), (32, 32))
# number of white space characters in gap i between two elements (next to a slash; elsewhere), before and after all
LAYOUTS = {'tight': ((0, 0, 0), (1, 1, 1), 0, 0), 'loose': ((1, 1, 1), (2, 2, 2), 1, 1),
           'mixed': ((0, 1, 0), (1, 3, 2), 2, 0), 'uneven': ((2, 0, 1), (1, 1, 2), 0, 3)}


def gap(c, name, n):
    return c.text(name, (BLANKS,) * n)


def lay(c, texts, slashes, name):
    """The field as one string."""
    near, far, first, last = LAYOUTS[name]
    s = gap(c, 'first', first)
    for i in range(len(texts)):
        if i:
            n = near[i % 3] if slashes[i] or slashes[i - 1] else far[i % 3]
            s = s + gap(c, 'gap%d' % i, n)
        s = s + texts[i]
    return s + gap(c, 'last', last)


def read(s):
    tk = Tokenize()
    tk.set_string_to_tokenize(s)
    tk.set_whitespace(' \n\t\r/')
    tk.tokenize()
    e = ExtractedRouteSequence()
    return e, ParseF15().parse_f15(e, tk.get_tokens())


def delimited(c, s, ers):
    """Every record and every error says where its element stands in the field."""
    els = ers.get_all_elements()
    for i in range(len(els)):
        r = els[i]
        if i == 0 or i == len(els) - 1:
            continue
        there = s[r.get_start_index():r.get_end_index()]
        if c.true(r.get_name() == 'VFR'):
            there = there[-3:]
        c.check(r.get_name() == there, 'ERS record %d tells its place in the field' % i)
    for i in range(ers.get_number_of_errors()):
        r = ers.get_all_errors()[i]
        if s == '' or c.true(r.get_name() == 'NULL'):
            continue
        c.check(r.get_name() == s[r.get_start_index():r.get_end_index()], 'error %d tells its place in the field' % i)


PLACES = ('get_start_index', 'get_end_index')


def unplaced(ers):
    a = snap(ers)
    for rows in a[:2]:
        for row in rows:
            for g in PLACES:
                row[TEXTS.index(g)] = 0
    return a


def layout(c, ctx, alphabet, ending, how, n=1):
    toks = field(c, 'a', ctx, alphabet, ending, n)
    texts = [t.text for t in toks]
    slashes = [c.true(x == '/') for x in texts]
    e0, r0 = fresh(c, toks)
    s = lay(c, texts, slashes, how)
    if not c.symbolic:
        c.note('field 15: %r' % s)
    e1, r1 = read(s)
    same(c, unplaced(e1), unplaced(e0), 'the same elements')
    c.check(r1 == r0, 'verdict on the same elements')
    delimited(c, s, e1)
    c.reach('an error is diagnosed' if e1.get_number_of_errors() else 'accepted without errors')


def harnesses(tier):
    hs = []
    for k, ctx in enumerate(CONTEXTS):
        for j, how in enumerate(LAYOUTS):
            e = ('nothing', 'point', 'level and point', 'IFR and level')[(k + 2 * j) % 4]
            hs.append(H('%s: %s' % (how, ctx), layout,
                        'opening "%s" + 1 free element of %d kinds + ending "%s", any white space in a %s layout'
                        % (ctx, len(RICH), e, how), ctx=ctx, alphabet=RICH, ending=e, how=how))
            if k == 0:
                hs.append(H('%s: empty' % how, layout, 'white space only', ctx=ctx, alphabet=None, ending='nothing',
                            how=how))
            if tier == 'thorough' or j == k % 4:
                two = CORE if tier == 'thorough' else SMALL
                hs.append(H('%s, 2: %s' % (how, ctx), layout,
                            'opening "%s" + 2 free elements of %d kinds, any white space in a %s layout'
                            % (ctx, len(two), how), ctx=ctx, alphabet=two, ending='nothing', how=how, n=2))
    for k, ctx in enumerate(HUGE):
        how = list(LAYOUTS)[k % len(LAYOUTS)]
        hs.append(H('%s: %s' % (how, ctx), layout, 'opening "%s" + 1 free element of %d kinds, any white space in a %s '
                    'layout' % (ctx, len(SMALL), how), ctx=ctx, alphabet=SMALL, ending='nothing', how=how))
    return rotate(hs, 28)
