"""Parsing is total: it returns a truth value, never raises, always completes the ERS."""
from fstruct import *

OUTSIDE = ('more free elements than stated; fields deep enough to exhaust the recursion limit of the interpreter '
           '(known finding); geodesic computations on symbolic coordinates are uninterpreted')

ANYCHAR = ((0, 0xD7FF), (0xE000, 0x10FFFF))
EXTRA = {
    'dLLD': '##[NS]###[EW]', 'dLLM': '####[NS]#####[EW]', 'dLLDBD': '##[NS]###[EW]######',
    'dLLMBD': '####[NS]#####[EW]######', 'dBD': '[P-R]@######', 'dNF': 'N####F###', 'dKS': 'K####S####',
    'dMA': 'M###A###', 'dMM': 'M###M####', 'dNV': 'N####VFR', 'dMV': 'M###VFR', 'dKV': 'K####VFR',
    'dNAF': 'N####A###F###', 'dMMM': 'M###M####M####', 'dKSA': 'K####S####A###', 'dMFP': 'M###F###PLUS',
    'dKSP': 'K####S####PLUS', 'dTIME': '####', 'dRTE': '@@###', 'dSS': '@@@@@#@', 'dWORD': '@@@@@@@',
}
NUMERIC = [Kind(v, 'UNKNOWN', 'UNKNOWN') for v in EXTRA.values()]


def raw_kind(name, template):
    k = Kind('A', 'UNKNOWN', 'UNKNOWN')
    k.spec, k.template = name, template
    return k


ANY = [raw_kind('any%d' % n, (ANYCHAR,) * n) for n in (1, 2, 3, 4, 8, 26)] + [raw_kind('empty', ())]


def verdict(c, ers, res):
    c.check(res is True or res is False, 'parse_f15 returns a truth value')
    c.check(res == (ers.get_number_of_errors() == 0), 'the truth value tells whether there are errors')
    c.check(ers.get_number_of_elements() >= 2, 'the ERS is complete')
    c.check(ers.get_last_element().get_name() == 'ADES', 'the ERS is complete')
    c.reach('accepted' if res else 'rejected')


def tok_of(c, name, kinds):
    ks = c.kind(name, [k.template for k in kinds])
    return ks[0]


def total(c, ctx, K, kinds, ending='nothing'):
    ts = Tokens()
    i = 0
    texts = []
    for k in opening(ctx):
        texts.append(fixed_token(c, i, k).text)
    for j in range(K):
        texts.append(tok_of(c, 't%d' % j, kinds))
    for k in ENDINGS[ending]:
        texts.append(fixed_token(c, i, k).text)
    for t in texts:
        ts.create_append_token(t, i, i + 1)
        i += 2
    if not c.symbolic:
        c.note('field 15: ' + ' '.join(texts))
    ers = ExtractedRouteSequence()
    res = ParseF15().parse_f15(ers, ts)
    verdict(c, ers, res)


def whole(c, prefix, n, suffix):
    """Tokenizer and parser together on a string with n arbitrary characters."""
    s = prefix + c.text('s', (ANYCHAR,) * n) + suffix
    tk = Tokenize()
    tk.set_string_to_tokenize(s)
    tk.set_whitespace(' \n\t\r/')
    tk.tokenize()
    ers = ExtractedRouteSequence()
    res = ParseF15().parse_f15(ers, tk.get_tokens())
    verdict(c, ers, res)


def model_free(c, ctx, K, alphabet, ending='nothing', least=0):
    toks = tokens_of(c, ctx, K, alphabet, ending, least)
    show(c, toks)
    ers, res, ts = parse(c, toks)
    verdict(c, ers, res)


def deep(c, n):
    """A long but legal field 15."""
    ts = Tokens()
    ts.create_append_token('N0450F350', 0, 9)
    at = 10
    for i in range(n):
        for t in ('DCT', 'PNT'):
            ts.create_append_token(t, at, at + 3)
            at += 4
    ers = ExtractedRouteSequence()
    res = ParseF15().parse_f15(ers, ts)
    verdict(c, ers, res)


def harnesses(tier):
    hs = []
    for ctx in CONTEXTS:
        hs.append(H('after: ' + ctx, model_free, 'opening "%s" + 0..2 free elements of %d kinds' % (ctx, len(RICH)),
                    ctx=ctx, K=2, alphabet=RICH))
        hs.append(H('numbers after: ' + ctx, total,
                    'opening "%s" + an element of %d kinds with every digit free' % (ctx, len(NUMERIC)),
                    ctx=ctx, K=1, kinds=NUMERIC))
        hs.append(H('numbers after: %s, then on' % ctx, total,
                    'as above, followed by "/ K0800S1130 PNT"', ctx=ctx, K=1, kinds=NUMERIC, ending='level and point'))
        hs.append(H('any text after: ' + ctx, total,
                    'opening "%s" + an element of 0, 1, 2, 3, 4, 8 or 26 arbitrary Unicode characters' % ctx,
                    ctx=ctx, K=1, kinds=ANY, summary=False))
    for ctx in DEEP:
        hs.append(H('deep after: ' + ctx, model_free, 'opening "%s" + 3 free elements of %d kinds' % (ctx, len(SMALL)),
                    ctx=ctx, K=3, alphabet=SMALL, least=3))
    for ctx in HUGE:
        hs.append(H('after: ' + ctx, model_free, 'opening "%s" + 0..1 free element of %d kinds' % (ctx, len(RICH)),
                    ctx=ctx, K=1, alphabet=RICH))
    for n in range(0, 6 if tier == 'thorough' else 5):
        hs.append(H('string of %d' % n, whole, 'the whole field is %d arbitrary characters' % n,
                    prefix='', n=n, suffix=''))
    hs.append(H('string after level', whole, '"N0450F350 " + 3 arbitrary characters', prefix='N0450F350 ', n=3,
                suffix=''))
    hs.append(H('string in the middle', whole, '"N0450F350 PNT" + 3 arbitrary characters + "A1 PNT"',
                prefix='N0450F350 PNT', n=3, suffix='A1 PNT'))
    hs.append(H('string after VFR', whole, '"N0450F350 PNT VFR" + 3 arbitrary characters + "PNT/N0450F350"',
                prefix='N0450F350 PNT VFR', n=3, suffix='PNT/N0450F350'))
    hs.append(H('100 legs', deep, 'one field of 200 elements', n=100))
    k = H('500 legs', deep, 'one field of 1000 elements', n=500)
    k.known_only = True
    hs.append(k)
    if tier == 'thorough':
        for ctx in CONTEXTS:
            hs.append(H('rich after: ' + ctx, model_free,
                        'opening "%s" + 3 free elements of %d kinds' % (ctx, len(RICH)),
                        ctx=ctx, K=3, alphabet=RICH, least=3))
            hs.append(H('two numbers after: ' + ctx, total,
                        'opening "%s" + 2 elements of %d kinds with every digit free' % (ctx, len(NUMERIC)),
                        ctx=ctx, K=2, kinds=NUMERIC))
    return rotate(hs, 3)
