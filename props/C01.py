"""Tokenization: a lossless, positioned partition of the field."""
from f15 import *
from sx.api import H

OUTSIDE = 'strings longer than stated; separator sets of more than three characters other than the ones listed'
ANYCHAR = ((0, 0xD7FF), (0xE000, 0x10FFFF))
BLANK = (' ', '\n', '\t', '\r')
SETS = {'documented set': ' \n\t\r/', 'default set': None, 'blank and slash': ' /', 'other separators': ' ,;-'}
PIECES = [tm('[A-Z]'), tm('@@@'), tm('####'), tm(' '), tm('/'), ('\n',), ('\t', '\r'), tm('/ '), tm(' /'), tm('//'),
          tm('A' * 26), tm('é,.-\\#'), tm('  '), ('/', '\n', '/')]
LONG = ('N0450F350 PNT/N0460F370 DCT PNTAA UL607 PNTBB/N0450F390 VFR AAA BBB IFR PNTCC/N0450F350 '
        '5130N00020W DCT 50N020W STAY1/0120 C/PNTDD/N0300F100F200 ') * 3


def run(s, ws, tk=None):
    tk = tk or Tokenize()
    tk.set_string_to_tokenize(s)
    if ws is not None:
        tk.set_whitespace(ws)
    tk.tokenize()
    return tk


def member(c, ch, ws):
    return c.any(*[ch == w for w in ws])


def partition(c, s, n, ws, toks, upto=None):
    """toks is exactly the sequence of elements of s (n characters, separators ws).  Reads s once from left to
    right, character by character."""
    c.check(toks.get_number_of_tokens() == len(toks.get_tokens()), 'number of tokens')
    k = 0
    start = None
    for i in range(n + 1):
        if i < n:
            ch = s[i:i + 1]
            sep = c.true(member(c, ch, ws))
        else:
            sep = True
        if not sep:
            if start is None:
                start = i
            continue
        if start is not None:
            tok = toks.get_token_at(k)
            c.check(tok is not None, 'every element becomes a token')
            c.check(tok.get_token_string() == s[start:i], 'text of token %d' % k)
            c.check(tok.get_token_start_index() == start, 'start of token %d' % k)
            c.check(tok.get_token_end_index() == i, 'end of token %d' % k)
            k += 1
            start = None
        if i < n and c.true(ch == '/'):
            tok = toks.get_token_at(k)
            c.check(tok is not None, 'every slash becomes a token')
            c.check(tok.get_token_string() == '/', 'text of slash token %d' % k)
            c.check(tok.get_token_start_index() == i, 'start of slash token %d' % k)
            c.check(tok.get_token_end_index() == i + 1, 'end of slash token %d' % k)
            k += 1
    c.check(toks.get_number_of_tokens() == k, 'no other tokens')
    c.reach('%d tokens' % min(k, 4))


def defaults(ws):
    return ' \n\t\r' if ws is None else ws


def arbitrary(c, n, ws):
    s = c.text('s', (ANYCHAR,) * n)
    toks = run(s, SETS[ws]).get_tokens()
    partition(c, s, n, defaults(SETS[ws]), toks)


def any_separators(c, n, m, slash):
    """Any string, any separators."""
    ws = c.text('w', (ANYCHAR,) * m) + ('/' if slash else '')
    s = c.text('s', (ANYCHAR,) * n)
    tk = run(s, ws)
    partition(c, s, n, [ws[i:i + 1] for i in range(len(ws))], tk.get_tokens())
    c.check(tk.get_whitespace() == ws, 'the separators are those that were set')


def pieces(c, n):
    s = ''
    for i in range(n):
        p, k = c.kind('p%d' % i, PIECES)
        s = s + p
    toks = run(s, ' \n\t\r/').get_tokens()
    partition(c, s, len(s), ' \n\t\r/', toks)


def embedded(c, n, before, after):
    s = before + c.text('s', (ANYCHAR,) * n) + after
    toks = run(s, ' \n\t\r/').get_tokens()
    partition(c, s, len(before) + n + len(after), ' \n\t\r/', toks)


def again(c, n, m):
    """The same instance used for a second string; the first result stays as it was."""
    a = c.text('a', (ANYCHAR,) * n)
    b = c.text('b', (ANYCHAR,) * m)
    tk = run(a, ' \n\t\r/')
    first = tk.get_tokens()
    run(b, None, tk)
    partition(c, b, m, ' \n\t\r/', tk.get_tokens())
    partition(c, a, n, ' \n\t\r/', first)
    c.check(tk.get_string_to_tokenize() == b, 'the tokenizer holds the last string')
    tk.tokenize()
    partition(c, b, m, ' \n\t\r/', tk.get_tokens())


def two_instances(c, n):
    a = c.text('a', (ANYCHAR,) * n)
    b = c.text('b', (ANYCHAR,) * n)
    t1, t2 = Tokenize(), Tokenize()
    t1.set_whitespace(' \n\t\r/')
    t1.set_string_to_tokenize(a)
    t2.set_string_to_tokenize(b)
    t1.tokenize()
    t2.tokenize()
    c.check(t1.get_tokens() is not t2.get_tokens(), 'results are not shared')
    partition(c, a, n, ' \n\t\r/', t1.get_tokens())
    partition(c, b, n, ' \n\t\r', t2.get_tokens())


def retokenize(c, n, ws):
    """Joining the tokens with blanks and tokenizing again gives the same tokens."""
    s = c.text('s', (ANYCHAR,) * n)
    a = run(s, ws).get_tokens()
    texts = [t.get_token_string() for t in a.get_tokens()]
    b = run(' '.join(texts), ws).get_tokens()
    c.check(b.get_number_of_tokens() == len(texts), 'same number of tokens')
    at = 0
    for i in range(len(texts)):
        t = b.get_token_at(i)
        c.check(t.get_token_string() == texts[i], 'same token %d' % i)
        c.check(t.get_token_start_index() == at, 'start of token %d' % i)
        at = at + len(texts[i]) + 1


def harnesses(tier):
    deep = tier == 'thorough'
    hs = []
    for n in range(0, 8 if deep else 7):
        hs.append(H('%d characters' % n, arbitrary, 'every string of %d Unicode characters, documented separators' % n,
                    n=n, ws='documented set'))
    for w in SETS:
        if w != 'documented set':
            for n in (1, 3, 5) if not deep else (1, 2, 3, 4, 5, 6):
                hs.append(H('%d characters, %s' % (n, w), arbitrary,
                            'every string of %d Unicode characters, separators %r' % (n, SETS[w]), n=n, ws=w))
    for n, m in ((2, 0), (1, 1), (3, 1), (2, 2), (3, 2), (2, 3)) + (((4, 2), (3, 3)) if deep else ()):
        for slash in (False, True):
            hs.append(H('%d characters, any %d separators%s' % (n, m, ' and slash' if slash else ''), any_separators,
                        'every string of %d and every set of %d Unicode characters' % (n, m), n=n, m=m, slash=slash))
    for n in (1, 2, 3, 4) if deep else (1, 2, 3):
        hs.append(H('%d pieces' % n, pieces, '%d pieces out of %d (words, blanks, slashes, long words)'
                    % (n, len(PIECES)), n=n))
    hs.append(H('inside a long field', embedded, '%d fixed characters, 4 arbitrary ones, 40 fixed' % len(LONG), n=4,
                before=LONG, after=LONG[:40]))
    hs.append(H('end of a long field', embedded, '%d fixed characters, 4 arbitrary ones' % len(LONG), n=4,
                before=LONG, after=''))
    hs.append(H('start of a field', embedded, '4 arbitrary characters, 30 fixed', n=4, before='', after=LONG[:30]))
    for n, m in ((2, 2), (3, 1), (0, 2), (2, 0)):
        hs.append(H('reuse %d then %d' % (n, m), again, 'strings of %d and then %d characters, one instance' % (n, m),
                    n=n, m=m))
    hs.append(H('two instances', two_instances, 'two strings of 3 characters, different separators', n=3))
    for n in (2, 4, 5) if deep else (2, 4):
        hs.append(H('again %d' % n, retokenize, 'every string of %d characters' % n, n=n, ws=' \n\t\r/'))
    return hs
