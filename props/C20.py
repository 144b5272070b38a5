"""Tokens: the container and its cursor."""
from f15 import *
from sx.api import H

OUTSIDE = 'more operations, tokens or larger steps than stated'
ASSUMPTIONS = ['the reference is a Python list and an integer cursor']


class Ref:
    def __init__(self):
        self.toks = []
        self.cur = 0

    def at(self, i):
        return self.toks[i] if 0 <= i < len(self.toks) else None


def expect(c, got, ref, i, label):
    """got is the token at (possibly symbolic) index i, or None outside."""
    if c.true(c.any(i < 0, i >= len(ref.toks))):
        c.check(got is None, label + ' outside the list is None')
        return
    for k in range(len(ref.toks)):
        if c.true(i == k):
            c.check(got is ref.toks[k], label)
            return


def walk(ts, ref):
    """All tokens, in order, through the container's own interface."""
    return [ts.get_token_at(i) for i in range(ts.get_number_of_tokens())]


def consistent(c, ts, ref):
    c.check(ts.get_number_of_tokens() == len(ref.toks), 'number of tokens')
    lst = ts.get_tokens()
    c.check(len(lst) == len(ref.toks), 'length of the token list')
    for i in range(len(ref.toks)):
        c.check(lst[i] is ref.toks[i], 'token %d of the list' % i)
        c.check(ts.get_token_at(i) is ref.toks[i], 'token at %d' % i)
    c.check(ts.get_token_at(-1) is None, 'no token before the first')
    c.check(ts.get_token_at(len(ref.toks)) is None, 'no token after the last')
    expect(c, ts.get_current_token(), ref, ref.cur, 'the current token')


OPS = ['first', 'last', 'next', 'previous', 'peek_next', 'peek_previous', 'current', 'at', 'append', 'create', 'insert',
       'cut', 'peek1', 'peekback1', 'same']


def step(c, ts, ref, op, i):
    if op == 'first':
        ref.cur = 0
        expect(c, ts.get_first_token(), ref, 0, 'the first token')
    elif op == 'last':
        ref.cur = len(ref.toks) - 1
        expect(c, ts.get_last_token(), ref, ref.cur, 'the last token')
    elif op == 'next':
        ref.cur = ref.cur + 1
        expect(c, ts.get_next_token(), ref, ref.cur, 'the next token')
    elif op == 'previous':
        ref.cur = ref.cur - 1
        expect(c, ts.get_previous_token(), ref, ref.cur, 'the previous token')
    elif op == 'peek_next':
        n = c.int('n%d' % i, -5, 6)
        expect(c, ts.peek_next_token(n), ref, ref.cur + n, 'the token n ahead')
    elif op == 'peek_previous':
        n = c.int('n%d' % i, -5, 6)
        expect(c, ts.peek_previous_token(n), ref, ref.cur - n, 'the token n behind')
    elif op == 'peek1':
        expect(c, ts.peek_next_token(), ref, ref.cur + 1, 'the token ahead')
    elif op == 'peekback1':
        expect(c, ts.peek_previous_token(), ref, ref.cur - 1, 'the token behind')
    elif op == 'current':
        expect(c, ts.get_current_token(), ref, ref.cur, 'the current token')
    elif op == 'at':
        n = c.int('n%d' % i, -1000000, 1000000)
        expect(c, ts.get_token_at(n), ref, n, 'the token at n')
    elif op == 'append':
        t = Token('A%d' % i, i, i + 2)
        ts.append_token(t)
        ref.toks.append(t)
    elif op == 'create':
        s = c.text('s%d' % i, (((32, 0xD7FF),), ((32, 0xD7FF),)))
        a, b = c.int('a%d' % i, 0, 100000), c.int('b%d' % i, 0, 100000)
        n = ts.get_number_of_tokens()
        ts.create_append_token(s, a, b)
        t = ts.get_token_at(n)
        c.check(t is not None, 'the new token is the last')
        c.check(t.get_token_string() == s, 'text of the new token')
        c.check(t.get_token_start_index() == a, 'start of the new token')
        c.check(t.get_token_end_index() == b, 'end of the new token')
        c.check(t.get_token_base_type() == bt('UNKNOWN'), 'a new token is of unknown type')
        c.check(t.get_token_sub_type() == st('UNKNOWN'), 'a new token is of unknown subtype')
        ref.toks.append(t)
    elif op == 'insert':
        t = Token('I%d' % i, i, i + 2)
        n = c.choose('n%d' % i, len(ref.toks) + 2)
        if n > len(ref.toks):
            n = n + 3
        ts.insert_token(t, n)
        ref.toks.insert(n, t)
    elif op == 'same':
        t = ref.toks[c.choose('n%d' % i, len(ref.toks))] if ref.toks else Token('T0', 0, 1)
        ts.append_token(t)
        ref.toks.append(t)
    elif op == 'cut':
        n = c.choose('n%d' % i, len(ref.toks) + 2) - 1
        ts.remove_tokens_from_end_of_list(n)
        ref.toks = ref.toks[:n + 1]


def history(c, m, n, ops):
    """n operations on a container of m tokens."""
    ts, ref = Tokens(), Ref()
    consistent(c, ts, ref)
    for i in range(m):
        t = Token('T%d' % i, i, i + 1)
        ts.append_token(t)
        ref.toks.append(t)
    for i in range(n):
        step(c, ts, ref, ops[c.choose('op%d' % i, len(ops))], i)
    consistent(c, ts, ref)


NEAR = ['last', 'next', 'previous', 'same', 'create', 'peek1', 'peekback1']
FAR = ['first', 'last', 'next', 'previous', 'peek_next', 'peek_previous', 'at', 'create', 'same', 'peek1']


def long_list(c, m, n, ops, alike):
    """n operations on a long list, whose tokens may be all alike, from any place."""
    ts, ref = Tokens(), Ref()
    for i in range(m):
        t = Token('T', 0, 1) if alike else Token('T%d' % i, 2 * i, 2 * i + 1)
        ts.append_token(t)
        ref.toks.append(t)
    ts.get_first_token()
    k = (0, 1, m // 2, m - 1, m)[c.choose('place', 5)]
    for i in range(k):
        ts.get_next_token()
    ref.cur = k
    for i in range(n):
        step(c, ts, ref, ops[c.choose('op%d' % i, len(ops))], i)
    c.check(ts.get_number_of_tokens() == len(ref.toks), 'number of tokens')
    lst = ts.get_tokens()
    for i in range(len(ref.toks)):
        c.check(lst[i] is ref.toks[i], 'token %d of the list' % i)
    expect(c, ts.get_current_token(), ref, ref.cur, 'the current token')


def isolated(c, m, n):
    """Two containers do not share tokens or cursor."""
    a, ra, b, rb = Tokens(), Ref(), Tokens(), Ref()
    for i in range(m):
        a.create_append_token('T%d' % i, i, i + 1)
        ra.toks.append(a.get_token_at(i))
    some = ['next', 'create', 'last', 'previous']
    for i in range(n):
        if c.choose('who%d' % i, 2):
            step(c, a, ra, some[c.choose('op%d' % i, 4)], i)
        else:
            step(c, b, rb, some[c.choose('op%d' % i, 4)], i)
    consistent(c, a, ra)
    consistent(c, b, rb)


def token(c):
    """A token keeps what it is given."""
    s = c.text('s', (((32, 0xD7FF),),) * 3)
    t = Token(s, c.int('a', 0, 9999), c.int('b', 0, 9999))
    u = Token()
    c.check(t.get_token_string() == s, 'text')
    x, y = c.int('x', -9, 9999), c.int('y', -9, 9999)
    t.set_token_start_index(x)
    t.set_token_end_index(y)
    t.set_token_string(s + 'X')
    t.set_token_base_type(bt('POINT'))
    t.set_token_sub_type(st('PRP'))
    c.check(t.get_token_start_index() == x, 'start')
    c.check(t.get_token_end_index() == y, 'end')
    c.check(t.get_token_string() == s + 'X', 'text')
    c.check(t.get_token_base_type() == bt('POINT'), 'type')
    c.check(t.get_token_sub_type() == st('PRP'), 'subtype')
    c.check(u.get_token_string() == '', 'empty token')
    c.check(u.get_token_start_index() == 0, 'empty token')
    c.check(u.get_token_end_index() == 0, 'empty token')
    c.check(u.get_token_base_type() == bt('UNKNOWN'), 'empty token')
    c.check(u.get_token_sub_type() == st('UNKNOWN'), 'empty token')


def harnesses(tier):
    t = tier == 'thorough'
    hs = [H('token', token, 'every text of 3 characters, every index up to 9999')]
    for m in range(0, 5) if t else (0, 1, 3):
        n = 4 if t and m < 4 else 3
        hs.append(H('history on %d' % m, history, '%d tokens, %d of %d operations, indexes free' % (m, n, len(OPS)),
                    m=m, n=n, ops=OPS))
    for m in (0, 3, 6):
        n = 8 if t else 6
        hs.append(H('cursor on %d' % m, history, '%d tokens, %d cursor moves' % (m, n), m=m, n=n,
                    ops=['next', 'previous', 'last'] + (['first'] if t else [])))
    for m, n, ops in ((12, 2, NEAR), (40, 1, FAR)) + (((12, 2, FAR), (200, 1, FAR)) if t else ()):
        for alike in (False, True):
            hs.append(H('%d tokens, %d%s' % (m, len(ops), ', all alike' if alike else ''), long_list,
                        '%d tokens, cursor at 5 places, %d of %d operations' % (m, n, len(ops)), m=m, n=n, ops=ops,
                        alike=alike))
    hs.append(H('two containers', isolated, '4 operations on either of two containers', m=2, n=4))
    return hs
