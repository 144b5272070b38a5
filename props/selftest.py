"""Tests of the engine itself (no property of the package): every operation on a symbolic string has to give what
Python gives on each of its values.  Run: check.py --property selftest"""
import functools
import operator
import contextlib
import copy
import enum
import html
import io
import itertools
import re
from collections import ChainMap
from xml.sax import saxutils
import string
from collections import Counter, OrderedDict, defaultdict, deque, namedtuple
from dataclasses import dataclass, field
from f15 import *
from sx.api import H
import itertools
AL = ('-', ' ', '\r', '\n', '1', 'a', '{')
OUTSIDE = ''
ASSUMPTIONS = []
OPS = {
 'rsplit1': lambda s: s.rsplit('-', 1), 'rsplit2': lambda s: s.rsplit('-', 2), 'rsplit': lambda s: s.rsplit('-'),
 'lines': lambda s: s.splitlines(), 'linesk': lambda s: s.splitlines(True), 'zfill': lambda s: s.zfill(5),
 'split': lambda s: s.split(), 'split1': lambda s: s.split(None, 1), 'splitd': lambda s: s.split('-'), 'splitd1': lambda s: s.split('-', 1),
 'part': lambda s: s.partition('-'), 'rpart': lambda s: s.rpartition('-'), 'strip': lambda s: s.strip(), 'lstrip': lambda s: s.lstrip('-a'),
 'rstrip': lambda s: s.rstrip('\n'), 'find': lambda s: s.find('a-'), 'rfind': lambda s: s.rfind('a'), 'count': lambda s: s.count('aa'),
 'count1': lambda s: s.count('a'), 'replace': lambda s: s.replace('aa', '-'), 'replace1': lambda s: s.replace('a', '--', 1),
 'upper': lambda s: s.upper(), 'title': lambda s: s.swapcase(), 'center': lambda s: s.center(6, '.'), 'rjust': lambda s: s.rjust(6),
 'ljust': lambda s: s.ljust(4, '*'), 'fmt': lambda s: '{0:>6}|{0:<2}|{0:^5}'.format(s), 'pfx': lambda s: s.removeprefix('a'),
 'sfx': lambda s: s.removesuffix('a1'), 'idx': lambda s: s[-2:] + s[0], 'rev': lambda s: s[::-1], 'mul': lambda s: s * 2 + 'x',
 'isd': lambda s: s.isdigit(), 'isa': lambda s: s.isalpha(), 'isu': lambda s: s.islower(), 'isu2': lambda s: s.isupper(), 'sp': lambda s: s.isspace(), 'isal': lambda s: s.isalnum(), 'pr': lambda s: s.isprintable(),
 'sw': lambda s: s.startswith(('a', '-')), 'ew': lambda s: s.endswith('11'), 'in': lambda s: 'a1' in s, 'join': lambda s: s.join(['x', 'y', 'z']),
 'joinc': lambda s: '/'.join(s), 'cmp': lambda s: s < 'a1', 'tr': lambda s: s.translate({97: 'bb', 45: None}), 'fstr': lambda s: f'{s!s:>4}|{s}', 'pct': lambda s: '%s|%5s' % (s, s),
 'sorted': lambda s: ''.join(sorted(s)), 'set': lambda s: len(set(s)), 'list': lambda s: list(s), 'any': lambda s: any(x == 'a' for x in s),
 'ord': lambda s: [ord(x) for x in s], 'enum': lambda s: [i for i, x in enumerate(s) if x == 'a'], 'rng': lambda s: s.rfind('a', 1), 'cnt2': lambda s: s.count('a', 1), 'max': lambda s: max(s), 'repr': lambda s: repr(s),
 'cf': lambda s: s.casefold(), 'cap': lambda s: s.capitalize(), 'sl': lambda s: s[1:2] == 'a', 'eq': lambda s: s == 'aa1', 'dict': lambda s: {'aa1': 1}.get(s, 0), 'match': lambda s: (1 if s == 'a11' else 2),
}


Pair = namedtuple('Pair', 'a b')


@dataclass
class Item:
    text: str
    tags: list = field(default_factory=list)
    n: int = 0


@dataclass(frozen=True, order=True)
class Key:
    text: str


class Box:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Box) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    @property
    def twice(self):
        return self.v + self.v

    @classmethod
    def of(cls, v):
        return cls(v)

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return self.v[i]

    def __iter__(self):
        yield from self.v

    def __contains__(self, x):
        return x in self.v


def a_match(s):
    match s:
        case 'a11' | 'a1':
            return 1
        case x if x.startswith('a'):
            return 2
        case _:
            return 3


def a_seq(s):
    match list(s):
        case ['a', *rest]:
            return rest
        case [x]:
            return x
        case [x, y, *_]:
            return y + x
    return None


def a_tuple(s):
    match (s[0], len(s)):
        case ('a', n):
            return n
        case ('1' | '-', 2):
            return 'two'
        case (x, _):
            return x


def a_try(s):
    try:
        return int(s)
    except ValueError as e:
        return -1
    else:
        return 5
    finally:
        s = None


def a_index(s):
    try:
        return s.index('a')
    except ValueError:
        return None


def a_while(s):
    out = []
    i = 0
    while i < len(s) and (c := s[i]) != '-':
        if c == 'a':
            i += 1
            continue
        out.append(c)
        i += 1
    else:
        out.append('end')
    return out


def a_for(s):
    for x in s:
        if x == '1':
            break
    else:
        return 'none'
    return x


def a_gen(s):
    def g():
        for x in s:
            if x != 'a':
                yield x
            else:
                yield 'A'
    return list(g())


def a_group(s):
    d = defaultdict(list)
    for i, x in enumerate(s):
        d[x].append(i)
    return [d[k] for k in AL]


def a_count(s):
    d = {}
    for x in s:
        d[x] = d.get(x, 0) + 1
    return [d.get(k, 0) for k in AL]


def a_state(s):
    table = {('start', 'a'): 'letter', ('letter', '1'): 'digit', ('digit', '1'): 'digit'}
    st = 'start'
    for x in s:
        st = table.get((st, x), 'bad')
    return st


def a_class(s):
    def kind(x):
        if x.isdigit():
            return 'D'
        if x.isalpha():
            return 'A'
        return 'X'
    return ''.join(map(kind, s))


def a_deque(s):
    q = deque(s)
    q.rotate(1)
    q.appendleft('x')
    q.pop()
    return list(q)


def a_stack(s):
    st = []
    for x in s:
        if st and st[-1] == x:
            st.pop()
        else:
            st.append(x)
    return st


def a_sub(s):
    return re.sub('[a1]', lambda m: m.group(0) + '.', s)


def a_match_re(s):
    m = re.match('(?P<x>a)?([1-]+)', s)
    return None if m is None else [m.group('x'), m.group(2), m.start(), m.end(), m.span(2)]


def a_nonlocal(s):
    n = 0

    def f(x):
        nonlocal n
        n += 1 if x == 'a' else 0
        return n
    return [f(x) for x in s]


def a_item(s):
    it = Item(s)
    it.tags.append(s[0])
    jt = Item(text=s, tags=[s[0]])
    return [it == jt, it.text, it.n]


def a_num(f):
    def g(s):
        try:
            return f(s)
        except ValueError:
            return 'no'
    return g


def a_digits(f, pre='', post=''):
    return a_num(lambda s: f(pre + s + post))


MORE = {
 'int of': a_num(int), 'int sign': a_digits(int, '-'), 'int under': a_digits(int, '1_', '_1'), 'int space': a_digits(int, ' ', '\n'),
 'float of': a_num(float), 'float sign': a_digits(float, '+'), 'float pt': a_digits(float, '1.'), 'float pt2': a_digits(float, '', '.5'),
 'float pt3': a_digits(float, '-.'), 'float exp': a_digits(float, '1', 'e2'),
 'match stmt': a_match, 'match seq': a_seq, 'match tuple': a_tuple, 'try': a_try, 'index': a_index, 'while': a_while,
 'for else': a_for, 'gen': a_gen, 'group': a_group, 'count dict': a_count, 'state table': a_state, 'classes': a_class,
 'deque': a_deque, 'stack': a_stack, 're.sub f': a_sub, 're.match': a_match_re, 'nonlocal': a_nonlocal, 'item': a_item,
 're.split': lambda s: re.split('[-a]', s), 're.findall': lambda s: re.findall('[a1]', s),
 're.finditer': lambda s: [(m.start(), m.group()) for m in re.finditer('a', s)],
 're.fullmatch': lambda s: bool(re.fullmatch('[a-z]*1', s)), 're.search': lambda s: re.search('1', s) is not None,
 're.sub': lambda s: re.sub('a', 'bb', s), 're.compiled': lambda s: bool(re.compile('(a|1){2}').match(s)),
 'counter': lambda s: Counter(s)['a'], 'counter2': lambda s: Counter(s).most_common(1)[0][1],
 'reduce': lambda s: functools.reduce(lambda a, b: b + a, s, ''), 'zip': lambda s: [a + b for a, b in zip(s, s[1:])],
 'filter': lambda s: list(filter(lambda x: x in 'a1', s)), 'map': lambda s: list(map(str.upper, s)),
 'all': lambda s: all(x in string.ascii_lowercase for x in s), 'sum': lambda s: sum(x == 'a' for x in s),
 'sum1': lambda s: sum(1 for x in s if x in ('a', '1')), 'min': lambda s: min(s, key=lambda x: x != 'a'),
 'namedtuple': lambda s: Pair(s[0], s).a, 'namedtuple eq': lambda s: Pair(s, 1) == Pair('a', 1),
 'setin': lambda s: s[0] in {'a', '1'}, 'setsym': lambda s: len({x for x in s} & {'a', '1'}),
 'set or': lambda s: len({x for x in s} | {'a'}), 'set minus': lambda s: len({'a', '1'} - set(s)), 'set le': lambda s: set(s) <= {'a', '1'},
 'set eq': lambda s: set(s) == {'a'}, 'set disj': lambda s: {'a'}.isdisjoint(s), 'set subset': lambda s: set('a1').issubset(s),
 'set xor': lambda s: len(set(s) ^ {'a'}),
 'frozen': lambda s: s in frozenset(('a', 'a1')), 'dictcomp': lambda s: {x: 1 for x in s}.get('a', 0),
 'dict order': lambda s: list(dict.fromkeys(s)), 'tuple key': lambda s: {('a', 1): 5}.get((s, 1), 0),
 'key': lambda s: Key(s) == Key('a'), 'key order': lambda s: Key(s) < Key('a'), 'key hash': lambda s: {Key('a'): 1}.get(Key(s), 0),
 'box': lambda s: [Box(s).twice, len(Box(s)), Box.of(s)[0], list(Box(s)), 'a' in Box(s), Box(s) == Box('a')],
 'box hash': lambda s: {Box('a'): 3}.get(Box(s), 0),
 'star': lambda s: (lambda a, *b: [a, len(b)])(*s), 'unpack': lambda s: (lambda a, *b: [b, a])(*list(s)),
 'slices': lambda s: [s[::2], s[-1], s[:-1], s[1:], s[-3:]], 'reversed': lambda s: list(reversed(s)),
 'cond': lambda s: 'x' if s == 'a' else 'y' if s[0] == '1' else 'z', 'chain': lambda s: 'a' <= s[0] <= 'z',
 'andor': lambda s: (s[0] == 'a' and s) or 'no', 'not': lambda s: not s.strip(), 'ne': lambda s: s != 'a1',
 'fstr': lambda s: f'{s:>5}|{len(s):03d}|{s[0]!s}', 'pct2': lambda s: '%-4s|%s' % (s, len(s)),
 'fmt2': lambda s: '{n}:{0}:{0:.1}'.format(s, n=len(s)), 'tmpl': lambda s: (s + '{0}').replace('{{', '').count('0'),
 'opget': lambda s: operator.itemgetter(0)(s), 'opmeth': lambda s: operator.methodcaller('upper')(s),
 'getattr': lambda s: getattr(s, 'strip')(), 'partial': lambda s: functools.partial(str.replace, s)('a', '1'),
 'type': lambda s: [type(s) is str, isinstance(s, str), isinstance(s, (list, str)), callable(s)], 'bool': lambda s: bool(s),
 'sorted key': lambda s: sorted(s, key=lambda x: (x != 'a', x)), 'list cmp': lambda s: list(s) == ['a', '1'],
 'tuple cmp': lambda s: tuple(s) in (('a',), ('a', '1')), 'list index': lambda s: ['a', 'a1', '1'].index(s) if s in ['a', 'a1', '1'] else -1,
 'list count': lambda s: list(s).count('a'), 'list rm': lambda s: (lambda l: (l.remove('a') if 'a' in l else None, l)[1])(list(s)),
 'insert': lambda s: (lambda l: (l.insert(1, 'q'), l)[1])(list(s)), 'extend': lambda s: ['x', *s, 'y'], 'slice set': lambda s: (lambda l: (l.__setitem__(slice(0, 1), ['u', 'v']), l)[1])(list(s)),
 'del': lambda s: (lambda l: (l.pop(0), l)[1])(list(s)), 'mul list': lambda s: [s] * 2, 'join gen': lambda s: ''.join(x for x in s if x != 'a'),
 'isin str': lambda s: s[0] in 'a1-', 'isin str2': lambda s: s in 'xa1-', 'ordered': lambda s: list(OrderedDict((x, 1) for x in s)),
 'maketrans': lambda s: s.translate(str.maketrans('a1', 'b2', '-')), 'ascii': lambda s: s.isascii(), 'dec': lambda s: s.isdecimal(), 'num': lambda s: s.isnumeric(), 'ident': lambda s: s.isidentifier(),
 'hash': lambda s: hash(s) == hash('a'), 'is': lambda s: s is s, 'id': lambda s: id(s) == id(s), 'enumerate from': lambda s: [i for i, x in enumerate(s, 1) if x == 'a'],
 'next': lambda s: next((x for x in s if x != 'a'), None), 'iter': lambda s: next(iter(s)), 'expand': lambda s: s.expandtabs(),
}
OPS.update(MORE)


def b_stringio(s):
    out = io.StringIO()
    for x in s:
        out.write(x)
        out.write('.')
    return out.getvalue()


def b_print(s):
    out = io.StringIO()
    print(s, 1, sep='-', file=out)
    print('x', s, end='', file=out)
    return out.getvalue()


def b_walrus(s):
    out = []
    i = -1
    while (i := s.find('a', i + 1)) != -1:
        out.append(i)
    if (m := re.match('(a+)(1*)', s)) is not None:
        out.append(m.group(1) + '/' + m[2])
    return out


def b_suppress(s):
    out = ['x']
    with contextlib.suppress(ValueError):
        out.append(int(s))
    with contextlib.suppress(IndexError, KeyError):
        out.append(s[1])
        out.append({'a': 1}[s[0]])
    return out


@functools.singledispatch
def b_kind(x):
    return 'other'


@b_kind.register(str)
def _(x):
    return 'str' + x


def b_finally(s):
    out = []
    for x in s:
        try:
            if x == 'a':
                continue
            if x == '1':
                raise KeyError(x)
            out.append(x)
        except KeyError as e:
            out.append(e.args[0] * 2)
        finally:
            out.append('f')
    return out


class Kind(enum.Enum):
    A = 'a'
    ONE = '1'

    @classmethod
    def of(cls, x):
        for k in cls:
            if k.value == x:
                return k
        return None


class Walk:
    def __init__(self, s):
        self.s = s
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.s):
            raise StopIteration
        self.i += 1
        return self.s[self.i - 1]

    def __getitem__(self, i):
        return self.s[i]

    def __contains__(self, x):
        return x in self.s

    def __bool__(self):
        return self.s != 'a'


def b_runs(s):
    """Maximal runs by a state machine with a generator."""
    def go():
        start = None
        for i, x in enumerate(s):
            if x.isspace():
                if start is not None:
                    yield s[start:i], start, i
                    start = None
            elif start is None:
                start = i
        if start is not None:
            yield s[start:], start, len(s)
    return list(go())


def b_lambda_table(s):
    table = {'a': lambda x: x + 'A', '1': lambda x: x + 'I'}
    f = table.get(s[0], lambda x: 'none')
    return f(s)


def b_match_guard(s):
    match s:
        case 'a' | '1':
            return 'one'
        case x if x.startswith('a'):
            return 'pre' + x
        case str() if len(s) > 2:
            return 'long'
        case _:
            return 'other'


IDIOMS = {
 'groupby': lambda s: [(k, len(list(g))) for k, g in itertools.groupby(s, key=lambda x: x == 'a')],
 'groupby2': lambda s: [''.join(g) for k, g in itertools.groupby(s, str.isspace) if not k],
 'stringio': b_stringio, 'walrus': b_walrus, 'suppress': b_suppress, 'dispatch': lambda s: b_kind(s), 'finally': b_finally,
 'print file': b_print, 'filter desc': lambda s: list(filter(str.isdigit, s)), 'sort desc': lambda s: sorted(s, key=str.isalpha),
 'escape': lambda s: saxutils.escape('<' + s), 'qattr': lambda s: html.escape(s + '"'),
 'template': lambda s: string.Template('$a-$b').substitute(a=s, b=1), 'longest': lambda s: list(itertools.zip_longest(s, 'ab', fillvalue='')),
 'takewhile': lambda s: ''.join(itertools.takewhile(lambda x: x != 'a', s)), 'dropwhile': lambda s: ''.join(itertools.dropwhile(str.isdigit, s)),
 'islice': lambda s: list(itertools.islice(s, 1, 3)), 'chain': lambda s: ''.join(itertools.chain('<', s, '>')),
 'accumulate': lambda s: list(itertools.accumulate(s, lambda a, b: a + b)), 'pairwise': lambda s: list(itertools.pairwise(s)),
 'copy': lambda s: copy.copy(Item(s)).text, 'deepcopy': lambda s: copy.deepcopy([Item(s)])[0].text, 'kind': lambda s: Kind.of(s[0]) is Kind.A,
 'kind map': lambda s: {Kind.A: 1, Kind.ONE: 2}.get(Kind.of(s[0]), 0), 'walk': lambda s: [x for x in Walk(s)], 'walk2': lambda s: 'a' in Walk(s) and Walk(s)[0],
 'walk3': lambda s: 'y' if Walk(s) else 'n', 'runs': b_runs, 'lambda table': b_lambda_table, 'match guard': b_match_guard,
 'chainmap': lambda s: ChainMap({'a': 1}, {'1': 2}).get(s[0], 0), 'attrgetter': lambda s: operator.attrgetter('text')(Item(s)),
 'eq op': lambda s: operator.eq(s, 'a'), 'concat': lambda s: operator.concat(s, 'x'), 'contains': lambda s: operator.contains(s, 'a'),
 'sorted str': lambda s: ''.join(sorted(s)), 'max str': lambda s: max(s), 'rev sort': lambda s: sorted(s, reverse=True),
 'enum str': lambda s: '%s' % Kind.of(s[0]), 'ternary chain': lambda s: 1 if 'a' in s else 2 if '1' in s else 3,
 'any gen': lambda s: any(x.isdigit() for x in s), 'str mul': lambda s: (s + ' ') * 2, 'nested f': lambda s: f"{s:{'>'}{len(s) + 2}}",
 'center': lambda s: s.center(6, '*'), 'rfmt': lambda s: f'{s!r:>8}' if '1' in s else '', 'join map': lambda s: ','.join(map(str.upper, s)),
 'verbose': lambda s: bool(re.fullmatch('(?x) a  # letter\n | 1+', s)), 'named': lambda s: (re.match('(?P<x>a)?(?P<y>.)?', s) or [None])['y'],
 'groups': lambda s: (lambda m: m.groups() if m else None)(re.match('(a)?(1)?', s)), 'groupdict': lambda s: re.match('(?P<x>a)?', s).groupdict(),
 'span': lambda s: (lambda m: m.span() if m else None)(re.search('1+', s)), 're.I': lambda s: bool(re.match('A', s, re.I)),
 'look': lambda s: bool(re.search('a(?=1)', s)), 'neglook': lambda s: bool(re.search('a(?!1)', s)), 'lazy': lambda s: re.sub('a.*?1', 'Z', s),
 'backref': lambda s: bool(re.search(r'(.)\1', s)), 'bound': lambda s: bool(re.search(r'\ba', s)), 'sub n': lambda s: re.sub('a', 'b', s, count=1),
 'sub g': lambda s: re.sub('(a)', r'<\1>', s), 'subn': lambda s: re.subn('a', 'b', s), 'scan': lambda s: re.compile('[a1]+|-').findall(s),
}
OPS.update(IDIOMS)


def same(a, b):
    if isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not same(x, y):
                return False
        return True
    if a is None or b is None or isinstance(b, bool):
        return a is b if a is None or b is None else bool(a) == b
    if isinstance(b, float):
        return bool(abs(a - b) < 1e-9)
    return bool(a == b)


def run(c, op, n):
    if c.symbolic:
        pass
    t = c.text('t', (tuple(sorted(((ord(x), ord(x)) for x in AL))),) * n)
    r = OPS[op](t)
    for i in range(n):
        for x in AL:
            if t[i] == x:
                break
    w = ''
    for i in range(n):
        for x in AL:
            if t[i] == x:
                w = w + x
                break
    want = OPS[op](w)
    c.check(len(w) == n, 'pinned')
    c.check(same(r, want), 'agrees')


def harnesses(tier):
    return [H("%s %d" % (o, n), run, "", op=o, n=n) for o in OPS for n in (1, 2, 3)]
