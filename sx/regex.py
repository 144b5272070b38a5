"""Symbolic matching of `re` patterns against symbolic strings.

A pattern is parsed by CPython's own parser (re._parser); matching is translated to a condition over the
cells of the string by propagating, node by node, the set of reachable end positions together with the
condition under which each is reached.  Group contents are obtained by running a forking backtracking
matcher, only when the code under test asks for them."""
import re
import re._constants as K
import re._parser as P
import re._compiler as C
from .values import (SStr, Choice, KTab, SymBool, b_and, b_or, b_not, mkbool, cell_in, in_set, rnorm, rcompl,
                     mkstr, is_sym, UnsupportedString, Sym)
from .core import cur
import z3

_ALL = None


def _allchars():
    global _ALL
    if _ALL is None:
        _ALL = ''.join(map(chr, list(range(0, 0xD800)) + list(range(0xE000, 0x110000))))
    return _ALL


_node_cache = {}


def node_ranges(op, av, flags):
    """The set of characters a single-character node accepts."""
    key = (op, repr(av), flags)
    r = _node_cache.get(key)
    if r is not None:
        return r
    if not flags & re.IGNORECASE:
        if op is K.LITERAL:
            r = ((av, av),)
        elif op is K.NOT_LITERAL:
            r = rcompl(((av, av),))
        elif op is K.ANY:
            r = ((0, 0x10FFFF),) if flags & re.DOTALL else rcompl(((10, 10),))
        elif op is K.IN and all(o in (K.LITERAL, K.RANGE, K.NEGATE) for o, _ in av):
            rs = []
            neg = False
            for o, v in av:
                if o is K.LITERAL:
                    rs.append((v, v))
                elif o is K.RANGE:
                    rs.append(v)
                else:
                    neg = True
            r = rnorm(rs)
            if neg:
                r = rcompl(r)
    if r is None:
        st = P.State()
        st.flags = flags
        item = P.SubPattern(st, [(op, av)])
        pat = C.compile(P.SubPattern(st, [(K.MAX_REPEAT, (1, K.MAXREPEAT, item))]), flags)
        s = _allchars()
        rs = []
        for m in pat.finditer(s):
            a, b = m.span()
            a0, b0 = ord(s[a]), ord(s[b - 1])
            if a0 < 0xD800 <= b0:
                rs += [(a0, 0xD7FF), (0xE000, b0)]
            else:
                rs.append((a0, b0))
        r = rnorm(rs)
    _node_cache[key] = r
    return r


_word = None


def word_ranges():
    return node_ranges(K.IN, [(K.CATEGORY, K.CATEGORY_WORD)], int(re.UNICODE))


SINGLE = (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN)


class Matcher:
    def __init__(self, cells):
        self.cells = cells
        self.n = len(cells)

    def merge(self, out, pos, cond):
        if cond is False:
            return
        o = out.get(pos)
        out[pos] = cond if o is None else b_or(o, cond)

    def seq(self, items, starts, flags):
        cur_ = starts
        for op, av in items:
            cur_ = self.node(op, av, cur_, flags)
            if not cur_:
                break
        return cur_

    def node(self, op, av, starts, flags):
        out = {}
        if op in SINGLE:
            rs = node_ranges(op, av, flags)
            for p, c in starts.items():
                if p < self.n:
                    self.merge(out, p + 1, b_and(c, cell_in(self.cells[p], rs)))
            return out
        if op is K.SUBPATTERN:
            group, add, dele, p = av
            return self.seq(p, starts, (flags | add) & ~dele)
        if op is K.BRANCH:
            for alt in av[1]:
                for p, c in self.seq(alt, starts, flags).items():
                    self.merge(out, p, c)
            return out
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, item = av
            now = starts
            for i in range(lo):
                now = self.seq(item, now, flags)
                if not now:
                    return {}
            for p, c in now.items():
                self.merge(out, p, c)
            i = lo
            while now and (hi is K.MAXREPEAT or i < hi) and i - lo <= self.n + 1:
                nxt = self.seq(item, now, flags)
                now = {p: c for p, c in nxt.items() if p not in out or out[p] is not True}
                for p, c in list(now.items()):
                    self.merge(out, p, c)
                i += 1
            return out
        if op is K.AT:
            for p, c in starts.items():
                self.merge(out, p, b_and(c, self.at(av, p, flags)))
            return out
        if op in (K.ASSERT, K.ASSERT_NOT):
            d, sub = av
            for p, c in starts.items():
                if d >= 0:
                    ok = b_or(*self.seq(sub, {p: True}, flags).values())
                else:
                    w = sub.getwidth()[0]
                    ok = False
                    if p - w >= 0:
                        ok = b_or(*[c2 for e, c2 in self.seq(sub, {p - w: True}, flags).items() if e == p])
                if op is K.ASSERT_NOT:
                    ok = b_not(ok)
                self.merge(out, p, b_and(c, ok))
            return out
        raise UnsupportedString('regular expression construct %s' % op)

    def at(self, av, p, flags):
        if av is K.AT_BEGINNING and flags & re.MULTILINE:
            return True if p == 0 else cell_in(self.cells[p - 1], ((10, 10),))
        if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            return p == 0
        if av is K.AT_END and flags & re.MULTILINE:
            return True if p == self.n else cell_in(self.cells[p], ((10, 10),))
        if av is K.AT_END:
            if p == self.n:
                return True
            return p == self.n - 1 and cell_in(self.cells[p], ((10, 10),))
        if av is K.AT_END_STRING:
            return p == self.n
        if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            w = word_ranges()
            a = p > 0 and cell_in(self.cells[p - 1], w)
            b = p < self.n and cell_in(self.cells[p], w)
            x = b_or(b_and(a, b_not(b)), b_and(b, b_not(a)))
            return x if av is K.AT_BOUNDARY else b_not(x)
        raise UnsupportedString('regular expression anchor %s' % av)

    # forking backtracking matcher: generator of (end, groups) in priority order
    def bt(self, items, i, p, g, flags, k):
        if i == len(items):
            return k(p, g)
        op, av = items[i]
        nxt = lambda p2, g2: self.bt(items, i + 1, p2, g2, flags, k)
        if op in SINGLE:
            if p < self.n and cell_in(self.cells[p], node_ranges(op, av, flags)):
                return nxt(p + 1, g)
            return None
        if op is K.SUBPATTERN:
            group, add, dele, sub = av
            fl = (flags | add) & ~dele

            def done(p2, g2):
                if group is not None:
                    g2 = dict(g2)
                    g2[group] = (p, p2)
                    g2[-1] = group      # the group closed last
                return nxt(p2, g2)
            return self.bt(list(sub), 0, p, g, fl, done)
        if op is K.BRANCH:
            for alt in av[1]:
                r = self.bt(list(alt), 0, p, g, flags, nxt)
                if r is not None:
                    return r
            return None
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def rep(n, p2, g2, last):
                def more():
                    if (hi is K.MAXREPEAT or n < hi) and p2 != last:
                        return self.bt(sub, 0, p2, g2, flags, lambda p3, g3: rep(n + 1, p3, g3, p2))
                    return None
                if n < lo:
                    return self.bt(sub, 0, p2, g2, flags, lambda p3, g3: rep(n + 1, p3, g3, None))
                if op is K.MAX_REPEAT:
                    r = more()
                    return r if r is not None else nxt(p2, g2)
                r = nxt(p2, g2)
                return r if r is not None else more()
            return rep(0, p, g, None)
        if op in (K.AT, K.ASSERT, K.ASSERT_NOT):
            r = self.node(op, av, {p: True}, flags)
            if r and bool(r[p]):
                return nxt(p, g)
            return None
        raise UnsupportedString('regular expression construct %s' % op)


_parsed = {}


def parse(pattern, flags):
    key = (pattern, int(flags))
    r = _parsed.get(key)
    if r is None:
        t = P.parse(pattern, int(flags))
        r = _parsed[key] = (t, t.state.flags, t.state.groups, dict(t.state.groupdict))
    return r


def _cond(cells, tree, flags, mode, start=0):
    m = Matcher(cells)
    starts = {start: True}
    if mode == 'search':
        starts = {i: True for i in range(start, len(cells) + 1)}
    ends = m.seq(tree, starts, flags)
    if mode == 'fullmatch':
        return ends.get(len(cells), False)
    return b_or(*ends.values())


class MatchProxy(Sym):
    __slots__ = ('s', 'pat', 'mode', 'cond', 'sol')

    def __init__(self, s, pat, mode, cond):
        self.s, self.pat, self.mode, self.cond, self.sol = s, pat, mode, cond, None

    def is_none(self):
        return b_not(self.cond)

    def sx_bool(self):
        return self.cond.e

    def __bool__(self):
        return bool(self.cond)

    def _solve(self):
        if self.sol is None:
            if not bool(self.cond):
                raise AttributeError("'NoneType' object has no attribute 'group'")
            cells = self.s.cells() if isinstance(self.s, SStr) else tuple(self.s)
            tree, flags, groups, gd = self.pat
            m = Matcher(cells)
            rng = range(len(cells) + 1) if self.mode == 'search' else (0,)
            for st in rng:
                def fin(p, g):
                    if self.mode == 'fullmatch' and p != len(cells):
                        return None
                    return p, g
                r = m.bt(list(tree), 0, st, {}, flags, fin)
                if r is not None:
                    g = dict(r[1])
                    g[0] = (st, r[0])
                    self.sol = g
                    break
            else:
                raise UnsupportedString('regular expression match')
        return self.sol

    def _idx(self, g):
        return self.pat[3][g] if isinstance(g, str) else int(g)

    def _one(self, g, default=None):
        sp = self._solve().get(self._idx(g))
        if sp is None:
            return default
        return mkstr(_cells(self.s)[sp[0]:sp[1]])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.pat[2]))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self.pat[3].items()}

    @property
    def lastindex(self):
        return self._solve().get(-1)

    @property
    def lastgroup(self):
        i = self.lastindex
        return next((n for n, j in self.pat[3].items() if j == i), None)

    @property
    def string(self):
        return self.s

    def span(self, g=0):
        return self._solve().get(self._idx(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]


def _cells(s):
    return s.cells() if isinstance(s, SStr) else tuple(s)


_memo = {}


def _remember(key, val):
    if len(_memo) > 300000:
        _memo.clear()
    _memo[key] = val


def do(mode, pattern, string, flags=0):
    """re.match / fullmatch / search with a symbolic subject; returns a real None / MatchProxy."""
    if isinstance(pattern, re.Pattern):
        flags = pattern.flags
        pattern = pattern.pattern
    if isinstance(pattern, SStr):
        pattern = pattern.pinned('symbolic regular expression')
    if isinstance(pattern, KTab):
        pattern = pattern.resolve()
    if isinstance(string, KTab):
        string = string.resolve()
    if not isinstance(string, SStr):
        return getattr(re, mode)(pattern, string, int(flags))
    pat = parse(pattern, flags)
    tree, fl, _, _ = pat
    cond = None
    if len(string.parts) == 1 and isinstance(string.parts[0], Choice):
        ch = string.parts[0]
        key = (mode, pattern, fl, 'kind', ch.var.get_id(), ch.tkey)
        hit = _memo.get(key)
        if hit is not None:
            cond = hit[0]
            for k in hit[2]:
                ch.cells(k)         # the characters the condition mentions exist on this path
        else:
            per = [_cond(ch.cells(k), tree, fl, mode) for k in range(len(ch.templates))]
            if all(isinstance(c, bool) for c in per):
                ks = [k for k, c in enumerate(per) if c]
                cond = False if not ks else True if len(ks) == len(per) else mkbool(in_set(ch.var, ks))
            else:
                cond = b_or(*[b_and(mkbool(ch.var == k), c) for k, c in enumerate(per) if c is not False])
            _remember(key, (cond, ch.var, [k for k, c in enumerate(per) if not isinstance(c, bool)]))
    if cond is None:
        cells = string.cells()
        key = (mode, pattern, fl, tuple([x if isinstance(x, str) else (x.e.get_id(), x.ranges) for x in cells]))
        hit = _memo.get(key)
        if hit is not None:
            cond = hit[0]
        else:
            cond = _cond(cells, tree, fl, mode)
            _remember(key, (cond, cells))
    if cond is False:
        return None
    if cond is True:
        cond = SymBool(z3.BoolVal(True))
    return MatchProxy(string, pat, mode, cond)


def all_matches(pattern, string, flags=0):
    """Spans of re.finditer (forks)."""
    if isinstance(pattern, re.Pattern):
        flags, pattern = pattern.flags, pattern.pattern
    tree, fl, groups, gd = parse(pattern, flags)
    cells = string.cells()
    m = Matcher(cells)
    out = []
    p = 0
    last_empty_at = None
    while p <= len(cells):
        def fin(e, g, st=p):
            if e == st and last_empty_at == st:
                return None
            return e, g
        r = m.bt(list(tree), 0, p, {}, fl, fin)
        if r is None:
            p += 1
            continue
        e, g = r
        g = dict(g)
        g[0] = (p, e)
        out.append(g)
        if e == p:
            last_empty_at = p
            p += 1
        else:
            last_empty_at = e
            p = e
    return out, cells, groups, gd


ESCAPES = {'n': '\n', 't': '\t', 'r': '\r', 'a': '\a', 'f': '\f', 'v': '\v', 'b': '\b', '\\': '\\'}


def template(pat, repl):
    """The text a replacement template with symbolic characters stands for, one path per kind of escape."""
    from .values import m_join
    out, i, n = [], 0, len(repl)
    while i < n:
        ch = repl[i]
        i += 1
        if not bool(ch == '\\'):
            out.append(ch)
            continue
        if i == n:
            raise re.error('bad escape (end of pattern)')
        ch = repl[i]
        i += 1
        for e, v in ESCAPES.items():
            if bool(ch == e):
                out.append(v)
                break
        else:
            if bool(ch == '0') or pat.groups or bool(ch == 'g'):
                raise UnsupportedString('re.sub template')
            if bool(ch >= '1') and bool(ch <= '9'):
                raise re.error('invalid group reference')
            if bool(ch >= 'a') and bool(ch <= 'z') or bool(ch >= 'A') and bool(ch <= 'Z'):
                raise re.error('bad escape')
            out += ['\\', ch]
    return m_join('', out)


def sub(pattern, repl, string, count=0, flags=0):
    if not isinstance(string, SStr):
        if isinstance(repl, SStr) and isinstance(string, str):
            pat = re.compile(pattern, flags) if isinstance(pattern, str) else pattern
            out, p = [], 0
            if pat.search(string):
                repl = template(pat, repl)
            for i, mm in enumerate(pat.finditer(string)):
                if count and i >= count:
                    break
                out += [string[p:mm.start()], repl]
                p = mm.end()
            from .values import m_join
            return m_join('', out + [string[p:]])
        raise UnsupportedString('re.sub')
    ms, cells, groups, gd = all_matches(pattern, string, flags)
    out, p = [], 0
    for i, g in enumerate(ms):
        if count and i >= count:
            break
        out.extend(cells[p:g[0][0]])
        if callable(repl):
            mp = MatchProxy(string, (None, 0, groups, gd), 'search', SymBool(z3.BoolVal(True)))
            mp.sol = g
            from .values import parts_of
            out.extend(parts_of(repl(mp)))
        else:
            if '\\' in repl:
                raise UnsupportedString('re.sub template')
            out.append(repl)
        p = g[0][1]
    out.extend(cells[p:])
    return mkstr(out)


def split(pattern, string, maxsplit=0, flags=0):
    ms, cells, groups, gd = all_matches(pattern, string, flags)
    out, p = [], 0
    for i, g in enumerate(ms):
        if maxsplit and i >= maxsplit:
            break
        out.append(mkstr(cells[p:g[0][0]]))
        for j in range(1, groups):
            out.append(mkstr(cells[g[j][0]:g[j][1]]) if j in g else None)
        p = g[0][1]
    out.append(mkstr(cells[p:]))
    return out


def finditer(pattern, string, flags=0):
    ms, cells, groups, gd = all_matches(pattern, string, flags)
    for g in ms:
        mp = MatchProxy(string, (None, 0, groups, gd), 'search', SymBool(z3.BoolVal(True)))
        mp.sol = g
        yield mp


def findall(pattern, string, flags=0):
    ms, cells, groups, gd = all_matches(pattern, string, flags)
    out = []
    for g in ms:
        if groups <= 1:
            out.append(mkstr(cells[g[0][0]:g[0][1]]))
        elif groups == 2:
            out.append(mkstr(cells[slice(*g[1])]) if 1 in g else '')
        else:
            out.append(tuple(mkstr(cells[slice(*g[j])]) if j in g else '' for j in range(1, groups)))
    return out
